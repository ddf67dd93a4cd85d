"""C46: help texts are complete and laid out as documented."""

import argparse
import os

from mc.engine import Harness
from mc import cli, env
from mc.sizes import sizes

PROPERTY = 'C46'
ASSUMPTIONS = [
    'help texts follow the convention of argparse for % signs; where words '
    'that do not fit on a line or have hyphens are broken is not specified',
    'the indentation of the first line of a raw paragraph is not specified '
    'if its marker is preceded by line breaks',
]


# ------------------------------------------------------------- reference ---
def paragraphs(text):
    """Split at runs of at least three line breaks."""
    out, cur, i = [], '', 0
    while i < len(text):
        j = i
        while j < len(text) and text[j] == '\n':
            j += 1
        if j - i >= 3:
            out.append(cur)
            cur = ''
            i = j
        else:
            cur += text[i]
            if j - i == 2:
                cur += '\n'
                i += 1
            i += 1
    return out + [cur]


def reflow(words, width):
    """-> lines of the words; words that do not fit are left to the end"""
    lines = []
    for w in words:
        if lines and len(lines[-1]) + 1 + len(w) <= width:
            lines[-1] += ' ' + w
        else:
            lines.append(w)
    return lines


def raw(para):
    """-> (lines, whether the indentation of the first one matters)"""
    at = para.index('R|')
    text = ' ' * (at + 2) + para[at + 2:]
    lines = text.split('\n')
    filled = [l for l in lines if l.strip()]
    margin = min([len(l) - len(l.lstrip(' ')) for l in filled] or [0])
    return [l[margin:] if l.strip() else '' for l in lines], \
        '\n' not in para[:at]


def layout(text, width):
    """The documented lines, a list per paragraph.

    An entry (exact, line) is a line, an entry ('chars', text) stands for any
    lines with these characters.
    """
    out = []
    for para in paragraphs(text):
        if para.strip().startswith('R|'):
            lines, first = raw(para)
            out += [('line' if first or i else 'stripped', l)
                    for i, l in enumerate(lines)]
        else:
            for block in para.split('\n\n'):
                words = block.split()
                if any(len(w) > width or '-' in w[1:] for w in words):
                    out.append(('chars', ''.join(words)))
                else:
                    out += [('line', l) for l in reflow(words, width)]
        out.append(('line', ''))
    return squeeze(out[:-1], lambda l: l[1].strip())


def squeeze(lines, filled):
    """Without empty lines at the ends and repeated ones."""
    out = []
    for l in lines:
        if filled(l) or (out and filled(out[-1])):
            out.append(l)
    while out and not filled(out[-1]):
        out.pop()
    return out


def compare(c, got, want, width, what):
    """Compare lines with the documented ones."""
    got = squeeze([l.rstrip() for l in got], lambda l: l)
    i = 0
    shown = '%s: got %r, expected %r' % (what, got, want)
    for kind, text in want:
        if kind == 'chars':
            left = text
            while left:
                c.check(i < len(got), '%s', shown)
                part = ''.join(got[i].split())
                c.check(part and left.startswith(part) and
                        len(got[i]) <= width, '%s', shown)
                left = left[len(part):]
                i += 1
            continue
        c.check(i < len(got), '%s', shown)
        if kind == 'stripped':
            c.check(got[i].strip() == text.strip(), '%s', shown)
        else:
            c.check(got[i] == text.rstrip(), '%s', shown)
        i += 1
    c.check(i == len(got), '%s', shown)


def cut(c, lines, column, what):
    """Remove the indentation."""
    for l in lines:
        c.check(not l[:column].strip(), '%s: indentation of %r in %r', what,
                l, lines)
    return [l[column:] for l in lines]


# ---------------------------------------------------------------- layout ---
TOKENS = ['a', 'one two three four five six seven eight nine ten eleven '
          'twelve', ' ', '\n', '\n\n', '\n\n\n', '\n\n\n\n\n', 'R|', '  b',
          '%%', 'w' * 61, '\u65e5\u672c(x)']
WIDTHS = [30, 60]


def show(context, text, width):
    """Format a help text -> (lines, width, %-expanded text)"""
    from xylem.config_utils import ConfigHelpFormatter
    p = argparse.ArgumentParser(
        prog='p', usage='USAGE', add_help=False,
        description=text if context == 'description' else None,
        formatter_class=lambda prog: ConfigHelpFormatter(prog, width=width))
    if context == 'argument':
        p.add_argument('--x', action='store_true', help=text)
    elif context == 'group':
        p.add_argument_group('TITLE', text).add_argument(
            '--x', action='store_true')
    return p.format_help().split('\n')


def h_texts(n, contexts):
    def fn(c):
        tokens = [c.pick(TOKENS, 'text')]
        while len(tokens) < n and c.flag('more'):
            tokens.append(c.pick(TOKENS, 'text'))
        text = ''.join(tokens)
        if not text.replace('R|', '').strip():
            c.prune()
        for context in contexts:
            for width in WIDTHS:
                lines = show(context, text, width)
                what = '%s %r at width %d' % (context, text, width)
                if context == 'argument':
                    i = [j for j, l in enumerate(lines)
                         if l.startswith('  --x')][-1]
                    lines = lines[i:]
                    c.check(lines[0][:7].strip() == '--x', '%s: %r', what,
                            lines)
                    lines = cut(c, [' ' * 7 + lines[0][7:]] + lines[1:], 7,
                                what)
                    w = width - 7
                    expanded = text.replace('%%', '%')
                elif context == 'group':
                    i = lines.index('TITLE:')
                    j = [k for k, l in enumerate(lines)
                         if l.startswith('  --x')][-1]
                    lines = cut(c, lines[i + 1:j], 2, what)
                    w = width - 4
                    expanded = text
                else:
                    i = [k for k, l in enumerate(lines) if 'USAGE' in l][0]
                    lines = lines[i + 1:]
                    w = width
                    expanded = text
                want = layout(expanded, w)
                compare(c, lines, want, w, what)
                c.event('')
        c.observe('%d lines' % len(want))
    return Harness('texts', fn, split=3,
                   note='all texts of up to %d of %d tokens as help of an '
                   'argument, description of a group and of a parser, at %d '
                   'widths' % (n, len(TOKENS), len(WIDTHS)))


# --------------------------------------------------------------- options ---
VALUES = [('String', 'val'), ('String', '100%'), ('String', '50% of it'),
          ('String', '%s'), ('String', '%(prog)s %(default)s'),
          ('String', '{0}'), ('String', '%%'), ('String', '\u65e5'),
          ('String', 'R|x'), ('Boolean', True), ('Boolean', False),
          ('List', ['x1', 'y2']), ('List', ['5%', '%d']),
          ('Dict', {'k1': 'v%'}), ('MergingDict', {'k1': 'v2'}),
          ('Path', '/p%q'), ('Any', 5), (None, None)]
HELPS = [None, '', 'Some help.', 'R|raw\n  text', '100%% sure, %(prog)s',
         'one\n\ntwo\n\n\nthree', '\u65e5']
NAMES = [('a', True), ('a-b', True), ('a_b', True), ('g/a', True),
         ('a', 'other'), ('g/a', 'a'), ('g/100%', 'pct')]


def words(value):
    if isinstance(value, list):
        return [str(v) for v in value]
    if isinstance(value, dict):
        return [str(w) for kv in value.items() for w in kv]
    return [str(value)]


def h_options():
    def fn(c):
        from xylem import config_utils as cu
        kind, default = c.pick(VALUES, 'default')
        text = c.pick(HELPS, 'help')
        name, arg = c.pick(NAMES, 'name')
        second = c.flag('second option')
        d = cu.ConfigDescription('conf')
        kw = {'command_line': True} if arg is True else {
            'command_line_argument': arg}
        if kind:
            kw.update(type=getattr(cu, kind), default=default)
        else:
            kw.update(type=cu.String)
        if text is not None:
            kw['help'] = text
        d.add(name, **kw)
        if second:
            d.add('second', type=cu.Boolean, default=True, command_line=True,
                  help='Second help.')
        parser = argparse.ArgumentParser(
            prog='PRG', add_help=False, usage='USAGE',
            formatter_class=lambda prog: cu.ConfigHelpFormatter(
                prog, width=500))
        d.add_arguments(parser)
        what = 'option %r, default %r, help %r' % (name, default, text)
        st, shown = c.call(parser.format_help)
        c.check(st == 'ok', '%s: %r', what, shown)
        opt = '--' + (arg if arg is not True else name.replace(
            '_', '-').replace('/', '-'))
        parts = {}
        at = None
        for l in shown.split('\n'):
            if l.lstrip().startswith('--'):
                at = l.split()[0]
                parts[at] = ''
            elif l and not l.startswith(' '):
                at = None
            if at:
                parts[at] += l + '\n'
        c.eq(sorted(parts), sorted([opt] + ['--second'] * second), what)
        mine = parts[opt]
        pos = 0
        expanded = (text or '').replace('%%', '%').replace('%(prog)s', 'PRG')
        if expanded.startswith('R|'):
            expanded = expanded[2:]
        for w in expanded.split() + (
                [name] if '/' in name or arg == 'other' else []) + [
                kind or 'String'] + (words(default) if kind else []):
            i = mine.find(w, pos)
            c.check(i >= 0, '%s: %r is not shown (in order) in %r', what, w,
                    mine)
            pos = i + len(w)
        if not kind:
            c.check('default' not in mine, '%s: %r', what, mine)
        if second:
            s = parts['--second']
            for w in ('Second help.', 'Boolean', 'True'):
                c.check(w in s, '%s: second option: %r', what, s)
        c.observe(mine)
    return Harness('options', fn, split=2,
                   note='%d defaults, %d help texts, %d names' % (
                       len(VALUES), len(HELPS), len(NAMES)))


# -------------------------------------------------------------- commands ---
ODD = u'All of it, 100%, %s %d %% {0} {x} $y @!b@| @{c} \\n it\'s "q" \xe9.'


def h_commands():
    def fn(c):
        import pkg_resources
        from xylem.commands.main import list_commands, load_command_definition
        from xylem.config import get_config_description
        cmds = list_commands()
        public = [x for x in cmds if not x.startswith('_')]
        c.check({'update', 'resolve', 'lookup', 'install'} <= set(public),
                'commands %r', cmds)
        cmd = c.pick([None] + sorted(cmds), 'command')
        columns = c.pick([30, 80, 132, 1000], 'columns')
        option = c.pick(['-h', '--help'], 'option')
        before = [['-v'], ['--no-color'], []][c.choose(3, 'before')]
        defi = load_command_definition(cmd) if cmd else {}
        described = dict(defi)
        if cmd and c.flag('other description'):
            defi['description'] = ODD
        saved = os.environ.get('COLUMNS')
        os.environ['COLUMNS'] = str(columns)
        try:
            r = cli.run(before + ([cmd] if cmd else []) + [option])
        finally:
            if saved is None:
                os.environ.pop('COLUMNS')
            else:
                os.environ['COLUMNS'] = saved
            text = defi.get('description')
            defi.update(described)
        what = 'xylem %s %s at %d columns' % (cmd, option, columns)
        c.check(r.code == 0 and not r.exc, '%s: %r', what, r)
        c.check(not env.strip_ansi(r.err).strip(), '%s: %r', what, r)
        out = env.strip_ansi(r.out)
        flat = ' '.join(out.split())
        if cmd:
            c.check(' '.join(text.split()) in flat or columns < 80,
                    '%s: description %r is not in %r', what, text, flat)
            c.check(''.join(text.split()) in ''.join(out.split()),
                    '%s: description %r is not in %r', what, text, flat)
        else:
            for x in public:
                c.check(x in flat.split() or '[' + x in flat.split() or
                        x + ']' in flat.split(), '%s: command %s is not '
                        'in %r', what, x, flat)
            c.check('_compact' not in flat, '%s: private command in %r',
                    what, flat)
        # every option of the configuration and every global one is explained
        at = out.index('arguments:')
        starts = {l.split()[0].rstrip(',') for l in out[at:].split('\n')
                  if l.strip().startswith('-')}
        n = 0
        for item in get_config_description().items.values():
            if item.command_line:
                n += 1
                c.check('--' + item.command_line_argument in starts,
                        '%s: --%s is not in %r', what,
                        item.command_line_argument, sorted(starts))
        c.check(n > 5, '%s: %d options', what, n)
        for o in ('--prefix', '--xylem-dir', '--version', '-h', '-v'):
            c.check(o in starts, '%s: %s is not in %r', what, o,
                    sorted(starts))
        c.observe('%s %d' % (cmd, columns))
    return Harness('commands', fn, note='help of every command at four '
                   'widths')


EXTRA = ['my_command', 'my-command', 'a', 'Install', 'x2_', '_own', '__y',
         '_a_b']


def h_extra():
    """Commands that others provide, with all kinds of names."""
    def fn(c):
        import pkg_resources
        from xylem.commands.main import XYLEM_CMDS_GROUP
        extra = [n for n in EXTRA if c.flag(n)]
        defis = [(e.name, e.load()) for e in
                 pkg_resources.iter_entry_points(group=XYLEM_CMDS_GROUP)]
        base = dict(defis)['resolve']
        known = [n for n, _ in defis]
        new = [(n, dict(base, title=n, description='About %s.' % n))
               for n in extra]
        env.plugins.script(XYLEM_CMDS_GROUP, new + defis
                           if c.flag('before the others') else defis + new)
        try:
            r = cli.run(['-h'])
            each = [(n, cli.run([n, '-h'])) for n in extra]
        finally:
            del env.plugins.groups[XYLEM_CMDS_GROUP]
        what = 'help with the commands %r' % (extra,)
        c.check(r.code == 0 and not r.exc, '%s: %r', what, r)
        words = set(env.strip_ansi(r.out).replace('[', ' ').replace(
            ']', ' ').replace(',', ' ').split())
        for n in known + extra:
            if n.startswith('_'):
                c.check(n not in words, '%s: private %s in %r', what, n,
                        r.out)
            else:
                c.check(n in words, '%s: %s is not in %r', what, n, r.out)
        for n, r in each:
            c.check(r.code == 0 and not r.exc, '%s: %s: %r', what, n, r)
            c.check('About %s.' % n in env.strip_ansi(r.out),
                    '%s: %s: %r', what, n, r)
        c.observe(repr(extra))
    return Harness('extra', fn, split=2)


def h_sizes(tier):
    """Texts of many words, lines and paragraphs at every width."""
    def fn(c):
        n = c.pick(sizes(tier, 130 if tier == 'quick' else 520)[1:],
                   'number')
        what = c.pick(['words', 'lines', 'paragraphs', 'blocks', 'width',
                       'long'], 'of')
        context = c.pick(['argument', 'group', 'description'], 'context')
        width = 50
        if what == 'words':
            text = ' '.join('w%d' % i for i in range(n))
        elif what == 'lines':
            text = 'R|' + '\n'.join('line  %d' % i for i in range(n))
        elif what == 'paragraphs':
            text = '\n\n\n'.join('par %d' % i if i % 3 else 'R|raw  %d' % i
                                  for i in range(n))
        elif what == 'blocks':
            text = '\n\n'.join('block %d' % i for i in range(n))
        elif what == 'long':
            text = 'a ' + 'x' * n + ' b'
        else:
            text = ' '.join(['one two'] * 40)
            width = 30 + n
        lines = show(context, text, width)
        label = '%d %s in %s' % (n, what, context)
        if context == 'argument':
            i = [j for j, l in enumerate(lines) if l.startswith('  --x')][-1]
            lines = cut(c, [' ' * 7 + lines[i][7:]] + lines[i + 1:], 7, label)
            w = width - 7
        elif context == 'group':
            i = lines.index('TITLE:')
            j = [k for k, l in enumerate(lines) if l.startswith('  --x')][-1]
            lines = cut(c, lines[i + 1:j], 2, label)
            w = width - 4
        else:
            i = [k for k, l in enumerate(lines) if 'USAGE' in l][0]
            lines = lines[i + 1:]
            w = width
        compare(c, lines, layout(text, w), w, label)
        c.observe((n, what, context, len(lines)))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    q = tier == 'quick'
    return [h_texts(4 if q else 5, ['argument', 'group', 'description']),
            h_options(), h_commands(), h_extra(), h_sizes(tier)]
