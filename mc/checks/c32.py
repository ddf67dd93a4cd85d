"""C32: console text is shown faithfully."""

from itertools import product

from mc.engine import Harness
from mc import cli, env
from mc.installworld import World
from mc.sizes import sizes

PROPERTY = 'C32'
ASSUMPTIONS = [
    'characters the console cannot encode are replaced, nothing else',
    'literal text following interpolated data in a template does not start '
    'with one of !/_|',
]

ALPHABET = ['@', '!', '/', '_', '|', '{', '}', 'a', 'reset', 'é', '$', '\n']
MARKUP = {'@!': 'boldon', '@/': 'italicson', '@_': 'ulon', '@|': 'reset',
          '@{redf}': 'redf', '@{ulon}': 'ulon'}


def colors(c):
    from xylem import terminal_color as t
    on = c.flag('colors')
    (t.enable_ANSI_colors if on else t.disable_ANSI_colors)()
    return on


def h_markup(n):
    texts = [''.join(x) for m in range(n + 1)
             for x in product(ALPHABET, repeat=m)]
    chunk = 400

    def fn(c):
        from xylem import terminal_color as t
        on = colors(c)
        k = c.choose((len(texts) + chunk - 1) // chunk, 'block')
        reset = t.ansi('reset')
        marks = {m: t.ansi(a) for m, a in MARKUP.items()}
        try:
            for s in texts[k * chunk:(k + 1) * chunk]:
                c.eq(t.fmt(t.sanitize(s)), s + reset,
                     'fmt(sanitize(%r)), colors %r' % (s, on))
                for m, a in marks.items():
                    c.eq(t.fmt(m + t.sanitize(s) + '@|' + t.sanitize(s) + m),
                         a + s + reset + s + a + reset,
                         'fmt of %r in markup %r, colors %r' % (s, m, on))
                c.event(s)
        finally:
            t.enable_ANSI_colors()
        c.observe('%r %d' % (on, k))
    return Harness('markup', fn, split=2,
                   note='all texts of up to %d symbols' % n)


def h_toggle(n):
    def fn(c):
        from xylem import terminal_color as t
        ops = []
        t.enable_ANSI_colors()
        on = True
        reference = {k: t.ansi(k) for k in
                     ['escape', 'reset', 'boldon', '!', '/', '_', '|',
                      'red', 'redf', 'rf', 'redb', 'rb', 'kf', 'uloff'] +
                     [x + y for x in ('black', 'red', 'green', 'yellow',
                                      'blue', 'purple', 'cyan', 'white')
                      for y in 'fb']}
        import re
        try:
            for i in range(n):
                on = c.flag('enable %d' % i)
                ops.append(on)
                (t.enable_ANSI_colors if on else t.disable_ANSI_colors)()
                for k, v in reference.items():
                    c.eq(t.ansi(k), v if on else '', '%s after %r' % (k, ops))
                    if on and k != 'escape':
                        c.check(re.match('\033\\[[0-9]+m$', v), '%s is %r', k,
                                v)
                text = t.fmt('@!x@|@{greenf}' + t.sanitize('@!@@y@_'))
                c.eq(env.strip_ansi(text), 'x@!@@y@_', 'after %r' % ops)
                c.eq(text == env.strip_ansi(text), not on,
                     'colors in %r after %r' % (text, ops))
            fg = {reference[x + 'f'] for x in (
                'black', 'red', 'green', 'yellow', 'blue', 'purple', 'cyan',
                'white')}
            c.eq(len(fg), 8, 'distinct colors')
        finally:
            t.enable_ANSI_colors()
        c.observe(repr(ops))
    return Harness('toggle', fn, note='all sequences of %d switches' % n)


class Obj(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


TEXTS = ['', 'plain', 'a\nb', '@!bold@|', '@', '@@', '{0}', '%s', '{', '\\n',
         'é', '日本', '\U0001f600', 'a\tb', ' lead', 'trail ', '\033[1mx',
         '\x00', '$x ${y}', '\x85', '\u2028']
FORMS = ['text', 'bytes', 'object', 'exception', 'list', 'number', 'none',
         'bad bytes', 'bad text']
FUNCS = ['info', 'warning', 'error', 'debug', 'info_v', 'error exit']


def make(form, s):
    """-> (message, the text it stands for)"""
    if form == 'text':
        return s, s
    if form == 'bytes':
        return s.encode('utf-8'), s
    if form == 'object':
        return Obj(s), s
    if form == 'exception':
        e = ValueError(s)
        return e, ('ValueError: ' + s if s else 'ValueError')
    if form == 'list':
        return [s, 'x'], '[%s, x]' % s
    if form == 'number':
        return 12, '12'
    if form == 'none':
        return None, 'None'
    if form == 'bad bytes':
        return s.encode('utf-8') + b'\xff', s + '\ufffd'
    return s + '\udcff', s + '?'


def h_log():
    def fn(c):
        from xylem import log_utils
        cli.reset()
        on = colors(c)
        func = c.pick(FUNCS, 'function')
        where = c.pick(['default', 'file'], 'where')
        encoding = c.pick(['utf-8', 'ascii', 'latin-1', 'utf-16'], 'encoding')
        verbose = c.flag('verbose')
        debug = c.flag('debug')
        import sys
        saved = sys.stdout, sys.stderr
        try:
            for s in TEXTS:
                for form in FORMS:
                    msg, text = make(form, s)
                    f = env.Console(encoding)
                    sys.stdout = env.Console(encoding)
                    sys.stderr = env.Console(encoding)
                    log_utils.enable_verbose(verbose)
                    log_utils.enable_debug(debug)
                    kw = {'file': f} if where == 'file' else {}
                    status = None
                    try:
                        if func == 'error exit':
                            log_utils.error(msg, exit=True, **kw)
                        else:
                            getattr(log_utils, func)(msg, **kw)
                    except SystemExit as e:
                        status = e.code
                    finally:
                        got = [sys.stdout.text(), sys.stderr.text(), f.text()]
                        sys.stdout, sys.stderr = saved
                    what = '%s of %s %r (%s, %s, colors %r)' % (
                        func, form, s, where, encoding, on)
                    want = text.encode(encoding, 'replace').decode(encoding)
                    i = 2 if where == 'file' else 0 if func == 'info' else 1
                    shown = ''
                    if func == 'error exit':
                        c.check(isinstance(status, str), '%s: exit with %r',
                                what, status)
                        shown = status + '\n'
                        c.eq(got, ['', '', ''], what)
                    elif (func == 'debug' and not debug) or (
                            func == 'info_v' and not verbose):
                        c.eq(got, ['', '', ''], what)
                        continue
                    else:
                        shown = got[i]
                        c.eq(got[:i] + got[i + 1:], ['', ''], what)
                    if encoding == 'utf-16':
                        shown = shown.replace('\ufeff', '')
                    if on:
                        c.check(shown != want + '\n', '%s: no color', what)
                        c.eq(env.strip_ansi(shown), env.strip_ansi(want + '\n'),
                             what)
                        c.check(want in shown, '%s: %r', what, shown)
                        c.check(shown.endswith('\033[0m\n'),
                                '%s: color is not reset in %r', what, shown)
                    else:
                        c.eq(shown, want + '\n', what)
                    c.event(what)
        finally:
            cli.reset()
        c.observe('%r %s %s %s %r %r' % (on, func, where, encoding, verbose,
                                         debug))
    return Harness('messages', fn, split=2,
                   note='%d texts in %d forms by every function, on consoles '
                   'of 4 encodings' % (len(TEXTS), len(FORMS)))


def h_text():
    """Conversions between text and bytes."""
    def fn(c):
        from xylem.text_utils import to_str, to_bytes, type_name
        form = c.pick(FORMS, 'form')
        for s in TEXTS:
            msg, text = make(form, s)
            if form != 'bad text':
                c.eq(to_str(msg), text, 'to_str(%s %r)' % (form, s))
                c.eq(to_str(to_bytes(to_str(msg))), text,
                     'round trip of %s %r' % (form, s))
            else:
                c.eq(to_str(msg), msg, 'to_str of text')
            if form in ('text', 'bytes', 'object', 'bad text'):
                c.eq(to_bytes(msg), text.encode('utf-8'),
                     'to_bytes(%s %r)' % (form, s))
            if form == 'text':
                for enc in ('ascii', 'latin-1', 'utf-16', 'utf-8'):
                    c.eq(to_str(to_bytes(s, enc), enc),
                         s.encode(enc, 'replace').decode(enc),
                         'round trip of %r via %s' % (s, enc))
        for obj, n in ((1, 'int'), ('', 'str'), (b'', 'bytes'), (None,
                       'NoneType'), ([], 'list'), ({}, 'dict')):
            c.eq(type_name(obj), n, 'type_name(%r)' % (obj,))
        c.observe(form)
    return Harness('text', fn, note='all texts in all forms')


PKGS = ['@!p', 'p@|', '@@', '@{redf}', 'p@', '{0}', '%s', 'é', '日', '@_x@/',
        '$p', '@{nope}', '"@', 'p@!/']


def h_shown():
    """Package names in the output of commands."""
    from mc.checks import c31

    def fn(c):
        k = c.choose(len(PKGS), 'package')
        pkg = PKGS[k]
        cmd = c.pick(['resolve', 'install', 'dry run', 'failing', 'noop',
                      'missing'], 'command')
        color = c.flag('color')
        keys = {'key': ('a', [pkg]), 'two': ('b', [pkg, 'q'])}

        def build(site):
            site.write_sources('10.yaml', ['r'])
            site.write_rules('r', {
                k_: {'ubuntu': {'any_version': {i: {'packages': ps}}}}
                for k_, (i, ps) in keys.items()})
            c31.configure(site, installer_options={
                n: {'as_root': False} for n in 'abc'})
            r = c31.run(site, 'update')
            assert r.code == 0 and not r.exc, r
        w = World(c, [], 'each', keys=keys, outcome=lambda argv: {
            'failing': 'fail', 'noop': 'noop', 'missing': 'oserror'}.get(
                cmd, 'ok'))
        site = c31.shared_site('pkg%d' % k, build)
        args = [] if color else ['--no-color']
        args += {'resolve': ['resolve'], 'dry run': [
            'install', '--dry-run']}.get(cmd, ['install']) + ['key', 'two']
        if cmd in ('failing', 'noop', 'missing'):
            args.append('--continue-on-error')
        r = c31.run(site, *args)
        what = 'xylem %s, package %r (%s)' % (' '.join(args), pkg, cmd)
        c.check(r.exc is None, '%s: %r', what, r)
        out = env.strip_ansi(r.out)
        err = env.strip_ansi(r.err)
        if cmd == 'resolve':
            c.eq(out.split('\n')[:2], ['key --> ' + pkg, 'two --> b: %s, q' %
                                       pkg], what)
        elif cmd in ('install', 'dry run'):
            c.eq(r.code, 0, what)
            for i in 'ab':
                c.check('%s install %s' % (i, pkg) in out.replace('"', '').
                        replace("'", '') or
                        '%s install %s' % (i, pkg) in out or
                        "install '%s'" % pkg in out or
                        'install "%s"' % pkg in out,
                        '%s: command is not shown in %r', what, out)
        else:
            c.check(r.code != 0, '%s: exit status', what)
            c.check(pkg in err, '%s: package is not shown in %r', what, err)
        if not color:
            c.check('\033' not in r.out + r.err, '%s: colors in %r', what, r)
        c.observe('%s %r %r' % (cmd, color, r.code))
    return Harness('commands', fn, split=1,
                   note='%d tricky package names in every command' % len(PKGS))


def h_sizes(tier):
    """Long texts of plain and of special characters."""
    def fn(c):
        from xylem import log_utils, terminal_color as t
        from xylem.text_utils import to_str, to_bytes
        n = c.pick(sizes(tier), 'number')
        base = c.pick([0, 500, 1000, 4090, 8185], 'base')
        unit = c.pick(['x', '@', '@!', '\u65e5', 'x\n', '{', '%s', ' '],
                      'repeated')
        cli.reset()
        on = colors(c)
        s = unit * (base + n)
        what = '%d times %r' % (base + n, unit)
        try:
            c.eq(t.fmt(t.sanitize(s)), s + t.ansi('reset'), what + ': fmt')
            c.eq(to_str(to_bytes(s)), s, what + ': bytes')
            for func in ('info', 'warning', 'error'):
                f = env.Console('utf-8')
                getattr(log_utils, func)(s, file=f)
                c.eq(env.strip_ansi(f.text()), s + '\n', '%s of %s' % (
                    func, what))
        finally:
            cli.reset()
        c.observe((base + n, unit, on))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    return [h_markup(4 if tier == 'quick' else 5), h_toggle(4), h_log(),
            h_text(), h_shown(), h_sizes(tier)]
