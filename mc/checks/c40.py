"""C40: rewriting a rules file in place never loses rules."""

import json
import os
import stat
from itertools import product

import yaml

from mc.engine import Harness
from mc import cli, env, stubs
from mc.checks.c09 import Disk, POWER, options
from mc.fullstack import snapshot
from mc.interrupt import Interrupt, choose
from mc.osched import Proc
from mc.rulesref import ref_lookup, ident_ok, NoDefault

PROPERTY = 'C40'
LEVEL = 'fault_enumeration'
RULE = ('one execution per document and flag, and per fault point and kind '
        '(all combinations up to the deviation bound); distinct by the '
        'resulting file content and exit status')
ASSUMPTIONS = [
    'power loss: metadata operations persist in order, file data that was not '
    'fsynced is lost, half written or zeroed',
    'the file system implements rename atomically',
    'comments and the layout of a rules file are not preserved',
]

DEFAULTS = {'ubuntu': 'apt', 'debian': None}
SMALL = '''# comment
k: {ubuntu: {v1: {apt: {packages: [p]}}, any_version: {pip: [x]}}}
z: {debian: {apt: [\u00e4, b]}}
'''
BIG = ''.join('key%d: {ubuntu: {v1: {apt: {packages: [%s]}}}}\n' %
              (i, 'x' * 200) for i in range(80))


def setup():
    stubs.platform([stubs.make_os('ubuntu', default='apt', detected='v1',
                                  parents=['debian', 'unix']),
                    stubs.make_os('debian', default=None, parents=['unix'])])


def command(path, *args):
    res = cli.run(['--no-color', '_compact_rules_file', path] + list(args))
    return res.code, res.out, res.err, bool(res.exc)


def lookups(text):
    from xylem.specs.plugins.rules import expand_rules
    rules = expand_rules(yaml.safe_load(text))
    out = {}
    for key in rules or ():
        for osn in ('ubuntu', 'debian', 'osx'):
            for ver in ('v1', 'v2', 'v9'):
                try:
                    got = ref_lookup(rules, key, osn, ver,
                                     DEFAULTS.get(osn))
                except NoDefault:
                    got = 'no default'
                if got:
                    out[key, osn, ver] = got
    return out


def write(path, data):
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('utf-8'))


def read(path):
    with open(path, 'rb') as f:
        return f.read()


_new = {}


def rewritten(c, text):
    """What an undisturbed run writes."""
    if text not in _new:
        p = os.path.join(c.tmp(), 'r.yaml')
        write(p, text)
        res = command(p, '-w')
        c.check(res[0] == 0, 'undisturbed run: %r', res)
        _new[text] = read(p)
    return _new[text]


def h_faults(name, text, bound):
    def fn(c):
        setup()
        new = rewritten(c, text)
        old = text.encode('utf-8')
        root = os.path.realpath(c.tmp())
        d = os.path.join(root, 'rules')
        os.mkdir(d)
        target = os.path.join(d, 'r.yaml')
        write(target, old)
        write(os.path.join(d, 'other.yaml'), b'other')
        mode, link = c.pick([(0o640, False), (0o666, True)], 'file')
        os.chmod(target, mode)
        path = target
        if link:
            os.mkdir(os.path.join(d, 'sub'))
            path = os.path.join(d, 'sub', 'link')
            os.symlink('../r.yaml', path)
        disk = Disk(d)
        faults, power = [], None
        p = Proc('compact', lambda: command(path, '-w'), d)
        try:
            while not p.done:
                op = p.op
                opts = options(op, disk)
                k = c.deviate(1 + len(opts), op.name)
                v = 'g' if k == 0 else opts[k - 1]
                c.event('%s %s' % (op.name, v))
                if k:
                    faults.append((op.name, v))
                if v.startswith('power'):
                    power = v.split()[1]
                    v = 'k'
                p.verdict(v)
                if op.name == 'fsync' and v == 'g':
                    disk.synced(op.ino)
            if not p.killed and disk.dirty():
                k = c.deviate(1 + len(POWER), 'power loss at the end')
                if k:
                    power = POWER[k - 1]
                    faults.append(('end', power))
        finally:
            p.dispose()
        if power:
            disk.lose(power)
        what = '%s, mode %o, faults %r' % ('link' if link else 'file', mode,
                                           faults)
        c.check(os.path.exists(target), what + ': file lost')
        got = read(target)
        c.check(got in (old, new), '%s: file is neither old nor new: %r',
                what, got[:200])
        c.eq(stat.S_IMODE(os.stat(target).st_mode), mode, what + ': mode')
        c.eq(read(os.path.join(d, 'other.yaml')), b'other', what + ': other')
        if link:
            c.check(os.path.islink(path), what + ': link replaced')
        if not p.killed:
            c.eq(p.result[0], 'ok', what + ': result')
            code = p.result[1][0]
            if not faults:
                c.eq(code, 0, what)
            if code == 0:
                c.eq(got, new, what + ': exit status 0, content')
            left = set(os.listdir(d)) - {'r.yaml', 'other.yaml', 'sub'}
            if len(faults) < 2:
                c.eq(left, set(), what + ': files left behind')
        # later undisturbed
        res = command(path, '-w')
        c.eq(res[0], 0, '%s, then again: %r' % (what, res))
        c.eq(read(target), new, what + ', then again')
        c.observe((got == new, p.killed, sorted(set(faults))))
    return Harness(name, fn, bound=bound, split=3, note='every file '
                   'operation killed, failing, short, or power lost')


def h_interrupted(files):
    def fn(c):
        setup()
        text = SMALL
        args = c.pick([('-w',), ()], 'write')
        new = rewritten(c, text)
        old = text.encode('utf-8')
        root = c.tmp()
        path = os.path.join(root, 'r.yaml')

        def start():
            write(path, old)
            return command(path, *args)
        n = choose(c, files, start, (files, args))
        write(path, old)
        os.chmod(path, 0o640)
        with Interrupt(files, n) as i:
            res = command(path, *args)
        what = 'compact %s interrupted at %s' % (' '.join(args), i.where)
        c.check(res[0] != 0, '%s: %r', what, res)
        got = read(path)
        c.check(got in ((old, new) if args else (old,)),
                '%s: file is %r', what, got[:200])
        c.eq(stat.S_IMODE(os.stat(path).st_mode), 0o640, what + ': mode')
        c.event(what)
        c.observe('%s %s' % (i.where, got == new))
    return Harness('interrupted', fn, split=1, note='the user interrupts at '
                   'every line of the command')


BAD = [b'k: [', b'k:', b'"":', b'k: {}\nz:', b'[]', b'k: p', b'k: {any_os: p}', b'k: {"a b": p}',
       b'k: {ubuntu: {v1: {apt: a, default_installer: b}}}', b'text', b'5',
       b'k: {ubuntu: "\xe4"}', b'\xff\xfek\x00', b'k: {ubuntu: p}\n# \xe4\n',
       b'k: {ubuntu: {v1: {apt: 5}}}',
       b'k: {ubuntu: {default_installer: p}}',
       b'k: {ubuntu: !!python/object:os.system x}',
       b'k: {ubuntu: {v1: {apt: {packages: {a: b}}}}}', b'k: {u: p}\x00',
       'missing', 'directory']


def bad_identifiers():
    from mc.checks.c04 import IDENTS
    out = []
    for x in IDENTS:
        if not isinstance(x, str):
            continue
        q = json.dumps(x)
        for level, text in (
                (None, '%s: {ubuntu: {v1: {apt: [p]}}}'),
                ('any_os', 'k: {%s: {v1: {apt: [p]}}}'),
                ('any_version', 'k: {ubuntu: {%s: {apt: [p]}}}'),
                ('default_installer', 'k: {ubuntu: {v1: {%s: [p]}}}')):
            if not ident_ok(x, level):
                out.append((text % q).encode('utf-8'))
    return out


def h_rejected():
    bad = BAD + bad_identifiers()

    def fn(c):
        setup()
        data = c.pick(bad, 'file')
        args = c.pick([(), ('-w',), ('--write',)], 'write')
        d = c.tmp()
        path = os.path.join(d, 'r.yaml')
        if data == 'directory':
            os.mkdir(path)
        elif data != 'missing':
            write(path, data)
        before = snapshot(d)
        code, out, err, exc = command(path, *args)
        what = 'compact %s of %r' % (' '.join(args), data)
        c.check(code != 0, '%s: exit status 0, %r', what, out)
        c.check((out + err).strip() or exc, what + ': nothing reported')
        c.eq(snapshot(d), before, what + ': files')
        c.observe(what)
    return Harness('rejected', fn, note='files that cannot be compacted')


NAMED = ['r.yaml', 'r', '.r', 'r.yaml.tmp', '$NAME.yaml', '${NAME}', '$HOME',
         '%NAME%', '~', '~r.yaml', '*.yaml', '[b].yaml', 'b;c', 'b c', ' b',
         'b\n', '%s', '{0}', '@{rf}', '\u00e4', "'", '"', '\\', '-w.yaml',
         'x' * 200]


def h_names():
    """The file that is named is the one that is rewritten."""
    def fn(c):
        setup()
        name = c.pick(NAMED, 'name')
        how = c.pick(['absolute', 'relative', 'below', 'home'], 'path')
        args = c.pick([(), ('-w',)], 'write')
        d = os.path.realpath(c.tmp())
        others = ['b.yaml', 'b', 'c', 'r.yaml', 'r', 'NAME', '.yaml']
        for o in others:
            write(os.path.join(d, o), 'z: {ubuntu: %s}\n' % (
                'o' + str(others.index(o))))
        os.mkdir(os.path.join(d, 'sub'))
        where = os.path.join(d, 'sub') if how == 'below' else d
        path = os.path.join(where, name)
        write(path, 'k: {ubuntu: p}\n')
        before = snapshot(d)
        arg = {'absolute': path, 'below': os.path.join('sub', name),
               'relative': './' + name if name[0] in '~-' else name,
               'home': '~/' + name}[how]
        env.set_home(d)
        cwd = os.getcwd()
        os.environ['NAME'] = 'b'
        os.chdir(d)
        try:
            code, out, err, exc = command(arg, *args)
        finally:
            os.chdir(cwd)
            del os.environ['NAME']
        what = 'compact %s %r' % (' '.join(args), arg)
        c.check(code == 0 and not exc, '%s: %r', what, (code, out, err))
        want = 'k:\n  ubuntu: [p]'
        c.eq(out.strip(), '' if args else want, what + ': output')
        c.eq(read(path).decode('utf-8').strip(),
             want if args else 'k: {ubuntu: p}', what + ': content')
        if args:
            write(path, 'k: {ubuntu: p}\n')
        c.eq(snapshot(d), before, what + ': files')
        c.observe(what)
    return Harness('names', fn, split=1, note='names of rules files')


RULE_TEXTS = ['p', '[p, q]', '{packages: [p], depends: [d]}',
              '{packages: ["1.0", "@{rf}", "\u00e4"]}', 'null',
              '{packages: p, opt: "yes"}']


def installer_texts():
    out = ['p', '[p, q]', 'null']
    for r in RULE_TEXTS:
        out += ['{apt: %s}' % r, '{pip: %s, default_installer: %s}' % (
            r, RULE_TEXTS[0])]
    return out


def h_documents(full):
    inst = installer_texts()
    vers = ['p', '[p, q]', 'null'] + \
        ['{%s: %s}' % x for x in product(['v1', 'any_version'], inst)] + \
        ['{v1: %s, any_version: %s}' % x
         for x in product(inst[:6], repeat=2)] + \
        ['{v1: %s, v2: %s}' % (x, x) for x in inst]
    empty = ['{}', 'k: {}', 'k: {}\nother: {}', 'k: {}\nother: {ubuntu: o}',
             '# nothing\n{}', '', '# nothing', 'null', '---', 'k: {ubuntu: {}}',
             'k: {ubuntu: {v1: {}}}', 'k: {any_os: {}}',
             'k: {any_os: {any_version: {}}}',
             'k: {ubuntu: {v1: {apt: {}}}}',
             'k: {ubuntu: {v1: {apt: {packages: []}}}}',
             'k: {ubuntu: []}', 'k: {ubuntu: {v1: {apt: []}}}']
    any_os = [None, '{pip: [p]}', '{any_version: {apt: p, pip: [q]}}']

    def fn(c):
        setup()
        whole = c.pick([None] + empty, 'document')
        if whole is not None:
            return check(c, whole + '\n')
        a = c.pick(any_os, 'any_os')
        u = c.pick([None] + vers, 'ubuntu')
        b = c.pick([None, 'p', '{v1: {apt: [x]}, v2: {pip: null}}'] if not full else
                   [None] + vers, 'debian')
        text = 'other: {ubuntu: o}\nk:'
        for name, t in (('ubuntu', u), ('debian', b), ('any_os', a)):
            if t:
                text += '\n  %s: %s' % (name, t)
        if not (a or u or b):
            text += ' {}'
        check(c, text + '\n')

    def check(c, text):
        want = lookups(text)
        d = c.tmp()
        path = os.path.join(d, 'r.yaml')
        write(path, text)
        before = snapshot(d)
        what = 'compact of %r' % text
        code, out, err, exc = command(path)
        c.check(code == 0 and not exc, '%s: %r', what, (code, out, err))
        c.eq(snapshot(d), before, what + ' without -w: files')
        st, v = c.call(lookups, out)
        c.eq((st, v), ('ok', want), '%s: lookups of %r' % (what, out))
        code, out2, err, exc = command(path, '-w')
        c.check(code == 0 and not exc, '%s: %r', what, (code, out2, err))
        c.eq(os.listdir(d), ['r.yaml'], what + ': files')
        got = read(path).decode('utf-8')
        c.eq(got.strip(), out.strip(), what + ': written and printed')
        c.eq(out2.strip(), '', what + ': printed with -w')
        c.observe(got)
    return Harness('documents', fn, split=2, note='all documents of the '
                   'bounded grammar, printed and written')


def harnesses(tier):
    t = tier == 'thorough'
    return [h_faults('faults', SMALL, 3 if t else 2),
            h_faults('faults_big', BIG, 2 if t else 1), h_rejected(),
            h_documents(t), h_names(),
            h_interrupted(('xylem/commands/_compact_rules_file.py',) + (
                ('xylem/yaml_utils.py', 'xylem/text_utils.py',
                 'xylem/specs/plugins/rules.py', 'xylem/log_utils.py')
                if t else ()))]
