"""C38: the running system is recognised from its release information."""

import builtins
import importlib
import io
import os
import platform
import sys
from itertools import permutations

from mc.engine import Harness
from mc import env

PROPERTY = 'C38'
LOUD = True
ASSUMPTIONS = [
    'release files are text in the layout their distribution uses, complete '
    'or cut off anywhere, or contain something else; a code name is one word',
    'the table of distributions of the Python library is scripted (current '
    'Python versions do not have it)',
]

TABLE = {'debian': ('debian', '7.6', 'wheezy'),
         'ubuntu': ('Ubuntu', '14.04', 'trusty'),
         'xubuntu': ('Xubuntu', '13.10', 'saucy'),
         'mint': ('LinuxMint', '17', 'qiana')}

FEDORA = 'Fedora release 20 (Heisenbug)\nKernel \\r on an \\m (\\l)\n'
RHEL = 'Red Hat Enterprise Linux Server release 6.5 (Santiago)\n'
CENTOS = 'CentOS release 6.5 (Final)\n'
GENTOO = 'Gentoo Base System release 2.2\n'
BRAND = 'openSUSE\nVERSION = 13.1\n'
SUSE = 'openSUSE 13.1 (x86_64)\nVERSION = 13.1\nCODENAME = Bottle\n'

# name -> files, uname, platform, (name, version, codename)
WORLDS = {
    'arch': {'files': {'/etc/arch-release': ''}, 'is': ('arch', '', '')},
    'cygwin': {'files': {'/usr/bin/cygwin1.dll': 'MZ'},
               'uname': ('CYGWIN_NT-6.1', '1.7.31'),
               'is': ('cygwin', '1.7.31', '')},
    'fedora': {'files': {'/etc/redhat-release': FEDORA.split('\n')[0] + '\n',
                         '/etc/issue': FEDORA},
               'is': ('fedora', '20', 'heisenbug')},
    'rhel': {'files': {'/etc/redhat-release': RHEL, '/etc/issue': RHEL},
             'is': ('rhel', '6.5', 'santiago')},
    'centos': {'files': {'/etc/redhat-release': CENTOS,
                         '/etc/issue': CENTOS}, 'is': None},
    'freebsd': {'uname': ('FreeBSD', '10.0-RELEASE'),
                'is': ('freebsd', '10.0-RELEASE', '')},
    'qnx': {'uname': ('QNX', '6.5.0'), 'is': ('qnx', '6.5.0', '')},
    'gentoo': {'files': {'/etc/gentoo-release': GENTOO},
               'is': ('gentoo', '2.2', '')},
    'opensuse': {'files': {'/etc/SuSE-brand': BRAND,
                           '/etc/SuSE-release': SUSE},
                 'is': ('opensuse', '13.1', 'Bottle')},
    'sles': {'files': {'/etc/SuSE-brand': 'SLE\nVERSION = 11\n',
                       '/etc/SuSE-release': SUSE.replace('openSUSE', 'SLE')},
             'is': None},
    'osx': {'files': {'/usr/bin/sw_vers': ''}, 'uname': ('Darwin', '13.0'),
            'sw_vers': '10.9.5', 'is': ('osx', '10.9.5', 'mavericks')},
    'windows': {'uname': None, 'system': ('Windows', '6.1.7601', '7'),
                'is': ('windows', '6.1.7601', '7')},
    'nothing': {'uname': None, 'is': None},
    'linux': {'files': {'/etc/issue': 'Linux From Scratch\n'}, 'is': None},
}
for _n, _t in TABLE.items():
    WORLDS[_n] = {'table': _t, 'is': (_n, _t[1], _t[2]),
                  'files': {'/etc/issue': '%s %s \\n \\l\n' % _t[:2]}}

UNAMES = ('/bin/uname', '/usr/bin/uname')
PATHS = sorted({p for w in WORLDS.values() for p in w.get('files', ())} |
               set(UNAMES))


class World(object):
    """The scripted system: its files below a scratch root, its programs,
    the platform module."""

    def __init__(self, c, files, uname, table=None, via='linux_distribution',
                 system=('Linux', '#1', '3.13'), sw_vers=None, fail=(),
                 fresh=True):
        self.fresh = fresh
        self.root = os.path.realpath(c.tmp())
        self.files = dict(files)
        if uname is not None:
            for p in UNAMES:
                self.files.setdefault(p, '')
        for p, content in self.files.items():
            d = self.root + p
            os.makedirs(os.path.dirname(d), exist_ok=True)
            if content is Dir:
                os.mkdir(d)
            else:
                with open(d, 'wb') as f:
                    f.write(content if isinstance(content, bytes)
                            else content.encode())
        self.uname, self.table, self.via = uname, table, via
        self.system, self.sw_vers, self.fail = system, sw_vers, fail

    def where(self, path):
        if isinstance(path, str) and path in PATHS:
            return self.root + path
        return path

    def program(self, argv):
        name = os.path.basename(argv[0])
        args = ' '.join(argv[1:])
        if name in self.fail or (name, args) in self.fail:
            raise OSError(13, 'denied')
        if argv[0].startswith('/') and not os.path.exists(argv[0]):
            raise OSError(2, 'no such program')
        if name == 'uname' and self.uname:
            out = {'': self.uname[0], '-r': self.uname[1], '-m': 'x86_64',
                   '-s': self.uname[0]}.get(args)
        elif name == 'sw_vers' and args == '-productVersion':
            out = self.sw_vers
        else:
            raise OSError(2, 'no such program')
        return (1, b'', b'bad') if out is None else \
            (0, (out + '\n').encode(), b'')

    def __enter__(self):
        self.saved = []

        def patch(mod, name, new):
            self.saved.append((mod, name, getattr(mod, name, self)))
            if new is None:
                if hasattr(mod, name):
                    delattr(mod, name)
            else:
                setattr(mod, name, new)

        def redirected(real):
            return lambda path, *a, **kw: real(self.where(path), *a, **kw)
        for mod, name in ((builtins, 'open'), (io, 'open'), (os, 'stat'),
                          (os, 'lstat'), (os, 'access'), (os, 'open'),
                          (os.path, 'exists'), (os.path, 'isfile'),
                          (os.path, 'lexists'), (os.path, 'isdir')):
            patch(mod, name, redirected(getattr(mod, name)))
        fns = {'linux_distribution': None, 'dist': None}
        if self.via:
            fns[self.via] = lambda **kw: self.table or ('', '', '')
        for k, v in fns.items():
            patch(platform, k, v)
        for k, v in zip(('system', 'version', 'release'), self.system):
            patch(platform, k, lambda v=v: v)
        env.procs.reset(self.program)
        # detectors look at the system when they are created
        self.modules = {}
        if self.fresh:
            for m in ('xylem.os_support.os_detect',
                      'xylem.os_support.plugins'):
                self.modules[m] = sys.modules.pop(m, None)
        try:
            self.detect = importlib.import_module(
                'xylem.os_support.os_detect')
            self.plugins = importlib.import_module(
                'xylem.os_support.plugins')
        except BaseException:
            self.__exit__()
            raise
        return self

    def __exit__(self, *a):
        import xylem.os_support as pkg
        for m, mod in self.modules.items():
            if mod is None:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = mod
                setattr(pkg, m.rsplit('.', 1)[1], mod)
        env.procs.reset()
        for mod, name, old in reversed(self.saved):
            if old is self:
                if hasattr(mod, name):
                    delattr(mod, name)
            else:
                setattr(mod, name, old)
        return False


class Dir(object):
    pass


def world(c, w, **kw):
    args = {'files': w.get('files', {}),
            'uname': w.get('uname', ('Linux', '3.13.0')),
            'table': w.get('table'), 'sw_vers': w.get('sw_vers')}
    if 'system' in w:
        args['system'] = w['system']
    args.update(kw)
    return World(c, **args)


REAL = {'debian': 'code', 'ubuntu': 'number', 'xubuntu': 'number',
        'osx': 'code'}


def h_systems(bound):
    """Every system is recognised as itself by the list of detectors, every
    single detector and the OS plugins."""
    def fn(c):
        from xylem.os_support import OSSupport, UnsupportedOSError
        name = c.pick(sorted(WORLDS), 'system')
        w = WORLDS[name]
        kw = {}
        if 'table' in w:
            kw['via'] = c.pick(['linux_distribution', 'dist', None], 'table')
        want = w['is'] if kw.get('via', 1) else None
        extra = {}
        k = c.deviate(4, 'clutter')
        if k == 1:      # empty release files do not describe anything
            extra = {p: '' for p in PATHS if p.startswith('/etc/') and
                     p != '/etc/arch-release'}
        elif k == 2:
            extra = {p: Dir for p in PATHS if p.startswith('/etc/') and
                     p != '/etc/arch-release'}
        elif k == 3:
            extra = {p: b'\xff\xfe\x00' for p in PATHS
                     if p.startswith('/etc/') and p != '/etc/arch-release'}
        files = dict(extra, **w.get('files', {}))
        with world(c, w, files=files, **kw) as wd:
            d = wd.detect
            what = 'system %s (%s)' % (name, sorted(files))
            st, v = c.call(d.OsDetect().detect_os)
            if want:
                c.eq((st, v), ('ok', want), what + ': detected')
            else:
                c.check(st == 'exc' and isinstance(v, d.OsNotDetected),
                        '%s: %s %r', what, st, v)
            o = d.OsDetect()
            for n in sorted(x for x in WORLDS if x not in
                            ('nothing', 'linux', 'centos', 'sles')):
                det = o.get_detector(n)
                st, v = c.call(det.is_os)
                mine = bool(want) and want[0] == n
                c.check(st == 'ok' and bool(v) == mine,
                        '%s: detector for %s says %r', what, n, v)
                for i, q in ((1, det.get_version), (2, det.get_codename)):
                    st, v = c.call(q)
                    if mine:
                        c.eq((st, v), ('ok', want[i]), '%s: %s' % (
                            what, q.__name__))
                    else:
                        c.check(st == 'exc' and isinstance(
                            v, d.OsNotDetected), '%s: %s of %s: %s %r', what,
                            q.__name__, n, st, v)
            p = wd.plugins
            env.plugins.script('xylem.os', [
                (n, getattr(p, n + '_definition')) for n in sorted(REAL)])
            with env.capture():
                s = OSSupport()
                st, v = c.call(lambda: s.current_os.get_tuple())
            if want and want[0] in REAL:
                # Ubuntu derives from Debian and uses code names as well
                c.eq((st, v), ('ok', (want[0], want[2])), what + ': plugin')
            else:
                c.check(st == 'exc' and isinstance(v, UnsupportedOSError),
                        '%s: plugin %s %r', what, st, v)
            c.observe('%s %r' % (name, want))
    return fn


# -- reading incomplete release files ----------------------------------------

def words(content):
    """The words of a release file; none if it cannot be read."""
    if content is None or content is Dir or isinstance(content, bytes):
        return []
    return content.split()


def after_release(ws):
    return next((b for a, b in zip(ws, ws[1:]) if a == 'release'), None)


def in_parentheses(ws):
    for x in ws:
        if x.startswith('('):
            return (x[1:-1] if x.endswith(')') else x[1:]).lower()
    return None


def setting(content, name):
    if not isinstance(content, str):
        return None
    for line in content.strip().split('\n'):
        kv = line.split(' = ')
        if kv[0] == name and len(kv) > 1:
            return kv[1]
    return None


def fedora(rel, issue):
    ws = words(rel)
    return (ws[:1] == ['Fedora'], after_release(words(issue)),
            in_parentheses(ws))


def rhel(rel):
    ws = words(rel)
    return (ws[:3] == ['Red', 'Hat', 'Enterprise'], after_release(ws),
            in_parentheses(ws))


def gentoo(rel):
    ws = words(rel)
    return (ws[:2] == ['Gentoo', 'Base'], ws[4] if len(ws) > 4 else None, '')


def opensuse(brand, rel):
    return (words(brand)[:1] == ['openSUSE'], setting(brand, 'VERSION'),
            setting(rel, 'CODENAME'))


def arch(rel):
    return rel is not None, '', ''


DETECTORS = {
    'fedora': ('Fedora', ['/etc/redhat-release', '/etc/issue'], fedora,
               [FEDORA.split('\n')[0] + '\n', FEDORA]),
    'rhel': ('Rhel', ['/etc/redhat-release'], rhel, [RHEL]),
    'gentoo': ('Gentoo', ['/etc/gentoo-release'], gentoo, [GENTOO]),
    'opensuse': ('OpenSuse', ['/etc/SuSE-brand', '/etc/SuSE-release'],
                 opensuse, [BRAND, SUSE]),
    'arch': ('Arch', ['/etc/arch-release'], arch, ['Arch\n']),
}
OTHER = ['', '\n', ' \n\n ', FEDORA, RHEL, CENTOS, GENTOO, BRAND, SUSE,
         'fedora release 20 (X)\n', 'release Fedora 20\n',
         'The Fedora release 20 (Y)\n', 'Red Hat Linux release 9 (Shrike)\n',
         'Red Hat Enterprise\n', 'Gentoo\n', 'Gentoo Linux 1 2 3\n',
         'open SUSE\nVERSION = 1\n', None, Dir, b'Fedora \xff release 1 (a)\n']


def cuts(text):
    """The text cut off after every character, and without each word."""
    out = [text[:i] for i in range(len(text) + 1)]
    ws = text.split(' ')
    out += [' '.join(ws[:i] + ws[i + 1:]) for i in range(len(ws))]
    # the words in other places
    out += ['Not ' + text, 'SLE like ' + text, '\n' + text, '  ' + text,
            text.upper(), text.lower(), text + text.lower()]
    ls = text.strip().split('\n')
    return out + ['\n'.join(x) + '\n' for x in permutations(ls)] + \
        ['\n'.join(ls[:i] + ['X = y'] + ls[i:]) + '\n'
         for i in range(1, len(ls) + 1)]


def h_files(full):
    def fn(c):
        n = c.pick(sorted(DETECTORS), 'detector')
        cls, paths, ref, good = DETECTORS[n]
        contents = []
        damaged = 0
        for p, g in zip(paths, good):
            alts = [g] + OTHER + cuts(g)
            if len(contents) and damaged and not full:
                alts = [g, None, '', RHEL]
            # codecs may not be what reads the second file of openSUSE
            if p == '/etc/SuSE-release':
                alts = [a for a in alts if a is None or isinstance(a, str)]
            if p == '/etc/issue':
                alts = [a for a in alts if not isinstance(a, str) or
                        not a.startswith('release')]
            x = alts[c.choose(len(alts), p)]
            damaged += x is not g
            contents.append(x)
        files = {p: x for p, x in zip(paths, contents) if x is not None}
        is_os, version, codename = ref(*contents)
        own = c.flag('paths given')
        with world(c, {'files': {'/alt' + p: x for p, x in files.items()}
                       if own else files}, fresh=False) as wd:
            d = wd.detect
            det = getattr(d, cls)(*[wd.root + '/alt' + p for p in paths]) \
                if own else getattr(d, cls)()
            what = '%s with %r' % (n, contents)
            st, v = c.call(det.is_os)
            c.check(st == 'ok' and bool(v) == is_os, '%s: %s %r', what, st, v)
            for q, want in ((det.get_version, version),
                            (det.get_codename, codename)):
                st, v = c.call(q)
                if n == 'opensuse' and q == det.get_version and is_os and \
                        len(contents[0].strip().split('\n')) != 2 and \
                        st == 'exc' and isinstance(v, d.OsNotDetected):
                    continue    # not the layout of a brand file
                if is_os and want:
                    c.eq((st, v), ('ok', want), '%s: %s' % (what, q.__name__))
                else:
                    # "if code names are not available an empty string"
                    c.check((st == 'exc' and isinstance(
                        v, d.OsNotDetected)) or (is_os and v == '' and
                                                 st == 'ok'),
                            '%s: %s: %s %r', what, q.__name__, st, v)
            c.observe('%s %r' % (n, (is_os, is_os and version,
                                     is_os and codename)))
    return fn


# -- programs that fail ------------------------------------------------------

def h_programs():
    """uname and sw_vers that are missing, fail, or say something else."""
    def fn(c):
        from xylem.os_support import OSSupport, UnsupportedOSError
        from xylem.os_support import UnsupportedOSVersionError
        n = c.pick(['qnx', 'freebsd', 'osx', 'cygwin'], 'system')
        w = dict(WORLDS[n])
        files = dict(w.get('files', {}))
        mode = c.pick(['ok', 'missing', 'fails', 'version fails', 'other',
                       'other case', 'prefix'], 'program')
        fail = ()
        tool = 'sw_vers' if n == 'osx' else 'uname'
        kw = {}
        if mode == 'missing':
            kw['uname'] = None
            files.pop('/usr/bin/sw_vers', None)
        elif mode == 'fails':
            fail = (tool,)
        elif mode == 'version fails':
            fail = ((tool, '-productVersion' if n == 'osx' else '-r'),)
        elif mode != 'ok':
            f = {'other': lambda s: 'Linux', 'other case': str.swapcase,
                 'prefix': lambda s: s + 'x'}[mode]
            if n == 'osx':
                kw['sw_vers'] = f(w['sw_vers'] + 'a')
            else:
                kw['uname'] = (f(w['uname'][0]), w['uname'][1])
        with world(c, w, files=files, fail=fail, **kw) as wd:
            d = wd.detect
            det = d.OsDetect().get_detector(n)
            what = '%s, program %s' % (n, mode)
            st, v = c.call(det.is_os)
            there = n == 'cygwin' or mode in ('ok', 'version fails') or (
                n == 'osx' and mode != 'missing')
            c.check(st == 'ok' and bool(v) == there, '%s: is_os %s %r', what,
                    st, v)
            known = there and (mode == 'ok' or n == 'cygwin' and
                               'fails' not in mode and mode != 'missing')
            st, v = c.call(det.get_version)
            if known:
                c.eq((st, v), ('ok', WORLDS[n]['is'][1]), what + ': version')
            elif n == 'osx' and there:
                # what the tool says is passed on by the detector
                c.check(st == 'exc' and isinstance(v, d.OsNotDetected) or
                        v in (None, kw.get('sw_vers')),
                        '%s: version %s %r', what, st, v)
            else:
                c.check(st == 'exc' and isinstance(v, d.OsNotDetected),
                        '%s: version %s %r', what, st, v)
            st, v = c.call(det.get_codename)
            if known or there and n != 'osx':
                c.eq((st, v), ('ok', WORLDS[n]['is'][2]), what + ': codename')
            else:
                c.check(st == 'exc' and isinstance(v, d.OsNotDetected),
                        '%s: codename %s %r', what, st, v)
            st, v = c.call(d.OsDetect().detect_os)
            if known:
                c.eq((st, v), ('ok', WORLDS[n]['is']), what + ': detected')
            else:
                c.check(st == 'exc' and isinstance(v, d.OsNotDetected),
                        '%s: detected %s %r', what, st, v)
            env.plugins.script('xylem.os', [
                (m, getattr(wd.plugins, m + '_definition'))
                for m in sorted(REAL)])
            with env.capture():
                s = OSSupport()
                st, v = c.call(lambda: s.current_os.get_tuple())
            if n == 'osx' and known:
                c.eq((st, v), ('ok', ('osx', 'mavericks')), what)
            else:
                c.check(st == 'exc' and isinstance(
                    v, UnsupportedOSVersionError if n == 'osx' and there
                    else UnsupportedOSError), '%s: plugin %s %r', what, st, v)
            c.observe('%s %s' % (n, mode))
    return fn


def h_table():
    """The table of distributions is compared exactly."""
    def fn(c):
        n = c.pick(sorted(TABLE), 'distribution')
        good = TABLE[n]
        ids = sorted({t[0] for t in TABLE.values()})
        row = c.pick([t for t in ids] + [
            good[0].swapcase(), good[0] + ' ', good[0][:-1], good[0] + 'x',
            '', 'fedora'], 'id')
        version = c.pick([good[1], '', '9.10'], 'version')
        code = c.pick([good[2], '', 'wheezy/sid'], 'code name')
        via = c.pick(['linux_distribution', 'dist'], 'table')
        with World(c, {}, ('Linux', '3'), (row, version, code), via) as wd:
            d = wd.detect
            det = d.OsDetect().get_detector(n)
            mine = row == good[0]
            what = '%s with %r' % (n, (row, version, code))
            c.check(bool(det.is_os()) == mine, '%s: is_os', what)
            for q, want in ((det.get_version, version),
                            (det.get_codename, code)):
                st, v = c.call(q)
                if mine:
                    c.eq((st, v), ('ok', want), '%s: %s' % (what, q.__name__))
                else:
                    c.check(st == 'exc' and isinstance(v, d.OsNotDetected),
                            '%s: %s: %s %r', what, q.__name__, st, v)
            c.observe(what)
    return fn


OVERRIDES = ['', 'x', 'x:', 'x:1', 'x:1:', 'x:1:c', ':1', 'x:1:c:d',
             'ubuntu:trusty']


def h_override():
    """ROS_OS_OVERRIDE replaces detection."""
    def fn(c):
        n = c.pick(['ubuntu', 'fedora', 'nothing'], 'system')
        text = c.pick([None] + OVERRIDES, 'override')
        explicit = c.flag('environment given')
        envd = {} if text is None else {'ROS_OS_OVERRIDE': text}
        with world(c, WORLDS[n]) as wd:
            d = wd.detect
            saved = os.environ.pop('ROS_OS_OVERRIDE', None)
            o = d.OsDetect()
            if c.flag('detected before'):
                c.call(o.detect_os)
            try:
                if explicit:
                    os.environ['ROS_OS_OVERRIDE'] = 'wrong:wrong:wrong'
                    st, v = c.call(o.detect_os, envd)
                else:
                    os.environ.update(envd)
                    st, v = c.call(o.detect_os)
            finally:
                os.environ.pop('ROS_OS_OVERRIDE', None)
                if saved is not None:
                    os.environ['ROS_OS_OVERRIDE'] = saved
            if text is None:
                want = WORLDS[n]['is']
            else:
                parts = (text.split(':') + ['', ''])[:3]
                want = tuple(parts) if parts[0] else None
            what = '%s with override %r' % (n, text)
            if want:
                c.eq((st, v), ('ok', want), what)
                c.eq(o.get_name(), want[0], what + ': name')
            else:
                c.check(st == 'exc' and isinstance(v, d.OsNotDetected),
                        '%s: %s %r', what, st, v)
            c.observe(what)
    return fn


def h_interrupt(exc):
    """Ctrl-C while a program runs ends the detection; trying again works."""
    def fn(c):
        from xylem.os_support import OSSupport
        name = c.pick(['freebsd', 'osx', 'debian', 'cygwin', 'qnx', 'linux'],
                      'system')
        w = WORLDS[name]
        kw = {'via': 'dist'} if 'table' in w else {}
        how = c.pick(['detect_os', 'plugin'], 'asked')
        with world(c, w, **kw) as wd:
            real = wd.program
            runs = [0, None]

            def program(argv):
                runs[0] += 1
                if runs[0] == runs[1]:
                    raise exc()
                return real(argv)
            env.procs.reset(program)
            p = wd.plugins
            env.plugins.script('xylem.os', [
                (n, getattr(p, n + '_definition')) for n in sorted(REAL)])

            def ask():
                if how == 'detect_os':
                    return wd.detect.OsDetect().detect_os()
                with env.capture():
                    return OSSupport().current_os.get_tuple()
            first = c.call(ask)
            if not runs[0]:
                c.prune()
            n, runs[0] = runs[0], 0
            runs[1] = 1 + c.choose(n, 'interrupted program')
            try:
                got = ask()
            except KeyboardInterrupt:
                got = exc
            except Exception as e:
                got = e
            what = '%s of %s interrupted in program %d' % (
                how, name, runs[1])
            c.check(got is exc, '%s: %r', what, got)
            runs[1] = None
            again = c.call(ask)
            c.eq((again[0], repr(again[1])), (first[0], repr(first[1])),
                 what + ': later')
            c.observe('%s %d' % (name, n))
    return Harness('interrupt', fn, split=2)


OSX = {4: 'tiger', 5: 'leopard', 6: 'snow', 7: 'lion', 8: 'mountain lion',
       9: 'mavericks', 10: 'yosemite'}


def h_osx(minors):
    """The code name follows from major and minor version of OS X."""
    def fn(c):
        from xylem.os_support import OSSupport, UnsupportedOSVersionError
        major = c.pick([10, 1, 9, 11, 100], 'major')
        minor = c.pick(minors, 'minor')
        rest = c.pick(['', '.0', '.1', '.9', '.10', '.5.1', '.', 'b', ' '],
                      'rest')
        version = '%d.%d%s' % (major, minor, rest)
        with world(c, WORLDS['osx'], sw_vers=version) as wd:
            d = wd.detect
            det = d.OsDetect().get_detector('osx')
            st, v = c.call(det.get_codename)
            want = OSX.get(minor) if major == 10 else None
            odd = rest in ('.', 'b', ' ', '.5.1')
            what = 'OS X %r' % version
            if want and not odd:
                c.eq((st, v), ('ok', want), what)
            else:
                c.check(st == 'exc' and isinstance(v, d.OsNotDetected) or
                        odd and (st, v) == ('ok', want), '%s: %s %r', what,
                        st, v)
            env.plugins.script('xylem.os', [
                ('osx', wd.plugins.osx_definition)])
            with env.capture():
                s = OSSupport()
                st2, v2 = c.call(lambda: s.current_os.get_tuple())
            if st == 'ok':
                c.eq((st2, v2), ('ok', ('osx', v)), what)
            else:
                c.check(st2 == 'exc' and isinstance(
                    v2, UnsupportedOSVersionError), '%s: plugin %s %r', what,
                    st2, v2)
            c.observe('%s %r' % (version, v if st == 'ok' else None))
    return Harness('osx', fn, split=2, note='versions of OS X')


def h_detectors(n):
    """Additional detectors come first, the last one of all before the
    others, in one OsDetect or in all that are created later."""
    def fn(c):
        system = c.pick(['debian', 'fedora', 'nothing'], 'system')
        with world(c, WORLDS[system]) as wd:
            d = wd.detect

            class Mine(d.OsDetector):
                def __init__(self, i, there):
                    self.i, self.there = i, there

                def is_os(self):
                    return self.there

                def get_version(self):
                    return 'v%d' % self.i

                def get_codename(self):
                    return 'c%d' % self.i

            builtin = d.OsDetect()
            o = d.OsDetect()
            seen = []           # by o, the latest first
            later = []          # by an OsDetect created at the end
            count = 1 + c.choose(n, 'detectors')
            for i in range(count):
                name = c.pick(['debian', 'fedora', 'own'], 'name')
                det = Mine(i, c.flag('there'))
                if c.flag('for all'):
                    d.OsDetect.register_default(name, det)
                    later.insert(0, (name, det))
                else:
                    o.add_detector(name, det)
                    seen.insert(0, (name, det))
            found = []
            for label, obj, mine in (('in use', o, seen),
                                     ('new', d.OsDetect(), later),
                                     ('untouched', builtin, [])):
                what = '%s with %r, %s' % (system, [
                    (k, x.i, x.there) for k, x in mine], label)
                for name in ('debian', 'fedora', 'own'):
                    st, v = c.call(obj.get_detector, name)
                    own = [x for k, x in mine if k == name]
                    if own:
                        c.check(v is own[0], '%s: detector for %s: %r', what,
                                name, v)
                    elif name == 'own':
                        c.check(st == 'exc' and isinstance(v, KeyError),
                                '%s: detector %s %r', what, st, v)
                    else:
                        c.check(st == 'ok' and not isinstance(v, Mine),
                                '%s: detector %s %r', what, st, v)
                want = next(((k, 'v%d' % x.i, 'c%d' % x.i)
                             for k, x in mine if x.there),
                            WORLDS[system]['is'])
                st, v = c.call(obj.detect_os)
                if want:
                    c.eq((st, v), ('ok', want), what)
                    c.eq((obj.get_name(), obj.get_version(),
                          obj.get_codename()), want, what + ': parts')
                else:
                    c.check(st == 'exc' and isinstance(v, d.OsNotDetected),
                            '%s: %s %r', what, st, v)
                found.append(want)
            c.observe(repr(found))
    return Harness('detectors', fn, split=3, note='additional detectors')


def h_queries(n):
    """Name, version, code name and detector can be asked for in any order."""
    def fn(c):
        name = c.pick(sorted(WORLDS), 'system')
        kw = {'via': 'dist'} if 'table' in WORLDS[name] else {}
        want = WORLDS[name]['is']
        asked = []
        with world(c, WORLDS[name], **kw) as wd:
            d = wd.detect
            o = d.OsDetect()
            for _ in range(n):
                q = c.pick(['get_name', 'get_version', 'get_codename',
                            'get_detector', 'detect_os'], 'query')
                asked.append(q)
                st, v = c.call(getattr(o, q))
                what = '%s after %s' % (name, asked)
                if not want:
                    c.check(st == 'exc' and isinstance(v, d.OsNotDetected),
                            '%s: %s %r', what, st, v)
                elif q == 'get_detector':
                    c.check(st == 'ok' and v is o.get_detector(want[0]),
                            '%s: %s %r', what, st, v)
                else:
                    c.eq((st, v), ('ok', {
                        'get_name': want[0], 'get_version': want[1],
                        'get_codename': want[2], 'detect_os': want}[q]), what)
            c.observe('%s %s' % (name, asked))
    return Harness('queries', fn, split=2)


def harnesses(tier):
    t = tier == 'thorough'
    return [
        Harness('systems', h_systems(None), split=2),
        h_queries(4 if t else 3),
        Harness('files', h_files(t), split=3,
                note='release files cut off at every character'),
        Harness('programs', h_programs(), split=2),
        Harness('table', h_table(), split=2),
        Harness('override', h_override(), split=2),
        h_interrupt(KeyboardInterrupt),
        h_osx(list(range(60 if t else 22)) + [99, 104, 110]),
        h_detectors(3 if t else 2),
    ]
