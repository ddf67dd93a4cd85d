"""Closes the environment of the code under test.

Import this before anything from xylem.  It redirects HOME, bytecode caches and
temporary files to a scratch directory that is removed at exit, makes /repo's
working tree the imported package, and provides stand-ins for the effects of
the code under test (processes, network, clock).
"""

import atexit
import io
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')

_scratch = None
_owner = None


def scratch():
    """Scratch directory of this run (never below /repo or /verif)."""
    global _scratch, _owner
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='xylem-mc-', dir=base)
        _owner = os.getpid()
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


def boot():
    s = scratch()
    home = os.path.join(s, 'home')
    os.makedirs(home, exist_ok=True)
    for k in list(os.environ):
        if k.startswith('XYLEM') or k in ('ROS_OS_OVERRIDE',) or \
                k.lower().endswith('_proxy'):
            del os.environ[k]
    os.environ['HOME'] = home
    os.environ['TMPDIR'] = s
    tempfile.tempdir = s
    os.environ['LANG'] = os.environ['LC_ALL'] = 'C.UTF-8'
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(s, 'pyc')   # ignore stale bytecode
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    procs.install()
    clock.install()
    plugins.install()
    import xylem
    f = os.path.abspath(xylem.__file__)
    assert f.startswith(os.path.abspath(REPO) + os.sep), f


# -- processes --------------------------------------------------------------

class _Procs(object):
    """Stand-in for subprocess.Popen (and thus call/run/check_output).

    ``handler(argv) -> (returncode, stdout, stderr)`` or raises OSError.
    Nothing is ever executed, except below the directory ``only`` where the
    real thing runs.
    """

    def __init__(self):
        self.handler = None
        self.calls = []
        self.only = None

    def install(self):
        import subprocess
        outer = self
        real = subprocess.Popen

        class FakePopen(object):
            def __new__(cls, args, *a, **kw):
                if outer.only and outer.confined(args, kw):
                    outer.calls.append((args, kw.get('shell', False)))
                    return real(args, *a, **kw)
                return object.__new__(cls)

            def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                         stdout=None, stderr=None, preexec_fn=None,
                         close_fds=True, shell=False, cwd=None, env=None,
                         universal_newlines=None, *a, **kw):
                self.args = args
                if isinstance(args, tuple):
                    args = list(args)
                outer.calls.append((args, shell))
                self.pid = 4242
                self.text = bool(universal_newlines or kw.get('text') or
                                 kw.get('encoding') or kw.get('errors'))
                if outer.handler is None:
                    raise OSError(2, 'No such file or directory', str(args))
                rc, out, err = outer.handler(args)
                self._rc, self._out, self._err = rc, out, err
                self.returncode = None
                self._pipes = (stdout, stderr)
                self._decode = lambda b: b.decode(
                    kw.get('encoding') or 'utf-8',
                    kw.get('errors') or 'strict').replace(
                        '\r\n', '\n').replace('\r', '\n')
                mk = (lambda b: io.StringIO(self._decode(b))) \
                    if self.text else io.BytesIO
                self.stdout = mk(out) if stdout == subprocess.PIPE else None
                self.stderr = mk(err) if stderr == subprocess.PIPE else None
                self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None

            def communicate(self, input=None, timeout=None):
                self.returncode = self._rc
                conv = self._decode if self.text else (lambda b: b)
                out = conv(self._out) if self._pipes[0] == subprocess.PIPE \
                    else None
                err = conv(self._err) if self._pipes[1] == subprocess.PIPE \
                    else None
                return out, err

            def wait(self, timeout=None):
                self.returncode = self._rc
                return self._rc

            def poll(self):
                self.returncode = self._rc
                return self._rc

            def kill(self):
                pass

            terminate = kill

            def send_signal(self, sig):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.returncode = self._rc
                return False

        self.real = real
        subprocess.Popen = FakePopen
        # other ways to run a program: recorded the same way, never executed

        def fake_system(cmd):
            outer.calls.append((cmd, True))
            if outer.handler is None:
                return 127 << 8
            return outer.handler(cmd)[0] << 8
        os.system = fake_system

    def reset(self, handler=None):
        self.handler = handler
        self.calls = []
        self.only = None

    def confined(self, args, kw):
        """The program is below ``only``."""
        if isinstance(args, (str, bytes)):
            args = [args]
        if kw.get('shell') or kw.get('preexec_fn') or not args:
            return False
        name = os.fsdecode(kw.get('executable') or args[0])
        if os.sep in name:
            path = name
        else:
            path = shutil.which(name, os.F_OK)
        return path is not None and os.path.realpath(path).startswith(
            os.path.realpath(self.only) + os.sep)


procs = _Procs()


class _Clock(object):
    """Stand-in for time.sleep."""

    def __init__(self):
        self.sleeps = []
        self.active = False

    def install(self):
        import time
        self.real_sleep = time.sleep
        time.sleep = self.sleep

    def sleep(self, s):
        if not self.active:
            return self.real_sleep(s)
        self.sleeps.append(s)

    def reset(self, active=True):
        self.sleeps = []
        self.active = active


clock = _Clock()


# -- plugins ------------------------------------------------------------------

class _EntryPoint(object):
    def __init__(self, name, definition):
        self.name = name
        self.definition = definition
        self.module_name = 'stub'
        self.attrs = (name,)
        self.extras = ()
        self.dist = None

    def load(self, *a, **kw):
        if isinstance(self.definition, BaseException):
            raise self.definition
        return self.definition

    resolve = load


class _Plugins(object):
    """Stand-in for the installed entry points of scripted groups."""

    def __init__(self):
        self.groups = {}

    def install(self):
        import pkg_resources
        real = pkg_resources.iter_entry_points

        def iter_entry_points(group, name=None):
            if group not in self.groups:
                return real(group, name)
            return iter([_EntryPoint(n, d) for n, d in self.groups[group]
                         if name is None or n == name])
        pkg_resources.iter_entry_points = iter_entry_points

    def reset(self):
        self.groups = {}

    def script(self, group, definitions):
        """definitions: list of (entry point name, definition)"""
        self.groups[group] = list(definitions)

    def classes(self, group, kind, classes):
        """Valid definitions for a list of plugin classes."""
        self.script(group, [
            (c.__name__, {'plugin_name': getattr(c, 'PLUGIN', c.__name__),
                          'description': 'stub', kind: c}) for c in classes])


plugins = _Plugins()


# -- console -----------------------------------------------------------------

class capture(object):
    """Capture sys.stdout/sys.stderr text of the code under test."""

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        self.out, self.err = Console(), Console()
        sys.stdout, sys.stderr = self.out, self.err
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved
        return False

    @property
    def stdout(self):
        return self.out.text()

    @property
    def stderr(self):
        return self.err.text()


class Console(io.TextIOWrapper):
    """UTF-8 console that accepts text and (through .buffer) bytes."""

    def __init__(self, encoding='utf-8', errors='strict'):
        self.raw_bytes = io.BytesIO()
        io.TextIOWrapper.__init__(self, self.raw_bytes, encoding=encoding,
                                  errors=errors, newline='\n',
                                  write_through=True)

    def text(self):
        self.flush()
        return self.raw_bytes.getvalue().decode(self.encoding, 'replace')


def strip_ansi(s):
    import re
    return re.sub('\033\\[[0-9]+m', '', s)


# -- home --------------------------------------------------------------------

def set_home(path):
    """Make ``path`` the home directory, as if set before xylem started."""
    os.environ['HOME'] = path
    from xylem import config_utils
    if isinstance(getattr(config_utils, 'DEFAULT_USER_CONFIG_DIR', None),
                  str):
        config_utils.DEFAULT_USER_CONFIG_DIR = os.path.join(path, '.config')
