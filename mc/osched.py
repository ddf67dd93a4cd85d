"""Real processes whose file operations are under control of the explorer.

Requires the process to run with LD_PRELOAD=build/shim.so (see run.py).
"""

import ctypes
import os
import pickle
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def build():
    """-> path of the compiled shim"""
    src = os.path.join(ROOT, 'mc', 'shim', 'shim.c')
    out = os.path.join(ROOT, 'build', 'shim.so')
    if not os.path.exists(out) or os.path.getmtime(out) < \
            os.path.getmtime(src):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = '%s.%d' % (out, os.getpid())
        subprocess.check_call(['gcc', '-w', '-O1', '-fPIC', '-shared', '-o',
                               tmp, src, '-ldl'])
        os.rename(tmp, out)
    return out


class Op(object):
    def __init__(self, line):
        f = line.split('\t')
        self.name, self.fd, self.ino = f[0], int(f[1]), int(f[2])
        self.len, self.flags = int(f[3]), int(f[4])
        self.path, self.path2 = f[5], f[6]

    @property
    def mutates(self):
        if self.name == 'open':
            return bool(self.flags & (os.O_CREAT | os.O_TRUNC))
        return self.name in ('write', 'writev', 'mkdir', 'rmdir', 'unlink',
                             'rename', 'link', 'symlink', 'truncate', 'chmod',
                             'fsync')

    def __repr__(self):
        return self.name


class Proc(object):
    """``fn`` in a forked process that pauses before every file operation."""

    def __init__(self, name, fn, prefix):
        self.name = name
        self.op = None
        self.done = False
        self.killed = False
        req_r, req_w = os.pipe()
        ver_r, ver_w = os.pipe()
        res_r, res_w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(req_r)
                os.close(ver_w)
                os.close(res_r)
                lib = ctypes.CDLL(None)
                lib.shim_attach(req_w, ver_r, os.fsencode(prefix))
                time.sleep = lambda _s: lib.shim_yield()
                try:
                    res = ('ok', fn())
                except BaseException as e:
                    res = ('exc', type(e).__name__, str(e),
                           isinstance(e, EnvironmentError) and e.errno)
                lib.shim_detach()
                os.write(res_w, pickle.dumps(res))
                code = 0
            finally:
                os._exit(code)
        os.close(req_w)
        os.close(ver_r)
        os.close(res_w)
        self.req, self.ver, self.res = req_r, ver_w, res_r
        self.buf = b''
        self.result = None
        self.wait()

    def wait(self):
        """Until the process pauses again or ends."""
        while b'\n' not in self.buf:
            x = os.read(self.req, 65536)
            if not x:
                self.finish()
                return
            self.buf += x
        line, self.buf = self.buf.split(b'\n', 1)
        self.op = Op(os.fsdecode(line))

    def verdict(self, text):
        os.write(self.ver, text.encode() + b'\n')
        self.wait()

    def go(self):
        self.verdict('g')

    def finish(self):
        self.op = None
        self.done = True
        data = b''
        while True:
            x = os.read(self.res, 65536)
            if not x:
                break
            data += x
        _pid, status = os.waitpid(self.pid, 0)
        self.killed = os.WIFSIGNALED(status)
        if data:
            self.result = pickle.loads(data)
        for fd in (self.req, self.ver, self.res):
            os.close(fd)
        self.req = None

    def dispose(self):
        if not self.done:
            try:
                self.verdict('k')
            except OSError:
                self.finish()
            while not self.done:
                self.verdict('k')


def schedule(c, procs, bound_label='preempt'):
    """Run the processes to their end under every schedule (with
    ``c.bound`` preemptions)."""
    try:
        cur = None
        blocked = set()
        idle = 0
        while True:
            ready = [p for p in procs if not p.done]
            if not ready:
                return
            runnable = [p for p in ready if p.name not in blocked]
            if not runnable:
                # all of them wait; let waiting loops retry for a while
                idle += 1
                c.check(idle < 30, lambda: 'deadlock: %r' % [
                    (p.name, p.op) for p in ready])
                blocked.clear()
                runnable = ready
            if cur in runnable:
                others = [p for p in runnable if p is not cur]
                k = c.deviate(1 + len(others), bound_label)
                nxt = cur if k == 0 else others[k - 1]
            else:
                nxt = c.pick(runnable, 'run')
            was = nxt.op
            c.event('%s: %s' % (nxt.name, was))
            nxt.go()
            if nxt.op is not None and nxt.op.name == 'blocked':
                blocked.add(nxt.name)
            else:
                blocked.clear()
                idle = 0 if nxt.done else idle
            cur = nxt
    finally:
        for p in procs:
            p.dispose()
