"""What the process does to files while it is watched.

Comparing the file tree before and after misses what is created and removed
again in between, and what happens elsewhere.
"""

import os
import sys

CHANGING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
EVENTS = {'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.link',
          'os.symlink', 'os.chmod', 'os.chown', 'os.truncate', 'os.utime',
          'os.setxattr', 'os.removexattr', 'os.mkfifo', 'os.mknod'}
_active = []
_installed = []


def _hook(event, args):
    if not _active:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or not flags & CHANGING:
            return
        if os.fsdecode(path).startswith('/dev/') and \
                not os.fsdecode(path).startswith('/dev/shm/'):
            return
        _active[-1].append(('write', os.fsdecode(path)))
    elif event in EVENTS:
        _active[-1].append((event[3:],) + tuple(
            os.fsdecode(a) for a in args if isinstance(a, (str, bytes))))


class Watch(object):
    """``with Watch() as changes``: the list of operations that change
    files."""

    def __enter__(self):
        if os.getpid() not in _installed:
            #  hooks stay, also in forked processes
            if not _installed:
                sys.addaudithook(_hook)
            _installed.append(os.getpid())
        changes = []
        _active.append(changes)
        return changes

    def __exit__(self, *a):
        _active.pop()
