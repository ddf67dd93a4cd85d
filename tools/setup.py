#!/opt/venv/bin/python
"""setup_cmd: verify that the framework's pieces are usable offline."""
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    for d in ('evidence', 'replays', 'build'):
        os.makedirs(os.path.join(ROOT, d), exist_ok=True)
    shim = os.path.join(ROOT, 'mc', 'shim', 'shim.c')
    if os.path.exists(shim):
        out = os.path.join(ROOT, 'build', 'shim.so')
        subprocess.check_call(['gcc', '-w', '-O1', '-fPIC', '-shared', '-o',
                               out + '.tmp', shim, '-ldl'])
        os.rename(out + '.tmp', out)
    import yaml  # noqa: the interpreter of the checks has xylem's deps
    import six  # noqa
    assert shutil.which('gcc')
    print('ok', sys.version.split()[0])


if __name__ == '__main__':
    main()
