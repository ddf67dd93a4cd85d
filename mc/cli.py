"""Run the command line tool in process, from a clean process state."""

import importlib
import sys
import traceback

from mc import env


class Result(object):
    def __init__(self, code, out, err, exc):
        self.code = code        # exit status as seen by the shell
        self.out = out
        self.err = err
        self.exc = exc          # traceback text if an exception escaped

    def __repr__(self):
        return 'exit %r, stdout %r, stderr %r%s' % (
            self.code, self.out[-400:], self.err[-400:],
            ', escaped: ' + self.exc[-400:] if self.exc else '')


def reset():
    """Process-wide state as after importing xylem."""
    from xylem import config, log_utils, terminal_color
    log_utils.enable_verbose(False)
    log_utils.enable_debug(False)
    terminal_color.enable_ANSI_colors()
    config.set_config(config.get_default_config())


class Nothing(object):
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def run(args, during=Nothing(), own=None):
    """``own``: name of the command whose own program is run, that is, its
    main function without arguments (as xylem-update does)."""
    saved_argv = sys.argv
    if own is None:
        from xylem.commands.main import main
    else:
        command = importlib.import_module('xylem.commands.' + own)

        def main(args):
            sys.argv = ['xylem-' + own] + args
            return command.main()
    reset()
    exc = None
    try:
        with env.capture() as cap:
            try:
                with during:
                    code = main(list(args))
                code = 0 if code is None else code
            except SystemExit as e:
                code = e.code
                if code is None:
                    code = 0
                elif not isinstance(code, int):
                    cap.err.write(str(code) + '\n')
                    code = 1
            except BaseException as e:
                from mc.engine import Violation, Prune, ReplayDivergence
                if isinstance(e, (Violation, Prune, ReplayDivergence)):
                    raise
                exc = traceback.format_exc()
                code = 1
    finally:
        sys.argv = saved_argv
        reset()
    return Result(code & 0xff if isinstance(code, int) else code,
                  cap.stdout, cap.stderr, exc)
