"""Stub plugins (external to xylem) used to drive the real code."""

from mc import env

from xylem.os_support import OSBase, UnsupportedOSVersionError
from xylem.installers import InstallerBase
from xylem.installers import PackageManagerInstaller


def make_os(name, versions=('v1', 'v2'), core=(), default=None, detected=None,
            parents=(), is_os=None, plugin=None):
    """An OS plugin class; ``detected`` is its version if running on it."""

    class StubOS(OSBase):
        PLUGIN = plugin or name

        @property
        def all_names(self):
            return [name] + list(parents)

        def get_version(self):
            if detected is None:
                raise UnsupportedOSVersionError('not running on ' + name)
            return detected

        def get_all_tuples(self, version):
            return [(name, version)] + [(p, None) for p in parents]

        def get_core_installers(self, version, options):
            return list(core)

        @property
        def default_installer(self):
            return default

        @property
        def known_versions(self):
            return list(versions)

        def is_os(self):
            return is_os if is_os is not None else detected is not None

    StubOS.__name__ = 'StubOS_%s' % (name,)
    return StubOS


def make_installer(name_, additional=False, installed=(), options=None,
                   plugin=None, log=None):
    """An installer plugin class whose command lines record their input."""

    class StubInstaller(InstallerBase):
        PLUGIN = plugin or name_
        INSTALLED = set(installed)

        def __init__(self):
            super(StubInstaller, self).__init__()
            for o, kw in (options or {}).items():
                self.options_description.add(o, **kw)

        @property
        def name(self):
            return name_

        def use_as_additional_installer(self, os_tuple):
            return additional(os_tuple) if callable(additional) else additional

        def filter_uninstalled(self, resolved):
            return [r for r in resolved if r.package not in self.INSTALLED]

        def get_install_commands_no_root(self, resolved, interactive=True,
                                         reinstall=False):
            return [[name_, 'install'] + (['-y'] if not interactive else []) +
                    (['--re'] if reinstall else []) + [r.package]
                    for r in resolved]

        def check_general_prerequisites(self, os_tuple, fix_unsatisfied=False,
                                        interactive=True):
            if log is not None:
                log.append(('general', name_, fix_unsatisfied, interactive))

        def check_install_prerequisites(self, resolutions, os_tuple,
                                        fix_unsatisfied=False,
                                        interactive=True):
            if log is not None:
                log.append(('install', name_, fix_unsatisfied, interactive))

    StubInstaller.__name__ = 'Stub_%s' % (name_,)
    return StubInstaller


def platform(oses, installers=()):
    """Make these the installed OS and installer plugins."""
    env.plugins.classes('xylem.os', 'os', oses)
    env.plugins.classes('xylem.installers', 'installer', installers)


def config(**kw):
    """Fresh config with overrides (nested via dicts)."""
    from xylem.config import get_default_config
    c = get_default_config()
    for k, v in kw.items():
        if isinstance(v, dict) and isinstance(c.get(k), dict):
            c[k].update(v)
        else:
            c[k] = v
    return c


def context(os_name='ubuntu', version='v1', default='apt', core=None,
            installers=(), setup=True, **cfg):
    """A real InstallerContext on a stub platform."""
    from xylem.installers import InstallerContext
    platform([make_os(os_name, versions=(version,), detected=version,
                      default=default,
                      core=core if core is not None else
                      ([default] if default else []))], installers)
    with env.capture():
        return InstallerContext(config(**cfg), setup_installers=setup)
