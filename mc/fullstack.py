"""Real sources directories and caches in a scratch directory."""

import io
import json
import os

from mc import env, stubs


class Site(object):
    """A scratch installation: sources dir, cache dir and rules files."""

    def __init__(self, c, name='site'):
        self.root = c.tmp()
        self.sources_dir = os.path.join(self.root, 'sources.d')
        self.cache_dir = os.path.join(self.root, 'cache')
        self.rules_dir = os.path.join(self.root, 'rules')
        os.mkdir(self.rules_dir)

    def rules_path(self, name):
        return os.path.join(self.rules_dir, name + '.yaml')

    def url(self, name):
        return 'file://' + self.rules_path(name)

    def write_rules(self, name, rules):
        with io.open(self.rules_path(name), 'w', encoding='utf-8') as f:
            f.write(rules if isinstance(rules, str) else json.dumps(rules))
        #  what changed does not show in the times of files
        os.utime(f.name, (1000000000, 1000000000))

    def remove_rules(self, name):
        os.remove(self.rules_path(name))

    def write_sources(self, filename, names):
        if not os.path.isdir(self.sources_dir):
            os.mkdir(self.sources_dir)
        with open(os.path.join(self.sources_dir, filename), 'w') as f:
            f.write(json.dumps([{'rules': self.url(n)} for n in names]))

    def config(self, **kw):
        return stubs.config(sources_dir=self.sources_dir,
                            cache_dir=self.cache_dir, **kw)

    def tree(self, sub=None):
        return snapshot(os.path.join(self.root, sub) if sub else self.root)

    def cache_files(self):
        d = os.path.join(self.cache_dir, 'sources')
        return sorted(os.listdir(d)) if os.path.isdir(d) else None


def snapshot(root):
    """{relative path: (kind, mode, content)}"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in sorted(dirs):
            p = os.path.join(d, n)
            st = os.lstat(p)
            out[os.path.relpath(p, root)] = (
                'link:' + os.readlink(p) if os.path.islink(p) else 'dir',
                st.st_mode & 0o7777, None)
        for n in sorted(files):
            p = os.path.join(d, n)
            st = os.lstat(p)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ('link', 0, os.readlink(p))
            else:
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, root)] = (
                        'file', st.st_mode & 0o7777, f.read())
    return out


_MEM = {}


def mem_database(rules_list, layout=None):
    """A real RulesDatabase of rules sources whose downloads are in memory.

    Only the sources directory is real; it is created once per layout.
    ``layout``: list of (file name, [index of source]); default all in one.
    """
    from xylem.specs.plugins.rules import RulesSpec, expand_rules
    from xylem.sources import SourcesContext, RulesDatabase

    class MemSpec(RulesSpec):
        def load_data(self, arguments):
            return expand_rules(rules_list[int(arguments[len('mem:'):])])

    layout = tuple((f, tuple(ix)) for f, ix in (
        layout or [('10.yaml', range(len(rules_list)))]))
    key = (os.getpid(), layout)
    if key not in _MEM:
        d = os.path.join(env.scratch(), 'mem-%d-%d' % (os.getpid(),
                                                       len(_MEM)))
        os.makedirs(d)
        for f, ix in layout:
            with open(os.path.join(d, f), 'w') as fh:
                fh.write(json.dumps([{'rules': 'mem:%d' % i} for i in ix]))
        _MEM[key] = stubs.config(sources_dir=d,
                                 cache_dir=os.path.join(d, 'none'))
    db = RulesDatabase(SourcesContext(_MEM[key], spec_plugins=[MemSpec()]))
    with env.capture():
        db.load_from_source()
    return db
