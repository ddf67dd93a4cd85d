#!/opt/venv/bin/python
"""Single source of properties.jsonl and MANIFEST.json.

    tools/props.py          rewrite both files
    tools/props.py --check  fail if they are out of step
"""
import collections
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []
TESTS = ('the suite samples %s')


def P(id, title, statement, over, text, why, files, mech, technique, note,
      level='model_checking', observe=None):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                      over=over, text=' '.join(text.split()),
                      why=' '.join(why.split()), files=files, mech=mech,
                      technique=' '.join(technique.split()),
                      note=' '.join(note.split()), level=level,
                      observe=observe or []))


INP, CFG, HIST, FLT, SCH, CRASH = ('inputs', 'configurations', 'histories',
                                   'fault_sequences', 'schedules',
                                   'crash_points')
EXPL = 'exhaustive bounded exploration of the real code (choice-DFS)'

# ---------------------------------------------------------------- rules ----
P('C01', 'Lookup picks the most specific rule per installer',
  '''Looking up a key for an OS and version yields, for each installer, the rule
  from the most specific place that mentions it: the exact version of that OS,
  else any version of that OS, else any OS; rules for other keys, OSs or
  versions never appear, and the rules database is not modified.
  The default-installer placeholder stands for the default installer of the
  current OS and never appears in the result; if the OS has no default
  installer, looking up such a rule is an error rather than a wrong answer.
  The same holds whether the result is asked for in full or in compact form.''',
  [INP, CFG],
  '''all rules dicts with up to two rules for the key at every combination of
  level (any OS / any version / exact version / other OS / other version) and
  installer (default placeholder, default's own name, other), all
  (os, version, default installer) settings''',
  '''universally quantified over rules dicts and platforms; the tests never call
  lookup with competing levels''',
  ['xylem/sources/rules_dict.py', 'xylem/specs/plugins/rules.py',
   'xylem/sources/database.py', 'xylem/lookup.py'],
  [('layered merge of any_os/any_version/version', 'xylem/sources/rules_dict.py:lookup_rules'),
   ('default_installer replacement', 'xylem/sources/rules_dict.py:replace_default_installer')],
  EXPL + ' against a reference model of the documented precedence',
  'Every rules dict of the bounded grammar is looked up for every platform of the alphabet by the real spec plugin, database and lookup API.')

P('C02', 'Shorthand rules mean exactly their documented long form',
  '''Expanding a rules file replaces every documented shorthand (a string, list
  or null in place of a version, installer or package definition, and an
  installer dict directly below "any OS") by its documented long form, and
  leaves already expanded rules unchanged, so expanding twice equals expanding
  once. A rules file that is structurally invalid is rejected with a spec
  parsing error or value error that says so, never with another exception and
  never silently accepted.''',
  [INP],
  '''all definitions of the rules grammar up to the bound at every position
  (OS, version, installer, rule, packages, depends) for named OSs and any_os,
  plus non-conforming values at each position''',
  '''the tests expand one sample document; the claim is over every combination
  of shorthand at every level''',
  ['xylem/specs/plugins/rules.py'],
  [('expand_*', 'xylem/specs/plugins/rules.py')],
  EXPL + ' against an independently written expander',
  'Exhaustive over a grammar of shorthand nodes at each level; documents are combined pairwise to observe independence of siblings.')

P('C03', 'Compacting rules preserves every lookup',
  '''Compacting an expanded rules dict (as done by the API and by the rules file
  compaction command) and expanding the result again yields, for every key, OS,
  version and installer, the same lookup results as before compaction; compacting
  twice equals compacting once. Rules naming both the default-installer
  placeholder and the default installer itself in one place are rejected
  rather than silently dropping one of them.''',
  [INP, CFG],
  '''all expanded rules dicts with up to two versions plus any_version per OS,
  any_os entry, up to two installers per entry and several rule shapes, for all
  default-installer maps of the alphabet; lookups for listed and unlisted
  versions''',
  'the tests compact one document; equality of lookups is over all documents and platforms',
  ['xylem/specs/plugins/rules.py', 'xylem/commands/_compact_rules_file.py'],
  [('compact_*', 'xylem/specs/plugins/rules.py'),
   ('_compact_rules_file command', 'xylem/commands/_compact_rules_file.py')],
  EXPL + '; lookup equivalence before/after on every platform of the alphabet',
  'Exhaustive over the bounded grammar; the command is driven end to end on real files.')

P('C04', 'Rules verification accepts exactly the well-formed rules',
  '''Verification of loaded rules accepts every well-formed expanded rules dict
  and rejects, with a value error, every dict with a malformed identifier or a
  reserved keyword in the wrong position, a value of wrong type at any level, a
  packages or depends entry that is not a list, a depends list with an invalid
  key, or a default-installer placeholder below "any OS" or where the caller
  disallows it. Hence such rules are never stored in the cache by an update.''',
  [INP],
  '''all single and double mutations of well-formed rules dicts over an alphabet
  of identifiers (keywords, whitespace, newline, unicode, non-strings) and
  values of every YAML type at every level, with the placeholder allowed and
  disallowed''',
  'no test calls verification at all (test_verify_rules.py is empty)',
  ['xylem/sources/rules_dict.py', 'xylem/sources/database.py'],
  [('verify_*', 'xylem/sources/rules_dict.py')],
  EXPL + ' against an independent recogniser of the documented grammar',
  'Exhaustive over the mutation grammar; acceptance and rejection are both checked.')

P('C05', 'Merging rules preserves priority and the meaning of every lookup',
  '''Looking up any key, OS, version and installer in the merge of a list of
  rules dicts gives the rule from the first dict in the list whose own
  lookup has a rule for that installer. OSs that are not asked for do not
  appear in the merge, default-installer placeholders are replaced by the
  default installer of their OS (a placeholder for an OS without default
  installer is an error), and the input dicts are not modified.''',
  [INP, CFG],
  '''all lists of two and three expanded rules dicts over one key, two OSs plus
  any_os, two versions plus any_version and two installers plus the placeholder
  within the bound on entries, and all default-installer maps of the alphabet''',
  '''tests merge a handful of hand-picked documents and compare the dict, not the
  lookups; the precedence interplay of any_os/any_version over three inputs is
  combinatorial''',
  ['xylem/sources/rules_dict.py'],
  [('merge_rules', 'xylem/sources/rules_dict.py')],
  EXPL + '; each merged dict is looked up on every platform and compared with prioritised lookups of the inputs',
  'Exhaustive over all pairs (and all triples of a smaller alphabet).')

P('C06', 'Source precedence is by file name and entry order only',
  '''If several sources define rules for the same key, then for each installer
  the rule of the earliest source wins, where sources are ordered by the
  alphabetical order of their (ASCII) file names and the order of entries
  within a file, whatever order the file system lists the directory in;
  installers that only a later source mentions are kept. Files not ending in
  .yaml, hidden files and directories in the sources directory are ignored,
  the built-in default sources are used if and only if the sources directory
  does not exist, and duplicate sources or unknown spec types are an error.''',
  [INP, CFG],
  '''all assignments of up to three sources to files, all directory listing
  permutations, presence of ignorable entries, and all overlap patterns of
  their rules''',
  'no test builds a database from a sources directory, and listing order is up to the file system',
  ['xylem/sources/impl.py', 'xylem/sources/database.py'],
  [('load_sources_from_path', 'xylem/sources/impl.py'),
   ('RulesDatabase.lookup', 'xylem/sources/database.py')],
  EXPL + '; the directory listing order is a choice point',
  'Real sources directories in scratch, real rules files loaded by file URL; listing order controlled by the explorer.')

P('C07', 'Listed keys are exactly the keys with a rule for the platform',
  '''Listing the known keys for a platform returns, without duplicates, exactly
  those keys for which some source has a rule applicable to the current OS
  and version (a rule for the exact version, any version of the OS, or any
  OS), and no other. Every listed key can be looked up unless its rules use
  the default-installer placeholder and the platform has no default
  installer, and a key that is not listed has an empty lookup.''',
  [INP, CFG],
  'all rules dicts over two keys with rules at any level, one or two sources, all platforms of the alphabet',
  'no test lists keys; agreement of listing and lookup is over all dicts and platforms',
  ['xylem/sources/rules_dict.py', 'xylem/specs/plugins/rules.py', 'xylem/sources/database.py'],
  [('has_rule_for_os', 'xylem/sources/rules_dict.py'), ('keys', 'xylem/sources/database.py')],
  EXPL + ' with lookup/listing consistency oracle',
  'Exhaustive within the bound.')

# ---------------------------------------------------------------- cache ----
P('C08', 'Cache histories: lookups use the last successfully updated data',
  '''After any sequence of source changes, updates, loads and cache clearings,
  loading the database from cache gives for each source the data, arguments,
  origin and load time of its last successful update; a failed update of a
  source (download failure, invalid rules) leaves its previous cache and all
  other sources' caches untouched. A source that was never successfully
  updated or was cleared has no cache and loading it is an error; a cache
  file that is corrupt, incomplete, belongs to another spec type or holds
  invalid rules is rejected instead of used, and a database that failed to
  load new data keeps using the data it loaded before.''',
  [HIST, INP, FLT],
  '''all operation sequences up to the depth bound over two sources with ops
  {change source content, make source invalid/unavailable, update, save, load,
  clear, corrupt cache}''',
  'no test writes or reads the cache; the claim is over histories of operations',
  ['xylem/sources/database.py', 'xylem/update.py'],
  [('RulesSource.load_from_cache/save_to_cache/clear_cache', 'xylem/sources/database.py'),
   ('RulesDatabase.update', 'xylem/sources/database.py')],
  'explicit-state exploration of all operation sequences on the real cache code against a model of per-source cache contents',
  'Every sequence up to the depth is run on the real code; the model state and the cache content seen through a fresh database are compared after every step.')

P('C09', 'An interrupted update leaves every source cache old or new',
  '''If an update is killed at any point, loses power, or gets an error or a
  short write from any file operation, then afterwards the cache of every
  source is readable and is either the complete previous or the complete new
  version of that source, and sources not being updated are unaffected. An
  update that could not store the cache of a source reports an error for
  that source and still processes the other sources when told to continue on
  errors. A later undisturbed update succeeds and produces the new version.''',
  [CRASH, FLT],
  '''every file-system operation boundary of an update over one and two sources
  (first update and re-update), with kill before/after each operation, torn
  write prefixes, errors ENOSPC/EIO/EACCES, and loss of unsynced data after
  power failure''',
  'no test interrupts an update; a crash at a particular operation cannot be sampled by unit tests',
  ['xylem/sources/database.py'],
  [('_write_cache: temp file, fsync, rename', 'xylem/sources/database.py:_write_cache')],
  'exhaustive crash-point and I/O-fault enumeration on the real code (system calls intercepted below the interpreter)',
  'Fault points are the file operations libc sees from the real update; power loss is modelled as any prefix of operations with unsynced file data lost.',
  level='fault_enumeration')

P('C10', 'Concurrent updates and lookups never see a broken cache',
  '''When several xylem processes update and read the same cache at the same
  time, under every interleaving of their file operations each reader that
  finds a cache file reads a complete version written by one of the updates (or
  the one present before), and after all of them end the cache of each source is
  a complete version written by one of them. No process fails because of the
  others, including when the cache directory does not exist initially.''',
  [SCH],
  '''all interleavings, up to a preemption bound, of the file operations of two
  updaters and of an updater and a reader on shared sources, starting with and without an existing cache''',
  'no test runs two processes; interleavings cannot be sampled deterministically',
  ['xylem/sources/database.py', 'xylem/sources/impl.py'],
  [('atomic replacement', 'xylem/sources/database.py:_write_cache'),
   ('tolerant creation of cache dir', 'xylem/sources/impl.py:ensure_cache_dir')],
  'stateless model checking of real processes under a controlled scheduler with preemption bound',
  'Scheduling points are the intercepted file operations of the real processes; one process runs at a time.')

P('C11', 'A dry-run update changes nothing on disk',
  '''An update in dry-run mode loads and verifies every source and reports the
  same problems as a real update, but creates, changes and removes no file or
  directory, in particular neither the cache nor the cache directory. A
  real update with the same sources then has its usual effect.''',
  [CFG, INP],
  'all combinations of existing cache state, source validity for up to two sources, continue-on-error and dry run via API and command line',
  'no test runs update; absence of effects is over all configurations and failure patterns',
  ['xylem/update.py', 'xylem/commands/update.py'],
  [('update dry_run', 'xylem/update.py')],
  EXPL + '; full file-tree snapshots before and after',
  'Snapshots of the whole scratch tree (content, mode) are compared for every configuration.')

P('C12', 'Downloads are retried exactly as configured and fail cleanly',
  '''Loading a URL retries after a timeout or a 503 response up to the configured
  number of retries, waiting the configured period before each retry, with
  the configured timeout on each attempt, and returns the body of the first
  successful response decoded with its declared charset (UTF-8 by default).
  Any other failure, or a transient failure when no retries are left, is
  raised at once as a download failure and nothing else escapes, whatever
  the URL (including invalid ones) and the sequence of responses.''',
  [FLT],
  '''all response sequences up to length 4 over {ok with and without charset,
  503, other HTTP errors, URL errors, timeouts while connecting and while reading, connection reset,
  truncated body} for retry counts -1..3''',
  'no test loads a URL; the property is over fault sequences',
  ['xylem/load_url.py'],
  [('load_url retry loop', 'xylem/load_url.py')],
  'exhaustive enumeration of scripted response sequences with a controlled clock',
  'urllib runs for real down to a scripted protocol handler; sleeping is recorded by a virtual clock.',
  level='model_checking')

# ---------------------------------------------------------------- config ---
P('C13', 'Configuration layers override each other in the documented order',
  '''The effective value of every option is taken from the command line if given,
  else from the config files, else the default; in configurations given as
  dictionaries what is not given has its default. The config files are those
  of the specified config directory (--xylem-dir or XYLEM_DIR) if there is
  one, else the user config file and then the system config file; the user
  config file can be disabled with --no-user-config; their contents at the
  time of loading count. Any value that is explicitly set counts, including
  false, zero and empty ones, while null means unset. Dictionaries declared
  as merging are combined entry-wise in the same order of priority.''',
  [CFG],
  '''all subsets of layers setting an option to each of several values
  (including falsy ones) for options of every kind, nested groups and merging
  dicts, with and without user config, explicit config file and defaults''',
  'tests of config layering are empty stubs; the layer lattice is combinatorial',
  ['xylem/config.py', 'xylem/config_utils.py'],
  [('config_from_*/merging', 'xylem/config_utils.py'),
   ('add_config_args/handle_config_args', 'xylem/config.py')],
  EXPL + ' against a reference overlay model',
  'Real files, real argparse, in-process; each layer is a choice point.')

P('C14', 'Configuration values are parsed faithfully or rejected cleanly',
  '''Every configuration value, from a file, the command line or the API, is
  either accepted and converted to the declared type with its meaning
  preserved or rejected with a configuration value error naming the problem;
  no other exception escapes for any YAML value or document, including
  documents that are malformed, not UTF-8 or not a dictionary. A value that
  parsing has accepted passes verification; invalid values and wrongly typed
  groups are rejected and unknown keys are ignored.''',
  [INP],
  '''all values of an alphabet covering every YAML type (incl. nested, null,
  non-text, malformed scalars) for every declared config type, as YAML documents and as
  command line text''',
  'tests cover some accepted values per type but not all type/value pairs nor malformed documents',
  ['xylem/config_utils.py', 'xylem/yaml_utils.py'],
  [('ConfigValueType.parse/verify', 'xylem/config_utils.py')],
  EXPL + ' against a table-free reference of accepted values per type',
  'Exhaustive product of types and values.')

P('C15', 'Sources and cache directories resolve as documented',
  '''The sources and cache directories are the explicitly configured ones, else
  those below an explicitly given base directory (--prefix or XYLEM_PREFIX),
  else the system defaults, for every combination given on the command line,
  in the environment or in config files; a leading ~ is expanded and
  relative paths are relative to the working directory. Updates write only
  below the resolved cache directory and lookups read only from it.''',
  [CFG],
  'all combinations of sources-dir / cache-dir / base-dir given by each layer, absolute, relative and ~ paths',
  'no test covers directory resolution',
  ['xylem/config.py', 'xylem/sources/impl.py'],
  [('xylem_dir handling', 'xylem/config.py'), ('SourcesContext.setup_paths', 'xylem/sources/impl.py')],
  EXPL, 'Exhaustive product over layers and options; effects confirmed through real update and load.')

P('C16', 'OS override text is parsed and applied exactly',
  '''An OS override of the form name:version selects exactly that OS and version,
  where the name ends at the first colon; one without a version selects that
  OS with its version detected; an optional suffix "&feature,..." selects
  features. White space around the parts does not matter. An empty,
  malformed or unsupported override or one with an unknown version is
  rejected with an error. The override has the same effect whether given on
  the command line, in a config file, or by the API.''',
  [INP, CFG],
  'all override strings over the alphabet up to length bound (with colons, empty parts), each route',
  'tests override the OS once via the API',
  ['xylem/config.py', 'xylem/config_utils.py', 'xylem/os_support/impl.py', 'xylem/installers/impl.py'],
  [('process_os_override', 'xylem/config.py'), ('override_os', 'xylem/os_support/impl.py')],
  EXPL, 'Exhaustive over override strings and routes.')

P('C17', 'Configurations are isolated from each other',
  '''Creating, merging and changing one configuration never changes another: the
  defaults, the built-in configuration and previously created configurations
  keep their values, also for lists and dicts held by options of declared
  types, whatever the sequence of operations. Copies compare equal to their
  original.''',
  [HIST],
  'all operation sequences up to the depth bound of create, mutate, copy, merge on up to three configurations with nested values',
  'aliasing only shows over sequences of operations; no test has one',
  ['xylem/config_utils.py', 'xylem/config.py'],
  [('deep copies of defaults', 'xylem/config_utils.py')],
  'explicit-state exploration of operation histories against a model with value semantics',
  'Every operation sequence up to the depth is run on the real code.')

# -------------------------------------------------------------------- os ---
P('C18', 'OS detection picks the most specific matching plugin',
  '''The detected OS is one whose plugin matches and is not a base of any other
  matching plugin, independent of the order in which plugins are registered;
  if there are several such plugins a warning is given and one of them is
  used; if none matches an unsupported-OS error is raised. Once determined,
  the current OS stays the same until it is detected again or overridden.
  The list of all names of an OS contains its own name and those of all OSs
  it is transitively derived from. Detection uses the first matching
  detector, and detectors registered with one detection object do not affect
  others.''',
  [INP, CFG],
  'all subsets and orders of up to four plugins with all derivation relations and all match patterns, forced and not; all detector lists',
  'tests have one stub OS; order independence is over permutations',
  ['xylem/os_support/impl.py', 'xylem/os_support/os_detect.py', 'xylem/os_support/plugins.py'],
  [('get_current_os / detection', 'xylem/os_support/impl.py'), ('OsDetect', 'xylem/os_support/os_detect.py')],
  EXPL, 'Stub OS plugins for all derivation graphs within the bound; the real detectors run against controlled files and platform answers.')

P('C19', 'OS facade reports the overridden OS consistently',
  '''With an OS override in force all queries (name, version, tuple, default
  installer, additional installers) consistently refer to the overriding OS
  and version, and without to the detected one; an override that fails
  leaves the state unchanged. Versions of OSs that define an order compare
  in that order, consistently and transitively. The shipped OS plugins name
  the OSs they derive from in order, with the version of the base OS if it
  can be mapped (Xubuntu has the version of Ubuntu) and else without a
  version, and order the code names of the releases of Debian (from etch to
  jessie), Ubuntu (lucid to utopic) and OS X (tiger to yosemite) by release.''',
  [CFG, INP],
  'all override settings and sequences over supported OSs with their versions; all pairs/triples of known versions',
  'tests check one override',
  ['xylem/os_support/impl.py', 'xylem/os_support/os_base.py', 'xylem/os_support/plugins.py'],
  [('OSSupport', 'xylem/os_support/impl.py'), ('OverrideOS', 'xylem/os_support/impl.py')],
  EXPL, 'Exhaustive over overrides, queries and version pairs.')

P('C20', 'Plugins load uniquely and invalid or disabled ones stay out',
  '''Loading plugins yields exactly the valid, not disabled plugins of the group:
  a definition that is malformed or has the wrong type, a plugin object that
  is invalid, a plugin that is disabled by name, and later plugins with a
  name already taken by a loaded one are left out with a message, and do not
  prevent the others from loading. Disabled and invalid plugins do not take
  their name. The result keeps registration order.''',
  [CFG, FLT],
  'all sequences of up to four plugin definitions over valid, duplicate and each kind of malformed definition, all disabled lists',
  'plugin loading is only exercised with the installed set',
  ['xylem/plugin_utils.py'],
  [('load_plugins', 'xylem/plugin_utils.py')],
  EXPL, 'Entry points are scripted; every sequence within the bound is loaded by the real loader.')

# ------------------------------------------------------------ installers ---
P('C21', 'The set of installers for a platform is the configured one',
  '''The installers of a platform are its core installers, exactly those that
  exist among the ones configured for the OS and version, or by default
  among the ones given by the OS plugin, in that order, plus as additional
  installers (unless disabled) exactly those other installers that declare
  themselves for the platform. Every installer gets the options configured
  for it; unknown core installers and unknown options are reported, and
  invalid options are a configuration error that names the installer. The
  default installer is the one given by the OS plugin.''',
  [CFG],
  'all core/additional installer lists over three plugins plus an unknown name, all settings of use_additional_installers and installer options',
  'one test sets up one platform',
  ['xylem/installers/impl.py'],
  [('InstallerContext.setup_installers', 'xylem/installers/impl.py')],
  EXPL, 'Exhaustive over stub platforms and configs.')

P('C22', 'Resolution uses the preferred, default or available installer',
  '''A key is resolved with the installer requested for it in the configuration,
  and if that installer is unavailable or the key has no rule for it, this
  is an error. Other keys are resolved with the first core installer that
  has a rule, else with an additional installer that has one, else it is an
  error. The default installer matters only as the meaning of
  default-installer rules.''',
  [CFG, INP],
  'all subsets of installers with rules, all core/default/additional lists and all install-from settings of the alphabet',
  'no test resolves a key',
  ['xylem/resolve.py', 'xylem/installers/impl.py'],
  [('resolve', 'xylem/resolve.py')],
  EXPL + ' against a reference selection model', 'Exhaustive within the bound.')

P('C23', 'Resolving accounts for every requested key',
  '''Resolving a list of keys returns for every requested key exactly once either
  its resolutions or an error, never both or none; one key's failure does
  not change the outcome of others. Results and errors are each in the order
  of the first request of the keys, followed by the remaining keys in sorted
  order when all keys are asked for, which resolves every listed one. The
  request is not modified, and the outcome is the same whether the
  configuration is passed as an object, a dict, or is the global one.''',
  [INP, FLT],
  'all lists of up to three requested keys over a database with every failure kind per key, all dependency graphs in the bound, and flags',
  'no test resolves keys',
  ['xylem/resolve.py'],
  [('resolve', 'xylem/resolve.py')],
  EXPL, 'Exhaustive within the bound.')

P('C24', 'An installer rule yields exactly its packages as resolutions',
  '''Resolving an installer rule yields one resolution per listed package, in
  order, for exactly that installer, with the rule's options for that
  installer; its dependencies are exactly those listed in the rule. Unknown
  entries of a rule are reported, and malformed rules are rejected with an
  invalid-rule error that names the installer instead of resolving to
  something else. The rule itself is not modified. Install commands name
  exactly the packages to be installed, verbatim and in order.''',
  [INP],
  'all rules of the alphabet for every installer plugin',
  'no test resolves rules',
  ['xylem/installers/package_manager_installer.py', 'xylem/installers/installer_base.py', 'xylem/installers/plugins'],
  [('PackageManagerInstaller.resolve', 'xylem/installers/package_manager_installer.py')],
  EXPL, 'Exhaustive within the rule grammar for each real installer plugin.')

P('C25', 'Resolutions behave as values',
  '''Resolutions are equal exactly if their content is, equal ones have equal
  hashes, so that duplicates can be removed, and items read, added or
  changed through item or attribute access are reflected consistently. The
  text form lists the package and the printable options, with lists
  flattened.''',
  [HIST, INP],
  'all pairs of resolutions over the alphabet and operation sequences up to the bound',
  'no test covers resolution objects',
  ['xylem/installers/package_manager_installer.py'],
  [('Resolution', 'xylem/installers/package_manager_installer.py')],
  EXPL, 'Exhaustive within the bound.')

P('C26', 'Install runs exactly the needed commands in order',
  '''Installing runs exactly the install commands of the requested resolutions
  that are not already installed (all of them with reinstall), each once, in
  order of the requested keys with consecutive ones for the same installer
  grouped, and nothing else; it stops at the first failing command unless
  told to continue. The exact argument vectors are passed to the system
  unchanged. Installing again after success runs nothing.''',
  [INP, FLT, CFG],
  'all resolution lists up to the bound over two installers, all installed patterns, all command outcome sequences and flags',
  'no test installs anything; command outcomes are fault sequences',
  ['xylem/install.py', 'xylem/installers/package_manager_installer.py'],
  [('install', 'xylem/install.py')],
  EXPL + '; commands go to a recording process stand-in with scripted outcomes', 'Exhaustive within the bound.')

P('C27', 'Install reports every failure and nothing else',
  '''The result of an installation names every key whose resolution failed and
  every installation that failed with its error, including commands that
  cannot be executed, and nothing that succeeded; success is reported
  exactly if nothing failed. Without continue-on-error the first failure is
  raised or returned, and nothing is installed after it. Missing
  prerequisites and unexpected errors are raised as xylem errors.''',
  [FLT],
  'all outcome patterns of resolve, filter, command generation and command execution within the bound',
  'no test installs',
  ['xylem/install.py', 'xylem/commands/install.py'],
  [('install error accounting', 'xylem/install.py')],
  EXPL, 'Exhaustive within the bound.')

P('C28', 'Simulated installation has no side effects',
  '''In simulate mode no install, prerequisite or privilege-raising command is
  executed, nothing in the file system changes and the user is not prompted,
  while the commands that a real run would execute are printed in the same
  order, and missing prerequisites are only reported. (Checking whether a
  package manager is available is allowed.)''',
  [CFG, INP],
  'all flag, prerequisite and installed patterns within the bound',
  'no test simulates',
  ['xylem/install.py', 'xylem/installers/package_manager_installer.py'],
  [('simulate', 'xylem/install.py')],
  EXPL, 'Exhaustive within the bound; process stand-in.')

P('C29', 'Installer prerequisites are checked and fixed as configured',
  '''Before installing with package managers the prerequisites of each of them
  are checked once, before any install command is run; missing ones are
  installed only if fixing them is requested, passing on whether this may be
  interactive, and if they remain missing the installation is an error
  rather than attempted. Out-of-date prerequisites only give a warning.''',
  [CFG, FLT],
  'all combinations of availability before/after, interactive/answers, fix flags, core/additional and simulate',
  'no test covers prerequisites',
  ['xylem/installers/package_manager_installer.py', 'xylem/installers/installer_base.py', 'xylem/install.py'],
  [('prerequisites', 'xylem/installers/package_manager_installer.py')],
  EXPL, 'Exhaustive within the bound.')

P('C30', 'Commands run with elevated privileges exactly when needed',
  '''Commands are prefixed for privilege elevation exactly if the installer is
  set to run as root and the effective user is not root, never twice. The
  remaining argument vector is unchanged.''',
  [CFG],
  'all combinations of user id, config flag, installer kind and commands',
  'no test covers elevation',
  ['xylem/installers/installer_base.py', 'xylem/installers/plugins', 'xylem/util.py'],
  [('elevate_privileges', 'xylem/installers/installer_base.py')],
  EXPL, 'Exhaustive; user id scripted.')

# ------------------------------------------------------------------- cli ---
P('C31', 'Command-line exit status reflects the outcome',
  '''A command exits with status zero if what was asked for succeeded and with a
  non-zero status if any requested key failed to look up, resolve or
  install, if it was interrupted, if there is no cache yet, or on invalid
  usage or configuration; in these cases nothing succeeds silently: each
  failed key or package is named on the console, errors are shown without a
  traceback, and usage or configuration errors have no effect. The resolve
  and lookup commands print exactly the resolutions and rules of the keys
  that succeeded.''',
  [CFG, FLT],
  'all combinations of command, flags, key outcome patterns and configuration errors within the bound',
  'no test runs a command',
  ['xylem/commands', 'xylem/arguments.py'],
  [('main', 'xylem/commands/main.py')],
  EXPL, 'Commands are run in process through main with scripted processes.')

P('C32', 'Console text is shown faithfully',
  '''Text shown to the user, including keys, packages, commands and error
  messages, is printed literally whatever characters it contains: color
  markup in data is never interpreted, colors add only escape sequences that
  are reset at the end, and disabling colors removes them without changing
  the text. Only characters the console cannot encode are replaced.
  Information goes to standard output, and warnings, errors, debug and
  verbose messages to standard error, the latter two only if enabled.''',
  [INP],
  'all strings over the alphabet incl. the markup character up to the length bound, colors on/off',
  'no test covers console output',
  ['xylem/terminal_color.py', 'xylem/log_utils.py'],
  [('sanitize/fmt', 'xylem/terminal_color.py'), ('_to_console', 'xylem/log_utils.py')],
  EXPL, 'Exhaustive over all strings up to the length bound.')

P('C33', 'Dumped YAML loads back as the same data',
  '''Dumping a dict, list or scalar made of dicts, lists, text, numbers, booleans
  and nulls, or a configuration, and loading it again gives an equal
  document with text as text, including text that looks like another type;
  malformed documents are rejected with a YAML error only. (A lone null is
  not a document.)''',
  [INP],
  'all documents of the bounded grammar with scalars from an alphabet of tricky values',
  'no test round-trips',
  ['xylem/yaml_utils.py'],
  [('load_yaml/dump_yaml', 'xylem/yaml_utils.py')],
  EXPL, 'Exhaustive within the grammar.')

P('C34', 'Chained errors keep the whole chain of causes',
  '''An error raised from another one keeps its own type and message and the
  whole chain of causes, and formatting it shows every message of the chain
  exactly once, root cause first; tracebacks of all of them are included
  exactly if asked for, limited to the given number of frames, and only the
  last error is shown if the chain is not wanted. Errors nobody caught are
  shown that way, with tracebacks, on the error output and nothing on the
  output; the debugger is started for them exactly if it is enabled, errors
  go to a terminal and the session is not interactive.''',
  [INP],
  'all chains up to the length bound over exception types and messages',
  'no test covers chaining',
  ['xylem/exception.py'],
  [('raise_from', 'xylem/exception.py')],
  EXPL, 'Exhaustive within the bound.')

P('C35', 'Global options work before and after the command',
  '''A global or configuration option has the same effect whether it is given
  before or after the command name, for every option and command, and does
  not change the effect of other options or the command's own arguments;
  omitting it leaves the configured value. Of a scalar option given
  repeatedly the last one counts; repeated list or dict options on one side
  are combined.''',
  [CFG],
  'all placements of up to two global options for every command',
  'no test parses a command line',
  ['xylem/arguments.py', 'xylem/commands/main.py'],
  [('option parsing', 'xylem/commands/main.py')],
  EXPL, 'Exhaustive within the bound.')

P('C36', 'Source lists are parsed exactly or rejected',
  '''A sources file yields exactly its entries in order with their spec type and
  arguments; a file that is not valid YAML is reported by name and
  contributes no sources while the other files are still used, and a
  structurally invalid source list is rejected with an error, never
  partially used.''',
  [INP],
  'all source lists of the bounded grammar incl. malformed entries at every position',
  'no test parses source lists',
  ['xylem/sources/impl.py'],
  [('parse_source_descriptions', 'xylem/sources/impl.py')],
  EXPL, 'Exhaustive within the grammar.')

P('C37', 'Scoped helpers restore process state on every exit path',
  '''Temporary changes of the working directory, redirected output and temporary
  directories are undone on every exit path, normal or exceptional and in
  any nesting, whatever the body did; exceptions are passed on unchanged;
  temporary directories are removed with their content without touching
  anything outside, and the working directory is restored even if the
  removal fails.''',
  [HIST, FLT],
  'all nestings up to the depth bound with all exit paths',
  'no test covers the helpers',
  ['xylem/util.py'],
  [('context managers', 'xylem/util.py')],
  EXPL, 'Exhaustive within the bound.')

P('C38', 'The running system is recognised from its release information',
  '''Each built-in OS detector recognises its system exactly if the release
  information (release and brand files, the distribution table, uname,
  sw_vers, the platform) describes that system, and then reports the version
  and code name given there; the built-in OS plugins report the same system,
  with the code name as version. If the information is missing, unreadable
  or incomplete, or describes another system, the system or its version
  counts as not detected: nothing else is reported and no other error is
  raised. An interrupt while a program runs ends the detection. An explicit
  override in the environment is used instead. Detectors registered or added
  take precedence over all earlier ones.''',
  [INP, CFG, FLT],
  '''all supported systems with and without clutter, all release files cut off
  at every character or missing each word or replaced by those of other
  systems, all failures of uname and sw_vers, all overrides of the alphabet''',
  '''the tests run on one system only; the claim is over all systems and all
  incomplete release files''',
  ['xylem/os_support/os_detect.py', 'xylem/os_support/plugins.py'],
  [('detectors', 'xylem/os_support/os_detect.py'),
   ('OS plugins', 'xylem/os_support/plugins.py')],
  EXPL + ' in scripted systems against a reference reader of release files',
  'Scripted systems: file access below /etc and programs are redirected to a scratch root.')

P('C39', 'Installers report truthfully what is installed and available',
  '''A package counts as installed exactly if it is: with pip if pip lists a
  package of that name, with the fake installer if its file exists. What
  remains to be installed are exactly the other packages, unchanged and in
  the given order, and a list of packages is installed exactly if nothing
  remains. A package manager counts as available exactly if its program can
  be started (the fake installer: if its directory exists). After a
  successful installation with them the requested packages are installed and
  all others are as before. The built-in installers are known by their names,
  and of those not used as core installers only pip is an additional
  installer, on every platform.''',
  [INP, HIST, CFG],
  '''all sets of listed packages with all requests up to the bound, all kinds
  of files in place of packages, all ways a program can fail to start, all
  core installer lists, all histories of installations and external changes
  up to the depth''',
  'no test uses the built-in installers',
  ['xylem/installers/plugins/pip.py', 'xylem/installers/plugins/fake.py',
   'xylem/installers/package_manager_installer.py',
   'xylem/installers/installer_base.py', 'xylem/util.py'],
  [('filter_uninstalled', 'xylem/installers/plugins'),
   ('is_program_installed', 'xylem/util.py')],
  EXPL + ' against a model of the installed packages',
  'Programs are scripted; the fake installer works on a real scratch directory.')

P('C40', 'Rewriting a rules file in place never loses rules',
  '''The rules file compaction command prints the compacted rules or, if asked
  to, replaces the content of the rules file by them, and either way they
  give the same lookups as the original. If it is killed, loses power or any
  file operation fails, the file has its complete old or complete new
  content, and exit status zero means that it has the new one. A file that
  cannot be read, is not UTF-8 or is not a valid rules file is left unchanged
  and the command fails. The permissions of the file, a symbolic link to it
  and all other files are left as they are.''',
  [CRASH, FLT, INP],
  '''all documents of the bounded grammar printed and written; every file
  operation of a rewrite killed, failing or torn, and power losses, up to the
  deviation bound''',
  'no test runs the command, let alone interrupts it',
  ['xylem/commands/_compact_rules_file.py', 'xylem/specs/plugins/rules.py',
   'xylem/yaml_utils.py'],
  [('_replace_content: temp file, fsync, rename',
    'xylem/commands/_compact_rules_file.py')],
  'exhaustive crash-point and I/O-fault enumeration on the real code (system calls intercepted below the interpreter), and exhaustive exploration of bounded documents',
  'Fault points are the file operations libc sees from the real command.',
  level='fault_enumeration')

P('C41', 'API calls respect the configuration however it is passed',
  '''Looking up, resolving, installing (also simulated) and updating through the
  API use the configuration given as a config object or as a plain dict,
  else the global one; a sources context, an installer context or a database
  that is passed is used instead of one made from the configuration, for
  sources and cache or for OS and installers respectively. The command line
  gives the same answers for the same settings. Neither the global
  configuration nor anything that is passed in is changed, nor is the
  environment, working directory, umask or console of the process, and
  something that is no valid configuration is rejected with a value or
  configuration value error without any effect.''',
  [CFG],
  '''all API calls with all ways of passing the configuration, all subsets of
  contexts and database, each for another site and OS, and all invalid
  configurations of the alphabet''',
  'the tests call the API with contexts only; the combinations are a product',
  ['xylem/lookup.py', 'xylem/resolve.py', 'xylem/install.py',
   'xylem/update.py', 'xylem/config.py', 'xylem/sources/impl.py',
   'xylem/installers/impl.py'],
  [('ensure_config', 'xylem/config.py:ensure_config'),
   ('ensure_installer_context', 'xylem/installers/impl.py'),
   ('ensure_sources_context', 'xylem/sources/impl.py')],
  EXPL + ' on several sites at once, so that the result tells whose settings were used',
  'Four real sites with different rules and three OSs; exhaustive product of ways to pass settings.')

P('C42', 'Asking never changes anything',
  '''Commands that only ask - lookup, resolve, simulated installations (whatever
  other options they are given), dry-run updates, printing the configuration,
  the version, help or compacted rules - and commands that are rejected as
  invalid create, change and remove no file or directory and run no program
  that changes the system, whatever the state of cache, sources, directories
  and programs; working directory and environment stay as they are.''',
  [CFG, INP],
  '''all commands that only ask, on two OSs with the built-in plugins, with
  every state of cache, sources and programs and every way of choosing
  directories (quick: up to two departures from the usual state)''',
  'absence of effects is over all commands and states; no test runs a command',
  ['xylem/commands', 'xylem/lookup.py', 'xylem/resolve.py',
   'xylem/install.py', 'xylem/update.py', 'xylem/sources/database.py'],
  [('simulate', 'xylem/install.py:install_resolutions'),
   ('dry run', 'xylem/update.py:update')],
  EXPL + '; full file-tree snapshots before and after, recorded programs',
  'The whole scratch world (home, working, configuration, cache and temporary directories) is compared.')

P('C43', 'Installing brings the system in line with the updated rules',
  '''After any history of editing rules, updating, installing, and packages
  being installed or removed by others, resolving and installing use the
  rules of the last successful update of each source: a successful
  installation has installed every package they name for the requested keys,
  in order, by running commands for exactly those that were missing (all if
  reinstalling), and no other package has changed; requesting the same again
  runs nothing. If a key has no rule, or before the first update, nothing is
  run and the command fails.''',
  [HIST],
  '''all histories of up to the depth bound over two sources with several
  contents (one invalid), two installers and three keys''',
  'no test runs more than one operation; the claim is over whole histories',
  ['xylem/install.py', 'xylem/resolve.py', 'xylem/update.py',
   'xylem/sources/database.py', 'xylem/commands'],
  [('resolve, filter, install', 'xylem/install.py:install'),
   ('cache', 'xylem/sources/database.py')],
  'explicit-state exploration of all operation histories on the real command line against a model of rules, caches and installed packages',
  'Every history up to the depth is run through the real command line.')

P('C44', 'Results do not depend on the order of entries or on hash seeds',
  '''What updating, looking up, resolving, installing and compacting show, run
  and return is the same whatever the order of entries in the dictionaries
  of rules files and configuration files and whatever the hash seed of the
  interpreter (as long as no key is to be installed from two installers,
  where the first one named wins): requested keys keep the requested order,
  packages that of their rule and installers that of their list.''',
  [INP, SCH],
  '''all orders of the alphabet for the entries at every level of rules and
  configuration, with names playing roles in several permutations, and all
  hash seeds up to the bound''',
  'a test runs with one order and one hash seed',
  ['xylem/resolve.py', 'xylem/install.py', 'xylem/sources/rules_dict.py',
   'xylem/sources/database.py', 'xylem/specs/plugins/rules.py',
   'xylem/util.py', 'xylem/yaml_utils.py'],
  [('sorted keys', 'xylem/resolve.py:resolve'),
   ('remove_duplicates', 'xylem/util.py')],
  EXPL + '; whole sessions are compared between orders and hash seeds',
  'Sessions of the real command line, also in processes of their own per hash seed.')

P('C45', 'Described options are set by exactly their own name and argument',
  '''For every sequence of option descriptions, an option whose name, group or
  command line argument conflicts with one described before is rejected with
  a configuration description error, and otherwise a configuration made from
  the description has exactly the described options and groups; an entry of a
  configuration file or a command line argument sets the option it belongs to
  and no other, all others keep their default or are unset, and the help
  lists every argument.''',
  [HIST],
  '''all sequences of up to three descriptions over names with and without
  groups, explicit and derived arguments, option types and defaults, with
  every option set in a file and every subset set on the command line''',
  'tests describe one set of options; conflicts are over pairs of descriptions',
  ['xylem/config_utils.py'],
  [('ConfigDescription.add', 'xylem/config_utils.py:ConfigDescription'),
   ('config_from_args', 'xylem/config_utils.py:config_from_args')],
  EXPL + ' against a reference model of the described options',
  'Exhaustive over description sequences; real argparse.')

P('C46', 'Help is complete and laid out as documented',
  '''In the help of arguments, groups of arguments and commands, paragraphs are
  separated by an empty line exactly where the text has three or more
  consecutive line breaks, two make a line break, all other white space is
  reflowed to the width of the output, and paragraphs marked as raw with R| keep
  their lines and relative indentation; no word is lost, added or reordered.
  The help of an option of the configuration shows its help text, its name in
  the configuration file where it differs from the argument, its type and its
  default value verbatim. The help of the program lists all public commands and
  no private ones, and that of each command has its description and explains all
  options of the configuration and all global arguments.''',
  [INP],
  '''all texts of up to four tokens (words, line breaks, raw markers, percent
  signs, words longer than a line) as help of an argument, description of a
  group and of a parser at two widths; all combinations of default values, help
  texts and names of options; the help of every command at four widths''',
  'no test looks at any help text',
  ['xylem/config_utils.py', 'xylem/commands/main.py'],
  [('ConfigHelpFormatter', 'xylem/config_utils.py:ConfigHelpFormatter'),
   ('help_string', 'xylem/config_utils.py:ConfigItem'),
   ('create_command_parser', 'xylem/commands/main.py:create_command_parser')],
  EXPL + ' against a reference layout',
  'Exhaustive over texts of the token grammar; real argparse.')


P('C47', 'A command run by its own program does what xylem does given the command',
  '''Running a command by its own program (xylem-update, or the main function of
  any command called without arguments) does exactly what xylem does when it is
  given that command followed by the same arguments: every option, configuration
  file and environment variable has the same effect, the same is written to the
  output and the error output (except for the name of the program in usage
  lines), the same programs are run, the same files are left, later commands
  show the same, and the exit status is the same, also if the arguments or the
  configuration are invalid, something fails or the user interrupts.''',
  [INP, FLT],
  '''every command with several own arguments and every combination of up to two
  of 19 options, in 13 worlds of sources, caches, configuration files and
  environments, before and after a first update; an interrupt at every line of
  the library''',
  'no test runs a command, neither way',
  ['xylem/commands/main.py', 'xylem/commands/update.py'],
  [('command_handle_args', 'xylem/commands/main.py:command_handle_args'),
   ('create_command_parser', 'xylem/commands/main.py:create_command_parser')],
  EXPL + ' comparing the two ways in identical worlds',
  'Exhaustive over commands, options, worlds and interrupted lines; what the '
  'commands do is decided by the other checks.')

P('C48', 'Programs are run as given and their output is read completely',
  '''A program that xylem runs gets exactly the given arguments, not interpreted
  by a shell, in the working directory and environment of xylem; install commands
  also read from and write to the console of xylem. Where output is captured, it is
  returned completely as text (bytes that are not UTF-8 are replaced), standard
  output and error apart, together with the exit status, whatever the amount and
  order of what is written to the two and however the program ends. xylem never
  blocks on it, and afterwards the program has ended and nothing is left open. A
  program counts as installed exactly if it can be executed; asking for the output
  of one that cannot is an OS error. An installation succeeds only if every one of
  its commands could be executed and ended with status zero; one killed by a signal
  has failed.''',
  [INP, FLT, SCH],
  '''all sequences of up to three writes to the two outputs with amounts around and
  above the size of a pipe and characters split between writes; all exit
  statuses, signals and ways a program cannot be executed; every special
  argument; all pairs of ends of install commands''',
  'no test runs a program; that a pipe fills up depends on the amount written to '
  'the one that is not being read',
  ['xylem/util.py', 'xylem/install.py', 'xylem/installers', 'xylem/os_support'],
  [('read_stdout', 'xylem/util.py:read_stdout'),
   ('read_stdout_err', 'xylem/util.py:read_stdout_err'),
   ('is_program_installed', 'xylem/util.py:is_program_installed'),
   ('install_resolutions', 'xylem/install.py:install_resolutions')],
  EXPL + ' with real processes in a scratch directory that is the whole PATH',
  'Exhaustive over write sequences, ends and places up to the bounds; programs '
  'close their output when they end.')

P('C49', 'Options of plugins are what was set, converted and completed',
  '''Setting the options of an OS or installer plugin to a dictionary makes them
  exactly the options the plugin describes, with the given values converted to the
  described types and the defaults for those that are missing or null, whatever
  was set before. Options that the plugin does not describe are reported by a
  warning that names the plugin and them, and have no effect. An invalid value is
  rejected with a configuration value error that names the plugin, and the previous
  options stay in force. Before anything is set the defaults are in force. Options
  of an overriding OS are those of the OS it stands for; otherwise setting or
  changing the options of one plugin object never changes those of another, the
  defaults, or the dictionary given.''',
  [INP, HIST, CFG],
  '''all sequences of up to three of setting valid, partial, null, unknown and
  invalid options, changing them in place and making new objects, over seven
  plugin objects (same plugin twice, an override, shipped plugins), read in
  between or not''',
  'no test sets the options of a plugin',
  ['xylem/os_support/os_base.py', 'xylem/installers/installer_base.py',
   'xylem/os_support/impl.py'],
  [('OSBase.options', 'xylem/os_support/os_base.py:OSBase'),
   ('InstallerBase.options',
    'xylem/installers/installer_base.py:InstallerBase'),
   ('OSOverride.options', 'xylem/os_support/impl.py:OSOverride')],
  EXPL + ' against a dictionary per plugin object',
  'Exhaustive over sequences of operations up to the bounds.')


# --------------------------------------------------------------------------

NOT_APPLICABLE = [
]


def claimed(pid):
    return os.path.exists(os.path.join(
        ROOT, 'mc', 'checks', pid.lower() + '.py'))


def generate():
    lines = []
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        lines.append(json.dumps(collections.OrderedDict([
            ('id', p['id']), ('title', p['title']),
            ('statement', p['statement']),
            ('quantifier', {'over': p['over'], 'text': p['text']}),
            ('why_tests_cant', p['why']),
            ('anchors', collections.OrderedDict([
                ('files', p['files']),
                ('mechanism', [{'name': n, 'where': w} for n, w in p['mech']]),
                ('observe_at', p['observe']), ('hook_needed', None)]))])))
    checks = []
    na = []
    for p in PROPS:
        if claimed(p['id']):
            cmd = '/opt/venv/bin/python run.py ' + p['id']
            checks.append(collections.OrderedDict([
                ('property', p['id']),
                ('quick_cmd', cmd + ' --tier quick'),
                ('thorough_cmd', cmd + ' --tier thorough'),
                ('technique', p['technique']), ('level', p['level']),
                ('level_note', p['note'])]))
        else:
            na.append({'property': p['id'], 'reason': 'check not built (yet)'})
    manifest = collections.OrderedDict([
        ('version', 1),
        ('setup_cmd', '/opt/venv/bin/python tools/setup.py'),
        ('checks', checks),
        ('not_applicable', NOT_APPLICABLE + na),
        ('notes', 'Checks explore the real code of /repo in process (choice-'
         'DFS engine in mc/engine.py); see DESIGN.md. No hooks in /repo. '
         'Known findings and fixes: KNOWN_FINDINGS.')])
    return {'properties.jsonl': '\n'.join(lines) + '\n',
            'MANIFEST.json': json.dumps(manifest, indent=1) + '\n'}


if __name__ == '__main__':
    bad = 0
    for name, text in generate().items():
        path = os.path.join(ROOT, name)
        if '--check' in sys.argv:
            if not os.path.exists(path) or open(path).read() != text:
                print('out of step:', name)
                bad = 1
        else:
            with open(path, 'w') as f:
                f.write(text)
    sys.exit(bad)
