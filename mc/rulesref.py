"""Reference semantics of rules (written from the documentation)."""

import copy


class NoDefault(Exception):
    pass


def ref_lookup(rules, key, os_name, version, default):
    """{installer: rule}; NoDefault if a placeholder cannot be replaced."""
    os_dict = rules.get(key, {})
    result = {}
    layers = []
    if 'any_os' in os_dict:
        layers.append(os_dict['any_os'].get('any_version', {}))
    if os_name in os_dict:
        layers.append(os_dict[os_name].get('any_version', {}))
        if version != 'any_version':
            layers.append(os_dict[os_name].get(version, {}))
    for layer in reversed(layers):       # most specific first
        for inst, rule in layer.items():
            if inst == 'default_installer':
                if not default:
                    raise NoDefault()
                inst = default
            if inst not in result:
                result[inst] = rule
    return result


def ref_has_rule(rules, key, os_name, version):
    os_dict = rules[key]
    return ('any_os' in os_dict or
            any(v in os_dict.get(os_name, {})
                for v in ('any_version', version)))


def prune_empty(d):
    return d


def share(x, pool=None):
    """A copy in which equal parts are the same object, like YAML aliases."""
    pool = {} if pool is None else pool
    if isinstance(x, dict):
        x = {k: share(v, pool) for k, v in x.items()}
    elif isinstance(x, list):
        x = [share(v, pool) for v in x]
    else:
        return x
    return pool.setdefault(repr(x), x)


def clone(x):
    return copy.deepcopy(x)


# -- documented long form of shorthand ---------------------------------------

class Bad(Exception):
    pass


def _listify(x):
    if x is None:
        return []
    if isinstance(x, str):
        return [x]
    return x


def expand_rule(x):
    if x is None or isinstance(x, (str, list)):
        return {'packages': _listify(x)}
    if not isinstance(x, dict):
        raise Bad()
    out = dict(x)
    if 'packages' in out:
        out['packages'] = _listify(out['packages'])
    if 'depends' in out:
        out['depends'] = _listify(out['depends'])
        if out['depends'] == []:
            del out['depends']
    return out


def expand_installers(x):
    if x is None or isinstance(x, (str, list)):
        x = {'default_installer': _listify(x)}
    if not isinstance(x, dict):
        raise Bad()
    return {k: expand_rule(v) for k, v in x.items()}


def expand_versions(os_name, x):
    if x is None or isinstance(x, (str, list)):
        x = {'any_version': _listify(x)}
    if not isinstance(x, dict):
        raise Bad()
    if os_name == 'any_os':
        if 'any_version' in x:
            if len(x) != 1:
                raise Bad()
        else:
            x = {'any_version': x}
    return {k: expand_installers(v) for k, v in x.items()}


def expand_os(x):
    if not isinstance(x, dict):
        raise Bad()
    return {k: expand_versions(k, v) for k, v in x.items()}


def expand_doc(x):
    if x is None:
        x = {}
    if not isinstance(x, dict):
        raise Bad()
    return {k: expand_os(v) for k, v in x.items()}


# -- well-formedness of expanded rules ----------------------------------------

KEYWORDS = {'any_os', 'any_version', 'default_installer', 'unset_installers',
            'any_key'}


def ident_ok(x, keyword=None):
    if not isinstance(x, str):
        return False
    if x in KEYWORDS:
        return x == keyword
    if x == 'mountain lion':
        return True
    return bool(x) and all(ch.isalnum() or ch in '_.’+-' for ch in x)


def rule_ok(x):
    if not isinstance(x, dict):
        return False
    for k, v in x.items():
        if not isinstance(k, str):
            return False
        if k in ('packages', 'depends') and not isinstance(v, list):
            return False
        if k == 'depends' and not all(ident_ok(d) for d in v):
            return False
    return True


def installers_ok(x, allow_default=True):
    return isinstance(x, dict) and all(
        (allow_default or i != 'default_installer') and
        ident_ok(i, 'default_installer') and rule_ok(r)
        for i, r in x.items())


def doc_ok(x, allow_default=True):
    if not isinstance(x, dict):
        return False
    for key, osd in x.items():
        if not ident_ok(key) or not isinstance(osd, dict):
            return False
        for osn, vd in osd.items():
            if not ident_ok(osn, 'any_os') or not isinstance(vd, dict):
                return False
            for ver, ins in vd.items():
                if not ident_ok(ver, 'any_version'):
                    return False
                if not installers_ok(ins, allow_default and osn != 'any_os'):
                    return False
    return True
