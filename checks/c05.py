"""C05: merged configuration files mean what they say."""
import copy
import os
import shutil

import ruamel.yaml as yaml

from vh.core import Case, scratch
from vh import comps

RULE = ('random sets of options (all YAML value kinds, nested dictionaries, '
        'lists, chains of placeholder references) are written to several '
        'configuration files in random order and merged by the real '
        'SetupManager; every option is compared with an independent '
        'resolution of the references; conflicting files have to be refused; '
        'distinct = (value kind, number of files, reference depth)')
ASSUMPTIONS = ['automatically created options (config_name, git information, '
               'precision objects, egenerator_dir) are not defined by the '
               'user',
               'placeholders are only expanded in strings of (nested) '
               'dictionaries; lists keep their braces, because parameter '
               'names such as IceWavePlusModes_{:02d} are given in lists']
BUDGET = {'quick': 10, 'thorough': 200}
REQUIRE = {'merges': 60, 'options': 400, 'references': 60, 'chained': 20,
           'conflicts': 20}

AUTOMATIC = ['tf_float_precision', 'np_float_precision', 'git_short_sha',
             'git_sha', 'git_origin', 'git_uncommited_changes',
             'pip_installed_packages', 'config_name', 'egenerator_dir']


def escape(value):
    """Braces in plain text have to be doubled in strings."""
    if isinstance(value, str):
        return value.replace('{', '{{').replace('}', '}}')
    if isinstance(value, dict):
        return {k: escape(v) for k, v in value.items()}
    return value


def random_options(rng, n):
    """(options as written, resolved options, statistics)."""
    names = ['option_{}'.format(i) for i in range(n)]
    written, resolved, depth = {'base': 'text'}, {'base': 'text'}, {'base': 0}
    for i, name in enumerate(names):
        r = rng.rand()
        if r < 0.3 and i:
            text, result, deepest = '', '', 0
            for _ in range(rng.randint(1, 4)):
                ref = names[rng.randint(i)]
                plain = ['/', ' and ', '{{}}', '', '100%', ':', '{{x}}',
                         '../'][rng.randint(8)]
                text += plain + '{' + ref + '}'
                result += plain.replace('{{', '{').replace('}}', '}') + \
                    str(resolved[ref])
                deepest = max(deepest, depth[ref] + 1)
            written[name], resolved[name] = text, result
            depth[name] = deepest
        elif r < 0.45 and i:
            ref = names[rng.randint(i)]
            written[name] = {'inner': {'path': '{' + ref + '}/x', 'n': 3,
                                       'flag': True},
                             'list': ['{' + ref + '}', 'A_{:02d}', [1, '{}']]}
            resolved[name] = copy.deepcopy(written[name])
            resolved[name]['inner']['path'] = str(resolved[ref]) + '/x'
            depth[name] = 0
            if isinstance(resolved[ref], dict):
                del written[name], resolved[name]
                written[name] = resolved[name] = 17
        elif r < 0.55 and i:
            # element of a dictionary
            name2 = 'dict_{}'.format(i)
            ref = names[rng.randint(i)]
            if isinstance(resolved[ref], (dict, list, tuple)):
                ref = None
            inner = '{' + ref + '}!' if ref else 'text'
            written[name2] = {'key': inner}
            resolved[name2] = {'key': (str(resolved[ref]) + '!')
                               if ref else 'text'}
            written[name] = 'from {' + name2 + '[key]}'
            resolved[name] = 'from ' + resolved[name2]['key']
            depth[name] = 1 + (depth[ref] if ref else 0)
        else:
            value = plain_value(rng)
            written[name], resolved[name] = escape(value), value
            depth[name] = 0
        depth.setdefault(name, 0)
        # only text and numbers can be inserted into text
        if isinstance(resolved[name], (dict, list, tuple)):
            names[i] = next((x for x in names[:i] if not isinstance(
                resolved[x], (dict, list, tuple))), 'base')
    return written, resolved, depth


def plain_value(rng):
    while True:
        value = comps.random_value(rng)
        if not has_tuple(value):
            return value


def has_tuple(value):
    if isinstance(value, tuple):
        return True
    if isinstance(value, dict):
        return any(has_tuple(v) for v in value.values())
    if isinstance(value, list):
        return any(has_tuple(v) for v in value)
    return False


def write(path, options):
    dumper = yaml.YAML(typ='safe', pure=True)
    dumper.default_flow_style = False
    dumper.allow_unicode = True
    with open(path, 'w') as f:
        dumper.dump(options, f)


def load_back(options, path):
    """The options as the YAML parser sees them (independent of the
    SetupManager); used as reference for plain values."""
    write(path, options)
    with open(path) as f:
        return yaml.YAML(typ='safe').load(f)


def split(rng, options, n_files, base, tag):
    keys = list(options)
    groups = [[] for _ in range(n_files)]
    for i in rng.permutation(len(keys)):
        groups[rng.randint(n_files)].append(keys[i])
    files = []
    for i, group in enumerate(groups):
        path = os.path.join(base, '{}_{}.yaml'.format(tag, i))
        if not group:
            continue
        with open(path, 'w') as f:
            for key in group:      # one option after the other keeps order
                write(path + '.one', {key: options[key]})
                with open(path + '.one') as g:
                    f.write(g.read())
                os.remove(path + '.one')
        files.append(path)
    return files


def user_part(config, given):
    return {k: v for k, v in config.items() if k not in AUTOMATIC}


def case_merge(m, rng, n):
    import numpy as np
    import tensorflow as tf
    from egenerator.settings.setup_manager import SetupManager
    base = os.path.join(scratch(), 'c05_{}'.format(rng.randint(2**31)))
    os.makedirs(base)
    try:
        for j in range(n):
            written, want, depth = random_options(rng, rng.randint(2, 12))
            want = dict(want)
            precision = [None, 'float32', 'float64'][rng.randint(3)]
            if precision:
                written['float_precision'] = precision
                want['float_precision'] = precision
            want.setdefault('float_precision', 'float32')
            probe = os.path.join(base, 'probe.yaml')
            # YAML decides how plain values are read
            seen = load_back(want, probe)
            first = None
            for attempt in range(3):
                files = split(rng, written, int(rng.randint(1, 4)), base,
                              'm{}_{}'.format(j, attempt))
                manager = m.call('merge', SetupManager, files)
                config = manager.get_config()
                m.event('merges')
                m.saw('number-of-files', len(files))
                got = user_part(config, written)
                m.equal(sorted(got), sorted(seen), 'option-names')
                for key in seen:
                    m.event('options')
                    m.saw('value-kind', type(seen[key]).__name__)
                    if isinstance(written.get(key), str) and \
                            '{' in str(written[key]):
                        m.event('references')
                        m.event('chained', int(depth.get(key, 0) > 1))
                        m.saw('reference-depth', depth.get(key, 0))
                    m.check(comps.freeze(got.get(key)) ==
                            comps.freeze(seen[key]), 'option-value',
                            'option {!r}'.format(key), observed=got.get(key),
                            expected=seen[key], written=written.get(key),
                            files=[open(f).read() for f in files])
                prec = want['float_precision']
                m.check(config['tf_float_precision'] == getattr(tf, prec) and
                        config['np_float_precision'] == getattr(np, prec),
                        'precision')
                m.equal(config['config_name'], '__'.join(
                    os.path.basename(f)[:-5] for f in files), 'config-name')
                if first is None:
                    first = comps.freeze(got)
                m.check(comps.freeze(got) == first, 'order-dependent')
                # the returned dictionary is a copy
                config[sorted(got)[0]] = object()
                for value in config.values():
                    if isinstance(value, dict):
                        value['polluted'] = 1
                m.check(comps.freeze(user_part(manager.get_config(), written))
                        == first, 'not-a-copy')
            # conflicts
            for _ in range(2):
                key = sorted(written)[rng.randint(len(written))]
                extra = os.path.join(base, 'extra.yaml')
                other = written[key] if rng.rand() < 0.5 else 'other'
                write(extra, {key: other, 'unrelated_{}'.format(j): 1})
                order = files + [extra]
                order = [order[i] for i in rng.permutation(len(order))]
                m.event('conflicts')
                m.raises(lambda: SetupManager(order), 'accepted-conflict',
                         'option {!r} defined twice'.format(key))
            m.raises(lambda: SetupManager(files + [files[0]]),
                     'accepted-conflict', 'same file twice')
            m.raises(lambda: SetupManager([]), 'accepted-no-files')
            m.raises(lambda: SetupManager(files[0]), 'accepted-no-list')
            m.raises(lambda: SetupManager(
                files + [os.path.join(base, 'missing.yaml')]),
                'accepted-missing-file')
            undefined = os.path.join(base, 'undefined.yaml')
            write(undefined, {'a': '{does_not_exist}'})
            m.raises(lambda: SetupManager([undefined]),
                     'accepted-undefined-reference')
    finally:
        shutil.rmtree(base, ignore_errors=True)


def cases(tier):
    return [Case('merge', case_merge, reps=4, reps_thorough=100, n=8)]
