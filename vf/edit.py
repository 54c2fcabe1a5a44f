"""Edits of a field, carried out on the field and on its specification."""
import copy

from scheme.field import Field

from vf import gens, model
from vf.build import build, children

SMALL = gens.Opts(depth=1, pre=False, width=2, patterns=False)


def targets(spec, path=()):
    """(path, spec) of the root and of every nested specification an edit can reach."""
    yield list(path), spec
    for key, child in children(spec):
        if isinstance(key, tuple) and (key[0] == '*' or key[1] in spec.get('common', ())):
            continue            # shared between the variants
        if isinstance(key, tuple) and key[1] == model.discriminator(spec)['name']:
            continue
        for found in targets(child, tuple(path) + (key,)):
            yield found


def spec_at(spec, path):
    for step in path:
        step = tuple(step) if isinstance(step, list) else step
        spec = dict(children(spec))[step]
    return spec


def field_at(field, path):
    """Walk to the nested field, by documented attributes."""
    for step in path:
        if isinstance(step, (list, tuple)):
            field = field.structure[step[0]][step[1]]
        elif step in ('item', 'value', 'key') and field.type in ('sequence', 'map'):
            field = getattr(field, step)
        elif field.type == 'tuple':
            field = field.values[step]
        elif field.type == 'union':
            field = field.fields[step]
        else:
            field = field.structure[step]
    return field


def an_edit(d, spec, variants=True, keys=False):
    """A plain-data edit applicable to some target of spec."""
    options = list(targets(spec))
    if keys:
        options = [o for o in options if o[1]['t'] == 'enumeration' or o[1]['t'] == 'structure' and 'polymorphic_on' not in o[1]] or options
    path, target = d.choice(options)
    t = target['t']
    kinds = ['attr', 'aspect']
    if t == 'structure' and 'polymorphic_on' not in target:
        kinds += ['insert', 'remove', 'merge'] * 2
    elif t == 'structure' and variants:
        kinds += ['variant'] * 2
    if t == 'enumeration':
        kinds += ['redefine'] * 4
    kind = d.choice(kinds)
    edit = {'kind': kind, 'path': path}
    if kind == 'attr':
        edit['name'], options = d.choice((('title', ('A title', '', None)), ('description', ('words', None)),
            ('required', (True, False)), ('nonnull', (True, False)), ('ignore_null', (True, False)), ('notes', ('note', None))))
        edit['value'] = d.choice(options)
    elif kind == 'aspect':
        edit['name'] = d.choice(gens.META_KEYS)
        edit['value'] = d.choice(gens.META_VALUES)
    elif kind == 'insert':
        edit['name'] = d.choice(some_names(target))
        edit['spec'] = gens.a_spec(d, SMALL, 1)
        edit['overwrite'] = d.bool()
    elif kind == 'remove':
        edit['names'] = d.subset(some_names(target), 0.4)
    elif kind == 'merge':
        edit['specs'] = dict((n, gens.a_spec(d, SMALL, 0)) for n in d.shuffled(some_names(target))[:d.int(1, 2)])
        edit['prefer'] = d.bool()
    elif kind == 'variant':
        edit['identity'] = d.choice(sorted(target['structure'], key=repr))
        edit['name'] = 'added'
        edit['spec'] = gens.scalar_spec(d, d.choice(gens.SCALARS), SMALL)
    elif kind == 'redefine':
        edit['values'] = d.subset(('zz', 'yy', 17, 'alpha'), 0.5)
        edit['strategy'] = d.choice(('append', 'replace'))
        if edit['strategy'] == 'replace' and not edit['values']:
            edit['values'] = ['only']
    return edit


def some_names(target):
    return sorted(target['structure']) + ['new', 'other']


def members(spec):
    values = spec['enumeration']
    return values.split(' ') if isinstance(values, str) else list(values)


def edit_spec(spec, edit):
    """The specification after the edit, changed in place."""
    target = spec_at(spec, edit['path'])
    kind = edit['kind']
    if kind == 'attr':
        if edit['name'] in ('required', 'nonnull') and target.pop('nonempty', None):
            target['required'] = target['nonnull'] = True
            if target['t'] in ('text', 'binary', 'email') and target.get('min_length') is None:
                target['min_length'] = 1
        target[edit['name']] = edit['value']
    elif kind == 'aspect':
        part = 'extra' if edit['name'] in target.get('extra', ()) else 'aspects'
        target[part] = dict(target.get(part, {}), **{edit['name']: copy.deepcopy(edit['value'])})
    elif kind == 'insert':
        if edit['overwrite'] or edit['name'] not in target['structure']:
            target['structure'][edit['name']] = copy.deepcopy(edit['spec'])
    elif kind == 'remove':
        for name in edit['names']:
            target['structure'].pop(name, None)
    elif kind == 'merge':
        for name, child in edit['specs'].items():
            if edit['prefer'] or name not in target['structure']:
                target['structure'][name] = copy.deepcopy(child)
    elif kind == 'variant':
        target['structure'][edit['identity']][edit['name']] = copy.deepcopy(edit['spec'])
    elif kind == 'redefine':
        base = members(target) if edit['strategy'] == 'append' else []
        target['enumeration'] = base + [v for v in edit['values'] if not any(v == b for b in base)]
    return spec


def edit_field(field, edit):
    target = field_at(field, edit['path'])
    kind = edit['kind']
    if kind == 'attr':
        setattr(target, edit['name'], edit['value'])
    elif kind == 'aspect':
        target.aspects[edit['name']] = copy.deepcopy(edit['value'])
    elif kind == 'insert':
        target.insert(build(dict(edit['spec'], name=edit['name'])), edit['overwrite'])
    elif kind == 'remove':
        target.remove(*edit['names'])
    elif kind == 'merge':
        target.merge(dict((n, build(s)) for n, s in edit['specs'].items()), edit['prefer'])
    elif kind == 'variant':
        target.structure[edit['identity']][edit['name']] = build(dict(edit['spec'], name=edit['name']))
    elif kind == 'redefine':
        target.redefine(list(edit['values']), edit['strategy'])
