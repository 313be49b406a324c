"""
C15: every type of layer can be created, as Synfig would create it.

The oracle is test/pick-and-mix.sif, in which Synfig itself wrote
one layer of each type.
"""
import os

import bs4
import sangfroid
from sangfroid.layer import Layer
from mc import sif, editing
from mc.core import REPO, Unit, Violation
from mc.editing import KINDS

BOUNDS = {
        'quick': 'each of the 56 types of layer: alone, in a document, in a group, saved and loaded; '
            'each settable param of each type, changed in one instance and looked at in others made before and after; '
            'all pairs of types, one made after the other',
        'thorough': 'all pairs of types of layer with the first one edited',
        }
ASSUMPTIONS = [
        'params of types which the library does not implement (bline, wplist, dilist, dynamic_list, '
        'static_list, and the parts of outlines called round_tip[n]) are not created, and not judged',
        'Switch layers are created with the params of the layer which was inside one: not judged',
        ]

PICK = os.path.join(REPO, 'test', 'pick-and-mix.sif')
UNSUPPORTED = {'bline', 'wplist', 'dilist', 'dynamic_list', 'static_list'}
KNOWN = 'halftone3'

# Synfig's Scale isn't in the file
EXTRA = {'scale'}


def oracle():
    root = sif.parse(sif.payload(PICK)[0])
    result = {}
    for e in root.iter('layer'):
        if e.get('type') not in result:
            result[e.get('type')] = e
    return result


_oracle = {}


def wanted(type_):
    """version, {param: normalised value}, {params which may be missing}"""
    if not _oracle:
        _oracle.update(oracle())
    e = _oracle[type_]
    params, optional = {}, set()
    for p in e.findall('param'):
        if len(p)!=1 or p[0].tag in UNSUPPORTED or '[' in p.get('name'):
            optional.add(p.get('name'))
        elif p[0].tag=='canvas':
            params[p.get('name')] = ('canvas',)
        else:
            params[p.get('name')] = norm(sif.canon_element(p[0]))
    return e.get('version'), params, optional


def norm(c):
    if isinstance(c, str):
        try:
            return round(float(c), 4)
        except ValueError:
            return c
    attrs = []
    for k, v in c[1]:
        if k in ('static', 'guid'):
            # says what Synfig's user interface allows, not what the value is
            continue
        elif k=='value' and c[0]=='time':
            from mc.props.c05 import judge
            attrs.append((k, judge(v, 24.0)))
        else:
            attrs.append((k, norm(v)))
    return (c[0], tuple(sorted(attrs)), tuple(norm(x) for x in c[2]))


def types():
    return list(oracle())


def class_of(type_):
    tag = bs4.Tag(name='layer')
    tag['type'] = type_
    return type(Layer.from_tag(tag))


def construct(ctx, type_):
    """A new layer, or None if that's known not to work."""
    cls = class_of(type_)
    if type_==KNOWN:
        try:
            return cls()
        except AttributeError:
            ctx.known_finding('halftone3')
            return None
    return cls()


def look(ctx, e, type_, what, edited=()):
    """Checks that an lxml element is a layer as Synfig would create it."""
    version, params, optional = wanted(type_)
    ctx.same(e.tag, 'layer', f'{what} {type_}: tag')
    ctx.same(e.get('type'), type_, f'{what}: type')
    ctx.same(e.get('version'), version, f'{what} {type_}: version')
    ctx.same(e.get('active'), 'true', f'{what} {type_}: active')
    ctx.same(e.get('exclude_from_rendering'), 'false', f'{what} {type_}: exclude_from_rendering')
    found = {}
    for p in e.findall('param'):
        ctx.same(len(p), 1, f'{what} {type_}: values in param {p.get("name")}')
        ctx.check(p.get('name') not in found, f'{what} {type_}: two of {p.get("name")}')
        if p[0].tag=='canvas':
            found[p.get('name')] = ('canvas',)
        else:
            found[p.get('name')] = norm(sif.canon_element(p[0]))
    for name, value in params.items():
        if type_=='switch' and name=='canvas':
            continue
        ctx.check(name in found, f'{what} {type_}: no {name}')
        if name in edited:
            continue
        ctx.same(found[name], value, f'{what} {type_}: {name}')
    if type_ not in ('switch', 'outline'):
        extra = set(found)-set(params)-optional
        ctx.check(not extra, f'{what} {type_}: stray {extra}')


def element(layer):
    return sif.parse(str(layer.tag).encode('utf-8'))


def create_cases(tier):
    for t in types():
        for where in ('alone', 'document', 'group', 'twice', 'classname'):
            yield [t, where]


def create_run(ctx, case):
    type_, where = case
    ctx.step()
    layer = construct(ctx, type_)
    if layer is None:
        return
    ctx.state(case)
    look(ctx, element(layer), type_, 'new')
    ctx.same(layer.desc, None, 'desc')
    ctx.same(layer.active, True, 'active')
    ctx.same(layer.exclude_from_rendering, False, 'exclude_from_rendering')
    ctx.same(layer.parent, None, 'parent')
    ctx.same(layer.version, float(wanted(type_)[0]), 'version')
    if where=='alone':
        repr(layer)
        return
    if where=='classname':
        # it's also available by the name of its class
        by_name = getattr(sangfroid.layer, type(layer).__name__)
        ctx.check(by_name is type(layer), f'{type_} is {by_name}')
        return

    a = sangfroid.Animation()
    path = ctx.path('new.sif')
    if where=='group':
        group = sangfroid.layer.Group()
        a.append(group)
        group.append(layer)
    else:
        a.append(layer)
        if where=='twice':
            a.append(construct(ctx, type_))
    # now that they're in a document, everything in them can be read
    for name, value in layer.items():
        if name not in ('canvas',) and value.tag.name in KINDS:
            value.value
            if isinstance(type(layer).__dict__.get(name), sangfroid.field.ParamTagField):
                ctx.same(type(getattr(layer, name)).__name__ and getattr(layer, name)==value, True,
                         f'{type_}: {name} by attribute and by item')
    a.save(path)
    root = sif.parse(sif.payload(path)[0])
    elements = [e for e in root.iter('layer') if e.get('type')==type_]
    ctx.same(len(elements), 2 if where=='twice' or (where=='group' and type_=='group') else 1,
             'number in the file')
    for e in elements:
        look(ctx, e, type_, 'saved')
    try:
        editing.validate(root)
    except editing.Invalid as problem:
        raise Violation(f'the saved document is invalid: {problem}')
    again = sangfroid.Animation(path)
    found = again.find_all(type=type_)
    ctx.same(len(found), len(elements), 'number found')
    for f in found:
        ctx.check(type(f) is type(layer), f'{type_} reloads as {type(f)}')
    ctx.same(len(again.find_all(type(layer))), len(elements), 'number found by class')


def edit_cases(tier):
    for t in types():
        for p in wanted(t)[1]:
            yield [t, p]


def edit_run(ctx, case):
    """What you do to one layer doesn't affect any other."""
    type_, name = case
    before = construct(ctx, type_)
    if before is None:
        return
    layer = construct(ctx, type_)
    if name not in layer.keys() and type_=='switch':
        return
    kind = layer[name].tag.name
    ctx.step()
    ctx.state(case)
    if kind in KINDS:
        k = KINDS[kind]
        i = 1 if kind!='bool' or not layer[name].value is False else 0
        if isinstance(type(layer).__dict__.get(name), sangfroid.field.ParamTagField):
            setattr(layer, name, k.samples[i])
        layer[name] = k.samples[i]
        ctx.same(k.read(layer[name]), k.norm(k.samples[i]), f'{type_}: {name} after setting it')
        layer[name].timeline[3] = k.samples[i]
    elif kind=='composite':
        layer.offset = (3.0, 4.0)
        layer.angle = 12.0
        layer.transformation['scale'].timeline[3] = (1.0, 7.0)
    elif kind=='canvas':
        if hasattr(layer, 'insert'):
            layer.append(sangfroid.layer.Circle())
            ctx.same(len(layer), 1, 'length')
    look(ctx, element(layer), type_, 'edited', edited=(name,))
    look(ctx, element(before), type_, 'made before')
    look(ctx, element(construct(ctx, type_)), type_, 'made after')
    if hasattr(before, 'insert'):
        ctx.same(len(before), 0, 'length of the other')


def pair_cases(tier):
    ts = types()
    for a in ts:
        for b in ts:
            if a!=b:
                yield [a, b, tier=='thorough']


def pair_run(ctx, case):
    first, second, edit = case
    a = construct(ctx, first)
    if a is None:
        return
    if edit:
        a.desc = 'x'
        a.active = False
        for name, value in a.items():
            if value.tag.name in KINDS:
                a[name] = KINDS[value.tag.name].samples[0]
    ctx.step()
    ctx.state(case)
    b = construct(ctx, second)
    if b is None:
        return
    look(ctx, element(b), second, f'made after a {first}')
    if not edit:
        look(ctx, element(a), first, f'made before a {second}')


UNITS = [
        Unit('create', create_cases, create_run),
        Unit('edit', edit_cases, edit_run),
        Unit('pairs', pair_cases, pair_run),
        ]
