"""
C12: an edit changes what it names, and nothing else.
"""
import os

import sangfroid
from mc import sif, editing
from mc.core import REPO, Unit, sequences
from mc.editing import World, PARAMS, KINDS
from mc.props import c08

BOUNDS = {
        'quick': 'every way of setting each of the 36 params of a document of 8 layers in 3 levels '
            '(whose layers share param names), and all histories of <=2 of 60 edits and of 3 of 17, '
            'comparing the whole saved document with a model; '
            'every settable param of each of the 57 layers of pick-and-mix.sif, by two routes; '
            'every layer lacking a param which a layer inside it has; '
            'also histories of 7 with a period of <=2, and of 30 in which each edit follows each',
        'thorough': 'all histories of 3 of 60 edits, and of 4 of 17; all routes in pick-and-mix',
        }
ASSUMPTIONS = ['reading layer["p"] where the layer has no p of its own finds '
               "that of a layer inside it: the repository's tests insist, so "
               'that is not judged']


def cases(tier):
    yield from c08.cases(tier)


def run(ctx, case):
    fps, ops = case
    w = World(ctx, fps)
    for op in ops:
        w.do(op)
    root = w.saved()
    ctx.state(sif.canon_element(root))
    w.agree(root)


PICK = os.path.join(REPO, 'test', 'pick-and-mix.sif')


def pick_cases(tier):
    root = sif.parse(sif.payload(PICK)[0])
    routes = ['attr', 'item']
    if tier=='thorough':
        routes += ['value', 'item-object', 'animate', 'way']
    for n, e in enumerate(root.iter('layer')):
        for p in e.findall('param'):
            if len(p)!=1 or p[0].tag not in KINDS:
                continue
            for route in routes:
                yield [n, e.get('type'), p.get('name'), p[0].tag, route]


_pick = {}


def pick_doc():
    if not _pick:
        _pick['canon'] = sif.canon_bytes(sif.payload(PICK)[0])
        _pick['flat'] = None
    return _pick['canon']


def replace_nth(c, n, name, make):
    """
    Replaces the value of the named param in the n-th layer
    of a canonical document.
    """
    count = [-1]

    def walk(c):
        if isinstance(c, str) or len(c)==2:
            return c
        mine = False
        if c[0]=='layer':
            count[0] += 1
            mine = count[0]==n
        children = []
        for child in c[2]:
            if mine and child[0]=='param' and dict(child[1]).get('name')==name:
                children.append((child[0], child[1], (make(child[2][0]),)))
            else:
                children.append(walk(child))
        return (c[0], c[1], tuple(children))

    return walk(c)


def param_of(c, n, name):
    found = []
    replace_nth(c, n, name, lambda v: found.append(v) or v)
    return found


def pick_run(ctx, case):
    n, type_, name, kind, route = case
    a = sangfroid.Animation(PICK)
    layer = sangfroid.layer.Layer.from_tag(a.tag.find_all('layer')[n])
    ctx.same(layer.tag['type'], type_, 'type')
    k = KINDS[kind]
    sample = k.samples[0]
    wanted = ('static', k.norm(sample))
    field = getattr(type(layer), '__dict__', {}).get(name)
    ctx.step()
    if route=='attr':
        if not isinstance(field, sangfroid.field.ParamTagField):
            return
        setattr(layer, name, sample)
    elif route=='item':
        layer[name] = sample
    elif route=='value':
        layer[name].value = sample
    elif route=='item-object':
        layer[name] = sangfroid.value.Time(sangfroid.T(3.0)) if kind=='time' else k.cls(sample)
    elif route=='animate':
        before = editing.describe(kind, sif.parse(str(layer[name].tag).encode()))
        layer[name].is_animated = True
        wanted = ('animated', [(0.0, before[1], 'clamped', 'clamped')])
    elif route=='way':
        layer[name].timeline[12] = sample
        wanted = ('animated', [(12.0, k.norm(sample), 'clamped', 'clamped')])

    path = ctx.path('pick.sif')
    a.save(path)
    root = sif.parse(sif.payload(path)[0])
    after = sif.canon_element(root)
    before = pick_doc()
    new = param_of(after, n, name)
    ctx.same(len(new), 1, f'params called {name}')
    ctx.state(case)
    expected = replace_nth(before, n, name, lambda v: new[0])
    if after!=expected:
        ctx.check(False, 'something else changed:\n'+sif.diff(expected, after))
    e = list(root.iter('layer'))[n]
    value = [p for p in e.findall('param') if p.get('name')==name][0][0]
    ctx.same(editing.describe(kind, value), wanted, f'{type_}/{name}')


def lacking_cases(tier):
    for name, kind in [('amount', 'real'), ('origin', 'vector'), ('z_depth', 'real'),
                       ('blend_method', 'integer')]:
        for levels in (1, 2):
            for what in ('get', 'set', 'set-object'):
                yield [name, kind, levels, what]
    for part, kind in editing.PARTS.items():
        for what in ('get', 'set'):
            yield [part, kind, 1, what]


def lacking_run(ctx, case):
    """The layer has no such param, but one inside it does."""
    name, kind, levels, what = case
    k = KINDS[kind]
    inner = editing.group('in', editing.circle('c')) if name in editing.PARTS else \
            editing.layer('circle', 'in', editing.param(name, k.xml(k.samples[0])))
    for n in range(levels):
        inner = editing.layer(
                'group', f'g{n}',
                editing.param('canvas', f'<canvas>{inner}</canvas>'))
    path = sif.write(ctx.path('l.sif'), sif.canvas(inner))
    a = sangfroid.Animation(path)
    before = sif.canon(a.tag)
    outer = a[0]
    ctx.same(outer.desc, f'g{levels-1}', 'outermost')
    ctx.step()
    try:
        if what=='get':
            got = getattr(outer, name)
        elif what=='set':
            setattr(outer, name, k.samples[1])
            got = 'no exception'
        else:
            setattr(outer, name, k.cls(k.samples[1]))
            got = 'no exception'
    except (AttributeError, KeyError):
        got = 'refused'
    ctx.same(got, 'refused', f'{what} {name} on a layer which has none')
    ctx.state(case)
    ctx.check(sif.canon(a.tag)==before, 'changed by a refused edit:\n'+
              sif.diff(before, sif.canon(a.tag)))


# --------------------------------------------------------------

ATTRIBUTES = [['guid'], ['id'], ['static'], ['unheard-of'], ['guid', 'id', 'static', 'unheard-of']]
ATTRIBUTE_ROUTES = ['item', 'attr', 'value', 'handle', 'twice', 'other', 'component', 'reload']
PLACES = {'real': ('circle', 'radius'), 'integer': ('star', 'points'), 'bool': ('circle', 'invert'), 'angle': ('star', 'angle'),
          'string': ('text', 'text'), 'color': ('circle', 'color'), 'vector': ('circle', 'origin'), 'time': ('timeloop', 'duration'),
          'gradient': ('linear_gradient', 'gradient')}


def attribute_cases(tier):
    for kind in list(PLACES)+[f'part {p}' for p in editing.PARTS]:
        for attrs in ATTRIBUTES:
            for sample in range(3):
                for route in ATTRIBUTE_ROUTES:
                    yield [kind, attrs, sample, route]


def attribute_run(ctx, case):
    """What's written on the tag of a value stays when it's set."""
    what, attrs, n, route = case
    part = what.split()[1] if what.startswith('part ') else None
    kind = editing.PARTS[part] if part else what
    k = KINDS[kind]
    sample = k.samples[n%len(k.samples)]
    start = k.samples[(n+1)%len(k.samples)]
    extra = ''.join(f' {a}="{a}-{what}"' for a in attrs)

    def marked(s, inner=True):
        root = sif.parse(k.xml(s).encode())
        for a in attrs:
            root.set(a, f'{a}-{what}')
        if inner and kind=='vector':
            for c in root:
                c.set('note', c.tag)
        return sif.etree.tostring(root).decode()

    if part:
        path = ('group', 'transformation')
        value = editing.transformation()
        root = sif.parse(value.encode())
        p = root.find(part)
        p[:] = [sif.parse(marked(start).encode())]
        for c in root:
            c.set('mark', c.tag)
        value = sif.etree.tostring(root).decode()
        inside = '<param name="canvas"><canvas/></param>'
    else:
        path = PLACES[kind]
        value = marked(start)
        inside = ''
    text = sif.canvas(
            f'<layer type="{path[0]}" group="X">'
            f'<param name="amount"><real value="1.0" guid="mine"/></param>'
            f'<param name="{path[1]}" guid="p" unheard-of="q">{value}</param>{inside}</layer>')
    a = sangfroid.Animation(sif.write(ctx.path('a.sif'), text))
    layer = a[0]
    handle = layer[path[1]][part] if part else layer[path[1]]

    def put(x, route):
        ctx.step()
        if route=='attr' or (part and route=='item'):
            if part:
                setattr(layer.transformation, part, x)
            else:
                setattr(layer, path[1], x)
        elif route=='value':
            (layer[path[1]][part] if part else layer[path[1]]).value = x
        elif route=='handle':
            handle.value = x
        else:
            layer[path[1]] = x

    if route=='twice':
        put(k.samples[-1], 'item')
        put(sample, 'value')
    elif route=='reload':
        put(k.samples[-1], 'value')
        a.save(ctx.path('b.sif'))
        a = sangfroid.Animation(ctx.path('b.sif'))
        layer = a[0]
        put(sample, 'item')
    elif route=='other':
        # something else altogether
        layer['amount'] = 0.25
        sample = start
    elif route=='component':
        if kind!='vector':
            return
        handle.x = sample[0]
        handle.y = sample[1]
        ctx.step(2)
    else:
        put(sample, route)
    a.save(ctx.path('a.sif'))
    root = sif.parse(sif.payload(ctx.path('a.sif'))[0])
    found = [p for p in root.iter('param') if p.get('name')==path[1]][0]
    ctx.state(what, attrs, n)
    ctx.same(dict(found.attrib), {'name': path[1], 'guid': 'p', 'unheard-of': 'q'}, 'attributes of the param')
    amount = [p for p in root.iter('param') if p.get('name')=='amount'][0]
    ctx.same(amount[0].get('guid'), 'mine', 'guid of the amount')
    tag = found[0]
    if part:
        ctx.same({c.tag: dict(c.attrib) for c in tag}, {p: {'mark': p} for p in editing.PARTS}, 'attributes of the parts')
        tag = tag.find(part)[0]
    ctx.same(editing.describe(kind, tag), ('static', k.norm(sample)), 'value')
    ctx.same({n: x for n, x in tag.attrib.items() if n!='value'}, {x: f'{x}-{what}' for x in attrs},
             'attributes of the value')
    if kind=='vector' and route in ('component', 'other'):
        ctx.same([c.get('note') for c in tag], ['x', 'y'], 'attributes of the co-ordinates')


# --------------------------------------------------------------
# Many layers, all just the same

def alike_cases(tier):
    for n in list(range(2, 9))+[15]:
        for shape in ('flat', 'nested', 'groups'):
            for k in range(n):
                yield [n, shape, k]


def alike_run(ctx, case):
    n, shape, which = case
    waypoints = '<waypoint time="0f" before="clamped" after="clamped"><real value="1.0"/></waypoint>'
    own = ('<param name="amount"><real value="1.0"/></param>'
           f'<param name="z_depth"><animated type="real">{waypoints}</animated></param>'
           '<param name="origin"><vector><x>1.0</x><y>2.0</y></vector></param>')
    if shape=='flat':
        content = f'<layer type="circle" desc="same">{own}<param name="color"><color><r>1</r><g>0</g><b>0</b><a>1</a></color></param></layer>\n'*n
    elif shape=='nested':
        content = ''
        for i in range(n):
            content = f'<layer type="group" desc="same">{own}<param name="canvas"><canvas>{content}</canvas></param></layer>'
    else:
        content = (f'<layer type="group" desc="same">{own}<param name="canvas"><canvas>'
                   f'<layer type="circle" desc="same">{own}</layer></canvas></param></layer>')*n
    text = sif.canvas(content)
    kind = 'circle' if shape=='flat' else 'group'

    def real(x):
        return f'<real value="{x:.10f}"/>'

    edits = {
            'amount': lambda l: l.__setitem__('amount', 0.25),
            'amount attribute': lambda l: setattr(l, 'amount', 0.25),
            'amount value': lambda l: setattr(l['amount'], 'value', 0.25),
            'timeline': lambda l: l['z_depth'].timeline.__setitem__(5, 2.5),
            'unanimate': lambda l: setattr(l.z_depth, 'is_animated', False),
            'animate': lambda l: setattr(l.amount, 'is_animated', True),
            'origin': lambda l: setattr(l['origin'], 'x', -3.5),
            'whole origin': lambda l: l.__setitem__('origin', (-3.5, 2.0)),
            'desc': lambda l: setattr(l, 'desc', 'other'),
            'no desc': lambda l: setattr(l, 'desc', None),
            'active': lambda l: setattr(l, 'active', False),
            }
    for name, edit in edits.items():
        path = sif.write(ctx.path('a.sif'), text)
        a = sangfroid.Animation(path)
        layer = a.find_all(kind)[which]
        edit(layer)
        ctx.step()
        a.save()
        root = sif.parse(text.encode())
        e = [x for x in root.iter('layer') if x.get('type')==kind][which]
        amount, depth, origin = e.findall('param')[:3]
        if name.startswith('amount'):
            amount[0].set('value', '0.2500000000')
        elif name=='timeline':
            depth[0].append(sif.parse(f'<waypoint time="5f" before="clamped" after="clamped">{real(2.5)}</waypoint>'.encode()))
        elif name=='unanimate':
            depth[:] = [sif.parse(b'<real value="1.0"/>')]
        elif name=='animate':
            amount[:] = [sif.parse(f'<animated type="real">{waypoints}</animated>'.encode())]
        elif 'origin' in name:
            origin[0][0].text = '-3.5'
        elif name=='desc':
            e.set('desc', 'other')
        elif name=='no desc':
            del e.attrib['desc']
        else:
            e.set('active', 'false')
        found = sif.parse(sif.payload(path)[0])
        ctx.same(numbers(sif.canon_element(found)), numbers(sif.canon_element(root)), f'{name} of layer {which} of {n}, {shape}')
        ctx.state(case, name)


def numbers(c):
    """Replaces strings which are numbers by numbers."""
    if isinstance(c, tuple):
        return tuple(numbers(x) for x in c)
    try:
        return float(c)
    except ValueError:
        return '0f' if c=='0s' else c


UNITS = [
        Unit('alike', alike_cases, alike_run),
        Unit('attributes', attribute_cases, attribute_run),
        Unit('lacking', lacking_cases, lacking_run),
        Unit('pick-and-mix', pick_cases, pick_run),
        Unit('histories', cases, run),
        ]
