"""
C17: values with parts are the mappings and sequences they look like.
"""
import itertools

import sangfroid
import sangfroid.value as v
from mc import sif, editing
from mc.core import Unit, sequences, periodic, walks
from mc.values import KINDS, describe, _color_tuple
from mc.props.c16 import described
from mc.editing import PARTS

BOUNDS = {
        'quick': 'all histories of <=3 of 18 changes of a gradient, of <=3 of 26 of a transformation, and of <=3 of 16 of a vector, '
            '(and <=2 from other starting points) written in various ways; every accessor is tried '
            'after each change; 16 changes of one part where the others are written in 9 ways; gradients of 2 to 12 stops, made in 4 ways, with one of 4 changes at each place; '
            'also histories of 7 with a period of <=2, and of 30 in which each change follows each',
        'thorough': 'histories of <=4 changes',
        }
ASSUMPTIONS = ['handles on the colours of a gradient, taken before the gradient was changed, are not judged',
               'animated vectors and gradients are looked at only through their waypoints']


def document(type_, name, xml):
    return sif.canvas(editing.layer(type_, 'A', editing.param('amount', '<real value="1.0"/>'),
                                    editing.param(name, xml),
                                    editing.param('z_depth', '<real value="0.5"/>'))
                      + editing.layer(type_, 'B', editing.param(name, xml)))


def refuses(ctx, exception, f, what):
    try:
        x = f()
    except exception:
        return
    ctx.check(False, what, f'gave {x!r}, not {exception}')


def in_file(a, kind, id_, name, part=None):
    root = sif.parse(str(a.tag).encode('utf-8'))
    return described(kind, editing.find_value(root, id_, name, part))


# -------------------------------------------------------------- gradients

G_START = [
        {0.0: '#000000', 1.0: '#ffffff'},
        {0.25: (1.0, 0.0, 0.0), 0.5: (0.0, 1.0, 0.0, 0.5), 0.75: (0.0, 0.0, 1.0)},
        {0.0: '#ff8000', 0.5: '#ff8000'},
        ]
G_OPS = [
        ['stop', 0.0, '#102030'], ['stop', 0.5, '#80808080'], ['stop', 1.0, (0.25, 0.5, 0.125)],
        ['stop', 0.125, (1.0, 0.0, 0.0, 0.25)], ['stop', 0.75, 'ABCDEF'], ['stop', 0.5, 'Color'],
        ['stop', 2.5, '#ffffff'], ['stop', -0.5, '#ffffff'],
        ['stop', 0, '#010203'], ['stop', 1, '#010203'],
        ['handle', 'first', '#405060'], ['handle', 'last', (0.5, 0.25, 0.75)],
        ['whole', 1], ['whole', 2],
        ['items'], ['reverse'], ['reload'],
        ['set-dict', 0.375],
        ]


def g_cases(tier):
    for start in range(len(G_START)):
        for ops in sequences(G_OPS, 4 if tier=='thorough' else 3 if start==1 else 2):
            yield [start, ops]
        for ops in walks(G_OPS, 30):
            yield [start, ops]


def g_run(ctx, case):
    start, ops = case
    start = G_START[start]
    xml = '<gradient>\n'+'\n'.join(
            f'<color pos="{p:.6f}">\n<r>{c[0]:.6f}</r><g>{c[1]:.6f}</g><b>{c[2]:.6f}</b><a>{c[3]:.6f}</a></color>'
            for p, c in ((p, _color_tuple(c)) for p, c in start.items()))+'</gradient>'
    path = sif.write(ctx.path('g.sif'), document('linear_gradient', 'gradient', xml))
    a = sangfroid.Animation(path)
    layer = a[1]
    g = layer.gradient
    model = {float(p): _color_tuple(c) for p, c in start.items()}
    untouched = in_file(a, 'gradient', 'B', 'gradient')

    for op in ops:
        ctx.step()
        ctx.note(op)
        if op[0]=='stop':
            c = op[2] if op[2]!='Color' else v.Color('#0a0b0c')
            if isinstance(c, list):
                c = tuple(c)
            g[op[1]] = c
            model[float(op[1])] = _color_tuple('#0a0b0c' if op[2]=='Color' else c)
        elif op[0]=='handle':
            pos = (min if op[1]=='first' else max)(model)
            c = tuple(op[2]) if isinstance(op[2], list) else op[2]
            g[pos].value = c
            model[pos] = _color_tuple(c)
        elif op[0]=='whole':
            g.value = G_START[op[1]]
            model = {float(p): _color_tuple(c) for p, c in G_START[op[1]].items()}
        elif op[0]=='items':
            # all of it, by way of what we read
            layer.gradient = dict(g.items())
        elif op[0]=='reverse':
            g.value = {1.0-p: c for p, c in g.items()}
            model = {1.0-p: c for p, c in model.items()}
        elif op[0]=='set-dict':
            d = dict(g.value)
            d[op[1]] = '#070809'
            layer['gradient'] = d
            model[op[1]] = _color_tuple('#070809')
        elif op[0]=='reload':
            a.save(ctx.path('g2.sif'))
            a = sangfroid.Animation(ctx.path('g2.sif'))
            layer = a[1]
            g = layer.gradient

    wanted = tuple(sorted(model.items()))
    ctx.state(wanted)
    for h in (g, layer.gradient, layer['gradient']):
        ctx.same(len(h), len(model), 'len')
        ctx.same(sorted(h.keys()), sorted(model), 'keys')
        ctx.same(list(h), list(h.keys()), 'iteration')
        ctx.same([[k, four(c)] for k, c in h.items()], [[k, four(c)] for k, c in zip(h.keys(), h.values())], 'items')
        for p, c in model.items():
            ctx.same(four(h[p]), c, f'stop {p}')
            ctx.same(four(h.value[p]), c, f'stop {p} of the value')
        for p in [0.3, 7.0]+[q for p in model for q in (p-0.001, p+0.001, p-0.0001, p+0.0001) if len(ops)<3 and
                             all(abs(q-other)>1e-5 for other in model)]:
            refuses(ctx, KeyError, lambda: h[p], f'stop {p}')
    ctx.same(in_file(a, 'gradient', 'A', 'gradient'), wanted, 'in the file')
    ctx.same(in_file(a, 'gradient', 'B', 'gradient'), untouched, 'the other layer')
    if len(ops)==1:
        # Synfig has them in order
        root = sif.parse(str(a.tag).encode('utf-8'))
        stops = [float(e.get('pos')) for e in editing.find_value(root, 'A', 'gradient')]
        ctx.same(stops, sorted(stops), 'order of stops')


def four(c):
    return tuple(round(x, 4) for x in c.as_tuple())


# ---------------------------------------------------------------- vectors

V_XML = [
        '<vector><x>1.5000000000</x><y>-2.0000000000</y></vector>',
        '<vector>\n  <y>0.25</y>\n  <x>7</x>\n</vector>',
        '<vector guid="0123"><x>-1e-3</x><!-- comment --><y>0</y></vector>',
        ]
V_START = [(1.5, -2.0), (7.0, 0.25), (-0.001, 0.0)]
V_OPS = [
        ['tuple', [3.0, 4.0]], ['tuple', [0.0, 0.0]], ['tuple', [2, -1]],
        ['dict', [5.0, 6.0]], ['dict-reversed', [5.0, 6.0]], ['items'], ['swap'],
        ['Value', [-0.5, 0.125]], ['self'], ['empty'], ['animate'], ['reload'],
        ['x', 9.25], ['y', -3], ['fresh-x', -0.75], ['attr-y', 1e-3],
        ]


def v_cases(tier):
    for start in range(len(V_XML)):
        for ops in sequences(V_OPS, 4 if tier=='thorough' else 3):
            yield [start, ops]
        for ops in walks(V_OPS, 30):
            yield [start, ops]


def v_run(ctx, case):
    start, ops = case
    path = sif.write(ctx.path('v.sif'), document('circle', 'origin', V_XML[start]))
    a = sangfroid.Animation(path)
    layer = a[1]
    x = layer['origin']
    model = V_START[start]
    untouched = in_file(a, 'vector', 'B', 'origin')
    for op in ops:
        ctx.step()
        ctx.note(op)
        if op[0]=='tuple':
            x.value = tuple(op[1])
            model = tuple(map(float, op[1]))
        elif op[0]=='dict':
            layer['origin'] = {'x': op[1][0], 'y': op[1][1]}
            model = tuple(map(float, op[1]))
        elif op[0]=='dict-reversed':
            x.value = {'y': op[1][1], 'x': op[1][0]}
            model = tuple(map(float, op[1]))
        elif op[0]=='items':
            x.value = dict(x.items())
        elif op[0]=='swap':
            layer['origin'] = (x['y'], x['x'])
            model = (model[1], model[0])
        elif op[0]=='Value':
            layer.origin = v.X_Y(*op[1])
            model = tuple(op[1])
        elif op[0]=='self':
            x.value = x.as_tuple()
        elif op[0]=='x':
            x.x = op[1]
            model = (op[1], model[1])
        elif op[0]=='fresh-x':
            layer['origin'].x = op[1]
            model = (op[1], model[1])
        elif op[0]=='y':
            x.y = op[1]
            model = (model[0], op[1])
        elif op[0]=='attr-y':
            layer.origin.y = op[1]
            model = (model[0], op[1])
        elif op[0]=='empty':
            x.value = {}
            model = (0.0, 0.0)
        elif op[0]=='animate':
            x.is_animated = True
            ctx.same(near(x.timeline.values()[0].value.as_tuple()), near(model), 'the waypoint')
            x.is_animated = False
        elif op[0]=='reload':
            a.save(ctx.path('v2.sif'))
            a = sangfroid.Animation(ctx.path('v2.sif'))
            layer = a[1]
            x = layer['origin']
    model = near(model)
    ctx.state(model)
    for h in (x, layer['origin'], layer.origin):
        ctx.same(near(h.as_tuple()), model, 'as_tuple')
        ctx.same(near(tuple(h)), model, 'iteration')
        ctx.same(near(h.values()), model, 'values')
        ctx.same(list(h.keys()), ['x', 'y'], 'keys')
        ctx.same([(k, round(n, 8)) for k, n in h.items()], list(zip('xy', model)), 'items')
        ctx.same(len(h), 2, 'len')
        ctx.same(near((h['x'], h['y'])), model, 'by name')
        ctx.same(near((h[0], h[1])), model, 'by index')
        ctx.same(near((h[-2], h[-1])), model, 'by index from the end')
        for i in (2, 3, -3):
            refuses(ctx, LookupError, lambda: h[i], f'index {i}')
        ctx.same(near((h.x, h.y)), model, 'attributes')
        ctx.same(near((h.get('x'), h.get('y', 99.0))), model, 'get')
        ctx.same(h.get('z', 'nothing'), 'nothing', 'get of a missing member')
        refuses(ctx, KeyError, lambda: h['z'], 'a missing member')
        refuses(ctx, AttributeError, lambda: h.z, 'a missing attribute')
        for n in tuple(h)+tuple(h.values())+h.as_tuple()+(h.x, h['y'], h[0]):
            ctx.check(isinstance(n, float), f'{n!r} is not a float')
    ctx.same(in_file(a, 'vector', 'A', 'origin'), tuple(round(n, 6) for n in model), 'in the file')
    ctx.same(in_file(a, 'vector', 'B', 'origin'), untouched, 'the other layer')


def near(x):
    return tuple(round(float(n), 8) for n in x)


# --------------------------------------------------------- transformations

T_OPS = [
        ['short', 'offset', 0], ['short', 'angle', 1], ['short', 'skew_angle', 0], ['short', 'scale', 2],
        ['dict', ['offset']], ['dict', ['angle', 'scale']], ['dict', ['scale', 'skew_angle', 'angle', 'offset']],
        ['value', ['skew_angle', 'offset']],
        ['item', 'scale', 1], ['item', 'angle', 0],
        ['attr', 'offset', 2], ['attr', 'skew_angle', 2], ['attribute', 'scale', 0], ['attribute', 'angle', 2], ['x', 'offset', 2], ['short-y', 'scale', 0],
        ['all-items'], ['all-value'], ['nothing'],
        ['animate', 'angle'], ['animate', 'offset'], ['still', 'angle'], ['still', 'offset'],
        ['reload'], ['old-handle', 'offset', 1], ['old-handle', 'angle', 2],
        ]
T_START = ['plain', 'jumbled', 'animated']


def t_cases(tier):
    for start in T_START:
        for ops in sequences(T_OPS, 4 if tier=='thorough' else 3 if start=='animated' else 2):
            yield [start, ops]
        for ops in walks(T_OPS, 30):
            yield [start, ops]
    for ops in periodic(T_OPS, 7):
        yield ['animated', ops]


def t_xml(start):
    if start=='plain':
        return editing.transformation()
    if start=='animated':
        return editing.transformation(offset_xml=editing.animated('vector', ('0f', 0, 'halt', 'linear', ''), ('24f', 1, 'auto', 'constant', '')))
    va, an = KINDS['vector'].xml, KINDS['angle'].xml
    return ('<composite type="transformation" guid="x">\n\n'
            f'<scale>\n{va((2.0, 3.0))}\n</scale>\n<angle>{an(10.0)} </angle><!-- c -->'
            f'<offset>{va((0.5, -0.5))}</offset><skew_angle> {an(20.0)}</skew_angle>\n</composite>')


def t_run(ctx, case):
    start, ops = case
    inner = editing.circle('C')
    text = sif.canvas(
            editing.layer('group', 'A', editing.param('amount', '<real value="1.0"/>'),
                          editing.param('transformation', t_xml(start)),
                          editing.param('canvas', '<canvas>'+editing.layer(
                              'group', 'B', editing.param('transformation', t_xml(start)),
                              editing.param('canvas', '<canvas/>'))+'</canvas>')))
    path = sif.write(ctx.path('t.sif'), text)
    a = sangfroid.Animation(path)
    group = a[0]
    t = group.transformation
    handles = {p: t[p] for p in PARTS}
    model = {p: in_file(a, kind, 'A', 'transformation', p) for p, kind in PARTS.items()}
    untouched = {p: in_file(a, kind, 'B', 'transformation', p) for p, kind in PARTS.items()}

    def sample(part, i):
        k = KINDS[PARTS[part]]
        return k.samples[i], k.norm(k.samples[i])

    def several(parts):
        result = {}
        for i, p in enumerate(parts):
            x, norm = sample(p, (i+1)%3)
            result[p] = x
            model[p] = norm
        return result

    for op in ops:
        ctx.step()
        ctx.note(op)
        if op[0]=='short':
            x, model[op[1]] = sample(op[1], op[2])
            setattr(group, op[1], x)
        elif op[0]=='dict':
            group.transformation = several(op[1])
        elif op[0]=='value':
            t.value = several(op[1])
        elif op[0]=='item':
            x, model[op[1]] = sample(op[1], op[2])
            t[op[1]].value = x
        elif op[0]=='attr':
            x, model[op[1]] = sample(op[1], op[2])
            getattr(t, op[1]).value = x
        elif op[0]=='attribute':
            x, model[op[1]] = sample(op[1], op[2])
            setattr(t, op[1], x)
        elif op[0] in ('x', 'short-y'):
            n = 'y' if op[0]=='short-y' else 'x'
            whole = getattr(group, op[1]) if op[0]=='short-y' else t[op[1]]
            if isinstance(model[op[1]], dict):
                refuses(ctx, ValueError, lambda: setattr(whole, n, -0.375), 'one co-ordinate of something animated')
            else:
                setattr(whole, n, -0.375)
                model[op[1]] = (-0.375, model[op[1]][1]) if n=='x' else (model[op[1]][0], -0.375)
        elif op[0]=='all-items':
            group['transformation'] = dict(t.items())
        elif op[0]=='all-value':
            t.value = t.value
        elif op[0]=='nothing':
            t.value = {}
        elif op[0]=='animate':
            x, norm = sample(op[1], 1)
            getattr(group, op[1]).timeline[6] = x
            if not isinstance(model[op[1]], dict):
                model[op[1]] = {}
            model[op[1]][6.0] = (norm, 'clamped', 'clamped')
        elif op[0]=='still':
            t[op[1]].is_animated = False
            if isinstance(model[op[1]], dict):
                model[op[1]] = model[op[1]][min(model[op[1]])][0]
        elif op[0]=='reload':
            a.save(ctx.path('t2.sif'))
            a = sangfroid.Animation(ctx.path('t2.sif'))
            group = a[0]
            t = group.transformation
            handles = {p: t[p] for p in PARTS}
        elif op[0]=='old-handle':
            x, model[op[1]] = sample(op[1], op[2])
            handles[op[1]].value = x

    ctx.state(repr(model))
    root = sif.parse(str(a.tag).encode('utf-8'))
    for p, kind in PARTS.items():
        ctx.same(described(kind, editing.find_value(root, 'A', 'transformation', p)), model[p], p)
        ctx.same(described(kind, editing.find_value(root, 'B', 'transformation', p)), untouched[p],
                 f'{p} of the group inside')
    if ops[-1][0]=='reload':
        return
    for h in (t, group.transformation, group['transformation']):
        ctx.same(sorted(h.keys()), sorted(PARTS), 'keys')
        ctx.same(len(h), 4, 'len')
        items = dict(h.items())
        ctx.same([k for k, _ in h.items()], list(h.keys()), 'order of items')
        ctx.same(h.get('wombat', 'nothing'), 'nothing', 'get of a missing part')
        refuses(ctx, KeyError, lambda: h['wombat'], 'a missing part')
        refuses(ctx, AttributeError, lambda: h.wombat, 'a missing attribute')
        for p, kind in PARTS.items():
            k = KINDS[kind]
            values = [h[p], getattr(h, p), h.get(p), items[p], h.value[p], getattr(group, p),
                      list(h.values())[list(h.keys()).index(p)], handles[p]]
            for i, x in enumerate(values):
                ctx.check(isinstance(x, k.cls), f'{p} is a {type(x)}')
                if isinstance(model[p], dict):
                    found = {float(w.time.frames): k.read(w.value) for w in x.timeline}
                    wanted = {f: w[0] for f, w in model[p].items()}
                else:
                    found, wanted = k.read(x), model[p]
                ctx.same(found, wanted, f'{p} by accessor {i}')


# -------------------------------------------------------------- many stops

def many_cases(tier):
    for n in range(2, 13 if tier=='quick' else 25):
        for how in ('file', 'backwards', 'set', 'stops'):
            yield [n, how]


def many_run(ctx, case):
    n, how = case
    start = {round(i/n, 6): (i/n, 1-i/n, 0.5, 1.0) for i in range(n)}
    places = sorted(start)
    between = [round((i+0.5)/n, 6) for i in range(n)]
    ops = [['none', 0.0]]+[[op, p] for p in places for op in ('stop', 'handle')]+[['stop', p] for p in between]+[
            ['without', p] for p in places if n>2]
    for op, p in ops:
        stops = list(start.items())
        if how=='backwards':
            stops.reverse()
        xml = KINDS['gradient'].xml({0.0: '#ff0000', 0.9: '#00ff00'})
        if how in ('file', 'backwards'):
            xml = '<gradient>'+'\n'.join(
                    f'<color pos="{q}"><r>{c[0]}</r><g>{c[1]}</g><b>{c[2]}</b><a>{c[3]}</a></color>' for q, c in stops)+'</gradient>'
        a = sangfroid.Animation(sif.write(ctx.path('g.sif'), document('linear_gradient', 'gradient', xml)))
        g = a[1].gradient
        if how=='set':
            g.value = dict(stops)
        elif how=='stops':
            g.value = dict(stops[-2:])
            for q, c in reversed(stops):
                g[q] = c
        model = {q: _color_tuple(c) for q, c in start.items()}
        if op=='stop':
            g[p] = '#102030'
            model[p] = _color_tuple('#102030')
        elif op=='handle':
            g[p].value = '#405060'
            model[p] = _color_tuple('#405060')
        elif op=='without':
            g.value = {q: c for q, c in g.items() if q!=p}
            del model[p]
        ctx.step()
        ctx.state(case, op, p)
        for h in (g, a[1]['gradient']):
            message = f'{n} stops {how}, {op} {p}: '
            ctx.same(len(h), len(model), message+'len')
            ctx.same(sorted(h.keys()), sorted(model), message+'keys')
            ctx.same(sorted((q, four(c)) for q, c in h.items()), sorted(model.items()), message+'items')
            ctx.same([four(c) for c in h.values()], [model[q] for q in h.keys()], message+'values')
            for q, c in model.items():
                ctx.same(four(h[q]), c, message+f'stop {q}')
        ctx.same(in_file(a, 'gradient', 'A', 'gradient'), tuple(sorted(model.items())), message+'in the file')


# --------------------------------------------------------------
# The parts which were not changed are as they were, to the letter

FORMS = ['0', '1.5000000000', '-0.1234567891', '1e3', ' 2.25 ', '99999.9999999999', '7', '0.0000000001', '-.5']
CHANGES = ['x', 'y', 'offset x', 'offset y', 'scale y', 'angle', 'skew_angle', 'angle by dict', 'offset by dict', 'angle object',
           'scale whole', 'transformation angle', 'all but one', 'stop', 'stop new', 'stop handle']
NEW = [3.0, -0.9876543211, 12345.5]


def letter_cases(tier):
    for i, form in enumerate(FORMS):
        for change in CHANGES:
            for new in NEW if tier=='thorough' or i<3 else NEW[1:2]:
                yield [form, change, new]


def letter_run(ctx, case):
    form, change, new = case
    vec = lambda a, b: f'<vector><x>{a}</x><y>{b}</y></vector>'
    stops = ['0.000000', '0.123456', '0.500000', '1']
    text = sif.canvas(
            editing.layer('circle', 'A', editing.param('origin', vec(form, form)))
            + editing.layer('linear_gradient', 'L', editing.param('gradient', '<gradient>'+''.join(
                f'<color pos="{p}"><r>0.{i}23456</r><g>1.090000</g><b>-0.500001</b><a>0.999999</a></color>' for i, p in enumerate(stops))+'</gradient>'))
            + editing.layer('group', 'G', editing.param('transformation', '<composite type="transformation">'
                f'<offset>{vec(form, form)}</offset><angle><angle value="{form}"/></angle>'
                f'<skew_angle><angle value="{form}"/></skew_angle><scale>{vec(form, form)}</scale></composite>'),
                editing.param('canvas', '<canvas></canvas>')))
    path = sif.write(ctx.path(), text)
    a = sangfroid.Animation(path)
    circle, gradient, group = a.find('circle'), a.find('linear_gradient'), a.find('group')
    before = letters(path)
    ctx.step()
    ctx.state(case)
    number = lambda: new
    if change=='x':
        circle.origin.x = new
        changed = ['A/x']
    elif change=='y':
        circle['origin'].y = new
        changed = ['A/y']
    elif change=='offset x':
        group.offset.x = new
        changed = ['G/offset/x']
    elif change=='offset y':
        group.transformation.offset.y = new
        changed = ['G/offset/y']
    elif change=='scale y':
        group['transformation']['scale'].y = new
        changed = ['G/scale/y']
    elif change in ('angle', 'skew_angle'):
        setattr(group, change, new)
        changed = ['G/'+change]
    elif change=='angle by dict':
        group.transformation = {'angle': new}
        changed = ['G/angle']
    elif change=='angle object':
        group.transformation = {'angle': v.Angle(new)}
        changed = ['G/angle']
    elif change=='transformation angle':
        group.transformation.angle = new
        changed = ['G/angle']
    elif change=='offset by dict':
        group['transformation'] = {'offset': (new, new)}
        changed = ['G/offset/x', 'G/offset/y']
    elif change=='scale whole':
        group.scale = (new, new)
        changed = ['G/scale/x', 'G/scale/y']
    elif change=='all but one':
        group.transformation = {'offset': (new, new), 'skew_angle': new, 'scale': (new, new)}
        changed = ['G/offset/x', 'G/offset/y', 'G/skew_angle', 'G/scale/x', 'G/scale/y']
    elif change=='stop':
        gradient.gradient[0.5] = (0.5, 0.5, 0.5)
        changed = ['L/0.5']
    elif change=='stop new':
        gradient.gradient[0.654321] = (0.5, 0.5, 0.5)
        changed = ['L/0.654321']
    elif change=='stop handle':
        gradient.gradient[0.123456].value = (0.5, 0.5, 0.5)
        changed = ['L/0.123456']
    a.save()
    after = letters(path)
    for key in sorted(set(before)|set(after)):
        if key not in changed:
            ctx.same(after.get(key), before.get(key), f'{key}, after changing {change}')
        elif key.startswith('L'):
            ctx.same(after[key], (0.5, 0.5, 0.5, 1.0), key)
        else:
            ctx.check(abs(float(after[key])-new)<=0.6e-10*max(1.0, abs(new)), f'{key}: {after[key]}, not {new}')


def letters(path):
    result = {}
    root = sif.parse(sif.payload(path)[0])
    for layer, desc in ((editing.find_layer(root, i), i) for i in 'ALG'):
        for e in layer.iter('x', 'y'):
            parent = e.getparent().getparent()
            result['/'.join([desc]+([parent.tag] if parent.tag!='param' else [])+[e.tag])] = e.text
        for e in layer.iter('angle'):
            if e.get('value') is not None:
                result[f'{desc}/{e.getparent().tag}'] = e.get('value')
        for e in layer.iter('color'):
            if e.get('pos') is not None:
                result[f"{desc}/{float(e.get('pos'))}"] = tuple(float(e.find(c).text) for c in 'rgba')
    return result


# --------------------------------------------------------------
# Transformations which lack something

LACKING = {'offset': ('<vector><x>1.5</x><y>2.5</y></vector>', (7.25, -8.5)), 'angle': ('<angle value="30.0"/>', 12.5),
           'skew_angle': ('<angle value="-5.0"/>', 0.5), 'scale': ('<vector><x>0.5</x><y>4</y></vector>', (2.0, 3.0))}


def lacking_cases(tier):
    for n in range(0, 5):
        for present in itertools.permutations(LACKING, n):
            for part in LACKING:
                for way in ('attr', 'value'):
                    yield [list(present), part, way]


def lacking_run(ctx, case):
    present, part, way = case
    content = '<composite type="transformation">'+''.join(f'<{n}>{LACKING[n][0]}</{n}>' for n in present)+'</composite>'
    path = sif.write(ctx.path('t.sif'), sif.canvas(
        f'<layer type="group" version="0.3" desc="g"><param name="transformation">{content}</param><param name="canvas"><canvas/></param></layer>'))
    a = sangfroid.Animation(path)
    t = a[0]['transformation']

    def plain(x):
        return x.as_tuple() if hasattr(x, 'as_tuple') else x.value

    others = {n: str(t[n].tag) for n in present if n!=part}
    ctx.step()
    if way=='attr':
        setattr(t, part, LACKING[part][1])
    else:
        t.value = {part: LACKING[part][1]}
    for again in (False, True):
        if again:
            a.save(path)
            t = sangfroid.Animation(path)[0]['transformation']
        ctx.same(set(t.keys()), set(present)|{part}, 'parts')
        ctx.same(plain(t[part]), LACKING[part][1], part)
        ctx.same(plain(getattr(t, part)), LACKING[part][1], part)
        ctx.same({n: plain(t[n]) for n in present if n!=part},
                 {n: (1.5, 2.5) if n=='offset' else (0.5, 4.0) if n=='scale' else 30.0 if n=='angle' else -5.0 for n in present if n!=part}, 'the others')
        if not again:
            ctx.same({n: str(t[n].tag) for n in others}, others, 'the others, to the letter')
    ctx.state(case)


UNITS = [
        Unit('lacking', lacking_cases, lacking_run),
        Unit('to the letter', letter_cases, letter_run),
        Unit('many stops', many_cases, many_run),
        Unit('vectors', v_cases, v_run),
        Unit('gradients', g_cases, g_run),
        Unit('transformations', t_cases, t_run),
        ]
