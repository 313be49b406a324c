"""
C13: what you set is what you get, however you set it and however you get it.
"""
import itertools

import sangfroid
import sangfroid.value as v
from sangfroid import T
from mc import sif, editing
from mc.core import Unit, Violation
from mc.values import KINDS

BOUNDS = {
        'quick': 'for each type of value: every member of a list of values (every byte in every channel of a color; '
            'every string of <=2 characters from 15; 24 blend methods; pairs of 12 numbers...), by 6 routes, '
            'from 3 starting points; 22 odd numbers (fractions, bools, strings...) in 12 places; vectors and transformations part by part in 8 ways; waypoints in 5 ways; read back by every accessor, in memory, by older handles, and after saving and loading',
        'thorough': 'every pair of 33 numbers; strings of <=3 characters; all routes with all values',
        }
ASSUMPTIONS = ['reals and vectors keep ten decimal places, colours and gradients six']

NUMBERS = [0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1/3, 2.25, 123456.789, -99999.5, 1e-9, 0.0001,
           0.00009, 1e6, 1e9, 3.0000000001, 2**31, -2**31, 7, -3, 0, 100,
           1e-10, 12345678.12345, -0.00001, 59.94, 23.976, 1e12, 255, 256, 0.999999, 1-1e-9, 360.0]
INTS = [0, 1, -1, 7, 255, 256, -32768, 2**31-1, -2**31, 2**31, 10**12, 1000000007, 2**53+1, -2**63, 2**64-1, 10**18+1]
CHARS = ['a', ' ', '\n', '\t', '\r', '<', '>', '&', '"', "'", ']', 'é', '\U0001f600', '0', ';']

ROUTES = ['attr', 'item', 'value', 'attr-object', 'item-object', 'old-handle']
STARTS = ['static', 'animated', 'fresh']


def near(a, b, places):
    return abs(a-b)<=10**-places*0.6+abs(b)*1e-12


# the kind of thing: (layer, param, tag name)
WHERE = {
        'real': ('circle', 'radius'), 'integer': ('star', 'points'), 'bool': ('circle', 'invert'),
        'angle': ('star', 'angle'), 'string': ('text', 'text'), 'color': ('circle', 'color'),
        'vector': ('circle', 'origin'), 'time': ('timeloop', 'duration'),
        'gradient': ('linear_gradient', 'gradient'), 'blend': ('circle', 'blend_method'),
        }
CLS = {'blend': v.BlendMethod}
for _k, _x in KINDS.items():
    CLS[_k] = _x.cls

METHODS = ['COMPOSITE', 'STRAIGHT', 'BRIGHTEN', 'DARKEN', 'ADD', 'SUBTRACT', 'MULTIPLY',
           'DIVIDE', 'COLOR', 'HUE', 'SATURATION', 'LUMINANCE', 'BEHIND', 'ONTO',
           'ALPHA_BRIGHTEN', 'ALPHA_DARKEN', 'SCREEN', 'HARD_LIGHT', 'DIFFERENCE',
           'ALPHA_OVER', 'OVERLAY', 'STRAIGHT_ONTO', 'ADD_COMPOSITE', 'ALPHA']

HEX = '0123456789abcdef'


def colour_strings():
    for n in range(256):
        b = f'{n:02x}'
        yield f'#{b}0080'
        yield f'#80{b}00'
        yield f'#0080{b}'
        yield f'#102030{b}'
        if n%16==n//16:
            yield b.upper()*3
            yield b.upper()*4
            yield f'#{b*4}'


FRESH = {
        'circle': sangfroid.layer.Circle, 'text': sangfroid.layer.Text, 'star': sangfroid.layer.Star,
        'timeloop': sangfroid.layer.Timeloop, 'linear_gradient': sangfroid.layer.Linear_Gradient,
        }


def domain(kind, tier):
    deep = tier=='thorough'
    if kind in ('real', 'angle'):
        yield from NUMBERS
        for e in range(-8, 13):
            for m in (1.0, -9.87654321, 3.14159265):
                yield m*10**e
        yield from [180.0, 359.999, 361.0, 720.5, -180.0, -360.0, 1234.5678, 99.99999999]
    elif kind=='integer':
        yield from INTS
        for e in range(1, 16):
            yield from (10**e, -10**e+1)
    elif kind=='blend':
        yield from METHODS
        yield from range(24)
    elif kind=='bool':
        yield from [True, False]
    elif kind=='string':
        for n in range(0, 4 if deep else 3):
            for s in itertools.product(CHARS, repeat=n):
                yield ''.join(s)
        yield 'None'
        for n in (8, 16, 31, 32, 33, 63, 64, 65, 80, 100, 128, 255, 256, 257, 1000, 5000, 70000):
            yield 'x'*n
            yield 'word '*(n//5)+'end'
        yield from ['true', 'True', 'false', '0', '1.5', '#ff8000', '12f', '1s 2f', 'nan', '(1.0, 2.0)', "{'x': 1}", '[]', '<b>bold</b>', '&amp;', '&#10;',
                    '<![CDATA[x]]>', '<!-- x -->', 'a\n\nb', '  two  spaces  ', 'ÅÄÖ', 'A\u030a', '\u202eabc', '\ufb01', 'İ', '%s', '{0}', '\\n', '$x', '(animated)']
        yield '\u2028 \xa0\u200b'
    elif kind=='color':
        yield from colour_strings()
        for c in itertools.product((0.0, 1/3, 0.5, 1.0), repeat=3):
            yield list(c)
        for c in itertools.product((0.0, 0.123456, 1.0), repeat=4):
            yield list(c)
        yield [0, 1, 0]
        yield [1.25, 2.0, 0.0, 1.0]
        for c in itertools.product((-0.2, 0.5, 1.09, 16.2), repeat=4):
            yield list(c)
        yield [0.000001, 0.999999, 0.5, 0.000001]
    elif kind=='vector':
        numbers = NUMBERS if deep else NUMBERS[:12]
        for x, y in itertools.product(numbers, numbers):
            yield [x, y]
        for x, y in [(1, 2), (0, 0), (-3, 4.5), (2.5, 0)]:
            yield {'x': x, 'y': y}
            yield {'y': y, 'x': x}
    elif kind=='time':
        yield from ['0f', '1f', '23f', '24f', '25f', '1s', '2s 3f', '1m', '1h 2m 3s 4f',
                    '0.5s', '1.5f', '12.125f', '-1s', '-5f', 0, 1, 12, 12.5, 119, -1, -5,
                    '100h', '-1m 1s', '0.001f', '1e1f', '59s 23f', '59m 59s 23.5f', '1000h', '0.25s', '1m 0s 1f', '1h 1f', 1439, 1440, 86399.5, 1e6, 0.0625]
    elif kind=='gradient':
        positions = [0.0, 0.25, 1/3, 0.5, 0.999999, 1.0]
        colours = ['#ff0000', '#00ff0080', '#123456']
        for n in (2, 3):
            for p in itertools.combinations(positions, n):
                for first in range(3):
                    yield [[x, colours[(first+i)%3]] for i, x in enumerate(p)]
        yield [[1.0, '#000000'], [0.0, '#ffffff']]
        yield [[x/16, f'#{x*15:02x}0000'] for x in range(17)]
        yield [[-0.5, '#000000'], [1.5, '#ffffff']]


def cases(tier):
    for kind in WHERE:
        for i, value in enumerate(domain(kind, tier)):
            full = tier=='thorough' or kind not in ('color', 'vector', 'gradient') or i<12 or i%7==0
            for j, route in enumerate(ROUTES):

                for start in STARTS if (full and kind!='blend') else STARTS[:1]:
                    yield [kind, value, route, start]


def python_value(kind, value):
    """The Python object to assign."""
    if kind=='color' and isinstance(value, list):
        return tuple(value)
    if kind=='vector' and isinstance(value, list):
        return tuple(value)
    if kind=='gradient':
        return {p: c for p, c in value}
    if kind=='blend' and isinstance(value, str):
        return getattr(v.BlendMethod, value)
    return value


FRAMES = {'0f': 0, '1f': 1, '23f': 23, '24f': 24, '25f': 25, '1s': 24, '2s 3f': 51, '1m': 1440,
          '1h 2m 3s 4f': 3723*24+4, '0.5s': 12, '1.5f': 1.5, '12.125f': 12.125, '-1s': -24,
          '-5f': -5, 0: 0, 1: 1, 12: 12, 12.5: 12.5, 119: 119, -1: 120, -5: 116,
          '100h': 100*3600*24, '-1m 1s': -61*24, '0.001f': 0.001, '1e1f': 10, '59s 23f': 1439, '59m 59s 23.5f': 86399.5, '1000h': 86400000, '0.25s': 6,
          '1m 0s 1f': 1441, '1h 1f': 86401, 1439: 1439, 1440: 1440, 86399.5: 86399.5, 1e6: 1e6, 0.0625: 0.0625}


def value_object(kind, value, layer):
    x = python_value(kind, value)
    if kind=='time':
        return v.Time(T(x, ref=layer))
    return CLS[kind](x)


def colour_tuple(c):
    if isinstance(c, str):
        c = c.lstrip('#')
        c = c if len(c)==8 else c+'ff'
        return tuple(int(c[i:i+2], 16)/255 for i in (0, 2, 4, 6))
    c = tuple(float(x) for x in c)
    return c if len(c)==4 else c+(1.0,)


def hex_of(c):
    h = '#'+''.join('%02x' % (int(round(round(x, 6)*255)),) for x in colour_tuple(c))
    return h[:-2] if len(h)==9 and h.endswith('ff') else h


def verify(ctx, kind, value, found, what):
    """Reads a Value by every accessor there is."""
    def need(condition, how, got=None):
        if not condition:
            raise Violation(f'{what}: {kind} {value!r}: {how} gives {got!r}')

    need(isinstance(found, CLS[kind]) or kind=='blend', 'class', type(found))
    need(found.is_animated is False, 'is_animated', found.is_animated)
    need(len(found.timeline)==0, 'timeline', found.timeline)
    x = python_value(kind, value)
    if kind in ('real', 'angle'):
        places = 10
        need(isinstance(found.value, float), 'value', found.value)
        need(near(found.value, x, places), 'value', found.value)
        need(near(float(found), x, places), 'float', float(found))
        if kind=='real' and abs(x-round(x))>1e-3:
            need(int(found)==int(x), 'int', int(found))
        need(found==x, '==', found.value)
        need(not (found==x+1), '== something else', found.value)
    elif kind in ('integer', 'blend'):
        if kind=='blend' and isinstance(value, str):
            # the number which Synfig uses
            x = METHODS.index(value)
        need(found.value==x and isinstance(found.value, int), 'value', found.value)
        need(int(found)==x and float(found)==float(x), 'int', int(found))
        need(found==x and not (found==x+1), '==', found.value)
    elif kind=='bool':
        need(found.value is x, 'value', found.value)
        need(bool(found) is x, 'bool', bool(found))
        need(found==x and not (found==(not x)), '==', found.value)
    elif kind=='string':
        need(found.value==x, 'value', found.value)
        need(str(found)==x, 'str', str(found))
        need(found==x and not (found==x+'z'), '==', found.value)
    elif kind=='color':
        wanted = colour_tuple(value)
        got = found.as_tuple()
        need(len(got)==4 and all(near(a, b, 6) for a, b in zip(got, wanted)), 'as_tuple', got)
        # brighter colours than that have no such name: it's the nearest which has
        need(found.value==hex_of([min(max(n, 0.0), 1.0) for n in wanted]), 'value', found.value)
        if isinstance(value, str):
            need(found==value, '==', found.value)
    elif kind=='vector':
        wanted = (x['x'], x['y']) if isinstance(x, dict) else x
        got = {'[]': (found['x'], found['y']), 'attribute': (found.x, found.y),
               'as_tuple': found.as_tuple(), 'get': (found.get('x'), found.get('y')),
               'items': tuple(dict(found.items())[n] for n in 'xy'),
               'iter': tuple(found), 'number': (found[0], found[1]), 'values': tuple(found.values())}
        for how, pair in got.items():
            need(len(pair)==2 and all(
                isinstance(p, float) and near(p, q, 10) for p, q in zip(pair, wanted)),
                how, pair)
        need(list(found.keys())==['x', 'y'] and len(found)==2, 'keys', found.keys())
        need(found==found.as_tuple(), '==', found)
    elif kind=='time':
        wanted = FRAMES[value]
        need(isinstance(found.value, T), 'value', found.value)
        need(near(found.value.frames, wanted, 6), 'value', found.value.frames)
        need(found.value.fps==24.0, 'fps', found.value.fps)
    elif kind=='gradient':
        wanted = sorted((p, colour_tuple(c)) for p, c in value)
        got = sorted((p, c.as_tuple()) for p, c in found.items())
        need(len(got)==len(wanted) and len(found)==len(wanted), 'len', got)
        for (p, c), (p2, c2) in zip(got, wanted):
            need(near(p, p2, 6) and all(near(a, b, 6) for a, b in zip(c, c2)), 'items', got)
            need(found[p].as_tuple()==c, '[]', found[p])
        need(sorted(found.keys())==[p for p, c in got] and
             sorted(found)==[p for p, c in got], 'keys', list(found))


def start_xml(kind, start):
    tag = 'integer' if kind=='blend' else kind
    k = KINDS[tag]
    if start=='static':
        return k.xml(k.samples[-1]) if kind!='blend' else '<integer static="true" value="3"/>'
    return editing.animated(tag, ('0f', 0, 'halt', 'linear', ''), ('2s', 1, 'auto', 'auto', ' bias="2"'))


def run(ctx, case):
    kind, value, route, start = case
    type_, name = WHERE[kind]
    path = ctx.path('v.sif')
    if start=='fresh':
        a = sangfroid.Animation()
        layer = FRESH[type_]()
        a.append(layer)
    else:
        sif.write(path, sif.canvas(editing.layer(
            type_, 'x', editing.param('z_depth', editing.k('real')),
            editing.param(name, start_xml(kind, start)))))
        a = sangfroid.Animation(path)
        layer = a[0]
    old = layer[name]
    if kind!='blend':
        old_attr = getattr(layer, name)
    x = python_value(kind, value)
    ctx.step()
    ctx.state(kind, value, start)
    if route=='attr':
        setattr(layer, name, x)
    elif route=='item':
        layer[name] = x
    elif route=='value':
        getattr(layer, name).value = x
    elif route=='old-handle':
        old.value = x
    elif route=='attr-object':
        setattr(layer, name, value_object(kind, value, layer))
    elif route=='item-object':
        layer[name] = value_object(kind, value, layer)

    verify(ctx, kind, value, getattr(layer, name), 'attribute')
    verify(ctx, kind, value, layer[name], 'item')
    verify(ctx, kind, value, dict(layer.items())[name], 'items()')
    verify(ctx, kind, value, old, 'an older handle')
    verify(ctx, kind, value, getattr(a[0], name), 'found again')
    a.save(path)
    again = sangfroid.Animation(path)[0]
    verify(ctx, kind, value, getattr(again, name), 'after reloading')


def alone_cases(tier):
    for kind in WHERE:
        for i, value in enumerate(domain(kind, 'quick')):
            if kind=='time' and not (isinstance(value, str) and value.endswith('f')
                                     and ' ' not in value):
                continue
            yield [kind, value]


def alone_run(ctx, case):
    """A value which isn't in any document."""
    kind, value = case
    x = python_value(kind, value)
    ctx.step()
    ctx.state(case)
    if kind=='time':
        found = v.Time(x)
        ctx.check(near(found.value.frames, FRAMES[value], 6), 'frames', found.value.frames)
        return
    found = CLS[kind](x)
    verify(ctx, kind, value, found, 'constructed')
    if kind in ('color', 'vector') and isinstance(value, list):
        verify(ctx, kind, value, CLS[kind](*x), 'constructed from members')
    other = CLS[kind]({'real': 9.0, 'angle': 9.0, 'integer': 9, 'blend': 9, 'bool': not x, 'string': 'q',
                       'color': '#010203', 'vector': (9.0, 9.0),
                       'gradient': {0.0: '#000000', 1.0: '#000001'}}[kind])
    other.value = x
    verify(ctx, kind, value, other, 'changed')


# --------------------------------------------------------------
# Python has other kinds of number. Either they're refused, or they
# mean what they say, and the file says so too.

class Count(int):
    """A kind of number which doesn't print as one."""
    def __str__(self):
        return 'Count'
    __repr__ = __str__


class Length(float):
    def __str__(self):
        return 'Length'
    __repr__ = __str__


def odd_numbers():
    from decimal import Decimal
    from fractions import Fraction
    return {
            'True': (True, 1.0), 'False': (False, 0.0), 'fraction': (Fraction(1, 4), 0.25), 'whole fraction': (Fraction(3), 3.0),
            'decimal': (Decimal('2.5'), 2.5), 'decimal exponent': (Decimal('1E+2'), 100.0), 'whole decimal': (Decimal(7), 7.0),
            'count': (Count(5), 5.0), 'length': (Length(1.5), 1.5), 'string': ('1.5', 1.5), 'whole string': ('3', 3.0),
            'spaces': (' 3 ', 3.0), 'underscore': ('1_000', 1000.0), 'arabic': ('\u0663', 3.0), 'exponent': ('1e2', 100.0), 'plus': ('+4', 4.0),
            'real value': (v.Real(1.5), 1.5), 'integer value': (v.Integer(3), 3.0), 'angle value': (v.Angle(45.0), 45.0),
            'big': (2**70, float(2**70)), 'tiny': (5e-324, 0.0), 'negative zero': (-0.0, 0.0),
            }


ODD_WAYS = ['real', 'angle', 'integer', 'vector x', 'vector y', 'vector dict x', 'vector dict y', 'color r', 'color a', 'offset', 'skew_angle', 'timeline']


def odd_cases(tier):
    for n in odd_numbers():
        for way in ODD_WAYS:
            for animated in (False, True):
                yield [n, way, animated]


def odd_run(ctx, case):
    n, way, animated = case
    odd, number = odd_numbers()[n]
    text = sif.canvas(str(sangfroid.layer.Star().tag)+str(sangfroid.layer.Group().tag))
    path = sif.write(ctx.path(), text)
    a = sangfroid.Animation(path)
    star, group = a.find('star'), a.find('group')
    kind, _, part = way.partition(' ')
    value, give, read = {
            'real': (lambda a: a.find('star')['radius1'], odd, lambda x: x.value),
            'angle': (lambda a: a.find('star')['angle'], odd, lambda x: x.value),
            'integer': (lambda a: a.find('star')['points'], odd, lambda x: x.value),
            'vector x': (lambda a: a.find('star')['origin'], (odd, 1.0), lambda x: x['x']),
            'vector y': (lambda a: a.find('star')['origin'], (1.0, odd), lambda x: x['y']),
            'vector dict x': (lambda a: a.find('star')['origin'], {'x': odd, 'y': 1.0}, lambda x: x.as_tuple()[0]),
            'vector dict y': (lambda a: a.find('star')['origin'], {'x': 1, 'y': odd}, lambda x: x.as_tuple()[1]),
            'color r': (lambda a: a.find('star')['color'], (odd, 0.0, 0.0), lambda x: x.as_tuple()[0]),
            'color a': (lambda a: a.find('star')['color'], (0.0, 0.0, 0.0, odd), lambda x: x.as_tuple()[3]),
            'offset': (lambda a: a.find('group').transformation['offset'], (odd, odd), lambda x: x['y']),
            'skew_angle': (lambda a: a.find('group').transformation['skew_angle'], odd, lambda x: x.value),
            'timeline': (lambda a: a.find('star')['radius2'], odd, lambda x: x.value),
            }[way]
    if animated:
        value(a).is_animated = True
    before = sif.canon(a.tag)
    ctx.step()
    try:
        if way=='timeline':
            value(a).timeline[12] = give
        else:
            value(a).value = give
    except (TypeError, ValueError, OverflowError):
        ctx.same(sif.canon(a.tag), before, 'the document, after refusing that')
        return
    ctx.state(case)
    places = 6 if kind=='color' else 9
    a.save()
    for what, doc in (('in memory', a), ('reloaded', sangfroid.Animation(path))):
        found = value(doc)
        if way=='timeline':
            found = found.timeline[12].value
        got = read(found)
        wanted = int(number) if kind=='integer' else number
        ctx.check(near(got, wanted, places), f'{odd!r} as {way}, {what}: {got!r}')
    for e in sif.parse(sif.payload(path)[0]).iter('x', 'y', 'r', 'g', 'b', 'a', 'real', 'angle', 'integer'):
        if len(e):
            continue # the part of the transformation called angle
        s = e.get('value') or e.text
        ctx.check(NUMBER.match(s), f'{odd!r} as {way} in the file: {s!r}')


import re
NUMBER = re.compile(r'^-?[0-9]+(\.[0-9]+)?(e[-+]?[0-9]+)?$')

# --------------------------------------------------------------
# In a waypoint

WAYPOINT_WAYS = ['item', 'item-object', 'add', 'assign', 'over']


def waypoint_cases(tier):
    for kind in WHERE:
        if kind=='blend':
            continue
        for i, value in enumerate(domain(kind, tier)):
            for way in WAYPOINT_WAYS if tier=='thorough' or i<40 or kind in ('real', 'angle', 'integer', 'bool', 'time') else [WAYPOINT_WAYS[i%len(WAYPOINT_WAYS)]]:
                yield [kind, value, way]


def waypoint_run(ctx, case):
    kind, value, way = case
    type_, name = WHERE[kind]
    path = sif.write(ctx.path('w.sif'), sif.canvas(editing.layer(
        type_, 'x', editing.param(name, start_xml(kind, 'animated' if way!='assign' else 'static')))))
    a = sangfroid.Animation(path)
    held = a[0][name]
    x = python_value(kind, value)
    made = value_object(kind, value, a[0])
    t = '0f' if way=='over' else '12f'
    if kind=='time' and way in ('item', 'over'):
        # that would need to know the frame rate
        way, x = way+'-object', made
        if way=='over-object':
            t = '0f'
    if way in ('item', 'over', 'over-object'):
        held.timeline[t] = x
    elif way=='item-object':
        held.timeline[t] = made
    elif way=='add':
        held.timeline.add(v.value.Waypoint(t, made, ref=held.tag))
    else:
        held.timeline = [v.value.Waypoint(t, made, ref=held.tag)]
    ctx.step()
    ctx.state(kind, value)
    verify(ctx, kind, value, a[0][name].timeline[t].value, f'waypoint, by {way}')
    a.save()
    again = sangfroid.Animation(path)
    if kind!='time': # which needs to know where it is
        verify(ctx, kind, value, again[0][name].timeline[t].value, 'waypoint, after reloading')
    for other in list(again[0][name].timeline.keys()):
        if other!=T(t, ref=again):
            del again[0][name].timeline[other]
    again[0][name].is_animated = False
    verify(ctx, kind, value, again[0][name], 'no longer animated')


# --------------------------------------------------------------
# Part by part

PART_WAYS = ['attributes', 'attributes reversed', 'dict', 'shortcut', 'setitem', 'transformation attribute', 'item', 'object']


def part_cases(tier):
    numbers = NUMBERS[:20]+[0.12345678, -7.654321098]
    for i, x in enumerate(numbers):
        for way in PART_WAYS:
            yield [x, numbers[i-7], way]
            yield [numbers[0], x, way]
    if tier=='thorough':
        for x, y in itertools.product(NUMBERS, NUMBERS):
            for way in PART_WAYS:
                yield [x, y, way]


def part_run(ctx, case):
    x, y, way = case
    path = sif.write(ctx.path(), sif.canvas(str(sangfroid.layer.Circle().tag)+str(sangfroid.layer.Group().tag)))
    a = sangfroid.Animation(path)
    circle, group = a.find('circle'), a.find('group')
    ctx.step()
    ctx.state(case)
    for part in ('origin', 'offset', 'scale'):
        held = circle.origin if part=='origin' else getattr(group, part)
        if way=='attributes':
            held.x = x
            held.y = y
        elif way=='attributes reversed':
            held.y = y
            held.x = x
        elif way=='dict':
            held.value = {'x': x, 'y': y}
        elif way=='object':
            if part=='origin':
                circle['origin'] = v.X_Y(x, y)
            else:
                setattr(group, part, v.X_Y(x, y))
        elif part=='origin':
            circle.origin = (x, y)
        elif way=='shortcut':
            setattr(group, part, (x, y))
        elif way=='setitem':
            group['transformation'] = {part: (x, y)}
        elif way=='transformation attribute':
            setattr(group.transformation, part, (x, y))
        elif way=='item':
            group.transformation[part].value = (x, y)
    for part, number in (('angle', x), ('skew_angle', y)):
        if way in ('attributes', 'shortcut'):
            setattr(group, part, number)
        elif way in ('dict', 'setitem'):
            group['transformation'] = {part: number}
        elif way=='transformation attribute':
            setattr(group.transformation, part, number)
        elif way=='object':
            group.transformation = {part: v.Angle(number)}
        else:
            group.transformation[part].value = number
    a.save()
    for what, doc in (('in memory', a), ('reloaded', sangfroid.Animation(path))):
        circle, group = doc.find('circle'), doc.find('group')
        for part in ('offset', 'scale'):
            for found in (getattr(group, part), group.transformation[part], group['transformation'].value[part]):
                verify(ctx, 'vector', [x, y], found, f'{part} by {way}, {what}')
        verify(ctx, 'vector', [x, y], circle.origin, f'origin by {way}, {what}')
        for part, number in (('angle', x), ('skew_angle', y)):
            for found in (getattr(group, part), group.transformation[part], group['transformation'].value[part]):
                verify(ctx, 'angle', number, found, f'{part} by {way}, {what}')


UNITS = [
        Unit('waypoints', waypoint_cases, waypoint_run),
        Unit('parts', part_cases, part_run),
        Unit('odd', odd_cases, odd_run),
        Unit('alone', alone_cases, alone_run),
        Unit('layers', cases, run),
        ]
