"""
C14: what's refused leaves everything as it was.
"""
import itertools
import os

import sangfroid
import sangfroid.value as v
from sangfroid import T
from sangfroid.value import Waypoint
from mc import sif, editing
from mc.core import Unit, Violation, sequences
from mc.editing import World, PARAMS, KINDS
from mc.props import c08

BOUNDS = {
        'quick': 'every bad value (10-20 for each of 9 types) for every param of a document of 8 layers, '
            'by 6 routes, static and animated; 75 other refusals; and every such refusal within '
            'a longer history: after each of 17 edits, and between pairs of 6; 15000 strings which are nearly colours; one bad thing in each place among up to 4 parts of a transformation in every order, 8 stops, 9 waypoints, 7 layers',
        'thorough': 'refusals between all pairs of 17 edits; 200000 strings which are nearly colours',
        }
ASSUMPTIONS = ['which exception is raised is not judged, only that it is one '
               'a caller could expect']

EXPECTED = (TypeError, ValueError, KeyError, AttributeError, NotImplementedError,
            IndexError, AssertionError, OverflowError, OSError)

NOT_NUMBERS = ['banana', '', '1.2.3', '12x', [], [1], {}, {'x': 1}, 'list', 'object', (1.0, 2.0)]
BAD = {
        'real': NOT_NUMBERS,
        'angle': NOT_NUMBERS,
        'integer': NOT_NUMBERS+['1.5'],
        'color': ['', '#', '#12', '#12345', '#1234567', '#123456789', 'red', 'zzzzzz', '#gg0000',
                  (1.0,), (1.0, 2.0), (0.1,)*5, ('a', 'b', 'c'), (0.1, 0.2, 'x'), (0.1, 0.2, None),
                  3, 1.5, None, [0.1, 0.2, 0.3], {}, {'r': 1}],
        'vector': ['banana', '', 3, 1.5, (1.0,), (1.0, 2.0, 3.0), ('a', 'b'), (1.0, 'b'), (1.0, None),
                   [1.0, 2.0], {'x': 1.0}, {'x': 1.0, 'z': 2.0}, {'x': 1.0, 'y': 'q'},
                   {'x': 1.0, 'y': 2.0, 'z': 3.0}, {'x': 1.0, 'y': None}],
        'gradient': [3, 'banana', None, [], {}, (), {0.0: '#000000'}, [(0.0, '#000000'), (1.0, '#000000')],
                     {0.0: '#000000', 1.0: 'banana'}, {0.0: 'banana', 1.0: '#000000'},
                     {0.0: '#000000', 0.5: '#ffffff', 1.0: (1.0,)},
                     {0.0: '#000000', 'x': '#ffffff'}, {0.0: '#000000', 1.0: None}],
        'time': ['banana', '', '12', '1x', '1s1x', 's', '1s 1s', 'f', '-', [], {}, '1s -1f', (1, 2)],
        'string': [],
        'bool': [],
        }
for _k in BAD:
    # values of other types
    BAD[_k] = BAD[_k]+[f'<{o}>' for o in KINDS if o!=_k]

ROUTES = ['attr', 'item', 'value', 'old-handle', 'waypoint', 'add']
# by these, whatever you give is converted
CONVERTS = {
        ('string', 'attr'), ('string', 'value'), ('string', 'old-handle'),
        ('bool', 'attr'), ('bool', 'value'), ('bool', 'old-handle'),
        ('string', 'waypoint'), ('bool', 'waypoint'),
        }


def jsonable(x):
    """Cases are written down as JSON; some of these values can't be."""
    if isinstance(x, tuple):
        return ['tuple', [jsonable(i) for i in x]]
    if isinstance(x, list):
        return ['list', [jsonable(i) for i in x]]
    if isinstance(x, dict):
        return ['dict', [[jsonable(a), jsonable(b)] for a, b in x.items()]]
    return ['is', x]


def unjson(x):
    kind, value = x
    if kind=='tuple':
        return tuple(unjson(i) for i in value)
    if kind=='list':
        return [unjson(i) for i in value]
    if kind=='dict':
        return {unjson(a): unjson(b) for a, b in value}
    if isinstance(value, str) and value.startswith('<'):
        kind = value.strip('<>')
        if kind=='time':
            return v.Time(T(12))
        return KINDS[kind].cls(KINDS[kind].samples[0])
    if value=='object':
        return object()
    return value


def set_ops():
    done = set()
    for id_, params in PARAMS.items():
        for name, kind in params.items():
            for i, bad in enumerate(BAD[kind]):
                for route in ROUTES:
                    if (kind, route) in CONVERTS:
                        continue
                    if isinstance(bad, str) and bad.startswith('<'):
                        if route not in ('item', 'add'):
                            # by the other routes this is a conversion
                            continue
                    elif route=='add':
                        continue
                    if (kind, i, route) in done and id_ not in ('inner', 'words', 'loop', 'grad', 'star'):
                        continue
                    done.add((kind, i, route))
                    yield ['set', id_, name, kind, jsonable(bad), route]


def set_cases(tier):
    for op in set_ops():
        for start in ('static', 'animated'):
            yield [start, op]


def bad_set(w, id_, name, kind, bad, route):
    bad = unjson(bad)
    layer = w.layers[id_]
    if route=='attr':
        setattr(layer, name, bad)
    elif route=='item':
        layer[name] = bad
    elif route=='value':
        getattr(layer, name).value = bad
    elif route=='old-handle':
        w.handle(id_, name).value = bad
    elif route=='waypoint':
        layer[name].timeline[6] = bad
    elif route=='add':
        layer[name].timeline.add(Waypoint(T(6), bad))


def refused(ctx, w, f, what):
    before = sif.canon(w.animation.tag)
    ctx.step()
    try:
        f()
    except EXPECTED:
        pass
    else:
        raise Violation(f'{what}: accepted')
    after = sif.canon(w.animation.tag)
    if after!=before:
        raise Violation(f'{what}: refused, but changed the document:\n'+
                        sif.diff(before, after))


def set_run(ctx, case):
    start, op = case
    _, id_, name, kind, bad, route = op
    w = World(ctx)
    w.handle(id_, name)
    if start=='animated':
        w.do(['way', id_, name, 12, 1])
        w.do(['way', id_, name, 24, 0])
    elif id_=='inner' and name=='radius':
        w.do(['set', id_, name, 0, 'item'])
    ctx.state(case)
    refused(ctx, w, lambda: bad_set(w, id_, name, kind, bad, route), f'{op}')
    w.agree(w.saved())


# -------------------------------------------------- other things to refuse

def others(w):
    """name -> something which ought to be refused."""
    L = w.layers
    a = w.animation
    timeline = L['inner']['radius'].timeline   # with waypoints at 0 and 24
    real = v.Real(5.0)
    animated = L['inner']['radius'] if L['inner']['radius'].is_animated else None
    wrong = Waypoint(T(6), v.Bool(True), 'linear', 'constant')

    def misplace():
        try:
            timeline[12] = wrong
        except Exception:
            if (wrong.time.frames, wrong.before, wrong.after)==(6.0, 'linear', 'constant'):
                raise
        # otherwise, it wasn't left as it was

    result = {
            'waypoint which is kept': misplace,
            'set no such param': lambda: L['inner'].__setitem__('nosuch', 1.0),
            'set no such param to a value': lambda: L['inner'].__setitem__('nosuch', real),
            'get no such param': lambda: L['inner']['nosuch'],
            'get no such index': lambda: L['outer'][99],
            'change type': lambda: setattr(L['inner'], 'type_', 'star'),
            'change tag': lambda: setattr(L['inner'], 'tag', L['star'].tag),
            'change tag of animation': lambda: setattr(a, 'tag', L['star'].tag),
            'transformation: number': lambda: setattr(L['outer'], 'transformation', 3),
            'transformation: string': lambda: setattr(L['outer'], 'transformation', 'banana'),
            'transformation: list': lambda: L['outer'].__setitem__('transformation', [1, 2]),
            'transformation: unknown key': lambda: setattr(L['outer'], 'transformation', {'nosuch': 1}),
            'transformation: unknown key too': lambda: setattr(
                L['outer'], 'transformation', {'angle': 1.0, 'nosuch': 1, 'scale': (1.0, 2.0)}),
            'transformation: one good, one bad': lambda: setattr(
                L['outer'], 'transformation', {'angle': 5.0, 'offset': 'banana'}),
            'transformation: one bad, one good': lambda: setattr(
                L['outer'], 'transformation', {'offset': (1.0,), 'angle': 5.0}),
            'transformation: bad angle last': lambda: L['deep'].__setitem__(
                'transformation', {'offset': (1.0, 1.0), 'scale': (2.0, 2.0), 'skew_angle': 'x'}),
            'offset: number': lambda: setattr(L['outer'], 'offset', 3.0),
            'angle: vector': lambda: setattr(L['outer'], 'angle', (1.0, 2.0)),
            'scale: string': lambda: setattr(L['deep'], 'scale', 'big'),
            'part value': lambda: setattr(L['deep'].transformation['scale'], 'value', 'big'),
            'animate transformation': lambda: setattr(L['outer'].transformation, 'is_animated', True),
            'waypoint in transformation': lambda: L['outer'].transformation.timeline.__setitem__(
                0, {'angle': 1.0}),
            'animate canvas': lambda: setattr(L['outer'].canvas, 'is_animated', True),
            'canvas: string': lambda: setattr(L['outer'], 'canvas', 'banana'),
            'canvas: number': lambda: setattr(L['outer'], 'canvas', 3),
            'canvas: mixture': lambda: setattr(L['outer'], 'canvas', [L['inner'], 3]),
            'canvas: tags': lambda: setattr(L['outer'], 'canvas', [L['inner'].tag]),
            'append string': lambda: L['outer'].append('circle'),
            'append to a circle': lambda: L['inner'].append(L['star']),
            'append to itself': lambda: L['deep'].append(L['deep']),
            'append to child': lambda: L['deep'].append(L['outer']),
            'append animation': lambda: L['deep'].append(a),
            'insert into itself': lambda: L['deep'].insert(0, L['outer']),
            'insert too far': lambda: L['outer'].insert(99, L['bottom']),
            'insert too far back': lambda: a.insert(-99, L['words']),
            'insert string': lambda: a.insert(0, 'words'),
            'add nothing useful': lambda: timeline.add(3),
            'add string': lambda: timeline.add('12f'),
            'add value': lambda: timeline.add(real),
            'add a list with rubbish in it': lambda: timeline.add([Waypoint(T(6), real), 3]),
            'add a list with the wrong type in it': lambda: timeline.add(
                [Waypoint(T(6), real), Waypoint(T(7), v.Bool(True))]),
            'iadd wrong type': lambda: timeline.__iadd__(Waypoint(T(0), v.Color('#ffffff'))),
            'iadd rubbish': lambda: timeline.__iadd__('x'),
            'waypoint at no time': lambda: timeline.__setitem__(None, 5.0),
            'waypoint at bad time': lambda: timeline.__setitem__('banana', 5.0),
            'waypoint at list': lambda: timeline.__setitem__([], 5.0),
            'waypoint of the wrong type': lambda: timeline.__setitem__(
                0, Waypoint(T(0), v.Bool(True))),
            'look up missing waypoint': lambda: timeline[99],
            'look up bad time': lambda: timeline['banana'],
            'look up nothing': lambda: timeline[None],
            'delete missing waypoint': lambda: timeline.__delitem__(99),
            'delete bad time': lambda: timeline.__delitem__('banana'),
            'timeline = number': lambda: setattr(L['inner']['radius'], 'timeline', 3),
            'timeline = numbers': lambda: setattr(L['inner']['radius'], 'timeline', [3]),
            'timeline = mixture': lambda: setattr(
                L['inner']['radius'], 'timeline', [Waypoint(T(6), real), 'x']),
            'timeline = dict of numbers': lambda: setattr(L['inner']['radius'], 'timeline', {0: 3}),
            'timeline = wrong type': lambda: setattr(
                L['inner']['radius'], 'timeline', [Waypoint(T(6), v.Bool(True))]),
            "timeline = another type's": lambda: setattr(
                L['bottom']['invert'], 'timeline', [Waypoint(T(6), real)]),
            'gradient: bad stop': lambda: L['grad']['gradient'].__setitem__(0.5, 'banana'),
            'gradient: stop nowhere': lambda: L['grad']['gradient'].__setitem__('x', '#ffffff'),
            'gradient: no such stop': lambda: L['grad']['gradient'][0.123],
            'width': lambda: setattr(a, 'width', 'wide'),
            'height': lambda: setattr(a, 'height', 'high'),
            'fps': lambda: setattr(a, 'fps', 'fast'),
            'xres': lambda: setattr(a, 'xres', 'x'),
            'gamma': lambda: setattr(a, 'gamma_r', 'x'),
            'antialias': lambda: setattr(a, 'antialias', 'x'),
            'begin time': lambda: setattr(a, 'begin_time', 'banana'),
            'end time': lambda: setattr(a, 'end_time', '12'),
            'end time is a list': lambda: setattr(a, 'end_time', []),
            'end time is infinite': lambda: setattr(a, 'end_time', float('inf')),
            'end time is not a number': lambda: setattr(a, 'end_time', float('nan')),
            'fps is zero': lambda: setattr(a, 'fps', 0),
            'fps is negative': lambda: setattr(a, 'fps', -24.0),
            'fps is infinite': lambda: setattr(a, 'fps', float('inf')),
            'fps is not a number': lambda: setattr(a, 'fps', float('nan')),
            'waypoint at infinity': lambda: timeline.__setitem__(float('inf'), 5.0),
            'waypoint before everything': lambda: timeline.__setitem__(float('-inf'), 5.0),
            'waypoint at not a number': lambda: timeline.__setitem__(float('nan'), 5.0),
            'waypoint too late': lambda: timeline.__setitem__('1e400s', 5.0),
            'time: infinite': lambda: setattr(L['loop']['duration'], 'value', float('inf')),
            'time: not a number': lambda: setattr(L['loop']['duration'], 'value', float('nan')),
            'time: too late': lambda: setattr(L['loop']['duration'], 'value', '1e400f'),
            'colour: infinite': lambda: setattr(L['inner']['color'], 'value', (0.0, float('inf'), 0.0)),
            'colour: not a number': lambda: setattr(L['inner']['color'], 'value', (0.0, 0.0, 0.0, float('nan'))),
            'gradient: infinite colour': lambda: L['grad']['gradient'].__setitem__(0.5, (float('inf'), 0.0, 0.0)),
            'vector: x is no number': lambda: setattr(L['inner']['origin'], 'x', 'banana'),
            'vector: y is nothing': lambda: setattr(L['inner'].origin, 'y', None),
            'vector: y is a pair': lambda: setattr(L['outer'].scale, 'y', (1.0, 2.0)),
            'vector: x of something animated': lambda: setattr(L['deep'].transformation.offset if
                L['deep'].transformation.offset.is_animated else L['inner']['radius'], 'x'
                if L['deep'].transformation.offset.is_animated else 'timeline', 3.0),
            'transformation: bad attribute': lambda: setattr(L['outer'].transformation, 'scale', 'big'),
            'transformation: bad angle attribute': lambda: setattr(L['deep']['transformation'], 'angle', (1.0, 2.0)),
            'find two': lambda: a.find_all('circle', 'group'),
            'save nowhere': lambda: a.save(os.path.join(w.ctx.tmp, 'no-such-dir', 'x.sif')),
            'save strangely': lambda: a.save(os.path.join(w.ctx.tmp, 'x.doc')),
            }
    if animated is not None:
        result['waypoint of animated'] = lambda: timeline.__setitem__(6, animated)
        result['waypoint made of animated'] = lambda: Waypoint(T(6), animated)
        if 24.0 in [way[0] for way in w.values['inner', 'radius'][1]]:
            result['clash'] = lambda: timeline.add(Waypoint(T(24), real))
            result['clash in a list'] = lambda: timeline.add(
                    [Waypoint(T(6), real), Waypoint(T(24), real)])
    return result


_names = []


def names():
    if not _names:
        class Null:
            tmp = '/nonexistent'
        import tempfile, shutil
        d = tempfile.mkdtemp(prefix='mc-')
        try:
            ctx = __import__('mc.core', fromlist=['Ctx']).Ctx(d)
            _names.extend(others(World(ctx)))
        finally:
            shutil.rmtree(d)
    return _names


SOME = [c for i, c in enumerate(c08.CORE) if i in (0, 2, 5, 8, 12, 15)]


def other_cases(tier):
    for name in names():
        yield [[], name, []]
        for op in c08.CORE:
            yield [[op], name, []]
        for first, last in itertools.product(
                c08.CORE if tier=='thorough' else SOME, repeat=2):
            yield [[first], name, [last]]


def other_run(ctx, case):
    before, name, after = case
    w = World(ctx)
    for op in before:
        w.do(op)
    attempts = others(w)
    if name not in attempts:
        return

    refused(ctx, w, attempts[name], name)
    for op in after:
        w.do(op)
    root = w.saved()
    ctx.state(name, sif.canon_element(root))
    w.agree(root)


ODD = '0fFaG9+- _#x.\n\u0661\u00e9'


def colour_cases(tier):
    """Strings which are nearly colours."""
    yield from (''.join(c) for c in sequences('0fG+#- ', 4 if tier=='quick' else 6, 0))
    for hash_ in ('', '#', '##'):
        for n in range(0, 12):
            yield hash_+'0'*n
            yield hash_+'f'*n+' '
        for size in (3, 4):
            good = ['12', 'aB', 'f0', '7e'][:size]
            for where in range(size):
                for odd in itertools.product(ODD, repeat=2):
                    yield hash_+''.join(good[:where]+[''.join(odd)]+good[where+1:])
            for a, b in itertools.combinations(range(size), 2):
                for odd in itertools.product('0f+- _' if tier=='thorough' else '0+- ', repeat=4):
                    pairs = list(good)
                    pairs[a], pairs[b] = ''.join(odd[:2]), ''.join(odd[2:])
                    yield hash_+''.join(pairs)


def colour_run(ctx, case):
    digits = case[1:] if case.startswith('#') else case
    ok = len(digits) in (6, 8) and all(c in '0123456789abcdefABCDEF' for c in digits)
    c = v.Color((0.25, 0.5, 0.75, 0.125))
    gradient = v.Gradient({0.0: '#000000', 1.0: '#ffffff'})
    for what, target, act in (
            ('a new colour', None, lambda: v.Color(case)),
            ('a colour', c, lambda: setattr(c, 'value', case)),
            ('a gradient', gradient, lambda: setattr(gradient, 'value', {0.0: '#010101', 1.0: case})),
            ):
        before = str(target.tag) if target is not None else None
        ctx.step()
        try:
            act()
            got = True
        except (ValueError, TypeError):
            got = False
        ctx.same(got, ok, f'whether {case!r} is good enough for {what}')
        if not got and target is not None:
            ctx.same(str(target.tag), before, f'{what} after refusing {case!r}')
    if ok:
        wanted = [int(digits[i:i+2], 16)/255 for i in range(0, len(digits), 2)]
        wanted = wanted+[1.0]*(4-len(wanted))
        ctx.check(all(abs(a-b)<2e-6 for a, b in zip(c.as_tuple(), wanted)),
                  f'{case!r} became', c.as_tuple())
    ctx.state(case)


# ------------------------------------- one bad thing among many good ones

T_GOOD = {'offset': (9.0, 8.0), 'angle': 7.0, 'skew_angle': 6.0, 'scale': (5.0, 4.0)}
T_BAD = {'offset': ['banana', (1.0,), 3.0], 'angle': ['banana', (1.0, 2.0), []],
         'skew_angle': ['banana', (1.0, 2.0), {}], 'scale': ['banana', (1.0, 'x'), {'x': 1.0}]}


def among_cases(tier):
    for n in (1, 2, 3, 4):
        for keys in itertools.permutations(sorted(T_GOOD), n):
            for bad in range(n):
                for i in range(3):
                    for route in ('attr', 'item', 'value'):
                        yield ['transformation', list(keys), bad, i, route]
        for keys in itertools.permutations(sorted(T_GOOD), n):
            for at in range(n+1):
                yield ['transformation key', list(keys), at, 0, 'attr']
    for n in range(2, 9):
        for bad in range(n):
            for i in range(4):
                for route in ('attr', 'item', 'value'):
                    yield ['gradient', n, bad, i, route]
    for n in range(1, 10):
        for bad in range(n):
            for i in range(7):
                for route in ('add', 'overwrite', 'iadd', 'assign', 'dict'):
                    for start in ('static', 'animated'):
                        yield ['timeline', n, bad, i, route, start]
    for n in range(1, 8):
        for bad in range(n):
            for i in range(5):
                for route in ('attr', 'item', 'value'):
                    yield ['canvas', n, bad, i, route]
    for size in (3, 4):
        for bad in range(size):
            for i in range(5):
                for route in ('attr', 'item', 'value'):
                    yield ['color', size, bad, i, route]
    for first in 'xy':
        for bad in 'xy':
            for i in range(4):
                for route in ('attr', 'item', 'value'):
                    yield ['vector', first, bad, i, route]
    for which in ('before', 'after'):
        for i in range(10):
            yield ['interpolation', which, i]


def put(layer, name, x, route):
    if route=='attr':
        setattr(layer, name, x)
    elif route=='item':
        layer[name] = x
    else:
        layer[name].value = x


def among_run(ctx, case):
    kind = case[0]
    w = World(ctx)
    L = w.layers
    ctx.state(case)
    if kind.startswith('transformation'):
        _, keys, bad, i, route = case
        given = [(key, T_GOOD[key]) for key in keys]
        if kind=='transformation':
            given[bad] = (keys[bad], T_BAD[keys[bad]][i])
        else:
            given.insert(bad, ('wombat', 1.0))
        for id_ in ('outer', 'deep'):
            refused(ctx, w, lambda: put(L[id_], 'transformation', dict(given), route), f'{case} in {id_}')
        alone = v.Transformation({'offset': (1.0, 2.0), 'angle': 3.0, 'skew_angle': 4.0, 'scale': (5.0, 6.0)})
        before = str(alone.tag)
        try:
            alone.value = dict(given)
            ok = False
        except EXPECTED:
            ok = True
        ctx.check(ok, f'{case}: accepted when alone')
        ctx.same(str(alone.tag), before, f'{case}: afterwards, when alone')
    elif kind=='gradient':
        _, n, bad, i, route = case
        given = [(j/10, '#0a0b0c') for j in range(n)]
        given[bad] = [(bad/10, 'banana'), (bad/10, None), (bad/10, (1.0, 2.0)), ('x', '#000000')][i]
        refused(ctx, w, lambda: put(L['grad'], 'gradient', dict(given), route), f'{case}')
    elif kind=='timeline':
        _, n, bad, i, route, start = case
        if start=='animated':
            w.do(['way', 'bottom', 'radius', 12, 1])
            w.do(['way', 'bottom', 'radius', 24, 0])
        given = [Waypoint(T(30+j), v.Real(j+0.5)) for j in range(n)]
        given[bad] = [3, 'banana', Waypoint(T(30+bad), v.Bool(True)), Waypoint(T(30+bad), v.Color('#000000')), None, [], v.Real(1.0)][i]
        kept = [str(x.tag) for x in given if isinstance(x, Waypoint)]
        value = L['bottom']['radius']
        def act():
            if route=='add':
                value.timeline.add(given)
            elif route=='overwrite':
                value.timeline.add(given, overwrite=True)
            elif route=='iadd':
                value.timeline += given
            elif route=='assign':
                value.timeline = given
            else:
                value.timeline = {j: x for j, x in enumerate(given)}
        refused(ctx, w, act, f'{case}')
        ctx.same([str(x.tag) for x in given if isinstance(x, Waypoint)], kept, 'the waypoints')
    elif kind=='canvas':
        _, n, bad, i, route = case
        given = [sangfroid.layer.Circle() for _ in range(n)]
        # some of them are in the document already
        for j, id_ in zip(range(0, n, 2), ('words', 'bottom', 'star')):
            given[j] = L[id_]
        given[bad] = [3, 'banana', None, L['outer'], L['inner'].tag][i]
        refused(ctx, w, lambda: put(L['outer'], 'canvas', given, route), f'{case}')
    elif kind=='color':
        _, size, bad, i, route = case
        given = [0.125, 0.25, 0.375, 0.5][:size]
        given[bad] = ['banana', None, [], float('inf'), '']  [i]
        refused(ctx, w, lambda: put(L['bottom'], 'color', tuple(given), route), f'{case}')
    elif kind=='vector':
        _, first, bad, i, route = case
        given = {first: 1.0, 'y' if first=='x' else 'x': 2.0}
        given[bad] = ['banana', None, [], ''][i]
        refused(ctx, w, lambda: put(L['bottom'], 'origin', given, route), f'{case}')
    else:
        _, which, i = case
        bad = ['', 'banana', 'undefined', None, 3, 'Linear', 'LINEAR', 'clampe', 'linear ', []][i]
        for made in (Waypoint(T(5), v.Real(1.0), 'linear', 'constant'), Waypoint(T(5), v.Color('#000000'), 'halt', 'auto')):
            before = str(made.tag), made.before, made.after
            ctx.step()
            try:
                setattr(made, which, bad)
                ok = False
            except EXPECTED:
                ok = True
            ctx.check(ok, f'{which} = {bad!r} was accepted')
            ctx.same((str(made.tag), made.before, made.after), before, f'the waypoint after {which} = {bad!r}')
            value = v.Color('#ffffff') if isinstance(made.value, v.Color) else v.Real(2.0)
            value.timeline.add(made)
            ctx.same(str(value.timeline[5].tag), before[0], 'the waypoint, used')
            kwargs = {'before': 'linear', 'after': 'linear', which: bad}
            try:
                Waypoint(T(5), v.Real(1.0), **kwargs)
                ok = False
            except EXPECTED:
                ok = True
            ctx.check(ok, f'Waypoint(..., {which}={bad!r}) was accepted')
    w.agree(w.saved())


UNITS = [
        Unit('among', among_cases, among_run),
        Unit('colours', colour_cases, colour_run),
        Unit('values', set_cases, set_run),
        Unit('others', other_cases, other_run),
        ]
