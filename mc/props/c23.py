"""
C23: values are equal if they mean the same thing.
"""
import itertools

import bs4
import sangfroid
import sangfroid.value as v
from sangfroid import T
from sangfroid.value.value import Waypoint
from mc import sif
from mc.core import Unit
from mc.editing import transformation
from mc.values import KINDS

BOUNDS = {
        'quick': 'for 10 types, all pairs of 4-9 values, each made in every way there is to write it down (loaded, '
            'constructed, set, copied, or as a plain Python value), both ways round; all pairs of 40 animations; all pairs of '
            '24 transformations; every value compared with 40 things of other types; pairs alike except '
            'in one place (each character of strings of up to 100, each byte of each channel of a colour, each stop of 10, each part of each of 10 waypoints)',
        'thorough': 'as quick, with all pairs of 200 animations, and 81 transformations',
        }
ASSUMPTIONS = [
        'reals are the same within 0.0001, and colours to the nearest 255th: the domains stay clear of the edges of these',
        'bools are compared only with bools, and values not with strings which look like them, except times and colours',
        ]

# kind -> [ [Python spellings of one value], ... ]: the different values really differ.
# The first spelling can be assigned.
DOMAINS = {
        'real': [[0.0, 0, -0.0, 0.00002], [1.5, 1.50002], [1.501], [-1.5], [1e6, 1000000], [0.001], [-7.0, -7], [1000.0], [1000.05], [1e6+1], [1e12]],
        'integer': [[0, 0.0], [1, 1.0], [-1], [3, 3.0], [10**12]],
        'bool': [[True], [False]],
        'angle': [[0.0, 0], [90.0, 90], [-90.0], [90.5], [360.0, 360], [450.0]],
        'string': [[''], ['a'], ['A'], [' a'], ['a '], ['a\nb'], ['ab'], ['<a>'], ['1.5'], ['None']],
        'color': [['#ff8000', '#FF8000', 'ff8000', '#ff8000ff', 'FF8000FF'],
                  ['#ff800080', 'FF800080'],
                  [(0.25, 0.5, 0.125), (0.25, 0.5, 0.125, 1.0)],
                  [(0.25, 0.5, 0.125, 0.0)],
                  [(0.125, 0.5, 0.25)],
                  ['#000000', (0.0, 0.0, 0.0), (0, 0, 0, 1)],
                  ['#00000000', (0.0, 0.0, 0.0, 0.0)],
                  ['#ffffff', (1.0, 1.0, 1.0), (1, 1, 1)],
                  ['#ffffff00'],
                  # brighter than hex can say, and what they might be mistaken for
                  ['#ff0000'], [(2.0, 0.0, 0.0), (2, 0, 0, 1)], [(16.2, 0.0, 0.0)], ['#10230000'], [(-0.2, 0.0, 0.0)],
                  [(1.0, 1.0, 1.0, 2.0)], [(1.09, 0.0, 0.0)], [(0.0, 2.0, 0.0)], [(1.0, 0.0, 0.0, 15.9375)]],
        'vector': [[(0.0, 0.0), [0.0, 0.0], (0, 0)], [(1.5, -2.0), [1.5, -2.0]], [(-2.0, 1.5)], [(1.5, 2.0)], [(1.0, 1.0), (1, 1)], [(1.5, -2.0001)]],
        'time': [['0f', 0], ['12f', 12, 12.0], ['1s', 24, '24f', '0m 1s', '0h 0m 1s 0f'], ['12.5f', 12.5], ['1m', 1440]],
        'gradient': [[{0.0: '#000000', 1.0: '#ffffff'}],
                     [{0.0: '#ffffff', 1.0: '#000000'}],
                     [{0.0: '#000000', 0.5: '#808080', 1.0: '#ffffff'}],
                     [{0.0: '#000000', 0.5: '#ffffff'}],
                     [{0.0: '#000000', 1.0: '#ffffff80'}]],
        }

UNLIKE = {'real': 'n', 'integer': 'n', 'angle': 'n', 'bool': 'b', 'string': 's',
          'color': 'c', 'vector': 'v', 'time': 't', 'gradient': 'g'}


def holder(kind, fps='24'):
    return ('circle', 'x')


def doc(*values):
    return ('<canvas version="1.2" fps="24" begin-time="0f" end-time="5s" width="10" height="10" view-box="0 0 1 1">\n'
            + ''.join(f'<layer type="circle" desc="{i}"><param name="x">{x}</param></layer>\n'
                      for i, x in enumerate(values))
            + '</canvas>')


def loaded(xml):
    soup = bs4.BeautifulSoup(doc(xml), 'xml')
    return v.Value.from_tag(soup.find('param').find(True))


def xml_of(kind, sample):
    return KINDS[kind].xml(sample)


def ways(kind, i):
    """Everything which means the i'th value in the domain of a kind."""
    cls = KINDS[kind].cls
    spellings = DOMAINS[kind][i]
    first = spellings[0]
    result = []
    natural = spellings
    if kind=='time':
        natural = [T(s, ref=loaded('<time value="0f"/>').tag) for s in spellings]+spellings[1:]
    result += [('python '+repr(s), s) for s in natural]

    x = loaded(xml_of(kind, KINDS[kind].samples[0]))
    x.value = first
    result.append(('set', x))
    # as some other program might have written it
    tag = bs4.BeautifulSoup(str(x.tag), 'xml').find(True)
    other = loaded(str(tag))
    other.tag['guid'] = 'something'
    if kind in ('vector', 'color', 'gradient'):
        for child in list(other.tag.children):
            child.insert_before('\n  ')
    if kind=='vector':
        y = other.tag.find('y').extract()
        other.tag.insert(0, y)
    result.append(('loaded', other))
    animated = loaded(xml_of(kind, KINDS[kind].samples[1]))
    animated.is_animated = True
    animated.value = first
    result.append(('once animated', animated))
    if kind!='time':
        result.append(('constructed', cls(first)))
        w = loaded(xml_of(kind, KINDS[kind].samples[0]))
        w.timeline[3] = cls(first)
        result.append(('from a waypoint', w.timeline[3].value))
    if kind=='integer':
        result.append(('blend method', v.BlendMethod(first)))
    return result


def judge(ctx, a, b, wanted, what):
    ctx.step(4)
    for x, y, way in ((a, b, 'forwards'), (b, a, 'backwards')):
        ctx.same(bool(x==y), wanted, f'{what}, {way}: ==')
        ctx.same(bool(x!=y), not wanted, f'{what}, {way}: !=')


def pair_cases(tier):
    for kind, domain in DOMAINS.items():
        for i in range(len(domain)):
            for j in range(i, len(domain)):
                yield [kind, i, j]


def pair_run(ctx, case):
    kind, i, j = case
    for (n1, a), (n2, b) in itertools.product(ways(kind, i), ways(kind, j)):
        if not isinstance(a, v.Value) and not isinstance(b, v.Value):
            continue
        judge(ctx, a, b, i==j, f'{kind}: {n1} {a!r} and {n2} {b!r}')
        ctx.state(kind, i, j)
    for n1, a in ways(kind, i):
        # the same one
        if isinstance(a, v.Value):
            judge(ctx, a, a, True, f'{kind}: {n1} and itself')


# --------------------------------------------------------------

def strangers():
    layer = sangfroid.layer.Circle()
    return [None, object(), [], {}, (), (1.0,), (1.0, 2.0, 3.0, 4.0, 5.0), 'wombat', [1, 2, 3], {'x': 1.0},
            {'wombat': 2}, set(), b'x', 1j, layer, object, len, {0.0: '#000000'}]


def stranger_cases(tier):
    for kind, domain in DOMAINS.items():
        for i in range(len(domain)):
            yield [kind, i]


def stranger_run(ctx, case):
    kind, i = case
    mine = [x for x in ways(kind, i) if isinstance(x[1], v.Value)]
    if kind!='bool':
        for n, a in mine:
            for s in strangers():
                judge(ctx, a, s, False, f'{kind}: {n} {a!r} and {s!r}')
            static = v.Transformation({'offset': (0.0, 0.0), 'angle': 0.0, 'skew_angle': 0.0, 'scale': (1.0, 1.0)})
            judge(ctx, a, static, False, f'{kind}: {n} {a!r} and a transformation')
    for kind2, domain2 in DOMAINS.items():
        if UNLIKE[kind]==UNLIKE[kind2] or 'bool' in (kind, kind2) or {'n', 't'}=={UNLIKE[kind], UNLIKE[kind2]}:
            continue
        if {'s'} & {UNLIKE[kind], UNLIKE[kind2]}:
            continue
        for j in range(len(domain2)):
            for (n1, a), (n2, b) in itertools.product(mine, ways(kind2, j)):
                if isinstance(b, v.Value):
                    judge(ctx, a, b, False, f'{kind} {n1} {a!r} and {kind2} {n2} {b!r}')
    ctx.state(kind, i)


# --------------------------------------------------------------

def animations(kind, tier):
    """Different animations."""
    result = []
    values = range(2)
    times = ['0f', '5f', '1s']
    modes = ['clamped', 'linear'] if tier=='quick' else ['clamped', 'linear', 'constant', 'halt', 'auto']
    for t in times:
        for i in values:
            result.append([[t, i, 'clamped', 'clamped']])
    for b in modes:
        for a in modes:
            if (b, a)!=('clamped', 'clamped'):
                result.append([['0f', 0, b, a]])
    for i in values:
        for j in values:
            for m in modes:
                result.append([['0f', i, m, 'clamped'], ['5f', j, 'clamped', 'linear']])
    result.append([['0f', 0, 'clamped', 'clamped'], ['5f', 0, 'clamped', 'clamped'], ['1s', 0, 'clamped', 'clamped']])
    return result


def anim_values(kind, a):
    """The same animation in different ways."""
    k = KINDS[kind]
    same = {'0f': '0s', '5f': '5f', '1s': '24f'}

    def xml(waypoints, translate, ws=''):
        return f'<animated type="{kind}">'+ws.join(
                f'<waypoint time="{same[t] if translate else t}" before="{b}" after="{aft}">{k.xml(k.samples[i])}</waypoint>'
                for t, i, b, aft in waypoints)+'</animated>'

    first = loaded(xml(a, False))
    yield 'loaded', first
    yield 'loaded otherwise', loaded(xml(a, True, '\n '))
    x = loaded(k.xml(k.samples[1]))
    x.timeline = [Waypoint(t, k.cls(k.samples[i]) if kind!='time' else loaded(k.xml(k.samples[i])),
                           before=b, after=aft, ref=x.tag)
                  for t, i, b, aft in reversed(a)]
    yield 'made', x
    y = loaded(k.xml(k.samples[1]))
    y.timeline = first.timeline
    yield 'copied', y


def anim_cases(tier):
    for kind in KINDS:
        n = len(animations(kind, tier))
        for i in range(n):
            yield [tier, kind, i]


def anim_run(ctx, case):
    tier, kind, i = case
    all_of_them = animations(kind, tier)
    k = KINDS[kind]
    mine = list(anim_values(kind, all_of_them[i]))
    for j, other in enumerate(all_of_them[i:], i):
        for (n1, a), (n2, b) in itertools.product(mine, anim_values(kind, other)):
            judge(ctx, a, b, i==j, f'{kind}: {n1} {all_of_them[i]} and {n2} {other}')
        ctx.state(kind, i, j)
    # and what isn't animated
    for s in k.samples[:2]:
        for n1, a in mine:
            judge(ctx, a, loaded(k.xml(s)), False, f'{kind}: {n1} {all_of_them[i]} and static {s}')
            judge(ctx, a, s, False, f'{kind}: {n1} {all_of_them[i]} and Python {s}')
    for s in strangers():
        for n1, a in mine:
            judge(ctx, a, s, False, f'{kind}: {n1} {all_of_them[i]} and {s!r}')
    other_kind = 'real' if kind!='real' else 'angle'
    if kind!='gradient':
        b = list(anim_values(other_kind, all_of_them[i]))[0][1]
        judge(ctx, mine[0][1], b, False, f'animated {kind} and {other_kind}')


# --------------------------------------------------------------

PARTS = ['offset', 'angle', 'skew_angle', 'scale']
CHOICES = {
        'offset': [(0.5, -0.5), (0.0, 0.0), (-0.5, 0.5)],
        'angle': [10.0, 20.0, 0.0],
        'skew_angle': [20.0, 10.0, 0.0],
        'scale': [(2.0, 3.0), (1.0, 1.0), (3.0, 2.0)],
        }


def tr_list(tier):
    n = 2 if tier=='quick' else 3
    return [list(c) for c in itertools.product(range(n), repeat=4)] + (
            [[2, 0, 0, 0], [0, 2, 0, 0], [0, 0, 2, 0], [0, 0, 0, 2], [0, 1, 2, 0], [2, 2, 2, 2]] if n==2 else [])


def tr_ways(c):
    parts = {k: CHOICES[k][i] for k, i in zip(PARTS, c)}
    yield 'dict', parts
    yield 'dict in another order', dict(reversed(parts.items()))
    yield 'dict of values', {k: (v.Angle if 'angle' in k else v.X_Y)(x) for k, x in parts.items()}
    yield 'made', v.Transformation(parts)
    yield 'loaded', loaded(transformation(parts['offset'], parts['angle'], parts['skew_angle'], parts['scale']))
    x = loaded(transformation())
    for k, p in reversed(parts.items()):
        x.value = {k: p}
    yield 'set', x
    moved = loaded(transformation(parts['offset'], parts['angle'], parts['skew_angle'], parts['scale']))
    moved.tag.append(moved.tag.find('offset').extract())
    moved.tag.insert(0, '\n  ')
    yield 'loaded in another order', moved


def tr_cases(tier):
    for i in range(len(tr_list(tier))):
        yield [tier, i]


def tr_run(ctx, case):
    tier, i = case
    them = tr_list(tier)
    mine = list(tr_ways(them[i]))
    for j in range(i, len(them)):
        for (n1, a), (n2, b) in itertools.product(mine, tr_ways(them[j])):
            if isinstance(a, v.Value) or isinstance(b, v.Value):
                judge(ctx, a, b, i==j, f'transformations: {n1} {them[i]} and {n2} {them[j]}')
        ctx.state(i, j)
    for n, a in mine:
        if not isinstance(a, v.Value):
            continue
        for s in strangers()+[{}, {'angle': 10.0}, dict(a.items()) | {'wombat': 1},
                              {k: x for k, x in a.items() if k!='scale'} | {'wombat': 1}]:
            judge(ctx, a, s, False, f'transformation {n} and {s!r}')
        # with a part of it animated
        b = loaded(str(a.tag))
        b['angle'].is_animated = True
        judge(ctx, a, b, False, 'a transformation and another with its angle animated')
        c = loaded(str(b.tag))
        judge(ctx, b, c, True, 'two transformations with the angle animated')
        c['angle'].timeline[5] = 3.0
        judge(ctx, b, c, False, 'two transformations with the angle differently animated')


# --------------------------------------------------------------
# Alike except in one place

def almost_cases(tier):
    for n in (1, 2, 3, 7, 8, 15, 16, 17, 40, 100):
        yield ['string', n]
    for channel in range(4):
        yield ['channel', channel]
    for n in range(2, 11):
        yield ['gradient', n]
        yield ['animation', n]
    for e in range(-3, 13):
        yield ['real', e]
        yield ['vector', e]
        if e>=0:
            yield ['integer', e]


def almost_run(ctx, case):
    what, n = case
    ctx.state(case)
    if what=='string':
        s = ''.join(chr(97+i%26) for i in range(n))
        a = v.String(s)
        judge(ctx, a, v.String(s), True, s)
        for odd in ('\n', ' ', '\t', '\r', '\xa0', '\u200b', '\0', '.', '\u0301', '\ufeff', '\u3000'):
            for t in (odd+s, s+odd, s[:1]+odd+s[1:]):
                if n<18 and odd!='\0' or t[-1]==odd:
                    judge(ctx, a, v.String(t), False, f'{s!r} and {t!r}')
                    judge(ctx, a, t, False, f'{s!r} and {t!r}')
        for one, two in (('\xe9', 'e\u0301'), ('\xdf', 'ss'), ('\ufb01', 'fi'), ('I', '\u0131'), ('1', '\u0661'), ('A', '\u0391'), ('a', '\uff41'), ('1', '1.0'), ('0', ''), ('None', ''), ('True', 'true'), ('a\nb', 'a b'), ('a  b', 'a b')):
            judge(ctx, v.String(s+one), v.String(s+two), False, f'{one!r} and {two!r}')
            judge(ctx, v.String(one+s), two+s, False, f'{one!r} and {two!r}')
            judge(ctx, v.String(one+s), v.String(one+s), True, f'{one!r}')
        for i in range(n):
            for t in (s[:i]+'!'+s[i+1:], s[:i]+s[i].upper()+s[i+1:], s[:i]+s[i+1:], s[:i]+' '+s[i:]):
                judge(ctx, a, v.String(t), False, f'{s!r} and {t!r}')
                judge(ctx, a, t, False, f'{s!r} and {t!r}')
    elif what=='channel':
        made = []
        for i in range(256):
            c = ['10', '20', '30', 'ff']
            c[n] = f'{i:02x}'
            made.append('#'+''.join(c))
        values = [v.Color(c) for c in made]
        for i in range(256):
            judge(ctx, values[i], v.Color(made[i].upper()), True, made[i])
            for j in {i+1, i+2, i+16, 255-i}:
                if j<256 and j!=i:
                    judge(ctx, values[i], values[j], False, f'{made[i]} and {made[j]}')
                    judge(ctx, values[i], made[j], False, f'{made[i]} and {made[j]}')
    elif what=='gradient':
        stops = {round(i/n, 4): f'#{i*20:02x}4080' for i in range(n)}
        a = v.Gradient(stops)
        judge(ctx, a, v.Gradient(dict(reversed(stops.items()))), True, f'{n} stops')
        judge(ctx, a, stops, True, f'{n} stops')
        for i in range(n):
            p = round(i/n, 4)
            others = [{**stops, p: '#ffffff'}, {(q if q!=p else round(q+0.04, 4)): c for q, c in stops.items()}, {**stops, round(p+0.03, 4): stops[p]}]
            if n>2:
                others.append({q: c for q, c in stops.items() if q!=p})
            for d in others:
                judge(ctx, a, v.Gradient(d), False, f'{n} stops, {stops} and {d}')
                judge(ctx, a, d, False, f'{n} stops, {stops} and {d}')
    elif what=='animation':
        def make(waypoints):
            return loaded('<animated type="real">'+''.join(
                f'<waypoint time="{t}f" before="{b}" after="{a}"><real value="{x}"/></waypoint>' for t, x, b, a in waypoints)+'</animated>')
        original = [[3*i, i%3, 'linear', 'clamped'] for i in range(n)]
        a = make(original)
        judge(ctx, a, make(list(reversed(original))), True, f'{n} waypoints')
        for i in range(n):
            for j, x in ((0, 3*i+1), (1, 7.5), (2, 'halt'), (3, 'halt')):
                w = [list(o) for o in original]
                w[i][j] = x
                judge(ctx, a, make(w), False, f'{n} waypoints, but {i} is {w[i]}')
            w = [o for k, o in enumerate(original) if k!=i]
            if w:
                judge(ctx, a, make(w), False, f'{n} waypoints without {i}')
    else:
        x = 10.0**n
        if what=='integer':
            x = int(x)
            for y in (x+1, x-1, -x, x*10):
                judge(ctx, v.Integer(x), v.Integer(y), False, f'{x} and {y}')
                judge(ctx, v.Integer(x), y, False, f'{x} and {y}')
            judge(ctx, v.Integer(x), v.Integer(x), True, x)
            # and among numbers of other sorts
            judge(ctx, v.Integer(x), v.Real(float(x)), True, f'{x} and the real')
            for y in (x+0.5, x-0.5, x+0.001, x-0.25, -x-0.5):
                judge(ctx, v.Integer(x), v.Real(y), False, f'{x} and real {y}')
                judge(ctx, v.Integer(x), y, False, f'{x} and {y}')
                judge(ctx, v.Real(y), x, False, f'{x} and {y}')
            return
        nearby = [x*10, -x, x+0.001, x-0.001, x+1, x-1]
        if what=='real':
            judge(ctx, v.Real(x), v.Real(x), True, x)
            judge(ctx, v.Real(x), x, True, x)
            for y in nearby:
                judge(ctx, v.Real(x), v.Real(y), False, f'{x} and {y}')
                judge(ctx, v.Real(x), y, False, f'{x} and {y}')
                judge(ctx, v.Angle(x), v.Angle(y), False, f'{x} and {y}')
        else:
            judge(ctx, v.X_Y(x, 2.0), v.X_Y((x, 2.0)), True, x)
            for y in nearby:
                judge(ctx, v.X_Y(x, 2.0), v.X_Y(y, 2.0), False, f'{x} and {y}')
                judge(ctx, v.X_Y(2.0, x), (2.0, y), False, f'{x} and {y}')


UNITS = [
        Unit('almost', almost_cases, almost_run),
        Unit('transformations', tr_cases, tr_run),
        Unit('strangers', stranger_cases, stranger_run),
        Unit('pairs', pair_cases, pair_run),
        Unit('animations', anim_cases, anim_run),
        ]
