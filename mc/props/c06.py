"""
C06: times are ordered, equal and hashed consistently.
"""
import itertools
import operator
from fractions import Fraction

import bs4
from sangfroid import T
from mc import sif
from mc.core import Unit

BOUNDS = {
        'quick': 'all pairs from 201 times and numbers, all triples from 64, '
            'all permutations of 6 for sorting; dicts and sets from all subsets of <=4 of 12',
        'thorough': 'all triples from 201',
        }
ASSUMPTIONS = []

_docs = {}

def doc(fps):
    if fps not in _docs:
        _docs[fps] = bs4.BeautifulSoup(
                sif.canvas('<layer type="circle"/>', fps=fps, end='1h'),
                features='xml')
    return _docs[fps].find('layer')


# (constructor argument, fps or None)
SPECS = []
for _fps in (None, '24', '24.000', '25', '29.97'):
    for _v in ('0f', '1f', '-1f', 2, 23.5, '24f', '25f', 48, '-48f', 0, 0.25,
               '1439f', 1440, 86400, '100f',
               # very near one another
               2.0**53, '1.0001f', 1.0002, '1.0000001f', 1e-7, '-0.0001f', 100000, 100000.0001):
        SPECS.append((_v, _fps))
    if _fps:
        for _v in ('1s', '2s', '-2s', '1m', '1h', '1s 1f', '0s', '0.5s', -1, -2):
            SPECS.append((_v, _fps))
# rates which are almost the same
for _fps in ('23.976', '24.001', '30', '2.4', '240'):
    for _v in ('0f', '1f', 2, '24f', '1s', -1):
        SPECS.append((_v, _fps))
NUMBERS = [0, 0.0, 1, -1, 24, 48.0, 23.5, 1440, 10**9, 1.0001, 1.00010001, 1e-9, 2**53, 2**53+1, 10**400, -10**400]

ITEMS = [('T',)+s for s in SPECS]+[('N', n) for n in NUMBERS]


def make(item):
    if item[0]=='N':
        return item[1]
    return T(item[1], ref = None if item[2] is None else doc(item[2]))


def frames(x):
    return Fraction(x.frames if isinstance(x, T) else x)


def fps(x):
    return x.fps if isinstance(x, T) else None


def comparable(a, b):
    if fps(a) is None or fps(b) is None or fps(a)==fps(b):
        return True
    return frames(a)==0 or frames(b)==0


OPS = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt,
       operator.ge]


def pair_cases(tier):
    for i in range(len(ITEMS)):
        yield i


def pair_run(ctx, i):
    a = make(ITEMS[i])
    for j in range(len(ITEMS)):
        b = make(ITEMS[j])
        if not isinstance(a, T) and not isinstance(b, T):
            continue
        what = f'{ITEMS[i]} and {ITEMS[j]}'
        for op in OPS:
            ctx.step()
            try:
                found = op(a, b)
            except ValueError:
                ctx.check(not comparable(a, b), op.__name__, 'refused for', what)
                continue
            ctx.check(comparable(a, b), op.__name__, 'should have been refused for', what)
            ctx.check(found is op(frames(a), frames(b)), op.__name__, 'of', what,
                      'is', found)
        if comparable(a, b):
            ctx.state(frames(a)<frames(b), frames(a)==frames(b), fps(a), fps(b))
            if frames(a)==frames(b):
                ctx.check(hash(a)==hash(b), 'equal, but hashes differ:', what)
                ctx.check(len({a, b})==1, 'equal, but both fit in a set:', what)
                ctx.same({a: 'x'}.get(b), 'x', 'dict lookup of '+what)
            elif hash(a)!=hash(b):
                ctx.same({a: 'x'}.get(b), None, 'dict lookup of '+what)
    # immutable
    if isinstance(a, T):
        h = hash(a)
        str(a), a==a, a<a
        ctx.same(hash(a), h, 'hash')
        for other in (None, 'x', '1f', [], object()):
            ctx.check((a==other) is False, f'T=={other!r}')
            ctx.check((a!=other) is True, f'T!={other!r}')


def triple_cases(tier):
    n = len(ITEMS)
    some = list(range(0, n, 3 if tier=='quick' else 1))
    for i in some:
        yield [i, some]


def triple_run(ctx, case):
    i, some = case
    a = make(ITEMS[i])
    made = [make(ITEMS[k]) for k in some]
    for b in made:
        if not comparable(a, b):
            continue
        for c in made:
            if not comparable(b, c) or not comparable(a, c):
                continue
            ctx.step()
            if a<=b and b<=c:
                ctx.check(a<=c, 'not transitive:', a, b, c)
            if a<b and b<=c:
                ctx.check(a<c, 'not transitive:', a, b, c)
            if a==b and b==c:
                ctx.check(a==c, 'equality not transitive', a, b, c)
    ctx.state(i)


def sort_cases(tier):
    for f in (None, '24', '25', '29.97'):
        for p in itertools.permutations(range(6)):
            yield [f, list(p)]


SORTABLE = ['-2f', '0f', '1f', '1.5f', '24f', '1000f']

def sort_run(ctx, case):
    f, p = case
    items = [T(SORTABLE[i], ref=doc(f) if f else None) for i in p]
    ctx.step()
    wanted = [-2.0, 0.0, 1.0, 1.5, 24.0, 1000.0]
    ctx.same([t.frames for t in sorted(items)], wanted, 'sorted')
    ctx.same(min(items).frames, -2.0, 'min')
    ctx.same(max(items).frames, 1000.0, 'max')
    d = dict((t, i) for t, i in zip(items, p))
    for i, s in enumerate(SORTABLE):
        ctx.same(d[T(s, ref=doc(f) if f else None)], i, 'lookup')
        ctx.same(d[T(s)], i, 'lookup without fps')
        if wanted[i]>=0:
            ctx.same(d[wanted[i]], i, 'lookup by number')
    ctx.state(f, p)


UNITS = [
        Unit('pairs', pair_cases, pair_run),
        Unit('triples', triple_cases, triple_run),
        Unit('sorting', sort_cases, sort_run),
        ]
