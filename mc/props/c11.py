"""
C11: searching for layers finds all those which match, and no others, in order.
"""
import itertools
import os

import sangfroid
from mc import sif, editing
from mc.core import REPO, Unit, Violation

BOUNDS = {
        'quick': 'every tree of <=4 layers of 4 types, as a document; about 70 queries on '
            'each, recursive and not, starting at the animation and at each layer; every '
            'type, class and desc in each of the 6 fixture files; all pairs of 9 criteria; wide and deep trees of up to 40 layers, or 12 levels; each class of layer, in a document with one of each type',
        'thorough': 'every tree of <=5 layers',
        }
ASSUMPTIONS = ['a callable is passed a Beautiful Soup tag, as the '
               "repository's tests insist",
               'a search with no criteria at all is not judged']

LABELS = {'c': 'circle', 'g': 'group', 'l': 'linear_gradient', 'b': 'blur'}
DESC = ['x', 'None', None, 'y', '']
ACTIVE = [True, False, False, True, True]
AMOUNT = [1.0, 0.5, 1.0, 0.5, 0.25]


def forests(n, labels='cglb'):
    """Every ordered forest of n labelled nodes; only g can have children."""
    if n==0:
        yield ()
        return
    for first in range(1, n+1):
        for label in labels:
            if label!='g' and first>1:
                continue
            for inside in forests(first-1, labels):
                for rest in forests(n-first, labels):
                    yield ((label, inside),)+rest


def build(forest, counter, turn=0):
    out = []
    for label, inside in forest:
        i = next(counter)
        desc = DESC[(i+turn)%5]
        attrs = f'active="{str(ACTIVE[i%5]).lower()}" group="id{i}"'
        if desc is not None:
            attrs += f' desc="{desc}"'
        params = editing.param('amount', f'<real value="{AMOUNT[i%5]}"/>')
        if label=='c':
            params += editing.param('radius', f'<real value="{AMOUNT[i%5]}"/>')
        elif label=='b':
            params += editing.param('type', '<integer value="1"/>')
        elif label=='g':
            params += editing.param('canvas', '<canvas>\n<!-- x -->'+build(inside, counter, turn)+'</canvas>')
        out.append(f'<layer type="{LABELS[label]}" {attrs}>{params}</layer>\n')
    return ''.join(out)


def own(e, name):
    for p in e.findall('param'):
        if p.get('name')==name:
            return p[0]
    return None


def squash(s):
    return s.lower().replace('_', '')


def amount(e, name, x):
    found = own(e, name)
    return found is not None and found.get('value') is not None and \
            abs(float(found.get('value'))-x)<1e-6


L = sangfroid.layer

# name -> (args, kwargs, what an lxml element has to be)
QUERIES = {}
for _n in ('circle', 'Circle', 'CIRCLE', 'group', 'linear_gradient', 'lineargradient',
           'Linear_Gradient', 'blur', 'nosuch'):
    QUERIES[f'"{_n}"'] = ((_n,), {}, lambda e, n=_n: squash(e.get('type'))==squash(n))
    QUERIES[f'type="{_n}"'] = ((), {'type': _n}, lambda e, n=_n: squash(e.get('type'))==squash(n))
for _n in ('Circle', 'Group', 'Linear_Gradient', 'Blur', 'Text'):
    _c = getattr(L, _n)
    QUERIES[_n] = ((_c,), {}, lambda e, n=_n: squash(e.get('type'))==squash(n))
    QUERIES[f'type={_n}'] = ((), {'type': _c}, lambda e, n=_n: squash(e.get('type'))==squash(n))
QUERIES['Layer'] = ((L.Layer,), {}, lambda e: True)
QUERIES['True'] = ((True,), {}, lambda e: True)
QUERIES['False'] = ((False,), {}, lambda e: False)
QUERIES['callable'] = ((lambda tag: tag.get('desc')=='x',), {}, lambda e: e.get('desc')=='x')
QUERIES['callable-all'] = ((lambda tag: True,), {}, lambda e: True)
QUERIES['callable-none'] = ((lambda tag: False,), {}, lambda e: False)

CRITERIA = {
        'desc=x': ('desc', 'x', lambda e: e.get('desc')=='x'),
        'desc=y': ('desc', 'y', lambda e: e.get('desc')=='y'),
        'desc=': ('desc', '', lambda e: e.get('desc')==''),
        'desc=None': ('desc', None, lambda e: e.get('desc') is None),
        'desc="None"': ('desc', 'None', lambda e: e.get('desc')=='None'),
        'active="True"': ('active', 'True', lambda e: False),
        'desc=z': ('desc', 'z', lambda e: e.get('desc')=='z'),
        'active': ('active', True, lambda e: e.get('active')!='false'),
        'inactive': ('active', False, lambda e: e.get('active')=='false'),
        'amount': ('amount', 0.5, lambda e: amount(e, 'amount', 0.5)),
        'radius': ('radius', 1.0, lambda e: amount(e, 'radius', 1.0)),
        'type': ('type', 'circle', lambda e: e.get('type')=='circle'),
        'class': ('type', L.Group, lambda e: e.get('type')=='group'),
        'nothing-has-this': ('wombat', 1, lambda e: False),
        }


def both(a, b):
    return lambda e: a(e) and b(e)


for _k, (_f, _v, _p) in CRITERIA.items():
    QUERIES[_k] = ((), {_f: _v}, _p)
    QUERIES[_k+' attrs'] = ((), {'attrs': {_f: _v}}, _p)
    for _k2, (_f2, _v2, _p2) in CRITERIA.items():
        if _f2<=_f:
            continue
        QUERIES[f'{_k}+{_k2}'] = ((), {_f: _v, _f2: _v2}, both(_p, _p2))
        QUERIES[f'{_k}+{_k2} attrs'] = ((), {_f: _v, 'attrs': {_f2: _v2}}, both(_p, _p2))
    if _f!='type':
        QUERIES[f'circle {_k}'] = (('circle',), {_f: _v}, both(lambda e: e.get('type')=='circle', _p))
        QUERIES[f'Group {_k}'] = ((L.Group,), {_f: _v}, both(lambda e: e.get('type')=='group', _p))
# for the bigger trees
BASIC = ['"circle"', 'type="Linear_Gradient"', 'Group', 'Layer', 'True', 'False', 'callable',
         'desc=x', 'desc=None', 'inactive', 'amount', 'radius', 'class',
         'desc=x+type', 'active+amount attrs', 'Group desc=x', 'circle inactive']


def cases(tier):
    for n in range(0, 6 if tier=='thorough' else 5):
        for f in forests(n):
            for turn in ((0, 3) if n<=3 else (0, )):
                yield [n, f, turn]


def sublayers(e):
    """The layers immediately inside an element, in document order."""
    if e.tag=='canvas':
        return [c for c in e if c.tag=='layer']
    if e.get('type')!='group':
        return []
    c = own(e, 'canvas')
    return [] if c is None else [x for x in c if x.tag=='layer']


def all_inside(e):
    result = []
    for c in sublayers(e):
        result.append(c)
        result.extend(all_inside(c))
    return result


def ident(layer):
    return layer.tag.get('group')


def call(ctx, f, args, kwargs, **more):
    """Calls f, checking that it doesn't change its arguments."""
    given = {k: dict(v) if k=='attrs' else v for k, v in kwargs.items()}
    result = f(*args, **given, **more)
    ctx.same(given, kwargs, 'the arguments')
    return result


def query(ctx, start, e, name, q=None):
    args, kwargs, predicate = q or QUERIES[name]
    ctx.step()
    for recursive in (True, False):
        pool = all_inside(e) if recursive else sublayers(e)
        wanted = [x.get('group') for x in pool if predicate(x)]
        found = call(ctx, start.find_all, args, kwargs, recursive=recursive)
        if not isinstance(found, list):
            raise Violation(f'find_all returned {type(found)}')
        what = f'{name} recursive={recursive} from {e.get("group")}'
        ctx.same([ident(x) for x in found], wanted, what)
        for x, w in zip(found, [x for x in pool if predicate(x)]):
            ctx.same(squash(type(x).__name__), squash(w.get('type')), f'class of {x}')
        one = call(ctx, start.find, args, kwargs, recursive=recursive)
        ctx.same(ident(one) if one is not None else None,
                 wanted[0] if wanted else None, 'find: '+what)
    default = call(ctx, start.find_all, args, kwargs)
    ctx.same([ident(x) for x in default],
             [x.get('group') for x in all_inside(e) if predicate(x)], f'{name} by default')
    one = call(ctx, start, args, kwargs)
    ctx.same(ident(one) if one is not None else None,
             ident(default[0]) if default else None, f'calling the layer: {name}')


def run(ctx, case):
    n, forest, turn = case
    text = sif.canvas(build(forest, itertools.count(), turn))
    path = sif.write(ctx.path('f.sif'), text)
    ctx.state(text)
    root = sif.parse(text.encode())
    a = sangfroid.Animation(path)
    before = sif.canon(a.tag)
    elements = {e.get('group'): e for e in root.iter('layer')}
    starts = [(a, root)]
    for tag in a.tag.find_all('layer'):
        starts.append((L.Layer.from_tag(tag), elements[tag['group']]))
    for i, (start, e) in enumerate(starts):
        # the others start from somewhere less interesting
        names = QUERIES if i==0 or n<=2 else BASIC
        if i>0 and e.get('type')!='group':
            names = BASIC[:4]
        for name in names:
            query(ctx, start, e, name)
    ctx.check(sif.canon(a.tag)==before, 'searching changed the document')


FIXTURES = ['bouncing.sif', 'circles.sif', 'wombats.sifz', 'pick-and-mix.sif',
            'purple-circles.sif', 'bywords/sing-like-a-girl.sif']


def fixture_cases(tier):
    for f in FIXTURES:
        root = sif.parse(sif.payload(os.path.join(REPO, 'test', f))[0])
        layers = list(root.iter('layer'))
        for t in sorted({e.get('type') for e in layers}):
            yield [f, 'type', t]
        for d in sorted({e.get('desc') for e in layers if e.get('desc') is not None}):
            yield [f, 'desc', d]


_fixture = {}


def fixture_run(ctx, case):
    f, key, value = case
    if f not in _fixture:
        path = os.path.join(REPO, 'test', f)
        a = sangfroid.Animation(path)
        root = sif.parse(sif.payload(path)[0])
        _fixture[f] = (a, a.tag.find_all('layer'), list(root.iter('layer')))
    a, tags, layers = _fixture[f]
    number = {id(t): i for i, t in enumerate(tags)}
    wanted = [i for i, e in enumerate(layers) if e.get(key)==value]
    ctx.step()
    ctx.state(case)
    ctx.same([number[id(x.tag)] for x in a.find_all(**{key: value})], wanted, 'find_all')
    ctx.same(number[id(a.find(**{key: value}).tag)], wanted[0], 'find')
    if key=='type':
        cls = type(a.find(type=value))
        ctx.same([number[id(x.tag)] for x in a.find_all(cls)], wanted, 'find_all by class')


def error_cases(tier):
    yield from ['two', 'type-twice', 'class-twice', 'attrs-twice', 'number', 'none', 'list',
                'other-class']


def error_run(ctx, case):
    path = sif.write(ctx.path('e.sif'), sif.canvas(editing.circle('c')))
    a = sangfroid.Animation(path)
    attempt = {
            'two': lambda f: f('circle', 'group'),
            'type-twice': lambda f: f('circle', type='group'),
            'class-twice': lambda f: f(L.Circle, type='circle'),
            'attrs-twice': lambda f: f(desc='c', attrs={'desc': 'c'}),
            'number': lambda f: f(3),
            'none': lambda f: f(None),
            'list': lambda f: f(['circle']),
            'other-class': None,
            }[case]
    if attempt is None:
        return
    for f in (a.find_all, a.find, a):
        ctx.step()
        ctx.state(case)
        try:
            attempt(f)
            ok = False
        except (ValueError, TypeError):
            ok = True
        ctx.check(ok, f'{case}: accepted')


# --------------------------------------------------------------
# Bigger trees, of plain shapes

def shape_cases(tier):
    for n in (5, 6, 7, 8, 9, 10, 11, 12, 20, 40):
        for shape in ('wide', 'deep', 'comb', 'groups'):
            if shape in ('deep', 'comb') and n>12:
                continue
            yield [shape, n]


def shape_run(ctx, case):
    shape, n = case
    if shape=='wide':
        forest = tuple(('cglb'[i%4], ()) for i in range(n))
    elif shape=='groups':
        forest = tuple(('g', tuple(('clb'[j%3], ()) for j in range(i%5))) for i in range(n))
    else:
        forest = (('c', ()),)
        for i in range(n):
            forest = (('g', forest),) if shape=='deep' else (('l', ()), ('g', forest), ('b', ()))
    text = sif.canvas(build(forest, itertools.count()))
    a = sangfroid.Animation(sif.write(ctx.path('f.sif'), text))
    root = sif.parse(text.encode())
    elements = {e.get('group'): e for e in root.iter('layer')}
    ctx.state(case)
    query_all = [(a, root)]+[(L.Layer.from_tag(tag), elements[tag['group']]) for tag in a.tag.find_all('layer')]
    for start, e in query_all:
        if e is root or e.get('type')=='group':
            for name in BASIC:
                query(ctx, start, e, name)


# --------------------------------------------------------------
# Every type of layer, by every class

def every():
    return sorted({c.__name__: c for c in L.Layer.handles_type.handlers.values()}.items())


def class_cases(tier):
    for name, _ in every():
        yield name
    yield from ['Layer', 'own', 'own scale']


def class_run(ctx, case):
    """A search by class finds the layers which are instances of that class."""
    handlers = dict(L.Layer.handles_type.handlers)
    types = dict(handlers)
    own = None
    try:
        if case=='Layer':
            cls = L.Layer
        elif case in ('own', 'own scale'):
            # the user can have classes of layer as well
            cls = base = L.Circle if case=='own' else L.Scale
            own = type('Wombat', (base,), {})
            L.Layer.handles_type('wombat')(own)
            types['wombat'] = own
        else:
            cls = dict(every())[case]
        names = sorted(types)
        inner = ''.join(f'<layer type="{n}" desc="in {n}"/>' for n in names)
        text = sif.canvas(''.join(f'<layer type="{n}" desc="{n}"/>' for n in names)+
                          f'<layer type="group" desc="holder"><param name="canvas"><canvas>{inner}</canvas></param></layer>')
        a = sangfroid.Animation(sif.write(ctx.path('classes.sif'), text))
        for wanted_class in [cls]+([own] if own else []):
            top = [n for n in names if issubclass(types[n], wanted_class)]
            holder = ['holder'] if issubclass(types['group'], wanted_class) else []
            for f, wanted in ((lambda **k: a.find_all(wanted_class, **k), top+holder),
                              (lambda **k: a.find_all(type=wanted_class, **k), top+holder)):
                ctx.step()
                ctx.same([x.desc for x in f(recursive=False)], wanted, f'{wanted_class.__name__}, not recursive')
                ctx.same([x.desc for x in f()], wanted+[f'in {n}' for n in top], wanted_class.__name__)
            ctx.same(a.find(wanted_class).desc, (top+holder)[0], f'find {wanted_class.__name__}')
            ctx.same([x.desc for x in a.find(desc='holder').find_all(wanted_class)], [f'in {n}' for n in top], f'{wanted_class.__name__} in a group')
        ctx.state(case)
    finally:
        L.Layer.handles_type.handlers.clear()
        L.Layer.handles_type.handlers.update(handlers)


UNITS = [
        Unit('classes', class_cases, class_run),
        Unit('shapes', shape_cases, shape_run),
        Unit('errors', error_cases, error_run),
        Unit('fixtures', fixture_cases, fixture_run),
        Unit('trees', cases, run),
        ]
