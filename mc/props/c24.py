"""
C24: what a layer says about itself is what the file says about it.
"""
import glob
import itertools
import os

import sangfroid
import sangfroid.layer
import sangfroid.value as v
from mc import sif, editing
from mc.core import Unit, sequences, REPO, periodic, walks
from mc.props.c15 import types as layer_types, class_of

BOUNDS = {
        'quick': 'all histories of <=3 of 16 settings of the description and flags, of layers which began with each of 36 '
            'combinations of them, in a document, in a group, and new; every param of every layer of each fixture, by every accessor; '
            'layers of up to 65 params, nested up to 30 deep, up to 9 just like one another, and with descriptions of up to 5000 characters; '
            'also histories of 7 with a period of <=2, and of 30 in which each setting follows each',
        'thorough': 'histories of <=4 for some, and <=3 of every layer of a nested document in turn',
        }
ASSUMPTIONS = ['flags in a file are "true" or "false", or missing']

ACTIVE = [None, 'true', 'false']
EXCLUDED = [None, 'true', 'false']
DESC = [None, '', 'plain', 'a "b" & <c>']
OPS = [
        ['active', True], ['active', False], ['active', 1], ['active', 0],
        ['exclude_from_rendering', True], ['exclude_from_rendering', False],
        ['desc', None], ['desc', ''], ['desc', 'Someone'], ['desc', 'None'], ['desc', '"\'<>&'], ['desc', 'é\n\t '],
        ['type', None], ['tag', None], ['reload', None], ['move', None],
        ]


def starts():
    for i, j, k in itertools.product(range(len(ACTIVE)), range(len(EXCLUDED)), range(len(DESC))):
        yield [i, j, k]


def flag_cases(tier):
    for start in starts():
        for place in ('circle', 'group'):
            for ops in sequences(OPS, 2):
                yield [start, place, ops]
    for start in ([0, 0, 0], [2, 1, 3]):
        for place in ('circle', 'group'):
            for ops in sequences(OPS, 4 if tier=='thorough' else 3, shortest=3):
                yield [start, place, ops]
    for ops in [*periodic(OPS, 7), *walks(OPS, 30)]:
        for kind in ('circle', 'group'):
            yield [[2, 1, 3], kind, ops]
    for ops in sequences(OPS, 2):
        yield ['new', 'circle', ops]
        yield ['new', 'group', ops]


def attrs_of(start):
    i, j, k = start
    result = {}
    for name, x in (('active', ACTIVE[i]), ('exclude_from_rendering', EXCLUDED[j]), ('desc', DESC[k])):
        if x is not None:
            result[name] = x
    return result


def flag_document(start, kind):
    attrs = ''.join(f' {n}="{sif.escape(x)}"' for n, x in attrs_of(start).items())
    # a layer inside it with other ideas
    inside = ('<param name="canvas"><canvas><layer type="circle" group="in" active="false" exclude_from_rendering="true" desc="inside">'
              '<param name="radius"><real value="1.0"/></param></layer></canvas></param>')
    return sif.canvas(
            '<layer type="circle" group="under" active="true" desc="under"/>\n'
            f'<layer type="{kind}" version="0.3"{attrs} group="X">'
            '<param name="amount"><real value="0.5"/></param>'
            f'{inside if kind=="group" else ""}</layer>\n'
            '<layer type="group" group="over" desc="over"><param name="canvas"><canvas/></param></layer>\n')


def flag_run(ctx, case):
    start, kind, ops = case
    if start=='new':
        a = sangfroid.Animation(sif.write(ctx.path('f.sif'), sif.canvas(
            '<layer type="circle" group="under" active="true" desc="under"/>\n'
            '<layer type="group" group="over" desc="over"><param name="canvas"><canvas/></param></layer>\n')))
        layer = getattr(sangfroid.layer, kind.title())()
        layer.tag['group'] = 'X'
        a[0].append(layer)
        model = dict(active='true', exclude_from_rendering='false', desc=None)
        version = float(layer.tag['version'])
    else:
        a = sangfroid.Animation(sif.write(ctx.path('f.sif'), flag_document(start, kind)))
        layer = a[1]
        model = dict(active=None, exclude_from_rendering=None, desc=None) | attrs_of(start)
        version = 0.3

    def others():
        root = sif.parse(str(a.tag).encode('utf-8'))
        for e in root.iter('layer'):
            if e.get('group')=='X':
                for n in ('active', 'exclude_from_rendering', 'desc'):
                    e.attrib.pop(n, None)
        # wherever it is
        return sorted(map(repr, sif.flat(sif.canon_element(root)).values()))

    before = others()
    for op, x in ops:
        ctx.step()
        ctx.note(op, x)
        if op=='reload':
            a.save(ctx.path('f2.sif'))
            a = sangfroid.Animation(ctx.path('f2.sif'))
            layer = find(a)
        elif op=='move':
            over = [l for l in a if l.tag['group']=='over'][0]
            over.append(layer)
        elif op=='type':
            try:
                layer.type_ = 'text'
                ctx.check(False, 'the type could be set')
            except ValueError:
                pass
        elif op=='tag':
            try:
                layer.tag = a.tag
                ctx.check(False, 'the tag could be set')
            except (KeyError, AttributeError):
                pass
        else:
            setattr(layer, op, x)
            if op=='desc':
                model[op] = x
            else:
                model[op] = 'true' if x else 'false'

    ctx.state(start, kind, sorted((k, x or '-') for k, x in model.items()))
    for h in (layer, find(a)):
        ctx.same(h.active, model['active']!='false', 'active')
        ctx.same(h.exclude_from_rendering, model['exclude_from_rendering']=='true', 'exclude_from_rendering')
        ctx.same(h.desc, model['desc'], 'desc')
        ctx.same(h.type_, kind, 'type_')
        ctx.same(h.version, version, 'version')
        ctx.check(h.tag is layer.tag, 'tag')
        ctx.check(isinstance(h, getattr(sangfroid.layer, kind.title())), 'class')
    a.save(ctx.path('f3.sif'))
    root = sif.parse(sif.payload(ctx.path('f3.sif'))[0])
    e = [e for e in root.iter('layer') if e.get('group')=='X']
    ctx.same(len(e), 1, 'layers in the file')
    for n, x in model.items():
        ctx.same(e[0].get(n), x, f'{n} in the file')
    ctx.same(e[0].get('type'), kind, 'type in the file')
    ctx.same(others(), before, 'everything else')


def find(a):
    for l in a.find_all(True):
        if l.tag['group']=='X':
            return l


# --------------------------------------------------------------

def fixtures():
    result = []
    for pattern in ('test/*.sif', 'test/*.sifz', 'test/bywords/*.sif', 'docs/**/*.sif'):
        result += glob.glob(os.path.join(REPO, pattern), recursive=True)
    return sorted(result)


def own_params(e):
    return [p for p in e.findall('param')]


def param_cases(tier):
    for path in fixtures():
        root = sif.parse(sif.payload(path)[0])
        for i, e in enumerate(root.iter('layer')):
            if any(len(p)!=1 for p in own_params(e)):
                # the index of a duplicate layer, which the library says it doesn't handle
                continue
            yield [os.path.relpath(path, REPO), i]


_cache = {}


def param_run(ctx, case):
    """A layer is a mapping of its params."""
    name, i = case
    if name not in _cache:
        path = os.path.join(REPO, name)
        a = sangfroid.Animation(path)
        _cache[name] = (a, a.find_all(True), list(sif.parse(sif.payload(path)[0]).iter('layer')))
    a, layers, elements = _cache[name]
    ctx.same(len(layers), len(elements), 'number of layers')
    layer, e = layers[i], elements[i]
    wanted = [p.get('name') for p in own_params(e)]
    ctx.step()
    ctx.state(name, i)
    ctx.same(list(layer.keys()), list(dict.fromkeys(wanted)), 'keys')
    ctx.same([k for k, _ in layer.items()], list(layer.keys()), 'items')
    ctx.same(len(layer.values()), len(layer.keys()), 'values')
    items = dict(layer.items())
    for p in own_params(e):
        n = p.get('name')
        child = p[0]
        kind = child.get('type') if child.tag=='animated' else child.tag
        found = layer[n]
        ctx.check(n in layer, n, 'should be in the layer')
        for x in (found, items[n]):
            ctx.check(isinstance(x, v.Value), n, 'should be a value')
            ctx.same(sif.canon(x.tag), sif.canon_element(child), n)
            ctx.same(x.is_animated, child.tag=='animated', f'{n}: is_animated')
            ctx.same(x.our_type if isinstance(x.our_type, str) else kind, kind, f'{n}: type')
    anywhere = {p.get('name') for p in e.iter('param')}
    for n in ('wombat', '', 'Amount', ' amount', 'type_', 'desc', 'active'):
        if n in anywhere:
            continue
        ctx.check(n not in layer, repr(n), 'should not be in the layer')
        for f in (lambda: layer[n], lambda: layer.__setitem__(n, 1.0)):
            try:
                f()
            except KeyError:
                continue
            ctx.check(False, repr(n), 'should have raised KeyError')
    ctx.same(layer.desc, e.get('desc'), 'desc')
    ctx.same(layer.active, e.get('active')!='false', 'active')
    ctx.same(layer.exclude_from_rendering, e.get('exclude_from_rendering')=='true', 'exclude_from_rendering')
    if e.get('version') is not None:
        ctx.same(layer.version, float(e.get('version')), 'version')
    for n in ('active', 'desc'):
        ctx.check(sif.canon(layer.tag)==sif.canon_element(e), 'the tag changed')
    # and its place
    up = next(e.iterancestors('layer'), None)
    parent = layer.parent
    ctx.same(parent is None, up is None, 'whether it has a parent')
    if up is not None:
        ctx.check(parent.tag is layers[elements.index(up)].tag, 'parent')
    ctx.same(layer.tag_depth, len(list(e.iterancestors('layer'))), 'depth')
    if e.get('desc'):
        ctx.check(repr(e.get('desc')) in repr(layer), 'repr should have the description:', repr(layer))


# --------------------------------------------------------------

def nested_cases(tier):
    ids = list(editing.PARENT)
    for id_ in ids:
        for ops in sequences([o for o in OPS if o[0] in ('active', 'desc', 'exclude_from_rendering')],
                             3 if tier=='thorough' else 2):
            yield [id_, ops]


def nested_run(ctx, case):
    """In a document where layers are inside each other, only the one layer changes."""
    id_, ops = case
    a = sangfroid.Animation(sif.write(ctx.path('n.sif'), editing.document()))

    def get():
        return [l for l in a.find_all(True) if l.tag['group']==id_][0]

    root = sif.parse(editing.document().encode('utf-8'))
    mine = [e for e in root.iter('layer') if e.get('group')==id_][0]
    for op, x in ops:
        ctx.step()
        setattr(get(), op, x)
        if op=='desc':
            if x is None:
                mine.attrib.pop('desc', None)
            else:
                mine.set('desc', x)
        else:
            mine.set(op, 'true' if x else 'false')
    wanted = sif.canon_element(root)
    ctx.state(wanted)
    a.save(ctx.path('n2.sif'))
    found = sif.canon_file(ctx.path('n2.sif'))
    ctx.check(found==wanted, 'the document:\n'+sif.diff(wanted, found))


# --------------------------------------------------------------

# what may be inside a layer besides its params
STRANGE = {
    'param': '<param name="P"><real value="1.0"/></param>',
    'another': '<param name="Q"><real value="2.0"/></param>',
    'wrapped': '<wrapper><param name="W"><real value="3.0"/></param></wrapper>',
    'comment': '<!-- <param name="C"><real value="4.0"/></param> -->',
    'canvas': '<param name="canvas"><canvas><layer type="circle" group="in"><param name="I"><real value="5.0"/></param>'
              '</layer></canvas></param>',
    'string': '<param name="S"><string>param name="T"</string></param>',
    'empty': '<unknown/>',
    }


def inside_cases(tier):
    for parts in itertools.permutations(sorted(STRANGE), 3):
        for kind in ('circle', 'group', 'rectangle'):
            yield [kind, list(parts)]
    if tier=='thorough':
        for parts in itertools.permutations(sorted(STRANGE), 5):
            yield ['group', list(parts)]


def inside_run(ctx, case):
    """The params of a layer are those straight inside it."""
    kind, parts = case
    text = sif.canvas(
            '<layer type="circle" group="under"><param name="U"><real value="9.0"/></param></layer>'
            f'<layer type="{kind}" group="X">{"".join(STRANGE[p] for p in parts)}</layer>')
    a = sangfroid.Animation(sif.write(ctx.path('i.sif'), text))
    layer = find(a)
    e = [e for e in sif.parse(text.encode()).iter('layer') if e.get('group')=='X'][0]
    before = sif.canon(a.tag)
    wanted = {p.get('name'): sif.canon_element(p[0]) for p in own_params(e)}
    ctx.step()
    ctx.state(case)
    ctx.same(list(layer.keys()), list(wanted), 'keys')
    ctx.same([k for k, _ in layer.items()], list(wanted), 'items')
    ctx.same([sif.canon(x.tag) for _, x in layer.items()], list(wanted.values()), 'items')
    ctx.same([sif.canon(x.tag) for x in layer.values()], list(wanted.values()), 'values')
    for n, x in wanted.items():
        ctx.check(n in layer, n, 'should be in the layer')
        ctx.same(sif.canon(layer[n].tag), x, n)
    for n in ('C', 'T', 'U', 'Z'):
        ctx.check(n not in layer, n, 'should not be in the layer')
        for f in (lambda: layer[n], lambda: layer.__setitem__(n, 1.0)):
            try:
                f()
            except KeyError:
                continue
            ctx.check(False, repr(n), 'should have raised KeyError')
    ctx.check(sif.canon(a.tag)==before, 'something changed:\n'+sif.diff(before, sif.canon(a.tag)))


# --------------------------------------------------------------

NEW = ['G', 'H', 'K', 'C']


def place_cases(tier):
    moves = [[x, y] for x in NEW for y in NEW[:3]+['a', 'R'] if x!=y]
    for ops in sequences(moves, 4 if tier=='thorough' else 3, shortest=0):
        yield ops


def place_run(ctx, case):
    """Where layers are, whether they're in a document or not."""
    a = sangfroid.Animation(sif.write(ctx.path('p.sif'), sif.canvas(
        '<layer type="group" group="R"><param name="canvas"><canvas/></param></layer>')))
    layers = {n: sangfroid.layer.Group() if n!='C' else sangfroid.layer.Circle() for n in NEW}
    layers['R'] = a[0]
    layers['a'] = a
    above = {n: None for n in NEW}
    above['R'] = 'a'

    def line(n):
        result = []
        while above.get(n) is not None:
            n = above[n]
            result.append(n)
        return result

    for x, y in case:
        ctx.step()
        ctx.note(x, 'into', y)
        if x==y or x in line(y):
            try:
                layers[y].append(layers[x])
            except Exception:
                pass
            else:
                ctx.check(False, 'a group was put inside itself')
        else:
            layers[y].append(layers[x])
            above[x] = y
        for n in NEW+['R']:
            up = [m for m in line(n) if m!='a']
            ctx.same(layers[n].tag_depth, len(up), f'depth of {n}')
            parent = layers[n].parent
            if up:
                ctx.check(parent is not None and parent.tag is layers[up[0]].tag, f'parent of {n}')
            else:
                ctx.check(parent is None, f'{n} should have no parent')
    if not case:
        for n in NEW:
            ctx.same(layers[n].tag_depth, 0, f'depth of {n}')
            ctx.check(layers[n].parent is None, f'{n} should have no parent')
    ctx.state(sorted((n, p or '-') for n, p in above.items()))


# --------------------------------------------------------------

SIZES = [2, 3, 5, 8, 9, 10, 11, 16, 17, 20, 33, 40, 65]


def size_cases(tier):
    for n in SIZES+([100, 129, 257] if tier=='thorough' else []):
        for order in ('up', 'down'):
            yield ['params', n, order]
    for n in list(range(1, 15))+[20, 30]:
        yield ['depth', n, None]
    for n in (2, 3, 5, 9):
        for k in range(n):
            for op, x in (('desc', 'changed'), ('desc', None), ('active', False), ('exclude_from_rendering', True)):
                yield ['alike', n, [k, op, x]]
    for n in [1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 40, 63, 64, 65, 79, 80, 100, 127, 128, 129, 255, 256, 257, 1000, 5000]:
        for c in ('x', 'é', ' ', '\n', '<'):
            yield ['long', n, c]


def size_run(ctx, case):
    """Layers with many params, nested deeply, or just like one another."""
    kind, n, x = case
    ctx.step()
    ctx.state(case)
    if kind=='params':
        names = [f'p{i}' for i in (range(n) if x=='up' else range(n-1, -1, -1))]
        content = ''.join(f'<param name="{name}"><real value="{i}.5"/></param>' for i, name in enumerate(names))
        a = sangfroid.Animation(sif.write(ctx.path('s.sif'), sif.canvas(f'<layer type="circle" group="X">{content}</layer>')))
        layer = a[0]
        values = [i+0.5 for i in range(n)]

        def look():
            ctx.same(list(layer.keys()), names, 'keys')
            ctx.same([(k, float(y.value)) for k, y in layer.items()], list(zip(names, values)), 'items')
            ctx.same([float(y.value) for y in layer.values()], values, 'values')
            ctx.same([float(layer[k].value) for k in names], values, 'by name')
            ctx.check(f'p{n}' not in layer and 'p' not in layer, 'another name should not be in the layer')

        look()
        for i in sorted({0, n//2, n-2, n-1}):
            layer[names[i]] = 100.25+i
            values[i] = 100.25+i
            look()
        a.save(ctx.path('s2.sif'))
        layer = sangfroid.Animation(ctx.path('s2.sif'))[0]
        look()
    elif kind=='depth':
        text = '<layer type="circle" group="0" desc="0"/>'
        for i in range(1, n+1):
            text = f'<layer type="group" group="{i}" desc="{i}"><param name="canvas"><canvas>{text}</canvas></param></layer>'
        a = sangfroid.Animation(sif.write(ctx.path('s.sif'), sif.canvas(text)))
        layer = a[0]
        chain = [layer]
        for _ in range(n):
            layer = layer[0]
            chain.append(layer)
        for i, l in enumerate(chain):
            ctx.same(l.desc, str(n-i), 'desc')
            ctx.same(l.tag_depth, i, 'depth')
            ctx.check((l.parent is None) if i==0 else l.parent.tag is chain[i-1].tag, 'parent at depth', i)
        for i, l in enumerate(chain):
            l.desc = f'new {n-i}'
            l.active = False
            for j, m in enumerate(chain):
                ctx.same(m.desc, f'new {n-j}' if j<=i else str(n-j), f'desc of {j} after setting {i}')
                ctx.same(m.active, j>i, f'active of {j} after setting {i}')
    elif kind=='alike':
        k, op, y = x
        same = '<layer type="circle" desc="same" active="true" group="Z"><param name="r"><real value="1.0"/></param></layer>'
        group = f'<layer type="group" desc="same" active="true" group="Z"><param name="canvas"><canvas>{same*n}</canvas></param></layer>'
        a = sangfroid.Animation(sif.write(ctx.path('s.sif'), sif.canvas(same*n+group*n)))
        root = sif.parse(sif.payload(ctx.path('s.sif'))[0])
        top = [e for e in root if e.tag=='layer']
        ctx.same(len(a), len(top), 'layers')
        # file order is the reverse of index order
        for where in ('top', 'group', 'inside'):
            if where=='top':
                layer, e = a[2*n-1-k], top[k]
            elif where=='group':
                layer, e = a[n-1-k], top[n+k]
            else:
                g = top[n+k]
                layer, e = a[n-1-k][k], [m for m in g.iter('layer') if m is not g][n-1-k]
                ctx.check(layer.parent.tag is a[n-1-k].tag, 'parent')
                ctx.same(layer.tag_depth, 1, 'depth')
            setattr(layer, op, y)
            name, text = op, (y if op=='desc' else 'true' if y else 'false')
            if text is None:
                e.attrib.pop(name, None)
            else:
                e.set(name, text)
            a.save(ctx.path('s2.sif'))
            wanted, found = sif.canon_element(root), sif.canon_file(ctx.path('s2.sif'))
            ctx.check(wanted==found, f'after setting {op} of layer {k} ({where}):\n'+sif.diff(wanted, found))
    else:
        text = 'a'+x*n+'b'
        a = sangfroid.Animation(sif.write(ctx.path('s.sif'), sif.canvas(
            f'<layer type="circle" desc="{sif.escape(text)}"/><layer type="circle"/>')))
        a[0].desc = text
        for l in a:
            ctx.same(l.desc, text, 'desc')
        a.save(ctx.path('s2.sif'))
        for l in sangfroid.Animation(ctx.path('s2.sif')):
            ctx.same(l.desc, text, 'desc, after saving')


# --------------------------------------------------------------

VERSIONS = ['0.1', '0.2', '0.3', '0.25', '0.05', '1', '1.0', '1.05', '1.25', '2', '10', '0.15', '0.125', '3.14159', '12.5', '0', '100', '0.10']


HAVE_TYPE_PARAM = {'blur', 'shade', 'bevel', 'halftone3', 'halftone2', 'spherize'}


def version_cases(tier):
    from mc.props.c15 import types
    for t in types():
        yield [t]


def version_run(ctx, case):
    """Each type of layer, with each version and each type spelt in each way."""
    t, = case
    name = t
    for i, version in enumerate(VERSIONS):
        for spelt in (name, name.upper(), name.title(), '_'.join(name)):
            text = sif.canvas(f'<layer type="{spelt}" version="{version}"/>')
            a = sangfroid.Animation(sif.write(ctx.path('v.sif'), text))
            layer = a[0]
            ctx.step()
            ctx.same(layer.version, float(version), f'{t} version {version}')
            # some have a param of that name instead
            own = t not in HAVE_TYPE_PARAM
            if own:
                ctx.same(layer.type_, spelt, f'type of {t}')
            ctx.same((layer.desc, layer.active, layer.exclude_from_rendering), (None, True, False), 'defaults')
            ctx.same(list(layer.keys()), [], 'keys')
            layer.version = float(version)+1
            ctx.same(layer.version, float(version)+1, 'version')
            ctx.same(float(layer.tag['version']), float(version)+1, 'version in the tag')
            ctx.same(layer.tag['type'], spelt, 'type in the tag')
            for bad in ('circle', spelt) if own else ():
                try:
                    layer.type_ = bad
                    ok = False
                except ValueError:
                    ok = True
                ctx.check(ok, 'the type was changed')
            ctx.state(t, version, spelt)


UNITS = [
        Unit('versions', version_cases, version_run),
        Unit('sizes', size_cases, size_run),
        Unit('inside', inside_cases, inside_run),
        Unit('places', place_cases, place_run),
        Unit('params', param_cases, param_run),
        Unit('nested', nested_cases, nested_run),
        Unit('flags', flag_cases, flag_run),
        ]
