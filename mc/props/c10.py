"""
C10: the layers of a group are an ordered list, and each is in one place.
"""
import itertools

import sangfroid
from mc import sif, editing
from mc.core import Unit, sequences, periodic, walks

BOUNDS = {
        'quick': 'all histories of <=2 of 100 moves (append and insert of each of 6 layers, in each of 4 groups, '
            'at each index), and of 3 of 24 moves, from two starting trees; every observation after each; groups of up to 10 '
            'layers (and 16, and 25), all alike or not, up to 7 deep, with every move of a layer within them or from elsewhere; histories of <=3 moves of groups just like one another; '
            'every two kinds of group (inactive, excluded, locked, ...) one in the other, with 8 moves; also histories of 7 with a period of <=2, and of 30 in which each move follows each',
        'thorough': 'all histories of 3 of 100 moves and of 4 of 24',
        }
ASSUMPTIONS = ['insert() at the very end is refused with IndexError; the '
               'documented way to add there is append()']

TREES = {  # in the order the API gives them
        'nested': {'root': ['A', 'G', 'D'], 'G': ['B', 'H'], 'H': ['C'], 'E': []},
        'flat': {'root': ['E', 'A', 'B', 'G', 'C', 'H', 'D'], 'E': [], 'G': [], 'H': []},
        }
GROUPS = ['root', 'G', 'H', 'E']
LEAVES = {'A': 'circle', 'B': 'text', 'C': 'rectangle', 'D': 'star'}


def make(tree, id_):
    if id_ in LEAVES:
        return editing.layer(LEAVES[id_], id_)
    # the file has them back to front
    inside = '<!-- in {} -->\n'.format(id_)+'\n'.join(make(tree, c) for c in reversed(tree.get(id_, ())))
    return editing.layer('group', id_,
                         editing.param('z_depth', editing.k('real')),
                         editing.param('canvas', f'<canvas>{inside}</canvas>'),
                         editing.param('amount', editing.k('real')))


def text(tree):
    return sif.canvas('<!-- first -->'+''.join(make(tree, c) for c in reversed(tree['root'])))


def everything():
    for id_ in 'ABGHN':
        for to in GROUPS[:3]:
            yield ['append', id_, to]
            for index in (-3, -1, 0, 1, 4):
                yield ['insert', id_, to, index]
    for id_ in 'ACGN':
        yield ['append', id_, 'E']
        yield ['insert', id_, 'E', 0]
    yield ['reopen']
    yield ['append', 'A', 'B']


def core():
    yield from [
            ['append', 'A', 'root'], ['append', 'A', 'G'], ['append', 'B', 'root'],
            ['append', 'G', 'root'], ['append', 'G', 'H'], ['append', 'H', 'root'],
            ['append', 'H', 'E'], ['append', 'N', 'root'], ['append', 'N', 'G'],
            ['append', 'C', 'E'], ['append', 'E', 'H'], ['append', 'G', 'G'],
            ['insert', 'A', 'root', 0], ['insert', 'A', 'root', 1], ['insert', 'A', 'root', -1],
            ['insert', 'B', 'G', 0], ['insert', 'B', 'G', 1], ['insert', 'N', 'G', 1],
            ['insert', 'H', 'root', 1], ['insert', 'G', 'H', 0], ['insert', 'D', 'H', 0],
            ['insert', 'N', 'root', -2], ['reopen'], ['append', 'M', 'N'],
            ]


def cases(tier):
    deep = tier=='thorough'
    for start in TREES:
        for ops in sequences(everything(), 1):
            yield [start, ops]
    for ops in sequences(everything(), 2, 2):
        yield ['nested', ops]
    for ops in sequences(core(), 3, 2):
        yield ['nested', ops]
    for ops in periodic(core(), 7):
        yield ['nested', ops]
    for ops in walks(core(), 30):
        yield ['nested', ops]
    if deep:
        for ops in sequences(core(), 4, 4):
            yield ['nested', ops]
        for ops in sequences(everything(), 2, 2):
            yield ['flat', ops]
        for ops in sequences(core(), 3, 2):
            yield ['flat', ops]


class World:
    def __init__(self, ctx, start):
        self.ctx = ctx
        self.path = sif.write(ctx.path('o.sif'), text(TREES[start]))
        self.tree = {key: list(v) for key, v in TREES[start].items()}
        self.open()
        # M and N are layers which start off outside the document
        for id_, cls in (('N', sangfroid.layer.Group), ('M', sangfroid.layer.Circle)):
            if id_ not in self.layers:
                self.layers[id_] = cls()
                self.layers[id_].desc = id_
        if start=='nested':
            # and so does E
            self.layers['E'] = sangfroid.layer.Group()
            self.layers['E'].desc = 'E'
        self.tree['N'] = []

    def open(self):
        self.animation = sangfroid.Animation(self.path)
        outside = {id_: layer for id_, layer in getattr(self, 'layers', {}).items()
                   if id_ not in self.inside('root')}
        self.layers = {**outside, 'root': self.animation}
        for tag in self.animation.tag.find_all('layer'):
            self.layers[tag['desc']] = sangfroid.layer.Layer.from_tag(tag)

    def inside(self, id_):
        result = []
        for c in self.tree.get(id_, ()):
            result.append(c)
            result.extend(self.inside(c))
        return result

    def move(self, id_, to, index):
        self.ctx.step()
        target, layer = self.layers[to], self.layers[id_]
        contents = self.tree.get(to)
        if contents is None:
            wanted = 'NotImplementedError' if index is None else 'AttributeError'
        elif to==id_ or to in self.inside(id_):
            wanted = 'ValueError'
        elif index is not None and not -len(contents)<=index<len(contents):
            wanted = 'IndexError'
        else:
            wanted = 'ok'

        if wanted!='ok':
            before = sif.canon(self.animation.tag), sif.canon(layer.tag)
        try:
            if index is None:
                target.append(layer)
            else:
                target.insert(index, layer)
            got = 'ok'
        except (NotImplementedError, ValueError, IndexError, AttributeError) as e:
            got = type(e).__name__
        self.ctx.same(got, wanted, f'moving {id_} into {to} at {index}')
        if wanted!='ok':
            after = sif.canon(self.animation.tag), sif.canon(layer.tag)
            self.ctx.check(before==after, 'a refused move changed something')
            return

        if index is not None:
            there = contents[index]
            if there==id_:
                return
        for others in self.tree.values():
            if id_ in others:
                others.remove(id_)
        if index is None:
            contents.append(id_)
        else:
            contents.insert(contents.index(there), id_)

    def check(self, animation):
        ctx = self.ctx
        ctx.same([c.desc for c in animation.children], self.tree['root'], 'children')
        self.check_group('root', animation, 0, None)

    def check_group(self, id_, layer, depth, parent):
        ctx = self.ctx
        wanted = self.tree[id_]
        ctx.same([c.desc for c in layer.children], wanted, f'children of {id_}')
        ctx.same([c.desc for c in layer], wanted, f'iterating over {id_}')
        ctx.same(len(layer), len(wanted), f'length of {id_}')
        n = len(wanted)
        for i in range(-n, n):
            ctx.same(layer[i].desc, wanted[i], f'{id_}[{i}]')
        for i in (n, -n-1):
            try:
                layer[i]
                ok = False
            except IndexError:
                ok = True
            ctx.check(ok, f'{id_}[{i}] should not exist')

        ctx.same([c.desc for c in layer.find_all(True, recursive=False)],
                 list(reversed(wanted)), f'find_all in {id_}')

        # known: this goes down two levels, and no further
        found = [c.desc for c in layer.descendants]
        if found!=self.inside(id_):
            two = []
            for c in wanted:
                two.append(c)
                two.extend(self.tree.get(c, ()))
            ctx.same(found, two, f'descendants of {id_}')
            ctx.known_finding('descendants-two-levels')

        for c in wanted:
            child = layer[wanted.index(c)]
            ctx.same(child.tag_depth, depth, f'depth of {c}')
            up = child.parent
            ctx.same(up.desc if up is not None else None,
                     None if id_=='root' else id_, f'parent of {c}')
            if c in self.tree:
                self.check_group(c, child, depth+1, id_)
            else:
                ctx.same([list(child.children), len(child), list(child)], [[], 0, []],
                         f'children of {c}')


def order_in(e):
    holder = e if e.tag=='canvas' else [
            p for p in e.findall('param') if p.get('name')=='canvas'][0][0]
    return [c for c in holder if c.tag=='layer'], \
           [c.text for c in holder if not isinstance(c.tag, str)]


_seen = set() # what's in a file depends only on its bytes


def run(ctx, case):
    start, ops = case
    w = World(ctx, start)
    for op in ops:
        ctx.note(op)
        if op[0]=='reopen':
            w.animation.save()
            w.open()
        else:
            w.move(op[1], op[2], op[3] if op[0]=='insert' else None)

    ctx.state(sorted(w.tree.items()))
    w.check(w.animation)

    # things which never got into the document are all right too
    for id_ in ('E', 'N'):
        if id_ not in w.inside('root') and not any(
                id_ in v for v in w.tree.values()):
            ctx.same([c.desc for c in w.layers[id_]], w.tree[id_], f'children of {id_}')
            ctx.same(w.layers[id_].tag_depth, 0, f'depth of {id_}')

    w.animation.save()
    data = sif.payload(w.path)[0]
    key = (start, data, repr(sorted(w.tree.items())))
    if key in _seen:
        return
    root = sif.parse(data)

    def walk(id_, e):
        layers, comments = order_in(e)
        ctx.same([c.get('desc') for c in layers], list(reversed(w.tree[id_])),
                 f'in the file, layers of {id_}')
        if id_!='root' and id_!='N' and not (start=='nested' and id_=='E'):
            ctx.same(comments, [f' in {id_} '], f'comments in {id_}')
        for c in layers:
            if c.get('desc') in w.tree:
                walk(c.get('desc'), c)
    walk('root', root)
    w.check(sangfroid.Animation(w.path))
    _seen.add(key)


def bad_cases(tier):
    for what in ('string', 'none', 'tag', 'number', 'list', 'dict', 'value', 'class'):
        for how in ('append', 'insert'):
            for to in ('root', 'G', 'H'):
                yield [what, how, to]


def bad_run(ctx, case):
    """Things which aren't layers can't be put in groups."""
    what, how, to = case
    w = World(ctx, 'nested')
    thing = {'string': 'circle', 'none': None, 'tag': w.layers['A'].tag, 'number': 0,
             'list': [w.layers['A']], 'dict': {}, 'value': sangfroid.value.Real(1.0),
             'class': sangfroid.layer.Circle}[what]
    before = sif.canon(w.animation.tag)
    ctx.step()
    try:
        if how=='append':
            w.layers[to].append(thing)
        else:
            w.layers[to].insert(0, thing)
        ok = False
    except (TypeError, ValueError, AttributeError):
        ok = True
    ctx.check(ok, f'{how} of {what} was accepted')
    ctx.state(case)
    ctx.check(sif.canon(w.animation.tag)==before, 'changed:\n'+
              sif.diff(before, sif.canon(w.animation.tag)))


def canvas_cases(tier):
    ids = ['A', 'B', 'C', 'N', 'G', 'H', 'root', 'string', 'none', 'tag', 'value']
    for n in range(0, 4 if tier=='quick' else 5):
        for chosen in itertools.permutations(ids, n):
            for to in ('G', 'H'):
                for route in ('attr', 'item', 'value'):
                    yield [list(chosen), to, route]


def canvas_run(ctx, case):
    """Replacing everything in a group at once, in the order of the file."""
    chosen, to, route = case
    w = World(ctx, 'nested')
    junk = {'string': 'circle', 'none': None, 'tag': w.layers['A'].tag,
            'value': sangfroid.value.Real(1.0)}
    layers = [junk[c] if c in junk else w.layers[c] for c in chosen]
    group = w.layers[to]
    ctx.step()
    bad = any(c==to or c=='root' or c in junk or to in w.inside(c) for c in chosen)
    before = sif.canon(w.animation.tag)
    old = {id_: (w.layers[id_], sif.canon(w.layers[id_].tag)) for id_ in w.tree[to] if id_ not in chosen
           and not any(c in w.inside(id_) for c in chosen)}
    try:
        if route=='attr':
            group.canvas = layers
        elif route=='item':
            group['canvas'] = layers
        else:
            group.canvas.value = layers
        got = 'ok'
    except (TypeError, ValueError, AttributeError):
        got = 'refused'
    ctx.same(got, 'refused' if bad else 'ok', f'putting {chosen} in {to}')
    if bad:
        ctx.check(sif.canon(w.animation.tag)==before, 'a refused change changed something')
        w.check(w.animation)
        return
    for others in w.tree.values():
        others[:] = [c for c in others if c not in chosen]
    w.tree[to] = list(reversed(chosen))
    ctx.state(sorted(w.tree.items()))
    ctx.same([c.desc for c in group.canvas.value], chosen, 'canvas')
    w.check(w.animation)
    # what was there before is as it was, though it's nowhere now
    for id_, (layer, was) in old.items():
        ctx.check(sif.canon(layer.tag)==was, f'{id_}, which was removed, changed:\n', sif.diff(was, sif.canon(layer.tag)))
        if id_ in w.tree:
            ctx.same([c.desc for c in layer], w.tree[id_], f'children of {id_}, which was removed')
        ctx.check(layer.parent is None and layer.tag_depth==0, f'{id_} was removed, but still has a parent')
    if old:
        w.animation.save()
        w.check(sangfroid.Animation(w.path))
        for id_, (layer, was) in old.items():
            w.animation.append(layer)
            w.tree['root'].append(id_)
        w.check(w.animation)
    w.animation.save()
    w.check(sangfroid.Animation(w.path))


CLUTTER = {
        'keyframe': '<keyframe time="1s" active="true">k</keyframe>',
        'unknown': '<wombat type="circle"><layer-like desc="no"/></wombat>',
        'comment': '<!-- <layer type="circle"/> -->',
        'text': '\nsome text\n',
        }


def clutter_cases(tier):
    parts = ['A', 'B', 'G']+sorted(CLUTTER)
    for n in range(1, 5 if tier=='quick' else 6):
        for chosen in itertools.product(parts, repeat=n):
            layers = [c for c in chosen if c in 'ABG']
            if len(set(layers))!=len(layers) or not layers or len(layers)==len(chosen):
                continue
            if sum(c=='text' for c in chosen)>1 or sum(c=='comment' for c in chosen)>1:
                continue
            for where in ('root', 'group'):
                yield [list(chosen), where]


def clutter_run(ctx, case):
    """Layers with other things between them, which are no concern of ours."""
    chosen, where = case
    inside = ''.join(CLUTTER[c] if c in CLUTTER else
                     editing.layer('group', 'G', editing.param('canvas', '<canvas>'+CLUTTER['unknown']+editing.layer('star', 'I')+'</canvas>'))
                     if c=='G' else editing.layer(LEAVES[c], c) for c in chosen)
    if where=='group':
        inside = CLUTTER['keyframe']+editing.layer('group', 'outer', editing.param('canvas', f'<canvas>{inside}</canvas>'))
    layers = [c for c in reversed(chosen) if c in 'ABG']
    source = sif.canvas(inside)
    n = len(layers)
    for op in [['none'], ['append']]+[['insert', i] for i in range(-n, n)]+[['last', i] for i in range(n)]:
        path = sif.write(ctx.path('u.sif'), source)
        a = sangfroid.Animation(path)
        holder = a if where=='root' else a[0]
        ctx.step()
        wanted = list(layers)
        new = sangfroid.layer.Circle()
        new.desc = 'new'
        if op[0]=='append':
            holder.append(new)
            wanted.append('new')
        elif op[0]=='insert':
            holder.insert(op[1], new)
            wanted.insert(op[1] if op[1]>=0 else n+op[1], 'new')
        elif op[0]=='last':
            # to the end of the list, from the place it was
            holder.append(holder[op[1]])
            wanted.append(wanted.pop(op[1]))
        ctx.state(chosen, where, op)
        for again in range(2):
            holder = a if where=='root' else a[0]
            what = f'{chosen} in {where} after {op}'
            ctx.same([c.desc for c in holder.children], wanted, f'children: {what}')
            ctx.same([c.desc for c in holder], wanted, f'iterating: {what}')
            ctx.same(len(holder), len(wanted), f'length: {what}')
            ctx.same([holder[i].desc for i in range(-len(wanted), len(wanted))], wanted*2, f'indexing: {what}')
            ctx.same([c.desc for c in holder.descendants],
                     [d for c in wanted for d in ([c, 'I'] if c=='G' else [c])], f'descendants: {what}')
            ctx.same([c.desc for c in holder.find_all(True, recursive=False)],
                     list(reversed(wanted)), f'find_all: {what}')
            if again:
                break
            a.save()
            root = sif.parse(sif.payload(path)[0])
            ctx.same(sum(1 for _ in root.iter('wombat')), source.count('<wombat'), f'unknown tags: {what}')
            ctx.same(sum(1 for _ in root.iter('keyframe')), source.count('<keyframe'), f'keyframes: {what}')
            ctx.same(sum(not isinstance(e.tag, str) for e in root.iter()), source.count('<!--'), f'comments: {what}')
            a = sangfroid.Animation(path)


# --------------------------------------------------------------
# Groups of many layers, which may be just like one another

def many_cases(tier):
    for n in list(range(1, 11))+[16, 25] if tier=='quick' else range(1, 26):
        for where in ('root', 'group', 'deep'):
            for alike in (False, True):
                yield [n, where, alike]


def many_run(ctx, case):
    n, where, alike = case
    inside = '\n'.join(editing.circle('same' if alike else f'c{i}') for i in range(n))
    if where!='root':
        inside = editing.layer('group', 'g', editing.param('canvas', f'<canvas>{inside}</canvas>'))
    if where=='deep':
        for i in range(6):
            inside = editing.layer('group', f'd{i}', editing.param('canvas', f'<canvas>{inside}</canvas>'))
    other = editing.layer('group', 'other', editing.param('canvas', '<canvas>'+editing.circle('same')*2+'</canvas>'))
    text = sif.canvas(other+inside)

    ops = [['append', 'new'], ['append', 'other']]
    for i in range(-n-2, n+3):
        ops += [['insert', 'new', i], ['insert', 'other', i]]
    for j in range(n):
        ops += [['append', j]]
        if n<=8 or j in (0, 1, n//2, n-1):
            ops += [['insert', j, i] for i in range(-n, n)]
    path = ctx.path('m.sif')
    for op in ops:
        sif.write(path, text)
        a = sangfroid.Animation(path)
        holder = a
        for name in {'root': [], 'group': ['g'], 'deep': ['d5', 'd4', 'd3', 'd2', 'd1', 'd0', 'g']}[where]:
            holder = holder.find(desc=name, recursive=False)
        far = a.find(desc='other')
        own = [c for c in holder if c.desc!='other']
        if where=='root':
            tail = [c for c in holder if c.desc=='other']
        else:
            tail = []
        ctx.same(len(own), n, 'number of layers')
        # the same order as in the file, but backwards
        tags = [c.tag for c in own]+[c.tag for c in tail]
        elsewhere = [c.tag for c in far]
        if op[1]=='new':
            layer = sangfroid.layer.Circle()
            layer.desc = 'same'
        elif op[1]=='other':
            layer = far[1]
            elsewhere = elsewhere[:1]
        else:
            layer = own[op[1]]
        kept = sif.canon(layer.tag)
        wanted = list(tags)
        ctx.step()
        if op[0]=='append':
            holder.append(layer)
            wanted = [t for t in wanted if t is not layer.tag]+[layer.tag]
        else:
            index = op[2]
            if not -len(tags)<=index<len(tags):
                try:
                    holder.insert(index, layer)
                    ok = False
                except IndexError:
                    ok = True
                ctx.check(ok, f'{op}: should have been refused')
                elsewhere = [c.tag for c in far] if op[1]=='other' else elsewhere
            else:
                before = tags[index]
                holder.insert(index, layer)
                if before is not layer.tag:
                    wanted = [t for t in wanted if t is not layer.tag]
                    at = [i for i, t in enumerate(wanted) if t is before][0]
                    wanted.insert(at, layer.tag)

        def ids(layers):
            return [id(x.tag) for x in layers]

        want = [id(t) for t in wanted]
        message = f'{n} in {where}, {op}'
        ctx.same(ids(holder.children), want, 'children: '+message)
        ctx.same(ids(holder), want, 'iterating: '+message)
        ctx.same(len(holder), len(want), 'length: '+message)
        ctx.same([id(holder[i].tag) for i in range(-len(want), len(want))], want*2, 'indexing: '+message)
        ctx.same(ids(holder.find_all(True, recursive=False)), want[::-1], 'find_all: '+message)
        ctx.same(ids(far), [id(t) for t in elsewhere], 'the other group: '+message)
        ctx.check(sif.canon(layer.tag)==kept, 'the layer has changed: '+message)
        for c in holder:
            parent = c.parent
            if where=='root':
                ctx.check(parent is None, 'parent: '+message)
            else:
                ctx.check(parent.tag is holder.tag, 'parent: '+message)
        ctx.state(n, where, op)
        order = [c.desc for c in holder]
        a.save()
        root = sif.parse(sif.payload(path)[0])
        in_file = root if where=='root' else [e for e in root.iter('layer') if e.get('desc')=='g'][0].find('param/canvas')
        ctx.same([e.get('desc') for e in in_file if e.tag=='layer'][::-1], order, 'in the file: '+message)


# --------------------------------------------------------------
# Groups which are just like one another, put inside one another

SHAPES = {
        'empty': '',
        'circle': editing.circle('same'),
        'pair': editing.circle('same')*2,
        }
TWINS = 4
TWIN_OPS = [['append', i, j] for i in range(TWINS) for j in [None]+[j for j in range(TWINS)] if i!=j]+[
        ['insert', i, j] for i in range(TWINS) for j in [None]+[j for j in range(TWINS)] if i!=j]


def twin_cases(tier):
    for shape in sorted(SHAPES):
        for s in sequences(TWIN_OPS, 2 if tier=='quick' else 3):
            yield [shape, s]
        for s in sequences(TWIN_OPS[:TWINS*TWINS], 3):
            yield [shape, s]


def twin_run(ctx, case):
    shape, ops = case
    group = editing.layer('group', 'same', editing.param('canvas', f'<canvas>{SHAPES[shape]}</canvas>'))
    path = sif.write(ctx.path('t.sif'), sif.canvas(group*TWINS))
    a = sangfroid.Animation(path)
    groups = list(a)
    tree = {None: list(range(TWINS))}
    leaves = len(groups[0])
    for i, g in enumerate(groups):
        tree[i] = [f'{i}-{k}' for k in range(leaves)]
    names = {id(g.tag): i for i, g in enumerate(groups)}
    for i, g in enumerate(groups):
        for k, c in enumerate(g):
            names[id(c.tag)] = f'{i}-{k}'
    keep = [c.tag for g in groups for c in g]

    def inside(i, j):
        """Whether j is i, or is inside it."""
        return i==j or any(inside(k, j) for k in tree[i] if k in tree)

    def above(i):
        return [j for j in tree if i in tree[j]][0]

    for op, i, j in ops:
        holder = a if j is None else groups[j]
        bad = inside(i, j)
        if op=='insert' and not tree[j]:
            continue
        ctx.note(op, i, j)
        ctx.step()
        try:
            if op=='append':
                holder.append(groups[i])
            else:
                holder.insert(0, groups[i])
            worked = True
        except ValueError:
            worked = False
        ctx.same(worked, not bad, f'whether {i} can go in {j}')
        if worked:
            if op=='append':
                tree[above(i)].remove(i)
                tree[j].append(i)
            elif tree[j][0]!=i:
                tree[above(i)].remove(i)
                tree[j].insert(0, i)
        for k, g in [(None, a)]+list(enumerate(groups)):
            found = [c.tag for c in g]
            ctx.same([names[id(t)] for t in found], tree[k], f'what is in {k}')
            ctx.same([names[id(c.tag)] for c in g.children], tree[k], f'children of {k}')
            ctx.same(len(g), len(tree[k]), f'length of {k}')
            if k is not None:
                p = g.parent
                ctx.same(None if p is None else names[id(p.tag)], above(k), f'parent of {k}')
        ctx.state(shape, sorted(tree.items(), key=repr))
    path2 = ctx.path('t2.sif')
    a.save(path2)

    def shape_of(k):
        return [shape_of(c) for c in tree[k]] if k in tree else 'leaf'

    def shape_in(e):
        if e.tag=='layer' and e.get('type')!='group':
            return 'leaf'
        canvas = e if e.tag=='canvas' else e.find("param[@name='canvas']/canvas")
        return [shape_in(c) for c in canvas if c.tag=='layer'][::-1]

    ctx.same(shape_in(sif.parse(sif.payload(path2)[0])), shape_of(None), 'tree in the file')


# --------------------------------------------------------------
# Groups whose attributes are of any kind are still groups

ATTRS = {
        'plain': 'type="group" active="true"',
        'inactive': 'type="group" active="false"',
        'excluded': 'type="group" active="true" exclude_from_rendering="true"',
        'both': 'type="group" active="false" exclude_from_rendering="true"',
        'bare': 'type="group"',
        'empty': 'type="group" active="" group="" version=""',
        'locked': 'type="group" active="true" LOCK',
        'hidden': 'type="group" active="true" ZERO',
        }


def attr_xml(which, id_, content):
    attrs = ATTRS[which]
    params = ''
    if 'LOCK' in attrs:
        attrs = attrs.replace('LOCK', '')
        params += editing.param('children_lock', '<bool value="true"/>')
    if 'ZERO' in attrs:
        attrs = attrs.replace('ZERO', '')
        params += editing.param('amount', '<real value="0.0"/>')+editing.param('z_range', '<bool value="true"/>')
    return f'<layer {attrs} desc="{id_}">{params}<param name="canvas"><canvas>{content}</canvas></param></layer>'


def attr_cases(tier):
    for outer in sorted(ATTRS):
        for inner in sorted(ATTRS):
            for state in ('on', 'off', 'out'):
                yield [outer, inner, state]


def attr_run(ctx, case):
    outer, inner, state = case
    leaf = {'on': 'active="true"', 'off': 'active="false"', 'out': 'exclude_from_rendering="true"'}[state]

    def leaves(*ids):
        return ''.join(f'<layer type="circle" {leaf} desc="{i}"><param name="radius"><real value="1.0"/></param></layer>' for i in ids)
    text = sif.canvas(leaves('a')+attr_xml(outer, 'O', leaves('b', 'c')+attr_xml(inner, 'I', leaves('d', 'e'))+leaves('f'))+leaves('g'))
    for op in [[], ['append', 'a', 'O'], ['append', 'a', 'I'], ['append', 'I', 'root'], ['insert', 'O', 'root', 0], ['insert', 'a', 'I', 1], ['append', 'd', 'root'], ['append', 'O', 'I']]:
        path = sif.write(ctx.path('at.sif'), text)
        a = sangfroid.Animation(path)
        tree = {'root': ['g', 'O', 'a'], 'O': ['f', 'I', 'c', 'b'], 'I': ['e', 'd']}
        def get(id_):
            return a if id_=='root' else a.find(desc=id_)
        ctx.step()
        if op and op[1:3]==['O', 'I']:
            try:
                get('I').append(get('O'))
                ok = False
            except ValueError:
                ok = True
            ctx.check(ok, 'O was put in I')
        elif op:
            for t in tree.values():
                if op[1] in t:
                    t.remove(op[1])
            if op[0]=='append':
                get(op[2]).append(get(op[1]))
                tree[op[2]].append(op[1])
            else:
                get(op[2]).insert(op[3], get(op[1]))
                tree[op[2]].insert(op[3], op[1])

        for again in range(2):
            message = f'{case} {op} '
            for id_ in tree:
                g = get(id_)
                ctx.same([c.desc for c in g.children], tree[id_], message+f'children of {id_}')
                ctx.same([c.desc for c in g], tree[id_], message+f'iterating over {id_}')
                ctx.same(len(g), len(tree[id_]), message+f'len of {id_}')
                ctx.same([g[i].desc for i in range(-len(g), len(g))], tree[id_]*2, message+f'indexing {id_}')
                two = []
                for c in tree[id_]:
                    two += [c]+tree.get(c, [])
                every = []
                def walk(i):
                    for c in tree[i]:
                        every.append(c)
                        if c in tree:
                            walk(c)
                walk(id_)
                found = [c.desc for c in g.descendants]
                if found!=every:
                    ctx.same(found, two, message+f'descendants of {id_}')
                ctx.same([c.desc for c in g.find_all(True, recursive=False)], tree[id_][::-1], message+f'find_all in {id_}')
                ctx.same(sorted(c.desc for c in g.find_all(True)), sorted(every), message+f'everything in {id_}')
                for c in g:
                    ctx.same(None if c.parent is None else c.parent.desc, None if id_=='root' else id_, message+f'parent of {c.desc}')
            ctx.state(case, op)
            a.save()
            a = sangfroid.Animation(path)


UNITS = [
        Unit('attributes', attr_cases, attr_run),
        Unit('twins', twin_cases, twin_run),
        Unit('many', many_cases, many_run),
        Unit('clutter', clutter_cases, clutter_run),
        Unit('bad', bad_cases, bad_run),
        Unit('canvas', canvas_cases, canvas_run),
        Unit('histories', cases, run),
        ]
