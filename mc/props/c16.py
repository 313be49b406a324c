"""
C16: assigning a value copies it: afterwards the two lead separate lives.
"""
import copy
import itertools

import sangfroid
import sangfroid.value as v
from sangfroid import T
from sangfroid.value import Waypoint
from mc import sif, editing
from mc.core import Unit, sequences, periodic, walks
from mc.values import KINDS, IN_FILE, describe
from mc.props.c04 import meaning
from mc.editing import PARTS

BOUNDS = {
        'quick': 'all histories of <=3 of 40 assignments and changes, between two layers of one document, '
            'one of another, and a value and a waypoint in no document, for reals; <=2 for 7 other types; '
            'all histories of <=3 of 22 between the transformations of three groups; '
            'all histories of <=2 of 46 changes of frame rate, waypoints and copies between documents of different frame rates, '
            'and of 3 beginning with a waypoint or a frame rate; everything is looked at after each; 18 ways of giving lists and dicts to the library, which stay as they were; copies, by 10 routes, of timelines of up to 8 waypoints, '
            'with each of those then changed, and of values and timelines nearly the same as what they replace; '
            'also histories of 5 or 7 with a period of <=2, and of 20 or 30 in which each operation follows each',
        'thorough': 'all histories of <=3 for all types; <=4 for transformations and frame rates',
        }
ASSUMPTIONS = []

PLACES = ['A', 'B', 'C', 'D']   # A and B in one document, C in another, D in none


def assigns():
    for src in PLACES:
        for dst in PLACES:
            if src==dst:
                if src=='A':
                    yield ['assign', src, dst, 'item']
                    yield ['assign', src, dst, 'attr']
                continue
            if dst=='D':
                continue
            yield ['assign', src, dst, 'item']
            if dst=='A':
                yield ['assign', src, dst, 'attr']
    yield ['timeline', 'A', 'B']
    yield ['timeline', 'B', 'A']
    yield ['timeline', 'C', 'D']


OPS = list(assigns())+[
        ['set', 'A', 1], ['set', 'B', 2], ['set', 'D', 1], ['set', 'C', 2],
        ['way', 'A', 12, 0], ['way', 'B', 12, 2], ['way', 'D', 30, 1], ['way', 'C', 0, 1],
        ['unanim', 'A'], ['unanim', 'B'],
        ['put-object', 'A', 'D'],       # D itself becomes a waypoint of A
        ['put-object', 'B', 'A'],
        ['put-waypoint', 'A'], ['put-waypoint', 'B'], ['put-waypoint', 'D'],
        ['put-at', 'A', 10], ['put-at', 'B', 24],
        ['change-waypoint', 1], ['change-waypoint', 2],
        ['fetch-waypoint', 'A'],        # and change the copy we get
        ['set-waypoint-value', 'D'],
        ]
KINDS_USED = ['real', 'color', 'vector', 'string', 'gradient', 'bool', 'integer', 'angle']
PARAM = {'real': ('circle', 'radius'), 'color': ('circle', 'color'), 'vector': ('circle', 'origin'),
         'string': ('text', 'text'), 'gradient': ('linear_gradient', 'gradient'),
         'bool': ('circle', 'invert'), 'integer': ('star', 'points'), 'angle': ('star', 'angle')}


def cases(tier):
    for kind in KINDS_USED:
        depth = 3 if kind=='real' or tier=='thorough' else 2
        for ops in sequences(OPS, depth):
            yield [kind, ops]
        for ops in walks(OPS, 30):
            yield [kind, ops]
    for ops in periodic(OPS, 5):
        yield ['real', ops]


class World:
    def __init__(self, ctx, kind):
        self.ctx = ctx
        k = self.k = KINDS[kind]
        type_, self.name = PARAM[kind]
        anim = editing.animated(kind, ('0f', 0, 'halt', 'linear', ''), ('24f', 1, 'auto', 'constant', ''))
        doc1 = sif.canvas(
                editing.layer(type_, 'A', editing.param(self.name, k.xml(k.samples[0])))+
                editing.layer(type_, 'B', editing.param(self.name, anim)))
        doc2 = sif.canvas(
                editing.layer(type_, 'C', editing.param(self.name, anim)))
        self.one = sangfroid.Animation(sif.write(ctx.path('one.sif'), doc1))
        self.two = sangfroid.Animation(sif.write(ctx.path('two.sif'), doc2))
        self.layers = {'A': self.one[1], 'B': self.one[0], 'C': self.two[0]}
        self.values = {id_: layer[self.name] for id_, layer in self.layers.items()}
        self.values['D'] = k.cls(k.samples[2%len(k.samples)])
        s = [k.norm(x) for x in k.samples]
        animated = {0.0: (s[0], 'halt', 'linear'), 24.0: (s[1], 'auto', 'constant')}
        self.model = {'A': s[0], 'B': dict(animated), 'C': dict(animated), 'D': s[2%len(s)]}
        self.waypoint = Waypoint(T(6), k.cls(k.samples[0]), 'linear', 'linear')
        self.waypoint_model = s[0]

    def sample(self, i):
        i %= len(self.k.samples)
        return self.k.samples[i], self.k.norm(self.k.samples[i])

    def do(self, op):
        self.ctx.step()
        self.ctx.note(op)
        values, model = self.values, self.model
        name = op[0]
        if name=='assign':
            _, src, dst, route = op
            if route=='item':
                self.layers[dst][self.name] = values[src]
            else:
                setattr(self.layers[dst], self.name, values[src])
            model[dst] = copy.deepcopy(model[src])
        elif name=='timeline':
            _, src, dst = op
            values[dst].timeline = values[src].timeline
            if isinstance(model[src], dict):
                model[dst] = dict(model[src])
            elif isinstance(model[dst], dict):
                # no waypoints at all means not being animated
                model[dst] = model[dst][min(model[dst])][0]
        elif name=='set':
            sample, norm = self.sample(op[2])
            values[op[1]].value = sample
            model[op[1]] = norm
        elif name=='way':
            sample, norm = self.sample(op[3])
            values[op[1]].timeline[op[2]] = sample
            self.way(op[1], op[2], (norm, 'clamped', 'clamped'))
        elif name=='unanim':
            values[op[1]].is_animated = False
            if isinstance(model[op[1]], dict):
                model[op[1]] = model[op[1]][min(model[op[1]])][0]
        elif name=='put-object':
            _, dst, src = op
            if isinstance(model[src], dict):
                return # waypoints can't be animated
            values[dst].timeline[18] = values[src]
            self.way(dst, 18, (model[src], 'clamped', 'clamped'))
        elif name=='put-waypoint':
            tl = values[op[1]].timeline
            tl += self.waypoint
            self.way(op[1], 6, (self.waypoint_model, 'linear', 'linear'))
        elif name=='put-at':
            values[op[1]].timeline[op[2]] = self.waypoint
            self.way(op[1], op[2], (self.waypoint_model, 'linear', 'linear'))
        elif name=='change-waypoint':
            sample, norm = self.sample(op[1])
            self.waypoint.value.value = sample
            self.waypoint_model = norm
        elif name=='fetch-waypoint':
            if not isinstance(model[op[1]], dict):
                return
            w = values[op[1]].timeline.values()[0]
            w.time = T(99)
            w.before = 'constant'
            w.after = 'constant'
        elif name=='set-waypoint-value':
            if isinstance(model[op[1]], dict):
                return
            self.waypoint = Waypoint(T(6), values[op[1]], 'linear', 'linear')
            # this is the value, not a copy of it, until it's put in a timeline
            self.waypoint_model = model[op[1]]
            self.values[op[1]] = self.k.cls(self.k.samples[0])
            self.model[op[1]] = self.sample(0)[1]

    def way(self, id_, frames, what):
        if not isinstance(self.model[id_], dict):
            self.model[id_] = {}
        self.model[id_][float(frames)] = what

    def see(self, value):
        root = sif.parse(sif.canvas(str(value.tag)).encode('utf-8'))
        e = [c for c in root if c.tag not in ('name', 'keyframe')][0]
        return described(self.k.name, e)

    def check(self):
        ctx = self.ctx
        for id_ in PLACES:
            ctx.same(self.see(self.values[id_]), self.model[id_], id_)
        for id_ in self.layers:
            # it's still where it was, too
            ctx.same(self.see(self.layers[id_][self.name]), self.model[id_], f'{id_} found again')
        self.ctx.same(self.k.read(self.waypoint.value), self.waypoint_model, 'waypoint')
        self.ctx.same((self.waypoint.time.frames, self.waypoint.before, self.waypoint.after),
                      (6.0, 'linear', 'linear'), 'waypoint')
        ctx.same([l.desc for l in self.one], ['B', 'A'], 'layers')


def described(kind, e):
    what, value = describe(kind, e)
    if what=='static':
        return value
    return {t: (x, b, a) for t, x, b, a in value}


def run(ctx, case):
    kind, ops = case
    w = World(ctx, kind)
    for op in ops:
        w.do(op)
    ctx.state(kind, sorted(w.model.items(), key=lambda x: x[0]), w.waypoint_model)
    w.check()
    if len(ops)<=2:
        for a, ids in ((w.one, 'AB'), (w.two, 'C')):
            path = ctx.path('saved.sif')
            a.save(path)
            root = sif.parse(sif.payload(path)[0])
            for id_ in ids:
                ctx.same(described(kind, editing.find_value(root, id_, w.name)), w.model[id_],
                         f'{id_} in the file')


# ------------------------------------------------------- transformations

T_OPS = [
        ['whole', 'G', 'H', 'attr'], ['whole', 'H', 'G', 'item'], ['whole', 'G', 'K', 'value'],
        ['whole', 'K', 'H', 'attr'], ['whole', 'G', 'G', 'attr'],
        ['dict', 'H', 'G'], ['dict', 'K', 'H'],
        ['part', 'G', 'H', 'offset'], ['part', 'H', 'G', 'scale'], ['part', 'G', 'K', 'angle'],
        ['cross', 'G', 'H'],                     # angle becomes the other's skew_angle
        ['set', 'G', 'offset', 1], ['set', 'H', 'offset', 2], ['set', 'G', 'angle', 1],
        ['set', 'K', 'scale', 0], ['set', 'H', 'skew_angle', 1],
        ['animate', 'G', 'offset'], ['animate', 'H', 'angle'], ['animate', 'K', 'scale'],
        ['handle', 'G', 'offset', 0], ['handle', 'H', 'angle', 2],
        ['dict-object', 'G'],
        ]


def t_cases(tier):
    for ops in sequences(T_OPS, 4 if tier=='thorough' else 3):
        yield ops
    yield from periodic(T_OPS, 7)
    yield from walks(T_OPS, 30)


def t_run(ctx, case):
    def group(id_, **kwargs):
        return editing.layer('group', id_, editing.param('transformation', editing.transformation(**kwargs)),
                             editing.param('canvas', '<canvas/>'))
    moving = editing.animated('vector', ('12f', 0, 'clamped', 'clamped', ''))
    text = sif.canvas(group('G')+group('H', offset=(7.0, 8.0), angle=1.0, skew=2.0, scale=(3.0, 4.0))
                      +group('K', offset_xml=moving))
    path = sif.write(ctx.path('t.sif'), text)
    a = sangfroid.Animation(path)
    groups = {g.desc: g for g in a}
    handles = {id_: {p: g.transformation[p] for p in PARTS} for id_, g in groups.items()}
    root = sif.parse(text.encode())
    model = {id_: {p: described(kind, editing.find_value(root, id_, 'transformation', p))
                   for p, kind in PARTS.items()} for id_ in groups}

    def sample(part, i):
        k = KINDS[PARTS[part]]
        return k.samples[i], k.norm(k.samples[i])

    for op in case:
        ctx.step()
        ctx.note(op)
        if op[0]=='whole':
            _, src, dst, route = op
            value = groups[src].transformation
            if route=='attr':
                groups[dst].transformation = value
            elif route=='item':
                groups[dst]['transformation'] = value
            else:
                groups[dst].transformation.value = value
            model[dst] = copy.deepcopy(model[src])
        elif op[0]=='dict':
            _, src, dst = op
            groups[dst].transformation = dict(groups[src].transformation.items())
            model[dst] = copy.deepcopy(model[src])
        elif op[0]=='part':
            _, src, dst, part = op
            setattr(groups[dst], part, getattr(groups[src], part))
            model[dst][part] = copy.deepcopy(model[src][part])
        elif op[0]=='cross':
            _, src, dst = op
            groups[dst].skew_angle = groups[src].angle
            model[dst]['skew_angle'] = copy.deepcopy(model[src]['angle'])
        elif op[0]=='set':
            _, id_, part, i = op
            x, norm = sample(part, i)
            setattr(groups[id_], part, x)
            model[id_][part] = norm
        elif op[0]=='animate':
            _, id_, part = op
            x, norm = sample(part, 1)
            groups[id_].transformation[part].timeline[30] = x
            if not isinstance(model[id_][part], dict):
                model[id_][part] = {}
            model[id_][part][30.0] = (norm, 'clamped', 'clamped')
        elif op[0]=='handle':
            _, id_, part, i = op
            x, norm = sample(part, i)
            groups[id_].transformation[part].value = x
            model[id_][part] = norm
        elif op[0]=='dict-object':
            offset = v.X_Y(9.0, 9.0)
            groups[op[1]].transformation = {'offset': offset}
            offset.value = (0.5, 0.5)
            model[op[1]]['offset'] = (9.0, 9.0)

    ctx.state(repr(model))
    data = str(a.tag).encode('utf-8')
    root = sif.parse(data)
    for id_ in groups:
        for part, kind in PARTS.items():
            ctx.same(described(kind, editing.find_value(root, id_, 'transformation', part)),
                     model[id_][part], f'{id_}.{part}')
        found = groups[id_].transformation
        ctx.same(sorted(found.keys()), sorted(PARTS), 'keys')
        ctx.same(len(found), 4, 'len')


# ------------------------------------------------------- frame rates
#
# Nothing says which instants an animation copied to a document with another
# frame rate should have. But they are the same before
# saving as after, and in every later copy.

R_WAYS = [36, '1s 12f', '1.5s', '2s', 0]
R_OPS = ([['way', p, i] for p in 'AC' for i in range(len(R_WAYS))]+
         [['fps', p, x] for p in 'AC' for x in (24, 30, 12.5)]+
         [['assign', s, d] for s, d in ('AC', 'CA', 'AD', 'DC', 'CB')]+
         [['timeline', s, d] for s, d in ('AC', 'CA', 'BC')]+
         [['waypoint', s, d] for s, d in ('AC', 'CA')]+
         [['item', s, d] for s, d in ('AC', 'CA')]+
         [['instant', s, d] for s, d in ('AC', 'CA')]+
         [['layer', s, d] for s, d in ('AC', 'CA')]+
         [['duration', p, i] for p in 'AC' for i in (0, 1)]+
         [['durations', s, d] for s, d in ('AC', 'CA')]+
         [['end', p, i] for p in 'AC' for i in (0, 1)]+
         [['ends', s, d] for s, d in ('AC', 'CA')]+
         [['save', p] for p in 'AC'])


def r_cases(tier):
    depth = 4 if tier=='thorough' else 3
    for ops in sequences(R_OPS, depth):
        if len(ops)==depth and (
                ops[0][0] not in ('way', 'fps') or
                (depth==4 and not any(o[0]=='fps' for o in ops))):
            continue
        yield ops
    yield from walks(R_OPS, 20)


def r_see(anim):
    result = [anim.fps, anim.begin_time.frames, anim.end_time.frames]
    for x in anim:
        if 'radius' in x:
            r = x['radius']
            result.append((x.desc, r.is_animated, sorted((_r(w.time), k_read(w.value)) for w in r.timeline)))
            keys = [k.frames for k in r.timeline.keys()]
            if keys!=sorted(keys):
                result.append('out of order')
        else:
            result.append((x.desc, _r(x.duration.value)))
    return result


def _r(t):
    return round(t.frames, 3)


def k_read(value):
    return round(value.value, 6)


def r_file(root):
    """What r_see() should find."""
    from mc.props.c05 import judge
    fps = float(root.get('fps'))
    result = [fps, judge(root.get('begin-time'), fps), judge(root.get('end-time'), fps)]
    for e in reversed(root.findall('layer')):
        p = e.find('param')
        if p.get('name')=='radius':
            value = p[0]
            result.append((e.get('desc'), value.tag=='animated', sorted(
                (round(judge(w.get('time'), fps), 3), round(float(w[0].get('value')), 6))
                for w in (value if value.tag=='animated' else []))))
        else:
            result.append((e.get('desc'), round(judge(p[0].get('value'), fps), 3)))
    return result


def r_run(ctx, case):
    anim = {}
    for id_, fps in (('A', 24), ('C', 30)):
        text = sif.canvas(
                editing.layer('circle', id_, editing.param('radius', KINDS['real'].xml(1.0)))+
                (editing.layer('circle', 'B', editing.param('radius', editing.animated(
                    'real', ('6f', 0, 'halt', 'linear', ''), ('1s 6f', 1, 'halt', 'linear', ''))))
                    if id_=='A' else '')+
                editing.layer('timeloop', 'L'+id_, editing.param('duration', '<time value="1s"/>')), fps=fps)
        anim[id_] = sangfroid.Animation(sif.write(ctx.path(f'{id_}.sif'), text))
    detached = v.Real(5.0)
    home = {'A': 'A', 'B': 'A', 'C': 'C'}
    def found(desc):
        for a in anim.values():
            for x in a:
                if x.desc==desc:
                    return x
    def radius(desc):
        return detached if desc=='D' else found(desc)['radius']
    for op in case:
        ctx.step()
        ctx.note(op)
        before = {i: str(a.tag) for i, a in anim.items()}
        try:
            if op[0]=='way':
                radius(op[1]).timeline[R_WAYS[op[2]]] = float(op[2])
            elif op[0]=='fps':
                anim[op[1]].fps = op[2]
            elif op[0]=='assign':
                if op[2]=='D':
                    detached.value = radius(op[1])
                else:
                    found(op[2])['radius'] = radius(op[1])
            elif op[0]=='timeline':
                radius(op[2]).timeline = radius(op[1]).timeline
            elif op[0]=='waypoint':
                for w in list(radius(op[1]).timeline):
                    tl = radius(op[2]).timeline
                    tl += w
            elif op[0]=='item':
                for w in list(radius(op[1]).timeline):
                    radius(op[2]).timeline[w.time] = w
            elif op[0]=='instant':
                for w in list(radius(op[1]).timeline):
                    radius(op[2]).timeline[w.time] = 9.0
            elif op[0]=='layer':
                # by now it might be there already
                x = found(op[1])
                anim[op[2]].append(x)
            elif op[0]=='duration':
                found('L'+op[1]).duration = [36, '1s 12f'][op[2]]
            elif op[0]=='durations':
                found('L'+op[2]).duration = found('L'+op[1]).duration.value
            elif op[0]=='end':
                anim[op[1]].end_time = [36, '1s 12f'][op[2]]
            elif op[0]=='ends':
                anim[op[2]].end_time = anim[op[1]].end_time
            elif op[0]=='save':
                anim[op[1]].save(ctx.path(f'{op[1]}.sif'))
        except ValueError:
            # times of two frame rates might not be comparable
            ctx.check(op[0] in ('waypoint', 'item', 'instant', 'timeline', 'assign', 'durations', 'ends'),
                      op, 'was refused')
            if op[0] in ('timeline', 'assign', 'durations', 'ends'):
                ctx.same({i: str(a.tag) for i, a in anim.items()}, before, op, 'was refused')
    for id_, a in anim.items():
        path = ctx.path('saved.sif')
        seen = r_see(a)
        a.save(path)
        root = sif.parse(sif.payload(path)[0])
        wanted = r_file(root)
        ctx.state(id_, repr(wanted))
        ctx.same(seen, wanted, id_, 'in memory and in the file')
        ctx.same(r_see(a), wanted, id_, 'after saving')
        ctx.same(r_see(sangfroid.Animation(path)), wanted, id_, 'loaded again')


# -------------------------------------------------- longer timelines

def long_cases(tier):
    for n in range(1, 9 if tier=='quick' else 17):
        for how in ('item', 'attr', 'timeline', 'list', 'add', 'one by one', 'dict', 'other document', 'to static', 'twice'):
            yield [n, how]


def long_run(ctx, case):
    """Copies a timeline, then changes each part of one or other in turn."""
    n, how = case
    modes = ['linear', 'clamped', 'constant', 'halt', 'auto']
    ways = [(3*i, i+0.5, modes[i%5], modes[(i+2)%5]) for i in range(n)]
    animated = '<animated type="real">'+''.join(
            f'<waypoint time="{t}f" before="{b}" after="{a}" note="{t}"><real value="{x}" guid="g{t}"/></waypoint>' for t, x, b, a in ways)+'</animated>'
    other = '<animated type="real"><waypoint time="2f" before="linear" after="linear"><real value="9"/></waypoint><waypoint time="9f" before="linear" after="linear"><real value="8"/></waypoint></animated>'
    changes = [('none', 0)]+[(c, i) for i in range(n) for c in ('set', 'del', 'flip')]+[('new', 1), ('static', 0), ('unanimate', 0)]
    for change, i in changes:
        for which in ('copy', 'original'):
            a = sangfroid.Animation(sif.write(ctx.path('l.sif'), sif.canvas(
                f'<layer type="circle" desc="A"><param name="radius">{animated}</param></layer>'
                f'<layer type="circle" desc="B"><param name="radius">{"<real value=\'7\'/>" if how=="to static" else other}</param></layer>')))
            source = a.find(desc='A').radius
            holder = a
            if how=='other document':
                holder = sangfroid.Animation(sif.write(ctx.path('l2.sif'), sif.canvas(
                    f'<layer type="circle" desc="B"><param name="radius">{other}</param></layer>')))
            layer = holder.find(desc='B')
            target = layer.radius
            ctx.step()
            if how in ('item', 'other document', 'to static'):
                layer['radius'] = source
            elif how=='attr':
                layer.radius = source
            elif how=='timeline':
                target.timeline = source.timeline
            elif how=='list':
                target.timeline = list(source.timeline)
            elif how=='dict':
                target.timeline = dict(source.timeline.items())
            elif how=='add':
                target.timeline = []
                target.timeline.add(source.timeline.values())
            elif how=='one by one':
                target.timeline = []
                for w in source.timeline:
                    target.timeline[w.time] = w
            elif how=='twice':
                layer.radius = source
                layer.radius = source
            wanted = [dict((t, (x, b, af)) for t, x, b, af in ways) for _ in range(2)]
            subject, mine = (target, wanted[1]) if which=='copy' else (source, wanted[0])
            t = 3*i
            if change=='set':
                subject.timeline[t] = -1.0
                mine[t] = (-1.0, 'clamped', 'clamped')
            elif change=='del':
                del subject.timeline[t]
                gone = mine.pop(t)
                if not mine:
                    mine = gone[0]
            elif change=='flip':
                w = subject.timeline[t]
                w.before, w.after = w.after, w.before
                w.value.value = 4.5
                subject.timeline[t] = w
                mine[t] = (4.5, mine[t][2], mine[t][1])
            elif change=='new':
                subject.timeline[100] = 6.0
                mine[100] = (6.0, 'clamped', 'clamped')
            elif change=='static':
                subject.value = 2.5
                mine = 2.5
            elif change=='unanimate':
                subject.is_animated = False
                mine = ways[0][1]
            if which=='copy':
                wanted[1] = mine
            else:
                wanted[0] = mine
            for id_, x, m, document in (('A', a.find(desc='A')['radius'], wanted[0], a), ('B', holder.find(desc='B')['radius'], wanted[1], holder)):
                message = f'{how}, {change} {t} of the {which}: {id_}'
                if isinstance(m, dict):
                    ctx.same({w.time.frames: (w.value.value, IN_FILE.get(w.before, w.before), IN_FILE.get(w.after, w.after)) for w in x.timeline}, m, message)
                else:
                    ctx.check(not x.is_animated, message)
                    ctx.same(x.value, m, message)
                root = sif.parse(str(document.tag).encode('utf-8'))
                ctx.same(described('real', editing.find_value(root, id_, 'radius')), m, message+' in the file')
                if isinstance(m, dict):
                    for w in root.iter('waypoint'):
                        if w.get('note'):
                            ctx.same(w[0].get('guid'), 'g'+w.get('note'), message+' which value has which guid')
            ctx.state(case, change, i, which)


# -------------------------------------------------- from something nearly the same

def near(kind, value, extra=''):
    return {
        'real': lambda: f'<real value="{value}"{extra}/>',
        'angle': lambda: f'<angle value="{value}"{extra}/>',
        'vector': lambda: f'<vector{extra}><x>{value}</x><y>{value}</y></vector>',
        'color': lambda: f'<color{extra}><r>{value}</r><g>0.5</g><b>0.5</b><a>1</a></color>',
        }[kind]()


def near_animated(kind, ways):
    return f'<animated type="{kind}">'+''.join(
            f'<waypoint time="{t}" before="{b}" after="{a}"{more}>{near(kind, x, extra)}</waypoint>'
            for t, b, a, more, x, extra in ways)+'</animated>'


NEAR_BASE = ('12f', 'linear', 'clamped', '', '0.5', '')
NEAR_WAYS = [
        NEAR_BASE,
        ('12f', 'linear', 'clamped', '', '0.50001', ''),
        ('12f', 'linear', 'clamped', '', '0.5', ' guid="other"'),
        ('12f', 'linear', 'clamped', ' tension="0.25"', '0.5', ''),
        ('12f', 'linear', 'linear', '', '0.5', ''),
        ('12f', 'clamped', 'clamped', '', '0.5', ''),
        ('12.000001f', 'linear', 'clamped', '', '0.5', ''),
        ('13f', 'linear', 'clamped', '', '0.5', ''),
        ]


def near_cases(tier):
    for kind in ('real', 'angle', 'vector', 'color'):
        for i, j in itertools.permutations(range(len(NEAR_WAYS)), 2):
            for n in (1, 2, 3):
                for at in range(n):
                    for how in ('item', 'attr', 'timeline', 'list', 'dict', 'add'):
                        yield [kind, i, j, n, at, how]
        for value in ('0.5', '0.500001', '0.50001', '0.499'):
            for old in ('0.5', '0.500001', '0.50001', '0.499'):
                for extra in ('', ' guid="other"', ' static="true"'):
                    for how in ('item', 'attr'):
                        yield [kind, value, old, extra, how]


NEAR_LAYERS = {'real': ('circle', 'radius'), 'angle': ('rotate', 'amount'), 'vector': ('circle', 'origin'), 'color': ('circle', 'color')}


def near_run(ctx, case):
    """The copy must be exact, even if the old value equals the new."""
    kind = case[0]
    how = case[-1]
    if len(case)==5:
        _, value, old, extra, _ = case
        source, target = near(kind, value, extra), near(kind, old)
    else:
        _, i, j, n, at, _ = case
        rest = [(f'{30+k}f',)+NEAR_BASE[1:] for k in range(n)]
        def ways(which):
            result = list(rest)
            result[at] = NEAR_WAYS[which]
            return sorted(result, key=lambda w: float(w[0][:-1]))
        source, target = near_animated(kind, ways(i)), near_animated(kind, ways(j))
    layer, name = NEAR_LAYERS[kind]
    path = ctx.path('near.sif')
    a = sangfroid.Animation(sif.write(path, sif.canvas(
        f'<layer type="{layer}" desc="A"><param name="{name}">{source}</param></layer>'
        f'<layer type="{layer}" desc="B"><param name="{name}">{target}</param></layer>')))
    x, y = a.find(desc='A'), a.find(desc='B')
    ctx.step()
    if how=='item':
        y[name] = x[name]
    elif how=='attr':
        setattr(y, name, x[name])
    elif how=='timeline':
        y[name].timeline = x[name].timeline
    elif how=='list':
        y[name].timeline = list(x[name].timeline)
    elif how=='dict':
        y[name].timeline = dict(x[name].timeline.items())
    elif how=='add':
        y[name].timeline = []
        y[name].timeline.add(x[name].timeline.values())
    a.save()
    root = sif.parse(sif.payload(path)[0])

    def summary(e):
        if e.tag=='animated':
            return [(round(float(meaning(w.get('time'), 24.0)), 6), {k: v for k, v in w.attrib.items() if k!='time'}, summary(w[0])) for w in e]
        # co-ordinates may be written to more places
        return (e.tag, {k: float(v) if k=='value' else v for k, v in e.attrib.items()}, [(c.tag, float(c.text)) for c in e])

    found = [summary([p for p in e.findall('param') if p.get('name')==name][0][0]) for e in root.iter('layer')]
    ctx.same(len(found), 2, 'layers')
    ctx.same(found[1], found[0], f'{how}: the copy')
    ctx.same(found[0], summary(sif.parse(source.encode())), f'{how}: the original')
    ctx.state(case)


# -------------------------------------------------- values made from values

MADE = {
        'Transformation of parts': lambda p: v.Transformation({'offset': p[0], 'angle': p[2], 'skew_angle': p[3], 'scale': p[1]}),
        'Transformation of some parts': lambda p: v.Transformation({'scale': p[0], 'angle': p[2], 'offset': (1.0, 2.0), 'skew_angle': 3.0}),
        'Transformation of a Transformation': lambda p: v.Transformation(p[4]),
        'Gradient of Colors': lambda p: v.Gradient({0.0: p[5], 1.0: p[6]}),
        'Gradient of one Color, three times': lambda p: v.Gradient({0.0: p[5], 0.5: p[5], 1.0: p[5]}),
        'Gradient of a Gradient': lambda p: v.Gradient(p[7]),
        'Color of a Color': lambda p: v.Color(p[5]),
        'X_Y of an X_Y': lambda p: v.X_Y(p[0]),
        'Real of a Real': lambda p: v.Real(p[8]),
        'Angle of an Angle': lambda p: v.Angle(p[2]),
        'String of a String': lambda p: v.String(p[9]),
        'setting: parts': lambda p: _set(v.Transformation({'offset': (1.0, 1.0), 'angle': 1.0, 'skew_angle': 1.0, 'scale': (1.0, 1.0)}),
                                         {'offset': p[0], 'angle': p[2], 'skew_angle': p[3], 'scale': p[1]}),
        'setting: Transformation': lambda p: _set(v.Transformation({'offset': (1.0, 1.0), 'angle': 1.0, 'skew_angle': 1.0, 'scale': (1.0, 1.0)}), p[4]),
        'setting: Colors': lambda p: _set(v.Gradient({0.0: '#000000', 1.0: '#ffffff'}), {0.0: p[5], 0.25: p[6], 1.0: p[5]}),
        'setting: Gradient': lambda p: _set(v.Gradient({0.0: '#000000', 1.0: '#ffffff'}), p[7]),
        'setting: Color': lambda p: _set(v.Color('#000000'), p[5]),
        'setting: X_Y': lambda p: _set(v.X_Y(1.0, 1.0), p[0]),
        'setting: Real': lambda p: _set(v.Real(1.0), p[8]),
        'setting: stop': lambda p: _stop(p),
        'setting: attribute': lambda p: _attribute(p),
        }


def _set(value, x):
    value.value = x
    return value


def _stop(p):
    g = v.Gradient({0.0: '#000000', 1.0: '#ffffff'})
    g[0.5] = p[5]
    return g


def _attribute(p):
    t = v.Transformation({'offset': (1.0, 1.0), 'angle': 1.0, 'skew_angle': 1.0, 'scale': (1.0, 1.0)})
    t.offset = p[0]
    t.scale = p[0]
    t.angle = p[2]
    return t


def ingredients(where, a):
    made = [v.X_Y(1.5, 2.5), v.X_Y(3.5, 4.5), v.Angle(10.0), v.Angle(20.0),
            v.Transformation({'offset': (5.0, 6.0), 'angle': 30.0, 'skew_angle': 40.0, 'scale': (7.0, 8.0)}),
            v.Color('#102030'), v.Color('#40506070'), v.Gradient({0.0: '#123456', 0.75: '#abcdef', 1.0: '#00ff00'}),
            v.Real(9.25), v.String('words')]
    if where=='alone':
        return made
    # the same, but each in a document
    layer = a[0]
    for i, x in enumerate(made):
        layer.tag.append(__import__('bs4').Tag(name='param', attrs={'name': f'p{i}'}))
        layer.tag.contents[-1].append(x.tag)
    return [layer[f'p{i}'] for i in range(len(made))]


def made_cases(tier):
    for name in MADE:
        for where in ('alone', 'document'):
            for home in ('alone', 'document'):
                for changed in list(range(10))+['made']:
                    yield [name, where, home, changed]


def changes(x):
    """Everything we can do to this value."""
    yield 'nothing', lambda: None
    if isinstance(x, v.X_Y):
        yield 'value', lambda: setattr(x, 'value', (99.0, 98.0))
        yield 'x', lambda: setattr(x, 'x', 97.0)
    elif isinstance(x, v.Transformation):
        yield 'value', lambda: setattr(x, 'value', {'offset': (99.0, 98.0), 'angle': 97.0})
        yield 'part', lambda: setattr(x, 'scale', (96.0, 95.0))
        yield 'part of part', lambda: setattr(x.offset, 'x', 94.0)
        yield 'angle', lambda: setattr(x['angle'], 'value', 93.0)
        yield 'animate part', lambda: x.offset.timeline.__setitem__(5, (92.0, 91.0))
    elif isinstance(x, v.Gradient):
        yield 'value', lambda: setattr(x, 'value', {0.0: '#777777', 1.0: '#888888'})
        yield 'stop', lambda: x.__setitem__(0.0, '#999999')
        yield 'new stop', lambda: x.__setitem__(0.125, '#999999')
        yield 'colour', lambda: setattr(x[1.0], 'value', '#010203')
    elif isinstance(x, v.Color):
        yield 'value', lambda: setattr(x, 'value', '#777777')
    elif isinstance(x, v.String):
        yield 'value', lambda: setattr(x, 'value', 'other')
    else:
        yield 'value', lambda: setattr(x, 'value', 90.0)
    if x.CAN_BE_ANIMATED:
        yield 'animate', lambda: setattr(x, 'is_animated', True)


def made_run(ctx, case):
    """What's made from values is separate from them."""
    name, where, home, changed = case
    n = 0
    while True:
        a = sangfroid.Animation()
        a.append(sangfroid.layer.Circle())
        parts = ingredients(where, a)
        made = MADE[name](parts)
        if home=='document':
            param = __import__('bs4').Tag(name='param', attrs={'name': 'made'})
            param.append(made.tag)
            a[0].tag.append(param)
        every = {**{i: x for i, x in enumerate(parts)}, 'made': made}
        todo = list(changes(every[changed]))
        if n==len(todo):
            return
        what, change = todo[n]
        n += 1
        before = {i: sif.canon(x.tag) for i, x in every.items()}
        change()
        ctx.step()
        ctx.state(case, what)
        for i, x in every.items():
            if i!=changed:
                ctx.check(sif.canon(x.tag)==before[i], f'{name}: {what} of {changed} changed {i}:\n', sif.diff(before[i], sif.canon(x.tag)))


def waypoint_list(order, home):
    ref = home.tag
    return [Waypoint(T(t, ref=ref), v.Real(t/2), 'linear', 'constant') for t in order]


GIVEN = {   # name -> (what to give, how to give it)
        'timeline list': (lambda w, a: w, lambda x, a: setattr(a[0].radius, 'timeline', x)),
        'timeline dict': (lambda w, a: {p.time: p for p in w}, lambda x, a: setattr(a[0].radius, 'timeline', x)),
        'add': (lambda w, a: w, lambda x, a: a[0].radius.timeline.add(x)),
        'add to some': (lambda w, a: w, lambda x, a: (a[0].radius.timeline.__setitem__(50, 1.0), a[0].radius.timeline.add(x))),
        'overwrite': (lambda w, a: w, lambda x, a: (a[0].radius.timeline.add(list(x)), a[0].radius.timeline.add(x, overwrite=True))),
        'iadd': (lambda w, a: w, lambda x, a: a[0].radius.timeline.__iadd__(x)),
        'vector dict': (lambda w, a: {'y': 1.5, 'x': 2}, lambda x, a: setattr(a[0], 'origin', x)),
        'vector item': (lambda w, a: {'y': v.Real(1.5).value, 'x': 2}, lambda x, a: a[0].__setitem__('origin', x)),
        'transformation dict': (lambda w, a: {'scale': (2, 3), 'angle': v.Angle(7), 'offset': v.X_Y(1, 2)}, lambda x, a: setattr(a[1], 'transformation', x)),
        'transformation item': (lambda w, a: {'scale': (2, 3), 'angle': 7}, lambda x, a: a[1].__setitem__('transformation', x)),
        'transformation made': (lambda w, a: {'skew_angle': 1, 'scale': (2, 3), 'angle': 7, 'offset': (4, 5)}, lambda x, a: v.Transformation(x)),
        'gradient dict': (lambda w, a: {1.0: '#010203', 0.0: v.Color('#040506'), 0.5: (1, 0, 0)}, lambda x, a: setattr(a[2], 'gradient', x)),
        'gradient item': (lambda w, a: {1.0: '#010203', 0.0: v.Color('#040506'), 0.5: (1, 0, 0)}, lambda x, a: a[2].__setitem__('gradient', x)),
        'gradient made': (lambda w, a: {1.0: '#010203', 0.0: v.Color('#040506'), 0.5: (1, 0, 0)}, lambda x, a: v.Gradient(x)),
        'canvas list': (lambda w, a: [sangfroid.layer.Circle(), sangfroid.layer.Text()], lambda x, a: setattr(a[1], 'canvas', x)),
        'canvas made': (lambda w, a: [sangfroid.layer.Circle(), sangfroid.layer.Text()], lambda x, a: v.Canvas(x)),
        'search': (lambda w, a: {'type': 'circle', 'active': True}, lambda x, a: a.find_all(attrs=x)),
        'search and': (lambda w, a: {'type': 'circle', 'active': True}, lambda x, a: a.find_all(attrs=x, desc=None)),
        }


def given_cases(tier):
    for name in GIVEN:
        for order in itertools.permutations((0, 12, 24, 7.5), 4) if 'line' in name or 'add' in name or 'over' in name else [(0, 1, 2, 3)]:
            for again in (False, True):
                yield [name, list(order), again]


def given_run(ctx, case):
    """A list or dict which is given to the library is still the same afterwards, as is all that's in it."""
    name, order, again = case
    a = sangfroid.Animation()
    for layer in (sangfroid.layer.Circle, sangfroid.layer.Group, sangfroid.layer.Linear_Gradient):
        a.append(layer())
    make, give = GIVEN[name]
    x = make(waypoint_list(order, a), a)

    def look(x):
        things = list(x.items()) if isinstance(x, dict) else list(x)
        def one(y):
            if isinstance(y, tuple):
                return tuple(one(z) for z in y)
            if isinstance(y, Waypoint):
                return (id(y), y.time.frames, y.time.fps, y.before, y.after, sif.canon(y.value.tag))
            if isinstance(y, v.Value):
                return (id(y), sif.canon(y.tag))
            if isinstance(y, sangfroid.layer.Layer):
                return (id(y), sif.canon(y.tag))
            return (type(y).__name__, repr(y))
        return [one(y) for y in things]

    before = look(x)
    for time in range(2 if again else 1):
        try:
            give(x, a)
        except ValueError:
            # there are already waypoints there
            ctx.check(time==1 and name in ('add', 'add to some', 'overwrite'), name, 'was refused')
        ctx.step()
        ctx.same(look(x), before, f'{name}: what was given, afterwards')
    ctx.state(case)


UNITS = [
        Unit('given', given_cases, given_run),
        Unit('made', made_cases, made_run),
        Unit('near', near_cases, near_run),
        Unit('longer', long_cases, long_run),
        Unit('values', cases, run),
        Unit('rates', r_cases, r_run),
        Unit('transformations', t_cases, t_run),
        ]
