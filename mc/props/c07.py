"""
C07: a timeline is a map from times to waypoints, kept in order.
"""
import itertools

import sangfroid
from sangfroid import T
from sangfroid.value import Waypoint
from mc import sif
from mc.core import Unit, Violation, sequences, periodic, walks
from mc.values import KINDS, describe, IN_MEMORY, IN_FILE

BOUNDS = {
        'quick': 'all histories of <=3 of 28 operations on a real, and of <=2 on '
            'eight other types and from three other starting points, with three handles '
            'on the same value; frame rates 24 and 29.97; timelines of up to 12 '
            'waypoints (and 17, and 33), made in 5 ways and spaced in 4, with one of 10 changes made at each place; '
            'also for reals, histories of 7 operations with a period of <=2; for all types, histories of 40 in which each operation follows each; timelines of up to 33 waypoints; timelines with times before the start; every set of 5 times, with every operation at or near (0.001 to 0.25 frames) each; every two sets of 4 times compared',
        'thorough': 'all histories of <=4 operations on a real and a color, <=3 on others',
        }
ASSUMPTIONS = []

TIMES = {  # what we ask for: (how to say it, frames at the given fps)
        'int0': (lambda ref: 0, lambda fps: 0.0),
        'int12': (lambda ref: 12, lambda fps: 12.0),
        'str1s': (lambda ref: '1s', lambda fps: fps),
        'T1s': (lambda ref: T('1s', ref=ref), lambda fps: fps),
        'T36': (lambda ref: T(36), lambda fps: 36.0),
        'float12.5': (lambda ref: 12.5, lambda fps: 12.5),
        'last': (lambda ref: -1, lambda fps: 5*fps),
        'str12f': (lambda ref: '12f', lambda fps: 12.0),
        'missing': (lambda ref: 7, lambda fps: 7.0),
        }

START = {
        'static': lambda k: k.xml(k.samples[0]),
        'two': lambda k: animated(k, [('0f', 0, 'halt', 'linear'), ('1s', 1, 'auto', 'constant')]),
        'one': lambda k: animated(k, [('12f', 1, 'clamped', 'clamped')]),
        'minutes': lambda k: animated(k, [('10f', 1, 'clamped', 'linear'), ('1m', 0, 'constant', 'halt'), ('1h 2m 3s 4f', 1, 'auto', 'auto')]),
        }


def animated(k, waypoints):
    return f'<animated type="{k.name}">\n'+'\n'.join(
        f'<waypoint time="{t}" before="{b}" after="{a}">{k.xml(k.samples[i])}</waypoint>'
        for t, i, b, a in waypoints)+'\n</animated>'


def start_model(k, start, fps):
    s = [k.norm(x) for x in k.samples]
    if start=='static':
        return ('static', s[0])
    elif start=='two':
        return {0.0: (s[0], 'halt', 'linear'), fps: (s[1], 'auto', 'constant')}
    elif start=='one':
        return {12.0: (s[1], 'clamped', 'clamped')}
    else:
        return {10.0: (s[1], 'clamped', 'linear'),
                60*fps: (s[0], 'constant', 'halt'),
                3723*fps+4: (s[1], 'auto', 'auto')}


CLAMPED = ('clamped', 'clamped')


class World:
    """The real thing, and what we think it should be."""

    def __init__(self, ctx, kind, start, fps_s):
        self.ctx = ctx
        self.k = KINDS[kind]
        self.fps = float(fps_s)
        x = START[start](self.k)
        other = animated(self.k, [('5f', 1, 'linear', 'halt'), ('2s', 0, 'clamped', 'auto')])
        self.text = sif.canvas(
                f'<layer type="circle" desc="c"><param name="before">{self.k.xml(self.k.samples[0])}</param>'
                f'<param name="p">{x}</param>'
                f'<param name="after">{other}</param></layer>',
                fps = fps_s)
        self.path = ctx.path()
        sif.write(self.path, self.text)
        self.animation = sangfroid.Animation(self.path)
        self.layer = self.animation.find('circle')
        self.value = self.layer['p']
        self.second = self.layer['p']
        self.timeline = self.value.timeline
        self.model = start_model(self.k, start, self.fps)

    def is_animated(self):
        return isinstance(self.model, dict)

    def sample(self, i):
        i %= len(self.k.samples)
        return self.k.samples[i], self.k.norm(self.k.samples[i])

    def new_value(self, i):
        """A Value of the right type, which isn't in the document."""
        if self.k.name=='time':
            # specifications in seconds need somewhere to stand
            return sangfroid.value.Time(T(self.k.norm(self.k.samples[i%3])))
        return self.k.cls(self.sample(i)[0])

    def waypoint(self, frames, i, before='clamped', after='clamped'):
        return Waypoint(time=T(frames), value=self.new_value(i),
                        before=before, after=after)

    def refused(self, what, fn):
        try:
            fn()
        except Exception:
            return
        raise Violation(f'{what} should have been refused')

    def as_dict(self):
        return dict(self.model) if self.is_animated() else {}

    # ---- operations

    def op_set(self, arg):
        time, i, how = arg
        say, frames = TIMES[time]
        say = say(self.animation)
        frames = frames(self.fps)
        py, norm = self.sample(i)
        if how=='value':
            py = self.new_value(i)
        if how=='second':
            self.second.timeline[say] = py
        elif how=='kept':
            self.timeline[say] = py
        else:
            self.value.timeline[say] = py
        m = self.as_dict()
        m[frames] = (norm,)+CLAMPED
        self.model = m

    def op_setwp(self, arg):
        time, i = arg
        say, frames = TIMES[time]
        w = self.waypoint(99, i, 'linear', 'halt')
        self.value.timeline[say(self.animation)] = w
        m = self.as_dict()
        m[frames(self.fps)] = (self.sample(i)[1], 'linear', 'halt')
        self.model = m

    def op_add(self, arg):
        pairs, overwrite, how = arg
        waypoints = [self.waypoint(f, i, 'constant', 'tcb') for f, i in pairs]
        m = self.as_dict()
        clash = any(float(f) in m for f, i in pairs)
        given = waypoints[0] if len(waypoints)==1 else waypoints
        if how=='iadd':
            tl = self.value.timeline
            tl += given
            overwrite = True
            self.ctx.check(isinstance(tl, type(self.timeline)), '+= lost the timeline')
        elif how=='attr-iadd':
            self.value.timeline += given
            overwrite = True
        elif clash and not overwrite:
            self.refused('add() of an existing time',
                         lambda: self.value.timeline.add(given))
            return
        elif overwrite:
            self.value.timeline.add(given, overwrite=True)
        else:
            self.value.timeline.add(given)
        for f, i in pairs:
            m[float(f)] = (self.sample(i)[1], 'constant', 'auto')
        if pairs:
            self.model = m

    def op_del(self, arg):
        say, frames = TIMES[arg]
        say = say(self.animation)
        frames = frames(self.fps)
        m = self.as_dict()
        if frames not in m:
            def fn():
                del self.value.timeline[say]
            try:
                fn()
            except KeyError:
                return
            raise Violation('deleting a missing waypoint should raise KeyError')
        del self.value.timeline[say]
        gone = m.pop(frames)
        if m:
            self.model = m
        else:
            self.model = ('static', gone[0])

    def op_assign(self, how):
        if how=='list':
            self.value.timeline = [self.waypoint(36, 1, 'linear', 'ease'), self.waypoint(6, 0)]
            self.model = {6.0: (self.sample(0)[1],)+CLAMPED,
                          36.0: (self.sample(1)[1], 'linear', 'halt')}
        elif how=='empty':
            self.value.timeline = []
            if self.is_animated():
                self.model = ('static', self.model[min(self.model)][0])
        elif how=='other':
            self.value.timeline = self.layer['after'].timeline
            self.model = {5.0: (self.sample(1)[1], 'linear', 'halt'),
                          2*self.fps: (self.sample(0)[1], 'clamped', 'auto')}
        elif how=='self':
            self.value.timeline = self.value.timeline
        elif how=='dict':
            self.value.timeline = {'a': self.waypoint(3, 1), 'b': self.waypoint(2, 0)}
            self.model = {2.0: (self.sample(0)[1],)+CLAMPED,
                          3.0: (self.sample(1)[1],)+CLAMPED}
        else:
            for junk in (5, 'x', None, [5], [self.waypoint(1, 0), 'x'], {1: 2}):
                def fn():
                    self.value.timeline = junk
                self.refused(f'timeline = {junk!r}', fn)

    def op_animated(self, which):
        self.value.is_animated = which
        if which and not self.is_animated():
            self.model = {0.0: (self.model[1],)+CLAMPED}
        elif not which and self.is_animated():
            self.model = ('static', self.model[min(self.model)][0])

    def op_value(self, i):
        py, norm = self.sample(i)
        self.value.value = py
        self.model = ('static', norm)

    def op_bad(self, which):
        tl = self.value.timeline
        if which=='type':
            other = sangfroid.value.Real(1) if self.k.name!='real' else sangfroid.value.Bool(True)
            w = Waypoint(time=T(3), value=other)
            self.refused('a waypoint of the wrong type', lambda: tl.add(w))
            self.refused('a waypoint of the wrong type', lambda: tl.__setitem__(3, w))
            self.refused('a waypoint of the wrong type', lambda: tl.__iadd__([self.waypoint(4, 0), w]))
        else:
            self.refused('an add() of a string', lambda: tl.add('x'))
            self.refused('an add() of a list of strings', lambda: tl.add([self.waypoint(4, 0), 'x']))
            self.refused('an unknown kind of key', lambda: tl.__setitem__(None, self.new_value(0)))
            self.refused('a malformed time', lambda: tl.__setitem__('wombat', self.new_value(0)))

    # ---- observation

    def glance(self, value):
        """A quick look at the timeline."""
        ctx = self.ctx
        ctx.same(value.is_animated, self.is_animated(), 'is_animated')
        m = self.as_dict()
        ctx.same(len(value.timeline), len(m), 'len(timeline)')
        ctx.same([round(w.time.frames, 5) for w in value.timeline],
                 [round(f, 5) for f in sorted(m)], 'times')

    def stare(self, value):
        ctx = self.ctx
        self.glance(value)
        m = self.as_dict()
        tl = value.timeline
        read = self.k.read

        def look(w):
            return (round(w.time.frames, 5), read(w.value),
                    IN_FILE[w.before], IN_FILE[w.after])

        wanted = [(round(f, 5),)+m[f] for f in sorted(m)]
        ctx.same([look(w) for w in tl], wanted, 'waypoints')
        ctx.same([look(w) for w in tl.values()], wanted, 'values()')
        ctx.same([round(t.frames, 5) for t in tl.keys()], [w[0] for w in wanted], 'keys()')
        ctx.same([(round(t.frames, 5), look(w)) for t, w in tl.items()],
                 [(w[0], w) for w in wanted], 'items()')
        ctx.same(bool(tl), bool(m), 'bool(timeline)')
        for w in tl:
            ctx.same(w.time.fps, self.fps, 'fps of waypoint')
        for name, (say, frames) in TIMES.items():
            f = frames(self.fps)
            try:
                found = look(tl[say(self.animation)])
            except KeyError:
                found = None
            match = [x for x in wanted if abs(x[0]-f)<1e-4]
            ctx.same(found, match[0] if match else None, f'timeline[{name}]')
        if not self.is_animated():
            ctx.same(read(value), self.model[1], 'value')

    def check_file(self):
        """What would be written to disk?"""
        ctx = self.ctx
        self.animation.save()
        data, _ = sif.payload(self.path)
        root = sif.parse(data)
        params = {p.get('name'): p for p in root.iter('param')}
        ctx.same(sorted(params), ['after', 'before', 'p'], 'params')
        ctx.same(len(params['p']), 1, 'number of values of the param')
        try:
            found = describe(self.k.name, params['p'][0])
        except ValueError as e:
            raise Violation(f'the file is ill-formed: {e}\n{data.decode()}')
        if self.is_animated():
            wanted = ('animated', [(round(f, 5),)+self.model[f] for f in sorted(self.model)])
            found = ('animated', [(round(w[0], 5),)+w[1:] for w in found[1]])
        else:
            wanted = self.model
        ctx.same(found, wanted, 'in the file')

        # nothing else changed
        original = sif.parse(self.text.encode('utf-8'))
        for r in (root, original):
            for p in r.iter('param'):
                if p.get('name')=='p':
                    p[:] = []
        a, b = sif.canon_element(original), sif.canon_element(root)
        ctx.check(a==b, 'something else changed:\n', sif.diff(a, b))

        again = sangfroid.Animation(self.path)
        self.stare(again.find('circle')['p'])


OPS = {
        'set int0': ('set', ['int0', 1, 'py']),
        'set T1s value': ('set', ['T1s', 2, 'value']),
        'set str12f': ('set', ['str12f', 0, 'kept']),
        'set last': ('set', ['last', 1, 'py']),
        'set 12.5 second': ('set', ['float12.5', 2, 'second']),
        'setwp int12': ('setwp', ['int12', 1]),
        'add 24': ('add', [[[24, 1]], False, 'add']),
        'add list': ('add', [[[48, 0], [12, 2]], True, 'add']),
        'add 0 60': ('add', [[[60, 0], [0, 2]], False, 'add']),
        'add none': ('add', [[], False, 'add']),
        'iadd 36': ('add', [[[36, 1]], True, 'iadd']),
        'attr iadd': ('add', [[[1, 0], [12, 0]], True, 'attr-iadd']),
        'del int0': ('del', 'int0'),
        'del str12f': ('del', 'str12f'),
        'del T1s': ('del', 'T1s'),
        'del missing': ('del', 'missing'),
        'del last': ('del', 'last'),
        'assign list': ('assign', 'list'),
        'assign empty': ('assign', 'empty'),
        'assign other': ('assign', 'other'),
        'assign self': ('assign', 'self'),
        'assign dict': ('assign', 'dict'),
        'assign junk': ('assign', 'junk'),
        'animate': ('animated', True),
        'unanimate': ('animated', False),
        'value': ('value', 2),
        'bad type': ('bad', 'type'),
        'bad args': ('bad', 'args'),
        }


def run(ctx, case):
    kind, start, fps, ops = case
    world = World(ctx, kind, start, fps)
    for op in ops:
        name, arg = OPS[op]
        ctx.note(op)
        getattr(world, 'op_'+name)(arg)
        ctx.step()
        world.glance(world.second)
    world.stare(world.second)
    world.glance(world.value)
    world.glance(world.layer['p'])
    world.check_file()
    ctx.state(kind, fps, world.model)
    ctx.outcomes.add(len(world.as_dict()))


def cases(tier):
    for kind in KINDS:
        for fps in ('24', '29.97'):
            if kind=='time' and fps!='24':
                continue
            for start in START:
                if tier=='quick':
                    deep = kind=='real' and fps=='24' and start=='two'
                    depth = 3 if deep else 2
                    if (fps!='24' or start not in ('static', 'two')) and kind!='real':
                        depth = 1
                else:
                    depth = 4 if (kind=='real' and fps=='24' and start in ('static', 'two')) else 3
                    if fps!='24' and kind!='real':
                        depth = 2
                for ops in sequences(sorted(OPS), depth, shortest=0):
                    yield [kind, start, fps, ops]
    for ops in periodic(sorted(OPS), 7):
        yield ['real', 'two', '24', ops]
    for kind in KINDS:
        for ops in walks(sorted(OPS), 40):
            yield [kind, 'static', '24', ops]


# --------------------------------------------------------------
# A file may hold its waypoints in any order.

def unsorted_cases(tier):
    import itertools
    for kind in ('real', 'string', 'color'):
        for p in itertools.permutations(range(4)):
            yield [kind, list(p)]


def unsorted_run(ctx, case):
    kind, order = case
    k = KINDS[kind]
    times = ['0f', '12f', '1s', '2s 12f']
    frames = [0.0, 12.0, 24.0, 60.0]
    text = sif.canvas('<layer type="circle"><param name="p">'+animated(
        k, [(times[i], i%2, 'linear', 'halt') for i in order])+'</param></layer>')
    for edit in ('none', 'set', 'del', 'add'):
        path = sif.write(ctx.path(), text)
        a = sangfroid.Animation(path)
        p = a.find('circle')['p']
        wanted = dict((frames[i], k.norm(k.samples[i%2])) for i in range(4))
        if edit=='set':
            p.timeline[36] = k.samples[0]
            wanted[36.0] = k.norm(k.samples[0])
        elif edit=='del':
            del p.timeline[12]
            del wanted[12.0]
        elif edit=='add':
            p.timeline.add(Waypoint(T(6), k.cls(k.samples[1])))
            wanted[6.0] = k.norm(k.samples[1])
        ctx.step()
        for f, val in wanted.items():
            ctx.same(k.read(p.timeline[f].value), val, f'lookup of {f}')
        ctx.same([(w.time.frames, k.read(w.value)) for w in p.timeline],
                 sorted(wanted.items()), 'iteration')
        ctx.same(len(p.timeline), len(wanted), 'len')
        ctx.same([t.frames for t in p.timeline.keys()], sorted(wanted), 'keys')
        ctx.same([w.time.frames for w in p.timeline.values()], sorted(wanted), 'values')
        ctx.same([(t.frames, k.read(w.value)) for t, w in p.timeline.items()], sorted(wanted.items()), 'items')
        for missing in (1, 7, 100):
            try:
                p.timeline[missing]
                ok = False
            except KeyError:
                ok = True
            ctx.check(ok, 'lookup of a missing time')
        a.save()
        if edit!='none':
            root = sif.parse(sif.payload(path)[0])
            found = describe(kind, next(root.iter('animated')))[1]
            ctx.same([(w[0], w[1]) for w in found], sorted(wanted.items()), 'in the file')
        p.is_animated = False
        ctx.same(k.read(p), wanted[0.0], 'the value which is left')
        ctx.state(case, edit)


# --------------------------------------------------------------
# Timelines of many waypoints: one thing done at each place in each.

LONG_MODES = [('linear', 'halt'), ('clamped', 'clamped'), ('auto', 'constant'), ('constant', 'linear'), ('halt', 'auto')]
SPACING = {'close': lambda i: 0.5*i, 'frames': lambda i: float(i), 'seconds': lambda i: 24.0*i, 'uneven': lambda i: float(i*i+3)}


def long_cases(tier):
    sizes = list(range(1, 13))+[17, 33] if tier=='quick' else list(range(1, 41))
    for n in sizes:
        for spacing in SPACING:
            for made in ('file', 'forwards', 'backwards', 'inwards', 'list'):
                if n>12 and (spacing, made) not in (('seconds', 'file'), ('uneven', 'inwards')):
                    continue
                yield [n, spacing, made]


def long_run(ctx, case):
    n, spacing, made = case
    k = KINDS['real']
    at = SPACING[spacing]
    original = {at(i): (i+0.25,)+LONG_MODES[i%5] for i in range(n)}

    def waypoint(f, value, before, after):
        return Waypoint(T(f), k.cls(value), before=before, after=after)

    def animated_text(m):
        return '<animated type="real">'+'\n'.join(
                f'<waypoint time="{f}f" before="{b}" after="{a}"><real value="{x}"/></waypoint>'
                for f, (x, b, a) in m.items())+'</animated>'

    everywhere = sorted(set(original)|{at(i)+0.25 for i in range(n)}|{at(n), 10000.0})
    what = [('nothing', 0)]
    for f in everywhere:
        what += [('set', f), ('add', f), ('overwrite', f), ('setwp', f)]
        if f in original:
            what += [('del', f)]
        else:
            what += [('missing', f)]
    for i in range(n):
        what += [('two', i), ('later', i)]
    what += [('static', 0), ('list', 0), ('clear', 0)]

    for what, where in what:
        xml = animated_text(original) if made=='file' else k.xml(9.0)
        path = sif.write(ctx.path(), sif.canvas(
            f'<layer type="circle"><param name="p">{xml}</param></layer>', end='10m'))
        a = sangfroid.Animation(path)
        p = a.find('circle')['p']
        timeline = p.timeline
        if made!='file':
            order = sorted(original)
            if made=='backwards':
                order.reverse()
            elif made=='inwards':
                order = [x for pair in zip(order, reversed(order)) for x in pair][:n]
            ws = [waypoint(f, *original[f]) for f in order]
            if made=='list':
                p.timeline = ws
            else:
                for w in ws:
                    timeline.add(w)
        wanted = dict(original)
        if what in ('set', 'later'):
            if what=='later':
                where = at(where)
            timeline[where] = -5.0
            wanted[where] = (-5.0, 'clamped', 'clamped')
        elif what=='setwp':
            timeline[where] = waypoint(777, -6.0, 'linear', 'constant')
            wanted[where] = (-6.0, 'linear', 'constant')
        elif what=='add':
            try:
                timeline.add(waypoint(where, -7.0, 'auto', 'halt'))
                ctx.check(where not in original, f'add at {where}, which is taken')
                wanted[where] = (-7.0, 'auto', 'halt')
            except ValueError:
                ctx.check(where in original, f'add at {where} was refused')
        elif what=='overwrite':
            timeline.add([waypoint(where, -7.0, 'auto', 'halt'), waypoint(20000, -8.0, 'halt', 'auto')], overwrite=True)
            wanted[where] = (-7.0, 'auto', 'halt')
            wanted[20000.0] = (-8.0, 'halt', 'auto')
        elif what=='del':
            del timeline[where]
            gone = wanted.pop(where)
            if not wanted:
                ctx.check(not p.is_animated, 'still animated')
                ctx.same(k.read(p), gone[0], 'the value which is left')
                ctx.step()
                continue
        elif what=='missing':
            for f in (lambda: timeline[where], lambda: timeline.__delitem__(where)):
                try:
                    f()
                    ok = False
                except KeyError:
                    ok = True
                ctx.check(ok, f'{where} is missing')
        elif what=='two':
            # remove one, and put it back somewhere else
            w = timeline[at(where)]
            del timeline[at(where)]
            timeline[9999] = w
            wanted[9999.0] = wanted.pop(at(where))
        elif what=='static':
            p.is_animated = False
            ctx.same(k.read(p), original[min(original)][0], 'the value which is left')
            ctx.step()
            continue
        elif what=='list':
            p.timeline = list(timeline)
        elif what=='clear':
            for f in sorted(original):
                del timeline[f]
            ctx.check(not p.is_animated, 'still animated')
            ctx.same(k.read(p), original[max(original)][0], 'the value which is left')
            ctx.step()
            continue
        ctx.step()
        wanted = {f: (x, IN_MEMORY[b], IN_MEMORY[aft]) for f, (x, b, aft) in sorted(wanted.items())}

        def shown(w):
            return (w.value.value, w.before, w.after)

        message = f'{what} {where}: '
        again = a.find('circle')['p'].timeline
        for tl in (timeline, again):
            ctx.same([(w.time.frames, shown(w)) for w in tl], list(wanted.items()), message+'iteration')
        ctx.same([t.frames for t in again.keys()], list(wanted), message+'keys')
        ctx.same([shown(w) for w in again.values()], list(wanted.values()), message+'values')
        ctx.same([(t.frames, shown(w)) for t, w in again.items()], list(wanted.items()), message+'items')
        ctx.same((len(again), len(p), bool(again)), (len(wanted), len(wanted), True), message+'len')
        if n<=12:
            for f in wanted:
                ctx.same(shown(again[f]), wanted[f], message+f'lookup of {f}')
        a.save()
        found = describe('real', next(sif.parse(sif.payload(path)[0]).iter('animated')))[1]
        ctx.same([(w[0], (w[1], IN_MEMORY[w[2]], IN_MEMORY[w[3]])) for w in found], list(wanted.items()), message+'in the file')
        ctx.state(tuple(wanted.items()))


# --------------------------------------------------------------
# Times before the start

BEFORE = {'-2s': -48.0, '-1s 12f': -36.0, '-24f': -24.0, '-0.5f': -0.5, '0f': 0.0, '1s': 24.0}


def before_cases(tier):
    for n in range(1, 5 if tier=='quick' else 6):
        for chosen in itertools.combinations(sorted(BEFORE), n):
            for made in ('file', 'strings', 'times', 'list', 'backwards'):
                yield [list(chosen), made]


def before_run(ctx, case):
    chosen, made = case
    for what in ['nothing', 'static', 'list', 'clear']+[['del', t] for t in chosen]+[['set', t] for t in sorted(BEFORE)]+[['missing', t] for t in sorted(BEFORE) if t not in chosen]:
        model = {BEFORE[t]: float(i) for i, t in enumerate(chosen)}
        order = sorted(chosen, key=BEFORE.get, reverse=(made=='backwards'))
        xml = '<real value="9.0"/>'
        if made=='file':
            xml = '<animated type="real">'+''.join(
                    f'<waypoint time="{t}" before="linear" after="linear"><real value="{model[BEFORE[t]]}"/></waypoint>' for t in order)+'</animated>'
        path = sif.write(ctx.path(), sif.canvas(f'<layer type="circle"><param name="p">{xml}</param></layer>'))
        a = sangfroid.Animation(path)
        p = a.find('circle')['p']
        if made in ('strings', 'backwards'):
            for t in order:
                p.timeline[t] = model[BEFORE[t]]
        elif made=='times':
            for t in order:
                p.timeline[T(t, ref=a)] = model[BEFORE[t]]
        elif made=='list':
            p.timeline = [Waypoint(T(t, ref=a), sangfroid.value.Real(model[BEFORE[t]])) for t in reversed(order)]
        ctx.step()
        if what=='static':
            p.is_animated = False
            model = model[min(model)]
        elif what=='list':
            p.timeline = list(p.timeline)
        elif what=='clear':
            last = model[max(model)]
            for t in sorted(chosen, key=BEFORE.get):
                del p.timeline[t]
            model = last
        elif what[0]=='del':
            del p.timeline[what[1]]
            gone = model.pop(BEFORE[what[1]])
            if not model:
                model = gone
        elif what[0]=='set':
            p.timeline[what[1]] = 77.0
            model[BEFORE[what[1]]] = 77.0
        elif what[0]=='missing':
            for f in (lambda: p.timeline[what[1]], lambda: p.timeline.__delitem__(what[1])):
                try:
                    f()
                    ok = False
                except KeyError:
                    ok = True
                ctx.check(ok, what, 'should raise KeyError')
        message = f'{chosen} {made}, {what}: '
        for again in range(2):
            p = a.find('circle')['p']
            if isinstance(model, float):
                ctx.check(not p.is_animated, message+'still animated')
                ctx.same(p.value, model, message+'the value which is left')
            else:
                wanted = sorted(model.items())
                ctx.same([(w.time.frames, w.value.value) for w in p.timeline], wanted, message+'iteration')
                ctx.same([(t.frames, w.value.value) for t, w in p.timeline.items()], wanted, message+'items')
                ctx.same([t.frames for t in p.timeline.keys()], sorted(model), message+'keys')
                for t, f in BEFORE.items():
                    if f in model:
                        ctx.same(p.timeline[t].value.value, model[f], message+f'at {t}')
                        ctx.same(p.timeline[T(t, ref=a)].value.value, model[f], message+f'at T({t})')
            if again:
                break
            a.save()
            a = sangfroid.Animation(path)
        ctx.state(tuple(sorted(model.items())) if isinstance(model, dict) else model)


# --------------------------------------------------------------
# Times which are very close together are still different times

NEAR_TIMES = [0.0, 12.0, 24.0, 36.5, 119.0]
NEAR_OFF = [0.0, 0.001, -0.001, 0.01, -0.01, 0.25, -0.25]
NEAR_SAYS = {
        'float': lambda a, f: f,
        'T': lambda a, f: T(f),
        'T here': lambda a, f: T(f, ref=a),
        'str': lambda a, f: '%.3ff' % f,
        # five seconds at 24fps, and one frame more
        'from the end': lambda a, f: f-121.0,
        'T from the end': lambda a, f: T(f-121.0, ref=a),
        'int': lambda a, f: int(f) if f==int(f) else f,
        'int from the end': lambda a, f: int(f)-121 if f==int(f) else f-121.0,
        }


def near_cases(tier):
    for n in range(1, len(NEAR_TIMES)+1):
        for chosen in itertools.combinations(NEAR_TIMES, n):
            for say in sorted(NEAR_SAYS):
                yield [list(chosen), say]


def near_run(ctx, case):
    chosen, say = case
    text = sif.canvas('<layer type="circle"><param name="p"><animated type="real">'+''.join(
        f'<waypoint time="{f}f" before="linear" after="linear"><real value="{f}"/></waypoint>' for f in chosen)+
        '</animated></param></layer>', fps='24', end='5s')
    path = sif.write(ctx.path(), text)
    for base in NEAR_TIMES:
        for off in NEAR_OFF:
            frames = base+off
            if frames<0:
                continue
            for op in ('get', 'del', 'set', 'add', 'overwrite'):
                a = sangfroid.Animation(path)
                timeline = a.find('circle')['p'].timeline
                where = NEAR_SAYS[say](a, frames)
                # exactly which time that is, is C04's business
                exactly = T(where, ref=a).frames
                ctx.check(abs(exactly-frames)<1e-6, f'{where!r} is {exactly}')
                model = {f: f for f in chosen}
                hit = [f for f in chosen if abs(f-frames)<1e-6]
                if 'end' in say and exactly!=frames:
                    hit = [f for f in chosen if f==exactly]
                message = f'{op} {where!r} in {chosen}: '
                ctx.step()
                if op=='get':
                    try:
                        found = timeline[where].value.value
                    except KeyError:
                        found = None
                    ctx.same(found, hit[0] if hit else None, message)
                    continue
                try:
                    if op=='del':
                        del timeline[where]
                    elif op=='set':
                        timeline[where] = -1.0
                    else:
                        timeline.add(Waypoint(T(where, ref=a), sangfroid.value.Real(-1.0)), overwrite=(op=='overwrite'))
                    worked = True
                except (KeyError if op=='del' else ValueError):
                    worked = False
                ctx.same(worked, {'del': bool(hit), 'set': True, 'add': not hit, 'overwrite': True}[op], message+'accepted')
                if worked and op=='del':
                    del model[hit[0]]
                elif worked:
                    for f in hit:
                        del model[f]
                    model[exactly] = -1.0
                if model:
                    found = [(round(w.time.frames, 6), w.value.value) for w in timeline]
                    ctx.same(found, [(round(f, 6), x) for f, x in sorted(model.items())], message+'afterwards')
                    ctx.same(len(timeline), len(model), message+'len')
                ctx.state(sorted(model.items()))


# --------------------------------------------------------------
# Two timelines compared (waypoints at the same time are equal)

def equal_cases(tier):
    times = [0, 12, 24, 36]
    subsets = [list(c) for n in range(len(times)+1) for c in itertools.combinations(times, n)]
    for one in subsets:
        for other in subsets:
            yield [one, other]


def equal_run(ctx, case):
    def p(name, chosen):
        x = ('<animated type="real">'+''.join(
            f'<waypoint time="{f}f" before="linear" after="linear"><real value="{f}"/></waypoint>' for f in chosen)+'</animated>'
            ) if chosen else '<real value="1.0"/>'
        return f'<param name="{name}">{x}</param>'
    one, other = case
    a = sangfroid.Animation(sif.write(ctx.path(), sif.canvas('<layer type="circle">'+p('p', one)+p('q', other)+'</layer>')))
    layer = a.find('circle')
    p, q = layer['p'].timeline, layer['q'].timeline
    wanted = one==other
    ctx.step()
    ctx.same((p==q, q==p, p!=q, q!=p), (wanted, wanted, not wanted, not wanted), 'two timelines')
    ctx.same((p==list(q), list(p)==list(q), p==q.values()), (wanted,)*3, 'a timeline and a list')
    ctx.same(p==p, True, 'a timeline and itself')
    ctx.state(case)


UNITS = [
        Unit('near', near_cases, near_run),
        Unit('equal', equal_cases, equal_run),
        Unit('before', before_cases, before_run),
        Unit('many', long_cases, long_run),
        Unit('unsorted', unsorted_cases, unsorted_run),
        Unit('histories', cases, run),
        ]
