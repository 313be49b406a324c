"""
C09: a waypoint keeps its interpolation, its value and its other attributes.
"""
import itertools

import sangfroid
from sangfroid import T
from sangfroid.value import Waypoint
from mc import sif
from mc.core import Unit, sequences, periodic, walks
from mc.values import KINDS, IN_MEMORY, IN_FILE, INTERPOLATIONS

BOUNDS = {
        'quick': 'all pairs of interpolations by every name each has, three ways of making a waypoint, 9 types of value; '
            '12 names which mean nothing; all histories of <=3 of 16 operations on a timeline of 3 waypoints, '
            'for 4 types of value; 6 changes at each place in timelines of up to 10 waypoints; '
            'also histories of 7 with a period of <=2, and of 30 in which each operation follows each',
        'thorough': 'all histories of <=4 operations; all 9 types of value',
        }
ASSUMPTIONS = []

# every name by which a user can ask for an interpolation, and the file's
NAMES = {**{u: f for f, u in IN_MEMORY.items()}, **{f: f for f in INTERPOLATIONS}}
BAD = ['undefined', 'banana', '', 'clamped ', 'lin', None, 0, 3, True, 'none', 'hold', 'Auto!']


def value_of(kind, i):
    k = KINDS[kind]
    if kind=='time':
        return sangfroid.value.Time(T(k.norm(k.samples[i%3])))
    return k.cls(k.samples[i%len(k.samples)])


def document(kind, content=None):
    k = KINDS[kind]
    content = content or k.xml(k.samples[0])
    return sif.canvas(
            '<layer type="circle" desc="c"><param name="p">'
            f'{content}</param></layer>')


def waypoints_in(path, kind):
    k = KINDS[kind]
    root = sif.parse(sif.payload(path)[0])
    e = root.find('.//param')[0]
    result = []
    for w in e.iter('waypoint'):
        attrs = dict(w.attrib)
        result.append((attrs.pop('time'), attrs.pop('before'), attrs.pop('after'),
                       tuple(sorted(attrs.items())),
                       k.from_xml(w[0]), tuple(sorted(
                           (a, b) for a, b in w[0].attrib.items() if a!='value')),
                       len(w)))
    return e.tag, result


def pair_cases(tier):
    for kind in KINDS:
        for before, after in itertools.product(NAMES, NAMES):
            for how in ('construct', 'set', 'file', 'after-reading'):
                if kind!='real' and how!='construct' and before!=after:
                    continue
                yield [kind, before, after, how]


def pair_run(ctx, case):
    kind, before, after, how = case
    path = ctx.path('w.sif')
    fb, fa = NAMES[before], NAMES[after]
    k = KINDS[kind]
    ctx.step()
    if how=='file':
        content = (f'<animated type="{kind}"><waypoint time="12f" before="{fb}" after="{fa}">'
                   f'{k.xml(k.samples[1])}</waypoint></animated>')
        sif.write(path, document(kind, content))
        a = sangfroid.Animation(path)
        w = a[0]['p'].timeline[12]
        # have it rewritten
        timeline = a[0]['p'].timeline
        timeline[12] = w
    else:
        sif.write(path, document(kind))
        a = sangfroid.Animation(path)
        timeline = a[0]['p'].timeline
        if how=='construct':
            w = Waypoint(T(12), value_of(kind, 1), before, after)
            timeline.add(w)
        elif how=='set':
            w = Waypoint(T(12), value_of(kind, 1))
            ctx.same((w.before, w.after), ('clamped', 'clamped'), 'unless you ask')
            w.before = before
            w.after = after
            timeline += w
        else:
            timeline[12] = value_of(kind, 1)
            w = timeline[12]
            w.before = before
            w.after = after
            timeline[12] = w
    wanted = (IN_MEMORY[fb], IN_MEMORY[fa])
    ctx.same((w.before, w.after), wanted, 'waypoint')
    w = a[0]['p'].timeline[12]
    ctx.same((w.before, w.after), wanted, 'waypoint on the timeline')
    str(w)
    a.save()
    ctx.state(case)
    tag, found = waypoints_in(path, kind)
    found = [(T(f[0], ref=a).frames,)+f[1:] for f in found]
    ctx.same((tag, found), ('animated', [(12.0, fb, fa, (), k.norm(k.samples[1]), (), 1)]),
             'in the file')
    w = sangfroid.Animation(path)[0]['p'].timeline[12]
    ctx.same((w.before, w.after), wanted, 'after reloading')


def bad_cases(tier):
    for bad in BAD:
        for side in ('before', 'after'):
            for how in ('construct', 'set'):
                yield [bad, side, how]


def bad_run(ctx, case):
    bad, side, how = case
    ctx.step()
    ctx.state(case)
    v = value_of('real', 1)
    w = Waypoint(T(12), v, 'ease', 'constant')
    try:
        if how=='construct':
            Waypoint(T(12), v, **{side: bad})
        else:
            setattr(w, side, bad)
        ok = False
    except (ValueError, TypeError):
        ok = True
    ctx.check(ok, f'{side}={bad!r} was accepted')
    ctx.same((w.before, w.after), ('ease', 'constant'), 'after refusal')


# ------------------------------------------------------------- histories

START = {  # frames: (before, after, extra, sample, extra attributes of the value)
        0: ('halt', 'linear', 'tension="0.25" continuity="1"', 0, 'guid="AA"'),
        12: ('auto', 'constant', 'bias="-1" note="" tension="0"', 1, 'label=""'),
        24: ('linear', 'halt', 'temporal-tension="2" zork="a &amp; b"', 2, 'guid="BB" static="false"'),
        }
OPS = [
        'read', 'delete 12', 'delete 0', 'overwrite 12', 'new 6', 'new 48',
        'add 36', 'iadd 12', 'move 12', 'flip 12', 'put 24', 'animate',
        'save', 'reopen', 'assign-timeline', 'copy-over',
        ]


def extras(s):
    return tuple(sorted(sif.parse(f'<x {s}/>'.encode()).attrib.items()))


def history_cases(tier):
    kinds = list(KINDS) if tier=='thorough' else ['real', 'color', 'string', 'vector']
    for kind in kinds:
        depth = 3 if (kind=='real' or tier=='thorough') else 2
        if tier=='thorough' and kind=='real':
            depth = 4
        for ops in sequences(OPS, depth):
            yield [kind, ops]
        for ops in periodic(OPS, 7):
            yield [kind, ops]
        for ops in walks(OPS, 30):
            yield [kind, ops]


def history_run(ctx, case):
    kind, ops = case
    k = KINDS[kind]
    path = ctx.path('h.sif')
    content = f'<animated type="{kind}">'
    model = {}
    for frames, (b, a, extra, i, inner) in START.items():
        sample = k.samples[i%len(k.samples)]
        x = k.xml(sample)
        x = x.replace(f'<{kind}', f'<{kind} {inner}', 1)
        content += (f'<waypoint time="{frames}f" before="{b}" after="{a}" {extra}>'
                    f'{x}</waypoint>\n')
        model[float(frames)] = (b, a, extras(extra), k.norm(sample), extras(inner))
    content += '</animated>'
    sif.write(path, document(kind, content))
    a = sangfroid.Animation(path)

    def norm(i):
        return k.norm(k.samples[i%len(k.samples)])

    for op in ops:
        ctx.step()
        ctx.note(op)
        value = a[0]['p']
        timeline = value.timeline
        name, _, t = op.partition(' ')
        t = float(t) if t else None
        if name=='read':
            for w in timeline:
                str(w), w.value.value, w.before, w.after, w.tag
            timeline.keys(), timeline.values(), timeline.items(), len(timeline), str(timeline)
        elif name=='delete':
            if t in model:
                del timeline[t]
                gone = model.pop(t)
                if not model:
                    # so the value is static; that's another property's business
                    return
            else:
                continue
        elif name in ('overwrite', 'new'):
            timeline[t] = value_of(kind, 2)
            model[t] = ('clamped', 'clamped', (), norm(2), ())
        elif name in ('add', 'iadd'):
            w = Waypoint(T(t), value_of(kind, 1), 'linear', 'ease')
            if name=='iadd':
                timeline += w
            elif t in model:
                continue
            else:
                timeline.add(w)
            model[t] = ('linear', 'halt', (), norm(1), ())
        elif name=='move':
            # take a waypoint off, and put it somewhere else
            if t not in model:
                continue
            w = timeline[t]
            del timeline[t]
            if len(model)==1:
                return
            w.time = T(60)
            if 60.0 in model:
                timeline += w
            else:
                timeline.add(w)
            model[60.0] = model.pop(t)
        elif name=='flip':
            if t not in model:
                continue
            w = timeline[t]
            w.before, w.after = w.after, w.before
            timeline[t] = w
            b, af, *rest = model[t]
            model[t] = (af, b, *rest)
        elif name=='put':
            # a waypoint of our own into another place, by assignment
            if 0.0 not in model:
                continue
            timeline[t] = timeline[0]
            model[t] = model[0.0]
        elif name=='animate':
            value.is_animated = True
        elif name=='save':
            a.save()
        elif name=='reopen':
            a.save()
            a = sangfroid.Animation(path)
        elif name=='assign-timeline':
            value.timeline = timeline
            value.timeline = list(timeline)
        elif name=='copy-over':
            a[0]['p'] = k.cls(__import__('copy').copy(value.tag))

    a.save()
    tag, found = waypoints_in(path, kind)
    found = {T(f[0], ref=a).frames: f[1:-1] for f in found}
    ctx.state(kind, sorted(model.items()))
    ctx.same(found, model, 'waypoints in the file')

    for handle in (a, sangfroid.Animation(path)):
        timeline = handle[0]['p'].timeline
        ctx.same(
                {w.time.frames: (w.before, w.after, k.read(w.value)) for w in timeline},
                {t: (IN_MEMORY[m[0]], IN_MEMORY[m[1]], m[3]) for t, m in model.items()},
                'waypoints by the API')


# --------------------------------------------------------------

def many_cases(tier):
    for kind in ('real', 'string', 'color'):
        for n in range(1, 11 if tier=='quick' else 21):
            yield [kind, n]


def many_run(ctx, case):
    """Each of many waypoints keeps what it has, when another changes."""
    kind, n = case
    k = KINDS[kind]
    modes = list(itertools.product(INTERPOLATIONS, repeat=2))
    samples = {
            'real': [i*1.25-3 for i in range(n)],
            'string': [f'word {i}' for i in range(n)],
            'color': [(i/32, 1-i/32, 0.5) for i in range(n)],
            }[kind]
    content = f'<animated type="{kind}">'
    original = {}
    for i in range(n):
        b, a = modes[i*7%25]
        extra = f'guid="G{i}" tension="0.{i}" bias="{i}" note="{"n"*(i%2)}"'
        inner = f'guid="V{i}"'
        x = k.xml(samples[i]).replace(f'<{kind}', f'<{kind} {inner}', 1)
        content += f'<waypoint time="{5*i}f" before="{b}" after="{a}" {extra}>{x}</waypoint>'
        original[5.0*i] = (b, a, extras(extra), k.norm(samples[i]), extras(inner))
    content += '</animated>'
    ops = [('none', 0), ('reassign', 0), ('saved', 0)]+[(op, 5*i) for i in range(n) for op in ('set', 'del', 'flip', 'earlier', 'between', 'again')]
    for op, t in ops:
        path = sif.write(ctx.path('h.sif'), document(kind, content))
        a = sangfroid.Animation(path)
        timeline = a[0]['p'].timeline
        model = dict(original)
        if op=='set':
            timeline[t] = value_of(kind, 2)
            model[t] = ('clamped', 'clamped', (), k.norm(k.samples[2%len(k.samples)]), ())
        elif op=='between':
            timeline[t+1] = value_of(kind, 2)
            model[t+1.0] = ('clamped', 'clamped', (), k.norm(k.samples[2%len(k.samples)]), ())
        elif op=='del':
            if n==1:
                continue
            del timeline[t]
            del model[t]
        elif op=='flip':
            w = timeline[t]
            w.before, w.after = w.after, w.before
            timeline[t] = w
            b, af, *rest = model[t]
            model[t] = (af, b, *rest)
        elif op=='earlier':
            w = timeline[t]
            w.time = T(2, ref=a)
            timeline.add(w)
            model[2.0] = model[t]
        elif op=='again':
            timeline[t] = timeline[t]
        elif op=='reassign':
            a[0]['p'].timeline = list(timeline)
        elif op=='saved':
            a.save()
            a.save()
        ctx.step()
        ctx.state(case, op, t)
        timeline = a[0]['p'].timeline
        ctx.same({w.time.frames: (w.before, w.after, k.read(w.value)) for w in timeline},
                 {f: (IN_MEMORY[m[0]], IN_MEMORY[m[1]], m[3]) for f, m in model.items()},
                 f'waypoints by the API after {op} {t}')
        a.save()
        _, found = waypoints_in(path, kind)
        ctx.same({T(f[0], ref=a).frames: f[1:-1] for f in found}, model, f'waypoints in the file after {op} {t}')


UNITS = [
        Unit('many', many_cases, many_run),
        Unit('pairs', pair_cases, pair_run),
        Unit('bad', bad_cases, bad_run),
        Unit('histories', history_cases, history_run),
        ]
