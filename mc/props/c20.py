"""
C20: an animation's own settings and keyframes are those in the file.
"""
import itertools

import sangfroid
from sangfroid import T
from mc import sif
from mc.core import Unit, sequences, periodic, walks
from mc.props.c05 import judge

BOUNDS = {
        'quick': 'each of 16 settings, with each of its values, present, and absent; every setting set to every '
            'one of its values in every way; all histories of <=3 of 20 changes of settings, with everything looked at after each, in '
            'memory and after reloading; all sequences of <=3 of 9 keyframes, in two places; '
            'also histories of 7 with a period of <=2, and of 30 in which each change follows each',
        'thorough': 'all histories of <=4 changes; <=4 keyframes',
        }
ASSUMPTIONS = [
        'negative times (counting from the end) as the end itself are not judged',
        'the settings held in <meta> tags are not implemented by the library, so not judged',
        'a document which lacks its frame rate, begin-time or end-time has no defaults for them: '
            'times in it are not judged',
        ]

FLOATS = ['1.0', '0.5', '2.25', '2834.645669', '100', '0.123456789012', '1234567.0625', '0.000001']
INTS = ['1', '480', '1920', '0', '7', '65537', '123456789']

# attribute of Animation: (name in file, kind, strings it might have in a file, default)
SETTINGS = {
        'version': ('version', float, ['1.2', '1.0', '0.9'], 1.2),
        'width': ('width', int, INTS, 480),
        'height': ('height', int, INTS, 270),
        'xres': ('xres', float, FLOATS, 2834.645669),
        'yres': ('yres', float, FLOATS, 2834.645669),
        'gamma_r': ('gamma-r', float, FLOATS, 1.0),
        'gamma_g': ('gamma-g', float, FLOATS, 1.0),
        'gamma_b': ('gamma-b', float, FLOATS, 1.0),
        'view_box': ('view-box', str, ['-4.0 2.25 4.0 -2.25', '-1 1 1 -1', '0.5 0.25 3 -7'], '-4.0 2.25 4.0 -2.25'),
        'antialias': ('antialias', int, ['1', '0', '2'], 1),
        'fps': ('fps', float, ['24', '25.000', '12.5', '29.97', '23.976', '59.9400599', '0.25', '1000'], 24.0),
        'begin_time': ('begin-time', T, ['0f', '1s', '12f', '-1s', '-5f'], None),
        'end_time': ('end-time', T, ['5s', '100f', '1m 2s 3f', '7.5f'], None),
        'bgcolor': ('bgcolor', str, ['0.5 0.5 0.5 1.0', '1 0 0.25 0', '0.125 1.000000 0.000000 0.500000'], '0.5 0.5 0.5 1.0'),
        }
CHILDREN = {
        'name': ['Film', '', ' a  b ', 'x\ny', '<&>"\'', 'é'],
        'desc': ['About it', '', '\n', '"'],
        }
NEEDED = ['fps', 'begin_time', 'end_time'] # the library can't do without

BODY = ('<meta name="grid_show" content="0"/>'
        '<keyframe time="0f" active="true">start</keyframe>'
        '<layer type="group" desc="g" version="0.3" fps="99" width="98"><param name="canvas"><canvas fps="97" width="96" begin-time="3f" gamma-r="9">'
        '<name>inner</name><desc>inner desc</desc>'
        '<layer type="circle" version="0.2"/></canvas></param></layer>')


def document(attrs, children):
    return (sif.HEADER+'<canvas'+''.join(f' {k}="{v}"' for k, v in attrs.items())+' other="kept">'+
            ''.join(f'<{k}>{sif.escape(v)}</{k}>' for k, v in children.items())+BODY+'</canvas>')


BASE = {'version': '1.2', 'width': '640', 'height': '360', 'xres': '10.5', 'yres': '11.5',
        'gamma-r': '1.1', 'gamma-g': '1.2', 'gamma-b': '1.3', 'view-box': '-2 1 2 -1',
        'antialias': '2', 'fps': '24', 'begin-time': '0f', 'end-time': '4s',
        'bgcolor': '0.25 0.5 0.75 1.0'}
BASE_CHILDREN = {'name': 'The name', 'desc': 'The desc'}


def convert(kind, s, fps):
    return judge(s, fps) if kind is T else kind(s)


def look(ctx, a, attrs, children, what):
    """Reads every setting."""
    fps = float(attrs['fps'])
    for field, (name, kind, _, default) in SETTINGS.items():
        found = getattr(a, field)
        if name in attrs:
            wanted = convert(kind, attrs[name], fps)
        else:
            wanted = default
        if kind is T:
            ctx.check(isinstance(found, T), what, field, 'is a', type(found))
            ctx.same(found.fps, fps, f'{what}: fps of {field}')
            ctx.check(abs(found.frames-wanted)<1e-5, what, field, 'is', found.frames, 'not', wanted)
        else:
            ctx.same((type(found), found), (type(wanted), wanted), f'{what}: {field}')
    for field in CHILDREN:
        ctx.same(getattr(a, field), children.get(field, ''), f'{what}: {field}')

    def said(name):
        return attrs[name] if name in attrs else str([d for n, _, _, d in SETTINGS.values() if n==name][0])

    ctx.same(a.size, (int(said('width')), int(said('height'))), f'{what}: size')
    ctx.same(a.viewbox, tuple(float(n) for n in said('view-box').split()), f'{what}: viewbox')
    found = a.background.as_tuple()
    wanted = tuple(float(n) for n in said('bgcolor').split())
    ctx.check(max(abs(f-w) for f, w in zip(found, wanted))<1e-6 and len(found)==4,
              f'{what}: background is {found}, not {wanted}')
    begin, end = (judge(attrs[n], fps) for n in ('begin-time', 'end-time'))
    if end>=begin:
        ctx.same(a.framecount, int(end-begin+1e-9)+1, f'{what}: framecount')
    ctx.same([k.name for k in a.keyframes], ['start'], f'{what}: keyframes')


def canonical(attrs, children, fps):
    """What the root of the saved file should say."""
    result = {}
    for field, (name, kind, _, _) in SETTINGS.items():
        if name in attrs:
            result[name] = convert(kind, attrs[name], fps)
    return result, children


def check_file(ctx, path, original, attrs, children, what):
    root = sif.parse(sif.payload(path)[0])
    fps = float(attrs['fps'])
    for field, (name, kind, _, _) in SETTINGS.items():
        found = root.get(name)
        if name not in attrs:
            ctx.same(found, None, f'{what}: {name} in file')
            continue
        ctx.check(found is not None, f'{what}: {name} is missing from the file')
        wanted = convert(kind, attrs[name], fps)
        try:
            found = convert(kind, found, fps)
            ok = abs(found-wanted)<1e-5 if kind is T else found==wanted
        except (TypeError, ValueError):
            ok = False
        ctx.check(ok, f'{what}: {name} in file is {found!r}, not {wanted!r}')
    for field in CHILDREN:
        found = root.findall(field)
        if field not in children:
            ctx.same(len(found), 0, f'{what}: <{field}> in file')
        else:
            ctx.same([f.text or '' for f in found], [children[field]], f'{what}: <{field}> in file')
    # everything else is as it was
    other = sif.parse(original.encode('utf-8'))
    for r in (root, other):
        for name, *_ in SETTINGS.values():
            r.attrib.pop(name, None)
        for field in CHILDREN:
            for e in r.findall(field):
                r.remove(e)
    x, y = sif.canon_element(other), sif.canon_element(root)
    ctx.check(x==y, f'{what}: something else changed:\n', sif.diff(x, y))


# --------------------------------------------------------------

def read_cases(tier):
    for field, (name, kind, values, default) in SETTINGS.items():
        for v in values:
            yield [field, v]
        if field not in NEEDED:
            yield [field, None]
    for field, values in CHILDREN.items():
        for v in values+[None]:
            yield [field, v]


def read_run(ctx, case):
    field, value = case
    attrs = dict(BASE)
    children = dict(BASE_CHILDREN)
    target, key = (children, field) if field in CHILDREN else (attrs, SETTINGS[field][0])
    if value is None:
        del target[key]
    else:
        target[key] = value
    text = document(attrs, children)
    path = sif.write(ctx.path('r.sif'), text)
    a = sangfroid.Animation(path)
    ctx.step()
    look(ctx, a, attrs, children, 'loaded')
    a.save()
    check_file(ctx, path, text, attrs, children, 'saved')
    ctx.state(case)


# --------------------------------------------------------------

def ways(field, value, a):
    """Different things one could assign, which all mean the same."""
    if field in CHILDREN:
        return [value]
    kind = SETTINGS[field][1]
    if kind is T:
        t = T(value, ref=a)
        # a number below 0 counts from the end
        return [value, t, str(t), T(value, ref=a.tag)]+([t.frames] if t.frames>=0 else [])
    if kind is int:
        return [int(value), value, float(value)]
    if kind is float:
        return [float(value), value]+([int(float(value))] if float(value)==int(float(value)) else [])
    return [value]


def set_cases(tier):
    for field, (name, kind, values, default) in SETTINGS.items():
        for v in values:
            for present in (True, False):
                if present or field not in NEEDED:
                    yield [field, v, present]
    for field, values in CHILDREN.items():
        for v in values:
            for present in (True, False):
                yield [field, v, present]


def set_run(ctx, case):
    field, value, present = case
    i = 0
    while True:
        attrs = dict(BASE)
        children = dict(BASE_CHILDREN)
        target, key = (children, field) if field in CHILDREN else (attrs, SETTINGS[field][0])
        if not present:
            del target[key]
        text = document(attrs, children)
        path = sif.write(ctx.path('s.sif'), text)
        a = sangfroid.Animation(path)
        assign = ways(field, value, a)
        if i>=len(assign):
            break
        ctx.note(field, '=', repr(assign[i]))
        setattr(a, field, assign[i])
        ctx.step()
        target[key] = value
        look(ctx, a, attrs, children, 'set')
        a.save()
        check_file(ctx, path, text, attrs, children, 'saved')
        look(ctx, sangfroid.Animation(path), attrs, children, 'reloaded')
        ctx.state(case, i)
        i += 1


# --------------------------------------------------------------

CHANGES = [
        ['width', '1920'], ['height', '1080'], ['width', '7'],
        ['fps', '25.000'], ['fps', '12.5'], ['fps', '29.97'],
        ['end_time', '1m 2s 3f'], ['end_time', '100f'], ['begin_time', '12f'], ['begin_time', '1s'],
        ['name', 'Film'], ['name', ' a  b '], ['desc', '"'], ['desc', ''],
        ['gamma_r', '0.5'], ['gamma_b', '2.25'], ['view_box', '-1 1 1 -1'],
        ['bgcolor', '1 0 0.25 0'], ['xres', '100'], ['antialias', '1'],
        ]


def history_cases(tier):
    for ops in sequences(range(len(CHANGES)), 3 if tier=='quick' else 4, shortest=2):
        yield ops
    yield from periodic(range(len(CHANGES)), 7)
    yield from walks(range(len(CHANGES)), 30)


def history_run(ctx, case):
    attrs = dict(BASE)
    children = dict(BASE_CHILDREN)
    text = document(attrs, children)
    path = sif.write(ctx.path('h.sif'), text)
    a = sangfroid.Animation(path)
    for i in case:
        field, value = CHANGES[i]
        ctx.note(field, '=', value)
        ctx.step()
        if field in CHILDREN:
            setattr(a, field, value)
            children[field] = value
        else:
            name, kind = SETTINGS[field][:2]
            setattr(a, field, convert(kind, value, None) if kind in (int, float) else value)
            if kind is T:
                # it's written down as it was at the frame rate of the time
                attrs[name] = str(T(value, ref=a.tag))
            else:
                attrs[name] = value
        look(ctx, a, attrs, children, 'set')
    a.save()
    check_file(ctx, path, text, attrs, children, 'saved')
    look(ctx, sangfroid.Animation(path), attrs, children, 'reloaded')
    ctx.state(sorted(attrs.items()), sorted(children.items()))


# --------------------------------------------------------------

KEYFRAMES = [
        ('0f', 'true', 'start'),
        ('12f', 'false', ''),
        ('1s', None, 'no active'),
        ('1s 12f', 'true', ' two  words '),
        ('1m 2s 3f', 'false', '<&>"é'),
        ('2.5f', 'true', 'a\nb'),
        ('1h', None, None),
        ('0f', 'true', 'start'),
        ('3s', 'true', ' '),
        ]


def keyframe_cases(tier):
    for ks in sequences(range(len(KEYFRAMES)), 3 if tier=='quick' else 4, shortest=0):
        for fps in ('24', '29.97'):
            yield [ks, fps]


def keyframe_run(ctx, case):
    ks, fps = case
    body = []
    wanted = []
    for i in ks:
        time, active, name = KEYFRAMES[i]
        body.append(f'<keyframe time="{time}"'+(f' active="{active}"' if active else '')+
                    ('/>' if name is None else f'>{sif.escape(name)}</keyframe>')+'\n')
        wanted.append((round(judge(time, float(fps)), 5), active!='false', name or ''))
    half = len(body)//2
    text = (sif.HEADER+f'<canvas fps="{fps}" begin-time="0f" end-time="5s">'+
            ''.join(body[:half])+'<layer type="circle" desc="c"/>'+''.join(body[half:])+'</canvas>')
    path = sif.write(ctx.path('k.sif'), text)
    original = sif.canon_bytes(text.encode('utf-8'))
    for trip in ('loaded', 'reloaded'):
        a = sangfroid.Animation(path)
        ctx.step()
        for _ in range(2):
            keyframes = a.keyframes
            ctx.same(len(keyframes), len(wanted), trip+': number of keyframes')
            ctx.same([(round(k.time.frames, 5), k.active, k.name) for k in keyframes],
                     wanted, trip+': keyframes')
            ctx.check(all(k.time.fps==float(fps) for k in keyframes), trip+': fps')
            ctx.check(all(k.active is True or k.active is False for k in keyframes), 'active is a bool')
            str(keyframes), [str(k) for k in keyframes]
        ctx.same([x.desc for x in a], ['c'], 'layers')
        a.save()
        ctx.check(sif.canon_bytes(sif.payload(path)[0])==original, 'the file changed')
    ctx.state(case)


def blank_cases(tier):
    yield 0


def blank_run(ctx, case):
    """A new animation is what Synfig would give you."""
    path = ctx.path('blank.sif')
    a = sangfroid.Animation()
    attrs = {'version': '1.2', 'width': '480', 'height': '270', 'xres': '2834.645669',
             'yres': '2834.645669', 'gamma-r': '1', 'gamma-g': '1', 'gamma-b': '1',
             'view-box': '-4.000000 2.250000 4.000000 -2.250000', 'antialias': '1', 'fps': '24',
             'begin-time': '0f', 'end-time': '5s', 'bgcolor': '0.500000 0.500000 0.500000 1.000000'}
    look(ctx, a, attrs, {'name': 'New animation'}, 'new')
    ctx.same(list(a), [], 'layers')
    a.name = 'changed'
    a.width = 5
    b = sangfroid.Animation()
    look(ctx, b, attrs, {'name': 'New animation'}, 'another')
    a.save(path)
    attrs['width'] = '5'
    look(ctx, sangfroid.Animation(path), attrs, {'name': 'changed'}, 'saved')
    ctx.step(3)
    ctx.state('blank')


def many_cases(tier):
    for n in list(range(4, 20))+[50, 200]:
        for where in ('top', 'bottom', 'mixed'):
            yield [n, where]


def many_run(ctx, case):
    """A lot of keyframes, not in order of time."""
    n, where = case
    frames = [(i*37)%(n+3) for i in range(n)]
    keyframes = [f'<keyframe time="{f}f" active="{"true" if i%3 else "false"}">k{i%7}</keyframe>' for i, f in enumerate(frames)]
    layers = ['<layer type="circle" desc="c"/>']*3
    if where=='top':
        body = keyframes+layers
    elif where=='bottom':
        body = layers+keyframes
    else:
        body = []
        for i, k in enumerate(keyframes):
            body += [k]+(layers[:1] if i%2 else ['<!-- x -->'])
    path = sif.write(ctx.path('k.sif'), sif.HEADER+'<canvas fps="24" begin-time="0f" end-time="5s">'+'\n'.join(body)+'</canvas>')
    a = sangfroid.Animation(path)
    ctx.step()
    for _ in range(2):
        ctx.same([(k.time.frames, k.active, k.name) for k in a.keyframes],
                 [(float(f), i%3!=0, f'k{i%7}') for i, f in enumerate(frames)], 'keyframes')
        ctx.same(len(a.keyframes), n, 'number of keyframes')
        a = sangfroid.Animation(path)
    ctx.state(case)


UNITS = [
        Unit('many keyframes', many_cases, many_run),
        Unit('blank', blank_cases, blank_run),
        Unit('read', read_cases, read_run),
        Unit('set', set_cases, set_run),
        Unit('keyframes', keyframe_cases, keyframe_run),
        Unit('histories', history_cases, history_run),
        ]
