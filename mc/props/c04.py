"""
C04: every time can be written down and read back.
"""
import re

import bs4
import sangfroid
from sangfroid import T
from mc import sif
from mc.core import Unit

BOUNDS = {
        'quick': '17 frame rates x (every whole frame in -2000..7400, three frames '
            'each side of every minute to 130 and every hour to 100, every 1/8, 1/10 and 1/1000 '
            'of a frame near the boundaries, and their negatives); these and 17 odder rates (0.1 to 1000) x times up to 100,000 hours, powers of 2 and 10, and any number of nines',
        'thorough': 'every whole frame up to 100,000; every second up to 100 hours',
        }
ASSUMPTIONS = ['times are compared to a millionth of a frame, which is all the '
               'precision that is written']

RATES = ['1', '2.5', '7', '8', '10', '12', '12.5', '15', '23.976', '24', '25',
         '29.97', '30', '48', '50', '59.94', '60']
ODD_RATES = ['0.5', '0.1', '3', '11', '14.985', '18', '47.952', '72', '90', '99', '100', '119.88', '120', '144', '240', '300', '1000']

# no exponents: Synfig wouldn't read them. Units in order, at most once each.
GRAMMAR = re.compile(
        r'^(-)?(?:(\d+)h)?(?: ?(\d+)m)?(?: ?(\d+)s)?(?: ?(\d+(?:\.\d+)?)f)?$')


def meaning(s, fps):
    """What Synfig would make of the string, in frames."""
    m = GRAMMAR.match(s)
    if m is None or not any(m.groups()[1:]):
        return None
    minus, h, mi, sec, f = m.groups()
    seconds = int(h or 0)*3600+int(mi or 0)*60+int(sec or 0)
    if fps is None:
        if seconds:
            return None
        frames = float(f)
    else:
        frames = seconds*fps + float(f or 0)
    return -frames if minus else frames


_docs = {}

def doc(fps):
    if fps not in _docs:
        soup = bs4.BeautifulSoup(
                sif.canvas('<layer type="circle"><param name="z"><time value="0f"/></param></layer>',
                           fps=fps), features='xml')
        _docs[fps] = soup
    return _docs[fps].find('layer')


def frames_for(fps, tier):
    f = float(fps)
    seen = set()
    for i in range(-2000, 7400 if tier=='quick' else 100000):
        yield float(i)
    marks = [60*n for n in range(1, 130)]+[3600*n for n in range(1, 101)]
    if tier!='quick':
        marks = range(1, 360000)
    for n in marks:
        mark = f*n
        for d in (-3, -2, -1, 0, 1, 2, 3):
            yield mark+d
            yield float(round(mark)+d)
            yield -(mark+d)
    for n in [0, 1, 2, 59, 60, 61, 119, 120, 3599, 3600, 3661, 86400]:
        mark = f*n
        for d in range(-20, 21):
            for size in (8, 10, 1000, 4, 3, 1000000):
                yield mark+d/size
                yield -(mark+d/size)


def far_frames(fps):
    """Times a long way off, and any number of nines."""
    f = float(fps)
    marks = [n*3600 for n in (*range(95, 106), 127, 128, 255, 256, 365, 500, 720, 999, 1000, 1001, 8760, 9999, 10000, 10001, 100000)]
    marks += [10**k for k in range(0, 8)] + [2**k for k in range(3, 25)] + list(range(0, 130))
    for n in marks:
        for x in (f*n, float(n)):
            for d in (-1, -0.5, 0, 0.5, 1):
                if x+d>=0:
                    yield x+d
                yield -(x+d)
    for k in range(1, 7):
        for whole in (0, 1, 9, 99, 999, f-1, f*60-1, f*3600-1):
            for x in (whole+1-10**-k, whole+10**-k, whole+9*10**-k):
                if x>=0:
                    yield x
                yield -x


CHUNKS = 16

def cases(tier):
    for fps in RATES+ODD_RATES+[None]:
        yield ['far', fps, None]
    for fps in RATES+[None]:
        for chunk in range(CHUNKS):
            yield [tier, fps, chunk]


def run(ctx, case):
    tier, fps_s, chunk = case
    fps = None if fps_s is None else float(fps_s)
    ref = None if fps is None else doc(fps_s)

    for i, frames in enumerate(far_frames(fps_s or '24') if tier=='far' else frames_for(fps_s or '24', tier)):
        if chunk is not None and i%CHUNKS!=chunk:
            continue
        if frames<0:
            # a negative number counts from the end: say it with a string
            t = T('%.7ff' % (frames,), ref=ref)
            frames = float('%.7f' % (frames,))
        else:
            t = T(frames, ref=ref)
        ctx.check(abs(t.frames-frames)<=1e-6, f'T({frames}).frames is {t.frames}')
        s = str(t)
        ctx.step()
        found = meaning(s, fps)
        ctx.check(found is not None,
                  f'{frames} frames at {fps_s} fps is written as {s!r}, '
                  'which Synfig would not understand')
        ctx.check(abs(found-frames)<=2e-6+abs(frames)*1e-12,
                  f'{frames} frames at {fps_s} fps is written as {s!r}, '
                  f'which is {found} frames')
        back = T(s, ref=ref)
        ctx.check(abs(back.frames-frames)<=2e-6+abs(frames)*1e-12,
                  f'{frames} frames at {fps_s} fps is written as {s!r}, '
                  f'which reads back as {back.frames} frames')
        again = meaning(str(back), fps)
        ctx.check(again is not None and
                  abs(again-frames)<=4e-6+abs(frames)*1e-12,
                  f'{frames} frames at {fps_s} fps, written, '
                  f'read, and written again, is {str(back)!r}')
        ctx.same(repr(t), s, 'repr')
        if i%97==0:
            ctx.state(fps_s, s)


# --------------------------------------------------------------
# The same, by way of a file: keyframes, params, waypoints

def file_cases(tier):
    for fps in RATES+ODD_RATES:
        for n in [*range(0, 40), 100, 1000]:
            yield [fps, n]


def file_frames(fps, n):
    f = float(fps)
    return [n*7.0, n*f, n*f*60+n, n*f*3600+n/4, float(round(n*f*61)), n*1.125,
            n+0.001]


def file_run(ctx, case):
    fps, n = case
    # (some come to nearly the same at some rates)
    wanted = sorted({round(x, 4): x for x in file_frames(fps, n)}.values())
    path = sif.write(ctx.path(), sif.canvas(
        '<layer type="circle"><param name="radius"><real value="1"/></param></layer>'
        '<layer type="timeloop"><param name="duration"><time value="0f"/></param></layer>',
        fps=fps))
    a = sangfroid.Animation(path)
    radius = a.find('circle')['radius']
    for i, frames in enumerate(wanted):
        radius.timeline[frames] = float(i)
    a.find('timeloop')['duration'] = T(wanted[-1], ref=a)
    a.end_time = wanted[-1]
    a.save()
    ctx.step(len(wanted)+3)

    b = sangfroid.Animation(path)
    found = [w.time.frames for w in b.find('circle')['radius'].timeline]
    ctx.same(len(found), len(wanted), f'number of waypoints {found} {wanted}')
    for f, w in zip(found, wanted):
        ctx.check(abs(f-w)<2e-6, f'waypoint at {w} became {f}')
    found = b.find('timeloop')['duration'].value.frames
    ctx.check(abs(found-wanted[-1])<2e-6, f'time param {wanted[-1]} became {found}')
    found = b.end_time.frames
    ctx.check(abs(found-wanted[-1])<2e-6, f'end time {wanted[-1]} became {found}')
    # and Synfig can read it
    xml = sif.parse(sif.payload(path)[0])
    for s in ([w.get('time') for w in xml.iter('waypoint')]+
              [t.get('value') for t in xml.iter('time')]+[xml.get('end-time')]):
        ctx.check(meaning(s, float(fps)) is not None, f'{s!r} in the file')
        ctx.state(fps, s)


UNITS = [
        Unit('print-parse', cases, run),
        Unit('through-a-file', file_cases, file_run),
        ]
