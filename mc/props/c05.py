"""
C05: what time specifications mean, and which are refused.
"""
import itertools
import math
import re

import bs4
import sangfroid
from sangfroid import T
from mc import sif
from mc.core import Unit

BOUNDS = {
        'quick': 'every string of <=5 characters over a 13-character alphabet, with and without '
            'a ref; every combination of hours, minutes, seconds, frames from small sets, at 9 frame rates; '
            'every ref in a nested document; every index from the end for 96 lengths of animation; 16 infinite times; each of '
            '64 odd characters or pieces put in or substituted at each place in 9 specifications',
        'thorough': 'every string of <=6 characters',
        }
ASSUMPTIONS = ['specifications with a minus sign anywhere but at the front are not judged, '
               'unless they are malformed anyway']

NUMBER = r'[0-9]+(?:\.[0-9]+)?'
WELL_FORMED = re.compile(
        rf'^\s*(|-(?=[0-9]))(?:({NUMBER})h)?(?: ?({NUMBER})m)?(?: ?({NUMBER})s)?'
        rf'(?: ?({NUMBER})f)?\s*$')
# anything which doesn't even look like this is plainly wrong
PART = r'(-?[0-9.]+(?:e[-+]?[0-9]+)?)([hmsf])\s*'
LENIENT = re.compile(rf'^\s*(?:{PART})+$')
NEGATIVE_LATER = re.compile(rf'^-?{NUMBER}s -{NUMBER}f$')


def judge(s, fps):
    """
    Returns a number of frames, or 'refuse', or None if we don't care.
    """
    m = WELL_FORMED.match(s)
    if m and any(g is not None for g in m.groups()[1:]):
        minus, h, mi, sec, f = m.groups()
        has_seconds = h is not None or mi is not None or sec is not None
        seconds = float(h or 0)*3600+float(mi or 0)*60+float(sec or 0)
        frames = float(f or 0)
        if minus and has_seconds and seconds==0:
            return None # minus zero seconds? who knows
        if minus and h is not None and float(h)==0:
            return None
        if minus and h is None and mi is not None and float(mi)==0:
            return None
        if fps is None:
            if has_seconds and (seconds!=0 or frames!=0):
                return 'refuse'
            if has_seconds and (h is not None or mi is not None):
                return None
        result = frames + seconds*(fps or 0)
        return -result if minus else result

    if any(c.isspace() and c not in ' \t\r\n' for c in s):
        return None
    if any(c.isdecimal() and not c.isascii() for c in s):
        return None # digits in other scripts
    if 'E' in s and LENIENT.match(s.replace('E', 'e')):
        return None

    if not LENIENT.match(s):
        if re.search(r'\s[hmsf]', s) and LENIENT.match(re.sub(r'\s+(?=[hmsf])', '', s).replace('+', '')):
            return None # spaces before the unit
        return 'refuse'

    parts = re.findall(PART, s)
    units = [u for _, u in parts]
    if len(units)!=len(set(units)):
        return 'refuse'
    try:
        parts = {u: float(n) for n, u in parts}
    except ValueError:
        return 'refuse'

    if NEGATIVE_LATER.match(s):
        sec, f = s.split()
        if float(sec[:-1])!=0 and float(f[:-1])!=0:
            return 'refuse'

    if '-' in re.sub('e-', '', s):
        return None

    # any order will do
    seconds = sum(n*SIZES[u] for u, n in parts.items() if u!='f')
    frames = parts.get('f', 0.0)
    if not math.isfinite(seconds+frames):
        return 'refuse'
    if fps is None and set(units)!={'f'}:
        if seconds!=0 or frames!=0:
            return 'refuse'
        return None
    return frames + seconds*(fps or 0)


SIZES = {'h': 3600, 'm': 60, 's': 1}
_docs = {}

def doc(fps, begin='0f', end='5s'):
    key = (fps, begin, end)
    if key not in _docs:
        _docs[key] = bs4.BeautifulSoup(
                sif.canvas('<layer type="circle"/>', fps=fps, begin=begin, end=end),
                features='xml')
    return _docs[key].find('layer')


def try_spec(ctx, s, fps_s):
    fps = None if fps_s is None else float(fps_s)
    ref = None if fps is None else doc(fps_s)
    wanted = judge(s, fps)
    if wanted is None:
        return
    ctx.step()
    try:
        t = T(s, ref=ref)
    except ValueError:
        ctx.check(wanted=='refuse', f'{s!r} at {fps_s} fps was refused: '
                  f'it means {wanted} frames')
        return
    ctx.check(wanted!='refuse',
              f'{s!r} at {fps_s} fps should have been refused: '
              f'it was taken as {t.frames} frames')
    ctx.check(abs(t.frames-wanted)<=1e-6+abs(wanted)*1e-12,
              f'{s!r} at {fps_s} fps: {t.frames} frames, not {wanted}')
    ctx.same(t.fps, fps, f'fps of {s!r}')
    if fps is not None:
        ctx.check(abs(t.seconds*fps-wanted)<=1e-6+abs(wanted)*1e-9,
                  f'{s!r} at {fps_s} fps: {t.seconds} seconds')
    ctx.state(s, fps_s, t.frames)


ALPHABET = '012.-smhf xe+'

def string_cases(tier):
    length = 5 if tier=='quick' else 6
    for n in range(0, 3):
        for s in itertools.product(ALPHABET, repeat=n):
            yield [''.join(s), 0]
    for s in itertools.product(ALPHABET, repeat=3):
        yield [''.join(s), length-3]


def string_run(ctx, case):
    prefix, extra = case
    for n in range(extra+1):
        for s in itertools.product(ALPHABET, repeat=n):
            spec = prefix+''.join(s)
            for fps in ('24', None):
                try_spec(ctx, spec, fps)


PARTS = {
        'h': [None, '0', '1', '2', '100', '0.5'],
        'm': [None, '0', '1', '59', '90', '1.5'],
        's': [None, '0', '1', '59', '61', '0.25', '2.600000'],
        'f': [None, '0', '1', '23', '24', '48', '0.5', '1000', '0.001000'],
        }

def combination_cases(tier):
    for fps in ['24', '12', '30', '29.97', '25', '60', '1', '2.5', '23.976', None]:
        for h in PARTS['h']:
            for m in PARTS['m']:
                yield [fps, h, m]


def combination_run(ctx, case):
    fps, h, m = case
    for s in PARTS['s']:
        for f in PARTS['f']:
            parts = [p+u for p, u in ((h, 'h'), (m, 'm'), (s, 's'), (f, 'f')) if p is not None]
            if not parts:
                continue
            for minus in ('', '-'):
                for before, joiner, after in (('', ' ', ''), (' ', ' ', '\n'), ('', '', '')):
                    try_spec(ctx, before+minus+joiner.join(parts)+after, fps)
            # in other orders
            if len(parts)>1:
                try_spec(ctx, ' '.join(parts[::-1]), fps)
                try_spec(ctx, ' '.join(parts[1:]+parts[:1]), fps)
                try_spec(ctx, ''.join(parts[::-1]), fps)
            # negative frames with seconds
            if f is not None and len(parts)>1:
                try_spec(ctx, ' '.join(parts[:-1]+['-'+parts[-1]]), fps)
            # doubled parts
            try_spec(ctx, ' '.join(parts+parts[:1]), fps)
            # a missing unit
            try_spec(ctx, ' '.join(parts)[:-1], fps)
            try_spec(ctx, '1'+' '+' '.join(parts), fps)
            for junk in ('x', 'S', 'F', 'ms', '%', '1'):
                try_spec(ctx, ' '.join(parts)+junk, fps)
                try_spec(ctx, junk+' '+' '.join(parts), fps)


# --------------------------------------------------------------
# One character wrong

BASES = ['10f', '1s 2f', '1h 2m 3s 4f', '-1s', '0.5s', '-12.25f', '1e2f', '1m 30s', '100h']
ODD = ['_', ',', '+', '-', ':', ';', '/', '*', '%', "'", '"', '(', '[', '\\', '#', '\0', '\x7f',
       'F', 'S', 'M', 'H', 'E', 'd', 'D', 'i', 'n', 'a', 'j', 'L', 'b', 'o', 'x', 'y', '.', ' ', '\t',
       'h', 'm', 's', 'f', 'e', '0', '9',
       '\u0661', '\uff11', '\u00b2', '\u2460', '\u2212', '\uff0d', '\u00b7', '\uff0e', '\u066b', '\uff46', '\u017f', '\ufeff',
       '\u200b', '\u00bd', 'fr', 'sec', '0x', '1_0', '__', '--', '..', '  ']


def odd_cases(tier):
    for base in BASES:
        for i in range(len(base)+1):
            yield [base, i]


def odd_run(ctx, case):
    base, i = case
    for c in ODD:
        for s in {base[:i]+c+base[i:], base[:i]+c+base[i+1:]}:
            for fps in ('24', '29.97', None):
                try_spec(ctx, s, fps)


# --------------------------------------------------------------

def number_cases(tier):
    for begin in ('0f', '0s', '1s', '12f', '2s 3f', '-1s'):
        for end in ('5s', '120f', '1m', '1s 8f', '1h', '25f', '99.5f', '0f'):
            for fps in ('24', '25', '12.5', '29.97'):
                yield [begin, end, fps]


def number_run(ctx, case):
    begin, end, fps_s = case
    fps = float(fps_s)
    ref = doc(fps_s, begin, end)
    duration = judge(end, fps)-judge(begin, fps)

    for k in list(range(1, 130))+[0.5, 1.5, 1000]:
        if k>duration+1:
            continue
        for n in {float(-k), -k}:
            found = T(n, ref=ref).frames
            ctx.step()
            wanted = duration+1-k
            ctx.check(abs(found-wanted)<1e-6,
                      f'T({n}) of {begin}..{end} at {fps_s} is {found}, not {wanted}')
            ctx.state(case, n, found)
            try:
                T(n)
                ok = False
            except ValueError:
                ok = True
            ctx.check(ok, f'T({n}) with no ref should have been refused')

    for n in [0, 1, 2, 0.5, 23.976, 1000, 10**6, 0.0]:
        for r in (ref, None):
            t = T(n, ref=r)
            ctx.step()
            ctx.same(t.frames, float(n), f'T({n}).frames')
            ctx.same(float(t), float(n), f'float(T({n}))')
            ctx.same(int(t), int(n), f'int(T({n}))')
            ctx.same(t.fps, fps if r is not None else None, f'T({n}).fps')
            copied = T(t)
            ctx.same((copied.frames, copied.fps), (t.frames, t.fps), 'T(T)')
            copied = T(t, ref=ref)
            ctx.same((copied.frames, copied.fps), (t.frames, fps), 'T(T, ref)')
            if r is None and n!=0:
                try:
                    t.seconds
                    ok = False
                except ValueError:
                    ok = True
                ctx.check(ok, 'seconds without knowing the fps')
            elif r is None:
                ctx.same(t.seconds, 0.0, 'zero seconds')
            else:
                ctx.check(abs(t.seconds-n/fps)<1e-9*(1+n), f'T({n}).seconds is {t.seconds}')

    ctx.same(T().frames, 0.0, 'T()')

    for junk in (None, [], {}, object(), (1, 2), b'1f', 1j):
        for r in (ref, None):
            try:
                T(junk, ref=r)
                ok = False
            except (ValueError, TypeError):
                ok = True
            ctx.check(ok, f'T({junk!r}) should have been refused')
            ctx.step()

    # T is immutable in effect
    t = T(5, ref=ref)
    str(t), hash(t), t.seconds, t<T(6, ref=ref)
    ctx.same((t.frames, t.fps), (5.0, fps), 'T after being looked at')


# --------------------------------------------------------------
# The frame rate comes from the document, wherever in it we stand

NESTED = (
    '<layer type="group" desc="g1"><param name="canvas"><canvas>'
    '<layer type="circle" desc="c1"><param name="radius"><animated type="real">'
    '<waypoint time="0f" before="clamped" after="clamped"><real value="1"/></waypoint></animated></param></layer>'
    '<layer type="group" desc="g2"><param name="canvas"><canvas fps="99">'
    '<layer type="timeloop" desc="t"><param name="link_time"><time value="2s"/></param></layer>'
    '</canvas></param></layer>'
    '</canvas></param></layer>')


def ref_cases(tier):
    for fps in ('24', '25', '12.5', '29.97', '60', '1'):
        for end in ('5s', '1m', '77f'):
            yield [fps, end]


def ref_run(ctx, case):
    fps_s, end = case
    fps = float(fps_s)
    path = sif.write(ctx.path(), sif.canvas(NESTED, fps=fps_s, end=end))
    a = sangfroid.Animation(path)
    refs = [a.tag, a]+list(a.tag.find_all(True))+a.find_all(True)
    refs += [a.find(desc='c1')['radius'], a.find(desc='t')['link_time']]
    for ref in refs:
        t = T('2s', ref=ref)
        ctx.step()
        ctx.same((t.fps, t.frames), (fps, 2*fps), f"T('2s', ref={str(ref)[:50]})")
        t = T(-1, ref=ref)
        ctx.check(abs(t.frames-judge(end, fps))<1e-6, 'T(-1)', t.frames)
        ctx.state(case, t.frames)
    ctx.same(a.find(desc='t')['link_time'].value.frames, 2*fps, 'time param')
    ctx.same(a.framecount, int(judge(end, fps))+1, 'framecount')

    # changing the frame rate changes what "seconds" means from then on
    a.fps = 50.0
    t = T('2s', ref=a.find(desc='t'))
    ctx.same((t.fps, t.frames), (50.0, 100.0), 'after changing fps')
    ctx.same(a.find(desc='t')['link_time'].value.frames, 100.0, 'param after changing fps')

    # not part of any document
    loose = sangfroid.layer.Circle()
    for ref in (loose, loose.tag, bs4.Tag(name='x')):
        try:
            T('2s', ref=ref)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, "T('2s') with a ref outside any document")
        ctx.same(T('2f', ref=ref).frames, 2.0, "T('2f') with a ref outside any document")

    for bad in (5, 'x', [], 24.0):
        try:
            T('2f', ref=bad)
            ok = False
        except (TypeError, ValueError):
            ok = True
        ctx.check(ok, f'ref={bad!r} should have been refused')

    for bad_fps in ('0', '-24', '0.0'):
        ref = doc(bad_fps)
        try:
            T('2s', ref=ref)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, f'fps={bad_fps!r} should have been refused')


# --------------------------------------------------------------
# Times which aren't any time at all

INFINITE = ['nanf', 'inff', '-inff', 'infs', 'nans', '1e400f', '-1e400f', '1e400s', '1e400h', '1e308h', '1e999m 3f', 'infinityf', 'NaNf',
            ['inf'], ['-inf'], ['nan']]


def infinite_cases(tier):
    for x in INFINITE:
        for fps in (None, '24', '29.97', '0.5'):
            yield [x, fps]


def infinite_run(ctx, case):
    x, fps = case
    x = float(x[0]) if isinstance(x, list) else x
    ref = None if fps is None else doc(fps)
    ctx.step()
    ctx.state(case)
    try:
        found = T(x, ref=ref)
    except ValueError:
        return
    ctx.check(False, f'{x!r} at {fps} fps should have been refused: it was taken as {found.frames} frames')


UNITS = [
        Unit('infinite', infinite_cases, infinite_run),
        Unit('combinations', combination_cases, combination_run),
        Unit('odd characters', odd_cases, odd_run),
        Unit('numbers', number_cases, number_run),
        Unit('refs', ref_cases, ref_run),
        Unit('strings', string_cases, string_run),
        ]
