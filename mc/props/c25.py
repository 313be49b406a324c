"""
C25: damaged parts of a document are refused when they're read, never
guessed at; and they do the rest of it no harm.
"""
import copy
import os
import re
import zlib

import sangfroid
from lxml import etree
from mc import sif
from mc.core import Unit
from mc.props.c21 import VALUES

BOUNDS = {
        'quick': 'every kind of value (static, in either waypoint of two, and in a part of a transformation), with every one of its '
            'numbers missing, empty or not a number (9 ways), every element missing or renamed, values missing or '
            'doubled, every attribute of a waypoint missing or nonsense, types missing, unknown or mismatched; 28 kinds of '
            'structural damage to params, layers and groups; 11 headers with 8 kinds of nonsense, and 10 in each number of the view box and background; keyframes; 14 kinds of damaged param where a layer inside has a good one; in each case '
            'every other part is read, edited, and saved. Files: every file of <=1 byte, every two-byte beginning, '
            'every truncation of a sifz, every byte of it changed in 3 ways; 13 kinds of damage to each of up to 33 waypoints, and 5 to each of up to 11 stops',
        'thorough': 'all that, with every byte of the sifz changed in all 255 ways, and two damaged parts in every pair of places',
        }
ASSUMPTIONS = ['Repeated waypoint times, non-finite numbers, nonsense in a bool (documented to read as '
               'false) and XML which is not well-formed (repaired by Beautiful Soup) are not judged.']

# what may be raised: not the marks of a bug in the code doing the refusing
NOT_REFUSALS = (NameError, RecursionError, SystemError, MemoryError, NotImplementedError,
                ZeroDivisionError, SyntaxError, ImportError, StopIteration)

NONSENSE = ['', 'banana', '1.2.3', '1,5', '1 2', '#', '0x10', '--1', '1f']
NUMERIC = {'real', 'integer', 'angle'}


def refused(ctx, f, *what):
    ctx.step()
    try:
        found = f()
    except NOT_REFUSALS as e:
        ctx.check(False, *what, f': {type(e).__name__}: {e}')
    except Exception as e:
        ctx.outcomes.add(type(e).__name__)
        return
    ctx.check(False, *what, ': read as', repr(found))


def read(value):
    """Reads all of it."""
    if value.is_animated:
        return [(str(w.time), w.before, w.after, read(w.value)) for w in value.timeline]
    if hasattr(value, 'as_tuple'):
        return value.as_tuple()
    found = value.value
    if isinstance(found, dict):
        return {k: read(x) if hasattr(x, 'is_animated') else x for k, x in found.items()}
    return found


# --------------------------------------------------------------
# Values

def elements(xml):
    return list(etree.fromstring(xml).iter())


def damage(xml):
    """
    Every way we know of damaging this value so that nobody could
    say what it was. Yields (what, xml).
    """
    root = etree.fromstring(xml)

    def changed(i, f):
        r = copy.deepcopy(root)
        f(list(r.iter())[i])
        return etree.tostring(r).decode()

    for i, e in enumerate(root.iter()):
        where = f'{e.tag}#{i}'
        if e.tag in NUMERIC and 'value' in e.attrib:
            nonsense = NONSENSE+(['1.5'] if e.tag=='integer' else [])
            for n in nonsense:
                yield f'{where} value={n!r}', changed(i, lambda x: x.set('value', n))
        if e.tag=='time':
            for n in NONSENSE[:-1]+['12', '1x', 'f', '1s 1s']:
                yield f'{where} value={n!r}', changed(i, lambda x: x.set('value', n))
        if 'value' in e.attrib:
            yield f'{where} no value', changed(i, lambda x: x.attrib.pop('value'))
        if 'pos' in e.attrib:
            yield f'{where} no pos', changed(i, lambda x: x.attrib.pop('pos'))
            for n in NONSENSE:
                yield f'{where} pos={n!r}', changed(i, lambda x: x.set('pos', n))
        if e.tag in ('r', 'g', 'b', 'a', 'x', 'y'):
            for n in NONSENSE:
                yield f'{where} {n!r}', changed(i, lambda x: setattr(x, 'text', n))
            yield f'{where} missing', changed(i, lambda x: x.getparent().remove(x))
            yield f'{where} renamed', changed(i, lambda x: setattr(x, 'tag', 'wombat'))
            yield f'{where} doubled', changed(i, lambda x: x.addnext(copy.deepcopy(x)))
            yield f'{where} doubled at the end', changed(i, lambda x: x.getparent().append(etree.fromstring(f'<{x.tag}>0.25</{x.tag}>')))
            yield f'{where} doubled at the start', changed(i, lambda x: x.getparent().insert(0, etree.fromstring(f'<{x.tag}>0.25</{x.tag}>')))
            yield f'{where} emptied', changed(i, lambda x: (setattr(x, 'text', None), etree.SubElement(x, 'real').set('value', '1')))
        parent = e.getparent()
        if parent is not None and parent.tag=='composite':
            yield f'{where} missing', changed(i, lambda x: x.getparent().remove(x))
            yield f'{where} renamed', changed(i, lambda x: setattr(x, 'tag', 'wombat'))
            yield f'{where} empty', changed(i, lambda x: [x.remove(y) for y in list(x)])
            yield f'{where} double', changed(i, lambda x: x.append(copy.deepcopy(x[0])))
            yield f'{where} of unknown type', changed(i, lambda x: setattr(x[0], 'tag', 'wombat'))
        if e.tag=='composite':
            yield f'{where} no type', changed(i, lambda x: x.attrib.pop('type'))
            for n in ('', 'wombat', 'transform', 'transformations', 'transformation2', 'transformation ', ' transformation', 'bone', 'width_point', 'composite', 'real', 'Xtransformation'):
                yield f'{where} unknown type {n!r}', changed(i, lambda x: x.set('type', n))
        if e.tag=='vector':
            for n in ('z', 'w', 'X', 'a', 'real'):
                yield f'{where} with {n}', changed(i, lambda x: x.append(etree.fromstring(f'<{n}>0.25</{n}>')))
                yield f'{where} with {n} first', changed(i, lambda x: x.insert(0, etree.fromstring(f'<{n}>0.25</{n}>')))
        if e.tag=='color' and parent is not None:
            yield f'{where} renamed', changed(i, lambda x: setattr(x, 'tag', 'wombat'))
    if root.tag!='animated':
        yield 'unknown type', changed(0, lambda x: setattr(x, 'tag', 'wombat'))


KINDS = [k for k in VALUES if k not in ('canvas', 'dynamic_list', 'static_list', 'wplist', 'dilist', 'bline', 'tone')]
ANIMATABLE = [k for k in KINDS if k!='composite']
MISMATCH = '<string>x</string>'


def animated(kind, first, second, a='time="0f" before="clamped" after="halt"', b='time="1s" before="auto" after="linear"', type_=None):
    t = f' type="{kind}"' if type_ is None else type_
    return f'<animated{t}><waypoint {a}>{first}</waypoint><waypoint {b}>{second}</waypoint></animated>'


def damaged_values():
    for k in KINDS:
        good = VALUES[k]
        for what, bad in damage(good):
            yield f'{k}: {what}', bad
            if k in ANIMATABLE and what!='unknown type':
                yield f'{k}: first waypoint: {what}', animated(k, bad, good)
                yield f'{k}: second waypoint: {what}', animated(k, good, bad)
    for k in ANIMATABLE:
        good = VALUES[k]
        other = VALUES['real'] if k!='real' else MISMATCH
        for n, args in (
                ('mismatch', (other,)),
                ('unknown type', ('<wombat value="1"/>',)),
                ('empty', ('',)),
                ('text', ('banana',)),
                ('doubled', (good+good,)),
                ('nested', (f'<animated type="{k}"><waypoint time="0f" before="clamped" after="clamped">{good}</waypoint></animated>',)),
                ):
            yield f'{k}: first waypoint {n}', animated(k, args[0], good)
            yield f'{k}: second waypoint {n}', animated(k, good, args[0])
        yield f'{k}: no type', animated(k, good, good, type_='')
        yield f'{k}: empty type', animated(k, good, good, type_=' type=""')
        yield f'{k}: unknown type', animated(k, good, good, type_=' type="wombat"')
        yield f'{k}: other type', animated(k, good, good, type_=' type="{}"'.format('real' if k!='real' else 'string'))
        fine = dict(time='1s', before='clamped', after='halt')
        for attr in fine:
            for n in [None, '', 'banana', '1.2.3', '12'] if attr=='time' else [None, '', 'banana', '1s', 'clamped ease']:
                values = {**fine, attr: n}
                s = ' '.join(f'{x}="{y}"' for x, y in values.items() if y is not None)
                yield f'{k}: first waypoint: {attr}={n!r}', animated(k, good, good, a=s.replace('1s"', '2s"') if attr!='time' else s)
                yield f'{k}: second waypoint: {attr}={n!r}', animated(k, good, good, b=s)
        yield f'{k}: not a waypoint', animated(k, good, good).replace('<waypoint time="1s"', '<wombat time="1s"').replace(
                f'{good}</waypoint></animated>', f'{good}</wombat></animated>')


def document(param, other=''):
    return sif.canvas(
        '<layer type="circle" active="true" version="0.2" desc="one">'
        '<param name="before"><real value="3.625"/></param>'
        f'{param}'
        '<param name="after"><animated type="real"><waypoint time="0f" before="clamped" after="clamped"><real value="1"/></waypoint></animated></param>'
        '</layer>'
        f'{other}'
        '<layer type="group" desc="g"><param name="canvas"><canvas><layer type="text" desc="two"><param name="text"><string>hello</string></param></layer></canvas></param></layer>'
        )


def others(ctx, a, names=('before', 'after')):
    """Reads everything which isn't damaged."""
    one = a.find(desc='one')
    ctx.same([x.desc for x in a][:1], ['g'], 'the layers')
    if 'before' in names:
        ctx.same(one['before'].value, 3.625, 'the param before')
        ctx.same([w.value.value for w in one['after'].timeline], [1.0], 'the param after')
    ctx.same(one.desc, 'one', 'desc')
    ctx.same(a.find(desc='two')['text'].value, 'hello', 'a param elsewhere')
    ctx.step(4)


EDITS = [
        ('<real value="3.625"/>', '2.25', lambda a: a.find(desc='one')['before'].__setattr__('value', 2.25)),
        ('<string>hello</string>', 'goodbye', lambda a: a.find(desc='two')['text'].__setattr__('value', 'goodbye')),
        ]


def harmless(ctx, a, path, text, edits=EDITS):
    """
    Checks that the document is as it was; and that it can be
    edited elsewhere, and saved.
    """
    wanted = sif.canon_bytes(text.encode('utf-8'))
    ctx.same(sif.canon(a.tag), wanted, 'the document after reading')
    with open(path, 'rb') as f:
        ctx.check(f.read()==text.encode('utf-8'), 'the file after reading')
    for old, new, edit in edits:
        ctx.check(text.count(old)==1, 'harness:', old)
        edit(a)
        text = text.replace(old, re.sub(r'3\.625|hello', new, old))
    a.save()
    found = sif.canon_file(path)
    wanted = sif.canon_bytes(text.encode('utf-8'))
    found, wanted = [_numbers(x) for x in (found, wanted)]
    ctx.check(found==wanted, 'the file saved after editing other parts:\n', sif.diff(wanted, found))


def _numbers(c):
    """2.25 and 2.2500000 are the same thing in <real>; damage is verbatim."""
    if isinstance(c, str) or len(c)==2:
        return c
    name, attrs, children = c
    if name=='real':
        attrs = tuple((k, '2.25') if k=='value' and v.rstrip('0')=='2.25' else (k, v) for k, v in attrs)
    return (name, attrs, tuple(_numbers(x) for x in children))


def value_cases(tier):
    values = sorted(damaged_values())
    for what, xml in values:
        yield [what, xml]
    if tier!='quick':
        short = [v for v in values if v[0].split(':')[0] in ('real', 'color', 'vector', 'composite')][::7]
        for first in short:
            for second in short:
                yield [first[0]+' & '+second[0], first[1], second[1]]


def accessors(what):
    """
    All the ways to read the damaged number itself. Yields (name, function
    from the value of the param).
    """
    m = re.fullmatch(r'(\w+): (?:(first|second) waypoint: )?(\w+)#\d+ (.*)', what)
    if not m:
        return
    kind, which, tag, how = m.groups()
    get = lambda x: x
    if which:
        get = lambda x: list(x.timeline)[which=='second'].value
    if kind=='vector' and tag in 'xy':
        index = 'xy'.index(tag)
        for n, f in (
                ('item', lambda x: x[tag]),
                ('index', lambda x: x[index]),
                ('attribute', lambda x: getattr(x, tag)),
                ('get', lambda x: x.get(tag, 99.0)),
                ('values', lambda x: list(x.values())),
                ('items', lambda x: list(x.items())),
                ('iteration', lambda x: list(x)),
                ('tuple', lambda x: x.as_tuple()),
                ):
            yield n, lambda x, f=f: f(get(x))
    elif kind=='color' and tag in 'rgba':
        yield 'value', lambda x: get(x).value
        yield 'tuple', lambda x: get(x).as_tuple()
        yield 'expression', lambda x: get(x).as_python_expression()
        yield 'str', lambda x: str(get(x))
    elif kind in ('real', 'integer', 'angle', 'bool', 'time') and tag==kind:
        yield 'value', lambda x: get(x).value
        yield 'str', lambda x: str(get(x))
        if kind in ('real', 'angle', 'integer'):
            yield 'float', lambda x: float(get(x))
        if kind in ('real', 'integer'):
            yield 'int', lambda x: int(get(x))
        if kind=='bool':
            yield 'bool', lambda x: bool(get(x))
    elif kind=='gradient' and ' pos' in what:
        yield 'value', lambda x: get(x).value
        yield 'keys', lambda x: list(get(x).keys())
        yield 'values', lambda x: list(get(x).values())
        yield 'items', lambda x: list(get(x).items())
        yield 'iteration', lambda x: list(get(x))
        yield 'len', lambda x: len(get(x))


def value_run(ctx, case):
    what, *bad = case
    text = document(''.join(f'<param name="p{i}">{b}</param>' for i, b in enumerate(bad)))
    path = sif.write(ctx.path('v.sif'), text)
    a = sangfroid.Animation(path)
    one = a.find(desc='one')
    others(ctx, a)
    for i, b in enumerate(bad):
        for how, get in (
                ('item', lambda: read(one[f'p{i}'])),
                ('get', lambda: read(sangfroid.Animation(path).find(desc='one')[f'p{i}'])),
                ):
            refused(ctx, get, f'{what} ({how})')
        if len(bad)==1:
            for how, get in accessors(what):
                refused(ctx, lambda: get(one[f'p{i}']), f'{what} ({how})')
        ctx.state('value', b)
    others(ctx, a)
    harmless(ctx, a, path, text)


# --------------------------------------------------------------
# Params, layers and groups

STRUCTURE = [
        # what, param, other layer, how to read it
        ('param without a value', '<param name="p"/>', '', lambda a: read(a.find(desc='one')['p'])),
        ('param with text', '<param name="p">7</param>', '', lambda a: read(a.find(desc='one')['p'])),
        ('param with a comment', '<param name="p"><!-- x --></param>', '', lambda a: read(a.find(desc='one')['p'])),
        ('param with two values', '<param name="p"><real value="7"/><real value="7"/></param>', '', lambda a: read(a.find(desc='one')['p'])),
        ('param with values of two types', '<param name="p"><real value="7"/><string>x</string></param>', '', lambda a: read(a.find(desc='one')['p'])),
        ('param without a value, attr', '<param name="radius"/>', '', lambda a: a.find(desc='one').radius),
        ('param with two values, attr', '<param name="radius"><real value="7"/><real value="7"/></param>', '', lambda a: a.find(desc='one').radius),
        ('param of unknown type, attr', '<param name="radius"><wombat value="7"/></param>', '', lambda a: a.find(desc='one').radius),
        ('param of bad number, attr', '<param name="radius"><real value="x"/></param>', '', lambda a: read(a.find(desc='one').radius)),
        ('layer without a type', '', '<layer desc="bad"/>', lambda a: list(a)),
        ('layer with an empty type', '', '<layer type="" desc="bad"/>', lambda a: list(a)),
        ('layer of unknown type', '', '<layer type="wombat" desc="bad"/>', lambda a: list(a)),
        ]
for _what, _canvas in (
        ('no canvas', ''),
        ('an empty canvas param', '<param name="canvas"/>'),
        ('text for a canvas', '<param name="canvas">canvas</param>'),
        ('a number for a canvas', '<param name="canvas"><real value="7"/></param>'),
        ):
    for _how, _f in (
            ('iteration', lambda g: list(g)),
            ('length', lambda g: len(g)),
            ('index', lambda g: g[0]),
            ('append', lambda g: g.append(sangfroid.layer.Circle())),
            ):
        STRUCTURE.append((f'group with {_what}: {_how}', '', f'<layer type="group" desc="bad">{_canvas}</layer>',
                          lambda a, _f=_f: _f(a.find(desc='bad'))))


def structure_cases(tier):
    for i, _ in enumerate(STRUCTURE):
        yield [i, _[0]]


def structure_run(ctx, case):
    i, what = case
    _, param, other, f = STRUCTURE[i]
    text = document(param, other)
    path = sif.write(ctx.path('s.sif'), text)
    a = sangfroid.Animation(path)
    for again in range(2):
        refused(ctx, lambda: f(a), what)
        ctx.state(what, again)
    if other:
        # you can't even look for the others: but you can still ask about the file, and save it
        ctx.same(a.fps, 24.0, 'fps')
        ctx.same(a.name, 'n', 'name')
        ctx.same([str(k.time) for k in a.keyframes], ['0f'], 'keyframes')
        harmless(ctx, a, path, text, edits=[])
    else:
        others(ctx, a)
        harmless(ctx, a, path, text)


# --------------------------------------------------------------
# Headers

HEADERS = ['width', 'height', 'xres', 'yres', 'gamma-r', 'gamma-g', 'gamma-b', 'antialias', 'fps', 'begin-time', 'end-time']
HEADER_NONSENSE = ['', 'banana', '1.2.3', '1,5', '1 2', '#', '0x10', '--1']


def headers(a):
    return {h: h.replace('-', '_') for h in HEADERS}


def header_cases(tier):
    for h in HEADERS:
        for n in HEADER_NONSENSE+(['12', '1x'] if 'time' in h else []):
            yield [h, n]


def header_run(ctx, case):
    header, nonsense = case
    good = document('')
    a = sangfroid.Animation(sif.write(ctx.path('g.sif'), good))
    wanted = {h: str(getattr(a, n)) for h, n in headers(a).items()}
    text = re.sub(f' {header}="[^"]*"', lambda m: f' {header}="{nonsense}"', good, count=1)
    path = sif.write(ctx.path('h.sif'), text)
    a = sangfroid.Animation(path)
    dependent = {'begin-time', 'end-time'} if header=='fps' else set()
    for h, n in headers(a).items():
        if h==header:
            refused(ctx, lambda: getattr(a, n), f'{header}={nonsense!r}')
        elif h not in dependent:
            ctx.same(str(getattr(a, n)), wanted[h], f'{h}, if {header}={nonsense!r}')
        ctx.state(header, nonsense, h)
        ctx.step()
    others(ctx, a, names=() if 'fps'==header else ('before', 'after'))
    # the value, not the document, is what matters to the others
    harmless(ctx, a, path, text)


def box_cases(tier):
    for header in ('view-box', 'bgcolor'):
        for i in range(4):
            for n in ['banana', '1.2.3', '1,5', '#', '0x10', '--1', '1f', '.', '-', 'e5']:
                yield [header, i, n]


def box_run(ctx, case):
    header, i, nonsense = case
    good = {'view-box': ['-4.0', '2.25', '4.0', '-2.25'], 'bgcolor': ['0.5', '0.5', '0.5', '1.0']}[header]
    numbers = list(good)
    numbers[i] = nonsense
    text = re.sub(' (view-box|bgcolor)="[^"]*"', '', document('')).replace('<canvas ', f'<canvas {header}="{" ".join(numbers)}" ', 1)
    path = sif.write(ctx.path('b.sif'), text)
    a = sangfroid.Animation(path)
    refused(ctx, lambda: a.viewbox if header=='view-box' else a.background, f'{header}={numbers}')
    ctx.same(getattr(a, header.replace('-', '_')), ' '.join(numbers), header)
    ctx.state(case)
    others(ctx, a)
    harmless(ctx, a, path, text)


# --------------------------------------------------------------
# Keyframes

def keyframe_cases(tier):
    for n in [None, '', 'banana', '1.2.3', '12', '1x', '1 2']:
        for where in (0, 1, 2):
            yield [n, where]


def keyframe_run(ctx, case):
    nonsense, where = case
    bad = '<keyframe active="true">bad</keyframe>' if nonsense is None else f'<keyframe time="{nonsense}" active="true">bad</keyframe>'
    frames = ['<keyframe time="1s" active="true">one</keyframe>', '<keyframe time="2s" active="false">two</keyframe>']
    frames[where:where] = [bad]
    text = document('').replace('<keyframe time="0f" active="true">start</keyframe>', ''.join(frames))
    path = sif.write(ctx.path('k.sif'), text)
    a = sangfroid.Animation(path)
    for again in range(2):
        refused(ctx, lambda: [k.time for k in a.keyframes], f'keyframe time={nonsense!r}')
        ctx.state(nonsense, where, again)
    others(ctx, a)
    harmless(ctx, a, path, text)


# --------------------------------------------------------------
# Files

SMALL = sif.canvas('<layer type="circle" desc="one"><param name="radius"><real value="1.5"/></param></layer>')


def file_cases(tier):
    yield ['short', None]
    for first in range(256):
        yield ['beginning', first]
    for i in range(0, 600, 4):
        yield ['truncated', i]
        for bits in ([0x01, 0x80, 0xff] if tier=='quick' else range(1, 256)):
            yield ['changed', i, bits]


def compressed():
    import gzip
    return gzip.compress(SMALL.encode('utf-8'), 9, mtime=0)


WANTED = sif.canon_bytes(SMALL.encode('utf-8'))


def not_loaded(ctx, path, data, what, name):
    with open(path, 'wb') as f:
        f.write(data)
    refused(ctx, lambda: sangfroid.Animation(path), what)
    with open(path, 'rb') as f:
        ctx.check(f.read()==data, what, 'changed the file')
    ctx.same(sorted(os.listdir(os.path.dirname(path))), [name], 'files in the directory')


def file_run(ctx, case):
    kind, *rest = case
    d = ctx.fresh_dir()
    try:
        for name in ('f.sif', 'f.sifz'):
            path = os.path.join(d, name)
            if kind=='short':
                for data in [b'']+[bytes([n]) for n in range(256)]:
                    not_loaded(ctx, path, data, f'{data!r} as {name}', name)
            elif kind=='beginning':
                for second in range(256):
                    data = bytes([rest[0], second])
                    if data in (b'PK', b'\x1f\x8b', b'<?', b'<c', b'\xef\xbb', b'\xfe\xff', b'\xff\xfe') or data[:1] in b'< \t\r\n':
                        # may be XML, or something which holds it
                        continue
                    # well-formed, but for how it begins
                    not_loaded(ctx, path, data+SMALL[2:].encode('utf-8'), f'{data!r} at the start of {name}', name)
                    ctx.state('begin', data)
                    if second%16==0:
                        not_loaded(ctx, path, data, f'just {data!r}', name)
            elif kind=='truncated':
                whole = compressed()
                for n in range(rest[0], rest[0]+4):
                    if n<len(whole):
                        not_loaded(ctx, path, whole[:n], f'the first {n} bytes of {len(whole)}', name)
                        ctx.state('cut', n)
            else:
                whole = compressed()
                where, bits = rest
                for n in range(where, where+4):
                    if n>=len(whole):
                        continue
                    data = bytearray(whole)
                    data[n] ^= bits
                    data = bytes(data)
                    with open(path, 'wb') as f:
                        f.write(data)
                    ctx.step()
                    ctx.state('changed', n, bits)
                    try:
                        a = sangfroid.Animation(path)
                    except NOT_REFUSALS as e:
                        ctx.check(False, f'byte {n} changed by {bits}: {type(e).__name__}: {e}')
                    except Exception as e:
                        ctx.outcomes.add(type(e).__name__)
                        continue
                    # harmless: in the header, say
                    found = a.tag
                    ctx.check(found is not None and sif.canon(found)==WANTED,
                              f'byte {n} of {len(whole)} changed by {bits}, and the document loaded is another')
            os.unlink(path)
    except FileNotFoundError:
        if os.path.exists(path):
            raise
    finally:
        import shutil
        shutil.rmtree(d)


# --------------------------------------------------------------
# Damage in one of many waypoints, or stops

KTH = {
        'number': lambda w: w.replace('value="', 'value="x'),
        'no value': lambda w: re.sub('<real[^>]*>', '', w),
        'two values': lambda w: re.sub('(<real[^>]*>)', r'\1\1', w),
        'other type': lambda w: re.sub('<real[^>]*>', '<string>1</string>', w),
        'unknown type': lambda w: w.replace('<real', '<wombat'),
        'time': lambda w: w.replace('time="', 'time="x'),
        'no time': lambda w: w.replace('time="', 'tame="'),
        'time without units': lambda w: w.replace('f"', '"'),
        'before': lambda w: w.replace('before="', 'before="x'),
        'after': lambda w: w.replace('after="', 'after="x'),
        'no before': lambda w: w.replace('before="', 'befour="'),
        'no after': lambda w: w.replace('after="', 'aftar="'),
        'element': lambda w: w.replace('waypoint', 'wombat'),
        }


def kth_cases(tier):
    for n in ((3, 5, 8, 9, 11, 17, 33) if tier=='quick' else range(3, 40)):
        for k in range(n):
            for how in KTH:
                yield ['waypoint', n, k, how]
            if n<=11 or tier!='quick':
                for how in ('pos', 'no pos', 'number', 'missing', 'renamed'):
                    yield ['stop', n, k, how]


def kth_run(ctx, case):
    what, n, k, how = case
    if what=='waypoint':
        parts = [f'<waypoint time="{i*3}f" before="clamped" after="linear"><real value="{i}.5"/></waypoint>' for i in range(n)]
        damaged = KTH[how](parts[k])
        ctx.check(damaged!=parts[k], 'harness')
        parts[k] = damaged
        param = f'<animated type="real">{"".join(parts)}</animated>'
    else:
        parts = [f'<color pos="{i/n}"><r>0.{i+1}</r><g>0.25</g><b>0.5</b><a>1.0</a></color>' for i in range(n)]
        damaged = {
                'pos': parts[k].replace('pos="', 'pos="x'),
                'no pos': re.sub(' pos="[^"]*"', '', parts[k]),
                'number': parts[k].replace('<g>', '<g>x'),
                'missing': re.sub('<b>.*</b>', '', parts[k]),
                'renamed': parts[k].replace('color', 'wombat'),
                }[how]
        parts[k] = damaged
        param = f'<gradient>{"".join(parts)}</gradient>'
    text = document(f'<param name="p">{param}</param>')
    path = sif.write(ctx.path('k.sif'), text)
    a = sangfroid.Animation(path)
    p = a.find(desc='one')['p']
    ctx.state(case)
    others(ctx, a)
    refused(ctx, lambda: read(p), f'{case}')
    if what=='waypoint':
        tl = p.timeline
        if how!='number':
            for name, f in (('values', tl.values), ('items', tl.items), ('keys', tl.keys), ('list', lambda: list(tl))):
                refused(ctx, f, f'{case}: {name}')
        else:
            refused(ctx, lambda: [w.value.value for w in tl.values()], f'{case}: values')
            refused(ctx, lambda: tl[k*3].value.value, f'{case}: the waypoint')
            refused(ctx, lambda: str(list(tl)[k].value), f'{case}: str')
    else:
        for name, f in (('items', p.items), ('values', p.values), ('list', lambda: list(p.items())), ('expression', p.as_python_expression)):
            refused(ctx, lambda: [str(x) for x in f()], f'{case}: {name}')
    others(ctx, a)
    harmless(ctx, a, path, text)


# --------------------------------------------------------------
# A layer inside has a param of the same name, and a good one

INSIDE = ['', 'banana', '<!-- x -->', '<real/>', '<real value=""/>', '<real value="banana"/>', '<wombat value="1"/>',
          '<real value="7"/><real value="7"/>', '<real value="7"/><string>x</string>', '<animated/>', '<animated type="wombat"/>',
          '<animated><waypoint time="0f" before="clamped" after="clamped"><real value="1"/></waypoint></animated>',
          '<animated type="real"><waypoint time="0f" before="clamped"><real value="1"/></waypoint></animated>',
          '<animated type="real"><waypoint time="0f" before="clamped" after="clamped"/></animated>']


def inside_cases(tier):
    for i, _ in enumerate(INSIDE):
        for first in (False, True):
            for deep in (False, True):
                yield [i, first, deep]


def inside_run(ctx, case):
    i, first, deep = case
    good = '<layer type="circle" desc="good"><param name="amount"><real value="5"/></param></layer>'
    if deep:
        good = f'<layer type="group" desc="between"><param name="canvas"><canvas>{good}</canvas></param></layer>'
    bad = f'<param name="amount">{INSIDE[i]}</param>'
    canvas = f'<param name="canvas"><canvas>{good}</canvas></param>'
    text = document('', '<layer type="group" desc="bad">'+(bad+canvas if first else canvas+bad)+'</layer>')
    path = sif.write(ctx.path('i.sif'), text)
    a = sangfroid.Animation(path)
    group = a.find(desc='bad')
    for what, f in (
            ('item', lambda: read(group['amount'])),
            ('attribute', lambda: read(group.amount)),
            ('items', lambda: read(dict(group.items())['amount'])),
            ):
        refused(ctx, f, f'{INSIDE[i]!r} by {what}')
    ctx.check('amount' in group, 'it is there')
    ctx.state(case)
    ctx.same(read(a.find(desc='good')['amount']), 5.0, 'the one inside')
    others(ctx, a)
    harmless(ctx, a, path, text)


UNITS = [
        Unit('inside', inside_cases, inside_run),
        Unit('one of many', kth_cases, kth_run),
        Unit('values', value_cases, value_run),
        Unit('structure', structure_cases, structure_run),
        Unit('headers', header_cases, header_run),
        Unit('boxes', box_cases, box_run),
        Unit('keyframes', keyframe_cases, keyframe_run),
        Unit('files', file_cases, file_run),
        ]
