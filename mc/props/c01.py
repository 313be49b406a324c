"""
C01: loading and saving keeps the whole document.
"""
import itertools
import struct
import zlib
import os

import sangfroid
from mc import sif
from mc.core import Unit, sequences

BOUNDS = {
        'quick': 'all strings of length <=2 over 17 characters, and all of '
            'length 3 over 9, in seven places of a document; all '
            'sequences of <=3 of 17 kinds of content, both in the root canvas and '
            'in a group; 6 encodings; every fixture; strings and comments of up to 200000 characters, 2000 layers, waypoints '
            'or attributes, and 60 levels; 8 kinds of namespace, and pairs of them; 50 odd ways to compress a file; one and two trips; 13 kinds of reading, and pairs of them, of 16 odd layers',
        'thorough': 'strings of length <=3 over 17 characters; content '
            'sequences of length <=4',
        }
ASSUMPTIONS = [
        'lxml (strict mode) is the judge of what a file contains',
        'whitespace between tags is formatting, and so is the choice of '
        'escapes, quotes, attribute order, encoding and CDATA',
        'characters which XML 1.0 cannot represent are out of scope',
        ]

CHARS = ['a', ' ', '\n', '\t', '\r', '<', '>', '&', '"', "'", ']', 'é',
         '\U0001f600', '-', '\xa0', '\u2028', '0']
CORE = ['a', ' ', '\n', '\t', '\r', '<', '&', '"', "'"]


def round_trip(ctx, text, kinds=('sif', 'sifz'), api=None, data=None):
    """
    Writes the text, loads it, saves it in each kind, and checks what's there;
    then loads and saves again.
    """
    original = data if data is not None else text.encode('utf-8')
    wanted = sif.canon_bytes(original)
    wanted_outside = sif.outside(sif.parse(original))
    ctx.state(wanted)

    for source_kind, target_kind in itertools.product(kinds, kinds):
        source = ctx.path('source.'+source_kind)
        target = ctx.path('target.'+target_kind)
        sif.write(source, original, source_kind)

        animation = sangfroid.Animation(source)
        ctx.step()
        if api:
            api(animation)
        animation.save(target)
        ctx.step()

        saved, kind = sif.payload(target)
        ctx.same(kind, target_kind, 'kind of file saved')
        found = sif.canon_bytes(saved)
        ctx.check(found==wanted, 'document changed when saved:\n',
                  sif.diff(wanted, found))
        ctx.same(sif.outside(sif.parse(saved)), wanted_outside,
                 'content outside the root')

        # and what we loaded is what the file says
        again = sangfroid.Animation(target)
        ctx.step()
        if api:
            api(again)
        again.save()
        ctx.step()
        resaved, kind = sif.payload(target)
        ctx.same(kind, target_kind, 'kind of file resaved')
        found = sif.canon_bytes(resaved)
        ctx.check(found==wanted, 'document changed when resaved:\n',
                  sif.diff(wanted, found))


# --------------------------------------------------------------

def text_cases(tier):
    if tier=='quick':
        yield from sequences(CHARS, 2)
        for s in itertools.product(CORE, repeat=3):
            yield list(s)
    else:
        yield from sequences(CHARS, 3)


def text_run(ctx, case):
    s = ''.join(case)
    e = sif.escape(s)

    text = sif.HEADER + (
        f'<canvas fps="24" begin-time="0f" end-time="5s" unknown="{e}">'
        f'<name>{e}</name><desc>{e}</desc>'
        f'<keyframe time="0f" active="true">{e}</keyframe>'
        f'<layer type="text" desc="{e}" version="0.2">'
        f'<param name="text"><string>{e}</string></param>'
        f'<param name="family"><animated type="string">'
        f'<waypoint time="0f" before="constant" after="constant"><string>{e}</string></waypoint>'
        f'<waypoint time="1f" before="constant" after="constant" note="{e}"><string>x{e}y</string></waypoint>'
        f'</animated></param>'
        f'</layer></canvas>')

    def api(animation):
        layer = animation.find('text')
        ctx.same(animation.name, s, 'name of animation')
        ctx.same(animation.desc, s, 'desc of animation')
        ctx.same([k.name for k in animation.keyframes], [s], 'keyframe')
        ctx.same(layer.desc, s, 'desc of layer')
        ctx.same(layer['text'].value, s, 'text')
        ctx.same([w.value.value for w in layer['family'].timeline],
                 [s, f'x{s}y'], 'animated text')

    round_trip(ctx, text, api=api,
               kinds = ('sif', 'sifz') if len(case)<2 else ('sif',))


# --------------------------------------------------------------

CONTENT = {
    'circle': '<layer type="circle" active="true" version="0.2"><param name="radius"><real value="0.5"/></param></layer>',
    'future': '<layer type="from_the_future" version="9.9"><param name="p"><thing a="1"><sub/></thing></param></layer>',
    'animated': '<layer type="circle" desc="d" active="false"><param name="radius"><animated type="real"><waypoint time="1s 2f" before="halt" after="auto" tension="0.5" bias="0.1"><real value="1.5"/></waypoint></animated></param></layer>',
    'group': '<layer type="group" desc="g"><param name="canvas"><canvas xres="10.000000" yres="10.000000"><layer type="circle" desc="1"/><!--c--><layer type="circle" desc="2"/></canvas></param></layer>',
    'deep': '<layer type="group"><param name="canvas"><canvas><layer type="group"><param name="canvas"><canvas><layer type="switch" desc="in"/></canvas></param></layer></canvas></param></layer>',
    'defs': '<defs><real value="1.0" id="a"/><canvas id="b"><layer type="circle"/></canvas></defs>',
    'bones': '<bones><bone_root type="bone_object" guid="00"/><bone type="bone_object" guid="12"><name><string>x</string></name></bone></bones>',
    'keyframe': '<keyframe time="1h 2m 3s 4f" active="false"> two  words </keyframe>',
    'meta': '<meta name="grid_show" content="0"/>',
    'comment': '<!-- a comment <b> & -->',
    'pi': '<?target some data?>',
    'text': 'loose text',
    'empty': '<empty/>',
    'linked': '<layer type="line"><param name="p" use="x"><add type="real"><lhs><real value="1"/></lhs><scalar><real value="2"/></scalar></add></param></layer>',
    'cdata': '<string><![CDATA[ a < b ]]></string>',
    'mixed': '<layer type="text"><param name="text"><string>one\ntwo &amp; three</string></param></layer>',
    'list': '<layer type="outline"><param name="bline"><bline type="bline_point" loop="true"><entry><composite type="bline_point"><point><vector><x>0.1</x><y>-0.2</y></vector></point></composite></entry><entry/></bline></param></layer>',
    }


def content_cases(tier):
    for where in ('root', 'group', 'param'):
        depth = {'quick': {'root': 3, 'group': 2, 'param': 2},
                 'thorough': {'root': 4, 'group': 3, 'param': 3}}[tier][where]
        for s in sequences(sorted(CONTENT), depth, shortest=0):
            yield [where, s]


def content_run(ctx, case):
    where, parts = case
    inner = '\n  '.join(CONTENT[p] for p in parts)
    if where=='group':
        inner = f'<layer type="group"><param name="canvas"><canvas>{inner}</canvas></param></layer>'
    elif where=='param':
        inner = f'<layer type="group"><param name="unheard_of">{inner}</param></layer>'
    round_trip(ctx, sif.canvas(inner), kinds=('sif',))


# --------------------------------------------------------------

# the pieces a string can be made of in a file, and what each one says
PIECES = {
    'word': ('one', 'one'),
    'space': (' ', ' '),
    'newline': ('\n', '\n'),
    'comment': ('<!-- c -->', ''),
    'pi': ('<?t d?>', ''),
    'cdata': ('<![CDATA[a < b]]>', 'a < b'),
    'empty': ('<![CDATA[]]>', ''),
    'amp': ('&amp;', '&'),
    'number': ('&#233;', 'é'),
    }


def piece_cases(tier):
    for s in sequences(sorted(PIECES), {'quick': 3, 'thorough': 4}[tier]):
        yield s


def piece_run(ctx, case):
    """A string in pieces is read as the whole of it."""
    e = ''.join(PIECES[p][0] for p in case)
    s = ''.join(PIECES[p][1] for p in case)
    text = sif.HEADER + (
        '<canvas fps="24" begin-time="0f" end-time="5s">'
        f'<name>{e}</name><desc>{e}</desc>'
        f'<keyframe time="0f" active="true">{e}</keyframe>'
        '<layer type="text">'
        f'<param name="text"><string>{e}</string></param>'
        '<param name="family"><animated type="string">'
        f'<waypoint time="0f" before="constant" after="constant"><string>{e}</string></waypoint>'
        '</animated></param>'
        '</layer></canvas>')

    def api(animation):
        layer = animation.find('text')
        ctx.same(animation.name, s, 'name of animation')
        ctx.same(animation.desc, s, 'desc of animation')
        ctx.same([k.name for k in animation.keyframes], [s], 'keyframe')
        ctx.same(layer['text'].value, s, 'text')
        ctx.same(layer.text.value, s, 'text, by attribute')
        ctx.check(layer['text']==s, 'text, compared')
        ctx.same(eval(layer['text'].as_python_expression()), s, 'expression')
        ctx.same([w.value.value for w in layer['family'].timeline], [s], 'animated text')

    round_trip(ctx, text, api=api, kinds=('sif',))


# --------------------------------------------------------------

ENCODINGS = ['UTF-8', 'utf-8', 'ISO-8859-1', 'windows-1252', 'us-ascii', None,
             'ISO-8859-15', 'KOI8-R', 'Shift_JIS']
STRINGS = ['', 'plain', 'é', 'ünï', '\U0001f600', '日本', 'Привет', '€', '\x85\xa0']
OUTSIDE = ['', '<!-- before -->', '<?pi x?>', '<!-- a --><!-- b -->',
           '<!DOCTYPE canvas>']


def encoding_cases(tier):
    for encoding in ENCODINGS:
        for s in STRINGS:
            for kind in ('sif', 'sifz'):
                for outside in range(len(OUTSIDE)):
                    for after in (0, 1, 3):
                        yield [encoding, s, kind, outside, after]


def encoding_run(ctx, case):
    encoding, s, kind, outside, after = case
    decl = f' encoding="{encoding}"' if encoding else ''
    codec = encoding or 'utf-8'
    text = (f'<?xml version="1.0"{decl}?>\n{OUTSIDE[outside]}\n'
            f'<canvas fps="24" begin-time="0f" end-time="5s" a="{s}"><name>{s}</name>'
            f'<layer type="text" desc="{s}"><param name="text"><string>{s}</string></param></layer>'
            f'</canvas>\n{OUTSIDE[after]}\n')
    data = text.encode(codec, 'xmlcharrefreplace')

    def api(animation):
        ctx.same(animation.name, s, 'name')
        ctx.same(animation.find('text').desc, s, 'desc')
        ctx.same(animation.find('text')['text'].value, s, 'text')

    round_trip(ctx, None, kinds=(kind,), api=api, data=data)


# --------------------------------------------------------------

from mc.core import REPO
FIXTURES = ['bouncing.sif', 'circles.sif', 'pick-and-mix.sif',
            'wombats.sifz', 'purple-circles.sif', 'purple-wombats.sifz',
            'bywords/sing-like-a-girl.sif']


def fixture_cases(tier):
    for f in FIXTURES:
        for read in READS:
            yield [f, read]


def walk(animation):
    return list(animation.find_all(True))


def read_params(animation):
    for layer in walk(animation):
        for p in layer.tag.find_all('param', recursive=False):
            try:
                value = layer[p['name']]
            except (KeyError, ValueError, TypeError, NotImplementedError):
                continue
            for read in (str, repr, len, list,
                         lambda v: v.is_animated,
                         lambda v: v.value,
                         lambda v: v==1,
                         lambda v: v.as_python_expression()):
                try:
                    read(value)
                except Exception:
                    # not everything is implemented for every type
                    pass


def read_fields(animation):
    for layer in walk(animation):
        for name in dir(type(layer)):
            if name.startswith('_'):
                continue
            try:
                value = getattr(layer, name)
            except Exception:
                continue
            try:
                str(value)
            except Exception:
                pass


def read_timelines(animation):
    for layer in walk(animation):
        for p in layer.tag.find_all('param', recursive=False):
            try:
                values = [layer[p['name']]]
            except (KeyError, ValueError, TypeError, NotImplementedError):
                continue
            if p['name']=='transformation':
                values = list(values[0].values())
            for value in values:
                if value.is_animated:
                    tl = value.timeline
                    len(tl), list(tl), tl.keys(), tl.values(), tl.items()
                    bool(tl), str(tl), tl==tl
                    for w in tl:
                        w.tag, str(w), w.before, w.after, w.value.value, w.time.seconds
                        tl[w.time]
                else:
                    len(value.timeline)


def read_tree(animation):
    for layer in [animation]+walk(animation):
        list(layer.children), len(layer), repr(layer), layer.parent
        layer.tag_depth
        if hasattr(layer, 'descendants'):
            list(layer.descendants)
        layer.find_all('circle'), layer.find(desc='wombat')
        layer.find_all(type='text', recursive=False)
        for k in ('radius', 'canvas', 'nonsense'):
            k in layer


def read_header(animation):
    for k in ('version', 'width', 'height', 'xres', 'yres', 'gamma_r', 'gamma_g',
              'gamma_b', 'view_box', 'antialias', 'fps', 'begin_time',
              'end_time', 'bgcolor', 'name', 'desc', 'size', 'viewbox',
              'framecount', 'background', 'keyframes'):
        str(getattr(animation, k))
    for k in animation.keyframes:
        k.time, k.name, k.active, str(k)


READS = {
        'nothing': lambda a: None,
        'params': read_params,
        'fields': read_fields,
        'timelines': read_timelines,
        'tree': read_tree,
        'header': read_header,
        }


def fixture_run(ctx, case):
    filename, read = case
    path = os.path.join(REPO, 'test', filename)
    data, _ = sif.payload(path)
    wanted = sif.canon_bytes(data)

    def api(animation):
        ctx.check(sif.canon(animation.tag)==wanted, 'loaded document differs')
        READS[read](animation)
        ctx.check(sif.canon(animation.tag)==wanted,
                  'reading changed the document:\n',
                  sif.diff(wanted, sif.canon(animation.tag)))

    round_trip(ctx, None, api=api, data=data)


# Untouched content next to something which is edited

def edit_cases(tier):
    parts = sorted(CONTENT)
    for before in parts:
        for after in parts:
            for kind in ('sif', 'sifz'):
                yield [before, after, kind]


def edit_run(ctx, case):
    before, after, kind = case
    text = sif.canvas(
            CONTENT[before]+
            '<layer type="circle" desc="target"><param name="radius"><real value="0.25"/></param></layer>'
            +CONTENT[after])
    path = sif.write(ctx.path('edit.'+kind), text)
    animation = sangfroid.Animation(path)
    target = sangfroid.layer.Layer.from_tag(
            animation.tag.find('layer', attrs={'desc': 'target'}))
    target['radius'] = 0.75
    ctx.step(2)
    animation.save()
    found = sif.canon_file(path)
    wanted = sif.canon_bytes(text.encode('utf-8'))

    def normalise(c):
        # the value we changed, as a number
        if isinstance(c, str) or len(c)==2:
            return c
        attrs = c[1]
        if c[0]=='real':
            attrs = tuple((k, float(v) if k=='value' else v)
                          for k, v in attrs)
        return (c[0], attrs, tuple(normalise(x) for x in c[2]))

    wanted = normalise(wanted)
    old = normalise(sif.canon_bytes(b'<layer type="circle" desc="target"><param name="radius"><real value="0.25"/></param></layer>'))
    new = normalise(sif.canon_bytes(b'<layer type="circle" desc="target"><param name="radius"><real value="0.75"/></param></layer>'))
    wanted = (wanted[0], wanted[1],
              tuple(new if x==old else x for x in wanted[2]))
    ctx.state(wanted)
    found = normalise(found)
    ctx.check(found==wanted, 'something else changed:\n',
              sif.diff(wanted, found))


# --------------------------------------------------------------
# Documents of all sizes

LENGTHS = [3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097,
           8191, 8192, 8193, 10000, 16384, 32768, 65535, 65536, 65537, 200000]


def size_cases(tier):
    for n in LENGTHS:
        for what in ('letters', 'bytes', 'lines', 'escapes', 'comment', 'attribute', 'name', 'desc'):
            yield [what, n]
    for n in [0]+LENGTHS:
        if n<=2048:
            yield ['layers', n]
            yield ['waypoints', n]
            yield ['attributes', n]
    for n in range(1, 61):
        yield ['depth', n]


def size_run(ctx, case):
    what, n = case
    name, desc = 'n', 'd'
    text = 'x'
    content = ''
    if what=='letters':
        text = ''.join(chr(97+(i*i)%26) for i in range(n))
    elif what=='bytes':
        text = 'x'+'é\U0001f600'*(n//2)
    elif what=='lines':
        text = '\n'.join(str(i) for i in range(n//4))
    elif what=='escapes':
        text = '<&>"'*(n//4)
    elif what=='comment':
        content = '<!--'+'c '*(n//2)+'-->'
    elif what=='attribute':
        content = f'<thing at="{"a "*(n//2)}."/>'
    elif what=='name':
        name = 'n'*n
    elif what=='desc':
        desc = 'd.'*(n//2)
    elif what=='layers':
        content = ''.join(f'<layer type="{"circle" if i%3 else "rectangle"}" desc="{i}"/>\n' for i in range(n))
    elif what=='waypoints':
        content = '<layer type="circle" desc="w"><param name="radius"><animated type="real">'+''.join(
                f'<waypoint time="{i}f" before="clamped" after="linear"><real value="{i}.0"/></waypoint>' for i in range(max(1, n)))+'</animated></param></layer>'
    elif what=='attributes':
        content = '<thing '+' '.join(f'a{i}="{i}"' for i in range(n))+'/>'
    elif what=='depth':
        content = '<layer type="circle" desc="0"/>'
        for i in range(n):
            content = f'<layer type="group" desc="{i+1}"><param name="canvas"><canvas>{content}</canvas></param></layer>'
    document = sif.HEADER+(
            f'<canvas fps="24" begin-time="0f" end-time="5s"><name>{name}</name>'
            f'<layer type="text" desc="{desc}"><param name="text"><string>{sif.escape(text)}</string></param></layer>{content}</canvas>')

    def api(animation):
        layer = animation.find('text')
        ctx.same(animation.name, name, 'name')
        ctx.same(layer.desc, desc, 'desc')
        ctx.same(layer['text'].value, text, 'text')
        if what=='layers':
            ctx.same([l.desc for l in animation], [str(i) for i in reversed(range(n))]+['d'], 'layers')
        elif what=='depth':
            ctx.same([l.desc for l in animation.find_all(True)], ['d']+[str(i) for i in range(n, -1, -1)], 'layers')
        elif what=='waypoints' and n<=300:
            ctx.same([w.value.value for w in animation.find(desc='w')['radius'].timeline], [float(i) for i in range(max(1, n))], 'waypoints')

    round_trip(ctx, document, api=api)


# --------------------------------------------------------------
# Reading never writes, however oddly things are written

ODD_LAYERS = {
    'bare': '<layer type="circle"/>',
    'spelt': '<layer type="CIRCLE"><param name="radius"><real value="1"/></param><param name="invert"><bool value="TRUE"/></param></layer>',
    'numbers': '<layer type="circle" version="0.20"><param name="radius"><real value=" 01.50e0 "/></param><param name="z_depth"><real value="-0"/></param>'
        '<param name="blend_method"><integer value="007"/></param><param name="feather"><real value="+3" guid="g"/></param></layer>',
    'vector': '<layer type="circle"><param name="origin"><vector note="n">\n <y> 2.25 </y>\n<!-- c --> <x>\n1e0\n</x> </vector></param></layer>',
    'color': '<layer type="circle"><param name="color"><color pos="x"> <a>1</a><b> 0.123456789 </b><!----><g>2.5</g><r>-0.1</r></color></param></layer>',
    'unsorted': '<layer type="circle"><param name="radius"><animated type="real" note="n">'
        '<waypoint time="1.5s" before="halt" after="auto" tension="1" zebra="z"><real value="1"/></waypoint> <!-- c -->'
        '<waypoint time="0h 0m 1s" after="linear" before="linear"><real value="2"/></waypoint>'
        '<waypoint time="-3f" before="constant" after="clamped"><real value="3"/></waypoint></animated></param></layer>',
    'moving': '<layer type="circle"><param name="origin"><animated type="vector">'
        '<waypoint time="24f" before="halt" after="auto"><vector><y>1</y><x>2</x></vector></waypoint>'
        '<waypoint time="12.0f" before="halt" after="auto"><vector> <x> 3 </x> <y>4</y></vector></waypoint></animated></param></layer>',
    'gradient': '<layer type="linear_gradient"><param name="gradient"><gradient>\n<color pos="1.000000"><r>1</r><g>1</g><b>1</b><a>1</a></color>'
        '<!-- c --><color pos=".25"><a>1</a><r>0</r><g>0</g><b>0</b></color></gradient></param></layer>',
    'time': '<layer type="timeloop"><param name="link_time"><time value="0m 1s  12f"/></param><param name="duration"><time value=" 1.5s "/></param></layer>',
    'text': '<layer type="text" desc=""><param name="text"><string> a<!-- c -->b\n<![CDATA[<c>]]> </string></param><param name="family"><string/></param></layer>',
    'transformation': '<layer type="group" desc=" g "><param name="transformation"><composite note="n" type="transformation">'
        '<scale><vector><y>1</y><x>1</x></vector></scale><!-- c --><angle><angle value="1.50"/></angle>\n<offset> <vector><x>0</x><y>0</y></vector> </offset>'
        '<skew_angle><animated type="angle"><waypoint time="1s" before="halt" after="halt"><angle value="5"/></waypoint></animated></skew_angle>'
        '</composite></param><param name="canvas"><canvas note="n"><!----><!-- -->\n\n<layer type="circle"/> text <!-- --><wombat/></canvas></param></layer>',
    'empty': '<layer type="group" active="maybe"><param name="canvas"><canvas><!-- --></canvas></param></layer>',
    'nothing': '<layer type="group"><param name="canvas"><canvas/></param></layer>',
    'broken': '<layer type="circle"><param name="radius"><real/></param><param name="color"><color/></param><param name="origin"/></layer>',
    'unknown': '<layer type="circle"><param name="radius"><wombat a="1"/></param><param/></layer>',
    'switch': '<layer type="switch"><param name="canvas"><canvas><layer type="star" desc=""/></canvas></param></layer>',
    }
ODD_HEADERS = {
    'full': '<canvas version="1.20" width="0480" height="270" xres="1e3" yres="1000" gamma-r="1" gamma-g="1.0" gamma-b="1.00" '
        'view-box="-4 2.25  4 -2.25" antialias="1" fps="24.000" begin-time="0h 0f" end-time="4s 24f" bgcolor="0.5 0.5 0.5 1" zebra="z">'
        '<keyframe time="1.0s"/><name/><desc>d</desc><keyframe time="24f" active="false"> k </keyframe>',
    'least': '<canvas fps="24" begin-time="0f" end-time="5s">',
    }

SAFE_CALLS = {'keys', 'values', 'items', 'as_tuple', 'as_python_expression', 'find_all', 'find'}


def odd_attributes(x):
    for name in dir(x):
        if name.startswith('_'):
            continue
        try:
            found = getattr(x, name)
            if name in SAFE_CALLS and callable(found):
                found = found()
            if hasattr(found, '__iter__') and not isinstance(found, str):
                list(found)
        except Exception:
            pass


def odd_compare(x):
    for other in (x, None, 1, 0.5, 'x', '#ffffff', (1.0, 2.0), {}, [], True, type(x)):
        x==other, x!=other, other==x


def odd_search(x):
    for kwargs in ({'type': 'circle'}, {'desc': 'wombat'}, {'active': True}, {'radius': 1.0}, {'origin': (1.0, 2.0)}, {'attrs': {'desc': ''}}):
        for recursive in (True, False):
            x.find_all(recursive=recursive, **kwargs)
            x.find(recursive=recursive, **kwargs)


def odd_convert(x):
    for f in (bool, float, int, hash, len, iter):
        try:
            f(x)
        except Exception:
            pass


def odd_lookup(x):
    for key in ('radius', 'origin', 'color', 'x', 'angle', 'wombat', 0, 1, -1, 0.25, '1s', sangfroid.T(12)):
        for f in (lambda: x[key], lambda: key in x, lambda: x.get(key), lambda: x.get(key, None)):
            try:
                f()
            except Exception:
                pass


ODD_READS = {
        'attributes': odd_attributes,
        'compare': odd_compare,
        'search': odd_search,
        'convert': odd_convert,
        'lookup': odd_lookup,
        'str': str,
        'repr': repr,
        'list': list,
        'expression': lambda x: x.as_python_expression(),
        'value': lambda x: x.value,
        'copy': lambda x: sangfroid.value.Value.from_tag(x.tag),
        # but putting layers in another canvas moves them
        'use': lambda x: isinstance(x, sangfroid.value.Canvas) or type(x)(x.value),
        'nothing': lambda x: None,
        }


def odd_things(animation):
    """Everything there is to read, most of which is read to find the rest."""
    yield animation
    yield animation.keyframes
    yield from animation.keyframes
    for tag in animation.tag.find_all('layer'):
        layer = sangfroid.layer.Layer.from_tag(tag)
        yield layer
        for p in tag.find_all('param', recursive=False):
            values = []
            try:
                values.append(layer[p['name']])
            except Exception:
                continue
            try:
                values.append(getattr(layer, p['name']))
            except Exception:
                pass
            try:
                values.extend(values[0].values())
            except Exception:
                pass
            for value in values:
                yield value
                if isinstance(value, sangfroid.value.Value):
                    yield value.timeline
                    try:
                        waypoints = list(value.timeline)
                    except Exception:
                        continue
                    for w in waypoints:
                        yield w
                        yield w.time
                        yield w.value


def odd_cases(tier):
    for header in sorted(ODD_HEADERS):
        for read in sorted(ODD_READS):
            yield [header, sorted(ODD_LAYERS), [read]]
            for layer in sorted(ODD_LAYERS):
                yield [header, [layer], [read]]
        for first in sorted(ODD_READS):
            for second in sorted(ODD_READS):
                yield [header, sorted(ODD_LAYERS), [first, second]]


def odd_run(ctx, case):
    header, layers, reads = case
    text = sif.HEADER+'<!-- before -->'+ODD_HEADERS[header]+''.join('\n'+ODD_LAYERS[x]+'<!-- -->' for x in layers)+'</canvas><!-- after -->'
    path = sif.write(ctx.path('odd.sif'), text)
    animation = sangfroid.Animation(path)
    before = str(animation.tag)
    for read in reads:
        for x in odd_things(animation):
            ctx.step()
            try:
                ODD_READS[read](x)
            except Exception:
                pass
    ctx.state(case)
    ctx.same(str(animation.tag), before, f'{reads} changed the document')
    saved = ctx.path('saved.sif')
    animation.save(saved)
    found, _ = sif.payload(saved)
    wanted = sif.canon_bytes(text.encode('utf-8'))
    ctx.check(sif.canon_bytes(found)==wanted, f'{reads} changed what was saved:\n', sif.diff(wanted, sif.canon_bytes(found)))
    untouched = ctx.path('untouched.sif')
    sangfroid.Animation(path).save(untouched)
    ctx.check(sif.payload(untouched)[0]==found, f'{reads} changed the bytes which were saved')


NAMESPACES = {
    'attribute': '<layer xmlns:x="http://x" x:note="1" type="circle"><x:thing x:a="b"/></layer>',
    'xml': '<layer xml:space="preserve" xml:lang="en" type="text"><param name="text"><string xml:space="preserve"> a </string></param></layer>',
    'prefix': '<x:a xmlns:x="http://x"><x:b/><c/></x:a><y:d xmlns:y="http://x"/>',
    'default': '<a xmlns="http://x"><b/></a><layer type="circle"/>',
    'undone': '<a xmlns="http://x"><b xmlns=""/></a>',
    'reused': '<x:a xmlns:x="http://x"/><x:a xmlns:x="http://y"/>',
    'in a value': '<a xmlns:x="http://x" v="x:q"/>',
    'nested': '<layer type="group" xmlns:x="http://x" x:a="1"><param name="canvas"><canvas x:b="2"><layer type="circle" x:c="3"><x:param name="radius"/></layer></canvas></param></layer>',
    }


def namespace_cases(tier):
    for where in ('root', 'group'):
        for s in sequences(sorted(NAMESPACES), 2):
            yield [where, s]


def namespace_run(ctx, case):
    where, parts = case
    inner = '\n'.join(NAMESPACES[p] for p in parts)
    if where=='group':
        inner = f'<layer type="group"><param name="canvas"><canvas>{inner}</canvas></param></layer>'
    round_trip(ctx, sif.canvas(inner), kinds=('sif',))


# --------------------------------------------------------------

def gz(data, level=9, name=None, extra=None, comment=None, crc=False, strategy=zlib.Z_DEFAULT_STRATEGY):
    """One member of a gzip file, with every optional part which the format allows."""
    flags = (2 if crc else 0) | (4 if extra else 0) | (8 if name else 0) | (16 if comment else 0)
    head = b'\x1f\x8b\x08' + bytes([flags]) + b'\x12\x34\x56\x78\x02\x03'
    if extra:
        head += struct.pack('<H', len(extra))+extra
    if name:
        head += name+b'\0'
    if comment:
        head += comment+b'\0'
    if crc:
        head += struct.pack('<H', zlib.crc32(head) & 0xffff)
    c = zlib.compressobj(level, zlib.DEFLATED, -15, 9, strategy)
    return head + c.compress(data) + c.flush() + struct.pack('<II', zlib.crc32(data), len(data) & 0xffffffff)


def compressed_cases(tier):
    for level in range(10):
        yield ['level', level]
    for strategy in range(5):
        yield ['strategy', strategy]
    for n in range(16):
        yield ['header', n]
    for at in range(0, 701, 50 if tier=='quick' else 5):
        yield ['members', [at]]
    for at in ([0, 0], [1, 2], [100, 300], [39, 40, 41], list(range(1, 700, 7))):
        yield ['members', at]
    for n in (1, 2, 8, 100, 5000):
        yield ['padding', n]
    for n in (1000, 70000, 300000):
        yield ['size', n]


def compressed_run(ctx, case):
    """A .sifz file may be any gzip file, not just those which Python writes."""
    kind, arg = case
    text = sif.canvas(CONTENT['animated']+CONTENT['group']+CONTENT['comment']+'é').encode('utf-8')
    if kind=='level':
        data = gz(text, arg)
    elif kind=='strategy':
        data = gz(text, strategy=arg)
    elif kind=='header':
        data = gz(text, name = b'some name.sif' if arg&1 else None, extra = b'AB\x02\0xy' if arg&2 else None,
                  comment = b'a comment' if arg&4 else None, crc = bool(arg&8))
    elif kind=='members':
        ends = [0]+arg+[len(text)]
        data = b''.join(gz(text[i:j]) for i, j in zip(ends, ends[1:]))
    elif kind=='padding':
        data = gz(text)+b'\0'*arg
    elif kind=='size':
        text = text.replace(b'<!--', b'<!--'+b''.join(b'%d ' % (i*i,) for i in range(arg//7))+b' ')
        data = gz(text[:arg//2])+gz(text[arg//2:])
    wanted = sif.canon_bytes(text)
    ctx.state(wanted)
    for target_kind in ('sif', 'sifz'):
        source = ctx.path('source.sifz')
        with open(source, 'wb') as f:
            f.write(data)
        animation = sangfroid.Animation(source)
        ctx.same(sorted(l.desc or '' for l in animation.find_all(True)), ['1', '2', 'd', 'g'], 'the layers')
        target = ctx.path('target.'+target_kind)
        animation.save(target)
        ctx.step(2)
        saved, found_kind = sif.payload(target)
        ctx.same(found_kind, target_kind, 'kind of file saved')
        found = sif.canon_bytes(saved)
        ctx.check(found==wanted, 'document changed when saved:\n', sif.diff(wanted, found))


UNITS = [
        Unit('namespaces', namespace_cases, namespace_run),
        Unit('compressed', compressed_cases, compressed_run),
        Unit('odd', odd_cases, odd_run),
        Unit('sizes', size_cases, size_run),
        Unit('fixtures', fixture_cases, fixture_run),
        Unit('text', text_cases, text_run),
        Unit('content', content_cases, content_run),
        Unit('pieces', piece_cases, piece_run),
        Unit('encodings', encoding_cases, encoding_run),
        Unit('edits', edit_cases, edit_run),
        ]
