"""
C18: bywords shows each word as it's said.
"""
import itertools
import re

import pysrt
import sangfroid
from bywords.adjust import adjust
from mc import sif, speech
from mc.core import Unit, sequences
from mc.speech import Text, Group
from mc.values import _time

BOUNDS = {
        'quick': 'all sequences of <=3 of 4 words, divided between layers in every way, with 4 start times and '
            'durations, 3 frame rates, words and letters, and 4 ways for the layer to have the text; all sequences of '
            '<=3 of 6 subtitles, for a document with 5 groups; 7 kinds of spacing; lines of up to 40 words, divided in '
            '4 ways, at times of up to a day; up to 30 groups and 60 lines; all sequences of <=4 of 3 texts in layers which are just like one another',
        'thorough': 'sequences of <=4 words, and <=4 subtitles; all frame rates for all',
        }
ASSUMPTIONS = [
        'a character is a letter, digit or mark of punctuation: anything but whitespace',
        'text with whitespace at the start or end, and two groups with the same text, are not judged',
        ]

WORDS = ['a', 'bb', 'Ccc', "d'e!"]
SPANS = [(0, 1000), (2700, 3300), (500, 0), (1001, 7)]
STYLES = ['desc', 'text', 'animated', 'other']


def compositions(n):
    """Every way to divide n things, in order, between layers."""
    for cuts in itertools.product((False, True), repeat=n-1):
        result = [1]
        for c in cuts:
            if c:
                result.append(1)
            else:
                result[-1] += 1
        yield result


def make_text(id, s, style):
    if style=='desc':
        return Text(id, s, desc=s)
    elif style=='text':
        return Text(id, s)
    elif style=='animated':
        return Text(id, '', before=[(0, ''), (5, 'x'), (9, s)])
    else:
        return Text(id, '&', desc=s, before=[(0, 'junk'), (100, 'more')])


def apply(ctx, groups, lines, fps, letters, name='b.sif'):
    """Runs it, and returns the path of the saved file."""
    path = sif.write(ctx.path(name), speech.document(groups, fps))
    srt = ctx.path('b.srt')
    with open(srt, 'w') as f:
        f.write(speech.srt(lines))
    animation = sangfroid.Animation(path)
    adjust(pysrt.open(srt), animation, letter_at_a_time=letters)
    ctx.step()
    animation.save()
    return path, animation


def in_file(path, fps):
    """{id: [(frame, text)] for animated texts, or just text}"""
    result = {}
    root = sif.parse(sif.payload(path)[0])
    for e in root.iter('layer'):
        if e.get('type')!='text':
            continue
        value = [p for p in e.findall('param') if p.get('name')=='text'][0][0]
        if value.tag=='string':
            result[e.get('group')] = value.text or ''
        else:
            result[e.get('group')] = [
                    (_time(w.get('time'), float(fps)), w[0].text or '')
                    for w in value]
    return root, result


def judge(ctx, groups, lines, fps, letters):
    path, animation = apply(ctx, groups, lines, fps, letters)
    wanted = speech.adjusted(groups, lines, fps, letters)
    root, found = in_file(path, fps)
    for id, w in wanted.items():
        f = found[id]
        ctx.check(isinstance(f, list), f'{id} was not animated')
        ctx.check(speech.alike(f, w), f'{id}:\n  found: {f}\n wanted: {w}')
    for e in root.iter('layer'):
        if e.get('group') in wanted:
            for w in e.iter('waypoint'):
                ctx.same((w.get('before'), w.get('after')), ('constant', 'constant'),
                         'interpolation')
    # and as read by the library, in memory and from the file
    for a in (animation, sangfroid.Animation(path)):
        for layer in a.find_all('text'):
            id = layer.tag['group']
            if id in wanted:
                f = [(w.time.frames, w.value.value) for w in layer['text'].timeline]
                ctx.check(speech.alike(f, wanted[id]),
                          f'{id} by the API:\n  found: {f}\n wanted: {wanted[id]}')
    ctx.state(sorted(wanted.items()), fps, letters)
    return wanted


def timing_cases(tier):
    most = 3 if tier=='quick' else 4
    for n in range(1, most+1):
        for words in itertools.product(range(len(WORDS)), repeat=n):
            for division in compositions(n):
                for span in range(len(SPANS)):
                    for letters in (False, True):
                        for fps in ('24', '29.97', '12.5'):
                            for style in STYLES:
                                if n==3 and tier=='quick' and (
                                        (fps!='24' and (span!=1 or style!='desc')) or
                                        (style!='desc' and span!=1)):
                                    continue
                                if n==4 and (fps!='24' or style not in ('desc', 'animated') or span==0):
                                    continue
                                yield [list(words), division, span, letters, fps, style]


def timing_run(ctx, case):
    words, division, span, letters, fps, style = case
    words = [WORDS[i] for i in words]
    texts = []
    i = 0
    for n in division:
        texts.append(make_text(f't{i}', ' '.join(words[i:i+n]), style))
        i += n
    start, duration = SPANS[span]
    wanted = judge(ctx, [Group('g', 'bywords', *texts)],
                   [(start, duration, ' '.join(words).upper())], fps, letters)
    ctx.same(len(wanted), len(division), 'number of layers in the model')


# --------------------------------------------------------------

def scene():
    return [
            Group('one', 'bywords', Text('one.1', 'Hello', desc='Hello'), Text('one.2', 'big world!', desc='big world!')),
            Group('two', 'Bywords two', '<layer type="circle" group="c"/>\n',
                  Group('inside', None, Text('two.1', 'how are')), Text('two.2', 'you', before=[(0, ''), (12, 'you')])),
            Group('three', 'BYWORDS-3', Text('three.1', 'hello', desc='hello')),
            Group('not', 'not bywords', Text('not.1', 'unheard of', desc='unheard of')),
            Group('none', None, Text('none.1', 'nor this', desc='nor this'),
                  Group('deep', 'bywords deep', Text('deep.1', 'deep down', desc='deep down'))),
            ]


SAID = ['hello big world', 'How are YOU?', 'Hello!', 'unheard of', 'deep-down', 'deep down', 'wombat', '...']


def line_cases(tier):
    for said in sequences(range(len(SAID)), 3 if tier=='quick' else 4, shortest=0):
        for letters in (False, True):
            yield [said, letters]


def line_run(ctx, case):
    said, letters = case
    lines = [(1000+3000*i, 1700, SAID[j]) for i, j in enumerate(said)]
    judge(ctx, scene(), lines, '24', letters)


# --------------------------------------------------------------

SPACING = ['a bb ccc', 'a  bb', 'a\nbb', 'a bb\nccc d', 'a\tbb', 'one, two; three', 'x1 2 3y']


def spacing_cases(tier):
    for s in SPACING:
        for style in STYLES:
            for span in range(len(SPANS)):
                yield [s, style, span]


def spacing_run(ctx, case):
    s, style, span = case
    start, duration = SPANS[span]
    judge(ctx, [Group('g', 'bywords', make_text('t', s, style))],
          [(start, duration, s)], '24', False)


# --------------------------------------------------------------

LONG_SPANS = [(2700, 3300), (3723004, 61500), (86399999, 1), (0, 600000)]


def long_cases(tier):
    for n in (5, 6, 7, 8, 9, 10, 11, 12, 16, 25, 40) if tier=='quick' else range(4, 41):
        for division in ('one', 'each', 'threes', 'reversed'):
            for letters in (False, True):
                for span in range(len(LONG_SPANS)):
                    if n>12 and span!=1:
                        continue
                    yield [n, division, letters, span, '24' if n%2 else '29.97']


def long_run(ctx, case):
    n, division, letters, span, fps = case
    words = ['abcdefghijklmnopqrstuvwxyz0123456789'[i%26:][:1+(i*5)%(i%9+2)]+('' if i%4 else ',') for i in range(n)]
    size = {'one': n, 'each': 1, 'threes': 3, 'reversed': 2}[division]
    texts = [make_text(f't{i}', ' '.join(words[i:i+size]), STYLES[i%4]) for i in range(0, n, size)]
    start, duration = LONG_SPANS[span]
    groups = [Group('g', 'bywords', *texts)]
    wanted = judge(ctx, groups, [(start, duration, ' '.join(words))], fps, letters)
    ctx.same(len(wanted), len(texts), 'number of layers in the model')


def crowd_cases(tier):
    for n in (6, 9, 10, 11, 15, 30):
        for order in ('forwards', 'backwards', 'twice', 'some'):
            yield [n, order]


def crowd_run(ctx, case):
    """Many lines, and a group for each."""
    n, order = case
    groups = [Group(f'g{i}', f'Bywords {i}' if i%3 else 'bywords', make_text(f'g{i}.a', f'number {i}', STYLES[i%4]), Text(f'g{i}.b', f'of {n}'))
              for i in range(n)]
    which = list(range(n))
    if order=='backwards':
        which.reverse()
    elif order=='twice':
        which += which
    elif order=='some':
        which = which[1::3]
    lines = [(500+2000*i, 1000+i, f'Number {j}, of {n}') for i, j in enumerate(which)]
    wanted = judge(ctx, groups, lines, '24', False)
    ctx.same(len(wanted), 2*len(set(which)), 'number of layers in the model')


# --------------------------------------------------------------

REFRAINS = ['la', 'la la', 'oh']


def alike_cases(tier):
    for n in range(1, 5 if tier=='quick' else 6):
        for words in itertools.product(range(len(REFRAINS)), repeat=n):
            for style in STYLES:
                for letters in (False, True):
                    for others in (False, True):
                        yield [list(words), style, letters, others]


def alike_run(ctx, case):
    """Text layers which are just like one another."""
    words, style, letters, others = case
    said = [REFRAINS[i] for i in words]
    groups = [Group('g', 'bywords', *[make_text(f't{i}', s, style) for i, s in enumerate(said)])]
    lines = [(2700, 3300, ' '.join(said))]
    if others:
        # more of the same, in other groups
        groups.append(Group('h', 'bywords', *[make_text(f'u{i}', s, style) for i, s in enumerate(said+['end'])]))
        groups.append(Group('i', 'not', *[make_text(f'v{i}', s, style) for i, s in enumerate(said)]))
        lines.append((9000, 1000, ' '.join(said+['end'])))
    text = speech.document(groups, '24')
    ids = [e.get('group') for e in sif.parse(text.encode()).iter('layer') if e.get('type')=='text']
    path = sif.write(ctx.path('b.sif'), re.sub(' group="[^"]*"', '', text))
    with open(ctx.path('b.srt'), 'w') as f:
        f.write(speech.srt(lines))
    animation = sangfroid.Animation(path)
    adjust(pysrt.open(ctx.path('b.srt')), animation, letter_at_a_time=letters)
    animation.save()
    ctx.step()
    root = sif.parse(sif.payload(path)[0])
    wanted = speech.adjusted(groups, lines, '24', letters)
    texts = [e for e in root.iter('layer') if e.get('type')=='text']
    ctx.same(len(texts), len(ids), 'number of texts')
    for id, e in zip(ids, texts):
        value = [p for p in e.findall('param') if p.get('name')=='text'][0][0]
        if id in wanted:
            f = [(_time(w.get('time'), 24.0), w[0].text or '') for w in value.iter('waypoint')]
            ctx.check(speech.alike(f, wanted[id]), f'{id}:\n  found: {f}\n wanted: {wanted[id]}')
    ctx.state(case)


UNITS = [
        Unit('alike', alike_cases, alike_run),
        Unit('long', long_cases, long_run),
        Unit('crowds', crowd_cases, crowd_run),
        Unit('spacing', spacing_cases, spacing_run),
        Unit('lines', line_cases, line_run),
        Unit('timing', timing_cases, timing_run),
        ]
