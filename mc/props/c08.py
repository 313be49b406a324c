"""
C08: no history of edits makes a document which can't be read.
"""
import itertools
import os

import bs4
import sangfroid
from mc import sif, editing
from mc.core import REPO, Unit, Violation, sequences, periodic, walks
from mc.editing import World, PARAMS, NEW

BOUNDS = {
        'quick': 'all histories of <=2 of 60 edits, and of 3 of 17 edits, of a document with '
            '8 layers in 3 levels; every way of setting every param of that document; at 24 fps '
            'and 29.97 fps; the invariant is checked on the saved file and by reopening it; '
            'also histories of 7 with a period of <=2, and of 30 in which each edit follows each',
        'thorough': 'all histories of 3 of 60 edits, and of 4 of 17',
        }
ASSUMPTIONS = [
        'the rules for what Synfig can read are those in mc/editing.py: validate()',
        'numbers are finite',
        ]

ROUTES = ['attr', 'item', 'value', 'attr-object', 'item-object', 'old-handle']
PART_ROUTES = ['shortcut', 'attr', 'item', 'value', 'part-value', 'object', 'animate']

CORE = [
        ['set', 'inner', 'radius', 1, 'attr'],
        ['set', 'bottom', 'color', 2, 'item'],
        ['way', 'inner', 'radius', 12, 2],
        ['way', 'bottom', 'color', 0, 1],
        ['unway', 'inner', 'radius', 0],
        ['anim', 'words', 'text', True],
        ['anim', 'inner', 'radius', False],
        ['copy', 'inner', 'radius', 'bottom', 'radius', 'item'],
        ['part', 'deep', 'offset', 2, 'shortcut'],
        ['part', 'deep', 'scale', 1, 'animate'],
        ['set', 'grad', 'gradient', 1, 'attr'],
        ['stop', 'grad', 0.5, '#123456'],
        ['move', 'inner', 'root'],
        ['new', 'Group', 'deep'],
        ['new', 'Text', 'root'],
        ['attr', 'words', 'desc', None],
        ['reopen'],
        ]
MORE = [
        ['set', 'words', 'text', 2, 'item'],
        ['set', 'words', 'text', 1, 'old-handle'],
        ['set', 'star', 'points', 1, 'attr'],
        ['set', 'star', 'angle', 1, 'value'],
        ['set', 'loop', 'duration', 0, 'attr'],
        ['set', 'bottom', 'invert', 0, 'attr'],
        ['set', 'outer', 'origin', 0, 'item-object'],
        ['set', 'deep', 'time_offset', 1, 'item'],
        ['set', 'words', 'style', 1, 'attr-object'],
        ['way', 'words', 'text', 24, 2],
        ['way', 'star', 'points', 0, 1],
        ['way', 'star', 'angle', 36, 1],
        ['way', 'loop', 'duration', 12, 0],
        ['way', 'bottom', 'invert', 12, 0],
        ['way', 'outer', 'origin', 12, 2],
        ['way', 'grad', 'gradient', 12, 1],
        ['unway', 'inner', 'radius', 24],
        ['unway', 'bottom', 'color', 0],
        ['anim', 'bottom', 'color', True],
        ['anim', 'grad', 'gradient', True],
        ['anim', 'grad', 'gradient', False],
        ['anim', 'loop', 'duration', True],
        ['anim', 'bottom', 'invert', True],
        ['copy', 'bottom', 'color', 'words', 'color', 'attr'],
        ['copy', 'outer', 'origin', 'deep', 'origin', 'item'],
        ['part', 'outer', 'angle', 1, 'value'],
        ['part', 'outer', 'skew_angle', 1, 'item'],
        ['part', 'outer', 'scale', 0, 'object'],
        ['part', 'deep', 'offset', 1, 'part-value'],
        ['part', 'deep', 'offset', 1, 'animate'],
        ['stop', 'grad', 0.0, '#80ff00aa'],
        ['move', 'star', 'deep'],
        ['move', 'deep', 'root'],
        ['insert', 'words', 'outer', 1],
        ['insert', 'bottom', 'root', 0],
        ['new', 'Circle', 'outer'],
        ['new', 'Timeloop', 'root'],
        ['new', 'Linear_Gradient', 'outer'],
        ['attr', 'inner', 'desc', ''],
        ['attr', 'deep', 'active', False],
        ['root', 'end_time'],
        ['root', 'gamma_g'],
        ['title', 'desc', 'a <b> & "c"'],
        ]
ALL = CORE+MORE


def single_ops():
    for id_, params in PARAMS.items():
        for name, kind in params.items():
            for i in range(3):
                for route in ROUTES:
                    yield ['set', id_, name, i, route]
                yield ['way', id_, name, 12, i]
                yield ['way', id_, name, -1.5 if False else 100, i]
            yield ['anim', id_, name, True]
            yield ['anim', id_, name, False]
            for other, params2 in PARAMS.items():
                for name2, kind2 in params2.items():
                    if kind2==kind:
                        yield ['copy', other, name2, id_, name, 'item']
                        yield ['copy', other, name2, id_, name, 'attr']
    for id_ in ('outer', 'deep'):
        for part in editing.PARTS:
            for i in range(3):
                for route in PART_ROUTES:
                    yield ['part', id_, part, i, route]
    for type_ in NEW:
        for to in ('root', 'outer', 'deep'):
            yield ['new', type_, to]


def cases(tier):
    for op in single_ops():
        yield ['24', [op]]
    for op in ALL:
        yield ['29.97', [op]]
    for ops in sequences(ALL, 3 if tier=='thorough' else 2, 2):
        yield ['24', ops]
    for ops in sequences(CORE, 4 if tier=='thorough' else 3, 3):
        yield ['24', ops]
    for ops in periodic(CORE, 7):
        yield ['24', ops]
    for ops in walks(ALL, 30):
        yield ['24', ops]

def run(ctx, case):
    fps, ops = case
    w = World(ctx, fps)
    for op in ops:
        w.do(op)
    root = w.saved()
    ctx.state(sif.canon_element(root))
    with open(w.path, 'rb') as f:
        data = f.read()
    if data not in _seen:
        check(ctx, root)
        readable(ctx, w.path)
        _seen.add(data)


_seen = set() # whether a file is readable depends only on what's in it


def check(ctx, root):
    try:
        editing.validate(root)
    except editing.Invalid as problem:
        raise Violation(f'the saved document is invalid: {problem}')


SIMPLE = {'real', 'integer', 'bool', 'angle', 'time', 'string', 'color',
          'vector', 'gradient'}


def readable(ctx, path):
    """Reads everything in the file using the library itself."""
    a = sangfroid.Animation(path)
    str(a.begin_time), str(a.end_time), a.fps, a.name, a.desc
    tags = a.tag.find_all('layer')
    ctx.same(len(a.find_all(True)), len(tags), 'number of layers')
    for tag in tags:
        layer = sangfroid.layer.Layer.from_tag(tag)
        repr(layer), layer.desc, layer.active
        for name, value in layer.items():
            if value.is_animated:
                ctx.check(len(value.timeline)>0, 'no waypoints')
                for waypoint in value.timeline:
                    str(waypoint), waypoint.value.value
            elif value.tag.name in SIMPLE or value.tag.name in ('composite', 'canvas'):
                value.value
                str(value)
            for attempt in (name,):
                if isinstance(getattr(type(layer), '__dict__', {}).get(attempt),
                              sangfroid.field.ParamTagField):
                    getattr(layer, attempt)


FIXTURES = ['bouncing.sif', 'circles.sif', 'wombats.sifz', 'bywords/sing-like-a-girl.sif']


def fixture_cases(tier):
    for f in FIXTURES:
        for edit in ('nothing', 'animate', 'unanimate', 'static', 'again'):
            yield [f, edit]


def fixture_run(ctx, case):
    """Does something to every param of a real document."""
    f, edit = case
    a = sangfroid.Animation(os.path.join(REPO, 'test', f))
    for layer in a.find_all(True):
        for name, value in layer.items():
            if value.our_type in ('composite', 'canvas') or \
                    value.tag.name in ('composite', 'canvas'):
                continue
            ctx.step()
            if edit in ('animate', 'again'):
                value.is_animated = True
            if edit in ('unanimate', 'again'):
                value.is_animated = False
            if edit=='static':
                kind = value.tag['type'] if value.is_animated else value.tag.name
                if kind in editing.KINDS and kind!='time':
                    value.value = editing.KINDS[kind].samples[0]
    path = ctx.path('fixture.'+f.rpartition('.')[2])
    a.save(path)
    root = sif.parse(sif.payload(path)[0])
    ctx.state(f, edit)
    check(ctx, root)
    readable(ctx, path)


UNITS = [
        Unit('histories', cases, run),
        Unit('fixtures', fixture_cases, fixture_run),
        ]
