"""
C21: names of types mean the same however they're spelt, and unknown ones are
never guessed at.
"""
import os

import bs4
import sangfroid
import sangfroid.value as v
from sangfroid.layer import Layer
from sangfroid.registry import Registry
from mc import sif
from mc.core import Unit, sequences, REPO
from mc.props.c15 import types as layer_types

BOUNDS = {
        'quick': 'each of the 56 types of layer and 17 of value, in every spelling which differs in the case of any '
            'one letter, or all, or in any one underscore; every near miss which has one letter more, fewer or different, two swapped, only its beginning or end, or another name added; all histories of <=4 of '
            '6 registrations, with 14 lookups after each',
        'thorough': 'all that, and spellings differing in any two places; all histories of <=5 registrations',
        }
ASSUMPTIONS = []

VALUES = {
        'real': '<real value="1.5"/>',
        'integer': '<integer value="3"/>',
        'bool': '<bool value="true"/>',
        'angle': '<angle value="90"/>',
        'time': '<time value="3f"/>',
        'string': '<string>x</string>',
        'color': '<color><r>1</r><g>0</g><b>0</b><a>1</a></color>',
        'vector': '<vector><x>1</x><y>2</y></vector>',
        'gradient': '<gradient><color pos="0"><r>1</r><g>0</g><b>0</b><a>1</a></color><color pos="1"><r>1</r><g>1</g><b>0</b><a>1</a></color></gradient>',
        'composite': '<composite type="transformation"><offset><vector><x>1</x><y>2</y></vector></offset><angle><angle value="1"/></angle><skew_angle><angle value="2"/></skew_angle><scale><vector><x>1</x><y>1</y></vector></scale></composite>',
        'canvas': '<canvas/>',
        'dynamic_list': '<dynamic_list type="color"/>',
        'static_list': '<static_list type="color"/>',
        'wplist': '<wplist type="width_point"/>',
        'dilist': '<dilist type="dash_item"/>',
        'bline': '<bline type="bline_point"/>',
        'tone': '<tone/>',
        }
CLASSES = {'vector': 'xy', 'composite': 'transformation'}
FAMILY = {'composite': 'Composite', 'vector': 'Vector'}


def squash(s):
    return s.lower().replace('_', '')


def spellings(name):
    yield name
    yield name.upper()
    yield name.title()
    yield name.replace('_', '')
    yield '_'+name
    yield name+'_'
    yield name.replace('_', '___').swapcase()
    for i, c in enumerate(name):
        if c=='_':
            yield name[:i]+name[i+1:]
        else:
            yield name[:i]+c.upper()+name[i+1:]
            yield name[:i]+'_'+name[i:]


def twice(name):
    seen = set()
    for s in spellings(name):
        for t in spellings(s):
            if t not in seen:
                seen.add(t)
                yield t


def near_misses(name):
    yield ''
    yield '_'
    yield name+'s'
    yield ' '+name
    yield name+' '
    yield name.replace('_', '-') if '_' in name else name+'-'
    yield name.replace('_', ' ') if '_' in name else name+'.'
    for i, c in enumerate(name):
        if c!='_':
            yield name[:i]+name[i+1:]
            yield name[:i]+'x'+name[i:]


LETTERS = 'abcdefghijklmnopqrstuvwxyz0123456789 -.:/\n\u00e9\u017f'


def all_misses(name):
    """Everything one letter away, and everything which begins or ends the same way."""
    for i in range(len(name)+1):
        yield name[:i]
        yield name[i:]
        yield name[:i]+name[i+1:]
        yield name[:i]+name[i+1:i+2]+name[i:i+1]+name[i+2:]
        for c in LETTERS:
            yield name[:i]+c+name[i:]
            yield name[:i]+c+name[i+1:]
    for other in layer_types()+list(VALUES)+['layer', 'synfig', 'transformation']:
        yield name+other
        yield name+'_'+other
        yield other+'_'+name


def layer_cases(tier):
    for t in layer_types():
        yield [tier, t]


_known = set()


def layer_run(ctx, case):
    tier, name = case
    if not _known:
        _known.update(squash(t) for t in layer_types())
        # not in the file
        _known.add('scale')

    def tag(s):
        result = bs4.Tag(name='layer')
        result['type'] = s
        return result

    cls = type(Layer.from_tag(tag(name)))
    ctx.same(squash(cls.__name__), squash(name), 'name of class')
    for s in (spellings(name) if tier=='quick' else twice(name)):
        ctx.step()
        ctx.state('layer', s)
        found = Layer.from_tag(tag(s))
        ctx.check(type(found) is cls, f'type="{s}" is a {type(found).__name__}')

    # in a document: by name, and by class
    variants = sorted(set(spellings(name)))
    path = sif.write(ctx.path('l.sif'), sif.canvas(''.join(
        f'<layer type="{s}" desc="{i}"/>' for i, s in enumerate(variants))+
        '<layer type="circle" desc="c"/><layer type="group" desc="g"><param name="canvas"><canvas/></param></layer>'))
    a = sangfroid.Animation(path)
    wanted = [str(i) for i in range(len(variants))]
    extra = {'circle': ['c'], 'group': ['g']}.get(name, [])
    for s in variants[::3]:
        ctx.same([x.desc for x in a.find_all(s)], wanted+extra, f'find_all({s!r})')
        ctx.same([x.desc for x in a.find_all(type=s)], wanted+extra, f'find_all(type={s!r})')
        ctx.step()
    ctx.same([x.desc for x in a.find_all(cls)], wanted+extra, f'find_all({cls.__name__})')
    ctx.check(all(type(x) is cls for x in list(a)[2:]), 'classes of children')
    a.save()
    found = [e.get('type') for e in sif.parse(sif.payload(path)[0]).iter('layer')]
    ctx.same(found[:-2], variants, 'the types in the file')

    for s in near_misses(name):
        ctx.step()
        if squash(s) in _known:
            continue
        ctx.state('miss', s)
        try:
            found = Layer.from_tag(tag(s))
            ok = False
        except KeyError:
            ok = True
        ctx.check(ok, f'type="{s}" was taken as something')
        ctx.same([x.desc for x in a.find_all(s)], [], f'find_all({s!r})')

    for s in all_misses(name):
        if squash(s) in _known:
            continue
        ctx.step()
        try:
            found = Layer.from_tag(tag(s))
        except KeyError:
            continue
        ctx.check(False, f'type="{s}" was taken as a', type(found).__name__)


# --------------------------------------------------------------

def value_cases(tier):
    for t in VALUES:
        yield [tier, t]


def value_run(ctx, case):
    tier, name = case
    soup = bs4.BeautifulSoup(sif.canvas(
        '<layer type="circle"><param name="p">'+VALUES[name]+'</param></layer>'), features='xml')
    tag = soup.find('param').find(True)
    value = v.Value.from_tag(tag)
    cls = type(value)
    ctx.check(squash(cls.__name__)==CLASSES.get(name, squash(name)), f'<{name}> is a {cls.__name__}')
    ctx.check(value.tag is tag, 'the tag')
    for s in (spellings(name) if tier=='quick' else twice(name)):
        if name=='composite' or name=='vector':
            # read as what's in them, whatever the spelling
            pass
        tag.name = s
        ctx.step()
        ctx.state('value', s)
        found = v.Value.from_tag(tag)
        ctx.check(type(found) is cls, f'<{s}> is a {type(found).__name__}')
        if name not in ('composite', 'canvas'):
            # and so too when it's animated
            animated = bs4.BeautifulSoup(sif.canvas(
                f'<layer type="circle"><param name="p"><animated type="{s}"><waypoint time="0f" before="clamped" after="clamped">'
                f'{VALUES[name]}</waypoint></animated></param></layer>'), features='xml').find('animated')
            found = v.Value.from_tag(animated)
            ctx.check(type(found) is cls, f'<animated type="{s}"> is a {type(found).__name__}')
            ctx.check(found.is_animated, 'animated')
    known = {squash(x) for x in VALUES}|{'animated'}
    for s in list(near_misses(name))+list(all_misses(name)):
        if squash(s) in known or not s.strip():
            continue
        tag.name = s
        ctx.step()
        try:
            v.Value.from_tag(tag)
            ok = False
        except KeyError:
            ok = True
        ctx.check(ok, f'<{s}> was taken as something')


# --------------------------------------------------------------
# The registry itself

class Wombat: pass
class Wom_Bat: pass
class Kangaroo: pass
class Tree_Kangaroo: pass


REGISTRATIONS = [
        (Wombat, None), (Wom_Bat, None), (Kangaroo, None), (Tree_Kangaroo, None),
        (Kangaroo, 'Wombat'), (Wombat, 'wom_bats'),
        ]
LOOKUPS = ['wombat', 'WOMBAT', 'wom_bat', '_w_o_m_b_a_t_', 'Kangaroo', 'kangaroO', 'treekangaroo', 'tree_kangaroo',
           'TREE__KANGAROO', 'tree kangaroo', 'wombats', 'wom_Bats', 'kangaro', '']


def registry_cases(tier):
    for ops in sequences(range(len(REGISTRATIONS)), 4 if tier=='quick' else 5, shortest=0):
        yield ops


def registry_run(ctx, case):
    r = Registry()
    other = Registry()
    model = {}
    for i in case+[None]:
        for s in LOOKUPS:
            ctx.step()
            wanted = model.get(squash(s))
            try:
                found = r.from_name(s)
            except KeyError:
                found = None
            ctx.check(found is wanted, f'{s!r} is {found}, not {wanted}')
            try:
                other.from_name(s)
                ok = False
            except KeyError:
                ok = True
            ctx.check(ok, 'registries share their contents')
        ctx.state(sorted((k, x.__name__) for k, x in model.items()))
        if i is None:
            break
        cls, name = REGISTRATIONS[i]
        given = r()(cls) if name is None else r(name=name)(cls)
        ctx.check(given is cls, 'the decorator changed the class')
        model[squash(name or cls.__name__)] = cls


# --------------------------------------------------------------
# What kind of composite a composite is

def composite_cases(tier):
    yield ['case']
    yield ['near']
    yield ['all']


def composite_run(ctx, case):
    soup = bs4.BeautifulSoup(sif.canvas(
        '<layer type="circle"><param name="p">'+VALUES['composite']+'</param></layer>'), features='xml')
    tag = soup.find('composite')
    name = 'transformation'
    if case==['case']:
        for s in {name, name.upper(), name.title()} | {name[:i]+name[i].upper()+name[i+1:] for i in range(len(name))}:
            tag['type'] = s
            ctx.step()
            found = v.Value.from_tag(tag)
            ctx.check(type(found) is v.Transformation, f'composite type {s!r} is a {type(found).__name__}')
            ctx.same(found.tag['type'], s, 'type')
            ctx.state(s)
        return
    for s in near_misses(name) if case==['near'] else all_misses(name):
        if squash(s)==name:
            continue
        tag['type'] = s
        ctx.step()
        ctx.state(s)
        try:
            v.Value.from_tag(tag)
            ok = False
        except KeyError:
            ok = True
        ctx.check(ok, f'composite type {s!r} was taken as something')


UNITS = [
        Unit('composites', composite_cases, composite_run),
        Unit('layers', layer_cases, layer_run),
        Unit('values', value_cases, value_run),
        Unit('registry', registry_cases, registry_run),
        ]
