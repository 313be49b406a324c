"""
C26: the Python expression for a value makes that value again.
"""
import itertools

import sangfroid
import sangfroid.value as v
from mc import sif
from mc.core import Unit
from mc.props.c13 import domain, python_value, WHERE, FRESH, METHODS
from mc.values import KINDS

BOUNDS = {
        'quick': 'every value in the domains of C13 (numbers of all magnitudes, all bytes in all channels of a colour, strings of <=2 of 15 '
            'characters, times, vectors, gradients, blend methods by name and number), in a document, and alone; some 200 values as files have them (ten decimal places, odd forms); '
            'transformations with each combination of 4 offsets, 5 angles, 3 skew angles and 4 scales',
        'thorough': 'the same, with strings of <=3 characters and pairs of 33 numbers; transformations with all combinations of 12 numbers',
        }
ASSUMPTIONS = ['Animated values, canvases and the types which are not implemented have no such expression, and are not judged.']

NAMESPACE = {'v': v, '__builtins__': {}}


def document(kind):
    layer, param = WHERE[kind]
    new = FRESH[layer]()
    return sif.canvas(str(new.tag)), param


def reading(x):
    if hasattr(x, 'as_tuple'):
        return x.as_tuple()
    found = x.value
    if isinstance(found, dict):
        return [(k, reading(y)) for k, y in found.items()]
    return found


def cases(tier):
    for kind in WHERE:
        for value in domain(kind, tier):
            yield [kind, value]


def run(ctx, case):
    kind, value = case
    text, param = document(kind)
    path = sif.write(ctx.path(), text)
    a = sangfroid.Animation(path)
    if kind=='blend' and isinstance(value, str):
        value = METHODS.index(value)
    elif kind!='blend':
        value = python_value(kind, value)
    held = getattr(a[0], param)
    held.value = value
    before = sif.canon(a.tag)
    expression = held.as_python_expression()
    ctx.same(sif.canon(a.tag), before, 'the document afterwards')
    ctx.step()
    ctx.state(kind, str(expression))
    # it's for putting into Python source, as an argument
    made = eval(f'(\n{expression},\n)', dict(NAMESPACE))
    ctx.check(isinstance(made, tuple) and len(made)==1, 'not one expression:', str(expression))

    # 1. into the same place
    wanted = reading(held)
    b = sangfroid.Animation(sif.write(ctx.path('other.sif'), text))
    target = getattr(b[0], param)
    target.value = made[0]
    ctx.same(reading(target), wanted, f'{expression!r}, set as the value of another')
    ctx.check(target==held, 'the two should be equal')
    # 2. by the constructor
    if kind!='time':
        alone = type(held)(made[0])
        ctx.same(reading(alone), wanted, f'{expression!r}, constructed')
        again = alone.as_python_expression()
        ctx.same(str(again), str(expression), 'the expression for that')
    if kind=='blend':
        ctx.check(expression=='v.BlendMethod.'+METHODS[value], 'blend methods have names:', expression)


PART_NUMBERS = [0.0, -0.0, 0.05, -0.05, -0.01, -0.001, 0.5, -0.5, 1.0, -1.0, 10.0, -10.0, 100.0, 0.1, -0.25, 1/3, -1/3, 1e5, 1e-5, 360.0, 359.5, 3.05, -30.0]


def transformation_cases(tier):
    small = [0.0, 1.5, -0.1, 1/3]
    if tier!='quick':
        small = [0.0, 1.5, -0.1, 1/3, 1e6, -99999.5, 1e-9]
    offsets = [(0.0, 0.0), (1.5, -2.0), (1/3, 1e6), (-0.1, 0.000001)]
    angles = [0.0, 90.0, -45.5, 1/3, 720.0]
    # each number in each place
    for x in PART_NUMBERS:
        for y in PART_NUMBERS:
            for i in range(6):
                n = [1.25]*6
                n[i] = x
                n[(i+1)%6] = y
                yield [n[:2], n[2], n[3], n[4:]]
    for o, a, k, s in itertools.product(
            offsets if tier=='quick' else list(itertools.product(small, small)),
            angles, angles[:3], offsets):
        yield [list(o), a, k, list(s)]


def transformation_run(ctx, case):
    o, a, k, s = case
    path = sif.write(ctx.path(), sif.canvas(str(sangfroid.layer.Group().tag)))
    anim = sangfroid.Animation(path)
    held = anim[0].transformation
    held.value = {'offset': tuple(o), 'angle': a, 'skew_angle': k, 'scale': tuple(s)}
    expression = held.as_python_expression()
    ctx.step()
    ctx.state(str(expression))
    made = eval(f'(\n{expression},\n)', dict(NAMESPACE))
    alone = v.Transformation(made[0])
    ctx.same(reading(alone), reading(held), str(expression))
    ctx.check(alone==held, 'equal')
    for name, part in held.items():
        e = part.as_python_expression()
        ctx.same(reading(type(part)(eval(str(e), dict(NAMESPACE)))), reading(part), f'{name}: {e}')


# --------------------------------------------------------------
# Every param of every type of layer

def layer_cases(tier):
    from mc.props.c15 import types
    for t in types():
        yield [t]


def layer_run(ctx, case):
    from mc.props.c15 import class_of, KNOWN
    if case[0]==KNOWN:
        # can't be created at all: see C15
        return
    new = class_of(case[0])()
    a = sangfroid.Animation(sif.write(ctx.path(), sif.canvas(str(new.tag))))
    for name, held in a[0].items():
        ctx.step()
        if held.is_animated or name=='canvas':
            continue
        try:
            expression = held.as_python_expression()
        except NotImplementedError:
            continue
        ctx.state(case, name, str(expression))
        wanted = reading(held)
        made = eval(f'(\n{expression},\n)', dict(NAMESPACE))[0]
        if not isinstance(held, v.Time):
            ctx.same(reading(type(held)(made)), wanted, f'{name}: {expression!r}')
        a[0][name].value = made
        ctx.same(reading(held), wanted, f'{name}: {expression!r}, set')


# --------------------------------------------------------------
# Values as files have them

TEXTS = ['0', '1', '-1', '0.5', '1.0000000000', '0.1', '33.1234567891', '-0.0000000001', '99999.9999999999', '123456.7890120000', '7.000001', '-45.5000000000',
         '0.3333333333', '2834.645669', '1e3', '-.5', '360.0000001', '1000000', '0.9999999999', '5.']


def file_cases(tier):
    for s in TEXTS:
        for kind in ('real', 'angle'):
            yield [kind, s]
        for other in TEXTS[::4]:
            yield ['vector', s, other]
    for s in ('0.000000', '1.000000', '0.123456', '0.999999', '0.000001', '1.09', '-0.5', '16', '.25'):
        for i in range(4):
            yield ['color', s, i]
        yield ['gradient', s]
    for s in ('0', '-1', '1000000007', '007', '-0', '+5'):
        yield ['integer', s]
    for s in ('true', 'false', 'True', 'FALSE'):
        yield ['bool', s]
    for s in ('0f', '1s', '1s 2f', '90s', '0.5f', '-1s', '1h 1f', '12.25f', '3600s'):
        yield ['time', s]


def file_run(ctx, case):
    kind, s = case[:2]
    if kind=='vector':
        xml = f'<vector><x>{s}</x><y>{case[2]}</y></vector>'
    elif kind=='color':
        xml = '<color>'+''.join(f'<{c}>{s if i==case[2] else 0.5}</{c}>' for i, c in enumerate('rgba'))+'</color>'
    elif kind=='gradient':
        xml = '<gradient>'+''.join(f'<color pos="{p}"><r>{s}</r><g>0.5</g><b>{p}</b><a>1.0</a></color>' for p in ('0.123456', '0.5', '1'))+'</gradient>'
    else:
        xml = f'<{kind} value="{s}"/>'
    text, param = document(kind)
    layer = WHERE[kind][0]
    path = sif.write(ctx.path(), sif.canvas(f'<layer type="{layer}" version="0.1"><param name="{param}">{xml}</param></layer>'))
    a = sangfroid.Animation(path)
    held = a[0][param]
    wanted = reading(held)
    expression = held.as_python_expression()
    ctx.step()
    ctx.state(case)
    made = eval(f'(\n{expression},\n)', dict(NAMESPACE))[0]
    b = sangfroid.Animation(sif.write(ctx.path('other.sif'), text))
    target = b[0][param]
    target.value = made
    ctx.same(reading(target), wanted, f'{xml}: {expression!r}, set')
    if kind!='time':
        ctx.same(reading(type(held)(made)), wanted, f'{xml}: {expression!r}, constructed')
    b.save()
    ctx.same(reading(sangfroid.Animation(ctx.path('other.sif'))[0][param]), wanted, f'{xml}: {expression!r}, saved')


UNITS = [
        Unit('files', file_cases, file_run),
        Unit('layers', layer_cases, layer_run),
        Unit('values', cases, run),
        Unit('transformations', transformation_cases, transformation_run),
        ]
