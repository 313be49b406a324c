"""
The kinds of value a param can have: how to make them, how to
write them in a file, and how to read them without the code under test.
"""
import sangfroid
import sangfroid.value as v
from sangfroid import T


class Kind:
    """
    name: the name of the tag
    cls: the class of Value
    samples: distinct Python values, as a user would assign them
    read: turns a Value into something which compares to norm(sample)
    xml: turns a sample into XML
    from_xml: turns an lxml element into something which compares to
        norm(sample)
    """
    def __init__(self, name, cls, samples, read, norm, xml, from_xml):
        self.name = name
        self.cls = cls
        self.samples = samples
        self.read = read
        self.norm = norm
        self.xml = xml
        self.from_xml = from_xml


def _color_tuple(c):
    if isinstance(c, str):
        c = c.lstrip('#')
        if len(c)==6:
            c += 'ff'
        return tuple(round(int(c[i:i+2], 16)/255, 4) for i in range(0, 8, 2))
    c = tuple(c)
    if len(c)==3:
        c += (1.0,)
    return tuple(round(float(x), 4) for x in c)


def _color_xml(c, attrs=''):
    return f'<color{attrs}>'+''.join(
            f'<{k}>{x:.6f}</{k}>' for k, x in zip('rgba', _color_tuple(c)))+'</color>'


def _color_from(e):
    return tuple(round(float(e.find(k).text), 4) for k in 'rgba')


def _num(x):
    return round(float(x), 6)


def _xy(x):
    if hasattr(x, 'items'):
        x = dict(x.items())
        return (_num(x['x']), _num(x['y']))
    return tuple(_num(n) for n in x)


KINDS = {}


def _add(*args):
    KINDS[args[0]] = Kind(*args)


_add('real', v.Real, [1.5, -2.25, 0.0],
     lambda x: _num(x.value), _num,
     lambda s: f'<real value="{s:.10f}"/>',
     lambda e: _num(e.get('value')))

_add('integer', v.Integer, [3, -7, 0],
     lambda x: x.value, int,
     lambda s: f'<integer value="{s}"/>',
     lambda e: int(e.get('value')))

_add('bool', v.Bool, [True, False],
     lambda x: x.value, bool,
     lambda s: f'<bool value="{str(s).lower()}"/>',
     lambda e: {'true': True, 'false': False}[e.get('value')])

_add('angle', v.Angle, [30.0, -45.5, 0.0],
     lambda x: _num(x.value), _num,
     lambda s: f'<angle value="{s:.6f}"/>',
     lambda e: _num(e.get('value')))

_add('string', v.String, ['one', 'two & <three>', ''],
     lambda x: x.value, str,
     lambda s: '<string>'+s.replace('&', '&amp;').replace('<', '&lt;')+'</string>',
     lambda e: e.text or '')

_add('color', v.Color, ['#ff8000', (0.25, 0.5, 0.125), '#00000080'],
     lambda x: tuple(round(n, 4) for n in x.as_tuple()), _color_tuple,
     _color_xml, _color_from)

_add('vector', v.X_Y, [(1.5, -2.0), (0.0, 0.25), (-3.0, 4.0)],
     lambda x: (_num(x['x']), _num(x['y'])), _xy,
     lambda s: f'<vector><x>{s[0]:.10f}</x><y>{s[1]:.10f}</y></vector>',
     lambda e: (_num(e.find('x').text), _num(e.find('y').text)))

_add('time', v.Time, ['3f', '26f', '0f'],
     lambda x: _num(x.value.frames),
     lambda s: {'3f': 3.0, '26f': 26.0, '0f': 0.0}[s] if isinstance(s, str) else _num(s.frames),
     lambda s: f'<time value="{s}"/>',
     lambda e: _time(e.get('value')))


def _time(s, fps=24.0):
    from mc.props.c05 import judge
    return _num(judge(s, fps))


def _grad(g):
    return tuple(sorted((_num(k), _color_tuple(c)) for k, c in g.items()))


_add('gradient', v.Gradient,
     [{0.0: '#000000', 1.0: '#ffffff'},
      {0.0: (1.0, 0.0, 0.0), 0.5: (0.0, 1.0, 0.0), 1.0: (0.0, 0.0, 1.0)},
      {0.25: '#102030', 0.75: '#80808080'}],
     lambda x: tuple(sorted((_num(k), tuple(round(n, 4) for n in c.as_tuple()))
                            for k, c in x.value.items())),
     _grad,
     lambda s: '<gradient>'+''.join(
         _color_xml(c, f' pos="{k:.6f}"') for k, c in sorted(s.items()))+'</gradient>',
     lambda e: tuple(sorted((_num(c.get('pos')), _color_from(c)) for c in e)))


INTERPOLATIONS = ['auto', 'halt', 'clamped', 'constant', 'linear']
# how each is known once it's in memory
IN_MEMORY = {'auto': 'tcb', 'halt': 'ease', 'clamped': 'clamped',
             'constant': 'constant', 'linear': 'linear'}
IN_FILE = {b: a for a, b in IN_MEMORY.items()}


def describe(kind, e):
    """
    Reads a value from an lxml element: a static value gives
    ('static', value), and an animated one gives
    ('animated', [(frames, value, before, after)...]). Raises
    ValueError if the XML is ill-formed.
    """
    k = KINDS[kind]
    if e.tag=='animated':
        if e.get('type')!=kind:
            raise ValueError(f"animated type is {e.get('type')}, not {kind}")
        result = []
        for w in e:
            if w.tag!='waypoint':
                raise ValueError(f'<{w.tag}> in <animated>')
            for side in ('before', 'after'):
                if w.get(side) not in INTERPOLATIONS:
                    raise ValueError(f'{side}={w.get(side)!r}')
            if len(w)!=1 or w[0].tag!=kind:
                raise ValueError(f'waypoint should hold one <{kind}>: '
                                 f'{[c.tag for c in w]}')
            result.append((_time(w.get('time'), _fps(e)), k.from_xml(w[0]),
                           w.get('before'), w.get('after')))
        if not result:
            raise ValueError('animated, but no waypoints')
        return ('animated', result)
    if e.tag!=kind:
        raise ValueError(f'<{e.tag}> rather than <{kind}>')
    for c in e.iter('waypoint'):
        raise ValueError('waypoint in a static value')
    if kind in ('real', 'integer', 'bool', 'angle', 'time') and len(e):
        raise ValueError(f'<{kind}> should be empty')
    if kind in ('real', 'integer', 'bool', 'angle', 'time') and e.get('type'):
        raise ValueError(f'<{kind}> should have no type')
    return ('static', k.from_xml(e))


def _fps(e):
    return float(e.getroottree().getroot().get('fps'))
