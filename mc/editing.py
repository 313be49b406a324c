"""
Editing whole documents: a document with many kinds of layer, the edits a
user could make to it, what each should do, and the rules every saved
document has to keep.
"""
import sangfroid
from sangfroid import T
from mc import sif
from mc.values import KINDS, describe, INTERPOLATIONS, _time, _num

# ---------------------------------------------------------------- documents


def animated(kind, *waypoints):
    k = KINDS[kind]
    return f'<animated type="{kind}">'+''.join(
            f'<waypoint time="{t}" before="{b}" after="{a}"{extra}>'
            f'{k.xml(k.samples[i])}</waypoint>'
            for t, i, b, a, extra in waypoints)+'</animated>'


def param(name, xml):
    return f'<param name="{name}">{xml}</param>\n'


def transformation(offset=(0.5, -0.5), angle=10.0, skew=20.0, scale=(2.0, 3.0),
                   offset_xml=None):
    v, a = KINDS['vector'].xml, KINDS['angle'].xml
    return ('<composite type="transformation">'
            f'<offset>{offset_xml or v(offset)}</offset>'
            f'<angle>{a(angle)}</angle>'
            f'<skew_angle>{a(skew)}</skew_angle>'
            f'<scale>{v(scale)}</scale></composite>')


def k(kind, i=0):
    return KINDS[kind].xml(KINDS[kind].samples[i])


def layer(type_, id_, *params, attrs=''):
    return (f'<layer type="{type_}" active="true" exclude_from_rendering="false" '
            f'version="0.2" desc="{id_}" group="{id_}"{attrs}>\n'
            + ''.join(params) + '</layer>\n')


def group(id_, *content, offset_xml=None, attrs=''):
    return layer('group', id_,
                 param('amount', k('real')),
                 param('blend_method', '<integer static="true" value="0"/>'),
                 param('origin', k('vector', 1)),
                 param('transformation', transformation(offset_xml=offset_xml)),
                 param('canvas', '<canvas xres="10.0" yres="10.0">\n'+''.join(content)+'</canvas>'),
                 param('time_offset', k('time')),
                 param('children_lock', k('bool')),
                 attrs=attrs)


def circle(id_, radius=None):
    return layer('circle', id_,
                 param('amount', k('real', 1)),
                 param('blend_method', '<integer static="true" value="12"/>'),
                 param('color', k('color')),
                 param('radius', radius or k('real')),
                 param('origin', k('vector')),
                 param('invert', k('bool', 1)))


def text(id_):
    return layer('text', id_,
                 param('amount', k('real', 1)),
                 param('text', k('string')),
                 param('color', k('color', 1)),
                 param('size', k('vector', 2)),
                 param('origin', k('vector', 1)),
                 param('style', k('integer')))


def gradient(id_):
    return layer('linear_gradient', id_,
                 param('amount', k('real', 1)),
                 param('p1', k('vector')),
                 param('p2', k('vector', 1)),
                 param('gradient', k('gradient')),
                 param('loop', k('bool', 1)))


def timeloop(id_):
    return layer('timeloop', id_,
                 param('link_time', k('time')),
                 param('duration', k('time', 1)),
                 param('symmetrical', k('bool')))


def star(id_):
    return layer('star', id_,
                 param('amount', k('real', 1)),
                 param('color', k('color')),
                 param('points', k('integer')),
                 param('angle', k('angle')),
                 param('origin', k('vector')))


def document(fps='24'):
    return sif.canvas(
            circle('bottom')+
            group('outer',
                  circle('inner', radius=animated(
                      'real', ('0f', 0, 'halt', 'linear', ' tension="0.5"'),
                      ('1s', 1, 'auto', 'constant', ' bias="1"'))),
                  group('deep',
                        text('words'),
                        offset_xml = animated(
                            'vector', ('12f', 0, 'clamped', 'clamped', ''))),
                  star('star'))+
            gradient('grad')+
            timeloop('loop'),
            fps=fps)


# params of the document, and what they hold
PARAMS = {
        'bottom': dict(amount='real', color='color', radius='real', origin='vector', invert='bool'),
        'outer': dict(amount='real', origin='vector', time_offset='time', children_lock='bool'),
        'inner': dict(amount='real', color='color', radius='real', origin='vector', invert='bool'),
        'deep': dict(amount='real', origin='vector', time_offset='time', children_lock='bool'),
        'words': dict(amount='real', text='string', color='color', size='vector', origin='vector', style='integer'),
        'star': dict(amount='real', color='color', points='integer', angle='angle', origin='vector'),
        'grad': dict(amount='real', p1='vector', p2='vector', gradient='gradient', loop='bool'),
        'loop': dict(link_time='time', duration='time', symmetrical='bool'),
        }
PARENT = {'bottom': None, 'outer': None, 'grad': None, 'loop': None,
          'inner': 'outer', 'deep': 'outer', 'star': 'outer', 'words': 'deep'}
PARTS = {'offset': 'vector', 'angle': 'angle', 'skew_angle': 'angle', 'scale': 'vector'}


# ------------------------------------------------------------ observations

def layer_id(attrs):
    attrs = dict(attrs)
    return attrs.get('group') or attrs.get('desc') or '?'


def snapshot(c):
    """
    Everything in a canonical document, as a dict from a place to what's
    there.
    """
    result = {}
    result['root', 'attrs'] = c[1]
    _layers(result, 'root', c[2])
    return result


def _layers(result, owner, children):
    order = []
    others = []
    for child in children:
        if child[0]!='layer' or isinstance(child, str):
            others.append(child)
            continue
        name = layer_id(child[1])
        if (name, 'attrs') in result:
            n = 2
            while (f'{name}#{n}', 'attrs') in result:
                n += 1
            name = f'{name}#{n}'
        order.append(name)
        result[name, 'attrs'] = child[1]
        seen = {}
        rest = []
        for p in child[2]:
            if p[0]!='param' or isinstance(p, str):
                rest.append(p)
                continue
            pname = dict(p[1]).get('name')
            seen[pname] = seen.get(pname, 0)+1
            key = pname if seen[pname]==1 else f'{pname}#{seen[pname]}'
            if len(p[2])==1 and p[2][0][0]=='canvas':
                result[name, 'param', key] = ('canvas', p[1], p[2][0][1])
                _layers(result, name, p[2][0][2])
            elif len(p[2])==1 and p[2][0][0]=='composite':
                comp = p[2][0]
                result[name, 'param', key] = ('composite', p[1], comp[1],
                                              tuple(sorted(x[0] for x in comp[2])))
                for part in comp[2]:
                    result[name, 'part', part[0]] = part
            else:
                result[name, 'param', key] = p
        result[name, 'other'] = tuple(rest)
    result[owner, 'order'] = tuple(order)
    result[owner, 'others'] = tuple(others)


def changes(before, after):
    return {key for key in set(before)|set(after)
            if before.get(key)!=after.get(key)}


def show(before, after, keys):
    return '\n'.join(f'  {key}: {before.get(key)} -> {after.get(key)}'
                     for key in sorted(keys)[:6])


def find_layer(root, id_):
    """The lxml element of a layer."""
    found = [e for e in root.iter('layer') if layer_id(e.attrib)==id_]
    return found[0] if found else None


def find_value(root, id_, name, part=None):
    """The lxml element holding a value."""
    for p in find_layer(root, id_).findall('param'):
        if p.get('name')==name:
            if part:
                return p[0].find(part)[0]
            return p[0]
    return None


# ------------------------------------------------------------ being valid

class Invalid(Exception):
    pass


def need(condition, *what):
    if not condition:
        raise Invalid(' '.join(str(w) for w in what))


def elements(e):
    return [c for c in e if isinstance(c.tag, str)]


def number(s, what):
    try:
        f = float(s)
    except (TypeError, ValueError):
        raise Invalid(f'{what}: {s!r} is not a number')
    need(f==f and abs(f)<1e300, what, s, 'is not finite')
    return f


def no_text(e):
    need(not (e.text or '').strip(), f'text in <{e.tag}>: {e.text!r}')
    for c in e:
        need(not (c.tail or '').strip(), f'text in <{e.tag}>: {c.tail!r}')


def valid_value(e, fps, in_waypoint=False):
    tag = e.tag
    if tag=='animated':
        need(not in_waypoint, 'animated within a waypoint')
        kind = e.get('type')
        need(kind, 'animated value has no type')
        need(kind not in ('composite', 'canvas', 'animated'), 'animated', kind)
        no_text(e)
        need(set(e.attrib)<={'type', 'guid', 'id', 'static', 'interpolation'},
             'stray attributes on <animated>:', dict(e.attrib))
        last = None
        ways = elements(e)
        need(ways, 'animated, but no waypoints')
        for w in ways:
            need(w.tag=='waypoint', f'<{w.tag}> within <animated>')
            t = _time(w.get('time'), fps)
            need(last is None or t>last, 'waypoints out of order:', last, t)
            last = t
            for side in ('before', 'after'):
                need(w.get(side) in INTERPOLATIONS, side, '=', w.get(side))
            inside = elements(w)
            need(len(inside)==1, 'waypoint holds', [c.tag for c in inside])
            need(inside[0].tag==kind, 'waypoint of a', kind, 'holds', inside[0].tag)
            no_text(w)
            valid_value(inside[0], fps, in_waypoint=True)
        return
    if tag in ('real', 'integer', 'bool', 'angle', 'time'):
        need(not elements(e), f'<{tag}> holds', [c.tag for c in e])
        no_text(e)
        need('type' not in e.attrib, f'<{tag}> has a type')
        value = e.get('value')
        need(value is not None, f'<{tag}> has no value')
        if tag=='integer':
            need(value.lstrip('-').isdigit(), 'integer', value)
        elif tag=='bool':
            need(value in ('true', 'false'), 'bool', value)
        elif tag=='time':
            t = __import__('mc.props.c05', fromlist=['judge']).judge(value, fps)
            need(isinstance(t, float), 'time', value)
        else:
            number(value, tag)
    elif tag=='string':
        need(not elements(e), '<string> holds', [c.tag for c in e])
        need('value' not in e.attrib and 'type' not in e.attrib, 'string attributes')
    elif tag=='color':
        no_text(e)
        need([c.tag for c in e]==list('rgba'), 'color holds', [c.tag for c in e])
        for c in e:
            number(c.text, 'color')
    elif tag=='vector':
        no_text(e)
        need(sorted(c.tag for c in e)==['x', 'y'], 'vector holds', [c.tag for c in e])
        for c in e:
            number(c.text, 'vector')
    elif tag=='gradient':
        no_text(e)
        stops = elements(e)
        need(len(stops)>=2, 'gradient has', len(stops), 'colours')
        positions = []
        for c in stops:
            need(c.tag=='color', 'gradient holds', c.tag)
            positions.append(number(c.get('pos'), 'pos'))
            valid_value(c, fps)
        need(len(set(positions))==len(positions), 'repeated pos', positions)
        need(positions==sorted(positions), 'unsorted gradient', positions)
    elif tag=='composite':
        no_text(e)
        need(e.get('type')=='transformation', 'composite', e.get('type'))
        need(sorted(c.tag for c in e)==sorted(PARTS), 'composite holds', [c.tag for c in e])
        for c in e:
            need(len(c)==1, c.tag, 'holds', [x.tag for x in c])
            valid_value(c[0], fps)
            got = c[0].get('type') if c[0].tag=='animated' else c[0].tag
            need(got==PARTS[c.tag], c.tag, 'holds', c[0].tag)
    elif tag=='canvas':
        no_text(e)
        for c in elements(e):
            need(c.tag=='layer', 'canvas holds', c.tag)
            valid_layer(c, fps)
    # anything else is a kind we leave alone


def valid_layer(e, fps):
    need(e.get('type'), 'layer has no type:', dict(e.attrib))
    for a in ('active', 'exclude_from_rendering'):
        need(e.get(a, 'true') in ('true', 'false'), a, e.get(a))
    no_text(e)
    names = set()
    for p in elements(e):
        need(p.tag=='param', 'layer holds', p.tag)
        name = p.get('name')
        need(name, 'param has no name')
        need(name not in names, 'layer has two params called', name)
        names.add(name)
        no_text(p)
        inside = elements(p)
        need(len(inside)==1, 'param', name, 'holds', [c.tag for c in inside])
        try:
            valid_value(inside[0], fps)
        except Invalid as i:
            raise Invalid(f'{e.get("type")}/{e.get("desc")}/{name}: {i}')


def validate(root):
    """Raises Invalid if the document isn't one Synfig could read."""
    need(root.tag=='canvas', 'root is', root.tag)
    fps = number(root.get('fps'), 'fps')
    for a in ('width', 'height', 'antialias'):
        need((root.get(a) or '').isdigit(), a, root.get(a))
    for a in ('xres', 'yres', 'gamma-r', 'gamma-g', 'gamma-b'):
        number(root.get(a), a)
    for a in ('begin-time', 'end-time'):
        judge = __import__('mc.props.c05', fromlist=['judge']).judge
        need(isinstance(judge(root.get(a), fps), float), a, root.get(a))
    need(len(root.get('view-box').split())==4, 'view-box', root.get('view-box'))
    need(len(root.get('bgcolor').split())==4, 'bgcolor', root.get('bgcolor'))
    for a in root.attrib:
        need('_' not in a, 'stray attribute', a)
    no_text(root)
    counts = {}
    for c in elements(root):
        counts[c.tag] = counts.get(c.tag, 0)+1
        need(c.tag in ('name', 'desc', 'author', 'meta', 'keyframe', 'defs', 'bones', 'layer'),
             'root holds', c.tag)
        if c.tag=='layer':
            valid_layer(c, fps)
    for tag in ('name', 'desc', 'defs'):
        need(counts.get(tag, 0)<=1, 'several of', tag)


# ------------------------------------------------- a document, and a model

NEW = {  # layers a user might add, and one param of each to look at
        'Circle': ('radius', 'real'),
        'Text': ('text', 'string'),
        'Group': ('amount', 'real'),
        'Timeloop': ('duration', 'time'),
        'Linear_Gradient': ('loop', 'bool'),
        'Star': ('points', 'integer'),
        }
ROOT = {  # attributes of the whole animation, and how the file spells them
        'width': ('width', 640, '640'),
        'height': ('height', 200, '200'),
        'begin_time': ('begin-time', 2, None),
        'end_time': ('end-time', '3s', None),
        'gamma_g': ('gamma-g', 2.5, None),
        }


_started = {}


def _start(text):
    """What a document holds before we do anything to it."""
    if text not in _started:
        root = sif.parse(text.encode())
        values = {}
        for id_, params in PARAMS.items():
            for name, kind in params.items():
                values[id_, name] = describe(kind, find_value(root, id_, name))
        for id_ in ('outer', 'deep'):
            for part, kind in PARTS.items():
                values[id_, 'transformation', part] = describe(
                        kind, find_value(root, id_, 'transformation', part))
        _started[text] = (snapshot(sif.canon_element(root)), values)
    return _started[text]


class World:
    def __init__(self, ctx, fps='24', text=None):
        self.ctx = ctx
        self.fps = float(fps)
        self.path = ctx.path('edit.sif')
        sif.write(self.path, text or document(fps))
        self.open()
        self.original, values = _start(text or document(fps))
        self.values = dict(values)

        self.order = {'root': ['bottom', 'outer', 'grad', 'loop'],
                      'outer': ['inner', 'deep', 'star'],
                      'deep': ['words']}
        self.attrs = {}
        self.root = {}
        self.created = {}

    def open(self):
        self.animation = sangfroid.Animation(self.path)
        self.layers = {}
        for tag in self.animation.tag.find_all('layer'):
            self.layers[layer_id(tag.attrs)] = sangfroid.layer.Layer.from_tag(tag)
        self.handles = {}

    def group(self, id_):
        return self.animation if id_=='root' else self.layers[id_]

    def kind(self, id_, name):
        if id_ in self.created:
            return NEW[self.created[id_]][1]
        return PARAMS[id_][name]

    def sample(self, kind, i):
        s = KINDS[kind].samples
        s = s[i%len(s)]
        return s, KINDS[kind].norm(s)

    def value_object(self, kind, i):
        if kind=='time':
            return sangfroid.value.Time(T(self.sample(kind, i)[1]))
        return KINDS[kind].cls(self.sample(kind, i)[0])

    # ---- one edit

    def do(self, op):
        self.ctx.step()
        self.ctx.note(op)
        getattr(self, 'do_'+op[0])(*op[1:])

    def do_set(self, id_, name, i, route):
        kind = self.kind(id_, name)
        sample, norm = self.sample(kind, i)
        layer = self.layers[id_]
        if route=='attr':
            setattr(layer, name, sample)
        elif route=='item':
            layer[name] = sample
        elif route=='value':
            getattr(layer, name).value = sample
        elif route=='attr-object':
            setattr(layer, name, self.value_object(kind, i))
        elif route=='item-object':
            layer[name] = self.value_object(kind, i)
        elif route=='old-handle':
            self.handle(id_, name).value = sample
        self.values[id_, name] = ('static', norm)

    def handle(self, id_, name):
        key = (id_, name)
        if key not in self.handles:
            self.handles[key] = self.layers[id_][name]
        return self.handles[key]

    def do_part(self, id_, part, i, route):
        kind = PARTS[part]
        sample, norm = self.sample(kind, i)
        layer = self.layers[id_]
        if route=='shortcut':
            setattr(layer, part, sample)
        elif route=='attr':
            layer.transformation = {part: sample}
        elif route=='item':
            layer['transformation'] = {part: sample}
        elif route=='value':
            layer.transformation.value = {part: sample}
        elif route=='part-value':
            layer.transformation[part].value = sample
        elif route=='object':
            layer.transformation = {part: self.value_object(kind, i)}
        elif route=='animate':
            layer.transformation[part].timeline[12] = sample
            state = self.values[id_, 'transformation', part]
            ways = {w[0]: w for w in (state[1] if state[0]=='animated' else [])}
            ways[12.0] = (12.0, norm, 'clamped', 'clamped')
            self.values[id_, 'transformation', part] = (
                    'animated', [ways[t] for t in sorted(ways)])
            return
        self.values[id_, 'transformation', part] = ('static', norm)

    def do_way(self, id_, name, frames, i):
        kind = self.kind(id_, name)
        sample, norm = self.sample(kind, i)
        self.layers[id_][name].timeline[frames] = sample
        state = self.values[id_, name]
        ways = {w[0]: w for w in (state[1] if state[0]=='animated' else [])}
        ways[float(frames)] = (float(frames), norm, 'clamped', 'clamped')
        self.values[id_, name] = ('animated', [ways[t] for t in sorted(ways)])

    def do_unway(self, id_, name, frames):
        state = self.values[id_, name]
        ways = {w[0]: w for w in (state[1] if state[0]=='animated' else [])}
        try:
            del self.layers[id_][name].timeline[frames]
            ok = True
        except KeyError:
            ok = False
        self.ctx.same(ok, float(frames) in ways, f'deleting waypoint {frames}')
        if ok:
            gone = ways.pop(float(frames))
            if ways:
                self.values[id_, name] = ('animated', [ways[t] for t in sorted(ways)])
            else:
                self.values[id_, name] = ('static', gone[1])

    def do_anim(self, id_, name, whether):
        self.layers[id_][name].is_animated = whether
        state = self.values[id_, name]
        if whether and state[0]=='static':
            self.values[id_, name] = ('animated', [(0.0, state[1], 'clamped', 'clamped')])
        elif not whether and state[0]=='animated':
            self.values[id_, name] = ('static', state[1][0][1])

    def do_copy(self, from_id, from_name, id_, name, route):
        value = self.layers[from_id][from_name]
        if route=='attr':
            setattr(self.layers[id_], name, value)
        else:
            self.layers[id_][name] = value
        self.values[id_, name] = self.values[from_id, from_name]

    def do_move(self, id_, to):
        self.group(to).append(self.layers[id_])
        for o in self.order.values():
            if id_ in o:
                o.remove(id_)
        self.order[to].insert(0, id_)

    def do_insert(self, id_, to, index):
        """Puts a layer in front of the one at the given index."""
        o = self.order[to]
        if index>=len(o):
            # C10 is where inserting past the end is judged
            return
        there = list(reversed(o))[index]
        self.group(to).insert(index, self.layers[id_])
        if there==id_:
            return
        for others in self.order.values():
            if id_ in others:
                others.remove(id_)
        o.insert(o.index(there)+1, id_)

    def do_new(self, type_, to):
        id_ = f'new{len(self.created)}'
        new = getattr(sangfroid.layer, type_)()
        new.desc = id_
        self.group(to).append(new)
        self.layers[id_] = new
        self.created[id_] = type_
        self.order[to].insert(0, id_)
        if type_=='Group':
            self.order[id_] = []

    def do_attr(self, id_, name, value):
        setattr(self.layers[id_], name, value)
        if isinstance(value, bool):
            value = str(value).lower()
        self.attrs[id_, name] = value

    def do_root(self, name):
        spelling, value, _ = ROOT[name]
        setattr(self.animation, name, value)
        self.root[spelling] = value

    def do_title(self, name, value):
        setattr(self.animation, name, value)
        self.root['<'+name+'>'] = value

    def do_stop(self, id_, pos, colour):
        """Changes one colour of a gradient."""
        value = self.layers[id_]['gradient']
        state = self.values[id_, 'gradient']
        if state[0]=='animated':
            return
        value[pos] = colour
        norm = KINDS['color'].norm(colour)
        stops = dict(state[1])
        stops[_num(pos)] = norm
        self.values[id_, 'gradient'] = ('static', tuple(sorted(stops.items())))

    def do_save(self):
        self.animation.save()

    def do_reopen(self):
        self.animation.save()
        self.open()

    def do_saveas(self):
        self.path = self.ctx.path('other.sifz')
        self.animation.save(self.path)

    # ---- what we can see

    def saved(self):
        """What's in the file, after saving it: an lxml element."""
        self.animation.save()
        return sif.parse(sif.payload(self.path)[0])

    def agree(self, root):
        """Checks that the file holds just what the model says it should."""
        ctx = self.ctx
        after = snapshot(sif.canon_element(root))
        changed = changes(self.original, after)

        for (id_, name, *part), wanted in self.values.items():
            if part:
                kind = PARTS[part[0]]
                e = find_value(root, id_, name, part[0])
                changed.discard((id_, 'part', part[0]))
            else:
                kind = self.kind(id_, name)
                e = find_value(root, id_, name)
                changed.discard((id_, 'param', name))
            try:
                found = describe(kind, e)
            except ValueError as problem:
                ctx.check(False, f'{id_}/{name}{part}: {problem}')
            ctx.same(found, wanted, f'{id_}/{name}{part}')

        for id_, wanted in self.order.items():
            ctx.same(list(after[id_, 'order']), wanted, f'layers in {id_}')
            changed.discard((id_, 'order'))

        for id_ in set(i for i, _ in self.attrs):
            wanted = dict(self.original[id_, 'attrs'])
            for (i, name), value in self.attrs.items():
                if i!=id_:
                    continue
                if value is None:
                    wanted.pop(name, None)
                else:
                    wanted[name] = value
            ctx.same(dict(after[id_, 'attrs']), wanted, f'attributes of {id_}')
            changed.discard((id_, 'attrs'))

        if any(not n.startswith('<') for n in self.root):
            found = dict(after['root', 'attrs'])
            for name, value in dict(self.original['root', 'attrs']).items():
                if name not in self.root:
                    ctx.same(found.pop(name, None), value, f'attribute {name}')
            for name, value in self.root.items():
                if name.startswith('<'):
                    continue
                there = found.pop(name, None)
                if name.endswith('time'):
                    want = {2: 2.0, '3s': 3*self.fps}[value]
                    ctx.same(_time(there, self.fps), want, name)
                else:
                    ctx.same(float(there), float(value), name)
            ctx.same(found, {}, 'stray attributes')
            changed.discard(('root', 'attrs'))

        for name, value in self.root.items():
            if name.startswith('<'):
                found = [c for c in root if c.tag==name.strip('<>')]
                ctx.same([c.text or '' for c in found], [value], name)
        if any(n.startswith('<') for n in self.root):
            def rest(where):
                return tuple(o for o in where['root', 'others']
                             if f'<{o[0]}>' not in self.root)
            ctx.same(rest(after), rest(self.original), 'the rest of the header')
            changed.discard(('root', 'others'))

        for id_ in self.created:
            changed = {c for c in changed if c[0]!=id_}

        ctx.check(not changed, 'something else changed:\n'+
                  show(self.original, after, changed))
