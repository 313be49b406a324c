"""
Documents for bywords to work on, and what it should make of them.
"""
import re
from fractions import Fraction

from mc import sif

TOLERANCE = 1e-4 # frames


class Text:
    """
    A text layer. `desc` is what to say, if it's not None; otherwise `text` is.
    `before` is a list of (frame, text) if it's animated to begin with.
    """
    def __init__(self, id, text, desc=None, before=None):
        self.id = id
        self.text = text
        self.desc = desc
        self.before = before

    def says(self):
        if self.desc is not None:
            return self.desc
        if self.before:
            return self.before[-1][1]
        return self.text

    def xml(self):
        desc = '' if self.desc is None else f' desc="{sif.escape(self.desc)}"'
        if self.before:
            value = '<animated type="string">'+''.join(
                f'<waypoint time="{t}f" before="constant" after="constant">'
                f'<string>{sif.escape(s)}</string></waypoint>'
                for t, s in self.before)+'</animated>'
        else:
            value = f'<string>{sif.escape(self.text)}</string>'
        return (f'<layer type="text" group="{self.id}"{desc} version="0.4" active="true">'
                '<param name="amount"><real value="1.0"/></param>'
                f'<param name="text">{value}</param>'
                '<param name="origin"><vector><x>1.0</x><y>2.0</y></vector></param>'
                '</layer>\n')


class Group:
    """`content`: Texts, Groups, and strings of XML, the topmost first."""
    def __init__(self, id, desc, *content):
        self.id = id
        self.desc = desc
        self.content = content

    def xml(self):
        desc = '' if self.desc is None else f' desc="{sif.escape(self.desc)}"'
        return (f'<layer type="group" group="{self.id}"{desc} version="0.3">'
                '<param name="amount"><real value="1.0"/></param>'
                '<param name="canvas"><canvas>\n'+
                ''.join(c if isinstance(c, str) else c.xml()
                        for c in reversed(self.content))+
                '</canvas></param></layer>\n')

    def texts(self):
        for c in self.content:
            if isinstance(c, Text):
                yield c
            elif isinstance(c, Group):
                yield from c.texts()

    def is_ours(self):
        return (self.desc or '').lower().startswith('bywords')


def tidy(s):
    return re.sub('[^a-z0-9 ]', '', s.lower())


def document(groups, fps='24'):
    return sif.canvas(''.join(g if isinstance(g, str) else g.xml()
                              for g in reversed(groups)), fps=fps)


def timestamp(ms):
    s, ms = divmod(ms, 1000)
    m, s = divmod(s, 60)
    h, m = divmod(m, 60)
    return f'{h:02}:{m:02}:{s:02},{ms:03}'


def srt(lines):
    """lines: (start in ms, duration in ms, text)"""
    return '\n'.join(
            f'{i+1}\n{timestamp(start)} --> {timestamp(start+duration)}\n{text}\n'
            for i, (start, duration, text) in enumerate(lines))


def reveal(text, letters):
    """[(what's shown, number of characters in the latest bit of it)]"""
    if letters:
        ends = [(i+1, 1) for i, c in enumerate(text) if not c.isspace()]
    else:
        ends = [(m.end(), len(m.group())) for m in re.finditer(r'[^ \t\n]+', text)]
    return [(text[:end], n) for end, n in ends]


def adjusted(groups, lines, fps, letters):
    """
    What bywords should do. Returns {id of text: [(frame, text), ...]}
    for the texts which should be animated; the rest should be left alone.
    """
    fps = Fraction(fps)
    ours = [g for g in all_groups(groups) if g.is_ours()]
    result = {}
    for start, duration, said in lines:
        for g in ours:
            texts = list(g.texts())
            full = ' '.join(tidy(t.says()) for t in texts)
            if full!=tidy(said) or not full.strip():
                continue
            shown = [(t, s, n) for t in texts for s, n in reveal(t.says(), letters)]
            total = sum(n for t, s, n in shown)
            so_far = 0
            for t in texts:
                result.setdefault(t.id, {Fraction(0): ''})
            for t, s, n in shown:
                time = (Fraction(start)+Fraction(duration)*so_far/total)/1000*fps
                result[t.id][time] = s
                so_far += n
            break
    return {id: [(float(time), s) for time, s in sorted(d.items())]
            for id, d in result.items()}


def all_groups(groups):
    for g in groups:
        if isinstance(g, Group):
            yield g
            yield from all_groups([c for c in g.content if isinstance(c, Group)])


def alike(found, wanted):
    return len(found)==len(wanted) and all(
            abs(f[0]-w[0])<TOLERANCE and f[1]==w[1]
            for f, w in zip(found, wanted))
