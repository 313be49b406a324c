"""
Looking at documents without going through the code under test.
"""
import gzip
import io
import os

import bs4
from lxml import etree

# In these, all whitespace belongs to the user.
TEXT_TAGS = {'string', 'name', 'desc', 'keyframe'}


def _tidy(name, children):
    """Joins up adjacent text, and drops formatting whitespace."""
    joined = []
    for c in children:
        if isinstance(c, str) and joined and isinstance(joined[-1], str):
            joined[-1] += c
        else:
            joined.append(c)
    if name in TEXT_TAGS:
        return tuple(c for c in joined if c!='')
    return tuple(c for c in joined
                 if not (isinstance(c, str) and c.strip(' \t\r\n')==''))


def canon(tag):
    """The canonical form of a Beautiful Soup tag."""
    children = []
    for c in tag.contents:
        if isinstance(c, bs4.Tag):
            children.append(canon(c))
        elif isinstance(c, bs4.Comment):
            children.append(('#comment', str(c)))
        elif isinstance(c, (bs4.element.ProcessingInstruction,)):
            children.append(('#pi', str(c).rstrip('?').strip()))
        elif isinstance(c, (bs4.element.Doctype, bs4.element.Declaration)):
            pass
        elif isinstance(c, bs4.NavigableString):
            children.append(str(c))
        else:
            raise TypeError(f'{type(c)} in a document')
    name = f'{tag.prefix}:{tag.name}' if tag.prefix and not tag.name.startswith(tag.prefix+':') else tag.name
    return (
            name,
            tuple(sorted((str(k), str(v)) for k, v in tag.attrs.items())),
            _tidy(tag.name, children),
            )


def canon_element(e):
    """The canonical form of an lxml element."""
    children = []
    if e.text:
        children.append(e.text)
    for c in e:
        if isinstance(c, etree._Comment):
            children.append(('#comment', c.text))
        elif isinstance(c, etree._ProcessingInstruction):
            children.append(('#pi', f'{c.target} {c.text or ""}'.strip()))
        else:
            children.append(canon_element(c))
        if c.tail:
            children.append(c.tail)
    return (
            e.tag,
            tuple(sorted((k, v) for k, v in e.attrib.items())),
            _tidy(e.tag, children),
            )


def parse(data):
    """Strictly parses some bytes. Returns an lxml element."""
    parser = etree.XMLParser(recover=False, huge_tree=True,
                             resolve_entities=False, no_network=True)
    return etree.fromstring(data, parser)


def outside(root):
    """The comments and so on before and after the root."""
    before, after = [], []
    for where, sibling in (
            [(before, s) for s in root.itersiblings(preceding=True)] +
            [(after, s) for s in root.itersiblings()]):
        kind = '#comment' if isinstance(sibling, etree._Comment) else '#pi'
        where.append((kind, (sibling.text or '').strip()))
    return tuple(reversed(before)), tuple(after)


def canon_bytes(data):
    return canon_element(parse(data))


def payload(path):
    """The XML bytes in a file, and the kind of file it is."""
    with open(path, 'rb') as f:
        data = f.read()
    if data[:2]==b'\x1f\x8b':
        return gzip.decompress(data), 'sifz'
    return data, 'sif'


def canon_file(path):
    return canon_bytes(payload(path)[0])


def escape(s, attribute=False):
    """Writes down any string so that any XML parser gets it back exactly."""
    out = []
    for c in s:
        if c in '<>&"\'' or c in '\t\n\r' or ord(c)>126:
            out.append(f'&#{ord(c)};')
        else:
            out.append(c)
    return ''.join(out)


def write(path, text, kind=None):
    data = text.encode('utf-8') if isinstance(text, str) else text
    kind = kind or ('sifz' if path.endswith('sifz') else 'sif')
    if kind=='sifz':
        data = gzip.compress(data, 1)
    with open(path, 'wb') as f:
        f.write(data)
    return path


HEADER = '<?xml version="1.0" encoding="UTF-8"?>\n'


def canvas(content='', fps='24', begin='0f', end='5s', extra='', name='n'):
    return (
            HEADER+
            f'<canvas version="1.2" width="480" height="270" '
            f'xres="2834.645669" yres="2834.645669" '
            f'gamma-r="1.000000" gamma-g="1.000000" gamma-b="1.000000" '
            f'view-box="-4.000000 2.250000 4.000000 -2.250000" '
            f'antialias="1" fps="{fps}" begin-time="{begin}" '
            f'end-time="{end}" bgcolor="0.500000 0.500000 0.500000 1.000000" {extra}>\n'
            f'  <name>{name}</name>\n'
            f'  <keyframe time="0f" active="true">start</keyframe>\n'
            f'{content}</canvas>\n'
            )


def flat(c, path=()):
    """
    The differences-friendly form of a canonical form: a dict from
    path to whatever is there.
    """
    if isinstance(c, str):
        return {path: c}
    if len(c)==2:
        return {path: c}
    result = {path: (c[0], c[1])}
    for i, child in enumerate(c[2]):
        result.update(flat(child, path+(i,)))
    return result


def diff(a, b):
    """A short description of how two canonical forms differ."""
    a, b = flat(a), flat(b)
    result = []
    for k in sorted(set(a)|set(b)):
        if a.get(k)!=b.get(k):
            result.append(f'{"/".join(str(n) for n in k)}: '
                          f'{a.get(k)!r} -> {b.get(k)!r}')
    return '\n'.join(result[:8])
