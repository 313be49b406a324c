"""
C22: regenerating the code of the library touches only the blocks it's told to.
"""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys

from sangfroid.template.replacer import Replacer
from mc.core import Unit, sequences

BOUNDS = {
        'quick': 'every file of up to 6 of 7 kinds of line, with 6 sets of replacements; every pair of 9 files in nested '
            'directories; all histories of <=3 of 5 replacements of one file; every file of up to 3 of 17 '
            'odd kinds of line (CRLF, nearly a marker, no newline at the end), and a block among any three of 11; 12 names of other files beside it; '
            'all pairs of 22 names; up to 1000 lines, blocks and texts; all pairs of 16 files one after the other',
        'thorough': 'files of up to 7 lines, and of 4 odd ones; histories of <=5',
        }
ASSUMPTIONS = [
        'one process; no block contains a line beginning a class; '
        'indentation of the line which ends a block is not judged',
        ]

LINES = {
        'c': 'class Alpha(Layer):\n',
        'k': 'class Beta:\n',
        't': '    text = "### not a block"  \n',
        'e': '\n',
        'u': '    ### {{{\n',
        'n': '  ### {{{ Named_1\n',
        'x': '    ### }}}\n',
        }

FIELDS = [
        {},
        {'Alpha': 'one = 1'},
        {'Alpha': 'one = 1\n\n  two = [\n  ]', 'Named_1': 'three'},
        {'Beta': '', 'Named_1': 'x   \ny'},
        {'Gamma': 'unused'},
        {'Alpha': '\tpass', 'Beta': 'é = "—"', 'Named_1': '# ### }', 'Gamma': ''},
        ]


class Bad(Exception):
    pass


def reference(lines, fields):
    """
    Returns (lines, names of blocks); lines are compared after
    stripping, where they mark the ends of blocks. Raises Bad.
    """
    result = []
    seen = []
    latest = None
    block = None
    for line in lines:
        s = line.strip()
        if line.lstrip(' ').startswith('### {{{'):
            if block is not None:
                raise Bad()
            indent = len(line)-len(line.lstrip(' '))
            block = re.match('[A-Za-z0-9_]*', s[7:].strip()).group()
            if block=='':
                block = latest
                latest = None
            if not block:
                raise Bad()
            seen.append(block)
            result.append(line)
            if block in fields:
                for x in fields[block].split('\n'):
                    result.append((' '*indent+x).rstrip()+'\n')
        elif line.lstrip(' ').startswith('### }}}'):
            if block is None:
                raise Bad()
            block = None
            result.append(line)
        else:
            if line.startswith('class '):
                if block is not None:
                    return None
                latest = re.match('[A-Za-z0-9_]+', line[6:]).group()
            if block is None or block not in fields:
                result.append(line)
    if block is not None:
        raise Bad()
    return result, seen


def loosely(lines):
    return [l.strip() if l.strip().startswith('### }}}') else l for l in lines]


def read(path):
    with open(path, encoding='utf-8', newline='') as f:
        return f.read()


def write(path, text):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)


def split(text):
    return re.findall(r'[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+$', text)


def quietly(f, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*args)
    return out.getvalue()


def one(ctx, path, lines, fields, replacer):
    """Handles one file. Returns the new lines."""
    before = ''.join(lines)
    try:
        wanted = reference(lines, fields)
        bad = False
    except Bad:
        bad = bool(fields)
        wanted = (lines, [])
    if wanted is None:
        return None
    try:
        quietly(replacer.handle, path)
        refused = False
    except ValueError:
        refused = True
    ctx.step()
    ctx.same(os.listdir(os.path.dirname(path)), [os.path.basename(path)], 'files in the directory')
    after = read(path)
    if bad:
        ctx.check(refused, 'should have been refused:\n'+before)
        ctx.same(after, before, 'a file which was refused')
        return lines
    ctx.check(not refused, 'should not have been refused:\n'+before)
    if not fields:
        ctx.same(after, before, 'nothing to do')
    result = split(after)
    if fields:
        ctx.same(loosely(result), loosely(wanted[0]), 'the file')
    if not set(wanted[1]) & set(fields):
        ctx.same(after, before, 'a file with none of those blocks')
    ctx.state(after)
    return result


def file_cases(tier):
    for s in sequences(LINES, 6 if tier=='quick' else 7, shortest=0):
        s = ''.join(s)
        # those which must be refused, we only need a few of
        depth = 0
        for c in s[:-1]:
            if c in 'un':
                if depth:
                    break
                depth = 1
            elif c=='x':
                if not depth:
                    break
                depth = 0
            elif c in 'ck' and depth:
                break
        else:
            if len(s)>4 and s.count('x')==0:
                continue
            for f in range(len(FIELDS)):
                yield [s, f]


def file_run(ctx, case):
    s, f = case
    fields = FIELDS[f]
    d = ctx.path('rep')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'a.py')
    lines = [LINES[c] for c in s]
    write(path, ''.join(lines))
    new = one(ctx, path, lines, fields, Replacer(dict(fields)))
    if new is None or new==lines:
        return
    # again, it should make no difference
    new_text = read(path)
    one(ctx, path, new, fields, Replacer(dict(fields)))
    ctx.same(read(path), new_text, 'doing it again')


# --------------------------------------------------------------
# Lines which are nearly something else

ODD = {
        'C': 'class Alpha(Layer):\r\n',
        'i': '    class Beta:\n',
        '#': '# class Beta\n',
        'y': 'classy = "Beta"\n',
        's': 'x = 1 ### {{{ Named_1\n',
        'z': 'x = 1 ### }}}\n',
        '2': '    ## {{{ Named_1\n',
        '4': '    #### }}}\n',
        'w': '    text = 1 \t\x0c \r\n',
        'r': 'y\r',
        '8': 'é\u2028\x85\n',
        'U': '    ### {{{\r\n',
        'u': '    ### {{{\n',
        'N': '### {{{Named_1 (generated)\n',
        'x': '    ### }}}\n',
        'X': '### }}} end\r\n',
        'l': 'no newline at the end',
        }


def odd_cases(tier):
    for n in range(0, 4 if tier=='quick' else 5):
        for s in itertools.product(ODD, repeat=n):
            if 'l' in s[:-1]:
                continue
            for f in (2, 3, 5):
                yield [''.join(s), f]
    # with the block complete
    odd = [c for c in ODD if c not in 'uUxXNl']
    for a, b, c in itertools.product(odd, repeat=3):
        for s in (f'{a}u{b}x{c}', f'C{a}U{b}X{c}', f'{a}N{b}x{c}l', f'C{a}{b}ux{c}l', f'{a}{b}N{c}X'):
            yield [s, 2]


def odd_run(ctx, case):
    s, f = case
    fields = FIELDS[f]
    d = ctx.path('rep')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'a.py')
    text = ''.join(ODD[c] for c in s)
    write(path, text)
    lines = split(text)
    new = one(ctx, path, lines, fields, Replacer(dict(fields)))
    ctx.state(s, f, new)


# --------------------------------------------------------------

def neighbour_cases(tier):
    for f in range(1, len(FIELDS)):
        for name in ('a.py.1', 'a.py~', 'a.py.tmp', 'a.py.bak', '.a.py.swp', 'a.1', 'a.tmp', 'a', 'tmp', 'a.py.orig', 'a.pyc', 'b.py'):
            yield [f, name]


def neighbour_run(ctx, case):
    """Another file in the same directory isn't anything to do with it."""
    f, name = case
    d = ctx.path('neighbours')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    write(os.path.join(d, name), 'keep me')
    path = os.path.join(d, 'a.py')
    lines = [LINES[c] for c in 'tcuxknx']
    write(path, ''.join(lines))
    quietly(Replacer(dict(FIELDS[f])).handle, path)
    ctx.step()
    ctx.state(case)
    ctx.same(sorted(os.listdir(d)), sorted(['a.py', name]), 'files')
    ctx.same(read(os.path.join(d, name)), 'keep me', name)
    ctx.same(loosely(split(read(path))), loosely(reference(lines, FIELDS[f])[0]), 'a.py')


# --------------------------------------------------------------

def history_cases(tier):
    for h in sequences(range(1, len(FIELDS)), 3 if tier=='quick' else 5):
        for s in ('cuxknx', 'cuttxkuetxnx', 'tcnxux', 'nxnxcux'):
            yield [h, s]


def history_run(ctx, case):
    """The last value of each block wins, whatever it was before."""
    h, s = case
    d = ctx.path('rep')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'a.py')
    original = [LINES[c] for c in s]
    lines = original
    write(path, ''.join(lines))
    so_far = {}
    for f in h:
        replacer = Replacer()
        for k, x in FIELDS[f].items():
            replacer.add(k, x)
        so_far.update(FIELDS[f])
        lines = one(ctx, path, lines, FIELDS[f], replacer)
        ctx.same(loosely(lines), loosely(reference(original, so_far)[0]), 'after', FIELDS[f])


# --------------------------------------------------------------

FILES = ['', 't', 'cux', 'cutx', 'kux', 'nx', 'ntxt', 'cuxkux', 'tcetuttxnx']
PLACES = ['sangfroid/a.py', 'sangfroid/layer/a.py', 'sangfroid/x/y/z.py']
OUTSIDE = ['other.py', 'test/a.py', 'sangfroid/notes.txt', 'sangfroid/layer/a.py.orig']


def tree_cases(tier):
    for i, j in itertools.product(range(len(FILES)), repeat=2):
        for f in range(len(FIELDS)):
            yield [[i, j, (i+j)%len(FILES)], f]


def tree_run(ctx, case):
    which, f = case
    fields = FIELDS[f]
    d = ctx.path('tree')
    shutil.rmtree(d, ignore_errors=True)
    content = {}
    for place, i in zip(PLACES, which):
        content[place] = [LINES[c] for c in FILES[i]]
    for place in OUTSIDE:
        content[place] = [LINES[c] for c in 'cuxnx']
    for place, lines in content.items():
        p = os.path.join(d, place)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        write(p, ''.join(lines))
    replacer = Replacer(dict(fields))
    os.chdir(d)
    try:
        quietly(replacer.handle_all_files)
        said = quietly(replacer.check_everything_was_seen)
    finally:
        os.chdir(ctx.tmp)
    ctx.step()
    found = set()
    for root, _, names in os.walk(d):
        for n in names:
            found.add(os.path.relpath(os.path.join(root, n), d))
    ctx.same(found, set(content), 'files')
    blocks = set()
    for place, lines in content.items():
        now = split(read(os.path.join(d, place)))
        if place in OUTSIDE:
            ctx.same(now, lines, place)
        else:
            wanted, seen = reference(lines, fields)
            ctx.same(loosely(now), loosely(wanted), place)
            if fields:
                blocks |= set(seen)
    # what wasn't there is reported
    for name in fields:
        ctx.same(any(line.startswith(name+':') for line in said.splitlines()),
                 name not in blocks, f'whether {name} was reported as missing')
    ctx.state(case)


# --------------------------------------------------------------

class Interrupted(BaseException):
    pass


def interrupted_cases(tier):
    for s in ('cuxknx', 'cuttxkuetxnx', 'tcnxux'):
        for f in range(1, len(FIELDS)):
            yield [s, f]


def interrupted_run(ctx, case):
    """Stops it before each line it executes, in turn."""
    s, f = case
    d = ctx.path('interrupted')
    text = ''.join(LINES[c] for c in s)
    finished = False
    n = 0
    contents = set()
    while not finished:
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        path = os.path.join(d, 'a.py')
        write(path, text)
        replacer = Replacer(dict(FIELDS[f]))
        count = 0

        def trace(frame, event, arg):
            nonlocal count
            if event=='line':
                count += 1
                if count>n:
                    raise Interrupted()
            return trace

        with contextlib.redirect_stdout(io.StringIO()):
            sys.settrace(trace)
            try:
                replacer.handle(path)
                finished = True
            except Interrupted:
                pass
            finally:
                sys.settrace(None)
        ctx.step()
        contents.add(read(path))
        n += 1
    after = read(path)
    ctx.same(sorted(contents), sorted({text, after}), 'what was in the file at each point')
    ctx.state(case)


# --------------------------------------------------------------

NAMES = ['A', 'a', 'Alpha', 'alpha', 'AlphaBeta', 'Alph', 'Alpha_', '_Alpha', '_', '__', '0', '9A', 'A1', 'A10', 'A_1_b', 'class', 'Named_1',
         'XORPattern', 'x'*40, 'x'*41, 'None', 'True']


def name_cases(tier):
    for a, b in itertools.product(range(len(NAMES)), repeat=2):
        for style in range(4):
            yield [a, b, style]


def name_run(ctx, case):
    """Two blocks whose names are somewhat alike, and text for one of them."""
    a, b, style = case
    a, b = NAMES[a], NAMES[b]
    block = {
            0: lambda n: f'### {{{{{{ {n}\n    old {n}\n### }}}}}}\n',
            1: lambda n: f'    ### {{{{{{   {n}   \n    old {n}\n    ### }}}}}}\n',
            2: lambda n: f'class {n}(Layer):\n    x = 1\n    ### {{{{{{\n    old {n}\n    ### }}}}}}\n',
            3: lambda n: f'class {n}:\n  ### {{{{{{ {n}\n  ### }}}}}}\n',
            }[style]
    if style==2 and not all(re.match('[A-Za-z0-9_]+$', n) for n in (a, b)):
        return
    text = f'# first\n{block(a)}# between\n{block(b)}# last\n{block(a)}'
    d = ctx.path('rep')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'a.py')
    write(path, text)
    lines = split(text)
    fields = {a: f'new = "{a}"'}
    new = one(ctx, path, lines, fields, Replacer(dict(fields)))
    ctx.check(new is not None, 'not judged')
    one(ctx, path, new, {b: 'newer\n'}, Replacer({b: 'newer\n'}))


# --------------------------------------------------------------

def size_cases(tier):
    for n in [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 200, 1000]:
        for what in ('blocks', 'text', 'old', 'before', 'after', 'indent', 'wide', 'fields', 'same'):
            yield [what, n]
    if tier!='quick':
        for n in range(1, 300):
            for what in ('blocks', 'text', 'old', 'before', 'after', 'indent', 'wide', 'fields', 'same'):
                yield [what, n]


def size_run(ctx, case):
    """Long files, many blocks, and much text."""
    what, n = case
    start, stop = '### {{{ B%s\n', '### }}}\n'
    fields = {'B1': 'new\ntext'}
    if what=='blocks':
        text = ''.join(f'# {i}\n{start%i}old\n{stop}' for i in range(n))
        fields = {f'B{i}': f'new {i}' for i in range(0, n, 2)}
    elif what=='text':
        text = 'a\n'+start%1+'old\n'+stop+'b\n'
        fields = {'B1': '\n'.join(f'x{i} = {i}' for i in range(n))}
    elif what=='old':
        text = 'a\n'+start%1+'old\n'*n+stop+'b\n'
    elif what=='before':
        text = ''.join(f'x{i}\n' for i in range(n))+start%1+'old\n'+stop+'b\n'
    elif what=='after':
        text = 'a\n'+start%1+'old\n'+stop+''.join(f'x{i}\n' for i in range(n))
    elif what=='indent':
        text = 'a\n'+' '*n+start%1+'old\n'+' '*n+stop+'b\n'
    elif what=='wide':
        text = 'a'*n*100+'\n'+start%1+'old\n'+stop+'b'*n*100+'\n'
        fields = {'B1': 'c'*n*100}
    elif what=='fields':
        text = 'a\n'+start%1+'old\n'+stop+'b\n'
        fields = {f'B{i}': f'new {i}' for i in range(n)}
    else:
        # the same block, again and again
        text = ('a\n'+start%1+'old\n'+stop)*n
    d = ctx.path('rep')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'a.py')
    write(path, text)
    new = one(ctx, path, split(text), fields, Replacer(dict(fields)))
    ctx.check(new is not None, 'not judged')
    again = read(path)
    one(ctx, path, new, fields, Replacer(dict(fields)))
    ctx.same(read(path), again, 'doing it again')


# --------------------------------------------------------------

SEQUELS = ['', 't', 'c', 'cux', 'cuxk', 'ux', 'x', 'u', 'tux', 'nx', 'n', 'nxux', 'kux', 'cn', 'cntx', 'cuxux']


def sequel_cases(tier):
    for s in sequences(range(len(SEQUELS)), 3 if tier=='thorough' else 2, shortest=2):
        for f in (2, 3, 5):
            yield [s, f]


def sequel_run(ctx, case):
    """What was in one file makes no difference to the next, even after one which is malformed."""
    s, f = case
    fields = FIELDS[f]
    replacer = Replacer(dict(fields))
    for i, which in enumerate(s):
        d = ctx.path(f'sequel{i}')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'a.py')
        lines = [LINES[c] for c in SEQUELS[which]]
        write(path, ''.join(lines))
        one(ctx, path, lines, fields, replacer)
    ctx.state(case)


# --------------------------------------------------------------
# Files which aren't UTF-8

BYTES = ['\xe9', '\xff', '\xc3(', '\xe2\x82', '\xf0\x9f\x98', '\xc0\xaf', '\xed\xa0\x80'] # as if it were Latin-1


def byte_cases(tier):
    for b in range(len(BYTES)):
        for place in range(7):
            for f in (2, 3, 5):
                yield [b, place, f]


def byte_run(ctx, case):
    """Such a file may be refused; if it isn't, then whatever isn't to be replaced is kept."""
    b, place, f = case
    fields = FIELDS[f]
    lines = ['before = 1\n', LINES['c'], LINES['u'], '    old = 1\n', LINES['x'], 'after = 1\n', 'last = 1\n']
    lines[place] = lines[place].rstrip('\n')+' # '+BYTES[b]+'\n'
    if place==2:
        lines[place] = LINES['u']
        lines.insert(2, '# '+BYTES[b]+'\n')
    d = ctx.path('rep')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'a.py')
    with open(path, 'wb') as g:
        g.write(''.join(lines).encode('latin-1'))
    try:
        quietly(Replacer(dict(fields)).handle, path)
        refused = False
    except ValueError:
        refused = True
    ctx.step()
    with open(path, 'rb') as g:
        after = g.read().decode('latin-1')
    ctx.same(os.listdir(d), ['a.py'], 'files in the directory')
    if refused:
        ctx.same(after, ''.join(lines), 'a file which was refused')
    else:
        ctx.same(loosely(split(after)), loosely(reference(lines, fields)[0]), 'the file')
    ctx.state(case)


UNITS = [
        Unit('bytes', byte_cases, byte_run),
        Unit('names', name_cases, name_run),
        Unit('sizes', size_cases, size_run),
        Unit('sequels', sequel_cases, sequel_run),
        Unit('interrupted', interrupted_cases, interrupted_run),
        Unit('neighbours', neighbour_cases, neighbour_run),
        Unit('odd lines', odd_cases, odd_run),
        Unit('trees', tree_cases, tree_run),
        Unit('histories', history_cases, history_run),
        Unit('files', file_cases, file_run),
        ]
