"""
C19: bywords changes the words it's told about, in place, and nothing else.
"""
import contextlib
import gzip
import itertools
import os
import shutil
import sys

import sangfroid
from bywords.__main__ import main
from mc import sif, speech
from mc.core import Unit, sequences, REPO
from mc.props.c18 import scene, SAID, STYLES, in_file, make_text
from mc.speech import Text, Group

BOUNDS = {
        'quick': 'all sequences of <=2 of 8 subtitles on a document with 5 groups, run as the command, for words and letters, '
            'then run again, in the same and in the other mode; both formats, every way to name the files '
            'and every option; 22 things which can go wrong; names which are links (7 kinds), with 15 neighbours each; the fixture; documents of up to 60 groups, one of them said',
        'thorough': 'all sequences of <=3 subtitles; all histories of <=3 runs',
        }
ASSUMPTIONS = []


@contextlib.contextmanager
def quiet():
    """-v makes it print a lot."""
    sys.stdout.flush()
    saved = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 1)
        os.dup2(null, 2)
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        for fd in (null, *saved):
            os.close(fd)


def command(*args):
    """Returns whether it worked."""
    old = sys.argv
    sys.argv = ['bywords', *args]
    try:
        with quiet():
            try:
                main()
                return True
            except SystemExit as e:
                return not e.code
            except Exception:
                return False
    finally:
        sys.argv = old


def files(d):
    result = {}
    for root, _, names in os.walk(d):
        for n in names:
            path = os.path.join(root, n)
            with open(path, 'rb') as f:
                result[os.path.relpath(path, d)] = f.read()
    return result


def hollow(root, ids):
    """The document, except for the text of the given layers."""
    for e in root.iter('layer'):
        if e.get('group') in ids:
            for p in e.findall('param'):
                if p.get('name')=='text':
                    p[:] = []
                    p.text = None
    return sif.canon_element(root)


EXTRA = ('<!-- comment -->\n<layer type="circle" group="extra"><param name="color"><color><r>1</r><g>0</g><b>0</b><a>1</a></color></param>'
         '<param name="text"><string>hello</string></param></layer>\n'
         '<layer type="text" group="loose" desc="hello"><param name="text"><string>hello</string></param></layer>\n')


def document(fps='24'):
    return speech.document(scene()+[EXTRA], fps)


def model(lines, letters, previously=None):
    """What text should be where, given what it was before."""
    wanted = dict(previously or {})
    wanted.update(speech.adjusted(scene(), lines, '24', letters))
    return wanted


def compare(ctx, path, kind, wanted, original, what):
    data, found_kind = sif.payload(path)
    ctx.same(found_kind, kind, what+': kind of file')
    root, found = in_file(path, '24')
    for id, f in found.items():
        if id in wanted:
            ctx.check(isinstance(f, list) and speech.alike(f, wanted[id]),
                      f'{what}: {id}:\n  found: {f}\n wanted: {wanted[id]}')
    before = hollow(sif.parse(original), wanted)
    after = hollow(root, wanted)
    ctx.check(before==after, what, ': something else changed:\n', sif.diff(before, after))


def lines_of(said):
    return [(1000+3000*i, 1700, SAID[j]) for i, j in enumerate(said)]


def run_cases(tier):
    for said in sequences(range(len(SAID)), 2 if tier=='quick' else 3, shortest=0):
        for modes in ([[m, n] for m in (False, True) for n in (False, True)] if tier=='quick'
                      else [list(m) for m in itertools.product((False, True), repeat=3)]):
            yield [said, modes]


def run_run(ctx, case):
    said, modes = case
    d = ctx.path('dir')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    path = sif.write(os.path.join(d, 'f.sif'), document())
    original = document().encode('utf-8')
    lines = lines_of(said)
    with open(os.path.join(d, 'f.srt'), 'w') as f:
        f.write(speech.srt(lines))
    srt = files(d)['f.srt']
    wanted = {}
    for letters in modes:
        ctx.note('letters' if letters else 'words')
        ctx.check(command(path, *(['--letter'] if letters else [])), 'the command failed')
        ctx.step()
        now = files(d)
        ctx.same(sorted(now), ['f.sif', 'f.srt'], 'files')
        ctx.check(now['f.srt']==srt, 'the subtitles were changed')
        wanted = model(lines, letters)
        compare(ctx, path, 'sif', wanted, original, 'words')
        ctx.state(said, letters)


# --------------------------------------------------------------

# stems for the names of files
STEMS = {'dots': 'film.v1', 'sif-inside': 'my.sif.old', 'srt-inside': 'x.srt', 'spaces': 'a film ', 'hidden': '.film',
         'sifz-inside': 'b.sifz.copy', 'dashes': 'a--b-', 'upper': 'FILM'}
NAMINGS = ['default', 'explicit', 'relative', 'elsewhere']+list(STEMS)


def cli_cases(tier):
    for kind in ('sif', 'sifz'):
        for naming in NAMINGS:
            for options in ([], ['--letter'], ['-l'], ['-v'], ['-vv'], ['--verbose', '-l'], ['-lvv']):
                for where in ('before', 'after'):
                    yield [kind, naming, options, where, kind]
    # the file was really in the other format
    for kind, other in (('sif', 'sifz'), ('sifz', 'sif')):
        for naming in NAMINGS:
            for options in ([], ['-l']):
                yield [kind, naming, options, 'before', other]


def cli_run(ctx, case):
    kind, naming, options, where, was = case
    letters = any('l' in o.replace('verbose', '') for o in options)
    d = ctx.path('dir')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'sub'))
    stem = STEMS.get(naming, 'film')
    name = f'{stem}.{kind}'
    path = sif.write(os.path.join(d, name), document(), was)
    # someone else's files
    sif.write(os.path.join(d, 'other.sif'), document())
    for n in ('other.srt', 'decoy.srt'):
        with open(os.path.join(d, n), 'w') as f:
            f.write(speech.srt([(0, 100, 'hello')]))
    srt = {'explicit': 'words.srt', 'elsewhere': 'sub/x.subtitles'}.get(naming, f'{stem}.srt')
    if naming in ('explicit', 'elsewhere'):
        with open(os.path.join(d, f'{stem}.srt'), 'w') as f:
            f.write(speech.srt([(0, 100, 'hello')]))
    lines = lines_of([0, 1, 6])
    with open(os.path.join(d, srt), 'w') as f:
        f.write(speech.srt(lines))
    args = [path]
    if naming in ('explicit', 'elsewhere'):
        args.append(os.path.join(d, srt))
    os.chdir(d)
    try:
        if naming=='relative':
            args = [name]
        args = options+args if where=='before' else args+options
        before = files(d)
        ctx.check(command(*args), 'the command failed:', args)
        ctx.step()
    finally:
        os.chdir(ctx.tmp)
    after = files(d)
    ctx.same(sorted(after), sorted(before), 'files')
    for n in before:
        if n!=name:
            ctx.check(after[n]==before[n], n, 'was changed')
    compare(ctx, path, kind, model(lines, letters), document().encode('utf-8'), 'cli')
    ctx.state(case)


# --------------------------------------------------------------

WRONG = ['no-srt', 'no-sif', 'bad-sif', 'no-args', 'bad-option', 'empty-sif', 'srt-is-dir', 'sif-is-dir', 'cut-short',
         'no-text', 'bad-waypoint', 'no-fps', 'bad-fps', 'zero-fps', 'bad-name', 'three-files', 'no-type', 'two-texts', 'srt-missing-by-name',
         'empty-name', 'srt-latin', 'srt-binary']
# these are about a layer in a group which was matched
DAMAGE = {
        'no-text': ('<param name="text"><string>wombat</string></param>', ''),
        'bad-waypoint': ('<string>wombat</string>',
                         '<animated type="string"><waypoint time="x" before="constant" after="constant"><string>wombat</string></waypoint></animated>'),
        'no-type': ('<string>wombat</string>',
                    '<animated><waypoint time="0f" before="constant" after="constant"><string>wombat</string></waypoint></animated>'),
        'two-texts': ('<string>wombat</string>', '<string>wombat</string><string>wombat</string>'),
        'no-fps': (' fps="24"', ''),
        'bad-fps': (' fps="24"', ' fps="x"'),
        'zero-fps': (' fps="24"', ' fps="0"'),
        }


def wrong_cases(tier):
    yield from WRONG


def wrong_run(ctx, case):
    d = ctx.path('dir')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    path = os.path.join(d, 'f.sif')
    if case=='bad-name':
        path = os.path.join(d, 'f.txt')
    if case=='sif-is-dir':
        os.mkdir(path)
    elif case=='cut-short':
        path = os.path.join(d, 'f.sifz')
        with open(path, 'wb') as f:
            f.write(gzip.compress(document().encode())[:-20])
    elif case in DAMAGE:
        text = speech.document(scene()+[Group('w', 'bywords', Text('w.1', 'wombat'))], '24')
        old, new = DAMAGE[case]
        ctx.same(text.count(old), 1, 'damage to do')
        sif.write(path, text.replace(old, new))
    elif case=='bad-sif':
        with open(path, 'w') as f:
            f.write('this is not a .sif file')
    elif case=='empty-sif':
        open(path, 'w').close()
    elif case!='no-sif':
        sif.write(path, document())
    srt = os.path.join(d, 'f.srt')
    if case=='srt-is-dir':
        os.mkdir(srt)
    elif case=='srt-latin':
        with open(srt, 'wb') as f:
            f.write(speech.srt(lines_of([0, 1, 6])).encode()+b'\n9\n00:00:50,000 --> 00:00:51,000\ncaf\xe9\n')
    elif case=='srt-binary':
        with open(srt, 'wb') as f:
            f.write(bytes(range(256))*4)
    elif case!='no-srt':
        with open(srt, 'w') as f:
            f.write(speech.srt(lines_of([0, 1, 6])))
    before = files(d)
    args = {'no-args': [], 'bad-option': [path, '--wombat'], 'three-files': [path, srt, srt], 'srt-missing-by-name': [path, srt+'x'],
            'empty-name': ['']}.get(case, [path])
    ctx.check(not command(*args), case, 'should have failed')
    ctx.step()
    ctx.check(files(d)==before, case, 'changed something')
    ctx.state(case)


# --------------------------------------------------------------

def fixture_cases(tier):
    for history in sequences([False, True], 2 if tier=='quick' else 3):
        yield history


def fixture_run(ctx, case):
    """The example in the documentation."""
    d = ctx.path('dir')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for ext in ('sif', 'srt'):
        shutil.copy(os.path.join(REPO, 'test/bywords', f'sing-like-a-girl.{ext}'), d)
    path = os.path.join(d, 'sing-like-a-girl.sif')
    original = sif.parse(sif.payload(path)[0])
    numbered = {i for i, e in enumerate(original.iter('layer'))
                if e.get('type')=='text' and any(
                    (g.get('desc') or '').lower().startswith('bywords')
                    for g in e.iterancestors('layer'))}
    ctx.check(len(numbered)>5, 'not much in the fixture')

    def without(root):
        for i, e in enumerate(root.iter('layer')):
            if i in numbered:
                for p in e.findall('param'):
                    if p.get('name')=='text':
                        p[:] = []
                        p.text = None
        return sif.canon_element(root)

    wanted = without(original)
    texts = {}
    for letters in case:
        ctx.check(command(path, *(['--letter'] if letters else [])), 'the command failed')
        ctx.step()
        root = sif.parse(sif.payload(path)[0])
        now = tuple(sif.canon_element(p) for p in root.iter('param') if p.get('name')=='text')
        ctx.check(texts.setdefault(letters, now)==now,
                  'running it again gave something different')
        ctx.state(letters, now)
        found = without(root)
        ctx.check(found==wanted, 'something else changed:\n', sif.diff(wanted, found))


# --------------------------------------------------------------

def crowd_cases(tier):
    for n in (1, 2, 3, 5, 8, 9, 10, 11, 16, 17, 30):
        for k in sorted({0, n//2, n-1}):
            for modes in ([False], [True], [False, True], [True, False], [False]*3):
                yield [n, k, modes]


def crowd_run(ctx, case):
    """Many groups, only some of which are said; the rest stay as they were, to the letter."""
    n, k, modes = case
    groups = []
    for i in range(n):
        groups.append(Group(f'g{i}', f'bywords {i}', make_text(f'g{i}.a', f'number {i}', STYLES[i%4]),
                            Text(f'g{i}.b', f'of {n}'), '<!-- &amp; -->'))
        groups.append(Group(f'n{i}', f'words {i}', make_text(f'n{i}.a', f'number {i}', STYLES[i%4]), Text(f'n{i}.b', f'of {n}')))
    text = speech.document(groups+[EXTRA], '24')
    d = ctx.path('dir')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    path = sif.write(os.path.join(d, 'f.sif'), text)
    lines = [(1500, 900, f'Number {k}, of {n}'), (3000, 10, f'number {n}, of {n}')]
    with open(os.path.join(d, 'f.srt'), 'w') as f:
        f.write(speech.srt(lines))
    for letters in modes:
        ctx.check(command(path, *(['--letter'] if letters else [])), 'the command failed')
        ctx.step()
        ctx.same(sorted(files(d)), ['f.sif', 'f.srt'], 'files')
        wanted = speech.adjusted(groups, lines, '24', letters)
        ctx.same(len(wanted), 2, 'number of layers in the model')
        compare(ctx, path, 'sif', wanted, text.encode('utf-8'), 'crowd')
    ctx.state(case)


# --------------------------------------------------------------
# Links, and the neighbours of the file

LINKS = [('film.sif', 'real.sif'), ('film.sif', 'real.sifz'), ('film.sifz', 'real.sif'), ('film.sifz', 'sub/real.sifz'),
         ('film.sif', 'sub/film.sifz'), ('sub/film.sif', 'real.sif'), ('sub/film.sif', 'sub/real.sifz')]
NEIGHBOURS = ['{}~', '{}.bak', '{}.tmp', '{}.new', '{}.orig', '.{}', 'tmp', 'film.srt~', 'film.txt', 'film', 'real', 'real.srt', 'film.ass', 'new.sif', 'out.sif']


def link_cases(tier):
    for link, target in LINKS:
        for was in ('sif', 'sifz'):
            for modes in ([False], [True], [False, True]):
                yield [link, target, was, modes]


def link_run(ctx, case):
    link, target, was, modes = case
    d = ctx.path('dir')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'sub'))
    sif.write(os.path.join(d, target), document(), was)
    path = os.path.join(d, link)
    os.symlink(os.path.relpath(os.path.join(d, target), os.path.dirname(path)), path)
    os.chmod(os.path.join(d, target), 0o640)
    lines = lines_of([0, 1, 6])
    with open(os.path.splitext(path)[0]+'.srt', 'w') as f:
        f.write(speech.srt(lines))
    for folder in ('', 'sub/'):
        for name in (os.path.basename(target), os.path.basename(link)):
            for n in NEIGHBOURS:
                n = os.path.join(d, folder+n.format(name))
                if not os.path.lexists(n):
                    with open(n, 'w') as f:
                        f.write('precious')
    before = files(d)
    for letters in modes:
        ctx.check(command(path, *(['-l'] if letters else [])), 'the command failed')
        ctx.step()
        ctx.check(os.path.islink(path) and os.path.realpath(path)==os.path.realpath(os.path.join(d, target)), 'the link has gone')
        ctx.same(oct(os.stat(path).st_mode & 0o777), '0o640', 'permissions')
        after = files(d)
        ctx.same(sorted(after), sorted(before), 'files')
        for n in before:
            if n not in (target, link):
                ctx.check(after[n]==before[n], n, 'was changed')
        compare(ctx, path, link.split('.')[-1], model(lines, letters), document().encode('utf-8'), 'by a link')
    ctx.state(case)


UNITS = [
        Unit('links', link_cases, link_run),
        Unit('crowds', crowd_cases, crowd_run),
        Unit('fixture', fixture_cases, fixture_run),
        Unit('wrong', wrong_cases, wrong_run),
        Unit('cli', cli_cases, cli_run),
        Unit('runs', run_cases, run_run),
        ]
