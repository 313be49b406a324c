"""
C02: which file a save goes to, and in which format.
"""
import os
import shutil
import tempfile

import sangfroid
from mc import sif
from mc.core import Unit, sequences, periodic, walks

BOUNDS = {
        'quick': 'all histories of <=3 of 16 operations from 6 starting points, '
            'each followed by edit, save, edit, save; names with every extension of up to 4 of 11 characters, and pairs of 26 odd names; 23 names which are not the names of files; 44 names of other files beside it; all histories of <=3 of 14 operations on two animations at once; links between filesystems; '
            'also periodic histories of 7 operations with a period of <=2, and histories of 20 in which each operation follows each',
        'thorough': 'all histories of <=4 operations; extensions of up to 5 characters',
        }
ASSUMPTIONS = ['one process; the filesystem works']

# what's in the directory at the start: name -> kind
START = {
        'a.sif': 'sif',
        'b.sifz': 'sifz',
        'm.sif': 'sifz',    # misnamed
        'n.sifz': 'sif',    # misnamed
        'odd.xml': 'sif',
        }

GOOD = {
        'as:a.sif': ('a.sif', 'sif'),
        'as:b.sifz': ('b.sifz', 'sifz'),
        'as:new.sif': ('new.sif', 'sif'),
        'as:new.sifz': ('new.sifz', 'sifz'),
        'as:UP.SIF': ('UP.SIF', 'sif'),
        'as:Up.SifZ': ('Up.SifZ', 'sifz'),
        'as:sub/two.dots.sif': ('sub/two.dots.sif', 'sif'),
        'as:m.sif': ('m.sif', 'sif'),
        }
BAD = ['as:x.sfg', 'as:noext', 'as:x.txt', 'as:missing/x.sif', 'as:dir.sif']
OPS = ['edit', 'save', 'reopen'] + sorted(GOOD) + BAD

STARTS = ['blank', 'a.sif', 'b.sifz', 'm.sif', 'n.sifz', 'odd.xml']


def cases(tier):
    for s in sequences(OPS, 3 if tier=='quick' else 4, shortest=0):
        for start in STARTS:
            yield [start, s]
    for s in periodic(OPS, 7):
        for start in ('blank', 'a.sif', 'm.sif'):
            yield [start, s]
    for s in walks(OPS, 20):
        for start in STARTS:
            yield [start, s]


TINY = (sif.HEADER+'<canvas fps="24" begin-time="0f" end-time="5s">'
        '<name>%s</name></canvas>')


def listing(d):
    result = set()
    for root, dirs, files in os.walk(d):
        for f in files:
            result.add(os.path.relpath(os.path.join(root, f), d))
    return result


_seen = {}

def contents(d):
    """{name: (kind, version)} of everything on disk."""
    result = {}
    for name in listing(d):
        with open(os.path.join(d, name), 'rb') as f:
            data = f.read()
        if data not in _seen:
            xml, kind = sif.payload(os.path.join(d, name))
            if len(_seen)>5000:
                _seen.clear()
            _seen[data] = (kind, sif.parse(xml).find('name').text)
        result[name] = _seen[data]
    return result


_initial = {}

def initial(kind, name):
    if (kind, name) not in _initial:
        import gzip
        data = (TINY % (name,)).encode('utf-8')
        _initial[kind, name] = gzip.compress(data) if kind=='sifz' else data
    return _initial[kind, name]


def run(ctx, case):
    start, ops = case
    d = ctx.path('dir')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'sub'))
    os.mkdir(os.path.join(d, 'dir.sif'))
    files = {}
    for name, kind in START.items():
        with open(os.path.join(d, name), 'wb') as f:
            f.write(initial(kind, 'v-'+name))
        files[name] = (kind, 'v-'+name)

    if start=='blank':
        animation = sangfroid.Animation()
        association = None
        version = 'New animation'
    else:
        animation = sangfroid.Animation(os.path.join(d, start))
        association = (start, START[start])
        version = files[start][1]

    counter = 0

    for op in ops+['edit', 'save', 'edit', 'save']:
        ctx.note(op)
        if op=='edit':
            counter += 1
            version = f'edit{counter}'
            animation.name = version
        elif op=='reopen':
            if association is None:
                continue
            animation = sangfroid.Animation(os.path.join(d, association[0]))
            version = files[association[0]][1]
            association = (association[0], files[association[0]][0])
        else:
            if op=='save':
                target = association
                args = ()
            else:
                target = GOOD.get(op)
                args = (os.path.join(d, op[3:]),)
            try:
                animation.save(*args)
                worked = True
            except Exception as e:
                worked = False
                ctx.note('->', type(e).__name__, e)

            if target is None:
                ctx.check(not worked, op, 'should have been refused')
            else:
                ctx.check(worked, op, 'should have worked')
                files[target[0]] = (target[1], version)
                association = target

        ctx.step()
        ctx.same(animation.name, version, f'name in memory after {op}')
        ctx.same(contents(d), files, f'files on disk after {op}')
        ctx.state(sorted(files.items()), association, version)


# --------------------------------------------------------------

def where_cases(tier):
    for kind in ('sif', 'sifz'):
        for exists in (True, False):
            for how in ('plain', 'relative', 'symlink', 'dotdot'):
                for mode in (0o644, 0o600, 0o664):
                    for route in ('save', 'save-as', 'save-as-after-open'):
                        yield [kind, exists, how, mode, route]


def where_run(ctx, case):
    """Different ways to spell the name of the file."""
    kind, exists, how, mode, route = case
    d = ctx.path('dir')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'sub'))
    real = os.path.join(d, 'real.'+kind)
    if exists:
        with open(real, 'wb') as f:
            f.write(initial(kind, 'old'))
        os.chmod(real, mode)
    elif how=='symlink' or route!='save-as':
        return
    name = real
    os.chdir(d)
    try:
        if how=='relative':
            name = 'real.'+kind
        elif how=='dotdot':
            name = os.path.join(d, 'sub', '..', 'real.'+kind)
        elif how=='symlink':
            name = os.path.join(d, 'sub', 'link.'+kind)
            os.symlink(real, name)

        if route=='save':
            animation = sangfroid.Animation(name)
            animation.name = 'new'
            animation.save()
        elif route=='save-as':
            animation = sangfroid.Animation()
            animation.name = 'new'
            animation.save(name)
        else:
            animation = sangfroid.Animation(name)
            animation.name = 'new'
            animation.save(name)
        ctx.step()
        first = sif.payload(real)
        ctx.same((first[1], sif.parse(first[0]).find('name').text), (kind, 'new'), 'saved')
        if exists:
            ctx.same(os.stat(real).st_mode&0o777, mode, 'mode of file')
        if how=='symlink':
            ctx.check(os.path.islink(name), 'the symlink was replaced')
        animation.name = 'newer'
        animation.save()
        ctx.step()
        second = sif.payload(real)
        ctx.same((second[1], sif.parse(second[0]).find('name').text), (kind, 'newer'), 'saved again')
        ctx.state(case)
    finally:
        os.chdir(ctx.tmp)


# --------------------------------------------------------------

def name_cases(tier):
    most = 4 if tier=='quick' else 5
    for ext in sequences('sifzSIZ~.x ', most, shortest=0):
        yield ''.join(ext)
    for ext in ('sif.gz', 'sifz.sif', 'sif.sifz', 'sif.bak', 'sif~', 'sifz~', 'sif.', 'sifzz', 'sfg', 'SFG', 'svg', 'xml',
                'sif\n', 'sif ', 's\u0131f', 'sif0', 'sif,v', '1.sif', 'a b.sifz', 'é.sif', '\u0130.sif'):
        yield ext


def name_run(ctx, case):
    """Only .sif and .sifz are known."""
    d = ctx.path('names')
    if not os.path.isdir(d):
        os.mkdir(d)
    name = os.path.join(d, 'f.'+case)
    last = case.split('.')[-1]
    # what Python thinks an extension is: 'f..sif' has one
    last = last if case.strip('.') or not case else ''
    wanted = {'sif': 'sif', 'sifz': 'sifz'}.get(''.join(c.lower() if c.isascii() else c for c in last))
    animation = sangfroid.Animation()
    try:
        animation.save(name)
        worked = True
    except Exception as e:
        worked = False
    ctx.step()
    ctx.same(worked, wanted is not None, f'saving as {name!r}')
    ctx.same(sorted(os.listdir(d)), [os.path.basename(name)] if worked else [], 'files')
    ctx.state(case)
    if worked:
        ctx.same(sif.payload(name)[1], wanted, 'format of '+name)
        os.unlink(name)
    else:
        try:
            animation.save()
            ctx.check(False, 'it now has a name')
        except ValueError:
            pass


# --------------------------------------------------------------

BARE = {
        'sif': None, 'sifz': None, 'SIF': None, 'xsif': None, 'sif~': None, 'f': None,
        'sub.sif/f': None, 'sub.sif/sif': None, 'sub.sif/f.x': None, './sif': None, 'sub.sif/../f': None,
        'sub.x/f.sif': 'sif', 'sub.sif/f.sifz': 'sifz', 'sub.x/../f.sif': 'sif', './f.sifz': 'sifz', 'a.b.sif': 'sif',
        'sif.sifz': 'sifz', 'sifz.sif': 'sif', '-.sif': 'sif', ' .sif': 'sif', '$HOME.sif': 'sif', '~.sif': 'sif', '%s.sif': 'sif',
        '*.sif': 'sif', '#.sifz': 'sifz', 'x'*200+'.sif': 'sif',
        }


def bare_cases(tier):
    for first in sorted(BARE):
        yield [first]
        for second in sorted(BARE):
            yield [first, second]


def bare_run(ctx, case):
    """Names in the current directory, and in directories with odd names."""
    d = ctx.path('bare')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'sub.sif'))
    os.makedirs(os.path.join(d, 'sub.x'))
    files = {}
    belongs = None
    os.chdir(d)
    try:
        animation = sangfroid.Animation()
        for i, name in enumerate(case):
            animation.name = str(i)
            try:
                animation.save(name)
                worked = True
            except Exception:
                worked = False
            ctx.step()
            ctx.same(worked, BARE[name] is not None, f'saving as {name!r}')
            if worked:
                belongs = os.path.normpath(name)
                files[belongs] = (BARE[name], str(i))
            ctx.same(contents('.'), files, f'files after saving as {name!r}')
        ctx.state(case)
        if belongs is not None:
            animation.name = 'last'
            animation.save()
            files[belongs] = (files[belongs][0], 'last')
            ctx.same(contents('.'), files, 'files after saving again')
    finally:
        os.chdir(ctx.tmp)


# --------------------------------------------------------------

PAIR_OPS = [[who, what] for who in (0, 1) for what in ('save', 'a.sif', 'b.sifz', 'c.sif', 'd.sifz', 'bad.x', 'reopen')]


def pair_cases(tier):
    for starts in (['a.sif', 'b.sifz'], ['a.sif', 'a.sif'], ['a.sif', None], [None, None], ['b.sifz', 'e.sifz'], ['a.sif', 'f.sif']):
        for s in sequences(PAIR_OPS, 3 if tier=='quick' else 4):
            yield [starts, s]


def pair_run(ctx, case):
    """Two animations open at once, each with a file of its own."""
    starts, ops = case
    d = ctx.path('pair')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    files = {}
    for name in ('a.sif', 'b.sifz', 'e.sifz', 'f.sif'):
        kind = name.split('.')[1]
        with open(os.path.join(d, name), 'wb') as f:
            f.write(initial(kind, 'v-'+name))
        files[name] = (kind, 'v-'+name)
    animations = [sangfroid.Animation(None if s is None else os.path.join(d, s)) for s in starts]
    belongs = list(starts)
    names = ['New animation' if s is None else 'v-'+s for s in starts]
    for i, (who, what) in enumerate(ops+[[0, 'save'], [1, 'save'], [0, 'save']]):
        ctx.note(who, what)
        ctx.step()
        if what=='reopen':
            if belongs[who] is not None:
                animations[who] = sangfroid.Animation(os.path.join(d, belongs[who]))
                names[who] = files[belongs[who]][1]
        else:
            names[who] = f'{who}-{i}'
            animations[who].name = names[who]
            target = belongs[who] if what=='save' else None if what=='bad.x' else what
            try:
                animations[who].save(*([] if what=='save' else [os.path.join(d, what)]))
                worked = True
            except Exception:
                worked = False
            ctx.same(worked, target is not None, f'{who} {what}')
            if worked:
                belongs[who] = target
                files[target] = (target.split('.')[1], names[who])
        for a, name in zip(animations, names):
            ctx.same(a.name, name, 'name in memory')
        ctx.same(contents(d), files, f'files after {who} {what}')
        ctx.state(files, belongs, names)


# --------------------------------------------------------------

def neighbours(stem, ext):
    f = f'{stem}.{ext}'
    return [f+'~', f+'.tmp', f+'.bak', f+'.new', f+'.old', f+'.part', f+'.1', f+'.lock', f+'.swp', '.'+f, '.'+f+'.tmp', '.'+f+'.swp',
            '#'+f+'#', '~'+f, '~$'+f, stem, stem+'.tmp', stem+'.bak', stem+'~', stem+'.'+{'sif': 'sifz', 'sifz': 'sif'}[ext], stem+'.sfg', stem+'.srt',
            f+'.'+ext, stem+'.bak.'+ext, stem+'-1.'+ext, stem+' (1).'+ext, 'tmp', 'temp', '.tmp', 'tmp.'+ext, 'sangfroid.tmp', '.sangfroid.tmp', '.sangfroid-tmp',
            f+'.gz', f+'.xml', f+'.orig', f+'.save', f+'.temp', f+'.backup', f+'_', f+'.0', 'backup.'+ext, f.upper(), stem+'.'+ext.upper()]


def neighbour_cases(tier):
    for kind in ('sif', 'sifz'):
        for how in ('save', 'save-as', 'save-as new', 'bad', 'missing', 'unwritable'):
            yield [kind, how, 'all']
            for i in range(len(neighbours('film', kind))):
                yield [kind, how, i]


def neighbour_run(ctx, case):
    """Files which might be taken for backups or temporary files."""
    kind, how, which = case
    d = ctx.path('neighbours')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    names = neighbours('film', kind)
    if which!='all':
        names = [names[which]]
    name = 'film.'+kind
    def fill(names):
        for n in names:
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b'precious '+n.encode())
    def look():
        result = {}
        for n in os.listdir(d):
            with open(os.path.join(d, n), 'rb') as f:
                result[n] = f.read()
        return result
    fill(names)
    path = os.path.join(d, name)
    if how!='save-as new':
        with open(path, 'wb') as f:
            f.write(initial(kind, 'old'))
    wanted = {n: b'precious '+n.encode() for n in names}
    if how=='save-as new':
        animation = sangfroid.Animation()
        steps = [path, None, path]
    elif how=='save':
        animation = sangfroid.Animation(path)
        steps = [None, None]
    elif how=='save-as':
        animation = sangfroid.Animation()
        steps = [path, path, None]
    else:
        animation = sangfroid.Animation(path)
        steps = [{'bad': path+'.wombat', 'missing': os.path.join(d, 'no', name), 'unwritable': d}[how], None]
    for i, target in enumerate(steps):
        animation.name = f'new {i}'
        try:
            animation.save(*([] if target is None else [target]))
            worked = True
        except Exception:
            worked = False
        ctx.step()
        ctx.same(worked, target in (None, path), f'{how}: step {i}')
        found = look()
        document = found.pop(name)
        ctx.same(found, wanted, f'{how}: step {i}: the other files')
        if worked:
            payload = sif.payload(path)
            ctx.same((payload[1], sif.parse(payload[0]).find('name').text), (kind, f'new {i}'), 'what was saved')
        else:
            ctx.same(document, initial(kind, 'old'), 'the file which was there')
    ctx.state(case)


# --------------------------------------------------------------

def device_cases(tier):
    for kind in ('sif', 'sifz'):
        for link in ('far', 'near'):
            for shape in ('file', 'directory', 'twice', 'plain'):
                for ops in ([None], ['same', None], ['other', None, 'same'], [None, 'other', 'other']):
                    yield [kind, link, shape, ops]


def device_run(ctx, case):
    """Saving through a link to a file on another filesystem (where there is one)."""
    kind, link, shape, ops = case
    near = ctx.path('near')
    shutil.rmtree(near, ignore_errors=True)
    os.mkdir(near)
    try:
        far = tempfile.mkdtemp(prefix='mc-', dir='/dev/shm')
    except OSError:
        far = tempfile.mkdtemp(prefix='mc-')
    try:
        here, there = (near, far) if link=='far' else (far, near)
        name, target = 'film.'+kind, os.path.join(there, 'real.'+kind)
        with open(target, 'wb') as f:
            f.write(initial(kind, 'old'))
        path = os.path.join(here, name)
        other = os.path.join(here, 'other.'+kind)
        if shape=='file':
            os.symlink(target, path)
        elif shape=='twice':
            os.symlink(target, os.path.join(there, 'middle.'+kind))
            os.symlink(os.path.join(there, 'middle.'+kind), path)
        elif shape=='directory':
            os.symlink(there, os.path.join(here, 'dir'))
            path = os.path.join(here, 'dir', 'real.'+kind)
            other = os.path.join(here, 'dir', 'other.'+kind)
        else:
            path = target
        links = {p: os.readlink(p) for d in (here, there) for p in [os.path.join(d, n) for n in os.listdir(d)] if os.path.islink(p)}
        animation = sangfroid.Animation(path)
        expected = {os.path.realpath(path): 'old'}
        current = os.path.realpath(path)
        for i, op in enumerate(ops):
            animation.name = f'{i}'
            if op is None:
                animation.save()
            else:
                current = os.path.realpath(path if op=='same' else other)
                animation.save(path if op=='same' else other)
            expected[current] = f'{i}'
            ctx.step()
            found = {}
            for d in (here, there):
                for n in os.listdir(d):
                    p = os.path.join(d, n)
                    if os.path.islink(p):
                        ctx.same(os.readlink(p), links.get(p), f'link {n}')
                    else:
                        payload = sif.payload(p)
                        ctx.same(payload[1], kind, 'format')
                        found[p] = sif.parse(payload[0]).find('name').text
            ctx.same(found, {os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p)): v for p, v in expected.items()}, f'{case}, after step {i}')
        ctx.same(sorted(p for p in links if os.path.islink(p)), sorted(links), 'links')
        ctx.state(case)
    finally:
        shutil.rmtree(far)


NAMELESS = ['', ' ', '.', '..', './', '/', '//', 'dir/', '.sif', '.sifz', 'x.', 'sif', 'x.sif/', 'x.sif/.', 'new.sif\0', '\0.sif', 'new.sif ', 'new.sif\n', 'new.sif.',
            'new..', 'new.sif;1', 'new.sif~', 'new.sifz.gz']


def nameless_cases(tier):
    for start in ('blank', 'a.sif', 'b.sifz'):
        for arg in [None, *NAMELESS]:
            for called in ('x', 'new.sif', 'a.sif', '', 'new.sifz'):
                yield [start, arg, called]


def nameless_run(ctx, case):
    """Names which aren't the names of files, whatever the animation itself may be called."""
    start, arg, called = case
    d = ctx.path('dir')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'dir'))
    before = {}
    for name in ('a.sif', 'b.sifz'):
        sif.write(os.path.join(d, name), TINY % ('v-'+name,))
    def everything():
        return {n: open(os.path.join(d, n), 'rb').read() for n in listing(d)}
    before = everything()
    here = os.getcwd()
    os.chdir(d)
    try:
        animation = sangfroid.Animation(start if start!='blank' else None)
        animation.name = called
        animation.desc = called
        if arg is not None:
            try:
                animation.save(arg)
            except Exception:
                pass
            else:
                ctx.check(False, 'saving as', repr(arg), 'should have been refused')
            ctx.step()
            ctx.check(everything()==before, 'saving as', repr(arg), 'was refused, but changed the files: ', sorted(listing(d)))
        try:
            animation.save()
            worked = True
        except Exception:
            worked = False
        ctx.step()
        ctx.same(worked, start!='blank', 'whether saving without a name works')
        after = everything()
        ctx.same(sorted(after), sorted(before), 'the files there are')
        for name in after:
            ctx.check((after[name]==before[name])==(name!=start), name, 'after saving without a name')
        if worked:
            xml, kind = sif.payload(start)
            ctx.same(kind, START[start], 'the kind of file')
            ctx.same(sif.parse(xml).find('name').text or '', called, 'the name')
        ctx.state(start, arg, called)
    finally:
        os.chdir(here)


UNITS = [
        Unit('nameless', nameless_cases, nameless_run),
        Unit('devices', device_cases, device_run),
        Unit('neighbours', neighbour_cases, neighbour_run),
        Unit('bare', bare_cases, bare_run),
        Unit('pairs', pair_cases, pair_run),
        Unit('names', name_cases, name_run),
        Unit('spelling', where_cases, where_run),
        Unit('histories', cases, run),
        ]
