"""
C03: a save which fails, or is interrupted, never costs anybody a document.

Every fault is injected into a forked process running the real save.
"""
import errno
import hashlib
import os
import pickle
import resource
import shutil
import signal
import sys

import sangfroid
from mc import sif
from mc.core import Unit, Violation

BOUNDS = {
        'quick': '10 scenarios: a kill at every line of Python executed by save(); '
            'ctrl-C at every such line; the disk filling up after every number of bytes; '
            'failure of every file operation in turn; all of these again with a document of 200,000 bytes '
            '(the disk filling up near each multiple of a buffer size), and where what was there before is an earlier version of '
            'the document, which is just as long, longer, shorter, or the same; two faults in one save: a failure of each file operation (2 errors), followed by '
            'a kill at every line thereafter, a full disk, or more such failures; 4 unserialisable documents',
        'thorough': 'as quick, with a bigger document, and pairs of faults in all 10 scenarios with 6 errors',
        }
ASSUMPTIONS = [
        'os.replace() is atomic',
        'the process dies between lines of Python: within one line, at most '
        'one file operation happens',
        'a crash of the process, not of the operating system',
        ]

SCENARIOS = {
        # where we start,  argument to save, file at risk
        'save-sif': ('a.sif', None, 'a.sif'),
        'save-sifz': ('b.sifz', None, 'b.sifz'),
        'sif-as-existing-sifz': ('a.sif', 'b.sifz', 'b.sifz'),
        'sifz-as-existing-sif': ('b.sifz', 'a.sif', 'a.sif'),
        'blank-as-existing-sif': (None, 'a.sif', 'a.sif'),
        'sif-as-new-sifz': ('a.sif', 'new.sifz', 'new.sifz'),
        'sif-as-new-sif': ('a.sif', 'new.sif', 'new.sif'),
        'sifz-as-existing-sifz': ('b.sifz', 'c.sifz', 'c.sifz'),
        'linked': ('to-a.sif', None, 'a.sif'),
        'as-linked': ('a.sif', 'to-b.sifz', 'b.sifz'),
        }
NO_NAME = {'sif-as-new-sifz', 'sifz-as-existing-sif'}   # the document has no name of its own
LINKS = {'to-a.sif': 'a.sif', 'to-b.sifz': 'b.sifz'}

DOC = (sif.HEADER+'<canvas fps="24" begin-time="0f" end-time="5s">'
        '<name>%s</name><layer type="circle" desc="é"/>%s</canvas>')


def noise(n):
    """Text which hardly compresses, so that .sifz files are large too."""
    return ''.join(hashlib.sha256(str(i).encode()).hexdigest() for i in range(n//64))


LARGE = '<layer type="circle" desc="%s"/>' % noise(200000)


def filler(tier):
    if tier=='large':
        return LARGE
    return '<layer type="circle" desc="more"/>'*(1 if tier=='quick' else 6)


PERMISSIONS = [0o600, 0o640, 0o664]


def modes(d):
    return {name: os.lstat(os.path.join(d, name)).st_mode for name in os.listdir(d)}


def setup(ctx, scenario, tier='quick'):
    start, arg, at_risk = SCENARIOS[scenario]
    d = ctx.path('dir')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for name in ('a.sif', 'b.sifz', 'c.sifz'):
        sif.write(os.path.join(d, name), DOC % ('old-'+name, filler(tier)))
    for name, target in LINKS.items():
        os.symlink(target, os.path.join(d, name))
    stem = at_risk.split('.')[0]
    for i, name in enumerate(sorted(os.listdir(d))):
        if name not in LINKS:
            os.chmod(os.path.join(d, name), PERMISSIONS[i%len(PERMISSIONS)])
    for name in (at_risk+'~', at_risk+'.tmp', at_risk+'.bak', at_risk+'.new', at_risk+'.old', '.'+at_risk, '.'+at_risk+'.tmp',
                 stem+'.tmp', stem+'.bak', stem+'~', 'tmp', '.sangfroid.tmp'):
        with open(os.path.join(d, name), 'w') as f:
            f.write('precious '+name)
    animation = sangfroid.Animation(
            os.path.join(d, start) if start else None)
    if tier in SIZES:
        earlier(ctx, d, start, at_risk, SIZES[tier])
    ctx.modes_before = modes(d)
    before = snapshot(d)
    if scenario in NO_NAME:
        animation.tag.find('name').extract()
        animation.find_all(True)[0].desc = 'new'
    else:
        animation.name = 'new'
    wanted = sif.canon(animation.tag)
    args = (os.path.join(d, arg),) if arg else ()
    return d, before, animation, wanted, args, at_risk


SIZES = {   # names for an earlier version of the document, whose file is then...
        'same': ['old', 'owl', 'own', 'now', 'one', 'two', 'eve', 'wen', 'few', 'hew'],
        'shorter': [''],
        'longer': ['a name which is longer than the new one'],
        'identical': ['new'],
        }


def earlier(ctx, d, start, at_risk, names):
    """
    Makes the file at risk an earlier version of the same document, as the library itself saves it:
    if we can, one which takes just as many bytes.
    """
    side = ctx.path('side.'+at_risk.split('.')[-1])
    def save(name):
        other = sangfroid.Animation(os.path.join(d, start) if start else None)
        other.name = name
        other.save(side)
        with open(side, 'rb') as f:
            result = f.read()
        os.remove(side)
        return result
    size = len(save('new'))
    versions = [save(name) for name in names]
    with open(os.path.join(d, at_risk), 'r+b') as f:    # keeping its permissions
        f.truncate()
        f.write(min(versions, key=lambda v: abs(len(v)-size)))


def snapshot(d):
    result = {}
    for name in os.listdir(d):
        if os.path.islink(os.path.join(d, name)):
            result[name] = os.readlink(os.path.join(d, name))
            continue
        with open(os.path.join(d, name), 'rb') as f:
            result[name] = f.read()
    return result


def judge(ctx, d, before, wanted, at_risk, what, must_be=None, tidy=False, permissions=True):
    """
    Everything must be as it was, except that the file at risk may
    be complete and new.
    """
    after = snapshot(d)
    for name, data in before.items():
        ctx.check(name in after, what+':', name, 'has gone')
        if name!=at_risk:
            ctx.check(after[name]==data, what+':', name, 'was damaged')
    if at_risk not in after:
        ctx.check(at_risk not in before, what+':', at_risk, 'has gone')
        outcome = 'absent'
    elif after[at_risk]==before.get(at_risk):
        outcome = 'old'
    else:
        try:
            xml, kind = sif.payload(os.path.join(d, at_risk))
            found = sif.canon_bytes(xml)
        except Exception as e:
            raise Violation(f'{what}: {at_risk} is corrupt: {e!r}, '
                            f'{after[at_risk][:80]!r}')
        ctx.check(found==wanted, what+':', at_risk, 'is neither old nor new')
        ctx.check(kind==at_risk.split('.')[-1], what+':', 'wrong kind of file')
        outcome = 'new'
    if permissions:
        now = modes(d)
        for name, mode in ctx.modes_before.items():
            ctx.same(oct(now[name]), oct(mode), f'{what}: the permissions of {name}')
    if tidy:
        extra = set(after)-set(before)-{at_risk}
        ctx.check(not extra, what+':', sorted(extra), 'was left behind')
    ctx.state(outcome, at_risk)
    ctx.outcomes.add(outcome)
    if must_be and outcome=='old' and 'new' in must_be:
        # it may be that there was nothing to do
        ctx.check(sif.canon_bytes(sif.payload(os.path.join(d, at_risk))[0])==wanted, what+':', 'the file is old')
    elif must_be:
        ctx.check(outcome in must_be, what+':', 'the file is', outcome)
    return outcome


def in_child(fn):
    """
    Runs fn in a forked process. Returns (exit status, whatever fn returned)
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid==0:
        try:
            os.close(r)
            signal.alarm(0)
            try:
                result = fn()
            except Violation as v:
                result = ('violation', str(v))
            except BaseException as e:
                sys.settrace(None)
                result = ('raised', type(e).__name__, str(e))
            sys.settrace(None)
            os.write(w, pickle.dumps(result))
            os._exit(0)
        finally:
            os._exit(99)
    os.close(w)
    data = b''
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    result = pickle.loads(data) if data else None
    if result and result[0]=='violation':
        raise Violation(result[1])
    return status, result


def tracer(at, action):
    """A trace function which does something at the n-th line."""
    count = [0]

    def local(frame, event, arg):
        if event=='line':
            if count[0]==at:
                count[0] += 1
                action()
            count[0] += 1
        return local

    def global_(frame, event, arg):
        return local

    return global_


STRIDE = 8
SIZES_QUICK = {('save-sif', 'same'), ('save-sifz', 'same'), ('save-sif', 'shorter'), ('save-sif', 'longer'), ('linked', 'identical')}

def interrupt_cases(tier):
    for case in line_cases(tier):
        if tier=='thorough' or case[0] not in SIZES or case[0]=='same':
            yield case


def line_cases(tier):
    for scenario in SCENARIOS:
        for residue in range(STRIDE):
            yield [tier, scenario, residue]
    for scenario in ('save-sif', 'save-sifz'):
        for residue in range(STRIDE):
            yield ['large', scenario, residue]
    for scenario in ('save-sif', 'save-sifz', 'sif-as-existing-sifz', 'linked'):
        for size in SIZES:
            if tier=='thorough' or (scenario, size) in SIZES_QUICK:
                for residue in range(STRIDE):
                    yield [size, scenario, residue]


def kill_run(ctx, case):
    tier, scenario, residue = case
    k = residue
    while True:
        d, before, animation, wanted, args, at_risk = setup(ctx, scenario, tier)

        def child():
            sys.settrace(tracer(k, lambda: os._exit(77)))
            try:
                animation.save(*args)
            finally:
                sys.settrace(None)
            return ('done',)

        status, result = in_child(child)
        ctx.step()
        what = f'killed at line event {k} of {scenario}'
        if status==77:
            judge(ctx, d, before, wanted, at_risk, what)
        else:
            ctx.same((status, result), (0, ('done',)), 'save with no fault')
            judge(ctx, d, before, wanted, at_risk, scenario, ['new'])
            break
        k += STRIDE
    ctx.check(k>STRIDE, 'nothing was explored')


def after_fault(ctx, d, before, animation, wanted, at_risk, what, raised, **kwargs):
    """Call this in the same process, once the fault has gone away."""
    outcome = judge(ctx, d, before, wanted, at_risk, what,
                    None if raised else ['new'], **kwargs)
    # the animation must still be usable
    ctx.check(sif.canon(animation.tag)==wanted, what, 'changed the document in memory')
    return outcome


def retry(ctx, d, before, animation, args, wanted, at_risk, what):
    animation.save(*args)
    judge(ctx, d, before, wanted, at_risk, what+', then retried', ['new'])


def belongs(ctx, d, before, animation, wanted, start, at_risk, what):
    """A save which failed leaves the animation belonging to the same file."""
    if start is None:
        try:
            animation.save()
            worked = True
        except Exception:
            worked = False
        ctx.check(not worked, what, 'and then a save with no filename worked')
        judge(ctx, d, before, wanted, at_risk, what, ['old', 'absent'])
        return
    start = LINKS.get(start, start)
    animation.save()
    judge(ctx, d, before, wanted, start, what+', then saved', ['new'])
    with open(os.path.join(d, start), 'wb') as f:
        f.write(before[start])


def interrupt_run(ctx, case):
    tier, scenario, residue = case
    k = residue
    untidy = 0

    def ctrl_c():
        raise KeyboardInterrupt()

    while True:
        d, before, animation, wanted, args, at_risk = setup(ctx, scenario, tier)
        what = f'ctrl-C at line event {k} of {scenario}'

        def child():
            interrupted = False
            sys.settrace(tracer(k, ctrl_c))
            try:
                animation.save(*args)
            except KeyboardInterrupt:
                interrupted = True
            finally:
                sys.settrace(None)
            outcome = after_fault(ctx, d, before, animation, wanted, at_risk, what,
                                  interrupted)
            if outcome!='new':
                belongs(ctx, d, before, animation, wanted, SCENARIOS[scenario][0], at_risk, what)
            extra = sorted(set(os.listdir(d))-set(before)-{at_risk})
            retry(ctx, d, before, animation, args, wanted, at_risk, what)
            return ('interrupted', extra) if interrupted else ('done', extra)

        status, result = in_child(child)
        ctx.step(2)
        ctx.check(status==0 and result is not None and result[0]!='raised',
                  what, status, result)
        # in this process we didn't see the states, so count here
        ctx.state(scenario, result[0], bool(result[1]))
        if result[1]:
            # there may be an instant after a file is made when
            # nothing knows about it yet, but not more than that
            untidy += 1
            ctx.check(untidy<2 and result[0]=='interrupted', what, 'left behind', result[1])
        if result[0]=='done':
            break
        k += STRIDE


# --------------------------------------------------------------

def full_cases(tier):
    for scenario in SCENARIOS:
        for residue in range(STRIDE):
            yield [tier, scenario, residue]
    for scenario in SCENARIOS:
        for residue in range(STRIDE):
            yield ['large', scenario, residue]
    for scenario, size in sorted(SIZES_QUICK):
        for residue in range(STRIDE):
            yield [size, scenario, residue]


def full_run(ctx, case):
    tier, scenario, residue = case
    limit = residue
    if tier=='large':
        limits = [n+i for n in (4096, 8192, 16384, 65536, 131072, 196608, 262144) for i in (-1, 0, 1)]
        limits = [0, 1, 2, *limits, 1<<30][residue::STRIDE]
        if limits[-1]!=1<<30:
            limits.append(1<<30)
    while True:
        if tier=='large':
            limit = limits.pop(0)
        d, before, animation, wanted, args, at_risk = setup(ctx, scenario, tier)
        what = f'disk full after {limit} bytes in {scenario}'
        start = SCENARIOS[scenario][0]

        def child():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            try:
                animation.save(*args)
                raised = False
            except Exception:
                raised = True
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            if not raised:
                after_fault(ctx, d, before, animation, wanted, at_risk, what, False)
                return ('done',)
            judge(ctx, d, before, wanted, at_risk, what, ['old', 'absent'], tidy=True)
            after_fault(ctx, d, before, animation, wanted, at_risk, what, True)
            belongs(ctx, d, before, animation, wanted, start, at_risk, what)
            retry(ctx, d, before, animation, args, wanted, at_risk, what)
            return ('failed',)

        status, result = in_child(child)
        ctx.step(3)
        ctx.check(status==0 and result is not None and result[0]!='raised',
                  what, status, result)
        ctx.state(scenario, result)
        if result==('done',):
            break
        limit += STRIDE


# --------------------------------------------------------------

AUDIT = ('open', 'os.rename', 'os.remove', 'os.chmod', 'os.truncate',
         'os.link', 'os.symlink', 'os.mkdir', 'os.utime',
         'shutil.copyfile', 'shutil.copymode', 'shutil.copystat',
         'shutil.move', 'tempfile.mkstemp')
PATCH = ('fsync', 'fdatasync', 'replace', 'rename', 'write', 'close',
         'chmod', 'stat', 'unlink', 'remove')


def op_cases(tier):
    for scenario in SCENARIOS:
        for code in (errno.ENOSPC, errno.EACCES, errno.EIO):
            yield [tier, scenario, 'audit', code]
            for f in PATCH:
                yield [tier, scenario, f, code]
    for scenario in SCENARIOS:
        for f in ('audit', *PATCH):
            yield ['large', scenario, f, errno.ENOSPC]


def op_run(ctx, case):
    tier, scenario, kind, code = case
    k = 0
    while True:
        d, before, animation, wanted, args, at_risk = setup(ctx, scenario, tier)
        what = f'{errno.errorcode[code]} from {kind} operation {k} of {scenario}'

        def child():
            armed = [True]
            seen = [0]
            failed = ['']

            def hook(event, args):
                if armed[0] and event in AUDIT:
                    seen[0] += 1
                    if seen[0]-1==k:
                        failed[0] = event
                        raise OSError(code, os.strerror(code))

            real = None
            if kind=='audit':
                sys.addaudithook(hook)
            else:
                real = getattr(os, kind)

                def fake(*a, **kw):
                    if armed[0]:
                        seen[0] += 1
                        if seen[0]-1==k:
                            raise OSError(code, os.strerror(code))
                    return real(*a, **kw)

                setattr(os, kind, fake)

            try:
                animation.save(*args)
                raised = False
            except Exception:
                raised = True
            finally:
                armed[0] = False
                if real:
                    setattr(os, kind, real)
            # it can't tidy up if it can't delete, nor keep the permissions
            # if it can't see them
            outcome = after_fault(ctx, d, before, animation, wanted, at_risk, what, raised,
                                  tidy = kind not in ('unlink', 'remove', 'stat') and failed[0]!='os.remove',
                                  permissions = kind not in ('stat', 'chmod') and 'mode' not in failed[0] and
                                      'chmod' not in failed[0] and 'stat' not in failed[0])
            if kind in ('stat', 'chmod', 'audit'):
                for name, mode in ctx.modes_before.items():
                    if name not in LINKS:
                        os.chmod(os.path.join(d, name), mode & 0o777)
            if raised and outcome!='new':
                belongs(ctx, d, before, animation, wanted, SCENARIOS[scenario][0], at_risk, what)
            retry(ctx, d, before, animation, args, wanted, at_risk, what)
            return ('done', raised) if seen[0]<=k else ('faulted', raised)

        status, result = in_child(child)
        ctx.step(2)
        ctx.check(status==0 and result is not None and result[0]!='raised',
                  what, status, result)
        ctx.state(scenario, kind, k, result)
        if result[0]=='done':
            ctx.check(not result[1], what, 'raised without a fault')
            break
        k += 1


# --------------------------------------------------------------

PAIR_SCENARIOS = ['save-sif', 'sif-as-existing-sifz', 'sif-as-new-sif', 'linked']

def pair_cases(tier):
    for scenario in PAIR_SCENARIOS if tier=='quick' else SCENARIOS:
        for code in (errno.EXDEV, errno.EACCES) if tier=='quick' else (
                errno.EXDEV, errno.EACCES, errno.EPERM, errno.EIO, errno.EBUSY, errno.ENOENT):
            for f in ('audit', *PATCH):
                yield [scenario, f, code]


def pair_run(ctx, case):
    """One thing fails; and then, another does: a kill, a full disk, or the same again."""
    scenario, kind, code = case

    def attempt(k, second):
        d, before, animation, wanted, args, at_risk = setup(ctx, scenario)
        what = f'{errno.errorcode[code]} from {kind} operation {k} of {scenario}, and then {second}'

        def child():
            armed = [True]
            seen = [0]
            failed = ['']
            limits = resource.getrlimit(resource.RLIMIT_FSIZE)

            def maybe_fail(name):
                if not armed[0]:
                    return
                seen[0] += 1
                if seen[0]-1<k or (seen[0]-1>k and second!='again'):
                    return
                failed[0] = name
                if second=='full':
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (0, limits[1]))
                elif second!='again':
                    # the rest of the lines, in the frames which are there already as well
                    t = tracer(second, lambda: os._exit(77))
                    sys.settrace(t)
                    frame = sys._getframe()
                    local = t(frame, 'call', None)
                    while frame is not None:
                        frame.f_trace = local
                        frame = frame.f_back
                raise OSError(code, os.strerror(code))

            def hook(event, args):
                if event in AUDIT:
                    maybe_fail(event)

            real = None
            if kind=='audit':
                sys.addaudithook(hook)
            else:
                real = getattr(os, kind)

                def fake(*a, **kw):
                    maybe_fail(kind)
                    return real(*a, **kw)

                setattr(os, kind, fake)
            try:
                animation.save(*args)
                raised = False
            except Exception:
                raised = True
            finally:
                armed[0] = False
                sys.settrace(None)
                resource.setrlimit(resource.RLIMIT_FSIZE, limits)
                if real:
                    setattr(os, kind, real)
            after_fault(ctx, d, before, animation, wanted, at_risk, what, raised, permissions=False)
            return ('done' if seen[0]<=k else 'faulted', raised)

        status, result = in_child(child)
        ctx.step()
        if status==77:
            judge(ctx, d, before, wanted, at_risk, what, permissions=False)
            return 'killed'
        ctx.check(status==0 and result is not None and result[0]!='raised', what, status, result)
        ctx.state(scenario, kind, k, str(second)[:5], result)
        return result[0]

    k = 0
    while True:
        if attempt(k, 'again')=='done':
            break
        attempt(k, 'full')
        line = 0
        while attempt(k, line)=='killed':
            line += 1
        k += 1


# --------------------------------------------------------------

class Unprintable:
    def __str__(self):
        raise RuntimeError('unprintable')


def unserialisable_cases(tier):
    for scenario in SCENARIOS:
        for what in ('surrogate-desc', 'surrogate-name', 'unprintable',
                     'surrogate-text'):
            yield [scenario, what]


def unserialisable_run(ctx, case):
    """The document can't be turned into bytes."""
    scenario, how = case
    d, before, animation, wanted, args, at_risk = setup(ctx, scenario)
    if how=='surrogate-name':
        animation.name = 'x\udc80'
    elif how=='surrogate-desc':
        animation.append(sangfroid.layer.Circle())
        animation[-1].desc = 'x\udc80'
    elif how=='surrogate-text':
        animation.append(sangfroid.layer.Text())
        animation[-1]['text'] = 'x\udc80'
    else:
        animation.tag['unprintable'] = Unprintable()
    try:
        animation.save(*args)
        worked = True
    except Exception:
        worked = False
    ctx.step()
    if not worked:
        judge(ctx, d, before, wanted, at_risk, f'{how} in {scenario}',
              ['old', 'absent'])
    elif how!='unprintable':
        # then it must all be there
        written = sangfroid.Animation(os.path.join(d, at_risk))
        ctx.check(sif.canon(written.tag)==sif.canon(animation.tag),
                  f'{how} in {scenario}: it was saved as something else')


UNITS = [
        Unit('unserialisable', unserialisable_cases, unserialisable_run),
        Unit('full-disk', full_cases, full_run),
        Unit('failing-operations', op_cases, op_run),
        Unit('pairs', pair_cases, pair_run),
        Unit('kill', line_cases, kill_run),
        Unit('ctrl-c', interrupt_cases, interrupt_run),
        ]
