import importlib
import json
import os
import sys
import time
import traceback

from mc import core

KNOWN_FINDINGS = os.path.join(core.VERIF, 'KNOWN_FINDINGS.txt')


def known_findings(prop):
    """{slug: description} of the findings listed for this property."""
    result = {}
    with open(KNOWN_FINDINGS) as f:
        for line in f:
            line = line.strip()
            if not line.startswith(f'finding: property={prop} '):
                continue
            rest = line.split(' ', 2)[2]
            slug, _, text = rest.partition(' ')
            result[slug.removeprefix('id=')] = text
    return result


def write_replay(prop, tier, violation):
    os.makedirs(core.REPLAYS, exist_ok=True)
    unit, case, problem, trace = violation
    path = os.path.join(core.REPLAYS, f'{prop}.json')
    with open(path, 'w') as f:
        json.dump(dict(
            property = prop,
            tier = tier,
            unit = unit,
            case = case,
            problem = problem,
            trace = trace,
            how = f'/verif/run.sh replay {path}',
            ), f, indent=1, default=repr)
    return path


def load(prop):
    sys.path.insert(0, core.REPO)
    return importlib.import_module(f'mc.props.{prop.lower()}')


def main(argv):
    if argv[0]=='replay':
        with open(argv[1]) as f:
            recorded = json.load(f)
        module = load(recorded['property'])
        for unit in module.UNITS:
            if unit.name==recorded['unit']:
                import tempfile, shutil
                tmp = tempfile.mkdtemp(prefix='mc-')
                try:
                    ctx = core.Ctx(tmp)
                    problem = core.run_one(unit, ctx, recorded['case'])
                finally:
                    shutil.rmtree(tmp, ignore_errors=True)
                print('case:', json.dumps(recorded['case']))
                for line in ctx.trace:
                    print('  ', line)
                print(problem or 'no violation')
                return 1 if problem else 0
        print('no such unit:', recorded['unit'])
        return 2

    prop = argv[0]
    tier = argv[1] if len(argv)>1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    started = time.time()

    try:
        module = load(prop)
    except Exception:
        # the code can't even be imported
        violation = ('import', None, traceback.format_exc(), [])
        print(violation[2])
        path = write_replay(prop, tier, violation)
        print(f'VIOLATION property={prop} replay={path}')
        write_evidence(prop, tier, seed, None, core.Result(), [], time.time()-started, 1)
        return 1

    units = module.UNITS
    only = os.environ.get('MC_UNIT')
    if only:
        units = [u for u in units if u.name in only.split(',')]

    total, rows = core.merge(core.explore(units, tier))

    listed = known_findings(prop)
    unlisted = sorted(total.known - set(listed))

    for row in rows:
        print('%(unit)-28s %(cases)8d executions %(states)8d states '
              '%(transitions)9d transitions' % row)

    for slug in sorted(total.known & set(listed)):
        print(f'KNOWN-FINDING: property={prop} {listed[slug]}')

    violation = total.violation
    if violation is None and unlisted:
        violation = ('findings', None, f'not a known finding: {unlisted}', [])

    wall = time.time()-started
    write_evidence(prop, tier, seed, module, total, rows, wall,
                   1 if violation else 0)
    print(f'{prop} {tier}: {total.cases} executions, {wall:.1f}s')

    if violation:
        unit, case, problem, trace = violation
        print(f'--- in unit {unit}, case {json.dumps(case, default=repr)}')
        for line in trace[-40:]:
            print('   ', line)
        print(problem)
        path = write_replay(prop, tier, violation)
        print(f'VIOLATION property={prop} replay={path}')
        return 1

    return 0


def write_evidence(prop, tier, seed, module, total, rows, wall, violations):
    path = os.path.join(core.VERIF, 'evidence', f'{prop}.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(dict(
            property = prop,
            tier = tier,
            seed = seed,
            level = getattr(module, 'LEVEL', 'model_checking'),
            coverage = dict(
                states = len(total.states),
                transitions = total.transitions,
                traces_validated_against_impl = total.cases,
                exhaustive = not violations,
                units = rows,
                distinct_outcomes = len(total.outcomes),
                bounds = getattr(module, 'BOUNDS', {}).get(tier, ''),
                samples = total.samples[:12],
                ),
            assumptions = getattr(module, 'ASSUMPTIONS', []),
            wall_s = round(wall, 3),
            violations = violations,
            ), f, indent=1, default=repr)


if __name__=='__main__':
    sys.exit(main(sys.argv[1:]))
