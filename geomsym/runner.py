"""Runs symbolic jobs, replays counterexamples, writes evidence."""
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import zlib
from collections import Counter
from fractions import Fraction

from . import laws, model
from .oracle import P
from .summary import install
from .sym import Engine, Stop, TooLong, Unsupported

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, 'replays')
PATH_TIMEOUT = 20
PROFILED = Counter()


class Hang(Stop):
    pass


def _alarm(signum, frame):
    raise Hang('path takes too long')


def job(law, fn, left, right, names, *, params=None, start=None, label='',
        max_paths=None, known=None):
    return dict(law=law, fn=fn, left=left, right=right, names=list(names),
                params=params, start=start or {}, label=label,
                max_paths=max_paths, known=known)


def made(job_):
    if isinstance(job_, tuple):
        make, arguments = job_
        return make(*arguments)
    return job_


def instantiate(g, convert):
    return model.map_points(lambda p: P(convert(p.x), convert(p.y)), g)


# constant available in formulas of coordinates
TINY = Fraction(1, 10 ** 9 + 7)


def converter(environment, coerce):
    cache = {}
    environment = {'TINY': TINY, **environment}

    def convert(value):
        if isinstance(value, str):
            if value not in cache:
                cache[value] = coerce(eval(value, {'__builtins__': {}},
                                           environment))
            return cache[value]
        return coerce(value)

    return convert


def evaluate(job_, convert, call):
    params = job_['params']
    if job_['law'] == 'motion':
        params = tuple(map(convert, params[:3])) + (params[3],)
    elif job_['law'] == 'history':
        params = tuple(map(convert, params[:2])) + (params[2],)
    return laws.LAWS[job_['law']](call, job_['fn'],
                                  instantiate(job_['left'], convert),
                                  instantiate(job_['right'], convert), params)


def exact(value):
    if isinstance(value, Fraction) and value.denominator == 1:
        return value.numerator
    return value


def evaluate_concretely(job_, values, call):
    environment = {n: Fraction(values.get(n, 0)) for n in job_['names']}
    call.known = None
    return evaluate(job_, converter(environment, exact), call)


def run_job(argument):
    """Explores all paths of the job."""
    job_, limits = argument
    started = time.time()
    deadline = started + limits['job_s']
    if limits['stop_at'] is not None:
        if started > limits['stop_at']:
            return dict(status='skipped')
        deadline = min(deadline, limits['stop_at'] + limits['grace_s'])
    job_ = made(job_)
    install()
    call = laws.Caller()
    engine = Engine(job_['names'], timeout_ms=limits['solver_ms'])
    convert = converter(dict(zip(job_['names'], engine.symbols)),
                        engine.coerce)
    functions = set()
    answers = Counter()
    result = dict(status='complete', label=job_['label'], fn=job_['fn'],
                  law=job_['law'], valid=0, invalid=0, checked=0,
                  validated=0, unsupported=[], violation=None, sample=None)
    signal.signal(signal.SIGALRM, _alarm)

    def profile(frame, event, arg):
        if event == 'call':
            filename = frame.f_code.co_filename
            if '/orient/' in filename:
                module = os.path.basename(filename)[:-3]
                functions.add(f'{module}.{frame.f_code.co_qualname}')

    def function():
        profiled = (not result['valid']
                    and PROFILED[job_['fn'], job_['law']] < 5)
        signal.setitimer(signal.ITIMER_REAL, PATH_TIMEOUT)
        try:
            if profiled:
                PROFILED[job_['fn'], job_['law']] += 1
                sys.setprofile(profile)
            call.fresh()
            call.known = job_['known']
            return evaluate(job_, convert, call)
        except Hang as error:
            return error
        except RecursionError:
            raise
        finally:
            sys.setprofile(None)
            signal.setitimer(signal.ITIMER_REAL, 0)

    max_paths = limits['max_paths'][max(
            d for d in limits['max_paths']
            if d <= len({*job_['names']} - {'s', 'u', 'v'}))]
    first = zlib.crc32(job_['label'].encode())
    if job_['max_paths']:
        max_paths = min(max_paths, job_['max_paths'])
    try:
        for outcome, values in engine.explore(
                function, start=job_['start'],
                max_paths=max_paths, deadline=deadline):
            if outcome is None:
                result['invalid'] += 1
                continue
            stuck = isinstance(outcome, Stop)
            if stuck or laws.violations(outcome):
                confirmed = confirm(job_, values,
                                    isinstance(outcome, (Hang, TooLong)))
                if confirmed is not None:
                    result['violation'] = dict(values=encode_values(values),
                                               outcome=confirmed)
                    result['status'] = 'violated'
                    break
                if (stuck or any(a.startswith('ERROR')
                                 for _, a, _ in outcome)
                        or is_loose(engine, call)):
                    result['unsupported'].append(
                            [encode_values(values),
                             str(outcome)[:300]])
                    continue
                result['status'] = 'unreproducible'
                result['violation'] = dict(values=encode_values(values),
                                           outcome=outcome)
                break
            result['valid'] += 1
            result['checked'] += len(outcome)
            answers[outcome[0][1]] += 1  # laws check at least something
            if (result['valid'] + first) % limits['validate_every'] == 0:
                call.fresh()
                again = evaluate_concretely(job_, values, call)
                if again != outcome:
                    if again is not None and laws.violations(again):
                        confirmed = confirm(job_, values, False)
                        if confirmed is not None:
                            result['violation'] = dict(
                                    values=encode_values(values),
                                    outcome=confirmed)
                            result['status'] = 'violated'
                            break
                    if is_loose(engine, call):
                        result['unsupported'].append(
                                [encode_values(values), str(again)[:300]])
                        continue
                    result['status'] = 'unreproducible'
                    result['violation'] = dict(
                            values=encode_values(values),
                            outcome=[outcome, again])
                    break
                result['validated'] += 1
            if result['sample'] is None or result['valid'] == 7:
                result['sample'] = describe(job_, values, outcome)
        else:
            if not engine.complete:
                result['status'] = 'truncated'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    result.update(stats=engine.stats, polys=len(engine.polys),
                  functions=sorted(functions), answers=dict(answers),
                  calls=call.calls, reloads=call.reloads,
                  wall_s=time.time() - started)
    return result


def is_loose(engine, call):
    """Code depends on something besides values of the coordinates."""
    return (call.stateful or engine.stats['nondeterministic']
            or engine.stats['concretized'])


def describe(job_, values, outcome):
    convert = converter({n: Fraction(values.get(n, 0))
                         for n in job_['names']}, exact)
    return dict(function=job_['fn'], law=job_['law'],
                left=str(instantiate(job_['left'], convert)),
                right=str(instantiate(job_['right'], convert)),
                symbolic_left=str(job_['left']),
                symbolic_right=str(job_['right']),
                answer=outcome[0][1])


def encode_values(values):
    return {k: str(v) for k, v in values.items()}


def encode_geometry(g):
    if isinstance(g, P):
        return {'x': g.x, 'y': g.y}
    elif isinstance(g, tuple):
        return {'tuple': [encode_geometry(x) for x in g]}
    return [encode_geometry(x) for x in g]


def decode_geometry(g):
    if isinstance(g, list):
        return [decode_geometry(x) for x in g]
    elif 'tuple' in g:
        return tuple(decode_geometry(x) for x in g['tuple'])
    return P(g['x'], g['y'])


def encode_params(params):
    return params if params is None else json.loads(json.dumps(params))


def encode_job(job_, values):
    return dict(law=job_['law'], fn=job_['fn'],
                left=encode_geometry(job_['left']),
                right=encode_geometry(job_['right']), names=job_['names'],
                params=encode_params(job_['params']),
                values=encode_values(values))


def decode_job(data):
    return (job(data['law'], data['fn'], decode_geometry(data['left']),
                decode_geometry(data['right']), data['names'],
                params=data['params']),
            {k: Fraction(v) for k, v in data['values'].items()})


def confirm(job_, values, may_hang):
    """
    Replays on the real code with rational numbers in a separate process.
    """
    data = json.dumps(encode_job(job_, values))
    try:
        process = subprocess.run(
                [sys.executable, os.path.join(ROOT, 'check.py'), '--evaluate'],
                input=data, capture_output=True, text=True, timeout=40)
    except subprocess.TimeoutExpired:
        return [[job_['fn'], 'ERROR no answer in 40 s', 'answer']]
    if process.returncode != 0:
        raise RuntimeError(process.stderr[-2000:])
    outcome = json.loads(process.stdout)
    if outcome is None:
        return None
    found = laws.violations(outcome)
    return found or None


def execute(property_id, jobs, tier, seed, assumptions, bounds, limits):
    started = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    limits = dict(limits)
    if limits.get('total_s') is not None:
        limits['stop_at'] = started + limits['total_s']
    else:
        limits['stop_at'] = None
    processes = limits.get('processes') or os.cpu_count() or 1
    results, violated = [], None
    context = multiprocessing.get_context('fork')
    with context.Pool(processes) as pool:
        jobs = jobs(pool.imap)
        for index, result in pool.imap_unordered(
                _indexed, [(i, (j, limits)) for i, j in enumerate(jobs)]):
            results.append(result)
            if result['status'] in ('violated', 'unreproducible'):
                violated = made(jobs[index]), result
                pool.terminate()
                break
    if violated is not None:
        job_, result = violated
        values = {k: Fraction(v)
                  for k, v in result['violation']['values'].items()}
        path = os.path.join(REPLAYS, f'{property_id}.json')
        data = encode_job(job_, values)
        data['property'] = property_id
        data['outcome'] = result['violation']['outcome']
        data['readable'] = describe(job_, values, [('', '', '')])
        with open(path, 'w') as file:
            json.dump(data, file, indent=1, default=str)
    write_evidence(property_id, jobs, results, tier, seed, assumptions,
                   bounds, time.time() - started,
                   violated is not None
                   and violated[1]['status'] == 'violated')
    if violated is not None:
        print(json.dumps(data['readable'], indent=1))
        for item in result['violation']['outcome']:
            print(' ', item)
        if result['status'] == 'violated':
            print(f'VIOLATION property={property_id} replay={path}')
            return 1
        print('counterexample does not reproduce on the real code, '
              'engine is wrong', file=sys.stderr)
        return 3
    ran = [r for r in results if r['status'] != 'skipped']
    valid = sum(r['valid'] for r in ran)
    unsupported = sum(len(r['unsupported']) for r in ran)
    statuses = Counter(r['status'] for r in results)
    print(f'{property_id}: held; jobs {dict(statuses)}, '
          f'paths {sum(r["stats"]["paths"] for r in ran)}, valid {valid}, '
          f'assertions {sum(r["checked"] for r in ran)}, '
          f'solver queries {sum(r["stats"]["queries"] for r in ran)}, '
          f'unknown {sum(r["stats"]["unknown"] for r in ran)}, '
          f'unsupported {unsupported}, {time.time() - started:.0f} s')
    if not valid:
        print('no valid path was explored', file=sys.stderr)
        return 2
    return 0


def _indexed(argument):
    index, rest = argument
    return index, run_job(rest)


def write_evidence(property_id, jobs, results, tier, seed, assumptions,
                   bounds, wall_s, violated):
    ran = [r for r in results if r['status'] != 'skipped']

    def total(name):
        return sum(r['stats'][name] for r in ran)

    answers = Counter()
    for r in ran:
        for answer, count in r['answers'].items():
            answers[f'{r["fn"]}: {answer}'] += count
    functions = sorted({f for r in ran for f in r['functions']})
    statuses = Counter(r['status'] for r in results)
    samples = [r['sample'] for r in ran if r['sample']][:8]
    evidence = dict(
            property=property_id, tier=tier, seed=seed,
            level='model_checking',
            coverage=dict(
                    states=total('paths'),
                    transitions=total('decisions'),
                    traces_validated_against_impl=sum(r['validated']
                                                      for r in ran),
                    samples=samples or ['none'],
                    exhaustive=False,
                    explanation=(
                        'states are feasible paths (cells of symbolic '
                        'coordinates space) of real code, transitions are '
                        'decisions on signs of polynomials taken on them, '
                        'traces validated are paths which answers were '
                        'compared with concrete run of real code on '
                        'the rational witness; a job with status complete is '
                        'decided for all real values of its coordinates'),
                    jobs=len(jobs), jobs_by_status=dict(statuses),
                    jobs_fully_decided=statuses['complete'],
                    valid_paths=sum(r['valid'] for r in ran),
                    invalid_input_paths=sum(r['invalid'] for r in ran),
                    assertions=sum(r['checked'] for r in ran),
                    solver_queries=total('queries'),
                    solver_queries_nonlinear=total('nonlinear_queries'),
                    solver_sat=total('sat'), solver_unsat=total('unsat'),
                    solver_unknown=total('unknown'),
                    lemmas_reused=total('lemma_hits'),
                    irrational_only_cells=total('irrational'),
                    unsupported_paths=sum(len(r['unsupported']) for r in ran),
                    unsupported_samples=[u for r in ran
                                         for u in r['unsupported']][:3],
                    solver_s=round(total('solver_s'), 2),
                    functions_encoded=functions,
                    answers_reached=dict(sorted(answers.items())),
                    bounds=bounds),
            assumptions=assumptions, wall_s=round(wall_s, 2),
            violations=int(violated))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{property_id}.json'),
              'w') as file:
        json.dump(evidence, file, indent=1, default=str)
