"""python -m sx.run ID: decide one property; see DESIGN.md."""
import collections
import importlib
import json
import multiprocessing
import os
import random
import select
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PILO_REPO', '/repo')
WORKERS = int(os.environ.get('SX_WORKERS', '8'))
SLICE = 1.5
PATH_LIMIT = 30
NATIVE_LIMIT = 20
CONFIRMS = ('violation', 'exception', 'timeout')


def setup_paths():
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)


# -- worker side

STATE = {}


def start_worker(prop, tier, seed):
    from sx import engine, instrument, models, temporal
    STATE['entered'] = entered = set()
    STATE['path_end'] = None
    now = time.time

    def tick():
        if STATE['path_end'] is not None and now() > STATE['path_end']:
            STATE['path_end'] = None
            raise engine.Hang('no end of the path within %d s' % PATH_LIMIT)

    def enter(name, add=entered.add):
        add(name)
        tick()
    models.RUNTIME['__sx_enter__'] = enter
    models.RUNTIME['__sx_tick__'] = tick
    instrument.install()
    mod = importlib.import_module('props.%s' % prop.lower())
    import pilo
    assert os.path.realpath(pilo.__file__).startswith(os.path.realpath(REPO) + '/'), pilo.__file__
    e = engine.set_engine(engine.Engine())
    if tier == 'thorough' or os.environ.get('SX_SECOND'):
        e.which2 = 'cvc5'
    STATE.update(mod=mod, engine=e, prop=prop, tier=tier, rng=random.Random('%s/%s' % (seed, os.getpid())))


def encode_inputs(e, model):
    from sx import api
    return dict((label, api.encode(api.lower(v, model))) for label, v in e.inputs)


def run_task(task):
    try:
        return _run_task(task)
    except BaseException:
        return dict(error=traceback.format_exc(), task=task[:2], violations=[], left=[], samples=[])


def _run_task(task):
    hi, case, pending, quota = task
    from sx import api, engine, native, terms
    e, mod = STATE['engine'], STATE['mod']
    h = mod.HARNESSES[hi]
    if STATE.get('last') != (hi, case):
        # fresh tables: terms of another case are not needed any more
        STATE['last'] = (hi, case)
        terms.reset_tables()
        e.restart_solvers()
    e.pending = list(pending)
    for k in e.stats:
        e.stats[k] = 0
    e.covers, e.notes = {}, {}
    solver0 = dict(e.solver.stats)
    entered0 = set(STATE['entered'])
    end = time.time() + SLICE
    violations, samples, errors, known = [], [], [], {}
    rng = STATE['rng']
    seen = 0
    while e.pending and time.time() < end and not violations:
        prefix, model = e.pending.pop()
        e.begin(prefix, model)
        e.known_hits = {}
        STATE['path_end'] = time.time() + PATH_LIMIT
        try:
            native.in_thread(lambda: h.fn(*case))
        except engine.PathDropped as ex:
            e.stats['dropped'] += 1
            continue
        except engine.Violation as ex:
            violations.append(dict(message=ex.message, harness=h.name, case=case,
                                   inputs=encode_inputs(e, ex.model), trace=''))
        except engine.Limit as ex:
            e.stats['dropped'] += 1
            e.stats['dropped_limit'] = e.stats.get('dropped_limit', 0) + 1
            e.notes['incomplete: %s' % ex] = True
            continue
        except engine.Hang as ex:
            violations.append(dict(message='hang: %s' % ex, harness=h.name, case=case,
                                   inputs=encode_inputs(e, e.model), trace=''))
        except engine.Control:
            raise
        except Exception as ex:
            violations.append(dict(message='unexpected %s: %s' % (type(ex).__name__, safe(ex, e)), harness=h.name,
                                   case=case, inputs=encode_inputs(e, e.model), trace=traceback.format_exc()))
        for fid, hit in e.known_hits.items():
            known.setdefault(fid, dict(message=hit['message'], harness=h.name, case=case,
                                       inputs=encode_inputs(e, hit['model'])))
        e.stats['paths'] += 1
        seen += 1
        if not violations:
            s = None
            if len(samples) < quota:
                s = len(samples)
                samples.append(None)
            else:
                j = rng.randrange(seen)
                if j < quota:
                    s = j
            if s is not None:
                samples[s] = dict(harness=h.name, case=case, inputs=encode_inputs(e, e.model),
                                  observed=[api.show(api.lower(v, e.model)) for v in e.observed])
    left = [(([(x[0], None) for x in p], vals), m) for (p, vals), m in e.pending]
    stats = dict(e.stats)
    for k, v in e.solver.stats.items():
        stats['solver.' + k] = v - solver0[k]
    return dict(task=(hi, case), left=left, violations=violations, samples=samples, stats=stats, covers=e.covers,
                notes=list(e.notes), known=known, entered=sorted(STATE['entered'] - entered0), error=None)


def safe(ex, e):
    try:
        return str(ex)
    except BaseException as x:
        return '<%s>' % type(x).__name__


def worker_main(conn, prop, tier, seed):
    try:
        start_worker(prop, tier, seed)
        conn.send(('ready', None))
    except BaseException:
        conn.send(('failed', traceback.format_exc()))
        return
    while True:
        task = conn.recv()
        if task is None:
            return
        conn.send(('done', run_task(task)))


# -- native side

class NativeProc(object):

    def __init__(self):
        self.start()

    def start(self):
        env = dict(os.environ)
        env['PYTHONPATH'] = REPO + os.pathsep + HERE
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONPYCACHEPREFIX'] = '/nonexistent/pycache'
        self.p = subprocess.Popen([sys.executable, '-m', 'sx.native'], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, universal_newlines=True)

    def run(self, prop, job):
        self.p.stdin.write(json.dumps(dict(property=prop, harness=job['harness'], case=job['case'],
                                           inputs=job['inputs'])) + '\n')
        self.p.stdin.flush()
        ready, _, _ = select.select([self.p.stdout], [], [], NATIVE_LIMIT)
        if not ready:
            self.p.kill()
            self.p.wait()
            self.start()
            return dict(outcome='timeout', message='no result within %d s' % NATIVE_LIMIT, observed=[], known=[])
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            self.start()
            return dict(outcome='error', message='native process died', observed=[], known=[])
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


# -- master

def harness_meta(prop):
    """Names, cases, covers, bounds of the property's harnesses (from a native
    process, so that the master need not import anything under test)."""
    env = dict(os.environ)
    env['PYTHONPATH'] = REPO + os.pathsep + HERE
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPYCACHEPREFIX'] = '/nonexistent/pycache'
    code = ("import json,sys; from sx import native, api; api.set_native(api.Native({})); m=native.load(%r); "
            "sys.stdout.write('@@'+json.dumps([[(h.name,h.cases,h.thorough,h.covers) for h in m.HARNESSES],"
            "m.BOUNDS,m.OUTSIDE]))" % prop)
    p = subprocess.run([sys.executable, '-c', code], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True)
    if '@@' not in p.stdout:
        raise RuntimeError('cannot load harnesses:\n%s' % p.stderr[-3000:])
    return json.loads(p.stdout.split('@@', 1)[1])


def detuple(x):
    return tuple(detuple(y) for y in x) if isinstance(x, list) else x


def known_findings():
    path = os.path.join(HERE, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                # known: property=<id> finding=<fid> <text>
                _, p, f, text = line.split(None, 3)
                out[(p.split('=')[1], f.split('=')[1])] = text
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for a in argv[1:]:
        if a == '--thorough':
            tier = 'thorough'
        elif a.startswith('--only='):
            only = a.split('=', 1)[1]
    verbose = '-v' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    random.seed(seed)
    deadline = time.time() + float(os.environ.get('SX_BUDGET', '400' if tier == 'quick' else '800'))
    t0 = time.time()
    setup_paths()
    sys.dont_write_bytecode = True
    metas, bounds, outside = harness_meta(prop)
    tasks = collections.deque()
    todo = []
    for hi, (name, cases, thorough, covers) in enumerate(metas):
        if only and only not in name:
            continue
        for c in (cases if tier == 'quick' else thorough):
            todo.append((hi, detuple(c), [(([], []), {})]))
    quota_total = 240 if tier == 'quick' else 1200
    quota = max(2, quota_total // max(1, len(todo)))
    tasks.extend(t + (quota,) for t in todo)
    ctxm = multiprocessing.get_context('fork')
    conns = []
    for i in range(min(WORKERS, max(1, os.cpu_count() or 1))):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker_main, args=(b, prop, tier, seed))
        p.daemon = True
        p.start()
        b.close()
        conns.append(a)
    procs = multiprocessing.active_children()
    total = collections.Counter()
    covers = collections.Counter()
    notes, entered = set(), set()
    samples, errors, known = [], [], {}
    perh = collections.Counter()
    nat = NativeProc()
    confirmed, trouble, per_case = [], [], collections.Counter()
    idle, busy = [], {}
    for c in conns:
        try:
            kind, v = c.recv()
        except EOFError:
            kind, v = 'failed', 'worker died'
        if kind == 'failed':
            errors.append(v)
        else:
            idle.append(c)
    done_cases = collections.Counter()
    incomplete = False
    if errors:
        # the code under test (or a harness) cannot even be loaded
        idle = []
    while (tasks and idle) or busy:
        while tasks and idle and not confirmed and not errors:
            c = idle.pop()
            t = tasks.popleft()
            if per_case[t[:2]] > 12:
                notes.add('incomplete: %s%r given up' % (metas[t[0]][0], t[1]))
                idle.append(c)
                continue
            busy[c] = t
            c.send(t)
        if not busy:
            break
        for c in multiprocessing.connection.wait(list(busy), timeout=5):
            t = busy.pop(c)
            try:
                _, r = c.recv()
            except EOFError:
                errors.append('worker died on %r' % (t[:2],))
                continue
            idle.append(c)
            if r['error']:
                errors.append('%r\n%s' % (r['task'], r['error']))
                continue
            left = r['left']
            for v in r['violations']:
                # a counterexample counts if the real code shows it
                v['native'] = nat.run(prop, v)
                if v['native']['outcome'] in CONFIRMS:
                    confirmed.append(v)
                else:
                    trouble.append(v)
                    per_case[t[:2]] += 1
            if left and not confirmed:
                k = max(1, min(len(left), WORKERS))
                chunks = [left[i::k] for i in range(k)] if len(left) < 400 else [left[i::k] for i in range(k)]
                for ch in chunks:
                    tasks.append((t[0], t[1], ch, max(1, t[3] // 4)))
            for k, v in r['stats'].items():
                total[k] += v
            hn = metas[t[0]][0]
            perh[hn] += r['stats']['paths']
            covers.update(dict(('%s:%s' % (hn, k), v) for k, v in r['covers'].items()))
            notes.update('%s: %s' % (hn, n) for n in r['notes'])
            entered.update(r['entered'])
            samples.extend(r['samples'])
            for k, v in r['known'].items():
                known.setdefault(k, v)
        if time.time() > deadline:
            if tasks or busy:
                incomplete = True
                notes.add('incomplete: time budget')
            for p in procs:
                if p.is_alive() and busy:
                    p.terminate()
            break
        if confirmed or errors:
            tasks.clear()
            break
    for c in conns:
        try:
            c.send(None)
        except (OSError, ValueError):
            pass
    explore_s = time.time() - t0

    # native side: replay counterexamples, validate samples
    status = 0
    listed = known_findings()
    for v in trouble[:3]:
        notes.add('incomplete: %s: undecided path: %s' % (v['harness'], v['message'].splitlines()[0][:200]))
    if trouble and os.environ.get('SX_STRICT'):
        for v in trouble:
            errors.append('counterexample does not reproduce natively (%s %s): %s%r %s %r\n%s' % (
                v['native']['outcome'], v['native']['message'], v['harness'], tuple(v['case']), v['message'],
                v['inputs'], v['trace']))
    findings = []
    for fid, hit in sorted(known.items()):
        r = nat.run(prop, hit)
        if (prop, fid) not in listed:
            hit.update(message='finding %s is not listed: %s' % (fid, hit['message']), native=r, trace='')
            if any(f == fid for f, _ in r['known']):
                confirmed.append(hit)
            else:
                errors.append('finding %s does not reproduce' % fid)
        elif any(f == fid for f, _ in r['known']):
            findings.append(fid)
        else:
            errors.append('listed finding %s does not reproduce natively: %r' % (fid, r))
    rng = random.Random(seed)
    rng.shuffle(samples)
    validated, differ, shown = 0, 0, []
    limit = time.time() + (40 if tier == 'quick' else 200)
    if not confirmed:
        for s in samples:
            if time.time() > limit:
                break
            r = nat.run(prop, s)
            if r['outcome'] in CONFIRMS:
                confirmed.append(dict(s, message=r['message'], native=r, trace=''))
                break
            if r['outcome'] != 'held' or r['observed'] != s['observed']:
                differ += 1
                notes.add('incomplete: %s: encoding differs from a real run' % s['harness'])
                if os.environ.get('SX_STRICT'):
                    errors.append('encoding differs from the real run on %s%r %r:\n symbolic %r\n native   %r %s %s' % (
                    s['harness'], tuple(s['case']), s['inputs'], s['observed'], r['observed'], r['outcome'],
                    r['message']))
                continue
            validated += 1
            if len(shown) < 5:
                shown.append(dict(harness=s['harness'], case=s['case'], inputs=s['inputs'], observed=s['observed']))
    nat.close()

    if differ > validated:
        errors.append('the encoding differs from the real code on %d of %d paths' % (differ, differ + validated))
    if not confirmed and not errors and not incomplete:
        for name, cases, thorough, cov in metas:
            if only and only not in name:
                continue
            if not perh[name]:
                errors.append('vacuous: no path of %s was completed' % name)
            for c in cov:
                if trouble or total['dropped_limit']:
                    continue
                if not covers['%s:%s' % (name, c)]:
                    errors.append('vacuous: %s never reached "%s"' % (name, c))
    if confirmed:
        status = 1
    elif errors:
        status = 2
    wall = time.time() - t0
    coverage = dict(
        states=total['paths'], transitions=total['branches'], traces_validated_against_impl=validated,
        samples=shown or [dict(harness=v['harness'], case=v['case'], inputs=v['inputs']) for v in confirmed[:3]]
        or ['none'],
        exhaustive=not incomplete and not any(n.split(': ', 1)[-1].startswith('incomplete') for n in notes),
        paths=total['paths'], paths_assumed_away=total['dropped'],
        obligations=total['obligations'], obligations_decided_by_solver=total['obligations_solver'],
        obligations_folded_to_constants=total['obligations_folded'],
        queries=total['solver.queries'], solver_s=round(total['solver.seconds'], 3),
        queries_unknown=total['unknown'], branch_sides_refuted=total['forced'],
        second_solver_queries=total['second_solver'],
        functions_encoded=sorted(entered), bounds=bounds, outside_the_bounds=outside,
        paths_per_harness=dict(perh), covers=dict(covers), notes=sorted(notes), explore_s=round(explore_s, 2),
        known_findings=findings, paths_undecided=len(trouble), paths_whose_encoding_differs=differ,
        solvers=['z3-new -in'] + (['cvc5'] if total['second_solver'] else []),
        rule='a state is a completed path of a harness: one class of inputs over which every branch of the '
             'instrumented code goes the same way; a transition is one branch side put to the solver',
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=coverage,
              assumptions=['the models of builtins in sx/ agree with the interpreter (validated on '
                           '%d sampled paths of this run by native re-execution)' % validated],
              wall_s=round(wall, 2), violations=len(confirmed))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1, sort_keys=True, default=str)
    print('%s %s: %d paths (%d dropped), %d obligations (%d by solver), %d queries, %d unknown, %.1f s solver, '
          '%d validated natively, %.1f s' % (
              prop, tier, total['paths'], total['dropped'], total['obligations'], total['obligations_solver'],
              total['solver.queries'], total['unknown'], total['solver.seconds'], validated, wall))
    if verbose:
        print(json.dumps(dict(perh), indent=1), json.dumps(dict(covers), indent=1), '\n'.join(sorted(notes)))
    for n in sorted(notes):
        if 'incomplete' in n or 'concretised' in n:
            print('NOTE ' + n)
    for fid in findings:
        print('KNOWN-FINDING: property=%s finding=%s %s' % (prop, fid, listed[(prop, fid)]))
    if confirmed:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for i, v in enumerate(confirmed[:3]):
            path = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, i))
            with open(path, 'w') as fo:
                json.dump(dict(property=prop, harness=v['harness'], case=v['case'], inputs=v['inputs'],
                               message=v['message'], native=v['native'], symbolic_trace=v['trace']), fo, indent=1)
            print('counterexample (%s%r): %s' % (v['harness'], tuple(v['case']), v['message']))
            print('  inputs: %s' % json.dumps(v['inputs']))
            print('  native: %s %s' % (v['native']['outcome'], v['native']['message']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
    for x in errors[:6]:
        print('ERROR %s' % x)
    sys.stdout.flush()
    os._exit(status)


if __name__ == '__main__':
    main(sys.argv[1:])
