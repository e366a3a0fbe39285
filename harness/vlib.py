"""Common machinery of the checks: run the real code on cases, have TLC judge the traces.

A property module (harness/cNN.py) defines a Check object:
  mc(tier)            list of MC runs: (module, cfg, opts) checked exhaustively by TLC
  cases(rng, tier, scen)  list of JSON-able inputs; scen = scenarios printed by the MC runs
  observe(case)       run the real code (in a worker process) and return the trace record
  trace               (module, cfg) of the trace specification
A trace specification reads the records from IOEnv.TRACE and prints, for every record k,
  <<"VERDICT", k, {names of failing clauses}>>
"""
import os, sys, json, time, random, re, shutil, subprocess, tempfile, signal, traceback
import multiprocessing as mp
from multiprocessing import connection

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('SHIPGRAV_REPO', '/repo')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 1)
START = 'spawn'
MEMORY = 3 << 30            # what a process running the code may allocate


EVAL_ERRORS = ('Attempted to', 'The exception was', 'evaluating the expression', 'was not in the domain',
               'In applying', 'Evaluating ')


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workers=NPROC, timeout=800, extra=(), heap='6g'):
    """Run TLC; returns dict with output lines, generated and distinct states."""
    meta = tempfile.mkdtemp(prefix='vtlc-')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', CP,
           'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-lncheck', 'final',
           '-metadir', meta, '-config', cfg] + list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out after %ds on %s/%s' % (timeout, module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    r = dict(out=out, rc=rc, wall=time.time() - t0, generated=int(m.group(1)) if m else 0,
             distinct=int(m.group(2)) if m else 0)
    return r


def printed(out, tag):
    """lines printed by PrintT(ToJson([tag |-> ...])) -> python objects"""
    res = []
    for ln in out.splitlines():
        if ln.startswith('"{') and tag in ln[:40]:
            res.append(json.loads(json.loads(ln)))
    return res


_verdict = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*(\{.*?\})\s*>>', re.S)


def verdicts(out):
    v = {}
    for m in _verdict.finditer(out):
        v[int(m.group(1))] = sorted(re.findall(r'"([^"]+)"', m.group(2)))
    return v


def tlc_mc(module, cfg, timeout=800, **kw):
    r = tlc(module, cfg, timeout=timeout, **kw)
    if r['rc'] != 0 or 'No error has been found' not in r['out']:
        raise MachineryError('model checking of %s/%s failed:\n%s' % (module, cfg, r['out'][-3000:]))
    return r


# ---------------------------------------------------------------- running the code under test

def _alarm(sig, frm):
    raise TimeoutError('case took too long')


def _serve(conn, modname, scratch, tmo):
    """a worker: receives (k, case), sends (k, record, error)"""
    sys.dont_write_bytecode = True
    import warnings
    import resource
    warnings.filterwarnings('ignore')
    sys.path.insert(0, os.path.join(ROOT, 'harness'))
    sys.path.insert(0, REPO)
    os.chdir(scratch)
    devnull = open(os.devnull, 'w')
    sys.stdout = sys.stderr = devnull
    import importlib
    mod = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)
    with open('/proc/self/statm') as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    lim = now + MEMORY
    resource.setrlimit(resource.RLIMIT_AS, (lim if hard < 0 else min(lim, hard), hard))
    while True:
        job = conn.recv()
        if job is None:
            return
        for k, case in job:
            d = tempfile.mkdtemp(prefix='c', dir=scratch)
            os.chdir(d)
            rec = err = None
            try:
                signal.setitimer(signal.ITIMER_REAL, tmo)
                try:
                    rec = mod.CHECK.observe(case)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except BaseException:  # the harness' own observe() catches errors of the code under test
                rec, err = None, traceback.format_exc()[-1500:]
            finally:
                os.chdir(scratch)
                shutil.rmtree(d, ignore_errors=True)
            conn.send((k, rec, err))


def call(f, *a, **kw):
    """Call the code under test; ('ok', result) or ('raise', exception class name)."""
    try:
        return 'ok', f(*a, **kw)
    except TimeoutError:
        return 'raise', 'TimeoutError'
    except Exception as e:
        return 'raise', type(e).__name__
    except SystemExit:
        return 'raise', 'SystemExit'


def observe_all(modname, cases, scratch, tmo=20):
    """Run observe() of the module on every case, in worker processes. A case whose worker dies or
    stops answering is tried once more; if that ends the same way it counts as an error."""
    n = len(cases)
    nch = max(1, min(NPROC * 4, n))
    queue = [[(k, cases[k]) for k in range(i, n, nch)] for i in range(nch)]
    ctx = mp.get_context(START)
    res = [None] * n
    tries = {}
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    crew = {}                    # connection -> [process, outstanding jobs, time of the last answer]

    def hire():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(b, modname, scratch, tmo), daemon=True)
        p.start()
        b.close()
        crew[a] = [p, [], time.time()]
        return a

    def give(c):
        if queue:
            job = queue.pop()
            crew[c][1], crew[c][2] = job, time.time()
            try:
                c.send(job)
            except (BrokenPipeError, OSError):
                pass             # found dead below
        else:
            try:
                c.send(None)
            except (BrokenPipeError, OSError):
                pass
            p = crew.pop(c)[0]
            p.join(20)
            if p.is_alive():
                p.kill()
            c.close()

    def fire(c, why):
        p, job, _ = crew.pop(c)
        p.kill()
        p.join()
        c.close()
        if job:
            k = job[0][0]
            tries[k] = tries.get(k, 0) + 1
            if tries[k] > 1:
                res[k] = dict(_error='the process running the code %s' % why)
                job = job[1:]
            elif len(job) > 1:   # the others first, elsewhere
                queue.append(job[1:])
                job = job[:1]
            if job:
                queue.insert(0, job)
            if sum(tries.values()) > 40:
                for q in queue:
                    for k, _ in q:
                        res[k] = dict(_error='not run: the code ended too many processes')
                queue.clear()

    try:
        for _ in range(min(NPROC, nch)):
            give(hire())
        while crew:
            for c in connection.wait(list(crew), timeout=5):
                if c not in crew:
                    continue
                try:
                    k, rec, err = c.recv()
                except (EOFError, OSError):
                    fire(c, 'died')
                    continue
                res[k] = rec if err is None else dict(_error=err)
                w = crew[c]
                w[1] = w[1][1:]
                w[2] = time.time()
                if not w[1]:
                    give(c)
            for c in list(crew):
                if crew[c][1] and time.time() - crew[c][2] > tmo + 60:
                    fire(c, 'did not answer')
            while queue and len(crew) < min(NPROC, nch):
                give(hire())
    finally:
        for p, _, _ in crew.values():
            p.kill()
    for k, r in enumerate(res):
        if r is None:
            raise MachineryError('no observation for case %d' % k)
    return res


# ---------------------------------------------------------------- known findings

def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']


# ---------------------------------------------------------------- main

class Check:
    pid = None
    trace = None            # (module, cfg)
    technique = ''
    case_timeout = 20
    batch = 4000            # records per TLC run
    tlc_timeout = 780
    assumptions = ()

    def mc(self, tier):
        return []

    def trace_for(self, case):
        return self.trace

    def cases(self, rng, tier, scen):
        return []

    def observe(self, case):
        raise NotImplementedError

    # a case that fails only clauses "known:<id>" is a known finding
    def describe(self, case):
        return json.dumps(case)[:600]


def judge(check, cases, records, scratch, stats):
    """Have TLC judge the records. Returns list of failing-clause lists."""
    out = [None] * len(records)
    good = [(i, r) for i, r in enumerate(records) if '_error' not in r]
    for i, r in enumerate(records):
        if '_error' in r:
            out[i] = ['observation-failed']
            stats['errors'].append(r['_error'])
    groups = {}
    for i, r in good:
        groups.setdefault(tuple(check.trace_for(cases[i])), []).append((i, r))
    parts = [(t, g[b:b + check.batch]) for t, g in groups.items() for b in range(0, len(g), check.batch)]
    bad = []                     # records the specification cannot even evaluate
    todo = list(parts)
    while todo:
        (module, cfg), part = todo.pop(0)
        path = os.path.join(scratch, 'trace.json')
        with open(path, 'w') as f:
            json.dump([r for _, r in part], f)
        r = tlc(module, cfg, env={'TRACE': path}, timeout=check.tlc_timeout)
        if r['rc'] != 0 or 'No error has been found' not in r['out']:
            if not any(x in r['out'] for x in EVAL_ERRORS):
                raise MachineryError('trace checking failed:\n' + r['out'][-4000:])
            if len(part) == 1:
                out[part[0][0]] = ['outside-the-domain-of-the-specification']
                bad.append(r['out'][-1500:])
                if len(bad) >= 2:
                    break
                continue
            h = len(part) // 2
            todo = [((module, cfg), part[:h]), ((module, cfg), part[h:])] + todo
            continue
        v = verdicts(r['out'])
        stats['states'] += r['distinct']
        stats['transitions'] += r['generated']
        stats['tlc_s'] += r['wall']
        for j, (i, _) in enumerate(part):
            if j + 1 not in v:
                raise MachineryError('no verdict for record %d\n%s' % (j + 1, r['out'][-2000:]))
            out[i] = v[j + 1]
    stats['errors'] += bad
    return out


def run(check, modname, tier, seed, only=None):
    t0 = time.time()
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='vchk-' + check.pid + '-')
    stats = dict(states=0, transitions=0, tlc_s=0.0, errors=[])
    mcinfo, scen = [], []
    try:
        if only is None:
            for module, cfg, kw in check.mc(tier):
                r = tlc_mc(module, cfg, **kw)
                stats['states'] += r['distinct']
                stats['transitions'] += r['generated']
                mcinfo.append(dict(module=module, cfg=cfg, distinct=r['distinct'], generated=r['generated'],
                                   wall_s=round(r['wall'], 1)))
                scen += [s['SCEN'] for s in printed(r['out'], 'SCEN')]
            # TLC prints scenarios in an order that depends on its threads
            scen.sort(key=lambda s: json.dumps(s, sort_keys=True))
            rng = random.Random(seed * 1000003 + sum(map(ord, check.pid)))
            cases = check.cases(rng, tier, scen)
        else:
            cases = only
        t1 = time.time()
        records = observe_all(modname, cases, scratch, check.case_timeout)
        t2 = time.time()
        verd = judge(check, cases, records, scratch, stats)
        t3 = time.time()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = {k['id']: k for k in known_findings(check.pid)}
    hits, viol = {}, []
    for i, v in enumerate(verd):
        if not v:
            continue
        kn = [x for x in v if x.startswith('known:')]
        if kn and len(kn) == len(v) and all(x[6:] in known for x in kn):
            for x in kn:
                hits.setdefault(x[6:], []).append(i)
        else:
            viol.append((i, v))
    for kid, idx in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (check.pid, known[kid]['what'], len(idx)))
    rdir = os.path.join(ev, 'replay')
    shown = {}
    for i, v in viol:
        key = tuple(v)
        if shown.get(key, 0) >= 2 or sum(shown.values()) >= 6:
            continue
        shown[key] = shown.get(key, 0) + 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (check.pid, i))
        with open(path, 'w') as f:
            json.dump(dict(property=check.pid, clauses=v, case=cases[i],
                           error=records[i].get('_error')), f)
        print('VIOLATION property=%s replay=%s' % (check.pid, path))
        print('  clauses: %s' % ', '.join(v))
        print('  case: %s' % check.describe(cases[i]))
        if records[i].get('_error'):
            print('  ' + records[i]['_error'].strip().splitlines()[-1])
    if only is None:
        nt = len({json.dumps(c, sort_keys=True) for c in cases})
        kinds = {}
        for c in cases:
            kinds[c.get('kind', '-')] = kinds.get(c.get('kind', '-'), 0) + 1
        step = max(1, len(cases) // 3)
        doc = dict(property=check.pid, tier=tier, seed=seed, level='model_checking',
                   coverage=dict(states=stats['states'], transitions=stats['transitions'],
                                 traces_validated_against_impl=len(cases), distinct_cases=nt,
                                 scenarios_from_tlc=len(scen), cases_by_kind=kinds, model_checking_runs=mcinfo,
                                 known_findings_seen={k: len(x) for k, x in hits.items()},
                                 samples=[check.describe(c) for c in cases[::step][:3]],
                                 tlc_trace_s=round(stats['tlc_s'], 1), run_code_s=round(t2 - t1, 1)),
                   assumptions=list(check.assumptions), wall_s=round(time.time() - t0, 1), violations=len(viol))
        with open(os.path.join(ev, check.pid + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)
    print('%s: %d cases, %d TLC states, %d violations, %.1f s (code %.1f s, trace check %.1f s)' % (
        check.pid, len(cases), stats['states'], len(viol), time.time() - t0, t2 - t1, t3 - t2))
    return 1 if viol else 0
