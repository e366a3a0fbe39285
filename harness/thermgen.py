"""Inputs of the thermal models (C24, C25)."""
import numgen

DEF = dict(u=0.01, Tm=1350, rhom=3300, rhow=1000, a=3e-5, kappa=1e-6, L=100e3)
NAMES = dict(u='u', Tm='Tm', rhom='rhom', rhow='rhow', a='a', kappa='k', L='zL0')


def material(rng, L):
    """constants: all default, all given or a random subset"""
    m = dict(u=rng.choice([0.02, 0.005, 0.1, rng.uniform(.001, .2)]), Tm=rng.choice([1300, 1350.0, 1273.15, rng.uniform(800, 1700)]),
             rhom=rng.choice([3300, 3330.0, rng.uniform(2900, 3500)]), rhow=rng.choice([1000, 1030.0, 0, rng.uniform(900, 1100)]),
             a=rng.choice([3e-5, 6e-5, 3.28e-5, rng.uniform(1e-6, 1e-4)]), kappa=rng.choice([1e-6, 2e-6, 8e-7, rng.uniform(3e-7, 5e-6)]))
    if L:
        m['L'] = rng.choice([95e3, 125000, 106e3, 100e3, rng.uniform(2e4, 2e5)])
    p = rng.choice([0, .5, 1])
    return {k: v for k, v in m.items() if rng.random() < p}


def ages(rng, n, time, old):
    lim = old if time else old * 1e4
    sp = [0.0, 1.0, 10.0, 80.0, 100.0] if time else [0.0, 1000.0, -1000.0, 50e3, -2e5, 1e6]
    if time:
        return [rng.choice(sp) if rng.random() < .3 else rng.uniform(0, lim) ** rng.choice([1, .5]) for _ in range(n)]
    return [rng.choice(sp) if rng.random() < .3 else rng.uniform(-lim, lim) for _ in range(n)]


def request(case):
    e = lambda v: numgen.arr([v])[0]
    q = dict(DEF)
    q.update(case['m'])
    q = {k: e(float(v)) for k, v in q.items()}
    q.update(fun=case['fun'], time=bool(case['time']), x=numgen.arr(case['x']), z=numgen.arr(case.get('z', [])), T=numgen.arr(case.get('T', [])),
             minz=e(float(case.get('minz', 0))), maxz=e(float(case.get('maxz', 100e3))), zsp=e(float(case.get('zsp', 100))))
    return q


def kwargs(case):
    kw = {NAMES[k]: v for k, v in case['m'].items()}
    if case['time'] is not None:
        kw['time'] = case['time']
    return kw


def pair(st, r):
    """(array, array) of a model into an observation"""
    import numpy as np
    obs = dict(kind=st, shape=[], T=[], W=[])
    if st == 'ok':
        try:
            a, b = r
            obs = dict(kind='ok', shape=list(np.shape(a)), T=numgen.arr(a), W=numgen.arr(b))
        except Exception as ex:
            obs['kind'] = 'other-' + type(ex).__name__
    return obs


def packx(x, how):
    import numpy as np
    if how == 'int':
        return np.array([int(v) for v in x])
    return numgen.pack(x, how)


def large(rng, case, z, time, nx, nz):
    """the case with nx ages and nz depths (0: as they are), judged at a sample of the rows and columns, first and last included"""
    some = lambda n, k: sorted({0, n - 1, n // 2} | set(rng.sample(range(n), min(k, n))))
    if nx:
        case['x'] = ages(rng, nx, time, 180)
    if nz:
        case[z] = [rng.uniform(0, max(case[z]) + 1) for _ in range(nz)]
    case['cols'], case['rows'] = some(len(case['x']), 3), some(len(case[z]), 3)
    case['over'] = z
    return case


def judged(case, req, obs):
    """keep the sampled rows and columns; a table of another shape stays and shows"""
    if 'cols' not in case:
        return dict(req=req, obs=obs)
    z = case['over']
    nz, nx = len(req[z]), len(req['x'])
    table = len(obs['T']) == nz * nx and obs['shape'] == [nz, nx]
    curve = len(obs['T']) == nx and obs['shape'] == [nx]
    if len(obs['W']) in (nx, 0) and (table or curve):
        obs['W'] = [obs['W'][c] for c in case['cols'] if obs['W']]
        obs['T'] = [obs['T'][r * nx + c] for r in (case['rows'] if table else [0]) for c in case['cols']]
        if table:
            obs['shape'] = [len(case['rows']), len(case['cols'])]
    req['x'] = [req['x'][c] for c in case['cols']]
    if table:
        req[z] = [req[z][r] for r in case['rows']]
    return dict(req=req, obs=obs)
