"""C30: from a profile of free-air anomaly to the (residual) mantle Bouguer anomaly."""
import numgen
from vlib import Check, call
from c21 import relief

KEYS = ('rhow', 'rhos', 'rhoc', 'rhom', 'a', 'Tm', 'kappa', 'u', 'crust')


def case(rng, big=False):
    n = rng.choice([3, 4, 5, 6]) if not big else rng.choice([8, 9])
    dx = rng.choice([1000.0, 2000.0, 5000.0, 10000.0, 1234.5])
    base = rng.choice([-3000.0, -2500.0, -4000.0, -100.0])
    dep = [min(-10.0, v) for v in relief(rng, n, base)] if rng.random() < .8 else relief(rng, n, base)
    sed = rng.choice([[0.0] * n, [rng.uniform(0, 500) for _ in range(n)], numgen.walk(rng, n, 100.0, 20)])
    time = rng.random() < .7
    mid = rng.randrange(n)
    if time:
        age = rng.choice([[abs(j - mid) * dx / 1e4 for j in range(n)], [rng.uniform(0, 80) for _ in range(n)], [rng.uniform(0, 2) + .3 * j for j in range(n)], [10.0] * n])
    else:
        age = rng.choice([[(j - mid) * dx for j in range(n)], [dx * (j + rng.uniform(0, 5)) for j in range(n)], [-dx * j for j in range(n)]])
    Tm = rng.choice([1350, 1350, 1300, 1200.0])
    m = rng.choice([2, 3, 4]) if not big else 6
    T = [Tm * j / m for j in range(m + 1)] if rng.random() < .7 else sorted(rng.sample(range(0, int(Tm) - 40, 10), m)) + [Tm]
    if time and rng.random() < .5:
        T = [int(t) for t in T]
        T[-1] = Tm
    return dict(kind='age' if time else 'distance', x=[j * dx for j in range(n)], dep=dep, sed=sed, age=age, time=time, T=T, Tm=Tm, faa=rng.choice([[0.0] * n, numgen.walk(rng, n, rng.uniform(-50, 50), 20)]),
                rhow=rng.choice([1000, 1030.0]), rhos=rng.choice([2100, 2000.0, 2300]), rhoc=rng.choice([2900, 2700.0]), rhom=rng.choice([3300, 3330.0]),
                a=rng.choice([3e-5, 3.28e-5]), kappa=rng.choice([1e-6, 8e-7]), u=rng.choice([.01, .05, .002]), crust=rng.choice([6000, 6000, 7000.0, 1500]),
                deflt=rng.random() < .5, how=rng.choice(['array', 'array', 'readonly', 'strided', 'series']))


class C(Check):
    pid = 'C30'
    trace = ('TraceBouguer', 'TraceBouguer.cfg')
    note = ('TLC strips up to two interfaces of every shape from whole-number profiles: each counted once, flat ones without effect, opposites cancelling. Seeded profiles '
            'are then reduced with the real functions as in the example, and the specification, building interfaces and isotherms itself, '
            'recomputes both anomalies with exact arithmetic, to the rounding bound of the FFT.')
    assumptions = ['profiles of up to 9 points, up to 6 isotherms of the half space']

    def mc(self, tier):
        return [('MC_Bouguer', 'MC_Bouguer.cfg', {})]

    def cases(self, rng, tier, scen):
        q = tier == 'quick'
        return [case(rng) for _ in range(60 if q else 900)] + [case(rng, True) for _ in range(3 if q else 40)]

    def observe(self, case):
        st, r = call(process, case)
        e = numgen.arr
        req = {x: e([float(case[x])])[0] for x in KEYS}
        req.update({x: e(case[x]) for x in ('x', 'dep', 'sed', 'age', 'T', 'faa')}, time=case['time'])
        obs = dict(kind=st, mba=[], rmba=[])
        if st == 'ok':
            try:
                obs = dict(kind='profiles', mba=e(r[0]), rmba=e(r[1]))
            except Exception:
                obs['kind'] = 'other'
        return dict(req=req, obs=obs)


def process(case):
    """what a user does, after example-scripts/RMBA_calc.py"""
    import numpy as np
    import shipgrav.grav as sgg
    p = lambda v: numgen.pack(v, case['how'])
    x, dep, sed, age, faa = (p(case[c]) for c in ('x', 'dep', 'sed', 'age', 'faa'))
    if case['how'] == 'series':
        x, dep, sed, age, faa = (v.values for v in (x, dep, sed, age, faa)) if case['deflt'] else (x.values, dep.values, sed.values, age, faa.values)
    T = np.array(case['T'])
    rho = np.array((case['rhow'], case['rhos'], case['rhoc']))
    drho = np.diff(np.append(rho, case['rhom'] * (1 - case['a'] * (T - case['Tm']))))
    kw = dict(Tm=case['Tm'], a=case['a'], k=case['kappa'], rhom=case['rhom'], rhow=case['rhow'])
    if not case['time'] or not case['deflt']:
        kw['u'] = case['u']
    if case['time']:
        kw['time'] = True
    crust = case['crust']
    mba = faa - sgg.grav1d_padded(x, dep, 0, drho[0]) - sgg.grav1d_padded(x, dep - sed, 0, drho[1]) - sgg.grav1d_padded(x, dep - sed - crust, 0, drho[2])
    corrs = np.zeros((len(T) - 1, len(x)))
    for i in range(len(T) - 1):
        ziso, _ = sgg.therm_Z_halfspace(age, T[i], **kw)
        corrs[i, :] = sgg.grav1d_padded(x, np.asarray(dep - sed - ziso - crust), 0, drho[i + 3])
    return np.asarray(mba), np.asarray(mba - np.sum(corrs, axis=0))


CHECK = C()
