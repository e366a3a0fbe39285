"""C11: gaussian_filter."""
import num
from vlib import Check, call


def vector(rng, n, kind):
    if kind == 'noise':
        a = rng.choice([1, 1000, 980000, 1e-3])
        return [rng.uniform(-a, a) for _ in range(n)]
    x = [0.0] * n
    if kind == 'impulse':
        for _ in range(rng.choice([1, 2])):
            x[rng.choice([0, n - 1, rng.randrange(n)])] += rng.choice([1.0, -2.5])
    elif kind == 'constant':
        return [rng.choice([1.0, 979000.25])] * n
    elif kind == 'step':
        for i in range(rng.randrange(n), n):
            x[i] = 3.0
    elif kind == 'spikes':
        a = rng.choice([0.0, 979000.0, 1e-6, -3.0])
        x = [a + rng.choice([0, rng.uniform(-1, 1)]) for _ in range(n)]
        for _ in range(rng.randrange(1, 4)):
            x[rng.randrange(n)] = rng.choice([1e7, -1e9, 2.5e12, 0.0, 1e-9, -999.0])
        return x
    elif kind == 'ints':
        return [rng.randrange(-1000, 1000) for _ in range(n)]
    return x


class C(Check):
    pid = 'C11'
    trace = ('TraceGauss', 'TraceGauss.cfg')
    note = ('TLC checks convolution form and constant gain of the GaussFilter machine exhaustively over small integer taps and series; '
            'the real filter is compared sample by sample (1e-12 of the input range) with the same machine run on exact taps.')
    assumptions = ['samples finite or missing']

    def mc(self, tier):
        return [('MC_GaussFilter', 'MC_GaussFilter.cfg', {})]

    def cases(self, rng, tier, scen):
        q = tier == 'quick'
        out = []
        for fl in range(1, 26):                    # every short length
            for kind in ['noise', 'impulse', 'constant', 'step', 'ints'] if not q else rng.sample(
                    ['noise', 'impulse', 'constant', 'step', 'ints'], 3):
                n = fl + rng.choice([1, 2, 5, 12])
                out.append(dict(kind=kind, fl=fl, x=vector(rng, n, kind)))
        for fl in ([30, 41, 64, 99, 120, 240, 301, rng.choice([360, 361, 400, 500])] if q else list(range(26, 200)) + [240, 301, 480, 481]):
            for _ in range(2):
                n = fl + rng.choice([1, 3, 40, fl + 10])
                out.append(dict(kind='impulse', fl=fl, x=vector(rng, n, 'impulse')))
            if fl >= 99:                           # whole numbers, as whole numbers
                x = [0] * (fl + 20)
                x[rng.randrange(8)] = rng.choice([1, -3, 1000])
                out.append(dict(kind='ints', fl=fl, x=x))
        for _ in range(20 if q else 60):           # refused
            fl = rng.choice([1, 2, 5, 10, 50])
            out.append(dict(kind='refused', fl=fl, x=vector(rng, max(0, fl - rng.choice([0, 0, 1, 3])), 'noise')))
        for _ in range(60 if q else 400):
            fl = rng.choice([3, 4, 5, 6, 7, 8, 10, 12])
            n = fl + rng.randrange(1, 40)
            out.append(dict(kind='random', fl=fl, x=vector(rng, n, rng.choice(['noise', 'ints', 'step']))))
        for _ in range(80 if q else 400):
            fl = rng.choice([2, 3, 5, 8, 11, 16])
            out.append(dict(kind='spikes', fl=fl, x=vector(rng, fl + rng.randrange(1, 60), 'spikes')))
        for _ in range(50 if q else 300):          # missing samples
            fl = rng.choice([1, 2, 3, 5, 8, 11, 16])
            x = vector(rng, fl + rng.randrange(1, 60), rng.choice(['noise', 'constant', 'spikes', 'step']))
            for _ in range(rng.randrange(1, 4)):
                x[rng.choice([0, len(x) - 1, rng.randrange(len(x)), rng.randrange(len(x))])] = float('nan')
            out.append(dict(kind='missing', fl=fl, x=x))
        for n in ([700, 4500] if q else [700, 1500, 3000, 4500, 9000]):
            out.append(dict(kind='long', fl=rng.choice([5, 8, 9]), x=vector(rng, n, rng.choice(['spikes', 'noise']))))
        for at in [0] + [None] * (2 if q else 12):         # a day at 1 Hz; a stretch behind fl zeros is judged
            n, fl = 90000, rng.choice([5, 8, 20])
            a = rng.randrange(fl, n - 60) if at is None else 0
            x = vector(rng, n, 'noise')
            x[max(0, a - fl - 2):a] = [0.0] * (a - max(0, a - fl - 2))
            out.append(dict(kind='day', fl=fl, x=x, at=a))
        for c in out:
            c['form'] = rng.choice(['array', 'array', 'list', 'series'])
        return out

    def observe(self, case):
        import numpy as np
        import pandas as pd
        import shipgrav.utils as sgu
        x = list(case['x'])
        if case['form'] == 'array':
            x = np.array(x)
        elif case['form'] == 'series':
            x = pd.Series(x)
        st, r = call(sgu.gaussian_filter, x, case['fl'])
        obs = dict(kind=st, y=[])
        if st == 'ok':
            try:
                obs = dict(kind='array', y=num.nums(np.asarray(r, dtype=float).ravel()))
            except Exception:
                pass
        x = case['x']
        if 'at' in case and obs['kind'] == 'array':
            x = x[case['at']:case['at'] + 60]
            obs = dict(kind='array', y=obs['y'][case['at']:case['at'] + 60]) if len(obs['y']) == len(case['x']) else dict(kind='lengths', y=[])
        return dict(req=dict(fl=case['fl'], x=[num.num(v) for v in x]), obs=obs)


CHECK = C()
