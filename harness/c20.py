"""C20: up_vecs."""
import math
import numgen
from vlib import Check, call

NAN = float('nan')


class C(Check):
    pid = 'C20'
    trace = ('TracePlatform', 'TracePlatform.cfg')
    note = ('TLC runs the two-axis recursion on whole-number filters and inputs (recursion, silence, axes separate, unit length); seeded series '
            'with gaps, NaNs, switched-off stretches, periods, dampings and intervals are then recomputed sample by sample to 1e-10.')
    assumptions = ['series up to 400 samples; of a day at 1 Hz, forty samples behind silence', 'tolerance 1e-10; gravity is not zero']

    def mc(self, tier):
        return [('MC_Platform', 'MC_Platform.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        for i in range(600 if tier == 'quick' else 8000):
            n = rng.choice([1, 2, 3, 5, 9, 16, 30, 60 if i % 5 == 0 else 12]) if i % 120 else 400

            def acc():
                k = rng.choice(['noise', 'step', 'zero', 'sin', 'impulse', 'const', 'late', 'nan'])
                amp = rng.choice([100.0, 5000.0, 50000.0, 1e6])
                if k == 'noise':
                    v = [rng.uniform(-amp, amp) for _ in range(n)]
                elif k == 'sin':
                    w = rng.uniform(.05, 3)
                    v = [amp * math.sin(w * j) for j in range(n)]
                elif k == 'impulse':
                    v = [0.0] * n
                    v[rng.randrange(n)] = amp
                elif k == 'const':
                    v = [amp] * n
                elif k in ('step', 'late'):
                    v = [amp if j >= n // 2 else 0.0 for j in range(n)]
                elif k == 'nan':
                    v = [NAN if rng.random() < .3 else rng.uniform(-amp, amp) for _ in range(n)]
                else:
                    v = [rng.choice([0.0, 0.0, NAN]) for _ in range(n)]
                return v
            silent = rng.random() < .12
            c, l = acc(), acc()
            onoff = [0] * n
            ok = rng.choice(['zero', 'some', 'neg', 'all', 'float'])
            if ok == 'some':
                onoff = [rng.choice([0, 0, 1]) for _ in range(n)]
            elif ok == 'neg':
                onoff = [rng.choice([-1, 0, 1, 2]) for _ in range(n)]
            elif ok == 'float':
                onoff = [rng.choice([0.0, 0.5, -0.5, 1.0]) for _ in range(n)]
            elif ok == 'all' and silent:
                onoff = [1] * n
            if silent and ok != 'all':
                c, l = [0.0] * n, [0.0] * n
            g = [980000.0 + rng.uniform(-3000, 3000) for _ in range(n)]
            if rng.random() < .15:
                g[rng.randrange(n)] = NAN
            dt = rng.choice([1, 1.0, 0.5, 0.1, 2, 10])
            per = lambda: rng.choice([240, 240.0, 60, 3600, 5 * dt, rng.uniform(4.5 * dt, 500 * dt)])
            damp = lambda: rng.choice([0.7071, 0.5, 1, 0.05, 2.0, 0, 0.0, False, rng.uniform(.1, 1.5)])
            out.append(dict(kind='silent' if silent else 'series', silent=silent, c=c, l=l, onoff=onoff, g=g, dt=dt, cper=per(), lper=per(), cdamp=damp(), ldamp=damp(),
                            gscalar=rng.random() < .1, how=rng.choice(['array', 'readonly', 'strided', 'series'])))
        for at in [0, 89960] + [2 * rng.randrange(44980) for _ in range(2 if tier == 'quick' else 12)]:     # a day at 1 Hz, a stretch of which is judged: silence before it
            n = 90000
            quiet = rng.choice([0.0, NAN, 'off'])
            c, l = ([rng.uniform(-3e4, 3e4) for _ in range(n)] for _ in range(2))
            if quiet != 'off':
                c[:at], l[:at] = [quiet] * at, [quiet] * at
            out.append(dict(kind='day', silent=False, c=c, l=l, onoff=[int(quiet == 'off')] * at + [0] * (n - at), g=[980000.0 + rng.uniform(-3000, 3000) for _ in range(n)], dt=1,
                            cper=rng.choice([240, 3600]), lper=rng.choice([60, 240.0]), cdamp=0.7071, ldamp=rng.choice([0.7071, 0.5]), gscalar=False, how='array', at=at))
        return out

    def observe(self, case):
        import numpy as np
        import shipgrav.grav as sgg
        p = lambda v: numgen.pack(v, case['how'])
        g = case['g']
        if case['gscalar']:
            g = [980123.5] * len(g)
        garg = 980123.5 if case['gscalar'] else p(g)
        if case['gscalar']:
            garg = np.float64(garg) * np.ones(len(g))
        onoff = np.array(case['onoff'])
        if case['how'] == 'readonly':
            onoff.setflags(write=False)
        st, r = call(sgg.up_vecs, case['dt'], garg, p(case['c']), p(case['l']), onoff, case['cper'], case['cdamp'], case['lper'], case['ldamp'])
        e = numgen.arr
        one = lambda v: e([v])[0]
        req = dict(cacc=e(case['c']), lacc=e(case['l']), g=e(g), onoff=e(case['onoff']), dt=one(case['dt']), cper=one(case['cper']), lper=one(case['lper']),
                   cdamp=one(float(case['cdamp'])), ldamp=one(float(case['ldamp'])), silent=case['silent'])
        obs = dict(kind=st, up=[])
        if st == 'ok':
            try:
                a = np.asarray(r)
                obs = dict(kind='array' if a.ndim == 2 else 'shape', up=[e(x) for x in a])
            except Exception:
                obs['kind'] = 'other'
        if 'at' in case:
            n, a, b = len(case['c']), case['at'], case['at'] + 40
            for k in ('cacc', 'lacc', 'g', 'onoff'):
                req[k] = req[k][a:b]
            if all(len(v) == n for v in obs['up']):
                obs['up'] = [v[a:b] for v in obs['up']]
            elif obs['up']:
                obs['kind'] = 'lengths'
        return dict(req=req, obs=obs)


CHECK = C()
