"""C19: calc_cross_coupling_coefficients."""
import math, random
import numgen
from vlib import Check, call

NAMES = ['ve', 'vcc', 'al', 'ax', 'lev']
CUTS = ([1000], [1000, 999], [999, 1000], [1000, 1001], [1, 1000], [1000, 1], [1003, 5, 1000], [999, 999, 1000], [1400], [1000, 998, 1000, 2],
        [1000, 1000, 1000], [1, 1, 1, 1000], [1250, 1100],
        [2, 3, 1, 7, 600, 500, 1000], [5, 1, 1, 2, 3, 1, 700, 20, 300, 1000, 999, 4])


class C(Check):
    pid = 'C19'
    trace = ('TraceCross', 'TraceCross.cfg')
    case_timeout = 60
    note = ('TLC checks the section cutter for every gap pattern of up to eleven samples (maximal gap-free runs, order, row numbering); seeded '
            'data sets with section lengths around 1000 and steps around five intervals are judged on sampled rows (each of the six columns, '
            'section edges included), on the row count, on recovered couplings and, on some, on the normal equations of the whole fit.')
    assumptions = ['whole-number channels up to 20000', 'at least one section of 1000 samples', 'rows are sampled (section edges and random ones)']

    def mc(self, tier):
        return [('MC_Sections', 'MC_Sections.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        q = tier == 'quick'
        for i in range(52 if q else 260):
            cut = list(CUTS[i % len(CUTS)])
            if i >= len(CUTS) * 2:
                cut = [rng.choice([1, 3, 500, 999, 1000, 1001, 1000 + rng.randrange(900)]) for _ in range(rng.randrange(1, 5))]
                if max(cut) < 1000:
                    cut.append(1000)
            out.append(dict(kind='cut', seed=rng.randrange(10 ** 9), cut=cut, usetimes=not (len(cut) == 1 and rng.random() < .5), unit=rng.choice([1, 1, .5, .25]),
                            rate=rng.choice([1, 1, 1, 2, 0.5, 10]), edge=rng.random() < .5, signal=rng.choice(['noise', 'smooth', 'steps']),
                            known=rng.choice([True, True, False]), nolevel=rng.random() < .3, nrows=8 if q else 14, ols=i % 4 == 0,
                            how=rng.choice(['array', 'readonly', 'series'])))
        return out

    def build(self, case):
        rng = random.Random(case['seed'])
        n = sum(case['cut'])

        def chan():
            if case['signal'] == 'noise':
                return [rng.randrange(-20000, 20001) for _ in range(n)]
            if case['signal'] == 'steps':
                v, out = 0, []
                for _ in range(n):
                    if rng.random() < .02:
                        v = rng.randrange(-9000, 9000)
                    out.append(v + rng.randrange(-9, 10))
                return out
            w = [(rng.uniform(.002, .06), rng.uniform(0, 6), rng.uniform(500, 6000)) for _ in range(3)]
            return [round(sum(a * math.sin(f * i + p) for f, p, a in w)) for i in range(n)]
        d = {x: chan() for x in NAMES}
        if case['nolevel']:
            d['lev'] = [0] * n
        known = []
        if case['known']:
            known = [rng.choice([-3, -2, -1, 1, 2, 3, 0]) for _ in NAMES]
            g = [-sum(c * d[x][i] for c, x in zip(known, NAMES)) for i in range(n)]
        else:
            g = chan()
        times = []
        if case['usetimes']:
            # ticks: steps inside a section are at most five sample intervals, between sections longer
            lim = 5 * case['rate'] / case['unit']      # a whole number of ticks
            lim = int(lim)
            t = rng.choice([rng.randrange(1000), rng.randrange(10 ** 8)])      # ticks also of a posix clock
            for j, m in enumerate(case['cut']):
                for x in range(m):
                    if x == 0 and j:
                        t += lim + rng.choice([1, 1, rng.randrange(1, 500), 100000] if case['edge'] else [rng.randrange(1, 500), 100000])
                    elif x or j:
                        t += lim if (x in (3, m - 2) and case['edge']) else rng.choice([1, 1, 1, min(2, lim)])
                    times.append(t)
        return d, g, known, times

    def observe(self, case):
        import numpy as np
        import pandas as pd
        import shipgrav.grav as sgg
        d, g, known, ticks = self.build(case)
        rng = random.Random(case['seed'] + 1)
        p = {x: numgen.pack(v, case['how']) for x, v in d.items()}
        kw = {}
        if ticks:
            kw['times'] = np.array(ticks, dtype=float) * case['unit']
        if case['rate'] != 1 or rng.random() < .5:
            kw['samplerate'] = case['rate']
        st, r = call(sgg.calc_cross_coupling_coefficients, numgen.pack(g, case['how']), p['vcc'], p['ve'], p['al'], p['ax'], p['lev'], **kw)
        # rows to judge: around every possible section edge and at random
        secs = [m for m in (case['cut'] if ticks else [sum(case['cut'])]) if m >= 1000]
        total = sum(m - 420 for m in secs)
        marks, a = {1, max(1, total)}, 0
        for m in secs:
            marks |= {a + 1, a + m - 420}
            a += m - 420
        marks = sorted(marks)
        rng.shuffle(marks)
        rows = sorted(set(marks[:case['nrows'] - 2] + [rng.randrange(1, total + 1) for _ in range(2)]))
        req = dict(g=g, known=known, nolevel=case['nolevel'], times=ticks, unit=numgen.arr([case['unit']])[0], rate=numgen.arr([case['rate']])[0],
                   rows=rows, **d)
        obs = dict(kind=st, len=0, vals=[], params=[], all=[])
        if st == 'ok':
            try:
                df, model = r
                cols = [np.asarray(df[x], dtype=float) for x in NAMES + ['g']]
                par = model.params
                obs = dict(kind='fit', len=len(df), vals=[[numgen.arr([c[j - 1]])[0] for c in cols] for j in rows if j <= len(df)],
                           params=[numgen.arr([par[x]])[0] for x in ['const'] + NAMES], all=[])
                if case['ols']:
                    obs['all'] = [numgen.arr(x) for x in zip(*cols)]
            except Exception as e:
                obs['kind'] = 'other-' + type(e).__name__
        return dict(req=req, obs=obs)

    def describe(self, case):
        return str({k: case[k] for k in ('seed', 'cut', 'unit', 'rate', 'edge', 'signal', 'usetimes')})


CHECK = C()
