"""C17: eotvos_full and center_diff."""
import math
import numbers
import numgen
from vlib import Check, call


def series(rng, n, start, step):
    k = rng.choice(['walk', 'line', 'quad', 'still', 'sin', 'spike'])
    if k == 'walk':
        return numgen.walk(rng, n, start, step)
    if k == 'still':
        return [start] * n
    if k == 'line':
        return [start + step * i for i in range(n)]
    if k == 'quad':
        return [start + step * i + 0.3 * step * i * i for i in range(n)]
    if k == 'sin':
        w = rng.uniform(.1, 3)
        return [start + step * math.sin(w * i) for i in range(n)]
    v = [start] * n
    v[rng.randrange(n)] += 3 * step
    return v


class C(Check):
    pid = 'C17'
    trace = ('TraceEotvos', 'TraceEotvos.cfg')
    note = ('TLC checks on a grid that rest gives zero, the equatorial closed form, the sign of heave and the even part, and that centred '
            'differences are exact for quadratics; seeded tracks (all latitudes, speeds, heights, rates, ellipsoids) are judged sample by sample.')
    assumptions = ['tolerance 1e-5*max(1, samp^2) mGal plus 1e-10 relative (floating-point noise of second differences)']

    def mc(self, tier):
        return [('MC_Eotvos', 'MC_Eotvos.cfg', {}), ('MC_CentreDiff', 'MC_CentreDiff.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        q = tier == 'quick'
        for i in range(607 if q else 6100):
            n = rng.choice([3, 3, 4, 5, 8, 14])
            long = i >= (600 if q else 6000)           # a window of a long track is judged
            if long:
                n = [30, 80, 300, 1000, 2000, 4000, 90000][(i + 2) % 7]
            lat0 = rng.choice([0.0, 90.0, -90.0, 45.0, rng.uniform(-90, 90), rng.uniform(-90, 90)])
            lon0 = rng.choice([0.0, 179.9999, -180.0, 359.0, rng.uniform(-180, 360)])
            s = rng.choice([1e-5, 1e-4, 1e-4, 1e-2, 1])
            rest = rng.random() < .1
            h = rng.choice([0, 0, rng.uniform(-50, 50), 10000])
            out.append(dict(kind='rest' if rest else 'track', fun='eotvos', rest=rest,
                            lon=[lon0] * n if rest else series(rng, n, lon0, s), lat=[lat0] * n if rest else series(rng, n, lat0, s),
                            ht=[h] * n if rest else series(rng, n, h, rng.choice([0, 1, 100])),
                            samp=rng.choice([1, 1, 2, 10, 0.1, 0.5, 1.0]), how=rng.choice(['array', 'readonly', 'strided']),
                            ell=rng.choice([None, None, [6378137.0, 6378137.0], [6378388.0, 6356911.946], [3396190.0, 3376200.0]])))
            if long:
                out[-1].update(kind='long', at=rng.choice([0, n - 12, rng.randrange(n - 12)]))
        for i in range(250 if q else 2000):
            n = rng.choice([3, 4, 6, 12])
            out.append(dict(kind='diff', fun='diff', y=series(rng, n, rng.uniform(-100, 100), rng.choice([1, 1e-4, 1000])), n=1 + i % 2,
                            samp=rng.choice([1, 2, 10, 0.1, 0.5]), how=rng.choice(['array', 'readonly', 'strided'])))
        for i in range(12 if q else 60):
            n = rng.choice([3, 4, 6, 12])
            out.append(dict(kind='badorder', fun='diff', y=series(rng, n, rng.uniform(-100, 100), 1), n=rng.choice([0, 3, 4, -1, 10]),
                            samp=rng.choice([1, 2, 10]), how='array'))
        return out

    def observe(self, case):
        import shipgrav.grav as sgg
        e = numgen.arr
        if case['fun'] == 'diff':
            st, r = call(sgg.center_diff, numgen.pack(case['y'], case['how']), case['n'], case['samp'])
            req = dict(fun='diff', y=e(case['y']), n=case['n'], samp=e([case['samp']])[0])
        else:
            p = [numgen.pack(case[x], case['how']) for x in ('lon', 'lat', 'ht')]
            ell = case['ell']
            if ell:
                st, r = call(sgg.eotvos_full, *p, case['samp'], a=ell[0], b=ell[1])
            else:
                st, r = call(sgg.eotvos_full, *p, case['samp'])
                ell = [6378137.0, 6356752.3142]
            req = dict(fun='eotvos', lon=e(case['lon']), lat=e(case['lat']), ht=e(case['ht']), samp=e([case['samp']])[0],
                       a=e(ell)[0], b=e(ell)[1], rest=case['rest'])
        obs = dict(kind=st, y=[])
        if st == 'ok':
            try:
                if isinstance(r, numbers.Number) and r == -999:
                    obs['kind'] = 'sentinel'
                else:
                    obs = dict(kind='array', y=e(r))
            except Exception:
                obs['kind'] = 'other'
        if 'at' in case:                # twelve samples; the code's first and last are copies of their neighbours
            n, a, b = len(case['lon']), case['at'], case['at'] + 12
            for k in ('lon', 'lat', 'ht'):
                req[k] = req[k][a:b]
            if len(obs['y']) == n:
                y = obs['y'][a:b]
                obs['y'] = [y[0] if a == 0 else y[1]] + y[1:-1] + [y[-1] if b == n else y[-2]]
            elif obs['y']:
                obs['kind'] = 'lengths'
        return dict(req=req, obs=obs)


CHECK = C()
