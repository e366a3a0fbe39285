"""C14: latlon_to_EN."""
import math
import numgen
from vlib import Check, call


def track(rng, n):
    k = rng.choice(['poly', 'walk', 'line', 'jump', 'still', 'big', 'sin'])
    lat0, lon0 = rng.choice([0.0, 90.0, -90.0, rng.uniform(-90, 90), rng.uniform(-89, 89)]), rng.choice([rng.uniform(-180, 360), 179.99, 0.0])
    if k == 'still':
        return [lon0] * n, [lat0] * n
    if k == 'line':
        a, b = rng.uniform(-1e-3, 1e-3), rng.uniform(-1e-3, 1e-3)
        return [lon0 + a * i for i in range(n)], [lat0 + b * i for i in range(n)]
    if k == 'walk':
        return numgen.walk(rng, n, lon0, 1e-4), numgen.walk(rng, n, lat0, 1e-4)
    if k == 'jump':
        lo, la = numgen.walk(rng, n, lon0, 1e-4), numgen.walk(rng, n, lat0, 1e-4)
        lo[rng.randrange(n)] += rng.choice([360, -360, 1])
        return lo, la
    if k == 'big':
        return [rng.uniform(-180, 180) for _ in range(n)], [rng.uniform(-90, 90) for _ in range(n)]
    if k == 'sin':
        w = rng.uniform(0.05, 3)
        return [lon0 + math.sin(w * i) for i in range(n)], [lat0 + 0.5 * math.cos(w * i) for i in range(n)]
    d = rng.randrange(1, 11)
    c = [rng.uniform(-1, 1) for _ in range(d + 1)]
    f = lambda i: sum(x * ((i - n / 2) / n) ** j for j, x in enumerate(c))
    return [lon0 + f(i) for i in range(n)], [lat0 * 0.9 + f(i) for i in range(n)]


class C(Check):
    pid = 'C14'
    trace = ('TraceTrack', 'TraceTrack.cfg')
    note = ('TLC shows the differentiator exact for every monomial up to degree ten (and empty at the edges); tracks of every kind, length '
            'from 0 up, sampling rates and containers are then judged value by value with the WGS84 radii, to 2e-7*max(1,freq) m/s + 1e-11.')
    assumptions = ['values are compared with exact arithmetic to 1e-24, tolerance 2e-7*max(1,freq) m/s plus 1e-11 relative']

    def mc(self, tier):
        return [('MC_Taylor', 'MC_Taylor.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        for how in ('array', 'list', 'series', 'readonly', 'strided'):
            for n in list(range(0, 14)) + [21]:
                lo, la = track(rng, max(n, 1))
                out.append(dict(kind='length', lon=lo[:n], lat=la[:n], freq=rng.choice([None, 1, 2.5]), how=how))
        for n, m in [(11, 12), (12, 11), (0, 11), (11, 1), (40, 20), (10, 10), (11, 22)]:
            lo, la = track(rng, 40)
            out.append(dict(kind='mismatch', lon=lo[:n], lat=la[:m], freq=1, how='array'))
        for _ in range(900 if tier == 'quick' else 6000):
            n = rng.choice([11, 12, 13, 16, 20, 25, 30, 60])
            lo, la = track(rng, n)
            out.append(dict(kind='track', lon=lo, lat=la, how=rng.choice(['array', 'array', 'list', 'series', 'readonly', 'strided']),
                            freq=rng.choice([None, 1, 1.0, 0.1, 2, 10, 100, 0.01, rng.uniform(0.1, 50)])))
        for _ in range(160 if tier == 'quick' else 900):
            n = rng.choice([11, 13, 25, 40])
            lo, la = track(rng, n)
            for _ in range(rng.randrange(1, 3)):
                rng.choice([lo, la])[rng.randrange(n)] = float('nan')
            out.append(dict(kind='missing', lon=lo, lat=la, how=rng.choice(['array', 'list', 'series']), freq=rng.choice([None, 1, 10])))
        for n in ([128, 257] if tier == 'quick' else [128, 200, 257, 600, 1025]):      # long runs over many degrees
            for _ in range(2):
                lo, la = numgen.walk(rng, n, rng.uniform(-180, 180), 0.3), [40 * math.sin(0.03 * i) for i in range(n)]
                out.append(dict(kind='long', lon=lo, lat=la, how='array', freq=rng.choice([1, 10])))
        for at in ['first', 'last'] + ['any'] * (2 if tier == 'quick' else 20):      # a day and more at 1 Hz, a stretch of which is judged
            n = 90000
            lo, la = numgen.walk(rng, n, rng.uniform(-180, 180), 1e-4), [50 * math.sin(1e-3 * i) for i in range(n)]
            out.append(dict(kind='day', lon=lo, lat=la, how='array', freq=1, at=dict(first=0, last=n - 40, any=rng.randrange(n - 40))[at]))
        return out

    def observe(self, case):
        import shipgrav.nav as sgn
        lon, lat = numgen.pack(case['lon'], case['how']), numgen.pack(case['lat'], case['how'])
        f = case['freq']
        st, r = call(sgn.latlon_to_EN, lon, lat) if f is None else call(sgn.latlon_to_EN, lon, lat, freq=f)
        req = dict(lon=numgen.arr(case['lon']), lat=numgen.arr(case['lat']), freq=numgen.arr([1 if f is None else f])[0])
        obs = dict(kind=st, vn=[], ve=[])
        if st == 'ok':
            try:
                vn, ve = r
                obs = dict(kind='pair', vn=numgen.arr(vn), ve=numgen.arr(ve))
            except Exception:
                obs['kind'] = 'other'
        if 'at' in case:                # forty samples; in the middle the machine has no rates for the outermost ones
            n, a, b = len(case['lon']), case['at'], case['at'] + 40
            for k in ('lon', 'lat'):
                req[k] = req[k][a:b]
            for k in ('vn', 've'):
                if len(obs[k]) == n:
                    none = numgen.arr([float('nan')])
                    y = obs[k][a:b]
                    obs[k] = (y[:5] if a == 0 else none * 5) + y[5:-5] + (y[-5:] if b == n else none * 5)
                elif obs[k]:
                    obs['kind'] = 'lengths'
        return dict(req=req, obs=obs)


CHECK = C()
