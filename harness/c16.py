"""C16: longman_tide_prediction."""
import datetime as dt
import numgen
from vlib import Check, call


def stamp(rng):
    y = rng.choice([1900, 1959, 1970, 2000, 2016, 2022, 2022, 2023, 2100, 2400, rng.randrange(1860, 2400), rng.randrange(1990, 2040)])
    m = rng.randrange(1, 13)
    d = rng.randrange(1, 29) if rng.random() < .8 else {1: 31, 2: 29 if (y % 4 == 0 and y % 100) or y % 400 == 0 else 28, 4: 30, 12: 31}.get(m, 30)
    h, mi, s = rng.choice([(0, 0, 0), (12, 0, 0), (23, 59, 59), (rng.randrange(24), rng.randrange(60), rng.randrange(60))])
    off = rng.choice([0, 0, 3600, -5 * 3600, 5 * 3600 + 1800, 14 * 3600, -12 * 3600, rng.randrange(-86399, 86400)])
    return [y, m, d, h, mi, s, off]


class C(Check):
    pid = 'C16'
    trace = ('TraceTide', 'TraceTide.cfg')
    note = ('TLC checks the calendar used for the instant day by day from 1850 to 2410; every sample of seeded calls (all longitudes, poles, '
            'altitudes, dates 1860-2400, time zones, containers) is recomputed from Longman\'s formulas in exact arithmetic, to 1e-9 mGal.')
    assumptions = ['times carry a time zone; fractions of a second are ignored by the code and not generated', 'tolerance 1e-9 mGal']

    def mc(self, tier):
        return [('MC_Calendar', 'MC_Calendar.cfg', {'workers': 1})]

    def cases(self, rng, tier, scen):
        out = []
        def make(n):
            lon = [rng.choice([0, 180, -180, 90, 360, 270, -360, rng.uniform(-360, 360), rng.uniform(-180, 180), rng.uniform(-180, 180)]) for _ in range(n)]
            lat = [rng.choice([0, 90, -90, 45, rng.uniform(-90, 90), rng.uniform(-90, 90)]) for _ in range(n)]
            alt = rng.choice([None, 0, 1000, 'array'])
            times = [stamp(rng) for _ in range(n)]
            if n > 1 and rng.random() < .3:
                times[1:] = [times[0]] * (n - 1)
            return (dict(kind='call', lon=lon, lat=lat, times=times, comp=rng.random() < .5, alt=alt,
                            alts=[rng.choice([0, 5.5, -10, 12000, rng.uniform(-100, 9000)]) for _ in range(n)],
                            how=rng.choice(['array', 'series', 'readonly', 'strided']), tkind=rng.choice(['list', 'array', 'series', 'index', 'stamp'])))
        out += [make(rng.choice([0, 1, 2, 3, 5])) for i in range(300 if tier == 'quick' else 2500)]
        for n in [20, 60, 500, 1500, 90000] if tier == 'quick' else [20, 60, 100, 500, 1000, 1500, 5000, 9000, 90000] * 4:
            out.append(numgen.long_case(rng, make, n, 8))
            out[-1]['comp'] = out[-1]['comp'] or n in (60, 90000)
        for a, b, c in [(2, 3, 3), (3, 2, 3), (3, 3, 2), (0, 1, 1), (1, 1, 0)]:
            out.append(dict(kind='mismatch', lon=[1.0] * a, lat=[2.0] * b, times=[stamp(rng) for _ in range(c)], comp=False, alt=None, alts=[],
                            how='array', tkind='list'))
        return out

    def observe(self, case):
        import numpy as np
        import pandas as pd
        import shipgrav.grav as sgg
        t = [dt.datetime(*w[:6], tzinfo=dt.timezone(dt.timedelta(seconds=w[6]))) for w in case['times']]
        k = case['tkind']
        if k == 'array':
            a = np.empty(len(t), dtype=object)
            a[:] = t
            t = a
        elif k == 'series':
            t = pd.Series(t, dtype=object)
        elif k == 'stamp':
            t = [pd.Timestamp(x) for x in t]
        elif k == 'index' and t:
            t = pd.DatetimeIndex([pd.Timestamp(x).tz_convert('UTC') for x in t])
        lon, lat = numgen.pack(case['lon'], case['how']), numgen.pack(case['lat'], case['how'])
        n = len(case['times'])
        kw, alts = {}, [0] * n
        if case['alt'] == 'array':
            kw['alt'], alts = numgen.pack(case['alts'], case['how']), case['alts']
        elif case['alt'] is not None:
            kw['alt'], alts = case['alt'], [case['alt']] * n
        if case['comp']:
            kw['return_components'] = True
        st, r = call(sgg.longman_tide_prediction, lon, lat, t, **kw)
        req = dict(lon=numgen.arr(case['lon']), lat=numgen.arr(case['lat']), alt=numgen.arr(alts), times=case['times'], comp=case['comp'])
        obs = dict(kind=st, g0=[], gm=[], gs=[])
        if st == 'ok':
            if isinstance(r, tuple) and len(r) == 3 and case['comp']:
                obs = dict(kind='triple', g0=numgen.arr(r[0]), gm=numgen.arr(r[1]), gs=numgen.arr(r[2]))
            elif not isinstance(r, tuple):
                obs = dict(kind='array', g0=numgen.arr(r), gm=[], gs=[])
            else:
                obs['kind'] = 'other'
        numgen.judged(case, req, ('lon', 'lat', 'alt', 'times'), obs, ('g0', 'gm', 'gs'), n)
        return dict(req=req, obs=obs)


CHECK = C()
