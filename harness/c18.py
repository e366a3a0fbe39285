"""C18: wgs_grav and free_air_second_order."""
import numgen
from vlib import Check, call


class C(Check):
    pid = 'C18'
    trace = ('TraceNormal', 'TraceNormal.cfg')
    note = ('TLC walks every degree of latitude and 500 m of height and checks growth, sign, zero and the tabulated end values; the real '
            'functions are judged sample by sample to 1e-13 on seeded and special latitudes and heights, scalars and arrays, and for evenness.')
    assumptions = ['tolerance 1e-13 relative (to value and height)']

    def mc(self, tier):
        return [('MC_Normal', 'MC_Normal.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        spec = [0.0, 90.0, -90.0, 45.0, -45.0, 30.0, 1e-6, 89.999999]
        for fun, water in [('wgs', False), ('fa', False), ('fa', True), ('fa', None)]:
            for how in ('scalar', 'int', 'array', 'readonly', 'strided', 'series', 'mixed', 'two'):
                for r in range(16 if tier == 'quick' else 120):
                    n = 1 if how in ('scalar', 'int') else rng.choice([1, 3, 8, 0 if how != 'two' else 4])
                    lat = [rng.choice(spec) if rng.random() < .4 else rng.uniform(-90, 90) for _ in range(n)]
                    h = [rng.choice([0.0, 1.0, 9000.0, -11.0, rng.uniform(-6000, 12000)]) for _ in range(n)]
                    if how == 'int':
                        lat, h = [float(round(x)) for x in lat], [float(round(x)) for x in h]
                    if how == 'mixed' and n:
                        h = [h[0]] * n
                    out.append(dict(kind=fun + '-' + how, fun=fun, water=water, how=how, lat=lat, h=h))
        for fun, water in [('wgs', False), ('fa', False), ('fa', True)]:
            for n in [60, 400, 3000, 100000] if tier == 'quick' else [60, 400, 1025, 3000, 20000] * 4:
                out.append(numgen.long_case(rng, lambda n: dict(fun=fun, water=water, how=rng.choice(['array', 'series']), lat=[rng.uniform(-90, 90) for _ in range(n)],
                                                                h=[rng.uniform(-6000, 12000) for _ in range(n)]), n, 20))
        return out

    def observe(self, case):
        import numpy as np
        import shipgrav.grav as sgg
        how, water = case['how'], case['water']
        if how == 'scalar':
            lat, h = case['lat'][0], case['h'][0]
        elif how == 'int':
            lat, h = int(case['lat'][0]), int(case['h'][0])
        elif how == 'two':
            m = len(case['lat'])
            lat, h = np.array(case['lat']).reshape(1, m), np.array(case['h']).reshape(1, m)
        else:
            c = how if how != 'mixed' else 'array'
            lat, h = numgen.pack(case['lat'], c), numgen.pack(case['h'], c)
            if how == 'mixed' and case['h']:
                h = case['h'][0]
        kw = {} if water is None else dict(free_water=water)

        def run(la):
            return call(sgg.wgs_grav, la) if case['fun'] == 'wgs' else call(sgg.free_air_second_order, la, h, **kw)
        st, r = run(lat)
        st2, r2 = run(-lat)
        obs = dict(kind=st if st != 'ok' else st2, y=[], mirror=[])
        if st == st2 == 'ok':
            try:
                obs = dict(kind='array', y=numgen.arr(r), mirror=numgen.arr(r2))
                if how in ('scalar', 'int') and np.ndim(r) != 0:
                    obs['kind'] = 'not-a-scalar'
                if how == 'two' and np.shape(r) != np.shape(lat):
                    obs['kind'] = 'shape'
            except Exception:
                obs['kind'] = 'other'
        req = dict(fun=case['fun'], water=bool(water), lat=numgen.arr(case['lat']), h=numgen.arr(case['h']))
        numgen.judged(case, req, ('lat', 'h'), obs, ('y', 'mirror'), len(case['lat']))
        return dict(req=req, obs=obs)


CHECK = C()
