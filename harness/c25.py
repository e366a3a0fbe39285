"""C25: therm_plate and therm_Z_plate."""
import thermgen
from vlib import Check, call


class C(Check):
    pid = 'C25'
    trace = ('TraceThermal', 'TraceThermal.cfg')
    note = ('TLC walks a grid of depths and ages with both cooling models in lock step. Every temperature and subsidence of the real functions is recomputed '
            'with exact sines and exponentials; every isotherm must be a node of the search grid with the smallest misfit in that model.')
    assumptions = ['tolerance 1e-12 of Tm (twice that between nodes equally close)', 'search grids up to 60 nodes (one default grid of 1000)']

    def mc(self, tier):
        return [('MC_Thermal', 'MC_Thermal.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        q = tier == 'quick'
        for how in ('array', 'readonly', 'list', 'strided', 'series', 'int'):
            for time in (None, False, True):
                if how in ('list', 'series') and not time:
                    pass
                for r in range(10 if q else 90):
                    m = thermgen.material(rng, True)
                    L = m.get('L', 100e3)
                    x = thermgen.ages(rng, rng.choice([1, 2, 5, 8]), time, 180)
                    zs = [rng.choice([0.0, L, L / 2, L + 1e-6, 2 * L, 1.0]) if rng.random() < .4 else rng.uniform(0, 1.3 * L) for _ in range(rng.choice([1, 3, 7]))]
                    if how == 'int':
                        x, zs = [float(round(v)) for v in x], [float(round(v)) for v in zs]
                    out.append(dict(kind='plate-' + how, fun='plate', how=how, time=time, m=m, x=x, z=zs))
                for r in range(8 if q else 60):
                    m = thermgen.material(rng, True)
                    L, Tm = m.get('L', 100e3), m.get('Tm', 1350)
                    x = thermgen.ages(rng, rng.choice([1, 2, 4]), time, 180)
                    if how == 'int':
                        x = [float(round(v)) for v in x]
                    T = [rng.choice([0.0, Tm, .5 * Tm, 1.1 * Tm, -20.0, Tm - 1]) if rng.random() < .4 else rng.uniform(0, Tm) for _ in range(rng.choice([1, 2, 4]))]
                    zsp = rng.choice([1000.0, 5000.0, 2500.0, 4096.0])
                    minz = rng.choice([0.0, 1000.0, 512.0, 20000.0])
                    maxz = minz + rng.choice([.5, 1, 1.5, 2, 4, 7.25, 23, 40, 57]) * zsp
                    out.append(dict(kind='iso-' + how, fun='zplate', how=how, time=time, m=m, x=x, T=T, minz=minz, maxz=maxz, zsp=zsp))
        for i in range(1 if q else 8):
            m = thermgen.material(rng, True)
            out.append(dict(kind='iso-default', fun='zplate', how='array', time=True, m=m, x=thermgen.ages(rng, 2, True, 150), T=[600.0, 1200.0], default=True))
        for nx, nz in ((400, 5), (3, 300), (30, 1200), (1500, 2)):
            for time in (False, True):
                base = dict(kind='large', fun='plate', how='array', time=time, m=thermgen.material(rng, True), x=thermgen.ages(rng, 3, time, 180), z=[1.2e5, 0.0])
                out.append(thermgen.large(rng, base, 'z', time, nx, nz))
        for nx, nz in ((0, 300), (400, 0)):
            base = dict(kind='large', fun='zplate', how='array', time=True, m=thermgen.material(rng, True), x=thermgen.ages(rng, 3, True, 180), T=[1200.0, 300.0],
                        minz=0.0, maxz=120e3, zsp=4000.0)
            out.append(thermgen.large(rng, base, 'T', True, nx, nz))
        return out

    def observe(self, case):
        import shipgrav.grav as sgg
        x = thermgen.packx(case['x'], case['how'])
        if case['fun'] == 'plate':
            obs = thermgen.pair(*call(sgg.therm_plate, x, thermgen.packx(case['z'], case['how']), **thermgen.kwargs(case)))
        else:
            kw = thermgen.kwargs(case)
            if not case.get('default'):
                kw.update(minz=case['minz'], maxz=case['maxz'], zsp=case['zsp'])
            st, r = call(sgg.therm_Z_plate, x, thermgen.packx(case['T'], case['how'] if case['how'] != 'int' else 'array'), **kw)
            obs = thermgen.pair(st, (r, []) if st == 'ok' else r)
        return thermgen.judged(case, thermgen.request(case), obs)


CHECK = C()
