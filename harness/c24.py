"""C24: therm_halfspace and therm_Z_halfspace."""
import numgen
import thermgen
from vlib import Check, call


class C(Check):
    pid = 'C24'
    trace = ('TraceThermal', 'TraceThermal.cfg')
    note = ('TLC walks a grid of depths and ages with both cooling models in lock step (monotone, bounded, agreeing while the bottom is not felt, isotherm by '
            'bisection inverts the model). Every temperature, depth and subsidence of the real functions is recomputed with an exact error function.')
    assumptions = ['tolerance 1e-12 of Tm; isotherms are judged by their temperature', 'depth 0 at age 0 is undefined', '0 <= T < Tm for isotherms']

    def mc(self, tier):
        return [('MC_Thermal', 'MC_Thermal.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        for how in ('array', 'readonly', 'strided', 'series', 'int'):
            for time in (None, False, True):
                for r in range(8 if tier == 'quick' else 150):
                    m = thermgen.material(rng, False)
                    n = rng.choice([1, 2, 5, 9])
                    x = thermgen.ages(rng, n, time, 180)
                    zs = [rng.choice([0.0, 1.0, 1e3, 2e4, 1e5, 3e5, 6e5]) if rng.random() < .3 else rng.uniform(0, rng.choice([1.2e5, 1.2e5, 1.2e5, 1e6])) for _ in range(rng.choice([1, 3, 7]))]
                    if how == 'int':
                        x, zs = [float(round(v)) for v in x], [float(round(v)) for v in zs]
                    out.append(dict(kind='half-' + how, fun='half', how=how, time=time, m=m, x=x, z=zs))
                    Tm = m.get('Tm', 1350)
                    f = rng.choice([0, .1, .5, .9, .999, 1e-6, 1 - 1e-5, 1 - 1e-8, rng.random() * .99])
                    out.append(dict(kind='iso-' + how, fun='zhalf', how=how, time=time, m=m, x=x, T=[f * Tm]))
        for nx, nz in ((400, 5), (3, 300), (30, 1200), (1500, 2)):
            for time in (False, True):
                base = dict(kind='large', fun='half', how='array', time=time, m=thermgen.material(rng, False), x=thermgen.ages(rng, 3, time, 180), z=[1.2e5, 0.0])
                out.append(thermgen.large(rng, base, 'z', time, nx, nz))
        for time in (False, True):
            base = dict(kind='large', fun='zhalf', how='array', time=time, m=thermgen.material(rng, False), x=[0.0], T=[600.0])
            out.append(thermgen.large(rng, base, 'T', time, 800, 0))
        return out

    def observe(self, case):
        import shipgrav.grav as sgg
        x = thermgen.packx(case['x'], case['how'])
        if case['fun'] == 'half':
            obs = thermgen.pair(*call(sgg.therm_halfspace, x, thermgen.packx(case['z'], case['how']), **thermgen.kwargs(case)))
        else:
            obs = thermgen.pair(*call(sgg.therm_Z_halfspace, x, case['T'][0], **thermgen.kwargs(case)))
        return thermgen.judged(case, thermgen.request(case), obs)


CHECK = C()
