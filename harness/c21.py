"""C21: grav1d_padded."""
import math
import numgen
from vlib import Check, call
from c22 import picks, spikes


def relief(rng, n, base):
    k = rng.choice(['walk', 'flat', 'spike', 'ramp', 'sin', 'noise'])
    amp = rng.choice([1.0, 100.0, 600.0, 1500.0])
    if k == 'walk':
        return numgen.walk(rng, n, base, amp)
    if k == 'flat':
        return [base] * n
    if k == 'spike':
        v = [base] * n
        v[rng.randrange(n)] += amp
        return v
    if k == 'ramp':
        return [base + amp * i / n for i in range(n)]
    if k == 'sin':
        w = rng.uniform(.3, 3.1)
        return [base + amp * math.sin(w * i) for i in range(n)]
    return [base + rng.uniform(-amp, amp) for _ in range(n)]


class C(Check):
    pid = 'C21'
    trace = ('TraceField', 'TraceField.cfg')
    note = ('TLC checks the spectral machine on exact grids (all-pass, uniform, zero mean, symmetry); the real function is recomputed by direct '
            'exact summation over all wavenumbers for profiles of 2 to 9 (thorough 16) points, even and odd, and in a few points of mostly flat profiles of up to 60 (150), to the rounding bound of the FFT.')
    assumptions = ['dense profiles of up to 9 points (16 in thorough), mostly flat ones of up to 60 (150); continuation levels that do not blow up rounding']

    def mc(self, tier):
        return [('MC_Spectral', 'MC_Spectral.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        q = tier == 'quick'
        for i in range(90 if q else 1500):
            n = rng.choice([2, 3, 4, 5, 6, 7] if rng.random() < .85 or i < 6 else ([8, 9] if q else [8, 9, 11, 16]))
            if i < 6:
                n = i + 2
            base = rng.choice([-3000.0, 0.0, 2500.0, -100.0])
            dx = rng.choice([500.0, 1000.0, 2000.0, 10000.0, 123.456])
            x0 = rng.choice([0.0, -5000.0, 1e6])
            topo = relief(rng, n, base)
            m = sum(topo) / n
            zlev = rng.choice([0.0, m, m + rng.uniform(0, 6000), m - 0.2 * dx, max(topo), m + 5 * dx])
            if (m - zlev) * math.pi / dx > 4:
                zlev = m + 10.0
            sgn = rng.choice([1, 1, 1, -1])
            out.append(dict(kind='profile', x=[x0 + sgn * dx * j for j in range(n)], z=topo, zlev=zlev, rho=rng.choice([1700, 2700.0, 600, -500, rng.uniform(100, 3300)]),
                            how=rng.choice(['array', 'readonly', 'strided', 'series'])))
        for i in range(14 if q else 200):  # longer profiles, mostly flat, looked at in a few points
            n = rng.randint(10, 60 if q else 150)
            base, dx = rng.choice([-3000.0, 0.0, 2500.0]), rng.choice([500.0, 100.0, 2000.0])
            z, ref = spikes(rng, n, base, rng.choice([1.0, 100.0, 600.0]))
            z[0] = z[-1] = base
            zlev = sum(z) / n + rng.choice([0.0, dx, 5 * dx, -.2 * dx])
            out.append(dict(kind='long', x=[dx * j for j in range(n)], z=z, zlev=zlev, rho=rng.choice([1700, 600, -500]), how='array', pick=picks(rng, n, 8), ref=1))
        return out

    def observe(self, case):
        import shipgrav.grav as sgg
        e = numgen.arr
        st, r = call(sgg.grav1d_padded, numgen.pack(case['x'], case['how']) if case['how'] != 'series' else numgen.pack(case['x'], 'list'),
                     numgen.pack(case['z'], case['how'] if case['how'] != 'series' else 'array'), case['zlev'], case['rho'])
        req = dict(fun='line', bad=False, x=e(case['x']), z=e(case['z']), zlev=e([case['zlev']])[0], rho=e([case['rho']])[0],
                   pick=case.get('pick', []), ref=case.get('ref', 1))
        obs = dict(kind=st, y=[])
        if st == 'ok':
            try:
                obs = dict(kind='field', y=e(r))
            except Exception:
                obs['kind'] = 'other'
        return dict(req=req, obs=obs)


CHECK = C()
