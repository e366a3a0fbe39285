"""C22: grav2d_folding."""
import math
import numgen
from vlib import Check, call


def surface(rng, nx, ny, base, amp):
    k = rng.choice(['noise', 'flat', 'spike', 'plane', 'rows', 'cols', 'noise'])
    if k == 'flat':
        return [[base] * nx for _ in range(ny)]
    if k == 'spike':
        z = [[base] * nx for _ in range(ny)]
        z[rng.randrange(ny)][rng.randrange(nx)] += amp
        return z
    if k == 'plane':
        a, b = rng.uniform(-1, 1), rng.uniform(-1, 1)
        return [[base + amp * (a * j / nx + b * i / ny) for j in range(nx)] for i in range(ny)]
    if k == 'rows':
        return [[base + v] * nx for v in [rng.uniform(-amp, amp) for _ in range(ny)]]
    if k == 'cols':
        r = [base + rng.uniform(-amp, amp) for _ in range(nx)]
        return [list(r) for _ in range(ny)]
    return [[base + rng.uniform(-amp, amp) for _ in range(nx)] for _ in range(ny)]


def spikes(rng, n, base, amp):
    """a flat field with a few points that differ: n values, the position (from 1) of a flat one"""
    z = [base] * n
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        z[rng.randrange(n)] = base + rng.uniform(-amp, amp)
    return z, 1 + next(i for i in range(n) if z[i] == base)


def picks(rng, n, k=5):
    return sorted(rng.sample(range(n), min(n, k)))


class C(Check):
    pid = 'C22'
    trace = ('TraceField', 'TraceField.cfg')
    note = ('TLC checks the spectral machine on exact grids; the real function is recomputed by direct exact summation over all wavenumbers for '
            'grids of 1..5 by 1..5 points in all combinations of even and odd, with and without folding, orders 1 to 6, to the FFT rounding bound.')
    assumptions = ['Z has one row per Y and one column per X, as the code needs', 'grids of up to about 36 (quick) or 100 points after folding']

    def mc(self, tier):
        return [('MC_Spectral', 'MC_Spectral.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        q = tier == 'quick'
        lim = 36 if q else 100
        shapes = [(a, b, f) for a in range(1, 8) for b in range(1, 8) for f in (True, False) if 2 <= a * b and a * b * (4 if f else 1) <= lim]
        todo = shapes * (2 if q else 25)
        rng.shuffle(todo)
        if q:
            todo = shapes + todo[:40]
        for nx, ny, f in todo:
            base = rng.choice([3000.0, 500.0, 0.0, 5000.0])
            dx, dy = rng.choice([(1.0, 1.0), (2.0, 5.0), (10.0, 3.0), (rng.uniform(.5, 20), rng.uniform(.5, 20))])
            dz = rng.choice([6000, 0, 1000.0, 6500.0])
            amp = rng.choice([1.0, 100.0, 700.0])
            if base + dz < amp * 2:
                dz = 6000
            out.append(dict(kind='fold' if f else 'plain', nx=nx, ny=ny, fold=f, z=surface(rng, nx, ny, base, amp), dx=dx, dy=dy, dz=dz,
                            drho=rng.choice([0.6, 1.7, 1, -0.4]), npower=rng.choice([5, 5, 5, 1, 2, 3, 6]), defaults=rng.random() < .2,
                            how=rng.choice(['array', 'readonly', 'fortran', 'view'])))
        # larger grids, mostly flat, looked at in a few points
        sides = list(range(8, 18))
        for i in range(32 if q else 300):
            f = i % 2 == 0
            nx, ny = rng.choice(sides), rng.choice(sides)
            if rng.random() < .3 or f:
                nx, ny = rng.choice([(nx, rng.randint(1, 5)), (rng.randint(1, 5), ny)])
            if not q and i % 5 == 0:
                nx, ny = nx * 2 + rng.randint(0, 1), ny * 2 + rng.randint(0, 1)
            base = rng.choice([3000.0, 500.0, 0.0, 5000.0])
            dx, dy = rng.choice([(1.0, 1.0), (2.0, 5.0), (10.0, 3.0), (.3, .2), (.05, .4)])
            amp = rng.choice([1.0, 30.0, 100.0, 700.0])
            z, ref = spikes(rng, nx * ny, base, amp)
            dz = rng.choice([6000, 0, 1000.0, 100.0]) if base else 1500.0
            out.append(dict(kind='large-fold' if f else 'large-plain', nx=nx, ny=ny, fold=f, z=[z[r * nx:(r + 1) * nx] for r in range(ny)], dx=dx, dy=dy, dz=dz,
                            drho=rng.choice([0.6, 1.7, 1, -0.4]), npower=rng.choice([5, 5, 1, 2, 3]), defaults=False, how='array', pick=picks(rng, nx * ny), ref=ref))
        return out

    def observe(self, case):
        import numpy as np
        import shipgrav.grav as sgg
        z = np.array(case['z'], dtype=float)
        if case['how'] == 'readonly':
            z.setflags(write=False)
        elif case['how'] == 'fortran':
            z = np.asfortranarray(z)
        elif case['how'] == 'view':
            b = np.zeros((z.shape[0] * 2, z.shape[1] + 3))
            b[::2, 1:-2] = z
            z = b[::2, 1:-2]
        nx, ny = case['nx'], case['ny']
        x, y = np.arange(nx) * case['dx'], np.arange(ny) * case['dy']
        c = dict(case)
        kw = dict(drho=c['drho'], dz=c['dz'], ifold=c['fold'], npower=c['npower'])
        if case['defaults']:
            c.update(drho=0.6, dz=6000, npower=5)
            kw = {} if c['fold'] else dict(ifold=False)
        st, r = call(sgg.grav2d_folding, x, y, z, case['dx'], case['dy'], **kw)
        e = numgen.arr
        one = lambda v: e([v])[0]
        req = dict(fun='grid', bad=False, nx=nx, ny=ny, fold=c['fold'], z=e(case['z']), dx=one(c['dx']), dy=one(c['dy']), dz=one(c['dz']), rho=one(c['drho']), npower=c['npower'],
                   pick=c.get('pick', []), ref=c.get('ref', 1))
        obs = dict(kind=st, y=[])
        if st == 'ok':
            try:
                obs = dict(kind='field' if np.shape(r) == (ny, nx) else 'shape', y=e(r))
            except Exception:
                obs['kind'] = 'other'
        return dict(req=req, obs=obs)


CHECK = C()
