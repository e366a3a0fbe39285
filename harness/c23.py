"""C23: grav2d_layer_variable_density."""
import math
import numgen
from vlib import Check, call
from c22 import picks, spikes, surface


class C(Check):
    pid = 'C23'
    trace = ('TraceField', 'TraceField.cfg')
    note = ('TLC checks the spectral machine on exact grids (uniform field gives zero, linearity of sums); the real function is recomputed by '
            'direct exact summation for grids of 1..7 by 1..7 points, and in a few points of mostly flat grids of up to 21 by 21 (thorough 43). One known finding (sign of the first index past the folding frequency) is matched exactly.')
    assumptions = ['dense grids of up to 49 points, mostly flat ones of up to 441 (thorough 1800)']

    def mc(self, tier):
        return [('MC_Spectral', 'MC_Spectral.cfg', {})]

    def cases(self, rng, tier, scen):
        q = tier == 'quick'
        out = []
        shapes = [(a, b) for a in range(1, 8) for b in range(1, 8) if a * b > 1]
        for nx, ny in shapes * (2 if q else 20):
            dx, dy = rng.choice([(1.0, 1.0), (2.0, 5.0), (rng.uniform(.2, 20), rng.uniform(.2, 20))])
            z1 = rng.choice([0.5, 3.0, 10.0, 0.0, rng.uniform(0, 20)])
            z2 = z1 + rng.choice([0.0, 1.0, 6.0, rng.uniform(0, 10), 100.0])
            out.append(dict(kind='odd' if nx % 2 and ny % 2 else 'even', nx=nx, ny=ny, z=surface(rng, nx, ny, rng.choice([0.0, 2700.0, -300.0]), rng.choice([1.0, 300.0])),
                            dx=dx, dy=dy, z1=z1, z2=z2, how=rng.choice(['array', 'readonly', 'fortran', 'view'])))
        sides = list(range(8, 22))
        for i in range(24 if q else 300):  # larger grids, mostly flat, looked at in a few points
            nx, ny = rng.choice(sides), rng.choice(sides)
            if i % 4 == 0:
                nx, ny = rng.choice([(nx * 3, rng.randint(1, 3)), (rng.randint(1, 3), ny * 3)])
            if not q and i % 5 == 1:
                nx, ny = nx * 2 + rng.randint(0, 1), ny * 2 + rng.randint(0, 1)
            z, ref = spikes(rng, nx * ny, rng.choice([0.0, 2700.0, -300.0]), rng.choice([1.0, 300.0]))
            z1 = rng.choice([0.5, 3.0, 0.0, .1])
            out.append(dict(kind='large', nx=nx, ny=ny, z=[z[r * nx:(r + 1) * nx] for r in range(ny)], dx=rng.choice([1.0, 2.0, .3]), dy=rng.choice([1.0, 5.0, .4]), z1=z1,
                            z2=z1 + rng.choice([1.0, 6.0, 100.0]), how='array', pick=picks(rng, nx * ny), ref=ref))
        return out

    def observe(self, case):
        import numpy as np
        import shipgrav.grav as sgg
        z = np.array(case['z'], dtype=float)
        if case['how'] == 'readonly':
            z.setflags(write=False)
        elif case['how'] == 'fortran':
            z = np.asfortranarray(z)
        elif case['how'] == 'view':
            b = np.zeros((z.shape[0] * 2, z.shape[1] + 3))
            b[::2, 1:-2] = z
            z = b[::2, 1:-2]
        st, r = call(sgg.grav2d_layer_variable_density, z, case['dx'], case['dy'], case['z1'], case['z2'])
        e = numgen.arr
        one = lambda v: e([v])[0]
        nx, ny = case['nx'], case['ny']
        req = dict(fun='layer', bad=False, nx=nx, ny=ny, z=e(case['z']), dx=one(case['dx']), dy=one(case['dy']), z1=one(case['z1']), z2=one(case['z2']),
                   pick=case.get('pick', []), ref=case.get('ref', 1))
        obs = dict(kind=st, y=[])
        if st == 'ok':
            try:
                obs = dict(kind='field' if np.shape(r) == (ny, nx) else 'shape', y=e(r))
            except Exception:
                obs['kind'] = 'other'
        return dict(req=req, obs=obs)


CHECK = C()
