"""C26: crustal_thickness_2D."""
import math
import numgen
from vlib import Check, call
from c22 import picks, spikes, surface


class C(Check):
    pid = 'C26'
    trace = ('TraceField', 'TraceField.cfg')
    note = ('TLC checks the spectral machine on exact grids; thickness and recovered gravity are recomputed by direct exact summation for lines of '
            '1..16 and grids up to 7 by 7 points, even and odd, and in a few points of mostly flat grids of up to 18 by 18 (37) and lines of up to 120. One known finding (mirrored order of the result) is matched exactly.')
    assumptions = ['dense grids of up to 49 points, mostly flat ones of up to 324 (thorough 1369)', 'dy > 0 when ny > 1']

    def mc(self, tier):
        return [('MC_Spectral', 'MC_Spectral.cfg', {})]

    def cases(self, rng, tier, scen):
        q = tier == 'quick'
        out = []
        shapes = [(n, 1) for n in range(1, 17)] + [(a, b) for a in range(1, 8) for b in range(2, 8)]
        for nx, ny in shapes * (2 if q else 20):
            dx = rng.choice([1.3, 5.0, 10.0, 20.0, rng.uniform(1, 30)])
            dy = 0 if ny == 1 and rng.random() < .6 else rng.choice([1.3, 5.0, 10.0, rng.uniform(1, 30)])
            if ny == 1 and rng.random() < .8:
                dy = 0
            ws, wl = rng.choice([(25, 45), (20.0, 60.0), (2.5 * dx, 3.1 * dx), (40.0, 200.0), (3.0, 300.0)])
            zdown = rng.choice([10, 6.0, 0, 2.5])
            if zdown * 2 * math.pi / ws > 9:
                zdown = 1.0
            out.append(dict(kind='line' if ny == 1 else 'grid', nx=nx, ny=ny, dx=dx, dy=dy, ws=ws, wl=wl, zdown=zdown, rho=rng.choice([0.4, 0.5, 1, 0.33]),
                            back=rng.random() < .5, z=sum(surface(rng, ny, nx, rng.choice([0.0, 50.0, -1000.0]), rng.choice([1.0, 30.0])), []), default=rng.random() < .25,
                            how=rng.choice(['array', 'readonly', 'strided'])))
        for i in range(16 if q else 250):  # larger grids and lines, mostly flat, looked at in a few points
            nx, ny = rng.randint(8, 18), rng.randint(8, 18)
            if i % 2:
                nx, ny = rng.randint(17, 120), 1
            elif not q and i % 3 == 0:
                nx, ny = nx * 2 + rng.randint(0, 1), ny * 2 + rng.randint(0, 1)
            dx, dy = rng.choice([1.3, 5.0, 2.0]), 0 if ny == 1 else rng.choice([1.3, 5.0, 3.0])
            ws, wl = rng.choice([(25, 45), (20.0, 60.0), (8.0, 30.0)])
            z, ref = spikes(rng, nx * ny, rng.choice([0.0, 50.0, -100.0]), 30.0)
            out.append(dict(kind='large', nx=nx, ny=ny, dx=dx, dy=dy, ws=ws, wl=wl, zdown=rng.choice([6.0, 0, 2.5]), rho=rng.choice([0.4, 0.5]), back=i % 3 == 0, z=z, default=False,
                            how='array', pick=picks(rng, nx * ny), ref=ref))
        for a, b in [(25, 45), (30, 30), (10.5, 11)]:
            out.append(dict(kind='bad', nx=4, ny=1, dx=5.0, dy=0, ws=b, wl=a, zdown=1.0, rho=0.4, back=False, z=[1.0, 2.0, 3.0, 2.0], default=False, how='array'))
        return out

    def observe(self, case):
        import numpy as np
        import shipgrav.grav as sgg
        c = dict(case)
        kw = dict(nx=c['nx'], dx=c['dx'])
        if c['ny'] != 1:
            kw['ny'] = c['ny']
        if c['dy']:
            kw['dy'] = c['dy']
        if c['default'] and c['dx'] < 20:
            c.update(zdown=10, rho=0.4, wl=45, ws=25)
        else:
            kw.update(zdown=c['zdown'], rho=c['rho'], wlarge=c['wl'], wsmall=c['ws'])
        if c['back']:
            kw['back'] = True
        st, r = call(sgg.crustal_thickness_2D, numgen.pack(c['z'], c['how']), **kw)
        e = numgen.arr
        one = lambda v: e([v])[0]
        req = dict(fun='crust', bad=not (c['wl'] > c['ws']), nx=c['nx'], ny=c['ny'], z=e(c['z']), dx=one(c['dx']), dy=one(c['dy']), zdown=one(c['zdown']), rho=one(c['rho']),
                   wlarge=one(c['wl']), wsmall=one(c['ws']), back=c['back'],
                   pick=c.get('pick', []), ref=c.get('ref', 1))
        obs = dict(kind=st, y=[], back=[])
        if st == 'ok':
            try:
                parts = r if c['back'] else (r,)
                if len(parts) == (2 if c['back'] else 1) and not any(isinstance(p, tuple) for p in parts):
                    im = max([float(np.max(np.abs(np.imag(p)))) / max(1e-9, float(np.max(np.abs(p)))) for p in parts])
                    obs = dict(kind='field' if im < 1e-6 else 'complex', y=e(parts[0]), back=e(parts[1]) if c['back'] else [])
                else:
                    obs['kind'] = 'parts'
            except Exception as ex:
                obs['kind'] = 'other-' + type(ex).__name__
        return dict(req=req, obs=obs)


CHECK = C()
