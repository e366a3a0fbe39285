"""C29: from a track to the accelerations in the ship's frame and the attitude of the platform."""
import math
import num
import numgen
from vlib import Check, call

NAN = float('nan')
PER = 111320.0


def legs(rng, n, freq):
    """a ship's track: east and north metres at n samples; never slower than 1 m/s unless it lies still"""
    k = rng.choice(['steady', 'steady', 'turn', 'turn', 'swell', 'swell', 'speed', 'zigzag', 'still', 'circle'])
    v = rng.uniform(2, 10)
    c = rng.choice([rng.uniform(-math.pi, math.pi), rng.randrange(8) * math.pi / 4, math.pi])
    sub = 20
    x = y = 0.0
    out = []
    rate = rng.uniform(-.03, .03)
    w, a, ph = rng.uniform(.02, 1.2), rng.uniform(.01, .5), rng.uniform(0, 6)
    t0 = rng.uniform(.2, .8) * n / freq
    for i in range(n):
        out.append((x, y))
        for j in range(sub):
            t = (i + (j + .5) / sub) / freq
            cc, vv = c, v
            if k == 'turn':
                cc = c + rate * max(0, t - t0)
            elif k == 'circle':
                cc = c + 4 * rate * t
            elif k == 'swell':
                cc = c + a * math.sin(w * t + ph) / 2
                vv = v + .4 * a * math.cos(w * t)
            elif k == 'speed':
                vv = 1 + v * (1 + math.tanh((t - t0) * w)) / 2
            elif k == 'zigzag':
                cc = c + a * math.tanh(3 * math.sin(w * t))
            elif k == 'still':
                vv = 0
            x += vv * math.sin(cc) / freq / sub
            y += vv * math.cos(cc) / freq / sub
    return k, out


def case(rng, n=None):
    n = n or rng.choice([11, 12, 15, 20, 21, 22, 24, 30, 40])
    freq = rng.choice([1, 1, 1, 1.0, 2, 0.5, 5, 10, 0.1])
    kind, xy = legs(rng, n, freq)
    lat0 = rng.choice([rng.uniform(-70, 70), rng.uniform(-70, 70), 0.0, rng.uniform(-1e-4, 1e-4), rng.uniform(70, 84)])
    lon0 = rng.choice([rng.uniform(-180, 180), rng.uniform(-180, 180), rng.uniform(-1e-4, 1e-4), 180 + rng.uniform(-1e-4, 1e-4), rng.uniform(180, 360)])
    cl = math.cos(math.radians(lat0))
    lon, lat = [lon0 + x / PER / cl for x, _ in xy], [lat0 + y / PER for _, y in xy]
    if rng.random() < .2:
        for _ in range(rng.randrange(1, 3)):
            i = rng.randrange(n)
            lon[i] = lat[i] = NAN
    per = lambda: rng.choice([240, 240, 240.0, 60, 3600, rng.uniform(5 / freq, 500 / freq)])
    damp = lambda: rng.choice([.7071, .7071, .5, 1, .9, 0])
    # sampling interval and period must suit each other
    p = [max(per(), 5 / freq) for _ in range(2)]
    return dict(kind=kind, lon=lon, lat=lat, freq=freq, cper=p[0], lper=p[1], cdamp=damp(), ldamp=damp(), series=rng.random() < .3, tay=rng.choice(['nav', 'grav']))


class C(Check):
    pid = 'C29'
    trace = ('TraceLeveling', 'TraceLeveling.cfg')
    note = ('TLC takes ships on whole-number tracks of constant acceleration through the chain: velocities, accelerations, power and turning exact, steady ships leave '
            'the platform level. Seeded tracks (steady, turning, swell, zigzag, still, gaps) are then taken through the real functions one after the other and '
            'every velocity, course, ship-frame acceleration and up-vector is recomputed by the specification.')
    assumptions = ['tracks up to 90 samples at 0.1 to 10 Hz; course and turning not judged below 1 cm/s']

    def mc(self, tier):
        return [('MC_Leveling', 'MC_Leveling.cfg', {})]

    def cases(self, rng, tier, scen):
        out = [case(rng) for _ in range(150 if tier == 'quick' else 2500)]
        out += [case(rng, 90) for _ in range(3 if tier == 'quick' else 30)]
        return out

    def observe(self, case):
        st, r = call(process, case)
        e = numgen.arr
        req = {x: e([case[x]])[0] for x in ('freq', 'cper', 'lper')}
        req.update(cdamp=e([float(case['cdamp'])])[0], ldamp=e([float(case['ldamp'])])[0], lon=e(case['lon']), lat=e(case['lat']))
        obs = dict(kind=st, rows=[])
        if st == 'ok':
            try:
                c = [e(x) for x in r[:-1]]
                up = [e(x) for x in r[-1]]
                if len({len(x) for x in c + up}) != 1 or len(up) != 3:
                    obs['kind'] = 'lengths'
                else:
                    obs = dict(kind='rows', rows=[dict(zip(('ve', 'vn', 'course', 'speed', 'cross', 'along'), q), up=[u[i] for u in up]) for i, q in enumerate(zip(*c))])
            except Exception:
                obs['kind'] = 'other'
        return dict(req=req, obs=obs)


def process(case):
    """what a user does, after example-scripts/dgs_ccp_calc.py"""
    import numpy as np
    import pandas as pd
    import shipgrav.grav as sgg
    import shipgrav.nav as sgn
    lon, lat, f = np.array(case['lon']), np.array(case['lat']), case['freq']
    tay10 = sgn.tay10 if case['tay'] == 'nav' else sgg.tay10
    vn, ve = sgn.latlon_to_EN(lon, lat)
    vn, ve = f * vn, f * ve
    eacc = 1e5 * f * np.convolve(ve, tay10, 'same')
    nacc = 1e5 * f * np.convolve(vn, tay10, 'same')
    crse, vel = sgn.ENvel_to_course_heading(ve, vn)
    crse[np.isnan(crse)] = 0
    vel[np.isnan(vel)] = 0
    across, along = sgn.rotate_acceleration_EN_to_cl(crse, eacc, nacc)
    la = pd.Series(lat) if case['series'] else lat
    g = sgg.wgs_grav(la) + sgg.free_air_second_order(la, np.zeros(len(lat)))
    up = sgg.up_vecs(1 / f, g, across, along, 0, case['cper'], case['cdamp'], case['lper'], case['ldamp'])
    return ve, vn, crse, vel, across, along, up


CHECK = C()
