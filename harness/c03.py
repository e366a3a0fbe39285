"""C03: longitudes across the 180 degree meridian."""
import navgen as ng
import c02
from vlib import Check


def track(rng, big=0):
    ship = rng.choice(['user', 'NBP', 'Atlantis', 'Revelle', 'Ride', 'Langseth', 'Thompson', 'Sikuliaq'])
    digits = 3
    per = 60 * 10 ** digits
    n = big or rng.choice([2, 3, 5, 8, 13, 25])
    mode = rng.choice(['cross', 'cross', 'cross', 'wiggle', 'green', 'plain', 'touch', 'jumpy'])
    x = {'cross': 180, 'wiggle': 180, 'green': 0, 'plain': rng.randrange(-178, 178), 'touch': 180, 'jumpy': 100}[mode] * per
    x += rng.randrange(-n * per // 3, n * per // 3 + 1) if mode in ('cross', 'green') else rng.randrange(-per // 2, per // 2 + 1)
    v = rng.choice([-1, 1])
    xs = []
    for _ in range(n):
        xs.append(x)
        st = rng.randrange(0, per * 9 // 10)
        if mode == 'wiggle' or (mode == 'cross' and rng.random() < 0.15):
            v = rng.choice([-1, 1])
        if mode == 'touch' and rng.random() < 0.4:
            x = 180 * per            # exactly on the meridian
        elif mode == 'jumpy' and rng.random() < 0.2:
            x += rng.choice([-1, 1]) * rng.randrange(2, 30) * per
        else:
            x += v * st
    if mode == 'touch':
        x = 180 * per
    lons = []
    for x in xs:
        y = (x + 180 * per) % (360 * per) - 180 * per
        if y == -180 * per and rng.random() < 0.5:
            y = 180 * per
        lons.append(y)
    files, cur = [], []
    for i, lo in enumerate(lons):
        us = c02.BASE + i * 10 ** 6
        la = rng.randrange(-70 * per, 70 * per)
        if ship == 'user':
            cur.append('%r %r %r GPGGA' % (us / 1e6, lo / per, la / per))
        else:
            cur += ng.fix(rng, ship, ng.LISTED[ship], us, la, lo, digits, 3)
        if rng.random() < 0.1:
            files.append(cur)
            cur = []
    if cur:
        files.append(cur)
    if rng.random() < 0.15:
        files.reverse()
    c = dict(kind='track-' + mode, ship='NBP' if ship == 'user' else ship, fn=ship == 'user', files=files,
             decim=None)
    if ship == 'user':
        c['talker'] = 'GPGGA'
    return c


def tie(rng, n):
    """a long track, half of it on either side, with a few crossings"""
    per, ship = 60000, rng.choice([s for s in ng.VESSELS])
    lons = [rng.choice([1, -1]) * (180 * per - rng.randrange(1, per // 4)) for _ in range(n)]
    for i in range(n):
        if sum(v > 0 for v in lons) > n // 2 and lons[i] > 0 or sum(v < 0 for v in lons) > n // 2 and lons[i] < 0:
            lons[i] = -lons[i]
    f = []
    for i, lo in enumerate(lons):
        f += ng.fix(rng, ship, ng.LISTED[ship], c02.BASE + i * 10 ** 6, rng.randrange(-70 * per, 70 * per), lo, 3, 3)
    return dict(kind='track-tie', ship=ship, fn=False, files=[f], decim=None)


class C(Check):
    pid = 'C03'
    trace = ('TraceNav', 'TraceNav.cfg')

    def mc(self, tier):
        return [('MC_NavShift', 'MC_NavShift.cfg', {}), ('MC_NavShift', 'MC_NavShiftG.cfg', {})]

    def cases(self, rng, tier, scen):
        B, G = [719, 720, -720, -719, -717], [718, 720, -720, -719, 2, 0, -2]
        out = []
        sel = []
        for s in scen:
            if any(l[2] == 0 for l in s['files'][0]):
                continue
            # longitude codes above 5 only occur in the second list
            sel.append(s)
        if tier == 'quick':
            sel = rng.sample(sel, 900)
        for s in sel:
            lons = s.get('lons') or (G if max(l[2] for l in s['files'][0]) > 5 or rng.random() < 0.3 else B)
            out.append(c02.from_scenario(rng, s, lons))
        out += [track(rng) for _ in range(800 if tier == 'quick' else 8000)]
        for n in ([60, 100] if tier == 'quick' else range(50, 200, 10)):     # as many fixes on either side
            out.append(tie(rng, n))
        out += [track(rng, n) for n in ([80, 80, 150] if tier == 'quick' else [80, 150] * 10 + [300])]
        return out

    def observe(self, case):
        return ng.observe(case)


CHECK = C()
