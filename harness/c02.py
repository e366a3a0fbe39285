"""C02: assembly of the nav series (order, repeated times, decimation, dropouts, sampling)."""
import navgen as ng
from vlib import Check

BASE = 1656633600 * 10 ** 6


def from_scenario(rng, s, lons4):
    """abstract files of MC_NavSeries/MC_NavShift -> lines for the user function or a vessel"""
    ship = rng.choice(['user', 'user', 'user', 'Atlantis', 'Revelle', 'Ride', 'Langseth'])
    digits = 2
    files, n = [], 0
    step = rng.choice([1000000, 250000, 86400 * 10 ** 6])
    for f in s['files']:
        out = []
        for l in f:
            n += 1
            if l[0] == 0:
                out.append('other line %d' % n)
                continue
            us = BASE + l[1] * step
            miss = l[2] == 0
            lon4 = 0 if miss else lons4[l[2] - 1]
            lat = 60 * 100 * (10 + n)            # tells the occurrences apart
            if lons4 == [40]:
                lon = lon4 * 25 * 60 + n * 10    # different for every fix, no jumps
            else:
                lon = lon4 * 25 * 60
            if ship == 'user':
                t = us / 1e6
                a, b = ('nan', 'nan') if miss else (repr(lon / 6000), repr(lat / 6000))
                if miss:                         # the user function of the harness has no dropouts
                    a, b = repr((lons4[0] * 25 * 60 + n * 10) / 6000), repr(lat / 6000)
                out.append('%s %s %s GPGGA' % (repr(t), a, b))
            else:
                out += ng.fix(rng, ship, ng.LISTED[ship], us, None if miss else lat, None if miss else lon, digits, 3)
        files.append(out)
    c = dict(kind='scenario-' + ship, ship='Atlantis' if ship == 'user' else ship, fn=ship == 'user', files=files,
             decim=s['decim'])
    if ship == 'user':
        c['talker'] = 'GPGGA'
    if rng.random() < 0.3:
        c['sampling'] = rng.choice([0.5, 2, 10])
    return c


def rand_case(rng, big=0):
    ship = rng.choice(ng.VESSELS)
    tk = ng.LISTED[ship]
    files = []
    pool = [BASE + rng.randrange(4000) * 250000 for _ in range(big or rng.choice([3, 6, 12]))]
    if rng.random() < 0.2:       # times that differ by microseconds
        pool = [BASE + 123456 + rng.choice([0, 1, 2, 3, 10, 999, 1000, 1001, 500000]) for _ in pool]
    if ship == 'Thompson':
        pool = [p // 10 ** 6 * 10 ** 6 for p in pool]
    if rng.random() < 0.5:
        pool.sort()
    digits = 3
    n = 0
    for _ in range(rng.choice([1, 1, 2, 3, 4] if big or rng.random() < 0.95 else [9, 13, 21])):
        f = []
        k = big or rng.choice([1, 2, 3, 5, 8])
        seq = [rng.choice(pool) for _ in range(k)]
        if rng.random() < 0.4:
            seq.sort()
        if rng.random() < 0.15:
            seq.sort(reverse=True)
        for us in seq:
            n += 1
            drop = rng.random() < 0.12
            f += ng.fix(rng, ship, tk, us, None if drop else 60000 * 41 + n * 17, None if drop else -60000 * 70 - n * 31,
                        digits, 6)
            if rng.random() < 0.2:
                f.append('other %d' % n)
        files.append(f)
    return dict(kind='random', ship=ship, files=files, decim=rng.choice([None, 0, 1, 2, 3, 5]),
                sampling=rng.choice([None, None, 1, 0.1, 5, 60]), single=rng.random() < 0.5)


class C(Check):
    pid = 'C02'
    trace = ('TraceNav', 'TraceNav.cfg')

    def mc(self, tier):
        return [('MC_NavSeries', 'MC_NavSeries.cfg', {})]

    def cases(self, rng, tier, scen):
        sel = scen if tier == 'thorough' else rng.sample(scen, 900)
        out = [from_scenario(rng, s, [40]) for s in sel]
        out += [rand_case(rng) for _ in range(700 if tier == 'quick' else 6000)]
        out += [rand_case(rng, n) for n in ([60, 120] if tier == 'quick' else [60, 120, 200, 300])]
        return out

    def observe(self, case):
        return ng.observe(case)


CHECK = C()
