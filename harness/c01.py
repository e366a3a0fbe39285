"""C01: position and time of each nav fix."""
import datetime as dt
import navgen as ng
from vlib import Check

EPOCH = ng.EPOCH


def rand_instant(rng, ship, kind):
    """microseconds since 1970"""
    if kind == 0:
        y = rng.randrange(2000, 2038)
        d = dt.datetime(y, 1, 1) + dt.timedelta(days=rng.randrange(366 if y % 4 == 0 else 365))
    elif kind == 1:   # leap days, year ends, month ends
        y = rng.randrange(2000, 2038)
        d = rng.choice([dt.datetime(y, 12, 31), dt.datetime(y, 1, 1), dt.datetime(y, 3, 1), dt.datetime(y, 2, 28),
                        dt.datetime(2024, 2, 29), dt.datetime(2020, 2, 29), dt.datetime(y, 10, 9), dt.datetime(y - y % 4, 12, 31),
                        dt.datetime(y - y % 4, 12, 31), dt.datetime(y - y % 4, 12, 30)])
    else:
        d = dt.datetime(rng.randrange(2000, 2038), rng.randrange(1, 13), rng.randrange(1, 29))
    s = rng.choice([rng.randrange(86400), 0, 86399, 43200, 3599, 35999])
    us = rng.choice([0, 1, 50000, 500000, 999999, 999000, 370000, rng.randrange(10 ** 6), rng.randrange(1000) * 1000,
                     rng.randrange(100) * 10000])
    return int((d - EPOCH).total_seconds() + s) * 10 ** 6 + us


def rand_pos(rng, digits):
    per = 60 * 10 ** digits
    lat = rng.choice([rng.randrange(90 * per + 1), rng.randrange(per), 90 * per, 0, rng.randrange(10 * per), 9 * per + per - 1])
    lon = rng.choice([rng.randrange(180 * per + 1), rng.randrange(per), rng.randrange(10 * per), rng.randrange(100 * per),
                      180 * per, 0, 99 * per + per - 1])
    return rng.choice([-1, 1]) * lat, rng.choice([-1, 1]) * lon


def case(rng, ship, talker=None, sizes=(1, 1, 2, 3)):
    tk = talker or ng.LISTED[ship]
    files = []
    digits = rng.choice([0, 1, 4, 5, 6, 8])
    lat0, lon0 = rand_pos(rng, digits)
    for _ in range(rng.choice([1, 1, 1, 2])):
        f = []
        us = rand_instant(rng, ship, rng.randrange(3))
        far = rng.random() < .1          # dates all over the place
        for j in range(rng.choice(sizes)):
            nfrac = rng.choice([0, 1, 2, 2, 3, 4, 6, 6])
            if rng.random() < 0.1 and ship != 'Langseth' and (ship, tk) != ('Ride', 'INGGA'):
                nfrac = rng.choice([7, 8, 9])
            per = 60 * 10 ** digits
            # steps of less than half a degree so that nothing looks like a jump
            step = per // 200 + 1
            lat = max(-90 * per, min(90 * per, lat0 + rng.randrange(-step, step + 1)))
            lon = max(-180 * per, min(180 * per, lon0 + rng.randrange(-step, step + 1)))
            if rng.random() < .15:          # a last digit away from a full degree
                lat, lon = (max(-m * per, min(m * per, round(v / per) * per + rng.choice([-1, 0, 1]))) for v, m in ((lat0, 90), (lon0, 180)))
            day = (EPOCH + dt.timedelta(microseconds=us)).date()
            oth = lambda: ng.other(rng, ship, day)

            def lead(pre):
                # Revelle: the date line may come several lines before; an earlier dated line must not count
                o = [x for x in (oth() for _ in range(rng.randrange(5, 70) if rng.random() < .08 else rng.randrange(3))) if not x[:4].isdigit()]
                older = ['1999-01-02T03:04:05.000000Z $GPHDT,1.0,T*00'] if rng.random() < 0.3 else []
                return older + pre + o
            for _ in range(rng.randrange(3)):
                o = oth()
                if tk not in o:
                    f.append(o)
            drop = rng.random() < 0.06
            f += ng.fix(rng, ship, tk, us, None if drop else lat, None if drop else lon, digits, nfrac,
                        rng.choice([0, 0, 0, 1, 2, 3]), lead)
            if rng.random() < 0.4:
                o = oth()
                if tk not in o:
                    f.append(o)
            us += rng.choice([1000000, 500000, 60000000, 3600000000] + ([250000] * 9 if len(sizes) == 1 else []))
            if far:
                us = rand_instant(rng, ship, rng.randrange(3))
        files.append(f)
    return dict(kind=ship, ship=ship, talker=talker, files=files, nl=rng.choice(['\n', '\n', '\r\n']),
                last=rng.random() < 0.8, single=rng.random() < 0.5)


class C(Check):
    pid = 'C01'
    trace = ('TraceNav', 'TraceNav.cfg')

    def mc(self, tier):
        return [('MC_NavSeries', 'MC_NavTiny.cfg', {})]

    def cases(self, rng, tier, scen):
        n = 220 if tier == 'quick' else 1500
        out = []
        for ship in ng.VESSELS:
            for _ in range(n):
                tk = None
                if rng.random() < 0.3:
                    tk = rng.choice(['GPGGA', 'INGGA']) if ship != 'Sikuliaq' else 'GPGGA'
                out.append(case(rng, ship, tk))
            for m in ([30, 150] if tier == 'quick' else [30, 60, 150, 300, 600, 1100]):
                out.append(case(rng, ship, None, (m,)))
        for ship in rng.sample(ng.VESSELS, 1) if tier == 'quick' else ng.VESSELS:
            c = case(rng, ship, None, (1010,))
            out.append(dict(c, files=c['files'][:1]))
        return out

    def observe(self, case):
        return ng.observe(case)


CHECK = C()
