"""C28: a survey, from the files of the vessel to the free-air anomaly, as the documentation does it."""
import datetime as dt
import math
import os
import gravgen as gg
import navgen as ng
import num
import numgen
from vlib import Check, call

EPOCH = ng.EPOCH
GCOL = {('rgs', None): 'grav', ('bgm', None): 'rgrav', ('laptop', None): 'rgrav', ('raw', None): 'Gravity', ('raw', 'Sikuliaq'): 'rgrav'}
PAIRS = [(r, s) for r in ('rgs', 'bgm', 'laptop', 'raw') for s in gg.READERS[r] if s in ng.VESSELS]


def split(rng, items, parts):
    """cut a list into parts of at least one item"""
    parts = min(parts, len(items))
    cut = sorted(rng.sample(range(1, len(items)), parts - 1)) + [len(items)]
    return [items[a:b] for a, b in zip([0] + cut, cut)]


def ini(rng):
    g = rng.choice(['%.4f' % rng.uniform(4e5, 5e5), str(rng.randrange(300000, 500000)), '%.1f' % rng.uniform(-10, 10)])
    g0 = rng.choice(['0.0', '%.3f' % rng.uniform(-5000, 5000), '0'])
    note = lambda: rng.choice(['', '', ' // from tie', '// calibrated 2019-03-01', '  //  -12.5 (old)'])
    sensor = ['GravCal=' + g + note(), 'g0=' + g0 + note(), 'LongCal = 9.5', 'beamgain=\t1.25 // gain', 'SerialPort="COM3 // x"']
    rng.shuffle(sensor)
    other = ['[Meter]', 'Name=AT1M 25', 'Logging=TRUE', 'GravCal=1.0', 'g0=7']
    s = ['[Sensor]'] + sensor
    return rng.choice([['// meter'] + other + [''] + s, s + [''] + other])


def track(rng, lat0, lon0, speed):
    """smooth track; returns position at time s (seconds)"""
    course, turn = rng.uniform(-math.pi, math.pi), rng.choice([0, 0, rng.uniform(-.2, .2)])
    wob = rng.choice([0, 0, speed * rng.uniform(0, .5)])
    w = rng.uniform(.05, 1)
    c = max(.2, math.cos(math.radians(lat0)))

    def at(s):
        if turn:
            x = (math.cos(course) - math.cos(course + turn * s)) / turn
            y = (math.sin(course + turn * s) - math.sin(course)) / turn
        else:
            x, y = math.sin(course) * s, math.cos(course) * s
        return lat0 + speed * y + wob * math.cos(w * s), lon0 + (speed * x + wob * math.sin(w * s)) / c
    return at


def survey(rng, reader, ship, n=None, big=False):
    tk = None
    if ship in ('Ride', 'Thompson', 'Langseth') and rng.random() < .3:
        tk = 'GPGGA'
    talker = tk or ng.LISTED[ship]
    n = n or rng.choice([3, 4, 6, 8, 12])
    dm = rng.choice([1, 1, 1, 2, 10])
    dn = 1000000 if ship == 'Thompson' else rng.choice([1000000, 1000000, 500000, 200000]) if not big and dm == 1 else 1000000
    dn *= rng.choice([1, 1, 2]) * (1 if dm < 10 else rng.choice([3, 10]))
    d = dt.datetime(rng.randrange(2001, 2038), rng.randrange(1, 13), rng.randrange(1, 29))
    eve = d.replace(day=1) - dt.timedelta(days=1)
    d = rng.choice([d, d, eve, eve, dt.datetime(2024, 2, 28), dt.datetime(rng.randrange(2001, 2037), 12, 31), dt.datetime(2020, 12, 30)])
    t0 = d + dt.timedelta(seconds=rng.choice([rng.randrange(86400), 86400 - rng.randrange(1, n * dm), 86400 - rng.randrange(1, n * dm), 43200 - rng.randrange(4)]))
    lat0 = rng.choice([rng.uniform(-75, 75), rng.uniform(-75, 75), rng.uniform(-1e-4, 1e-4), 0.0])
    lon0 = rng.choice([rng.uniform(-175, 175), rng.uniform(-175, 175), 180 - rng.uniform(0, 3e-4), rng.uniform(0, 3e-4) - 180, rng.uniform(20, 160), 0.0])
    pos = track(rng, lat0, lon0, rng.choice([0, 1e-5, 5e-5, 5e-5, 1e-4]))
    digits = rng.choice([4, 5, 6, 7])
    per = 60 * 10 ** digits
    # nav
    early, late = rng.choice([2, 2, 5, 0, -2]), rng.choice([2, 2, 5, 0, -2])
    us0 = int((t0 - EPOCH).total_seconds()) * 10 ** 6 - early * 10 ** 6
    us1 = us0 + (early + n * dm + late) * 10 ** 6
    us = list(range(us0, max(us1, us0 + 2 * dn) + 1, dn))
    if rng.random() < .3 and len(us) > 5:          # a few fixes lost
        us = [u for u in us if rng.random() < .8 or u in (us[0], us[1], us[-1])]
    groups = []
    for u in us:
        la, lo = pos((u - us0) / 1e6)
        lo = (lo + 180) % 360 - 180
        a, b = round(la * per), round(lo * per)
        drop = rng.random() < .04 and u not in (us[0], us[1], us[-1])
        lines = []
        day = (EPOCH + dt.timedelta(microseconds=u)).date()
        nfrac = 0 if u % 10 ** 6 == 0 and rng.random() < .5 else rng.choice([1, 2, 3, 6])
        if rng.random() < .2:
            o = ng.other(rng, ship, day)
            if talker not in o and not o[:4].isdigit():
                lines.append(o)
        lines += ng.fix(rng, ship, talker, u, None if drop else a, None if drop else b, digits, nfrac, 0)
        groups.append((lines, drop))
    parts = split(rng, groups, rng.choice([1, 1, 2, 3]))
    nav = [[l for g, _ in p for l in g] for p in parts]
    rng.shuffle(nav)
    # meter
    st = gg.file_style(rng, reader, ship)
    if reader == 'raw' and ship not in ('Thompson', 'Sikuliaq'):
        st['sync'] = rng.random() < .6
        st['logger'] = True if not st['sync'] else rng.random() < .6
        st['zone'] = True
    rows = [gg.row(rng, reader, ship, t0 + dt.timedelta(seconds=i * dm), st) for i in range(n)]
    if rng.random() < .3:
        rng.shuffle(rows)
    mparts = split(rng, rows, rng.choice([1, 1, 2, 3]))
    rng.shuffle(mparts)
    meter = [(gg.header(rng) if (reader, ship) == ('laptop', 'Sikuliaq') else []) + p for p in mparts]
    ht = [0.0] * n if rng.random() < .6 else numgen.walk(rng, n, rng.uniform(-20, 30), 1)
    # date line: the reader's continuity is stated for complete tracks that do not touch it (C03)
    lons = [round((pos((u - us0) / 1e6)[1] + 180) % 360 - 180, digits + 2) for u in us]
    if any(abs(x - y) > 180 for x, y in zip(lons, lons[1:])):
        if any(g[1] for g in groups) or len(us) != len(range(us[0], us[-1] + 1, dn)) or any(abs(x) > 180 - 1e-6 for x in lons):
            return survey(rng, reader, ship, n, big)
    return dict(kind='%s-%s' % (reader, ship), reader=reader, ship=ship, talker=tk, nav=nav, meter=meter, ini=ini(rng) if reader == 'raw' else None,
                bias=rng.choice([969492.789, 855580.65, 0.0, round(rng.uniform(8e5, 9.8e5), 3)]), dm=dm, ht=ht,
                style=rng.choice(['series', 'series', 'values']), single=rng.random() < .5)


class C(Check):
    pid = 'C28'
    trace = ('TraceSurvey', 'TraceSurvey.cfg')
    note = ('TLC explores every small survey at design level (all fixes, all record orders: every record once, in order, between its fixes). Whole surveys '
            'of every vessel and meter, written as files, are processed with the real functions the way the examples do; the specification reads the same '
            'text and recomputes position, normal gravity, Eotvos correction, tide, full field and free-air anomaly of every record.')
    assumptions = ['tracks of ship-like speed; records at distinct times; heights given by the caller; calibration from the ini file for raw records']

    def mc(self, tier):
        return [('MC_Survey', 'MC_Survey.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        for reader, ship in PAIRS:
            for _ in range(9 if tier == 'quick' else 90):
                out.append(survey(rng, reader, ship))
        for reader, ship in rng.sample(PAIRS, 4 if tier == 'quick' else len(PAIRS)):
            out.append(survey(rng, reader, ship, n=rng.choice([40, 75]), big=True))
        return out

    def observe(self, case):
        return observe(case)


def process(case, navnames, meternames, ininame):
    """what a user does, after the scripts of example-scripts"""
    import numpy as np
    import tomli
    from scipy.interpolate import interp1d
    import shipgrav.grav as sgg
    import shipgrav.io as sgi
    import shipgrav.utils as sgu
    ship, reader = case['ship'], case['reader']
    kw = dict(talker=case['talker']) if case['talker'] else {}
    nav = sgi.read_nav(ship, navnames, progressbar=False, **kw)
    nav.sort_values('time_sec', inplace=True)
    nav.reset_index(inplace=True, drop=True)
    nav = nav.dropna(subset=['lon', 'lat']).reset_index(drop=True)
    f = dict(rgs=sgi.read_bgm_rgs, bgm=sgi.read_bgm_raw, laptop=sgi.read_dgs_laptop, raw=sgi.read_dgs_raw)[reader]
    data = f(meternames, ship, progressbar=False)
    data.sort_values('date_time', inplace=True)
    data.reset_index(inplace=True, drop=True)
    data['tsec'] = [e.timestamp() for e in data['date_time']]
    raw = data[gcol(reader, ship)]
    if reader == 'raw':
        conf = tomli.load(open(sgu.clean_ini_to_toml(ininame), 'rb'))
        with open(os.path.join(os.path.dirname(sgi.__file__), 'database.toml'), 'rb') as h:
            factor = tomli.load(h)['dgs-stuff']['calibration_factor']
        raw = raw * conf['Sensor']['GravCal'] / factor + conf['Sensor']['g0']
    data['grav'] = raw + case['bias']
    for c in ('lon', 'lat'):
        data[c + '_new'] = interp1d(nav['time_sec'].values, nav[c].values, kind='linear', fill_value='extrapolate')(data['tsec'].values)
    ht = np.array(case['ht'])
    samp = 1 / case['dm']
    lon, lat, times = data['lon_new'], data['lat_new'], data['date_time']
    if case['style'] == 'values':
        lon, lat = lon.values, lat.values
        times = list(times)
    data['normal'] = sgg.wgs_grav(lat) + sgg.free_air_second_order(lat, ht)
    data['eotvos'] = sgg.eotvos_full(data['lon_new'].values, data['lat_new'].values, ht, samp)
    data['tide'] = sgg.longman_tide_prediction(lon, lat, times)
    data['faa'] = data['grav'] - data['normal'] + data['eotvos'] + data['tide']
    data['full_field'] = data['grav'] + data['eotvos'] + data['tide']
    return data


def gcol(reader, ship):
    return GCOL.get((reader, ship)) or GCOL[(reader, None)]


def write(d, files):
    os.mkdir(d)
    os.chdir(d)
    try:
        return [os.path.join(d, x) for x in ng.write(files)]
    finally:
        os.chdir('..')


def observe(case):
    navnames, meternames = write('nav', case['nav']), write('meter', case['meter'])
    if case['ini']:
        with open('Meter.ini', 'w') as f:
            f.write('\n'.join(case['ini']) + '\n')
    one = lambda x: x[0] if case['single'] and len(x) == 1 else x
    st, r = call(process, case, one(navnames), one(meternames), 'Meter.ini')
    obs = dict(kind='raise', rows=[])
    if st == 'ok':
        try:
            rows = []
            for i in range(len(r)):
                x = r.iloc[i]
                t = gg.value(x['date_time'])
                rows.append(dict(t=t['t'] if t['k'] == 't' else [0, 0, 0], **{a: num.num(float(x[b])) for a, b in [
                    ('lon', 'lon_new'), ('lat', 'lat_new'), ('normal', 'normal'), ('eotvos', 'eotvos'), ('tide', 'tide'), ('full', 'full_field'), ('faa', 'faa')]}))
            obs = dict(kind='table', rows=rows)
        except Exception:
            obs['kind'] = 'other'
    e = numgen.arr
    enc = lambda fs: [[num.codes(l) for l in f] for f in fs]
    nav = dict(ship=case['ship'], own=case['talker'] is not None, talker=num.codes(case['talker'] or ''), fn=False, decim=0, files=enc(case['nav']))
    grav = dict(reader=case['reader'], ship=case['ship'], fn=False, scale=[], ccp=True, files=enc(case['meter']))
    req = dict(nav=nav, grav=grav, ini=enc([case['ini'] or []])[0], cal=case['reader'] == 'raw', gcol=gcol(case['reader'], case['ship']),
               bias=e([case['bias']])[0], samp=e([1 / case['dm']])[0], ht=e(case['ht']))
    return dict(req=req, obs=obs)


CHECK = C()
