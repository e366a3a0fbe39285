"""Text of navigation files for each vessel."""
import datetime as dt

VESSELS = ['Atlantis', 'NBP', 'Thompson', 'Revelle', 'Ride', 'Langseth', 'Sikuliaq']
LISTED = dict(Atlantis='GPGGA', Thompson='INGGA', NBP='GPGGA', Ride='INGGA', Revelle='GPGGA',
              Langseth='INGGA', Sikuliaq='GPGGA')
EPOCH = dt.datetime(1970, 1, 1)


def lines_of(files):
    return [[l for l in f] for f in files]


def other(rng, ship, day):
    """a line without position talker"""
    tk = rng.choice(['GPZDA', 'GPRMC', 'GPVTG', 'GPHDT', 'PSXN', 'INZDA', 'INGLL'])
    body = rng.choice(['121733.00,01,07,2022,00,00*67', '218.7,T,,M,0.01,N,0.02,K,D*07',
                       '121733.00,A,4131.403226,N,07040.311159,W,0.01,218.7,010722,,,D*7C', ''])
    k = rng.random()
    if k < 0.08:
        return ''
    if k < 0.12:
        return rng.choice(['#', ' ', '\t', 'x']) + '%04d-%02d-%02dT00:00:00.5Z %d' % (1990 + rng.randrange(40), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(9))
    if k < 0.16:
        return 'junk ' + str(rng.randrange(10 ** 6))
    return prefix(rng, ship, day) + '$' + tk + ',' + body


def prefix(rng, ship, day, clock=None):
    h, m, s = rng.randrange(24), rng.randrange(60), rng.randrange(60)
    us = rng.randrange(10 ** 6)
    if ship == 'Atlantis':
        return 'NAV %04d/%02d/%02d %02d:%02d:%02d.%03d GPS ' % (day.year, day.month, day.day, h, m, s, us // 1000)
    if ship == 'NBP':
        return '%02d+%03d:%02d:%02d:%02d.%03d ' % (day.year % 100, day.timetuple().tm_yday, h, m, s, us // 1000)
    if ship == 'Thompson':
        return '%02d/%02d/%04d,%02d:%02d:%02d.%03d,' % (day.month, day.day, day.year, h, m, s, us // 1000)
    if ship == 'Revelle':
        return ''
    if ship == 'Langseth':
        return 'seapath\t%04d:%03d:%02d:%02d:%02d.%04d\t' % (day.year, day.timetuple().tm_yday, h, m, s, us // 100)
    if ship == 'Ride':
        t = int((dt.datetime(day.year, day.month, day.day, h, m, s) - EPOCH).total_seconds())
        return '%d.%03d ' % (t, us // 1000)
    return '%04d-%02d-%02dT%02d:%02d:%02d.%06dZ ' % (day.year, day.month, day.day, h, m, s, us)


def coord(rng, deg, minutes, width, digits):
    """deg int, minutes as integer count of 10^-digits minutes"""
    w = minutes // 10 ** digits
    f = minutes % 10 ** digits
    return ('%0' + str(width) + 'd%02d') % (deg, w) + ('.' + '%0' + str(digits) + 'd' % () if False else '') + \
        (('.' + str(f).zfill(digits)) if digits else '')


def split_deg(value_udeg60, digits):
    """position in units of 10^-digits minutes (>= 0) -> degrees, minutes"""
    per = 60 * 10 ** digits
    return divmod(value_udeg60, per)


def frac_text(us, n):
    if n > 6:                    # beyond microseconds; the digits behind are less than a half
        return '.%06d' % us + '4999'[:n - 6]
    return ('.' + ('%06d' % us)[:n]) if n else ''


def fix(rng, ship, talker, us, lat, lon, digits, nfrac=3, style=0, lead=None):
    """Lines of one fix. us = microseconds since 1970 (only the first nfrac digits are written);
    lat, lon in units of 10^-digits minutes, signed; None = dropout. lead: lines in front (Revelle)."""
    t = EPOCH + dt.timedelta(microseconds=us)
    day = t.date()
    fr = frac_text(t.microsecond, nfrac)
    clock = '%02d%02d%02d%s' % (t.hour, t.minute, t.second, fr)
    if lat is None:
        pos = rng.choice([',N,,E', ',,,', ',S,,W', '4131.5,N,,', ',,07040.25,W'])
    else:
        d, m = split_deg(abs(lat), digits)
        D, M = split_deg(abs(lon), digits)
        ns = 'S' if lat < 0 else 'N'
        ew = 'W' if lon < 0 else 'E'
        if lon == 0 or lat == 0:
            ew = rng.choice('EW') if lon == 0 else ew
            ns = rng.choice('NS') if lat == 0 else ns
        pos = '%s,%s,%s,%s' % (coord(rng, d, m, 2, digits), ns, coord(rng, D, M, 3, digits), ew)
    sep = [',', ' ,', ' ', '  ,'][style]
    tail = rng.choice([',2,12,0.9,25.169,M,-30.062,M,4.0,0402*46', ',5,26,0.8,0.19,M,,,7,1015*06', ',1,9,1.2*55'])
    body = '$' + talker + sep + clock + ',' + pos + tail
    if ship == 'Ride' and talker == 'INGGA':
        p = int((t.replace(microsecond=0) - EPOCH).total_seconds())
        return ['%d%s %s' % (p, fr, body)]
    if ship in ('Ride', 'Sikuliaq'):
        return ['%04d-%02d-%02dT%02d:%02d:%02d%sZ %s' % (t.year, t.month, t.day, t.hour, t.minute, t.second,
                                                      fr or '.0', body)]
    if ship == 'Langseth':
        return ['seapath\t%04d:%03d:%02d:%02d:%02d%s\t%s' % (t.year, t.timetuple().tm_yday, t.hour, t.minute,
                                                             t.second, fr or '.0', body)]
    if ship == 'Revelle':
        pre = ['%04d-%02d-%02dT%02d:%02d:%02d.%06dZ $GPZDA,%s' % (
            day.year, day.month, day.day, rng.randrange(24), rng.randrange(60), rng.randrange(60),
            rng.randrange(10 ** 6), clock)]
        if lead is not None:
            pre = lead(pre)
        return pre + [body]
    return [prefix(rng, ship, day) + body]


def user_function(allnav, talker):
    """The reader function the harness supplies: 'posix lon lat talker' lines."""
    import numpy as np
    lon, lat, t = [], [], []
    for s in allnav:
        if talker in s:
            a, b, c = s.split()[:3]
            t.append(dt.datetime.fromtimestamp(float(a), dt.timezone.utc))
            lon.append(float(b))
            lat.append(float(c))
    return np.array(lon), np.array(lat), t


FILENAMES = ['f%d.txt', 'data_%d_longer.GPS', 'Z%d', 'a%d.Raw', '%d.dat', 'on deck %d.txt', 'f%d.d100']


def write(files, names=None, nl='\n', last=True):
    """write files into the current directory; returns their names"""
    out = []
    for i, f in enumerate(files):
        n = FILENAMES[i % len(FILENAMES)] % i     # in no order of name, length or kind
        with open(n, 'w', newline='') as h:
            h.write(nl.join(f))
            if f and last:
                h.write(nl)
        out.append(n)
    return out


def coltype(c):
    """of a table's column: 't' times with a zone, 'n' numbers, 'o' anything else"""
    import pandas as pd
    if isinstance(c.dtype, pd.DatetimeTZDtype):
        return 't'
    return 'n' if pd.api.types.is_numeric_dtype(c.dtype) and not pd.api.types.is_bool_dtype(c.dtype) else 'o'


def observe(case):
    import pandas as pd
    import num
    from vlib import call
    import shipgrav.io as sgi
    files = case['files']
    names = write(files, nl=case.get('nl', '\n'), last=case.get('last', True))
    kw = {}
    if case.get('talker') is not None:
        kw['talker'] = case['talker']
    if case.get('fn'):
        kw['ship_function'] = user_function
    if case.get('sampling') is not None:
        kw['sampling'] = case['sampling']
    if case.get('decim') is not None:
        kw['decimate'] = case['decim']
    arg = names[0] if case.get('single') and len(names) == 1 else names
    st, r = call(sgi.read_nav, case['ship'], arg, progressbar=False, **kw)
    obs = dict(kind='raise', rows=[], types={'-': 'o'})
    if st == 'ok':
        if isinstance(r, pd.DataFrame):
            if {'time_sec', 'lon', 'lat', 'stamps'} <= set(r.columns):
                rows = []
                for a, b, c, d in zip(r['time_sec'], r['lon'], r['lat'], r['stamps']):
                    try:
                        off = d.utcoffset()
                        stamp = num.instant_us(round((d - EPOCH.replace(tzinfo=dt.timezone.utc)) / dt.timedelta(microseconds=1))) \
                            if off is not None else []
                    except Exception:
                        stamp = []
                    rows.append(dict(t=num.instant(a) or [0, 0, 0], st=stamp, lon=num.num(float(b)), lat=num.num(float(c))))
                obs = dict(kind='table', rows=rows, types={c: coltype(r[c]) for c in ('time_sec', 'lon', 'lat', 'stamps')})
            else:
                obs['kind'] = 'table-without-columns'
        elif isinstance(r, int) and r == -999:
            obs['kind'] = 'sentinel'
        else:
            obs['kind'] = 'other'
    req = dict(ship=case['ship'], own=case.get('talker') is not None, talker=num.codes(case.get('talker') or ''), fn=bool(case.get('fn')),
               decim=case.get('decim') or 0, files=[[num.codes(l) for l in f] for f in files])
    return dict(req=req, obs=obs)
