"""Text of gravity files for each reader and vessel, and the call of the readers."""
import datetime as dt
import num

EPOCH = dt.datetime(1970, 1, 1)
LAPTOPS = ['Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Thompson', 'Sikuliaq', 'Langseth']
BGMS = ['Atlantis', 'Thompson', 'Revelle', 'Langseth']
RAWS = ['Atlantis', 'Revelle', 'NBP', 'Ride', 'Langseth', 'Titanic', 'Thompson', 'Sikuliaq']
READERS = {'rgs': ['Atlantis', 'NBP'], 'bgm': BGMS, 'laptop': LAPTOPS, 'raw': RAWS}


def dec(rng, lo=-1000, hi=1000, nd=None):
    nd = rng.choice([0, 1, 3, 6, 12]) if nd is None else nd
    v = rng.randrange(int(lo) * 10 ** nd, int(hi) * 10 ** nd + 1)
    if lo < 0 < hi and nd and rng.random() < .06:
        v = rng.randrange(1 - 10 ** nd, 10 ** nd)
    s = '-' if v < 0 else ''
    v = abs(v)
    if nd and v < 10 ** nd and rng.random() < .5:
        return s + '.' + str(v).zfill(nd)        # no digit in front of the point
    return s + (('%d.%s' % (v // 10 ** nd, str(v % 10 ** nd).zfill(nd))) if nd else str(v))


def padded(rng, s):
    return s if rng.random() < 0.4 else s.rjust(rng.choice([12, 16]))


def when(rng, base=None):
    if base is None:
        d = rng.choice([dt.datetime(rng.randrange(2001, 2038), rng.randrange(1, 13), rng.randrange(1, 29)),
                        dt.datetime(2024, 2, 29), dt.datetime(rng.randrange(2001, 2038), 12, 31),
                        dt.datetime(rng.randrange(2001, 2038), 1, 1), dt.datetime(2022, 3, 4), dt.datetime(2023, 10, 12)])
        d += dt.timedelta(seconds=rng.choice([rng.randrange(86400), 0, 86399]))
    else:
        d = base + dt.timedelta(seconds=rng.choice([1, 1, 1, 0, 2, 3600, -5]))
    return d


def frac(rng, n):
    return str(rng.choice([0, rng.randrange(10 ** n), 10 ** n - 1, rng.randrange(10 ** (n - 1))])).zfill(n)


def counts(rng):
    return rng.choice(['%06d' % rng.randrange(10 ** 6), '0' + str(rng.randrange(20000, 30000)), str(rng.randrange(1, 10)),
                       '%d' % rng.randrange(10 ** 7), '000000', '-%d' % rng.randrange(10 ** 4), '%09d' % rng.randrange(10 ** 5)])


def row(rng, reader, ship, t, st):
    """one record; st holds what is fixed for the whole file (fraction digits etc.)"""
    f3 = frac(rng, st['nf'])
    if reader == 'rgs':
        return ('RGS %04d/%02d/%02d %02d:%02d:%02d.%s %s %s 1656633600.445 4.994070552 855577.390 BGM3 S210 GPS: %s %s '
                '1656633599.533 0 0 UNKNOWN_SRC 0.010 135.000 DEPTH: -999 -999 NONE HDG: 243.380 1656633599.855 SRC_GYRO '
                'NO_DNV_ERROR 1656633600.445 -999') % (t.year, t.month, t.day, t.hour, t.minute, t.second, f3,
                                                       dec(rng, 970000, 990000, rng.choice([3, 3, 0, 1, 2, 4, 6])), rng.randrange(20000, 30000),
                                                       dec(rng, -90, 90, st['secfmt'] * 3 + 3), dec(rng, -180, 180, st['secfmt'] * 3 + 4))
    if reader == 'bgm':
        c = '%02d:%s' % (rng.choice([4, 4, 5]), counts(rng))
        if ship == 'Atlantis':
            return 'BGM %04d/%02d/%02d %02d:%02d:%02d.%s BGM3 %s 00' % (t.year, t.month, t.day, t.hour, t.minute, t.second, f3, c)
        if ship == 'Thompson':
            return '%02d/%02d/%04d,%02d:%02d:%02d.%s,%s 00' % (t.month, t.day, t.year, t.hour, t.minute, t.second, f3, c)
        if ship == 'Revelle':
            return '%04d-%02d-%02dT%02d:%02d:%02d.%sZ %s 00' % (t.year, t.month, t.day, t.hour, t.minute, t.second, f3, c)
        if ship == 'Langseth':
            return 'vc01\t%04d:%03d:%02d:%02d:%02d.%s\t%s %s' % (t.year, t.timetuple().tm_yday, t.hour, t.minute, t.second, f3, c,
                                                               rng.choice(['00', '01', '']))
    if reader == 'laptop':
        nd = 25 if ship == 'Thompson' else 25
        body = [padded(rng, dec(rng, -10000, 10000)) for _ in range(19)]
        body[6] = padded(rng, str(rng.randrange(65536)))
        sf = st['secfmt']
        clock = ['%04d' % t.year, '%02d' % t.month, '%02d' % t.day, '%02d' % t.hour, '%02d' % t.minute,
                 ('%02d' % t.second) + ('' if sf == 0 else '.' + frac(rng, sf))]
        tail = [str(rng.randrange(10 ** 6))]
        if ship == 'Thompson':
            return ','.join(['%02d/%02d/%04d' % (t.month, t.day, t.year), '%02d:%02d:%02d.%s' % (t.hour, t.minute, t.second, f3)]
                            + body + clock + tail)
        if ship == 'Sikuliaq':
            body[0] = 'grav_dgs_33_proc\t%sZ\t%s' % (t.isoformat(), body[0].strip())
            return ','.join(body + clock + tail)
        if ship == 'Langseth':
            if rng.random() < 0.1:
                body[rng.choice([1, 2, 3, 10, 14])] = rng.choice(['***', '', 'x1'])
            if rng.random() < .1:                # nothing in the last field
                tail = [rng.choice(['', ' 7', '7 '])]
            s = ','.join(body + clock + tail)
            if st['prefix']:
                s = rng.choice(['', '', ' ', '\t']) + 'dgsdata\t%04d:%03d:%02d:%02d:%02d.%s%s' % (
                    t.year, t.timetuple().tm_yday, t.hour, t.minute, t.second, f3, rng.choice(['\t', ' ', '  '])) + s.strip()
            return s
        return ','.join(body + clock + tail)
    if reader == 'raw':
        ints = [str(rng.randrange(-10 ** 7, 10 ** 7)) for _ in range(3)] + \
               [str(rng.randrange(10 ** 7)), str(rng.randrange(999)), str(rng.randrange(999)), str(rng.randrange(999))] + \
               [str(rng.choice([0, 1, -1, rng.randrange(-10 ** 7, 10 ** 7), rng.randrange(-999, 999)])) for _ in range(4)] + \
               [str(rng.randrange(999)), str(rng.randrange(10 ** 8))]
        if st['secfmt'] == 1:            # a meter that writes decimals
            for i in rng.sample([0, 1, 2, 7, 8, 9, 10], rng.choice([1, 3])) + [0]:
                ints[i] = rng.choice([dec(rng, -1000, 1000), dec(rng, -1, 1, 3)])
        pos = [dec(rng, -90, 90, 10), dec(rng, -180, 180, 10), dec(rng, 0, 20, 4), dec(rng, 0, 360, 4)]
        name = '$AT1M_3.64_%d' % rng.randrange(10 ** 6)
        if ship == 'Sikuliaq':
            return 'grav_dgs_33_raw\t%04d-%02d-%02dT%02d:%02d:%02d.%sZ\t' % (
                t.year, t.month, t.day, t.hour, t.minute, t.second, f3) + ','.join([name] + ints + pos + ['438219$'])
        if ship == 'Thompson':
            return '%02d/%02d/%04d,%02d:%02d:%02d.%s,' % (t.month, t.day, t.year, t.hour, t.minute, t.second, f3) + \
                ','.join([name] + ints + pos + ['00000131034752 '])
        if st['sync']:
            ts = '%04d%02d%02d%02d%02d%02d' % (t.year, t.month, t.day, t.hour, t.minute, t.second)
        else:
            ts = str(rng.randrange(1686873601, 1999999999)) if st['unsync'] == 0 else str(rng.randrange(10, 20)) + '5'
        if st['logger']:
            name = '%04d-%02d-%02dT%02d:%02d:%02d.%s%s ' % (t.year, t.month, t.day, t.hour, t.minute, t.second, f3,
                                                          'Z' if st['zone'] else '') + name
        return ','.join([name] + ints + pos + [ts])
    raise ValueError((reader, ship))


def header(rng):
    h = ['# Platform:', '#   Name: R/V Sikuliaq', '#', '# Log Name\tLog Time\tQC_Gravity, Gravity'] * 5
    return h[:19]


def file_style(rng, reader, ship):
    nf = 3
    if reader == 'bgm' and ship == 'Revelle':
        nf = rng.choice([3, 6])
    elif reader == 'bgm' and ship == 'Langseth':
        nf = rng.choice([3, 4, 6])
    elif reader in ('raw', 'laptop') and ship in ('Sikuliaq', 'Langseth'):
        nf = rng.choice([3, 4])
    elif reader == 'raw':
        nf = rng.choice([3, 6])
    elif reader == 'rgs' or ship in ('Atlantis', 'Thompson'):
        nf = rng.choice([1, 2, 3, 6])
    return dict(nf=nf, secfmt=rng.choice([0, 2, 2, 1]), prefix=rng.random() < 0.7, sync=rng.random() < 0.5,
                logger=rng.random() < 0.6, zone=rng.random() < 0.7, unsync=rng.randrange(2))


def gen_file(rng, reader, ship, kinds=None, n=None):
    """lines of a file; kinds = list of row/blank/reject"""
    st = file_style(rng, reader, ship)
    if kinds is None:
        n = rng.choice([1, 2, 3, 6]) if n is None else n
        kinds = ['row'] * n
        if reader == 'laptop' and ship == 'Langseth':
            kinds = [rng.choice(['row', 'row', 'row', 'reject', 'blank']) for _ in kinds]
        elif rng.random() < 0.3 and reader != 'laptop':
            kinds.insert(rng.randrange(1, len(kinds) + 1), 'blank')
    out = header(rng) if (reader, ship) == ('laptop', 'Sikuliaq') else []
    t, last = when(rng), ''
    for k in kinds:
        t = when(rng, t)
        s = row(rng, reader, ship, t, st)
        if k == 'blank':
            s = ''
        elif k == 'reject':
            if (reader, ship) == ('raw', 'Sikuliaq'):
                s = '# comment'
            else:
                f = s.split(',')
                m = rng.randrange(6)
                if m == 0:
                    s = ','.join(f[:-1])
                elif m == 1:
                    s = ','.join(f + [rng.choice(['7', '', ''])])
                elif m == 2:
                    i = rng.randrange(1, len(f))
                    s = ','.join(f[:i] + f[i + 1:])
                elif m == 3:
                    s = rng.choice(['dgsdata', 'dgsdata 2025:254:00:00:00.9100', 'dgsdata\t'])
                elif m == 4:
                    s = 'dgsdata ' + s.split()[-1] if ' ' not in f[0] else ','.join(f[:3])
                    if len(s.split(None, 2)) > 2:
                        s = 'dgsdata x 1,2,3'
                else:
                    s = rng.choice(['garbage', ',' * 24, ',' * 26, '1,2,3'])
        elif rng.random() < .08 and out and last:
            s = last                     # the same record again
        if k == 'row':
            last = s
        out.append(s)
    return out


def bgm_function(path):
    import pandas as pd
    rows = [l.split() for l in open(path) if l.strip()]
    return pd.DataFrame({'counts': [int(r[1].split(':')[-1]) for r in rows]})


def laptop_function(path):
    import pandas as pd
    rows = [l.split() for l in open(path) if l.strip()]
    return pd.DataFrame({'rgrav': [float(r[0]) for r in rows], 'mark': [r[1] for r in rows]})


def value(x):
    import numpy as np
    import pandas as pd
    v = dict(k='o', n=[], s=[], t=[])
    if x is None or x is pd.NaT or (isinstance(x, (float, np.floating)) and np.isnan(x)):
        v['k'] = 'm'
    elif isinstance(x, (pd.Timestamp, dt.datetime)):
        x = pd.Timestamp(x)
        if x.tzinfo is None:
            v['k'] = 'u'
            ns = x.as_unit('ns').value
        else:
            v['k'] = 't'
            ns = x.tz_convert('UTC').as_unit('ns').value
        v['t'] = num.instant_us((ns + 500) // 1000)
    elif isinstance(x, (bool, np.bool_)):
        pass
    elif isinstance(x, (int, np.integer)):
        v['k'], v['n'] = 'n', num.num(int(x))
    elif isinstance(x, (float, np.floating)):
        v['k'], v['n'] = 'n', num.num(float(x))
    elif isinstance(x, str):
        v['k'], v['s'] = 's', num.codes(x)
    return v


def observe(case):
    import pandas as pd
    from vlib import call
    import navgen
    import shipgrav.io as sgi
    names = navgen.write(case['files'], last=case.get('last', True))
    names = [names[i] for i in case.get('order', range(len(names)))]
    files = [case['files'][i] for i in case.get('order', range(len(case['files'])))]
    reader = case['reader']
    f = dict(rgs=sgi.read_bgm_rgs, bgm=sgi.read_bgm_raw, laptop=sgi.read_dgs_laptop, raw=sgi.read_dgs_raw)[reader]
    kw = {}
    if case.get('fn'):
        kw['ship_function'] = bgm_function if reader == 'bgm' else laptop_function
    if case.get('scale') is not None:
        kw['scale'] = case['scale']
    if reader == 'raw' and case.get('ccp') is not None:
        kw['scale_ccp'] = case['ccp']
    if not case.get('bar'):
        kw['progressbar'] = False
    arg = names[0] if case.get('single') and len(names) == 1 else names
    st, r = call(f, arg, case['ship'], **kw)
    obs = dict(kind='raise', n=0, cols={'-': []}, types={'-': 'o'}, index=True)
    if st == 'ok':
        if isinstance(r, pd.DataFrame):
            cols, types = {}, {'-': 'o'}
            for c in r.columns:
                if isinstance(r[c], pd.Series):
                    cols[str(c)] = [value(x) for x in r[c]]
                    types[str(c)] = navgen.coltype(r[c])
            obs = dict(kind='table', n=len(r), cols=cols, types=types, index=list(r.index) == list(range(len(r))))
        elif isinstance(r, int) and r == -999:
            obs['kind'] = 'sentinel'
        else:
            obs['kind'] = 'other'
    req = dict(reader=reader, ship=case['ship'], fn=bool(case.get('fn')),
               scale=num.num(case['scale']) if case.get('scale') is not None else [],
               ccp=True if case.get('ccp') is None else case['ccp'],
               files=[[num.codes(l) for l in x] for x in files])
    return dict(req=req, obs=obs)


def rand_case(rng, reader, ship=None, nfiles=None, kind=None, n=None):
    ship = ship or rng.choice(READERS[reader])
    nf = nfiles or rng.choice([1, 1, 1, 2, 3] if rng.random() < .93 else [4, 5, 8])
    files = []
    for _ in range(nf):
        files.append(gen_file(rng, reader, ship, n=n))
    if (reader, ship) == ('laptop', 'Langseth') and rng.random() < .04:          # no usable line at all
        files = [[l for l in f if len(l.split(',')) != 26] for f in files]
        files = rng.choice([files, [[]], [['']]])
    elif (reader, ship) == ('laptop', 'Langseth'):
        files[0].append(row(rng, reader, ship, when(rng), file_style(rng, reader, ship)))
    c = dict(kind=kind or '%s-%s' % (reader, ship), reader=reader, ship=ship, files=files, single=rng.random() < 0.5,
             last=rng.random() < 0.8)
    if reader == 'bgm' and rng.random() < 0.3:
        c['scale'] = rng.choice([1.0, 5.0, 4.98, 0.5, 2, 5.003353363])
    if reader == 'raw':
        c['ccp'] = rng.choice([None, True, False])
    return c
