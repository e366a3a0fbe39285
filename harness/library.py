"""Calls of every public function for the histories of C27.

make(name, variant, version, path) returns a Slot: the function, its arguments and the files it
names.  Variants of a function differ from variant 0 in one parameter or in the data only (same
shape); versions 1 and 2 of a variant differ in the contents of the mutable arguments and files."""
import datetime as dt
import hashlib
import os
import random
import gravgen
import navgen


class Slot:
    def __init__(self, fn, args, kw=None, files=None, fixed=False):
        self.fn, self.args, self.kw, self.files = fn, list(args), dict(kw or {}), dict(files or {})


def _np():
    import numpy as np
    return np


def A(rng, n, lo=-1.0, hi=1.0):
    return _np().array([rng.uniform(lo, hi) for _ in range(n)])


def walk(rng, n, start, step):
    v, out = start, []
    for _ in range(n):
        out.append(v)
        v += rng.uniform(0, step)
    return _np().array(out)


# ---- functions without files: variant -> parameters

def gauss(form):
    def f(v, rng):
        import shipgrav.utils as u
        import pandas as pd
        n = [40, 40, 40, 41, 60, 40, 40, 40][v]
        x = A(rng, n, -50, 50)
        x = list(map(float, x)) if form == 'list' else pd.Series(x) if form == 'series' else x
        return Slot(u.gaussian_filter, [x, [7, 8, 15, 7, 7, 7.5, 8.9, 7.0][v]])
    return f


def decode(v, rng):
    import shipgrav.utils as u
    return Slot(u.decode_dgs_status_bits, [rng.randrange(65536)])


def dtable(v, rng):
    import shipgrav.utils as u
    import pandas as pd
    key = ['status', 'word'][v % 2]
    n = [5, 5, 0, 9][v]
    df = pd.DataFrame({'a': [1.5] * n, key: [rng.randrange(65536) for _ in range(n)], 'b': ['x'] * n})
    return Slot(lambda d, **k: u.decode_dgs_status_bits(d.copy(), **k), [df], {} if key == 'status' else dict(key=key))


def tide(form):
    def f(v, rng):
        import shipgrav.grav as g
        import numpy as np
        n = [6, 6, 6, 6, 1, 6, 6][v]
        t0 = [dt.datetime(2022, 7, 1), dt.datetime(1999, 12, 31, 23)][v == 1]
        zone = dt.timezone(dt.timedelta(hours=[0, 0, 0, 0, 0, 5, -3][v]))      # 5, 6: the same clocks elsewhere
        t = [(t0 + dt.timedelta(seconds=rng.randrange(86400))).replace(tzinfo=zone) for _ in range(n)]
        if form == 'array':
            t = np.array(t)
        kw = [{}, {}, dict(alt=120.0), dict(return_components=True), {}, {}, {}][v]
        return Slot(g.longman_tide_prediction, [A(rng, n, -180, 180), A(rng, n, -80, 80), t], kw)
    return f


def eotvos(v, rng):
    import shipgrav.grav as g
    n = [9, 9, 9, 30][v]
    return Slot(g.eotvos_full, [walk(rng, n, 10.0, 1e-4), walk(rng, n, -40.0, 1e-4), A(rng, n, -2, 2), [1, 10, 1, 1][v]], [{}, {}, dict(a=6378388.0, b=6356911.9), {}][v])


def freeair(v, rng):
    import shipgrav.grav as g
    return Slot(g.free_air_second_order, [A(rng, 6, -90, 90), A(rng, 6, -20, 4000)], [{}, dict(free_water=True)][v])


def wgs(v, rng):
    import shipgrav.grav as g
    return Slot(g.wgs_grav, [A(rng, [6, 6, 1][v], -90, 90)])


def cross(v, rng):
    import shipgrav.grav as g
    n = [1200, 1200, 1200, 2300][v]
    sig = [_np().cumsum(A(rng, n)) for _ in range(6)]
    kw = {}
    if v >= 2:
        t = _np().arange(n, dtype=float)
        t[n // 2:] += 100 if v == 3 else 2
        kw = dict(times=t, samplerate=1)
    return Slot(g.calc_cross_coupling_coefficients, sig, kw)


def cdiff(v, rng):
    import shipgrav.grav as g
    return Slot(g.center_diff, [A(rng, [8, 8, 8, 20][v]), [1, 2, 1, 1][v], [1, 1, 10, 1][v]])


def upvecs(v, rng):
    import shipgrav.grav as g
    n = 60
    np = _np()
    on = np.zeros(n, dtype=int)
    on[[3, 3, 20, 3][v]:[6, 6, 30, 6][v]] = 1
    p = [(240.0, .7071, 240.0, .7071), (240.0, .7071, 120.0, .5), (240.0, .7071, 240.0, .7071), (200.0, .9, 200.0, .9)][v]
    return Slot(g.up_vecs, [[1, 1, 1, .5][v], A(rng, n, 979900, 980100), A(rng, n, -5e3, 5e3), A(rng, n, -5e3, 5e3), on, *p])


def padded(v, rng):
    import shipgrav.grav as g
    n = [12, 12, 12, 13][v]
    np = _np()
    return Slot(g.grav1d_padded, [np.arange(n) * [500.0, 500.0, 700.0, 500.0][v], A(rng, n, -3000, -2500), 0.0 if v != 1 else 100.0, 1000.0 if v != 1 else 1700.0])


def folding(v, rng):
    import shipgrav.grav as g
    np = _np()
    z = A(rng, 20, -3000, -2500).reshape(4, 5)
    kw = [{}, dict(ifold=False), dict(drho=1.7), dict(dz=3000), dict(npower=2), {}][v]
    return Slot(g.grav2d_folding, [np.arange(5) * 1.0, np.arange(4) * 1.0, z, 1.0 if v != 5 else 2.0, 1.0], kw)


def layer(v, rng):
    import shipgrav.grav as g
    r = A(rng, 20, -100, 100).reshape([(4, 5), (4, 5), (5, 4), (4, 5)][v])
    return Slot(g.grav2d_layer_variable_density, [r, 1.0, 2.0 if v != 1 else 1.5, 1.0, 5.0 if v != 3 else 7.0])


def half(v, rng):
    import shipgrav.grav as g
    kw = [{}, dict(time=True), dict(u=.05), dict(Tm=1300), dict(k=2e-6)][v]
    return Slot(g.therm_halfspace, [A(rng, 5, 1, 100), A(rng, 4, 1, 1e5)], kw)


def zhalf(v, rng):
    import shipgrav.grav as g
    kw = [{}, dict(time=True), dict(u=.05), dict(Tm=1300), {}][v]
    return Slot(g.therm_Z_halfspace, [A(rng, 5, 1, 100), 600.0 if v != 4 else 900.0], kw)


def plate(v, rng):
    import shipgrav.grav as g
    kw = [{}, dict(time=True), dict(u=.05), dict(Tm=1300), dict(zL0=80e3), dict(k=2e-6)][v]
    return Slot(g.therm_plate, [A(rng, 5, 1, 100), A(rng, 4, 1, 1.2e5)], kw)


def zplate(v, rng):
    import shipgrav.grav as g
    kw = dict(minz=0, maxz=5e4, zsp=1e3)
    kw.update([{}, dict(time=True), dict(u=.05), dict(zsp=5e2), dict(zL0=80e3), dict(maxz=9e4)][v])
    return Slot(g.therm_Z_plate, [A(rng, 5, 1, 100), A(rng, 2, 100, 1300)], kw)


def crust(v, rng):
    import shipgrav.grav as g
    kw = dict(nx=20, dx=5.0)
    kw.update([{}, dict(back=True), dict(zdown=5), dict(wlarge=60), dict(nx=5, ny=4, dy=3.0, wsmall=8, wlarge=12), dict(rho=.5)][v])
    return Slot(g.crustal_thickness_2D, [A(rng, 20, -30, 30)], kw)


def en(v, rng):
    import shipgrav.nav as nv
    n = [14, 14, 14, 25][v]
    kw = [{}, dict(freq=10), {}, {}][v]
    return Slot(nv.latlon_to_EN, [walk(rng, n, -70.0, 1e-4), walk(rng, n, 40.0 if v != 2 else -40.0, 1e-4)], kw)


def course(v, rng):
    import shipgrav.nav as nv
    return Slot(nv.ENvel_to_course_heading, [A(rng, 9, -9, 9), A(rng, 9, -9, 9)])


def rotate(v, rng):
    import shipgrav.nav as nv
    return Slot(nv.rotate_acceleration_EN_to_cl, [A(rng, 9, -180, 180), A(rng, 9), A(rng, 9)])


PLAIN = dict(gauss=(gauss('array'), 8), gausslist=(gauss('list'), 8), gaussseries=(gauss('series'), 3), decode=(decode, 2), dtable=(dtable, 4),
             tide=(tide('list'), 7), tidearray=(tide('array'), 7), eotvos=(eotvos, 4), freeair=(freeair, 2), wgs=(wgs, 3), cross=(cross, 4), cdiff=(cdiff, 4),
             upvecs=(upvecs, 4), padded=(padded, 4), folding=(folding, 6), layer=(layer, 4), half=(half, 5), zhalf=(zhalf, 5), plate=(plate, 6),
             zplate=(zplate, 6), crust=(crust, 6), en=(en, 4), course=(course, 2), rotate=(rotate, 2))

# ---- functions that read files

NAVS = [('Atlantis', None, 0), ('Atlantis', 'GPGGA', 2), ('Atlantis', 'INGGA', 0), ('NBP', None, 0), ('Thompson', None, 0), ('Revelle', None, 0),
        ('Ride', None, 0), ('Langseth', None, 0), ('Sikuliaq', None, 0), ('Nobody', None, 0)]


def navfile(rng, ship, talker, day):
    out = []
    us = int((day - navgen.EPOCH).total_seconds() * 1e6) + rng.randrange(3600) * 10 ** 6
    lat, lon = rng.randrange(-4000000, 4000000), rng.randrange(-8000000, 8000000)
    for _ in range(6):
        us += rng.choice([1, 1, 2]) * 10 ** 6
        lat += rng.randrange(-50, 50)
        lon += rng.randrange(-50, 50)
        out += navgen.fix(rng, ship, talker, us, lat, lon, 3)
    return out


def nav(v, rng, path):
    import shipgrav.io as io
    ship, talker, dec = NAVS[v]
    t = talker or navgen.LISTED.get(ship, 'GPGGA')
    n = 5 if v % 4 == 3 else 2
    text = [navfile(rng, ship if ship != 'Nobody' else 'NBP', t, dt.datetime(2022, 3, 4 + i)) for i in range(n)]
    names = [os.path.join(path, ['n33_long.GPS', 'n0.txt', 'n1.txt', 'm4', 'n2.Raw'][i]) for i in range(n)]
    kw = dict(progressbar=bool(v % 2))
    if talker:
        kw['talker'] = talker
    if dec:
        kw['decimate'] = dec
    return Slot(io.read_nav, [ship, names], kw, {n: '\n'.join(x) + '\n' for n, x in zip(names, text)})


NAVUSERS = [('Atlantis', dict(talker='XX')), ('Atlantis', {}), ('Titanic', {}), ('Titanic', dict(talker='XX')), ('Titanic', dict(talker='GGA')), ('Nobody', {}),
            ('Nobody', dict(talker='XX', decimate=2))]


def navuser(v, rng, path):
    import shipgrav.io as io
    n = os.path.join(path, 'n0.txt')
    t = rng.randrange(10 ** 9)
    ship, kw = NAVUSERS[v]
    return Slot(io.read_nav, [ship, n], dict(kw, ship_function=navgen.user_function, progressbar=False),
                {n: ''.join('%d %.4f %.4f %s\n' % (t + i, rng.uniform(0, 1), rng.uniform(0, 1), g) for i in range(5) for g in ('XX', '$INGGA'))})


def grav(reader, ships):
    def f(v, rng, path):
        import shipgrav.io as io
        fn = dict(rgs=io.read_bgm_rgs, bgm=io.read_bgm_raw, laptop=io.read_dgs_laptop, raw=io.read_dgs_raw)[reader]
        ship, kw = ships[v]
        names = [os.path.join(path, ['g33_long.dat', 'g0.txt', 'g1.txt', 'b4', 'g2.Raw'][i]) for i in range(5 if v % 3 == 2 else 2)]
        text = [gravgen.gen_file(rng, reader, ship, kinds=['row'] * 3) for _ in names]
        return Slot(fn, [names if v % 3 else names[:1], ship], dict(kw, progressbar=bool(v % 2)), {n: '\n'.join(x) + '\n' for n, x in zip(names, text)})
    return f


def other(v, rng, path):
    import shipgrav.io as io
    y, d = os.path.join(path, 'feed.yaml'), os.path.join(path, 'feed.txt')
    tag = ['PASHR', '$PASHR', 'PRDID'][v]
    files = {y: 'mru:\n  format:\n    PASHR: "$PASHR,{a:f},{b:f},{c}"\n    PRDID: "$PRDID,{c},{a:f}"\n  fields:\n    a: {unit: %d}\n    b: {unit: deg}\n' % rng.randrange(99),
             d: ''.join('2023-06-16T00:00:%02dZ $PASHR,%d,%.3f,x%d\n2023-06-16T00:00:%02dZ $PRDID,%d,%.2f\n' % (
                 i, rng.randrange(99), rng.uniform(0, 9), rng.randrange(9), i, rng.randrange(99), rng.uniform(0, 9)) for i in range(5))}
    return Slot(io.read_other_stuff, [y, d, tag], {}, files)


def ini(v, rng, path):
    import shipgrav.utils as u
    n = os.path.join(path, ['meter.ini', 'other.ini'][v])

    def run(p):
        with open(u.clean_ini_to_toml(p)) as f:
            return f.read()
    return Slot(run, [n], {}, {n: '[Sensor]\nGravCal = %.4f // cal\nName = AT1M-%d\n$on = TRUE\n' % (rng.uniform(0, 9), rng.randrange(99))})


BG = [('Atlantis', {}), ('Thompson', {}), ('Revelle', {}), ('Langseth', {}), ('Atlantis', dict(scale=4.98)), ('Atlantis', dict(scale=5.1))]
LP = [(s, {}) for s in gravgen.LAPTOPS]
RW = [(s, {}) for s in gravgen.RAWS] + [('Atlantis', dict(scale_ccp=False))]
FILES = dict(nav=(nav, len(NAVS)), navuser=(navuser, len(NAVUSERS)), rgs=(grav('rgs', [('Atlantis', {}), ('NBP', {}), ('Atlantis', {})]), 3), bgm=(grav('bgm', BG), len(BG)),
             laptop=(grav('laptop', LP), len(LP)), raw=(grav('raw', RW), len(RW)), other=(other, 3), ini=(ini, 2))

NAMES = {n: k for n, (_, k) in list(PLAIN.items()) + list(FILES.items())}


TWISTS = ['', '', '', 'nan', 'nan', 'same', 'zero', 'huge', 'whole', 'twice', 'short', 'nonewline']


def twisted(s, twist, rng):
    """a slot with unusual data: missing values, equal values, huge values, files cut short ..."""
    import pandas as pd
    np = _np()
    if not twist:
        return s

    def array(a):
        n = len(a)
        if n == 0:
            return
        i = [rng.randrange(n) for _ in range(1 + n // 8)]
        if twist == 'nan':
            a[i] = float('nan')
        elif twist == 'same':
            a[:] = a[0]
        elif twist == 'zero':
            a[i] = 0.0
        elif twist == 'huge':
            a[i] = a[i] * 1e6
        elif twist == 'whole':
            a[:] = [float(round(q)) for q in a]
    floats = [a for a in s.args if isinstance(a, np.ndarray) and a.dtype.kind == 'f' and a.ndim == 1]
    for a in floats:
        if len(floats) == 1 or rng.random() < .5:
            array(a)
    for a in s.args:
        if isinstance(a, pd.Series):
            b = a.values.copy()
            array(b)
            a[:] = b
    for n in sorted(s.files):
        if n.endswith('.yaml'):
            continue
        t = s.files[n].split('\n')
        if twist == 'twice':
            t = t[:-1] + t
        elif twist == 'short':
            t = t[:max(1, len(t) // 2)] + ['']
        elif twist == 'nonewline':
            t = t[:-1]
        elif twist == 'same':
            t = [q for q in t if q][:1] * 3 + ['']
        elif twist == 'zero':
            t = ['']
        elif twist == 'nan':
            t = [q.replace(str(rng.randrange(10)), 'x', 1) for q in t]
        s.files[n] = '\n'.join(t)
    return s


def make(name, variant, version, path, seed, twist=''):
    # the first two variants that differ in parameters only share their data
    rng = random.Random('%s %s %s' % (name, version, seed))
    if name in PLAIN:
        return twisted(PLAIN[name][0](variant, rng), twist, rng)
    return twisted(FILES[name][0](variant, rng, path), twist, rng)


# ---- contents

def canon(x, out, deep=0):
    """a text that determines the value"""
    import numpy as np
    import pandas as pd
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            out.append('arr-o%s' % (x.shape,))
            for v in x.ravel():
                canon(v, out, deep + 1)
        else:
            out.append('arr%s%s%s' % (x.dtype, x.shape, np.ascontiguousarray(x).tobytes().hex()))
    elif isinstance(x, pd.DataFrame):
        out.append('df%s%s' % (x.shape, [str(c) for c in x.columns]))
        canon(list(x.index), out, deep + 1)
        for i in range(x.shape[1]):
            canon(x.iloc[:, i], out, deep + 1)
    elif isinstance(x, pd.Series):
        out.append('ser%s' % x.dtype)
        canon(list(x), out, deep + 1)
        if deep == 0:
            canon(list(x.index), out, deep + 1)
    elif isinstance(x, dict):
        out.append('dict')
        for k, v in x.items():
            canon(k, out, deep + 1)
            canon(v, out, deep + 1)
    elif isinstance(x, (list, tuple)):
        out.append(type(x).__name__ + str(len(x)))
        for v in x:
            canon(v, out, deep + 1)
    elif hasattr(x, 'params') and hasattr(x, 'resid'):
        out.append('model')
        for a in ('params', 'resid', 'fittedvalues'):
            canon(np.asarray(getattr(x, a)), out, deep + 1)
    elif isinstance(x, (int, float, complex, str, bool, type(None), np.generic, dt.datetime)):
        out.append(type(x).__name__ + repr(x))
    elif callable(x):
        out.append('f')
    else:
        out.append(type(x).__name__ + repr(x).split(' object at ')[0])


def digest(*xs):
    out = []
    for x in xs:
        canon(x, out)
    return hashlib.sha1('|'.join(out).encode()).hexdigest()[:12]


def contents(s):
    fs = []
    for n in sorted(s.files):
        with open(n, 'rb') as f:
            fs.append((os.path.basename(n), f.read().decode('latin1')))
    return digest([(a if not isinstance(a, str) else os.path.basename(a)) if not (isinstance(a, list) and a and isinstance(a[0], str))
                   else [os.path.basename(q) for q in a] for a in s.args], s.kw, fs)


def write(s):
    for n, t in s.files.items():
        with open(n, 'w') as f:
            f.write(t)


def edit(s, new):
    """give slot s the contents of new, in place where the objects allow it"""
    import numpy as np
    import pandas as pd
    s.files = new.files
    write(s)

    def into(a, b):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
            ro = not a.flags.writeable
            if ro:
                a.setflags(write=True)
            a[...] = b
            if ro:
                a.setflags(write=False)
            return a
        if isinstance(a, list) and isinstance(b, list):
            a[:] = b
            return a
        if isinstance(a, pd.DataFrame):
            for c in b.columns:
                a[c] = b[c]
            return a if a.shape == b.shape else b
        if isinstance(a, pd.Series):
            a.iloc[:] = b.values
            return a
        return b
    s.args = [into(a, b) for a, b in zip(s.args, new.args)]
    s.kw = {k: into(s.kw[k], new.kw[k]) for k in new.kw}


def scribble(r):
    """overwrite a result in place"""
    import numpy as np
    import pandas as pd
    try:
        if isinstance(r, (tuple, list)):
            for x in r:
                scribble(x)
        if isinstance(r, list):
            r.clear()
        elif isinstance(r, np.ndarray):
            r.setflags(write=True)
            r[...] = 77
        elif isinstance(r, pd.DataFrame):
            for c in list(r.columns):
                r[c] = 77
        elif isinstance(r, pd.Series):
            r.iloc[:] = 77
        elif isinstance(r, dict):
            for v in r.values():
                scribble(v)
            r.clear()
        elif hasattr(r, 'params'):
            scribble(r.params)
    except Exception:
        pass


def run(s):
    """digest of the outcome and the result"""
    try:
        r = s.fn(*s.args, **s.kw)
    except TimeoutError:
        raise
    except Exception as ex:
        return 'raise-' + type(ex).__name__, None
    return digest(r), r
