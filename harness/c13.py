"""C13: the picking cursor."""
import copy
import num
from vlib import Check, call


class Line:
    """stand-in for matplotlib's Line2D"""

    def __init__(self, x=(), y=()):
        self.x, self.y, self.visible = copy.copy(x), copy.copy(y), True

    def get_data(self, orig=True):
        return self.x, self.y

    def get_xdata(self, orig=True):
        return self.x

    def get_ydata(self, orig=True):
        return self.y

    def get_visible(self):
        return self.visible

    def set_visible(self, v):
        self.visible = v

    def set_xdata(self, x):
        self.x = copy.copy(x)

    def set_ydata(self, y):
        self.y = copy.copy(y)

    def set_data(self, *a):
        x, y = a if len(a) == 2 else a[0]
        self.set_xdata(x)
        self.set_ydata(y)

    def update(self, props):
        for k, v in props.items():
            getattr(self, 'set_' + k)(v)

    def set(self, **kw):
        self.update(kw)


class Canvas:
    def __init__(self):
        self.n = 0

    def draw(self, *a):
        self.n += 1
    draw_idle = draw


class Axes:
    def __init__(self, figure):
        self.figure = figure

    def get_xlim(self):
        return (0.0, 1.0)

    def get_ylim(self):
        return (0.0, 1.0)

    def axhline(self, y=0, **kw):
        return Line([0, 1], [y, y])

    def axvline(self, x=0, **kw):
        return Line([x, x], [0, 1])

    def plot(self, *a, **kw):
        return [Line(a[0], a[1])]


class Obj:
    pass


def data(rng, n, times=None):
    if times is None:
        times, v = [], rng.randrange(10)
        for _ in range(n):
            v += rng.choice([1, 1, 2, 3, 8])
            times.append(v)
    return dict(t=times, lon=[rng.choice([1, -1]) * rng.uniform(0, 180) for _ in times], lat=[rng.uniform(-90, 90) for _ in times],
                y=[rng.uniform(-100, 100) for _ in times], unit=rng.choice([1, 0.25, 1]), base=rng.choice([0, 1656633600]),
                index=rng.choice(['range', 'step', 'rev']), seq=rng.choice(['array', 'array', 'series']))


def rand_events(rng, t, n):
    out = []
    for _ in range(n):
        k = rng.random()
        x = rng.choice([rng.choice(t), rng.randrange(t[0] - 2, t[-1] + 3), t[-1] + 5, t[0] - 4])
        if k < 0.35:
            out.append(['move', x])
        elif k < 0.45:
            out.append(['leave', 0])
        elif k < 0.75:
            out.append(['left', x])
        elif k < 0.93:
            out.append(['right', x])
        else:
            out.append(['other', x])
    return out


class C(Check):
    pid = 'C13'
    trace = ('TraceCursor', 'TraceCursor.cfg')
    note = ('TLC checks stack discipline, cross-hair and separation of moves and clicks for every event sequence of length four; each such '
            'sequence, and longer seeded ones, are sent to the real cursor over stand-in axes and every shown state is compared.')
    assumptions = ['matplotlib is replaced by stand-ins that keep what is set on lines and count redraws', 'clicks are inside the first axis or other axes with a time']

    def mc(self, tier):
        return [('MC_Cursor', 'MC_Cursor.cfg', {})]

    def cases(self, rng, tier, scen):
        q = tier == 'quick'
        out = []
        for s in (rng.sample(scen, 1500) if q else scen):
            out.append(dict(kind='scenario', events=s, **data(rng, 3, [2, 6, 8])))
        for _ in range(900 if q else 5000):
            d = data(rng, rng.choice([1, 2, 3, 10, 40]))
            out.append(dict(kind='random', events=rand_events(rng, d['t'], rng.choice([5, 20, 60])), **d))
        return out

    def observe(self, case):
        import numpy as np
        import pandas as pd
        import shipgrav.utils as sgu
        n = len(case['t'])
        conv = lambda v: case['base'] + v * case['unit']
        tsec = np.array([conv(v) for v in case['t']], dtype=float)
        idx = dict(range=list(range(n)), step=[5 * i + 2 for i in range(n)], rev=list(range(n))[::-1])[case['index']]
        df = pd.DataFrame(dict(lat_new=case['lat'], other=0.5, tsec=tsec, lon_new=case['lon']), index=idx)
        fig = Obj()
        fig.canvas = Canvas()
        ax1, ax2 = Axes(fig), Axes(fig)
        line, dot = Line(tsec.copy(), np.array(case['y'])), Line([0], [0])
        cur = sgu._SnappingCursor(ax1, ax2, line, dot, df)
        snaps = []
        f = lambda v: [num.num(float(x)) for x in v]
        for kind, x in case['events']:
            ev = Obj()
            ev.xdata, ev.ydata, ev.inaxes, ev.button = conv(x), 0.5, ax1, None
            d0 = fig.canvas.n
            if kind == 'move':
                call(cur.on_mouse_move, ev)
            elif kind == 'leave':
                ev.inaxes = ax2 if n % 2 else None
                if ev.inaxes is None:
                    ev.xdata = ev.ydata = None
                call(cur.on_mouse_move, ev)
            else:
                ev.button = dict(left=1, right=3, other=2)[kind]
                call(cur.on_mouse_click, ev)
            s = cur.scatters[0]
            snaps.append(dict(xs=f(cur.x_seg), ys=f(cur.y_seg), **{'is': [int(i) for i in cur.i_seg]}, sx=f(s.get_xdata()),
                              sy=f(s.get_ydata()), vis=bool(cur.horizontal_line.get_visible()), vis2=bool(cur.vertical_line.get_visible()),
                              hy=f(np.ravel(cur.horizontal_line.get_ydata())), vx=f(np.ravel(cur.vertical_line.get_xdata())),
                              dx=f(np.ravel(cur.dot.get_xdata())), dy=f(np.ravel(cur.dot.get_ydata())), drew=fig.canvas.n > d0))
        # exact positions in units of the events' times (all multiples of 1/4 and exact in floats)
        req = dict(t=case['t'], events=case['events'], lon=f(case['lon']), lat=f(case['lat']), x=f(tsec), y=f(case['y']))
        return dict(req=req, obs=snaps)


CHECK = C()
