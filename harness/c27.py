"""C27: histories of calls."""
import json
import os
import signal
import library
from vlib import Check


def forked(f):
    """f() in a child process that nobody has called the library in"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'w') as h:
                h.write(json.dumps(f()))
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r) as h:
            t = h.read()
        return json.loads(t) if t else None
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)


_fresh = {}


def fresh(call, version, path):
    k = (json.dumps(call), version)
    if k not in _fresh:
        def one():
            s = library.make(call['f'], call['v'], version, path, call['seed'], call.get('t', ''))
            library.write(s)
            return [library.contents(s), library.run(s)[0]]
        _fresh[k] = forked(one) or ['-', '-']
    return _fresh[k]


def history(case, dirs):
    calls = case['calls']
    slots = [library.make(c['f'], c['v'], 1, d, c['seed'], c.get('t', '')) for c, d in zip(calls, dirs)]
    ver = [1, 1]
    for s in slots:
        library.write(s)
        if case['readonly']:
            import numpy as np
            for a in list(s.args) + list(s.kw.values()):
                if isinstance(a, np.ndarray):
                    a.setflags(write=False)
    out, last = [], None
    for o in case['hist']:
        j = o['slot'] - 1
        e = dict(op=o['op'], slot=o['slot'], before='', after='', out='')
        if o['op'] == 'call':
            e['before'] = library.contents(slots[j])
            e['out'], last = library.run(slots[j])
            e['after'] = library.contents(slots[j])
            if e['after'] != e['before']:
                out.append(e)
                break
        elif o['op'] == 'edit':
            ver[j] = 3 - ver[j]
            library.edit(slots[j], library.make(calls[j]['f'], calls[j]['v'], ver[j], dirs[j], calls[j]['seed'], calls[j].get('t', '')))
        else:
            library.scribble(last)
            for q in (0, 1):   # a result may share memory with what the caller gave
                if library.contents(slots[q]) != fresh(calls[q], ver[q], dirs[q])[0]:
                    library.edit(slots[q], library.make(calls[q]['f'], calls[q]['v'], ver[q], dirs[q], calls[q]['seed'], calls[q].get('t', '')))
        out.append(e)
    return out


class C(Check):
    pid = 'C27'
    trace = ('TraceCalls', 'TraceCalls.cfg')
    case_timeout = 60
    note = ('TLC runs the caller against a pure library and eight kinds of library that keep something between calls and prints every minimal history (up to 5 '
            'operations: call, edit arguments or files in place, overwrite the last result) that gives one away; the real functions are run through these '
            'histories in forked processes and every call is compared bit for bit with the same call in a fresh process.')
    assumptions = ['two different calls per history, up to 5 operations', 'results are compared bit for bit']

    def mc(self, tier):
        return [('MC_Calls', 'MC_Calls.cfg', {})]

    def cases(self, rng, tier, scen):
        q = tier == 'quick'
        by = {}
        for s in scen:
            by.setdefault(s['impl'], []).append(s['hist'])
        for v in by.values():
            v.sort(key=lambda h: (len(h), json.dumps(h)))
        out = []

        def add(kind, c1, c2, impls, short):
            for im in impls:
                if kind != 'pair':
                    c1, c2 = dict(c1, t=rng.choice(library.TWISTS)), dict(c2, t=rng.choice(library.TWISTS))
                hs = by[im]
                h = hs[min(int(rng.expovariate(1 / 4.0)), len(hs) - 1)] if short else rng.choice(hs)
                out.append(dict(kind=kind, calls=[c1, c2], hist=h, readonly=rng.random() < .5, impl=im))
        names = sorted(library.NAMES)
        kinds = sorted(by)
        for n in names:
            k = library.NAMES[n]
            for a in range(k):
                for b in range(k):
                    if a == b and a:
                        continue
                    if q and a and b and rng.random() < .5:
                        continue
                    s1 = rng.randrange(10 ** 6)
                    s2 = s1 if a != b and rng.random() < .5 else rng.randrange(10 ** 6)
                    add('same-' + n, dict(f=n, v=a, seed=s1), dict(f=n, v=b, seed=s2), (rng.sample(kinds, 4) + ['sticky']) if q else kinds, True)
            for im in kinds:
                add('one-' + n, dict(f=n, v=0, seed=1), dict(f=n, v=rng.randrange(k), seed=2), [im], True)
            for m in names:
                if m != n:
                    add('pair', dict(f=n, v=rng.randrange(k), seed=3), dict(f=m, v=rng.randrange(library.NAMES[m]), seed=4),
                        [rng.choice(['sticky', 'sticky', 'first'])] if q else ['sticky', 'first', 'shared', 'alias', 'late'], True)
        return out

    def observe(self, case):
        import numpy  # noqa: everything is imported before the first fork
        import pandas  # noqa
        import shipgrav.io, shipgrav.nav, shipgrav.grav, shipgrav.utils  # noqa
        import threading, tqdm
        tqdm.tqdm.set_lock(threading.RLock())      # no semaphores in the children
        here = os.getcwd()
        dirs = [os.path.join(here, d) for d in ('a', 'b')]
        for d in dirs:
            os.mkdir(d)
        ref = [[fresh(c, v, d) for v in (1, 2)] for c, d in zip(case['calls'], dirs)]
        ev = forked(lambda: history(case, dirs))
        return dict(kind='ran' if ev is not None else 'died', events=ev or [], contents=[[x[0] for x in r] for r in ref], fresh=[[x[1] for x in r] for r in ref])


CHECK = C()
