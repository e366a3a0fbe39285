"""Helpers shared by the checks of numeric functions."""
import num


def arr(x):
    """flat list of encoded numbers of any array-like"""
    import numpy as np
    a = np.asarray(x)
    if a.dtype.kind == 'c':
        a = a.real
    return [num.num(float(v)) for v in a.ravel()]


def pack(x, how):
    """a list of floats as ndarray, list, tuple, pandas Series or read-only array"""
    import numpy as np
    if how == 'list':
        return [float(v) for v in x]
    if how == 'series':
        import pandas as pd
        return pd.Series([float(v) for v in x])
    a = np.array(x, dtype=float)
    if how == 'readonly':
        a.setflags(write=False)
    if how == 'strided':
        b = np.zeros(2 * len(a) + 1)
        b[1::2] = a
        return b[1::2]
    return a


def walk(rng, n, start, step):
    out, v = [], start
    for _ in range(n):
        out.append(v)
        v += rng.uniform(-step, step)
    return out


def long_case(rng, make, n, k):
    """case of n samples of which k are judged (first and last included)"""
    c = make(n)
    c['kind'] = 'long'
    c['pick'] = sorted({0, n - 1, n // 2} | set(rng.sample(range(n), k)))
    return c


def judged(case, req, rk, obs, ok, n):
    """keep the picked samples of request and observation; what has another length stays and shows"""
    if 'pick' in case:
        for k in rk:
            req[k] = [req[k][i] for i in case['pick']]
        for k in ok:
            if len(obs[k]) == n:
                obs[k] = [obs[k][i] for i in case['pick']]
            elif obs[k]:
                obs['kind'] = 'lengths'
