"""Numbers, times and text in the form the TLA+ modules use (see spec/Num.tla)."""
from fractions import Fraction
import math

W, F, B, H = 10, 6, 10000, 5000
SCALE = B ** F
LIMIT = 5 * 10 ** 15


def num(x):
    """float/int/Fraction -> balanced base-10^4 limbs; NaN -> [], out of range -> [1]."""
    try:
        if isinstance(x, complex):
            return [0]
        if isinstance(x, float):
            if math.isnan(x):
                return []
            if math.isinf(x):
                return [1 if x > 0 else -1]
        fr = Fraction(x)
    except Exception:
        return [0]
    if abs(fr) >= LIMIT:
        return [1 if fr > 0 else -1]
    n = fr * SCALE
    n = (2 * n.numerator + n.denominator) // (2 * n.denominator)
    out = []
    for _ in range(W):
        r = ((n + H) % B) - H
        out.append(r)
        n = (n - r) // B
    return out


def nums(v):
    return [num(float(x)) for x in v]


def unnum(t):
    if len(t) == 0:
        return float('nan')
    if len(t) != W:
        return float('inf') * t[0] if t[0] else 'non-number'
    return float(sum(Fraction(x) * Fraction(B) ** (i - F) for i, x in enumerate(t)))


def codes(s):
    """text -> list of character codes"""
    return [ord(c) for c in s]


def instant_us(us):
    """integer microseconds since 1970 -> [day, second, microsecond]"""
    s, u = divmod(int(us), 10 ** 6)
    d, s = divmod(s, 86400)
    return [d, s, u]


def instant(posix):
    """float posix seconds -> [day, second, microsecond] ([] when missing)"""
    p = float(posix)
    if math.isnan(p) or math.isinf(p):
        return []
    n = Fraction(p) * 10 ** 6
    return instant_us((2 * n.numerator + n.denominator) // (2 * n.denominator))
