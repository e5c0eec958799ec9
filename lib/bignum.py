"""Truth for formula numbers: expression trees evaluated with Python integers, or, if too
large to write down, reduced modulo any m by an independent tower-modulus recursion."""
import math
from functools import lru_cache

LIMIT = 60_000        # bits


@lru_cache(None)
def totient(n):
    r, p, m = n, 2, n
    while p * p <= m:
        if m % p == 0:
            while m % p == 0:
                m //= p
            r -= r // p
        p += 1 + (p > 2)
    if m > 1:
        r -= r // m
    return r


class N:
    """kind: 'int' v | 'pow' b, e | 'lin' [(coef, N)], const, denom | 'mul' x, y"""

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a
        self.val = self._val()

    def _val(self):
        k, a = self.kind, self.a
        if k == "int":
            return a[0]
        if k == "pow":
            e = a[1].val
            if e is None or e > LIMIT or e * math.log2(a[0]) > LIMIT:
                return None
            if e < 0:
                raise ValueError
            return a[0] ** e
        if k == "lin":
            s = a[1]
            for c, x in a[0]:
                if x.val is None:
                    return None
                s += c * x.val
            q, rem = divmod(s, a[2])
            if rem:
                raise ValueError("not an integer")
            return q
        if k == "mul":
            if a[0].val is None or a[1].val is None:
                return 0 if 0 in (a[0].val, a[1].val) else None
            return a[0].val * a[1].val

    def mod(self, m):
        if m == 1:
            return 0
        if self.val is not None:
            return self.val % m
        k, a = self.kind, self.a
        if k == "pow":
            if a[1].val is not None:
                return pow(a[0], a[1].val, m)
            t = totient(m)
            # the exponent is enormous, so certainly beyond the pre-period (at most log2 m)
            return pow(a[0], a[1].mod(t) + t * (m.bit_length() // t + 1), m)
        if k == "lin":
            s = (a[1] + sum(c * x.mod(m * a[2]) for c, x in a[0])) % (m * a[2])
            q, rem = divmod(s, a[2])
            if rem:
                raise ValueError("not an integer")
            return q
        return a[0].mod(m) * a[1].mod(m) % m


def I(v): return N("int", v)
def P(b, e): return N("pow", b, e if isinstance(e, N) else I(e))
def lin(parts, const=0, denom=1): return N("lin", list(parts), const, denom)
def add(x, y): return lin([(1, x), (1, y)])
def sub(x, y): return lin([(1, x), (-1, y)])
def mul(x, y): return N("mul", x, y)
def sgn(v): return (v > 0) - (v < 0)


M = 2 ** 40 * 3 ** 20 * 5 ** 9 * 7 ** 7 * 11 ** 3 * 13 ** 3
MSMALL = (2 ** 7 * 27 * 25, 7 * 11 * 13, 64 * 81, 97)


def wrong(R, T, E):
    """Why the object R of the code under test is not the number T, or None.  E: module Exp_Int."""
    if isinstance(R, bool) or not isinstance(R, (int, E.ExpInt)):
        return "is a %s" % type(R).__name__
    if isinstance(R, int):
        if T.val is None:
            return "is a plain integer" if any(R % m != T.mod(m) for m in MSMALL) else None
        return None if R == T.val else "is %s instead of %s" % (short(R), short(T.val))
    ev = E.try_eval(R)
    if T.val is not None:
        if ev is not None and ev != T.val:
            return "evaluates to %s instead of %s" % (short(ev), short(T.val))
        if E.sign(R) != sgn(T.val):
            return "has sign %r instead of %r" % (E.sign(R), sgn(T.val))
        if ev is None:
            if R % M != T.val % M:
                return "is another number (differs modulo %d)" % M
        elif R % MSMALL[0] != T.val % MSMALL[0]:
            return "has remainder %d instead of %d modulo %d" % (R % MSMALL[0], T.val % MSMALL[0], MSMALL[0])
    else:
        if ev is not None:
            return "evaluates to %s" % short(ev)
        for m in MSMALL:
            if R % m != T.mod(m):
                return "has remainder %d instead of %d modulo %d" % (R % m, T.mod(m), m)
    return None


def short(v):
    s = hex(v) if abs(v) > 10 ** 30 else str(v)
    return s if len(s) < 60 else s[:40] + "...(%d digits)" % len(s)


def make(E, b, e, coef, const, denom, e2=None, coef2=0):
    """(coef b^e + coef2 b^e2 + const) / denom in both worlds; None if not an integer."""
    parts = [(coef, P(b, e[1]))] + ([(coef2, P(b, e2[1]))] if e2 else [])
    try:
        T = lin(parts, const, denom)
        for m in (1, 2, 9):
            T.mod(m)
    except ValueError:
        return None
    x = E.exp_int(b, e[0]) * coef
    if e2:
        x = x + E.exp_int(b, e2[0]) * coef2
    x = x + const
    if denom != 1:
        if isinstance(x, int):
            return None
        x = x / denom
    return x, T


def leaves(E, b, level):
    """Numbers of base b.  level: 0 small set (triples), 1 medium (pairs, quick), 2 full."""
    exps = [(k, k) for k in ((0, 1, 2, 5), (0, 1, 3), (0, 1, 2, 3, 7))[level]]
    if level:
        exps += [(E.exp_int(2, 2) - 4, 0), (E.exp_int(3, 2) - 7, 2)]
    exps += [(k, k) for k in ((1000,), (1000, 1001, 2500), (999, 1000, 1001, 1300, 2500))[level]]
    coefs = ((1, -1, 2, -5), (1, -1, 2, -3, b), (1, -1, 2, -3, 5, b, -7 * b * b))[level]
    consts = ((0, 1, -4), (0, 1, -(b ** 3), -7 * b ** 998), (0, 1, -1, 6, -(b ** 3), b ** 1000, -7 * b ** 998))[level]
    denoms = ((1, 2), (1, 2, 3), (1, 2, 3, 5))[level]
    two = ((), ((1, 1, 0, 1), (3, -1, 2, 1), (1, -1, 0, b - 1)),
           ((1, 1, 0, 1), (3, -1, 2, 1), (-1, 2, -5, 1), (10, -1, 0, 1), (1, 1, 0, 2), (1, -1, 0, b - 1)))[level]
    args = [(e, c, k, d, None, 0) for e in exps for c in coefs for k in consts for d in denoms]
    two_exps = exps[:3] + exps[-3:] if level == 2 else exps[:2] + exps[-2:]
    args += [(e, c1, k, d, e2, c2) for e in two_exps for e2 in two_exps if e[1] != e2[1]
             for c1, c2, k, d in two if d]
    out = []
    for e, c, k, d, e2, c2 in args:
        try:
            z = make(E, b, e, c, k, d, e2, c2)
        except E.ExpIntException:
            z = None
        if z:
            out.append(z)
    return out


def deep_numbers(E, b, full):
    """Numbers too large to write down, up to three exponent layers."""
    e1 = [(k, I(k)) for k in ((5, 1000, 1001, 3001) if full else (5, 1001))]
    layer = e1
    out = []
    for depth in range(3):
        nxt = []
        for e, T in layer:
            for c, k, d in ((1, 0, 1), (1, 1, 1), (3, -2, 1), (1, -1, b - 1), (7, 4, 1), (5, -3, 2)):
                if d == 0:
                    continue
                pw = P(b, T)
                if (c * pw.mod(d) + k) % d:
                    continue
                Z = lin([(c, pw)], k, d)
                z = (E.exp_int(b, e) * c + k)
                if d != 1:
                    z = z / d
                nxt.append((z, Z))
        out += nxt
        layer = [n for n in nxt if not isinstance(n[0], int)][:: 1 if depth == 0 else 3]
    return [n for n in out if not isinstance(n[0], int)]
