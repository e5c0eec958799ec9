"""C18: number-theory helpers return exact answers."""
import os, sys, math, itertools
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, bignum as B

PRIMES = [p for p in range(2, 98) if all(p % q for q in range(2, p))]


def factor(n):
    out = []
    for p in PRIMES:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
    return out if n == 1 else None


def sl_pairs(part, r):
    import Math
    hi = 700 if vp.THOROUGH else 250
    for a in part:
        for b in range(-hi, hi + 1):
            r.states += 1
            r.transitions += 2
            if Math.gcd(a, b) != math.gcd(a, b):
                r.fail("gcd", "gcd(%d, %d) is %r" % (a, b, Math.gcd(a, b)), a=a, b=b)
            if a > 0 and b > 0 and Math.lcm(a, b) != math.lcm(a, b):
                r.fail("lcm", "lcm(%d, %d) is %r" % (a, b, Math.lcm(a, b)), a=a, b=b)


BIG = [s * (b ** k + d) for b in (2, 3, 10) for k in (31, 53, 64, 100, 400) for d in (-1, 0, 1, 6) for s in (1, -1)]


def sl_big(part, r):
    import Math
    for a in part:
        for b in BIG + list(range(-20, 21)):
            r.states += 1
            r.transitions += 2
            if Math.gcd(a, b) != math.gcd(a, b):
                r.fail("gcd", "gcd(%d, %d) is %r" % (a, b, Math.gcd(a, b)), a=str(a), b=str(b))
            if a > 0 and b > 0 and Math.lcm(a, b) != math.lcm(a, b):
                r.fail("lcm", "lcm(%d, %d) is %r" % (a, b, Math.lcm(a, b)), a=str(a), b=str(b))


def sl_factor(part, r):
    import Math
    for n in part:
        r.states += 1
        want = factor(n)
        r.transitions += 1
        try:
            got = Math.prime_factor(n)
        except NotImplementedError:
            got = None
        if (None if got is None else sorted(map(tuple, got))) != want:
            r.fail("prime_factor", "prime_factor(%d) is %r" % (n, got), n=n)
        m, k = root = Math.int_pow(n) if n >= 2 else (n, 1)
        r.transitions += 1
        # the smallest m with n = m^k
        if n >= 2:
            best = (n, 1)
            for j in range(n.bit_length(), 1, -1):
                c = round(n ** (1 / j))
                hit = [x for x in (c - 1, c, c + 1) if x >= 2 and x ** j == n]
                if hit:
                    best = (hit[0], j)
                    break
            if tuple(root) != best:
                r.fail("int_pow", "int_pow(%d) is %r instead of %r" % (n, root, best), n=n)
        if want is not None and n <= (4000 if vp.THOROUGH else 1500):
            lam, pre = Math.carmichael(n)
            r.transitions += 1
            true = 1
            for p, k in want:
                true = math.lcm(true, 2 ** (k - 2) if p == 2 and k >= 3 else (p - 1) * p ** (k - 1))
            units = [a for a in range(n) if math.gcd(a, n) == 1]
            if lam != true or any(pow(a, lam, n) != 1 % n for a in units):
                r.fail("carmichael", "carmichael(%d) is %r, the exponent is %d" % (n, lam, true), n=n)
            # pre: powers are periodic from this exponent on, for every base
            for a in range(n):
                r.transitions += 1
                x = pow(a, pre, n)
                if x * pow(a, lam, n) % n != x:
                    r.fail("carmichael", "carmichael(%d): powers of %d are not periodic from exponent %d on with period %d" % (n, a, pre, lam), n=n)
                    break


def sl_roots(part, r):
    """Perfect powers and their neighbours."""
    import Math
    for m in part:
        for k in range(1, 60):
            n = m ** k
            if n > 10 ** 12 or n < 2:
                break
            for v in (n - 1, n, n + 1):
                if v < 2:
                    continue
                want = (v, 1)
                for j in range(v.bit_length(), 1, -1):
                    c = round(v ** (1 / j))
                    hit = [x for x in (c - 1, c, c + 1) if x >= 2 and x ** j == v]
                    if hit:
                        want = (hit[0], j)
                        break
                if want == (v, 1) and v > 10 ** 9:
                    continue    # the search for a root is slow if there is none
                r.states += 1
                r.transitions += 1
                if tuple(Math.int_pow(v)) != want:
                    r.fail("int_pow", "int_pow(%d) is %r instead of %r" % (v, Math.int_pow(v), want), n=v)


def sl_expmod(part, r):
    import Math, Exp_Int as E
    kmax = 60
    for m in part:
        if factor(m) is None:
            continue
        for b in range(0, m + 2):
            want = 1 % m
            for k in range(kmax):
                r.transitions += 1
                got = Math.exp_mod(b, k, m) if not (b == 0 and k == 0) else want
                if got != want:
                    r.fail("exp_mod", "exp_mod(%d, %d, %d) is %r instead of %d" % (b, k, m, got, want), b=b, k=k, m=m)
                want = want * b % m
            r.states += 1
            for k in (10 ** 6, 10 ** 18 + 7, 2 ** 200, 3 ** 300 + 1):
                r.transitions += 1
                if Math.exp_mod(b, k, m) != pow(b, k, m):
                    r.fail("exp_mod", "exp_mod(%d, %d, %d) is wrong" % (b, k, m), b=b, k=str(k), m=m)


def sl_huge(part, r):
    """Exponents that are towers."""
    import Math, Exp_Int as E
    exps = [(x, X) for b in (2, 3, 10) for x, X in B.deep_numbers(E, b, vp.THOROUGH)]
    for m in part:
        if factor(m) is None:
            continue
        for x, X in exps:
            for b in (2, 3, 6, 7, 10, 96):
                r.states += 1
                r.transitions += 1
                want = B.P(b, X).mod(m)
                got = Math.exp_mod(b, E.try_simplify(x), m)
                if got != want:
                    r.fail("exp_mod", "exp_mod(%d, %s, %d) is %r instead of %d" % (b, str(x)[:100], m, got, want), b=b, m=m)


def sl_prec(part, r):
    """Products and sums with a float: relative error at most 1e-14 (sum: one unit)."""
    import Math
    xs = [math.log10(b) for b in (2, 3, 7, 10, 97)] + [0.0, 1.0, 0.5, 1e-3, 3.75, 299.5]
    for n in part:
        for x in xs:
            r.states += 1
            r.transitions += 2
            exact = n * Fraction(x)
            got = Fraction(Math.prec_mult(n, x))
            if abs(got - exact) > abs(exact) / 10 ** 14 + (1 if n.bit_length() >= 50 else 0):
                r.fail("prec_mult", "prec_mult(%d, %r) is %s" % (n, x, B.short(int(got))), n=str(n), x=x)
            for y in (x, -x):
                exact = n + Fraction(y)
                got = Fraction(Math.prec_add(n, y))
                if abs(got - exact) > abs(exact) / 10 ** 14 + (1 if n.bit_length() >= 50 else 0):
                    r.fail("prec_add", "prec_add(%d, %r) is %s" % (n, y, B.short(int(got))), n=str(n), x=y)


def body(c):
    T = vp.THOROUGH
    hi = 700 if T else 250
    c.run(sl_pairs, vp.slices(range(-hi, hi + 1), 16), "gcd, lcm")
    c.run(sl_big, vp.slices(BIG, 8), "gcd, lcm of large numbers")
    c.run(sl_factor, vp.slices(range(1, 40000 if T else 12000), 64), "factors, roots, Carmichael exponents")
    c.run(sl_roots, vp.slices(range(2, 3000 if T else 400), 16), "roots of perfect powers")
    c.run(sl_expmod, vp.slices(range(1, 260 if T else 150), 32), "modular powers")
    c.run(sl_huge, vp.slices(range(1, 400 if T else 130), 32), "modular powers with huge exponents")
    c.run(sl_prec, vp.slices(sorted({s * (b ** k + d) for b in (2, 10) for k in range(0, 120) for d in range(-2, 3) for s in (1, -1)} | set(range(-100, 101)) | {10 ** 1000, 7 ** 3000}), 8), "precision-limited arithmetic")
    c.assumptions = ["domain: as used by the code (roots of numbers >= 2, moduli with prime factors below 100; larger ones must be refused)"]
    c.extra["bounds"] = dict(gcd="|a|,|b| <= %d" % hi, factor="1..%d" % (40000 if T else 12000), exp_mod="m < %d, every base, k < 60 and huge" % (260 if T else 150))


vp.main(body, "C18")
