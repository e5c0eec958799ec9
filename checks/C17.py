"""C17: symbolic expressions and rule formulas agree with evaluation."""
import os, sys, itertools, math, signal, operator
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, bignum as B

GRID = list(itertools.product((0, 1, 2, 3, 7), repeat=2))
INF = math.inf


class Hang(Exception):
    pass


def with_timeout(f, sec=2):
    def on(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def xy():
    import Algebraic_Expression as A
    return A.Variable(0), A.Variable(1)


MONO = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1)]


def build(A, coefs, monos=MONO):
    """Polynomial in both worlds: object of the code under test and {monomial: coefficient}."""
    vx, vy = xy()
    x, y = A.VariableToExpression(vx), A.VariableToExpression(vy)
    e = A.ConstantToExpression(0)
    for c, (i, j) in zip(coefs, monos):
        if c:
            e = e + (x ** i * c * y ** j if i + j else A.ConstantToExpression(1) * c)
    return e, {m: c for m, c in zip(monos, coefs) if c}


def val(p, x, y):
    return sum(c * x ** i * y ** j for (i, j), c in p.items())


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def pmul(p, q):
    r = {}
    for (a, b), c in p.items():
        for (d, e), f in q.items():
            r[a + d, b + e] = r.get((a + d, b + e), 0) + c * f
    return {m: c for m, c in r.items() if c}


def ev(A, e, x, y):
    vx, vy = xy()
    return A.substitute(e, {vx: x, vy: y})


def agree(r, A, e, p, what):
    r.transitions += 1
    for x, y in GRID:
        if ev(A, e, x, y) != val(p, x, y):
            r.fail("value", "%s = %r is %s at a=%d b=%d instead of %s" % (what(), e, ev(A, e, x, y), x, y, val(p, x, y)), expr=what())
            return
    # partial substitution, and substitution of one variable by an expression
    vx, vy = xy()
    xe = A.VariableToExpression(vx)
    for rep, f in ((xe + 2, lambda v: v + 2), (xe * 3, lambda v: 3 * v), (4, lambda v: 4)):
        s = A.substitute(e, {vy: rep})
        for x in (0, 1, 2, 5):
            if A.substitute(s, {vx: x}) != val(p, x, f(x)):
                r.fail("substitute", "%s with b replaced by %r is wrong at a=%d" % (what(), rep, x), expr=what())
                return
    lo = A.min_val(e)
    low = min(val(p, x, y) for x, y in GRID)
    if lo > low:
        r.fail("min_val", "%s: lower bound %s, but %s is attained" % (what(), lo, low), expr=what())
    if all(c >= 0 for m, c in p.items() if m != (0, 0)) and lo != p.get((0, 0), 0):
        r.fail("min_val", "%s: minimum %s instead of %s" % (what(), lo, p.get((0, 0), 0)), expr=what())
    used = {v for v, k in ((vx, 0), (vy, 1)) if any(m[k] for m in p)}
    if not used <= set(A.variables(e)):
        r.fail("variables", "%s: variables %r" % (what(), A.variables(e)), expr=what())


def polys(level):
    cs = ((0, 1, -2), (0, 1, -1, 3))[level]
    return list(itertools.product(cs, repeat=5))


def sl_unary(part, r):
    import Algebraic_Expression as A
    for coefs in part:
        e, p = build(A, coefs)
        r.states += 1
        r.traces += 1
        text = repr(e)

        def w(): return text
        agree(r, A, e, p, w)
        agree(r, A, -e, {m: -c for m, c in p.items()}, lambda: "-(%s)" % text)
        for k in (0, 1, -1, 2, 6):
            agree(r, A, e + k, padd(p, {(0, 0): k}), lambda: "%s + %d" % (text, k))
            agree(r, A, k + e, padd(p, {(0, 0): k}), lambda: "%d + %s" % (k, text))
            agree(r, A, e - k, padd(p, {(0, 0): -k}), lambda: "%s - %d" % (text, k))
            agree(r, A, k - e, padd({(0, 0): k}, p, -1), lambda: "%d - %s" % (k, text))
            agree(r, A, e * k, pmul(p, {(0, 0): k}), lambda: "%s * %d" % (text, k))
            agree(r, A, k * e, pmul(p, {(0, 0): k}), lambda: "%d * %s" % (k, text))
            if k:
                agree(r, A, e / k, pmul(p, {(0, 0): Fraction(1, k)}), lambda: "%s / %d" % (text, k))
                agree(r, A, (e * k) // k, p, lambda: "(%s * %d) // %d" % (text, k, k))
        q = {(0, 0): 1}
        for k in (0, 1, 2, 3):
            agree(r, A, e ** k, q, lambda: "(%s)^%d" % (text, k))
            q = pmul(q, p)
        lin = e.as_strictly_linear()
        want = None
        nz = {m: c for m, c in p.items() if m != (0, 0)}
        if len(nz) == 1 and list(nz)[0] in ((1, 0), (0, 1)):
            m, c = list(nz.items())[0]
            want = (xy()[m.index(1)], c, p.get((0, 0), 0))
        if (lin and tuple(lin)) != want:
            r.fail("linear", "%s: as_strictly_linear() is %r" % (text, lin), expr=text)
        if e.is_var_plus_const() != (want is not None and want[1] == 1):
            r.fail("linear", "%s: is_var_plus_const() is %r" % (text, e.is_var_plus_const()), expr=text)
        if repr(e) != text:
            r.fail("operand", "an operation changes %s" % text, expr=text)


def sl_pairs(part, r):
    import Algebraic_Expression as A
    P = [build(A, c) for c in polys(0)]
    texts = [repr(e) for e, _ in P]
    for i in part:
        e, p = P[i]
        for j, (f, q) in enumerate(P):
            r.states += 1
            agree(r, A, e + f, padd(p, q), lambda: "%s + %s" % (texts[i], texts[j]))
            agree(r, A, e - f, padd(p, q, -1), lambda: "%s - %s" % (texts[i], texts[j]))
            agree(r, A, e * f, pmul(p, q), lambda: "%s * %s" % (texts[i], texts[j]))
            r.transitions += 4
            if (e == f) != (p == q) or (e != f) != (p != q):
                r.fail("equality", "%s == %s is %r" % (texts[i], texts[j], e == f), x=texts[i], y=texts[j])
            low = min(val(p, x, y) - val(q, x, y) for x, y in GRID)
            if A.always_ge(e, f) and low < 0:
                r.fail("order", "%s is called >= %s" % (texts[i], texts[j]), x=texts[i], y=texts[j])
            if A.always_gt(e, f) and low <= 0:
                r.fail("order", "%s is called > %s" % (texts[i], texts[j]), x=texts[i], y=texts[j])
        if repr(e) != texts[i]:
            r.fail("operand", "an operation changes %s" % texts[i], expr=texts[i])


MONO3 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 0), (2, 0, 1)]


def polys3():
    """All polynomials in three variables with at most two terms from MONO3 and coefficients 1, -1."""
    return [dict(zip(ms, cs)) for k in (0, 1, 2) for ms in itertools.combinations(MONO3, k) for cs in itertools.product((1, -1), repeat=k)]


def sl_three(part, r):
    """Products, sums and comparisons of expressions in three variables."""
    import Algebraic_Expression as A
    V = [A.Variable(k) for k in (0, 1, 2)]
    X = [A.VariableToExpression(v) for v in V]

    def make(p, order):
        e = A.ConstantToExpression(0)
        for m, c in p.items():
            t = A.ConstantToExpression(c)
            for k in order:
                for _ in range(m[k]):
                    t = t * X[k]
            e = e + t
        return e

    def mul(p, q):
        out = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(map(sum, zip(m, n)))
                out[k] = out.get(k, 0) + c * d
        return {m: c for m, c in out.items() if c}

    grid = list(itertools.product((0, 1, 2, 3), repeat=3))
    P = polys3()
    E = [make(p, (0, 1, 2)) for p in P]
    for i in part:
        p, e = P[i], E[i]
        for order in itertools.permutations(range(3)):
            f = make(p, order)
            r.transitions += 1
            if not f == e or f != e:
                r.fail("equality", "%r built in another order gives %r, not equal" % (e, f), x=repr(e), y=repr(f))
        for j, q in enumerate(P):
            r.states += 1
            r.transitions += 4
            f = E[j]
            if (e == f) != (p == q):
                r.fail("equality", "%r == %r is %r" % (e, f, e == f), x=repr(e), y=repr(f))
            pq = mul(p, q)
            g, h = e * f, f * e
            want = make(pq, (0, 1, 2))
            if not (g == h and g == want):
                r.fail("equality", "(%r)(%r) gives %r and %r, not equal to %r" % (e, f, g, h, want), x=repr(e), y=repr(f))
            s = e + f
            for v in grid:
                at = dict(zip(V, v))
                a, b = (sum(c * v[0] ** m[0] * v[1] ** m[1] * v[2] ** m[2] for m, c in w.items()) for w in (p, q))
                if A.substitute(g, at) != a * b or A.substitute(s, at) != a + b:
                    r.fail("value", "%r and %r at %s: product %s, sum %s" % (e, f, v, A.substitute(g, at), A.substitute(s, at)), x=repr(e), y=repr(f))
                    break
            lo = A.min_val(g)
            if pq and all(c >= 0 for m, c in pq.items() if any(m)) and lo != pq.get((0, 0, 0), 0):
                r.fail("min_val", "%r: minimum %s" % (g, lo), expr=repr(g))
            used = {V[k] for k in range(3) if any(m[k] for m in pq)}
            if not used <= set(A.variables(g)):
                r.fail("variables", "%r: variables %r" % (g, A.variables(g)), expr=repr(g))


def sl_powers(part, r):
    """Numbers with a variable exponent: (c b^(u a + v b + w) + k)/d."""
    import Algebraic_Expression as A, Exp_Int as E
    vx, vy = xy()
    x, y = A.VariableToExpression(vx), A.VariableToExpression(vy)
    for b, u, v in part:
        if (u, v) == (0, 0):
            continue
        for w in (0, 1, 3):
            expo = x * u + y * v + w
            for c, k, d in ((1, 0, 1), (3, 5, 1), (1, -1, b - 1), (b, -b, b - 1), (2, 7, 1), (-1, 4, 1)):
                if d == 0:
                    continue
                f = c * E.exp_int(b, expo) + k
                if d != 1:
                    f = f / d
                r.states += 1
                r.traces += 1
                lo = A.min_val(f)
                for xv, yv in itertools.product((0, 1, 2, 5), repeat=2):
                    want = (c * b ** (u * xv + v * yv + w) + k) // d
                    r.transitions += 2
                    got = A.substitute(f, {vx: xv, vy: yv})
                    if E.try_eval(got) != want:
                        r.fail("power", "%s at a=%d b=%d is %s instead of %d" % (f, xv, yv, got, want), expr=str(f))
                    if not (lo == -INF or E.try_eval(lo) <= want):
                        r.fail("power-min", "%s: lower bound %s, but %d is attained" % (f, lo, want), expr=str(f))
                    # sums and products with others
                    g = f * 3 + 2
                    if E.try_eval(A.substitute(g, {vx: xv, vy: yv})) != 3 * want + 2:
                        r.fail("power", "3(%s)+2 at a=%d b=%d is wrong" % (f, xv, yv), expr=str(f))
                    h = f + f
                    if E.try_eval(A.substitute(h, {vx: xv, vy: yv})) != 2 * want:
                        r.fail("power", "%s plus itself at a=%d b=%d is wrong" % (f, xv, yv), expr=str(f))
                used = {q for q, z in ((vx, u), (vy, v)) if z}
                if set(A.variables(f)) != used:
                    r.fail("power-vars", "%s: variables %r" % (f, A.variables(f)), expr=str(f))


def sl_series(part, r):
    """sum of a polynomial in k (and another variable n) over k = 0..N-1."""
    import Algebraic_Expression as A
    from Macro import Proof_System as PS
    vk, vn = xy()
    n = A.VariableToExpression(vn)
    monos = [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (1, 1)]
    for coefs in part:
        e, p = build(A, coefs, monos)
        text = repr(e)
        r.states += 1
        r.traces += 1
        for N in (0, 1, 2, 3, 6):
            r.transitions += 1
            s = PS.series_sum(e, vk, N)
            for nv in (0, 1, 4):
                want = sum(val(p, k, nv) for k in range(N))
                got = A.substitute(s, {vn: nv})
                if got != want:
                    r.fail("series", "sum of %s over a=0..%d is %s instead of %s at b=%d" % (text, N - 1, got, want, nv), expr=text, N=N)
        for N, f in ((n, lambda v: v), (n + 2, lambda v: v + 2), (n * 2, lambda v: 2 * v)):
            r.transitions += 1
            s = PS.series_sum(e, vk, N)
            for nv in (0, 1, 2, 5):
                want = sum(val(p, k, nv) for k in range(f(nv)))
                got = A.substitute(s, {vn: nv})
                if got != want:
                    r.fail("series", "sum of %s over a=0..%r-1 is %s instead of %s at b=%d" % (text, N, got, want, nv), expr=text)
    if part and part[0] == part[-1]:
        return


def sl_series_huge(part, r):
    """The same with a huge number of summands."""
    import Algebraic_Expression as A, Exp_Int as E
    from Macro import Proof_System as PS
    vk, vn = xy()
    for coefs in part:
        e, p = build(A, coefs, [(0, 0), (1, 0), (2, 0), (3, 0)])
        D = math.lcm(*[Fraction(c).denominator for c in coefs])
        for b, ex, k in ((2, 5, 1), (3, 2, 0), (2, 1001, -1), (7, 1200, 3)):
            N = E.exp_int(b, ex) + k
            Nv = b ** ex + k
            r.states += 1
            r.transitions += 1
            S = [Nv, Nv * (Nv - 1) // 2, Nv * (Nv - 1) * (2 * Nv - 1) // 6, (Nv * (Nv - 1) // 2) ** 2]
            want = sum(Fraction(c) * s for c, s in zip(coefs, S))
            try:
                got = PS.series_sum(e, vk, N)
            except (AssertionError, E.ExpIntException, NotImplementedError, TypeError):
                r.count("refused")
                continue
            if want.denominator != 1:
                continue
            bad = B.wrong(got, B.I(int(want)), E) if not isinstance(got, A.Expression) else B.wrong(A.as_const(got), B.I(int(want)), E)
            if bad:
                r.fail("series", "sum of %r over a=0..%s-1 %s" % (e, N, bad), expr=repr(e))


def sl_refuse(part, r):
    import Algebraic_Expression as A
    from Macro import Proof_System as PS
    vk, vn = xy()
    for c, d in itertools.product((1, -2, 5), (4, 5)):
        e = A.VariableToExpression(vk) ** d * c + 1
        for N in (0, 1, 5):
            r.states += 1
            r.transitions += 1
            try:
                s = A.substitute(PS.series_sum(e, vk, N), {})
            except NotImplementedError:
                continue
            if s != sum(c * k ** d + 1 for k in range(N)):
                r.fail("series", "sum of %r over a=0..%d is %s" % (e, N - 1, s), expr=repr(e))


def sl_funcs(part, r):
    import Algebraic_Expression as A, Exp_Int as E
    from Macro import Rule_Func as F
    vx, vy = xy()
    y = A.VariableToExpression(vy)
    NR = 9
    for lo in part:
        # x -> x - c, while x >= lo
        for c in range(1, 7):
            f = F.Subtract_Func(vx, lo, c)
            r.traces += 1
            if not f.is_decreasing or f.has_collatz_decrease != (c > 1):
                r.fail("subtract", "x - %d: is_decreasing=%r" % (c, f.is_decreasing), c=c)
            for start in range(lo, lo + 25):
                r.states += 1
                r.transitions += 1
                x, n = start, 0
                while x >= lo:
                    x, n = x - c, n + 1
                if tuple(f.max_reps(start)) != (n, x):
                    r.fail("subtract", "x - %d from %d while at least %d: %r instead of %r" % (c, start, lo, f.max_reps(start), (n, x)), c=c, start=start, lo=lo)
                for k in range(NR):
                    if f.apply_rep(start, k) != start - k * c:
                        r.fail("subtract", "x - %d, %d times from %d" % (c, k, start), c=c)
            # a huge start
            for b, ex, k in ((2, 10, 3), (3, 1000, 0), (2, 2001, 5)):
                S, Sv = E.exp_int(b, ex) + k, b ** ex + k
                if Sv < lo:
                    continue
                r.transitions += 1
                n, x = f.max_reps(S)
                wn = (Sv - lo) // c + 1
                if B.wrong(n, B.I(wn), E) or E.try_eval(x) != Sv - wn * c:
                    r.fail("subtract", "x - %d from %s while at least %d: (%s, %s)" % (c, S, lo, n, x), c=c)
            if c == 1:
                n, x = f.max_reps(y + lo + 2)
                for v in (0, 1, 5):
                    r.transitions += 1
                    if A.substitute(n, {vy: v}) != v + 3 or A.substitute(x, {vy: v}) != lo - 1:
                        r.fail("subtract", "x - 1 from %r: (%r, %r)" % (y + lo + 2, n, x))
        for c in range(0, 5):
            f = F.Add_Func(vx, lo, c)
            if f.is_decreasing or f.min < lo:
                r.fail("add", "x + %d: is_decreasing=%r min=%r" % (c, f.is_decreasing, f.min), c=c)
            for start in (lo, lo + 7):
                for k in range(NR):
                    r.transitions += 1
                    if f.apply_rep(start, k) != start + k * c:
                        r.fail("add", "x + %d, %d times from %d" % (c, k, start), c=c)
        for m in range(2, 7):
            for c in range(-12, 13):
                f = F.Mult_Func(vx, lo, m, c)
                r.states += 1
                r.traces += 1
                if f.is_decreasing or f.min < lo or any(m * x + c < x for x in range(f.min, f.min + 30)):
                    r.fail("mult", "x -> %dx%+d while at least %d: min=%r, but it decreases there" % (m, c, lo, f.min), m=m, c=c, lo=lo)
                for start in (f.min, f.min + 1, f.min + 6):
                    x = start
                    for k in range(1, NR):
                        r.transitions += 1
                        x = m * x + c
                        got = f.apply_rep(start, k)
                        if E.try_eval(got) != x:
                            r.fail("mult", "x -> %dx%+d, %d times from %d is %s instead of %d" % (m, c, k, start, got, x), m=m, c=c, k=k)
                # a symbolic number of repetitions
                g = f.apply_rep(f.min + 2, y + 1)
                for v in (0, 1, 4):
                    x = f.min + 2
                    for _ in range(v + 1):
                        x = m * x + c
                    r.transitions += 1
                    if E.try_eval(A.substitute(g, {vy: v})) != x:
                        r.fail("mult", "x -> %dx%+d, b+1 times from %d is wrong at b=%d" % (m, c, f.min + 2, v), m=m, c=c)


def sl_pow(part, r):
    """x -> (a b^(u x + v) + c)/d: from the reported minimum on it never falls below x."""
    import Algebraic_Expression as A, Exp_Int as E
    from Macro import Rule_Func as F
    vx, _ = xy()
    cs = list(range(-40, 41)) if vp.THOROUGH else [-40, -17, -9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5, 8, 10, 25]
    for b, u, v in part:
        for a in (1, 2, 3, 5):
            for c in cs:
                for d in (1, 2, 3, 4, 8, 20):
                    for lo in (0, 1, 2, 5):
                        r.states += 1
                        r.transitions += 1
                        what = "x -> (%d %d^(%dx%+d)%+d)/%d" % (a, b, u, v, c, d)
                        try:
                            f = with_timeout(lambda: F.Pow_Func(vx, lo, b, a, c, d, u, v))
                        except Hang:
                            r.fail("pow-hang", "%s with minimum %d: never returns" % (what, lo), expr=what, lo=lo)
                            return
                        if f.is_decreasing or f.min < lo:
                            r.fail("pow", "%s: min=%r" % (what, f.min), expr=what)
                        for x in range(f.min, f.min + 60):
                            if a * Fraction(b) ** (u * x + v) + c < d * x:
                                r.fail("pow", "%s while at least %d: minimum %d, but it decreases at x=%d" % (what, lo, f.min, x), expr=what, lo=lo)
                                break
                        if a * b ** (u * f.min + v + 3) < 10 ** 6:
                            n = a * Fraction(b) ** (u * f.min + v) + c
                            if n % d == 0 and v >= 0:
                                got = E.try_eval(A.substitute(f.expr, {vx: f.min}))
                                if got != n / d:
                                    r.fail("pow", "%s at x=%d is %r" % (what, f.min, got), expr=what)


def sl_fits(part, r):
    """config_fits_min: True only if every variable count reaches its minimum for every assignment."""
    import Algebraic_Expression as A
    from Macro import Proof_System as PS
    vx, vy = xy()
    x = A.VariableToExpression(vx)
    counts = [(0, 0, 0), (3, 3, 0), (7, 7, 0), (x + 2, 2, 1), (x * 2 + 3, 3, 2), (x, 0, 1)]
    try:
        PS.config_fits_min([None], [1], [1], {})
    except (AttributeError, TypeError):
        # An internal helper: where it is gone or renamed, C03 judges the rules by what they do.
        r.count("rule applicability helper not present")
        return
    for mins in part:
        for cur in itertools.product(counts, repeat=2):
            for vars_ in itertools.product((None, vy), repeat=2):
                r.states += 1
                r.transitions += 1
                asg = {}
                got = PS.config_fits_min(list(vars_), list(mins), [c[0] for c in cur], asg)
                want = all(v is None or c[1] >= m for v, c, m in zip(vars_, cur, mins))
                if got != want:
                    r.fail("fits", "counts %r, minimums %r: %r" % ([c[0] for c in cur], mins, got), mins=list(mins))


def body(c):
    T = vp.THOROUGH
    c.run(sl_unary, vp.slices(polys(1), 32), "single expressions")
    c.run(sl_pairs, vp.slices(range(len(polys(0))), 32), "pairs of expressions")
    c.run(sl_three, vp.slices(range(len(polys3())), 32), "expressions in three variables")
    c.run(sl_powers, vp.slices([(b, u, v) for b in (2, 3, 6, 10) for u in range(4) for v in range(4)], 16), "variable exponents")
    F = Fraction
    cs = [(0, 1, -2, F(1, 2)), (0, 1, F(1, 2), -3, F(-1, 6)), (0, 1, F(1, 2), F(1, 3), -2), (0, 1, 2, F(1, 2), F(-1, 4)), (0, 1, F(3, 2)), (0, 1, -1, F(1, 2))]
    c.run(sl_series, vp.slices(list(itertools.product(*cs)), 32), "sums of series")
    c.run(sl_series_huge, vp.slices(list(itertools.product((0, 1, -2, F(1, 2)), repeat=4)), 8), "sums of huge series")
    c.run(sl_refuse, [[0]], "sums without closed form")
    c.run(sl_funcs, [[lo] for lo in range(0, 12 if T else 8)], "update functions")
    c.run(sl_pow, [[(b, u, v)] for b in (2, 3, 4, 7, 10) for u in (1, 2, 3) for v in (-1, 0, 1, 4)], "exponential update functions")
    c.run(sl_fits, vp.slices(list(itertools.product(range(5), repeat=2)), 5), "rule applicability")
    c.assumptions = ["polynomials of degree at most 6 in two variables are determined by their values on the grid together with the coefficient comparison of equality"]
    c.extra["bounds"] = dict(expressions="5 monomials, 3-4 coefficient values each", series="degree <= 3 in k, fractions included", functions="coefficients to 6, constants to 12")


vp.main(body, "C17")
