"""C16: arithmetic on formula numbers agrees with integer arithmetic."""
import os, sys, itertools, operator, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, bignum as B
from decimal import Decimal, getcontext

sys.set_int_max_str_digits(0)
REFUSE = ()


def refuse():
    import Exp_Int
    return (Exp_Int.ExpIntException, AssertionError, NotImplementedError, TypeError, OverflowError)


def is_small(T):
    return T.val is not None and T.val.bit_length() < 900


CMP = [("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)]


def judge(r, E, what, f, T, must):
    r.transitions += 1
    try:
        R = f()
    except refuse() as e:
        if must:
            r.fail("refused", "%s: no answer (%s: %s)" % (what(), type(e).__name__, str(e)[:80]), expr=what())
        else:
            r.count("refused")
        return None
    bad = B.wrong(R, T, E)
    if bad:
        r.fail(what.__name__, "%s %s" % (what(), bad), expr=what())
    return R


def binary(r, E, x, X, y, Y, must):
    r.states += 1
    xs, ys = str(x), str(y)

    def plus(): return "(%s) + (%s)" % (xs, ys)
    def minus(): return "(%s) - (%s)" % (xs, ys)
    def times(): return "(%s) * (%s)" % (xs, ys)
    judge(r, E, plus, lambda: x + y, B.add(X, Y), must)
    judge(r, E, minus, lambda: x - y, B.sub(X, Y), must)
    judge(r, E, times, lambda: x * y, B.mul(X, Y), must)
    if X.val is not None and Y.val is not None:
        for name, op in CMP:
            r.transitions += 1
            try:
                got = op(x, y)
            except refuse() as e:
                if must:
                    r.fail("refused", "(%s) %s (%s): no answer (%s)" % (xs, name, ys, type(e).__name__))
                r.count("refused")
                continue
            if got is not op(X.val, Y.val):
                r.fail("compare", "(%s) %s (%s) is %r" % (xs[:200], name, ys[:200], got), x=xs[:300], y=ys[:300])
    if str(x) != xs or str(y) != ys:
        r.fail("operand", "an operation changes an operand: %s, %s" % (xs[:100], ys[:100]))


def sl_pairs(part, r):
    import Exp_Int as E
    b, level, i, k = part
    L = B.leaves(E, b, level)
    for x, X in L[i::k]:
        for y, Y in L:
            if isinstance(x, int) and isinstance(y, int):
                continue
            binary(r, E, x, X, y, Y, is_small(X) and is_small(Y))
    r.traces += len(L[i::k])


INTS = [0, 1, -1, 2, -3, 7, 10, 96, -100, 2 ** 64, -(10 ** 30), 3 ** 700, 10 ** 1001, -(7 ** 2000)]


def sl_unary(part, r):
    """Each number alone, against integers, remainders and quotients."""
    import Exp_Int as E
    b, i, k = part
    for x, X in B.leaves(E, b, 2)[i::k]:
        if isinstance(x, int):
            continue
        must = is_small(X)
        xs = str(x)
        bad = B.wrong(x, X, E)
        r.states += 1
        r.traces += 1
        if bad:
            r.fail("value", "%s %s" % (xs, bad), expr=xs)
        if must and E.try_eval(x) != X.val:
            r.fail("eval", "try_eval(%s) is %r" % (xs, E.try_eval(x)), expr=xs)

        def neg(): return "-(%s)" % xs
        judge(r, E, neg, lambda: -x, B.lin([(-1, X)]), True)
        for n in INTS:
            nT = B.I(n)
            binary(r, E, x, X, n, nT, must and abs(n) < 2 ** 900)
            binary(r, E, n, nT, x, X, must and abs(n) < 2 ** 900)
        for inf in (math.inf, -math.inf):
            for name, op in CMP:
                r.transitions += 1
                if op(x, inf) is not op(0, inf) or op(inf, x) is not op(inf, 0):
                    r.fail("compare", "(%s) %s %s" % (xs, name, inf), expr=xs)
        for m in list(range(1, 97)) + [100, 128, 210, 1024, 3 ** 7, 97 * 97, 2 ** 20 * 3 ** 5]:
            r.transitions += 1
            got = x % m
            if got != X.mod(m) or not isinstance(got, int):
                r.fail("mod", "(%s) %% %d is %r instead of %d" % (xs, m, got, X.mod(m)), expr=xs, m=m)
        for m in (E.exp_int(2, 3), E.exp_int(3, 2) + 1):
            r.transitions += 1
            if x % m != X.mod(E.try_eval(m)):
                r.fail("mod", "(%s) %% (%s) is wrong" % (xs, m), expr=xs)
        for m in (1, 2, 3, 4, 5, 6, 7, 8, 12, 25, 64, 81, 1000):
            r.transitions += 2
            rem = X.mod(m)
            Q = B.lin([(1, X)], -rem, m)

            def quotient(): return "(%s) // %d" % (xs, m)
            try:
                q, rr = divmod(x, m)
            except refuse() as e:
                if must:
                    r.fail("refused", "divmod(%s, %d): no answer (%s)" % (xs, m, type(e).__name__), expr=xs)
                r.count("refused")
                continue
            if rr != rem:
                r.fail("divmod", "divmod(%s, %d): remainder %r instead of %d" % (xs, m, rr, rem), expr=xs)
            judge(r, E, quotient, lambda: q, Q, must)
            judge(r, E, quotient, lambda: x // m, Q, must)
            if rem == 0:
                def exact(): return "(%s) / %d" % (xs, m)
                judge(r, E, exact, lambda: x / m, Q, must)
        if str(x) != xs:
            r.fail("operand", "an operation changes its operand %s" % xs)


def sl_triples(part, r):
    """(x op y) op z over a small set, including the simplification of what cancels."""
    import Exp_Int as E
    b, i, k = part
    L = [z for z in B.leaves(E, b, 0) if not isinstance(z[0], int)]
    ops = [("+", operator.add, B.add), ("-", operator.sub, B.sub), ("*", operator.mul, B.mul)]
    for x, X in L[i::k]:
        for y, Y in L:
            for n1, f1, t1 in ops:
                try:
                    u = f1(x, y)
                except refuse():
                    r.count("refused")
                    continue
                U = t1(X, Y)
                r.states += 1
                for z, Z in L:
                    for n2, f2, t2 in ops:
                        if n2 == "*" and isinstance(u, int) and isinstance(z, int):
                            continue

                        def triple(): return "((%s) %s (%s)) %s (%s)" % (x, n1, y, n2, z)
                        judge(r, E, triple, lambda: f2(u, z), t2(U, Z), is_small(X) and is_small(Y) and is_small(Z))


def sl_powers(part, r):
    """exp_int over every base and exponent of a box."""
    import Exp_Int as E
    for b in part:
        for e in list(range(0, 40)) + [999, 1000, 1001]:
            T = B.P(b, e)
            x = E.exp_int(b, e)
            r.states += 1
            r.transitions += 1
            bad = B.wrong(x, T, E)
            if bad:
                r.fail("power", "exp_int(%d, %d) %s" % (b, e, bad))
            if e < 40 and E.try_eval(x) != b ** e:
                r.fail("power", "exp_int(%d, %d) evaluates to %r" % (b, e, E.try_eval(x)))


def sl_deep(part, r):
    import Exp_Int as E
    b, i, k = part
    L = B.deep_numbers(E, b, vp.THOROUGH)
    for x, X in L[i::k]:
        xs = str(x)
        r.states += 1
        r.traces += 1
        bad = B.wrong(x, X, E)
        if bad:
            r.fail("value", "%s %s" % (xs, bad), expr=xs)
        for m in range(1, 97):
            r.transitions += 1
            if x % m != X.mod(m):
                r.fail("mod", "(%s) %% %d is %d instead of %d" % (xs, m, x % m, X.mod(m)), expr=xs, m=m)
        for y, Y in L:
            def deep(): return "(%s), (%s)" % (xs, y)
            judge(r, E, deep, lambda: x + y, B.add(X, Y), False)
            judge(r, E, deep, lambda: x - y, B.sub(X, Y), False)
            judge(r, E, deep, lambda: x * y, B.mul(X, Y), False)
        for m in (2, 3, 4, 5, 12):
            rem = X.mod(m)

            def deepdiv(): return "(%s) // %d" % (xs, m)
            judge(r, E, deepdiv, lambda: x // m, B.lin([(1, X)], -rem, m), False)
        for n in (0, 1, -5, 10 ** 400, 7 ** 5000):
            for name, op in CMP:
                r.transitions += 2
                big = 1 if X.val is None or X.val > n else (0 if X.val == n else -1)
                if op(x, n) is not op(big, 0) or op(n, x) is not op(0, big):
                    r.fail("compare", "(%s) %s %s is wrong" % (xs[:200], name, B.short(n)), expr=xs[:300])


LOG = {}


def log10(n):
    getcontext().prec = 2500
    if n not in LOG:
        LOG[n] = Decimal(n).log10()
    return LOG[n]


ORDER_BASES, ORDER_COEFS = (2, 3, 10, 97), ((1, 0), (1, 1), (3, -7), (10 ** 50, 0))
ORDER_INTS = (10 ** 400, 2 ** 1000, 2 ** 1000 + 1, 97 ** 999, 10 ** 3000)


def sl_order(part, r):
    """Comparisons of numbers c b^n + k, with n up to 10^1000 or itself a formula, across bases."""
    import Exp_Int as E
    getcontext().prec = 2500
    items = []
    ns = [(n, n) for n in (999, 1000, 1001, 3000, 10 ** 6, 10 ** 6 + 1, 10 ** 20, 10 ** 300, 10 ** 302 + 1, 10 ** 1000)]
    ns += [(E.exp_int(b2, n2) * c2 + k2, c2 * b2 ** n2 + k2) for b2, n2 in ((2, 1000), (2, 1001), (3, 1000), (7, 1200)) for c2, k2 in ((1, 0), (1, 5), (5, -1))]
    for b in ORDER_BASES:
        for n, nv in ns:
            for c, k in ORDER_COEFS:
                items.append((E.exp_int(b, n) * c + k, (Decimal(nv) * log10(b) + log10(c), k)))
    for n in ORDER_INTS:
        items.append((n, (log10(n), 0)))
    i, kk = part
    for x, (lx, kx) in items[i::kk]:
        for y, (ly, ky) in items:
            if isinstance(x, int) and isinstance(y, int):
                continue
            r.states += 1
            d = lx - ly
            if abs(d) < Decimal(10) ** -1000:
                # same main part (decided by the constant) or not decidable here
                if isinstance(x, int) or isinstance(y, int):
                    continue
                want = (kx > ky) - (kx < ky)
            else:
                want = 1 if d > 0 else -1
            for name, op in CMP:
                r.transitions += 1
                try:
                    got = op(x, y)
                except E.ExpIntException:
                    r.count("refused")
                    continue
                if got is not op(want, 0):
                    r.fail("compare", "(%s) %s (%s) is %r" % (str(x)[:150], name, str(y)[:150], got), x=str(x)[:300], y=str(y)[:300])


def body(c):
    T = vp.THOROUGH
    bases = (2, 3, 10) if not T else (2, 3, 6, 7, 10, 12)
    K = 8
    c.run(sl_powers, vp.slices(range(2, 200 if T else 100), 8), "powers")
    c.run(sl_unary, [(b, i, K) for b in bases + (97, 8) for i in range(K)], "single numbers")
    for n in ORDER_BASES + ORDER_INTS + tuple(x for x, _ in ORDER_COEFS):
        log10(n)
    c.run(sl_order, [(i, 16) for i in range(16)], "order across bases and sizes")
    c.run(sl_deep, [(b, i, 2 * K) for b in ((2, 3, 7, 5, 10) if T else (2, 3)) for i in range(2 * K)], "towers")
    c.run(sl_triples, [(b, i, 2 * K) for b in ((2, 3, 10) if T else (3,)) for i in range(2 * K)], "triples")
    c.run(sl_pairs, [(b, 2 if T else 1, i, 4 * K) for b in bases for i in range(4 * K)], "pairs")
    c.assumptions = ["numbers too large to write down are compared by sign, by remainders modulo several composite numbers, and (order) by 2500-digit logarithms",
                     "a refusal (exception) is accepted where the answer cannot be represented or decided; never for numbers below 2^900"]
    c.extra["bounds"] = dict(bases=bases, exponents="0-7, 999-2500, formulas of value 0-3; towers of height 3", terms="1-2 per number", expressions="all pairs, all triples over a smaller set")


vp.main(body, "C16")
