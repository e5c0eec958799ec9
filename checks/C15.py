"""C15: recorded numbers of any size read back exactly."""
import os, sys, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, bignum as B

sys.set_int_max_str_digits(0)


def same(got, want, E, T=None):
    if isinstance(want, int):
        return got == want and not isinstance(got, E.ExpInt)
    if not isinstance(got, E.ExpInt) or str(got) != str(want) or not E.struct_eq(got, want):
        return False
    if got.tower_value != want.tower_value or got.sign != want.sign:
        return False
    return T is None or B.wrong(got, T, E) is None


def paths(H, pb):
    """Name -> (fill(value) -> bytes, read(bytes) -> value): every place a number is stored in."""
    def rec(store, fetch):
        def go(v):
            p = pb.TMRecord()
            store(p, v)
            direct = fetch(p)
            q = pb.TMRecord()
            q.ParseFromString(p.SerializeToString())
            p2 = pb.TMRecord()
            p2.CopyFrom(p)
            return [direct, fetch(q), fetch(p2)]
        return go

    def big(v):
        p = pb.BigInt()
        H.set_big_int(p, v)
        q = pb.BigInt()
        q.ParseFromString(p.SerializeToString())
        return [H.get_big_int(p), H.get_big_int(q)]

    return dict(
        field=big,
        halt_steps=rec(lambda p, v: H.set_halting(p.status, v, 1, 0, 1), lambda p: H.get_big_int(p.status.halt_status.halt_steps)),
        halt_score=rec(lambda p, v: H.set_halting(p.status, 3, v, None, None), lambda p: H.get_big_int(p.status.halt_status.halt_score)),
    )


def check_one(r, E, v, T, P, what):
    r.states += 1
    r.traces += 1
    for name, go in P.items():
        r.transitions += 1
        try:
            got = go(v)
        except Exception as e:
            r.fail("raise:" + name, "storing %s as %s raises %s: %s" % (what, name, type(e).__name__, str(e)[:100]), value=what)
            continue
        for g in got:
            if not same(g, v, E, T):
                r.fail("value:" + name, "%s stored as %s reads back as %s" % (what, name, B.short(g) if isinstance(g, int) else str(g)[:100]), value=what)


def sl_ints(part, r):
    import Exp_Int as E, Halting_Lib as H, io_pb2 as pb
    P = paths(H, pb)
    for v in part:
        check_one(r, E, v, None, P, B.short(v))


def sl_quasi(part, r):
    """The step of the last visit, as recorded by set_inf_recur, for every choice of ignored states."""
    import Halting_Lib as H, io_pb2 as pb
    for v in part:
        if v < 0:
            continue
        p = pb.TMRecord()
        H.set_inf_recur(p.status, [1], {0: v, 1: v + 5})
        q = pb.TMRecord()
        q.ParseFromString(p.SerializeToString())
        r.states += 1
        r.transitions += 1
        got = H.get_big_int(q.status.quasihalt_status.quasihalt_steps)
        if got != v + 1:
            r.fail("value:quasihalt_steps", "state last seen at step %s: stored quasihalting step reads back as %r" % (B.short(v), got), value=str(v))


def to_proto(x, f, pb, style):
    """Our own encoding of formula numbers as nested messages (the older, still readable layouts)."""
    def num(v, g):
        if isinstance(v, int):
            if 0 <= v < 2 ** 64 and style == "old":
                g.uint_old = v
            elif abs(v) < 2 ** 63:
                g.int = v
            else:
                g.hex_str = hex(v)
        else:
            to_proto(v, g.exp_int, pb, style)
    small = abs(x.const) < 2 ** 63 and all(abs(t.coef) < 2 ** 63 for t in x.terms)
    f.denom = x.denom
    if style == "old" and small:
        f.const_old = x.const
    else:
        num(x.const, f.const)
    for t in x.terms:
        g = f.terms.add()
        g.base = t.base
        if style == "old" and small:
            g.coef_old = t.coef
        else:
            num(t.coef, g.coef)
        num(t.exponent, g.exponent)


def check_formula(r, E, H, pb, P, x, T):
    xs = str(x)
    if x.sign >= 0:
        check_one(r, E, x, T, P, xs[:300])
    r.states += 1
    # explicit message form
    f = pb.ExpInt()
    r.transitions += 3
    H.serialize_exp_int(x, f)
    g = pb.ExpInt()
    g.ParseFromString(f.SerializeToString())
    if not same(H.parse_exp_int(g), x, E, T):
        r.fail("value:exp_int", "%s serialised reads back as %s" % (xs[:200], str(H.parse_exp_int(g))[:200]), value=xs[:300])
    for style in ("new", "old"):
        big = pb.BigInt()
        to_proto(x, big.exp_int, pb, style)
        got = H.get_big_int(pb.BigInt.FromString(big.SerializeToString()))
        if not same(got, x, E, T):
            r.fail("value:" + style, "%s in nested %s messages reads back as %s" % (xs[:200], style, str(got)[:200]), value=xs[:300])
    if str(x) != xs:
        r.fail("operand", "storing %s changes it" % xs[:200], value=xs[:300])


def sl_formulas(part, r):
    import Exp_Int as E, Halting_Lib as H, io_pb2 as pb
    P = paths(H, pb)
    kind, b, i, k = part
    L = B.leaves(E, b, 2) if kind == "flat" else B.deep_numbers(E, b, vp.THOROUGH)
    for x, T in L[i::k]:
        if not isinstance(x, int):
            check_formula(r, E, H, pb, P, x, T)


def sl_towers(part, r):
    """Towers of every height."""
    import Exp_Int as E, Halting_Lib as H, io_pb2 as pb
    P = paths(H, pb)
    for b, c, k in part:
        x = 138
        for h in range(1, 601 if vp.THOROUGH else 201):
            x = c * E.exp_int(b, x) + k
            if h <= 40 or h % 40 == 0:
                check_one(r, E, x, None, P, "tower of height %d" % h)


def sl_sequences(part, r):
    """A field set several times holds the last number; a cleared or never set one holds none."""
    import Exp_Int as E, Halting_Lib as H, io_pb2 as pb
    vals = [None, 0, 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 10 ** 60, E.exp_int(7, 5), (E.exp_int(3, E.exp_int(3, 2000)) - 1) / 2]
    n = 4 if vp.THOROUGH else 3
    for first in part:
        for seq in itertools.product(range(len(vals)), repeat=n - 1):
            seq = (first,) + seq
            for fresh in (True, False):
                f = pb.BigInt()
                st = pb.BBStatus()
                for j in seq:
                    r.transitions += 1
                    if vals[j] is None:
                        f.Clear()
                        st.Clear()
                    else:
                        H.set_big_int(f, vals[j])
                        H.set_halting(st, vals[j], vals[j] if fresh else 5, 1, 1)
                    if not fresh:
                        f = pb.BigInt.FromString(f.SerializeToString())
                        st = pb.BBStatus.FromString(st.SerializeToString())
                    w = vals[j]
                    got = [H.get_big_int(f), H.get_big_int(st.halt_status.halt_steps)]
                    if fresh:
                        got.append(H.get_big_int(st.halt_status.halt_score))
                    for g in got:
                        if (w is None and g is not None) or (w is not None and not same(g, w, E)):
                            r.fail("sequence", "after storing %s the number reads as %s" % ([str(vals[q])[:60] for q in seq], str(g)[:60]), seq=list(seq))
                r.states += 1


def sl_old(part, r):
    import Halting_Lib as H, io_pb2 as pb
    for v in part:
        r.states += 1
        if 0 <= v < 2 ** 64:
            f = pb.BigInt()
            f.uint_old = v
            r.transitions += 1
            if H.get_big_int(pb.BigInt.FromString(f.SerializeToString())) != v:
                r.fail("old", "old encoding of %d reads as %r" % (v, H.get_big_int(f)), value=str(v))
        for text in (hex(v), hex(v).upper().replace("0X", "0x")):
            f = pb.BigInt()
            f.hex_str = text
            r.transitions += 1
            if H.get_big_int(f) != v:
                r.fail("old", "hex text %s reads as %r" % (text[:60], H.get_big_int(f)), value=str(v))


def sl_print(part, r):
    """What is printed for a number: exact below 10^10, otherwise rounded to five decimals of its logarithm."""
    import Exp_Int as E, Halting_Lib as H
    for v in part:
        if v < 0:
            continue
        for x in (v, E.exp_int(2, 3) + (v - 8)):
            r.states += 1
            r.transitions += 1
            s = H.big_int_approx_str(x)
            full = H.big_int_approx_and_full_str(x) if not (isinstance(x, int) and v == 0) else s
            if v < 10 ** 10:
                ok = s.replace("_", "") == str(v)
            else:
                ok = s.startswith("~10^") and abs(float(s[4:].replace("_", "")) - math.log10(v)) < 1.1e-5 + 1e-9 * math.log10(v)
            if not ok or not full.startswith(s):
                r.fail("print", "%s is printed as %s" % (x, s), value=str(x)[:200])


def near_powers(bases_max, width):
    out = set(range(-300, 301))
    for b, kmax in bases_max:
        for k in range(kmax + 1):
            for d in range(-width, width + 1):
                out.add(b ** k + d)
                out.add(-(b ** k) + d)
    return sorted(out)


def body(c):
    T = vp.THOROUGH
    ints = near_powers([(2, 4000 if T else 400), (10, 1200 if T else 150)], 6 if T else 4)
    c.run(sl_ints, vp.slices(ints, 32), "integers at every boundary")
    c.run(sl_quasi, vp.slices(ints, 8), "quasihalting step")
    c.run(sl_old, vp.slices(ints, 8), "older encodings")
    c.run(sl_print, vp.slices(ints + list(range(300, 2000)), 16), "printed form")
    c.run(sl_sequences, [[i] for i in range(9)], "store sequences")
    bases = (2, 3, 6, 7, 10, 12, 97) if T else (2, 3, 10, 97)
    c.run(sl_formulas, [("flat", b, i, 8) for b in bases for i in range(8)], "formula numbers")
    c.run(sl_formulas, [("deep", b, i, 16) for b in ((2, 3, 7) if T else (2, 3)) for i in range(16)], "nested formula numbers")
    c.run(sl_towers, [[(b, cc, k)] for b in (2, 5, 10) for cc in (1, 13) for k in (0, -1)], "towers")
    c.extra["bounds"] = dict(integers="|±b^k+d| for b=2 (k<=%d), b=10; both signs" % (4000 if T else 400), sequences="all sequences of %d stores over 9 kinds" % (4 if T else 3))


vp.main(body, "C15")
