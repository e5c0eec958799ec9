"""C09: reverse-engineering filter never accepts a halting machine."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref


def enterable(tm):
    """A halting or undefined cell that the argument of the filter cannot rule out, or None."""
    n, m = len(tm), len(tm[0])
    run = [c for row in tm for c in row if c is not None and c[2] >= 0]
    for q in range(n):
        for s in range(m):
            c = tm[q][s]
            if c is not None and c[2] >= 0:
                continue
            into = {x[1] for x in run if x[2] == q}
            writes = {x[1] for x in run if x[0] == s}
            if s == 0:
                if into or q == 0:
                    return (q, s)
            elif into and writes and len(into | writes) == 2:
                return (q, s)
    return None


def sl(part, r):
    import IO, io_pb2
    import Reverse_Engineer_Filter as F
    from IO import TM_Record
    import TM_Enum
    gen, bound, records = part
    first = None
    for item in gen():
        tm = item[0] if isinstance(item[-1], int) else item
        first = first or tm
        text = ref.tm_str(tm)
        got = F.is_infinite(IO.parse_tm(text))
        r.states += 1
        if got:
            r.count("accepted")
            r.traces += 1
            s = ref.Sim(tm).seek(bound)
            r.transitions += s.steps
            if s.halted:
                r.fail("halts", "%s called infinite but halts after %d steps" % (text, s.steps), tm=text)
        elif enterable(tm) is None:
            r.fail("missed", "%s not recognised although no halting cell can be entered" % text, tm=text)
        if records:
            rec = TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(text), allow_no_halt=False))
            F.filter(rec)
            h = rec.proto.status.halt_status
            want = (bool(got), False) if got else (False, False)
            if (h.is_decided, h.is_halting) != want or rec.proto.filter.reverse_engineer.success != bool(got):
                r.fail("record", "%s: filter says %s but the record says %s" % (text, got, str(rec.proto.status).replace("\n", " ")), tm=text)
            elif got and (h.inf_reason != io_pb2.INF_REVERSE_ENGINEER or rec.proto.status.quasihalt_status.is_decided):
                r.fail("record", "%s: wrong reason or quasi-halting verdict: %s" % (text, str(rec.proto.status).replace("\n", " ")), tm=text)
            if rec.tm().ttable_str() != IO.parse_tm(text).ttable_str():
                r.fail("mutated", "%s: filter changed the machine" % text, tm=text)
    if first:
        r.sample(ref.tm_str(first))


def tables(n, m, prefix, cells):
    """All tables starting with the given cells."""
    def gen():
        k = n * m - len(prefix)
        for rest in itertools.product(cells, repeat=k):
            a = prefix + rest
            yield tuple(tuple(a[i * m:(i + 1) * m]) for i in range(n))
    return gen


def body(c):
    import Reverse_Engineer_Filter  # noqa
    c.assumptions = ["halting truth of a class from its proven busy-beaver step bound (2x4, 3x3: bounded run of the reference)"]
    T = vp.THOROUGH
    J = vp.slices
    L = lambda x: (lambda: iter(x))
    full22 = ref.all_cells(2, 2)
    c.run(sl, [(tables(2, 2, (a, b), full22), 7, True) for a in full22 for b in full22], "every 2x2 table")
    for m in (2, 3, 4, 5):
        cs = ref.all_cells(1, m) if m < 5 else ref.all_cells(1, m, halts=False)
        c.run(sl, [(tables(1, m, (a,), cs), 5 if m < 4 else 40, m < 4) for a in cs], "every 1x%d table" % m)
    for n, m in ((3, 2), (2, 3)):
        cells = ref.all_cells(n, m, halts=T)
        pre = [p for p in itertools.product(cells, repeat=2)]
        if not T:
            # the first cell up to mirroring and renaming: stop, stay in A, go to B; both symbols
            firsts = [None] + [(s, 1, q) for s in range(m) for q in (0, 1)]
            pre = [p for p in pre if p[0] in firsts]
        c.run(sl, [(tables(n, m, p, cells), ref.BB_STEPS[(n, m)] + 1, False) for p in pre], "every %dx%d table%s" % (n, m, "" if T else " (halting cells undefined, first cell up to symmetry)"))
    r42 = ref.tnf(4, 2)
    c.run(sl, [(L(s), 108, True) for s in J(r42, 512)], "all 4x2 TNF machines, record filter")
    r24 = ref.tnf(2, 4, bound=300 if T else 60, mode="halt")
    c.run(sl, [(L(s), 5000, False) for s in J(r24, 512)], "2x4 TNF machines that halt soon")
    c.extra["bounds"] = "every 1x2..1x5, 2x2 table; 3x2 and 2x3 tables; all 4x2 TNF; halting 2x4 TNF"


if __name__ == "__main__":
    vp.main(body, "C09")
