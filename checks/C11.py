"""C11: enumeration covers every machine exactly once up to equivalence."""
import os, sys, itertools, tempfile, shutil, contextlib, io
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref

FAST = ["--lin-steps=0", "--no-ctl", "--no-reverse-engineer", "-n", "1", "--max-loops=200"]
SOME = {"fast": FAST, "default": ["--max-loops=150"], "weak": ["--lin-steps=0", "--no-ctl", "--no-reverse-engineer", "-n", "1", "--no-prover", "--max-loops=7"]}


def enum_main(args):
    import Enumerate
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        Enumerate.main(args)


def facts(rec):
    """The part of a record that must not depend on the way it was produced."""
    import Halting_Lib, io_pb2
    st = rec.proto.status
    h = st.halt_status
    big = Halting_Lib.get_big_int
    if not h.is_decided:
        v = "open"
    elif h.is_halting:
        v = "halt %s %s %d%d" % (big(h.halt_steps), big(h.halt_score), h.from_state, h.from_symbol)
    else:
        q = st.quasihalt_status
        v = "inf %s q%s" % (io_pb2.InfReason.Name(h.inf_reason),
                            None if not q.is_decided else (big(q.quasihalt_steps), q.quasihalt_state) if q.is_quasihalting else False)
    return rec.tm().ttable_str(), v


def read(path):
    import IO
    with IO.Reader(path) as reader:
        return list(reader)


def write(path, recs):
    import IO
    with IO.Proto.Writer(path) as w:
        for x in recs:
            w.write_record(x)


def never_run(rec):
    """An open machine of the enumeration: no filter has looked at it yet."""
    return rec.is_unknown_halting() and not rec.proto.filter.ByteSize()


def expected(n, m, first_1rb, allow):
    """Reference: text -> 'halt steps score cell' or 'inf'."""
    out = {}
    for tm, t in ref.tnf(n, m, first_1rb=first_1rb, allow_no_halt=allow):
        if t:
            s = ref.Sim(tm).seek(t)
            full = ref.set_cell(tm, s.from_state, s.from_symbol, (1, 1, -1))
            out[ref.tm_str(full)] = "halt %d %d %d%d" % (t, s.score(), s.from_state, s.from_symbol)
        else:
            out[ref.tm_str(tm)] = "inf"
    return out


def sl_full(part, r):
    """One complete enumeration in one run, and the same in rounds; compared with the reference tree."""
    (n, m, first, allow), opts, mode, arg = part
    d = tempfile.mkdtemp(prefix="c11")
    where = "%dx%d first_1rb=%s allow_no_halt=%s options=%s %s %s" % (n, m, first, allow, opts, mode, arg)

    def bad(key, what):
        r.fail(key, "%s: %s" % (where, what), n=n, m=m, first_1rb=first, allow_no_halt=allow, options=opts, mode=mode, arg=arg)
    try:
        base = (["--states=%d" % n, "--symbols=%d" % m] + ([] if first else ["--no-first-1rb"]) +
                (["--allow-no-halt"] if allow else []) + SOME[opts])
        done = []
        rounds = 0
        if mode in ("lifo", "fifo", "random"):
            extra = {"lifo": ["--save-freq=%d" % (arg or 100000)], "fifo": ["--breadth-first"], "random": ["--randomize", "--seed=%d" % arg]}[mode]
            enum_main(base + extra + ["--outfile", d + "/o.pb"])
            done = read(d + "/o.pb")
            rounds = 1
        else:
            # rounds: run `k` machines, put the finished ones aside, restart from the open ones (split over `w` workers)
            k, w, order = arg
            cur = [None]
            while cur:
                nxt = []
                for j, f in enumerate(cur):
                    o = d + "/o%d_%d.pb" % (rounds, j)
                    src = base if f is None else SOME[opts] + ["--infile", f]
                    enum_main(src + ["--num-enum=%d" % k, "--outfile", o] + (["--breadth-first"] if order == "fifo" else []))
                    for x in read(o):
                        (nxt if never_run(x) else done).append(x)
                cur = []
                for j in range(w):
                    part_ = nxt[j::w]
                    if part_:
                        f = d + "/i%d_%d.pb" % (rounds, j)
                        write(f, part_)
                        cur.append(f)
                rounds += 1
                if rounds > 4000:
                    return bad("rounds", "does not finish")
        got = [facts(x) for x in done]
        r.states += len(got)
        r.transitions += rounds
        r.traces += 1
        r.count("records", len(got))
        names = [g[0] for g in got]
        if len(set(names)) != len(names):
            dup = [x for x in set(names) if names.count(x) > 1][0]
            return bad("duplicate", "%s emitted %d times" % (dup, names.count(dup)))
        want = expected(n, m, first, allow)
        if opts == "weak":
            # undecided machines stay unexpanded: everything emitted must be in the reference tree, with a true verdict;
            # the set is compared with the plain run of the same options
            full = {}
            for tm, t in ref.tnf(n, m, first_1rb=first, allow_no_halt=allow):
                full[ref.tm_str(tm)] = t
            for name, v in got:
                if v.startswith("halt") and want.get(name) != v:
                    return bad("verdict", "%s: %s instead of %s" % (name, v, want.get(name)))
                if v.startswith("inf") and want.get(name) != "inf":
                    return bad("verdict", "%s: %s instead of %s" % (name, v, want.get(name)))
                if v == "open" and name not in full:
                    return bad("extra", "%s is not a tree-normal-form machine" % name)
            enum_main(base + ["--outfile", d + "/plain.pb"])
            plain = sorted(facts(x) for x in read(d + "/plain.pb"))
            if sorted(got) != plain:
                diff = sorted(set(got) ^ set(plain))[:3]
                return bad("order", "emitted machines or verdicts differ from the plain run: %s" % (diff,))
            return
        g = dict(got)
        miss = sorted(set(want) - set(g))
        more = sorted(set(g) - set(want))
        if miss or more:
            return bad("set", "%d machines missing (%s), %d too many (%s)" % (len(miss), miss[:2], len(more), more[:2]))
        for name, v in got:
            if v.startswith("halt") and want[name] != v or v.startswith("inf") and want[name] != "inf" or \
               (v == "open" and want[name] != "inf"):
                return bad("verdict", "%s: %s instead of %s" % (name, v, want[name]))
        # verdicts must be those of the plain run, whatever the way
        if mode != "lifo":
            enum_main(base + ["--outfile", d + "/plain.pb"])
            plain = sorted(facts(x) for x in read(d + "/plain.pb"))
            if sorted(got) != plain:
                return bad("order", "verdicts differ from the plain run: %s" % (sorted(set(got) ^ set(plain))[:3],))
        r.sample(where + ": %d records, %d rounds" % (len(got), rounds))
    finally:
        shutil.rmtree(d)


def sl_fault(part, r):
    """The simulation of one machine fails with an exception: it stays in the output as an open machine and nothing else
    changes; taken up again, the enumeration is completed."""
    (n, m, first, allow), ks = part
    import Macro_Simulator
    base = (["--states=%d" % n, "--symbols=%d" % m] + ([] if first else ["--no-first-1rb"]) + (["--allow-no-halt"] if allow else []) + FAST)
    d = tempfile.mkdtemp(prefix="c11")
    real = Macro_Simulator.run_options
    try:
        enum_main(base + ["--outfile", d + "/p.pb"])
        plain = [facts(x) for x in read(d + "/p.pb")]
        for k in range(len(plain)) if ks is None else ks:
            if k >= len(plain):
                break
            calls = []

            def faulty(rec, *a, **b):
                calls.append(rec.tm().ttable_str())
                if len(calls) == k + 1:
                    raise ValueError("injected fault")
                return real(rec, *a, **b)
            Macro_Simulator.run_options = faulty
            try:
                enum_main(base + ["--force", "--outfile", d + "/f.pb"])
            finally:
                Macro_Simulator.run_options = real
            if len(calls) <= k:
                r.count("fault_not_injected")
                return
            recs = read(d + "/f.pb")
            got = [facts(x) for x in recs]
            r.states += len(got)
            r.transitions += 1
            r.traces += 1
            where = "%dx%d first_1rb=%s allow_no_halt=%s, exception while simulating machine %d (%s)" % (n, m, first, allow, k, calls[k])
            rest = [x for x in got if x[0] != calls[k]]
            if got.count((calls[k], "open")) != 1 or len(rest) != len(got) - 1:
                r.fail("fault", "%s: it is not kept as an open machine: %r" % (where, [x for x in got if x[0] == calls[k]]), machine=calls[k])
                return
            if len(set(rest)) != len(rest) or not set(rest) <= set(plain):
                r.fail("fault", "%s: other records change: %r" % (where, sorted(set(rest) - set(plain))[:2]), machine=calls[k])
                return
            write(d + "/i.pb", [x for x in recs if facts(x)[0] == calls[k]])
            enum_main(FAST + ["--force", "--infile", d + "/i.pb", "--outfile", d + "/j.pb"])
            if sorted(rest + [facts(x) for x in read(d + "/j.pb")]) != sorted(plain):
                r.fail("fault", "%s: taking it up again does not complete the enumeration" % where, machine=calls[k])
                return
    finally:
        Macro_Simulator.run_options = real
        shutil.rmtree(d)


def timeless(rec):
    """The whole record without the times it took."""
    from google.protobuf import text_format
    return "\n".join(x for x in text_format.MessageToString(rec.proto).split("\n") if "elapsed_time" not in x)


def sl_rerun(part, r):
    """A file of results run again with other options reads as if the machines had never been run before."""
    (n, m, first, allow), one, two = part
    import IO
    d = tempfile.mkdtemp(prefix="c11")
    try:
        enum_main(["--states=%d" % n, "--symbols=%d" % m] + ([] if first else ["--no-first-1rb"]) +
                  (["--allow-no-halt"] if allow else []) + SOME[one] + ["--outfile", d + "/a.pb"])
        recs = read(d + "/a.pb")
        bare = read(d + "/a.pb")
        for x in bare:
            x.proto.ClearField("status")
            x.proto.ClearField("filter")
            x.proto.ClearField("elapsed_time_us")
        write(d + "/bare.pb", bare)
        enum_main(SOME[two] + ["--infile", d + "/a.pb", "--outfile", d + "/b.pb"])
        enum_main(SOME[two] + ["--infile", d + "/bare.pb", "--outfile", d + "/c.pb"])
        b, c = read(d + "/b.pb"), read(d + "/c.pb")
        r.states += len(b)
        r.transitions += 2 * len(recs)
        r.traces += 1
        for x, y in itertools.zip_longest(b, c):
            if x is None or y is None or timeless(x) != timeless(y):
                r.fail("rerun", "%dx%d first_1rb=%s allow_no_halt=%s: results of a %s run taken up by a %s run give %r instead of %r" % (
                    n, m, first, allow, one, two, x and timeless(x), y and timeless(y)), n=n, m=m, first=one, second=two)
                return
    finally:
        shutil.rmtree(d)


def spec_children(tm, q, s, allow):
    n, m = len(tm), len(tm[0])
    cells = [c for row in tm for c in row if c is not None]
    if not allow and sum(c is None for row in tm for c in row) <= 1:
        return []
    mq = min(n, max([c[2] for c in cells] + [0]) + 2)
    ms = min(m, max([c[0] for c in cells] + [0]) + 2)
    dirs = (0, 1) if cells else (1,)
    return [ref.set_cell(tm, q, s, (a, d, b)) for b in range(mq) for a in range(ms) for d in dirs]


def sl_children(part, r):
    """enum_children at every node of a subtree."""
    import IO, TM_Enum
    items, allow, bound = part
    for tm in items:
        s = ref.Sim(tm).seek(bound)
        r.states += 1
        if not s.halted:
            continue
        q, a = s.from_state, s.from_symbol
        te = TM_Enum.TM_Enum(IO.parse_tm(ref.tm_str(tm)), allow_no_halt=allow)
        kids = list(te.enum_children(q, a))
        got = [k.tm.ttable_str() for k in kids]
        want = [ref.tm_str(x) for x in spec_children(tm, q, a, allow)]
        r.transitions += len(want)
        r.traces += 1
        if sorted(got) != sorted(want):
            r.fail("children", "%s at %s%d allow_no_halt=%s: children %s instead of %s" % (
                ref.tm_str(tm), "ABCDEFG"[q], a, allow, sorted(got)[:6], sorted(want)[:6]), tm=ref.tm_str(tm))
        if te.tm.ttable_str() != ref.tm_str(tm):
            r.fail("mutated", "%s: expanding changed the parent" % ref.tm_str(tm), tm=ref.tm_str(tm))
        if any(k.allow_no_halt != allow for k in kids):
            r.fail("allow", "%s: children lose allow_no_halt" % ref.tm_str(tm), tm=ref.tm_str(tm))


def complete_machines(n, m, first, allow, pre):
    """All complete tables with exactly one halting cell 1RZ (or none, if allowed), beginning with the given cells."""
    run = [(a, d, b) for a in range(m) for d in (0, 1) for b in range(n)]
    H = (1, 1, -1)
    k = n * m
    for rest in itertools.product(run + [H], repeat=k - len(pre)):
        c = pre + rest
        h = c.count(H)
        if h == 1 or (h == 0 and allow):
            yield tuple(tuple(c[i * m:(i + 1) * m]) for i in range(n))


def walk(tm, bound):
    """Partial tables (renamed in order of first use, first move to the right) the run passes through."""
    n, m = len(tm), len(tm[0])
    st, sy = {0: 0}, {0: 0}
    flip = None
    tape = {}
    pos, q = 0, 0
    part = {}
    for _ in range(bound):
        s = tape.get(pos, 0)
        c = tm[q][s]
        if flip is None:
            flip = c[1] == 0 and c[2] >= 0
        key = (st[q], sy[s])
        if key not in part:
            if c[2] < 0:
                part[key] = (1, 1, -1)
                yield dict(part), True
                return
            yield dict(part), False
            if c[2] not in st:
                st[c[2]] = len(st)
            if c[0] not in sy:
                sy[c[0]] = len(sy)
            part[key] = (sy[c[0]], c[1] ^ flip, st[c[2]])
        tape[pos] = c[0]
        pos += 1 if c[1] else -1
        q = c[2]
    yield dict(part), False


def table(part, n, m):
    return tuple(tuple(part.get((q, s)) for s in range(m)) for q in range(n))


def sl_represent(part, r):
    """Every complete machine is represented by exactly one emitted machine, and count() is the number represented."""
    n, m, first, allow, pres, emitted, bound = part
    tally = {}
    for pre in pres:
        for tm in complete_machines(n, m, first, allow, pre):
            r.states += 1
            reps = set()
            for p, halted in walk(tm, bound):
                t = ref.tm_str(table(p, n, m))
                r.transitions += 1
                if t in emitted:
                    reps.add(t)
            if len(reps) != 1:
                r.fail("represented", "complete machine %s is represented by %d emitted machines (%s)" % (ref.tm_str(tm), len(reps), sorted(reps)[:2]),
                       tm=ref.tm_str(tm))
            for t in reps:
                tally[t] = tally.get(t, 0) + 1
    for k, v in tally.items():
        r.count("T " + k, v)


def represent(c, n, m, first, allow):
    import Count, IO
    d = tempfile.mkdtemp(prefix="c11")
    try:
        enum_main(["--states=%d" % n, "--symbols=%d" % m] + ([] if first else ["--no-first-1rb"]) +
                  (["--allow-no-halt"] if allow else []) + FAST + ["--outfile", d + "/o.pb"])
        emitted = {x.tm().ttable_str() for x in read(d + "/o.pb")}
    finally:
        shutil.rmtree(d)
    run = [(a, dd, b) for a in range(m) for dd in (0, 1) for b in range(n)]
    pres = [((1, 1, 1), x) for x in run + [(1, 1, -1)]] if first else [(y, x) for x in run + [(1, 1, -1)] for y in run + [(1, 1, -1)]]
    c.run(sl_represent, [(n, m, first, allow, [p], emitted, ref.BB_STEPS[(n, m)] + 3) for p in pres],
          "every complete %dx%d machine represented (first_1rb=%s allow_no_halt=%s)" % (n, m, first, allow))
    tally = {k[2:]: v for k, v in c.res.counts.items() if k.startswith("T ")}
    for k in list(c.res.counts):
        if k.startswith("T "):
            del c.res.counts[k]
    if first:
        total = 0
        for t in emitted:
            k = Count.count(IO.parse_tm(t), allow)
            total += k
            if k != tally.get(t, 0):
                c.res.fail("count", "count(%s, %s) = %s but it represents %d machines" % (t, allow, k, tally.get(t, 0)), tm=t)
        q = n * m
        f = (q - 1) * (2 * q) ** (q - 2) + ((2 * q) ** (q - 1) if allow else 0)
        if total != f:
            c.res.fail("total", "the %dx%d machines add up to %d instead of %d (allow_no_halt=%s)" % (n, m, total, f, allow))


def body(c):
    import Enumerate, Count  # noqa
    c.assumptions = ["reference enumeration lib/refsim.c, itself validated here against every complete machine of the class"]
    T = vp.THOROUGH
    J = vp.slices
    flags = list(itertools.product((True, False), (True, False)))
    for n, m in ((2, 2),):
        for first, allow in flags:
            represent(c, n, m, first, allow)
    for n, m in ((3, 2), (2, 3)):
        represent(c, n, m, True, False)
        if T:
            represent(c, n, m, True, True)
    jobs = []
    cls = [(n, m, f, a) for (n, m) in ((2, 2), (1, 2), (1, 3)) for f, a in flags if n > 1 or not f]
    for k in cls:
        for o in SOME:
            jobs += [(k, o, "lifo", 1), (k, o, "lifo", 0), (k, o, "fifo", 0)] + [(k, o, "random", s) for s in range(1, 13 if T else 6)]
            jobs += [(k, o, "rounds", (j, w, q)) for j in ((1, 2, 3, 4, 5, 7, 10, 20, 41) if T else (1, 2, 3, 7, 20)) for w in (1, 2, 3) for q in ("lifo", "fifo")]
    big = []
    for k in [(3, 2, f, a) for f, a in flags] + [(2, 3, f, a) for f, a in flags]:
        if not T and not k[2] and k[3]:
            continue
        big += [(k, "fast", "lifo", 0), (k, "fast", "fifo", 0), (k, "fast", "random", 5)]
        big += [(k, "fast", "rounds", (50, 2, "lifo"))]
        if T:
            big += [(k, o, "rounds", (j, w, q)) for o in ("fast", "default", "weak") for j in (1, 17, 500) for w in (1, 3) for q in ("lifo", "fifo")]
            big += [(k, o, "random", s) for o in ("fast", "default", "weak") for s in (1, 2, 3)]
        elif k[2]:
            big += [(k, "default", "lifo", 0), (k, "weak", "rounds", (100, 3, "fifo")), (k, "weak", "random", 2)]
    c.run(sl_full, big + jobs, "whole enumerations: orders, random seeds, rounds, restarts, worker splits")
    c.run(sl_fault, [(k, range(i, 20000, 8)) for k in cls for i in range(8)] + ([((3, 2, True, False), range(i, 20000, 64)) for i in range(64)] if T else []),
          "an exception at every machine of an enumeration")
    c.run(sl_rerun, [(k, a, b) for k in cls + [(3, 2, True, False)] for a in SOME for b in SOME], "results taken up by a second run with other options")
    for (n, m), first, allow, bound in ([((4, 2), True, False, 108), ((4, 2), True, True, 108), ((2, 4), True, False, 300), ((3, 3), True, False, 12), ((5, 2), True, False, 8)] if T
                                 else [((4, 2), True, False, 108), ((2, 4), True, False, 12), ((3, 3), True, True, 6), ((5, 2), True, False, 5)]):
        nodes = [t for t, _ in ref.tnf(n, m, first_1rb=first, allow_no_halt=allow, bound=bound, mode="halt")]
        c.run(sl_children, [(s, allow, bound) for s in J(nodes, 256)], "children of every %dx%d node that halts within %d steps: %d nodes" % (n, m, bound, len(nodes)))
    c.extra["bounds"] = "classes 1x2, 1x3, 2x2, 3x2, 2x3 enumerated whole; every complete 2x2/3x2/2x3 machine; children of all 4x2 nodes, early nodes of 2x4, 3x3, 5x2"


if __name__ == "__main__":
    vp.main(body, "C11")
