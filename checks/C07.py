"""C07: closed-tape-language filters never accept a halting machine."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref, pipe

KINDS = ("CTL1", "CTL2", "CTL3", "CTL4")


def one(tm, truth, params, r, kinds=KINDS):
    import CTL_Filter, io_pb2
    text = ref.tm_str(tm)
    for (block, offset, back, cutoff) in params:
        if truth and cutoff >= truth:
            continue        # the simulation before the closure already halts
        for kind in kinds:
            rec = pipe.record(text)
            ok = CTL_Filter.filter(rec, kind, block, offset, cutoff, back)
            r.traces += 1
            r.states += 1
            info = CTL_Filter.get_proto(kind, rec)
            r.transitions += 1 + info.result.num_iters
            hs = rec.proto.status.halt_status

            def bad(key, what):
                r.fail(key, "%s %s block=%d offset=%d back=%s cutoff=%d: %s" % (text, kind, block, offset, back, cutoff, what),
                       tm=text, kind=kind, block=block, offset=offset, back=back, cutoff=cutoff)

            decided = hs.is_decided
            if bool(ok) != decided or bool(ok) != info.result.success:
                bad("status", "returned %s but record decided=%s success=%s" % (ok, decided, info.result.success))
            if decided:
                r.count("success")
                if truth:
                    bad("false-infinite:" + kind, "accepted but halts after %d steps" % truth)
                elif hs.is_halting or hs.inf_reason != io_pb2.INF_CTL:
                    bad("status", "success not recorded as infinite by CTL")
            if rec.proto.status.quasihalt_status.is_decided:
                bad("status", "claims a quasihalting result")


def slice_machines(part, r):
    params, items = part
    for tm, t in items:
        one(tm, t, params, r)
    if items:
        r.sample("%s, (block, offset, back-symbol, cutoff) %s ..." % (ref.tm_str(items[0][0]), params[:3]))


def counter_machine(word, x, n, mirror):
    """Writes the word, walks back over it to the first x, then halts iff it reads n more in a row."""
    k = len(word)
    m = 3
    W, P, INF = k + 1, k + 2, k + 2 + n
    rows = []
    def row(d):
        rows.append([d.get(s, (s, 0, INF)) for s in range(m)])
    for i, ch in enumerate(word):
        row({s: (ch, 1, i + 1) for s in range(m)})
    row({s: (s, 0, W) for s in range(m)})                       # turn around on a blank
    row({s: (s, 0, P if s == x else (W if s or i_nonblank(word, x) else INF)) for s in range(m)})
    for j in range(n):
        row({x: (x, 0, P + j + 1 if j < n - 1 else -1)})
    row({s: (s, 0, INF) for s in range(m)})
    return tuple(tuple((s, 1 - d if mirror else d, q) for s, d, q in r) for r in rows)


def i_nonblank(word, x):
    """The walker may cross blanks only if it is sure to meet x afterwards."""
    return x in word


def slice_counters(part, r):
    first, length, params_kind = part
    for rest in itertools.product(range(3), repeat=length - len(first)):
        word = first + rest
        for x in range(3):
            for n in (1, 2, 3):
                for mirror in (False, True):
                    tm = counter_machine(word, x, n, mirror)
                    h = ref.Sim(tm).seek(4 * length + 20)
                    cut = length + 1
                    one(tm, h.steps if h.halted else 0, [(1, 0, False, cut), (1, 0, True, cut)] + ([(2, 0, False, cut)] if params_kind else []), r)


def load(name):
    return [(ref.parse(l.split()[0]), int(l.split()[1])) for l in open(os.path.join(vp.VERIF, "data", name))]


def body(c):
    c.assumptions = ["reference stepper (lib/refsim.c)", "halting truth of a class from its proven busy-beaver step bound"]
    T = vp.THOROUGH
    J = vp.slices
    P = [(k, o, b, cut) for k in (1, 2, 3) for o in range(k) for b in (False, True) for cut in (1, 3, 6, 12, 20)]
    h = ref.tnf(3, 2, mode="halt") + ref.tnf(2, 3, mode="halt") + ref.tnf(2, 2, mode="halt", first_1rb=False)
    c.run(slice_machines, [(P + [(4, 1, True, 4), (5, 0, False, 4)], s) for s in J(h, 96)], "all halting 2x2, 3x2, 2x3")
    n = ref.tnf(3, 2, mode="run") + ref.tnf(2, 3, mode="run")
    c.run(slice_machines, [([(1, 0, True, 20), (2, 1, False, 30)], s) for s in J(n, 96)], "all non-halting 3x2, 2x3 (bookkeeping)")
    L = 7 if T else 6
    c.run(slice_counters, [(w, k, k < 6) for k in range(L, 0, -1) for w in itertools.product(range(3), repeat=min(k, 3))], "run-counting machines over all words of length <= %d" % L)
    # halting machines of larger classes, with every stage of the run as the start of the closure
    Q = [(1, 0, False, 4), (1, 0, True, 4), (1, 0, False, 9), (2, 0, False, 5), (2, 1, True, 7)]
    h42 = ref.tnf(4, 2, mode="halt", min_steps=4 if T else 16)
    c.run(slice_machines, [(Q if T else Q[:4], s) for s in J(h42, 128)], "4x2 halting")
    deep = ref.tnf(4, 2, mode="halt", min_steps=16 if T else 28)
    P2 = [(k, o, b, cut) for k, o in ((1, 0), (2, 0), (2, 1), (3, 0)) for b in (False, True) for cut in range(2, 60, 6)]
    c.run(slice_machines, [(P2, s) for s in J(deep, 96)], "4x2 long halting, all stages")
    # every 2x4 machine with a single halting cell, closure started at the very beginning
    one24 = [(ref.fill_halt(t), s) for t, s in ref.tnf(2, 4, mode="halt", min_steps=6, bound=60) if sum(x is None for row in t for x in row) == 1]
    c.run(slice_machines, [([(1, 0, False, 1)] + ([(1, 0, True, 2), (2, 0, False, 2), (2, 1, True, 3)] if T else []), s) for s in J(one24, 256)], "2x4 halting within 60 steps, one halting cell")
    h24 = load("halting_2x4.txt")
    P3 = [(k, o, b, cut) for k, o in ((1, 0), (2, 0), (2, 1)) for b in (False, True) for cut in (10, 20, 30, 40, 50, 60, 80, 100, 150)]
    c.run(slice_machines, [(P3, s) for s in J(h24, 64)], "2x4 long halting")
    if T:
        c.run(slice_machines, [(P3, s) for s in J(load("halting_5x2.txt"), 64)], "5x2 long halting")
    c.extra["bounds"] = "all halting TNF machines 2x2, 3x2, 2x3 (block<=3, all offsets, cutoffs); 4x2 halting >= 16 steps; all 2x4 with one halting cell halting within 6..60 steps; run-counting machines over all ternary words of length <= 6; long 4x2, 2x4"


if __name__ == "__main__":
    vp.main(body, "C07")
