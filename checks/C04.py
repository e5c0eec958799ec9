"""C04: the verdict of the whole simulation pipeline is always true, for every option set."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref, pipe

STEPS = 60_000_000


def judge(tm, truth, argline, rec, r, rs):
    """truth: exact steps, 0 never halts, None unknown (then INF is checked up to the reference's run)."""
    import Halting_Lib, io_pb2
    text = ref.tm_str(tm)
    hs = rec.proto.status.halt_status

    def bad(key, what):
        r.fail(key, "%s options '%s': %s" % (text, argline, what), tm=text, options=argline)

    if rec.tm().ttable_str() != text:
        return bad("machine", "the record's machine changed to %s" % rec.tm().ttable_str())
    if not hs.is_decided:
        r.count("undecided")
        if hs.is_halting:
            bad("undecided", "undecided record marked halting")
        sim = rec.proto.filter.simulator.result
        if sim.HasField("halt_info") or sim.HasField("infinite_info"):
            bad("undecided", "undecided record carries a simulator verdict")
        return
    steps = Halting_Lib.get_big_int(hs.halt_steps)
    score = Halting_Lib.get_big_int(hs.halt_score)
    if not hs.is_halting:
        r.count("infinite")
        if truth:
            bad("false-infinite", "recorded as never halting (%s) but halts after %d steps" % (
                io_pb2.InfReason.Name(hs.inf_reason), truth))
        elif hs.inf_reason == io_pb2.INF_UNSPECIFIED:
            bad("reason", "infinite without a reason")
        elif steps is not None or score is not None:
            bad("infinite-steps", "never-halting record carries halting steps/score")
        return
    r.count("halting")
    if not truth:
        return bad("false-halt", "recorded as halting after %s steps but never halts" % steps)
    uncomputed = "--no-steps" in argline or "exp-linear" in argline
    if uncomputed and steps in (None, 0):
        r.count("steps_not_computed")
    elif steps is None:
        bad("steps", "steps missing although they were to be computed")
    elif steps != truth:
        bad("steps", "recorded halting steps %s instead of %d" % (steps, truth))
    if truth <= STEPS:
        rs.seek(truth)
        if score is not None and score != rs.score():
            bad("score", "recorded score %s instead of %d" % (score, rs.score()))
        if (hs.from_state, hs.from_symbol) != (rs.from_state, rs.from_symbol):
            bad("from", "recorded halting cell %d,%d instead of %d,%d" % (hs.from_state, hs.from_symbol, rs.from_state, rs.from_symbol))
    if score is None:
        bad("score", "halting record without a score")


def slice_machines(part, r):
    argsets, loops, items = part
    for tm, t in items:
        text = ref.tm_str(tm)
        rs = ref.Sim(tm)
        for a in argsets:
            rec = pipe.run(text, a, loops)
            r.traces += 1
            r.states += 1
            r.transitions += max(1, rec.proto.filter.simulator.result.num_loops)
            judge(tm, t, a, rec, r, rs)
    if items:
        r.sample("%s with options %r" % (ref.tm_str(items[0][0]), argsets[0]))


QS = ["-n 1", "-n 2 -r", "-n 1 -b", "-n 3 -b -r", "-n 1 -r --exp-linear-rules", "-n 2 -r --exp-linear-rules --exp-meta-linear-rules", "-n 1 --no-steps", "-n 1 -p", "-n 1 --limited-rules", "-n 2 --verbose",
      "--bf-loops=100"]


def quick_sim(text, args, loops):
    """Run the interactive simulator program and return what it prints."""
    import io, contextlib, runpy
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["Quick_Sim.py", "--max-loops=%d" % loops] + args.split()
    if "verbose" not in args:
        sys.argv.append("--quiet")
    sys.argv += ["--", text]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(vp.CODE, "Quick_Sim.py"), run_name="__main__")
    finally:
        sys.argv = old
    return out.getvalue()


def printed(text, label):
    for line in text.split("\n"):
        if line.startswith(label):
            return int(line.split("=")[-1].split(":")[-1].replace("_", "").strip())
    return None


def slice_quick(part, r):
    argsets, loops, items = part
    for tm, t in items:
        text = ref.tm_str(tm)
        rs = ref.Sim(tm)
        for a in argsets:
            out = quick_sim(text, a, loops)
            tail = out[out.rfind("Num Nonzeros"):]
            r.traces += 1
            r.states += 1
            r.count("quick_sim_runs")

            def bad(key, what):
                r.fail("quick-sim-" + key, "Quick_Sim.py %s %s: %s" % (text, a, what), tm=text, options=a)
            if "Halted" in tail or "Undefined transition" in tail:
                if not t:
                    bad("false-halt", "says it halts, but it never does")
                    continue
                rs.seek(t)
                st, sc = printed(tail, "Steps:"), printed(tail, "Nonzeros:")
                if st is not None and st != t:
                    bad("steps", "prints %d steps instead of %d" % (st, t))
                if sc != rs.score():
                    bad("score", "prints score %s instead of %d" % (sc, rs.score()))
            elif "proven Infinite" in tail:
                if t:
                    bad("false-infinite", "says infinite, but it halts after %d steps" % t)


CLI = {"plain": "", "recursive": "-r", "limited": "--limited-rules", "nosteps": "-r --no-steps", "linear": "-r --exp-linear-rules",
       "meta-linear": "-r --exp-linear-rules --exp-meta-linear-rules"}
MOD = 7**6 * 11**4 * 13**3


def slice_record_holders(part, r):
    for text, block, back, mode, steps, score in part:
        a = "-n %s %s %s" % (block, "-b" if back == "1" else "", CLI[mode])
        out = quick_sim(text, a, 4000)
        tail = out[out.rfind("Num Nonzeros"):]
        r.traces += 1
        r.states += 1
        r.count("quick_sim_record_holders")
        if "proven Infinite" in tail:
            r.fail("quick-sim-false-infinite", "Quick_Sim.py %s %s: says infinite, but it halts" % (text, a), tm=text, options=a)
        for label, want in (("Steps:", steps), ("Nonzeros:", score)):
            try:
                v = printed(tail, label)
            except ValueError:
                continue   # printed as a formula
            if v is not None and want != "-" and v % MOD != int(want):
                r.fail("quick-sim-" + label, "Quick_Sim.py %s %s: prints a wrong number after %s" % (text, a, label), tm=text, options=a)


def load(name):
    return [(ref.parse(l.split()[0]), int(l.split()[1])) for l in open(os.path.join(vp.VERIF, "data", name))]


def body(c):
    c.assumptions = ["reference stepper (lib/refsim.c)", "halting truth of a class from its proven busy-beaver step bound"]
    T = vp.THOROUGH
    J = vp.slices
    M = pipe.MATRIX
    m22 = ref.tnf(2, 2, first_1rb=False, allow_no_halt=True)
    m32 = ref.tnf(3, 2)
    m23 = ref.tnf(2, 3)
    filled = [(ref.fill_halt(t), s) for t, s in m32 + m23 if s]
    c.run(slice_machines, [(M, 400, s) for s in J(m22, 8)], "all 2x2")
    c.run(slice_machines, [(M, 400 if T else 200, s) for s in J(m32, 96)], "all 3x2")
    c.run(slice_machines, [(M, 400 if T else 200, s) for s in J(m23, 96)], "all 2x3")
    c.run(slice_machines, [(M[:5] + M[10:13], 200, s) for s in J(filled, 32)], "halting 3x2 and 2x3 with explicit halt cells")
    h42 = ref.tnf(4, 2, mode="halt", min_steps=12 if T else 38)
    c.run(slice_machines, [(M, 400, s) for s in J(h42, 64)], "4x2 long halting")
    c.run(slice_machines, [(M if T else M[:13], 400, s) for s in J(load("halting_2x4.txt"), 64)], "2x4 long halting")
    c.run(slice_machines, [(M if T else M[:2] + M[4:13], 400, s) for s in J(load("halting_5x2.txt"), 64)], "5x2 long halting")
    # champions: the only known extremes, steps executed by the reference
    champs = [("1RB1LB_1LA1RZ", 6), ("1RB1RZ_1LB0RC_1LC1LA", 21), ("1RB2LB1RZ_2LA2RB1LB", 38), ("1RB1LB_1LA0LC_1RZ1LD_1RD0RA", 107),
              ("1RB2LA1RA1RA_1LB1LA3RB1RZ", 3932964), ("1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA", 47176870)]
    items = []
    for t, s in champs:
        tm = ref.parse(t)
        h = ref.Sim(tm).seek(s + 1)
        if not (h.halted and h.steps == s):
            raise vp.HarnessError("champion " + t)
        items.append((tm, s))
    c.run(slice_machines, [([a], 3000, [i]) for i in items for a in M], "champions")
    c.run(slice_quick, [(QS, 300, s) for s in J(m22 + m32, 256)], "Quick_Sim on 2x2 and 3x2")
    c.run(slice_quick, [(QS[:9], 1000, s) for s in J(load("halting_2x4.txt"), 64)], "Quick_Sim on long halting 2x4")
    rl = [(ref.parse(l.split()[0]), int(l.split()[1])) for l in open(os.path.join(vp.VERIF, "data", "rules.txt")) if l.split()[1] not in "0?"]
    c.run(slice_quick, [(QS[:9], 500, s) for s in J(rl, 64)], "Quick_Sim on halting machines with meta rules")
    c.run(slice_quick, [([a], 3000, [i]) for i in items for a in QS], "Quick_Sim on champions")
    rh = []
    for line in open(os.path.join(vp.VERIF, "data", "champions.txt")):
        t, cfg, mode, steps, score = line.split()
        b, o, k = cfg.split(",")
        if mode in CLI and o == "0":
            rh.append((t, b, k, mode, steps, score))
    sys.set_int_max_str_digits(0)
    c.run(slice_record_holders, J(rh, 64), "Quick_Sim on record holders")
    if T:
        m42 = ref.tnf(4, 2)
        c.run(slice_machines, [(M[:1] + M[4:5], 200, s) for s in J(m42, 512)], "all 4x2")
    c.extra["bounds"] = "all TNF machines 2x2, 3x2, 2x3; long halting 4x2, 2x4, 5x2; %d option sets" % len(M)


if __name__ == "__main__":
    vp.main(body, "C04")
