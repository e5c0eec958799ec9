"""C10: quasi-halting claims are true."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref, pipe

FAR, FURTHER = 100_000, 20_000_000
OFF = "--lin-steps=0 --no-ctl --no-reverse-engineer "
SIMS = [OFF + a for a in ("", "-r", "--limited-rules -r", "-n 1", "-n 1 -b", "-n 1 -r", "-n 2", "-n 2 -b", "-n 3 -b -r", "-n 4 -r",
                          "-n 1 --no-steps", "-n 2 --no-prover", "-n 3 --no-prover -b", "-n 6 --no-prover",
                          "-n 1 -r --exp-linear-rules --exp-meta-linear-rules", "-n 2 -r --exp-linear-rules",
                          "-n 1 -r --limited-rules --exp-linear-rules")]
LINS = ["--lin-steps=%d --no-sim --no-ctl --no-reverse-engineer" % k for k in (16, 100, 1000)] + \
       ["--lin-steps=300 --lin-min --no-sim --no-ctl --no-reverse-engineer", "--lin-steps=0 --no-sim", "--lin-steps=0 --no-reverse-engineer -n 1 --max-loops=40"]


def false_claim(tm, quasi, steps, state):
    """What is wrong with the claim, or None."""
    for far in (FAR, FURTHER):
        s = ref.Sim(tm).seek(far)
        last = {q: t for q, t in enumerate(s.last) if t >= 0}
        if s.halted:
            return "it halts after %d steps" % s.steps
        what = None
        if not quasi:
            q = min(last, key=last.get)
            if last[q] < far // 50:
                what = "says it does not quasi-halt, but state %s is last seen at step %d (looking %d steps)" % ("ABCDEFG"[q], last[q], far)
        elif steps - 1 > far // 50:
            continue
        elif state not in last:
            what = "names state %s, which is never visited" % "ABCDEFG"[state]
        elif last[state] != steps - 1:
            what = "names state %s at step %d, but it is last seen at step %d (looking %d steps)" % ("ABCDEFG"[state], steps, last[state], far)
        else:
            for q, t in last.items():
                if steps - 1 < t < far // 50:
                    what = "names state %s at step %d, but state %s is abandoned later, at step %d" % ("ABCDEFG"[state], steps, "ABCDEFG"[q], t)
        if what is None:
            return None
    return what


def sl(part, r):
    import Halting_Lib
    argl, loops, items = part[:3]
    if len(part) > 3:
        items = abandoned(items, part[3])
        r.count("machines_4x2_leaving_a_state_late", len(items))
    for tm in items:
        text = ref.tm_str(tm)
        memo = {}
        for a in argl:
            rec = pipe.run(text, a, loops)
            st = rec.proto.status
            r.traces += 1
            r.states += 1
            if not st.halt_status.is_decided or st.halt_status.is_halting or not st.quasihalt_status.is_decided:
                if st.quasihalt_status.is_decided and not st.halt_status.is_decided:
                    r.fail("orphan", "%s [%s]: quasi-halting claimed for an undecided machine" % (text, a), tm=text, args=a)
                r.count("no_claim")
                continue
            qs = st.quasihalt_status
            claim = (qs.is_quasihalting, int(Halting_Lib.get_big_int(qs.quasihalt_steps)) if qs.is_quasihalting else 0,
                     qs.quasihalt_state if qs.is_quasihalting else 0)
            if claim not in memo:
                r.transitions += FAR
                memo[claim] = false_claim(tm, *claim)
            r.count("claims_quasi" if claim[0] else "claims_not_quasi")
            if memo[claim]:
                r.fail("false-claim", "%s [%s]: %s" % (text, a, memo[claim]), tm=text, args=a, claim=claim)
    if items:
        r.sample("%s with options %s" % (ref.tm_str(items[0]), argl[:3]))


def sl_seen(part, r):
    """The bookkeeping behind the claims: at every moment of a run the simulator knows when each state was last visited."""
    import C03
    cfgs, modes, loops, items = part
    for tm, _ in items:
        for cfg in cfgs:
            for mode in modes:
                seen_run(C03, tm, cfg, mode, loops, r)


def seen_run(C03, tm, cfg, mode, loops, r):
    import IO
    from Macro import Turing_Machine as T, Simulator
    text = ref.tm_str(tm)
    opts = Simulator.create_default_options()
    opts.prover = mode != "no prover"
    for k, v in C03.MODES.get(mode, {}).items():
        setattr(opts, k, v)
    sim = Simulator.Simulator(C03.build(IO.parse_tm(text), *cfg), opts)
    rs = ref.Sim(tm)
    r.traces += 1
    for i in range(loops):
        sim.step()
        r.transitions += 1
        if sim.op_state != T.RUNNING or sim.step_num > 2_000_000:
            return
        rs.seek(int(sim.step_num))
        if rs.halted:
            return
        r.states += 1
        got = {int(k): int(v) for k, v in sim.states_last_seen.items()}
        want = {q: t for q, t in enumerate(rs.last) if t >= 0}
        if got != want:
            r.fail("last-seen", "%s block=%d offset=%d back=%s %s: after %d steps the states were last seen at %r, not %r" % (
                (text,) + cfg + (mode, rs.steps, want, got)), tm=text, cfg=cfg, mode=mode, loop=i)
            return


def abandoned(items, at_least, far=5000):
    """Machines that leave a state for good at a step >= at_least."""
    out = []
    for tm in items:
        s = ref.Sim(tm).seek(far)
        v = [t for t in s.last if t >= 0]
        if any(at_least <= t < far // 50 for t in v):
            out.append(tm)
    return out


def load(name):
    return [ref.parse(l.split()[0]) for l in open(os.path.join(vp.VERIF, "data", name))]


def body(c):
    import Macro_Simulator  # noqa
    c.assumptions = ["a state not seen during the last 98%% of %d (if in doubt %d) steps is taken to be abandoned, one seen there to recur; exact claims are compared with the reference run" % (FAR, FURTHER)]
    T = vp.THOROUGH
    J = vp.slices
    r22 = [tm for tm, t in ref.tnf(2, 2, first_1rb=False, allow_no_halt=True) if not t]
    r32 = [tm for tm, t in ref.tnf(3, 2, mode="run")]
    r23 = [tm for tm, t in ref.tnf(2, 3, mode="run")]
    c.run(sl, [(SIMS + LINS, 300, s) for s in J(r22, 32)], "2x2, all options")
    c.run(sl, [(SIMS + LINS, 300 if T else 150, s) for s in J(r32, 128)], "3x2, all options")
    c.run(sl, [(SIMS + LINS, 300 if T else 150, s) for s in J(r23, 128)], "2x3, all options")
    r42 = [tm for tm, t in ref.tnf(4, 2, mode="run")]
    c.run(sl, [(SIMS + LINS, 400 if T else 150, s, 6 if T else 13) for s in J(r42, 256)], "4x2 machines that leave a state late")
    rl = [ref.parse(l.split()[0]) for l in open(os.path.join(vp.VERIF, "data", "rules.txt"))]
    rl = [tm for tm in rl if len(tm) == 4]
    c.run(sl, [([OFF + "-n 1 -r", OFF + "-n 1 --limited-rules -r"] + ([OFF + "-n 2 -r -b"] if T else []), 150, s) for s in J(rl, 128)], "4x2 machines with meta rules")
    lr = load("lr_4x2.txt")
    c.run(sl, [(LINS + [OFF + "-n 2", OFF + "-n 1 -r"], 150, s) for s in J(lr, 64)], "4x2 machines with long recurrences")
    seen = [(tm, 0) for tm in r22 + r32 + r23]
    cfgs = [(1, 0, False), (1, 0, True), (2, 0, False), (2, 1, True)] + ([(3, 0, False), (3, 2, True)] if T else [])
    modes = ["plain", "recursive", "limited", "no prover"] + (["recursive+limited", "reps1", "reps3", "configs3"] if T else [])
    c.run(sl_seen, [(cfgs, modes, 200 if T else 80, s) for s in J(seen, 128)], "last visits known at every moment, 2x2, 3x2, 2x3")
    import C03
    c.run(sl_seen, [([cfg], [m for m in C03.MODES if C03.MODES[m].get("compute_steps", True)], 250, [(tm, 0)]) for tm, cfg in C03.load_finite()],
          "last visits with finitely applied general rules")
    if T:
        c.run(sl, [(LINS[1:2] + [OFF + "-n 1", OFF + "-n 3 --no-prover"], 100, s) for s in J(r42, 1024)], "all non-halting 4x2")
    c.extra["bounds"] = "all non-halting 2x2, 3x2, 2x3 TNF machines x %d option sets; late quasi-halting, meta-rule and long-recurrence 4x2" % len(SIMS + LINS)


if __name__ == "__main__":
    vp.main(body, "C10")
