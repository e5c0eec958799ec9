"""C03: rules found by the prover only jump to true configurations."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref, decode

CELLS = 3000       # largest tape compared cell by cell
STEPS = 3_000_000  # furthest base step compared


def build(base, block, offset, back):
    from Macro import Turing_Machine
    m = base
    if block != 1:
        m = Turing_Machine.Block_Macro_Machine(m, block, offset or None)
    if back:
        m = Turing_Machine.Backsymbol_Macro_Machine(m)
    return m


MODES = {
    "plain": {},
    "recursive": dict(recursive=True),
    "limited": dict(limited_rules=True),
    "recursive+limited": dict(recursive=True, limited_rules=True),
    "reps1": dict(recursive=True, max_num_reps=1),
    "reps3": dict(recursive=True, max_num_reps=3),
    "configs3": dict(recursive=True, max_prover_configs=3),
    "nosteps": dict(recursive=True, compute_steps=False),
    "plain-nosteps": dict(compute_steps=False),
    "limited-nosteps": dict(limited_rules=True, compute_steps=False),
    "linear": dict(recursive=True, exp_linear_rules=True, compute_steps=False),
    "meta-linear": dict(recursive=True, exp_linear_rules=True, exp_meta_linear_rules=True, compute_steps=False),
    "meta-linear-limited": dict(recursive=True, exp_linear_rules=True, exp_meta_linear_rules=True, limited_rules=True, compute_steps=False),
}


class Holder:
    pass


def vary(sim, tape0, text, where, mode, r, vals, rs, seen):
    """A proven rule must be right for every repetition count it accepts, not only the ones met so far:
    apply the rule of this configuration to all small variants of the tape."""
    import math
    from Macro import Proof_System as PS
    spots = [(d, i) for d in (0, 1) for i, b in enumerate(tape0.tape[d]) if b.num is not math.inf and b.num != 1]
    key = (sim.state, tape0.dir, tuple(b.symbol for b in tape0.tape[0]), tuple(b.symbol for b in tape0.tape[1]), tuple(spots))
    if key in seen or not spots:
        return
    seen.add(key)
    was = sim.prover.frozen, sim.prover.past_configs
    sim.prover.frozen, sim.prover.past_configs = True, None
    # The smallest count of each block for which the rule still applies (the others left as they are).
    least = {}
    for s in spots:
        for v in range(1, 13):
            tape = tape0.copy()
            tape.tape[s[0]][s[1]].num = v
            if sim.prover.log_and_apply(tape, sim.state, 0, 0).condition != PS.NOTHING_TO_DO:
                least[s] = v
                break
        else:
            least[s] = 1
    near = {s: [max(1, least[s] - 1)] + [least[s] + i for i in range(len(vals))] if least[s] > 1 else list(vals) for s in spots}
    if len(spots) <= 3:
        combos = [dict(zip(spots, v)) for v in itertools.product(*(near[s] for s in spots))]
    else:
        combos = []
        for a, b in itertools.combinations(spots, 2):
            for x, y in itertools.product(near[a], near[b]):
                m = {s: max(3, least[s]) for s in spots}
                m[a], m[b] = x, y
                combos.append(m)
    counted = sim.options.compute_steps
    try:
        for m in combos:
            tape = tape0.copy()
            for (d, i), v in m.items():
                tape.tape[d][i].num = v
            h = Holder()
            h.tape, h.state, h.dir = tape.copy(), sim.state, tape.dir
            start = decode.config(h)
            res = sim.prover.log_and_apply(tape, sim.state, 0, 0)
            r.states += 1
            if res.condition == PS.NOTHING_TO_DO:
                continue
            r.transitions += 1
            r.count("rule_instances")
            rs.load(start)
            what = None
            if res.condition == PS.INF_REPEAT:
                rs.seek(3000)
                if rs.halted:
                    what = "says infinite, but it halts after %d steps" % rs.steps
            else:
                if decode.too_big(res.new_tape, CELLS):
                    continue
                h.tape, h.dir = res.new_tape, res.new_tape.dir
                want = decode.config(h)
                if counted:
                    if not res.num_base_steps > 0:
                        what = "takes %s steps" % (res.num_base_steps,)
                    elif res.num_base_steps > STEPS:
                        continue
                    else:
                        rs.seek(int(res.num_base_steps))
                        if rs.halted or rs.config() != want:
                            what = "leads to %r after %s steps, truth %r" % (want, res.num_base_steps, rs.config())
                        elif res.states_last_seen is not None:
                            got = {int(k): int(v) for k, v in res.states_last_seen.items()}
                            if got != {q: t for q, t in enumerate(rs.last) if t >= 0}:
                                what = "last-seen steps %r, truth %r" % (got, rs.last)
                else:
                    k = rs.find(want, 200000)
                    if k == 0 or (k == 2 and len(want[1]) + len(want[2]) < 60):
                        what = "leads to %r, which is not reached" % (want,)
            if what:
                r.fail("rule", "%s mode=%s: rule applied to %r %s" % (where, mode, start, what), tm=text, mode=mode, start=repr(start))
                return
    finally:
        sim.prover.frozen, sim.prover.past_configs = was


def preload(sim, start):
    """Start from a tape of given blocks (outermost first on both sides) instead of the blank one."""
    from Macro.Tape import Repeated_Symbol
    left, right, state = start
    sim.tape.tape[0] += [Repeated_Symbol(s, n) for s, n in left]
    sim.tape.tape[1] += [Repeated_Symbol(s, n) for s, n in right]
    sim.state = type(sim.state)(state)


def one(tm, truth, cfg, mode, max_loops, r, vals=None, start=None):
    """truth: exact number of steps to halt, 0 = never halts, None = not known."""
    import IO
    from Macro import Turing_Machine as T, Simulator
    block, offset, back = cfg
    text = ref.tm_str(tm)
    opts = Simulator.create_default_options()
    opts.prover = True
    for k, v in MODES[mode].items():
        assert hasattr(opts, k)
        setattr(opts, k, v)
    sim = Simulator.Simulator(build(IO.parse_tm(text), block, offset, back), opts)
    rs = ref.Sim(tm)
    if start:
        preload(sim, start)
        rs.load(decode.config(sim))
        text = "%s from %r" % (text, start)
    r.traces += 1
    counted = opts.compute_steps

    def bad(key, what):
        r.fail(key, "%s block=%d offset=%d back=%s mode=%s: %s (base step %s, loop %d)" % (
            text, block, offset, back, mode, what, sim.step_num if counted else "-", sim.num_loops),
            tm=text, block=block, offset=offset, back=back, mode=mode, loop=sim.num_loops)

    rules = 0
    seen_rules = set()
    rs2 = ref.Sim(tm) if vals else None
    following = True      # reference position still known
    for i in range(max_loops):
        before = sim.tape.copy() if vals else None
        state0, dir0 = sim.state, sim.dir
        sim.step()
        r.transitions += 1
        st = sim.op_state
        jumped = sim.num_rule_moves > rules
        if vals and (jumped or st == T.INF_REPEAT) and sim.state is state0:
            vary(sim, before, text, "%s block=%d offset=%d back=%s" % (text, block, offset, back), mode, r, vals, rs2, seen_rules)
        rules = sim.num_rule_moves
        if jumped:
            r.count("rule_jumps")
        if st == T.RUNNING:
            r.states += 1
            if counted:
                if sim.step_num <= rs.steps and following:
                    return bad("steps", "base step count does not advance")
                if sim.step_num > STEPS:
                    following = False
                    r.count("beyond_step_bound") if jumped else None
                    if truth and sim.step_num >= truth:
                        return bad("missed-halt", "still running although the machine halts after %d steps" % truth)
                    continue
                rs.seek(int(sim.step_num))
                if rs.halted:
                    return bad("missed-halt", "still running although the machine halted after %d steps" % rs.steps)
                if sim.states_last_seen is not None:
                    seen = {int(k): int(v) for k, v in sim.states_last_seen.items()}
                    want = {q: t for q, t in enumerate(rs.last) if t >= 0}
                    if seen != want:
                        return bad("last-seen", "states last seen %r instead of %r" % (seen, want))
                if decode.too_big(sim.tape, CELLS):
                    r.count("tape_bound_reached")
                    if sim.get_nonzeros() != rs.score():
                        return bad("score", "%s non-blank cells instead of %d" % (sim.get_nonzeros(), rs.score()))
                    continue
                got = decode.config(sim)
                if got != rs.config():
                    return bad("config", "configuration %r instead of %r" % (got, rs.config()))
            elif following:
                if decode.too_big(sim.tape, CELLS):
                    following = False
                    r.count("tape_bound_reached")
                    continue
                got = decode.config(sim)
                k = rs.find(got, min(STEPS, truth + 1) if truth else 20000)
                if k == 0:
                    return bad("config", "configuration %r is never reached (machine halts after %d steps)" % (got, rs.steps))
                if k == 2:
                    if not jumped:
                        return bad("config", "configuration %r is not reached by a plain macro step" % (got,))
                    following = False
                    r.count("beyond_step_bound")
        elif st in (T.HALT, T.UNDEFINED):
            r.states += 1
            r.count("halted")
            if truth is None:
                rs.seek(STEPS)
                if not rs.halted:
                    return r.count("beyond_step_bound")
                truth = rs.steps
            if not truth:
                return bad("false-halt", "reported halting but never halts")
            if counted and sim.step_num != truth:
                return bad("halt-steps", "reports halting after %s steps instead of %d" % (sim.step_num, truth))
            if truth > STEPS:
                return
            rs.seek(truth)
            if not rs.halted:
                raise vp.HarnessError("reference disagrees with its own truth on " + text)
            if sim.get_nonzeros() != rs.score():
                return bad("halt-score", "score %s instead of %d" % (sim.get_nonzeros(), rs.score()))
            if not decode.too_big(sim.tape, CELLS) and decode.whole(sim) != rs.content().strip(b"\0"):
                return bad("halt-tape", "final tape differs")
            s, q = sim.op_details[0][:2]
            if (q, s) != (rs.from_state, rs.from_symbol):
                return bad("halt-from", "halting cell %s,%s instead of %s,%s" % (q, s, rs.from_state, rs.from_symbol))
            if counted and sim.states_last_seen is not None:
                seen = {int(k): int(v) for k, v in sim.states_last_seen.items()}
                if seen != {q: t for q, t in enumerate(rs.last) if t >= 0}:
                    return bad("last-seen", "states last seen %r instead of %r at halt" % (seen, rs.last))
            return
        elif st == T.INF_REPEAT:
            r.states += 1
            r.count("infinite")
            if truth is None and rs.seek(max(rs.steps, 300000)).halted:
                truth = rs.steps
            if truth:
                return bad("false-infinite", "reported infinite but halts after %d steps" % truth)
            return
        elif st == T.GAVE_UP:
            r.count("gave_up")
            return
        else:
            return bad("state", "unknown operation state %r" % (st,))
    r.count("loop_bound_reached")
    if truth and truth <= max_loops and not rules:
        bad("missed-halt", "not halted after %d loops although it halts after %d steps" % (max_loops, truth))


def slice_machines(part, r):
    cfgs, modes, loops, items = part[:4]
    vals = part[4] if len(part) > 4 else None
    for tm, t in items:
        for cfg in cfgs:
            for mode in modes:
                one(tm, t, cfg, mode, loops, r, vals)
    if items:
        r.sample("%s, (block, offset, back-symbol) %s, modes %s, %d loops" % (ref.tm_str(items[0][0]), cfgs, modes, loops))


SHUTTLE = [  # (left blocks, right blocks, state); symbol 2 is crossed by both states
    ([(1, 9)], [(2, 4), (1, 14), (2, 3)], 1),
    ([(1, 14)], [(2, 4), (1, 9), (2, 3)], 1),
    ([(2, 3), (1, 12)], [(1, 17), (2, 2)], 1),
    ([(2, 3), (1, 17)], [(1, 12), (2, 2)], 1),
    ([(1, 11), (2, 5)], [(1, 11), (2, 5)], 1),
    ([(1, 23), (2, 2), (1, 11)], [(1, 8), (2, 3), (1, 15)], 1),
]


def shuttles(first):
    """All 2x3 machines in which symbol 2 is crossed unchanged, to the left in state A and to the right in state B."""
    cell = [(a, d, q) for a in range(3) for d in (0, 1) for q in (0, 1)] + [None]
    for b, c, d in itertools.product(cell, repeat=3):
        yield ((first, b, (2, 0, 0)), (c, d, (2, 1, 1)))


def slice_shuttles(part, r):
    first, seconds, starts, modes, loops, vals = part
    for tm in shuttles(first):
        if tm[0][1] not in seconds:
            continue
        for st in starts:
            for mode in modes:
                one(tm, None, (1, 0, False), mode, loops, r, vals, st)


MOD = 7**6 * 11**4 * 13**3   # smooth, so that tower-sized numbers can be reduced


def champion(text, cfg, mode, loops):
    """Run a record holder: (steps modulo MOD or None, score modulo MOD, halting cell) once it halts."""
    import IO
    from Macro import Turing_Machine as T, Simulator
    opts = Simulator.create_default_options()
    opts.prover = True
    for k, v in MODES[mode].items():
        setattr(opts, k, v)
    sim = Simulator.Simulator(build(IO.parse_tm(text), *cfg), opts)
    sim.loop_seek(loops)
    if sim.op_state in (T.HALT, T.UNDEFINED):
        return (int(sim.step_num % MOD) if opts.compute_steps else None, int(sim.get_nonzeros() % MOD))
    return str(sim.op_state) if sim.op_state != T.RUNNING else None


def slice_champions(part, r):
    for text, cfg, mode, steps, score in part:
        got = champion(text, cfg, mode, 4000)
        r.traces += 1
        r.states += 1
        r.count("record_holder_runs")
        where = "%s block=%d offset=%d back=%s mode=%s" % ((text,) + cfg + (mode,))
        if got is None or isinstance(got, str):
            if got == "Inf_Repeat":
                r.fail("champion-infinite", "%s: halting machine reported infinite" % where, tm=text, mode=mode)
            else:
                r.count("record_holder_undecided")
        else:
            if got[0] is not None and steps != "-" and got[0] != int(steps):
                r.fail("champion-steps", "%s: step count (mod %d) %s instead of %s" % (where, MOD, got[0], steps), tm=text, mode=mode)
            if got[1] != int(score):
                r.fail("champion-score", "%s: score (mod %d) %s instead of %s" % (where, MOD, got[1], score), tm=text, mode=mode)


def champions():
    out = []
    for line in open(os.path.join(vp.VERIF, "data", "champions.txt")):
        t, cfg, mode, steps, score = line.split()
        b, o, k = cfg.split(",")
        out.append((t, (int(b), int(o), k == "1"), mode, steps, score))
    return out


def load_rules(full):
    """Machines for which the recursive prover finds meta, linear or general rules (mined, see tools)."""
    out = []
    for line in open(os.path.join(vp.VERIF, "data", "rules.txt")):
        t, s, rare = line.split()
        if full or rare == "1":
            out.append((ref.parse(t), None if s == "?" else int(s)))
    return out


def load_finite():
    """Larger machines on which general or linear rules are applied a finite number of times (mined)."""
    out = []
    for line in open(os.path.join(vp.VERIF, "data", "finite_general.txt")):
        t, *cfgs = line.split()
        for x in cfgs:
            b, o, k = x.split(",")
            out.append((ref.parse(t), (int(b), int(o), k == "1")))
    return out


def load(name):
    out = []
    for line in open(os.path.join(vp.VERIF, "data", name)):
        t, s = line.split()
        out.append((ref.parse(t), int(s)))
    return out


def body(c):
    c.assumptions = ["reference stepper (lib/refsim.c)",
                     "halting truth of a class from its proven busy-beaver step bound; 5x2 and 2x4: machines whose halting was executed by the reference",
                     "base steps beyond %d and tapes beyond %d cells are compared only at the halting result" % (STEPS, CELLS)]
    T = vp.THOROUGH
    J = vp.slices
    allm = list(MODES)
    m22 = ref.tnf(2, 2, first_1rb=False, allow_no_halt=True)
    m32 = ref.tnf(3, 2)
    m23 = ref.tnf(2, 3)
    one_ = [(1, 0, False)]
    c.run(slice_machines, [([(1, 0, False), (1, 0, True), (2, 0, False), (2, 1, True), (3, 1, True)], allm, 200, s) for s in J(m22, 8)], "all 2x2")
    c.run(slice_machines, [(one_, allm, 300 if T else 120, s) for s in J(m32, 64)], "all 3x2, all prover modes")
    c.run(slice_machines, [(one_, allm, 300 if T else 120, s) for s in J(m23, 64)], "all 2x3, all prover modes")
    vm = ["recursive", "limited", "meta-linear", "plain-nosteps"]
    vv = range(1, 8) if T else range(1, 5)
    c.run(slice_machines, [(one_, vm, 120, s, vv) for s in J(m32 + m23, 64)], "rules of 3x2 and 2x3 on all small repetition counts")
    mc = [(1, 0, True), (2, 0, False), (2, 1, True), (3, 0, True)] if T else [(1, 0, True), (2, 1, False)]
    md = allm if T else ["plain", "recursive", "limited", "meta-linear"]
    c.run(slice_machines, [(mc, md, 200 if T else 60, s) for s in J(m32 + m23, 64)], "3x2 and 2x3 as macro machines")
    h42 = ref.tnf(4, 2, mode="halt", min_steps=12 if T else 35)
    c.run(slice_machines, [(one_ + mc, md, 300, s, vv) for s in J(h42, 64)], "4x2 long halting machines")
    h24 = load("halting_2x4.txt")
    c.run(slice_machines, [(one_, allm, 800, s, vv) for s in J(h24, 64)], "2x4 long halting machines")
    c.run(slice_machines, [([(1, 0, True), (2, 0, True), (3, 0, False)], ["recursive", "meta-linear"], 400, s) for s in J(h24, 64)], "2x4 long halting machines, macro")
    h52 = load("halting_5x2.txt")
    c.run(slice_machines, [(one_, md, 500, s, vv) for s in J(h52, 64)], "5x2 long halting machines")
    rl = load_rules(True)
    c.run(slice_machines, [(one_, ["recursive", "meta-linear", "limited"], 150 if T else 80, s, vv) for s in J(rl, 64)], "4x2 and 2x4 machines with meta, linear or general rules")
    fin = [([cfg], [mode], 600 if T else 250, [(tm, None)], vv) for tm, cfg in load_finite() for mode in MODES if "recursive" in MODES[mode]]
    c.run(slice_machines, fin, "larger machines with finitely applied general rules")
    cell = [(a, d, q) for a in range(3) for d in (0, 1) for q in (0, 1)] + [None]
    sh = [(a, [b], SHUTTLE if T else SHUTTLE[:4], ["recursive", "meta-linear", "limited"] if T else ["recursive"], 60 if T else 30, vv if T else None) for a in cell for b in cell]
    c.run(slice_shuttles, sh, "all 2x3 shuttle machines from tapes of several blocks")
    ch = champions()
    c.run(slice_champions, J(ch, 32), "record holders: all block sizes and modes agree")
    if T:
        r42 = ref.tnf(4, 2, mode="run")
        c.run(slice_machines, [(one_, ["recursive", "limited"], 60, s) for s in J(r42, 512)], "4x2 non-halting machines")
    c.extra["bounds"] = "all 2x2, 3x2, 2x3 TNF machines in 13 prover modes; long halting 4x2/2x4/5x2; loops <= 60..800"


if __name__ == "__main__":
    vp.main(body, "C03")
