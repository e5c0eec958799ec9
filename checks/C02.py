"""C02: macro machines (block, offset, back-symbol) and the chain tape mimic the base machine."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref, decode


def build(base, block, offset, back, limit=None):
    """limit: number of base steps allowed inside a macro step, or ("cells", n): room for n cached macro transitions."""
    from Macro import Turing_Machine
    m = base
    if isinstance(limit, tuple):
        for cls in (Turing_Machine.Block_Macro_Machine, Turing_Machine.Backsymbol_Macro_Machine):
            if hasattr(cls, "MAX_TTABLE_CELLS"):
                cls.MAX_TTABLE_CELLS = limit[1]
        limit = None
    kw = {} if limit is None else dict(max_sim_steps_per_symbol=limit)
    if block != 1:
        m = Turing_Machine.Block_Macro_Machine(m, block, offset or None, **kw)
    if back:
        m = Turing_Machine.Backsymbol_Macro_Machine(m, **kw)
    return m


def one(tm, truth_steps, cfg, max_loops, r, limit=None, max_steps=4000):
    """truth_steps: exact halting step, 0 if never."""
    import IO
    from Macro import Turing_Machine, Simulator
    block, offset, back = cfg
    text = ref.tm_str(tm)
    opts = Simulator.create_default_options()
    opts.prover = False
    sim = Simulator.Simulator(build(IO.parse_tm(text), block, offset, back, limit), opts)
    rs = ref.Sim(tm)
    r.traces += 1
    where = "%s block=%d offset=%d back=%s limit=%s" % (text, block, offset, back, limit)

    def bad(key, what):
        r.fail(key, "%s: %s (base step %s, macro step %d)" % (where, what, sim.step_num, sim.num_loops),
               tm=text, block=block, offset=offset, back=back, limit=limit, loop=sim.num_loops)

    for i in range(max_loops + 1):
        st = sim.op_state
        if st == Turing_Machine.RUNNING:
            if sim.step_num > max_steps or decode.too_big(sim.tape, 4000):
                r.count("size_bound_reached")
                return
            if not isinstance(sim.step_num, int) or sim.step_num < rs.steps or (i and sim.step_num == rs.steps):
                return bad("steps", "base step count does not advance")
            rs.seek(sim.step_num)
            r.states += 1
            if rs.halted:
                return bad("missed-halt", "still running although the machine has halted after %d steps" % rs.steps)
            got = decode.config(sim)
            if got != rs.config():
                return bad("config", "configuration %r instead of %r" % (got, rs.config()))
            if i:
                seen = {int(k): int(v) for k, v in sim.states_last_seen.items()}
                want = {q: t for q, t in enumerate(rs.last) if t >= 0}
                if seen != want:
                    return bad("last-seen", "states last seen %r instead of %r" % (seen, want))
            if sim.get_nonzeros() != len(rs.content()) - rs.content().count(0):
                return bad("score", "score while running is wrong")
        elif st in (Turing_Machine.HALT, Turing_Machine.UNDEFINED):
            r.states += 1
            r.count("halted")
            rs.seek(sim.step_num + 1)
            if not rs.halted or rs.steps != sim.step_num:
                return bad("halt", "reports halting after %s steps, truth %s" % (sim.step_num, truth_steps))
            if decode.whole(sim) != rs.content().strip(b"\0"):
                return bad("halt-tape", "final tape %r instead of %r" % (decode.whole(sim), rs.content()))
            if sim.get_nonzeros() != rs.score():
                return bad("halt-score", "score %s instead of %d" % (sim.get_nonzeros(), rs.score()))
            s, q = sim.op_details[0][:2]
            if (q, s) != (rs.from_state, rs.from_symbol):
                return bad("halt-from", "halting cell %s,%s instead of %s,%s" % (q, s, rs.from_state, rs.from_symbol))
            seen = {int(k): int(v) for k, v in sim.states_last_seen.items()}
            if seen != {q: t for q, t in enumerate(rs.last) if t >= 0}:
                return bad("last-seen", "states last seen %r instead of %r at halt" % (seen, rs.last))
            undefd = tm[rs.from_state][rs.from_symbol] is None
            if (st == Turing_Machine.UNDEFINED) != undefd:
                return bad("halt-kind", "halting cell reported as %s" % st)
            return
        elif st == Turing_Machine.INF_REPEAT:
            r.states += 1
            r.count("infinite")
            if truth_steps:
                return bad("false-infinite", "reported infinite but halts after %d steps" % truth_steps)
            return
        elif st == Turing_Machine.GAVE_UP:
            r.count("gave_up")
            if not isinstance(limit, int) and truth_steps and truth_steps < 900:
                return bad("gave-up", "gave up on a machine that halts after %d steps" % truth_steps)
            return
        else:
            return bad("state", "unknown operation state %r" % (st,))
        if i == max_loops:
            return
        sim.step()
        r.transitions += 1


def slice_machines(part, r):
    cfgs, loops, limit, max_steps, items = part
    for tm, t in items:
        for cfg in cfgs:
            one(tm, t, cfg, loops, r, limit, max_steps)
    if items:
        r.sample("%s with (block, offset, back-symbol) in %s, %d macro steps" % (ref.tm_str(items[0][0]), cfgs, loops))


def slice_all22(part, r):
    i, k, cfgs = part
    for tm in itertools.islice(ref.all_tms(2, 2), i, None, k):
        h = ref.Sim(tm).seek(7)
        for cfg in cfgs:
            one(tm, h.steps if h.halted else 0, cfg, 6, r)


def slice_seek(part, r):
    """seek, run, loop_seek and loop_run stop at the right place, in all combinations of two calls."""
    import IO
    from Macro import Turing_Machine as T, Simulator
    cfgs, cuts, items = part
    for tm, t in items:
        text = ref.tm_str(tm)
        for cfg in cfgs:
            opts = Simulator.create_default_options()
            opts.prover = False
            # the moments between macro steps
            sim = Simulator.Simulator(build(IO.parse_tm(text), *cfg), opts)
            steps, conf, ops = [0], [decode.config(sim)], [sim.op_state]
            while sim.op_state == T.RUNNING and len(steps) < 40 and not decode.too_big(sim.tape, 4000):
                sim.step()
                steps.append(sim.step_num)
                conf.append(decode.config(sim) if sim.op_state == T.RUNNING else None)
                ops.append(sim.op_state)
            end = len(steps) - 1
            for calls in itertools.product([(f, n) for f in ("seek", "run", "loop_seek", "loop_run") for n in cuts], repeat=2):
                sim = Simulator.Simulator(build(IO.parse_tm(text), *cfg), opts)
                at = 0
                for f, n in calls:
                    getattr(sim, f)(n)
                    r.transitions += 1
                    if f == "loop_run":
                        goal = at + n
                    elif f == "loop_seek":
                        goal = max(at, n)
                    else:
                        want = n if f == "seek" else steps[at] + n
                        goal = next((i for i in range(at, end + 1) if steps[i] >= want), end + 1)
                    if goal > end and ops[end] == T.RUNNING:
                        break           # beyond the moments known
                    at = min(goal, end)
                    r.states += 1
                    if sim.num_loops != at or sim.step_num != steps[at] or sim.op_state != ops[at] or \
                       (conf[at] is not None and decode.config(sim) != conf[at]):
                        r.fail("seek", "%s block=%d offset=%d back=%s, %s: after %d macro steps (step %s), expected %d (step %s)" % (
                            (text,) + cfg + (calls, sim.num_loops, sim.step_num, at, steps[at])), tm=text, calls=calls)
                        return
            r.traces += 1


def ref_segment(tm, cells, q, pos, limit):
    """Run the base machine on a finite segment, exactly. Returns (kind, cells, state, dir, steps, last, frm)."""
    cells = list(cells)
    seen = set()
    t = 0
    last = {}
    while True:
        key = (q, pos, tuple(cells))
        if key in seen:
            return ("inf", None, None, None, t, None, None)
        seen.add(key)
        s = cells[pos]
        c = tm[q][s]
        so, d, qo = c if c is not None else (1, 1, -1)
        last[q] = t
        cells[pos] = so
        pos += 1 if d else -1
        t += 1
        if qo < 0:
            return ("undef" if c is None else "halt", cells, -1, d, t, last, (s, q))
        q = qo
        if not 0 <= pos < len(cells):
            return ("exit", cells, q, d, t, last, None)


def trans_check(tm, r, blocks, backs, pats=None):
    """Every macro transition of the block and back-symbol machines, from every possible input."""
    import IO
    from Macro import Turing_Machine as T
    text = ref.tm_str(tm)
    n, m = len(tm), len(tm[0])
    base = IO.parse_tm(text)
    kinds = {"exit": T.RUNNING, "halt": T.HALT, "undef": T.UNDEFINED, "inf": T.INF_REPEAT}
    for k in blocks:
        for back in backs:
            mach = build(base, k, 0, back)
            for cells in (map(tuple, pats) if pats else itertools.product(range(m), repeat=k * (2 if back else 1))):
                for q in range(n):
                    for d in (0, 1):
                        if back:
                            front = cells[k:] if d else cells[:k]
                            rear = cells[:k] if d else cells[k:]
                            sym = T.Block_Symbol(front) if k > 1 else front[0]
                            bk = T.Block_Symbol(rear) if k > 1 else rear[0]
                            st = T.Backsymbol_Macro_Machine_State(T.Simple_Machine_State(q), bk)
                            pos = k if d else k - 1
                        else:
                            sym = T.Block_Symbol(cells) if k > 1 else cells[0]
                            st = T.Simple_Machine_State(q)
                            pos = 0 if d else k - 1
                        if k == 1 and not back:
                            continue
                        want = ref_segment(tm, cells, q, pos, 0)
                        tr = mach.get_trans_object(sym, st, d)
                        if mach.get_trans_object(sym, st, d).condition != tr.condition:
                            r.fail("trans", "%s block=%d back=%s: a second look at %s in state %d dir %d gives another answer" % (text, k, back, cells, q, d), tm=text)
                        r.states += 1
                        r.transitions += want[4]
                        if tr.condition == T.GAVE_UP:
                            if want[4] < 900:
                                r.fail("trans-gave-up", "%s block=%d back=%s gave up on %s state %d dir %d" % (text, k, back, cells, q, d), tm=text)
                            continue
                        ok = tr.condition == kinds[want[0]]
                        if ok and want[0] != "inf":
                            sq, bk_out, _ = decode.split_state(tr.state_out)
                            outc = decode.flat(tr.symbol_out)
                            if back:
                                outc = outc + bk_out if tr.dir_out == 1 else bk_out + outc
                            ok = (outc == want[1] and sq == want[2] and tr.dir_out == want[3] and
                                  tr.num_base_steps == want[4] and
                                  {int(a): b for a, b in tr.states_last_seen.items()} == want[5])
                            if ok and want[6]:
                                ok = tuple(tr.condition_details[0][:2]) == want[6]
                        if not ok:
                            r.fail("trans", "%s block=%d back=%s: macro step on %s in state %d dir %d gives %s,%s,%s,%s in %s steps; truth %s" % (
                                text, k, back, cells, q, d, tr.condition, tr.symbol_out, tr.state_out, tr.dir_out, tr.num_base_steps, want), tm=text, block=k, back=back)
                            return


def slice_trans(part, r):
    blocks, backs, tms = part
    for tm in tms:
        r.traces += 1
        trans_check(tm, r, blocks, backs)


def slice_long(part, r):
    """Blocks so long that the in-block repeat detection is really exercised."""
    k, tms = part
    for tm in tms:
        r.traces += 1
        m = len(tm[0])
        pats = [[0] * k, [1] * k, [i % 2 for i in range(k)]] + ([[2] * k] if m > 2 else [])
        trans_check(tm, r, (k,), (False,), pats)


def body(c):
    c.assumptions = ["reference stepper (lib/refsim.c)",
                     "halting truth of a class from its proven busy-beaver step bound (2x4: only machines that halt within the enumerated bound are used)"]
    cfgs = [(k, o, b) for k in (1, 2, 3, 4) for o in range(k) for b in (False, True)]
    big = [(5, 0, True), (6, 2, True), (8, 3, False)]
    m22 = ref.tnf(2, 2, first_1rb=False, allow_no_halt=True)
    m32 = ref.tnf(3, 2)
    m23 = ref.tnf(2, 3)
    J = vp.slices
    T = vp.THOROUGH
    c.run(slice_all22, [(i, 24, [(1, 0, False), (2, 1, True), (3, 1, False), (1, 0, True)]) for i in range(24)], "all 2x2 tables with any halting cells")
    c.run(slice_machines, [(cfgs + big, 80, None, 4000, s) for s in J(m22, 8)], "all 2x2")
    c.run(slice_machines, [(cfgs + big, 90 if T else 50, None, 4000, s) for s in J(m32, 64)], "all 3x2")
    c.run(slice_machines, [(cfgs, 90 if T else 45, None, 4000, s) for s in J(m23, 64)], "all 2x3")
    # give-up limits: the machine may be given up on, never misjudged
    lim = [(2, 1, True), (3, 0, False), (4, 0, True)]
    for L in (3, 8):
        c.run(slice_machines, [(lim, 40, L, 4000, s) for s in J(m32 + m23, 32)], "step limit %d inside macro symbols" % L)
    for n in (1, 2, 5):
        c.run(slice_machines, [([(1, 0, True), (2, 1, True), (3, 0, False)], 40, ("cells", n), 4000, s) for s in J(m22 + (m32 + m23 if T or n == 2 else []), 32)], "room for %d macro transitions" % n)
    c.run(slice_seek, [([(1, 0, False), (2, 1, True), (3, 0, False)], (0, 1, 2, 5, 12), s) for s in J(m22, 32)], "stopping places")
    h42 = ref.tnf(4, 2, mode="halt", min_steps=8 if T else 22)
    c.run(slice_machines, [(cfgs if T else [(1, 0, True), (2, 0, False), (2, 1, True), (3, 2, True), (4, 1, False)], 200, None, 4000, s) for s in J(h42, 64)], "4x2 halting machines")
    h24 = ref.tnf(2, 4, bound=2000, mode="halt", min_steps=40 if T else 70)
    c.run(slice_machines, [([(1, 0, True), (2, 1, True), (3, 0, False), (3, 1, True)], 1200, None, 4000, s) for s in J(h24, 64)], "2x4 long halting machines")
    # every macro transition from every input (also unreachable ones)
    tm22 = [t for t in ref.all_tms(2, 2, halts="std", undef=True)]
    c.run(slice_trans, [((2, 3), (False,), s) for s in J(tm22, 48)], "all macro transitions, all 2x2 tables, blocks 2-3")
    c.run(slice_trans, [((1, 2), (True,), s) for s in J(tm22, 48)], "all back-symbol transitions, all 2x2 tables, blocks 1-2")
    c.run(slice_trans, [((5,), (False,), s) for s in J([t for t, _ in m32], 48)], "macro transitions, all 3x2, block 5")
    c.run(slice_trans, [((3,), (False,), s) for s in J([t for t, _ in m23], 48)], "macro transitions, all 2x3, block 3")
    c.run(slice_long, [(9 if not T else 11, s) for s in J([t for t, _ in m32 + m23], 64)], "long runs inside one block (repeat detection)")
    c.extra["bounds"] = "classes 2x2 (all tables), 3x2, 2x3 (all TNF nodes), 4x2/2x4 long halting; blocks 1-4 all offsets, selected 5,6,8; back-symbol on/off; macro steps <= 45..1200"


if __name__ == "__main__":
    vp.main(body, "C02")
