"""C01: direct simulation equals the definition, step by step."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref
from vp import Result


def conform(tm, bound, r, stepwise=True):
    import IO, Direct_Simulator
    text = ref.tm_str(tm)
    m = IO.parse_tm(text)
    if len(m.trans_table) != len(tm) or m.num_states != len(tm) or m.num_symbols != len(tm[0]):
        r.fail("parse", "%s parsed to wrong shape" % text, tm=text)
        return
    sim = Direct_Simulator.DirectSimulator(m)
    rs = ref.Sim(tm)
    old = None            # (copy of the simulation, frozen expectations)
    visited = set()
    r.traces += 1

    def same(sim, rs, t):
        if sim.step_num != rs.steps or sim.halted != rs.halted:
            return "step/halted: %s/%s instead of %s/%s" % (sim.step_num, sim.halted, rs.steps, rs.halted)
        if int(sim.state) != rs.state:
            return "state %s instead of %s" % (int(sim.state), rs.state)
        if sim.tape.position != rs.pos:
            return "head at %s instead of %s" % (sim.tape.position, rs.pos)
        a, b = rs.lo, rs.hi
        if [sim.tape.read_pos(p) for p in range(a, b + 1)] != list(rs.window(a, b)):
            return "tape differs"
        if sim.tape.read_pos(a - 2) != 0 or sim.tape.read_pos(b + 2) != 0:
            return "unvisited cell not blank"
        if sim.tape.pos_leftmost() != a or sim.tape.pos_rightmost() != b:
            return "visited range %s..%s instead of %s..%s" % (sim.tape.pos_leftmost(), sim.tape.pos_rightmost(), a, b)
        if sim.tape.read() != rs.window(rs.pos, rs.pos)[0]:
            return "symbol under head differs"
        if rs.halted:
            if sim.halt_score != rs.score():
                return "score %s instead of %s" % (sim.halt_score, rs.score())
            if (sim.halt_from_state, sim.halt_from_symbol) != (rs.from_state, rs.from_symbol):
                return "halted from %s,%s instead of %s,%s" % (sim.halt_from_state, sim.halt_from_symbol, rs.from_state, rs.from_symbol)
        return None

    t = 0
    while t <= bound:
        e = same(sim, rs, t)
        r.states += 1
        if e:
            r.fail("direct", "%s after %d steps: %s" % (text, rs.steps, e), tm=text, step=rs.steps)
            return
        if t in (1, 5):
            old = (sim.copy(), (sim.step_num, int(sim.state), sim.tape.position,
                                [sim.tape.read_pos(p) for p in range(-bound - 1, bound + 2)]))
        if t == bound or rs.halted:
            break
        sim.step()
        t += 1
        rs.seek(t)
        r.transitions += 1
    # a copy taken earlier is unaffected, and runs to the same place
    if old:
        c, want = old
        got = (c.step_num, int(c.state), c.tape.position, [c.tape.read_pos(p) for p in range(-bound - 1, bound + 2)])
        if got != want:
            r.fail("copy", "%s: copied simulation changed when the original ran" % text, tm=text)
            return
        before = [sim.tape.read_pos(p) for p in range(-bound - 1, bound + 2)]
        c.seek(t)
        e = same(c, rs, t)
        if e:
            r.fail("copy-run", "%s: copy run to step %d: %s" % (text, t, e), tm=text)
        if before != [sim.tape.read_pos(p) for p in range(-bound - 1, bound + 2)]:
            r.fail("copy-alias", "%s: running the copy changed the original" % text, tm=text)
    # a copy of the final situation reports the same
    e = same(sim.copy(), rs, t)
    if e:
        r.fail("copy", "%s: copied at step %d: %s" % (text, t, e), tm=text)
    # stepping or seeking after a halt is a no-op; seeking into the past is a no-op
    sim.step() if sim.halted else None
    sim.seek(t) if not sim.halted else sim.seek(t + 7)
    sim.seek(0)
    e = same(sim, rs, t)
    if e:
        r.fail("after-end", "%s: stepping/seeking past the end changed it: %s" % (text, e), tm=text)


def seek_only(tm, bound, r):
    import IO, Direct_Simulator
    text = ref.tm_str(tm)
    sim = Direct_Simulator.DirectSimulator(IO.parse_tm(text))
    sim.seek(bound)
    rs = ref.Sim(tm).seek(bound)
    r.traces += 1
    r.states += 1
    r.transitions += rs.steps
    ok = (sim.step_num == rs.steps and sim.halted == rs.halted and int(sim.state) == rs.state and
          sim.tape.position == rs.pos and
          [sim.tape.read_pos(p) for p in range(rs.lo, rs.hi + 1)] == list(rs.content()))
    if ok and rs.halted:
        ok = (sim.halt_score == rs.score() and sim.halt_from_state == rs.from_state
              and sim.halt_from_symbol == rs.from_symbol)
    if not ok:
        r.fail("direct", "%s: wrong result after seek(%d)" % (text, bound), tm=text, bound=bound)


def slice_all22(part, r):
    i, k = part
    for tm in itertools.islice(ref.all_tms(2, 2), i, None, k):
        conform(tm, 9, r)
    r.sample("all 2x2 tables, slice %d/%d, e.g. %s" % (i, k, ref.tm_str(tm)))


def slice_list(part, r):
    bound, tms = part
    for tm in tms:
        conform(tm, bound, r)
    if tms:
        r.sample("%s for %d steps" % (ref.tm_str(tms[0]), bound))


def slice_seek(part, r):
    bound, tms = part
    for tm in tms:
        seek_only(tm, bound, r)


class ModelTape:
    def __init__(self):
        self.d, self.p = {}, 0

    def copy(self):
        t = ModelTape()
        t.d, t.p = dict(self.d), self.p
        return t


POS = (-3, -1, 0, 2)
OPS = [("L",), ("R",)] + [("w", s) for s in (1, 2)] + [("wp", s, p) for s in (0, 1) for p in POS] + [("copy",)]


def tape_ops(part, r):
    """All operation sequences on the tape object up to a depth, against a dict."""
    import Direct_Simulator
    depth, firsts = part

    def agree(t, m, hist):
        r.states += 1
        got = (t.position, t.read(), [t.read_pos(p) for p in range(-6, 7)], t.count_nonzero())
        want = (m.p, m.d.get(m.p, 0), [m.d.get(p, 0) for p in range(-6, 7)], sum(1 for v in m.d.values() if v))
        if got != want:
            r.fail("tape", "tape operations %s give %s instead of %s" % (hist, got, want), ops=hist)
            return False
        return True

    def apply(t, m, op):
        r.transitions += 1
        if op[0] == "L":
            t.move(0); m.p -= 1
        elif op[0] == "R":
            t.move(1); m.p += 1
        elif op[0] == "w":
            t.write(op[1]); m.d[m.p] = op[1]
        elif op[0] == "wp":
            t.write_pos(op[1], op[2]); m.d[op[2]] = op[1]

    def go(hist):
        t, m = Direct_Simulator.DirectTape(0), ModelTape()
        olds = []
        for op in hist:
            if op[0] == "copy":
                olds.append((t, m.copy()))
                t = t.copy()
            else:
                apply(t, m, op)
        r.traces += 1
        ok = agree(t, m, hist)
        for (ot, om) in olds:
            ok = agree(ot, om, list(hist) + ["original after copy"]) and ok
        return ok

    def rec(hist):
        if not go(hist):
            return
        if len(hist) < depth:
            for op in OPS:
                rec(hist + [op])

    for f in firsts:
        rec(f)


def body(c):
    c.assumptions = ["reference stepper (lib/refsim.c) is the definition of a Turing machine",
                     "machines given in the standard text form, at most 10 symbols / 26 states"]
    k = 16
    c.run(slice_all22, [(i, k) for i in range(k)], "all 2x2 tables, every step to 9")
    t32 = [t for t, _ in ref.tnf(3, 2, first_1rb=False, allow_no_halt=True)]
    t23 = [t for t, _ in ref.tnf(2, 3, first_1rb=False, allow_no_halt=True)]
    c.run(slice_list, [(30, s) for s in vp.slices(t32, 24)], "all 3x2 tree-normal-form machines")
    c.run(slice_list, [(45, s) for s in vp.slices(t23, 24)], "all 2x3 tree-normal-form machines")
    t42 = [t for t, k in ref.tnf(4, 2, **({} if vp.THOROUGH else dict(mode="halt", min_steps=20)))]
    if vp.THOROUGH:
        c.run(slice_seek, [(110, s) for s in vp.slices(t42, 64)], "all 4x2 machines")
        t42 = [t for t, k in ref.tnf(4, 2, **({} if vp.THOROUGH else dict(mode="halt", min_steps=20)))]
    c.run(slice_list, [(115, s) for s in vp.slices(t42, 32)], "4x2 machines")
    c.extra["tms_4x2"] = len(t42)
    # long runs far from the origin, and wide alphabets
    long = ["1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA", "1RB2LA1RA1RA_1LB1LA3RB1RZ", "1RB1RZ_0RC0RB_0LC---",
            "1RB2LB1LZ_2LA2RB1LB", "0RA---_------", "0LA---_------", "1RB3LA1LA4LA2RA_2LB2RA1RZ0RA0RB",
            "9RA9LA9LA9LA9LA9LA9LA9LA9LA8LA", "1LB------_1RA2LB1LA", "0LB---_0RA---"]
    c.run(slice_seek, [(b, [ref.parse(x)]) for x in long for b in (20000, 2000000 if vp.THOROUGH else 300000)], "long runs")
    depth = 6 if vp.THOROUGH else 5
    firsts = [[o] for o in OPS]
    c.run(tape_ops, [(depth, [[o, p]]) for o in OPS for p in OPS] + [(1, firsts)], "tape operation sequences to depth %d" % depth)
    c.extra["bounds"] = "2x2: all tables incl. any halt cell, every step to 9; 3x2/2x3: all TNF nodes incl. A0 free, every step; 4x2 %s; tape op sequences of length <= %d over %d operations" % ("all" if vp.THOROUGH else "halting after >=20 steps", depth, len(OPS))


if __name__ == "__main__":
    vp.main(body, "C01")
