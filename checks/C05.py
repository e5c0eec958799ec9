"""C05: linear-recurrence detection is sound, accurate and finds what it must."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref


def one(tm, truth, budgets, r, N=4096):
    """truth: exact steps to halt; 0 never."""
    import IO, Lin_Recur_Detect, Halting_Lib, io_pb2
    text = ref.tm_str(tm)
    N = max(N, 8 * max(budgets))
    rs = ref.Sim(tm)
    tr, pos = rs.trace(N)
    rec = None
    if len(tr) == N:
        h = max(budgets) // 2
        rec = ref.recurrence(tr, pos, h, h)
    for b in budgets:
        for want_min in (False, True):
            tmx = IO.parse_tm(text)
            info = io_pb2.LinRecurFilterInfo()
            info.parameters.max_steps = b
            info.parameters.find_min_start_step = want_min
            st = io_pb2.BBStatus()
            Lin_Recur_Detect.filter(tmx, info, st)
            res = info.result
            r.traces += 1
            r.states += 1
            r.transitions += min(2 * b, N)

            def bad(key, what):
                r.fail(key, "%s max_steps=%d min=%s: %s" % (text, b, want_min, what), tm=text, max_steps=b, min=want_min)

            hs = st.halt_status
            if tmx.ttable_str() != text:
                bad("machine", "machine modified")
            if res.success:
                r.count("recurrent")
                s, p, d = res.start_step, res.period, res.offset
                if truth or len(tr) < N:
                    bad("false-recurrence", "reported recurrent (start %d period %d) but halts after %d steps" % (s, p, len(tr)))
                    continue
                if not hs.is_decided or hs.is_halting or hs.inf_reason != io_pb2.INF_LIN_RECUR:
                    bad("status", "recurrence found but the record does not say infinite")
                if p < 1 or s + 3 * p > N:
                    bad("params", "start %d period %d cannot come from this budget" % (s, p))
                    continue
                if tr[s:N - p] != tr[s + p:N]:
                    bad("false-recurrence", "does not repeat from step %d with period %d" % (s, p))
                    continue
                if pos[s + p] - pos[s] != d:
                    bad("shift", "shift %d instead of %d" % (d, pos[s + p] - pos[s]))
                if want_min and s > 0 and tr[s - 1] == tr[s - 1 + p]:
                    bad("min-start", "start %d is not the first step from which it repeats with period %d" % (s, p))
            elif hs.is_decided:
                r.count("halting")
                if not hs.is_halting:
                    bad("status", "not recurrent, yet marked infinite")
                elif len(tr) == N:
                    bad("false-halt", "reported halting but still running after %d steps" % N)
                else:
                    steps, score = Halting_Lib.get_big_int(hs.halt_steps), Halting_Lib.get_big_int(hs.halt_score)
                    if (steps, score, hs.from_state, hs.from_symbol) != (len(tr), rs.score(), rs.from_state, rs.from_symbol):
                        bad("halt", "steps/score/cell %s/%s/%d,%d instead of %d/%d/%d,%d" % (
                            steps, score, hs.from_state, hs.from_symbol, len(tr), rs.score(), rs.from_state, rs.from_symbol))
            else:
                r.count("undecided")
                if len(tr) < N and len(tr) <= b:
                    bad("missed-halt", "halts after %d steps but not reported" % len(tr))
                if rec and 2 * max(rec[0], rec[1]) <= b:
                    bad("missed-recurrence", "repeats from step %d with period %d but not found" % rec[:2])


def slice_machines(part, r):
    budgets, items = part
    for it in items:
        one(it[0], it[1], budgets, r)
    if items:
        r.sample("%s, budgets %s" % (ref.tm_str(items[0][0]), list(budgets)))


def slice_all22(part, r):
    import itertools
    i, k = part
    for tm in itertools.islice(ref.all_tms(2, 2, halts="std"), i, None, k):
        h = ref.Sim(tm).seek(7)
        one(tm, h.steps if h.halted else 0, (16, 64), r, N=512)


def slice_long(items, r):
    """Machines that neither halt nor repeat early, run long: growing tapes, far-away differences."""
    for tm, steps in items:
        tr, pos = ref.Sim(tm).trace(2048)
        if len(tr) == 2048 and not ref.recurrence(tr, pos, 128, 128):
            one(tm, 0, LONG, r)


LONG = (1000, 16000)


def body(c):
    c.assumptions = ["reference stepper (lib/refsim.c)", "a repetition of the (state, symbol) sequence over >= 8 budgets counts as recurrence"]
    T = vp.THOROUGH
    J = vp.slices
    B = (1, 2, 3, 4, 5, 8, 16, 31, 64, 127, 128, 300)
    c.run(slice_machines, [(B, s) for s in J(ref.tnf(2, 2, first_1rb=False, allow_no_halt=True), 8)], "all 2x2")
    c.run(slice_all22, [(i, 32) for i in range(32)], "all 2x2 tables, any renaming")
    m = ref.tnf(3, 2, allow_no_halt=True) + ref.tnf(2, 3, allow_no_halt=True)
    c.run(slice_machines, [(B if T else (2, 7, 33, 127, 256), s) for s in J(m, 96)], "all 3x2 and 2x3")
    m2 = [x for x in m + ref.tnf(2, 2, first_1rb=False, allow_no_halt=True) if not x[1]]
    c.run(slice_long, J(m2, 128), "3x2 and 2x3 without early recurrence, long runs")
    lr = [(ref.parse(l.split()[0]), 0) for l in open(os.path.join(vp.VERIF, "data", "lr_4x2.txt"))]
    c.run(slice_machines, [((64, 127, 500, 2048) if T else (127, 800), s) for s in J(lr, 96)], "4x2 with late or long recurrence")
    h42 = ref.tnf(4, 2, mode="halt", min_steps=12 if T else 30)
    c.run(slice_machines, [((16, 50, 127), s) for s in J(h42, 64)], "4x2 long halting")
    if T:
        c.run(slice_machines, [((127,), s) for s in J(ref.tnf(4, 2, mode="run"), 512)], "all 4x2 non-halting")
    c.extra["bounds"] = "all 2x2, 3x2, 2x3 machines (also without halting cell); 4x2 with recurrence start or period >= 40; budgets 1..2048; all 2x2, 3x2, 2x3 machines without recurrence in 128 steps, budgets 1000 and 16000"


if __name__ == "__main__":
    vp.main(body, "C05")
