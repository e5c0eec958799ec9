"""C06: backtracking never calls a halting machine non-halting, and reports its search truthfully."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref, pipe


def model(tm, depth_limit, width_limit):
    """Independent backward search on partial configurations {position: symbol}.

    Returns (outcome, depth, width, nodes) with outcome 'closed', 'reached' or 'limit', summed over halting cells."""
    n, m = len(tm), len(tm[0])
    halts = [(q, s) for q in range(n) for s in range(m) if tm[q][s] is None or tm[q][s][2] < 0]
    moves = [(q, s) + tm[q][s] for q in range(n) for s in range(m) if (q, s) not in halts]
    side = {(0, 0), (0, 1)}                       # (symbol, side of the head it can lie on)
    for _, _, so, d, _ in moves:
        side.add((so, 1 - d))
    depth = width = nodes = 0
    for hq, hs in halts:
        level = [(hq, 0, ((0, hs),))]
        width = max(width, 1)
        if (hq, hs) == (0, 0):
            return ("reached", 0, width, nodes)
        closed = False
        for k in range(1, depth_limit + 1):
            nxt = []
            for q, p, cells in level:
                nodes += 1
                known = dict(cells)
                for q0, s0, so, d, q1 in moves:
                    if q1 != q:
                        continue
                    p0 = p - (1 if d else -1)
                    if known.get(p0, so) != so:
                        continue
                    prev = dict(known)
                    prev[p0] = s0
                    if q0 == 0 and not any(prev.values()):
                        return ("reached", k, width, nodes)
                    if all((v, 1 if x > p0 else 0) in side for x, v in prev.items() if x != p0):
                        nxt.append((q0, p0, tuple(sorted(prev.items()))))
            level = nxt
            width = max(width, len(level))
            depth = max(depth, k)
            if not level:
                closed = True
                break
            if len(level) > width_limit:
                break
        if not closed:
            return ("limit", depth, width, nodes)
    return ("closed", depth, width, nodes)


def one(tm, truth, params, r, count=True):
    import Backtracking_Filter, io_pb2
    text = ref.tm_str(tm)
    for steps, width in params:
        rec = pipe.record(text)
        Backtracking_Filter.backtrack(rec, steps, width)
        res = rec.proto.filter.backtrack.result
        hs = rec.proto.status.halt_status
        r.traces += 1
        r.states += max(1, res.num_nodes)
        r.transitions += max(1, res.num_nodes)

        def bad(key, what):
            r.fail(key, "%s steps=%d width=%d: %s" % (text, steps, width, what), tm=text, steps=steps, width=width)

        if res.success:
            r.count("success")
            if truth:
                bad("false-infinite", "called infinite but halts after %d steps" % truth)
                continue
            if not hs.is_decided or hs.is_halting or hs.inf_reason != io_pb2.INF_BACKTRACK:
                bad("status", "success is not recorded as infinite by backtracking")
            if count:
                want = model(tm, steps, width)
                if want != ("closed", res.max_steps, res.max_width, res.num_nodes):
                    bad("extent", "search extent depth/width/nodes %d/%d/%d, an independent search gives %s" % (
                        res.max_steps, res.max_width, res.num_nodes, want))
        else:
            r.count("not_decided")
            if hs.is_decided:
                bad("limit", "no success, yet the record is decided")
        if rec.proto.status.quasihalt_status.is_decided:
            bad("status", "claims a quasihalting result")


def slice_machines(part, r):
    params, items = part
    for tm, t in items:
        one(tm, t, params, r)
    if items:
        r.sample("%s, (steps, width) in %s" % (ref.tm_str(items[0][0]), params))


def slice_all22(part, r):
    i, k, params = part
    for tm in itertools.islice(ref.all_tms(2, 2, halts="std", undef=False), i, None, k):
        h = ref.Sim(tm).seek(7)
        one(tm, h.steps if h.halted else 0, params, r)


def tables(n, m, bound):
    """All tables with A0 = 1RB and exactly one halting cell."""
    cells = [(s, d, q) for q in range(n) for s in range(m) for d in (0, 1)]
    free = n * m - 1
    for h in range(free):
        for combo in itertools.product(cells, repeat=free - 1):
            c = [(1, 1, 1)] + list(combo[:h]) + [(1, 1, -1)] + list(combo[h:])
            yield tuple(tuple(c[i * m:(i + 1) * m]) for i in range(n))


def slice_tables(part, r):
    n, m, i, k, params, only_halting, bound = part
    for tm in itertools.islice(tables(n, m, bound), i, None, k):
        h = ref.Sim(tm).seek(bound)
        if h.halted or not only_halting:
            one(tm, h.steps if h.halted else 0, params, r)


def body(c):
    c.assumptions = ["reference stepper (lib/refsim.c)", "halting truth of a class from its proven busy-beaver step bound"]
    T = vp.THOROUGH
    J = vp.slices
    P = [(1, 5), (2, 1), (6, 1), (6, 2), (3, 5), (5, 10), (8, 3), (20, 10), (30, 50)]
    m22 = ref.tnf(2, 2, first_1rb=False, allow_no_halt=True)
    m = ref.tnf(3, 2, allow_no_halt=True) + ref.tnf(2, 3, allow_no_halt=True)
    c.run(slice_machines, [(P, s) for s in J(m22, 8)], "all 2x2")
    c.run(slice_all22, [(i, 32, [(6, 10), (15, 30)]) for i in range(32)], "all 2x2 tables, any renaming")
    c.run(slice_machines, [(P + [(20, 1), (20, 2), (20, 4)] if T else [(2, 3), (6, 10), (20, 1), (20, 2), (20, 20)], s) for s in J(m, 96)], "all 3x2 and 2x3")
    c.run(slice_machines, [(P, s) for s in J([(ref.fill_halt(t), s) for t, s in m if s], 32)], "3x2 and 2x3 with explicit halt cells")
    for n, mm, b in ((3, 2, 22), (2, 3, 39)):
        c.run(slice_tables, [(n, mm, i, 96, P[2:] if T else [(8, 20), (25, 40)], False, b) for i in range(96)], "%dx%d tables with one halting cell" % (n, mm))
    h42 = ref.tnf(4, 2, mode="halt", min_steps=6 if T else 12)
    c.run(slice_machines, [([(5, 10), (20, 20)], s) for s in J([(ref.fill_halt(t), s) for t, s in h42], 96)], "4x2 halting")
    h24 = ref.tnf(2, 4, mode="halt", min_steps=4, bound=60)
    c.run(slice_machines, [([(4, 4), (12, 20)], s) for s in J([(ref.fill_halt(t), s) for t, s in h24], 96)], "2x4 halting")
    c.extra["bounds"] = "all 2x2 tables; all TNF 3x2, 2x3; all 3x2, 2x3 tables with A0=1RB and one halting cell ; 4x2 halting >= 12 steps; 2x4 halting within 4..60 steps; depth <= 30, width <= 50"


if __name__ == "__main__":
    vp.main(body, "C06")
