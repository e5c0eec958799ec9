"""C08: closed position-set search never accepts a halting machine."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref

LIMITS = dict(max_steps=1_000_000, max_iters=500, max_configs=10_000, max_edges=10_000)
QUICK = dict(max_steps=20_000, max_iters=40, max_configs=400, max_edges=400)


def parse_cert(text, window):
    """The printed certificate: (left edges, right edges, configs)."""
    w = text.split()
    if w[0] != "Result":
        return None
    i = 1
    sides = []
    for _ in (0, 1):
        k = int(w[i])
        i += 1
        e = set()
        for _ in range(k):
            e.add((tuple(map(int, w[i])), tuple(map(int, w[i + 1]))))
            i += 2
        sides.append(e)
    k = int(w[i])
    i += 1
    confs = set()
    for t in w[i:i + k]:
        if "<" in t:
            a, b = t.split("<")
            q, rest = b[0], b[1:]
            cells, pos, d = a + rest, len(a) - 1, 0
        else:
            a, rest = t.split(">")
            q, a = a[-1], a[:-1]
            cells, pos, d = a + rest, len(a), 1
        confs.add((ord(q) - 65, d, tuple(map(int, cells)), pos))
    if i + k != len(w):
        raise ValueError("certificate with trailing text")
    return sides[0], sides[1], confs


def leave(tm, q, pos, cells):
    """Run inside the window: ('halt',), ('loop',) or ('out', dir, state, cells). None: no answer within the bound."""
    cells = list(cells)
    n = len(cells)
    seen = set()
    for k in range(200000):
        key = (q, pos, tuple(cells))
        if k > 300:
            if key in seen:
                return ("loop",)
            seen.add(key)
        c = tm[q][cells[pos]]
        if c is None or c[2] < 0:
            return ("halt",)
        cells[pos] = c[0]
        pos += 1 if c[1] else -1
        q = c[2]
        if pos < 0 or pos >= n:
            return ("out", int(pos >= n), q, tuple(cells))
    return None


def closed(tm, block, window, cert):
    """None if the certificate is an inductive invariant containing the blank tape and free of halting, else what is wrong."""
    le, re_, confs = cert
    m = {}
    cont = [{}, {}]
    for d, es in ((0, le), (1, re_)):
        for a, b in es:
            cont[d].setdefault(a, set()).add(b)
    zero = (0,) * block
    for d in (0, 1):
        if zero not in cont[d].get(zero, ()):
            return "blank half-tape missing on side %d" % d
    # the blank start with the head somewhere in the window (block cells ahead of it, as for every configuration)
    if not any(q == 0 and not any(w) for q, d, w, p in confs):
        return "the initial configuration is missing"

    def blk(d, w, i):
        return w[i * block:(i + 1) * block] if d == 0 else w[len(w) - (i + 1) * block:len(w) - i * block]

    for q, d, w, p in confs:
        if len(w) != window or not 0 <= p < window:
            return "malformed configuration"
        got = leave(tm, q, p, w)
        if got is None:
            continue
        if got[0] == "halt":
            return "configuration %r halts inside its window" % ((q, d, w, p),)
        if got[0] == "loop":
            continue
        _, out, q2, w2 = got
        beh = 1 - out
        far, second = blk(beh, w2, 0), blk(beh, w2, 1)
        if far not in cont[beh].get(second, ()):
            return "no edge %r -> %r on side %d, left behind by %r" % (second, far, beh, (q, d, w, p))
        for dst in cont[beh].get(blk(beh, w, 0), ()):
            if dst not in cont[beh].get(far, ()):
                return "no edge %r -> %r on side %d, inherited behind %r" % (far, dst, beh, (q, d, w, p))
        for f in cont[out].get(blk(out, w, 0), ()):
            nw = w2[block:] + f if out else f + w2[:-block]
            np = window - block if out else block - 1
            if (q2, out, nw, np) not in confs:
                return "successor %r of %r is missing" % ((q2, out, nw, np), (q, d, w, p))
    return None


def contains_run(tm, block, window, cert, steps):
    """Follow the real run: every window it passes through is in the certificate."""
    _, _, confs = cert
    start = [(w, p, d) for q, d, w, p in confs if q == 0 and not any(w)]
    rs = ref.Sim(tm)
    # head at window offset p: the window covers pos-p .. pos-p+window-1
    okay = False
    for w, p, d in start:
        if d != 1 or p != window - block:
            continue
        lo = -p
        tape = {}
        q, x = 0, 0
        good = True
        for _ in range(steps):
            c = tm[q][tape.get(x, 0)]
            if c is None or c[2] < 0:
                return "halts"
            tape[x] = c[0]
            x += 1 if c[1] else -1
            q = c[2]
            if not lo <= x < lo + window:
                d = int(x >= lo + window)
                lo += block if d else -block
                cells = tuple(tape.get(i, 0) for i in range(lo, lo + window))
                if (q, d, cells, x - lo) not in confs:
                    return "window %r of the real run is not in the set" % ((q, d, cells, x - lo),)
        okay = True
    return None if okay else "no initial window"


def one(tm, t, block, window, limits, r, follow=150):
    import CPS, IO, io_pb2
    text = ref.tm_str(tm)
    res, st = io_pb2.ClosedGraphFilterResult(), io_pb2.BBStatus()
    g = CPS.filter(IO.parse_tm(text), block, window, limits["max_steps"], limits["max_iters"],
                   limits["max_configs"], limits["max_edges"], res, st)
    r.traces += 1
    r.states += 1
    where = "%s block=%d window=%d limits=%s" % (text, block, window, list(limits.values()))

    def bad(key, what):
        r.fail(key, "%s: %s" % (where, what), tm=text, block=block, window=window, limits=limits)

    if not res.success:
        r.count("not_decided")
        if st.ByteSize():
            bad("status", "search failed but the record now says %s" % str(st).replace("\n", " "))
        return
    r.count("accepted")
    if t:
        return bad("halts", "accepted but the machine halts after %d steps" % t)
    if not (st.halt_status.is_decided and not st.halt_status.is_halting and st.halt_status.inf_reason == io_pb2.INF_CLOSED_GRAPH):
        return bad("status", "accepted but the record says %s" % str(st).replace("\n", " "))
    if st.quasihalt_status.is_decided:
        return bad("quasi", "claims a quasi-halting verdict which this search does not prove")
    cert = parse_cert(g.savask_cert(), window)
    if cert is None:
        return bad("cert", "accepted without a certificate")
    r.states += len(cert[2])
    r.transitions += len(cert[0]) + len(cert[1]) + len(cert[2])
    what = closed(tm, block, window, cert)
    if what:
        return bad("not-closed", "the found set is not closed: " + what)
    what = contains_run(tm, block, window, cert, follow)
    if what:
        return bad("run", what)


def sl(part, r):
    params, items = part
    for tm, t in items:
        for b, w, lim in params:
            one(tm, t, b, w, lim, r)
    if items:
        r.sample("%s with (block, window, limits) %s" % (ref.tm_str(items[0][0]), [(b, w, list(l.values())) for b, w, l in params[:4]]))


def load(name):
    out = []
    for line in open(os.path.join(vp.VERIF, "data", name)):
        t, s = line.split()[:2]
        out.append((ref.parse(t), int(s)))
    return out


def body(c):
    import CPS, IO  # noqa
    c.assumptions = ["halting truth of a class from its proven busy-beaver step bound",
                     "the set a search found is read from the certificate it prints and judged by an independent closure check and by following the real run"]
    T = vp.THOROUGH
    J = vp.slices
    m22 = ref.tnf(2, 2, first_1rb=False, allow_no_halt=True)
    m32 = ref.tnf(3, 2)
    m23 = ref.tnf(2, 3)
    bw = [(1, 2), (1, 3), (1, 4), (2, 4), (2, 5), (2, 6), (3, 6)] + [(3, 7), (3, 9), (1, 6), (4, 8)] + ([(3, 8), (1, 5), (4, 9), (4, 12), (2, 7), (2, 8), (5, 10), (6, 12)] if T else [])
    lim = LIMITS if T else QUICK
    full = [(b, w, lim) for b, w in bw]
    c.run(sl, [([(b, w, LIMITS) for b, w in bw + [(3, 9), (4, 8), (5, 10), (5, 12), (6, 12), (6, 18), (8, 16), (9, 27)]], s) for s in J(m22, 8)], "2x2, all block and window sizes")
    c.run(sl, [(full, s) for s in J(m32, 64)], "3x2")
    c.run(sl, [(full, s) for s in J(m23, 64)], "2x3")
    big = [x for x in m32 + m23 if x[1] >= 7]
    c.run(sl, [([(b, w, QUICK) for b, w in ((5, 10), (6, 13), (7, 14))], s) for s in J(big, 64)], "halting 3x2 and 2x3, wide blocks")
    ex = [(tuple(tuple((1, 1, -1) if x is None else x for x in row) for row in tm), t) for tm, t in m32 + m23]
    c.run(sl, [(full[:6], s) for s in J(ex, 64)], "3x2 and 2x3 with explicit halting cells")
    # every way of running into a limit
    grid = []
    for st, it, cf, ed in itertools.product((0, 1, 7, 40, 10**6), (1, 2, 3, 500), (1, 3, 10**4), (1, 3, 10**4)):
        grid.append(dict(max_steps=st, max_iters=it, max_configs=cf, max_edges=ed))
    gb = [(1, 2), (1, 3), (2, 4)]
    c.run(sl, [([(b, w, g) for b, w in gb for g in grid], s) for s in J(m22, 32)], "2x2, all limits")
    singles = [dict(LIMITS, **{k: v}) for k in LIMITS for v in (1, 2, 5, 12, 30)]
    c.run(sl, [([(1, 3, g) for g in singles] + ([(2, 4, g) for g in singles] if T else []), s) for s in J(m32, 64)], "3x2, each limit at small values")
    long_ = load("halting_2x4.txt") + load("halting_5x2.txt") + ref.tnf(4, 2, mode="halt", min_steps=10 if T else 22)
    c.run(sl, [([(b, w, QUICK) for b, w in ((1, 2), (1, 3), (2, 4), (2, 5), (3, 6))], s) for s in J(long_, 64)], "long-running halting machines")
    lr = load("lr_4x2.txt")
    c.run(sl, [([(b, w, QUICK) for b, w in ((1, 3), (2, 4), (2, 6), (3, 6))], [(tm, 0) for tm, _ in s]) for s in J(lr, 64)], "4x2 machines with long recurrences")
    r42 = ref.tnf(4, 2)
    c.run(sl, [([(b, w, QUICK) for b, w in (((1, 2), (1, 3), (2, 4), (2, 5), (2, 6), (3, 6)) if T else ((1, 3),))], s) for s in J(r42, 1024)], "all 4x2")
    c.extra["bounds"] = "all 2x2, 3x2, 2x3 TNF machines; blocks 1-9, windows 2-27; limit grid; long halting 4x2/2x4/5x2"


if __name__ == "__main__":
    vp.main(body, "C08")
