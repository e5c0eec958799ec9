"""C20: the C++ simulators and the C++ recurrence check against the reference model."""
import os, sys, re, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref, cppbuild

BIN = None


def outcome(sim, limit):
    """(halted, steps) after at most `limit` steps (sim is only ever moved forward)."""
    sim.seek(limit)
    return sim.halted, sim.steps


def sl_all(job, r):
    """direct_sim_all: one file of machines, every limit."""
    name, tms, limits, tail = job
    d = tempfile.mkdtemp(prefix="vc20")
    try:
        fin, fout = os.path.join(d, "in"), os.path.join(d, "out")
        texts = [ref.tm_str(t) for t in tms]
        open(fin, "w").write("\n".join(t + x for t, x in zip(texts, tail or [""] * len(texts))) + "\n")
        sims = [ref.Sim(t) for t in tms]
        for limit in sorted(limits):
            try:
                out = cppbuild.run(BIN, "direct_sim_all", [fin, limit, fout], timeout=600)
            except cppbuild.Crash as e:
                r.fail("sim-all-crash", "%s (machines %s ...)" % (e, texts[:3]), machines=texts[:50], limit=limit)
                return
            lines = open(fout).read().split("\n")
            if lines[-1] != "":
                r.fail("sim-all-lines", "direct_sim_all output does not end with a newline", limit=limit)
            lines = lines[:-1]
            if len(lines) != len(tms):
                r.fail("sim-all-lines", "direct_sim_all wrote %d lines for %d machines" % (len(lines), len(tms)), machines=texts[:50], limit=limit)
                return
            nh = 0
            for t, sim, line in zip(texts, sims, lines):
                h, k = outcome(sim, limit)
                nh += h
                r.states += 1
                r.transitions += k
                want = "%s %s %d" % (t, "Halt" if h else "Unknown", k)
                if line != want:
                    r.fail("sim-all", "direct_sim_all with limit %d: %r instead of %r" % (limit, line, want), tm=t, limit=limit)
                    return
            m = re.search(r"Total: (\d+)\s+Halt: (\d+)\s+Unknown: (\d+)", out)
            if not m or tuple(map(int, m.groups())) != (len(tms), nh, len(tms) - nh):
                r.fail("sim-all-count", "direct_sim_all with limit %d says %r for %d machines, %d halting" % (limit, out.strip(), len(tms), nh), limit=limit)
                return
            r.traces += len(tms)
    finally:
        shutil.rmtree(d)


def sl_one(job, r):
    """direct_sim: one process per (line, limit)."""
    fname, items = job
    for line, tm, limits in items:
        sim = ref.Sim(tm)
        for limit in sorted(limits):
            h, k = outcome(sim, limit)
            r.states += 1
            r.transitions += k
            try:
                out = cppbuild.run(BIN, "direct_sim", [fname, line, limit])
            except cppbuild.Crash as e:
                r.fail("sim-crash", str(e), tm=ref.tm_str(tm), limit=limit)
                return
            m = re.search(r"Simulated (\d+) in", out)
            hm = re.search(r"Halted at step (\d+)", out)
            got = (hm is not None, int(m.group(1)) if m else None)
            if got != (h, k) or (hm and int(hm.group(1)) != k):
                r.fail("sim", "direct_sim %s limit %d: %r, expected %s after %d steps"
                       % (ref.tm_str(tm), limit, out[-80:], "halted" if h else "running", k), tm=ref.tm_str(tm), limit=limit)
                return


def true_recurrence(tm, start, period, offset):
    """By definition: same state, same half tape beyond everything touched (shifted), so it repeats for ever."""
    a = ref.Sim(tm).seek(start)
    if a.halted or a.steps != start:
        return "it halts before step %d" % start
    qa, pa = a.state, a.pos
    span = {}
    b = ref.Sim(tm).seek(start)
    tr, pos = b.trace(period)
    if b.halted:
        return "it halts after %d steps" % b.steps
    lo, hi = min(list(pos) + [b.pos]), max(list(pos) + [b.pos])
    if b.state != qa or b.pos - pa != offset:
        return "state %d -> %d, head %d -> %d" % (qa, b.state, pa, b.pos)

    def get(s, x):
        return s.window(x, x)[0] if s.lo <= x <= s.hi else 0
    if offset == 0:
        rng = range(lo, hi + 1)
    elif offset > 0:
        rng = range(lo, max(a.hi, b.hi) + 1)
    else:
        rng = range(min(a.lo, b.lo), hi + 1)
    for x in rng:
        if get(a, x) != get(b, x + offset):
            return "tape cell %d differs from cell %d one period later" % (x, x + offset)
    # cells beyond the range that are non-blank one period later
    if offset > 0 and any(get(b, y) for y in range(max(rng) + 1 + offset, b.hi + 1)):
        return "tape differs"
    if offset < 0 and any(get(b, y) for y in range(b.lo, min(rng) + offset)):
        return "tape differs"
    return None


FIELDS = ("steps_run", "is_halted", "is_lin_recurrent", "start_step", "period", "offset", "last_state", "last_symbol")


def sl_lr(job, r):
    fname, items = job
    for line, tm, logs in items:
        text = ref.tm_str(tm)
        full = ref.Sim(tm)
        N = 4 << max(logs)
        tr, pos = full.trace(N)
        rec = None
        if not full.halted:
            rec = ref.recurrence(tr, pos, 1 << max(logs), 1 << max(logs))
        for lg in logs:
            limit = 1 << lg
            r.states += 1
            r.transitions += min(limit, len(tr))
            try:
                out = cppbuild.run(BIN, "lin_recur", [fname, line, lg])
            except cppbuild.Crash as e:
                r.fail("lr-crash", str(e), tm=text, log2=lg)
                return
            f = dict(re.findall(r"^(\w+): (-?\d+)$", out, re.M))
            try:
                f = {k: int(f[k]) for k in FIELDS if k in f}
                h, l, run = f["is_halted"], f["is_lin_recurrent"], f["steps_run"]
            except KeyError:
                r.fail("lr-output", "lin_recur %s: output %r" % (text, out[-200:]), tm=text, log2=lg)
                return
            want_h = full.halted and full.steps <= limit
            if h:
                bad = None
                if not full.halted or full.steps != run:
                    bad = "reports halting after %d steps; it %s" % (run, "halts after %d" % full.steps if full.halted else "does not")
                elif (f.get("last_state"), f.get("last_symbol")) != (full.from_state, full.from_symbol):
                    bad = "halts from (%d, %d), reported (%s, %s)" % (full.from_state, full.from_symbol, f.get("last_state"), f.get("last_symbol"))
                if bad or l:
                    r.fail("lr-halt", "lin_recur %s limit %d: %s" % (text, limit, bad or "both halting and recurrent"), tm=text, log2=lg)
                    return
                r.count("halting")
            elif want_h:
                r.fail("lr-missed-halt", "lin_recur %s limit %d does not report that it halts after %d steps" % (text, limit, full.steps), tm=text, log2=lg)
                return
            elif l:
                bad = true_recurrence(tm, f["start_step"], f["period"], f["offset"]) if f.get("period", 0) > 0 else "period not positive"
                if bad:
                    r.fail("lr-false", "lin_recur %s limit %d reports start %s period %s offset %s: %s"
                           % (text, limit, f.get("start_step"), f.get("period"), f.get("offset"), bad), tm=text, log2=lg)
                    return
                r.traces += 1
                r.count("recurrent")
            else:
                if run < limit:
                    r.fail("lr-steps", "lin_recur %s gave up after %d steps with limit %d" % (text, run, limit), tm=text, log2=lg)
                    return
                if rec and max(rec[0], rec[1]) <= limit // 2:
                    r.fail("lr-missed", "lin_recur %s limit %d does not find the recurrence start %d period %d shift %d"
                           % ((text, limit) + tuple(rec)), tm=text, log2=lg)
                    return
                r.count("undecided")


def sl_wide(job, r):
    """Recurrences on wide tapes: the reference first establishes that the listed recurrence is real, then
    lin_recur has to find a real one as soon as its limit is twice max(start, period), and nothing false before."""
    for text, start, period, offset in job[1]:
        tm = ref.parse(text)
        fname = os.path.join(job[0], text)
        open(fname, "w").write(text + "\n")
        bad = true_recurrence(tm, start, period, offset)
        if bad:
            raise vp.HarnessError("listed recurrence of %s is not one: %s" % (text, bad))
        top = 1
        while (1 << top) < 2 * max(start, period):
            top += 1
        for lg in range(max(0, top - 4), top + 1):
            r.states += 1
            r.transitions += 1 << lg
            try:
                out = cppbuild.run(BIN, "lin_recur", [fname, 1, lg])
            except cppbuild.Crash as e:
                r.fail("wide-crash", str(e), tm=text, log2=lg)
                return
            f = {k: int(v) for k, v in re.findall(r"^(\w+): (-?\d+)$", out, re.M)}
            if f.get("is_halted"):
                r.fail("wide-halt", "lin_recur %s limit 2^%d says that it halts" % (text, lg), tm=text, log2=lg)
            elif f.get("is_lin_recurrent"):
                bad = true_recurrence(tm, f["start_step"], f["period"], f["offset"]) if f.get("period", 0) > 0 else "period not positive"
                if bad:
                    r.fail("wide-false", "lin_recur %s limit 2^%d reports start %s period %s offset %s: %s"
                           % (text, lg, f.get("start_step"), f.get("period"), f.get("offset"), bad), tm=text, log2=lg)
                r.traces += 1
                r.count("wide recurrent")
            elif lg == top:
                r.fail("wide-missed", "lin_recur %s limit 2^%d does not find start %d period %d shift %d"
                       % (text, lg, start, period, offset), tm=text, log2=lg)


MIRROR = str.maketrans("LR", "RL")


def sl_deep(job, r):
    """Every machine that is still undecided at a small limit, run on until its tape has been enlarged several times:
    whatever is claimed then has to be true."""
    fname, items, lg = job
    for line, text in items:
        tm = ref.parse(text)
        r.states += 1
        r.transitions += 1 << lg
        try:
            out = cppbuild.run(BIN, "lin_recur", [fname, line, lg])
        except cppbuild.Crash as e:
            r.fail("deep-crash", str(e), tm=text, log2=lg)
            return
        f = {k: int(v) for k, v in re.findall(r"^(\w+): (-?\d+)$", out, re.M)}
        if f.get("is_halted"):
            r.fail("deep-halt", "lin_recur %s limit 2^%d says that it halts" % (text, lg), tm=text, log2=lg)
        elif f.get("is_lin_recurrent"):
            bad = true_recurrence(tm, f["start_step"], f["period"], f["offset"]) if f.get("period", 0) > 0 else "period not positive"
            if bad:
                r.fail("deep-false", "lin_recur %s limit 2^%d reports start %s period %s offset %s: %s"
                       % (text, lg, f.get("start_step"), f.get("period"), f.get("offset"), bad), tm=text, log2=lg)
            r.traces += 1
        else:
            r.count("undecided at 2^%d" % lg)


def lines_file(d, name, tms):
    p = os.path.join(d, name)
    open(p, "w").write("".join(ref.tm_str(t) + "\n" for t in tms))
    return p


def shapes():
    """Every cell value at every position, everything else undefined / a fixed rotation."""
    out = []
    dims = [(n, m) for n in range(1, 8) for m in range(2, 8)] + [(9, 9), (25, 2), (2, 9), (12, 3)] if vp.THOROUGH else \
           [(n, m) for n in range(1, 5) for m in range(2, 5)] + [(9, 2), (2, 9), (25, 2), (7, 7)]
    for n, m in dims:
        for q in range(n):
            for s in range(m):
                for c in ref.all_cells(n, m):
                    out.append(ref.set_cell(ref.blank(n, m), q, s, c))
    return out


def rotations():
    """Complete tables: cell i gets value (i * step + start) of the list of all values, for every start."""
    out = []
    for n, m in ((2, 2), (3, 2), (2, 3), (4, 3), (3, 4), (5, 5)):
        cells = ref.all_cells(n, m)
        for start in range(len(cells)):
            for step in (1, 3, 7):
                it = [cells[(start + step * i) % len(cells)] for i in range(n * m)]
                out.append(tuple(tuple(it[q * m:(q + 1) * m]) for q in range(n)))
    return out


def body(c):
    global BIN
    BIN = cppbuild.build()
    c.log("built")
    T = vp.THOROUGH
    d = tempfile.mkdtemp(prefix="vc20")
    try:
        all22 = list(ref.all_tms(2, 2, halts="all"))

        def tree(n, m, bound=None, filled=True):
            out = []
            for t, s in ref.tnf(n, m, True, True, bound):
                out.append(t)
                if filled and s > 0:
                    out.append(ref.fill_halt(t, s + 1))
            return out
        t32, t23 = tree(3, 2), tree(2, 3)
        t42 = tree(4, 2, 12 if T else 8, False)
        jobs = []
        for sl in vp.slices(all22, 8):
            jobs.append(("2x2", sl, list(range(0, 9)) + [300], None))
        for sl in vp.slices(t32, 8):
            jobs.append(("3x2", sl, list(range(0, 24)) + [120, 700], None))
        for sl in vp.slices(t23, 8):
            jobs.append(("2x3", sl, list(range(0, 41)) + [120, 700], None))
        for sl in vp.slices(t42, 8):
            jobs.append(("4x2", sl, [0, 1, 7, 8, 9, 60, 400], None))
        sh = shapes() + rotations()
        for sl in vp.slices(sh, 8):
            jobs.append(("shapes", sl, [0, 1, 5, 120], None))
        # text after the machine is ignored
        extra = [" Halt 5", "\tx", ", 3", "#c", "| Lin_Recur 1 2 <3", " "]
        jobs.append(("comments", all22[:3000], [3], [extra[i % len(extra)] for i in range(3000)]))
        # long runs: all known long-running halting machines
        big = load_long(50 * 10 ** 6 if not T else 10 ** 9)
        for text, steps in big:
            jobs.append(("long", [ref.parse(text)], [steps - 1, steps, steps + 1], None))
        c.log("long-running machines", len(big))
        c.run(sl_all, jobs, "direct_sim_all")
        # direct_sim
        t22 = tree(2, 2)
        f22, f32, f23 = lines_file(d, "a", t22), lines_file(d, "b", t32), lines_file(d, "c", t23)
        items = [(f22, [(i + 1, t, range(0, 9))]) for i, t in enumerate(t22)]
        lim = (0, 1, 2, 5, 21, 22, 300) if T else (21, 300)
        items += [(f32, [(i + 1, t, lim) for i, t in ch]) for ch in vp.slices([x for x in enumerate(t32)][:(None if T else 4000)], 32)]
        c.run(sl_one, items, "direct_sim")
        # lin_recur
        jobs = [(f22, [(i + 1, t, range(0, 8))]) for i, t in enumerate(t22)]
        r32 = tree(3, 2, None, False)
        r23 = tree(2, 3, None, False)
        fr32, fr23 = lines_file(d, "e", r32), lines_file(d, "f", r23)
        short = [(i, t) for i, t in enumerate(r32)]
        jobs += [(fr32, [(i + 1, t, (0, 1, 2, 3, 4, 5, 7, 9) if T else (8,)) for i, t in ch]) for ch in vp.slices(short, 32)]
        jobs += [(fr23, [(i + 1, t, (0, 1, 2, 3, 4, 5, 7, 9) if T else (7,)) for i, t in ch]) for ch in vp.slices(list(enumerate(r23)), 32)]
        s32 = [t for t, s in ref.tnf(3, 2, True, True, 4)]
        fs = lines_file(d, "g", s32)
        jobs += [(fs, [(i + 1, t, range(0, 6)) for i, t in ch]) for ch in vp.slices(list(enumerate(s32)), 16)]
        # machines that halt on their first steps, in every way
        first = [ref.set_cell(ref.blank(2, 2), 0, 0, x) for x in ref.all_cells(2, 2)] + [ref.blank(1, 2), ref.blank(3, 3)]
        ff = lines_file(d, "h", first)
        jobs += [(ff, [(i + 1, t, range(0, 4)) for i, t in enumerate(first)])]
        # recurrences with long transients / periods
        lr = [ref.parse(x) for x in load_lr()]
        fl = lines_file(d, "l", lr)
        jobs += [(fl, [(i + 1, t, (6, 8, 10, 11) if not T else range(0, 13)) for i, t in ch]) for ch in vp.slices(list(enumerate(lr)), 8)]
        c.log("lin_recur machines", len(t22), len(r32), len(r23), len(s32), len(lr))
        c.run(sl_lr, jobs, "lin_recur")
        deep = [ref.tm_str(t) for n, m in ((3, 2), (2, 3)) for t, _ in ref.tnf(n, m, True, True, mode="run")]
        deep += [x.translate(MIRROR) for x in deep]
        fd = os.path.join(d, "deep")
        open(fd, "w").write("".join(x + "\n" for x in deep))
        top = 18 if T else 15
        c.run(sl_deep, [(fd, ch, top) for ch in vp.slices([(i + 1, x) for i, x in enumerate(deep)], 128)], "deep lin_recur")
        wide = [l.split() for l in open(os.path.join(vp.VERIF, "data", "lr_wide.txt"))]
        wide = [(w[0], int(w[1]), int(w[2]), int(w[3])) for w in wide]
        wide.sort(key=lambda w: -w[1])
        c.run(sl_wide, [(d, [w]) for w in wide], "wide lin_recur")
    finally:
        shutil.rmtree(d)
    c.extra["bounds"] = {"direct_sim_all": "all 13^4 2x2 tables x 10 limits; all tree machines 3x2 and 2x3 (with and without the halting cell) x every limit up to the class bound and beyond; "
                         "4x2 tree machines; every cell value in every position of %d table shapes; %d long-running halting machines at limit steps-1, steps, steps+1" % (16, len(big)),
                         "lin_recur": "all tree machines 2x2 (limits 1..128), 3x2, 2x3; all non-halting 3x2 and 2x3 tree machines and their mirror images on to 2^15 steps; the %d known long recurrences of data/lr_wide.txt (mirror images included, up to 6767 cells to the left)" % len(wide)}


def load_long(cap):
    out = []
    import glob
    for p in sorted(glob.glob(os.path.join(vp.VERIF, "data", "*"))):
        base = os.path.basename(p)
        if base.startswith(("champions", "halting_")):
            for line in open(p):
                w = line.split()
                if base.startswith("champions"):
                    w = [w[0], w[3]]
                if len(w) >= 2 and "_" in w[0] and w[1].isdigit() and int(w[1]) <= cap:
                    out.append((w[0], int(w[1])))
    return sorted(set(out))


def load_lr():
    import glob
    out = []
    for p in sorted(glob.glob(os.path.join(vp.VERIF, "data", "lr_4*"))):
        for line in open(p):
            w = line.split()
            if w and "_" in w[0]:
                out.append(w[0])
    return out


if __name__ == "__main__":
    vp.main(body, "C20")
