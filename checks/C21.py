"""C21: C++ enumerators: complete, exact classification, splitting, lazy beaver."""
import os, sys, re, gzip, tempfile, shutil, subprocess
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref, cppbuild
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from C20 import true_recurrence

BIN = NOBOOST = None


def children(tm, q, s):
    """The tree-normal-form children of a machine whose undefined cell (q, s) is executed."""
    n, m = len(tm), len(tm[0])
    used = [c for row in tm for c in row if c is not None]
    ms = min(n - 1, max([0] + [c[2] for c in used]) + 1)
    my = min(m - 1, max([0] + [c[0] for c in used]) + 1)
    for nq in range(ms + 1):
        for ny in range(my + 1):
            for d in (1, 0):
                if d == 1 or used:
                    yield ref.set_cell(tm, q, s, (ny, d, nq))


def undefined(tm):
    return sum(c is None for row in tm for c in row)


def read(d, name, gz=False):
    p = os.path.join(d, name + (".gz" if gz else ""))
    data = (gzip.open(p, "rt") if gz else open(p)).read()
    lines = data.split("\n")
    return lines[:-1] if lines[-1] == "" else lines


def lr(d, binary, pre, args, opts, prog="lr_enum"):
    """Run lr_enum / lr_enum_continue; returns (halt, inf, unknown lines, stats)."""
    files = [os.path.join(d, pre + x) for x in ("h", "i", "u")]
    anh, gz, only = opts
    a = list(args) + files + (["7"] if prog.endswith("continue") else [])
    a += ["true" if anh else "false"]
    if gz or only:
        a += ["true" if gz else "false"]
    if only:
        a += ["true"]
    out = cppbuild.run(binary, prog, a, timeout=600)
    res = [read(d, pre + x, gz) for x in ("h", "i", "u")]
    st = re.search(r"Final.*Total: (\d+)\s+Halt: (\d+)\s+Infinite: (\d+)\s+Unknown: (\d+)", out)
    return res, tuple(map(int, st.groups())) if st else None, out


def walk(roots, where, limit, anh, what, r, job):
    """The tree below the given machines, independently of the code under test; `where` has the written lines."""
    todo = list(roots)
    seen = 0
    K = 2
    while K < 2 * limit:
        K *= 2
    while todo:
        tm = todo.pop()
        t = ref.tm_str(tm)
        seen += 1
        r.states += 1
        if t not in where:
            r.fail("lr-missing", "%s: %s is in no output" % (what, t), job=job, tm=t)
            return False
        kind, line = where[t]
        s = ref.Sim(tm).seek(K)
        r.transitions += s.steps
        if kind == "h":
            if not s.halted or line != "%s | Halt %d" % (t, s.steps):
                r.fail("lr-halt", "%s: %r, but it %s" % (what, line, "halts after %d steps" % s.steps if s.halted else "does not halt"), job=job, tm=t)
                return False
            if anh or undefined(tm) > 1:
                todo += list(children(tm, s.from_state, s.from_symbol))
        else:
            if s.halted and s.steps <= limit:
                r.fail("lr-nohalt", "%s: %s is written as %s, it halts after %d steps" % (what, t, "infinite" if kind == "i" else "unknown", s.steps), job=job, tm=t)
                return False
            if kind == "i":
                g = re.fullmatch(r"\S+ \| Lin_Recur (\d+) (-?\d+) <(\d+)", line)
                bad = "line %r" % line if not g or int(g.group(1)) <= 0 else true_recurrence(tm, int(g.group(3)), int(g.group(1)), int(g.group(2)))
                if bad:
                    r.fail("lr-false", "%s: %r is not a recurrence: %s" % (what, line, bad), job=job, tm=t)
                    return False
                r.traces += 1
            else:
                a = ref.Sim(tm)
                tr, pos = a.trace(2 * K + 2)
                rec = ref.recurrence(tr, pos, max(1, limit // 2), max(1, limit // 2)) if not a.halted else None
                if rec and max(rec[0], rec[1]) <= limit // 2:
                    r.fail("lr-unknown", "%s: %s is left unknown although it repeats from step %d with period %d" % (what, t, rec[0], rec[1]), job=job, tm=t)
                    return False
    if seen != len(where):
        r.fail("lr-extra", "%s: %d machines written, only %d belong to the tree" % (what, len(where), seen), job=job)
        return False
    return True


def sl_lr(job, r):
    n, m, limit, anh = job
    d = tempfile.mkdtemp(prefix="vc21")
    what = "lr_enum %d %d %d allow_no_halt=%s" % (n, m, limit, anh)
    try:
        try:
            res, stats, out = lr(d, BIN, "x", [n, m, limit], (anh, False, False))
        except cppbuild.Crash as e:
            r.fail("lr-crash", str(e), job=job)
            return
        halt, inf, unk = res
        where = {}
        for kind, lines in zip("hiu", res):
            for l in lines:
                t = l.split()[0]
                if t in where:
                    r.fail("lr-twice", "%s: %s is written twice" % (what, t), job=job, tm=t)
                    return
                where[t] = (kind, l)
        if stats != (len(where), len(halt), len(inf), len(unk)):
            r.fail("lr-stats", "%s: says %s, wrote %s" % (what, stats, (len(where), len(halt), len(inf), len(unk))), job=job)
            return
        if not walk([ref.set_cell(ref.blank(n, m), 0, 0, (1, 1, 1))], where, limit, anh, what, r, job):
            return
        r.count("lr runs")
        # options and builds give the same files
        for binary, gz, only, label in ((BIN, True, False, "compressed"), (BIN, False, True, "only unknown"), (BIN, True, True, "compressed, only unknown"),
                                        (NOBOOST, False, False, "without Boost"), (NOBOOST, False, True, "without Boost, only unknown")):
            try:
                res2, st2, out = lr(d, binary, "o", [n, m, limit], (anh, gz, only))
            except (cppbuild.Crash, OSError, EOFError) as e:
                r.fail("lr-crash", "%s (%s): %s" % (what, label, e), job=job)
                return
            want = [[], [], unk] if only else res
            if st2 != stats or [Counter(x) for x in res2] != [Counter(x) for x in want]:
                r.fail("lr-options", "%s (%s): output differs: %s lines, stats %s instead of %s"
                       % (what, label, [len(x) for x in res2], st2, stats), job=job)
                return
            for x in "hiu":
                for suf in ("", ".gz"):
                    if os.path.exists(os.path.join(d, "o" + x + suf)):
                        os.unlink(os.path.join(d, "o" + x + suf))
            r.count("option runs")
        # every split depth
        for init in range(0, min(limit, 10 if vp.THOROUGH else 6)):
            for via in (None, init + 2):
                try:
                    a, st, out = lr(d, BIN, "a", [n, m, init], (anh, False, False))
                    parts = [a]
                    fin = os.path.join(d, "au")
                    if via is not None and via < limit:
                        b, st, out = lr(d, BIN, "b", [fin, via], (anh, False, False), "lr_enum_continue")
                        parts.append(b)
                        fin = os.path.join(d, "bu")
                    # split the remaining work into 3 parts with the repository's script
                    sh = subprocess.run(["/opt/venv/bin/python", "-B", os.path.join(vp.REPO, "cpp", "scripts", "shuffle_split.py"), fin, "3"],
                                        capture_output=True, text=True)
                    if sh.returncode:
                        r.fail("split", "shuffle_split.py failed: %s" % sh.stderr[-300:], job=job)
                        return
                    got = [Counter(), Counter(), Counter()]
                    for p in parts:
                        got[0].update(p[0])
                        got[1].update(p[1])
                    for k in range(3):
                        p, st, out = lr(d, BIN, "p", ["%s.part_%d_of_3" % (fin, k), limit], (anh, False, False), "lr_enum_continue")
                        if st != (sum(map(len, p)),) + tuple(map(len, p)):
                            r.fail("lr-stats", "lr_enum_continue in %s: says %s, wrote %s" % (what, st, [len(x) for x in p]), job=job)
                            return
                        for i in range(3):
                            got[i].update(p[i])
                except cppbuild.Crash as e:
                    r.fail("lr-crash", "%s split at %d: %s" % (what, init, e), job=job)
                    return
                r.count("split runs")
                if got != [Counter(x) for x in res]:
                    i = next(i for i in range(3) if got[i] != Counter(res[i]))
                    r.fail("lr-split", "%s split at %d%s: %s output differs: extra %s missing %s"
                           % (what, init, "" if via is None else " and %d" % via, ("halt", "infinite", "unknown")[i],
                              list(got[i] - Counter(res[i]))[:2], list(Counter(res[i]) - got[i])[:2]), job=job, split=init)
                    return
    finally:
        shutil.rmtree(d)


def sl_cont(job, r):
    """Continuation from machines given in a file."""
    roots, limit, anh = job
    d = tempfile.mkdtemp(prefix="vc21")
    what = "lr_enum_continue from %s limit %d allow_no_halt=%s" % (roots[0], limit, anh)
    try:
        fin = os.path.join(d, "in")
        open(fin, "w").write("".join(x + "\n" for x in roots))
        for only in (False, True):
            try:
                res, stats, out = lr(d, BIN, "x", [fin, limit], (anh, False, only), "lr_enum_continue")
            except cppbuild.Crash as e:
                r.fail("cont-crash", str(e), job=job)
                return
            if only:
                if res[0] or res[1] or res[2] != unk or stats != st:
                    r.fail("cont-only", "%s: writing only unknown machines gives other machines" % what, job=job)
                return
            unk, st = res[2], stats
            where = {}
            for kind, lines in zip("hiu", res):
                for l in lines:
                    if l.split()[0] in where:
                        r.fail("cont-twice", "%s: %s is written twice" % (what, l.split()[0]), job=job)
                        return
                    where[l.split()[0]] = (kind, l)
            if stats != (len(where),) + tuple(map(len, res)):
                r.fail("cont-stats", "%s: says %s, wrote %s" % (what, stats, list(map(len, res))), job=job)
                return
            if not walk([ref.parse(x) for x in roots], where, limit, anh, what, r, job):
                return
            r.count("continuations from given machines")
    finally:
        shutil.rmtree(d)


def chains():
    """Partial machines of every shape that have just used k states and symbols one after the other."""
    for k in (1, 3, 7, 15):     # so that the undefined cell is executed at step 2, 4, 8, 16 (recurrence search doubles)
        for n in range(k + 1, k + 5):
            for m in (2, 3, 4, 6, 9):
                tm = ref.blank(n, m)
                for q in range(k):
                    tm = ref.set_cell(tm, q, 0, (min(q + 1, m - 1), 1 - q % 2 if q == k - 1 and q else 1, min(q + 1, n - 1)))
                s = ref.Sim(tm).seek(4 * n)
                if s.halted and s.steps == k + 1:
                    yield ref.tm_str(tm), s.steps, n * m


MIRROR = str.maketrans("LR", "RL")


def wide_halting():
    """Known halting machines that leave the first hundred cells, and their mirror images."""
    for line in open(os.path.join(vp.VERIF, "data", "halting_5x2.txt")):
        t, k = line.split()
        if int(k) < 20000:
            s = ref.Sim(ref.parse(t)).seek(int(k) + 1)
            if s.lo < -50 or s.hi > 49:
                yield t, int(k)
                yield t.translate(MIRROR), int(k)


def witnesses(lines):
    return [(int(l.split("\t")[0]), l.split("\t")[1]) for l in lines]


def lb_tree(n, m, limit):
    """(halting [(tm, steps)], running machines) of the tree with free first transition, halting within `limit`."""
    halt, run = [], []
    todo = [ref.blank(n, m)]
    while todo:
        tm = todo.pop()
        s = ref.Sim(tm).seek(limit)
        if s.halted:
            halt.append((tm, s.steps))
            if undefined(tm) > 1:
                todo += list(children(tm, s.from_state, s.from_symbol))
        else:
            run.append(tm)
    return halt, run


def check_wit(lines, allowed_steps, what, r, job, limit):
    seen = set()
    for k, t in witnesses(lines):
        s = ref.Sim(ref.parse(t)).seek(limit)
        if not s.halted or s.steps != k:
            r.fail("lb-witness", "%s: witness %s for %d steps %s" % (what, t, k, "halts after %d" % s.steps if s.halted else "does not halt"), job=job)
            return False
        if k in seen:
            r.fail("lb-witness-twice", "%s: two witnesses for %d steps" % (what, k), job=job)
            return False
        seen.add(k)
    if seen != allowed_steps:
        r.fail("lb-steps", "%s: realised step counts differ: extra %s missing %s" % (what, sorted(seen - allowed_steps)[:5], sorted(allowed_steps - seen)[:5]), job=job)
        return False
    return True


def sl_lb(job, r):
    n, m, limit = job
    what = "lb_enum %d %d %d" % (n, m, limit)
    d = tempfile.mkdtemp(prefix="vc21")
    try:
        halt, run = lb_tree(n, m, limit)
        r.states += len(halt) + len(run)
        r.transitions += sum(k for _, k in halt) + limit * len(run)
        steps = {k for _, k in halt}
        missing = min(i for i in range(1, limit + 3) if i not in steps)
        w, u = os.path.join(d, "w"), os.path.join(d, "u")
        try:
            out = cppbuild.run(BIN, "lb_enum", [n, m, limit, w, u], timeout=600)
        except cppbuild.Crash as e:
            r.fail("lb-crash", str(e), job=job)
            return
        if not check_wit(read(d, "w"), steps, what, r, job, limit):
            return
        want = Counter(ref.tm_str(t) for t in run)
        got = Counter(read(d, "u"))
        if want != got:
            r.fail("lb-nonhalt", "%s: machines left running differ: extra %s missing %s" % (what, list(got - want)[:3], list(want - got)[:3]), job=job)
            return
        st = {k: int(v) for k, v in re.findall(r"# TMs (simulated|halted) = (\d+)", out)}
        if st != {"simulated": len(halt) + len(run), "halted": len(halt)}:
            r.fail("lb-stats", "%s: says %s instead of %d, %d halted" % (what, st, len(halt) + len(run), len(halt)), job=job)
            return
        g = re.search(r"^LB\((\d+), (\d+)\) = (\d+)", out, re.M)
        if g:
            if missing > limit:
                r.fail("lb-early", "%s: says %s although every count up to the limit is reached" % (what, g.group(0)), job=job)
            elif tuple(map(int, g.groups())) != (n, m, missing):
                r.fail("lb-value", "%s: says %s, the smallest missing count is %d" % (what, g.group(0), missing), job=job)
        elif missing < limit:
            r.fail("lb-silent", "%s: no value although %d steps are never reached" % (what, missing), job=job)
        # split
        for init in range(0, min(limit, 10 if vp.THOROUGH else 7)):
            try:
                cppbuild.run(BIN, "lb_enum", [n, m, init, os.path.join(d, "s0"), os.path.join(d, "i")])
                sh = subprocess.run(["/opt/venv/bin/python", "-B", os.path.join(vp.REPO, "cpp", "scripts", "shuffle_split.py"), os.path.join(d, "i"), "3"],
                                    capture_output=True, text=True)
                total = 0
                for k in range(3):
                    o = cppbuild.run(BIN, "lb_enum_continue", [os.path.join(d, "i.part_%d_of_3" % k), limit, os.path.join(d, "s%d" % (k + 1)), k])
                    total += int(re.search(r"# TMs simulated = (\d+)", o).group(1))
            except (cppbuild.Crash, AttributeError) as e:
                r.fail("lb-crash", "%s split at %d: %s" % (what, init, e), job=job)
                return
            h0, r0 = lb_tree(n, m, init)
            expect = len(halt) + len(run) - len(h0)
            if total != expect:
                r.fail("lb-split-count", "%s split at %d: the continuation simulated %d machines instead of %d" % (what, init, total, expect), job=job, split=init)
                return
            for k in range(4):
                for kk, t in witnesses(read(d, "s%d" % k)):
                    s = ref.Sim(ref.parse(t)).seek(limit)
                    if not s.halted or s.steps != kk:
                        r.fail("lb-witness", "%s split: witness %s for %d" % (what, t, kk), job=job)
                        return
            mg = subprocess.run(["/opt/venv/bin/python", "-B", os.path.join(vp.REPO, "cpp", "scripts", "merge_steps_examples.py")]
                                + [os.path.join(d, "s%d" % k) for k in range(4)], capture_output=True, text=True)
            lines = mg.stdout.splitlines()
            if mg.returncode or not check_wit(lines, steps, what + " split at %d, merged" % init, r, job, limit):
                r.fail("lb-merge", "%s: merge_steps_examples failed: %s" % (what, mg.stderr[-200:]), job=job)
                return
            holes = [i for i in range(1, max(steps or {0})) if i not in steps]
            e = dict(re.findall(r"^(Min|Total) un-attained steps:(.*)$", mg.stderr, re.M))
            if [int(x) for x in e.get("Min", "").split()] != holes[:20] or int(e.get("Total", "-1")) != len(holes):
                r.fail("lb-merge", "%s: merge_steps_examples reports missing counts %s, total %s instead of %s"
                       % (what, e.get("Min"), e.get("Total"), holes[:20]), job=job)
                return
            r.count("split runs")
        r.traces += len(run)
    finally:
        shutil.rmtree(d)


def sl_lb_known(job, r):
    """Larger classes: only the value (proven lazy beaver numbers) and the witnesses."""
    n, m, limit, value = job
    d = tempfile.mkdtemp(prefix="vc21")
    try:
        w = os.path.join(d, "w")
        out = cppbuild.run(BIN, "lb_enum", [n, m, limit, w], timeout=1200)
        r.states += int(re.search(r"# TMs simulated = (\d+)", out).group(1))
        if "LB(%d, %d) = %d\n" % (n, m, value) not in out:
            r.fail("lb-known", "lb_enum %d %d %d: %r, known value %d" % (n, m, limit, out[-60:], value), job=job)
        for k, t in witnesses(read(d, "w")):
            s = ref.Sim(ref.parse(t)).seek(limit)
            if not s.halted or s.steps != k:
                r.fail("lb-witness", "lb_enum %d %d: witness %s for %d steps" % (n, m, t, k), job=job)
                return
    except cppbuild.Crash as e:
        r.fail("lb-crash", str(e), job=job)
    finally:
        shutil.rmtree(d)


def body(c):
    global BIN, NOBOOST
    BIN = cppbuild.build()
    NOBOOST = cppbuild.build(boost=False)
    c.log("built")
    T = vp.THOROUGH
    jobs = [(2, 2, l, a) for l in list(range(0, 20)) + [31, 32, 33, 64, 100] for a in (False, True)]
    jobs += [(3, 2, l, a) for l in ([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 128] if T else [1, 3, 8, 13, 16, 40, 64]) for a in (False, True)]
    jobs += [(2, 3, l, a) for l in ([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 128] if T else [1, 4, 9, 16, 33, 64]) for a in (False, True)]
    jobs += [(3, 3, l, False) for l in ((3, 5) if T else (3, 4))] + [(4, 2, l, False) for l in ((4, 6, 7) if T else (4, 6))] + [(2, 4, l, a) for l in ((3, 5, 6) if T else (3, 5)) for a in (False, True)]
    jobs.sort(key=lambda j: -(j[0] * j[1] * 1000 + j[2]))
    c.run(sl_lr, jobs, "lr_enum")
    ch = list(chains())
    jobs = [([t], k, a) for t, k, z in ch for a in (False, True)] + [([t], 2 * k, False) for t, k, z in ch if k < (5 if T else 3)]
    jobs += [(x, 16, a) for x in vp.slices([t for t, k, z in ch if k == 16], 1) for a in (False, True)]
    wide = list(wide_halting())
    jobs = [([t], lim, a) for t, k in wide for lim in (k - 1, k, k + 200) for a in (False, True)] + jobs
    c.run(sl_cont, jobs, "lr_enum_continue")
    c.log("chains", len(ch), "wide halting", len(wide))
    jobs = [(1, 2, l) for l in range(0, 5)] + [(1, 3, l) for l in range(0, 4)] + [(2, 2, l) for l in range(0, 12)]
    jobs += [(3, 2, l) for l in (range(0, 30) if T else (0, 1, 4, 9, 20, 21, 22, 23, 30))] + [(2, 3, l) for l in (range(0, 45) if T else (1, 5, 22, 23, 24, 40))]
    jobs += [(3, 3, l) for l in ((3, 4) if T else (3,))] + [(4, 2, l) for l in ((3, 5, 6) if T else (3, 5))] + [(2, 4, l) for l in ((3, 5) if T else (3,))]
    jobs.sort(key=lambda j: -(j[0] * j[1] * 1000 + j[2]))
    c.run(sl_lb, jobs, "lb_enum")
    known = [(4, 2, 110, 72), (2, 4, 120, 93), (2, 4, 4100, 93)] + ([(3, 3, 400, 351)] if T else [])
    c.run(sl_lb_known, known, "known values")
    c.extra["bounds"] = "lr_enum and lb_enum with all listed class sizes and step limits (every limit around powers of two), all option combinations, builds with and without Boost, all initial depths of split runs incl. two-stage continuation; continuation from chain machines of using 2..16 of up to 19 states, 2..9 symbols, and from all listed 5x2 machines (and mirror images) that halt after leaving the first hundred tape cells"


if __name__ == "__main__":
    vp.main(body, "C21")
