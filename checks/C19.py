"""C19: normal forms, start-state permutation and neighbour listing."""
import os, sys, io, itertools
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref

HALT = (1, 1, -1)


def std(tm):
    """Halting cells standardised to 1RZ (undefined cells stay undefined)."""
    return tuple(tuple(HALT if c is not None and c[2] < 0 else c for c in row) for row in tm)


def rename(tm, so, yo, mirror):
    """so[new state] = old state, yo[new symbol] = old symbol."""
    sn = {o: i for i, o in enumerate(so)}
    yn = {o: i for i, o in enumerate(yo)}

    def cell(c):
        if c is None or c[2] < 0:
            return c
        return (yn[c[0]], c[1] ^ mirror, sn[c[2]])
    return tuple(tuple(cell(tm[q][s]) for s in yo) for q in so)


def orders(k, fix0=True):
    if fix0:
        return [(0,) + p for p in itertools.permutations(range(1, k))]
    return list(itertools.permutations(range(k)))


def tree_form(tm, limit):
    """(tree normal form, number of transitions needed to settle it) or (None, None) within `limit` steps.

    By the definition of the enumeration: the first move is to the right, and each executed transition
    may only use known states and symbols or the next new one."""
    n, m = len(tm), len(tm[0])
    so, yo = [0], [0]
    tape, pos, q = {}, 0, 0
    first = None
    for k in range(1, limit + 1):
        c = tm[q][tape.get(pos, 0)]
        run = c is not None and c[2] >= 0
        if first is None:
            first = c
        if run:
            if c[2] not in so:
                so.append(c[2])
            if c[0] not in yo:
                yo.append(c[0])
        s2, y2 = list(so), list(yo)
        if len(so) == n - 1:
            s2 += set(range(n)) - set(so)
        if len(yo) == m - 1:
            y2 += set(range(m)) - set(yo)
        if len(s2) == n and len(y2) == m:
            mirror = 1 if (first is not None and first[1] == 0) else 0
            return rename(std(tm), s2, y2, mirror), k
        if not run:
            return None, None
        tape[pos] = c[0]
        pos += 1 if c[1] else -1
        q = c[2]
    return None, None


def lnf_text(tm):
    n, m = len(tm), len(tm[0])
    t = std(tm)
    return min(ref.tm_str(rename(t, so, yo, mi)) for so in orders(n, False) for yo in orders(m, False) for mi in (0, 1))


def one_tnf(tm, r, limit, group=True):
    import TNF, IO
    n, m = len(tm), len(tm[0])
    want, k = tree_form(tm, limit + 5)
    variants = [(so, yo, mi) for so in orders(n) for yo in orders(m) for mi in (0, 1)] if group else [(tuple(range(n)), tuple(range(m)), 0)]
    first = tm[0][0]
    for so, yo, mi in variants:
        v = rename(tm, so, yo, mi)
        if mi and first is not None and first[2] < 0:
            # halting first cell: its direction is mirrored as well
            v = ref.set_cell(v, 0, 0, (first[0], 1 - first[1], -1))
        text = ref.tm_str(v)
        obj = IO.parse_tm(text)
        before = obj.ttable_str()
        got = TNF.to_TNF(obj, limit)
        r.states += 1
        r.transitions += 1
        if obj.ttable_str() != before:
            r.fail("tnf-modifies", "to_TNF modified its input %s" % text, tm=text)
            return
        if got is None:
            if want is not None and k <= limit:
                r.fail("tnf-none", "to_TNF(%s, %d) finds nothing; its tree normal form %s is settled after %d steps"
                       % (text, limit, ref.tm_str(want), k), tm=text)
                return
            continue
        g = got.ttable_str()
        if want is None:
            r.fail("tnf-invented", "to_TNF(%s, %d) = %s although some states or symbols are not ordered by then" % (text, limit, g), tm=text)
            return
        if mi and first is None:
            continue   # no first move: mirroring is not decided by anything
        if g != ref.tm_str(want):
            r.fail("tnf-wrong", "to_TNF(%s) = %s instead of %s" % (text, g, ref.tm_str(want)), tm=text, got=g, want=ref.tm_str(want))
            return
        if (int(got.init_state), got.init_symbol) != (0, 0):
            r.fail("tnf-start", "to_TNF(%s) starts in %s on %s" % (text, got.init_state, got.init_symbol), tm=text)
            return
        again = TNF.to_TNF(got, limit)
        if again is None or again.ttable_str() != g:
            r.fail("tnf-again", "to_TNF(%s) = %s, but converting that again gives %s" % (text, g, again and again.ttable_str()), tm=text)
            return
    if want is not None:
        # the oracle itself: runs are the same step for step (renamed)
        a = ref.Sim(tm)
        b = ref.Sim(want)
        ta, pa = a.trace(60)
        tb, pb = b.trace(60)
        h = 1 if a.halted else 0
        if len(ta) != len(tb) or a.halted != b.halted or any(abs(x) != abs(y) for x, y in zip(pa, pb)):
            raise vp.HarnessError("oracle")
        r.traces += 1
        r.count("tree normal form found")
    else:
        r.count("no tree normal form")


def sl_tnf(part, r):
    for tm in part:
        one_tnf(tm, r, 60)


def sl_tnf_limits(part, r):
    for tm in part:
        for limit in range(0, 9):
            one_tnf(tm, r, limit, group=False)


def sl_lnf(part, r):
    import LNF, IO
    for tm in part:
        n, m = len(tm), len(tm[0])
        text = ref.tm_str(tm)
        want = lnf_text(tm)
        obj = IO.parse_tm(text)
        for turn in range(2):
            before = obj.ttable_str()
            start = (int(obj.init_state), obj.init_symbol)
            got = LNF.brute_lnf(obj)
            r.states += 1
            r.transitions += 1
            if obj.ttable_str() != before:
                r.fail("lnf-modifies", "brute_lnf modified its input %s" % before, tm=before)
                break
            g = got.ttable_str()
            if g != want:
                r.fail("lnf-wrong", "brute_lnf(%s) = %s instead of %s" % (before, g, want), tm=before, got=g, want=want)
                break
            # start state and blank symbol: some renaming carries input to output and start to start
            t = std(ref.parse(before))
            gs = (int(got.init_state), got.init_symbol)
            if not any(so[gs[0]] == start[0] and yo[gs[1]] == start[1] and ref.tm_str(rename(t, so, yo, mi)) == g
                       for so in orders(n, False) for yo in orders(m, False) for mi in (0, 1)):
                r.fail("lnf-start", "brute_lnf(%s) started in %s on blank %d = %s started in %d on blank %d, which runs differently"
                       % (before, start[0], start[1], g, gs[0], gs[1]), tm=before)
                break
            obj = got


def starts(tm, limit):
    """Per start state: (admissible results, machine)."""
    n, m = len(tm), len(tm[0])
    t = std(tm)
    for s in range(n):
        so = [s] + [q for q in range(n) if q != s]
        x = rename(t, so, range(m), 0)
        want, k = tree_form(x, limit + 5)
        ok = set()
        if want is not None:
            ok.add(ref.tm_str(want))
        if want is None or k > limit:
            for p in orders(n):
                for yo in orders(m):
                    for mi in (0, 1):
                        ok.add(ref.tm_str(rename(x, p, yo, mi)))
        yield ok


def match(gots, oks):
    """Perfect matching of results to expectations (small)."""
    if len(gots) != len(oks):
        return False
    if not gots:
        return True
    # group identical expectations; with canonical results this is a bipartite matching
    used = [-1] * len(oks)

    def aug(i, seen):
        for j, ok in enumerate(oks):
            if j not in seen and gots[i] in ok:
                seen.add(j)
                if used[j] < 0 or aug(used[j], seen):
                    used[j] = i
                    return True
        return False
    return all(aug(i, set()) for i in range(len(gots)))


def sl_perm(part, r):
    import Permute, IO
    for tm in part:
        text = ref.tm_str(tm)
        for limit in (0, 2, 60):
            obj = IO.parse_tm(text)
            gots = [x.ttable_str() for x in Permute.permute_start_state(obj, limit)]
            r.states += 1
            r.transitions += len(gots)
            if obj.ttable_str() != text:
                r.fail("perm-modifies", "permute_start_state modified its input %s" % text, tm=text)
                break
            oks = list(starts(tm, limit))
            if not match(gots, oks):
                r.fail("perm", "permute_start_state(%s, %d) gives %s, expected (one of each of) %s"
                       % (text, limit, gots, [sorted(o)[:4] for o in oks]), tm=text, limit=limit)
                break


def neighbours(tm):
    n, m = len(tm), len(tm[0])
    for q in range(n):
        for s in range(m):
            c = tm[q][s]
            if c is not None and c[2] >= 0:
                for d in ref.all_cells(n, m, halts=False, undef=False):
                    if d != c:
                        yield ref.set_cell(tm, q, s, d)


def sl_adj(part, r):
    import Adjacent, IO
    for tm in part:
        text = ref.tm_str(tm)
        obj = IO.parse_tm(text)
        gots = []
        for x in Adjacent.adjacent(obj):
            gots.append(x.ttable_str())
        r.states += 1
        r.transitions += len(gots)
        if obj.ttable_str() != text:
            r.fail("adj-modifies", "adjacent modified its input %s" % text, tm=text)
            continue
        want = Counter(ref.tm_str(t) for t in neighbours(tm))
        have = Counter(gots)
        if want != have:
            miss, extra = list((want - have))[:3], list((have - want))[:3]
            r.fail("adj", "adjacent(%s): %d machines instead of %d; missing %s, unexpected or repeated %s"
                   % (text, len(gots), sum(want.values()), miss, extra), tm=text)


def run_main(mod, argv, stdin):
    old = sys.argv, sys.stdin, sys.stdout
    out = io.StringIO()
    try:
        sys.argv = ["x"] + argv
        sys.stdin = io.StringIO(stdin)
        sys.stdout = out
        mod.main()
    finally:
        sys.argv, sys.stdin, sys.stdout = old
    return out.getvalue().splitlines()


def sl_mains(part, r):
    """The programs: a list on stdin and one machine as argument; output line by line in input order."""
    import TNF, Permute, Adjacent, LNF
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="vc19")
    try:
        texts = [ref.tm_str(t) for t in part]
        for limit in (2, 60):
            outs = run_main(TNF, ["--max-steps", str(limit)], "".join(t + "\n" for t in texts))
            for how, lines in (("list", outs),
                               ("single", sum((run_main(TNF, [t, "--max-steps", str(limit)], "") for t in texts), []))):
                r.transitions += len(lines)
                if len(lines) != len(texts):
                    r.fail("main-tnf", "TNF (%s) printed %d lines for %d machines" % (how, len(lines), len(texts)), tms=texts[:5])
                    continue
                for t, tm, line in zip(texts, part, lines):
                    r.states += 1
                    want, k = tree_form(tm, limit + 5)
                    fail = line == "Failed to find TNF for " + t
                    if (want is None and not fail) or (want is not None and not (fail and k > limit) and line.split()[:1] != [ref.tm_str(want)]):
                        r.fail("main-tnf", "TNF (%s) printed %r for %s (expected %s)" % (how, line, t, want and ref.tm_str(want)), tm=t)
        f = os.path.join(d, "tms.txt")
        open(f, "w").write("".join(t + "\n" for t in texts))
        lines = run_main(LNF, [f], "")
        if len(lines) != len(texts):
            r.fail("main-lnf", "LNF printed %d lines for %d machines" % (len(lines), len(texts)), tms=texts[:5])
        else:
            for t, tm, line in zip(texts, part, lines):
                r.states += 1
                if line.split()[-1] != lnf_text(tm):
                    r.fail("main-lnf", "LNF printed %r for %s" % (line, t), tm=t)
        few = part[:40]
        want = []
        for tm in few:
            for x in [tm] + list(neighbours(tm)):
                want += list(starts(x, 60))
        lines = run_main(Adjacent, ["--tnf-max-steps", "60"], "".join(ref.tm_str(t) + "\n" for t in few))
        r.transitions += len(lines)
        gots = [l.split()[0] for l in lines]
        canon = Counter(frozenset(o) for o in want)
        have = Counter()
        index = {}
        for o in canon:
            for x in o:
                index.setdefault(x, o)
        for g in gots:
            have[index.get(g, g)] += 1
        if have != canon:
            r.fail("main-adj", "Adjacent printed %d machines for %d inputs, expected %d; unexpected %s missing %s"
                   % (len(gots), len(few), len(want), [x if isinstance(x, str) else sorted(x)[0] for x in list(have - canon)[:3]],
                      [sorted(x)[0] for x in list(canon - have)[:3]]), tms=[ref.tm_str(t) for t in few])
    finally:
        shutil.rmtree(d)


def with_one_more(tm, cells):
    """The machine with each undefined cell it never executes set to each value."""
    for q, row in enumerate(tm):
        for s, c in enumerate(row):
            if c is None:
                for d in cells:
                    yield ref.set_cell(tm, q, s, d)


def body(c):
    T = vp.THOROUGH
    all22 = list(ref.all_tms(2, 2, halts="all"))
    std22 = list(ref.all_tms(2, 2, halts="std"))
    trees = {}
    for (n, m), bound in {(3, 2): 22, (2, 3): 39, (3, 3): 5 if T else 4, (2, 4): 7 if T else 5, (4, 2): 6 if T else 5, (1, 2): 2, (1, 3): 2}.items():
        trees[n, m] = [t for t, s in ref.tnf(n, m, n > 1, True, bound)]
        c.log((n, m), len(trees[n, m]))
    more = []
    for n, m in ((3, 2), (2, 3)):
        seen = set()
        for tm, s in ref.tnf(n, m, True, True, 3 if not T else 5):
            for x in with_one_more(tm, ref.all_cells(n, m)):
                seen.add(x)
        more += sorted(seen, key=str)
    c.log("one more cell", len(more))
    short = [t for k in ((3, 2), (2, 3)) for t, s in ref.tnf(k[0], k[1], True, True, 6)]
    c.log("short", len(short))
    tnf_space = all22 + sum(trees.values(), []) + more
    c.run(sl_tnf, vp.slices(tnf_space, 64), "tree normal form")
    c.run(sl_tnf_limits, vp.slices((all22 + trees[3, 2] + trees[2, 3]) if T else (std22 + short), 32), "step limits")
    lnf_space = all22 + (trees[3, 2] + trees[2, 3] + more if T else short)
    c.run(sl_lnf, vp.slices(lnf_space, 64), "lexicographic normal form")
    c.run(sl_perm, vp.slices(std22 + trees[3, 2] + trees[2, 3], 32), "start states")
    adj = std22 + trees[3, 2] + trees[2, 3] + ([t for t in trees[3, 3]] if T else [t for t, s in ref.tnf(3, 3, True, True, 4)])
    c.run(sl_adj, vp.slices(adj, 32), "neighbours")
    mains = [t for t, s in ref.tnf(2, 2, True, True)] + [t for t, s in ref.tnf(3, 2, True, True, 6)] + [t for t, s in ref.tnf(2, 3, True, True, 6)]
    mains = [rename(t, orders(len(t))[-1], orders(len(t[0]))[-1], 1) for t in mains]
    c.run(sl_mains, vp.slices(mains, 8), "programs")
    c.extra["bounds"] = {"tree normal form": "all 13^4 complete 2x2 tables; all tree machines (to given run lengths) of "
                         + ", ".join("%dx%d: %d" % (n, m, len(v)) for (n, m), v in trees.items())
                         + "; each with all renamings of non-start states and non-blank symbols and mirroring; %d machines with unreached cells set" % len(more),
                         "lexicographic": "%d machines against the minimum over the whole group" % len(lnf_space)}


if __name__ == "__main__":
    vp.main(body, "C19")
