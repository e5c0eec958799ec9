"""C25: what the viewing programs print is the machine's real table and real run."""
import os, sys, io, re, itertools, contextlib, runpy, math, tempfile, shutil
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref

T = vp.THOROUGH


class Enough(BaseException):
    """The program has printed as many lines as we look at."""


class Sink(io.StringIO):
    def __init__(self, lines=None):
        super().__init__()
        self.left = lines

    def write(self, s):
        n = super().write(s)
        if self.left is not None:
            self.left -= s.count("\n")
            if self.left <= 0:
                raise Enough()
        return n


def program(name, args, lines=None):
    """Run one of the repository's programs; what it prints (at most so many lines)."""
    out, old = Sink(lines), sys.argv
    sys.argv = [name + ".py"] + list(args)
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(vp.CODE, name + ".py"), run_name="__main__")
    except Enough:
        pass
    except SystemExit as e:
        if e.code:
            raise RuntimeError("%s %s: exit %r" % (name, args, e.code))
    finally:
        sys.argv = old
    return out.getvalue()


class Def:
    """The definition, from any configuration, on a dictionary tape."""

    def __init__(self, tm, state=0, cells=(), pos=0):
        self.tm, self.q, self.p, self.t = tm, state, pos, 0
        self.tape = dict(cells)
        seen = list(self.tape) + [pos]
        self.lo, self.hi, self.halted = min(seen), max(seen), False

    def step(self):
        c = self.tm[self.q][self.tape.get(self.p, 0)]
        s, d, self.q = c if c is not None else (1, 1, -1)
        self.tape[self.p] = s
        self.p += 1 if d else -1
        self.lo, self.hi = min(self.lo, self.p), max(self.hi, self.p)
        self.halted = self.q < 0
        self.t += 1


ROW = re.compile(r"\x1b\[0m *(\d+): ((?:\x1b\[(?:1;)?\d+m.)*)\x1b\[0m(.{4,}?) \x1b\[(\d+)m *(\d+)\x1b\[0m$")
CELL = re.compile(r"\x1b\[(1;)?(\d+)m(.)")


def enough_rows(tm, start, ops, limit):
    """Does the program come to print so many lines, or to stop, within a thousand steps?"""
    d = Def(tm, *start)
    for _ in range(1000):
        limit -= "a" in ops or ("l" in ops and d.p == d.lo) or ("r" in ops and d.p == d.hi)
        if limit <= 0 or d.halted:
            return True
        d.step()
    return False


def letter(q):
    return chr(65 + q) if q < 26 else chr(97 + q - 26)


def visual(tm, args, start, ops, relative, limit, r, width, source=None):
    """Visual_Simulator: every printed row against the definition."""
    if limit and not enough_rows(tm, start, ops, limit):
        r.count("runs that print too rarely, left out")
        return
    text = source or ref.tm_str(tm)
    argv = ["--no-ttable", "-w", str(width), "-p", ops] + (["-r"] if relative else []) + ["--", text] + args
    out = program("Visual_Simulator", argv, limit)
    rows = [l for l in out.split("\n") if l.startswith("\x1b[0m")]
    state, cells, pos = start
    d = Def(tm, state, cells, pos)
    colour = {}
    r.traces += 1
    r.states += 1

    def bad(key, what):
        r.fail("visual-" + key, "Visual_Simulator.py %s: %s" % (" ".join(argv), what), argv=argv)
    for k in range(10 ** 6):
        if k:
            if d.halted:
                break
            d.step()
        want = "a" in ops or ("l" in ops and d.p == d.lo) or ("r" in ops and d.p == d.hi)
        if not want:
            continue
        if not rows:
            if limit is None:
                return bad("missing", "no row for step %d" % d.t)
            return
        r.transitions += 1
        m = ROW.match(rows.pop(0))
        if not m:
            return bad("row", "row for step %d cannot be read" % d.t)
        if int(m.group(1)) != d.t:
            return bad("step", "row for step %s where step %d is due" % (m.group(1), d.t))
        cellsout = CELL.findall(m.group(2))
        if not cellsout or len(cellsout) % 2 == 0:
            return bad("width", "%d cells" % len(cellsout))
        pairs = [(m.group(4), int(m.group(5)))]
        if int(m.group(5)) != d.tape.get(d.p, 0):
            return bad("read", "step %d: symbol %s under the head, it is %d" % (d.t, m.group(5), d.tape.get(d.p, 0)))
        base = (d.p if relative else 0) - len(cellsout) // 2
        for i, (bold, col, ch) in enumerate(cellsout):
            p = base + i
            pairs.append((col, d.tape.get(p, 0)))
            if bool(bold) != (p == d.p):
                return bad("head", "step %d: head marked at cell %d, it is at %d" % (d.t, p, d.p))
            if p == d.p and not d.halted and ch != letter(d.q):
                return bad("state", "step %d: state %s, it is %s" % (d.t, ch, letter(d.q)))
        for col, s in pairs:
            if colour.setdefault(col, s) != s:
                return bad("cell", "step %d: a cell has the colour of %d, it holds %d" % (d.t, colour[col], s))
    if rows:
        return bad("extra", "%d rows too many" % len(rows))
    if limit and out.count("\n") >= limit:
        return
    m = re.search(r"Halted on step (\d+)", out)
    if not m or int(m.group(1)) != d.t:
        bad("halt", "halts on step %d, printed: %s" % (d.t, m and m.group(1)))


def sl_visual(part, r):
    for tm, t in part:
        for relative in (False, True):
            for ops in ("a", "l", "r", "lr") if t else ("a",):
                for width in (30, 61) if ops == "a" else (61,):
                    visual(tm, [], (0, {}, 0), ops, relative, None if t else 40, r, width)


def words(n):
    for k in range(n + 1):
        yield from itertools.product((0, 1, 2), repeat=k)


def sl_start(part, r):
    """All small start configurations typed on the command line."""
    for tm, left, right, q, d in part:
        for form in (0, 1, 2, 3):
            # 0: one block a side; 1: one block a symbol; 2: explicit counts; 3: doubled by ^2
            def side(w):
                if not w:
                    return []
                if form == 0:
                    return ["".join(map(str, w))]
                if form == 1:
                    return [str(s) for s in w]
                if form == 2:
                    return ["%d^1" % s for s in w] + ["2^0"]
                return ["".join(map(str, w)) + "^2"]
            mult = 2 if form == 3 else 1
            L, R = list(left) * mult, list(right) * mult
            st = "<" + chr(65 + q) if d == 0 else chr(65 + q) + ">"
            arg = " ".join(side(left) + [st] + side(right))
            if d == 0:
                R = [L.pop() if L else 0] + R
            cells = {i - len(L): s for i, s in enumerate(L)}
            cells.update({i: s for i, s in enumerate(R)})
            cells.setdefault(0, 0)
            for ops in ("a", "lr"):
                visual(tm, [arg], (q, cells, 0), ops, False, 7, r, 61)


def wide_machine(n, m, k):
    """n states, m symbols: state q reading s writes (q + s + k) mod m and goes on; it turns at the ends and halts in the last state on a k."""
    tm = [[((q + s + k) % m, 1 if (q + s) % 5 else 0, (q + 1) % n) for s in range(m)] for q in range(n)]
    tm[n - 1][k % m] = (1, 1, -1)
    return tuple(map(tuple, tm))


def sl_wide(part, r):
    """Machines with up to seven symbols and fifty states: every state letter and every colour."""
    d = tempfile.mkdtemp()
    try:
        for n, m, k in part:
            tm = wide_machine(n, m, k)
            source = None
            if n > 25:
                source = os.path.join(d, "tm.morphett")
                with open(source, "w") as f:
                    for q in range(n):
                        for s in range(m):
                            so, di, qo = tm[q][s]
                            print("q%d" % q, s or "_", so or "_", "lr"[di], "halt" if qo < 0 else "q%d" % qo, file=f)
            visual(tm, [], (0, {}, 0), "a", False, 120, r, 90, source)
            for q in range(n):
                for side in (0, 1):
                    syms = list(range(m)) if (q + side) % 2 else list(range(m))[::-1]
                    L, R = (syms, [1]) if side else ([2], syms)
                    arg = "%s %s %s" % ("".join(map(str, L)), ("<" + letter(q)) if side else letter(q) + ">", "".join(map(str, R)))
                    if side:
                        L, R = L[:-1], L[-1:] + R
                    cells = {i - len(L): s for i, s in enumerate(L)}
                    cells.update({i: s for i, s in enumerate(R)})
                    visual(tm, [arg], (q, cells, 0), "a", bool(side), 6, r, 70, source)
    finally:
        shutil.rmtree(d)


def parse_table(text):
    """Cells of a printed transition table: list of rows of strings."""
    rows = []
    for line in text.split("\n"):
        cols = [c.strip() for c in line.strip().strip("|").split("|")]
        if len(cols) > 1 and re.fullmatch(r"[A-Za-z]", cols[0]):
            rows.append((cols[0], cols[1:]))
    return rows


def table_ok(tm, text, r, what):
    rows = parse_table(text)
    want = [(chr(65 + q) if q < 26 else chr(97 + q - 26), ["---" if c is None else "%d%s%s" % (c[0], "LR"[c[1]], "Z" if c[2] < 0 else chr(65 + c[2])) for c in row])
            for q, row in enumerate(tm)]
    r.states += 1
    r.transitions += sum(map(len, tm))
    if rows != want:
        r.fail("table-" + what, "%s of %s shows %r" % (what, ref.tm_str(tm), rows), tm=ref.tm_str(tm))


def sl_table(part, r):
    import IO
    from Macro import Turing_Machine as TM
    import TM_Print
    for tm in part:
        m = IO.parse_tm(ref.tm_str(tm))
        before = m.ttable_str()
        table_ok(tm, TM.machine_ttable_to_str(m), r, "table")
        table_ok(tm, TM_Print.tm_to_markdown(m), r, "markdown")
        if m.ttable_str() != before:
            r.fail("table-changed", "printing %s changes it" % before, tm=before)


def sl_print(part, r):
    for tm in part:
        text = ref.tm_str(tm)
        r.traces += 1
        table_ok(tm, program("TM_Print", ["--", text]), r, "markdown")
        out = program("Visual_Simulator", ["-w", "40", "--", text], 2 * len(tm) + 8)
        table_ok(tm, re.sub(r"\x1b\[\d+m", "", out), r, "visual-table")


BLOCKS = r"((?:\d+\^\S+ )*?)"
STATE = re.compile(r"^(.*?) ?(?:\((\d+)\) )?([A-Z])> ?(.*)$|^(.*?) ?<([A-Z])(?: \((\d+)\))? ?(.*)$")


def strip_html(s):
    return re.sub(r"<sup>(.*?)</sup>", r"^\1", s).replace("<b>", "").replace("</b>", "").replace("<br>", "")


def expand(tokens, limit):
    """Blocks like 01^3 to cells, without the infinite ones. None if too long."""
    out = []
    for tok in tokens.split():
        m = re.fullmatch(r"(\d+)\^(inf|\d+)", tok)
        if not m:
            raise ValueError(tok)
        if m.group(2) == "inf":
            if set(m.group(1)) != {"0"}:
                raise ValueError(tok)
            continue
        n = int(m.group(2))
        if n * len(m.group(1)) + len(out) > limit:
            return None
        out += [int(c) for c in m.group(1)] * n
    return out


def printed_config(line, limit=10 ** 6):
    """(state letter, cells left of the head, cells from the head on) of a printed tape; None if too long."""
    m = STATE.match(line)
    if not m:
        raise ValueError(line)
    if m.group(3):
        left, right, back, q = m.group(1), m.group(4), m.group(2), m.group(3)
        l, rr = expand(left, limit), expand(right, limit)
        if l is None or rr is None:
            return None
        l += [int(c) for c in back or ""]
    else:
        left, right, back, q = m.group(5), m.group(8), m.group(7), m.group(6)
        l, rr = expand(left, limit), expand(right, limit)
        if l is None or rr is None:
            return None
        rr = [int(c) for c in back or ""] + rr
        rr = [l.pop() if l else 0] + rr
    return q, bytes(l).lstrip(b"\0"), bytes(rr).rstrip(b"\0")


OPTS = [(1, True, ""), (1, False, ""), (2, True, ""), (2, False, "-r"), (3, True, "--limited-rules"), (1, True, "-p"), (1, False, "-r --html-format"),
        (3, False, "-p --html-format"), (1, True, "-r --html-format")]


def check_tape(line, total, sim, r, bad, halted):
    try:
        c = printed_config(line)
    except ValueError as e:
        return bad("unreadable", "tape %r cannot be read (%s)" % (line[:80], e))
    if c is None or total > 10 ** 6:
        r.count("tapes too long to expand")
        return
    if sim.steps > total:
        return bad("order", "step numbers go back to %d" % total)
    sim.seek(total)
    r.transitions += 1
    if sim.steps != total:
        return bad("steps", "prints step %d, it halts at %d" % (total, sim.steps))
    q, l, rr = c
    if sim.halted:
        if q != "Z":
            return bad("state", "step %d: prints state %s, it has halted" % (total, q))
        if (l + rr).strip(b"\0") != sim.content().strip(b"\0"):
            return bad("tape", "step %d: prints %r" % (total, line[:200]))
        return
    if q != chr(65 + sim.state):
        return bad("state", "step %d: prints state %s, it is %s" % (total, q, chr(65 + sim.state)))
    if (l, rr) != (sim.left(), sim.right()):
        return bad("tape", "step %d: prints %r" % (total, line[:200]))


def verdict(tm, start, out, r, bad):
    """The closing lines: how the run ended, where, after how many steps and with how many non-blank cells."""
    m = re.search(r"Turing Machine (Halted|reached Undefined|proven Infinite)(.*)", out, re.S)
    if not m:
        return
    r.transitions += 1
    if m.group(1) == "proven Infinite":
        s = ref.Sim(tm)
        if start:
            s.load((start, b"", b""))
        if s.seek(20000).halted:
            bad("infinite", "called infinite, it halts after %d steps" % s.steps)
        return

    def number(name):
        x = re.search(r"%s:.*?([\d_]+)$" % name, m.group(2), re.M)
        return int(x.group(1).replace("_", "")) if x else None
    total = number("Steps")
    if total is None or total > 20000:
        return
    d = Def(tm, start)
    for _ in range(total - 1):
        if d.halted:
            break
        d.step()
    if d.halted:
        return bad("end", "said to stop at step %d, it halts at %d" % (total, d.t))
    q, s = d.q, d.tape.get(d.p, 0)
    d.step()
    if not d.halted:
        return bad("end", "said to stop at step %d, it runs on" % total)
    if (tm[q][s] is None) != (m.group(1) != "Halted"):
        bad("end", "halting cell %s%d is called %s" % (letter(q), s, m.group(1)))
    if m.group(1) != "Halted":
        qs = re.search(r"State: *(\w+)", m.group(2))
        if not qs or qs.group(1) not in (str(q), letter(q)) or number("Symbol") != s:
            bad("end", "stops at %s%d, printed: %s, symbol %s" % (letter(q), s, qs and qs.group(1), number("Symbol")))
    n = sum(1 for x in d.tape.values() if x)
    if n and number("Nonzeros") != n:
        bad("end", "leaves %d non-blank cells, printed: %s" % (n, number("Nonzeros")))


def sl_verbose(part, r):
    """Quick_Sim with step-by-step output: every printed configuration and step count."""
    items, opts, loops, start = part
    for tm, t in items:
        text = ref.tm_str(tm)
        for n, noback, extra in opts:
            html = "html" in extra
            argv = ["-n", str(n)] + (["-b"] if noback else []) + extra.split() + ["--verbose-simulator", "--max-loops=%d" % loops,
                    "--print-loops=%d" % loops] + (["-s", chr(65 + start)] if start else []) + ["--", text]
            out = program("Quick_Sim", argv)
            r.traces += 1
            r.states += 1

            def bad(key, what):
                r.fail("verbose-" + key, "Quick_Sim.py %s: %s" % (" ".join(argv), what), argv=argv)
            sim = ref.Sim(tm)
            if start:
                sim.load((start, b"", b""))
            body = out.split("\n")
            total, lines, seen = 0, 0, None
            for i, line in enumerate(body):
                if line.startswith("Total:"):
                    total = int(line.split()[1].replace("_", "")) if line.split()[1].replace("_", "").isdigit() else None
                elif line.startswith("Elapsed time"):
                    if total is not None:
                        check_tape(strip_html(body[i + 1]), total, sim, r, bad, False)
                        m = re.search(r"(\d[\d_]*)$", body[i + 2])
                        if m and total <= 10 ** 6 and sim.steps == total and int(m.group(1).replace("_", "")) != sim.score():
                            bad("nonzeros", "step %d: %s, it has %d" % (total, body[i + 2], sim.score()))
                elif html and (m := re.match(r"^ +(\d+): (.*)<br>$", line)):
                    check_tape(strip_html(m.group(2)), int(m.group(1)), sim, r, bad, False)
                    lines += 1
                elif not html and (m := re.match(r"^ +(\d+)  (.*?) \((-?\d+), (\d+)\)$", line)):
                    was = sim.steps
                    check_tape(m.group(2), int(m.group(4)), sim, r, bad, False)
                    if int(m.group(1)) != lines + 1:
                        bad("loops", "line %d is numbered %s" % (lines + 1, m.group(1)))
                    if int(m.group(4)) <= 10 ** 6 and int(m.group(3)) != int(m.group(4)) - was:
                        bad("delta", "step %s: printed difference %s, it is %d" % (m.group(4), m.group(3), int(m.group(4)) - was))
                    lines += 1
            if not lines and loops > 1 and "Infinite" not in out and "Undefined" not in out:
                bad("none", "no step is printed")
            r.count("printed steps", lines)
            verdict(tm, start, out, r, bad)


def macro_truth(tm, cells, pos, q, limit):
    """Run inside the cells only: ('out', cells, state, dir, steps), ('halt', cells, dir, steps), or None for a loop."""
    cells, t, seen = list(cells), 0, set()
    while True:
        key = (q, pos, tuple(cells))
        if key in seen:
            return None
        seen.add(key)
        c = tm[q][cells[pos]]
        s, d, q2 = c if c is not None else (1, 1, -1)
        cells[pos] = s
        pos += 1 if d else -1
        t += 1
        if q2 < 0:
            return ("halt", cells, d, t)
        q = q2
        if not 0 <= pos < len(cells):
            return ("out", cells, q, d, t)
        if t > limit:
            return None


def sl_macro(part, r):
    """The printed macro transition table: every entry is what the machine does inside the block."""
    for tm, t in part:
        text = ref.tm_str(tm)
        for n, noback in ((1, False), (2, True), (2, False), (3, True), (3, False)):
            argv = ["-n", str(n)] + (["-b"] if noback else []) + ["--quiet", "--max-loops=60", "--print-macro-ttable", "--", text]
            out = program("Quick_Sim", argv)
            r.traces += 1
            r.states += 1

            def bad(key, what):
                r.fail("macro-" + key, "Quick_Sim.py %s: %s" % (" ".join(argv), what), argv=argv)
            m = re.search(r"TTable \((\d+) states, (\d+) symbols, (\d+) transitions\)", out)
            if not m:
                bad("none", "no macro table printed")
                continue
            rows = [[c.strip() for c in l.strip().strip("|").split("|")] for l in out[m.end():].split("\n") if l.startswith("|")]
            head, rows = rows[0][1:], rows[1:]
            entries = 0
            if (len(rows), len(head)) != (int(m.group(1)), int(m.group(2))):
                bad("size", "table is %dx%d, header says %sx%s" % (len(rows), len(head), m.group(1), m.group(2)))
            names = [row[0] for row in rows]
            if len(set(names)) != len(names) or len(set(head)) != len(head):
                bad("twice", "a state or symbol is listed twice: %r %r" % (names, head))
            for row in rows:
                sm = STATE.match(row[0])
                right = bool(sm and sm.group(3))
                q = ord(sm.group(3) or sm.group(6)) - 65
                back = [int(c) for c in (sm.group(2) if right else sm.group(7)) or ""]
                for sym, entry in zip(head, row[1:]):
                    if not entry:
                        continue
                    entries += 1
                    r.transitions += 1
                    front = [int(c) for c in sym]
                    cells = back + front if right else front + back
                    pos = len(back) if right else len(front) - 1
                    truth = macro_truth(tm, cells, pos, q, 1000)
                    if truth is None:
                        r.count("macro entries that loop")
                        continue
                    em = re.match(r"^(\S+) (?:\((\d+)\) )?([A-Z])> \[(\d+)\]$|^<([A-Z])(?: \((\d+)\))? (\S+) \[(\d+)\]$", entry)
                    if not em:
                        bad("unreadable", "entry %r" % entry)
                        continue
                    if em.group(3):
                        oq, d, steps = em.group(3), 1, int(em.group(4))
                        oc = [int(c) for c in em.group(1) + (em.group(2) or "")]
                    else:
                        oq, d, steps = em.group(5), 0, int(em.group(8))
                        oc = [int(c) for c in (em.group(6) or "") + em.group(7)]
                    if truth[0] == "halt":
                        want = ("Z", truth[1], steps == truth[3])
                        got = (oq, oc, True)
                    else:
                        want = (chr(65 + truth[2]), truth[1], d == truth[3] and steps == truth[4])
                        got = (oq, oc, True)
                    if want != got:
                        bad("entry", "%s reading %s gives %s, in fact %r" % (row[0], sym, entry, truth))
            if entries != int(m.group(3)):
                bad("count", "%d entries, header says %s" % (entries, m.group(3)))


def sl_ngram(part, r):
    """ngram_entropy: both entropies against the definition."""
    d = tempfile.mkdtemp(prefix="c25_")
    try:
        name = os.path.join(d, "in.txt")
        with open(name, "w") as f:
            for tm in part:
                f.write(ref.tm_str(tm) + "\n")
        for w, n in ((2, 1), (2, 7), (3, 20), (4, 33), (5, 64)):
            out = program("ngram_entropy", [name, "--window-size", str(w), "--num-samples", str(n)])
            got = {l.split()[0]: [float(x) for x in l.split()[1:]] for l in out.split("\n") if l.strip()}
            r.traces += 1
            for tm in part:
                s = Def(tm)
                for _ in range(n):
                    s.step()
                tr, wi = Counter(), Counter()
                for _ in range(n):
                    s.step()
                    tr[s.q, s.tape.get(s.p, 0)] += 1
                    a = s.p - w // 2
                    wi[(s.q,) + tuple(s.tape.get(p, 0) for p in range(a, a + w))] += 1
                h = [sum(-c / n * math.log2(c / n) for c in k.values()) for k in (tr, wi)]
                want = [(h[1] - h[0]) / (w - 1)] + h
                r.states += 1
                r.transitions += 2 * n
                g = got.get(ref.tm_str(tm))
                if g is None or len(g) != 3 or any(abs(x - y) > 1e-6 for x, y in zip(g, want)):
                    r.fail("ngram", "%s window %d samples %d: printed %r, by definition %r" % (ref.tm_str(tm), w, n, g, want), tm=ref.tm_str(tm))
    finally:
        shutil.rmtree(d)


def formula_value(s):
    s = s.replace("^", "**")
    if not re.fullmatch(r"[\d\s()+\-*/]+", s):
        return None
    return eval(s.replace("/", "//"))


def tex_value(s):
    s = re.sub(r"\\frac", "FR", s)
    while "FR" in s:
        s2 = re.sub(r"FR\{([^{}]*(?:\{[^{}]*\}[^{}]*)*)\}\{([^{}]*)\}", r"((\1)//(\2))", s)
        if s2 == s:
            return None
        s = s2
    s = s.replace("\\cdot", "*").replace("^", "**").replace("{", "(").replace("}", ")")
    if not re.fullmatch(r"[\d\s()+\-*/]+", s):
        return None
    return eval(s)


def sl_formula(part, r):
    """Printed and LaTeX formulas of huge numbers stand for the number."""
    import Exp_Int as E
    for b, a, n, c, den in part:
        v = a * b ** n + c
        if v % den:
            continue
        x = (E.exp_int(b, n) * a + c) / den if den > 1 else E.exp_int(b, n) * a + c
        r.states += 1
        r.transitions += 2
        for name, text, f in (("text", str(x), formula_value), ("LaTeX", E.tex_formula(x), tex_value)):
            got = f(text)
            if got != v // den:
                r.fail("formula-" + name, "(%d*%d^%d%+d)/%d is printed as %s" % (a, b, n, c, den, text), args=[b, a, n, c, den])


def body(c):
    m22 = ref.tnf(2, 2) + ref.tnf(2, 2, first_1rb=False)
    h32 = ref.tnf(3, 2, mode="halt")
    h23 = ref.tnf(2, 3, mode="halt")
    r32 = ref.tnf(3, 2, mode="run")
    uniq = lambda ms: list({ref.tm_str(a): (a, b) for a, b in ms}.values())
    c.run(sl_visual, vp.slices(uniq(m22 + h32 + h23 + (r32 if T else [])), 64), "visual simulator from the blank tape")
    st = [(ref.parse(x), l, rr, q, d) for x in ("1RB2LA1RA_1LB1LA2RB", "2RB1RZ0LA_2LB1LA0RB") for l in words(2) for rr in words(2 if not T else 3) for q in (0, 1) for d in (0, 1)]
    c.run(sl_start, vp.slices(st, 64), "visual simulator from all short configurations")
    c.run(sl_wide, [[(n, m, k)] for n, m in ((3, 7), (25, 7), (26, 3), (50, 7)) for k in range(3)], "visual simulator, many states and symbols")
    cells = ref.all_cells(2, 2)
    tables = [((a, b), (x, y)) for a in cells for b in cells for x in cells for y in cells]
    c.run(sl_table, vp.slices(tables, 32), "transition tables, all 2x2")
    wide = [tuple(tuple(((q + s) % m, (q ^ s) & 1, (q + 1) % n if (q, s) != h else -1) if (q, s) != u else None for s in range(m)) for q in range(n))
            for n, m in ((1, 10), (2, 7), (7, 2), (9, 3), (25, 2), (12, 10)) for h in ((n - 1, m - 1), (0, 0)) for u in ((0, m - 1), (-1, 0))]
    c.run(sl_table, vp.slices(wide, 8), "large transition tables")
    c.run(sl_print, vp.slices([x for x, _ in uniq(m22)] + [w for w in wide if len(w[0]) <= 7 and len(w) < 25], 32), "table printing programs")
    J = lambda ms, k: [list(s) for s in vp.slices(ms, k)]
    c.run(sl_verbose, [(s, OPTS, 40, 0) for s in J(uniq(m22 + h23), 32)], "verbose simulation of 2x2 and halting 2x3")
    c.run(sl_verbose, [(s, OPTS, 40, 1) for s in J(uniq(m22), 8)], "verbose simulation from another start state")
    c.run(sl_verbose, [(s, OPTS[:5], 30, 0) for s in J([(ref.fill_halt(t), x) for t, x in uniq(m22 + h23)], 64)], "verbose simulation with explicit halting cells")
    c.run(sl_verbose, [(s, OPTS[:2] if not T else OPTS, 30, 2) for s in J(uniq(h32), 64)], "verbose simulation of 3x2 from the third state")
    c.run(sl_verbose, [(s, OPTS if T else OPTS[2:8], 60, 0) for s in J(uniq(h32 + (r32 if T else [])), 64)], "verbose simulation of 3x2")
    ch = [(ref.parse(l.split()[0]), 1) for l in open(os.path.join(vp.VERIF, "data", "halting_2x4.txt"))]
    c.run(sl_verbose, [(s, OPTS, 120, 0) for s in J(ch, 64)], "verbose simulation of long halting 2x4")
    c.run(sl_macro, vp.slices(uniq(m22 + h32 + h23), 64), "macro transition tables")
    run = [x for x, t in ref.tnf(2, 2, mode="run") + r32 + ref.tnf(2, 3, mode="run")]
    c.run(sl_ngram, vp.slices(run, 32), "n-gram entropy")
    ps = [(b, a, n, k, d) for b in (2, 3, 6, 10) for a in (1, 2, 3, -1, -5) for n in (1, 4, 40, 150) for k in (-7, -1, 0, 1, 2, 8) for d in (1, 2, 3, 7)]
    c.run(sl_formula, vp.slices(ps, 8), "printed formulas")
    c.extra["bounds"] = {"machines": "all tree-normal-form 2x2 and halting 3x2 and 2x3 machines, every 2x2 table", "start configurations": "all words up to 2 symbols a side, both directions, states and 4 spellings",
                         "steps": "40-120 printed steps per run"}


if __name__ == "__main__":
    vp.main(body, "C25")
