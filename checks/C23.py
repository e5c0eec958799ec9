"""C23: the record tools keep every record and change none."""
import contextlib, io, itertools, os, re, runpy, shutil, sys, tempfile
from collections import Counter
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref


# ---------------------------------------------------------------- record alphabet
def machine_list():
    big = "_".join("0RA1LB" for _ in range(8))
    return {"m22": "1RB1LB_1LA1RZ", "m22u": "1RB---_1LB0LB", "m22n": "1RB1RA_1LA1LB", "m23": "1RB2LB1RZ_2LA2RB1LB",
            "m8": big, "m28": "1RB2LA3RA4LB5RB6LA7RA1RZ_1LA---0RB1RB1RB1LA1RA7LB"}


def expint(i):
    from Exp_Int import exp_int
    return [lambda: exp_int(3, 1000) * 5 + 7, lambda: exp_int(2, exp_int(2, 500)) - 1][i]()


class R:
    """One record as the harness means it."""
    def __init__(self, name, mach, kind, steps=None, score=None, qh=None, qsteps=None, reason=None):
        self.name, self.mach, self.kind = name, mach, kind
        self.steps, self.score, self.qh, self.qsteps, self.reason = steps, score, qh, qsteps, reason

    def build(self):
        import IO, TM_Enum, Halting_Lib, io_pb2
        from IO import TM_Record
        rec = TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(machine_list()[self.mach]), allow_no_halt=(self.kind == "inf")))
        p = rec.proto
        # an identity that no tool interprets
        p.filter.block_finder.result.elapsed_time_us = 1000 + self.num
        if self.kind == "unk":
            ui = p.filter.simulator.result.unknown_info
            if self.reason == "over_loops":
                ui.over_loops.num_loops = 77
            elif self.reason == "over_tape":
                ui.over_tape.compressed_tape_size = 9
            elif self.reason == "over_time":
                ui.over_time.elapsed_time_sec = 1.5
            elif self.reason == "over_steps_in_macro":
                ui.over_steps_in_macro.SetInParent()
            elif self.reason == "threw_exception":
                ui.threw_exception = True
            else:
                p.filter.simulator.result.ClearField("unknown_info")
            return rec
        hs = p.status.halt_status
        hs.is_decided = True
        if self.kind == "halt":
            hs.is_halting = True
            if self.steps is not None:
                Halting_Lib.set_big_int(hs.halt_steps, self.steps)
            if self.score is not None:
                Halting_Lib.set_big_int(hs.halt_score, self.score)
            p.status.quasihalt_status.is_decided = True
        else:
            hs.is_halting = False
            hs.inf_reason = self.reason
            if self.qh is not None:
                q = p.status.quasihalt_status
                q.is_decided = True
                q.is_quasihalting = self.qh
                if self.qh:
                    q.quasihalt_state = 1
                    if self.qsteps is not None:
                        Halting_Lib.set_big_int(q.quasihalt_steps, self.qsteps)
        return rec

    @property
    def category(self):
        def size(v, pre):
            return pre + (".unk" if v is None else ".small" if v < 1000 else ".large")
        if self.kind == "unk":
            return "unknown"
        if self.kind == "halt":
            return size(self.steps, "halt")
        return size(self.qsteps, "qhalt") if self.qh else "infinite"


def alphabet():
    import io_pb2
    out = [
        R("not run", "m22u", "unk"),
        R("over loops", "m22u", "unk", reason="over_loops"),
        R("over tape", "m23", "unk", reason="over_tape"),
        R("over time", "m8", "unk", reason="over_time"),
        R("over steps", "m22u", "unk", reason="over_steps_in_macro"),
        R("exception", "m28", "unk", reason="threw_exception"),
        R("halt 6", "m22", "halt", 6, 4),
        R("halt 1", "m22", "halt", 1, 0),
        R("halt 999", "m23", "halt", 999, 12),
        R("halt 1000", "m23", "halt", 1000, 11),
        R("halt 2^63-1", "m28", "halt", 2 ** 63 - 1, 2 ** 63 - 1),
        R("halt 2^63", "m28", "halt", 2 ** 63, 2 ** 63),
        R("halt 10^60", "m28", "halt", 10 ** 60 + 1, 10 ** 30),
        R("halt exp", "m22", "halt", expint(0), expint(0)),
        R("halt tower", "m22", "halt", None, expint(1)),
        R("halt unknown", "m22", "halt", None, None),
    ]
    for n in sorted(io_pb2.InfReason.values()):
        out.append(R("inf %d" % n, "m22n", "inf", reason=n))
    out += [
        R("no qh", "m22n", "inf", qh=False, reason=5),
        R("qh 5", "m22n", "inf", qh=True, qsteps=5, reason=5),
        R("qh 999", "m8", "inf", qh=True, qsteps=999, reason=5),
        R("qh 1000", "m22n", "inf", qh=True, qsteps=1000, reason=1),
        R("qh big", "m22n", "inf", qh=True, qsteps=expint(0), reason=3),
        R("qh unknown", "m22n", "inf", qh=True, qsteps=None, reason=3),
    ]
    for i, x in enumerate(out):
        x.num = i
        x.rec = x.build()
        x.key = x.rec.proto.SerializeToString(deterministic=True)
    return out


CORE = ["not run", "over time", "halt 6", "halt 1000", "halt tower", "halt unknown", "inf 5", "qh 5", "qh unknown", "halt 10^60"]


# ---------------------------------------------------------------- driving the tools
class Failed(Exception):
    pass


def tool(name, args, expect_error=False):
    """Run Code/<name>.py as a command line would; returns what it printed."""
    old, out = sys.argv, io.StringIO()
    sys.argv = [name + ".py"] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runpy.run_path(os.path.join(vp.CODE, name + ".py"), run_name="__main__")
    except SystemExit as e:
        if e.code not in (None, 0) and not expect_error:
            raise Failed("%s exits with %r: %s" % (name, e.code, out.getvalue()[-200:]))
    except Exception as e:
        if not expect_error:
            raise Failed("%s raises %s: %s" % (name, type(e).__name__, e))
    finally:
        sys.argv = old
    return out.getvalue()


def put(path, recs):
    import IO
    with IO.Proto.Writer(path) as w:
        for x in recs:
            w.write_record(x)


def keys(path):
    import IO
    with IO.Proto.Reader(path) as rd:
        return [x.proto.SerializeToString(deterministic=True) for x in rd]


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="c23_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.n = 0

    def path(self, suffix):
        self.n += 1
        return os.path.join(self.dir, "f%d%s" % (self.n, suffix))

    def wipe(self):
        for f in os.listdir(self.dir):
            p = os.path.join(self.dir, f)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def need(cond, msg):
    if not cond:
        raise Failed(msg)


def number(text, pattern):
    m = re.search(pattern, text)
    need(m, "the output has no %r: %s" % (pattern, text[:200]))
    return int(m.group(1).replace("_", "").replace(",", ""))


def std(mach):
    return machine_list()[mach]


CATS = ["halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite", "unknown"]


def t_categorize(S, seq, files):
    d = S.path(".d")
    os.mkdir(d)
    out = tool("IO_Categorize", files + ["--out-dir", d])
    for cat in CATS:
        want = [x.key for x in seq if x.category == cat]
        got = keys(os.path.join(d, cat + ".pb"))
        need(got == want, "%s.pb holds %d records instead of %d (or other ones)" % (cat, len(got), len(want)))
        need(number(out, r"Categorized ([\d_]+) %s records" % cat.replace(".", "_")) == len(want), "count printed for " + cat)
    need(number(out, r"Categorized ([\d_]+) records total") == len(seq), "total printed")


def t_sort(S, seq, files):
    if len(files) != 1:
        return
    o = S.path(".pb")
    tool("IO_Sort", [files[0], o])
    got = keys(o)
    need(Counter(got) == Counter(x.key for x in seq), "sorting %d records gives %d (or other ones)" % (len(seq), len(got)))
    by = {x.key: x for x in seq}
    sc = [by[k].score if by[k].kind == "halt" and by[k].score is not None else 0 for k in got]
    rank = [(1, SCORE_RANK[repr(s)]) for s in sc]
    need(all(a >= b for a, b in zip(rank, rank[1:])), "not in order of score: " + ", ".join(by[k].name for k in got))


SCORE_RANK = {}


def ranks(alpha):
    """Order of the scores, decided by how they were built (exact integers first, then 5*3^1000+7, then the tower)."""
    sc = [0] + [x.score for x in alpha if x.score is not None]
    for s in sc:
        if isinstance(s, int):
            SCORE_RANK[repr(s)] = s
    SCORE_RANK[repr(expint(0))] = 5 * 3 ** 1000 + 7
    SCORE_RANK[repr(expint(1))] = float("inf")


def t_count(S, seq, files):
    out = tool("IO_Count", files)
    need(number(out, r"Total # TMs: ([\d_]+)") == len(seq), "IO_Count: " + out)
    out = tool("IO_Count", ["--summary"] + files)
    need(number(out, r"Total # TMs: ([\d_]+)") == len(seq), "IO_Count: " + out)


def t_find(S, seq, files):
    for m in sorted(machine_list()):
        pos = [i for i, x in enumerate(seq) if x.mach == m]
        first = seq[pos[0]] if pos else None
        out = tool("IO_Find", [std(m)] + files)
        if first is None:
            need("not found" in out, "IO_Find reports a machine that is not there: " + out[:100])
        else:
            need("elapsed_time_us: %d\n" % (1000 + first.num) in out and "ttable: " + std(m) in out, "IO_Find does not print the record of " + std(m))
        if len(files) == 1:
            out = tool("Find_Record", [std(m), files[0]])
            if first is None:
                need("ttable" not in out, "Find_Record reports a machine that is not there")
            else:
                need(out.split("\n")[0].strip() == str(pos[0]) and "elapsed_time_us: %d\n" % (1000 + first.num) in out,
                     "Find_Record does not give record %d of %s" % (pos[0], std(m)))
    if len(files) == 1:
        for i, x in enumerate(seq):
            out = tool("Read_Record", [files[0], i])
            need("elapsed_time_us: %d\n" % (1000 + x.num) in out and "ttable: " + std(x.mach) in out, "Read_Record %d" % i)


def text_line(x, line):
    parts = line.split()
    need(parts and parts[0] == std(x.mach), "line %r for machine %s" % (line, std(x.mach)))
    if x.kind != "halt":
        need(len(parts) == 1, "line %r for a record that is not halting" % line)
        return
    need(len(parts) == 4 and parts[1] == "Halt", "line %r for a halting record" % line)
    for got, v in ((parts[2], x.steps), (parts[3], x.score)):
        if isinstance(v, int) and v < 10 ** 10:
            need(got == str(v), "line %r: %s instead of %s" % (line, got, v))
        elif v is None:
            need(not got.isdigit(), "line %r: a number that is not known" % line)
        elif isinstance(v, int):
            m = re.fullmatch(r"~10\^([\d.]+)", got)
            need(m and abs(float(m.group(1)) - _log10(v)) < 0.01, "line %r for %d" % (line, v))


def _log10(v):
    s = str(v)
    import math
    return len(s) - 1 + math.log10(float(s[0] + "." + s[1:16]))


def t_convert(S, seq, files):
    if len(files) != 1:
        return
    for suffix in (".pb", ".pb.gz"):
        o = S.path(suffix)
        out = tool("IO_Convert", [files[0], o])
        need(keys(o) == [x.key for x in seq], "converting to %s changes the records" % suffix)
        need(number(out, r"Converted ([\d_]+) records") == len(seq), "count printed by IO_Convert")
    t = S.path(".txt")
    tool("IO_Convert", [files[0], t])
    lines = open(t).read().splitlines()
    need(len(lines) == len(seq), "%d lines of text for %d records" % (len(lines), len(seq)))
    for x, line in zip(seq, lines):
        text_line(x, line)
    b = S.path(".pb")
    tool("IO_Convert", [t, b])
    import IO
    with IO.Proto.Reader(b) as rd:
        back = list(rd)
    need([y.ttable_str() for y in back] == [std(x.mach) for x in seq], "text converted back names other machines")
    need(all(not y.proto.status.halt_status.is_decided or x.kind == "halt" for x, y in zip(seq, back)), "text converted back is decided")
    o = S.path(".old.txt")
    tool("IO_Convert", [files[0], o])
    lines = open(o).read().splitlines()
    need(len(lines) == len(seq), "%d lines of old text for %d records" % (len(lines), len(seq)))
    for x, line in zip(seq, lines):
        cells, _, rest = line.partition("|")
        rows = std(x.mach).split("_")
        need(cells.split() == [r[i:i + 3] for r in rows for i in range(0, len(r), 3)], "old text line %r for %s" % (line, std(x.mach)))
        word = {"unk": "Unknown", "halt": "Halt", "inf": "Infinite"}[x.kind]
        f = rest.split()
        need(len(f) > 1 and f[1] == word, "old text line %r for a record of kind %s" % (line, x.kind))
        if x.kind == "halt":
            for got, v in zip(f[2:4], (x.score, x.steps)):
                if isinstance(v, int):
                    need(got == str(v), "old text line %r: %s instead of %d" % (line, got, v))
        if x.kind == "inf" and x.qh and isinstance(x.qsteps, int):
            need(f[-1] == str(x.qsteps), "old text line %r: quasihalting after %d" % (line, x.qsteps))
        if x.kind == "inf" and not x.qh:
            need(not f[-1].isdigit(), "old text line %r claims quasihalting" % line)
    if len(seq) == 1:
        o = S.path(".morphett")
        tool("IO_Convert", [files[0], o])
        b = S.path(".pb")
        tool("IO_Convert", [o, b])
        with IO.Proto.Reader(b) as rd:
            back = list(rd)
        need(len(back) == 1 and back[0].ttable_str() == std(seq[0].mach), "morphett format names another machine")


def zero_reflexive(mach):
    rows = std(mach).split("_")
    return any(r[:3] == "---" or r[2] == "ABCDEFGHIJ"[q] for q, r in enumerate(rows))


def t_split(S, seq, files):
    if len(files) != 1:
        return
    a, b = S.path(".pb"), S.path(".pb")
    out = tool("Zero_Reflexive", [files[0], a, b])
    yes = [x.key for x in seq if zero_reflexive(x.mach)]
    no = [x.key for x in seq if not zero_reflexive(x.mach)]
    need(keys(a) == yes and keys(b) == no, "Zero_Reflexive splits %d/%d instead of %d/%d" % (len(keys(a)), len(keys(b)), len(yes), len(no)))
    m = re.search(r"TMs: ([\d_]+) / ([\d_]+)", out)
    need(m and (int(m.group(1)), int(m.group(2))) == (len(yes), len(seq)), "Zero_Reflexive prints " + out)


def t_analyze(S, seq, files):
    out = tool("TM_Analyze", files)
    if not seq:
        need("No Records" in out, "TM_Analyze of nothing: " + out)
        return
    n = {k: sum(x.kind == k for x in seq) for k in ("unk", "halt", "inf")}
    need(number(out, r"Total: ([\d_]+)") == len(seq), "TM_Analyze total")
    for word, k in (("Unknown", "unk"), ("Halt", "halt"), ("Infinite", "inf")):
        need(number(out, r"\n%s: ([\d_]+)" % word) == n[k], "TM_Analyze counts %s: %s" % (word, out[:300]))
    q = sum(bool(x.qh) for x in seq)
    need(not q or number(out, r"\nQuasihalt: ([\d_]+)") == q, "TM_Analyze counts quasihalting")
    body = out.partition("\nHalt:")[2]
    for word, attr in (("Steps", "steps"), ("Score", "score")):
        vals = [getattr(x, attr) for x in seq if x.kind == "halt" and getattr(x, attr) is not None]
        if vals and all(isinstance(v, int) and v < 10 ** 10 for v in vals):
            need(number(body, r"%s: Max ([\d_]+)" % word) == max(vals), "TM_Analyze: greatest halting %s" % attr)
    import io_pb2
    body = out.partition("\nInfinite:")[2]
    for reason, cnt in Counter(x.reason for x in seq if x.kind == "inf").items():
        need(number(body, r"- %s\s+:\s+([\d_]+)" % io_pb2.InfReason.Name(reason)) == cnt, "TM_Analyze counts %s" % reason)


TOOLS = [t_categorize, t_sort, t_count, t_find, t_convert, t_split, t_analyze]


def sl_tools(part, r):
    alpha = alphabet()
    ranks(alpha)
    S = Scratch()
    try:
        for idx in part:
            seq = [alpha[i] for i in idx]
            for cut in [None] + ([1] if len(seq) == 2 else [0, 2] if len(seq) == 3 else []):
                S.wipe()
                files = []
                for piece in ([seq] if cut is None else [seq[:cut], seq[cut:]]):
                    p = S.path(".pb")
                    put(p, [x.rec for x in piece])
                    files.append(p)
                for t in TOOLS:
                    r.states += 1
                    try:
                        t(S, seq, files)
                    except Failed as e:
                        r.fail(t.__name__, "%s on [%s]%s: %s" % (t.__name__[2:], ", ".join(x.name for x in seq),
                               " in two files" if cut is not None else "", e), records=[x.name for x in seq], cut=cut)
                    r.transitions += len(seq)
                for p, piece in zip(files, [seq] if cut is None else [seq[:cut], seq[cut:]]):
                    if keys(p) != [x.key for x in piece]:
                        r.fail("input", "a tool changed its input file", records=[x.name for x in seq])
                r.traces += 1
        r.sample("records %s through %d tools" % ([x.name for x in seq], len(TOOLS)))
    finally:
        S.close()


# ---------------------------------------------------------------- torn input files
def sl_torn(part, r):
    alpha = alphabet()
    S = Scratch()
    try:
        for idx in part:
            seq = [alpha[i] for i in idx]
            S.wipe()
            full = S.path(".pb")
            put(full, [x.rec for x in seq])
            data = open(full, "rb").read()
            ends = list(itertools.accumulate(4 + len(x.rec.proto.SerializeToString()) for x in seq))
            if ends[-1] != len(data):
                r.count("other_layout")
                continue
            for cut in range(len(data)):
                S.wipe()
                f = S.path(".pb")
                open(f, "wb").write(data[:cut])
                want = [x for x, e in zip(seq, ends) if e <= cut]
                clean = cut in [0] + ends
                r.states += 1
                r.transitions += 5
                try:
                    o = S.path(".pb")
                    tool("IO_Sort", [f, o])
                    need(Counter(keys(o)) == Counter(x.key for x in want), "IO_Sort keeps other records than the complete ones")
                    o = S.path(".pb")
                    tool("IO_Sample", [f, "--out-file", o, "-n", 5])
                    need(Counter(keys(o)) == Counter(x.key for x in want), "IO_Sample keeps other records than the complete ones")
                    out = tool("TM_Analyze", [f])
                    need(number(out, r"Total: ([\d_]+)") == len(want) if want else "No Records" in out, "TM_Analyze counts other records than the complete ones")
                    out = tool("IO_Count", [f])
                    need(number(out, r"Total # TMs: ([\d_]+)") == len(want), "IO_Count counts other records than the complete ones")
                    o = S.path(".pb")
                    tool("IO_Convert", [f, o], expect_error=not clean)
                    need(keys(o) == [x.key for x in want], "IO_Convert keeps other records than the complete ones")
                except Failed as e:
                    r.fail("torn", "[%s] cut at byte %d of %d: %s" % (", ".join(x.name for x in seq), cut, len(data), e), records=[x.name for x in seq], cut=cut)
            r.traces += 1
    finally:
        S.close()


# ---------------------------------------------------------------- sampling: all outcomes of the random choices
class Unknown(Exception):
    pass


class Choices:
    """Replays one path of random outcomes; each outcome carries its exact probability."""
    def __init__(self, path):
        self.path, self.at, self.weight = path, 0, Fraction(1)
        self.options = []

    def pick(self, weights):
        """weights: probabilities of outcomes 0..k-1 (zero ones are skipped)."""
        opts = [i for i, w in enumerate(weights) if w]
        if self.at == len(self.path):
            self.path.append(0)
        k = self.path[self.at]
        self.options.append(len(opts))
        self.at += 1
        self.weight *= weights[opts[k]]
        return opts[k]

    def advance(self):
        while self.path:
            self.path[-1] += 1
            if self.path[-1] < self.options[len(self.path) - 1]:
                return True
            self.path.pop()
        return False


class Uniform:
    """random(): known to lie in [lo, hi); comparisons branch."""
    def __init__(self, ch):
        self.ch, self.lo, self.hi = ch, Fraction(0), Fraction(1)

    def below(self, p):
        p = Fraction(p).limit_denominator(1000) if isinstance(p, float) else Fraction(p)
        p = min(max(p, self.lo), self.hi)
        w = (p - self.lo) / (self.hi - self.lo)
        if self.ch.pick([w, 1 - w]) == 0:
            self.hi = p
            return True
        self.lo = p
        return False

    def __lt__(self, p): return self.below(p)
    def __le__(self, p): return self.below(p)
    def __gt__(self, p): return not self.below(p)
    def __ge__(self, p): return not self.below(p)

    def __mul__(self, k):
        if not isinstance(k, int):
            raise Unknown("random() * %r" % (k,))
        return Scaled(self, k)
    __rmul__ = __mul__


class Scaled:
    def __init__(self, u, k):
        self.u, self.k = u, k

    def __lt__(self, p): return self.u.below(Fraction(p) / self.k)
    def __le__(self, p): return self.u.below(Fraction(p) / self.k)
    def __gt__(self, p): return not self.u.below(Fraction(p) / self.k)
    def __ge__(self, p): return not self.u.below(Fraction(p) / self.k)

    def __int__(self):
        return self.u.ch.pick([Fraction(1, self.k)] * self.k)
    __floor__ = __trunc__ = __int__


class FakeRandom:
    def __init__(self, ch):
        self.ch = ch

    def __getattr__(self, name):
        raise Unknown("random." + name)

    def random(self):
        return Uniform(self.ch)

    def randrange(self, a, b=None, step=1):
        v = range(a) if b is None else range(a, b, step)
        return v[self.ch.pick([Fraction(1, len(v))] * len(v))]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, seq):
        return seq[self.randrange(len(seq))]

    def shuffle(self, seq):
        pass    # the order of the sample is not claimed


def sl_sample(part, r):
    """IO_Sample: on every outcome of the random choices a sub-multiset of the right size; exact inclusion probabilities."""
    import random
    alpha = alphabet()
    recs = alpha[6:14]
    S = Scratch()
    names = ("random", "randrange", "randint", "choice", "shuffle")
    others = [n for n in dir(random) if not n.startswith("_") and callable(getattr(random, n)) and n not in names and n not in ("Random", "SystemRandom", "seed", "getstate", "setstate")]
    old = {n: getattr(random, n) for n in names + tuple(others)}
    try:
        for total, size, cut in part:
            S.wipe()
            seq = recs[:total]
            files = []
            for piece in ([seq] if cut is None else [seq[:cut], seq[cut:]]):
                p = S.path(".pb")
                put(p, [x.rec for x in piece])
                files.append(p)
            o = S.path(".pb")
            path, incl, mass = [], Counter(), Fraction(0)
            exact = True
            while True:
                ch = Choices(path)
                fake = FakeRandom(ch)
                unknown = False

                def other(*a, **k):
                    raise Unknown("other")
                try:
                    for n in names:
                        setattr(random, n, getattr(fake, n))
                    for n in others:
                        setattr(random, n, other)
                    old_argv, out = sys.argv, io.StringIO()
                    sys.argv = ["IO_Sample.py"] + files + ["--out-file", o, "-n", str(size)]
                    try:
                        with contextlib.redirect_stdout(out):
                            runpy.run_path(os.path.join(vp.CODE, "IO_Sample.py"), run_name="__main__")
                    finally:
                        sys.argv = old_argv
                except (Unknown, TypeError) as e:
                    if isinstance(e, TypeError) and "Uniform" not in str(e) and "Scaled" not in str(e):
                        raise
                    unknown = True
                finally:
                    for n, f in old.items():
                        setattr(random, n, f)
                if unknown:
                    # random choices made in a way this harness cannot enumerate: only the outcome is judged
                    exact = False
                    out = io.StringIO(tool("IO_Sample", files + ["--out-file", o, "-n", size]))
                got = keys(o)
                r.states += 1
                r.transitions += total
                ks = [x.key for x in seq]
                if len(got) != min(size, total) or Counter(got) - Counter(ks):
                    r.fail("sample", "sampling %d of %d records: %d written, %d of them not distinct input records" % (
                        size, total, len(got), sum((Counter(got) - Counter(ks)).values())), total=total, size=size, cut=cut, choices=list(path))
                    break
                if number(out.getvalue(), r"Scanned ([\d_]+) total") != total:
                    r.fail("sample-total", "IO_Sample of %d records prints %r" % (total, out.getvalue()), total=total, size=size)
                    break
                if unknown:
                    break
                mass += ch.weight
                for k in got:
                    incl[k] += ch.weight
                if not ch.advance():
                    break
            else:
                pass
            r.traces += 1
            if exact and total > 0 and mass == 1:
                r.count("exact_distributions")
                want = Fraction(min(size, total), total)
                bad = [x.name for x in seq if incl[x.key] != want]
                if bad:
                    r.fail("sample-bias", "sampling %d of %d: record %s is taken with probability %s instead of %s" % (
                        size, total, bad[0], incl[[x for x in seq if x.name == bad[0]][0].key], want), total=total, size=size, cut=cut)
    except Failed as e:
        r.fail("sample", str(e))
    finally:
        S.close()


# ---------------------------------------------------------------- filters
FILTERS = [
    ("CPS_Filter", "--block-size=1"), ("CPS_Filter", "--max-block-size=2 --max-steps=200"), ("CPS_Filter", "--max-window-size=4"),
    ("CTL_Filter", "--type=CTL1 --block-size=1 --cutoff=30"), ("CTL_Filter", "--type=CTL2 --max-block-size=2 --all-offsets --cutoff=40"),
    ("CTL_Filter", "--type=CTL3 --block-size=1 --cutoff=30 --no-backsymbol"), ("CTL_Filter", "--type=CTL4 --block-size=2 --offset=1 --cutoff=30"),
    ("Backtracking_Filter", "--steps=10"), ("Backtracking_Filter", "--steps=20 --max-width=100"),
    ("Reverse_Engineer_Filter", ""),
]
FILTER_ALPHA = ["1RB1LB_1LA1RZ", "1RB---_1LB0LB", "1RB1RZ_1LB1RB", "1RB0RB_1LA---", "1RB1RZ_0LA1LB", "1RB1LA_0LA1RZ", "1RB1LB_1RA1RZ", "1RB---_0LB1RA"]


def verdict(rec):
    h = rec.proto.status.halt_status
    return (h.is_decided, h.is_halting)


def strip(rec):
    """The record without times."""
    import io_pb2
    p = io_pb2.TMRecord()
    p.CopyFrom(rec.proto)

    def walk(m):
        for f, v in list(m.ListFields()):
            if f.name.startswith("elapsed_time"):
                m.ClearField(f.name)
            elif f.message_type is not None:
                rep = f.label == f.LABEL_REPEATED if not hasattr(f, "is_repeated") else f.is_repeated
                for x in (v if rep else [v]):
                    walk(x)
    walk(p)
    return p.SerializeToString(deterministic=True)


_truth = {}


def halts(text):
    if text not in _truth:
        _truth[text] = ref.truth(ref.parse(text))[0]
    return _truth[text]


def run_filter(S, name, opts, texts, fmt, r, alone=None):
    import IO, TM_Enum
    from IO import TM_Record
    S.wipe()
    f, o = S.path(fmt), S.path(".pb")
    with IO.Writer(f) as w:
        for t in texts:
            w.write_record(TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(t), allow_no_halt=False)))
    r.states += 1
    r.transitions += len(texts)
    try:
        tool(name, ["--infile", f, "--outfile", o] + opts.split())
        with IO.Proto.Reader(o) as rd:
            got = list(rd)
        need([g.ttable_str() for g in got] == list(texts), "%d records in, %d out (or other machines)" % (len(texts), len(got)))
        for t, g in zip(texts, got):
            dec, hal = verdict(g)
            need(not dec or hal == halts(t), "%s recorded as %s" % (t, "halting" if hal else "infinite"))
            if dec:
                r.count("decided_by_filter")
            h = g.proto.status.halt_status
            need(dec or not (hal or h.inf_reason), "%s undecided but with a verdict" % t)
            if alone is not None:
                need(strip(g) == alone[t], "the record of %s depends on the records before it" % t)
        return {t: strip(g) for t, g in zip(texts, got)}
    except Failed as e:
        r.fail("filter", "%s %s on %s: %s" % (name, opts, texts if len(texts) < 4 else "%d machines" % len(texts), e), filter=name, options=opts, machines=texts[:50])


def sl_filters(part, r):
    S = Scratch()
    try:
        for name, opts, what in part:
            if what == "all":
                for n, m in ((2, 2), (3, 2)) + (((2, 3),) if vp.THOROUGH else ()):
                    texts = sorted({ref.tm_str(tm) for tm, _ in ref.tnf(n, m)} | {ref.tm_str(ref.fill_halt(tm)) for tm, _ in ref.tnf(n, m)})
                    run_filter(S, name, opts, texts, ".pb", r)
            else:
                alone = {}
                for t in FILTER_ALPHA:
                    got = run_filter(S, name, opts, [t], ".pb", r)
                    if got:
                        alone.update(got)
                if len(alone) < len(FILTER_ALPHA):
                    continue
                for k in (2, 3):
                    for texts in itertools.product(FILTER_ALPHA[:None if k == 2 or vp.THOROUGH else 3], repeat=k):
                        run_filter(S, name, opts, texts, ".txt" if k == 2 else ".pb", r, alone)
            r.traces += 1
    finally:
        S.close()


def sl_resim(part, r):
    """Re_Sim: simulating recorded machines again keeps them in place and gives true verdicts only."""
    import IO, TM_Enum, Halting_Lib
    from IO import TM_Record
    S = Scratch()
    try:
        for block, back, loops, lin, before in part:
            texts = sorted({ref.tm_str(ref.fill_halt(tm)) for tm, _ in ref.tnf(2, 2)})
            if vp.THOROUGH:
                texts += sorted({ref.tm_str(ref.fill_halt(tm)) for tm, _ in ref.tnf(3, 2)})
            S.wipe()
            f, o = S.path(".pb"), S.path(".pb")
            with IO.Writer(f) as w:
                for t in texts:
                    rec = TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(t), allow_no_halt=False))
                    p = rec.proto.filter.simulator
                    p.parameters.block_size = block
                    p.parameters.has_blocksymbol_macro = back
                    p.parameters.max_loops = loops
                    p.parameters.max_tape_blocks = 50
                    p.result.num_linear_rules_proven = lin
                    if before:
                        # whatever was recorded before is replaced by what the simulation finds
                        rec.proto.status.halt_status.is_decided = True
                        p.result.unknown_info.over_loops.num_loops = 3
                    w.write_record(rec)
            r.states += 1
            r.transitions += len(texts)
            try:
                tool("Re_Sim", [f, o])
                with IO.Proto.Reader(o) as rd:
                    got = list(rd)
                need([g.ttable_str() for g in got] == texts, "%d records in, %d out (or other machines)" % (len(texts), len(got)))
                for t, g in zip(texts, got):
                    dec, hal = verdict(g)
                    if not dec:
                        continue
                    r.count("decided_by_resim")
                    tr = ref.truth(ref.parse(t))
                    need(hal == tr[0], "%s recorded as %s" % (t, "halting" if hal else "infinite"))
                    if hal:
                        h = g.proto.status.halt_status
                        st, sc = Halting_Lib.get_big_int(h.halt_steps), Halting_Lib.get_big_int(h.halt_score)
                        need(sc == tr[2] and (lin or st == tr[1]), "%s recorded with %s steps, score %s instead of %s, %s" % (t, st, sc, tr[1], tr[2]))
            except Failed as e:
                r.fail("resim", "Re_Sim with block size %d, back symbol %s, %d loops: %s" % (block, back, loops, e), block=block, back=back, loops=loops, lin=lin)
            r.traces += 1
    finally:
        S.close()


def script(path, args, patch=None):
    """Run a script of the repository as a command line would."""
    old, out = sys.argv, io.StringIO()
    sys.argv = [os.path.basename(path)] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out), (patch or contextlib.nullcontext()):
            runpy.run_path(os.path.join(vp.REPO, path), run_name="__main__")
    except SystemExit as e:
        if e.code not in (None, 0):
            raise Failed("%s exits with %r" % (path, e.code))
    except Exception as e:
        raise Failed("%s raises %s: %s" % (path, type(e).__name__, e))
    finally:
        sys.argv = old


def sl_lines(part, r):
    """venn_diff: all pairs of short line sequences."""
    d = tempfile.mkdtemp(prefix="c23_")
    try:
        L, R, I, A, B = (os.path.join(d, x) for x in "LRIAB")
        for left in part:
            for n in range(4):
                for right in itertools.product("abcd", repeat=n):
                    for p, w in ((L, left), (R, right)):
                        with open(p, "w") as f:
                            f.write("".join(x + "\n" for x in w))
                    r.states += 1
                    r.transitions += len(left) + len(right)
                    try:
                        script("Tools/venn_diff.py", [L, R, I, A, B])
                    except Failed as e:
                        r.fail("venn", "%r and %r: %s" % (left, right, e), left=left, right=right)
                        continue
                    got = [set(open(x).read().split("\n")) - {""} for x in (I, A, B)]
                    want = [set(left) & set(right), set(left) - set(right), set(right) - set(left)]
                    if got != want:
                        r.fail("venn", "%r and %r are split into %r" % (left, right, got), left=left, right=right)
    finally:
        shutil.rmtree(d)


def sl_line_sample(part, r):
    """Random_Sample: every choice of line numbers gives exactly these lines."""
    import random
    from unittest import mock
    d = tempfile.mkdtemp(prefix="c23_")
    try:
        p = os.path.join(d, "in")
        for n, k in part:
            with open(p, "w") as f:
                f.write("".join("line %d\n" % i for i in range(n)))
            for pick in itertools.permutations(range(n), k):
                asked = []

                def sample(pop, size):
                    pop = list(pop)
                    asked.append((len(pop), len(set(pop)), size))
                    return [pop[i] for i in pick]
                r.states += 1
                try:
                    script("Code/Random_Sample.py", [p, n, k], mock.patch.object(random, "sample", sample))
                except Failed as e:
                    r.fail("line-sample", "%d of %d lines: %s" % (k, n, e), n=n, k=k)
                    continue
                if not asked:
                    r.count("line sampling by other means")
                got = open(p + ".sample").read().split("\n")[:-1]
                lines = ["line %d" % i for i in range(n)]
                if len(got) != k or len(set(got)) != k or not set(got) <= set(lines) or (asked == [(n, n, k)] and sorted(got) != sorted(lines[i] for i in pick)):
                    r.fail("line-sample", "%d of %d lines, choice %r: %r" % (k, n, pick, got), n=n, k=k)
    finally:
        shutil.rmtree(d)


BBC = ["1RB1LA_0LC---_1RD1LE_0RA1RZ_1LA0RE", "1RB---_1LA1RB_1RD1LC_1RZ0RE_0LE1LD", "1LB1RA_1RC1LZ_---0RD_1LE1RB_0LC1RA"]


def sl_bbc(part, r):
    """IO_Convert reads bbchallenge databases and index files (named or detected format) completely and in order."""
    import zipfile
    raw = [b"".join(bytes((0, 0, 0) if c == "---" else (int(c[0]), "RL".index(c[1]), "ZABCDE".index(c[2])))
                    for row in t.split("_") for c in (row[:3], row[3:])) for t in BBC]
    S = Scratch()
    try:
        for seq, idx in part:
            db = S.path(".db.zip")
            with zipfile.ZipFile(db, "w") as z:
                z.writestr("x.db", bytes(30) + b"".join(raw[i] for i in seq))
            p1, p2 = S.path(".index"), S.path(".index.txt")
            open(p1, "wb").write(b"".join(i.to_bytes(4, "big") for i in idx))
            open(p2, "w").write("".join("%d\n" % i for i in idx))
            want = [BBC[seq[i]] for i in idx]
            for src, fmt, exp in ((db, "bbc_db", [BBC[i] for i in seq]), (p1, "bbc_index", want), (p2, "bbc_index_text", want)):
                for named in (False, True):
                    for suffix, ofmt in ((".pb", "proto"), (".pb.gz", "proto"), (".txt", "text")):
                        o = S.path(suffix)
                        r.states += 1
                        r.transitions += len(exp)
                        try:
                            out = tool("IO_Convert", [src, o, "--bbc-seed-db", db] + (["--informat", fmt, "--outformat", ofmt] if named else []))
                            need(number(out, r"Converted ([\d_]+) records") == len(exp), "count printed by IO_Convert")
                            if suffix == ".txt":
                                got = [x.split()[0] for x in open(o)]
                            else:
                                import IO
                                with IO.Proto.Reader(o) as rd:
                                    got = [x.ttable_str() for x in rd]
                            need(got == exp, "gives %s instead of %s" % (got, exp))
                        except Failed as e:
                            r.fail("bbc-convert", "%s of database %s, indexes %s to %s: %s" % (fmt, seq, idx, suffix, e), seq=seq, idx=idx)
            r.traces += 1
            S.wipe()
    finally:
        shutil.rmtree(S.dir)


def body(c):
    alpha = alphabet()
    n = len(alpha)
    idx = {x.name: i for i, x in enumerate(alpha)}
    core = [idx[x] for x in CORE]
    seqs = [()] + [(i,) for i in range(n)] + list(itertools.product(range(n), repeat=2))
    k = 10 if vp.THOROUGH else 6
    seqs += list(itertools.product(core[:k], repeat=3))
    c.run(sl_tools, vp.slices(seqs, 40), "tools")
    c.run(sl_torn, [[(i, j)] for i, j in itertools.product([idx["halt 6"], idx["not run"], idx["inf 5"]], repeat=2)], "torn")
    cases = [(t, s, cut) for t in range(0, 8 if vp.THOROUGH else 6) for s in range(0, 4) for cut in [None] + list(range(t + 1))
             if vp.THOROUGH or cut in (None, 0, 1, 3)]
    c.run(sl_sample, vp.slices(cases, 16), "sample")
    c.run(sl_lines, vp.slices([w for n in range(4) for w in itertools.product("abcd", repeat=n)], 16), "lines of two files")
    c.run(sl_line_sample, [[(n, k)] for n in range(2, 9) for k in range(n // 2 + 1)], "sample of lines")
    c.run(sl_filters, [[(f, o, w)] for f, o in FILTERS for w in ("all", "seq")], "filters")
    c.run(sl_bbc, vp.slices([(q, i) for n in range(4) for q in itertools.product(range(3), repeat=n) for k in range(3) for i in itertools.product(range(n), repeat=k)], 32), "bbchallenge files")
    c.run(sl_resim, [[x] for x in itertools.product((1, 2, 3), (False, True), (5, 200), (0, 1), (False, True))], "resim")
    c.extra["bounds"] = {"record alphabet": n, "record sequences": len(seqs), "sampling cases": len(cases), "filter option sets": len(FILTERS)}
    c.assumptions.append("record files are written with the repository's own writer, whose exactness is property C13")


if __name__ == "__main__":
    vp.main(body, "C23")
