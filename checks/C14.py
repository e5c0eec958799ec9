"""C14: every machine survives conversion between representations."""
import os, sys, itertools, tempfile, shutil, zipfile, io
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref

BIG = [(24, 9), (23, 9), (25, 9), (24, 10), (25, 2), (26, 2), (30, 2), (2, 12), (3, 30), (12, 11), (130, 2), (1, 140), (300, 3)]


def build(tm):
    """The machine object for a reference table, made without any of the conversions."""
    from Macro import Turing_Machine
    q = []
    for i, row in enumerate(tm):
        for j, c in enumerate(row):
            if c is not None:
                q.append((i, j) + (c[0], c[1], c[2]))
    return Turing_Machine.tm_from_quintuples(q, states=list(range(len(tm))), symbols=list(range(len(tm[0]))))


def table(m):
    from Macro import Turing_Machine as T
    out = []
    for row in m.trans_table:
        cells = []
        for t in row:
            if t.condition == T.UNDEFINED:
                cells.append(None)
            elif t.condition == T.HALT:
                cells.append((t.symbol_out, t.dir_out, -1))
            else:
                cells.append((t.symbol_out, t.dir_out, int(t.state_out)))
        out.append(tuple(cells))
    return tuple(out)


def deep(m):
    """Everything a simulator can see of a machine, except names."""
    return (m.num_states, m.num_symbols, m.init_state, m.init_symbol, m.init_dir,
            tuple(tuple((t.condition, repr(t.condition_details), t.symbol_out, int(t.state_out), t.dir_out, t.num_base_steps, repr(t.states_last_seen))
                        for t in row) for row in m.trans_table))


def names(m):
    return (list(m.states), list(m.symbols))


def c_text(m):
    import IO
    return IO.parse_tm(m.ttable_str())


def c_get(m):
    import IO
    return IO.get_tm(m.ttable_str())


def c_pack(m):
    from IO import TM_Record as R
    return R.unpack_tm(R.pack_tm(m))


def c_list(m):
    from IO import TM_Record as R
    import io_pb2
    p = io_pb2.TMList()
    R.tm_to_list(m, p)
    q = io_pb2.TMList()
    q.ParseFromString(p.SerializeToString())
    return R.tm_from_list(q)


def c_proto(m):
    from IO import TM_Record as R
    import io_pb2
    p = io_pb2.TuringMachine()
    R.write_tm(m, p)
    R.write_tm(m, p)          # rewriting a record must not change it
    q = io_pb2.TuringMachine()
    q.ParseFromString(p.SerializeToString())
    return R.read_tm(q)


def c_old_text_field(m):
    from IO import TM_Record as R
    import io_pb2
    p = io_pb2.TuringMachine()
    p.ttable_str = m.ttable_str()
    return R.read_tm(p)


def c_record(m):
    from IO.TM_Record import TM_Record
    import TM_Enum, io_pb2
    p = io_pb2.TMRecord()
    a = TM_Record(tm_enum=TM_Enum.TM_Enum(m, allow_no_halt=True))
    a.update_tm(a.tm_enum())
    p.ParseFromString(a.proto.SerializeToString())
    b = TM_Record(proto=p)
    if not b.tm_enum().allow_no_halt:
        raise ValueError("allow_no_halt is lost")
    return b.tm()


def small_text(tm):
    return len(tm) < 25 and len(tm[0]) < 10


FORMATS = {"text": (c_text, small_text), "literal": (c_get, small_text),
           "packed": (c_pack, lambda t: len(t) <= 7 and len(t[0]) <= 7), "list": (c_list, lambda t: True),
           "proto": (c_proto, lambda t: True), "text field": (c_old_text_field, small_text), "record": (c_record, lambda t: True)}


def check(tm, r, chains=1):
    m = build(tm)
    if table(m) != tm:
        raise vp.HarnessError("cannot build %r" % (tm,))
    d0, n0 = deep(m), names(m)
    r.states += 1
    fs = [f for f, (_, ok) in FORMATS.items() if ok(tm)]
    text = m.ttable_str()
    want = ref.tm_str(tm)
    if small_text(tm) and text != want:
        r.fail("print", "printed as %s instead of %s" % (text, want), tm=want)
    for k in range(1, chains + 1):
        for chain in itertools.product(fs, repeat=k):
            x = m
            for f in chain:
                x = FORMATS[f][0](x)
                r.transitions += 1
            if table(x) != tm or deep(x) != d0 or names(x) != n0:
                r.fail("roundtrip %s" % chain[0], "%s through %s becomes %s" % (want[:200], " then ".join(chain), ref.tm_str(table(x))[:200]), tm=want[:500], chain=chain)
            if deep(m) != d0 or names(m) != n0:
                r.fail("modified %s" % chain[0], "converting %s through %s modifies the machine" % (want[:200], " then ".join(chain)), tm=want[:500], chain=chain)
                m = build(tm)
            r.traces += 1


def cells(n, m):
    return [None] + [(s, d, q) for q in range(-1, n) for d in (0, 1) for s in range(m)]


def backgrounds(n, m):
    und = tuple((None,) * m for _ in range(n))
    full = tuple(tuple(((i + j + 1) % m, (i + j) % 2, (i * m + j + 1) % n) for j in range(m)) for i in range(n))
    return [und, full]


def sl_shape(part, r):
    for n, m, bi in part:
        bg = backgrounds(n, m)[bi]
        for i in range(n):
            for j in range(m):
                for c in cells(n, m):
                    check(ref.set_cell(bg, i, j, c), r)
        r.count("shapes")


def sl_big(part, r):
    for n, m, bi in part:
        bg = backgrounds(n, m)[bi]
        for i in sorted({0, 1, n // 2, n - 1} & set(range(n))):
            for j in sorted({0, 1, m // 2, m - 1} & set(range(m))):
                for c in [None] + [(s, d, q) for s in sorted({0, 1, m // 2, m - 1}) for d in (0, 1) for q in sorted({-1, 0, n // 2, n - 1})]:
                    check(ref.set_cell(bg, i, j, c), r)
        r.count("shapes")


def sl_all(part, r):
    n, m, first, chains = part
    cs = cells(n, m)
    for rest in itertools.product(cs, repeat=n * m - 1):
        flat = (first,) + rest
        check(tuple(tuple(flat[i * m:(i + 1) * m]) for i in range(n)), r, chains)


def sl_halt_letters(part, r):
    """Any state letter beyond the machine's states means halt."""
    import IO, string
    for n in range(1, 8):
        for L in string.ascii_uppercase[n:]:
            text = "_".join(["1RA0L%s" % L] * n)
            got = table(IO.parse_tm(text))
            r.states += 1
            if got != (((1, 1, 0), (0, 0, -1)),) * n:
                r.fail("letter", "%s is read as %s" % (text, ref.tm_str(got)), tm=text)


def files(tms, d, r, what):
    """Through files, in one batch per format; Morphett holds one machine per file."""
    import IO, TM_Enum
    from IO.TM_Record import TM_Record
    for ext in (".txt", ".txt.gz", ".pb", ".pb.gz"):
        ms = [t for t in tms if ext.startswith(".pb") or small_text(t)]
        path = os.path.join(d, "f" + ext)
        objs = [build(t) for t in ms]
        before = [deep(o) for o in objs]
        with IO.Writer(path) as w:
            for o in objs:
                x = TM_Record(tm_enum=TM_Enum.TM_Enum(o, allow_no_halt=False))
                w.write_record(x)
        with IO.Reader(path) as rd:
            got = [x.tm() for x in rd]
        r.states += len(ms)
        r.transitions += len(ms)
        r.traces += len(ms)
        if len(got) != len(ms):
            r.fail("count" + ext, "%s: %d machines written to %s, %d read" % (what, len(ms), ext, len(got)))
            continue
        for t, o, b, g in zip(ms, objs, before, got):
            if deep(g) != b or table(g) != t:
                r.fail("file" + ext, "%s through a %s file becomes %s" % (ref.tm_str(t)[:200], ext, ref.tm_str(table(g))[:200]), tm=ref.tm_str(t)[:500])
            if deep(o) != b:
                r.fail("modified" + ext, "writing %s to a %s file modifies it" % (ref.tm_str(t)[:200], ext), tm=ref.tm_str(t)[:500])
        os.unlink(path)


def morphett_ok(t):
    """Every state and symbol is named in order: first row complete, every state has a cell."""
    return all(c is not None for c in t[0]) and all(any(c is not None for c in row) for row in t)


def morphett(tms, d, r):
    import IO, TM_Enum
    from IO.TM_Record import TM_Record
    for t in tms:
        if not morphett_ok(t):
            continue
        for ext in (".morphett", ".morphett.gz"):
            o = build(t)
            b, nm = deep(o), names(o)
            path = os.path.join(d, "f" + ext)
            with IO.Writer(path) as w:
                w.write_record(TM_Record(tm_enum=TM_Enum.TM_Enum(o, allow_no_halt=False)))
            got = IO.load_tm(path, 0)
            with IO.Reader(path) as rd:
                (rec,) = list(rd)
            r.states += 1
            r.transitions += 3
            r.traces += 1
            for g in (got, rec.tm()):
                if deep(g) != b:
                    r.fail("morphett", "%s through Morphett format becomes %s" % (ref.tm_str(t)[:200], ref.tm_str(table(g))[:200]), tm=ref.tm_str(t)[:500])
            # and on into the other formats
            g = c_record(rec.tm())
            if deep(g) != b:
                r.fail("morphett", "%s through Morphett format and a record becomes %s" % (ref.tm_str(t)[:200], ref.tm_str(table(g))[:200]), tm=ref.tm_str(t)[:500])
            if deep(o) != b or names(o) != nm:
                r.fail("modified", "writing %s in Morphett format modifies it" % ref.tm_str(t)[:200], tm=ref.tm_str(t)[:500])
            os.unlink(path)


DECOR = [("", ""), ("; a comment\n", ""), ("\n", ""), ("   \n;\n", ""), ("", " ; goes on"), ("", ";x 1 0 l y"), ("", " !"), ("  ", "  "), (";A 0 1 r A\n", " ! ; stop here"), ("\t", "")]


def sl_morphett_text(part, r):
    """Hand-written Morphett files: every decoration on every line, state and symbol names, spellings of halt."""
    import IO
    d = tempfile.mkdtemp(prefix="c14_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    path = os.path.join(d, "f.morphett")
    try:
        for t, names_, halt in part:
            n, m = len(t), len(t[0])
            syms = ["_"] + [names_[1] % k for k in range(1, m)]
            lines = []
            for q in range(n):
                for s in range(m):
                    if t[q][s] is not None:
                        so, di, qo = t[q][s]
                        lines.append(" ".join((names_[0] % q, syms[s], syms[so], "lr"[di], halt if qo < 0 else names_[0] % qo)))
            for i in range(len(lines) + 1):
                for a, b in DECOR:
                    text = "\n".join(lines[:i] + ([a + lines[i] + b] if i < len(lines) else [a + ("" if b.strip(" !") in ("", "!") else b)]) + lines[i + 1:]) + "\n"
                    with open(path, "w") as f:
                        f.write(text)
                    r.states += 1
                    r.traces += 1
                    r.transitions += 1
                    got = table(IO.load_tm(path, 0))
                    if got != t:
                        r.fail("morphett-text", "%r is read as %s instead of %s" % (text, ref.tm_str(got), ref.tm_str(t)), text=text)
    finally:
        shutil.rmtree(d)


def sl_cga(part, r):
    """IO_CGA_to_Morphett: every cell value in every position, three ways of writing the file."""
    import io, contextlib, runpy, IO
    d = tempfile.mkdtemp(prefix="c14_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    a, b = os.path.join(d, "f.txt"), os.path.join(d, "f.morphett")
    old = sys.argv
    try:
        for t in part:
            for style in range(3):
                names = ("ABCDE", "QSTUV", "12345")[style]
                cell = lambda c: "- - -" if c is None else "H H H" if c[2] < 0 else "%d %s %s" % (c[0], "LR"[c[1]], names[c[2]])
                lines = ["%s  %s   %s" % (names[q], cell(t[q][0]), cell(t[q][1])) for q in range(len(t))]
                text = "\n".join(lines) if style == 0 else "# table\n\n" + "\n\n".join(x + "  # " + x for x in lines) + "\n"
                open(a, "w").write(text)
                r.states += 1
                r.traces += 1
                r.transitions += 1
                sys.argv = ["IO_CGA_to_Morphett.py", a, b]
                with contextlib.redirect_stdout(io.StringIO()):
                    runpy.run_path(os.path.join(vp.CODE, "IO_CGA_to_Morphett.py"), run_name="__main__")
                got = table(IO.load_tm(b, 0))
                if got != t:
                    r.fail("cga", "%r converted to Morphett form is read as %s instead of %s" % (text, ref.tm_str(got), ref.tm_str(t)), text=text)
    finally:
        sys.argv = old
        shutil.rmtree(d)


def sl_files(part, r):
    d = tempfile.mkdtemp(prefix="c14_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        for n, m in part:
            tms = []
            for bg in backgrounds(n, m):
                for i in range(n):
                    for j in range(m):
                        if n * m > 30 and (i not in (0, n - 1) and j not in (0, m - 1)):
                            continue
                        for c in cells(n, m) if n * m <= 30 else [None] + [(s, dd, q) for s in (0, m - 1) for dd in (0, 1) for q in (-1, 0, n - 1)]:
                            tms.append(ref.set_cell(bg, i, j, c))
            files(tms, d, r, "%dx%d" % (n, m))
            morphett(tms[:4000], d, r)
    finally:
        shutil.rmtree(d)


def sl_standard(part, r):
    """Halting at an undefined cell turns exactly that cell into the standard halt, in memory and in the record."""
    from IO.TM_Record import TM_Record
    import TM_Enum, io_pb2, Halting_Lib
    for n, m in part:
        for bg in backgrounds(n, m):
            for i in range(n):
                for j in range(m):
                    t = ref.set_cell(bg, i, j, None)
                    x = TM_Record(tm_enum=TM_Enum.TM_Enum(build(t), allow_no_halt=False))
                    Halting_Lib.set_halting(x.proto.status, halt_steps=5, halt_score=2, from_state=i, from_symbol=j)
                    x.standardize_halt_trans()
                    want = ref.set_cell(bg, i, j, (1, 1, -1))
                    p = io_pb2.TMRecord()
                    p.ParseFromString(x.proto.SerializeToString())
                    r.states += 1
                    r.transitions += 2
                    for where, y in (("in memory", x), ("in the record", TM_Record(proto=p))):
                        if deep(y.tm()) != deep(build(want)):
                            r.fail("standardize", "%dx%d: standardising cell (%d, %d) gives %s %s" % (n, m, i, j, ref.tm_str(table(y.tm()))[:200], where), tm=ref.tm_str(t)[:500])


def sl_oldtext(part, r):
    """The old text format prints the same table."""
    import io as _io
    from IO import OldText
    for n, m in part:
        for bg in backgrounds(n, m):
            for i in range(n):
                for j in range(m):
                    for c in cells(n, m):
                        t = ref.set_cell(bg, i, j, c)
                        r.states += 1
                        r.transitions += 1
                        got = OldText.display_ttable(build(t))
                        if got != "  ".join(" ".join(ref.cell_str(x) for x in row) for row in t):
                            r.fail("oldtext", "%s is printed as %s in the old format" % (ref.tm_str(t), got))


def sl_bbc(part, r):
    """Every cell value in every position of a BBC database entry."""
    import IO
    for i in range(10):
        for bg in backgrounds(5, 2):
            for s in (0, 1):
                for dd in (0, 1):
                    for q in range(6):
                        raw, want = [], []
                        for k in range(10):
                            c = bg[k // 2][k % 2]
                            b = (0, 0, 0) if c is None else (c[0], 1 - c[1], c[2] + 1)
                            if k == i:
                                b = (s, dd, q)
                                c = None if q == 0 and s == 0 else (s, 1 - dd, q - 1)
                            raw += b
                            want.append(c)
                        want = tuple(tuple(want[2 * a:2 * a + 2]) for a in range(5))
                        r.states += 1
                        r.transitions += 1
                        got = table(IO.BBC.unpack_tm(bytes(raw)))
                        if got != want:
                            r.fail("bbc", "BBC entry %s is read as %s instead of %s" % (raw, ref.tm_str(got), ref.tm_str(want)))


def body(c):
    hi = 9
    shapes = [(n, m, b) for n in range(1, hi + 1) for m in range(2, hi + 1) for b in (0, 1)]
    if not vp.THOROUGH:
        shapes = [x for x in shapes if x[0] * x[1] <= 36 or (x[0] * x[1] == 42 and x[2]) or x in ((7, 7, 1), (8, 8, 0), (7, 8, 1), (8, 7, 1), (9, 5, 0), (5, 9, 1))]
    shapes.sort(key=lambda s: -(s[0] * s[1]) ** 2)
    c.run(sl_shape, [[s] for s in shapes], "every cell value in every position")
    c.run(sl_big, [[(n, m, b)] for n, m in BIG for b in (0, 1)], "large tables")
    for n, m in [(1, 2), (1, 3), (2, 2)] + ([(1, 4)] if vp.THOROUGH else []):
        c.run(sl_all, [(n, m, f, 2) for f in cells(n, m)], "all %dx%d tables, chains of 2" % (n, m))
    c.run(sl_all, [(1, 2, f, 4 if vp.THOROUGH else 3) for f in cells(1, 2)], "all 1x2 tables, chains of 3")
    c.run(sl_files, [[s] for s in ((1, 2), (2, 2), (2, 3), (3, 2), (5, 2), (2, 5), (7, 3), (3, 8), (8, 2), (8, 8), (7, 7), (24, 2), (26, 2), (2, 12))], "files")
    ex = [t for t in itertools.islice(ref.all_tms(2, 2, halts="std", undef=True), 0, None) if morphett_ok(t)]
    ex = [t for t in ex if t[0][0] == (1, 1, 1)]
    c.run(sl_morphett_text, vp.slices([(t, nm, h) for t in ex for nm, h in ((("%d", "%d"), "halt"), (("q%d", "s%d"), "halt-accept"), (("State%d", "x%d"), "HALT"))], 64),
          "hand-written Morphett files")
    cga = [t for n in (2, 3, 5) for bg in backgrounds(n, 2) for i in range(n) for j in (0, 1) for x in [None, (1, 1, -1)] + [(s, dd, q) for s in (0, 1) for dd in (0, 1) for q in range(n)]
           for t in [ref.set_cell(tuple(tuple(y if y is None or y[2] >= 0 else (1, 1, -1) for y in row) for row in bg), i, j, x)] if morphett_ok(t)]
    c.run(sl_cga, vp.slices(cga, 32), "CGA tables")
    c.run(sl_bbc, [0], "BBC database entries")
    c.run(sl_standard, [[x] for x in ((1, 2), (2, 2), (5, 2), (2, 5), (7, 7), (7, 8), (8, 7), (8, 2), (2, 8), (9, 9), (26, 2), (2, 12))], "standard halt")
    c.run(sl_oldtext, [[x] for x in ((1, 2), (2, 2), (5, 2), (2, 5), (7, 3), (8, 4), (24, 2), (25, 2), (3, 10))], "old text format")
    c.run(sl_halt_letters, [0], "halt letters")
    c.assumptions = ["text form: fewer than 25 states and 10 symbols; packed form: at most 7 states and 7 symbols; Morphett form: first row complete and every state with a defined cell",
                     "conversions are applied to machines without stay moves (no format stores them)"]
    c.extra["bounds"] = dict(shapes="1-9 states x 2-9 symbols, every cell value in every position on 2 backgrounds; %s" % BIG,
                             all_tables="1x2, 1x3, 2x2 complete", chains="all of length 2 (2x2), 3 (1x2) over %d forms" % len(FORMATS))


vp.main(body, "C14")
