"""C13: record files survive writing, reading and truncation."""
import os, sys, itertools, tempfile, shutil, zipfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp


def rec(tm=None, fill=None, pad=None):
    from IO.TM_Record import TM_Record
    import IO, TM_Enum
    if tm:
        r = TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(tm), allow_no_halt=False))
    else:
        r = TM_Record()
    if fill:
        fill(r)
    if pad is not None:
        r.proto.filter.simulator.result.infinite_info.proof_system.rule = "x" * pad
    return r


def alphabet():
    import Halting_Lib, Exp_Int, io_pb2

    def halting(steps, score):
        def f(r):
            Halting_Lib.set_halting(r.proto.status, halt_steps=steps, halt_score=score, from_state=1, from_symbol=1)
        return f

    def inf(r):
        r.proto.status.halt_status.is_decided = True
        r.proto.status.halt_status.inf_reason = io_pb2.INF_LIN_RECUR
        r.proto.status.quasihalt_status.is_decided = True
        r.proto.filter.lin_recur.result.offset = -3
        r.proto.elapsed_time_us = 10

    e = Exp_Int.exp_int(3, 100) * 7 + 5
    T = "1RB1LB_1LA1RZ"
    return [rec(), rec("1RB---_---1LA"), rec(T), rec(T, halting(6, 4)), rec(T, halting(2 ** 200 + 1, 10)), rec(T, halting(e, e)),
            rec(T, inf), rec("1RB1LB_1LA1RC_1RD---_1RE---_1RF---_1RG---_1RH---_1LA1RZ", inf), rec("1RB---_---1LA", None, 300)]


def key(r):
    return r.proto.SerializeToString(deterministic=True)


class Bad(Exception):
    pass


def errors():
    import IO
    from IO.Common import RecordLocateError
    return (IO.Proto.IO_Error, IO.BBC.IO_Error, RecordLocateError, EOFError, OSError)


def drive(reader, ops, want, torn, k=key):
    """Apply reader calls; want: complete leading records; torn: the file ends inside a record."""
    err = errors()
    pos, ended = 0, False
    it = None
    for op in ops:
        got = error = None
        try:
            if op == "read":
                got = reader.read_record()
            elif op == "skip":
                got = reader.skip_record()
            else:
                it = it or iter(reader)
                got = next(it, None)
        except err as e:
            error = e
            it = None
        if pos < len(want):
            if error is not None:
                raise Bad("%s of record %d fails: %r" % (op, pos, error))
            if op == "skip":
                if got is not True:
                    raise Bad("skip_record over record %d returns %r" % (pos, got))
            elif got is None or k(got) != want[pos]:
                raise Bad("%s returns %s instead of record %d" % (op, "nothing" if got is None else "something else", pos))
            pos += 1
        else:
            if op != "skip" and got is not None:
                raise Bad("%s returns a record although %d records are complete%s" % (op, len(want), " and the rest is torn" if torn else ""))
            if not torn:
                if error is not None:
                    raise Bad("%s at the clean end fails: %r" % (op, error))
                if op == "skip" and got is not False:
                    raise Bad("skip_record at the end returns %r" % got)
            elif op == "skip" and got is True:
                raise Bad("skip_record counts the torn record %d as a record" % len(want))
            elif op != "skip" and not ended and error is None:
                raise Bad("%s ends silently inside a torn record" % op)
            ended = True
            if op == "next" and error is None:
                it = None


def write(path, recs, flushes=False):
    import IO
    with IO.Writer(path) as w:
        for x in recs:
            w.write_record(x)
            if flushes:
                w.flush()


def scratch():
    return tempfile.mkdtemp(prefix="c13_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)


def cut_file(path, recs, ops_list, r, what, gz, cuts=None):
    """All truncations (downwards, by shrinking the file) x all reader call sequences x load by number."""
    import IO
    ks = [key(x) for x in recs]
    size = os.path.getsize(path)
    bounds = [0]
    for x in ks:
        bounds.append(bounds[-1] + 4 + len(x))
    if not gz and size != bounds[-1]:
        # a different layout: the boundaries are not known
        bounds = None
    err = errors()
    for cut in (range(size, -1, -1) if cuts is None else sorted(cuts, reverse=True)):
        os.truncate(path, cut)
        r.states += 1
        if gz or bounds is None:
            # what is complete is found by reading: must be a prefix; anything but a clean end if cut
            got, error = [], None
            try:
                with IO.Reader(path) as rd:
                    for x in rd:
                        got.append(key(x))
            except err as e:
                error = e
            r.transitions += len(got) + 1
            if got != ks[:len(got)]:
                r.fail("invented", "%s cut at byte %d of %d: record %d read is not the one written" % (what, cut, size, len(got) - 1), what=what, cut=cut)
                continue
            if cut == size and (error is not None or len(got) != len(ks)):
                r.fail("incomplete", "%s: %d of %d records read back (%r)" % (what, len(got), len(ks), error), what=what)
                continue
            if 0 < cut < size and error is None and len(got) < len(ks) and gz:
                r.fail("silent", "%s cut at byte %d of %d: reading ends silently after %d of %d records" % (what, cut, size, len(got), len(ks)), what=what, cut=cut)
            m, torn = len(got), cut < size
            if cut == 0:
                torn = False
        else:
            m = max(i for i, b in enumerate(bounds) if b <= cut)
            torn = cut not in bounds
        for ops in ops_list:
            r.transitions += len(ops)
            try:
                with IO.Reader(path) as rd:
                    drive(rd, ops, ks[:m], torn)
            except Bad as e:
                r.fail("reader", "%s cut at byte %d of %d: %s: %s" % (what, cut, size, "/".join(ops), e), what=what, cut=cut, ops=ops)
        for n in range(len(ks) + 2):
            r.transitions += 1
            try:
                x = IO.Proto.load_record(path, n)
                if n >= m or key(x) != ks[n]:
                    r.fail("load", "%s cut at byte %d of %d: load_record(%d) gives a record that is not number %d (%d complete)" % (what, cut, size, n, n, m),
                           what=what, cut=cut)
            except err as e:
                if n < m:
                    r.fail("load", "%s cut at byte %d of %d: load_record(%d) fails: %r" % (what, cut, size, n, e), what=what, cut=cut)


OPS1 = [("next",) * 5, ("read",) * 5, ("skip",) * 5]


def sl_seq(part, r):
    alph = alphabet()
    d = scratch()
    try:
        for seq, ext, ops, fl in part:
            path = os.path.join(d, "f" + ext)
            recs = [alph[i] for i in seq]
            write(path, recs, fl)
            r.traces += 1
            cut_file(path, recs, ops, r, "records %s%s%s" % (seq, ext, " (flushed)" if fl else ""), "gz" in ext)
            os.unlink(path)
    finally:
        shutil.rmtree(d)


def sl_len(part, r):
    """Every record length in a range, plain and compressed, followed by another record."""
    d = scratch()
    import IO
    try:
        base = len(key(rec(None, None, 1000))) - 1000
        for n, ext in part:
            recs = [rec("1RB---_---1LA"), rec(None, None, n), rec("1RB1LB_1LA1RZ")]
            path = os.path.join(d, "f" + ext)
            write(path, recs)
            r.traces += 1
            ks = [key(x) for x in recs]
            size = os.path.getsize(path)
            mid = 8 + len(ks[0]) + len(ks[1])
            cut_file(path, recs, [("next",) * 5, ("skip", "skip", "read", "read")], r, "middle record of %d bytes%s" % (len(ks[1]), ext), "gz" in ext,
                     {size} if ext != ".pb" else {size, size - 1, mid, mid - 1, mid + 1, mid + 2, mid + 4, mid - len(ks[1]), mid - len(ks[1]) - 1})
            os.unlink(path)
    finally:
        shutil.rmtree(d)


def sl_flush(part, r):
    """A reader sees everything that was flushed while the writer is still open."""
    import IO
    alph = alphabet()
    d = scratch()
    try:
        for seq, ext in part:
            path = os.path.join(d, "f" + ext)
            ks = []
            with IO.Writer(path) as w:
                for i in seq:
                    w.write_record(alph[i])
                    ks.append(key(alph[i]))
                    w.flush()
                    r.states += 1
                    got = []
                    try:
                        with IO.Reader(path) as rd:
                            for x in rd:
                                got.append(key(x))
                    except errors():
                        if ext == ".pb":
                            raise
                    r.transitions += len(got)
                    if got != ks:
                        r.fail("flush", "records %s%s: %d records visible after flushing %d" % (seq, ext, len(got), len(ks)), seq=seq)
            os.unlink(path)
    finally:
        shutil.rmtree(d)


def sl_over(part, r):
    """Writing to a file that exists replaces it: all pairs of an older and a newer content."""
    import IO
    alph = alphabet()
    d = scratch()
    try:
        for old, new, ext in part:
            path = os.path.join(d, "f" + ext)
            write(path, [alph[i] for i in old])
            write(path, [alph[i] for i in new])
            r.traces += 1
            r.states += 1
            r.transitions += len(old) + len(new)
            got, what = [], None
            try:
                with IO.Reader(path) as rd:
                    for x in rd:
                        got.append(x.ttable_str() if "txt" in ext else key(x))
            except errors() as e:
                what = repr(e)
            want = [alph[i].ttable_str() if "txt" in ext else key(alph[i]) for i in new]
            if what or got != want:
                r.fail("overwrite", "records %s%s written over %s: %d of %d read back%s" % (new, ext, old, len(got), len(new), what or ""), old=old, new=new)
            os.unlink(path)
    finally:
        shutil.rmtree(d)


def sl_api(part, r):
    """The general entry points choose the right format and record."""
    import IO
    alph = [x for x in alphabet() if x.proto.HasField("tm")]
    d = scratch()
    try:
        for ext in sorted({"".join(e) for k in range(4) for e in itertools.permutations((".pb", ".gz", ".x", ".txt"), k)}):
            path = os.path.join(d, "file" + ext)
            write(path, alph)
            from pathlib import Path
            for p in (path, Path(path)):
                for n, x in enumerate(alph):
                    r.states += 1
                    r.transitions += 2
                    if IO.load_tm(p, n).ttable_str() != x.tm().ttable_str():
                        r.fail("load_tm", "load_tm(%s, %d) returns another machine" % (ext, n))
                    if IO.get_tm("%s:%d" % (p, n)).ttable_str() != x.tm().ttable_str():
                        r.fail("get_tm", "get_tm(file%s:%d) returns another machine" % (ext, n))
                if IO.get_tm(str(p)).ttable_str() != alph[0].tm().ttable_str():
                    r.fail("get_tm", "get_tm(file%s) does not return the first machine" % ext)
    finally:
        shutil.rmtree(d)


LONG = 1100


def sl_long(ext, r):
    """Long files: every record number, by number and by skipping, and all of them in order."""
    import IO
    cells = ["%d%s%s" % c for c in itertools.product((0, 1), "LR", "ABCDEZ")]
    names = ["_".join(("1RB" + cells[i % 22], cells[i // 22 % 22] + cells[i // 484], "---1LD", "1RE---", "1RA0LC")) for i in range(LONG)]
    d = scratch()
    path = os.path.join(d, "x" + ext)
    text = lambda x: x.tm().ttable_str()
    try:
        if ext == ".zip":
            raw = [b"".join(bytes((0, 0, 0) if c == "---" else (int(c[0]), "RL".index(c[1]), "ZABCDE".index(c[2])))
                            for row in t.split("_") for c in (row[:3], row[3:])) for t in names]
            with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
                z.writestr("x.db", bytes(30) + b"".join(raw))
            # the format has no cell that halts while writing 0
            names = ["".join("---" if t[i:i + 1] == "0" and t[i + 2:i + 3] == "Z" else t[i:i + 3] if t[i] != "_" else "_" for i in _cuts(t)) for t in names]
            mod = IO.BBC
        else:
            write(path, [rec(t) for t in names])
            mod = IO.Proto if ".pb" in ext else IO.StdText
        r.states += LONG
        with mod.Reader(path) as rd:
            if [text(x) for x in rd] != names:
                r.fail("long", "a file x%s of %d records is not read back in order and complete" % (ext, LONG))
        for n in range(LONG):
            r.transitions += 2
            try:
                got = text(mod.load_record(path, n))
            except errors() as e:
                got = repr(e)
            if got != names[n]:
                r.fail("long", "x%s: load_record(%d) of %d records gives %s instead of %s" % (ext, n, LONG, got, names[n]))
            if ext != ".zip":
                try:
                    got = IO.get_tm("%s:%d" % (path, n)).ttable_str()
                except errors() as e:
                    got = repr(e)
                if got != names[n]:
                    r.fail("long", "get_tm(x%s:%d) of %d records gives %s instead of %s" % (ext, n, LONG, got, names[n]))
        if ext == ".zip":
            order = list(range(LONG - 1, -1, -1)) + list(range(LONG))
            p1, p2 = os.path.join(d, "i"), os.path.join(d, "i.txt")
            open(p1, "wb").write(b"".join(i.to_bytes(4, "big") for i in order))
            open(p2, "w").write("".join("%d\n" % i for i in order))
            for cls, p in ((IO.BBC.IndexReader, p1), (IO.BBC.TextIndexReader, p2)):
                r.transitions += len(order)
                with cls(path, p) as rd:
                    if [text(x) for x in rd] != [names[i] for i in order]:
                        r.fail("long", "%s of %d records gives other machines" % (cls.__name__, LONG))
    finally:
        shutil.rmtree(d)


def _cuts(t):
    i, out = 0, []
    while i < len(t):
        out.append(i)
        i += 1 if t[i] == "_" else 3
    return out


def sl_bbc(part, r):
    """BBC database: records, torn ends, every reader call sequence."""
    import IO
    tms = [bytes(30), bytes([1, 0, 2, 0, 1, 3, 1, 1, 0] + [1, 1, 5] * 7), bytes([0, 1, 1] * 9 + [1, 0, 0])]

    def bb(x):
        s = ""
        for i in range(0, 30, 3):
            s += "_" if i and i % 6 == 0 else ""
            s += "---" if x[i] == 0 and x[i + 2] == 0 else "%d%s%s" % (x[i], "RL"[x[i + 1]], "ZABCDE"[x[i + 2]])
        return s
    text = lambda x: x.tm().ttable_str()
    d = scratch()
    path = os.path.join(d, "x.db.zip")
    try:
        for seq in [s for n in range(4) for s in itertools.product(range(3), repeat=n)]:
            data = b"".join(tms[i] for i in seq)
            for cut in range(len(data), max(-1, len(data) - 31), -1):
                with zipfile.ZipFile(path, "w") as z:
                    z.writestr("x.db", bytes(30) + data[:cut])
                m, torn = cut // 30, cut % 30 != 0
                want = [bb(tms[i]) for i in seq[:m]]
                r.states += 1
                r.traces += 1
                for ops in part:
                    r.transitions += len(ops)
                    try:
                        with IO.BBC.Reader(path) as rd:
                            drive(rd, ops, want, torn, text)
                    except Bad as e:
                        r.fail("bbc", "BBC database %s cut at byte %d: %s: %s" % (seq, cut, "/".join(ops), e))
                for n in range(len(seq) + 1):
                    x = None
                    try:
                        x = IO.BBC.load_record(path, n)
                    except errors():
                        pass
                    if (x is None) != (n >= m) or (x is not None and text(x) != want[n]):
                        r.fail("bbc", "BBC database %s cut at byte %d: load_record(%d) is wrong" % (seq, cut, n))
            # index files over the complete database
            if len(seq) == 3:
                with zipfile.ZipFile(path, "w") as z:
                    z.writestr("x.db", bytes(30) + data)
                for idx in itertools.chain.from_iterable(itertools.product(range(3), repeat=n) for n in range(3)):
                    p1, p2 = os.path.join(d, "i"), os.path.join(d, "i.txt")
                    open(p1, "wb").write(b"".join(i.to_bytes(4, "big") for i in idx))
                    open(p2, "w").write("".join("%d\n" % i for i in idx))
                    for cls, p in ((IO.BBC.IndexReader, p1), (IO.BBC.TextIndexReader, p2)):
                        r.transitions += 1
                        with cls(path, p) as rd:
                            got = [text(x) for x in rd]
                        if got != [bb(tms[seq[i]]) for i in idx]:
                            r.fail("bbc-index", "%s of database %s, indexes %s gives other machines" % (cls.__name__, seq, idx))
    finally:
        shutil.rmtree(d)


def body(c):
    N = 9
    deep = [o for n in (3, 4) for o in itertools.product(("read", "skip", "next"), repeat=n)]
    if vp.THOROUGH:
        deep += list(itertools.product(("read", "skip", "next"), repeat=5))
    jobs = []
    for ext in (".pb", ".pb.gz"):
        for n in range(0, 4):
            for s in itertools.product(range(N), repeat=n):
                if n == 3 and 8 in s and not vp.THOROUGH:
                    continue
                jobs.append((s, ext, OPS1, False))
                if n <= 2:
                    jobs.append((s, ext, [OPS1[0]], True))
        for n in range(0, 3 + vp.THOROUGH):
            for s in itertools.product((0, 1, 3), repeat=n):
                jobs.append((s, ext, deep, False))
    jobs.append(((0, 1, 3), ".pb", deep, False))
    jobs.sort(key=lambda j: -len(j[0]) * len(j[2]))
    c.run(sl_seq, vp.slices(jobs, 200), "all record sequences, truncations and reader calls")
    lens = list(range(0, 600)) + [x + y for x in (1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 1 << 24) for y in range(-8 if x < 1 << 20 else -1, 3)]
    c.run(sl_len, vp.slices([(n, e) for n in lens for e in (".pb", ".pb.gz")], 64), "all record lengths")
    c.run(sl_flush, vp.slices([(s, e) for n in range(1, 4) for s in itertools.product(range(N), repeat=n) for e in (".pb", ".pb.gz")], 16), "flush")
    seqs = [q for n in range(4 if vp.THOROUGH else 3) for q in itertools.product(range(N), repeat=n)]
    texts = [q for n in range(3) for q in itertools.product((1, 2, 4, 7), repeat=n)]
    c.run(sl_over, vp.slices([(a, b, e) for e in (".pb", ".pb.gz") for a in seqs[-N * N - N - 1:] for b in seqs[:N * N + N + 1]] +
                             [(a, b, e) for e in (".txt", ".txt.gz") for a in texts for b in texts], 32), "overwriting a file")
    c.run(sl_api, [0], "entry points")
    c.run(sl_long, [".pb", ".pb.gz", ".txt", ".txt.gz", ".zip"], "long files, every record number")
    c.run(sl_bbc, vp.slices(deep, 8), "BBC database")
    c.assumptions = ["torn file: a prefix of the bytes written (crash of the writer or truncation); bytes inside the prefix are intact",
                     "compressed files: a prefix of the records followed by an error counts as intact"]
    c.extra["bounds"] = dict(sequences="up to 3 records of 9 kinds", truncations="every byte", lengths="0-600 and around powers of two up to 2^24",
                             reader_calls="all sequences of read/skip/next up to %d" % (5 if vp.THOROUGH else 4))


vp.main(body, "C13")
