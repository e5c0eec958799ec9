"""C22: the time limit fires at every executed line (record-handling code: every bytecode) of the analysis."""
import os, sys, gc, signal, select, contextlib, io, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, ref, pipe

ARGS = [
    ("", 12),
    ("--lin-steps=40 --lin-min --no-reverse-engineer --no-ctl", 12),
    ("--lin-steps=0 --no-ctl --no-reverse-engineer -n 1", 40),
    ("--lin-steps=0 --no-ctl --no-reverse-engineer -n 2 -b", 12),
    ("--lin-steps=0 --no-ctl --no-reverse-engineer", 150),
    ("--lin-steps=0 --no-reverse-engineer -n 1", 60),
    ("--lin-steps=0 --no-ctl --no-reverse-engineer -n 1 -r --exp-linear-rules", 40),
    ("--lin-steps=0 --no-ctl --no-reverse-engineer -n 1 --tape-limit=3", 40),
]
OTHER = "1RB1LB_1LA---"
# Modules whose statements write the record or handle the alarm: traced at bytecode level.
FINE = ("Macro_Simulator.py", "Halting_Lib.py", "Alarm.py", "Timer.py", "CTL_Filter.py", "Enumerate.py")


def clear_times(msg):
    for fd, v in list(msg.ListFields()):
        if fd.name in ("elapsed_time_us", "elapsed_time_sec", "max_time_sec"):
            msg.ClearField(fd.name)
        elif fd.type == fd.TYPE_MESSAGE and not fd.is_repeated:
            clear_times(v)
    return msg


def canon(rec):
    import io_pb2
    p = io_pb2.TMRecord() if hasattr(io_pb2, "TMRecord") else type(rec.proto)()
    p.CopyFrom(rec.proto)
    return clear_times(p).SerializeToString(deterministic=True)


def kind(rec):
    st = rec.proto.status.halt_status
    if st.is_decided:
        k = ["halt"] if st.is_halting else ["inf", st.inf_reason]
    else:
        k = ["unknown", rec.proto.filter.simulator.result.unknown_info.WhichOneof("reason")
             if rec.proto.filter.simulator.result.unknown_info.DESCRIPTOR.oneofs_by_name.get("reason") else
             str([f.name for f, _ in rec.proto.filter.simulator.result.unknown_info.ListFields()])]
    return tuple(k + [rec.proto.status.quasihalt_status.is_decided, rec.proto.status.quasihalt_status.is_quasihalting])


def opts(argline, loops):
    o = pipe.options(argline, loops)
    for k, v in dict(save_freq=10 ** 9, randomize=False, seed=None, num_enum=None, debug_print_current=False, time=1000.0).items():
        setattr(o, k, v)
    return o


class Writer:
    def __init__(self):
        self.out = []

    def write_record(self, rec):
        self.out.append(rec)

    def flush(self):
        pass


def analyse(text, o):
    """As Enumerate does it: run with the time limit, then add the result. Returns (record, children, written, exception)."""
    import Enumerate, Work_Queue
    stack = Work_Queue.Basic_LIFO_Work_Queue()
    w = Writer()
    e = Enumerate.Enumerator(o, stack, w, None)
    rec = pipe.record(text)
    e.run(rec)
    return rec, e, stack, w


def finish(rec, e, stack, w):
    """What Enumerate makes of the record: children pushed."""
    e.add_result(rec)
    kids = []
    while True:
        j = stack.pop_job()
        if not j:
            break
        kids.append(j.ttable_str())
    return sorted(kids)


def success_flags(msg, path=""):
    out = {}
    for fd, v in msg.ListFields():
        p = path + "." + fd.name
        if fd.type == fd.TYPE_MESSAGE and not fd.is_repeated:
            out.update(success_flags(v, p))
            if fd.name in ("infinite_info", "halt_info"):
                out[p] = True
        elif fd.type == fd.TYPE_BOOL and fd.name in ("success", "is_halting", "is_infinite"):
            if v:
                out[p] = v
    return out


class Base:
    def __init__(self, text, argline, loops):
        self.o = opts(argline, loops)
        rec, e, st, w = analyse(text, self.o)
        self.kind = kind(rec)
        self.canon = canon(rec)
        self.halt = rec.proto.status.halt_status.SerializeToString(deterministic=True)
        self.quasi = rec.proto.status.quasihalt_status.SerializeToString(deterministic=True)
        self.decided = rec.proto.status.halt_status.is_decided
        self.flags = success_flags(rec.proto.filter)
        self.kids = finish(rec, e, st, w)


def judge(base, other, text, rec, e, st, w, o, before):
    """Everything the property says about an interrupted analysis; returns an error text or None."""
    if signal.getitimer(signal.ITIMER_REAL)[0] != 0:
        return "the timer is still armed afterwards"
    p = rec.proto
    ui = p.filter.simulator.result.unknown_info
    if any(f.name == "threw_exception" for f, _ in ui.ListFields()):
        return "the time-out was treated as an error (threw_exception)"
    hs, qs = p.status.halt_status, p.status.quasihalt_status
    noted = any(f.name == "over_time" for f, _ in ui.ListFields())
    if hs.is_decided:
        if hs.SerializeToString(deterministic=True) != base.halt:
            return "halting status is decided, but differs from the truth: %s" % str(hs).replace("\n", " ")
    elif canon(rec) != base.canon and not noted:
        return "undecided, but no time-out noted"
    if qs.is_decided and qs.SerializeToString(deterministic=True) != base.quasi:
        return "quasihalting status is decided, but differs from the truth: %s" % str(qs).replace("\n", " ")
    for k in success_flags(p.filter):
        if k not in base.flags:
            return "record claims %s, which the complete analysis does not" % k
    decided, halting = hs.is_decided, hs.is_halting
    kids = finish(rec, e, st, w)
    want = base.kids if decided and halting else []
    if kids != want:
        return "children pushed: %s instead of %s" % (kids[:3], want[:3])
    if len(w.out) != 1:
        return "record written %d times" % len(w.out)
    if vars(o) != before:
        return "options changed: %s" % [k for k in before if vars(o).get(k) != before[k]]
    # the next machines
    for t, b in ((text, base), (OTHER, other)):
        r2, e2, s2, w2 = analyse(t, o)
        if canon(r2) != b.canon:
            return "next analysis of %s differs from an undisturbed one" % t
        if finish(r2, e2, s2, w2) != b.kids:
            return "next analysis of %s pushes other children" % t
    if signal.getitimer(signal.ITIMER_REAL)[0] != 0:
        return "the timer is still armed after the next machine"
    return None


class Injector:
    def __init__(self, part, parts, r, name):
        self.part, self.parts, self.r, self.name = part, parts, r, name
        self.k = 0
        self.pipe_w = None     # set in children
        self.where = None
        self.failed = False

    def event(self, frame, what):
        if self.pipe_w is not None or self.failed:
            return
        rem, interval = signal.getitimer(signal.ITIMER_REAL)
        if rem == 0:
            return
        k = self.k
        self.k += 1
        if k % self.parts != self.part:
            return
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            self.pipe_w = wr
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_REAL, interval if interval > 0 else 0)
            signal.raise_signal(signal.SIGALRM)
            return
        os.close(wr)
        where = "%s:%d (%s)" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno, what)
        data = b""
        ok, _, _ = select.select([rd], [], [], 60)
        if ok:
            while True:
                b = os.read(rd, 65536)
                if not b:
                    break
                data += b
        else:
            os.kill(pid, signal.SIGKILL)
            data = b"the analysis does not end"
        os.close(rd)
        os.waitpid(pid, 0)
        self.r.states += 1
        self.r.transitions += 3
        if data != b"ok":
            self.failed = True
            key = "interrupt:" + ("died" if not data else data.decode("utf8", "replace").split(":")[0][:60])
            self.r.fail(key, "%s, time limit fires at event %d, %s: %s" % (self.name, k, where, data.decode("utf8", "replace")[:600] or "process died"),
                        case=self.name, event=k, where=where)

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(vp.CODE):
            return None
        if event == "call" and os.path.basename(fn) in FINE:
            frame.f_trace_opcodes = True
        if event in ("line", "opcode", "call"):
            self.event(frame, event)
        return self.trace


def sl_case(job, r):
    (argline, loops, text), part, parts = job
    import Enumerate, Macro_Simulator, Alarm, Work_Queue
    import traceback
    name = "%s [%s --max-loops=%d]" % (text, argline, loops)
    base = Base(text, argline, loops)
    other = Base(OTHER, argline, loops)
    o = opts(argline, loops)
    # one undisturbed analysis first, as in a long-running process
    analyse(text, o)
    analyse(OTHER, o)
    before = dict(vars(o))
    inj = Injector(part, parts, r, name)
    gc.collect()
    gc.freeze()
    err = None
    state = None
    sys.settrace(inj.trace)
    try:
        state = analyse(text, o)
    except BaseException as ex:
        err = "%s escaped: %s" % (type(ex).__name__, traceback.format_exc()[-400:])
    finally:
        sys.settrace(None)
    if inj.pipe_w is not None:
        # a child: the alarm was raised somewhere above
        try:
            msg = err or judge(base, other, text, *state, o, before) or "ok"
        except BaseException as ex:
            msg = "afterwards %s: %s" % (type(ex).__name__, traceback.format_exc()[-400:])
        try:
            os.write(inj.pipe_w, msg.encode())
        finally:
            os._exit(0)
    if err:
        r.fail("undisturbed", "%s: %s" % (name, err), case=name)
    elif canon(state[0]) != base.canon:
        raise vp.HarnessError("traced run differs: " + name)
    r.count("events of %s" % (base.kind,), inj.k if part == 0 else 0)
    if part == 0:
        r.traces += 1
        r.sample("%s: verdict %s, %d injection points" % (name, base.kind, inj.k))


def sl_scan(job, r):
    """Which machine to use per verdict kind: the one with the fewest events."""
    argline, loops, texts = job
    for t in texts:
        o = opts(argline, loops)
        n = [0]

        def tr(frame, event, arg):
            if frame.f_code.co_filename.startswith(vp.CODE):
                n[0] += 1
                return tr
            return None
        sys.settrace(tr)
        try:
            rec, e, st, w = analyse(t, o)
        finally:
            sys.settrace(None)
        r.samples.append((kind(rec), argline, loops, t, n[0]))


def body(c):
    T = vp.THOROUGH
    texts = [ref.tm_str(t) for t, s in ref.tnf(2, 2, True, True)]
    texts += [ref.tm_str(t) for t, s in ref.tnf(3, 2, True, True, 22)][::1]
    # candidates: all 2x2 tree machines and all 3x2 tree machines with exactly two undefined cells running for ever or halting late
    m32 = [t for t in texts if t.count("_") == 2 and t.count("---") == 1]
    cand = [t for t in texts if t.count("_") == 1] + m32[:400] + ["1RB2LA1RA1RA_1LB1LA3RB---", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_---0LA", "1RB0LD_1LC1RD_1LA1LC_---1RE_1RA0RB"]
    best = {}
    import multiprocessing as mp
    jobs = []
    for a, l in ARGS:
        for sl in vp.slices(cand, 4):
            jobs.append((a, l, sl))
    with mp.get_context("fork").Pool(8) as pool:
        for res in pool.imap_unordered(scan, jobs, chunksize=1):
            for k, a, l, t, n in res:
                key = (a, k)
                b = best.setdefault(key, [])
                b.append((n, t, l))
    cases = []
    per = 3 if T else 1
    cap = 60000 if T else 7000
    for (a, k), b in sorted(best.items(), key=str):
        b.sort()
        for n, t, l in b[:per]:
            if n <= cap:
                cases.append(((a, l, t), n, k))
        if b[0][0] > cap:
            c.log("no short machine for", a, k, b[0])
    c.log("cases", len(cases), "verdict kinds", sorted({str(x[2]) for x in cases}), "events", sum(x[1] for x in cases))
    parts = 8
    jobs = [(x[0], p, parts) for x in sorted(cases, key=lambda x: -x[1]) for p in range(parts)]
    c.run(sl_case, jobs, "injections")
    c.extra["bounds"] = "one machine per verdict kind and option set (%d cases), the alarm delivered once at every line event of /repo/Code (every bytecode in %s) while the timer is armed" % (len(cases), ", ".join(FINE))
    c.assumptions.append("a signal is delivered at a line/bytecode boundary of the Python code, as CPython does")


def scan(job):
    r = vp.Result()
    with contextlib.redirect_stdout(io.StringIO()):
        sl_scan(job, r)
    return r.samples


if __name__ == "__main__":
    vp.main(body, "C22")
