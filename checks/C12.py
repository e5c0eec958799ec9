"""C12: the parallel work queue runs every job exactly once and terminates; sequential queues keep their order."""
import os, sys, io, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, mpisim

SETTINGS = [dict(MIN_NUM_JOBS_PER_BATCH=a, MAX_NUM_JOBS_PER_BATCH=b, DEFAULT_MAX_LOCAL_JOBS=c, DEFAULT_TARGET_LOCAL_JOBS=d)
            for a, b, c, d in ((1, 2, 1, 1), (2, 3, 2, 1), (1, 4, 1, 1), (3, 2, 2, 2))]


def forests(n):
    """All ordered forests of n nodes, as tuples of trees (a tree is the tuple of its children)."""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for kids in forests(k - 1):
            for rest in forests(n - k):
                out.append((kids,) + rest)
    return out


def number(forest):
    """(root ids, {id: child ids}) in preorder."""
    kids, cnt = {}, [0]

    def walk(t):
        i = cnt[0]
        cnt[0] += 1
        kids[i] = None
        kids[i] = [walk(c) for c in t]
        return i
    roots = [walk(t) for t in forest]
    return roots, kids


def source():
    path = os.path.join(vp.CODE, "MPI_Work_Queue.py")
    return compile(open(path).read(), path, "exec"), path


def procs(src, roots, kids, workers, patch, clock, one, merge=True):
    def master(mod, rank, log):
        m = mod.Master(pout=io.StringIO())
        for j in roots:
            m.push_job(j)
        m.run_master()

    def worker(mod, rank, log):
        q = mod.MPI_Worker_Work_Queue(master_proc_num=0, pout=io.StringIO())
        while True:
            job = q.pop_job()
            if job is None:
                return
            log.append(job)
            if len(log) > len(kids) + 2:
                raise mpisim.Abort("runaway")
            if one:
                for j in kids[job]:
                    q.push_job(j)
            elif kids[job]:
                q.push_jobs(list(kids[job]))
    size = workers + 1
    return [mpisim.Proc(r, size, worker if r else master, src, clock, patch, merge) for r in range(size)]


def checker(system, kids):
    total = len(kids)

    def check(st, terminal):
        nodes = system.nodes(st)
        logs = [j for nd in nodes[1:] for j in nd[3]]
        if len(set(logs)) != len(logs):
            d = [j for j in logs if logs.count(j) > 1]
            return "job %s is run more than once" % d[0]
        for i, nd in enumerate(nodes):
            if nd[0][0] == "error":
                return "process %d fails: %s" % (i, nd[0][2].strip().splitlines()[-1])
            if nd[0][0] == "end" and len(logs) < total:
                return "process %d finishes while %d of %d jobs have not been run" % (i, total - len(logs), total)
        if terminal:
            if any(nd[0][0] != "end" for nd in nodes):
                return "deadlock: " + ", ".join("process %d %s" % (i, "finished" if nd[0][0] == "end" else "stuck in %s" % (nd[0][:3],))
                                               for i, nd in enumerate(nodes))
            if len(logs) != total:
                return "%d of %d jobs are never run" % (total - len(logs), total)
    return check


def confirm(src, conf, path):
    """Replay a path with complete histories; the message if it is bad there too."""
    roots, kids, workers, patch, clock, one, rv, cancel, latent = conf
    s = mpisim.System(procs(src, roots, kids, workers, patch, clock, one, False), rv, cancel, latent)
    st = s.initial()
    for lab in path:
        nxt = [x for l, x in s.successors(st) if l == lab]
        if len(nxt) != 1:
            return None
        st = nxt[0]
    return checker(s, kids)(st, not s.successors(st))


def explore(src, conf, r, name):
    roots, kids, workers, patch, clock, one, rv, cancel, latent = conf
    s = mpisim.System(procs(src, roots, kids, workers, patch, clock, one), rv, cancel, latent)
    n, t, term, bad = s.explore(checker(s, kids))
    r.states += n
    r.transitions += t
    r.traces += sum(p.runs for p in s.procs)
    r.count("configurations")
    r.count("final_states", term)
    r.sample("%s: %d states, %d transitions, %d executions of the code" % (name, n, t, sum(p.runs for p in s.procs)))
    if not bad:
        return
    msg, path = bad
    if "for ever" not in msg and confirm(src, conf, path) is None:
        # local states were merged that differ in something invisible: explore without merging
        s = mpisim.System(procs(src, roots, kids, workers, patch, clock, one, False), rv, cancel, latent)
        n, t, term, bad = s.explore(checker(s, kids), 300_000)
        r.count("explored_without_merging")
        if not bad:
            return
        msg, path = bad
    r.fail(msg.split(":")[0].split(" fails")[0][:40], "%s: %s" % (name, msg), config=name, schedule=[repr(x)[:200] for x in path])


def sl(part, r):
    src = source()
    for forest, workers, patch, clock, one, rv, cancel, latent in part:
        roots, kids = number(forest)
        name = "jobs %s (children of each: %s), %d workers, %s, clock %s, %s%s%s%s" % (
            roots, [k for k in kids.values()], workers, "/".join(str(v) for v in patch.values()) or "default sizes", clock,
            "push_job" if one else "push_jobs", ", rendezvous sends" if rv else "", "" if cancel else ", cancel without effect",
            ", delayed delivery" if latent else "")
        try:
            explore(src, (roots, kids, workers, patch, clock, one, rv, cancel, latent), r, name)
        except mpisim.Abort as e:
            if "runaway" in str(e):
                r.fail("runaway", "%s: a worker is handed more jobs than exist" % name, config=name)
            elif "state limit" in str(e):
                r.count("state_limit_reached")
                r.truncated_space = True
            else:
                raise vp.HarnessError(str(e))


def seq_ops(depth):
    """Sequences of pop / push_job / push_jobs of 0-3 jobs."""
    return itertools.product(("pop", "push", "p0", "p1", "p2", "p3"), repeat=depth)


def sl_seq(part, r):
    import Work_Queue
    kind, depth, first = part
    cls = Work_Queue.Basic_LIFO_Work_Queue if kind == "LIFO" else Work_Queue.Basic_FIFO_Work_Queue
    for rest in seq_ops(depth - 1):
        ops = (first,) + rest
        q, model, n, stat = cls(), [], 0, False
        r.states += 1
        for op in ops + ("pop",) * (3 * depth + 1):
            r.transitions += 1
            if op == "pop":
                got = q.pop_job()
                want = (model.pop() if kind == "LIFO" else model.pop(0)) if model else None
                if got is not want and got != want:
                    r.fail("order", "%s queue: after %s pop_job gives %r instead of %r" % (kind, ops, got, want), ops=ops)
                    break
                if want is None and len(ops) > depth:
                    break
            elif op == "push":
                q.push_job((n,))
                model.append((n,))
                n += 1
            else:
                js = [(n + i,) for i in range(int(op[1]))]
                n += len(js)
                arg = list(js)
                q.push_jobs(arg)
                if arg != js:
                    r.fail("alias", "%s queue: push_jobs changes the list it is given" % kind, ops=ops)
                arg.append("intruder")
                model += js
            if hasattr(q, "get_stats"):
                q.get_stats()


def body(c):
    c.assumptions = ["messages between two processes arrive in the order sent (MPI guarantee)",
                     "a process is deterministic between communication calls given their results and the clock"]
    jobs = []
    sizes = 5 if vp.THOROUGH else 4
    for n in range(0, sizes + 1):
        for f in forests(n):
            for w in (1, 2, 3) if n <= sizes - 1 else (1, 2):
                for i, s in enumerate(SETTINGS):
                    for one in ((True, False) if any(f) else (False,)):
                        for rv, cancel, clock in ((False, True, "frozen"), (True, False, "fast"), (False, True, "fast"), (False, False, "fast")):
                            if w == 3 and n == 4 and (rv, cancel, clock) != (False, True, "frozen"):
                                continue
                            if w == 3 and clock == "fast" and (n > 2 + vp.THOROUGH or one):
                                continue
                            if w == 2 and clock == "fast" and n == sizes and (one or i > 1):
                                continue
                            jobs.append((f, w, s, clock, one, rv, cancel, False))
                        if w <= 2 and n <= 3 + vp.THOROUGH - (w == 2):
                            jobs.append((f, w, s, "frozen", one, False, True, True))
                            if n <= 2 or w == 1:
                                jobs.append((f, w, s, "fast", one, False, True, True))
                        if w <= 2 and n in (2, 3):
                            for k in range(1, 25 if vp.THOROUGH else 13):
                                jobs.append((f, w, s, k, one, False, True, False))
    big = []
    wide = ((),) * 40
    for clock in ("frozen", "fast"):
        for rv in (False, True):
            big.append((wide, 1, {}, clock, False, rv, True, False))                      # 40 jobs at the start
            big.append((((((),) * 45),), 1, {}, clock, False, rv, True, False))           # a job creating 45
            if clock == "frozen":
                big.append((((((),) * 33),), 2, {}, clock, True, rv, True, False))
                big.append((((((),) * 45),), 2, {}, clock, False, rv, True, False))
            big.append(((((((),) * 32) + (((),) * 31,)),), 1, {}, clock, False, rv, True, False))
            for k in (9, 10, 11, 17, 18, 19, 25, 26, 30, 31, 32, 37):
                big.append((((),) * k, 1, {}, clock, False, rv, True, False))
                big.append((((((),) * k),), 1, {}, clock, True, rv, True, False))
            for k in (3, 11, 26, 31):
                big.append((((),) * k, 2, {}, "frozen", False, rv, True, False))
    c.extra["bounds"] = dict(jobs="all ordered forests of up to %d jobs; default sizes with up to 65 jobs" % sizes, workers="1-3",
                             settings=len(SETTINGS), modes="buffered/rendezvous sends, cancel effective or not, delayed delivery, frozen/jumping/fast clock",
                             configurations=len(jobs) + len(big))
    jobs.sort(key=lambda j: -(j[1] * 10 + len(repr(j[0]))))
    c.run(sl, [[b] for b in big] + vp.slices(jobs, 400), "master and workers")
    d = 8 if vp.THOROUGH else 6
    c.run(sl_seq, [(k, dd, o) for k in ("LIFO", "FIFO") for dd in range(1, d + 1) for o in ("pop", "push", "p0", "p1", "p2", "p3")],
          "sequential queues")


vp.main(body, "C12")
