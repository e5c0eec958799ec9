"""Explicit-state model checker for message-passing Python processes.

Every simulated MPI process runs the real code.  Between two communication calls a
process is deterministic given the results of its earlier calls, so it is represented as
an automaton that is built on demand: to find what a process does after a history of
results, the real code is executed from the start with those results until it makes its
next call.  Local states (call, Python frames with their variables) that are equal are
merged, and the product of the processes with the message channels is explored
exhaustively, breadth first: all orders in which processes run, all choices of source for
wildcard receives, and (latent mode) all message delays.  Every violation is confirmed by
replaying the complete histories with merging switched off."""
import sys, types, pickle, io, collections

ANY = -1


class Stop(BaseException):
    pass


class Abort(BaseException):
    pass


class Request:
    def __init__(self, comm, mid):
        self.comm, self.mid = comm, mid

    def Cancel(self): self.comm._op("cancel", self.mid)
    def Free(self): pass
    def Wait(self, status=None): return None
    def wait(self, status=None): return None
    def Test(self, status=None): return True
    def test(self, status=None): return (True, None)
    cancel = Cancel


class Status:
    def __init__(self): self._s, self._t = ANY, ANY
    def Get_source(self): return self._s
    def Get_tag(self): return self._t
    source = property(lambda s: s._s)
    tag = property(lambda s: s._t)


class Comm:
    def __init__(self, rank, size, hist, clock):
        self.rank, self.size = rank, size
        self._hist, self._i = hist, 0
        self._clock = clock

    def Get_rank(self): return self.rank
    def Get_size(self): return self.size

    def _op(self, *op):
        i = self._i
        if i < len(self._hist):
            self._i += 1
            return self._hist[i]
        e = Stop()
        e.op = op
        e.key = frames(sys._getframe(1), self._clock)
        raise e

    def send(self, obj, dest, tag=0): self._op("send", dest, tag, pickle.dumps(obj))
    def ssend(self, obj, dest, tag=0): self._op("ssend", dest, tag, pickle.dumps(obj))
    bsend = send

    def isend(self, obj, dest, tag=0):
        return Request(self, self._op("isend", dest, tag, pickle.dumps(obj)))
    issend = ibsend = isend

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        data, s, t = self._op("recv", source, tag)
        if status is not None:
            status._s, status._t = s, t
        return pickle.loads(data)

    def Probe(self, source=ANY, tag=ANY, status=None):
        res = self._op("probe", source, tag, status is not None)
        if status is not None:
            status._s, status._t = res
        return True
    probe = Probe

    def Iprobe(self, source=ANY, tag=ANY, status=None):
        res = self._op("iprobe", source, tag, status is not None)
        if res and status is not None:
            status._s, status._t = res
        return bool(res)
    iprobe = Iprobe

    def Barrier(self): raise Abort("barrier is not modelled")
    barrier = Barrier


class Clock:
    """mode: 'frozen', 'fast' (every look at the clock finds 1000 s more), or an integer k:
    1000 s pass just before the k-th look."""

    def __init__(self, mode):
        self.mode, self.n = mode, 0

    def time(self):
        self.n += 1
        if self.mode == "fast":
            return 1e6 + 1000.0 * self.n
        if self.mode == "frozen":
            return 1e6
        return 1e6 + (1000.0 if self.n >= self.mode else 0.0)

    def key(self):
        return min(self.n, self.mode) if isinstance(self.mode, int) else 0


def canon(x, fast, seen, depth=0):
    if isinstance(x, float):
        return None if fast else x
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if id(x) in seen:
        return ("ref", seen[id(x)])
    if isinstance(x, (types.ModuleType, types.FunctionType, types.MethodType, types.BuiltinFunctionType, type, io.IOBase, Comm, Clock)):
        return type(x).__name__
    seen[id(x)] = len(seen)
    if isinstance(x, (list, tuple, collections.deque)):
        return (type(x).__name__,) + tuple(canon(y, fast, seen, depth + 1) for y in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(repr(canon(y, fast, {}, depth + 1)) for y in x))
    if isinstance(x, dict):
        return ("dict",) + tuple((canon(k, fast, seen), canon(v, fast, seen)) for k, v in x.items())
    if isinstance(x, range):
        return ("range", x.start, x.stop, x.step)
    if hasattr(x, "__reduce_ex__") and type(x).__name__.endswith("iterator"):
        try:
            return ("iter", canon(x.__reduce_ex__(2)[1:], fast, seen))
        except Exception:
            pass
    d = getattr(x, "__dict__", None)
    if d is not None:
        return (type(x).__name__,) + tuple((k, canon(v, fast, seen)) for k, v in sorted(d.items()))
    return (type(x).__name__, repr(x))


def frames(f, clock):
    out = [clock.key()]
    fast = clock.mode == "fast"
    seen = {}
    while f is not None and f.f_code.co_name != "_mpisim_run":
        out.append((f.f_code.co_qualname, f.f_lasti) +
                   tuple((k, canon(v, fast, seen)) for k, v in sorted(f.f_locals.items()) if k != "__builtins__"))
        f = f.f_back
    return repr(out)


class Proc:
    """Automaton of one process."""

    def __init__(self, rank, size, program, src, clock, patch, merge=True):
        self.rank, self.size, self.program, self.src = rank, size, program, src
        self.clock, self.patch, self.merge = clock, patch, merge
        self.nodes = []       # (op, history, log)
        self.index = {}
        self.edges = {}
        self.runs = 0
        self.start = self._run(())

    def _run(self, hist):
        node = self._mpisim_run(hist)
        k = node[0:1] + (node[2], node[3]) if self.merge else (node[1],)
        if k in self.index:
            return self.index[k]
        self.index[k] = len(self.nodes)
        self.nodes.append(node)
        return len(self.nodes) - 1

    def _mpisim_run(self, hist):
        self.runs += 1
        clock = Clock(self.clock)
        comm = Comm(self.rank, self.size, hist, clock)
        MPI = types.ModuleType("MPI")
        MPI.COMM_WORLD, MPI.ANY_SOURCE, MPI.ANY_TAG, MPI.Status = comm, ANY, ANY, Status
        MPI.Request = Request
        pkg = types.ModuleType("mpi4py")
        pkg.MPI = MPI
        tm = types.ModuleType("time")
        tm.time = tm.monotonic = tm.perf_counter = clock.time
        tm.sleep = lambda s: None
        old = {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI", "time")}
        log = []
        try:
            sys.modules.update({"mpi4py": pkg, "mpi4py.MPI": MPI, "time": tm})
            mod = types.ModuleType("MPI_Work_Queue")
            mod.__file__ = self.src[1]
            exec(self.src[0], mod.__dict__)
            for k, v in self.patch.items():
                if hasattr(mod, k):
                    setattr(mod, k, v)
            try:
                self.program(mod, self.rank, log)
                return (("end",), hist, "", tuple(log))
            except Stop as e:
                return (e.op, hist, e.key, tuple(log))
            except Abort:
                raise
            except Exception as e:
                import traceback
                return (("error", type(e).__name__, traceback.format_exc()[-1500:]), hist, "", tuple(log))
        finally:
            for k, v in old.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v

    def step(self, node, result):
        k = (node, result)
        if k not in self.edges:
            self.edges[k] = self._run(self.nodes[node][1] + (result,))
        return self.edges[k]


class System:
    """rendezvous: plain sends complete only when received; cancel: Cancel() removes an
    unreceived message; latent: a message becomes visible to the receiver some time after
    it was sent (in order per pair of processes)."""

    def __init__(self, procs, rendezvous=False, cancel=True, latent=False):
        self.procs, self.rendezvous, self.cancel, self.latent = procs, rendezvous, cancel, latent

    def initial(self):
        n = len(self.procs)
        # per process: (node, id of message it is waiting to be received or None)
        return (tuple((p.start, False) for p in self.procs),
                tuple(() for _ in range(n * n)))     # channel src*n+dst: tuple of (tag, data, kind, seen)

    def successors(self, st):
        """List of (label, next state); label = (process, what, result)."""
        loc, ch = st
        n = len(self.procs)
        out = []
        if self.latent:
            for c in range(n * n):
                for i, m in enumerate(ch[c]):
                    if not m[3]:
                        out.append((("deliver", c), (loc, ch[:c] + (ch[c][:i] + (m[:3] + (True,),) + ch[c][i + 1:],) + ch[c + 1:])))
                        break
        for p in range(n):
            node, blocked = loc[p]
            if blocked:
                continue
            op = self.procs[p].nodes[node][0]
            kind = op[0]
            if kind in ("end", "error"):
                continue

            def go(res, ch2, blk=False, loc2=None):
                l = list(loc2 or loc)
                l[p] = (node, True) if blk else (self.procs[p].step(node, res), False)
                out.append(((p, op[:3], res), (tuple(l), ch2)))

            if kind in ("send", "ssend", "isend"):
                c = p * n + op[1]
                if op[1] < 0 or op[1] >= n:
                    go(None, ch)
                    continue
                blk = kind == "ssend" or (kind == "send" and self.rendezvous)
                k = "i" if kind == "isend" else ("b" if blk else "")
                ch2 = ch[:c] + (ch[c] + ((op[2], op[3], k, not self.latent),),) + ch[c + 1:]
                if kind == "isend":
                    go((op[1], op[2], op[3]), ch2)
                elif blk:
                    go(None, ch2, True)
                else:
                    go(None, ch2)
            elif kind == "cancel":
                ch2 = ch
                if self.cancel and op[1]:
                    d, t, data = op[1]
                    c = p * n + d
                    for i in range(len(ch[c]) - 1, -1, -1):
                        if ch[c][i][0] == t and ch[c][i][1] == data and ch[c][i][2][:1] == "i":
                            ch2 = ch[:c] + (ch[c][:i] + ch[c][i + 1:],) + ch[c + 1:]
                            break
                go(None, ch2)
            else:
                src, tag = op[1], op[2]
                found = []
                for s in (range(n) if src == ANY else [src]):
                    for i, m in enumerate(ch[s * n + p]):
                        if m[3] and (tag == ANY or m[0] == tag):
                            found.append((s, i))
                            break
                if kind in ("iprobe", "probe"):
                    if not found:
                        if kind == "iprobe":
                            go(False, ch)
                    elif op[3]:
                        for s, i in found:
                            go((s, ch[s * n + p][i][0]), ch)
                    else:
                        go(True, ch)
                else:
                    for s, i in found:
                        c = s * n + p
                        m = ch[c][i]
                        ch2 = ch[:c] + (ch[c][:i] + ch[c][i + 1:],) + ch[c + 1:]
                        loc2 = None
                        if m[2] == "b":
                            # the blocked sender goes on
                            loc2 = list(loc)
                            loc2[s] = (self.procs[s].step(loc[s][0], None), False)
                        go((m[1], s, m[0]), ch2, False, loc2)
        return out

    def explore(self, check, limit=2_000_000):
        """Breadth-first search of all states.  check(state, terminal) returns a message if
        the state is bad.  Returns (states, transitions, terminals, (message, path) or None)."""
        s0 = self.initial()
        parent = {s0: None}
        frontier = collections.deque([s0])
        trans = term = 0
        succs = {}
        while frontier:
            st = frontier.popleft()
            succ = self.successors(st)
            trans += len(succ)
            term += not succ
            bad = check(st, not succ)
            if bad:
                return len(parent), trans, term, (bad, self.path(parent, st))
            succs[st] = [x for _, x in succ]
            for lab, nx in succ:
                if nx not in parent:
                    parent[nx] = (st, lab)
                    frontier.append(nx)
            if len(parent) > limit:
                raise Abort("state limit")
        # livelock: from every state the end must be reachable
        back = collections.defaultdict(list)
        good = []
        for st, nxs in succs.items():
            if not nxs:
                good.append(st)
            for nx in nxs:
                back[nx].append(st)
        ok = set(good)
        while good:
            st = good.pop()
            for pr in back[st]:
                if pr not in ok:
                    ok.add(pr)
                    good.append(pr)
        for st in succs:
            if st not in ok:
                return len(parent), trans, term, ("processes go on for ever without finishing", self.path(parent, st))
        return len(parent), trans, term, None

    @staticmethod
    def path(parent, st):
        out = []
        while parent[st] is not None:
            st, lab = parent[st]
            out.append(lab)
        return out[::-1]

    def nodes(self, st):
        return [self.procs[i].nodes[l[0]] for i, l in enumerate(st[0])]


