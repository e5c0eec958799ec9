"""Harness shared by all checks: parallel exhaustive enumeration, violations, evidence."""
import os, sys, json, time, traceback, hashlib, tempfile, shutil, atexit, signal, contextlib, io
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = os.path.join(REPO, "Code")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.dont_write_bytecode = True
if CODE not in sys.path:
    sys.path.insert(0, CODE)
if os.path.join(VERIF, "lib") not in sys.path:
    sys.path.insert(1, os.path.join(VERIF, "lib"))
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 1)


def known_findings(prop):
    """Entries (key, text) of known_findings.txt for a property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line[len("known: property=%s " % prop):]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


class Result:
    """What a worker returns for a slice of the space."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.counts = {}
        self.violations = []   # (key, description, replay dict)
        self.samples = []
        self.truncated = 0

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def fail(self, key, descr, **replay):
        if len(self.violations) < 20:
            self.violations.append((key, descr, replay))
        else:
            self.truncated += 1

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.violations += o.violations
        self.truncated += o.truncated
        for s in o.samples:
            if len(self.samples) < 8:
                self.samples.append(s)


def repo_frame(tb):
    """True if the innermost frames of the traceback are in the repository's code."""
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(REPO + os.sep):
            return True
    return False


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


def _worker(args):
    fn, chunk, idx = args
    r = Result()
    t0 = time.time()
    try:
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            fn(chunk, r)
        if not r.samples and idx < 3:
            r.sample("%s(%s)" % (fn.__name__, repr(chunk)[:240]))
    except BaseException as e:
        if repo_frame(e.__traceback__) and not isinstance(e, (KeyboardInterrupt,)):
            r.fail("exception:%s" % type(e).__name__,
                   "code under test raised %s: %s" % (type(e).__name__, str(e)[:300]),
                   traceback=traceback.format_exc()[-3000:], chunk=repr(chunk)[:2000])
        else:
            r.counts["__harness_error__"] = 1
            r.samples = [traceback.format_exc()]
    return idx, r, time.time() - t0


def _child(fn, chunk, idx, conn):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        res = _worker((fn, chunk, idx))
        conn.send(res)
        conn.close()
    finally:
        os._exit(0)


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.res = Result()
        self.assumptions = []
        self.extra = {}
        self.exhaustive = True
        self.harness_errors = []
        self.budget = float(os.environ.get("VERIF_BUDGET", "3000" if THOROUGH else "600"))

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def run(self, fn, chunks, name="", hang_s=None):
        """Run fn(chunk, Result) over all chunks, one forked process per chunk, NPROC at a time.

        A chunk that does not finish within hang_s (far beyond its normal time) is a
        violation: the code under test does not terminate on an input it should handle."""
        hang_s = hang_s or (1500 if THOROUGH else 400)
        ctx = mp.get_context("fork")
        t0 = time.time()
        pending = list(enumerate(chunks))
        pending.reverse()
        live = {}
        done = 0
        total = len(pending)
        mx = 0
        while pending or live:
            while pending and len(live) < NPROC:
                idx, ch = pending.pop()
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(fn, ch, idx, b))
                p.start()
                b.close()
                live[idx] = (p, a, time.time(), ch)
            ready = mp.connection.wait([v[1] for v in live.values()], timeout=1.0)
            for idx in list(live):
                p, a, st, ch = live[idx]
                if a in ready:
                    try:
                        _, r, dt = a.recv()
                        mx = max(mx, dt)
                        if r.counts.pop("__harness_error__", 0):
                            self.harness_errors.append(r.samples[0])
                        else:
                            self.res.merge(r)
                    except EOFError:
                        p.join()
                        self.res.fail("crash", "process running the code under test died (exit %s)" % p.exitcode,
                                      chunk=repr(ch)[:2000])
                    a.close()
                    p.join()
                    del live[idx]
                    done += 1
                elif time.time() - st > hang_s:
                    p.kill()
                    p.join()
                    a.close()
                    del live[idx]
                    self.res.fail("hang", "no answer within %ds on a bounded slice of the space" % hang_s,
                                  chunk=repr(ch)[:2000])
            if len(self.res.violations) >= 200 or (self.res.violations and time.time() - t0 > 60
                                                  and self.unlisted()):
                # enough to report; do not burn time on a broken tree
                for idx in list(live):
                    p, a, st, ch = live[idx]
                    p.kill(); p.join(); a.close()
                self.exhaustive = False
                break
        self.log("%s: %d/%d slices, %.1fs (longest slice %.1fs), states=%d transitions=%d violations=%d" % (
            name or getattr(fn, "__name__", "run"), done, total, time.time() - t0, mx,
            self.res.states, self.res.transitions, len(self.res.violations)))

    def unlisted(self):
        kn = known_findings(self.prop)
        return [v for v in self.res.violations if v[0] not in kn]

    def finish(self):
        kn = known_findings(self.prop)
        seen = set()
        bad = []
        for v in self.res.violations:
            if v[0] in kn:
                seen.add(v[0])
            else:
                bad.append(v)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kn[k] or k))
        cov = dict(states=self.res.states, transitions=self.res.transitions,
                   traces_validated_against_impl=self.res.traces,
                   samples=self.res.samples or ["(none)"],
                   exhaustive=self.exhaustive and not self.harness_errors)
        cov.update({k: v for k, v in sorted(self.res.counts.items())})
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick",
                  seed=SEED, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(bad) + self.res.truncated * bool(bad))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for e in self.harness_errors[:3]:
            print("HARNESS ERROR:\n" + e, file=sys.stderr)
        if bad:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            groups = {}
            for v in bad:
                groups.setdefault(v[0], []).append(v)
            for k, vs in list(groups.items())[:10]:
                v = min(vs, key=lambda v: len(json.dumps(v[2], default=str)))
                h = hashlib.sha1(("%s%s" % (k, v[1])).encode()).hexdigest()[:10]
                path = os.path.join(d, "%s-%s.json" % (self.prop, h))
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, key=v[0], what=v[1], replay=v[2]), f, indent=1, default=str)
                print("  %s [x%d]: %s" % (k, len(vs), v[1]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            sys.exit(1)
        if self.harness_errors:
            sys.exit(3)
        if self.res.states == 0:
            print("nothing explored", file=sys.stderr)
            sys.exit(3)
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.prop, self.res.states, self.res.transitions, self.res.traces, time.time() - self.t0))
        sys.exit(0)


def slices(seq, k):
    """Split a list in k interleaved slices (deterministic)."""
    seq = list(seq)
    k = max(1, min(k, len(seq)))
    return [seq[i::k] for i in range(k)]


def main(fn, prop):
    """Run a check body; any failure to load or drive the repository's code is a violation."""
    c = Check(prop)
    try:
        fn(c)
    except SystemExit:
        raise
    except BaseException as e:
        if repo_frame(e.__traceback__):
            traceback.print_exc()
            c.res.fail("exception:%s" % type(e).__name__, "code under test raised %s: %s" % (type(e).__name__, str(e)[:300]),
                       traceback=traceback.format_exc()[-3000:])
            c.res.states = max(c.res.states, 1)
        else:
            traceback.print_exc()
            c.harness_errors.append(traceback.format_exc())
    c.finish()
