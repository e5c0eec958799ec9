"""Generate data/halting_<n>x<m>.txt: halting TNF machines with at least MIN steps (bounded search).
Used to build committed corpora of long-running halting machines; not run by any check."""
import sys, os, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ref
n, m, bound, mins, depth, cap = map(int, sys.argv[1:7])
def expand(tm):
    s = ref.Sim(tm).seek(bound)
    if not s.halted: return []
    q, a = s.from_state, s.from_symbol
    und = sum(c is None for r in tm for c in r)
    if und <= 1: return []
    d = [c for r in tm for c in r if c]
    mq, ms = max(c[2] for c in d), max(c[0] for c in d)
    return [ref.set_cell(tm, q, a, (so, di, qo)) for qo in range(min(n, mq+2)) for so in range(min(m, ms+2)) for di in (0,1)]
front = [ref.set_cell(ref.blank(n, m), 0, 0, (1,1,1))]
for _ in range(depth):
    front = [c for t in front for c in expand(t)]
def work(t):
    return [(ref.tm_str(x), k) for x, k in ref.tnf(n, m, start=t, bound=bound, min_steps=mins, mode="halt")]
if __name__ == "__main__":
    out = []
    with mp.Pool(8) as p:
        for i, r in enumerate(p.imap_unordered(work, front)):
            out += r
            if i % 200 == 0: print(i, len(front), len(out), file=sys.stderr, flush=True)
    out.sort(key=lambda x: (-x[1], x[0]))
    print(len(out), "found", file=sys.stderr)
    for t, k in out[:cap]: print(t, k)
