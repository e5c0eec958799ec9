"""Write data/champions.txt: record-holder machines (texts from /repo/Machines) that the macro simulator can
run to their end, with result fingerprints on which all block sizes and prover modes agree."""
import sys, os
sys.path[:0] = ["/verif/lib", "/repo/Code", "/verif/checks"]
import C03, multiprocessing as mp, signal

NAMES = """2x4-3932964-2050 2x6-e9866 3x3-e17 3x4-t2048 4x2-107-13 5x2-47176870-4098 6x2-1 6x2-2 6x2-Green 6x2-LazyBeaver
6x2-a 6x2-b 6x2-c 6x2-d 6x2-e 6x2-e197282-Pavel 6x2-e21132-Pavel 6x2-e646M-Pavel 6x2-g 6x2-i 6x2-j 6x2-q 6x2-t5 7x2-Green 8x2-Green 9x2-Green""".split()
CFGS = [(1, 0, False), (1, 0, True), (2, 0, False), (2, 0, True), (3, 0, False), (3, 0, True), (4, 0, True)]
MODES = ["plain", "recursive", "limited", "nosteps", "linear", "meta-linear", "meta-linear-limited"]


def work(a):
    name, text, cfg, mode = a
    signal.alarm(20)
    try:
        return a, C03.champion(text, cfg, mode, 4000)
    except Exception as e:
        return a, repr(e)[:60]


def alarm(*_):
    raise TimeoutError


if __name__ == "__main__":
    signal.signal(signal.SIGALRM, alarm)
    jobs = []
    for n in NAMES:
        text = open("/repo/Machines/" + n).readline().split()[0]
        jobs += [(n, text, c, m) for c in CFGS for m in MODES]
    with mp.Pool(8) as p:
        res = p.map(work, jobs, 1)
    with open("/verif/data/champions.txt", "w") as f:
        for n in NAMES:
            rs = [(a, x) for a, x in res if a[0] == n]
            fins = {}
            for a, x in rs:
                if isinstance(x, tuple):
                    fins.setdefault(x[1], []).append((a, x))
                elif isinstance(x, str):
                    print(n, a[2:], x)
            steps = {x[0] for a, x in rs if isinstance(x, tuple) and x[0] is not None}
            print(n, {k: len(v) for k, v in fins.items()}, steps)
            assert len(fins) == 1 and len(steps) <= 1, n
            for v in fins.values():
                for a, x in v:
                    f.write("%s %d,%d,%d %s %s %s\n" % (a[1], a[2][0], a[2][1], a[2][2], a[3], x[0] if x[0] is not None else (list(steps)[0] if steps else "-"), x[1]))
