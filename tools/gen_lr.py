"""4x2 TNF machines whose recurrence starts or repeats late (reference stepper only)."""
import sys, os, multiprocessing as mp
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
import ref
def work(ch):
    out = []
    for tm, _ in ch:
        tr, pos = ref.Sim(tm).trace(3200)
        if ref.recurrence(tr, pos, 30, 30): continue
        x = ref.recurrence(tr, pos, 400, 400)
        if x and (x[0] >= 40 or x[1] >= 40): out.append((ref.tm_str(tm),) + x)
    return out
if __name__ == "__main__":
    m = ref.tnf(4, 2, mode="run")
    with mp.Pool(8) as p:
        o = [y for x in p.imap(work, [m[i:i+1000] for i in range(0, len(m), 1000)]) for y in x]
    with open(os.path.join(here, "data", "lr_4x2.txt"), "w") as f:
        for y in o: f.write("%s %d %d %d\n" % y)
    print(len(o))
