import sys; sys.path[:0]=['/verif/lib','/repo/Code','/verif/checks']
import ref, C03, multiprocessing as mp, time
import IO
from Macro import Simulator, Turing_Machine as T
def work(items):
    out=[]
    for tm,t in items:
        try:
            o=Simulator.create_default_options(); o.prover=True; o.recursive=True; o.compute_steps=False
            sim=Simulator.Simulator(IO.parse_tm(ref.tm_str(tm)),o)
            sim.loop_seek(300); p=sim.prover
            k=(p.num_meta_diff_rules,p.num_linear_rules,p.num_exponential_rules,p.num_gen_rules)
            if any(k): out.append((ref.tm_str(tm),t,k,str(sim.op_state)))
        except Exception as e:
            out.append((ref.tm_str(tm),t,repr(e),"EXC"))
    return out
if __name__=="__main__":
    which=sys.argv[1]
    items={"42":lambda:ref.tnf(4,2),"24":lambda:ref.tnf(2,4,bound=2000)}[which]()
    print(len(items),flush=True)
    ch=[items[i:i+500] for i in range(0,len(items),500)]
    with mp.Pool(6) as p, open("/tmp/mine/%s.txt"%which,"w") as f:
        for o in p.imap_unordered(work,ch):
            for x in o: f.write(repr(x)+"\n")
            f.flush()
    print("done")
