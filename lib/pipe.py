"""Drive the repository's whole simulation pipeline on one machine and read the record back."""
import vp, ref

MATRIX = [
    "",
    "--no-ctl",
    "--lin-steps=0",
    "--lin-steps=0 --no-ctl --no-reverse-engineer",
    "--lin-steps=0 --no-ctl --no-reverse-engineer -r",
    "--lin-steps=0 --no-ctl --no-reverse-engineer --limited-rules -r",
    "--lin-steps=0 --no-ctl --no-reverse-engineer -n 1",
    "--lin-steps=0 --no-ctl --no-reverse-engineer -n 1 -b",
    "--lin-steps=0 --no-ctl --no-reverse-engineer -n 2 -r",
    "--lin-steps=0 --no-ctl --no-reverse-engineer -n 3 -b -r",
    "--lin-steps=0 --no-ctl --no-reverse-engineer -n 1 --no-steps",
    "--lin-steps=0 --no-ctl --no-reverse-engineer -n 1 -r --exp-linear-rules --exp-meta-linear-rules",
    "--lin-steps=0 --no-ctl --no-reverse-engineer -n 2 --no-prover",
    "--lin-steps=0 --no-ctl --no-reverse-engineer --max-loops=10",
    "--lin-steps=0 --no-ctl --no-reverse-engineer --tape-limit=4 -n 1 -b",
    "--lin-steps=0 --no-ctl --no-reverse-engineer --max-block-size=2 --max-block-mult=4",
    "--lin-steps=0 --no-ctl --no-reverse-engineer --block-mult=3",
    "--lin-steps=0 --no-reverse-engineer --max-loops=30 -n 1",
    "--lin-steps=0 --no-reverse-engineer --max-loops=60 -n 2",
    "--lin-steps=20 --lin-min --no-sim --no-reverse-engineer",
    "--lin-steps=300 --no-reverse-engineer --no-sim",
    "--no-sim",
]
_cache = {}


def options(argline, max_loops):
    """Parsed options; a fresh set for every run, as a user starting the program would have."""
    import Macro_Simulator
    from optparse import OptionParser
    parser = _cache.get("p")
    if parser is None:
        parser = OptionParser()
        Macro_Simulator.add_option_group(parser)
        _cache["p"] = parser
    args = argline.split()
    if not any(a.startswith("--max-loops") for a in args):
        args.append("--max-loops=%d" % max_loops)
    opts, rest = parser.parse_args(args)
    if rest:
        raise vp.HarnessError("bad options " + argline)
    return opts


def record(text):
    import IO, TM_Enum
    from IO import TM_Record
    return TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(text), allow_no_halt=False))


def run(text, argline, max_loops=400):
    """Run the pipeline; returns the record (fresh)."""
    import Macro_Simulator
    rec = record(text)
    Macro_Simulator.run_options(rec, options(argline, max_loops))
    return rec
