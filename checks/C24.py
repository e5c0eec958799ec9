"""C24: the Rust rule validator, compiled from the working tree together with an exhaustive explorer (rust/vharness.rs)."""
import os, sys, re, shutil, subprocess, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

PARTS = ["values", "parse", "tapes", "rules", "chains"]


def build(d):
    """A scratch crate: the repository's sources, the explorer as a child module of validator.rs, local enum-map shims."""
    h = os.path.join(vp.VERIF, "rust")
    src = os.path.join(vp.REPO, "rust", "src")
    for n in ("enum-map", "enum-map-derive"):
        shutil.copytree(os.path.join(h, n), os.path.join(d, n), ignore=shutil.ignore_patterns("target"))
    shutil.copy(os.path.join(h, "Cargo.toml"), d)
    lock = "/opt/veriftools/crates.Cargo.lock"
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    shutil.copytree(src, os.path.join(d, "src"))
    for n in ("vmain.rs", "vharness.rs"):
        shutil.copy(os.path.join(h, n), os.path.join(d, "src"))
    with open(os.path.join(d, "src", "validator.rs"), "a") as f:
        f.write('\n#[path = "vharness.rs"]\npub mod vharness;\n')
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"))
    p = subprocess.run(["cargo", "build", "--offline", "--release", "--bin", "vharness"], cwd=d, env=env, capture_output=True, text=True)
    if p.returncode:
        raise vp.HarnessError("cargo build failed: " + p.stderr[-3000:])
    return os.path.join(d, "target", "release", "vharness")


def body(c):
    d = tempfile.mkdtemp(prefix="vc24")
    r = c.res
    bounds = {}
    try:
        exe = build(d)
        end = time.time() + (14000 if vp.THOROUGH else 780)
        for part in PARTS:
            try:
                p = subprocess.run([exe, part] + (["thorough"] if vp.THOROUGH else []), capture_output=True, text=True,
                                   timeout=max(1, end - time.time()), cwd=d)
            except subprocess.TimeoutExpired as e:
                r.fail("no-answer", "part %s of the exploration does not end: the validator loops on some input (%s)" % (part, (e.stdout or b"")[-300:]), part=part)
                break
            if not p.stdout.rstrip().endswith("DONE"):
                r.fail("crash", "part %s of the exploration ended with code %d: %s" % (part, p.returncode, p.stderr[-500:]), part=part)
                continue
            for line in p.stdout.splitlines():
                if line.startswith("STAT "):
                    name, st, tr, refused, hits = line.split()[1:]
                    r.states += int(st)
                    r.transitions += int(tr)
                    r.traces += int(hits)
                    r.count("%s: cases" % name, int(st))
                    r.count("%s: concrete executions or values compared" % name, int(tr))
                    if int(hits):
                        r.count("%s: accepted" % name, int(hits))
                elif line.startswith("FAIL "):
                    name, key, n, msg = line[5:].split("\t")
                    r.fail("%s-%s" % (name, key), "%s (%s such cases)" % (msg, n), part=part, rerun="cargo build of rust/vharness.rs as in checks/C24.py; vharness %s" % part)
                elif line.startswith("TIME "):
                    bounds["seconds " + part] = line.split()[2]
    finally:
        shutil.rmtree(d)
    c.extra["bounds"] = {
        "counts": "all sums up to 2n+2 over three variables and all one-level function powers over them (1740), every pair / substitution of a fixed value set",
        "texts": "all strings up to length %d over 10 characters as counts; all 2x2 machines over 13 cells" % (6 if vp.THOROUGH else 5),
        "tapes": "all half tapes up to 2 blocks (+ infinite block), every pair for replacement, every machine cell for stepping",
        "rules": "all 1-state machines and %s 2-state machines, every initial and final configuration, every proof up to 2 steps, induction base up to 1 step" % ("768" if vp.THOROUGH else "128"),
        "chains": "rule sets of 2 rules, every substitution of every count",
        "assignments": "every variable 0..3",
    }
    c.assumptions.append("rules proved by Proof::Admit are excluded; a panic of the validator counts as a refusal")
    c.assumptions.append("rules are judged by running the machine concretely for every small assignment")


if __name__ == "__main__":
    vp.main(body, "C24")
