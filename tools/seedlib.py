"""Helper for planting bugs: seed(id, property, edits, demo, needs, breaks) writes /verif/seeded/<id>."""
import os, subprocess, shutil, json, tempfile
S = "/verif/seeded"


def seed(sid, prop, edits, demo, needs, breaks, shell=None):
    d = os.path.join(S, sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed")
    files = sorted({f for f, _, _ in edits})
    for side in "ab":
        for f in files:
            os.makedirs(os.path.dirname(f"{tmp}/{side}/{f}"), exist_ok=True)
            shutil.copy(f"/repo/{f}", f"{tmp}/{side}/{f}")
    for f, old, new in edits:
        p = f"{tmp}/b/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["diff", "-ruN", "a", "b"], cwd=tmp, capture_output=True, text=True).stdout
    shutil.rmtree(tmp)
    diff = "\n".join(l.split("\t")[0] if l[:4] in ("--- ", "+++ ") else l for l in diff.split("\n") if not l.startswith("diff "))
    open(f"{d}/patch.diff", "w").write(diff)
    if shell:
        open(f"{d}/demo.sh", "w").write(shell)
    else:
        open(f"{d}/demo.py", "w").write(demo)
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD/Code" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    print("seeded", sid)
