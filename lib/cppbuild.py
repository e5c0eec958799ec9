"""Build the C++ programs from the repository's working tree into a scratch directory."""
import os, subprocess, tempfile, shutil, atexit
import vp


def build(boost=True):
    d = tempfile.mkdtemp(prefix="vcpp")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    args = ["cmake", "-S", os.path.join(vp.REPO, "cpp"), "-B", d, "-G", "Ninja"]
    if not boost:
        args.append("-DCMAKE_DISABLE_FIND_PACKAGE_Boost=ON")
    for cmd in (args, ["ninja", "-C", d]):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise vp.HarnessError("C++ build failed: " + (p.stdout + p.stderr)[-2000:])
    return d


class Crash(Exception):
    pass


def run(d, prog, args, cwd=None, timeout=120):
    """stdout of one program; Crash if it fails or does not end."""
    try:
        p = subprocess.run([os.path.join(d, prog)] + [str(a) for a in args], capture_output=True, text=True,
                           timeout=timeout, cwd=cwd, errors="replace")
    except subprocess.TimeoutExpired:
        raise Crash("%s %s did not end within %d s" % (prog, args, timeout))
    if p.returncode:
        raise Crash("%s %s ended with code %d: %s" % (prog, args, p.returncode, p.stderr[-300:]))
    return p.stdout
