"""Reference model of Turing machines and of the enumeration of machine classes.

A machine is a tuple of rows; a row is a tuple of cells; a cell is None
(undefined) or (symbol, dir, next) with dir 0=L 1=R and next=-1 for halt.
Nothing here imports the code under test.
"""
import ctypes, itertools, os, subprocess, tempfile, atexit, shutil, sys

HERE = os.path.dirname(os.path.abspath(__file__))
_lib = None


def _load():
    global _lib
    if _lib is None:
        d = tempfile.mkdtemp(prefix="vref")
        so = os.path.join(d, "refsim.so")
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so,
                        os.path.join(HERE, "refsim.c")], check=True)
        L = ctypes.CDLL(so)
        shutil.rmtree(d)
        L.ref_new.restype = ctypes.c_void_p
        L.ref_new.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p]
        L.ref_free.argtypes = [ctypes.c_void_p]
        L.ref_seek.argtypes = [ctypes.c_void_p, ctypes.c_int64]
        L.ref_score.argtypes = [ctypes.c_void_p]
        L.ref_score.restype = ctypes.c_int64
        L.ref_info.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_int64)]
        L.ref_tape.argtypes = [ctypes.c_void_p]
        L.ref_tape.restype = ctypes.c_void_p
        L.ref_find.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_char_p, ctypes.c_int64,
                               ctypes.c_char_p, ctypes.c_int64, ctypes.c_int64]
        L.ref_load.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_char_p, ctypes.c_int64,
                               ctypes.c_char_p, ctypes.c_int64]
        L.ref_trace.restype = ctypes.c_int64
        L.ref_trace.argtypes = [ctypes.c_void_p, ctypes.c_int64, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int32)]
        _lib = L
    return _lib


def cell_str(c):
    if c is None:
        return "---"
    s, d, q = c
    return "%d%s%s" % (s, "LR"[d], "Z" if q < 0 else chr(65 + q))


def tm_str(tm):
    return "_".join("".join(cell_str(c) for c in row) for row in tm)


def parse(text):
    rows = text.split("_")
    n = len(rows)
    out = []
    for r in rows:
        cells = []
        for i in range(0, len(r), 3):
            t = r[i:i + 3]
            if t == "---":
                cells.append(None)
            else:
                q = ord(t[2]) - 65
                cells.append((int(t[0]), "LR".index(t[1]), q if q < n else -1))
        out.append(tuple(cells))
    return tuple(out)


class Sim:
    """Direct simulation by definition (in C)."""

    def __init__(self, tm):
        L = _load()
        self.tm = tm
        self.n, self.m = len(tm), len(tm[0])
        tab = bytearray()
        for row in tm:
            for c in row:
                s, d, q = c if c is not None else (1, 1, -1)
                tab += bytes([s & 255, d, q & 255])
        self._h = L.ref_new(self.n, self.m, bytes(tab))
        self._buf = (ctypes.c_int64 * (9 + self.n))()
        self._get()

    def __del__(self):
        try:
            _lib.ref_free(self._h)
        except Exception:
            pass

    def _get(self):
        _lib.ref_info(self._h, self._buf)
        b = self._buf
        (self.halted, self.steps, self.state, self.pos, self.lo, self.hi,
         self.from_state, self.from_symbol, self._org) = b[0:9]
        self.halted = bool(self.halted)
        self.last = list(b[9:9 + self.n])

    def seek(self, target):
        _lib.ref_seek(self._h, target)
        self._get()
        return self

    def trace(self, n):
        """Next n steps: (bytes of state*m+symbol read before each step, head positions). Shorter if it halts."""
        tr = ctypes.create_string_buffer(n)
        pos = (ctypes.c_int32 * n)()
        k = _lib.ref_trace(self._h, n, tr, pos)
        self._get()
        return tr.raw[:k], pos[:k]

    def load(self, config):
        """Restart from a configuration (as from config())."""
        q, left, right = config
        _lib.ref_load(self._h, q, left, len(left), right, len(right))
        self._get()
        return self

    def find(self, config, target):
        """Run on to the next occurrence of a configuration (as from config()): 1 found, 0 halted, 2 step limit."""
        q, left, right = config
        k = _lib.ref_find(self._h, q, left, len(left), right, len(right), target)
        self._get()
        return k

    def score(self):
        return _lib.ref_score(self._h)

    def window(self, a, b):
        """Tape contents of positions a..b inclusive (must be inside lo..hi)."""
        p = _lib.ref_tape(self._h)
        return ctypes.string_at(p + a + self._org, b - a + 1)

    def content(self):
        """Whole visited tape as bytes, positions lo..hi."""
        return self.window(self.lo, self.hi)

    def left(self):
        """Cells strictly left of head, nearest LAST, leading blanks stripped."""
        if self.pos <= self.lo:
            return b""
        return self.window(self.lo, self.pos - 1).lstrip(b"\0")

    def right(self):
        """Cells from the head rightwards, trailing blanks stripped."""
        if self.pos > self.hi:
            return b""
        return self.window(self.pos, self.hi).rstrip(b"\0")

    def config(self):
        return (self.state, self.left(), self.right())


# Longest halting run of each class (proved busy-beaver step numbers).
BB_STEPS = {(1, 2): 1, (1, 3): 1, (1, 4): 1, (2, 2): 6, (3, 2): 21, (2, 3): 38,
            (4, 2): 107, (2, 4): 3932964, (5, 2): 47176870}


def truth(tm):
    """Exact halting truth from the blank tape: (halts, steps, score, from_state, from_symbol)."""
    s = Sim(tm).seek(BB_STEPS[(len(tm), len(tm[0]))] + 1)
    if s.halted:
        return (True, s.steps, s.score(), s.from_state, s.from_symbol)
    return (False, None, None, None, None)


def set_cell(tm, q, s, c):
    rows = list(tm)
    row = list(rows[q])
    row[s] = c
    rows[q] = tuple(row)
    return tuple(rows)


def blank(n, m):
    return tuple(tuple(None for _ in range(m)) for _ in range(n))


def tnf(n, m, first_1rb=True, allow_no_halt=False, bound=None, min_steps=0, mode="all", start=None):
    """Tree-normal-form enumeration (independent of the code under test).

    Returns a list of (tm, steps): steps > 0 means an undefined cell is executed as step
    number `steps` (so the machine, read as halting there, halts after `steps` steps);
    steps == 0 means no undefined cell is executed within the bound, which by default is
    the class's proven step bound, so it never is."""
    L = _load()
    bound = bound or BB_STEPS[(n, m)] + 1
    if start is None:
        start = blank(n, m)
        if first_1rb:
            start = set_cell(start, 0, 0, (1, 1, 1))
    tab = bytearray()
    for row in start:
        for c in row:
            tab += bytes([127, 0, 0]) if c is None else bytes([c[0], c[1], c[2] & 255])
    out = ctypes.c_void_p()
    L.ref_tnf.restype = ctypes.c_int64
    L.ref_tnf.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_int64,
                          ctypes.c_int64, ctypes.c_int, ctypes.POINTER(ctypes.c_void_p)]
    L.ref_free_buf.argtypes = [ctypes.c_void_p]
    k = L.ref_tnf(n, m, bytes(tab), int(allow_no_halt), bound, min_steps,
                  {"all": 0, "halt": 1, "run": 2}[mode], ctypes.byref(out))
    rec = n * m * 3 + 8
    res = []
    if k:
        data = ctypes.string_at(out, k * rec)
        L.ref_free_buf(out)
        for i in range(k):
            b = data[i * rec:(i + 1) * rec]
            cells = [None if b[3 * j] == 127 else (b[3 * j], b[3 * j + 1], b[3 * j + 2]) for j in range(n * m)]
            res.append((tuple(tuple(cells[q * m:(q + 1) * m]) for q in range(n)),
                        int.from_bytes(b[-8:], "little")))
    return res


def fill_halt(tm, bound=None):
    """The machine with the undefined cell it runs into made the standard halt 1RZ."""
    s = Sim(tm).seek(bound or BB_STEPS[(len(tm), len(tm[0]))] + 1)
    return set_cell(tm, s.from_state, s.from_symbol, (1, 1, -1))


def all_cells(n, m, halts=True, undef=True):
    out = []
    if undef:
        out.append(None)
    if halts:
        out += [(s, d, -1) for s in range(m) for d in (0, 1)]
    out += [(s, d, q) for q in range(n) for s in range(m) for d in (0, 1)]
    return out


def all_tms(n, m, halts="all", undef=True):
    """Every possible table. halts: 'all' or 'std' (only 1RZ)."""
    cells = all_cells(n, m, halts=(halts == "all"), undef=undef)
    if halts == "std":
        cells = cells + [(1, 1, -1)]
    for combo in itertools.product(cells, repeat=n * m):
        yield tuple(tuple(combo[i * m:(i + 1) * m]) for i in range(n))


def recurrence(tr, pos, max_start, max_period):
    """(start, period, shift) of the first repetition of a trace, if it starts and repeats within the limits.

    The sequence of (state, symbol read) from step start on equals that from start+period on, for the
    whole trace (which must be several times longer than the limits)."""
    n = len(tr)
    for p in range(1, max_period + 1):
        if tr[max_start:n - p] == tr[max_start + p:n]:
            s = max_start
            while s > 0 and tr[s - 1] == tr[s - 1 + p]:
                s -= 1
            return s, p, pos[s + p] - pos[s]
    return None
