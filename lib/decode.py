"""Decode the configuration of the repository's macro simulator into base-machine terms."""


def flat(sym):
    """Cells of a (possibly nested) macro symbol, left to right."""
    if isinstance(sym, (tuple, list)):
        out = []
        for x in sym:
            out += flat(x)
        return out
    return [int(sym)]


def too_big(tape, limit):
    n = 0
    for half in (0, 1):
        for blk in tape.tape[half][1:]:
            v = blk.num
            if not isinstance(v, int) or isinstance(v, bool):
                return True
            n += v
            if n > limit or v < 0:
                return True
    return False


def split_state(state):
    """(base state, back symbol cells or None, offset)."""
    back = None
    if hasattr(state, "back_symbol"):
        back = flat(state.back_symbol)
        state = state.base_state
    off = 0
    if hasattr(state, "offset"):
        off = state.offset
        state = state.state
    return int(state), back, off


def halves(sim):
    left, right = [], []
    for blk in sim.tape.tape[0][1:]:
        left += flat(blk.symbol) * blk.num
    for blk in reversed(sim.tape.tape[1][1:]):
        right += flat(blk.symbol) * blk.num
    return left, right


def whole(sim):
    """All tape cells (blank-stripped on both sides), head position ignored."""
    left, right = halves(sim)
    _, back, _ = split_state(sim.state)
    mid = back or []
    return bytes(left + mid + right).strip(b"\0")


def config(sim):
    """(state, cells left of head, cells from head on), blank-stripped: same form as ref.Sim.config()."""
    left, right = halves(sim)
    q, back, off = split_state(sim.state)
    d = sim.dir
    if back:
        if d == 1:
            left = left + back
        else:
            right = back + right
    if d == 1:
        if off:
            right = right + [0] * max(0, off - len(right))
            left, right = left + right[:off], right[off:]
    else:
        h = left[-1:] or [0]
        left = left[:-1]
        right = h + right
    return (q, bytes(left).lstrip(b"\0"), bytes(right).rstrip(b"\0"))
