"""Where a value was read from, independent of when."""


W_ = [None]


def use(W):
    """terms of this function are compared from now on"""
    W_[0] = W


def from_start(it, k):
    """the component k of an iterator visits positions 0, 1, 2 ..."""
    kind = it[1]
    if kind == 'enum':
        return True if k == ('n',) else from_start(it[2], k)
    if kind == 'zip':
        return bool(k) and k[0] in (0, 1) and from_start(it[2 + k[0]], k[1:])
    if kind == 'range':
        return it[2] == ('c', 0)
    if kind in ('refs', 'vals'):
        return True
    if kind in ('copied', 'take'):
        return from_start(it[2], k)
    return False


def position(t):
    """loops that walk several things in step use one position for all of them"""
    it = W_[0].elem.get(t[1]) if W_[0] is not None else None
    return ('pos', t[1]) if it is not None and it[0] == 'iter' and from_start(it, t[2]) else t


def strip_at(t):
    while isinstance(t, tuple) and t and t[0] == 'at':
        t = t[2]
    return t


def norm(p):
    """path with the versions of index terms removed"""
    out = []
    for x in p:
        if isinstance(x, tuple) and x and x[0] == 'i':
            out.append(('i', norm_term(x[1])))
        elif isinstance(x, tuple) and x and x[0] == 'sub':
            out.append(('sub', tuple(norm_term(y) for y in x[1])))
        elif isinstance(x, tuple) and x and x[0] == 'D':
            q = strip_at(x[1])
            if q[0] in ('ref', 'optref'):
                out = list(norm(q[1]))
            else:
                out.append(('D', norm_term(q)))
        else:
            out.append(x)
    return tuple(out)


def norm_term(t):
    t = strip_at(t)
    if not isinstance(t, tuple) or not t:
        return t
    p = loc(t)
    if p is not None:
        return ('loc', p)
    if t[0] == 'elem':
        return position(t)
    if t[0] in ('len',):
        return ('len', norm(t[1]))
    return tuple(norm_term(x) if isinstance(x, tuple) else x for x in t)


def loc(t, local=False):
    """the memory location a term reads, or None"""
    t = strip_at(t)
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'loc':
        return t[1]
    if t[0] == 'mem':
        return norm(t[1])
    if t[0] == 'phi' and len(t) > 2 and isinstance(t[2], tuple) and t[2] and (local or not (isinstance(t[2][0], tuple) and t[2][0][0] == 'L' and len(t[2]) == 1)):
        return norm(t[2])
    if t[0] == 'pj':
        p = loc(t[1], local)
        return None if p is None else norm(p + (t[2],))
    return None


def alts(W, t, seen=None):
    """the alternatives of a value that was merged in a local variable"""
    seen = set() if seen is None else seen
    t = strip_at(t)
    if t in seen:
        return
    seen.add(t)
    if t[0] == 'phi' and loc(t) is None:
        for o in W.operands(t):
            yield from alts(W, o, seen)
    else:
        yield t
