"""Terms of the path analysis: constants, symbols, linear integers and sequences in a normal form.

A sequence is a list of parts: an element, a slice of a base sequence with linear bounds, or a repeated chunk
("rep": chunk(k) for k in [lo, hi)).  Adjacent slices are merged, so equal executions give equal terms."""

TOP = ('top',)
NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)
EMPTY = ('seq', ())
KAPPA = ('kappa',)


def C(v):
    return ('c', type(v).__name__, v)


def is_c(t):
    return t[0] == 'c'


def is_int(t):
    return t[0] == 'c' and t[1] == 'int' or t[0] in ('lin', 'len') or t[0] == 's' and t[2] == 'LI'


def as_lin(t):
    if t[0] == 'c' and t[1] == 'int':
        return t[2], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    if t[0] == 'app' and t[1] == '+':
        a, b = as_lin(t[2]), as_lin(t[3])
        d = dict(a[1])
        for k, v in b[1].items():
            d[k] = d.get(k, 0) + v
        return a[0] + b[0], d
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def iadd(a, b, s=1):
    ca, da = as_lin(a)
    cb, db = as_lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return mk_lin(ca + s * cb, d)


def isub(a, b):
    return iadd(a, b, -1)


ONE = C(1)
ZERO = C(0)


def length(t):
    """linear term: length of sequence term t"""
    if t[0] == 'seq':
        r = ZERO
        for p in t[1]:
            r = iadd(r, part_len(p))
        return r
    if t[0] == 'app' and t[1] == '+':
        return iadd(length(t[2]), length(t[3]))
    return ('len', t)


def part_len(p):
    if p[0] == 'e':
        return ONE
    if p[0] == 'sl':
        return isub(p[3], p[2])
    if p[0] == 'rep':
        n = isub(p[3], p[2])
        k = len(p[1])
        c, d = as_lin(n)
        return mk_lin(c * k, {a: v * k for a, v in d.items()})
    raise ValueError(p)


def parts(t):
    if t[0] == 'seq':
        return t[1]
    if t[0] == 'app' and t[1] == '+':
        return parts(t[2]) + parts(t[3])
    return (('sl', t, ZERO, ('len', t)),)


def subst_kappa(t, val):
    if t == KAPPA:
        return val
    if isinstance(t, tuple):
        return rebuild(tuple(subst_kappa(x, val) for x in t))
    return t


def rebuild(t):
    """re-normalise a term whose children were rewritten"""
    if not t or not isinstance(t[0], str):
        return t
    if t[0] == 'lin':
        r = C(t[1])
        for a, v in t[2]:
            ca, da = as_lin(a)
            r = iadd(r, mk_lin(ca * v, {k: x * v for k, x in da.items()}))
        return r
    if t[0] == 'seq':
        return mk_seq(t[1])
    if t[0] == 'len':
        return length(t[1])
    if t[0] == 'idx':
        return index(t[1], t[2])
    return t


def plain(seq):
    return mk_seq(tuple(parts(seq))) if seq[0] == 'app' and seq[1] == '+' else seq


def index(seq, k):
    """element k (linear) of a sequence, or an 'idx' term"""
    seq = plain(seq)
    if seq[0] == 'seq':
        ps = parts(seq)
        if len(ps) == 1 and ps[0][0] == 'sl':
            return index(ps[0][1], iadd(ps[0][2], k))
        if len(ps) == 1 and ps[0][0] == 'rep' and len(ps[0][1]) == 1:
            return subst_kappa(ps[0][1][0], iadd(ps[0][2], k))
        off = k
        for p in ps:
            if p[0] == 'e' and off == ZERO:
                return p[1]
            n = part_len(p)
            d = isub(n, off)
            if d[0] == 'c' and d[2] > 0 and off[0] == 'c' and p[0] == 'sl':
                return index(p[1], iadd(p[2], off))
            if not (d[0] == 'c' and d[2] <= 0):
                break
            off = isub(off, n)
        # from the end
        r = isub(isub(length(seq), k), ONE)
        if r[0] == 'c' and r[2] >= 0:
            n = r[2]
            for p in reversed(ps):
                if p[0] == 'e':
                    if n == 0:
                        return p[1]
                    n -= 1
                elif p[0] == 'sl' and n == 0:
                    return index(p[1], isub(p[3], ONE))
                else:
                    break
    return ('idx', seq, k)


def merge(a, b):
    """the parts a, b joined into one part, or None"""
    if a[0] == 'sl' and b[0] == 'sl' and a[1] == b[1] and a[3] == b[2]:
        return ('sl', a[1], a[2], b[3])
    if a[0] == 'rep' and b[0] == 'rep' and a[1] == b[1] and a[3] == b[2]:
        return ('rep', a[1], a[2], b[3])
    return None


def mk_seq(ps):
    out = []
    for p in ps:
        if p[0] == 'e' and p[1][0] == 'idx':
            p = ('sl', p[1][1], p[1][2], iadd(p[1][2], ONE))
        if p[0] in ('sl', 'rep') and p[2] == p[3]:
            continue
        if p[0] == 'sl' and p[1][0] == 'seq':       # slice of a known sequence
            inner = p[1]
            if p[2] == ZERO and p[3] == length(inner):
                for q in inner[1]:
                    push(out, q)
                continue
            if p[2][0] == 'c' and p[3][0] == 'c' and all(q[0] == 'e' for q in inner[1]):
                for q in inner[1][p[2][2]:p[3][2]]:
                    push(out, q)
                continue
        push(out, p)
    if len(out) == 1 and out[0][0] == 'sl' and out[0][2] == ZERO and out[0][3] == length(out[0][1]):
        return out[0][1]
    return ('seq', tuple(out))


def push(out, p):
    if out:
        m = merge(out[-1], p)
        if m is not None:
            out[-1] = m
            return
        # chunk of elements that continues a repetition
        for n in range(len(out) - 1, -1, -1):
            r = out[n]
            if r[0] == 'rep':
                tail = out[n + 1:] + [p]
                els = []
                for q in tail:
                    if q[0] == 'e':
                        els.append(q[1])
                    elif q[0] == 'sl' and isub(q[3], q[2]) == ONE:
                        els.append(('idx', q[1], q[2]))
                    else:
                        els = None
                        break
                if els is not None and len(els) == len(r[1]) and \
                        all(subst_kappa(x, r[3]) == y for x, y in zip(r[1], els)):
                    del out[n:]
                    push(out, ('rep', r[1], r[2], iadd(r[3], ONE)))
                    return
                break
    out.append(p)


def concat(a, b):
    return mk_seq(tuple(parts(a)) + tuple(parts(b)))


def elem(t):
    return ('e', t)


def slice_seq(seq, lo, hi):
    """seq[lo:hi], bounds linear (already made non-negative); ('app','slice',...) if not expressible"""
    seq = plain(seq)
    whole = mk_seq((('sl', seq, lo, hi),))
    ps = list(parts(seq))
    if lo == ZERO and hi == length(seq):
        return mk_seq(tuple(ps))
    if len(ps) == 1 and ps[0][0] == 'sl':
        b, l0, h0 = ps[0][1:]
        return mk_seq((('sl', b, iadd(l0, lo), iadd(l0, hi)),))
    # drop from the front
    off = lo
    while ps and off != ZERO:
        n = part_len(ps[0])
        d = isub(off, n)
        if d[0] == 'c' and d[2] >= 0:
            ps.pop(0)
            off = d
            continue
        if ps[0][0] == 'sl' and d[0] == 'c':
            ps[0] = ('sl', ps[0][1], iadd(ps[0][2], off), ps[0][3])
            off = ZERO
            continue
        return whole
    # take hi-lo elements
    want = isub(hi, lo)
    rest = isub(mk_len(ps), want)          # to be dropped from the end
    if rest[0] == 'c' and rest[2] <= 0:
        return mk_seq(tuple(ps))
    if rest[0] == 'c':
        n = rest[2]
        while n and ps:
            ln = part_len(ps[-1])
            if ln[0] == 'c' and ln[2] <= n:
                n -= ln[2]
                ps.pop()
                continue
            if ps[-1][0] == 'sl':
                ps[-1] = ('sl', ps[-1][1], ps[-1][2], isub(ps[-1][3], C(n)))
                n = 0
                continue
            return whole
        return mk_seq(tuple(ps))
    out = []
    for p in ps:
        n = part_len(p)
        d = isub(want, n)
        if d[0] == 'c' and d[2] >= 0:
            out.append(p)
            want = d
            if want == ZERO:
                break
            continue
        if want[0] == 'c' and p[0] == 'sl':
            out.append(('sl', p[1], p[2], iadd(p[2], want)))
            want = ZERO
            break
        return whole
    return mk_seq(tuple(out))


def mk_len(ps):
    r = ZERO
    for p in ps:
        r = iadd(r, part_len(p))
    return r


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def show(t):
    k = t[0]
    if k == 'c':
        return repr(t[2])
    if k == 's':
        return t[2] + (f"#{t[1]}" if t[1] else '')
    if k == 'lin':
        return '+'.join(([str(t[1])] if t[1] else []) + [(f"{v}*" if v != 1 else '') + show(a) for a, v in t[2]])
    if k == 'len':
        return f"len({show(t[1])})"
    if k == 'idx':
        return f"{show(t[1])}[{show(t[2])}]"
    if k == 'f':
        return f"{show(t[1])}.{t[2]}"
    if k == 'seq':
        r = []
        for p in t[1]:
            if p[0] == 'e':
                r.append(show(p[1]))
            elif p[0] == 'sl':
                if p[2] == ZERO and p[3] == length(p[1]):
                    r.append('*' + show(p[1]))
                else:
                    r.append(f"*{show(p[1])}[{show(p[2])}:{show(p[3])}]")
            else:
                r.append(f"*rep({', '.join(map(show, p[1]))}, {show(p[2])}..{show(p[3])})")
        return '(' + ', '.join(r) + ')'
    if k == 'kappa':
        return 'k'
    if k in ('call', 'app'):
        return f"{t[1]}({', '.join(show(x) for x in t[2:] if isinstance(x, tuple))})"
    return str(t)
