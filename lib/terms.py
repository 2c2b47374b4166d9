"""Hash-consed bit-vector terms with normalising constructors.

A value is either a Python int (constant, already reduced modulo 2**w) or a T node.  Every constructor takes the
width explicitly where it cannot be read off the arguments.  The same constructors are used by the symbolic executor
(for what the compiled code computes) and by the reference algorithms (for what the specification says), and they fold
constants, so the references also run on plain ints.
"""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ("id", "op", "a", "w", "x", "um", "z", "g")

    def __repr__(self):
        return show(self, 4)


_tab = {}
NODES = []          # all nodes by id


def reset():
    _tab.clear()
    del NODES[:]


def _mk(op, a, w, x=None):
    k = (op, w, x) + tuple([t.id if t.__class__ is T else ~t for t in a]) if op != "cat" else \
        (op, w, x) + tuple([t.id if t.__class__ is T else ~t for t in a])
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.w = w
        t.x = x
        t.um = None
        t.z = None
        t.g = None
        t.id = len(NODES)
        NODES.append(t)
        _tab[k] = t
    return t


def var(name, w):
    return _mk("v", (), w, name)


_undef_n = [0]


def undef(w, why=""):
    _undef_n[0] += 1
    return _mk("v", (), w, "undef!%d:%s" % (_undef_n[0], why))


def is_undef_name(n):
    return n.startswith("undef!")


MASK = [(1 << i) - 1 for i in range(4500)]


def umax(t):
    """an upper bound of the unsigned value"""
    if t.__class__ is int:
        return t
    if t.um is not None:
        return t.um
    op = t.op
    m = MASK[t.w]
    if op == "cat":
        s = 0
        r = 0
        for p, w in zip(t.a, t.x):
            r |= umax(p) << s
            s += w
    elif op == "lut":
        r = max(t.x)
    elif op == "and":
        r = min(umax(p) for p in t.a)
    elif op == "ite":
        r = max(umax(t.a[1]), umax(t.a[2]))
    elif op == "sel":
        r = max(umax(p) for p in t.a[1:])
    elif op == "add":
        co, c = t.x
        if all(k < (1 << (t.w - 1)) for k in co):
            r = c + sum(k * umax(p) for k, p in zip(co, t.a))
            if r > m:
                r = m
        else:
            r = m
    elif op == "mul":
        r = umax(t.a[0]) * umax(t.a[1])
        if r > m:
            r = m
    elif op == "ext":
        u = umax(t.a[0]) >> t.x
        r = u if u < m else m
    elif op == "xor":
        r = 0
        if t.x:
            r = t.x
        for p in t.a:
            r |= MASK[umax(p).bit_length()]
        r = MASK[r.bit_length()]
    elif op == "urem":
        r = m
        if t.a[1].__class__ is int and t.a[1]:
            r = t.a[1] - 1
        r = min(r, umax(t.a[0]))
    elif op in ("udiv", "lshr"):
        r = umax(t.a[0])
    else:
        r = m
    t.um = r
    return r


# ---------------------------------------------------------------- concatenation / extraction
def ext(v, lo, w):
    if v.__class__ is int:
        return (v >> lo) & MASK[w]
    if lo == 0 and w == v.w:
        return v
    op = v.op
    if op == "ext":
        return ext(v.a[0], lo + v.x, w)
    if op == "cat":
        out = []
        pos = 0
        hi = lo + w
        for p, pw in zip(v.a, v.x):
            e = pos + pw
            if e > lo and pos < hi:
                l = lo - pos if lo > pos else 0
                h = hi - pos if hi < e else pw
                out.append((ext(p, l, h - l), h - l))
            pos = e
            if pos >= hi:
                break
        return cat(out)
    if op == "lut":
        return lut([(e >> lo) & MASK[w] for e in v.x], v.a[0], w)
    if op == "ite":
        c, a, b = v.a
        if a.__class__ is int or b.__class__ is int or a.op == "cat" or b.op == "cat":
            return ite(c, ext(a, lo, w), ext(b, lo, w), w)
    if op == "xor" and w <= 8 and not (WORDS[0] and v.w == 32):
        if v.w <= 8 or any(p.op == "cat" and not is_rot(p) and _aligned(p, lo, w) for p in v.a):
            r = ext(v.x, lo, w)
            return xor([ext(p, lo, w) for p in v.a] + [r], w)
    if op == "and" and w <= 8 and not (WORDS[0] and v.w == 32):
        if v.w <= 8 or any(p.op == "cat" and not is_rot(p) and _aligned(p, lo, w) for p in v.a):
            return and_([ext(p, lo, w) for p in v.a], w)
    if op == "add" and lo == 0 and v.w == 64 and w == 32:
        co, c = v.x
        return add_n([(k & MASK[w], ext(p, 0, w)) for k, p in zip(co, v.a)], c & MASK[w], w)
    if op == "mul" and lo == 0 and v.w == 64 and w == 32:
        return mul(ext(v.a[0], 0, w), ext(v.a[1], 0, w), w)
    u = umax(v)
    if u >> lo == 0:
        return 0
    if lo + w > u.bit_length():
        n = u.bit_length() - lo
        return cat([(_mk("ext", (v,), n, lo) if n < v.w else v, n), (0, w - n)])
    return _mk("ext", (v,), w, lo)


def _aligned(p, lo, w):
    """is the slice one whole piece of the concatenation (or inside a constant piece)?"""
    pos = 0
    for q, pw in zip(p.a, p.x):
        if pos == lo and pw == w:
            return True
        if pos <= lo and lo + w <= pos + pw:
            return w == 1 or q.__class__ is int
        pos += pw
    return False


def _merge(p, pw, q, qw):
    """one term for (q:p) if they are adjacent parts of the same thing, else None"""
    if p.__class__ is int:
        if q.__class__ is int:
            return p | (q << pw)
        return None
    if q.__class__ is int:
        return None
    if p.op == "ext" and q.op == "ext" and p.a[0] is q.a[0] and p.x + pw == q.x:
        b = p.a[0]
        if p.x == 0 and pw + qw == b.w:
            return b
        return _mk("ext", p.a, pw + qw, p.x)
    if p.op == "xor" and q.op == "xor" and len(p.a) == len(q.a):
        d = {}
        for t in p.a:
            if t.op != "ext":
                return None
            d[(t.a[0].id, t.x + pw)] = t
        m = []
        for t in q.a:
            if t.op != "ext":
                return None
            s = d.get((t.a[0].id, t.x))
            if s is None:
                return None
            m.append(ext(t.a[0], s.x, pw + qw))
        return xor(m + [p.x | (q.x << pw)], pw + qw)
    if p.op == "and" and q.op == "and" and len(p.a) == len(q.a):
        d = {}
        for t in p.a:
            if t.op != "ext":
                return None
            d[(t.a[0].id, t.x + pw)] = t
        m = []
        for t in q.a:
            if t.op != "ext":
                return None
            s = d.get((t.a[0].id, t.x))
            if s is None:
                return None
            m.append(ext(t.a[0], s.x, pw + qw))
        return and_(m, pw + qw)
    return None


def cat(pieces):
    """pieces: list of (value, width), least significant first"""
    if len(pieces) == 1:
        return pieces[0][0]
    out = []
    for v, w in pieces:
        if w == 0:
            continue
        if v.__class__ is T and v.op == "cat":
            sub = zip(v.a, v.x)
        else:
            sub = ((v, w),)
        for p, pw in sub:
            if out:
                m = _merge(out[-1][0], out[-1][1], p, pw)
                if m is not None:
                    if m.__class__ is T and m.op == "cat":   # cannot re-expand to something smaller
                        out.pop()
                        out.extend(zip(m.a, m.x))
                    else:
                        out[-1] = (m, out[-1][1] + pw)
                    continue
            out.append((p, pw))
    if len(out) == 1:
        return out[0][0]
    ws = tuple([p[1] for p in out])
    return _mk("cat", tuple([p[0] for p in out]), sum(ws), ws)


def zext(v, w0, w):
    if v.__class__ is int or w == w0:
        return v
    return cat([(v, w0), (0, w - w0)])


def sext(v, w0, w):
    if w == w0:
        return v
    if v.__class__ is int:
        return v | (MASK[w] ^ MASK[w0]) if v >> (w0 - 1) else v
    s = ext(v, w0 - 1, 1)
    if s.__class__ is int:
        return cat([(v, w0), (MASK[w - w0] if s else 0, w - w0)])
    return cat([(v, w0), (ite(s, MASK[w - w0], 0, w - w0), w - w0)])


def trunc(v, w):
    return ext(v, 0, w)


def is_rot(t):
    return (t.op == "cat" and len(t.a) == 2 and t.a[0].__class__ is T and t.a[1].__class__ is T
            and t.a[0].op == "ext" and t.a[1].op == "ext" and t.a[0].a[0] is t.a[1].a[0]
            and t.a[0].a[0].w == t.w)


def _splitters(args, strict=False):
    """cut positions if the bitwise operation should be done piecewise, else None"""
    cuts = None
    if strict:
        for t in args:
            if t.__class__ is T and (t.op != "cat" or is_rot(t)):
                return None
    for t in args:
        if t.__class__ is T and t.op == "cat" and not is_rot(t):
            if cuts is None:
                cuts = set()
            pos = 0
            for w in t.x:
                cuts.add(pos)
                pos += w
    return cuts


# ---------------------------------------------------------------- xor / and / or / not
WORDS = [False]     # keep 32-bit operations whole instead of splitting them at the seams of their arguments


def gatey(t):
    """a word-level xor with gates below it stays a node of its own (so that the outputs of bit-sliced S-boxes can be matched)"""
    r = t.g
    if r is None:
        r = t.g = t.op == "and" or t.op == "xor" and any(gatey(p) for p in t.a)
    return r


def xor(args, w):
    c = 0
    d = {}
    for t in args:
        if t.__class__ is int:
            c ^= t
        elif t.op == "xor" and (w <= 8 or len(t.a) <= 6 and (len(t.a) == 1 or not gatey(t))):
            c ^= t.x
            for p in t.a:
                if p.id in d:
                    del d[p.id]
                else:
                    d[p.id] = p
        else:
            if t.id in d:
                del d[t.id]
            else:
                d[t.id] = t
    if not d:
        return c
    if len(d) == 1 and c == 0:
        return next(iter(d.values()))
    if w == 1:
        return _mk("xor", tuple([d[k] for k in sorted(d)]), 1, c)
    cuts = _splitters(d.values(), w > 8)
    if cuts is not None:
        cuts = sorted(cuts) + [w]
        vals = list(d.values())
        ps = [(xor([ext(t, lo, hi - lo) for t in vals] + [(c >> lo) & MASK[hi - lo]], hi - lo), hi - lo)
              for lo, hi in zip(cuts, cuts[1:])]
        if not WORDS[0] or w < 32 or not any(p.__class__ is T and p.op in ("xor", "and") and len(p.a) > 1 for p, q in ps):
            return cat(ps)
    # combine byte functions of the same index
    luts = {}
    n = 0
    for t in d.values():
        if t.op == "lut":
            n += 1
            luts.setdefault(t.a[0].id, []).append(t)
    if n:
        changed = False
        for i, l in luts.items():
            idx = l[0].a[0]
            tab = None
            if len(l) > 1:
                tab = list(l[0].x)
                for t in l[1:]:
                    tab = [p ^ q for p, q in zip(tab, t.x)]
                for t in l:
                    del d[t.id]
            if idx.w == w and i in d:
                if tab is None:
                    tab = list(l[0].x)
                    del d[l[0].id]
                del d[i]
                tab = [p ^ q for p, q in enumerate(tab)]
            if tab is not None:
                changed = True
                r = lut(tab, idx, w)
                if r.__class__ is int:
                    c ^= r
                elif r.op == "xor":
                    return xor(list(d.values()) + [r, c], w)
                elif r.id in d:
                    del d[r.id]
                else:
                    d[r.id] = r
        if changed:
            return xor(list(d.values()) + [c], w)
    # byte functions in a sum map 0 to 0, the constant is kept apart; a byte function alone takes the constant in
    if len(d) == 1:
        t = next(iter(d.values()))
        if c and t.op == "lut":
            return _lut_raw([p ^ c for p in t.x], t.a[0], w)
    elif n:
        for t in list(d.values()):
            if t.op == "lut" and t.x[0]:
                k = t.x[0]
                r = _lut_raw([p ^ k for p in t.x], t.a[0], w)
                if r.__class__ is int or r.op != "lut":
                    return xor([q for q in d.values() if q is not t] + [r, k, c], w)
                c ^= k
                del d[t.id]
                d[r.id] = r
    return _mk("xor", tuple([d[k] for k in sorted(d)]), w, c)


def not_(v, w):
    return xor([v, MASK[w]], w)


def and_(args, w):
    c = MASK[w]
    d = {}
    for t in args:
        if t.__class__ is int:
            c &= t
        elif t.op == "and":
            for p in t.a:
                d[p.id] = p
        else:
            d[t.id] = t
    if not d or c == 0:
        return c
    if c != MASK[w]:
        # mask: split into runs
        vals = list(d.values())
        out = []
        pos = 0
        while pos < w:
            bit = (c >> pos) & 1
            e = pos
            while e < w and (c >> e) & 1 == bit:
                e += 1
            if bit:
                out.append((and_([ext(t, pos, e - pos) for t in vals], e - pos), e - pos))
            else:
                out.append((0, e - pos))
            pos = e
        return cat(out)
    if len(d) == 1:
        return next(iter(d.values()))
    cuts = _splitters(d.values(), w > 8)
    if cuts is not None:
        cuts = sorted(cuts) + [w]
        vals = list(d.values())
        ps = [(and_([ext(t, lo, hi - lo) for t in vals], hi - lo), hi - lo) for lo, hi in zip(cuts, cuts[1:])]
        if not WORDS[0] or w < 32 or not any(p.__class__ is T and p.op in ("xor", "and") and len(p.a) > 1 for p, q in ps):
            return cat(ps)
    # x & ~x
    for t in d.values():
        if t.op == "xor" and t.x == MASK[w] and len(t.a) == 1 and t.a[0].id in d:
            return 0
    return _mk("and", tuple([d[k] for k in sorted(d)]), w)


def _maybe(v, w):
    """mask of the bits that may be one"""
    if v.__class__ is int:
        return v
    if v.op == "cat":
        m = 0
        s = 0
        for p, pw in zip(v.a, v.x):
            m |= _maybe(p, pw) << s
            s += pw
        return m
    return MASK[umax(v).bit_length()]


def or_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if b == MASK[w]:
            return b
    elif a is b:
        return a
    if _maybe(a, w) & _maybe(b, w) == 0:
        return xor([a, b], w)
    return not_(and_([not_(a, w), not_(b, w)], w), w)


def or_n(l, w=1):
    if not l:
        return 0
    return not_(and_([not_(a, w) for a in l], w), w)


# ---------------------------------------------------------------- arithmetic
def add_n(terms, c, w):
    """sum of k*t; terms: list of (k, t)"""
    m = MASK[w]
    d = {}
    whole = w == 32 and WORDS[0]
    alone = whole and len([1 for k, t in terms if t.__class__ is T]) == 1
    for k, t in terms:
        if t.__class__ is int:
            c += k * t
        elif t.op == "add" and len(t.a) <= 4 and (not whole or alone):
            co, cc = t.x
            c += k * cc
            for kk, p in zip(co, t.a):
                e = d.get(p.id)
                d[p.id] = (p, (kk * k + (e[1] if e else 0)) & m)
        elif t.op == "xor" and t.x == m and len(t.a) == 1:      # ~x = -x - 1
            p = t.a[0]
            c -= k
            e = d.get(p.id)
            d[p.id] = (p, (-k + (e[1] if e else 0)) & m)
        else:
            e = d.get(t.id)
            d[t.id] = (t, (k + (e[1] if e else 0)) & m)
    c &= m
    items = [d[i] for i in sorted(d) if d[i][1]]
    if not items:
        return c
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    if len(items) == 1 and c == m and items[0][1] == m:
        return _mk("xor", (items[0][0],), w, m)
    if w == 1:
        return xor([t for t, k in items] + [c], 1)
    # disjoint bits: no carries
    if all(k == 1 for t, k in items):
        mm = c
        ok = True
        for t, k in items:
            b = _maybe(t, w)
            if b & mm:
                ok = False
                break
            mm |= b
        if ok:
            return xor([t for t, k in items] + [c], w)
    if len(items) == 1 and c == 0:
        t, k = items[0]
        if k & (k - 1) == 0:
            s = k.bit_length() - 1
            return cat([(0, s), (ext(t, 0, w - s), w - s)])
    return _mk("add", tuple([t for t, k in items]), w, (tuple([k for t, k in items]), c))


def add(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & MASK[w]
    return add_n([(1, a), (1, b)], 0, w)


def sub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a - b) & MASK[w]
    return add_n([(1, a), (MASK[w], b)], 0, w)


def mul(a, b, w):
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if a.__class__ is int:
            return (a * b) & MASK[w]
        return add_n([(b, a)], 0, w)
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b), w)


def shl(a, k, w):
    if k.__class__ is int:
        if a.__class__ is int:
            return (a << k) & MASK[w]
        if k == 0:
            return a
        if k >= w:
            return 0
        return cat([(0, k), (ext(a, 0, w - k), w - k)])
    return _shift("shl", a, k, w)


def lshr(a, k, w):
    if k.__class__ is int:
        if a.__class__ is int:
            return a >> k
        if k == 0:
            return a
        if k >= w:
            return 0
        return cat([(ext(a, k, w - k), w - k), (0, k)])
    return _shift("lshr", a, k, w)


def ashr(a, k, w):
    if k.__class__ is int:
        if k >= w:
            k = w - 1
        if a.__class__ is int:
            s = a - (1 << w) if a >> (w - 1) else a
            return (s >> k) & MASK[w]
        if k == 0:
            return a
        return sext(ext(a, k, w - k), w - k, w)
    return _shift("ashr", a, k, w)


def _shift(op, a, k, w):
    u = umax(k)
    if u < 64 and u + 1 <= 64:
        # case split on the (small) amount
        f = {"shl": shl, "lshr": lshr, "ashr": ashr}[op]
        r = f(a, min(u, w), w)
        for i in range(u - 1, -1, -1):
            r = ite(eq(k, i, k.w), f(a, min(i, w), w), r, w)
        return r
    return _mk(op, (a, k), w)


def rotl(a, k, w=32):
    k %= w
    if k == 0:
        return a
    if a.__class__ is int:
        return ((a << k) | (a >> (w - k))) & MASK[w]
    return cat([(ext(a, w - k, k), k), (ext(a, 0, w - k), w - k)])


def rotr(a, k, w=32):
    return rotl(a, w - k, w)


def _sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def udiv(a, b, w):
    if b.__class__ is int and b:
        if a.__class__ is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
    return _mk("udiv", (a, b), w)


def urem(a, b, w):
    if b.__class__ is int and b:
        if a.__class__ is int:
            return a % b
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            return zext(ext(a, 0, k), k, w) if k else 0
    return _mk("urem", (a, b), w)


def sdiv(a, b, w):
    if b.__class__ is int and a.__class__ is int and b:
        x, y = _sg(a, w), _sg(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & MASK[w]
    if umax(a) >> (w - 1) == 0 and umax(b) >> (w - 1) == 0:
        return udiv(a, b, w)
    return _mk("sdiv", (a, b), w)


def srem(a, b, w):
    if b.__class__ is int and a.__class__ is int and b:
        x, y = _sg(a, w), _sg(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & MASK[w]
    if umax(a) >> (w - 1) == 0 and umax(b) >> (w - 1) == 0:
        return urem(a, b, w)
    return _mk("srem", (a, b), w)


# ---------------------------------------------------------------- comparisons
def eq(a, b, w):
    if a.__class__ is int:
        a, b = b, a
    if a.__class__ is int:
        return 1 if a == b else 0
    if a is b:
        return 1
    if w == 1:
        return xor([a, b, 1], 1)
    if b.__class__ is int:
        if b > umax(a):
            return 0
        if a.op == "cat":
            out = []
            s = 0
            for p, pw in zip(a.a, a.x):
                out.append(eq(p, (b >> s) & MASK[pw], pw))
                s += pw
            return and_(out, 1)
        if a.op == "xor":
            if len(a.a) == 1:
                return eq(a.a[0], b ^ a.x, w)
            return _eqx(xor([a, b], w), w)
        if a.op == "lut" and a.a[0].w <= 8:
            hits = [i for i, e in enumerate(a.x) if e == b]
            if not hits:
                return 0
            if len(hits) == 1:
                return eq(a.a[0], hits[0], a.a[0].w)
        if a.op == "ite":
            c, p, q = a.a
            if p.__class__ is int or q.__class__ is int:
                return ite(c, eq(p, b, w), eq(q, b, w), 1)
        if a.op == "add" and len(a.a) == 1 and a.x[0][0] == 1:
            return eq(a.a[0], (b - a.x[1]) & MASK[w], w)
    else:
        if a.op == "cat" or b.op == "cat":
            cuts = _splitters([a, b])
            if cuts:
                cuts = sorted(cuts) + [w]
                return and_([eq(ext(a, lo, hi - lo), ext(b, lo, hi - lo), hi - lo) for lo, hi in zip(cuts, cuts[1:])], 1)
        if a.op == "xor" or b.op == "xor":
            x = xor([a, b], w)
            if x.__class__ is int or x.op != "xor" or len(x.a) == 1:
                return eq(x, 0, w)
            return _eqx(x, w)
        if a.id > b.id:
            a, b = b, a
    return _mk("eq", (a, b), 1)


def _eqx(x, w):
    """x == 0 for an xor of at least two terms"""
    if x.__class__ is int or x.op != "xor" or len(x.a) == 1:
        return eq(x, 0, w)
    if len(x.a) == 2:
        a, b = x.a[0], xor([x.a[1], x.x], w)
        if a.id > b.id:
            a, b = b, a
        return _mk("eq", (a, b), 1)
    return _mk("eq", (x, 0), 1)


def ult(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if b.__class__ is int:
        if umax(a) < b:
            return 1
        if b == 0:
            return 0
        if b == 1:
            return eq(a, 0, w)
        if w == 1:
            return not_(a, 1)
    if a.__class__ is int:
        if a >= umax(b):
            return 0
        if a == 0:
            return not_(eq(b, 0, w), 1)
    # drop common constant-zero high parts
    if a.__class__ is int or b.__class__ is int or True:
        n = max(umax(a).bit_length(), umax(b).bit_length())
        if n < w and n > 0:
            return ult(ext(a, 0, n), ext(b, 0, n), n)
    return _mk("ult", (a, b), 1, w)


def ule(a, b, w):
    return not_(ult(b, a, w), 1)


def slt(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return 1 if _sg(a, w) < _sg(b, w) else 0
    if a is b:
        return 0
    if umax(a) >> (w - 1) == 0 and umax(b) >> (w - 1) == 0:
        return ult(a, b, w)
    if b == 0 and b.__class__ is int:
        return ext(a, w - 1, 1)
    h = 1 << (w - 1)
    return ult(xor([a, h], w), xor([b, h], w), w)


def ite(c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return a
    if c.op == "xor" and c.x == 1 and c.w == 1:
        return ite(not_(c, 1), b, a, w)
    if w == 1:
        if a.__class__ is int:
            if b.__class__ is int:
                return c if a else not_(c, 1)
            return or_(c, b, 1) if a else and_([not_(c, 1), b], 1)
        if b.__class__ is int:
            return or_(not_(c, 1), a, 1) if b else and_([c, a], 1)
    # cancel nested conditions
    if a.__class__ is T and a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.__class__ is T and b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return a
    ca = a.__class__ is T and a.op == "cat" and not is_rot(a)
    cb = b.__class__ is T and b.op == "cat" and not is_rot(b)
    if ca or cb:
        if (ca and cb) or a.__class__ is int or b.__class__ is int:
            cuts = sorted(_splitters([a, b])) + [w]
            return cat([(ite(c, ext(a, lo, hi - lo), ext(b, lo, hi - lo), hi - lo), hi - lo)
                        for lo, hi in zip(cuts, cuts[1:])])
    return _mk("ite", (c, a, b), w)


# ---------------------------------------------------------------- tables
_idtab = {w: tuple(range(1 << w)) for w in range(1, 9)}


def _lut_raw(tab, idx, w):
    tab = tuple(tab)
    f = tab[0]
    if all(e == f for e in tab):
        return f
    if idx.w == w and w <= 8 and tab == _idtab[w]:
        return idx
    if idx.w == w and all(e == i ^ f for i, e in enumerate(tab)):
        return xor([idx, f], w)
    return _mk("lut", (idx,), w, tab)


def lut(tab, idx, w):
    """table lookup; idx has at most 12 bits and len(tab) == 2**idx.w"""
    if idx.__class__ is int:
        return tab[idx]
    iw = idx.w
    assert len(tab) == 1 << iw, (len(tab), iw)
    # index of the form (piece:const...) -> shrink
    if idx.op == "cat" and any(p.__class__ is int for p in idx.a):
        free = []
        base = 0
        s = 0
        for p, pw in zip(idx.a, idx.x):
            if p.__class__ is int:
                base |= p << s
            else:
                free.append((p, pw, s))
            s += pw
        n = sum(f[1] for f in free)
        new = []
        for i in range(1 << n):
            v = base
            b = 0
            for p, pw, s in free:
                v |= ((i >> b) & MASK[pw]) << s
                b += pw
            new.append(tab[v])
        return lut(new, cat([(p, pw) for p, pw, s in free]), w)
    if idx.op == "lut":
        return lut([tab[e] for e in idx.x], idx.a[0], w)
    if idx.op == "xor" and idx.x:
        c = idx.x
        return lut([tab[i ^ c] for i in range(len(tab))], xor(list(idx.a), iw), w)
    if w == 1 and iw == 1:
        return _lut_raw(tab, idx, w)
    # split the output into parts of at most 8 bits, strip constant bits
    if w > 8 or any(True for _ in (0,)):
        allor = 0
        alland = MASK[w]
        for e in tab:
            allor |= e
            alland &= e
        const = ~(allor ^ alland) & MASK[w]
        if w <= 8 and const == 0:
            return _lut_raw(tab, idx, w)
        out = []
        pos = 0
        while pos < w:
            lim = min(w, (pos | 7) + 1)
            b = (const >> pos) & 1
            e = pos
            while e < lim and (const >> e) & 1 == b:
                e += 1
            n = e - pos
            if b:
                out.append(((alland >> pos) & MASK[n], n))
            else:
                out.append((_lut_raw([(v >> pos) & MASK[n] for v in tab], idx, n), n))
            pos = e
        return cat(out)


def select(entries, idx, w):
    """entries[idx] where entries may be terms; len(entries) == 2**idx.w"""
    if idx.__class__ is int:
        return entries[idx]
    if all(e.__class__ is int for e in entries):
        return lut(list(entries), idx, w)
    f = entries[0]
    if all(e is f for e in entries):
        return f
    if len(entries) == 2:
        return ite(idx, entries[1], entries[0], w)
    if idx.op == "cat" and any(p.__class__ is int for p in idx.a):
        free = []
        base = 0
        s = 0
        for p, pw in zip(idx.a, idx.x):
            if p.__class__ is int:
                base |= p << s
            else:
                free.append((p, pw, s))
            s += pw
        n = sum(f[1] for f in free)
        new = []
        for i in range(1 << n):
            v = base
            b = 0
            for p, pw, s in free:
                v |= ((i >> b) & MASK[pw]) << s
                b += pw
            new.append(entries[v])
        return select(new, cat([(p, pw) for p, pw, s in free]), w)
    return _mk("sel", (idx,) + tuple(entries), w)


# ---------------------------------------------------------------- rebuild with substituted arguments
def rebuild(t, a):
    op = t.op
    w = t.w
    if op == "v":
        return t
    if op == "cat":
        return cat(list(zip(a, t.x)))
    if op == "ext":
        return ext(a[0], t.x, w)
    if op == "xor":
        return xor(list(a) + [t.x], w)
    if op == "and":
        return and_(list(a), w)
    if op == "add":
        return add_n(list(zip(t.x[0], a)), t.x[1], w)
    if op == "mul":
        return mul(a[0], a[1], w)
    if op == "ite":
        return ite(a[0], a[1], a[2], w)
    if op == "eq":
        return eq(a[0], a[1], _w2(t, a))
    if op == "ult":
        return ult(a[0], a[1], t.x)
    if op == "lut":
        return lut(list(t.x), a[0], w)
    if op == "sel":
        return select(list(a[1:]), a[0], w)
    f = {"shl": shl, "lshr": lshr, "ashr": ashr, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem}[op]
    return f(a[0], a[1], w)


def _w2(t, a):
    for p in t.a:
        if p.__class__ is T:
            return p.w
    raise AssertionError


def argw(t, i):
    """width of argument i"""
    p = t.a[i]
    if p.__class__ is T:
        return p.w
    if t.op == "cat":
        return t.x[i]
    if t.op == "eq":
        return _w2(t, t.a)
    if t.op == "ult":
        return t.x
    if t.op == "ite":
        return 1 if i == 0 else t.w
    return t.w


def topo(roots):
    """all T nodes below roots, arguments first"""
    seen = set()
    out = []
    st = [r for r in roots if r.__class__ is T]
    st = [(r, False) for r in st]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for p in t.a:
            if p.__class__ is T and p.id not in seen:
                st.append((p, False))
    return out


def support(roots):
    return [t for t in topo(roots) if t.op == "v"]


def has_undef(t):
    if t.__class__ is int:
        return False
    if t.z is not None:
        return t.z
    st = [t]
    while st:
        u = st[-1]
        if u.z is not None:
            st.pop()
            continue
        if u.op == "v":
            u.z = is_undef_name(u.x)
            st.pop()
            continue
        pend = [p for p in u.a if p.__class__ is T and p.z is None]
        if pend:
            st.extend(pend)
            continue
        u.z = any(p.__class__ is T and p.z for p in u.a)
        st.pop()
    return t.z


def substitute(roots, m):
    """roots with the nodes in m (id -> value) replaced"""
    r = dict(m)
    for t in topo(roots):
        if t.id in r:
            continue
        ch = False
        a = []
        for p in t.a:
            if p.__class__ is T:
                q = r[p.id]
                if q is not p:
                    ch = True
                a.append(q)
            else:
                a.append(p)
        r[t.id] = rebuild(t, a) if ch else t
    return [r[t.id] if t.__class__ is T else t for t in roots]


def rename_undef(t):
    m = {v.id: undef(v.w, "copy") for v in support([t]) if is_undef_name(v.x)}
    return substitute([t], m)[0]


def show(t, d=6):
    if t.__class__ is int:
        return hex(t)
    if t.op == "v":
        return t.x
    if d == 0:
        return "#%d" % t.id
    x = ""
    if t.op == "lut":
        x = "tab%x" % (hash(t.x) & 0xffff)
    elif t.op == "ext":
        x = "%d+%d" % (t.x, t.w)
    elif t.x is not None:
        x = str(t.x)
    return "(%s.%d[%s] %s)" % (t.op, t.w, x, " ".join(show(p, d - 1) for p in t.a[:6]))
