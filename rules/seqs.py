"""What a built sequence contains: a list of single elements and of runs, each run repeating a few elements for k in 0..n."""
from lib import *

K = mk("ind", "\u2022k", INT0)


class One:
    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return show(self.x)[:80]


class Run:
    def __init__(self, n, xs):
        self.n = n
        self.xs = xs

    def __repr__(self):
        return "[%s for k<%s]" % (", ".join(show(x)[:80] for x in self.xs), show(self.n)[:60])


def chunks(t):
    return t.op == "call" and t.a[0].split("::")[-1] in ("chunks", "chunks_exact")


def slen(t):
    if chunks(t) and t.a[2] is Int(2):
        # of an even length; an odd one leaves a shorter last chunk, whose second element is then out of range
        return mk("bin", "Shr", slen(t.a[1]), INT1)
    if t.op == "it" and t.a[0] == "skip":
        return sub(slen(t.a[1]), t.a[2])
    if t.op == "it" and t.a[0] == "step_by" and is_int(t.a[2]) and t.a[2].a[0] > 0:
        n, k = slen(t.a[1]), t.a[2].a[0]
        s = split_by(add(n, Int(k - 1)), k, Facts())
        return s[0] if s else mk("bin", "Div", add(n, Int(k - 1)), t.a[2])
    if t.op == "it" and t.a[0] in ("rev", "enumerate", "inspect"):
        return slen(t.a[1])
    if t.op == "reversed":
        return slen(t.a[0])
    if t.op == "slice":
        return sub(t.a[2], t.a[1])
    if t.op == "empty":
        return INT0
    if t.op == "adt" and t.a[0].endswith("::Range"):
        return sub(t.a[3][1], t.a[3][0])
    if t.op == "arr":
        return Int(len(t.a[0]))
    return mk("call", "len", t)


def at(src, i):
    """element i of a sequence term"""
    if src.op == "slice":
        return at(src.a[0], add(src.a[1], i))
    if src.op == "adt" and src.a[0].endswith("::Range"):
        return add(src.a[3][0], i)
    if src.op == "it" and src.a[0] == "rev":
        return at(src.a[1], sub(sub(slen(src.a[1]), INT1), i))
    if src.op == "it" and src.a[0] == "skip":
        return at(src.a[1], add(i, src.a[2]))
    if src.op == "it" and src.a[0] == "step_by" and is_int(src.a[2]):
        return at(src.a[1], mul(i, src.a[2]))
    if src.op == "it" and src.a[0] in ("take", "inspect"):
        return at(src.a[1], i)
    if src.op == "reversed":
        return at(src.a[0], sub(sub(slen(src.a[0]), INT1), i))
    if chunks(src):
        n = src.a[2]
        if is_int(n):
            return mk("slice", src.a[1], mul(i, n), add(mul(i, n), n))
    return mk("idx", src, i)


def rounds(I, f, L):
    """how many rounds loop L made when it left with facts f"""
    cnt = mk("ind", L.id, INT0)
    for k, v in f.d.items():
        if k.op == "more" and v is False and str(k.a[1]).split("~")[0] == str(L.id):
            src = k.a[0]
            if any(x.op == "it" and x.a[0] in ("filter", "filter_map", "take_while") for x in subterms(src)):
                return None
            n = slen(src) if chunks(src) else I.seqlen(src)
            if n is None and src.op in ("adt", "it"):
                n = slen(src)
                if n.op == "call" and n.a[1] is src:
                    return None
            return n
    for k, v in f.d.items():
        if not v or k.op != "ge0":
            continue
        c, d = lin_of(k.a[0])
        if d.get(cnt, 0) < 1:
            continue
        r = d[cnt]
        n = sub(mul(cnt, Int(r)), k.a[0])      # r*cnt >= n
        if any(x.op in ("lv", "ind") and str(x.a[0]) == L.id for x in subterms(n)):
            continue
        if L.backs and all(b.facts.truth(mk_lt(mul(cnt, Int(r)), n)) is True for b in L.backs):
            if r == 1:
                return n
            if r == 2:
                return mk("bin", "Shr", add(n, INT1), INT1)
    return None


def unhole(t, lid, f=None):
    """elements of loop `lid` written with the position K"""
    m = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        if x.op == "elem" and str(x.a[1]) == lid:
            r = at(go(x.a[0]), K)
        elif x.op == "ind" and x.a[0] == lid:
            r = add(K, go(x.a[1]))
        elif x.op == "idx":
            r = at(go(x.a[0]), go(x.a[1]))
        else:
            na = tuple(go(y) for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
        m[x] = r
        return r
    return go(t)


def pieces(I, f, t):
    """-> [One|Run] or None"""
    if t.op == "empty" or t is EMPTY:
        return []
    if t.op == "arr" and isinstance(t.a[0], tuple):
        return [One(x) for x in t.a[0]]
    if t.op == "push" and len(t.a) == 2:
        p = pieces(I, f, t.a[0])
        return None if p is None else p + [One(t.a[1])]
    if t.op == "append":
        p, q = pieces(I, f, t.a[0]), pieces(I, f, t.a[1])
        return None if p is None or q is None else p + q
    if t.op == "call" and t.a[0] == "concat" and t.a[1].op == "arr":
        r = []
        for x in t.a[1].a[0]:
            p = pieces(I, f, x)
            if p is None:
                return None
            r += p
        return r
    if t.op == "ins" and len(t.a) == 3 and t.a[1] is INT0:
        p = pieces(I, f, t.a[0])
        return None if p is None else [One(t.a[2])] + p
    if t.op == "lv":
        L = loop_of(I, t)
        if L is None or t not in L.vars:
            return None
        init, steps = L.vars[t]
        p = pieces(I, f, init)
        n = rounds(I, f, L)
        if p is None or n is None or not steps:
            return None
        body = None
        for v, g in steps:
            xs = []
            while v is not t:
                if v.op == "push" and len(v.a) == 2:
                    xs.append(v.a[1])
                    v = v.a[0]
                elif v.op == "append" and v.a[1].op == "arr":
                    xs.extend(reversed(v.a[1].a[0]))
                    v = v.a[0]
                else:
                    return None
            xs = [unhole(x, L.id) for x in xs[::-1]]
            if body is not None and body != xs:
                return None
            body = xs
        return p + [Run(n, body)]
    if t.op == "coll":
        b = t.a[2]
        if len(b) != 1 or b[0].a[0][0].a[0]:
            return None
        v = b[0].a[0][1]
        n = slen(t.a[1])
        return [Run(n, [unhole(v, "\u2022%d" % t.a[0])])]
    if t.op == "it" and t.a[0] == "skip" or t.op == "reversed":
        return [Run(slen(t), [at(t, K)])]
    if t.op in ("sym", "arg", "field", "slice", "as", "call", "idx", "obj", "deref", "eff", "cast"):
        return [Run(slen(t), [at(t, K)])]
    return None


# ---------------------------------------------------------------- arithmetic on small unsigned numbers
def simp(t, f, memo=None):
    """shifts, masks and ors of sums whose terms are multiples of a power of two"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        na = tuple(go(y) for y in x.a)
        r = x if na == x.a else rebuild(x.op, na)
        if r.op == "bin":
            r = arith(r, f)
        elif r.op == "idx":
            r = at(r.a[0], r.a[1])
        memo[x] = r
        return r
    return go(t)


def upper_of(l, f, n):
    """0 <= l < n under f"""
    return entails(f, mk_le(INT0, l)) and entails(f, mk_lt(l, Int(n)))


def split_by(t, n, f):
    """t = n*q + r with 0 <= r < n -> (q, r)"""
    c, d = lin_of(t)
    q, r = Int(c // n), Int(c % n)
    for x, k in d.items():
        if k % n == 0:
            q = add(q, mul(x, Int(k // n)))
        else:
            r = add(r, mul(x, Int(k)))
    if is_int(r) or upper_of(r, f, n):
        return q, r
    return None


def arith(t, f):
    o, a, b = t.a[0], t.a[1], t.a[2]
    if o in ("Shr", "Div") and is_int(b):
        n = (1 << b.a[0]) if o == "Shr" else b.a[0]
        s = split_by(a, n, f)
        if s:
            return s[0]
    if o in ("BitAnd", "Rem"):
        if is_int(a) and o == "BitAnd":
            a, b = b, a
        if is_int(b):
            n = b.a[0] + 1 if o == "BitAnd" else b.a[0]
            if n & (n - 1) == 0:
                s = split_by(a, n, f)
                if s:
                    return s[1]
            if o == "BitAnd":
                m = b.a[0]
                low = (m & -m)
                s = split_by(a, low, f)
                if s:
                    # the mask, taken at the position of its lowest bit
                    k = m // low
                    if is_int(s[0]):
                        return Int((s[0].a[0] & k) * low)
                    if (k & (k + 1)) == 0:
                        s2 = split_by(s[0], k + 1, f)
                        if s2:
                            return mul(s2[1], Int(low))
    if o == "Shl" and is_int(b):
        return mul(a, Int(1 << b.a[0]))
    if o in ("BitOr", "Add", "BitXor"):
        if o == "Add":
            return add(a, b)
        for x, y in ((a, b), (b, a)):
            for n in (16, 32, 64):
                s = split_by(x, n, f)
                if s and s[1] is INT0 and upper_of(y, f, n):
                    return add(x, y)
            if is_int(x) and is_int(y):
                return Int(x.a[0] | y.a[0])
    return t


def under(o, m, base):
    """facts of an outcome after substituting m, on top of `base`; None when the outcome is impossible there"""
    f = base
    for _ in range(2):
        for k, v in o.facts.d.items():
            k2 = simp(subst(k, m), base)
            f = f.assume(k2, v)
            if f is None:
                return None
            t = f.truth(k2)
            if t is not None and t != v:
                return None
            x = k2 if v else mk_not(k2)
            if x.op == "ge0" and f.ge0_deep(add(neg(x.a[0]), Int(-1))):
                return None
            if k2.op in ("eq", "eq0") and (v and separated(f, k2) or not v and entails(f, k2)):
                return None
    return f


def same_pieces(I, f, got, want, m, digit=None):
    """problem text or None; `digit(t)` says which element terms are known to be below 16"""
    if got is None:
        return "cannot tell what the sequence holds"

    def norm(x):
        x = simp(subst(x, m), f)
        g = f
        if digit:
            for y in subterms(x):
                if y.op == "idx" and digit(y):
                    for a in (mk_le(INT0, y), mk_lt(y, Int(16))):
                        g = g.assume(a, True) or g
            x = simp(x, g)
        return x

    def flat(ps):
        r = []
        for p in ps:
            if isinstance(p, One):
                r.append(One(norm(p.x)))
            else:
                n = norm(p.n)
                if n is INT0 or entails(f, mk_le(n, INT0)):
                    continue
                r.append(Run(n, [norm(x) for x in p.xs]))
        return r
    a, b = flat(got), flat(want)
    if len(a) != len(b):
        return "the sequence is %s" % (a,)
    for x, y in zip(a, b):
        if type(x) is not type(y):
            return "the sequence is %s" % (a,)
        if isinstance(x, One):
            if not same(f, x.x, y.x):
                return "an element is %s, expected %s" % (x, y)
        else:
            if not same(f, x.n, y.n):
                return "a run has %s elements, expected %s" % (show(x.n)[:80], show(y.n)[:80])
            if len(x.xs) != len(y.xs) or not all(same(f, p, q) for p, q in zip(x.xs, y.xs)):
                return "the run is %s, expected %s" % (x, y)
    return None
