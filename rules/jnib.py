"""The versioned tree's nibble paths and key bits (J13)."""
from lib import *
from pmtlib import tyis
import seqs
from seqs import simp, under
from jdb import plain, loop_var
from proofs import bytewise_prefix

NP = "jmt::types::nibble::nibble_path::NibblePath::"
NI = "jmt::types::nibble::nibble_path::NibbleIterator::<'a>::"
NB = "types::nibble::Nibble"
PATH = "types::nibble::nibble_path::NibblePath"
BITI = "types::nibble::nibble_path::BitIterator"
NIBI = "types::nibble::nibble_path::NibbleIterator"
HBI = "bytes32ext::HashValueBitIterator"
PEEK = "types::nibble::nibble_path::Peekable"
ITER = "core::iter::traits::iterator::Iterator"
BACK = "core::iter::traits::double_ended::DoubleEndedIterator"
EXT = "bytes32ext::Bytes32Ext"
F0 = Facts()


def facts(*atoms):
    f = F0
    for a in atoms:
        f = f.assume(a, True)
        assert f is not None
    return f


# ---------------------------------------------------------------- where each bit of a small number comes from
def bits(t, width):
    """the bits of t, lowest first: 0, 1 or (source, position); None when they cannot be told apart"""
    if t.op == "int":
        return [(t.a[0] >> i) & 1 for i in range(16)]
    w = width(t)
    if w is not None:
        return list(w) + [0] * (16 - len(w))
    if t.op == "cast":
        b = bits(t.a[1], width)
        n = {"u8": 8, "u16": 16}.get(t.a[0], 16)
        return None if b is None else b[:n] + [0] * (16 - n)
    if t.op == "lin":
        c, d = lin_of(t)
        if c < 0:
            return None
        r = bits(Int(c), width)
        for x, k in d.items():
            b = bits(x, width)
            if b is None or k <= 0 or k & (k - 1):
                return None
            s = k.bit_length() - 1
            if any(b[16 - s:]):
                return None
            r = join(r, [0] * s + b[:16 - s])
            if r is None:
                return None
        return r
    if t.op == "bin":
        o = t.a[0]
        x = bits(t.a[1], width)
        if x is None:
            return None
        if o in ("Shr", "Shl"):
            if t.a[2].op != "int":
                return None
            s = t.a[2].a[0]
            return x[s:] + [0] * s if o == "Shr" else [0] * s + x[:16 - s]
        y = bits(t.a[2], width)
        if y is None:
            return None
        if o == "BitOr" or o == "BitXor":
            return [b if a == 0 else a if b == 0 or (a == b and o == "BitOr") else 1 if o == "BitOr" and 1 in (a, b) else None for a, b in zip(x, y)]
        if o == "BitAnd":
            return [0 if 0 in (a, b) else b if a == 1 else a if b == 1 or a == b else None for a, b in zip(x, y)]
    return None


def join(x, y):
    if any(a and b for a, b in zip(x, y)):
        return None
    return [a or b for a, b in zip(x, y)]


def lone(t, width):
    """(source, position) when t is nonzero exactly when that bit is set"""
    b = bits(t, width)
    if b is None:
        return None
    nz = [x for x in b if x != 0]
    return nz[0] if len(nz) == 1 and isinstance(nz[0], tuple) else None


def bool_bit(t, width):
    """(source, position, polarity) of a condition that reads one bit"""
    if t.op == "not":
        r = bool_bit(t.a[0], width)
        return r and (r[0], r[1], not r[2])
    if t.op == "ge0":
        for x, neg_ in ((add(t.a[0], INT1), True), (neg(t.a[0]), False)):
            r = lone(x, width)
            if r is not None:
                return r[0], r[1], neg_
    if t.op == "eq0":
        c, d = lin_of(t.a[0])
        for x, c in ((t.a[0], c), (neg(t.a[0]), -c)):
            # x = 0, where x + 2^i is a term with bit i alone (or x is)
            x = sub(x, Int(c))
            b = lone(x, width)
            if b is not None and c in (0, -(1 << bits(x, width).index(b))):
                return b[0], b[1], c != 0
    if t.op == "eq":
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if y.op == "int":
                b = bits(x, width)
                r = lone(x, width)
                if r is not None:
                    i = b.index(r)
                    if y.a[0] in (0, 1 << i):
                        return r[0], r[1], y.a[0] != 0
    if t.op in ("bin", "lin", "cast"):
        r = lone(t, width)
        return r and (r[0], r[1], True)
    return None


def is_nib(t):
    return t.op == "adt" and t.a[0] == NB


def nib_of(t):
    return t.a[3][0] if is_nib(t) else mk("field", t, "0")


# ---------------------------------------------------------------- one case of a summary
class Case:
    """the outcomes of a function in one case: `m` replaces terms, `base` are the facts of the case"""

    def __init__(self, ctx, rule, s, what, m, base, byte, low0=()):
        self.ctx, self.rule, self.s, self.what, self.m, self.base, self.byte, self.low0 = ctx, rule, s, what, m, base, byte, low0

    def width(self, t):
        """which terms are whole bytes and which are nibbles"""
        if t.op == "idx" and t.a[0] is self.byte:
            lo = any(same(self.base, t.a[1], i) for i in self.low0)
            return [0 if lo and i < 4 else (t, i) for i in range(8)]
        if t.op == "field" and t.a[1] == "0" and t.a[0].op in ("arg", "sym", "elem"):
            return [(t, i) for i in range(4)]
        return None

    def term(self, t):
        x = simp(subst(t, self.m), self.base)
        return self.fold(x)

    def fold(self, x):
        if x.op == "as" and x.a[0].op == "call":
            return x
        return x

    def ends(self, o):
        """extra substitutions and facts from what is known of first and last elements; None when impossible"""
        f = self.base
        m = dict(self.m)
        for k, dom in o.facts.dom.items():
            if k.op != "call" or len(k.a) != 2 or k.a[0] not in ("last", "first"):
                continue
            n = self.term(seqs.slen(k.a[1]))
            if "Some" not in dom:
                f = f.assume(mk_le(n, INT0), True)
            elif "None" not in dom:
                f = f.assume(mk_le(INT1, n), True)
                i = sub(n, INT1) if k.a[0] == "last" else INT0
                m[payload(k, "Some")] = mk("idx", subst(k.a[1], self.m), i)
            if f is None or tighten(f) is None:
                return None
        return m, f

    def outs(self):
        for o in self.s.outs:
            r = self.ends(o)
            if r is None:
                continue
            m, f = r
            g = under(o, m, f)
            if g is None or tighten(g) is None or self.absurd(o, m, f):
                continue
            yield o, m, g

    def reaches(self, o):
        r = self.ends(o)
        if r is None:
            return False
        g = under(o, r[0], r[1])
        return g is not None and tighten(g) is not None and not self.absurd(o, r[0], r[1])

    def absurd(self, o, m, f):
        """a path taken only when a nibble exceeds 15"""
        for k, v in o.facts.d.items():
            x = simp(subst(k, m), f)
            x = x if v else mk_not(x)
            if x.op == "ge0":
                c, d = lin_of(x.a[0])
                if c < 0 and len(d) == 1:
                    (y, q), = d.items()
                    b = bits(y, self.width)
                    if b is not None and q > 0 and sum((1 << i) * q for i, z in enumerate(b) if z != 0) + c < 0:
                        return True
        return False

    def run(self, expect, panics=None):
        ctx, q, hit = self.ctx, self.s.fn.qual, 0
        for o, m, g in self.outs():
            if o.kind == "panic":
                ctx.ob(self.rule, q, bool(panics and panics(g)), "panics on %s" % self.what, "panic:" + self.what)
                continue
            self.now = m
            hit += 1
            p = expect(o, g, lambda t: simp(subst(t, m), g))
            ctx.ob(self.rule, q, p is None, "on %s: %s" % (self.what, p), self.what)
        ctx.ob(self.rule, q, hit > 0 or panics is ALWAYS, "no result for %s" % self.what, "missing:" + self.what)
        return self

    def checks(self):
        """every run-time check holds in this case"""
        for e in self.s.I.chks:
            r = self.ends(e)
            if r is None:
                continue
            m, f = r
            g = under(e, m, f)
            if g is None or tighten(g) is None or self.absurd(e, m, f):
                continue
            b = goal(e)
            if b is None:
                continue
            b = simp(subst(b, m), g)
            self.ctx.ob(self.rule, self.s.fn.qual, entails(g, b), "on %s: %s may fail (%s)" % (self.what, e.name, show(b)[:120]), "%s:%s" % (e.name, self.what))
        return self

    def is_half(self, t, i, high):
        """t is the high or low half of byte i"""
        b = bits(t, self.width)
        if b is None:
            return False
        want = [(k, j) for k in [mk("idx", self.byte, i)] for j in (range(4, 8) if high else range(4))]
        return all(norm(x, self.base) == norm(y, self.base) for x, y in zip(b[:4], want)) and not any(b[4:])

    def is_bit(self, t, i, pos):
        r = bool_bit(t, self.width)
        return r is not None and r[2] and r[1] == pos and same(self.base, r[0].a[1], i)


def ALWAYS(g):
    return True


def norm(x, f):
    return x if not isinstance(x, tuple) else (simp(x[0], f), x[1])


def goal(e):
    if e.name == "bounds":
        return mk_lt(e.args[0], e.args[1])
    if e.name == "slice":
        return mk("and", mk_le(e.args[0], e.args[1]), mk_le(e.args[1], e.args[2]))
    if e.name == "overflowSub":
        return mk_le(e.args[1], e.args[0])
    return None


K, M_ = mk("sym", "k"), mk("sym", "m")


def parts(x, self_):
    """number of nibbles and bytes of a path"""
    return proj(x, "num_nibbles"), proj(x, "bytes")


def path_case(self_, m_, p):
    """a path of 2m+p nibbles: its bytes, and that the last low half is empty when p is 1"""
    n, b = parts(self_, self_)
    sub_ = {n: add(mul(m_, Int(2)), Int(p)), seqs.slen(b): add(m_, Int(p))}
    base = facts(mk_le(INT0, m_), mk_le(add(mul(m_, Int(2)), Int(p)), Int(64)))
    return sub_, base, b, ([m_] if p else [])


def check_paths(ctx):
    ctx.rule("layout", "a path holds two nibbles to a byte, the first in the high half, with the last low half empty when their number is odd; constructors and conversions keep that")
    ctx.rule("edit", "pushing and popping add and remove the last nibble and change no other, for even and odd lengths, without failing")
    ctx.rule("read", "nibbles and bits are read by position, most significant first, and a position beyond the end is refused")
    ctx.rule("iter", "iterators by nibble and by bit cover exactly their range, forward and backward; the visited and remaining parts split it where the iterator stands")
    ctx.rule("prefix", "skipping a common prefix advances both iterators together past exactly the equal items and counts them")
    ctx.rule("bytes32", "a 32-byte value's nibbles and bits are those of its bytes, most significant first; a common prefix is counted up to the first differing bit; bits are packed the same way")
    ctx.rule("groups", "grouping sorted keys by a nibble yields, from left to right, the maximal run with the same nibble")
    new(ctx)
    edit(ctx)
    read(ctx)
    iters(ctx)
    prefix(ctx)
    bytes32(ctx)
    groups(ctx)


def summ(ctx, q, opaque=None, key="j13"):
    return ctx.summ(q, opaque, key, fine=2)


def arg(s, i):
    return plain(s)[i]


# ---------------------------------------------------------------- constructors
def new(ctx):
    for name, p in (("new", 0), ("new_odd", 1)):
        s = summ(ctx, NP + name)
        b = arg(s, 0)
        n = seqs.slen(b)
        last = mk("idx", b, sub(n, INT1))
        k = 0
        for o in s.outs:
            if o.kind == "panic":
                f = tighten(o.facts)
                f = f and f.assume(mk_le(n, Int(32)), True)
                if p and f is not None:
                    f = f.assume(mk_le(INT1, n), True)
                    f = f and f.assume(mk_eq(mk("bin", "BitAnd", last, Int(15)), INT0), True)
                    if f is not None and any(entails(f, mk_le(INT1, mk("bin", "BitAnd", x, Int(15)))) for x in (last,)):
                        f = None
                f = f and tighten(f)
                ctx.ob("layout", s.fn.qual, f is None, "panics on a good path", "panic")
                continue
            k += 1
            num, bs = parts(o.val, None)
            ctx.ob("layout", s.fn.qual, bs is b and same(o.facts, num, sub(mul(n, Int(2)), Int(p))), "builds %s" % show(o.val)[:120], "new")
            if p:
                z = mk("bin", "BitAnd", last, Int(15))
                ctx.ob("layout", s.fn.qual, entails(o.facts, mk_le(z, INT0)) or o.facts.truth(mk_eq(z, INT0)) is True, "the last low half may not be empty", "odd")
        ctx.floor("layout", s.fn.qual, k, 1, "results")
    for name, want in (("num_nibbles", "num_nibbles"), ("bytes", "bytes")):
        s = summ(ctx, NP + name)
        for o in s.outs:
            ctx.ob("layout", s.fn.qual, o.kind == "ret" and o.val is mk("field", arg(s, 0), want), "returns %s" % show(o.val)[:80], "get")
    s = summ(ctx, NP + "is_empty")
    for o in s.outs:
        n = mk("field", arg(s, 0), "num_nibbles")
        ctx.ob("layout", s.fn.qual, o.kind == "ret" and zero_test(o, n), "returns %s" % show(o.val)[:80], "empty")
    # nibbles
    d = ctx.db("jmt")
    for f in d.by_path.values():
        if f.crate != "jmt" or f.derived or f.name not in ("from", "as_usize") or f.kind != "fn":
            continue
        if f.impl_trait == "core::convert::From" and tyis(f.impl_self_ty, NB):
            s = summ(ctx, f)
            x = arg(s, 0)
            for o in s.outs:
                if o.kind == "panic":
                    ctx.ob("layout", f.qual, entails(o.facts, mk_le(Int(16), x)), "a nibble is refused", "panic")
                else:
                    ctx.ob("layout", f.qual, is_nib(o.val) and o.val.a[3][0] is x and entails(o.facts, mk_le(x, Int(15))), "gives %s" % show(o.val)[:80], "from")
        elif f.impl_trait == "core::convert::From" and f.ita and tyis(f.ita[0], NB) or f.qual.endswith(NB + "::as_usize"):
            s = summ(ctx, f)
            for o in s.outs:
                ctx.ob("layout", f.qual, o.kind == "ret" and uncast(o.val) is mk("field", arg(s, 0), "0"), "gives %s" % show(o.val)[:80], "into")
    # collecting
    for f in d.by_path.values():
        if f.crate == "jmt" and f.impl_trait == "core::iter::traits::collect::FromIterator" and tyis(f.impl_self_ty, PATH):
            collect(ctx, f)


def uncast(t):
    while t.op == "cast":
        t = t.a[1]
    return t


def zero_test(o, n):
    v = o.val if interp.is_bool(o.val) else mk_not(mk_eq(o.val, INT0))
    for b in (True, False):
        f = narrow(o.facts, [(v, b)])
        if f is None:
            continue
        if b and not (entails(f, mk_le(n, INT0)) or f.truth(mk_eq(n, INT0)) is True):
            return False
        if not b and not (entails(f, mk_le(INT1, n)) or f.truth(mk_eq(n, INT0)) is False):
            return False
    return True


def collect(ctx, fn):
    """the path built from a sequence of nibbles: each one pushed, in order, onto an empty path"""
    s = summ(ctx, fn)
    src = arg(s, 0)
    ok = 0
    for o in s.outs:
        if o.kind == "panic":
            # only with more than 64 nibbles
            good = any(k.op == "ge0" and v and is_over64(k) for k, v in o.facts.d.items()) or unreached(ctx, s, o)
            ctx.ob("layout", fn.qual, good, "panics on a short path", "panic")
            continue
        num, bs = parts(o.val, None)
        p = None
        r = loop_of(s, num) or loop_of(s, bs)
        if r is None:
            p = "the path is %s" % show(o.val)[:80]
        else:
            L = r
            p = collect_step(ctx, s, L, num, bs, src)
            if p is None and not done(o, L, src):
                p = "some of the nibbles are left out"
        ok += 1
        ctx.ob("layout", fn.qual, p is None, p, "collect:%s" % p)
    ctx.floor("layout", fn.qual, ok, 1, "results")


def unreached(ctx, s, o):
    """no path of either parity gets there: a panic inside the push of a path that holds (n + 1) / 2 bytes"""
    rets = [parts(x.val, None) for x in s.outs if x.kind == "ret"]
    for num, bs in rets:
        if num.op != "ind" or loop_of(s, bs) is None:
            return False
        for p in (0, 1):
            m = {num: add(mul(K, Int(2)), Int(p)), seqs.slen(bs): add(K, Int(p))}
            if Case(ctx, "layout", s, "", m, facts(mk_le(INT0, K)), bs).reaches(o):
                return False
    return bool(rets)


def is_over64(k):
    c, d = lin_of(k.a[0])
    return c <= -64 and all(q > 0 for q in d.values())


def loop_of(s, v):
    for L in s.I.loops.values():
        if v in L.vars or v.op == "ind" and v.a[0] == L.id:
            return L
    return None


def done(o, L, src):
    return any(k.op == "more" and v is False and (k.a[0] is src or strip_it(k.a[0]) is src) for k, v in o.facts.d.items())


def strip_it(x):
    while x.op == "it" and x.a[0] in ("iter", "into_iter", "copied", "cloned", "enumerate"):
        x = x.a[1]
    return x


def collect_step(ctx, s, L, num, bs, src):
    if num.op == "ind":
        if num.a[1] is not INT0:
            return "the count does not start at zero"
    else:
        return "the count is %s" % show(num)[:60]
    if bs not in L.vars:
        return "the bytes are %s" % show(bs)[:60]
    init, steps = L.vars[bs]
    if init.op != "empty":
        return "starts from %s" % show(init)[:60]
    el_ = None
    for p in (0, 1):
        hit = 0
        n = add(mul(M_, Int(2)), Int(p))
        m = {num: n, seqs.slen(bs): add(M_, Int(p))}
        base = facts(mk_le(INT0, M_))
        for st, f in steps:
            g = under(_F(f), m, base)
            if g is None or tighten(g) is None:
                continue
            hit += 1
            q = pushed(st, bs, p, m, g, lambda t: t.op == "field" and t.a[0].op == "elem")
            if q:
                return q
        if not hit:
            return "no step for %s counts" % ("odd" if p else "even")
    return None


class _F:
    def __init__(self, f):
        self.facts = f


def pushed(st, bs, p, m, g, isnib):
    """the bytes after pushing a nibble onto a path of 2m+p nibbles; text or None"""
    def width(t):
        if t.op == "idx" and t.a[0] is bs:
            return [0] * 4 + [(t, i) for i in range(4, 8)] if p and same(g, t.a[1], M_) else [(t, i) for i in range(8)]
        if isnib(t):
            return [(t, i) for i in range(4)]
        return None
    if not p:
        if st.op == "push" and st.a[0] is bs:
            b = bits(simp(subst(st.a[1], m), g), width)
            if b and not any(b[:4]) and not any(b[8:]) and all(isinstance(x, tuple) and isnib(x[0]) and x[1] == i for i, x in enumerate(b[4:8])):
                return None
        return "an even number of nibbles grows to %s" % show(st)[:100]
    if st.op == "upd" and st.a[0] is bs and st.a[1][0] == "i" and same(g, simp(subst(st.a[1][1], m), g), M_):
        b = bits(simp(subst(st.a[2], m), g), width)
        cell = mk("idx", bs, M_)
        if b and not any(b[8:]) and all(isinstance(x, tuple) and isnib(x[0]) and x[1] == i for i, x in enumerate(b[:4])) and \
                all(isinstance(x, tuple) and simp(x[0], g) is cell and x[1] == i + 4 for i, x in enumerate(b[4:8])):
            return None
    return "an odd number of nibbles grows to %s" % show(st)[:100]


# ---------------------------------------------------------------- edits
def edit(ctx):
    s = summ(ctx, NP + "push")
    a = plain(s)
    nib = mk("field", a[1], "0")
    for p in (0, 1):
        m, base, bs, low = path_case(a[0], M_, p)
        what = "an %s path" % ("odd" if p else "even")

        def expect(o, g, T_):
            x = final(o, a[0])
            num, b2 = parts(x, None)
            if not same(g, T_(num), T_(add(mk("field", a[0], "num_nibbles"), INT1))):
                return "the length becomes %s" % show(num)[:60]
            return pushed(b2, bs, p, m, g, lambda t: t is nib)
        Case(ctx, "edit", s, what, m, base, bs, low).run(expect, panics=lambda g: entails(g, mk_le(Int(64), add(mul(M_, Int(2)), Int(p))))).checks()
    s = summ(ctx, NP + "pop")
    a = plain(s)
    for p, lo in ((0, 0), (0, 1), (1, 0)):
        m, base, bs, low = path_case(a[0], M_, p)
        base = base.assume(mk_le(Int(lo), M_), True)
        if not p and not lo:
            base = base.assume(mk_le(M_, INT0), True)
        what = "an empty path" if not p and not lo else "an %s path" % ("odd" if p else "even")
        c = Case(ctx, "edit", s, what, m, base, bs, low)

        def expect(o, g, T_):
            x = final(o, a[0])
            num, b2 = parts(x, None)
            if not p and not lo:
                if o.val is not NONE:
                    return "returns %s" % show(o.val)[:60]
                return None if T_(num) is T_(mk("field", a[0], "num_nibbles")) and (b2 is bs or b2.op == "popped" and b2.a[0] is bs) else "the path changes"
            i = sub(seqs.slen(bs), INT1)
            if not same(g, T_(num), T_(sub(mk("field", a[0], "num_nibbles"), INT1))):
                return "the length becomes %s" % show(num)[:60]
            v = T_(o.val)
            if not (v.op == "adt" and v.a[1] == "Some" and c.is_half(nib_of(v.a[3][0]), T_(i), bool(p))):
                return "returns %s" % show(v)[:80]
            if p:
                return None if b2.op == "popped" and b2.a[0] is bs else "the bytes become %s" % show(b2)[:80]
            if b2.op == "upd" and b2.a[0] is bs and b2.a[1][0] == "i" and same(g, T_(b2.a[1][1]), T_(i)):
                b = bits(T_(b2.a[2]), c.width)
                if b and not any(b[:4]) and not any(b[8:]) and all(isinstance(x, tuple) and x[1] == k + 4 and same(g, x[0].a[1], T_(i)) for k, x in enumerate(b[4:8])):
                    return None
            return "the bytes become %s" % show(b2)[:100]
        c.run(expect).checks()
    s = summ(ctx, NP + "last")
    a = plain(s)
    for p, lo in ((0, 0), (0, 1), (1, 0)):
        m, base, bs, low = path_case(a[0], M_, p)
        base = base.assume(mk_le(Int(lo), M_), True)
        if not p and not lo:
            base = base.assume(mk_le(M_, INT0), True)
        what = "an empty path" if not p and not lo else "an %s path" % ("odd" if p else "even")
        c = Case(ctx, "read", s, what, m, base, bs, low)

        def expect(o, g, T_):
            v = T_(o.val)
            if not p and not lo:
                return None if v is NONE else "returns %s" % show(v)[:60]
            i = T_(sub(seqs.slen(bs), INT1))
            return None if v.op == "adt" and v.a[1] == "Some" and c.is_half(nib_of(v.a[3][0]), i, bool(p)) else "returns %s" % show(v)[:80]
        c.run(expect).checks()


# ---------------------------------------------------------------- reads
def read(ctx):
    s = summ(ctx, NP + "get_nibble")
    a = plain(s)
    for q in (0, 1):
        for p in (0, 1):
            m, base, bs, low = path_case(a[0], M_, p)
            m[a[1]] = add(mul(K, Int(2)), Int(q))
            n = add(mul(M_, Int(2)), Int(p))
            base = base.assume(mk_le(INT0, K), True)
            inside = base.assume(mk_lt(m[a[1]], n), True)
            inside = halve(inside, K, M_, p, q)
            c = Case(ctx, "read", s, "nibble %d of a byte, %s length" % (q, "odd" if p else "even"), m, inside, bs, low)
            c.run(lambda o, g, T_: None if is_half_low(c, T_(nib_of(o.val)), K, not q) else "reads %s" % show(o.val)[:80]).checks()
            out = base.assume(mk_le(n, m[a[1]]), True)
            Case(ctx, "read", s, "a nibble beyond the end, %s length" % ("odd" if p else "even"), m, out, bs, low).run(lambda o, g, T_: "a nibble is read beyond the end", panics=ALWAYS)
    s = summ(ctx, NP + "get_bit")
    a = plain(s)
    for q in range(8):
        for p in (0, 1):
            m, base, bs, low = path_case(a[0], M_, p)
            m[a[1]] = add(mul(K, Int(8)), Int(q))
            n = add(mul(M_, Int(8)), Int(4 * p))
            base = base.assume(mk_le(INT0, K), True)
            inside = base.assume(mk_lt(m[a[1]], n), True)
            inside = inside.assume(mk_lt(K, add(M_, INT1 if p and q < 4 else INT0)), True)
            c = Case(ctx, "read", s, "bit %d of a byte, %s length" % (q, "odd" if p else "even"), m, inside, bs, ())
            c.run(lambda o, g, T_: None if c.is_bit(T_(o.val), K, 7 - q) else "reads %s" % show(o.val)[:80]).checks()
            out = base.assume(mk_le(n, m[a[1]]), True)
            Case(ctx, "read", s, "a bit beyond the end, %s length" % ("odd" if p else "even"), m, out, bs, ()).run(lambda o, g, T_: "a bit is read beyond the end", panics=ALWAYS)


def halve(f, k, m, p, q):
    """2k+q < 2m+p over the integers"""
    return f.assume(mk_lt(k, add(m, INT1 if p and not q else INT0)), True)


def is_half_low(c, t, i, high):
    return c.is_half(t, i, high)


# ---------------------------------------------------------------- iterators
def rng(t):
    return (proj(t, "start"), proj(t, "end"))


def is_iter_over(t, path, lo, hi, ty, f, start=None):
    if t.op != "adt" or t.a[0] != ty:
        return False
    r = proj(t, "pos")
    a, b = rng(r)
    ok = proj(t, "nibble_path") is path and same(f, a, lo) and same(f, b, hi)
    return ok and (start is None or same(f, proj(t, "start"), start))


def iters(ctx):
    s = summ(ctx, NP + "bits")
    x = arg(s, 0)
    n = mk("field", x, "num_nibbles")
    for o in s.outs:
        ctx.ob("iter", s.fn.qual, o.kind == "ret" and is_iter_over(o.val, x, INT0, mul(n, Int(4)), BITI, o.facts), "covers %s" % show(o.val)[:100], "bits")
    s = summ(ctx, NP + "nibbles")
    x = arg(s, 0)
    n = mk("field", x, "num_nibbles")
    for o in s.outs:
        ctx.ob("iter", s.fn.qual, o.kind == "ret" and is_iter_over(o.val, x, INT0, n, NIBI, o.facts, INT0), "covers %s" % show(o.val)[:100], "nibbles")
    s = summ(ctx, NI + "new")
    a = plain(s)
    for o in s.outs:
        ctx.ob("iter", s.fn.qual, o.kind == "ret" and is_iter_over(o.val, a[0], a[1], a[2], NIBI, o.facts, a[1]), "covers %s" % show(o.val)[:100], "new")
    for name in ("visited_nibbles", "remaining_nibbles", "bits", "num_nibbles"):
        s = summ(ctx, NI + name)
        x = arg(s, 0)
        path, st = mk("field", x, "nibble_path"), mk("field", x, "start")
        lo, hi = mk("field", mk("field", x, "pos"), "start"), mk("field", mk("field", x, "pos"), "end")
        for o in s.outs:
            v = o.val
            if o.kind == "panic":
                ctx.ob("iter", s.fn.qual, False, "can panic", "panic")
            elif name == "visited_nibbles":
                ctx.ob("iter", s.fn.qual, is_iter_over(v, path, st, lo, NIBI, o.facts, st), "covers %s" % show(v)[:100], "range")
            elif name == "remaining_nibbles":
                ctx.ob("iter", s.fn.qual, is_iter_over(v, path, lo, hi, NIBI, o.facts, lo), "covers %s" % show(v)[:100], "range")
            elif name == "bits":
                ctx.ob("iter", s.fn.qual, is_iter_over(v, path, mul(lo, Int(4)), mul(hi, Int(4)), BITI, o.facts), "covers %s" % show(v)[:100], "range")
            else:
                ctx.ob("iter", s.fn.qual, same(o.facts, v, sub(hi, st)), "counts %s" % show(v)[:80], "num")
    # the whole path of an iterator
    d = ctx.db("jmt")
    coll = [f for f in d.by_path.values() if f.crate == "jmt" and f.impl_trait == "core::iter::traits::collect::FromIterator" and tyis(f.impl_self_ty, PATH)]
    s = summ(ctx, NI + "get_nibble_path", lambda f: f in coll, "j13c")
    x = arg(s, 0)
    path, st = mk("field", x, "nibble_path"), mk("field", x, "start")
    lo, hi = mk("field", mk("field", x, "pos"), "start"), mk("field", mk("field", x, "pos"), "end")
    for o in s.outs:
        v = o.val
        ok = o.kind == "ret" and v.op == "call" and any(v.a[0] == f.path for f in coll) and covers(v.a[1], path, st, lo, hi, o.facts)
        ctx.ob("iter", s.fn.qual, ok, "collects %s" % (show(v)[:140] if o.kind == "ret" else "panic"), "whole")
    # each step
    fns = {}
    for f in d.by_path.values():
        if f.crate == "jmt" and f.kind == "fn" and f.impl_self_ty and not f.derived:
            for ty in (BITI, NIBI, HBI):
                if tyis(f.impl_self_ty, ty) and f.impl_trait in (PEEK, ITER, BACK):
                    fns[(ty, f.impl_trait, f.name)] = f
    for key in ((BITI, ITER, "next"), (BITI, BACK, "next_back"), (BITI, PEEK, "peek"), (NIBI, ITER, "next"), (NIBI, PEEK, "peek"), (HBI, ITER, "next"), (HBI, BACK, "next_back")):
        ctx.ob("iter", "%s as %s" % (key[0], key[1]), key in fns, "%s is not implemented" % key[2], "has")
    for (ty, tr, name), f in sorted(fns.items()):
        if name in ("next", "next_back", "peek"):
            step(ctx, f, ty, name)
        elif name == "size_hint":
            s = summ(ctx, f)
            for o in s.outs:
                v = o.val
                p = mk("field", arg(s, 0), "pos")
                n_ = sub(mk("field", p, "end"), mk("field", p, "start"))
                ok = o.kind == "ret" and (v.op == "call" and v.a[0].endswith("::size_hint") and v.a[1] is p or v.op == "tuple" and same(o.facts, v.a[0][0], n_) and v.a[0][1] is Some(v.a[0][0]))
                ctx.ob("iter", f.qual, ok, "hints %s" % show(v)[:80], "hint")
        else:
            ctx.ob("iter", f.qual, False, "an iterator method the rule does not know is overridden", "extra")
    s = summ(ctx, NI + "is_finished")
    x = arg(s, 0)
    lo, hi = mk("field", mk("field", x, "pos"), "start"), mk("field", mk("field", x, "pos"), "end")
    for o in s.outs:
        if o.kind == "panic":
            if Case(ctx, "iter", s, "", {}, F0, mk("field", mk("field", x, "nibble_path"), "bytes")).absurd(o, {}, F0):
                continue
            ctx.ob("iter", s.fn.qual, beyond(o.facts, lo, mk("field", x, "nibble_path"), 1), "can panic inside its range", "panic")
            continue
        v = o.val if interp.is_bool(o.val) else mk_not(mk_eq(o.val, INT0))
        for b in (True, False):
            g = narrow(o.facts, [(v, b)])
            if g is not None:
                ok = entails(g, mk_le(hi, lo)) if b else entails(g, mk_lt(lo, hi))
                ctx.ob("iter", s.fn.qual, ok, "says %s wrongly" % b, "fin")


def covers(t, path, st, lo, hi, f):
    """an iterator over [st, hi) in order, whole or split at lo"""
    if t.op == "it" and t.a[0] == "map":
        # the nibble read at every position of the range
        a, b = rng(t.a[1]) if t.a[1].op == "adt" and t.a[1].a[1] == "Range" else (INT0, INT0)
        return a is not INT0 and same(f, a, st) and same(f, b, hi) and reads_nibble(t.a[2], path)
    if t.op == "it" and t.a[0] == "chain":
        return is_iter_over(t.a[1], path, st, lo, NIBI, f) and is_iter_over(t.a[2], path, lo, hi, NIBI, f)
    return is_iter_over(t, path, st, hi, NIBI, f)


def reads_nibble(fn, path):
    """a function value that gives nibble i of the path for every i inside it"""
    if fn.op != "lam" or fn.a[0].op != "cases":
        return False
    bv = {x for x in subterms(fn) if x.op == "bv"}
    if len(bv) != 1:
        return False
    i, = bv
    bs, n = mk("field", path, "bytes"), mk("field", path, "num_nibbles")
    hit = set()
    for q in (0, 1):
        m = {i: add(mul(K, Int(2)), Int(q))}
        base = facts(mk_le(INT0, K), mk_lt(m[i], n))
        c = Case(None, "", None, "", m, base, bs)
        for case in fn.a[0].a[0]:
            f = base
            for g in case.a[0]:
                g = simp(subst(g, m), base)
                f = f.assume(g, True) if f is not None else None
            if f is None or tighten(f) is None:
                continue
            v = case.a[1]
            if v.op == "panic" or not c.is_half(simp(subst(nib_of(v), m), f), K, q == 0):
                return False
            hit.add(q)
    return hit == {0, 1}


def beyond(f, i, path, per):
    n = mk("field", path, "num_nibbles")
    return entails(f, mk_le(mul(n, Int(per)), i))


def step(ctx, f, ty, name):
    s = summ(ctx, f)
    x = arg(s, 0)
    pos = mk("field", x, "pos")
    path = mk("field", x, "nibble_path")
    if ty == HBI:
        bs = mk("field", x, "hash_bytes")
    else:
        bs = mk("field", path, "bytes")
    per = 2 if ty == NIBI else 8
    seen = set()
    for o in s.outs:
        if name == "peek":
            i = mk("field", pos, "start")
            there = entails(o.facts, mk_lt(i, mk("field", pos, "end")))
            gone = entails(o.facts, mk_le(mk("field", pos, "end"), i))
        else:
            i, there, gone = taken(o, pos, name)
        if o.kind == "panic":
            if Case(ctx, "iter", s, "", {}, F0, bs).absurd(o, {}, F0):
                continue
            ok = there and ty != HBI and beyond(o.facts, i, path, 1 if ty == NIBI else 4)
            ctx.ob("iter", f.qual, ok, "can panic inside its range", "panic")
            continue
        seen.add(there)
        p2 = unspread(proj(final(o, x), "pos"), pos)
        if not there:
            ctx.ob("iter", f.qual, gone and o.val is NONE, "ends with %s" % show(o.val)[:60], "end")
            ctx.ob("iter", f.qual, p2 is pos or name != "peek" and stepped(p2, pos, name), "moves to %s" % show(p2)[:60], "endpos")
            continue
        ctx.ob("iter", f.qual, p2 is pos if name == "peek" else stepped(p2, pos, name), "moves to %s" % show(p2)[:80], "pos")
        v = o.val
        if not (v.op == "adt" and v.a[1] == "Some"):
            ctx.ob("iter", f.qual, False, "gives %s" % show(v)[:80], "val")
            continue
        v = v.a[3][0]
        hit = 0
        for q in range(per):
            m = {i: add(mul(K, Int(per)), Int(q))}
            c = Case(ctx, "iter", s, "", m, facts(mk_le(INT0, K)), bs)
            g = under(o, m, c.base)
            if g is None or tighten(g) is None:
                continue
            hit += 1
            w = simp(subst(nib_of(v) if ty == NIBI else v, m), g)
            ok = c.is_half(w, K, q == 0) if ty == NIBI else c.is_bit(w, K, 7 - q)
            ctx.ob("iter", f.qual, ok, "item %d of a byte is %s" % (q, show(w)[:80]), "val%d" % q)
        ctx.ob("iter", f.qual, hit > 0, "an item that is never reached", "hit")
    ctx.ob("iter", f.qual, seen == {True, False}, "not both an item and the end", "both")


def unspread(p2, pos):
    """a range written by its two ends is that range"""
    if p2.op == "adv":
        q = unspread(p2.a[0], pos)
        return p2 if q is p2.a[0] else mk("adv", q, *p2.a[1:])
    if p2.op == "adt" and p2.a[1] == "Range" and proj(p2, "start") is mk("field", pos, "start") and proj(p2, "end") is mk("field", pos, "end"):
        return pos
    return p2


def taken(o, pos, name):
    """(position, an item was there, none was left) of a step over the range `pos`"""
    for k, v in o.facts.d.items():
        if k.op == "more" and k.a[0] is pos:
            return mk("idx", pos, INT0), v is True, v is False
    lo, hi = mk("field", pos, "start"), mk("field", pos, "end")
    for k, dom in o.facts.dom.items():
        if k.op == "call" and len(k.a) == 2 and k.a[1] is pos and k.a[0] == BACK + "::" + name:
            return payload(k, "Some"), dom == frozenset(["Some"]) or set(dom) == {"Some"}, set(dom) == {"None"}
    if name == "next":
        return lo, entails(o.facts, mk_lt(lo, hi)), entails(o.facts, mk_le(hi, lo))
    return sub(hi, INT1), entails(o.facts, mk_lt(lo, hi)), entails(o.facts, mk_le(hi, lo))


def stepped(p2, pos, name):
    if name == "next":
        if p2.op == "adv" and p2.a[0] is pos:
            return True
        return proj(p2, "start") is add(mk("field", pos, "start"), INT1) and proj(p2, "end") is mk("field", pos, "end")
    if p2.op == "eff" and p2.a[0] == BACK + "::" + name and p2.a[2] is pos:
        return True
    return proj(p2, "end") is sub(mk("field", pos, "end"), INT1) and proj(p2, "start") is mk("field", pos, "start")


# ---------------------------------------------------------------- common prefixes
def prefix(ctx):
    q = "jmt::types::nibble::nibble_path::skip_common_prefix"
    s = summ(ctx, q)
    a = plain(s)
    k = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("prefix", q, False, "can panic", "panic")
            continue
        k += 1
        n = o.val
        L = loop_of(s, n)
        ends = [final(o, x) for x in a]
        ok = n.op == "ind" and n.a[1] is INT0 and L is not None and all(e in L.vars and L.vars[e][0] is x for e, x in zip(ends, a))
        ctx.ob("prefix", q, ok, "counts %s and leaves the iterators at %s" % (show(n)[:40], [show(e)[:30] for e in ends]), "vars")
        if not ok:
            continue
        pk = [mk("call", PEEK + "::peek", e) for e in ends]
        stop = any(o.facts.truth(mk_isv(p, "None")) is True for p in pk) or o.facts.truth(mk_eq(payload(pk[0]), payload(pk[1]))) is False
        ctx.ob("prefix", q, stop, "stops although the next items are equal", "stop")
        for f in [b.facts for b in L.backs]:
            same_ = f.truth(mk_eq(payload(pk[0]), payload(pk[1]))) is True and all(f.truth(mk_isv(p, "Some")) is True for p in pk)
            ctx.ob("prefix", q, same_, "goes on although the next items may differ", "go")
        for e in ends:
            for st, f in L.vars[e][1]:
                ok = st.op == "adv" and st.a[0] is e or st is e and any(kk.op == "more" and kk.a[0] in (e, L.vars[e][0]) and vv is False for kk, vv in f.d.items())
                ctx.ob("prefix", q, ok, "an iterator moves to %s" % show(st)[:60], "move")
    ctx.floor("prefix", q, k, 3, "exits")


# ---------------------------------------------------------------- 32-byte values
def bytes32(ctx):
    d = ctx.db("jmt")
    fns = {f.name: f for f in d.by_path.values() if f.crate == "jmt" and f.impl_trait == EXT}
    for name in ("get_nibble", "nibble"):
        f = fns[name]
        s = summ(ctx, f)
        a = plain(s)
        for q in (0, 1):
            m = {a[1]: add(mul(K, Int(2)), Int(q)), seqs.slen(a[0]): Int(32)}
            c = Case(ctx, "bytes32", s, "nibble %d of a byte" % q, m, facts(mk_le(INT0, K), mk_lt(K, Int(32))), a[0])
            c.run(lambda o, g, T_: None if c.is_half(T_(nib_of(o.val) if name == "get_nibble" else o.val), K, not q) else "reads %s" % show(o.val)[:80]).checks()
    f = fns["iter_bits"]
    s = summ(ctx, f)
    x = arg(s, 0)
    for o in s.outs:
        v = o.val
        ok = o.kind == "ret" and v.op == "adt" and v.a[0] == HBI and proj(v, "hash_bytes") is x and rng(proj(v, "pos")) == (INT0, Int(256))
        ctx.ob("bytes32", f.qual, ok, "covers %s" % show(v)[:80], "all")
    # common prefix
    f = fns["common_prefix_bits_len"]
    s = summ(ctx, f)
    a = plain(s)
    k = 0
    p = bytewise_prefix(s, a[0], a[1])
    if p is not False:
        ctx.ob("bytes32", f.qual, p is None, p or "", "bytes")
    for o in s.outs if p is False else []:
        n = o.val
        if o.kind == "panic":
            ctx.ob("bytes32", f.qual, False, "can panic", "panic")
            continue
        k += 1
        if n is Int(256) and len(s.I.loops) == 1 and any(kk.op == "more" and vv is False for kk, vv in o.facts.d.items()):
            n = mk("ind", list(s.I.loops)[0], INT0)      # every position was gone through
        L = loop_of(s, n)
        ok = n.op == "ind" and n.a[1] is INT0 and L is not None
        ctx.ob("bytes32", f.qual, ok, "counts %s" % show(n)[:60], "count")
        if not ok:
            continue
        ended = any(kk.op == "more" and vv is False for kk, vv in o.facts.d.items()) or entails(o.facts, mk_le(Int(256), n))
        differ = bits_differ(o.facts, a, n)
        ctx.ob("bytes32", f.qual, ended or differ is True, "stops although the bits are equal", "stop")
        for g in [b.facts for b in L.backs]:
            ctx.ob("bytes32", f.qual, bits_differ(g, a, n) is False, "goes on although the bits may differ", "go")
    if p is False:
        ctx.floor("bytes32", f.qual, k, 2, "exits")
        bounds256(ctx, s, f)
    g = [x for x in d.by_path.values() if x.crate == "jmt" and x.name == "common_prefix_nibbles_len"]
    for f in g:
        s = summ(ctx, f, lambda y: y.name == "common_prefix_bits_len", "j13n")
        a = plain(s)
        for o in s.outs:
            v = o.val
            ok = o.kind == "ret" and v.op == "bin" and v.a[0] == "Shr" and v.a[2] is Int(2) and v.a[1].op == "call" and v.a[1].a[0].endswith("common_prefix_bits_len") and list(v.a[1].a[1:]) == a[:2]
            ctx.ob("bytes32", f.qual, ok, "gives %s" % show(v)[:80], "nibbles")
    ctx.floor("bytes32", "crate", len(g), 1, "common nibble prefix")
    pack(ctx, fns["from_bit_iter"])


def bits_differ(f, a, n):
    """True or False as the facts say whether bit n of the two values differs, at every position within a byte; None when they do not"""
    r = set()
    for k, v in f.d.items():
        if k.op != "eq":
            continue
        hit = 0
        for q in range(8):
            m = {n: add(mul(K, Int(8)), Int(q))}
            base = facts(mk_le(INT0, K))
            rs = []
            for t, x in zip(k.a, (0, 1)):
                t = simp(subst(t, m), base)
                b = None
                for y in a[:2]:
                    c = Case(None, "", None, "", m, base, y)
                    if c.is_bit(t, K, 7 - q):
                        b = y
                rs.append(b)
            if set(rs) == set(a[:2]):
                hit += 1
        if hit == 8:
            r.add(not v)
    return r.pop() if len(r) == 1 else None


def bounds256(ctx, s, f):
    """the pairs compared are those of the two whole values"""
    ok = False
    for o in s.outs:
        for k, v in o.facts.d.items():
            if k.op == "more" and k.a[0].op == "it" and k.a[0].a[0] == "zip":
                z = k.a[0]
                ok = ok or all(y.op == "adt" and rng(proj(y, "pos")) == (INT0, Int(256)) for y in z.a[1:3])
            if k.op == "more" and k.a[0].op == "adt" and k.a[0].a[0].endswith("Range") and proj(k.a[0], "end") is Int(256):
                ok = True
    ctx.ob("bytes32", f.qual, ok, "does not cover all 256 bits", "256")


def pack(ctx, f):
    """bits to bytes: exactly 256 of them, the first in the highest bit of the first byte"""
    s = summ(ctx, f)
    it = arg(s, 0)
    n = mk("call", "len", it)
    kinds = set()
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("bytes32", f.qual, False, "can panic", "panic")
            continue
        if o.val is NONE:
            kinds.add(0)
            ctx.ob("bytes32", f.qual, o.facts.truth(mk_eq(n, Int(256))) is False or narrow(o.facts, [(mk_eq(n, Int(256)), True)]) is None, "256 bits are refused", "none")
            continue
        kinds.add(1)
        ctx.ob("bytes32", f.qual, entails(o.facts, mk_eq(n, Int(256))), "accepts another number of bits", "len")
        v = o.val.a[3][0] if o.val.op == "adt" and o.val.a[1] == "Some" else None
        L = loop_of(s, v) if v is not None else None
        ok = L is not None and done(o, L, it) and L.vars[v][0].op == "repeat" and L.vars[v][0].a[0] is INT0
        ctx.ob("bytes32", f.qual, ok, "gives %s" % show(o.val)[:80], "buf")
        if not ok:
            continue
        ind = mk("ind", L.id, INT0)
        for q in range(8):
            m = {ind: add(mul(K, Int(8)), Int(q))}
            for st, g0 in L.vars[v][1]:
                g = under(_F(g0), m, facts(mk_le(INT0, K)))
                if g is None:
                    continue
                on = [vv for kk, vv in g0.d.items() if kk.op == "elem"] + [not vv for kk, vv in g0.d.items() if kk.op == "eq0" and kk.a[0].op == "elem"]
                if st is v:
                    ok = on == [False]
                else:
                    c = Case(ctx, "bytes32", s, "", m, facts(mk_le(INT0, K)), v)
                    b = bits(simp(subst(st.a[2], m), g), c.width) if st.op == "upd" and st.a[0] is v and st.a[1][0] == "i" else None
                    ok = on == [True] and b is not None and same(g, simp(subst(st.a[1][1], m), g), K) and \
                        all((x == 1) if i == 7 - q else (isinstance(x, tuple) and x[1] == i) for i, x in enumerate(b[:8])) and not any(b[8:])
                ctx.ob("bytes32", f.qual, ok, "bit %d of a byte is packed as %s" % (q, show(st)[:80]), "pack%d" % q)
    ctx.ob("bytes32", f.qual, kinds == {0, 1}, "not both refused and accepted", "kinds")


# ---------------------------------------------------------------- grouping
def groups(ctx):
    q = "jmt::types::nibble::NibbleRangeIterator::<'a>::new"
    s = summ(ctx, q)
    a = plain(s)
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("groups", q, entails(o.facts, mk_le(Int(64), a[1])), "refuses a nibble position", "panic")
            continue
        ctx.ob("groups", q, proj(o.val, "sorted_kvs") is a[0] and proj(o.val, "nibble_idx") is a[1] and proj(o.val, "pos") is INT0, "starts as %s" % show(o.val)[:80], "new")
    d = ctx.db("jmt")
    f = [x for x in d.by_path.values() if x.crate == "jmt" and x.impl_trait == ITER and x.name == "next" and tyis(x.impl_self_ty, "types::nibble::NibbleRangeIterator")]
    ctx.floor("groups", "crate", len(f), 1, "iterators")
    s = ctx.summ(f[0], lambda g: g.name in ("nibble", "get_nibble"), "j13g", fine=2)
    x = arg(s, 0)
    kvs, idx_, pos = (mk("field", x, n) for n in ("sorted_kvs", "nibble_idx", "pos"))
    n = seqs.slen(kvs)
    qn = f[0].qual
    seen = set()
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("groups", qn, False, "can panic", "panic")
            continue
        p2 = proj(final(o, x), "pos")
        if o.val is NONE:
            seen.add(0)
            ctx.ob("groups", qn, entails(o.facts, mk_le(n, pos)) and p2 is pos, "ends early", "end")
            continue
        seen.add(1)
        v = o.val.a[3][0] if o.val.op == "adt" and o.val.a[1] == "Some" else None
        ok = v is not None and v.op == "tuple" and same(o.facts, v.a[0][0], pos) and entails(o.facts, mk_lt(pos, n))
        ctx.ob("groups", qn, ok, "gives %s" % show(o.val)[:80], "left")
        if not ok:
            continue
        r = v.a[0][1]
        ctx.ob("groups", qn, p2 is add(r, INT1), "goes on from %s" % show(p2)[:60], "pos")
        p = run_end(s, o, r, kvs, idx_, pos, n)
        ctx.ob("groups", qn, p is None, p, "run:%s" % p)
    ctx.ob("groups", qn, seen == {0, 1}, "not both a group and the end", "both")


def nib_at(t, kvs, idx_):
    """index i when t is the nibble of key i"""
    if is_nib(t):
        t = t.a[3][0]
    if t.op == "field" and t.a[1] == "0" and t.a[0].op == "call":
        t = t.a[0]
    if t.op == "call" and t.a[0].split("::")[-1] in ("nibble", "get_nibble") and len(t.a) == 3 and t.a[2] is idx_:
        k = t.a[1]
        while k.op == "field" and k.a[1] == "0":
            k = k.a[0]
        if k.op == "idx" and k.a[0] is kvs:
            return k.a[1]
    return None


def nib_facts(f, kvs, idx_, left):
    """[(i, 'gt'|'le')]: key i's nibble is above, or not above, that of the leftmost key"""
    out = []
    for k, v in f.d.items():
        if k.op in ("ge0", "eq", "eq0"):
            if k.op == "eq":
                xs = [(k.a[0], 1), (k.a[1], -1)]
                c = 0
            else:
                c, dd = lin_of(k.a[0])
                xs = list(dd.items())
            ids = [(nib_at(t, kvs, idx_), q) for t, q in xs]
            if len(ids) != 2 or any(i is None for i, _ in ids):
                continue
            for (i, qi), (j, qj) in ((ids[0], ids[1]), (ids[1], ids[0])):
                if not same(f, j, left) or same(f, i, left):
                    continue
                if k.op == "ge0" and {qi, qj} == {1, -1}:
                    # qi*(ni - nl) + c >= 0
                    if qi == 1 and c == -1 and v or qi == -1 and c == 0 and not v:
                        out.append((i, "gt"))
                    if qi == -1 and c == 0 and v or qi == 1 and c == -1 and not v:
                        out.append((i, "le"))
                elif k.op in ("eq", "eq0") and c == 0:
                    # the keys are sorted, so a different nibble to the right is a greater one
                    out.append((i, "le" if v else "gt"))
    return out


def run_end(s, o, r, kvs, idx_, pos, n):
    """r is the last index of the run of equal nibbles that starts at pos; by the bounds (i, j) the loop narrows"""
    L = None
    for M in s.I.loops.values():
        if any(x in M.vars or x.op == "ind" and x.a[0] == M.id for x in subterms(r)):
            L = M
    if L is None:
        return None if partitioned(r, kvs, idx_, pos, n) else "the end is %s" % show(r)[:60]
    low = r
    if low not in L.vars or L.vars[low][0] is not pos:
        return "the end is %s" % show(r)[:60]
    ups = [x for x, (init, _) in L.vars.items() if x is not low and init is sub(n, INT1)]
    j = ups[0] if ups else None
    steps = {x: L.vars[x][1] for x in ([low, j] if j is not None else [low])}
    cnt = len(steps[low])
    for k in range(cnt):
        st, f = steps[low][k]
        if j is not None:
            inv = narrow(f, [(mk_le(low, j), True)])
            f = inv if inv is not None else f
        f = f.assume(mk_le(pos, low), True) or f
        f = parity(f, [low, add(low, INT1)] + ([j, sub(j, INT1)] if j is not None else []))
        nf = nib_facts(f, kvs, idx_, pos)
        if st is not low:
            if not entails(f, mk_le(low, st)) or not any(same(f, i, st) and w == "le" for i, w in nf):
                return "the lower bound rises to %s" % show(st)[:80]
            if j is not None and not entails(f, mk_le(st, j)):
                return "the lower bound passes the upper one"
            if j is None and not entails(f, mk_le(st, sub(n, INT1))):
                return "the lower bound passes the end"
        if j is not None:
            st2, _ = steps[j][k]
            if st2 is not j:
                if not any(same(f, i, add(st2, INT1)) and w == "gt" for i, w in nf):
                    return "the upper bound falls to %s" % show(st2)[:80]
                if not entails(f, mk_le(low, st2)):
                    return "the upper bound passes the lower one"
            if st is low and st2 is j:
                return "a round changes nothing"
    if j is not None:
        return None if entails(o.facts, mk_le(j, low)) else "stops before the bounds meet"
    nf = nib_facts(o.facts, kvs, idx_, pos)
    if entails(o.facts, mk_le(sub(n, INT1), low)) or any(same(o.facts, i, add(low, INT1)) and w == "gt" for i, w in nf):
        return None
    return "stops before the end of the run"


def partitioned(r, kvs, idx_, pos, n):
    """the position before the first key, from pos on, whose nibble is above that of the key at pos"""
    c, d = lin_of(sub(r, pos))
    if c != -1 or len(d) != 1:
        return False
    (t, k), = d.items()
    if k != 1 or t.op != "call" or not t.a[0].endswith("::partition_point") or t.a[2].op != "lam":
        return False
    if t.a[1] is not mk("slice", kvs, pos, n):
        return False
    body = t.a[2].a[0]
    bv = {x for x in subterms(body) if x.op == "bv"}
    if len(bv) != 1 or not interp.is_bool(body):
        return False
    b = subst(body, {bv.pop(): mk("idx", kvs, K)})
    for v, w in ((True, "le"), (False, "gt")):
        f = F0.assume(b, v)
        if f is None or (K, w) not in nib_facts(f, kvs, idx_, pos):
            return False
    return True


def parity(f, marks=()):
    """0 <= x >> 1 <= x - 1 for the differences known to be positive"""
    seen = set()
    for k in list(f.d):
        for x in subterms(k):
            if x.op == "bin" and x.a[0] == "Shr" and x.a[2] is INT1 and x not in seen:
                seen.add(x)
    for x in seen:
        if entails(f, mk_le(INT1, x.a[1])):
            f = f.assume(mk_le(INT0, x), True) or f
            f = f.assume(mk_le(x, sub(x.a[1], INT1)), True) or f
        # half of y is at least t when y >= 2t, and at most t when y <= 2t + 1
        for t in marks:
            if entails(f, mk_le(mul(t, Int(2)), x.a[1])):
                f = f.assume(mk_le(t, x), True) or f
            if entails(f, mk_le(x.a[1], add(mul(t, Int(2)), INT1))):
                f = f.assume(mk_le(x, t), True) or f
    return f
