"""Patricia trie: digit sequences (P09)."""
from pmtlib import *
import seqs
from seqs import One, Run, K
from interp import mk_idx

N = "pmt::nibbles::Nibbles::"
TY = "nibbles::Nibbles"
HEX = "hex_data"


def hexfield(ctx):
    """the one field of the digit sequence type"""
    d = ctx.db("pmt")
    a = d.adt_by_path.get("pmt::" + TY)
    if a is None:
        raise Missing(TY)
    fs = a["v"][0]["f"]
    if len(fs) != 1:
        raise Missing("%s with one field" % TY)
    return fs[0]["n"]


def hexof_(t, h):
    if t.op == "adt" and t.a[0] == TY:
        return t.a[3][t.a[2].index(h)]
    return proj(t, h)


def run(ctx, name):
    fn = ctx.fn(N + name)
    return ctx.summ(fn, lambda g: False, "nib", fine=2)


def case(ctx, rid, s, what, m, base, expect):
    """every outcome possible in this case meets the expectation; the case is reached"""
    hit = 0
    for o in s.outs:
        f = seqs.under(o, m, base)
        if f is None:
            continue
        if o.kind == "panic":
            ctx.ob(rid, s.fn.qual, False, "panics on %s" % what, "panic:" + what)
            continue
        hit += 1
        p = expect(o, f)
        ctx.ob(rid, s.fn.qual, p is None, "on %s: %s" % (what, p), what)
    ctx.ob(rid, s.fn.qual, hit > 0, "no result for %s" % what, "missing:" + what)
    for e in s.I.chks:
        f = seqs.under(e, m, base)
        if f is None:
            continue
        g = goal(e)
        if g is None:
            continue
        g = seqs.simp(subst(chunklen(g, e), m), f)
        ctx.ob(rid, s.fn.qual, entails(f, g), "on %s: %s may fail (%s)" % (what, e.name, show(g)[:120]), "%s:%s" % (e.name, what))


def chunklen(g, e):
    """a chunk of two has two elements, unless it is the shorter last one of an odd length"""
    r = {}
    for x in subterms(g):
        if x.op == "call" and x.a[0] == "len" and x.a[1].op == "elem" and seqs.chunks(x.a[1].a[0]):
            c = x.a[1].a[0]
            if c.a[2] is Int(2):
                odd = mk("bin", "BitAnd", seqs.slen(c.a[1]), INT1)
                r[x] = Int(2) if c.a[0].endswith("exact") else sub(Int(2), odd)
    return subst(g, r) if r else g


def goal(e):
    """what a run-time check demands; None when it cannot be stated (digits below 16 never overflow a byte)"""
    if e.name == "bounds":
        return mk_lt(e.args[0], e.args[1])
    if e.name == "slice":
        return mk("and", mk_le(e.args[0], e.args[1]), mk_le(e.args[1], e.args[2]))
    if e.name == "overflowSub":
        return mk_le(e.args[1], e.args[0])
    return None


def check_nibbles(ctx):
    ctx.rule("digits", "bytes to digits: for each byte its high half, then its low half, then the end mark when asked for")
    ctx.rule("compact", "compact form: 16*(2*mark + odd) plus the first digit when odd, then the remaining digits two to a byte; decoding reads the same layout back; "
             "both checked for each parity, with and without mark, and every length")
    ctx.rule("bytes", "digits to bytes: two digits to a byte, without the mark, reporting whether it was there")
    ctx.rule("list", "length, emptiness, indexing, slicing, offset, joining, appending, truncating, pushing and popping act on the digits as on a plain list")
    ctx.rule("prefix", "the common prefix stops at the first difference or at the end of the shorter sequence, and not before")
    h = hexfield(ctx)
    f0 = Facts()
    IND0 = [mk_le(INT0, K)]

    def H(t):
        return hexof_(t, h)

    def facts(*atoms):
        f = f0
        for a in atoms:
            f = f.assume(a, True)
            assert f is not None
        return f

    # ---- from_raw
    s = run(ctx, "from_raw")
    raw, leaf = argv(s, 0), argv(s, 1)
    for T in (0, 1):
        want = [Run(slen(raw), [mk("bin", "Shr", seqs.at(raw, K), Int(4)), mk("bin", "BitAnd", seqs.at(raw, K), Int(15))])] + ([One(Int(16))] if T else [])
        b = f0.assume(leaf, bool(T))
        case(ctx, "digits", s, "a key %s mark" % ("with" if T else "without"), {leaf: Int(T)}, facts(),
             lambda o, f: seqs.same_pieces(s.I, f, seqs.pieces(s.I, o.facts, H(o.val)), want, {leaf: Int(T)}))
    # ---- from_compact
    s2 = run(ctx, "from_compact")
    c = argv(s2, 0)
    lo = mk("sym", "lo")
    for v in range(4):
        T, p = v >> 1, v & 1
        hi = add(Int(16 * v), lo)
        m = {mk("idx", c, INT0): hi}
        gs = mk("call", "get", c, INT0)
        m[payload(gs, "Some")] = hi
        m[payload(mk("call", "first", c), "Some")] = hi
        base = facts(mk_le(INT0, lo), mk_lt(lo, Int(16)), mk_le(INT1, slen(c)))
        el = seqs.at(c, add(K, INT1))
        want = ([One(lo)] if p else []) + [Run(sub(slen(c), INT1), [mk("bin", "Shr", el, Int(4)), mk("bin", "BitAnd", el, Int(15))])] + ([One(Int(16))] if T else [])
        case(ctx, "compact", s2, "decoding flag %d" % v, m, base,
             lambda o, f: seqs.same_pieces(s2.I, f, seqs.pieces(s2.I, o.facts, H(o.val)), want, m))
    # ---- encode_compact, encode_raw
    for name, rid in (("encode_compact", "compact"), ("encode_raw", "bytes")):
        s3 = run(ctx, name)
        x = H(argv(s3, 0))
        k = mk("sym", "m")
        for T in (0, 1):
            for p in (0, 1):
                if name == "encode_raw" and p:
                    continue
                n = add(mul(k, Int(2)), Int(p + T))
                m = {slen(x): n}
                last = mk("idx", x, sub(n, INT1))
                base = facts(mk_le(Int(0 if p + T else 1), k))
                base = base.assume(mk_eq(last, Int(16)), bool(T))
                pair = lambda i: add(mul(seqs.at(x, i), Int(16)), seqs.at(x, add(i, INT1)))
                body = Run(k, [pair(add(mul(K, Int(2)), Int(p)))])
                if rid == "compact":
                    first = Int(32 * T + 16 * p)
                    want = [One(add(first, seqs.at(x, INT0)) if p else first), body]
                else:
                    want = [body]
                # every element except the mark is a digit
                dig = lambda y: y.op == "idx" and y.a[0] is x and not same(base, y, Int(16)) and y is not last
                if T and not p:
                    # a lone mark has no digits: then nothing but the mark is read
                    pass

                def exp(o, f):
                    v = o.val
                    if rid == "bytes":
                        if v.op != "tuple" or len(v.a[0]) != 2:
                            return "returns %s" % show(v)[:120]
                        mark = seqs.simp(subst(v.a[0][1], m), f)
                        if f.truth(mark) is not bool(T) and mark is not Int(T):
                            return "reports %s for the mark" % show(mark)[:80]
                        v = v.a[0][0]
                    return seqs.same_pieces(s3.I, f, seqs.pieces(s3.I, o.facts, v), want, m, dig)
                case(ctx, rid, s3, "%s digits %s mark" % (("an even number of", "an odd number of")[p], ("without", "with")[T]), m, base, exp)
    # ---- is_leaf
    s4 = run(ctx, "is_leaf")
    x4 = H(argv(s4, 0))
    for T in (0, 1):
        base = facts(mk_le(INT1, slen(x4))).assume(mk_eq(mk("idx", x4, sub(slen(x4), INT1)), Int(16)), bool(T))
        case(ctx, "compact", s4, "asking for the mark %s one" % ("with" if T else "without"), {}, base,
             lambda o, f: None if f.truth(o.val) is bool(T) else "returns %s" % show(o.val)[:100])
    plain_ops(ctx, H, facts, h)
    prefix(ctx, H)


def argv(s, i):
    return mk("arg", i, s.fn.locals[i + 1]["n"] or "a%d" % i)


def slen(t):
    return mk("call", "len", t)


def plain_ops(ctx, H, facts, h):
    def seq_is(s, want):
        return lambda o, f: seqs.same_pieces(s.I, f, seqs.pieces(s.I, o.facts, H(o.val)), want, {})

    def whole(x):
        return [Run(slen(x), [seqs.at(x, K)])]
    s = run(ctx, "from_hex")
    case(ctx, "list", s, "digits given", {}, facts(), seq_is(s, whole(argv(s, 0))))
    s1 = run(ctx, "get_data")
    case(ctx, "list", s1, "reading the digits", {}, facts(),
         lambda o, f: seqs.same_pieces(s1.I, f, seqs.pieces(s1.I, o.facts, o.val), whole(H(argv(s1, 0))), {}))
    s2 = run(ctx, "len")
    case(ctx, "list", s2, "counting", {}, facts(), lambda o, f: None if same(f, o.val, slen(H(argv(s2, 0)))) else "returns %s" % show(o.val)[:80])
    s3 = run(ctx, "is_empty")
    x3 = H(argv(s3, 0))
    case(ctx, "list", s3, "no digits", {}, facts(mk_le(slen(x3), INT0)), lambda o, f: None if f.truth(o.val) is True else "says there are some")
    case(ctx, "list", s3, "some digits", {}, facts(mk_le(INT1, slen(x3))), lambda o, f: None if f.truth(o.val) is False else "says there are none")
    s4 = run(ctx, "at")
    x4, i4 = H(argv(s4, 0)), argv(s4, 1)
    case(ctx, "list", s4, "indexing", {}, facts(mk_le(INT0, i4), mk_lt(i4, slen(x4))),
         lambda o, f: None if same(f, uncast(o.val), mk("idx", x4, i4)) else "returns %s" % show(o.val)[:80])
    s5 = run(ctx, "offset")
    x5, i5 = H(argv(s5, 0)), argv(s5, 1)
    case(ctx, "list", s5, "dropping a prefix", {}, facts(mk_le(INT0, i5), mk_le(i5, slen(x5))),
         seq_is(s5, [Run(sub(slen(x5), i5), [seqs.at(x5, add(i5, K))])]))
    s6 = run(ctx, "slice")
    x6, a6, b6 = H(argv(s6, 0)), argv(s6, 1), argv(s6, 2)
    case(ctx, "list", s6, "slicing", {}, facts(mk_le(INT0, a6), mk_le(a6, b6), mk_le(b6, slen(x6))),
         seq_is(s6, [Run(sub(b6, a6), [seqs.at(x6, add(a6, K))])]))
    s7 = run(ctx, "join")
    case(ctx, "list", s7, "joining", {}, facts(), seq_is(s7, whole(H(argv(s7, 0))) + whole(H(argv(s7, 1)))))

    def after(s, want):
        def e(o, f):
            v = finalval(s, o)
            return seqs.same_pieces(s.I, f, seqs.pieces(s.I, o.facts, H(v)), want, {})
        return e
    s8 = run(ctx, "extend")
    case(ctx, "list", s8, "appending", {}, facts(), after(s8, whole(H(argv(s8, 0))) + whole(H(argv(s8, 1)))))
    s9 = run(ctx, "push")
    case(ctx, "list", s9, "pushing", {}, facts(), after(s9, whole(H(argv(s9, 0))) + [One(argv(s9, 1))]))
    s10 = run(ctx, "truncate")
    x10, n10 = H(argv(s10, 0)), argv(s10, 1)

    def trunc(o, f):
        v = H(finalval(s10, o))
        ok = mk("trunc", x10, n10), mk("slice", x10, INT0, n10)
        return None if any(same(f, v, w) for w in ok) or f.truth(mk_le(slen(x10), n10)) is True and v is x10 else "leaves %s" % show(v)[:100]
    case(ctx, "list", s10, "truncating", {}, facts(mk_le(INT0, n10), mk_le(n10, slen(x10))), trunc)
    s11 = run(ctx, "pop")
    x11 = H(argv(s11, 0))

    def pop(o, f):
        v = H(finalval(s11, o))
        if not (v.op == "popped" and v.a[0] is x11) and not same(f, v, mk("slice", x11, INT0, sub(slen(x11), INT1))):
            return "leaves %s" % show(v)[:100]
        if o.val.op == "adt" and o.val.a[1] == "Some" and same(f, o.val.a[3][0], mk("idx", x11, sub(slen(x11), INT1))):
            return None
        return None if show(o.val) == "last(%s)" % show(x11) else "returns %s" % show(o.val)[:80]
    case(ctx, "list", s11, "popping", {}, facts(mk_le(INT1, slen(x11))), pop)


def uncast(t):
    while t.op == "cast":
        t = t.a[1]
    return t


def finalval(s, o):
    return final(o, argv(s, 0))


def prefix(ctx, H):
    s = run(ctx, "common_prefix")
    a, b = H(argv(s, 0)), H(argv(s, 1))
    n = 0
    for o in s.outs:
        n += 1
        if o.kind == "panic":
            ctx.ob("prefix", s.fn.qual, False, "can panic", "panic")
            continue
        ctx.ob("prefix", s.fn.qual, *prefix_ok(s, o, a, b))
    ctx.floor("prefix", s.fn.qual, n, 1, "outcomes")


def prefix_ok(s, o, a, b):
    v, f = o.val, tighten(o.facts)
    if f is None:
        return True, ""
    la, lb = slen(a), slen(b)
    loops = [L for L in s.I.loops.values() if str(L.id) in {str(x.a[0]) for x in subterms(v) if x.op == "ind"}]
    # a loop left by running out of positions below the result
    for k, val in f.d.items():
        if k.op == "more" and val is False:
            L = s.I.loops.get(str(k.a[1]).split("~")[0])
            if L is None:
                continue
            src = k.a[0]
            n = s.I.seqlen(src)
            if n is None and src.op == "adt" and src.a[0].endswith("::Range") and src.a[3][0] is INT0:
                n = src.a[3][1]
            zipped = src.op == "it" and src.a[0] == "zip" and {src.a[1], src.a[2]} == {a, b}
            if zipped or n is not None and any(entails(f, mk_le(x, n)) for x in (la, lb)):
                if v is mk("ind", L.id, INT0) or n is not None and same(f, v, n) and n is not v or n is v:
                    return agree(L, s, o, a, b)
    if v.op == "ind" and v.a[1] is INT0:
        L = s.I.loops.get(v.a[0])
        if any(entails(f, mk_le(x, v)) for x in (la, lb)) or digit_eq(f, a, b, L) is False:
            return agree(L, s, o, a, b)
        return False, "may stop at %s although the digits there agree" % show(v), "early"
    if is_int(v) and v is INT0 and (entails(f, mk_le(la, INT0)) or entails(f, mk_le(lb, INT0)) or f.truth(mk_eq(seqs.at(a, INT0), seqs.at(b, INT0))) is False):
        return True, ""
    return False, "returns %s" % show(v)[:120], "value"


def digit_eq(f, a, b, L):
    """what is known of the digits at the loop's position"""
    i = mk("ind", L.id, INT0)
    for x, y in ((mk("elem", a, L.id), mk("elem", b, L.id)), (mk_idx(a, i), mk_idx(b, i)), (mk("idx", a, i), mk("idx", b, i))):
        t = f.truth(mk_eq(x, y))
        if t is not None:
            return t
    return None


def agree(L, s, o, a, b):
    """the loop goes on only past positions where the digits agree"""
    if not L.backs:
        return False, "compares nothing", "late"
    for g in L.backs:
        if digit_eq(g.facts, a, b, L) is not True:
            return False, "goes on although digits may differ", "late"
    return True, ""
