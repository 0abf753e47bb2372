"""Hash values (H01)."""
from pmtlib import *

CFS = "core::slice::<impl [T]>::copy_from_slice"


def htype(ctx):
    d = ctx.db("pmt")
    k = d.by_path.get("serde_hash::keccak")
    if k is None:
        raise Missing("serde_hash::keccak")
    t = retty(k)
    if t.get("k") != "adt":
        raise Missing("result type of keccak")
    return t["p"], next(a for a in d.adts.values() if a.get("p") == t["p"] and a.get("id", t["id"]) == t["id"] or a is d.adts.get(t["id"]))


def is_h(t, hp):
    return tyis(t, hp)


def arr32(t):
    while isinstance(t, dict) and t.get("k") == "ref":
        t = t["t"]
    return isinstance(t, dict) and t.get("k") == "array" and (t.get("n") in (32, "32") or t.get("len") in (32, "32"))


def by(t):
    while isinstance(t, dict) and t.get("k") == "ref":
        t = t["t"]
    return isinstance(t, dict) and t.get("k") == "slice" and t["t"].get("s") == "u8"


def raw(f, t):
    """the 32 bytes a term denotes, seen through whole copies and moves"""
    while True:
        if t.op == "eff" and t.a[0] == CFS and t.a[1] == 0:
            dst, src = t.a[2], t.a[3]
            if same(f, lenof(src), Int(32)) and same(f, lenof(dst), Int(32)):
                t = src
                continue
        if t.op == "adt" and len(t.a[3]) == 1:
            t = t.a[3][0]
            continue
        if t.op == "slice" and t.a[1] is INT0 and same(f, t.a[2], lenof(t.a[0])):
            t = t.a[0]
            continue
        if t.op == "upd" and t.a[1][0] == "f" and t.a[1][1] == "0":
            t = t.a[2]
            continue
        return t


_L = Interp.__new__(Interp)


def lenof(t):
    if t.op == "field" and t.a[1] == "0":
        return Int(32)
    if t.op == "eff":
        return lenof(t.a[2])
    if t.op == "arg":
        return mk("call", "len", t)
    return _L.length(t)


def check_hash(ctx):
    ctx.rule("digest", "the hash function gives the Keccak-256 digest of its whole argument, written over all of the result")
    ctx.rule("compare", "equality, order and map hashing use the whole value and nothing else")
    ctx.rule("convert", "every conversion gives or takes the value's own bytes")
    ctx.rule("length", "a byte string becomes a hash only on paths where its length is 32, and then with exactly these bytes")
    ctx.rule("shape", "the hash type consists of one array of 32 bytes")
    d = ctx.db("pmt")
    hp, adt = htype(ctx)
    fl = [f for v in adt["v"] for f in v["f"]]
    ctx.ob("shape", hp, len(adt["v"]) == 1 and len(fl) == 1 and arr32(fl[0]["ty"]), "fields are %s" % [x["n"] for x in fl], "shape")
    fname = fl[0]["n"]
    cmpn = conv = lens = 0
    for f in sorted((x for x in d.by_path.values() if x.crate in ("serde_hash", "pmt") and x.kind == "fn"), key=lambda x: x.qual):
        ps = params(f)
        me = [mk("arg", i, n or "a%d" % i) for i, n, t in ps]
        tr = f.impl_trait or ""
        hs = [i for i, _, t in ps if is_h(t, hp)]
        mine = is_h(f.impl_self_ty, hp) if f.impl_self_ty else False
        own = lambda i: mk("field", me[i], fname)
        w = f.qual
        if f.path == "keccak" and f.crate == "serde_hash":
            s = ctx.summ(f, None, "h01", fine=True)
            for o in s.outs:
                ctx.ob("digest", w, o.kind == "ret" and digest(o, me[0]), "returns %s" % (show(o.val)[:160] if o.val is not None else o.kind), "keccak")
            continue
        if mine and tr in ("core::cmp::PartialEq", "core::cmp::Ord", "core::cmp::PartialOrd", "core::hash::Hash") \
                and f.name in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "hash"):
            cmpn += 1
            if f.derived:
                ctx.ob("compare", w, True, "", "derived")
                continue
            s = ctx.summ(f, None, "h01", fine=True)
            for o in s.outs:
                if o.kind != "ret":
                    ctx.ob("compare", w, False, "can panic", "panic")
                    continue
                if f.name == "hash":
                    es = [e for e in o.events if e.kind == "call" and e.name.startswith("core::hash::") and not e.name.endswith("::finish")]
                    ok = len(es) == 1 and es[0].args and (es[0].args[-1] is own(0) or es[0].args[0] is own(0) and es[0].name.endswith("Hash::hash"))
                    ctx.ob("compare", w, ok, "hashes %s" % [repr(e)[:80] for e in es], "hash")
                else:
                    ctx.ob("compare", w, compares(o, f.name, own(0), own(1)), "gives %s" % show(o.val)[:160], f.name)
            continue
        rt = retty(f)
        if f.crate != "serde_hash" or f.derived:
            if not (is_h(rt, hp) and len(ps) == 1 and by(ps[0][2])):
                continue
        mut = lambda t: t.get("k") == "ref" and t.get("m")
        if len(ps) == 1 and is_h(rt, hp) and by(ps[0][2]) or mine and len(ps) == 2 and by(ps[1][2]) and f.name.startswith("assign"):
            lens += 1
            src = me[-1]
            s = ctx.summ(f, None, "h01", fine=True)
            n = 0
            for o in s.outs:
                if o.kind != "ret":
                    continue
                n += 1
                g = o.facts
                v = o.val if is_h(rt, hp) else final(o, me[0])
                ok = same(g, lenof(src), Int(32)) and raw(g, v) is src
                ctx.ob("length", w, ok, "gives %s when %s" % (show(v)[:160], "; ".join(g.list())[:120]), "from")
            ctx.ob("length", w, n > 0, "never gives a hash", "some")
            continue
        if len(ps) == 1 and (is_h(rt, hp) and (arr32(ps[0][2]) or is_h(ps[0][2], hp) and tr == "core::clone::Clone")
                             or is_h(ps[0][2], hp) and (arr32(rt) or by(rt)) and not (rt.get("k") == "ref" and rt.get("mut"))):
            conv += 1
            s = ctx.summ(f, None, "h01", fine=True)
            for o in s.outs:
                if o.kind != "ret":
                    ctx.ob("convert", w, False, "can panic", "panic")
                    continue
                v = o.val
                if v.op == "ptr":
                    ok = v.a[0].op == "obj" and v.a[0].a[0] is me[0] and v.a[1] == (("f", fname),)
                else:
                    g = o.facts
                    x = raw(g, v)
                    ok = x is (own(0) if is_h(ps[0][2], hp) else me[0]) or x is me[0] and is_h(ps[0][2], hp)
                ctx.ob("convert", w, ok, "gives %s" % show(v)[:160], "conv")
    ctx.floor("compare", hp, cmpn, 4, "comparison functions")
    ctx.floor("convert", hp, conv, 6, "conversions")
    ctx.floor("length", hp, lens, 1, "conversions from byte strings")


def compares(o, name, a, b):
    v = o.val
    if name in ("eq", "ne"):
        want = mk_eq(a, b)
        if name == "ne":
            want = mk_not(want)
        if v is want:
            return True
        t = o.facts.truth(want)
        return v in (Int(0), Int(1)) and t is (v is Int(1))
    c = mk("call", "cmp", a, b)
    if name == "cmp":
        return v is c
    if name == "partial_cmp":
        return v is Some(c)
    return contains(v, a) and contains(v, b)


def digest(o, arg):
    t = raw(o.facts, o.val)
    # written by the digest function into an array of 32 bytes
    if t.op == "eff" and t.a[0] in ("keccak_hash::write_keccak", "keccak_hash::keccak_256"):
        if t.a[1] == 1:
            src, dst = t.a[2], t.a[3]
            return src is arg and same(o.facts, lenof(dst), Int(32))
        return False
    # or taken whole from the digest it returns
    if t.op == "field" and t.a[1] == "0":
        t = t.a[0]
    if t.op == "call" and t.a[0] == "keccak_hash::keccak":
        return t.a[1] is arg
    return False
