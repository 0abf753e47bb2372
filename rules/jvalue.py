"""Values (J26): equality, order and copies of the tree's types, each by its own fields; and batches of nodes (J27)."""
import re
import lib
from lib import *
from jdb import plain
from jcodec import decl, is_phantom, rebuilt

ORDER = {"node_type::NodeKey": ("version", "nibble_path"), "types::nibble::nibble_path::NibblePath": ("num_nibbles", "bytes"),
         "writer::StaleNodeIndex": ("stale_since_version", "node_key")}
STORED = ("KeyHash", "ValueHash", "RootHash", "db::Version", "node_type::Child", "node_type::Children", "node_type::InternalNode", "node_type::LeafNode", "node_type::Node", "node_type::NodeKey",
          "node_type::NodeType", "restore::ChildInfo", "restore::InternalInfo", "types::nibble::Nibble", "types::nibble::nibble_path::NibblePath", "types::proof::SparseMerkleLeafNode",
          "types::proof::definition::SparseMerkleProof", "types::proof::definition::SparseMerkleRangeProof", "writer::NodeBatch", "writer::NodeStats", "writer::StaleNodeIndex", "writer::TreeUpdateBatch")


def impls(D, trait, meth):
    for f in sorted(D.fns.values(), key=lambda f: f.qual):
        m = re.match(r"^jmt::<(.*) as core::%s(<.*>)?>::%s$" % (trait, meth), f.qual)
        if m:
            p = re.sub(r"<.*", "", m[1])
            if p in STORED:
                yield p, f


def places(D, p):
    """[(variant or None, [field])] of a type, without what holds no value"""
    a = decl(D, p)
    return [(v["n"] if a["enum"] else None, [f["n"] for f in v["f"] if not is_phantom(D, f["ty"])]) for v in a["v"]]


def at(x, var, f):
    return mk("field", mk("as", x, var), f) if var else lib._PI.proj(x, ("f", f))


def check_values(ctx):
    ctx.rule("equal", "two values are equal exactly when they are the same variant and every field of the one equals that field of the other")
    ctx.rule("order", "values are ordered by their fields, one after the other in the order that storage relies on; they compare as equal only when all fields are; the partial order is the same")
    ctx.rule("copy", "a copy has every field of the original")
    D = ctx.db("jmt")
    n = {"eq": 0, "ne": 0, "cmp": 0, "clone": 0}
    # each is decided here, so where one calls another that one is what it should be
    for tr, me in (("cmp::PartialEq", "eq"), ("cmp::PartialEq", "ne"), ("cmp::Ord", "cmp"), ("cmp::PartialOrd", "partial_cmp"), ("clone::Clone", "clone")):
        for p, f in impls(D, tr, me):
            f.derived = True
    for p, f in impls(D, "cmp::PartialEq", "eq"):
        n["eq"] += 1
        equal(ctx, D, p, f)
    for p, f in impls(D, "cmp::PartialEq", "ne"):
        equal(ctx, D, p, f, neg=True)
    for p, f in impls(D, "cmp::Ord", "cmp"):
        n["cmp"] += 1
        order(ctx, D, p, f)
    for p, f in impls(D, "cmp::PartialOrd", "partial_cmp"):
        order(ctx, D, p, f, some=True)
    for p, f in impls(D, "clone::Clone", "clone"):
        n["clone"] += 1
        s = ctx.summ(f.qual, None, "values", fine=2)
        me = plain(s)[0]
        for o in s.outs:
            r = "it can stop the program" if o.kind != "ret" else rebuilt(D, o.facts, o.val, me)
            ctx.ob("copy", f.qual, r is None, "a copy of %s: %s" % (p.split("::")[-1], r or "whole"), "%s.copy" % p)
    ctx.floor("equal", "crate", n["eq"], 19, "types with equality")
    ctx.floor("order", "crate", n["cmp"], 8, "ordered types")
    ctx.floor("copy", "crate", n["clone"], 21, "types that are copied")


def same_variant(f, x, y, vs):
    """(True, False or None: the two are the same variant under f; the variants they may both be); None when f is impossible"""
    if len(vs) < 2:
        return True, vs
    xs = [v for v in vs if f.truth(mk_isv(x, v)) is not False]
    ys = [v for v in vs if f.truth(mk_isv(y, v)) is not False]
    both = [v for v in xs if v in ys]
    d = f.truth(mk_eq(mk("disc", x), mk("disc", y)))
    if d is True and not both or d is False and len(xs) == 1 and xs == ys:
        return None
    if d is None:
        d = True if len(xs) == 1 and xs == ys else False if not both else None
    return d, both


def cases(f, v):
    """[(facts, truth)] of a boolean under f"""
    for b in (True, False):
        if v.op == "int":
            if bool(v.a[0]) == b:
                yield f, b
            continue
        g = f.assume(v, b)
        g = g and tighten(g)
        if g is not None:
            yield g, b


def equal(ctx, D, p, fn, neg=False):
    s = ctx.summ(fn.qual, None, "values", fine=2)
    x, y = plain(s)[:2]
    pl = places(D, p)
    vs = [v for v, _ in pl if v]
    short = p.split("::")[-1]
    why = None
    for o in s.outs:
        if o.kind != "ret":
            why = why or "comparing can stop the program"
            continue
        for g, b in cases(o.facts, o.val):
            sv = same_variant(g, x, y, vs)
            if sv is None:
                continue
            same, both = sv
            if neg:
                b = not b
            if b:
                if same is not True:
                    why = why or "values of different variants can be equal"
                    continue
                for v, fs in pl:
                    if v and v not in both:
                        continue
                    for f in fs:
                        if g.truth(mk_eq(at(x, v, f), at(y, v, f))) is not True and not lib.same(g, at(x, v, f), at(y, v, f)):
                            why = why or "values that differ in %s can be equal" % f
            elif same is not False:
                if any(not any(g.truth(mk_eq(at(x, v, f), at(y, v, f))) is False for f in fs) for v, fs in pl if not v or v in both):
                    why = why or "values with all fields the same can be unequal"
    ctx.ob("equal", fn.qual, why is None, "%s: %s" % (short, why or "equal in every field"), "%s.equal" % p)


def is_so(g, a, c, r):
    """under g, a compares to c as r"""
    if g.truth(mk_isv(mk("call", "cmp", a, c), r)) is True:
        return True
    if r == "Equal":
        return g.truth(mk_eq(a, c)) is True or g.truth(mk_le(a, c)) is True and g.truth(mk_le(c, a)) is True
    return g.truth(mk_le(c, a) if r == "Less" else mk_le(a, c)) is False


def order(ctx, D, p, fn, some=False):
    s = ctx.summ(fn.qual, None, "values", fine=2)
    x, y = plain(s)[:2]
    pl = places(D, p)
    short = p.split("::")[-1]
    if len(pl) != 1 or pl[0][0]:
        ctx.ob("order", fn.qual, False, "%s: an order of several variants" % short, "%s.order" % p)
        return
    fs = ORDER.get(p, tuple(pl[0][1]))
    why = None
    if sorted(fs) != sorted(pl[0][1]):
        why = "its fields are %s" % ", ".join(pl[0][1])
    whole = mk("call", "cmp", x, y)
    for o in s.outs:
        if o.kind != "ret":
            why = why or "comparing can stop the program"
            continue
        v = o.val
        if some:
            if v.op != "adt" or v.a[1] != "Some":
                why = why or "some values are not ordered"
                continue
            v = v.a[3][0]
            if v is whole:
                continue                        # the order itself
        for r in ("Less", "Equal", "Greater"):
            b = mk_isv(v, r)
            g = o.facts if b is INT1 else None if b is INT0 else o.facts.assume(b, True)
            g = g and tighten(g)
            if g is None:
                continue
            if together(g, v, x, y, fs):
                continue
            for f in fs:
                a, c = at(x, None, f), at(y, None, f)
                if is_so(g, a, c, "Equal"):
                    continue
                if r == "Equal" or not is_so(g, a, c, r):
                    why = why or "%s does not decide, with all before it the same" % f
                break
            else:
                if r != "Equal":
                    why = why or "values with all fields the same are not equal in order"
    ctx.ob("order", fn.qual, why is None, "%s: %s" % (short, why or "by " + ", then ".join(fs)), "%s.order%s" % (p, ".partial" if some else ""))


# ---------------------------------------------------------------- batches (J27)
B = "jmt::writer::NodeBatch::"


def check_batch(ctx):
    ctx.rule("put", "a node goes in under its key, a value under its version and key; nothing else changes")
    ctx.rule("get", "what is given back is what is there: the node under the key, all nodes, all values")
    ctx.rule("merged", "joining puts in all nodes and all values of the other, and nothing else; where both have a key, the other's stays")
    ctx.rule("empty", "clearing leaves nothing; a batch is empty exactly when it has neither nodes nor values")
    nodes, values = ("nodes",), ("values",)

    def fld(x, f):
        return lib._PI.proj(x, ("f", f))

    def outs(n):
        s = ctx.summ(B + n, None, "batch", fine=2)
        return s, plain(s), s.outs

    def change(rid, n, want):
        """want: the fields that change, and to what"""
        s, a, os_ = outs(n)
        me = a[0]
        why = None
        want = want(a)
        for o in os_:
            if o.kind != "ret":
                why = why or "it can stop the program"
                continue
            end = final(o, me)
            for f in ("nodes", "values"):
                got, exp = fld(end, f), want.get(f, (fld(me, f),))
                if not any(is_it(s, o.facts, got, e) for e in exp):
                    why = why or "the %s become %s" % (f, show(got)[:80])
        ctx.ob(rid, B + n, why is None and bool(os_), "%s: %s" % (n, why or "as it should be"), n)
        return s, a, os_

    def is_it(s, f, got, e):
        if got is e or lib.same(f, got, e) or is_empty(e) and is_empty(got):
            return True
        # nothing to put in
        return e.op == "append" and (got is e.a[0]) and f.truth(mk_le(mk("call", "len", e.a[1]), INT0)) is True

    change("empty", "clear", lambda a: {"nodes": (EMPTY(),), "values": (EMPTY(),)})
    s, a, os_ = change("put", "insert_node", lambda a: {"nodes": (mk("ins", fld(a[0], "nodes"), a[1], a[2]),)})
    for o in os_:
        ctx.ob("put", B + "insert_node", o.val is mk("call", "get", fld(a[0], "nodes"), a[1]), "the node that was there is given back", "insert_node.old")
    change("put", "insert_value", lambda a: {"values": (mk("ins", fld(a[0], "values"), mk("tuple", (a[1], a[2])), Some(a[3])),)})
    change("merged", "extend", lambda a: {"nodes": (mk("append", fld(a[0], "nodes"), a[1]),), "values": (mk("append", fld(a[0], "values"), a[2]),)})
    change("merged", "merge", lambda a: {"nodes": (mk("append", fld(a[0], "nodes"), fld(a[1], "nodes")),), "values": (mk("append", fld(a[0], "values"), fld(a[1], "values")),)})
    for n, want in (("get_node", lambda a: mk("call", "get", fld(a[0], "nodes"), a[1])), ("nodes", lambda a: fld(a[0], "nodes")), ("values", lambda a: fld(a[0], "values"))):
        s, a, os_ = outs(n)
        why = None
        for o in os_:
            w = want(a)
            if o.kind != "ret" or not (o.val is w or lib.same(o.facts, o.val, w)):
                if o.kind == "ret" and n == "get_node" and o.val.op == "adt" and (
                        o.val.a[1] == "Some" and o.val.a[3][0] is payload(w) and o.facts.truth(mk_isv(w, "Some")) is True
                        or o.val.a[1] == "None" and o.facts.truth(mk_isv(w, "None")) is True):
                    continue
                why = why or "it gives %s" % (show(o.val)[:80] if o.val is not None else o.kind)
        ctx.ob("get", B + n, why is None and bool(os_), "%s: %s" % (n, why or "what is there"), n)
    s, a, os_ = outs("is_empty")
    ln = [mk("call", "len", fld(a[0], f)) for f in ("nodes", "values")]
    why = None
    for o in os_:
        if o.kind != "ret":
            why = why or "it can stop the program"
            continue
        f = o.facts
        for x in ln:
            f = f and f.assume(mk_le(INT0, x), True)
        for g, b in cases(f, o.val) if f else ():
            if not b:
                h = g
                for x in ln:
                    h = h and h.assume(mk_eq(x, INT0), True)
                h = h and tighten(h)
                if h is not None:
                    why = why or "a batch without anything can be not empty"
                continue
            z = [entails(g, mk_le(x, INT0)) or g.truth(mk_eq(x, INT0)) for x in ln]
            if b and z != [True, True]:
                why = why or "a batch that holds something can be empty"
    ctx.ob("empty", B + "is_empty", why is None and bool(os_), "is_empty: %s" % (why or "exactly when nothing is in it"), "is_empty")
    # the default
    D = ctx.db("jmt")
    for f in D.fns.values():
        if f.qual == "jmt::<writer::NodeBatch as core::default::Default>::default":
            s = ctx.summ(f.qual, None, "batch", fine=2)
            ok = all(o.kind == "ret" and all(is_empty(fld(o.val, x)) for x in ("nodes", "values")) for o in s.outs)
            ctx.ob("empty", f.qual, ok, "a new batch holds nothing", "default")


def EMPTY():
    return mk("empty")


def is_empty(t):
    return t.op == "empty" or show(t) == "empty()"


def together(g, v, x, y, fs):
    """the order of two tuples of the fields left to decide, in their order"""
    if v.op != "call" or v.a[0] != "cmp" or v.a[1].op != "tuple" or v.a[2].op != "tuple":
        return False
    left = [(at(x, None, f), at(y, None, f)) for f in fs]
    while left and g.truth(mk_eq(*left[0])) is True:
        left.pop(0)
    return list(zip(v.a[1].a[0], v.a[2].a[0])) == left
