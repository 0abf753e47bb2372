"""Patricia trie: node encoding and decoding, nibble sequences."""
from pmt2 import *

RLP = "rlp::rlpin::Rlp::"
STR = "rlp::stream::RlpStream::"
N = "nibbles::Nibbles::"


def rcall(m, *a):
    return mk("call", RLP + m, *a)


def chk_ok(e, extra=()):
    """the run-time check cannot fail under the facts known where it stands"""
    f = e.facts
    for a, v in extra:
        g = f.assume(a, v)
        if g is None:
            return True
        f = g
    if e.name == "bounds":
        return entails(f, mk_lt(e.args[0], e.args[1]))
    if e.name == "slice":
        return entails(f, mk_le(e.args[0], e.args[1])) and entails(f, mk_le(e.args[1], e.args[2]))
    if e.name == "overflowSub":
        return entails(f, mk_le(e.args[1], e.args[0]))
    if e.name == "overflowAdd":
        s = add(e.args[0], e.args[1])
        if is_int(s):
            return s.a[0] < 128
        # bounded by the length of something in memory, or by a small number
        for k, v in f.d.items():
            if v and k.op == "ge0":
                c, d = lin_of(k.a[0])
                c2, d2 = lin_of(s)
                if all(d.get(x, 0) < 0 for x in d2) and all(q < 0 or x.op == "call" and x.a[0] == "len" for x, q in d.items()):
                    return True
        return False
    if e.name in ("overflowShr", "overflowShl"):
        return e.args[1].op == "int" and e.args[1].a[0] < 8 or entails(f, mk_le(e.args[1], Int(7)))
    if e.name == "mapindex":
        return f.truth(mk_isv(e.args[0], "Some")) is True
    if e.name == "assert":
        return f.truth(e.args[0]) is False or e.args[0] is INT0 or e.args[0] is mk("bool", False)
    return None


# ---------------------------------------------------------------- decoding
def decoders(ctx):
    dec, enc = roles(ctx)
    return dec


def dec_terms(fn):
    data = argterms(fn)["bytes"]
    return data, rcall("new", data)


def item(R, i):
    return payload(rcall("at", R, i), "Ok")


def is_rec_on(fn, t, raw):
    """t is the decoder applied to `raw`"""
    if t.op != "call" or t.a[0] != fn.path:
        return False
    return raw in t.a[1:]


def comp_of(R):
    """the decoded key of a pair, in both spellings"""
    kd = payload(rcall("data", item(R, INT0)), "Ok")
    return kd, mk("call", N + "from_compact", kd)


def ends(f, hexd):
    """truth of: the digit sequence ends with the end mark"""
    last = lib_I.proj(hexd, ("i", sub(ln(hexd), INT1)))
    return f.truth(mk_eq(last, Int(16)))


def why_err(o, f, fn, R):
    """a reason for refusing the bytes"""
    for e in o.events:
        if e.kind == "call" and e.res is not None and (e.name.startswith(RLP) or e.name == fn.path):
            if f.truth(mk_isv(e.res, "Ok")) is False:
                return e.name
    kd, comp = comp_of(R)
    g = mk("call", "get", kd, INT0)
    if f.truth(mk_isv(g, "Some")) is False or entails(f, mk_eq(ln(kd), INT0)):
        return "no flag"
    for x in (payload(g, "Some"), lib_I.proj(kd, ("i", INT0))):
        if entails(f, mk_le(Int(4), mk("bin", "Shr", x, Int(4)))) or entails(f, mk_le(Int(64), x)):
            return "flag"
    h = mk("field", comp, "hex_data")
    if entails(f, mk_eq(ln(h), INT0)):
        return "no digits"
    for k, v in f.d.items():
        if v and k.op == "call" and k.a[0] == RLP + "is_list":
            c = k.a[1]
            if entails(f, mk_le(Int(32), ln(rcall("as_raw", c)))) and c.op == "field" and c.a[0].op == "as" and c.a[0].a[0].op == "call" \
                    and c.a[0].a[0].a[0] == RLP + "at" and c.a[0].a[0].a[1] is R:
                return "long"
    return None


def decode_rows(ctx, fn, rid="decode"):
    s = ctx.summ(fn, vocab(ctx), "dec", fine=2)
    data, R = dec_terms(fn)
    proto = rcall("prototype", R)
    pk = payload(proto, "Ok")
    okp = (mk_isv(proto, "Ok"), True)
    nd, nl = payload(pk, "Data"), payload(pk, "List")

    def bad(o, f):
        return None if is_err(o) else "malformed bytes decode to %s" % show(o.val)[:120]

    def empty(o, f):
        return None if not is_err(o) and same(f, okval(o), EMPTY_NODE) else "the empty string decodes to %s" % show(o.val)[:120]

    def pair(o, f):
        if is_err(o):
            return None if why_err(o, f, fn, R) else "a pair is refused without reason: %s" % show(o.val)[:160]
        kd, comp = comp_of(R)
        h = mk("field", comp, "hex_data")
        v, d = parts(f, okval(o))
        end = ends(f, h)
        if end is None:
            return "the kind of node does not depend on the end mark of its key"
        if v not in ("Leaf", "Extension") or (v == "Leaf") != end:
            return "a pair whose key has %send mark decodes to %s" % ("an " if end else "no ", show(okval(o))[:100])
        key = d["key"] if v == "Leaf" else d["prefix"]
        if not same(f, key, h):
            return "the decoded key is %s" % show(key)[:120]
        if v == "Leaf":
            want = payload(rcall("data", item(R, INT1)), "Ok")
            return None if same(f, d["value"], want) else "the decoded value is %s" % show(d["value"])[:120]
        c = d["node"]
        raw = rcall("as_raw", item(R, INT1))
        if c.op == "field" and c.a[0].op == "as" and c.a[0].a[1] == "Ok" and is_rec_on(fn, c.a[0].a[0], raw):
            return None
        return "the decoded child is %s" % show(c)[:160]

    def branch(o, f):
        if is_err(o):
            return None if why_err(o, f, fn, R) else "a branch is refused without reason: %s" % show(o.val)[:160]
        v, d = parts(f, okval(o))
        if v != "Branch":
            return "seventeen items decode to %s" % show(okval(o))[:100]
        it = item(R, Int(16))
        e = f.truth(rcall("is_empty", it))
        if e is None:
            return "does not look whether the branch has a value"
        want = NONE if e else Some(payload(rcall("data", it), "Ok"))
        if not same(f, d["value"], want):
            return "the decoded value is %s" % show(d["value"])[:120]
        return decoded_children(s, f, fn, R, d["children"])

    def other(o, f):
        d = rcall("data", R)
        size = rcall("size", R)
        if is_err(o):
            if f.truth(rcall("is_data", R)) is False or f.truth(mk_eq(size, Int(32))) is False or f.truth(mk_isv(d, "Ok")) is False \
                    or f.truth(mk_eq(ln(payload(d, "Ok")), Int(32))) is False:
                return None
            return "refused without reason: %s" % show(o.val)[:120]
        v, p = parts(f, okval(o))
        if v != "Hash":
            return "decodes to %s" % show(okval(o))[:120]
        if not any(h.op == "call" and h.a[-1] is payload(d, "Ok") for h in (p["hash"],)):
            return "the decoded hash is %s" % show(p["hash"])[:120]
        if f.truth(mk_eq(size, Int(32))) is not True and f.truth(mk_eq(ln(payload(d, "Ok")), Int(32))) is not True:
            return "a string of any length decodes to a hash"
        return None
    L2, L17 = mk_eq(nl, Int(2)), mk_eq(nl, Int(17))
    rows = [
        Row("malformed", [(mk_isv(proto, "Ok"), False)], bad),
        Row("empty", [okp, (mk_isv(pk, "Data"), True), (mk_eq(nd, INT0), True)], empty),
        Row("pair", [okp, (mk_isv(pk, "List"), True), (L2, True)], pair),
        Row("branch", [okp, (mk_isv(pk, "List"), True), (L2, False), (L17, True)], branch),
        Row("string", [okp, (mk_isv(pk, "Data"), True), (mk_eq(nd, INT0), False)], other),
        Row("other list", [okp, (mk_isv(pk, "List"), True), (L2, False), (L17, False)], other),
        Row("null", [okp, (mk_isv(pk, "Null"), True)], other, need=False),
    ]
    table(ctx, rid, s, rows)
    return s


def decoded_children(s, f, fn, R, c):
    if c.op == "lv":
        L = loop_of(s.I, c)
        init, steps = L.vars[c]
        for x, g in steps:
            if x.op != "upd" or x.a[0] is not c or x.a[1][0] != "i":
                return "a step of the loop makes the children %s" % show(x)[:120]
            i, v = x.a[1][1], x.a[2]
            if i.op != "ind" or i.a[1] is not INT0:
                return "a child is stored at %s" % show(i)[:60]
            raw = rcall("as_raw", item(R, i))
            if not (v.op == "field" and v.a[0].op == "as" and v.a[0].a[1] == "Ok" and is_rec_on(fn, v.a[0].a[0], raw)):
                return "the child at a position is %s" % show(v)[:160]
            if not entails(f, mk_le(Int(16), i)) and not all_slots(f, L, c):
                return "the loop over the children may end early"
        return None if steps else "no child is decoded"
    if c.op == "arr":
        for i, v in enumerate(c.a[0]):
            raw = rcall("as_raw", item(R, Int(i)))
            if not (v.op == "field" and v.a[0].op == "as" and is_rec_on(fn, v.a[0].a[0], raw)):
                return "child %d is %s" % (i, show(v)[:120])
        return None
    b = seq_body(c)
    if b and len(b[1]) == 1 and not b[1][0][0]:
        src, v = b[0], b[1][0][1]
        if src.op == "adt" and src.a[0].endswith("Range") and src.a[3][0] is INT0 and src.a[3][1] is Int(16):
            for x in subterms(v):
                if x.op == "ind" and v.op == "field" and v.a[0].op == "as" and is_rec_on(fn, v.a[0].a[0], rcall("as_raw", item(R, x))):
                    return None
    return "the children are %s" % show(c)[:160]


def all_slots(f, L, lv):
    """the loop ran through every slot of the array lv, handing out references to them"""
    for k, v in f.d.items():
        if k.op == "more" and v is False and str(k.a[1]).split("~")[0] == str(L.id):
            x = k.a[0]
            while x.op == "it" and x.a[0] in ("enumerate", "iter_mut", "rev", "inspect"):
                x = x.a[1]
            if lv_at(lv, x):
                return True
    return False


# ---------------------------------------------------------------- encoding
def appended(t):
    """stream term -> (initial stream, [(kind, item)])"""
    items = []
    while t.op == "eff" and t.a[0].startswith(STR):
        m = t.a[0][len(STR):]
        if m == "append":
            items.append(("item", t.a[3]))
        elif m == "append_raw":
            items.append(("raw", t.a[3], t.a[4]))
        elif m == "append_empty_data":
            items.append(("empty",))
        else:
            items.append((m,) + t.a[3:])
        t = t.a[2]
    return t, items[::-1]


def child_item(f, it, wrs, child_ok):
    """it is the item for a child: its hash as a string or its encoding verbatim, as the writer decides -> problem"""
    x = it[1] if len(it) > 1 else None
    if x is None:
        return "a child is encoded as %s" % (it,)
    for v, kind in (("Hash", "item"), ("Inline", "raw")):
        y = x
        if v == "Hash" and y.op == "field" and y.a[1] == "0" and y.a[0].op == "field":
            y = y.a[0]
        if y.op == "field" and y.a[0].op == "as" and y.a[0].a[1] == v and y.a[0].a[0].op == "call" and y.a[0].a[0].a[0] in wrs:
            w = y.a[0].a[0]
            if it[0] != kind:
                return "a child that is %s is appended as %s" % ("referenced" if v == "Hash" else "inlined", it[0])
            if v == "Hash" and y is x:
                return "a child reference is appended as %s" % show(x)[:80]
            if v == "Inline" and it[2] is not INT1:
                return "an inlined child is counted as %s items" % show(it[2])
            if f.truth(mk_isv(w, v)) is not True:
                return "a child is appended without looking how it is stored"
            g = wrs[w.a[0]]
            for (i, nm, ty), a in zip(params(g), w.a[1:]):
                if role_of(ty) == "node" and not child_ok(a):
                    return "encodes child %s" % show(a)[:120]
            return None
    return "a child is encoded as %s" % show(x)[:120]


def is_item(f, it, want):
    return it[0] == "item" and same(f, it[1], want)


def is_range(t, n):
    return t.op == "adt" and t.a[0].endswith("::Range") and t.a[3][0] is INT0 and t.a[3][1] is Int(n)


def is_list_of(t, n):
    return t.op == "call" and t.a[0] == STR + "new_list" and t.a[1] is Int(n)


def encode_rows(ctx, fn, wr, rid="encode"):
    wrs = {w.path: w for w in wr}
    s = ctx.summ(fn, vocab(ctx, lambda g: g in wr), "enc", fine=True)
    node = argterms(fn)["node"]
    b = lambda v, k: mk("field", body(node, v), k)

    def stream(o):
        v = o.val
        if v.op == "call" and v.a[0] == STR + "out":
            return appended(v.a[1])
        return None, None

    def empty(o, f):
        v = o.val
        if "NULL_RLP" in show(v) and v.op in ("call", "const", "sym", "static", "glob") or v.op == "arr" and v.a[0] == (Int(128),):
            return None
        return None if show(v).endswith("NULL_RLP") else "the empty node is encoded as %s" % show(v)[:100]

    def compact(f, it, nb):
        want = mk("call", N + "encode_compact", nb)
        return it[0] == "item" and (same(f, it[1], want) or it[1].op == "call" and it[1].a[0] == N + "encode_compact" and same(f, hexof(it[1].a[1]), hexof(nb)))

    def leaf(o, f):
        t, items = stream(o)
        if t is None or not is_list_of(t, 2) or len(items) != 2:
            return "a leaf is encoded as %s" % show(o.val)[:160]
        if not compact(f, items[0], b("Leaf", "key")):
            return "the key of a leaf is encoded as %s" % show(items[0][-1])[:120]
        return None if is_item(f, items[1], b("Leaf", "value")) else "the value of a leaf is encoded as %s" % (items[1],)

    def ext(o, f):
        t, items = stream(o)
        if t is None or not is_list_of(t, 2) or len(items) != 2:
            return "an extension is encoded as %s" % show(o.val)[:160]
        if not compact(f, items[0], b("Extension", "prefix")):
            return "the prefix is encoded as %s" % show(items[0][-1])[:120]
        return child_item(f, items[1], wrs, lambda a: same(f, a, b("Extension", "node")))

    def branch(o, f):
        t, items = stream(o)
        if t is None:
            return "a branch is encoded as %s" % show(o.val)[:160]
        if len(items) != 1:
            return "a branch is encoded with %d items after its children" % len(items)
        val = b("Branch", "value")
        some = f.truth(mk_isv(val, "Some"))
        if some is None:
            return "the encoding does not depend on the branch having a value"
        if some and not is_item(f, items[0], payload(val, "Some")) or not some and items[0][0] != "empty":
            return "the branch value is encoded as %s" % (items[0],)
        L = loop_of(s.I, t)
        if L is None or t.op != "lv":
            return "the children are encoded as %s" % show(t)[:160]
        init, steps = L.vars[t]
        if not is_list_of(init, 17):
            return "the branch starts as %s" % show(init)[:80]
        kids_ = b("Branch", "children")
        got = set()
        for x, g in steps:
            u, its = appended(x)
            if u is not t or len(its) != 1:
                return "a step of the loop appends %d items" % len(its)
            p = child_item(g, its[0], wrs, lambda a: at_pos(a, kids_, L.id))
            if p:
                return p
            got.add(its[0][0])
        if got != {"item", "raw"}:
            return "not every kind of child is handled"
        done = exhausted(s.I, f, L.id, kids_) or entails(f, mk_le(Int(16), mk("ind", L.id, INT0)))
        for k, v in f.d.items():
            if k.op == "more" and v is False and str(k.a[1]).split("~")[0] == str(L.id) and is_range(k.a[0], 16):
                done = True
        return None if done else "the loop over the children may end early"

    def refd(o, f):
        return "a reference is encoded as a node: %s" % show(o.val)[:100]
    rows = [Row("Empty", [variant(node, "Empty")], empty), Row("Leaf", [variant(node, "Leaf")], leaf),
            Row("Extension", [variant(node, "Extension")], ext), Row("Branch", [variant(node, "Branch")], branch),
            Row("Hash", [variant(node, "Hash")], refd, need=False)]
    outs = [o for o in s.outs if not (o.kind == "panic" and o.facts.truth(mk_isv(node, "Hash")) is True)]
    table(ctx, rid, s, rows, outs=outs)


def check_codec(ctx):
    ctx.rule("decode", "the decoder maps each RLP shape to the specified node: empty string to the empty node, a pair to a leaf or an extension by its key's end mark, "
             "seventeen items to a branch whose children are the decoded items in order, a 32-byte string to a reference; everything else is refused, nothing else is")
    ctx.rule("encode", "the encoder writes each node kind in the standard form: (compact key, value), (compact prefix, child), sixteen children in order and the value; a child is "
             "its hash as a string, or its own encoding verbatim, as the writer decides")
    ctx.rule("writer", "the node writer inlines encodings shorter than 32 bytes and references longer ones by keccak hash")
    dec, enc = roles(ctx)
    wr, encs = writer_encoder(ctx)
    ctx.floor("decode", "crate", len(dec), 1, "node decoders")
    ctx.floor("encode", "crate", len(encs), 1, "node encoders")
    ctx.floor("writer", "crate", len(wr), 1, "node writers")
    for d in dec:
        decode_rows(ctx, d)
    for e in encs:
        encode_rows(ctx, e, wr)
    op = vocab(ctx, lambda f: f in wr or f in encs or is_dbop(f))
    for w in wr:
        writer_rows(ctx, ctx.summ(w, op, "commit", fine=True), encs)


# ---------------------------------------------------------------- robustness of decoding
RLP_SAFE = {"new", "at", "data", "is_list", "is_data", "is_empty", "is_null", "is_int", "prototype", "size", "as_raw", "item_count", "val_at",
            "as_val", "as_list", "list_at", "payload_info", "iter"}


def check_decode_safe(ctx):
    ctx.rule("nopanic", "no path of a node decoder, with everything it calls in this repository expanded, panics; every index, slice, subtraction and shift on it is in range "
             "by the conditions established before it")
    ctx.rule("hashlen", "a hash is built only from a string known to be 32 bytes long")
    ctx.rule("depth", "a decoder calls itself only on an item that is not a list, or that is shorter than a hash: nested lists shrink, so the depth is bounded")
    ctx.rule("external", "outside this repository a decoder calls only RLP readers that report malformed bytes as errors, and container operations")
    dec, enc = roles(ctx)
    ctx.floor("nopanic", "crate", len(dec), 1, "node decoders")
    ids = {d.id for d in dec}
    for fn in dec:
        op = lambda g: g.id in ids or g.path == "keccak" or g.crate == "serde_hash"
        op.dropself = ids
        s = ctx.summ(fn, op, "decsafe", fine=2)
        data, R = dec_terms(fn)
        n = 0
        for o in s.panics:
            if tighten(o.facts) is None:
                continue
            e = [x for x in o.events if x.kind in ("panic", "call")][-1:]
            ctx.ob("nopanic", fn.qual, False, "decoding can panic: %s" % (e and e[0].name or o.kind), "panic", sp=e and e[0].sp or None)
        calls = {}
        for e in s.I.chks:
            n += 1
            r = chk_ok(e)
            ctx.ob("nopanic", fn.qual, r is True, "%s may fail: %s" % (e.name, ", ".join(show(a)[:80] for a in e.args)),
                   "%s:%s" % (e.name, e.fn if hasattr(e, "fn") else ""), sp=e.sp)
        ctx.floor("nopanic", fn.qual, n, 3, "run-time checks")
        evs = set()
        for o in s.outs:
            evs.update(o.events)
        for L in s.I.loops.values():
            for b in L.backs:
                evs.update(interp.evlist(b.ev))
        nrec = nhash = 0
        for e in evs:
            if e.kind != "call":
                continue
            if e.name == fn.path or e.name in {d.path for d in dec}:
                nrec += 1
                raw = [a for a in e.args if a.op == "call" and a.a[0] == RLP + "as_raw"]
                ok = False
                for a in raw:
                    c = a.a[1]
                    if e.facts.truth(rcall("is_list", c)) is False or e.facts.truth(rcall("is_data", c)) is True \
                            or entails(e.facts, mk_lt(slen_(a), Int(32))):
                        ok = True
                ctx.ob("depth", fn.qual, ok, "decodes a nested item of any length: %s" % ", ".join(show(a)[:80] for a in e.args), "rec", sp=e.sp)
            elif e.name.endswith("::from_slice"):
                nhash += 1
                a = e.args[-1]
                ok = entails(e.facts, mk_eq(ln(a), Int(32)))
                d = rcall("data", R)
                if a is payload(d, "Ok") and e.facts.truth(mk_eq(rcall("size", R), Int(32))) is True and e.facts.truth(rcall("is_data", R)) is True:
                    ok = True
                ctx.ob("hashlen", fn.qual, ok, "builds a hash from %s, whose length is not established" % show(a)[:80], "from_slice", sp=e.sp)
            elif e.name.startswith("rlp::"):
                ctx.ob("external", fn.qual, e.name.startswith(RLP) and e.name[len(RLP):] in RLP_SAFE, "calls %s" % e.name, e.name, sp=e.sp)
            elif e.name.startswith("core::") and ("unwrap" in e.name or "expect" in e.name):
                ctx.ob("nopanic", fn.qual, False, "calls %s" % e.name, e.name, sp=e.sp)
        ctx.floor("depth", fn.qual, nrec, 1, "nested decodings")
        ctx.floor("hashlen", fn.qual, nhash, 1, "hash constructions")


def slen_(t):
    return mk("call", "len", t)

