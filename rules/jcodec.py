"""Stored forms (J25): what is written of a value, read back, is the value."""
import re
import lib
from lib import *
from jdb import plain

SER = "borsh::ser::BorshSerialize::serialize"
DE = "borsh::de::BorshDeserialize::deserialize_reader"
WRITE = "core::io::write::Write::write_all"
WIDTH = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "isize": 8}


def check_codec(ctx):
    ctx.rule("written", "every field of a value is written, in one order, after the number of its variant where there are several; nothing is refused")
    ctx.rule("read", "reading takes the same fields in the same order, as the same types, and puts each where it came from")
    ctx.rule("named", "a value is given to a serde format with every field, under its own name, and is put together again from the same names, and from the same order")
    D = ctx.db("jmt")
    ser, de = {}, {}
    for f in D.fns.values():
        m = re.match(r"^jmt::<(.*) as borsh::ser::BorshSerialize>::serialize$", f.qual)
        if m:
            ser[m[1]] = f
        m = re.match(r"^jmt::<(.*) as borsh::de::BorshDeserialize>::deserialize_reader$", f.qual)
        if m:
            de[m[1]] = f
    both = sorted(set(ser) & set(de))
    for n in both:
        borsh(ctx, D, n, ser[n], de[n])
    ctx.floor("read", "crate", len(both), 19, "types with a stored form")
    serde(ctx, D)


# ---------------------------------------------------------------- values
def ref_ty(t):
    while t.startswith("&"):
        t = t[1:]
    return norm(t)


def norm(t):
    return t.replace(",alloc::alloc::Global", "")


def one(s, x):
    """the one type of a call's term"""
    r = s.I.iotys.get(x, ())
    return next(iter(r)) if len(r) == 1 else None


def is_phantom(D, ty):
    """a type without a value in it"""
    if not isinstance(ty, dict) or ty.get("k") != "adt":
        return False
    if ty["p"] == "core::marker::PhantomData":
        return True
    a = D.adts.get(ty["id"])
    return bool(a) and a.get("local") and not a["enum"] and all(is_phantom(D, f["ty"]) for f in a["v"][0]["f"]) and bool(a["v"][0]["f"])


def decl(D, p):
    for a in D.adts.values():
        if a["p"] == p and a.get("local"):
            return a
    return None


def rebuilt(D, f, v, x):
    """the first part of x that v does not have as x has it; None when v is x"""
    if v is x or lib.same(f, v, x):
        return None
    if isinstance(v, T) and v.op == "adt":
        path, var, names, vals = v.a[:4]
        a = decl(D, path)
        if a is not None and a["enum"] or a is None and path.startswith("core::"):
            if f.truth(mk_isv(x, var)) is not True:
                return "the variant of %s, which becomes %s" % (show(x)[:40], var)
            x = mk("as", x, var)
        fs = {}
        if a is not None:
            for vv in a["v"]:
                if vv["n"] == var or not a["enum"]:
                    fs = {g["n"]: g["ty"] for g in vv["f"]}
        for n, w in zip(names, vals):
            if is_phantom(D, fs.get(n)):
                continue
            r = rebuilt(D, f, w, lib._PI.proj(x, ("f", n)) if not (isinstance(x, T) and x.op == "as") else mk("field", x, n))
            if r is not None:
                return r
        return None
    return "%s, which becomes %s" % (show(x)[:60], show(v)[:60])


# ---------------------------------------------------------------- borsh
def chain(o, start, names):
    """[event] of the calls on the stream, each on what the one before left; a text when something else is done to it"""
    cur = start
    r = []
    for e in o.events:
        if e.kind not in ("call", "mut", "store"):
            continue
        at = [i for i, a in enumerate(e.args) if a is cur]
        if not at:
            if any(mentions(a, start) for a in e.args if isinstance(a, T)) and e.kind == "call" and e.name in names:
                return "%s is called on another state of the stream" % e.name.split("::")[-1]
            continue
        if e.kind != "call" or e.name not in names:
            return "%s is called on the stream" % str(e.name)[-60:]
        r.append(e)
        cur = mk("eff", e.name, at[0], *e.args)
    return r


def mentions(t, x):
    return any(y is x for y in subterms(t))


def item(s, e):
    """what one write puts on the stream: (type, value), or a text"""
    if e.name == SER:
        return (ref_ty(e.ty), e.args[0]) if e.ty else "a value of unknown type is written"
    b = e.args[1]
    if b.op == "call" and b.a[0] == "to_le_bytes" and one(s, b):
        return (one(s, b), b.a[1])
    if b.op == "arr" and len(b.a) == 1 and isinstance(b.a[0], tuple) and len(b.a[0]) == 1:
        return ("u8", b.a[0][0])
    if b.op == "bytes" and len(b.a[0]) == 1:
        v = b.a[0][0]
        return ("u8", Int(v if isinstance(v, int) else ord(v)))
    return "%s is written" % show(b)[:60]


def unsure(o, evs):
    """a call of these whose failure goes unseen"""
    return [e for e in evs if o.facts.truth(mk_isv(e.res, "Ok")) is not True and not (o.val is e.res and e is evs[-1])]


def failed(o, evs):
    """a call of these has failed"""
    return [e for e in evs if o.facts.truth(mk_isv(e.res, "Err")) is True]


def borsh(ctx, D, n, fs, fd):
    short = n.split("::")[-1]
    ws = ctx.summ(fs.qual, None, "codec", fine=2)
    rs = ctx.summ(fd.qual, None, "codec", fine=2)
    wa = [mk("arg", i, fs.locals[i + 1]["n"]) for i in range(fs.argc)]
    ra = [mk("arg", i, fd.locals[i + 1]["n"]) for i in range(fd.argc)]
    me, out_ = plain(ws)[0], plain(ws)[-1]
    inp = plain(rs)[-1]
    # what is read
    reads = []
    for o in rs.outs:
        c = chain(o, inp, (DE,))
        if isinstance(c, str):
            ctx.ob("read", fd.qual, False, "%s: %s" % (short, c), "%s.stream" % short)
            return
        reads.append((o, c))
    seen = []
    for o in ws.outs:
        c = chain(o, out_, (SER, WRITE))
        if isinstance(c, str):
            ctx.ob("written", fs.qual, False, "%s: %s" % (short, c), "%s.stream" % short)
            return
        if o.kind != "ret":
            ctx.ob("written", fs.qual, False, "%s: writing it can stop the program" % short, "%s.stops" % short)
            continue
        bad = failed(o, c)
        okv = o.facts.truth(mk_isv(o.val, "Ok")) if o.val is not None else None
        if bad:
            ctx.ob("written", fs.qual, okv is not True, "%s: a failed write is reported" % short, "%s.reported" % short)
            continue
        if okv is None and c and o.val is c[-1].res:
            pass                                    # the last write's own result
        elif okv is not True:
            ctx.ob("written", fs.qual, False, "%s: it is refused where every write succeeds" % short, "%s.refused" % short)
            continue
        if unsure(o, c):
            ctx.ob("written", fs.qual, False, "%s: a failed write goes unseen" % short, "%s.unseen" % short)
            continue
        its = [item(ws, e) for e in c]
        b = next((x for x in its if isinstance(x, str)), None)
        if b:
            ctx.ob("written", fs.qual, False, "%s: %s" % (short, b), "%s.items" % short)
            continue
        ctx.ob("written", fs.qual, True, "%s: %s" % (short, ", ".join("%s: %s" % (show(v)[:40], t) for t, v in its)))
        seen.append((o.facts, its))
    if not seen:
        ctx.ob("written", fs.qual, False, "%s: nothing is ever written" % short, "%s.none" % short)
    # back again
    for f, its in seen:
        got = 0
        why = None
        for o, c in reads:
            if failed(o, c):
                continue
            k = min(len(c), len(its))
            m = {}
            for e, (ty, v) in zip(c[:k], its[:k]):
                m[mk("field", mk("as", e.res, "Ok"), "0")] = v
            g = f
            for key, b in o.facts.d.items():
                g = g and g.assume(subst(key, m), b)
            if g is not None:
                for key, vs in o.facts.dom.items():
                    if any(key is e.res for e in c):
                        continue
                    k2 = subst(key, m)
                    fits = [x for x in vs if g.truth(mk_isv(k2, x)) is not False]
                    if not fits:
                        g = None
                        break
            g = g and tighten(g)
            if g is None:
                continue
            got += 1
            if o.kind != "ret" or o.val.op != "adt" or o.val.a[1] != "Ok":
                why = "what is written is not read back: %s" % (show(o.val)[:80] if o.val is not None else o.kind)
                continue
            if len(c) != len(its):
                why = "%d items are written, %d are read" % (len(its), len(c))
                continue
            tys = [(t, okty(e.ty)) for e, (t, _) in zip(c, its)]
            bt = next(((a, b) for a, b in tys if a != b), None)
            if bt:
                why = "what is written as %s is read as %s" % bt
                continue
            r = rebuilt(D, g, subst(payload(o.val, "Ok"), m), me)
            if r is not None:
                why = r
        if not got:
            why = "no way of reading takes what is written"
        ctx.ob("read", fd.qual, why is None, "%s: %s" % (short, why or "read back as written"), "%s.back" % short)


def okty(t):
    m = re.match(r"^core::result::Result<(.*),core::io::error::Error>$", t or "")
    return norm(m[1]) if m else t


# ---------------------------------------------------------------- serde
S_ = "serde_core::ser::"
D_ = "serde_core::de::"


def shapes(s):
    """[(facts, kind, number, name, [(key, value)])] of what is handed to the serializer, or a text"""
    r = []
    for o in s.outs:
        if o.kind != "ret":
            return "writing it can stop the program"
        evs = [e for e in o.events if e.kind == "call" and e.name.startswith(S_)]
        if failed(o, evs):
            continue
        if not evs:
            return "it is not handed to the serializer"
        if unsure(o, [e for e in evs if e.name != S_ + "SerializeStruct::skip_field"]):
            return "a failed write goes unseen"
        if o.val is not evs[-1].res and o.facts.truth(mk_isv(o.val, "Ok")) is not True:
            return "it is refused"
        e = evs[0]
        k = e.name.split("::")[-1]
        k = k[len("serialize_"):] if k.startswith("serialize_") else k
        num = name = None
        fs = []
        if k.endswith("_variant"):
            num, name = e.args[2], e.args[3]
        if k == "newtype_struct":
            fs.append((None, e.args[2]))
        elif k == "serialize" and len(evs) == 1:        # as what it wraps
            k = "wrapped"
            fs.append((None, e.args[0]))
        elif k == "newtype_variant":
            fs.append((None, e.args[4]))
        elif k not in ("struct", "struct_variant", "unit_variant", "unit_struct", "tuple_struct", "tuple_variant"):
            return "%s is called" % k
        for e in evs[1:]:
            n = e.name.split("::")[-1]
            if n == "serialize_field" and len(e.args) == 3:
                fs.append((e.args[1], e.args[2]))
            elif n == "serialize_field" and len(e.args) == 2:
                fs.append((None, e.args[1]))
            elif n != "end":
                return "%s is called" % n
        r.append((o.facts, k, num, name, fs))
    return r


def ident(ctx, vis, key):
    """what a field or variant identifier is taken for"""
    if vis is None:
        return None
    s = ctx.summ(vis.qual, None, "serde", fine=2)
    x = plain(s)[-1]
    r = []
    for o in s.outs:
        g = o.facts
        from terms import Facts
        h = Facts()
        for a, b in g.d.items():
            h = h and h.assume(subst(a, {x: key}), b)
        if h is None or tighten(h) is None:
            continue
        r.append(o.val)
    if len(r) == 1 and r[0].op == "adt" and r[0].a[1] == "Ok":
        v = r[0].a[3][0]
        return v.a[1] if v.op == "adt" else None
    return None


def serde(ctx, D):
    n = 0
    for f in sorted(D.fns.values(), key=lambda f: f.qual):
        m = re.match(r"^(jmt::.*)<impl serde_core::ser::Serialize for (.*)>::serialize$", f.qual)
        if not m:
            continue
        pre = "%s<impl serde_core::de::Deserialize<'de> for %s>::deserialize" % (m[1], m[2])
        back = [g for g in D.fns.values() if pre[len("jmt::"):] + "::" in g.qual]
        if not back and not any(g.qual == pre for g in D.fns.values()):
            continue
        n += 1
        named(ctx, D, m[2].split("::")[-1], f, back, pre[len("jmt::"):])
    ctx.floor("named", "crate", n, 14, "types with a serde form")


def pick(back, pre, inner, what):
    """the visitor's method, by where it is"""
    return [g for g in back if re.search(re.escape(pre + inner) + r"(<'de>|<'de, H>|<[^ ]*>)? as serde_core::de::Visitor<'de>>::" + what + "$", g.qual)]


def named(ctx, D, short, f, back, pre):
    s = ctx.summ(f.qual, None, "serde", fine=2)
    me = plain(s)[0]
    sh = shapes(s)
    if isinstance(sh, str) or not sh:
        ctx.ob("named", f.qual, False, "%s: %s" % (short, sh or "nothing is ever written"), "%s.shape" % short)
        return
    for facts, kind, num, name, fs in sh:
        where = short if name is None else "%s::%s" % (short, show(name))
        v, vm, fv = "::__Visitor", None, "::__FieldVisitor"
        if name is not None:
            en = pick(back, pre, v, "visit_enum")
            why = variant(ctx, D, en, pick(back, pre, fv, "visit_str"), pick(back, pre, fv, "visit_u64"), facts, kind, num, name, fs, me)
            ctx.ob("named", (en[0] if en else f).qual, why is None, "%s: %s" % (where, why or "read back as its own variant"), "%s.variant" % where)
            if kind not in ("struct_variant", "tuple_variant"):
                continue
            inner = "::__Visitor<'de> as serde_core::de::Visitor<'de>>::visit_enum"
            v, fv = inner + "::__Visitor", inner + "::__FieldVisitor"
        if kind == "newtype_struct":
            nv = pick(back, pre, v, "visit_newtype_struct")
            why = None if nv else "it is not read back"
            for g in nv:
                why = why or newtype(ctx, D, g, facts, fs, me)
            ctx.ob("named", (nv[0] if nv else f).qual, why is None, "%s: %s" % (where, why or "read back as written"), "%s.newtype" % where)
        if kind == "wrapped":
            top = [g for g in D.fns.values() if g.qual == "jmt::" + pre]
            why = newtype(ctx, D, top[0], facts, fs, me) if top else "it is not read back"
            ctx.ob("named", (top[0] if top else f).qual, why is None, "%s: %s" % (where, why or "read back as written"), "%s.wrapped" % where)
            continue
        if kind in ("unit_struct",):
            continue
        sq = pick(back, pre, v, "visit_seq")
        if name is not None and len(sq) > 1:
            sq = [g for g in sq if any(o.val.op == "adt" and o.val.a[1] == "Ok" and o.val.a[3][0].op == "adt" and facts.truth(mk_isv(me, o.val.a[3][0].a[1])) is True
                                       for o in ctx.summ(g.qual, None, "serde", fine=2).outs if o.kind == "ret")]
        why = None if len(sq) == 1 else "it is not read back in order"
        if sq:
            why = why or by_order(ctx, D, sq[0], facts, fs, me)
        ctx.ob("named", (sq[0] if sq else f).qual, why is None, "%s: %s" % (where, why or "read back in order"), "%s.order" % where)
        if kind not in ("struct", "struct_variant"):
            continue
        mp = pick(back, pre, v, "visit_map")
        why = None if mp else "it is not read back by name"
        if len(mp) == 1:
            why = by_name(ctx, D, mp[0], pick(back, pre, fv, "visit_str"), facts, fs, me)
        ctx.ob("named", (mp[0] if mp else f).qual, why is None, "%s: %s" % (where, why or "read back by name"), "%s.names" % where)


def ok_of_(o):
    return payload(o.val, "Ok") if o.kind == "ret" and o.val is not None and o.val.op == "adt" and o.val.a[1] == "Ok" else None


def newtype(ctx, D, g, facts, fs, me):
    s = ctx.summ(g.qual, None, "serde", fine=2)
    for o in s.outs:
        evs = [e for e in o.events if e.kind == "call" and e.name == D_ + "Deserialize::deserialize"]
        if failed(o, evs):
            continue
        v = ok_of_(o)
        if v is None or len(evs) != 1:
            return "what is written is not read back"
        r = rebuilt(D, facts, subst(v, {payload(evs[0].res, "Ok"): fs[0][1]}), me)
        if r:
            return r
    return None


def by_order(ctx, D, g, facts, fs, me):
    s = ctx.summ(g.qual, None, "serde", fine=2)
    got = False
    for o in s.outs:
        evs = [e for e in o.events if e.kind == "call" and e.name == D_ + "SeqAccess::next_element"]
        if failed(o, evs):
            continue
        ran = [i for i, e in enumerate(evs) if o.facts.truth(mk_isv(payload(e.res, "Ok"), "None")) is True]
        if ran:
            if ran[0] < len(fs):
                continue                # fewer than were written
            return "%d fields are written, more are read" % len(fs)
        v = ok_of_(o)
        if v is None:
            return "what is written is not read back"
        if len(evs) != len(fs):
            return "%d fields are written, %d are read" % (len(fs), len(evs))
        m = {payload(payload(e.res, "Ok"), "Some"): x for e, (_, x) in zip(evs, fs)}
        r = rebuilt(D, facts, subst(v, m), me)
        if r:
            return r
        got = True
    return None if got else "what is written is never read back"


def by_name(ctx, D, g, fv, facts, fs, me):
    s = ctx.summ(g.qual, None, "serde", fine=2)
    if len(s.I.loops) != 1 or len(fv) != 1:
        return "the names are not gone through in one loop"
    L = next(iter(s.I.loops.values()))
    ids = {}
    for key, x in fs:
        i = ident(ctx, fv[0], key)
        if i is None or i == "__ignore":
            return "what is written as %s is not read by that name" % show(key)
        if i in ids:
            return "two fields are read by one name"
        ids[i] = x
    m = {}
    for lv, (init, steps) in L.vars.items():
        for v, sf in steps:
            if v is lv or not (v.op == "adt" and v.a[1] == "Some"):
                continue
            src = v.a[3][0]
            hit = [i for k, vs in sf.dom.items() if set(vs) <= set(ids) and len(vs) == 1 for i in vs]
            if init.op != "adt" or init.a[1] != "None" or len(hit) != 1 or not (src.op == "field" and src.a[0].op == "as" and src.a[0].a[0].op == "call"
                                                                                and src.a[0].a[0].a[0] == D_ + "MapAccess::next_value"):
                continue
            m[payload(lv, "Some")] = ids[hit[0]]
    got = False
    for o in s.outs:
        evs = [e for e in o.events if e.kind == "call" and e.name in (D_ + "MapAccess::next_key", D_ + "MapAccess::next_value")]
        if failed(o, evs):
            continue
        if any(o.facts.truth(mk_isv(k.a[0].a[0], "None")) is True for k in m):
            continue                    # a name that was not there
        if any(o.facts.truth(mk_isv(payload(e.res, "Ok"), "Some")) is True for e in evs if e.name.endswith("next_key")):
            if any(o.facts.truth(mk_isv(k.a[0].a[0], "Some")) is True for k in m):
                continue                # a name given twice
            return "what is written is not read back"
        v = ok_of_(o)
        if v is None:
            return "what is written is not read back"
        r = rebuilt(D, facts, subst(v, m), me)
        if r:
            return r
        got = True
    return None if got else "what is written is never read back"


def variant(ctx, D, en, fstr, fnum, facts, kind, num, name, fs, me):
    if len(en) != 1 or len(fstr) != 1 or len(fnum) != 1:
        return "it is not read back as one of several"
    i = ident(ctx, fstr[0], name)
    if i is None or i != ident(ctx, fnum[0], num):
        return "its name and its number are not taken for the same variant"
    s = ctx.summ(en[0].qual, None, "serde", fine=2)
    got = False
    for o in s.outs:
        evs = [e for e in o.events if e.kind == "call" and e.name.startswith(D_)]
        hd = [e for e in evs if e.name.endswith("EnumAccess::variant")]
        if len(hd) != 1:
            return "which variant it is is not read once"
        if failed(o, evs):
            continue
        if o.facts.truth(mk_isv(mk("field", payload(hd[0].res, "Ok"), "0"), i)) is not True:
            continue
        rest = [e for e in evs if e is not hd[0]]
        if len(rest) != 1 or not rest[0].name.endswith("VariantAccess::" + kind):
            return "it is written as a %s and read as something else" % kind.replace("_", " ")
        got = True
        if kind in ("struct_variant", "tuple_variant"):
            if o.val is not rest[0].res:
                return "what is written is not read back"
            continue
        v = ok_of_(o)
        if v is None:
            return "what is written is not read back"
        r = rebuilt(D, facts, subst(v, {payload(rest[0].res, "Ok"): fs[0][1]} if fs else {}), me)
        if r:
            return r
    return None if got else "what is written is never read back"
