"""Patricia trie: storage failures (P13)."""
import lib
from pmt import *

OPS = ("get", "contains", "insert", "remove", "root_hash", "commit", "get_proof")


def fallible(f):
    t = retty(f)
    return isinstance(t, dict) and t.get("k") == "adt" and t["p"] == interp.RES


def check_errors(ctx):
    ctx.rule("seen", "on every path the result of each storage call, and of each step of a walk, is either known to be a success or returned as the call's own result")
    ctx.rule("reported", "a path on which one of them failed returns that failure: a database error as such, a walk's error as it is (a missing node may be re-labelled with the key)")
    ctx.rule("missing", "a path on which storage does not have a node returns the missing-node error for that node's hash")
    ctx.rule("nopanic", "no path panics after a failure")
    d = ctx.db("pmt")
    fs = {}
    for op in OPS:
        e = ctx.fn(TRIE + op)
        fs[e.id] = e
        for f in recursive_fns(ctx, e):
            fs[f.id] = f
    walkers = set(fs)
    base = vocab(ctx, lambda g: g.id in walkers, is_dbop)

    def op(g):
        return base(g)
    op.dropself = getattr(base, "dropself", set())
    for f in d.by_path.values():
        if f.crate == "pmt" and f.path.startswith(DBT + "::") and f.blocks:
            fs[f.id] = f
    seen = 0
    for f in sorted(fs.values(), key=lambda x: x.qual):
        s = ctx.summ(f, op, "errs", fine=True)
        seen += storage_paths(ctx, s, d)
    ctx.floor("seen", "crate", seen, 12, "failing paths")


def sources(ctx, evs, d):
    r = []
    for e in evs:
        if e.kind != "call" or e.res is None:
            continue
        if e.name.startswith(DBT + "::"):
            if e.name.split("::")[-1] in ("get", "insert", "remove", "insert_batch", "remove_batch", "flush", "len", "is_empty", "keys", "values"):
                r.append((e, True))
            continue
        g = d.by_path.get("pmt::" + e.name) or next((x for x in d.by_path.values() if x.path == e.name and x.crate == "pmt"), None)
        if g is not None and fallible(g) and any(tyis(t, "inner::InnerTrie") for _, _, t in params(g)):
            r.append((e, False))
    return r


def storage_paths(ctx, s, d):
    w = s.fn.qual
    n = 0
    trait = s.fn.path.startswith(DBT + "::")
    for o in s.outs:
        f = o.facts
        for e, isdb in sources(ctx, o.events, d):
            nm = e.name.split("::")[-1]
            t = f.truth(mk_isv(e.res, "Ok"))
            if t is True:
                if isdb and nm == "get":
                    g = payload(e.res, "Ok")
                    if f.truth(mk_isv(g, "Some")) is False:
                        n += 1
                        ctx.ob("missing", w, missing_err(o, f, e), "%s yields %s where storage lacks the node" % (nm, shown(o)), "missing:" + nm)
                    elif f.truth(mk_isv(g, "Some")) is None and not trait:
                        ctx.ob("missing", w, False, "does not look whether storage has the node: %s" % shown(o), "missing?:" + nm)
                continue
            if o.kind == "panic":
                ctx.ob("nopanic", w, t is None, "panics when %s fails" % nm, "panic:" + nm)
                continue
            n += 1
            if t is None:
                ctx.ob("seen", w, o.val is e.res, "the result of %s is not looked at: %s" % (nm, shown(o)), "seen:" + nm)
                continue
            ctx.ob("reported", w, reported(o, f, e, isdb and not trait), "when %s fails: %s" % (nm, shown(o)), "failed:" + nm)
    for L in s.I.loops.values():
        for b in L.backs:
            for e, isdb in sources(ctx, since(b, L), d):
                nm = e.name.split("::")[-1]
                n += 1
                ctx.ob("seen", w, b.facts.truth(mk_isv(e.res, "Ok")) is True, "the loop goes on although %s may have failed" % nm, "loop:" + nm)
    return n


def since(b, L):
    r = []
    e = b.ev
    while e is not None and e is not L.head_ev:
        r.append(e)
        e = e.prev
    return r


def shown(o):
    return o.kind if o.val is None else "returns %s" % show(o.val)[:160]


def reported(o, f, e, wrap):
    v = o.val
    if v is e.res:
        return not wrap
    x = payload(e.res, "Err")
    if v is None or v.op != "adt" or v.a[1] != "Err":
        return v is not None and f.truth(mk_isv(v, "Err")) is True and v is e.res
    y = v.a[3][0]
    if wrap:
        return y.op == "adt" and y.a[1] == "Database"
    if same(f, y, x):
        return True
    if y.op == "adt" and y.a[1] == "MissingTrieNode" and f.truth(mk_isv(x, "MissingTrieNode")) is True:
        d = dict(zip(y.a[2], y.a[3]))
        return all(same(f, d[k], mk("field", mk("as", x, "MissingTrieNode"), k)) for k in ("node_hash", "traversed", "root_hash"))
    return False


def missing_err(o, f, e):
    v = o.val
    if o.kind != "ret" or v.op != "adt" or v.a[1] != "Err" or v.a[3][0].op != "adt" or v.a[3][0].a[1] != "MissingTrieNode":
        return False
    h = dict(zip(v.a[3][0].a[2], v.a[3][0].a[3]))["node_hash"]
    return any(a is k or same(f, a, k) for a in e.res.a[1:] for k in [hbytes(h)] + ([] if h.op == "adt" else [mk("field", h, "0")]))


# ---------------------------------------------------------------- what a missing-node error says (P15)
KEYED = ("get", "insert", "remove", "get_proof")


def check_labels(ctx):
    ctx.rule("names", "a missing-node error names the node that storage was asked for, the root of the trie (or, after a commit, the root that was just written), and, where it says how far the key was followed, the key's nibbles down to that node")
    ctx.rule("keyed", "a lookup, insertion, removal or proof that fails for a missing node says for which key, and passes on the rest as it was found")
    d = ctx.db("pmt")
    fs = {}
    for op in OPS:
        e = ctx.fn(TRIE + op)
        fs[e.id] = e
        for f in recursive_fns(ctx, e):
            fs[f.id] = f
    walkers = set(fs)
    base = vocab(ctx, lambda g: g.id in walkers, is_dbop)

    def op(g):
        return base(g)
    op.dropself = getattr(base, "dropself", set())
    n = {"names": 0, "keyed": 0}
    for f in sorted(fs.values(), key=lambda x: x.qual):
        s = ctx.summ(f, op, "errs", fine=True)
        a = [mk("arg", i, f.locals[i + 1]["n"]) for i in range(f.argc)]
        keyed = f.qual in [ctx.fn(TRIE + k).qual for k in KEYED]
        for o in s.outs:
            v = o.val
            if v is None or o.kind != "ret":
                continue
            y = v.a[3][0] if v.op == "adt" and v.a[1] == "Err" else None
            if v.op == "upd":
                # written into
                g = o.facts.assume(mk_isv(v, "Err"), True)
                if g is None:
                    continue
                src = v
                while src.op == "upd":
                    src = src.a[0]
                src = payload(src, "Err")
                got = {k: lib._PI.proj(lib._PI.proj(lib._PI.proj(lib._PI.proj(v, ("v", "Err")), ("f", "0")), ("v", "MissingTrieNode")), ("f", k)) for k in ("node_hash", "traversed", "root_hash", "err_key")}
                ok = o.facts.truth(mk_isv(src, "MissingTrieNode")) is True and all(same(o.facts, got[k], mk("field", mk("as", src, "MissingTrieNode"), k)) for k in ("node_hash", "traversed", "root_hash"))
                ctx.ob("keyed", f.qual, ok, "changes what the error says: %s" % show(v)[:200], "rest")
                if keyed:
                    n["keyed"] += 1
                    ctx.ob("keyed", f.qual, same(o.facts, got["err_key"], Some(a[1])), "says that the key is %s" % show(got["err_key"])[:100], "key")
                continue
            if y is not None and y.op == "adt" and y.a[1] == "MissingTrieNode":
                h = dict(zip(y.a[2], y.a[3]))
                src = h["node_hash"].a[0].a[0] if h["node_hash"].op == "field" and h["node_hash"].a[0].op == "as" and h["node_hash"].a[0].a[1] == "MissingTrieNode" else None
                if src is None:
                    n["names"] += 1
                    got = [e for e in o.events if e.kind == "call" and e.res is not None and e.name.endswith("::get") and e.name.startswith(DBT) and o.facts.truth(mk_isv(payload(e.res, "Ok"), "Some")) is False]
                    ctx.ob("names", f.qual, bool(got) and all(missing_err(o, o.facts, e) for e in got[-1:]), "names the node %s" % show(h["node_hash"])[:120], "node")
                    ok = same(o.facts, h["root_hash"], Some(proj(final(o, a[0]), "root_hash")))
                    ctx.ob("names", f.qual, ok, "names the root %s" % show(h["root_hash"])[:120], "root")
                    ok = h["traversed"] is NONE or any(so_far(h["traversed"], p, i) for p in a for i in a + [INT0])
                    ctx.ob("names", f.qual, ok, "says that it came by %s" % show(h["traversed"])[:160], "path")
                else:
                    ok = all(same(o.facts, h[k], mk("field", mk("as", src, "MissingTrieNode"), k)) for k in ("node_hash", "traversed", "root_hash"))
                    ctx.ob("keyed", f.qual, ok, "changes what the error says: %s" % show(y)[:200], "rest")
                if keyed:
                    n["keyed"] += 1
                    k = h["err_key"]
                    ok = k is Some(a[1]) or k.op == "adt" and k.a[1] == "Some" and any(same(o.facts, k.a[3][0], x) for x in [a[1]])
                    ctx.ob("keyed", f.qual, ok, "says that the key is %s" % show(k)[:100], "key")
                continue
            if not keyed:
                continue
            # an error handed on as it is must not be one for a missing node
            x = payload(v, "Err") if y is None else y
            if y is None and (v.op == "adt" or o.facts.truth(mk_isv(v, "Err")) is False) or x.op == "adt":
                continue
            ctx.ob("keyed", f.qual, o.facts.truth(mk_isv(x, "MissingTrieNode")) is False, "hands on %s, which may be for a missing node, without the key" % show(x)[:140], "bare")
    ctx.floor("names", "crate", n["names"], 5, "missing-node errors")
    ctx.floor("keyed", "crate", n["keyed"], 4, "keyed missing-node errors")


def so_far(t, path, i):
    if t.op != "adt" or t.a[1] != "Some" or t.a[3][0].op != "adt":
        return False
    x = proj(t.a[3][0], "hex_data")
    return x.op in ("slice", "trunc") and x.a[0] is mk("field", path, "hex_data") and (x.a[1:] in ((INT0, i), (i,)))
