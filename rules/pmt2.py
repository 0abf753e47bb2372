"""Patricia trie: proofs, the in-memory database, handles, storage errors."""
from pmt import *

MDB = "pmt::<db::MemoryDB as db::Database>::"


# ---------------------------------------------------------------- P12 in-memory database
def locks(o):
    return [e for e in o.events if e.kind == "lock"]


def muts(o):
    return [e for e in o.events if e.kind == "mut"]


def map_muts(o, g):
    """changes made to the map behind guard g"""
    r = []
    for e in muts(o):
        if contains(e.args[0], g):
            r.append(e)
    return r


def plain(s):
    return [mk("arg", i, s.fn.locals[i + 1]["n"]) for i in range(s.fn.argc)]


def memdb_case(s, o, m, a):
    f = o.facts
    selfv = a[0]
    store = mk("field", selfv, "storage")
    ls = locks(o)
    if is_err(o):
        return "fails: %s" % show(o.val)[:100]
    light = mk("field", selfv, "light")
    if m == "flush" or m == "remove" and f.truth(light) is False:
        return None if not muts(o) else "changes the contents"
    if m == "remove" and f.truth(light) is not True:
        return "does not depend on the pruning mode"
    if len(ls) != 1:
        return "takes the lock %d times in one operation" % len(ls)
    e = ls[0]
    g = e.res
    if e.args[0] is not store:
        return "locks %s instead of the shared map" % show(e.args[0])[:100]
    ms = map_muts(o, g)
    v = okval(o)
    if m in ("insert", "remove"):
        if e.name != "write":
            return "changes the map under a read lock"
        if len(ms) != 1 or ms[0].name != m:
            return "does not %s exactly once: %s" % (m, [x.name for x in ms])
        if not same(f, ms[0].args[1], a[1]):
            return "%ss under key %s" % (m, show(ms[0].args[1])[:100])
        if m == "insert" and not same(f, ms[0].args[2], a[2]):
            return "stores %s" % show(ms[0].args[2])[:100]
        return None
    if ms:
        return "a query changes the map"
    if m == "get":
        want = mk("call", "get", g, a[1])
        for some in (True, False):
            f1 = f.assume(mk_isv(want, "Some"), some)
            if f1 is None:
                continue
            w = Some(payload(want, "Some")) if some else NONE
            if not same(f1, v, w) and not same(f1, v, want):
                return "returns %s when the key is %s" % (show(v)[:120], "present" if some else "absent")
        return None
    n = mk("call", "len", g)
    if m == "len":
        return None if same(f, v, n) else "returns %s" % show(v)[:100]
    if m == "is_empty":
        for e0 in (True, False):
            f1 = f.assume(mk_eq(n, INT0), e0)
            if f1 is not None and f1.truth(v) is not e0:
                return "answers %s when the map is %sempty" % (show(v)[:100], "" if e0 else "not ")
        return None
    if m == "values":
        if v is g:
            return None
        b = seq_body(v)
        if b is None or b[0] is not g or len(b[1]) != 1 or b[1][0][0]:
            return "lists %s" % show(v)[:160]
        e = b[1][0][1]
        if e.op == "tuple" and all(x.op == "field" and x.a[1] == str(i) and x.a[0].op == "elem" and x.a[0].a[0] is g for i, x in enumerate(e.a[0] if isinstance(e.a[0], tuple) else e.a)):
            return None
        if e.op == "elem" and e.a[0] is g:
            return None
        return "lists %s for each entry" % show(e)[:160]
    return "unknown operation"


def check_memdb(ctx, ops=("get", "insert", "remove", "len", "is_empty", "values", "flush"), rid="memdb"):
    ctx.rule(rid, "each operation of the in-memory database takes the map's lock exactly once and performs exactly its map operation under it: a read "
             "returns the entry for the whole key, an insertion stores the value under the key, removal drops the key in light mode only, listing and "
             "counting describe the map; none fails or panics")
    for m in ops:
        s = ctx.summ(MDB + m, None, "memdb", fine=True)
        a = plain(s)
        n = 0
        for o in s.outs:
            if o.kind == "panic":
                ctx.ob(rid, s.fn.qual, False, m + " can panic", "panic")
                continue
            n += 1
            p = memdb_case(s, o, m, a)
            ctx.ob(rid, s.fn.qual, p is None, "%s: %s" % (m, p), "%s:%s" % (m, p))
        ctx.floor(rid, s.fn.qual, n, 1, "outcomes")
        if m == "remove":
            kinds = {o.facts.truth(mk("field", a[0], "light")) for o in s.rets}
            ctx.ob(rid, s.fn.qual, kinds == {True, False}, "removal does not distinguish the modes", "modes")
    s = ctx.summ("pmt::db::MemoryDB::new", None, "memdb", fine=True)
    a = plain(s)
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob(rid, s.fn.qual, False, "new can panic", "panic")
            continue
        ctx.ob(rid, s.fn.qual, proj(o.val, "light") is a[0] and proj(o.val, "storage") is mk("call", "lock_new", EMPTY),
               "a new database is %s" % show(o.val)[:100], "new")


def check_db(ctx):
    check_memdb(ctx)
    ctx.rule("batch", "the default batch operations of the storage trait apply the single operation to every element, in order, each key with the value at "
             "its position, and stop with the error of the first failure")
    batch_rows(ctx)
    # every other way to reach the map: only the functions above (and their helpers) touch the shared storage
    ctx.rule("owner", "the map and its lock are reachable only through the operations above: no other function of the crate reads the storage field")
    d = ctx.db("pmt")
    allowed = set()
    for m in ("get", "insert", "remove", "len", "is_empty", "values", "flush"):
        allowed |= ctx.summ(MDB + m, None, "memdb", fine=True).I.visited
    allowed |= ctx.summ("pmt::db::MemoryDB::new", None, "memdb", fine=True).I.visited
    n = 0
    for q, f in d.by_path.items():
        if f.crate != "pmt" or f.derived or f.id in allowed or not hasattr(f, "blocks"):
            continue
        if f.kind not in ("fn", "method", "closure") and not f.blocks:
            continue
        n += 1
        if any(is_dbop(f) and f.impl_trait == DBT and f.name == x for x in ("insert_batch", "remove_batch")):
            continue
        bad = touches_lock(f)
        ctx.ob("owner", f.qual, not bad, "takes the lock of a shared map: %s" % bad, "lock")
    ctx.floor("owner", "crate", n, 20, "functions")


def touches_lock(f):
    for b in f.blocks:
        for x in callee_paths(b):
            if "lock_api::" in x or "RwLock" in x or "Mutex" in x:
                return x
    return None


def callee_paths(o):
    if isinstance(o, dict):
        if isinstance(o.get("p"), str) and ("ga" in o):
            yield o["p"]
        for v in o.values():
            if isinstance(v, (dict, list)):
                yield from callee_paths(v)
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                yield from callee_paths(v)


# ---------------------------------------------------------------- P01 proof verification
def check_verify(ctx):
    ctx.rule("intake", "every proof element that could be referenced (the one whose hash is the root, and all of 32 bytes or more) is stored under its own keccak "
             "hash, in a database created in the call; nothing else is stored there, and every element is looked at")
    ctx.rule("verify", "the answer is that of the lookup walk from the given root hash over that database alone, for the full path of the key; any error becomes "
             "the invalid-proof error; no path panics")
    check_lookup(ctx)
    check_memdb(ctx, ("get", "insert"))
    fs = walker(ctx, "get")
    op = vocab(ctx, lambda g: g in fs or is_dbop(g))
    s = ctx.summ(TRIE + "verify_proof", op, "vp", fine=True)
    verify_rows(ctx, s, fs)


def memins(e):
    return e.kind == "call" and e.name.endswith("Database>::insert") or e.kind == "call" and e.name == INS1


def fresh_db(t):
    """a database value that is empty when made"""
    return t.op == "adt" and t.a[0].endswith("MemoryDB") and proj(t, "storage") is mk("call", "lock_new", EMPTY)


def verify_rows(ctx, s, fs):
    q = s.fn.qual
    selfv, root, key, proof = plain(s)
    dbs = set()
    n_in = 0
    for L in s.I.loops.values():
        for b in L.backs:
            es = [e for e in evlist_since(b, L) if memins(e)]
            el = None
            if not any(seq_covers(unfilter(v), proof, s.I) for v in loop_sources(L)):
                ctx.ob("intake", q, not es, "elements of something else than the proof are stored", "src")
                continue
            f = b.facts
            if es:
                n_in += 1
                for e in es:
                    k, v = e.res.a[2], e.res.a[3]
                    ok = at_pos(v, proof, L.id) and same(f, k, mk("field", mk("call", "keccak", v), "0"))
                    ctx.ob("intake", q, ok, "stores %s under %s" % (show(v)[:80], show(k)[:80]), "auth")
                    ctx.ob("intake", q, fresh_db(e.res.a[1]), "stores elements in %s" % show(e.res.a[1])[:80], "db")
                    dbs.add(e.res.a[1])
                    ctx.ob("intake", q, f.truth(mk_isv(e.res, "Ok")) is not False, "carries on although an element could not be stored", "fail")
            else:
                els = [t for t in elems_at(proof, L)]
                ok = False
                for t in els:
                    if entails(f, mk_lt(ln(t), Int(32))) and f.truth(mk_eq(root, mk("call", "keccak", t))) is False:
                        ok = True
                ctx.ob("intake", q, ok, "an element that the path may need is not taken: %s" % "; ".join(f.list())[:200], "skip")
        for t, f in s.I.rejects.get(str(L.id), ()):
            ok = any(entails(f, mk_lt(ln(t), Int(32))) and f.truth(mk_eq(root, mk("call", "keccak", t))) is False for t in elems_at(proof, L))
            ctx.ob("intake", q, ok, "an element that the path may need is filtered out: %s" % "; ".join(f.list())[:200], "skip")
    ctx.floor("intake", q, n_in, 1, "storing paths")
    n = 0
    for o in s.outs:
        f = o.facts
        if o.kind == "panic":
            es = [e for e in o.events if memins(e)]
            # the in-memory database never fails (rule memdb): a panic that needs its failure is unreachable
            ok = bool(es) and f.truth(mk_isv(es[-1].res, "Ok")) is False and fresh_db(es[-1].res.a[1])
            ctx.ob("verify", q, ok, "verification can panic", "panic")
            continue
        if any(memins(e) for e in o.events):
            ok = False
            for e in o.events:
                if memins(e) and f.truth(mk_isv(e.res, "Ok")) is False and is_err(o):
                    ok = True
            ctx.ob("verify", q, ok, "answers before every element was taken", "early")
            continue
        c = [e.res for e in o.events if e.kind == "call" and e.name in [g.path for g in fs]]
        if len(c) != 1:
            ctx.ob("verify", q, False, "does not walk the proof exactly once: returns %s" % show(o.val)[:100], "walk")
            continue
        c = c[0]
        n += 1
        done = any(exhausted(s.I, f, l, proof) or ran_out(s.I, f, l, proof) for l in s.I.loops)
        ctx.ob("verify", q, done, "answers before every element was taken", "early")
        start = mk("adt", NODE, "Hash", ("0",), (mk("adt", "node::HashNode", "HashNode", ("hash",), (root,)),))
        p = entry_call(ctx, s, fs, f, c, start, key)
        g = [x for x in fs if x.path == c.a[0]][0]
        h = [a for (i, nm, ty), a in zip(params(g), c.a[1:]) if role_of(ty) == "self"]
        if not p and h:
            if proj(h[0], "db") not in dbs:
                p = "walks over %s instead of the proof's elements" % show(proj(h[0], "db"))[:100]
            elif contains(h[0], selfv):
                p = "the walk sees the trie on which verification is called"
        for okc in (True, False):
            f1 = f.assume(mk_isv(c, "Ok"), okc)
            if f1 is None or p:
                continue
            if okc:
                p = None if same(f1, o.val, c) or same(f1, o.val, interp.Ok(payload(c, "Ok"))) else "answers %s" % show(o.val)[:120]
            else:
                v = o.val
                p = None if is_err(o) and v.op == "adt" and v.a[3][0].op == "adt" and v.a[3][0].a[1] == "InvalidProof" \
                    else "a failing walk becomes %s" % show(v)[:120]
        ctx.ob("verify", q, p is None, str(p), "answer")
    ctx.floor("verify", q, n, 2, "outcomes")


def unfilter(v):
    """the sequence behind filters and maps (what the filters refuse is recorded with the loop)"""
    while v.op == "it" and v.a[0] in ("filter", "map", "inspect"):
        v = v.a[1]
    return v


def ran_out(I, f, lid, src):
    return any(k.op == "more" and v is False and str(k.a[1]).split("~")[0] == str(lid) and seq_covers(unfilter(k.a[0]), src, I) for k, v in f.d.items())


def loop_sources(L):
    for lv, (init, steps) in L.vars.items():
        if lv.op == "itv" or lv.op == "ind":
            yield init
    return


def elems_at(seq, L):
    yield mk("elem", seq, L.id)
    for lv in L.vars:
        if lv.op == "ind":
            yield lib_I.proj(seq, ("i", lv))


# ---------------------------------------------------------------- P07 proof generation
def seqdesc(v):
    """a sequence as segments: ("node", x) for single elements, ("seq", s, reversed)"""
    if v.op == "push":
        return seqdesc(v.a[0]) + [("node", v.a[1])]
    if v is EMPTY or v.op == "empty":
        return []
    if v.op == "arr":
        return [("node", x) for x in v.a[0]]
    if v.op == "append":
        return seqdesc(v.a[0]) + seqdesc(v.a[1])
    if v.op in ("reversed",) or v.op == "it" and v.a[0] == "rev":
        return flip(seqdesc(v.a[-1]))
    if v.op == "it" and v.a[0] == "chain":
        return seqdesc(v.a[1]) + seqdesc(v.a[2])
    if v.op == "ins" and len(v.a) == 3 and v.a[1] is INT0:
        return [("node", v.a[2])] + seqdesc(v.a[0])
    return [("seq", v, False)]


def flip(d):
    return [x if x[0] == "node" else ("seq", x[1], not x[2]) for x in d[::-1]]


def elem_of_seq(x, L, cands):
    """x = element of one of `cands` at the loop's position, from the front or from the back -> description of the visited sequence"""
    if x.op == "elem" and str(x.a[1]) == str(L.id):
        return seqdesc(x.a[0]), x.a[0]
    if x.op == "idx":
        s, i = x.a
        if i.op == "ind" and str(i.a[0]) == str(L.id) and i.a[1] is INT0:
            return seqdesc(s), s
        if i is sub(sub(ln(s), INT1), mk("ind", L.id, INT0)):
            return flip(seqdesc(s)), s
    # popped from the end until nothing is left
    if x.op == "field" and x.a[0].op == "as" and x.a[0].a[0].op in ("call", "last"):
        t = x.a[0].a[0]
        lv = t.a[-1]
        if (t.op == "last" or t.a[0] == "last") and lv in L.vars:
            init, steps = L.vars[lv]
            if all(y.op in ("popped", "call") and y.a[-1] is lv and (y.op == "popped" or y.a[0] == "popped") for y, _ in steps):
                return flip(seqdesc(init)), t
    return None, None


def encoded_list(s, f, v, encs, depth=0):
    """v is the list of encodings of these nodes -> (segments, problem)"""
    if v.op == "push":
        d, p = encoded_list(s, f, v.a[0], encs, depth)
        if p:
            return None, p
        n = enc_node(s, v.a[1], encs)
        return (d + [("node", n)], None) if n is not None else (None, "contains %s" % show(v.a[1])[:120])
    if v is EMPTY or v.op == "empty":
        return [], None
    if v.op == "arr":
        r = []
        for x in v.a[0]:
            n = enc_node(s, x, encs)
            if n is None:
                return None, "contains %s" % show(x)[:120]
            r.append(("node", n))
        return r, None
    if v.op in ("reversed",) or v.op == "it" and v.a[0] == "rev":
        d, p = encoded_list(s, f, v.a[-1], encs, depth)
        return (flip(d), None) if not p else (None, p)
    if v.op == "append":
        d, p = encoded_list(s, f, v.a[0], encs, depth)
        e, q = encoded_list(s, f, v.a[1], encs, depth)
        return (d + e, None) if not (p or q) else (None, p or q)
    L = loop_of(s.I, v)
    if L is not None and v.op == "lv" and v in L.vars:
        init, steps = L.vars[v]
        d, p = encoded_list(s, f, init, encs, depth + 1)
        if p:
            return None, p
        got = None
        for x, g in steps:
            if x.op != "push" or x.a[0] is not v:
                return None, "a step of the loop makes %s" % show(x)[:120]
            n = enc_node(s, x.a[1], encs)
            if n is None:
                return None, "contains %s" % show(x.a[1])[:120]
            e, src = elem_of_seq(n, L, ())
            if e is None:
                return None, "encodes %s" % show(n)[:160]
            if got not in (None, e):
                return None, "the steps of the loop differ"
            got = e
            if not exhausted_any(s.I, f, L.id, src):
                return None, "the list may end early"
        if got is None:
            return None, "empty loop"
        return d + got, None
    return None, "is %s" % show(v)[:160]


def exhausted_any(I, f, lid, src):
    if exhausted(I, f, lid, src):
        return True
    if src.op in ("call", "last") and f.truth(mk_isv(src, "Some")) is False:
        return True
    for k, v in f.d.items():
        if k.op == "more" and v is False and str(k.a[1]).split("~")[0] == str(lid):
            t = k.a[0]
            while t.op == "it" and t.a[0] in ("map", "rev", "enumerate", "inspect"):
                t = t.a[1]
            if t is src:
                return True
    return False


def enc_node(s, x, encs):
    if x.op == "call" and x.a[0] in encs:
        g = encs[x.a[0]]
        for (i, nm, ty), a in zip(params(g), x.a[1:]):
            if role_of(ty) == "node":
                return a
    return None


def check_prove(ctx):
    ctx.rule("path", "the path walk returns nothing at an empty node, a leaf, the end of the path in a branch and a mismatched extension, continues below a branch by the "
             "next digit and below a matched extension, and adds exactly the decoded node where it passes a hash reference; failures are errors")
    ctx.rule("proof", "the proof is the root's encoding (unless the root is itself a reference, whose node the path walk already gave) followed by the path's "
             "nodes from the root down, each encoded by the node encoder; a missing node is reported with the key; nothing but collected encodings changes")
    wr, enc = writer_encoder(ctx)
    encs = {e.path: e for e in enc}
    ent = ctx.fn(TRIE + "get_proof")
    fs = [f for f in recursive_fns(ctx, ent, heads_only=True) if f not in wr and f not in enc and any(role_of(t) == "path" for _, _, t in params(f))]
    ctx.floor("path", "get_proof", len(fs), 1, "recursive walkers")
    orient = set()
    for fn in fs:
        w = Walk(ctx, fn)
        path_rows(ctx, w, orient)
    if len(orient) != 1:
        ctx.ob("path", "get_proof", False, "the order in which the path is collected is not determined", "order")
        return
    deepest_first = orient.pop()
    op = vocab(ctx, lambda g: g in fs or is_dbop(g) or g in wr or g in enc)
    s = ctx.summ(ent, op, "gp", fine=True)
    proof_rows(ctx, s, fs, encs, wr, deepest_first)
    for g in wr:
        writer_rows(ctx, ctx.summ(g, op, "gp", fine=True), enc)


def path_rows(ctx, w, orient):
    n = w.node

    def nothing(o, f):
        v = okval(o) if not is_err(o) else None
        if v is not None and (v is EMPTY or v.op == "empty" or v.op == "arr" and not v.a[0]):
            return None
        return "returns %s instead of an empty list" % show(o.val)[:160]

    def found(o, f, d):
        c = [e.res for e in o.events if e.kind == "call" and e.name == w.fn.path]
        if len(c) != 1:
            return "does not continue below the node exactly once"
        c = c[0]
        p = w.rec(f, c, d, INT0)
        if p:
            return p
        if is_err(o):
            if f.truth(mk_isv(c, "Ok")) is True:
                return "fails although the walk below succeeds"
            return None if same(f, o.val, interp.Err(payload(c, "Err"))) or o.val is c else "an error below becomes %s" % show(o.val)[:120]
        if f.truth(mk_isv(c, "Ok")) is not True:
            return "an error below is ignored"
        got = seqdesc(okval(o))
        r = ("seq", payload(c, "Ok"), False)
        if len(got) == 2 and got[0] == r and got[1][0] == "node" and same(f, got[1][1], d):
            orient.add(True)
            return None
        if len(got) == 2 and got[1] == r and got[0][0] == "node" and same(f, got[0][1], d):
            orient.add(False)
            return None
        return "returns %s instead of the path below together with the node" % show(o.val)[:200]
    rows = [
        Row("Empty", [variant(n, "Empty")], nothing),
        Row("Leaf", [variant(n, "Leaf")], nothing),
        Row("Extension/full prefix", w.ext_hit(True), lambda o, f: w.rec(f, o.val, mk("field", body(n, "Extension"), "node"), w.ext_len)),
        Row("Extension/mismatch", w.ext_hit(False), nothing),
    ]
    rows += w.branch_rows(nothing, lambda o, f: w.rec(f, o.val, w.child_at(), INT1))
    rows += w.hash_rows(found)
    table(ctx, "path", w.s, rows)


def proof_rows(ctx, s, fs, encs, wr, deepest_first):
    q = s.fn.qual
    selfv, key = plain(s)
    root = mk("field", selfv, "root")
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("proof", q, False, "get_proof can panic", "panic")
            continue
        f = o.facts
        es = db_events(o)
        ctx.ob("proof", q, not [e for e in es if not e.name.endswith("::get")], "changes storage", "store")
        c = [e.res for e in o.events if e.kind == "call" and e.name in [g.path for g in fs]]
        if len(c) != 1:
            ctx.ob("proof", q, False, "does not walk the path exactly once", "walk")
            continue
        c = c[0]
        p = entry_call(ctx, s, fs, f, c, root, key)
        fin = final(o, selfv)
        for k in ("root", "root_hash", "db", PEND):
            if not p and not through_all(s.I, proj(fin, k), mk("field", selfv, k), k, set(encs) | {w.path for w in wr}):
                p = "changes the handle's %s" % k
        for k in ("cache", "gen_keys"):
            if not p and not through_all(s.I, proj(fin, k), mk("field", selfv, k), k, set(encs) | {w.path for w in wr}):
                p = "changes the handle's %s other than by encoding" % k
        for okc in (True, False):
            f1 = f.assume(mk_isv(c, "Ok"), okc)
            if f1 is None or p:
                continue
            n += 1
            if not okc:
                p = None if same(f1, o.val, c) and f1.truth(mk_isv(payload(c, "Err"), "MissingTrieNode")) is False else key_error(f1, o.val, c, key)
                continue
            if is_err(o):
                p = "fails although the path was found"
                continue
            got, p = encoded_list(s, f1, okval(o), encs)
            if p:
                p = "the proof " + p
                continue
            seg = ("seq", payload(c, "Ok"), deepest_first)
            for h in ("Hash", "Empty", None):
                f2 = f1.assume(mk_isv(root, h), True) if h else f1.assume(mk_isv(root, "Hash"), False)
                if h is None and f2 is not None:
                    f2 = f2.assume(mk_isv(root, "Empty"), False)
                if f2 is None or p or h == "Empty":
                    continue
                want = [seg] if h == "Hash" else [("node", root), seg]
                ok = len(got) == len(want) and all(a[0] == b[0] and (same(f2, a[1], b[1]) if a[0] == "node" else a[1:] == b[1:]) for a, b in zip(got, want))
                if not ok:
                    p = "the proof lists %s" % "; ".join("%s%s" % (show(a[1])[:80], " reversed" if a[0] == "seq" and a[2] else "") for a in got)
        ctx.ob("proof", q, p is None, str(p), "proof:%s" % str(p)[:60])
    ctx.floor("proof", q, n, 3, "outcomes")


def through_all(I, v, base, name, fns):
    """the field changed only through calls of `fns`"""
    if v is base:
        return True
    if v.op == "field" and v.a[1] == name and v.a[0].op == "eff" and v.a[0].a[0] in fns:
        return through_all(I, proj(eff_self(v.a[0]), name), base, name, fns)
    if v.op == "field" and v.a[1] == name and v.a[0].op == "lv":
        L = loop_of(I, v.a[0])
        if L is None:
            return False
        init, steps = L.vars[v.a[0]]
        return all(through_h(I, x, v.a[0], fns) for x, _ in steps) and through_all(I, proj(init, name), base, name, fns)
    return False


def through_h(I, h, base, fns):
    while h.op == "eff" and h.a[0] in fns:
        h = eff_self(h)
    if h is base:
        return True
    if h.op == "lv":
        L = loop_of(I, h)
        init, steps = L.vars[h]
        return all(through_h(I, x, h, fns) for x, _ in steps) and through_h(I, init, base, fns)
    return False
