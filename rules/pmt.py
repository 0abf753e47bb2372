"""Patricia trie: reading, verifying, proving, inserting, removing, committing."""
from pmtlib import *

ERR = "error::TrieError"
GET = "db::Database::get"


def errv(variant, names, *vals):
    return interp.Err(mk("adt", ERR, variant, names, tuple(vals)))


def hexof(nib):
    """hex digits of a path value"""
    if nib.op == "adt" and nib.a[0].endswith("Nibbles"):
        return nib.a[3][0]
    return mk("field", nib, "hex_data")


def nib(h):
    """canonical path value with the given digits"""
    if h.op == "field" and h.a[1] == "hex_data":
        return [h.a[0], mk("adt", "nibbles::Nibbles", "Nibbles", ("hex_data",), (h,))]
    return [mk("adt", "nibbles::Nibbles", "Nibbles", ("hex_data",), (h,))]


def ln(v):
    return lib_I.length(v)


lib_I = Interp.__new__(Interp)


def call(fn, **by):
    """call term of `fn` with arguments by role"""
    args = []
    for i, nm, ty in params(fn):
        args.append(by[role_of(ty)])
    return mk("call", fn.path, *args)


def role_of(ty):
    if tyis(ty, NODE):
        return "node"
    if tyis(ty, "nibbles::Nibbles"):
        return "path"
    if tyis(ty, "inner::InnerTrie"):
        return "self"
    if isbytes(ty):
        return "bytes"
    if isinstance(ty, dict) and ty.get("s") == "usize":
        return "idx"
    return "other"


def argterms(fn):
    r = {}
    for i, nm, ty in params(fn):
        r.setdefault(role_of(ty), mk("arg", i, nm or "a%d" % i))
    return r


def lcp(a, b):
    """common prefix length of two digit strings, in both spellings"""
    r = []
    for x in nib(a):
        for y in nib(b):
            r.append(mk("call", "nibbles::Nibbles::common_prefix", x, y))
            r.append(mk("call", "nibbles::Nibbles::common_prefix", y, x))
    return r


def hbytes(h):
    return [mk("field", h, "0")]


def dbget(db, h):
    return [mk("call", GET, db, k) for k in hbytes(h)]


def variant(node, v):
    return (mk_isv(node, v), True)


VARS = ("Empty", "Leaf", "Extension", "Branch", "Hash")


def body(node, v):
    return mk("field", mk("as", node, v), "0")


def all_of(atoms, val):
    return [(a, val) for a in atoms]


def as_recursion(ctx, fn, opaque, fine):
    """a walker that goes down in a loop of its own, read as one that calls itself for the next round; None when it has no such loop"""
    fn.cfg
    loops = fn.cfg.loops
    outer = [h for h in loops if not any(h in loops[g] for g in loops if g != h)]
    if len(outer) != 1 or len(loops) != 1:
        return None
    ps = {role_of(t): mk("arg", i, nm or "a%d" % i) for i, nm, t in params(fn)}
    I = Interp(ctx.db("pmt"), opaque=opaque, fine=fine)
    I.once = lambda fr: fr.fn is fn
    outs = []
    for o in I.run(fn, None):
        if o.kind != "back":
            outs.append(o)
            continue
        if o.info is None:
            return None
        fid, live, head = o.info
        roots = [r for r in head.mem if r.op == "L" and r.a[0] == fid and r.a[1] in live and r in o.st.mem]
        m = {}
        for role in ("node", "idx"):
            t = ps.get(role)
            for r in roots:
                v = o.st.mem[r]
                if t is not None and head.mem[r] is t and v is not t:
                    if m.get(t, v) is not v:
                        return None
                    m[t] = v
        if not m or any(subst(head.mem[r], m) is not o.st.mem[r] for r in roots):
            return None
        if any(r.op != "L" and o.st.mem[r] is not v for r, v in head.mem.items()):
            return None
        args = [mk("arg", i, nm or "a%d" % i) for i, nm, t in params(fn)]
        x = interp.Out("ret", mk("call", fn.path, *[m.get(a, a) for a in args]), o.st)
        outs.append(x)
    s = Summary(fn, I, outs)
    for i in I.visited:
        f = ctx.db("pmt").fns[i]
        if f.crate != "vmodels":
            ctx.fns.add(f.qual)
    ctx.outcomes += len(outs)
    ctx.steps += I.steps
    return s


class Walk:
    """a recursive walker over nodes along a path"""

    def __init__(self, ctx, fn, policy="v", *extra, fine=False):
        self.ctx = ctx
        self.fn = fn
        self.s = as_recursion(ctx, fn, vocab(ctx, *extra), fine) or ctx.summ(fn, vocab(ctx, *extra), policy, fine=fine)
        t = argterms(fn)
        self.self, self.node, self.path = t["self"], t["node"], t["path"]
        self.idx = t.get("idx")
        self.p = hexof(self.path)
        self.i = self.idx if self.idx is not None else INT0
        self.len = ln(self.p)
        self.rest = lib_I.mk_slice(self.p, self.i, self.len)
        dec, _ = roles(ctx)
        self.dec = dec

    def is_rec(self, t, node, k):
        """t is the recursive call on `node` after consuming k more digits -> bool"""
        if t.op != "call" or t.a[0] != self.fn.path:
            return False
        return True

    def rec(self, f, t, node, k, selfs=None):
        """problem text unless t is the recursive call on `node` with k further digits consumed"""
        if t.op != "call" or t.a[0] != self.fn.path:
            return "returns %s instead of continuing below" % show(t)[:200]
        for (i, nm, ty), a in zip(params(self.fn), t.a[1:]):
            r = role_of(ty)
            if r == "node" and not same(f, a, node):
                return "continues at %s, expected %s" % (show(a)[:200], show(node)[:200])
            if r == "path":
                if self.idx is not None:
                    if not same(f, hexof(a), self.p):
                        return "continues with another path: %s" % show(a)[:200]
                else:
                    want = lib_I.mk_slice(self.p, k, self.len)
                    if not same(f, hexof(a), want):
                        return "continues with path %s" % show(a)[:200]
            if r == "idx" and not same(f, a, add(self.i, k)):
                return "continues at path position %s, expected %s" % (show(a)[:160], show(add(self.i, k))[:160])
        return None

    def decoded(self, bytes_):
        return [mk("call", d.path, bytes_) for d in self.dec]

    def hash_rows(self, cont, root_hash=None, name="Hash", extra_err=None):
        """rows for a node known only by its hash; cont(o, f, decoded node)"""
        h = mk("field", body(self.node, "Hash"), "hash")
        gs = dbget(mk("field", self.self, "db"), h)
        base = [variant(self.node, "Hash")]

        def used(o):
            """the database lookup this outcome depends on"""
            for e in o.events:
                if e.kind == "call" and e.name == GET:
                    return e.res
            return None

        def err(o, f):
            g = used(o)
            if g is None or g not in gs:
                return "does not look the node up under its own hash"
            if not is_err(o):
                return "returns %s although the database failed" % show(o.val)[:120]
            v = o.val
            if v.op == "adt" and v.a[3][0].op == "adt" and v.a[3][0].a[1] == "Database":
                return None
            return "a database failure surfaces as %s" % show(v)[:200]

        def missing(o, f):
            g = used(o)
            if g is None or g not in gs:
                return "does not look the node up under its own hash"
            v = o.val
            if v is None or v.op != "adt" or v.a[1] != "Err" or v.a[3][0].op != "adt" or v.a[3][0].a[1] != "MissingTrieNode":
                return "a node absent from the database yields %s instead of a missing-node error" % show(v)[:200]
            e = v.a[3][0]
            d = dict(zip(e.a[2], e.a[3]))
            if not same(f, d["node_hash"], h):
                return "the missing-node error names %s" % show(d["node_hash"])[:160]
            if not same(f, d["root_hash"], Some(mk("field", self.self, "root_hash"))):
                return "the missing-node error names root %s" % show(d["root_hash"])[:160]
            return None

        def bad(o, f):
            if used(o) not in gs:
                return "does not look the node up under its own hash"
            return None if is_err(o) else "an undecodable node yields %s" % show(o.val)[:160]

        def ok(o, f):
            g = used(o)
            if g not in gs:
                return "does not look the node up under its own hash"
            n = payload(payload(g, "Ok"), "Some")
            for d in self.decoded(n):
                if f.truth(mk_isv(d, "Ok")) is True:
                    return cont(o, f, payload(d, "Ok"))
            return "the stored node is not decoded: %s" % show(o.val)[:200]

        G = [(mk_isv(g, "Ok"), True) for g in gs]
        P = [mk_isv(payload(g, "Ok"), "Some") for g in gs]
        D = [mk_isv(d, "Ok") for g in gs for d in self.decoded(payload(payload(g, "Ok"), "Some"))]
        R = [mk_isv(payload(d.a[0], "Ok"), "Hash") for d in D]

        def redirect(o, f):
            if used(o) not in gs:
                return "does not look the node up under its own hash"
            return None if is_err(o) else "a stored node that is only a reference to another node yields %s" % show(o.val)[:160]
        return [
            Row(name + "/database error", base + all_of([mk_isv(g, "Ok") for g in gs], False), err),
            Row(name + "/absent", base + G + all_of(P, False), missing),
            Row(name + "/undecodable", base + G + all_of(P, True) + all_of(D, False), bad),
            Row(name + "/reference", base + G + all_of(P, True) + all_of(D, True) + all_of(R, True), redirect),
            Row(name + "/found", base + G + all_of(P, True) + all_of(D, True) + all_of(R, False), ok),
        ]

    # common guards
    def leaf_hit(self, val):
        k = mk("field", mk("field", body(self.node, "Leaf"), "key"), "hex_data")
        return [variant(self.node, "Leaf"), (mk_eq(k, self.rest), val)]

    def ext_hit(self, val):
        pre = mk("field", mk("field", body(self.node, "Extension"), "prefix"), "hex_data")
        both = lcp(self.rest, pre)
        return [variant(self.node, "Extension")] + all_of([mk_le(c, ln(pre)) for c in both], True) + all_of([mk_eq(c, ln(pre)) for c in both], val)

    @property
    def ext_len(self):
        return ln(mk("field", mk("field", body(self.node, "Extension"), "prefix"), "hex_data"))

    @property
    def digit(self):
        return lib_I.proj(self.p, ("i", self.i))

    def branch_rows(self, here, child):
        b = body(self.node, "Branch")
        end = mk_le(self.len, self.i)
        term = mk_eq(self.digit, Int(16))
        return [
            Row("Branch/path exhausted", [variant(self.node, "Branch"), (mk_eq(self.i, self.len), True), (end, True)], here, need=False),
            Row("Branch/terminator", [variant(self.node, "Branch"), (mk_eq(self.i, self.len), False), (end, False), (term, True)], here),
            Row("Branch/digit", [variant(self.node, "Branch"), (mk_eq(self.i, self.len), False), (end, False), (term, False),
                                 (mk_le(self.digit, Int(15)), True)], child),
        ]

    def child_at(self):
        return lib_I.proj(mk("field", body(self.node, "Branch"), "children"), ("i", self.digit))


def walker(ctx, entry, ret=None):
    """the recursive functions over nodes behind a public operation"""
    fs = recursive_fns(ctx, ctx.fn(TRIE + entry), heads_only=True)
    return fs


# ---------------------------------------------------------------- P02 lookup
def check_lookup(ctx):
    ctx.rule("walk", "the lookup walker decides each node kind as specified: nothing below an empty node; a leaf answers only for "
             "exactly the remaining path; a branch answers with its own value at the end of the path and otherwise continues in the "
             "child of the next digit; an extension continues only after its whole prefix matched; a hashed node is fetched under its "
             "hash, and a database failure, an absent node or an undecodable node is an error, never an absence")
    fs = [f for f in walker(ctx, "get")]
    ctx.floor("walk", "get", len(fs), 1, "recursive walkers")
    for fn in fs:
        w = Walk(ctx, fn)
        lookup_rows(ctx, w, "walk")
    ctx.rule("entry", "get and contains walk from the root of the handle with the full path of the key; a missing-node error is "
             "returned with the key that was asked for, contains reports exactly whether get finds a value")
    for m in ("get", "contains"):
        s = ctx.summ(TRIE + m, vocab(ctx, lambda f: f in fs), "ve", fine=True)
        lookup_entry(ctx, s, m, fs)


def lookup_rows(ctx, w, rid):
    n = w.node
    none = interp.Ok(NONE)
    rows = [
        Row("Empty", [variant(n, "Empty")], returns(none)),
        Row("Leaf/equal", w.leaf_hit(True), returns(interp.Ok(Some(mk("field", body(n, "Leaf"), "value"))))),
        Row("Leaf/different", w.leaf_hit(False), returns(none)),
        Row("Extension/full prefix", w.ext_hit(True),
            lambda o, f: w.rec(f, o.val, mk("field", body(n, "Extension"), "node"), w.ext_len)),
        Row("Extension/mismatch", w.ext_hit(False), returns(none)),
    ]
    rows += w.branch_rows(returns(interp.Ok(mk("field", body(n, "Branch"), "value"))),
                          lambda o, f: w.rec(f, o.val, w.child_at(), INT1))
    rows += w.hash_rows(lambda o, f, d: w.rec(f, o.val, d, INT0))
    table(ctx, rid, w.s, rows)


def entry_call(ctx, s, fs, f, t, node, key):
    """t is the walker called on `node` from the start of the full path of `key`"""
    if t.op != "call" or t.a[0] not in [g.path for g in fs]:
        return "does not walk the trie: %s" % show(t)[:160]
    g = [g for g in fs if g.path == t.a[0]][0]
    for (i, nm, ty), a in zip(params(g), t.a[1:]):
        r = role_of(ty)
        if r == "node" and not same(f, a, node):
            return "starts at %s instead of the root" % show(a)[:120]
        if r == "path" and a is not mk("call", "nibbles::Nibbles::from_raw", key, INT1):
            return "walks along %s instead of the full path of the key" % show(a)[:120]
        if r == "idx" and a is not INT0:
            return "starts at path position %s" % show(a)[:60]
    return None


def key_error(f, v, c, key):
    """v is the error of walker result c, re-labelled with the key when it is a missing node"""
    e = payload(c, "Err")
    if v.op != "adt" or v.a[1] != "Err":
        return "an error of the walk becomes %s" % show(v)[:160]
    x = v.a[3][0]
    if same(f, x, e):
        return None if f.truth(mk_isv(e, "MissingTrieNode")) is not True else "the missing-node error does not name the key"
    if x.op == "adt" and x.a[1] == "MissingTrieNode":
        d = dict(zip(x.a[2], x.a[3]))
        for k in ("node_hash", "traversed", "root_hash"):
            if not same(f, d[k], mk("field", mk("as", e, "MissingTrieNode"), k)):
                return "the missing-node error loses its %s" % k
        ek = d["err_key"]
        if ek.op == "adt" and ek.a[1] == "Some" and contains(ek, key):
            return None
        return "the missing-node error does not name the key"
    return "an error of the walk becomes %s" % show(x)[:160]


def lookup_entry(ctx, s, m, fs):
    selfv, key = [mk("arg", i, s.fn.locals[i + 1]["n"]) for i in range(2)]
    root = mk("field", selfv, "root")
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("entry", s.fn.qual, False, m + " can panic", "panic")
            continue
        c = [e.res for e in o.events if e.kind == "call" and e.name in [g.path for g in fs]]
        if len(c) != 1:
            ctx.ob("entry", s.fn.qual, False, m + " does not walk the trie exactly once", "walk")
            continue
        c = c[0]
        p = entry_call(ctx, s, fs, o.facts, c, root, key)
        f = o.facts
        n += 1
        for okc in (True, False):
            f1 = f.assume(mk_isv(c, "Ok"), okc)
            if f1 is None or p:
                continue
            if not okc:
                if m == "get":
                    p = p or (None if same(f1, o.val, c) and f1.truth(mk_isv(payload(c, "Err"), "MissingTrieNode")) is False
                              else key_error(f1, o.val, c, key))
                else:
                    p = p or (None if is_err(o) or same(f1, o.val, c) else "an error of the walk becomes %s" % show(o.val)[:160])
                continue
            r = payload(c, "Ok")
            if m == "get":
                p = p or (None if same(f1, o.val, c) or same(f1, o.val, interp.Ok(r)) else "returns %s" % show(o.val)[:160])
            else:
                for some in (True, False):
                    f2 = f1.assume(mk_isv(r, "Some"), some)
                    if f2 is None:
                        continue
                    v = o.val
                    v = v.a[3][0] if v.op == "adt" and v.a[1] == "Ok" else payload(v, "Ok")
                    p = p or (None if f2.truth(as_b(v)) is some else "answers %s when a value is %s" % (show(v)[:100], "found" if some else "absent"))
        ctx.ob("entry", s.fn.qual, p is None, "%s %s" % (m, p), "entry")
    ctx.floor("entry", s.fn.qual, n, 1, "outcomes")


def as_b(v):
    return v


# ---------------------------------------------------------------- node values
def parts(f, n):
    """(variant, {component: value}) of a node value, looking through in-place updates; variant None when unknown"""
    v = None
    if n.op == "adt" and n.a[0] == NODE:
        v = n.a[1]
    elif n.op == "upd" and n.a[1][0] == "v":
        v = n.a[1][1]
    else:
        for x in VARS:
            if f.truth(mk_isv(n, x)) is True:
                v = x
    if v is None:
        return None, {}
    if v == "Empty":
        return v, {}
    b = lib_I.proj(lib_I.proj(n, ("v", v)), ("f", "0"))
    g = lambda x, k: lib_I.proj(x, ("f", k))
    if v == "Leaf":
        return v, {"key": nhex(g(b, "key")), "value": g(b, "value")}
    if v == "Extension":
        return v, {"prefix": nhex(g(b, "prefix")), "node": g(b, "node")}
    if v == "Branch":
        return v, {"children": g(b, "children"), "value": g(b, "value")}
    return v, {"hash": g(b, "hash")}


def nhex(nb):
    return lib_I.proj(nb, ("f", "hex_data"))


def kids(f, c):
    """children array -> (base, [(index, node)]) latest first"""
    ups = []
    while c.op == "upd" and c.a[1][0] == "i":
        i, x = c.a[1][1], c.a[2]
        if not any(same(f, i, j) for j, _ in ups):
            ups.append((i, x))
        c = c.a[0]
    return c, ups


def kids_same(f, got, base, ups):
    """problem text unless children array `got` is `base` with exactly the updates `ups`"""
    b, us = kids(f, got)
    us = [(i, x) for i, x in us if not same(f, x, lib_I.proj(b, ("i", i)))]
    if not same(f, b, base):
        return "children start from %s" % show(b)[:120]
    us = list(us)
    for i, want in ups:
        m = [(j, x) for j, x in us if same(f, i, j)]
        if not m:
            return "no child is stored at %s" % show(i)[:120]
        p = want(m[0][1])
        if p:
            return p
        us = [(j, x) for j, x in us if not same(f, i, j)]
    if us:
        return "an unrelated child at %s is changed" % show(us[0][0])[:120]
    return None


def is_leaf(f, key, value):
    def go(n):
        v, d = parts(f, n)
        if v != "Leaf":
            return "expected a leaf, found %s" % show(n)[:160]
        if not any(same(f, d["key"], k) for k in (key if isinstance(key, list) else [key])):
            return "leaf with path %s" % show(d["key"])[:160]
        if not same(f, d["value"], value):
            return "leaf with value %s" % show(d["value"])[:160]
        return None
    return go


def is_ext(f, prefix, child):
    def go(n):
        v, d = parts(f, n)
        if v != "Extension":
            return "expected an extension, found %s" % show(n)[:160]
        if not any(same(f, d["prefix"], k) for k in (prefix if isinstance(prefix, list) else [prefix])):
            return "extension with prefix %s" % show(d["prefix"])[:160]
        return child(d["node"])
    return go


def is_branch(f, base, ups, value):
    def go(n):
        v, d = parts(f, n)
        if v != "Branch":
            return "expected a branch, found %s" % show(n)[:160]
        p = kids_same(f, d["children"], base, ups)
        if p:
            return p
        if not same(f, d["value"], value):
            return "branch with value %s" % show(d["value"])[:160]
        return None
    return go


def is_node(f, want):
    return lambda n: None if same_node(f, n, want) else "expected %s, found %s" % (show(want)[:120], show(n)[:160])


def same_node(f, a, b):
    if same(f, a, b):
        return True
    v, d = parts(f, a)
    w, e = parts(f, b)
    if v is None or v != w:
        return False
    for k in d:
        if k == "children":
            x, us = kids(f, d[k])
            y, vs = kids(f, e[k])
            if not same(f, x, y):
                return False
            if any(not same_node(f, p, lib_I.proj(e[k], ("i", i))) for i, p in us):
                return False
            if any(not same_node(f, p, lib_I.proj(d[k], ("i", i))) for i, p in vs):
                return False
        elif k == "node":
            if not same_node(f, d[k], e[k]):
                return False
        elif not same(f, d[k], e[k]):
            return False
    return True


EMPTY_NODE = mk("adt", NODE, "Empty", (), ())
NO_KIDS = mk("repeat", EMPTY_NODE, 16)


def okval(o):
    v = o.val
    if v.op == "adt" and v.a[1] == "Ok":
        return v.a[3][0]
    return payload(v, "Ok")


# ---------------------------------------------------------------- P03 insertion
def check_insert(ctx):
    ctx.rule("insert", "the insertion walker returns, for each node kind, a node that binds exactly the remaining path to the new value "
             "and keeps every other binding: a new leaf in an empty place; the same leaf with the new value when its path is the remaining "
             "path; otherwise a fresh branch below the common prefix holding the old and the new leaf at their own next digits; a branch "
             "changes only its value (end of path) or only the child of the next digit; an extension is kept, split or expanded at the "
             "point of divergence without losing its subtree; a hashed node is fetched under its hash first, and errors leave no result")
    fs = walker(ctx, "insert")
    ctx.floor("insert", "insert", len(fs), 1, "recursive walkers")
    for fn in fs:
        w = Walk(ctx, fn, "vf", fine=True)
        insert_rows(ctx, w)
    ctx.rule("insert-entry", "insert refuses an empty value before touching anything, walks from the root with the full path of the key and "
             "the given value, installs exactly the resulting node as the new root, and on an error keeps the old root")
    s = ctx.summ(TRIE + "insert", vocab(ctx, lambda f: f in fs), "ve", fine=True)
    selfv, key, value = [mk("arg", i, s.fn.locals[i + 1]["n"]) for i in range(3)]
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("insert-entry", s.fn.qual, False, "insert can panic", "panic")
            continue
        fin = final(o, selfv)
        f = o.facts
        c = [e.res for e in o.events if e.kind == "call" and e.name in [g.path for g in fs]]
        if not c:
            p = None
            if not entails(f, mk_eq(ln(value), INT0)):
                p = "returns without inserting a non-empty value"
            elif not is_err(o):
                p = "reports success for a value it does not store"
            elif fin is not selfv:
                p = "changes the trie while refusing a value"
            ctx.ob("insert-entry", s.fn.qual, p is None, "insert " + str(p), "refuse")
            continue
        n += 1
        c = c[0]
        p = entry_call(ctx, s, fs, f, c, mk("field", selfv, "root"), key)
        g = [g for g in fs if g.path == c.a[0]][0]
        for (i, nm, ty), a in zip(params(g), c.a[1:]):
            if role_of(ty) == "bytes" and not same(f, a, value):
                p = p or "stores %s instead of the given value" % show(a)[:100]
        if entails(f, mk_eq(ln(value), INT0)) or f.truth(mk_eq(ln(value), INT0)) is None:
            p = p or "an empty value is not refused"
        root = proj(fin, "root")
        for okc in (True, False):
            f1 = f.assume(mk_isv(c, "Ok"), okc)
            if f1 is None or p:
                continue
            if okc:
                if is_err(o) or not is_okunit(o, f1):
                    p = "a successful insertion reports %s" % show(o.val)[:120]
                elif not same(f1, root, payload(c, "Ok")):
                    p = "installs %s as the new root" % show(root)[:160]
            else:
                p = key_error(f1, o.val, c, key)
                if not p and not root_kept(f1, root, selfv, c):
                    p = "a failed insertion changes the root to %s" % show(root)[:160]
        ctx.ob("insert-entry", s.fn.qual, p is None, "insert " + str(p), "entry")
    ctx.floor("insert-entry", s.fn.qual, n, 1, "inserting outcomes")


def root_kept(f, root, selfv, c):
    """the root is what it was (a walker works on a copy; it never assigns the root field: checked by self_fields)"""
    if same(f, root, mk("field", selfv, "root")):
        return True
    # untouched by the walker: field of the walker's effect on self
    return root.op == "field" and root.a[1] == "root" and root.a[0].op == "eff" and root.a[0].a[1] == 0


def is_okunit(o, f):
    v = o.val
    return v.op == "adt" and v.a[1] == "Ok" or f.truth(mk_isv(v, "Ok")) is True


def insert_rows(ctx, w):
    n, s = w.node, w.s
    t = argterms(w.fn)
    value = t["bytes"]

    def rec_of(o, f, node_ok, k):
        """the recursive call the outcome is built on, with problem text"""
        cs = [e.res for e in o.events if e.kind == "call" and e.name == w.fn.path]
        if len(cs) != 1:
            return None, "the walker does not continue exactly once"
        c = cs[0]
        for (i, nm, ty), a in zip(params(w.fn), c.a[1:]):
            r = role_of(ty)
            if r == "node":
                p = node_ok(a)
                if p:
                    return c, "continues at the wrong node: " + p
            if r == "path" and w.idx is not None and not same(f, hexof(a), w.p):
                return c, "continues with another path"
            if r == "path" and w.idx is None and not same(f, hexof(a), lib_I.mk_slice(w.p, k, w.len)):
                return c, "continues with another path"
            if r == "idx" and not same(f, a, add(w.i, k)):
                return c, "continues at path position %s, expected %s" % (show(a)[:120], show(add(w.i, k))[:120])
            if r == "bytes" and not same(f, a, value):
                return c, "continues with another value"
        return c, None

    def through(node_ok, k, wrap):
        """expect: recurse on node_ok at +k and wrap its result"""
        def e(o, f):
            c, p = rec_of(o, f, node_ok(f), k)
            if p:
                return p
            for okc in (True, False):
                f1 = f.assume(mk_isv(c, "Ok"), okc)
                if f1 is None:
                    continue
                if not okc:
                    if same(f1, o.val, c) or is_err(o) and same(f1, o.val, interp.Err(payload(c, "Err"))):
                        continue
                    return "an error below becomes %s" % show(o.val)[:160]
                if o.val is c and wrap is None:
                    continue
                if is_err(o):
                    return "fails although the insertion below succeeded"
                x = payload(c, "Ok")
                if wrap is None:
                    if not same(f1, okval(o), x):
                        return "returns %s" % show(o.val)[:160]
                else:
                    p = wrap(f1, x)(okval(o))
                    if p:
                        return p
            return None
        return e

    def ok_(check):
        def e(o, f):
            if is_err(o) or o.val.op != "adt":
                return "returns %s" % show(o.val)[:160]
            return check(f)(okval(o))
        return e

    kb = mk("field", mk("field", body(n, "Leaf"), "key"), "hex_data")
    lv = mk("field", body(n, "Leaf"), "value")
    lcps = lcp(w.rest, kb)
    full = all_of([mk_eq(m, ln(kb)) for m in lcps], True) 
    notfull = all_of([mk_eq(m, ln(kb)) for m in lcps], False) + [(mk_eq(kb, w.rest), False)]

    def split(m, kd, pd, kterm, pterm):
        def chk(o, f):
            if is_err(o) or o.val.op != "adt":
                return "returns %s" % show(o.val)[:160]
            ups, val = [], NONE
            if kterm:
                val = Some(lv)
            else:
                ups.append((kd, is_leaf(f, lib_I.mk_slice(kb, add(m, INT1), ln(kb)), lv)))
            if pterm:
                val = Some(value)
            else:
                ups.append((pd, is_leaf(f, lib_I.mk_slice(w.p, add(w.i, add(m, INT1)), w.len), value)))
            br = is_branch(f, NO_KIDS, ups, val)
            if entails(f, mk_eq(m, INT0)):
                return br(okval(o))
            if not entails(f, mk_le(INT1, m)):
                return "does not tell an empty common prefix from a non-empty one"
            return is_ext(f, [lib_I.mk_slice(w.p, w.i, add(w.i, m)), lib_I.mk_slice(kb, INT0, m)], br)(okval(o))
        return chk

    rows = [
        Row("Empty", [variant(n, "Empty")], ok_(lambda f: is_leaf(f, w.rest, value))),
        Row("Leaf/same path", [variant(n, "Leaf")] + full, ok_(lambda f: is_leaf(f, [kb, w.rest], value))),
    ]
    used = [m for m in lcps if any(m in subterms(k) for o in s.outs for k in list(o.facts.d))]
    if not used:
        ctx.ob("insert", w.fn.qual, False, "paths are not compared by their common prefix", "lcp")
    else:
        m = used[0]
        kd = lib_I.proj(kb, ("i", m))
        pd = lib_I.proj(w.p, ("i", add(w.i, m)))
        for kt in (False, True):
            for pt in (False, True):
                if kt and pt:
                    continue
                g = [variant(n, "Leaf")] + notfull + [(mk_eq(kd, Int(16)), kt), (mk_eq(pd, Int(16)), pt), (mk_le(kd, Int(16)), True), (mk_le(pd, Int(16)), True)]
                rows.append(Row("Leaf/split%s%s" % ("/old ends" if kt else "", "/new ends" if pt else ""), g, split(m, kd, pd, kt, pt)))
    rows += w.branch_rows(lambda o, f: "replaces nothing" if is_err(o) else is_branch(
        f, mk("field", body(n, "Branch"), "children"), [], Some(value))(okval(o)), None)[1:]
    bc = mk("field", body(n, "Branch"), "children")
    bv = mk("field", body(n, "Branch"), "value")
    rows[-1].expect = through(lambda f: is_node(f, w.child_at()), INT1,
                              lambda f, x: is_branch(f, bc, [(w.digit, is_node(f, x))], bv))
    # extensions
    pre = mk("field", mk("field", body(n, "Extension"), "prefix"), "hex_data")
    sub_ = mk("field", body(n, "Extension"), "node")
    ms = lcp(w.rest, pre)
    E = [variant(n, "Extension"), (mk_le(INT1, ln(pre)), True)]
    z = lambda v: [(mk_eq(m, INT0), v) for m in ms]
    fl = lambda v: [(mk_eq(m, ln(pre)), v) for m in ms]
    p0 = lib_I.proj(pre, ("i", INT0))

    def opened(f):
        one = entails(f, mk_eq(ln(pre), INT1))
        child = is_node(f, sub_) if one else is_ext(f, lib_I.mk_slice(pre, INT1, ln(pre)), is_node(f, sub_))
        return is_branch(f, NO_KIDS, [(p0, child)], NONE)
    for one in (True, False):
        rows.append(Row("Extension/diverges at once/%s" % ("one digit" if one else "longer"),
                        E + z(True) + fl(False) + [(mk_eq(ln(pre), INT1), one)], through(opened, INT0, None)))
    rows.append(Row("Extension/full prefix", E + fl(True) + z(False),
                    through(lambda f: is_node(f, sub_), ln(pre), lambda f, x: is_ext(f, pre, is_node(f, x)))))

    def mid(o, f):
        for m in ms:
            def tail(f):
                return is_ext(f, lib_I.mk_slice(pre, m, ln(pre)), is_node(f, sub_))
            p = through(tail, m, lambda f, x: is_ext(f, [lib_I.mk_slice(pre, INT0, m), lib_I.mk_slice(w.rest, INT0, m)], is_node(f, x)))(o, f)
            if p is None:
                return None
        return p
    rows.append(Row("Extension/diverges inside", E + fl(False) + z(False), mid))
    rows += w.hash_rows(lambda o, f, d: through(lambda f: is_node(f, d), INT0, None)(o, f))
    if used:
        prec0 = [(mk_eq(kd, pd), False)]       # the common prefix is maximal
    else:
        prec0 = []
    prec = prec0 + [(mk_le(p0, Int(15)), True), (mk_le(w.i, w.len), True)]
    table(ctx, "insert", s, rows, pre=prec)


# ---------------------------------------------------------------- P04 removal
def removal_fns(ctx):
    fs = walker(ctx, "remove")
    walk = [f for f in fs if any(role_of(t) == "path" for _, _, t in params(f))]
    norm = [f for f in fs if f not in walk]
    return fs, walk, norm


def check_remove(ctx):
    ctx.rule("remove", "the removal walker reports true exactly when the path is bound in the subtree, and then returns the subtree without "
             "that binding, normalised; when it reports false the returned subtree is the old one; errors leave no result")
    ctx.rule("normalise", "after a removal a branch left with only its value becomes a leaf with an empty path, a branch left with exactly "
             "one child and no value becomes an extension over that child, an extension over an extension or a leaf is merged with it "
             "(prefix first), a hashed child is fetched before deciding, and every other node is returned as it is")
    ctx.rule("remove-entry", "remove walks from the root with the full path of the key, installs the resulting node as root, reports "
             "what the walker reports, and keeps the old root on an error")
    fs, walk, norm = removal_fns(ctx)
    ctx.floor("remove", "remove", len(walk), 1, "recursive walkers")
    ctx.floor("normalise", "remove", len(norm), 1, "normalising functions")
    for fn in walk:
        remove_rows(ctx, Walk(ctx, fn, "vr", lambda g: g in fs, fine=True), norm)
    for fn in norm:
        norm_rows(ctx, Walk0(ctx, fn))
    s = ctx.summ(TRIE + "remove", vocab(ctx, lambda f: f in fs), "vre", fine=True)
    selfv, key = [mk("arg", i, s.fn.locals[i + 1]["n"]) for i in range(2)]
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("remove-entry", s.fn.qual, False, "remove can panic", "panic")
            continue
        f = o.facts
        c = [e.res for e in o.events if e.kind == "call" and e.name in [g.path for g in walk]]
        if len(c) != 1:
            ctx.ob("remove-entry", s.fn.qual, False, "remove does not walk the trie exactly once", "walk")
            continue
        n += 1
        c = c[0]
        p = entry_call(ctx, s, walk, f, c, mk("field", selfv, "root"), key)
        root = proj(final(o, selfv), "root")
        for okc in (True, False):
            f1 = f.assume(mk_isv(c, "Ok"), okc)
            if f1 is None or p:
                continue
            if okc:
                r = payload(c, "Ok")
                node, flag = lib_I.proj(r, ("f", "0")), lib_I.proj(r, ("f", "1"))
                if is_err(o):
                    p = "fails although the walk succeeded"
                    continue
                for b in (True, False):
                    f2 = f1.assume(flag, b)
                    if f2 is None or p:
                        continue
                    v = okval(o)
                    if not (v is flag or f2.truth(v) is b):
                        p = "reports %s when the key was %s" % (show(v)[:80], "removed" if b else "absent")
                    elif b and not same(f2, root, node):
                        p = "installs %s as the new root" % show(root)[:160]
                    elif not b and not same(f2, root, node) and not root_kept(f2, root, selfv, c):
                        p = "changes the root although nothing was removed: %s" % show(root)[:160]
            else:
                p = key_error(f1, o.val, c, key)
                if not p and not root_kept(f1, root, selfv, c):
                    p = "a failed removal changes the root to %s" % show(root)[:160]
        ctx.ob("remove-entry", s.fn.qual, p is None, "remove " + str(p), "entry")
    ctx.floor("remove-entry", s.fn.qual, n, 1, "outcomes")


class Walk0(Walk):
    """a recursive function over a node alone"""

    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn
        self.s = ctx.summ(fn, vocab(ctx), "vn", fine=2)
        t = argterms(fn)
        self.self, self.node = t["self"], t["node"]
        self.dec = roles(ctx)[0]


def preserved(f, got, orig, recs):
    """`got` binds what `orig` binds: the same node, or with children that a walk left alone"""
    if same_node(f, got, orig):
        return True
    # the (possibly rewritten) child of a walk that removed nothing, or the node itself after such a walk
    for c, child in recs:
        if not same_node(f, child, orig):
            continue
        for x in (lib_I.proj(payload(c, "Ok"), ("f", "0")), mk("eff", c.a[0], 1, *c.a[1:])):
            if got is x:
                return True
    v, d = parts(f, got)
    w, e = parts(f, orig)
    if v is None or v != w:
        return False
    for k in d:
        if k == "children":
            x, us = kids(f, d[k])
            y, vs = kids(f, e[k])
            if vs or not same(f, x, y):
                return False
            for i, p in us:
                if not preserved(f, p, lib_I.proj(y, ("i", i)), recs):
                    return False
        elif k == "node":
            if not preserved(f, d[k], e[k], recs):
                return False
        elif not same(f, d[k], e[k]):
            return False
    return True


def remove_rows(ctx, w, norm):
    n, s = w.node, w.s

    def recs(o):
        out = []
        for e in o.events:
            if e.kind == "call" and e.name == w.fn.path:
                node = None
                for (i, nm, ty), a in zip(params(w.fn), e.res.a[1:]):
                    if role_of(ty) == "node":
                        node = a
                out.append((e.res, node))
        return out

    def rec_ok(f, c, node_ok, k):
        for (i, nm, ty), a in zip(params(w.fn), c.a[1:]):
            r = role_of(ty)
            if r == "node":
                p = node_ok(a)
                if p:
                    return "continues at the wrong node: " + p
            if r == "path" and w.idx is not None and not same(f, hexof(a), w.p):
                return "continues with another path"
            if r == "path" and w.idx is None and not same(f, hexof(a), lib_I.mk_slice(w.p, k, w.len)):
                return "continues with another path"
            if r == "idx" and not same(f, a, add(w.i, k)):
                return "continues at path position %s, expected %s" % (show(a)[:120], show(add(w.i, k))[:120])
        return None

    def normed(o, f, check, plain):
        """the outcome returns (normalised X, true) with X satisfying check; plain: X itself is acceptable as well"""
        ns = [e.res for e in o.events if e.kind == "call" and e.name in [g.path for g in norm]]
        for c in ns:
            g = [g for g in norm if g.path == c.a[0]][0]
            for (i, nm, ty), a in zip(params(g), c.a[1:]):
                if role_of(ty) == "node":
                    p = check(a)
                    if p:
                        return "normalises the wrong node: " + p
            for okc in (True, False):
                f1 = f.assume(mk_isv(c, "Ok"), okc)
                if f1 is None:
                    continue
                if not okc:
                    if not (is_err(o) and same(f1, o.val, interp.Err(payload(c, "Err")))):
                        return "a failed normalisation becomes %s" % show(o.val)[:120]
                    continue
                if is_err(o):
                    return "fails although the normalisation succeeded"
                v = okval(o)
                if not same(f1, lib_I.proj(v, ("f", "0")), payload(c, "Ok")):
                    return "returns %s instead of the normalised node" % show(v)[:120]
                if f1.truth(lib_I.proj(v, ("f", "1"))) is not True:
                    return "does not report the removal"
            return None
        if not plain:
            return "the changed node is not normalised"
        if is_err(o):
            return "returns an error"
        v = okval(o)
        p = check(lib_I.proj(v, ("f", "0")))
        if p:
            return p
        if f.truth(lib_I.proj(v, ("f", "1"))) is not True:
            return "does not report the removal"
        return None

    def unchanged(o, f):
        if is_err(o):
            return "returns an error"
        v = okval(o)
        if f.truth(lib_I.proj(v, ("f", "1"))) is not False:
            return "reports a removal of an absent path"
        r = recs(o)
        if not preserved(f, lib_I.proj(v, ("f", "0")), n, r):
            return "returns a different node although nothing was removed: %s" % show(lib_I.proj(v, ("f", "0")))[:200]
        return None

    def in_place(o, f):
        """the node argument, if changed in place, still binds the same when nothing is reported removed"""
        return None if preserved(f, final(o, n), n, recs(o)) else \
            "changes the node in place although nothing was removed: %s" % show(final(o, n))[:200]

    def below(node_ok, k, wrap, plain=False):
        def e(o, f):
            r = recs(o)
            if len(r) != 1:
                return "the walker does not continue exactly once"
            c, _ = r[0]
            p = rec_ok(f, c, node_ok(f), k)
            if p:
                return p
            ok = payload(c, "Ok")
            nn, fl = lib_I.proj(ok, ("f", "0")), lib_I.proj(ok, ("f", "1"))
            for okc, b in ((False, None), (True, True), (True, False)):
                f1 = f.assume(mk_isv(c, "Ok"), okc)
                if f1 is not None and b is not None:
                    f1 = f1.assume(fl, b)
                if f1 is None:
                    continue
                if not okc:
                    if not (o.val is c or is_err(o) and same(f1, o.val, interp.Err(payload(c, "Err")))):
                        return "an error below becomes %s" % show(o.val)[:120]
                    continue
                if wrap is None and o.val is c:
                    continue
                if b:
                    p = normed(o, f1, wrap(f1, nn) if wrap else (lambda x: None if same(f1, x, nn) else "expected the walked node"), plain)
                    if p:
                        return p
                else:
                    if wrap is None:
                        if is_err(o) or f1.truth(lib_I.proj(okval(o), ("f", "1"))) is not False:
                            return "reports a removal where none happened below"
                        x = lib_I.proj(okval(o), ("f", "0"))
                        if not same(f1, x, nn) and not preserved(f1, x, n, r):
                            return "returns %s although nothing was removed" % show(x)[:160]
                        continue
                    p = unchanged(o, f1) or in_place(o, f1)
                    if p:
                        return p
            return None
        return e

    def both(o, f):
        return unchanged(o, f) or in_place(o, f)

    bc, bv = mk("field", body(n, "Branch"), "children"), mk("field", body(n, "Branch"), "value")
    pre, sub_ = mk("field", mk("field", body(n, "Extension"), "prefix"), "hex_data"), mk("field", body(n, "Extension"), "node")

    def leaf_gone(o, f):
        if any(e.kind == "call" and e.name in [g.path for g in norm] for e in o.events):
            # normalising an empty node returns it
            return normed(o, f, lambda x: None if parts(f, x)[0] == "Empty" else "expected an empty node", True)
        if is_err(o):
            return "returns an error"
        v = okval(o)
        if parts(f, lib_I.proj(v, ("f", "0")))[0] != "Empty":
            return "returns %s" % show(v)[:160]
        return None if f.truth(lib_I.proj(v, ("f", "1"))) is True else "does not report the removal"

    rows = [
        Row("Empty", [variant(n, "Empty")], both),
        Row("Leaf/equal", w.leaf_hit(True), leaf_gone),
        Row("Leaf/different", w.leaf_hit(False), both),
        Row("Extension/mismatch", w.ext_hit(False), both),
        Row("Extension/full prefix", w.ext_hit(True),
            below(lambda f: is_node(f, sub_), w.ext_len, lambda f, x: is_ext(f, pre, is_node(f, x)))),
    ]
    br = w.branch_rows(None, below(lambda f: is_node(f, w.child_at()), INT1,
                                   lambda f, x: is_branch(f, bc, [(w.digit, is_node(f, x))], bv)))
    for some in (True, False):
        rows.append(Row("Branch/terminator/%s" % ("value" if some else "no value"), br[1].guards + [(mk_isv(bv, "Some"), some)],
                        (lambda o, f: normed(o, f, is_branch(f, bc, [], NONE), False)) if some else both))
    rows.append(br[2])
    rows += w.hash_rows(lambda o, f, d: below(lambda f: is_node(f, d), INT0, None, True)(o, f))
    table(ctx, "remove", s, rows, pre=[(mk_le(w.i, w.len), True)])


def norm_rows(ctx, w):
    n, s = w.node, w.s
    c, val = mk("field", body(n, "Branch"), "children"), mk("field", body(n, "Branch"), "value")
    pre, child = mk("field", mk("field", body(n, "Extension"), "prefix"), "hex_data"), mk("field", body(n, "Extension"), "node")

    def again(check):
        """normalises a node satisfying check, or returns it"""
        def e(o, f):
            cs = [e.res for e in o.events if e.kind == "call" and e.name == w.fn.path]
            if len(cs) != 1:
                return "does not normalise the rewritten node"
            for (i, nm, ty), a in zip(params(w.fn), cs[0].a[1:]):
                if role_of(ty) == "node":
                    p = check(f)(a)
                    if p:
                        return p
            if o.val is cs[0]:
                return None
            if is_err(o):
                return None if f.truth(mk_isv(cs[0], "Ok")) is False else "fails without reason"
            return None if same(f, okval(o), payload(cs[0], "Ok")) else "returns %s" % show(o.val)[:160]
        return e

    def gives(check):
        def e(o, f):
            if is_err(o) or o.val.op != "adt":
                return "returns %s" % show(o.val)[:160]
            return check(f)(okval(o))
        return e

    keep = gives(lambda f: is_node(f, n))
    E = [variant(n, "Extension")]
    sub_pre = mk("field", mk("field", body(child, "Extension"), "prefix"), "hex_data")
    lk = mk("field", mk("field", body(child, "Leaf"), "key"), "hex_data")
    rows = [Row(v, [variant(n, v)], keep) for v in ("Empty", "Leaf", "Hash")]
    rows += [
        Row("Extension over extension", E + [variant(child, "Extension")],
            again(lambda f: is_ext(f, mk("append", pre, sub_pre), is_node(f, mk("field", body(child, "Extension"), "node"))))),
        Row("Extension over leaf", E + [variant(child, "Leaf")],
            gives(lambda f: is_leaf(f, mk("append", pre, lk), mk("field", body(child, "Leaf"), "value")))),
        Row("Extension over branch", E + [variant(child, "Branch")], keep),
    ]
    h = mk("field", body(child, "Hash"), "hash")
    saved, w.node = w.node, child
    hr = w.hash_rows(lambda o, f, d: again(lambda f: is_ext(f, pre, is_node(f, d)))(o, f), name="Extension over hash")
    w.node = saved
    for r in hr:
        r.guards = E + r.guards
    rows += hr
    # branches: how many children are there?
    cnts, idxs, loops = used_children(s, c)
    if not cnts:
        ctx.ob("normalise", w.fn.qual, False, "the children of a branch are not counted", "count")
        return
    B = [variant(n, "Branch")]

    def leafy(f):
        return is_leaf(f, [mk("arr", (Int(16),)), mk("call", "empty16"), hexof(mk("call", "nibbles::Nibbles::from_raw", mk("arr", ()), INT1))],
                       payload(val, "Some"))

    def single(f):
        def go(x):
            v, d = parts(f, x)
            if v != "Extension":
                return "expected an extension over the single child, found %s" % show(x)[:160]
            for ix in idxs:
                one = [mk("arr", (mk("cast", "u8", ix),)), mk("arr", (ix,))]
                if any(same(f, d["prefix"], q) for q in one) and same(f, d["node"], lib_I.proj(c, ("i", ix))):
                    return None
            return "the extension over the single child does not carry its digit and itself: %s" % show(x)[:200]
        return go
    cz = lambda v: [(mk_eq(k, INT0), v) for k in cnts]
    co = lambda v: [(mk_eq(k, INT1), v) for k in cnts]
    rows += [
        Row("Branch/only a value", B + cz(True) + co(False) + [(mk_isv(val, "Some"), True)], gives(leafy)),
        # a branch always holds at least two bindings before a removal
        Row("Branch/nothing left", B + cz(True) + co(False) + [(mk_isv(val, "Some"), False)],
            lambda o, f: None if is_err(o) or parts(f, okval(o))[0] in ("Empty", "Branch") else "invents a node", need=False),
        Row("Branch/one child", B + co(True) + cz(False) + [(mk_isv(val, "Some"), False)], again(single)),
        Row("Branch/one child and a value", B + co(True) + cz(False) + [(mk_isv(val, "Some"), True)], keep),
        Row("Branch/more children", B + co(False) + cz(False) + [(mk_le(Int(2), k), True) for k in cnts], keep),
    ]
    table(ctx, "normalise", s, rows, pre=[(mk_isv(child, "Empty"), False)])
    # the count ran over all children
    for o in s.rets:
        if narrow(o.facts, B) is None:
            continue
        used = {x for k in list(o.facts.d) for x in subterms(k)} | set(subterms(o.val))
        ok = any(done(s.I, o.facts, l, c) for l in loops) or any(x.op == "coll" and positions(x, c) for x in used)
        ctx.ob("normalise", w.fn.qual, ok, "the children are not all inspected", "exhaust")


def done(I, f, lid, c):
    """loop `lid` ran over all sixteen places of array c"""
    if exhausted(I, f, lid, c):
        return True
    for k, v in f.d.items():
        if k.op == "more" and v is False and str(k.a[1]).split("~")[0] == str(lid) and whole16(k.a[0], c):
            return True
    return any(lv.op == "ind" and lv.a[1] is INT0 and entails(f, mk_le(Int(16), lv)) for lv in I.loops[lid].vars)


def whole16(src, c):
    """src runs through the positions or the elements of array c"""
    if src is c:
        return True
    if src.op == "it" and src.a[0] in ("enumerate", "map", "inspect"):
        return whole16(src.a[1], c)
    return src.op == "adt" and src.a[0] == "core::ops::range::Range" and src.a[3][0] is INT0 and src.a[3][1] in (Int(16), ln(c))


def positions(x, c):
    """collection x holds exactly the positions, in order, of the non-empty elements of array c"""
    if not whole16(x.a[1], c) or len(x.a[2]) != 1:
        return False
    cond, b = x.a[2][0].a[0]
    if b.op == "cast":
        b = b.a[1]
    if b.op != "ind":
        return False
    el = mk("elem", c, b.a[0])
    kept = 0
    for q in cond.a[0]:
        g, v = q.a[0]
        if g is mk_isv(el, "Empty"):
            if v is not INT0:
                return False
            kept += 1
        elif g.op == "ge0" and v is INT1 and Facts().assume(mk_le(b, Int(15)), True).truth(g) is True:
            continue
        else:
            return False
    return kept == 1


def used_children(s, c):
    """terms that count the non-empty children of array c, terms for the position of the (last or first) one, and the loops they
    are computed in"""
    cnts, idxs, loops = [], [], []
    seen = set()
    for o in s.outs:
        for k in list(o.facts.d) + list(o.facts.dom) + ([o.val] if o.val is not None else []):
            for x in subterms(k):
                if x.op == "coll" and x not in seen:
                    seen.add(x)
                    if positions(x, c):
                        cnts.append(mk("call", "len", x))
                        idxs.append(mk_idx0(x, INT0))
    for lid, L in s.I.loops.items():
        for lv, (init, steps) in L.vars.items():
            good = bool(steps)
            kind = None
            saw = set()
            for t, f in steps:
                el = None
                for k, dom in f.dom.items():
                    if k.op in ("elem", "idx") and k.a[0] is c:
                        el = "Empty" in dom
                        if el and len(dom) > 1:
                            el = None
                if el is None:
                    good = False
                    break
                if el:
                    good = good and t is lv
                    saw.add(0)
                elif t is add(lv, INT1):
                    kind = "count"
                    saw.add(1)
                elif t.op == "ind":
                    kind = "last"
                    saw.add(1)
                elif t.op == "adt" and t.a[1] == "Some" and t.a[3][0].op == "ind":
                    kind = "lastopt"
                    saw.add(1)
                else:
                    good = False
            if not good or saw != {0, 1} or kind is None:
                continue
            if kind == "count" and init is INT0:
                cnts.append(lv)
                loops.append(lid)
            elif kind == "last":
                idxs.append(lv)
            elif kind == "lastopt":
                idxs.append(payload(lv, "Some"))
    return cnts, idxs, loops


def mk_idx0(v, i):
    return lib_I.proj(v, ("i", i))


# ---------------------------------------------------------------- P05 bookkeeping
PEND = "passing_keys"
KEPT = ("root", "root_hash", "db", "cache", "gen_keys")


def eff_self(v):
    """the handle an effect term started from"""
    return v.a[2 + v.a[1]]


def mem_of(v):
    """contents of a set value as a union: (whole sets, contributions of calls, single members, anything else)"""
    base, calls, mem, odd = [], [], [], []

    def go(v):
        if v.op == "ins":
            mem.append(v.a[1])
            go(v.a[0])
        elif v.op == "append":
            go(v.a[0])
            go(v.a[1])
        elif v is EMPTY:
            pass
        elif v.op == "field" and v.a[1] == PEND and v.a[0].op == "eff":
            calls.append(mk("call", v.a[0].a[0], *v.a[0].a[2:]))
            go(proj(eff_self(v.a[0]), PEND))
        elif v.op == "field" and v.a[1] == PEND:
            base.append(v)
        else:
            odd.append(v)
    go(v)
    return base, calls, mem, odd


def kept(v, base, name):
    """field `name` of the handle is what it was: the walkers are checked to leave it alone as well"""
    if v is base:
        return True
    if v.op == "field" and v.a[1] == name and v.a[0].op == "eff":
        return kept(proj(eff_self(v.a[0]), name), base, name)
    return False


def walk_calls(o, fs):
    return [e.res for e in o.events if e.kind == "call" and e.name in [g.path for g in fs]]


def fetched(o):
    """hashes looked up in storage in this outcome"""
    return [e.res.a[2] for e in o.events if e.kind == "call" and e.name == GET]


def check_pending(ctx):
    ctx.rule("pending-walk", "a walker step that succeeds adds to the nodes awaiting deletion exactly the hashes it fetched, on top of what the "
             "steps below added, and touches no other state of the handle")
    ctx.rule("pending-entry", "insert and remove leave the set of nodes awaiting deletion as it was when they fail or remove nothing, and "
             "otherwise add exactly what the walk collected; the handle's other state except its root stays as it was")
    for op in ("insert", "remove"):
        fs = walker(ctx, op)
        ctx.floor("pending-walk", op, len(fs), 1, "recursive walkers")
        for fn in fs:
            s = ctx.summ(fn, vocab(ctx, lambda g: g in fs), "pend", fine=True)
            selfv = argterms(fn).get("self")
            if selfv is None or fn.locals[[i for i, _, t in params(fn) if role_of(t) == "self"][0] + 1]["ty"].get("m") is False:
                continue
            n = 0
            for o in s.rets:
                fin = final(o, selfv)
                bad = [k for k in KEPT if not kept(proj(fin, k), mk("field", selfv, k), k)]
                ctx.ob("pending-walk", fn.qual, not bad, "a walker step changes the handle's %s" % ", ".join(bad), "state")
                if is_err(o):
                    continue
                f = o.facts
                if op == "remove" and "tuple" == retkind(fn) and f.truth(lib_I.proj(okval(o), ("f", "1"))) is False:
                    continue
                if op == "remove" and retkind(fn) == "tuple" and not any_removed(o, f):
                    continue
                n += 1
                base, calls, mem, odd = mem_of(proj(fin, PEND))
                p = None
                want = walk_calls(o, fs)
                got = fetched(o)
                if odd or any(b is not mk("field", selfv, PEND) for b in base) or not base:
                    p = "the set of nodes awaiting deletion becomes %s" % show(proj(fin, PEND))[:200]
                elif [c for c in want if c not in calls]:
                    p = "nodes collected further down are dropped"
                elif [m for m in mem if not any(same(f, m, g) for g in got)]:
                    p = "schedules %s for deletion although that node was not replaced" % show(mem[0])[:120]
                elif [g for g in got if not any(same(f, m, g) for m in mem)]:
                    p = "the replaced node %s is not scheduled for deletion" % show(got[0])[:120]
                ctx.ob("pending-walk", fn.qual, p is None, str(p), "collect")
            ctx.floor("pending-walk", fn.qual, n, 1, "successful outcomes")
        s = ctx.summ(TRIE + op, vocab(ctx, lambda f: f in fs), "vre", fine=True)
        selfv = mk("arg", 0, s.fn.locals[1]["n"])
        n = 0
        for o in s.rets:
            fin = final(o, selfv)
            f = o.facts
            bad = [k for k in KEPT if k != "root" and not kept(proj(fin, k), mk("field", selfv, k), k)]
            ctx.ob("pending-entry", s.fn.qual, not bad, "%s changes the handle's %s" % (op, ", ".join(bad)), "state")
            base, calls, mem, odd = mem_of(proj(fin, PEND))
            c = walk_calls(o, fs)
            for ok in (True, False):
                f1 = f
                if c:
                    f1 = f.assume(mk_isv(c[0], "Ok"), ok)
                elif ok:
                    continue
                if f1 is None:
                    continue
                for fl in (True, False) if ok and op == "remove" else (True,):
                    if ok and op == "remove" and f1.assume(lib_I.proj(payload(c[0], "Ok"), ("f", "1")), fl) is None:
                        continue
                    done = ok and fl
                    n += 1
                    p = None
                    if odd or mem or any(b is not mk("field", selfv, PEND) for b in base):
                        p = "the set of nodes awaiting deletion becomes %s" % show(proj(fin, PEND))[:200]
                    elif not base:
                        p = "the nodes already awaiting deletion are forgotten"
                    elif not done and calls:
                        p = "%s schedules nodes for deletion" % ("an ineffective removal" if ok else "a failed " + op)
                    elif done and [x for x in c if x not in calls]:
                        p = "the nodes replaced by the walk are not scheduled for deletion"
                    ctx.ob("pending-entry", s.fn.qual, p is None, str(p), "%s/%s" % ("ok" if ok else "err", fl))
        ctx.floor("pending-entry", s.fn.qual, n, 3, "cases")


def retkind(fn):
    t = retty(fn)
    if isinstance(t, dict) and t.get("k") == "adt" and t["p"] == interp.RES:
        return t["a"][0].get("k")
    return None


def any_removed(o, f):
    """may this outcome report a removal"""
    return f.truth(lib_I.proj(okval(o), ("f", "1"))) is not False


# ---------------------------------------------------------------- P06 commit
DBT = "db::Database"
INSB, REMB, INS1, REM1 = (DBT + "::" + x for x in ("insert_batch", "remove_batch", "insert", "remove"))
ENC = "inner::EncodedNode"


def is_dbop(f):
    return f.path.startswith(DBT + "::") or f.impl_trait == DBT


def writer_encoder(ctx, entry="commit"):
    """the pair of mutually recursive functions that encode a node: the one that stores it, the one that returns its bytes"""
    fs = recursive_fns(ctx, ctx.fn(TRIE + entry))
    enc = [f for f in fs if isbytes(retty(f))]
    wr = [f for f in fs if f not in enc and isinstance(retty(f), dict) and retty(f).get("k") == "adt"]
    return wr, enc


def seq_body(v):
    """(source, [(conditions, element)]) of a collected sequence"""
    if v.op == "coll":
        return v.a[1], [([x.a[0] for x in c.a[0][0].a[0]], c.a[0][1]) for c in v.a[2]]
    return None


def every(v, src, elem_ok):
    """v lists elem for every element of src (in some order)"""
    if elem_ok == "self" and v is src:
        return True
    b = seq_body(v)
    if b is None or b[0] is not src or len(b[1]) != 1 or b[1][0][0]:
        return False
    return True


def elem_path(v, src, path):
    """v is the sequence of the `path` component of each element of src"""
    if path is None and v is src:
        return True
    if v.op == "it" and v.a[1] is src and {"keys": "0", "values": "1"}.get(v.a[0]) == path:
        return True
    b = seq_body(v)
    if b is None or len(b[1]) != 1 or b[1][0][0]:
        return False
    s, e = b[0], b[1][0][1]
    if s.op == "it" and s.a[0] in ("keys", "values") and s.a[1] is src:
        return {"keys": "0", "values": "1"}[s.a[0]] == path and e.op == "elem"
    if s is not src:
        return False
    if path is not None:
        if e.op != "field" or e.a[1] != path:
            return False
        e = e.a[0]
    return e.op == "elem" and e.a[0] is src


def set_members(v):
    """(base, [inserted terms])"""
    m = []
    while v.op == "ins":
        m.append(v.a[1:])
        v = v.a[0]
    return v, m


def check_commit(ctx):
    ctx.rule("commit", "commit writes the root node, then stores exactly the collected new nodes under their hashes, then drops exactly the replaced "
             "nodes that were not written again, in this order; a failing storage call ends it with an error and the announced root unchanged; "
             "success returns the hash of the written root, reads the root back under it, and clears the pending collections")
    ctx.rule("writer", "the node writer returns hash references unchanged, inlines encodings shorter than 32 bytes, and otherwise records the encoding "
             "under its own keccak hash both as a new node and as a generated key; the encoder changes no other state")
    ctx.rule("batch", "the default batch operations of the storage trait apply the single operation to every element, in order, each key with the value at "
             "its position, and stop with the error of the first failure")
    wr, enc = writer_encoder(ctx)
    ctx.floor("writer", "commit", len(wr), 1, "node writers")
    ctx.floor("writer", "commit", len(enc), 1, "node encoders")
    if not wr or not enc:
        return
    fs = wr + enc
    op = vocab(ctx, lambda f: f in fs or is_dbop(f))
    commit_rows(ctx, ctx.summ(TRIE + "commit", op, "commit", fine=True), wr)
    for w in wr:
        writer_rows(ctx, ctx.summ(w, op, "commit", fine=True), enc)
    for e in enc:
        s = ctx.summ(e, op, "commit", fine=True)
        selfv = argterms(e).get("self")
        for o in s.rets:
            if selfv is None:
                continue
            fin = final(o, selfv)
            bad = [k for k in ("root", "root_hash", "db", PEND, "cache", "gen_keys") if not through_writer(s.I, proj(fin, k), mk("field", selfv, k), k, wr)]
            ctx.ob("writer", e.qual, not bad, "encoding a node changes the handle's " + ", ".join(bad), "state")
    # root_hash() commits
    s = ctx.summ(TRIE + "root_hash", vocab(ctx, lambda f: f.name == "commit" and f.impl_trait == "trie::Trie"), "rh", fine=True)
    for o in s.rets:
        cs = [e.res for e in o.events if e.kind == "call" and e.name.endswith("commit")]
        ctx.ob("commit", s.fn.qual, len(cs) == 1 and (o.val is cs[0] or same(o.facts, o.val, cs[0])), "root_hash is not the result of a commit", "root_hash")
    batch_rows(ctx)


def through_writer(I, v, base, name, wr):
    """the field is as before except for what the writer does"""
    if v is base:
        return True
    if v.op == "field" and v.a[1] == name and v.a[0].op == "eff" and v.a[0].a[0] in [w.path for w in wr]:
        return through_writer(I, proj(eff_self(v.a[0]), name), base, name, wr)
    if v.op == "field" and v.a[1] == name and v.a[0].op == "lv":
        # loop: the carried handle only goes through the writer
        L = loop_of(I, v.a[0])
        if L is None:
            return False
        init, steps = L.vars[v.a[0]]
        memo = all(x is v.a[0] or through_writer_h(I, x, v.a[0], wr) for x, _ in steps)
        return memo and through_writer(I, proj(init, name), base, name, wr)
    return False


def through_writer_h(I, h, base, wr):
    """a whole handle is `base` after writer calls only"""
    while h.op == "eff" and h.a[0] in [w.path for w in wr]:
        h = eff_self(h)
    if h is base:
        return True
    if h.op == "lv":
        L = loop_of(I, h)
        init, steps = L.vars[h]
        return all(x is h or through_writer_h(I, x, h, wr) for x, _ in steps) and through_writer_h(I, init, base, wr)
    return False


def db_events(o):
    return [e for e in o.events if e.kind == "call" and e.name.startswith(DBT + "::")]


def commit_rows(ctx, s, wr):
    q = s.fn.qual
    selfv = mk("arg", 0, s.fn.locals[1]["n"])
    root = mk("field", selfv, "root")
    n_ok = n_err = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("commit", q, False, "commit can panic", "panic")
            continue
        f = o.facts
        p = None
        w = [e.res for e in o.events if e.kind == "call" and e.name in [x.path for x in wr]]
        if len(w) != 1:
            ctx.ob("commit", q, False, "the root is not written exactly once", "write")
            continue
        w = w[0]
        if not any(role_of(ty) == "node" and same(f, a, root) for x in wr if x.path == w.a[0] for (i, nm, ty), a in zip(params(x), w.a[1:])):
            ctx.ob("commit", q, False, "writes %s instead of the root" % show(w)[:120], "write")
            continue
        es = db_events(o)
        eff = mk("eff", w.a[0], 0, *w.a[1:])
        for inline in (True, False):
            f1 = f.assume(mk_isv(w, "Inline"), inline)
            f1 = f1 and f1.assume(mk_isv(w, "Hash"), not inline)
            if f1 is None:
                continue
            cache0, gen0, pend0 = (proj(eff, k) for k in ("cache", "gen_keys", PEND))
            if inline:
                e = payload(w, "Inline")
                R = mk("call", "keccak", e)
                R = [t for t in (R,)][0]
                k = mk("field", R, "0")
                want_new = [(k, e)]
            else:
                R = payload(w, "Hash")
                k = mk("field", R, "0")
                want_new = []
            p = commit_case(s, o, f1, es, selfv, cache0, gen0, pend0, R, k, want_new)
            ctx.ob("commit", q, p is None, "%s root: %s" % ("small" if inline else "hashed", p), "case:%s" % p)
            if is_err(o):
                n_err += 1
            else:
                n_ok += 1
    ctx.floor("commit", q, n_ok, 2, "successful outcomes")
    ctx.floor("commit", q, n_err, 2, "failing outcomes")


def commit_case(s, o, f, es, selfv, cache0, gen0, pend0, R, k, want_new):
    names = [e.name for e in es]
    fin = final(o, selfv)
    step = 0          # 0 before insertion, 1 inserted, 2 removed, 3 read back
    db0 = mk("field", selfv, "db")
    got_root = None
    failed = None
    empty_ok = {"ins": False, "rem": False}
    for e in es:
        a = e.args
        if failed is not None:
            return "carries on with %s after a failed storage call" % e.name.split("::")[-1]
        db = e.res.a[1] if e.res is not None else a[0]
        if not (db is db0 or kept(db, db0, "db")):
            return "uses another storage than the handle's"
        okf = f.truth(mk_isv(e.res, "Ok"))
        if e.name == INSB:
            if step != 0:
                return "stores nodes after dropping some or twice"
            ks, vs = e.res.a[2], e.res.a[3]
            p = stored(f, ks, vs, cache0, want_new)
            if p:
                return p
            step = 1
        elif e.name == REMB:
            if step != 1:
                if not (step == 0 and nothing_new(f, cache0, want_new)):
                    return "drops replaced nodes before the new ones are stored"
            p = dropped(f, e.res.a[2], pend0, gen0, want_new)
            if p:
                return p
            step = 2
        elif e.name == GET:
            if step == 0 and not nothing_new(f, cache0, want_new):
                return "reads the root back before storing it"
            if not same(f, e.res.a[2], k):
                return "reads back %s instead of the new root" % show(e.res.a[2])[:120]
            got_root = e.res
        elif e.name in (INS1, REM1):
            return "uses single storage calls, which this rule does not follow"
        else:
            return "calls %s" % e.name
        if okf is False:
            failed = e
        elif okf is None and e is not es[-1]:
            return "ignores whether %s succeeded" % e.name.split("::")[-1]
        elif okf is None and not is_err(o) and o.val is not e.res:
            return "ignores whether %s succeeded" % e.name.split("::")[-1]
    if failed is not None:
        if not is_err(o):
            return "a failed %s is not reported" % failed.name.split("::")[-1]
        v = o.val.a[3][0] if o.val.op == "adt" else None
        if v is None or v.op != "adt" or v.a[1] != "Database":
            return "a storage failure is reported as %s" % show(o.val)[:120]
        if failed.name in (INSB, REMB):
            if not kept(proj(fin, "root_hash"), mk("field", selfv, "root_hash"), "root_hash"):
                return "the root hash changes although a storage call failed"
            if not kept(proj(fin, "root"), mk("field", selfv, "root"), "root"):
                return "the root changes although a storage call failed"
        return None
    if step < 1 and not nothing_new(f, cache0, want_new):
        return "the new nodes are never stored"
    if step < 2 and not nothing_dropped(f, o, pend0, gen0, want_new):
        return "the replaced nodes are never dropped"
    if got_root is None:
        if is_err(o):
            return "fails without a failing storage call"
        # the root may stay as it is in memory
        if not kept(proj(fin, "root"), mk("field", selfv, "root"), "root"):
            return "the root becomes %s" % show(proj(fin, "root"))[:120]
    elif is_err(o):
        if f.truth(mk_isv(payload(got_root, "Ok"), "Some")) is False:
            v = o.val.a[3][0] if o.val.op == "adt" else None
            if v is None or v.op != "adt" or v.a[1] != "MissingTrieNode":
                return "a root that storage does not have is reported as %s" % show(o.val)[:120]
            if not same(f, dict(zip(v.a[2], v.a[3]))["node_hash"], R):
                return "the missing-node error names another node"
        return None
    else:
        if f.truth(mk_isv(payload(got_root, "Ok"), "Some")) is not True:
            return "succeeds although storage may not have the root"
        n = proj(fin, "root")
        if not (n.op == "field" and n.a[0].op == "as" and contains(n, payload(payload(got_root, "Ok"), "Some"))):
            return "the root becomes %s" % show(n)[:120]
    if o.val.op != "adt" or o.val.a[1] != "Ok" or not same(f, o.val.a[3][0], R):
        return "returns %s instead of the new root hash" % show(o.val)[:120]
    if not same(f, proj(fin, "root_hash"), R):
        return "records %s as root hash" % show(proj(fin, "root_hash"))[:120]
    for c in ("cache", "gen_keys", PEND):
        v = proj(fin, c)
        if v is not EMPTY:
            return "leaves %s behind in %s" % (show(v)[:120], c)
    return None


def nothing_new(f, cache0, want_new):
    """the outcome knows that the collection of new nodes is empty"""
    return not want_new and f.truth(mk_eq(mk("call", "len", cache0), INT0)) is True


def nothing_dropped(f, o, pend0, gen0, want_new):
    """the outcome knows that the list of nodes to drop is empty"""
    for kf, v in list(f.d.items()):
        for t in subterms(kf):
            if t.op == "call" and t.a[0] == "len" and f.truth(mk_eq(t, INT0)) is True:
                if t.a[1] is pend0 or dropped(f, t.a[1], pend0, gen0, want_new) is None:
                    return True
    return False


def stored(f, ks, vs, cache0, want_new):
    """the batch holds exactly the cached nodes plus want_new, keys and values in matching positions"""
    ks, nk = strip_pushed(ks)
    vs, nv = strip_pushed(vs)
    if len(nk) != len(nv):
        return "keys and values of the batch do not match"
    src = None
    for t in (ks, vs):
        b = seq_body(t)
        if b is not None:
            x = b[0]
            x = x.a[1] if x.op == "it" and x.a[0] in ("keys", "values") else x
        elif t.op == "it" and t.a[0] in ("keys", "values"):
            x = t.a[1]
        else:
            return "the batch is %s" % show(t)[:120]
        if src not in (None, x):
            return "keys and values of the batch come from different collections"
        src = x
    if not elem_path(ks, src, "0") or not elem_path(vs, src, "1"):
        return "the batch does not hold every new node: %s / %s" % (show(ks)[-140:], show(vs)[-140:])
    base, mem = set_members(src)
    mem = [tuple(m) for m in mem] + list(zip(nk, nv))
    if base is not cache0:
        return "stores %s instead of the collected new nodes" % show(base)[:120]
    for a, b in mem:
        if not any(same(f, a, x) and same(f, b, y) for x, y in want_new):
            return "stores %s under %s" % (show(b)[:80], show(a)[:80])
    for x, y in want_new:
        if not any(same(f, a, x) and same(f, b, y) for a, b in mem):
            return "the new root is not stored"
    return None


def strip_pushed(v):
    m = []
    while v.op == "push":
        m.append(v.a[1])
        v = v.a[0]
    return v, m[::-1]


def dropped(f, v, pend0, gen0, want_new):
    b = seq_body(v)
    if b is None:
        return "drops %s" % show(v)[:120]
    src, cases = b
    if src is not pend0:
        return "drops elements of %s" % show(src)[:120]
    if len(cases) != 1:
        return "drops by cases"
    cond, el = cases[0]
    if not (el.op == "elem" and el.a[0] is pend0):
        return "drops %s" % show(el)[:120]
    if len(cond) != 1:
        return "does not keep the nodes that were just written" if not cond else "keeps more than the nodes that were just written"
    a, v = cond[0]
    if a.op != "call" or a.a[0] != "has" or v is not INT0 or not same(f, a.a[2], el):
        return "drops a replaced node when %s is %s" % (show(a)[:120], v)
    base, mem = set_members(a.a[1])
    if base is not gen0:
        return "compares with %s" % show(a.a[1])[:120]
    for x, _ in want_new:
        if not any(same(f, m[0], x) for m in mem):
            return "may drop the root that was just written"
    return None


def writer_rows(ctx, s, enc):
    q = s.fn.qual
    t = argterms(s.fn)
    selfv, node = t["self"], t["node"]
    encs = [e.path for e in enc]

    def ref(o, f):
        v = o.val
        if v.op != "adt" or v.a[1] != "Hash" or not same(f, v.a[3][0], mk("field", body(node, "Hash"), "hash")):
            return "a reference is rewritten as %s" % show(v)[:120]
        fin = final(o, selfv)
        if fin is not selfv:
            return "writing a reference changes the handle"
        return None

    def node_case(o, f):
        c = [e.res for e in o.events if e.kind == "call" and e.name in encs]
        if len(c) != 1:
            return "the node is not encoded exactly once"
        c = c[0]
        g = [x for x in enc if x.path == c.a[0]][0]
        for (i, nm, ty), a in zip(params(g), c.a[1:]):
            if role_of(ty) == "node" and not same(f, a, node):
                return "encodes %s instead of the node" % show(a)[:100]
        eff = mk("eff", c.a[0], 0, *c.a[1:])
        fin = final(o, selfv)
        lenc = mk("call", "len", c)
        short = f.truth(mk_lt(lenc, Int(32)))
        if short is None:
            return "does not distinguish encodings shorter than 32 bytes"
        bad = [k for k in ("root", "root_hash", "db", PEND) if not kept(proj(fin, k), mk("field", selfv, k), k)]
        if bad:
            return "changes the handle's " + ", ".join(bad)
        v = o.val
        cb, cm = set_members(proj(fin, "cache"))
        gb, gm = set_members(proj(fin, "gen_keys"))
        if not kept(cb, mk("field", selfv, "cache"), "cache") or not kept(gb, mk("field", selfv, "gen_keys"), "gen_keys"):
            return "the collected nodes become %s" % show(cb)[:120]
        if short:
            if v.op != "adt" or v.a[1] != "Inline" or not same(f, v.a[3][0], c):
                return "a short encoding becomes %s" % show(v)[:120]
            return None if not cm and not gm else "stores a node that is inlined in its parent"
        h = mk("call", "keccak", c)
        if v.op != "adt" or v.a[1] != "Hash" or not same(f, v.a[3][0], h):
            return "a long encoding becomes %s" % show(v)[:120]
        k = mk("field", h, "0")
        if not any(same(f, m[0], k) and same(f, m[1], c) for m in cm):
            return "the new node is not recorded under its hash"
        if not any(same(f, m[0], k) for m in gm):
            return "the new node's key is not recorded as generated"
        if len(cm) != 1 or len(gm) != 1:
            return "records more than the new node"
        return None
    rows = [Row("Hash", [variant(node, "Hash")], ref),
            Row("node", [(mk_isv(node, "Hash"), False)], node_case)]
    table(ctx, "writer", s, rows)


def batch_rows(ctx):
    for name, single in (("insert_batch", INS1), ("remove_batch", REM1)):
        d = ctx.db("pmt")
        impls = [f for q, f in d.by_path.items() if f.crate == "pmt" and f.name == name and (f.path == DBT + "::" + name or f.impl_trait == DBT)]
        ctx.floor("batch", name, len(impls), 1, "definitions")
        for fn in impls:
            s = ctx.summ(fn, lambda g: g.path == single or g.impl_trait == DBT, "batch", fine=True)
            batch_case(ctx, s, single)


def batch_op(e, single, store):
    """(receiver, key, value, fallible result) of a single storage operation: the trait's, or the map operation of the in-memory database"""
    if e.kind == "call" and e.name == single:
        r = e.res.a
        return r[1], r[2], r[3] if len(r) > 3 else None, e.res
    if e.kind == "mut" and e.name == single.split("::")[-1] and store is not None:
        g = [x for x in subterms(e.args[0]) if x.op == "guard" and x.a[0] == "write" and x.a[1] is store]
        if g:
            return None, e.args[1], e.args[2] if len(e.args) > 2 else None, None
    return None


def batch_case(ctx, s, single):
    q = s.fn.qual
    a = [mk("arg", i, s.fn.locals[i + 1]["n"]) for i in range(s.fn.argc)]
    selfv, ks = a[0], a[1]
    vs = a[2] if len(a) > 2 else None
    mem = "MemoryDB" in q
    store = mk("field", selfv, "storage") if mem else None
    light = mk("field", selfv, "light")
    calls = 0
    for o in s.outs:
        if o.kind == "panic":
            continue
        es = [x for x in (batch_op(e, single, store) for e in o.events) if x]
        f = o.facts
        if mem and vs is None and f.truth(light) is False:
            ctx.ob("batch", q, not muts_of(o), "removal changes the map although the mode keeps entries", "mode")
            continue
        if is_err(o):
            r = es[-1][3] if es else None
            ok = r is not None and f.truth(mk_isv(r, "Ok")) is False and same(f, o.val, interp.Err(payload(r, "Err")))
            ctx.ob("batch", q, ok or o.val is r, "an error of the storage becomes %s" % show(o.val)[:120], "err")
            continue
        # a batch has as many values as keys
        g = f.assume(mk_eq(ln(ks), ln(vs)), True) if vs is not None else f
        ok = any(exhausted(s.I, g, l, ks) or vs is not None and exhausted(s.I, g, l, vs) for l in s.I.loops) \
            or vs is not None and any(k.op == "more" and v is False and zips(k.a[0], ks, vs) for k, v in f.d.items())
        ctx.ob("batch", q, ok, "success is reported before every element was handled", "exhaust")
    for L in s.I.loops.values():
        for b in L.backs:
            f = b.facts
            if mem and vs is None and f.truth(light) is False:
                continue
            es = [x for x in (batch_op(e, single, store) for e in evlist_since(b, L)) if x]
            if not es:
                ctx.ob("batch", q, False, "an element is skipped", "skip")
                continue
            calls += 1
            ctx.ob("batch", q, len(es) == 1, "an element is handled more than once", "once")
            rc, k, v, r = es[0]
            ctx.ob("batch", q, (rc is None or rc is selfv) and at_pos(k, ks, L.id), "handles %s instead of the key at the position" % show(k)[:120], "key")
            if vs is not None:
                ctx.ob("batch", q, v is not None and at_pos(v, vs, L.id), "stores %s instead of the value at the position" % show(v)[:120], "val")
            if mem and vs is None and r is None:
                ctx.ob("batch", q, f.truth(light) is True, "removal does not depend on the mode", "mode")
            ctx.ob("batch", q, r is None or f.truth(mk_isv(r, "Ok")) is True, "a failure of the storage is ignored", "ignored")
    ctx.floor("batch", q, calls, 1, "element operations")


def muts_of(o):
    return [e for e in o.events if e.kind == "mut"]


def zips(it, a, b):
    return it.op == "it" and it.a[0] == "zip" and {it.a[1], it.a[2]} == {a, b}


def evlist_since(b, L):
    r = []
    e = b.ev
    while e is not None and e is not L.head_ev:
        r.append(e)
        e = e.prev
    return r[::-1]


def at_pos(t, seq, lid):
    """t is the element of seq at the loop's position"""
    if t.op == "elem" and t.a[0] is seq and str(t.a[1]) == str(lid):
        return True
    if t.op == "idx" and t.a[0] is seq and t.a[1].op == "ind" and str(t.a[1].a[0]) == str(lid) and t.a[1].a[1] is INT0:
        return True
    return False
