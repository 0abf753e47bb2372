"""Reading the versioned tree: the walk, its errors, range and exclusion proofs (J03 J07 J16 J17, part of J05)."""
from lib import *
from pmtlib import tyis
import jdb
import seqs
from seqs import simp
from jdb import plain
from jnode import kids, Rep


T_ = "jmt::tree::JellyfishMerkleTree::<R, H>::"
READ = "reader::TreeReader::get_node_option"
VAL = "reader::TreeReader::get_value_option"
CWS = "node_type::InternalNode::get_child_with_siblings"
CWO = "node_type::InternalNode::get_child_without_siblings"
GEN = "node_type::NodeKey::gen_child_node_key"
GETN = "types::nibble::nibble_path::NibblePath::get_nibble"
EXTN = "bytes32ext::Bytes32Ext::get_nibble"
PUSH = "types::nibble::nibble_path::NibblePath::push"
POP = "types::nibble::nibble_path::NibblePath::pop"
NKEY = "node_type::NodeKey"
NPATH = "types::nibble::nibble_path::NibblePath"
OPQ = {CWS, CWO, GEN, GETN, PUSH, POP}
LEVELS = 65


def opq(f):
    return f.crate == "jmt" and (f.path in OPQ or f.name == "get_nibble" or f.name == "get_nibble_path")


def summ(ctx, name, extra=(), key="jr"):
    return ctx.summ(T_ + name, lambda f: opq(f) or f.crate == "jmt" and f.path.startswith("tree::") and f.name in extra, key + ",".join(extra), fine=2, whole_picks=True)


def is_key(t):
    return t.op == "adt" and t.a[0] == NKEY


def root_key(t, version):
    if not is_key(t):
        return False
    return proj(t, "version") is version and is_empty_path(proj(t, "nibble_path"))


def is_empty_path(p):
    return proj(p, "num_nibbles") is INT0 and proj(p, "bytes").op == "empty"


def is_path_of(p, key):
    """p is the whole nibble path of the key"""
    return proj(p, "bytes") is mk("field", key, "0")


class Walk:
    """a loop that goes down from a node key, reading one node per round"""

    def __init__(self, s, reader, key=None):
        self.s, self.reader, self.key = s, reader, key
        self.L = self.nk = None
        cands = []
        for L in s.I.loops.values():
            for v, (init, steps) in L.vars.items():
                rd = mk("call", READ, reader, v)
                if any(mentions_read(x, rd) for x in s.outs + L.backs):
                    cands.append((L, v))
        if len(cands) == 1:
            self.L, self.nk = cands[0]
            self.read = mk("call", READ, reader, self.nk)
            self.node = payload(payload(self.read, "Ok"), "Some")
            self.inner = payload(self.node, "Internal")
            self.leaf = payload(self.node, "Leaf")
            self.init, self.steps = self.L.vars[self.nk]
            self.ind = mk("ind", self.L.id, INT0)
            self.m = {}
            for v, (init, steps) in self.L.vars.items():
                if v.op == "itv" and all(x.op == "adv" and x.a[0] is v for x, _ in steps):
                    st = proj(init, "start")
                    self.m[mk("field", v, "start")] = add(st, self.ind)
                    self.m[mk("field", mk("adv", v), "start")] = add(add(st, self.ind), INT1)

    def ok(self):
        return self.L is not None

    def t(self, x):
        return subst(x, self.m)

    def nibble(self, t, f):
        """t is the key's nibble at the depth of this round"""
        if t.op == "call" and t.a[0] in (GETN, EXTN) or t.op == "call" and t.a[0].endswith("Bytes32Ext>::get_nibble"):
            src = t.a[1]
            if not (is_path_of(src, self.key) or src is mk("field", self.key, "0")):
                return False
            return same(f, self.t(t.a[2]), self.ind)
        return False

    def child_call(self, t, f):
        """(call, nibble) when t is what the node reports for a nibble under this round's node key"""
        if t.op == "call" and t.a[0] in (CWS, CWO) and t.a[1] is self.inner and t.a[2] is self.nk:
            return t, t.a[3]
        return None

    def addressed(self, t, f):
        """the nibble under which t addresses a child of the node just read; None when it does not"""
        if t.op == "field" and t.a[0].op == "as" and t.a[0].a[1] == "Some":
            x = t.a[0].a[0]
            if x.op == "field" and x.a[1] == "0":
                x = x.a[0]
            c = self.child_call(x, f)
            if c:
                return c[1]
        if t.op == "call" and t.a[0] == GEN and t.a[1] is self.nk:
            v, n = t.a[2], t.a[3]
            if is_child_version(v, self.inner, n, f):
                return n
        return None

    def entry(self, f):
        """what this round's read gave: 'err', 'none', 'Internal', 'Leaf', 'Null', or None outside of a round"""
        if f.truth(mk_isv(self.read, "Err")) is True:
            return "err"
        p = payload(self.read, "Ok")
        if f.truth(mk_isv(self.read, "Ok")) is not True:
            return None
        if f.truth(mk_isv(p, "None")) is True:
            return "none"
        for k in ("Internal", "Leaf", "Null"):
            if f.truth(mk_isv(self.node, k)) is True:
                return k
        return "node"

    def depth0(self, f, base=INT0):
        """True / False as the facts say that this is the first round of a walk from the root"""
        d = add(base, self.ind)
        if entails(f, mk_le(d, INT0)):
            return True
        if entails(f, mk_le(INT1, d)) or f.truth(mk_eq(d, INT0)) is False:
            return False
        n = mk("field", mk("field", self.nk, "nibble_path"), "num_nibbles")
        if f.truth(mk_eq(n, INT0)) is True or entails(f, mk_le(n, INT0)):
            return True
        if f.truth(mk_eq(n, INT0)) is False or entails(f, mk_le(INT1, n)):
            return False
        return None

    def enough(self, f, base=INT0):
        """the facts of an exit show that all levels were gone through"""
        if entails(f, mk_le(Int(LEVELS), add(self.ind, base))):
            return True
        for k, v in f.d.items():
            if k.op == "more" and v is False:
                n = self.s.I.seqlen(k.a[0])
                if n is not None and entails(f, mk_le(Int(LEVELS), add(n, base))):
                    return True
        return False


def mentions_read(x, rd):
    f = x.facts
    return any(k is rd or any(y is rd for y in subterms(k)) for k in f.dom)


def is_child_version(v, inner, n, f):
    """v is the version recorded for child n of the inner node"""
    if not (v.op == "field" and v.a[1] == "version"):
        return False
    c = v.a[0]
    if not (c.op == "field" and c.a[1] == "0" and c.a[0].op == "as" and c.a[0].a[1] == "Some"):
        return False
    c = c.a[0].a[0]
    i = n.a[3][0] if n.op == "adt" else mk("field", n, "0")
    return c.op == "idx" and c.a[0] is kids(inner) and same(f, uncast(c.a[1]), uncast(i))


def uncast(t):
    while t.op == "cast":
        t = t.a[1]
    return t


def mre(v):
    for x in subterms(v):
        if x.op == "adt" and x.a[0].endswith("MissingRootError"):
            return x
    return None


def err_of(o):
    if o.val.op == "adt" and o.val.a[1] == "Err":
        return o.val.a[3][0]
    return o.val


def good(o, key):
    """the facts of an outcome for a 32-byte key; None when it cannot be"""
    f = o.facts
    if key is not None:
        n = mk("call", "len", mk("field", key, "0"))
        f = f.assume(mk_eq(n, Int(32)), True)
        if f is not None and (f.ge0_deep(sub(Int(31), n)) or f.ge0_deep(sub(n, Int(33)))):
            return None
    return f if f is None else tighten(f)


def is_proof(v, leaf, sib, f):
    """v is a proof of the leaf (None for none) with one of the sibling lists"""
    if v.op != "adt" or not v.a[0].endswith("SparseMerkleProof"):
        return "gives %s" % show(v)[:100]
    lf = proj(v, "leaf")
    if leaf is None:
        if lf is not NONE:
            return "the proof carries the leaf %s" % show(lf)[:80]
    else:
        x = lf.a[3][0] if lf.op == "adt" and lf.a[1] == "Some" else None
        if x is None or proj(x, "key_hash") is not mk("field", leaf, "key_hash") or proj(x, "value_hash") is not mk("field", leaf, "value_hash"):
            return "the proof carries the leaf %s" % show(lf)[:80]
    sb = proj(v, "siblings")
    if not any(same(f, sb, x) for x in sib):
        return "the proof carries the siblings %s" % show(sb)[:160]
    return None


def value_of(version, at):
    return lambda t: t.op == "call" and t.a[0] == VAL and version_is(t.a[2], version)


def version_is(t, version):
    return t is version or t.op == "call" and t.a[0].startswith("from:") and t.a[1] is version or \
        t.op == "call" and t.a[0].split("::")[-1] in ("into", "from") and t.a[1] is version


# ---------------------------------------------------------------- reading a key
def get_walk(ctx):
    s = summ(ctx, "get_with_proof")
    a = plain(s)
    return s, a, Walk(s, mk("field", a[0], "reader"), a[1])


def check_read(ctx):
    ctx.rule("start", "the walk starts at the root key of exactly the version asked for")
    ctx.rule("step", "each round goes on to the child the node read records for the key's nibble at that depth, addressed under that node's key and the child's recorded version")
    ctx.rule("result", "a leaf of the key gives the value stored at or before the version; a missing child, another key's leaf or an empty root give absence")
    ctx.rule("proof", "the proof carries the leaf found, if any, and the siblings of all levels passed, deepest first")
    ctx.rule("levels", "all levels a key can have are walked")
    s, a, w = get_walk(ctx)
    q = s.fn.qual
    ctx.ob("start", q, w.ok(), "no walk from the root is recognised", "walk")
    if not w.ok():
        return
    key, version = a[1], a[2]
    ctx.ob("start", q, root_key(w.init, version), "starts at %s" % show(w.init)[:120], "root")
    steps(ctx, "step", w, q, lambda n, f: w.nibble(n, f), key)
    S = siblings_var(w)
    ctx.ob("proof", q, S is not None, "no list collects the siblings of every level", "list")
    seen = set()
    for o in s.outs:
        f = good(o, key)
        if f is None:
            continue
        if o.kind == "panic":
            ctx.ob("result", q, False, "can panic", "panic")
            continue
        e = w.entry(f)
        if e is None:
            ctx.ob("levels", q, is_err(o) and w.enough(f), "the walk ends early with %s" % show(o.val)[:100], "levels")
            continue
        err = is_err(o)
        v = None if err else okv(o)
        if e in ("err", "none", "node"):
            ctx.ob("result", q, err, "a result without a node: %s" % show(o.val)[:100], "nonode")
        elif e == "Null":
            d = w.depth0(f)
            if err:
                ctx.ob("result", q, d is False, "an empty tree gives an error", "null")
            else:
                seen.add("null")
                ctx.ob("result", q, d is True and nothing(v), "an empty node gives %s" % show(v)[:100], "null")
                p = is_proof(second(v), None, [EMPTY] + ([S, mk("reversed", S)] if S is not None else []), f)
                ctx.ob("proof", q, p is None, "empty tree: %s" % p, "null")
        elif e == "Leaf":
            eq_ = f.truth(mk_eq(mk("field", w.leaf, "key_hash"), key))
            rd = [t for t in doms(f) if t.op == "call" and t.a[0] == VAL]
            if eq_ is None:
                ctx.ob("result", q, False, "a leaf's key is not compared with the key", "cmp")
                continue
            if not eq_:
                seen.add("other")
                ctx.ob("result", q, not err and nothing(v), "another key's leaf gives %s" % show(o.val)[:100], "other")
            else:
                r = value_read(f, w, version, key)
                if r is None:
                    ctx.ob("result", q, False, "the value is read as %s" % [show(x)[:120] for x in rd], "valread")
                    continue
                kind, val = r
                seen.add("value:" + kind)
                if kind != "some":
                    ctx.ob("result", q, err, "a value that is %s gives %s" % (kind, show(o.val)[:100]), "noval")
                    continue
                x = None if err else first(v)
                ctx.ob("result", q, x is not None and x.op == "adt" and x.a[1] == "Some" and x.a[3][0] is val, "the key's leaf gives %s" % show(o.val)[:100], "value")
            if not err:
                p = is_proof(second(v), w.leaf, [mk("reversed", S)] if S is not None else [], f)
                ctx.ob("proof", q, p is None, "leaf: %s" % p, "leaf")
        else:
            c = here_call(f, w)
            if c is None:
                # only when the key has no nibble left
                ctx.ob("result", q, err and no_nibble(f, w), "an inner node gives %s" % show(o.val)[:100], "inner")
                continue
            gone = f.truth(mk_isv(kid_of(c), "None")) is True and w.nibble(c.a[3], f)
            seen.add("absent")
            ctx.ob("result", q, gone and not err and nothing(v), "a missing child gives %s" % show(o.val)[:100], "absent")
            if not err:
                p = is_proof(second(v), None, [mk("reversed", mk("append", S, mk("field", c, "1")))] if S is not None else [], f)
                ctx.ob("proof", q, p is None, "missing child: %s" % p, "absent")
    for k in ("null", "other", "value:some", "absent"):
        ctx.ob("result", q, k in seen, "case '%s' is not handled" % k, "missing:" + k)


def okv(o):
    return o.val.a[3][0] if o.val.op == "adt" and o.val.a[1] == "Ok" else payload(o.val, "Ok")


def first(v):
    return v.a[0][0] if v.op == "tuple" else mk("field", v, "0")


def second(v):
    return v.a[0][1] if v.op == "tuple" else mk("field", v, "1")


def nothing(v):
    return first(v) is NONE


def doms(f):
    return list(f.dom)


def value_read(f, w, version, key):
    """('some'|'none'|'err', value) of the value read on this path"""
    for t in doms(f):
        if t.op == "call" and t.a[0] == VAL:
            if t.a[1] is not w.reader or not version_is(t.a[2], version) or not same(f, t.a[3], key) and t.a[3] is not mk("field", w.leaf, "key_hash"):
                return None
            if f.truth(mk_isv(t, "Err")) is True:
                return "err", None
            p = payload(t, "Ok")
            if f.truth(mk_isv(p, "None")) is True:
                return "none", None
            if f.truth(mk_isv(p, "Some")) is True:
                return "some", payload(p, "Some")
            return None
    return None


def kid_of(c):
    return mk("field", c, "0") if c.a[0] == CWS else c


def here_call(f, w):
    for t in doms(f):
        x = t.a[0] if t.op == "field" and t.a[1] == "0" else t
        if x.op == "call" and x.a[0] in (CWS, CWO) and x.a[1] is w.inner and x.a[2] is w.nk:
            return x
    return None


def no_nibble(f, w):
    if entails(f, mk_le(Int(64), w.ind)):
        return True
    n = mk("call", "len", mk("field", w.key, "0"))
    if entails(f, mk_le(add(n, n), w.ind)):
        return True
    for k, v in f.d.items():
        if k.op == "more" and v is False:
            n = w.s.I.seqlen(w.t(k.a[0]))
            if n is not None and entails(f, mk_le(Int(64), add(w.ind, w.t(n)))):
                return True
    return False


def steps(ctx, rid, w, q, nib, key):
    k = 0
    for (x, f0) in w.steps:
        o = _O(f0)
        f = good(o, key)
        if f is None:
            continue
        k += 1
        n = w.addressed(x, f) if w.entry(f) == "Internal" else None
        ctx.ob(rid, q, n is not None and nib(n, f), "goes on to %s" % show(x)[:200], "step")
    ctx.floor(rid, q, k, 1, "rounds")


class _O:
    def __init__(self, f):
        self.facts = f


def siblings_var(w):
    """the list that starts empty and gets each level's siblings at its end"""
    for v, (init, st) in w.L.vars.items():
        if v is w.nk or init.op != "empty" or not st:
            continue
        if all(x.op == "append" and x.a[0] is v and x.a[1].op == "field" and x.a[1].a[1] == "1" and w.child_call(x.a[1].a[0], f)
               and x.a[1].a[0].a[0] == CWS and w.nibble(x.a[1].a[0].a[3], f) for x, f in st):
            return v
    return None


HASH = "node_type::Node::hash"


def check_roots(ctx):
    ctx.rule("roothash", "the root hash reported for a version is the hash of the node under that version's root key; with no such node there is none")
    for name, opt in (("get_root_hash", False), ("get_root_hash_option", True)):
        s = ctx.summ(T_ + name, lambda f: f.crate == "jmt" and f.path == HASH, "jrh", fine=2)
        a = plain(s)
        q = s.fn.qual
        seen = set()
        for o in s.outs:
            if o.kind == "panic":
                ctx.ob("roothash", q, False, "can panic", "panic")
                continue
            rd = [t for t in doms(o.facts) if t.op == "call" and t.a[0] == READ]
            rd = [t for t in rd if t.a[1] is mk("field", a[0], "reader") and root_key(t.a[2], a[1])]
            if len(set(rd)) != 1:
                ctx.ob("roothash", q, False, "answers %s without reading the root" % show(o.val)[:100], "read")
                continue
            f, r = o.facts, rd[0]
            if f.truth(mk_isv(r, "Err")) is True:
                seen.add("err")
                ctx.ob("roothash", q, is_err(o), "a storage error gives %s" % show(o.val)[:100], "err")
                continue
            p = payload(r, "Ok")
            if f.truth(mk_isv(p, "None")) is True:
                seen.add("none")
                ctx.ob("roothash", q, okv(o) is NONE if opt and not is_err(o) else not opt and is_err(o), "no root gives %s" % show(o.val)[:100], "none")
            elif f.truth(mk_isv(p, "Some")) is True:
                seen.add("some")
                h = None if is_err(o) else okv(o)
                if opt and h is not None:
                    h = h.a[3][0] if h.op == "adt" and h.a[1] == "Some" else None
                if h is not None:
                    h = h.a[3][0] if h.op == "adt" else mk("field", h, "0")
                ctx.ob("roothash", q, h is not None and h.op == "call" and h.a[0] == HASH and h.a[1] is payload(p, "Some"), "a root gives %s" % show(o.val)[:100], "some")
            else:
                ctx.ob("roothash", q, False, "answers %s whatever was read" % show(o.val)[:100], "any")
        ctx.ob("roothash", q, seen == {"err", "none", "some"}, "cases handled: %s" % sorted(seen), "cases")


# ---------------------------------------------------------------- errors
def check_missing(ctx):
    ctx.rule("root", "a walk that finds no node at the root fails with the missing-root error naming the version asked for")
    ctx.rule("other", "a storage error, a node missing below the root, and a missing value are errors of another kind, and never absence")
    ctx.rule("pass", "proofs built on a read hand its error on")
    for name, base in (("get_with_proof", 0), ("search_for_closest_node", 0), ("get_extreme_key_hash", 1)):
        errors_of(ctx, name, base)
    wrappers(ctx)


def errors_of(ctx, name, base):
    s = summ(ctx, name)
    a = plain(s)
    q = s.fn.qual
    ver = version_arg(s, a)
    key = key_arg(s, a)
    w = Walk(s, mk("field", a[0], "reader"), key)
    ctx.ob("root", q, w.ok(), "no walk is recognised", "walk")
    if not w.ok():
        return
    seen = set()
    for o in s.outs:
        f = good(o, key)
        if f is None:
            continue
        start = INT0
        if base:
            # this walk starts below the root
            d = depth_arg(s, a)
            if d is not None:
                start = d
                f = f.assume(mk_le(INT1, d), True)
                f = f and tighten(f)
                if f is None:
                    continue
        if o.kind == "panic":
            continue
        e = w.entry(f)
        m = mre(o.val)
        if e == "none":
            d = w.depth0(f, start)
            if base and d is None:
                d = False
            seen.add(d)
            if d is True:
                ctx.ob("root", q, is_err(o) and m is not None and proj(m, "version") is ver, "a missing root gives %s" % show(o.val)[:100], "root")
            elif d is False:
                ctx.ob("other", q, is_err(o) and m is None, "a node missing below the root gives %s" % show(o.val)[:100], "below")
            else:
                ctx.ob("root", q, False, "a missing node gives %s wherever it is" % show(o.val)[:100], "where")
        elif e == "err":
            seen.add("err")
            ctx.ob("other", q, is_err(o) and m is None, "a storage error gives %s" % show(o.val)[:100], "err")
        else:
            ctx.ob("other", q, m is None, "reports a missing root although there is a node", "mre")
            r = [t for t in doms(f) if t.op == "call" and t.a[0] == VAL]
            if r and not any(f.truth(mk_isv(payload(t, "Ok"), "Some")) is True for t in r):
                seen.add("val")
                ctx.ob("other", q, is_err(o), "a missing value gives %s" % show(o.val)[:100], "val")
    for k in (True, False, "err") if not base else (False, "err"):
        ctx.ob("root", q, k in seen, "the case of %s is not handled" % {True: "a missing root", False: "a missing node", "err": "a storage error"}[k], "missing:%s" % k)


def version_arg(s, a):
    for x in a[1:]:
        if tyname(s, x) == "u64":
            return x
    return None


def key_arg(s, a):
    for x in a[1:]:
        if tyname(s, x).endswith("KeyHash"):
            return x
    return None


def depth_arg(s, a):
    for x in a[1:]:
        if tyname(s, x) == "usize":
            return x
    return None


def tyname(s, x):
    t = s.fn.locals[x.a[0] + 1]["ty"]
    while t.get("k") == "ref":
        t = t["t"]
    return t.get("s") or t.get("p") or ""


def wrappers(ctx):
    GWP = "get_with_proof"
    n = 0
    for name in ("get_with_exclusion_proof", "get_range_proof", "get_bounding_path"):
        inner = (GWP, "get_bounding_path", "search_for_closest_node", "search_closest_extreme_node")
        s = summ(ctx, name, tuple(x for x in inner if x != name))
        n += handed(ctx, s, inner)
    s = summ(ctx, "search_closest_extreme_node", ("get_extreme_key_hash",))
    n += handed(ctx, s, ("get_extreme_key_hash",))
    for q in ("jmt::<tree::JellyfishMerkleTree<R, H> as trie::VersionedTrie<R, H>>::get_proof", "jmt::<tree::JellyfishMerkleTree<R, H> as trie::VersionedTrie<R, H>>::verify_proof"):
        s = ctx.summ(q, lambda f: f.name in (GWP, "verify") and f.crate == "jmt", "j07t", fine=2)
        n += handed(ctx, s, (GWP,))
    ctx.floor("pass", "jmt", n, 10, "reads handed on")


def handed(ctx, s, names):
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            continue
        for t in doms(o.facts):
            if t.op == "call" and t.a[0].split("::")[-1] in names and t.a[0].startswith("tree::") and o.facts.truth(mk_isv(t, "Err")) is True:
                n += 1
                e = payload(t, "Err")
                ok = is_err(o) and any(x is e or x is t for x in subterms(o.val)) and mre(o.val) is None
                ctx.ob("pass", s.fn.qual, ok, "an error of %s gives %s" % (t.a[0].split("::")[-1], show(o.val)[:80]), "err:" + t.a[0].split("::")[-1])
    return n


# ---------------------------------------------------------------- range proofs
def elem_pos(x, S, lid):
    """the position in S that x is the element of, in round `ind` of the loop"""
    ind = mk("ind", lid, INT0)
    if x.op == "elem" and str(x.a[1]) == str(lid):
        src = x.a[0]
        if src is S:
            return ind
        y = seqs.at(src, ind)
        if y.op == "idx" and y.a[0] is S:
            return y.a[1]
    if x.op == "idx" and x.a[0] is S:
        return x.a[1]
    return None


def key_bit(f, key, q):
    """the value of the key's bit q that the facts fix, or None"""
    for k, v in f.d.items():
        b = as_bit(k, v)
        if b is None:
            # the bit as a query on the key
            if k.op == "call" and k.a[0].endswith("get_bit") and len(k.a) == 3 and isinstance(v, bool):
                b = bits_of(k.a[1]), k.a[2], v
        if b is not None and b[0] is mk("field", key, "0") and same(f, b[1], q):
            return b[2]
    return None


def bits_of(t):
    if t.op == "adt" and t.a[0].endswith("HashValueBitIterator"):
        return proj(t, "hash_bytes")
    if t.op == "adt" and t.a[0] == NPATH:
        return proj(t, "bytes")
    return t


def check_range(ctx):
    ctx.rule("value", "only a key with a value at the version gets a range proof")
    ctx.rule("right", "a sibling is kept exactly when the key's bit at its level is 0 (the key is on the left of it)")
    ctx.rule("order", "the kept siblings are in the order of the key's own proof, from the bottom up, and all levels are looked at")
    s = ctx.summ(T_ + "get_range_proof", lambda f: f.crate == "jmt" and f.name in ("get_with_proof",), "j17", fine=2)
    a = plain(s)
    q = s.fn.qual
    key, version = a[1], a[2]
    seen = set()
    for o in s.outs:
        g = [t for t in doms(o.facts) if t.op == "call" and t.a[0] == "tree::JellyfishMerkleTree::<R, H>::get_with_proof"]
        g = [t for t in g if t.a[1] is a[0] and t.a[2] is key and t.a[3] is version]
        if len(set(g)) != 1:
            ctx.ob("value", q, False, "%s without reading the key at the version" % show(o.val)[:80], "read")
            continue
        g = g[0]
        if o.facts.truth(mk_isv(g, "Err")) is True:
            continue
        r = payload(g, "Ok")
        S = mk("field", mk("field", r, "1"), "siblings")
        n = mk("call", "len", S)
        f = o.facts.assume(mk_le(n, Int(256)), True)
        f = f and good(_O(f), key)
        if f is None:
            continue
        val = f.truth(mk_isv(mk("field", r, "0"), "Some"))
        m32 = {mk("call", "len", mk("field", key, "0")): Int(32)}
        if o.kind == "panic":
            base = Facts().assume(mk_le(n, Int(256)), True)
            for L in s.I.loops:
                base = base.assume(mk_le(INT0, mk("ind", s.I.loops[L].id, INT0)), True)
            ctx.ob("value", q, seqs.under(o, m32, base) is None, "can panic", "panic")
            continue
        if val is not True:
            seen.add("none")
            ctx.ob("value", q, val is False and is_err(o), "a key without a value gives %s" % show(o.val)[:80], "none")
            continue
        if is_err(o):
            ctx.ob("value", q, False, "a key with a value gives an error", "err")
            continue
        seen.add("some")
        v = okv(o)
        v = proj(v, "right_siblings")
        rev = False
        while v.op == "reversed" or v.op == "it" and v.a[0] == "rev":
            rev = not rev
            v = v.a[0] if v.op == "reversed" else v.a[1]
        if f.ge0_deep(neg(n)) or f.truth(mk_eq(n, INT0)) is True:
            if v.op == "empty":
                continue
        if v.op == "coll":
            collected(ctx, s, q, f, subst(v, m32), S, n, key, rev, seen)
            continue
        L = None
        for x in s.I.loops.values():
            if v in x.vars:
                L = x
        ctx.ob("right", q, L is not None and L.vars[v][0].op == "empty", "the siblings are %s" % show(v)[:120], "list")
        if L is None:
            continue
        ind = mk("ind", L.id, INT0)
        m = {}
        for y, (init, st) in L.vars.items():
            if y.op == "itv":
                b = proj(init, "start") if init.op == "adt" and init.a[0].endswith("::Range") else INT0
                m[mk("field", y, "start")] = add(b, ind)
        last = sub(sub(n, INT1), ind)

        def judge(x, g, keep):
            """x: the sibling of this round, None when not known"""
            g = g.assume(mk_le(n, Int(256)), True)
            g = g and tighten(g)
            if g is None:
                return
            p = last if rev else ind
            if x is not None:
                px = elem_pos(subst(x, m), S, L.id)
                ctx.ob("order", q, px is not None and same(g, subst(px, m), p), "round %s looks at %s" % (show(ind), show(x)[:120]), "pos")
            bit = key_bit(g, key, sub(sub(n, INT1), p))
            ctx.ob("right", q, bit is (not keep), "a sibling is %s when its bit is %s" % ("kept" if keep else "dropped", "not known" if bit is None else int(bit)), "keep:%s" % keep)
            seen.add(keep)

        for x, g in L.vars[v][1]:
            if x is v:
                judge(None, g, False)
            elif x.op == "push" and x.a[0] is v:
                judge(x.a[1], g, True)
            else:
                ctx.ob("right", q, False, "a round makes the list %s" % show(x)[:120], "step")
        for x, g in s.I.rejects.get(str(L.id), ()):
            judge(x.a[0][0] if x.op == "tuple" else None, g, False)
        ctx.ob("order", q, all_rounds(s, f, L, n), "not all levels are looked at", "all")
    for k in ("none", "some", True, False):
        ctx.ob("value", q, k in seen, "case %s is not handled" % k, "missing:%s" % k)


def collected(ctx, s, q, f, v, S, n, key, rev, seen):
    """the list is what a loop collects: at most one element per round, under a condition"""
    lid = "\u2022%d" % v.a[0]
    ind = mk("ind", lid, INT0)
    c = count_of(s, v.a[1])
    ctx.ob("order", q, c is not None and entails(f, mk_le(n, c)), "not all levels are looked at", "all")
    last = sub(sub(n, INT1), ind)
    p = last if rev else ind
    g = f.assume(mk_le(INT0, ind), True)
    g = g and g.assume(mk_lt(ind, n), True)
    if g is None:
        return
    ks = jdb.seq_cases(v)[1]
    ctx.ob("right", q, len(ks) == 1, "the siblings are kept under %d conditions" % len(ks), "conds")
    for guards, x in ks[:1]:
        px = elem_pos(x, S, lid)
        ctx.ob("order", q, px is not None and same(g, px, p), "round %s looks at %s" % (show(ind), show(x)[:120]), "pos")
        rest = []
        bit = None
        for c, t in guards:
            b = as_bit(c, bool(t))
            if b is not None and b[0] is mk("field", key, "0") and same(g, b[1], sub(sub(n, INT1), p)):
                bit = b[2]
            elif not holds(s, g, c, bool(t)):
                rest.append(c)
        ctx.ob("right", q, bit is False and not rest, "a sibling is kept when its bit is %s%s" % (bit, "".join(" and " + show(c)[:80] for c in rest)), "keep")
        if bit is False:
            seen |= {True, False}


def holds(s, f, c, t):
    if c.op == "more" and t:
        r = c.a[0]
        if r.op == "adt" and r.a[0].endswith("::Range"):
            return entails(f, mk_lt(r.a[3][0], r.a[3][1]))
        return False
    if f.truth(c) is t:
        return True
    if t and entails(f, c):
        return True
    # index of the byte that holds a bit
    if t and c.op == "ge0":
        d, m = lin_of(c.a[0])
        for x, k in m.items():
            if k == -1 and x.op == "bin" and x.a[0] == "Shr" and x.a[2] is Int(3):
                y = add(c.a[0], x)      # y - (i >> 3) >= 0  <=  8*y + 7 - i >= 0
                if entails(f, mk_le(x.a[1], add(mul(y, Int(8)), Int(7)))):
                    return True
    return False


def all_rounds(s, f, L, n):
    """the facts after the loop show that it went through n rounds"""
    ind = mk("ind", L.id, INT0)
    if entails(f, mk_le(n, ind)):
        return True
    for k, v in f.d.items():
        if k.op == "more" and v is False and str(k.a[1]).split("~")[0] == str(L.id):
            c = count_of(s, k.a[0])
            if c is not None and entails(f, mk_le(n, c)):
                return True
    return False


def count_of(s, src):
    """how many elements a source offers, whatever it picks of them"""
    if src.op == "it" and src.a[0] in ("filter", "filter_map", "rev", "map", "enumerate", "inspect"):
        return count_of(s, src.a[1])
    if src.op == "it" and src.a[0] == "skip":
        n = count_of(s, src.a[1])
        return None if n is None else sub(n, src.a[2])
    if src.op == "it" and src.a[0] == "zip":
        x, y = count_of(s, src.a[1]), count_of(s, src.a[2])
        if x is None or y is None:
            return None
        for p, q in ((x, y), (y, x)):
            if p.op == "int" and q.op != "int":
                # the list of siblings is at most as long as the key has bits
                return q if p.a[0] >= 256 else None
        return x if x is y else None
    if src.op == "adt" and src.a[0].endswith("HashValueBitIterator"):
        src = proj(src, "pos")
    if src.op == "adt" and src.a[0].endswith("RangeFrom"):
        return Int(1 << 60)
    return s.I.seqlen(src)
