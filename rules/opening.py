"""Patricia trie: opening a trie (P14)."""
from pmt import *

PENDING = ("cache", "passing_keys", "gen_keys")
SHARED = ("::Arc", "::Rc", "::Cell", "::RefCell", "::Mutex", "::RwLock", "::OnceCell", "::OnceLock", "::UnsafeCell", "::LazyLock", "::Weak")


def constructors(ctx):
    d = ctx.db("pmt")
    return [f for f in d.by_path.values() if f.crate == "pmt" and f.kind == "fn" and not f.derived and tyis(retty(f), "inner::InnerTrie")]


def is_arc(t):
    while isinstance(t, dict) and t.get("k") == "ref":
        t = t["t"]
    return isinstance(t, dict) and t.get("k") == "adt" and t["p"].endswith("::Arc")


def empties(v):
    return v is EMPTY or v.op == "empty" or v.op == "arr" and not v.a[0]


def check_open(ctx):
    ctx.rule("fields", "a handle made from storage alone has the empty node as root and the hash of the empty node's encoding; one made from a handle and a hash has a root that "
             "refers to that hash, which is also its root hash; both start with nothing pending and use the storage given")
    ctx.rule("quiet", "making a handle calls no storage operation and changes no other handle")
    ctx.rule("apart", "no field of a handle but its storage can be shared between handles")
    d = ctx.db("pmt")
    cs = constructors(ctx)
    kinds = set()
    for f in cs:
        s = ctx.summ(f, vocab(ctx), "open", fine=True)
        ps = params(f)
        me = [mk("arg", i, n or "a%d" % i) for i, n, t in ps if tyis(t, "inner::InnerTrie")]
        h = [mk("arg", i, n or "a%d" % i) for i, n, t in ps if tyis(t, "H256") or str(t.get("p", "")).endswith("H256")]
        db = [mk("arg", i, n or "a%d" % i) for i, n, t in ps if is_arc(t)]
        if me and h and len(ps) == 2:
            kinds.add("at")
            root = lambda v: is_hashnode(v, h[0])
            rh = lambda v: v is h[0]
            dbs = [mk("field", me[0], "db")]
        elif db and len(ps) == 1:
            kinds.add("new")
            root = lambda v: v.op == "adt" and v.a[1] == "Empty"
            rh = lambda v: v.op == "call" and v.a[0] == "keccak" and is_null_rlp(v.a[1])
            dbs = db
        else:
            # anything else that returns a handle: a copy of one that exists, or made by one of the two
            continue
        for o in s.outs:
            if o.kind != "ret":
                ctx.ob("fields", f.qual, False, "can panic", "panic")
                continue
            v = o.val
            ctx.ob("fields", f.qual, root(proj(v, "root")), "the root is %s" % show(proj(v, "root"))[:120], "root")
            ctx.ob("fields", f.qual, rh(proj(v, "root_hash")), "the root hash is %s" % show(proj(v, "root_hash"))[:120], "root_hash")
            ctx.ob("fields", f.qual, proj(v, "db") in dbs, "the storage is %s" % show(proj(v, "db"))[:120], "db")
            for p in pending(ctx):
                ctx.ob("fields", f.qual, empties(proj(v, p)), "%s starts as %s" % (p, show(proj(v, p))[:120]), p)
            bad = [e for e in o.events if e.kind in ("mut", "lock") or e.kind == "call" and e.name.startswith(DBT + "::")]
            ctx.ob("quiet", f.qual, not bad, "does %s" % bad[:1], "effects")
    ctx.ob("fields", "crate", "new" in kinds, "no constructor from storage", "new")
    ctx.ob("fields", "crate", "at" in kinds, "no constructor from a handle and a root hash", "at")
    a = next((x for x in d.adts.values() if x.get("p") == "inner::InnerTrie" and x.get("local", True)), None)
    if a is None:
        raise Missing("inner::InnerTrie")
    n = 0
    for fl in a["v"][0]["f"]:
        if is_arc(fl["ty"]) and fl["n"] == "db":
            continue
        n += 1
        sh = [p for p in typaths(d, fl["ty"], set()) if any(p.endswith(x) for x in SHARED) or p in ("&", "*")]
        ctx.ob("apart", "pmt::inner::InnerTrie", not sh, "field %s can be shared: %s" % (fl["n"], sh), fl["n"])
    ctx.floor("apart", "pmt::inner::InnerTrie", n, 3, "fields")


def pending(ctx):
    """the collections of a handle: what it has not committed yet"""
    d = ctx.db("pmt")
    a = next(x for x in d.adts.values() if x.get("p") == "inner::InnerTrie")
    r = []
    for fl in a["v"][0]["f"]:
        p = fl["ty"].get("p", "")
        if any(p.endswith(x) for x in ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "::Vec")):
            r.append(fl["n"])
    if len(r) < 3:
        raise Missing("collections of pending nodes")
    return r


def typaths(d, t, seen):
    """every type constructor that a value of this type holds"""
    if isinstance(t, list):
        for x in t:
            yield from typaths(d, x, seen)
        return
    if not isinstance(t, dict):
        return
    k = t.get("k")
    if k == "ref":
        yield "&"
        yield from typaths(d, t["t"], seen)
    elif k in ("ptr", "rawptr"):
        yield "*"
    elif k == "adt":
        key = (t["p"], str(t.get("a")))
        if key in seen:
            return
        seen.add(key)
        yield t["p"]
        yield from typaths(d, t.get("a", []), seen)
        a = d.adts.get(t["id"])
        if a and a.get("local"):
            for v in a["v"]:
                for f in v["f"]:
                    yield from typaths(d, f["ty"], seen)
    elif k in ("tuple", "array", "slice"):
        yield from typaths(d, t.get("a", t.get("t")), seen)


def is_hashnode(v, h):
    if v.op == "adt" and v.a[1] == "Hash":
        x = v.a[3][0]
        return proj(x, "hash") is h
    return False


def is_null_rlp(x):
    return "NULL_RLP" in show(x) or x.op == "bytes" and tuple(x.a[0]) == (0x80,) or x.op == "arr" and [getattr(y, "a", [None])[0] for y in x.a[0]] == [0x80]
