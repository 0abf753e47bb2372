"""Reading and staging never write to storage (J06): an effect analysis over the call graph."""
import re
from lib import *
from jdb import calls_of, changed, data, guards, plain

STORES = ("reader::TreeReader", "db::VersionedDatabase", "writer::TreeWriter", "reader::HasPreimage")
# ways to change something through a shared reference, or outside of the program
SHARED = re.compile(r"(^|[:<& ])(RwLock|Mutex|RefCell|Cell|UnsafeCell|OnceCell|OnceLock|LazyLock|Atomic\w*)(::|<|>|$)|^std::(fs|net|process|io)::|lock_api::")
PART = ("tree::JellyfishMerkleTree", "tree_cache::TreeCache", "tree_cache::FrozenTreeCache", "iterator::JellyfishMerkleIterator", "trie::VersionedTrie")


def base(f):
    return f.path.split("::{")[0]


def is_entry(f):
    h = (f.impl_self or "") + " " + (f.trait or "") + " " + f.path
    return any(p in h for p in PART)


def check_effects(ctx):
    ctx.rule("reads", "nothing that a read, a proof, an iteration or the computation of an update can call is a storage operation that writes")
    ctx.rule("hidden", "none of it changes anything through a lock or cell, or outside the program")
    ctx.rule("store", "the storage operations it does call leave the bundled store as it was")
    d = ctx.db("jmt")
    fns = [f for f in d.by_path.values() if f.crate == "jmt" and getattr(f, "blocks", None)]
    by_id = {f.id: f for f in fns}
    inner = {}
    for f in fns:
        if "::{" in f.path:
            inner.setdefault(base(f), []).append(f)
    impls = {}
    for f in fns:
        if f.impl_trait:
            impls.setdefault((f.impl_trait.split("<")[0], f.name), []).append(f)
    entries = [f for f in fns if is_entry(f) and not f.path.startswith("mock::")]
    ctx.floor("reads", "jmt", len(entries), 40, "functions of trees, staging and iteration")
    seen, via = set(), {}
    work = list(entries)
    used = {}
    while work:
        f = work.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        ctx.fns.add(f.qual)
        for g in inner.get(f.path, ()):
            via.setdefault(g.id, f)
            work.append(g)
        bad = hid = None
        for b in (f.blocks, f.promoted):
            for x in calls_of(b):
                t = trait_of(x)
                if t in STORES:
                    used.setdefault((t, name_of(x)), f)
                    if writes(ctx, t, name_of(x), impls):
                        bad = x["p"]
                    if t == "reader::TreeReader" or t == "db::VersionedDatabase":
                        # a default body may call others of the interface
                        for g in fns:
                            if g.trait == t and g.name == name_of(x):
                                via.setdefault(g.id, f)
                                work.append(g)
                    continue
                if SHARED.search(x["p"]) or SHARED.search(str((x.get("r") or {}).get("p", ""))):
                    hid = x["p"]
                for i in ids(x):
                    g = by_id.get(i)
                    if g is not None and g.id not in seen:
                        via.setdefault(g.id, f)
                        work.append(g)
                # a trait of the crate called on a type parameter: any implementation
                if x.get("trait") and (x["trait"], x.get("name")) in impls:
                    for g in impls[(x["trait"], x.get("name"))]:
                        if g.id not in seen and not g.path.startswith("<mock::"):
                            via.setdefault(g.id, f)
                            work.append(g)
        ctx.ob("reads", f.qual, bad is None, "calls %s (reached by %s)" % (bad, chain(f, via)), bad)
        ctx.ob("hidden", f.qual, hid is None, "uses %s (reached by %s)" % (hid, chain(f, via)), hid)
    ctx.floor("reads", "jmt", len(used), 6, "storage operations called")
    for t, n in sorted(used):
        for g in impls.get((t, n), ()):
            if g.path.startswith("<mock::"):
                ctx.ob("store", g.qual, leaves(ctx, g), "changes the store", "store")


def trait_of(x):
    t = x.get("trait")
    if t is None:
        t = x.get("impl_trait")
    return t.split("<")[0] if t else None


def name_of(x):
    return x.get("name") or x["p"].split("::")[-1]


def ids(x):
    yield x.get("id")
    r = x.get("r")
    if isinstance(r, dict):
        yield r.get("id")


def chain(f, via):
    out = [f.path]
    while f.id in via and len(out) < 8:
        f = via[f.id]
        if f.path in out:
            break
        out.append(f.path)
    return " <- ".join(out)


_W = {}


def writes(ctx, t, n, impls):
    """a storage operation writes when it is of the writing interface, or its implementation in the bundled store does"""
    if t == "writer::TreeWriter":
        return True
    for g in impls.get((t, n), ()):
        if g.path.startswith("<mock::") and not leaves(ctx, g):
            return True
    return n.startswith("update")


def leaves(ctx, g):
    """the store's operation leaves what is behind its lock as it was"""
    k = (id(ctx), g.id)
    if k not in _W:
        s = ctx.summ(g, None, "j06", fine=False)
        selfv = plain(s)[0]
        ok = True
        for o in s.outs:
            for e in guards(o, selfv):
                if e.name == "write" and changed(o, e.res):
                    ok = False
            for e in o.events:
                if e.kind in ("mut", "store") and any(x.op == "guard" and x.a[1] is data(selfv) for x in subterms(e.args[0])):
                    ok = False
        _W[k] = ok
    return _W[k]
