"""Vocabulary of the Patricia trie rules: found by type and role, not by private names."""
from lib import *

NODE = "node::Node"
TRIE = "pmt::<inner::InnerTrie<D> as trie::Trie<D>>::"


def tyis(t, path):
    while isinstance(t, dict) and t.get("k") == "ref":
        t = t["t"]
    return isinstance(t, dict) and t.get("k") == "adt" and t["p"] == path


def isbytes(t):
    while isinstance(t, dict) and t.get("k") == "ref":
        t = t["t"]
    if not isinstance(t, dict):
        return False
    if t.get("k") == "slice":
        return t["t"].get("s") == "u8"
    return t.get("k") == "adt" and t["p"] == "alloc::vec::Vec" and t["a"] and t["a"][0].get("s") == "u8"


def params(fn):
    return [(i, fn.locals[i + 1]["n"], fn.locals[i + 1]["ty"]) for i in range(fn.argc)]


def retty(fn):
    return fn.locals[0]["ty"]


def is_res_of(t, path):
    return isinstance(t, dict) and t.get("k") == "adt" and t["p"] == interp.RES and t["a"] and tyis(t["a"][0], path)


def roles(ctx):
    """decoder: bytes -> Result<Node>; encoder: Node -> bytes"""
    d = ctx.db("pmt")
    r = getattr(d, "_roles", None)
    if r is not None:
        return r
    dec, enc = [], []
    for q, f in d.by_path.items():
        if f.crate != "pmt" or f.kind != "fn" or f.derived or f.impl_trait:
            continue
        ps = params(f)
        if is_res_of(retty(f), NODE) and any(isbytes(t) for _, _, t in ps) and not any(
                tyis(t, NODE) or tyis(t, "nibbles::Nibbles") for _, _, t in ps):
            dec.append(f)
        if isbytes(retty(f)) and any(tyis(t, NODE) for _, _, t in ps):
            enc.append(f)
    r = d._roles = (dec, enc)
    return r


NIB_OPAQUE = {"common_prefix", "from_raw", "from_compact", "encode_compact"}


def vocab(ctx, *extra):
    dec, enc = roles(ctx)
    ids = {f.id for f in dec}

    def opaque(fn):
        if fn.id in ids:
            return True
        if fn.path == "keccak" or (fn.crate == "serde_hash"):
            return True
        if fn.path.startswith("nibbles::Nibbles::") and fn.name in NIB_OPAQUE:
            return True
        return any(x(fn) for x in extra)
    opaque.dropself = ids
    return opaque


def recursive_fns(ctx, entry, types=(NODE,), heads_only=False):
    """functions reachable from `entry` that (mutually) call themselves and take a Node; with heads_only without the helpers that are
    only reached from within a recursion"""
    d = ctx.db(entry.crate)
    import collections
    edges = collections.defaultdict(set)
    seen = set()
    work = [entry]
    while work:
        f = work.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        for b in f.blocks:
            for x in callees_in(b):
                g = d.fns.get(x)
                if g is not None and g.crate == entry.crate:
                    edges[f.id].add(g.id)
                    work.append(g)
    reach = {}

    def reaches(a, b):
        st, vis = [a], set()
        while st:
            x = st.pop()
            for y in edges[x]:
                if y == b:
                    return True
                if y not in vis:
                    vis.add(y)
                    st.append(y)
        return False
    r = []
    for i in seen:
        f = d.fns[i]
        if (types is None or any(tyis(t, NODE) for _, _, t in params(f))) and reaches(i, i):
            r.append(f)
    if not heads_only:
        return r
    # helpers only reached from within the recursion are part of the function that starts it
    called = {}
    for a in seen:
        for b in edges[a]:
            called.setdefault(b, set()).add(a)
    heads = [f for f in r if f is entry or any(not reaches(f.id, a) for a in called.get(f.id, ()))]
    out = list(heads)
    for f in r:
        if f not in heads and not any(reaches(f.id, h.id) and reaches(h.id, f.id) for h in heads):
            out.append(f)
    return out


def callees_in(o):
    """ids of functions and closures mentioned in a block"""
    if isinstance(o, dict):
        if "id" in o and "promoted" not in o and ("ga" in o or o.get("k") == "closure"):
            yield o["id"]
            r = o.get("r")
            if isinstance(r, dict) and "id" in r:
                yield r["id"]
        for v in o.values():
            if isinstance(v, (dict, list)):
                yield from callees_in(v)
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                yield from callees_in(v)
