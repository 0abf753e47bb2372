"""The versioned tree's nodes: hashes, positions, leaf counts (J04 J14 J15)."""
from pmtlib import tyis, params, retty, recursive_fns
from lib import *
from jdb import plain, loop_var, sources, el, evs_since

NODE = "jmt::node_type::"
IN = NODE + "InternalNode::"
CH = NODE + "Children::"
NIB = "types::nibble::Nibble"

WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


# ---------------------------------------------------------------- constant folding under a valuation
def ev(t, env):
    """the number a term denotes when its leaves are the given numbers; None when unknown"""
    if t in env:
        return env[t]
    op = t.op
    if op == "int":
        return t.a[0]
    if op == "lin":
        c, d = lin_of(t)
        for x, k in d.items():
            v = ev(x, env)
            if v is None:
                return None
            c += k * v
        return c
    if op == "bin":
        x, y = ev(t.a[1], env), ev(t.a[2], env)
        if x is None or y is None:
            return None
        try:
            return {"Shl": lambda: x << y, "Shr": lambda: x >> y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                    "Rem": lambda: x % y, "Div": lambda: x // y, "Mul": lambda: x * y}[t.a[0]]()
        except (ZeroDivisionError, KeyError, ValueError):
            return None
    if op == "un" and t.a[0] == "Not":
        x = ev(t.a[1], env)
        return None if x is None else ~x
    if op == "cast":
        x = ev(t.a[1], env)
        w = WIDTH.get(t.a[0])
        return None if x is None or w is None else x & ((1 << w) - 1)
    if op == "call" and len(t.a) == 2:
        x = ev(t.a[1], env)
        if x is None or x < 0:
            return None
        n = t.a[0]
        if n == "count_ones":
            return bin(x).count("1")
        if n == "trailing_zeros":
            return (x & -x).bit_length() - 1 if x else 16
        if n == "leading_zeros":
            return 16 - x.bit_length()
        if n == "is_power_of_two":
            return 1 if x and x & (x - 1) == 0 else 0
    return None


def truth(t, env):
    """a condition under the valuation; None when unknown"""
    op = t.op
    if op == "not":
        x = truth(t.a[0], env)
        return None if x is None else not x
    if op in ("and", "or"):
        x, y = truth(t.a[0], env), truth(t.a[1], env)
        if x is None or y is None:
            return None
        return (x and y) if op == "and" else (x or y)
    if op == "ge0":
        x = ev(t.a[0], env)
        return None if x is None else x >= 0
    if op == "eq0":
        x = ev(t.a[0], env)
        return None if x is None else x == 0
    if op == "eq":
        x, y = ev(t.a[0], env), ev(t.a[1], env)
        return None if x is None or y is None else x == y
    x = ev(t, env)
    return None if x is None else x != 0


class Rep:
    """an assignment of a status to each of the sixteen children: N none, L leaf, I inner node"""

    def __init__(self, st):
        self.st = st
        self.E = sum(1 << i for i in range(16) if st[i] != "N")
        self.L = sum(1 << i for i in range(16) if st[i] == "L")

    def ex(self, s, w):
        return [i for i in range(s, s + w) if self.st[i] != "N"]

    def lone(self, s, w):
        x = self.ex(s, w)
        return len(x) == 1 and self.st[x[0]] == "L"


def half(n, h):
    return (n >> h) << h


def placements(pos, k):
    """statuses for a group of positions: nothing, one or two children of each kind, all leaves"""
    out = [{}]
    if pos:
        p = pos[k % len(pos)]
        out += [{p: "L"}, {p: "I"}]
    if len(pos) > 1:
        p, q = pos[k % len(pos)], pos[(k + 1) % len(pos)]
        out += [{p: "L", q: "L"}, {p: "L", q: "I"}, {p: "I", q: "I"}]
    if len(pos) > 2:
        out.append({x: "L" for x in pos})
    return out


def reps_nibble(n):
    """by how many children, and leaves, lie in each of the nested halves that hold nibble n"""
    h = [range(half(n, k), half(n, k) + (1 << k)) for k in (3, 2, 1, 0)]
    groups = [[p for p in h[0] if p not in h[1]], [p for p in h[1] if p not in h[2]], [p for p in h[2] if p not in h[3]], [n]]
    outside = [p for p in range(16) if p not in h[0]]
    k = n
    for a in placements(groups[0], n):
        for b in placements(groups[1], n):
            for c in placements(groups[2], 0):
                for d in placements(groups[3], 0):
                    k += 1
                    o = [{}, {outside[k % 8]: "L"}, {outside[k % 8]: "I", outside[(k + 3) % 8]: "L"}][k % 3]
                    m = {**a, **b, **c, **d, **o}
                    yield Rep(["N" if i not in m else m[i] for i in range(16)])


def reps_range(s, w):
    """by how many children, and leaves, lie in a range and outside it"""
    pos = list(range(s, s + w))
    outside = [p for p in range(16) if p not in pos]
    base = [{}]
    for i, p in enumerate(pos):
        base += [{p: "L"}, {p: "I"}]
        q = pos[(i + 1) % w]
        if q != p:
            base += [{p: "L", q: "L"}, {p: "L", q: "I"}, {p: "I", q: "I"}]
        q = pos[(i + w // 2) % w]
        if q != p:
            base += [{p: "L", q: "I"}, {p: "L", q: "L"}]
    base += [{p: "L" for p in pos}, {p: "I" for p in pos}]
    for k, b in enumerate(base):
        outs = [{}]
        if outside:
            outs += [{outside[k % len(outside)]: "L"}, {outside[k % len(outside)]: "I"}]
        for o in outs:
            m = {**b, **o}
            yield Rep(["N" if i not in m else m[i] for i in range(16)])


def child_status(t, seq, env, rep):
    """variants allowed for a term about one of the children, under the valuation; None when it is about something else"""
    if t.op in ("idx",) and t.a[0] is seq:
        i = ev(t.a[1], env)
        if i is None or not 0 <= i < 16:
            return None
        return {"None"} if rep.st[i] == "N" else {"Some"}
    if t.op == "field" and t.a[1] == "node_type":
        x = t.a[0]
        if x.op == "field" and x.a[1] == "0" and x.a[0].op == "as" and x.a[0].a[1] == "Some":
            c = x.a[0].a[0]
            if c.op == "idx" and c.a[0] is seq:
                i = ev(c.a[1], env)
                if i is None or not 0 <= i < 16 or rep.st[i] == "N":
                    return None
                return {"Leaf"} if rep.st[i] == "L" else {"Internal", "InternalLegacy"}
    return None


def possible(o, seq, env, rep, memo):
    for k, v in o.facts.d.items():
        if k not in memo:
            memo[k] = truth(k, env)
        if memo[k] is not None and memo[k] != v:
            return False
    for t, d in o.facts.dom.items():
        s = child_status(t, seq, env, rep)
        if s is not None and not (s & set(d)):
            return False
    return True


def kids(x):
    return mk("field", mk("field", x, "children"), "children")


def bitmap_roles(s, seq):
    """loop results that are the set of children present (E) or of leaf children (L), as sets of positions"""
    roles = {}
    for lid, L in s.I.loops.items():
        if not any(seq_covers(strip(x), seq, s.I) or is_range16(x) for x in sources(L)):
            continue
        ch = elem_child(L, seq)
        ok = all(absent(f, ch) for t, f in s.I.rejects.get(str(lid), ()))
        if not ok:
            continue
        for lv, (init, steps) in L.vars.items():
            if lv.op != "lv" or init is not INT0 or not steps:
                continue
            for role in "EL":
                if all(bit_step(lv, st, f, ch, L, role) for st, f in steps):
                    roles[lv] = role
                    break
    return roles


def strip(x):
    while x.op == "it" and x.a[0] in ("filter", "filter_map", "inspect", "map", "copied", "cloned"):
        x = x.a[1]
    return x


def is_range16(x):
    x = strip(x)
    while x.op == "it" and x.a[0] in ("rev", "map"):
        x = x.a[1]
    return x.op == "adt" and x.a[0] == "core::ops::range::Range" and x.a[3] == (INT0, Int(16))


def elem_child(L, seq):
    return el(seq, L)


def absent(f, ch):
    return f.truth(mk_isv(ch, "Some")) is False or f.truth(mk_isv(ch, "None")) is True


def bit_step(lv, st, f, ch, L, role):
    there = f.truth(mk_isv(ch, "Some"))
    leaf = f.truth(mk_isv(mk("field", payload(ch), "node_type"), "Leaf"))
    if there is None or role == "L" and there and leaf is None:
        return False
    want = there and (role == "E" or leaf)
    if not want:
        return st is lv
    ind = mk("ind", L.id, INT0)
    if st.op != "bin" or st.a[0] not in ("BitOr", "BitXor") or lv not in st.a[1:]:
        return False
    m = st.a[2] if st.a[1] is lv else st.a[1]
    return all(ev(m, {ind: i}) == 1 << i for i in range(16))


def env_of(roles, rep):
    return {lv: (rep.E if r == "E" else rep.L) for lv, r in roles.items()}


def seq_list(v):
    xs = []
    while v.op == "push":
        xs.append(v.a[1])
        v = v.a[0]
    if v.op == "arr":
        xs.extend(reversed(v.a[0]))
    elif v.op != "empty":
        return None
    return xs[::-1]


def nib_const(n):
    return mk("adt", NIB, "Nibble", ("0",), (Int(n),))


def call_args(t, path):
    if t.op == "call" and t.a[0] == path:
        return t.a[1:]
    if t.op == "eff" and t.a[0] == path:
        return t.a[2:]
    return None


def hash_fn(ctx):
    fs = [f for f in recursive_fns(ctx, ctx.fn(IN + "hash"), None) if not f.impl_trait]
    if len(fs) != 1:
        raise Missing("the recursive hash of an internal node")
    return fs[0]


def mh_is(t, mh, selfv, s, w, rep, env):
    """t is the hash of the range [s, s+w) of the node's children; None or what is wrong"""
    a = call_args(t, mh.path)
    if a is None or len(a) != 4:
        return "is %s, not the hash of a range" % show(t)[:80]
    if a[0] is not selfv:
        return "is a hash of another node"
    x, y = ev(a[1], env), ev(a[2], env)
    if (x, y) != (s, w):
        return "covers positions %s+%s instead of %d+%d" % (x, y, s, w)
    m = ((1 << w) - 1) << s
    e, l = ev(proj(a[3], "0"), env), ev(proj(a[3], "1"), env)
    if e is None or l is None or e & m != rep.E & m or l & m != rep.L & m:
        return "is computed from other children than the node's"
    return None


def check_positions(ctx):
    ctx.rule("range", "the hash of a range of positions is the placeholder when it is empty, the child's hash when it holds a single leaf or is one position wide, and otherwise "
             "the inner hash of its left and right halves; for every aligned range and every number of children and leaves in it")
    ctx.rule("node", "an internal node's hash is that of all sixteen positions, over the children it has")
    ctx.rule("child", "the child returned for a nibble is the one in the smallest half around it that decides it, addressed by its own position and version, or none when that half is empty")
    ctx.rule("siblings", "the siblings returned are the hashes of the opposite halves, widest first, down to the level that decides")
    ctx.rule("slots", "children are kept by position: storing, fetching and removing touch that position only, and the count follows")
    mh = hash_fn(ctx)
    flt = lambda f: f is mh
    once = lambda fr: True
    # --- ranges
    n = 0
    for w in (16, 8, 4, 2, 1):
        for s0 in range(0, 16, w):
            s = ctx.summ(mh, flt, "j14", args={1: Int(s0), 2: Int(w)}, fine=2, unroll=once)
            selfv = mk("arg", 0, "self")
            bm = mk("arg", 3, mh.locals[4]["n"] or "a3")
            B = [mk("field", bm, "0"), mk("field", bm, "1")]
            seq = kids(selfv)
            for rep in reps_range(s0, w):
                env = {B[0]: rep.E, B[1]: rep.L}
                memo = {}
                n += 1
                for o in s.outs:
                    if possible(o, seq, env, rep, memo):
                        p = range_case(o, mh, selfv, seq, s0, w, rep, env)
                        ctx.ob("range", mh.qual, p is None, "%d positions from %d: %s" % (w, s0, p), "w%d:%s" % (w, p))
    ctx.floor("range", mh.qual, n, 31 * 5, "cases")
    # --- the whole node
    s = ctx.summ(IN + "hash", flt, "j14h", fine=2)
    selfv = plain(s)[0]
    roles = bitmap_roles(s, kids(selfv))
    for rep in reps_range(0, 16):
        env = env_of(roles, rep)
        memo = {}
        k = 0
        for o in s.outs:
            if possible(o, kids(selfv), env, rep, memo):
                k += 1
                p = "can panic" if o.kind == "panic" else mh_is(o.val, mh, selfv, 0, 16, rep, env)
                ctx.ob("node", s.fn.qual, p is None, "the hash %s" % p, "hash:%s" % p)
        ctx.ob("node", s.fn.qual, k > 0, "some children are not covered", "none")
    # --- children and siblings of a nibble
    for name, sib in (("get_child_with_siblings", True), ("get_child_without_siblings", False)):
        for nib in range(16):
            nib_case(ctx, IN + name, sib, nib, mh, once)
    slots(ctx)


def range_case(o, mh, selfv, seq, s0, w, rep, env):
    if o.kind == "panic":
        return "can panic"
    x = rep.ex(s0, w)
    v = o.val
    if not x:
        return None if is_placeholder(v) else "an empty range hashes to %s" % show(v)[:80]
    if w == 1 or rep.lone(s0, w):
        if v.op == "field" and v.a[1] == "hash":
            c = v.a[0]
            if c.op == "field" and c.a[0].op == "as" and c.a[0].a[0].op == "idx" and c.a[0].a[0].a[0] is seq and ev(c.a[0].a[0].a[1], env) == x[0]:
                return None
        return "a single child's range hashes to %s" % show(v)[:80]
    if v.op != "H" or v.a[0] != "sha256" or len(v.a) != 4:
        return "a range with several children, or one inner node, hashes to %s" % show(v)[:80]
    if not is_tag(v.a[1], INTERNAL):
        return "the inner hash starts with %s" % show(v.a[1])[:60]
    p = mh_is(v.a[2], mh, selfv, s0, w // 2, rep, env)
    if p is not None:
        return "the left input %s" % p
    p = mh_is(v.a[3], mh, selfv, s0 + w // 2, w // 2, rep, env)
    return None if p is None else "the right input %s" % p


INTERNAL = b"JMT::IntrnalNode"
LEAF = b"JMT::LeafNode"
PLACEHOLDER = b"SPARSE_MERKLE_PLACEHOLDER_HASH__"


def as_bytes(t):
    if t.op == "bytes":
        return t.a[0] if isinstance(t.a[0], bytes) else str(t.a[0]).encode("latin1")
    return None


def is_tag(t, tag):
    return as_bytes(t) == tag


def is_placeholder(t):
    return as_bytes(t) == PLACEHOLDER


def nib_case(ctx, q, sib, n, mh, once):
    opq = lambda f: f is mh or f.name == "gen_child_node_key"
    s = ctx.summ(q, opq, "j14n", args={2: nib_const(n)}, fine=2, unroll=once)
    selfv, nk = mk("arg", 0, "self"), mk("arg", 1, s.fn.locals[2]["n"] or "a1")
    seq = kids(selfv)
    roles = bitmap_roles(s, seq)
    for rep in reps_nibble(n):
        env = env_of(roles, rep)
        memo = {}
        k = 0
        # where the path is decided
        for h in (3, 2, 1, 0):
            x = rep.ex(half(n, h), 1 << h)
            if not x or h == 0 or rep.lone(half(n, h), 1 << h):
                break
        for o in s.outs:
            if not possible(o, seq, env, rep, memo):
                continue
            k += 1
            if o.kind == "panic":
                ctx.ob("child", q, False, "can panic", "panic")
                continue
            c = proj(o.val, "0") if sib else o.val
            p = child_is(o, c, x[0] if x else None, seq, nk, env)
            ctx.ob("child", q, p is None, "nibble %d, %s: %s" % (n, "".join(rep.st), p), "child")
            if sib:
                xs = seq_list(proj(o.val, "1"))
                p = None
                if xs is None or len(xs) != 4 - h:
                    p = "%s siblings instead of %d" % (len(xs) if xs is not None else "unrecognised", 4 - h)
                else:
                    for t, g in zip(xs, (3, 2, 1, 0)):
                        p = p or mh_is(t, mh, selfv, half(n, g) ^ (1 << g), 1 << g, rep, env)
                ctx.ob("siblings", q, p is None, "nibble %d: a sibling %s" % (n, p), "sib")
        ctx.ob("child", q, k > 0, "nibble %d: a pattern of children is not covered" % n, "none")


def child_is(o, c, i, seq, nk, env):
    if c.op == "adt" and c.a[1] == "None":
        return None if i is None else "no child is returned although there is one"
    if c.op != "adt" or c.a[1] != "Some":
        return "returns %s" % show(c)[:100]
    if i is None:
        return "a child is returned from an empty half"
    k = c.a[3][0]
    a = call_args(k, "node_type::NodeKey::gen_child_node_key")
    if a is None:
        return "returns %s" % show(k)[:100]
    if a[0] is not nk:
        return "the child's key is not made from this node's key"
    v = a[1]
    if not (v.op == "field" and v.a[1] == "version" and v.a[0].op == "field" and v.a[0].a[0].op == "as" and v.a[0].a[0].a[0].op == "idx"
            and v.a[0].a[0].a[0].a[0] is seq and ev(v.a[0].a[0].a[0].a[1], env) == i):
        return "the child is addressed with version %s" % show(v)[:100]
    if ev(proj(a[2], "0"), env) != i:
        return "the child is addressed at position %s instead of %d" % (ev(proj(a[2], "0"), env), i)
    return None


def slots(ctx):
    # one child stored, removed, fetched
    for name in ("insert", "remove"):
        s = ctx.summ(CH + name, None, "j14s", fine=True)
        a = plain(s)
        for o in s.outs:
            if o.kind == "panic":
                continue
            m = final(o, a[0])
            arr0, n0 = mk("field", a[0], "children"), mk("field", a[0], "num_children")
            i = mk("field", a[1], "0")
            want = Some(a[2]) if name == "insert" else NONE
            v = proj(m, "children")
            ok = v.op == "upd" and v.a[0] is arr0 and v.a[1] == ("i", i) and v.a[2] is want or \
                v is arr0 and name == "remove" and absent(o.facts, mk("idx", arr0, i))
            ctx.ob("slots", s.fn.qual, ok, "the children become %s" % show(v)[:120], "slot")
            there = o.facts.truth(mk_isv(mk("idx", arr0, i), "Some"))
            d = (0 if there else 1) if name == "insert" else (-1 if there else 0)
            ctx.ob("slots", s.fn.qual, there is not None and proj(m, "num_children") is add(n0, Int(d)), "the count becomes %s" % show(proj(m, "num_children"))[:80], "count")
    for name, want in (("get", lambda a: mk("idx", mk("field", a[0], "children"), mk("field", a[1], "0"))),
                       ("num_children", lambda a: mk("field", a[0], "num_children"))):
        s = ctx.summ(CH + name, None, "j14s", fine=True)
        a = plain(s)
        for o in s.outs:
            if o.kind == "ret":
                ctx.ob("slots", s.fn.qual, same(o.facts, o.val, want(a)), "returns %s" % show(o.val)[:100], "value")
    s = ctx.summ(CH + "is_empty", None, "j14s", fine=True)
    a = plain(s)
    n0 = mk("field", a[0], "num_children")
    for o in s.outs:
        for v in (True, False):
            f = narrow(o.facts, [(as_b(o.val), v)])
            if f is None:
                continue
            ok = entails(f, mk_eq(n0, INT0)) or entails(f, mk_le(n0, INT0)) if v else entails(f, mk_lt(INT0, n0)) or f.truth(mk_eq(n0, INT0)) is False
            ctx.ob("slots", s.fn.qual, ok, "is_empty answers %s" % show(o.val)[:80], "empty")
    s = ctx.summ(CH + "new", None, "j14s", fine=True)
    for o in s.outs:
        c = proj(o.val, "children")
        ok = o.kind == "ret" and proj(o.val, "num_children") is INT0 and (c.op == "call" and str(c.a[0]).startswith("default") or c.op == "repeat" and c.a[0] is NONE)
        ctx.ob("slots", s.fn.qual, ok, "a new set of children is %s" % show(o.val)[:120], "new")
    for name, field_ in (("child", None),):
        s = ctx.summ(IN + name, None, "j14s", fine=True)
        a = plain(s)
        c = mk("idx", kids(a[0]), mk("field", a[1], "0"))
        for o in s.outs:
            if o.kind == "ret":
                ctx.ob("slots", s.fn.qual, same(o.facts, o.val, c) or o.val is NONE and absent(o.facts, c), "returns %s" % show(o.val)[:100], "child")
    # what a node is made of
    for name in ("new_impl", "new_migration", "new"):
        s = ctx.summ(IN + name, None, "j14s", fine=True)
        a = plain(s)
        k = 0
        for o in s.outs:
            if o.kind == "panic" or is_err(o):
                continue
            k += 1
            v = o.val.a[3][0] if o.val.op == "adt" and o.val.a[1] == "Ok" else o.val
            ctx.ob("slots", s.fn.qual, proj(v, "children") is a[0], "the node's children are %s" % show(proj(v, "children"))[:80], "kept")
        ctx.floor("slots", s.fn.qual, k, 1, "successes")


def as_b(v):
    return v if interp.is_bool(v) else mk_not(mk_eq(v, INT0))


# ---------------------------------------------------------------- J04
def check_hashes(ctx):
    ctx.rule("leaf", "a leaf's hash covers the leaf tag, the whole key hash and the whole value hash, wherever a leaf is hashed")
    ctx.rule("inner", "an inner hash covers the inner tag and the left and right hashes, in that order")
    ctx.rule("empty", "an empty tree and an empty range hash to the placeholder")
    ctx.rule("tags", "the tags differ and the inputs of the two hashes differ in length, so none is an input of the other")
    mh = hash_fn(ctx)
    P = "jmt::types::proof::"
    leafh = lambda x: mk("H", "sha256", mk("bytes", "JMT::LeafNode"), x(0), x(1))

    def leaf_ok(t, kh, vh):
        return t.op == "H" and len(t.a) == 4 and t.a[0] == "sha256" and is_tag(t.a[1], LEAF) and t.a[2] is kh and t.a[3] is vh

    def part(x, f):
        return mk("field", mk("field", x, f), "0")
    for q in (P + "SparseMerkleLeafNode::hash", NODE + "LeafNode::hash"):
        s = ctx.summ(q, None, "j04", fine=True)
        x = plain(s)[0]
        for o in s.outs:
            ok = o.kind == "ret" and leaf_ok(o.val, part(x, "key_hash"), part(x, "value_hash"))
            ctx.ob("leaf", q, ok, "hashes %s" % (show(o.val)[:160] if o.kind == "ret" else "panic"), "hash")
    q = P + "SparseMerkleInternalNode::hash"
    s = ctx.summ(q, None, "j04", fine=True)
    x = plain(s)[0]
    for o in s.outs:
        v = o.val
        ok = o.kind == "ret" and v.op == "H" and len(v.a) == 4 and v.a[0] == "sha256" and is_tag(v.a[1], INTERNAL) and v.a[2] is mk("field", x, "left_child") and v.a[3] is mk("field", x, "right_child")
        ctx.ob("inner", q, ok, "hashes %s" % (show(v)[:160] if o.kind == "ret" else "panic"), "hash")
    for q, names in ((P + "SparseMerkleInternalNode::new", ("left_child", "right_child")), (P + "SparseMerkleLeafNode::new", ("key_hash", "value_hash")),
                     (NODE + "LeafNode::new", ("key_hash", "value_hash"))):
        s = ctx.summ(q, None, "j04", fine=True)
        a = plain(s)
        for o in s.outs:
            ok = o.kind == "ret" and all(proj(o.val, f) is a[i] for i, f in enumerate(names))
            ctx.ob("inner" if "Internal" in q else "leaf", q, ok, "builds %s" % (show(o.val)[:100] if o.kind == "ret" else "panic"), "new")
    for f in ctx.db("jmt").by_path.values():
        if f.crate == "jmt" and f.impl_trait == "core::convert::From" and f.name == "from" and tyis(f.impl_self_ty, "types::proof::SparseMerkleLeafNode"):
            s = ctx.summ(f, None, "j04", fine=True)
            x = plain(s)[0]
            for o in s.outs:
                ok = o.kind == "ret" and all(proj(o.val, g) is mk("field", x, g) for g in ("key_hash", "value_hash"))
                ctx.ob("leaf", f.qual, ok, "converts to %s" % (show(o.val)[:100] if o.kind == "ret" else "panic"), "conv")
    q = NODE + "Node::hash"
    s = ctx.summ(q, lambda f: f is mh, "j04", fine=True)
    x = plain(s)[0]
    seen = set()
    for o in s.outs:
        for v in ("Null", "Leaf", "Internal"):
            f = narrow(o.facts, [(mk_isv(x, v), True)])
            if f is None or o.kind == "panic" and v == "Internal":
                continue
            seen.add(v)
            y = payload(x, v)
            if v == "Null":
                ctx.ob("empty", q, o.kind == "ret" and is_placeholder(o.val), "an empty tree hashes to %s" % show(o.val)[:100], "null")
            elif v == "Leaf":
                ctx.ob("leaf", q, o.kind == "ret" and leaf_ok(o.val, part(y, "key_hash"), part(y, "value_hash")), "a leaf hashes to %s" % show(o.val)[:100], "leaf")
            else:
                ctx.ob("inner", q, call_args(o.val, mh.path) is not None and call_args(o.val, mh.path)[0] is y, "an internal node hashes to %s" % show(o.val)[:100], "int")
    ctx.ob("leaf", q, seen == {"Null", "Leaf", "Internal"}, "some kind of node is not hashed: %s" % sorted(seen), "kinds")
    # the inputs
    ctx.ob("tags", P + "SparseMerkleLeafNode::hash", LEAF != INTERNAL and len(LEAF) != len(INTERNAL), "the tags coincide", "tags")
    for w in (16,):
        s = ctx.summ(mh, lambda f: f is mh, "j14", args={1: Int(0), 2: Int(16)}, fine=2, unroll=lambda fr: True)
        k = 0
        for o in s.outs:
            if o.kind == "ret" and o.val.op == "H":
                k += 1
                v = o.val
                ok = len(v.a) == 4 and v.a[0] == "sha256" and is_tag(v.a[1], INTERNAL) and all(call_args(t, mh.path) is not None for t in v.a[2:])
                ctx.ob("inner", mh.qual, ok, "hashes %s" % show(v)[:160], "hash")
            elif o.kind == "ret" and not (o.val.op == "field" and o.val.a[1] == "hash"):
                ctx.ob("empty", mh.qual, is_placeholder(o.val), "an empty range hashes to %s" % show(o.val)[:80], "empty")
        ctx.floor("inner", mh.qual, k, 1, "inner hashes")


# ---------------------------------------------------------------- J15
def check_counts(ctx):
    ctx.rule("sum", "a new internal node's count is the sum of its children's counts, unknown when any is")
    ctx.rule("child", "a child counts one as a leaf, its recorded count as an internal node, unknown without one")
    ctx.rule("node", "a node counts zero when empty, one as a leaf, its recorded count as an internal node, and describes itself so to its parent")
    ctx.rule("tree", "the tree reports the count of the root of that version, and its errors")
    # children
    q = NODE + "Child::leaf_count"
    s = ctx.summ(q, None, "j15", fine=True)
    x = plain(s)[0]
    nt = mk("field", x, "node_type")
    for o in s.outs:
        for v, want in (("Leaf", Some(INT1)), ("InternalLegacy", NONE), ("Internal", Some(mk("field", mk("as", nt, "Internal"), "leaf_count")))):
            f = narrow(o.facts, [(mk_isv(nt, v), True)])
            if f is not None:
                ctx.ob("child", q, o.kind == "ret" and same(f, o.val, want), "a child of kind %s counts %s" % (v, show(o.val)[:60] if o.kind == "ret" else "panic"), v)
    q = NODE + "Child::new"
    s = ctx.summ(q, None, "j15", fine=True)
    a = plain(s)
    for o in s.outs:
        ok = o.kind == "ret" and [proj(o.val, f) for f in ("hash", "version", "node_type")] == a[:3]
        ctx.ob("child", q, ok, "builds %s" % (show(o.val)[:100] if o.kind == "ret" else "panic"), "new")
    # nodes
    q = NODE + "Node::leaf_count"
    s = ctx.summ(q, None, "j15", fine=True)
    x = plain(s)[0]
    cnt = mk("field", payload(x, "Internal"), "leaf_count")
    for o in s.outs:
        for v, want in (("Null", Some(INT0)), ("Leaf", Some(INT1)), ("Internal", cnt)):
            f = narrow(o.facts, [(mk_isv(x, v), True)])
            if f is not None:
                ctx.ob("node", q, o.kind == "ret" and same(f, o.val, want), "a node of kind %s counts %s" % (v, show(o.val)[:60] if o.kind == "ret" else "panic"), v)
    for q, c, g in ((NODE + "Node::node_type", cnt, [(mk_isv(x, "Internal"), True)]), (IN + "node_type", None, [])):
        s = ctx.summ(q, None, "j15", fine=True)
        x = plain(s)[0]
        c = c if c is not None else mk("field", x, "leaf_count")
        for o in s.outs:
            for v in ("Some", "None"):
                f = narrow(o.facts, g + [(mk_isv(c, v), True)])
                if f is None:
                    continue
                want = "Internal" if v == "Some" else "InternalLegacy"
                ok = o.kind == "ret" and o.val.op == "adt" and o.val.a[1] == want and (v == "None" or same(f, o.val.a[3][0], payload(c)))
                ctx.ob("node", q, ok, "an internal node with count %s is described as %s" % (v, show(o.val)[:80] if o.kind == "ret" else "panic"), v)
            f = narrow(o.facts, [(mk_isv(x, "Leaf"), True)]) if g else None
            if f is not None:
                ctx.ob("node", q, o.kind == "ret" and o.val.op == "adt" and o.val.a[1] == "Leaf", "a leaf is described as %s" % (show(o.val)[:80] if o.kind == "ret" else "panic"), "leaf")
    s = ctx.summ(IN + "leaf_count", None, "j15", fine=True)
    x = plain(s)[0]
    for o in s.outs:
        ctx.ob("node", s.fn.qual, o.kind == "ret" and same(o.facts, o.val, mk("field", x, "leaf_count")), "returns %s" % show(o.val)[:80], "get")
    # the sum
    for name in ("new_impl", "new_migration", "new"):
        q = IN + name
        s = ctx.summ(q, None, "j15s", fine=True)
        a = plain(s)
        seq = mk("field", a[0], "children")
        k = {"known": 0, "unknown": 0}
        for o in s.outs:
            if o.kind == "panic" or is_err(o):
                continue
            v = o.val.a[3][0] if o.val.op == "adt" and o.val.a[1] == "Ok" else o.val
            c = proj(v, "leaf_count")
            p = count_case(s, o, c, seq, k)
            ctx.ob("sum", q, p is None, p, "sum:%s" % p)
        ctx.floor("sum", q, min(k.values()), 1, "cases")
    # the tree
    T_ = "jmt::tree::JellyfishMerkleTree::<R, H>::"
    q = T_ + "get_leaf_count"
    opq = lambda f: f.name in ("get_root_node", "get_root_node_option")
    s = ctx.summ(q, opq, "j15t", fine=True)
    a = plain(s)
    R = mk("call", "tree::JellyfishMerkleTree::<R, H>::get_root_node", a[0], a[1])
    node = payload(R, "Ok")
    mig = mk("field", a[0], "leaf_count_migration")
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            ctx.ob("tree", q, False, "can panic", "panic")
            continue
        f = narrow(o.facts, [(mig, True)])
        if f is None:
            continue
        if f.truth(mk_isv(R, "Err")) is True:
            ctx.ob("tree", q, is_err(o), "an error is reported as %s" % show(o.val)[:80], "err")
            continue
        for v, want in (("Null", Some(INT0)), ("Leaf", Some(INT1)), ("Internal", mk("field", payload(node, "Internal"), "leaf_count"))):
            g = narrow(f, [(mk_isv(node, v), True), (mk_isv(R, "Ok"), True)])
            if g is not None:
                n += 1
                w = o.val.a[3][0] if o.val.op == "adt" and o.val.a[1] == "Ok" else None
                ctx.ob("tree", q, w is not None and same(g, w, want), "a root of kind %s is counted as %s" % (v, show(o.val)[:80]), v)
    ctx.floor("tree", q, n, 3, "cases")
    # a tree is one that counts, and reads the store it is given
    for q, on in ((T_ + "new", INT1), (T_ + "new_migration", None)):
        s = ctx.summ(q, None, "j15n", fine=True)
        a = plain(s)
        for o in s.outs:
            ok = o.kind == "ret" and proj(o.val, "leaf_count_migration") is (on or a[1]) and proj(o.val, "reader") is a[0]
            ctx.ob("tree", q, ok, "a new tree is %s" % show(o.val)[:120], "new")


def count_case(s, o, c, seq, k):
    f = o.facts
    for lid, L in s.I.loops.items():
        if not any(seq_covers(strip(x), seq, s.I) or is_range16(x) for x in sources(L)):
            continue
        ch = el(seq, L)
        nt = mk("field", payload(ch), "node_type")
        if c is NONE or f.truth(mk_isv(c, "None")) is True:
            if f.truth(mk_isv(ch, "Some")) is True and f.truth(mk_isv(nt, "InternalLegacy")) is True:
                k["unknown"] += 1
                return None
            continue
        v = c.a[3][0] if c.op == "adt" and c.a[1] == "Some" else payload(c)
        r = loop_var(L, v)
        if r is None:
            continue
        init, steps = r
        if init is not INT0:
            return "the sum starts from %s" % show(init)[:40]
        for st, g in steps:
            if absent(g, ch):
                want = v
            elif g.truth(mk_isv(ch, "Some")) is not True:
                return "adds without looking at the child"
            elif g.truth(mk_isv(nt, "Leaf")) is True:
                want = add(v, INT1)
            elif g.truth(mk_isv(nt, "Internal")) is True:
                want = add(v, mk("field", mk("as", nt, "Internal"), "leaf_count"))
            else:
                return "a child of unknown count does not make the sum unknown"
            if not same(g, st, want):
                return "a child adds %s" % show(sub(st, v))[:80]
        if any(not absent(g, ch) for t, g in s.I.rejects.get(str(lid), ())):
            return "a child is left out of the sum"
        if not any(kk.op == "more" and vv is False and str(kk.a[1]) == str(lid) for kk, vv in f.d.items()) and not exhausted(s.I, f, lid, seq):
            return "the sum ends before every child was counted"
        k["known"] += 1
        return None
    if c.op == "adt" and c.a[1] == "Some" and c.a[3][0] is INT0:
        # no child at all
        for kk, vv in f.d.items():
            if kk.op == "more" and vv is False and str(kk.a[1]) == "#0" and seq_covers(strip(kk.a[0]), seq, s.I) and all(absent(g, e) for e, g in s.I.rejects.get("#0", ())):
                k["none"] = k.get("none", 0) + 1
                return None
    return "the count is %s, not a sum over the children" % show(c)[:100]
