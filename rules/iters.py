"""Patricia trie: iteration (P11)."""
from pmt import *
import nib as nibr

ITER = "core::iter::traits::iterator::Iterator"
N = "nibbles::Nibbles::"
PAIR = ("tuple",)


def iterators(ctx):
    """implementations of Iterator that hold a sequence of frames, each with a trie node in it"""
    d = ctx.db("pmt")
    r = []
    for fn in d.by_path.values():
        if fn.crate == "pmt" and fn.impl_trait == ITER and fn.name == "next":
            r.append(fn)
    return r


def selftype(fn):
    t = fn.locals[1]["ty"]
    while t.get("k") == "ref":
        t = t["t"]
    return t


def adt_of(ctx, t):
    d = ctx.db("pmt")
    return d.adts.get(t.get("id"))


def holds_node(ctx, t, depth=0):
    if not isinstance(t, dict) or depth > 3:
        return False
    if t.get("k") == "ref":
        return holds_node(ctx, t["t"], depth)
    if t.get("k") == "adt":
        if t["p"] == NODE:
            return True
        if t["p"].startswith("inner::") or t["p"].startswith("nibbles::"):
            return False
        if any(holds_node(ctx, x, depth + 1) for x in t["a"] if isinstance(x, dict)):
            return True
        a = adt_of(ctx, t)
        if a and a.get("local"):
            return any(holds_node(ctx, f["ty"], depth + 1) for v in a["v"] for f in v["f"])
    if t.get("k") == "tuple":
        return any(holds_node(ctx, x, depth + 1) for x in t.get("a", []))
    return False


class Iter:
    """the state of an iterator: which field is the stack, which the digits so far, which the trie"""

    def __init__(self, ctx, fn):
        self.fn = fn
        self.ty = selftype(fn)
        a = adt_of(ctx, self.ty)
        if a is None or a["enum"]:
            raise Missing("state of %s" % fn.qual)
        self.adt = a
        self.names = tuple(f["n"] for f in a["v"][0]["f"])
        self.stack = self.nib = self.trie = None
        for f in a["v"][0]["f"]:
            t = f["ty"]
            while t.get("k") == "ref":
                t = t["t"]
            p = t.get("p", "")
            if p == "nibbles::Nibbles":
                self.nib = f["n"]
            elif p == "inner::InnerTrie":
                self.trie = f["n"]
            elif t.get("k") == "adt" and holds_node(ctx, t):
                self.stack = f["n"]
        if not (self.stack and self.nib and self.trie):
            raise Missing("stack, digits and trie of %s" % fn.qual)

    def state(self, stack, digits, trie):
        vals = []
        for n in self.names:
            vals.append(stack if n == self.stack else mk("adt", "nibbles::Nibbles", "Nibbles", (self.hex,), (digits,)) if n == self.nib
                        else trie if n == self.trie else mk("sym", n))
        return mk("adt", self.ty["p"], self.ty["p"].split("::")[-1], self.names, tuple(vals))

    def get(self, v, n):
        return proj(v, n)


def norm_digits(t, f):
    """digit sequences written in one way: a truncation that cuts exactly what was appended last is undone"""
    while True:
        if t.op == "trunc":
            b, n = t.a
            b = norm_digits(b, f)
            k = lnof(b)
            if same(f, n, k):
                t = b
                continue
            if b.op == "append" and same(f, n, lnof(b.a[0])):
                t = b.a[0]
                continue
            if b.op == "push" and same(f, n, lnof(b.a[0])):
                t = b.a[0]
                continue
        if t.op == "popped" and t.a[0].op == "push":
            t = t.a[0].a[0]
            continue
        if t.op == "slice" and t.a[1] is INT0:
            t = mk("trunc", t.a[0], t.a[2])
            continue
        return t


def lnof(t):
    if t.op == "append":
        return add(lnof(t.a[0]), lnof(t.a[1]))
    if t.op == "push":
        return add(lnof(t.a[0]), INT1)
    return ln(t)


def new_state(ctx, it):
    """what the constructor builds from a trie"""
    d = ctx.db("pmt")
    r = []
    for f in d.by_path.values():
        if f.crate == "pmt" and f.kind == "fn" and not f.impl_trait and tyis(retty(f), it.ty["p"]) and any(tyis(t, "inner::InnerTrie") for _, _, t in params(f)):
            if any(tyis(t, it.ty["p"]) for _, _, t in params(f)):
                continue
            r.append(f)
    return r


class Step:
    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(show(x)[:80] for x in self.a))


def nib_opaque(ctx):
    base = vocab(ctx, lambda f: f.path == N + "encode_raw")
    dec, enc = roles(ctx)

    def op(f):
        return base(f) or is_reader(f)
    op.dropself = getattr(base, "dropself", set())
    return op


def is_reader(f):
    """hash -> stored node"""
    if f.crate != "pmt" or f.kind != "fn":
        return False
    t = retty(f)
    if not (isinstance(t, dict) and t.get("k") == "adt" and t["p"] == interp.RES and t["a"]):
        return False
    o = t["a"][0]
    return o.get("k") == "adt" and o["p"] == interp.OPT and tyis(o["a"][0], NODE)


def one_round(ctx, it, state, facts):
    d = ctx.db("pmt")
    I = Interp(d, opaque=nib_opaque(ctx), budget=60000, fine=2)
    I.once = lambda fr: fr.fn.crate == "pmt" and not fr.fn.path.startswith("nibbles::")
    outs = I.run(it.fn, objs={0: state}, facts=facts)
    for i in I.visited:
        f = d.fns[i]
        if f.crate != "vmodels":
            ctx.fns.add(f.qual)
    ctx.outcomes += len(outs)
    ctx.steps += I.steps
    root = mk("obj", mk("arg", 0, it.fn.locals[1]["n"] or "a0"))
    return [(o, o.st.mem.get(root)) for o in outs]


def traverse(ctx, it, frame, node, facts, S, P, trie):
    """every sequence of rounds from `frame(node)` on top of S with digits P until that frame is gone -> [(steps, facts, problem)]"""
    res = []
    work = [(push(S, frame(node)), P, facts, ())]
    n = 0
    while work:
        stack, dig, f, tr = work.pop()
        n += 1
        if n > 300 or len(tr) > 60:
            return [((), facts, "the traversal of a node does not end")]
        outs = one_round(ctx, it, it.state(stack, dig, trie), f)
        if not outs:
            res.append((tr, f, "a round has no outcome"))
        for o, v in outs:
            g = tighten(o.facts)
            if g is None:
                continue
            g = o.facts
            if o.kind == "panic":
                res.append((tr, g, "can panic"))
                continue
            st2, dg2 = it.get(v, it.stack), norm_digits(proj(it.get(v, it.nib), it.hex), g)
            t2 = tr
            fail = None
            for e in o.events:
                if e.kind == "call" and e.res is not None and is_reader_call(ctx, e.name):
                    if f.truth(mk_isv(e.res, "Ok")) is True:
                        continue
                    if g.truth(mk_isv(e.res, "Ok")) is False or g.truth(mk_isv(payload(e.res, "Ok"), "Some")) is False:
                        fail = e
            if fail is not None:
                res.append((tr + (Step("unread"),), g, None))
                continue
            if o.kind == "ret":
                if o.val.op == "adt" and o.val.a[1] == "Some":
                    t2 = t2 + (Step("yield", o.val.a[3][0]),)
                else:
                    res.append((tr, g, "iteration ends with nodes left to visit"))
                    continue
            if it.get(v, it.trie) is not trie:
                res.append((tr, g, "the trie changes under iteration"))
                continue
            if st2 is S:
                res.append((t2 + (Step("end", dg2),), g, None))
                continue
            if st2.op == "push" and st2.a[0] is S:
                c = fresh(frame, st2.a[1])
                if c is not None and c is not node:
                    res.append((t2 + (Step("goto", c, dg2),), g, None))
                elif c is not None:
                    res.append((t2, g, "the traversal of a node starts over"))
                else:
                    work.append((st2, dg2, g, t2))
                continue
            if st2.op == "push" and st2.a[0].op == "push" and st2.a[0].a[0] is S:
                c = fresh(frame, st2.a[1])
                if c is None:
                    res.append((t2, g, "a child is entered half-way: %s" % show(st2.a[1])[:100]))
                    continue
                work.append((st2.a[0], dg2, g, t2 + (Step("child", c, dg2),)))
                continue
            res.append((t2, g, "the stack becomes %s" % show(st2)[:160]))
    return res


def is_reader_call(ctx, name):
    d = ctx.db("pmt")
    return any(f.path == name and is_reader(f) for f in d.by_path.values())


def push(s, x):
    return mk("push", s, x)


def fresh(frame, t):
    """the node of a frame that has not been worked on"""
    c = frame.node_of(t)
    return c if c is not None and frame(c) is t else None


class Frame:
    """the constructor's frame for the root, as a function of the node"""

    def __init__(self, t, root):
        self.t = t
        self.root = root

    def __call__(self, n):
        return subst(self.t, {self.root: n})

    def node_of(self, t):
        def go(a, b):
            if a is self.root:
                return b
            if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.a) == len(b.a):
                for x, y in zip(a.a, b.a):
                    r = go(x, y)
                    if r is not None:
                        return r
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                for x, y in zip(a, b):
                    r = go(x, y)
                    if r is not None:
                        return r
            return None
        return go(self.t, t)


def check_iter(ctx):
    ctx.rule("start", "a new iterator has one untouched frame, for the trie's root, and no digits")
    ctx.rule("visit", "working through a node of each kind, from its untouched frame until the frame is gone, enters each child once with the digits of the way to it, yields the "
             "node's own pair once, under the digits read so far, and leaves the digits as they were")
    ctx.rule("stop", "iteration ends only when no frame is left")
    ctx.rule("all", "the trie's iterator and its list of pairs are this iteration, from this trie")
    its = iterators(ctx)
    ctx.floor("visit", "crate", len(its), 1, "iterators over the trie")
    h = nibr.hexfield(ctx)
    for fn in its:
        it = Iter(ctx, fn)
        it.hex = h
        visit(ctx, it)
    entry(ctx, its)


def visit(ctx, it):
    w = it.fn.qual
    news = new_state(ctx, it)
    ctx.floor("start", w, len(news), 1, "constructors")
    frame = None
    for f in news:
        s = ctx.summ(f, nib_opaque(ctx), "iternew", fine=True)
        trie = mk("arg", 0, f.locals[1]["n"] or "a0")
        for o in s.outs:
            if o.kind == "panic":
                ctx.ob("start", f.qual, False, "construction can panic", "panic")
                continue
            st, dg = proj(o.val, it.stack), proj(o.val, it.nib)
            fr = None
            if st.op == "arr" and len(st.a[0]) == 1:
                fr = st.a[0][0]
            elif st.op == "push" and st.a[0].op == "empty":
                fr = st.a[1]
            root = mk("field", trie, "root")
            ok = fr is not None and root in subterms(fr)
            ctx.ob("start", f.qual, ok, "starts with frames %s" % show(st)[:160], "frames")
            empty = dg.op == "call" and dg.a[0] == N + "from_raw" and lnof(dg.a[1]) in (INT0,) and (dg.a[2] is INT0 or show(dg.a[2]) in ("false", "0")) \
                or dg.op == "call" and dg.a[0] == N + "from_raw" and dg.a[1].op == "arr" and not dg.a[1].a[0] and dg.a[2] is INT0 \
                or proj(dg, it.hex).op == "empty" or proj(dg, it.hex).op == "arr" and not proj(dg, it.hex).a[0]
            ctx.ob("start", f.qual, empty, "starts with digits %s" % show(dg)[:100], "digits")
            ctx.ob("start", f.qual, proj(o.val, it.trie) is trie, "iterates over %s" % show(proj(o.val, it.trie))[:80], "trie")
            if ok:
                frame = Frame(fr, root)
    if frame is None:
        return
    S, P, tr = mk("sym", "S"), mk("sym", "P"), mk("sym", "trie")
    for v in ("Empty", "Leaf", "Extension", "Branch", "Hash"):
        n = mk("sym", "node")
        f = Facts().assume(mk_isv(n, v), True)
        runs = traverse(ctx, it, frame, n, f, S, P, tr)
        ctx.ob("visit", w, bool(runs), "a %s node is not worked through" % v, "none:" + v)
        for steps, g, p in runs:
            if p is None:
                p = expect(v, n, steps, g, P)
            ctx.ob("visit", w, p is None, "at a %s node: %s" % (v, p), v)
    # an empty stack ends the iteration
    for o, v in one_round(ctx, it, it.state(EMPTY, P, tr), Facts()):
        ctx.ob("stop", w, o.kind == "ret" and o.val is NONE or o.kind == "ret" and o.val.op == "adt" and o.val.a[1] == "None",
               "with no frame left a round gives %s" % (show(o.val)[:80] if o.val is not None else o.kind), "empty")


def expect(v, n, steps, f, P):
    b = lambda k: mk("field", body(n, v), k)
    end = [s for s in steps if s.kind == "end"]
    kids_ = [s for s in steps if s.kind == "child"]
    ys = [s for s in steps if s.kind == "yield"]
    if v == "Hash":
        if any(s.kind == "unread" for s in steps):
            return None          # storage does not have it: beyond this property
        g = [s for s in steps if s.kind == "goto"]
        if len(g) != 1 or kids_ or ys:
            return "what is done is %s" % (list(steps),)
        c = g[0].a[0]
        h = b("hash")
        r = c
        if not (c.op == "field" and c.a[0].op == "as" and c.a[0].a[1] == "Some"):
            return "goes on with %s" % show(c)[:100]
        inner = c.a[0].a[0]
        if not (inner.op == "field" and inner.a[0].op == "as" and inner.a[0].a[1] == "Ok" and h in subterms(inner)):
            return "goes on with %s" % show(c)[:100]
        return None if g[0].a[1] is P else "the digits become %s" % show(g[0].a[1])[:80]
    if any(s.kind in ("goto", "unread") for s in steps):
        return "what is done is %s" % (list(steps),)
    if len(end) != 1 or steps[-1] is not end[0]:
        return "the frame is not left once"
    if end[0].a[0] is not P:
        return "afterwards the digits are %s" % show(end[0].a[0])[:100]
    h = lambda x: hexname(x)
    want_y, want_c = [], []
    if v == "Leaf":
        want_y = [(mk("append", P, hx(b("key"))), b("value"))]
    elif v == "Extension":
        want_c = [(b("node"), mk("append", P, hx(b("prefix"))))]
    elif v == "Branch":
        some = f.truth(mk_isv(b("value"), "Some"))
        if some is None:
            return "does not look whether the branch has a value"
        if some:
            want_y = [(P, payload(b("value"), "Some"))]
        want_c = [(mk("idx", b("children"), Int(i)), mk("push", P, Int(i))) for i in range(16)]
    if len(ys) != len(want_y):
        return "%d pairs are yielded for the node itself" % len(ys)
    for s, (k, val) in zip(ys, want_y):
        t = s.a[0]
        if t.op != "tuple" or len(t.a[0]) != 2:
            return "yields %s" % show(t)[:100]
        if not same(f, t.a[0][1], val):
            return "yields the value %s" % show(t.a[0][1])[:100]
        if not is_bytes_of(f, t.a[0][0], k):
            return "yields the key %s" % show(t.a[0][0])[:120]
    if len(kids_) != len(want_c):
        return "%d children are entered" % len(kids_)
    left = list(want_c)
    for s in kids_:
        m = [c for c in left if c[0] is s.a[0]]
        if not m:
            return "enters %s" % show(s.a[0])[:100]
        if s.a[1] is not m[0][1]:
            return "enters %s with digits %s" % (show(s.a[0])[:60], show(s.a[1])[:80])
        left.remove(m[0])
    return None


def hx(t):
    return mk("field", t, HEXN)


HEXN = "hex_data"


def is_bytes_of(f, t, k):
    """t is the byte form of the digits k"""
    if t.op == "field" and t.a[1] == "0" and t.a[0].op == "call" and t.a[0].a[0] == N + "encode_raw":
        x = proj(t.a[0].a[1], HEXN)
        return norm_digits(x, f) is k
    return False


def entry(ctx, its):
    d = ctx.db("pmt")
    tys = {selftype(f)["p"] for f in its}
    heads = {}
    n = 0
    fs = [f for f in d.by_path.values() if f.crate == "pmt" and f.kind == "fn" and not f.impl_trait and params(f) and tyis(params(f)[0][2], "inner::InnerTrie")]
    op = opq(lambda g: g.id in {x.id for x in its} or g.path == N + "from_raw")
    for f in fs:
        t = retty(f)
        me = mk("arg", 0, f.locals[1]["n"] or "a0")
        if t.get("k") == "adt" and t["p"] in tys and len(params(f)) == 1:
            n += 1
            s = ctx.summ(f, op, "iterent", fine=True, pure_next=True)
            for o in s.outs:
                ctx.ob("all", f.qual, o.kind == "ret" and whole(ctx, o.val, me, its), "iterates over %s" % show(o.val)[:120], "iter")
        elif is_pairs(t):
            n += 1
            s = ctx.summ(f, op, "iterent", fine=True, pure_next=True)
            for o in s.outs:
                ok = False
                if o.kind == "ret" and o.val.op == "adt" and o.val.a[1] == "Ok":
                    ok = whole(ctx, same_seq(o.val.a[3][0]), me, its)
                ctx.ob("all", f.qual, ok, "returns %s" % (show(o.val)[:200] if o.val is not None else o.kind), "values")
    ctx.floor("all", "crate", n, 2, "entry points")


def opq(f):
    f.dropself = set()
    return f


def is_pairs(t):
    """Result<Vec<(Vec<u8>, Vec<u8>)>>"""
    if not (isinstance(t, dict) and t.get("k") == "adt" and t["p"] == interp.RES and t["a"]):
        return False
    v = t["a"][0]
    if not (v.get("k") == "adt" and v["p"].endswith("::Vec")):
        return False
    x = v["a"][0]
    return x.get("k") == "tuple" and len(x.get("ts", x.get("a", []))) == 2


def same_seq(t):
    """a collection that takes over each element of another as it is"""
    while t.op == "coll":
        b = interp.coll_body(t)
        if b is None:
            return t
        src = t.a[1]
        if b.op == "elem" and b.a[0] is src:
            t = src
            continue
        if b.op == "tuple" and len(b.a[0]) == 2 and all(x.op == "field" and x.a[1] == str(i) and x.a[0].op == "elem" and x.a[0].a[0] is src for i, x in enumerate(b.a[0])):
            t = src
            continue
        return t
    return t


def whole(ctx, v, me, its):
    """v is an iterator over me as its constructor makes it"""
    if v.op != "adt" or v.a[0] not in {selftype(f)["p"] for f in its}:
        return False
    d = ctx.db("pmt")
    for fn in its:
        if selftype(fn)["p"] != v.a[0]:
            continue
        it = Iter(ctx, fn)
        for f in new_state(ctx, it):
            s = ctx.summ(f, opq(lambda g: g.path == N + "from_raw"), "iterent2", fine=True)
            a = mk("arg", 0, f.locals[1]["n"] or "a0")
            if any(o.kind == "ret" and subst(o.val, {a: me}) is v for o in s.outs):
                return True
    return False
