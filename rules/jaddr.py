"""Every node read while walking a tree is addressed as its parent records it (J05).

A query over the summaries of all walks: each key under which a node is read is the root of the version walked, a key given, the key the node's own query reports for a child, or the parent's path extended
by a nibble at the version recorded for the child under that very nibble."""
from lib import *
from jdb import plain
from jnode import kids
import jexcl
import jiter
import jnode
import jread
from jread import CWS, CWO, GEN, READ, is_key, is_empty_path, uncast

REFS = {READ, "reader::TreeReader::get_node", jexcl.EXTREME}


class Keys:
    def __init__(self, s):
        self.s = s
        self.params = plain(s)
        self.busy = {}
        self.why = None

    def child(self, v, n):
        """v is the version recorded for the child under nibble n; gives the array, or None"""
        if not (v.op == "field" and v.a[1] == "version"):
            return None
        c = v.a[0]
        if c.op == "field" and c.a[1] == "0" and c.a[0].op == "as" and c.a[0].a[1] == "Some":
            c = c.a[0].a[0]
        elif c.op == "field" and c.a[1] == "1" and n.op == "field" and n.a[1] == "0" and c.a[0] is n.a[0]:
            return c.a[0]          # a pair of nibble and child
        i = uncast(n.a[3][0] if n.op == "adt" else mk("field", n, "0"))
        if c.op == "idx" and same(Facts(), uncast(c.a[1]), i):
            return c.a[0]
        if c.op == "elem" and i.op == "pos" and i.a[0] == "%s@%d" % (c.a[1], c.a[0].n):
            return c.a[0]
        if c.op == "elem" and i.op == "ind" and i.a[0] == c.a[1]:
            return c.a[0]
        return None

    def good(self, k):
        if k in self.busy:
            return self.busy[k]
        self.busy[k] = True
        r = self.busy[k] = self.good_(k)
        return r

    def good_(self, k):
        if k in self.params or k.op == "arg":
            return True
        if is_key(k) and is_empty_path(proj(k, "nibble_path")):
            v = proj(k, "version")
            return v.op == "arg" or v in self.params or v.op == "field" and v.a[1] == "version"
        if k.op == "lv":
            for L in self.s.I.loops.values():
                if k in L.vars:
                    init, steps = L.vars[k]
                    return self.good(init) and all(self.good(x) for x, _ in steps)
            return False
        if k.op == "call" and k.a[0] == GEN:
            a = self.child(k.a[2], k.a[3])
            if a is None:
                return self.fail("at version %s under %s" % (show(k.a[2])[:80], show(k.a[3])[:60]))
            return self.good(k.a[1])
        if k.op == "field" and k.a[1] == "node_key":
            return True            # of a node on the stack, put there with its own key
        if k.op == "field" and k.a[0].op == "as" and k.a[0].a[1] == "Some":
            x = k.a[0].a[0]
            if x.op == "field" and x.a[1] == "0":
                x = x.a[0]
            if x.op == "call" and x.a[0] in (CWS, CWO):
                return self.good(x.a[2])
        return self.fail("at %s" % show(k)[:160])

    def fail(self, why):
        self.why = self.why or why
        return False


def reads(s):
    r = set()
    def take(t):
        for x in subterms(t):
            if x.op == "call" and (x.a[0] in REFS or x.a[0].endswith("::" + jexcl.EXTREME)):
                r.add(x)
    for L in s.I.loops.values():
        for v, (i, st) in L.vars.items():
            take(i)
            for x, _ in st:
                take(x)
        for b in L.backs:
            for k in list(b.facts.d) + list(b.facts.dom):
                take(k)
    for o in s.outs:
        for k in list(o.facts.d) + list(o.facts.dom) + ([o.val] if o.val is not None else []):
            take(k)
    return r


def walks(ctx):
    for n in ("get_with_proof", "get_without_proof"):
        if ctx.db("jmt").find(jread.T_ + n) is not None:
            yield jread.summ(ctx, n)
    yield jread.summ(ctx, jexcl.EXTREME)
    yield jread.summ(ctx, jexcl.SEARCH)
    yield jread.summ(ctx, jexcl.CLIMB, (jexcl.EXTREME,))
    for n in (jiter.JI + "new", jiter.JI + "new_by_index", jiter.NEXT):
        yield jiter.summ(ctx, n)


def check_reads(ctx):
    ctx.rule("read", "each node is read under the version's root key, a key given, the key reported for a child, or its parent's path and nibble at the version recorded for it")
    for s in walks(ctx):
        rs = reads(s)
        ctx.floor("read", s.fn.qual, len(rs), 1, "reads of nodes")
        for x in sorted(rs, key=lambda t: t.n):
            ks = [a for a in x.a[1:] if a.op not in ("int", "sym")][1:2]
            k = x.a[2] if len(x.a) > 2 else x.a[-1]
            K = Keys(s)
            ok = K.good(k)
            ctx.ob("read", s.fn.qual, ok, "reads a node %s" % (K.why or "elsewhere"), "key")


class Only:
    """passes on the obligations that are about addressing"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def ob(self, rid, where, ok, detail="", key=None, sp=None):
        if rid == "child":
            about = "addressed" in detail or "not made from" in detail
            self.ctx.ob("child", where, ok or not about, detail, key, sp)


def check_child_keys(ctx):
    ctx.rule("child", "the key a node reports for a child, or makes for it, is its own path extended by the child's nibble at the version given or recorded for the child")
    q = "jmt::" + GEN
    s = ctx.summ(q, lambda f: f.name == "push" and "nibble_path" in f.path, "j05", fine=2)
    a = plain(s)
    for o in s.outs:
        ok = o.kind == "ret" and is_key(o.val) and proj(o.val, "version") is a[1]
        p = proj(o.val, "nibble_path") if ok else None
        ok = ok and p.op == "eff" and p.a[0].endswith("::push") and p.a[2] is mk("field", a[0], "nibble_path") and p.a[3] is a[2]
        ctx.ob("child", q, ok, "makes %s" % (show(o.val)[:160] if o.val is not None else "nothing"), "gen")
    few = Only(ctx)
    mh = jnode.hash_fn(ctx)
    for name, sib in (("get_child_with_siblings", True), ("get_child_without_siblings", False)):
        for nib in range(16):
            jnode.nib_case(few, jnode.IN + name, sib, nib, mh, lambda fr: True)


def check_addressing(ctx):
    check_reads(ctx)
    check_child_keys(ctx)
