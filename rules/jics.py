"""ICS23 proofs (J20): the existence proof's path by evaluating the builder's loops for every number of siblings with the
key's bits and the siblings kept symbolic; the rest by decision tables."""
import re
from lib import *
from jdb import plain, seq_cases
from proofs import LEAF_SEP, INT_SEP, PLACEHOLDER
from jnode import as_bytes

FILE = "jmt::tree::ics23_impl::"
EXIST = FILE + "sparse_merkle_proof_to_ics23_existence_proof"
IMPL = FILE + "<impl tree::JellyfishMerkleTree<R, H>>::"
NONEX = IMPL + "exclusion_proof_to_ics23_nonexistence_proof"
GETP = IMPL + "get_with_ics23_proof"
SPEC = FILE + "ics23_spec"
ENUMS = {"Sha256": 1, "NoPrefix": 0}


class Unknown(Exception):
    pass


def enum(t, name):
    """a protobuf enum's number"""
    if t.op == "int":
        return t.a[0] == ENUMS[name]
    if t.op == "call" and t.a[0].startswith("from:") and len(t.a) == 2:
        return enum(t.a[1], name)
    if t.op == "cast":
        return enum(t.a[1], name)
    return t.op == "adt" and t.a[1] == name or t.op == "const" and t.a[0] == name


def const(t, v):
    while t.op == "cast":
        t = t.a[1]
    return t.op == "int" and t.a[0] == v


def same_bytes(t, c):
    return t is c or as_bytes(t) is not None and as_bytes(t) == as_bytes(c)


# ---------------------------------------------------------------- evaluation for a given number of siblings
class Sim:
    """the values of loop-carried variables for a given number of siblings: counters are numbers, sequences are lists of
    items; a choice by a bit of the key keeps both alternatives in the item"""
    def __init__(self, s, n, key, sibs):
        self.s, self.n, self.key, self.sibs = s, n, key, sibs

    def num(self, t, env):
        if t.op == "int":
            return t.a[0]
        if t.op == "bool":
            return int(bool(t.a[0]))
        if t in env:
            v = env[t]
            if not isinstance(v, int):
                raise Unknown("a number")
            return v
        if t.op == "lin":
            c, m = lin_of(t)
            return c + sum(k * self.num(x, env) for x, k in m.items())
        if t.op == "cast":
            return self.num(t.a[1], env)
        if t.op == "bin":
            x, y = self.num(t.a[1], env), self.num(t.a[2], env)
            o = t.a[0].replace("Unchecked", "").replace("WithOverflow", "")
            try:
                return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x // y, "Rem": lambda: x % y,
                        "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "Shl": lambda: x << y, "Shr": lambda: x >> y, "BitXor": lambda: x ^ y}[o]()
            except (KeyError, ZeroDivisionError, ValueError):
                raise Unknown(show(t)[:80])
        if t.op == "call" and t.a[0] == "len" and len(t.a) == 2:
            return self.length(t.a[1], env)
        if t.op == "call" and t.a[0].split("::")[-1] in ("saturating_sub", "min", "max") and len(t.a) == 3:
            x, y = self.num(t.a[1], env), self.num(t.a[2], env)
            o = t.a[0].split("::")[-1]
            return max(0, x - y) if o == "saturating_sub" else min(x, y) if o == "min" else max(x, y)
        if t.op == "ind" or t.op == "lv":
            self.enter(t, env)
            return self.num(t, env)
        if t.op == "elem" or t.op == "idx":
            r = self.at_pos(t, env)
            if isinstance(r, int):
                return r
        raise Unknown("the number %s" % show(t)[:100])

    def enter(self, t, env):
        """run the (inner) loop that t belongs to"""
        L = self.loop_for(t)
        if L is None:
            raise Unknown(show(t)[:80])
        self.run(L, env)
        if t not in env:
            raise Unknown(show(t)[:80])

    def loop_for(self, t):
        if t.op == "lv":
            return loop_of(self.s.I, t)
        return self.s.I.loops.get(str(t.a[0]).split("~")[0])

    # sequences that are walked
    def length(self, src, env):
        if src is self.sibs:
            return self.n
        if src is self.key:
            return 32
        if src.op == "it":
            k = src.a[0]
            if k in ("rev", "enumerate", "inspect", "copied", "cloned", "map"):
                return self.length(src.a[1], env)
            if k == "skip":
                return max(0, self.length(src.a[1], env) - self.num(src.a[2], env))
            if k == "take":
                return min(self.length(src.a[1], env), self.num(src.a[2], env))
            if k == "zip":
                return min(self.length(src.a[1], env), self.length(src.a[2], env))
        if src.op == "reversed":
            return self.length(src.a[0], env)
        if src.op == "slice":
            return self.num(src.a[2], env) - self.num(src.a[1], env)
        if src.op == "adt" and src.a[0].endswith("::Range"):
            return max(0, self.num(src.a[3][1], env) - self.num(src.a[3][0], env))
        if src.op == "arr":
            return len(src.a[0])
        if src.op == "adt" and src.a[0].endswith("HashValueBitIterator"):
            return self.length(proj(src, "pos"), env)
        raise Unknown("the length of %s" % show(src)[:80])

    def nth(self, src, i, env):
        """i-th element: a number, ("sib", i), ("byte", i)"""
        if src is self.sibs:
            return ("sib", i) if 0 <= i < self.n else None
        if src is self.key:
            return ("byte", i) if 0 <= i < 32 else None
        if src.op == "it":
            k = src.a[0]
            if k == "rev":
                return self.nth(src.a[1], self.length(src.a[1], env) - 1 - i, env)
            if k in ("inspect", "copied", "cloned", "take"):
                return self.nth(src.a[1], i, env)
            if k == "skip":
                return self.nth(src.a[1], i + self.num(src.a[2], env), env)
        if src.op == "reversed":
            return self.nth(src.a[0], self.length(src.a[0], env) - 1 - i, env)
        if src.op == "slice":
            return self.nth(src.a[0], i + self.num(src.a[1], env), env)
        if src.op == "adt" and src.a[0].endswith("::Range"):
            return self.num(src.a[3][0], env) + i
        raise Unknown("element of %s" % show(src)[:80])

    def at_pos(self, t, env):
        if t.op == "idx":
            return self.nth(t.a[0], self.num(t.a[1], env), env)
        k = mk("ind", t.a[1], INT0)
        r = env.get(("round", str(t.a[1]).split("~")[0]))
        if r is None:
            raise Unknown("the position in %s" % show(t)[:80])
        return self.nth(t.a[0], r, env)

    # facts
    def fact(self, g, val, env):
        """True, False, or (position, bit): holds when that bit of the key is so"""
        val = bool(val)
        if g.op == "not":
            return self.fact(g.a[0], not val, env)
        if g.op == "more":
            lid = str(g.a[1])
            if not lid.isdigit():
                lid = re.split(r"[^0-9]", lid)[0]
            r = env.get(("round", lid))
            if r is None:
                return True                     # a loop that is not looked at
            return (r < self.length(g.a[0], env)) is val
        b = self.bit(g, env)
        if b is not None:
            return (b[0], b[1] if val else not b[1])
        if g.op == "ge0":
            return (self.num(g.a[0], env) >= 0) is val
        if g.op == "eq0":
            return (self.num(g.a[0], env) == 0) is val
        if g.op == "eq":
            return (self.num(g.a[0], env) == self.num(g.a[1], env)) is val
        raise Unknown("the condition %s" % show(g)[:120])

    def bit(self, g, env):
        """which bit of the key the condition is (when it holds)"""
        if g.op == "eq":
            l = sub(g.a[0], g.a[1])
        elif g.op in ("eq0", "ge0"):
            l = g.a[0]
        else:
            return None
        c, m = lin_of(l)
        ts = [x for x in m if self.keyed(x, env)]
        if len(ts) != 1:
            return None
        x, = ts
        k = m[x]
        rest = c + sum(w * self.num(y, env) for y, w in m.items() if y is not x)
        pos, unit = self.masked(x, env)         # x is `unit` or 0
        on, off = k * unit + rest, rest
        f = (lambda v: v >= 0) if g.op == "ge0" else (lambda v: v == 0)
        if f(on) == f(off):
            raise Unknown("a test of %s that says nothing" % show(x)[:60])
        return pos, f(on)

    def keyed(self, t, env):
        """built from a byte of the key?"""
        return any(y.op in ("idx", "elem") and self.is_byte(y, env) for y in subterms(t))

    def is_byte(self, t, env):
        try:
            r = self.at_pos(t, env)
        except Unknown:
            return False
        return isinstance(r, tuple) and r[0] == "byte"

    def masked(self, t, env):
        """(position of the bit, most significant first; the number it stands for)"""
        while t.op == "cast":
            t = t.a[1]
        if t.op == "bin" and t.a[0] == "BitAnd":
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if self.keyed(x, env) and not self.keyed(y, env):
                    mask = self.num(y, env)
                    sh = 0
                    while x.op == "cast":
                        x = x.a[1]
                    if x.op == "bin" and x.a[0] == "Shr":
                        sh = self.num(x.a[2], env)
                        x = x.a[1]
                    if mask <= 0 or mask & (mask - 1) or x.op not in ("idx", "elem"):
                        break
                    p = sh + mask.bit_length() - 1
                    if 0 <= p < 8:
                        return self.at_pos(x, env)[1] * 8 + 7 - p, mask
        raise Unknown("a bit of the key: %s" % show(t)[:100])

    # sequences that are built
    def seq(self, t, env):
        if t in env and isinstance(env[t], list):
            return env[t]
        if t is EMPTY or t.op == "empty":
            return []
        if t.op == "push" and len(t.a) == 2:
            return self.seq(t.a[0], env) + [self.item(t.a[1], env)]
        if t.op == "reversed":
            return self.seq(t.a[0], env)[::-1]
        if t.op == "lv":
            self.enter(t, env)
            return self.seq(t, env)
        if t.op == "coll":
            return self.collected(t, env)
        raise Unknown("the sequence %s" % show(t)[:120])

    def collected(self, t, env):
        src, cases = seq_cases(t)
        tag = "\u2022%d" % t.a[0]
        r = []
        for i in range(self.length(src, env)):
            e = dict(env)
            e[("round", tag)] = i
            e[mk("ind", tag, INT0)] = i
            e[mk("pos", tag)] = i
            r.append(self.choose([(c, lambda v=v: self.item(v, e)) for c, v in cases], e))
        return r

    def choose(self, cases, env):
        """one item from the cases whose conditions hold"""
        on = []
        for conds, v in cases:
            b = {}
            live = True
            for g, val in conds:
                q = self.fact(g, val, env)
                if q is False:
                    live = False
                    break
                if q is not True:
                    if b.get(q[0], q[1]) != q[1]:
                        live = False
                        break
                    b[q[0]] = q[1]
            if live:
                on.append((b, v()))
        return self.merge(on)

    def merge(self, on):
        if len(on) == 1 and not on[0][0]:
            return on[0][1]
        if len(on) == 2 and len(on[0][0]) == 1 and on[0][0].keys() == on[1][0].keys():
            (p, x), = on[0][0].items()
            (_, y), = on[1][0].items()
            if x is not y:
                return ("bit", p, on[0][1] if x else on[1][1], on[1][1] if x else on[0][1])
        raise Unknown("%d ways to go on" % len(on))

    def item(self, t, env):
        if t.op == "adt" and t.a[0].split("::")[-1] == "InnerOp":
            return ("op", enum(proj(t, "hash"), "Sha256"), tuple(self.data(proj(t, "prefix"), env)), tuple(self.data(proj(t, "suffix"), env)))
        raise Unknown("an item of the path: %s" % show(t)[:120])

    def data(self, t, env):
        """bytes, as a list of parts"""
        if t is EMPTY or t.op == "empty":
            return []
        if t.op in ("append",):
            return self.data(t.a[0], env) + self.data(t.a[1], env)
        if t.op == "call" and t.a[0] == "concat" and t.a[1].op == "arr":
            return [y for x in t.a[1].a[0] for y in self.data(x, env)]
        if t.op in ("idx", "elem"):
            r = self.at_pos(t, env)
            if isinstance(r, tuple) and r[0] == "sib":
                return [r]
        if as_bytes(t) is not None:
            return [("bytes", as_bytes(t))] if as_bytes(t) else []
        raise Unknown("the bytes %s" % show(t)[:120])

    # loops
    def run(self, L, env):
        """run L from its start in env; env gets the values its variables end with"""
        vs = {}
        for v, (i, _) in L.vars.items():
            if v.op == "lv":
                vs[v] = self.value(i, env)
        r = 0
        steps = {v: [x for x, _ in st] for v, (_, st) in L.vars.items()}
        while True:
            e = dict(env)
            e.update(vs)
            e[("round", L.id)] = r
            e[mk("ind", L.id, INT0)] = r
            on = []
            for j, b in enumerate(L.backs):
                eb = dict(e)
                bits = {}
                live = True
                for g, val in b.facts.d.items():
                    q = self.fact(g, val, eb)
                    if q is False:
                        live = False
                        break
                    if q is not True:
                        bits[q[0]] = q[1]
                if live:
                    on.append((bits, {v: self.value(steps[v][j], eb, vs[v]) for v in vs}))
            if not on:
                env.update(vs)
                env[("round", L.id)] = r
                env[mk("ind", L.id, INT0)] = r
                return
            new = {}
            for v in vs:
                if all(x[1][v] == on[0][1][v] for x in on):
                    new[v] = on[0][1][v]
                    continue
                old = vs[v]
                if not isinstance(old, list) or any(x[1][v][:-1] != old for x in on):
                    raise Unknown("what becomes of %s" % show(v)[:60])
                new[v] = old + [self.merge([(x[0], x[1][v][-1]) for x in on])]
            if len(on) > 1:
                self.merge([(x[0], None) for x in on])          # the alternatives cover both values of one bit
            vs = new
            r += 1
            if r > 600:
                raise Unknown("a loop without end")

    def value(self, t, env, old=None):
        if isinstance(old, list):
            return self.seq(t, env)
        if isinstance(old, int):
            return self.num(t, env)
        try:
            return self.num(t, env)
        except Unknown:
            return self.seq(t, env)


def rows(ctx, rid, q, opaque, want):
    s = ctx.summ(q, opaque, "j20", fine=2)
    return s


def leaf_op(t):
    bad = [f for f, n in (("hash", "Sha256"), ("prehash_key", "Sha256"), ("prehash_value", "Sha256"), ("length", "NoPrefix")) if not enum(proj(t, f), n)]
    if not same_bytes(proj(t, "prefix"), LEAF_SEP):
        bad.append("prefix")
    return bad


def some(t):
    return t.a[3][0] if t.op == "adt" and t.a[1] == "Some" else None


def check_ics(ctx):
    ctx.rule("path", "for every number of siblings 0..256, with the key's bits and the siblings symbolic: one inner operation per sibling, deepest first, tagged, the sibling before or after by the key's bit of its level")
    ctx.rule("leaf", "the existence proof carries key, value and the tree's leaf operation; the published spec describes the same operations")
    ctx.rule("answer", "a present key is answered by its value and the existence proof of the tree's own proof; an absent one by the neighbours'")
    existence(ctx)
    nonexistence(ctx)
    answer(ctx)
    spec(ctx)


def existence(ctx):
    s = ctx.summ(EXIST, None, "j20", fine=2)
    key, value, proof = plain(s)
    sibs = mk("field", proof, "siblings")
    keyh = mk("H", "H", key)
    w = EXIST
    n = 0
    for o in s.outs:
        if o.kind == "panic":
            ok = entails(o.facts, mk_le(Int(257), mk("call", "len", sibs)))
            ctx.ob("path", w, ok, "panics: %s" % o.why if hasattr(o, "why") else "panics", "panic")
            continue
        n += 1
        t = o.val
        ok = t.op == "adt" and proj(t, "key") is key and proj(t, "value") is value
        ctx.ob("leaf", w, ok, "the proof is not for the key and value given: %s" % show(t)[:120], "kv")
        leaf = some(proj(t, "leaf"))
        bad = leaf_op(leaf) if leaf is not None else ["leaf"]
        ctx.ob("leaf", w, not bad, "the leaf operation's %s differs" % ", ".join(bad), "op")
        path = proj(t, "path")
        done = 0
        for k in range(257):
            env = {}
            sim = Sim(s, k, keyh, sibs)
            try:
                live = all(sim.fact(g, v, env) is not False for g, v in o.facts.d.items() if g.op != "more")
                if not live:
                    continue
                got = sim.seq(path, env)
                over = [g for g, v in o.facts.d.items() if g.op == "more" and sim.fact(g, v, env) is False]
            except Unknown as e:
                ctx.ob("path", w, False, "cannot tell the path for %d siblings: %s" % (k, e), "unknown")
                break
            except RecursionError:
                ctx.ob("path", w, False, "cannot tell the path for %d siblings" % k, "unknown")
                break
            p = "the loop stops before its end" if over else path_problem(got, k)
            ctx.ob("path", w, p is None, "with %d siblings: %s" % (k, p), "items")
            if p:
                break
            done += 1
        ctx.floor("path", w, done, 1, "numbers of siblings")
        ctx.seen = getattr(ctx, "seen", 0) + done
    ctx.floor("path", w, n, 1, "outcomes")
    ctx.floor("path", w, getattr(ctx, "seen", 0), 257, "numbers of siblings handled in all")


def path_problem(got, n):
    if len(got) != n:
        return "%d operations" % len(got)
    tag = ("bytes", as_bytes(INT_SEP))
    for i, x in enumerate(got):
        if x[0] != "bit":
            return "operation %d does not depend on the key's bit" % i
        if x[1] != n - 1 - i:
            return "operation %d depends on bit %d of the key instead of %d" % (i, x[1], n - 1 - i)
        for bit, op in ((1, x[2]), (0, x[3])):
            want = ((tag, ("sib", i)), ()) if bit else ((tag,), (("sib", i),))
            if not op[1]:
                return "another hash"
            if op[2:] != want:
                return "operation %d for bit %d is prefix %s, suffix %s" % (i, bit, op[2], op[3])
    return None


GET = "get"


def opq(names):
    return lambda f: True if f.name in names and f.crate == "jmt" else None


def named(t, *ns):
    return t.op == "call" and t.a[0].split("::")[-1] in ns


EX = "sparse_merkle_proof_to_ics23_existence_proof"
SIDES = {"Leftmost": (None, "leftmost_right_proof"), "Rightmost": ("rightmost_left_proof", None), "Middle": ("rightmost_left_proof", "leftmost_right_proof")}


def nonexistence(ctx):
    s = ctx.summ(NONEX, opq((EX, GET)), "j20", fine=2)
    selfv, key, version, proof = plain(s)
    w = NONEX
    oks = {}
    for o in s.outs:
        f = o.facts
        kind = [k for k in SIDES if f.truth(mk_isv(proof, k)) is True]
        if len(kind) != 1:
            ctx.ob("answer", w, False, "an outcome for no particular side", "side")
            continue
        k, = kind
        ps = [payload(proof, k, x) if x else None for x in SIDES[k]]
        if o.kind == "panic":
            ok = any(p is not None and f.truth(mk_isv(mk("field", p, "leaf"), "None")) is True for p in ps)
            ctx.ob("answer", w, ok, "panics although the proofs have leaves", "panic")
            continue
        r = o.val
        if is_err(o):
            reads = [t for t in f.dom if f.truth(mk_isv(t, "Err")) is True or f.truth(mk_isv(t, "None")) is True]
            ok = any(own(x, ps, selfv, version) for x in reads)
            ctx.ob("answer", w, ok, "fails although key and value of each neighbour are there", "err")
            continue
        v = payload(r, "Ok") if r.op != "adt" else r.a[3][0]
        if v.op != "adt":
            ctx.ob("answer", w, False, "returns %s" % show(v)[:100], "val")
            continue
        ctx.ob("answer", w, proj(v, "key") is key, "the key is %s" % show(proj(v, "key"))[:80], "key")
        for side, p in zip(("left", "right"), ps):
            x = proj(v, side)
            if p is None:
                ctx.ob("answer", w, x.op == "adt" and x.a[1] == "None", "%s: there is a %s neighbour's proof" % (k, side), "none")
                continue
            y = some(x)
            ok = y is not None and named(y, EX) and neighbour(y, p, selfv, version)
            ctx.ob("answer", w, ok, "%s: the %s part is not the existence proof of the neighbour's own key and value: %s" % (k, side, show(x)[:160]), "side")
        oks[k] = True
    for k in SIDES:
        ctx.ob("answer", w, k in oks, "no proof is ever given for a key that is %s" % k, "all")


def keyh_of(p):
    return mk("field", payload(mk("field", p, "leaf")), "key_hash")


def own(t, ps, selfv, version):
    while t.op in ("field", "as"):
        t = t.a[0]
    hs = [keyh_of(p) for p in ps if p is not None]
    if named(t, "preimage"):
        return t.a[1] is mk("field", selfv, "reader") and any(t.a[2] is h for h in hs)
    if named(t, GET):
        return t.a[1] is selfv and any(t.a[2] is h for h in hs) and t.a[3] is version
    return False


def neighbour(y, p, selfv, version):
    k, v, q = y.a[1:4]
    h = keyh_of(p)
    if q is not p:
        return False
    pre = [t for t in subterms(k) if named(t, "preimage")]
    val = [t for t in subterms(v) if named(t, GET)]
    return (len(pre) == 1 and pre[0].a[1] is mk("field", selfv, "reader") and pre[0].a[2] is h and k.op == "field" and payload(payload(pre[0], "Ok")) is k.a[0]
            and len(val) == 1 and val[0].a[1] is selfv and val[0].a[2] is h and val[0].a[3] is version and v is payload(payload(val[0], "Ok")))


def answer(ctx):
    s = ctx.summ(GETP, opq((EX, GET, "exclusion_proof_to_ics23_nonexistence_proof", "get_with_exclusion_proof")), "j20", fine=2)
    selfv, key, version = plain(s)
    w = GETP
    kinds = set()
    kh = mk("H", "H", key)
    for o in s.outs:
        f = o.facts
        q = [t for t in set(f.dom) | {x for k in f.dom for x in subterms(k)} if named(t, "get_with_exclusion_proof")]
        if o.kind == "panic" or len(q) != 1:
            ctx.ob("answer", w, False, "an outcome without asking the tree", "ask")
            continue
        q, = q
        ctx.ob("answer", w, q.a[1] is selfv and q.a[2].op == "adt" and q.a[2].a[3][0] is kh and q.a[3] is version, "asks the tree for %s" % show(q)[:120], "key")
        ok_ = f.truth(mk_isv(q, "Ok"))
        if ok_ is False:
            ctx.ob("answer", w, is_err(o), "a failure of the tree is answered by %s" % show(o.val)[:80], "err")
            kinds.add("err")
            continue
        a = payload(q, "Ok")
        there = f.truth(mk_isv(a, "Ok"))
        if ok_ is None or there is None:
            ctx.ob("answer", w, False, "an outcome without looking at the tree's answer", "look")
            continue
        if there is False:
            ex = payload(a, "Err")
            c = [t for t in {x for k in f.dom for x in subterms(k)} if named(t, "exclusion_proof_to_ics23_nonexistence_proof")]
            good = len(c) == 1 and c[0].a[1] is selfv and c[0].a[2] is key and c[0].a[3] is version and c[0].a[4] is ex
            ctx.ob("answer", w, good, "an absent key's neighbours are not turned into its proof", "nonex")
            if not good:
                continue
            if is_err(o):
                ctx.ob("answer", w, f.truth(mk_isv(c[0], "Err")) is True, "fails although the proof could be made", "nonerr")
                kinds.add("noerr")
                continue
            v = ret(o.val)
            good = v is not None and v[0].op == "adt" and v[0].a[1] == "None" and wraps(v[1], "Nonexist", payload(c[0], "Ok"))
            ctx.ob("answer", w, good, "an absent key is answered by %s" % show(o.val)[:160], "absent")
            kinds.add("absent")
        else:
            pair = payload(a, "Ok")
            val, pr = mk("field", pair, "0"), mk("field", pair, "1")
            v = ret(o.val)
            good = v is not None and some(v[0]) is val
            ctx.ob("answer", w, good, "a present key is answered by %s" % show(o.val)[:160], "value")
            if good:
                x = inner(v[1], "Exist")
                good = x is not None and named(x, EX) and x.a[1] is key and x.a[2] is val and x.a[3] is pr
                ctx.ob("answer", w, good, "the proof of a present key is %s" % show(v[1])[:160], "present")
            kinds.add("present")
    ctx.ob("answer", w, {"err", "noerr", "absent", "present"} <= kinds, "only %s" % sorted(kinds), "kinds")


def ret(v):
    if v.op == "adt" and v.a[1] == "Ok":
        v = v.a[3][0]
    if v.op == "tuple":
        return v.a[0] if isinstance(v.a[0], tuple) else v.a
    return None


def inner(c, kind):
    if c.op != "adt":
        return None
    p = some(proj(c, "proof"))
    return p.a[3][0] if p is not None and p.op == "adt" and p.a[1] == kind else None


def wraps(c, kind, x):
    return inner(c, kind) is x


def spec(ctx):
    s = ctx.summ(SPEC, None, "j20", fine=2)
    w = SPEC
    for o in s.outs:
        if o.kind != "ret":
            ctx.ob("leaf", w, False, "panics", "panic")
            continue
        t = o.val
        leaf, inn = some(proj(t, "leaf_spec")), some(proj(t, "inner_spec"))
        ctx.ob("leaf", w, leaf is not None and not leaf_op(leaf), "the spec's leaf operation differs from the proofs'", "spec-leaf")
        if inn is None:
            ctx.ob("leaf", w, False, "no inner spec", "spec-inner")
            continue
        n = len(as_bytes(INT_SEP))
        order = proj(inn, "child_order")
        ok = order.op == "arr" and [x.a[0] for x in order.a[0] if x.op == "int"] == [0, 1] and len(order.a[0]) == 2
        ctx.ob("leaf", w, ok, "the children's order is %s" % show(order)[:60], "order")
        ok = enum(proj(inn, "hash"), "Sha256") and const(proj(inn, "min_prefix_length"), n) and const(proj(inn, "max_prefix_length"), n) and const(proj(inn, "child_size"), 32)
        ctx.ob("leaf", w, ok, "the inner operation's hash, tag length or child size differs", "inner")
        ctx.ob("leaf", w, same_bytes(proj(inn, "empty_child"), PLACEHOLDER), "the empty child is %s" % show(proj(inn, "empty_child"))[:80], "empty")
        pre = proj(t, "prehash_key_before_comparison")
        ctx.ob("leaf", w, const(pre, 1) or pre is mk_bool(True), "keys are compared without hashing them", "prehash")
        ctx.ob("leaf", w, const(proj(t, "min_depth"), 0), "shallow proofs are refused", "depth")


def mk_bool(b):
    return mk("bool", b)
