"""Updating the versioned tree: what an insertion or deletion stages and marks (J23 J08, part of J05).

One insertion is a recursion over the key's nibbles.  Every path of one level is brought into a normal form: positions in the key K and in the leaf's key P are
numbers over d (the depth of the node) and c (how many nibbles K and P share), nibble paths are prefixes of K plus single nibbles, node keys are (version, path),
and the calls on the staging area become a list of operations.  That list is compared with what the level has to do."""
from lib import *
from jdb import plain
from jnode import kids
import jread

T_ = jread.T_
TC = "tree_cache::TreeCache::"
NP = "types::nibble::nibble_path::"
OPS = {"pop", "push", "get_nibble", "nibbles", "new", "visited_nibbles", "remaining_nibbles", "is_finished", "get_nibble_path", "num_nibbles", "peek", "next", "from_iter",
       "is_empty", "last", "bytes"}
NEWS = ("node_type::InternalNode::new", "node_type::InternalNode::new_migration", "node_type::InternalNode::new_impl")
KIDOPS = ("node_type::Children::insert", "node_type::Children::remove")
GEN = jread.GEN


def opq(extra=()):
    def f(fn):
        if fn.crate != "jmt":
            return False
        p = fn.path
        return (p.startswith(TC) or "nibble_path" in p and fn.name in OPS or fn.name in ("skip_common_prefix", "gen_child_node_key") or p == jread.EXTN or
                fn.name == "get_nibble" or "NibbleRangeIterator" in p or p.startswith("node_type::") and fn.name == "hash" or p in NEWS or p in KIDOPS or p.startswith("tree::") and fn.name in extra)
    return f


class Unknown(Exception):
    pass


def unk(t):
    raise Unknown(show(t)[-160:])


D = mk("sym", "depth")
C = mk("sym", "common")
N64 = Int(64)
K, P = "K", "P"


def named(t, *names):
    return t.op == "call" and t.a[0].split("::")[-1] in names


def effof(t, *names):
    return t.op == "eff" and t.a[0].split("::")[-1] in names


class It:
    def __init__(self, base, start, pos, end):
        self.base, self.start, self.pos, self.end = base, start, pos, end


class Path:
    """the first n nibbles of K or P, and then some"""

    def __init__(self, base, n, nibs=()):
        self.base, self.n, self.nibs = base, n, tuple(nibs)

    def len(self):
        return add(self.n, Int(len(self.nibs)))

    def show(self):
        return "%s[..%s]%s" % (self.base, show(self.n), "".join("+" + shown(x) for x in self.nibs))


def shown(x):
    return "%s[%s]" % (x[0], show(x[1])) if x[0] in (K, P) else "only child's nibble"


ONLY = ("only",)


class Abs:
    def __init__(self, s, o, node_key, it, facts, tree_cache, hyp=None):
        """o: an outcome or None; hyp: loop variable -> normal form"""
        self.s, self.nk, self.it0, self.tc = s, node_key, it, tree_cache
        self.raw = facts
        self.hyp = hyp or {}
        self.f = Facts()
        self.newchild = None     # what the recursion or the creation below gives, set by the caller
        self.node = None         # the node read
        self.kid = None          # the children array of which 'the only child' may be spoken
        for g in (mk_le(INT0, D), mk_le(D, C), mk_le(C, N64)):
            self.f = self.f.assume(g, True)

    # ------------------------------------------------------------ numbers
    def num(self, t):
        if t.op == "int":
            return t
        if t.op == "lin":
            c, d = lin_of(t)
            r = Int(c)
            for x, k in d.items():
                r = add(r, mul(self.num(x), Int(k)))
            return r
        if t.op == "cast":
            return self.num(t.a[1])
        if t.op == "ind":
            return t
        if named(t, "skip_common_prefix"):
            return self.skip(self.it(t.a[1]), self.it(t.a[2]))
        if named(t, "num_nibbles"):
            x = t.a[1]
            if self.is_it(x):
                i = self.it(x)
                return sub(i.end, i.start)
            return self.path(x).len()
        if t.op == "field" and t.a[1] == "num_nibbles":
            return self.path(t.a[0]).len()
        unk(t)

    def skip(self, x, y):
        """how far both advance: they start at the same place, and everything before it is common"""
        if {x.base, y.base} != {K, P} and not self.samekey() or not same(self.f, x.pos, y.pos) or not entails(self.f, mk_le(x.pos, C)):
            raise Unknown("common prefix of other iterators")
        lims = [C, x.end, y.end]
        for l in lims:
            if all(entails(self.f, mk_le(l, m)) for m in lims):
                return sub(l, x.pos)
        raise Unknown("common prefix of unknown length")

    # ------------------------------------------------------------ iterators, paths, nibbles
    def is_it(self, t):
        if t is self.it0:
            return True
        if t.op == "call":
            return named(t, "visited_nibbles", "remaining_nibbles", "nibbles")
        if t.op == "eff":
            return effof(t, "next", "skip_common_prefix") or effof(t, "insert_at")
        return False

    def it(self, t):
        if t in self.hyp and isinstance(self.hyp[t], It):
            return self.hyp[t]
        if t is self.it0:
            return It(K, INT0, D, N64)
        if effof(t, "next"):
            i = self.it(t.a[2])
            return It(i.base, i.start, add(i.pos, INT1), i.end)
        if effof(t, "skip_common_prefix"):
            x, y = self.it(t.a[2]), self.it(t.a[3])
            i = (x, y)[t.a[1]]
            return It(i.base, i.start, add(i.pos, self.skip(x, y)), i.end)
        if effof(t, "insert_at"):
            i = self.it(t.a[2:][t.a[1]])
            return It(i.base, i.start, mk("sym", "somewhere"), i.end)
        if named(t, "visited_nibbles"):
            i = self.it(t.a[1])
            return It(i.base, i.start, i.start, i.pos)
        if named(t, "remaining_nibbles"):
            i = self.it(t.a[1])
            return It(i.base, i.pos, i.pos, i.end)
        if named(t, "nibbles"):
            p = self.path(t.a[1])
            if p.nibs:
                unk(t)
            return It(p.base, INT0, INT0, p.n)
        unk(t)

    def norm(self, p):
        n, base = p.n, p.base
        nibs = list(p.nibs)
        if same(self.f, n, INT0):
            base = K
        if base == P:
            if entails(self.f, mk_le(n, C)):
                base = K
            elif same(self.f, n, add(C, INT1)):
                base, n, nibs = K, C, [self.nibn(P, C)] + nibs
        while nibs and nibs[0][0] == base and same(self.f, nibs[0][1], n):
            n = add(n, INT1)
            nibs.pop(0)
        return Path(base, n, nibs)

    def nibn(self, base, i):
        if base == P and entails(self.f, mk_le(add(i, INT1), C)):
            base = K
        return (base, i)

    def path(self, t):
        if t in self.hyp:
            return self.hyp[t]
        if t is mk("field", self.nk, "nibble_path"):
            return self.norm(Path(K, D))
        if t.op == "adt" and t.a[0].endswith("NibblePath") and is_int(proj(t, "num_nibbles")) and proj(t, "num_nibbles").a[0] == 0:
            return Path(K, INT0)
        if named(t, "new") and "NibblePath" in t.a[0]:
            b = t.a[1]
            if b.op == "empty":
                return Path(K, INT0)
            k = self.keybytes(b)
            if k:
                return self.norm(Path(k, N64))
            unk(t)
        if named(t, "from_iter"):
            i = self.it(t.a[1])
            if not same(self.f, i.start, INT0) or not same(self.f, i.pos, INT0):
                unk(t)
            return self.norm(Path(i.base, i.end))
        if named(t, "get_nibble_path"):
            i = self.it(t.a[1])
            if not same(self.f, i.start, INT0):
                unk(t)
            return self.norm(Path(i.base, i.end))
        if effof(t, "push"):
            p = self.path(t.a[2])
            return self.norm(Path(p.base, p.n, p.nibs + (self.nib(t.a[3]),)))
        if effof(t, "pop"):
            p = self.path(t.a[2])
            if p.nibs:
                return self.norm(Path(p.base, p.n, p.nibs[:-1]))
            return self.norm(Path(p.base, sub(p.n, INT1)))
        if t.op == "field" and t.a[1] == "nibble_path":
            return self.key(t.a[0])[1]
        unk(t)

    def nib(self, t):
        if t.op == "field" and t.a[0].op == "as" and t.a[0].a[1] == "Some":
            c = t.a[0].a[0]
            if named(c, "next", "peek"):
                i = self.it(c.a[1])
                return self.nibn(i.base, i.pos)
            if named(c, "pop", "last"):
                p = self.path(c.a[1])
                return p.nibs[-1] if p.nibs else self.nibn(p.base, sub(p.n, INT1))
        if named(t, "get_nibble"):
            k = self.keybytes(t.a[1])
            if k:
                return self.nibn(k, self.num(t.a[2]))
            p = self.path(t.a[1])
            if not p.nibs:
                return self.nibn(p.base, self.num(t.a[2]))
        if t.op == "adt" and t.a[0].endswith("::Nibble") and self.only(t):
            return ONLY
        unk(t)

    def only(self, t):
        """t is the position of the first child found, or its version"""
        if self.kid is None:
            return None
        if t.op == "adt":
            x = jread.uncast(t.a[3][0])
            if x.op != "pos":
                return None
            for k, v in self.raw.d.items():
                if k.op == "more" and v is True and "%s@%d" % (k.a[1], k.a[0].n) == x.a[0] and tagno(k.a[1]) == 0 and base_of(k.a[0]) is self.kid:
                    return True
        return None

    # ------------------------------------------------------------ keys and nodes
    def keybytes(self, b):
        """K or P when b is the bytes of the key inserted or of the leaf read"""
        if self.node is not None:
            h = mk("field", payload(self.node, "Leaf"), "key_hash")
            if b is h or b is mk("field", h, "0"):
                return P
        if b.op == "field" and b.a[1] == "0" and b.a[0].op == "as" and named(b.a[0].a[0], "try_into"):
            return self.keybytes(b.a[0].a[0].a[1])
        if b.op == "field" and b.a[1] == "bytes" or named(b, "bytes"):
            p = self.path(b.a[0] if b.op == "field" else b.a[1])
            if not p.nibs and same(self.f, p.n, N64):
                return p.base
        if b.op == "adt" and b.a[0].endswith("KeyHash"):
            return self.keybytes(b.a[3][0])
        return None

    def samekey(self):
        return same(self.f, C, N64)

    def key(self, t):
        """(version, path)"""
        if t in self.hyp:
            return self.hyp[t]
        if t is self.nk:
            return (mk("field", self.nk, "version"), self.norm(Path(K, D)))
        if t.op == "upd":
            v, p = self.key(t.a[0])
            if t.a[1] == ("f", "version"):
                return (t.a[2], p)
            if t.a[1] == ("f", "nibble_path"):
                return (v, self.path(t.a[2]))
        if t.op == "adt" and t.a[0] == jread.NKEY:
            return (proj(t, "version"), self.path(proj(t, "nibble_path")))
        if named(t, "gen_child_node_key"):
            v, p = self.key(t.a[1])
            return (self.ver(t.a[2]), self.norm(Path(p.base, p.n, p.nibs + (self.nib(t.a[3]),))))
        unk(t)

    def ver(self, v):
        """a version; the one recorded for a child is ('of', nibble)"""
        if v.op == "field" and v.a[1] == "version" and v.a[0].op == "field" and v.a[0].a[0].op == "as":
            c = v.a[0].a[0].a[0]
            if c.op == "idx":
                n = self.kidnib(c.a[1])
                return ("of", c.a[0], n)
            if c.op == "elem" and self.kid is not None and c.a[0] is self.kid:
                return ("of", self.kid, ONLY)
        return v

    def kidnib(self, i):
        i = jread.uncast(i)
        if i.op == "field" and i.a[1] == "0":
            return self.nib(i.a[0])
        unk(i)

    def node_(self, t):
        """('old',) the node read; ('leaf', key, value hash); ('inner', children); ('child',) what came from below; ('stored', key, staging area)"""
        if t in self.hyp:
            return self.hyp[t]
        if self.node is not None and t is self.node:
            return ("old",)
        if self.newchild is not None and t is self.newchild:
            return ("child",)
        if t.op == "field" and t.a[0].op == "as" and t.a[0].a[1] in ("Leaf", "Internal") and t.a[1] == "0":
            return self.node_(t.a[0].a[0])
        if t.op == "adt" and t.a[0].endswith("::Node"):
            if t.a[1] == "Null":
                return ("null",)
            return self.node_(t.a[3][0])
        if t.op == "adt" and t.a[0].endswith("LeafNode"):
            k = self.keybytes(proj(t, "key_hash"))
            if k is None:
                unk(proj(t, "key_hash"))
            if k == P and self.samekey():
                k = K
            return ("leaf", k, proj(t, "value_hash"))
        if t.op == "call" and t.a[0] in NEWS:
            return ("inner", self.children(t.a[1]))
        if t.op == "field" and t.a[0].op == "as" and t.a[0].a[1] == "Ok":
            c = t.a[0].a[0]
            if named(c, "get_node"):
                return ("stored", self.key(c.a[2]), c.a[1])
            if named(c, "get_node_option"):
                unk(t)
        if t.op == "field" and t.a[0].op == "as" and t.a[0].a[1] == "Some":
            c = t.a[0].a[0]
            if c.op == "field" and named(c.a[0].a[0], "get_node_option"):
                c = c.a[0].a[0]
                return ("stored", self.key(c.a[2]), c.a[1])
        unk(t)

    def children(self, t):
        """(base, [(op, nibble, child)]): base None for no children, the array of the node read otherwise"""
        if t.op == "eff" and t.a[0] in KIDOPS:
            b, ops = self.children(t.a[2])
            n = self.nib(t.a[3])
            if t.a[0].endswith("insert"):
                return (b, ops + [("insert", n, self.child(t.a[4]))])
            return (b, ops + [("remove", n, None)])
        if t.op == "adt" and is_int(proj(t, "num_children")) and proj(t, "num_children").a[0] == 0 and proj(t, "children").op in ("call", "default", "arr", "rep"):
            return (None, [])
        if self.node is not None and t is mk("field", payload(self.node, "Internal"), "children"):
            return ("old", [])
        unk(t)

    def child(self, t):
        """('child of', node, version, type fits)"""
        if t.op != "adt":
            unk(t)
        h, v, ty = proj(t, "hash"), proj(t, "version"), proj(t, "node_type")
        if not (h.op == "call" and h.a[0].split("::")[-1] == "hash" and len(h.a) == 2):
            unk(h)
        n = h.a[1]
        return (self.node_(n), v, self.fits(n, ty))

    def fits(self, n, ty):
        """ty is the node type of node n on this path"""
        if ty.op != "adt":
            return False
        kind = self.kind(n)
        if kind == "Leaf" or kind == "Null":
            return ty.a[1] == kind
        if kind == "Internal":
            x = self.inner_of(n)
            c = mk("field", x, "leaf_count")
            if ty.a[1] == "Internal":
                return self.raw.truth(mk_isv(c, "Some")) is True and ty.a[3][0] is payload(c)
            if ty.a[1] == "InternalLegacy":
                return self.raw.truth(mk_isv(c, "None")) is True
        return False

    def kind(self, n):
        if n.op == "adt" and n.a[0].endswith("::Node"):
            return n.a[1]
        if n.op == "adt" and n.a[0].endswith("LeafNode"):
            return "Leaf"
        if n.op == "call" and n.a[0] in NEWS:
            return "Internal"
        if n in self.hyp and self.hyp[n][0] == "top":
            return "Internal"
        if n.op == "field" and n.a[0].op == "as" and n.a[0].a[1] in ("Leaf", "Internal"):
            return n.a[0].a[1]
        for k in ("Leaf", "Internal", "Null"):
            if self.raw.truth(mk_isv(n, k)) is True:
                return k
        return None

    def inner_of(self, n):
        if n.op == "adt" and n.a[0].endswith("::Node"):
            return n.a[3][0]
        if n.op == "call" or n in self.hyp or n.op == "field" and n.a[0].op == "as" and n.a[0].a[1] == "Internal":
            return n
        return payload(n, "Internal")

    # ------------------------------------------------------------ facts
    def learn(self):
        """brings the facts of the path into normal form; False when the path cannot be"""
        todo = [(mk_isv(k, next(iter(v))), True) for k, v in self.raw.dom.items() if len(v) == 1] + list(self.raw.d.items())
        for rnd in range(3):
            for k, v in todo:
                try:
                    g = self.atom(k, v)
                except Unknown:
                    continue
                if g is None:
                    continue
                if g is False:
                    return False
                f = self.f.assume(*g)
                if f is None:
                    return False
                self.f = f
            f = tighten(self.f)
            if f is None:
                return False
            self.f = f
        for g, v in list(self.f.d.items()):
            if g.op == "ge0" and v and self.f.ge0_deep(add(neg(g.a[0]), Int(-1))):
                return False
        return True

    def atom(self, k, v):
        if k.op == "isv":
            c = k.a[0]
            if named(c, "next", "peek"):
                i = self.it(c.a[1])
                return (mk_lt(i.pos, i.end), k.a[1] == "Some")
            if named(c, "pop", "last"):
                return (mk_le(INT1, self.path(c.a[1]).len()), k.a[1] == "Some")
            if named(c, "try_into"):
                if k.a[1] == "Err" and self.keybytes(c.a[1]):
                    return False
            return None
        if named(k, "is_finished"):
            i = self.it(k.a[1])
            return (mk_le(i.end, i.pos), v)
        if named(k, "is_empty"):
            return (mk_le(self.path(k.a[1]).len(), INT0), v)
        if k.op == "ge0":
            return (mk_ge0(self.num(k.a[0])), v)
        if k.op == "eq0":
            return (mk_eq(self.num(k.a[0]), INT0), v)
        if k.op == "eq":
            a, b = k.a
            x, y = self.keybytes(a), self.keybytes(b)
            if x and y:
                if x == y:
                    return None if v else False
                return (mk_le(N64, C), v)
            try:
                x, y = self.nib(a), self.nib(b)
            except Unknown:
                return (mk_eq(self.num(a), self.num(b)), v)
            if x == y or x[0] == y[0] and x[0] in (K, P) and same(self.f, x[1], y[1]):
                return None if v else False
            if {x[0], y[0]} == {K, P} and same(self.f, x[1], y[1]) and same(self.f, x[1], C):
                return False if v else None
            return None
        return None


# ---------------------------------------------------------------- one level of an insertion
def peel(t):
    r = []
    while t.op == "eff":
        r.append(t)
        t = t.a[2:][t.a[1]]
    return r[::-1], t


def spath(p):
    return p.show()


def skey(k):
    v, p = k
    return "(%s, %s)" % ("the child's version" if isinstance(v, tuple) else show(v), spath(p))


def same_path(f, a, b):
    if len(a.nibs) != len(b.nibs) or not same(f, a.n, b.n):
        return False
    if a.base != b.base and not same(f, a.n, INT0):
        return False
    return all(same_nib(f, x, y) for x, y in zip(a.nibs, b.nibs))


def same_nib(f, x, y):
    return x == y or len(x) == 2 and len(y) == 2 and x[0] == y[0] and same(f, x[1], y[1])


def same_key(a, x, y):
    """a: the Abs; version and path agree"""
    if isinstance(x[0], tuple) or isinstance(y[0], tuple):
        if not (isinstance(x[0], tuple) and isinstance(y[0], tuple)) or x[0][1] is not y[0][1] or not same_nib(a.f, x[0][2], y[0][2]):
            return False
    elif not same(a.raw, x[0], y[0]):
        return False
    return same_path(a.f, x[1], y[1])


class Level:
    """one outcome of insert_at, and what is expected of it"""

    def __init__(self, ctx, s, o, want):
        self.ctx, self.s, self.o, self.want = ctx, s, o, want
        selfv, self.nk, self.version, self.it, self.value, self.tc = plain(s)
        self.q = s.fn.qual
        self.a = Abs(s, o, self.nk, self.it, o.facts, self.tc)
        self.read = None
        for t in o.facts.dom:
            if named(t, "get_node_option") and t.a[1] is self.tc and t.a[2] is self.nk:
                self.read = t
        self.a.node = payload(payload(self.read, "Ok"), "Some") if self.read is not None else None

    def entry(self):
        f = self.o.facts
        r = self.read
        if r is None:
            return None
        if f.truth(mk_isv(r, "Err")) is True:
            return "err"
        x = payload(r, "Ok")
        if f.truth(mk_isv(x, "None")) is True:
            return "none"
        for k in ("Internal", "Leaf", "Null"):
            if f.truth(mk_isv(self.a.node, k)) is True:
                return k
        return None

    def ob(self, want, rule, ok, text, cat=None):
        if self.want == want:
            self.ctx.ob(rule, self.q, ok, text, cat)

    def result(self):
        v = self.o.val
        if is_err(self.o):
            return ("Err",)
        x = v.a[3][0] if v.op == "adt" else payload(v, "Ok")
        if x.op != "adt":
            unk(x)
        if x.a[1] == "Updated":
            p = x.a[3][0]
            k, n = (p.a[0][0], p.a[0][1]) if p.op == "tuple" else (mk("field", p, "0"), mk("field", p, "1"))
            return ("Updated", self.a.key(k), self.a.node_(n))
        return (x.a[1],)

    def ops(self, t):
        """[(kind, key, extra, term)] of the operations on the staging area in order, and what they start from"""
        es, base = peel(t)
        out = []
        for e in es:
            n = e.a[0].split("::")[-1]
            ar = e.a[2:]
            if n == "put_node" and e.a[1] == 0:
                out.append(("put", self.a.key(ar[1]), self.a.node_(ar[2]), e))
            elif n == "delete_node" and e.a[1] == 0:
                if not is_int(ar[2]):
                    unk(ar[2])
                out.append(("del", self.a.key(ar[1]), bool(ar[2].a[0]), e))
            elif n == "insert_at" and e.a[1] == 5:
                out.append(("rec", self.a.key(ar[1]), ar, e))
            else:
                raise Unknown("stages with %s" % n)
        return out, base


def failing(o):
    """some call on the way failed"""
    return any(k.op == "call" and o.facts.truth(mk_isv(k, "Err")) is True for k in o.facts.dom)


def node_str(n):
    if n[0] == "leaf":
        return "leaf(%s, %s)" % (n[1], show(n[2]))
    if n[0] == "inner":
        return "inner(%s; %s)" % (n[1][0], ", ".join("%s %s%s" % (x, shown(y), "" if z is None else "->" + node_str(z[0])) for x, y, z in n[1][1]))
    if n[0] == "stored":
        return "what is at %s" % skey(n[1])
    if n[0] == "top":
        return "the chain built so far"
    return {"old": "the node read", "child": "the new child", "null": "an empty tree"}[n[0]]


def same_node(a, x, y):
    if x[0] != y[0]:
        return False
    if x[0] == "leaf":
        return x[1] == y[1] and same(a.raw, x[2], y[2])
    if x[0] == "inner":
        (b1, o1), (b2, o2) = x[1], y[1]
        if b1 != b2 or len(o1) != len(o2):
            return False
        left = list(o2)
        for p in o1:
            m = [q for q in left if p[0] == q[0] and same_nib(a.f, p[1], q[1]) and same_child(a, p[2], q[2])]
            if not m:
                return False
            left.remove(m[0])
        return True
    if x[0] == "stored":
        return same_key(a, x[1], y[1])
    if x[0] == "top":
        return same(a.f, x[1], y[1])
    return True


def same_child(a, c1, c2):
    if c1 is None or c2 is None:
        return c1 is c2
    return same_node(a, c1[0], c2[0]) and same(a.raw, c1[1], c2[1]) and c1[2] is True and c2[2] is True


def compare(lv, got, want, res, wres):
    """the operations and the result of an outcome against what the level has to do"""
    a = lv.a
    for kind, prop, rule in (("put", "J23", "staged"), ("rec", "J05", "addressed"), ("del", "J08", "marked")):
        g = [x for x in got if x[0] == kind]
        w = [x for x in want if x[0] == kind]
        for x in w:
            m = [y for y in g if same_key(a, x[1], y[1]) and (kind != "put" or same_node(a, x[2], y[2])) and (kind != "del" or x[2] == y[2])]
            lv.ob(prop, rule, bool(m), "%s %s%s does not happen; there is %s" % (
                {"put": "staging", "rec": "descending to", "del": "marking"}[kind], skey(x[1]), " := " + node_str(x[2]) if kind == "put" else (" as a leaf" if x[2] else " as an inner node") if kind == "del" else "",
                "; ".join(skey(y[1]) + (" := " + node_str(y[2]) if kind == "put" else "") for y in g) or "nothing"), kind)
            if m:
                g.remove(m[0])
        lv.ob(prop, rule, not g, "%s %s although nothing is to be" % ({"put": "stages", "rec": "descends to", "del": "marks"}[kind], "; ".join(skey(y[1]) for y in g)), kind + "-extra")
    ok = res[0] == wres[0] and (res[0] != "Updated" or same_key(a, res[1], wres[1]) and same_node(a, res[2], wres[2]))
    lv.ob("J23", "result", ok, "reports %s instead of %s" % (sres(res), sres(wres)), "result")
    # a key is freed before it is taken again, and read before it is freed
    for i, x in enumerate(got):
        for y in got[i + 1:]:
            if x[0] == "put" and y[0] == "del" and may_clash(a, x[1], y[1]):
                lv.ob("J08", "marked", False, "unmarks what was just staged at %s" % skey(x[1]), "order")


def may_clash(a, x, y):
    return same_key(a, x, y) or same_path(a.f, x[1], y[1]) and not isinstance(x[0], tuple) and not isinstance(y[0], tuple) and a.raw.truth(mk_eq(x[0], y[0])) is not False


def sres(r):
    return r[0] + ("(%s, %s)" % (skey(r[1]), node_str(r[2])) if len(r) > 1 else "")


def insert_level(ctx, want):
    s = ctx.summ(T_ + "insert_at", opq(("insert_at",)), "jins", fine=2)
    n = {}
    for o in s.outs:
        lv = Level(ctx, s, o, want)
        try:
            k = level(lv)
        except Unknown as e:
            k = lv.entry() or "?"
            ctx.ob("understood", lv.q, False, "a path (%s) handles something in a way that is not understood: %s" % (k, e), k)
        n[k] = n.get(k, 0) + 1
    for k, m in (("err", 1), ("none", 3), ("Null", 3), ("Internal", 10), ("Leaf", 4)):
        ctx.floor("understood", s.fn.qual, n.get(k, 0), m, "outcomes on reading: " + k)
    chain(ctx, s, want)


def level(lv):
    a, o, f = lv.a, lv.o, lv.o.facts
    e = lv.entry()
    if e is None:
        lv.ob("J23", "understood", False, "a path does not say what was read", "entry")
        return "?"
    for L in lv.s.I.loops.values():
        hyps(lv, L)
    if e == "Internal":
        a.f = a.f.assume(mk_le(D, Int(63)), True)
    R = new = None
    for t in f.dom:
        if named(t, "insert_at") and len(t.a) == 7:
            if R is not None and t is not R:
                raise Unknown("two recursions")
            R = t
    if R is not None:
        a.newchild = mk("field", payload(payload(R, "Ok"), "Updated"), "1")
        if f.truth(mk_isv(a.newchild, "Null")) is True:
            return "impossible"      # no level reports an empty tree as its new node
    if e == "Internal":
        for x in changed_children(lv):
            a.kid = mk("field", x, "children")
    if not a.learn():
        return "impossible"
    if o.kind == "panic":
        lv.ob("J23", "total", False, "panics at %s" % show(o.val)[:80] if o.val is not None else "panics on a path that can be taken (%s)" % e, "panic")
        return e
    got, base = lv.ops(final(o, lv.tc))
    res = lv.result()
    if res[0] == "Err":
        ok = failing(o) or e in ("none", "Null") and entails(a.f, mk_le(INT1, D))
        lv.ob("J23", "result", ok, "fails on a path (%s) on which nothing went wrong" % e, "err")
        return e
    if e == "err":
        lv.ob("J23", "result", False, "goes on although the node could not be read", "err")
        return e
    some = f.truth(mk_isv(lv.value, "Some"))
    here = a.norm(Path(K, D))
    at = (lv.version, here)
    leafK = ("leaf", K, payload(lv.value))
    if e in ("none", "Null"):
        lv.ob("J23", "result", entails(a.f, mk_le(D, INT0)), "an empty place inside the tree is taken for an empty tree", "root")
        w = []
        if e == "Null":
            t = f.truth(mk_eq(lv.version, mk("field", lv.nk, "version")))
            if t is None:
                t = f.truth(mk_eq(mk("field", lv.nk, "version"), lv.version))
            if t is None and any(x[0] == "del" for x in got):
                lv.ob("J08", "marked", False, "the empty root is marked without looking at its version", "null")
            elif t is None:
                # never marking it is only right when it is not this version's
                lv.ob("J08", "marked", False, "an empty root of this very version is left staged", "null")
            if t:
                w.append(("del", a.key(lv.nk), False))
        if some is None:
            raise Unknown("a path that does not look at the value")
        if some:
            compare(lv, got, w + [("put", at, leafK)], res, ("Updated", at, leafK))
        else:
            compare(lv, [x for x in got if x[0] != "del"], [], res, ("NotChanged",))
            if any(x[0] == "del" for x in got):
                compare(lv, got, w, res, ("NotChanged",))
        return e
    if base is not lv.tc and base not in a.hyp:
        raise Unknown("works on another staging area")
    if e == "Leaf":
        leaf_level(lv, got, base, res, some, at, leafK)
    else:
        inner_level(lv, got, base, res, some, at, leafK, R)
    return e


def leaf_level(lv, got, base, res, some, at, leafK):
    a = lv.a
    eq = a.samekey()
    if not eq and not entails(a.f, mk_le(C, Int(63))):
        raise Unknown("a path that does not tell whether the leaf's key is the one inserted")
    if some is None:
        raise Unknown("a path that does not look at the value")
    rm = ("del", a.key(lv.nk), True)
    if eq:
        if some:
            compare(lv, got, [rm, ("put", at, leafK)], res, ("Updated", at, leafK))
        else:
            compare(lv, got, [rm], res, ("Removed",))
        return
    if not some:
        compare(lv, got, [], res, ("NotChanged",))
        return
    want = fork(lv, rm)
    top = ("inner", (None, fork_kids(lv)))
    if base is lv.tc:
        # no chain: everything above the fork is already there
        if not same(a.f, C, D):
            raise Unknown("a path that builds no chain where one is needed")
        if res[0] == "Updated" and res[2][0] == "top":
            top = ("top", D)
        compare(lv, got, want, res, ("Updated", at, top))
    else:
        h = a.hyp[base]
        compare(lv, got, [], res, ("Updated", at, ("top", D)))
        lv.ob("J23", "chain", same(a.f, h[1], D), "the chain above the fork ends at depth %s" % show(h[1]), "end")


def fork_kids(lv):
    a = lv.a
    v = lv.version
    return [("insert", (P, C), (("old",), v, True)), ("insert", (K, C), (("leaf", K, payload(lv.value)), v, True))]


def fork(lv, rm):
    a = lv.a
    v = lv.version
    return [rm, ("put", (v, Path(K, C, [(P, C)])), ("old",)), ("put", (v, a.norm(Path(K, C, [(K, C)]))), ("leaf", K, payload(lv.value))),
            ("put", (v, Path(K, C)), ("inner", (None, fork_kids(lv))))]


def inner_level(lv, got, base, res, some, at, leafK, R):
    a, o, f = lv.a, lv.o, lv.o.facts
    kd = kids(payload(a.node, "Internal"))
    slot = None
    for t in f.dom:
        if t.op == "idx" and t.a[0] is kd:
            n = a.kidnib(t.a[1])
            if same_nib(a.f, n, (K, D)):
                slot = t
            else:
                lv.ob("J23", "staged", False, "looks at the child under %s instead of the key's nibble at this depth" % shown(n), "slot")
    if slot is None:
        raise Unknown("a path that does not look for the child on the key's way")
    there = f.truth(mk_isv(slot, "Some"))
    below = a.norm(Path(K, add(D, INT1)))
    want = []
    if there:
        if R is None:
            lv.ob("J23", "staged", False, "does not descend into the child on the key's way", "rec")
            return
        i = a.it(R.a[4])
        ck = (("of", kd, (K, D)), below)
        ok = R.a[3] is lv.version and R.a[5] is lv.value and i.base == K and same(a.f, i.start, INT0) and same(a.f, i.pos, add(D, INT1)) and same(a.f, i.end, N64)
        lv.ob("J23", "descends", ok, "descends with another version, key, value or position", "rec")
        want.append(("rec", ck))
        if not any(x[0] == "rec" for x in got) or a.key(R.a[2]) is None or not same_key(a, a.key(R.a[2]), ck):
            lv.ob("J05", "addressed", False, "descends to %s" % skey(a.key(R.a[2])), "rec")
        p = payload(R, "Ok")
        d = f.dom.get(p) or frozenset()
        if len(d) != 1:
            raise Unknown("a path that does not look at what the level below reports")
        r, = d
        newn = a.newchild
    elif there is False:
        if R is not None:
            lv.ob("J05", "addressed", False, "descends to a child that is not there", "rec")
            return
        if some is None:
            raise Unknown("a path that does not look at the value")
        r = "Updated" if some else "NotChanged"
        if some:
            want.append(("put", (lv.version, below), leafK))
    else:
        raise Unknown("a path that does not look for the child on the key's way")
    if r == "NotChanged":
        compare(lv, got, want, res, ("NotChanged",))
        return
    node = ("child",) if there else leafK
    change = ("insert", (K, D), (node, lv.version, True)) if r == "Updated" else ("remove", (K, D), None)
    arr = changed_children(lv)
    if len(arr) > 1:
        raise Unknown("changes the children more than once")
    if not arr:
        lv.ob("J23", "staged", False, "does not change the node's children after the child was %s" % r.lower(), "children")
        return
    new, = arr
    ch = a.children(new)
    w = ("inner", ("old", [change]))
    lv.ob("J23", "staged", same_node(a, ("inner", ch), w), "the node's children become %s instead of %s" % (node_str(("inner", ch)), node_str(w)), "children")
    want.append(("del", a.key(lv.nk), False))
    acts = set()
    for sc in scenarios(lv, new):
        if not sc and r == "Updated":
            continue
        acts.add("empty" if not sc else "lift" if sc == ("Leaf",) else "keep")
    if len(acts) != 1:
        if acts:
            lv.ob("J23", "canonical", False, "the same is done whether %s" % " or ".join(sorted({"empty": "no child is left", "lift": "one leaf is left", "keep": "more than one leaf is left"}[x] for x in acts)), "case")
        return
    act, = acts
    if act == "empty":
        compare(lv, got, want, res, ("Removed",))
    elif act == "keep":
        compare(lv, got, want + [("put", at, w)], res, ("Updated", at, w))
    else:
        ok_ = (("of", a.kid, ONLY), Path(K, D, [ONLY]))
        st = ("stored", ok_)
        compare(lv, got, want + [("del", ok_, True), ("put", at, st)], res, ("Updated", at, st))
        # read after the child was written and before it is dropped
        for x in got:
            if x[0] == "put" and x[2][0] == "stored":
                before = peel(x[2][2])[0]
                gone = [e for e in before if e.a[0].endswith("delete_node") and same_key(a, a.key(e.a[3]), ok_)]
                lv.ob("J23", "staged", not gone, "the last child is read after it was dropped", "order")
                done = [y[3] for y in got if y[0] in ("rec", "put") and y is not x]
                lv.ob("J23", "staged", all(y in before for y in done), "the last child is read before it was written", "order")


def changed_children(lv):
    """the new children, of which the facts may speak"""
    arr = set()
    for t in list(lv.o.facts.d) + list(lv.o.facts.dom) + [final(lv.o, lv.tc)]:
        for x in subterms(t):
            if x.op == "eff" and x.a[0] in KIDOPS:
                arr.add(x)
    return arr


def scenarios(lv, new):
    """the kinds of children left, in order, that the facts of the path allow; more than two stand for any number"""
    f = lv.o.facts
    arr = mk("field", new, "children")
    out = []
    for n in range(4):
        for ks in product(("Leaf", "Internal"), n):
            if allowed(lv, f, new, arr, ks):
                out.append(ks)
    return out


def product(xs, n):
    if n == 0:
        return [()]
    return [(x,) + r for x in xs for r in product(xs, n - 1)]


def tagno(t):
    t = str(t)
    return int(t[1:].split("@")[0]) if t.startswith("#") and t[1:].split("@")[0].isdigit() else None


def base_of(t):
    while t.op == "it" and t.a[0] in ("enumerate", "filter", "filter_map", "map", "rev", "inspect"):
        t = t.a[1]
    return t


def occupied(lv, src, arr):
    """the chain goes through the occupied slots of arr, each once, in one order or the other"""
    if base_of(src) is not arr:
        return False
    for rj in lv.s.I.rejects.values():
        for e, f in rj:
            if any(x is arr for x in subterms(e)) and f.truth(mk_isv(e if e.op == "elem" else e, "None")) is not True and not rejected_empty(e, f, arr):
                return False
    return True


def rejected_empty(e, f, arr):
    return any(x.op == "elem" and x.a[0] is arr and f.truth(mk_isv(x, "None")) is True for x in subterms(e))


def allowed(lv, f, new, arr, ks):
    n = len(ks)
    for k, v in f.d.items():
        if k.op == "more" and any(x is arr for x in subterms(k.a[0])):
            i = tagno(k.a[1])
            if i is None or not occupied(lv, k.a[0], arr):
                continue
            if (n > i) is not v:
                return False
        elif k.op in ("ge0", "eq0", "eq"):
            m = count_fact(lv, k, new, arr, n)
            if m is not None and m is not v:
                return False
    for t, d in f.dom.items():
        if t.op == "field" and t.a[1] == "node_type" and t.a[0].op == "field" and t.a[0].a[0].op == "as":
            e = t.a[0].a[0].a[0]
            if e.op == "elem" and e.a[0] is arr:
                i = tagno(e.a[1])
                if i is not None and i < n and not any(x.startswith(ks[i]) for x in d):
                    return False
    for t, v in f.d.items():
        # not of a type
        if t.op == "isv" and v is False and t.a[0].op == "field" and t.a[0].a[1] == "node_type":
            e = t.a[0].a[0]
            e = e.a[0].a[0] if e.op == "field" and e.a[0].op == "as" else None
            if e is not None and e.op == "elem" and e.a[0] is arr:
                i = tagno(e.a[1])
                if i is not None and i < n and ks[i] == t.a[1]:
                    return False
    return True


def count_fact(lv, k, new, arr, n):
    """the truth of an arithmetic fact about the number of children; None when it is about something else"""
    m = {}
    for x in subterms(k):
        if x is mk("field", new, "num_children") or x.op == "call" and x.a[0] in ("len", "iter_count", "count") and len(x.a) == 2 and (x.a[1] is not arr) and \
                any(y is arr for y in subterms(x.a[1])) and occupied(lv, x.a[1], arr):
            m[x] = Int(n)
    if not m:
        return None
    r = subst(k, m)
    # rebuild folds
    if r.op == "ge0" and is_int(r.a[0]):
        return r.a[0].a[0] >= 0
    if r.op == "eq0" and is_int(r.a[0]):
        return r.a[0].a[0] == 0
    if r.op == "eq" and is_int(r.a[0]) and is_int(r.a[1]):
        return r.a[0] is r.a[1]
    if r.op == "int":
        return r.a[0] != 0
    return None


# ---------------------------------------------------------------- the chain above a fork
def hyps(lv, L):
    """the normal forms that the variables of the chain's loop are to have: the prefix shrinks by one nibble a round"""
    a = lv.a
    ind = mk("ind", L.id, INT0)
    n = sub(C, ind)
    # every round starts above the depth of the node replaced (shown for each round), so the prefix never gets shorter than that
    a.f = a.f.assume(mk_le(D, n), True)
    for v, (init, steps) in L.vars.items():
        if v.op == "lv" and peel(init)[1] is lv.tc:
            a.hyp[v] = ("chain", n)
    for v, (init, steps) in L.vars.items():
        if v in a.hyp or v.op != "lv":
            continue
        for kind, fn, h in (("path", a.path, Path(K, n)), ("key", a.key, (lv.version, Path(K, n))), ("top", a.node_, ("top", n))):
            try:
                x = fn(init)
            except Unknown:
                continue
            a.hyp[v] = h
            break


def chain(ctx, s, want):
    for L in s.I.loops.values():
        for b in L.backs:
            o = _Back(b)
            lv = Level(ctx, s, o, want)
            a = lv.a
            if lv.entry() != "Leaf":
                if want == "J23":
                    ctx.ob("chain", lv.q, False, "a loop where none is expected", "loop")
                continue
            try:
                chain_step(ctx, lv, L, b, want)
            except Unknown as e:
                if want == "J23":
                    ctx.ob("understood", lv.q, False, "the chain above a fork is built in a way that is not understood: %s" % e, "chain")


class _Back:
    kind = "back"
    val = None

    def __init__(self, b):
        self.facts, self.st = b.facts, b


def chain_step(ctx, lv, L, b, want):
    a = lv.a
    # before the first round
    hyps(lv, L)
    if not a.learn():
        return
    idx = [i for i, x in enumerate(L.backs) if x is b][0]
    ind = mk("ind", L.id, INT0)
    zero = Abs(lv.s, None, lv.nk, lv.it, lv.o.facts, lv.tc)
    zero.node = a.node
    zero.f = Facts()
    for g in (mk_le(INT0, D), mk_le(D, C), mk_le(C, Int(63))):
        zero.f = zero.f.assume(g, True)
    n = sub(C, ind)
    nxt = sub(n, INT1)
    rm = ("del", a.key(lv.nk), True)
    lv0 = Level(ctx, lv.s, lv.o, want)
    lv0.a = zero
    chained = False
    for v, h in list(a.hyp.items()):
        if v not in L.vars:
            continue
        init, steps = L.vars[v]
        x = steps[idx][0]
        if isinstance(h, Path):
            ok0 = same_path(zero.f, zero.path(init), Path(K, C))
            ok1 = same_path(a.f, a.path(x), Path(K, nxt))
            lv.ob("J23", "chain", ok0 and ok1, "the prefix for the chain's nodes starts at %s and becomes %s" % (spath(zero.path(init)), spath(a.path(x))), "path")
        elif h[0] == "chain":
            got, base = lv0.ops(init)
            compare(lv0, got, fork(lv0, rm), ("-",), ("-",))
            got, base = lv.ops(x)
            node = ("inner", (None, [("insert", a.nibn(K, nxt), (("top", n), lv.version, True))]))
            compare(lv, got, [("put", (lv.version, Path(K, nxt)), node)], ("-",), ("-",))
            lv.ob("J23", "chain", base is v, "the chain is staged elsewhere", "chain")
            chained = True
        elif h[0] == "top":
            ok0 = same_node(zero, zero.node_(init), ("inner", (None, fork_kids(lv0))))
            y = a.node_(x)
            ok1 = same_node(a, y, ("inner", (None, [("insert", a.nibn(K, nxt), (("top", n), lv.version, True))])))
            lv.ob("J23", "chain", ok0, "the chain starts with %s" % node_str(zero.node_(init)), "top")
            lv.ob("J23", "chain", ok1, "the chain goes on with %s" % node_str(y), "top")
        elif h[0] is lv.version:
            ok0 = same_key(zero, zero.key(init), (lv.version, Path(K, C)))
            ok1 = same_key(a, a.key(x), (lv.version, Path(K, nxt)))
            lv.ob("J23", "chain", ok0 and ok1, "the key of the chain's top becomes %s" % skey(a.key(x)), "key")
    lv.ob("J23", "chain", chained, "the chain is not staged", "chain")
    lv.ob("J23", "chain", entails(a.f, mk_le(add(D, INT1), n)), "a round is made although the chain is complete", "bound")


RULES = {"understood": "every path of one level of an insertion is brought into normal form (positions in the inserted and the existing key, paths, node keys, staged operations)",
         "staged": "a level stages exactly the nodes that change, under this version and their own path, with their children's hashes, versions and types",
         "result": "a level reports the node now standing in its place, that nothing changed, or that nothing is left",
         "chain": "where two keys part, an inner node over both is built at the first nibble that differs, and one inner node for every nibble they share",
         "canonical": "no inner node is left over a single leaf, and none over nothing",
         "descends": "the level below gets the child on the key's way, the same value and version, and the next nibble",
         "total": "no path panics", "addressed": "the child on the key's way is addressed by its parent's path and nibble and the version recorded for it",
         "marked": "exactly the node replaced or dropped at this place is marked, as the kind it is, before anything is staged in its place"}


def check_content(ctx):
    rules(ctx)
    insert_level(ctx, "J23")


def check_marks(ctx):
    rules(ctx)
    insert_level(ctx, "J08")


def check_addressing(ctx):
    rules(ctx)
    insert_level(ctx, "J05")


def rules(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
