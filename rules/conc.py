"""Which child of an inner node an expression picks: iterator terms over the sixteen child slots, decided element by element.

A chain of enumerate, filter, filter_map, map and rev treats every slot on its own; so what it yields for slot i depends only on i, on whether the slot is
occupied and on the bound.  All those cases are gone through; what the chain's consumer makes of them (least, greatest, first, last) gives the slot picked."""
from lib import *


class Unknown(Exception):
    pass


KID = "kid"
CONSUMERS = {"iter_min_by_key": "least", "iter_max_by_key": "greatest", "iter_min": "least", "iter_max": "greatest", "iter_last": "last", "iter_next": "first", "iter_next_back": "last",
             "iter_find": "first", "iter_find_map": "first", "iter_rfind": "last"}


def unlam(t):
    """[(guards, value)] of a closure of one argument"""
    if t.op != "lam" or not isinstance(t.a[0], T):
        raise Unknown("closure %s" % show(t)[:80])
    b = t.a[0]
    if b.op == "cases":
        return [(c.a[0], c.a[1]) for c in b.a[0]]
    return [((), b)]


def is_bv(t):
    return t.op == "bv"


class Val:
    """evaluates terms; `env` maps terms to values, `arr` is the array of slots and `some` says whether slot i is occupied"""

    def __init__(self, arr, i, some, env):
        self.arr, self.i, self.some, self.env = arr, i, some, env

    def slot(self, k):
        if k != self.i:
            raise Unknown("another slot is read")
        return ("Some", (KID, k)) if self.some else ("None",)

    def v(self, t, bv=None):
        if t in self.env:
            return self.env[t]
        o = t.op
        if o == "bv":
            if bv is None or t.a[-1] != 0:
                raise Unknown(show(t))
            return bv
        if o == "int":
            return t.a[0]
        if o == "lin":
            c, d = lin_of(t)
            for x, k in d.items():
                c += k * self.num(x, bv)
            return c
        if o == "cast":
            return self.num(t.a[1], bv) & ((1 << {"u8": 8, "u16": 16, "u32": 32}.get(t.a[0], 64)) - 1)
        if o == "bin":
            x, y = self.num(t.a[1], bv), self.num(t.a[2], bv)
            f = {"Shl": lambda: x << y, "Shr": lambda: x >> y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}.get(t.a[0])
            if f is None:
                raise Unknown(show(t)[:80])
            return f()
        if o == "tuple":
            return ("tuple",) + tuple(self.v(x, bv) for x in t.a[0])
        if o == "adt":
            if t.a[0].endswith("::Nibble"):
                return self.v(t.a[3][0], bv)
            if t.a[1] == "None":
                return ("None",)
            if t.a[1] == "Some":
                return ("Some", self.v(t.a[3][0], bv))
            if t.a[0] == NKEY_:
                return ("key", self.v(proj(t, "version"), bv), proj(t, "nibble_path"))
            raise Unknown(show(t)[:80])
        if o == "idx":
            if t.a[0] is self.arr:
                return self.slot(self.num(t.a[1], bv))
            raise Unknown(show(t)[:80])
        if o == "field":
            x = t.a[0]
            if x.op == "as":
                y = self.v(x.a[0], bv)
                if y[0] != x.a[1]:
                    raise Unknown("payload of the other variant")
                return y[1]
            y = self.v(x, bv)
            if isinstance(y, int) and t.a[1] == "0":
                return y          # the number inside a nibble
            if isinstance(y, tuple) and y[0] == "tuple":
                return y[1 + int(t.a[1])]
            if isinstance(y, tuple) and y[0] == KID:
                return ("of", y, t.a[1])
            raise Unknown(show(t)[:80])
        if o in ("ge0", "eq0", "eq", "not", "and", "or", "isv", "dom"):
            return self.b(t, bv)
        raise Unknown(show(t)[:80])

    def num(self, t, bv):
        x = self.v(t, bv)
        if isinstance(x, bool):
            return int(x)
        if not isinstance(x, int):
            raise Unknown("not a number: %s" % show(t)[:80])
        return x

    def b(self, t, bv=None):
        o = t.op
        if o == "int":
            return t.a[0] != 0
        if o == "not":
            return not self.b(t.a[0], bv)
        if o == "and":
            return self.b(t.a[0], bv) and self.b(t.a[1], bv)
        if o == "or":
            return self.b(t.a[0], bv) or self.b(t.a[1], bv)
        if o == "ge0":
            return self.num(t.a[0], bv) >= 0
        if o == "eq0":
            return self.num(t.a[0], bv) == 0
        if o == "eq":
            return self.v(t.a[0], bv) == self.v(t.a[1], bv)
        if o == "dom":
            return self.variant(t.a[0], bv) in t.a[1]
        if o == "isv":
            return self.variant(t.a[0], bv) == t.a[1]
        x = self.v(t, bv)
        if isinstance(x, bool):
            return x
        if isinstance(x, int):
            return x != 0
        raise Unknown(show(t)[:80])

    def variant(self, t, bv):
        x = self.v(t, bv)
        if not isinstance(x, tuple) or not x or x[0] in ("tuple", "of", KID, "key", "term"):
            raise Unknown(show(t)[:80])
        return x[0]

    def apply(self, lam, x):
        hit = []
        for gs, r in unlam(lam):
            if all(self.b(g, x) for g in gs):
                hit.append(r)
        if len(hit) != 1:
            raise Unknown("closure with %d results" % len(hit))
        if hit[0].op == "panic":
            raise Unknown("panics")
        return hit[0], x

    def call(self, lam, x):
        r, x = self.apply(lam, x)
        return self.v(r, x)

    def test(self, lam, x):
        r, x = self.apply(lam, x)
        return self.b(r, x)


def order(it, arr):
    """'up' or 'down': in which order the chain goes through the slots"""
    if it is arr:
        return "up"
    if it.op == "it":
        k = it.a[0]
        if k in ("enumerate", "filter", "filter_map", "map", "inspect", "take_while", "skip_while", "map_while", "take", "skip", "copied", "cloned"):
            if k == "enumerate" and it.a[1] is not arr:
                raise Unknown("positions of something else")
            return order(it.a[1], arr)
        if k == "rev":
            return "down" if order(it.a[1], arr) == "up" else "up"
    if it.op == "adt" and it.a[0].endswith("range::Range"):
        return "up"
    raise Unknown("iterates over %s" % show(it)[:80])


class Chain:
    """what the chain of adapters makes of the slots in their order; adapters that remember something keep it in a tuple"""

    def __init__(self, it, arr):
        self.it, self.arr = it, arr
        self.down = order(it, arr) == "down"
        self.keep = []

        def go(x):
            if x.op == "it":
                go(x.a[1])
                if x.a[0] in ("take_while", "skip_while", "map_while"):
                    self.keep.append((x, False))
                elif x.a[0] in ("take", "skip"):
                    if not isinstance(x.a[2], T) or x.a[2].op != "int":
                        raise Unknown("takes %s" % show(x)[:80])
                    self.keep.append((x, x.a[2].a[0]))
        go(it)
        self.start = tuple(v for _, v in self.keep)

    def slots(self):
        return range(15, -1, -1) if self.down else range(16)

    def step(self, w, mem):
        """(values yielded for slot w.i, memory after it)"""
        mem = dict(zip([x for x, _ in self.keep], mem))
        ys = self.go(self.it, w, mem)
        return ys, tuple(mem[x] for x, _ in self.keep)

    def go(self, it, w, mem):
        if it is w.arr:
            return [w.slot(w.i)]
        if it.op == "adt":
            lo, hi = w.num(it.a[3][0], None), w.num(it.a[3][1], None)
            return [w.i] if lo <= w.i < hi else []
        k = it.a[0]
        xs = self.go(it.a[1], w, mem)
        if k in ("rev", "inspect", "copied", "cloned", "by_ref"):
            return xs
        if k == "enumerate":
            return [("tuple", w.i, x) for x in xs]
        if k == "filter":
            return [x for x in xs if w.test(it.a[2], x)]
        if k == "map":
            return [w.call(it.a[2], x) for x in xs]
        if k == "filter_map":
            r = []
            for x in xs:
                y = w.call(it.a[2], x)
                if y[0] == "Some":
                    r.append(y[1])
            return r
        if k in ("take_while", "skip_while"):
            r = []
            for x in xs:
                on = mem[it] or not w.test(it.a[2], x)
                mem[it] = on
                if on == (k == "skip_while"):
                    r.append(x)
            return r
        if k in ("take", "skip"):
            r = []
            for x in xs:
                if (mem[it] > 0) == (k == "take"):
                    r.append(x)
                mem[it] = max(0, mem[it] - 1)
            return r
        raise Unknown(k)


SPECS = {"least": lambda p, i, n: i if p is None else min(p, i), "greatest": lambda p, i, n: i if p is None else max(p, i),
         "next": lambda p, i, n: p if n is None or i <= n else i if p is None else min(p, i),
         "previous": lambda p, i, n: p if n is None or i >= n else i if p is None else max(p, i)}


class Picked:
    """one way in which a path got at a child (or at none): all the situations it may be in, and the child each of the rules above would have picked there"""

    def __init__(self, spec, some, ends, arr):
        self.spec, self.some, self.ends, self.arr = spec, some, ends, arr

    def every(self, t, want):
        try:
            return bool(self.ends) and all(Val(self.arr, p, True, env).v(t) == want(p) for env, p in self.ends)
        except (Unknown, TypeError, IndexError, ValueError):
            return False

    def is_nibble(self, t):
        return self.every(t, lambda p: p)

    def is_version(self, t):
        return self.every(t, lambda p: ("of", (KID, p), "version"))


def drive(rounds, arr, spec, n, start, item, end):
    """goes through the rounds (each over one slot, which is occupied or not, or over none) and then the slots left over, in every way that matters; the
    (environment, child the rule picks) of each way out.  item(w, memory, slot or None) gives (environments of the ways out, memory after it or None)"""
    early = []
    states = {(start, None)}
    rest = [i for i in range(16) if i not in rounds]
    for r, i in enumerate(rounds):
        nx = set()
        for st, pos in states:
            for some in (False, True) if i is not None else (False,):
                p = SPECS[spec](pos, i, n) if some else pos
                left, s2 = item(lambda env: Val(arr, i, some, env), st, r)
                for env in left or ():
                    early.append((r, env, p))
                if s2 is not None:
                    nx.add((s2, p))
        states = nx

    def after(todo, p):
        # what comes after does not matter to the path, but does to the rule
        ps = {p}
        for k in todo:
            ps |= {SPECS[spec](x, k, n) for x in ps}
        return ps
    res = [(env, x) for r, env, p in early for x in after([i for i in rounds[r + 1:] if i is not None] + rest, p)]
    for st, pos in states:
        for env in end(st):
            res += [(env, x) for x in after(rest, pos)]
    return res


def one(ys):
    if len(ys) > 1:
        raise Unknown("yields more than one")
    return ys[0]


class Whole:
    """least, greatest, first or last of a chain, as one call"""

    def __init__(self, t, arr, base):
        if t.op != "call" or t.a[0] not in CONSUMERS:
            raise Unknown("picked by %s" % show(t)[:80])
        self.t, self.arr, self.env = t, arr, base
        it = t.a[1]
        if t.a[0] in ("iter_find", "iter_rfind"):
            it = mk("it", "filter", it, t.a[2])
        elif t.a[0] == "iter_find_map":
            it = mk("it", "filter_map", it, t.a[2])
        self.chain = Chain(it, arr)
        self.how = CONSUMERS[t.a[0]]
        self.key = t.a[2] if t.a[0].endswith("_by_key") else None

    rounds = property(lambda self: list(self.chain.slots()))

    def start(self):
        return self.chain.start, ()

    def __call__(self, w, state, r):
        mem, st = state
        ys, mem = self.chain.step(w(dict(self.env)), mem)
        return None, (mem, self.take(w, one(ys), st) if ys else st)

    def take(self, w, y, st):
        if st == ():
            new = True
        elif self.how in ("first", "last"):
            new = self.how == "last"
        else:
            key = lambda v: nkey(w(dict(self.env)).call(self.key, v) if self.key is not None else v)
            a, b = key(st[0]), key(y)
            if a == b:
                raise Unknown("not ordered by position")
            new = (b < a) == (self.how == "least")
        return (y,) if new else st

    def end(self, state):
        st = state[1]
        yield {**self.env, self.t: ("Some", st[0]) if st else ("None",)}


class Loop:
    """a loop over the children with variables of its own; f: the path that leaves it"""

    def __init__(self, L, arr, base, f):
        self.L, self.arr, self.env, self.f = L, arr, base, f
        its = [v for v in L.vars if v.op in ("lv", "itv") and L.vars[v][1] and all(x is mk("adv", v) for x, _ in L.vars[v][1])]
        its = [v for v in its if v.op == "itv" or any(x is arr for x in subterms(L.vars[v][0]))]
        if len(its) != 1:
            raise Unknown("the loop takes its elements in an unknown way")
        self.it = it = its[0]
        src = L.canon.get(it, L.vars[it][0])
        self.vs = [v for v in L.vars if v is not it]
        self.ind = mk("ind", L.id, INT0)
        self.elem = mk("elem", L.vars[it][0], L.id) if it.op == "itv" else mk("idx", it, INT0)
        self.chain = None
        if src.op == "adt" or any(x is arr for x in subterms(src)) is False:
            self.rounds = self.numbered(src)
        else:
            self.chain = Chain(src, arr)
            self.rounds = list(self.chain.slots())

    def numbered(self, src):
        """the slot looked at in each round of a loop over numbers"""
        if src.op == "adt" and src.a[0].endswith("range::Range"):
            w = Val(self.arr, None, False, self.env)
            n = w.num(src.a[3][1], None) - w.num(src.a[3][0], None)
        else:
            raise Unknown("loops over %s" % show(src)[:80])
        if not 0 <= n <= 16:
            raise Unknown("loops %d times" % n)
        rs = []
        for r in range(n):
            env = {**self.env, self.ind: r}
            w = Val(self.arr, None, False, env)
            got = set()
            for g in [b.facts for b in self.L.backs] + [self.f]:
                if not self.holds(w, g, None):
                    continue
                for t in [x for t in list(g.d) + list(g.dom) for x in subterms(t)]:
                    if t.op == "elem" and t.a[0] is self.arr and t.a[1] == self.L.id:
                        got.add(r)
                    if t.op == "idx" and t.a[0] is self.arr:
                        got.add(w.num(t.a[1], None))
            if len(got) > 1:
                raise Unknown("several children in one round")
            rs.append(got.pop() if got else None)
        if len([i for i in rs if i is not None]) != len({i for i in rs if i is not None}):
            raise Unknown("a child is looked at twice")
        return rs

    def start(self):
        w = Val(self.arr, None, False, dict(self.env))
        return self.chain.start if self.chain else (), tuple(self.opt(w, self.L.vars[v][0]) for v in self.vs)

    def opt(self, w, t):
        """a value, or what it is called when it is none that can be told"""
        try:
            return w.v(t)
        except Unknown:
            if any(x in self.vs or x is self.it or x is self.ind or x.op == "elem" and x.a[1] == self.L.id for x in subterms(t)):
                raise
            return ("term", t)

    def is_more(self, t):
        return t.op == "more" and (t.a[0] is self.it or t.a[1] == self.L.id)

    def holds(self, w, f, more):
        """may the facts hold?  what cannot be told is left open, which only adds situations"""
        for t, v in f.d.items():
            if self.is_more(t):
                if more is not None and bool(v) != more:
                    return False
                continue
            try:
                x = w.b(t)
            except (Unknown, TypeError, IndexError, ValueError):
                continue
            if not isinstance(v, (bool, int)) or bool(v) != x:
                return False
        for t, vs in f.dom.items():
            try:
                x = w.variant(t, None)
            except (Unknown, TypeError, IndexError, ValueError):
                continue
            if x not in vs:
                return False
        return True

    def midway(self):
        return any(self.is_more(t) and v for t, v in self.f.d.items())

    def __call__(self, w, state, r):
        mem, st = state
        env = {**self.env, **dict(zip(self.vs, st)), self.ind: r}
        if self.chain:
            ys, mem = self.chain.step(w(dict(self.env)), mem)
            if not ys:
                return None, (mem, st)
            env[self.elem] = one(ys)
        x = w(env)
        if self.chain is None:
            slot = ("Some", (KID, x.i)) if x.some else ("None",)
            env[mk("elem", self.arr, self.L.id)] = slot
        left = [env] if self.midway() and self.holds(x, self.f, True) else None
        nx = set()
        for k, b in enumerate(self.L.backs):
            if self.holds(x, b.facts, True):
                nx.add((mem, tuple(self.opt(x, self.L.vars[v][1][k][0]) for v in self.vs)))
        if len(nx) > 1:
            raise Unknown("a round of the loop is not told")
        return left, next(iter(nx)) if nx else None

    def end(self, state):
        if self.midway():
            return
        env = {**self.env, **dict(zip(self.vs, state[1]))}
        if self.holds(Val(self.arr, None, False, env), self.f, False):
            yield env


def ends(make, bound, spec):
    res = []
    for n in range(16) if bound is not None else (None,):
        env = {} if bound is None else {bound: n, mk("field", bound, "0"): n}
        o = make(env)
        res += drive(o.rounds, o.arr, spec, n, o.start(), o, o.end)
    return res


_memo = {}


def whole(t, arr, bound, spec):
    k = (t, arr, bound, spec)
    if k not in _memo:
        try:
            _memo[k] = ends(lambda env: Whole(t, arr, env), bound, spec)
        except Unknown as u:
            _memo[k] = u
    if isinstance(_memo[k], Unknown):
        raise _memo[k]
    return _memo[k]


def findings(s, f, arr, bound=None, base=None, vals=()):
    """[Picked] for every way in which the path f may have got at a child, and for every rule that fits; what was not understood; and
    whether the path cannot be taken at all"""
    base = base or {}
    out, why, dead = [], None, False
    specs = ("least", "greatest") if bound is None else ("next", "previous", "least", "greatest")

    def settle(es, spec):
        if not es:
            return True
        none = {p is None for _, p in es}
        if len(none) == 1:
            out.append(Picked(spec, none == {False}, es, arr))
        return False

    for t in f.dom:
        if t.op == "call" and t.a[0] in CONSUMERS and any(x is arr for x in subterms(t)):
            for spec in specs:
                try:
                    es = [(env, p) for env, p in whole(t, arr, bound, spec) if env[t][0] in f.dom[t]]
                    # the pick itself must be the rule's, whatever is made of it
                    if all((p is None) == (env[t][0] == "None") for env, p in es):
                        settle([({**env, **base}, p) for env, p in es], spec)
                    else:
                        why = why or "picks another child than the %s" % spec
                except Unknown as u:
                    why = "a child is picked in a way that is not understood: %s" % u
    spoken = set()
    for t in list(f.d) + list(f.dom) + [v for v in vals if isinstance(v, T)]:
        for x in subterms(t):
            if x.op in ("lv", "itv", "ind"):
                spoken.add(str(x.a[0]).split("?")[0])
            elif x.op in ("elem", "more"):
                spoken.add(str(x.a[1]))
    for L in s.I.loops.values():
        if str(L.id) not in spoken or not (any(x is arr for v in L.vars for x in subterms(L.vars[v][0])) or any(x is arr for b in L.backs for t in list(b.facts.d) + list(b.facts.dom) for x in subterms(t))):
            continue
        if any(x.op == "lv" and str(x.a[0]) == str(L.id) for x in subterms(arr)):
            continue          # a round of it goes from node to node
        for spec in specs:
            try:
                dead |= settle(ends(lambda env: Loop(L, arr, {**env, **base}, f), bound, spec), spec)
            except (Unknown, TypeError) as u:
                why = "a child is picked in a way that is not understood: %s" % u
    return out, why, dead


NKEY_ = "node_type::NodeKey"


def nkey(k):
    """an orderable key: a number, or a pair that starts with one"""
    if isinstance(k, int):
        return k
    if isinstance(k, tuple) and k[0] == "tuple" and isinstance(k[1], int):
        return k[1]
    raise Unknown("key is not a position")
