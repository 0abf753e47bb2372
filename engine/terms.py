"""Hash-consed value terms, linear normal forms and facts."""
import itertools


class T:
    __slots__ = ("op", "a", "n", "_s", "_sz")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return key(self) < key(o)


_tab = {}
_cnt = itertools.count()


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = next(_cnt)
        t._s = None
        t._sz = 1 + sum(x._sz if isinstance(x, T) else
                        (sum(y._sz for y in x if isinstance(y, T)) if isinstance(x, tuple) else 0) for x in a)
        _tab[k] = t
    return t


def key(t):
    return show(t)


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x) for x in t) + ")"
        return str(t)
    if t._s is not None:
        return t._s
    op, a = t.op, t.a
    if op == "int":
        s = str(a[0])
    elif op == "arg":
        s = str(a[1])
    elif op == "adt":
        p = a[0].split("::")[-1]
        nm = p if a[1] in ("", p) else a[1]
        if not a[3]:
            s = nm
        elif all(x.isdigit() for x in a[2]):
            s = nm + "(" + ",".join(show(x) for x in a[3]) + ")"
        else:
            s = nm + "{" + ",".join(n + ":" + show(x) for n, x in zip(a[2], a[3])) + "}"
    elif op == "tuple":
        s = "(" + ",".join(show(x) for x in a[0]) + ")"
    elif op == "arr":
        s = "[" + ",".join(show(x) for x in a[0]) + "]"
    elif op == "field":
        s = show(a[0]) + "." + a[1]
    elif op == "as":
        s = show(a[0]) + "!" + a[1]
    elif op == "idx":
        s = show(a[0]) + "[" + show(a[1]) + "]"
    elif op == "call":
        s = short(a[0]) + "(" + ",".join(show(x) for x in a[1:]) + ")"
    elif op == "lin":
        parts = []
        for x, c in a[1]:
            if c == 1:
                parts.append("+" + show(x))
            elif c == -1:
                parts.append("-" + show(x))
            else:
                parts.append("%+d*%s" % (c, show(x)))
        if a[0]:
            parts.append("%+d" % a[0])
        s = "{" + "".join(parts).lstrip("+") + "}"
    elif op == "ge0":
        s = show(a[0]) + ">=0"
    elif op == "eq":
        s = show(a[0]) + "==" + show(a[1])
    elif op == "not":
        s = "!" + show(a[0])
    elif op == "isv":
        s = show(a[0]) + " is " + a[1]
    elif op == "bin":
        s = "(" + show(a[1]) + " " + a[0] + " " + show(a[2]) + ")"
    elif op == "eff":
        s = "eff:" + short(a[0]) + "#" + str(a[1]) + "(" + ",".join(show(x) for x in a[2:]) + ")"
    elif op == "lv":
        s = "lv" + str(a[0]) + ":" + show(a[1])
    elif op == "itv":
        s = "it%s<%s>" % (a[0], show(a[1]))
    elif op == "elem":
        s = "elem%s<%s>" % (a[1], show(a[0]))
    elif op == "ind":
        s = "ind%s" % a[0] + ("" if a[1] is INT0 else "+" + show(a[1]))
    elif op == "upd":
        s = show(a[0]) + "{" + show(a[1]) + "=" + show(a[2]) + "}"
    elif op == "ptr":
        s = "&mut<" + show(a[0]) + ">" + "".join("." + show(x) for x in a[1])
    elif op == "const":
        s = a[0]
    else:
        s = op + "(" + ",".join(show(x) for x in a) + ")"
    t._s = s
    return s


def short(p):
    return p


INT0 = mk("int", 0)
INT1 = mk("int", 1)
TRUE, FALSE = INT1, INT0
UNIT = mk("tuple", ())


def Int(n):
    return mk("int", n)


def is_int(t):
    return t.op == "int"


# ---------------------------------------------------------------- linear
def lin_of(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    items = [(x, k) for x, k in d.items() if k != 0]
    if not items:
        return Int(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].n)
    return mk("lin", c, tuple(items))


def add(a, b, kb=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + kb * k
    return mk_lin(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return add(INT0, a, -1)


def mul(a, b):
    if a.op == "int":
        a, b = b, a
    if b.op == "int":
        ca, da = lin_of(a)
        return mk_lin(ca * b.a[0], {x: k * b.a[0] for x, k in da.items()})
    if a.n > b.n:
        a, b = b, a
    return mk("bin", "Mul", a, b)


# ---------------------------------------------------------------- booleans
def mk_not(x):
    if x.op == "int":
        return INT0 if x.a[0] else INT1
    if x.op == "not":
        return x.a[0]
    if x.op == "ge0":
        return mk_ge0(add(neg(x.a[0]), Int(-1)))
    return mk("not", x)


def mk_ge0(l):
    if l.op == "int":
        return INT1 if l.a[0] >= 0 else INT0
    # integer tightening: divide by gcd of the coefficients
    c, d = lin_of(l)
    import math
    g = 0
    for k in d.values():
        g = math.gcd(g, abs(k))
    if g > 1:
        l = mk_lin(c // g, {x: k // g for x, k in d.items()})
    return mk("ge0", l)


def mk_lt(a, b):
    a, b = unnew(a, b)
    return mk_ge0(add(sub(b, a), Int(-1)))


def unnew(a, b):
    """values of a one-field tuple type are ordered as the wrapped values (derived order)"""
    for _ in range(3):
        x = a if a.op == "adt" else b
        if x.op != "adt" or len(x.a[3]) != 1 or x.a[2] != ("0",) or x.a[1] != x.a[0].split("::")[-1]:
            break
        y = b if x is a else a
        if y.op == "adt" and y.a[0] != x.a[0] or y.op in ("int", "lin", "tuple"):
            break
        f = lambda t: t.a[3][0] if t.op == "adt" else mk("field", t, "0")
        a, b = f(a), f(b)
    return a, b


def mk_le(a, b):
    a, b = unnew(a, b)
    return mk_ge0(sub(b, a))


ORD = "core::cmp::Ordering"


def mk_eq(a, b):
    if a is b:
        return INT1
    if a.op == "int" and b.op == "int":
        return INT1 if a.a[0] == b.a[0] else INT0
    if a.op == "str" and b.op == "str" and a.a and b.a and isinstance(a.a[0], str) and isinstance(b.a[0], str):
        return INT1 if a.a[0] == b.a[0] else INT0
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return INT0
        if not a.a[3]:
            return INT1
        if len(a.a[3]) == 1:
            return mk_eq(a.a[3][0], b.a[3][0])
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and len(x.a[3]) == 1 and y.op in ("arg", "field", "as", "call", "elem", "idx", "lv", "bv") \
                and x.a[1] == x.a[0].split("::")[-1]:
            # newtype against an opaque value: compare the wrapped values
            return mk_eq(x.a[3][0], mk("field", y, x.a[2][0]))
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and not x.a[3]:
            # comparison with a fieldless variant (None, Ordering::Less, ...)
            return mk_isv(y, x.a[1], x.a[0])
    if a.op in ("int", "lin") or b.op in ("int", "lin"):
        d = sub(a, b)
        if d.op == "int":
            return INT1 if d.a[0] == 0 else INT0
        c, m = lin_of(d)
        items = list(m.items())
        if c == 0 and len(items) == 1:
            x = items[0][0]
            # unsigned: x == 0  <=>  x <= 0
            if x.op in ("isb",):
                return mk_not(x)
            return mk_ge0(neg(x))
        if c == 0 and len(items) == 2 and items[0][1] * items[1][1] == -1:
            a, b = items[0][0], items[1][0]
        else:
            # canonical sign
            items.sort(key=lambda p: p[0].n)
            if items[0][1] < 0:
                d = neg(d)
            return mk("eq0", d)
    if a.n > b.n:
        a, b = b, a
    return mk("eq", a, b)


def mk_isv(t, v, path=None):
    if t.op == "adt":
        return INT1 if t.a[1] == v else INT0
    if t.op == "call" and t.a[0] == "cmp":
        x, y = t.a[1], t.a[2]
        if v == "Less":
            return mk_lt(x, y)
        if v == "Greater":
            return mk_lt(y, x)
        if v == "Equal":
            return mk_eq(x, y)
    if t.op == "call" and t.a[0] == "next_opt":
        pass
    return mk("isv", t, v)


TWO = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok",
       "Continue": "Break", "Break": "Continue"}


def upper(x):
    if x.op == "bin" and x.a[0] == "BitAnd":
        for y in (x.a[1], x.a[2]):
            if y.op == "int":
                return y.a[0]
    if x.op == "bin" and x.a[0] == "Rem" and x.a[2].op == "int":
        return x.a[2].a[0] - 1
    return None


def nonempty(x):
    """the length of something that an element was just added to"""
    return x.op == "call" and x.a[0] == "len" and x.a[1].op in ("ins", "push")


class Facts:
    """Immutable set of facts: truth of atoms, and possible variants of values."""
    __slots__ = ("d", "dom", "h")

    def __init__(self, d=None, dom=None):
        self.d = d or {}
        self.dom = dom or {}

    def truth(self, b):
        if b.op == "int":
            return b.a[0] != 0
        if b.op == "not":
            r = self.truth(b.a[0])
            return None if r is None else not r
        if b.op == "and":
            x, y = self.truth(b.a[0]), self.truth(b.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if b.op == "or":
            x, y = self.truth(b.a[0]), self.truth(b.a[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
            return None
        if b.op == "isv":
            dom = self.dom.get(b.a[0])
            if dom is not None:
                if dom == frozenset([b.a[1]]):
                    return True
                if b.a[1] not in dom:
                    return False
            return self.d.get(b)
        if b in self.d:
            return self.d[b]
        if b.op == "ge0":
            if self._ge0(b.a[0]):
                return True
            if self._ge0(add(neg(b.a[0]), Int(-1))):
                return False
            return None
        if b.op in ("eq", "eq0"):
            l = sub(b.a[0], b.a[1]) if b.op == "eq" else b.a[0]
            # strict separation
            if self._ge0(add(l, Int(-1))) or self._ge0(add(neg(l), Int(-1))):
                return False
            return None
        return None

    def _ge0(self, l):
        """is l >= 0 entailed?"""
        c, m = lin_of(l)
        if not m:
            return c >= 0
        if all(k > 0 for k in m.values()) and (c >= 0 or c + sum(k for x, k in m.items() if nonempty(x)) >= 0):
            # non-negative quantities (all program integers here are unsigned)
            return True
        # bounded quantities: (x & mask) <= mask, x % n < n
        b = 0
        for x, k in m.items():
            if k < 0:
                u = upper(x)
                if u is None:
                    b = None
                    break
                b += k * u
        if b is not None and c + b >= 0:
            return True
        for f, v in self.d.items():
            if v and f.op == "ge0":
                d = sub(l, f.a[0])
                cd, md = lin_of(d)
                if cd >= 0 and all(k > 0 for k in md.values()):
                    return True
            elif v and f.op in ("eq", "eq0"):
                e = sub(f.a[0], f.a[1]) if f.op == "eq" else f.a[0]
                for ee in (e, neg(e)):
                    d = sub(l, ee)
                    cd, md = lin_of(d)
                    if cd >= 0 and all(k > 0 for k in md.values()):
                        return True
        return False

    def ge0_deep(self, l, depth=3):
        """entailment using sums of up to `depth` known facts"""
        if self._ge0(l):
            return True
        if depth == 0:
            return False
        _, m = lin_of(l)
        negs = {x for x, k in m.items() if k < 0}
        if not negs:
            return False
        for f, v in self.d.items():
            if not v:
                continue
            if f.op == "ge0":
                cand = [f.a[0]]
            elif f.op in ("eq", "eq0"):
                e = sub(f.a[0], f.a[1]) if f.op == "eq" else f.a[0]
                cand = [e, neg(e)]
            else:
                continue
            for e in cand:
                _, me = lin_of(e)
                if any(me.get(x, 0) < 0 for x in negs):
                    if self.ge0_deep(sub(l, e), depth - 1):
                        return True
        return False

    def assume(self, b, val=True):
        """-> Facts or None when contradictory"""
        if b.op == "not":
            return self.assume(b.a[0], not val)
        t = self.truth(b)
        if t is not None:
            return self if t == val else None
        if b.op == "and" and val:
            f = self.assume(b.a[0], True)
            return f.assume(b.a[1], True) if f is not None else None
        if b.op == "or" and not val:
            f = self.assume(b.a[0], False)
            return f.assume(b.a[1], False) if f is not None else None
        if b.op == "and" and not val:
            if self.truth(b.a[0]) is True:
                return self.assume(b.a[1], False)
            if self.truth(b.a[1]) is True:
                return self.assume(b.a[0], False)
        if b.op == "or" and val:
            if self.truth(b.a[0]) is False:
                return self.assume(b.a[1], True)
            if self.truth(b.a[1]) is False:
                return self.assume(b.a[0], True)
        if b.op == "isv":
            t, v = b.a
            dom = dict(self.dom)
            if val:
                dom[t] = frozenset([v])
            else:
                cur = dom.get(t)
                if cur is None:
                    if v in TWO:
                        dom[t] = frozenset([TWO[v]])
                    else:
                        d = dict(self.d)
                        d[b] = False
                        return Facts(d, self.dom)
                else:
                    n = cur - {v}
                    if not n:
                        return None
                    dom[t] = n
            return Facts(self.d, dom)
        if b.op == "ge0" and not val:
            b, val = mk_not(b), True
        d = dict(self.d)
        d[b] = val
        return Facts(d, self.dom)

    def set_dom(self, t, vs):
        cur = self.dom.get(t)
        n = frozenset(vs)
        if cur is not None:
            n = n & cur
        if not n:
            return None
        # known exclusions
        if len(n) > 1:
            n = frozenset(v for v in n if self.d.get(mk("isv", t, v)) is not False)
            if not n:
                return None
        dom = dict(self.dom)
        dom[t] = n
        return Facts(self.d, dom)

    def join(self, o):
        d = {k: v for k, v in self.d.items() if o.d.get(k) == v}
        for k, v in self.d.items():
            if k not in d and v and o.truth(k) is True:
                d[k] = v
        for k, v in o.d.items():
            if k not in d and v and self.truth(k) is True:
                d[k] = v
        dom = {}
        for k, v in self.dom.items():
            if k in o.dom:
                dom[k] = v | o.dom[k]
        return Facts(d, dom)

    def list(self):
        r = []
        for k, v in self.d.items():
            r.append(show(k) if v else "!(" + show(k) + ")")
        for k, v in self.dom.items():
            r.append(show(k) + " in {" + ",".join(sorted(v)) + "}")
        return sorted(r)


def subterms(t, seen=None):
    """all subterms (iterative, each once)"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
    return seen


def contains(t, x):
    return x in subterms(t)


def subst(t, m, memo=None):
    """substitute terms (map T->T), rebuilding with plain mk"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
            memo[x] = r
        return r
    return go(t)


def rebuild(op, a):
    if op == "lin":
        r = Int(a[0])
        for x, k in a[1]:
            r = add(r, mul(x, Int(k)))
        return r
    if op == "eq":
        return mk_eq(*a)
    if op == "ge0":
        return mk_ge0(*a)
    if op == "eq0":
        return mk_eq(a[0], INT0)
    if op == "not":
        return mk_not(*a)
    if op == "isv":
        return mk_isv(*a)
    if op == "idx" and a[1].op == "ind" and a[1].a[1] is INT0 and a[0].op != "adt":
        return mk("elem", a[0], a[1].a[0])
    return mk(op, *a)
