"""Shared machinery of the rules: summaries, obligations, recurring shapes."""
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)
from terms import *          # noqa
import db as dbm             # noqa
import interp                # noqa
from interp import Interp, Budget, Some, NONE, EMPTY  # noqa

CR = {"jmt": ["jmt__jmt", "serde_hash__serde_hash", "vmodels__vmodels"],
      "pmt": ["pmt__pmt", "serde_hash__serde_hash", "vmodels__vmodels"]}


class Missing(Exception):
    """an anchor (public entry, type) that the rule needs is gone"""


class Summary:
    def __init__(self, fn, I, outs, err=None):
        self.fn = fn
        self.I = I
        self.outs = outs
        self.err = err

    @property
    def rets(self):
        return [o for o in self.outs if o.kind == "ret"]

    @property
    def oks(self):
        """outcomes that may return success"""
        return [o for o in self.rets if not is_err(o)]

    @property
    def errs(self):
        return [o for o in self.rets if is_err(o)]

    @property
    def panics(self):
        return [o for o in self.outs if o.kind == "panic"]


def is_err(o):
    v = o.val
    if v is None:
        return False
    if v.op == "adt" and v.a[0] == interp.RES:
        return v.a[1] == "Err"
    return o.facts.truth(mk_isv(v, "Err")) is True


class Ctx:
    def __init__(self, pid, dumps, tier="quick", seed=1):
        self.pid = pid
        self.dumps = dumps
        self.tier = tier
        self.seed = seed
        self._db = {}
        self._sum = {}
        self.obs = []         # (rule, where, ok, detail)
        self.viol = []        # dict
        self.fns = set()
        self.outcomes = 0
        self.steps = 0
        self.rules = {}

    def db(self, c):
        if c not in self._db:
            self._db[c] = dbm.DB(self.dumps, CR[c])
        return self._db[c]

    def fn(self, qual):
        c = qual.split("::")[0]
        f = self.db(c).find(qual)
        if f is None:
            raise Missing(qual)
        return f

    def has(self, qual):
        return self.db(qual.split("::")[0]).find(qual) is not None

    def summ(self, fn, opaque=None, okey="", args=None, budget=400000, inline_only=None, max_depth=14, subst=None, fine=False, pure_next=None, unroll=None, whole_picks=False, folds=False):
        if isinstance(fn, str):
            fn = self.fn(fn)
        k = (fn.id, okey, tuple(sorted(args.items())) if args else None, str(subst), fine, unroll is not None, whole_picks, folds)
        if k in self._sum and (okey or opaque is None):
            return self._sum[k]
        c = "jmt" if fn.crate == "jmt" else "pmt"
        I = Interp(self.db(c), opaque=opaque, budget=budget, inline_only=inline_only, max_depth=max_depth, fine=fine, pure_next=pure_next, unroll=unroll, whole_picks=whole_picks, folds=folds)
        outs = I.run(fn, args, subst)
        s = Summary(fn, I, outs)
        self._sum[k] = s
        for i in I.visited:
            f = self.db(c).fns[i]
            if f.crate != "vmodels":
                self.fns.add(f.qual)
        self.outcomes += len(outs)
        self.steps += I.steps
        return s

    # ------------------------------------------------------------ results
    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rid, where, ok, detail="", key=None, sp=None):
        """one obligation; `key` identifies the violating construct without line numbers"""
        self.obs.append((rid, where, bool(ok)))
        if not ok:
            k = "%s|%s|%s" % (rid, where, key if key is not None else "")
            if not any(v["key"] == k for v in self.viol):
                self.viol.append({"key": k, "rule": rid, "where": where, "detail": detail, "at": sp})
        return ok

    def floor(self, rid, where, n, least, what):
        self.ob(rid, where, n >= least, "only %d %s found (at least %d expected): the rule no longer sees its subject"
                % (n, what, least), key="floor")


# ---------------------------------------------------------------- shapes
def fields(t, *names):
    for n in names:
        if t.op == "adt" and n in t.a[2]:
            t = t.a[3][t.a[2].index(n)]
        else:
            t = mk("field", t, n)
    return t


def payload(t, variant="Some", f="0"):
    if t.op == "adt" and t.a[1] == variant:
        return t.a[3][0]
    return mk("field", mk("as", t, variant), f)


def entails(f, b):
    if b.op == "ge0":
        if f.truth(b) is True:
            return True
        return f.ge0_deep(b.a[0])
    if b.op in ("eq", "eq0") and f.truth(b) is not True:
        l = sub(b.a[0], b.a[1]) if b.op == "eq" else b.a[0]
        return f.ge0_deep(l) and f.ge0_deep(neg(l))
    if b.op == "not" and b.a[0].op == "ge0":
        return entails(f, mk_not(b.a[0]))
    return f.truth(b) is True


def eq_facts(f):
    """pairs known equal"""
    for k, v in f.d.items():
        if v and k.op == "eq":
            yield k.a[0], k.a[1]


def loop_of(I, lv):
    if lv.op in ("lv", "ind", "itv"):
        return I.loops.get(lv.a[0].split("?")[0])
    return None


def exhausted(I, facts, lid, src, sieve=False):
    """does `facts` (after the loop) show that loop `lid` ran through every element of src?  (With sieve, elements a filter leaves out count as gone through; the
    caller looks at them in I.rejects.)"""
    n = None
    for k, v in facts.d.items():
        if k.op == "more" and v is False and str(k.a[1]).split("~")[0] == str(lid) and seq_covers(unsieved(k.a[0]) if sieve else k.a[0], src, I):
            return True
    # index loops: ind >= len(src)
    ln = mk("call", "len", src)
    for lv in I.loops[lid].vars:
        if lv.op == "ind" and lv.a[1] is INT0 and entails(facts, mk_le(ln, lv)):
            return True
    return False


def lv_at(lv, p):
    """the loop-carried variable lives where pointer p points"""
    if lv.op != "lv" or p.op != "ptr" or lv.a[1].op != "lk":
        return False
    base, steps = lv.a[1].a
    r = p.a[0]
    same_root = base is r or base.op == "loc" and r.op == "L" and (base.a[0], base.a[2]) == (r.a[0], r.a[1])
    return same_root and tuple(steps) == tuple(p.a[1])


def unsieved(it):
    if it.op == "it" and it.a[0] in ("filter", "filter_map"):
        return unsieved(it.a[1])
    if it.op == "it" and len(it.a) > 1 and isinstance(it.a[1], T) and it.a[0] != "zip":
        x = unsieved(it.a[1])
        return it if x is it.a[1] else mk("it", it.a[0], x, *it.a[2:])
    return it


def seq_covers(it, src, I=None):
    """iterating `it` to exhaustion visits every element of src"""
    if it is src:
        return True
    if it.op == "it":
        k = it.a[0]
        if k in ("rev", "enumerate", "map", "inspect", "iter_mut", "values", "keys"):
            return seq_covers(it.a[1], src, I)
        if k == "zip":
            # a zip stops at the shorter side: the other side must be just as long
            for x, y in ((it.a[1], it.a[2]), (it.a[2], it.a[1])):
                if seq_covers(x, src, I):
                    if y.op == "adt" and y.a[0] == "core::ops::range::RangeFrom":
                        return True
                    if I is not None:
                        n, m = I.seqlen(x), I.seqlen(y)
                        return n is not None and n is m
            return False
    if it.op == "adt" and it.a[0] == "core::ops::range::Range":
        lo, hi = it.a[3]
        return lo is INT0 and hi is mk("call", "len", src)
    return False


BITC = {}


def as_bit(f, val=True):
    """atom -> (bytes, index, value) when it says 'bit `index` (most significant first) of bytes is value'"""
    r = as_bit_shape(f, val)
    if r is None and f.op in ("eq", "eq0", "ge0"):
        if f not in BITC:
            BITC[f] = as_bit_table(f)
        if BITC[f] is not None:
            x, i, v = BITC[f]
            return x, i, v is val
    return r


def as_bit_table(f):
    """however it is written: for every byte and every index below 256 the test holds exactly when the bit is `value`"""
    bs = {t for t in subterms(f) if t.op == "idx" and isinstance(t.a[1], T) and t.a[1].op == "bin" and t.a[1].a[0] == "Shr" and t.a[1].a[2] is Int(3)}
    if len(bs) != 1:
        return None
    b, = bs
    I = b.a[1].a[1]
    import fin
    got = set()
    for width in (8, 64):
        try:
            g = eval("lambda b, i: bool(%s)" % fin.Fin({b: "b", I: "i"}, width=width).b(f), dict(fin.ENV))
            got |= {g(x, i) is bool(x >> (7 - i % 8) & 1) for i in range(256) for x in range(256)}
        except (fin.Unknown, ValueError, ZeroDivisionError, NameError, SyntaxError, TypeError):
            return None
        if len(got) != 1:
            return None
    return b.a[0], I, got.pop()


def as_bit_shape(f, val=True):
    t = None
    v = None
    if f.op == "not":
        return as_bit(f.a[0], not val)
    if f.op == "ge0":
        c, m = lin_of(f.a[0])
        if len(m) == 1:
            (x, k), = m.items()
            if k == 1 and c == -1:
                t, v = x, True        # x >= 1
            elif k == -1 and c == 0:
                t, v = x, False       # x <= 0
    elif f.op in ("eq", "eq0"):
        l = sub(f.a[0], f.a[1]) if f.op == "eq" else f.a[0]
        c, m = lin_of(l)
        if len(m) == 1:
            (x, k), = m.items()
            if -c * k == 1:
                t, v = x, True
            elif c == 0:
                t, v = x, False
        elif len(m) == 2 and c == 0 and sum(m.values()) == 0:
            # b & (1 << k) == 1 << k
            x, y = m
            for x, y in ((x, y), (y, x)):
                if x.op == "bin" and x.a[0] == "BitAnd" and y.op == "bin" and y in x.a[1:]:
                    t, v = x, True
    if t is None:
        return None
    if not val:
        v = not v
    b = bit_term(t)
    if b is None:
        return None
    return b[0], b[1], v


def bit_term(t):
    """t is 0/nonzero according to one bit of a byte sequence, most significant bit first"""
    while t.op == "cast":
        t = t.a[1]
    if t.op != "bin" or t.a[0] != "BitAnd":
        return None
    x, y = t.a[1], t.a[2]
    if y is INT1 and x.op == "bin" and x.a[0] == "Shr":
        e, s = x.a[1], x.a[2]
    elif x.op in ("idx", "elem") and y.op == "bin" and y.a[0] == "Shl" and y.a[1] is INT1:
        e, s = x, y.a[2]
    elif y.op in ("idx", "elem") and x.op == "bin" and x.a[0] == "Shl" and x.a[1] is INT1:
        e, s = y, x.a[2]
    else:
        for e, m in ((x, y), (y, x)):
            # (b & (0x80 >> (i % 8)))
            if m.op == "bin" and m.a[0] == "Shr" and m.a[1] is Int(128) and e.op == "idx":
                q = m.a[2]
                if q.op == "bin" and q.a[0] == "BitAnd" and q.a[2] is Int(7):
                    I = q.a[1]
                    if e.a[1] is mk("bin", "Shr", I, Int(3)):
                        return e.a[0], I
            # ((b << (i % 8)) & 0x80)
            if m is Int(128) and e.op == "bin" and e.a[0] == "Shl" and e.a[1].op == "idx":
                q = e.a[2]
                if q.op == "bin" and q.a[0] == "BitAnd" and q.a[2] is Int(7) and e.a[1].a[1] is mk("bin", "Shr", q.a[1], Int(3)):
                    return e.a[1].a[0], q.a[1]
        return None
    if e.op != "idx":
        return None
    # s = 7 - (I & 7), e = bytes[I >> 3]
    c, m = lin_of(s)
    if c != 7 or len(m) != 1:
        return None
    (q, k), = m.items()
    if k != -1 or q.op != "bin" or q.a[0] != "BitAnd" or q.a[2] is not Int(7):
        return None
    I = q.a[1]
    if e.a[1] is mk("bin", "Shr", I, Int(3)):
        return e.a[0], I
    return None


def bits_in(facts, extra=None):
    r = []
    for k, v in facts.d.items():
        b = as_bit(k, v)
        if b:
            r.append(b)
    return r


def short_fn(q):
    return q


# ---------------------------------------------------------------- decision tables
def narrow(f, guards):
    """facts refined by guards [(atom, bool)]; None when contradictory"""
    for a, v in guards:
        f = f.assume(a, v)
        if f is None:
            return None
        if a.op == "isv" and v:
            pass
    # one more pass: later guards may decide earlier composite ones
    for a, v in guards:
        t = f.truth(a)
        if t is not None and t != v:
            return None
    for a, v in guards:
        x = a if v else mk_not(a)
        if x.op == "ge0" and f.ge0_deep(add(neg(x.a[0]), Int(-1))):
            return None
        if a.op in ("eq", "eq0"):
            if v and separated(f, a) or not v and entails(f, a):
                return None
    return f


def halves(f):
    """what the shifts and masks in the facts say about their operands"""
    for k in list(f.d):
        for x in subterms(k):
            if x.op == "bin" and is_int(x.a[2]) and f is not None:
                n = x.a[2].a[0]
                if x.a[0] == "Shr" and n < 32:
                    q = mul(x, Int(1 << n))
                    for g in (mk_le(q, x.a[1]), mk_le(x.a[1], add(q, Int((1 << n) - 1)))):
                        f = f and f.assume(g, True)
                elif x.a[0] == "BitAnd":
                    for g in (mk_le(INT0, x), mk_le(x, x.a[2])):
                        f = f and f.assume(g, True)
    # bounds of a quotient bound the dividend
    for k, v in list(f.d.items()) if f is not None else ():
        if k.op == "ge0" and v:
            c, d = lin_of(k.a[0])
            if len(d) == 1:
                (q, r), = d.items()
                if q.op == "bin" and q.a[0] == "Shr" and is_int(q.a[2]) and abs(r) == 1:
                    n = 1 << q.a[2].a[0]
                    g = mk_le(q.a[1], Int(c * n + n - 1)) if r < 0 else mk_le(Int(-c * n), q.a[1])
                    f = f and f.assume(g, True)
    if f is None:
        return None
    for k, v in f.d.items():
        if k.op == "ge0" and v and f.ge0_deep(add(neg(k.a[0]), Int(-1))):
            return None
    return f


def tighten(f):
    """sharpen bounds with known disequalities; None when nothing is left"""
    f = halves(f)
    while f is not None:
        ch = False
        for k, v in list(f.d.items()):
            if v or k.op not in ("eq", "eq0"):
                continue
            l = sub(k.a[0], k.a[1]) if k.op == "eq" else k.a[0]
            for x in (l, neg(l)):
                if x.op in ("lin", "int") and f.ge0_deep(x):
                    y = add(x, Int(-1))
                    if f.ge0_deep(neg(x)):
                        return None
                    if not f.ge0_deep(y):
                        f = f.assume(mk_ge0(y), True)
                        ch = True
                        break
            if f is None:
                return None
        if not ch:
            return f
    return None


def separated(f, x):
    l = sub(x.a[0], x.a[1]) if x.op == "eq" else x.a[0]
    return f.ge0_deep(add(l, Int(-1))) or f.ge0_deep(add(neg(l), Int(-1)))


class Row:
    def __init__(self, name, guards, expect, need=True):
        self.name = name
        self.guards = guards
        self.expect = expect      # (outcome, facts) -> None | problem text
        self.need = need


def table(ctx, rid, s, rows, where=None, outs=None, panics=True, pre=()):
    """decision table: the rows partition the input space.  Every outcome of the summarised function must meet the
    expectation of each row it is compatible with, must be compatible with some row, and every row must be reached."""
    where = where or s.fn.qual
    hit = set()
    for o in (outs if outs is not None else s.outs):
        n = 0
        if narrow(o.facts, list(pre)) is None:
            continue
        for r in rows:
            f = narrow(o.facts, list(pre) + list(r.guards))
            if f is None:
                continue
            n += 1
            hit.add(r.name)
            if o.kind == "panic":
                if panics:
                    ctx.ob(rid, where, False, "case '%s' can panic" % r.name, "panic:" + r.name)
                continue
            p = r.expect(o, f)
            ctx.ob(rid, where, p is None, "case '%s': %s" % (r.name, p), r.name)
        if not n and o.kind != "panic":
            ctx.ob(rid, where, False, "an outcome lies outside the specified cases: returns %s when %s"
                   % (show(o.val)[:200], "; ".join(o.facts.list())[:300]), "outside")
    for r in rows:
        if r.need:
            ctx.ob(rid, where, r.name in hit, "case '%s' is not handled" % r.name, "missing:" + r.name)


def returns(*wants):
    """expectation: the returned value is one of the given terms"""
    def e(o, f):
        for w in wants:
            if same(f, o.val, w):
                return None
        return "returns %s, expected %s" % (show(o.val)[:300], show(wants[0])[:300])
    return e


def same(f, a, b):
    """a and b denote the same value under f"""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        return a == b
    if a.op in ("int", "lin") or b.op in ("int", "lin"):
        return entails(f, mk_eq(a, b))
    if f.truth(mk_eq(a, b)) is True:
        return True
    if a.op == b.op and len(a.a) == len(b.a) and a.op in ("adt", "tuple", "call", "idx", "field", "as", "arr", "ins", "push", "eff",
                                                          "slice", "append", "H", "upd"):
        return all(same_arg(f, x, y) for x, y in zip(a.a, b.a))
    # a result rebuilt from its own parts: Ok(r!Ok.0) is r when r is Ok
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and x.a[0] in (interp.RES, interp.OPT) and y.op not in ("adt",):
            if x.a[3]:
                if f.truth(mk_isv(y, x.a[1])) is True and same(f, x.a[3][0], payload(y, x.a[1])):
                    return True
            elif f.truth(mk_isv(y, x.a[1])) is True:
                return True
    return False


def same_arg(f, x, y):
    if isinstance(x, T) and isinstance(y, T):
        return same(f, x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_arg(f, p, q) for p, q in zip(x, y))
    return x == y


def final(o, arg):
    """value of the object behind the &mut argument at the end of the outcome"""
    return o.st.mem.get(mk("obj", arg), arg)


def proj(v, *steps):
    """field access through in-place updates"""
    for s in steps:
        v = _PI.proj(v, ("f", s))
    return v


class _P(Interp):
    def __init__(self):
        pass


_PI = _P()
