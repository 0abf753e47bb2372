"""Finite-domain evaluation of a function's summary: its guards, loops and results are compiled to arithmetic on small integers, so that a rule can go through
every value of a finite domain (such as all 2^16 child bitmaps) instead of matching the shape of a bit trick."""
from lib import *


class Unknown(Exception):
    pass


DIV = ("diverges",)


def unref(t):
    return t


class Fin:
    """compiles terms over the given variables (term -> python name)"""

    def __init__(self, vars, special=None, width=16):
        self.vars, self.special, self.width = dict(vars), special, width

    def e(self, t):
        if t in self.vars:
            return self.vars[t]
        if self.special:
            x = self.special(self, t)
            if x is not None:
                return x
        o = t.op
        if o == "int":
            return repr(t.a[0])
        if o == "lin":
            c, d = lin_of(t)
            return "(" + "+".join([repr(c)] + ["(%d)*%s" % (k, self.e(x)) for x, k in d.items()]) + ")"
        if o == "cast":
            b = {"u8": 8, "u16": 16, "u32": 32}.get(t.a[0], 64)
            return "(int(%s)&%d)" % (self.e(t.a[1]), (1 << b) - 1)
        if o == "bin":
            op = {"Shl": "<<", "Shr": ">>", "BitAnd": "&", "BitOr": "|", "BitXor": "^", "Rem": "%", "Div": "//", "Mul": "*"}.get(t.a[0])
            if op is None:
                raise Unknown(show(t)[:100])
            if t.a[0] == "Shl":
                return "((%s<<%s)&%d)" % (self.e(t.a[1]), self.e(t.a[2]), (1 << self.width) - 1)
            return "(%s%s%s)" % (self.e(t.a[1]), op, self.e(t.a[2]))
        if o == "call" and t.a[0] in ("trailing_zeros", "leading_zeros", "count_ones"):
            return "%s(%s)" % ({"trailing_zeros": "_tz", "leading_zeros": "_lz", "count_ones": "_co"}[t.a[0]], self.e(t.a[1]))
        if o in ("trailing_zeros", "leading_zeros", "count_ones"):
            return "%s(%s)" % ({"trailing_zeros": "_tz", "leading_zeros": "_lz", "count_ones": "_co"}[o], self.e(t.a[0]))
        if o == "un" and t.a[0] == "Not":
            return "(~%s&%d)" % (self.e(t.a[1]), (1 << self.width) - 1)
        if o == "call" and (t.a[0].startswith("core::num::<impl u") or t.a[0] in ("wrapping_add", "wrapping_sub", "is_power_of_two", "trailing_ones", "leading_ones")):
            w, m = t.a[0][len("core::num::<impl u"):].split(">::") if ">" in t.a[0] else (self.width, t.a[0])
            w = 64 if w == "size" else int(w)
            x = [self.e(y) for y in t.a[1:]]
            full = (1 << w) - 1
            form = {"wrapping_neg": "(-%s)", "wrapping_add": "(%s+%s)", "wrapping_sub": "(%s-%s)", "wrapping_mul": "(%s*%s)", "wrapping_shl": "(%%s<<(%%s&%d))" % (w - 1),
                    "wrapping_shr": "(%%s>>(%%s&%d))" % (w - 1)}.get(m)
            if form and form.count("%s") == len(x):
                return "(%s&%d)" % (form % tuple(x), full)
            if m == "ilog2":
                return "(%s.bit_length()-1)" % x[0]
            if m == "is_power_of_two":
                return "(_co(%s)==1)" % x[0]
            if m in ("trailing_ones", "leading_ones", "count_zeros"):
                return "%s(%d&~%s)" % ({"trailing_ones": "_tz", "leading_ones": "_lz", "count_zeros": "_co"}[m], full, x[0])
        if o == "field" and t.a[1] == "0":
            return self.e(t.a[0])            # the number inside a wrapper
        if o == "adt" and len(t.a[3]) == 1:
            return self.e(t.a[3][0])
        if o in ("ge0", "eq0", "eq", "not", "and", "or") or o == "more" and t.a[0].op == "adt":
            return self.b(t)
        raise Unknown(show(t)[:100])

    def b(self, t):
        if t in self.vars:
            return "(%s)" % self.vars[t]
        if self.special:
            x = self.special(self, t)
            if x is not None:
                return x
        o = t.op
        if o == "int":
            return "(%r!=0)" % t.a[0]
        if o == "not":
            return "(not %s)" % self.b(t.a[0])
        if o in ("and", "or"):
            return "(%s %s %s)" % (self.b(t.a[0]), o, self.b(t.a[1]))
        if o == "ge0":
            return "(%s>=0)" % self.e(t.a[0])
        if o == "eq0":
            return "(%s==0)" % self.e(t.a[0])
        if o == "eq":
            return "(%s==%s)" % (self.e(t.a[0]), self.e(t.a[1]))
        if o == "more":
            r = t.a[0]
            if r.op == "adt" and r.a[0].endswith("Range") or r.op == "adt" and r.a[0].endswith("RangeInclusive"):
                i = mk("ind", t.a[1], INT0)
                inc = 1 if r.a[0].endswith("RangeInclusive") else 0
                return "(%s+%s<%s+%d)" % (self.e(r.a[3][0]), self.e(i), self.e(r.a[3][1]), inc)
        return "(%s!=0)" % self.e(t)

    def facts(self, f, skip=None):
        out = []
        for k, v in f.d.items():
            if skip and skip(k):
                continue
            out.append(self.b(k) if v else "(not %s)" % self.b(k))
        for k, dom in f.dom.items():
            if skip and skip(k):
                continue
            out.append("(" + " or ".join(self.b(mk("isv", k, n)) for n in sorted(dom)) + ")")
        return " and ".join(out) or "True"


def _tz(x):
    return (x & -x).bit_length() - 1 if x else 16


def _lz(x):
    return 16 - x.bit_length()


def _co(x):
    return bin(x).count("1")


ENV = {"_tz": _tz, "_lz": _lz, "_co": _co}


def func(s, params, results, special=None):
    """python function of the named params (name -> terms it stands for) that runs the summary; `results(out)` gives the terms to return for a
    returning outcome.  The function returns None on a panic, DIV when a loop does not end, or the tuple of results."""
    names = {}
    for n, ts in params:
        for t in ts:
            names[t] = n
    F = Fin(names, special)
    src = ["def f(%s):" % ",".join(n for n, _ in params)]
    for L in sorted(s.I.loops.values(), key=lambda l: (str(type(l.id)), l.id)):
        vs = [v for v in L.vars if v.op != "itv"]
        for j, v in enumerate(vs):
            src.append("  v%s_%d=%s" % (L.id, j, F.e(L.vars[v][0])))
        ind = mk("ind", L.id, INT0)
        src.append("  i%s=0" % L.id)
        G = Fin(F.vars, special)
        G.vars[ind] = "i%s" % L.id
        for j, v in enumerate(vs):
            G.vars[v] = "v%s_%d" % (L.id, j)
        src.append("  while True:")
        src.append("    if i%s>40: return DIV" % L.id)
        for k, b in enumerate(L.backs):
            src.append("    if %s:" % G.facts(b.facts))
            if vs:
                src.append("      " + ",".join("v%s_%d" % (L.id, j) for j in range(len(vs))) + "=" + ",".join(G.e(L.vars[v][1][k][0]) for v in vs))
            src.append("      i%s+=1" % L.id)
            src.append("      continue")
        src.append("    break")
        F = G
    for o in s.outs:
        c = F.facts(o.facts)
        src.append("  if %s:" % c)
        if o.kind == "panic":
            src.append("    return None")
        else:
            src.append("    return (%s,)" % ",".join(F.e(t) for t in results(o)))
    src.append("  return DIV")
    env = dict(ENV, DIV=DIV)
    exec("\n".join(src), env)
    return env["f"]


def expr(params, t, special=None):
    F = Fin({x: n for n, ts in params for x in ts}, special)
    env = dict(ENV)
    exec("def f(%s):\n  return %s" % (",".join(n for n, _ in params), F.e(t)), env)
    return env["f"]


def cond(params, f, special=None, only=None):
    """the facts (those that can be evaluated over the params) as a predicate"""
    F = Fin({x: n for n, ts in params for x in ts}, special)
    out = []
    items = [(k, v) for k, v in f.d.items()] + [(mk("isv", k, n), True) for k, d in f.dom.items() if len(d) == 1 for n in d]
    for k, v in items:
        try:
            c = F.b(k)
        except Unknown:
            continue
        out.append(c if v else "(not %s)" % c)
    env = dict(ENV)
    exec("def f(%s):\n  return %s" % (",".join(n for n, _ in params), " and ".join(out) or "True"), env)
    return env["f"], len(out)
