"""Path-sensitive forward dataflow over MIR: value numbering + guard facts + events.

A *state* maps abstract locations to value terms, carries the facts established by the
branches taken, and the list of observable events (calls, stores) so far.  Loops are
summarised with loop-carried values (one header state, body analysed until the set of
modified locations is stable); recursion is cut (recursive calls stay opaque calls).
Local helpers, closures and std combinators (through /verif/models) are inlined, so the
facts do not depend on how the code is split into functions or which combinator is used.
"""
import itertools
import re
from terms import *
from db import strip_generics


class Ev:
    __slots__ = ("kind", "name", "args", "facts", "res", "fn", "sp", "extra", "prev", "n", "ty")

    def __init__(self, kind, name, args, facts, res, fn, sp, prev, extra=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.facts = facts
        self.res = res
        self.fn = fn
        self.sp = sp
        self.prev = prev
        self.extra = extra
        self.n = (prev.n + 1) if prev else 1
        self.ty = None

    def __repr__(self):
        return "%s %s(%s)%s" % (self.kind, self.name, ", ".join(show(x) for x in self.args),
                                "" if self.res is None else " -> " + show(self.res))


def evlist(e):
    r = []
    while e is not None:
        r.append(e)
        e = e.prev
    return r[::-1]


class State:
    __slots__ = ("mem", "facts", "ev")

    def __init__(self, mem, facts, ev):
        self.mem = mem
        self.facts = facts
        self.ev = ev

    def copy(self):
        return State(dict(self.mem), self.facts, self.ev)


class Out:
    __slots__ = ("kind", "val", "st", "info")

    def __init__(self, kind, val, st, info=None):
        self.kind = kind
        self.val = val
        self.st = st
        self.info = info

    @property
    def facts(self):
        return self.st.facts

    @property
    def events(self):
        return evlist(self.st.ev)


class Loop:
    def __init__(self, lid, fn, header):
        self.id = lid
        self.fn = fn
        self.header = header
        self.vars = {}      # key term -> (init, [ (step, facts) ])
        self.backs = []
        self.closed = {}     # back-edge states
        self.canon = {}      # iterator variable -> what it goes through, with closures as summaries
        self.head_ev = None
        self.head_facts = None
        self.fnpath = fn.path


class Frame:
    __slots__ = ("fn", "id", "subst", "depth", "stack")

    def __init__(self, fn, fid, subst, depth, stack):
        self.fn = fn
        self.id = fid
        self.subst = subst
        self.depth = depth
        self.stack = stack


class Budget(Exception):
    pass


IDENT = {
    "core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "core::ops::deref::Deref::deref",
    "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "alloc::slice::<impl [T]>::to_vec",
    "alloc::vec::Vec::as_slice", "core::option::Option::as_ref", "core::option::Option::as_deref",
    "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied", "core::result::Result::as_ref",
    "core::option::Option::cloned", "core::option::Option::copied",
    "core::slice::<impl [T]>::iter", "alloc::collections::btree::map::BTreeMap::iter",
    "std::collections::hash::map::HashMap::iter", "hashbrown::map::HashMap::iter",
    "hashbrown::set::HashSet::iter", "std::collections::hash::set::HashSet::iter",
    "alloc::collections::btree::set::BTreeSet::iter",
    "core::iter::traits::iterator::Iterator::cloned", "core::iter::traits::iterator::Iterator::copied",
    "alloc::boxed::Box::new", "core::hint::must_use", "anyhow::__private::must_use",
    "alloc::string::String::as_str", "core::convert::identity", "alloc::vec::Vec::into_boxed_slice",
    "alloc::slice::<impl [T]>::into_vec", "core::array::<impl [T; N]>::as_slice",
    "alloc::boxed::Box::into_inner", "core::hint::black_box",
    "core::iter::traits::iterator::Iterator::fuse", "core::ptr::read",
    "alloc::rcs::arc::Arc::new", "alloc::sync::Arc::new", "core::mem::ManuallyDrop::new",
    "core::str::<impl str>::as_bytes", "alloc::string::String::as_bytes", "alloc::string::String::into_bytes",
    "core::slice::<impl [T]>::as_ref", "alloc::vec::Vec::into_iter", "alloc::borrow::Cow::into_owned",
    "core::iter::traits::iterator::Iterator::peekable",
}
IDENT_MUT = {
    "core::ops::deref::DerefMut::deref_mut", "core::borrow::BorrowMut::borrow_mut",
    "core::convert::AsMut::as_mut", "alloc::vec::Vec::as_mut_slice",
    "core::iter::traits::iterator::Iterator::by_ref",
}
def array_len(t):
    """N for the type [u8; N] behind references"""
    while isinstance(t, dict) and t.get("k") in ("ref", "ptr"):
        t = t["t"]
    if isinstance(t, dict) and t.get("k") == "array":
        try:
            return int(t.get("n"))
        except (TypeError, ValueError):
            return None
    return None


def hash_parts(x):
    """the pieces of a byte string, in order: feeding a hasher a concatenation is feeding it the pieces"""
    if x.op == "append":
        return hash_parts(x.a[0]) + hash_parts(x.a[1])
    if x.op == "call" and x.a[0] == "concat" and len(x.a) == 2 and x.a[1].op == "arr":
        return tuple(q for y in x.a[1].a[0] for q in hash_parts(y))
    if x is EMPTY or x.op == "empty":
        return ()
    return (x,)


QUIET_PREFIX = ("core::fmt::", "alloc::fmt::", "anyhow::", "core::hint::", "tracing", "log::", "mirai_annotations",
                "core::mem::drop", "core::mem::forget", "core::any::", "core::panicking", "std::io::_print",
                "std::io::stdio", "core::ops::drop")
MODEL = {}
for _k in ("map and_then and or or_else ok_or ok_or_else unwrap_or unwrap_or_else unwrap_or_default map_or map_or_else "
           "filter is_some_and is_none_or is_some is_none unwrap expect flatten transpose zip inspect").split():
    MODEL["core::option::Option::" + _k] = "option_" + _k
MODEL["core::option::Option::<core::option::Option<T>>::flatten"] = "option_flatten"
MODEL["core::option::Option::<core::result::Result<T, E>>::transpose"] = "option_transpose"
for _k in ("map map_err and_then and or or_else ok err unwrap expect unwrap_or unwrap_or_else unwrap_or_default map_or "
           "map_or_else is_ok is_err is_ok_and transpose").split():
    MODEL["core::result::Result::" + _k] = "result_" + _k
MODEL["core::result::Result::<core::option::Option<T>, E>::transpose"] = "result_transpose"
MODEL["core::cmp::Ordering::then_with"] = "ordering_then_with"
MODEL["core::cmp::Ordering::then"] = "ordering_then"
MODEL["core::cmp::Ordering::reverse"] = "ordering_reverse"
MODEL["core::bool::<impl bool>::then"] = "bool_then"
MODEL["core::bool::<impl bool>::then_some"] = "bool_then_some"
IT = "core::iter::traits::iterator::Iterator::"
for _k in "fold for_each any all find find_map count position".split():
    MODEL[IT + _k] = "iter_" + _k
ADAPT = {"rev", "skip", "take", "enumerate", "map", "filter", "filter_map", "zip", "chain", "take_while",
         "skip_while", "step_by", "flat_map", "map_while", "inspect"}
NEW_EMPTY = {"alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "std::collections::hash::map::HashMap::new",
             "std::collections::hash::set::HashSet::new", "hashbrown::map::HashMap::new", "hashbrown::set::HashSet::new",
             "alloc::collections::btree::map::BTreeMap::new", "alloc::collections::btree::set::BTreeSet::new",
             "std::collections::hash::map::HashMap::with_capacity", "hashbrown::map::HashMap::with_capacity",
             "alloc::string::String::new"}
EMPTY = mk("empty")
EMPTY_BTREE = mk("empty", "btree")      # going through it is in order, each key once
COLL = ("alloc::vec::Vec", "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet",
        "hashbrown::map::HashMap", "hashbrown::set::HashSet", "alloc::collections::btree::map::BTreeMap",
        "alloc::collections::btree::set::BTreeSet", "alloc::string::String", "core::slice::<impl [T]>",
        "core::str::<impl str>", "alloc::collections::vec_deque::VecDeque", "alloc::slice::<impl [T]>")
OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"


def Some(x):
    return mk("adt", OPT, "Some", ("0",), (x,))


NONE = mk("adt", OPT, "None", (), ())


def Ok(x):
    return mk("adt", RES, "Ok", ("0",), (x,))


def Err(x):
    return mk("adt", RES, "Err", ("0",), (x,))


BINNAMES = {"core::ops::bit::BitAnd::bitand": "BitAnd", "core::ops::bit::BitOr::bitor": "BitOr",
            "core::ops::bit::BitXor::bitxor": "BitXor", "core::ops::bit::Shl::shl": "Shl",
            "core::ops::bit::Shr::shr": "Shr", "core::ops::arith::Add::add": "Add",
            "core::ops::arith::Sub::sub": "Sub", "core::ops::arith::Mul::mul": "Mul",
            "core::ops::arith::Div::div": "Div", "core::ops::arith::Rem::rem": "Rem"}
CMPN = {"core::cmp::PartialOrd::lt": lambda a, b: mk_lt(a, b), "core::cmp::PartialOrd::le": lambda a, b: mk_le(a, b),
        "core::cmp::PartialOrd::gt": lambda a, b: mk_lt(b, a), "core::cmp::PartialOrd::ge": lambda a, b: mk_le(b, a)}

UINT_W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "bool": 1}


def is_iter_term(t):
    return t.op in ("itv", "adv") or (t.op == "it")


class Interp:
    arrlen = {}                 # array values whose length the types give
    iotys = {}                  # the types that are read or written, by the call's own term
    def __init__(self, db, opaque=None, max_depth=14, budget=400000, inline_only=None, pure_next=None, fine=False, unroll=None, whole_picks=False, folds=False):
        self.iotys = {}
        self.folds = folds              # the greatest, least or last element is found by going through them all
        self.whole_picks = whole_picks  # what a fresh iterator yields first, as one term
        self.pure_next = pure_next   # treat the workspace's own iterators as sequences
        self.unroll = unroll  # which functions have their constant-trip loops executed round by round
        self.undecided = False
        self.once = None      # which loops to run for a single round
        self.fine = fine      # never merge states that know different variants of any value
        self.db = db
        self.opaque = opaque or (lambda fn: False)
        self.inline_only = inline_only
        self.max_depth = max_depth
        self.fid = itertools.count(1)
        self.arrlen = {}
        self.loopid = itertools.count(1)
        self.site = itertools.count(1)
        self.loops = {}
        self.chks = []         # every run-time check met (index, slice, arithmetic), with the facts at that point
        self.allv = {}         # scrutinised value -> names of all its variants
        self.rejects = {}      # loop -> [(element, facts)] that a filter on its source refuses
        self.steps = 0
        self.budget = budget
        self.promo = {}
        self.constcache = {}
        self.visited = set()   # fn ids analysed
        self.callsites = 0
        self.notes = []
        self.lam_depth = 0
        self.entry = None
        self._ar = {}

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, subst=None, objs=None, facts=None):
        st = State({}, facts or Facts(), None)
        a = []
        for i in range(fn.argc):
            l = fn.locals[i + 1]
            nm = l["n"] or ("a%d" % i)
            t = mk("arg", i, nm)
            if args and i in args:
                a.append(args[i])
                continue
            if l["ty"].get("k") == "ref" and l["ty"]["m"]:
                root = mk("obj", t)
                a.append(mk("ptr", root, ()))
                st.mem[root] = objs[i] if objs and i in objs else t
            else:
                a.append(t)
        self.entry = fn
        return self.call_fn(fn, a, st, subst or {}, 0, ())

    # ------------------------------------------------------------ memory
    def proj(self, v, step):
        if step[0] == "k":
            g = self.mapget0(v, step[1])
            return self.proj(self.proj(g, ("v", "Some")), ("f", "0"))
        if v.op == "upd":
            s2 = v.a[1]
            if s2 == step:
                return v.a[2]
            if s2[0] == "f" and step[0] == "f":
                return self.proj(v.a[0], step)
            if s2[0] == "i" and step[0] == "i":
                if s2[1] is step[1]:
                    return v.a[2]
                if s2[1].op == "int" and step[1].op == "int":
                    return self.proj(v.a[0], step)
            if s2[0] == "v" and step[0] == "v" and s2[1] == step[1]:
                return v.a[2]
            if s2[0] == "v" and step[0] == "f" or s2[0] == "f" and step[0] == "v":
                if s2[0] == "v":
                    return self.proj(v.a[0], step)
            return mk("field", v, str(step[1])) if step[0] == "f" else (
                mk("as", v, step[1]) if step[0] == "v" else mk("slice", v, *step[1]) if step[0] == "s" else mk("idx", v, step[1]))
        k = step[0]
        if k == "s":
            return self.mk_slice(v, *step[1])
        if k == "f":
            nm = step[1]
            if v.op == "adt":
                if nm in v.a[2]:
                    return v.a[3][v.a[2].index(nm)]
                return mk("field", v, nm)
            if v.op in ("tuple", "clo"):
                vals = v.a[0] if v.op == "tuple" else v.a[1]
                if nm.isdigit() and int(nm) < len(vals):
                    return vals[int(nm)]
            return mk("field", v, nm)
        if k == "v":
            if v.op == "adt":
                if v.a[1] == step[1]:
                    return v
            if v.op == "as" and v.a[1] == step[1]:
                return v
            return mk("as", v, step[1])
        if k == "i":
            i = step[1]
            if v.op == "arr" and i.op == "int" and i.a[0] < len(v.a[0]):
                return v.a[0][i.a[0]]
            if v.op == "repeat":
                return v.a[0]
            if v.op == "push" and i is self.length(v.a[0]):
                return v.a[1]
            if v.op == "slice":
                if v.a[1] is not None and isinstance(v.a[1], T):
                    return mk_idx(v.a[0], add(v.a[1], i))
            return mk_idx(v, i)
        return mk("field", v, str(step))

    def mapget0(self, a, k):
        while True:
            if a.op == "ins" and len(a.a) == 3 and a.a[1] is k:
                return Some(a.a[2])
            if a.op == "rem" and a.a[1] is k or a.op == "empty":
                return NONE
            return mk("call", "get", a, k)

    def setp(self, v, steps, val):
        if not steps:
            return val
        s = steps[0]
        inner = self.setp(self.proj(v, s), steps[1:], val)
        if s[0] == "k":
            if inner is self.proj(v, s):
                return v
            if v.op == "ins" and len(v.a) == 3 and v.a[1] is s[1]:
                v = v.a[0]
            return mk("ins", v, s[1], inner)
        if s[0] == "f":
            nm = s[1]
            if v.op == "adt" and nm in v.a[2]:
                i = v.a[2].index(nm)
                vs = list(v.a[3])
                vs[i] = inner
                return mk("adt", v.a[0], v.a[1], v.a[2], tuple(vs))
            if v.op == "tuple" and nm.isdigit() and int(nm) < len(v.a[0]):
                vs = list(v.a[0])
                vs[int(nm)] = inner
                return mk("tuple", tuple(vs))
            if v.op == "clo" and nm.isdigit() and int(nm) < len(v.a[1]):
                vs = list(v.a[1])
                vs[int(nm)] = inner
                return mk("clo", v.a[0], tuple(vs))
        if s[0] == "v":
            if v.op == "adt" and v.a[1] == s[1]:
                return inner
            # the payload of an opaque enum value was changed in place
            return mk("upd", v, s, inner)
        if s[0] == "i" and v.op == "arr" and s[1].op == "int" and s[1].a[0] < len(v.a[0]):
            vs = list(v.a[0])
            vs[s[1].a[0]] = inner
            return mk("arr", tuple(vs))
        if s[0] == "i" and v.op == "push" and s[1] is self.length(v.a[0]):
            return mk("push", v.a[0], inner)
        if v.op == "upd" and v.a[1] == s:
            return mk("upd", v.a[0], s, inner)
        if inner is self.proj(v, s):
            return v
        if v.op == "upd" and v.a[1][0] == "f" and s[0] == "f" and str(v.a[1]) > str(s):
            return mk("upd", self.setp(v.a[0], [s], inner), v.a[1], v.a[2])
        return mk("upd", v, s, inner)

    def load(self, st, root, steps):
        v = st.mem.get(root)
        if v is None:
            v = root.a[0] if root.op == "obj" else mk("undef", root)
        for s in steps:
            v = self.proj(v, s)
        return v

    def store(self, st, root, steps, val):
        if not steps:
            st.mem[root] = val
        else:
            v = st.mem.get(root)
            if v is None:
                v = root.a[0] if root.op == "obj" else mk("undef", root)
            st.mem[root] = self.setp(v, list(steps), val)

    def deref(self, st, v):
        """value behind a reference value"""
        if v.op == "ptr":
            return self.load(st, v.a[0], v.a[1])
        r = mk("obj", v)
        if r in st.mem:
            return st.mem[r]
        return v

    def fully(self, st, v):
        n = 0
        while v.op == "ptr" and n < 6:
            v = self.load(st, v.a[0], v.a[1])
            n += 1
        return v

    def resolve_place(self, fr, st, pl):
        """-> ('loc', root, steps) for an addressable place, or ('val', term, steps)."""
        root = mk("L", fr.id, pl["l"])
        steps = []
        mode = "loc"
        cur = None
        lty = fr.fn.locals[pl["l"]]["ty"]
        prev_field_box = 0
        i = 0
        P = pl["p"]
        n = len(P)
        while i < n:
            e = P[i]
            k = e[0]
            if k == "d":
                v = self.load(st, root, steps) if mode == "loc" else self.apply(cur, steps)
                if v.op == "ptr":
                    root, steps, mode = v.a[0], list(v.a[1]), "loc"
                else:
                    r = mk("obj", v)
                    if r in st.mem or v.op != "undef":
                        root, steps, mode = r, [], "loc"
            elif k == "f":
                # Box<T>.0(Unique).pointer(NonNull) -> the box contents
                if e[2] == "0" and i + 1 < n and P[i + 1][0] == "f" and P[i + 1][2] == "pointer":
                    i += 2
                    continue
                if e[2] == "pointer" and e[1] == 0:
                    i += 1
                    continue
                if e[2] in ("value", "__value", "_value") and e[1] == 0 and False:
                    pass
                steps.append(("f", e[2]))
            elif k == "i":
                iv = st.mem.get(mk("L", fr.id, e[1])) or mk("undef", mk("L", fr.id, e[1]))
                steps.append(("i", iv))
            elif k == "ci":
                if e[3]:
                    base = self.load(st, root, steps)
                    steps.append(("i", sub(self.length(base), Int(e[1]))))
                else:
                    steps.append(("i", Int(e[1])))
            elif k == "v":
                steps.append(("v", e[2]))
            elif k == "ss":
                base = self.load(st, root, steps)
                hi = sub(self.length(base), Int(e[2])) if e[3] else Int(e[2])
                return ("val", self.mk_slice(base, Int(e[1]), hi), [])
            else:
                steps.append(("f", str(e)))
            i += 1
        return ("loc", root, steps)

    def apply(self, v, steps):
        for s in steps:
            v = self.proj(v, s)
        return v

    def read_place(self, fr, st, pl):
        m, r, s = self.resolve_place(fr, st, pl)
        if m == "val":
            return self.apply(r, s)
        return self.load(st, r, s)

    def write_place(self, fr, st, pl, val, sp=None):
        m, r, s = self.resolve_place(fr, st, pl)
        if m == "val":
            return
        if r.op == "obj" and not (r.a[0].op == "arg"):
            st.ev = Ev("store", "store", (r.a[0], mk("path", tuple(s)), val), st.facts, None, fr.fn.path, sp, st.ev)
        self.store(st, r, s, val)

    # ------------------------------------------------------------ values
    def length(self, v):
        if v.op == "arr":
            return Int(len(v.a[0]))
        if v.op == "repeat" and isinstance(v.a[1], int):
            return Int(v.a[1])
        if v.op == "empty":
            return INT0
        if v.op == "push":
            return add(self.length(v.a[0]), INT1)
        if v.op == "popped":
            return sub(self.length(v.a[0]), INT1)
        if v.op == "append":
            return add(self.length(v.a[0]), self.length(v.a[1]))
        if v.op == "reversed":
            return self.length(v.a[0])
        if v.op == "it" and v.a[0] in ("rev", "enumerate", "map"):
            return self.length(v.a[1])
        if v.op == "coll":
            if coll_body(v) is not None:
                n = self.seqlen(v.a[1])
                if n is not None:
                    return n
        if v.op == "slice":
            hi = v.a[2]
            if isinstance(hi, T) and isinstance(v.a[1], T):
                return sub(hi, v.a[1])
        if v.op == "upd" and v.a[1][0] in ("i", "s"):
            return self.length(v.a[0])
        if v.op == "bytes":
            return Int(len(v.a[0]))
        if v in self.arrlen:
            return Int(self.arrlen[v])
        return mk("call", "len", v)

    def mk_slice(self, v, lo, hi):
        if lo.op == "int" and lo.a[0] == 0 and hi is self.length(v):
            return v
        if v.op == "slice":
            return mk("slice", v.a[0], add(v.a[1], lo), add(v.a[1], hi))
        if v.op == "arr" and lo.op == "int" and hi.op == "int":
            return mk("arr", v.a[0][lo.a[0]:hi.a[0]])
        return mk("slice", v, lo, hi)

    def tysub(self, fr, t):
        if not isinstance(t, dict):
            return t
        if t.get("k") == "param":
            return fr.subst.get(t["s"], t)
        if "a" in t and t["k"] in ("adt", "tuple"):
            r = dict(t)
            r["a"] = [self.tysub(fr, x) for x in t["a"]]
            return r
        if "t" in t and t["k"] in ("ref", "slice", "array", "ptr"):
            r = dict(t)
            r["t"] = self.tysub(fr, t["t"])
            return r
        return t

    def const(self, fr, c):
        k = c["k"]
        if k == "fn":
            cc = dict(c["c"])
            cc["ga"] = [self.tysub(fr, x) for x in cc.get("ga", [])]
            if cc.get("r"):
                r = dict(cc["r"])
                r["ga"] = [self.tysub(fr, x) for x in r.get("ga", [])]
                cc["r"] = r
            return mk("fn", cc["p"], Callee(cc))
        if k == "ci":
            ty = c["ty"]
            if ty.get("k") == "tuple":
                return UNIT
            return Int(int(c["v"]))
        if k == "cn":
            if "promoted" in c:
                return self.promoted(c)
            if "v" in c:
                return Int(int(c["v"]))
            return self.named_const(c)
        if k == "co":
            ty = c["ty"]
            s = c["s"]
            if ty.get("k") == "tuple" and not ty["a"]:
                return UNIT
            if ty.get("k") == "adt":
                a = self.db.adts.get(ty["id"])
                if a and not a["enum"] and not a["v"][0]["f"]:
                    return mk("adt", ty["p"], a["v"][0]["n"], (), ())
                if a and a["enum"]:
                    last = strip_generics(s).split("::")[-1]
                    for v in a["v"]:
                        if v["n"] == last:
                            return mk("adt", ty["p"], last, (), ())
                if a and not a["enum"]:
                    return mk("const", s)
            if ty.get("k") == "closure":
                return mk("clo", ty["id"], ())
            if ty.get("k") == "fndef":
                cc = ty["c"]
                return mk("fn", cc["p"], Callee(cc))
            if s.startswith('b"') or s.startswith('*b"'):
                return mk("bytes", s[s.index('"') + 1:-1])
            if s.startswith('"'):
                return mk("str", s[1:-1])
            return mk("const", s)
        return mk("const", str(c))

    def promoted(self, c):
        key = (c["id"], c["promoted"])
        if key in self.promo:
            return self.promo[key]
        fn = self.db.fns.get(c["id"])
        r = mk("const", c["p"] + "#p%d" % c["promoted"])
        if fn and c["promoted"] < len(fn.promoted):
            r = self.eval_body(fn, fn.promoted[c["promoted"]], r)
        self.promo[key] = r
        return r

    def eval_body(self, fn, j, dflt):
        jj = dict(fn.j)
        jj.update(j)
        jj["argc"] = 0
        jj["promoted"] = []
        from db import Fn
        f2 = Fn(jj, fn.crate)
        f2.promoted = fn.promoted
        if any(b["t"]["k"] in ("switch",) for b in f2.blocks):
            return dflt
        try:
            saved = self.steps
            outs = self.call_fn(f2, [], State({}, Facts(), None), {}, 1, ())
            self.steps = saved
        except Budget:
            return dflt
        rets = [o for o in outs if o.kind == "ret"]
        if len(rets) == 1 and rets[0].val is not None:
            v = rets[0].val
            return v
        return dflt

    def named_const(self, c):
        ga = c.get("ga") or []
        key = (c["id"], str(ga))
        if key in self.constcache:
            return self.constcache[key]
        self.constcache[key] = mk("const", c["p"])
        fn = self.db.fns.get(c["id"])
        r = mk("const", c["p"])
        if "s" in c and c.get("s", "").startswith('"'):
            r = mk("str", c["s"][1:-1])
        if fn is not None:
            r = self.eval_body(fn, fn.j, r)
        self.constcache[key] = r
        return r

    def operand(self, fr, st, o):
        if o["k"] in ("cp", "mv"):
            return self.read_place(fr, st, o["pl"])
        return self.const(fr, o)

    def binop(self, op, a, b, st=None):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = None
        if base == "Add":
            r = add(a, b)
        elif base == "Sub":
            r = sub(a, b)
        elif base == "Mul":
            r = mul(a, b)
        elif base == "Eq":
            return mk_eq(a, b)
        elif base == "Ne":
            return mk_not(mk_eq(a, b))
        elif base == "Lt":
            return mk_lt(a, b)
        elif base == "Le":
            return mk_le(a, b)
        elif base == "Gt":
            return mk_lt(b, a)
        elif base == "Ge":
            return mk_le(b, a)
        elif base == "Cmp":
            return mk("call", "cmp", a, b)
        elif a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            try:
                r = {"Div": lambda: Int(x // y), "Rem": lambda: Int(x % y), "BitAnd": lambda: Int(x & y),
                     "BitOr": lambda: Int(x | y), "BitXor": lambda: Int(x ^ y), "Shl": lambda: Int(x << y),
                     "Shr": lambda: Int(x >> y)}.get(base, lambda: None)()
            except ZeroDivisionError:
                r = None
        if r is None:
            if base in ("BitOr", "BitXor") and INT0 in (a, b) and not (is_bool(a) or is_bool(b)):
                r = b if a is INT0 else a
            elif base in ("Shl", "Shr") and a is INT0:
                r = INT0
            elif base == "BitAnd" and INT0 in (a, b):
                r = INT0
            elif base in ("Shl", "Shr") and b is INT0:
                r = a
            elif base in ("BitAnd", "BitOr") and is_bool(a) and is_bool(b):
                r = mk("and" if base == "BitAnd" else "or", a, b)
            elif base == "Rem" and b.op == "int" and b.a[0] == 2:
                r = mk("bin", "BitAnd", a, INT1)
            elif base == "BitAnd" and a.op == "int":
                r = mk("bin", base, b, a)
            elif base in ("BitAnd", "BitOr", "BitXor") and b.op != "int" and a.n > b.n:
                r = mk("bin", base, b, a)
            elif base == "Div" and b.op == "int" and b.a[0] & (b.a[0] - 1) == 0 and b.a[0] > 0:
                r = mk("bin", "Shr", a, Int(b.a[0].bit_length() - 1))
            elif base == "Rem" and b.op == "int" and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0:
                r = mk("bin", "BitAnd", a, Int(b.a[0] - 1))
            elif base == "Shl" and b.op == "int" and b.a[0] < 8:
                r = mul(a, Int(1 << b.a[0]))
            else:
                r = mk("bin", base, a, b)
        if op.endswith("WithOverflow"):
            return mk("tuple", (r, mk("ovf", base, a, b)))
        return r

    def rvalue(self, fr, st, rv, dst_ty=None):
        k = rv["k"]
        if k == "use":
            return self.operand(fr, st, rv["o"])
        if k == "ref":
            if rv["m"]:
                m, r, s = self.resolve_place(fr, st, rv["pl"])
                if m == "val":
                    return self.apply(r, s)
                if r.op == "obj" and not s and r.a[0].op != "arg":
                    # reborrow of an opaque mutable reference
                    if r not in st.mem:
                        return r.a[0]
                return mk("ptr", r, tuple(s))
            return self.read_place(fr, st, rv["pl"])
        if k == "bin":
            a = self.operand(fr, st, rv["a"])
            b = self.operand(fr, st, rv["b"])
            return self.binop(rv["op"], a, b, st)
        if k == "un":
            a = self.operand(fr, st, rv["a"])
            if rv["op"] == "Not":
                if is_bool(a) or (rv["a"]["k"] in ("cp", "mv") and self.opty(fr, rv["a"]) == "bool"):
                    return mk_not(a)
                return mk("un", "Not", a)
            if rv["op"] == "PtrMetadata":
                return self.length(self.fully(st, a))
            return mk("un", rv["op"], a)
        if k == "cast":
            o = rv["o"]
            a = self.operand(fr, st, o)
            ck = rv["ck"]
            if "Unsize" in ck and isinstance(a, T) and a.op in ("arg", "field"):
                n = array_len(rv.get("sty"))
                if n is not None:
                    self.arrlen[a] = n
            if ck.startswith("IntToInt"):
                s1, s2 = rv["sty"].get("s"), rv["ty"].get("s")
                w1, w2 = UINT_W.get(s1), UINT_W.get(s2)
                if w1 and w2 and w2 >= w1:
                    return a
                if a.op == "int" and w2:
                    return Int(a.a[0] & ((1 << w2) - 1))
                if a.op == "bin" and a.a[0] == "BitAnd" and a.a[2].op == "int" and w2 and a.a[2].a[0] < (1 << w2):
                    return a
                return mk("cast", s2 or "?", a)
            if ck.startswith("BoxDeref"):
                # address of the contents of a box: the place holding the box (boxes are transparent)
                if o["k"] in ("cp", "mv") and o["pl"]["p"] and o["pl"]["p"][-1][0] == "f":
                    m, r, s = self.resolve_place(fr, st, {"l": o["pl"]["l"], "p": o["pl"]["p"][:-1]})
                    if m == "loc":
                        v = self.load(st, r, s)
                        return v if v.op == "ptr" else mk("ptr", r, tuple(s))
                return a
            if ck.startswith("Transmute") or ck.startswith("PtrToPtr"):
                # address of box contents
                if o["k"] in ("cp", "mv"):
                    P = o["pl"]["p"]
                    if len(P) >= 1 and P[-1][0] == "f" and P[-1][2] == "pointer":
                        m, r, s = self.resolve_place(fr, st, o["pl"])
                        if m == "loc":
                            return mk("ptr", r, tuple(s))
                return a
            return a
        if k == "disc":
            v = self.read_place(fr, st, rv["pl"])
            return mk("disc", v)
        if k == "agg":
            ak = rv["ak"]
            os = tuple(self.operand(fr, st, o) for o in rv["o"])
            kk = ak["k"]
            if kk == "tuple":
                return mk("tuple", os)
            if kk == "array":
                return mk("arr", os)
            if kk == "adt":
                names = tuple(ak["fn"])
                if len(names) != len(os):
                    names = names[:len(os)]
                return mk("adt", ak["p"], ak["v"], names, os)
            if kk == "closure":
                return mk("clo", ak["id"], os)
            return mk("agg", str(ak), os)
        if k == "repeat":
            return mk("repeat", self.operand(fr, st, rv["o"]), rv["n"])
        return mk("const", "rv:" + str(rv.get("s")))

    def opty(self, fr, o):
        pl = o["pl"]
        if pl["p"]:
            return None
        return fr.fn.locals[pl["l"]]["ty"].get("s")

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, args, st, subst, depth, stack):
        """-> list of Out (ret / panic)"""
        fr = Frame(fn, next(self.fid), subst, depth, stack + (fn.id,))
        self.visited.add(fn.id)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[mk("L", fr.id, i + 1)] = a
        outs, exits, backs = self.walk(fr, [(0, st)], None, ())
        res = []
        seen = {}
        for o in outs:
            if o.kind == "ret":
                m = o.st.mem
                dead = [r for r in m if r.op == "L" and r.a[0] == fr.id]
                for r in dead:
                    del m[r]
                k = (o.val, id(o.st.ev), tuple(sorted(((r.n, v.n) for r, v in m.items()))), self.partition(o.st.facts))
                p = seen.get(k)
                if p is not None and stack:
                    p.st.facts = p.st.facts.join(o.st.facts)
                    continue
                seen[k] = o
            res.append(o)
        return res

    def walk(self, fr, starts, region, active):
        """Explore from `starts`; region: set of blocks (loop body) or None.
        active: headers whose back edge ends the walk.
        -> (outs, exits[(block,state)], backs[state])"""
        cfg = fr.fn.cfg
        pend = {}
        outs, exits, backs = [], [], []

        def enqueue(b, s, frm=None):
            if active and b == active[-1] and frm is not None:
                backs.append(s)
                return
            if region is not None and b not in region:
                exits.append((b, s))
                return
            pend.setdefault(b, []).append(s)

        for b, s in starts:
            pend.setdefault(b, []).append(s)
        first = {b for b, _ in starts}
        while pend:
            b = min(pend, key=lambda x: cfg.rpo[x])
            sts = pend.pop(b)
            if len(sts) > 1:
                sts = self.merge(fr, b, sts)
            for s in sts:
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget("budget exceeded in %s" % fr.fn.path)
                if b in cfg.loops and not (active and b == active[-1]):
                    o2, ex2 = self.do_loop(fr, b, s, active)
                    outs.extend(o2)
                    for bb, ss in ex2:
                        enqueue(bb, ss, b)
                    continue
                for bb, ss in self.block(fr, b, s, outs):
                    enqueue(bb, ss, b)
        return outs, exits, backs

    def merge(self, fr, b, sts):
        cfg = fr.fn.cfg
        live = cfg.live[b]
        alw = cfg.always
        groups = {}
        for s in sts:
            dead = [r for r in s.mem if r.op == "L" and r.a[0] == fr.id and r.a[1] not in live and r.a[1] not in alw]
            for r in dead:
                del s.mem[r]
            k = (id(s.ev), frozenset((r, v) for r, v in s.mem.items()), self.partition(s.facts))
            g = groups.get(k)
            if g is None:
                groups[k] = s
            else:
                g.facts = g.facts.join(s.facts)
        return list(groups.values())

    def partition(self, facts):
        """trace partitioning: states that know different shapes of the inputs stay apart"""
        if self.fine == 2:
            return frozenset(facts.dom.items()), frozenset(facts.d.items())
        return frozenset((t, d) for t, d in facts.dom.items() if self.fine or self.arg_rooted(t))

    def arg_rooted(self, t):
        r = self._ar.get(t)
        if r is None:
            x = t
            while x.op in ("field", "as"):
                x = x.a[0]
            r = self._ar[t] = x.op == "arg"
        return r

    def do_loop(self, fr, h, st, active):
        cfg = fr.fn.cfg
        body = cfg.loops[h]
        lid = str(next(self.loopid))
        if self.once is not None and self.once(fr):
            # one round only, from the state as it is
            head = st.copy()
            outs, exits, backs = self.walk(fr, [(h, st)], cfg.loops[h], active + (h,))
            return outs + [Out("back", None, s, (fr.id, cfg.live[h] | cfg.always, head)) for s in backs], exits
        if self.unroll is not None and self.unroll(fr):
            r = self.unrolled(fr, h, st, active)
            if r is not None:
                return r
        elif self.few(fr, h, st):
            r = self.unrolled(fr, h, st, active, 5)
            if r is not None:
                return r
        havoc = {}   # (root, steps) -> lv term
        live = cfg.live[h] | cfg.always
        rounds = 0
        kinds, step = {}, {}
        while True:
            rounds += 1
            s0 = st.copy()
            dead = [r for r in s0.mem if r.op == "L" and r.a[0] == fr.id and r.a[1] not in live]
            for r in dead:
                del s0.mem[r]
            for (root, steps), lv in havoc.items():
                self.store(s0, root, steps, lv)
            head = s0.copy()
            head_ev = s0.ev
            saved_loop = next(self.loopid)  # keep ids distinct
            outs, exits, backs = self.walk(fr, [(h, s0)], body, active + (h,))
            new = {}
            for bs in backs:
                for root in set(bs.mem) | set(head.mem):
                    if root.op == "L" and root.a[0] == fr.id and root.a[1] not in live:
                        continue
                    if root.op == "L" and root not in head.mem:
                        continue
                    a = head.mem.get(root)
                    b = bs.mem.get(root)
                    if a is None:
                        a = root.a[0] if root.op == "obj" else mk("undef", root)
                    if b is None or a is b:
                        continue
                    self.diff(root, (), a, b, new)
            added = False
            for k in new:
                # skip if already havocked at this path or a prefix
                if any(k[0] is r and k[1][:len(s)] == s for (r, s) in havoc):
                    continue
                # drop havocs below it
                for kk in [x for x in havoc if x[0] is k[0] and x[1][:len(k[1])] == k[1]]:
                    del havoc[kk]
                init = self.load(st, k[0], k[1])
                back = new[k]
                if self.adv_base(back, init):
                    lv = mk("itv", lid, init)
                    kinds[k] = "itv"
                elif is_int(sub(back, init)) and sub(back, init).a[0] != 0:
                    step[k] = sub(back, init)
                    lv = add(init, mul(mk("ind", lid, INT0), step[k]))
                    kinds[k] = "ind"
                else:
                    lv = mk("lv", lid, self.lvkey(fr, k))
                    kinds[k] = "lv"
                havoc[k] = lv
                added = True
            if not added or rounds > 6:
                break
            # inductive variables must really step by one; re-checked below
        # demote wrong guesses: counters and iterators that do not move by exactly one per round
        bad = False
        chosen = any(kinds[k] == "itv" and picks(unadv(lv.a[1])) for k, lv in havoc.items())
        for k, lv in list(havoc.items()):
            if kinds[k] == "ind":
                # the index stands for the position in the source, which a counter of chosen elements is not
                if chosen or any(sub(self.load(bs, k[0], k[1]), lv) is not step[k] for bs in backs):
                    bad = True
                    havoc[k] = mk("lv", lid, self.lvkey(fr, k))
            elif kinds[k] == "itv":
                vs = [self.load(bs, k[0], k[1]) for bs in backs]
                if any(not (v is lv or self.adv_base(v, lv)) for v in vs):
                    bad = True
                    havoc[k] = mk("lv", lid, self.lvkey(fr, k))
                elif any(v is not mk("adv", lv) for v in vs):
                    bad = True
                    havoc[k] = mk("itv", lid + "?%d" % len(havoc), lv.a[1])
        if bad:
            s0 = st.copy()
            for r in [r for r in s0.mem if r.op == "L" and r.a[0] == fr.id and r.a[1] not in live]:
                del s0.mem[r]
            for (root, steps), lv in havoc.items():
                self.store(s0, root, steps, lv)
            head_ev = s0.ev
            outs, exits, backs = self.walk(fr, [(h, s0)], body, active + (h,))
        L = Loop(lid, fr.fn, h)
        for k, lv in havoc.items():
            L.vars[lv] = (self.load(st, k[0], k[1]), [(self.load(bs, k[0], k[1]), bs.facts) for bs in backs])
        # iterators over their closures' summaries, for rules that go through the elements one by one
        nchk = len(self.chks)
        for lv, (init, _) in L.vars.items():
            if init.op == "it" and lv.op in ("lv", "itv"):
                L.canon[lv] = self.canon_val(fr, st, init)
        del self.chks[nchk:]
        L.backs = backs
        L.head_ev = head_ev
        L.head_facts = st.facts
        self.loops[lid] = L
        res = []
        for b, s in exits:
            s.ev = Ev("loop", "loop", (Int(int(lid)),), s.facts, None, fr.fn.path, None, s.ev, L)
            if not self.close(L, s):
                continue
            res.append((b, s))
        return outs, res

    def few(self, fr, h, st):
        """the loop may run over a handful of elements that are written out"""
        for root, v in st.mem.items():
            if root.op != "L" or root.a[0] != fr.id or root.a[1] not in fr.fn.cfg.live[h]:
                continue
            t = fr.fn.locals[root.a[1]]["ty"]
            if t.get("k") != "adt" or not t["p"].startswith(("core::array::iter::", "core::slice::iter::", "alloc::vec::into_iter::", "core::iter::")):
                continue
            while v.op == "it" and v.a[0] in ("rev", "enumerate", "map", "inspect"):
                v = v.a[1]
            if v.op == "arr" and len(v.a[0]) <= 4:
                return True
        return False

    def unrolled(self, fr, h, st, active, rounds=20):
        """a loop whose trip count is a constant, executed round by round; None when it is not"""
        outs, exits = [], []
        sts = [st.copy()]
        nvis, nrej = set(self.visited), len(self.loops)
        saved = self.undecided
        self.undecided = False
        for _ in range(rounds):
            o2, e2, backs = self.walk(fr, [(h, s) for s in sts], fr.fn.cfg.loops[h], active + (h,))
            outs += o2
            exits += e2
            if self.undecided or len(backs) > 300:
                break
            if not backs:
                self.undecided = saved
                return outs, exits
            sts = self.merge(fr, h, backs)
        self.undecided = saved
        return None

    # ------------------------------------------------------------ closed forms of collecting loops
    def close(self, L, s):
        """on the exit where the loop ran through its whole source, replace what it collected by a closed form"""
        m = {}
        for k, v in s.facts.d.items():
            if k.op == "more" and v is False and k.a[1] == L.id:
                src = k.a[0]
                break
        else:
            src = self.counted(L, s)
            if src is None:
                return True
        for lv, (init, steps) in L.vars.items():
            if lv.op != "lv":
                continue
            key = (lv, src)
            if key not in L.closed:
                L.closed[key] = self.closed_form(L, lv, init, steps, src)
            c = L.closed[key]
            if c is not None:
                m[lv] = c
        if not m:
            return True
        memo = {}
        hit = set(m)
        for root, v in list(s.mem.items()):
            s.mem[root] = subst(v, m, memo)
        f = Facts({k: v for k, v in s.facts.d.items()}, dict(s.facts.dom))
        for k, v in s.facts.d.items():
            k2 = subst(k, m, memo)
            if k2 is not k:
                del f.d[k]
                f = f.assume(k2, v)
                if f is None:
                    return False
        for k, v in s.facts.dom.items():
            k2 = subst(k, m, memo)
            if k2 is not k:
                f = f.set_dom(k2, v)
                if f is None:
                    return False
        s.facts = f
        return True

    def counted(self, L, s):
        """the range a counting loop ran through, if it left because its counter reached the bound"""
        for lv in L.vars:
            c, d = lin_of(lv)
            for x, k in d.items():
                if x.op == "ind" and x.a[0] == L.id and k == 1:
                    for g, v in s.facts.d.items():
                        if not v or g.op != "ge0":
                            continue
                        cg, dg = lin_of(g.a[0])
                        if dg.get(x) == 1:
                            # counter - n >= 0, and every round had counter < n
                            n = sub(lv, g.a[0])
                            if self.mentions(n, L.id):
                                continue
                            if L.backs and all(b.facts.truth(mk_lt(lv, n)) is True for b in L.backs):
                                return mk("adt", "core::ops::range::Range", "Range", ("start", "end"), (sub(lv, x), n))
        return None

    def mentions(self, t, lid):
        for x in subterms(t):
            if x.op in ("lv", "ind", "itv") and str(x.a[0]).split("?")[0] == lid:
                return True
            if x.op in ("elem", "more") and re.split(r"[^0-9]", str(x.a[1]))[0] == lid:
                return True
            if x.op == "pos" and re.split(r"[^0-9]", str(x.a[0]))[0] == lid:
                return True
        return False

    def strip_src(self, src):
        """underlying sequence of an adapted iterator whose closures were applied to the elements already"""
        rev = False
        while True:
            if src.op == "it" and src.a[0] in ("map", "filter", "enumerate", "inspect", "filter_map"):
                src = src.a[1]
            elif src.op == "it" and src.a[0] == "rev" and not rev:
                src = src.a[1]
                rev = True
            else:
                break
        if src.op == "adt" and src.a[0] == "core::ops::range::Range" and src.a[3][0] is INT0 \
                and src.a[3][1].op == "call" and src.a[3][1].a[0] == "len":
            src = src.a[3][1].a[1]
        if src.op in ("itv", "adv", "lv"):
            return None, rev
        return src, rev

    def closed_form(self, L, lv, init, steps, src):
        base, rev = self.strip_src(src)
        if base is None or not steps:
            return None
        full = src
        cases, skips, kind = [], [], None
        for v, f in steps:
            if v is lv:
                skips.append(f)
                continue
            if v.op not in ("push", "ins") or v.a[0] is not lv or len(v.a) > 3:
                return None
            k = v.op + str(len(v.a))
            if kind not in (None, k):
                return None
            kind = k
            body = v.a[1] if len(v.a) == 2 else mk("tuple", v.a[1:])
            cond = []
            for g, b in f.d.items():
                if g.op == "more" and g.a[1] == L.id or L.head_facts.truth(g) is b:
                    continue
                if self.mentions(g, L.id):
                    if g.op == "ge0" and self.range_fact(g, L.id, full, base):
                        continue
                    cond.append((g, b))
            for t, dom in f.dom.items():
                if not self.mentions(t, L.id):
                    continue
                if len(dom) == 1:
                    cond.append((mk_isv(t, next(iter(dom))), True))
                    continue
                if t not in self.allv:
                    return None
                cond += [(mk_isv(t, n), False) for n in self.allv[t] if n not in dom]
            cases.append((cond, body))
        if not cases:
            return None
        for i, (cond, body) in enumerate(cases):
            for f in skips:
                g = f
                for a, b in cond:
                    g = g.assume(a, b) if g is not None else None
                if g is not None:
                    return None
        filt = any(x.op == "it" and x.a[0] in ("filter", "filter_map") for x in subterms(full))
        if not skips and len(cases) == 1 and not filt:
            cases = [((), cases[0][1])]
        depth = 0
        for _, b in cases:
            for x in subterms(b):
                if x.op == "coll":
                    depth = max(depth, x.a[0] + 1)
        dot = "\u2022%d" % depth
        m = {}
        n = self.seqlen(base) if rev else None
        if rev and n is None:
            return None
        tgt = mk("ind", dot, INT0)
        out = []
        memo = {}

        def canon(t):
            for x in subterms(t):
                if x in m:
                    continue
                if x.op == "ind" and x.a[0] == L.id:
                    if x.a[1] is not INT0:
                        return None
                    m[x] = sub(sub(n, INT1), tgt) if rev else tgt
                elif x.op == "elem" and x.a[1] == L.id:
                    m[x] = mk("elem", x.a[0], dot) if not rev else mk_idx(x.a[0], sub(sub(n, INT1), tgt))
            r = subst(t, m)
            return None if self.mentions(r, L.id) else r
        for cond, body in cases:
            body = canon(body)
            if body is None:
                return None
            cs = []
            for a, b in cond:
                a = canon(a)
                if a is None:
                    return None
                cs.append((a, b) if not (a.op == "not") else (a.a[0], not b))
            cs.sort(key=lambda p: p[0].n)
            out.append((mk("conj", tuple(mk("tuple", (a, INT1 if b else INT0)) for a, b in cs)), body))
        out.sort(key=lambda p: (p[0].n, p[1].n))
        c = None
        if len(out) == 1 and not out[0][0].a[0]:
            b = out[0][1]
            if b is mk("elem", base, dot) and base.op not in ("it", "adt"):
                c = base
            elif kind == "ins3" and base.op not in ("it", "adt") and b.op == "tuple" and b.a[0] == tuple(
                    mk("field", mk("elem", base, dot), str(j)) for j in range(2)):
                c = base
        if c is None and not rev and base.op == "it" and base.a[0] == "chain":
            c = self.in_turn(base, out, dot, depth)
        if c is None and len(out) == 1 and not out[0][0].a[0] and base.op == "adt" and base.a[0] == "core::ops::range::Range" \
                and all(x.op == "int" for x in base.a[3]) and 0 <= base.a[3][1].a[0] - base.a[3][0].a[0] <= 4:
            # a handful of known positions
            c = mk("arr", tuple(subst(out[0][1], {mk("ind", dot, INT0): Int(i), mk("elem", base, dot): Int(base.a[3][0].a[0] + i)})
                                for i in range(base.a[3][1].a[0] - base.a[3][0].a[0])))
        if c is None:
            c = mk("coll", depth, base, tuple(mk("tuple", p) for p in out))
        if rev:
            c = mk("reversed", c)
        if init is EMPTY_BTREE:
            return mk("call", "ordered", c)
        return c if init is EMPTY or init.op == "empty" else mk("append", init, c)

    def in_turn(self, base, out, dot, depth):
        """what going through one source after the other collects, one part per source"""
        parts = []

        def split(x):
            if x.op == "it" and x.a[0] == "chain":
                split(x.a[1])
                split(x.a[2])
            else:
                parts.append(x)
        split(base)
        whole = mk("elem", base, dot)
        if any(x.op == "ind" and x.a[0] == dot for p in out for t in p for x in subterms(t)):
            return None
        c = EMPTY
        for x in parts:
            if x.op in ("it", "adt", "ptr"):
                return None
            if x.op == "arr":
                if len(out) != 1 or out[0][0].a[0]:
                    return None
                p = mk("arr", tuple(subst(out[0][1], {whole: e}) for e in x.a[0]))
            else:
                el = mk("elem", x, dot)
                q = [tuple(subst(t, {whole: el}) for t in pr) for pr in out]
                if len(q) == 1 and not q[0][0].a[0] and q[0][1] is el:
                    p = x
                else:
                    p = mk("coll", depth, x, tuple(mk("tuple", pr) for pr in q))
            c = p if c is EMPTY else mk("append", c, p)
        return c

    def range_fact(self, g, lid, full, base):
        """a bound on the position that merely says that the loop has not run out"""
        return all(x.op in ("ind", "lin", "int", "call", "arg", "field", "as", "slice") or not self.mentions(x, lid) for x in subterms(g)) \
            and any(x.op == "ind" for x in subterms(g))

    def adv_base(self, v, init):
        n = 0
        while v.op == "adv":
            v = v.a[0]
            n += 1
        return n > 0 and v is init

    def lvkey(self, fr, k):
        root, steps = k
        if root.op == "L" and root.a[0] == fr.id:
            nm = fr.fn.locals[root.a[1]]["n"] or ("_%d" % root.a[1])
            base = mk("loc", fr.id, nm, root.a[1])
        else:
            base = root
        return mk("lk", base, tuple(steps))

    def diff(self, root, steps, a, b, out):
        if a is b:
            return
        if a.op == "adt" and b.op == "adt" and a.a[:3] == b.a[:3]:
            for nm, x, y in zip(a.a[2], a.a[3], b.a[3]):
                if x is not y:
                    self.diff(root, steps + (("f", nm),), x, y, out)
            return
        if a.op == "tuple" and b.op == "tuple" and len(a.a[0]) == len(b.a[0]):
            for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
                if x is not y:
                    self.diff(root, steps + (("f", str(i)),), x, y, out)
            return
        # functional updates over the same base, on fields only
        ua, ub = {}, {}
        x = a
        while x.op == "upd" and x.a[1][0] == "f":
            ua.setdefault(x.a[1], x.a[2])
            x = x.a[0]
        y = b
        while y.op == "upd" and y.a[1][0] == "f":
            ub.setdefault(y.a[1], y.a[2])
            y = y.a[0]
        if x is y and (ua or ub):
            for s in set(ua) | set(ub):
                p = ua.get(s) or self.proj(x, s)
                q = ub.get(s) or self.proj(x, s)
                if p is not q:
                    self.diff(root, steps + (s,), p, q, out)
            return
        old = out.get((root, steps))
        out[(root, steps)] = b

    # ------------------------------------------------------------ blocks
    def block(self, fr, bi, st, outs, start=0):
        b = fr.fn.blocks[bi]
        for n, s in enumerate(b["s"]):
            if n < start:
                continue
            if s["k"] == "as":
                rv = s["rv"]
                if rv["k"] == "cast" and rv["ck"].startswith("IntToInt") and rv["sty"].get("s") == "bool":
                    # a truth value used as a number: each case on its own
                    vs = self.bool_num(st, self.operand(fr, st, rv["o"]))
                    if vs is not None:
                        res = []
                        for v, s2 in vs:
                            self.write_place(fr, s2, s["pl"], v, s.get("sp"))
                            res += self.block(fr, bi, s2, outs, n + 1)
                        return res
                if rv["k"] == "use" and rv["o"]["k"] == "cp" and not s["pl"]["p"] and rv["o"]["pl"]["p"] and \
                        fr.fn.locals[s["pl"]["l"]]["ty"].get("p") == "alloc::boxed::Box":
                    # a copied box only serves to reach its contents: keep the place
                    m, r, ss = self.resolve_place(fr, st, rv["o"]["pl"])
                    if m == "loc":
                        v = self.load(st, r, ss)
                        v = v if v.op == "ptr" else mk("ptr", r, tuple(ss))
                        st.mem[mk("L", fr.id, s["pl"]["l"])] = v
                        continue
                v = self.rvalue(fr, st, rv)
                self.write_place(fr, st, s["pl"], v, s.get("sp"))
        t = b["t"]
        k = t["k"]
        if k == "goto" or k == "drop":
            return [(t["t"], st)]
        if k == "ret":
            v = st.mem.get(mk("L", fr.id, 0), UNIT)
            outs.append(Out("ret", v, st, None))
            return []
        if k in ("unreach", "unwind"):
            return []
        if k == "assert":
            return self.do_assert(fr, t, st)
        if k == "switch":
            return self.do_switch(fr, t, st)
        if k == "call":
            return self.do_call(fr, bi, t, st, outs)
        raise Exception("terminator " + str(t))

    def bool_num(self, st, c):
        if c.op in ("int", "choice"):
            return None
        res = []
        for v in (True, False):
            f = st.facts.assume(c, v)
            if f is not None:
                s2 = st.copy()
                s2.facts = f
                res.append((Int(int(v)), s2))
        return res

    def conv_outs(self, st, v, src, dst):
        if isinstance(src, dict) and isinstance(dst, dict) and src.get("k") == "prim" and src.get("s") == "bool" and dst.get("k") == "prim" and dst.get("s") != "bool":
            vs = self.bool_num(st, self.fully(st, v))
            if vs is not None:
                return [Out("ret", x, s) for x, s in vs]
        return [Out("ret", self.conv(st, v, src, dst), st)]

    def chk(self, e):
        self.chks.append(e)
        return e

    def do_assert(self, fr, t, st):
        m = t["m"]
        c = self.operand(fr, st, t["c"])
        if m["k"] == "bounds":
            ln = self.operand(fr, st, m["len"])
            ix = self.operand(fr, st, m["idx"])
            cond = mk_lt(ix, ln)
            tr = st.facts.truth(cond)
            st.ev = self.chk(Ev("chk", "bounds", (ix, ln), st.facts, None, fr.fn.path, t.get("sp"), st.ev))
            f = st.facts.assume(cond, True)
            if f is None:
                return []
            st.facts = f
        elif m["k"] == "overflow":
            a = self.operand(fr, st, m["a"])
            bb = self.operand(fr, st, m["b"])
            st.ev = self.chk(Ev("chk", "overflow" + m["op"], (a, bb), st.facts, None, fr.fn.path, t.get("sp"), st.ev))
            if m["op"] == "Sub":
                f = st.facts.assume(mk_le(bb, a), True)
                if f is None:
                    return []
                st.facts = f
        else:
            st.ev = self.chk(Ev("chk", "assert", (c,), st.facts, None, fr.fn.path, t.get("sp"), st.ev))
            f = st.facts.assume(as_bool(c), bool(t["e"]))
            if f is None:
                return []
            st.facts = f
        return [(t["t"], st)]

    def do_switch(self, fr, t, st):
        v = self.operand(fr, st, t["d"])
        dty = t["dty"]
        res = []
        if v.op == "disc":
            x = v.a[0]
            # type of the scrutinee: find from the defining assignment (stored alongside)
            vs = self.disc_variants(fr, t)
            if vs is None:
                return self.switch_int(fr, t, st, v)
            names = {d: n for d, n in vs}
            xb = self.base_enum(x)
            self.allv[xb] = [n for _, n in vs]
            known = None
            if xb.op == "adt":
                known = xb.a[1]
            dom = st.facts.dom.get(xb)
            listed = set()
            for val, tgt in t["t"]:
                nm = names.get(val)
                listed.add(nm)
                if nm is None:
                    continue
                if known is not None:
                    if known == nm:
                        res.append((tgt, st))
                    continue
                f = self.assume_variant(st.facts, xb, nm, [n for _, n in vs])
                if f is not None:
                    s2 = st.copy()
                    s2.facts = f
                    res.append((tgt, s2))
            rest = [n for _, n in vs if n not in listed]
            if rest:
                if known is not None:
                    if known in rest:
                        res.append((t["else"], st))
                else:
                    if len(rest) == 1:
                        f = self.assume_variant(st.facts, xb, rest[0], [n for _, n in vs])
                    else:
                        f = st.facts
                        if xb.op == "call" and xb.a[0] == "cmp":
                            for n in listed:
                                if n and f is not None:
                                    f = f.assume(mk_isv(xb, n), False)
                        else:
                            f = f.set_dom(xb, rest)
                    if f is not None:
                        s2 = st.copy()
                        s2.facts = f
                        res.append((t["else"], s2))
            return res
        return self.switch_int(fr, t, st, v)

    def base_enum(self, x):
        # in-place payload updates do not change the variant
        while x.op == "upd" and x.a[1][0] == "v":
            x = x.a[0]
        return x

    def assume_variant(self, facts, x, nm, allv):
        if x.op == "call" and x.a[0] == "cmp":
            return facts.assume(mk_isv(x, nm), True)
        return facts.set_dom(x, [nm])

    def disc_variants(self, fr, t):
        # the switch operand is a local assigned `disc` in this or a previous block
        o = t["d"]
        if o["k"] not in ("cp", "mv") or o["pl"]["p"]:
            return None
        l = o["pl"]["l"]
        cache = getattr(fr.fn, "_cfg")
        dv = getattr(cache, "discv", None)
        if dv is None:
            dv = {}
            for b in fr.fn.blocks:
                for s in b["s"]:
                    if s["k"] == "as" and s["rv"]["k"] == "disc" and not s["pl"]["p"]:
                        dv[s["pl"]["l"]] = s["rv"]["ty"]
            cache.discv = dv
        ty = dv.get(l)
        if ty is None:
            return None
        return self.db.enum_variants(ty)

    def switch_int(self, fr, t, st, v):
        res = []
        isb = t["dty"].get("s") == "bool"
        if isb:
            c = as_bool(v)
            tt = None
            ff = None
            for val, tgt in t["t"]:
                if int(val) == 0:
                    ff = tgt
                else:
                    tt = tgt
            if tt is None:
                tt = t["else"]
            if ff is None:
                ff = t["else"]
            for want, tgt in ((True, tt), (False, ff)):
                f = st.facts.assume(c, want)
                if f is not None:
                    s2 = st.copy()
                    s2.facts = f
                    res.append((tgt, s2))
            return res
        f = st.facts
        if v.op == "int":
            for val, tgt in t["t"]:
                if int(val) == v.a[0]:
                    return [(tgt, st)]
            return [(t["else"], st)]
        for val, tgt in t["t"]:
            if f is None:
                break
            e = mk_eq(v, Int(int(val)))
            g = f.assume(e, True)
            if g is not None:
                s2 = st.copy()
                s2.facts = g
                res.append((tgt, s2))
            f = f.assume(e, False)
        if f is not None:
            s2 = st.copy()
            s2.facts = f
            res.append((t["else"], s2))
        return res

    # ------------------------------------------------------------ calls
    def do_call(self, fr, bi, t, st, outs):
        self.callsites += 1
        f = t["f"]
        fv = self.operand(fr, st, f)
        args = [self.operand(fr, st, a) for a in t["a"]]
        dstty = None
        if not t["dst"]["p"]:
            dstty = self.tysub(fr, fr.fn.locals[t["dst"]["l"]]["ty"])
        rs = self.invoke(fr, fv, args, st, t.get("sp"), t.get("at"), dstty, t["t"] is None)
        nxt = []
        for o in rs:
            if o.kind == "ret":
                if t["t"] is None:
                    outs.append(Out("panic", None, o.st, ("call", self.callee_name(fv), t.get("sp"), fr.fn.path)))
                    continue
                self.write_place(fr, o.st, t["dst"], o.val, t.get("sp"))
                nxt.append((t["t"], o.st))
            else:
                outs.append(o)
        return nxt

    def callee_name(self, fv):
        if fv.op == "fn":
            return fv.a[0]
        return show(fv)

    def invoke(self, fr, fv, args, st, sp, at=None, dstty=None, diverges=False):
        """-> list of Out"""
        if fv.op == "clo":
            return self.call_closure(fr, fv, args, st)
        if fv.op == "ident":
            return [Out("ret", self.fully(st, args[0]) if args[0].op == "ptr" else args[0], st)]
        if fv.op == "ptr":
            return self.invoke(fr, self.fully(st, fv), args, st, sp, at, dstty, diverges)
        if fv.op != "fn":
            return self.opaque_call(fr, "ptrcall:" + show(fv), args, st, sp)
        c = fv.a[1].c
        return self.call_callee(fr, c, args, st, sp, at, dstty, diverges)

    def call_closure(self, fr, clo, args, st):
        fn = self.db.fns.get(clo.a[0])
        if fn is None or fn.id in fr.stack and fr.stack.count(fn.id) > 1 or fr.depth > self.max_depth:
            return self.opaque_call(fr, "closure:" + clo.a[0], args, st, None)
        subst = dict(fr.subst)
        par = self.db.fns.get(fn.parent)
        return self.call_fn(fn, [clo] + list(args), st, subst, fr.depth + 1, fr.stack)

    def find_impl(self, trait, name, selfty, ita=None):
        """local impl of trait method for a concrete self type"""
        if not isinstance(selfty, dict):
            return None
        while selfty.get("k") == "ref":
            selfty = selfty["t"]
        cands = self.db.trait_impl.get((trait, name), [])
        r = []
        for fn in cands:
            t = fn.impl_self_ty
            if t and t.get("k") == selfty.get("k") == "adt" and t["id"] == selfty["id"]:
                r.append(fn)
            elif t and t.get("k") == selfty.get("k") == "array" and t.get("n") == selfty.get("n"):
                r.append(fn)
            elif t and t.get("k") == selfty.get("k") and t.get("k") in ("prim",) and t.get("s") == selfty.get("s"):
                r.append(fn)
        if ita is not None and len(r) > 1:
            r2 = [fn for fn in r if fn.ita and tykey(fn.ita[0]) == tykey(ita)]
            if r2:
                r = r2
        if len(r) == 1:
            return r[0]
        return None

    def call_callee(self, fr, c, args, st, sp, at, dstty, diverges):
        p = c["p"]
        np = strip_generics(p)
        if "ctor" in c:
            adt, v = c["ctor"]
            names = tuple(str(i) for i in range(len(args)))
            return [Out("ret", mk("adt", adt, v, names, tuple(args)), st)]
        # Fn traits
        if np in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
                  "core::ops::function::Fn::call"):
            f = self.fully(st, args[0])
            tup = args[1]
            aa = list(tup.a[0]) if tup.op == "tuple" else [tup]
            if f.op == "clo" or f.op == "fn":
                return self.invoke(fr, f, aa, st, sp, None, dstty)
            return self.opaque_call(fr, "apply", [f] + aa, st, sp)
        r = c.get("r")
        target = None
        if r and r["id"] in self.db.fns and r.get("kind", "Item") == "Item":
            target = self.db.fns[r["id"]]
        elif c["id"] in self.db.fns:
            target = self.db.fns[c["id"]]
        ga = (r or c).get("ga", [])
        # trait call on a (now) concrete self type
        if c.get("trait") and (target is None or target.trait):
            selfty = c["ga"][0] if c["ga"] else None
            ita = c["ga"][1] if len(c["ga"]) > 1 else None
            im = self.find_impl(c["trait"], c["name"], selfty, ita)
            if im is not None:
                target = im
                ga = selfty.get("a", []) if selfty.get("k") == "adt" else []
            elif target is not None and target.trait:
                # default body of a workspace trait: generic params = [Self, ...]
                ga = c["ga"]
        # Into/TryInto through local From/TryFrom
        if np in ("core::convert::Into::into", "core::convert::TryInto::try_into") and len(c["ga"]) >= 2:
            src, dst = c["ga"][0], c["ga"][1]
            tr, nm = ("core::convert::From", "from") if np.endswith("::into") else ("core::convert::TryFrom", "try_from")
            im = self.find_from(tr, nm, dst, src)
            if im is not None:
                target, ga = im, []
            elif np.endswith("::into"):
                return self.conv_outs(st, args[0], src, dst)
            else:
                v = self.fully(st, args[0])
                R = mk("call", "try_into", v)
                return [Out("ret", R, st)]
        if np == "core::convert::TryFrom::try_from" and target is None:
            return [Out("ret", mk("call", "try_into", self.fully(st, args[0])), st)]
        if np == "core::convert::From::from" and target is None:
            return self.conv_outs(st, args[0], c["ga"][1] if len(c["ga"]) > 1 else None, c["ga"][0])
        if "SimpleHasher::" in np and c.get("trait", "").endswith("SimpleHasher") and np.split("::")[-1] != "hash":
            h = self.hash_native(fr, np, c, args, st, at)
            if h is not None:
                return [Out("ret", h, st)]
        if target is not None:
            h = self.local_special(fr, target, c, args, st, sp)
            if h is not None:
                return h
            if self.can_inline(fr, target):
                subst = {}
                if len(target.gp) == len(ga):
                    subst = dict(zip(target.gp, ga))
                elif target.impl_self_ty and target.impl_self_ty.get("k") == "adt" and ga:
                    for pt, a in zip(target.impl_self_ty["a"], ga):
                        if pt.get("k") == "param":
                            subst[pt["s"]] = a
                return self.call_fn(target, args, st, subst, fr.depth + 1, fr.stack)
            if self.pure_next and target.impl_trait == "core::iter::traits::iterator::Iterator" and target.name == "next" and args[0].op == "ptr":
                return self.iter_next(fr, args[0], self.rd(st, args[0]), st, sp)
            return self.opaque_call(fr, target.path, args, st, sp, fn=target, at=at)
        n = self.native(fr, np, c, args, st, sp, at, dstty)
        if n is not None:
            return n
        if self.whole_picks and np.startswith(IT):
            r = self.whole_pick(fr, np[len(IT):], args, st, sp)
            if r is not None:
                return r
        if np.startswith("rlp::stream::RlpStream::") and args and args[0].op == "ptr" and at and tykey(dstty) == tykey(at[0]) \
                and dstty.get("m"):
            # a builder method hands back the builder it was called on
            return [Out("ret", args[0], o.st) if o.kind == "ret" else o for o in self.opaque_call(fr, np, args, st, sp, at=at)]
        m = self.model_for(np, c, dstty, [self.fully(st, x) for x in args])
        if m is not None:
            mf = self.db.models[m]
            if m in ("iter_collect_flat", "extend_flat"):
                v = self.fully(st, args[-1])
                args = list(args[:-1]) + [v.a[1], v.a[2]]
            return self.call_fn(mf, args, st, {}, fr.depth + 1, fr.stack)
        rs = self.opaque_call(fr, np, args, st, sp, at=at)
        if np.startswith(("borsh::", "serde_core::")):
            # the type that is read or written
            ty = self.tysub(fr, at[0]) if np.endswith("::serialize") and at else dstty
            for o in rs:
                if o.kind == "ret" and o.st.ev is not None and o.st.ev.res is o.val:
                    o.st.ev.ty = tykey(ty)
        return rs

    def conv(self, st, v, src, dst):
        v = self.fully(st, v)
        if isinstance(src, dict) and isinstance(dst, dict):
            if src.get("k") == "prim" and dst.get("k") == "prim":
                return v
            if tykey(src) == tykey(dst):
                return v
            if dst.get("k") == "array" and src.get("k") == "adt" and src["p"].endswith("GenericArray"):
                return v
            if dst.get("k") == "adt" and dst["p"] == OPT:
                return Some(v)
            if dst.get("k") == "adt" and dst["p"] in ("alloc::vec::Vec", "alloc::boxed::Box", "alloc::string::String",
                                                     "alloc::rcs::arc::Arc", "alloc::sync::Arc"):
                return v
            if dst.get("k") == "adt" and dst["p"] == "anyhow::Error":
                return mk("call", "anyerr", v)
            return mk("call", "from:" + tykey(dst), v)
        return mk("call", "from", v)

    def find_from(self, tr, nm, dst, src):
        cands = self.db.trait_impl.get((tr, nm), [])
        for fn in cands:
            if fn.impl_self_ty and tykey(fn.impl_self_ty) == tykey(dst) and fn.ita and tykey(fn.ita[0]) == tykey(src):
                return fn
        return None

    def can_inline(self, fr, fn):
        if fn.id in fr.stack:
            return False
        if fr.depth >= self.max_depth:
            self.notes.append("depth limit at " + fn.path)
            return False
        if self.inline_only is not None:
            return self.inline_only(fn)
        return not self.opaque(fn)

    def local_special(self, fr, fn, c, args, st, sp):
        tr = fn.impl_trait
        if fn.derived:
            a = [self.fully(st, x) for x in args]
            if tr == "core::clone::Clone":
                return [Out("ret", a[0], st)]
            if tr == "core::cmp::PartialEq":
                e = mk_eq(a[0], a[1])
                return [Out("ret", e if fn.name == "eq" else mk_not(e), st)]
            if tr == "core::cmp::Ord" and fn.name == "cmp":
                return [Out("ret", mk("call", "cmp", a[0], a[1]), st)]
            if tr == "core::cmp::PartialOrd" and fn.name == "partial_cmp":
                return [Out("ret", Some(mk("call", "cmp", a[0], a[1])), st)]
            if tr in ("core::fmt::Debug", "core::hash::Hash"):
                return [Out("ret", mk("call", "fmt", *a), st)]
        if tr in ("core::fmt::Debug", "core::fmt::Display", "core::fmt::LowerHex"):
            return [Out("ret", mk("call", "fmt"), st)]
        return None

    # ------------------------------------------------------------ opaque
    def opaque_call(self, fr, name, args, st, sp, fn=None, at=None, pure=None):
        vals = []
        ptrs = []
        for i, a in enumerate(args):
            if a.op == "ptr":
                v = self.load(st, a.a[0], a.a[1])
                ptrs.append((i, a))
            else:
                v = a
                r = mk("obj", a)
                if r in st.mem:
                    v = st.mem[r]
            vals.append(self.canon_val(fr, st, v))
        if fn is not None and fn.id in getattr(self.opaque, "dropself", ()) and not ptrs:
            # a function of its other arguments only (the rule that sets this decides that)
            vals = [v for v, l in zip(vals, fn.locals[1:]) if l["n"] != "self"]
        if fn is not None and fn.crate == "serde_hash" and vals:
            # the 32-byte hash type: byte views and equality (decided by rules/hashes.py)
            if fn.impl_trait == "core::cmp::PartialEq" and fn.name in ("eq", "ne") and len(vals) == 2:
                e = mk_eq(vals[0], vals[1])
                return [Out("ret", e if fn.name == "eq" else mk_not(e), st)]
            if len(vals) == 1 and fn.name in ("as_bytes", "as_fixed_bytes", "to_fixed_bytes", "as_ref", "into_bytes"):
                return [Out("ret", mk("field", vals[0], "0"), st)]
        R = mk("call", name, *vals)
        # &mut arguments behind opaque references (no location): still an effect on that object
        if at:
            for i, a in enumerate(args):
                if a.op != "ptr" and i < len(at) and isinstance(at[i], dict) and at[i].get("k") == "ref" and at[i]["m"]:
                    ptrs.append((i, mk("ptr", mk("obj", a), ())))
        if not name.startswith(QUIET_PREFIX):
            st.ev = Ev("call", name, tuple(vals), st.facts, R, fr.fn.path, sp, st.ev,
                       tuple((i, p) for i, p in ptrs))
            for i, p in ptrs:
                self.store(st, p.a[0], p.a[1], mk("eff", name, i, *vals))
            # closures with captured &mut locations escape to unknown code
            for a in args:
                if a.op == "clo":
                    for cv in a.a[1]:
                        if cv.op == "ptr":
                            self.store(st, cv.a[0], cv.a[1], mk("eff", name + "^", 0, *vals))
        return [Out("ret", R, st)]

    def canon_val(self, fr, st, v):
        """closures inside opaque arguments become canonical lambda summaries"""
        if v.op == "clo":
            return self.lam(fr, st, v)
        if v.op == "it" and any(isinstance(x, T) and x.op in ("clo", "it", "ptr") for x in v.a):
            return mk("it", *[self.canon_val(fr, st, x) if isinstance(x, T) else x for x in v.a])
        if v.op == "ptr":
            return self.load(st, v.a[0], v.a[1])
        return v

    def lam(self, fr, st, clo):
        fn = self.db.fns.get(clo.a[0])
        if fn is None or fr.depth > self.max_depth - 2 or self.lam_depth > 3:
            return mk("lam", "?" + clo.a[0])
        self.lam_depth += 1
        try:
            bvs = [mk("bv", self.lam_depth, i) for i in range(fn.argc - 1)]
            # closure args arrive as separate locals
            base = Facts(st.facts.d, st.facts.dom)
            outs = self.call_fn(fn, [clo] + bvs, State(dict(st.mem), base, None), dict(fr.subst), fr.depth + 1, fr.stack)
            vals = {o: self.canon_val(fr, o.st, o.val) if o.kind == "ret" and o.val.op == "it" else o.val for o in outs}
        finally:
            self.lam_depth -= 1
        cases = []
        for o in outs:
            fs = []
            for k, v in o.facts.d.items():
                if st.facts.d.get(k) is not v:
                    fs.append(k if v else mk_not(k) if k.op != "not" else k)
            for k, v in o.facts.dom.items():
                if st.facts.dom.get(k) != v:
                    fs.append(mk("dom", k, tuple(sorted(v))))
            fs.sort(key=lambda x: x.n)
            v = vals[o]
            cases.append(mk("case", tuple(fs), v if o.kind == "ret" else mk("panic")))
        if len(cases) == 1:
            return mk("lam", cases[0].a[1])
        cases.sort(key=lambda x: x.n)
        return mk("lam", mk("cases", tuple(cases)))

    def model_for(self, np, c, dstty, args=None):
        m = MODEL.get(np)
        if m:
            return m
        if self.folds and np.startswith(IT) and np[len(IT):] in ("max_by_key", "min_by_key", "max", "min", "last") and not (
                np == IT + "max" and args and args[0].op == "it" and args[0].a[0] == "flat_map"):
            return "iter_" + np[len(IT):]
        if np.endswith("Set::difference") and np[:-12] in COLL:
            return "set_difference"
        if np.endswith("Set::intersection") and np[:-14] in COLL:
            return "set_intersection"
        dp = dstty.get("p") if isinstance(dstty, dict) and dstty.get("k") == "adt" else None
        if np in (IT + "try_for_each", IT + "try_fold"):
            return {RES: "iter_", OPT: "iter_"}[dp] + np[len(IT):] + ("_opt" if dp == OPT else "") if dp in (RES, OPT) else None
        if np == IT + "sum":
            i = dstty["a"][0] if dp in (RES, OPT) else dstty
            if isinstance(i, dict) and i.get("k") == "prim" and i.get("s") == "usize":
                return "iter_sum" + {RES: "_res", OPT: "_opt"}.get(dp, "")
        if np in (IT + "collect", ) and isinstance(dstty, dict) and dstty.get("k") == "adt":
            if dstty["p"] == "alloc::vec::Vec":
                if args and args[0].op == "it" and args[0].a[0] == "flat_map":
                    return "iter_collect_flat"
                return "iter_collect_vec"
            if dstty["p"] == RES and dstty["a"] and dstty["a"][0].get("p") == "alloc::vec::Vec":
                return "iter_collect_result_vec"
            if dstty["p"] == RES and dstty["a"] and dstty["a"][0].get("k") == "tuple" and not dstty["a"][0].get("a", dstty["a"][0].get("t")):
                return "iter_collect_result_unit"
            if dstty["p"] == OPT and dstty["a"] and dstty["a"][0].get("p") == "alloc::vec::Vec":
                return "iter_collect_option_vec"
            if dstty["p"] in COLL and dstty["p"].endswith("Set"):
                return "iter_collect_set"
            if dstty["p"] in COLL and dstty["p"].endswith("Map"):
                return "iter_collect_btree" if "btree" in dstty["p"] else "iter_collect_map"
        if np == IT + "unzip":
            return "iter_unzip"
        if np == IT + "partition":
            return "iter_partition"
        if np.endswith("::retain") and np[:-8] in COLL and not np[:-8].endswith("Map"):
            return "retain_set" if np[:-8].endswith("Set") else "retain_vec"
        if np == "core::iter::traits::collect::Extend::extend" and args and c["ga"] and isinstance(c["ga"][0], dict):
            b = args[1]
            p = c["ga"][0].get("p")
            if p == "alloc::vec::Vec" and b.op == "it" and b.a[0] == "flat_map":
                return "extend_flat"
            if p in COLL and b.op == "it":
                return "extend_set" if p.endswith("Set") else "extend_map" if p.endswith("Map") else "extend_vec"
        if np in ("anyhow::Context::with_context", "anyhow::Context::context"):
            s = c["ga"][0] if c["ga"] else {}
            nm = np.split("::")[-1]
            if s.get("k") == "adt":
                if s["p"] == OPT:
                    return "option_" + nm
                if s["p"] == RES:
                    return "result_" + nm
        return None

    # ------------------------------------------------------------ natives
    def mutev(self, fr, st, op, ptr, args, sp, res=None):
        """record a mutation of a container"""
        if ptr.op == "ptr":
            loc = mk("locof", ptr.a[0], ptr.a[1])
        else:
            loc = mk("locof", mk("obj", ptr), ())
        st.ev = Ev("mut", op, (loc,) + tuple(args), st.facts, res, fr.fn.path, sp, st.ev)

    def rd(self, st, p):
        if p.op == "ptr":
            return self.load(st, p.a[0], p.a[1])
        r = mk("obj", p)
        if r in st.mem:
            return st.mem[r]
        return p

    def wr(self, st, p, v):
        if p.op == "ptr":
            self.store(st, p.a[0], p.a[1], v)
        else:
            st.mem[mk("obj", p)] = v

    def native(self, fr, np, c, args, st, sp, at, dstty):
        ret = lambda v: [Out("ret", v, st)]
        if np in IDENT:
            return ret(self.fully(st, args[0]))
        if np == "core::iter::sources::once::once":
            return ret(mk("arr", (args[0],)))
        if np == "core::iter::sources::empty::empty":
            return ret(EMPTY)
        if np == "core::iter::traits::collect::IntoIterator::into_iter":
            v = args[0]
            if v.op == "ptr":
                inner = self.load(st, v.a[0], v.a[1])
                # &mut collection
                if at and isinstance(at[0], dict) and at[0].get("k") == "ref" and at[0]["m"] and not self.is_iter(inner):
                    return ret(mk("it", "iter_mut", v))
            return ret(v)
        if np in IDENT_MUT:
            v = args[0]
            if v.op == "ptr":
                inner = self.load(st, v.a[0], v.a[1])
                if at and isinstance(at[0], dict) and at[0].get("k") == "ref":
                    tt = at[0]["t"]
                    if isinstance(tt, dict) and tt.get("k") == "adt" and "RwLock" in tt["p"] or \
                            isinstance(tt, dict) and tt.get("k") == "adt" and "Mutex" in tt["p"]:
                        return ret(mk("ptr", mk("obj", inner), ()))
            return ret(v)
        if np.startswith("core::ops::try_trait::Try::branch"):
            t = c["ga"][0] if c.get("ga") else {}
            return self.try_branch(args[0], st, t.get("p") == OPT)
        if np.startswith("core::ops::try_trait::FromResidual::from_residual"):
            return self.from_residual(args[0], st, c)
        if np in ("anyhow::__private::not", "core::ops::bit::Not::not") and args:
            return ret(mk_not(self.fully(st, args[0])))
        if np in CMPN and c.get("ga") and c["ga"][0].get("p", "").startswith(("tracing_core::", "log::")):
            return ret(FALSE)                       # the level is not enabled: logging is taken to be off
        h = self.hash_native(fr, np, c, args, st, at)
        if h is not None:
            return ret(h)
        if np in NEW_EMPTY:
            return ret(EMPTY_BTREE if ".btree" in np.replace("::", ".") else EMPTY)
        if np == "core::default::Default::default":
            t = c["ga"][0] if c["ga"] else {}
            if t.get("k") == "prim":
                return ret(INT0)
            if t.get("k") == "adt":
                if t["p"] == OPT:
                    return ret(NONE)
                if t["p"] in COLL:
                    return ret(EMPTY)
                if t["p"] in ("alloc::rcs::arc::Arc", "alloc::boxed::Box"):
                    # a lock behind a shared pointer is a new lock around the default of what it guards
                    el = t["a"][0]
                    if el.get("k") == "adt" and el["p"].split("::")[-1] in ("RwLock", "Mutex") and el.get("a"):
                        im = self.find_impl("core::default::Default", "default", el["a"][-1]) if el["a"][-1].get("k") == "adt" else None
                        if im is not None and self.can_inline(fr, im):
                            outs = self.call_fn(im, [], st, {}, fr.depth + 1, fr.stack)
                            return [Out("ret", mk("call", "lock_new", o.val), o.st) for o in outs]
                    return ret(mk("call", "default:" + tykey(t), ))
                if t["p"] == "core::marker::PhantomData":
                    return ret(mk("adt", t["p"], "PhantomData", (), ()))
            if t.get("k") == "array":
                el = t["t"]
                if el.get("k") == "adt":
                    if el["p"] == OPT:
                        return ret(mk("repeat", NONE, t.get("n")))
                    while el.get("k") == "adt" and el["p"] == "alloc::boxed::Box":
                        el = el["a"][0]
                    im = self.find_impl("core::default::Default", "default", el)
                    if im is not None and self.can_inline(fr, im):
                        outs = self.call_fn(im, [], st, {}, fr.depth + 1, fr.stack)
                        return [Out("ret", mk("repeat", o.val, t.get("n")), o.st) for o in outs]
            return ret(mk("call", "default:" + tykey(t)))
        if np in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
            a, b = self.fully(st, args[0]), self.fully(st, args[1])
            e = mk_eq(a, b)
            return ret(e if np.endswith("eq") else mk_not(e))
        if np in CMPN:
            return ret(CMPN[np](self.fully(st, args[0]), self.fully(st, args[1])))
        if np == "core::cmp::Ord::cmp":
            return ret(mk("call", "cmp", self.fully(st, args[0]), self.fully(st, args[1])))
        if np == "core::cmp::PartialOrd::partial_cmp":
            return ret(Some(mk("call", "cmp", self.fully(st, args[0]), self.fully(st, args[1]))))
        if np in ("core::cmp::min", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::Ord::max"):
            a, b = self.fully(st, args[0]), self.fully(st, args[1])
            mx = np.endswith("max")
            f1 = st.facts.assume(mk_le(a, b), True)
            f2 = st.facts.assume(mk_le(a, b), False)
            r = []
            if f1 is not None:
                s = st.copy()
                s.facts = f1
                r.append(Out("ret", b if mx else a, s))
            if f2 is not None:
                s = st.copy()
                s.facts = f2
                r.append(Out("ret", a if mx else b, s))
            return r
        if np in ("core::cmp::Ordering::is_eq", "core::cmp::Ordering::is_lt", "core::cmp::Ordering::is_gt",
                  "core::cmp::Ordering::is_le", "core::cmp::Ordering::is_ge", "core::cmp::Ordering::is_ne"):
            x = args[0]
            k = np[-2:]
            d = {"eq": ("Equal", 1), "ne": ("Equal", 0), "lt": ("Less", 1), "gt": ("Greater", 1), "le": ("Greater", 0), "ge": ("Less", 0)}[k]
            e = mk_isv(x, d[0])
            return ret(e if d[1] else mk_not(e))
        if np in BINNAMES and len(args) == 2:
            a, b = self.fully(st, args[0]), self.fully(st, args[1])
            return ret(self.binop(BINNAMES[np], a, b))
        last = np.split("::")[-1]
        recv = "::".join(np.split("::")[:-1])
        if recv in COLL:
            r = self.coll(fr, recv, last, args, st, sp, at)
            if r is not None:
                return r
        if np == "core::iter::traits::collect::Extend::extend":
            a, b = self.rd(st, args[0]), self.fully(st, args[1])
            if b.op == "it":
                return None
            self.mutev(fr, st, "append", args[0], (b,), sp)
            self.wr(st, args[0], mk("append", a, b) if a.op != "empty" else b)
            return ret(UNIT)
        if np in ("core::mem::take", "core::mem::replace", "core::mem::swap"):
            p = args[0]
            old = self.rd(st, p)
            if last == "take":
                new = EMPTY
                ty = at[0]["t"] if at and isinstance(at[0], dict) and "t" in at[0] else {}
                if isinstance(ty, dict) and ty.get("k") == "adt" and ty["p"] == OPT:
                    new = NONE
                elif isinstance(ty, dict) and ty.get("k") == "prim":
                    new = INT0
                elif isinstance(ty, dict) and ty.get("k") == "adt" and ty["p"] not in COLL:
                    im = self.find_impl("core::default::Default", "default", ty)
                    if im is not None and self.can_inline(fr, im):
                        outs = self.call_fn(im, [], st, {}, fr.depth + 1, fr.stack)
                        if len(outs) == 1 and outs[0].kind == "ret":
                            new = outs[0].val
                            st = outs[0].st
                    else:
                        new = mk("call", "default:" + tykey(ty))
                self.mutev(fr, st, "take", p, (old,), sp)
                self.wr(st, p, new)
                return [Out("ret", old, st)]
            if last == "replace":
                self.mutev(fr, st, "replace", p, (args[1],), sp)
                self.wr(st, p, args[1])
                return ret(old)
            o2 = self.rd(st, args[1])
            self.wr(st, p, o2)
            self.wr(st, args[1], old)
            return ret(UNIT)
        if np in ("core::option::Option::take", "core::option::Option::replace", "core::option::Option::insert",
                  "core::option::Option::get_or_insert_with"):
            p = args[0]
            old = self.rd(st, p)
            if last == "take":
                self.wr(st, p, NONE)
                return ret(old)
            if last == "replace":
                self.wr(st, p, Some(args[1]))
                return ret(old)
            if last == "insert":
                self.wr(st, p, Some(args[1]))
                if p.op == "ptr":
                    return ret(mk("ptr", p.a[0], p.a[1] + (("v", "Some"), ("f", "0"))))
            return None
        if np == "core::option::Option::as_mut" or np == "core::option::Option::as_deref_mut":
            p = args[0]
            v = self.rd(st, p)
            res = []
            for nm in ("Some", "None"):
                f = self.assume_v(st.facts, v, nm)
                if f is None:
                    continue
                s = st.copy()
                s.facts = f
                if nm == "None":
                    res.append(Out("ret", NONE, s))
                elif p.op == "ptr":
                    res.append(Out("ret", Some(mk("ptr", p.a[0], p.a[1] + (("v", "Some"), ("f", "0")))), s))
                else:
                    res.append(Out("ret", Some(self.proj(self.proj(v, ("v", "Some")), ("f", "0"))), s))
            return res
        if np.startswith(IT) or np.startswith("core::iter::traits::double_ended::DoubleEndedIterator::"):
            r = self.iter_native(fr, last, c, args, st, sp, dstty)
            if r is not None:
                return r
        if np == "core::iter::traits::exact_size::ExactSizeIterator::len":
            return ret(self.length(self.fully(st, args[0])))
        if np == "core::ops::range::RangeInclusive::new":
            return ret(mk("adt", "core::ops::range::RangeInclusive", "RangeInclusive", ("start", "end"), (args[0], args[1])))
        if np == "core::ops::range::RangeInclusive::start":
            return ret(self.proj(self.fully(st, args[0]), ("f", "start")))
        if np == "core::ops::range::RangeInclusive::end":
            return ret(self.proj(self.fully(st, args[0]), ("f", "end")))
        if np == "core::ops::range::Range::is_empty":
            r = self.fully(st, args[0])
            lo, hi = self.proj(r, ("f", "start")), self.proj(r, ("f", "end"))
            return ret(mk_le(hi, lo))
        if last == "contains" and "core::ops::range::Range" in np:
            rg, x = self.fully(st, args[0]), self.fully(st, args[1])
            lo, hi = self.proj(rg, ("f", "start")), self.proj(rg, ("f", "end"))
            incl = rg.op == "adt" and "RangeInclusive" in rg.a[0]
            return ret(mk("and", mk_le(lo, x), mk_le(x, hi) if incl else mk_lt(x, hi)))
        if np in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut"):
            return self.index(fr, np.endswith("index_mut"), args, st, sp, at)
        if np.startswith("lock_api::rwlock::RwLock::") or np.startswith("lock_api::mutex::Mutex::") or \
           np.startswith("std::sync::") and last in ("read", "write", "lock", "try_read", "try_write", "try_lock"):
            lk = self.fully(st, args[0])
            if last in ("read", "write", "lock", "upgradable_read"):
                g = mk("guard", last, lk, next(self.site))
                st.ev = Ev("lock", last, (lk, g), st.facts, g, fr.fn.path, sp, st.ev)
                return ret(g)
            if last in ("try_read", "try_write", "try_lock"):
                g = mk("call", "lock:" + last, lk)
                st.ev = Ev("lock", last, (lk, g), st.facts, g, fr.fn.path, sp, st.ev)
                return ret(g)
            if last == "new":
                return ret(mk("call", "lock_new", args[0]))
        if "ntry::" in np and "map" in np or last == "entry" and "Map" in np:
            r = self.map_entry(fr, np, last, args, st, sp, dstty)
            if r is not None:
                return r
        if np in ("core::slice::<impl [T]>::contains",):
            return ret(mk("call", "contains", self.fully(st, args[0]), self.fully(st, args[1])))
        if np == "alloc::boxed::Box::new_uninit":
            return ret(mk("uninit", next(self.site)))
        if np in ("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::assume_init"):
            v = self.fully(st, args[0])
            # Box<MaybeUninit<[T;N]>> written through its pointer
            while True:
                if v.op == "upd" and v.a[1][0] == "f" and v.a[0].op in ("uninit", "field", "as"):
                    v = v.a[2]
                    continue
                if v.op == "adt" and len(v.a[3]) == 1:
                    v = v.a[3][0]
                    continue
                break
            return ret(v)
        if np in ("core::num::<impl usize>::saturating_sub", "core::num::<impl u64>::saturating_sub"):
            a, b = args
            res = []
            f = st.facts.assume(mk_le(b, a), True)
            if f is not None:
                s = st.copy(); s.facts = f
                res.append(Out("ret", sub(a, b), s))
            f = st.facts.assume(mk_le(b, a), False)
            if f is not None:
                s = st.copy(); s.facts = f
                res.append(Out("ret", INT0, s))
            return res
        if last in ("checked_sub", "checked_add") and np.startswith("core::num::"):
            a, b = args
            if last == "checked_add":
                return ret(mk("call", np, a, b))
            res = []
            f = st.facts.assume(mk_le(b, a), True)
            if f is not None:
                s = st.copy(); s.facts = f
                res.append(Out("ret", Some(sub(a, b)), s))
            f = st.facts.assume(mk_le(b, a), False)
            if f is not None:
                s = st.copy(); s.facts = f
                res.append(Out("ret", NONE, s))
            return res
        if last in ("wrapping_add", "wrapping_sub", "saturating_add") and np.startswith("core::num::"):
            return ret(mk("call", last, args[0], args[1]))
        if last in ("to_be_bytes", "to_le_bytes", "from_be_bytes", "from_le_bytes", "count_ones", "leading_zeros",
                    "trailing_zeros", "is_power_of_two", "trailing_ones", "leading_ones", "pow", "isqrt", "abs_diff") and np.startswith("core::num::"):
            xs = [self.fully(st, a) for a in args]
            if last == "to_le_bytes":
                self.iotys.setdefault(mk("call", last, *xs), set()).add(np[len("core::num::<impl "):].split(">")[0])
            if len(xs) == 1 and xs[0].op == "int" and xs[0].a[0] >= 0:
                n = xs[0].a[0]
                if last == "count_ones":
                    return ret(Int(bin(n).count("1")))
                if last == "is_power_of_two":
                    return ret(TRUE if n and n & (n - 1) == 0 else FALSE)
                if last == "trailing_zeros" and n:
                    return ret(Int((n & -n).bit_length() - 1))
            return ret(mk("call", last, *[self.fully(st, a) for a in args]))
        return None

    HASHTRAITS = ("digest::digest::Digest::", "jmt::SimpleHasher::", "digest::Digest::", "digest::Update::",
                  "digest::FixedOutput::", "tiny_keccak::Hasher::")

    def hash_native(self, fr, np, c, args, st, at):
        """hashers as values: H(algorithm, parts fed in order)"""
        if not np.startswith(self.HASHTRAITS) and not c.get("trait", "").endswith("SimpleHasher"):
            return None
        m = np.split("::")[-1]
        algo = tykey(c["ga"][0]) if c.get("ga") else "?"
        if "sha2::core_api::Sha256VarCore" in algo and "OidSha256" in algo:
            algo = "sha256"
        if m == "new":
            return mk("hst", algo, ())
        if m in ("update", "chain", "chain_update"):
            p = args[0]
            v = self.rd(st, p)
            x = self.fully(st, args[1])
            nv = mk("hst", v.a[0], v.a[1] + hash_parts(x)) if v.op == "hst" else mk("hupd", v, x)
            if m == "update":
                self.wr(st, p, nv)
                return UNIT
            return nv
        if m in ("finalize", "finalize_fixed"):
            v = self.fully(st, args[0])
            return mk("H", v.a[0], *v.a[1]) if v.op == "hst" else mk("call", "hfin", v)
        if m == "digest":
            return mk("H", algo, *(hash_parts(self.fully(st, args[0])) or (EMPTY,)))
        return None

    def assume_v(self, facts, v, nm):
        b = mk_isv(v, nm)
        return facts.assume(b, True)

    def is_iter(self, v):
        return v.op in ("it", "itv", "adv")

    def try_branch(self, v, st, opt=False):
        res = []
        if v.op == "adt":
            if v.a[0] in (RES, OPT):
                if v.a[1] in ("Ok", "Some"):
                    return [Out("ret", mk("adt", CF, "Continue", ("0",), (v.a[3][0],)), st)]
                return [Out("ret", mk("adt", CF, "Break", ("0",), (v,)), st)]
            if v.a[0] == CF:
                return [Out("ret", v, st)]
        # opaque Result (Options are told apart by their known domain)
        dom = st.facts.dom.get(v)
        okv = "Ok"
        if opt or dom and ("Some" in dom or "None" in dom):
            okv = "Some"
        f = st.facts.assume(mk_isv(v, okv), True)
        if f is not None:
            s = st.copy()
            s.facts = f
            res.append(Out("ret", mk("adt", CF, "Continue", ("0",), (self.proj(self.proj(v, ("v", okv)), ("f", "0")),)), s))
        f = st.facts.assume(mk_isv(v, okv), False)
        if f is not None:
            s = st.copy()
            s.facts = f
            e = Err(self.proj(self.proj(v, ("v", "Err")), ("f", "0"))) if okv == "Ok" else NONE
            res.append(Out("ret", mk("adt", CF, "Break", ("0",), (e,)), s))
        return res

    def from_residual(self, v, st, c):
        if v.op == "adt" and v.a[1] == "Err":
            e = v.a[3][0]
            # conversion to the outer error type
            tgt = c["ga"][0] if c.get("ga") else None
            if isinstance(tgt, dict) and tgt.get("k") == "adt" and tgt["p"] == RES and len(tgt["a"]) > 1:
                dst = tgt["a"][1]
                src = None
                if len(c["ga"]) > 1 and c["ga"][1].get("k") == "adt" and len(c["ga"][1]["a"]) > 1:
                    src = c["ga"][1]["a"][1]
                if src is not None and tykey(src) != tykey(dst):
                    im = self.find_from("core::convert::From", "from", dst, src)
                    if im is not None:
                        e = mk("call", "from:" + tykey(dst), e)
                    elif dst.get("p") == "anyhow::Error":
                        e = mk("call", "anyerr", e)
            return [Out("ret", Err(e), st)]
        return [Out("ret", v, st)]

    def coll(self, fr, recv, m, args, st, sp, at):
        ret = lambda v: [Out("ret", v, st)]
        p = args[0] if args else None
        if m == "len":
            return ret(self.length(self.fully(st, p)))
        if m == "is_empty":
            return ret(mk_eq(self.length(self.fully(st, p)), INT0))
        if m == "push":
            v = self.rd(st, p)
            self.mutev(fr, st, "push", p, (args[1],), sp)
            self.wr(st, p, mk("push", v, args[1]))
            return ret(UNIT)
        if m == "pop":
            v = self.rd(st, p)
            self.mutev(fr, st, "pop", p, (), sp)
            if v.op == "push":
                self.wr(st, p, v.a[0])
                return ret(Some(v.a[1]))
            if v.op == "empty":
                return ret(NONE)
            self.wr(st, p, mk("popped", v))
            return ret(mk("call", "last", v))
        if m in ("last", "first"):
            v = self.fully(st, p)
            if v.op == "push" and m == "last":
                return ret(Some(v.a[1]))
            if v.op == "empty":
                return ret(NONE)
            if m == "first":
                return self.seqget(st, v, INT0)
            if "slice" in recv or "vec::" in recv or "Vec" in recv:
                return self.seqget(st, v, sub(self.length(v), INT1), mk_lt(INT0, self.length(v)))
            return ret(mk("call", m, v))
        if m in ("last_mut", "first_mut", "get_mut"):
            v = self.rd(st, p)
            k = args[1:] and self.fully(st, args[1])
            res = []
            q = mk("call", m[:-4] if m != "get_mut" else "get", v, *([k] if k else []))
            if m == "get_mut" and "Map" in recv:
                q = self.mapget(st, v, k)
            if m == "last_mut" and v.op == "push":
                q = Some(v.a[1])
            pos = m in ("last_mut", "first_mut") and q.op == "call"
            for nm in ("Some", "None"):
                f = self.assume_v(st.facts, q, nm) if not pos else st.facts.assume(mk_lt(INT0, self.length(v)), nm == "Some")
                if f is not None and pos and entails_not(f, mk_lt(INT0, self.length(v)), nm == "Some"):
                    f = None
                if f is None:
                    continue
                s = st.copy()
                s.facts = f
                if nm == "None":
                    res.append(Out("ret", NONE, s))
                elif p.op == "ptr":
                    ix = k if m == "get_mut" else (sub(self.length(v), INT1) if m == "last_mut" else INT0)
                    step = ("k", k) if m == "get_mut" and "Map" in recv else ("i", ix)
                    res.append(Out("ret", Some(mk("ptr", p.a[0], p.a[1] + (step,))), s))
                else:
                    res.append(Out("ret", Some(self.proj(self.proj(q, ("v", "Some")), ("f", "0"))), s))
            return res
        if m == "append":
            a, b = self.rd(st, p), self.rd(st, args[1])
            self.mutev(fr, st, "append", p, (b,), sp)
            self.wr(st, p, mk("append", a, b) if a.op != "empty" else b)
            self.wr(st, args[1], EMPTY)
            return ret(UNIT)
        if m == "extend_from_slice":
            a, b = self.rd(st, p), self.fully(st, args[1])
            self.mutev(fr, st, "append", p, (b,), sp)
            self.wr(st, p, mk("append", a, b) if a.op != "empty" else b)
            return ret(UNIT)
        if m == "reverse":
            a = self.rd(st, p)
            self.wr(st, p, a.a[0] if a.op == "reversed" else mk("reversed", a))
            return ret(UNIT)
        if m in ("clear",):
            self.mutev(fr, st, "clear", p, (), sp)
            self.wr(st, p, EMPTY)
            return ret(UNIT)
        if m == "drain" and len(args) == 1:
            a = self.rd(st, p)
            self.mutev(fr, st, "drain", p, (a,), sp)
            self.wr(st, p, EMPTY)
            return ret(a)
        if m == "truncate":
            a = self.rd(st, p)
            self.mutev(fr, st, "truncate", p, (args[1],), sp)
            self.wr(st, p, mk("trunc", a, args[1]))
            return ret(UNIT)
        if m == "insert":
            a = self.rd(st, p)
            kv = [self.fully(st, x) for x in args[1:]]
            if "Vec" in recv:
                st.ev = self.chk(Ev("chk", "bounds", (kv[0], add(self.length(a), INT1)), st.facts, None, fr.fn.path, sp, st.ev))
            old = mk("call", "get", a, kv[0]) if len(kv) == 2 else mk_not(mk("call", "has", a, kv[0]))
            self.mutev(fr, st, "insert", p, tuple(kv), sp, old)
            self.wr(st, p, mk("ins", a, *kv))
            return ret(old)
        if m == "remove":
            a = self.rd(st, p)
            k = self.fully(st, args[1])
            isset = "set::" in recv or "Set" in recv
            old = mk("call", "has", a, k) if isset else self.mapget(st, a, k)
            if "Vec" in recv:
                st.ev = self.chk(Ev("chk", "bounds", (k, self.length(a)), st.facts, None, fr.fn.path, sp, st.ev))
                old = mk_idx(a, k)
            self.mutev(fr, st, "remove", p, (k,), sp, old)
            self.wr(st, p, mk("rem", a, k))
            return ret(old)
        if m == "get":
            a = self.fully(st, p)
            k = self.fully(st, args[1])
            if a.op == "arr" and k.op == "int":
                return ret(Some(a.a[0][k.a[0]]) if k.a[0] < len(a.a[0]) else NONE)
            if k.op == "adt" and "core::ops::range::Range" in k.a[0]:
                return ret(mk("call", "get", a, k))
            if "slice" in recv or "vec::" in recv or "Vec" in recv:
                return self.seqget(st, a, k)
            return ret(self.mapget(st, a, k))
        if m in ("contains", "contains_key"):
            a = self.fully(st, p)
            k = self.fully(st, args[1])
            if m == "contains_key":
                return ret(mk_isv(self.mapget(st, a, k), "Some"))
            return ret(mk("call", "has", a, k))
        if m in ("values", "keys"):
            a = self.fully(st, p)
            return ret(mk("it", m, a))
        if m in ("iter_mut", "values_mut"):
            return ret(mk("it", m, p))
        if m in ("into_values", "into_keys"):
            return ret(mk("it", m[5:], self.fully(st, p)))
        if m == "split_at":
            a = self.fully(st, p)
            i = args[1]
            st.ev = self.chk(Ev("chk", "bounds", (i, add(self.length(a), INT1)), st.facts, None, fr.fn.path, sp, st.ev))
            return ret(mk("tuple", (self.mk_slice(a, INT0, i), self.mk_slice(a, i, self.length(a)))))
        if m == "concat":
            a = self.fully(st, p)
            if a.op == "arr" and len(a.a[0]) == 2:
                return ret(mk("append", a.a[0][0], a.a[0][1]))
            return ret(mk("call", "concat", a))
        if m == "swap":
            return None
        return None

    def map_entry(self, fr, np, last, args, st, sp, dstty=None):
        """the entry interface of the maps"""
        ret = lambda v, s=st: [Out("ret", v, s)]
        if last == "entry":
            p, k = args[0], self.fully(st, args[1])
            a = self.rd(st, p)
            if p.op != "ptr":
                return None
            q = self.mapget(st, a, k)
            ent = mk("mapent", p, k)
            res = []
            for nm, vn in (("Some", "Occupied"), ("None", "Vacant")):
                f = self.assume_v(st.facts, q, nm)
                if f is not None:
                    s = st.copy()
                    s.facts = f
                    res.append(Out("ret", mk("adt", np.rsplit("::", 2)[0] + "::Entry", vn, ("0",), (ent,)), s))
            return res
        e = self.rd(st, args[0])
        kind = np.split("::")[-2]
        var = None
        if e.op == "adt" and e.a[1] in ("Occupied", "Vacant"):
            var, e = e.a[1], e.a[3][0]
        if e.op != "mapent":
            return None
        p, k = e.a
        slot = mk("ptr", p.a[0], p.a[1] + (("k", k),))
        if last in ("key", "into_key"):
            return ret(k)
        if kind == "OccupiedEntry":
            if last in ("get", "get_mut", "into_mut"):
                return ret(slot)
            if last == "remove":
                v = self.rd(st, slot)
                self.mutev(fr, st, "remove", p, (k,), sp, v)
                self.wr(st, p, mk("rem", self.rd(st, p), k))
                return ret(v)
        if last == "insert" and kind in ("OccupiedEntry", "VacantEntry"):
            v = self.rd(st, slot) if kind == "OccupiedEntry" else slot
            self.mutev(fr, st, "insert", p, (k, args[1]), sp, self.mapget(st, self.rd(st, p), k))
            self.wr(st, slot, args[1])
            return ret(v)
        if kind == "Entry" and last in ("or_insert",) and var:
            if var == "Vacant":
                self.mutev(fr, st, "insert", p, (k, args[1]), sp, NONE)
                self.wr(st, slot, args[1])
            return ret(slot)
        if kind == "Entry" and last == "or_default" and var == "Occupied":
            return ret(slot)
        if kind == "Entry" and last == "or_default" and var == "Vacant":
            t = dstty.get("t") if isinstance(dstty, dict) else None
            v = None
            if isinstance(t, dict):
                v = INT0 if t.get("k") == "prim" else NONE if t.get("p") == OPT else EMPTY if t.get("p") in COLL else None
            if v is not None:
                self.mutev(fr, st, "insert", p, (k, v), sp, NONE)
                self.wr(st, slot, v)
                return ret(slot)
        return None

    def seqget(self, st, a, i, cond=None):
        """element of a sequence, if there is one"""
        res = []
        if cond is None:
            cond = mk_lt(i, self.length(a))
        for v in (True, False):
            f = st.facts.assume(cond, v)
            if f is None or entails_not(f, cond, v):
                continue
            s = st.copy()
            s.facts = f
            res.append(Out("ret", Some(mk_idx(a, i)) if v else NONE, s))
        return res

    def mapget(self, st, a, k):
        while True:
            if a.op == "ins" and len(a.a) == 3:
                if a.a[1] is k:
                    return Some(a.a[2])
                if st.facts.truth(mk_eq(a.a[1], k)) is False:
                    a = a.a[0]
                    continue
            if a.op == "rem":
                if a.a[1] is k:
                    return NONE
                if st.facts.truth(mk_eq(a.a[1], k)) is False:
                    a = a.a[0]
                    continue
            break
        if a.op == "empty":
            return NONE
        return mk("call", "get", a, k)

    def index(self, fr, mut, args, st, sp, at):
        p = args[0]
        i = self.fully(st, args[1])
        v = self.fully(st, p)
        if i.op == "adt" and i.a[0].startswith("core::ops::range::"):
            kind = i.a[0].split("::")[-1]
            ln = self.length(v)
            if kind == "Range":
                lo, hi = i.a[3]
            elif kind == "RangeInclusive":
                lo, hi = i.a[3][0], add(i.a[3][1], INT1)
            elif kind == "RangeFrom":
                lo, hi = i.a[3][0], ln
            elif kind == "RangeTo":
                lo, hi = INT0, i.a[3][0]
            elif kind == "RangeToInclusive":
                lo, hi = INT0, add(i.a[3][0], INT1)
            else:
                lo, hi = INT0, ln
            st.ev = self.chk(Ev("chk", "slice", (lo, hi, ln), st.facts, None, fr.fn.path, sp, st.ev))
            f = st.facts.assume(mk_le(lo, hi), True)
            f = f and f.assume(mk_le(hi, ln), True)
            if f is None:
                return []
            st.facts = f
            if mut and p.op == "ptr":
                if lo is INT0 and hi is ln:
                    return [Out("ret", p, st)]
                return [Out("ret", mk("ptr", p.a[0], p.a[1] + (("s", (lo, hi)),)), st)]
            return [Out("ret", self.mk_slice(v, lo, hi), st)]
        # map index?
        ty = at[0] if at else None
        while isinstance(ty, dict) and ty.get("k") == "ref":
            ty = ty["t"]
        if isinstance(ty, dict) and ty.get("k") == "adt" and "Map" in ty["p"]:
            g = self.mapget(st, v, i)
            st.ev = self.chk(Ev("chk", "mapindex", (g,), st.facts, None, fr.fn.path, sp, st.ev))
            f = st.facts.assume(mk_isv(g, "Some"), True)
            if f is None:
                return []
            st.facts = f
            return [Out("ret", self.proj(self.proj(g, ("v", "Some")), ("f", "0")), st)]
        ln = self.length(v)
        st.ev = self.chk(Ev("chk", "bounds", (i, ln), st.facts, None, fr.fn.path, sp, st.ev))
        f = st.facts.assume(mk_lt(i, ln), True)
        if f is None:
            return []
        st.facts = f
        if mut and p.op == "ptr":
            return [Out("ret", mk("ptr", p.a[0], p.a[1] + (("i", i),)), st)]
        return [Out("ret", self.proj(v, ("i", i)), st)]

    # ------------------------------------------------------------ iterators
    def iter_native(self, fr, m, c, args, st, sp, dstty):
        ret = lambda v: [Out("ret", v, st)]
        if m in ADAPT:
            src = args[0]
            src2 = self.fully(st, src) if src.op == "ptr" and self.is_iter(self.fully(st, src)) else src
            if m == "rev" and src2.op == "it" and src2.a[0] == "rev":
                return ret(src2.a[1])
            if m == "rev" and src2.op == "it" and src2.a[0] in ("filter", "filter_map"):
                # taking from the back of a filter is filtering what is taken from the back
                back = self.iter_native(fr, "rev", c, [src2.a[1]], st, sp, dstty)[0].val
                return ret(mk("it", src2.a[0], back, *src2.a[2:]))
            if m == "skip" and src2.op not in ("it", "adt", "itv", "adv"):
                return ret(mk("it", "skip", src2, args[1]))
            if m == "take" and not picks(src2):
                n = self.seqlen(src2)
                if n is not None:
                    # as many as asked for, or all there are
                    res = []
                    for short in (True, False):
                        f = st.facts.assume(mk_le(args[1], n), short)
                        if f is None or not short and entails_not(f, mk_le(args[1], n), False):
                            continue
                        s = st.copy()
                        s.facts = f
                        res.append(Out("ret", mk("it", "take", src2, args[1]) if short else src2, s))
                    return res
            rest = [self.fully(st, a) if a.op == "ptr" and m == "zip" else a for a in args[1:]]
            if m == "zip" and src2.op == "adt" and src2.a[0] == "core::ops::range::RangeFrom" and src2.a[3][0] is INT0:
                return ret(mk("it", "enumerate", rest[0]))
            return ret(mk("it", m, src2, *rest))
        if m == "next":
            p = args[0]
            v = self.rd(st, p)
            t = c["ga"][0] if c.get("ga") else {}
            if v.op in ("field", "arg") and t.get("p") == "core::ops::range::Range":
                # a range that is known by its two ends
                v = mk("adt", t["p"], "Range", ("start", "end"), (mk("field", v, "start"), mk("field", v, "end")))
                self.wr(st, p, v)
            if self.whole_picks:
                r = self.whole_pick(fr, m, args, st, sp)
                if r is not None:
                    return r
            return self.iter_next(fr, p, v, st, sp)
        if m in ("collect",):
            if isinstance(dstty, dict) and dstty.get("k") == "adt":
                if dstty["p"] == "alloc::vec::Vec":
                    v = self.fully(st, args[0])
                    k = self.simple_seq(v)
                    if k is not None:
                        return ret(k)
                    return None
                if dstty["p"] in (RES, OPT) and dstty["a"] and dstty["a"][0].get("p") == "alloc::vec::Vec":
                    return None
                if dstty["p"] in COLL and dstty["p"][-3:] in ("Set", "Map"):
                    return None
                im = self.find_impl("core::iter::traits::collect::FromIterator", "from_iter", dstty)
                if im is not None and self.can_inline(fr, im):
                    return self.call_fn(im, args, st, {}, fr.depth + 1, fr.stack)
                if im is not None:
                    return self.opaque_call(fr, im.path, args, st, sp)
                if self.model_for(IT + m, c, dstty) == "iter_collect_result_unit":
                    return None
                return self.opaque_call(fr, "collect:" + dstty["p"], args, st, sp)
            return self.opaque_call(fr, "collect", args, st, sp)
        if m == "flatten" and c.get("ga"):
            t = c["ga"][0]
            if t.get("k") == "adt" and t["p"] in ("core::slice::iter::Iter", "alloc::vec::into_iter::IntoIter", "core::array::iter::IntoIter"):
                e = [x for x in t.get("a", []) if isinstance(x, dict) and x.get("k") == "adt" and x["p"] == OPT]
                if e:
                    src = args[0]
                    src = self.fully(st, src) if src.op == "ptr" and self.is_iter(self.fully(st, src)) else src
                    return ret(mk("it", "filter_map", src, mk("ident")))
        if m in ("extend", "unzip", "partition"):
            return None
        if m == "nth" and args[0].op == "ptr" and not self.whole_picks:
            v = self.fully(st, self.rd(st, args[0]))
            n = self.seqlen(v) if not picks(v) else None
            if n is not None:
                res = []
                inside = mk_lt(args[1], n)
                f = st.facts.assume(inside, False)
                if f is not None and not entails_not(f, inside, False):
                    s = st.copy()
                    s.facts = f
                    res.append(Out("ret", NONE, s))
                f = st.facts.assume(inside, True)
                if f is not None:
                    s = st.copy()
                    s.facts = f
                    for e, s2 in self.elem_of(fr, v, "nth", args[1], s):
                        self.wr(s2, args[0], mk("it", "skip", v, add(args[1], INT1)))
                        res.append(Out("ret", Some(e), s2))
                return res
        if m == "sum" and self.model_for(IT + m, c, dstty):
            return None
        if self.folds and m in ("max_by_key", "min_by_key", "max", "min", "last") and self.model_for(IT + m, c, dstty, [self.fully(st, a) for a in args]):
            return None
        if m in ("max_by_key", "min_by_key", "max", "min", "sum", "last", "nth", "max_by", "min_by", "rposition", "eq", "lt", "le", "cmp", "product"):
            return self.opaque_call(fr, "iter_" + m, [self.fully(st, a) if a.op == "ptr" else a for a in args], st, sp)
        return None

    def whole_pick(self, fr, m, args, st, sp):
        """the first (or last) element of a fresh iterator that leaves out elements, as an uninterpreted choice"""
        if m not in ("next", "next_back", "find", "rfind", "find_map", "position", "rposition") or args[0].op != "ptr":
            return None
        v = self.fully(st, self.rd(st, args[0]))
        if v.op == "ptr" or v.op in ("itv", "adv", "eff"):
            return None
        if m in ("next", "next_back"):
            if not picks(v):
                return None
            src = v
        elif not (v.op == "it" or v.op == "adt" and v.a[0] == "core::ops::range::Range"):
            return None
        elif m in ("find", "rfind"):
            src = mk("it", "filter", v, args[1])
        elif m == "find_map":
            src = mk("it", "filter_map", v, args[1])
        else:
            return None
        self.wr(st, args[0], mk("eff", "whole:" + m, 0, v))
        return self.opaque_call(fr, "iter_next_back" if m in ("next_back", "rfind") else "iter_next", [src], st, sp)

    def simple_seq(self, v):
        """iterators over a sequence that collect to that same sequence"""
        if v.op == "it":
            if v.a[0] == "rev":
                k = self.simple_seq(v.a[1])
                if k is None:
                    return None
                return k.a[0] if k.op == "reversed" else mk("reversed", k)
            if v.a[0] == "skip":
                # beyond the end this is empty rather than out of range; slices out of range do not come about
                k = self.simple_seq(v.a[1])
                if k is not None and k.op not in ("reversed", "it"):
                    return self.mk_slice(k, v.a[2], self.length(k))
            return None
        if v.op in ("itv", "adv"):
            return None
        if v.op == "adt" and "Range" in v.a[0]:
            return None
        return v

    def iter_next(self, fr, p, v, st, sp):
        """next() on an iterator value -> outcomes with Option results"""
        # how far advanced, and over what
        k = 0
        base = v
        while base.op == "adv":
            base = base.a[0]
            k += 1
        if base.op == "itv":
            lid, init = base.a
            tag = str(lid) + ("" if k == 0 else "+%d" % k)
            idx = add(mk("ind", lid, INT0), Int(k)) if "?" not in lid else mk("pos", tag)
            init2, k0 = init, 0
            while init2.op == "adv":
                init2 = init2.a[0]
                k0 += 1
            if k0:
                idx = add(idx, Int(k0))
                tag = tag + "~%d" % k0
            src = init2
            loopcase = True
        else:
            src = base
            tag = "#%d" % k
            idx = Int(k)
            if picks(src):
                # which element of the source comes first is not known
                idx = mk("pos", "%s@%d" % (tag, src.n))
            loopcase = False
        res = []
        if src.op == "it" and src.a[0] == "take_while":
            # ends with its source, or at the first element that fails the test
            inner = src.a[1]
            s = st.copy()
            f = s.facts.assume(mk("more", inner, tag), False)
            f = f and self.exhausted_facts(f, inner, idx)
            if f is not None:
                s.facts = f
                res.append(Out("ret", NONE, s))
            s = st.copy()
            f = s.facts.assume(mk("more", inner, tag), True)
            if f is None:
                return res
            s.facts = f
            for e, s1 in self.elem_of(fr, inner, tag, idx, s):
                for o in self.invoke(fr, self.clo_of(s1, src.a[2]), [e], s1, None):
                    if o.kind != "ret":
                        res.append(o)
                        continue
                    for v2 in (True, False):
                        f = o.st.facts.assume(as_bool(o.val), v2)
                        if f is None:
                            continue
                        s2 = o.st.copy()
                        s2.facts = f
                        self.wr(s2, p, mk("adv", v))
                        res.append(Out("ret", Some(e) if v2 else NONE, s2))
            return res
        # exhausted
        if not loopcase and self.unroll is not None:
            n = self.seqlen(src)
            if n is not None and n.op == "int":
                if k >= n.a[0]:
                    return [Out("ret", NONE, st)]
                for e, s2 in self.elem_of(fr, src, tag, idx, st.copy()):
                    self.wr(s2, p, mk("adv", v))
                    res.append(Out("ret", Some(e), s2))
                return res
            self.undecided = True
        s = st.copy()
        n = self.seqlen(src) if not loopcase and not picks(src) else None
        there = st.facts.truth(mk_lt(Int(k), n)) if n is not None else None
        if there is False:
            return [Out("ret", NONE, s)]
        more = mk("more", lasting(src), tag)
        fx = s.facts.assume(more, False) if there is None else None
        if fx is not None:
            fx = self.exhausted_facts(fx, src, idx)
        if fx is not None:
            s.facts = fx
            res.append(Out("ret", NONE, s))
        s = st.copy()
        f = s.facts.assume(more, True)
        if f is None:
            return res
        s.facts = f
        for e, s2 in self.elem_of(fr, src, tag, idx, s):
            self.wr(s2, p, mk("adv", v))
            res.append(Out("ret", Some(e), s2))
        return res

    def strided(self, src):
        """(lo, hi, step) of a range taken in strides"""
        if src.op == "it" and src.a[0] == "step_by" and src.a[2].op == "int" and src.a[2].a[0] > 0 and src.a[1].op == "adt" and src.a[1].a[0] == "core::ops::range::Range":
            lo, hi = src.a[1].a[3]
            return lo, hi, src.a[2]
        return None

    def exhausted_facts(self, f, src, idx):
        sb = self.strided(src)
        if sb is not None:
            return f.assume(mk_lt(add(sb[0], mul(idx, sb[2])), sb[1]), False)
        if src.op == "it" and src.a[0] in ("enumerate", "map", "inspect"):
            return self.exhausted_facts(f, src.a[1], idx)
        if src.op == "adt" and src.a[0] == "core::ops::range::Range":
            lo, hi = src.a[3]
            if idx.op == "int":
                return f.assume(mk_lt(add(lo, idx), hi), False)
            return f.assume(mk_lt(add(lo, idx), hi), False)
        return f

    def elem_of(self, fr, src, tag, idx, st):
        """-> [(element term, state)]"""
        sb = self.strided(src)
        if sb is not None:
            e = add(sb[0], mul(idx, sb[2]))
            f = st.facts.assume(mk_lt(e, sb[1]), True)
            if f is None:
                return []
            st.facts = f
            return [(e, st)]
        if src.op == "it":
            k = src.a[0]
            if k == "map":
                out = []
                for e, s in self.elem_of(fr, src.a[1], tag, idx, st):
                    for o in self.invoke(fr, self.clo_of(s, src.a[2]), [e], s, None):
                        if o.kind == "ret":
                            out.append((o.val, o.st))
                return out
            if k in ("filter", "take_while"):
                out = []
                for e, s in self.elem_of(fr, src.a[1], tag, idx, st):
                    for o in self.invoke(fr, self.clo_of(s, src.a[2]), [e], s, None):
                        if o.kind == "ret":
                            f = o.st.facts.assume(as_bool(o.val), False)
                            if f is not None and k == "filter":
                                self.rejects.setdefault(str(tag), []).append((e, f))
                            f = o.st.facts.assume(as_bool(o.val), True)
                            if f is not None:
                                o.st.facts = f
                                out.append((e, o.st))
                return out
            if k in ("filter_map", "map_while"):
                out = []
                for e, s in self.elem_of(fr, src.a[1], tag, idx, st):
                    for o in self.invoke(fr, self.clo_of(s, src.a[2]), [e], s, None):
                        if o.kind == "ret":
                            f = o.st.facts.assume(mk_isv(o.val, "Some"), False)
                            if f is not None and k == "filter_map":
                                self.rejects.setdefault(str(tag), []).append((e, f))
                            f = o.st.facts.assume(mk_isv(o.val, "Some"), True)
                            if f is not None:
                                o.st.facts = f
                                out.append((self.proj(self.proj(o.val, ("v", "Some")), ("f", "0")), o.st))
                return out
            if k == "zip" and (picks(src.a[1]) or picks(src.a[2])):
                return [(mk("elem", self.canon_val(fr, st, src), tag), st)]
            if k == "zip":
                out = []
                for e1, s in self.elem_of(fr, src.a[1], tag, idx, st):
                    for e2, s2 in self.elem_of(fr, src.a[2], tag, idx, s):
                        out.append((mk("tuple", (e1, e2)), s2))
                return out
            if k == "enumerate":
                if picks(src.a[1]):
                    # counted by the elements chosen so far
                    idx0, idx = idx, mk("call", "chosen", self.canon_val(fr, st, src.a[1]), idx)
                    return [(mk("tuple", (idx, e)), s) for e, s in self.elem_of(fr, src.a[1], tag, idx0, st)]
                return [(mk("tuple", (idx, e)), s) for e, s in self.elem_of(fr, src.a[1], tag, idx, st)]
            if k == "inspect":
                return self.elem_of(fr, src.a[1], tag, idx, st)
            if k in ("iter_mut",):
                p = src.a[1]
                if p.op == "ptr":
                    return [(mk("ptr", p.a[0], p.a[1] + (("i", idx),)), st)]
            if k == "take":
                return self.elem_of(fr, src.a[1], tag, idx, st)
            if k == "skip" and self.seqlen(src.a[1]) is not None:
                return self.elem_of(fr, src.a[1], str(tag) + "s", add(idx, src.a[2]), st)
            if k == "rev":
                z = src.a[1]
                if z.op == "it" and z.a[0] == "zip":
                    n, m = self.seqlen(z.a[1]), self.seqlen(z.a[2])
                    if n is not None and m is not None:
                        # the longer side is shortened first
                        out = []
                        for k2, b in ((n, mk_le(n, m)), (m, mk_lt(m, n))):
                            f = st.facts.assume(b, True)
                            if f is not None and not f.ge0_deep(add(neg((b.a[0])), Int(-1))) if b.op == "ge0" else f is not None:
                                s = st.copy()
                                s.facts = f
                                out += self.elem_of(fr, z, str(tag) + "r", sub(sub(k2, INT1), idx), s)
                        return out
                n = self.seqlen(src.a[1])
                if n is not None:
                    return self.elem_of(fr, src.a[1], str(tag) + "r", sub(sub(n, INT1), idx), st)
            return [(mk("elem", self.canon_val(fr, st, src), tag), st)]
        if src.op == "adt" and src.a[0] == "core::ops::range::Range":
            lo, hi = src.a[3]
            e = add(lo, idx)
            f = st.facts.assume(mk_lt(e, hi), True)
            if f is None:
                return []
            st.facts = f
            return [(e, st)]
        if src.op == "adt" and src.a[0] == "core::ops::range::RangeInclusive":
            lo, hi = src.a[3][0], src.a[3][1]
            e = add(lo, idx)
            f = st.facts.assume(mk_le(e, hi), True)
            if f is None:
                return []
            st.facts = f
            return [(e, st)]
        if src.op == "adt" and src.a[0] == "core::ops::range::RangeFrom":
            return [(add(src.a[3][0], idx), st)]
        if src.op == "coll":
            b = coll_body(src)
            if b is not None:
                if idx.op == "pos":
                    return [(coll_at(src, b, idx, tag), st)]
                return [(coll_at(src, b, idx, None), st)]
            out = []
            pos = mk("pos", tag)
            for c in src.a[2]:
                s = st.copy()
                f = s.facts
                for x in c.a[0][0].a[0]:
                    if f is not None:
                        f = f.assume(coll_at(src, x.a[0][0], pos, tag), x.a[0][1] is INT1)
                if f is not None:
                    s.facts = f
                    out.append((coll_at(src, c.a[0][1], pos, tag), s))
            return out
        if src.op == "arr" and idx.op == "int":
            if idx.a[0] < len(src.a[0]):
                return [(src.a[0][idx.a[0]], st)]
            return []
        if src.op == "adt":
            r = self.local_elem(fr, src, idx, st)
            if r is not None:
                return r
        if idx.op == "pos" or src.op in ("itv", "adv", "adt", "call", "eff"):
            return [(mk("elem", src, tag), st)]
        return [(mk_idx(src, idx), st)]

    def local_range_iter(self, src):
        """a workspace iterator whose position is one Range field -> (next fn, field)"""
        for fn in self.db.trait_impl.get(("core::iter::traits::iterator::Iterator", "next"), []):
            t = fn.impl_self_ty
            if t and t.get("k") == "adt" and t["p"] == src.a[0]:
                rf = [n for n, v in zip(src.a[2], src.a[3]) if v.op == "adt" and v.a[0] == "core::ops::range::Range"]
                if len(rf) == 1:
                    return fn, rf[0]
        return None

    def local_elem(self, fr, src, idx, st):
        r = self.local_range_iter(src)
        if r is None:
            return None
        fn, fld = r
        if not self.can_inline(fr, fn):
            return None
        rg = self.proj(src, ("f", fld))
        lo, hi = rg.a[3]
        at = add(lo, idx)
        v = self.setp(src, [("f", fld)], mk("adt", rg.a[0], rg.a[1], rg.a[2], (at, hi)))
        root = mk("tmp", next(self.site))
        s = st.copy()
        s.mem[root] = v
        f = s.facts.assume(mk_lt(at, hi), True)
        if f is None:
            return []
        s.facts = f
        out = []
        for o in self.call_fn(fn, [mk("ptr", root, ())], s, {}, fr.depth + 1, fr.stack):
            if o.kind == "ret" and o.val.op == "adt" and o.val.a[1] == "Some":
                o.st.mem.pop(root, None)
                out.append((o.val.a[3][0], o.st))
        return out

    def seqlen(self, src):
        """number of elements an iterator value yields, when it is a known quantity"""
        sb = self.strided(src)
        if sb is not None:
            n = sub(sb[1], sb[0])
            return self.binop("Div", add(n, Int(sb[2].a[0] - 1)), sb[2])
        if src.op == "it":
            k = src.a[0]
            if k in ("rev", "enumerate", "map", "inspect", "iter_mut"):
                if k == "iter_mut":
                    return None
                return self.seqlen(src.a[1])
            if k == "take":
                return src.a[2] if self.seqlen(src.a[1]) is not None else None
            if k == "skip":
                n = self.seqlen(src.a[1])
                return sub(n, src.a[2]) if n is not None else None
            return None
        if src.op == "adt":
            if src.a[0] == "core::ops::range::Range":
                return sub(src.a[3][1], src.a[3][0])
            if src.a[0] == "core::ops::range::RangeInclusive":
                return add(sub(src.a[3][1], src.a[3][0]), INT1)
            r = self.local_range_iter(src)
            if r is not None:
                return self.seqlen(self.proj(src, ("f", r[1])))
            return None
        if src.op in ("itv", "adv", "eff"):
            return None
        if src.op == "call" and src.a[0] not in ("get", "last"):
            return None
        return self.length(src)

    def clo_of(self, st, v):
        v = self.fully(st, v)
        return v


def lasting(src):
    """the part of a source that decides when it ends"""
    while src.op == "it" and src.a[0] == "zip":
        if src.a[1].op == "adt" and src.a[1].a[0] == "core::ops::range::RangeFrom":
            src = src.a[2]
        elif src.a[2].op == "adt" and src.a[2].a[0] == "core::ops::range::RangeFrom":
            src = src.a[1]
        else:
            break
    return src


class Callee:
    """hash-consable wrapper of a callee description"""
    _t = {}

    def __new__(cls, c):
        import json
        k = json.dumps(c, sort_keys=True)
        o = cls._t.get(k)
        if o is None:
            o = object.__new__(cls)
            o.c = c
            cls._t[k] = o
        return o

    def __repr__(self):
        return ""


def tykey(t):
    if not isinstance(t, dict):
        return str(t)
    k = t.get("k")
    if k == "adt":
        return t["p"] + ("<" + ",".join(tykey(x) for x in t["a"] if not str(x.get("p", "")).startswith("alloc::alloc::Global")) + ">" if t["a"] else "")
    if k == "ref":
        return "&" + tykey(t["t"])
    if k in ("slice", "array"):
        return "[" + tykey(t["t"]) + ("" if k == "slice" else ";" + str(t.get("n"))) + "]"
    if k == "tuple":
        return "(" + ",".join(tykey(x) for x in t["a"]) + ")"
    return t.get("s") or t.get("id") or k


BOOLOPS = {"eq", "eq0", "ge0", "not", "isv", "and", "or", "more", "ovf"}


def is_bool(t):
    return t.op in BOOLOPS or (t.op == "call" and t.a[0] in ("has", "contains"))


def as_bool(t):
    return t


def coll_body(c):
    """the element expression of an unconditional collection"""
    if len(c.a[2]) == 1 and not c.a[2][0].a[0][0].a[0]:
        return c.a[2][0].a[0][1]
    return None


def coll_at(c, body, i, tag):
    """element expression at position i"""
    dot = "\u2022%d" % c.a[0]
    m = {}
    for x in subterms(body):
        if x.op == "ind" and x.a[0] == dot:
            m[x] = add(i, x.a[1])
        elif x.op == "elem" and x.a[1] == dot:
            m[x] = mk("elem", x.a[0], tag) if tag is not None else mk_idx(x.a[0], i)
    return subst(body, m)


def mk_idx(v, i):
    if v.op == "coll":
        b = coll_body(v)
        if b is not None:
            return coll_at(v, b, i, None)
    if i.op == "ind" and i.a[1] is INT0 and v.op not in ("adt",):
        return mk("elem", v, i.a[0])
    return mk("idx", v, i)


def unadv(v):
    while v.op == "adv":
        v = v.a[0]
    return v


def picks(src):
    """the iterator leaves out some elements of its source"""
    while src.op == "it":
        if src.a[0] == "step_by" and src.a[2].op == "int" and src.a[1].op == "adt" and src.a[1].a[0] == "core::ops::range::Range":
            return False
        if src.a[0] in ("filter", "filter_map", "skip_while", "flat_map", "flatten", "step_by"):
            return True
        src = src.a[1]
        if not isinstance(src, T):
            return False
    return False


def entails_not(f, g, v):
    """the facts contradict g being v, on a closer look"""
    x = g if not v else mk_not(g)
    return x.op == "ge0" and f.ge0_deep(x.a[0])
