"""Iteration of a version of the versioned tree (J18): the position inside an inner node, the stack of positions, the start by key and by index, the advance."""
from lib import *
import conc
import fin
import jdb
from jdb import plain
from jnode import kids
from jread import READ, VAL, GEN, Walk, good, is_key, root_key, uncast, doms, okv, is_child_version, version_is, is_path_of, GETN

IT = "iterator::"
JI = IT + "JellyfishMerkleIterator::<R>::"
VI = IT + "NodeVisitInfo::"
NEW, NEXTTO, LASTQ, ADV = VI + "new", VI + "new_next_child_to_visit", VI + "is_rightmost", VI + "advance"
CLEAN, SKIP = JI + "cleanup_stack", JI + "skip_leaves"
GB = "node_type::InternalNode::generate_bitmaps"
NLEAF, CLEAF = "node_type::Node::leaf_count", "node_type::Child::leaf_count"
NEXT = "jmt::<iterator::JellyfishMerkleIterator<R> as core::iter::traits::iterator::Iterator>::next"
FRAMES = {NEW, NEXTTO, LASTQ, ADV, CLEAN, SKIP}
OPQ = {GB, GEN, GETN, "types::nibble::nibble_path::NibblePath::push", NLEAF, CLEAF}
LEVELS = 65


def summ(ctx, qual, but=()):
    keep = (FRAMES | OPQ) - set(but)
    return ctx.summ(qual if qual.startswith("jmt::") else "jmt::" + qual, lambda f: f.crate == "jmt" and f.path in keep, "ji" + ",".join(but), fine=2)


def check_iteration(ctx):
    ctx.rule("position", "the position in an inner node starts at its least child (or the least at or after a nibble), is the last one exactly when no child lies beyond it, and advances to the next child; all sets of children gone through")
    ctx.rule("leave", "leaving a visited subtree drops the nodes whose last child was visited and advances the one above")
    ctx.rule("start", "starting at a key follows its nibbles and stops before the first leaf at or after it: at the child beyond a missing one, at a leaf not below it, or else beyond what was passed")
    ctx.rule("index", "starting at an index skips, in order, exactly the subtrees whose leaves lie before it")
    ctx.rule("advance", "each step reads the child at the position under its recorded version, goes down to the least child, and yields a leaf with its value, once")
    ctx.rule("end", "the end is reported when nothing is left, and only then; what fails while walking is yielded as an error")
    pos = step(ctx)
    if pos is not None:
        positions(ctx, pos)
    leave(ctx)
    start(ctx)
    index(ctx)
    skip(ctx)
    entry(ctx)


# ---------------------------------------------------------------- positions
def frame_fields(ctx, s):
    """the frame's fields, from the value the constructor returns"""
    for o in s.rets:
        if o.val.op == "adt":
            return o.val
    return None


def positions(ctx, pos):
    """`pos` = (term of the position, frame term) as the step uses it"""
    pt, top = pos
    q = "jmt::" + VI[:-2]
    new, nxt, last, adv = (summ(ctx, x, (NEW, NEXTTO, LASTQ, ADV)) for x in (NEW, NEXTTO, LASTQ, ADV))
    an, ax, al, aa = plain(new), plain(nxt), plain(last), plain(adv)
    # widths: every bit operation is on 16 bits
    for s in (new, nxt, last, adv):
        w = [c for c in jdb.calls_of(s.fn) if str(c).find("leading_zeros") >= 0 and "u16" not in str(c)]
        ctx.ob("position", s.fn.qual, not w, "counts leading zeros of another width than the bitmap's", "width")
    v = frame_fields(ctx, new)
    ctx.ob("position", q, v is not None, "no position is built", "shape")
    if v is None:
        return
    names = [n for n in v.a[2]]
    state = [n for n in names if n not in ("node_key", "node")]
    for s, a in ((new, an), (nxt, ax)):
        for o in s.rets:
            ctx.ob("position", s.fn.qual, proj(o.val, "node_key") is a[0] and proj(o.val, "node") is a[1], "the position is not that of the node given: %s" % show(o.val)[:160], "node")
    for o in adv.rets:
        f = final(o, aa[0])
        ctx.ob("position", adv.fn.qual, all(proj(f, n) is mk("field", aa[0], n) for n in ("node_key", "node")), "advancing changes the node", "node")

    def bits(node):
        return mk("field", mk("call", GB, node), "0")

    def special(node):
        def sp(F, t):
            # the i-th child exists
            if t.op == "isv" and t.a[0].op == "idx" and t.a[0].a[0] is kids(node):
                x = "((B>>%s)&1==%d)" % (F.e(t.a[0].a[1]), 1 if t.a[1] == "Some" else 0)
                return x
            return None
        return sp

    try:
        fn = fin.func(new, [("B", [bits(an[1])])], lambda o: [proj(o.val, n) for n in state], special(an[1]))
        fx = fin.func(nxt, [("B", [bits(ax[1])]), ("n", [ax[2]])], lambda o: [proj(o.val, n) for n in state], special(ax[1]))

        def selfp(a):
            return [(("s%d" % i), [mk("field", a, n)]) for i, n in enumerate(state)] + [("B", [bits(mk("field", a, "node"))])]
        fl = fin.func(last, selfp(al[0]), lambda o: [o.val], special(mk("field", al[0], "node")))
        fa = fin.func(adv, selfp(aa[0]), lambda o: [proj(final(o, aa[0]), n) for n in state], special(mk("field", aa[0], "node")))
        fp = fin.expr(selfp(top), pt, special(mk("field", top, "node")))
    except fin.Unknown as u:
        ctx.ob("position", q, False, "a position is computed in a way that is not understood: %s" % u, "unknown")
        return
    n = 0
    bad = None
    for B in range(1, 1 << 16):
        low = (B & -B).bit_length() - 1
        top_ = B.bit_length() - 1
        work = []
        seen = {}
        r = fn(B)
        n += 1
        if r is None or r is fin.DIV:
            bad = ("the least child of %#06x is not found" % B, NEW)
            break
        seen[r] = low
        work.append(r)
        for k in range(top_ + 1):
            m = B >> k
            p = k + (m & -m).bit_length() - 1
            r = fx(B, k)
            n += 1
            if r is None or r is fin.DIV:
                bad = ("the least child of %#06x from nibble %d on is not found" % (B, k), NEXTTO)
                break
            if r in seen:
                if seen[r] != p:
                    bad = ("the children %#06x from nibble %d on start with %d" % (B, k, seen[r]), NEXTTO)
                    break
            else:
                seen[r] = p
                work.append(r)
        if bad:
            break
        while work:
            st = work.pop()
            p = seen[st]
            if fp(*st, B) != p:
                bad = ("position %d of %#06x is taken for %s" % (p, B, fp(*st, B)), NEW)
                break
            r = fl(*st, B)
            n += 2
            if r is None or r is fin.DIV or bool(r[0]) != (p == top_):
                bad = ("position %d of %#06x: last one: %s" % (p, B, r), LASTQ)
                break
            if p == top_:
                continue
            r = fa(*st, B)
            n += 1
            m = B >> (p + 1)
            p2 = p + 1 + (m & -m).bit_length() - 1
            if r is None or r is fin.DIV:
                bad = ("cannot advance from position %d of %#06x" % (p, B), ADV)
                break
            if seen.setdefault(r, p2) != p2:
                bad = ("advances from position %d of %#06x to %d" % (p, B, seen[r]), ADV)
                break
            # each position is checked once
            if r not in work and (r, 0) not in seen:
                work.append(r)
            seen[(r, 0)] = 0
        if bad:
            break
    ctx.ob("position", "jmt::" + (bad[1] if bad else VI[:-2]), bad is None, bad[0] if bad else "", "sets")
    ctx.floor("position", q, n, 1000000 if bad is None else 0, "cases")


# ---------------------------------------------------------------- the stack
def is_top(t, S):
    """t is the last element of S"""
    if t is payload(mk("call", "last", S)):
        return True
    return t.op == "idx" and t.a[0] is S and t.a[1] is sub(mk("call", "len", S), INT1)


def tops(S):
    return [payload(mk("call", "last", S)), mk("idx", S, sub(mk("call", "len", S), INT1))]


def has_top(f, S):
    n = mk("call", "len", S)
    if entails(f, mk_le(INT1, n)) or f.truth(mk_isv(mk("call", "last", S), "Some")) is True:
        return True
    if entails(f, mk_le(n, INT0)) or f.truth(mk_isv(mk("call", "last", S), "None")) is True:
        return False
    if f.truth(mk("call", "is_empty", S)) is not None:
        return not f.truth(mk("call", "is_empty", S))
    return None


def leave(ctx):
    s = summ(ctx, CLEAN, (CLEAN,))
    q = s.fn.qual
    a = plain(s)
    cand = [(L, v) for L in s.I.loops.values() for v, (i, st) in L.vars.items() if i is a[0]]
    ctx.ob("leave", q, len(cand) == 1, "no loop goes up the stack", "loop")
    if len(cand) != 1:
        return
    L, S = cand[0]
    rm = [mk("call", LASTQ, t) for t in tops(S)]

    def rightmost(f):
        for r in rm:
            x = f.truth(r)
            if x is not None:
                return x
        return None

    for x, f in L.vars[S][1]:
        ctx.ob("leave", q, x is mk("popped", S) and has_top(f, S) is True and rightmost(f) is True, "goes on with %s" % show(x)[:160], "round")
    kinds = set()
    for o in s.outs:
        f = o.facts
        if o.kind == "panic":
            ctx.ob("leave", q, False, "can panic", "panic")
            continue
        e = final(o, a[0])
        h = has_top(f, S)
        if h is False:
            kinds.add("empty")
            ctx.ob("leave", q, e in (S, EMPTY, mk("popped", S)), "an empty stack becomes %s" % show(e)[:120], "empty")
        else:
            kinds.add("adv")
            ok = h is True and rightmost(f) is False and any(advanced(e, S, mk("eff", ADV, 0, t)) for t in tops(S))
            ctx.ob("leave", q, ok, "stops with %s" % show(e)[:200], "advance")
    ctx.ob("leave", q, kinds == {"empty", "adv"}, "ends: %s" % sorted(kinds), "ends")


def advanced(e, S, x):
    """e is S with x in the place of its last element"""
    if e is mk("push", mk("popped", S), x):
        return True
    return e.op == "upd" and e.a[0] is S and e.a[2] is x and e.a[1][0] == "i" and e.a[1][1] is sub(mk("call", "len", S), INT1)


def cleaned(t, S):
    return t.op == "eff" and t.a[0] == CLEAN and t.a[-1] is S


def frame(t, fnname, nk, inner):
    """t is the frame built for a node; gives the remaining arguments"""
    if t.op == "call" and t.a[0] == fnname and t.a[1] is nk and t.a[2] is inner:
        return t.a[3:]
    return None


# ---------------------------------------------------------------- start by key
def built(o):
    v = okv(o)
    return v if v.op == "adt" and v.a[0].endswith("JellyfishMerkleIterator") else None


def bool_of(t):
    return True if t is INT1 else False if t is INT0 else None


def same_tree(it, reader, version):
    return proj(it, "reader") is reader and proj(it, "version") is version


def start(ctx):
    s = summ(ctx, JI + "new", ())
    q = s.fn.qual
    a = plain(s)
    reader, version, key = a
    w = Walk(s, reader, key)
    ctx.ob("start", q, w.ok(), "no walk is recognised", "walk")
    if not w.ok():
        return
    ctx.ob("start", q, root_key(w.init, version), "starts at %s" % show(w.init)[:120], "root")
    st = [v for v, (i, _) in w.L.vars.items() if i is EMPTY]
    S = None
    for v in st:
        ok = bool(w.L.vars[v][1])
        for (x, f0), (nk2, _) in zip(w.L.vars[v][1], w.steps):
            r = frame(x.a[1], NEXTTO, w.nk, w.inner) if x.op == "push" and x.a[0] is v else None
            n = w.addressed(nk2, f0)
            if r is None or n is None or not same(f0, uncast(nib0(r[0])), uncast(nib0(n))):
                ok = False
        if ok:
            S = v
    ctx.ob("start", q, S is not None, "the nodes passed are not put on the stack at the child entered", "stack")
    if S is None:
        return
    k = 0
    for x, f0 in w.steps:
        f = good(_O(f0), key)
        if f is None:
            continue
        k += 1
        n = w.addressed(x, f) if w.entry(f) == "Internal" else None
        ctx.ob("start", q, n is not None and w.nibble(n, f), "goes on to %s" % show(x)[:160], "step")
    ctx.floor("start", q, k, 1, "rounds")
    seen = set()
    for o in s.outs:
        f = good(o, key)
        if f is None:
            continue
        e = w.entry(f)
        if o.kind == "panic":
            # no nibble left below the deepest level
            ctx.ob("start", q, e == "Internal" and spent(f, w), "can panic", "panic")
            continue
        if e in ("err", "none", "node") or is_err(o):
            ctx.ob("end", q, is_err(o) and (e in ("err", "none") or e is None and w.enough(f) or e == "Internal" and spent(f, w)), "%s gives %s" % (e, show(o.val)[:100]), "error")
            continue
        it = built(o)
        ctx.ob("start", q, it is not None and same_tree(it, reader, version), "gives %s" % show(o.val)[:120], "made")
        if it is None:
            continue
        stack, done = proj(it, "parent_stack"), proj(it, "done")
        if e == "Null":
            seen.add("null")
            ctx.ob("start", q, bool_of(done) is True, "an empty tree is not at its end", "null")
        elif e == "Leaf":
            lk = mk("field", w.leaf, "key_hash")
            if entails(f, mk_le(key, lk)) or f.truth(mk_eq(key, lk)) is True:
                seen.add("at")
                ctx.ob("start", q, stack is S and bool_of(done) is False, "a leaf at or after the key is passed over: %s" % show(stack)[:120], "at")
            elif entails(f, mk_le(add(lk, INT1), key)):
                seen.add("before")
                c = [x for x in subterms(stack) if cleaned(x, S)]
                d = ends_with(f, stack, done)
                ctx.ob("start", q, cleaned(stack, S), "a leaf before the key is not left: %s" % show(stack)[:120], "before")
                ctx.ob("start", q, d or w.depth0(f) is False, "a single leaf before the key is not the end", "beforedone")
            else:
                ctx.ob("start", q, False, "a leaf is not compared with the key", "cmp")
        else:
            missing(ctx, q, f, w, S, stack, done, seen, key)
    for k in ("null", "at", "before", "right", "none"):
        ctx.ob("start", q, k in seen, "case '%s' is not handled" % k, "missing:" + k)


class _O:
    def __init__(self, f):
        self.facts = f


def nib0(n):
    """the number inside a nibble"""
    return n.a[3][0] if n.op == "adt" else mk("field", n, "0")


def spent(f, w):
    """the key has no nibble left in this round"""
    from jread import no_nibble
    try:
        return bool(no_nibble(f, w))
    except Exception:
        return False


def ends_with(f, stack, done):
    """done exactly when the stack is empty"""
    n = mk("call", "len", stack)
    b = bool_of(done)
    if b is not None:
        return b == (has_top(f, stack) is False) and has_top(f, stack) is not None
    return done in (mk_eq(n, INT0), mk_le(n, INT0), mk("call", "is_empty", stack), mk_not(mk_le(INT1, n)))


def missing(ctx, q, f, w, S, stack, done, seen, key):
    """the child that the key leads to does not exist"""
    gone = None
    for t in doms(f):
        if t.op == "idx" and t.a[0] is kids(w.inner) and f.truth(mk_isv(t, "None")) is True:
            gone = t.a[1]
    at = gone is not None and any(w.nibble(x, f) for x in subterms(gone) if x.op == "call")
    ctx.ob("start", q, at and bool_of(done) is False, "an inner node gives %s" % show(stack)[:120], "inner")
    if not at:
        return
    B = mk("field", mk("call", GB, w.inner), "0")
    nt = uncast(gone)
    try:
        p, k = fin.cond([("B", [B]), ("n", [nt, gone, nt.a[0] if nt.op == "field" else nt])], f, kidbits(w.inner))
    except fin.Unknown:
        p, k = None, 0
    right = cleaned(stack, S) is False
    if not right:
        seen.add("none")
        # no child beyond the missing one
        bad = [(b, n) for b, n in sets() if (b >> n) != 0 and p(b, n)] if p else [(0, 0)]
        ctx.ob("start", q, not bad, "a child beyond the missing one is passed over%s" % (": children %#06x, nibble %d" % bad[0] if bad else ""), "beyond")
    else:
        seen.add("right")
        r = frame(stack.a[1], NEXTTO, w.nk, w.inner) if stack.op == "push" and stack.a[0] is S else None
        ok = r is not None and same(f, uncast(nib0(r[0])), nt)
        ctx.ob("start", q, ok, "stops at %s" % show(stack)[:160], "right")
        bad = [(b, n) for b, n in sets() if (b >> n) == 0 and p(b, n)] if p else [(0, 0)]
        ctx.ob("start", q, not bad, "stops at a node with no child beyond the missing one%s" % (": children %#06x, nibble %d" % bad[0] if bad else ""), "nothing")


def kidbits(node):
    def sp(F, t):
        if t.op == "isv" and t.a[0].op == "idx" and t.a[0].a[0] is kids(node):
            return "((B>>%s)&1==%d)" % (F.e(t.a[0].a[1]), 1 if t.a[1] == "Some" else 0)
        return None
    return sp


def sets():
    """sets of children without child n: only what lies beyond n and whether something lies before it matter to a comparison, but all are gone through"""
    for n in range(16):
        for b in range(1, 1 << 16):
            if not b >> n & 1:
                yield b, n


# ---------------------------------------------------------------- start by index
def index(ctx):
    s = summ(ctx, JI + "new_by_index")
    q = s.fn.qual
    a = plain(s)
    reader, version, at = a
    root = None
    L = nk = None
    for l in s.I.loops.values():
        for v, (i, st) in l.vars.items():
            if is_key(i) and root_key(i, version) and st and all(x.op == "call" and x.a[0] == GEN and x.a[1] is v for x, _ in st):
                L, nk = l, v
    ctx.ob("index", q, L is not None, "no walk from the root is recognised", "walk")
    if L is None:
        return
    rk = L.vars[nk][0]
    rootn = payload(payload(mk("call", READ, reader, rk), "Ok"), "Some")
    node = payload(payload(mk("call", READ, reader, nk), "Ok"), "Some")
    for v, (i, st) in L.vars.items():
        if i is rootn and st and all(x is payload(payload(mk("call", READ, reader, k), "Ok"), "Some") for (x, _), (k, _) in zip(st, L.vars[nk][1])):
            node = v
    inner = payload(node, "Internal")
    skipped = S = None
    for v, (i, st) in L.vars.items():
        if i is INT0 and st and all(x.op == "eff" and x.a[0] == SKIP for x, _ in st):
            skipped = v
    total = mk("call", NLEAF, rootn)
    count = payload(total, "Some")
    ctx.ob("index", q, skipped is not None, "the leaves passed are not counted from zero", "count")
    if skipped is None:
        return
    call = mk("call", SKIP, inner, skipped, at)
    pick = payload(call, "Ok")
    nib, ver = mk("field", pick, "0"), mk("field", mk("field", pick, "1"), "version")
    for x, f in L.vars[nk][1]:
        ctx.ob("index", q, x is mk("call", GEN, nk, ver, nib) and f.truth(mk_isv(node, "Internal")) is True, "goes on to %s" % show(x)[:160], "step")
    for x, f in L.vars[skipped][1]:
        ctx.ob("index", q, x.a[2:] == call.a[1:] or tuple(x.a[-3:]) == tuple(call.a[1:]), "counts %s" % show(x)[:120], "counted")
    for v, (i, st) in L.vars.items():
        if i is EMPTY and st and all(x.op == "push" and x.a[0] is v and (frame(x.a[1], NEXTTO, nk, inner) or (None,))[0] is nib for x, _ in st):
            S = v
    ctx.ob("index", q, S is not None, "the nodes passed are not put on the stack at the child entered", "stack")
    seen = set()
    for o in s.outs:
        f = o.facts
        k = None
        for n in ("Internal", "Leaf", "Null"):
            if f.truth(mk_isv(node, n)) is True:
                k = n
        inloop = any(x is skipped or x is S for t in list(f.d) + list(f.dom) + ([o.val] if o.val is not None else []) for x in subterms(t)) or k is not None and node is not rootn
        less = entails(f, mk_le(add(at, INT1), count))
        more = entails(f, mk_le(count, at))
        if o.kind == "panic":
            ctx.ob("index", q, k == "Null" and less, "can panic", "panic")
            continue
        if not is_err(o):
            it = built(o)
            ok = it is not None and same_tree(it, reader, version)
            ctx.ob("index", q, ok, "gives %s" % show(o.val)[:120], "made")
            if not ok:
                continue
            stack, done = proj(it, "parent_stack"), bool_of(proj(it, "done"))
            if more:
                seen.add("past")
                ctx.ob("index", q, done is True and f.truth(mk_isv(total, "Some")) is True, "an index past the end does not give the end", "past")
            else:
                seen.add("leaf")
                ctx.ob("index", q, less and k == "Leaf" and stack is S and done is False and f.truth(mk_eq(at, skipped)) is True, "stops at %s with %s" % (k, show(stack)[:100]), "leaf")
            continue
        # errors: what a read gave, an unknown count, or a tree that contradicts its counts
        if more:
            ctx.ob("index", q, False, "an index past the end fails", "pasterr")
            continue
        why = [t for t in doms(f) if t.op == "call" and t.a[0] == READ and f.truth(mk_isv(t, "Err")) is True] or \
              [t for t in doms(f) if t.op == "field" and t.a[0].op == "as" and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0] == READ and f.truth(mk_isv(t, "None")) is True] or \
              f.truth(mk_isv(total, "None")) is True or f.truth(mk_isv(call, "Err")) is True or \
              k == "Leaf" and f.truth(mk_eq(at, skipped)) is False or k == "Null"
        if not why:
            why = any(x.op == "more" and v is False and s.I.seqlen(x.a[0]) is not None and entails(f, mk_le(Int(LEVELS), s.I.seqlen(x.a[0]))) for x, v in f.d.items())
        ctx.ob("index", q, bool(why), "fails without cause: %s" % show(o.val)[:120], "error")
    for k in ("past", "leaf"):
        ctx.ob("index", q, k in seen, "case '%s' is not handled" % k, "missing:" + k)


def skip(ctx):
    s = summ(ctx, SKIP, (SKIP,))
    q = s.fn.qual
    a = plain(s)
    node, cnt, target = a
    arr = kids(node)
    cand = [(L, v) for L in s.I.loops.values() for v, (i, st) in L.vars.items() if i is cnt]
    ctx.ob("index", q, len(cand) == 1, "the leaves passed are not counted", "loop")
    if len(cand) != 1:
        return
    L, C = cand[0]
    its = [(v, i) for v, (i, st) in L.vars.items() if v.op == "itv" and all(x.op == "adv" and x.a[0] is v for x, _ in st)]
    src = its[0][1] if len(its) == 1 else None
    try:
        asc = src is not None and conc.order(src, arr) == "up"
    except conc.Unknown as u:
        asc = False
    if asc and src.op == "adt":
        asc = src.a[3][0] is INT0 and src.a[3][1] is Int(15 if src.a[0].endswith("Inclusive") else 16)
    slots = [t for t in allterms(s) if (t.op == "elem" and any(x is arr for x in subterms(t))) or t.op == "idx" and t.a[0] is arr]
    # what a filter refuses are empty positions
    every = all(any(f.truth(mk_isv(t, "None")) is True for t in slots + [e, mk("idx", arr, mk("ind", L.id, INT0))]) for e, f in s.I.rejects.get(str(L.id), ()))
    ctx.ob("index", q, asc and every, "does not go through all children upwards", "order")
    if not asc:
        return
    ind = mk("ind", L.id, INT0)

    def child(f):
        for t in slots:
            if f.truth(mk_isv(t, "Some")) is True:
                return t, payload(t, "Some")
        return None, None

    for k, (x, f) in enumerate(L.vars[C][1]):
        t, c = child(f)
        if c is None:
            ctx.ob("index", q, x is C and any(f.truth(mk_isv(t, "None")) is True for t in slots), "an empty position counts %s" % show(x)[:100], "empty")
            continue
        n = payload(mk("call", CLEAF, c), "Some")
        ok = same(f, x, add(C, n)) and entails(f, mk_le(add(C, n), target))
        ctx.ob("index", q, ok, "a child is passed with %s" % show(x)[:120], "pass")
    seen = set()
    for o in s.outs:
        f = o.facts
        t, c = child(f)
        if o.kind == "panic":
            ok = c is not None and f.truth(mk_isv(mk("call", CLEAF, c), "None")) is True
            ctx.ob("index", q, ok, "can panic", "panic")
            continue
        if is_err(o):
            ok = any(x.op == "more" and v is False for x, v in f.d.items()) or c is not None and f.truth(mk_isv(mk("call", CLEAF, c), "None")) is True
            ctx.ob("index", q, ok, "fails without having gone through all children", "error")
            continue
        seen.add("hit")
        n = payload(mk("call", CLEAF, c), "Some") if c is not None else None
        v = okv(o)
        i = v.a[0][0] if v.op == "tuple" else None
        ok = c is not None and entails(f, mk_le(add(target, INT1), add(C, n))) and final(o, cnt) is C and v.op == "tuple" and v.a[0][1] is c
        ctx.ob("index", q, ok, "stops with %s" % show(v)[:160], "hit")
        # position of the slot
        ix = ind if t is None or t.op == "elem" else t.a[1]
        ctx.ob("index", q, i is not None and same(f, uncast(nib0(i)), uncast(ix)), "the child's position is given as %s" % show(i)[:100] if i is not None else "", "nibble")
    ctx.ob("index", q, "hit" in seen, "no child is ever chosen", "missing:hit")


def allterms(s):
    seen = set()
    for L in s.I.loops.values():
        for e, f in s.I.rejects.get(str(L.id), ()):
            for t in f.dom:
                if t not in seen:
                    seen.add(t)
                    yield t
    for o in s.outs + [b for L in s.I.loops.values() for b in L.backs]:
        for t in o.facts.dom:
            if t not in seen:
                seen.add(t)
                yield t


# ---------------------------------------------------------------- the step
def step(ctx):
    s = summ(ctx, NEXT)
    q = s.fn.qual
    a = plain(s)
    me = a[0]
    reader, version, stack0, done = (mk("field", me, n) for n in ("reader", "version", "parent_stack", "done"))
    cand = [(L, v) for L in s.I.loops.values() for v, (i, st) in L.vars.items() if i is stack0]
    ctx.ob("advance", q, len(cand) == 1, "no loop goes down from the position", "loop")
    if len(cand) != 1:
        return None
    L, S = cand[0]
    pos = None
    childkey = None
    for t in s_terms(s):
        if t.op == "call" and t.a[0] == READ and t.a[1] is reader and t.a[2].op == "call" and t.a[2].a[0] == GEN:
            g = t.a[2]
            tp = [x for x in tops(S) if g.a[1] is mk("field", x, "node_key")]
            if tp:
                childkey, top = g, tp[0]
    ctx.ob("advance", q, childkey is not None, "the child at the position is not read", "child")
    if childkey is None:
        return None
    n = childkey.a[3]
    inner = mk("field", top, "node")
    pos = uncast(nib0(n))
    rd = mk("call", READ, reader, childkey)
    node = payload(payload(rd, "Ok"), "Some")
    ok = is_child_version(childkey.a[2], inner, n, Facts())
    ctx.ob("advance", q, ok, "the child is read at %s" % show(childkey)[:160], "version")
    kid = mk("idx", kids(inner), nib0(n))

    def entry_(f):
        if f.truth(mk_isv(rd, "Err")) is True:
            return "err"
        if f.truth(mk_isv(payload(rd, "Ok"), "None")) is True:
            return "none"
        for k in ("Internal", "Leaf", "Null"):
            if f.truth(mk_isv(node, k)) is True:
                return k
        return None

    for x, f in L.vars[S][1]:
        r = frame(x.a[1], NEW, childkey, payload(node, "Internal")) if x.op == "push" and x.a[0] is S else None
        ctx.ob("advance", q, entry_(f) == "Internal" and r is not None, "goes on with %s" % show(x)[:160], "down")
    rootk = None
    seen = set()
    for o in s.outs:
        f = o.facts
        e = entry_(f)
        fin_ = final(o, me)
        h0 = has_top(f, stack0)
        d = f.truth(done)
        if o.kind == "panic":
            # the stack is not empty, the position is that of a child, and the root of an empty tree is never read again
            ok = h0 is True and (has_top(f, S) is False or f.truth(mk_isv(kid, "None")) is True or entails(f, mk_le(Int(16), pos)) or f.truth(mk_le(Int(16), mk("cast", "u8", pos))) is True) or \
                h0 is False and root_entry(f, reader, version) == "Null" or e == "Null"
            ctx.ob("end", q, ok, "can panic", "panic")
            continue
        v = o.val
        kept = all(proj(fin_, x) is mk("field", me, x) for x in ("reader", "version"))
        ctx.ob("advance", q, kept, "the tree iterated over changes", "kept")
        if d is True:
            seen.add("done")
            ctx.ob("end", q, v is NONE, "after the end it yields %s" % show(v)[:100], "done")
            continue
        if d is None:
            ctx.ob("end", q, False, "the end is not remembered", "done")
            continue
        if h0 is False:
            e = root_entry(f, reader, version)
            if e == "Leaf":
                rk = [t for t in doms(f) if t.op == "call" and t.a[0] == READ and root_key(t.a[2], version)][0].a[2]
                leaf = payload(payload(payload(mk("call", READ, reader, rk), "Ok"), "Some"), "Leaf")
                seen.add("single:" + str(yielded(ctx, q, o, f, reader, version, rk, leaf)))
                if not err_item(v):
                    ctx.ob("end", q, bool_of(proj(fin_, "done")) is True, "a single leaf is yielded again", "single")
            elif e == "Internal":
                seen.add("end")
                ctx.ob("end", q, v is NONE, "with nothing left it yields %s" % show(v)[:100], "end")
            elif e in ("err", "none"):
                ctx.ob("end", q, err_item(v), "an unreadable root yields %s" % show(v)[:100], "rooterr")
            else:
                ctx.ob("end", q, e == "Null" and (v is NONE or err_item(v)), "an empty stack yields %s" % show(v)[:100], "empty")
            continue
        if h0 is None:
            ctx.ob("advance", q, False, "it is not decided whether something is left", "left")
            continue
        if e == "Leaf":
            leaf = payload(node, "Leaf")
            k = yielded(ctx, q, o, f, reader, version, childkey, leaf)
            seen.add("leaf:" + str(k))
            if k == "some":
                st = proj(fin_, "parent_stack")
                ctx.ob("advance", q, cleaned(st, S) and proj(fin_, "done") in (done, INT0), "after a leaf the position is %s" % show(st)[:160], "leave")
        elif e in ("err", "none", "Null"):
            ctx.ob("end", q, err_item(v), "%s yields %s" % (e, show(v)[:100]), "failed")
        else:
            ctx.ob("advance", q, False, "yields %s without a leaf" % show(v)[:100], "other")
    for k in ("done", "end", "leaf:some", "single:some"):
        ctx.ob("advance", q, k in seen, "case '%s' is not handled" % k, "missing:" + k)
    return (pos, top)


def s_terms(s):
    seen = set()
    for o in s.outs + [b for L in s.I.loops.values() for b in L.backs]:
        for t in list(o.facts.dom):
            for x in subterms(t):
                if x not in seen:
                    seen.add(x)
                    yield x


def root_entry(f, reader, version):
    for t in doms(f):
        if t.op == "call" and t.a[0] == READ and t.a[1] is reader and root_key(t.a[2], version):
            if f.truth(mk_isv(t, "Err")) is True:
                return "err"
            if f.truth(mk_isv(payload(t, "Ok"), "None")) is True:
                return "none"
            for k in ("Internal", "Leaf", "Null"):
                if f.truth(mk_isv(payload(payload(t, "Ok"), "Some"), k)) is True:
                    return k
    return None


def err_item(v):
    return v.op == "adt" and v.a[1] == "Some" and v.a[3][0].op == "adt" and v.a[3][0].a[1] == "Err"


def yielded(ctx, q, o, f, reader, version, nk, leaf):
    """a leaf yields its key with the value that the version has for it"""
    v = o.val
    lk = mk("field", leaf, "key_hash")
    at = [version, proj(nk, "version")] + ([nk.a[2]] if nk.op == "call" and nk.a[0] == GEN else [])
    got = None
    for t in doms(f):
        if t.op == "call" and t.a[0] == VAL and t.a[1] is reader and t.a[3] is lk and any(version_is(t.a[2], x) for x in at):
            got = t
    if got is None:
        ctx.ob("advance", q, False, "the leaf's value is not read at this version: %s" % show(v)[:160], "value")
        return None
    p = payload(got, "Ok")
    if f.truth(mk_isv(got, "Err")) is True or f.truth(mk_isv(p, "None")) is True:
        ctx.ob("end", q, err_item(v), "an unreadable value yields %s" % show(v)[:100], "valerr")
        return "err"
    val = payload(p, "Some")
    ok = v.op == "adt" and v.a[1] == "Some" and v.a[3][0].op == "adt" and v.a[3][0].a[1] == "Ok" and v.a[3][0].a[3][0].op == "tuple" and tuple(v.a[3][0].a[3][0].a[0]) == (lk, val)
    ctx.ob("advance", q, ok, "a leaf yields %s" % show(v)[:160], "item")
    return "some"


# ---------------------------------------------------------------- the tree's own iterator
def entry(ctx):
    n = 0
    for f in ctx.db("jmt").fns.values():
        if f.name != "iter" or "tree::JellyfishMerkleTree" not in f.qual or "closure" in f.qual:
            continue
        n += 1
        s = ctx.summ(f.qual, lambda g: g.crate == "jmt" and g.path == JI + "new_by_index", "jie", fine=2)
        a = plain(s)
        for o in s.outs:
            v = o.val
            ok = o.kind == "ret" and v.op == "call" and v.a[0] == JI + "new_by_index" and v.a[1] is mk("field", a[0], "reader") and v.a[2] is a[1] and v.a[3] is INT0
            if o.kind == "ret" and not ok and v.op == "adt":
                c = mk("call", JI + "new_by_index", mk("field", a[0], "reader"), a[1], INT0)
                ok = v.a[1] == "Ok" and v.a[3][0] is payload(c, "Ok") or v.a[1] == "Err" and v.a[3][0] is payload(c, "Err")
            ctx.ob("start", f.qual, ok, "the tree iterates from %s" % (show(v)[:120] if v is not None else "panic"), "tree")
    ctx.floor("start", "jmt::tree", n, 1, "iterating operations")
