"""No honest chunk is refused (J28): what a restoration may refuse a chunk for, and the siblings that are left out at the bottom."""
from lib import *
from jdb import plain
from proofs import PLACEHOLDER, check_range_verify, bits_in
from jrestore import R, T_ADD, ADD, VERIFY, FREEZE, WRITE, last, ours, range_proof, is_last


def check_accept(ctx):
    ctx.rule("refused", "a chunk is refused only because it is empty, because a key is not greater than the one before it, because verifying it fails or because storage does; verifying fails only when the proof has more siblings on the right than the key has clear bits, "
             "or because the range proof does")
    ctx.rule("trimmed", "of the siblings on the left, those at the bottom are left out while nothing is there: up from the last bit, a set bit's sibling when it is a placeholder, and a clear bit's level while the proof has fewer siblings on the right than there are clear bits; and no others")
    refusals(ctx)
    early(ctx)
    trim(ctx)
    check_range_verify(Only(ctx, lambda key, why: key != "len" and not why.startswith("success without")))


class Only:
    """the obligations of a check that matter here"""

    def __init__(self, ctx, keep):
        self.__dict__.update(_c=ctx, _k=keep)

    def __getattr__(self, n):
        return getattr(self._c, n)

    def ob(self, rid, where, ok, detail="", key=None, *a):
        if ok or self._k(key, str(detail)):
            self._c.ob(rid, where, ok, detail, key, *a)


def refusals(ctx):
    s = ctx.summ(T_ADD, lambda f: True if ours(f, ADD, VERIFY, FREEZE) else None, "j19", fine=2)
    q = s.fn.qual
    chunk = plain(s)[1]
    n = 0
    for o in s.outs:
        if o.kind != "ret" or not is_err(o):
            continue
        f = o.facts
        why = entails(f, mk_le(mk("call", "len", chunk), INT0))
        for e in o.events:
            if e.kind == "call" and (last(e.name) == WRITE or last(e.name) == VERIFY) and e.res is not None and (o.val is e.res or f.truth(mk_isv(e.res, "Err")) is True or any(x is e.res for x in subterms(o.val))):
                why = True
        for L in s.I.loops.values():
            for cur in L.vars:
                prev = mk("field", cur, "previous_leaf")
                if cur.op == "lv" and f.truth(mk_isv(prev, "None")) is not True:
                    pk = mk("field", payload(prev), "key_hash")
                    ks = {mk("field", mk("elem", chunk, L.id), "0"), mk("field", mk("idx", chunk, mk("ind", L.id, INT0)), "0")}
                    ks |= {mk("field", x, "0") for t in f.d for x in subterms(t) if x.op == "elem" and x.a[0] is chunk}
                    why = why or any(entails(f, mk_le(k, pk)) for k in ks)
        n += 1
        ctx.ob("refused", q, bool(why), "a chunk is refused when %s" % ("; ".join(f.list())[:300] or "it comes"), "chunk")
    ctx.floor("refused", q, n, 3, "refusals")


def ranged(o):
    return [e for e in o.events if e.kind == "call" and last(e.name) == "verify" and "SparseMerkleRangeProof" in e.name]


def parts(ctx):
    s = ctx.summ(R + VERIFY, range_proof, "j19", fine=2)
    selfv, pf = plain(s)[:2]
    prev = payload(mk("field", selfv, "previous_leaf"))
    key = mk("field", mk("field", prev, "key_hash"), "0")
    return s, selfv, key, mk("call", "len", mk("field", pf, "right_siblings"))


def bit(f, key, lid, up):
    """the value of the bit that this pass of the loop is at"""
    ix = mk("ind", lid, INT0)
    want = sub(Int(255), ix) if up else ix
    for bs, i, v in bits_in(f):
        if bs is key and (i is want or entails(f, mk_eq(i, want))):
            return bool(v)
    return None


def whole(s, f, L):
    """after the loop has gone through all 256 bits"""
    return any(g.op == "more" and v is False and str(g.a[1]).split("~")[0] == str(L.id) and s.I.seqlen(unsieved(g.a[0])) is Int(256) for g, v in f.d.items())


def counts(s, c, key, after):
    """c is the number of clear bits of the key"""
    for L in s.I.loops.values():
        if c in L.vars and c.op == "lv":
            init, st = L.vars[c]
            if not whole(s, after, L):
                return "clear bits may be counted only for a part of the key"
            if init is not INT0:
                return "the clear bits are counted from %s" % show(init)[:60]
            for x, f in st:
                b = bit(f, key, L.id, False)
                if b is None:
                    b = bit(f, key, L.id, True)
                if b is None and x is c:
                    return "clear bits are not counted by the key's bits"
                if x is not (c if b else add(c, INT1)):
                    return "at a %s bit, the number of clear bits becomes %s" % ("set" if b else "clear", show(x)[:60])
            # what a filter takes out must be the set bits
            out = [bit(f, key, L.id, False) for _, f in s.I.rejects.get(str(L.id), ())]
            if out and not all(out) or len(st) + len(out) < 2:
                return "clear bits are not counted by the key's bits"
            return None
    # so many as the list of the others leaves over; that this has one for every set bit is J19's
    for x in subterms(c):
        if x.op == "call" and x.a[0] == "len" and (x.a[1].op in ("coll", "lv")) and c is sub(Int(256), x):
            return None
    return "the number of clear bits is %s" % show(c)[:80]


def early(ctx):
    s, selfv, key, d = parts(ctx)
    q = s.fn.qual
    for o in s.outs:
        if o.kind != "ret" or not is_err(o) or any(o.val is e.res or any(x is e.res for x in subterms(o.val)) for e in ranged(o)):
            continue
        # fewer clear bits than siblings
        cs = {x for t in o.facts.d for x in subterms(t) if x.op == "lv" and any(x in L.vars and L.vars[x][0] is INT0 for L in s.I.loops.values())}
        cs |= {sub(Int(256), x) for t in o.facts.d for x in subterms(t) if x.op == "call" and x.a[0] == "len" and x.a[1].op in ("coll", "lv")}
        why = any(entails(o.facts, mk_lt(c, d)) and counts(s, c, key, o.facts) is None for c in cs)
        ctx.ob("refused", q, why, "a chunk is refused before its proof is verified, when %s" % "; ".join(o.facts.list())[:300], "early")


def trim(ctx):
    s, selfv, key, d = parts(ctx)
    q = s.fn.qual
    n = 0
    for o in s.outs:
        for e in ranged(o):
            n += 1
            why = trimmed(s, e.res.a[4], e.facts, key, d)
            ctx.ob("trimmed", q, why is None, why or "exactly", "trim:%s" % why)
    ctx.floor("trimmed", q, n, 1, "verified sets of siblings")


def trimmed(s, t, out, key, d):
    while t.op in ("reversed", "rev"):
        t = t.a[0]
    L = next((L for L in s.I.loops.values() if t in L.vars), None)
    if L is None or not any(x is mk("popped", t) for x, f in L.vars[t][1]):
        return "nothing is left out of the siblings at the bottom"
    cs = [v for v in L.vars if v.op == "lv" and v is not t]
    end = mk("idx", t, sub(mk("call", "len", t), INT1))

    def nothing(f):
        if any(PLACEHOLDER in p and any(is_last(y, t) for y in p) for p in eq_facts(f)):
            return True
        for k, v in f.d.items():
            if v is False and k.op == "eq" and PLACEHOLDER in k.a and any(is_last(y, t) for y in k.a):
                return False
        return False if entails(f, mk_le(mk("call", "len", t), INT0)) else None

    def over(f, c):
        """more clear bits than the proof has siblings for"""
        return True if entails(f, mk_lt(d, c)) else False if entails(f, mk_le(c, d)) else None
    why = None
    for c in cs or [None]:
        why = None
        for j, b in enumerate(L.backs):
            f = b.facts
            x = L.vars[t][1][j][0]
            y = c is not None and L.vars[c][1][j][0]
            k = bit(f, key, L.id, True)
            if k is None:
                why = why or "siblings are left out without regard to the key's bit"
            elif k:
                if nothing(f) is not True or x is not mk("popped", t) or y is not (c or False):
                    why = why or "at a set bit, going on, the siblings become %s, of %s clear bits" % (show(x)[:60], show(y)[:40] if c else "no")
            elif c is None or over(f, c) is not True or x is not t or y is not sub(c, INT1):
                why = why or "at a clear bit, going on, the siblings become %s, of %s clear bits" % (show(x)[:60], show(y)[:40] if c else "no")
        if c is not None and why is None:
            why = counts(s, L.vars[c][0], key, out)
        # where it stops
        if why is None:
            k = bit(out, key, L.id, True)
            if not whole(s, out, L) and not (k is True and nothing(out) is False or k is False and over(out, c) is False):
                why = "more could be left out"
        if why is None:
            return None
    return why
