"""Verification of sparse Merkle proofs (JMT)."""
from lib import *

LEAF_SEP = mk("bytes", "JMT::LeafNode")
INT_SEP = mk("bytes", "JMT::IntrnalNode")
PLACEHOLDER = mk("bytes", "SPARSE_MERKLE_PLACEHOLDER_HASH__")
PROOF = "jmt::types::proof::definition::SparseMerkleProof::<H>::"
RANGE = "jmt::types::proof::definition::SparseMerkleRangeProof::verify"
PREFIX = "jmt::<[u8; 32] as bytes32ext::Bytes32Ext>::common_prefix_bits_len"


def HL(leaf):
    return mk("H", "sha256", LEAF_SEP, fields(leaf, "key_hash", "0"), fields(leaf, "value_hash", "0"))


def opq(fn):
    return fn.name == "common_prefix_bits_len" and fn.crate == "jmt"


def prefix_call(a, b):
    n = PREFIX.split("::", 1)[1]
    return [mk("call", n, a, b), mk("call", n, b, a)]


def fold_problem(s, facts, X, inits, siblings, keys, exact_len=None):
    """X must be the root recomputed from `inits` and all `siblings` along the bits of one of `keys`"""
    L = loop_of(s.I, X)
    if L is None or X.op != "lv":
        return "the compared value is not the hash folded over the siblings"
    init, steps = L.vars[X]
    if not any(init is i for i in inits):
        return "the fold starts from %s" % show(init)[:200]
    dirs = set()
    for t, f in steps:
        if t.op != "H" or t.a[0] != "sha256" or len(t.a) != 4 or t.a[1] is not INT_SEP:
            return "a fold step is not the internal-node hash: %s" % show(t)[:200]
        a, b = t.a[2], t.a[3]
        sib = [mk("elem", x, L.id) for x in siblings]
        if a is X and b in sib:
            d, y = 0, b
        elif b is X and a in sib:
            d, y = 1, a
        else:
            return "a fold step does not combine the running hash with the sibling of its level: %s" % show(t)[:200]
        idx = None
        n = exact_len
        want = sub(sub(n, INT1), mk("ind", L.id, INT0))
        good = False
        for bs, i, v in bits_in(f):
            if not any(bs is k for k in keys):
                continue
            if i is want or entails(f, mk_eq(i, want)):
                if bool(v) == bool(d):
                    good = True
                else:
                    return "the side of the sibling is swapped with respect to the key bit"
        if not good:
            return "a fold step is not selected by the key bit of its level (bit %s of the key)" % show(want)
        dirs.add(d)
    if dirs != {0, 1}:
        return "only one side of siblings is handled"
    if len(siblings) == 1 and not exhausted(s.I, facts, L.id, siblings[0]):
        return "the fold may stop before the last sibling"
    return None


def root_eq(f, root):
    """values known equal to the expected root"""
    r = mk("field", root, "0")
    for a, b in eq_facts(f):
        if a is r:
            yield b
        if b is r:
            yield a


def check_proof_verify(ctx):
    ctx.rule("accept", "every success return of a sparse-proof verification entry is dominated by: at most 256 siblings; "
             "recomputed root (leaf or placeholder hash folded with every sibling on the side given by the key bits, "
             "domain-separated) equal to the expected root; for inclusion: claimed key and value hash equal to the "
             "proof leaf's; for exclusion with a leaf: different key sharing at least as many bits as there are siblings")
    ctx.rule("reject", "every failure return is justified by the negation of one of those conditions")
    for nm, mode in (("verify", None), ("verify_existence", "in"), ("verify_nonexistence", "out")):
        q = PROOF + nm
        s = ctx.summ(q, opq, "proof")
        selfv = mk("arg", 0, s.fn.locals[1]["n"])
        root = mk("arg", 1, s.fn.locals[2]["n"])
        key = mk("arg", 2, s.fn.locals[3]["n"])
        key0 = mk("field", key, "0")
        val = mk("arg", 3, s.fn.locals[4]["n"]) if s.fn.argc > 3 else None
        sibs = mk("field", selfv, "siblings")
        leafo = mk("field", selfv, "leaf")
        leaf = payload(leafo)
        n = mk("call", "len", sibs)
        short = mk_le(n, Int(256))
        lk = fields(leaf, "key_hash")
        keyeq = mk_eq(key, lk)
        keyeq0 = mk_eq(key0, mk("field", lk, "0"))
        oks = s.oks
        cases = set()
        for o in oks:
            f = o.facts
            w = s.fn.qual
            if not entails(f, short):
                ctx.ob("accept", w, False, "a proof with more than 256 siblings can be accepted", "siblings")
            else:
                ctx.ob("accept", w, True)
            has_leaf = f.truth(mk_isv(leafo, "Some"))
            incl = mode == "in" if mode else f.truth(mk_isv(val, "Some"))
            if mode is None and incl is None:
                ctx.ob("accept", w, False, "inclusion and exclusion verification are not told apart", "mode")
                continue
            if has_leaf is None:
                # exclusion paths may be joined; both shapes must then satisfy the leaf conditions
                ctx.ob("accept", w, False, "success without inspecting the proof leaf", "leaf")
                continue
            v = payload(val) if mode is None and val is not None else val
            cases.add((bool(incl), has_leaf))
            if incl:
                ctx.ob("accept", w, has_leaf, "an inclusion claim is accepted without a leaf in the proof", "incl-leaf")
                if not has_leaf:
                    continue
                ctx.ob("accept", w, f.truth(keyeq) is True or f.truth(keyeq0) is True,
                       "an inclusion claim is accepted without the proof leaf being for the claimed key", "incl-key")
                vh = mk("H", "H", v)
                ctx.ob("accept", w, f.truth(mk_eq(vh, fields(leaf, "value_hash", "0"))) is True,
                       "an inclusion claim is accepted without the claimed value's hash being the leaf's", "incl-value")
            elif has_leaf:
                ctx.ob("accept", w, f.truth(keyeq) is False or f.truth(keyeq0) is False,
                       "an exclusion claim is accepted although the proof leaf may be the claimed key", "excl-key")
                ok = any(entails(f, mk_le(n, c)) for c in prefix_call(key0, mk("field", lk, "0")))
                ctx.ob("accept", w, ok, "an exclusion claim is accepted although the proof leaf may lie in another subtree",
                       "excl-prefix")
            inits = [HL(leaf)] if has_leaf else [PLACEHOLDER]
            keys = [key0] + ([mk("field", lk, "0")] if has_leaf else [])
            probs = [fold_problem(s, f, X, inits, [sibs], keys, n) for X in root_eq(f, root)] or \
                ["success without comparing the recomputed root with the expected root"]
            ctx.ob("accept", w, None in probs, probs[0] or "", "root")
        want = {"in": {(True, True)}, "out": {(False, True), (False, False)}}.get(
            mode, {(True, True), (False, True), (False, False)})
        ctx.ob("accept", s.fn.qual, cases == want, "accepting cases %s, expected %s" % (sorted(cases), sorted(want)), "cases")
        # rejects
        for o in s.errs:
            f = o.facts
            incl = mode == "in" if mode else f.truth(mk_isv(val, "Some"))
            has_leaf = f.truth(mk_isv(leafo, "Some"))
            v = payload(val) if mode is None and val is not None else val
            why = []
            if entails(f, mk_not(short)):
                why.append("len")
            if incl and has_leaf is False:
                why.append("noleaf")
            if incl and has_leaf:
                if f.truth(keyeq) is False or f.truth(keyeq0) is False:
                    why.append("key")
                if f.truth(mk_eq(mk("H", "H", v), fields(leaf, "value_hash", "0"))) is False:
                    why.append("value")
            if incl is False and has_leaf:
                if f.truth(keyeq) is True or f.truth(keyeq0) is True:
                    why.append("key")
                if any(entails(f, mk_lt(c, n)) for c in prefix_call(key0, mk("field", lk, "0"))):
                    why.append("prefix")
            for k, vv in f.d.items():
                if not vv and k.op == "eq" and mk("field", root, "0") in k.a:
                    why.append("root")
            ctx.ob("reject", s.fn.qual, bool(why), "a proof is refused for a reason outside the specified conditions: "
                   + "; ".join(f.list())[:600], "reason")
        ctx.floor("accept", s.fn.qual, len(oks), len(want), "accepting paths")
        for p in s.panics:
            ctx.ob("reject", s.fn.qual, False, "verification can panic", "panic")
    check_prefix_len(ctx)
    check_root_hash(ctx)


def check_root_hash(ctx):
    """SparseMerkleProof::root_hash recomputes the same root along the leaf's own key"""
    q = PROOF + "root_hash"
    s = ctx.summ(q, opq, "proof")
    selfv = mk("arg", 0, s.fn.locals[1]["n"])
    sibs = mk("field", selfv, "siblings")
    leaf = payload(mk("field", selfv, "leaf"))
    n = mk("call", "len", sibs)
    for o in s.rets:
        X = fields(o.val, "0")
        p = fold_problem(s, o.facts, X, [HL(leaf)], [sibs], [fields(leaf, "key_hash", "0")], n)
        ctx.ob("accept", q, p is None, p or "", "root")
    ctx.floor("accept", q, len(s.rets), 1, "returns")


def bytewise_prefix(s, a, b):
    """None, or what is wrong, when the two values are compared byte by byte: the count is 8 per equal byte and the zeros in front of the first difference;
    False when the function is not of that form"""
    Ls = list(s.I.loops.values())
    if len(Ls) != 1:
        return False
    lid = Ls[0].id
    i = mk("ind", lid, INT0)

    def byte_of(t):
        for y in (a, b):
            if t is mk("elem", y, lid) or t is mk("idx", y, i):
                return y
        return None

    def differ(f):
        for k, v in f.d.items():
            if k.op == "eq" and {byte_of(k.a[0]), byte_of(k.a[1])} == {a, b}:
                return not v
            if k.op == "eq0" and k.a[0].op == "bin" and k.a[0].a[0] == "BitXor" and {byte_of(k.a[0].a[1]), byte_of(k.a[0].a[2])} == {a, b}:
                return not v
        return None
    form = False
    bad = None
    for o in s.outs:
        if o.kind != "ret":
            bad = "can panic"
            continue
        ended = any(k.op == "more" and v is False for k, v in o.facts.d.items())
        if o.val is Int(256) and ended:
            continue
        c, d = lin_of(o.val)
        if c == 0 and len(d) == 2 and d.get(i) == 8:
            z, = [t for t in d if t is not i]
            if d[z] == 1 and z.op == "call" and z.a[0] == "leading_zeros" and z.a[1].op == "bin" and z.a[1].a[0] == "BitXor":
                if {byte_of(z.a[1].a[1]), byte_of(z.a[1].a[2])} == {a, b}:
                    form = True
                    if differ(o.facts) is not True:
                        bad = "stops although the bytes may be equal"
                    continue
        return False
    if not form:
        return False
    names = [str(b_["p"]) for f in [s.fn] for b_ in iter_calls(f)]
    if any("leading_zeros" in n and "u8" not in n for n in names):
        bad = "counts leading zeros of another width than a byte's"
    for bk in Ls[0].backs:
        if differ(bk.facts) is not False:
            bad = "goes on although the bytes may differ"
    whole = False
    for o in s.outs:
        for k, v in o.facts.d.items():
            if k.op == "more":
                x = k.a[0]
                while x.op == "it" and x.a[0] in ("enumerate", "copied", "cloned", "iter", "into_iter"):
                    x = x.a[1]
                whole = whole or x.op == "it" and x.a[0] == "zip" and set(x.a[1:3]) == {a, b} or x.op == "adt" and x.a[1] == "Range" and x.a[3] == (INT0, Int(32))
    if not whole:
        bad = bad or "does not cover all 32 bytes"
    return bad


def iter_calls(o):
    if hasattr(o, "blocks"):
        o = o.blocks
    if isinstance(o, dict):
        if isinstance(o.get("p"), str) and "ga" in o:
            yield o
        for v in o.values():
            if isinstance(v, (dict, list)):
                yield from iter_calls(v)
    elif isinstance(o, list):
        for v in o:
            yield from iter_calls(v)


def check_prefix_len(ctx):
    """common_prefix_bits_len counts the leading positions at which both bit sequences agree"""
    ctx.rule("prefix", "the common-prefix length is the count of leading bit positions (most significant first) at which "
             "both hashes agree")
    s = ctx.summ(PREFIX)
    a = mk("arg", 0, s.fn.locals[1]["n"])
    b = mk("arg", 1, s.fn.locals[2]["n"])
    p = bytewise_prefix(s, a, b)
    if p is not False:
        ctx.ob("prefix", s.fn.qual, p is None, p or "", "bytes")
        ctx.floor("prefix", s.fn.qual, len(s.rets), 1, "returns")
        return
    for o in s.rets:
        X = o.val
        if X is Int(256) and len(s.I.loops) == 1 and any(k.op == "more" and v is False for k, v in o.facts.d.items()):
            # every position was gone through
            X = mk("ind", list(s.I.loops)[0], INT0)
            if not list(s.I.loops.values())[0].backs:
                X = o.val
        L = loop_of(s.I, X)
        if L is None or X.op != "ind":
            ctx.ob("prefix", s.fn.qual, False, "result is not a count of agreeing positions: %s" % show(X)[:200], "count")
            continue
        init, steps = L.vars[X] if X in L.vars else (INT0, [(add(X, INT1), b.facts) for b in L.backs])
        ok = init is INT0 and all(t is add(X, INT1) for t, f in steps) and steps
        for t, f in steps:
            bs = {(x.n, i.n): v for x, i, v in bits_in(f)}
            va, vb = bs.get((a.n, X.n)), bs.get((b.n, X.n))
            same = (va is not None and va == vb) or bit_eq_fact(f, a, b, X)
            ok = ok and same
        ctx.ob("prefix", s.fn.qual, ok, "counts positions at which the two hashes differ, or skips positions", "step")
        # the count stops only at a disagreement or at the end
        fin = any(k.op == "more" and v is False for k, v in o.facts.d.items()) or \
            any(v is False and k.op == "eq" for k, v in o.facts.d.items()) or entails(o.facts, mk_le(Int(256), X))
        ctx.ob("prefix", s.fn.qual, fin, "the count can stop before the first disagreement", "stop")
    ctx.floor("prefix", s.fn.qual, len(s.rets), 1, "returns")


def bit_eq_fact(f, a, b, i):
    for k, v in f.d.items():
        if v and k.op == "eq":
            x, y = bit_of_bool(k.a[0]), bit_of_bool(k.a[1])
            if x and y and x[2] == y[2] and x[1] is i and y[1] is i and {x[0], y[0]} == {a, b}:
                return True
    return False


def bit_of_bool(t):
    b = as_bit(t)
    if b:
        return b
    r = bit_term(t)
    return (r[0], r[1], True) if r else None


def check_range_verify(ctx):
    ctx.rule("range", "every success return of the range-proof verification is dominated by: at most 256 siblings in total; "
             "root recomputed from the rightmost leaf, left siblings on set bits and right siblings on clear bits of the "
             "leaf's key, over all levels, equal to the expected root; a missing sibling is an error")
    s = ctx.summ(RANGE, opq, "proof")
    fn = s.fn
    selfv, root, leaf, lefts = [mk("arg", i, fn.locals[i + 1]["n"]) for i in range(4)]
    rights = mk("field", selfv, "right_siblings")
    n = add(mk("call", "len", lefts), mk("call", "len", rights))
    key = fields(leaf, "key_hash", "0")
    for o in s.oks:
        f = o.facts
        # the levels folded: all of them
        probs = []
        for X in root_eq(f, root):
            L = loop_of(s.I, X)
            if L is None or X.op != "lv":
                probs.append("the compared value is not the folded hash")
                continue
            p = range_fold(s, f, L, X, leaf, lefts, rights, key, n)
            probs.append(p)
        ctx.ob("range", fn.qual, None in probs, (probs or ["success without comparing the recomputed root"])[0], "root")
        ctx.ob("range", fn.qual, entails(f, mk_le(n, Int(256))), "more than 256 siblings can be accepted", "len")
    ctx.floor("range", fn.qual, len(s.oks), 1, "accepting paths")
    for o in s.errs:
        f = o.facts
        why = []
        for k, v in f.d.items():
            if not v and k.op == "eq" and mk("field", root, "0") in k.a:
                why.append("root")
            if not v and k.op == "more" and (seq_covers(k.a[0], lefts) or seq_covers(k.a[0], rights)):
                why.append("missing")
        for L in s.I.loops.values():
            for lv, (init, _) in L.vars.items():
                if lv.op == "lv" and init is INT0 and any(entails(f, mk_le(mk("call", "len", x), lv)) and takes(L, mk("idx", x, lv)) for x in (lefts, rights)):
                    why.append("missing")
        if entails(f, mk_lt(Int(256), n)):
            why.append("len")
        ctx.ob("range", fn.qual, bool(why), "a range proof is refused for a reason outside the specified conditions: "
               + "; ".join(f.list())[:500], "reason")
    # arithmetic on untrusted lengths must not underflow
    for o in s.outs:
        for e in o.events:
            if e.kind == "chk" and e.name == "overflowSub":
                ok = entails(e.facts, mk_le(e.args[1], e.args[0]))
                ctx.ob("range", fn.qual, ok, "subtraction on the untrusted number of siblings can underflow (panic)",
                       "underflow", e.sp)
    for p in s.panics:
        ctx.ob("range", fn.qual, False, "verification can panic", "panic")


def takes(L, sib):
    """some step of the loop combines this sibling"""
    return any(t.op == "H" and sib in t.a for _, steps in L.vars.values() for t, f in steps)


def taken_by(L, sib):
    """the loop variable whose current position gives this sibling, starting from the first"""
    for lv, (init, _) in L.vars.items():
        if sib.op == "elem" and lv.op == "itv" and str(lv.a[0]) == str(sib.a[1]) and init is sib.a[0]:
            return lv
        if sib.op == "idx" and lv.op == "lv" and lv is sib.a[1] and init is INT0:
            return lv
    return None


def range_fold(s, facts, L, X, leaf, lefts, rights, key, n):
    init, steps = L.vars[X]
    if init is not HL(leaf):
        return "the fold starts from %s" % show(init)[:200]
    dirs, sides, takers = set(), [], {}
    want = sub(sub(n, INT1), mk("ind", L.id, INT0))
    for t, f in steps:
        if t.op != "H" or t.a[0] != "sha256" or len(t.a) != 4 or t.a[1] is not INT_SEP:
            return "a fold step is not the internal-node hash: %s" % show(t)[:200]
        a, b = t.a[2], t.a[3]
        if b is X and a.op in ("elem", "idx") and a.a[0] is lefts:
            d, sib = 1, a
        elif a is X and b.op in ("elem", "idx") and b.a[0] is rights:
            d, sib = 0, b
        else:
            return "a fold step does not combine the running hash with the sibling of its side: %s" % show(t)[:200]
        lv = taken_by(L, sib)
        if lv is None:
            return "a fold step takes %s, not the next sibling of its side" % show(sib)[:120]
        takers.setdefault(d, set()).add(lv)
        sides.append(d)
        vs = [v for bs, i, v in bits_in(f) if bs is key and (i is want or entails(f, mk_eq(i, want)))]
        if not vs:
            return "a fold step is not selected by the key bit of its level"
        if bool(vs[0]) != bool(d):
            return "the side of the sibling is swapped with respect to the key bit"
        dirs.add(d)
    if dirs != {0, 1}:
        return "only one side of siblings is handled"
    # every level takes the next sibling of its side and leaves the other side alone
    for d, lvs in takers.items():
        for lv in lvs:
            for (t, f), d2 in zip(L.vars[lv][1], sides):
                nxt = add(lv, INT1) if lv.op == "lv" else mk("adv", lv)
                if t is not (nxt if d2 == d else lv):
                    return "a fold step on the %s leaves the %s siblings at %s" % (("right", "left")[d2], ("right", "left")[d], show(t)[:100])
    # exhaustion: the level iterator ran out (one level per sibling)
    for k, v in facts.d.items():
        if k.op == "more" and v is False and str(k.a[1]) == str(L.id) and s.I.seqlen(k.a[0]) is n:
            return None
    for lv in L.vars:
        if lv.op == "ind" and entails(facts, mk_le(n, lv)):
            return None
    return "the fold may stop before the root level"
