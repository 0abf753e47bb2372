"""Loads the MIR dumps."""
import json, os, re


def strip_generics(p):
    """alloc::vec::Vec::<T, A>::push -> alloc::vec::Vec::push ; keeps <impl ...> / <X as Y> heads"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl ", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Fn:
    __slots__ = ("j", "id", "path", "name", "kind", "crate", "argc", "locals", "blocks", "promoted",
                 "impl_self", "impl_trait", "derived", "trait", "vis", "gp", "sp", "parent", "_cfg", "impl_self_ty", "ita")

    def __init__(self, j, crate):
        self.j = j
        self.id = j["id"]
        self.path = j["p"]
        self.name = j["name"]
        self.kind = j["kind"]
        self.crate = crate
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.promoted = j.get("promoted", [])
        self.impl_self = j.get("impl_self")
        self.impl_self_ty = j.get("impl_self_ty")
        self.impl_trait = j.get("impl_trait")
        self.ita = j.get("ita")
        self.derived = j.get("derived", False)
        self.trait = j.get("trait")
        self.vis = j.get("vis", False)
        self.gp = j.get("gp", [])
        self.sp = j.get("sp")
        self.parent = j.get("parent")
        self._cfg = None

    def __repr__(self):
        return "Fn(%s)" % self.path

    @property
    def qual(self):
        return self.crate + "::" + self.path

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


class Cfg:
    def __init__(self, fn):
        bl = fn.blocks
        n = len(bl)
        self.succ = []
        for b in bl:
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                s = [t["t"]]
            elif k == "call":
                s = [t["t"]] if t["t"] is not None else []
            elif k == "switch":
                s = []
                for _, x in t["t"]:
                    if x not in s:
                        s.append(x)
                if t["else"] not in s:
                    s.append(t["else"])
            else:
                s = []
            self.succ.append(s)
        # rpo
        seen = [False] * n
        post = []
        st = [(0, iter(self.succ[0]))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for x in it:
                if not seen[x]:
                    seen[x] = True
                    st.append((x, iter(self.succ[x])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        self.rpo = {b: i for i, b in enumerate(rpo)}
        self.order = rpo
        pred = [[] for _ in range(n)]
        for b in rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators (iterative)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.rpo[x] > self.rpo[y]:
                                    x = idom[x]
                                while self.rpo[y] > self.rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body:
                            continue
                        body.add(x)
                        w.extend(pred[x])
        # liveness
        self.live = self._live(fn)

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _live(self, fn):
        n = len(fn.blocks)
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        always = set()

        def places(o, acc):
            if isinstance(o, dict):
                if "l" in o and "p" in o and isinstance(o["p"], list):
                    acc.append(o)
                    return
                for v in o.values():
                    places(v, acc)
            elif isinstance(o, list):
                for v in o:
                    places(v, acc)

        for bi in self.order:
            b = fn.blocks[bi]
            u, d = use[bi], de[bi]

            def use_place(p):
                if p["l"] not in d:
                    u.add(p["l"])
                for e in p["p"]:
                    if e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def def_place(p):
                if p["p"]:
                    use_place(p)
                else:
                    d.add(p["l"])
            for s in b["s"]:
                if s["k"] == "as":
                    acc = []
                    places(s["rv"], acc)
                    for p in acc:
                        use_place(p)
                    if s["rv"]["k"] == "ref" and s["rv"]["m"]:
                        always.add(s["rv"]["pl"]["l"])
                    def_place(s["pl"])
                else:
                    use_place(s["pl"])
            t = b["t"]
            acc = []
            for kk in ("d", "a", "f", "c", "m"):
                if kk in t:
                    places(t[kk], acc)
            if t["k"] == "drop":
                pass
            for p in acc:
                use_place(p)
            if t["k"] == "call":
                def_place(t["dst"])
            if t["k"] == "ret":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in reversed(self.order):
                o = set()
                for s in self.succ[bi]:
                    o |= live[s]
                nl = use[bi] | (o - de[bi])
                if nl != live[bi]:
                    live[bi] = nl
                    ch = True
        self.always = always
        return live


class DB:
    def __init__(self, outdir, crates):
        self.fns = {}
        self.by_path = {}
        self.adts = {}
        self.adt_by_path = {}
        self.impls = []
        self.aliases = []
        self.trait_impl = {}
        self.models = {}
        self.crates = crates
        for fname in crates:
            p = os.path.join(outdir, fname + ".json")
            with open(p) as f:
                d = json.load(f)
            crate = d["crate"]
            for j in d["fns"]:
                fn = Fn(j, crate)
                if fn.id in self.fns:
                    continue
                self.fns[fn.id] = fn
                if crate == "vmodels":
                    self.models[fn.name] = fn
                else:
                    self.by_path.setdefault(crate + "::" + fn.path, fn)
            for a in d["adts"]:
                if a["id"] not in self.adts or a["local"]:
                    self.adts[a["id"]] = a
                    a["crate"] = crate
                    if a["local"]:
                        self.adt_by_path[crate + "::" + a["p"]] = a
                    else:
                        self.adt_by_path.setdefault(a["p"], a)
            for im in d["impls"]:
                im["crate"] = crate
                self.impls.append(im)
            for al in d["aliases"]:
                al["crate"] = crate
                self.aliases.append(al)
        for fn in self.fns.values():
            if fn.impl_trait:
                self.trait_impl.setdefault((fn.impl_trait, fn.name), []).append(fn)
        self.impl_methods = {}
        for im in self.impls:
            for iid, nm, tid in im["items"]:
                self.impl_methods.setdefault((im["crate"], im["trait"], nm), []).append((im, iid))

    def find(self, qual):
        return self.by_path.get(qual)

    def enum_variants(self, tyj):
        if tyj.get("k") != "adt":
            return None
        a = self.adts.get(tyj["id"])
        if not a or not a["enum"]:
            return None
        return [(v["d"], v["n"]) for v in a["v"]]
