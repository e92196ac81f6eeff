"""Loads the MIR dumps and resolves names."""
import json
import re
import os
import term as tm

LOCAL = ("fluence_keypair", "trust_graph", "service")


def strip_impl(key):
    return re.sub(r"::\{impl#\d+\}", "", key)


class Body:
    __slots__ = ("key", "root", "gen", "own", "j", "crate", "name", "path", "argc", "locals", "blocks", "kind", "loops",
                 "self_adt", "trait", "short", "derived", "span", "targs", "parent", "names", "pub", "reach")

    def ty(self, i, prog):
        return prog.types[self.crate][i]


class Program:
    def __init__(self, outdir, crates=LOCAL + ("sa_prelude",)):
        self.types = {}
        self.adts = {}
        self.bodies = {}
        self.by_short = {}
        self.impls = {}     # (trait, method) -> bodies of implementations
        self.tyix = {}
        self.tymemo = {}
        self.crates = []
        for c in crates:
            fn = os.path.join(outdir, c + ".json")
            if not os.path.exists(fn):
                continue
            self.crates.append(c)
            d = json.load(open(fn))
            self.types[c] = d["types"]
            for p, a in d["adts"].items():
                if a is None:
                    continue
                if p not in self.adts or c == p.split("::")[0]:
                    self.adts[p] = dict(a, crate=c)
            for k, j in d["bodies"].items():
                if k in self.bodies and self.bodies[k].crate == "sa_prelude":
                    continue
                b = Body()
                b.key = k
                b.j = j
                b.crate = c
                b.name = j["name"]
                b.path = j["path"]
                b.argc = j["argc"]
                b.locals = j["locals"]
                b.blocks = j["blocks"]
                b.kind = j["kind"]
                b.names = j["names"]
                b.derived = j.get("derived", False)
                b.trait = j.get("trait")
                b.span = j["span"] or ""
                b.parent = j.get("parent")
                b.pub = j.get("pub", False)
                b.reach = j.get("reach", False)
                b.loops = None
                b.root = k.split("::{closure#")[0].split("::promoted")[0]
                b.gen = j.get("gen") or []
                b.own = j.get("own") or 0
                st = j.get("self_ty")
                b.self_adt = None
                if st is not None:
                    t = d["types"][st]
                    b.self_adt = t.get("p") or t["s"]
                b.targs = [d["types"][x]["s"] for x in j.get("targs", [])]
                b.short = self.mkshort(b, k)
                self.bodies[k] = b
                self.by_short.setdefault(b.short, []).append(b)
                if b.trait and st is not None:
                    self.impls.setdefault((b.trait, b.name), []).append(b)
        for p, a in self.adts.items():
            if a["transparent"] and a["kind"] == "struct" and len(a["v"][0]["f"]) == 1 and p.split("::")[0] in LOCAL:
                tm.TRANSPARENT.add(p)
            for v in a["v"]:
                vn = v["n"] if a["kind"] == "enum" else ""
                tm.NFIELDS[(p, vn)] = len(v["f"])
            if a["kind"] == "enum":
                tm.VARIANTS[p] = [v["n"] for v in a["v"]]
                if a.get("discr"):
                    tm.DISCRS[p] = list(a["discr"])
            elif a["kind"] == "struct":
                tm.FIELDNAMES[p] = [f["n"] for f in a["v"][0]["f"]]

    def mkshort(self, b, k):
        if b.kind in ("closure", "promoted", "const"):
            return strip_impl(k)
        if b.self_adt:
            t = b.self_adt.split("::")[-1] if not b.self_adt.startswith("&") else b.self_adt
            # nested modules with same type name (ed25519::PublicKey) keep the module
            mods = b.self_adt.split("::")
            if mods[0] == "fluence_keypair" and len(mods) == 3 and mods[1] in ("ed25519", "rsa", "secp256k1"):
                t = mods[1] + "::" + t
            if b.trait:
                tr = b.trait.split("::")[-1]
                return f"{b.j['krate']}::<{t} as {tr}>::{b.name}"
            return f"{b.j['krate']}::{t}::{b.name}"
        return f"{b.j['krate']}::{b.name}"

    # ---- type parameters
    def intern(self, crate, t):
        key = (crate, json.dumps({k: v for k, v in t.items() if k != "s"}, sort_keys=True) if t["k"] in ("adt", "ref", "tuple", "slice", "array", "ptr") else json.dumps(t, sort_keys=True))
        if not any(k[0] == crate for k in self.tyix):
            for i, x in enumerate(self.types[crate]):
                if x is not None:
                    k2 = (crate, json.dumps({k: v for k, v in x.items() if k != "s"}, sort_keys=True) if x["k"] in ("adt", "ref", "tuple", "slice", "array", "ptr") else json.dumps(x, sort_keys=True))
                    self.tyix.setdefault(k2, i)
            self.tyix.setdefault((crate, None), 0)
        i = self.tyix.get(key)
        if i is None:
            i = len(self.types[crate])
            self.types[crate].append(t)
            self.tyix[key] = i
        return i

    def map_ty(self, src, i, dst, sub):
        """type i of crate src, with the parameters in sub replaced (types of dst), as a type of dst"""
        mk_ = (src, i, dst, sub)
        r = self.tymemo.get(mk_)
        if r is not None:
            return r
        t = self.types[src][i]
        if t["k"] == "param":
            r = dict(sub).get(t["s"]) if sub else None
            if r is None:
                r = i if src == dst else self.intern(dst, dict(t))
        else:
            n = dict(t)
            ch = False
            if t.get("e") is not None:
                n["e"] = self.map_ty(src, t["e"], dst, sub)
                ch |= n["e"] != t["e"]
            if t.get("a"):
                n["a"] = [self.map_ty(src, x, dst, sub) if isinstance(x, int) else x for x in t["a"]]
                ch |= n["a"] != t["a"]
            if src == dst and not ch:
                r = i
            else:
                for p_, x in (sub or ()):
                    n["s"] = re.sub(r"(?<![\w:])%s(?![\w:])" % re.escape(p_), lambda _: self.types[dst][x]["s"], n["s"])
                r = self.intern(dst, n)
        self.tymemo[mk_] = r
        return r

    def unify(self, pc, pi, c, i, binds):
        """match the pattern type pi of crate pc against type i of crate c; binds: parameter -> (crate, type)"""
        p, t = self.types[pc][pi], self.types[c][i]
        if p["k"] == "param":
            if p["s"] in binds:
                return self.same(*binds[p["s"]], c, i)
            binds[p["s"]] = (c, i)
            return True
        if p["k"] != t["k"] or p.get("p") != t.get("p") or p.get("m") != t.get("m") or p.get("n") != t.get("n"):
            return False
        if (p.get("e") is None) != (t.get("e") is None):
            return False
        if p.get("e") is not None and not self.unify(pc, p["e"], c, t["e"], binds):
            return False
        pa, ta = p.get("a") or [], t.get("a") or []
        if len(pa) != len(ta) or not all(self.unify(pc, x, c, y, binds) for x, y in zip(pa, ta)):
            return False
        if p["k"] in ("adt", "ref", "tuple", "slice", "array", "ptr"):
            return True
        if p["k"] == "closure":
            return p.get("key") == t.get("key")
        return p["s"] == t["s"]

    def same(self, c, i, c2, i2):
        return self.unify(c, i, c2, i2, {})

    def impl_of(self, trait, name, crate, args):
        """implementation of a trait method for the given type arguments (Self first)"""
        found = None
        for b in self.impls.get((trait, name), ()):
            if b.kind not in ("fn", "std"):
                continue
            binds = {}
            ta = b.j.get("targs") or []
            if len(args) < 1 + len(ta):
                continue
            if self.unify(b.crate, b.j["self_ty"], crate, args[0], binds) and \
                    all(self.unify(b.crate, x, crate, y, binds) for x, y in zip(ta, args[1:])):
                if found is not None and found.key != b.key or \
                        any(self.types[b.crate][x]["k"] == "param" for x in [b.j["self_ty"]] + ta):
                    return None     # a blanket implementation: its bounds are not looked at
                found = b
        return found

    def sub_for(self, b, callee, crate):
        """what the type parameters of a called body stand for"""
        if not b.gen or b.crate == "sa_prelude" or b.name == "from_residual":
            return None     # the conversion of errors is judged on its own
        a = callee.get("a") or []
        binds = {}
        if callee.get("trait") and b.key != callee["key"]:
            if b.j.get("self_ty") is None or b.trait != callee["trait"] or not a:
                return None
            ta = b.j.get("targs") or []
            if not self.unify(b.crate, b.j["self_ty"], crate, a[0], binds):
                return None
            for x, y in zip(ta, a[1:]):
                self.unify(b.crate, x, crate, y, binds)
            if b.own:
                for g, x in zip(b.gen[-b.own:], a[-b.own:]):
                    binds[g] = (crate, x)
        else:
            if len(a) != len(b.gen):
                return None
            binds = {g: (crate, x) for g, x in zip(b.gen, a)}
        return tuple(sorted((g, self.map_ty(c, x, b.crate, None)) for g, (c, x) in binds.items()))

    def find(self, short):
        """unique body by short name"""
        bs = [b for b in self.by_short.get(short, []) if b.kind == "fn"]
        return bs

    def variants(self, path):
        a = self.adts.get(path)
        if not a:
            return None
        return [v["n"] for v in a["v"]]

    # ---- loops
    def loops(self, b):
        if b.loops is not None:
            return b.loops
        n = len(b.blocks)
        succ = [[] for _ in range(n)]
        for i, bl in enumerate(b.blocks):
            if bl["c"]:
                continue
            succ[i] = [x for x in succs(bl["t"]) if not b.blocks[x]["c"]]
        order = []
        seen = set()
        st = [(0, iter(succ[0]))] if n else []
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
        order.reverse()
        num = {u: i for i, u in enumerate(order)}
        preds = {u: [] for u in order}
        for u in order:
            for v in succ[u]:
                preds[v].append(u)
        idom = {order[0]: order[0]} if order else {}
        ch = True
        while ch:
            ch = False
            for u in order[1:]:
                ps = [p for p in preds[u] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                if idom.get(u) != x:
                    idom[u] = x
                    ch = True

        def dom(a, c):
            while True:
                if a == c:
                    return True
                if idom[c] == c:
                    return False
                c = idom[c]
        loops = {}
        for u in order:
            for v in succ[u]:
                if dom(v, u):
                    blk = loops.setdefault(v, {v})
                    st2 = [u]
                    while st2:
                        w = st2.pop()
                        if w in blk:
                            continue
                        blk.add(w)
                        st2.extend(preds[w])
        b.loops = loops
        return loops


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []
