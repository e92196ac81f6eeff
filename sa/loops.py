"""Loop summaries: a fixpoint over the cells a loop modifies, with closed forms where the update has
a recognised shape.  No iteration is ever executed for a concrete count: the body is interpreted once
per fixpoint round for an arbitrary iteration k.

Shapes: induction (+c), cursor over a variable-width comprehension, carried previous value, append /
prepend (comprehension), conditional count, minimum / maximum, last assignment under a condition.
Anything else stays an opaque value phi(k) whose update is recorded in the LoopRec."""
from term import *
import term as tm


def subst_ev(ev, m, memo=None):
    from interp import Ev
    extra = ev.extra
    if ev.kind == "loop" and extra:
        extra = (extra[0], subst(extra[1], m), extra[2] + (m,))
    a = tuple(subst(x, m, memo) for x in ev.args)
    r = subst(ev.res, m, memo) if isinstance(ev.res, T) else ev.res
    if a == ev.args and r is ev.res and extra is ev.extra:
        return ev
    return Ev(ev.kind, ev.name, a, r, ev.span, ev.fn, extra)


def subst_state(I, st, m):
    """list of states equal to st under the replacement (contradictions are dropped)"""
    if not m:
        return [st]
    memo = {}
    s = st.copy()
    s.cells = {c: subst(v, m, memo) for c, v in st.cells.items()}
    s.trace = tuple(subst_ev(e, m, memo) for e in st.trace)
    s.facts = {}
    s.poss = {}
    ch = []
    for at, pol in st.facts.items():
        n = subst(at, m, memo)
        if n is at:
            s.facts[at] = pol
        else:
            ch.append(n if pol else NOT(n))
    for t, v in st.poss.items():
        n = subst(t, m, memo)
        if n is t:
            s.poss[t] = v
        elif n.op != "adt":
            s.poss[n] = (s.poss.get(n) or v) & v
    sts = [s]
    for f in ch:
        sts = [y for x in sts for y in I.assume(x, f)]
    return sts


def occurs_in(x, t):
    seen = set()
    todo = [t]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if y.id in seen:
            continue
        seen.add(y.id)
        for z in y.a:
            if isinstance(z, T):
                todo.append(z)
            elif z.__class__ is tuple:
                for w in z:
                    if isinstance(w, T):
                        todo.append(w)
                    elif w.__class__ is tuple:
                        todo.extend(q for q in w if isinstance(q, T))
    return False


def lits(facts):
    return [a if p else NOT(a) for a, p in facts.items()]


class Closed:
    def __init__(self, kind, fn=None, data=None):
        self.kind = kind        # "value": fn(k) closed form usable inside the body; "exit": fn(k) only at exits; "last"
        self.fn = fn
        self.data = data


class LoopRunner:
    def __init__(self, I, body, fr, header, blocks, st0):
        self.I = I
        self.body = body
        self.fr = fr
        self.header = header
        self.blocks = blocks
        self.st0 = st0
        self.lid = (fr, header)
        self.k = mk("k", self.lid, *I.kstack)
        self.phi = {}       # loc -> phi atom (at k)
        self.inval = {}     # loc -> initial value
        self.closed = {}    # loc -> Closed
        self.bad = set()    # (loc, kind)
        self.inv = []       # header invariants (formulas)

    # ---------------------------------------------------------- leaf access
    def leafdiff(self, cell, path, old, new, out):
        if old is new:
            return
        if old.op == "adt" and new.op == "adt" and old.a[:3] == new.a[:3]:
            v0 = self.getleaf(self.st0.cells[cell], path) if cell in self.st0.cells else None
            part = v0 is not None and v0.op != "adt"
            for n, x, y in zip(old.a[2], old.a[3:], new.a[3:]):
                self.leafdiff(cell, path + (("w", old.a[0], old.a[1], n) if part else ("f", n),), x, y, out)
            return
        if old.op == "stream" and new.op == "stream" and old.a[0] is new.a[0]:
            self.leafdiff(cell, path + (("pos",),), old.a[1], new.a[1], out)
            return
        if old.op == "clo" and new.op == "clo" and old.a[0] == new.a[0] and len(old.a) == len(new.a):
            for i in range(1, len(old.a)):
                self.leafdiff(cell, path + (("c", i),), old.a[i], new.a[i], out)
            return
        if old.op == "set" and new.op == "set":
            self.leafdiff(cell, path + (("set",),), old.a[0], new.a[0], out)
            return
        if new.op == "set" and old.op != "set" and occurs_in(old, new):
            self.leafdiff(cell, path + (("set",),), mk("elems", old), new.a[0], out)
            return
        if new.op == "with":
            base = old.a[0] if old.op == "with" else old
            if new.a[0] is base and base.op != "adt":
                ks = {k for k, _ in new.a[1]} | ({k for k, _ in old.a[1]} if old.op == "with" else set())
                for k in sorted(ks, key=str):
                    self.leafdiff(cell, path + (("w",) + k,), fld(old, *k), fld(new, *k), out)
                return
        if new.op == "adt" and old.op == "with" and not new.a[1] and all(k[0] == new.a[0] for k, _ in old.a[1]):
            # all fields of a struct replaced
            for n, y in zip(new.a[2], new.a[3:]):
                k = (new.a[0], "", n)
                self.leafdiff(cell, path + (("w",) + k,), fld(old, *k), y, out)
            return
        if new.op == "sub":
            # a slice that keeps its end and moves its start
            base, hi = new.a[0], new.a[2]
            if (old is base and hi is length(base)) or (old.op == "sub" and old.a[0] is base and old.a[2] is hi):
                self.leafdiff(cell, path + (("tail", base, hi),), tail_start(old, base), new.a[1], out)
                return
        out[(cell, path)] = (old, new)

    def getleaf(self, v, path):
        for p in path:
            if p[0] == "f":
                if v.op != "adt" or p[1] not in v.a[2]:
                    return None
                v = v.a[3 + v.a[2].index(p[1])]
            elif p[0] == "pos":
                if v.op != "stream":
                    return None
                v = v.a[1]
            elif p[0] == "c":
                if v.op != "clo":
                    return None
                v = v.a[p[1]]
            elif p[0] == "set":
                v = v.a[0] if v.op == "set" else mk("elems", v)
            elif p[0] == "tail":
                if v is EMPTY:
                    v = p[2]
                elif v is p[1] or v.op == "sub" and v.a[0] is p[1] and v.a[2] is p[2]:
                    v = tail_start(v, p[1])
                else:
                    return None
            elif p[0] == "w":
                v = fld(v, *p[1:])
        return v

    def setleaf(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == "f":
            i = 3 + v.a[2].index(p[1])
            a = list(v.a)
            a[i] = self.setleaf(a[i], path[1:], x)
            return mk("adt", *a)
        if p[0] == "pos":
            return mk("stream", v.a[0], self.setleaf(v.a[1], path[1:], x))
        if p[0] == "c":
            a = list(v.a)
            a[p[1]] = self.setleaf(a[p[1]], path[1:], x)
            return mk("clo", *a)
        if p[0] == "set":
            return mk("set", self.setleaf(v.a[0] if v.op == "set" else mk("elems", v), path[1:], x))
        if p[0] == "tail":
            return subseq(p[1], self.setleaf(tail_start(v, p[1]), path[1:], x), p[2])
        if p[0] == "w":
            return with_(v, *p[1:], self.setleaf(fld(v, *p[1:]), path[1:], x))

    def cover(self, loc):
        """an existing phi location that contains loc"""
        for l in self.phi:
            if l[0] == loc[0] and loc[1][:len(l[1])] == l[1]:
                return l
        return None

    # ---------------------------------------------------------- rounds
    def hvalue(self, loc):
        c = self.closed.get(loc)
        if c is not None and c.kind == "value":
            return c.fn(self.k)
        return self.phi[loc]

    def head(self):
        st = self.st0.copy()
        for loc in self.phi:
            cell, path = loc
            st.cells[cell] = self.setleaf(st.cells[cell], path, self.hvalue(loc))
        for f in self.inv:
            ss = self.I.assume(st, f)
            if not ss:
                return None
            st = ss[0]
        return st

    def run(self):
        I = self.I
        st = self.head()
        self.hst = st.copy()
        I.kstack.append(self.k)
        I.loop_ctx.append((self.fr, self.hst, self.header))
        try:
            outs = I.run(self.body, self.fr, self.header, st, (self.header, self.blocks))
        finally:
            I.kstack.pop()
            I.loop_ctx.pop()
        outs = I.merge(outs)
        self.outs = outs
        self.backs = [o for o in outs if o.kind == "back"]
        return outs

    def discover(self):
        """new modified leaves; True when something changed"""
        new = {}
        for o in self.backs:
            for cell, old in self.hst.cells.items():
                v = o.st.cells.get(cell)
                if v is None or v is old:
                    continue
                d = {}
                self.leafdiff(cell, (), old, v, d)
                new.update(d)
        ch = False
        for loc in sorted(new, key=str):
            cv = self.cover(loc)
            if cv is not None:
                continue
            # a wider leaf replaces narrower ones
            for l in list(self.phi):
                if l[0] == loc[0] and l[1][:len(loc[1])] == loc[1]:
                    del self.phi[l]
                    self.inval.pop(l, None)
                    self.closed.pop(l, None)
            iv = self.getleaf(self.st0.cells[loc[0]], loc[1])
            if iv is None:
                from interp import Unsupported
                raise Unsupported("loop leaf")
            self.inval[loc] = iv
            self.phi[loc] = mk("phi", self.lid, str(loc), self.k)
            ch = True
        return ch

    def updates(self, loc):
        out = []
        for o in self.backs:
            v = o.st.cells.get(loc[0])
            x = self.getleaf(v, loc[1]) if v is not None else None
            out.append(x)
        return out

    def newfacts(self, o):
        return [a if p else NOT(a) for a, p in o.st.facts.items() if self.hst.facts.get(a) != p]

    def guards(self):
        """per back path: facts of the iteration that are not common to all back paths"""
        fs = [self.newfacts(o) for o in self.backs]
        if not fs:
            return []
        common = set(fs[0])
        for f in fs[1:]:
            common &= set(f)
        self.common = common
        res = []
        for f in fs:
            res.append(AND(*[x for x in f if x not in common and not self.skolem(x)]))
        return res

    def skolem(self, f):
        """mentions an inner loop's iteration variable"""
        return any(x.op == "k" and x is not self.k and self.k in x.free for x in f.free) or \
            any(x.op == "k" and x is not self.k and x not in self.I.kstack and x not in self.st0free() for x in f.free)

    def st0free(self):
        r = getattr(self, "_s0f", None)
        if r is None:
            r = set()
            for v in self.st0.cells.values():
                r |= v.free
            for a in self.st0.facts:
                r |= a.free
            self._s0f = r
        return r

    # ---------------------------------------------------------- classification
    def classify(self, loc, gs):
        phi = self.phi[loc]
        init = self.inval[loc]
        us = self.updates(loc)
        if any(u is None for u in us) or not us:
            return None
        k = self.k
        other = {p for l, p in self.phi.items() if l != loc}
        if all(u is phi for u in us):
            return Closed("value", lambda kk: init)
        # induction
        if ("ind") not in self.badk(loc):
            ds = {sub(u, phi) for u in us} if self.numeric(loc, us) else set()
            if len(ds) == 1:
                d = ds.pop()
                if d.op == "int":
                    c = d.a[0]
                    return Closed("value", lambda kk: add(init, scale(kk, c)), ("ind", c))
        # carried previous value
        if all(u is us[0] for u in us) and phi not in us[0].free and not self.skolem(us[0]):
            g = us[0]
            if not self.I.has_ref(g):
                if not (g.free & other) or not any(phi in x.free for x in self.all_other_updates(loc)):
                    if k not in g.free and not (g.free & other):
                        return Closed("value", lambda kk: ite(le0(kk), init, g), ("prev",))
                    return Closed("value", lambda kk: prev(kk, init, g, k), ("prev",))
        # cursor over a comprehension
        if self.numeric(loc, us):
            for seg, start in self.cursors(init):
                key = ("psum", seg.id)
                if key in self.badk(loc):
                    continue
                return Closed("value", lambda kk, seg=seg: add(init, psum(seg, kk)), key)
        # append / prepend
        xs = []
        for u in us:
            x = strip_prefix(u, phi)
            xs.append(x)
        if all(x is not None and phi not in x.free and not self.skolem(x) for x in xs) and all(phi not in g.free for g in gs):
            alts = list(zip(gs, xs))
            return Closed("exit", lambda kk: cat(init, seq_of([comp(kk, alts, k)])), ("append", alts))
        xs = [strip_suffix(u, phi) for u in us]
        if all(x is not None and phi not in x.free and not self.skolem(x) for x in xs) and all(phi not in g.free for g in gs):
            alts = [(g, subst(x, {k: sub(sub(k, Int(0)), Int(0))})) for g, x in zip(gs, xs)]

            def pre(kk):
                al = [(subst(g, {k: sub(sub(kk, Int(1)), k)}), subst(x, {k: sub(sub(kk, Int(1)), k)})) for g, x in alts]
                return cat(seq_of([comp(kk, al, k)]), init)
            return Closed("exit", pre, ("prepend", alts))
        # conditional count
        if self.numeric(loc, us):
            ds = [sub(u, phi) for u in us]
            if all(d.op == "int" and 0 <= d.a[0] <= 8 for d in ds) and all(phi not in g.free for g in gs):
                alts = [(g, els(*([UNIT] * d.a[0]))) for g, d in zip(gs, ds)]
                return Closed("exit", lambda kk: add(init, length(seq_of([comp(kk, alts, k)]))), ("count", alts))
        # minimum / maximum
        r = self.minmax(loc, us, gs)
        if r is not None:
            return r
        # last assignment under a condition
        keep = [i for i, u in enumerate(us) if u is phi]
        sets = {}
        for i, u in enumerate(us):
            if u is not phi:
                sets.setdefault(u, []).append(i)
        if keep and sets and all(phi not in u.free and not self.I.has_ref(u) for u in sets) and all(phi not in g.free for g in gs):
            return Closed("last", None, [(u, OR(*[gs[i] for i in ix])) for u, ix in sets.items()])
        return None

    def minmax(self, loc, us, gs):
        phi = self.phi[loc]
        init = self.inval[loc]
        k = self.k
        for op in ("min", "max"):
            al = self.mmalts(op, phi, us, gs)
            if al is None:
                continue
            return Closed("exit", lambda kk, op=op, al=al: reduce_(op, cat(one(init), seq_of([comp(kk, al, k)]))), (op, al))
        # Option accumulator that starts empty
        if init.op == "adt" and init.a[0] == tm.OPT and init.a[1] == "None":
            acc = fld(phi, tm.OPT, "Some", "0")
            isn = is_(phi, tm.OPT, "None")
            iss = is_(phi, tm.OPT, "Some")
            first, us2, gs2 = {}, [], []
            for u, g in zip(us, gs):
                gl = list(g.a) if g.op == "and" else ([] if g is TRUE else [g])
                gl = [x for x in gl if x not in (iss, NOT(isn))]
                if u is phi:
                    v = acc
                elif u.op == "adt" and u.a[0] == tm.OPT and u.a[1] == "Some":
                    v = u.a[3]
                else:
                    return None
                if isn in gl or NOT(iss) in gl:
                    gl = [x for x in gl if x not in (isn, NOT(iss))]
                    if any(phi in x.free for x in gl):
                        return None
                    if u is not phi:
                        if phi in v.free:
                            return None
                        first[(AND(*gl), v)] = True
                    continue
                us2.append(v)
                gs2.append(AND(*gl))
            for op in ("min", "max"):
                al = self.mmalts(op, acc, us2, gs2, phi)
                if al is None:
                    continue
                if {(g, x.a[0].a[0]) for g, x in al if x is not EMPTY} != set(first):
                    continue

                def opt(kk, op=op, al=al):
                    s = seq_of([comp(kk, al, k)])
                    return ite(le0(length(s)), tm.NONE, tm.some(reduce_(op, s)))
                return Closed("exit", opt, (op, al))
        return None

    def mmalts(self, op, acc, us, gs, phi=None):
        """alternatives (guard, sequence) of an accumulator that keeps the least / greatest value"""
        phi = phi or acc
        alts = {}
        keep = []
        for u, g in zip(us, gs):
            gl = list(g.a) if g.op == "and" else ([] if g is TRUE else [g])
            cmpl = [x for x in gl if phi in x.free]
            rest = AND(*[x for x in gl if phi not in x.free])
            if u.op == op and acc in u.a:
                xs = [x for x in u.a if x is not acc]
                x = xs[0] if len(xs) == 1 else mk(op, *xs)
                if phi in x.free or cmpl:
                    return None
                alts.setdefault((rest, x), set()).add("both")
            elif u is acc and not cmpl:
                alts.setdefault((rest, None), set()).add("both")
            elif u is acc and len(cmpl) == 1:
                x = cmp_other(cmpl[0], acc, op, True)
                if x is None:
                    return None
                keep.append((rest, x))
            elif phi not in u.free and len(cmpl) == 1:
                x = cmp_other(cmpl[0], acc, op, False)
                if x is None or u not in near(x, op, False):
                    return None
                alts.setdefault((rest, u), set()).add("set")
            else:
                return None
        for rest, x in keep:
            c = [(g, u) for g, u in alts if g is rest and u is not None and u in near(x, op, True)]
            if len(c) != 1:
                return None
            alts[c[0]].add("keep")
        if not any(x is not None for _, x in alts):
            return None
        if any(s not in ({"both"}, {"keep", "set"}) for s in alts.values()):
            return None
        if any(self.skolem(x) or self.skolem(g) for g, x in alts if x is not None):
            return None
        return [(g, one(x) if x is not None else EMPTY) for g, x in alts]

    def all_other_updates(self, loc):
        for l in self.phi:
            if l != loc:
                for u in self.updates(l):
                    if u is not None:
                        yield u

    def dependent(self, loc):
        other = {p for l, p in self.phi.items() if l != loc}
        return any(u is not None and u.free & other for u in self.updates(loc))

    def badk(self, loc):
        return {b for l, b in self.bad if l == loc}

    def numeric(self, loc, us):
        init = self.inval[loc]
        if init.op in ("int", "lin") or init.op in tm.NUMERIC_OPS:
            return True
        if loc[1] and loc[1][-1][0] in ("pos", "tail"):
            return True
        if init in self.I.ranges:
            return True
        return all(u.op in ("int", "lin") for u in us)

    def cursors(self, init):
        out = []
        seen = set()
        for v in list(self.hst.cells.values()):
            todo = [v]
            n = 0
            while todo and n < 4000:
                x = todo.pop()
                n += 1
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.op == "seq":
                    off = Int(0)
                    for s in x.a:
                        if s.op == "comp" and off is init and comp_width(s) is None or s.op == "comp" and off is init and comp_width(s).op != "int":
                            if len(s.a) == 3 and s.a[2].a[0] is TRUE:
                                out.append((s, off))
                        off = add(off, seglen(s))
                todo.extend(y for y in x.a if isinstance(y, T))
        return out

    def lengths(self):
        """sequences that grow by a fixed number of elements per iteration carry their length"""
        for loc, c in self.closed.items():
            phi = self.phi[loc]
            if c.kind != "exit" or not c.data or c.data[0] not in ("append", "prepend") or len(phi.a) == 5 or (loc, "len") in self.bad:
                continue
            ns = {length(x) for _, x in c.data[1]}
            if len(ns) == 1:
                n = ns.pop()
                if n.op == "int" and self.k not in length(self.inval[loc]).free:
                    self.phi[loc] = mk("phi", self.lid, str(loc), self.k, length(self.inval[loc]), n.a[0])
                    del self.closed[loc]
                    return True
        return False

    def verify_closed(self):
        """values substituted inside the body must be reproduced by every back path"""
        I = self.I
        for loc, phi in list(self.phi.items()):
            if len(phi.a) == 5:
                want = add(length(phi), Int(phi.a[4]))
                if any(u is None or not same_under(I, o.st, length(u), want) for o, u in zip(self.backs, self.updates(loc))):
                    self.bad.add((loc, "len"))
                    self.phi[loc] = mk("phi", self.lid, str(loc), self.k)
                    self.closed.pop(loc, None)
                    return False
        for loc, c in list(self.closed.items()):
            if c.kind != "value":
                continue
            want = c.fn(add(self.k, Int(1)))
            for o, u in zip(self.backs, self.updates(loc)):
                if u is None:
                    okv = False
                else:
                    w = want
                    okv = u is w or same_under(I, o.st, u, w) or self.numeric_same(o.st, u, w, c)
                if not okv:
                    self.bad.add((loc, c.data if c.data and c.data[0] == "psum" else (c.data[0] if c.data else "const")))
                    del self.closed[loc]
                    return False
        return True

    def numeric_same(self, st, u, w, c):
        if c.data and c.data[0] == "psum":
            c2, d = to_lin(w)
            out = w
            for a in list(d):
                if a.op == "psum":
                    cc, dd = to_lin(a.a[1])
                    if cc == 1:
                        base = from_lin(0, dd)
                        b = subst_comp(a.a[0], base)
                        out = add(out, scale(sub(add(psum(a.a[0], base), length(b[0][1])), a), d[a]))
            return out is u
        return False

    def go(self):
        from interp import Unsupported
        I = self.I
        self.run()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported("loop fixpoint")
            if self.discover():
                self.run()
                continue
            if not self.verify_closed():
                self.run()
                continue
            gs = self.guards()
            ch = False
            # expressions over other carried values come last: those may get a closed form first
            for loc in sorted(self.phi, key=lambda x: self.dependent(x)):
                if loc in self.closed and self.closed[loc].kind == "value":
                    continue
                if (loc, "final") in self.bad:
                    continue
                c = self.classify(loc, gs)
                if c is None:
                    self.closed.pop(loc, None)
                    continue
                if c.kind == "value":
                    if (loc, c.data[0] if c.data else "const") in self.bad or (c.data and (loc, c.data) in self.bad):
                        self.bad.add((loc, "final"))
                        continue
                    self.closed[loc] = c
                    ch = True
                    break
                self.closed[loc] = c
            if not ch:
                ch = self.lengths()
            if ch:
                self.run()
                continue
            if self.houdini():
                self.run()
                continue
            break
        outs = self.finish()
        if self.nb is not None and self.nb.op == "int" and self.nb.a[0] <= 12 and (
                any(l not in self.closed for l in self.phi) or
                any(x.op == "idx" and x.a[1] is self.k and x.a[0].op == "seq" for o in outs
                    for t in (list(o.st.facts) + ([o.val] if isinstance(o.val, T) else [])) if self.k in t.free for x in walk(t))):
            # a carried value without closed form, or an element of a fixed list that depends on the round, but a number
            # of rounds fixed by the program text: go round by round
            p = self.peel(self.nb.a[0])
            if p is not None:
                return p
        return outs

    def peel(self, n):
        I = self.I
        sts, outs = [self.st0.copy()], []
        for i in range(n + 1):
            nxt = []
            for st in sts:
                I.kstack.append(Int(i))
                I.loop_ctx.append((self.fr, st.copy(), self.header))
                try:
                    os_ = I.merge(I.run(self.body, self.fr, self.header, st, (self.header, self.blocks)))
                finally:
                    I.kstack.pop()
                    I.loop_ctx.pop()
                nxt += [o.st for o in os_ if o.kind == "back"]
                outs += [o for o in os_ if o.kind != "back"]
            sts = nxt
            if not sts:
                return I.merge(outs)
            if len(sts) > 8:
                return None
        return None

    # ---------------------------------------------------------- numeric invariants
    def houdini(self):
        if getattr(self, "_hd", False):
            return False
        self._hd = True
        I = self.I
        cands = []
        lens = set()
        for st in [self.hst] + [o.st for o in self.outs]:
            for a in st.facts:
                if a.op in ("le0", "eq0"):
                    for x in to_lin(a.a[0])[1]:
                        if x.op == "len" and self.k not in x.free:
                            lens.add(x)
        for loc, phi in self.phi.items():
            if loc in self.closed and self.closed[loc].kind == "value":
                continue
            if not self.numeric(loc, self.updates(loc)):
                continue
            cands.append((loc, lambda v: le(Int(0), v)))
            init = self.inval[loc]
            cands.append((loc, lambda v, init=init: le(init, v)))
            for ln in lens:
                cands.append((loc, lambda v, ln=ln: le(v, ln)))
        cands = [(l, f) for l, f in cands if I.truth(self.st0, f(self.inval[l])) is True]
        if not cands:
            return False
        while True:
            self.inv = [f(self.phi[l]) for l, f in cands]
            self.inv = [x for x in self.inv if x not in (TRUE, FALSE)]
            self.run()
            good = []
            for l, f in cands:
                ok_ = True
                for o, u in zip(self.backs, self.updates(l)):
                    if u is None or I.truth(o.st, f(u)) is not True:
                        ok_ = False
                        break
                if ok_:
                    good.append((l, f))
            if len(good) == len(cands):
                break
            cands = good
        return bool(self.inv)

    # ---------------------------------------------------------- exits
    def finish(self):
        from interp import Out, Ev, LoopRec
        I = self.I
        k = self.k
        I.stats["loops"].add((self.body.key, self.header))
        rec = LoopRec(self.lid)
        rec.k = k
        rec.fn = self.body.key
        rec.span = self.body.blocks[self.header]["l"]
        rec.header = self.header
        base = len(self.hst.trace)
        # closed forms usable at exits
        cm = {}
        for loc, c in self.closed.items():
            if c.kind == "exit":
                cm[self.phi[loc]] = c.fn(k)
        # closed forms may mention each other
        for _ in range(4):
            n = {p: subst(v, {q: w for q, w in cm.items() if q is not p}) for p, v in cm.items()}
            if n == cm:
                break
            cm = n
        for loc, phi in self.phi.items():
            c = self.closed.get(loc)
            if c is not None and c.kind == "value":
                continue
            I.phiinit[phi] = (self.inval[loc], k)
            rec.phis[phi] = (self.inval[loc], self.updates(loc), loc, c.kind if c else "opaque", cm.get(phi))
        fsb = [self.newfacts(o) for o in self.backs]
        for o, f in zip(self.backs, fsb):
            rec.conts.append((f, o.st.trace[base:], o.st))
        rec.k = k
        hasev = any(c[1] for c in rec.conts) or any(v[3] == "opaque" for v in rec.phis.values())
        rec.exits = []
        cont = self.contfacts(fsb, cm)
        fsc = [[subst(f, cm) for f in fs] for fs in fsb]
        nb = self.nb = self.bound(fsc, cm)
        info = I.opts.get("loopinfo")
        if info is not None:
            info.add(self, nb, rec)
        outs = []
        for o in self.outs:
            if o.kind == "back":
                continue
            delta = o.st.trace[base:]
            nf = self.newfacts(o)
            rec.exits.append((nf, delta, o.kind, o))
            st = o.st.copy()
            pre = self.hst.trace
            if hasev:
                ev = Ev("loop", self.lid, (), None, rec.span, self.body.key, (rec, k, ()))
                st.trace = pre + (ev,) + delta
            # solve the exit iteration
            sol = self.solve([subst(f, cm) for f in nf], fsc)
            sts = subst_state(I, st, cm)
            val = subst(o.val, cm) if isinstance(o.val, T) else o.val
            work = [(s, val) for s in sts]
            # last assignments
            for loc, c in self.closed.items():
                if c.kind != "last" or o.kind == "panic":
                    continue
                nw = []
                for s, v in work:
                    nw.extend(self.split_last(s, v, loc, c, cm))
                work = nw
            # facts of all earlier iterations
            res = []
            for s, v in work:
                if sol is None:
                    for s2 in self.add_forall(s, k, cont):
                        res.extend((s3, v) for s3 in self.match_fact(s2, nf, nb, cont))
                    continue
                m = sol
                for s2 in I.assume(s.copy(), le(Int(0), m)):
                    for s3 in subst_state(I, s2, {k: m}):
                        for s4 in self.add_forall(s3, m, cont):
                            res.append((s4, subst(v, {k: m}) if isinstance(v, T) else v))
                for s2 in I.assume(s, lt(m, Int(0))):
                    for s3 in subst_state(I, s2, {k: Int(0)}):
                        res.append((s3, subst(v, {k: Int(0)}) if isinstance(v, T) else v))
            for s, v in res:
                outs.append(Out(o.kind, s, v, o.info))
        return I.merge(outs)

    def contfacts(self, fsb, cm):
        """conditions every earlier iteration satisfied, as formulas in k"""
        if not fsb:
            return None
        sets = [frozenset(subst(f, cm) for f in fs if not self.skolem(f)) for fs in fsb]
        sets = list(dict.fromkeys(sets))
        ch = True
        while ch and len(sets) > 1:
            ch = False
            for i in range(len(sets)):
                for j in range(i + 1, len(sets)):
                    a, b = sets[i], sets[j]
                    da, db = a - b, b - a
                    if not da or not db:
                        # one is weaker
                        sets[i] = a & b
                        del sets[j]
                        ch = True
                        break
                    if len(da) == 1 and len(db) == 1 and NOT(next(iter(da))) is next(iter(db)):
                        sets[i] = a & b
                        del sets[j]
                        ch = True
                        break
                if ch:
                    break
        return sets

    def forall_formula(self, kx, sets):
        k = self.k
        if not sets:
            return TRUE
        common = frozenset.intersection(*sets)
        fs = [forall(kx, f, k) for f in sorted(common, key=lambda t: t.id) if k in f.free]
        if len(sets) > 1:
            z = le0(k)
            zero = [s for s in sets if z in s]
            pos = [s for s in sets if NOT(z) in s]
            if len(zero) + len(pos) == len(sets) and zero and pos:
                c0 = frozenset.intersection(*zero) - common
                c1 = frozenset.intersection(*pos) - common
                f0 = AND(*[subst(f, {k: Int(0)}) for f in c0])
                fs.append(OR(le0(kx), f0))
                n1 = sub(kx, Int(1))
                for f in sorted(c1, key=lambda t: t.id):
                    g = subst(f, {k: add(k, Int(1))})
                    if k in f.free:
                        fs.append(forall(n1, g, k))
            elif len(sets) <= 4:
                d = OR(*[AND(*[f for f in s if f not in common]) for s in sets])
                if k in d.free:
                    fs.append(forall(kx, d, k))
        return AND(*fs)

    def add_forall(self, st, kx, sets):
        if not sets:
            return [st]
        f = self.forall_formula(kx, sets)
        return self.note_facts(st, f)

    def note_facts(self, st, f):
        sts = [st]
        for x in (f.a if f.op == "and" else [f]):
            sts = [z for y in sts for z in self.I.assume(y, x)]
        return sts

    def bound(self, fsb, cm):
        """exhaustion bound of the loop when some exit determines it"""
        for o in self.outs:
            if o.kind == "back":
                continue
            m = self.solve([subst(f, cm) for f in self.newfacts(o)], fsb)
            if m is not None:
                return m
        return None

    def match_fact(self, st, nf, nb, cont):
        """an exit inside the bound refutes 'every iteration continues'"""
        if nb is None or not cont or self.k in nb.free:
            return [st]
        sets = cont
        f = self.forall_formula(nb, sets)
        if f is TRUE:
            return [st]
        # the exit iteration k < nb must violate one of the common continue facts
        if self.I.truth(st, lt(self.k, nb)) is not True:
            return [st]
        fs = list(f.a) if f.op == "and" else [f]
        common = frozenset.intersection(*sets)
        out = []
        for c in sorted(common, key=lambda t: t.id):
            if self.k in c.free and self.I.truth(st, NOT(c)) is True:
                g = forall(nb, c, self.k)
                return self.note_facts(st, NOT(g))
        return [st]

    def solve(self, nf, fsb):
        """exit iteration determined by a linear exit condition that no earlier iteration satisfied"""
        k = self.k
        if not fsb and True:
            pass
        for f in nf:
            at, pol = (f.a[0], False) if f.op == "not" else (f, True)
            if at.op not in ("le0", "eq0") or k not in to_lin(at.a[0])[1]:
                continue
            x = at.a[0]
            if at.op == "le0":
                if not pol:
                    x = add(Int(1), scale(x, -1))
                c, d = to_lin(x)
                a = d.get(k, 0)
                if a >= 0:
                    continue
                neg = NOT(f)
                if not all(neg in fs or self.implied(fs, neg) for fs in fsb):
                    continue
                rest = from_lin(c, {y: z for y, z in d.items() if y is not k})
                if k in rest.free:
                    continue
                if a == -1:
                    return rest
                return divmod_("div", add(rest, Int(-a - 1)), Int(-a))
            if at.op == "eq0" and pol:
                c, d = to_lin(x)
                a = d.get(k, 0)
                if abs(a) != 1:
                    continue
                neg = NOT(f)
                if not all(neg in fs for fs in fsb):
                    continue
                rest = from_lin(c, {y: z for y, z in d.items() if y is not k})
                if k in rest.free:
                    continue
                return scale(rest, -1) if a == 1 else rest
        return None

    def implied(self, fs, f):
        from interp import State
        s = State()
        s.facts = dict(self.hst.facts)
        for x in fs:
            s.facts[x.a[0] if x.op == "not" else x] = x.op != "not"
        return self.I.truth(s, f) is True

    def split_last(self, st, val, loc, c, cm):
        """value at the exit: untouched, or assigned last at iteration p"""
        I = self.I
        phi = self.phi[loc]
        k = self.k
        used = any(phi in v.free for v in st.cells.values()) or any(phi in a.free for a in st.facts) or \
            (isinstance(val, T) and phi in val.free)
        if not used:
            return [(st, val)]
        data = [(subst(u, cm), subst(g, cm)) for u, g in c.data]
        anyc = OR(*[g for u, g in data])
        out = []
        init = self.inval[loc]
        for s in subst_state(I, st.copy(), {phi: init}):
            for s2 in self.note_facts(s, forall(k, NOT(anyc), k)):
                out.append((s2, subst(val, {phi: init}) if isinstance(val, T) else val))
        p = mk("k", (self.lid, "last", str(loc)), *I.kstack)
        for u, g in data:
            up = subst(u, {k: p})
            for s in subst_state(I, st.copy(), {phi: up}):
                ss = I.assume(s, lt(p, k))
                gp = subst(g, {k: p})
                ss = [y for x in ss for y in I.assume(x, gp)]
                later = forall(sub(sub(k, p), Int(1)), subst(NOT(anyc), {k: add(add(p, k), Int(1))}), k)
                ss = [y for x in ss for y in self.note_facts(x, later)]
                for s2 in ss:
                    out.append((s2, subst(val, {phi: up}) if isinstance(val, T) else val))
        return out


def tail_start(v, base):
    return v.a[1] if v.op == "sub" else Int(0)


def prev(kk, init, g, k):
    gv = subst(g, {k: sub(kk, Int(1))})
    if subst(g, {k: Int(-1)}) is init:
        return gv           # the value before the first iteration fits the same expression
    return ite(le0(kk), init, gv)


def same_under(I, st, u, w):
    """u equals w given the facts (resolving conditionals)"""
    w = resolve(I, st, w)
    u = resolve(I, st, u)
    if u is w:
        return True
    return alike(I, st, u, w)


NUM = ("int", "lin", "div", "mod", "len", "psum", "satsub", "min", "max")


def alike(I, st, u, w, budget=None):
    """same structure up to numbers that the facts prove equal"""
    if u is w:
        return True
    if u.op in NUM or w.op in NUM:
        if u.op == w.op == "len" and alike(I, st, u.a[0], w.a[0], budget):
            return True
        if not (u.op in NUM and w.op in NUM) and not (u.op == "lin" or w.op == "lin" or u.op == "int" or w.op == "int"):
            return False
        d = sub(u, w)
        return I.prove_le0(st, d) and I.prove_le0(st, scale(d, -1))
    if u.op != w.op or len(u.a) != len(w.a):
        return False
    return all(alike_any(I, st, x, y) for x, y in zip(u.a, w.a))


def alike_any(I, st, x, y):
    if x is y:
        return True
    if isinstance(x, T) and isinstance(y, T):
        return alike(I, st, x, y)
    if x.__class__ is tuple and y.__class__ is tuple:
        return len(x) == len(y) and all(alike_any(I, st, p, q) for p, q in zip(x, y))
    return x == y


def index_under(I, st, t, i):
    """element of a concatenation whose segment the facts decide, else None"""
    if t.op != "seq":
        return None
    off = Int(0)
    for s in t.a:
        n = tm.seglen(s)
        end = add(off, n)
        if not I.prove_le0(st, sub(off, i)):
            return None
        if I.prove_le0(st, sub(add(i, Int(1)), end)):
            d = sub(i, off)
            if s.op == "el":
                return s.a[0]
            if s.op == "sp":
                return index(s.a[0], d)
            if s.op == "comp" and tm.comp_width(s) is Int(1):
                r = index(seq_of([s]), d)
                return r if r.op != "idx" or r.a[0].op != "seq" else None
            return None
        off = end
    return None


def resolve(I, st, t, memo=None):
    """t with conditionals decided by the facts removed"""
    if memo is None:
        memo = {}
    if not has_ite(t):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ite":
        v = I.truth(st, t.a[0])
        if v is True:
            r = resolve(I, st, t.a[1], memo)
        elif v is False:
            r = resolve(I, st, t.a[2], memo)
        else:
            r = ite(t.a[0], resolve(I, st, t.a[1], memo), resolve(I, st, t.a[2], memo))
    elif t.op == "lin":
        r = Int(t.a[0])
        for a, c in t.a[1]:
            r = add(r, scale(resolve(I, st, a, memo), c))
    elif t.op == "satsub":
        a, b = resolve(I, st, t.a[0], memo), resolve(I, st, t.a[1], memo)
        if I.prove_le0(st, sub(b, a)):
            r = sub(a, b)
        elif I.prove_le0(st, sub(a, b)):
            r = Int(0)
        else:
            r = tm.satsub(a, b)
    elif t.op == "idx" and t.a[0].op == "seq":
        a, b = resolve(I, st, t.a[0], memo), resolve(I, st, t.a[1], memo)
        r = index_under(I, st, a, b)
        r = resolve(I, st, r, memo) if r is not None else index(a, b)
    elif t.op in ("comp", "all"):
        r = t
    else:
        na = [resolve(I, st, x, memo) if isinstance(x, T) else x for x in t.a]
        r = rebuild(t.op, na) if any(x is not y for x, y in zip(na, t.a)) else t
    memo[t] = r
    return r


_hi = {}


def has_ite(t):
    r = _hi.get(t)
    if r is None:
        r = t.op in ("ite", "satsub") or (t.op == "idx" and t.a[0].op == "seq")
        if not r:
            for x in t.a:
                if isinstance(x, T):
                    if has_ite(x):
                        r = True
                        break
                elif x.__class__ is tuple:
                    for y in x:
                        if y.__class__ is tuple:
                            for z in y:
                                if isinstance(z, T) and has_ite(z):
                                    r = True
        _hi[t] = r
    return r


def strip_prefix(u, phi):
    """x with u = phi ++ x"""
    if u is phi:
        return EMPTY
    if u.op == "seq" and u.a and u.a[0].op == "sp" and u.a[0].a[0] is phi:
        return seq_of(list(u.a[1:]))
    return None


def strip_suffix(u, phi):
    if u is phi:
        return EMPTY
    if u.op == "seq" and u.a and u.a[-1].op == "sp" and u.a[-1].a[0] is phi:
        return seq_of(list(u.a[:-1]))
    return None


def cmp_other(lit, phi, op, keep):
    """the x compared with phi: keep=True when the literal means 'phi already at least as good'"""
    at, pol = (lit.a[0], False) if lit.op == "not" else (lit, True)
    if at.op != "le0":
        return None
    x = at.a[0] if pol else add(Int(1), scale(at.a[0], -1))
    c, d = to_lin(x)
    a = d.get(phi, 0)
    if abs(a) != 1:
        return None
    # x <= 0 : a*phi + rest + c <= 0
    rest = from_lin(c, {y: z for y, z in d.items() if y is not phi})
    if phi in rest.free:
        return None
    # a=1: phi <= -rest ; a=-1: phi >= rest
    good = {("min", True): 1, ("min", False): -1, ("max", True): -1, ("max", False): 1}[(op, keep)]
    if a != good:
        return None
    bound = scale(rest, -1) if a == 1 else rest
    return bound


def near(b, op, keep):
    """values x for which the bound b means comparing with x, strictly or not: the result is the same"""
    # keep: min phi <= x or phi < x (bound x-1); set: min phi >= x or phi > x (bound x+1); max mirrored
    d = (1 if op == "min" else -1) * (1 if keep else -1)
    return (b, add(b, Int(d)))


def reduce_(op, s):
    """min / max over a non-empty sequence"""
    if s.op == "seq" and all(x.op == "el" for x in s.a):
        return tm.MINMAX[0](op, *[x.a[0] for x in s.a])
    return mk("red", op, s)
