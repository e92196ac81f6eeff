"""Shared machinery of the rules: running the abstract interpreter on an anchored function,
comparing its outcomes with a specification, collecting obligations and violations."""
import json
import os
import re
import time

import ir
import term as tm
from interp import Interp, State, Unsupported, Out, Ev, UNMODELLED
import loops
from loops import same_under, subst_state
from term import *


PHI = re.compile(r"phi\[(\([^:]*\)):")


def carried(text):
    """ids of the loops whose running values occur in a printed term; bytes drawn from a random
    generator are fresh whatever the generator and the buffer held before"""
    out = ""
    while "mut(RngCore::fill_bytes" in text:
        i = text.index("mut(RngCore::fill_bytes")
        j, d = i + 4, 1
        while j < len(text) and d:
            d += {"(": 1, ")": -1}.get(text[j], 0)
            j += 1
        out += text[:i]
        text = text[j:]
    return PHI.findall(out + text)


class Missing(Exception):
    """an anchor (public function, type) of the property is not in the program"""


class Ctx:
    def __init__(self, prog, pid):
        self.p = prog
        self.pid = pid
        self.obl = []           # (rule, where, ok)
        self.viol = []          # dicts
        self.undecided = []
        self.okphi = set()      # loops whose running values a rule reasons about itself
        self.runs = {}
        self.functions = set()
        self.paths = 0
        self.calls = 0
        self.loops = set()
        self.steps = 0
        self.assumptions = []
        self.notes = []
        UNMODELLED.clear()

    # ---------------------------------------------------------------- reporting
    def ok(self, rule, where):
        self.obl.append((rule, where, True))

    def bad(self, rule, where, detail, **kw):
        phiok = kw.pop("phiok", False)
        unk = kw.get("path", {}).get("unmodelled") if "path" in kw else sorted(UNMODELLED)
        if not unk and "std?" in str(detail):
            unk = ["in the value compared"]
        if not unk and not phiok and any(m not in self.okphi for m in carried(str(detail))):
            unk = ["a loop-carried value without a closed form"]
        if unk:
            # the mismatch rests on a library function the analysis has no model of: no verdict
            self.unknown(rule, where, f"depends on {', '.join(unk)[:200]}: {detail}"[:600])
            return
        self.obl.append((rule, where, False))
        self.viol.append(dict(rule=rule, where=where, detail=detail, **kw))

    def oblige(self, cond, rule, where, detail="", **kw):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, detail, **kw)
        return cond

    def unknown(self, rule, where, why):
        self.undecided.append((rule, where, str(why)))

    def rests_on(self, pid, fn, keep):
        """take over the obligations of another rule this property rests on; keep(rule, where, detail) picks them"""
        c = Ctx(self.p, self.pid)
        try:
            fn(c)
        except (Missing, Unsupported, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            c.unknown("analysis", pid, e)
        for rule, where, good in c.obl:
            if good and keep(rule, where, ""):
                self.ok(f"{rule} ({pid})", where)
        for v in c.viol:
            if keep(v["rule"], v["where"], v["detail"]):
                self.obl.append((f"{v['rule']} ({pid})", v["where"], False))
                self.viol.append(dict(v, rule=f"{v['rule']} ({pid})"))
        for rule, where, why in c.undecided:
            if rule == "analysis" or keep(rule, where, why):
                self.unknown(f"{rule} ({pid})", where, why)
        self.functions |= c.functions
        self.paths += c.paths
        self.calls += c.calls
        self.loops |= c.loops
        self.steps += c.steps
        self.assumptions += [a for a in c.assumptions if a not in self.assumptions]
        UNMODELLED.clear()

    # ---------------------------------------------------------------- anchors
    def body(self, short, targ=None, argc=None):
        bs = [b for b in self.p.find(short)]
        if targ is not None:
            bs = [b for b in bs if any(targ in t for t in b.targs)]
        if argc is not None:
            bs = [b for b in bs if b.argc == argc]
        if not bs:
            raise Missing(short + (" " + targ if targ else ""))
        return bs[0]

    def adt(self, crate, name, mod=None):
        c = [p for p in self.p.adts if p.split("::")[0] == crate and p.split("::")[-1] == name]
        if mod:
            c = [p for p in c if mod in p.split("::")]
        elif len(c) > 1:
            c2 = [p for p in c if not any(m in p.split("::") for m in ("ed25519", "rsa", "secp256k1"))]
            c = c2 or c
        if not c:
            raise Missing(f"type {crate}::{name}")
        return sorted(c, key=len)[0]

    def f(self, t, path, name, variant=""):
        return fld(t, path, variant, name)

    # ---------------------------------------------------------------- analysis
    def run(self, body, leaf=(), args=None, pre=None, opts=None):
        if isinstance(body, str):
            body = self.body(body)
        lv = leaf if callable(leaf) else (lambda s, b, L=frozenset(leaf): s in L)
        key = (tm.ASSUME_FITS[0], body.key, frozenset(leaf) if not callable(leaf) else leaf, tuple(args) if args else None,
               tuple(pre) if pre else None, tuple(sorted((opts or {}).items())) if opts else None)
        r = self.runs.get(key)
        if r is None:
            I = Interp(self.p, lv, opts=opts)
            outs = I.entry(body.key, args, pre)
            outs = [o for o in outs if o.kind == "ret" or feasible(I, o.st)]
            r = Run(self, I, body, outs)
            self.runs[key] = r
            self.functions |= I.stats["functions"]
            self.paths += len(outs)
            self.calls += I.stats["calls"]
            self.loops |= set(I.loops)
            self.steps += I.steps
        return r


class Run:
    def __init__(self, ctx, I, body, outs):
        self.ctx = ctx
        self.I = I
        self.body = body
        self.outs = outs
        self._rets = None
        for o in outs:
            if o.kind == "ret" and o.val is not None:
                o.val = I.reify(o.st, o.val)

    @property
    def where(self):
        return f"{self.body.short} ({self.body.span})"

    def rets(self):
        if self._rets is None:
            self._rets = [o for o in self.outs if o.kind == "ret" and feasible(self.I, o.st)]
        return self._rets

    def panics(self):
        return [o for o in self.outs if o.kind == "panic"]

    def no_panic(self, rule, allow=lambda o: False, given=None):
        """no path of the function reaches a panic; given(st) adds what the context guarantees about the values read"""
        for o in self.panics():
            if allow(o):
                continue
            if given is not None:
                g = given(o.st)
                if not any(feasible(self.I, s) for s in self.I.assume(o.st.copy(), g)):
                    self.ctx.ok(rule, self.where)
                    continue
            if not any(True for s in [x for x, _ in listed_elements(self.I, o.st)] if feasible(self.I, s)):
                self.ctx.ok(rule, self.where)
                continue
            v = witness(self.I, o.st)
            if v is None:
                self.ctx.unknown(rule, self.where, f"panic at {o.info[1]} depends on a loop-carried value without a closed form")
                continue
            what = re.sub(r"phi\[.*", "…", str(o.info[3]))[:200]
            self.ctx.bad(rule, self.where, f"a path panics at {o.info[1]}: {what}", path=path_of(self.I, Out("panic", v, o.val, o.info)))
        if not self.panics():
            self.ctx.ok(rule, self.where)

    def cases(self, rule, cases, total=True):
        """every return path, in every specified case it is compatible with, satisfies that case.

        cases: [(name, guard formula, check(I, st, value, outcome) -> None or error text)]"""
        n = 0
        for o in [o for o in self.outs if o.kind == "ret"]:
            for name, g, chk in cases:
                for st in self.I.assume(o.st.copy(), g):
                    if not feasible(self.I, st):
                        continue
                    n += 1
                    e = chk(self.I, st, o.val, o)
                    if e and all(chk(self.I, s, subst(o.val, m), o) is None for s, m in listed_elements(self.I, st)
                                 if m and feasible(self.I, s) or not m):
                        e = None
                    if e and any(m not in self.ctx.okphi for a in unresolved_facts(st) for m in carried(str(show(a)))):
                        # whether the path exists depends on a value carried round a loop: its first round decides, or nothing
                        v = witness(self.I, st)
                        if v is None or chk(self.I, v, o.val, o) is None:
                            self.ctx.unknown(f"{rule}: {name}", self.where, f"the path depends on a loop-carried value without a closed form: {e}"[:600])
                            continue
                    if e:
                        self.ctx.bad(f"{rule}: {name}", self.where, e, path=path_of(self.I, Out("ret", st, o.val)))
                    else:
                        self.ctx.ok(f"{rule}: {name}", self.where)
        return n


def listed_elements(I, st):
    """an indexed element of a filtered list is the image of some source position that passes the filter"""
    xs = []
    for a in st.facts:
        for x in walk(a):
            if x.op == "idx" and x not in xs and x.a[0].op == "seq" and len(x.a[0].a) == 1 and x.a[0].a[0].op == "comp" \
                    and not any(y.op == "bv" for y in walk(x.a[1])):
                xs.append(x)
    work = [(st, {})]
    for x in xs[:3]:
        c = x.a[0].a[0]
        if comp_level(c) and any(y.op == "bv" for y in c.free):
            continue
        j = skolem(I, "src")
        alts = [(g, segs_of(b)) for g, b in subst_comp(c, j)]
        if any(len(b) != 1 or b[0].op != "el" for _, b in alts):
            continue
        nxt = []
        for s, m in work:
            for g, b in alts:
                for s1 in subst_state(I, s.copy(), {x: b[0].a[0]}):
                    nxt.extend((s2, {**m, x: b[0].a[0]}) for s2 in I.assume(s1, AND(le(Int(0), j), lt(j, c.a[0]), g)))
        work = nxt
    return work


def unresolved_facts(s):
    return [a for a in s.facts if any(x.op == "phi" and not (a.op == "all" and x.a[2].op == "bv") for x in a.free)]


def unresolved(s):
    """loop-carried values the facts of a path rest on; inside a quantified fact they only restate the exit of the loop"""
    return {x for a in s.facts for x in a.free if x.op == "phi" and not (a.op == "all" and x.a[2].op == "bv")}


def witness(I, st):
    """the path itself when no unresolved loop-carried value is involved, else its first iteration; None when that is impossible"""
    phis = unresolved
    work = [st]
    for _ in range(6):
        if not work:
            return None
        nxt = []
        for s in work:
            ps = phis(s)
            if not ps:
                if feasible(I, s):
                    return s
                continue
            m = {p: I.phiinit[p][0] for p in ps if p in I.phiinit}
            if not m:
                continue
            ks = {I.phiinit[p][1] for p in m}
            for s2 in subst_state(I, s.copy(), m):
                nxt.extend(subst_state(I, s2, {k: Int(0) for k in ks}))
        work = nxt
    return None


def path_of(I, o, limit=40):
    fs = []
    for a, p in o.st.facts.items():
        s = show(a)
        if a.op == "is" and not p and any(q and c.op == "is" and c.a[0] is a.a[0] for c, q in o.st.facts.items()):
            continue
        fs.append(("" if p else "not ") + s[:300])
    d = {} if not UNMODELLED else {"unmodelled": unmodelled(o)}
    return {**d, "kind": o.kind, "result": show(o.val)[:600] if o.val is not None else str(o.info),
            "facts": fs[:limit], "calls": [repr(e)[:200] for e in o.st.trace][:limit]}


_taint = {}


def tainted(t):
    """names of unmodelled library functions inside a term"""
    r = _taint.get(t)
    if r is None:
        r = _taint[t] = frozenset(x.a[0] for x in walk(t) if x.op in ("app", "mut") and isinstance(x.a[0], str) and x.a[0].startswith("std?"))
    return r


def unmodelled(o):
    r = set()
    for a in o.st.facts:
        r |= tainted(a)
    if o.val is not None:
        r |= tainted(o.val)
    todo = list(o.st.trace)
    for e in todo:
        if e.kind == "loop":
            for facts, tr, st in e.extra[0].conts:
                todo.extend(tr)
                for a in facts:
                    a = a[0] if isinstance(a, tuple) else a
                    if isinstance(a, T):
                        r |= tainted(a)
            continue
        if e.name.startswith("std?"):
            r.add(e.name)
        for x in tuple(e.args) + ((e.res,) if e.res is not None else ()):
            if isinstance(x, T):
                r |= tainted(x)
    return sorted(r)


# -------------------------------------------------------------------- feasibility
_fresh = [0]


def skolem(I, hint="w"):
    _fresh[0] += 1
    return mk("k", ("sk", hint, _fresh[0]))


def inst_all(at, i):
    """body of the quantified atom at index i, guarded by the range"""
    n, lv, body = at.a
    b = subst(body, {mk("bv", lv): i})
    return OR(NOT(AND(le0(scale(i, -1)), lt(i, n))), b)


def resolve(I, st, f):
    """decide the conditional values inside a formula by the facts"""
    m = {}
    for x in walk(f):
        if x.op == "ite" and not any(y.op == "bv" for y in x.free):
            c = I.truth(st, x.a[0])
            if c is not None:
                m[x] = x.a[1] if c else x.a[2]
        elif (x.op == "satsub" or (x.op == "idx" and x.a[0].op == "seq")) and not any(y.op == "bv" for y in x.free):
            y = loops.resolve(I, st, x)
            if y is not x:
                m[x] = y
    return subst(f, m) if m else f


def feasible(I, st, extra=None):
    """False when the facts of the state contradict each other modulo the recorded equalities and a
    finite instantiation of the quantified facts"""
    return not contradictory(I, st, ())


def with_head(I, st, a):
    n, lv, body = a.a
    b = mk("bv", lv)
    if not any(x.op == "idx" and x.a[1] is add(b, Int(1)) for x in walk(body)):
        return None
    if I.truth(st, subst(body, {b: Int(-1)})) is not True:
        return None
    _fresh[0] += 1
    k = mk("k", ("hd", _fresh[0]))
    return forall(add(n, Int(1)), subst(body, {b: sub(k, Int(1))}), k)


def contradictory(I, st, goals):
    alls = [(a, p) for a, p in st.facts.items() if a.op == "all"]
    sts = [st]
    if alls:
        s = st.copy()
        for a, p in list(alls):
            # a fact about every element but the first, next to the same fact about the first
            f = with_head(I, s, a) if p else None
            if f is not None:
                sts = [x for y in sts for x in I.assume(y.copy(), f)]
                for x in f.a if f.op == "and" else (f,):
                    if x.op == "all":
                        alls.append((x, True))
        if len(sts) != 1:
            return all(contradictory(I, x, goals) for x in sts)
        s = sts[0].copy()
        pos = [a for a, p in alls if p]
        cand = []
        sts = [s]
        for a, p in alls:
            if not p:
                w = skolem(I)
                n, lv, body = a.a
                cand.append(w)
                f = AND(lt(w, n), NOT(subst(body, {mk("bv", lv): w})))
                sts = [x for y in sts for x in I.assume(y, f)]
        if pos and sts:
            ks = set()
            for a, p in st.facts.items():
                if a.op != "all":
                    for t in a.free:
                        if t.op == "k":
                            ks.add(t)
            cand += sorted(ks, key=lambda t: t.id)[:4]
            idx = []
            for c in cand:
                for d in (0, -1, 1):
                    idx.append(add(c, Int(d)))
            idx.append(Int(0))
            fs = []
            for a in pos:
                for i in idx + [sub(a.a[0], Int(1))]:
                    f = resolve(I, s, inst_all(a, i))
                    if f is not TRUE:
                        fs.append(f)
            return not any(_sat(I, s, fs) for s in sts)
    return all(not _eqfeasible(I, s) for s in sts)


def _sat(I, st, fs, budget=None):
    """depth-first search for a way to satisfy the instances next to the facts"""
    if budget is None:
        budget = [400]
    fs = list(fs)
    ch = True
    while ch:
        ch = False
        nxt = []
        for f in fs:
            t = I.truth(st, f)
            if t is True:
                continue
            if t is False:
                return False
            if f.op == "or":
                live = [x for x in f.a if I.truth(st, x) is not False]
                f = OR(*live)
            parts = f.a if f.op == "and" else (f,)
            rest = []
            for p in parts:
                if p.op in ("or", "ite"):
                    rest.append(p)
                    continue
                ss = I.assume(st.copy(), p)
                if not ss:
                    return False
                if len(ss) == 1:
                    st = ss[0]
                    ch = True
                else:
                    rest.append(p)
            nxt.extend(rest)
        fs = nxt
    if not _eqfeasible(I, st):
        return False
    if not fs:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        return True
    f = min(fs, key=lambda g: len(g.a))
    rest = [g for g in fs if g is not f]
    return any(_sat(I, s, rest, budget) for s in I.assume(st.copy(), f))


def _eqfeasible(I, st):
    m = eqmap(st)
    for a, p in st.facts.items():
        if p and a.op == "is":
            d = mk("discr", a.a[0], a.a[1])
            x = I.discr(adt(a.a[1], a.a[2], (), ()), a.a[1])
            if x.op == "int":
                m[d] = x
    # a witness the facts bound to one index
    for a in st.facts:
        for t in a.free:
            if t.op == "k" and t not in m and type(t.a[0]) is tuple and t.a[0][0] == "sk" and I.prove_le0(st, t) and I.prove_le0(st, scale(t, -1)):
                m[t] = Int(0)
    if not m:
        return True
    s2 = State()
    s2.cells = {}
    for a, p in st.facts.items():
        if a.op in ("all",):
            continue
        b = subst(a, m)
        f = b if p else NOT(b)
        r = I.truth(s2, f)
        if r is False:
            return False
        if r is None and f.op not in ("and", "or", "ite"):
            ss = I.assume(s2, f)
            if not ss:
                return False
            s2 = ss[0]
    return True


def eqmap(st):
    """rewriting map of the equalities recorded on a path"""
    m = {}
    for a, p in st.facts.items():
        if p and a.op == "eq":
            x, y = a.a
            if (size(x), x.id) < (size(y), y.id):
                x, y = y, x
            # rewrite x to y
            if not occurs(x, y) and x not in m and x.op not in ("adt", "seq", "int", "bool"):
                m[x] = y
        elif p and a.op == "eq0":
            c, d = tm.to_lin(a.a[0])
            best = None
            for t, k in d.items():
                if abs(k) == 1 and t.op not in ("int",):
                    rest = tm.from_lin(-c * k, {u: -w * k for u, w in d.items() if u is not t})
                    if not occurs(t, rest):
                        if best is None or (size(t), t.id) > (size(best[0]), best[0].id):
                            best = (t, rest)
            if best is not None and best[0] not in m:
                m[best[0]] = best[1]
    for _ in range(3):
        m2 = {k: subst(v, {a: b for a, b in m.items() if a is not k}) for k, v in m.items()}
        if m2 == m:
            break
        m = {k: v for k, v in m2.items() if not occurs(k, v)}
    return m


def entails(I, st, f):
    """the facts of the state imply the formula"""
    if f is TRUE:
        return True
    if I.truth(st, f) is True:
        return True
    return all(contradictory(I, s, ()) for s in I.assume(st.copy(), NOT(f)))


_size = {}


def size(t):
    r = _size.get(t.id)
    if r is None:
        r = 1
        for x in t.a:
            if isinstance(x, T):
                r += size(x)
            elif x.__class__ is tuple:
                for y in x:
                    if isinstance(y, T):
                        r += size(y)
                    elif y.__class__ is tuple:
                        r += sum(size(z) for z in y if isinstance(z, T))
        _size[t.id] = r
    return r


def occurs(x, t):
    seen = set()
    todo = [t]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if y.id in seen:
            continue
        seen.add(y.id)
        todo.extend(subterms(y))
    return False


# -------------------------------------------------------------------- result checks
def equal_under(I, st, a, b):
    if a is b or b is UNIT:
        return True
    if same_under(I, st, a, b):
        return True
    f = tm.eq(a, b)
    if I.truth(st, f) is True:
        return True
    # rewrite by the equalities of the path
    m = eqmap(st)
    if m:
        a2, b2 = subst(a, m), subst(b, m)
        if a2 is b2 or same_under(I, st, a2, b2) or I.truth(st, tm.eq(a2, b2)) is True:
            return True
    return False


def want(val):
    def chk(I, st, v, o):
        if equal_under(I, st, v, val):
            return None
        return f"returns {show(v)[:500]} where {show(val)[:500]} is required"
    return chk


def want_any(*vals):
    def chk(I, st, v, o):
        if any(equal_under(I, st, v, x) for x in vals):
            return None
        return f"returns {show(v)[:500]} where {show(vals[0])[:500]} is required"
    return chk


def want_ok(val=None, pred=None):
    def chk(I, st, v, o):
        for s in I.assume(st.copy(), NOT(is_(v, RES, "Ok"))):
            if feasible(I, s):
                return f"returns an error ({show(v)[:300] if v.op != 'adt' or not carried(show(v)) else 'Err'}) where success is required"
        got = fld(v, RES, "Ok", "0")
        if val is not None and not equal_under(I, st, got, val):
            return f"succeeds with {show(got)[:500]} where {show(val)[:500]} is required"
        if pred is not None:
            return pred(I, st, got, o)
        return None
    return chk


def want_err(pred=None):
    def chk(I, st, v, o):
        for s in I.assume(st.copy(), is_(v, RES, "Ok")):
            if feasible(I, s):
                # a literal Ok: the payload plays no part in the disagreement
                return f"succeeds ({'Ok' if v.op == 'adt' else show(v)[:300]}) where an error is required"
        if pred is not None:
            return pred(I, st, fld(v, RES, "Err", "0"), o)
        return None
    return chk


def isok(t):
    return is_(t, RES, "Ok")


def okv(t):
    return fld(t, RES, "Ok", "0")


def errv(t):
    return fld(t, RES, "Err", "0")


def issome(t):
    return is_(t, OPT, "Some")


def somev(t):
    return fld(t, OPT, "Some", "0")


def mentions_app(t, names):
    for x in walk(t):
        if x.op in ("app", "mut") and x.a[0] in names:
            return x
    return None


def events(st, pred=None):
    return [e for e in st.trace if pred is None or pred(e)]
