"""Interprocedural abstract interpretation of MIR in the term domain.

Control flow is partitioned by path (trace partitioning), calls into the analysed crates are
inlined up to a per-rule set of leaves, loops are summarised by a fixpoint over their modified
cells (never unrolled).  Nothing of the analysed program is executed and no solver is used: path
conditions are facts over canonical atoms, with a small linear-arithmetic domain for lengths and
indices."""
import struct
import re
import sys
from term import *
import term as tm
from ir import LOCAL, strip_impl

sys.setrecursionlimit(100000)

WID = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
       "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "char": 32}


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("cells", "facts", "trace", "poss")

    def __init__(self):
        self.cells = {}
        self.facts = {}
        self.poss = {}
        self.trace = ()

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.facts = dict(self.facts)
        s.poss = dict(self.poss)
        s.trace = self.trace
        return s


class Ev:
    """an opaque call in a trace"""
    __slots__ = ("kind", "name", "args", "res", "span", "fn", "extra")

    def __init__(self, kind, name, args, res, span, fn, extra=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.res = res
        self.span = span
        self.fn = fn
        self.extra = extra

    def key(self):
        return (self.kind, self.name, self.args, self.res)

    def __repr__(self):
        if self.kind == "loop":
            return f"<loop {self.name} exit={self.extra[1] if self.extra else ''}>"
        return f"{self.name}({', '.join(map(show, self.args))})"


class Out:
    __slots__ = ("kind", "st", "val", "info")

    def __init__(self, kind, st, val=None, info=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.info = info


class LoopRec:
    def __init__(self, lid):
        self.id = lid
        self.k = mk("k", lid)
        self.n = None
        self.phis = {}      # phi term -> (init, [updates], where)
        self.conts = []     # [(facts list, trace delta, state)]
        self.exits = []     # [(facts list, trace delta, kind)]
        self.span = ""
        self.fn = ""


STD = ("core", "alloc", "std")
MAXDUR = ((1 << 64) - 1) * 1000000000 + 999999999
STD_KNOWN = re.compile(r"^(core|std)::(fmt|hash|panicking)::|unwrap_failed|^alloc::fmt|^(core|alloc|std)::.*::hash$|^core::cmp::PartialOrd::partial_cmp")


UNMODELLED = set()


def red_atom(at):
    """a comparison with the least / greatest element of a (non-empty) list, as a statement about its elements"""
    c, d = to_lin(at.a[0])
    rs = [x for x in d if x.op == "red"]
    if len(rs) != 1 or abs(d[rs[0]]) != 1 or any(y.op == "bv" for y in at.free):
        return None
    r = rs[0]
    op, s = r.a
    k = mk("k", ("red", r.id))
    every = (op == "max") == (d[r] > 0)

    def on(x):
        f = le0(subst(at.a[0], {r: x}))
        return f if every else NOT(f)
    # element by element: single elements apart from those of a comprehension
    fs = []
    for g in tm.segs_of(s):
        if g.op == "el":
            fs.append(on(g.a[0]))
        elif g.op == "comp":
            al = tm.subst_comp(g, k)
            if any(x.op != "el" for _, b in al for x in tm.segs_of(b)):
                break
            fs.append(tm.forall(g.a[0], tm.AND(*[tm.OR(NOT(c), on(x.a[0])) for c, b in al for x in tm.segs_of(b)]), k))
        else:
            break
    else:
        f = tm.AND(*fs)
        return f if every else NOT(f)
    f = tm.forall(tm.length(s), on(index(s, k)), k)
    return f if every else NOT(f)


class Interp:
    def __init__(self, prog, leaf=None, models=None, opts=None):
        self._pm = {}
        import models as md
        self.p = prog
        self.leaf = leaf or (lambda short, body: False)
        self.models = md.MODELS
        self.unmodelled = UNMODELLED
        self.md = md
        self.opts = opts or {}
        self.frames = {}
        self.frame_info = []
        self.tsub = {}      # function -> what its type parameters stand for in the running instance
        self.instmemo = {}
        self.fnreg = []
        self.fnreg_idx = {}
        self.ranges = {}
        self.phiinit = {}       # loop-carried value -> (value before the loop, iteration variable)
        self.stack = []
        self.const_memo = {}
        self.loops = {}
        self.stats = {"functions": set(), "paths": 0, "calls": 0, "loops": set(), "opaque": set()}
        self.loop_ctx = []
        self.kstack = []
        self.tls = []           # thread-local values being accessed, with the marker of a live borrow
        self.budget = self.opts.get("budget", 400000)
        self.steps = 0
        self.cur = None

    # ------------------------------------------------------------ frames and cells
    def frame(self, parent, key, site):
        k = (parent, key, site)
        f = self.frames.get(k)
        if f is None:
            f = len(self.frame_info)
            self.frames[k] = f
            self.frame_info.append(k)
        return f

    def newcell(self, st, name, val):
        c = ("h", name)
        i = 0
        while c in st.cells:
            i += 1
            c = ("h", name, i)
        st.cells[c] = val
        return mk("ref", c, ())

    def load(self, st, cell, proj):
        v = st.cells.get(cell)
        if v is None:
            return mk("uninit", str(cell))
        for e in proj:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if e[0] == "f":
            return self.field(v, e[1], e[2], e[3])
        if e[0] == "i":
            return index(v, e[1])
        if e[0] == "s":
            return subseq(v, e[1], e[2])
        raise Unsupported("projection " + str(e))

    def field(self, v, path, variant, name):
        if v.op == "clo":
            return v.a[1 + int(name)]
        if v.op == "ref" and (path.startswith("alloc::boxed") or path.startswith("core::ptr") or path == ""):
            return v
        if path.startswith("alloc::boxed::Box") or path.startswith("core::ptr::") or path.startswith("core::mem::"):
            return v
        return fld(v, path, variant, name)

    def store(self, st, cell, proj, val):
        if not proj:
            st.cells[cell] = val
            return
        v = st.cells.get(cell)
        if v is None:
            v = mk("uninit", str(cell))
        st.cells[cell] = self.upd(v, proj, val)

    def upd(self, v, proj, val):
        e = proj[0]
        if e[0] == "f":
            path, variant, name = e[1:]
            if path.startswith("core::mem::") or path.startswith("alloc::boxed::Box") or path.startswith("core::ptr::"):
                return self.upd(v, proj[1:], val) if len(proj) > 1 else val
            if v.op == "clo":
                a = list(v.a)
                i = 1 + int(name)
                a[i] = self.upd(a[i], proj[1:], val) if len(proj) > 1 else val
                return mk("clo", *a)
            x = val if len(proj) == 1 else self.upd(self.field(v, path, variant, name), proj[1:], val)
            return with_(v, path, variant, name, x)
        if e[0] == "i":
            x = val if len(proj) == 1 else self.upd(index(v, e[1]), proj[1:], val)
            return self.setidx(v, e[1], x)
        if e[0] == "s":
            x = val if len(proj) == 1 else self.upd(subseq(v, e[1], e[2]), proj[1:], val)
            return cat(subseq(v, Int(0), e[1]), x, subseq(v, e[2], length(v)))
        raise Unsupported("store " + str(e))

    def setidx(self, v, i, x):
        if v.op == "seq" and i.op == "int" and all(s.op == "el" for s in v.a) and 0 <= i.a[0] < len(v.a):
            a = list(v.a)
            a[i.a[0]] = mk("el", x)
            return mk("seq", *a)
        return mk("store", v, i, x)

    def place(self, st, fr, body, pl, want_val=False):
        """-> (cell, proj, imm)"""
        cell = (fr, pl[0])
        proj = ()
        imm = False
        variant = ""
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, cell, proj)
                if v.op == "ref":
                    cell, proj = v.a[0], v.a[1]
                    imm = False
                else:
                    imm = True
            elif k == "f":
                path = e[2] if len(e) > 2 else ""
                if path.startswith("alloc::boxed::Box") or path.startswith("core::ptr::") or path in TRANSPARENT:
                    variant = ""
                    continue
                v = None
                if path.startswith("core::mem::") :
                    variant = ""
                    continue
                a = self.p.adts.get(path)
                vn = variant
                if not vn and a and a["kind"] == "enum":
                    vn = a["v"][0]["n"]
                proj = proj + (("f", path, vn, e[1]),)
                variant = ""
            elif k == "d":
                variant = e[1]
            elif k == "i":
                proj = proj + (("i", st.cells[(fr, e[1])]),)
            elif k == "ci":
                if e[3]:
                    ln = length(self.load(st, cell, proj))
                    proj = proj + (("i", sub(ln, Int(e[1]))),)
                else:
                    proj = proj + (("i", Int(e[1])),)
            elif k == "ss":
                ln = length(self.load(st, cell, proj))
                to = sub(ln, Int(e[2])) if e[3] else Int(e[2])
                proj = proj + (("s", Int(e[1]), to),)
            else:
                raise Unsupported("place elem " + str(e))
        return cell, proj, imm

    def read_place(self, st, fr, body, pl):
        cell, proj, _ = self.place(st, fr, body, pl)
        return self.load(st, cell, proj)

    def write_place(self, st, fr, body, pl, val):
        cell, proj, imm = self.place(st, fr, body, pl)
        self.store(st, cell, proj, val)

    def deref(self, st, v):
        """value behind (possibly nested) references, not inside aggregates"""
        n = 0
        while v.op == "ref":
            v = self.load(st, v.a[0], v.a[1])
            n += 1
            if n > 50:
                raise Unsupported("ref cycle")
        return v

    def reify(self, st, v, depth=0):
        """value with every reference replaced by what it points to"""
        if depth > 40:
            return v
        v = self.deref(st, v)
        if v.op in ("int", "bool", "sym", "lit", "bv", "k"):
            return v
        if not self.has_ref(v):
            return v
        if v.op == "adt":
            return adt(v.a[0], v.a[1], v.a[2], tuple(self.reify(st, x, depth + 1) for x in v.a[3:]))
        if v.op == "seq":
            return seq_of([rebuild(s.op, [self.reify(st, x, depth + 1) if isinstance(x, T) else x for x in s.a]) for s in v.a])
        na = []
        for x in v.a:
            if isinstance(x, T):
                na.append(self.reify(st, x, depth + 1))
            elif x.__class__ is tuple and x and x[0].__class__ is tuple:
                na.append(tuple((k, self.reify(st, y, depth + 1)) if isinstance(y, T) else (k, y) for k, y in x))
            else:
                na.append(x)
        return rebuild(v.op, na)

    _hr = {}

    def has_ref(self, v):
        r = self._hr.get(v)
        if r is None:
            if v.op == "ref":
                r = True
            else:
                r = False
                for x in v.a:
                    if isinstance(x, T):
                        if self.has_ref(x):
                            r = True
                            break
                    elif x.__class__ is tuple:
                        for y in x:
                            if y.__class__ is tuple:
                                for z in y:
                                    if isinstance(z, T) and self.has_ref(z):
                                        r = True
            self._hr[v] = r
        return r

    # ------------------------------------------------------------ facts
    def assume(self, st, f):
        """states (0, 1 or more) in which formula f holds"""
        if f is TRUE:
            return [st]
        if f is FALSE:
            return []
        op = f.op
        if op == "and":
            sts = [st]
            for x in f.a:
                sts = [s2 for s in sts for s2 in self.assume(s, x)]
            return sts
        if op == "or":
            out = []
            rest = st
            pend = [st]
            for x in f.a:
                nxt = []
                for s in pend:
                    out.extend(self.assume(s.copy(), x))
                    nxt.extend(self.assume(s, NOT(x)))
                pend = nxt
            return out
        pol = True
        at = f
        if op == "not":
            pol = False
            at = f.a[0]
            if at.op == "ite":
                return self.assume(st, ite(at.a[0], NOT(at.a[1]), NOT(at.a[2])))
        if at.op == "ite":
            c, x, y = at.a
            out = []
            for s in self.assume(st.copy(), c):
                out.extend(self.assume(s, x))
            for s in self.assume(st, NOT(c)):
                out.extend(self.assume(s, y))
            return out
        cur = self.value_of(st, at)
        if cur is not None:
            return [st] if cur == pol else []
        if at.op == "le0":
            g = red_atom(at)
            if g is not None:
                return self.assume(st, g if pol else NOT(g))
        if at.op in ("le0", "eq0"):
            # a number that depends on a condition: one state per case
            for x in to_lin(at.a[0])[1]:
                if x.op == "ite" and not any(y.op == "bv" for y in x.free):
                    out = []
                    for c, b in ((x.a[0], x.a[1]), (NOT(x.a[0]), x.a[2])):
                        g = subst(at, {x: b})
                        for s in self.assume(st.copy(), c):
                            out.extend(self.assume(s, g if pol else NOT(g)))
                    return out
        if at.op == "is":
            t, path, var = at.a
            vs = VARIANTS.get(path)
            if vs is None or len(vs) <= 2:
                st.facts[at] = pol
                return [st]
            cur = st.poss.get(t) or frozenset(vs)
            new = frozenset([var]) & cur if pol else cur - {var}
            if not new:
                return []
            st.poss[t] = new
            st.facts[at] = pol
            if len(new) == 1:
                for v in vs:
                    st.facts[mk("is", t, path, v)] = v in new
            return [st]
        if at.op == "eq0" and not pol:
            # split a != b only when an ordering is already known; keep as fact
            pass
        st.facts[at] = pol
        if at.op == "eq" and pol:
            self.eq_fact(st, at)
        return [st]

    def eq_fact(self, st, at):
        a, b = at.a
        # lengths of equal sequences are equal: only recorded for existing length atoms
        return

    def value_of(self, st, at):
        """True / False / None: truth of an atom under the facts of the state"""
        if at in st.facts:
            return st.facts[at]
        if at.op == "is":
            t, path, var = at.a
            cur = st.poss.get(t)
            if cur is not None:
                if var not in cur:
                    return False
                if len(cur) == 1:
                    return True
            return None
        if at.op == "le0":
            if self.prove_le0(st, at.a[0]):
                return True
            if self.prove_le0(st, add(Int(1), scale(at.a[0], -1))):
                return False
            return None
        if at.op == "eq0":
            x = at.a[0]
            if self.prove_le0(st, add(x, Int(1))) or self.prove_le0(st, add(Int(1), scale(x, -1))):
                return False
            if self.prove_le0(st, x) and self.prove_le0(st, scale(x, -1)):
                return True
            return None
        return None

    def truth(self, st, f):
        """True/False/None of a formula"""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if f.op == "not":
            r = self.truth(st, f.a[0])
            return None if r is None else not r
        if f.op == "and":
            rs = [self.truth(st, x) for x in f.a]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if f.op == "or":
            rs = [self.truth(st, x) for x in f.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if f.op == "ite":
            r = self.truth(st, f.a[0])
            if r is True:
                return self.truth(st, f.a[1])
            if r is False:
                return self.truth(st, f.a[2])
            return None
        return self.value_of(st, f)

    # ------------------------------------------------------------ linear arithmetic
    def rng(self, a):
        """(lo, hi) known bounds of an atom"""
        o = a.op
        if o == "len":
            # assumption: no collection has 2^31 - 1 or more elements
            return (0, (1 << 31) - 2)
        if o in ("k",):
            return (0, None)
        if o == "bv":
            return (0, None)
        if o == "psum":
            return (0, (1 << 63) - 1)
        if o == "zext":
            return (0, (1 << a.a[0]) - 1)
        if o == "trunc":
            return (0, (1 << a.a[0]) - 1)
        if o == "mod" and a.a[1].op == "int":
            return (0, a.a[1].a[0] - 1)
        if o == "satsub":
            return (0, self.rng(a.a[0])[1])
        if o in ("max", "min", "red"):
            return self.rng_mm(a)
        if o == "app" and a.a[0] == "pow" and a.a[1].op == "int" and a.a[1].a[0] >= 1:
            return (1, None)
        if o == "div" and a.a[1].op == "int":
            lo, hi = self.rng_lin(a.a[0])
            n = a.a[1].a[0]
            return (lo // n if lo is not None else None, hi // n if hi is not None else None)
        r = self.ranges.get(a)
        if r:
            return r
        return (None, None)

    def rng_lin(self, x):
        c, d = to_lin(x)
        lo = hi = c
        for a, k in d.items():
            l, h = self.rng(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def rng_mm(self, a):
        op = a.a[0] if a.op == "red" else a.op
        xs = a.a if a.op != "red" else None
        if xs is None:
            s = a.a[1]
            xs = []
            for g in segs_of(s):
                if g.op == "el":
                    xs.append(g.a[0])
                else:
                    r = self.ranges.get(a)
                    return r or (None, None)
        rs = [self.rng_lin(x) for x in xs]
        los = [r[0] for r in rs]
        his = [r[1] for r in rs]
        if op == "max":
            lo = max([x for x in los if x is not None], default=None)
            hi = None if None in his else max(his)
        else:
            hi = min([x for x in his if x is not None], default=None)
            lo = None if None in los else min(los)
        return lo, hi

    def note(self, t, ty):
        if t.op in ("int", "lin", "bool"):
            return
        if ty and ty["k"] in ("uint", "int"):
            n = ty["n"]
            w = WID.get(n)
            if w is None:
                return
            r = (0, (1 << w) - 1) if ty["k"] == "uint" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if t not in self.ranges:
                self.ranges[t] = r
        elif ty and ty["k"] == "adt" and ty.get("p") == "core::time::Duration" and t not in self.ranges:
            self.ranges[t] = (0, MAXDUR)

    def lin_facts(self, st):
        out = []
        for at, pol in st.facts.items():
            if at.op == "le0":
                if pol:
                    out.append(at.a[0])
                else:
                    out.append(add(Int(1), scale(at.a[0], -1)))
            elif at.op == "eq0" and pol:
                out.append(at.a[0])
                out.append(scale(at.a[0], -1))
        return out

    in_psum = False

    def prove_le0(self, st, x):
        c, d = to_lin(x)
        if not d:
            return c <= 0
        # interval bound
        hi = c
        for a, k in d.items():
            lo_, hi_ = self.rng(a)
            b = hi_ if k > 0 else lo_
            if b is None:
                hi = None
                break
            hi += k * b
        if hi is not None and hi <= 0:
            return True
        key = (x.id, len(self.ranges), self.in_psum,
               tuple(sorted(at.id * 2 + pol for at, pol in st.facts.items() if at.op == "le0" or at.op == "eq0")))
        r = self._pm.get(key)
        if r is None:
            r = self._pm[key] = self.prove_fm(st, x)
        return r

    def prove_fm(self, st, x):
        # Fourier-Motzkin: facts + (x >= 1) infeasible?
        cons = [to_lin(f) for f in self.lin_facts(st)]
        cons += self.derived(st, x, cons)
        goal = to_lin(add(Int(1), scale(x, -1)))
        # restrict to connected atoms
        atoms = set(goal[1])
        use = [goal]
        rest = list(cons)
        ch = True
        while ch:
            ch = False
            r2 = []
            for c_ in rest:
                if any(a in atoms for a in c_[1]):
                    use.append(c_)
                    atoms |= set(c_[1])
                    ch = True
                else:
                    r2.append(c_)
            rest = r2
        for a in atoms:
            lo_, hi_ = self.rng(a)
            if lo_ is not None:
                use.append((lo_, {a: -1}))
            if hi_ is not None:
                use.append((-hi_, {a: 1}))
        # disequalities n != c next to a bound: x != 0 and x >= 0 -> x >= 1
        extra = []
        for at, pol in st.facts.items():
            if at.op == "eq0" and not pol:
                c0, d0 = to_lin(at.a[0])
                if d0 and all(a in atoms for a in d0):
                    extra.append((c0, d0))
        if fm_infeasible(use):
            return True
        for c0, d0 in extra:
            # case split: d0 <= -1 or d0 >= 1
            if fm_infeasible(use + [(c0 + 1, d0)]) and fm_infeasible(use + [(1 - c0, {a: -k for a, k in d0.items()})]):
                return True
        return False

    def derived(self, st, x, cons):
        """axioms for interpreted atoms occurring in the query or facts"""
        out = []
        atoms = set(to_lin(x)[1])
        for c, d in cons:
            atoms |= set(d)
        todo = list(atoms)
        seen = set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            if a.op in ("div", "mod") and a.a[1].op == "int" and a.a[1].a[0] > 0:
                n = a.a[1].a[0]
                if a.op == "div":
                    # n*q <= x < n*q + n
                    q = scale(a, n)
                    out.append(to_lin(sub(q, a.a[0])))
                    out.append(to_lin(add(sub(a.a[0], q), Int(1 - n))))
                    todo.extend(to_lin(a.a[0])[1])
                else:
                    # x = n*q + m
                    q = divmod_("div", a.a[0], a.a[1])
                    e = sub(a.a[0], add(scale(q, n), a))
                    out.append(to_lin(e))
                    out.append(to_lin(scale(e, -1)))
                    todo.extend(to_lin(e)[1])
            if a.op == "satsub":
                out.append(to_lin(sub(sub(a.a[0], a.a[1]), a)))     # a-b <= s
                # s <= a
                out.append(to_lin(sub(a, a.a[0])))
            if a.op in ("max", "min"):
                for y in a.a:
                    out.append(to_lin(sub(y, a) if a.op == "max" else sub(a, y)))
            ax = self.opts.get("axioms")
            if ax:
                out.extend(to_lin(z) for z in ax(a))
        # partial sums grow: i < j  =>  psum(i) + width(i) <= psum(j)
        ps = [a for a in seen if a.op == "psum"]
        if len(ps) > 1 and not self.in_psum:
            self.in_psum = True
            try:
                for a in ps:
                    for b in ps:
                        if a is b or a.a[0] is not b.a[0]:
                            continue
                        if self.prove_le0(st, add(sub(a.a[1], b.a[1]), Int(1))):
                            w = tm.comp_width(a.a[0])
                            w = Int(0) if w is None else subst(w, {mk("bv", tm.comp_level(a.a[0])): a.a[1]})
                            e = to_lin(sub(add(a, w), b))
                            out.append(e)
            finally:
                self.in_psum = False
        return out

    # ------------------------------------------------------------ types
    def ty(self, body, i):
        return self.p.types[body.crate][self.tyi(body, i)]

    def tyi(self, body, i):
        """type i of the body, with the type parameters of the running instance replaced"""
        sub_ = self.tsub.get(body.root)
        return self.p.map_ty(body.crate, i, body.crate, sub_) if sub_ else i

    def inst(self, callee, body):
        """the callee as seen by the running instance of the body: type arguments replaced, trait method resolved"""
        sub_ = self.tsub.get(body.root)
        if not sub_ or not callee.get("a"):
            return callee
        k = (id(callee), body.crate, sub_)
        c = self.instmemo.get(k)
        if c is None:
            a = [self.p.map_ty(body.crate, x, body.crate, sub_) for x in callee["a"]]
            c = callee
            if a != callee["a"]:
                c = dict(callee, a=a)
                tr = callee.get("trait")
                if tr and not callee.get("r") and tr.split("::")[-1] != "Storage":
                    b = self.p.impl_of(tr, callee["name"], body.crate, a)
                    if b is not None:
                        c["r"] = {"key": b.key, "path": b.path, "kind": "Item", "derived": b.derived, "krate": b.j["krate"]}
                if not callee.get("r2"):
                    k2 = None
                    n = callee["key"]
                    if n == "core::convert::Into::into" and len(a) > 1:
                        k2 = self.p.impl_of("core::convert::From", "from", body.crate, [a[1], a[0]])
                    elif n == "core::convert::TryInto::try_into" and len(a) > 1:
                        k2 = self.p.impl_of("core::convert::TryFrom", "try_from", body.crate, [a[1], a[0]])
                    elif n == "alloc::string::ToString::to_string" or callee["name"] in ("new_display", "new_debug") and callee["krate"] == "core":
                        x = a[0]
                        while self.p.types[body.crate][x]["k"] == "ref":
                            x = self.p.types[body.crate][x]["e"]
                        k2 = self.p.impl_of("core::fmt::Debug" if callee["name"] == "new_debug" else "core::fmt::Display", "fmt", body.crate, [x])
                    elif callee["name"] == "parse" and callee["krate"] == "core":
                        k2 = self.p.impl_of("core::str::traits::FromStr", "from_str", body.crate, [a[-1]])
                    if k2 is not None:
                        c["r2"] = {"key": k2.key, "path": k2.path, "kind": "Item", "derived": k2.derived, "krate": k2.j["krate"]}
            self.instmemo[k] = (c, callee)
            return c
        return c[0]

    def exec_inst(self, st, b, args, ctx, site, callee=None):
        """run a body as the instance the callee names"""
        callee = callee or ctx.callee
        return self.exec_fn(st, b.key, args, ctx.fr, site, self.p.sub_for(b, callee, ctx.ccrate) if callee else None)

    # ------------------------------------------------------------ constants
    def conv_const(self, v, ty, body):
        if v is None:
            return None
        if "int" in v:
            return Int(int(v["int"]))
        if "bool" in v:
            return Bool(v["bool"])
        if "str" in v:
            return strlit(v["str"])
        if "bits" in v:
            return Int(int(v["bits"]))
        if "arr" in v:
            xs = [self.conv_const(x, None, body) for x in v["arr"]]
            if any(x is None for x in xs):
                return None
            return els(*xs)
        if "tuple" in v:
            xs = [self.conv_const(x, None, body) for x in v["tuple"]]
            if any(x is None for x in xs):
                return None
            return tup(*xs) if xs else UNIT
        if "adt" in v:
            a = self.p.adts.get(v["adt"])
            if not a:
                return None
            var = a["v"][v["variant"]]
            xs = [self.conv_const(x, None, body) for x in v["f"]]
            if any(x is None for x in xs):
                return None
            return adt(v["adt"], var["n"] if a["kind"] == "enum" else "", tuple(f["n"] for f in var["f"]), tuple(xs))
        if "static" in v:
            return self.static(v["static"])
        if "fnptr" in v:
            return mk("fnkey", v["fnptr"])
        if "zst" in v:
            if ty:
                if ty["k"] == "tuple":
                    return UNIT
                if ty["k"] == "adt":
                    a = self.p.adts.get(ty["p"])
                    if a and a["kind"] == "enum":
                        return None
                    return adt(ty["p"], "", (), ())
                if ty["k"] == "closure":
                    return mk("clo", ty["key"])
                if ty["k"] == "array":
                    return EMPTY
            return UNIT
        return None

    def static(self, key):
        if key in self.const_memo:
            return self.const_memo[key]
        self.const_memo[key] = mk("static", key)
        b = self.p.bodies.get(key)
        if b is not None and b.kind == "const":
            try:
                st = State()
                outs = [o for o in self.exec_fn(st, key, [], 0, ("const", key)) if o.kind == "ret"]
                if len(outs) == 1:
                    v = self.reify(outs[0].st, outs[0].val)
                    if not any(x in show(v) for x in ("uninit",)):
                        self.const_memo[key] = v
            except (Unsupported, KeyError):
                pass
        return self.const_memo[key]

    def konst(self, c, body):
        ty = self.ty(body, c["ty"])
        if "fn" in c:
            return self.fnval(self.inst(c["fn"], body), body.crate)
        if "v" in c and c["v"] is not None:
            r = self.conv_const(c["v"], ty, body)
            if r is not None:
                return r
        if "promoted" in c:
            return self.static_body(c["promoted"])
        if "const" in c:
            k = c["const"]
            if ty["k"] == "adt" and ty["p"].endswith("LocalKey"):
                return mk("static", k)
            return self.static(k)
        if ty["k"] == "closure":
            return mk("clo", ty["key"])
        if ty["k"] == "tuple" and not ty["a"]:
            return UNIT
        return mk("const", str(sorted(c.items()))[:200])

    def static_body(self, key):
        if key in self.const_memo:
            return self.const_memo[key]
        b = self.p.bodies.get(key)
        if b is None:
            return mk("const", key)
        st = State()
        outs = [o for o in self.exec_fn(st, key, [], 0, ("const", key)) if o.kind == "ret"]
        v = self.reify(outs[0].st, outs[0].val) if len(outs) == 1 else mk("const", key)
        self.const_memo[key] = v
        return v

    def fnval(self, callee, crate):
        k = (crate, callee["key"], str(callee.get("a")))
        i = self.fnreg_idx.get(k)
        if i is None:
            i = len(self.fnreg)
            self.fnreg.append((callee, crate))
            self.fnreg_idx[k] = i
        return mk("fn", i)

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, body, o):
        if o[0] in ("c", "m"):
            return self.read_place(st, fr, body, o[1])
        if o[0] == "k":
            return self.konst(o[1], body)
        return FALSE  # runtime checks

    # ------------------------------------------------------------ functions
    def exec_fn(self, st, key, args, parent, site, sub_=None):
        body = self.p.bodies[key]
        if body.root == key and (body.gen or sub_):
            old = self.tsub.pop(key, None)
            if sub_:
                self.tsub[key] = sub_
            try:
                return self.exec_body(st, body, args, parent, site)
            finally:
                # closures of the last instance may still run
                if old is not None:
                    self.tsub[key] = old
        return self.exec_body(st, body, args, parent, site)

    def exec_body(self, st, body, args, parent, site):
        key = body.key
        if len(self.stack) > 120:
            raise Unsupported("call depth " + key)
        fr = self.frame(parent, key, site)
        for i, a in enumerate(args):
            st.cells[(fr, i + 1)] = a
        self.stack.append(key)
        if body.kind in ("fn", "closure") and body.crate in LOCAL:
            self.stats["functions"].add(key)
        saved = self.loop_ctx
        self.loop_ctx = []
        try:
            outs = self.run(body, fr, 0, st, None)
        finally:
            self.stack.pop()
            self.loop_ctx = saved
        res = []
        for o in outs:
            if o.kind == "ret":
                v = o.st.cells.get((fr, 0), UNIT)
                # drop the callee's locals
                if any(c[0] == fr for c in o.st.cells):
                    keep = self.escaping(o.st, v, fr)
                    o.st.cells = {c: x for c, x in o.st.cells.items() if c[0] != fr or c in keep}
                res.append(Out("ret", o.st, v))
            else:
                res.append(o)
        res = self.merge(res)
        return res

    def escaping(self, st, v, fr):
        """cells of the frame still referenced from the result"""
        if not self.has_ref(v):
            return ()
        keep = set()
        todo = [v]
        while todo:
            x = todo.pop()
            if x.op == "ref":
                c = x.a[0]
                if c[0] == fr and c not in keep:
                    keep.add(c)
                    if c in st.cells:
                        todo.append(st.cells[c])
                continue
            for y in x.a:
                if isinstance(y, T) and self.has_ref(y):
                    todo.append(y)
                elif y.__class__ is tuple:
                    for z in y:
                        if z.__class__ is tuple:
                            for w in z:
                                if isinstance(w, T) and self.has_ref(w):
                                    todo.append(w)
        return keep

    def merge(self, outs):
        """join results that differ only in one complementary fact (exact)"""
        if len(outs) < 2 or len(outs) > 600:
            return outs
        ch = True
        outs = list(outs)
        while ch:
            ch = False
            groups = {}
            for i, o in enumerate(outs):
                if o.kind not in ("ret", "back", "exit"):
                    continue
                k = (o.kind, o.val, o.info if o.kind == "exit" else None, o.st.trace, frozenset(o.st.cells.items()), frozenset(o.st.facts))
                groups.setdefault(k, []).append(i)
            dead = set()
            for k, idx in groups.items():
                if len(idx) < 2:
                    continue
                for x in range(len(idx)):
                    if idx[x] in dead:
                        continue
                    for y in range(x + 1, len(idx)):
                        if idx[y] in dead or idx[x] in dead:
                            continue
                        a, b = outs[idx[x]].st, outs[idx[y]].st
                        diff = [f for f in a.facts if a.facts[f] != b.facts[f]]
                        if len(diff) == 0:
                            dead.add(idx[y])
                            ch = True
                        elif len(diff) == 1 and a.poss == b.poss:
                            s = a.copy()
                            del s.facts[diff[0]]
                            outs[idx[x]] = Out(outs[idx[x]].kind, s, outs[idx[x]].val, outs[idx[x]].info)
                            dead.add(idx[y])
                            ch = True
            if dead:
                outs = [o for i, o in enumerate(outs) if i not in dead]
        return outs

    # region execution: ctx = (header, blocks) of the innermost loop or None
    def run(self, body, fr, bb, st, ctx):
        outs = []
        work = [(bb, st)]
        loops = self.p.loops(body)
        first = True
        while work:
            bb, st = work.pop()
            if not first or ctx is None:
                # entering a block by an edge
                if ctx is not None and not (first):
                    if bb == ctx[0]:
                        outs.append(Out("back", st))
                        continue
                    if bb not in ctx[1]:
                        outs.append(Out("exit", st, info=bb))
                        continue
                if bb in loops and not (ctx is not None and bb == ctx[0]):
                    for o in self.run_loop(body, fr, bb, loops[bb], st):
                        if o.kind == "exit":
                            work.append((o.info, o.st))
                        else:
                            outs.append(o)
                    first = False
                    continue
            first = False
            self.steps += 1
            if self.steps > self.budget:
                raise Unsupported("step budget")
            blk = body.blocks[bb]
            for s in blk["s"]:
                self.stmt(st, fr, body, s)
            for o in self.terminator(st, fr, body, bb, blk):
                if o.kind == "goto":
                    work.append((o.info, o.st))
                else:
                    outs.append(o)
        return outs

    def stmt(self, st, fr, body, s):
        if s[0] == "=":
            v = self.rvalue(st, fr, body, s[2], s[1])
            self.write_place(st, fr, body, s[1], v)
        elif s[0] == "setd":
            v = self.read_place(st, fr, body, s[1])
            raise Unsupported("set discriminant")

    def rvalue(self, st, fr, body, r, dst=None):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, body, r[1])
        if k == "ref":
            cell, proj, imm = self.place(st, fr, body, r[2])
            if r[1]:
                if imm and not proj:
                    pass
                return mk("ref", cell, proj)
            return self.load(st, cell, proj)
        if k == "repeat":
            x = self.operand(st, fr, body, r[1])
            n = r[2]
            if n is None or n > 256:
                return mk("rep", x, Int(n or 0))
            return els(*([x] * n))
        if k == "tls":
            return mk("static", r[1])
        if k == "cast":
            v = self.operand(st, fr, body, r[2])
            to = self.ty(body, r[3])
            frm = self.ty(body, r[4]) if len(r) > 4 and r[4] is not None else None
            return self.cast(st, r[1], v, to, frm)
        if k == "bin":
            a = self.operand(st, fr, body, r[2])
            b = self.operand(st, fr, body, r[3])
            return self.binop(st, r[1], a, b, self.ty(body, r[4]))
        if k == "un":
            a = self.operand(st, fr, body, r[2])
            if r[1] == "Not":
                if a.op in ("bool", "not", "and", "or", "eq", "eq0", "le0", "is", "ite", "all") or self.isbool(a):
                    return NOT(a)
                if a.op == "int":
                    return mk("app", "bitnot", a)
                return NOT(a)
            if r[1] == "Neg":
                return scale(a, -1)
            if r[1] == "PtrMetadata":
                return length(self.deref(st, a))
            return mk("app", "un" + r[1], a)
        if k == "discr":
            v = self.deref(st, self.read_place(st, fr, body, r[1]))
            t = self.ty(body, r[2])
            if t["k"] == "adt":
                return self.discr(v, t["p"])
            return mk("discr", v, t["s"])
        if k == "agg":
            kd = r[1]
            ops = [self.operand(st, fr, body, o) for o in r[2]]
            if kd[0] == "adt":
                return adt(kd[1], kd[2] if kd[4] else "", tuple(kd[3]), tuple(ops))
            if kd[0] == "tuple":
                return tup(*ops) if ops else UNIT
            if kd[0] == "array":
                return els(*ops)
            if kd[0] == "closure":
                return mk("clo", kd[1], *ops)
            if kd[0] == "rawptr":
                return ops[0]
            raise Unsupported("aggregate " + str(kd))
        raise Unsupported("rvalue " + str(r)[:100])

    def isbool(self, a):
        return a.op not in ("int", "lin")

    def discr(self, v, path):
        a = self.p.adts.get(path)
        if v.op == "adt":
            if a and a["kind"] == "enum":
                names = [x["n"] for x in a["v"]]
                if v.a[1] in names:
                    i = names.index(v.a[1])
                    return Int(a["discr"][i] if a["discr"] else i)
        if v.op == "ite":
            return ite(v.a[0], self.discr(v.a[1], path), self.discr(v.a[2], path))
        return mk("discr", v, path)

    def cast(self, st, kind, v, to, frm):
        if "Expose" in kind:
            return mk("app", "addr<usize>", v)
        if kind == "IntToInt":
            if to["k"] not in ("int", "uint") or frm is None:
                return v
            wt = WID.get(to["n"], 64)
            wf = WID.get(frm.get("n", ""), 8 if frm["k"] == "bool" else 32)
            if frm["k"] == "bool":
                return ite(v, Int(1), Int(0))
            self.note(v, frm)
            if v.op == "discr":
                return v
            if v.op == "int":
                n = v.a[0]
                if to["k"] == "uint":
                    return Int(n % (1 << wt))
                n %= 1 << wt
                return Int(n - (1 << wt) if n >= 1 << (wt - 1) else n)
            if wt < wf:
                if wt >= 32 and self.smallish(v):
                    return v
                if v.op == "app" and v.a[0] == "bitcast" :
                    pass
                return trunc(wt, v)
            if wt > wf:
                if frm["k"] == "uint":
                    if v.op == "zext":
                        return v
                    if v.op in ("lin", "len", "k", "satsub"):
                        return v
                    if wf == 8:
                        return zext(wf, v)
                    return v
                return v
            if to["k"] != frm["k"]:
                if v.op == "app" and v.a[0] == "bitcast":
                    return v.a[1]
                if self.smallish(v):
                    return v
                lo, hi = self.rng(v)
                if wt == 64 and to["k"] == "int" and frm["k"] == "uint":
                    return mk("app", "bitcast", v)
                if wt == 64 and to["k"] == "uint" and frm["k"] == "int":
                    return mk("app", "bitcast", v)
                return v
            return v
        if kind == "IntToFloat":
            # exact up to 2^53 (2^24); beyond that the value is rounded
            if frm is not None:
                self.note(v, frm)
            return mk("app", "float of " + to["s"], v)
        if kind == "FloatToInt":
            x = self.exact(v)
            return x if x is not None else mk("app", "rounded to " + to.get("n", "?"), v)
        if kind == "FloatToFloat":
            return mk("app", "float to " + to["s"], v)
        return v

    def exact(self, v, op="floor"):
        """the whole number a float is (after the rounding operation), when nothing is lost"""
        if v.op == "int":
            f = struct.unpack("<d", struct.pack("<Q", v.a[0] % (1 << 64)))[0]
            return Int(int(f)) if f == f and abs(f) < 1 << 53 and f == int(f) else None
        if v.op != "app" or not (v.a[0].startswith("float of ") or v.a[0] == "fdiv"):
            return None
        lo, hi = self.rng_lin(v.a[1])
        m = 1 << (24 if v.a[0].endswith("32") else 53)
        if lo is None or hi is None or lo < -m or hi > m or (v.a[0] == "fdiv" and lo < 0):
            return None
        if v.a[0] != "fdiv":
            return v.a[1]
        x, c = v.a[1], v.a[2].a[0]
        if op == "round":
            return divmod_("div", add(scale(x, 2), Int(c)), Int(2 * c))
        return divmod_("div", x if op == "floor" else add(x, Int(c - 1)), Int(c))

    def smallish(self, v):
        c, d = to_lin(v)
        return abs(c) < 1 << 31 and all(a.op in ("len", "k", "bv", "zext", "phi", "satsub", "psum") and abs(x) < 1 << 20 for a, x in d.items())

    def binop(self, st, op, a, b, ty):
        if ty["k"] in ("int", "uint"):
            self.note(a, ty)
            self.note(b, ty)
        if ty.get("s") in ("f32", "f64"):
            if op == "Div" and b.op == "int" and ty["s"] == "f64" and a.op == "app" and a.a[0] == "float of f64":
                c = self.exact(b)
                if c is not None and c.a[0] > 0 and c.a[0] & (c.a[0] - 1) == 0:
                    return mk("app", "fdiv", a.a[1], c)
            return mk("app", "std?float " + op, a, b)
        num = ty["k"] in ("int", "uint", "char")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        ov = op.endswith("WithOverflow")
        r = None
        if num and base in ("Add", "Sub", "Mul"):
            if base == "Add":
                r = add(a, b)
            elif base == "Sub":
                r = sub(a, b)
            else:
                if a.op == "int":
                    r = scale(b, a.a[0])
                elif b.op == "int":
                    r = scale(a, b.a[0])
                else:
                    x, y = (a, b) if a.id < b.id else (b, a)
                    r = mk("app", "mul", x, y)
                    self.note(r, ty)
            if ov:
                w = WID.get(ty["n"], 64)
                lo, hi = (0, (1 << w) - 1) if ty["k"] == "uint" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                flag = NOT(AND(le(Int(lo), r), le(r, Int(hi))))
                if flag not in (TRUE, FALSE):
                    if self.prove_le0(st, sub(Int(lo), r)) and self.prove_le0(st, sub(r, Int(hi))):
                        flag = FALSE
                    else:
                        flag = mk("ovf", r, Int(lo), Int(hi))
                return tup(r, flag)
            return r
        if base in ("Div", "Rem") and num:
            return divmod_("div" if base == "Div" else "mod", a, b)
        if base == "Eq":
            return self.eqv(st, a, b, num)
        if base == "Ne":
            return NOT(self.eqv(st, a, b, num))
        if base in ("Lt", "Le", "Gt", "Ge"):
            if not num:
                if ty["k"] == "bool":
                    x, y = (a, b) if base in ("Lt", "Le") else (b, a)
                    return AND(NOT(x), y) if base in ("Lt", "Gt") else OR(NOT(x), y)
            return {"Lt": lambda: lt(a, b), "Le": lambda: le(a, b), "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a)}[base]()
        if base in ("BitAnd", "BitOr", "BitXor") and ty["k"] == "bool":
            if base == "BitAnd":
                return AND(a, b)
            if base == "BitOr":
                return OR(a, b)
            return NOT(self.eqv(st, a, b, False))
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            w = WID.get(ty.get("n", ""), 64)
            if base == "BitAnd":
                return Int(x & y)
            if base == "BitOr":
                return Int(x | y)
            if base == "BitXor":
                return Int(x ^ y)
            if base == "Shl":
                return Int((x << y) % (1 << w))
            if base == "Shr":
                return Int(x >> y)
        if base == "Shl" and a.op == "int" and a.a[0] == 1 and num:
            return self.pow2(b)
        if base == "Shr" and b.op == "int" and ty["k"] == "uint" and b.a[0] < 64:
            return divmod_("div", a, Int(1 << b.a[0]))
        if base in ("Shr", "Shl") and b.op == "ite" and b.a[1].op == "int" and b.a[2].op == "int":
            return ite(b.a[0], self.binop(st, op, a, b.a[1], ty), self.binop(st, op, a, b.a[2], ty))
        if base == "Shl" and b.op == "int" and num:
            return scale(a, 1 << b.a[0])
        if base == "BitAnd" and ty["k"] == "uint":
            for x, y in ((a, b), (b, a)):
                if y.op == "int" and y.a[0] > 0 and (y.a[0] & (y.a[0] + 1)) == 0:
                    return divmod_("mod", x, Int(y.a[0] + 1))
        if base == "Cmp":
            return self.md.ordering(a, b)
        if base in ("ShlWithOverflow", "ShrWithOverflow"):
            pass
        return mk("app", "bin" + base, a, b)

    def pow2(self, e):
        if e.op == "int":
            return Int(1 << e.a[0])
        return mk("app", "pow", Int(2), e)

    def eqv(self, st, a, b, num=False):
        a = self.reify(st, a)
        b = self.reify(st, b)
        return eq(a, b, num)

    def released(self, st, body, pl):
        """the guard of the innermost thread-local access goes out of scope"""
        ty = self.ty(body, body.locals[pl[0]])
        if len(pl) > 1 and pl[1] or not (ty["k"] == "adt" and ty["p"].split("::")[-1] in ("RefMut", "Ref")):
            return
        st.cells.pop(self.tls[-1][1], None)

    # ------------------------------------------------------------ terminators
    def terminator(self, st, fr, body, bb, blk):
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [Out("goto", st, info=t[1])]
        if k == "ret":
            return [Out("ret", st)]
        if k == "drop":
            if self.tls:
                self.released(st, body, t[1])
            return [Out("goto", st, info=t[2])]
        if k == "switch":
            return self.switch(st, fr, body, t)
        if k == "assert":
            return self.assert_(st, fr, body, bb, blk, t)
        if k == "call":
            return self.call_term(st, fr, body, bb, blk, t)
        if k in ("unreach", "resume"):
            return []
        raise Unsupported("terminator " + k)

    def switch(self, st, fr, body, t):
        v = self.operand(st, fr, body, t[1])
        ty = self.ty(body, t[4])
        outs = []
        if ty["k"] == "bool":
            v = self.deref(st, v)
            # targets: [[0, bb]] otherwise
            tgt = {int(a): b for a, b in t[2]}
            f0 = tgt.get(0, t[3])
            f1 = tgt.get(1, t[3])
            for s in self.assume(st.copy(), v):
                outs.append(Out("goto", s, info=f1))
            for s in self.assume(st, NOT(v)):
                outs.append(Out("goto", s, info=f0))
            return outs
        if v.op == "ite":
            for s in self.assume(st.copy(), v.a[0]):
                outs += self.switch_val(s, v.a[1], t)
            for s in self.assume(st, NOT(v.a[0])):
                outs += self.switch_val(s, v.a[2], t)
            return outs
        return self.switch_val(st, v, t)

    def switch_val(self, st, v, t):
        outs = []
        tgts = [(int(a), b) for a, b in t[2]]
        if v.op == "int":
            for a, b in tgts:
                if a == v.a[0] or a == v.a[0] % (1 << 64) or a == v.a[0] % (1 << 128) or (v.a[0] < 0 and any(a == v.a[0] % (1 << w) for w in (8, 16, 32))):
                    return [Out("goto", st, info=b)]
            return [Out("goto", st, info=t[3])]
        if v.op == "ite":
            for s in self.assume(st.copy(), v.a[0]):
                outs += self.switch_val(s, v.a[1], t)
            for s in self.assume(st, NOT(v.a[0])):
                outs += self.switch_val(s, v.a[2], t)
            return outs
        if v.op == "discr":
            path = v.a[1]
            a = self.p.adts.get(path)
            if a and a["kind"] == "enum":
                names = [x["n"] for x in a["v"]]
                ds = a["discr"] or list(range(len(names)))
                rest = []
                for i, n in enumerate(names):
                    dv = ds[i]
                    hit = [b for x, b in tgts if x == dv or x == dv % (1 << 64) or x == dv % (1 << 8)]
                    s = self.assume(st.copy(), is_(v.a[0], path, n))
                    for s2 in s:
                        outs.append(Out("goto", s2, info=hit[0] if hit else t[3]))
                # group variants going to the same target through "otherwise"
                return self.merge_gotos(outs)
        cur = [st]
        for a, b in tgts:
            nxt = []
            for s in cur:
                f = eqnum(v, Int(a))
                for s2 in self.assume(s.copy(), f):
                    outs.append(Out("goto", s2, info=b))
                nxt.extend(self.assume(s, NOT(f)))
            cur = nxt
        for s in cur:
            outs.append(Out("goto", s, info=t[3]))
        return outs

    def merge_gotos(self, outs):
        return outs

    def assert_(self, st, fr, body, bb, blk, t):
        c = self.operand(st, fr, body, t[1])
        f = c if t[2] else NOT(c)
        outs = []
        kind = t[4]
        r = self.truth(st, f)
        if r is True:
            return [Out("goto", st, info=t[3])]
        if f.op == "not" and f.a[0].op == "ovf":
            # cannot rule the overflow out here
            o = f.a[0]
            info = (kind, blk["l"], body.key, "arithmetic overflow: " + show(o.a[0]))
            for bad in self.assume(st.copy(), OR(lt(o.a[0], o.a[1]), lt(o.a[2], o.a[0]))):
                outs.append(Out("panic", bad, info=info))
            outs.append(Out("goto", st, info=t[3]))
            return outs
        for s in self.assume(st.copy(), NOT(f)):
            outs.append(Out("panic", s, info=(kind, blk["l"], body.key, "assertion may fail: " + show(f))))
        for s in self.assume(st, f):
            outs.append(Out("goto", s, info=t[3]))
        return outs

    # ------------------------------------------------------------ calls
    def call_term(self, st, fr, body, bb, blk, t):
        func, args, dest, target, argtys, destty = t[1:7]
        av = [self.operand(st, fr, body, a) for a in args]
        at = [self.ty(body, x) for x in argtys]
        dt = self.ty(body, destty)
        ctx = CallCtx(self, fr, body, bb, blk["l"], at, dt)
        if "fn" in func:
            res = self.call(st, self.inst(func["fn"], body), body.crate, av, ctx)
        else:
            fv = self.operand(st, fr, body, func["op"])
            res = self.call_value(st, fv, av, ctx)
        outs = []
        for o in res:
            if o.kind == "ret":
                if target is None:
                    continue
                self.write_place(o.st, fr, body, dest, o.val)
                outs.append(Out("goto", o.st, info=target))
            elif o.kind == "skip":
                # filtered-out element: continue with the next iteration of the enclosing loop
                outs.append(Out("back", o.st))
            else:
                outs.append(o)
        return outs

    def other_closure(self, st, key, args):
        """a higher-order function re-entered with a closure that is not running yet is no recursion"""
        for a in args:
            while a.op == "ref":
                a = self.load(st, a.a[0], a.a[1])
            if a.op == "clo" and a.a[0] not in self.stack and self.stack.count(key) < 4:
                return True
        return False

    def name_of(self, callee):
        """canonical name of an external callee"""
        if callee.get("trait"):
            return callee["trait"].split("::")[-1] + "::" + callee["name"]
        if callee.get("impl_adt"):
            return callee["impl_adt"] + "::" + callee["name"]
        return strip_impl(callee["key"])

    def body_for(self, callee):
        r = callee.get("r")
        k = (r or callee)["key"]
        b = self.p.bodies.get(k)
        return b

    def call(self, st, callee, crate, args, ctx):
        self.stats["calls"] += 1
        ctx.callee = callee
        ctx.ccrate = crate
        b = self.body_for(callee)
        r = callee.get("r")
        if r is not None and r.get("kind") == "Virtual":
            b = None
        name = self.name_of(callee)
        if b is not None and (b.crate in LOCAL or b.crate == "sa_prelude") and b.kind in ("fn", "closure"):
            derived = (r or {}).get("derived") or b.derived
            if not (derived and name in self.models):
                if self.leaf(b.short, b):
                    return self.opaque(st, b.short, args, ctx, local=True)
                if b.kind == "closure" and name in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call") and len(args) == 2:
                    # direct call of a closure: the arguments arrive as one tuple
                    return self.models[name](self, st, args, ctx)
                if b.key in self.stack and not self.other_closure(st, b.key, args):
                    self.unmodelled.add("recursion of " + b.short)
                    return self.opaque(st, "std?rec:" + b.short, args, ctx, local=True)
                pre = self.opts.get("on_call")
                if pre:
                    pre(self, st, b, args, ctx)
                return self.exec_inst(st, b, args, ctx, (ctx.bb, ctx.sub))
        if b is not None and r is not None and r.get("kind") not in (None, "Item"):
            b = None
        m = self.models.get(name)
        if m is None and r is not None:
            m = self.models.get(strip_impl(r["key"]))
        if m is not None:
            self.cur_st = st
            try:
                res = m(self, st, args, ctx)
            except self.md.NotRef:
                res = None
            if res is not None:
                return res
        if b is not None and b.crate in LOCAL and b.kind == "fn" and name == "Default::default" and b.key not in self.stack:
            return self.exec_inst(st, b, args, ctx, (ctx.bb, ctx.sub))
        if b is not None and b.kind == "std":
            if b.key not in self.stack or self.stack.count(b.key) < 3:
                return self.exec_inst(st, b, args, ctx, (ctx.bb, ctx.sub))
        # constructor functions (tuple struct / variant as function)
        c = self.ctor(callee, args)
        if c is not None:
            return [Out("ret", st, c)]
        k = (r or callee)["key"]
        if k.split("::", 1)[0].lstrip("<") in STD and not STD_KNOWN.search(k) and not (ctx.dt is not None and ctx.dt["k"] == "never"):
            # a standard library function without a model: whatever depends on it is not decided
            self.unmodelled.add(k)
            name = "std?" + name
        tr = callee.get("trait") or ""
        if tr.split("::")[0] in LOCAL and tr.split("::")[-1] != "Storage":
            # a method of a local trait whose implementation is not known here
            self.unmodelled.add(k)
            name = "std?" + name
        return self.opaque(st, name, args, ctx)

    def ctor(self, callee, args):
        k = callee["key"]
        # e.g. trust_graph::certificate::CertificateError::MalformedRoot::{constructor#0}
        p = k
        if p.endswith("::{constructor#0}"):
            p = p[: -len("::{constructor#0}")]
        a = self.p.adts.get(p)
        if a and a["kind"] == "struct" and len(a["v"][0]["f"]) == len(args):
            return adt(p, "", tuple(f["n"] for f in a["v"][0]["f"]), tuple(args))
        if "::" in p:
            e, v = p.rsplit("::", 1)
            a = self.p.adts.get(e)
            if a and a["kind"] == "enum":
                for var in a["v"]:
                    if var["n"] == v and len(var["f"]) == len(args):
                        return adt(e, v, tuple(f["n"] for f in var["f"]), tuple(args))
        return None

    def call_value(self, st, fv, args, ctx, sub_=None):
        """call a closure or function value with an argument list"""
        f0 = fv
        n = 0
        base = fv
        while base.op == "ref":
            base = self.load(st, base.a[0], base.a[1])
        if base.op == "clo":
            key = base.a[0]
            b = self.p.bodies.get(key)
            if b is None:
                return self.opaque(st, "closure", [fv] + list(args), ctx)
            env = fv if fv.op == "ref" else base
            # by-reference environments that are not addressable get a cell
            t0 = self.ty(b, b.locals[1]) if b.argc >= 1 else None
            if fv.op != "ref" and t0 is not None and t0["k"] == "ref" and t0.get("m"):
                env = self.newcell(st, ("env", key, ctx.fr, ctx.bb), base)
            if key in self.stack and self.stack.count(key) > 2:
                self.unmodelled.add("recursion of " + key)
                return self.opaque(st, "std?rec:" + key, list(args), ctx)
            sub2 = (ctx.bb, ctx.sub, sub_)
            return self.exec_fn(st, key, [env] + list(args), ctx.fr, sub2)
        if base.op == "fn":
            callee, crate = self.fnreg[base.a[0]]
            c2 = CallCtx(self, ctx.fr, ctx.body, ctx.bb, ctx.span, [None] * len(args), None)
            c2.sub = (ctx.sub, sub_)
            return self.call(st, callee, crate, list(args), c2)
        if base.op == "fnkey":
            b = self.p.bodies.get(base.a[0])
            if b is not None:
                return self.exec_fn(st, b.key, list(args), ctx.fr, (ctx.bb, ctx.sub, sub_))
        return self.opaque(st, "call_unknown", [base] + list(args), ctx)

    def opaque(self, st, name, args, ctx, local=False, pure=False, dest=None):
        """uninterpreted call: result is a term over the argument values; mutable arguments change"""
        vals = tuple(self.reify(st, a) for a in args)
        name = self.md.ALIAS.get(name, name)
        res = sapp(name, *vals)
        if ctx.dt is not None and ctx.dt["k"] == "tuple" and not ctx.dt["a"]:
            res = UNIT
        if ctx.dt is not None and ctx.dt["k"] == "never":
            return [Out("panic", st, info=("panic", ctx.span, ctx.body.key if ctx.body else "", name))]
        self.stats["opaque"].add(name)
        ev = Ev("call", name, vals, res, ctx.span, ctx.body.key if ctx.body else "")
        if not pure:
            st.trace = st.trace + (ev,)
            for i, a in enumerate(args):
                self.havoc(st, a, name, i, vals)
        if ctx.dt is not None:
            self.note(res, ctx.dt)
        return [Out("ret", st, res)]

    def havoc(self, st, a, name, i, vals, depth=0):
        if a.op == "ref":
            cell, proj = a.a
            cur = self.load(st, cell, proj)
            if cur.op == "ref":
                return self.havoc(st, cur, name, i, vals, depth + 1)
            new = mk("mut", name, i, *vals)
            if cur.op == "adt" and any(self.has_ref(x) for x in cur.a[3:]):
                for x in cur.a[3:]:
                    self.havoc(st, x, name, i, vals, depth + 1)
                return
            self.store(st, cell, proj, new)
        elif self.has_ref(a) and depth < 6:
            for x in a.a:
                if isinstance(x, T) and self.has_ref(x):
                    self.havoc(st, x, name, i, vals, depth + 1)

    # ------------------------------------------------------------ prelude
    def prelude(self, st, fname, args, ctx):
        b = self.p.bodies.get("sa_prelude::" + fname)
        if b is None:
            raise Unsupported("prelude " + fname)
        return self.exec_fn(st, b.key, list(args), ctx.fr, (ctx.bb, ctx.sub, fname))

    # ------------------------------------------------------------ loops
    def run_loop(self, body, fr, header, blocks, st0):
        from loops import LoopRunner
        return LoopRunner(self, body, fr, header, blocks, st0).go()

    def at_header(self, ctx):
        """the call is the first effect of the innermost loop's iteration"""
        if not self.loop_ctx:
            return False
        fr, hst, header = self.loop_ctx[-1]
        if fr != ctx.fr or ctx.sub is not None:
            return False
        st = self.cur_st
        if st.trace != hst.trace or st.facts != hst.facts:
            return False
        for c, v in hst.cells.items():
            w = st.cells.get(c)
            if w is not v:
                # temporaries of this frame rewritten before the call
                if not (c[0] == fr and (v.op == "ref" or not str(c[1]) in ctx.body.names)):
                    return False
        return True

    # ------------------------------------------------------------ entry
    def entry(self, key, args=None, pre=None):
        """analyse a function for every input; returns outcomes"""
        b = self.p.bodies[key]
        st = State()
        vals = []
        for i in range(b.argc):
            t = self.ty(b, b.locals[i + 1])
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
                if args[i].op == "ref" and args[i].a[0] not in st.cells:
                    st.cells[args[i].a[0]] = sym(args[i].a[0][1])
                continue
            vals.append(self.fresh(st, t, f"a{i}", b))
        if pre:
            for f in pre:
                ss = self.assume(st, f)
                if not ss:
                    return []
                st = ss[0]
        self.cur = key
        outs = self.exec_fn(st, key, vals, 0, ("entry", key))
        self.stats["paths"] += len(outs)
        return outs

    def fresh(self, st, t, name, body):
        if t["k"] == "ref":
            inner = self.ty(body, t["e"])
            if t.get("m"):
                c = ("in", name)
                st.cells[c] = self.fresh(st, inner, name, body)
                return mk("ref", c, ())
            return self.fresh(st, inner, name, body)
        s = sym(name)
        if t["k"] in ("uint", "int"):
            self.note(s, t)
        if t["k"] == "tuple":
            return tup(*[self.fresh(st, self.ty(body, x), f"{name}.{i}", body) for i, x in enumerate(t["a"])]) if t["a"] else UNIT
        return s


class CallCtx:
    __slots__ = ("I", "fr", "body", "bb", "span", "at", "dt", "callee", "ccrate", "sub")

    def __init__(self, I, fr, body, bb, span, at, dt):
        self.I = I
        self.fr = fr
        self.body = body
        self.bb = bb
        self.span = span
        self.at = at
        self.dt = dt
        self.callee = None
        self.ccrate = None
        self.sub = None

    def targ(self, i):
        """i-th type argument of the callee"""
        a = self.callee.get("a") or []
        if i < len(a):
            return self.I.p.types[self.ccrate][a[i]]
        return None

    def tyi(self, i):
        return self.I.p.types[self.ccrate][i]


# ---------------------------------------------------------------- Fourier-Motzkin


def fm_infeasible(cons, limit=400):
    """rational infeasibility of {c + sum k_i a_i <= 0} (sound for the integers)"""
    cs = []
    seen = set()
    for c, d in cons:
        d = {a: k for a, k in d.items() if k}
        if not d:
            if c > 0:
                return True
            continue
        key = (c, frozenset(d.items()))
        if key not in seen:
            seen.add(key)
            cs.append((c, d))
    while True:
        atoms = {}
        for c, d in cs:
            for a, k in d.items():
                p, n = atoms.get(a, (0, 0))
                atoms[a] = (p + 1, n) if k > 0 else (p, n + 1)
        if not atoms:
            return False
        a = min(atoms, key=lambda x: (x.op in ("div", "mod"), atoms[x][0] * atoms[x][1], x.id))
        pos = [(c, d) for c, d in cs if d.get(a, 0) > 0]
        neg = [(c, d) for c, d in cs if d.get(a, 0) < 0]
        rest = [(c, d) for c, d in cs if not d.get(a, 0)]
        new = {}
        for c1, d1 in pos:
            for c2, d2 in neg:
                k1, k2 = d1[a], -d2[a]
                c = c1 * k2 + c2 * k1
                d = {}
                for x, k in d1.items():
                    d[x] = d.get(x, 0) + k * k2
                for x, k in d2.items():
                    d[x] = d.get(x, 0) + k * k1
                d = {x: k for x, k in d.items() if k}
                if not d:
                    if c > 0:
                        return True
                    continue
                g = tm._gcd(d.values())
                if g > 1:
                    d = {x: k // g for x, k in d.items()}
                    c = -((-c) // g)
                key = frozenset(d.items())
                if key not in new or new[key] < c:
                    new[key] = c
        cs = rest + [(c, dict(d)) for d, c in new.items()]
        best = {}
        for c, d in cs:
            key = frozenset(d.items())
            if key not in best or best[key] < c:
                best[key] = c
        cs = [(c, dict(d)) for d, c in best.items()]
        if len(cs) > limit:
            return False
