"""Hash-consed terms (the value domain) with the normalisations the rules rely on.

Values are Herbrand terms over the analysed program's inputs.  Integers and Durations (in
nanoseconds) are kept in linear normal form, sequences (Vec, slice, String, NonEmpty, VecDeque)
as concatenations of segments, booleans as formulas over canonical atoms."""
import itertools

_tab = {}
_cnt = itertools.count()


class T:
    __slots__ = ("op", "a", "id", "free", "lvl")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_cnt)
        fr = frozenset()
        lv = 0
        for x in a:
            if isinstance(x, T):
                if x.free:
                    fr = fr | x.free
                if x.lvl > lv:
                    lv = x.lvl
            elif x.__class__ is tuple:
                for y in x:
                    if y.__class__ is tuple:
                        for z in y:
                            if isinstance(z, T):
                                fr = fr | z.free
                                lv = max(lv, z.lvl)
        if op in ("k", "phi"):
            fr = fr | {t}
        if op == "bv":
            lv = a[0]
        elif op in ("comp", "all"):
            lv = max(lv, a[1])
        t.free = fr
        t.lvl = lv
        _tab[key] = t
    return t


# ------------------------------------------------------------------ basic
TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("adt", "()", "", ())
EMPTY = mk("seq")


def Int(n):
    return mk("int", n)


def Bool(b):
    return TRUE if b else FALSE


def sym(n):
    return mk("sym", n)


def app(f, *args):
    return mk("app", f, *args)


def tup(*xs):
    return mk("adt", "()", "", tuple(str(i) for i in range(len(xs))), *xs)


# newtypes treated as transparent (filled from the ADT table)
TRANSPARENT = set()
NFIELDS = {}
VARIANTS = {}   # enum path -> [variant names]
DISCRS = {}     # enum path -> [discriminants], where they are not 0, 1, ...


def adt(path, variant, names, fields):
    names = tuple(names)
    if path in TRANSPARENT and len(fields) == 1:
        return fields[0]
    # eta: rebuilding a value from all of its own fields
    if fields and path != "()" or (path == "()" and len(fields) > 1):
        base = None
        ok = True
        for n, f in zip(names, fields):
            if isinstance(f, T) and f.op == "fld" and f.a[1] == path and f.a[2] == variant and f.a[3] == n:
                if base is None:
                    base = f.a[0]
                elif base is not f.a[0]:
                    ok = False
                    break
            else:
                ok = False
                break
        if ok and base is not None and (path == "()" or len(fields) == NFIELDS.get((path, variant), len(fields))):
            return base
    return mk("adt", path, variant, names, *fields)


OPT = "core::option::Option"
RES = "core::result::Result"
NONE = mk("adt", OPT, "None", ())


def some(x):
    return adt(OPT, "Some", ("0",), (x,))


def ok(x):
    return adt(RES, "Ok", ("0",), (x,))


def err(x):
    return adt(RES, "Err", ("0",), (x,))


def fld(t, path, variant, name):
    if path in TRANSPARENT:
        return t
    if t.op == "adt":
        if t.a[1] == variant or variant in ("", None) or t.a[1] == "":
            ns = t.a[2]
            if name in ns:
                return t.a[3 + ns.index(name)]
        if t.a[1] != variant:
            return mk("undef", variant, name)
    if t.op == "with":
        for n, v in t.a[1]:
            if n == (path, variant, name):
                return v
        return fld(t.a[0], path, variant, name)
    if t.op == "ite":
        return ite(t.a[0], fld(t.a[1], path, variant, name), fld(t.a[2], path, variant, name))
    return mk("fld", t, path or "", variant or "", name)


def with_(t, path, variant, name, v):
    """t with field replaced"""
    if path in TRANSPARENT:
        return v
    if t.op == "adt" and name in t.a[2]:
        fs = list(t.a[3:])
        fs[t.a[2].index(name)] = v
        return adt(t.a[0], t.a[1], t.a[2], tuple(fs))
    base, ov = t, ()
    if t.op == "with":
        base, ov = t.a[0], t.a[1]
    key = (path, variant, name)
    d = {k: x for k, x in ov}
    if fld(base, path, variant, name) is v:
        d.pop(key, None)
    else:
        d[key] = v
    if not d:
        return base
    nf = NFIELDS.get((path, variant or "")) if path else None
    if nf and len(d) == nf and all(k[0] == path for k in d) and path in FIELDNAMES:
        names = FIELDNAMES[path]
        return adt(path, variant or "", names, tuple(d[(path, variant, n)] for n in names))
    return mk("with", base, tuple(sorted(d.items(), key=lambda kv: (str(kv[0])))))


FIELDNAMES = {}

# ------------------------------------------------------------------ linear integers


def to_lin(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def from_lin(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return Int(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    items = tuple(sorted(d.items(), key=lambda x: x[0].id))
    return mklin(c, items)


def mklin(c, items):
    return mk("lin", c, items)


def add(x, y, m=1):
    c, d = to_lin(x)
    c2, d2 = to_lin(y)
    d = dict(d)
    for a, k in d2.items():
        d[a] = d.get(a, 0) + m * k
    return from_lin(c + m * c2, d)


def sub(x, y):
    return add(x, y, -1)


def scale(x, n):
    c, d = to_lin(x)
    return from_lin(c * n, {a: k * n for a, k in d.items()})


def is_int(t):
    return t.op == "int"


def _gcd(ks):
    from math import gcd
    g = 0
    for k in ks:
        g = gcd(g, abs(k))
    return g


def le0(x):
    """formula x <= 0 over the integers, canonical"""
    c, d = to_lin(x)
    if not d:
        return Bool(c <= 0)
    if c > 0 and all(k > 0 and a.op in NONNEG for a, k in d.items()):
        return FALSE
    if c <= 0 and all(k < 0 and a.op in NONNEG for a, k in d.items()):
        return TRUE
    g = _gcd(d.values())
    if g > 1:
        # sum <= -c  ->  sum/g <= floor(-c/g)
        d = {a: k // g for a, k in d.items()}
        c = -((-c) // g)
    first = min(d, key=lambda a: a.id)
    if d[first] < 0:
        # x <= 0  <=>  not (x >= 1) <=> not (1 - x <= 0)
        return NOT(mk("le0", from_lin(1 - c, {a: -k for a, k in d.items()})))
    return mk("le0", from_lin(c, d))


def lt(a, b):
    return le0(add(sub(a, b), Int(1)))


def le(a, b):
    return le0(sub(a, b))


NUMERIC_OPS = {"int", "lin", "len", "zext", "psum", "k", "div", "mod", "satsub", "bv", "trunc"}


def eqnum(a, b):
    x = sub(a, b)
    c, d = to_lin(x)
    if not d:
        return Bool(c == 0)
    g = _gcd(d.values())
    if c % g:
        return FALSE
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c //= g
    first = min(d, key=lambda a: a.id)
    if d[first] < 0:
        d = {a: -k for a, k in d.items()}
        c = -c
    if len(d) == 1 and first.op == "discr" and d[first] == 1 and first.a[1] in VARIANTS:
        # the discriminant names the variant
        vs = VARIANTS[first.a[1]]
        ds = DISCRS.get(first.a[1]) or list(range(len(vs)))
        if -c in ds:
            return is_(first.a[0], first.a[1], vs[ds.index(-c)])
    if c == 0 and len(d) == 1 and first.op in NONNEG and d[first] == 1:
        # a quantity that is never negative is zero exactly when it is at most zero
        return le0(first)
    return mk("eq0", from_lin(c, d))


NONNEG = {"len", "psum", "k", "zext", "satsub", "mod", "bv", "trunc"}


# ------------------------------------------------------------------ formulas


def NOT(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "and":
        return OR(*[NOT(y) for y in x.a])
    if x.op == "or":
        return AND(*[NOT(y) for y in x.a])
    return mk("not", x)


def AND(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.a)
        else:
            out.append(x)
    s = []
    for x in out:
        if x not in s:
            s.append(x)
    for x in s:
        if NOT(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", *sorted(s, key=lambda t: t.id))


def OR(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            out.extend(x.a)
        else:
            out.append(x)
    s = []
    for x in out:
        if x not in s:
            s.append(x)
    for x in s:
        if NOT(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk("or", *sorted(s, key=lambda t: t.id))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or b.op == "undef":
        return a
    if a.op == "undef":
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if c.op == "not":
        return mk("ite", c.a[0], b, a)
    return mk("ite", c, a, b)


OKIF = {}       # function -> exactly when its result is Ok


def is_(t, path, variant):
    """formula: enum value t is of this variant"""
    if t.op == "adt":
        return Bool(t.a[1] == variant)
    if t.op == "app" and t.a[0] in OKIF:
        f = OKIF[t.a[0]](*t.a[1:])
        return f if variant == "Ok" else NOT(f)
    if t.op == "ite":
        x, y = is_(t.a[1], path, variant), is_(t.a[2], path, variant)
        return OR(AND(t.a[0], x), AND(NOT(t.a[0]), y))
    vs = VARIANTS.get(path)
    if vs and len(vs) == 2 and variant == vs[1]:
        return NOT(is_(t, path, vs[0]))
    if vs and len(vs) == 1:
        return TRUE
    return mk("is", t, path, variant)


LISTY = {"seq", "sub"}


def eq(a, b, num=False):
    if a is b:
        return TRUE
    if num or a.op in NUMERIC_OPS or b.op in NUMERIC_OPS:
        if not (a.op in ("seq", "adt", "str") or b.op in ("seq", "adt")):
            return eqnum(a, b)
    if a.op == "bool":
        return b if a is TRUE else NOT(b)
    if b.op == "bool":
        return a if b is TRUE else NOT(a)
    if a.op == "adt" and b.op == "adt":
        if a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if a.a[0] == b.a[0] and a.a[2] == b.a[2]:
            return AND(*[eq(x, y) for x, y in zip(a.a[3:], b.a[3:])])
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and x.a[0] != "()" and y.op != "adt":
            path, var, names = x.a[0], x.a[1], x.a[2]
            fs = x.a[3:]
            if len(fs) == len(names):
                g = is_(y, path, var) if path in VARIANTS else TRUE
                if not fs:
                    return g
                return AND(g, *[eq(f, fld(y, path, var, n)) for n, f in zip(names, fs)])
        if x.op == "adt" and x.a[0] == "()" and y.op != "adt" and len(x.a) > 3:
            return AND(*[eq(f, fld(y, "()", "", n)) for n, f in zip(x.a[2], x.a[3:])])
    if a.op == "seq" and b.op == "seq":
        if all(s.op == "el" for s in a.a) and all(s.op == "el" for s in b.a):
            if len(a.a) != len(b.a):
                return FALSE
            return AND(*[eq(x.a[0], y.a[0]) for x, y in zip(a.a, b.a)])
        if all(s.op == "lit" for s in a.a) and all(s.op == "lit" for s in b.a):
            return Bool("".join(s.a[0] for s in a.a) == "".join(s.a[0] for s in b.a))
    # injective wrappers
    if a.op == "app" and b.op == "app" and a.a[0] == b.a[0] and a.a[0] in INJECTIVE and len(a.a) == len(b.a) == 2:
        return eq(a.a[1], b.a[1])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


INJECTIVE = set()

# ------------------------------------------------------------------ sequences
#  mk("seq", seg...)  seg: ("el", x) ("lit", "text") ("sp", t) ("comp", n, alt...) alt=("alt", guard, seq)


def strlit(s):
    if s == "":
        return EMPTY
    return mk("seq", mk("lit", s))


def segs_of(t):
    if t.op == "seq":
        return list(t.a)
    return [mk("sp", t)]


def seq_of(segs):
    out = []
    for s in segs:
        if s.op == "sp":
            if s.a[0].op == "seq":
                out.extend(s.a[0].a)
                continue
        if s.op == "lit":
            if s.a[0] == "":
                continue
            if out and out[-1].op == "lit":
                out[-1] = mk("lit", out[-1].a[0] + s.a[0])
                continue
        if s.op == "comp":
            s2 = norm_comp(s)
            if s2 is None:
                continue
            if s2.op == "sp":
                out.extend(segs_of(s2.a[0]))
                continue
            s = s2
        # adjacent slices of the same sequence merge
        if s.op == "sp" and s.a[0].op == "sub" and out and out[-1].op == "sp" and out[-1].a[0].op == "sub":
            p, q = out[-1].a[0], s.a[0]
            if p.a[0] is q.a[0] and p.a[2] is q.a[1]:
                out[-1] = mk("sp", subseq(p.a[0], p.a[1], q.a[2]))
                continue
        out.append(s)
    res = []
    for s in out:
        if s.op == "sp" and s.a[0].op == "seq":
            res.extend(s.a[0].a)
        else:
            res.append(s)
    out = res
    if len(out) == 1 and out[0].op == "sp":
        return out[0].a[0]
    return mk("seq", *out)


def cat(*ts):
    segs = []
    for t in ts:
        segs.extend(segs_of(t))
    return seq_of(segs)


def one(x):
    return mk("seq", mk("el", x))


def els(*xs):
    return mk("seq", *[mk("el", x) for x in xs])


def norm_comp(s):
    """comprehension segment -> simpler segment, None when empty"""
    n = s.a[0]
    alts = s.a[2:]
    if n.op == "int" and n.a[0] == 0:
        return None
    if len(alts) == 1:
        g, body = alts[0].a
        if body is EMPTY:
            return None
        # identity: for k in 0..len(t) [ t[k] ]
        if g is TRUE and body.op == "seq" and len(body.a) == 1 and body.a[0].op == "el":
            e = body.a[0].a[0]
            if e.op == "idx" and e.a[1].op == "bv" and e.a[1].a[0] == s.a[1] and e.a[0].lvl < s.a[1]:
                if length(e.a[0]) is n:
                    return mk("sp", e.a[0])
                return mk("sp", subseq(e.a[0], Int(0), n))
            # shifted identity: t[c+k]
            if e.op == "idx" and e.a[1].op == "lin":
                c, d = to_lin(e.a[1])
                bvs = [a for a in d if a.op == "bv" and a.a[0] == s.a[1]]
                if len(bvs) == 1 and d[bvs[0]] == 1 and e.a[0].lvl < bvs[0].a[0]:
                    start = sub(e.a[1], bvs[0])
                    if start.lvl < bvs[0].a[0]:
                        return mk("sp", subseq(e.a[0], start, add(start, n)))
        # a few elements of a literal list: written out
        if g is TRUE and n.op == "int" and 0 < n.a[0] <= 16:
            return mk("sp", cat(*[subst(body, {mk("bv", s.a[1]): Int(i)}) for i in range(n.a[0])]))
    elif all(x.a[1] is EMPTY for x in alts):
        return None
    return s


def comp(n, alts, kvar):
    """alts: [(guard, seqterm)] mentioning kvar -> comprehension segment"""
    if n.op == "psum":
        # a map over a filtered comprehension: one comprehension
        S = n.a[0]
        if n.a[1] is S.a[0] and all(len(al.a[1].a) == 1 and al.a[1].op == "seq" and al.a[1].a[0].op == "el" for al in S.a[2:]):
            x = index(mk("seq", S), kvar)
            k2 = mk("k", ("fuse", S.id, kvar.id))
            if x.op == "idx":
                out = []
                for g0, b0 in subst_comp(S, k2):
                    e0 = b0.a[0].a[0]
                    for g, b in alts:
                        g2, b2 = subst(g, {x: e0}), subst(b, {x: e0})
                        if kvar in g2.free or kvar in b2.free:
                            out = None
                            break
                        out.append((AND(g0, g2), b2))
                    if out is None:
                        break
                if out is not None:
                    return comp(S.a[0], out, k2)
    lv = 1 + max([n.lvl] + [max(g.lvl, b.lvl) for g, b in alts])
    bv = mk("bv", lv)
    al = []
    by = {}
    for g, b in alts:
        b = subst(b, {kvar: bv})
        if b is EMPTY:
            continue
        by.setdefault(b, []).append(subst(g, {kvar: bv}))
    for b, gs in sorted(by.items(), key=lambda x: x[0].id):
        al.append(mk("alt", OR(*gs), b))
    if not al:
        al.append(mk("alt", TRUE, EMPTY))
    # nested lvl may have changed by renormalisation; keep simple
    return mk("comp", n, lv, *al)


def subst_comp(seg, kterm):
    """body alternatives of a comprehension at iteration kterm"""
    lv = seg.a[1]
    out = []
    for al in seg.a[2:]:
        g, b = al.a
        out.append((subst(g, {mk("bv", lv): kterm}), subst(b, {mk("bv", lv): kterm})))
    return out


def comp_level(seg):
    return seg.a[1]


def length(t):
    if t.op == "seq":
        tot = Int(0)
        for s in t.a:
            tot = add(tot, seglen(s))
        return tot
    if t.op == "sub":
        return sub(t.a[2], t.a[1])
    if t.op == "app":
        f = t.a[0]
        n = FIXLEN.get(f)
        if n is not None:
            return Int(n)
        if f in ("sorted", "sorted links", "std?permuted"):
            return length(t.a[1])
    if t.op == "ite":
        return ite(t.a[0], length(t.a[1]), length(t.a[2]))
    if t.op == "store":
        return length(t.a[0])
    if t.op == "revseq":
        return length(t.a[0])
    if t.op == "phi" and len(t.a) == 5:
        return add(t.a[3], scale(t.a[2], t.a[4]))       # grows by a fixed number per iteration
    return mk("len", t)


FIXLEN = {}


def seglen(s):
    if s.op == "el":
        return Int(1)
    if s.op == "lit":
        return Int(len(s.a[0].encode()))
    if s.op == "sp":
        return length(s.a[0])
    if s.op == "comp":
        w = comp_width(s)
        if w is not None and w.op == "int":
            return scale(s.a[0], w.a[0])
        if w is not None and s.a[0].op == "int" and w.lvl < comp_level(s):
            return scale(w, s.a[0].a[0])
        return mk("psum", s, s.a[0])
    return mk("seglen", s)


def comp_width(s):
    ws = {length(al.a[1]) for al in s.a[2:]}
    if len(ws) == 1 and OR(*[al.a[0] for al in s.a[2:]]) is TRUE:
        return ws.pop()
    return None


def psum(compseg, k):
    """total length of the first k iterations"""
    if k.op == "int" and k.a[0] == 0:
        return Int(0)
    w = comp_width(compseg)
    if w is not None and w.op == "int":
        return scale(k, w.a[0])
    return mk("psum", compseg, k)


def index(t, i):
    if t.op == "seq":
        off = Int(0)
        for s in t.a:
            d = sub(i, off)
            if s.op == "el":
                if d.op == "int" and d.a[0] == 0:
                    return s.a[0]
            elif s.op == "comp":
                w = comp_width(s)
                if w is not None and w.op == "int" and len(s.a) == 3 and w.a[0] > 0:
                    wd = w.a[0]
                    c, dd = to_lin(d)
                    r = c % wd
                    if all(k % wd == 0 for k in dd.values()):
                        q = from_lin((c - r) // wd, {a: k // wd for a, k in dd.items()})
                        # valid when q < n: iteration variables and constants below a constant bound
                        if d.op != "int" or s.a[0].op != "int" or q.a[0] < s.a[0].a[0]:
                            if not (d.op == "int" and d.a[0] < 0):
                                body = subst_comp(s, q)[0][1]
                                return index(body, Int(r))
                if d.op in ("psum",) and d.a[0] is s:
                    b = subst_comp(s, d.a[1])
                    if len(b) == 1:
                        return index_prefix(b[0][1], Int(0), t, i)
                c, dd = to_lin(d)
                ps = [a for a in dd if a.op == "psum" and a.a[0] is s and dd[a] == 1]
                if len(ps) == 1:
                    b = subst_comp(s, ps[0].a[1])
                    if len(b) == 1:
                        return index_prefix(b[0][1], sub(d, ps[0]), t, i)
            elif s.op == "sp":
                ln = length(s.a[0])
                c, dd = to_lin(d)
                if d.op == "int" and ln.op == "int" and 0 <= d.a[0] < ln.a[0]:
                    return index(s.a[0], d)
                if d.op == "int" and d.a[0] >= 0 and ln.op != "int" and s is t.a[0] and off.op == "int" and len(t.a) == 1:
                    return index(s.a[0], d)
            off = add(off, seglen(s))
        return mk("idx", t, i)
    if t.op == "sub":
        return index(t.a[0], add(t.a[1], i))
    if t.op == "store":
        e = eqnum(t.a[1], i)
        if e is TRUE:
            return t.a[2]
        if e is FALSE:
            return index(t.a[0], i)
    if t.op == "revseq":
        return index(t.a[0], sub(sub(length(t.a[0]), Int(1)), i))
    if t.op == "app" and t.a[0] == "sorted":
        from loops import reduce_
        if i is Int(0):
            return reduce_("min", t.a[1])
        if i is sub(length(t), Int(1)):
            return reduce_("max", t.a[1])
    return mk("idx", t, i)


def index_prefix(body, d, t, i):
    """element at offset d inside a comprehension body"""
    off = Int(0)
    for s in segs_of(body):
        x = sub(d, off)
        if s.op == "el" and x.op == "int" and x.a[0] == 0:
            return s.a[0]
        off = add(off, seglen(s))
    return mk("idx", t, i)


def subseq(t, i, j):
    """t[i..j)"""
    ln = length(t)
    if i is j:
        return EMPTY
    if i.op == "int" and i.a[0] == 0 and j is ln:
        return t
    if t.op == "sub":
        return subseq(t.a[0], add(t.a[1], i), add(t.a[1], j))
    if t.op == "seq":
        a = _cut(t, i)
        b = _cut(t, j)
        if a is not None and b is not None:
            pre, _, post = a
            segs = list(t.a)
            # cut positions as (segment index, inner offset)
            (si, oi) = a[0:2]
            (sj, oj) = b[0:2]
            out = []
            if si == sj and si < len(segs):
                s = segs[si]
                return _inner(s, oi, oj)
            if si < sj or (si == sj):
                if si < len(segs):
                    out.extend(segs_of(_inner(segs[si], oi, seglen(segs[si]))))
                for m in range(si + 1, min(sj, len(segs))):
                    out.append(segs[m])
                if sj < len(segs):
                    out.extend(segs_of(_inner(segs[sj], Int(0), oj)))
                return seq_of(out)
    return mk("sub", t, i, j)


def _inner(s, o1, o2):
    ln = seglen(s)
    if o1 is o2:
        return EMPTY
    if o1.op == "int" and o1.a[0] == 0 and o2 is ln:
        return seq_of([s])
    if s.op == "sp":
        return subseq(s.a[0], o1, o2)
    if s.op == "lit" and o1.op == "int" and o2.op == "int":
        return strlit(s.a[0].encode()[o1.a[0]:o2.a[0]].decode("utf8", "replace"))
    if s.op == "comp":
        # inside one iteration of a variable-width comprehension
        for k in _psum_args(s, o1):
            b = subst_comp(s, k)
            if len(b) == 1:
                base = psum(s, k)
                r = subseq(b[0][1], sub(o1, base), sub(o2, base))
                if not (r.op == "sub" and r.a[0] is b[0][1]):
                    return r
    return mk("sub", mk("seq", s), o1, o2)


def _psum_args(s, o):
    c, d = to_lin(o)
    return [a.a[1] for a in d if a.op == "psum" and a.a[0] is s]


def _cut(t, i):
    """locate offset i in segment list: (segment index, offset inside, None)"""
    off = Int(0)
    segs = t.a
    for m, s in enumerate(segs):
        if i is off:
            return (m, Int(0), None)
        ln = seglen(s)
        end = add(off, ln)
        d = sub(i, off)
        if i is end:
            return (m + 1, Int(0), None)
        if ln.op == "int" and d.op == "int" and 0 <= d.a[0] < ln.a[0]:
            return (m, d, None)
        if s.op == "comp":
            c, dd = to_lin(d)
            if any(a.op == "psum" and a.a[0] is s for a in dd):
                return (m, d, None)
        if s.op == "sp" and ln.op != "int" and m == len(segs) - 1:
            return (m, d, None)
        off = end
    if i is off:
        return (len(segs), Int(0), None)
    return None


def rev_seq(t):
    if t.op == "revseq":
        return t.a[0]
    if t.op == "seq" and all(s.op == "el" for s in t.a):
        return mk("seq", *reversed(t.a))
    if t.op == "seq" and len(t.a) == 1 and t.a[0].op == "comp":
        s = t.a[0]
        w = comp_width(s)
        if w is not None and w.op == "int" and w.a[0] == 1 and len(s.a) == 3:
            lv = comp_level(s)
            bv = mk("bv", lv)
            return seq_of([mk("comp", s.a[0], lv, mk("alt", s.a[2].a[0], subst(s.a[2].a[1], {bv: sub(sub(s.a[0], Int(1)), bv)})))])
    return mk("revseq", t)


# ------------------------------------------------------------------ quantified formulas


def forall(n, body, kvar):
    """for all kvar in 0..n: body(kvar)"""
    if body is TRUE or (n.op == "int" and n.a[0] <= 0):
        return TRUE
    if kvar in n.free:
        nk = mk("k", ("bound", kvar.a[0]))
        body = subst(body, {kvar: nk})
        kvar = nk
    if body.op == "and":
        return AND(*[forall(n, b, kvar) for b in body.a])
    # 0 <= kvar < n holds by quantification
    inr = lt(kvar, n)
    m = {}
    if inr.op == "not":
        m[inr.a[0]] = FALSE
    elif inr.op == "le0":
        m[inr] = TRUE
    if m and _occurs(body, set(m)):
        return forall(n, subst(body, m), kvar)
    if kvar not in body.free and kvar.op == "k":
        # constant body: n <= 0 or body
        return OR(le0(n), body)
    r = _split_all(n, body, kvar)
    if r is not None:
        return r
    # canonical direction
    if _dir(body, kvar) < 0:
        body = subst(body, {kvar: sub(sub(n, Int(1)), kvar)})
        if body is TRUE:
            return TRUE
    b2 = subst(body, {kvar: mk("bv", 1 + max(n.lvl, body.lvl))})
    if b2 is TRUE:
        return TRUE
    lv = 1 + max(n.lvl, body.lvl)
    bv = mk("bv", lv)
    return mk("all", n, lv, subst(body, {kvar: bv}))


def _split_all(n, body, kvar):
    """distribute over the segments of a literal sequence the body indexes by the bound variable"""
    tgt = None
    seen = set()
    todo = [body]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "idx" and x.a[1] is kvar and x.a[0].op == "seq" and length(x.a[0]) is n:
            tgt = x.a[0]
            break
        if x.op == "lin":
            todo.extend(y for y, _ in x.a[1])
            continue
        todo.extend(y for y in x.a if isinstance(y, T))
    if tgt is None:
        return None
    it = mk("idx", tgt, kvar)
    outs = []
    off = Int(0)
    for s in tgt.a:
        if s.op == "el":
            outs.append(subst(body, {it: s.a[0], kvar: off}))
        elif s.op == "lit":
            return None
        elif s.op == "sp":
            outs.append(forall(length(s.a[0]), subst(body, {it: index(s.a[0], kvar), kvar: add(off, kvar)}), kvar))
        elif s.op == "comp":
            only = {x for x in [it]}
            b2 = subst(body, {it: mk("sym", "$elem")})
            if _mentions(b2, kvar):
                return None
            cs = []
            for g, b in subst_comp(s, kvar):
                xs = []
                for e in segs_of(b):
                    if e.op == "el":
                        xs.append(subst(body, {it: e.a[0]}))
                    elif e.op == "sp":
                        k2 = mk("k", ("in", kvar.a[0] if kvar.op == "k" else kvar.id))
                        xs.append(forall(length(e.a[0]), subst(body, {it: index(e.a[0], k2)}), k2))
                    else:
                        return None
                cs.append(OR(NOT(g), AND(*xs)))
            outs.append(forall(s.a[0], AND(*cs), kvar))
        off = add(off, seglen(s))
    return AND(*outs)


def _occurs(t, ks):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in ks:
            return True
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("and", "or", "not", "ite"):
            todo.extend(y for y in x.a if isinstance(y, T))
    return False


def _mentions(t, k):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x is k:
            return True
        if x.id in seen:
            continue
        seen.add(x.id)
        for y in x.a:
            if isinstance(y, T):
                todo.append(y)
            elif y.__class__ is tuple:
                for z in y:
                    if z.__class__ is tuple:
                        todo.extend(w for w in z if isinstance(w, T))
    return False


def _dir(t, k):
    """sum of the signs of k inside linear index terms"""
    tot = 0
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "lin":
            for a, c in x.a[1]:
                if a is k:
                    tot += 1 if c > 0 else -1
                else:
                    st.append(a)
            continue
        for y in x.a:
            if y is k:
                tot += 1
            elif isinstance(y, T):
                st.append(y)
    return tot


# ------------------------------------------------------------------ substitution


def subst(t, m, memo=None):
    """capture-free replacement of atoms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = set(m)
    fk = frozenset(x for x in keys if x.op in ("k", "phi"))
    only_free = len(fk) == len(keys)
    bvk = any(x.op == "bv" for x in keys)
    return _subst(t, m, memo, fk if only_free else None, bvk)


def _subst(t, m, memo, fk, bvk):
    r = m.get(t)
    if r is not None:
        return r
    if fk is not None and not (t.free & fk):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "lin":
        acc = Int(t.a[0])
        for a, c in t.a[1]:
            acc = add(acc, scale(_subst(a, m, memo, fk, bvk), c))
        r = acc
    else:
        ch = False
        na = []
        for x in t.a:
            if isinstance(x, T):
                y = _subst(x, m, memo, fk, bvk)
                if y is not x:
                    ch = True
                na.append(y)
            elif t.op == "with" and isinstance(x, tuple) and x and isinstance(x[0], tuple):
                z = tuple((k, _subst(v, m, memo, fk, bvk)) if isinstance(v, T) else (k, v) for k, v in x)
                if z != x:
                    ch = True
                na.append(z)
            else:
                na.append(x)
        r = rebuild(t.op, na) if ch else t
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "fld":
        return fld(*a)
    if op == "adt":
        return adt(a[0], a[1], a[2], tuple(a[3:]))
    if op == "idx":
        return index(*a)
    if op == "len":
        return length(a[0])
    if op == "sub":
        return subseq(*a)
    if op == "seq":
        return seq_of(a)
    if op == "sp":
        return mk("sp", a[0])
    if op == "eq":
        return eq(*a)
    if op == "eq0":
        return eqnum(a[0], Int(0))
    if op == "le0":
        return le0(a[0])
    if op == "not":
        return NOT(a[0])
    if op == "and":
        return AND(*a)
    if op == "or":
        return OR(*a)
    if op == "ite":
        return ite(*a)
    if op == "is":
        return is_(*a)
    if op == "psum":
        return psum(*a)
    if op == "with":
        t = a[0]
        for (p, v, n), x in a[1]:
            t = with_(t, p, v, n, x)
        return t
    if op in ("div", "mod"):
        return divmod_(op, *a)
    if op == "satsub":
        return satsub(*a)
    if op == "zext":
        return zext(*a)
    if op == "trunc":
        return trunc(*a)
    if op == "all":
        k = mk("k", ("rb", a[1]))
        return forall(a[0], subst(a[2], {mk("bv", a[1]): k}), k)
    if op == "comp":
        k = mk("k", ("rb", a[1]))
        m = {mk("bv", a[1]): k}
        return comp(a[0], [(subst(x.a[0], m), subst(x.a[1], m)) for x in a[2:]], k)
    if op == "stream" or op[0] == "d" and op in DESCS:
        return mk(op, *a)
    if op in ("max", "min"):
        return MINMAX[0](op, *a)
    if op == "app" and a[0] in SIMPL:
        r = SIMPL[a[0]](*a[1:])
        if r is not None:
            return r
    return mk(op, *a)


SIMPL = {}
DESCS = ()
MINMAX = [lambda op, *xs: mk(op, *xs)]


def sapp(f, *args):
    if f in SIMPL:
        r = SIMPL[f](*args)
        if r is not None:
            return r
    return mk("app", f, *args)


def divmod_(op, x, n):
    if n.op == "int" and n.a[0] > 0:
        if x.op == "int":
            return Int(x.a[0] // n.a[0]) if op == "div" else Int(x.a[0] % n.a[0])
        c, d = to_lin(x)
        k = n.a[0]
        if all(v % k == 0 for v in d.values()):
            q = from_lin(c // k, {a: v // k for a, v in d.items()})
            return q if op == "div" else Int(c % k)
        if op == "mod":
            return mk("mod", from_lin(c % k, {a: v % k for a, v in d.items()}), n)
    return mk(op, x, n)


def satsub(a, b):
    if a.op == "int" and b.op == "int":
        return Int(max(0, a.a[0] - b.a[0]))
    if b.op == "int" and b.a[0] == 0:
        return a
    return mk("satsub", a, b)


ASSUME_FITS = [False]


def trunc(w, t):
    if t.op == "int":
        return Int(t.a[0] % (1 << w))
    if t.op == "zext" and t.a[0] <= w:
        return t.a[1] if t.a[0] == w else t
    if ASSUME_FITS[0] and w == 8 and all(a.op in ("len", "psum") for a in to_lin(t)[1]):
        return t
    return mk("trunc", w, t)


def zext(w, t):
    if t.op == "int":
        return t
    if ASSUME_FITS[0] and t.op != "idx":
        return t
    return mk("zext", w, t)


# ------------------------------------------------------------------ printing


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.a
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    if o in ("int", "bool", "sym"):
        return str(a[0]).lower() if o == "bool" else str(a[0])
    if o == "lin":
        r = " + ".join((f"{c}*" if c != 1 else "") + s(x) for x, c in a[1])
        return f"({r}{'%+d' % a[0] if a[0] else ''})"
    if o == "app":
        return f"{a[0].split('::')[-2] + '::' if '::' in a[0] else ''}{a[0].split('::')[-1]}({', '.join(s(x) for x in a[1:])})"
    if o == "fld":
        return f"{s(a[0])}.{a[2] + '#' if a[2] else ''}{a[3]}"
    if o == "adt":
        nm = a[0].split("::")[-1] if a[0] != "()" else ""
        if a[1]:
            nm = a[1]
        if not a[3:]:
            return nm or "()"
        return f"{nm}{{{', '.join(f'{n}:{s(x)}' for n, x in zip(a[2], a[3:]))}}}"
    if o == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "len":
        return f"len({s(a[0])})"
    if o == "sub":
        return f"{s(a[0])}[{s(a[1])}..{s(a[2])}]"
    if o == "seq":
        return "<" + " ".join(s(x) for x in a) + ">"
    if o == "el":
        return s(a[0])
    if o == "sp":
        return "*" + s(a[0])
    if o == "lit":
        return repr(a[0])
    if o == "comp":
        return f"for(#{comp_level(t)}<{s(a[0])}){{{' | '.join((s(x.a[0]) + '=>' if x.a[0] is not TRUE else '') + s(x.a[1]) for x in a[2:])}}}"
    if o == "bv":
        return f"#{a[0]}"
    if o == "k":
        return f"k[{a[0]}]"
    if o == "phi":
        return f"phi[{a[0]}:{'.'.join(str(x) for x in a[1:])}]"
    if o == "not":
        return "!" + s(a[0])
    if o == "eq":
        return f"({s(a[0])} == {s(a[1])})"
    if o == "eq0":
        return f"({s(a[0])} == 0)"
    if o == "le0":
        return f"({s(a[0])} <= 0)"
    if o == "is":
        return f"is({s(a[0])}, {a[2]})"
    if o == "all":
        return f"all(#{a[1]}<{s(a[0])}: {s(a[2])})"
    if o == "with":
        return f"{s(a[0])}{{{', '.join(str(k[2]) + ':=' + s(v) for k, v in a[1])}}}"
    if o in ("and", "or"):
        return "(" + (" && " if o == "and" else " || ").join(s(x) for x in a) + ")"
    return f"{o}({', '.join(s(x) for x in a)})"


def walk(t, seen=None):
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        y = todo.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        yield y
        todo.extend(subterms(y))


def subterms(t):
    for y in t.a:
        if isinstance(y, T):
            yield y
        elif y.__class__ is tuple:
            for z in y:
                if isinstance(z, T):
                    yield z
                elif z.__class__ is tuple:
                    for w in z:
                        if isinstance(w, T):
                            yield w
