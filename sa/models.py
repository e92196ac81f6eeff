"""Meaning of the library functions the analysed crates use (std, bs58, nonempty, sql connector...).

A model is a function (I, st, args, ctx) -> [Out] or None (fall through to inlining / opaque)."""
from term import *
import term as tm

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def _Out(kind, st, val=None, info=None):
    from interp import Out
    return Out(kind, st, val, info)


def ret(st, v):
    return [_Out("ret", st, v)]


def panic(st, ctx, msg):
    return _Out("panic", st, info=("call", ctx.span, ctx.body.key if ctx.body else "", msg))


def need(I, st, cond, ctx, msg):
    """split on a precondition: (continuing states, panic outcomes)"""
    r = I.truth(st, cond)
    if r is True:
        return [st], []
    bad = [panic(s, ctx, msg) for s in I.assume(st.copy(), NOT(cond))]
    return I.assume(st, cond), bad


def branch(I, st, cond):
    """([states where cond], [states where not cond])"""
    r = I.truth(st, cond)
    if r is True:
        return [st], []
    if r is False:
        return [], [st]
    return I.assume(st.copy(), cond), I.assume(st, NOT(cond))


NANO = 1000000000
DUR = "core::time::Duration"


def tyname(I, ctx, t):
    """type with references peeled"""
    while t is not None and t["k"] == "ref":
        t = I.p.types[ctx.ccrate][t["e"]]
    return t


def argty(I, ctx, i):
    t = ctx.at[i] if i < len(ctx.at) else None
    cr = ctx.body.crate if ctx.body else ctx.ccrate
    while t is not None and t["k"] == "ref":
        t = I.p.types[cr][t["e"]]
    return t


def is_num(t):
    return t is not None and (t["k"] in ("int", "uint", "char") or (t["k"] == "adt" and t["p"] == DUR))


# ------------------------------------------------------------------ identity-like
@model("Deref::deref", "AsRef::as_ref", "Borrow::borrow", "ToOwned::to_owned",
       "generic_array::GenericArray::as_slice", "core::array::as_slice", "alloc::vec::Vec::as_slice", "alloc::string::String::as_str", "alloc::string::String::as_bytes",
       "core::str::as_bytes", "alloc::slice::to_vec", "alloc::slice::into_vec", "alloc::vec::Vec::into_boxed_slice",
       "core::slice::as_ref", "alloc::str::to_owned", "alloc::string::String::into_bytes",
       "alloc::str::into_string", "core::array::as_slice", "alloc::borrow::Cow::into_owned", "alloc::borrow::Cow::Owned",
       "alloc::boxed::Box::new", "alloc::sync::Arc::new", "alloc::rc::Rc::new", "alloc::rcs::arc::Arc::new",
       "alloc::rcs::rc::Rc::new", "AsDisplay::as_display", "core::hint::must_use", "core::hint::black_box",
       "core::cell::RefCell::new", "core::cell::Cell::new", "alloc::string::String::into_boxed_str",
       "core::option::Option::as_ref", "core::option::Option::as_deref", "core::option::Option::cloned",
       "core::option::Option::copied", "core::result::Result::as_ref", "core::mem::ManuallyDrop::new",
       "std::thread::local::LocalKey::new", "serde::__private::string::from_utf8_lossy", "serde_bytes::bytes::Bytes::new",
       "core::mem::maybe_uninit::MaybeUninit::assume_init", "alloc::vec::Vec::into_iter_inner", "core::convert::identity",
       "nonempty::NonEmpty::into_vec", "core::slice::as_slice", "core::array::iter::IntoIter::as_slice", "Owned::into_owned")
def m_id(I, st, args, ctx):
    return ret(st, I.deref(st, args[0]))


@model("core::mem::take")
def m_take(I, st, args, ctx):
    a = args[0]
    v = I.deref(st, a)
    d = default_of(I, I.p.types[ctx.ccrate][ctx.callee["a"][0]] if ctx.callee.get("a") else None, ctx)
    if d is None:
        return None
    cell, proj = final_ref(I, st, a)
    I.store(st, cell, proj, d)
    return ret(st, v)


@model("core::mem::replace")
def m_replace(I, st, args, ctx):
    v = I.deref(st, args[0])
    cell, proj = final_ref(I, st, args[0])
    I.store(st, cell, proj, args[1])
    return ret(st, v)


@model("core::mem::swap")
def m_swap(I, st, args, ctx):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    ca, cb = final_ref(I, st, args[0]), final_ref(I, st, args[1])
    I.store(st, ca[0], ca[1], b)
    I.store(st, cb[0], cb[1], a)
    return ret(st, UNIT)


@model("core::mem::drop", "core::mem::forget")
def m_drop(I, st, args, ctx):
    if I.tls and args[0].op == "ref" and args[0].a[0] == I.tls[-1][0]:
        st.cells.pop(I.tls[-1][1], None)
    return ret(st, UNIT)


def final_ref(I, st, a):
    """cell of the value behind nested references"""
    if a.op != "ref":
        raise NotRef()
    while True:
        v = I.load(st, a.a[0], a.a[1])
        if v.op != "ref":
            return a.a[0], a.a[1]
        a = v


class NotRef(Exception):
    pass


@model("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "alloc::vec::Vec::as_mut_slice",
       "core::option::Option::as_mut_id")
def m_idmut(I, st, args, ctx):
    a = args[0]
    if a.op != "ref":
        return ret(st, a)
    v = I.load(st, a.a[0], a.a[1])
    while v.op == "ref":
        a = v
        v = I.load(st, a.a[0], a.a[1])
    return ret(st, a)


@model("core::cell::RefCell::borrow_mut", "core::cell::RefCell::borrow", "core::cell::RefCell::try_borrow_mut")
def m_borrow_mut(I, st, args, ctx):
    a = args[0]
    name = ctx.callee["name"]
    if a.op == "ref":
        return ret(st, a if name != "borrow" else I.deref(st, a))
    v = a
    c = ("tls", show(v))
    if c not in st.cells:
        st.cells[c] = v
    if name == "borrow":
        return ret(st, st.cells[c])
    if name == "borrow_mut" and c in [x[0] for x in I.tls]:
        # the guard of an enclosing scope is still alive
        if any(x[0] == c and x[1] in st.cells for x in I.tls[:-1]):
            return [panic(st, ctx, "already borrowed: the shared graph is requested while it is in use")]
        st.cells[I.tls[-1][1]] = TRUE
    return ret(st, mk("ref", c, ()))


def scoped(I, key, f):
    c = ("tls", show(key))
    I.tls.append((c, ("held", c, len(I.tls))))
    try:
        outs = f()
    finally:
        h = I.tls.pop()[1]
    for o in outs:
        o.st.cells.pop(h, None)
    return outs


@model("std::thread::local::LocalKey::with")
def m_with(I, st, args, ctx):
    return scoped(I, args[0], lambda: I.call_value(st, args[1], [args[0]], ctx, "with"))


@model("lazy_static::lazy::Lazy::get")
def m_lazy_get(I, st, args, ctx):
    """the value the initialiser computes (it depends on nothing else)"""
    return I.call_value(st, args[1], [], ctx, "init")


@model("core::cell::RefCell::into_inner", "core::cell::Cell::get")
def m_inner(I, st, args, ctx):
    return ret(st, I.deref(st, args[0]))


@model("std::thread::local::LocalKey::with_borrow_mut")
def m_with_borrow_mut(I, st, args, ctx):
    c = ("tls", show(args[0]))
    if c not in st.cells:
        st.cells[c] = args[0]
    if any(x[0] == c and x[1] in st.cells for x in I.tls):
        return [panic(st, ctx, "already borrowed: the shared graph is requested while it is in use")]

    def f():
        st.cells[I.tls[-1][1]] = TRUE
        return I.call_value(st, args[1], [mk("ref", c, ())], ctx, "with")
    return scoped(I, args[0], f)


@model("Clone::clone")
def m_clone(I, st, args, ctx):
    return ret(st, I.deref(st, args[0]))


@model("Clone::clone_from")
def m_clone_from(I, st, args, ctx):
    c, p = final_ref(I, st, args[0])
    I.store(st, c, p, I.deref(st, args[1]))
    return ret(st, UNIT)


@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_callf(I, st, args, ctx):
    tupv = args[1]
    if tupv.op == "adt" and tupv.a[0] == "()":
        av = list(tupv.a[3:])
    else:
        av = [tupv]
    return I.call_value(st, args[0], av, ctx, "call")


# ------------------------------------------------------------------ conversions
PLAINADT = ("alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box", "core::option::Option", "alloc::borrow::Cow",
            "alloc::collections::vec_deque::VecDeque", "nonempty::NonEmpty", "alloc::sync::Arc", "alloc::rc::Rc",
            "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "generic_array::GenericArray", "alloc::collections::linked_list::LinkedList")


def is_listty(t):
    return t is not None and (t["k"] in ("slice", "array", "str") or (t["k"] == "adt" and t["p"] in PLAINADT and "Option" not in t["p"]))


def plain(t):
    return t is not None and (t["k"] in ("int", "uint", "bool", "char", "str", "slice", "array", "tuple", "param", "dyn", "alias")
                              or (t["k"] == "adt" and t["p"] in PLAINADT))


def convert(I, st, v, src, dst, ctx, fallible):
    """From/Into/TryFrom between library types"""
    src0, dst0 = src, dst
    src = tyname(I, ctx, src)
    dst = tyname(I, ctx, dst)
    v = I.deref(st, v)
    if src is not None and dst is not None:
        if src["s"] == dst["s"]:
            return ret(st, ok(v) if fallible else v)
        if dst["k"] in ("int", "uint") and src["k"] == "bool" and not fallible:
            return ret(st, ite(v, Int(1), Int(0)))
        if dst["k"] in ("int", "uint") and src["k"] in ("int", "uint"):
            if not fallible:
                return ret(st, I.cast(st, "IntToInt", v, dst, src))
            from interp import WID
            w = WID[dst["n"]]
            lo, hi = (0, (1 << w) - 1) if dst["k"] == "uint" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            I.note(v, src)
            yes, no = branch(I, st, AND(le(Int(lo), v), le(v, Int(hi))))
            return [_Out("ret", s, ok(v)) for s in yes] + [_Out("ret", s, err(mk("const", "TryFromIntError"))) for s in no]
        if fallible and dst["k"] == "array" and is_listty(src):
            n = dst.get("n")
            if n is not None and is_listty(src):
                c = eqnum(length(v), Int(int(n)))
                yes, no = branch(I, st, c)
                return [_Out("ret", s, ok(v)) for s in yes] + [_Out("ret", s, err(mk("const", "TryFromSliceError"))) for s in no]
        if dst["k"] == "adt" and dst["p"].endswith("HashSet") and is_listty(src):
            return ret(st, mkset(v))
        if plain(src) and plain(dst) and not fallible:
            if dst["k"] == "adt" and dst["p"] == tm.OPT and not (src["k"] == "adt" and src["p"] == tm.OPT):
                return ret(st, some(v))
            return ret(st, v)
        if dst["k"] == "adt" and dst["p"] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rcs::arc::Arc") and not fallible:
            return ret(st, v)
    return None


def conv_models(name, fallible, self_first):
    def f(I, st, args, ctx):
        t0, t1 = ctx.targ(0), ctx.targ(1)
        src, dst = (t1, t0) if self_first else (t0, t1)
        r2 = ctx.callee.get("r2")
        if r2:
            b = I.p.bodies.get(r2["key"])
            if b is not None and b.kind in ("fn", "std"):
                if b.kind == "fn":
                    if I.leaf(b.short, b):
                        return I.opaque(st, b.short, args, ctx, local=True)
                return I.exec_fn(st, b.key, args, ctx.fr, (ctx.bb, ctx.sub, "r2"))
        r = convert(I, st, args[0], src, dst, ctx, fallible)
        if r is not None:
            return r
        if dst and src and dst.get("s") in ("f32", "f64") and src["k"] in ("int", "uint"):
            return ret(st, I.cast(st, "IntToFloat", args[0], dst, src))
        nm = f"{name}<{short_ty(src)}->{short_ty(dst)}>"
        return I.opaque(st, nm, args, ctx, pure=True)
    return f


def short_ty(t):
    return t["s"] if t else "?"


MODELS["Into::into"] = conv_models("From", False, False)
MODELS["TryInto::try_into"] = conv_models("TryFrom", True, False)
MODELS["From::from"] = conv_models("From", False, True)
MODELS["TryFrom::try_from"] = conv_models("TryFrom", True, True)


@model("FromStr::from_str", "core::str::parse")
def m_parse(I, st, args, ctx):
    r2 = ctx.callee.get("r2")
    if r2:
        b = I.p.bodies.get(r2["key"])
        if b is not None and b.kind == "fn":
            if I.leaf(b.short, b):
                return I.opaque(st, b.short, args, ctx, local=True)
            return I.exec_fn(st, b.key, args, ctx.fr, (ctx.bb, ctx.sub, "r2"))
    t = ctx.targ(0)
    v = I.reify(st, args[0])
    res = sapp("parse<%s>" % short_ty(t), v)
    if t and t["k"] in ("uint", "int"):
        I.note(fld(res, tm.RES, "Ok", "0"), t)
    return ret(st, res)


def _simpl_parse(v):
    if v.op == "app" and v.a[0] == "dec":
        return ok(v.a[1])
    return None


for _t in ("u64", "u32", "i64", "usize", "u128", "i32", "u16", "u8"):
    SIMPL["parse<%s>" % _t] = _simpl_parse
INJECTIVE.update(("dec", "b58enc"))


# peer ids: base58 text of a peer id parses back to it
def _simpl_pid(v):
    if v.op == "app" and v.a[0] in ("libp2p_identity::peer_id::PeerId::to_base58", "display<libp2p_identity::PeerId>"):
        return ok(v.a[1])
    return None


SIMPL["parse<libp2p_identity::PeerId>"] = _simpl_pid


# ------------------------------------------------------------------ defaults
def default_of(I, t, ctx):
    if t is None:
        return None
    k = t["k"]
    if k in ("int", "uint"):
        return Int(0)
    if k == "bool":
        return FALSE
    if k == "str":
        return EMPTY
    if k == "tuple" and not t["a"]:
        return UNIT
    if k == "tuple" and ctx.body is not None:
        xs = [default_of(I, I.p.types[ctx.ccrate][x], ctx) for x in t["a"]]
        return None if any(x is None for x in xs) else tm.tup(*xs)
    if k == "adt":
        p = t["p"]
        if p in ("alloc::vec::Vec", "alloc::string::String", "alloc::collections::vec_deque::VecDeque"):
            return EMPTY
        if p.endswith("HashSet") or p.endswith("BTreeSet"):
            return mkset(EMPTY)
        if p == tm.OPT:
            return NONE
        if p == DUR:
            return Int(0)
    return None


@model("Default::default")
def m_default(I, st, args, ctx):
    d = default_of(I, ctx.targ(0), ctx)
    if d is None:
        return None
    return ret(st, d)


@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::new",
       "alloc::string::String::with_capacity", "alloc::collections::vec_deque::VecDeque::new",
       "alloc::collections::vec_deque::VecDeque::with_capacity")
def m_newseq(I, st, args, ctx):
    return ret(st, EMPTY)


@model("std::collections::hash::set::HashSet::new", "std::collections::hash::set::HashSet::with_capacity",
       "alloc::collections::btree::set::BTreeSet::new")
def m_newset(I, st, args, ctx):
    return ret(st, mkset(EMPTY))


@model("alloc::boxed::Box::new_uninit")
def m_newuninit(I, st, args, ctx):
    return ret(st, I.newcell(st, ("box", ctx.fr, ctx.bb), mk("uninit", "box")))


@model("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::assume_init")
def m_boxinit(I, st, args, ctx):
    return ret(st, I.deref(st, args[0]))


@model("alloc::vec::from_elem")
def m_from_elem(I, st, args, ctx):
    n = args[1]
    if n.op == "int" and n.a[0] <= 256:
        return ret(st, els(*([args[0]] * n.a[0])))
    return ret(st, seq_of([mk("comp", n, 1 + max(n.lvl, args[0].lvl), mk("alt", TRUE, one(args[0])))]))


# ------------------------------------------------------------------ sequences
SEQP = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "nonempty::NonEmpty", "core::slice", "core::str",
        "alloc::string::String", "alloc::slice", "alloc::str", "core::array")


def seqm(*meths):
    return model(*[p + "::" + m for p in SEQP for m in meths])


def sv(I, st, a):
    v = I.deref(st, a)
    if v.op == "stream":
        return v
    return v


def setv(I, st, a, v):
    c, p = final_ref(I, st, a)
    I.store(st, c, p, v)


@seqm("len", "count_bytes")
def m_len(I, st, args, ctx):
    return ret(st, length(sv(I, st, args[0])))


@model("ExactSizeIterator::len")
def m_slen(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op == "stream":
        d, p = v.a
        n = dlen(d)
        if n is None:
            return None
        return ret(st, sub(n, p))
    return ret(st, length(v))


@seqm("is_empty")
def m_isempty(I, st, args, ctx):
    return ret(st, le0(length(sv(I, st, args[0]))))


@seqm("push", "push_back")
def m_push(I, st, args, ctx):
    v = sv(I, st, args[0])
    if ctx.callee.get("impl_adt") == "alloc::string::String":
        x = args[1]
        if x.op == "int":
            setv(I, st, args[0], cat(v, strlit(chr(x.a[0]))))
        else:
            setv(I, st, args[0], cat(v, sapp("char", x)))
        return ret(st, UNIT)
    setv(I, st, args[0], cat(v, one(args[1])))
    return ret(st, UNIT)


@seqm("push_front")
def m_pushf(I, st, args, ctx):
    setv(I, st, args[0], cat(one(args[1]), sv(I, st, args[0])))
    return ret(st, UNIT)


@seqm("push_str", "extend_from_slice")
def m_pushstr(I, st, args, ctx):
    setv(I, st, args[0], cat(sv(I, st, args[0]), sv(I, st, args[1])))
    return ret(st, UNIT)


@model("Write::write_all", "Write::write", "Write::flush")
def m_iowrite(I, st, args, ctx):
    """io::Write of a byte vector: appends everything, never fails"""
    if "Write for std::vec::Vec<u8" not in ((ctx.callee.get("r") or {}).get("path") or ""):
        return None
    if len(args) == 1:
        return ret(st, ok(UNIT))
    x = sv(I, st, args[1])
    setv(I, st, args[0], cat(sv(I, st, args[0]), x))
    return ret(st, ok(length(x) if ctx.callee["name"] == "write" else UNIT))


@seqm("fill")
def m_fill(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    x = args[1]
    if n.op == "int" and n.a[0] <= 64:
        new = seq_of([mk("el", x)] * n.a[0])
    else:
        k = mk("k", ("fill", v.id))
        new = seq_of([comp(n, [(TRUE, one(x))], k)])
    setv(I, st, args[0], new)
    return ret(st, UNIT)


@seqm("append")
def m_append(I, st, args, ctx):
    x = sv(I, st, args[1])
    setv(I, st, args[0], cat(sv(I, st, args[0]), x))
    setv(I, st, args[1], EMPTY)
    return ret(st, UNIT)


@seqm("clear")
def m_clear(I, st, args, ctx):
    v = sv(I, st, args[0])
    setv(I, st, args[0], EMPTY)
    return ret(st, UNIT)


@seqm("reserve", "shrink_to_fit", "reserve_exact")
def m_nop(I, st, args, ctx):
    return ret(st, UNIT)


@seqm("capacity")
def m_cap(I, st, args, ctx):
    return None


@seqm("insert")
def m_insert(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    good, bad = need(I, st, le(args[1], n), ctx, "insert index out of bounds")
    outs = bad
    for s in good:
        setv(I, s, args[0], cat(subseq(v, Int(0), args[1]), one(args[2]), subseq(v, args[1], n)))
        outs.append(_Out("ret", s, UNIT))
    return outs


@seqm("swap_remove")
def m_swap_remove(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    i = args[1]
    good, outs = need(I, st, lt(i, n), ctx, "swap_remove index out of bounds")
    for s in good:
        last, mid = branch(I, s, eqnum(i, sub(n, Int(1))))
        for x in last:
            setv(I, x, args[0], subseq(v, Int(0), i))
            outs.append(_Out("ret", x, index(v, i)))
        for x in mid:
            m = sub(n, Int(1))
            setv(I, x, args[0], cat(cat(subseq(v, Int(0), i), seq_of([one(index(v, m))])), subseq(v, add(i, Int(1)), m)))
            outs.append(_Out("ret", x, index(v, i)))
    return outs


@seqm("remove")
def m_remove(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    if ctx.callee.get("impl_adt", "").endswith("VecDeque"):
        yes, no = branch(I, st, lt(args[1], n))
        outs = [_Out("ret", s, NONE) for s in no]
        for s in yes:
            setv(I, s, args[0], cat(subseq(v, Int(0), args[1]), subseq(v, add(args[1], Int(1)), n)))
            outs.append(_Out("ret", s, some(index(v, args[1]))))
        return outs
    good, bad = need(I, st, lt(args[1], n), ctx, "remove index out of bounds")
    outs = bad
    for s in good:
        setv(I, s, args[0], cat(subseq(v, Int(0), args[1]), subseq(v, add(args[1], Int(1)), n)))
        outs.append(_Out("ret", s, index(v, args[1])))
    return outs


@seqm("pop", "pop_back")
def m_pop(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    yes, no = branch(I, st, le(Int(1), n))
    outs = [_Out("ret", s, NONE) for s in no]
    for s in yes:
        setv(I, s, args[0], subseq(v, Int(0), sub(n, Int(1))))
        outs.append(_Out("ret", s, some(index(v, sub(n, Int(1))))))
    return outs


@seqm("pop_front")
def m_popf(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    yes, no = branch(I, st, le(Int(1), n))
    outs = [_Out("ret", s, NONE) for s in no]
    for s in yes:
        setv(I, s, args[0], subseq(v, Int(1), n))
        outs.append(_Out("ret", s, some(index(v, Int(0)))))
    return outs


@seqm("truncate")
def m_truncate(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    yes, no = branch(I, st, le(args[1], n))
    outs = [_Out("ret", s, UNIT) for s in no]
    for s in yes:
        setv(I, s, args[0], subseq(v, Int(0), args[1]))
        outs.append(_Out("ret", s, UNIT))
    return outs


@seqm("split_off")
def m_split_off(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    good, bad = need(I, st, le(args[1], n), ctx, "split_off out of bounds")
    for s in good:
        setv(I, s, args[0], subseq(v, Int(0), args[1]))
        bad.append(_Out("ret", s, subseq(v, args[1], n)))
    return bad


@seqm("drain")
def m_drain(I, st, args, ctx):
    v = sv(I, st, args[0])
    r = rng_of(I, st, args[1], length(v), ctx)
    if r is None:
        return None
    outs = []
    for s, lo, hi, bad in r:
        if bad:
            outs.append(bad)
            continue
        setv(I, s, args[0], cat(subseq(v, Int(0), lo), subseq(v, hi, length(v))))
        outs.append(_Out("ret", s, stream(dseq(subseq(v, lo, hi)))))
    return outs


@seqm("reverse")
def m_reverse(I, st, args, ctx):
    setv(I, st, args[0], rev_seq(sv(I, st, args[0])))
    return ret(st, UNIT)


@seqm("first", "front")
def m_first(I, st, args, ctx):
    v = sv(I, st, args[0])
    if ctx.callee.get("impl_adt") == "nonempty::NonEmpty":
        return ret(st, index(v, Int(0)))
    yes, no = branch(I, st, le(Int(1), length(v)))
    return [_Out("ret", s, some(index(v, Int(0)))) for s in yes] + [_Out("ret", s, NONE) for s in no]


@seqm("last", "back")
def m_last(I, st, args, ctx):
    v = sv(I, st, args[0])
    i = sub(length(v), Int(1))
    if ctx.callee.get("impl_adt") == "nonempty::NonEmpty":
        return ret(st, index(v, i))
    yes, no = branch(I, st, le(Int(1), length(v)))
    return [_Out("ret", s, some(index(v, i))) for s in yes] + [_Out("ret", s, NONE) for s in no]


@seqm("last_mut", "first_mut", "back_mut", "front_mut")
def m_lastmut(I, st, args, ctx):
    v = sv(I, st, args[0])
    nm = ctx.callee["name"]
    i = sub(length(v), Int(1)) if nm in ("last_mut", "back_mut") else Int(0)
    yes, no = branch(I, st, le(Int(1), length(v)))
    c, p = final_ref(I, st, args[0])
    return [_Out("ret", s, some(mk("ref", c, p + (("i", i),)))) for s in yes] + [_Out("ret", s, NONE) for s in no]


@seqm("split_first", "split_last")
def m_splitfirst(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    yes, no = branch(I, st, le(Int(1), n))
    if ctx.callee["name"] == "split_first":
        r = tup(index(v, Int(0)), subseq(v, Int(1), n))
    else:
        r = tup(index(v, sub(n, Int(1))), subseq(v, Int(0), sub(n, Int(1))))
    return [_Out("ret", s, some(r)) for s in yes] + [_Out("ret", s, NONE) for s in no]


@seqm("split_at")
def m_splitat(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    good, bad = need(I, st, le(args[1], n), ctx, "split_at out of bounds")
    return bad + [_Out("ret", s, tup(subseq(v, Int(0), args[1]), subseq(v, args[1], n))) for s in good]


@seqm("split_at_checked")
def m_splitatc(I, st, args, ctx):
    v = sv(I, st, args[0])
    n = length(v)
    yes, no = branch(I, st, le(args[1], n))
    return [_Out("ret", s, some(tup(subseq(v, Int(0), args[1]), subseq(v, args[1], n)))) for s in yes] + [_Out("ret", s, NONE) for s in no]


RANGE = "core::ops::range::"


def rng_of(I, st, r, n, ctx):
    """range value -> [(state, lo, hi, panic-or-None)] for a sequence of length n; None if not a range"""
    r = I.deref(st, r)
    if r.op != "adt":
        return None
    p = r.a[0]
    if not p.startswith(RANGE):
        return None
    nm = p[len(RANGE):]
    f = {k: I.deref(st, v) for k, v in zip(r.a[2], r.a[3:])}
    if nm == "Range":
        lo, hi = f["start"], f["end"]
    elif nm == "RangeFrom":
        lo, hi = f["start"], n
    elif nm == "RangeTo":
        lo, hi = Int(0), f["end"]
    elif nm == "RangeFull":
        lo, hi = Int(0), n
    elif nm == "RangeInclusive":
        lo, hi = f["start"], add(f["end"], Int(1))
    elif nm == "RangeToInclusive":
        lo, hi = Int(0), add(f["end"], Int(1))
    else:
        return None
    good, bad = need(I, st, AND(le(lo, hi), le(hi, n)), ctx, "slice index out of bounds")
    return [(None, None, None, b) for b in bad] + [(s, lo, hi, None) for s in good]


@model("core::ops::range::RangeInclusive::new")
def m_rincl(I, st, args, ctx):
    return ret(st, mk("adt", RANGE + "RangeInclusive", "", ("start", "end"), args[0], args[1]))


@model("Index::index")
def m_index(I, st, args, ctx):
    t = argty(I, ctx, 0)
    v = sv(I, st, args[0])
    i = I.deref(st, args[1])
    if i.op == "adt" and i.a[0].startswith(RANGE):
        outs = []
        rs = rng_of(I, st, i, length(v), ctx)
        if rs is None:
            return None
        for s, lo, hi, bad in rs:
            outs.append(bad if bad else _Out("ret", s, subseq(v, lo, hi)))
        return outs
    it = argty(I, ctx, 1)
    if it is not None and it["k"] == "uint":
        good, bad = need(I, st, lt(i, length(v)), ctx, "index out of bounds")
        return bad + [_Out("ret", s, index(v, i)) for s in good]
    return None


@model("IndexMut::index_mut")
def m_indexmut(I, st, args, ctx):
    v = sv(I, st, args[0])
    i = I.deref(st, args[1])
    c, p = final_ref(I, st, args[0])
    if i.op == "adt" and i.a[0].startswith(RANGE):
        outs = []
        rs = rng_of(I, st, i, length(v), ctx)
        if rs is None:
            return None
        for s, lo, hi, bad in rs:
            outs.append(bad if bad else _Out("ret", s, mk("ref", c, p + (("s", lo, hi),))))
        return outs
    good, bad = need(I, st, lt(i, length(v)), ctx, "index out of bounds")
    return bad + [_Out("ret", s, mk("ref", c, p + (("i", i),))) for s in good]


@seqm("get")
def m_get(I, st, args, ctx):
    v = sv(I, st, args[0])
    i = I.deref(st, args[1])
    n = length(v)
    if i.op == "adt" and i.a[0].startswith(RANGE):
        outs = []
        rs = rng_of(I, st, i, n, ctx)
        if rs is None:
            return None
        for s, lo, hi, bad in rs:
            outs.append(_Out("ret", bad.st, NONE) if bad else _Out("ret", s, some(subseq(v, lo, hi))))
        return outs
    yes, no = branch(I, st, lt(i, n))
    return [_Out("ret", s, some(index(v, i))) for s in yes] + [_Out("ret", s, NONE) for s in no]


@seqm("copy_from_slice", "clone_from_slice")
def m_copyfrom(I, st, args, ctx):
    v, w = sv(I, st, args[0]), sv(I, st, args[1])
    good, bad = need(I, st, eqnum(length(v), length(w)), ctx, "copy_from_slice length mismatch")
    for s in good:
        c, p = final_ref(I, s, args[0])
        I.store(s, c, p, w)
        bad.append(_Out("ret", s, UNIT))
    return bad


@seqm("concat")
def m_concat(I, st, args, ctx):
    v = I.reify(st, args[0])
    if v.op == "seq" and all(s.op == "el" for s in v.a):
        return ret(st, cat(*[s.a[0] for s in v.a]))
    return I.prelude(st, "flat", [stream(dseq(v))], ctx)


@seqm("join")
def m_join(I, st, args, ctx):
    v = I.reify(st, args[0])
    sep = sv(I, st, args[1])
    if v.op == "seq" and all(s.op == "el" for s in v.a):
        parts = []
        for i, s in enumerate(v.a):
            if i:
                parts.append(sep)
            parts.append(s.a[0])
        return ret(st, cat(*parts))
    return None


@seqm("starts_with")
def m_starts(I, st, args, ctx):
    v, w = sv(I, st, args[0]), sv(I, st, args[1])
    if w.op == "seq" and all(s.op == "el" for s in w.a):
        n = len(w.a)
        return ret(st, AND(le(Int(n), length(v)), *[eq(index(v, Int(i)), s.a[0]) for i, s in enumerate(w.a)]))
    if is_listty(argty(I, ctx, 1)):
        # equal texts are prefixes of each other; otherwise a predicate of both
        f = mk("app", "starts_with", v, w)
        return ret(st, OR(I.eqv(st, v, w), f))
    return None


@model("core::str::eq_ignore_ascii_case", "core::slice::eq_ignore_ascii_case")
def m_eqcase(I, st, args, ctx):
    v, w = sv(I, st, args[0]), sv(I, st, args[1])
    return ret(st, OR(I.eqv(st, v, w), mk("app", "eq_ignore_ascii_case", v, w)))


@seqm("ends_with")
def m_ends(I, st, args, ctx):
    v, w = sv(I, st, args[0]), sv(I, st, args[1])
    if w.op == "seq" and all(s.op == "el" for s in w.a):
        n = len(w.a)
        return ret(st, AND(le(Int(n), length(v)), *[eq(index(v, add(sub(length(v), Int(n)), Int(i))), s.a[0]) for i, s in enumerate(w.a)]))
    if is_listty(argty(I, ctx, 1)):
        return ret(st, OR(I.eqv(st, v, w), mk("app", "ends_with", v, w)))
    return None


def definite(name):
    """a library function of its argument that is not the identity on what the code handles"""
    def m(I, st, args, ctx):
        if any(is_closure(I, st, a) for a in args):
            return None
        return ret(st, mk("app", name, *[I.reify(st, a) for a in args]))
    return m


def is_closure(I, st, a):
    while a.op == "ref":
        a = I.load(st, a.a[0], a.a[1])
    return a.op in ("clo", "fn", "fnkey")


for _n in ("trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase",
           "trim_matches", "trim_start_matches", "trim_end_matches"):
    for _p in ("core::str::", "alloc::str::", "core::slice::", "alloc::slice::", "core::slice::ascii::"):
        MODELS[_p + _n] = definite("str::" + _n)


@seqm("strip_prefix", "strip_suffix")
def m_strip(I, st, args, ctx):
    v, w = sv(I, st, args[0]), sv(I, st, args[1])
    if w.op != "seq" or not all(s.op == "el" for s in w.a):
        return None
    n, l = len(w.a), length(v)
    pre = ctx.callee["name"] == "strip_prefix"
    off = Int(0) if pre else sub(l, Int(n))
    rest = subseq(v, Int(n), l) if pre else subseq(v, Int(0), off)
    yes, no = branch(I, st, AND(le(Int(n), l), *[eq(index(v, add(off, Int(i))), s.a[0]) for i, s in enumerate(w.a)]))
    return [_Out("ret", s, some(rest)) for s in yes] + [_Out("ret", s, NONE) for s in no]


def member(x, s):
    """formula: x occurs in sequence s"""
    k = mk("k", "member")
    return NOT(forall(length(s), NOT(eq(index(s, k), x)), k))


@seqm("contains")
def m_contains(I, st, args, ctx):
    t = argty(I, ctx, 0)
    if t is not None and (t["k"] == "str" or t.get("p") == "alloc::string::String"):
        return I.opaque(st, "str::contains", args, ctx, pure=True)
    return ret(st, member(I.reify(st, args[1]), I.reify(st, args[0])))


@model("core::ops::range::Range::contains")
def m_rcontains(I, st, args, ctx):
    r = I.deref(st, args[0])
    x = I.deref(st, args[1])
    return ret(st, AND(le(fld(r, RANGE + "Range", "", "start"), x), lt(x, fld(r, RANGE + "Range", "", "end"))))


@model("core::ops::range::RangeInclusive::contains")
def m_ricontains(I, st, args, ctx):
    r = I.deref(st, args[0])
    x = I.deref(st, args[1])
    if r.op != "adt":
        return None
    return ret(st, AND(le(r.a[3], x), le(x, r.a[4])))


# nonempty
@model("nonempty::NonEmpty::new")
def m_ne_new(I, st, args, ctx):
    return ret(st, one(args[0]))


@model("nonempty::NonEmpty::from_vec")
def m_ne_from(I, st, args, ctx):
    v = args[0]
    yes, no = branch(I, st, le(Int(1), length(v)))
    return [_Out("ret", s, some(v)) for s in yes] + [_Out("ret", s, NONE) for s in no]


@model("nonempty::NonEmpty::tail")
def m_ne_tail(I, st, args, ctx):
    v = I.deref(st, args[0])
    return ret(st, subseq(v, Int(1), length(v)))


# ------------------------------------------------------------------ sets
def mkset(s):
    if s.op == "elems":
        return s.a[0]
    return mk("set", s)


def elems(v):
    if v.op == "set":
        return v.a[0]
    return mk("elems", v)


SETP = ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet")


@model(*[p + "::insert" for p in SETP])
def m_setins(I, st, args, ctx):
    v = I.deref(st, args[0])
    x = I.reify(st, args[1])
    new = NOT(member(x, elems(v)))
    setv(I, st, args[0], mkset(cat(elems(v), one(x))))
    return ret(st, new)


@model(*[p + "::contains" for p in SETP])
def m_setcont(I, st, args, ctx):
    return ret(st, member(I.reify(st, args[1]), elems(I.reify(st, args[0]))))


@model(*[p + "::is_empty" for p in SETP])
def m_setempty(I, st, args, ctx):
    return ret(st, le0(length(elems(I.deref(st, args[0])))))


@model(*[p + "::iter" for p in SETP])
def m_setiter(I, st, args, ctx):
    return ret(st, stream(dseq(elems(I.deref(st, args[0])))))


# ------------------------------------------------------------------ streams
#  mk("stream", desc, pos); desc: dseq(s) drng(lo, n) drev(d) dskip(d,c) dtake(d,c) dstep(d,c) denum(d) dzip(a,b)
#  dmap(d,f) dfilter(d,f) dfmap(d,f) dwin(s,w) dchunk(s,w) dchunkx(s,w) dinf(lo) dtw(d,f)


def stream(d, pos=None):
    return mk("stream", d, pos or Int(0))


def dseq(s):
    return mk("dseq", s)


def dlen(d):
    """number of base pulls of the stream, None when unknown"""
    o = d.op
    if o == "dseq":
        return length(d.a[0])
    if o == "drng":
        return d.a[1]
    if o in ("drev", "denum", "dmap", "dfilter", "dfmap", "dinsp"):
        return dlen(d.a[0])
    if o in ("dskip", "dtake", "dstep", "dzip", "dchain", "dwin", "dchunk", "dchunkx"):
        return d.a[-1]
    return None


def exact(d):
    """every pull yields (no filtering)"""
    o = d.op
    if o in ("dfilter", "dfmap", "dtw"):
        return False
    if o in ("dmap", "drev", "denum", "dskip", "dtake", "dstep", "dinsp"):
        return exact(d.a[0])
    if o in ("dzip", "dchain"):
        return exact(d.a[0]) and exact(d.a[1])
    return True


def as_stream(I, st, v):
    """anything iterable -> stream value"""
    v = I.deref(st, v)
    if v.op == "stream":
        return [(st, v)]
    if v.op == "set":
        return [(st, stream(dseq(v.a[0])))]
    if v.op == "adt":
        p = v.a[0]
        if p.startswith(RANGE):
            f = {k: I.deref(st, x) for k, x in zip(v.a[2], v.a[3:])}
            nm = p[len(RANGE):]
            if nm in ("Range", "RangeInclusive"):
                lo = f["start"]
                n = sub(f["end"], lo)
                if nm == "RangeInclusive":
                    n = add(n, Int(1))
                yes, no = branch(I, st, le(Int(0), n))
                return [(s, stream(mk("drng", lo, n))) for s in yes] + [(s, stream(mk("drng", lo, Int(0)))) for s in no]
            if nm == "RangeFrom":
                return [(st, stream(mk("dinf", f["start"])))]
            return None
        if p == tm.OPT:
            if v.a[1] == "None":
                return [(st, stream(dseq(EMPTY)))]
            return [(st, stream(dseq(one(v.a[3]))))]
        if p == tm.RES:
            if v.a[1] == "Err":
                return [(st, stream(dseq(EMPTY)))]
            return [(st, stream(dseq(one(v.a[3]))))]
        return None
    return [(st, stream(dseq(v)))]


def item(I, st, d, i, ctx):
    """[(state, 'yield', v) | (state, 'skip', None) | (state,'stop',None) | (None,'out',Out)]"""
    o = d.op
    if o == "dseq":
        return [(st, "yield", index(d.a[0], i))]
    if o == "drng":
        return [(st, "yield", add(d.a[0], i))]
    if o == "dinf":
        return [(st, "yield", add(d.a[0], i))]
    if o == "drev":
        return item(I, st, d.a[0], sub(sub(dlen(d.a[0]), Int(1)), i), ctx)
    if o == "dskip":
        return item(I, st, d.a[0], add(i, d.a[1]), ctx)
    if o == "dtake":
        return item(I, st, d.a[0], i, ctx)
    if o == "dstep":
        return item(I, st, d.a[0], scale(i, d.a[1].a[0]), ctx)
    if o == "denum":
        return [(s, k, tup(i, v) if k == "yield" else v) for s, k, v in item(I, st, d.a[0], i, ctx)]
    if o == "dwin":
        s_, w = d.a[0], d.a[1]
        return [(st, "yield", subseq(s_, i, add(i, w)))]
    if o == "dchunkx":
        s_, w = d.a[0], d.a[1]
        return [(st, "yield", subseq(s_, scale(i, w.a[0]), add(scale(i, w.a[0]), w)))]
    if o == "dchunk":
        s_, w = d.a[0], d.a[1]
        lo = scale(i, w.a[0])
        hi = add(lo, w)
        yes, no = branch(I, st, le(hi, length(s_)))
        return [(s, "yield", subseq(s_, lo, hi)) for s in yes] + [(s, "yield", subseq(s_, lo, length(s_))) for s in no]
    if o == "dzip":
        out = []
        for s, k, v in item(I, st, d.a[0], i, ctx):
            if k != "yield":
                out.append((s, k, v))
                continue
            for s2, k2, v2 in item(I, s, d.a[1], i, ctx):
                out.append((s2, k2, tup(v, v2) if k2 == "yield" else v2))
        return out
    if o == "dchain":
        na = dlen(d.a[0])
        yes, no = branch(I, st, lt(i, na))
        out = []
        for s in yes:
            out += item(I, s, d.a[0], i, ctx)
        for s in no:
            out += item(I, s, d.a[1], sub(i, na), ctx)
        return out
    if o in ("dmap", "dfilter", "dfmap", "dinsp", "dtw"):
        out = []
        for s, k, v in item(I, st, d.a[0], i, ctx):
            if k != "yield":
                out.append((s, k, v))
                continue
            for r in I.call_value(s, d.a[1], [v], ctx, ("it", o, d.id)):
                if r.kind != "ret":
                    out.append((None, "out", r))
                    continue
                if o == "dmap":
                    out.append((r.st, "yield", r.val))
                elif o == "dinsp":
                    out.append((r.st, "yield", v))
                elif o in ("dfilter", "dtw"):
                    yes, no = branch(I, r.st, I.deref(r.st, r.val))
                    out += [(x, "yield", v) for x in yes]
                    out += [(x, "skip" if o == "dfilter" else "stop", None) for x in no]
                else:
                    c = is_(r.val, tm.OPT, "Some")
                    yes, no = branch(I, r.st, c)
                    out += [(x, "yield", fld(r.val, tm.OPT, "Some", "0")) for x in yes]
                    out += [(x, "skip", None) for x in no]
        return out
    raise NotRef()


def pull(I, st, ref, ctx):
    """next() on the stream behind ref"""
    v = I.deref(st, ref)
    if v.op == "adt":
        # a Range used directly as an iterator
        if v.a[0] == RANGE + "Range":
            lo, hi = v.a[3], v.a[4]
            yes, no = branch(I, st, lt(lo, hi))
            outs = [_Out("ret", s, NONE) for s in no]
            for s in yes:
                setv(I, s, ref, with_(v, v.a[0], "", "start", add(lo, Int(1))))
                outs.append(_Out("ret", s, some(lo)))
            return outs
        ss = as_stream(I, st, v)
        if ss is None:
            return None
        outs = []
        for s, sv_ in ss:
            setv(I, s, ref, sv_)
            outs += pull(I, s, ref, ctx)
        return outs
    if v.op != "stream":
        return None
    d, pos = v.a
    if not exact(d) and not I.at_header(ctx):
        return I.prelude(st, "first_yield", [ref], ctx)
    n = dlen(d)
    outs = []
    if n is None:
        if d.op == "dtw":
            n = dlen(d.a[0])
        elif d.op != "dinf":
            return None
    if n is None:
        yes, no = [st], []
    else:
        yes, no = branch(I, st, lt(pos, n))
    for s in no:
        outs.append(_Out("ret", s, NONE))
    for s in yes:
        setv(I, s, ref, mk("stream", d, add(pos, Int(1))))
        for s2, k, x in item(I, s, d, pos, ctx):
            if k == "yield":
                outs.append(_Out("ret", s2, some(x)))
            elif k == "skip":
                outs.append(_Out("skip", s2))
            elif k == "stop":
                outs.append(_Out("ret", s2, NONE))
            else:
                outs.append(x)
    return outs


@model("Iterator::next")
def m_next(I, st, args, ctx):
    return pull(I, st, args[0], ctx)


@model("core::iter::adapters::peekable::Peekable::peek")
def m_peek(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op != "stream" or not exact(v.a[0]):
        return None
    d, pos = v.a
    n = dlen(d)
    if n is None:
        return None
    yes, no = branch(I, st, lt(pos, n))
    outs = [_Out("ret", s, NONE) for s in no]
    for s in yes:
        for s2, k, x in item(I, s, d, pos, ctx):
            outs.append(_Out("ret", s2, some(x)) if k == "yield" else x)
    return outs


@model("DoubleEndedIterator::next_back")
def m_next_back(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op != "stream" or v.a[0].op != "dseq" or not (v.a[1].op == "int" and v.a[1].a[0] == 0):
        return None
    s0 = v.a[0].a[0]
    n = length(s0)
    yes, no = branch(I, st, le(Int(1), n))
    outs = [_Out("ret", s, NONE) for s in no]
    for s in yes:
        setv(I, s, args[0], stream(dseq(subseq(s0, Int(0), sub(n, Int(1))))))
        outs.append(_Out("ret", s, some(index(s0, sub(n, Int(1))))))
    return outs


def adapter(f):
    """wrap a function desc -> desc (after dropping consumed prefix)"""
    def m(I, st, args, ctx):
        ss = as_stream(I, st, args[0])
        if ss is None:
            return None
        outs = []
        for s, v in ss:
            d, pos = v.a
            if not (pos.op == "int" and pos.a[0] == 0):
                n = dlen(d)
                if n is None:
                    if d.op != "dinf":
                        return None
                    d = mk("dinf", add(d.a[0], pos))
                elif d.op == "dseq":
                    d = dseq(subseq(d.a[0], pos, n))
                else:
                    d = mk("dskip", d, pos, sub(n, pos))
            r = f(I, s, d, args, ctx)
            if r is None:
                return None
            outs += r
        return outs
    return m


def r1(st, d):
    return [_Out("ret", st, stream(d))]


def reg_adapter(names, f):
    for n in names:
        MODELS[n] = adapter(f)


reg_adapter(["IntoIterator::into_iter"] + [p + "::iter" for p in SEQP] + [p + "::into_iter" for p in SEQP] +
            ["Iterator::by_ref_", "Iterator::cloned", "Iterator::copied", "Iterator::peekable", "Iterator::fuse",
             "core::option::Option::iter", "core::option::Option::into_iter"],
            lambda I, st, d, args, ctx: r1(st, d))


@model("Iterator::by_ref")
def m_byref(I, st, args, ctx):
    return ret(st, args[0])


@model("core::str::bytes", "core::str::chars")
def m_bytes(I, st, args, ctx):
    v = sv(I, st, args[0])
    if ctx.callee["name"] == "bytes":
        return ret(st, stream(dseq(v)))
    return None


def a_map(I, st, d, args, ctx):
    return r1(st, mk("dmap", d, args[1]))


reg_adapter(["Iterator::map"], a_map)
reg_adapter(["Iterator::filter"], lambda I, st, d, args, ctx: r1(st, mk("dfilter", d, args[1])))
reg_adapter(["Iterator::filter_map"], lambda I, st, d, args, ctx: r1(st, mk("dfmap", d, args[1])))
reg_adapter(["Iterator::inspect"], lambda I, st, d, args, ctx: r1(st, mk("dinsp", d, args[1])))
reg_adapter(["Iterator::take_while"], lambda I, st, d, args, ctx: r1(st, mk("dtw", d, args[1])))


def a_rev(I, st, d, args, ctx):
    if d.op == "drev":
        return r1(st, d.a[0])
    if not exact(d):
        # reversing a filtered stream reverses its base
        if d.op in ("dfilter", "dfmap"):
            r = a_rev(I, st, d.a[0], args, ctx)
            return r1(st, mk(d.op, r[0].val.a[0], d.a[1])) if r else None
        if d.op == "dmap":
            r = a_rev(I, st, d.a[0], args, ctx)
            return r1(st, mk("dmap", r[0].val.a[0], d.a[1])) if r else None
        return None
    if dlen(d) is None:
        return None
    if d.op == "dmap":
        return r1(st, mk("dmap", a_rev(I, st, d.a[0], args, ctx)[0].val.a[0], d.a[1]))
    return r1(st, mk("drev", d))


reg_adapter(["Iterator::rev"], a_rev)


def a_enum(I, st, d, args, ctx):
    if not exact(d):
        return None
    return r1(st, mk("denum", d))


reg_adapter(["Iterator::enumerate"], a_enum)


def a_skip(I, st, d, args, ctx):
    if not exact(d):
        return None
    n = dlen(d)
    c = args[1]
    if n is None:
        return r1(st, mk("dinf", add(d.a[0], c)))
    yes, no = branch(I, st, le(c, n))
    outs = []
    for s in yes:
        outs += r1(s, dseq(subseq(d.a[0], c, n)) if d.op == "dseq" else mk("dskip", d, c, sub(n, c)))
    for s in no:
        outs += r1(s, dseq(EMPTY))
    return outs


reg_adapter(["Iterator::skip"], a_skip)


def a_take(I, st, d, args, ctx):
    if not exact(d):
        return None
    n = dlen(d)
    c = args[1]
    if n is None:
        return r1(st, mk("drng", d.a[0], c))
    yes, no = branch(I, st, le(c, n))
    outs = []
    for s in yes:
        outs += r1(s, dseq(subseq(d.a[0], Int(0), c)) if d.op == "dseq" else mk("dtake", d, c))
    for s in no:
        outs += r1(s, d)
    return outs


reg_adapter(["Iterator::take"], a_take)


def a_step(I, st, d, args, ctx):
    c = args[1]
    n = dlen(d)
    if not exact(d) or c.op != "int" or c.a[0] <= 0 or n is None:
        return None
    return r1(st, mk("dstep", d, c, divmod_("div", add(n, Int(c.a[0] - 1)), c)))


reg_adapter(["Iterator::step_by"], a_step)


def a_zip(I, st, d, args, ctx):
    outs = []
    ss = as_stream(I, st, args[1])
    if ss is None:
        return None
    for s, v in ss:
        e, pos = v.a
        if not (pos.op == "int" and pos.a[0] == 0):
            return None
        if not exact(d) or not exact(e):
            return None
        n, m = dlen(d), dlen(e)
        if n is None and m is None:
            return None
        if n is None or m is None:
            outs += r1(s, mk("dzip", d, e, n or m))
            continue
        yes, no = branch(I, s, le(n, m))
        for x in yes:
            outs += r1(x, mk("dzip", d, e, n))
        for x in no:
            outs += r1(x, mk("dzip", d, e, m))
    return outs


reg_adapter(["Iterator::zip"], a_zip)


@model("core::iter::adapters::zip::zip")
def m_zip2(I, st, args, ctx):
    return MODELS["Iterator::zip"](I, st, args, ctx)


def a_chain(I, st, d, args, ctx):
    outs = []
    ss = as_stream(I, st, args[1])
    if ss is None:
        return None
    for s, v in ss:
        e, pos = v.a
        if not (pos.op == "int" and pos.a[0] == 0):
            return None
        if d.op == "dseq" and e.op == "dseq":
            outs += r1(s, dseq(cat(d.a[0], e.a[0])))
        elif dlen(d) is not None and dlen(e) is not None:
            outs += r1(s, mk("dchain", d, e, add(dlen(d), dlen(e))))
        else:
            return None
    return outs


reg_adapter(["Iterator::chain"], a_chain)


@model("core::iter::sources::once::once")
def m_once(I, st, args, ctx):
    return ret(st, stream(dseq(one(args[0]))))


@model("core::iter::sources::empty::empty")
def m_emptyit(I, st, args, ctx):
    return ret(st, stream(dseq(EMPTY)))


@seqm("windows")
def m_windows(I, st, args, ctx):
    v = sv(I, st, args[0])
    w = args[1]
    if w.op != "int" or w.a[0] <= 0:
        return None
    n = sub(length(v), Int(w.a[0] - 1))
    yes, no = branch(I, st, le(Int(0), n))
    return [_Out("ret", s, stream(mk("dwin", v, w, n))) for s in yes] + [_Out("ret", s, stream(dseq(EMPTY))) for s in no]


@seqm("chunks", "chunks_exact")
def m_chunks(I, st, args, ctx):
    v = sv(I, st, args[0])
    w = args[1]
    if w.op != "int" or w.a[0] <= 0:
        return None
    if ctx.callee["name"] == "chunks_exact":
        return ret(st, stream(mk("dchunkx", v, w, divmod_("div", length(v), w))))
    return ret(st, stream(mk("dchunk", v, w, divmod_("div", add(length(v), Int(w.a[0] - 1)), w))))


# consumers defined by the prelude
def consumer(name, pname):
    def m(I, st, args, ctx):
        ss = as_stream_arg(I, st, args[0])
        if ss is None:
            return None
        outs = []
        for s, v in ss:
            outs += I.prelude(s, pname, [v] + list(args[1:]), ctx)
        return outs
    MODELS[name] = m


def as_stream_arg(I, st, a):
    """keep a reference to a stream as it is (by-ref consumers advance the caller's iterator)"""
    v = I.deref(st, a)
    if a.op == "ref" and v.op == "stream":
        return [(st, a)]
    if a.op == "ref" and v.op == "adt":
        ss = as_stream(I, st, v)
        if ss is None:
            return None
        for s, x in ss:
            setv(I, s, a, x)
        return [(s, a) for s, x in ss]
    return as_stream(I, st, a)


for _n in ("any", "all", "find", "find_map", "position", "fold", "for_each", "count", "last"):
    consumer("Iterator::" + _n, _n)


@model("Iterator::skip_while")
def m_skip_while(I, st, args, ctx):
    """what follows the first element that fails the condition, inclusive"""
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    outs = []
    for s, v in ss:
        d, pos = v.a
        n = dlen(d)
        if not exact(d) or n is None or not (pos.op == "int" and pos.a[0] == 0):
            return None
        for o in I.prelude(s, "position_not", [v, args[1]], ctx):
            if o.kind != "ret":
                outs.append(o)
                continue
            yes, no = branch(I, o.st, is_(o.val, tm.OPT, "Some"))
            i = fld(o.val, tm.OPT, "Some", "0")
            outs += [_Out("ret", x, stream(dseq(subseq(d.a[0], i, n)) if d.op == "dseq" else mk("dskip", d, i, sub(n, i)))) for x in yes]
            outs += [_Out("ret", x, stream(dseq(EMPTY))) for x in no]
    return outs


@model("Iterator::map_while")
def m_map_while(I, st, args, ctx):
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    outs = []
    for s, v in ss:
        for o in I.prelude(s, "map_while", [v, args[1]], ctx):
            outs.append(_Out("ret", o.st, stream(dseq(o.val))) if o.kind == "ret" else o)
    return outs


@model("Iterator::reduce")
def m_reduce(I, st, args, ctx):
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    outs = []
    for s, v in ss:
        for o in I.prelude(s, "reduce", [v, args[1]], ctx):
            if o.kind == "ret":
                m = {x: mk("red", x.a[0], headmerge(x.a[1])) for x in walk(o.val) if x.op == "red" and isinstance(x.a[1], T)}
                o.val = subst(o.val, m) if m else o.val
            outs.append(o)
    return outs


def headmerge(q):
    """[f(-1)] followed by f(0) .. f(n-1), n >= 0: one comprehension"""
    if q.op != "seq" or len(q.a) != 2 or q.a[0].op != "el" or q.a[1].op not in ("comp", "sp"):
        return q
    c = q.a[1]
    if c.op == "sp":
        x = c.a[0]
        if x.op == "sub" and x.a[1].op == "int" and x.a[1].a[0] == 1 and q.a[0].a[0] is index(x.a[0], Int(0)):
            return subseq(x.a[0], Int(0), x.a[2])
        return q
    al = subst_comp(c, Int(-1))
    if len(al) == 1 and al[0][0] is TRUE and al[0][1] is one(q.a[0].a[0]):
        k = mk("k", "headmerge")
        return seq_of([tm.comp(add(c.a[0], Int(1)), subst_comp(c, sub(k, Int(1))), k)])
    return q


@model("Iterator::nth")
def m_nth(I, st, args, ctx):
    ss = as_stream_arg(I, st, args[0])
    if ss is None:
        return None
    outs = []
    for s, a in ss:
        v = I.deref(s, a)
        d, pos = v.a
        n = dlen(d)
        if not exact(d) or n is None:
            outs += I.prelude(s, "nth", [a] + list(args[1:]), ctx)
            continue
        i = add(pos, args[1])
        yes, no = branch(I, s, lt(i, n))
        for x in no:
            if a.op == "ref":
                setv(I, x, a, mk("stream", d, n))
            outs.append(_Out("ret", x, NONE))
        for x in yes:
            if a.op == "ref":
                setv(I, x, a, mk("stream", d, add(i, Int(1))))
            for s2, k, y in item(I, x, d, i, ctx):
                outs.append(_Out("ret", s2, some(y)) if k == "yield" else y)
    return outs


@model("Iterator::rposition")
def m_rposition(I, st, args, ctx):
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    outs = []
    for s, v in ss:
        n = dlen(v.a[0])
        if n is None or not exact(v.a[0]):
            return None
        outs += I.prelude(s, "rposition", [v, n, args[1]], ctx)
    return outs


@model("Iterator::try_for_each", "Iterator::try_fold")
def m_tryfe(I, st, args, ctx):
    if ctx.dt is None or ctx.dt.get("p") != tm.RES:
        return None
    ss = as_stream_arg(I, st, args[0])
    if ss is None:
        return None
    outs = []
    for s, v in ss:
        outs += I.prelude(s, "try_for_each_res" if ctx.callee["name"] == "try_for_each" else "try_fold_res", [v] + list(args[1:]), ctx)
    return outs


@model("Iterator::max", "Iterator::min", "Iterator::sum")
def m_maxit(I, st, args, ctx):
    inner = ctx.dt
    if inner is not None and inner.get("p") == tm.OPT:
        inner = I.p.types[ctx.body.crate][inner["a"][0]] if inner.get("a") else None
        cr = ctx.body.crate
        while inner is not None and inner["k"] == "ref":
            inner = I.p.types[cr][inner["e"]]
    if not is_num(inner):
        return None
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    outs = []
    for s, v in ss:
        outs += I.prelude(s, ctx.callee["name"], [v], ctx)
    return outs


@model("Iterator::partition")
def m_partition(I, st, args, ctx):
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    outs = []
    for s, v in ss:
        outs += I.prelude(s, "partition", [v, args[1]], ctx)
    return outs


@model("Iterator::flatten")
def m_flatten(I, st, args, ctx):
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    outs = []
    for s, v in ss:
        for o in I.prelude(s, "flat", [v], ctx):
            if o.kind == "ret":
                o = _Out("ret", o.st, stream(dseq(o.val)))
            outs.append(o)
    return outs


@model("Iterator::flat_map")
def m_flatmap(I, st, args, ctx):
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    outs = []
    for s, v in ss:
        if not (v.a[1].op == "int" and v.a[1].a[0] == 0):
            return None
        for o in I.prelude(s, "flat", [stream(mk("dmap", v.a[0], args[1]))], ctx):
            if o.kind == "ret":
                o = _Out("ret", o.st, stream(dseq(o.val)))
            outs.append(o)
    return outs


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(I, st, args, ctx):
    t = ctx.dt
    if t is None:
        t = ctx.targ(1) or ctx.targ(0)
    cr = ctx.body.crate if ctx.dt is not None and ctx.body is not None else ctx.ccrate
    if ctx.callee["name"] == "from_iter":
        t = ctx.targ(0)
        cr = ctx.ccrate
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    kind = None
    if t["k"] == "adt":
        p = t["p"]
        if p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::boxed::Box"):
            kind = "collect_vec"
        elif p in SETP:
            kind = "collect_set"
        elif p == "alloc::string::String":
            kind = "collect_string"
        elif p in (tm.RES, tm.OPT):
            inner = I.p.types[cr][t["a"][0]]
            if inner["k"] == "adt" and inner["p"] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
                kind = "collect_res" if p == tm.RES else "collect_opt"
            elif inner["k"] == "tuple" and not inner["a"]:
                kind = "collect_res" if p == tm.RES else "collect_opt"
    if kind is None:
        return None
    outs = []
    for s, v in ss:
        d, pos = v.a
        if kind == "collect_vec" and d.op == "dseq":
            outs.append(_Out("ret", s, subseq(d.a[0], pos, length(d.a[0]))))
            continue
        if kind == "collect_set" and d.op == "dseq":
            outs.append(_Out("ret", s, mkset(subseq(d.a[0], pos, length(d.a[0])))))
            continue
        outs += I.prelude(s, kind, [v], ctx)
    return outs


@model("Iterator::min", "Iterator::max")
def m_itermin(I, st, args, ctx):
    """least / greatest number of a stream"""
    t = ctx.dt
    if t is None or t.get("p") != tm.OPT or ctx.body is None:
        return None
    cr = ctx.body.crate
    e = I.p.types[cr][t["a"][0]]
    while e["k"] == "ref":
        e = I.p.types[cr][e["e"]]
    if not is_num(e):
        return None
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    from loops import reduce_
    op = ctx.callee["name"]
    outs = []
    for s, v in ss:
        d, pos = v.a
        if d.op == "dseq":
            cs = [_Out("ret", s, subseq(d.a[0], pos, length(d.a[0])))]
        else:
            cs = I.prelude(s, "collect_vec", [v], ctx)
        for o in cs:
            if o.kind != "ret":
                outs.append(o)
                continue
            q = o.val
            yes, no = branch(I, o.st, le0(length(q)))
            outs += [_Out("ret", x, NONE) for x in yes] + [_Out("ret", x, some(reduce_(op, q))) for x in no]
    return outs


@model("Iterator::min_by_key", "Iterator::max_by_key")
def m_minbykey(I, st, args, ctx):
    """an element whose key is the least / greatest"""
    ss = as_stream(I, st, args[0])
    if ss is None:
        return None
    from loops import reduce_
    op = ctx.callee["name"][:3]
    outs = []
    for s, v in ss:
        for o in I.prelude(s, "keyed", [v, args[1]], ctx):
            if o.kind != "ret":
                outs.append(o)
                continue
            q, ks = o.val.a[3], o.val.a[4]
            p = mk("app", "arg" + op, ks)
            I.ranges[p] = (0, None)
            kp = index(ks, p)
            yes, no = branch(I, o.st, le0(length(q)))
            outs += [_Out("ret", x, NONE) for x in yes]
            for x in no:
                fs = AND(lt(p, length(q)))
                if kp.op in ("app", "lin", "fld", "len", "int", "div", "min", "max", "satsub", "zext"):
                    fs = AND(fs, eq(kp, reduce_(op, ks), True))
                for y in I.assume(x, fs):
                    outs.append(_Out("ret", y, some(index(q, p))))
    return outs


@model("Extend::extend")
def m_extend(I, st, args, ctx):
    tgt = I.deref(st, args[0])
    ss = as_stream(I, st, args[1])
    if ss is None:
        return None
    outs = []
    for s, v in ss:
        d, pos = v.a
        isset = tgt.op in ("set",) or (argty(I, ctx, 0) or {}).get("p") in SETP
        if d.op == "dseq":
            x = subseq(d.a[0], pos, length(d.a[0]))
            if isset:
                setv(I, s, args[0], mkset(cat(elems(tgt), x)))
            else:
                setv(I, s, args[0], cat(tgt, x))
            outs.append(_Out("ret", s, UNIT))
            continue
        outs += I.prelude(s, "extend_set" if isset else "extend_vec", [args[0], v], ctx)
    return outs


@seqm("retain")
def m_retain(I, st, args, ctx):
    v = sv(I, st, args[0])
    outs = []
    for o in I.prelude(st, "retain", [v, args[1]], ctx):
        if o.kind == "ret":
            setv(I, o.st, args[0], o.val)
            o = _Out("ret", o.st, UNIT)
        outs.append(o)
    return outs


@seqm("dedup")
def m_dedup(I, st, args, ctx):
    v = sv(I, st, args[0])
    k = mk("k", "dedup%d" % len(st.trace))
    n = length(v)
    setv(I, st, args[0], seq_of([tm.comp(n, [(OR(le0(k), NOT(I.eqv(st, index(v, k), index(v, sub(k, Int(1)))))), one(index(v, k)))], k)]))
    return ret(st, UNIT)


@seqm("dedup_by_key")
def m_dedup_by_key(I, st, args, ctx):
    v = sv(I, st, args[0])
    outs = []
    for o in I.prelude(st, "keyed", [stream(dseq(v)), args[1]], ctx):
        if o.kind == "ret":
            k = mk("k", "dedup%d" % len(o.st.trace))
            ks = o.val.a[4]
            setv(I, o.st, args[0], seq_of([tm.comp(length(v), [(OR(le0(k), NOT(I.eqv(o.st, index(ks, k), index(ks, sub(k, Int(1)))))), one(index(v, k)))], k)]))
            o = _Out("ret", o.st, UNIT)
        outs.append(o)
    return outs


@seqm("sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")
def m_sort(I, st, args, ctx):
    """the same elements in another order; what is known of the order: the ends of a sorted list of numbers"""
    v = sv(I, st, args[0])
    t = ctx.targ(0)
    if is_num(t) and ctx.callee["name"] in ("sort", "sort_unstable"):
        f = "sorted"
    elif t and t["k"] == "adt" and t["p"].split("::")[-1] in ("Trust", "Auth"):
        f = "sorted links"      # a chain has one order only
    else:
        f = "std?permuted"
    setv(I, st, args[0], mk("app", f, v))
    return ret(st, UNIT)


# ------------------------------------------------------------------ numbers and durations
ORD = "core::cmp::Ordering"
LESS = mk("adt", ORD, "Less", ())
EQUAL = mk("adt", ORD, "Equal", ())
GREATER = mk("adt", ORD, "Greater", ())


def ordering(a, b):
    return ite(lt(a, b), LESS, ite(eqnum(a, b), EQUAL, GREATER))


def cmpm(fn):
    def m(I, st, args, ctx):
        t = argty(I, ctx, 0)
        a, b = I.deref(st, args[0]), I.deref(st, args[1])
        if t is not None and t["k"] == "adt" and t["p"] == tm.OPT and t.get("a") and ctx.body is not None:
            # nothing sorts before something
            e = I.p.types[ctx.body.crate][t["a"][0]]
            if not is_num(e):
                return None
            outs = []
            for sa, na in zip(branch(I, st, tm.is_(a, tm.OPT, "Some")), (1, 0)):
                for s in sa:
                    for sb, nb in zip(branch(I, s, tm.is_(b, tm.OPT, "Some")), (1, 0)):
                        for s2 in sb:
                            x, y = (tm.fld(a, tm.OPT, "Some", "0"), tm.fld(b, tm.OPT, "Some", "0")) if na and nb else (Int(na), Int(nb))
                            I.note(x, e)
                            I.note(y, e)
                            outs.append(_Out("ret", s2, fn(x, y)))
            return outs
        if not is_num(t):
            return None
        I.note(a, t)
        I.note(b, t)
        return ret(st, fn(a, b))
    return m


MODELS["PartialOrd::lt"] = cmpm(lambda a, b: lt(a, b))
MODELS["PartialOrd::le"] = cmpm(lambda a, b: le(a, b))
MODELS["PartialOrd::gt"] = cmpm(lambda a, b: lt(b, a))
MODELS["PartialOrd::ge"] = cmpm(lambda a, b: le(b, a))
MODELS["Ord::cmp"] = cmpm(ordering)
MODELS["PartialOrd::partial_cmp"] = cmpm(lambda a, b: some(ordering(a, b)))


def minmax(I, st, op, a, b):
    if a is b:
        return a
    if a.op == "int" and b.op == "int":
        return Int((max if op == "max" else min)(a.a[0], b.a[0]))
    if I.prove_le0(st, sub(a, b)):
        return b if op == "max" else a
    if I.prove_le0(st, sub(b, a)):
        return a if op == "max" else b
    return mkmm(op, a, b)


def mkmm(op, *xs):
    fl = []
    for x in xs:
        if x.op == op:
            fl.extend(x.a)
        else:
            fl.append(x)
    ints = [x.a[0] for x in fl if x.op == "int"]
    fl = [x for x in fl if x.op != "int"]
    if ints:
        fl.append(Int((max if op == "max" else min)(ints)))
    fl = sorted(set(fl), key=lambda t: t.id)
    if len(fl) == 1:
        return fl[0]
    return mk(op, *fl)


tm.MINMAX[0] = mkmm


def mm(op):
    def m(I, st, args, ctx):
        t = argty(I, ctx, 0) or (ctx.targ(0) if ctx.callee.get("a") else None)
        if not is_num(t):
            return None
        I.note(args[0], t)
        I.note(args[1], t)
        return ret(st, minmax(I, st, op, I.deref(st, args[0]), I.deref(st, args[1])))
    return m


MODELS["core::cmp::max"] = MODELS["Ord::max"] = mm("max")
MODELS["core::cmp::min"] = MODELS["Ord::min"] = mm("min")


@model("PartialEq::eq")
def m_eq(I, st, args, ctx):
    t = argty(I, ctx, 0)
    return ret(st, eq(I.reify(st, args[0]), I.reify(st, args[1]), is_num(t)))


@model("PartialEq::ne")
def m_ne(I, st, args, ctx):
    r = ctx.callee.get("r")
    t = argty(I, ctx, 0)
    b = I.body_for(ctx.callee)
    return ret(st, NOT(eq(I.reify(st, args[0]), I.reify(st, args[1]), is_num(t))))


@model("core::time::Duration::as_secs")
def m_assecs(I, st, args, ctx):
    r = divmod_("div", I.deref(st, args[0]), Int(NANO))
    if r.op not in ("int", "lin") and r not in I.ranges:
        I.ranges[r] = (0, (1 << 64) - 1)
    return ret(st, r)


@model("core::time::Duration::from_secs")
def m_fromsecs(I, st, args, ctx):
    return ret(st, scale(args[0], NANO))


@model("core::time::Duration::new")
def m_durnew(I, st, args, ctx):
    return ret(st, add(scale(args[0], NANO), args[1]))


@model("core::time::Duration::from_millis")
def m_frommillis(I, st, args, ctx):
    return ret(st, scale(args[0], 1000000))


@model("core::time::Duration::as_secs_f64")
def m_assecsf64(I, st, args, ctx):
    return ret(st, mk("app", "f64 seconds", I.deref(st, args[0])))


@model("core::time::Duration::as_secs_f32")
def m_assecsf32(I, st, args, ctx):
    return ret(st, mk("app", "f32 seconds", I.deref(st, args[0])))


@model("core::time::Duration::from_secs_f64")
def m_fromsecsf64(I, st, args, ctx):
    return ret(st, mk("app", "duration of f64 seconds", args[0]))


@model("core::time::Duration::from_secs_f32")
def m_fromsecsf32(I, st, args, ctx):
    return ret(st, mk("app", "duration of f32 seconds", args[0]))


def _frnd(op):
    def f(I, st, args, ctx):
        x = I.exact(args[0], op)
        if x is None:
            return I.opaque(st, "std?float " + op, args, ctx)
        return ret(st, mk("app", "float of f64", x))
    return f


for _n, _o in (("floor", "floor"), ("trunc", "floor"), ("round", "round"), ("ceil", "ceil")):
    MODELS["std::f64::" + _n] = _frnd(_o)


@model("core::time::Duration::as_nanos")
def m_asnanos(I, st, args, ctx):
    return ret(st, I.deref(st, args[0]))


@model("core::time::Duration::as_millis")
def m_asmillis(I, st, args, ctx):
    return ret(st, divmod_("div", I.deref(st, args[0]), Int(1000000)))


@model("core::time::Duration::subsec_nanos")
def m_subsec(I, st, args, ctx):
    return ret(st, divmod_("mod", I.deref(st, args[0]), Int(NANO)))


def durop(op, over):
    """sum or difference of durations; over: what happens outside the representable range"""
    def m(I, st, args, ctx):
        from interp import MAXDUR
        t = argty(I, ctx, 0)
        if t is None or t["k"] != "adt" or t.get("p") != DUR:
            return None
        t1 = argty(I, ctx, 1)
        assign = over == "assign"
        a, b = I.deref(st, args[0]), I.deref(st, args[1])
        I.note(a, t)
        if op == "mul":
            if b.op == "int":
                r = scale(a, b.a[0])
            elif a.op == "int":
                r = scale(b, a.a[0])
            else:
                return None
        else:
            if t1 is None or t1["k"] != "adt" or t1.get("p") != DUR:
                return None
            I.note(b, t)
            r = add(a, b) if op == "add" else sub(a, b)
        fits = le(Int(0), r) if op == "sub" else le(r, Int(MAXDUR))
        yes, no = branch(I, st, fits)
        out = []
        for s in yes:
            if assign:
                setv(I, s, args[0], r)
                out.append(_Out("ret", s, UNIT))
            else:
                out.append(_Out("ret", s, some(r) if over == "checked" else r))
        for s in no:
            if over == "checked":
                out.append(_Out("ret", s, NONE))
            elif over == "saturating":
                out.append(_Out("ret", s, Int(0) if op == "sub" else Int(MAXDUR)))
            else:
                out.append(panic(s, ctx, f"overflow when {dict(add='adding', sub='subtracting', mul='multiplying')[op]} durations"))
        return out
    return m


for _o in ("add", "sub", "mul"):
    MODELS[f"core::time::Duration::checked_{_o}"] = durop(_o, "checked")
    MODELS[f"core::time::Duration::saturating_{_o}"] = durop(_o, "saturating")
    MODELS[f"{_o.title()}::{_o}"] = durop(_o, "panic")
    MODELS[f"{_o.title()}Assign::{_o}_assign"] = durop(_o, "assign")


@model("core::time::Duration::is_zero")
def m_durz(I, st, args, ctx):
    return ret(st, eqnum(I.deref(st, args[0]), Int(0)))


def intm(name, f):
    """core::num methods resolve as core::num::<method>"""
    MODELS["core::num::" + name] = f


def ty0(I, ctx):
    t = argty(I, ctx, 0)
    return t


def bounds(t):
    from interp import WID
    w = WID.get(t["n"], 64)
    return (0, (1 << w) - 1) if t["k"] == "uint" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def m_satsub(I, st, args, ctx):
    t = ty0(I, ctx)
    a, b = args
    if t is None or t["k"] != "uint":
        return None
    I.note(a, t)
    I.note(b, t)
    if I.prove_le0(st, sub(b, a)):
        return ret(st, sub(a, b))
    if I.prove_le0(st, sub(a, b)):
        return ret(st, Int(0))
    r = satsub(a, b)
    return ret(st, r)


intm("saturating_sub", m_satsub)


def checked(op):
    def m(I, st, args, ctx):
        t = ty0(I, ctx)
        if t is None or t["k"] not in ("int", "uint"):
            return None
        a, b = args
        I.note(a, t)
        I.note(b, t)
        if op == "add":
            r = add(a, b)
        elif op == "sub":
            r = sub(a, b)
        elif op == "mul":
            if a.op == "int":
                r = scale(b, a.a[0])
            elif b.op == "int":
                r = scale(a, b.a[0])
            else:
                return None
        elif op in ("div", "rem"):
            if b.op != "int" or b.a[0] <= 0:
                return None
            return ret(st, some(divmod_("div" if op == "div" else "mod", a, b)))
        lo, hi = bounds(t)
        yes, no = branch(I, st, AND(le(Int(lo), r), le(r, Int(hi))))
        return [_Out("ret", s, some(r)) for s in yes] + [_Out("ret", s, NONE) for s in no]
    return m


for _o in ("add", "sub", "mul", "div", "rem"):
    intm("checked_" + _o, checked(_o))


def wrapping(op):
    def m(I, st, args, ctx):
        t = ty0(I, ctx)
        a, b = args
        r = add(a, b) if op == "add" else sub(a, b)
        return ret(st, r)
    return m


# wrapping_* is only used by the prelude on counters bounded by a sequence length
def prelude_wrap(op):
    f = wrapping(op)

    def m(I, st, args, ctx):
        if ctx.body is not None and ctx.body.crate == "sa_prelude":
            return f(I, st, args, ctx)
        t = ty0(I, ctx)
        if t is None or t["k"] not in ("int", "uint"):
            return None
        a, b = args
        I.note(a, t)
        I.note(b, t)
        r = add(a, b) if op == "add" else sub(a, b)
        lo, hi = bounds(t)
        if I.prove_le0(st, sub(Int(lo), r)) and I.prove_le0(st, sub(r, Int(hi))):
            return ret(st, r)
        n = hi - lo + 1
        out = []
        for g, d in ((AND(le(Int(lo), r), le(r, Int(hi))), 0), (lt(r, Int(lo)), n), (lt(Int(hi), r), -n)):
            out += [_Out("ret", x, add(r, Int(d))) for x in I.assume(st.copy(), g)]
        return out
    return m


intm("wrapping_add", prelude_wrap("add"))
intm("wrapping_sub", prelude_wrap("sub"))


def m_satadd(I, st, args, ctx):
    t = ty0(I, ctx)
    if t is None or t["k"] != "uint":
        return None
    a, b = args
    I.note(a, t)
    I.note(b, t)
    lo, hi = bounds(t)
    r = add(a, b)
    yes, no = branch(I, st, le(r, Int(hi)))
    return [_Out("ret", s, r) for s in yes] + [_Out("ret", s, Int(hi)) for s in no]


intm("saturating_add", m_satadd)


def m_pow(I, st, args, ctx):
    a, b = args
    t = ty0(I, ctx)
    if a.op == "int" and a.a[0] == 2 and t is not None and t["k"] in ("int", "uint"):
        w = width(t) * 8 - (1 if t["k"] == "int" else 0)
        go, bad = need(I, st, lt(b, Int(w)), ctx, "attempt to multiply with overflow")
        return [_Out("ret", x, I.pow2(b)) for x in go] + bad
    if a.op == "int" and b.op == "int":
        return ret(st, Int(a.a[0] ** b.a[0]))
    if a.op == "int" and a.a[0] == 2:
        return ret(st, I.pow2(b))
    return ret(st, mk("app", "pow", a, b))


intm("pow", m_pow)
intm("max_value", lambda I, st, args, ctx: ret(st, Int(bounds(ctx.dt)[1])) if ctx.dt and ctx.dt["k"] in ("int", "uint") else None)
intm("min_value", lambda I, st, args, ctx: ret(st, Int(bounds(ctx.dt)[0])) if ctx.dt and ctx.dt["k"] in ("int", "uint") else None)


def m_abs_diff(I, st, args, ctx):
    a, b = args
    t = ty0(I, ctx)
    if not is_num(t):
        return None
    I.note(a, t)
    I.note(b, t)
    yes, no = branch(I, st, le(b, a))
    return [_Out("ret", x, sub(a, b)) for x in yes] + [_Out("ret", x, sub(b, a)) for x in no]


intm("abs_diff", m_abs_diff)
MODELS["core::time::Duration::abs_diff"] = m_abs_diff


def overflowing(op):
    def m(I, st, args, ctx):
        t = ty0(I, ctx)
        if t is None or t["k"] not in ("int", "uint"):
            return None
        a, b = args
        I.note(a, t)
        I.note(b, t)
        r = add(a, b) if op == "add" else sub(a, b)
        lo, hi = bounds(t)
        n = hi - lo + 1
        out = []
        for g, d in ((AND(le(Int(lo), r), le(r, Int(hi))), 0), (lt(r, Int(lo)), n), (lt(Int(hi), r), -n)):
            out += [_Out("ret", x, tup(add(r, Int(d)), Bool(d != 0))) for x in I.assume(st.copy(), g)]
        return out
    return m


intm("overflowing_add", overflowing("add"))
intm("overflowing_sub", overflowing("sub"))


def m_div_ceil(I, st, args, ctx):
    a, b = args
    t = ty0(I, ctx)
    if t is None or t["k"] != "uint" or b.op != "int" or b.a[0] <= 0:
        return None
    I.note(a, t)
    return ret(st, divmod_("div", add(a, Int(b.a[0] - 1)), b))


intm("div_ceil", m_div_ceil)


def euclid(op):
    def m(I, st, args, ctx):
        a, b = args
        t = ty0(I, ctx)
        if t is None or t["k"] != "uint" or b.op != "int" or b.a[0] <= 0:
            return None
        I.note(a, t)
        return ret(st, divmod_(op, a, b))
    return m


intm("div_euclid", euclid("div"))
intm("rem_euclid", euclid("mod"))


def m_satmul(I, st, args, ctx):
    t = ty0(I, ctx)
    a, b = args
    if t is None or t["k"] != "uint" or (a.op != "int" and b.op != "int"):
        return None
    I.note(a, t)
    I.note(b, t)
    r = scale(b, a.a[0]) if a.op == "int" else scale(a, b.a[0])
    hi = bounds(t)[1]
    yes, no = branch(I, st, le(r, Int(hi)))
    return [_Out("ret", s, r) for s in yes] + [_Out("ret", s, Int(hi)) for s in no]


intm("saturating_mul", m_satmul)


def dur_unit(n):
    return lambda I, st, args, ctx: ret(st, scale(args[0], n))


def dur_sub(unit, within):
    def m(I, st, args, ctx):
        d = I.deref(st, args[0])
        if within:
            d = divmod_("mod", d, Int(NANO))
        return ret(st, divmod_("div", d, Int(unit)) if unit > 1 else d)
    return m


MODELS["core::time::Duration::from_micros"] = dur_unit(1000)
MODELS["core::time::Duration::from_nanos"] = dur_unit(1)
MODELS["core::time::Duration::as_micros"] = dur_sub(1000, False)
MODELS["core::time::Duration::subsec_millis"] = dur_sub(1000000, True)
MODELS["core::time::Duration::subsec_micros"] = dur_sub(1000, True)


def width(t):
    from interp import WID
    return WID.get(t["n"], 64) // 8


def tob(endian):
    def m(I, st, args, ctx):
        t = ty0(I, ctx)
        if t is None or t["k"] not in ("int", "uint"):
            return None
        w = width(t)
        if w == 1:
            return ret(st, one(args[0]))
        nm = f"{endian}{w}"
        FIXLEN[nm] = w
        INJECTIVE.add(nm)
        return ret(st, sapp(nm, args[0]))
    return m


def fromb(endian):
    def m(I, st, args, ctx):
        t = ctx.dt
        if t is None or t["k"] not in ("int", "uint"):
            return None
        w = width(t)
        v = I.deref(st, args[0])
        r = sapp(f"un{endian}{w}", v)
        I.note(r, t)
        return ret(st, r)
    return m


for _e in ("le", "be", "ne"):
    intm(f"to_{_e}_bytes", tob("le" if _e == "ne" else _e))
    intm(f"from_{_e}_bytes", fromb("le" if _e == "ne" else _e))
for _e in ("le", "be"):
    for _w in (2, 4, 8, 16):
        def _mk(nm):
            def f(v):
                if v.op == "app" and v.a[0] == nm:
                    return v.a[1]
                return None
            return f
        SIMPL[f"un{_e}{_w}"] = _mk(f"{_e}{_w}")
        FIXLEN[f"{_e}{_w}"] = _w
        INJECTIVE.add(f"{_e}{_w}")


# ------------------------------------------------------------------ crypto / encodings
@model("bs58::encode", "bs58::decode")
def m_b58(I, st, args, ctx):
    return ret(st, mk("b58builder", ctx.callee["name"], I.reify(st, args[0])))


@model("bs58::encode::EncodeBuilder::into_string", "bs58::encode::EncodeBuilder::into_vec")
def m_b58e(I, st, args, ctx):
    b = I.deref(st, args[0])
    if b.op != "b58builder":
        return None
    return ret(st, sapp("b58enc", b.a[1]))


@model("bs58::decode::DecodeBuilder::into_vec")
def m_b58d(I, st, args, ctx):
    b = I.deref(st, args[0])
    if b.op != "b58builder":
        return None
    return ret(st, sapp("b58dec", b.a[1]))


def _simpl_b58dec(v):
    if v.op == "app" and v.a[0] == "b58enc":
        return ok(v.a[1])
    return None


SIMPL["b58dec"] = _simpl_b58dec


@model("Digest::digest")
def m_digest(I, st, args, ctx):
    t = ctx.targ(0)
    s = t["s"] if t else "?"
    nm = "sha256" if "Sha256" in s or "OidSha256" in s else "digest<" + s + ">"
    FIXLEN["sha256"] = 32
    return ret(st, sapp(nm, I.reify(st, args[0])))


@model("Digest::new", "Default::default<sha>")
def m_dig_new(I, st, args, ctx):
    t = ctx.targ(0)
    s = t["s"] if t else "?"
    return ret(st, mk("adt", "hasher", "", ("alg", "buf"), sym("sha256" if "Sha256" in s or "OidSha256" in s else s), EMPTY))


@model("Digest::update", "Update::update")
def m_dig_up(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op != "adt" or v.a[0] != "hasher":
        return None
    setv(I, st, args[0], mk("adt", "hasher", "", ("alg", "buf"), v.a[3], cat(v.a[4], I.reify(st, args[1]))))
    return ret(st, UNIT)


@model("Digest::chain_update")
def m_dig_chain(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op != "adt" or v.a[0] != "hasher":
        return None
    return ret(st, mk("adt", "hasher", "", ("alg", "buf"), v.a[3], cat(v.a[4], I.reify(st, args[1]))))


@model("Digest::finalize")
def m_dig_fin(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op != "adt" or v.a[0] != "hasher":
        return None
    return ret(st, sapp(v.a[3].a[0], v.a[4]))


# ------------------------------------------------------------------ formatting
def fmt_arg(kind):
    def m(I, st, args, ctx):
        v = args[0]
        t = argty(I, ctx, 0) or ctx.targ(0)
        return disp(I, st, v, t, ctx, kind, lambda s: mk("fmtarg", s))
    return m


def disp(I, st, v, t, ctx, kind, wrap=lambda s: s):
    """text of a value: [Out] with the string"""
    cr = ctx.ccrate
    v = I.deref(st, v)
    while t is not None and t["k"] == "ref":
        t = I.p.types[cr][t["e"]]
    if kind == "display" and t is not None:
        if t["k"] == "str" or t.get("p") in ("alloc::string::String", "alloc::borrow::Cow"):
            return ret(st, wrap(v))
        if t["k"] in ("uint", "int"):
            return ret(st, wrap(decimal(v)))
        if t["k"] == "adt" and t.get("p") == "core::fmt::Arguments":
            return ret(st, wrap(v))
        r2 = ctx.callee.get("r2")
        b = I.p.bodies.get(r2["key"]) if r2 else None
        if b is not None and b.kind == "fn" and not t.get("p", "").endswith("Error"):
            cell = I.newcell(st, ("fmt", ctx.fr, ctx.bb, str(ctx.sub)), EMPTY)
            outs = []
            for o in I.exec_fn(st, b.key, [v, cell], ctx.fr, (ctx.bb, ctx.sub, "fmt")):
                if o.kind == "ret":
                    s = I.load(o.st, cell.a[0], ())
                    o.st.cells.pop(cell.a[0], None)
                    for s2 in I.assume(o.st, is_(o.val, tm.RES, "Ok")):
                        outs.append(_Out("ret", s2, wrap(s)))
                else:
                    outs.append(o)
            return outs
    tn = t["s"] if t else "?"
    return ret(st, wrap(sapp(f"{kind}<{tn}>", I.reify(st, v))))


def decimal(v):
    if v.op == "int":
        return strlit(str(v.a[0]))
    return sapp("dec", v)


MODELS["core::fmt::rt::Argument::new_display"] = fmt_arg("display")
MODELS["core::fmt::rt::Argument::new_debug"] = fmt_arg("debug")
MODELS["core::fmt::rt::Argument::new_lower_hex"] = fmt_arg("hex")
MODELS["core::fmt::rt::Argument::new_pointer"] = fmt_arg("addr")


@model("ToString::to_string")
def m_tostring(I, st, args, ctx):
    t = ctx.targ(0) or argty(I, ctx, 0)
    return disp(I, st, args[0], t, ctx, "display")


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "core::fmt::Arguments::new_const")
def m_fromstr(I, st, args, ctx):
    v = I.deref(st, args[0])
    return ret(st, v)


@model("core::fmt::Arguments::new")
def m_args(I, st, args, ctx):
    tpl = I.reify(st, args[0])
    av = I.reify(st, args[1])
    bs = []
    if tpl.op != "seq":
        return None
    for s in tpl.a:
        if s.op == "el" and s.a[0].op == "int":
            bs.append(s.a[0].a[0])
        elif s.op == "lit":
            bs.extend(s.a[0].encode("latin-1", "replace"))
        else:
            return None
    pieces = []
    i = 0
    ai = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            pieces.append(strlit(bytes(bs[i:i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            pieces.append(strlit(bytes(bs[i:i + ln]).decode("utf8", "replace")))
            i += ln
        else:
            spec = 0
            if b & 1:
                spec = tuple(bs[i:i + 4])
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                ai = bs[i] | bs[i + 1] << 8
                i += 2
            x = index(av, Int(ai))
            ai += 1
            if x.op == "fmtarg":
                x = x.a[0]
            if b & 7:
                x = sapp("padded", x, Int(b))
            pieces.append(x)
    return ret(st, cat(*pieces) if pieces else EMPTY)


@model("alloc::fmt::format")
def m_format(I, st, args, ctx):
    return ret(st, args[0])


@model("core::fmt::Formatter::write_fmt", "core::fmt::Formatter::write_str", "Write::write_fmt", "Write::write_str")
def m_writefmt(I, st, args, ctx):
    if args[0].op != "ref":
        return None
    v = I.deref(st, args[0])
    t = argty(I, ctx, 0)
    if ctx.callee.get("trait") and not (t is not None and t.get("p") in ("alloc::string::String", "core::fmt::Formatter")):
        return None
    setv(I, st, args[0], cat(v, I.reify(st, args[1])))
    return ret(st, ok(UNIT))


@model("Display::fmt")
def m_displayfmt(I, st, args, ctx):
    t = ctx.targ(0) or argty(I, ctx, 0)
    if args[1].op != "ref":
        return None
    outs = []
    for o in disp(I, st, args[0], t, ctx, "display"):
        if o.kind == "ret":
            setv(I, o.st, args[1], cat(I.deref(o.st, args[1]), o.val))
            o = _Out("ret", o.st, ok(UNIT))
        outs.append(o)
    return outs


# text never containing a line break
NONL = {"b58enc", "dec", "display<u64>"}


def _simpl_lines(v):
    r = split_lines(v)
    return r


def nonl(t):
    return t.op == "app" and t.a[0] in NONL


def split_lines(v):
    """lines of a text made of literals, line-break-free pieces and line-aligned comprehensions"""
    out = []          # segments of the result sequence
    cur = EMPTY       # current partial line
    for s in segs_of(v):
        if s.op == "lit":
            parts = s.a[0].split("\n")
            for p in parts[:-1]:
                out.append(mk("el", cat(cur, strlit(p))))
                cur = EMPTY
            cur = cat(cur, strlit(parts[-1]))
        elif s.op == "sp" and nonl(s.a[0]):
            cur = cat(cur, s.a[0])
        elif s.op == "comp" and cur is EMPTY and len(s.a) == 3 and s.a[2].a[0] is TRUE:
            body = s.a[2].a[1]
            last = segs_of(body)[-1]
            if not (last.op == "lit" and last.a[0].endswith("\n")):
                return None
            b = split_lines(body)
            if b is None:
                return None
            out.append(mk("comp", s.a[0], s.a[1], mk("alt", TRUE, b)))
        else:
            return None
    if cur is not EMPTY:
        out.append(mk("el", cur))
    return seq_of(out)


SIMPL["lines"] = _simpl_lines


@model("core::str::lines")
def m_lines(I, st, args, ctx):
    return ret(st, stream(dseq(sapp("lines", I.reify(st, args[0])))))


@model("core::str::split")
def m_split(I, st, args, ctx):
    v = I.reify(st, args[0])
    p = I.deref(st, args[1])
    return ret(st, stream(dseq(sapp("split", v, p))))


@model("core::str::trim", "core::str::trim_end", "core::str::trim_start", "core::str::trim_matches", "core::str::trim_start_matches",
       "core::str::trim_end_matches", "core::str::to_lowercase", "core::str::to_uppercase", "core::str::to_ascii_lowercase",
       "core::str::to_ascii_uppercase", "core::str::replace", "core::str::replacen", "core::str::repeat",
       "alloc::str::to_lowercase", "alloc::str::to_uppercase", "alloc::str::to_ascii_lowercase", "alloc::str::to_ascii_uppercase",
       "alloc::str::replace", "alloc::str::replacen")
def m_trim(I, st, args, ctx):
    # text functions that do not keep their argument: uninterpreted, equal only to themselves
    return ret(st, sapp(ctx.callee["name"], *[I.reify(st, a) for a in args]))


# ------------------------------------------------------------------ zeroize / rng
@model("Zeroize::zeroize")
def m_zeroize(I, st, args, ctx):
    a = args[0]
    from interp import Ev
    if a.op == "ref":
        c, p = final_ref(I, st, a)
        old = I.load(st, c, p)
        st.trace = st.trace + (Ev("call", "Zeroize::zeroize", (old,), UNIT, ctx.span, ctx.body.key if ctx.body else ""),)
        I.store(st, c, p, mk("app", "zeroed", length(old) if old.op != "adt" else Int(0)))
    return ret(st, UNIT)


# ------------------------------------------------------------------ SQL connector
SQL = "sql"


def sqlstate(v):
    if v.op == "adt" and v.a[0] == SQL:
        return v
    return mk("adt", SQL, "", ("src", "binds", "pos"), v, EMPTY, Int(0))


@model("marine_sqlite_connector::statement::Statement::cursor")
def m_cursor(I, st, args, ctx):
    return ret(st, sqlstate(I.deref(st, args[0])))


@model("marine_sqlite_connector::cursor::Cursor::bind")
def m_cbind(I, st, args, ctx):
    s = sqlstate(I.deref(st, args[0]))
    vals = I.reify(st, args[1])
    res = mk("app", "sql::bind", s, vals)
    _ev(I, st, "sql::bind", (s, vals), res, ctx)
    c, p = final_ref(I, st, args[0])
    I.store(st, c, p, mk("adt", SQL, "", ("src", "binds", "pos"), s.a[3], vals, s.a[5]))
    return ret(st, res)


@model("marine_sqlite_connector::statement::Statement::bind")
def m_sbind(I, st, args, ctx):
    s = sqlstate(I.deref(st, args[0]))
    i = I.deref(st, args[1])
    v = I.reify(st, args[2])
    res = mk("app", "sql::bind", s, i, v)
    _ev(I, st, "sql::bind", (s, i, v), res, ctx)
    cur = s.a[4]
    b = cat(cur, one(tup(i, v)))
    new = mk("adt", SQL, "", ("src", "binds", "pos"), s.a[3], b, s.a[5])
    if args[0].op == "ref":
        c, p = final_ref(I, st, args[0])
        I.store(st, c, p, new)
    else:
        return None
    return ret(st, res)


@model("marine_sqlite_connector::statement::Statement::next", "marine_sqlite_connector::cursor::Cursor::next")
def m_sqlnext(I, st, args, ctx):
    s = sqlstate(I.deref(st, args[0]))
    res = mk("app", "sql::next", s.a[3], s.a[4], s.a[5])
    _ev(I, st, "sql::next", (s,), res, ctx)
    if args[0].op == "ref":
        c, p = final_ref(I, st, args[0])
        I.store(st, c, p, mk("adt", SQL, "", ("src", "binds", "pos"), s.a[3], s.a[4], add(s.a[5], Int(1))))
    hook = I.opts.get("sqlrow")
    if hook is not None and "cursor" in ctx.callee["key"]:
        # the rows of the table are known: (formula, row) alternatives for the row this step may yield
        alts = hook(I, st, s)
        if alts is not None:
            out = []
            opt = fld(res, RES, "Ok", "0")
            for f, v in ((NOT(is_(res, RES, "Ok")), res), (AND(is_(res, RES, "Ok"), is_(opt, OPT, "None")), ok(NONE))):
                out += [_Out("ret", x, v) for x in I.assume(st.copy(), f)]
            for g, row in alts:
                f = AND(is_(res, RES, "Ok"), is_(opt, OPT, "Some"), g)
                out += [_Out("ret", x, ok(some(row))) for x in I.assume(st.copy(), f)]
            return out
    return ret(st, res)


def _ev(I, st, name, args, res, ctx):
    from interp import Ev
    st.trace = st.trace + (Ev("call", name, tuple(args), res, ctx.span, ctx.body.key if ctx.body else ""),)


VALP = "marine_sqlite_connector::Value"
for _m, _v in (("as_integer", "Integer"), ("as_string", "String"), ("as_binary", "Binary"), ("as_float", "Float")):
    def _mkval(v):
        def f(I, st, args, ctx):
            x = I.deref(st, args[0])
            if x.op == "adt":
                return ret(st, some(x.a[3]) if x.a[1] == v else NONE)
            return None
        return f
    MODELS[VALP + "::" + _m] = _mkval(_v)


# ------------------------------------------------------------------ logging: no effect on the graph
@model("log::__private_api::log", "log::max_level", "log::__private_api::enabled")
def m_log(I, st, args, ctx):
    if ctx.callee["name"] == "log":
        return ret(st, UNIT)
    return ret(st, sym("log_level"))


@model("ref_cast::layout::assert_layout")
def m_layout(I, st, args, ctx):
    return ret(st, UNIT)


# ------------------------------------------------------------------ algebra of the external key types (trusted base)
# names that denote the same function
ALIAS = {
    "ed25519_dalek::verifying::VerifyingKey::as_bytes": "ed25519_dalek::verifying::VerifyingKey::to_bytes",
    "ed25519_dalek::signing::SigningKey::as_bytes": "ed25519_dalek::signing::SigningKey::to_bytes",
    "ed25519_dalek::Signature::from_slice": "TryFrom<&[u8]->ed25519_dalek::Signature>",
    "ed25519::Signature::from_slice": "TryFrom<&[u8]->ed25519_dalek::Signature>",
    "ed25519::Signature::try_from": "TryFrom<&[u8]->ed25519_dalek::Signature>",
}
ED_SIG = "TryFrom<&[u8]->ed25519_dalek::Signature>"
tm.OKIF[ED_SIG] = lambda x, *r: eqnum(length(x), Int(64))


@model("ed25519_dalek::Signature::from_bytes", "ed25519::Signature::from_bytes")
def m_edsig(I, st, args, ctx):
    return ret(st, tm.fld(mk("app", ED_SIG, I.deref(st, args[0])), "core::result::Result", "Ok", "0"))


FIXLEN["ed25519_dalek::verifying::VerifyingKey::to_bytes"] = 32
FIXLEN["ed25519_dalek::signing::SigningKey::to_bytes"] = 32
FIXLEN["ed25519_dalek::signing::SigningKey::to_keypair_bytes"] = 64
FIXLEN["libsecp256k1::PublicKey::serialize_compressed"] = 33
FIXLEN["libsecp256k1::SecretKey::serialize"] = 32
FIXLEN["libp2p_identity::ed25519::PublicKey::to_bytes"] = 32
FIXLEN["libp2p_identity::secp256k1::PublicKey::to_bytes"] = 33
FIXLEN["libp2p_identity::secp256k1::SecretKey::to_bytes"] = 32
FIXLEN["libp2p_identity::ed25519::Keypair::to_bytes"] = 64


def _inv(f, g, wrap):
    """f(g(x), ...) = wrap(x)"""
    def s(v, *rest):
        if v.op == "app" and v.a[0] == g:
            return wrap(v.a[1])
        return None
    SIMPL[f] = s


_inv("ed25519_dalek::verifying::VerifyingKey::from_bytes", "ed25519_dalek::verifying::VerifyingKey::to_bytes", ok)
_inv("ed25519_dalek::signing::SigningKey::from_bytes", "ed25519_dalek::signing::SigningKey::to_bytes", lambda x: x)
_inv("ed25519_dalek::signing::SigningKey::from_keypair_bytes", "ed25519_dalek::signing::SigningKey::to_keypair_bytes", ok)
_inv("libsecp256k1::PublicKey::parse_slice", "libsecp256k1::PublicKey::serialize_compressed", ok)
_inv("libsecp256k1::PublicKey::parse_compressed", "libsecp256k1::PublicKey::serialize_compressed", ok)
_inv("libsecp256k1::SecretKey::parse_slice", "libsecp256k1::SecretKey::serialize", ok)
_inv("libsecp256k1::SecretKey::parse", "libsecp256k1::SecretKey::serialize", ok)


@model("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def m_unwrap_or_default(I, st, args, ctx):
    d = default_of(I, ctx.dt, ctx)
    if d is None:
        return None
    v = args[0]
    opt = ctx.callee["key"].startswith("core::option") or "option" in (ctx.callee.get("impl_adt") or "")
    path, var = (tm.OPT, "Some") if opt else (tm.RES, "Ok")
    out = []
    for s in I.assume(st.copy(), is_(v, path, var)):
        out.append(_Out("ret", s, fld(v, path, var, "0")))
    for s in I.assume(st.copy(), NOT(is_(v, path, var))):
        out.append(_Out("ret", s, d))
    return out


def opt_args(names, idxs):
    """iterate over an Option or Result: split on whether it holds a value"""
    def wrap(m):
        def f(I, st, args, ctx):
            for i in idxs:
                t = argty(I, ctx, i) if i < len(args) else None
                if t is None or t["k"] != "adt" or t["p"] not in (tm.OPT, tm.RES):
                    continue
                v = I.deref(st, args[i])
                if v.op in ("adt", "stream"):
                    continue
                full = "Some" if t["p"] == tm.OPT else "Ok"
                outs = []
                for ss, x in zip(branch(I, st, is_(v, t["p"], full)), (one(fld(v, t["p"], full, "0")), EMPTY)):
                    for s in ss:
                        r = f(I, s, list(args[:i]) + [stream(dseq(x))] + list(args[i + 1:]), ctx)
                        if r is None:
                            return None
                        outs += r
                return outs
            return m(I, st, args, ctx)
        return f
    for n in names:
        if n in MODELS:
            MODELS[n] = wrap(MODELS[n])


opt_args(["IntoIterator::into_iter", "core::option::Option::iter", "core::option::Option::into_iter", "core::result::Result::iter",
          "core::result::Result::into_iter"], (0,))
opt_args(["Iterator::chain", "Iterator::zip", "Extend::extend"], (1,))


@model("core::array::map")
def m_array_map(I, st, args, ctx):
    s = I.deref(st, args[0])
    if s.op == "seq" and all(x.op == "el" for x in s.a) and len(s.a) <= 16:
        todo = [(st, [])]
        outs = []
        for i, x in enumerate(s.a):
            nxt = []
            for s1, got in todo:
                for o in I.call_value(s1, args[1], [x.a[0]], ctx, ("amap", i)):
                    if o.kind == "ret":
                        nxt.append((o.st, got + [o.val]))
                    else:
                        outs.append(o)
            todo = nxt
        return outs + [_Out("ret", s1, cat(*[one(y) for y in got]) if got else EMPTY) for s1, got in todo]
    return I.prelude(st, "collect_vec", [stream(mk("dmap", dseq(s), args[1]))], ctx)


def _own_iterator():
    """a type of the repository that is an iterator itself is its own iterator"""
    base = MODELS["IntoIterator::into_iter"]

    def m(I, st, args, ctx):
        r = base(I, st, args, ctx)
        if r is None:
            t = ctx.targ(0)
            if t and t.get("k") == "adt" and t["p"].split("::")[0] not in ("core", "alloc", "std", "hashbrown", "nonempty"):
                return ret(st, args[0])
        return r
    MODELS["IntoIterator::into_iter"] = m


_own_iterator()


@seqm("as_ptr", "as_mut_ptr")
def m_as_ptr(I, st, args, ctx):
    return ret(st, mk("app", "addr<ptr>", sv(I, st, args[0])))
