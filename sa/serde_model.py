"""The serde data model over terms.

A written value is a token:
  tok("bytes"|"list"|"str"|"num", X)     byte string, list of bytes, text, number
  tok("own", type, X)                    X written by the Serialize impl of its own type
  tok("struct", n1, t1, n2, t2, ...)     named fields in the order written
  tok("variant", idx, name, t)           enum variant with one payload (t = UNIT for none)
Two formats: "text" (human readable; byte strings become lists of numbers, structs are matched by field name, variants
by name) and "bin" (byte strings stay byte strings, structs are positional, variants by index)."""
from term import *
import term as tm
import re
import models as md
from models import model, ret, setv, _Out

WIRE = "serde_wire"
BYTES, BYTEBUF, BYTEARR = "serde_bytes::bytes::Bytes", "serde_bytes::bytebuf::ByteBuf", "serde_bytes::bytearray::ByteArray"


def ok_(v):
    return adt(tm.RES, "Ok", ("0",), (v,))


def fail(st, why):
    return ret(st, adt(tm.RES, "Err", ("0",), (sapp("serde_refuses", strlit(why)),)))


def ser(fmt):
    return mk("ser", fmt)


def de(fmt, t):
    return mk("de", fmt, t)


def tyof(I, ctx, n):
    """name of the n-th type argument of the callee, references peeled"""
    a = ctx.callee.get("a") or []
    if n >= len(a):
        return None
    ts = I.p.types[ctx.ccrate]
    t = ts[a[n]]
    while t["k"] == "ref" or (t["k"] == "adt" and t["p"].split("::")[-1] in ("Box", "Cow")):
        t = ts[t["e"] if t["k"] == "ref" else t["a"][0]]
    return tystr(ts, t)


def tystr(ts, t):
    k = t["k"]
    if k == "adt":
        p = t["p"]
        if p == "alloc::string::String":
            return "str"
        if p == "alloc::vec::Vec":
            return "[" + tystr(ts, ts[t["a"][0]]) + "]"
        return p + ("<" + ",".join(tystr(ts, ts[x]) for x in t["a"]) + ">" if t["a"] else "")
    if k == "slice":
        return "[" + tystr(ts, ts[t["e"]]) + "]"
    if k in ("int", "uint"):
        return t["n"]
    if k == "str":
        return "str"
    return t["s"]


def own(fmt, ty, v):
    """what the Serialize impl of a foreign type writes"""
    if ty == BYTES or ty == BYTEBUF:
        return mk("tok", "list" if fmt == "text" else "bytes", v)
    if ty == "[u8]":
        return mk("tok", "list", v)
    if ty == "str":
        return mk("tok", "str", v)
    if ty in ("u8", "u16", "u32", "u64", "usize"):
        return mk("tok", "num", v)
    return mk("tok", "own", ty, v)


LOCAL = ("fluence_keypair", "trust_graph", "service")


def written(I, st, fmt, ty, v, ctx, unfold=False):
    """[(state, token)] for a value of type ty written by its own impl; adapters generated for `serde(with)` are followed"""
    if ty.split("::")[0] in LOCAL and (unfold or "__SerializeWith" in ty):
        b = impl_of(I, ty, "Serialize", "serialize")
        if b:
            out = []
            for o in I.exec_fn(st, b.key, [v, ser(fmt)], ctx.fr, (ctx.bb, ctx.sub, "written")):
                if o.kind == "ret" and o.val.op == "adt" and o.val.a[1] == "Ok" and o.val.a[3].op == "tok":
                    out.append((o.st, o.val.a[3]))
                else:
                    return None
            return out
    return [(st, own(fmt, ty, v))]


@model("Serialize::serialize")
def m_serialize(I, st, args, ctx):
    s = I.deref(st, args[1])
    ty = tyof(I, ctx, 0)
    if s.op != "ser" or ty is None:
        return None
    w = written(I, st, s.a[0], ty, I.reify(st, args[0]), ctx)
    return None if w is None else [_Out("ret", s2, ok_(t)) for s2, t in w]


def simple(kind):
    def m(I, st, args, ctx):
        s = I.deref(st, args[0])
        if s.op != "ser":
            return None
        k = "list" if kind == "bytes" and s.a[0] == "text" else kind
        return ret(st, ok_(mk("tok", k, I.reify(st, args[1]))))
    return m


md.MODELS["Serializer::serialize_bytes"] = simple("bytes")
md.MODELS["Serializer::serialize_str"] = simple("str")
for _n in ("u8", "u16", "u32", "u64"):
    md.MODELS["Serializer::serialize_" + _n] = simple("num")


@model("Serializer::is_human_readable", "Deserializer::is_human_readable")
def m_human(I, st, args, ctx):
    s = I.deref(st, args[0])
    if s.op not in ("ser", "de"):
        return None
    return ret(st, TRUE if s.a[0] == "text" else FALSE)


@model("Serializer::serialize_newtype_struct")
def m_newtype(I, st, args, ctx):
    s = I.deref(st, args[0])
    ty = tyof(I, ctx, 1)
    if s.op != "ser" or ty is None:
        return None
    w = written(I, st, s.a[0], ty, I.reify(st, args[2]), ctx)
    return None if w is None else [_Out("ret", s2, ok_(t)) for s2, t in w]


@model("Serializer::serialize_newtype_variant")
def m_newvariant(I, st, args, ctx):
    s = I.deref(st, args[0])
    ty = tyof(I, ctx, 1)
    if s.op != "ser" or ty is None:
        return None
    i, n = I.reify(st, args[2]), I.reify(st, args[3])
    w = written(I, st, s.a[0], ty, I.reify(st, args[4]), ctx)
    return None if w is None else [_Out("ret", s2, ok_(mk("tok", "variant", i, n, t))) for s2, t in w]


@model("Serializer::serialize_unit_variant")
def m_unitvariant(I, st, args, ctx):
    s = I.deref(st, args[0])
    if s.op != "ser":
        return None
    return ret(st, ok_(mk("tok", "variant", I.reify(st, args[2]), I.reify(st, args[3]), UNIT)))


@model("Serializer::serialize_struct", "Serializer::serialize_tuple_struct", "Serializer::serialize_tuple")
def m_struct(I, st, args, ctx):
    s = I.deref(st, args[0])
    if s.op != "ser":
        return None
    return ret(st, ok_(mk("serst", s.a[0])))


@model("SerializeStruct::serialize_field")
def m_field(I, st, args, ctx):
    s = I.deref(st, args[0])
    ty = tyof(I, ctx, 1)
    if s.op != "serst" or ty is None:
        return None
    return push_field(I, st, args[0], s, I.reify(st, args[1]), ty, I.reify(st, args[2]), ctx)


def push_field(I, st, ref, s, name, ty, v, ctx):
    w = written(I, st, s.a[0], ty, v, ctx)
    if w is None:
        return None
    for s2, t in w:
        setv(I, s2, ref, mk("serst", *s.a, name, t))
    return [_Out("ret", s2, ok_(UNIT)) for s2, _ in w]


@model("SerializeTupleStruct::serialize_field", "SerializeTuple::serialize_element")
def m_tfield(I, st, args, ctx):
    s = I.deref(st, args[0])
    ty = tyof(I, ctx, 1)
    if s.op != "serst" or ty is None:
        return None
    return push_field(I, st, args[0], s, UNIT, ty, I.reify(st, args[1]), ctx)


@model("SerializeStruct::end", "SerializeTupleStruct::end", "SerializeTuple::end")
def m_end(I, st, args, ctx):
    s = I.deref(st, args[0])
    if s.op != "serst":
        return None
    return ret(st, ok_(mk("tok", "struct", *s.a[1:])))


# ------------------------------------------------------------------ reading
def read_own(I, st, fmt, t, ty, ctx):
    """Deserialize impl of type ty applied to token t"""
    k = t.a[0]
    if k == "own":
        if t.a[1] == ty:
            return ret(st, ok_(t.a[2]))
        w = written(I, st, fmt, t.a[1], t.a[2], ctx, unfold=True)
        if w is None or any(x.a[0] == "own" for _, x in w):
            return None
        outs = []
        for s2, x in w:
            r = read_own(I, s2, fmt, x, ty, ctx)
            if r is None:
                return None
            outs += r
        return outs
    if ty is not None and ty.split("::")[0] in LOCAL:
        b = impl_of(I, ty, "Deserialize", "deserialize")
        return I.exec_fn(st, b.key, [de(fmt, t)], ctx.fr, (ctx.bb, ctx.sub, "read")) if b else None
    if ty == BYTEBUF or ty == "[u8]" and k == "list":
        if k in ("bytes", "list"):
            return ret(st, ok_(t.a[1]))
    if ty == "[u8]" and k in ("bytes", "str") or ty == "str" and k in ("list", "num"):
        return fail(st, f"a {k} is not read as {ty}")
    if ty == "str" and k == "str" or ty in ("u8", "u16", "u32", "u64", "usize") and k == "num":
        return ret(st, ok_(t.a[1]))
    return None


@model("Deserialize::deserialize")
def m_deserialize(I, st, args, ctx):
    s = I.deref(st, args[0])
    ty = tyof(I, ctx, 0)
    if s.op != "de" or ty is None:
        return None
    return read_own(I, st, s.a[0], s.a[1], ty, ctx)


ALT = {"visit_borrowed_bytes": "visit_bytes", "visit_byte_buf": "visit_bytes", "visit_borrowed_str": "visit_str",
       "visit_string": "visit_str"}


def impl_of(I, ty, trait, name):
    """the method body of a local type's trait impl: body, False (impl without that method) or None (no such impl)"""
    if ty is None or "::" not in ty:
        return None
    ty = ty.split("<")[0]
    found = None
    for b in I.p.bodies.values():
        if b.kind == "fn" and b.self_adt == ty and f" as {trait}>::" in b.short:
            if b.name == name:
                return b
            found = False
    return found


def visit(I, st, v, names, arg, ctx):
    ty = tyof(I, ctx, len(ctx.callee.get("a") or ()) - 1)
    bs = [impl_of(I, ty, "Visitor", n) for n in names]
    if all(b is None for b in bs):
        return None
    b = next((b for b in bs if b), None)
    if b is None:
        return fail(st, f"the reader has no {names[0]}")
    return I.exec_fn(st, b.key, [v, arg], ctx.fr, (ctx.bb, ctx.sub, names[0]))


def dispatch(I, st, fmt, t, req, v, ctx, fields=None):
    k = t.a[0]
    if req == "newtype_struct":
        return visit(I, st, v, ["visit_newtype_struct"], de(fmt, t), ctx)
    if k == "list":
        if req in ("any", "seq", "bytes", "byte_buf", "tuple"):
            return visit(I, st, v, ["visit_seq"], md.stream(md.dseq(t.a[1])), ctx)
        return fail(st, f"a list of numbers is not a {req}")
    if k == "bytes":
        if req in ("any", "bytes"):
            return visit(I, st, v, ["visit_borrowed_bytes", "visit_bytes"], t.a[1], ctx)
        if req == "byte_buf":
            return visit(I, st, v, ["visit_byte_buf", "visit_bytes"], t.a[1], ctx)
        return None
    if k == "str":
        if req in ("any", "str", "identifier"):
            return visit(I, st, v, ["visit_borrowed_str", "visit_str"], t.a[1], ctx)
        if req == "string":
            return visit(I, st, v, ["visit_string", "visit_str"], t.a[1], ctx)
        if req in ("seq", "struct", "map", "u8", "u64"):
            return fail(st, f"a text is not a {req}")
        return None
    if k == "num":
        if req in ("any", "u64", "identifier"):
            return visit(I, st, v, ["visit_u64"], t.a[1], ctx)
        return None
    if k == "struct":
        toks = [(t.a[i], t.a[i + 1]) for i in range(1, len(t.a), 2)]
        if req == "struct" and fmt == "text":
            names = elems(fields)
            if names is None:
                return None
            w = {n: x for n, x in toks}
            if len(w) != len(toks):
                return fail(st, "a field is written twice")
            if any(n not in w for n in names):
                return fail(st, "a field is missing: " + show(next(n for n in names if n not in w)))
            toks = [(n, w[n]) for n in names]
        elif req == "struct" and elems(fields) is not None and len(elems(fields)) != len(toks):
            return fail(st, f"{len(toks)} fields are written, {len(elems(fields))} are read")
        elif req not in ("struct", "tuple_struct", "tuple", "seq"):
            return None
        acc = mk("seqacc", fmt, *[x for _, x in toks])
        return visit(I, st, v, ["visit_seq"], acc, ctx)
    if k == "variant" and req == "enum":
        return visit(I, st, v, ["visit_enum"], mk("enumacc", fmt, *t.a[1:]), ctx)
    return None


def elems(x):
    """the elements of a sequence term of known length"""
    if x is None:
        return None
    n = tm.length(x)
    if n.op != "int":
        return None
    return [tm.index(x, Int(i)) for i in range(n.a[0])]


def request(req, vi, fi=None):
    def m(I, st, args, ctx):
        s = I.deref(st, args[0])
        if s.op != "de":
            return None
        f = I.reify(st, args[fi]) if fi is not None else None
        return dispatch(I, st, s.a[0], s.a[1], req, args[vi], ctx, f)
    return m


for _r in ("any", "bytes", "byte_buf", "str", "string", "seq", "u8", "u16", "u32", "u64", "identifier", "map"):
    md.MODELS["Deserializer::deserialize_" + _r] = request(_r, 1)
md.MODELS["Deserializer::deserialize_newtype_struct"] = request("newtype_struct", 2)
md.MODELS["Deserializer::deserialize_tuple"] = request("tuple", 2)
md.MODELS["Deserializer::deserialize_tuple_struct"] = request("tuple_struct", 3)
md.MODELS["Deserializer::deserialize_struct"] = request("struct", 3, 2)
md.MODELS["Deserializer::deserialize_enum"] = request("enum", 3, 2)


@model("SeqAccess::next_element")
def m_next_element(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op == "stream":
        outs = md.pull(I, st, args[0], ctx)
        if outs is None:
            return None
        return [_Out("ret", o.st, ok_(o.val)) if o.kind == "ret" else o for o in outs]
    if v.op != "seqacc":
        return None
    if len(v.a) == 1:
        return ret(st, ok_(NONE))
    ty = tyof(I, ctx, 1)
    setv(I, st, args[0], mk("seqacc", v.a[0], *v.a[2:]))
    r = read_own(I, st, v.a[0], v.a[1], ty, ctx)
    if r is None:
        return I.opaque(st, "std?serde", [mk("tokof", v.a[1]), strlit(str(ty))], ctx)
    outs = []
    for o in r:
        if o.kind != "ret":
            outs.append(o)
            continue
        yes, no = md.branch(I, o.st, is_(o.val, tm.RES, "Ok"))
        outs += [_Out("ret", x, ok_(some(fld(o.val, tm.RES, "Ok", "0")))) for x in yes]
        outs += [_Out("ret", x, o.val) for x in no]
    return outs


@model("SeqAccess::size_hint")
def m_size_hint(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op == "stream" and v.a[0].op == "dseq":
        return ret(st, some(sub(tm.length(v.a[0].a[0]), v.a[1])))
    return None


@model("EnumAccess::variant")
def m_variant(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op != "enumacc":
        return None
    fmt, idx, name, t = v.a
    ty = tyof(I, ctx, 1)
    tag = mk("tok", "str", name) if fmt == "text" else mk("tok", "num", idx)
    body = impl_of(I, ty, "Deserialize", "deserialize")
    if not body:
        return None
    outs = []
    for o in I.exec_fn(st, body.key, [de(fmt, tag)], ctx.fr, (ctx.bb, ctx.sub, "variant")):
        if o.kind != "ret":
            outs.append(o)
            continue
        yes, no = md.branch(I, o.st, is_(o.val, tm.RES, "Ok"))
        acc = mk("varacc", fmt, t)
        outs += [_Out("ret", s, ok_(tup(fld(o.val, tm.RES, "Ok", "0"), acc))) for s in yes]
        outs += [_Out("ret", s, o.val) for s in no]
    return outs


@model("VariantAccess::newtype_variant")
def m_newtype_variant(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op != "varacc":
        return None
    if v.a[1] is UNIT:
        return fail(st, "the variant carries no value")
    return read_own(I, st, v.a[0], v.a[1], tyof(I, ctx, 1), ctx)


@model("VariantAccess::unit_variant")
def m_unit_variant(I, st, args, ctx):
    v = I.deref(st, args[0])
    if v.op != "varacc":
        return None
    return ret(st, ok_(UNIT)) if v.a[1] is UNIT else fail(st, "the variant carries a value")


SERDE_OPS = ("ser", "de", "serst", "seqacc", "enumacc", "varacc")


def guarded(name, f):
    """an exchange with the format that is not followed leaves what depends on it undecided"""
    def m(I, st, args, ctx):
        r = f(I, st, args, ctx) if f else None
        if r is not None:
            return r
        if any(I.deref(st, a).op in SERDE_OPS for a in args):
            I.unmodelled.add("serde " + name)
            return I.opaque(st, "std?serde " + name, list(args), ctx)
        return None
    return m


_TR = ("Serialize::", "Serializer::", "Deserialize::", "Deserializer::", "SerializeStruct::", "SerializeTupleStruct::", "SerializeTuple::",
       "SeqAccess::", "EnumAccess::", "VariantAccess::")
for _n in [n for n in md.MODELS if n.startswith(_TR)]:
    md.MODELS[_n] = guarded(_n, md.MODELS[_n])
for _n in ("Serializer::serialize_seq", "Serializer::serialize_map", "Serializer::collect_str", "Serializer::serialize_some",
           "Serializer::serialize_none", "Serializer::serialize_unit", "Serializer::serialize_struct_variant",
           "Serializer::serialize_tuple_variant", "Serializer::collect_seq", "Serializer::collect_map", "Serializer::serialize_char",
           "Serializer::serialize_bool", "Serializer::serialize_i64", "Serializer::serialize_i32", "SerializeStruct::skip_field",
           "Deserializer::deserialize_option", "Deserializer::deserialize_ignored_any", "Deserializer::deserialize_unit",
           "Deserializer::deserialize_bool", "Deserializer::deserialize_char", "Deserializer::deserialize_i64",
           "SeqAccess::next_element_seed", "EnumAccess::variant_seed", "VariantAccess::struct_variant", "VariantAccess::tuple_variant",
           "VariantAccess::newtype_variant_seed"):
    md.MODELS.setdefault(_n, guarded(_n, None))
