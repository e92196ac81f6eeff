"""Rules about trusts, certificates and revocations: C04 - C11."""
from rulelib import *
from rules_keypair import only, KT, KP, A0, A1, A2, A3, roundtrip, const_variant
import models as md

TG = "trust_graph"
A4, A5 = sym("a4"), sym("a5")
NANO = 10 ** 9
PKV = f"{KP}::PublicKey::verify"
PKE = f"{KP}::PublicKey::encode"
PKD = f"{KP}::PublicKey::decode"
SGE = f"{KP}::Signature::encode"
SGD = f"{KP}::Signature::decode"
SIGN = f"{KP}::KeyPair::sign"
PUB = f"{KP}::KeyPair::public"
LEAF = frozenset({PKV, PKE, PKD, SGE, SGD, SIGN, PUB})


class CT:
    def __init__(self, ctx):
        self.ctx = ctx
        self.TRUST = ctx.adt(TG, "Trust")
        self.CERT = ctx.adt(TG, "Certificate")
        self.REV = ctx.adt(TG, "Revocation")
        md.FIXLEN["sha256"] = 32

    def t(self, x, n):
        return fld(x, self.TRUST, "", n)

    def chain(self, c):
        return fld(c, self.CERT, "", "chain")

    def mktrust(self, **kw):
        ns = tuple(tm.FIELDNAMES[self.TRUST])
        return adt(self.TRUST, "", ns, tuple(kw[n] for n in ns))

    def mkcert(self, chain):
        return adt(self.CERT, "", tuple(tm.FIELDNAMES[self.CERT]), (chain,))

    def msg(self, pk, exp, iss):
        return sapp("sha256", cat(sapp(PKE, pk), sapp("le8", secs(exp)), sapp("le8", secs(iss))))

    def tmsg(self, t):
        return self.msg(self.t(t, "issued_for"), self.t(t, "expires_at"), self.t(t, "issued_at"))

    def valid(self, t, pk, now):
        return AND(le(now, self.t(t, "expires_at")), isok(sapp(PKV, pk, self.tmsg(t), self.t(t, "signature"))))

    def certok(self, cert, now, roots=None):
        ch = self.chain(cert)
        k = mk("k", "spec")
        first = index(ch, Int(0))
        n = length(ch)
        g = [NOT(le0(n)), self.valid(first, self.t(first, "issued_for"), now)]
        if roots is not None:
            g.append(md.member(self.t(first, "issued_for"), roots))
        g.append(forall(sub(n, Int(1)), self.valid(index(ch, add(k, Int(1))), self.t(index(ch, k), "issued_for"), now), k))
        return AND(*g)

    def whole(self, t):
        """the trust with its times cut to whole seconds"""
        return self.mktrust(issued_for=self.t(t, "issued_for"), signature=self.t(t, "signature"),
                            expires_at=scale(secs(self.t(t, "expires_at")), NANO),
                            issued_at=scale(secs(self.t(t, "issued_at")), NANO))


def secs(d):
    return divmod_("div", d, Int(NANO))


def sign_fails(o):
    """the path where the signing primitive itself failed"""
    for a, p in o.st.facts.items():
        if a.op == "is" and a.a[0].op == "app" and a.a[0].a[0] == SIGN:
            if (a.a[2] == "Ok") != p:
                return True
    return False


# -------------------------------------------------------------------------------- C04
def c04(ctx):
    CT(ctx)
    deep = [f"{KP}::PublicKey::decode", f"{KP}::PublicKey::from_base58", f"{KP}::Signature::decode", f"{KP}::PublicKey::verify",
            f"{KP}::<KeyFormat as FromStr>::from_str", f"{KP}::<KeyFormat as TryFrom>::try_from"]
    for n in deep:
        ctx.run(n).no_panic("decoder or verifier returns on every input")
    lv = LEAF | {f"{KP}::PublicKey::from_base58"}
    for n in ("Trust::decode", "Trust::convert_from_strings", "Trust::verify", "Certificate::decode",
              "<Certificate as FromStr>::from_str", "Certificate::verify", "Certificate::issue_with_trust",
              "Certificate::new_from_root_trust", "Revocation::verify", "<PublicKeyHashable as FromStr>::from_str"):
        ctx.run(f"{TG}::{n}", leaf=lv).no_panic("decoder, parser, verifier or extender returns on every input")
    ctx.run(f"{TG}::Certificate::issue", leaf=lv).no_panic("extender returns on every input", sign_fails)
    for b in ctx.p.bodies.values():
        if b.key.startswith("trust_graph::public_key_hashable") and b.short.split("::")[-1] in ("visit_str", "visit_bytes", "visit_seq"):
            ctx.run(b, leaf=lv).no_panic("deserialization visitor returns on every input")


# -------------------------------------------------------------------------------- C05
def c05(ctx):
    c = CT(ctx)
    r = ctx.run(f"{TG}::Trust::signature_bytes", leaf=LEAF)
    r.cases("signed message", [("any trust", TRUE, want(c.msg(A0, A1, A2)))])
    r.no_panic("message computation does not panic")
    r = ctx.run(f"{TG}::Trust::create", leaf=LEAF)
    sig = sapp(SIGN, A0, c.msg(A1, A2, A3))
    r.cases("created trust", [("signs the message of the stored fields", isok(sig), want(
        c.mktrust(issued_for=A1, expires_at=A2, issued_at=A3, signature=okv(sig)))),
        ("no trust when signing fails", NOT(isok(sig)), lambda I, st, v, o: "returns a trust although signing failed")])
    r.no_panic("creation does not panic", sign_fails)
    r = ctx.run(f"{TG}::Trust::verify", leaf=LEAF)
    for o in r.rets():
        for e in o.st.trace:
            if e.name == PKV:
                ctx.oblige(e.args[1] is c.tmsg(A0), "verifier uses the same message", r.where,
                           f"verified message {show(e.args[1])[:400]}")
    r = ctx.run(f"{TG}::Trust::new", leaf=LEAF)
    r.cases("plain construction keeps each field", [("any", TRUE, want(
        c.mktrust(issued_for=A0, expires_at=A1, issued_at=A2, signature=A3)))])


# -------------------------------------------------------------------------------- C06
def c06(ctx):
    c = CT(ctx)
    r = ctx.run(f"{TG}::Trust::verify", leaf=LEAF)
    g = c.valid(A0, A1, A2)
    r.cases("verdict", [("unexpired and signed => success", g, want_ok()), ("otherwise => error", NOT(g), want_err())])
    r.no_panic("verification does not panic")


# -------------------------------------------------------------------------------- C07
def revmsg(c, pk, at):
    e = sapp(PKE, pk)
    return sapp("sha256", cat(one(tm.trunc(8, length(e))), e, sapp("le8", secs(at))))


def c07(ctx):
    c = CT(ctx)
    R = c.REV

    def f(x, n):
        return fld(x, R, "", n)
    r = ctx.run(f"{TG}::Revocation::signature_bytes", leaf=LEAF)
    r.cases("signed message", [("any revocation", TRUE, want(revmsg(c, A0, A1)))])
    r.no_panic("message computation does not panic")
    r = ctx.run(f"{TG}::Revocation::verify", leaf=LEAF)
    g = isok(sapp(PKV, f(A0, "revoked_by"), revmsg(c, f(A0, "pk"), f(A0, "revoked_at")), f(A0, "signature")))
    r.cases("verdict", [("signed by the named revoker => success", g, want_ok()), ("otherwise => error", NOT(g), want_err())])
    r.no_panic("verification does not panic")
    ns = tuple(tm.FIELDNAMES[R])

    def mkrev(**kw):
        return adt(R, "", ns, tuple(kw[n] for n in ns))
    r = ctx.run(f"{TG}::Revocation::create", leaf=LEAF)
    sig = sapp(SIGN, A0, revmsg(c, A1, A2))
    r.cases("created revocation", [("signs the message of the stored fields", isok(sig), want(
        mkrev(revoked_by=sapp(PUB, A0), pk=A1, revoked_at=A2, signature=okv(sig))))])
    r.no_panic("creation does not panic", sign_fails)
    ctx.run(f"{TG}::Revocation::new", leaf=LEAF).cases("plain construction keeps each field", [
        ("any", TRUE, want(mkrev(revoked_by=A0, pk=A1, revoked_at=A2, signature=A3)))])


# -------------------------------------------------------------------------------- C08
def c08(ctx):
    c = CT(ctx)
    r = ctx.run(f"{TG}::Certificate::verify", leaf=LEAF)
    g = c.certok(A0, A2, A1)
    r.cases("verdict", [("all links valid => success", g, want_ok()), ("any element invalid => error", NOT(g), want_err())])
    r.no_panic("verification does not panic")


# -------------------------------------------------------------------------------- C09
def extended(c, base, issuer, new):
    """the returned chain is base cut after the issuer's last trust, then new"""
    def chk(I, st, v, o):
        ch = c.chain(v)
        ch = loops_resolve(I, st, ch)
        sg = segs_of(ch)
        if len(sg) < 2 or sg[-1].op != "el" or sg[-1].a[0] is None:
            return f"the new chain {show(ch)[:300]} does not end in the new trust"
        if not equal_under(I, st, sg[-1].a[0], new):
            return f"the added trust is {show(sg[-1].a[0])[:300]} instead of {show(new)[:300]}"
        pre = seq_of(sg[:-1])
        x = length(pre)
        if not equal_under(I, st, pre, subseq(base, Int(0), x)):
            return f"the kept part {show(pre)[:300]} is not the beginning of the existing chain"
        last = index(base, sub(x, Int(1)))
        if not entails(I, st, NOT(le0(x))) or not entails(I, st, tm.eq(c.t(last, "issued_for"), issuer)):
            return f"the kept part (length {show(x)}) does not end with a trust of the issuer"
        k = mk("k", "later")
        f = forall(sub(length(base), x), NOT(tm.eq(c.t(index(base, add(x, k)), "issued_for"), issuer)), k)
        if not entails(I, st, f):
            return f"the chain is not cut after the issuer's last trust (cut at {show(x)})"
        return None
    return chk


def loops_resolve(I, st, t):
    from loops import resolve
    return resolve(I, st, t)


def haskey(c, ch, key):
    k = mk("k", "has")
    return NOT(forall(length(ch), NOT(tm.eq(c.t(index(ch, k), "issued_for"), key)), k))


def c09(ctx):
    c = CT(ctx)
    r = ctx.run(f"{TG}::Certificate::new_from_root_trust", leaf=LEAF)
    iss = c.t(A0, "issued_for")
    g = AND(c.valid(A0, iss, A2), c.valid(A1, iss, A2))
    r.cases("root trust plus issued trust", [("both valid => the two-trust chain", g, want_ok(c.mkcert(els(A0, A1)))),
                                             ("otherwise => error", NOT(g), want_err())])
    r.no_panic("does not panic")
    r = ctx.run(f"{TG}::Certificate::issue_root", leaf=LEAF)
    me = sapp(PUB, A0)
    s2 = sapp(SIGN, A0, c.msg(A1, A2, A3))

    def root(I, st, v, o):
        ch = segs_of(c.chain(v))
        if len(ch) != 2 or any(x.op != "el" for x in ch):
            return f"chain {show(v)[:300]}"
        a, b = ch[0].a[0], ch[1].a[0]
        if not equal_under(I, st, b, c.mktrust(issued_for=A1, expires_at=A2, issued_at=A3, signature=okv(s2))):
            return f"issued trust is {show(b)[:400]}"
        if not equal_under(I, st, c.t(a, "issued_for"), me):
            return "the first trust is not for the root key"
        if not equal_under(I, st, c.t(a, "issued_at"), A3):
            return "the root trust does not carry the issue time"
        if not equal_under(I, st, c.t(a, "signature"), okv(sapp(SIGN, A0, c.tmsg(a)))):
            return "the root trust is not signed over its own fields by the root key"
        e = c.t(a, "expires_at")
        if e is not Int((2 ** 64 - 1) * NANO) and not entails(I, st, le(A2, e)):
            return f"the root trust expires ({show(e)}) before the trust it issues may"
        return None
    r.cases("issue from a root key pair", [("root", TRUE, root)])
    r.no_panic("does not panic", sign_fails)
    # extend with a key pair: (issued_by, for_pk, cert, expires_at, issued_at, cur_time)
    r = ctx.run(f"{TG}::Certificate::issue", leaf=LEAF)
    ch = c.chain(A2)
    g = AND(le(A4, A3), c.certok(A2, A5), haskey(c, ch, me))
    sg = sapp(SIGN, A0, c.msg(A1, A3, A4))
    new = c.mktrust(issued_for=A1, expires_at=A3, issued_at=A4, signature=okv(sg))
    r.cases("extend with a key pair", [
        ("valid request => cut chain plus new trust", AND(g, isok(sg)), want_ok(pred=extended(c, ch, me, new))),
        ("anything else => error", NOT(g), want_err())])
    r.no_panic("does not panic", sign_fails)
    # extend with a trust: (issued_by, trust, cert, cur_time)
    r = ctx.run(f"{TG}::Certificate::issue_with_trust", leaf=LEAF)
    g = AND(le(c.t(A1, "issued_at"), c.t(A1, "expires_at")), c.certok(A2, A3), haskey(c, ch, A0), c.valid(A1, A0, A3))
    r.cases("extend with a supplied trust", [
        ("valid request => cut chain plus the trust", g, want_ok(pred=extended(c, ch, A0, A1))),
        ("anything else => error", NOT(g), want_err())])
    r.no_panic("does not panic")


# -------------------------------------------------------------------------------- C10
def leaf_inverses(ctx):
    """C03: the tagged encodings of keys and signatures decode back (used as lemma)"""
    md._inv(PKD, PKE, ok)
    md._inv(SGD, SGE, ok)
    md._inv(f"{KP}::PublicKey::from_base58", "b58enc_key", ok)
    ctx.assumptions.append("key and signature encodings decode to the same value (property C03)")


def c10(ctx):
    c = CT(ctx)
    leaf_inverses(ctx)
    ctx.assumptions.append("each part fits the one-byte lengths of the format (stated in the property)")
    roundtrip(ctx, f"{TG}::Trust::encode", f"{TG}::Trust::decode", "trust round-trip", result=c.whole(A0), leaf=LEAF, fits=True)
    k = mk("k", "whole")
    n = length(c.chain(A0))
    res = c.mkcert(seq_of([comp(n, [(TRUE, one(c.whole(index(c.chain(A0), k))))], k)]))
    roundtrip(ctx, f"{TG}::Certificate::encode", f"{TG}::Certificate::decode", "certificate round-trip", result=res, leaf=LEAF,
              fits=True, pre=[NOT(le(n, Int(1)))])
    # announced lengths
    r = ctx.run(f"{TG}::Trust::decode", leaf=LEAF)
    pkl = tm.zext(8, index(A0, Int(0)))
    sl = tm.zext(8, index(A0, add(pkl, Int(1))))
    short = OR(le0(length(A0)), lt(length(A0), add(pkl, Int(2))), lt(length(A0), add(add(pkl, sl), Int(18))))
    r.cases("trust bytes", [("shorter than announced => error", short, want_err())])
    r.no_panic("trust bytes: rejected without a panic")
    r = ctx.run(f"{TG}::Certificate::decode", leaf=LEAF)
    cnt = tm.zext(8, index(A0, Int(6)))

    def count(I, st, v, o):
        m = length(loops_resolve(I, st, c.chain(v)))
        return None if equal_under(I, st, m, cnt) else f"the decoded chain has {show(m)} trusts instead of the announced {show(cnt)}"
    r.cases("certificate bytes", [
        ("shorter than the header => error", lt(length(A0), Int(7)), want_err()),
        ("fewer than two trusts announced => error", AND(le(Int(7), length(A0)), lt(cnt, Int(2))), want_err())])
    r.no_panic("certificate bytes: rejected without a panic")
    for o in r.outs:
        for st in r.I.assume(o.st.copy(), isok(o.val)) if o.kind == "ret" else ():
            if feasible(r.I, st):
                e = count(r.I, st, okv(o.val), o)
                ctx.oblige(not e, "certificate bytes: number of trusts", r.where, e or "")



# -------------------------------------------------------------------------------- C11
def printed(r, arg="a1"):
    """[(outcome, text appended to the formatter)] of a Display implementation"""
    out = []
    for o in r.outs:
        if o.kind != "ret":
            continue
        t = r.I.reify(o.st, r.I.load(o.st, ("in", arg), ()))
        sg = segs_of(t)
        if sg and sg[0].op == "sp" and sg[0].a[0] is sym(arg):
            t = seq_of(sg[1:])
        out.append((o, t))
    return out


def trust_lines(c, t):
    return [sapp("b58enc", sapp(PKE, c.t(t, "issued_for"))), sapp("b58enc", sapp(SGE, c.t(t, "signature"))),
            md.decimal(secs(c.t(t, "expires_at"))), md.decimal(secs(c.t(t, "issued_at")))]


def cert_text(c, I, st, text, cert, what):
    """None when text is two header lines and four lines per trust of cert in order"""
    ls = sapp("lines", text)
    n = length(c.chain(cert))
    k = mk("k", "ln")
    body = els(*trust_lines(c, index(c.chain(cert), k)))
    exp = seq_of([comp(n, [(TRUE, body)], k)])
    if not equal_under(I, st, length(ls), add(scale(n, 4), Int(2))):
        return f"{what} has {show(length(ls))[:200]} lines"
    got = subseq(ls, Int(2), length(ls))
    return None if equal_under(I, st, got, exp) else f"{what} prints {show(got)[:500]} after the header"


def parsed(c, ls, i):
    """(formula: four lines parse, trust)"""
    f = [index(ls, add(i, Int(j))) for j in range(4)]
    d = [sapp("b58dec", f[0]), sapp("b58dec", f[1])]
    pk, sg = sapp(PKD, okv(d[0])), sapp(SGD, okv(d[1]))
    e, a = sapp("parse<u64>", f[2]), sapp("parse<u64>", f[3])
    return AND(*[isok(x) for x in (d[0], pk, d[1], sg, e, a)]), c.mktrust(
        issued_for=okv(pk), signature=okv(sg), expires_at=scale(okv(e), NANO), issued_at=scale(okv(a), NANO))


def wire_simpl():
    def s(v, *rest):
        return ok(v.a[1]) if v.op == "app" and v.a[0] == "wire" else None
    md.SIMPL["Deserialize::deserialize"] = s


def c11(ctx):
    c = CT(ctx)
    leaf_inverses(ctx)
    # trust
    r = ctx.run(f"{TG}::<Trust as ToString>::to_string", leaf=LEAF) if ctx.p.find(f"{TG}::<Trust as ToString>::to_string") else None
    if r is None:
        rd = ctx.run(f"{TG}::<Trust as Display>::fmt", leaf=LEAF)
        texts = [(rd, o, t) for o, t in printed(rd)]
    else:
        texts = [(r, o, o.val) for o in r.rets()]
        r.no_panic("printing does not panic")
    nl = strlit("\n")
    tl = trust_lines(c, A0)
    exp = cat(tl[0], nl, tl[1], nl, tl[2], nl, tl[3])
    for rr, o, t in texts:
        ctx.oblige(equal_under(rr.I, o.st, t, exp), "trust text is four lines in order", rr.where, f"prints {show(t)[:500]}")
    r = ctx.run(f"{TG}::Trust::convert_from_strings", leaf=LEAF)
    g, val = parsed(c, els(A0, A1, A2, A3), Int(0))
    r.cases("trust from four lines", [("all parse => that trust", g, want_ok(val)), ("any does not parse => error", NOT(g), want_err())])
    r.no_panic("parsing does not panic")
    r = ctx.run(f"{TG}::Trust::convert_from_strings", leaf=LEAF, args=tl)
    r.cases("trust text round-trip", [("any trust", TRUE, want_ok(c.whole(A0)))])
    # certificate
    r = ctx.run(f"{TG}::<Certificate as Display>::fmt", leaf=LEAF)
    r.no_panic("printing does not panic")
    k = mk("k", "whole")

    def whole(cert):
        return c.mkcert(seq_of([comp(length(c.chain(cert)), [(TRUE, one(c.whole(index(c.chain(cert), k))))], k)]))
    n = 0
    fs = f"{TG}::<Certificate as FromStr>::from_str"
    for o, t in printed(r):
        n += 1
        e = cert_text(c, r.I, o.st, t, A0, "the certificate")
        ctx.oblige(not e, "certificate text is two header lines and four lines per trust in order", r.where, e or "")
        d = ctx.run(fs, leaf=LEAF, args=[t], pre=[a if p else NOT(a) for a, p in o.st.facts.items()])
        d.cases("certificate text round-trip", [("any certificate", TRUE, want_ok(whole(A0)))])
    ctx.oblige(n > 0, "certificate printing has a result", r.where, "no path prints")
    d = ctx.run(fs, leaf=LEAF)
    ls = sapp("lines", A0)
    L = length(ls)
    shape = AND(le(Int(2), L), le0(divmod_("mod", sub(L, Int(2)), Int(4))))
    m = divmod_("div", sub(L, Int(2)), Int(4))
    gk, tk = parsed(c, ls, add(scale(k, 4), Int(2)))
    good = forall(m, gk, k)
    d.cases("certificate from text", [
        ("wrong number of lines => error", NOT(shape), want_err()),
        ("a trust does not parse => error", AND(shape, NOT(good)), want_err()),
        ("well-formed => the trusts in order", AND(shape, good), want_ok(c.mkcert(seq_of([comp(m, [(TRUE, one(tk))], k)]))))])
    d.no_panic("certificate text is rejected without a panic")
    # hashable key wrapper
    W = ctx.adt(TG, "PublicKeyHashable")
    r = ctx.run(f"{TG}::<PublicKeyHashable as Display>::fmt", leaf=LEAF)
    for o, t in printed(r):
        ctx.oblige(equal_under(r.I, o.st, t, sapp("b58enc", sapp(PKE, only(A0, W)))), "wrapper prints base58 of its key", r.where,
                   f"prints {show(t)[:300]}")
        d = ctx.run(f"{TG}::<PublicKeyHashable as FromStr>::from_str", leaf=LEAF, args=[t])
        d.cases("wrapper text round-trip", [("any key", TRUE, want_ok(A0))])
    b = sapp("b58dec", A0)
    g = AND(isok(b), isok(sapp(PKD, okv(b))))
    ctx.run(f"{TG}::<PublicKeyHashable as FromStr>::from_str", leaf=LEAF).cases("wrapper from text", [
        ("base58 of a key => that key", g, want_ok(okv(sapp(PKD, okv(b))))), ("anything else => error", NOT(g), want_err())])
    # serde helpers
    wire_simpl()
    serde_pair(ctx, c, f"{KP}::peerid_serializer", lambda: A0, must=True)
    serde_pair(ctx, c, f"{TG}::certificate_serde::single", lambda: whole(A0), must=False)
    j = mk("k", "wv")
    serde_pair(ctx, c, f"{TG}::certificate_serde::vec",
               lambda: seq_of([comp(length(A0), [(TRUE, one(whole(index(A0, j))))], j)]), must=True)
    dk = ctx.p.bodies[f"{TG}::certificate_serde::vec::deserialize"]
    d = ctx.run(dk, leaf=LEAF | {fs})
    ds = [o for o in d.outs if o.kind == "ret"]
    src = {e.res for o in ds for e in o.st.trace if e.name == "Deserialize::deserialize" and isinstance(e.res, T)}
    if len(src) == 1:
        v = okv(src.pop())
        pj = sapp(fs, index(v, j))
        g = forall(length(v), isok(pj), j)
        d.cases("certificates from a list of texts", [
            ("any text does not parse => error", NOT(g), want_err()),
            ("all parse => those certificates in order", g, lambda I, st, val, o: None if I.truth(st, isok(val)) is False and
             I.truth(st, isok(okv_src(o))) is not True else want_ok(seq_of([comp(length(v), [(TRUE, one(okv(pj)))], j)]))(I, st, val, o))])
    else:
        ctx.unknown("certificates from a list of texts", d.where, "the list of texts is not read in one piece")


def okv_src(o):
    return next(e.res for e in o.st.trace if e.name == "Deserialize::deserialize")


def serde_pair(ctx, c, mod, result, must):
    sk, dk = ctx.p.bodies.get(mod + "::serialize"), ctx.p.bodies.get(mod + "::deserialize")
    if sk is None or dk is None:
        if must:
            raise Missing(mod)
        return
    r = ctx.run(sk, leaf=LEAF)
    r.no_panic("serialization does not panic")
    n = 0
    for o in r.outs:
        if o.kind != "ret":
            continue
        w = None
        v = o.val
        if v.op == "app" and v.a[0] == "Serialize::serialize" and v.a[2] is A1:
            w = v.a[1]
        elif v.op == "app" and v.a[0] in ("Serializer::serialize_str", "Serializer::collect_str") and v.a[1] is A1:
            w = v.a[2]
        elif v.op == "app" and v.a[0] == "SerializeSeq::end":
            for a, p in o.st.facts.items():
                if p and a.op == "all":
                    num, lv, body = a.a
                    if body.op == "is" and body.a[0].op == "app" and body.a[0].a[0] == "SerializeSeq::serialize_element":
                        kk = mk("k", "elem")
                        w = seq_of([comp(num, [(TRUE, one(subst(body.a[0].a[2], {mk("bv", lv): kk})))], kk)])
            if w is None and any(e.name == "SerializeSeq::serialize_element" for e in o.st.trace):
                ctx.unknown("serialized elements", r.where, "element-wise serialization in a form that is not followed")
                n += 1
                continue
            if w is None:
                # nothing written: correct for the empty list only
                w = EMPTY
        if w is None:
            if r.I.truth(o.st, isok(v)) is False or any(
                    a.op == "is" and a.a[0] is v and ((a.a[2] == "Ok") != p) for a, p in o.st.facts.items()):
                continue        # the serializer itself failed
            ctx.unknown("serialized form", r.where, f"unrecognised: {show(v)[:300]}")
            n += 1
            continue
        n += 1
        d = ctx.run(dk, leaf=LEAF, args=[sapp("wire", w)], pre=[a if p else NOT(a) for a, p in o.st.facts.items()])
        for q in d.outs:
            if q.kind != "ret":
                ctx.bad("serde round-trip", d.where, f"deserialization of what was serialized panics: {q.info}")
                continue
            if not feasible(d.I, q.st):
                continue
            e = want_ok(result())(d.I, q.st, q.val, q)
            ctx.oblige(not e, "serde round-trip", d.where, e or "", path=path_of(d.I, q))
    ctx.oblige(n > 0, "serde helper writes something", r.where, "no path serializes")


# -------------------------------------------------------------------------------- C41
def c41(ctx):
    """the byte and text layouts that others have already written or will read"""
    c = CT(ctx)
    ctx.assumptions.append("each part fits the one-byte lengths of the format (stated in the property)")

    def lenbyte(x):
        return one(tm.trunc(8, length(x)))

    def zeros(n):
        return els(*[Int(0)] * n)
    pk, sg = sapp(PKE, c.t(A0, "issued_for")), sapp(SGE, c.t(A0, "signature"))
    r = ctx.run(f"{TG}::Trust::encode", leaf=LEAF)
    r.cases("bytes of a trust", [("any trust", TRUE, want(cat(
        lenbyte(pk), pk, lenbyte(sg), sg, sapp("le8", secs(c.t(A0, "expires_at"))), sapp("le8", secs(c.t(A0, "issued_at"))))))])
    ENC = f"{TG}::Trust::encode"
    r = ctx.run(f"{TG}::Certificate::encode", leaf=LEAF | {ENC})
    k = mk("k", "tr")
    n = length(c.chain(A0))
    te = sapp(ENC, index(c.chain(A0), k))
    r.cases("bytes of a certificate", [("any certificate", TRUE, want(cat(
        zeros(6), one(tm.trunc(8, n)), seq_of([comp(n, [(TRUE, cat(lenbyte(te), te))], k)]))))])
    r = ctx.run(f"{TG}::<Certificate as Display>::fmt", leaf=LEAF)
    m = 0
    for o, t in printed(r):
        ls = sapp("lines", t)
        for i, (nm, w) in enumerate((("format", 2), ("version", 4))):
            m += 1
            got, exp = index(ls, Int(i)), sapp("b58enc", zeros(w))
            ctx.oblige(equal_under(r.I, o.st, got, exp), f"the {nm} line of a certificate's text", r.where, f"it is {show(got)[:200]}")
    ctx.oblige(m > 0, "certificate printing has a result", r.where, "no path prints")


RULES = {"C41": c41, "C11": c11, "C10": c10, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09}
