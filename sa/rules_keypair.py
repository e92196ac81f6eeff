"""Rules about the keypair crate: C01, C02, C03, C33, C34, C35, C37, C44, C45."""
import re
from rulelib import *
import models as md

KP = "fluence_keypair"
SCHEMES = ("Ed25519", "Rsa", "Secp256k1")
TAG = {"Ed25519": 0, "Rsa": 1, "Secp256k1": 2}
NAME = {"Ed25519": "ed25519", "Rsa": "rsa", "Secp256k1": "secp256k1"}
A0, A1, A2, A3 = (sym(f"a{i}") for i in range(4))

ED_SIG = "TryFrom<&[u8]->ed25519_dalek::Signature>"
ED_VERIFY = "Verifier::verify"
ED_BYTES = "ed25519_dalek::verifying::VerifyingKey::to_bytes"
ED_PARSE = "ed25519_dalek::verifying::VerifyingKey::from_bytes"
RSA_STATIC = "RSA_PKCS1_2048_8192_SHA256"
RSA_NEW = "ring::signature::UnparsedPublicKey::new"
RSA_VERIFY = "ring::signature::UnparsedPublicKey::verify"
SECP_MSG = "libsecp256k1::Message::parse_slice"
SECP_DER = "libsecp256k1::Signature::parse_der"
SECP_VERIFY = "libsecp256k1::verify"
SECP_BYTES = "libsecp256k1::PublicKey::serialize_compressed"
SECP_PARSE = "libsecp256k1::PublicKey::parse_slice"
SIGN_ED = "Signer::try_sign"


def only(t, path):
    """the single field of a newtype"""
    names = tm.FIELDNAMES.get(path) or ["0"]
    return fld(t, path, "", names[0])


class KT:
    """terms for the parts of keys, key pairs and signatures"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.PK = ctx.adt(KP, "PublicKey")
        self.SIG = ctx.adt(KP, "Signature")
        self.PAIR = ctx.adt(KP, "KeyPair")
        self.FMT = ctx.adt(KP, "KeyFormat")

    def inner(self, s, name):
        return self.ctx.adt(KP, name, mod=s.lower())

    def key(self, t, s):
        return only(fld(t, self.PK, s, "0"), self.inner(s, "PublicKey"))

    def sig(self, t, s):
        return only(fld(t, self.SIG, s, "0"), self.inner(s, "Signature"))

    def mkkey(self, s, raw):
        p = self.inner(s, "PublicKey")
        return adt(self.PK, s, ("0",), (adt(p, "", tuple(tm.FIELDNAMES[p]), (raw,)),))

    def mksig(self, s, raw):
        p = self.inner(s, "Signature")
        return adt(self.SIG, s, ("0",), (adt(p, "", tuple(tm.FIELDNAMES[p]), (raw,)),))

    def fmt(self, s):
        return adt(self.FMT, s, (), ())

    def keybytes(self, t, s):
        k = self.key(t, s)
        return {"Ed25519": lambda: sapp(ED_BYTES, k), "Rsa": lambda: k, "Secp256k1": lambda: sapp(SECP_BYTES, k)}[s]()

    def accept(self, s, key, msg, sig):
        if s == "Ed25519":
            p = sapp(ED_SIG, sig)
            return AND(isok(p), isok(sapp(ED_VERIFY, key, msg, okv(p))))
        if s == "Rsa":
            alg = rsa_static(self.ctx)
            return isok(sapp(RSA_VERIFY, sapp(RSA_NEW, alg, key), msg, sig))
        m = sapp(SECP_MSG, sapp("sha256", msg))
        d = sapp(SECP_DER, sig)
        return AND(isok(m), isok(d), sapp(SECP_VERIFY, okv(m), okv(d), key))


def rsa_static(ctx):
    return mk("static", "ring::rsa::verification::RSA_PKCS1_2048_8192_SHA256")


# -------------------------------------------------------------------------------- C01
def c01(ctx):
    k = KT(ctx)
    md.FIXLEN["sha256"] = 32
    for short, perm in ((f"{KP}::PublicKey::verify", (A0, A1, A2)), (f"{KP}::KeyPair::verify", (A0, A1, A2))):
        r = ctx.run(short)
        pk, msg, sig = perm
        cases = []
        for s in SCHEMES:
            for g in SCHEMES:
                acc = k.accept(s, k.key(pk, s), msg, k.sig(sig, g))
                here = AND(is_(pk, k.PK, s), is_(sig, k.SIG, g))
                cases.append((f"{s} key accepts ({g}-tagged signature) => success", AND(here, acc), want_ok()))
                cases.append((f"{s} key rejects or cannot parse ({g}-tagged signature) => error", AND(here, NOT(acc)), want_err()))
        r.cases("verdict is the key's scheme's", cases)
        r.no_panic("signature check does not panic")
    # the per-scheme entry points are public as well
    for s in SCHEMES:
        try:
            b = ctx.body(f"{KP}::{s.lower()}::PublicKey::verify")
        except Missing:
            continue
        r = ctx.run(b)
        key = only(A0, k.inner(s, "PublicKey"))
        acc = k.accept(s, key, A1, A2)
        r.cases("scheme entry point", [("accepts => success", acc, want_ok()), ("rejects => error", NOT(acc), want_err())])
        r.no_panic("scheme entry point does not panic")


# -------------------------------------------------------------------------------- C02
def signed_by(ctx, k, s, pair, msg):
    """(ok formula, raw signature bytes) of signing msg with the secret of the pair"""
    pp = k.inner(s, "Keypair")
    inner = fld(pair, k.PAIR, s, "0")
    if s == "Ed25519":
        t = sapp(SIGN_ED, only(inner, pp), msg)
        return isok(t), sapp("ed25519::Signature::to_bytes", okv(t))
    if s == "Secp256k1":
        sk = only(fld(inner, pp, "", "secret"), k.inner(s, "SecretKey"))
        m = sapp(SECP_MSG, sapp("sha256", msg))
        return isok(m), sapp("libsecp256k1::Signature::serialize_der",
                             fld(sapp("libsecp256k1::sign", okv(m), sk), "()", "", "0"))
    return None, None


def c02(ctx):
    k = KT(ctx)
    md.FIXLEN["sha256"] = 32
    r = ctx.run(f"{KP}::KeyPair::sign")
    cases = []
    for s in ("Ed25519", "Secp256k1"):
        g, raw = signed_by(ctx, k, s, A0, A1)
        here = is_(A0, k.PAIR, s)
        cases.append((f"{s}: signature by the pair's secret", AND(here, g), want_ok(k.mksig(s, raw))))
        cases.append((f"{s}: signing failure is an error", AND(here, NOT(g)), want_err()))
    rsa_key = only(fld(A0, k.PAIR, "Rsa", "0"), k.inner("Rsa", "Keypair"))

    def rsa(I, st, v, o):
        evs = [e for e in o.st.trace if e.name == "ring::rsa::signing::RsaKeyPair::sign"]
        if len(evs) != 1:
            return f"RSA signing calls: {len(evs)}"
        e = evs[0]
        if e.args[0] is not rsa_key:
            return "RSA signature is not made with the pair's own key: " + show(e.args[0])
        if e.args[1] is not mk("static", "ring::rsa::padding::RSA_PKCS1_SHA256"):
            return "RSA padding/hash differs from the one verification expects: " + show(e.args[1])
        if e.args[3] is not A1:
            return "RSA signs something other than the message: " + show(e.args[3])
        if not equal_under(I, st, length(e.args[4]), sapp("ring::rsa::signing::RsaKeyPair::public_modulus_len", rsa_key)):
            return "RSA signature buffer does not have the modulus length"
        t = I.truth(st, isok(e.res))
        if t is None:
            return "the outcome of RSA signing is not looked at"
        if not t:
            return want_err()(I, st, v, o)
        sig = mk("mut", e.name, 4, *e.args)
        return want_ok(k.mksig("Rsa", sig))(I, st, v, o)
    cases.append(("Rsa: signature by the pair's secret", is_(A0, k.PAIR, "Rsa"), rsa))
    r.cases("sign", cases)
    r.no_panic("signing does not panic")
    # public key of the secret
    rp = ctx.run(f"{KP}::KeyPair::public")
    exp = {
        "Ed25519": lambda i: sapp("ed25519_dalek::signing::SigningKey::verifying_key", only(i, k.inner("Ed25519", "Keypair"))),
        "Rsa": lambda i: sapp("KeyPair::public_key", only(i, k.inner("Rsa", "Keypair"))),
        "Secp256k1": lambda i: only(fld(i, k.inner("Secp256k1", "Keypair"), "", "public"), k.inner("Secp256k1", "PublicKey")),
    }
    rp.cases("public key belongs to the secret key",
             [(s, is_(A0, k.PAIR, s), want(k.mkkey(s, exp[s](fld(A0, k.PAIR, s, "0"))))) for s in SCHEMES])
    rp.no_panic("public() does not panic")
    ctx.run(f"{KP}::KeyPair::key_format").cases("reported format", [(s, is_(A0, k.PAIR, s), want(k.fmt(s))) for s in SCHEMES])
    # secp256k1 pairs keep secret and public together: every construction derives one from the other
    SP = k.inner("Secp256k1", "Keypair")
    n = 0
    for b in list(ctx.p.bodies.values()):
        if b.crate != KP or b.kind not in ("fn", "closure") or b.derived:
            continue
        for blk in b.blocks:
            for stt in blk["s"]:
                if stt[0] == "=" and stt[2][0] == "agg" and stt[2][1][0] == "adt" and stt[2][1][1] == SP:
                    n += 1
                    rr = ctx.run(b)
                    for o in rr.rets():
                        for t in walk(o.val):
                            if t.op == "adt" and t.a[0] == SP:
                                sk = only(fld(t, SP, "", "secret"), k.inner("Secp256k1", "SecretKey"))
                                pk = only(fld(t, SP, "", "public"), k.inner("Secp256k1", "PublicKey"))
                                ctx.oblige(pk is sapp("libsecp256k1::PublicKey::from_secret_key", sk),
                                           "secp256k1 pair is built from one secret", rr.where,
                                           f"public part {show(pk)} is not derived from secret part {show(sk)}")
    ctx.oblige(n > 0, "secp256k1 pair constructions found", SP, "no construction of the secp256k1 pair found")


# -------------------------------------------------------------------------------- C03
def roundtrip(ctx, enc, dec, rule, args=None, pre=None, wrap=lambda v: v, result=None, leaf=(), decleaf=None, fits=False):
    """every path of dec applied to every output of enc succeeds with the encoded value"""
    tm.ASSUME_FITS[0] = fits
    try:
        e = ctx.run(enc, leaf=leaf, args=args, pre=pre)
    finally:
        tm.ASSUME_FITS[0] = False
    e.no_panic(rule + ": encoding does not panic")
    n = 0
    for o in e.rets():
        base = [a if p else NOT(a) for a, p in o.st.facts.items()]
        if fits:
            tm.ASSUME_FITS[0] = True
        try:
            d = ctx.run(dec, leaf=leaf if decleaf is None else decleaf, args=[wrap(o.val)], pre=base)
        finally:
            tm.ASSUME_FITS[0] = False
        if not d.outs:
            continue
        for q in d.outs:
            n += 1
            if q.kind != "ret":
                ctx.bad(rule, d.where, f"decoding the output of {e.body.short} panics: {q.info}", path=path_of(d.I, q))
                continue
            er = want_ok(result if result is not None else A0)(d.I, q.st, q.val, q)
            if er:
                ctx.bad(rule, d.where, f"decoding the output of {e.body.short}: {er}", path=path_of(d.I, q))
            else:
                ctx.ok(rule, d.where)
    ctx.oblige(n > 0, rule + ": paths", e.where, "no path of the decoder accepts the encoding")
    return e


def c03(ctx):
    k = KT(ctx)
    for ty, raw in (("PublicKey", k.keybytes), ("Signature", k.sig)):
        P = k.PK if ty == "PublicKey" else k.SIG
        ctx.run(f"{KP}::{ty}::encode").cases(
            f"{ty} encoding is tag and raw bytes",
            [(s, is_(A0, P, s), want(cat(one(Int(TAG[s])), raw(A0, s)))) for s in SCHEMES])
        ctx.run(f"{KP}::{ty}::to_vec").cases(
            f"{ty} raw bytes", [(s, is_(A0, P, s), want(raw(A0, s))) for s in SCHEMES])
        roundtrip(ctx, f"{KP}::{ty}::encode", f"{KP}::{ty}::decode", f"{ty} round-trip")
    roundtrip(ctx, f"{KP}::PublicKey::encode", f"{KP}::PublicKey::from_base58", "PublicKey base58 round-trip",
              wrap=lambda v: sapp("b58enc", v))
    # decoding
    rest = subseq(A0, Int(1), length(A0))
    ne = NOT(le0(length(A0)))
    tag = index(A0, Int(0))
    d = ctx.run(f"{KP}::PublicKey::decode")
    edp = sapp(ED_PARSE, rest)
    sep = sapp(SECP_PARSE, rest, some(const_variant(ctx, "libsecp256k1", "PublicKeyFormat", "Compressed")))
    eds = eqnum(length(A0), Int(33))
    T = {s: AND(ne, eqnum(tag, Int(TAG[s]))) for s in SCHEMES}
    d.cases("PublicKey decoding", [
        ("empty input is an error", le0(length(A0)), want_err()),
        ("unknown tag is an error", AND(ne, *[NOT(eqnum(tag, Int(i))) for i in (0, 1, 2)]), want_err()),
        ("Ed25519 bytes accepted by its parser", AND(T["Ed25519"], eds, isok(edp)), want_ok(k.mkkey("Ed25519", okv(edp)))),
        ("Ed25519 bytes refused by its parser", AND(T["Ed25519"], NOT(AND(eds, isok(edp)))), want_err()),
        ("RSA bytes", T["Rsa"], want_ok(k.mkkey("Rsa", rest))),
        ("secp256k1 bytes accepted by its parser", AND(T["Secp256k1"], isok(sep)), want_ok(k.mkkey("Secp256k1", okv(sep)))),
        ("secp256k1 bytes refused by its parser", AND(T["Secp256k1"], NOT(isok(sep))), want_err()),
    ])
    d.no_panic("PublicKey decoding does not panic")
    d = ctx.run(f"{KP}::Signature::decode")
    d.cases("Signature decoding", [
        ("empty input is an error", le0(length(A0)), want_err()),
        ("unknown tag is an error", AND(ne, *[NOT(eqnum(tag, Int(i))) for i in (0, 1, 2)]), want_err()),
    ] + [(s, T[s], want_ok(k.mksig(s, rest))) for s in SCHEMES])
    d.no_panic("Signature decoding does not panic")
    b58 = sapp("b58dec", A0)
    ctx.run(f"{KP}::PublicKey::from_base58", leaf={f"{KP}::PublicKey::decode"}).cases("base58", [
        ("invalid base58 is an error", NOT(isok(b58)), want_err())])
    # tags, names, formats
    FM = k.FMT
    ctx.run(ctx.body(f"{KP}::<u8 as From>::from")).cases("tag of format", [(s, is_(A0, FM, s), want(Int(TAG[s]))) for s in SCHEMES])
    ctx.run(ctx.body(f"{KP}::<KeyFormat as TryFrom>::try_from")).cases("format of tag", [
        (s, eqnum(A0, Int(TAG[s])), want_ok(k.fmt(s))) for s in SCHEMES] + [
        ("unknown", AND(*[NOT(eqnum(A0, Int(i))) for i in (0, 1, 2)]), want_err())])
    ctx.run(ctx.body(f"{KP}::<String as From>::from")).cases("name of format", [
        (s, is_(A0, FM, s), want(strlit(NAME[s]))) for s in SCHEMES])
    nm = {s: tm.eq(A0, strlit(NAME[s])) for s in SCHEMES}
    ctx.run(ctx.body(f"{KP}::<KeyFormat as FromStr>::from_str")).cases("format of name", [
        (s, AND(nm[s], *[NOT(nm[q]) for q in SCHEMES if q != s]), want_ok(k.fmt(s))) for s in SCHEMES] + [
        ("unknown", AND(*[NOT(x) for x in nm.values()]), want_err())])
    ctx.run(f"{KP}::PublicKey::get_key_format").cases("format of key", [(s, is_(A0, k.PK, s), want(k.fmt(s))) for s in SCHEMES])
    ctx.run(f"{KP}::Signature::get_signature_type").cases("format of signature", [(s, is_(A0, k.SIG, s), want(k.fmt(s))) for s in SCHEMES])
    RAW = ctx.adt(KP, "RawSignature")
    names = tuple(tm.FIELDNAMES[RAW])
    ctx.run(f"{KP}::Signature::get_raw_signature").cases("raw signature", [
        (s, is_(A0, k.SIG, s), want(adt(RAW, "", names, tuple({"bytes": k.sig(A0, s), "sig_type": k.fmt(s)}[n] for n in names))))
        for s in SCHEMES])
    ctx.run(f"{KP}::Signature::from_bytes").cases("signature from raw bytes", [
        (s, is_(A0, FM, s), want(k.mksig(s, A1))) for s in SCHEMES])


def const_variant(ctx, crate, name, variant):
    c = [p for p in ctx.p.adts if p.split("::")[0] == crate and p.split("::")[-1] == name]
    return adt(c[0] if c else f"{crate}::{name}", variant, (), ())


# -------------------------------------------------------------------------------- C33
L2 = "libp2p_identity"


def frm(a, b):
    return f"From<{a}->{b}>"


def libp2p_parts(k):
    """our key / pair -> libp2p term, and libp2p -> our key / pair, per scheme"""
    def conv(s):
        return f"{L2}::{NAME[s]}"

    def pk_to(s, t):
        if s == "Rsa":
            raw = sapp(f"{L2}::rsa::PublicKey::try_decode_x509", sapp(f"{KP}::rsa::PublicKey::encode_x509", fld(t, k.PK, s, "0")))
        else:
            raw = sapp(f"{conv(s)}::PublicKey::try_from_bytes", k.keybytes(t, s))
        return isok(raw), sapp(frm(f"{conv(s)}::PublicKey", f"{L2}::PublicKey"), okv(raw))

    def pk_from(s, t):
        i = sapp(f"{L2}::keypair::PublicKey::try_into_{NAME[s]}", t)
        if s == "Rsa":
            return isok(i), k.mkkey(s, sapp(f"{L2}::rsa::PublicKey::encode_pkcs1", okv(i)))
        b = sapp(f"{conv(s)}::PublicKey::to_bytes", okv(i))
        if s == "Ed25519":
            p = sapp(ED_PARSE, b)
        else:
            p = sapp(SECP_PARSE, b, some(const_variant(k.ctx, "libsecp256k1", "PublicKeyFormat", "Compressed")))
        return AND(isok(i), isok(p)), k.mkkey(s, okv(p))
    return pk_to, pk_from


def secp_pair(k, sk):
    P, S, Q = (k.inner("Secp256k1", n) for n in ("Keypair", "SecretKey", "PublicKey"))
    parts = {"secret": adt(S, "", tuple(tm.FIELDNAMES[S]), (sk,)),
             "public": adt(Q, "", tuple(tm.FIELDNAMES[Q]), (sapp("libsecp256k1::PublicKey::from_secret_key", sk),))}
    ns = tuple(tm.FIELDNAMES[P])
    return adt(k.PAIR, "Secp256k1", ("0",), (adt(P, "", ns, tuple(parts[n] for n in ns)),))


def ed_pair(k, sk):
    P = k.inner("Ed25519", "Keypair")
    return adt(k.PAIR, "Ed25519", ("0",), (adt(P, "", tuple(tm.FIELDNAMES[P]), (sk,)),))


def rsa_pair(k, x):
    return adt(k.PAIR, "Rsa", ("0",), (x,))


def ed_secret(k, pair):
    return only(fld(pair, k.PAIR, "Ed25519", "0"), k.inner("Ed25519", "Keypair"))


def secp_secret(k, pair):
    return only(fld(fld(pair, k.PAIR, "Secp256k1", "0"), k.inner("Secp256k1", "Keypair"), "", "secret"), k.inner("Secp256k1", "SecretKey"))


def specified(r, rule, cases):
    """the cases hold on every return path, and no path panics in one of them"""
    r.cases(rule, cases)
    for o in r.panics():
        for name, g, _ in cases:
            for st in r.I.assume(o.st.copy(), g):
                if feasible(r.I, st):
                    r.ctx.bad(f"{rule}: {name}", r.where, f"panics at {o.info[1]}: {str(o.info[3])[:200]}", path=path_of(r.I, Out("panic", st, o.val, o.info)))


def c33(ctx):
    k = KT(ctx)
    pk_to, pk_from = libp2p_parts(k)
    KTY = ctx.adt(L2, "KeyType")
    to = ctx.body(f"{KP}::<PublicKey as From>::from", targ="public_key::PublicKey")
    fro = ctx.body(f"{KP}::<PublicKey as From>::from", targ=f"{L2}::PublicKey")
    x509 = f"{KP}::rsa::PublicKey::encode_x509"
    specified(ctx.run(to, leaf={x509}), "public key to libp2p", [
        (s, AND(is_(A0, k.PK, s), pk_to(s, A0)[0]), want(pk_to(s, A0)[1])) for s in SCHEMES])

    def ktype(t, fn):
        return lambda s: is_(sapp(f"{L2}::keypair::{fn}::key_type", t), KTY, "RSA" if s == "Rsa" else s)
    kt = ktype(A0, "PublicKey")
    specified(ctx.run(fro), "public key from libp2p", [(s, AND(kt(s), pk_from(s, A0)[0]), want(pk_from(s, A0)[1])) for s in SCHEMES])
    # pairs
    to = ctx.body(f"{KP}::<Keypair as From>::from", targ="key_pair::KeyPair")
    fro = ctx.body(f"{KP}::<KeyPair as From>::from", targ=f"{L2}::Keypair")
    e = sapp(f"{L2}::keypair::Keypair::ed25519_from_bytes", sapp("ed25519_dalek::signing::SigningKey::to_bytes", ed_secret(k, A0)))
    s2 = sapp(f"{L2}::secp256k1::SecretKey::try_from_bytes", sapp("libsecp256k1::SecretKey::serialize", secp_secret(k, A0)))
    specified(ctx.run(to), "key pair to libp2p", [
        ("Ed25519", AND(is_(A0, k.PAIR, "Ed25519"), isok(e)), want(okv(e))),
        ("Secp256k1", AND(is_(A0, k.PAIR, "Secp256k1"), isok(s2)), want(
            sapp(frm(f"{L2}::secp256k1::Keypair", f"{L2}::Keypair"),
                 sapp(frm(f"{L2}::secp256k1::SecretKey", f"{L2}::secp256k1::Keypair"), okv(s2))))),
        ("Rsa", is_(A0, k.PAIR, "Rsa"), want(sapp(frm(f"{L2}::rsa::Keypair", f"{L2}::Keypair"), fld(A0, k.PAIR, "Rsa", "0"))))])
    kt = ktype(A0, "Keypair")

    def into(s):
        return sapp(f"{L2}::keypair::Keypair::try_into_{NAME[s]}", A0)
    e = sapp("ed25519_dalek::signing::SigningKey::from_keypair_bytes", sapp(f"{L2}::ed25519::Keypair::to_bytes", okv(into("Ed25519"))))
    s2 = sapp("libsecp256k1::SecretKey::parse_slice", sapp(
        f"{L2}::secp256k1::SecretKey::to_bytes", sapp(f"{L2}::secp256k1::Keypair::secret", okv(into("Secp256k1")))))
    specified(ctx.run(fro), "key pair from libp2p", [
        ("Ed25519", AND(kt("Ed25519"), isok(into("Ed25519")), isok(e)), want(ed_pair(k, okv(e)))),
        ("Secp256k1", AND(kt("Secp256k1"), isok(into("Secp256k1")), isok(s2)), want(secp_pair(k, okv(s2)))),
        ("Rsa", AND(kt("Rsa"), isok(into("Rsa"))), want(rsa_pair(k, okv(into("Rsa")))))])
    # peer ids
    PID = f"{L2}::peer_id::PeerId::from_public_key"
    r = ctx.run(f"{KP}::PublicKey::to_peer_id", leaf={x509})
    specified(r, "peer id of a public key", [
        (s, AND(is_(A0, k.PK, s), pk_to(s, A0)[0]), want_any(sapp(PID, pk_to(s, A0)[1]), sapp(f"{L2}::keypair::PublicKey::to_peer_id", pk_to(s, A0)[1]))) for s in SCHEMES])
    r = ctx.run(f"{KP}::KeyPair::get_peer_id", leaf={f"{KP}::PublicKey::to_peer_id", f"{KP}::KeyPair::public"})
    r.cases("peer id of a pair is that of its public key", [
        ("any", TRUE, want(sapp(f"{KP}::PublicKey::to_peer_id", sapp(f"{KP}::KeyPair::public", A0))))])
    CODE = ctx.adt("multihash_codetable", "Code") if any(p.startswith("multihash_codetable::") for p in ctx.p.adts) else [
        p for p in ctx.p.adts if p.split("::")[-1] == "Code" and p.startswith("multihash")][0]
    code = sapp("TryFrom<u64->multihash::Code>", sapp("multihash::multihash::Multihash::code", A0))
    pb = sapp(f"{L2}::keypair::PublicKey::try_decode_protobuf", sapp("multihash::multihash::Multihash::digest", A0))
    inl = AND(isok(code), is_(okv(code), CODE, "Identity"), isok(pb))
    kt = ktype(okv(pb), "PublicKey")
    specified(ctx.run(ctx.body(f"{KP}::<PublicKey as TryFrom>::try_from", targ="PeerId")), "public key of a peer id", [
        (f"inlined {s} key => that key", AND(inl, kt(s), pk_from(s, okv(pb))[0]), want_ok(pk_from(s, okv(pb))[1])) for s in SCHEMES] + [
        ("not inlined => error", NOT(inl), want_err())])
    ctx.assumptions += ["libp2p and multihash conversions called here keep the key (external crates)"]


# -------------------------------------------------------------------------------- C34
DECLASS = ("ed25519_dalek::signing::SigningKey::verifying_key", "libsecp256k1::PublicKey::from_secret_key", "KeyPair::public_key")


def c34(ctx):
    k = KT(ctx)
    types = {}
    for s in ("Ed25519", "Secp256k1", "Rsa"):
        for n in ("Keypair", "SecretKey"):
            try:
                types[k.inner(s, n)] = s
            except Missing:
                pass
    types[k.PAIR] = None
    n = 0
    for b in list(ctx.p.bodies.values()):
        last = b.short.split("::")[-1]
        if b.crate != KP or last != "fmt" or " as " not in b.short:
            continue
        if not re.search(r" as (Debug|Display|LowerHex|UpperHex|Binary|Pointer)>::fmt$", b.short):
            continue
        me = b.short[b.short.index("<") + 1:b.short.index(" as ")]
        mine = [p for p in types if p.split("::", 1)[1] == me or p.split("::")[-1] == me and me == "KeyPair"]
        if not mine:
            continue
        n += 1
        r = ctx.run(b)
        for o in r.outs:
            shown = []
            if o.kind == "ret":
                shown.append(o.val)
                shown.append(r.I.reify(o.st, r.I.load(o.st, ("in", "a1"), ())))
            for e in o.st.trace:
                xs = [a for a in e.args if isinstance(a, T)]
                if any(occurs(A1, a) for a in xs):
                    shown.extend(xs)
            leak = None
            for t in shown:
                leak = leak or secret_in(ctx, k, t, mine[0])
            ctx.oblige(leak is None, "formatted output holds no secret", r.where, f"the output depends on {leak}")
    ctx.oblige(n > 0, "formatters of key pairs and secret keys found", KP, "none found")
    # wiping: (function, raw key bytes)
    lent = [(f"{KP}::ed25519::Keypair::decode", True), (f"{KP}::ed25519::SecretKey::from_bytes", True),
            (f"{KP}::secp256k1::SecretKey::from_bytes", True), (f"{KP}::secp256k1::SecretKey::from_der", False),
            (f"{KP}::rsa::Keypair::from_pkcs8", False), (f"{KP}::KeyPair::rsa_from_pkcs8", False),
            (f"{KP}::KeyPair::secp256k1_from_der", False)]
    for fn, rawb in lent:
        r = ctx.run(fn, args=[mk("ref", ("in", "a0"), ())])
        for o in r.outs:
            if o.kind != "ret":
                continue
            buf = lent_buffer(r, o)
            for f, good in ((isok(o.val), True), (NOT(isok(o.val)), False)):
                for st in r.I.assume(o.st.copy(), f):
                    if not feasible(r.I, st):
                        continue
                    if good:
                        ctx.oblige(all_zero(r.I, st, buf), "a loaded buffer is wiped", r.where,
                                   f"the lent buffer still holds {show(buf)[:200]} after success", path=path_of(r.I, o))
                    elif rawb:
                        ctx.oblige(buf is A0, "a rejected buffer is left alone", r.where,
                                   f"the lent buffer holds {show(buf)[:200]} after an error", path=path_of(r.I, o))


def lent_buffer(r, o):
    return r.I.reify(o.st, r.I.load(o.st, ("in", "a0"), ()))


def all_zero(I, st, t):
    if t.op == "app" and t.a[0] == "zeroed":
        return True
    if t.op != "seq":
        return False
    for s in t.a:
        if s.op == "el" and s.a[0] is not Int(0):
            return False
        if s.op == "comp" and any(x is not one(Int(0)) for x in comp_bodies(s)):
            return False
        if s.op not in ("el", "comp"):
            return False
    return True


def comp_bodies(s):
    return [b for g, b in tm.subst_comp(s, mk("k", ("body", s.id)))]


def secret_in(ctx, k, t, me):
    """a subterm that carries the secret, None when it is only used through its public key"""
    todo, seen = [t], set()
    SK = [k.inner(s, "SecretKey") for s in ("Ed25519", "Secp256k1")]
    EP = [k.inner(s, "Keypair") for s in ("Ed25519", "Rsa")]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "app" and x.a[0] in DECLASS:
            continue
        if x.op == "fld" and x.a[1] == k.inner("Secp256k1", "Keypair") and x.a[3] == "public":
            continue
        if x is A0:
            return f"the whole value ({me.split('::')[-1]})"
        if x.op == "fld" and (x.a[1] in SK or x.a[1] in EP or x.a[3] == "secret"):
            return show(x)
        todo.extend(subterms(x))
    return None


# -------------------------------------------------------------------------------- C35
def every(trace):
    """the events of a path, those of one round of each loop included"""
    for e in trace:
        if e.kind == "loop":
            for _, tr, _ in e.extra[0].conts:
                yield from every(tr)
        else:
            yield e


def c35(ctx):
    k = KT(ctx)
    PKE = f"{KP}::PublicKey::encode"
    TG = "trust_graph"
    W = ctx.adt(TG, "PublicKeyHashable")

    def inject(t):
        """encodings are equal exactly when the keys are (C03)"""
        if t.op == "eq" and all(x.op == "app" and x.a[0] == PKE for x in t.a):
            return tm.eq(t.a[0].a[1], t.a[1].a[1])
        return t

    def wantb(b):
        def chk(I, st, v, o):
            v = inject(v)
            f = NOT(v) if b else v
            for s in I.assume(st.copy(), f):
                if feasible(I, s):
                    return f"returns {show(v)[:300]} where {str(b).lower()} is required"
            return None
        return chk
    b = ctx.body(f"{KP}::<PublicKey as PartialEq>::eq")
    r = ctx.run(b)
    cs = []
    for s in SCHEMES:
        for g in SCHEMES:
            here = AND(is_(A0, k.PK, s), is_(A1, k.PK, g))
            if s != g:
                cs.append((f"{s} against {g}", here, wantb(False)))
            else:
                e = tm.eq(fld(A0, k.PK, s, "0"), fld(A1, k.PK, s, "0"))
                cs.append((f"same {s} key", AND(here, e), wantb(True)))
                cs.append((f"different {s} keys", AND(here, NOT(e)), wantb(False)))
    r.cases("key equality", cs)
    for s in SCHEMES:
        try:
            b = ctx.body(f"{KP}::<{NAME[s]}::PublicKey as PartialEq>::eq")
        except Missing:
            continue
        p = k.inner(s, "PublicKey")
        e = tm.eq(only(A0, p), only(A1, p))
        rr = ctx.run(b)
        for o in rr.rets():
            okk = equal_under(rr.I, o.st, o.val, e) or equal_under(rr.I, o.st, o.val, tm.eq(A0, A1)) or _bytes_eq(k, s, o.val)
            if not okk:
                t = rr.I.truth(o.st, o.val)
                f = e if t is False else NOT(e)
                okk = t is not None and not any(feasible(rr.I, x) for x in rr.I.assume(o.st.copy(), f))
            ctx.oblige(okk, f"{s} key equality is equality of the key value", rr.where, f"compares {show(o.val)[:300]}")
    # wrapper
    w0, w1 = only(A0, W), only(A1, W)
    r = ctx.run(f"{TG}::<PublicKeyHashable as PartialEq>::eq", leaf={PKE})
    e = tm.eq(w0, w1)
    for o in r.rets():
        v = inject(o.val)
        ctx.oblige(v is e or v is tm.eq(A0, A1), "wrapper equality is key equality", r.where, f"compares {show(o.val)[:300]}")
    for hf, what in (("hash", "hash"), ("hash_slice", "hash of several keys")):
        if hf != "hash" and not ctx.p.find(f"{TG}::<PublicKeyHashable as Hash>::{hf}"):
            continue
        r = ctx.run(f"{TG}::<PublicKeyHashable as Hash>::{hf}", leaf={PKE})
        for o in r.rets():
            h = r.I.reify(o.st, r.I.load(o.st, ("in", "a1"), ()))
            fed = [x for e in every(o.st.trace) if str(e.name).startswith(("Hasher::", "Hash::")) for x in e.args[1:] if isinstance(x, T)]
            fed += [e.args[0] for e in every(o.st.trace) if (str(e.name).startswith("Hash::") or re.match(r"(std\??)?(core|alloc|std)?.*::hash$", str(e.name)))
                    and e.args and isinstance(e.args[0], T)]
            impure = None
            for x in fed:
                for y in walk(x):
                    if y.op in ("ref", "fresh", "addr") or y.op == "app" and str(y.a[0]).startswith("addr<") or y.op == "sym" and y not in (A0, A1):
                        impure = y
            ctx.oblige(impure is None, f"{what} is a function of the key alone", r.where, f"hash depends on {impure and show(impure)}")
            if hf == "hash_slice":
                continue
            ctx.oblige(any(any(y is w0 or y is A0 for y in walk(x)) for x in fed), f"{what} covers the key", r.where,
                       "nothing of the key is hashed")
    idf = [(f"{TG}::<PublicKeyHashable as From>::from", KP), (f"{TG}::<PublicKey as From>::from", "PublicKeyHashable"),
           (f"{TG}::<PublicKeyHashable as AsRef>::as_ref", KP), (f"{TG}::<PublicKey as AsRef>::as_ref", "PublicKeyHashable"),
           (f"{TG}::<PublicKeyHashable as RefCast>::ref_cast", None)]
    for short, targ in idf:
        if not ctx.p.find(short):
            continue
        r = ctx.run(ctx.body(short))
        for o in r.rets():
            v = o.val
            ctx.oblige(v is A0 or v is w0 or (v.op == "adt" and len(v.a) == 4 and v.a[3] is A0), "wrapping keeps the key", r.where,
                       f"returns {show(v)[:200]}")


def _bytes_eq(k, s, v):
    return v.op == "eq" and len(v.a) == 2 and all(
        x.op == "app" and x.a[0] in (ED_BYTES, SECP_BYTES, "libsecp256k1::PublicKey::serialize",
                                     "ed25519_dalek::verifying::VerifyingKey::as_bytes") for x in v.a) and \
        v.a[0].a[0] == v.a[1].a[0]


# -------------------------------------------------------------------------------- C37
def c37(ctx):
    k = KT(ctx)
    md._inv("libsecp256k1::SecretKey::parse_slice", "libsecp256k1::SecretKey::serialize", ok)
    md.SIMPL.setdefault("libsecp256k1::SecretKey::parse", lambda x: sapp("libsecp256k1::SecretKey::parse_slice", x))
    SP, PP = "Secp256k1", k.inner("Secp256k1", "Keypair")
    derived = tm.eq(only(fld(fld(A0, k.PAIR, SP, "0"), PP, "", "public"), k.inner(SP, "PublicKey")),
                    sapp("libsecp256k1::PublicKey::from_secret_key", secp_secret(k, A0)))
    for enc, dec, wrap in (("to_vec", "from_vec", lambda v: v), ("secret", "from_secret_key", lambda v: okv(v))):
        for s in ("Ed25519", "Secp256k1"):
            pre = [is_(A0, k.PAIR, s)] + ([derived] if s == SP else [])
            e = ctx.run(f"{KP}::KeyPair::{enc}", pre=pre)
            e.no_panic(f"{s} export does not panic")
            n = 0
            for o in e.rets():
                v = o.val
                if enc == "secret":
                    er = want_ok()(e.I, o.st, v, o)
                    ctx.oblige(not er, f"{s} secret export succeeds", e.where, er or "")
                    v = okv(v)
                d = ctx.run(f"{KP}::KeyPair::{dec}", args=[v, k.fmt(s)], pre=[a if p else NOT(a) for a, p in o.st.facts.items()])
                for q in d.outs:
                    if not feasible(d.I, q.st):
                        continue
                    n += 1
                    if q.kind != "ret":
                        ctx.bad(f"{s} {dec} of {enc}", d.where, f"panics: {q.info}")
                        continue
                    exp = ed_pair(k, ed_secret(k, A0)) if s == "Ed25519" else secp_pair(k, secp_secret(k, A0))
                    er = want_ok(exp)(d.I, q.st, q.val, q)
                    ctx.oblige(not er, f"{s} {dec} of {enc} is the same pair", d.where, er or "", path=path_of(d.I, q))
            ctx.oblige(n > 0, f"{s} {enc} and {dec} have paths", e.where, "no path")
    is_s = {s: is_(A1, k.FMT, s) for s in SCHEMES}
    e = sapp("ed25519_dalek::signing::SigningKey::from_keypair_bytes", A0)
    p = sapp("libsecp256k1::SecretKey::parse_slice", A0)
    l64, l32 = eqnum(length(A0), Int(64)), eqnum(length(A0), Int(32))
    r = ctx.run(f"{KP}::KeyPair::from_vec")
    sec = [("secp256k1 secret", AND(is_s[SP], l32, isok(p)), want_ok(secp_pair(k, okv(p)))),
           ("not a secp256k1 secret", AND(is_s[SP], NOT(isok(p))), want_err())]
    r.cases("import of pair bytes", [
        ("Ed25519 pair", AND(is_s["Ed25519"], l64, isok(e)), want_ok(ed_pair(k, okv(e)))),
        ("not an Ed25519 pair", AND(is_s["Ed25519"], NOT(AND(l64, isok(e)))), want_err())] + sec)
    r.no_panic("import does not panic", lambda o: any(a.op == "is" and a.a[2] == "Rsa" and p for a, p in o.st.facts.items()))
    r = ctx.run(f"{KP}::KeyPair::from_secret_key")
    r.cases("import of secret bytes", [
        ("Ed25519 secret", AND(is_s["Ed25519"], l32), want_ok(ed_pair(k, sapp("ed25519_dalek::signing::SigningKey::from_bytes", A0)))),
        ("not an Ed25519 secret", AND(is_s["Ed25519"], NOT(l32)), want_err())] + sec)
    r.no_panic("import does not panic", lambda o: any(a.op == "is" and a.a[2] == "Rsa" and p for a, p in o.st.facts.items()))
    r = ctx.run(f"{KP}::KeyPair::generate")

    def isv(s):
        def chk(I, st, v, o):
            return None if v.op == "adt" and v.a[0] == k.PAIR and v.a[1] == s or I.truth(st, is_(v, k.PAIR, s)) else f"generates {show(v)[:200]}"
        return chk
    r.cases("generated pair has the requested format", [(s, is_(A0, k.FMT, s), isv(s)) for s in SCHEMES])


# -------------------------------------------------------------------------------- C44
RSA_OID = (0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x01, 0x01, 0x01)
FDO, IDO = "FromDerObject::from_der_object", "IntoDerObject::into_der_object"


def der_types(ctx, k):
    """the types that stand for the parts of a SubjectPublicKeyInfo, found by what they hold"""
    rp = k.inner("Rsa", "PublicKey")
    have = {}
    for p, a in ctx.p.adts.items():
        if p.split("::")[0] != KP or a["kind"] != "struct" or len(a["v"]) != 1:
            continue
        me = p.split("::", 1)[1]
        if not (ctx.p.find(f"{KP}::<{me} as FromDerObject>::from_der_object") and ctx.p.find(f"{KP}::<{me} as IntoDerObject>::into_der_object")):
            continue
        have[p] = [(f["n"], ctx.p.types[KP][f["t"]] if f["t"] is not None else None) for f in a["v"][0]["f"]]

    def one_(what, pred):
        c = [p for p, fs in have.items() if pred(fs)]
        if len(c) != 1:
            raise Unsupported(f"{what} not identified")
        return c[0]

    def is_ty(t, p):
        return t is not None and t.get("k") == "adt" and t.get("p") == p
    spk = one_("the type of the key bit string", lambda fs: len(fs) == 1 and is_ty(fs[0][1], rp))
    oid = one_("the type of the algorithm's object identifier", lambda fs: not fs)
    alg = one_("the type of the algorithm identifier", lambda fs: len(fs) == 2 and any(is_ty(t, oid) for _, t in fs))
    info = one_("the type of the public key info", lambda fs: len(fs) == 2 and any(is_ty(t, spk) for _, t in fs))
    return rp, spk, oid, alg, info, have


def c44(ctx):
    k = KT(ctx)

    def part(what, f):
        try:
            f()
        except Unsupported as e:
            ctx.unknown("analysis", what, e)
    part("X.509", lambda: x509(ctx, k))
    part("imports", lambda: der_imports(ctx, k))
    ctx.assumptions += ["asn1_der reads and writes DER objects, sequences, octet strings and null as the standard says (external crate)"]


def x509(ctx, k):
    OBJ, VAL, TAG = ctx.adt("asn1_der", "DerObject"), ctx.adt("asn1_der", "DerValue"), ctx.adt("asn1_der", "DerTag")
    rp, spk, oid, alg, info, have = der_types(ctx, k)
    nm = lambda p: p.split("::", 1)[1]
    data = fld(fld(A0, OBJ, "", "value"), VAL, "", "data")
    tagis = lambda t: is_(fld(A0, OBJ, "", "tag"), TAG, t)
    oidv = cat(*[one(Int(x)) for x in RSA_OID])
    oido = adt(OBJ, "", ("tag", "value"), (adt(TAG, "x06", (), ()), adt(VAL, "", ("data",), (oidv,))))
    # the object identifier
    ctx.run(f"{KP}::<{nm(oid)} as IntoDerObject>::into_der_object").cases("written algorithm is rsaEncryption", [("any", TRUE, want(oido))])
    ctx.run(f"{KP}::<{nm(oid)} as IntoDerObject>::serialized_len").cases("length of the written algorithm", [("any", TRUE, want_any(
        sapp("asn1_der::der::DerObject::serialized_len", oido), sapp("asn1_der::der::DerObject::compute_serialized_len", Int(len(RSA_OID)))))])
    good = AND(tagis("x06"), tm.eq(data, oidv))
    r = ctx.run(f"{KP}::<{nm(oid)} as FromDerObject>::from_der_object")
    specified(r, "read algorithm", [("rsaEncryption", good, want_ok()), ("another algorithm => error", NOT(good), want_err())])
    # the bit string
    key = only(only(A0, spk), rp)
    mkobj = lambda bits: want_any(
        sapp("asn1_der::der::DerObject::new", adt(TAG, "x03", (), ()), sapp("From<std::vec::Vec<u8>->asn1_der::DerValue>", bits)),
        adt(OBJ, "", ("tag", "value"), (adt(TAG, "x03", (), ()), sapp("From<std::vec::Vec<u8>->asn1_der::DerValue>", bits))),
        adt(OBJ, "", ("tag", "value"), (adt(TAG, "x03", (), ()), adt(VAL, "", ("data",), (bits,)))))
    r = ctx.run(f"{KP}::<{nm(spk)} as IntoDerObject>::into_der_object")
    specified(r, "written key is a bit string of a zero byte and the PKCS#1 key", [("any", TRUE, mkobj(cat(one(Int(0)), key)))])
    r = ctx.run(f"{KP}::<{nm(spk)} as IntoDerObject>::serialized_len")
    r.cases("length of the written key", [("any", TRUE, want(sapp("asn1_der::der::DerObject::compute_serialized_len", add(length(key), Int(1)))))])
    mkey = lambda bits: adt(spk, "", tuple(tm.FIELDNAMES[spk]), (adt(rp, "", tuple(tm.FIELDNAMES[rp]), (bits,)),))
    r = ctx.run(f"{KP}::<{nm(spk)} as FromDerObject>::from_der_object")
    some = lt(Int(0), length(data))
    specified(r, "read key", [
        ("a bit string => the bytes behind its first", AND(tagis("x03"), some), want_ok(mkey(tm.subseq(data, Int(1), length(data))))),
        ("another object => error", NOT(tagis("x03")), want_err())])
    # the sequences
    for ty, what in ((alg, "algorithm identifier"), (info, "public key info")):
        fs = [n for n, _ in have[ty]]
        first = [n for n, t in have[ty] if t is not None and t.get("p") in (oid, alg)][0]
        order = [first] + [n for n in fs if n != first]
        sq = okv(sapp(FDO, A0))
        tys = dict(have[ty])
        el = [sapp(f"{KP}::<{nm(tys[n]['p'])} as FromDerObject>::from_der_object" if tys[n] and tys[n].get("p") in have else FDO, index(sq, Int(i)))
              for i, n in enumerate(order)]
        isq = isok(sapp(FDO, A0))
        n2 = eqnum(length(sq), Int(2))
        vals = {order[i]: okv(el[i]) for i in range(2)}
        r = ctx.run(f"{KP}::<{nm(ty)} as FromDerObject>::from_der_object", leaf=lambda s, b: s.endswith("FromDerObject>::from_der_object"))
        specified(r, f"read {what}", [
            ("a sequence of its two parts", AND(isq, n2, isok(el[0]), isok(el[1])), want_ok(adt(ty, "", tuple(fs), tuple(vals[n] for n in fs)))),
            ("anything else => error", NOT(AND(isq, n2, isok(el[0]), isok(el[1]))), want_err())])
        r = ctx.run(f"{KP}::<{nm(ty)} as IntoDerObject>::into_der_object")
        exp = []
        for n in order:
            t = dict(have[ty])[n]
            v = fld(A0, ty, "", n)
            if t.get("k") == "adt":
                rr = ctx.run(f"{KP}::<{nm(t['p'])} as IntoDerObject>::into_der_object", args=[v])
                if len(rr.rets()) != 1:
                    raise Unsupported(f"part {n} is written in several ways")
                exp.append(rr.rets()[0].val)
            else:
                exp.append(sapp(IDO, v))
        r.cases(f"written {what} is the sequence of its parts", [("any", TRUE, want(sapp(IDO, cat(*[one(x) for x in exp]))))])
    # the public functions
    rd = sapp("FromDerObject::deserialize", md.stream(md.dseq(A0)))
    r = ctx.run(f"{KP}::rsa::PublicKey::decode_x509")
    specified(r, "X.509 form read", [
        ("an X.509 key => the key in it", isok(rd), want_ok(fld(fld(okv(rd), info, "", [n for n, t in have[info] if t.get("p") == spk][0]), spk, "", tm.FIELDNAMES[spk][0]))),
        ("anything else => error", NOT(isok(rd)), want_err())])
    r = ctx.run(f"{KP}::rsa::PublicKey::encode_x509")
    for o in r.rets():
        evs = [e for e in o.st.trace if e.name.split("::")[-1] == "serialize" and "Der" in e.name]
        if len(evs) != 1:
            raise Unsupported("how the X.509 form is written is not recognised")
        v = evs[0].args[0]
        w = r.I.reify(o.st, v)
        kf = fld(fld(w, info, "", [n for n, t in have[info] if t.get("p") == spk][0]), spk, "", tm.FIELDNAMES[spk][0]) if evs[0].name.startswith("IntoDer") else None
        if kf is None:
            raise Unsupported("how the X.509 form is written is not recognised")
        ctx.oblige(equal_under(r.I, o.st, kf, A0), "X.509 form written holds the key", r.where, f"writes {show(kf)[:300]}")
        buf = r.I.reify(o.st, evs[0].args[1])
        if buf.op == "app" and len(buf.a) == 2 and buf.a[1].op == "seq":
            n = [x.val for x in ctx.run(f"{KP}::<{nm(info)} as IntoDerObject>::serialized_len", args=[w]).rets()]
            rule = "X.509 form fills its buffer"
            if len(n) == 1 and equal_under(r.I, o.st, length(buf.a[1]), n[0]):
                ctx.ok(rule, r.where)
            else:
                ctx.bad(rule, r.where, f"the buffer has {show(length(buf.a[1]))[:300]} bytes", phiok=True, path={})


def der_imports(ctx, k):
    rd = sapp("FromDerObject::deserialize", md.stream(md.dseq(A0)))
    ob = sapp(FDO, index(okv(rd), Int(1)))
    sec = sapp("libsecp256k1::SecretKey::parse_slice", okv(ob))
    sk = k.inner("Secp256k1", "SecretKey")
    good = AND(isok(rd), lt(Int(1), length(okv(rd))), isok(ob), isok(sec))
    r = ctx.run(f"{KP}::secp256k1::SecretKey::from_der")
    specified(r, "secp256k1 secret in DER form", [
        ("the key is the second object", good, want_ok(adt(sk, "", tuple(tm.FIELDNAMES[sk]), (okv(sec),)))),
        ("anything else => error", NOT(good), want_err())])
    if ctx.p.find(f"{KP}::secp256k1::PublicKey::encode_uncompressed"):
        r = ctx.run(f"{KP}::secp256k1::PublicKey::encode_uncompressed")
        r.cases("uncompressed form of a secp256k1 key", [("any", TRUE, want(sapp("libsecp256k1::PublicKey::serialize", only(A0, k.inner("Secp256k1", "PublicKey")))))])
    r = ctx.run(f"{KP}::KeyPair::secp256k1_from_der")
    specified(r, "secp256k1 pair in DER form", [
        ("the pair of the key", good, want_ok(secp_pair(k, okv(sec)))), ("anything else => error", NOT(good), want_err())])
    p8 = sapp("ring::rsa::signing::RsaKeyPair::from_pkcs8", A0)
    r = ctx.run(f"{KP}::rsa::Keypair::from_pkcs8")
    specified(r, "RSA pair in PKCS#8 form", [
        ("a pair", isok(p8), want_ok(adt(k.inner("Rsa", "Keypair"), "", ("0",), (okv(p8),)))), ("anything else => error", NOT(isok(p8)), want_err())])
    r = ctx.run(f"{KP}::KeyPair::rsa_from_pkcs8")
    specified(r, "RSA pair in PKCS#8 form", [
        ("a pair", isok(p8), want_ok(adt(k.PAIR, "Rsa", ("0",), (adt(k.inner("Rsa", "Keypair"), "", ("0",), (okv(p8),)),)))),
        ("anything else => error", NOT(isok(p8)), want_err())])


# -------------------------------------------------------------------------------- C45
SYSRNG = ("thread_rng", "OsRng", "ThreadRng", "SystemRandom", "rng", "getrandom")
DRAWS = ("fill_bytes", "try_fill_bytes", "fill", "getrandom")
SEEDED = ("seed_from_u64", "from_seed", "StepRng", "mock")
KEEP = ("parse", "parse_slice", "from_bytes", "to_bytes", "serialize", "from_keypair_bytes", "to_keypair_bytes", "as_bytes")


class Rand:
    """whether a secret is made of data drawn from the system's random generator"""

    def __init__(self, o):
        self.o = o

    def rng(self, t):
        """True: a system generator; False: a generator with a predictable state; None: unknown"""
        names = {str(x.a[0]) for x in walk(t) if x.op in ("app", "adt", "sym", "static", "mut", "const", "zst") and x.a}
        if any(x.op == "phi" for x in walk(t)):
            names |= {e.name for e in self.o.st.trace if e.kind == "call"}
        last = {p for n in names for p in n.split("::")}
        if any(s in last for s in SEEDED):
            return False
        return True if any(s in last for s in SYSRNG) else None

    def drawn(self, t):
        if t.op == "fld" and t.a[2] in ("Ok", "Some"):
            return self.drawn(t.a[0])
        if t.op == "adt":
            return self.all([self.drawn(x) for x in t.a[3:]]) if len(t.a) > 3 else False
        if t.op == "mut" and isinstance(t.a[0], str) and t.a[0].split("::")[-1] in DRAWS and t.a[1] in (0, 1):
            return self.rng(t)
        if t.op == "app" and isinstance(t.a[0], str):
            n = t.a[0].split("::")[-1]
            if n in ("generate", "random", "gen"):
                return self.rng(t.a[1]) if len(t.a) > 1 else True
            if n in KEEP and len(t.a) == 2:
                return self.drawn(t.a[1])
        if t.op in ("sub", "idx") and isinstance(t.a[0], T):
            return self.drawn(t.a[0])
        if t.op == "store":
            return self.all([self.drawn(t.a[0]), self.drawn(t.a[2])])
        if t.op in ("mod", "div") and t.a[1].op == "int" and 1 < t.a[1].a[0] < 256:
            return False        # some bits of the byte are lost
        if t.op == "phi":
            # a part the round that succeeds does not draw; in the first round it has its value from before the loop
            for e in self.o.st.trace:
                if e.kind == "loop":
                    return False
                if str(e.name).split("::")[-1] in DRAWS:
                    break
            return None
        if t.op == "int" or t.op == "seq" and not any(x.op in ("mut", "phi") or x.op == "app" for x in walk(t)):
            return False
        if t.op in ("seq", "sp", "el", "e", "lst"):
            return self.all([self.drawn(x) for x in tm.subterms(t)])
        if not any(x.op in ("mut", "phi", "app") for x in walk(t)):
            return False
        return None

    @staticmethod
    def all(xs):
        return False if False in xs else None if None in xs or not xs else True


def c45(ctx):
    k = KT(ctx)
    ed, sp = k.inner("Ed25519", "Keypair"), k.inner("Secp256k1", "Keypair")
    skE, skS = k.inner("Ed25519", "SecretKey"), k.inner("Secp256k1", "SecretKey")
    pair = lambda s: lambda v: (ed_secret if s == "Ed25519" else secp_secret)(k, v)
    fns = [("ed25519::Keypair::generate", lambda v: only(v, ed)), ("ed25519::SecretKey::generate", lambda v: only(v, skE)),
           ("secp256k1::SecretKey::generate", lambda v: only(v, skS)), ("secp256k1::Keypair::generate", lambda v: only(fld(v, sp, "", "secret"), skS)),
           ("KeyPair::generate_ed25519", pair("Ed25519")), ("KeyPair::generate_secp256k1", pair("Secp256k1"))]
    rule = "generated secret is drawn from the system's random generator"
    for fn, sec in fns:
        if not ctx.p.find(f"{KP}::{fn}"):
            continue
        r = ctx.run(f"{KP}::{fn}")
        judge(ctx, r, [(o, sec(o.val)) for o in r.rets()], rule)
    for s in ("Ed25519", "Secp256k1"):
        r = ctx.run(f"{KP}::KeyPair::generate", pre=[is_(A0, k.FMT, s)])
        judge(ctx, r, [(o, pair(s)(o.val)) for o in r.rets()], f"{rule} ({s})")


def judge(ctx, r, secrets, rule):
    ctx.oblige(len(secrets) > 0, rule, r.where, "never returns")
    for o, t in secrets:
        d = Rand(o).drawn(t)
        if d is None:
            ctx.unknown(rule, r.where, f"where {show(t)[:200]} comes from is not known")
        else:
            if not d:
                ctx.bad(rule, r.where, f"the secret is {re.sub(r'phi.*', '…', show(t))[:300]}", phiok=True, path={})
            else:
                ctx.ok(rule, r.where)


RULES = {"C01": c01, "C02": c02, "C03": c03, "C33": c33, "C34": c34, "C35": c35, "C37": c37, "C44": c44, "C45": c45}
