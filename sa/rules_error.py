"""C39: a reported failure names its true cause."""
import rules_core as rc
import rules_graph as rg
import rules_service as rs
from rules_core import TG, KP, PKV, LEAF, haskey, revmsg, CT, A0, A1, A2, A3, A4, A5
from rulelib import *

LOCAL = ("fluence_keypair", TG, "service")
CV, TV = f"{TG}::Certificate::verify", f"{TG}::Trust::verify"


def fails(I, st, x):
    return not any(feasible(I, s) for s in I.assume(st.copy(), isok(x)))


def literal(e):
    return e.op == "adt" and e.a[1]


def passed(e):
    """the call whose error e is"""
    if e.op == "fld" and e.a[0] is not None and e.op == "fld" and any(a == "Err" for a in e.a[1:]) and e.a[0].op == "app":
        return e.a[0]
    return None


class Causes:
    """variant -> check(I, st, fields) giving None when the named cause is the true one"""

    def __init__(self, ctx, path, table):
        self.ctx, self.path, self.table = ctx, path, table

    def judge(self, I, o, st, e, rule, where, verbatim=()):
        ctx = self.ctx
        if not literal(e):
            x = passed(e)
            if x is not None:
                # handed on (`?` applies the conversion between the two error types, judged above)
                ctx.oblige(fails(I, st, x), rule, where, f"reports the error of {show(x)[:150]}, which did not fail on this path",
                           path=path_of(I, Out("ret", st, o.val)))
                return
            ctx.unknown(rule, where, f"the error {show(e)[:200]} is not spelled out")
            return
        if e.a[0] != self.path:
            ctx.unknown(rule, where, f"error of type {e.a[0]}")
            return
        f = self.table.get(e.a[1])
        if f is None:
            ctx.unknown(rule, where, f"unknown kind of error {e.a[1]}")
            return
        why = f(I, st, [fld(e, e.a[0], e.a[1], n) for n in e.a[2]], e)
        ctx.oblige(why is None, rule, where, f"reports {show(e)[:250]}, but {why}", path=path_of(I, Out("ret", st, o.val)))

    def run(self, r, rule, verbatim=()):
        n = 0
        for o in r.rets():
            for st in r.I.assume(o.st.copy(), NOT(isok(o.val))):
                if not feasible(r.I, st):
                    continue
                n += 1
                e = fld(r.I.reify(st, o.val), RES, "Err", "0")
                self.judge(r.I, o, st, e, rule, r.where, verbatim)
        return n


def never(what):
    return lambda I, st, fs, e: f"that is not a reason for {what} to fail"


def holds(cond, text):
    def chk(I, st, fs, e):
        return None if entails(I, st, cond) else f"{text} is not established on this path"
    return chk


def err_of(*calls, text):
    """the payload is the error of one of the calls, which failed"""
    def chk(I, st, fs, e):
        for c in calls:
            if equal_under(I, st, fs[-1], errv(c)):
                return None if fails(I, st, c) else f"{text} did not fail on this path"
        return f"its cause is not the failure of {text}"
    return chk


def both_(*cs):
    def chk(I, st, fs, e):
        for c in cs:
            x = c(I, st, fs, e)
            if x:
                return x
    return chk


# ------------------------------------------------------------------ conversions between error types
def conversions(ctx):
    n = 0
    for b in sorted(ctx.p.bodies.values(), key=lambda b: b.key):
        if b.crate not in LOCAL or b.kind != "fn" or b.name != "from" or b.argc != 1 or not b.trait or not b.targs:
            continue
        rt = ctx.p.types[b.crate][b.locals[0]]
        src = b.targs[0]
        target = b.short.split("<")[1].split(" as ")[0]
        if not target.endswith("Error") and not (target == "String" and src.endswith("Error")):
            continue
        rule = f"conversion of {src} to {target} keeps the error"
        try:
            r = ctx.run(b)
        except Unsupported as e:
            if "call depth" in str(e) or "recurs" in str(e):
                ctx.bad(rule, f"{b.short} ({b.span if hasattr(b, 'span') else ''})", "the conversion calls itself without end", path={})
            else:
                ctx.unknown(rule, b.short, e)
            continue
        n += 1
        r.no_panic(rule)
        for o in r.rets():
            v = r.I.reify(o.st, o.val)
            if any(x.op == "app" and str(x.a[0]).startswith("std?rec:") and A0 in x.a for x in walk(v)):
                ctx.obl.append((rule, r.where, False))
                ctx.viol.append(dict(rule=rule, where=r.where, detail="the conversion calls itself without end", path=path_of(r.I, o)))
                continue
            if target == "String":
                good = v.op in ("app", "seq") and any(x.op == "app" and str(x.a[0]).startswith("display<") and A0 in x.a for x in walk(v))
                why = "is not its display text"
            else:
                good = v.op == "adt" and any(x is A0 for x in v.a[3:])
                why = "does not carry the original error"
                if good:
                    good, why = own_variant(ctx, b, rt, v, src), "is of a kind meant for another error"
            ctx.oblige(good, rule, r.where, f"the result {show(v)[:200]} {why}", path=path_of(r.I, o))
    return n


OWN = {("TrustGraphError", "CertificateError"): "CertificateCheckError", ("TrustGraphError", "RevokeError"): "RevokeCheckError",
       ("TrustGraphError", "TrustError"): "TrustVerificationError", ("ServiceError", "TrustGraphError"): "TGError",
       ("ServiceError", "CertificateError"): "CertError", ("ServiceError", "DtoConversionError"): "DtoError",
       ("ServiceError", "TrustError"): "TrustError", ("ServiceError", "DecodingError"): "PublicKeyDecodeError",
       ("RevokeError", "VerificationError"): "IncorrectSignature", ("TrustError", "VerificationError"): "SignatureError",
       ("TrustGraphError", "T"): "InternalStorageError"}


def own_variant(ctx, b, rt, v, src):
    w = OWN.get((b.short.split("<")[1].split(" as ")[0].split("::")[-1], src.split("::")[-1]))
    return w is None or v.a[1] == w


# ------------------------------------------------------------------ C39
def c39(ctx):
    n = conversions(ctx)
    if n < 10:
        ctx.notes.append(f"only {n} error conversions found")
    c = CT(ctx)
    TE, CE, RE = ctx.adt(TG, "TrustError"), ctx.adt(TG, "CertificateError"), ctx.adt(TG, "RevokeError")
    GE = ctx.adt(TG, "TrustGraphError")
    f = c.t
    # a trust
    r = ctx.run(TV, leaf=LEAF)
    sig = sapp(PKV, A1, c.tmsg(A0), f(A0, "signature"))

    def expired(I, st, fs, e):
        if not equal_under(I, st, fs[0], f(A0, "expires_at")) or not equal_under(I, st, fs[1], A2):
            return "the times named are not the trust's expiry and the time of the check"
        return None if entails(I, st, lt(f(A0, "expires_at"), A2)) else "the trust is not expired on this path"
    other = {v: never("a trust check") for v in variants(ctx, TE)}
    Causes(ctx, TE, {**other, "Expired": expired, "SignatureError": err_of(sig, text="the signature check")}).run(
        r, "a refused trust: the named cause is the true one")
    # a revocation
    r = ctx.run(f"{TG}::Revocation::verify", leaf=LEAF)
    g = lambda n: fld(A0, c.REV, "", n)
    sig = sapp(PKV, g("revoked_by"), revmsg(c, g("pk"), g("revoked_at")), g("signature"))
    Causes(ctx, RE, {**{v: never("a revocation check") for v in variants(ctx, RE)},
                     "IncorrectSignature": err_of(sig, text="the signature check")}).run(
        r, "a refused revocation: the named cause is the true one")
    # certificates
    cv = variants(ctx, CE)

    def link(ch, now, extra=None):
        def chk(I, st, fs, e):
            i = fs[0]
            cands = []
            if ch is not None:
                cands.append((i, sapp(TV, index(ch, i), f(index(ch, sub(i, Int(1))), "issued_for"), now)))
            if extra:
                cands.append(extra)
            for want_i, call in cands:
                if equal_under(I, st, fs[1], errv(call)):
                    if callable(want_i):
                        e = want_i(I, st, i)
                        if e:
                            return e
                    elif want_i is not None and not equal_under(I, st, i, want_i):
                        return f"the position named is {show(i)[:100]} instead of {show(want_i)[:100]}"
                    return None if fails(I, st, call) else "that link did not fail on this path"
            return "its cause is not the failed check of the trust at that position under its predecessor's key"
        return chk
    ch = c.chain(A0)
    first = index(ch, Int(0))
    r = ctx.run(CV, leaf=(TV,))
    Causes(ctx, CE, {**{v: never("a certificate check") for v in cv},
                     "CertificateLengthError": holds(le0(length(ch)), "an empty chain"),
                     "NoTrustedRoot": holds(NOT(rc.md.member(f(first, "issued_for"), A1)), "a first key outside the trusted roots"),
                     "MalformedRoot": err_of(sapp(TV, first, f(first, "issued_for"), A2), text="the check of the first trust"),
                     "VerificationError": link(ch, A2)}).run(r, "a refused certificate: the named cause is the true one")
    r = ctx.run(f"{TG}::Certificate::new_from_root_trust", leaf=(TV,))
    iss = f(A0, "issued_for")
    Causes(ctx, CE, {**{v: never("building a certificate") for v in cv},
                     "MalformedRoot": err_of(sapp(TV, A0, iss, A2), text="the check of the root trust"),
                     "VerificationError": link(None, A2, (Int(1), sapp(TV, A1, iss, A2)))}).run(
        r, "a certificate that cannot be built: the named cause is the true one")

    def order(exp, iat):
        def chk(I, st, fs, e):
            d = dict(zip(e.a[2], fs))
            if set(d) == {"expires_at", "issued_at"}:
                for nme, t, o in (("expires_at", exp, iat), ("issued_at", iat, exp)):
                    if not occurs(t, d[nme]) or occurs(o, d[nme]):
                        return f"its {nme} is {show(d[nme])[:100]}"
            return None if entails(I, st, lt(exp, iat)) else "the trust does not expire before it is issued on this path"
        return chk
    def after_issuer(base, issuer):
        """the position named is the one after the issuer's last trust"""
        def chk(I, st, i):
            k = mk("k", "later")
            last = index(base, sub(i, Int(1)))
            later = forall(sub(length(base), i), NOT(tm.eq(f(index(base, add(i, k)), "issued_for"), issuer)), k)
            if entails(I, st, NOT(le0(i))) and entails(I, st, tm.eq(f(last, "issued_for"), issuer)) and entails(I, st, later):
                return None
            return f"the position named is {show(i)[:150]}, not the one the new trust would take"
        return chk
    for fn, me, exp, iat, now, extra in (("issue", sapp(rc.PUB, A0), A3, A4, A5, None),
                                         ("issue_with_trust", A0, f(A1, "expires_at"), f(A1, "issued_at"), A3, A1)):
        base = c.chain(A2)
        r = ctx.run(f"{TG}::Certificate::{fn}", leaf=(TV, CV, f"{TG}::Trust::create", rc.PUB, rc.SIGN))
        Causes(ctx, CE, {**{v: never("extending a certificate") for v in cv},
                         "ExpirationError": order(exp, iat),
                         "CertificateLengthError": holds(le0(length(base)), "an empty chain"),
                         "KeyInCertificateError": holds(NOT(haskey(c, base, me)), "a certificate without the issuer's key"),
                         "VerificationError": link(None, now, (after_issuer(base, A0), sapp(TV, A1, A0, A3)) if extra is not None else None)}).run(
            r, f"{fn}: the named cause is the true one", verbatim=(CV,))
    parse_causes(ctx, c, TE, CE)
    graph_causes(ctx, c, GE, variants(ctx, GE), CE)
    service_causes(ctx)


def parse_causes(ctx, c, TE, CE):
    """refused bytes and text: the field named is the one that does not parse, with its own error"""
    tv, cv = variants(ctx, TE), variants(ctx, CE)

    def field(parse):
        """(label, text, error of parsing that text)"""
        def chk(I, st, fs, e):
            for label, text in parse[1]:
                call = sapp(parse[0], text)
                if equal_under(I, st, fs[-1], errv(call)):
                    if not fails(I, st, call):
                        return f"`{label}` parses on this path"
                    for x in fs[:-1]:
                        if not (x is strlit(label) or equal_under(I, st, x, strlit(label)) or equal_under(I, st, x, text)):
                            return f"it names {show(x)[:100]} where `{label}` does not parse"
                    return None
            return "its cause is not the failure of a field of that kind"
        return chk
    fn = f"{TG}::Trust::convert_from_strings"
    b = sapp("b58dec", A0)

    def key(I, st, fs, e):
        call = sapp(rc.PKD, okv(b))
        if not equal_under(I, st, fs[-1], errv(call)):
            return "its cause is not the failure to decode the subject key"
        return None if fails(I, st, call) else "the subject key decodes on this path"

    def decoding(I, st, fs, e):
        x = passed(fs[-1])
        if x is None or x.a[0] not in (rc.PKD, rc.SGD):
            return "its cause is not the failure to decode the subject key or the signature"
        return None if fails(I, st, x) else "that decodes on this path"
    r = ctx.run(fn, leaf=LEAF)
    Causes(ctx, TE, {**{v: never("parsing a trust's text") for v in tv},
                     "Base58DecodeError": field(("b58dec", (("issued_for", A0), ("signature", A1)))),
                     "ParseError": field(("parse<u64>", (("expires_at", A2), ("issued_at", A3)))),
                     "DecodePublicKeyError": key, "PublicKeyError": decoding}).run(r, "a refused trust text: the named cause is the true one")
    # bytes of a trust
    n = length(A0)
    pk = tm.zext(8, index(A0, Int(0)))
    sl = tm.zext(8, index(A0, add(pk, Int(1))))
    need = {"public_key_len": le0(n), "public_key": lt(n, add(pk, Int(1))), "signature_size": lt(n, add(pk, Int(2))),
            "signature": lt(n, add(add(pk, sl), Int(2))), "expiration": lt(n, add(add(pk, sl), Int(10))),
            "issued": NOT(tm.eq(n, add(add(pk, sl), Int(18))))}

    def size(I, st, fs, e):
        for label, g in need.items():
            if fs[0] is strlit(label):
                return None if entails(I, st, g) else f"`{label}` is complete on this path"
        if not isinstance(fs[0], T) or fs[0].op != "seq":
            return "the field is not named"
        return None if entails(I, st, OR(*need.values())) else "no field is cut short on this path"
    r = ctx.run(f"{TG}::Trust::decode", leaf=LEAF)
    Causes(ctx, TE, {**{v: never("decoding a trust's bytes") for v in tv}, "DecodeErrorInvalidSize": size,
                     "PublicKeyError": decoding}).run(
        r, "refused trust bytes: the named cause is the true one")
    # text of a certificate
    ls = sapp("lines", A0)
    L = length(ls)
    shape = AND(le(Int(2), L), le0(divmod_("mod", sub(L, Int(2)), Int(4))))

    def of_trust(callee):
        def chk(I, st, fs, e):
            x = passed(fs[-1])
            if x is None or x.a[0] != callee:
                return "its cause is not the failure of one of the certificate's trusts"
            return None if fails(I, st, x) else "that trust parses on this path"
        return chk
    r = ctx.run(f"{TG}::<Certificate as FromStr>::from_str", leaf=(fn,))
    Causes(ctx, CE, {**{v: never("parsing a certificate's text") for v in cv},
                     "IncorrectCertificateFormat": holds(NOT(shape), "a wrong number of lines"),
                     "DecodeTrustError": of_trust(fn)}).run(r, "a refused certificate text: the named cause is the true one")
    r = ctx.run(f"{TG}::Certificate::decode", leaf=(f"{TG}::Trust::decode",))
    short = OR(lt(n, Int(7)), lt(tm.zext(8, index(A0, Int(6))), Int(2)))

    def cut(I, st, fs, e):
        # further cuts lie at positions that depend on the trusts before them
        if entails(I, st, short) or any(a.op == "le0" and any(y.op in ("phi", "psum", "k") for y in walk(a)) for a in st.facts):
            return None
        return "neither the header nor a trust is cut short on this path"
    Causes(ctx, CE, {**{v: never("decoding a certificate's bytes") for v in cv}, "CertificateLengthError": cut, "IncorrectByteLength": cut,
                     "DecodeError": of_trust(f"{TG}::Trust::decode")}).run(r, "refused certificate bytes: the named cause is the true one")


def variants(ctx, path):
    return list(tm.VARIANTS.get(path, ())) if hasattr(tm, "VARIANTS") else [v["name"] for v in ctx.p.adts[path]["variants"]]


def graph_causes(ctx, c, GE, gv, CE):
    T = rg.GT(ctx)

    def stored(I, st, fs, e, o):
        for ev, ins in rg.flat(o.st.trace):
            if rg.name(ev).split("::")[-2:-1] == ["Storage"] and equal_under(I, st, fs[0], errv(ev.res)):
                return None if fails(I, st, ev.res) else "that storage call did not fail on this path"
        return "its cause is not the failure of a storage call on this path"
    base = {v: never("this operation") for v in gv}
    spec = {
        "add_trust": ((rg.TV, rg.W), {"TrustVerificationError": err_of(sapp(rg.TV, A1, A2, A3), text="the check of the trust")}, (rg.W,)),
        "revoke": ((rg.RV,), {"RevokeCheckError": err_of(sapp(rg.RV, A1), text="the check of the revocation")}, ()),
        "add": ((rg.ADDT,), {"EmptyChain": holds(le0(length(c.chain(A1))), "an empty chain")}, (rg.ADDT,)),
        "set_root": ((), {}, ()), "get_revocations": ((), {}, ()),
        "weight": ((rg.GAC, f"{rg.G}::certificates_weight_factor"), {}, (rg.GAC, f"{rg.G}::certificates_weight_factor")),
        "get_all_certs_from": ((rg.GAC,), {}, (rg.GAC,)),
    }
    for fn, (leaf, tab, verb) in spec.items():
        rule = f"{fn}: the named cause is the true one"
        try:
            r = ctx.run(f"{rg.G}::{fn}", leaf=leaf)
        except Unsupported as e:
            ctx.unknown(rule, fn, e)
            continue
        for o in r.rets():
            tab2 = {**base, **tab, "InternalStorageError": lambda I, st, fs, e, o=o: stored(I, st, fs, e, o)}
            for st in r.I.assume(o.st.copy(), NOT(isok(o.val))):
                if feasible(r.I, st):
                    Causes(ctx, GE, tab2).judge(r.I, o, st, fld(r.I.reify(st, o.val), RES, "Err", "0"), rule, r.where, verb)


def service_causes(ctx):
    T = rs.S(ctx)
    SE = ctx.adt("service", "ServiceError")

    def chk(f, r):
        I = r.I
        rule = f"{f.name}: the reported cause is the true one"
        for o in r.rets():
            s = rs.resfield(ctx, f, o.val, "success")
            er = rs.resfield(ctx, f, o.val, "error")
            for st in rs.states(I, o, NOT(s)):
                e = displayed(er)
                if e is None:
                    ctx.unknown(rule, r.where, f"error text {show(er)[:150]}")
                    continue
                # the error as it was raised, below the wrappers
                while literal(e) and len(e.a) == 4 and e.a[1] in WRAPPERS and (literal(e.a[3]) or passed(e.a[3]) is not None):
                    e = e.a[3]
                why = None
                x = passed(e)
                k = e.a[1] if literal(e) else None
                if x is not None:
                    if not fails(I, st, x):
                        why = "that did not fail on this path"
                elif k == "NotOwner":
                    own = tm.eq(rs.cp("init_peer_id"), rs.cp("service_creator_peer_id"))
                    if not f.owner or not entails(I, st, NOT(own)):
                        why = "the caller is not shown to be another than the owner"
                elif k == "InvalidTimestampTetraplet":
                    if f.ts is None or not entails(I, st, NOT(rs.trusted(f.ts))):
                        why = "the time argument is not shown to come from elsewhere than the host's clock"
                elif k == "InvalidTimestamp":
                    if f.future is None or not entails(I, st, f.future):
                        why = "no relation dated in the future is established on this path"
                elif k in ("PublicKeyExtractionError", "PeerIdParseError", "PeerIdDecodeError"):
                    if not any(entails(I, st, NOT(g)) for g in f.guards):
                        why = "every key given parses on this path"
                else:
                    ctx.unknown(rule, r.where, f"error {show(e)[:150]}")
                    continue
                ctx.oblige(why is None, rule, r.where, f"reports {show(e)[:250]}, but {why}", path=path_of(I, Out("ret", st, o.val)))
    rs.each(ctx, rs.table(T), chk)


WRAPPERS = ("TGError", "TrustError", "CertError", "DtoError", "PublicKeyDecodeError", "InvalidKeyFormat", "Base58Error")


def displayed(t):
    """the error whose display text t is"""
    if t.op == "seq" and len(t.a) == 1:
        t = t.a[0].a[0] if t.a[0].op == "sp" else t
    if t.op == "app" and str(t.a[0]).startswith("display<") and len(t.a) == 2:
        return t.a[1]
    return None


RULES = {"C39": c39}
