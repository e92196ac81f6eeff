"""Rules about the Marine service around the graph: C27 - C32, C36."""
import glob
import re

import build
from rulelib import *
from rules_keypair import KP, A0, A1, A2, A3
from rules_core import CT, TG, NANO, secs
from rules_graph import flat
import models as md

SV = "service"
G = f"{TG}::TrustGraph"
PKTRY = f"{KP}::<PublicKey as TryFrom>::try_from"
PID = f"{KP}::PublicKey::to_peer_id"
B58 = "libp2p_identity::peer_id::PeerId::to_base58"
PARSE = "parse<libp2p_identity::PeerId>"
SGFB = f"{KP}::Signature::from_bytes"
KFS = f"{KP}::<KeyFormat as FromStr>::from_str"
KFN = f"{KP}::<String as From>::from"
RAW = f"{KP}::Signature::get_raw_signature"
GKF = f"{KP}::PublicKey::get_key_format"
TVER = f"{TG}::Trust::verify"
TSB, RSB = f"{TG}::Trust::signature_bytes", f"{TG}::Revocation::signature_bytes"
CFS = f"{TG}::<Certificate as FromStr>::from_str"
BASE = frozenset({PKTRY, PID, SGFB, KFS, KFN, RAW, TVER, TSB, RSB, CFS})
ISSUE = frozenset({PKTRY, PID, KFN})          # signature bytes are followed through
CPN = "marine_call_parameters::get_call_parameters"
CPT, TET = "marine_call_parameters::CallParameters", "marine_call_parameters::SecurityTetraplet"
CP = mk("app", CPN)


def leaf(s, b):
    return s in BASE or s.startswith(G + "::")


def leaf_issue(s, b):
    return s in ISSUE or s.startswith(G + "::")


def cp(n):
    return fld(CP, CPT, "", n)


def trusted(i):
    """the tetraplet of argument i is the host's clock"""
    ts = cp("tetraplets")
    ti = index(ts, Int(i))
    t = index(ti, Int(0))
    return AND(lt(Int(i), length(ts)), lt(Int(0), length(ti)), eq(fld(t, TET, "", "service_id"), strlit("peer")),
               eq(fld(t, TET, "", "function_name"), strlit("timestamp_sec")), eq(fld(t, TET, "", "peer_pk"), cp("host_id")))


def key(x):
    p = sapp(PARSE, x)
    t = sapp(PKTRY, okv(p))
    return AND(isok(p), isok(t)), okv(t)


def time(x):
    return scale(x, NANO)


class S(CT):
    def __init__(self, ctx):
        CT.__init__(self, ctx)
        self.DT, self.DR, self.DC = (ctx.adt(SV, n, "dto") for n in ("Trust", "Revocation", "Certificate"))
        for n in ("service_creator_peer_id", "init_peer_id", "host_id", "tetraplets"):
            if n not in tm.FIELDNAMES.get(CPT, ()):
                raise Unsupported("the SDK's call parameters have changed")

    # ---- inward
    def tin(self, x):
        """(convertible, internal trust) of a service trust"""
        f = lambda n: fld(x, self.DT, "", n)
        g, pk = key(f("issued_for"))
        s, sf = sapp("b58dec", f("signature")), sapp(KFS, f("sig_type"))
        return AND(g, isok(s), isok(sf)), self.mktrust(
            issued_for=pk, expires_at=time(f("expires_at")), issued_at=time(f("issued_at")), signature=sapp(SGFB, okv(sf), okv(s)))

    def rin(self, x):
        f = lambda n: fld(x, self.DR, "", n)
        g1, pk = key(f("revoked_peer_id"))
        g2, by = key(f("revoked_by"))
        s, sf = sapp("b58dec", f("signature")), sapp(KFS, f("sig_type"))
        return AND(g1, g2, isok(s), isok(sf)), self.mkrev(pk=pk, revoked_by=by, revoked_at=time(f("revoked_at")),
                                                         signature=sapp(SGFB, okv(sf), okv(s)))

    def cin(self, x):
        ch = fld(x, self.DC, "", "chain")
        k = mk("k", ("spec", "cin"))
        g, t = self.tin(index(ch, k))
        return forall(length(ch), g, k), self.mkcert(seq_of([comp(length(ch), [(TRUE, one(t))], k)]))

    def mkrev(self, **kw):
        ns = tuple(tm.FIELDNAMES[self.REV])
        return adt(self.REV, "", ns, tuple(kw[n] for n in ns))

    # ---- outward
    def mkd(self, path, **kw):
        ns = tuple(tm.FIELDNAMES[path])
        return adt(path, "", ns, tuple(kw[n] for n in ns))

    def tout(self, t):
        raw = sapp(RAW, self.t(t, "signature"))
        return self.mkd(self.DT, issued_for=sapp(B58, sapp(PID, self.t(t, "issued_for"))), expires_at=secs(self.t(t, "expires_at")),
                        issued_at=secs(self.t(t, "issued_at")), signature=sapp("b58enc", self.raw(raw, "bytes")),
                        sig_type=sapp(KFN, self.raw(raw, "sig_type")))

    def rout(self, r):
        raw = sapp(RAW, fld(r, self.REV, "", "signature"))
        return self.mkd(self.DR, revoked_peer_id=sapp(B58, sapp(PID, fld(r, self.REV, "", "pk"))),
                        revoked_by=sapp(B58, sapp(PID, fld(r, self.REV, "", "revoked_by"))), revoked_at=secs(fld(r, self.REV, "", "revoked_at")),
                        signature=sapp("b58enc", self.raw(raw, "bytes")), sig_type=sapp(KFN, self.raw(raw, "sig_type")))

    def cout(self, c):
        return self.mkd(self.DC, chain=self.map(self.chain(c), self.tout, "cout"))

    def map(self, s, f, hint):
        k = mk("k", ("spec", hint))
        return seq_of([comp(length(s), [(TRUE, one(f(index(s, k))))], k)])

    def raw(self, r, n):
        p = self.ctx.adt(KP, "RawSignature")
        return fld(r, p, "", n)


class Fn:
    """what an exported function does: guards, then one operation, then its result"""
    def __init__(self, name, argc, ts=None, guards=(), op=None, args=(), pure=None, pay=None, future=None, owner=False, leaf=leaf):
        self.name, self.argc, self.ts, self.guards, self.op, self.args = name, argc, ts, list(guards), op, list(args)
        self.pure, self.pay, self.future, self.owner, self.leaf = pure, pay or (lambda v: {}), future, owner, leaf

    @property
    def short(self):
        return f"{SV}::{self.name}"


def table(T):
    k0, k1 = key(A0), key(A1)
    host = key(cp("host_id"))
    ct, ck = T.cin(A0), mk("k", ("spec", "fut"))
    raw = sapp(CFS, A0)

    def linkfut(cert, now):
        ch = T.chain(cert)
        return NOT(forall(length(ch), le(T.t(index(ch, ck), "issued_at"), now), ck))
    certs = lambda v: {"certificates": T.map(v, T.cout, "certs")}
    tin, rin = T.tin(A0), T.rin(A0)
    out = [
        Fn("set_root", 2, guards=[k0[0]], op="set_root", args=[k0[1], A1], owner=True),
        Fn("insert_cert_raw", 2, ts=1, guards=[isok(raw)], op="add", args=[okv(raw), time(A1)], future=linkfut(okv(raw), time(A1))),
        Fn("insert_cert", 2, ts=1, guards=[ct[0]], op="add", args=[ct[1], time(A1)], future=linkfut(ct[1], time(A1))),
        Fn("get_all_certs", 2, ts=1, guards=[k0[0]], op="get_all_certs", args=[k0[1], time(A1)], pay=certs),
        Fn("get_all_certs_from", 3, ts=2, guards=[k0[0], k1[0]], op="get_all_certs_from", args=[k0[1], k1[1], time(A2)], pay=certs),
        Fn("get_host_certs", 1, ts=0, guards=[host[0]], op="get_all_certs", args=[host[1], time(A0)], pay=certs),
        Fn("get_host_certs_from", 2, ts=1, guards=[host[0], k0[0]], op="get_all_certs_from", args=[host[1], k0[1], time(A1)], pay=certs),
        Fn("get_weight", 2, ts=1, guards=[k0[0]], op="weight", args=[k0[1], time(A1)], pay=lambda v: {"weight": v, "peer_id": A0}),
        Fn("get_weight_from", 3, ts=2, guards=[k0[0], k1[0]], op="weight_from", args=[k0[1], k1[1], time(A2)],
           pay=lambda v: {"weight": v, "peer_id": A0}),
        Fn("get_trust_bytes", 3, guards=[k0[0]], pure=True, pay=lambda v: {"result": sapp(TSB, k0[1], time(A1), time(A2))}),
        Fn("issue_trust", 4, guards=[k0[0]], pure=True, leaf=leaf_issue, pay=lambda v: {
            "trust": {"issued_for": sapp(B58, sapp(PID, k0[1])), "expires_at": A1, "issued_at": A2, "signature": sapp("b58enc", A3)}}),
        Fn("verify_trust", 3, ts=2, guards=[tin[0], k1[0]], op=TVER, args=[tin[1], k1[1], time(A2)]),
        Fn("add_trust", 3, ts=2, guards=[tin[0], k1[0]], op="add_trust", args=[tin[1], k1[1], time(A2)],
           future=lt(A2, fld(A0, T.DT, "", "issued_at")), pay=lambda v: {"weight": v}),
        Fn("get_revocation_bytes", 2, guards=[k0[0]], pure=True, pay=lambda v: {"result": sapp(RSB, k0[1], time(A1))}),
        Fn("issue_revocation", 4, guards=[k0[0], k1[0]], pure=True, leaf=leaf_issue, pay=lambda v: {
            "revocation": {"revoked_by": sapp(B58, sapp(PID, k0[1])), "revoked_peer_id": sapp(B58, sapp(PID, k1[1])),
                           "revoked_at": A2, "signature": sapp("b58enc", A3)}}),
        Fn("revoke", 2, ts=1, guards=[rin[0]], op="revoke", args=[rin[1]], future=lt(A1, fld(A0, T.DR, "", "revoked_at"))),
        Fn("export_revocations", 1, guards=[k0[0]], op="get_revocations", args=[k0[1]],
           pay=lambda v: {"revocations": T.map(v, T.rout, "revs")}),
    ]
    return out


def opname(f):
    return f.op if f.op is None or "::" in f.op else f"{G}::{f.op}"


def graph_calls(o):
    return [e for e, ins in flat(o.st.trace) if e.name.startswith(G + "::")]


def field(v, n, ctx=None):
    """field of a result struct by name"""
    if v.op == "adt":
        ns = v.a[2]
        if n in ns:
            return v.a[3 + ns.index(n)]
    return None


def resfield(ctx, f, v, n):
    x = field(v, n)
    if x is None:
        b = ctx.body(f.short)
        ty = ctx.p.types[SV][b.locals[0]]
        x = fld(v, ty.get("p", "?"), "", n)
    return x


def states(I, o, g):
    return [s for s in I.assume(o.st.copy(), g) if feasible(I, s)]


def fails(ctx, f, I, st, v):
    """None when the result reports failure"""
    s = resfield(ctx, f, v, "success")
    if I.truth(st, s) is False:
        return None
    return f"the result reports success={show(s)} ({show(v)[:200]})"


def run(ctx, f):
    b = ctx.body(f.short)
    if b.argc != f.argc:
        raise Unsupported(f"{f.short} takes {b.argc} arguments, {f.argc} expected")
    r = ctx.run(b, leaf=f.leaf, opts={"budget": 4000000})
    return r


def each(ctx, fns, chk):
    """run a check per function; one that cannot be analysed does not stop the others"""
    for f in fns:
        try:
            chk(f, run(ctx, f))
        except Unsupported as e:
            ctx.unknown("analysis", f.short, e)


# ------------------------------------------------------------------ C27
def c27(ctx):
    T = S(ctx)
    f = [x for x in table(T) if x.owner][0]
    r = run(ctx, f)
    I = r.I
    own = eq(cp("service_creator_peer_id"), cp("init_peer_id"))
    n = 0
    for o in r.outs:
        for st in states(I, o, NOT(own)):
            n += 1
            gc = graph_calls(o)
            ctx.oblige(not gc, "a stranger's call does not touch the graph", r.where, f"calls {gc!r}"[:300], path=path_of(I, o))
            if o.kind == "ret":
                e = fails(ctx, f, I, st, o.val)
                ctx.oblige(e is None, "a stranger's call reports failure", r.where, e, path=path_of(I, o))
        for st in states(I, o, own):
            n += 1
            for e in graph_calls(o):
                good = e.name == opname(f) and len(e.args) == 3 and all(equal_under(I, st, a, w) for a, w in zip(e.args[1:], f.args))
                ctx.oblige(good, "the owner's call registers the given peer with the given length", r.where, f"calls {e!r}"[:400], path=path_of(I, o))
        for st in states(I, o, AND(own, *f.guards)):
            ctx.oblige(len(graph_calls(o)) == 1, "the owner's call registers the root", r.where, f"calls {graph_calls(o)!r}"[:300], path=path_of(I, o))
    # nothing else registers roots
    from rules_graph import callgraph, owner
    cg = callgraph(ctx.p)
    anchor = ctx.body(f.short)
    for b in ctx.p.bodies.values():
        if b.crate != SV or b.kind == "std":
            continue
        for fn, k, span in cg[b.key]:
            tgt = ctx.p.bodies.get(k)
            if tgt is not None and tgt.short in (f"{G}::set_root",):
                ok_ = only_from(ctx.p, cg, owner(ctx.p, b), anchor)
                ctx.oblige(ok_, "roots are registered only by set_root", f"{b.short} ({b.span})", f"registers a root (at {span})")
    if not n:
        ctx.unknown("C27", r.where, "no path")
    from rules_graph import root_setup
    root_setup(ctx)


def only_from(P, cg, b, anchor, seen=None):
    from rules_graph import callers, owner
    if b.key == anchor.key:
        return True
    seen = seen or set()
    if b.key in seen:
        return True
    seen.add(b.key)
    if b.key in marine_exports(P)[0]:
        return False
    cs = [c for c in callers(P, cg).get(b.key, ()) if c in P.bodies]
    return all(only_from(P, cg, owner(P, P.bodies[c]), anchor, seen) for c in cs)


# ------------------------------------------------------------------ C28
def c28(ctx):
    T = S(ctx)
    fns = table(T)

    def chk(f, r):
        I = r.I
        g = trusted(f.ts)
        n = 0
        for o in r.outs:
            for st in states(I, o, NOT(g)):
                n += 1
                gc = graph_calls(o)
                ctx.oblige(not gc, f"{f.name}: an untrusted time does not reach the graph", r.where,
                           f"calls {gc!r}"[:300] + " although the tetraplet of argument %d is not the host's clock" % f.ts, path=path_of(I, Out("ret", st, o.val)))
                if o.kind == "ret":
                    e = fails(ctx, f, I, st, o.val)
                    ctx.oblige(e is None, f"{f.name}: an untrusted time is refused", r.where, e, path=path_of(I, Out("ret", st, o.val)))
            for st in states(I, o, g):
                n += 1
        acc = any(graph_calls(o) or any(e.name == opname(f) for e, _ in flat(o.st.trace)) for o in r.outs)
        ctx.oblige(acc, f"{f.name}: the host's clock is accepted", r.where, "no path performs the operation")
        if not n:
            ctx.unknown("C28", r.where, "no path")
    known = [f for f in fns if f.ts is not None]
    each(ctx, known, chk)
    # any other export with a timestamp argument
    exp, _ = marine_exports(ctx.p)
    names = {f.name for f in fns}
    for k in exp:
        b = ctx.p.bodies[k]
        if b.name in names:
            continue
        for i in range(b.argc):
            if (b.names.get(str(i + 1)) or "").startswith("timestamp"):
                f = Fn(b.name, b.argc, ts=i)
                each(ctx, [f], chk)


# ------------------------------------------------------------------ C29
def c29(ctx):
    T = S(ctx)

    def chk(f, r):
        I = r.I
        n = 0
        for o in r.outs:
            gc = graph_calls(o)
            if gc:
                n += 1
                bad = states(I, o, f.future)
                ctx.oblige(not bad, f"{f.name}: nothing dated in the future is stored", r.where,
                           f"calls {gc[0].name} for a document created after the current time", **({"path": path_of(I, Out("ret", bad[0], o.val))} if bad else {}))
            if o.kind == "ret":
                for st in states(I, o, f.future):
                    n += 1
                    e = fails(ctx, f, I, st, o.val)
                    ctx.oblige(e is None, f"{f.name}: a document dated in the future is refused", r.where, e, path=path_of(I, Out("ret", st, o.val)))
            if not gc:
                bad = states(I, o, AND(trusted(f.ts), NOT(f.future), *f.guards))
                ctx.oblige(not bad, f"{f.name}: a document that is not dated in the future is submitted to the graph", r.where,
                           f"returns {show(o.val)[:200]} without submitting it", **({"path": path_of(I, Out("ret", bad[0], o.val))} if bad else {}))
        if not n:
            ctx.unknown("C29", r.where, "no path")
    each(ctx, [f for f in table(T) if f.future is not None], chk)
    # the same time is used for the comparison and for the admission: C36


# ------------------------------------------------------------------ C30
def default_ok(I, st, v):
    if v.op == "int":
        return v.a[0] == 0
    if v.op == "seq":
        return not v.a or length(v) is Int(0)
    if v.op == "adt":
        return all(default_ok(I, st, x) for x in v.a[3:])
    return I.truth(st, le0(length(v))) is True


def c30(ctx):
    T = S(ctx)
    # the conversions
    seen = 0
    for b in sorted(ctx.p.bodies.values(), key=lambda b: b.key):
        if b.crate != SV or b.kind != "fn" or b.name != "from" or b.argc != 1 or not b.trait:
            continue
        rt, at = ctx.p.types[SV][b.locals[0]], ctx.p.types[SV][b.locals[1]]
        if rt["k"] != "adt" or "success" not in tm.FIELDNAMES.get(rt["p"], ()) or not at.get("p", "").endswith("Result"):
            continue
        seen += 1
        r = ctx.run(b, leaf=leaf)
        r.no_panic("a conversion returns")

        def f(v, n, rt=rt):
            x = field(v, n)
            return x if x is not None else fld(v, rt["p"], "", n)
        pay = [n for n in tm.FIELDNAMES[rt["p"]] if n not in ("success", "error")]

        def good(I, st, v, o, f=f, pay=pay):
            if I.truth(st, f(v, "success")) is not True:
                return f"success={show(f(v, 'success'))} for a successful operation"
            if I.truth(st, le0(length(f(v, "error")))) is not True:
                return f"error text {show(f(v, 'error'))[:100]} for a successful operation"
            src = okv(A0)
            for n in pay:
                want_ = src if len(pay) == 1 else fld(src, "()", "", str(pay.index(n)))
                if not equal_under(I, st, f(v, n), want_):
                    return f"{n} is {show(f(v, n))[:150]}, not the operation's result {show(want_)[:100]}"
            return None

        def bad(I, st, v, o, f=f, pay=pay):
            if I.truth(st, f(v, "success")) is not False:
                return f"success={show(f(v, 'success'))} for a failed operation"
            if not occurs(errv(A0), f(v, "error")):
                return f"error text {show(f(v, 'error'))[:150]} is not the operation's error"
            for n in pay:
                if not default_ok(I, st, f(v, n)):
                    return f"{n} is {show(f(v, n))[:150]} for a failed operation"
            return None
        r.cases(b.short, [("operation succeeded", isok(A0), good), ("operation failed", NOT(isok(A0)), bad)])
    # the exported functions
    def chk(f, r):
        I = r.I
        r2 = ctx.body(f.short)
        p = ctx.p.types[SV][r2.locals[0]].get("p", "")
        pay = [n for n in tm.FIELDNAMES.get(p, ()) if n not in ("success", "error")]
        for o in [o for o in r.outs if o.kind == "ret"]:
            ops = [e for e, ins in flat(o.st.trace) if not ins and e.name == opname(f)] if f.op else []
            s = resfield(ctx, f, o.val, "success")
            for st in states(I, o, s):
                e = None
                if f.op and not ops:
                    e = "reports success without performing the operation"
                elif ops and states(I, Out("ret", st, o.val), NOT(isok(ops[-1].res))):
                    e = "reports success although the operation failed"
                elif I.truth(st, le0(length(resfield(ctx, f, o.val, "error")))) is not True:
                    e = f"reports success with error text {show(resfield(ctx, f, o.val, 'error'))[:150]}"
                ctx.oblige(e is None, f"{f.name}: success means the operation succeeded", r.where, e, path=path_of(I, Out("ret", st, o.val)))
            for st in states(I, o, NOT(s)):
                e = None
                er = resfield(ctx, f, o.val, "error")
                if ops:
                    if states(I, Out("ret", st, o.val), isok(ops[-1].res)):
                        e = "reports failure although the operation succeeded"
                    elif not occurs(errv(ops[-1].res), er):
                        e = f"error text {show(er)[:200]} is not the operation's error"
                elif I.truth(st, le0(length(er))) is True:
                    e = "reports failure with an empty error text"
                if e is None:
                    for n in pay:
                        v = resfield(ctx, f, o.val, n)
                        if not default_ok(I, st, v):
                            e = f"reports failure with {n}={show(v)[:150]}"
                ctx.oblige(e is None, f"{f.name}: failure is reported with the operation's error", r.where, e, path=path_of(I, Out("ret", st, o.val)))
    each(ctx, table(T), chk)
    if not seen:
        ctx.notes.append("no From conversions found; the exported functions were checked directly")


# ------------------------------------------------------------------ C31
def convs(ctx, T):
    """(rule, body, inward?, path of the service type)"""
    P = ctx.p
    out = {}
    inner = {T.TRUST: T.DT, T.REV: T.DR, T.CERT: T.DC}
    outer = {v: k for k, v in inner.items()}
    for b in P.bodies.values():
        if b.crate != SV or b.kind != "fn" or b.argc != 1 or b.name not in ("from", "try_from"):
            continue
        a = P.types[SV][b.locals[1]].get("p")
        r = P.types[SV][b.locals[0]]
        rp = r.get("p")
        if a in inner and rp == inner[a]:
            out[("out", a)] = b
        if a in outer and rp and rp.endswith("Result") and P.types[SV][r["a"][0]].get("p") == outer[a]:
            out[("in", outer[a])] = b
    for p in inner:
        for d in ("in", "out"):
            if (d, p) not in out:
                raise Missing(f"conversion {'to' if d == 'in' else 'from'} {p} in the service")
    return out


def c31(ctx):
    T = S(ctx)
    cv = convs(ctx, T)
    for p, inn, outw in ((T.TRUST, T.tin, T.tout), (T.REV, T.rin, T.rout), (T.CERT, T.cin, T.cout)):
        nm = p.split("::")[-1]
        r = ctx.run(cv[("out", p)], leaf=leaf)
        r.no_panic(f"{nm}: converting out returns")
        r.cases(f"{nm}: every field goes to its own field", [("out", TRUE, want(outw(A0)))])
        r = ctx.run(cv[("in", p)], leaf=leaf)
        r.no_panic(f"{nm}: converting in returns")
        g, v = inn(A0)
        r.cases(f"{nm}: every field comes from its own field", [("well formed", g, want_ok(v)), ("malformed", NOT(g), want_err())])
    # the signature and its scheme name go out and in again unchanged
    md._inv(PKTRY, PID, ok)
    ctx.assumptions.append("a key is recovered from its own peer id where the peer id carries it (property C33)")
    deep = frozenset({PKTRY, PID, TVER, TSB, RSB})
    for p, whole in ((T.TRUST, T.whole), (T.REV, lambda x: T.mkrev(pk=fld(x, T.REV, "", "pk"), revoked_by=fld(x, T.REV, "", "revoked_by"),
                                                            signature=fld(x, T.REV, "", "signature"),
                                                            revoked_at=scale(secs(fld(x, T.REV, "", "revoked_at")), NANO)))):
        nm = p.split("::")[-1]
        from rules_keypair import roundtrip
        roundtrip(ctx, cv[("out", p)], cv[("in", p)], f"{nm}: out and in again gives an equal value", result=whole(A0), leaf=deep)


# ------------------------------------------------------------------ C36
def c36(ctx):
    T = S(ctx)

    def chk(f, r):
        I = r.I
        own = eq(cp("service_creator_peer_id"), cp("init_peer_id")) if f.owner else TRUE
        pre = AND(own, *(([trusted(f.ts)] if f.ts is not None else []) + f.guards + ([NOT(f.future)] if f.future is not None else [])))
        n = 0
        for o in r.outs:
            allops = [e for e, _ in flat(o.st.trace) if e.name.startswith(G + "::") or e.name == opname(f)]
            for st in states(I, o, NOT(AND(*f.guards))):
                n += 1
                ctx.oblige(not allops, f"{f.name}: malformed arguments are not used", r.where, f"calls {allops!r}"[:300], path=path_of(I, Out("ret", st, o.val)))
                if o.kind == "ret":
                    e = fails(ctx, f, I, st, o.val)
                    ctx.oblige(e is None, f"{f.name}: malformed arguments are refused", r.where, e, path=path_of(I, Out("ret", st, o.val)))
            for st in states(I, o, pre):
                n += 1
                if o.kind != "ret":
                    ctx.bad(f"{f.name}: returns", r.where, f"panics: {o.info}"[:300], path=path_of(I, o))
                    continue
                if f.op is None:
                    if allops:
                        ctx.bad(f"{f.name}: no graph operation", r.where, f"calls {allops!r}"[:300])
                        continue
                    res = None
                else:
                    if len(allops) != 1 or allops[0].name != opname(f):
                        ctx.bad(f"{f.name}: performs {f.op} once", r.where, f"calls {allops!r}"[:400], path=path_of(I, Out("ret", st, o.val)))
                        continue
                    e = allops[0]
                    args = e.args[1:] if e.name.startswith(G + "::") else e.args
                    wrong = [(i, a, w) for i, (a, w) in enumerate(zip(args, f.args)) if not equal_under(I, st, a, w)]
                    if len(args) != len(f.args):
                        raise Unsupported(f"{f.op} takes {len(args)} arguments")
                    ctx.oblige(not wrong, f"{f.name}: {f.op} gets the call's own arguments", r.where,
                               "; ".join(f"argument {i} of {f.op} is {show(a)[:300]}, required {show(w)[:300]}" for i, a, w in wrong),
                               path=path_of(I, Out("ret", st, o.val)))
                    res = e.res
                for st2 in states(I, Out("ret", st, o.val), isok(res) if res is not None else TRUE):
                    s = resfield(ctx, f, o.val, "success")
                    if I.truth(st2, s) is not True:
                        ctx.bad(f"{f.name}: returns the operation's result", r.where, f"reports success={show(s)}", path=path_of(I, Out("ret", st2, o.val)))
                        continue
                    er = None
                    for nm, w in f.pay(okv(res) if res is not None else None).items():
                        v = resfield(ctx, f, o.val, nm)
                        if isinstance(w, dict):
                            for nm2, w2 in w.items():
                                v2 = field(v, nm2)
                                if v2 is None:
                                    v2 = fld(v, T.DT if nm == "trust" else T.DR, "", nm2)
                                if not equal_under(I, st2, v2, w2):
                                    er = f"{nm}.{nm2} is {show(v2)[:200]}, required {show(w2)[:200]}"
                        elif not equal_under(I, st2, v, w):
                            er = f"{nm} is {show(v)[:300]}, required {show(w)[:300]}"
                    ctx.oblige(er is None, f"{f.name}: returns the operation's result", r.where, er, path=path_of(I, Out("ret", st2, o.val)))
                    if f.name == "issue_revocation":
                        v = resfield(ctx, f, o.val, "revocation")
                        v = field(v, "sig_type") or fld(v, T.DR, "", "sig_type")
                        pkp, fmt = ctx.adt(KP, "PublicKey"), ctx.adt(KP, "KeyFormat")
                        for var in ctx.p.adts[pkp]["v"]:
                            want = sapp(KFN, adt(fmt, var["n"], (), ()))
                            for st3 in states(I, Out("ret", st2, o.val), is_(key(A0)[1], pkp, var["n"])):
                                ctx.oblige(equal_under(I, st3, v, want), f"{f.name}: the signature is tagged with the revoker's scheme",
                                           r.where, f"for a {var['n']} revoker sig_type is {show(v)[:200]}", path=path_of(I, Out("ret", st3, o.val)))
        if not n:
            ctx.unknown("C36", r.where, "no path")
    each(ctx, table(T), chk)


# ------------------------------------------------------------------ C32
def marine_exports(P):
    """bodies and structs the service exports: items under #[marine]"""
    r = getattr(P, "_marine", None)
    if r is not None:
        return r
    fns, structs = set(), set()
    names = {"fn": [], "struct": []}
    for path in sorted(glob.glob(build.REPO + "/service/src/*.rs")):
        if path.endswith("tests.rs"):
            continue
        src = strip_comments(open(path).read())
        for m in re.finditer(r"#\[\s*(?:marine_rs_sdk\s*::\s*)?marine\s*\](?P<rest>(?:\s*#\[[^\]]*\])*)\s*(?:pub(?:\([^)]*\))?\s+)?(?P<kind>fn|struct)\s+(?P<name>\w+)", src):
            names[m["kind"]].append(m["name"])
    for b in P.bodies.values():
        if b.crate == SV and b.kind == "fn" and b.name in names["fn"] and not b.trait and b.self_adt is None:
            fns.add(b.key)
    for p in P.adts:
        if p.split("::")[0] == SV and p.split("::")[-1] in names["struct"]:
            structs.add(p)
    P._marine = (fns, structs)
    return P._marine


def strip_comments(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    return re.sub(r"//[^\n]*", "", s)


def aqtype(P, i):
    t = P.types[SV][i]
    if t["k"] in ("uint", "int", "bool", "float"):
        return {"bool": "bool"}.get(t["k"], t.get("n") or t["s"])
    if t["k"] == "adt":
        p = t["p"]
        if p == "alloc::string::String":
            return "string"
        if p == "alloc::vec::Vec":
            return "[]" + aqtype(P, t["a"][0])
        if p.endswith("::Option"):
            return "?" + aqtype(P, t["a"][0])
        return p.split("::")[-1]
    if t["k"] == "tuple" and not t.get("a"):
        return "()"
    return t["s"]


def aqua_lines(path):
    out = []
    for n, l in enumerate(open(path).read().split("\n"), 1):
        q, res = False, ""
        for i, ch in enumerate(l):
            if ch == '"':
                q = not q
            if not q and l[i:i + 2] == "--":
                break
            res += ch
        if res.strip():
            out.append((n, res.rstrip()))
    return out


def join_parens(lines):
    out = []
    for n, l in lines:
        if out and out[-1][1].count("(") > out[-1][1].count(")"):
            out[-1] = (out[-1][0], out[-1][1] + " " + l.strip())
        else:
            out.append((n, l))
    return out


def params_of(s):
    s = s.strip()
    out = []
    for x in s.split(",") if s else []:
        n, t = x.split(":", 1)
        out.append((n.strip(), t.replace(" ", "")))
    return out


def aqua_decls(path):
    """(records {name: (line, [(field, type)])}, services {name: (line, id, {fn: (line, params, result)})}, aliases)"""
    recs, svcs, alias = {}, {}, {}
    cur = None
    for n, l in join_parens(aqua_lines(path)):
        ind = len(l) - len(l.lstrip())
        s = l.strip()
        if ind == 0:
            cur = None
            m = re.match(r"data\s+(\w+)\s*:\s*$", s)
            if m:
                cur = recs.setdefault(m[1], (n, []))[1]
                kind = "data"
                continue
            m = re.match(r"service\s+(\w+)\s*(?:\(\s*\"([^\"]*)\"\s*\))?\s*:\s*$", s)
            if m:
                cur = svcs.setdefault(m[1], (n, m[2], {}))[2]
                kind = "service"
                continue
            m = re.match(r"alias\s+(\w+)\s*:\s*(\S+)\s*$", s) or re.match(r"alias\s+(\S+)\s+as\s+(\w+)", s)
            if m:
                alias[m[1]] = m[2]
            continue
        if cur is None:
            continue
        if kind == "data":
            m = re.match(r"(\w+)\s*:\s*(\S+)\s*$", s)
            if not m:
                raise Unsupported(f"{path}:{n}: record field not understood")
            cur.append((m[1], m[2]))
        else:
            m = re.match(r"(\w+)\s*\(([^)]*)\)\s*(?:->\s*(\S+))?\s*$", s)
            if not m:
                raise Unsupported(f"{path}:{n}: service function not understood")
            cur[m[1]] = (n, params_of(m[2]), m[3] or "()")
    return recs, svcs, alias


def aqua_funcs(path):
    """{func: (line, params, [(line, targets, callee, [args])], exported?)}"""
    funcs = {}
    cur = None
    for n, l in join_parens(aqua_lines(path)):
        ind = len(l) - len(l.lstrip())
        s = l.strip()
        if ind == 0:
            cur = None
            m = re.match(r"func\s+(\w+)\s*\(([^)]*)\)\s*(?:->\s*([^:]*))?\s*:\s*$", s)
            if m:
                cur = (n, params_of(m[2]), [], m[3])
                funcs[m[1]] = cur
            continue
        if cur is None:
            continue
        m = re.match(r"(?:([\w\s,]+?)\s*<-\s*)?([A-Za-z_][\w]*(?:\.[A-Za-z_]\w*)?)\s*\(([^()]*)\)\s*$", s)
        if m and m[2] not in ("on", "if", "for"):
            tg = [x.strip() for x in m[1].split(",")] if m[1] else []
            cur[2].append((n, tg, m[2], [x.strip() for x in m[3].split(",")] if m[3].strip() else [], "call"))
            continue
        m = re.match(r"(\w+)\s*=\s*(.+)$", s)
        if m:
            cur[2].append((n, [m[1]], "=", [m[2].strip()], "let"))
            continue
        m = re.match(r"<-\s*(.+)$", s)
        if m:
            cur[2].append((n, [], "return", [x.strip() for x in m[1].split(",")], "return"))
            continue
        m = re.match(r"(\w+)\s*<<-\s*(.+)$", s)
        if m:
            cur[2].append((n, [m[1]], "push", [m[2].strip()], "push"))
    return funcs


# what each wrapper hands to the service: P0.. are its own parameters, TIME the host's clock, other names flow from calls
WRAPPERS = {
    "set_root": [("TrustGraph.set_root", ["P0", "P1"])],
    "issue_trust": [("TrustGraph.get_trust_bytes", ["P1", "P2", "TIME"]), ("Sig.sign", ["TrustGraph.get_trust_bytes.result"]),
                    ("TrustGraph.issue_trust", ["P1", "P2", "TIME", "Sig.sign.signature"])],
    "import_trust": [("TrustGraph.add_trust", ["P0", "P1", "TIME"])],
    "add_trust": [("issue_trust", ["P1", "P2", "P3"]), ("import_trust", ["issue_trust#0", "P1"])],
    "add_root_trust": [("issue_trust", ["P1", "P1", "P3"]), ("set_root", ["P1", "P2"]), ("import_trust", ["issue_trust#0", "P1"])],
    "verify_trust": [("TrustGraph.verify_trust", ["P0", "P1", "TIME"])],
    "get_weight": [("TrustGraph.get_weight", ["P0", "TIME"])],
    "get_weight_from": [("TrustGraph.get_weight_from", ["P0", "P1", "TIME"])],
    "issue_revocation": [("TrustGraph.get_revocation_bytes", ["P1", "TIME"]), ("Sig.sign", ["TrustGraph.get_revocation_bytes.result"]),
                         ("TrustGraph.issue_revocation", ["P0", "P1", "TIME", "Sig.sign.signature"])],
    "import_revocation": [("TrustGraph.revoke", ["P0", "TIME"])],
    "revoke": [("issue_revocation", ["P1", "P2"]), ("import_revocation", ["issue_revocation#0"])],
    "get_host_certs_from": [("TrustGraph.get_host_certs_from", ["P0", "TIME"])],
    "get_all_certs": [("TrustGraph.get_all_certs", ["P0", "TIME"])],
    "get_all_certs_from": [("TrustGraph.get_all_certs_from", ["P0", "P1", "TIME"])],
    "get_host_certs": [("TrustGraph.get_host_certs", ["TIME"])],
    "insert_cert": [("TrustGraph.insert_cert", ["P0", "TIME"])],
}


def origin(env, e):
    """where an Aqua argument comes from"""
    m = re.match(r"(\w+)((?:\.\w+)*)(!?)$", e)
    if not m:
        return e
    base = env.get(m[1], m[1])
    return base + m[2]


def c32(ctx):
    P = ctx.p
    exp, structs = marine_exports(P)
    if not exp:
        ctx.unknown("C32", SV, "no #[marine] functions found")
        return
    decl = build.REPO + "/aqua/trust-graph.aqua"
    if not os.path.exists(decl):
        raise Missing("aqua/trust-graph.aqua")
    recs, svcs, alias = aqua_decls(decl)
    if "TrustGraph" not in svcs:
        raise Missing("service TrustGraph in aqua/trust-graph.aqua")
    line, sid, fns = svcs["TrustGraph"]
    un = lambda t: resolve_alias(alias, t)
    rust = {P.bodies[k].name: P.bodies[k] for k in exp}
    where = "aqua/trust-graph.aqua"
    for n, b in sorted(rust.items()):
        if n not in fns:
            ctx.bad("every exported function is declared", where, f"{n} ({b.span}) is not declared in service TrustGraph")
            continue
        ln, ps, res = fns[n]
        want_ = [(b.names.get(str(i + 1)), aqtype(P, b.locals[i + 1])) for i in range(b.argc)]
        got = [(a, un(t)) for a, t in ps]
        named = [(g[0] if w[0] is None else w[0], w[1]) for g, w in zip(got, want_)] if len(got) == len(want_) else want_
        ctx.oblige(got == named, f"{n}: same arguments", f"{where}:{ln}", f"declared {got}, the service ({b.span}) takes {want_}")
        ctx.oblige(un(res) == aqtype(P, b.locals[0]), f"{n}: same result", f"{where}:{ln}", f"declared {res}, the service returns {aqtype(P, b.locals[0])}")
    for n, (ln, _, _) in fns.items():
        ctx.oblige(n in rust, "every declared function is exported", f"{where}:{ln}", f"{n} is not exported by the service")
    for p in sorted(structs):
        n = p.split("::")[-1]
        fs = [(f["n"], aqtype(P, f["t"])) for f in P.adts[p]["v"][0]["f"]]
        if n not in recs:
            ctx.bad("every exported record is declared", where, f"{n} ({P.adts[p]['span']}) is not declared")
            continue
        got = [(a, un(t)) for a, t in recs[n][1]]
        ctx.oblige(got == fs, f"record {n}: same fields in the same order", f"{where}:{recs[n][0]}", f"declared {got}, the service has {fs}")
    for n in recs:
        ctx.oblige(any(p.split("::")[-1] == n for p in structs), "every declared record is a record of the service", f"{where}:{recs[n][0]}", f"{n} is unknown to the service")
    # wrappers
    api = build.REPO + "/aqua/trust-graph-api.aqua"
    if not os.path.exists(api):
        raise Missing("aqua/trust-graph-api.aqua")
    funcs = aqua_funcs(api)
    where = "aqua/trust-graph-api.aqua"
    for n, spec in WRAPPERS.items():
        if n not in funcs:
            ctx.bad("every wrapper is there", where, f"func {n} is missing")
            continue
        ln, ps, stmts, _ = funcs[n]
        env = {p: f"P{i}" for i, (p, _) in enumerate(ps)}
        got = []
        for sl, tg, callee, args, kind in stmts:
            if kind == "let":
                env[tg[0]] = origin(env, args[0])
                continue
            if kind != "call":
                continue
            av = [origin(env, a) for a in args]
            if callee == "Peer.timestamp_sec":
                for t in tg:
                    env[t] = "TIME"
                continue
            if callee in ("append_error",):
                continue
            if len(tg) == 1:
                env[tg[0]] = callee if callee in ("Sig.sign",) or callee.startswith("TrustGraph.") else callee + "#0"
            else:
                for i, t in enumerate(tg):
                    env[t] = f"{callee}#{i}"
            got.append((sl, callee, av))
        for callee, args in spec:
            cs = [(sl, av) for sl, c, av in got if c == callee]
            if not cs:
                ctx.bad(f"wrapper {n} calls {callee}", f"{where}:{ln}", f"{n} does not call {callee}")
                continue
            for sl, av in cs:
                ctx.oblige(av == args, f"wrapper {n}: {callee} gets the arguments in its order", f"{where}:{sl}",
                           f"passes {av}, required {args}")
        for sl, c, av in got:
            if c.startswith("TrustGraph.") and not any(c == x for x, _ in spec):
                ctx.bad(f"wrapper {n} calls only its operation", f"{where}:{sl}", f"calls {c}")
    for n, (ln, ps, stmts, _) in funcs.items():
        if n in WRAPPERS:
            continue
        for sl, tg, callee, args, kind in stmts:
            if callee.startswith("TrustGraph.") and callee.split(".")[1] in fns:
                ctx.oblige(len(args) == len(fns[callee.split(".")[1]][1]), f"func {n}: number of arguments", f"{where}:{sl}", f"{callee} gets {len(args)} arguments")


def resolve_alias(alias, t):
    pre = ""
    while t[:2] == "[]" or t[:1] in "?*":
        k = 2 if t[:2] == "[]" else 1
        pre += t[:k]
        t = t[k:]
    for _ in range(5):
        if t in alias:
            t = alias[t]
    return pre + t


RULES = {"C27": c27, "C28": c28, "C29": c29, "C30": c30, "C31": c31, "C32": c32, "C36": c36}
