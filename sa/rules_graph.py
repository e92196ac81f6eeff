"""Rules about the trust graph over an arbitrary Storage: C12 - C22."""
from rulelib import *
from rules_keypair import KT, KP, A0, A1, A2, A3
from rules_core import CT, TG
from loops import subst_ev
import models as md

G = f"{TG}::TrustGraph"
TV, RV = f"{TG}::Trust::verify", f"{TG}::Revocation::verify"
W, GAC, ADDT = f"{G}::weight", f"{G}::get_all_certs", f"{G}::add_trust"
ST = "Storage::"
GA, GR, GREL = ST + "get_authorizations", ST + "get_revocations", ST + "get_relation"
ROOTS, RWF = ST + "root_keys", ST + "get_root_weight_factor"
UPD, REVK, INS, SETR, PURGE = (ST + n for n in ("update_auth", "revoke", "insert", "set_root_weight_factor", "remove_expired"))
READS, WRITES = {GA, GR, GREL, ROOTS, RWF}, {UPD, REVK, INS, SETR, PURGE}
KNOWN = READS | WRITES
NODE = mk("state", "any")


class GT(CT):
    def __init__(self, ctx):
        CT.__init__(self, ctx)
        self.GRAPH = ctx.adt(TG, "TrustGraph")
        self.AUTH = ctx.adt(TG, "Auth")

    def storage(self, g=A0):
        """the graph's storage: its only field of the storage's type"""
        ns = tm.FIELDNAMES[self.GRAPH]
        return fld(g, self.GRAPH, "", "storage" if "storage" in ns else ns[0])

    def auth(self, trust, by):
        ns = tuple(tm.FIELDNAMES[self.AUTH])
        d = dict(trust=trust, issued_by=by)
        return adt(self.AUTH, "", ns, tuple(d[n] for n in ns))

    def atrust(self, a):
        return fld(a, self.AUTH, "", "trust")

    def aby(self, a):
        return fld(a, self.AUTH, "", "issued_by")

    def revby(self, r):
        return fld(r, self.REV, "", "revoked_by")


# ------------------------------------------------------------------ traces
def name(e):
    """Storage methods by their trait name whatever the receiver's path"""
    n = e.name
    return n


def flat(trace, out=None, inside=(), m=()):
    """every call of a trace, also those of the iterations of its loops: [(event, enclosing loop conts)]"""
    out = [] if out is None else out
    for e in trace:
        for x in m:
            e = subst_ev(e, x)
        if e.kind == "loop":
            rec = e.extra[0]
            later = tuple({a: b for a, b in x.items() if a is not rec.k} for x in e.extra[2])
            for facts, tr, st in rec.conts:
                flat(tr, out, inside + ((rec, facts, st),), m + later)
        else:
            out.append((e, inside))
    return out


def calls(o, names):
    return [e for e, _ in flat(o.st.trace) if name(e) in names]


def collapse(terms_of, names, pos=0):
    """rewriting map that forgets which state of the storage (or graph) a call was made on"""
    m = {}
    for t in terms_of:
        for x in walk(t):
            if x.op == "app" and x.a[0] in names:
                a = list(x.a)
                if a[1 + pos] is not NODE:
                    a[1 + pos] = NODE
                    m[x] = mk("app", *a)
    return m


def forget(I, st, names, vals=()):
    """the state (and values) with the first argument of the named calls forgotten"""
    from loops import subst_state
    cur, vs = [st], list(vals)
    for _ in range(4):
        ts = [a for s in cur for a in s.facts] + vs
        m = collapse(ts, names)
        if not m:
            break
        # innermost first: terms containing other collapsed terms are rewritten by the next round
        inner = {k: v for k, v in m.items() if not any(k is not x and x in m for x in walk(k))}
        cur = [y for s in cur for y in subst_state(I, s, inner)]
        vs = [subst(v, inner) for v in vs]
    return cur, vs


def no_calls(names, what):
    def chk(I, st, v, o):
        c = calls(o, names)
        if c:
            return f"{what}: {c[0]!r}"[:400] + f" at {c[0].span}"
    return chk


def both(*chks):
    def chk(I, st, v, o):
        for c in chks:
            e = c(I, st, v, o)
            if e:
                return e
    return chk


# ------------------------------------------------------------------ C12
def c12(ctx):
    T = GT(ctx)
    r = ctx.run(ADDT, leaf=(TV, W))
    V = isok(sapp(TV, A1, A2, A3))
    w = sapp(W, A0, A2, A3)
    self_ = tm.eq(A2, T.t(A1, "issued_for"))
    half = divmod_("div", okv(w), Int(2))
    auth = T.auth(A1, A2)
    nothing = no_calls({UPD, INS, REVK, SETR}, "writes to storage")

    def stored(nw):
        def chk(I, st, v, o):
            c = calls(o, {UPD, INS, REVK, SETR})
            if len(c) != 1 or name(c[0]) != UPD:
                return f"storage writes on the path: {c!r}"[:500] + "; exactly one update_auth is required"
            e = c[0]
            if not equal_under(I, st, e.args[1], auth):
                return f"stores {show(e.args[1])[:300]} instead of the submitted trust and issuer (at {e.span})"
            if not equal_under(I, st, e.args[2], A3):
                return f"passes time {show(e.args[2])[:100]} to storage instead of the current time (at {e.span})"
            for s in I.assume(st.copy(), isok(e.res)):
                x = want_ok(nw)(I, s, v, o)
                if x:
                    return x
            for s in I.assume(st.copy(), NOT(isok(e.res))):
                if feasible(I, s):
                    x = want_err()(I, s, v, o)
                    if x:
                        return x
        return chk
    n = r.cases("admission", [
        ("a trust that does not verify is refused", NOT(V), both(want_err(), nothing)),
        ("unknown weight refuses", AND(V, NOT(isok(w))), both(want_err(), nothing)),
        ("self-signed, weight zero", AND(V, isok(w), self_, tm.eqnum(okv(w), Int(0))), both(want_ok(Int(0)), nothing)),
        ("half weight zero", AND(V, isok(w), NOT(self_), tm.eqnum(half, Int(0))), both(want_ok(Int(0)), nothing)),
        ("self-signed is stored with full weight", AND(V, isok(w), self_, NOT(tm.eqnum(okv(w), Int(0)))), stored(okv(w))),
        ("stored with half weight", AND(V, isok(w), NOT(self_), NOT(tm.eqnum(half, Int(0)))), stored(half)),
    ])
    if n < 6:
        ctx.unknown("admission", r.where, "not all cases reached")
    r.no_panic("admission does not panic")


# ------------------------------------------------------------------ C13
def c13(ctx):
    T = GT(ctx)
    r = ctx.run(f"{G}::add", leaf=(ADDT,))
    ch = T.chain(A1)
    n = length(ch)

    def pred(j):
        return ite(le0(j), T.t(index(ch, Int(0)), "issued_for"), T.t(index(ch, sub(j, Int(1))), "issued_for"))

    def sub_(j):
        return mk("app", ADDT, NODE, index(ch, j), pred(j), A2)

    def good_calls(I, st, v, o):
        for e, ins in flat(o.st.trace):
            if e.name in WRITES:
                return f"writes to storage outside the single-trust admission: {e!r}"[:300]
            if e.name != ADDT:
                continue
            t = e.args[1]
            if t.op != "idx" or t.a[0] is not ch:
                return f"submits {show(t)[:200]}, which is not a link of the certificate (at {e.span})"
            j = t.a[1]
            s = st.copy()
            bad = None
            sts = [s]
            for rec, facts, _ in ins:
                sts = [y for x in sts for y in I.assume(x, AND(*facts))]
            for s in sts:
                for s2, p in [(y, T.t(index(ch, Int(0)), "issued_for")) for y in I.assume(s.copy(), le0(j))] + \
                        [(y, T.t(index(ch, sub(j, Int(1))), "issued_for")) for y in I.assume(s.copy(), NOT(le0(j)))]:
                    if not feasible(I, s2):
                        continue
                    if not equal_under(I, s2, e.args[2], p):
                        bad = carried(I, ins, e, j) or f"link {show(j)} is submitted under {show(e.args[2])[:200]}, not under {show(p)[:200]} (at {e.span})"
                    elif not equal_under(I, s2, e.args[3], A2):
                        bad = f"link {show(j)} is submitted with time {show(e.args[3])[:100]} (at {e.span})"
            if bad:
                return bad
            if ins:
                k = ins[-1][0].k
                c, d = tm.to_lin(j)
                if any(x.op == "k" and d[x] < 0 for x in d):
                    return f"links are not submitted in chain order (at {e.span})"

    def carried(I, ins, e, j):
        """the issuer is carried from one iteration to the next: is that step right?"""
        phi = e.args[2]
        if not ins or phi.op != "phi" or phi not in ins[-1][0].phis or j is not ins[-1][0].k:
            return None
        rec = ins[-1][0]
        init, ups = rec.phis[phi][:2]
        nxt = T.t(index(ch, j), "issued_for")
        for (facts, tr, s), u in zip(rec.conts, ups):
            u = u[0] if isinstance(u, tuple) else u
            if not isinstance(u, tm.T):
                return None
            for s1 in I.assume(s.copy(), tm.eq(phi, pred(j))):
                for s2 in I.assume(s1, lt(add(j, Int(1)), n)):
                    if feasible(I, s2) and not equal_under(I, s2, u, nxt) and (u is phi or not any(x.op == "phi" for x in walk(u))):
                        return f"after link {show(j)} the next link is submitted under {'the same issuer as before' if u is phi else show(u)[:200]}, " \
                               f"not under the key of link {show(j)} (at {e.span})"
        return None

    def covered(I, st, v, o):
        e = want_ok(UNIT)(I, st, v, o)
        if e:
            return e
        sts, _ = forget(I, st, {ADDT})
        for s in sts:
            w = skolem(I, "link")
            for s2 in I.assume(s, AND(le0(scale(w, -1)), lt(w, n))):
                for s3 in I.assume(s2.copy(), le0(w)):
                    s3 = I.assume(s3, tm.eqnum(w, Int(0)))[0]
                    if feasible(I, s3) and not entails(I, s3, isok(sub_(Int(0)))):
                        return "succeeds although the first trust was not admitted under its own key"
                for s3 in I.assume(s2.copy(), NOT(le0(w))):
                    if feasible(I, s3) and not entails(I, s3, isok(mk("app", ADDT, NODE, index(ch, w), T.t(index(ch, sub(w, Int(1))), "issued_for"), A2))):
                        return "succeeds although some trust was not admitted under the key of the trust before it"

    def outcome(I, st, v, o):
        e = good_calls(I, st, v, o)
        if e:
            return e
        for s in I.assume(st.copy(), isok(v)):
            if feasible(I, s):
                e = covered(I, s, v, o)
                if e:
                    return e
        for s in I.assume(st.copy(), NOT(isok(v))):
            if not feasible(I, s):
                continue
            # the error is that of a submission, all earlier ones succeeded
            x = v if v.op == "app" else errv(v)
            while x.op in ("fld",) or (x.op == "adt" and len(x.a) == 4):
                x = x.a[0] if x.op == "fld" else x.a[3]
            if x.op != "app" or x.a[0] != ADDT:
                return f"fails with {show(v)[:300]} although no submission failed"
            j = x.a[2].a[1] if x.a[2].op == "idx" and x.a[2].a[0] is ch else None
            if j is None:
                return f"fails for {show(x)[:200]}"
            if not entails(I, s, NOT(isok(x))):
                return f"returns the result of {show(x)[:200]} where it succeeded"
            sts, _ = forget(I, s, {ADDT})
            for s2 in sts:
                w = skolem(I, "link")
                for s3 in I.assume(s2, AND(le0(scale(w, -1)), lt(w, j))):
                    for s4 in I.assume(s3.copy(), le0(w)):
                        s4 = I.assume(s4, tm.eqnum(w, Int(0)))[0]
                        if feasible(I, s4) and not entails(I, s4, isok(sub_(Int(0)))):
                            return "goes on after a failed submission (first link)"
                    for s4 in I.assume(s3.copy(), NOT(le0(w))):
                        if feasible(I, s4) and not entails(I, s4, isok(mk("app", ADDT, NODE, index(ch, w), T.t(index(ch, sub(w, Int(1))), "issued_for"), A2))):
                            return "goes on after a failed submission"
    r.cases("insertion", [
        ("an empty certificate is refused", le0(n), both(want_err(), no_calls({ADDT} | WRITES, "touches the graph"))),
        ("every link is submitted in order", NOT(le0(n)), outcome),
    ])
    r.no_panic("insertion does not panic")


# ------------------------------------------------------------------ C14
def c14(ctx):
    T = GT(ctx)
    r = ctx.run(f"{G}::revoke", leaf=(RV,))
    V = isok(sapp(RV, A1))

    def stored(I, st, v, o):
        c = calls(o, {UPD, INS, REVK, SETR, PURGE})
        if len(c) != 1 or name(c[0]) != REVK:
            return f"storage writes on the path: {c!r}"[:400] + "; exactly one revoke is required"
        e = c[0]
        if not equal_under(I, st, e.args[1], A1):
            return f"stores {show(e.args[1])[:300]} instead of the submitted revocation (at {e.span})"
        for s in I.assume(st.copy(), isok(e.res)):
            x = want_ok(UNIT)(I, s, v, o)
            if x:
                return x
        for s in I.assume(st.copy(), NOT(isok(e.res))):
            if feasible(I, s):
                x = want_err()(I, s, v, o)
                if x:
                    return x
    r.cases("revocation", [
        ("a revocation that does not verify changes nothing", NOT(V), both(want_err(), no_calls(WRITES, "writes to storage"))),
        ("a verified revocation is stored unchanged", V, stored),
    ])
    r.no_panic("revocation does not panic")
    q = ctx.run(f"{G}::get_revocations")
    res = sapp(GR, T.storage(), A1)
    q.cases("reading", [
        ("revocations as stored", isok(res), both(want_ok(okv(res)), no_calls(WRITES, "writes to storage"))),
        ("storage error", NOT(isok(res)), want_err()),
    ])
    import rules_storage as rst
    ctx.rests_on("C24", rst.c24, starts("get_revocations: selects", "get_revocations returns"))


# ------------------------------------------------------------------ the search (C15 - C17)
def set_items(I, s, ctxm=None):
    """canonical pieces of the content of a set given as a sequence"""
    out = set()
    if s.op == "set":
        s = s.a[0]
    for g in segs_of(s):
        if g.op == "el":
            out.add(("el", g.a[0]))
        elif g.op == "sp":
            x = g.a[0]
            if x.op == "elems" and x.a[0].op == "set":
                out |= set_items(I, x.a[0])
            elif x.op in ("revseq",):
                out |= set_items(I, x.a[0])
            else:
                out.add(("seq", x))
        elif g.op == "comp":
            out |= comp_items(I, g)
        else:
            out.add(("seg", g))
    return out


def comp_items(I, g):
    k = mk("k", ("items", g.id))
    n = g.a[0]
    out = set()
    alts = subst_comp(g, k)
    cats = set()
    for gd, b in alts:
        for t in (gd, b):
            for x in walk(t):
                if x.op == "idx" and x.a[1] is k and x.a[0].op == "seq" and len(x.a[0].a) > 1 and length(x.a[0]) is n:
                    cats.add(x)
    if len(cats) == 1:
        x = cats.pop()
        for seg in x.a[0].a:
            if seg.op == "el":
                for gd, b in alts:
                    gd2, b2 = subst(gd, {x: seg.a[0]}), subst(b, {x: seg.a[0]})
                    for it in set_items(I, b2):
                        out.add(it if gd2 is TRUE else ("if", gd2) + it)
                continue
            src = seg.a[0] if seg.op == "sp" else mk("seq", seg)
            y = index(src, k)
            c2 = comp(length(src), [(subst(gd, {x: y}), subst(b, {x: y})) for gd, b in alts], k)
            out |= set_items(I, seq_of([c2]))
        return out
    for gd, b in alts:
        for it in set_items(I, b):
            if it[0] == "seq" and k not in it[1].free:
                out.add(it)
                continue
            # one canonical comprehension per piece
            c2 = comp(n, [(gd, one(it[1]) if it[0] == "el" else seq_of([mk("sp", it[1])]) if it[0] == "seq" else b)], k)
            out.add(("comp", c2))
    return out


class Search:
    """the worklist loop behind get_all_certs, recognised by what it does"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.T = GT(ctx)
        self.r = ctx.run(GAC)
        self.why = None
        self.judged = set()
        self.revseq = False     # the revokers are kept in a list instead of a set
        self.I = self.r.I
        self.ok = [o for o in self.r.rets() if any(feasible(self.I, s) for s in self.I.assume(o.st.copy(), isok(o.val)))]
        self.ok = [o for o in self.ok if not self._err_only(o)]
        self.find()

    def _err_only(self, o):
        return o.val.op == "app" and any(a is o.val for a in ())

    def give_up(self, why):
        self.why = why

    def find(self):
        T = self.T
        self.cands = []
        self.early = []
        for o in self.ok:
            top = [e for e in o.st.trace if e.kind == "loop"]
            found = None
            for e in top:
                rec = e.extra[0]
                for phi, (init, ups, loc, kind, closed) in rec.phis.items():
                    if kind != "opaque" or init.op != "seq":
                        continue
                    acc = self.shape(init)
                    if acc:
                        found = (o, e, rec, phi, init, ups, acc)
            if found is None and self.trivial(o):
                continue
            if found is None:
                return self.give_up("no worklist loop over chains recognised on a successful path")
            self.cands.append(found)
        if not self.cands:
            self.give_up("no successful path")

    def trivial(self, o):
        """a path that answers with no certificates and without a search"""
        if okv(o.val) is not EMPTY:
            return False
        no = []
        for e, _ in flat(o.st.trace):
            if name(e) == ROOTS or (name(e) == GA and len(e.args) > 1 and e.args[1] is A1):
                no.append(le0(length(okv(e.res))))
        self.early.append((o, bool(no) and not any(feasible(self.I, s) for s in self.I.assume(o.st.copy(), NOT(OR(*no))))))
        return True

    def shape(self, init):
        """accessors of the chain element: (path to the list of auths, path to the revoker set)"""
        els_ = []
        for s in init.a:
            if s.op == "comp":
                for g, b in subst_comp(s, mk("k", "shape")):
                    for x in segs_of(b):
                        if x.op != "el":
                            return None
                        els_.append(x.a[0])
            elif s.op == "el":
                els_.append(s.a[0])
        if not els_:
            return None
        e = els_[0]
        if e.op != "adt":
            return None
        au = rv = None
        for n, v in zip(e.a[2], e.a[3:]):
            if v.op == "set":
                rv = (e.a[0], e.a[1], n)
            elif v.op == "seq" and len(v.a) == 1 and v.a[0].op == "el":
                au = (e.a[0], e.a[1], n)
            elif v.op == "seq":
                rv = (e.a[0], e.a[1], n)
                self.revseq = True
        return (au, rv) if au and rv else None


def search(ctx):
    s = ctx.p.__dict__.setdefault("_search", {})
    return Search(ctx)


def guard_match(I, st, g, spec, what):
    """None when g and spec agree in the state; else text"""
    for s in I.assume(st.copy(), AND(g, NOT(spec))):
        if feasible(I, s):
            return ("more", what)
    for s in I.assume(st.copy(), AND(spec, NOT(g))):
        if feasible(I, s):
            return ("less", what)
    return None


def notin(x, s):
    return NOT(md.member(x, s))


def c15_17(ctx, which):
    """which: '15' linked and rooted, '16' revocations, '17' completeness, '43' only that the search ends"""
    S = Search(ctx)
    T, I, r = S.T, S.I, S.r
    if S.why:
        ctx.unknown("search", r.where, S.why)
        return
    for o, justified in S.early:
        ctx.oblige(justified or which != "17", "no search only when there is no root or no trust for the key", r.where,
                   "answers with no certificates without searching", path=path_of(I, o))
    loose = which in ("15", "16")   # may not accept more than specified
    tight = which == "17"           # may not accept less than specified
    for o, ev, rec, Q, init, ups, (au, rv) in S.cands:
        where = f"{rec.fn} ({rec.span})"
        ctx.okphi.add(str(Q.a[0]))

        def stor(st):
            return None
        # the state of storage the search reads: whatever state the reads are made on (C18 fixes which)
        states = {e.args[0] for e, _ in flat(o.st.trace) if name(e) in (GA, GR)}
        if len(states) != 1:
            ctx.unknown("search", where, "reads from several storage states")
            return
        SG = states.pop()
        ga = lambda k: okv(sapp(GA, SG, k))
        gr = lambda k: okv(sapp(GR, SG, k))
        roots = [e for e, _ in flat(o.st.trace) if name(e) == ROOTS]

        def rspec(k):
            w = mk("k", "rv")
            x = gr(k)
            return seq_of([comp(length(x), [(TRUE, one(T.revby(index(x, w))))], w)])

        # ---- start
        k = mk("k", "start")
        base = ga(A1)
        for seg in init.a if which != "43" else ():
            if seg.op != "comp" or seg.a[0] is not length(base):
                ctx.oblige(False, "search start", where, f"the search does not start from exactly the stored trusts of the asked key: {show(init)[:400]}")
                continue
            alts = subst_comp(seg, k)
            st = o.st.copy()
            sts = I.assume(st, AND(le0(scale(k, -1)), lt(k, length(base))))
            a = index(base, k)
            for s in sts:
                if not feasible(I, s):
                    continue
                revs = cat(rspec(A1), rspec(T.aby(a)))
                gd = OR(*[g for g, b in alts if b is not EMPTY])
                if tight:
                    # a start may be dropped only when its issuer has revoked the asked key (which storage excludes) or it fails to load
                    g0 = AND(notin(T.aby(a), rspec(A1)), isok(sapp(GR, SG, T.aby(a))))
                    bad = any(feasible(I, x) for x in I.assume(s.copy(), AND(g0, NOT(gd))))
                    ctx.oblige(not bad, "search start: no stored trust of the asked key is skipped", where,
                               f"starts only where {show(gd)[:400]}")
                for g, b in alts:
                    if b is EMPTY:
                        continue
                    for s2 in I.assume(s.copy(), g):
                        if not feasible(I, s2):
                            continue
                        bs = segs_of(b)
                        if len(bs) != 1 or bs[0].op != "el":
                            ctx.oblige(which != "15", "search start: one chain per stored trust", where, show(b)[:300])
                            continue
                        x = bs[0].a[0]
                        chk_chain(ctx, I, s2, which, "search start", where, fld(x, *au), one(a), fld(x, *rv), revs)
        # ---- step
        for facts, tr, st in rec.conts:
            Q1 = None
            new = st_value(I, rec, Q, st)
            if new is None:
                ctx.unknown("search step", where, "update of the worklist not recognised")
                return
            segs = segs_of(new)
            nq = length(Q)
            cur = None
            for cand, rest in ((index(Q, Int(0)), subseq(Q, Int(1), nq)), (index(Q, sub(nq, Int(1))), subseq(Q, Int(0), sub(nq, Int(1))))):
                rs = [x for x in segs if x.op == "sp" and (x.a[0] is rest or equal_under(I, st, x.a[0], rest))]
                if len(rs) == 1:
                    cur, ext = cand, [x for x in segs if x is not rs[0]]
                    break
            if cur is None and which == "43" and any(x.op == "sp" and equal_under(I, st, x.a[0], Q) for x in segs):
                ctx.bad("search step: the examined chain leaves the worklist", where, f"the worklist becomes {show(new)[:300]}")
                return
            if cur is None:
                ctx.unknown("search step", where, f"worklist update not recognised: {show(new)[:300]}")
                return
            auths, revoked = fld(cur, *au), fld(cur, *rv)
            rel = revoked if S.revseq else md.elems(revoked)
            last = index(auths, sub(length(auths), Int(1)))
            nxt = ga(T.aby(last))
            k = mk("k", "step")
            a = index(nxt, k)
            okread = AND(isok(sapp(GA, SG, T.aby(last))))
            base_st = []
            for s in I.assume(st.copy(), AND(le0(scale(k, -1)), lt(k, length(nxt)))):
                base_st.append(s)
            w = mk("k", "onpath")
            free_ = forall(length(auths), NOT(tm.eq(T.t(T.atrust(index(auths, w)), "issued_for"), T.aby(a))), w)
            spec = AND(notin(T.aby(a), rel), free_)
            total = FALSE
            for seg in ext:
                if seg.op != "comp":
                    if which == "43":
                        ctx.unknown("search step", where, f"adds {show(seg)[:300]}")
                        continue
                    ctx.oblige(which != "15", "search step: extensions are stored trusts", where, f"adds {show(seg)[:300]}")
                    continue
                if not (seg.a[0] is length(nxt) or equal_under(I, st, seg.a[0], length(nxt))):
                    if which == "17":
                        ctx.oblige(False, "search step: every stored trust of the last issuer is considered", where,
                                   f"considers {show(seg.a[0])[:200]} entries instead of all {show(length(nxt))[:200]}")
                        total = TRUE
                alts = subst_comp(seg, k)
                for g, b in alts:
                    if b is EMPTY:
                        continue
                    total = OR(total, g)
                    for s in base_st:
                        for s2 in I.assume(s.copy(), g):
                            if not feasible(I, s2):
                                continue
                            if which in ("15", "43") and not entails(I, s2, free_):
                                ctx.bad("search step: a chain does not come back to its keys", where, f"extends where {show(g)[:400]}")
                            elif which in ("15", "43"):
                                ctx.ok("search step: a chain does not come back to its keys", where)
                            if which == "16" and not entails(I, s2, notin(T.aby(a), rel)):
                                ctx.bad("search step: no extension to a revoker of a chain member", where, f"extends where {show(g)[:400]}")
                            elif which == "16":
                                ctx.ok("search step: no extension to a revoker of a chain member", where)
                            bs = segs_of(b)
                            if len(bs) != 1 or bs[0].op != "el":
                                ctx.oblige(which != "15", "search step: one new chain per extension", where, show(b)[:300])
                                continue
                            x = bs[0].a[0]
                            chk_chain(ctx, I, s2, which, "search step", where, fld(x, *au), cat(auths, one(a)), fld(x, *rv),
                                      cat(seq_of([mk("sp", rel)]), rspec(T.aby(a))))
            if tight:
                need = AND(spec, isok(sapp(GR, SG, T.aby(a))))
                bad = None
                for s in base_st:
                    for s2 in I.assume(s.copy(), AND(need, NOT(total))):
                        if feasible(I, s2):
                            bad = s2
                ctx.oblige(bad is None, "search step: no admissible extension is dropped", where, f"extends only where {show(total)[:500]}")
        S.judged.add((rec.fn, rec.span))
        if which == "43":
            continue
        # ---- end of the loop: only when the worklist is empty or on an error
        for facts, tr, kind, oo in rec.exits:
            pass
        exit_k = ev.extra[1]
        qn = mk(Q.op, *Q.a[:-1], exit_k) if Q.a and Q.a[-1] is rec.k else None
        if tight and qn is not None:
            ctx.oblige(entails(I, o.st, le0(length(qn))), "search end: the search stops only when no chain is left", where,
                       f"the loop can end with chains left: {[show(a)[:200] for a in o.st.facts if qn in a.free][:3]}")
        # ---- result
        chk_result(ctx, S, o, ev, rec, Q, au, roots, which, where)
    return S


def st_value(I, rec, phi, st):
    init, ups, loc, kind, closed = rec.phis[phi]
    for i, (facts, tr, s) in enumerate(rec.conts):
        if s is st:
            u = ups[i] if i < len(ups) else None
            return u[0] if isinstance(u, tuple) else u
    return None


def chk_chain(ctx, I, st, which, rule, where, gota, wanta, gotr, wantr):
    if which in ("15", "17", "43"):
        ctx.oblige(equal_under(I, st, gota, wanta), f"{rule}: the chain is the path so far and the new link", where,
                   f"chain {show(gota)[:300]} where {show(wanta)[:300]} is required")
    if which in ("16", "17"):
        have, need = set_items(I, gotr), set_items(I, wantr)
        if which == "16":
            miss = need - have
            ctx.oblige(not miss, f"{rule}: the revokers of every member are carried", where,
                       f"revoker set {show(gotr)[:300]} lacks {[show(x[1])[:200] for x in miss]}")
        else:
            more = have - need
            ctx.oblige(not more, f"{rule}: only revokers of members block", where,
                       f"revoker set {show(gotr)[:300]} also has {[show(x[1])[:200] for x in more if isinstance(x[1], T)]}")


def chk_result(ctx, S, o, ev, rec, Q, au, roots, which, where):
    T, I = S.T, S.I
    v = o.val
    res = okv(v)
    exit_k = ev.extra[1]
    if which == "16":
        return
    # what is done to the finished list: another order, a part of it, a selection
    while True:
        if res.op == "app" and res.a[0] == "std?permuted":
            res = res.a[1]
            continue
        if res.op == "revseq":
            res = res.a[0]
            continue
        if res.op == "sub":
            base = res.a[0]
            if which == "17" and not equal_under(I, o.st, length(res), length(base)):
                ctx.bad("result: every completed path is reported", where,
                        f"only a part of the list of certificates is returned: {show(length(res))[:200]} of them", phiok=True, path={})
                return
            res = base
            continue
        ss = segs_of(res)
        if len(ss) == 1 and ss[0].op == "comp":
            k0 = mk("k", "sel")
            alts = [(g, b) for g, b in subst_comp(ss[0], k0) if b is not EMPTY]
            bases = {x.a[0] for _, b in alts for x in segs_of(b) for x in x.a[:1] if isinstance(x, tm.T) and x.op == "idx" and x.a[1] is k0}
            base = bases.pop() if len(bases) == 1 else None
            if base is not None and length(base) is ss[0].a[0] and all(b is one(index(base, k0)) for _, b in alts):
                g = OR(*[g for g, _ in alts])
                if which == "17" and any(feasible(I, x) for x in I.assume(o.st.copy(), AND(le0(scale(k0, -1)), lt(k0, length(base)), NOT(g), NOT(tm.eq(index(base, k0), index(base, sub(k0, Int(1)))))))):
                    ctx.bad("result: every completed path is reported", where,
                            f"certificates are left out of the result unless {show(g)[:400]}", phiok=True, path={})
                    return
                res = base
                continue
        break
    # some states may have extra returned certificates: everything returned must come from this list
    segs = segs_of(res)
    k = mk("k", "out")
    if len(segs) != 1 or segs[0].op != "comp" or not (segs[0].a[0] is exit_k or equal_under(I, o.st, segs[0].a[0], exit_k)):
        if res.op == "seq" and not any(Q.op == x.op and x.a[:1] == Q.a[:1] for x in walk(res)):
            ctx.bad("result", where, f"the result is not the list of completed chains: {show(res)[:400]}")
        else:
            ctx.unknown("result", where, f"result form not recognised: {show(res)[:300]}")
        return
    Qk = mk(Q.op, *Q.a[:-1], k)
    nq = length(Qk)
    alts = subst_comp(segs[0], k)
    # which element is taken in iteration k
    fronts = {index(Qk, Int(0)), index(Qk, sub(nq, Int(1)))}
    used = {x for g, b in alts for t in (g, b) for x in walk(t) if x in fronts}
    if len(used) != 1:
        ctx.unknown("result", where, f"result form not recognised: {show(res)[:300]}")
        return
    cur = used.pop()
    auths = fld(cur, *au)
    n = length(auths)
    last = index(auths, sub(n, Int(1)))
    rk = {okv(e.res) for e in roots}
    # a key is a root when it is in the list of roots or, the same by the contract of the storage (C26), has a root factor
    fs = {e.args[0] for e, _ in flat(o.st.trace) if name(e) == RWF}
    isroot = OR(*[md.member(T.aby(last), x) for x in rk], *[issome(okv(sapp(RWF, g_, T.aby(last)))) for g_ in fs]) if rk or fs else FALSE
    if which == "17" and not rk and not fs:
        ctx.bad("result: every completed path is reported", where, "the search does not read the registered roots from storage", phiok=True, path={})
        return
    spec = AND(tm.eq(T.aby(last), T.t(T.atrust(last), "issued_for")), isroot, NOT(le0(sub(n, Int(1)))))
    j = mk("k", "rev")
    body = T.mkcert(seq_of([comp(n, [(TRUE, one(T.atrust(index(auths, sub(sub(n, Int(1)), j)))))], j)]))
    total = FALSE
    for s in I.assume(o.st.copy(), AND(le0(scale(k, -1)), lt(k, exit_k), NOT(le0(nq)), NOT(le0(n)))):
        for g, b in alts:
            if b is EMPTY:
                continue
            total = OR(total, g)
            for s2 in I.assume(s.copy(), g):
                if not feasible(I, s2):
                    continue
                if which == "15":
                    ctx.oblige(entails(I, s2, spec), "result: a returned chain ends in a self-signed trust of a root and has two trusts", where,
                               f"reports where {show(g)[:500]}")
                bs = segs_of(b)
                okb = len(bs) == 1 and bs[0].op == "el" and equal_under(I, s2, bs[0].a[0], body)
                ctx.oblige(okb, "result: the certificate is the chain's trusts from the root down", where,
                           f"returns {show(b)[:400]}")
        if which == "17":
            bad = [x for x in I.assume(s.copy(), AND(spec, NOT(total))) if feasible(I, x)]
            ctx.oblige(not bad, "result: every completed path is reported", where, f"reports only where {show(total)[:500]}")


def starts(*ps):
    return lambda rule, where, detail: rule.startswith(ps)


def c15(ctx):
    import rules_storage as rst
    c15_17(ctx, "15")
    ctx.rests_on("C24", rst.c24, starts("get_authorizations: selects"))
    ctx.rests_on("C26", rst.c26, starts("every root is listed", "root_keys lists"))


def c16(ctx):
    import rules_storage as rst
    c15_17(ctx, "16")
    # revocations are kept and found
    ctx.rests_on("C24", rst.c24, starts("get_revocations: selects", "get_revocations returns"))
    ctx.rests_on("C25", rst.c25, starts("purge condition on a stored Revocation"))
    ctx.rests_on("C23", rst.c23, lambda rule, where, detail: rule.startswith("revoke: ") or
                 rule.startswith("update_auth: the newer") and (not detail or "stored Revocation" in detail))


def c17(ctx):
    import rules_storage as rst
    c15_17(ctx, "17")
    # trusts and roots are kept and found
    ctx.rests_on("C24", rst.c24, starts("get_authorizations: selects", "get_authorizations returns"))
    ctx.rests_on("C25", rst.c25, lambda rule, where, detail: rule.startswith("purge condition on a stored Auth") and "keeps an expired" not in detail)
    ctx.rests_on("C26", rst.c26, starts("every root is listed", "root_keys lists", "no registered root"))


# ------------------------------------------------------------------ C18
def c18(ctx):
    T = GT(ctx)
    r = ctx.run(GAC)
    pur = sapp(PURGE, T.storage(), A2)
    clean = None
    for o in r.rets():
        for e, ins in flat(o.st.trace):
            n = name(e)
            if n == PURGE:
                okp = e.args[0] is T.storage() and equal_under(r.I, o.st, e.args[1], A2)
                ctx.oblige(okp, "purge at the query's time", r.where, f"purges with {show(e.args[1])[:100]} (at {e.span})")
            if n in (GA, GR, GREL):
                b = e.args[0]
                okb = b.op == "mut" and b.a[0] == PURGE and b.a[2] is T.storage() and equal_under(r.I, o.st, b.a[3], A2)
                ctx.oblige(okb, "trusts are read after the purge", r.where,
                           f"reads {e!r}"[:300] + f" on a storage that was not purged at the query's time (at {e.span})",
                           path=path_of(r.I, o))
    r.cases("purge", [("a failed purge fails the query", NOT(isok(pur)), want_err())])
    for fn, tm_, leaf in ((f"{G}::weight", A2, (GAC,)), (f"{G}::weight_from", A3, (GAC,)), (f"{G}::get_all_certs_from", A3, (GAC,)),
                          (ADDT, A3, (GAC, TV)), (f"{G}::add", A2, (GAC, TV))):
        q = ctx.run(fn, leaf=leaf)
        for o in q.rets():
            for e, ins in flat(o.st.trace):
                n = name(e)
                if n in (GA, GR, GREL):
                    ctx.bad("trusts are read after the purge", q.where, f"reads {e!r}"[:300] + f" without purging (at {e.span})")
                if n == PURGE:
                    ctx.oblige(equal_under(q.I, o.st, e.args[1], tm_), "purge at the query's time", q.where, f"{e!r}"[:300])
                if n == GAC:
                    ctx.oblige(equal_under(q.I, o.st, e.args[2], tm_), "certificates are searched at the call's time", q.where,
                               f"searches at {show(e.args[2])[:100]} (at {e.span})")
    # what the purge leaves behind
    import rules_storage as rst
    ctx.rests_on("C25", rst.c25, lambda rule, where, detail: rule.startswith(("a successful purge deletes", "the purge deletes every")) or
                 rule == "purge condition on a stored Auth" and (not detail or "keeps an expired" in detail))


# ------------------------------------------------------------------ C19 / C20
def is_pow(t):
    return t.op == "app" and t.a[0] == "pow"


def pow_args(t):
    return t.a[1], t.a[2]


def wset(t):
    """a weight as a set of alternatives of which the largest counts: terms and comprehension pieces"""
    if t.op == "max":
        out = set()
        for x in t.a:
            if isinstance(x, T):
                out |= wset(x)
        return out
    if t.op == "red" and t.a[0] == "max":
        return wseq(md.headmerge(t.a[1]))
    if is_pow(t):
        b, e = pow_args(t)
        if b.op == "int" and b.a[0] == 2 and e.op == "satsub":
            # 2^(c - min x) is the largest 2^(c - x)
            f = e.a[1]
            if f.op == "min" or (f.op == "red" and f.a[0] == "min"):
                xs = set()
                items = set()
                todo = [f]
                while todo:
                    y = todo.pop()
                    if y.op == "min":
                        todo.extend(x for x in y.a if isinstance(x, T))
                    elif y.op == "red" and y.a[0] == "min":
                        for s in segs_of(md.headmerge(y.a[1])):
                            if s.op == "el":
                                todo.append(s.a[0])
                            elif s.op == "comp":
                                k = mk("k", ("w", s.id))
                                al = []
                                for g, bdy in subst_comp(s, k):
                                    ss = segs_of(bdy)
                                    if any(x.op != "el" for x in ss):
                                        items.add(t)
                                        ss = []
                                    al.append((g, seq_of([mk("el", rebuild_pow(t, b, satsub(e.a[0], x.a[0]))) for x in ss])))
                                items.add(comp(s.a[0], al, k))
                            else:
                                items.add(mk("minof", s))
                    else:
                        xs.add(y)
                return items | {rebuild_pow(t, b, satsub(e.a[0], x)) for x in xs}
    return {t}


def rebuild_pow(t, b, e):
    return pow_of(None, e)


def pow_of(I, e):
    return Int(2 ** e.a[0]) if e.op == "int" else mk("app", "pow", Int(2), e)


def wseq(s):
    out = set()
    for g in segs_of(s):
        if g.op == "el":
            out |= wset(g.a[0])
        else:
            out.add(g)
    return out


def wclean(ws):
    """drop what can never be the largest: zero, and one next to a power of two that is there"""
    ws = {x for x in ws if not (x.op == "int" and x.a[0] == 0)}
    if any(x.op != "int" for x in ws):
        ws = {x for x in ws if not (x.op == "int" and x.a[0] == 1)}
    return ws


def with_bounds(I, st, got, want_):
    """the alternatives of a weight once the path says on which side of 16 a factor lies:
    16 - x is satsub(16, x) where x <= 16, and 2^satsub(16, x) is 1 where x >= 16, which never beats a power of two"""
    import interp

    def holds(f):
        if f.op == "le0":
            f = interp.red_atom(f) or f
        return I.truth(st, f) is True

    def norm(t):
        if is_pow(t):
            b, e = pow_args(t)
            if b.op == "int" and b.a[0] == 2 and e.op != "satsub":
                x = sub(Int(16), e)
                if holds(le0(sub(x, Int(16)))):
                    return mk("app", "pow", Int(2), satsub(Int(16), x))
        return t

    def alts(t):
        if t.op == "max":
            return {y for x in t.a if isinstance(x, T) for y in alts(x)}
        return wset(norm(t))

    def over(w):
        """the factor of a required power, when there is one and the path puts it at 16 or more"""
        if is_pow(w):
            e = pow_args(w)[1]
            return e.op == "satsub" and e.a[0] is Int(16) and (
                holds(le0(sub(Int(16), e.a[1]))) or I.truth(st, le0(sub(e.a[1], Int(16)))) is False)
        if w.op == "comp":
            k = mk("k", ("over", w.id))
            for strict in (True, False):
                fs = []
                for g, bdy in subst_comp(w, k):
                    for x in segs_of(bdy):
                        if x.op != "el" or not is_pow(x.a[0]) or pow_args(x.a[0])[1].op != "satsub" or \
                                pow_args(x.a[0])[1].a[0] is not Int(16):
                            return False
                        y = pow_args(x.a[0])[1].a[1]
                        fs.append(OR(NOT(g), NOT(le0(sub(y, Int(16)))) if strict else le0(sub(Int(16), y))))
                if fs and holds(forall(w.a[0], AND(*fs), k)):
                    return True
        return False
    full = alts(got)
    if any(is_pow(x) or x.op == "int" and x.a[0] >= 1 for x in full | {got}):
        full |= {w for w in want_ if over(w)}
    return full


def weights(ctx, fn, time, issuer=None):
    T = GT(ctx)
    r = ctx.run(fn, leaf=(GAC,))
    C = sapp(GAC, A0, A1, time)
    cs = okv(C)
    k = mk("k", "cert")

    def through(c):
        if issuer is None:
            return TRUE
        w = mk("k", "thr")
        ch = T.chain(c)
        return NOT(forall(length(ch), NOT(tm.eq(T.t(index(ch, w), "issued_for"), issuer)), w))

    def fac(c):
        return sapp(RWF, NODE, T.t(index(T.chain(c), Int(0)), "issued_for"))
    ck = index(cs, k)
    good = forall(length(cs), OR(NOT(through(ck)), AND(isok(fac(ck)), issome(okv(fac(ck))))), k)
    wf = forall(length(cs), NOT(le0(sub(length(T.chain(ck)), Int(1)))), k)
    none = forall(length(cs), NOT(through(ck)), k) if issuer is not None else le0(length(cs))
    R = sapp(RWF, NODE, A1)
    item = comp(length(cs), [(through(ck), one(pow_of(r.I, satsub(Int(16), sub(add(somev(okv(fac(ck))), length(T.chain(ck))), Int(1))))))], k)
    rootw = pow_of(r.I, satsub(Int(16), somev(okv(R))))

    def weight_is(ws):
        def chk(I, st, v, o):
            e = want_ok()(I, st, v, o)
            if e:
                return e
            got = okv(v)
            have = wclean(wset(got))
            want_ = wclean(set(ws))
            if have == want_:
                return None
            full = with_bounds(I, st, got, want_)
            if full is not None and wclean(full) == want_:
                return None
            m = eqmap(st)
            have2 = wclean({y for x in have for y in wset(subst(x, m))}) if m else have
            if have2 == want_ or {subst(x, m) for x in want_} == have2:
                return None
            if len(have) == len(want_) == 1 and equal_under(I, st, list(have)[0], list(want_)[0]):
                return None
            return f"weight {show(got)[:500]} where the largest of {[show(x)[:300] for x in want_]} is required"
        return chk
    cases = [("failed search", NOT(isok(C)), want_err()),
             ("a certificate of an unregistered root is an error", AND(isok(C), wf, NOT(good)), want_err())]
    base = AND(isok(C), wf, good)
    if issuer is None:
        cases += [("failed root lookup", NOT(isok(R)), want_err()),
                  ("neither root nor certificates", AND(base, isok(R), NOT(issome(okv(R))), none), weight_is([])),
                  ("root only", AND(base, isok(R), issome(okv(R)), none), weight_is([rootw])),
                  ("certificates only", AND(base, isok(R), NOT(issome(okv(R))), NOT(none)), weight_is([item])),
                  ("root and certificates", AND(base, isok(R), issome(okv(R)), NOT(none)), weight_is([rootw, item]))]
    else:
        cases += [("no certificate through the issuer", AND(base, none), weight_is([])),
                  ("certificates through the issuer", AND(base, NOT(none)), weight_is([item]))]
    # forget the state the root factors are read from: nothing a query does changes them (C22, C25)
    outs = []
    for o in r.outs:
        if o.kind != "ret":
            continue
        m = {a: nothing_of(a.a[0]) for a in o.st.facts if a.op == "le0" and a.a[0].op == "psum"}
        m = {a: b for a, b in m.items() if b is not None}
        if m:
            from loops import subst_state
            ss = subst_state(r.I, o.st, m)
            outs_in = [Out("ret", s, o.val) for s in ss]
        else:
            outs_in = [o]
        for o in outs_in:
            sts, vs = forget(r.I, o.st, {RWF}, (o.val,))
            outs += [Out("ret", s, vs[0]) for s in sts]
    q = Run(ctx, r.I, r.body, outs)
    q.cases("weight", cases)
    return T, r


def nothing_of(ps):
    """a filtered comprehension is empty exactly when no element passes"""
    S, n = ps.a
    k = mk("k", ("none", S.id))
    al = subst_comp(S, k)
    if any(b is not EMPTY and not any(x.op == "el" for x in segs_of(b)) for g, b in al):
        return None
    return forall(n, NOT(OR(*[g for g, b in al if b is not EMPTY])), k)


def c19(ctx):
    import rules_storage as rst
    T, r = weights(ctx, W, A2)
    root_setup(ctx)
    ctx.rests_on("C26", rst.c26, starts("reading gives", "roots are selected"))


def root_setup(ctx):
    q = ctx.run(f"{G}::set_root")
    for o in q.rets():
        c = calls(o, WRITES)
        if len(c) != 1 or name(c[0]) != SETR:
            ctx.bad("root registration", q.where, f"writes {c!r}"[:300])
            continue
        e = c[0]
        ctx.oblige(equal_under(q.I, o.st, e.args[1], A1), "root registration stores the given key", q.where, show(e.args[1])[:200])
        okf = True
        for g, x in ((le(A2, Int(16)), sub(Int(16), A2)), (NOT(le(A2, Int(16))), Int(0))):
            for s in q.I.assume(o.st.copy(), g):
                got = simp_sat(q.I, s, e.args[2])
                if feasible(q.I, s) and not equal_under(q.I, s, got, x):
                    okf = False
        ctx.oblige(okf, "root factor is 16 minus the maximum chain length, at least 0", q.where, f"stores factor {show(e.args[2])[:200]}")
        for s in q.I.assume(o.st.copy(), isok(e.res)):
            x = want_ok(UNIT)(q.I, s, o.val, o)
            ctx.oblige(x is None, "root registration reports storage's answer", q.where, x)
        for s in q.I.assume(o.st.copy(), NOT(isok(e.res))):
            x = want_err()(q.I, s, o.val, o)
            ctx.oblige(x is None, "root registration reports storage's answer", q.where, x)


def simp_sat(I, st, t):
    """resolve saturating subtractions, minima and maxima by the facts"""
    m = {}
    for x in walk(t):
        if x.op == "satsub":
            c = I.truth(st, le(x.a[1], x.a[0]))
            if c is True:
                m[x] = sub(x.a[0], x.a[1])
            elif c is False:
                m[x] = Int(0)
        elif x.op in ("min", "max") and len(x.a) == 2:
            c = I.truth(st, le(x.a[0], x.a[1]))
            if c is not None:
                m[x] = x.a[0] if (x.op == "min") == c else x.a[1]
        elif x.op == "ite":
            c = I.truth(st, x.a[0])
            if c is not None:
                m[x] = x.a[1] if c else x.a[2]
    return subst(t, m) if m else t


def c20(ctx):
    T = GT(ctx)
    r = ctx.run(f"{G}::get_all_certs_from", leaf=(GAC,))
    C = sapp(GAC, A0, A1, A3)
    cs = okv(C)
    k, w = mk("k", "cert"), mk("k", "thr")
    ck = index(cs, k)
    ch = T.chain(ck)
    thr = NOT(forall(length(ch), NOT(tm.eq(T.t(index(ch, w), "issued_for"), A2)), w))
    spec = seq_of([comp(length(cs), [(thr, one(ck))], k)])
    r.cases("filter", [("failed search", NOT(isok(C)), want_err()),
                       ("exactly the certificates through the issuer, in order", isok(C), want_ok(spec))])
    weights(ctx, f"{G}::weight_from", A3, issuer=A2)


# ------------------------------------------------------------------ C21
PUBLIC = ("add_trust", "add", "weight", "weight_from", "certificates_weight_factor", "get_all_certs", "get_all_certs_from",
          "revoke", "get_revocations", "set_root")


def swallowed(ctx, r, names, what, allow=lambda e: False):
    """every call of the names that fails makes the function fail"""
    I = r.I
    seen = 0
    done = set()
    for o in r.rets():
        for e, ins in flat(o.st.trace):
            if not names(e) or allow(e):
                continue
            seen += 1
            if ins:
                rec, facts, st = ins[-1]
                key = (e.key(), id(rec), tuple(facts))
                if key in done:
                    continue
                bad = [s for s in I.assume(st.copy(), NOT(isok(e.res))) if feasible(I, s)]
                if bad:
                    if want_err()(I, o.st, o.val, o) is None:
                        continue        # this path reports an error anyway
                    done.add(key)
                    # the iteration goes on although the call may have failed: the error has to be in the result
                    if any(x.op == "app" and x.a[0] == e.name for x in walk(o.val)) and o.val.op != "adt":
                        ctx.unknown(what, r.where, f"a failure of {e!r} is carried along a loop"[:300])
                        continue
                    ctx.bad(what, r.where, f"goes on with the next iteration after {e!r} failed"[:400] + f" (at {e.span})", phiok=True)
                else:
                    done.add(key)
                    ctx.ok(what, r.where)
                continue
            for s in I.assume(o.st.copy(), NOT(isok(e.res))):
                if not feasible(I, s):
                    continue
                x = want_err()(I, s, o.val, o)
                if x:
                    ctx.bad(what, r.where, f"{e!r} can fail"[:300] + f" (at {e.span}) but the call {x}", path=path_of(I, Out("ret", s, o.val)),
                            phiok=not carried(x))
                    break
            else:
                ctx.ok(what, r.where)
    return seen


def c21(ctx):
    GT(ctx)
    total = 0
    for fn in PUBLIC:
        leaf = {"add": (ADDT,), "add_trust": (W, TV), "weight": (GAC,), "weight_from": (GAC,), "get_all_certs_from": (GAC,), "revoke": (RV,)}.get(fn, ())
        try:
            r = ctx.run(f"{G}::{fn}", leaf=leaf)
        except Missing:
            if fn == "certificates_weight_factor":
                continue
            raise
        total += swallowed(ctx, r, lambda e: e.name.startswith(ST) or e.name in (ADDT, W, GAC), f"{fn}: a storage failure is reported")
    if total < 10:
        ctx.unknown("storage failures", G, f"only {total} storage calls seen")
    try:
        import rules_storage
    except ModuleNotFoundError:
        return
    rules_storage.c21_sql(ctx)


# ------------------------------------------------------------------ C22
ALLOWED = {"add_trust": {UPD, PURGE}, "add": {UPD, PURGE}, "revoke": {REVK}, "set_root": {SETR}, "weight": {PURGE},
           "weight_from": {PURGE}, "get_all_certs": {PURGE}, "get_all_certs_from": {PURGE}}


def has_param(types, i, seen=None):
    """the type mentions a bare type parameter (the storage) outside the graph type itself"""
    seen = set() if seen is None else seen
    if i in seen:
        return None
    seen.add(i)
    t = types[i]
    if t["k"] == "param":
        return t["s"]
    if t["k"] == "adt" and t.get("p", "").endswith("::TrustGraph"):
        return None
    for k in ("e",):
        if isinstance(t.get(k), int):
            r = has_param(types, t[k], seen)
            if r:
                return r
    for k in ("a", "f", "es"):
        for x in t.get(k) or ():
            if isinstance(x, int):
                r = has_param(types, x, seen)
                if r:
                    return r
    return None


def callgraph(prog):
    g = getattr(prog, "_cg", None)
    if g is not None:
        return g
    g = {}
    for b in prog.bodies.values():
        out = g.setdefault(b.key, [])
        for bl in b.blocks:
            t = bl["t"]
            if t[0] == "call" and "fn" in t[1]:
                f = t[1]["fn"]
                r = f.get("r")
                out.append((f, (r or f)["key"], bl.get("span") or b.span))
        # closures are called by the function that makes them
        for c in prog.bodies.values():
            if c.kind == "closure" and c.parent == b.key:
                out.append(({"name": "{closure}", "key": c.key}, c.key, c.span))
    prog._cg = g
    return g


def storage_call(f):
    tr = f.get("trait") or ""
    if tr.split("::")[-1] == "Storage" and tr.startswith("trust_graph"):
        return ST + f["name"]
    return None


def owner(prog, b):
    while b.kind == "closure" and b.parent in prog.bodies:
        b = prog.bodies[b.parent]
    return b


def c22(ctx):
    c22_graph(ctx)
    try:
        import rules_storage
    except ModuleNotFoundError:
        return
    rules_storage.c22_sql(ctx)


def c22_graph(ctx):
    T = GT(ctx)
    P = ctx.p
    d = P.adts[T.GRAPH]
    for f in d["v"][0]["f"]:
        ctx.oblige(not f["pub"], "the graph's storage is private", d["span"], f"field `{f['n']}` of TrustGraph is public")
    meths = [b for b in P.bodies.values() if b.crate == TG and b.kind == "fn" and b.short.startswith(G + "::")]
    types = P.types[TG]
    for b in meths:
        nm = b.short.split("::")[-1]
        if not b.pub:
            continue
        p = has_param(types, b.locals[0])
        ctx.oblige(p is None, "no public operation hands out the storage", f"{b.short} ({b.span})", f"returns a type that contains {p}")
        leaf = {"add": (ADDT,), "weight": (GAC,), "weight_from": (GAC,), "get_all_certs_from": (GAC,)}.get(nm, ())
        if nm not in ALLOWED:
            leaf = tuple(f"{G}::{x}" for x in ALLOWED)
        if nm == "add_trust":
            leaf = (TV, W)
        if nm == "revoke":
            leaf = (RV,)
        r = ctx.run(b, leaf=leaf)
        al = ALLOWED.get(nm, set())
        for o in r.outs:
            for e, _ in flat(o.st.trace):
                if e.name in WRITES:
                    ctx.oblige(e.name in al, f"{nm}: storage changes only as its operation says", r.where, f"calls {e!r}"[:300] + f" (at {e.span})")
        if not r.outs:
            ctx.unknown("writers", r.where, "no path")
    # who else calls storage
    cg = callgraph(P)
    for b in P.bodies.values():
        if b.kind == "std" or b.crate not in (TG, "service"):
            continue
        o = owner(P, b)
        for f, key, span in cg[b.key]:
            n = storage_call(f)
            if n is None or n in READS:
                continue
            if b.crate == TG:
                okc = reached_only_from_graph(P, cg, o)
                ctx.oblige(okc, "storage is written only by the graph's operations", f"{b.short} ({b.span})", f"calls {n} (at {span})")
            else:
                okc = in_storage(P, cg, o)
                ctx.oblige(okc, "the service writes storage only through the graph", f"{b.short} ({b.span})", f"calls {n} directly (at {span})")


def callers(P, cg):
    r = getattr(P, "_callers", None)
    if r is None:
        r = {}
        for k, out in cg.items():
            for f, key, span in out:
                r.setdefault(key, set()).add(k)
        P._callers = r
    return r


def reached_only_from_graph(P, cg, b, seen=None):
    """b is a method of the graph, or a private helper all of whose callers are"""
    if b.short.startswith(G + "::"):
        return True
    if b.reach:
        return False
    seen = seen or set()
    if b.key in seen:
        return True
    seen.add(b.key)
    cs = callers(P, cg).get(b.key, ())
    return all(reached_only_from_graph(P, cg, owner(P, P.bodies[c]), seen) for c in cs if c in P.bodies)


def in_storage(P, cg, b, seen=None):
    """b belongs to the storage implementation, or is a helper called only from there"""
    if b.trait and str(b.trait).split("::")[-1] == "Storage":
        return True
    seen = seen or set()
    if b.key in seen:
        return True
    seen.add(b.key)
    cs = [c for c in callers(P, cg).get(b.key, ()) if c in P.bodies]
    return bool(cs) and all(in_storage(P, cg, owner(P, P.bodies[c]), seen) for c in cs)


RULES = {"C22": c22, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21}
