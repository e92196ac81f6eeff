"""C38: no request to the service traps.  C43: every operation comes to an end."""
import rules_graph as rg
import rules_service as rs
import rules_storage as rst
from rules_core import sign_fails
from rulelib import *

GRWF = "trust_graph::trust_graph_storage::Storage::get_root_weight_factor"
RULE = "returns on every input and stored graph"
MAXF = 16
LIBP2P = ("fluence_keypair::<PublicKey as From>::from",)


def stored_factors(st):
    """root factors read from the storage are ones set_root stores (C19, C26): at most MAXF"""
    gs = []
    seen = set()
    for a in st.facts:
        for x in walk(a):
            if x.op == "app" and isinstance(x.a[0], str) and x.a[0].split("::")[-1] == "get_root_weight_factor" and x not in seen:
                seen.add(x)
                v = somev(okv(x))
                gs += [le(Int(0), v), le(v, Int(MAXF))]
    return AND(*gs)


GRAPH_LEAF = {"add": (rg.ADDT,), "add_trust": (rg.W, rg.TV), "weight": (rg.GAC,), "weight_from": (rg.GAC,),
              "get_all_certs_from": (rg.GAC,), "revoke": (rg.RV,)}


def c38(ctx):
    def guarded(what, f):
        try:
            f()
        except Unsupported as e:
            ctx.unknown("analysis", what, e)

    T = rs.S(ctx)
    for f in rs.table(T):
        guarded(f.short, lambda: rs.run(ctx, f).no_panic(f"export {RULE}"))
    # what the exports call below the level they are analysed at
    for n in sorted(rs.BASE):
        if ctx.p.find(n):
            # conversions between a key and libp2p's form of the same key succeed by the libraries' contract (C33)
            guarded(n, lambda: ctx.run(n, leaf=lambda s, b: s in LIBP2P).no_panic(f"conversion or check {RULE}", sign_fails))
    rg.GT(ctx)
    for fn in rg.PUBLIC:
        guarded(fn, lambda: ctx.run(f"{rg.G}::{fn}", leaf=GRAPH_LEAF.get(fn, ())).no_panic(f"graph operation {RULE}", given=stored_factors))
    ST = rst.ST_(ctx)
    hook = ST.hook(ctx)
    for b in sorted(ctx.p.bodies.values(), key=lambda b: b.key):
        if b.short.startswith("service::<SQLiteStorage as Storage>::"):
            guarded(b.short, lambda: ctx.run(b, leaf=rst.LEAF, opts={"sqlrow": hook, "budget": 4000000}).no_panic(
                f"storage operation {RULE}"))


# ---------------------------------------------------------------------------------- C43
# external sources that hand out their finitely many items one by one and then report the end
SOURCES = ("sql::next", "SeqAccess::next_element", "SeqAccess::next_element_seed", "MapAccess::next_key", "MapAccess::next_key_seed",
           "MapAccess::next_entry", "Iterator::next", "DoubleEndedIterator::next_back")
RANDOM = ("fill_bytes", "try_fill_bytes", "OsRng", "thread_rng", "random", "gen", "generate")
CLOCKS = ("now", "elapsed")
TERM = "loops and recursion come to an end"


class LoopInfo:
    def __init__(self):
        self.seen = []

    def add(self, runner, bound, rec):
        self.seen.append((runner, bound, rec))


def short_of(t):
    return "::".join(str(t.a[0]).split("::")[-2:]) if t.op == "app" else ""


def drawn(t):
    """the term depends on random data"""
    return any(x.op in ("app", "mut") and any(isinstance(y, str) and y.split("::")[-1] in RANDOM for y in x.a[:1]) for x in walk(t))


def handed_out(L, o):
    """the iteration took an item out of a finite external source"""
    for f in L.newfacts(o):
        at, pol = (f.a[0], False) if f.op == "not" else (f, True)
        if at.op != "is":
            continue
        some = (pol and at.a[2] in ("Some", "Row")) or (not pol and at.a[2] in ("None", "Done"))
        if some and any(short_of(x) in SOURCES and (L.k in x.free or any(p in x.free for p in L.phi.values())) for x in walk(at.a[0])):
            return True
    return False


def measure(L):
    """a carried value that gets strictly smaller (a list) or moves towards a bound (a number) on every iteration"""
    I = L.I
    for loc, phi in L.phi.items():
        us = L.updates(loc)
        if not us or any(u is None for u in us):
            continue
        h = L.hvalue(loc)
        if L.numeric(loc, us):
            if all(I.truth(o.st, lt(u, h)) is True and I.truth(o.st, le(Int(0), u)) is True for o, u in zip(L.backs, us)):
                return phi
            continue
        try:
            if all(I.truth(o.st, lt(length(u), length(h))) is True for o, u in zip(L.backs, us)):
                return phi
        except Exception:
            pass
    return None


def settled(e, shorts):
    """a call whose result depends on its arguments alone"""
    n = str(e.name)
    if e.kind == "loop":
        return True
    if n in shorts or n.split("::")[0] in ("core", "alloc", "std", "hashbrown", "bs58", "libsecp256k1", "ed25519_dalek", "ring", "sha2") or n.split("::")[-2:-1] == ["Storage"]:
        return True
    if n in (rst.PREP, rst.BIND, rst.NEXT):
        return all("SELECT" in show(x).upper() for x in e.args if isinstance(x, T) and rst.PREP.split("::")[-1] in show(x)) or n != rst.NEXT
    return n.split("::")[0] in ("PartialEq", "PartialOrd", "Clone", "AsRef", "Deref", "From", "Into", "Option", "Iterator", "FromStr", "Display")


def stuck(L, shorts):
    """an iteration whose conditions are settled by values it does not change, so that it repeats for ever"""
    I = L.I
    for o in L.backs:
        if not feasible(I, o.st) or handed_out(L, o):
            continue
        nf = L.newfacts(o)
        free = frozenset().union(*[f.free for f in nf]) if nf else frozenset()
        if L.k in free and any(x is L.k for f in nf for x in walk_outside_phi(f)):
            continue
        ok_ = True
        for loc, phi in L.phi.items():
            if phi not in free and not any(x is phi for f in nf for x in walk(f)):
                continue
            v = o.st.cells.get(loc[0])
            u = L.getleaf(v, loc[1]) if v is not None else None
            if u is None or not equal_under(I, o.st, u, L.hvalue(loc)):
                ok_ = False
                break
        if ok_ and all(settled(e, shorts) for e in o.st.trace[len(L.hst.trace):]):
            return o
    return None


def walk_outside_phi(t):
    """subterms outside the carried values (which name the iteration they belong to)"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op != "phi":
            todo.extend(tm.subterms(x))


def c43(ctx):
    own = [b for b in sorted(ctx.p.bodies.values(), key=lambda b: b.key)
           if not b.short.startswith("sa_prelude") and b.kind != "closure"]
    shorts = {b.short for b in own}
    leaf = lambda s, b: True
    open_ = []
    n = 0
    for b in own:
        info = LoopInfo()
        try:
            r = ctx.run(b, leaf=leaf, opts={"loopinfo": info})
        except Unsupported as e:
            ctx.unknown(TERM, b.short, e)
            continue
        n += 1
        done = {}
        for L, bound, rec in info.seen:
            done[(L.body.key, L.header, tuple(L.I.kstack))] = (L, bound, rec)
        for L, bound, rec in done.values():
            where = f"{L.body.short} ({rec.span})"
            if not L.backs:
                continue
            if bound is not None and L.k not in bound.free:
                ctx.ok(f"{TERM}: the number of iterations is bounded", where)
            elif all(handed_out(L, o) for o in L.backs):
                ctx.ok(f"{TERM}: one item of a finite source per iteration", where)
            elif measure(L) is not None:
                ctx.ok(f"{TERM}: a carried value decreases", where)
            elif all(any(drawn(f) for f in L.newfacts(o)) for o in L.backs):
                ctx.notes.append(f"{where}: repeats until a random draw is accepted")
            elif all(o.kind == "back" for o in L.outs):
                ctx.bad(f"{TERM}: there is a way out", where, "no path leaves the loop", phiok=True, path={})
            else:
                o = stuck(L, shorts)
                if o is not None:
                    ctx.bad(f"{TERM}: every iteration makes progress", where,
                            f"an iteration changes nothing that decides whether the loop goes on, where {[show(f)[:120] for f in L.newfacts(o)][:6]}",
                            phiok=True, path={})
                else:
                    open_.append((rec.fn, rec.span, where))
    if open_:
        UNMODELLED.clear()      # what the other functions use does not matter here
        S = rg.c15_17(ctx, "43")
        judged = S.judged if S is not None else set()
        for fn, span, where in open_:
            if (fn, span) not in judged:
                ctx.unknown(TERM, where, "no measure found that every iteration decreases")
    recursion(ctx, own, leaf)
    ctx.notes.append(f"{n} functions, each against the assumption that the functions it calls end")


def recursion(ctx, own, leaf):
    """functions that can only return after calling themselves again"""
    cg = rg.callgraph(ctx.p)
    keys = {b.key for b in own}
    reach = {}

    def calls(k):
        out = set()
        todo = [k]
        seen = set()
        while todo:
            x = todo.pop()
            for f, t, sp in cg.get(x, ()):
                if t in ctx.p.bodies and t not in seen:
                    seen.add(t)
                    if t in keys:
                        out.add(t)
                    else:
                        todo.append(t)
        return out
    g = {b.key: calls(b.key) for b in own}

    def cyc(k):
        seen, todo = set(), list(g[k])
        while todo:
            x = todo.pop()
            if x == k:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(g.get(x, ()))
        return False
    loop = {b.key for b in own if cyc(b.key)}
    must = {}
    for k in loop:
        b = ctx.p.bodies[k]
        ms = {ctx.p.bodies[x].short for x in g[k] & loop}
        try:
            r = ctx.run(b, leaf=leaf)
        except Unsupported as e:
            ctx.unknown(TERM, b.short, e)
            continue
        names = None
        for o in r.rets():
            hit = {e.name for e, _ in rg.flat(o.st.trace) if e.name in ms}
            names = hit if names is None else names & hit
        must[k] = {x for x in g[k] & loop if names and ctx.p.bodies[x].short in names}
    for k in sorted(loop):
        b = ctx.p.bodies[k]
        seen, todo, endless = set(), list(must.get(k, ())), False
        while todo:
            x = todo.pop()
            if x == k:
                endless = True
                break
            if x not in seen:
                seen.add(x)
                todo.extend(must.get(x, ()))
        where = f"{b.short} ({b.span})"
        if endless:
            ctx.bad(f"{TERM}: recursion", where, "every path through the function calls it again", phiok=True, path={})
        else:
            ctx.unknown(TERM, where, "recursive; no measure is derived for recursion")
    if not loop:
        ctx.ok(f"{TERM}: no function calls itself, directly or through others", f"{len(own)} functions")


RULES = {"C38": c38, "C43": c43}
