"""Rules about the SQLite storage of the service: C23 - C26, and its part of C21 and C22.

The storage's SQL is read from the analysed program (constant texts reaching prepare/execute), the values bound
to it are terms of the abstract interpretation, and conditions become formulas over them."""
from rulelib import *
from rules_keypair import KP, A0, A1, A2, A3
from rules_core import CT, TG, LEAF, NANO, secs, leaf_inverses, PKE, PKD, SGE, SGD
from rules_graph import flat, callgraph, callers, owner, swallowed, in_storage
import models as md
import rules_graph as rg
import sql

SV = "service"
STO = f"{SV}::<SQLiteStorage as Storage>"
PREP, EXEC, OPEN = ("marine_sqlite_connector::connection::Connection::prepare",
                    "marine_sqlite_connector::connection::Connection::execute", "marine_sqlite_connector::open")
NEXT, BIND = "sql::next", "sql::bind"
SQLCALLS = (PREP, EXEC, NEXT, BIND)
METHODS = ("get_relation", "get_authorizations", "get_revocations", "insert", "get_root_weight_factor", "set_root_weight_factor",
           "root_keys", "revoke", "update_auth", "remove_expired")
REL, ROOTS = "trust_relations", "roots"
K = mk("k", "row")


def text_of(t):
    if t.op == "seq" and all(s.op == "lit" for s in t.a):
        return "".join(s.a[0] for s in t.a)
    raise sql.Sql(f"SQL text is not constant: {show(t)[:120]}")


def prepared(src):
    """the statement a prepared-statement term executes"""
    if src.op in ("fld",) :
        x = src.a[0]
        if x.op == "app" and x.a[0] == PREP:
            ss = sql.statements(text_of(x.a[2]))
            if len(ss) != 1:
                raise sql.Sql("several statements in one prepare")
            return ss[0]
    raise sql.Sql(f"statement of unknown origin: {show(src)[:120]}")


def binds_of(b):
    """{position: value}"""
    if b.op != "seq" or not all(s.op == "el" for s in b.a):
        raise sql.Sql(f"bound values of unknown number: {show(b)[:120]}")
    out = {}
    xs = [s.a[0] for s in b.a]
    if xs and all(x.op == "adt" and x.a[0] == "()" for x in xs):
        for x in xs:
            i, v = x.a[3], x.a[4]
            if i.op != "int":
                raise sql.Sql("bound at a position that is not constant")
            out[i.a[0]] = v
        return out
    return {i + 1: x for i, x in enumerate(xs)}


class Exec:
    """one executed statement"""
    def __init__(self, s, binds, e, ins, text):
        self.s, self.binds, self.e, self.ins, self.text = s, binds, e, ins, text

    @property
    def kind(self):
        return self.s["kind"]

    @property
    def table(self):
        return self.s["table"]

    def __repr__(self):
        return f"`{self.text}` (at {self.e.span})"


def executed(o, writes_only=False):
    out = []
    for e, ins in flat(o.st.trace):
        if e.name == EXEC:
            t = text_of(e.args[1])
            for s in sql.statements(t):
                out.append(Exec(s, {}, e, ins, t))
        elif e.name == NEXT:
            st = e.args[0]
            s = prepared(st.a[3])
            if s["kind"] == "select":
                if writes_only:
                    continue
            elif st.a[5].op != "int":
                raise sql.Sql("a writing statement is stepped in a loop")
            elif st.a[5].a[0] != 0:
                continue
            out.append(Exec(s, binds_of(st.a[4]), e, ins, s["text"]))
    return [x for x in out if not (writes_only and x.kind in ("select", "control"))]


# ------------------------------------------------------------------ schema
class Schema:
    def __init__(self, ctx):
        self.tables = {}
        self.where = {}
        r = None
        try:
            r = ctx.run(f"{SV}::main")
        except (Missing, Unsupported):
            r = ctx.run(f"{SV}::create_tables")
        rets = r.rets()
        if not rets:
            raise Unsupported("the service's start-up never returns")
        self.r = r
        for o in rets:
            got = {}
            for x in executed(o):
                s = x.s
                if s["kind"] == "create":
                    got.setdefault(s["table"], dict(cols=s["cols"], aff=s["aff"], coll=s["coll"], unique=set(s["unique"]), text=x))
                elif s["kind"] == "index" and s["unique"] and s["table"] in got:
                    got[s["table"]]["unique"].add(frozenset(s["cols"]))
            for t in got:
                if t in self.tables and self.tables[t]["cols"] != got[t]["cols"]:
                    raise Unsupported("the schema depends on the path")
            self.tables.update(got)

    def cols(self, t):
        if t not in self.tables:
            raise Missing(f"table {t} in the service's start-up")
        return self.tables[t]["cols"]

    def row(self, x):
        """column values an INSERT writes"""
        s = x.s
        cols = s["cols"] or self.cols(s["table"])
        if len(cols) != len(s["vals"]):
            return None
        row = {}
        for c, v in zip(cols, s["vals"]):
            k, t = sql.operand(v, {}, x.binds)
            row[c] = mk("adt", sql.VALUE, k, ("0",), t) if t is not None else mk("adt", sql.VALUE, k, ())
        return row


class ST_(CT):
    def __init__(self, ctx):
        CT.__init__(self, ctx)
        self.AUTH = ctx.adt(TG, "Auth")
        self.TR = ctx.adt(TG, "TrustRelation")
        leaf_inverses(ctx)
        tm.INJECTIVE.update({"b58enc", PKE, SGE})
        self.schema = Schema(ctx)

    def c(self, n, p=K):
        return app("stored." + n, p)

    def auth(self, p=K):
        ns = tuple(tm.FIELDNAMES[self.AUTH])
        t = self.mktrust(issued_for=self.c("issued_for", p), signature=self.c("signature", p),
                         expires_at=scale(self.c("expires_s", p), NANO), issued_at=scale(self.c("issued_s", p), NANO))
        d = dict(trust=t, issued_by=self.c("issued_by", p))
        return adt(self.AUTH, "", ns, tuple(d[n] for n in ns))

    def rev(self, p=K):
        ns = tuple(tm.FIELDNAMES[self.REV])
        d = dict(pk=self.c("issued_for", p), revoked_by=self.c("issued_by", p), revoked_at=scale(self.c("issued_s", p), NANO),
                 signature=self.c("signature", p))
        return adt(self.REV, "", ns, tuple(d[n] for n in ns))

    def rel(self, kind, p=K):
        return adt(self.TR, kind, ("0",), (self.auth(p) if kind == "Auth" else self.rev(p),))

    def ranges(self, p=K):
        return AND(*[AND(le(Int(0), self.c(n, p)), lt(self.c(n, p), Int(1 << 64))) for n in ("expires_s", "issued_s")])

    def is_kind(self, kind, p=K):
        return is_(app("stored", p), self.TR, kind)

    def inserted(self, rel, what, ctx, body="insert"):
        """the rows `insert` writes for a relation: [(condition, row, executed)]"""
        r = ctx.run(f"{STO}::{body}", leaf=LEAF, args=[A0, rel])
        r.no_panic(f"{what}: writing does not panic")
        out = {}
        for o in r.rets():
            okst = [s for s in r.I.assume(o.st.copy(), isok(o.val)) if feasible(r.I, s)]
            if not okst:
                continue
            ws = executed(o, writes_only=True)
            if not (len(ws) == 1 and ws[0].kind == "insert" and ws[0].table == REL):
                ctx.bad(f"{what}: written by one INSERT into {REL}", r.where, f"success path executes {ws!r}"[:400], path=path_of(r.I, o))
                continue
            row = self.schema.row(ws[0])
            if row is None or set(row) != set(self.schema.cols(REL)):
                ctx.bad(f"{what}: every column is written", r.where, f"{ws[0]!r}")
                continue
            fs = [a if p else NOT(a) for a, p in o.st.facts.items()
                  if not any(y.op == "app" and (y.a[0].startswith("sql::") or y.a[0] == PREP) for y in walk(a))]
            g = AND(*fs)
            out[(g.id, tuple(sorted((c, v.id) for c, v in row.items())))] = (g, row, ws[0])
        return r, list(out.values())

    def stored_rows(self, ctx):
        """what a stored relation's row looks like: [(kind, condition, row)] over the row number K"""
        if not hasattr(self, "_rows"):
            rows = []
            for kind in ("Auth", "Revocation"):
                r, alts = self.inserted(self.rel(kind), kind, ctx)
                rows += [(kind, g, row) for g, row, _ in alts]
            self._rows = rows
        return self._rows

    def hook(self, ctx):
        """rows a SELECT yields, per the WHERE clause and the rows that were inserted"""
        rows = self.stored_rows(ctx)
        roots = self.root_rows(ctx)

        def f(I, st, s):
            q = prepared(s.a[3])
            if q["kind"] != "select":
                return None
            p = s.a[5]
            b = binds_of(s.a[4])
            out = []
            cols = []
            for c in q["cols"]:
                cols += self.schema.cols(q["table"]) if c == "*" else [c]
            if q["table"] == REL:
                src = [(AND(self.is_kind(k), g, self.ranges()), row) for k, g, row in rows]
            elif q["table"] == ROOTS:
                src = roots
            else:
                raise sql.Sql(f"unknown table {q['table']}")
            m = {K: p}
            for g, row in src:
                row = {c: subst(v, m) for c, v in row.items()}
                for c in cols:
                    if c[0] == "?":
                        row[c] = mk("adt", sql.VALUE, "Integer", ("0",), app("sql " + c[1:], p))
                    if c not in row:
                        raise sql.Sql(f"unknown column {c}")
                w = sql.truth(q["where"], row, b)
                out.append((AND(subst(g, m), w), els(*[row[c] for c in cols])))
            return out
        return f

    def root_rows(self, ctx):
        if not hasattr(self, "_roots"):
            r = ctx.run(f"{STO}::set_root_weight_factor", leaf=LEAF, args=[A0, self.c("root"), self.c("factor")])
            rng = AND(le(Int(0), self.c("factor")), lt(self.c("factor"), Int(1 << 32)))
            out = {}
            for o in r.rets():
                if not [s for s in r.I.assume(o.st.copy(), isok(o.val)) if feasible(r.I, s)]:
                    continue
                ws = executed(o, writes_only=True)
                if not (len(ws) == 1 and ws[0].kind == "insert" and ws[0].table == ROOTS):
                    ctx.bad("registering a root is one INSERT into roots", r.where, f"success path executes {ws!r}"[:400])
                    continue
                row = self.schema.row(ws[0])
                if row is None or set(row) != set(self.schema.cols(ROOTS)):
                    ctx.bad("every column of the root is written", r.where, f"{ws[0]!r}")
                    continue
                out[tuple(sorted((c, v.id) for c, v in row.items()))] = (rng, row, ws[0], r)
            self._roots_x = list(out.values())
            self._roots = [(g, row) for g, row, _, _ in self._roots_x]
        return self._roots


def exact(ctx, T, table, rule):
    """texts of the table compare as they are"""
    t = T.schema.tables.get(table)
    if t:
        ctx.oblige(not t["coll"], f"{rule}: texts are compared exactly", repr(t["text"]),
                   f"columns of {table} compare under {t['coll']}")


def merged(T, x, many):
    """GROUP BY makes one row of several"""
    g = x.s.get("group")
    return bool(g) and many and not any(u <= set(g) for u in T.schema.tables[x.table]["unique"])


def replaces(ctx, T, x, where, key, rule, I=None, st=None, olds=()):
    """a later INSERT for the same key takes the place of the stored row"""
    s = x.s
    uniq = T.schema.tables[s["table"]]["unique"]
    k = frozenset(key)
    exact(ctx, T, s["table"], rule)
    ctx.oblige(uniq == {k}, f"{rule}: one row per key", repr(T.schema.tables[s["table"]]["text"]),
               f"the unique keys of {s['table']} are {sorted(sorted(u) for u in uniq)}, required {sorted(k)}")
    if s["mode"] == "upsert":
        u = s["upd"]
        if u["where"] is not None:
            if st is None:
                raise sql.Sql("conditional upsert")
            new = {("new", c): v for c, v in (T.schema.row(x) or {}).items()}
            for g, old in olds:
                c = sql.truth(u["where"], {**old, **new}, x.binds)
                ctx.oblige(contradicts(I, st, AND(g, NOT(c))), f"{rule}: the new row takes the place of the old one", where,
                           f"{x!r} leaves the old row where its condition is false")
        rest = set(T.schema.cols(s["table"])) - k
        okk = (u["target"] is None or frozenset(u["target"]) == k) and set(u["set"]) - k == rest and all(
            v == ("excluded", c) for c, v in u["set"].items())
        ctx.oblige(okk, f"{rule}: the new row takes the place of the old one", where, f"{x!r} keeps old columns")
    else:
        ctx.oblige(s["mode"] == "replace", f"{rule}: the new row takes the place of the old one", where,
                   f"{x!r} does not replace a stored row")


# ------------------------------------------------------------------ C23
def c23(ctx):
    T = ST_(ctx)
    hook = T.hook(ctx)
    n = 0
    for fn, kind in (("update_auth", "Auth"), ("revoke", "Revocation")):
        r = ctx.run(f"{STO}::{fn}", leaf=LEAF, opts={"sqlrow": hook, "budget": 4000000})
        I = r.I
        rule = f"{fn}: the newer relation wins"
        new = adt(T.TR, kind, ("0",), (A1,))
        _, want_rows = T.inserted(new, f"{fn}", ctx)
        if kind == "Auth":
            at, by, fo = T.t(fld(A1, T.AUTH, "", "trust"), "issued_at"), fld(A1, T.AUTH, "", "issued_by"), T.t(fld(A1, T.AUTH, "", "trust"), "issued_for")
        else:
            at, by, fo = fld(A1, T.REV, "", "revoked_at"), fld(A1, T.REV, "", "revoked_by"), fld(A1, T.REV, "", "pk")
        r.no_panic(f"{fn} does not panic")
        for o in r.rets():
            xs = executed(o)
            sel = [x for x in xs if x.kind == "select" and x.table == REL]
            ws = [x for x in xs if x.kind not in ("select", "control")]
            # all other statements succeeded or the call fails (C21); here: the outcome without failures
            st = o.st
            ok_ = [s for s in I.assume(st.copy(), isok(o.val)) if feasible(I, s)]
            if not ok_:
                # a failing call must come from a failing statement
                n += 1
                ctx.oblige(any(I.truth(st, isok(e.res)) is False for e, _ in flat(st.trace) if e.name in SQLCALLS),
                           f"{fn}: fails only when a statement fails", r.where, f"returns {show(o.val)[:200]}", path=path_of(I, o))
                continue
            if len(sel) > 1 or any(x.ins for x in sel):
                raise Unsupported(f"{fn}: the stored relation is looked up several times")
            if not sel and any(x.kind == "insert" and x.s["upd"] and x.s["upd"]["where"] is not None for x in ws):
                raise Unsupported(f"{fn}: the comparison with the stored relation is left to the database")
            if not sel:
                ctx.bad(rule, r.where, f"the stored relation is looked up {len(sel)} times", path=path_of(I, o))
                continue
            if any(x.ins for x in ws):
                raise Unsupported("a statement is executed in a loop")
            s = sel[0]
            p = s.e.args[0].a[5]
            row = okv(s.e.res)
            for st in ok_:
                for some_, f in ((False, NOT(issome(row))), (True, issome(row))):
                    for s1 in I.assume(st.copy(), f):
                        if not feasible(I, s1):
                            continue
                        stored = scale(T.c("issued_s", p), NANO)
                        newer = lt(stored, at) if some_ else TRUE
                        for upd, f2 in ((True, newer), (False, NOT(newer))):
                            if f2 is FALSE:
                                continue
                            for s2 in I.assume(s1.copy(), f2):
                                if not feasible(I, s2):
                                    continue
                                n += 1
                                kinds = [k_ for k_ in ("Auth", "Revocation") if some_ and not contradicts(I, s2, T.is_kind(k_, p))]
                                kinds = f" (stored {' or stored '.join(kinds)})" if kinds else ""
                                if not upd:
                                    ctx.oblige(not ws, rule, r.where, f"writes {ws!r} although the stored relation is not older"[:500] + kinds,
                                               path=path_of(I, Out("ret", s2, o.val)))
                                    continue
                                if len(ws) != 1 or ws[0].kind != "insert" or ws[0].table != REL:
                                    ctx.bad(rule, r.where, f"executes {ws!r} where one INSERT of the new relation is required"[:500] + kinds,
                                            path=path_of(I, Out("ret", s2, o.val)))
                                    continue
                                got = T.schema.row(ws[0])
                                good = got is not None and any(
                                    all(equal_under(I, s2, got.get(c), w[c]) if c in got else False for c in w)
                                    for g, w, _ in want_rows if not contradicts(I, s2, g))
                                ctx.oblige(good, f"{fn}: the submitted relation is what is stored", r.where,
                                           f"stores {shrow(got)}, not the submitted relation"[:700], path=path_of(I, Out("ret", s2, o.val)))
                                if good:
                                    m = {K: p}
                                    olds = [(AND(T.is_kind(k_, p), eq(T.c("issued_for", p), fo), eq(T.c("issued_by", p), by), subst(g, m), subst(T.ranges(), m)), {c: subst(v, m) for c, v in w.items()})
                                            for k_, g, w in T.stored_rows(ctx)] if some_ else []
                                    replaces(ctx, T, ws[0], r.where, ("issued_for", "issued_by"), fn, I, s2, olds)
        # the lookup is of this issuer and subject
        sels = {}
        for o in r.rets():
            for x in executed(o):
                if x.kind == "select" and x.table == REL:
                    sels.setdefault((x.text, tuple(sorted((i, v.id) for i, v in x.binds.items()))), (x, o))
        for x, o in sels.values():
            lookup(ctx, T, r, o, x, fo, by, None, f"{fn}: compared with the relation of the same issuer and subject")
    if not n:
        ctx.unknown("C23", STO, "no path")


def shrow(row):
    return "{" + ", ".join(f"{c}: {show(v)[:80]}" for c, v in (row or {}).items()) + "}"


def contradicts(I, st, f):
    return not [s for s in I.assume(st.copy(), f) if feasible(I, s)]


def lookup(ctx, T, r, o, x, subject, issuer, kind, rule, many=False):
    """the WHERE clause selects exactly the rows of this subject (and issuer, and kind)"""
    I = r.I
    lim = x.s.get("limit")
    if lim is not None:
        okl = (not many) and lim[0] == "int" and lim[1] >= 1
        ctx.oblige(okl, rule, r.where, f"{x!r} limits the rows")
    exact(ctx, T, REL, rule)
    ctx.oblige(not merged(T, x, many), rule, r.where, f"{x!r} makes one row of several")
    base = State()
    for k, g, row in T.stored_rows(ctx):
        w = sql.truth(x.s["where"], row, x.binds)
        spec = [eq(T.c("issued_for"), subject)]
        if issuer is not None:
            spec.append(eq(T.c("issued_by"), issuer))
        if kind is not None and kind != k:
            spec.append(FALSE)
        spec = AND(*spec)
        for txt, f in (("selects a row that was not asked for", AND(w, NOT(spec))), ("misses a row that was asked for", AND(NOT(w), spec))):
            bad = None
            for s in I.assume(base.copy(), AND(f, g, T.ranges())):
                if feasible(I, s):
                    bad = s
                    break
            ctx.oblige(bad is None, rule, r.where, f"{x!r} {txt} (a stored {k})", **({"path": path_of(I, Out("ret", bad, o.val))} if bad else {}))


# ------------------------------------------------------------------ C24
def c24(ctx):
    T = ST_(ctx)
    rows = T.stored_rows(ctx)
    ctx.oblige({k for k, _, _ in rows} == {"Auth", "Revocation"}, "both kinds can be written", STO, "a kind of relation is never written")
    aff = T.schema.tables[REL]["aff"]
    for k, g, row in rows:
        for c, v in row.items():
            vk = sql.kind(v)[0]
            ctx.oblige(not (vk == "Integer" and aff[c] == "TEXT"), "columns keep the kind of their values",
                       repr(T.schema.tables[REL]["text"]), f"column {c} turns numbers into text")
    hook = T.hook(ctx)
    opts = {"sqlrow": hook, "budget": 4000000}
    # one relation
    r = ctx.run(f"{STO}::get_relation", leaf=LEAF, opts=opts)
    r.no_panic("get_relation does not panic")
    single(ctx, T, r, [(T.is_kind(k, Int(0)), some(T.rel(k, Int(0)))) for k in ("Auth", "Revocation")],
           "get_relation returns the stored relation", REL, lambda x, o: lookup(
               ctx, T, r, o, x, A1, A2, None, "get_relation: selects by subject and issuer"))
    for fn, k in (("get_authorizations", "Auth"), ("get_revocations", "Revocation")):
        r = ctx.run(f"{STO}::{fn}", leaf=LEAF, opts=opts)
        r.no_panic(f"{fn} does not panic")
        listing(ctx, T, r, lambda p: T.auth(p) if k == "Auth" else T.rev(p), f"{fn} returns the stored relations", REL, lambda x, o: lookup(
            ctx, T, r, o, x, A1, None, k, f"{fn}: selects by subject and kind", many=True))
    one_database(ctx)


def single(ctx, T, r, cases, rule, table, chk):
    I = r.I
    n = 0
    sels = {}
    for o in r.rets():
        xs = executed(o)
        sel = [x for x in xs if x.kind == "select" and x.table == table]
        for x in sel:
            sels.setdefault((x.text, tuple(sorted((i, v.id) for i, v in x.binds.items()))), (x, o))
        ok_ = [s for s in I.assume(o.st.copy(), isok(o.val)) if feasible(I, s)]
        if not ok_:
            ctx.oblige(any(I.truth(o.st, isok(e.res)) is False for e, _ in flat(o.st.trace) if e.name in SQLCALLS),
                       f"{rule}: fails only when a statement fails", r.where, f"returns {show(o.val)[:300]}", path=path_of(I, o))
            continue
        if len(sel) != 1 or sel[0].ins:
            raise Unsupported(f"{len(sel)} lookups on one path")
        row = okv(sel[0].e.res)
        for st in ok_:
            for s in I.assume(st.copy(), NOT(issome(row))):
                if feasible(I, s):
                    n += 1
                    e = want_ok(NONE)(I, s, o.val, o)
                    ctx.oblige(not e, f"{rule}: nothing stored", r.where, e, path=path_of(I, Out("ret", s, o.val)))
            for g, v in cases:
                for s in I.assume(st.copy(), AND(issome(row), g)):
                    if feasible(I, s):
                        n += 1
                        e = want_ok(v)(I, s, o.val, o)
                        ctx.oblige(not e, rule, r.where, e, path=path_of(I, Out("ret", s, o.val)))
    for x, o in sels.values():
        chk(x, o)
    if not n:
        ctx.unknown(rule, r.where, "no path")


def listing(ctx, T, r, elem, rule, table, chk):
    """the result lists the selected rows, each as its element"""
    I = r.I
    n = 0
    sels = {}
    for o in r.rets():
        for x in executed(o):
            if x.kind == "select" and x.table == table:
                sels.setdefault((x.text, tuple(sorted((i, v.id) for i, v in x.binds.items()))), (x, o))
        ok_ = [s for s in I.assume(o.st.copy(), isok(o.val)) if feasible(I, s)]
        if not ok_:
            ctx.oblige(any(I.truth(o.st, isok(a.a[0])) is False for a in o.st.facts if a.op == "is" and a.a[0].op == "app"
                           and a.a[0].a[0] in SQLCALLS), f"{rule}: fails only when a statement fails", r.where,
                       f"returns {show(o.val)[:300]}", path=path_of(I, o))
            continue
        for st in ok_:
            n += 1
            got = okv(o.val)
            # the number of rows: where the cursor reported the end
            ends = [a.a[0].a[0] for a, p in st.facts.items() if a.op == "is" and a.a[1] == OPT and (a.a[2] == "None") == p
                    and a.a[0].op == "fld" and a.a[0].a[0].op == "app" and a.a[0].a[0].a[0] == NEXT]
            if len(ends) != 1:
                raise Unsupported(f"{len(ends)} cursors are read to the end")
            cnt = ends[0].a[3]
            k = mk("k", ("spec", "row"))
            wanted = seq_of([comp(cnt, [(TRUE, one(elem(k)))], k)])
            okv_ = equal_under(I, st, got, wanted) or listed(I, st, got, cnt, elem)
            ctx.oblige(okv_, rule, r.where, f"lists {show(got)[:500]} where {show(wanted)[:300]} is required", path=path_of(I, Out("ret", st, o.val)))
    if not sels:
        ctx.bad(rule, r.where, f"no SELECT from {table} is executed")
    for x, o in sels.values():
        chk(x, o)
    if not n:
        ctx.unknown(rule, r.where, "no path")


def listed(I, st, got, cnt, elem):
    gs = segs_of(got)
    if len(gs) != 1 or gs[0].op != "comp" or gs[0].a[0] is not cnt:
        return False
    k = mk("k", ("spec", "row"))
    alts = tm.subst_comp(gs[0], k)
    # at every row, the alternatives that apply give the element
    s0 = [s for s in I.assume(st.copy(), AND(le(Int(0), k), lt(k, cnt)))]
    for s in s0:
        for a, p in list(st.facts.items()):
            if a.op == "all" and p:
                s2 = I.assume(s, resolve(I, s, inst_all(a, k)))
                s2 = [x for x in s2 if feasible(I, x)]
                if len(s2) == 1:
                    s = s2[0]
                elif not s2:
                    break
        rest = TRUE
        for g, b in alts:
            for x in I.assume(s.copy(), AND(rest, g)):
                if feasible(I, x) and not equal_under(I, x, b, one(elem(k))):
                    return False
            rest = AND(rest, NOT(g))
        for x in I.assume(s.copy(), rest):
            if feasible(I, x):
                return False
    return True


def one_database(ctx):
    """tables are created in the database the storage opens"""
    P = ctx.p
    cg = callgraph(P)
    paths = {}
    for b in P.bodies.values():
        if b.crate != SV or b.kind == "std":
            continue
        if any((f.get("key") or "") == OPEN or key == OPEN for f, key, _ in cg[b.key]):
            try:
                r = ctx.run(b, leaf=lambda s, bb: True)
            except Unsupported as e:
                ctx.unknown("one database", b.short, e)
                continue
            for o in r.outs:
                for e, _ in flat(o.st.trace):
                    if e.name == OPEN:
                        try:
                            paths.setdefault(text_of(e.args[0]), r.where)
                        except sql.Sql:
                            paths.setdefault(show(e.args[0]), r.where)
    if not paths:
        ctx.unknown("one database", SV, "no call of open seen")
        return
    ctx.oblige(len(paths) == 1, "tables are created in the database the storage opens", "; ".join(paths.values()), f"databases {sorted(paths)}")


# ------------------------------------------------------------------ C25
def c25(ctx):
    T = ST_(ctx)
    r = ctx.run(f"{STO}::remove_expired", leaf=LEAF)
    I = r.I
    rows = T.stored_rows(ctx)
    now = secs(A1)
    ctx.assumptions.append("the purge time is below 2^63 seconds")
    n = 0
    for o in r.rets():
        ws = executed(o, writes_only=True)
        for x in ws:
            ctx.oblige(x.kind == "delete" and x.table == REL, "the purge only deletes relations", r.where, f"executes {x!r}")
        ok_ = [s for s in I.assume(o.st.copy(), AND(isok(o.val), lt(now, Int(1 << 63)))) if feasible(I, s)]
        if not ok_:
            continue
        ds = [x for x in ws if x.kind == "delete" and x.table == REL]
        if not ds:
            ctx.bad("a successful purge deletes", r.where, "no DELETE is executed on a path that succeeds", path=path_of(I, o))
            continue
        if any(x.s.get("limit") is not None for x in ds):
            ctx.bad("the purge deletes every expired trust", r.where, f"{ds!r} limits the rows")
            continue
        es = T.c("expires_s")
        for kind, g, row in rows:
            w0 = OR(*[sql.truth(x.s["where"], row, x.binds) for x in ds])
            spec = le(es, now) if kind == "Auth" else FALSE
            for big in (False, True):
                m = {app("bitcast", es): es if not big else sub(es, Int(1 << 64)), app("bitcast", now): now}
                rng = [T.ranges(), lt(now, Int(1 << 63)), le(Int(0), now), le(Int(1 << 63), es) if big else lt(es, Int(1 << 63))]
                w = subst(w0, m)
                for txt, f in (("deletes a relation that is not an expired trust", AND(w, NOT(spec))),
                               ("keeps an expired trust", AND(NOT(w), spec))):
                    for st in ok_:
                        n += 1
                        bad = [s for s in I.assume(st.copy(), AND(f, subst(g, m), *rng)) if feasible(I, s)]
                        ctx.oblige(not bad, f"purge condition on a stored {kind}" + (" that expires after 2^63 seconds" if big else ""),
                                   r.where, f"{ds!r} {txt}", **({"path": path_of(I, Out("ret", bad[0], o.val))} if bad else {}))
    if not n:
        ctx.unknown("C25", r.where, "no path")


# ------------------------------------------------------------------ C26
def c26(ctx):
    T = ST_(ctx)
    hook = T.hook(ctx)
    rs = T.root_rows(ctx)
    ctx.oblige(bool(rs), "a root can be registered", STO, "no success path writes the root")
    for g, row, x, r in T._roots_x:
        r.no_panic("registering a root does not panic")
        m = {K: mk("k", "oldrow")}
        olds = [(AND(g, subst(g2, m), eq(T.c("root"), T.c("root", m[K]))), {c: subst(v, m) for c, v in row2.items()}) for g2, row2 in rs]
        replaces(ctx, T, x, r.where, ("public_key",), "registering again", r.I, State(), olds)
    opts = {"sqlrow": hook, "budget": 4000000}
    r = ctx.run(f"{STO}::get_root_weight_factor", leaf=LEAF, opts=opts)
    r.no_panic("reading a factor does not panic")

    def chk(x, o, many=False, r=r):
        lim = x.s.get("limit")
        ctx.oblige(lim is None or (not many and lim[0] == "int" and lim[1] >= 1), "no registered root is left out", r.where, f"{x!r} limits the rows")
        exact(ctx, T, ROOTS, "roots")
        ctx.oblige(not merged(T, x, many), "no registered root is left out", r.where, f"{x!r} makes one row of several")
        for g, row in rs:
            w = sql.truth(x.s["where"], row, x.binds)
            spec = TRUE if many else eq(T.c("root"), A1)
            for txt, f in (("selects a root that was not asked for", AND(w, NOT(spec))), ("misses a registered root", AND(NOT(w), spec))):
                bad = [s for s in r.I.assume(State(), AND(f, g)) if feasible(r.I, s)]
                ctx.oblige(not bad, "roots are selected by key" if not many else "every root is listed", r.where, f"{x!r} {txt}")
    single(ctx, T, r, [(TRUE, some(T.c("factor", Int(0))))], "reading gives the registered factor", ROOTS, chk)
    r = ctx.run(f"{STO}::root_keys", leaf=LEAF, opts=opts)
    r.no_panic("listing roots does not panic")
    listing(ctx, T, r, lambda p: T.c("root", p), "root_keys lists the registered keys", ROOTS, lambda x, o: chk(x, o, True, r))
    rg.root_setup(ctx)


# ------------------------------------------------------------------ parts of C21, C22
# -------------------------------------------------------------------------------- C42
LAYOUT = {REL: ("relation_type", "issued_for", "issued_by", "issued_at", "expires_at", "signature"),
          ROOTS: ("public_key", "weight_factor")}


def c42(ctx):
    """what is written today is laid out as it always was, so databases written earlier stay readable"""
    T = ST_(ctx)
    I = T.schema.r.I
    where = T.schema.r.where
    for t, cols in LAYOUT.items():
        got = T.schema.cols(t)
        ctx.oblige(tuple(c.lower() for c in got) == cols, f"columns of {t}", where, f"the table is created with {got} instead of {list(cols)}")

    def val(kind, t=None):
        return mk("adt", sql.VALUE, kind, ("0",), t)

    def key(n):
        return val("String", sapp("b58enc", sapp(PKE, T.c(n))))

    def time(n):
        return val("Integer", app("bitcast", T.c(n)))

    def judge(run, row, exp, what):
        st = run.rets()[0].st if run.rets() else None
        low = {c.lower(): v for c, v in row.items()}
        for c, w in exp.items():
            g = low.get(c)
            if w is None or g is None:
                continue        # a placeholder; missing columns are reported above
            ctx.oblige(g is w or (st is not None and equal_under(run.I, st, g, w)), f"{what}: column {c}", run.where,
                       f"{c} is written as {show(g)[:250]} instead of {show(w)[:250]}")
    for kind, code in (("Auth", 0), ("Revocation", 1)):
        run, alts = T.inserted(T.rel(kind), kind, ctx)
        ctx.oblige(len(alts) > 0, f"{kind}: a row is written", run.where, "no path writes a row")
        for g, row, x in alts:
            judge(run, row, {"relation_type": val("Integer", Int(code)), "issued_for": key("issued_for"), "issued_by": key("issued_by"),
                             "issued_at": time("issued_s"), "expires_at": time("expires_s") if kind == "Auth" else None,
                             "signature": val("Binary", sapp(SGE, T.c("signature")))}, kind)
    T.root_rows(ctx)
    ctx.oblige(len(T._roots_x) > 0, "a root's row is written", where, "no path writes a row")
    for g, row, x, run in T._roots_x:
        judge(run, row, {"public_key": key("root"), "weight_factor": val("Integer", T.c("factor"))}, "root")


def c21_sql(ctx):
    CT(ctx)
    for fn in METHODS:
        leaf = set(LEAF)
        r = ctx.run(f"{STO}::{fn}", leaf=leaf, opts={"budget": 4000000})
        n = swallowed(ctx, r, lambda e: e.name in SQLCALLS, f"SQLite {fn}: a database failure is reported")
        if not n:
            ctx.unknown("SQL failures", r.where, "no statement seen")


KINDS = {"get_relation": (), "get_authorizations": (), "get_revocations": (), "get_root_weight_factor": (), "root_keys": (),
         "insert": (("insert", REL),), "revoke": (("insert", REL),), "update_auth": (("insert", REL),),
         "set_root_weight_factor": (("insert", ROOTS),), "remove_expired": (("delete", REL),)}


def c22_sql(ctx):
    CT(ctx)
    P = ctx.p
    for fn, allowed in KINDS.items():
        r = ctx.run(f"{STO}::{fn}", leaf=LEAF, opts={"budget": 4000000})
        for o in r.outs:
            for x in executed(o, writes_only=True):
                ctx.oblige((x.kind, x.table) in allowed, f"SQLite {fn}: executes only statements of its operation", r.where, f"executes {x!r}")
    sch = Schema(ctx)
    for o in sch.r.rets():
        for x in executed(o, writes_only=True):
            ctx.oblige(x.kind in ("create", "index"), "start-up only creates tables", sch.r.where, f"executes {x!r}")
    # the shared graph is set up on first use
    for b in P.bodies.values():
        if b.crate == SV and b.kind == "fn" and "rust_std_internal_init" in b.key:
            r = ctx.run(b)
            for o in r.outs:
                for x in executed(o, writes_only=True):
                    ctx.oblige(x.kind in ("create", "index"), "opening the graph changes nothing stored", r.where, f"executes {x!r}")
            ctx.ok("opening the graph changes nothing stored", r.where)
    # nobody else talks to the database
    cg = callgraph(P)
    for b in P.bodies.values():
        if b.crate != SV or b.kind == "std":
            continue
        for f, key, span in cg[b.key]:
            if key in (PREP, EXEC) or f.get("key") in (PREP, EXEC):
                o = owner(P, b)
                good = startup_or_storage(P, cg, o)
                ctx.oblige(good, "only the storage and start-up talk to the database", f"{b.short} ({b.span})", f"executes SQL (at {span})")


def startup_or_storage(P, cg, b, seen=None):
    if b.short == f"{SV}::main" or (b.trait and str(b.trait).split("::")[-1] == "Storage"):
        return True
    seen = seen or set()
    if b.key in seen:
        return True
    seen.add(b.key)
    cs = [c for c in callers(P, cg).get(b.key, ()) if c in P.bodies]
    if not cs and b.kind == "fn" and "::service_api" in b.key:
        return False        # an exported function
    return all(startup_or_storage(P, cg, owner(P, P.bodies[c]), seen) for c in cs)


RULES = {"C42": c42, "C23": c23, "C24": c24, "C25": c25, "C26": c26}
