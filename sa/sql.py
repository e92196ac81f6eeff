"""A reader for the small SQL subset the storage uses; a condition becomes a formula over column and bound terms."""
import re

from interp import Unsupported
from term import *

TOK = re.compile(r"\s*(?:(--[^\n]*)|('(?:[^']|'')*')|(\"[^\"]*\"|`[^`]*`|\[[^\]]*\]|[A-Za-z_][A-Za-z_0-9]*)|(\d+)|(\?\d*)|(<>|<=|>=|==|!=|\|\||[(),;=<>*.+\-/])|(.))", re.S)


class Sql(Unsupported):
    pass


def lex(text):
    out = []
    for m in TOK.finditer(text):
        c, s, ident, num, par, op, other = m.groups()
        if s is not None:
            out.append(("str", s[1:-1].replace("''", "'")))
        elif ident is not None:
            out.append(("id", ident.strip('"`[]')))
        elif num is not None:
            out.append(("num", int(num)))
        elif par is not None:
            out.append(("par", int(par[1:]) if par[1:] else None))
        elif op is not None:
            out.append(("op", op))
        elif other is not None and other.strip():
            raise Sql(f"SQL: unexpected {other!r} in {text[:80]!r}")
    return out


class P:
    def __init__(self, toks, text):
        self.t, self.i, self.text, self.npar = toks, 0, text, 0

    def peek(self, d=0):
        return self.t[self.i + d] if self.i + d < len(self.t) else ("end", None)

    def kw(self, *ws):
        """consume the keywords if they are next"""
        for d, w in enumerate(ws):
            k, v = self.peek(d)
            if k != "id" or v.upper() != w:
                return False
        self.i += len(ws)
        return True

    def op(self, o):
        if self.peek() == ("op", o):
            self.i += 1
            return True
        return False

    def need(self, c):
        if not c:
            raise Sql(f"SQL not understood near token {self.i} of {self.text[:120]!r}")

    def ident(self):
        k, v = self.peek()
        self.need(k == "id")
        self.i += 1
        if self.op("."):        # table.column
            return self.ident()
        return v.lower()

    def idents(self):
        self.need(self.op("("))
        r = [self.ident()]
        while self.op(","):
            r.append(self.ident())
        self.need(self.op(")"))
        return r

    # ---- expressions
    def expr(self):
        r = self.conj()
        while self.kw("OR"):
            r = ("or", r, self.conj())
        return r

    def conj(self):
        r = self.neg()
        while self.kw("AND"):
            r = ("and", r, self.neg())
        return r

    def neg(self):
        if self.kw("NOT"):
            return ("not", self.neg())
        return self.cmp()

    def cmp(self):
        a = self.sum()
        k, v = self.peek()
        if k == "op" and v in ("=", "==", "!=", "<>", "<", "<=", ">", ">="):
            self.i += 1
            return ("cmp", {"==": "=", "<>": "!="}.get(v, v), a, self.sum())
        if self.kw("IS", "NOT", "NULL") or self.kw("NOTNULL"):
            return ("notnull", a)
        if self.kw("IS", "NULL") or self.kw("ISNULL"):
            return ("not", ("notnull", a))
        if self.kw("IS", "NOT"):
            return ("cmp", "!=", a, self.sum())
        if self.kw("IS"):
            return ("cmp", "=", a, self.sum())
        neg = self.kw("NOT")
        if self.kw("BETWEEN"):
            lo = self.sum()
            self.need(self.kw("AND"))
            hi = self.sum()
            r = ("and", ("cmp", ">=", a, lo), ("cmp", "<=", a, hi))
            return ("not", r) if neg else r
        if self.kw("IN"):
            self.need(self.op("("))
            if self.kw("SELECT"):
                q = self.select()
                self.need(self.op(")"))
                r = ("insel", a, q)
                return ("not", r) if neg else r
            r = ("cmp", "=", a, self.sum())
            while self.op(","):
                r = ("or", r, ("cmp", "=", a, self.sum()))
            self.need(self.op(")"))
            return ("not", r) if neg else r
        for w in ("LIKE", "REGEXP", "MATCH"):
            if self.kw(w):
                r = ("match", w, a, self.sum())
                if self.kw("ESCAPE"):
                    r = r + (self.sum(),)
                return ("not", r) if neg else r
        self.need(not neg)
        return a

    def sum(self):
        r = self.coll()
        while self.peek() in (("op", "+"), ("op", "-")):
            o = self.peek()[1]
            self.i += 1
            r = (o, r, self.coll())
        return r

    def coll(self):
        r = self.atom()
        while self.kw("COLLATE"):
            c = self.ident().upper()
            if c != "BINARY":
                r = ("coll", c, r)
        return r

    def atom(self):
        k, v = self.peek()
        if k == "par":
            self.i += 1
            if v is None:
                self.npar += 1
                return ("par", self.npar)
            self.npar = max(self.npar, v)
            return ("par", v)
        if k == "num":
            self.i += 1
            return ("int", v)
        if k == "str":
            self.i += 1
            return ("str", v)
        if self.op("-"):
            k, v = self.peek()
            self.need(k == "num")
            self.i += 1
            return ("int", -v)
        if self.op("("):
            r = self.expr()
            if self.peek() == ("op", ","):
                r = ("row", r)
                while self.op(","):
                    r = r + (self.expr(),)
            self.need(self.op(")"))
            return r
        self.need(k == "id" and v.upper() not in ("SELECT", "CASE", "CAST", "EXISTS", "NULL"))
        if self.peek(1) == ("op", "("):
            f = v.lower()
            self.need(f in FUNS)
            self.i += 2
            r = ("fn", f, self.sum())
            while self.op(","):
                r = r + (self.sum(),)
            self.need(self.op(")"))
            return r
        if v.upper() in ("TRUE", "FALSE"):
            self.i += 1
            return ("int", int(v.upper() == "TRUE"))
        if v.lower() == "excluded" and self.peek(1) == ("op", "."):
            return ("excol", self.ident())
        return ("col", self.ident())

    def tail(self):
        """ORDER BY / LIMIT; returns the limit expression"""
        lim = None
        if self.kw("ORDER", "BY"):
            self.ident()
            self.kw("ASC") or self.kw("DESC")
            while self.op(","):
                self.ident()
                self.kw("ASC") or self.kw("DESC")
        if self.kw("LIMIT"):
            lim = self.sum()
            if self.kw("OFFSET") or self.op(","):
                lim = ("offset", lim, self.sum())
        return lim

    def select(self):
        """the rest of a SELECT"""
        p = self
        cols, agg = [], None
        p.kw("DISTINCT")
        while True:
            if p.op("*"):
                cols.append("*")
            elif p.peek(1) == ("op", "("):
                agg = p.peek()[1].lower()
                p.need(agg in ("max", "min", "count", "sum", "total", "avg", "group_concat"))
                p.i += 2
                p.op("*") or p.ident()
                p.need(p.op(")"))
                cols.append("?" + agg)
                if p.kw("AS"):
                    p.ident()
            else:
                cols.append(p.ident())
                if p.kw("AS"):
                    p.ident()
            if not p.op(","):
                break
        p.need(p.kw("FROM"))
        t = p.ident()
        w = p.expr() if p.kw("WHERE") else None
        group = None
        if p.kw("GROUP", "BY"):
            group = [p.ident()]
            while p.op(","):
                group.append(p.ident())
        lim = p.tail()
        if agg is not None:
            # an aggregate among plain columns makes one row of all (or of each group)
            p.need(any(c[0] != "?" for c in cols))
            lim = ("merged", agg)
        return dict(kind="select", table=t, cols=cols, where=w, limit=lim, group=group, text=p.text)

    def end(self):
        self.op(";")
        self.need(self.peek()[0] == "end")


def statements(text):
    """the statements of a text"""
    toks = lex(text)
    part, out = [], []
    for t in toks + [("op", ";")]:
        if t == ("op", ";"):
            if part:
                out.append(statement(part, text))
            part = []
        else:
            part.append(t)
    return out


def statement(toks, text):
    p = P(toks, text)
    if p.kw("CREATE"):
        p.kw("TEMP") or p.kw("TEMPORARY")
        if p.kw("UNIQUE", "INDEX") or p.kw("INDEX"):
            uniq = toks[p.i - 2][1].upper() == "UNIQUE"
            p.kw("IF", "NOT", "EXISTS")
            p.ident()
            p.need(p.kw("ON"))
            t = p.ident()
            cols = p.idents()
            p.end()
            return dict(kind="index", table=t, unique=uniq, cols=cols, text=text)
        p.need(p.kw("TABLE"))
        ine = p.kw("IF", "NOT", "EXISTS")
        t = p.ident()
        p.need(p.op("("))
        cols, aff, uniq, coll = [], {}, [], {}
        while True:
            if p.kw("PRIMARY", "KEY") or p.kw("UNIQUE"):
                uniq.append(frozenset(p.idents()))
            elif p.kw("CONSTRAINT"):
                p.ident()
                p.need(p.kw("PRIMARY", "KEY") or p.kw("UNIQUE"))
                uniq.append(frozenset(p.idents()))
            else:
                c = p.ident()
                cols.append(c)
                ty = []
                while p.peek()[0] == "id":
                    if p.kw("PRIMARY", "KEY") or p.kw("UNIQUE"):
                        uniq.append(frozenset([c]))
                    elif p.kw("NOT", "NULL"):
                        pass
                    elif p.kw("ASC") or p.kw("DESC") or p.kw("AUTOINCREMENT"):
                        pass
                    elif p.kw("COLLATE"):
                        coll[c] = p.ident().upper()
                    elif p.kw("DEFAULT"):
                        p.atom()
                    else:
                        w = p.peek()[1].upper()
                        p.need(w not in ("CHECK", "REFERENCES", "GENERATED", "ON"))
                        ty.append(w)
                        p.i += 1
                aff[c] = affinity(" ".join(ty))
            if not p.op(","):
                break
        p.need(p.op(")"))
        if p.kw("WITHOUT", "ROWID") or p.kw("STRICT"):
            pass
        p.end()
        return dict(kind="create", table=t, cols=cols, aff=aff, coll={c: n for c, n in coll.items() if n != "BINARY"}, unique=uniq, ine=ine, text=text)
    if p.kw("SELECT"):
        q = p.select()
        p.end()
        return q
    if p.kw("INSERT") or p.kw("REPLACE"):
        mode = "plain"
        if toks[0][1].upper() == "REPLACE":
            mode = "replace"
        elif p.kw("OR"):
            mode = p.ident()
        p.need(p.kw("INTO"))
        t = p.ident()
        cols = p.idents() if p.peek() == ("op", "(") else None
        p.need(p.kw("VALUES"))
        p.need(p.op("("))
        vals = [p.sum()]
        while p.op(","):
            vals.append(p.sum())
        p.need(p.op(")"))
        upd = None
        if p.kw("ON", "CONFLICT"):
            tgt = p.idents() if p.peek() == ("op", "(") else None
            p.need(p.kw("DO"))
            if p.kw("NOTHING"):
                mode = "ignore"
            else:
                p.need(p.kw("UPDATE", "SET"))
                upd = {}
                while True:
                    c = p.ident()
                    p.need(p.op("="))
                    k, v = p.peek()
                    if k == "id" and v.lower() == "excluded":
                        upd[c] = ("excluded", p.ident())
                    else:
                        upd[c] = p.sum()
                    if not p.op(","):
                        break
                mode = "upsert"
                upd = dict(target=tgt, set=upd, where=p.expr() if p.kw("WHERE") else None)
        p.end()
        return dict(kind="insert", table=t, cols=cols, vals=vals, mode=mode, upd=upd, text=text)
    if p.kw("DELETE"):
        p.need(p.kw("FROM"))
        t = p.ident()
        w = p.expr() if p.kw("WHERE") else None
        lim = p.tail()
        p.end()
        return dict(kind="delete", table=t, where=w, limit=lim, text=text)
    if p.kw("UPDATE"):
        t = p.ident()
        return dict(kind="update", table=t, text=text)
    if p.kw("DROP"):
        return dict(kind="drop", table="?", text=text)
    if p.kw("PRAGMA") or p.kw("BEGIN") or p.kw("COMMIT") or p.kw("END"):
        return dict(kind="control", table=None, text=text)
    raise Sql(f"SQL statement not understood: {text[:100]!r}")


def affinity(ty):
    if "INT" in ty:
        return "INTEGER"
    if any(x in ty for x in ("CHAR", "CLOB", "TEXT")):
        return "TEXT"
    if "BLOB" in ty or not ty:
        return "BLOB"
    if any(x in ty for x in ("REAL", "FLOA", "DOUB")):
        return "REAL"
    return "NUMERIC"


FUNS = ("lower", "upper", "trim", "ltrim", "rtrim", "substr", "abs", "length", "hex", "replace", "max", "min", "ifnull", "coalesce")


# ------------------------------------------------------------------ meaning
VALUE = "marine_sqlite_connector::Value"


def kind(v):
    if v.op == "adt" and v.a[0] == VALUE:
        return v.a[1], v.a[3] if len(v.a) > 3 else None
    raise Sql(f"SQL: a bound value of unknown kind: {show(v)[:100]}")


def operand(e, row, binds):
    """(kind, term) of a value expression"""
    if e[0] == "col":
        if e[1] not in row:
            raise Sql(f"SQL: unknown column {e[1]}")
        return kind(row[e[1]])
    if e[0] == "excol":
        if ("new", e[1]) not in row:
            raise Sql(f"SQL: unknown column excluded.{e[1]}")
        return kind(row[("new", e[1])])
    if e[0] == "par":
        if e[1] not in binds:
            return "Null", None
        return kind(binds[e[1]])
    if e[0] == "int":
        return "Integer", Int(e[1])
    if e[0] == "str":
        return "String", strlit(e[1])
    if e[0] in ("+", "-"):
        (k1, a), (k2, b) = operand(e[1], row, binds), operand(e[2], row, binds)
        if k1 == k2 == "Integer":
            return "Integer", add(a, b) if e[0] == "+" else sub(a, b)
    if e[0] == "fn":
        xs = [operand(x, row, binds) for x in e[2:]]
        if e[1] in ("ifnull", "coalesce"):
            xs = [x for x in xs if x[0] != "Null"]
            if xs:
                return xs[0]
        elif not any(x[1] is None for x in xs):
            k = "Integer" if e[1] in ("length", "abs", "max", "min") else "String"
            if k == "Integer" and e[1] != "length" and any(x[0] != "Integer" for x in xs):
                raise Sql("SQL: value expression not understood")
            return k, mk("app", "sql " + e[1], *[x[1] for x in xs])
    raise Sql("SQL: value expression not understood")


def truth(e, row, binds):
    """the formula of a condition"""
    if e is None:
        return TRUE
    if e[0] == "and":
        return AND(truth(e[1], row, binds), truth(e[2], row, binds))
    if e[0] == "or":
        return OR(truth(e[1], row, binds), truth(e[2], row, binds))
    if e[0] == "not":
        return NOT(truth(e[1], row, binds))
    if e[0] == "notnull":
        return Bool(operand(e[1], row, binds)[0] != "Null")
    if e[0] == "int":
        return Bool(e[1] != 0)
    if e[0] == "insel":
        q = e[2]
        if e[1][0] == "col" and q["cols"] == [e[1][1]] and e[1][1] == "rowid" and q["limit"] is None and not q["group"]:
            return truth(q["where"], row, binds)
        # membership in what another table (or other rows) holds: some predicate that the row alone does not decide
        return mk("app", "sql in " + q["table"], strlit(repr((e[1], q["cols"], q["where"]))))
    if e[0] == "cmp" and e[2][0] == "row" and e[3][0] == "row" and len(e[2]) == len(e[3]) and e[1] in ("=", "!="):
        f = AND(*[truth(("cmp", "=", a, b), row, binds) for a, b in zip(e[2][1:], e[3][1:])])
        return f if e[1] == "=" else NOT(f)
    if e[0] == "cmp" and "coll" in (e[2][0], e[3][0]) and e[1] in ("=", "!="):
        c = e[2][1] if e[2][0] == "coll" else e[3][1]
        a, b = [operand(x[2] if x[0] == "coll" else x, row, binds) for x in e[2:4]]
        f = mk("app", "sql equal under " + c, a[1], b[1]) if a[0] == "String" else eq(a[1], b[1], True)
        return f if e[1] == "=" else NOT(f)
    if e[0] == "cmp":
        (k1, a), (k2, b) = operand(e[2], row, binds), operand(e[3], row, binds)
        o = e[1]
        if "Null" in (k1, k2):
            raise Sql("SQL: comparison with NULL")
        if k1 != k2:
            raise Sql(f"SQL: comparison of {k1} with {k2}")
        if o in ("=", "!="):
            f = eq(a, b, k1 == "Integer")
            return f if o == "=" else NOT(f)
        if k1 != "Integer":
            raise Sql("SQL: order of non-numbers")
        return {"<": lt(a, b), "<=": le(a, b), ">": lt(b, a), ">=": le(b, a)}[o]
    if e[0] == "match":
        # pattern matching: some predicate of both texts, not their equality
        return mk("app", "sql " + e[1], *[operand(x, row, binds)[1] for x in e[2:]])
    raise Sql(f"SQL: condition not understood: {e!r}")


def params(e):
    if isinstance(e, dict):
        return params(e.get("where"))
    return [] if not isinstance(e, tuple) else ([e[1]] if e[0] == "par" else [x for y in e[1:] for x in params(y)])
