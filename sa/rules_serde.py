"""C40: what serde writes, serde reads back."""
import serde_model as sm
from rulelib import *
import re
from rules_core import LEAF, PKD, A0, leaf_inverses

KP, TG = "fluence_keypair", "trust_graph"
NEED = [(KP, "PublicKey"), (KP, "Signature"), (TG, "PublicKeyHashable"), (TG, "Trust"), (TG, "Revocation"), (TG, "Auth"),
        (TG, "TrustRelation")]
RULE = "serde round trip"
FORMATS = {"text": "a human-readable format", "bin": "a binary format"}


def c40(ctx):
    leaf_inverses(ctx)
    ctx.assumptions.append("serde formats: byte strings written as lists of numbers (human readable) or as byte strings (binary), "
                           "structs matched by field name or by position, variants by name or by index; foreign types "
                           "(Duration, Vec, the curve libraries) read back what they write")
    pairs = {}
    for b in ctx.p.bodies.values():
        m = re.match(r"(\w+)::<(.+) as (Serialize|Deserialize)>::(serialize|deserialize)$", b.short)
        if m and b.kind == "fn" and m.group(1) in (KP, TG):
            pairs.setdefault((m.group(1), m.group(2)), {})[m.group(4)] = b
    for n in NEED:
        if set(pairs.get(n, ())) != {"serialize", "deserialize"}:
            raise Missing(f"{n[0]}::{n[1]}: Serialize and Deserialize")
    for n, p in sorted(pairs.items()):
        if len(p) == 2:
            leaf = LEAF if n == (TG, "PublicKeyHashable") else ()
            for f in FORMATS:
                try:
                    pair(ctx, p["serialize"], p["deserialize"], f, leaf)
                except Unsupported as e:
                    ctx.unknown(RULE, p["serialize"].short, e)
    # keys may be given as text
    b = sapp("b58dec", A0)
    g = AND(isok(b), isok(sapp(PKD, okv(b))))
    q = ctx.run(pairs[(TG, "PublicKeyHashable")]["deserialize"], leaf=LEAF, args=[sm.de("text", mk("tok", "str", A0))])
    if any(str(e.name).startswith("std?serde") for x in q.rets() for e in x.st.trace):
        ctx.unknown("hashable key from text", q.where, "an exchange with the format is not followed")
    else:
        q.cases("hashable key from text", [("base58 of a key => that key", g, want_ok(okv(sapp(PKD, okv(b))))),
                                           ("anything else => error", NOT(g), want_err())])


def pair(ctx, s, d, fmt, leaf):
    r = ctx.run(s, leaf=leaf, args=[A0, sm.ser(fmt)])
    r.no_panic("serialization does not panic")
    n = 0
    for o in r.rets():
        v = o.val
        if v.op == "adt" and v.a[1] == "Ok" and v.a[3].op == "tok":
            w = v.a[3]
        elif v.op == "adt" and v.a[1] == "Err":
            ctx.bad(RULE, r.where, f"a value is refused when written to {FORMATS[fmt]}: {show(v)[:200]}", path=path_of(r.I, o))
            continue
        else:
            ctx.unknown(RULE, r.where, f"the written form is not followed: {show(v)[:300]}")
            n += 1
            continue
        n += 1
        q = ctx.run(d, leaf=leaf, args=[sm.de(fmt, w)], pre=[a if p else NOT(a) for a, p in o.st.facts.items()])
        if any(str(e.name).startswith("std?serde") for x in q.rets() for e in x.st.trace):
            ctx.unknown(RULE, q.where, "an exchange with the format is not followed")
            continue
        q.no_panic("deserialization does not panic")
        q.cases(f"{RULE} in {FORMATS[fmt]}", [("any value", TRUE, want_ok(A0))])
    ctx.oblige(n > 0, RULE, r.where, "nothing is written")


RULES = {"C40": c40}
