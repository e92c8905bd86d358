"""The built-in commands and functions: metadata and bodies."""

from mirlib import strip_var, Call
import mirlib

TRAIT = "endbasic_core::callable::Callable"
SCOPE = "endbasic_core::callable::Scope"


class Callable:
    pass


def unwrap_cow(e):
    e = strip_var(e)
    if e[0] == "agg" and e[2] in ("Borrowed", "Owned"):
        return strip_var(e[3][0])
    return e


def ev(e):
    """Name of the enum variant an expression builds."""
    e = strip_var(e)
    return e[2] if e[0] == "agg" else None


def sep_of(e):
    e = strip_var(e)
    if e[0] != "agg":
        return None
    if e[2] == "Exactly":
        return [ev(e[3][0])]
    if e[2] == "OneOf":
        a = strip_var(e[3][0])
        return [ev(x) for x in a[3]] if a[0] == "agg" else None
    if e[2] == "End":
        return []
    return None


def parse_syntax(e):
    """[(singular list, repeated or None)] from the argument of with_syntax."""
    e = strip_var(e)
    if e[0] != "agg":
        return None
    out = []
    for s in e[3]:
        s = strip_var(s)
        if s[0] != "agg" or len(s[3]) != 2:
            return None
        sing, rep = strip_var(s[3][0]), strip_var(s[3][1])
        if sing[0] != "agg" or rep[0] != "agg":
            return None
        args = []
        for a in sing[3]:
            a = strip_var(a)
            if a[0] != "agg" or len(a[3]) != 2:
                return None
            d = strip_var(a[3][0])
            if d[0] != "agg":
                return None
            sp = sep_of(a[3][1])
            name = unwrap_cow(d[3][0])
            name = name[2] if name[0] == "const" else None
            if a[2] in ("RequiredValue", "OptionalValue"):
                args.append((a[2], name, ev(d[3][1]), sp))
            elif a[2] == "RequiredRef":
                req = strip_var(d[3][1])
                args.append((a[2], name, bool(req[2]), sp))
            elif a[2] == "AnyValue":
                am = strip_var(d[3][1])
                args.append((a[2], name, bool(am[2]), sp))
            else:
                return None
        r = None
        if rep[2] == "Some":
            d = strip_var(rep[3][0])
            if d[0] != "agg" or len(d[3]) != 5:
                return None
            ts = strip_var(d[3][1])
            nm = unwrap_cow(d[3][0])
            r = dict(
                name=nm[2] if nm[0] == "const" else None, kind=ts[2],
                vtype=ev(ts[3][0]) if ts[2] == "TypedValue" else None, sep=sep_of(d[3][2]),
                exactly=ev(d[3][2]) == "Exactly",
                require_one=bool(strip_var(d[3][3])[2]), allow_missing=bool(strip_var(d[3][4])[2]),
            )
        out.append((args, r))
    return out


def chain(b, c):
    """Builder calls applied before `c` (and including it): {method: [args]}"""
    out = {}
    e = b.x_call(c)
    while True:
        e = strip_var(e)
        while e[0] in ("conv", "ok", "try"):
            e = strip_var(e[2] if e[0] == "conv" else e[1])
        if e[0] != "call":
            break
        out[e[1].rsplit("::", 1)[-1]] = list(e[2])
        if not e[2]:
            break
        e = e[2][0]
    return out


def discover(P):
    """All implementations of the callable trait outside of tests, with their metadata."""
    if hasattr(P, "_callables"):
        return P._callables
    types = {}
    for i in P.by_trait[TRAIT]:
        types.setdefault(i["self"], {}).update({n: p for n, p in i["methods"]})
    built = {}
    for b in P.bodies():
        for c in b.calls():
            if c.name == "build" and "CallableMetadataBuilder" in c.path:
                ib = P.inlined(b, lambda c, cb: False)
                built.setdefault(b.impl_self or b.root, []).append((b, chain(b, c)))
    out = []
    for ty, methods in sorted(types.items()):
        x = Callable()
        x.ty, x.methods = ty, methods
        x.md = None
        for t, lst in built.items():
            if t == ty:
                x.md = lst
        out.append(x)
    P._callables = out
    return out
