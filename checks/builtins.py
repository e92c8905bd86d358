"""Interpreting built-in commands and functions over arbitrary arguments."""

import strs
from strs import seg
from traces import obj
from checks import callables
from checks.c06 import V

SCOPE = "endbasic_core::callable::Scope"


def builtins(P):
    """{name: (type, body)} of the built-ins, by the name that programs use."""
    if not hasattr(P, "_builtins"):
        P._builtins = {}
        for x in callables.discover(P):
            names = {m[1]["new"][0][2] for m in x.md or [] if m[1].get("new") and m[1]["new"][0][0] == "const"}
            if len(names) != 1:
                continue
            for m in ("exec", "async_exec"):
                if m in x.methods and x.methods[m] in P.raw:
                    P._builtins[names.pop() if names else None] = (x.ty, P.body(x.methods[m]))
                    break
    return P._builtins


def tag(name):
    return V(name)


class Arguments:
    """The values of one call: Scope's operations are answered from here."""

    failed = False          # whether a failing return leaves an event
    data = None             # the values of DATA statements

    def __init__(self, args):
        self.args = args

    def hook(self, c, a, st, ai, env):
        if c.path.startswith(SCOPE + "::") or "::Scope<" in c.path and c.path.startswith("endbasic_core::callable::"):
            n = c.name
            if n == "nargs":
                return [(("c", len(self.args)), st)]
            i = a[1][1] if len(a) > 1 and a[1] is not None and a[1][0] == "c" else None
            if n.startswith("get_") and i is not None:
                if not 0 <= i < len(self.args):
                    return [(obj("argument out of range"), st + (("range", i),))]
                kind, v = self.args[i]
                if n == "get_pos":
                    return [(obj("position %d" % i), st)]
                if n == "get_type":
                    return [(v if kind == "tag" else None, st)]
                want = {"get_string": "string", "get_integer": "integer", "get_boolean": "boolean", "get_double": "double", "get_ref": "ref", "get_mut_ref": "ref"}.get(n)
                if kind != want:
                    return [(obj("argument of another type"), st + (("type", i, n),))]
                return [(v, st)]
            if n.startswith("get_"):
                return [(None, st)]
            if n.startswith("return_"):
                v = ai.deep(a[1], env)
                st2 = st + (("return", n[len("return_"):], v),)
                if n == "return_string":
                    return [(V("Ok", ("t", ())), st2), (V("Err", obj("heap error")), st + (("fail", n),) if self.failed else st)]
                return [(V("Ok", ("t", ())), st2)]
            if n == "last_error":
                return [(V("Some", ("t", (obj("error position"), ("s", seg("error message"))))), st), (V("None"), st + (("noerror",),))]
            if n == "data":
                return [(self.data if self.data is not None else obj("data"), st)]
        return None


def run(P, body, args, hook, pick, limit=30000, loose=True, env=None, me=None):
    """Outcomes [(value, events, env)] of a built-in called with `args` = [(kind, value)]."""
    ar = Arguments(args)

    def h(c, a, st, ai, env):
        r = ar.hook(c, a, st, ai, env)
        return r if r is not None else hook(c, a, st, ai, env)
    e = {1: me if me is not None else obj("self"), 2: obj("scope")}
    e.update(env or {})
    return strs.run(P, body, h, pick, (), e, limit, loose)
