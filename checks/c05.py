"""C05: built-in callables only consume the arguments that their declared syntax provides.

For every built-in and every shape of arguments its syntax admits (which slots exist, their types,
which optional ones are missing, which separators follow), the body is interpreted abstractly with
the argument layout the compiler produces for that shape.  Every access to an argument must hit a
slot of the right kind and type, no assertion about the arguments may fail, and functions must set a
result of their declared type on every successful path."""

import itertools

import absint
from checks import callables as C
from mirlib import strip_var

TYPES = ("Boolean", "Double", "Integer", "Text")
GET = {"get_boolean": "Boolean", "get_double": "Double", "get_integer": "Integer", "get_string": "Text"}
SET = {"set_boolean": "Boolean", "set_double": "Double", "set_integer": "Integer", "set_string": "Text"}
DEREF = {"deref_boolean": "Boolean", "deref_double": "Double", "deref_integer": "Integer", "deref_string": "Text"}
RET = {"return_boolean": "Boolean", "return_double": "Double", "return_integer": "Integer", "return_string": "Text"}

# Slots: ("val", type), ("ref", type, is_array), ("tag", variant, separator[, type])


def item_layouts(a, last_sep):
    kind = a[0]
    seps = list(a[3] or ["End"])
    if last_sep and "End" not in seps:
        seps.append("End")
    if kind == "RequiredValue":
        return [((("val", a[2]),))]
    if kind == "RequiredRef":
        return [(("ref", t, a[2]),) for t in TYPES]
    if kind == "OptionalValue":
        r = []
        for s in seps:
            r.append((("tag", "Missing", s),))
            r.append((("tag", "Immediate", s, a[2]), ("val", a[2])))
        return r
    if kind == "AnyValue":
        r = []
        for s in seps:
            if a[2]:
                r.append((("tag", "Missing", s),))
            for t in TYPES:
                r.append((("tag", "Immediate", s, t), ("val", t)))
        return r
    return None


def layouts(syntax, reps):
    sing, rep = syntax
    parts = []
    for i, a in enumerate(sing):
        il = item_layouts(a, i == len(sing) - 1 and rep is not None and not rep["require_one"])
        if il is None:
            return None
        parts.append(il)
    heads = [sum(c, ()) for c in itertools.product(*parts)]
    if rep is None:
        return heads
    out = []
    lo = 1 if rep["require_one"] else 0
    plain = rep["kind"] == "TypedValue" and not rep["allow_missing"] and rep["exactly"]
    for h in heads:
        for n in range(lo, reps + 1):
            if plain:
                # Plain layouts are cheap, so go further.
                out.append(h + (("val", rep["vtype"]),) * n)
                continue
            if n == 0:
                out.append(h + (("tag", "Missing", "End"),))
                continue

            def alt(sep):
                r = []
                if rep["kind"] == "VariableRef":
                    return [(("tag", "Pointer", sep), ("ref", t, False)) for t in TYPES]
                if rep["allow_missing"]:
                    r.append((("tag", "Missing", sep),))
                for t in TYPES if rep["kind"] == "AnyValue" else [rep["vtype"]]:
                    r.append((("tag", "Immediate", sep, t), ("val", t)))
                return r
            mid = [x for s in rep["sep"] for x in alt(s)]
            for combo in itertools.product(*([mid] * (n - 1) + [alt("End")])):
                out.append(h + sum(combo, ()))
        if plain:
            for n in range(max(lo, reps + 1), 9):
                out.append(h + (("val", rep["vtype"]),) * n)
    return out


def reff(slot, k):
    # Field order of RegisterRef and RegisterRefMut: scope, index, vtype (checked by `run`).
    return ("v", "RegisterRef", (None, ("sym", "slot", k), ("v", slot[1], ())))


def describe(lay):
    r = []
    for s in lay:
        r.append({"val": lambda: s[1], "ref": lambda: "&%s%s" % (s[1], "()" if s[2] else ""), "tag": lambda: "<%s>" % "/".join(s[1:])}[s[0]]())
    return "[" + ", ".join(r) + "]"


class Runner:
    def __init__(self, ctx, name, body, lay, rtype):
        self.ctx, self.name, self.body, self.lay, self.rtype = ctx, name, body, lay, rtype
        self.read = set()
        self.accesses = 0

    def bad(self, key, what, c):
        self.ctx.violation(
            "%s:%s" % (key, self.name),
            "`%s` called with the arguments %s, which its syntax admits: %s" % (self.name, describe(self.lay), what),
            self.body.loc(c.line),
        )

    def slot(self, args, ai, env, c, want):
        """Index of the accessed slot; "any" when it is not known."""
        v = ai.deref(args[1], env)
        if v is None or v[0] != "c":
            return "any"
        if not 0 <= v[1] < len(self.lay):
            self.bad("range", "reads %s of argument slot %d, but there are only %d slots" % (want, v[1], len(self.lay)), c)
            return None
        return v[1]

    def hook(self, c, args, st, ai, env):
        n, lay = c.name, self.lay
        owner = c.path
        if owner.startswith(C.SCOPE + "::"):
            if n == "nargs":
                return [(("c", len(lay)), st)]
            if n == "get_pos":
                self.accesses += 1
                k = self.slot(args, ai, env, c, "the position")
                return [] if k is None else [(None, st)]
            if n in GET:
                self.accesses += 1
                t = GET[n]
                k = self.slot(args, ai, env, c, "a %s" % t)
                if k is None:
                    return []
                if k == "any":
                    # Only sound when every slot qualifies.
                    for j, s in enumerate(lay):
                        if s != ("val", t):
                            self.bad("unknown", "reads a %s from an argument slot that is not known to hold one" % t, c)
                            break
                    self.read.update(range(len(lay)))
                    return [(None, st)]
                if lay[k] != ("val", t):
                    self.bad("type", "reads a %s from argument slot %d, which holds %s" % (t, k, describe((lay[k],))), c)
                    return []
                self.read.add(k)
                return [(("sym", "value", k), st)]
            if n == "get_type":
                self.accesses += 1
                k = self.slot(args, ai, env, c, "the tag")
                if k is None:
                    return []
                if k == "any" or lay[k][0] != "tag":
                    self.bad("tag", "reads a tag from an argument slot that is not known to hold one", c)
                    return []
                self.read.add(k)
                s = lay[k]
                p = (("v", s[2], ()),)
                if s[1] == "Immediate":
                    p += (("v", s[3], ()),)
                return [(("v", s[1], p), st)]
            if n in ("get_ref", "get_mut_ref"):
                self.accesses += 1
                k = self.slot(args, ai, env, c, "a reference")
                if k is None:
                    return []
                if k == "any" or lay[k][0] != "ref":
                    self.bad("ref", "takes a reference from an argument slot that is not known to hold one", c)
                    return []
                self.read.add(k)
                return [(reff(lay[k], k), st)]
            if n in RET:
                if self.rtype is None:
                    self.bad("ret", "a command sets a return value", c)
                elif RET[n] != self.rtype:
                    self.bad("ret", "returns a %s but is declared to return a %s" % (RET[n], self.rtype), c)
                return [(None, True)]
            if n in ("data", "last_error"):
                return [(None, st)]
            self.bad("api", "unknown operation `%s` on its arguments" % n, c)
            return [(None, st)]
        if "callable::RegisterRef" in owner and owner.startswith("endbasic_core::"):
            if c.generic.startswith("core::") or c.generic.startswith("alloc::"):
                return None
            self.accesses += 1
            r = ai.deref(args[0], env)
            t, k = None, None
            if r is not None and r[0] == "v" and len(r[2]) == 3:
                if r[2][2] is not None:
                    t = r[2][2][1]
                if r[2][1] is not None and r[2][1][0] == "sym":
                    k = r[2][1][2]
            if k is None or t is None:
                self.bad("reftype", "`%s` on a reference of unknown origin" % n, c)
                return [(None, st)]
            arr = lay[k][2]
            want = SET.get(n) or DEREF.get(n)
            if want is not None:
                if want != t or arr:
                    self.bad("reftype", "`%s` on a reference to %s" % (n, describe((lay[k],))), c)
                    return []
            elif n == "array_dimensions":
                if not arr:
                    self.bad("reftype", "`%s` on a reference to %s" % (n, describe((lay[k],))), c)
                    return []
            elif n == "deref_array_integer":
                if not arr or t != "Integer":
                    self.bad("reftype", "`%s` on a reference to %s" % (n, describe((lay[k],))), c)
                    return []
            else:
                self.bad("api", "unknown operation `%s` on a reference" % n, c)
            return [(None, st)]
        return None

    def run(self):
        ai = absint.Interp(self.body, self.hook)
        ai.run(st0=False)
        if ai.overflow:
            self.ctx.violation("limit:" + self.name, "`%s` is too complex to analyse with arguments %s" % (self.name, describe(self.lay)), self.body.loc())
        for bb, _st, sure, c in ai.dead:
            if sure:
                self.bad("assert", "the body gives up with a panic", c)
        for v, st in ai.rets:
            if self.rtype is not None and not st:
                if v is None or v[0] != "v" or v[1] != "Err":
                    self.ctx.violation("noret:" + self.name, "a path through `%s` succeeds without setting its result (arguments %s)" % (self.name, describe(self.lay)), self.body.loc())
        self.succeeds = any(v is None or v[0] != "v" or v[1] != "Err" for v, _ in ai.rets)
        self.ctx.count("abstract_states", getattr(ai, "explored", 0))
        return ai


def run(ctx):
    P = ctx.P
    ctx.rule(
        "for every built-in and every argument shape its declared syntax admits: each access to an argument hits an existing slot "
        "of the accessed kind and type, no assertion about the arguments fails, functions set a result of the declared type on all "
        "successful paths, commands never do, and asynchronous dispatch agrees with the implemented entry point"
    )
    ctx.assume("argument layouts are those produced by the argument compiler (tag followed by value for optional and repeated arguments)")
    for t in ("RegisterRef", "RegisterRefMut"):
        a = P.adts.get("endbasic_core::callable::" + t)
        if not ctx.anchor(a, "the type " + t):
            return
        if [f[0] for f in a["variants"][0]["fields"]][1:] != ["index", "vtype"]:
            ctx.violation("anchor:fields:" + t, "unexpected fields in %s" % t)
            return
    seen_names = {}
    reps = 3 if ctx.tier == "thorough" else 2
    for x in C.discover(P):
        if x.md is None:
            no_metadata(ctx, P, x)
            continue
        if len(x.md) != 1:
            ctx.violation("md:" + x.ty, "`%s` builds its metadata %d times" % (x.ty, len(x.md)))
            continue
        b, ch = x.md[0]
        nm = strip_var(ch["new"][0]) if "new" in ch else None
        if nm is None or nm[0] != "const":
            ctx.violation("md:" + x.ty, "cannot read the name that `%s` declares" % x.ty, b.loc())
            continue
        name = nm[2]
        ctx.count("callables")
        if name in seen_names:
            ctx.violation("dup:" + name, "both `%s` and `%s` declare the name %s" % (seen_names[name], x.ty, name), b.loc())
        seen_names[name] = x.ty
        syn = C.parse_syntax(ch["with_syntax"][1]) if "with_syntax" in ch else None
        if not syn:
            ctx.violation("md:" + name, "cannot read the syntax that %s declares" % name, b.loc())
            continue
        rtype = C.ev(ch["with_return_type"][1]) if "with_return_type" in ch else None
        is_async = False
        if "with_async" in ch:
            v = strip_var(ch["with_async"][1])
            if v[0] != "const":
                ctx.violation("md:" + name, "cannot tell whether %s is asynchronous" % name, b.loc())
                continue
            is_async = bool(v[2])
        want = "async_exec" if is_async else "exec"
        if want not in x.methods:
            ctx.violation("entry:" + name, "%s is dispatched through `%s` but implements %s" % (name, want, sorted(set(x.methods) - {"metadata"})), b.loc())
            continue
        ambiguous(ctx, name, syn, b)
        mid = x.methods[want]
        lb = P.logic_body(mid)
        if lb is None:
            ctx.violation("anchor:" + name, "cannot find the body of %s" % name)
            continue

        def pick(c, cb):
            return cb.crate != "endbasic_core" and any("callable::Scope<" in t or "callable::RegisterRef" in t for t in cb.locals[1:cb.argc + 1])

        body = P.inlined(lb, pick)
        for c in body.calls():
            if c.is_fn and c.resolved in P.raw and not c.path.startswith("endbasic_core::"):
                cb = P.body(c.resolved)
                if pick(c, cb) and cb.kind in ("fn", "method"):
                    ctx.violation("escape:" + name, "the arguments of %s escape to `%s`, which cannot be followed" % (name, c.path), body.loc(c.line))
        for s in syn:
            ls = layouts(s, reps)
            if ls is None:
                ctx.violation("md:" + name, "cannot enumerate the argument shapes of %s" % name, b.loc())
                continue
            read = set()
            width = 0
            for lay in ls:
                r = Runner(ctx, name, body, lay, rtype)
                r.run()
                ctx.count("layouts")
                ctx.count("accesses", r.accesses)
                for k in r.read:
                    read.add((len(lay), k))
                width = max(width, len(lay))
                if lay and r.succeeds and not (r.read >= {k for k, sl in enumerate(lay) if sl[0] != "tag"}):
                    miss = sorted({k for k, sl in enumerate(lay) if sl[0] != "tag"} - r.read)
                    ctx.violation("ignored:" + name, "`%s` never looks at argument slot %s of %s" % (name, miss, describe(lay)), body.loc())
        if ctx.counts.get("callables", 0) % 12 == 0:
            ctx.sample("%s: syntaxes %s, returns %s, async=%s" % (name, syn, rtype, is_async))
    ctx.floor("callables", 95)
    ctx.floor("layouts", 200)
    ctx.floor("accesses", 300)
    core_accessors(ctx, P)


def ambiguous(ctx, name, syn, b):
    """No argument count may select two syntaxes, and every separator list is well-formed."""
    rng = []
    for sing, rep in syn:
        lo = len(sing) + (1 if rep is not None and rep["require_one"] else 0)
        hi = 10**9 if rep is not None else len(sing)
        rng.append((lo, hi))
    for (a, b1), (c, d) in itertools.combinations(rng, 2):
        if max(a, c) <= min(b1, d):
            ctx.violation("ambiguous:" + name, "two syntaxes of %s accept the same number of arguments" % name, b.loc())


def no_metadata(ctx, P, x):
    """Implementations that never run must say so: every entry point diverges without touching its arguments."""
    for n, p in x.methods.items():
        if n == "metadata":
            continue
        b = P.logic_body(p)
        if b is None or b.returns() and any(r in b.reachable() for r in b.returns()):
            ctx.violation("md:" + x.ty, "`%s` can be executed but declares no syntax" % x.ty, b.loc() if b else None)
        ctx.count("placeholders")


ACCESSORS = {
    # name: function of the argument slot it must read; slots are fp + offset + arg.
    "get_type", "get_boolean", "get_double", "get_integer", "get_ref", "get_mut_ref", "get_string",
}


def core_accessors(ctx, P):
    """The accessors read register fp + arg_offset + arg; results go to register fp."""
    n = 0
    for b in P.bodies(crates={"endbasic_core"}, kinds=("method",)):
        if not (b.impl_self or "").startswith(C.SCOPE):
            continue
        if b.name in ACCESSORS:
            idx = reg_indices(b)
            n += 1
            if idx != {frozenset(["fp", "arg_offset", "arg"])}:
                ctx.violation("slot:" + b.name, "`Scope::%s` reads register %s instead of fp + arg_offset + arg" % (b.name, sorted(map(sorted, idx))), b.loc())
        elif b.name in RET:
            idx = reg_indices(b)
            n += 1
            if idx != {frozenset(["fp"])}:
                ctx.violation("slot:" + b.name, "`Scope::%s` stores its result in register %s instead of fp" % (b.name, sorted(map(sorted, idx))), b.loc())
    ctx.count("accessors", n)
    ctx.floor("accessors", 11)


def reg_indices(b):
    """Summands of the indices used on `regs`."""
    import json
    out = set()
    for i in b.reachable():
        blk = b.blocks[i]
        places = []
        for j, s in enumerate(blk["s"]):
            if s[0] != "=":
                continue
            places.append((s[1], j))
            r = s[2]
            if r[0] == "ref":
                places.append((r[2], j))
            for o in (r[1:] if r[0] in ("use",) else []) + (list(r[2:4]) if r[0] == "bin" else []):
                if isinstance(o, list) and o and o[0] in ("c", "m"):
                    places.append((o[1], j))
        for pl, j in places:
            for q in pl[1]:
                if q != "*" and q[0] == "i":
                    out.add(summands(b.x_place([q[1], []], i, j)))
        t = blk["t"]
        if t[0] == "call":
            from mirlib import Call
            c = Call(i, t)
            if c.name in ("index", "index_mut", "get", "get_mut") and len(c.args) == 2:
                out.add(summands(b.x_arg(c, 1)))
    return out


def summands(e):
    e = strip_var(e)
    while e[0] in ("ok", "conv", "cast", "part"):
        e = strip_var(e[2] if e[0] in ("conv", "cast") else e[1])
    if e[0] == "bin" and e[1].startswith("Add"):
        return summands(e[2]) | summands(e[3])
    if e[0] == "field" and strip_var(e[1])[0] == "bin":
        return summands(e[1])
    if e[0] == "field":
        return frozenset([e[2]])
    if e[0] == "arg":
        return frozenset([e[2]] if e[1] != 2 else ["arg"])
    if e[0] == "call" and len(e[2]) == 1 and e[1].rsplit("::", 1)[-1] in ("from", "into"):
        return summands(e[2][0])
    return frozenset(["?" + str(e)[:40]])
