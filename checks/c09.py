"""C09: jumps, subroutines and error handlers go where the program says.

Like C08 but with the compiler's label, fixup and callable tables interpreted for real: whole small
programs are compiled abstractly, including the final resolution of their targets, and the derived code
is executed symbolically against a reference flow graph, for every sequence of condition outcomes and
failing statements up to a bound.  The machine's own call, return and resume rules are derived from the
instruction arms and from the exception handler and compared with the ones the execution uses."""

import json

import frames
from checks import c08, syntax, vm
from checks import machine as vmrules
from checks.c06 import CORE, V
from checks.c08 import CODEGEN, Construct, E, Stuck, T, oracles, plain, source, target, trees

MAPS = ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "hash::map::", "hash::set::")


class Lab9(c08.Lab):
    def __init__(self, ctx):
        super().__init__(ctx)
        if not self.ok:
            return
        P = self.P
        self.builtins = {}  # name -> return type or None
        self.compile_errors = False
        self.special_calls = set()
        # The function that resolves the pending targets.
        def reaches(b, want, seen):
            if b.id in seen:
                return False
            seen.add(b.id)
            for x in [b] + [P.body(k) for k in P.children.get(b.id, ())] if hasattr(P, "children") else [b]:
                for c in x.calls():
                    if c.resolved and c.resolved in self.W.make and self.W.make[c.resolved] == want:
                        return True
                    if c.resolved in P.raw and P.body(c.resolved).crate == CORE and P.body(c.resolved).file == b.file and reaches(P.body(c.resolved), want, seen):
                        return True
            return False
        cands = [b for b in P.bodies(crates={CORE}, kinds=("method", "fn")) if b.argc == 1 and b.locals[1] == "&mut " + CODEGEN and b.locals[0].startswith("core::result::Result<(),")
                 and reaches(b, "Gosub", set())]
        if len(cands) != 1:
            ctx.violation("anchor:resolve", "expected one function that resolves targets, found %s" % [b.id for b in cands])
            self.ok = False
            return
        self.resolve = cands[0]
        cg = P.adts[CODEGEN]["variants"][0]["fields"]
        self.map_fields = {f[0]: i for i, f in enumerate(cg) if "Map<" in f[1]}
        self.addr_field = [i for i, f in enumerate(cg) if "Map<" in f[1] and "(usize, usize)" in f[1].replace("core::primitive::", "")]
        if not ctx.anchor(len(self.addr_field) == 1, "the table of user-defined callables"):
            self.ok = False

    def hook(self, c, args, st, ai, env):
        if c.resolved == self.W.fixup.id or c.resolved == self.stmt.id:
            return None
        m = self.maps(c, args, st, ai, env)
        if m is not None:
            return m
        return super().hook(c, args, st, ai, env)

    def pick(self, c, b):
        return super().pick(c, b) or b.file == self.resolve.file

    # -- tables --------------------------------------------------------------------------

    def maps(self, c, args, st, ai, env):
        n = c.name
        d = [ai.deref(a, env) for a in args]
        if d and d[0] is not None and d[0][0] == "vec" and n in ("sort_by_key", "sort_unstable_by_key", "sort", "sort_unstable", "sort_by", "sort_unstable_by") and args[0][0] == "ref":
            if n.endswith("by_key"):
                keys = []
                for it in d[0][1]:
                    r = ai.call_value(args[1], [it], env, st, True)
                    keys.append(ai.deep(r[0][0], r[0][1]) if len(r) == 1 else None)
            else:
                keys = [it[1][0] if it is not None and it[0] == "t" else it for it in d[0][1]]
            e = dict(env)
            ok = all(k is not None and k[0] == "c" for k in keys)
            v = ("vec", tuple(x for _k, x in sorted(zip([k[1] for k in keys], d[0][1]), key=lambda p: p[0]))) if ok else d[0]
            ai.write([args[0][1], json.loads(args[0][2])], v, e)
            return [(("t", ()), st, e)]
        if not any(m in c.path for m in MAPS) or not d or d[0] is None or d[0][0] != "map":
            return None
        items = list(d[0][1])
        key = ai.deep(d[1], env) if len(d) > 1 else None
        i = next((i for i, (k, _v) in enumerate(items) if k == key), None)
        ref = args[0] if args[0] is not None and args[0][0] == "ref" else None

        def done(val, new=None):
            if new is None:
                return [(val, st)]
            e = dict(env)
            ai.write([ref[1], json.loads(ref[2])], ("map", tuple(new)), e)
            return [(val, st, e)]
        if n == "insert" and ref is not None and key is not None:
            isset = len(args) == 2
            val = ("t", ()) if isset else ai.deep(args[2], env)
            old = V("None") if i is None else V("Some", items[i][1])
            new = [(k, v) for j, (k, v) in enumerate(items) if j != i] + [(key, val)]
            return done(("c", int(i is None)) if isset else old, new)
        if n in ("contains_key", "contains") and key is not None:
            return done(("c", int(i is not None)))
        if n in ("get", "get_mut") and key is not None:
            return done(V("None") if i is None else V("Some", items[i][1]))
        if n == "remove" and ref is not None and key is not None:
            return done(V("None") if i is None else V("Some", items[i][1]), [x for j, x in enumerate(items) if j != i])
        if n in ("index",) and key is not None and i is not None:
            return done(items[i][1])
        if n in ("drain", "into_iter", "iter", "iter_mut", "keys", "values"):
            # The order is unspecified: a program that depends on it sees the reverse of insertion.
            its = [("t", kv) if n not in ("keys", "values") else kv[n == "values"] for kv in reversed(items)]
            if "BTree" in c.path:
                its = sorted(its, key=repr)
            return done(("v", "VecIter", (("vec", tuple(its)),)), [] if n == "drain" else None)
        if n == "is_empty":
            return done(("c", int(not items)))
        if n == "len":
            return done(("c", len(items)))
        if n == "clear":
            return done(("t", ()), [])
        return None

    # -- symbols -------------------------------------------------------------------------

    def keyname(self, v):
        if v is None:
            return None
        if v[0] == "s":
            return v[1]
        if v[0] == "v":
            for x in v[2]:
                n = self.keyname(x)
                if n is not None:
                    return n
        return None

    def symbols(self, c, b, args, st, ai, env):
        rt = b.locals[0]
        vals = [ai.deep(a, env) for a in args]
        if b.id.endswith("::from") or rt.endswith("SymbolKey"):
            n = self.keyname(vals[0])
            return [(V("SymbolKey", ("s", n.upper()) if n is not None else None), st)]
        if "Option<" in rt and any("SymbolKey" in str(b.locals[i]) for i in range(1, b.argc + 1)):
            n = self.keyname(next((x for x in vals if x is not None and x[0] == "v" and x[1] == "SymbolKey"), None))
            kind = self.builtins.get(n)
            declared = [e for e in st if e[0] == "declared" and e[1] == n]
            if declared:
                return [(V("Some", ("sym", "md", n, declared[0][2], True)), st)]
            if n in self.builtins:
                return [(V("Some", ("sym", "md", n, kind, False)), st)]
            return [(V("None"), st)]
        if rt.startswith("core::result::Result<(),") and any(x is not None and x[0] == "v" and x[1] == "VarRef" for x in vals) and not any("ExprType" in str(b.locals[i]) for i in range(1, b.argc + 1)):
            vr = next(x for x in vals if x is not None and x[0] == "v" and x[1] == "VarRef")
            ty = next((x for x in vr[2] if x is not None and x[0] == "v"), None)
            n = self.keyname(vr).upper()
            if any(e[0] == "declared" and e[1] == n for e in st):
                return [(V("Ok", ("t", ())), st)]
            return [(V("Ok", ("t", ())), st + (("declared", n, ty[2][0][1] if ty is not None and ty[1] == "Some" else None),))]
        return super().symbols(c, b, args, st, ai, env)

    def extra(self, c, b, args, st, ai, env):
        a0 = ai.deep(args[0], env) if args else None
        if a0 is not None and a0[0] == "sym" and a0[1] == "md" and b is not None:
            rt = b.locals[0]
            if rt == "bool":
                return [(("c", int(a0[4]) if "user" in c.name else 0), st)]
            if "Option<" in rt and "ExprType" in rt:
                return [(V("None") if a0[3] is None else V("Some", V(a0[3])), st)]
        if b is not None and b.crate == CORE and b.locals[0].startswith("core::result::Result<("):
            return None
        return None

    def lookup(self, b, vals, st):
        n = self.keyname(vals[1]) if len(vals) > 1 else None
        if n == "arr":
            info = next((k for k in self.P.adts if k.endswith("::ArrayInfo")), None)
            fs = [f[0] for f in self.P.adts[info]["variants"][0]["fields"]] if info else []
            v = ("v", "ArrayInfo", tuple(("c", 1) if f == "ndims" else V("Integer") for f in fs))
            return [(V("Ok", ("t", (("sym", "var", vals[1]), V("Array", v)))), st)]
        return super().lookup(b, vals, st)

    def flags(self, starts):
        """Which instructions start a statement."""
        if starts is None:
            return None
        meta = next((a for n, a in self.P.adts.items() if n.endswith("::InstrMetadata")), None)
        if meta is None:
            return None
        i = [i for i, f in enumerate(meta["variants"][0]["fields"]) if f[1] == "bool"]
        if len(i) != 1:
            return None
        out = []
        for m in starts:
            v = m[2][i[0]] if m is not None and m[0] == "v" and len(m[2]) > i[0] else None
            if v is None or v[0] != "c":
                return None
            out.append(bool(v[1]))
        return out

    def resolve_targets(self, cx, st):
        ai = frames.Frames(self.P, self.resolve, self.hook, self.pick, 200000)
        env = {90000: cx, 1: ("ref", 90000, json.dumps([["f", self.codegen_field, "codegen", ""]]))}
        res = ai.go(env, st)
        self.ctx.count("abstract_states", ai.steps)
        if ai.overflow:
            raise Exception("the resolution of targets is too complex to analyse")
        out = []
        for v, e, st2 in res:
            out.append(("ok" if v is not None and v[0] == "v" and v[1] == "Ok" else "error" if v is not None and v[0] == "v" and v[1] == "Err" else "unknown", e.get(90000), st2))
        for _bb, _st, _sure, _c in ai.dead:
            out.append(("panic", None, st))
        return out


# -- the reference: flow graphs --------------------------------------------------------------------

class Graph:
    def __init__(self):
        self.nodes, self.labels, self.subs = [], {}, {}

    def new(self, n=None):
        self.nodes.append(n)
        return len(self.nodes) - 1

    def label(self, name):
        name = name.upper()
        if name not in self.labels:
            self.labels[name] = self.new()
        return self.labels[name]


class S9(Construct):
    """A statement with its flow: flow(graph, next node, scope) -> entry node."""

    def __init__(self, tree, toks, flow):
        super().__init__(tree, toks, None)
        self.flow = flow


def chain(g, items, nxt, cx):
    for x in reversed(items):
        nxt = x.flow(g, nxt, cx)
    return nxt


class Writer:
    """Builds statements."""

    def __init__(self, lab):
        self.lab, self.B = lab, c08.Builder(lab, lab.vref)

    def run(self, name):
        """A statement that calls a built-in command."""
        self.lab.builtins.setdefault(name.upper(), None)
        t = V("Call", self.lab.S("CallSpan", vref=self.lab.vref(name), args=("vec", ())))
        return S9(t, [("name", name)], lambda g, n, cx: g.new(("ops", [("cmd", name.upper())], n)))

    def let(self, e, var="x"):
        t = V("Assignment", self.lab.S("AssignmentSpan", vref=self.lab.vref(var), expr=e))
        return S9(t, [("name", var), "Equal", T(e)], lambda g, n, cx: g.new(("ops", [("eval", e)], n)))

    def store(self, e):
        """An assignment to an array element: two steps that can fail."""
        t = V("ArrayAssignment", self.lab.S("ArrayAssignmentSpan", vref=self.lab.vref("arr"), subscripts=("vec", (E("sub"),)), expr=e))
        return S9(t, ["?"], lambda g, n, cx: g.new(("ops", [("eval", e), ("store",)], n)))

    def label(self, name):
        def flow(g, n, cx):
            i = g.label(name)
            g.nodes[i] = ("jump", n)
            return i
        return S9(V("Label", self.lab.S("LabelSpan", name=("s", name))), ["@" + name], flow)

    def goto(self, name):
        return S9(V("Goto", self.lab.S("GotoSpan", target=("s", name))), ["Goto", "@" + name], lambda g, n, cx: g.new(("jump", g.label(name))))

    def gosub(self, name):
        return S9(V("Gosub", self.lab.S("GotoSpan", target=("s", name))), ["Gosub", "@" + name], lambda g, n, cx: g.new(("gosub", g.label(name), n)))

    def ret(self):
        return S9(V("Return", self.lab.S("ReturnSpan")), ["Return"], lambda g, n, cx: g.new(("return", n)))

    def on_error(self, what):
        if what == "0":
            return S9(V("OnError", V("Reset", ("sym", "pos"))), ["On", "Error", "Goto", V("Integer", ("c", 0))], lambda g, n, cx: g.new(("handler", None, n)))
        if what == "next":
            return S9(V("OnError", V("ResumeNext", ("sym", "pos"))), ["On", "Error", "Resume", "Next"], lambda g, n, cx: g.new(("handler", "next", n)))
        return S9(V("OnError", V("Goto", self.lab.S("GotoSpan", target=("s", what)), ("sym", "pos"))), ["On", "Error", "Goto", "@" + what],
                  lambda g, n, cx: g.new(("handler", ("goto", g.label(what)), n)))

    def end(self):
        x = self.B.end()
        return S9(x.tree, x.toks, lambda g, n, cx: g.new(("stop",)))

    def call(self, name):
        t = V("Call", self.lab.S("CallSpan", vref=self.lab.vref(name), args=("vec", ())))
        return S9(t, [("name", name)], lambda g, n, cx: g.new(("call", name.upper(), n)))

    def callable(self, name, body, ty=None, params=()):
        vr = self.lab.vref(name, ty)
        t = V("Callable", self.lab.S("CallableSpan", name=vr, params=("vec", tuple(self.lab.vref(*p) for p in params)), body=trees(body)))
        kw = "Sub" if ty is None else "Function"

        def flow(g, n, cx):
            out = g.new(("return", None))
            g.subs[name.upper()] = (chain(g, body, out, {"do": None, "for": None, "fn": out}), ty)
            return n
        return S9(t, [kw, ("name", name, ty) if ty else ("name", name)] + self.params(params) + ["Eol"] + source(body) + ["End", kw], flow)

    def params(self, params):
        r = []
        for p in params:
            r += (["Comma"] if r else ["LeftParen"]) + [("name",) + tuple(p)]
        return r + ["RightParen"] if r else []

    def declare(self, name, ty=None):
        t = V("Declare", self.lab.S("DeclareSpan", name=self.lab.vref(name, ty), params=("vec", ())))
        kw = "Sub" if ty is None else "Function"
        return S9(t, ["Declare", kw, ("name", name, ty) if ty else ("name", name)], lambda g, n, cx: n)

    def exit(self, kind):
        slot = {"Do": "do", "For": "for", "Sub": "fn", "Function": "fn"}[kind]
        return S9(V("Exit" + kind, self.lab.S("ExitSpan")), ["Exit", kind], lambda g, n, cx: g.new(("jump", cx[slot])))

    # -- blocks --------------------------------------------------------------------------

    def wrap(self, x, flow):
        return S9(x.tree, x.toks, flow)

    def if_(self, branches):
        def flow(g, n, cx):
            nxt = n
            for c, b in reversed(branches):
                e = chain(g, b, n, cx)
                nxt = e if c is None else g.new(("test", c, e, nxt))
            return nxt
        return self.wrap(self.B.if_(branches), flow)

    def while_(self, c, body):
        def flow(g, n, cx):
            i = g.new()
            g.nodes[i] = ("test", c, chain(g, body, i, cx), n)
            return i
        return self.wrap(self.B.while_(c, body), flow)

    def do(self, kind, c, body):
        def flow(g, n, cx):
            i = g.new()
            inner = dict(cx, do=n)
            if kind == "Infinite":
                g.nodes[i] = ("jump", chain(g, body, i, inner))
            elif kind.startswith("Pre"):
                b = chain(g, body, i, inner)
                g.nodes[i] = ("test", c, b, n) if kind == "PreWhile" else ("test", c, n, b)
            else:
                t = g.new(("test", c, i, n) if kind == "PostWhile" else ("test", c, n, i))
                g.nodes[i] = ("jump", chain(g, body, t, inner))
            return i
        return self.wrap(self.B.do(kind, c, body), flow)

    def for_(self, body):
        def flow(g, n, cx):
            i = g.new()
            step = g.new(("quiet", i))
            g.nodes[i] = ("test", None, chain(g, body, step, dict(cx, **{"for": n})), n)
            return g.new(("quiet", i))
        return self.wrap(self.B.for_(body), flow)

    def select(self, cases):
        """cases: [(expr or None, body)]"""
        def flow(g, n, cx):
            nxt = n
            for c, b in reversed(cases):
                e = chain(g, b, n, cx)
                nxt = e if c is None else g.new(("test", c, e, nxt))
            return nxt
        return self.wrap(self.B.select([([] if c is None else [("=", c)], b) for c, b in cases]), flow)


LIMIT = 400


def reference(g, entry, oracle, fails):
    """The trace of the flow graph."""
    trace, n, stack, handler, used, steps = [], entry, [], [None], 0, 0

    def bit():
        nonlocal used
        used += 1
        return oracle[used - 1] if used <= len(oracle) else None

    def fail(nxt):
        h = handler[0]
        trace.append(("failed",))
        if h is None or (isinstance(h, list) and h[1]):
            trace.append(("stopped",))
            return None
        if h == "next":
            return nxt
        h[1] = True
        return h[0]
    while True:
        steps += 1
        if steps > LIMIT:
            return trace + [("spin",)]
        if n is None:
            return trace
        x = g.nodes[n]
        if x is None:
            raise Stuck("undefined reference node")
        k = x[0]
        if k == "final":
            return trace + [("end",)]
        if k == "stop":
            return trace + [("stop",)]
        if k in ("jump", "quiet"):
            n = x[1]
        elif k == "ops":
            n2 = x[2]
            for op in x[1]:
                if op[0] == "eval" and op[1][2].startswith("fn:"):
                    # A function runs before the statement goes on.
                    f, ty = g.subs[op[1][2][3:].upper()]
                    stack.append((n2, op[1][2][3:].upper(), ty))
                    trace.append(("enter",))
                    n2 = f
                    break
                trace.append(op)
                if fails:
                    b = bit()
                    if b is None:
                        return trace + [("cut",)]
                    if not b:
                        n2 = fail(x[2])
                        break
            n = n2
        elif k == "test":
            b = bit()
            if b is None:
                return trace + [("cut",)]
            trace.append(("test", b) if x[1] is None else ("test", x[1], b))
            n = x[2] if b else x[3]
        elif k == "gosub":
            stack.append((x[2], None, None))
            trace.append(("enter",))
            n = x[1]
        elif k == "call":
            if x[1] not in g.subs:
                raise Stuck("undefined callable in the reference")
            stack.append((x[2], None, None))
            trace.append(("enter",))
            n = g.subs[x[1]][0]
        elif k == "return":
            if not stack:
                trace.append(("return",))
                n = fail(x[1])
            else:
                n, f, ty = stack.pop()
                trace.append(("leave",) + ((("result", ty),) if f else ()))
        elif k == "handler":
            handler[0] = x[1] if not isinstance(x[1], tuple) else [x[1][1], False]
            n = x[2]


def machine(code, starts, subs, lab, oracle, fails):
    """The trace of the derived code."""
    regs, trace, pc, stack, handler, used, steps = {}, [], 0, [], None, 0, 0

    def bit():
        nonlocal used
        used += 1
        return oracle[used - 1] if used <= len(oracle) else None

    def fail(at):
        nonlocal handler
        trace.append(("failed",))
        if handler is None or (isinstance(handler, list) and handler[1]):
            trace.append(("stopped",))
            return None
        if handler == "next":
            return next((i for i in range(at + 1, len(code)) if starts[i]), len(code))
        handler[1] = True
        return handler[0]
    while True:
        steps += 1
        if steps > LIMIT:
            return trace + [("spin",)]
        if pc is None:
            return trace
        if pc >= len(code):
            return trace + [("end",)]
        ins = code[pc]
        if ins is None or ins[0] != "sym" or ins[1] != "op":
            raise Stuck("has an unknown instruction at %d" % pc)
        name, a = ins[2], ins[3]
        at = pc
        pc += 1
        op = None
        if name in ("EVAL", "EVALAS"):
            e = a[1]
            regs[a[0]] = ("value", e)
            if e is not None and e[0] == "sym" and e[1] == "expr":
                n = e[2]
                if n.startswith("fn:"):
                    f = n[3:].upper()
                    if f not in subs:
                        raise Stuck("calls an undefined function")
                    stack.append((pc, f))
                    trace.append(("enter",))
                    pc = subs[f]
                elif n.startswith("f"):
                    op = ("eval", e)
        elif name == "Upcall" or name == "UpcallAsync":
            u = lab.keyname(a[0][2]) if a[0] is not None and a[0][0] == "sym" and a[0][1] == "upcall" else None
            op = ("cmd", u)
        elif name == "StoreArray":
            op = ("store",)
        elif name == "Move":
            regs[a[0]] = regs.get(a[1], ("unset",))
        elif name == "LoadInteger":
            regs[a[0]] = ("int", a[1])
        elif name == "LoadConstant":
            regs[a[0]] = ("constant", a[1])
        elif name == "Alloc":
            regs[a[0]] = ("empty", a[1])
        elif name == "Jump":
            pc = target(a[0], code)
        elif name == "JumpIfFalse":
            v = regs.get(a[0], ("unset",))
            if v[0] == "value" and c08.literal(v[1]) is not None:
                if not c08.literal(v[1]):
                    pc = target(a[1], code)
                continue
            b = bit()
            if b is None:
                return trace + [("cut",)]
            e = v[1] if v[0] == "value" and v[1][0] == "sym" else v[1] if v[0] == "rel" else None
            trace.append(("test", b) if e is None else ("test", e, b))
            if not b:
                pc = target(a[1], code)
        elif name == "EqualInteger":
            v = regs.get(a[2], ("unset",))
            regs[a[0]] = ("rel", v[1]) if v[0] == "value" else ("unset",)
        elif name in ("Gosub", "Call"):
            stack.append((pc, None))
            trace.append(("enter",))
            pc = target(a[-1], code)
        elif name == "Return":
            if not stack:
                trace.append(("return",))
                pc = fail(at)
            else:
                pc, f = stack.pop()
                r = regs.get(("sym", "var", V("SymbolKey", ("s", f)))) if f else None
                trace.append(("leave",) + ((("result", result(r)),) if f else ()))
        elif name == "SetErrorHandler":
            m = a[0][1] if a[0] is not None and a[0][0] == "v" else None
            if m is None:
                raise Stuck("sets an unknown kind of error handler")
            handler = None if m == "None" else "next" if m == "ResumeNext" else [target(a[1], code), False]
        elif name == "End":
            return trace + [("stop",)]
        elif name == "Nop":
            raise Stuck("leaves a placeholder that was never filled in at %d" % at)
        else:
            raise Stuck("has an unexpected instruction %s" % name)
        if op is not None:
            trace.append(op)
            if fails:
                b = bit()
                if b is None:
                    return trace + [("cut",)]
                if not b:
                    pc = fail(at)


def result(r):
    """The types for which a register holds the default value."""
    if r is None:
        return "nothing"
    if r[0] == "int" and r[1] == ("c", 0):
        return ("Boolean", "Integer", "Double")
    if r[0] == "int" and r[1] is not None and r[1][0] == "sym" and r[1][1] == "const":
        d = r[1][2]
        if d == V("Text", ("s", "")):
            return ("Text",)
        return "the index of the constant %s" % c08.show_v(d)
    if r[0] == "constant" and r[1] is not None and r[1][0] == "sym" and r[1][1] == "const":
        d = r[1][2]
        if d is not None and d[0] == "v" and d[1] in ("Double", "Integer", "Boolean") and d[2][0] is not None and d[2][0][0] == "c" and not d[2][0][1]:
            return (d[1],)
    if r[0] == "empty":
        return ("Text",)
    return c08.sayv(r)


def agrees(got, want):
    if len(got) != len(want):
        return False
    for x, y in zip(got, want):
        if x == y:
            continue
        if x[0] == "leave" and y[0] == "leave" and len(x) == len(y) == 2 and isinstance(x[1][1], tuple) and y[1][1] in x[1][1]:
            continue
        return False
    return True


def study(ctx, lab, key, what, items, depth, fails=False, trees_=None, reject=False):
    """Compiles the program and compares its traces with the reference's."""
    ctx.count("programs")
    loc = lab.stmt.loc()
    res = lab.compile(trees_ if trees_ is not None else [x.tree for x in items])
    outs = []
    for ok, cx, st in res:
        if ok == "dead":
            ctx.violation(key, "compiling %s panics" % what, loc)
            return
        if ok is True:
            outs += lab.resolve_targets(cx, st)
    if any(k in ("panic", "unknown") for k, _cx, _st in outs):
        ctx.violation(key, "resolving the targets of %s %s" % (what, "panics" if any(k == "panic" for k, _c, _s in outs) else "cannot be analysed"), lab.resolve.loc())
        return
    good = [(cx, st) for k, cx, st in outs if k == "ok"]
    if reject:
        if good:
            ctx.violation(key, "%s is accepted" % what, loc)
        return
    if not good or len(good) != len(outs) or len(outs) != len(res):
        ctx.violation(key, "%s is rejected" % what, loc)
        return
    g = Graph()
    final = g.new(("final",))
    entry = chain(g, items, final, {"do": None, "for": None, "fn": None})
    for cx, st in good:
        code, starts = lab.code(cx)
        flags = lab.flags(starts)
        if code is None or flags is None or len(flags) != len(code):
            ctx.violation(key, "the code of %s cannot be derived" % what, loc)
            return
        subs = {}
        for k, v in cx[2][lab.codegen_field][2][lab.addr_field[0]][1]:
            if v is not None and v[0] == "t" and v[1][0] is not None and v[1][0][0] == "c":
                subs[lab.keyname(k)] = v[1][0][1]
        for o in oracles(depth):
            want = reference(g, entry, o, fails)
            try:
                got = machine(code, flags, subs, lab, o, fails)
            except Stuck as e:
                ctx.violation(key, "the code of %s %s" % (what, e), loc)
                return
            ctx.count("traces")
            if want and want[-1] == ("spin",) or got and got[-1] == ("spin",):
                n = min(len(want), len(got)) - 1
                want, got = want[:n], got[:n]
            if not agrees(got, want):
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if not agrees([x], [y])), min(len(got), len(want)))
                ctx.violation(key, "%s: after %s it does `%s` instead of `%s`" % (
                    what, "; ".join(tell(t) for t in want[:i]) or "nothing", tell(got[i]) if i < len(got) else "nothing", tell(want[i]) if i < len(want) else "nothing"), loc)
                return


def tell(t):
    if t[0] in ("test",):
        return "%s is %s" % (c08.sayv(t[1]) if len(t) > 2 else "the loop condition", str(t[-1]).lower())
    if t[0] == "cmd":
        return "command %s" % t[1]
    return " ".join(x if isinstance(x, str) else c08.sayv(x) for x in t)


def programs(w):
    """[(key, description, statements, exploration depth, failures, also from source)]"""
    R, E_ = w.run, E
    c = [E("cond%d" % i) for i in range(4)]
    s = [R("s%d" % i) for i in range(6)]
    out = []

    def add(key, what, items, depth=3, fails=False, src=True):
        out.append((key, what, items, depth, fails, src))
    # Jumps.
    for k, jump in (("goto", w.goto), ("gosub", w.gosub)):
        add(k + ":forward", "a forward %s" % k.upper(), [s[0], jump("there"), s[1], w.label("there"), s[2]], 0)
        add(k + ":backward", "a backward %s" % k.upper(), [w.label("here"), s[0], w.if_([(c[0], [jump("here")])]), s[1]], 3)
        add(k + ":end", "a %s to the end of the program" % k.upper(), [s[0], jump("there"), s[1], w.label("there")], 0)
        add(k + ":case", "a %s to a label in another case" % k.upper(), [jump("THere"), s[1], w.label("thERE"), s[2]], 0)
        add(k + ":two", "a %s to one of two labels at a place" % k.upper(), [jump("b"), s[0], w.label("a"), w.label("b"), s[1], w.if_([(c[0], [jump("a")])])], 3)
        add(k + ":several", "several %s to several labels" % k.upper(),
            [w.if_([(c[0], [jump("a")]), (c[1], [jump("b")]), (None, [jump("c")])]), w.label("b"), s[0], w.label("a"), s[1], w.end(), w.label("c"), s[2]], 4)
        add(k + ":self", "a %s to itself" % k.upper(), [w.label("a"), jump("a")], 0)
        for blk, mk in (("if", lambda x: w.if_([(c[0], [s[0]] + x), (None, [s[1]] + x)])), ("while", lambda x: w.while_(c[0], x)), ("do", lambda x: w.do("PostUntil", c[0], x + [s[1]])),
                        ("for", lambda x: w.for_(x + [s[1]])), ("select", lambda x: w.select([(c[0], x), (None, [s[1]])]))):
            add("%s:from:%s" % (k, blk), "a %s out of a %s block" % (k.upper(), blk.upper()), [mk([w.if_([(c[1], [jump("out")])])]), s[2], w.label("out"), s[3]], 4)
        for blk, mk in (("if", lambda x: w.if_([(c[0], x), (None, [s[1]])])), ("while", lambda x: w.while_(c[0], x)), ("do", lambda x: w.do("PostUntil", c[0], x + [s[1]]))):
            add("%s:within:%s" % (k, blk), "a %s within a %s block" % (k.upper(), blk.upper()), [mk([s[0], w.if_([(c[1], [jump("in")])]), s[2], w.label("in"), s[3]])], 4)
            add("%s:into:%s" % (k, blk), "a %s into a %s block" % (k.upper(), blk.upper()), [jump("in"), mk([s[0], w.label("in"), s[3]]), s[4]], 3)
    add("gosub:return", "GOSUB and RETURN", [w.gosub("a"), s[0], w.gosub("a"), s[1], w.end(), w.label("a"), s[2], w.ret()], 0)
    add("gosub:nested", "nested GOSUB and RETURN", [w.gosub("a"), s[0], w.end(), w.label("a"), s[1], w.gosub("b"), s[2], w.ret(), w.label("b"), s[3], w.ret(), s[4]], 0)
    add("gosub:cond", "RETURN in a block", [w.gosub("a"), s[0], w.end(), w.label("a"), w.while_(c[0], [w.if_([(c[1], [w.ret()])]), s[1]]), s[2], w.ret()], 4)
    add("gosub:loop", "GOSUB from loops", [w.while_(c[0], [w.gosub("a"), s[0]]), w.for_([w.gosub("a")]), w.end(), w.label("a"), s[2], w.ret()], 4)
    # User-defined callables.
    body = [s[0], s[1]]
    add("sub:after", "a SUB defined after its calls", [w.declare("p"), w.call("p"), s[2], w.call("p"), w.callable("p", body), s[3]], 0)
    add("sub:before", "a SUB defined before its calls", [w.callable("p", body), w.call("p"), s[2], w.call("P")], 0)
    add("sub:empty", "an empty SUB", [w.callable("p", []), w.call("p"), s[2]], 0)
    add("sub:skip", "falling through to a SUB", [s[2], w.callable("p", body), s[3], w.callable("q", body)], 0)
    add("sub:params", "a SUB with parameters", [w.callable("p", body, params=(("a",), ("b", "Text"))), s[3]], 0)
    add("sub:nested", "SUBs that call each other", [w.declare("q"), w.callable("p", [s[0], w.if_([(c[0], [w.call("q")])]), s[1]]), w.callable("q", [s[2], w.call("p"), s[3]]), w.call("q"), s[4]], 3)
    add("sub:exit", "EXIT SUB", [w.callable("p", [s[0], w.if_([(c[0], [w.exit("Sub")])]), s[1], w.while_(c[1], [w.exit("Sub")]), w.do("PostUntil", c[2], [w.if_([(c[3], [w.exit("Sub")])])]), s[2]]), w.call("p"), s[3]], 5)
    add("sub:exit2", "EXIT SUB in two SUBs", [w.callable("p", [w.if_([(c[0], [w.exit("Sub")])]), s[0]]), w.callable("q", [w.if_([(c[1], [w.exit("Sub")])]), s[1]]), w.call("p"), w.call("q"), s[2]], 3)
    add("sub:loops", "a SUB with loops defined within loops", [w.do("PreWhile", c[0], [w.callable("p", [w.do("PreWhile", c[1], [w.exit("Do")]), w.for_([w.exit("For")]), s[0]]), w.call("p"), w.if_([(c[2], [w.exit("Do")])])]), s[1]], 5)
    add("sub:labels", "GOTO and GOSUB within a SUB", [w.callable("p", [w.gosub("in"), w.goto("out"), w.label("in"), s[0], w.ret(), w.label("out"), s[1]]), w.call("p"), s[2]], 0)
    add("sub:gosub", "a SUB called from a GOSUB", [w.callable("p", [s[0]]), w.gosub("a"), s[1], w.end(), w.label("a"), w.call("p"), s[2], w.ret()], 0)
    for ty in ("Boolean", "Integer", "Text", "Double"):
        f = lambda b: w.callable("g", b, ty)
        call = w.let(E("fn:g"))
        add("fn:%s" % ty, "a FUNCTION of type %s that does not set its result" % ty.upper(), [f([s[0]]), call, s[1]], 0)
    add("fn:exit", "EXIT FUNCTION", [w.callable("g", [s[0], w.if_([(c[0], [w.exit("Function")])]), w.for_([s[1], w.exit("Function")]), s[2]], "Integer"), w.let(E("fn:g")), s[3]], 4)
    add("fn:skip", "falling through to a FUNCTION", [s[0], w.callable("g", [s[1]], "Integer"), s[2]], 0)
    # Errors.
    simple = lambda n: [R("f%d" % n), w.let(E("f%d" % n)), w.store(E("f%d" % n))]
    for i, name in enumerate(("command", "assignment", "array assignment")):
        x = [simple(n)[i] for n in range(6)]
        src = i < 2
        add("none:%d" % i, "a failing %s" % name, [s[0], x[0], s[1]], 5, True, src)
        add("goto:%d" % i, "ON ERROR GOTO with a failing %s" % name, [w.on_error("h"), x[0], s[1], w.end(), w.label("h"), x[2]], 5, True, src)
        add("goto2:%d" % i, "a second ON ERROR GOTO in the handler of a failing %s" % name, [w.on_error("h"), x[0], w.end(), w.label("h"), w.on_error("i"), x[2], w.label("i"), s[3]], 5, True, src)
        add("reset:%d" % i, "ON ERROR GOTO 0 with a failing %s" % name, [w.on_error("h"), x[0], w.on_error("0"), x[1], w.label("h"), x[2]], 5, True, src)
        R_ = w.on_error("next")
        add("next:%d" % i, "RESUME NEXT with a failing %s" % name, [R_, x[0], x[1], s[1]], 5, True, src)
        add("next:last:%d" % i, "RESUME NEXT with a failing %s at the end" % name, [R_, x[0], s[0], x[1]], 6, True, src)
        add("next:if:%d" % i, "RESUME NEXT with a failing %s in IF" % name, [R_, w.if_([(c[0], [x[0], x[1]]), (c[1], [x[2]]), (None, [x[3]])]), x[4], s[0]], 6, True, src)
        add("next:while:%d" % i, "RESUME NEXT with a failing %s in WHILE" % name, [R_, w.while_(c[0], [s[0], x[0]]), x[1], s[1]], 6, True, src)
        for k in ("Infinite", "PreWhile", "PreUntil", "PostWhile", "PostUntil"):
            add("next:do:%s:%d" % (k, i), "RESUME NEXT with a failing %s in DO (%s)" % (name, k), [R_, w.do(k, None if k == "Infinite" else c[0], [w.if_([(c[1], [w.exit("Do")])]), x[0]]), x[1], s[1]], 6, True, src)
        add("next:for:%d" % i, "RESUME NEXT with a failing %s in FOR" % name, [R_, w.for_([x[0]]), x[1], s[1]], 6, True, src)
        add("next:select:%d" % i, "RESUME NEXT with a failing %s in SELECT" % name, [R_, w.select([(c[0], [x[0], x[1]]), (c[1], [x[2]]), (None, [x[3]])]), s[0]], 6, True, src)
        add("next:nested:%d" % i, "RESUME NEXT with a failing %s in nested blocks" % name, [R_, w.while_(c[0], [w.if_([(c[1], [x[0]])])]), w.do("PostUntil", c[2], [w.if_([(c[1], [x[0]]), (None, [w.for_([x[1]])])])]), s[1]], 6, True, src)
        add("next:sub:%d" % i, "RESUME NEXT with a failing %s in a SUB" % name, [R_, w.callable("p", [s[0], x[0]]), w.call("p"), x[1], s[1]], 6, True, src)
        add("next:skip:%d" % i, "RESUME NEXT with a failing %s before a SUB" % name, [R_, x[0], w.callable("p", [s[0], x[1]]), s[1], w.call("p")], 6, True, src)
        add("next:label:%d" % i, "RESUME NEXT with a failing %s before a label" % name, [R_, w.label("a"), x[0], w.label("b"), w.if_([(c[0], [w.goto("a")])]), x[1], w.gosub("c"), s[1], w.end(), w.label("c"), x[2], w.ret()], 6, True, src)
        add("next:exit:%d" % i, "RESUME NEXT with a failing %s before EXIT" % name, [R_, w.callable("p", [w.while_(c[0], [x[0], w.exit("Sub")]), s[2]]), w.call("p"), w.do("PreWhile", c[1], [x[1], w.exit("Do"), s[0]]), s[1]], 6, True, src)
    add("return:none", "RETURN without GOSUB", [s[0], w.ret(), s[1]], 2, True)
    add("return:next", "RETURN without GOSUB under RESUME NEXT", [w.on_error("next"), w.ret(), s[1]], 2, True)
    return out


def rejected(w):
    R = w.run
    s = [R("s%d" % i) for i in range(4)]
    c = [E("cond%d" % i) for i in range(4)]
    yield "unknown:goto", "GOTO to an unknown label", [s[0], w.goto("x"), w.label("y")]
    yield "unknown:gosub", "GOSUB to an unknown label", [s[0], w.gosub("x")]
    yield "unknown:error", "ON ERROR GOTO to an unknown label", [w.on_error("x"), s[0]]
    yield "unknown:nested", "GOTO to an unknown label in a block", [w.if_([(c[0], [w.goto("x")])])]
    yield "twice:label", "a label defined twice", [w.label("a"), s[0], w.label("a")]
    yield "twice:label2", "a label defined twice in different cases", [w.label("a"), s[0], w.label("A")]
    yield "twice:label3", "a label defined twice in different blocks", [w.if_([(c[0], [w.label("a")]), (None, [w.label("a")])])]
    yield "twice:label4", "a label defined twice in a SUB", [w.callable("p", [w.label("a"), s[0], w.label("a")])]
    yield "twice:label5", "a label defined twice in a loop in a SUB", [w.callable("p", [w.label("a"), w.while_(c[0], [w.label("a")])])]
    yield "undefined:sub", "a call to a SUB that is declared but not defined", [w.declare("p"), w.call("p")]
    yield "undefined:sub2", "a call to something that does not exist", [w.call("zzz")]
    yield "twice:sub", "a SUB defined twice", [w.callable("p", [s[0]]), w.callable("p", [s[0]])]
    yield "twice:sub2", "a SUB defined twice in different cases", [w.callable("p", [s[0]]), w.callable("P", [s[0]])]
    yield "nested:sub", "a SUB within a SUB", [w.callable("p", [w.callable("q", [])])]
    yield "nested:fn", "a FUNCTION within a SUB", [w.callable("p", [w.callable("q", [], "Integer")])]
    yield "nested:declare", "DECLARE within a SUB", [w.callable("p", [w.declare("q")])]
    yield "across:out", "GOTO from a SUB to a label outside of it", [w.callable("p", [s[0], w.goto("a")]), w.call("p"), w.label("a"), s[1]]
    yield "across:in", "GOTO to a label within a SUB from outside of it", [w.goto("a"), w.callable("p", [s[0], w.label("a"), s[2]]), s[1]]
    yield "across:gosub", "GOSUB to a label within a SUB from outside of it", [w.gosub("a"), w.callable("p", [s[0], w.label("a"), s[2]]), s[1]]
    yield "fn:statement", "a FUNCTION called as a statement", [w.callable("g", [], "Integer"), w.call("g")]
    for k, ty in (("Sub", "Integer"), ("Function", None)):
        x = w.exit(k)
        yield "exit:%s:top" % k, "EXIT %s outside of a callable" % k.upper(), [x]
        yield "exit:%s:loop" % k, "EXIT %s in a loop outside of a callable" % k.upper(), [w.while_(c[0], [x])]
        yield "exit:%s:other" % k, "EXIT %s in the other kind of callable" % k.upper(), [w.callable("p", [x], ty)]
        yield "exit:%s:after" % k, "EXIT %s after a callable" % k.upper(), [w.callable("p", [], None if ty else "Integer"), x]
    for k, mk in (("Do", lambda b: w.do("Infinite", None, b)), ("For", w.for_)):
        yield "exit:%s:across" % k, "EXIT %s of a loop around a SUB" % k.upper(), [mk([w.callable("p", [w.exit(k)])])]
        yield "exit:%s:after" % k, "EXIT %s in a SUB after a loop" % k.upper(), [mk([]), w.callable("p", [w.exit(k)])]


def run(ctx):
    ctx.rule(
        "for every program of a family that covers every jump, call, exit and error handler, within and across every kind of block, the code derived by abstract interpretation of the statement "
        "compiler and of the resolution of targets has, for every outcome of its conditions and every failing statement, the trace of the reference flow graph"
    )
    ctx.rule("the machine's call, return, handler and resume rules, derived from its instruction arms and exception handler, are the ones the traces use")
    ctx.assume("programs whose labels are on the other side of a callable's boundary are only covered by the known findings")
    lab = Lab9(ctx)
    if not lab.ok:
        return
    par = syntax.Parser(ctx)
    if not par.ok:
        return
    w = Writer(lab)
    thorough = ctx.tier == "thorough"
    for key, what, items, depth, fails, src in programs(w):
        d = depth + 2 if thorough and depth else depth
        study(ctx, lab, key, what, items, d, fails)
        if src:
            ctx.count("sources")
            res = par.parse(source(items))
            if len(res) != 1 or next(iter(res))[0] != "ok":
                ctx.violation("source:" + key, "%s is parsed with the outcome %s" % (what, "/".join(sorted(k for k, _ in res))), par.entry.loc())
            else:
                study(ctx, lab, "source:" + key, what, items, min(d, 3), fails, trees_=list(next(iter(res))[1]))
    for key, what, items in rejected(w):
        study(ctx, lab, "reject:" + key, what, items, 0, reject=True)
    vmrules.rules(ctx)
    ctx.floor("machine_rules", 27)
    ctx.floor("programs", 150)
    ctx.floor("sources", 60)
    ctx.floor("traces", 2000)
