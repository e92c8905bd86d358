"""C06: expressions are compiled to the instruction of their operator and operand types.

Abstract interpretation of the expression compiler: for every expression shape and every combination
of operand types (operands themselves stay symbolic) the emitted instructions are derived and
compared with what the operator means."""

import itertools

import absint
import mirlib
from checks import c01, vm
from mirlib import strip_var

CORE = "endbasic_core"
EXPR = CORE + "::ast::Expr"
TYPE = CORE + "::ast::ExprType"
TYPES = ("Boolean", "Double", "Integer", "Text")
BINSPAN, UNSPAN = CORE + "::ast::BinaryOpSpan", CORE + "::ast::UnaryOpSpan"

ARITH = {"Add": ("AddInteger", "AddDouble", "Concat"), "Subtract": ("SubtractInteger", "SubtractDouble", None),
         "Multiply": ("MultiplyInteger", "MultiplyDouble", None), "Divide": ("DivideInteger", "DivideDouble", None),
         "Modulo": ("ModuloInteger", "ModuloDouble", None), "Power": ("PowerInteger", "PowerDouble", None)}
BITS = {"And": "BitwiseAnd", "Or": "BitwiseOr", "Xor": "BitwiseXor"}
SHIFTS = {"ShiftLeft": "ShiftLeft", "ShiftRight": "ShiftRight"}
RELS = ("Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual")


def expected(op, lt, rt):
    """(operand conversions {side}, opcode, result type) or None when the operator rejects the types."""
    num = {"Integer", "Double"}
    if op in ARITH:
        i, d, t = ARITH[op]
        if lt == rt == "Text" and t:
            return set(), t, "Text"
        if lt in num and rt in num:
            if lt == rt == "Integer":
                return set(), i, "Integer"
            return {s for s, x in (("l", lt), ("r", rt)) if x == "Integer"}, d, "Double"
        return None
    if op in BITS:
        if lt == rt and lt in ("Integer", "Boolean"):
            return set(), BITS[op], lt
        return None
    if op in SHIFTS:
        return (set(), SHIFTS[op], "Integer") if lt == rt == "Integer" else None
    if lt in num and rt in num:
        if lt == rt:
            return set(), op + lt, "Boolean"
        return {s for s, x in (("l", lt), ("r", rt)) if x == "Integer"}, op + "Double", "Boolean"
    if lt == rt == "Text" or (lt == rt == "Boolean" and op in ("Equal", "NotEqual")):
        return set(), op + lt, "Boolean"
    return None


def V(k, *a):
    return ("v", k, tuple(a))


class World:
    """Names the compiler's operations on the way out."""

    def __init__(self, ctx):
        P = self.P = ctx.P
        self.ctx = ctx
        self.ok = True
        self.fields = {}
        for n in (BINSPAN, UNSPAN):
            a = P.adts.get(n)
            if not ctx.anchor(a, n):
                self.ok = False
                return
            self.fields[n] = [f[0] for f in a["variants"][0]["fields"]]
        op = P.adts.get(vm.OPCODE)
        if not ctx.anchor(op, "the opcodes") or not ctx.anchor(P.adts.get(EXPR), "the expression type"):
            self.ok = False
            return
        discs = {int(v["disc"]): v["name"] for v in op["variants"]}
        self.make = {}
        for name, lst in c01.encoders(P, discs).items():
            for b, _args, _v in lst:
                self.make[b.id] = name
        self.make_words = set(self.make)
        ctx.count("encoders", len(self.make))

    def one(self, name, pred):
        c = [b for b in self.P.bodies(crates={CORE}, kinds=("fn", "method")) if pred(b)]
        if len(c) != 1:
            self.ctx.violation("anchor:" + name, "expected exactly one %s, found %s" % (name, [b.id for b in c]))
            self.ok = False
            return None
        return c[0]

    def locate(self):
        # The expression compiler: (.., register, Expr) -> Result<ExprType>.
        def args(b):
            return b.locals[1:b.argc + 1]
        self.expr = self.one("expression compiler", lambda b: b.locals[0].startswith("core::result::Result<" + TYPE + ",") and EXPR in args(b))
        self.as_type = self.one("typed expression compiler", lambda b: b.locals[0].startswith("core::result::Result<(),") and EXPR in args(b) and TYPE in args(b)
                                and CORE + "::bytecode::Register" in args(b))
        self.emit = self.one("instruction emitter", lambda b: "Codegen" in (b.impl_self or "") and b.argc == 3 and b.locals[2] == "u32" and b.locals[0] == "usize")
        self.const = self.one("constant allocator", lambda b: "Codegen" in (b.impl_self or "") and any(x.endswith("::ConstantDatum") for x in args(b)) and b.locals[0].startswith("core::result::Result<u16,"))
        self.upcall = self.one("upcall allocator", lambda b: "Codegen" in (b.impl_self or "") and any("Option<" + TYPE in x for x in args(b)) and b.locals[0].startswith("core::result::Result<u16,"))
        self.fixup = self.one("fixup recorder", lambda b: "Codegen" in (b.impl_self or "") and any(x.endswith("::Fixup") for x in args(b)) and b.locals[0] == "()")
        self.alloc = self.one("temporary allocator", lambda b: "TempScope" in (b.impl_self or "") and b.argc == 1 and b.name == "alloc" and b.locals[0].startswith("core::result::Result<" + CORE + "::bytecode::Register"))
        return self.ok

    def pick(self, stop):
        def f(c, cb):
            return cb.crate == CORE and cb.id not in stop and (cb.parent == self.expr.parent or cb.file in (self.expr.file, self.emit.file))
        return f

    def position(self, b, ty):
        for i in range(1, b.argc + 1):
            if b.locals[i] == ty:
                return i
        return None

    def hook(self, script):
        """script(kind, args, st) may return alternatives; events are appended to st."""
        W = self

        def h(c, args, st, ai, env):
            r = c.resolved
            if r in W.make_words:
                # (the operand values, not the references to them)
                return [(("sym", "op", W.make[r], tuple(ai.deep(a, env) for a in args)), st)]
            if r == W.expr.id:
                p = W.position(W.expr, EXPR) - 1
                q = W.position(W.expr, CORE + "::bytecode::Register") - 1
                e = ai.deep(args[p], env)
                return script("expr", (ai.deep(args[q], env), e), st)
            if r == W.as_type.id:
                p = W.position(W.as_type, EXPR) - 1
                q = W.position(W.as_type, CORE + "::bytecode::Register") - 1
                t = W.position(W.as_type, TYPE) - 1
                return [(V("Ok", ("t", ())), st + (("typed", ai.deep(args[q], env), ai.deep(args[p], env), ai.deep(args[t], env)),)), (V("Err"), st)]
            if r == W.emit.id:
                return [(("sym", "addr", len(st)), st + (("emit", ai.deep(args[1], env)),))]
            if r == W.const.id:
                k = ai.deep(args[1], env)
                return [(V("Ok", ("sym", "const", k)), st), (V("Err"), st)]
            if r == W.upcall.id:
                return [(V("Ok", ("sym", "upcall", ai.deep(args[1], env))), st), (V("Err"), st)]
            if r == W.fixup.id:
                return [(("t", ()), st + (("fixup", ai.deep(args[1], env), ai.deep(args[2], env)),))]
            if r == W.alloc.id:
                n = sum(1 for e in st if e[0] == "alloc")
                return [(V("Ok", ("sym", "tmp", n)), st + (("alloc",),)), (V("Err"), st)]
            if c.name in ("try_from", "try_into") and args and args[0] is not None and args[0][0] == "sym":
                return [(V("Ok", args[0]), st), (V("Err"), st)]
            return script("call", (c, args, ai, env), st)
        return h

    def explore(self, body, env0, script, limit=40000):
        ai = absint.Interp(body, self.hook(script), limit)
        ai.run(env0=env0, st0=())
        self.ctx.count("abstract_states", getattr(ai, "explored", 0))
        if ai.overflow:
            raise Exception("`%s` is too complex to analyse" % body.id)
        return ai


def events(st):
    return tuple(e for e in st if e[0] != "alloc")


def literal(t, v):
    return V(t, V(t + "Span", v, ("sym", "pos")))


def variable(t):
    """A variable of type t as an operand (scripts resolve it)."""
    return V("Symbol", V("SymbolSpan", ("sym", "var", t), ("sym", "pos")))


def mk(span_fields, ty, **kw):
    return ("v", ty, tuple(kw.get(f, ("sym", f)) for f in span_fields))


def show(ev):
    out = []
    for e in ev:
        if e[0] == "emit" and e[1] is not None and e[1][0] == "sym" and e[1][1] == "op":
            out.append("%s(%s)" % (e[1][2], ", ".join(show_v(a) for a in e[1][3])))
        else:
            out.append(" ".join([e[0]] + [show_v(a) for a in e[1:]]))
    return "; ".join(out) or "nothing"


def show_v(v):
    if v is None:
        return "?"
    if v[0] == "sym":
        return "-".join(x if isinstance(x, str) else show_v(x) if isinstance(x, tuple) else str(x) for x in v[1:])
    if v[0] == "c":
        return str(v[1])
    if v[0] == "v":
        return v[1]
    return str(v)


def op(name, *args):
    return ("emit", ("sym", "op", name, tuple(args)))


REG = ("sym", "reg")
LHS = ("sym", "lhs")
TMP = ("sym", "tmp", 0)


def run(ctx):
    ctx.rule(
        "for every expression variant and operand type combination, the abstractly interpreted expression compiler emits: the left operand into the "
        "destination, the right one into a temporary, a conversion of exactly the integer operand of a mixed pair, and the opcode of "
        "that operator and type applied to (destination, left, right) - or reports an error when the operator does not accept the types"
    )
    ctx.assume("instruction encoders are tied to opcodes by C01 and opcodes to operations by C02")
    W = World(ctx)
    if not W.ok or not W.locate():
        return
    regpos = W.position(W.expr, CORE + "::bytecode::Register")
    exppos = W.position(W.expr, EXPR)
    body = ctx.P.inlined(W.expr, W.pick({W.emit.id, W.const.id, W.upcall.id, W.fixup.id, W.as_type.id}), 6)
    variants = [v["name"] for v in ctx.P.adts[EXPR]["variants"]]
    base = {regpos: REG}

    def go(e, rt=None, lt=None):
        def script(kind, a, st):
            if kind == "expr":
                return [(V("Ok", V(rt)), st + (("compile",) + a,)), (V("Err"), st)]
            if a[0].name == "get_local_or_global":
                return [(V("Ok", ("t", (LHS, V("Scalar", V(lt))))), st)]
            return None
        ai = W.explore(body, {**base, exppos: e}, script)
        good, bad = set(), 0
        for v, st in ai.rets:
            if v is not None and v[0] == "v" and v[1] == "Err":
                bad += 1
            else:
                good.add((v, events(st)))
        return good, bad, [c for _bb, _st, sure, c in ai.dead if sure]

    RHS = ("sym", "rhs")
    done = set()
    for name in variants:
        if name in ARITH or name in BITS or name in SHIFTS or name in RELS:
            for lt, rt in itertools.product(TYPES, TYPES):
                e = V(name, mk(W.fields[BINSPAN], "BinaryOpSpan", lhs=variable(lt), rhs=RHS))
                good, _bad, dead = go(e, rt, lt)
                ctx.count("binary_cases")
                want = expected(name, lt, rt)
                what = "`%s` of %s and %s" % (name, lt, rt)
                if dead:
                    ctx.violation("binary:%s:%s:%s" % (name, lt, rt), "%s makes the compiler panic" % what, W.expr.loc())
                    continue
                if want is None:
                    if good:
                        ctx.violation("binary:%s:%s:%s" % (name, lt, rt), "%s is accepted: %s" % (what, " / ".join(show(s) for _v, s in good)), W.expr.loc())
                    continue
                conv, opc, res = want
                seqs = set()
                for pre in lhs_loads(lt):
                    ev = (pre, ("compile", TMP, RHS))
                    if "l" in conv:
                        ev += (op("IntegerToDouble", REG),)
                    if "r" in conv:
                        ev += (op("IntegerToDouble", TMP),)
                    ev += (op(opc, REG, REG, TMP),)
                    seqs.add((V("Ok", V(res)), ev))
                compare(ctx, "binary:%s:%s:%s" % (name, lt, rt), what, good, seqs, W.expr)
            done.add(name)
        elif name in ("Negate", "Not"):
            for t in TYPES:
                e = V(name, mk(W.fields[UNSPAN], "UnaryOpSpan", expr=variable(t)))
                good, _bad, dead = go(e, t, t)
                ctx.count("unary_cases")
                what = "`%s` of %s" % (name, t)
                tail = None
                if name == "Negate" and t in ("Integer", "Double"):
                    tail = (op("Negate" + t, REG),)
                elif name == "Not" and t == "Integer":
                    tail = (op("BitwiseNot", REG),)
                elif name == "Not" and t == "Boolean":
                    tail = (op("LoadInteger", TMP, ("c", 1)), op("BitwiseXor", REG, REG, TMP))
                if dead:
                    ctx.violation("unary:%s:%s" % (name, t), "%s makes the compiler panic" % what, W.expr.loc())
                elif tail is None:
                    if good:
                        ctx.violation("unary:%s:%s" % (name, t), "%s is accepted: %s" % (what, " / ".join(show(s) for _v, s in good)), W.expr.loc())
                else:
                    compare(ctx, "unary:%s:%s" % (name, t), what, good, {(V("Ok", V(t)), (pre,) + tail) for pre in lhs_loads(t)}, W.expr)
            done.add(name)
        elif name in TYPES:
            for k in [0, 1] if name == "Boolean" else boundaries(body) if name == "Integer" else [None]:
                v = ("sym", "value") if k is None else ("c", k)
                good, _bad, dead = go(literal(name, v))
                ctx.count("literals")
                datum = op("LoadConstant", REG, ("sym", "const", V(name, v)))
                if name == "Boolean":
                    legal = {op("LoadInteger", REG, v)}
                elif name == "Integer":
                    # The instruction has room for an unsigned 16-bit quantity.
                    legal = {datum} | ({op("LoadInteger", REG, v)} if 0 <= k <= 65535 else set())
                elif name == "Double":
                    legal = {datum}
                else:
                    legal = {op("LoadInteger", REG, ("sym", "const", V(name, v)))}
                what = "the %s literal %s" % (name, "" if k is None else k)
                if dead or not good or any(r != V("Ok", V(name)) or len(ev) != 1 or ev[0] not in legal for r, ev in good):
                    ctx.violation("literal:" + name, "%s is compiled to `%s`" % (what, " / ".join(show(ev) for _r, ev in good) or "an error"), W.expr.loc())
            done.add(name)
    # Nested operators: the chain is evaluated from the innermost (left) operator outwards.
    inner = V("Subtract", mk(W.fields[BINSPAN], "BinaryOpSpan", lhs=variable("Integer"), rhs=("sym", "rhs1")))
    for outer in ("Multiply", "ShiftLeft", "Less"):
        e = V(outer, mk(W.fields[BINSPAN], "BinaryOpSpan", lhs=inner, rhs=RHS))
        good, _bad, _dead = go(e, "Integer", "Integer")
        T0, T1 = ("sym", "tmp", 0), ("sym", "tmp", 1)
        seqs = set()
        for pre in lhs_loads("Integer"):
            oc = {"Multiply": "MultiplyInteger", "ShiftLeft": "ShiftLeft", "Less": "LessInteger"}[outer]
            seqs.add((V("Ok", V("Boolean" if outer == "Less" else "Integer")),
                      (pre, ("compile", T0, ("sym", "rhs1")), op("SubtractInteger", REG, REG, T0), ("compile", T1, RHS), op(oc, REG, REG, T1))))
        ctx.count("chains")
        compare(ctx, "chain:" + outer, "`%s` applied to a difference" % outer, good, seqs, W.expr)
    calls_and_symbols(ctx, W, body, variants, done, regpos, exppos)
    rest = [v for v in variants if v not in done]
    if rest:
        ctx.violation("unknown:" + ",".join(rest), "no rule for the expressions %s" % rest, W.expr.loc())
    typed(ctx, W)
    equality(ctx)
    ctx.floor("binary_cases", 17 * 16)
    ctx.floor("unary_cases", 8)
    ctx.floor("literals", 60)
    ctx.floor("casts", 16)


def boundaries(body):
    """Integers around which the behaviour of the code could change: constants it mentions and type limits."""
    ks = {0, 2**31 - 1, -2**31}
    for n in range(0, 32):
        ks |= {2**n, -2**n}
    for i in body.reachable():
        blk = body.blocks[i]
        ops = [o for s in blk["s"] if s[0] == "=" for o in mirlib.rv_operands(s[2])]
        t = blk["t"]
        if t[0] == "call":
            ops += t[2]
        if t[0] == "switch":
            ks |= {int(v) for v, _ in t[3]}
        for o in ops:
            if o and o[0] == "k" and isinstance(o[2], int) and not isinstance(o[2], bool):
                ks.add(o[2])
    ks = {k + d for k in ks for d in (-1, 0, 1)}
    return sorted(k for k in ks if -2**31 <= k < 2**31)


def lhs_loads(t):
    return [op("Move", REG, LHS)]


def compare(ctx, key, what, good, want, b):
    if good == want:
        if len(ctx.samples) < 12:
            ctx.sample("%s: %s" % (what, show(sorted(want, key=str)[0][1])))
        return
    for v, ev in sorted(good - want, key=str):
        ctx.violation(key, "%s is compiled to `%s` yielding %s instead of `%s`" % (what, show(ev), show_v(v[2][0]) if v and v[0] == "v" and v[2] else "?",
                      " or ".join(show(s) for _v, s in sorted(want, key=str))), b.loc())
    if not (good - want):
        ctx.violation(key, "%s is not compiled to `%s` in some cases" % (what, " or ".join(show(s) for _v, s in sorted(want - good, key=str))), b.loc())


def typed(ctx, W):
    """Conversions to a required type: exactly Integer<->Double, in place."""
    b = W.as_type
    body = ctx.P.inlined(b, W.pick({W.emit.id, W.const.id, W.upcall.id, W.fixup.id, W.expr.id}), 6)
    regpos = W.position(b, CORE + "::bytecode::Register")
    exppos = W.position(b, EXPR)
    typos = W.position(b, TYPE)
    for f, t in itertools.product(TYPES, TYPES):
        def script(kind, a, st):
            if kind == "expr":
                return [(V("Ok", V(f)), st + (("compile",) + a,)), (V("Err"), st)]
            return None
        ai = W.explore(body, {regpos: REG, exppos: ("sym", "e"), typos: V(t)}, script)
        good = {events(st) for v, st in ai.rets if not (v is not None and v[0] == "v" and v[1] == "Err")}
        ctx.count("casts")
        want = {(("compile", REG, ("sym", "e")),)}
        if f != t:
            if {f, t} == {"Integer", "Double"}:
                want = {(("compile", REG, ("sym", "e")), op("IntegerToDouble" if t == "Double" else "DoubleToInteger", REG))}
            else:
                want = set()
        if good != want:
            ctx.violation("cast:%s:%s" % (f, t), "a %s where a %s is needed is compiled to `%s` instead of %s" % (
                f, t, " / ".join(show(g) for g in good) or "an error", " / ".join(show(g) for g in want) or "being rejected"), b.loc())


def calls_and_symbols(ctx, W, body, variants, done, regpos, exppos):
    """Variables are moved into the destination; array elements are loaded with integer subscripts and
    only with as many as the array has; functions are invoked through the entry that fits them."""
    P = ctx.P
    CALL = CORE + "::ast::CallSpan"
    SYM = CORE + "::ast::SymbolSpan"
    for n in (CALL, SYM):
        if not ctx.anchor(P.adts.get(n), n):
            return
    cf = [f[0] for f in P.adts[CALL]["variants"][0]["fields"]]
    sf = [f[0] for f in P.adts[SYM]["variants"][0]["fields"]]

    def script_for(lookup, callable_, md):
        def script(kind, a, st):
            if kind == "expr":
                return [(V("Ok", ("sym", "type")), st + (("compile",) + a,))]
            c, args, ai, env = a
            n, r = c.name, c.resolved
            if n == "get_local_or_global":
                return [(x, st) for x in lookup]
            if n == "get_callable":
                return [(x, st) for x in callable_]
            if "CallableMetadata" in c.path or "CallableMetadata" in (c.selfty or ""):
                if n in md:
                    return [(md[n], st)]
                if n in ("clone", "deref", "as_ref"):
                    return [(args[0], st)]
            if n == "is_top":
                return [(("c", 1), st + (("top",),)), (("c", 0), st + (("nottop",),))]
            if n == "to_parts":
                return [(("t", (("c", 1), None)), st + (("global",),)), (("t", (("c", 0), None)), st + (("local",),))]
            if n == "accepts_callable":
                return [(("c", 1), st + (("match",),)), (("c", 0), st + (("mismatch",),))]
            if n == "compile_args":
                return [(V("Ok", ("t", (("sym", "first"), ("sym", "linecols")))), st + (("args",),)), (V("Err"), st)]
            if n == "from" and args and args[0] is not None and "SymbolKey" in (c.selfty or c.path):
                return [(("sym", "key", ai.deep(args[0], env)), st)]
            if n in ("eq", "ne") and len(args) == 2 and {ai.deep(x, env) for x in args} == {REG, TMP}:
                return [(("c", int(n == "eq")), st + (("same",),)), (("c", int(n == "ne")), st)]
            if n == "set_arg_linecols":
                return [(None, st + (("linecols", ai.deep(args[1], env)),))]
            return None
        return script

    def go(e, *a):
        ai = W.explore(body, {regpos: REG, exppos: e}, script_for(*a), 60000)
        return {(v, events(st)) for v, st in ai.rets if not (v is not None and v[0] == "v" and v[1] == "Err")}, ai

    vf = P.adts.get(CORE + "::ast::VarRef")
    if not ctx.anchor(vf, "variable references"):
        return
    vref = ("v", "VarRef", tuple(("sym", "vref", f[0]) for f in vf["variants"][0]["fields"]))
    sym = V("Symbol", ("v", "SymbolSpan", tuple(vref if f == "vref" else ("sym", f) for f in sf)))
    undefined = V("Err", V("UndefinedSymbol"))
    LOCAL = ("sym", "local")
    # A scalar variable.
    good, _ = go(sym, [V("Ok", ("t", (LOCAL, V("Scalar", ("sym", "vtype")))))], [V("None")], {})
    ctx.count("symbols")
    if good != {(V("Ok", ("sym", "vtype")), (op("Move", REG, LOCAL),))}:
        ctx.violation("symbol:scalar", "a variable is compiled to `%s` instead of a move of its register into the destination" % " / ".join(show(g) for _v, g in good), W.expr.loc())
    # An array as a scalar, or nothing of that name.
    for what, lk, cb in (("array", V("Ok", ("t", (LOCAL, V("Array", ("sym", "info"))))), V("None")), ("undefined", undefined, V("None"))):
        good, _ = go(sym, [lk], [cb], {})
        ctx.count("symbols")
        if good:
            ctx.violation("symbol:" + what, "a reference to %s is accepted as a value" % ("an array" if what == "array" else "an undefined symbol"), W.expr.loc())
    ft = ("sym", "ftype")
    for user, asy, argless, hasret in itertools.product((0, 1), (0, 1), (0, 1), (0, 1)):
        md = {"is_user_defined": ("c", user), "is_async": ("c", asy), "is_argless": ("c", argless),
              "return_type": V("Some", ft) if hasret else V("None")}
        for nm, e in (("Symbol", sym), ("Call", V("Call", ("v", "CallSpan", tuple(vref if f == "vref" else ("sym", f) for f in cf))))):
            good, _ = go(e, [undefined], [V("Some", ("sym", "md"))], md)
            ctx.count("invocations")
            legal = hasret and argless == (1 if nm == "Symbol" else 0)
            what = "a call to a %s function %s arguments" % ("user-defined" if user else "asynchronous built-in" if asy else "built-in", "without" if nm == "Symbol" else "with")
            key = "call:%s:%d%d%d%d" % (nm, user, asy, argless, hasret)
            if not legal:
                if good:
                    ctx.violation(key, "%s that %s is accepted" % (what, "returns nothing" if not hasret else "takes different arguments"), W.expr.loc())
                continue
            if not good:
                ctx.violation(key, "%s is always rejected" % what, W.expr.loc())
            for v, ev in good:
                p = invocation_problem(ev, v, user, asy, nm, ft, vref)
                if p:
                    ctx.violation(key, "%s is compiled to `%s`: %s" % (what, show(ev), p), W.expr.loc())
    done |= {"Symbol"}
    # Array elements.
    aa = [b for b in P.bodies(crates={CORE}, kinds=("fn", "method")) if b.name != W.expr.name and b.file == W.expr.file]
    subs = [b for b in aa if b.locals[0].startswith("core::result::Result<" + CORE + "::bytecode::Register,") and any("Expr" in x or "impl " in x or "I" == x for x in b.locals[1:b.argc + 1])]
    for b in subs:
        subscripts(ctx, W, b)
    if not subs:
        ctx.violation("anchor:subscripts", "cannot find the code that compiles subscripts")
    load_array(ctx, W, vref, cf)
    done |= {"Call"}
    ctx.floor("invocations", 32)


def invocation_problem(ev, v, user, asy, nm, ft, vref):
    if v != V("Ok", ft):
        return "its type is not the function's"
    if not any(e[0] == "match" for e in ev):
        return "a type annotation that does not fit the function is accepted"
    if nm == "Call" and not any(e[0] == "args" for e in ev):
        return "its arguments are not compiled"
    core = [e for e in ev if e[0] in ("emit", "fixup")]
    want = "Nop" if user else "UpcallAsync" if asy else "Upcall"
    calls = [e for e in core if e[0] == "emit" and e[1] and e[1][1] == "op" and e[1][2] == want]
    if len(calls) != 1 or core[0] != calls[0]:
        return "it needs exactly one %s" % ("call" if user else want)
    if user:
        fx = [e for e in core if e[0] == "fixup"]
        if len(fx) != 1 or fx[0][2] is None or fx[0][2][1] != "Call":
            return "the call is not linked"
        ret = fx[0][2][2][0]
        key = fx[0][2][2][1]
    else:
        a = calls[0][1][3]
        ret, key = a[1], a[0]
        if key is None or key[1] != "upcall":
            return "it does not invoke the function's upcall"
        key = key[2]
    if key != ("sym", "key", ("sym", "vref", "name")):
        return "it does not invoke the named function"
    mv = [e for e in core if e[0] == "emit" and e[1] and e[1][1] == "op" and e[1][2] == "Move"]
    rest = len(core) - len(calls) - len(mv) - (1 if user else 0)
    if rest:
        return "it emits something else"
    if ret == REG:
        if mv:
            return "the result is moved although it is in place"
        if nm == "Symbol" and user and not any(e[0] == "top" for e in ev):
            return "the callee's frame starts at a register that has live registers above it"
        if nm == "Symbol" and not user and any(e[0] == "global" for e in ev):
            return "a built-in cannot leave its result in a global register"
        if nm == "Call":
            return "the arguments do not follow the result register"
    else:
        if ret is None or ret[1] != "tmp":
            return "the result register is not a temporary"
        if any(e[0] == "same" for e in ev) and not mv:
            return None
        if len(mv) != 1 or mv[0][1][3] != (REG, ret):
            return "the result does not reach the destination"
    return None


def load_array(ctx, W, vref, cf):
    """An element is loaded from the array's register with the compiled subscripts, and only with as many as the array has dimensions."""
    P = ctx.P
    INFO = CORE + "::compiler::syms::ArrayInfo"
    if not ctx.anchor(P.adts.get(INFO), "array descriptions"):
        return
    fi = [f[0] for f in P.adts[INFO]["variants"][0]["fields"]]
    cands = [b for b in P.bodies(crates={CORE}, kinds=("fn", "method")) if b.file == W.expr.file and b.id != W.expr.id and any(c.is_fn and W.make.get(c.resolved) == "LoadArray" for c in b.calls())]
    if not ctx.anchor(cands, "the code that loads array elements"):
        return
    for b in cands:
        body = P.inlined(b, lambda c, cb: False)
        regs = [i for i in range(1, b.argc + 1) if b.locals[i] == CORE + "::bytecode::Register"]
        infos = [i for i in range(1, b.argc + 1) if b.locals[i].lstrip("&") == INFO]
        if len(regs) != 2 or len(infos) != 1:
            ctx.violation("anchor:load:" + b.id, "unexpected parameters in `%s`" % b.id, b.loc())
            continue
        for given, ndims in itertools.product((1, 2, 3), (1, 2, 3)):
            def script(kind, a, st):
                if kind != "call":
                    return None
                c, args, ai, env = a
                if c.name == "len":
                    return [(("c", given), st)]
                if c.resolved in P.raw and P.body(c.resolved).locals[0].startswith("core::result::Result<" + CORE + "::bytecode::Register"):
                    return [(V("Ok", ("sym", "subs")), st + (("subs",),)), (V("Err"), st)]
                return None
            env = {i: ("sym", "r", k) for k, i in enumerate(regs)}
            env[100000] = ("v", "ArrayInfo", tuple(("c", ndims) if f == "ndims" else ("sym", "info", f) for f in fi))
            env[infos[0]] = ("ref", 100000, "[]")
            ai = W.explore(body, env, script)
            good = {(v, events(st)) for v, st in ai.rets if not (v is not None and v[0] == "v" and v[1] == "Err")}
            ctx.count("array_loads")
            want = set()
            if given == ndims:
                want = {(V("Ok", ("sym", "info", "subtype")), (("subs",), op("LoadArray", ("sym", "r", 0), ("sym", "r", 1), ("sym", "subs"))))}
            if good != want:
                ctx.violation("load:%d:%d" % (given, ndims), "an element access with %d subscripts on an array of %d dimensions is compiled to `%s`" % (
                    given, ndims, " / ".join(show(g) for _v, g in good) or "an error"), b.loc())
    ctx.floor("array_loads", 9)


def subscripts(ctx, W, b):
    """Every subscript is compiled, as an integer, into a freshly allocated register; the first one is returned."""
    ctx.count("subscript_compilers")
    calls = [c for c in b.calls() if c.is_fn and c.resolved == W.as_type.id]
    t = W.position(W.as_type, TYPE) - 1
    q = W.position(W.as_type, CORE + "::bytecode::Register") - 1
    if not calls:
        ctx.violation("subs:" + b.id, "subscripts are not compiled to a fixed type", b.loc())
    for c in calls:
        ty = strip_var(b.x_arg(c, t))
        if not (ty[0] == "agg" and ty[2] == "Integer"):
            ctx.violation("subs-type:" + b.id, "subscripts are compiled as %s" % (ty[2] if ty[0] == "agg" else "?"), b.loc(c.line))
        r = str(b.x_arg(c, q))
        if W.alloc.id not in r and "alloc" not in r:
            ctx.violation("subs-reg:" + b.id, "subscripts are not compiled into fresh registers", b.loc(c.line))
    # Stepwise: two subscripts get registers tmp0, tmp1 and the result is tmp0.
    itpos = [i for i in range(1, b.argc + 1) if "Iterator" in b.locals[i] or b.locals[i].startswith("impl") or b.locals[i] in ("I", "T")]
    body = ctx.P.inlined(b, lambda c, cb: False)
    for n in (1, 2, 3):
        def script(kind, a, st):
            if kind == "call":
                c, args, ai, env = a
                if c.name == "next":
                    k = sum(1 for e in st if e[0] == "item")
                    if k < n:
                        return [(V("Some", ("sym", "sub", k)), st + (("item",),))]
                    return [(V("None"), st)]
                if c.name in ("into_iter",):
                    return [(("sym", "iter"), st)]
            return None
        ai = W.explore(body, {}, script)
        good = {(v, tuple(e for e in events(st) if e[0] != "item")) for v, st in ai.rets if not (v is not None and v[0] == "v" and v[1] == "Err")}
        want = {(V("Ok", ("sym", "tmp", 0)), tuple(("typed", ("sym", "tmp", k), ("sym", "sub", k), V("Integer")) for k in range(n)))}
        if good != want:
            ctx.violation("subs-order:" + b.id, "%d subscripts are compiled to `%s`" % (n, " / ".join(show(g) + " yielding " + show_v(v) for v, g in good)), b.loc())


def equality(ctx):
    """Constants are only shared between identical values of the same type."""
    P = ctx.P
    for b in P.bodies(crates={CORE}, kinds=("method",)):
        if (b.impl_self or "").endswith("ConstantDatum") and b.name == "eq":
            body = P.inlined(b, lambda c, cb: False)
            names = [v["name"] for v in P.adts[b.impl_self]["variants"]]
            for x, y in itertools.product(names, names):
                ai = absint.Interp(body, lambda c, args, st, ai, env: None)
                env = {100000: V(x, ("sym", "a")), 100001: V(y, ("sym", "b")), 1: ("ref", 100000, "[]"), 2: ("ref", 100001, "[]")}
                ai.run(env0=env, st0=())
                ctx.count("constant_pairs")
                if x != y and any(v != ("c", 0) for v, _ in ai.rets):
                    ctx.violation("consteq:%s:%s" % (x, y), "a %s and a %s constant can be mistaken for each other" % (x, y), b.loc())
                if x == y and all(v == ("c", 0) for v, _ in ai.rets):
                    ctx.violation("consteq:%s:%s" % (x, y), "constants are never shared", b.loc())
            ctx.floor("constant_pairs", 16)
            return
    ctx.violation("anchor:consteq", "cannot find the equality of constants")
