"""C08: control-flow statements run their parts in the order and under the conditions they say.

Abstract interpretation of the statement compiler over every control-flow construct, with opaque
expressions and sub-statements; the derived instruction sequence is then compared, for every
sequence of condition outcomes up to a bound, with what the construct means."""

import json

import absint
import frames
from checks.c06 import CORE, EXPR, REG, TYPES, V, World, expected, show_v
from checks import c06, syntax

STMT = CORE + "::ast::Statement"
AST = CORE + "::ast::"
CODEGEN = CORE + "::compiler::codegen::Codegen"
REGISTER = CORE + "::bytecode::Register"
RELOPS = ("Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual")


class Lab:
    """The statement compiler as an object of study."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = P = ctx.P
        self.W = W = World(ctx)
        self.ok = W.ok and W.locate()
        if not self.ok:
            return

        def args(b):
            return b.locals[1:b.argc + 1]
        self.stmt = W.one("statement compiler", lambda b: b.locals[0].startswith("core::result::Result<(),") and STMT in args(b))
        self.ok = W.ok
        if not self.ok:
            return
        self.pc = W.one("address counter", lambda b: "Codegen" in (b.impl_self or "") and b.argc == 1 and b.locals[0] == "usize")
        cty = [x for x in args(self.stmt) if x.endswith("::Context")]
        if not W.ok or not ctx.anchor(cty, "the compiler's context"):
            self.ok = False
            return
        self.ctxty = cty[0].replace("&mut ", "").replace("&", "").strip()
        self.types = {}  # symbol name -> type, for symbol table lookups
        self.compile_errors = True
        self.exprtype = lambda e: "Integer"
        self.codegen_field = next(i for i, f in enumerate(P.adts[self.ctxty]["variants"][0]["fields"]) if f[1] == CODEGEN)
        cg = P.adts[CODEGEN]["variants"][0]["fields"]
        self.code_field = [i for i, f in enumerate(cg) if f[1].startswith("alloc::vec::Vec<u32")]
        self.instrs_field = [i for i, f in enumerate(cg) if f[1].startswith("alloc::vec::Vec<") and "Metadata" in f[1]]
        if not ctx.anchor(len(self.code_field) == 1, "the code buffer"):
            self.ok = False
            return
        self.callable = None  # metadata of calls
        self.shape = "Symbol"
        self.shapes, self.names = {}, {}

    # -- values --------------------------------------------------------------------------

    def S(self, name, /, **kw):
        """A struct of the syntax tree."""
        a = self.P.adts[AST + name]
        fs = [f[0] for f in a["variants"][0]["fields"]]
        unknown = set(kw) - set(fs)
        if unknown:
            raise Exception("%s has no fields %s" % (name, unknown))
        return ("v", name, tuple(kw.get(f, ("sym", "pos") if f.endswith("pos") else ("sym", name + "." + f)) for f in fs))

    def initial(self, ty, d=0):
        """The default value of a type."""
        a = self.P.adts.get(ty)
        if ty.startswith("alloc::vec::Vec<"):
            return ("vec", ())
        if ty.startswith("core::option::Option<"):
            return V("None")
        if ty == "bool":
            return ("c", 0)
        if "HashMap<" in ty or "HashSet<" in ty or "BTree" in ty:
            return ("map", ())
        if a is not None and len(a["variants"]) == 1 and d < 4:
            return ("v", a["variants"][0]["name"], tuple(self.initial(f[1], d + 1) for f in a["variants"][0]["fields"]))
        if ty in absint.KNOWN_SIZES:
            return ("c", 0)
        return ("sym", "init")

    def position(self, b, ty):
        for i in range(1, b.argc + 1):
            if b.locals[i] == ty:
                return i - 1
        return None

    def shaped(self, v):
        """Opaque expressions as expressions of the shape under study (compiling them is still opaque)."""
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "sym" and v[1] == "expr":
                if v not in self.shapes:
                    ref = self.vref("expr_" + v[2])
                    sym = V("Symbol", self.S("SymbolSpan", vref=ref))
                    self.shapes[v] = {
                        "Symbol": lambda: sym,
                        "Add": lambda: V("Add", self.S("BinaryOpSpan", lhs=sym, rhs=sym)),
                        "Call": lambda: V("Call", self.S("CallSpan", vref=ref, args=("vec", ()))),
                    }[self.shape]()
                    self.names[self.shapes[v]] = v
                return self.shapes[v]
            return tuple(self.shaped(x) for x in v)
        return v

    def vref(self, name, ty=None):
        return self.S("VarRef", name=("s", name), ref_type=V("None") if ty is None else V("Some", V(ty)))

    def unshaped(self, v):
        if isinstance(v, tuple):
            return self.names[v] if v in self.names else tuple(self.unshaped(x) for x in v)
        return v

    # -- hook ----------------------------------------------------------------------------

    def pick(self, c, b):
        return b.crate == CORE and (b.file == self.stmt.file or b.file == self.W.emit.file) and b.id not in (self.W.expr.id, self.W.as_type.id)

    def emitted(self, cgref, name, operands, st, ai, env):
        r = ai.enter(self.P.body(self.W.emit.id), [cgref, ("sym", "op", name, tuple(operands)), ("sym", "pos")], env, st, True)
        return [(s, e) for _v, e, s, _su in r]

    def codegen_ref(self, c, args, b):
        for i in range(1, b.argc + 1):
            if b.locals[i].endswith(CODEGEN):
                return args[i - 1]
        return None

    def hook(self, c, args, st, ai, env):
        W, r = self.W, c.resolved
        if r in W.make_words:
            return [(("sym", "op", W.make[r], tuple(ai.deep(a, env) for a in args)), st)]
        if r in (W.expr.id, W.as_type.id):
            b = W.expr if r == W.expr.id else W.as_type
            e = ai.deep(args[self.position(b, EXPR)], env)
            reg = ai.deep(args[self.position(b, REGISTER)], env)
            t = ai.deep(args[self.position(b, c06.TYPE)], env) if r == W.as_type.id else None
            cg = self.codegen_ref(c, args, b)
            out = [(V("Ok", ("t", ()) if t is not None else V(self.exprtype(self.unshaped(e)))), s, e2)
                   for s, e2 in self.emitted(cg, "EVAL" if t is None else "EVALAS", (reg, e) + ((t,) if t is not None else ()), st, ai, env)]
            return out + self.err(st)
        if r == self.stmt.id:
            s = ai.deep(args[self.position(self.stmt, STMT)], env)
            if s is not None and s[0] == "sym" and s[1] == "stmt":
                cx = next(i for i in range(1, self.stmt.argc + 1) if self.stmt.locals[i].endswith(self.ctxty)) - 1
                ref = args[cx]
                cg = ("ref", ref[1], json.dumps(json.loads(ref[2]) + [["f", self.codegen_field, "codegen", ""]]))
                return [(V("Ok", ("t", ())), s2, e2) for s2, e2 in self.emitted(cg, "STMT", (s,), st, ai, env)] + self.err(st)
            return None
        if r == W.const.id:
            return [(V("Ok", ("sym", "const", ai.deep(args[1], env))), st)] + self.err(st)
        if r == W.upcall.id:
            return [(V("Ok", ("sym", "upcall", ai.deep(args[1], env))), st)] + self.err(st)
        if r == W.fixup.id:
            return [(("t", ()), st + (("fixup", ai.deep(args[1], env), ai.deep(args[2], env)),))]
        b = self.P.body(r) if r and r in self.P.raw else None
        if b is not None and b.crate == CORE and "compiler::syms::" in (b.impl_self or b.id):
            return self.symbols(c, b, args, st, ai, env)
        if b is not None and b.crate == CORE and b.file not in (self.stmt.file, self.W.emit.file):
            rt = b.locals[0]
            if rt.startswith("core::result::Result<") and not self.special(b):
                return [(V("Ok", ("sym", "of", c.name)), st)] + self.err(st)
        if c.name in ("start_pos", "pos") and len(args) == 1:
            return [(("sym", "pos"), st)]
        return self.extra(c, b, args, st, ai, env)

    def special(self, b):
        return False

    def extra(self, c, b, args, st, ai, env):
        return None

    def err(self, st):
        return [(V("Err", ("sym", "error")), st + (("failed",),))] if self.compile_errors else []

    def symbols(self, c, b, args, st, ai, env):
        """The symbol table, by what its operations answer."""
        rt = b.locals[0]
        vals = [ai.deep(a, env) for a in args]
        n = sum(1 for e in st if e[0] == "reg")
        if b.id.endswith("::from") or rt.endswith("SymbolKey"):
            return [(V("SymbolKey", vals[0]), st)]
        if rt.startswith("core::result::Result<(%s" % REGISTER):
            return self.lookup(b, vals, st)
        if rt.startswith("core::result::Result<%s" % REGISTER):
            if len(args) >= 3:
                return [(V("Ok", ("sym", "var", vals[1])), st + (("define", c.name, vals[1], vals[2]),))] + self.err(st)
            return [(V("Ok", ("sym", "tmp", n)), st + (("reg",),))] + self.err(st)
        if rt == "bool":
            return self.contains(b, vals, st)
        if "Option<" in rt:
            return [(V("Some", self.callable) if self.callable is not None else V("None"), st)]
        for a in args:
            f = ai.deref(a, env)
            if f is not None and f[0] == "v" and f[1].startswith("closure "):
                cb = self.P.body(f[1][len("closure "):])
                if cb.argc == 3:
                    out = ai.call_value(a, [("sym", "reserved"), ("sym", "frozen")], env, st, True)
                    return [(v, s, e) for v, e, s, _su in out] + self.err(st)
        if rt.startswith("core::result::Result<"):
            return [(V("Ok", ("t", ())), st + (("table", c.name) + tuple(vals[1:]),))] + self.err(st)
        return [(("sym", "of", c.name), st)]

    def lookup(self, b, vals, st):
        name = next((x[1] for x in vals[1][2] if x is not None and x[0] == "s"), None) if vals[1] is not None and vals[1][0] == "v" else None
        return [(V("Ok", ("t", (("sym", "var", vals[1]), V("Scalar", V(self.types.get(name, "Integer")))))), st)]

    def contains(self, b, vals, st):
        return [(("c", 0), st)]

    # -- compilation ---------------------------------------------------------------------

    def compile(self, stmts, context=None, limit=400000):
        """[(ok, code, starts, context, events)] of compiling the list of statements."""
        cx = context or self.initial(self.ctxty)
        outs = [(cx, (), True)]
        done = []
        for s in self.shaped(tuple(stmts)):
            nxt = []
            for cx, st, _ in outs:
                ai = frames.Frames(self.P, self.stmt, self.hook, self.pick, limit)
                env = {90000: cx}
                for i in range(1, self.stmt.argc + 1):
                    ty = self.stmt.locals[i]
                    env[i] = s if ty == STMT else ("ref", 90000, "[]") if ty.endswith(self.ctxty) else ("sym", "symtable")
                if s[0] == "sym":
                    cg = ("ref", 90000, json.dumps([["f", self.codegen_field, "codegen", ""]]))
                    res = [(V("Ok", ("t", ())), e, st2) for st2, e in self.emitted(cg, "STMT", (s,), st, ai, env)]
                else:
                    res = ai.go(env, st)
                self.ctx.count("abstract_states", ai.steps)
                if ai.overflow:
                    raise Exception("the statement compiler is too complex to analyse on %s" % (show_v(s),))
                for v, e, st2 in res:
                    if v is not None and v[0] == "v" and v[1] == "Err":
                        done.append((False, e.get(90000), st2))
                    else:
                        nxt.append((e.get(90000), st2, True))
                for _bb, st2, sure, c in ai.dead:
                    done.append(("dead", c, st2))
            outs = nxt
        return done + [(True, cx, st) for cx, st, _ in outs]

    def code(self, cx):
        """(instructions, statement starts)"""
        if cx is None or cx[0] != "v":
            return None, None
        cg = cx[2][self.codegen_field]
        code = cg[2][self.code_field[0]] if cg is not None else None
        if code is None or code[0] != "vec":
            return None, None
        starts = None
        if self.instrs_field:
            iv = cg[2][self.instrs_field[0]]
            if iv is not None and iv[0] == "vec":
                starts = iv[1]
        return self.unshaped(code[1]), starts


# -- meaning of code -----------------------------------------------------------------------------

class Stuck(Exception):
    pass


def execute(code, oracle, extra=None):
    """The trace of the instructions: what is evaluated, tested and executed, in order."""
    regs, trace, pc, tests = {}, [], 0, 0
    n = 0
    while pc < len(code):
        n += 1
        if n > 300:
            raise Stuck("never stops without testing anything")
        ins = code[pc]
        if ins is None or ins[0] != "sym" or ins[1] != "op":
            raise Stuck("has an unknown instruction at %d" % pc)
        name, a = ins[2], ins[3]
        pc += 1
        if name in ("EVAL", "EVALAS"):
            t = ("value", a[1], len(trace))
            regs[a[0]] = t
            if literal(a[1]) is None:
                trace.append(("eval", a[1]) + tuple(a[2:]))
        elif name == "STMT":
            trace.append(("run", a[0]))
        elif name == "Move":
            regs[a[0]] = regs.get(a[1], ("unset", a[1]))
        elif name == "IntegerToDouble":
            regs[a[0]] = ("double", regs.get(a[0], ("unset", a[0])))
        elif name == "LoadInteger":
            regs[a[0]] = ("const", a[1])
        elif name == "Jump":
            pc = target(a[0], code)
        elif name == "JumpIfFalse":
            v = regs.get(a[0], ("unset", a[0]))
            if v[0] == "value" and literal(v[1]) is not None:
                if not literal(v[1]):
                    pc = target(a[1], code)
                continue
            if tests >= len(oracle):
                return trace + [("cut",)]
            b = oracle[tests]
            tests += 1
            trace.append(("test", plain(v), b))
            if not b:
                pc = target(a[1], code)
        elif len(a) == 3 and any(name.startswith(r) and name[len(r):] in TYPES for r in RELOPS) or name in ("BitwiseAnd", "BitwiseOr"):
            regs[a[0]] = (name, regs.get(a[1], ("unset", a[1])), regs.get(a[2], ("unset", a[2])))
        elif name == "Nop":
            raise Stuck("leaves a placeholder that was never filled in at %d" % (pc - 1))
        else:
            trace.append(("do", name) + tuple(regs.get(x, x) if isinstance(x, tuple) and x in regs else x for x in a))
            if name in ("End", "Return"):
                return [plain(t) for t in trace] + [("stop",)]
    return trace + [("end",)]


def literal(e):
    """The value of a boolean literal; None for other expressions."""
    if e is not None and e[0] == "v" and e[1] == "Boolean" and e[2] and e[2][0][0] == "v" and e[2][0][2][0] is not None and e[2][0][2][0][0] == "c":
        return bool(e[2][0][2][0][1])
    return None


def target(t, code):
    if t is None or t[0] != "c":
        raise Stuck("jumps to an unknown address")
    if not 0 <= t[1] <= len(code):
        raise Stuck("jumps out of the program")
    return t[1]


def plain(v):
    """Values without their occurrence numbers."""
    if isinstance(v, tuple) and v and v[0] == "value":
        return ("value", v[1])
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


# -- meaning of statements -----------------------------------------------------------------------

class Cut(Exception):
    pass


class Exit(Exception):
    pass


class Meaning:
    """Executes a description of a statement with the same oracle."""

    def __init__(self, oracle):
        self.oracle, self.n, self.trace = oracle, 0, []

    def test(self, v):
        if self.n >= len(self.oracle):
            self.trace.append(("cut",))
            raise Cut()
        b = self.oracle[self.n]
        self.n += 1
        self.trace.append(("test", v, b))
        return b

    def guard(self, e):
        self.trace.append(("eval", e, V("Boolean")))
        return self.test(("value", e))

    def block(self, body):
        for s in body:
            if callable(s):
                s(self)
            else:
                self.trace.append(("run", s))

    def run(self, f):
        try:
            f(self)
            self.trace.append(("end",))
        except Cut:
            pass
        except Stop:
            self.trace.append(("stop",))
        return self.trace


class Stop(Exception):
    pass


class ExitDo(Exit):
    pass


class ExitFor(Exit):
    pass


def oracles(n):
    if n == 0:
        return [()]
    r = oracles(n - 1)
    return [x + (b,) for x in r for b in (True, False)]


def compare(ctx, lab, key, what, stmts, meaning, depth=5, context=None):
    """Compiles `stmts` and compares its traces with those of `meaning`."""
    ctx.count("constructs")
    res = lab.compile(stmts, context)
    good = [(cx, st) for ok, cx, st in res if ok is True]
    loc = lab.stmt.loc()
    for ok, cx, st in res:
        if ok == "dead":
            ctx.violation(key, "compiling %s panics" % what, loc)
            return None
        if ok is True and ("failed",) in st:
            ctx.violation(key, "compiling %s succeeds although a part of it does not compile" % what, loc)
            return None
    if meaning is None:
        if good:
            ctx.violation(key, "%s is accepted" % what, loc)
        return None
    if not good:
        ctx.violation(key, "%s is rejected" % what, loc)
        return None
    last = None
    for cx, st in good:
        code, _starts = lab.code(cx)
        if code is None:
            ctx.violation(key, "the code of %s cannot be derived" % what, loc)
            return None
        last = (cx, st, code)
        for o in oracles(depth):
            want = Meaning(o).run(meaning)
            try:
                got = [plain(t) for t in execute(code, o)]
            except Stuck as e:
                ctx.violation(key, "the code of %s %s" % (what, e), loc)
                return None
            ctx.count("traces")
            if got != want:
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                ctx.violation(key, "%s: after %s it does `%s` instead of `%s`" % (
                    what, "; ".join(say(t) for t in want[:i]) or "nothing", say(got[i]) if i < len(got) else "end", say(want[i]) if i < len(want) else "end"), loc)
                return None
    return last


def say(t):
    if t[0] == "eval":
        return "evaluating " + show_v(t[1]) + ("" if len(t) < 3 else " as " + show_v(t[2]))
    if t[0] == "test":
        return "%s is %s" % (sayv(t[1]), str(t[2]).lower())
    if t[0] == "run":
        return "running " + show_v(t[1])
    return " ".join(sayv(x) for x in t)


def sayv(v):
    if isinstance(v, tuple) and v and v[0] == "value":
        return show_v(v[1])
    if isinstance(v, tuple) and v and v[0] in ("sym", "v", "c"):
        return show_v(v)
    if isinstance(v, tuple):
        return "(%s)" % " ".join(sayv(x) for x in v)
    return str(v)


def E(n):
    return ("sym", "expr", n)


def B(n):
    return ("sym", "stmt", n)


def vec(*a):
    return ("vec", tuple(a))


class Construct:
    """A construct as a syntax tree, as source text, and its meaning."""

    def __init__(self, tree, toks, mean):
        self.tree, self.toks, self.mean = tree, toks, mean


def trees(items):
    return vec(*[x.tree if isinstance(x, Construct) else x for x in items])


def source(items):
    r = []
    for x in items:
        r += (x.toks if isinstance(x, Construct) else ["Goto", "@" + x[2]]) + ["Eol"]
    return r


def means(items):
    return [x.mean if isinstance(x, Construct) else x for x in items]


def T(e):
    """An opaque expression as a token."""
    return "$" + e[2]


class Builder:
    def __init__(self, lab, vref):
        self.lab = lab
        self.vref = vref

    def if_(self, branches):
        """branches: [(guard or None for ELSE, body)]"""
        L = self.lab
        true = V("Boolean", L.S("BooleanSpan", value=("c", 1)))
        t = V("If", L.S("IfSpan", branches=vec(*[L.S("IfBranchSpan", guard=true if g is None else g, body=trees(b)) for g, b in branches])))

        def m(M):
            for g, b in branches:
                if g is None or M.guard(g):
                    M.block(means(b))
                    return
        toks = []
        for i, (g, b) in enumerate(branches):
            toks += (["Else"] if g is None else ["Elseif" if i else "If", T(g), "Then"]) + ["Eol"] + source(b)
        return Construct(t, toks + ["End", "If"], m)

    def if_line(self, g, a, b=None):
        """IF in one line."""
        x = self.if_([(g, [] if a is None else [a])] + ([] if b is None else [(None, [] if b == "empty" else [b])]))
        one = lambda s: ([] if s in (None, "empty") else source([s])[:-1])
        x.toks = ["If", T(g), "Then"] + one(a) + ([] if b is None else ["Else"] + one(b))
        return x

    def while_(self, g, body):
        t = V("While", self.lab.S("WhileSpan", expr=g, body=trees(body)))

        def m(M):
            while M.guard(g):
                M.block(means(body))
        return Construct(t, ["While", T(g), "Eol"] + source(body) + ["Wend"], m)

    def do(self, kind, g, body):
        guard = V(kind) if g is None else V(kind, g)
        t = V("Do", self.lab.S("DoSpan", guard=guard, body=trees(body)))

        def m(M):
            try:
                n = 0
                while True:
                    n += 1
                    if n > 50:
                        raise Cut()
                    if kind == "PreWhile" and not M.guard(g):
                        return
                    if kind == "PreUntil" and M.guard(g):
                        return
                    M.block(means(body))
                    if kind == "PostWhile" and not M.guard(g):
                        return
                    if kind == "PostUntil" and M.guard(g):
                        return
            except ExitDo:
                pass
        clause = [] if g is None else [kind.replace("Pre", "").replace("Post", ""), T(g)]
        pre, post = (clause, []) if kind.startswith("Pre") else ([], clause)
        return Construct(t, ["Do"] + pre + ["Eol"] + source(body) + ["Loop"] + post, m)

    def for_(self, body, step=None, double=False, name="i", ty=None):
        """step: None (1) or a number."""
        L = self.lab
        it = self.vref(name, ty)
        n = 1 if step is None else step
        var = V("Symbol", L.S("SymbolSpan", vref=it))
        kind = "Double" if double else "Integer"
        end = V("LessEqual" if n > 0 else "GreaterEqual", L.S("BinaryOpSpan", lhs=var, rhs=E("to")))
        nxt = V("Add", L.S("BinaryOpSpan", lhs=var, rhs=V(kind, L.S(kind + "Span", value=("c", n)))))
        t = V("For", L.S("ForSpan", iter=it, iter_double=("c", int(double)), start=E("start"), end=end, next=nxt, body=trees(body)))
        vt = V("Integer") if ty is None else V(ty)

        def m(M):
            try:
                M.trace.append(("eval", E("start"), vt))
                while M.guard(end):
                    M.block(means(body))
                    M.trace.append(("eval", nxt, vt))
            except ExitFor:
                pass
        toks = ["For", ("name", name, ty) if ty else ("name", name), "Equal", "$start", "To", "$to"]
        if step is not None:
            toks += ["Step"] + (["Minus"] if step < 0 else []) + [V(kind, ("c", abs(step)))]
        return Construct(t, toks + ["Eol"] + source(body) + ["Next"], m)

    def exit(self, kind):
        def m(M):
            raise {"ExitDo": ExitDo, "ExitFor": ExitFor}[kind]()
        return Construct(V(kind, self.lab.S("ExitSpan")), ["Exit", kind[4:]], m)

    def end(self, code=None):
        t = V("End", self.lab.S("EndSpan", code=V("None") if code is None else V("Some", code)))

        def m(M):
            if code is not None:
                M.trace.append(("eval", code, V("Integer")))
            M.trace.append(("do", "End", ("const", ("c", 0)) if code is None else ("value", code)))
            raise Stop()
        return Construct(t, ["End"] + ([] if code is None else [T(code)]), m)

    def select(self, cases, test_type="Integer", rhs=lambda e: "Integer"):
        """cases: [(guards, body)]; guards: [("Is", relop, expr) | ("=", expr) | ("To", from, to)]"""
        L = self.lab
        cs = []
        toks = ["Select", "Case", "$selected", "Eol"]
        for gs, body in cases:
            gt = []
            for g in gs:
                gt += (["Comma"] if gt else []) + (["Is", g[1], T(g[2])] if g[0] == "Is" else [T(g[1])] if g[0] == "=" else [T(g[1]), "To", T(g[2])])
            toks += ["Case"] + (gt or ["Else"]) + ["Eol"] + source(body)
        cases = [([("Is", "Equal", g[1]) if g[0] == "=" else g for g in gs], body) for gs, body in cases]
        for gs, body in cases:
            cs.append(L.S("CaseSpan", guards=vec(*[V("Is", V(g[1]), g[2]) if g[0] == "Is" else V("To", g[1], g[2]) for g in gs]), body=trees(body)))
        t = V("Select", L.S("SelectSpan", expr=E("selected"), cases=vec(*cs)))

        def rel(M, op, e):
            # The comparison of the selected value with e, like the expression compiler does it.
            rt = rhs(e)
            M.trace.append(("eval", e))
            conv, opc, _res = expected(op, test_type, rt)
            x, y = ("value", E("selected")), ("value", e)
            return (opc, ("double", x) if "l" in conv else x, ("double", y) if "r" in conv else y)

        def m(M):
            M.trace.append(("eval", E("selected")))
            for gs, body in cases:
                hit = not gs
                for g in gs:
                    if g[0] == "Is":
                        v = rel(M, g[1], g[2])
                    else:
                        a = rel(M, "GreaterEqual", g[1])
                        b = rel(M, "LessEqual", g[2])
                        v = ("BitwiseAnd", a, b)
                    if M.test(v):
                        hit = True
                        break
                if hit:
                    M.block(means(body))
                    return
        return Construct(t, toks + ["End", "Select"], m)


def leaves(v):
    """Parsed statements with GOTOs as the opaque statements they stand for."""
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "v" and v[1] == "Goto":
        t = v[2][0][2] if v[2] and v[2][0] is not None and v[2][0][0] == "v" else ()
        n = [x for x in t if x is not None and x[0] == "s"]
        if len(n) == 1:
            return ("sym", "stmt", n[0][1])
        return None
    if isinstance(v, tuple):
        return tuple(leaves(x) for x in v)
    return v


def run(ctx):
    ctx.rule(
        "for every control-flow construct with opaque conditions and sub-statements, the code derived by abstract interpretation of the statement compiler goes, for every sequence of "
        "condition outcomes up to the bound, through exactly the evaluations, tests and sub-statements that the construct's meaning gives"
    )
    ctx.assume("sub-statements and expressions are opaque: constructs are decided separately and compose by structural induction")
    lab = Lab(ctx)
    if not lab.ok:
        return
    par = syntax.Parser(ctx)
    if not par.ok:
        return
    Bd = Builder(lab, par.vref)
    depth = 7 if ctx.tier == "thorough" else 4

    def written(key, what, toks, meaning, d):
        """The construct from its source."""
        ctx.count("sources")
        res = par.parse(toks)
        if meaning is None:
            if any(k == "ok" for k, _ in res) or not res:
                bad = False
                for k, stmts in res:
                    if k == "ok" and any(ok is True for ok, _cx, _st in lab.compile(leaves(stmts))):
                        bad = True
                if bad or not res:
                    ctx.violation("source:" + key, "%s is accepted" % what, par.entry.loc())
            elif any(k == "panic" for k, _ in res):
                ctx.violation("source:" + key, "%s crashes the parser" % what, par.entry.loc())
            return
        if len(res) != 1 or next(iter(res))[0] != "ok":
            ctx.violation("source:" + key, "%s is parsed with the outcome %s" % (what, "/".join(sorted(k for k, _ in res))), par.entry.loc())
            return
        compare(ctx, lab, "source:" + key, what, list(leaves(next(iter(res))[1])), meaning, d)

    def check(key, what, x, d=depth, src=True, **kw):
        compare(ctx, lab, key, what, [x.tree], x.mean, d, **kw)
        if src:
            written(key, what, x.toks, x.mean, d)
            if key in ("while", "for", "select:to"):
                # What follows it is not part of it.
                written(key + ":next", what + " followed by a statement", x.toks + ["Eol", "Eol", "Goto", "@after"], lambda M: (x.mean(M), M.block([B("after")])), d)

    G, b1, b2, b3 = [E("cond%d" % i) for i in range(4)], B("s1"), B("s2"), B("s3")
    for nb in (1, 2, 3):
        for size in (0, 1, 2):
            for last in (False, True) if nb > 1 else (False,):
                x = Bd.if_([(None if last and i == nb - 1 else G[i], [B("s%d%d" % (i, k)) for k in range(size)]) for i in range(nb)])
                check("if:%d:%d:%d" % (nb, size, last), "an IF with %d branches of %d statements%s" % (nb, size, " and ELSE" if last else ""), x)
    for i, (x, y) in enumerate(((b1, None), (b1, b2), (None, b2), (b1, "empty"))):
        check("ifline:%d" % i, "an IF in one line (form %d)" % i, Bd.if_line(G[0], x, y))
    check("while", "a WHILE loop", Bd.while_(G[0], [b1, b2]))
    check("while:empty", "an empty WHILE loop", Bd.while_(G[0], []))
    kinds = ("Infinite", "PreUntil", "PreWhile", "PostUntil", "PostWhile")
    variants = [v["name"] for v in ctx.P.adts[AST + "DoGuard"]["variants"]]
    if set(variants) != set(kinds):
        ctx.violation("unknown:do", "no rule for the DO guards %s" % sorted(set(variants) - set(kinds)))
    for k in kinds:
        g = None if k == "Infinite" else G[0]
        inner_if = Bd.if_([(G[1], [b1, Bd.exit("ExitDo")])])
        if g is not None:
            check("do:%s" % k, "a DO loop (%s)" % k, Bd.do(k, g, [b1, b2]))
        check("do:%s:exit" % k, "a DO loop (%s) with EXIT DO" % k, Bd.do(k, g, [inner_if, b2]))
        check("do:%s:exits" % k, "a DO loop (%s) with two EXIT DO" % k, Bd.do(k, g, [inner_if, b2, Bd.if_([(G[2], [Bd.exit("ExitDo")]), (G[3], [b3])])]))
        # Exits leave the innermost loop of their kind.
        check("do:%s:nested" % k, "nested DO loops (%s) with EXIT DO in both" % k,
              Bd.do("PreWhile", G[2], [Bd.do(k, g, [inner_if]), Bd.if_line(G[3], Bd.exit("ExitDo")), b2]))
        check("do:%s:in-for" % k, "a DO loop (%s) within FOR with EXIT FOR in it" % k,
              Bd.for_([Bd.do(k, g, [Bd.if_([(G[1], [Bd.exit("ExitFor")])]), Bd.if_([(G[2], [Bd.exit("ExitDo")])])]), b2]))
    for step, double in ((None, False), (1, False), (3, False), (-1, False), (-4, False), (0.5, True), (-0.25, True)):
        for ty in (None, "Integer", "Double"):
            if (double or ty == "Double") and ty != "Integer":
                lab.types = {"i": "Double"}
            check("for:%s:%s" % (step, ty), "a FOR loop%s%s" % ("" if step is None else " with step %s" % step, "" if ty is None else " over a %s" % ty),
                  Bd.for_([b1, b2], step, double, "i", ty if ty or not double else None), 3) if not (double and ty is None) else None
            lab.types = {}
    check("for", "a FOR loop", Bd.for_([b1, b2]))
    check("for:empty", "an empty FOR loop", Bd.for_([]))
    check("for:exit", "a FOR loop with EXIT FOR", Bd.for_([b1, Bd.if_([(G[1], [Bd.exit("ExitFor")]), (G[2], [b2, Bd.exit("ExitFor")])]), b3]))
    check("for:nested", "nested FOR loops with EXIT FOR", Bd.for_([Bd.for_([Bd.if_([(G[1], [Bd.exit("ExitFor")])])], name="j"), Bd.if_([(G[2], [Bd.exit("ExitFor")])])]))
    check("for:do", "a FOR loop within DO with EXIT DO in it", Bd.do("PreUntil", G[0], [Bd.for_([b1, Bd.if_([(G[1], [Bd.exit("ExitDo")])])]), b2]))
    # END stops the program wherever it is.
    for code in (None, E("code")):
        n = "" if code is None else " with a code"
        k = "plain" if code is None else "code"
        for o, mk in (("top", lambda s: s), ("if", lambda s: Bd.if_([(G[0], [s]), (G[1], [b1, s]), (None, [s, b2])])), ("while", lambda s: Bd.while_(G[0], [s, b1])),
                      ("do", lambda s: Bd.do("PostUntil", G[0], [b1, s, b2])), ("for", lambda s: Bd.for_([s])), ("ifline", lambda s: Bd.if_line(G[0], s, b2)),
                      ("ifline2", lambda s: Bd.if_line(G[0], b1, s)),
                      ("select", lambda s: Bd.select([([("=", ge0)], [s]), ([("=", ge0)], [b1, s, b2]), ([], [s])]))):
            ge0 = E("g")
            check("end:%s:%s" % (k, o), "END%s in %s" % (n, o.upper()), mk(Bd.end(code)))
    for k in ("ExitDo", "ExitFor"):
        s = V(k, lab.S("ExitSpan"))
        compare(ctx, lab, "misplaced:" + k, "%s outside of a loop" % k, [s], None)
        other = Bd.for_([Bd.exit("ExitDo")]) if k == "ExitDo" else Bd.do("PreWhile", G[0], [Bd.exit("ExitFor")])
        compare(ctx, lab, "misplaced2:" + k, "%s in a loop of another kind" % k, [other.tree], None)
        done = Bd.for_([]) if k == "ExitFor" else Bd.do("PreWhile", G[0], [])
        compare(ctx, lab, "after:" + k, "%s after a loop" % k, [done.tree, s], None)
    # SELECT CASE.
    ge = [E("g%d" % i) for i in range(5)]
    for op in RELOPS:
        check("select:" + op, "a SELECT with CASE IS %s" % op, Bd.select([([("Is", op, ge[0])], [b1])]))
    check("select:value", "a SELECT with CASE and a value", Bd.select([([("=", ge[0])], [b1])]))
    check("select:to", "a SELECT with a range", Bd.select([([("To", ge[0], ge[1])], [b1])]))
    check("select:none", "a SELECT without cases", Bd.select([]))
    check("select:else", "a SELECT with only CASE ELSE", Bd.select([([], [b1, b2])]))
    for n in (2, 3):
        cs = [([("=", ge[i])], [B("c%d" % i)]) for i in range(n)]
        check("select:%d" % n, "a SELECT with %d cases" % n, Bd.select(cs))
        check("select:%d:else" % n, "a SELECT with %d cases and CASE ELSE" % n, Bd.select(cs + [([], [b3])]))
        check("select:%d:empty" % n, "a SELECT with %d empty cases" % n, Bd.select([(g, []) for g, _b in cs] + [([], [b3])]))
    check("select:multi", "a SELECT with several guards per case", Bd.select([
        ([("=", ge[0]), ("To", ge[1], ge[2]), ("Is", "Greater", ge[3])], [b1, b2]), ([("Is", "Less", ge[4])], [b3]), ([], [B("s4")])]))
    check("select:in-do", "a SELECT with EXIT DO in a case", Bd.do("PreWhile", G[0], [Bd.select([([("Is", "Equal", ge[0])], [Bd.exit("ExitDo")]), ([], [b1])]), b2]))
    for tt in TYPES:
        for rt in TYPES:
            for op in RELOPS:
                lab.exprtype = lambda e: tt if e == E("selected") else rt
                sup = expected(op, tt, rt) is not None
                x = Bd.select([([("Is", op, ge[0])], [b1])], tt, lambda e: rt)
                ctx.count("select_types")
                compare(ctx, lab, "select:%s:%s:%s" % (op, tt, rt), "a SELECT of a %s with CASE IS %s a %s" % (tt, op, rt), [x.tree], x.mean if sup else None, 1)
            sup = expected("LessEqual", tt, rt) is not None
            x = Bd.select([([("To", ge[0], ge[1])], [b1])], tt, lambda e: rt)
            compare(ctx, lab, "select:to:%s:%s" % (tt, rt), "a SELECT of a %s with a range of %s" % (tt, rt), [x.tree], x.mean if sup else None, 1)
    lab.exprtype = lambda e: "Integer"
    # Blocks that do not close, or close as something else.
    opens = {"If": ["If", "$a", "Then", "Eol"], "While": ["While", "$a", "Eol"], "Do": ["Do", "Eol"], "For": ["For", ("name", "i"), "Equal", "$a", "To", "$b", "Eol"],
             "Select": ["Select", "Case", "$a", "Eol", "Case", "$b", "Eol"]}
    closes = {"If": ["End", "If"], "While": ["Wend"], "Do": ["Loop"], "For": ["Next"], "Select": ["End", "Select"]}
    body = ["Goto", "@s", "Eol"]
    for o in opens:
        written("open:" + o, "a %s block that is never closed" % o.upper(), opens[o] + body, None, 0)
        written("stray:" + o, "a stray end of a %s block" % o.upper(), body + closes[o], None, 0)
        for o2 in opens:
            if o2 != o:
                written("cross:%s:%s" % (o, o2), "a %s block closed like a %s block" % (o.upper(), o2.upper()), opens[o] + body + closes[o2], None, 0)
                written("overlap:%s:%s" % (o, o2), "overlapping %s and %s blocks" % (o.upper(), o2.upper()), opens[o] + opens[o2] + body + closes[o] + ["Eol"] + closes[o2], None, 0)
    If = opens["If"]
    for name, what, toks in (
            ("else2", "a second ELSE", If + body + ["Else", "Eol"] + body + ["Else", "Eol"] + body + closes["If"]),
            ("elseif", "an ELSEIF after ELSE", If + body + ["Else", "Eol"] + body + ["Elseif", "$b", "Then", "Eol"] + body + closes["If"]),
            ("then", "an IF without THEN", ["If", "$a", "Eol"] + body + closes["If"]),
            ("then2", "an ELSEIF without THEN", If + ["Elseif", "$b", "Eol"] + body + closes["If"]),
            ("nocond", "an IF without condition", ["If", "Then", "Eol"] + body + closes["If"]),
            ("caseelse", "a CASE after CASE ELSE", opens["Select"] + ["Case", "Else", "Eol"] + body + ["Case", "$c", "Eol"] + body + closes["Select"]),
            ("caseelse2", "a second CASE ELSE", opens["Select"] + ["Case", "Else", "Eol"] + body + ["Case", "Else", "Eol"] + body + closes["Select"]),
            ("caseelse3", "CASE ELSE with a value", opens["Select"] + ["Case", "$c", "Comma", "Else", "Eol"] + body + closes["Select"]),
            ("nocase", "a statement before the first CASE", ["Select", "Case", "$a", "Eol"] + body + ["Case", "$c", "Eol"] + closes["Select"]),
            ("relop", "CASE IS without a comparison", ["Select", "Case", "$a", "Eol", "Case", "Is", "Plus", "$b", "Eol"] + closes["Select"]),
            ("guards", "a DO loop with conditions at both ends", ["Do", "While", "$a", "Eol"] + body + ["Loop", "Until", "$b"]),
            ("step0", "a FOR loop with step 0", ["For", ("name", "i"), "Equal", "$a", "To", "$b", "Step", V("Integer", ("c", 0)), "Eol"] + body + ["Next"]),
            ("step0d", "a FOR loop with step 0.0", ["For", ("name", "i"), "Equal", "$a", "To", "$b", "Step", V("Double", ("c", 0.0)), "Eol"] + body + ["Next"]),
            ("step0m", "a FOR loop with step -0.0", ["For", ("name", "i"), "Equal", "$a", "To", "$b", "Step", "Minus", V("Double", ("c", 0.0)), "Eol"] + body + ["Next"]),
            ("stepmin", "a FOR loop with a step that cannot be represented", ["For", ("name", "i"), "Equal", "$a", "To", "$b", "Step", "Minus", V("Integer", ("c", -2**31)), "Eol"] + body + ["Next"]),
            ("stepx", "a FOR loop whose step is not a literal", ["For", ("name", "i"), "Equal", "$a", "To", "$b", "Step", "$c", "Eol"] + body + ["Next"]),
            ("forbool", "a FOR loop over a text variable", ["For", ("name", "i", "Text"), "Equal", "$a", "To", "$b", "Eol"] + body + ["Next"]),
            ("exit", "EXIT of something that cannot be exited", ["Do", "Eol", "Exit", "While", "Eol", "Loop"])):
        written("bad:" + name, what, toks, None, 0)
    ctx.floor("sources", 100)
    ctx.floor("constructs", 100)
    ctx.floor("traces", 800)
