"""C07: expressions are grouped as the precedence rules and parentheses say.

Abstract interpretation of the expression parser over token shapes: operands are symbolic, operators
enumerate all pairs (pairs decide every chain because the parser only ever compares the operator on
top of its stack with the incoming one); the resulting tree is compared with the one the rules give."""

import itertools

import absint
from checks.c06 import CORE, EXPR, V, show_v

TOKEN = CORE + "::lexer::Token"
# Incoming token, tree node, precedence (higher binds tighter).
BINARY = {
    "Exponent": ("Power", 6),
    "Multiply": ("Multiply", 4), "Divide": ("Divide", 4), "Modulo": ("Modulo", 4),
    "Plus": ("Add", 3), "Minus": ("Subtract", 3),
    "ShiftLeft": ("ShiftLeft", 2), "ShiftRight": ("ShiftRight", 2),
    "Equal": ("Equal", 1), "NotEqual": ("NotEqual", 1), "Less": ("Less", 1), "LessEqual": ("LessEqual", 1),
    "Greater": ("Greater", 1), "GreaterEqual": ("GreaterEqual", 1),
    "And": ("And", 0), "Or": ("Or", 0), "Xor": ("Xor", 0),
}
UNARY = {"Minus": ("Negate", 5), "Not": ("Not", 5)}
OPERANDS = ("Boolean", "Double", "Integer", "Text", "Symbol")
REPR = ("Exponent", "Modulo", "Minus", "ShiftLeft", "LessEqual", "Xor")


class Bad(Exception):
    pass


def reference(toks):
    """The tree that the rules give: precedence climbing, left associative, prefix operators bind the
    operators that are tighter than themselves.  Raises Bad for what is not an expression."""
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def primary():
        t = peek()
        if t is None:
            raise Bad()
        pos[0] += 1
        if isinstance(t, tuple):
            return t
        if t in UNARY:
            name, p = UNARY[t]
            return (name, climb(primary(), p + 1))
        if t == "LeftParen":
            e = climb(primary(), 0)
            if peek() != "RightParen":
                raise Bad()
            pos[0] += 1
            return e
        raise Bad()

    def climb(lhs, minp):
        while True:
            t = peek()
            if t not in BINARY or BINARY[t][1] < minp:
                return lhs
            pos[0] += 1
            name, p = BINARY[t]
            rhs = climb(primary(), p + 1)
            lhs = (name, lhs, rhs)

    e = climb(primary(), 0)
    if peek() == "RightParen":
        return e  # belongs to the caller
    if peek() is not None:
        raise Bad()
    return e


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = P = ctx.P
        self.ok = True
        cands = [b for b in P.bodies(crates={CORE}, kinds=("method",)) if "parser::Parser" in (b.impl_self or "") and b.locals[0].startswith("core::result::Result<core::option::Option<" + EXPR)]
        if len(cands) != 1 or not ctx.anchor(P.adts.get(TOKEN), "the tokens"):
            ctx.violation("anchor:parser", "expected one expression parser, found %s" % [b.id for b in cands])
            self.ok = False
            return
        self.b = cands[0]
        ts = P.adts.get(CORE + "::lexer::TokenSpan")
        self.tsf = [f[0] for f in ts["variants"][0]["fields"]]
        self.tokens = {v["name"]: len(v["fields"]) for v in P.adts[TOKEN]["variants"]}
        self.fields = {n: [f[0] for f in P.adts[CORE + "::ast::" + n]["variants"][0]["fields"]] for n in ("BinaryOpSpan", "UnaryOpSpan")}
        self.args = [b for b in P.bodies(crates={CORE}, kinds=("method",)) if "parser::Parser" in (b.impl_self or "") and b.locals[0].startswith("core::result::Result<alloc::vec::Vec<" + CORE + "::ast::ArgSpan")]
        self.stop = {b.id for b in self.args} | {self.b.id}
        self.body = P.inlined(self.b, lambda c, cb: cb.crate == CORE and cb.file == self.b.file and cb.id not in self.stop, 6)
        ctx.count("blocks", len(self.body.blocks))

    def span(self, t, k):
        if isinstance(t, tuple):
            tok = V(t[2] if len(t) > 2 else "Integer", t)
        else:
            tok = V(t)
        return ("v", "TokenSpan", tuple(tok if f == "token" else ("sym", "pos", k) for f in self.tsf))

    def parse(self, toks, first=None):
        """{tree or None}: results of the parser on the token shape, with the position it stops at."""
        toks = list(toks) + ["Eof"]

        def hook(c, args, st, ai, env):
            n = c.name
            if "lexer::PeekableLexer" in c.path or "lexer::Lexer" in c.path:
                k = min(st, len(toks) - 1)
                s = self.span(toks[k], k)
                if n == "peek":
                    return [(V("Ok", s), st)]
                if n == "consume_peeked":
                    return [(s, st + 1)]
                if n == "read":
                    return [(V("Ok", s), st + 1)]
                return None
            if c.resolved in self.stop and c.resolved != self.b.id:
                # `(` args `)` of a call: one pseudo token.
                return [(V("Ok", ("sym", "args")), st + 1)]
            return None
        ai = absint.Interp(self.body, hook, 20000)
        env = {}
        for i in range(2, self.b.argc + 1):
            env[i] = V("None") if first is None else V("Some", first)
        ai.run(env0=env, st0=0)
        self.ctx.count("abstract_states", getattr(ai, "explored", 0))
        if ai.overflow:
            raise Exception("the expression parser is too complex to analyse on %s" % (toks,))
        out = set()
        for v, st in ai.rets:
            if v is None or v[0] != "v":
                out.add(("unknown", st))
            elif v[1] == "Err":
                out.add(("error", None))
            else:
                o = v[2][0] if v[2] else None
                if o is None or o[0] != "v":
                    out.add(("unknown", st))
                elif o[1] == "None":
                    out.add((None, st))
                else:
                    out.add((self.tree(o[2][0]), st))
        for _bb, _st, sure, c in ai.dead:
            if sure:
                out.add(("panic", None))
        return out

    def tree(self, e):
        if e is None or e[0] != "v":
            return ("?",)
        p = e[2][0] if e[2] else None
        if p is not None and p[0] == "v" and p[1] in self.fields:
            names = self.fields[p[1]]
            d = dict(zip(names, p[2]))
            if p[1] == "BinaryOpSpan":
                return (e[1], self.tree(d["lhs"]), self.tree(d["rhs"]))
            return (e[1], self.tree(d["expr"]))
        if e[1] in OPERANDS and p is not None and p[0] == "v" and p[2] and p[2][0] is not None and p[2][0][0] == "sym":
            return p[2][0] if (p[2][0][2] if len(p[2][0]) > 2 else "Integer") == e[1] else ("?", e[1])
        if e[1] == "Call":
            return ("call", next((x for x in p[2] if x and x[0] == "sym" and len(x) > 2 and x[2] == "Symbol"), None), ("sym", "args") in p[2])
        return ("?", e[1])


def text(toks):
    names = {v: k for k, v in {"+": "Plus", "-": "Minus", "*": "Multiply", "/": "Divide", "^": "Exponent", "=": "Equal", "<>": "NotEqual", "<": "Less", "<=": "LessEqual",
                               ">": "Greater", ">=": "GreaterEqual", "<<": "ShiftLeft", ">>": "ShiftRight", "MOD": "Modulo", "(": "LeftParen", ")": "RightParen"}.items()}
    return " ".join(t[1] if isinstance(t, tuple) else names.get(t, t.upper()) for t in toks)


def treetext(t):
    if t is None:
        return "nothing"
    if isinstance(t, str):
        return t
    if t[0] == "sym":
        return t[1]
    return "%s(%s)" % (t[0], ", ".join(treetext(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


A, B, C, D = (("sym", x) for x in "abcd")
F, G = (("sym", x, "Symbol") for x in "fg")


def run(ctx):
    ctx.rule(
        "for every pair of operators, with and without unary operators and parentheses, the abstractly interpreted expression parser builds the tree that precedence climbing "
        "with the levels ^ / unary minus, NOT / * / MOD / + - / << >> / comparisons / AND OR XOR (left associative) gives; token shapes that are no expression are rejected"
    )
    W = World(ctx)
    if not W.ok:
        return
    missing = [t for t in list(BINARY) + list(UNARY) if t not in W.tokens]
    if missing:
        ctx.violation("anchor:tokens", "there are no tokens %s" % missing)
        return
    shapes = []
    ops = list(BINARY)
    for o in ops:
        shapes.append((A, o, B))
        for u in UNARY:
            shapes.append((u, A, o, B))
            shapes.append((A, o, u, B))
    for u in UNARY:
        shapes.append((u, A))
        for u2 in UNARY:
            shapes.append((u, u2, A))
    for o1, o2 in itertools.product(ops, ops):
        shapes.append((A, o1, B, o2, C))
    rep = ops if ctx.tier == "thorough" else REPR
    for o1, o2 in itertools.product(rep, rep):
        shapes.append(("LeftParen", A, o1, B, "RightParen", o2, C))
        shapes.append((A, o1, "LeftParen", B, o2, C, "RightParen"))
        for u in UNARY:
            shapes.append((A, o1, u, B, o2, C))
            shapes.append((u, "LeftParen", A, o1, B, "RightParen", o2, C))
    for o1, o2, o3 in itertools.product(REPR, REPR, REPR):
        if ctx.tier == "thorough" or (REPR.index(o1) + REPR.index(o2) * 2 + REPR.index(o3)) % 3 == 0:
            shapes.append((A, o1, B, o2, C, o3, D))
    for k in OPERANDS:
        x = ("sym", "x", k)
        shapes += [(x,), (x, "Plus", B), (A, "Plus", x), ("Minus", x), ("LeftParen", x, "RightParen"), ("Not", "LeftParen", x, "RightParen", "And", x)]
    # Names followed by parentheses that do not belong to them.
    for o in ops:
        shapes += [(F, o, "LeftParen", B, "RightParen"), (F, o, "LeftParen", G, "RightParen", o, A), (A, o, F, o, "LeftParen", B, o, C, "RightParen"),
                   ("LeftParen", F, o, "LeftParen", A, "RightParen", "RightParen")]
    for u in UNARY:
        shapes += [(F, "And", u, "LeftParen", B, "RightParen"), (u, "LeftParen", "LeftParen", F, "RightParen", "RightParen")]
    # Shapes that are not expressions.
    bad = [(A, B), ("LeftParen", A), ("LeftParen", A, "RightParen", B), (A, "LeftParen", B, "RightParen"), ("LeftParen", "RightParen"),
           ("LeftParen", A, "RightParen", "LeftParen", B, "RightParen")]
    for o in ops:
        if o not in UNARY:
            bad.append((o, A))
            bad.append((A, o, o, B))
            bad.append(("LeftParen", o, A, "RightParen"))
        bad.append((A, o))
        bad.append((A, o, B, o))
        bad.append((A, o, "LeftParen", "RightParen"))
    for u in UNARY:
        bad.append((u,))
        bad.append((A, "Plus", u))
        bad.append((A, "Plus", "LeftParen", u, "RightParen", B))
    bad.append((A, "Not", B))
    bad.append((A, "Not"))
    bad.append((A, "Plus", B, "Not", C))
    for s in shapes + bad:
        try:
            want = reference(s)
        except Bad:
            want = "error"
        got = W.parse(s)
        trees = {t for t, _ in got}
        ctx.count("shapes")
        if want == "error":
            ctx.count("malformed_shapes")
            if trees <= {"error", None} and trees:
                continue  # no expression comes out of it
        if trees != {want}:
            ctx.violation("tree:" + text(s), "`%s` is parsed as %s instead of %s" % (
                text(s), " or ".join(sorted(map(treetext, trees))), treetext(want)), W.b.loc())
        elif ctx.counts["shapes"] % 60 == 0:
            ctx.sample("%s: %s" % (text(s), treetext(want)))
    # Where an expression ends: the terminator is left for the caller.
    for t in ("Eof", "Eol", "As", "Comma", "Else", "Semicolon", "Then", "To", "Step", "RightParen"):
        if t not in W.tokens:
            continue
        got = W.parse((A, "Plus", B, t, C))
        ctx.count("terminators")
        if got != {(("Add", A, B), 3)}:
            ctx.violation("end:" + t, "an expression followed by %s is parsed as %s" % (t, sorted(map(str, got))), W.b.loc())
        got = W.parse((t,))
        if got != {(None, 0)}:
            ctx.violation("none:" + t, "%s where an expression could start is parsed as %s" % (t, sorted(map(str, got))), W.b.loc())
    for t in W.tokens:
        if t in BINARY or t in UNARY or t in ("Eof", "Eol", "As", "Comma", "Else", "Semicolon", "Then", "To", "Step", "RightParen", "LeftParen", "Bad",
                                              "Boolean", "Double", "Integer", "Text", "Symbol"):
            continue
        got = {x for x, _ in W.parse((A, t))}
        ctx.count("foreign_tokens")
        if got != {"error"}:
            ctx.violation("foreign:" + t, "%s in the middle of an expression is accepted as %s" % (t, sorted(map(str, got))), W.b.loc())
    # Calls and subscripts: a name directly followed by a parenthesis.
    for pre, post in (((), ()), ((A, "Minus"), ()), ((), ("Minus", B))):
        s = pre + (F, "LeftParen", ("sym", "args")) + post
        got = {x for x, _ in W.parse(s)}
        call = ("call", F, True)
        want = ("Subtract", A, call) if pre else ("Subtract", call, B) if post else call
        ctx.count("calls")
        if got != {want}:
            ctx.violation("call:%d%d" % (len(pre), len(post)), "a call in an expression is parsed as %s instead of %s" % (" or ".join(sorted(map(treetext, got))), treetext(want)), W.b.loc())
    # `(first) op ...` where the caller has consumed the parenthesised operand.
    firstv = V("Integer", V("IntegerSpan", A, ("sym", "pos", "x")))
    for o in ops:
        got = {x for x, _ in W.parse((o, B), firstv)}
        if got != {(BINARY[o][0], A, B)}:
            ctx.violation("first:" + o, "an operand that was already consumed followed by `%s` is parsed as %s" % (text((o, B)), " or ".join(sorted(map(treetext, got)))), W.b.loc())
    ctx.floor("shapes", 500)
    ctx.floor("malformed_shapes", 80)
    ctx.floor("foreign_tokens", 20)
