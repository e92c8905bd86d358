"""The statement parser as an object of study: abstract interpretation over scripted tokens in which
expressions are opaque."""

import frames
from checks.c06 import CORE, EXPR, V

TOKEN = CORE + "::lexer::Token"
RESULT = "core::result::Result<"


class Parser:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = P = ctx.P
        self.ok = True
        stmt = CORE + "::ast::Statement"
        nexts = [b for b in P.bodies(crates={CORE}, kinds=("method",)) if b.name == "next" and b.locals[0].startswith("core::option::Option<" + RESULT + stmt)]
        entry = [P.body(c.resolved) for b in nexts for c in b.calls() if c.resolved in P.raw and P.body(c.resolved).locals[0].startswith(RESULT + "core::option::Option<" + stmt)]
        expr = [b for b in P.bodies(crates={CORE}, kinds=("method",)) if "parser::Parser" in (b.impl_self or "") and b.locals[0].startswith(RESULT + "core::option::Option<" + EXPR)]
        if len(entry) != 1 or len(expr) != 1:
            ctx.violation("anchor:statements", "expected one statement parser and one expression parser, found %s and %s" % ([b.id for b in entry], [b.id for b in expr]))
            self.ok = False
            return
        self.entry, self.expr = entry[0], expr[0]
        self.tsf = [f[0] for f in P.adts[CORE + "::lexer::TokenSpan"]["variants"][0]["fields"]]
        self.tokens = {v["name"]: len(v["fields"]) for v in P.adts[TOKEN]["variants"]}
        vr = [f[0] for f in P.adts[CORE + "::ast::VarRef"]["variants"][0]["fields"]]
        self.vref = lambda name, ty=None: ("v", "VarRef", tuple(("s", name) if f == "name" else (V("None") if ty is None else V("Some", V(ty))) for f in vr))
        self.memo = {}

    def span(self, t):
        if t is None or t[0] != "v":
            t = V("Bad", ("s", "expression"))
        return ("v", "TokenSpan", tuple(t if f == "token" else ("sym", "pos") for f in self.tsf))

    def token(self, t):
        if isinstance(t, str):
            if t.startswith("@"):
                return V("Label", ("s", t[1:]))
            if t.startswith("$"):
                return ("sym", "expr", t[1:])
            return V(t)
        if isinstance(t, tuple) and t[0] == "name":
            return V("Symbol", self.vref(*t[1:]))
        return t

    def pick(self, c, b):
        return b.crate == CORE and (b.file == self.entry.file or (b.impl_self or "").startswith(CORE + "::ast::")) and b.id != self.expr.id

    def special(self, c, args, st, ai, env):
        return None

    def parse(self, toks, limit=60000):
        """{(kind, statements or None)}: kind is ok, error or panic."""
        key = repr(toks)
        if key in self.memo:
            return self.memo[key]
        toks = [self.token(t) for t in toks] + [V("Eof")]
        out = set()

        def hook(c, args, st, ai, env):
            if "lexer::PeekableLexer" in c.path or "lexer::Lexer" in c.path:
                k = min(st, len(toks) - 1)
                s = self.span(toks[k])
                if c.name == "peek":
                    return [(V("Ok", s), st)]
                if c.name == "consume_peeked":
                    return [(s, st + 1)]
                if c.name == "read":
                    return [(V("Ok", s), st + 1)]
                return None
            if c.resolved == self.expr.id:
                t = toks[min(st, len(toks) - 1)]
                first = ai.deep(args[1], env) if len(args) > 1 else V("None")
                if first is not None and first[0] == "v" and first[1] == "Some":
                    return [(V("Ok", V("Some", V("first", first[2][0], t if t[0] == "sym" else None))), st + (1 if t[0] == "sym" else 0))]
                if t[0] == "sym":
                    return [(V("Ok", V("Some", t)), st + 1)]
                if t[0] == "v" and t[1] in ("Symbol", "Integer", "Double", "Text", "Boolean", "LeftParen", "Minus", "Not", "Plus"):
                    return [(V("Err", ("sym", "error")), st)]
                return [(V("Ok", V("None")), st)]
            if c.name in ("start_pos", "pos") and len(args) == 1:
                return [(("sym", "pos"), st)]
            return self.special(c, args, st, ai, env)
        work = [(0, ())]
        seen = set()
        while work:
            st, acc = work.pop()
            if (st, acc) in seen:
                continue
            seen.add((st, acc))
            ai = frames.Frames(self.P, self.entry, hook, self.pick, limit)
            env = {1: ("ref", 90000, "[]"), 90000: ("sym", "parser")}
            res = ai.go(env, st)
            self.ctx.count("abstract_states", ai.steps)
            if ai.overflow:
                raise Exception("the statement parser is too complex to analyse on %s" % (key,))
            for _bb, _st, _sure, _c in ai.dead:
                out.add(("panic", None))
            for v, e, st2 in res:
                v = ai.deep(v, e)
                if v is None or v[0] != "v" or v[1] not in ("Ok", "Err"):
                    out.add(("unknown", None))
                elif v[1] == "Err":
                    out.add(("error", None))
                elif v[2][0] is not None and v[2][0][0] == "v" and v[2][0][1] == "None":
                    out.add(("ok", acc))
                elif v[2][0] is None or len(acc) > 12:
                    out.add(("unknown", None))
                else:
                    work.append((st2, acc + (v[2][0][2][0],)))
        self.memo[key] = out
        return out
