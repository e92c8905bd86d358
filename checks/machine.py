"""The machine's dispatch loop as an object of study: abstract interpretation over instruction words whose
opcode and operands are known and whose register contents are opaque."""

import frames
from checks import vm
from checks.c06 import CORE, V


class Machine:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = P = ctx.P
        d = vm.exec_dispatch(P)
        self.ok = bool(ctx.anchor(d, "the dispatch loop"))
        if not self.ok:
            return
        self.exec = d[0]
        self.cty = self.exec.locals[1].replace("&mut ", "")
        a = P.adts.get(self.cty)
        img = [t.replace("&", "") for t in self.exec.locals[1:self.exec.argc + 1] if t.endswith("::Image")]
        if not ctx.anchor(a, "the machine's context") or not ctx.anchor(img, "the machine's image"):
            self.ok = False
            return
        self.image_ty = img[0]
        self.fields = [f for f in a["variants"][0]["fields"]]
        self.names = [f[0] for f in self.fields]
        self.regs_f = [i for i, f in enumerate(self.fields) if f[1] == "alloc::vec::Vec<u64>"]
        self.stack_f = [i for i, f in enumerate(self.fields) if f[1].startswith("alloc::vec::Vec<") and f[1].endswith("Frame>")]
        self.handler_f = [i for i, f in enumerate(self.fields) if f[1].endswith("::ErrorHandler")]
        self.new = [b for b in P.bodies(crates={CORE}, kinds=("method", "fn")) if b.locals[0] == self.cty and b.argc == 1 and b.locals[1] == "usize"]
        for x, w in ((self.regs_f, "the registers"), (self.stack_f, "the call stack"), (self.handler_f, "the error handler"), (self.new, "the context's constructor")):
            if len(x) != 1:
                ctx.violation("anchor:" + w, "expected exactly one candidate for %s" % w)
                self.ok = False

    def pick(self, c, b):
        return b.crate == CORE and ("::vm::" in b.id or "::bytecode::" in b.id) and "alloc" not in (b.name or "")

    def hook(self, c, args, st, ai, env):
        a = [ai.deref(x, env) for x in args]
        w = a[0] if len(a) == 1 else None
        if w is not None and w[0] == "sym" and w[1] == "word":
            b = self.P.body(c.resolved) if c.resolved in self.P.raw else None
            if b is not None and b.crate == CORE and b.locals[1] == "u32":
                if b.locals[0] == vm.OPCODE:
                    return [(V(w[2]), st)]
                ops = w[3]
                if b.locals[0].startswith("("):
                    return [(("t", ops), st)]
                return [(ops[0] if ops else ("t", ()), st)]
        if c.name == "unchecked_usize_as_u8" and len(a) == 1:
            return [(a[0], st)]
        return self.extra(c, a, st, ai, env)

    def extra(self, c, a, st, ai, env):
        return None

    def reg(self, n):
        return ("v", "Register", (("c", n),))

    def zero(self, ty, d=0):
        P = self.P
        a = P.adts.get(ty)
        if ty.startswith("alloc::vec::Vec<"):
            return ("vec", ())
        if ty.startswith("core::option::Option<"):
            return V("None")
        if ty == "bool":
            return ("c", 0)
        if ty == "()":
            return ("t", ())
        if "HashMap<" in ty:
            return ("map", ())
        if a is not None and len(a["variants"]) == 1 and d < 4:
            return ("v", a["variants"][0]["name"], tuple(self.zero(f[1], d + 1) for f in a["variants"][0]["fields"]))
        return ("sym", "init")

    def image(self, words, flags=None):
        v = self.zero(self.image_ty)
        fs = self.P.adts[self.image_ty]["variants"][0]["fields"]
        items = list(v[2])
        for i, f in enumerate(fs):
            if f[1] == "alloc::vec::Vec<u32>":
                items[i] = ("vec", tuple(words))
            elif f[1] in self.P.adts:
                inner = self.P.adts[f[1]]["variants"][0]["fields"]
                sub = list(items[i][2])
                for j, g in enumerate(inner):
                    if g[1].startswith("alloc::vec::Vec<") and g[1].endswith("InstrMetadata>"):
                        mt = g[1][len("alloc::vec::Vec<"):-1]
                        m = self.P.adts[mt]["variants"][0]["fields"]
                        sub[j] = ("vec", tuple(("v", "InstrMetadata", tuple(("c", int(bool(flags and flags[k]))) if x[1] == "bool" else ("vec", ()) if x[1].startswith("alloc::vec") else ("sym", "pos")
                                                                            for x in m)) for k in range(len(words))))
                items[i] = ("v", items[i][1], tuple(sub))
        return ("v", v[1], tuple(items))

    def word(self, op, *a):
        return ("sym", "word", op, tuple(a))

    def initial(self, limit):
        """The state that the constructor makes, with opaque registers."""
        ai = frames.Frames(self.P, self.new[0], self.hook, self.pick, 20000)
        r = ai.go({1: ("c", limit)}, ())
        if len(r) != 1 or r[0][0] is None or r[0][0][0] != "v":
            return None
        v = r[0][0]
        items = list(v[2])
        items[self.regs_f[0]] = ("vec", tuple(("sym", "r", i) for i in range(300)))
        return ("v", v[1], tuple(items))

    def run(self, context, words, flags=None, limit=50000):
        """[(stop reason, final context)]"""
        env = {90000: context, 90001: self.image(words, flags), 90002: ("sym", "heap")}
        for i in range(1, self.exec.argc + 1):
            t = self.exec.locals[i]
            env[i] = ("ref", 90000 if t.endswith(self.cty) else 90001 if t.endswith(self.image_ty) else 90002, "[]")
        ai = frames.Frames(self.P, self.exec, self.hook, self.pick, limit)
        res = ai.go(env, ())
        self.ctx.count("machine_states", ai.steps)
        out = [(ai.deep(v, e), e.get(90000)) for v, e, _st in res]
        if ai.overflow:
            out.append((("sym", "overflow"), None))
        for _bb, _st, _sure, _c in ai.dead:
            out.append((("sym", "panic"), None))
        return out

    def get(self, cx, i):
        return cx[2][i] if cx is not None and cx[0] == "v" else None

    def usizes(self, cx):
        """The program counter and frame pointer: (by field name)."""
        return {n: self.get(cx, i) for i, n in enumerate(self.names)}


def rules(ctx, key="machine"):
    """The machine's transfer, frame and handler rules, each as a tiny program of instruction words."""
    m = Machine(ctx)
    if not m.ok:
        return None
    P, w, reg = m.P, m.word, m.reg
    base = m.initial(2)
    if not ctx.anchor(base is not None or None, "the machine's initial state"):
        return None
    rf = m.regs_f[0]
    loc = m.exec.loc()
    G, L = (lambda i: reg(i)), (lambda i: reg(64 + i))
    k = lambda n: ("c", n)
    load = lambda r, n: w("LoadInteger", r, k(n))

    def go(name, what, words, want_stop, want_regs, regs=None, stack=0, flags=None, start=base, handler=None):
        ctx.count("machine_rules")
        items = list(start[2])
        if regs:
            rs = list(items[rf][1])
            for i, v in regs.items():
                rs[i] = v
            items[rf] = ("vec", tuple(rs))
        st0 = ("v", start[1], tuple(items))
        # Yields only pause the execution: continue from them.
        outs, todo = [], [st0]
        for _ in range(12):
            if not todo:
                break
            nxt = []
            for cx in todo:
                for r, c in m.run(cx, words, flags):
                    if r is not None and r[0] == "v" and r[1] == "Yield" and c is not None:
                        nxt.append(c)
                    else:
                        outs.append((r, c))
            todo = nxt
        if todo:
            outs.append((("sym", "unending"), None))
        if len(outs) != 1:
            ctx.violation("%s:%s" % (key, name), "%s has %d outcomes" % (what, len(outs)), loc)
            return None
        r, c = outs[0]
        stop = r[1] if r is not None else None
        diff = {}
        if c is not None:
            diff = {i: x for i, (x, y) in enumerate(zip(c[2][rf][1], items[rf][1])) if x != y}
        depth = len(m.get(c, m.stack_f[0])[1]) if c is not None and m.get(c, m.stack_f[0]) is not None else None
        if stop != want_stop:
            ctx.violation("%s:%s" % (key, name), "%s ends with %s instead of %s" % (what, stop, want_stop), loc)
        elif diff != want_regs:
            ctx.violation("%s:%s" % (key, name), "%s changes %s instead of %s" % (what, sayregs(diff), sayregs(want_regs)), loc)
        elif depth != stack:
            ctx.violation("%s:%s" % (key, name), "%s leaves %s frames on the call stack instead of %s" % (what, depth, stack), loc)
        elif not stack and m.get(c, m.names.index("fp") if "fp" in m.names else 1) != m.get(base, m.names.index("fp") if "fp" in m.names else 1):
            ctx.violation("%s:%s" % (key, name), "%s leaves the frame pointer at another place" % what, loc)
        return c
    eof = w("Eof")
    go("jump", "a jump forward", [w("Jump", k(2)), load(G(5), 1), load(G(6), 2), eof], "Eof", {6: k(2)})
    go("jump:far", "a jump to a far address", [w("Jump", k(300))] + [load(G(5), 1)] * 299 + [load(G(6), 2), eof], "Eof", {6: k(2)})
    go("jump:back", "a jump backward", [w("Jump", k(3)), load(G(5), 1), eof, load(G(6), 2), w("Jump", k(1))], "Eof", {5: k(1), 6: k(2)})
    go("branch:false", "a conditional jump on a false condition", [w("JumpIfFalse", G(0), k(2)), load(G(5), 1), load(G(6), 2), eof], "Eof", {6: k(2)}, {0: k(0)})
    go("branch:true", "a conditional jump on a true condition", [w("JumpIfFalse", G(0), k(2)), load(G(5), 1), load(G(6), 2), eof], "Eof", {5: k(1), 6: k(2)}, {0: k(1)})
    go("branch:local", "a conditional jump on a local condition", [w("JumpIfFalse", L(7), k(2)), load(G(5), 1), load(G(6), 2), eof], "Eof", {6: k(2)}, {71: k(0), 7: k(1)})
    go("gosub", "GOSUB and RETURN", [w("Gosub", k(3)), load(G(5), 1), eof, load(L(0), 7), w("Return")], "Eof", {5: k(1), 64: k(7)})
    go("gosub:nested", "nested GOSUB and RETURN", [w("Gosub", k(3)), load(G(5), 1), eof, w("Gosub", k(6)), load(G(6), 2), w("Return"), load(G(7), 3), w("Return")], "Eof", {5: k(1), 6: k(2), 7: k(3)})
    call = lambda r, t: w("Call", r, k(t))
    go("call", "a call", [call(L(5), 3), w("Move", G(1), L(5)), eof, load(L(0), 7), load(L(1), 8), load(G(9), 4), w("Return")], "Eof", {69: k(7), 70: k(8), 9: k(4), 1: k(7)})
    go("call:nested", "nested calls", [call(L(5), 2), eof, load(L(0), 7), call(L(3), 6), w("Move", G(1), L(0)), w("Return"), load(L(0), 9), load(L(1), 10), w("Return")], "Eof",
       {69: k(7), 1: k(7), 72: k(9), 73: k(10)})
    go("call:gosub", "a GOSUB within a call", [call(L(5), 2), eof, w("Gosub", k(5)), load(L(2), 4), w("Return"), load(L(1), 3), w("Return")], "Eof", {70: k(3), 71: k(4)})
    go("return", "a RETURN without a call", [load(G(5), 1), w("Return"), load(G(6), 2), eof], "Exception", {5: k(1)})
    go("deep", "exceeding the call stack", [load(G(5), 1), w("Gosub", k(2)), load(G(6), 2), w("Gosub", k(4)), load(G(7), 3), w("Gosub", k(6)), load(G(8), 4), eof], "Exception", {5: k(1), 6: k(2), 7: k(3)}, stack=2)
    go("deep:call", "exceeding the call stack with calls", [call(L(1), 1), call(L(1), 2), call(L(1), 3), load(G(8), 4), eof], "Exception", {}, stack=2)
    go("end", "END", [w("End", G(3)), load(G(6), 2), eof], "End", {}, {3: k(5)})
    # The handler modes, as set by their instruction and as used by the machine.
    a = P.adts.get(m.fields[m.handler_f[0]][1])
    modes = [x for x in P.adts if x.startswith(CORE + "::bytecode::") and x.endswith("ErrorHandlerMode")]
    hs = [b for b in P.bodies(crates={CORE}, kinds=("method",)) if b.locals[0] == "bool" and b.argc >= 3 and "&" + m.image_ty in b.locals[1:b.argc + 1] and "usize" in b.locals[1:b.argc + 1]
          and b.locals[1].startswith("&mut ")]
    if not ctx.anchor(a is not None and len(modes) == 1 or None, "the error handler modes") or not ctx.anchor(len(hs) == 1 or None, "the function that handles exceptions"):
        return m
    H = hs[0]
    vmty = H.locals[1][5:]
    vf = P.adts[vmty]["variants"][0]["fields"]
    cxi = next(i for i, f in enumerate(vf) if f[1] == m.cty)

    def handle(name, what, mode, words, flags, at, want, steps_before=()):
        """Sets the handler, then reports an exception at `at`; want: (handled, pc or None)."""
        ctx.count("machine_rules")
        cx = base
        for md, t in [(mode, 4)] + list(steps_before):
            r = m.run(cx, [w("SetErrorHandler", V(md), k(t)), eof])
            if len(r) != 1 or r[0][1] is None:
                ctx.violation("%s:%s" % (key, name), "setting an error handler has %d outcomes" % len(r), loc)
                return None
            cx = r[0][1]
        return exception(name, what, cx, words, flags, at, want)

    def exception(name, what, cx, words, flags, at, want):
        ctx.count("machine_rules")
        items = [m.zero(f[1]) for f in vf]
        items[cxi] = cx
        env = {90000: ("v", vmty.split("::")[-1], tuple(items)), 90001: m.image(words, flags)}
        for i in range(1, H.argc + 1):
            t = H.locals[i]
            env[i] = ("ref", 90000, "[]") if i == 1 else ("ref", 90001, "[]") if t.endswith(m.image_ty) else k(at) if t == "usize" else ("sym", "arg", i)
        ai = frames.Frames(P, H, m.hook, m.pick, 20000)
        res = ai.go(env, ())
        if len(res) != 1 or ai.overflow or ai.dead:
            ctx.violation("%s:%s" % (key, name), "%s has %d outcomes" % (what, len(res)), H.loc())
            return None
        v, e, _st = res[0]
        cx2 = e[90000][2][cxi]
        pc = m.get(cx2, m.names.index("pc") if "pc" in m.names else 0)
        got = (v == k(1), pc[1] if v == k(1) and pc is not None and pc[0] == "c" else None)
        if got != want:
            say = lambda g: "continues at instruction %s" % g[1] if g[0] else "stops the program"
            ctx.violation("%s:%s" % (key, name), "%s %s instead of %s" % (what, say(got), "continuing at instruction %s" % want[1] if want[0] else "stopping the program"), H.loc())
        return cx2
    words = [eof] * 8
    f = [True, False, True, False, False, True, False, False]
    handle("error:none", "an error without a handler", "None", words, f, 3, (False, None))
    cx = handle("error:jump", "an error with ON ERROR GOTO", "Jump", words, f, 3, (True, 4))
    if cx is not None:
        exception("error:jump:again", "an error in the handler itself", cx, words, f, 5, (False, None))
        r = m.run(setpc(m, cx, 0), [w("SetErrorHandler", V("Jump"), k(6)), eof])
        if len(r) == 1:
            exception("error:jump:set", "an error after the handler sets another handler", r[0][1], words, f, 1, (True, 6))
    handle("error:jump:back", "an error with ON ERROR GOTO an earlier place", "Jump", words, f, 6, (True, 4))
    for at, nxt in ((0, 2), (1, 2), (2, 5), (3, 5), (4, 5), (5, 7), (6, 7)):
        handle("error:next:%d" % at, "an error with RESUME NEXT", "ResumeNext", words, f, at, (True, nxt))
    cx = handle("error:next:many", "an error with RESUME NEXT", "ResumeNext", words, f, 0, (True, 2))
    if cx is not None:
        exception("error:next:again", "a second error with RESUME NEXT", cx, words, f, 2, (True, 5))
    # Every mode can replace every other one, whether or not a handler is running.
    prior = {"nothing": base}
    for md in ("None", "Jump", "ResumeNext"):
        r = m.run(base, [w("SetErrorHandler", V(md), k(4)), eof])
        if len(r) == 1 and r[0][1] is not None:
            prior[md] = setpc(m, r[0][1], 0)
    if "Jump" in prior:
        cx = exception("error:enter", "an error with ON ERROR GOTO", prior["Jump"], words, f, 3, (True, 4))
        if cx is not None:
            prior["a running handler"] = setpc(m, cx, 0)
    for old, cx0 in prior.items():
        for md, want in (("None", (False, None)), ("ResumeNext", (True, 5)), ("Jump", (True, 6))):
            r = [x for x in m.run(cx0, [w("SetErrorHandler", V(md), k(6)), eof]) if x[1] is not None]
            if len(r) == 1:
                exception("error:replace:%s:%s" % (old, md), "an error after replacing %s with the %s mode" % (old, md), r[0][1], words, f, 3, want)
            else:
                ctx.violation("%s:error:replace:%s:%s" % (key, old, md), "replacing the handler has %d outcomes" % len(r), loc)
    # An error within a call is handled by code of the main program, so the frame has to be undone.
    ctx.count("machine_rules")
    cx = None
    for cx0 in [x[1] for x in m.run(base, [w("SetErrorHandler", V("Jump"), k(4)), eof])]:
        for r, c in m.run(setpc(m, cx0, 0), [call(L(5), 2), eof, eof, eof, eof]):
            cx = c
    if cx is not None:
        after = exception("unwind", "an error within a call with ON ERROR GOTO", cx, words, f, 2, (True, 4))
        if after is not None:
            fp = m.names.index("fp") if "fp" in m.names else 1
            if m.get(after, fp) != m.get(base, fp) or m.get(after, m.stack_f[0]) != ("vec", ()):
                ctx.violation("%s:unwind" % key, "an error within a call leaves the call's frame in place when it runs the handler", H.loc())
    return m


def setpc(m, cx, n):
    i = m.names.index("pc") if "pc" in m.names else 0
    items = list(cx[2])
    items[i] = ("c", n)
    return ("v", cx[1], tuple(items))


def sayregs(d):
    if not d:
        return "nothing"
    return ", ".join("%s%d to %s" % ("local " if i >= 64 else "global ", i - 64 if i >= 64 else i, v[1] if v is not None and v[0] == "c" else v) for i, v in sorted(d.items()))
