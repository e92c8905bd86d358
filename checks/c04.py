"""C04: a running program always stays interruptible.

Every way the virtual machine can execute the same code again (backward jumps, returns, error
handlers that jump backwards) requests a yield; a requested yield is delivered at the next statement;
the host polls for the interrupt after every yield and after every asynchronous command, and an
interrupt ends execution without running anything else.
"""

from checks import vm
from mirlib import Body, alts, fmt, flatten, peel, ret_sites, specialise, strip_var, walk

CONTEXT = "endbasic_core::vm::context::Context"


def is_pc(e):
    e = peel(e)
    while e[0] == "cast":
        e = peel(e[2])
    k = flatten(e)
    return k is not None and len(k) == 2 and k[0] == ("arg", 1) and k[1] == "pc"


def is_target(e):
    e = peel(e)
    while e[0] == "cast":
        e = peel(e[2])
    if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("unchecked_from", "from", "into") and e[2]:
        return is_target(e[2][0])
    return vm.operand(e) is not None


CMP = {
    # (op, target side is left) -> {relation of target to old pc: value}
    "Le": {"lt": 1, "eq": 1}, "Lt": {"lt": 1, "eq": 0}, "Ge": {"lt": 0, "eq": 1}, "Gt": {"lt": 0, "eq": 0},
    "Eq": {"lt": 0, "eq": 1}, "Ne": {"lt": 1, "eq": 0},
}
SWAP = {"Le": "Ge", "Lt": "Gt", "Ge": "Le", "Gt": "Lt", "Eq": "Eq", "Ne": "Ne"}


def order_oracle(rel, tgt, pc):
    def f(e):
        e = strip_var(e)
        neg = 0
        while e[0] == "un" and e[1] == "Not":
            e, neg = strip_var(e[2]), 1 - neg
        if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("le", "lt", "ge", "gt", "eq", "ne") and len(e[2]) == 2:
            e = ("bin", e[1].rsplit("::", 1)[-1].capitalize(), e[2][0], e[2][1])
        if e[0] != "bin" or e[1] not in CMP:
            return None
        op, x, y = e[1], e[2], e[3]
        if tgt(y) and pc(x):
            op, x, y = SWAP[op], y, x
        if tgt(x) and pc(y):
            return CMP[op][rel] ^ neg
        return None

    return f


def bool_write(b, m):
    """1/0 when the memory write stores a boolean constant."""
    e = strip_var(b.x_rvalue_or_call((m[0], m[1], [], m[3], m[4]), 0))
    if e[0] == "const" and e[1] == "bool":
        return int(e[2])
    return None


def run(ctx):
    P = ctx.P
    ctx.rule(
        "every instruction or error handler that can move execution backwards requests a yield on all of its paths; "
        "with a yield requested no instruction is dispatched at a statement start; every address the compiler "
        "jumps back to starts a statement; the host polls for interrupts between any two slices of execution "
        "and an interrupt stops execution"
    )
    arms = vm.arms(P)
    if not ctx.anchor(arms, "the dispatch loop of the virtual machine"):
        return
    flag = yield_flag(ctx, arms)
    if flag is None:
        return
    check_arms(ctx, arms, flag)
    check_dispatch(ctx, P, flag)
    check_vm_exec(ctx, P)
    check_handler(ctx, P, flag)
    check_hosts(ctx, P)
    check_compiler(ctx, P)


def yield_flag(ctx, arms):
    """The boolean of the execution context that backward jumps set."""
    cand = {}
    for a in arms.values():
        for m in a.memdefs():
            k = m[2]
            if k[0] == ("arg", 1) and len(k) == 2 and bool_write(a, m) == 1:
                cand[k[1]] = cand.get(k[1], 0) + 1
    if not cand:
        ctx.violation("flag", "no instruction requests a yield", None)
        return None
    return max(sorted(cand), key=lambda f: cand[f])


def check_arms(ctx, arms, flag):
    for name, arm in sorted(arms.items()):
        kinds = set()
        ev = {}
        for m in arm.memdefs():
            k = m[2]
            if k[0] != ("arg", 1) or len(k) < 2:
                continue
            if k[1] == "pc":
                e = arm.x_rvalue_or_call((m[0], m[1], [], m[3], m[4]), 0)
                for a in alts(e):
                    kind = pc_kind(a)
                    kinds.add(kind)
                    ev.setdefault(m[0], []).append((m[1], "pc", kind))
            elif k[1] == flag and len(k) == 2:
                ev.setdefault(m[0], []).append((m[1], "flag", bool_write(arm, m)))
        for c in arm.calls():
            if c.name == "push" and c.args:
                k = flatten(arm.x_arg(c, 0))
                if k and k[0] == ("arg", 1):
                    ev.setdefault(c.bb, []).append((10**6, "push", None))
        for v in ev.values():
            v.sort(key=lambda x: x[0])
        moves = kinds - {"next"}
        if not moves:
            continue
        ctx.count("control_instructions")
        ctx.sample("%s: moves the program counter by %s" % (name, ", ".join(sorted(moves))))
        for rel in ("lt", "eq"):
            a = specialise(arm, order_oracle(rel, is_target, is_pc))
            bad = []

            def visit(bb, st):
                moved, y, pushed = st
                if bb == a.ret_block:
                    if moved and not y and not pushed:
                        bad.append(moved)
                    return None
                for _i, k, v in ev.get(bb, ()):
                    if k == "pc":
                        moved = v if v != "next" else moved
                    elif k == "flag":
                        y = v == 1
                    else:
                        pushed = True
                return (moved, y, pushed)

            a.paths(a.start, visit, (None, False, False))
            ctx.count("orderings")
            for k in sorted(set(bad)):
                ctx.violation(
                    "arm:%s:%s" % (name, rel if k == "operand" else k),
                    "instruction `%s` can move execution to %s without letting the host process a pending interrupt"
                    % (name, {"operand": "an address %s its own" % ("before" if rel == "lt" else "equal to")}.get(k, "a " + k + " address")),
                    arm.loc(),
                )
    ctx.floor("control_instructions", 5)


def pc_kind(e):
    e = peel(e)
    if e[0] == "bin" and e[1] in ("Add", "AddUnchecked"):
        x, y = peel(e[2]), peel(e[3])
        if is_pc(x) and y[0] == "const":
            return "next"
        for s in (x, y):
            k = [z for z in walk(s) if z[0] == "call" and z[1].rsplit("::", 1)[-1] in ("pop", "last", "remove", "split_off")]
            if k:
                return "return"
    if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("wrapping_add", "checked_add") and is_pc(e[2][0]):
        return "next"
    if is_target(e):
        return "operand"
    if [z for z in walk(e) if z[0] == "call" and z[1].rsplit("::", 1)[-1] in ("pop", "last", "remove", "split_off")]:
        return "return"
    return "computed"


def is_yield_stop(b, m):
    e = strip_var(b.x_rvalue_or_call((m[0], m[1], [], m[3], m[4]), 0))
    return any(x[0] == "agg" and x[2] == "Yield" for x in walk(e))


def check_dispatch(ctx, P, flag):
    b, sw, _m = vm.exec_dispatch(P)
    dom = b.dominators()[sw]
    ib = P.inlined(b, lambda c, cb: cb.crate == b.crate and c.bb in dom and len(cb.blocks) < 60, depth=4)
    ctx.count("dispatch_loops")

    def oracle(e):
        e = strip_var(e)
        neg = 0
        while e[0] == "un" and e[1] == "Not":
            e, neg = strip_var(e[2]), 1 - neg
        if e[0] == "bin" and e[1] in ("BitAnd", "BitOr"):
            x, y = oracle(e[2]), oracle(e[3])
            if x == y == 1:
                return 1 ^ neg
            return None
        v = None
        for a in alts(e):
            k = flatten(a)
            if k and k[0] == ("arg", 1) and k[1:] == (flag,):
                v = 1
            elif a[0] == "field" and any(x[0] == "arg" and x[1] == 2 for x in walk(a)) and a[2] != "code":
                # Per-instruction debug metadata: at a statement start.
                v = 1 if is_bool_field(P, a) else None
        return None if v is None else v ^ neg

    s = specialise(ib, oracle)
    if sw in s.reach_from([0], avoid_nodes=yield_blocks(s)):
        ctx.violation("dispatch", "an instruction can be dispatched at the start of a statement while a yield is pending", b.loc())
    # The request may only be dropped together with being honoured.
    for m in ib.memdefs():
        if m[2][0] == ("arg", 1) and m[2][1:] == (flag,) and bool_write(ib, m) == 0:
            after = ib.reach_from([m[0]], avoid_nodes=set())
            ys = yield_blocks(ib)
            dom = ib.dominators()
            if m[0] not in ys and not any(y in dom[m[0]] for y in ys) and sw in ib.reach_from([m[0]], avoid_nodes=ys):
                ctx.violation("drop", "a pending yield can be discarded without being delivered", b.loc())
            ctx.count("flag_resets")
            del after
    if not yield_blocks(ib):
        ctx.violation("noyield", "the dispatch loop never delivers a yield", b.loc())


def is_bool_field(P, a):
    for x in P.adts.values():
        for v in x["variants"]:
            for n, ty in v["fields"]:
                if n == a[2] and ty == "bool":
                    return True
    return False


def yield_blocks(b):
    return {m[0] for m in b.memdefs() if m[2][0] == ("arg", 1) and len(m[2]) == 2 and is_yield_stop(b, m)}


def disc_oracle(pred, name):
    """Decides the switches over the discriminant of the values that satisfy `pred`."""

    def f(e):
        e = strip_var(e)
        if e[0] == "disc" and pred(e[1]):
            for d, n in e[2]:
                if n == name:
                    return int(d)
        return None

    return f


def check_vm_exec(ctx, P):
    """The public entry point of the VM reports a yield as such."""
    d = vm.exec_dispatch(P)[0]
    n = 0
    for cid in sorted(P.callers()[d.id]):
        b = P.body(cid)
        if b is None or "test" in cid:
            continue
        n += 1
        s = specialise(b, disc_oracle(lambda x: peel(x)[0] == "call" and peel(x)[1] == d.id, "Yield"))
        sites = [c.bb for c in s.calls() if c.resolved == d.id]
        after = s.reach_from([c.target for c in s.calls() if c.resolved == d.id])
        for bb, _i, _c, e in ret_sites(s):
            if bb in after:
                for a in alts(e):
                    if not (a[0] == "agg" and a[2] == "Yield"):
                        ctx.violation("report:" + b.name, "`%s` does not report a yield to its caller (%s)" % (b.id, fmt(a)[:80]), b.loc())
        if any(c in after for c in sites):
            ctx.violation("report:" + b.name, "`%s` keeps executing after a yield" % b.id, b.loc())
    ctx.count("vm_entry_points", n)
    ctx.floor("vm_entry_points", 1)


def check_handler(ctx, P, flag):
    """Error handlers that move execution backwards request a yield."""
    n = 0
    for b in P.bodies(crates={"endbasic_core"}, kinds=("fn", "method")):
        if not b.file.endswith("vm/mod.rs") and "vm" not in b.file:
            continue
        if "test" in b.id:
            continue
        hc = [c for c in b.calls() if c.resolved and P.raw.get(c.resolved, {}).get("impl_self") == CONTEXT]
        if not hc:
            continue
        if b.impl_self == CONTEXT:
            continue
        ib = P.inlined(b, lambda c, cb: cb.impl_self == CONTEXT and len(cb.blocks) < 12, depth=3)

        def from_handler(e):
            return any(x[0] == "field" and x[2] == "addr" or x[0] == "as" and x[2] == "Jump" for x in walk(e))

        def old_pc(e):
            e = peel(e)
            return e[0] == "arg" or is_pc_path(e)

        ws = []
        for m in ib.memdefs():
            if m[2][0][0] == "arg" and m[2][-1] == "pc":
                e = ib.x_rvalue_or_call((m[0], m[1], [], m[3], m[4]), 0)
                if from_handler(e):
                    ws.append((m, e))
        for m, e in ws:
            n += 1
            for rel in ("lt", "eq"):
                s = specialise(ib, order_oracle(rel, from_handler, old_pc))
                ys = {
                    x[0] for x in s.memdefs()
                    if x[2][0][0] == "arg" and x[2][-1] == flag and bool_write(s, x) == 1
                }
                rets = set(s.returns())
                # Some write of the flag is on every path through the move.
                before = m[0] in s.reach_from([0], avoid_nodes=ys) if m[0] not in ys else False
                if before and rets & s.reach_from([m[0]], avoid_nodes=ys):
                    ctx.violation(
                        "handler:" + rel,
                        "`%s` can jump to an error handler at an address %s the failing instruction without requesting a yield"
                        % (b.name, "before" if rel == "lt" else "equal to"),
                        b.loc(),
                    )
    ctx.count("handler_jumps", n)
    ctx.floor("handler_jumps", 1)


def is_pc_path(e):
    k = flatten(e)
    return k is not None and k[-1] == "pc"


def check_hosts(ctx, P):
    d = vm.exec_dispatch(P)[0]
    entries = {c for c in P.callers()[d.id] if "test" not in c}
    hosts = set()
    for e in entries:
        hosts |= {h for h in P.callers()[e] if "test" not in h and P.raw[h]["crate"] != "endbasic_core"}
    for h in sorted(hosts):
        hb = P.body(h)
        self_ty = P.raw[hb.root]["impl_self"] if hb.root in P.raw else hb.impl_self
        ib = P.inlined(hb, lambda c, cb: cb.crate == hb.crate and cb.file == hb.file, depth=6)
        ex = [c for c in ib.calls() if c.resolved in entries]
        ctx.count("hosts")
        polls = [c.bb for c in ib.calls() if c.name in ("try_recv", "recv", "try_next") and "async_channel" in c.path or c.name == "try_recv"]
        if not polls:
            ctx.violation("poll:" + hb.name, "`%s` never polls for interrupts" % h, hb.loc())
            continue
        exb = {c.bb for c in ex}
        bad = []

        def stop_kind(e):
            return None

        awaits = {c.bb for c in ib.calls() if c.path == "@await"}

        def visit(bb, st):
            if bb in exb:
                if st == "unpolled":
                    bad.append(bb)
                    return None
                return "unpolled"
            if bb in polls:
                return "polled"
            if bb in awaits and is_invoke(ib, bb):
                return "unpolled"
            return st

        ib.paths(0, visit, "start")
        if bad:
            ctx.violation("resume:" + root_name(P, h), "`%s` can continue executing the program without having polled for an interrupt" % h, hb.loc())

        # A received interrupt stops the program.
        def got(e):
            e = strip_var(e)
            if e[0] == "disc":
                x = peel_ok(e[1])
                if x[0] == "call" and x[3] in polls:
                    for dd, n in e[2]:
                        if n in ("Ok", "Some", "Break"):
                            return int(dd)
            if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("is_ok", "is_some") and peel_ok(e[2][0])[0] == "call" and peel_ok(e[2][0])[3] in polls:
                return 1
            if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("is_err", "is_none") and peel_ok(e[2][0])[0] == "call" and peel_ok(e[2][0])[3] in polls:
                return 0
            return None

        s = specialise(ib, got)
        intr = {c.bb for c in s.calls() if c.name == "interrupt" and c.resolved and "::Vm" in c.resolved}
        run_again = []
        unreported = []
        for p in polls:
            if p not in s.reachable():
                continue
            ctx.count("polls")
            t = s.call_at(p).target

            def v2(bb, st):
                if bb in exb:
                    run_again.append(bb)
                    return None
                if bb in intr:
                    st = True
                if s.blocks[bb]["t"][0] == "ret":
                    if not st:
                        unreported.append(bb)
                    return None
                return st

            s.paths(t, v2, False)
        if run_again:
            ctx.violation("ignored:" + root_name(P, h), "`%s` can keep executing the program after having received an interrupt" % h, hb.loc())
        if unreported:
            ctx.violation("nointerrupt:" + root_name(P, h), "`%s` can stop on an interrupt without cancelling the interrupted execution" % h, hb.loc())
        # What is reported is a break.
        for bb, _i, _c, e in ret_sites(s):
            if not any(bb in s.reach_from([s.call_at(p).target]) for p in polls if p in s.reachable()):
                continue
            al = [a for a in results(e)]
            if not any(a[0] == "agg" and a[2] == "Err" and any(x[0] == "agg" and x[2] == "Break" for x in walk(a)) for a in al):
                if _c != "err" and bb in s.reach_from(list(intr)):
                    ctx.violation("report-break:" + root_name(P, h), "`%s` does not report that the program was interrupted" % h, hb.loc())
    ctx.floor("hosts", 1)
    ctx.floor("polls", 2)


def results(e):
    """Alternatives of a returned value, looking through Poll::Ready."""
    for a in alts(e):
        if a[0] == "agg" and a[2] == "Ready":
            yield from results(a[3][0])
        else:
            yield a


def peel_ok(e):
    while True:
        e = peel(e)
        if e[0] == "field" and strip_var(e[1])[0] == "as":
            e = strip_var(e[1])[1]
        elif e[0] == "as":
            e = e[1]
        else:
            return e


def is_invoke(b, bb):
    e = strip_var(b.x_arg(b.call_at(bb), 0))
    return any(x[0] == "call" and x[1].rsplit("::", 1)[-1] == "invoke" for x in walk(e))


def root_name(P, h):
    r = P.raw[h].get("root") or h
    return r.rsplit("::", 1)[-1]


# --------------------------------------------------------------------------------------------
# The compiler: addresses that are jumped back to start a statement
# --------------------------------------------------------------------------------------------

def check_compiler(ctx, P):
    cg = "endbasic_core::compiler::codegen::Codegen"
    emit = [b for b in P.bodies(crates={"endbasic_core"}) if b.impl_self == cg and b.name == "emit"]
    if not ctx.anchor(emit, "the instruction emitter"):
        return
    emitters = set()
    callers = P.callers()
    w = [emit[0].id]
    while w:
        x = w.pop()
        if x not in emitters:
            emitters.add(x)
            w.extend(c for c in callers[x] if P.raw[c]["crate"] == "endbasic_core")
    n = 0
    stmt_fns = set()
    for b in P.bodies(crates={"endbasic_core"}, kinds=("fn", "method")):
        if "test" in b.id or "compiler" not in b.file:
            continue
        for c in b.calls():
            if c.resolved != emit[0].id:
                continue
            op = strip_var(b.x_arg(c, 1))
            if op[0] != "call" or op[1].rsplit("::", 1)[-1] not in ("make_jump", "make_jump_if_false"):
                continue
            tgt = op[2][-1]
            srcs = [x for x in walk(tgt) if x[0] == "call" and x[1].rsplit("::", 1)[-1] == "next_pc"]
            if not srcs:
                continue
            for src in srcs:
                n += 1
                at = src[3]
                marks = set()
                for mc in b.calls():
                    if mc.name == "mark_statement_start" and any(x == src for x in walk(b.x_arg(mc, 1))):
                        marks.add(mc.bb)
                # On every path from taking the address to the jump there is a mark...
                if marks and c.bb not in b.reach_from([at], avoid_nodes=marks):
                    continue
                # ...or it is the first address of the statement.
                em = [x.bb for x in b.calls() if x.resolved in emitters]
                before = [x for x in em if at in b.reach_from([P_succ(b, x)])]
                if not before:
                    stmt_fns.add(b.id)
                    continue
                ctx.violation(
                    "loop:" + b.name,
                    "`%s` emits a jump back to an address that is not marked as the start of a statement, so a loop may never reach a point where it can be interrupted" % b.name,
                    b.loc(c.line),
                )
    ctx.count("backward_jumps", n)
    ctx.floor("backward_jumps", 5)
    # Those first addresses are marked by whoever compiles the statement.
    for f in sorted(stmt_fns):
        for cid in sorted(callers[f]):
            if "test" in cid:
                continue
            check_stmt(ctx, P, P.body(cid), emitters, cid)


def P_succ(b, bb):
    s = b.succ(bb)
    return s[0] if s else bb


EXEMPT = {"Callable", "Declare", "Label"}


def check_stmt(ctx, P, b, emitters, cid):
    key = "stmt:" + b.name
    if ("checked", b.id) in ctx._keys:
        return
    ctx._keys.add(("checked", b.id))
    marks = {c.bb for c in b.calls() if c.name == "mark_statement_start"}
    sw = None
    for i in sorted(b.reachable()):
        t = b.blocks[i]["t"]
        if t[0] == "switch":
            e = strip_var(b.x_switch(i))
            if e[0] == "disc" and len(e[2]) >= 15:
                sw = (i, {int(d): n for d, n in e[2]})
                break
    if not ctx.anchor(sw, "the dispatch over statement kinds in " + b.name):
        return
    okret = {bb for bb, _i, cls, _e in ret_sites(b) if cls != "err"}

    def changed(e):
        """`start_pc != next_pc()`: the statement emitted something."""
        e = strip_var(e)
        neg = 0
        while e[0] == "un" and e[1] == "Not":
            e, neg = strip_var(e[2]), 1 - neg
        if e[0] == "bin" and e[1] in ("Ne", "Eq", "Lt", "Gt"):
            x, y = strip_var(e[2]), strip_var(e[3])
            if all(z[0] == "call" and z[1].rsplit("::", 1)[-1] == "next_pc" for z in (x, y)):
                return (0 if e[1] == "Eq" else 1) ^ neg
        return None

    s = specialise(b, changed)
    missing = set()

    def visit(bb, st):
        kind, marked = st
        if bb in marks:
            marked = True
        if bb in okret:
            if not marked and kind is not None and kind not in EXEMPT:
                missing.add(kind)
            return None
        if bb == sw[0]:
            def edge(tgt, how):
                v = how[1]
                return (sw[1].get(v, "other") if v is not None else "other", marked)

            return edge
        return (kind, marked)

    s.paths(0, visit, (None, False))
    ctx.count("statement_kinds", len(sw[1]))
    for k in sorted(missing):
        if k == "other":
            continue
        ctx.violation(key + ":" + k, "`%s` does not mark the first instruction of `%s` statements as a statement start" % (b.name, k), b.loc())


_ = Body
