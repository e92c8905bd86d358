"""C03: an instruction that raises an error does nothing else.

Path-sensitive typestate over every dispatch arm: on each path through an instruction, either it
records an error (at its own address) and leaves registers, frames, memory, the error handler and
the program counter alone, or it completes and moves the program counter exactly once.
"""

from checks import vm
from mirlib import strip_var, fmt, flatten

MUTATORS = {"set_reg", "push", "index_mut", "truncate", "clear", "fill", "insert", "resize", "extend", "swap", "remove"}


def stop_variant(arm, m):
    """The stop reason a write to `stop` records, or None."""
    e = strip_var(arm.x_rvalue_or_call((m[0], m[1], [], m[3], m[4]), 0))
    if e[0] == "agg" and e[2] == "Some":
        x = strip_var(e[3][0])
        if x[0] == "agg":
            return x[2], x
    return None, e


def effects_of(P, arm):
    """bb -> list of (kind, text)"""
    ev = {}
    for m in arm.memdefs():
        key = m[2]
        if key[0] == ("arg", 1) and len(key) >= 2:
            f = key[1]
            if f == "stop":
                v, x = stop_variant(arm, m)
                ev.setdefault(m[0], []).append((m[1], "stop", v, x))
            elif f == "pc":
                ev.setdefault(m[0], []).append((m[1], "pc", fmt(arm.x_rvalue_or_call((m[0], m[1], [], m[3], m[4]), 0)), None))
            else:
                ev.setdefault(m[0], []).append((m[1], "effect", "writes `%s`" % f, None))
        elif key[0] == ("arg", 3):
            ev.setdefault(m[0], []).append((m[1], "effect", "writes memory", None))
    for c in arm.calls():
        if c.name in MUTATORS and c.args:
            if c.name == "set_reg":
                ev.setdefault(c.bb, []).append((10**6, "effect", "writes a register", None))
                continue
            k = flatten(arm.x_arg(c, 0))
            if k is not None and k[0] in (("arg", 1), ("arg", 3)):
                ev.setdefault(c.bb, []).append((10**6, "call:" + c.name, "%s on %s" % (c.name, k[-1] if len(k) > 1 else "the heap"), k))
            elif c.name == "index_mut":
                ev.setdefault(c.bb, []).append((10**6, "effect", "stores into an array", None))
    for v in ev.values():
        v.sort(key=lambda x: x[0])
    return ev


def run(ctx):
    P = ctx.P
    ctx.rule(
        "on every path through every instruction: an error is recorded with the instruction's own address "
        "and no register, frame, heap, handler or program counter update; a completed instruction moves "
        "the program counter exactly once; a failed allocation leaves the heap untouched"
    )
    arms = vm.arms(P)
    if not ctx.anchor(arms, "the dispatch loop of the virtual machine"):
        return
    for name, arm in sorted(arms.items()):
        check_arm(ctx, P, name, arm)
    ctx.floor("arms", 62)
    ctx.floor("failing_paths", 18)
    ctx.floor("completing_paths", 60)
    heap_push(ctx)


def check_arm(ctx, P, name, arm):
    ctx.count("arms")
    ev = effects_of(P, arm)
    results = set()

    def visit(bb, st):
        if bb == arm.ret_block:
            results.add(st)
            return None
        exc, stop, pcs, effs = st
        post = []
        for _i, kind, what, x in ev.get(bb, ()):
            if kind == "stop":
                if what == "Exception":
                    exc = True
                    a = strip_var(x[3][0])
                    ok = a[0] == "field" and a[2] == "pc" and strip_var(a[1])[0] == "arg"
                    if not ok:
                        ctx.violation("excpc:" + name, "the error raised by `%s` is not recorded at the address of the failing instruction (%s)" % (name, fmt(a)), arm.loc())
                elif what is not None:
                    stop = what
                else:
                    effs = effs | {"clears the stop reason"}
            elif kind == "pc":
                pcs = min(pcs + 1, 2)
            elif kind == "call:push" and "Heap" in str(arm.prog.raw.get(arm.call_at(bb).resolved, {}).get("impl_self", "")):
                # A fallible allocation: its effect is on the success edge, which the path
                # exploration separates from the failure edge that records the error.
                effs = effs | {"?alloc"}
            elif kind.startswith("call:"):
                effs = effs | {what}
            else:
                effs = effs | {what}
        return (exc, stop, pcs, effs)

    arm.paths(arm.start, visit, (False, None, 0, frozenset()))
    if not results:
        # Arms that always stop leave through the loop condition.
        ctx.violation("noret:" + name, "no path of instruction `%s` returns to the dispatch loop" % name, arm.loc())
    for exc, stop, pcs, effs in sorted(results, key=repr):
        effs = effs - {"?alloc"}
        if exc:
            ctx.count("failing_paths")
            if effs or pcs or stop:
                what = sorted(effs) + (["moves the program counter"] if pcs else []) + (["stops with %s" % stop] if stop else [])
                ctx.violation("fail:" + name, "instruction `%s` raises an error but also %s on the same path" % (name, ", ".join(what)), arm.loc())
        else:
            ctx.count("completing_paths")
            if stop in ("End", "Eof"):
                if pcs:
                    ctx.violation("stop:" + name, "instruction `%s` ends the program but also moves the program counter" % name, arm.loc())
            elif pcs != 1:
                ctx.violation("pc:" + name, "a path through instruction `%s` completes having moved the program counter %s" % (name, "more than once" if pcs else "not at all"), arm.loc())


def heap_push(ctx):
    P = ctx.P
    heap = "endbasic_core::mem::Heap"
    if not ctx.anchor(P.adts.get(heap), "the heap type"):
        return
    n = 0
    for b in P.bodies(crates={"endbasic_core"}, kinds=("method",)):
        if b.impl_self != heap or "Result" not in b.locals[0] or not b.locals[1].startswith("&mut"):
            continue
        n += 1
        ib = P.inlined(b, lambda c, cb: cb.impl_self == heap)
        muts = set()
        for c in ib.calls():
            if c.name in MUTATORS and c.args:
                k = flatten(ib.x_arg(c, 0))
                if k and k[0] == ("arg", 1):
                    muts.add(c.bb)
        for m in ib.memdefs():
            muts.add(m[0])
        errs = set()
        from mirlib import ret_sites
        for bb, _i, cls, _e in ret_sites(ib):
            if cls == "err":
                errs.add(bb)
        for m in muts:
            after = ib.reach_from([m])
            if after & errs:
                ctx.violation("heap:" + b.name, "`Heap::%s` can report failure after having modified the heap" % b.name, b.loc())
        ctx.count("heap_operations")
        if not muts or not errs:
            ctx.violation("heap-shape:" + b.name, "`Heap::%s` has no recognised mutation or failure path" % b.name, b.loc())
    ctx.floor("heap_operations", 1)
