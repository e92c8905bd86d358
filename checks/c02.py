"""C02: each operator instruction computes its own operation on its own operands.

The dispatch arm of every operator opcode is reduced (helpers, closures and function pointers
inlined) to the term it stores in its destination register.  Arithmetic terms are compared with the
operation the opcode stands for; comparisons are decided by abstract interpretation over the
relation between the operands (less, equal, greater, unordered), so the way the predicate is
written does not matter.
"""

from checks import vm
from mirlib import specialise, strip_var, fmt

REL = {
    # name: {relation: result}
    "Equal": {"lt": 0, "eq": 1, "gt": 0, "un": 0},
    "NotEqual": {"lt": 1, "eq": 0, "gt": 1, "un": 1},
    "Less": {"lt": 1, "eq": 0, "gt": 0, "un": 0},
    "LessEqual": {"lt": 1, "eq": 1, "gt": 0, "un": 0},
    "Greater": {"lt": 0, "eq": 0, "gt": 1, "un": 0},
    "GreaterEqual": {"lt": 0, "eq": 1, "gt": 1, "un": 0},
}
CMP = {
    "eq": {"lt": 0, "eq": 1, "gt": 0, "un": 0}, "ne": {"lt": 1, "eq": 0, "gt": 1, "un": 1},
    "lt": {"lt": 1, "eq": 0, "gt": 0, "un": 0}, "le": {"lt": 1, "eq": 1, "gt": 0, "un": 0},
    "gt": {"lt": 0, "eq": 0, "gt": 1, "un": 0}, "ge": {"lt": 0, "eq": 1, "gt": 1, "un": 0},
}
SWAP = {"lt": "gt", "gt": "lt", "eq": "eq", "un": "un"}


def evalrel(t, kind, rel):
    """Value of a normalised term when the operands are related by `rel` (or None)."""
    if t[0] == "k":
        return int(t[1]) if isinstance(t[1], (int, bool)) else None
    if t[0] == "b" and kind == "b":
        return rel[t[1] - 1] if t[1] in (1, 2) else None
    if t[0] == "r" and kind == "b":
        return rel[t[1] - 1] if t[1] in (1, 2) else None
    if t[0] == "op":
        n = t[1].lower()
        a = t[2:]
        if n == "not" and len(a) == 1:
            v = evalrel(a[0], kind, rel)
            return None if v is None else 1 - v
        if n in CMP and len(a) == 2:
            if kind != "b":
                if a == ((kind, 1), (kind, 2)):
                    return CMP[n][rel]
                if a == ((kind, 2), (kind, 1)):
                    return CMP[n][SWAP[rel]]
            x, y = evalrel(a[0], kind, rel), evalrel(a[1], kind, rel)
            if x is not None and y is not None:
                return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[n] * 1
            return None
        if n in ("cmp", "partial_cmp", "total_cmp") and len(a) == 2 and kind != "b":
            if n == "total_cmp" and kind == "d":
                return None
            r = rel if a == ((kind, 1), (kind, 2)) else SWAP[rel] if a == ((kind, 2), (kind, 1)) else None
            return {"lt": -1, "eq": 0, "gt": 1}.get(r)
        if n in ("bitand", "bitor", "bitxor") and len(a) == 2:
            x, y = evalrel(a[0], kind, rel), evalrel(a[1], kind, rel)
            if x is not None and y is not None:
                return {"bitand": x & y, "bitor": x | y, "bitxor": x ^ y}[n]
    if t[0] == "disc":
        v = evalrel(t[1], kind, rel)
        return None if v is None else v & 0xFF if v < 0 else v
    if t[0] == "agg" and t[1] in ("Less", "Equal", "Greater") and len(t) == 2:
        return {"Less": -1, "Equal": 0, "Greater": 1}[t[1]]
    if t[0] == "phi":
        vs = {evalrel(x, kind, rel) for x in t[1:]}
        if len(vs) == 1:
            return vs.pop()
    return None


def comparison(ctx, name, arm, want, kind):
    rels = [(0, 0), (0, 1), (1, 0), (1, 1)] if kind == "b" else ["lt", "eq", "gt"] + (["un"] if kind == "d" else [])
    for rel in rels:
        sp = specialise(arm, lambda e: evalrel(vm.term(e), kind, rel))
        ws = vm.writes(sp)
        w = REL[want]["eq" if rel[0] == rel[1] else "lt"] if kind == "b" else REL[want][rel]
        got = [(o, evalrel(t, kind, rel)) for _c, o, t in ws]
        ctx.count("comparison_cases")
        if got != [(0, w)]:
            ctx.violation(
                "cmp:%s" % name,
                "instruction `%s`: when the operands compare as %s the destination must receive %d, but the arm stores %s"
                % (name, rel, w, [fmt(arm.x_arg(c, 2)) if v is None else v for (c, _o, _t), (_o2, v) in zip(ws, got)]),
                arm.loc(),
            )
            return


def I(k):
    return ("i", k)


def D(k):
    return ("d", k)


def op(n, *a):
    return ("op", n) + a


U32 = lambda t: op("try_from", t)  # noqa: E731


def wide(o):
    c = lambda k: I(k)  # noqa: E731
    return op("try_from", op(o, c(1), c(2)))


def comm(n):
    return [op(n, I(1), I(2)), op(n, I(2), I(1))]


EXPECT = {
    "AddInteger": comm("checked_add"),
    "SubtractInteger": [op("checked_sub", I(1), I(2))],
    "MultiplyInteger": comm("checked_mul"),
    "DivideInteger": [op("checked_div", I(1), I(2))],
    "ModuloInteger": [op("checked_rem", I(1), I(2))],
    "PowerInteger": [op("checked_pow", I(1), U32(I(2)))],
    "NegateInteger": [op("checked_neg", I(0)), op("checked_sub", ("k", 0), I(0))],
    "BitwiseAnd": comm("BitAnd"),
    "BitwiseOr": comm("BitOr"),
    "BitwiseXor": comm("BitXor"),
    "BitwiseNot": [op("Not", I(0))],
    "AddDouble": [op("Add", D(1), D(2)), op("Add", D(2), D(1))],
    "SubtractDouble": [op("Sub", D(1), D(2))],
    "MultiplyDouble": [op("Mul", D(1), D(2)), op("Mul", D(2), D(1))],
    "DivideDouble": [op("Div", D(1), D(2))],
    "ModuloDouble": [op("Rem", D(1), D(2))],
    "PowerDouble": [op("powf", D(1), D(2))],
    "NegateDouble": [op("Neg", D(0))],
    "IntegerToDouble": [op("cast:i32:f64", I(0)), I(0)],
    "DoubleToInteger": [op("cast:f64:i32", op("round", D(0)))],
    "Move": [("r", 1)],
    "LoadInteger": [("x", 1)],
    "ShiftLeft": [
        ("orelse", op("checked_shl", I(1), U32(I(2))), ("k", 0)),
        ("phi", ("k", 0), op("checked_shl", I(1), U32(I(2)))),
    ],
    "ShiftRight": [
        ("phi", ("k", -1), ("k", 0), op("checked_shr", I(1), U32(I(2)))),
        ("phi", ("k", 0), ("k", -1), op("checked_shr", I(1), U32(I(2)))),
    ],
}


def flat(t):
    """Order-insensitive form of phis."""
    if t[0] == "phi":
        s = set()
        for x in t[1:]:
            f = flat(x)
            s |= set(f[1]) if f[0] == "phi" else {f}
        return ("phi", frozenset(s))
    if t[0] == "op" and t[1].lower() in ("from",) and len(t) == 3:
        return flat(t[2])
    return tuple(flat(x) if isinstance(x, tuple) else x for x in t)


def run(ctx):
    P = ctx.P
    ctx.rule(
        "the term stored by the dispatch arm of each operator opcode equals the operation the opcode "
        "denotes over its own operands, in order; integer operations only in checked form; comparisons "
        "decided for every relation between operands, including unordered"
    )
    arms = vm.arms(P)
    if not ctx.anchor(arms, "the dispatch loop of the virtual machine"):
        return
    for name, arm in sorted(arms.items()):
        done = False
        for want in REL:
            for suffix, kind in (("Integer", "i"), ("Double", "d"), ("Text", "t"), ("Boolean", "b")):
                if name == want + suffix:
                    ctx.count("comparisons")
                    comparison(ctx, name, arm, want, kind)
                    done = True
        if done:
            continue
        if name in EXPECT:
            ctx.count("operators")
            ws = vm.writes(arm)
            good = [flat(x) for x in EXPECT[name]]
            got = [(o, flat(t)) for _c, o, t in ws]
            if not got or any(o != 0 for o, _t in got):
                ctx.violation("dest:" + name, "instruction `%s` must store its result in the register its first operand names" % name, arm.loc())
                continue
            # Several stores (one per branch) are fine as long as together they form the term.
            u = set()
            for _o, t in got:
                u |= set(t[1]) if t[0] == "phi" else {t}
            whole = ("phi", frozenset(u)) if len(u) > 1 else next(iter(u))
            if whole not in good:
                ctx.violation(
                    "op:" + name,
                    "instruction `%s` stores %s, which is not the operation it denotes on its operands" % (name, show(ws)),
                    arm.loc(),
                )
            ctx.sample("%s -> %s" % (name, show(ws)))
        if name == "DoubleToInteger":
            double_range(ctx, name, arm)
        if name == "ShiftRight":
            shift_right(ctx, name, arm)
        if name == "Concat":
            concat(ctx, name, arm)
    ctx.floor("comparisons", 20)
    ctx.floor("operators", 24)
    ctx.floor("comparison_cases", 63)
    registers(ctx)


def show(ws):
    return "; ".join(str(t) for _c, _o, t in ws)


def double_range(ctx, name, arm):
    """The conversion only happens under finite, in-range bounds."""
    lo = hi = False
    for c, _o, _t in vm.writes(arm):
        for e, how, vals in arm.conditions(c.bb):
            t = vm.term(e)
            pos = how == "is" and 0 not in vals
            neg = how == "is" and vals == (0,)
            if t[0] != "op" or len(t) != 4 or not (pos or neg):
                continue
            n, x, y = t[1], t[2], t[3]
            if neg:
                continue  # !(x < c) also holds for NaN: not a bound
            isd = lambda z: z in (op("round", D(0)), D(0))  # noqa: E731
            cx, cy = constf(x), constf(y)
            if isd(x) and cy is not None:
                if n in ("Ge", "Gt") and cy >= -2147483648.5 - (0 if n == "Gt" else -0.5):
                    lo = True
                if n in ("Le", "Lt") and cy <= 2147483648.0 and not (n == "Le" and cy > 2147483647.5):
                    hi = True
            if isd(y) and cx is not None:
                if n in ("Le", "Lt") and cx >= -2147483649.0:
                    lo = True
                if n in ("Ge", "Gt") and cx <= 2147483648.0 and not (n == "Ge" and cx > 2147483647.5):
                    hi = True
    ctx.count("range_checks", 2)
    if not lo:
        ctx.violation("range:lo", "the double-to-integer conversion is not guarded by a lower bound test (NaN and values below the integer range must be an error)", arm.loc())
    if not hi:
        ctx.violation("range:hi", "the double-to-integer conversion is not guarded by an upper bound test", arm.loc())


def constf(t):
    if t[0] == "k" and isinstance(t[1], (int, float)):
        return float(t[1])
    if t[0] == "k" and isinstance(t[1], str):
        try:
            return float(t[1])
        except ValueError:
            return None
    if t[0] == "op" and t[1].startswith("cast:") and len(t) == 3:
        return constf(t[2])
    if t[0] == "op" and t[1] == "Neg":
        v = constf(t[2])
        return None if v is None else -v
    return None


def shift_right(ctx, name, arm):
    """Shifting out every bit yields the sign."""
    shr = op("checked_shr", I(1), U32(I(2)))

    def oracle(neg):
        def f(e):
            t = vm.term(e)
            if t == ("disc", shr):
                return 0  # None
            if t == ("op", "Lt", I(1), ("k", 0)):
                return int(neg)
            if t == ("op", "Ge", I(1), ("k", 0)):
                return int(not neg)
            if t == ("op", "is_negative", I(1)):
                return int(neg)
            return None
        return f

    for neg in (True, False):
        ws = vm.writes(specialise(arm, oracle(neg)))
        ctx.count("shift_cases")
        want = ("k", -1 if neg else 0)
        vals = set()
        for _c, _o, t in ws:
            vals |= set(flat(t)[1]) if t[0] == "phi" else {t}
        vals.discard(shr)
        if vals != {want}:
            ctx.violation("shr:%s" % ("neg" if neg else "pos"), "shifting a %s number right by all its bits or more must yield %d; the arm stores %s" % ("negative" if neg else "non-negative", want[1], vals), arm.loc())


def concat(ctx, name, arm):
    """The two texts are joined left to right."""
    order = []
    for bb in arm.rpo():
        c = arm.call_at(bb)
        if c is None:
            continue
        if c.name in ("add", "push_str", "add_assign", "concat", "join", "extend", "new_display", "write_str"):
            for i in range(len(c.args)):
                for k in texts(arm.x_arg(c, i)):
                    if k not in order:
                        order.append(k)
    ctx.count("concat")
    if order != [1, 2]:
        ctx.violation("concat", "text concatenation does not join the left operand and then the right operand (order found: %s)" % order, arm.loc())


def texts(e):
    from mirlib import walk
    out = []
    for x in walk(e):
        t = vm.term(x) if x[0] == "call" else ("",)
        if t[0] == "t" and t[1] not in out:
            out.append(t[1])
    return out


def registers(ctx):
    """Registers are read and written at the same absolute position."""
    P = ctx.P
    d = vm.exec_dispatch(P)
    ty = d[0].impl_self
    pos = {}
    for n in ("get_reg", "set_reg"):
        bs = [b for b in P.bodies(crates={"endbasic_core"}, kinds=("method",)) if b.name == n and b.impl_self == ty]
        if not ctx.anchor(bs, "the method `%s` of the execution context" % n):
            return
        b = P.inlined(bs[0], lambda c, cb: cb.crate == "endbasic_core")
        found = set()
        for c in b.calls():
            if c.name in ("get", "index", "index_mut", "get_mut", "get_unchecked") and len(c.args) == 2:
                found.add(repr(strip_ids(b.x_arg(c, 1))))
        pos[n] = found
        ctx.count("register_accessors")
    if len(pos["get_reg"]) != 1 or pos["get_reg"] != pos["set_reg"]:
        ctx.violation(
            "reg-index", "reading and writing a register do not address the same slot of the register bank: %s vs %s" % (sorted(pos["get_reg"]), sorted(pos["set_reg"])), d[0].loc()
        )


def strip_ids(e):
    """Expression without block numbers."""
    if isinstance(e, tuple):
        if e and e[0] == "call":
            return ("call", e[1], tuple(strip_ids(x) for x in e[2]))
        if e and e[0] == "var":
            return strip_ids(e[2])
        if e and e[0] == "phi":
            return ("phi", tuple(sorted((strip_ids(x) for x in e[1]), key=repr)))
        return tuple(strip_ids(x) for x in e)
    return e
