"""Shared model of the virtual machine: per-opcode slices of the dispatch loop."""

import mirlib
from mirlib import Body, Call, strip_var

OPCODE = "endbasic_core::bytecode::Opcode"


def opcode_switches(P):
    """Bodies that dispatch over the opcode enum: [(body, bb, {variant: target})]."""
    out = []
    for b in P.bodies(crates={"endbasic_core"}):
        for i in sorted(b.reachable()):
            t = b.blocks[i]["t"]
            if t[0] != "switch":
                continue
            for s in b.blocks[i]["s"]:
                if s[0] == "=" and s[2][0] == "disc" and s[2][2] == OPCODE and t[1][0] in ("c", "m") and t[1][1][0] == s[1][0]:
                    names = {int(v): n for v, n in s[2][3]}
                    m = {names[int(v)]: tb for v, tb in t[3]}
                    if t[4] in b.succ(i):
                        rest = set(names.values()) - set(m)
                        for r in rest:
                            m[r] = t[4]
                    if len(m) >= 20:
                        out.append((b, i, m))
    return out


def exec_dispatch(P):
    for b, i, m in opcode_switches(P):
        if "String" not in b.locals[0]:
            return b, i, m
    return None


def format_dispatch(P):
    for b, i, m in opcode_switches(P):
        if "String" in b.locals[0]:
            return b, i, m
    return None


KEEP = {"get_reg", "set_reg", "deref_string", "reg_index"}


def arms(P, keep=KEEP, depth=6, extra=()):
    """{opcode variant: Body of just that instruction}, with helpers inlined.  The body starts at
    the dispatch loop and returns where the loop would start over."""
    key = ("arms", tuple(sorted(keep)), tuple(extra))
    cache = getattr(P, "_vmcache", None)
    if cache is None:
        cache = P._vmcache = {}
    if key in cache:
        return cache[key]
    d = exec_dispatch(P)
    if d is None:
        return {}
    b, sw, m = d
    # One iteration: cut the edges that go back to the loop head.
    dom = b.dominators()
    heads = dom[sw]
    res = {}
    for var, tgt in m.items():
        blocks = [dict(x) for x in b.blocks]
        t = blocks[sw]["t"]
        blocks[sw]["t"] = ["goto", tgt]
        ret = len(blocks)
        blocks.append({"s": [], "t": ["ret"]})
        reach = set()
        w = [tgt]
        while w:
            x = w.pop()
            if x in reach or x in heads:
                continue
            reach.add(x)
            w.extend(Body.term_succ(blocks[x]["t"]))
        for x in reach:
            blocks[x]["t"] = retarget(blocks[x]["t"], heads, ret)
        raw = dict(
            id=b.id + "{" + var + "}", crate=b.crate, kind=b.kind, name=b.name, parent=b.parent, root=b.root,
            impl_trait=None, impl_self=b.impl_self, trait_item=None, in_trait=None, vis=b.vis, unsafe=False,
            file=b.file, line=b.line, line_hi=b.line_hi, argc=b.argc, locals=list(b.locals),
            names=list(b.names), blocks=blocks,
        )
        ab = Body(raw, P)
        ab.ret_block = ret

        def pick(c, cb):
            return (
                cb.crate == b.crate
                and (cb.impl_self == b.impl_self or cb.kind == "closure" or cb.file == b.file)
                and cb.name not in keep
            ) or cb.id in extra

        ib = P.inlined(ab, pick, depth=depth)
        ib.id = ab.id
        ib.ret_block, ib.start = ret, tgt
        # The loop exit is the only other way out; drop it so that only the arm remains.
        res[var] = ib
    cache[key] = res
    return res


def retarget(t, heads, ret):
    f = lambda x: ret if x in heads else x
    k = t[0]
    if k == "goto":
        return ["goto", f(t[1])]
    if k == "switch":
        return ["switch", t[1], t[2], [[v, f(x)] for v, x in t[3]], f(t[4]), t[5]]
    if k == "call":
        return ["call", t[1], t[2], t[3], None if t[4] is None else f(t[4]), t[5]]
    if k == "drop":
        return ["drop", t[1], f(t[2]), t[3]]
    if k == "assert":
        return ["assert", t[1], t[2], t[3], t[4], t[5], f(t[6]), t[7]]
    return t


# --------------------------------------------------------------------------------------------
# Operands of an instruction
# --------------------------------------------------------------------------------------------

def is_word(e):
    """Is `e` the instruction word being executed (an element of the image's code)?"""
    e = strip_var(e)
    if e[0] == "call" and e[1].rsplit("::", 1)[-1] == "index" and len(e[2]) == 2:
        base = strip_var(e[2][0])
        return base[0] == "field" and base[2] == "code"
    if e[0] == "index":
        base = strip_var(e[1])
        return base[0] == "field" and base[2] == "code"
    return False


def operand(e):
    """k when `e` is the k-th decoded operand of the instruction (0 when it has just one)."""
    e = mirlib.peel(e)
    if e[0] == "field" and strip_var(e[1])[0] == "call":
        c = strip_var(e[1])
        if len(c[2]) == 1 and is_word(c[2][0]) and isinstance(e[4], int):
            return e[4]
    if e[0] == "call" and len(e[2]) == 1 and is_word(e[2][0]):
        return 0
    return None


def last(path):
    return path.rsplit("::", 1)[-1]


def reg_of(e):
    """k when `e` reads the register named by operand k."""
    e = mirlib.peel(e)
    if e[0] == "call" and last(e[1]) == "get_reg" and len(e[2]) == 2:
        return operand(e[2][1])
    return None


def term(e):
    """Normalised term of a value computed by an instruction.

    ("i",k) ("d",k) ("b",k) ("t",k) ("r",k): operand register k read as integer, double, boolean,
    text, raw; ("op", name, args...): an operation; ("k", v): constant."""
    e = strip_var(e)
    while e[0] in ("ok", "try", "conv"):
        e = strip_var(e[2] if e[0] == "conv" else e[1])
    k = reg_of(e)
    if k is not None:
        return ("r", k)
    o = operand(e)
    if o is not None:
        return ("x", o)
    if e[0] == "const":
        return ("k", e[2])
    if e[0] == "cast":
        x = term(e[2])
        if x[0] == "r" and e[3] == "i32":
            return ("i", x[1])
        if e[1] == "IntToInt":
            return x
        return ("op", "cast:%s:%s" % (e[4], e[3]), x)
    if e[0] == "bin":
        op = e[1].replace("WithOverflow", "").replace("Unchecked", "")
        x, y = term(e[2]), term(e[3])
        if op == "Ne" and x[0] == "r" and y == ("k", 0):
            return ("b", x[1])
        return ("op", op, x, y)
    if e[0] == "un":
        return ("op", e[1], term(e[2]))
    if e[0] == "phi":
        return ("phi",) + tuple(sorted({term(a) for a in mirlib.alts(e)}, key=repr))
    if e[0] == "call":
        n = last(e[1])
        a = e[2]
        if n == "from_bits" and len(a) == 1:
            x = term(a[0])
            return ("d", x[1]) if x[0] == "r" else ("op", n, x)
        if n in ("to_bits", "unwrap", "expect", "ok", "to_owned", "must_use") and a:
            return term(a[0])
        if n in ("ok_or", "ok_or_else", "map_err") and len(a) == 2:
            return term(a[0])
        if n == "deref_string" and len(a) >= 2:
            k = operand(a[1])
            if k is not None:
                return ("t", k)
        if n in ("unwrap_or", "unwrap_or_default") and a:
            return ("orelse", term(a[0]), term(a[1]) if len(a) > 1 else ("k", 0))
        return ("op", n) + tuple(term(x) for x in a)
    if e[0] == "agg":
        return ("agg", e[2]) + tuple(term(x) for x in e[3])
    if e[0] == "disc":
        return ("disc", term(e[1]))
    if e[0] == "as":
        return ("as", term(e[1]), e[2])
    if e[0] == "field":
        return ("field", term(e[1]), e[2])
    return ("?", mirlib.fmt(e)[:80])


def writes(arm):
    """[(call, operand index or None, term)] for the registers an instruction writes."""
    out = []
    for c in arm.calls():
        if c.name == "set_reg" and len(c.args) == 3:
            out.append((c, operand(arm.x_arg(c, 1)), term(arm.x_arg(c, 2))))
    return out
