"""C01: what the compiler encodes is what the machine (and the disassembler) decodes.

Bit-level abstract interpretation of every encoder composed with the decoder used by the dispatch
arm of the same opcode: each operand is a vector of named symbolic bits, and the composition has to
yield exactly those bits back, for every operand value at once.
"""

import json

import bits
from checks import vm

EVAL_W = bits.WIDTH


def mk_arg(P, ty, name):
    """A fully symbolic value of type `ty` (all values of the type), or None if not modelled."""
    if ty in EVAL_W:
        return bits.sym(name, EVAL_W[ty])
    a = P.adts.get(ty)
    if a is None:
        return None
    if a["enum"]:
        if any(v["fields"] for v in a["variants"]):
            return None
        discs = sorted(int(v["disc"]) for v in a["variants"])
        if discs != list(range(len(discs))):
            return None
        k = (len(discs) - 1).bit_length()
        return ("enum", ty, bits.sym(name, k, 8))
    v = a["variants"][0]
    if len(v["fields"]) == 1:
        inner = mk_arg(P, v["fields"][0][1], name)
        return None if inner is None else ("adt", v["name"], (inner,))
    return None


def encoders(P, discs):
    """{opcode name: [body]}: functions that yield a word whose opcode byte is a constant."""
    out = {}
    for b in P.bodies(crates={"endbasic_core"}, kinds=("fn", "method")):
        if b.locals[0] != "u32" or b.impl_trait or b.impl_self or b.file != P.adts[vm.OPCODE]["file"]:
            continue
        args = [mk_arg(P, b.locals[i + 1], "a%d" % i) for i in range(b.argc)]
        if any(a is None for a in args):
            continue
        try:
            v = bits.Eval(P).call(b.id, args)
        except bits.Diverges:
            continue
        if isinstance(v, bits.Bits) and len(v) == 32:
            n = bits.as_int(bits.Bits(v[24:]))
            if n in discs:
                out.setdefault(discs[n], []).append((b, args, v))
    return out


def decoders_in(P, body, is_word, depth=4, seen=None):
    """Ids of workspace functions `u32 -> operands` applied to the instruction word in `body`."""
    res = set()
    seen = seen if seen is not None else set()
    if body.id in seen:
        return res
    seen.add(body.id)
    for c in body.calls():
        if not c.is_fn or c.resolved not in P.raw:
            continue
        cb = P.body(c.resolved)
        for i, a in enumerate(c.args):
            if i < cb.argc and cb.locals[i + 1] == "u32" and is_word(body, c, i):
                if cb.argc == 1 and cb.locals[0] not in ("alloc::string::String", vm.OPCODE):
                    res.add(c.resolved)
                elif cb.locals[0] != vm.OPCODE and depth > 0:
                    k = i + 1
                    res |= decoders_in(
                        P, cb, lambda b2, c2, j, k=k: b2.x_arg(c2, j) == b2.arg_expr(k), depth - 1, seen
                    )
    return res


def is_code_word(b, c, i):
    e = vm.strip_var(b.x_arg(c, i))
    s = json.dumps(e)
    return '"code"' in s


def run(ctx):
    P = ctx.P
    ctx.rule(
        "for every opcode: decode(encode(x1..xn)) == (x1..xn) over fully symbolic operand bits; the "
        "opcode byte selects the same opcode; the dispatch arm and the disassembler arm of an opcode "
        "decode with a decoder of that opcode"
    )
    adt = P.adts.get(vm.OPCODE)
    if not ctx.anchor(adt, "the opcode enumeration"):
        return
    discs = {int(v["disc"]): v["name"] for v in adt["variants"]}
    enc = encoders(P, discs)
    opcode_fns = [
        b for b in P.bodies(crates={"endbasic_core"}, kinds=("fn", "method"))
        if b.locals[0] == vm.OPCODE and b.argc == 1 and b.locals[1] == "u32"
    ]
    ctx.anchor(opcode_fns, "the function that extracts the opcode of an instruction")
    arms = vm.arms(P)
    if not ctx.anchor(arms, "the dispatch loop of the virtual machine"):
        return
    fd = vm.format_dispatch(P)
    ctx.anchor(fd, "the instruction formatter")
    for name in discs.values():
        if name not in enc:
            ctx.violation("encoder:" + name, "no function builds a word whose opcode byte is always that of `%s` (missing, or operand bits overlap it)" % name)
            continue
        if name not in arms:
            ctx.violation("arm:" + name, "no dispatch arm for instruction `%s`" % name)
            continue
        # Decoders used when executing and when formatting.
        d_exec = arm_decoders(P, arms[name])
        d_fmt = fmt_decoders(P, fd, name) if fd else set()
        ctx.count("opcodes")
        if not d_exec and enc[name][0][1]:
            ctx.violation("decoder:" + name, "the dispatch arm of `%s` does not decode its operands" % name)
        for b, args, v in enc[name]:
            ctx.count("encoders")
            ctx.count("operands", len(args))
            for of in opcode_fns:
                try:
                    o = bits.Eval(P).call(of.id, [v])
                except bits.Diverges:
                    o = None
                if o != ("adt", name, ()):
                    ctx.violation("opcode:" + name, "the opcode of an encoded `%s` is not extracted back" % name, of.loc())
            for what, ds in (("machine", d_exec), ("disassembler", d_fmt)):
                for d in sorted(ds):
                    db = P.body(d)
                    ev = bits.Eval(P)
                    try:
                        r = ev.call(d, [v])
                    except bits.Diverges:
                        r = "diverges"
                    want = args[0] if len(args) == 1 else ("adt", "", tuple(args))
                    ctx.count("round_trips")
                    if len(args) == 0:
                        bad = r == "diverges"
                    else:
                        bad = norm(P, r) != norm(P, want)
                    if ev.truncations:
                        bad = True
                    if bad:
                        ctx.violation(
                            "roundtrip:%s:%s:%s" % (name, what, db.name),
                            "decoding an encoded `%s` with `%s` (used by the %s) does not give back the operands for every operand value: got %s"
                            % (name, db.name, what, show(r)),
                            db.loc(),
                        )
        ctx.sample("%s: %s" % (name, ", ".join(b.name for b, _, _ in enc[name])))
    ctx.floor("opcodes", 62)
    ctx.floor("round_trips", 120)
    packings(ctx)


def arm_decoders(P, arm):
    return decoders_in(P, arm, is_code_word)


def fmt_decoders(P, fd, name):
    b, sw, m = fd
    tgt = m[name]
    others = {t for n, t in m.items() if t != tgt}
    # Blocks of this arm only: reachable from its target before the merge point.
    mine = b.reach_from([tgt])
    for o in others:
        mine = mine - b.reach_from([o])
    res = set()
    for c in b.calls():
        if c.bb in mine and c.resolved in P.raw:
            cb = P.body(c.resolved)
            for i in range(len(c.args)):
                if cb.locals[i + 1] == "u32":
                    if cb.argc == 1 and cb.locals[0] not in ("alloc::string::String", vm.OPCODE):
                        res.add(c.resolved)
                    else:
                        k = i + 1
                        res |= decoders_in(P, cb, lambda b2, c2, j, k=k: b2.x_arg(c2, j) == b2.arg_expr(k))
    return res


def norm(P, v):
    if isinstance(v, tuple) and not isinstance(v, bits.Bits) and v:
        if v[0] == "adt":
            return ("adt", v[1], tuple(norm(P, x) for x in v[2]))
        if v[0] == "enum":
            return ("enum", v[1], bits.resize(v[2], 8, False))
    return v


def show(v):
    if isinstance(v, bits.Bits):
        return "".join("?" if x is None else (str(x) if not isinstance(x, tuple) else "%s%d" % (x[0][0], x[1])) + " " for x in reversed(v)).strip()
    if isinstance(v, tuple) and v and v[0] == "adt":
        return "(%s)" % "; ".join(show(x) for x in v[2])
    if isinstance(v, tuple) and v and v[0] == "enum":
        return show(v[2])
    return str(v)


def packings(ctx):
    """The other packed representations: array type descriptors and heap pointers."""
    P = ctx.P
    pat = "endbasic_core::bytecode::PackedArrayType"
    ety = "endbasic_core::ast::ExprType"
    if ctx.anchor(P.adts.get(pat), "the packed array type"):
        ctor = [b for b in P.bodies(crates={"endbasic_core"}, kinds=("method",)) if b.impl_self == pat and b.argc == 2 and pat in b.locals[0] and b.locals[1] == ety]
        getters = {
            ety: [b for b in P.bodies(crates={"endbasic_core"}, kinds=("method",)) if b.impl_self == pat and b.argc == 1 and b.locals[0] == ety],
            "u8": [b for b in P.bodies(crates={"endbasic_core"}, kinds=("method",)) if b.impl_self == pat and b.argc == 1 and b.locals[0] == "u8"],
        }
        ctx.anchor(ctor, "the constructor of the packed array type")
        ctx.anchor(getters[ety], "the element type accessor of the packed array type")
        ctx.anchor(getters["u8"], "the dimension count accessor of the packed array type")
        t = mk_arg(P, ety, "t")
        n = bits.sym("n", 4, 64)
        for c in ctor:
            try:
                v = bits.Eval(P).call(c.id, [t, n])
            except bits.Diverges:
                v = bits.TOP
            inner = v[2][0] if isinstance(v, tuple) and v[0] == "adt" and v[1] == "Ok" else bits.TOP
            for g in getters[ety]:
                r = safe(P, g.id, [inner])
                ctx.count("packings")
                if norm(P, r) != norm(P, t):
                    ctx.violation("packed:subtype", "the element type of a packed array type is not read back for every type and number of dimensions: %s" % show(r), g.loc())
            for g in getters["u8"]:
                r = safe(P, g.id, [inner])
                ctx.count("packings")
                if r != bits.resize(n, 8, False):
                    ctx.violation("packed:ndims", "the dimension count of a packed array type is not read back: %s" % show(r), g.loc())
            # More dimensions than the field holds must be refused.
            for k in range(4, 64):
                big = bits.Bits([None if i < 63 else 0 for i in range(64)][:k] + [1] + [None] * (63 - k))
                r = safe(P, c.id, [t, big])
                ctx.count("packing_overflows")
                if not (isinstance(r, tuple) and r and r[0] == "adt" and r[1] == "Err"):
                    ctx.violation("packed:overflow", "a number of dimensions that does not fit in the packed type is not refused", c.loc())
                    break
    ptr = "endbasic_core::mem::DatumPtr"
    if ctx.anchor(P.adts.get(ptr), "the datum pointer type"):
        enc = [b for b in P.bodies(crates={"endbasic_core"}, kinds=("method", "fn")) if b.locals[0] == "u64" and b.argc == 1 and b.locals[1] == "u32" and b.impl_self == ptr]
        dec = [b for b in P.bodies(crates={"endbasic_core"}, kinds=("method", "fn")) if b.locals[0] == ptr and b.argc == 1 and b.locals[1] == "u64"]
        ctx.anchor(enc, "the heap pointer encoder")
        ctx.anchor(dec, "the heap pointer decoder")
        i24 = bits.sym("i", 24, 32)
        for e in enc:
            v = safe(P, e.id, [i24])
            for d in dec:
                r = safe(P, d.id, [v])
                ctx.count("packings")
                if r != ("adt", "Heap", (("adt", "U24", (i24,)),)):
                    ctx.violation("ptr:heap", "decoding an encoded heap pointer does not give back the same heap index: %s" % show(r), d.loc())
        for d in dec:
            r = safe(P, d.id, [bits.sym("i", 24, 64)])
            ctx.count("packings")
            if r != ("adt", "Constant", (("adt", "U24", (i24,)),)):
                ctx.violation("ptr:constant", "decoding a constant pointer does not give back the same constant index: %s" % show(r), d.loc())
    ctx.floor("packings", 4)


def safe(P, fid, args):
    try:
        return bits.Eval(P).call(fid, args)
    except bits.Diverges:
        return "diverges"
