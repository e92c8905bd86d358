"""C14: variables, arrays and DATA hold what programs put in them.

The machine's array instructions and the references that built-ins receive are interpreted over arrays with
unknown dimensions, subscripts and elements; the element they touch is a term over subscripts and dimensions,
compared with one layout for all of them.  Assignments and DIM are compiled abstractly, and READ is
interpreted over every type of variable and datum."""


import itertools
import math
import multiprocessing
import os
import random

import terms
import traces
from frames import Frames
from strs import seg
from terms import fact, farg, holds, iarg, n
from traces import obj
from checks import builtins, c08, c13, machine
from checks.c06 import CORE, EXPR, TYPES, V
from checks.c08 import REGISTER
from checks.c12 import fields

I32 = (-2**31, 2**31 - 1)
TOP = 2**31 - 1
VALUES = obj("values")
PLACE = 95000
ELEMENT = ("sym", "n", ("element",))
LIMIT = n("limit")
FULL = 2**24 - 1


def c(x):
    return ("c", x)


def dim(i):
    return n("dim", i)


def sub(i):
    return n("sub", i)


class Lab14:
    """The machine over a heap with arrays whose contents are unknown."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = P = ctx.P
        self.m = machine.Machine(ctx)
        self.ok = self.m.ok
        if not self.ok:
            return
        self.data = [a for a, d in P.adts.items() if a.startswith(CORE + "::") and len(d["variants"]) == 1
                     and [f[1] for f in d["variants"][0]["fields"]].count("alloc::vec::Vec<usize>") == 1 and "alloc::vec::Vec<u64>" in [f[1] for f in d["variants"][0]["fields"]]]
        heap_ty = [self.m.exec.locals[i].replace("&mut ", "") for i in range(1, self.m.exec.argc + 1)]
        self.heap_ty = [t for t in heap_ty if t in P.adts and t not in (self.m.cty, self.m.image_ty)]
        if not ctx.anchor(len(self.data) == 1 or None, "the contents of arrays") or not ctx.anchor(len(self.heap_ty) == 1 or None, "the heap"):
            self.ok = False
            return
        self.data, self.heap_ty = self.data[0], self.heap_ty[0]
        self.base = self.m.initial(2)
        self.ok = bool(ctx.anchor(self.base is not None or None, "the machine's initial state"))

    # -- values --------------------------------------------------------------------------

    def array(self, dims, values=VALUES):
        return V("Array", ("v", self.data.rsplit("::", 1)[-1], tuple(("vec", tuple(dims)) if f[1] == "alloc::vec::Vec<usize>" else values for f in self.P.adts[self.data]["variants"][0]["fields"])))

    def heap(self, *items):
        out = []
        for f in self.P.adts[self.heap_ty]["variants"][0]["fields"]:
            out.append(("vec", tuple(items)) if f[1].startswith("alloc::vec::Vec<") else ("v", "U24", (LIMIT,)))
        return ("v", self.heap_ty.rsplit("::", 1)[-1], tuple(out))

    def items(self, heap):
        return next((x[1] for x in heap[2] if x is not None and x[0] == "vec"), None) if heap is not None and heap[0] == "v" else None

    def pointer(self, i):
        return c(2**64 - 1 - i)

    # -- hook ----------------------------------------------------------------------------

    def hook(self, cl, a, st, ai, env):
        d = [ai.deref(x, env) for x in a]
        me = d[0] if d else None
        if me is not None and traces.is_obj(me, "values"):
            k = d[1] if len(d) > 1 else None
            if cl.name in ("index", "index_mut", "get_unchecked", "get_unchecked_mut"):
                return [(("ref", PLACE, "[]"), st + (("touch", cl.name, k),))]
            if cl.name in ("get", "get_mut"):
                return [(V("Some", ("ref", PLACE, "[]")), st + (("touch", cl.name, k),))]
            if cl.name in ("as_slice", "as_mut_slice", "deref", "deref_mut"):
                return [(VALUES, st)]
            if cl.name == "len":
                return None
        # Filling new storage
        if cl.name in ("try_reserve", "try_reserve_exact") and len(d) == 2 and me is not None and me[0] == "vec" and not me[1]:
            return [(V("Ok", ("t", ())), st + (("room", d[1]),)), (V("Err", obj("no room")), st + (("noroom", d[1]),))]
        if cl.name == "resize" and len(d) == 3 and me is not None and me[0] == "vec" and not me[1] and a[0][0] == "ref":
            e = dict(env)
            ai.write([a[0][1], __import__("json").loads(a[0][2])], ("v", "filled", (d[1], d[2])), e)
            return [(("t", ()), st + (("fill", d[1]),), e)]
        if cl.name == "from_elem" and len(d) == 2:
            return [(("v", "filled", (d[1], d[0])), st + (("fill", d[1]),))]
        if cl.name in ("with_capacity", "reserve", "reserve_exact") and any(terms.is_num(x) for x in d):
            x = next(x for x in d if terms.is_num(x))
            return [(("vec", ()) if cl.name == "with_capacity" else ("t", ()), st + (("fill", x),))]
        return self.m.hook(cl, a, st, ai, env)

    def pick(self, cl, b):
        return b.crate == CORE

    # -- running -------------------------------------------------------------------------

    def go(self, body, env, facts):
        for v, iv in facts:
            fact(v, iv, env)
        old = traces.Traces
        traces.Traces = terms.Text
        try:
            outs, dead, over, t = traces.explore(self.P, body, self.hook, self.pick, (), 60000, env)
        finally:
            traces.Traces = old
        self.ctx.count("summaries")
        return outs, over or bool(dead), t

    def words(self, words, regs, heap, facts):
        m = self.m
        items = list(self.base[2])
        rs = list(items[m.regs_f[0]][1])
        for i, v in regs.items():
            rs[i] = v
        items[m.regs_f[0]] = ("vec", tuple(rs))
        env = {90000: ("v", self.base[1], tuple(items)), 90001: m.image(words), 90002: heap, PLACE: ELEMENT}
        for i in range(1, m.exec.argc + 1):
            t = m.exec.locals[i]
            env[i] = ("ref", 90000 if t.endswith(m.cty) else 90001 if t.endswith(m.image_ty) else 90002, "[]")
        outs, over, t = self.go(m.exec, env, facts)
        res = []
        for v, st, e in outs:
            cx = e.get(90000)
            diff = {i: x for i, (x, y) in enumerate(zip(cx[2][m.regs_f[0]][1], rs)) if x != y} if cx is not None and cx[0] == "v" and cx[2][m.regs_f[0]] is not None and cx[2][m.regs_f[0]][0] == "vec" else None
            res.append((v, st, e, diff))
        return res, over, t


def layouts(k):
    """Strides of the ways to lay out k dimensions, as permutations (fastest dimension first)."""
    return list(itertools.permutations(range(k)))


def flat(perm, subs, dims):
    o, m = 0, 1
    for i in perm:
        o += subs[i] * m
        m *= dims[i]
    return o


def points(k):
    out = []
    r = random.Random(7)
    some = {1: [(1,), (2,), (7,), (1000,), (TOP,)], 2: [(1, 1), (2, 3), (3, 2), (1, 5), (5, 1), (1000, 7), (40000, 70000), (TOP, 1), (1, TOP), (TOP, 3)],
            3: [(1, 1, 1), (2, 3, 5), (5, 2, 3), (1, 4, 1), (7, 1, 2), (300, 20, 1000), (1, 1, TOP)], 4: [(2, 3, 4, 5), (1, 2, 1, 3)]}[k]
    for dims in some:
        choices = [(-2**31, -1, 0, 1, d // 2, d - 1, d, d + 1 if d < TOP else d, TOP) for d in dims]
        al = list(itertools.product(*choices))
        good = list(itertools.product(*[sorted({0, d // 2, d - 1}) for d in dims]))
        if len(al) > 200:
            al = r.sample(al, 200)
        one = []
        for i in range(k):
            for x in choices[i]:
                one.append(tuple(x if j == i else min(1, dims[j] - 1) for j in range(k)))
        out += [(dims, s) for s in sorted(set(al + good + one))]
    return out


def access(ctx, lab, what, key, outs, over, t, k, loc, success, agreed):
    """Compares the outcomes [(kind, events, env, problem)] of one way to touch an element at all points."""
    if over or not outs:
        ctx.violation(key + ":summary", "%s cannot be summarised" % what, loc)
        return
    perms = layouts(k)
    for dims, subs in points(k):
        at = {("dim", i): d for i, d in enumerate(dims)}
        at.update({("sub", i): s for i, s in enumerate(subs)})
        at[("limit",)] = FULL
        ctx.count("points")
        shown = "%s with subscripts %s in an array of dimensions %s" % (what, ", ".join(map(str, subs)), ", ".join(map(str, dims)))
        valid = all(0 <= s < d for s, d in zip(subs, dims))
        try:
            if any(holds(b[2], at) for b in t.panics):
                ctx.violation(key + ":panic", "%s panics" % shown, loc)
                return
            got = [x for x in outs if holds(terms.conds(x[2]), at)]
        except terms.Unknown as u:
            ctx.violation(key + ":unknown", "%s depends on something else than subscripts and dimensions: %s" % (what, u), loc)
            return
        if len(got) != 1:
            ctx.violation(key + ":outcomes", "%s has %d outcomes" % (shown, len(got)), loc)
            return
        kind, st, e, problem = got[0]
        touched = [x for x in st if x[0] == "touch"]
        if kind not in ("ok", "error"):
            ctx.violation(key + ":odd", "%s neither succeeds nor fails" % shown, loc)
            return
        if (kind == "ok") != valid:
            ctx.violation(key + (":accepts" if kind == "ok" else ":rejects"), "%s is %s" % (shown, "accepted" if kind == "ok" else "rejected"), loc)
            return
        if problem:
            ctx.violation(key + ":effects", "%s %s" % (shown, problem), loc)
            return
        if not valid:
            if touched:
                ctx.violation(key + ":effects", "%s fails but touches the array" % shown, loc)
                return
            continue
        if not touched:
            ctx.violation(key + ":nothing", "%s touches no element" % shown, loc)
            return
        try:
            where = {terms.ev(x[2], at) for x in touched}
        except terms.Unknown as u:
            ctx.violation(key + ":unknown", "%s touches an element that depends on %s" % (shown, u), loc)
            return
        perms = [p for p in perms if where == {flat(p, subs, dims)}]
        if not perms:
            ctx.violation(key + ":element", "%s touches element %s, which is not the element of these subscripts" % (shown, ", ".join(map(str, sorted(where)))), loc)
            return
    both = [p for p in perms if p in agreed.get(k, perms)]
    if not both:
        ctx.violation(key + ":layout", "%s lays arrays of %d dimensions out in another way than other accesses" % (what, k), loc)
        return
    agreed[k] = both


def stopped(v):
    return "ok" if v is not None and v[0] == "v" and v[1] == "Eof" else "error" if v is not None and v[0] == "v" and v[1] == "Exception" else None


def machine_access(ctx, lab, agreed):
    m, w, reg = lab.m, lab.m.word, lab.m.reg
    loc = m.exec.loc()
    text = V("Text", ("s", ""))
    other = lab.array([c(9)], obj("other values"))
    for k in (1, 2, 3, 4):
        for arr, first in ((64, 70), (3, 65)):
            facts = [(sub(i), I32) for i in range(k)] + [(dim(i), (1, TOP)) for i in range(k)] + [(LIMIT, (0, FULL)), (ELEMENT, (0, 2**64 - 1)), (n("value"), (0, 2**64 - 1))]
            regs = {arr: lab.pointer(2), 90: n("value")}
            regs.update({first + i: sub(i) for i in range(k)})
            heap = lab.heap(text, other, lab.array([dim(i) for i in range(k)]))
            for name, word, good in (("LoadArray", w("LoadArray", reg(91), reg(arr), reg(first)), {91: ELEMENT}), ("StoreArray", w("StoreArray", reg(arr), reg(90), reg(first)), {})):
                outs, over, t = lab.words([word, w("Eof")], regs, heap, facts)
                res = []
                for v, st, e, diff in outs:
                    kind = stopped(v)
                    want = good if kind == "ok" else {}
                    el = n("value") if kind == "ok" and name == "StoreArray" else ELEMENT
                    problem = None
                    if diff != want:
                        problem = "changes other registers or returns something else than the element"
                    elif e.get(PLACE) != el:
                        problem = "leaves something else in the element"
                    elif e.get(90002) != heap:
                        problem = "changes the rest of the heap"
                    res.append((kind, st, e, problem))
                what = "reading an element" if name == "LoadArray" else "assigning to an element"
                access(ctx, lab, what, "%s:%d" % (name, k), res, over, t, k, loc, good, agreed)


def references(ctx, lab, agreed):
    """The references that built-ins receive."""
    P = ctx.P
    scope_ty = CORE + "::callable::Scope"
    for ty in ("RegisterRef", "RegisterRefMut"):
        full = CORE + "::callable::" + ty
        if not ctx.anchor(P.adts.get(full), "the references that built-ins receive"):
            continue
        mine = [b for b in P.bodies(crates={CORE}, kinds=("method", "fn")) if (b.impl_self or "").split("<")[0] == full and not b.impl_trait]
        scope = struct_of(lab, scope_ty, {"regs": ("ref", 94000, "[]"), "heap": ("ref", 90002, "[]")})
        for b in mine:
            if b.argc == 1 and "[usize]" in b.locals[0] or b.name == "array_dimensions":
                for k in (1, 2, 3):
                    facts = [(dim(i), (1, TOP)) for i in range(k)] + [(LIMIT, (0, FULL))]
                    env = place(lab, k, scope, full, "Integer")
                    outs, over, t = lab.go(b, env, facts)
                    ctx.count("references")
                    if over or len(outs) != 1 or lab_deep(t, outs[0]) != ("vec", tuple(dim(i) for i in range(k))):
                        ctx.violation("dimensions:%s" % ty, "the dimensions of an array as seen by built-ins are not those of the array", b.loc())
                        break
            elif b.argc == 2 and "[i32]" in b.locals[2] and "Result<" in b.locals[0]:
                for k in (1, 2, 3):
                    facts = [(sub(i), I32) for i in range(k)] + [(dim(i), (1, TOP)) for i in range(k)] + [(LIMIT, (0, FULL)), (ELEMENT, (0, 2**64 - 1))]
                    env = place(lab, k, scope, full, "Integer")
                    env[2] = ("vec", tuple(sub(i) for i in range(k)))
                    outs, over, t = lab.go(b, env, facts)
                    ctx.count("references")
                    res = []
                    for v, st, e in outs:
                        kind = {"Ok": "ok", "Err": "error"}.get(v[1]) if v is not None and v[0] == "v" else None
                        good = kind != "ok" or str(v[2][0]).count("'element'") == 1
                        res.append((kind, st, e, None if good and e.get(PLACE) == ELEMENT else "returns something else than the element"))
                    access(ctx, lab, "reading an element from a built-in", "deref:%s:%d" % (ty, k), res, over, t, k, b.loc(), None, agreed)


def lab_deep(t, out):
    return t.deep(t.deref(out[0], out[2]), out[2])


def struct_of(lab, ty, kw):
    fs = lab.P.adts[ty]["variants"][0]["fields"]
    return ("v", ty.rsplit("::", 1)[-1], tuple(kw.get(f[0], obj(f[0])) for f in fs))


def place(lab, k, scope, full, vtype):
    heap = lab.heap(V("Text", ("s", "")), lab.array([dim(i) for i in range(k)]))
    regs = ("vec", tuple(lab.pointer(1) if i == 5 else c(0) for i in range(8)))
    ref = struct_of(lab, full, {"scope": ("ref", 94001, "[]"), "index": c(5), "vtype": V(vtype)})
    return {1: ("ref", 94002, "[]"), 94000: regs, 94001: scope, 94002: ref, 90002: heap, PLACE: ELEMENT}


def allocation(ctx, lab):
    P, m, w, reg = ctx.P, lab.m, lab.m.word, lab.m.reg
    loc = m.exec.loc()
    mk = [b for b in P.bodies(crates={CORE}, kinds=("method", "fn")) if b.argc == 2 and b.locals[1].endswith("::ExprType") and b.locals[2] == "usize" and b.locals[0].startswith("core::result::Result<")]
    if not ctx.anchor(len(mk) == 1 or None, "the packed description of new arrays"):
        return
    for ty in TYPES:
        for k in (1, 2, 3, 4):
            ai = Frames(P, mk[0], lambda *x: None, lab.pick, 2000)
            r = ai.go({1: V(ty), 2: c(k)}, ())
            r = [ai.deep(v, e) for v, e, _ in r]
            if len(r) != 1 or r[0] is None or r[0][1] != "Ok":
                ctx.violation("packed:%s:%d" % (ty, k), "an array of %d dimensions cannot be described" % k, mk[0])
                return
            packed = r[0][2][0]
            first = 70
            facts = [(dim(i), I32) for i in range(k)] + [(LIMIT, (0, FULL))]
            regs = {first + i: dim(i) for i in range(k)}
            text = V("Text", ("s", ""))
            heap = lab.heap(text, text)
            outs, over, t = lab.words([w("AllocArray", reg(91), packed, reg(first)), w("Eof")], regs, heap, facts)
            key, what = "alloc:%s:%d" % (ty, k), "DIM of %d dimensions AS %s" % (k, ty)
            if over or not outs:
                ctx.violation(key + ":summary", "%s cannot be summarised" % what, loc)
                continue
            allocate(ctx, lab, key, what, ty, k, outs, t, heap, loc)


def allocate(ctx, lab, key, what, ty, k, outs, t, heap, loc):
    vals = (-2**31, -1, 0, 1, 2, 10, 65536, TOP)
    for dims in itertools.product(vals, repeat=k) if k < 3 else random.Random(k).sample(list(itertools.product(vals, repeat=k)), 300) + [(TOP,) * k, (1,) * k, (2, 3, 4, 5)[:k]]:
        for limit in (FULL, 2, 3):
            at = {("dim", i): d for i, d in enumerate(dims)}
            at[("limit",)] = limit
            ctx.count("points")
            shown = "%s with dimensions %s" % (what, ", ".join(map(str, dims)))
            total = math.prod(dims)
            valid = all(d > 0 for d in dims) and total < 2**64
            try:
                if any(holds(b[2], at) for b in t.panics):
                    ctx.violation(key + ":panic", "%s panics" % shown, loc)
                    return
                got = [x for x in outs if holds(terms.conds(x[2]), at)]
                ok = False
                for v, st, e, diff in got:
                    kind = stopped(v)
                    room = [terms.ev(x[1], at) for x in st if x[0] == "room"]
                    for x in st:
                        if x[0] == "fill" and terms.ev(x[1], at) > 2**28 and not any(y >= terms.ev(x[1], at) for y in room):
                            ctx.violation(key + ":abort", "%s fills %d elements without having reserved the space, which aborts instead of failing" % (shown, terms.ev(x[1], at)), loc)
                            return
                    items = lab.items(e.get(90002))
                    if kind == "error":
                        if diff or items != lab.items(heap):
                            ctx.violation(key + ":effects", "%s fails but changes registers or the heap" % shown, loc)
                            return
                        if valid and limit > 2 and total < 2**28 and not any(x[0] == "noroom" for x in st):
                            ctx.violation(key + ":rejects", "%s is rejected" % shown, loc)
                            return
                        continue
                    if kind != "ok":
                        ctx.violation(key + ":odd", "%s neither succeeds nor fails" % shown, loc)
                        return
                    if not valid or limit <= 2:
                        ctx.violation(key + ":accepts", "%s is accepted%s" % (shown, "" if limit > 2 else " although the heap is full"), loc)
                        return
                    ok = True
                    a = items[-1][2][0] if items is not None and len(items) == 3 and items[:2] == lab.items(heap) and items[-1] is not None and items[-1][1] == "Array" else None
                    want = lab.pointer(0) if ty == "Text" else c(0)
                    if a is None or diff != {91: lab.pointer(2)}:
                        ctx.violation(key + ":result", "%s does not produce a new array" % shown, loc)
                        return
                    ds = next((x for x in a[2] if x is not None and x[0] == "vec"), None)
                    vs = next((x for x in a[2] if x is not None and x[0] == "v" and x[1] == "filled"), None)
                    if ds is None or [terms.ev(x, at) for x in ds[1]] != list(dims):
                        ctx.violation(key + ":dimensions", "%s makes an array of other dimensions" % shown, loc)
                        return
                    if vs is None or terms.ev(vs[2][0], at) != total or vs[2][1] != want:
                        ctx.violation(key + ":elements", "%s does not make one %s element per combination of subscripts" % (shown, "empty" if ty == "Text" else "zero"), loc)
                        return
                if valid and limit > 2 and total < 2**28 and not ok:
                    ctx.violation(key + ":rejects", "%s is never accepted" % shown, loc)
                    return
            except terms.Unknown as u:
                ctx.violation(key + ":unknown", "%s depends on something else than the dimensions: %s" % (what, u), loc)
                return


# -- LBOUND and UBOUND ----------------------------------------------------------------------


class Bounds:
    """An array of unknown dimensions, seen by a built-in."""

    def __init__(self, k):
        self.k = k

    def hook(self, cl, a, st, ai, env):
        if cl.path.startswith("endbasic_core::callable::RegisterRef") and cl.name == "array_dimensions":
            return [(("vec", tuple(dim(i) for i in range(self.k))), st)]
        return None


def failed(v):
    return v is not None and v[0] == "v" and v[1] == "Err"


def succeeded(v):
    return v is not None and v[0] == "v" and v[1] == "Ok"


def bounds(ctx):
    P = ctx.P
    B = builtins.builtins(P)
    for name in ("LBOUND", "UBOUND"):
        if not ctx.anchor(B.get(name), "the function %s" % name):
            continue
        for k in (1, 2, 3, 4):
            for given in (False, True):
                env = {}
                for i in range(k):
                    fact(dim(i), (1, TOP), env)
                args = [("ref", c13.struct(P, "endbasic_core::callable::RegisterRef", vtype=V("Integer")))] + ([("integer", iarg(0, env))] if given else [])
                outs, over, t, body = c13.run_one(P, name, args, env, Bounds(k))
                ctx.count("summaries")
                key = "%s:%d:%s" % (name, k, given)
                what = "%s of an array of %d dimension%s" % (name, k, "s" if k > 1 else "")
                if over or not outs:
                    ctx.violation(key + ":summary", "%s cannot be summarised" % what, body)
                    continue
                one_bound(ctx, name, key, what, k, given, outs, t, body)


def one_bound(ctx, name, key, what, k, given, outs, t, body):
    consts = set()
    for v, st, e in outs:
        terms.constants((terms.conds(e), st), consts)
    asked = sorted({x + d for x in consts for d in (-1, 0, 1) if isinstance(x, int) and I32[0] <= x + d <= I32[1]} | {-2**31, -2, -1, 0, 1, 2, 3, 4, 5, 6, 127, 128, 255, 256, 257, 258, 65536, 65537, TOP}) if given else [1]
    for dims in ([3, 7, 11, 13], [TOP, 1, 2, TOP], [1, 5, TOP, 300], [70000, 2**24, 65536, 1]):
        for q in asked:
            at = {("dim", i): dims[i] for i in range(k)}
            at[("arg", 0)] = q
            ctx.count("points")
            shown = "%s of dimensions %s" % (name, ", ".join(map(str, dims[:k]))) + (" asked for dimension %d" % q if given else "")
            good = 1 <= q <= k if given else k == 1
            try:
                if any(holds(b[2], at) for b in t.panics):
                    ctx.violation(key + ":panic", "%s panics" % shown, body)
                    return
                got = [x for x in outs if holds(terms.conds(x[2]), at)]
                if len(got) != 1 or not (succeeded(got[0][0]) or failed(got[0][0])):
                    ctx.violation(key + ":outcomes", "%s has %d outcomes" % (shown, len(got)), body)
                    return
                rets = [(x[1], terms.ev(x[2], at)) for x in got[0][1] if x[0] == "return"]
            except terms.Unknown as u:
                ctx.violation(key + ":unknown", "%s depends on something else than the dimensions: %s" % (what, u), body)
                return
            if succeeded(got[0][0]) != good:
                ctx.violation(key + (":rejects" if good else ":accepts"), "%s is %s" % (shown, "rejected" if good else "accepted"), body)
                return
            if any(x[0] not in ("return",) for x in got[0][1]):
                ctx.violation(key + ":odd", "%s reads arguments that are not there" % shown, body)
                return
            want = [("integer", 0 if name == "LBOUND" else dims[q - 1] - 1)] if good else []
            if rets != want:
                ctx.violation(key + ":result", "%s returns %s instead of %s" % (shown, rets[0][1] if rets else "nothing", want[0][1] if want else "nothing"), body)
                return


# -- READ and RESTORE -----------------------------------------------------------------------


class Variables:
    """The variables that READ assigns to."""

    def hook(self, cl, a, st, ai, env):
        if cl.path.startswith("endbasic_core::callable::RegisterRefMut") and cl.name.startswith("set_"):
            who, v = ai.deep(ai.deref(a[0], env), env), ai.deep(a[1], env)
            st2 = st + (("set", who, cl.name[4:], v),)
            if cl.name == "set_string":
                return [(V("Ok", ("t", ())), st2), (V("Err", obj("heap error")), st + (("fail", "set_string"),))]
            return [(("t", ()), st2)]
        return None


SETTER = {"Boolean": "boolean", "Double": "double", "Integer": "integer", "Text": "string"}
DATA = {"Boolean": c(1), "Double": farg(1), "Integer": n("arg", 0), "Text": ("s", seg("datum")), None: None}
ROUND = ((0.0, 0), (-0.0, 0), (0.4, 0), (-0.4, 0), (1.6, 2), (-1.6, -2), (2.2, 2), (1e9, 10**9), (2147483647.0, TOP), (-2147483648.0, -2**31), (2147483648.0, None), (-2147483649.0, None), (2147483647.2, TOP), (2147483647.8, None),
         (-2147483648.2, -2**31), (-2147483648.8, None), (1e300, None), (-1e300, None), (math.inf, None), (-math.inf, None), (math.nan, None))
INTS = (-2**31, -1, 0, 1, 255, 256, 2**24 + 1, TOP)
DEFAULT = {"Boolean": c(0), "Double": c(0.0), "Integer": c(0), "Text": ("s", "")}


def some(kind):
    return V("None") if kind is None else V("Some", V(kind, DATA[kind]))


def convert(kind, ty, at):
    """What a variable of type `ty` must get from a datum: (True, value) or (False, None) for an error."""
    if kind is None:
        return True, DEFAULT[ty]
    if kind == ty:
        return True, c(at[("arg", 0)]) if kind == "Integer" else c(at[("arg", 1)]) if kind == "Double" else DATA[kind]
    if ty == "Double" and kind == "Integer":
        return True, c(float(at[("arg", 0)]))
    if ty == "Integer" and kind == "Double":
        r = dict((repr(x), y) for x, y in ROUND)[repr(at[("arg", 1)])]
        return (True, c(r)) if r is not None else (False, None)
    return False, None


def same(x, y):
    return x == y and repr(x) == repr(y) or x is not None and y is not None and x[0] == y[0] == "c" and isinstance(x[1], float) and isinstance(y[1], float) and math.isnan(x[1]) and math.isnan(y[1]) \
        or x is not None and y is not None and x[0] == y[0] == "c" and not isinstance(x[1], float) and not isinstance(y[1], float) and int(x[1]) == int(y[1])


def index_of(me):
    return [x for x in me[2] if x is not None and (x[0] == "c" or terms.is_num(x))] if me is not None and me[0] == "v" else []


def reading(ctx):
    P = ctx.P
    B = builtins.builtins(P)
    if not ctx.anchor(B.get("READ"), "the command READ") or not ctx.anchor(B.get("RESTORE"), "the command RESTORE"):
        return
    holder = lambda ty, at: ("v", ty.rsplit("::", 1)[-1], tuple(c(at) if "RefCell<usize>" in f[1] else obj(f[0]) for f in fields(P, ty)))
    ty, body = B["READ"]
    if not ctx.anchor(len([f for f in fields(P, ty) if "RefCell<usize>" in f[1]]) == 1 or None, "the position of READ"):
        return
    ref_ty = "endbasic_core::callable::RegisterRef"
    if not ctx.anchor(P.adts.get(ref_ty), "the references that built-ins receive"):
        return

    def ref(i, vt):
        fs = fields(P, ref_ty)
        return ("ref", ("v", "RegisterRef", tuple(V(vt) if f[1].endswith("::ExprType") else c(i) if f[1] in ("u8", "usize", "u16", "u32") else obj(f[0]) for f in fs)))

    def tag(sep):
        return ("tag", V("Pointer", V(sep)))
    cases = []
    kinds = ["Boolean", "Double", "Integer", "Text", None]
    for vt in TYPES:
        for kind in kinds:
            for at, before in ((0, []), (2, ["Text", None])):
                cases.append(([vt], before + [kind], at))
        cases.append(([vt], [], 0))
        cases.append(([vt], ["Integer"], 1))
        cases.append(([vt], ["Integer"], 5))
    for a, b in itertools.product(TYPES, repeat=2):
        cases.append(([a, b], [a, b], 0))
        cases.append(([a, b], [a, None], 0))
        cases.append(([a, b], [None, "Text" if b != "Text" else "Integer"], 0))
        cases.append(([a, b], [a], 0))
    cases.append((["Integer", "Text", "Double"], ["Text", None, "Integer", None, "Boolean"], 1))
    cases.append((["Integer", "Text", "Double"], ["Integer", "Text", "Integer", None, "Boolean"], 0))
    for vts, data, at0 in cases:
        env = {}
        iarg(0, env)
        args = []
        for j, vt in enumerate(vts):
            args += [tag("Long" if j + 1 < len(vts) else "End"), ref(10 + j, vt)]
        me = holder(ty, at0)
        outs, over, t, _ = c13.run_one(P, "READ", args, env, Variables(), me=me, data=("vec", tuple(some(k) for k in data)))
        ctx.count("summaries")
        shown = "READ of %s with %s left in DATA" % (", ".join(x.upper() for x in vts), ", ".join((k or "empty").upper() for k in data[at0:]) or "nothing")
        key = "read:%s:%s" % ("-".join(vts), "-".join(str(k) for k in data[at0:]))
        if over or not outs:
            ctx.violation(key + ":summary", "%s cannot be summarised" % shown, body)
            return
        if not one_read(ctx, key, shown, vts, data, at0, outs, t, body):
            return
    # RESTORE and clearing the machine
    ty2, b2 = B["RESTORE"]
    who = [("RESTORE", b2, ty2)]
    for b in P.bodies(crates={body.crate}, kinds=("method", "fn")):
        if (b.impl_trait or "").endswith("::Clearable") and b.name == "reset_state" and (b.impl_self or "").split("<")[0] in P.adts \
                and any("RefCell<usize>" in f[1] for f in fields(P, (b.impl_self or "").split("<")[0])):
            who.append(("clearing the machine", b, b.impl_self.split("<")[0]))
    ctx.anchor(len(who) > 1 or None, "what clears the position of READ")
    for what, b, sty in who:
        me = holder(sty, 7)
        outs, over, t, _ = c13.run_one(P, None, [], {}, Variables(), me=me, body=b)
        ctx.count("summaries")
        if over or not outs or t.panics or any(failed(v) or index_of(e.get(89999)) != [c(0)] for v, st, e in outs):
            ctx.violation("restore:%s" % what, "%s does not make READ start over from the first value" % what, b)


def one_read(ctx, key, shown, vts, data, at0, outs, t, body):
    points = [{("arg", 0): i, ("arg", 1): 1.5 if i % 2 else -2.0} for i in INTS] + [{("arg", 0): 5, ("arg", 1): x} for x, _ in ROUND]
    if "Double" not in data[at0:]:
        points = points[:len(INTS)]
    if "Integer" not in data[at0:]:
        points = points[len(INTS):] or points[:1]
    for at in points:
        if repr(at[("arg", 1)]) not in [repr(x) for x, _ in ROUND]:
            at[("arg", 1)] = 1e9
        ctx.count("points")
        here = shown + " at %s, %r" % (at[("arg", 0)], at[("arg", 1)])
        want, good = [], True
        for j, vt in enumerate(vts):
            if at0 + j >= len(data):
                good = False
                break
            good, v = convert(data[at0 + j], vt, at)
            if not good:
                break
            want.append((10 + j, SETTER[vt], v))
        try:
            if any(holds(b[2], at) for b in t.panics):
                ctx.violation(key + ":panic", "%s panics" % here, body)
                return False
            got = [x for x in outs if holds(terms.conds(x[2]), at)]
        except terms.Unknown as u:
            ctx.violation(key + ":unknown", "%s depends on something else than the data: %s" % (here, u), body)
            return False
        full = [x for x in got if any(y[0] == "fail" for y in x[1])]
        rest = [x for x in got if x not in full]
        if len(rest) != 1 or any(not failed(x[0]) for x in full) or not (failed(rest[0][0]) or succeeded(rest[0][0])):
            ctx.violation(key + ":outcomes", "%s has %d outcomes" % (here, len(rest)), body)
            return False
        v, st, e = rest[0]
        if succeeded(v) != good:
            ctx.violation(key + (":rejects" if good else ":accepts"), "%s is %s" % (here, "rejected" if good else "accepted"), body)
            return False
        sets = [(next((y[1] for y in x[1][2] if y is not None and y[0] == "c"), None) if x[1] is not None and x[1][0] == "v" else None, x[2], c13.at_point(x[3], at)) for x in st if x[0] == "set"]
        if any(x[0] not in ("set",) for x in st):
            ctx.violation(key + ":odd", "%s reads arguments that are not there" % here, body)
            return False
        if [x[:2] for x in sets] != [x[:2] for x in want] or not all(same(x[2], y[2]) for x, y in zip(sets, want)):
            ctx.violation(key + ":values", "%s stores %s; it should store %s" % (here, "; ".join("%s %s" % (x[1], c13.plain(x[2])) for x in sets) or "nothing", "; ".join("%s %s" % (x[1], c13.plain(x[2])) for x in want) or "nothing"), body)
            return False
        if good and index_of(e.get(89999)) != [c(at0 + len(vts))]:
            ctx.violation(key + ":position", "%s does not move on by %d values" % (here, len(vts)), body)
            return False
    return True



# -- compiling assignments and definitions --------------------------------------------------


BINARY = ("Add", "Subtract", "Multiply", "Divide", "Modulo", "Power", "And", "Or", "Xor", "Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "ShiftLeft", "ShiftRight")
GLOBALS = 64


def is_register(x):
    return x is not None and (x[0] == "v" and x[1] == "Register" or x[:2] in (("sym", "tmp"), ("sym", "var")))


class Compiler(c08.Lab):
    """The compiler with variables of known types and registers; expressions are compiled for real."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.compile_errors = False
        self.vars, self.callables = {}, {}
        if self.ok:
            self.files = {self.W.expr.file} | {b.file for b in self.P.bodies(crates={CORE}) if (b.impl_self or "") == REGISTER}
            self.arrayinfo = self.P.adts.get(CORE + "::compiler::syms::ArrayInfo")
            self.ok = bool(ctx.anchor(self.arrayinfo, "what the compiler knows of arrays"))

    def pick(self, c, b):
        return b.crate == CORE and "compiler::syms::" not in (b.impl_self or b.id)

    def special(self, b):
        return True

    def hook(self, c, args, st, ai, env):
        r, W = c.resolved, self.W
        if c.name in ("eq", "ne") and len(args) == 2:
            x, y = (ai.deep(a, env) for a in args)
            if is_register(x) and is_register(y):
                return [(("c", int((x == y) == (c.name == "eq"))), st)]
        if r in (W.expr.id, W.as_type.id):
            b = W.expr if r == W.expr.id else W.as_type
            e = ai.deep(args[self.position(b, EXPR)], env)
            if e is not None and e[0] == "v" and e not in self.names:
                return None
        return super().hook(c, args, st, ai, env)

    def name_of(self, v):
        return next((x[1] for x in v[2] if x is not None and x[0] == "s"), None) if v is not None and v[0] == "v" else None

    def lookup(self, b, vals, st):
        name = self.name_of(vals[1])
        ref = next((x for x in vals[1][2] if x is not None and x[0] == "v" and x[1] in ("Some", "None")), None) if vals[1] is not None and vals[1][0] == "v" else None
        if name in self.vars:
            reg, t = self.vars[name]
            if ref is not None and ref[1] == "Some" and ref[2][0] != V(t if isinstance(t, str) else t[0]):
                return [(V("Err", V("IncompatibleTypeAnnotationInReference", vals[1])), st)]
            proto = V("Scalar", V(t)) if isinstance(t, str) else V("Array", ("v", "ArrayInfo", tuple(V(t[0]) if f[1].endswith("ExprType") else c(t[1]) for f in self.arrayinfo["variants"][0]["fields"])))
            return [(V("Ok", ("t", (V("Register", c(reg)), proto))), st)]
        return [(V("Err", V("UndefinedSymbol", vals[1], obj("scope"))), st)]

    def contains(self, b, vals, st):
        if b.locals[b.argc] == REGISTER:
            return [(c(1 if vals[1] is not None and vals[1][:2] == ("sym", "tmp") and vals[1][2] == sum(1 for e in st if e[0] == "reg") - 1 else 0), st)]
        return [(c(int(self.name_of(vals[1]) in self.present)), st + (("contains", b.name),))]

    present = ()

    def reads(self, v):
        """The registers of the variables in a piece of syntax."""
        out = []
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "v" and v[1] == "VarRef" and self.name_of(v) in self.vars:
                out.append(V("Register", c(self.vars[self.name_of(v)][0])))
            for x in v:
                out += self.reads(x)
        return out

    def symbols(self, cl, b, args, st, ai, env):
        vals = [ai.deep(a, env) for a in args]
        if cl.name in ("eq", "ne") and len(vals) == 2:
            same = self.name_of(vals[0]) == self.name_of(vals[1]) and self.name_of(vals[0]) is not None
            return [(c(int(same == (cl.name == "eq"))), st)]
        rt = b.locals[0]
        if rt.endswith("SymbolKey") and vals[0] is not None and vals[0][1] == "SymbolKey":
            return [(vals[0], st)]
        if "Option<" in rt and "CallableMetadata" in rt:
            md = self.callables.get(self.name_of(vals[1]))
            return [(V("Some", md) if md is not None else V("None"), st)]
        return super().symbols(cl, b, args, st, ai, env)

    def extra(self, cl, b, args, st, ai, env):
        if b is not None and self.codegen_ref(cl, args, b) is not None and any(x.endswith("::CallSpan") for x in b.locals[1:b.argc + 1]):
            # The arguments of a call, compiled into consecutive temporaries (C05, C06).
            span = ai.deep(args[next(i for i in range(1, b.argc + 1) if b.locals[i].endswith("::CallSpan")) - 1], env)
            tmp = ("sym", "tmp", sum(1 for e in st if e[0] == "reg"))
            return [(V("Ok", ("t", (tmp, ("vec", ())))), s, e) for s, e in self.emitted(self.codegen_ref(cl, args, b), "ARGS", (tmp, ("read", tuple(self.reads(span)))), st + (("reg",),), ai, env)]
        d = [ai.deep(a, env) for a in args]
        if d and d[0] is not None and d[0][0] == "v" and d[0][1] == "Meta!" and b is not None:
            if b is not None and b.locals[0] == "bool":
                return [(d[0][2][1] if "user" in cl.name else d[0][2][2] if "argless" in cl.name else c(0), st)]
            if b is not None and "Option<" in b.locals[0] and "ExprType" in b.locals[0]:
                return [(V("Some", d[0][2][0]), st)]
        return None


def sym(lab, name):
    return V("Symbol", lab.S("SymbolSpan", vref=lab.vref(name)))


def pair(lab, o, x, y):
    return V(o, lab.S("BinaryOpSpan", lhs=x, rhs=y))


def lit(lab, t):
    return V(t, lab.S(t + "Span", value=c({"Integer": 3, "Double": 1.5, "Boolean": 1}[t]) if t != "Text" else ("s", seg("literal"))))


CALLS = ("Call", "Upcall", "UpcallAsync")


def simulate(code, events, dest, ndims=None):
    """The value of `dest` after the instructions, and what calls see of it."""
    regs, seen, args = {}, [], None
    fixups = {e[1]: e[2] for e in events if e[0] == "fixup"}

    def get(r):
        return regs.get(r, ("before", r))
    for at, ins in enumerate(code):
        if ins is None or ins[0] != "sym" or ins[1] != "op":
            return None
        name, a = ins[2], ins[3]
        if name in ("EVAL", "EVALAS"):
            regs[a[0]] = (name,) + tuple(a[1:])
        elif name == "Move":
            regs[a[0]] = get(a[1])
        elif name == "ARGS":
            args = tuple(get(x) for x in a[1][1])
        elif name in CALLS or name == "Nop" and c(at) in fixups and fixups[c(at)][1] == "Call":
            x = a[-1] if name in CALLS else next(x for x in fixups[c(at)][2] if is_register(x))
            what = ("call", a[0] if name in CALLS else next(y for y in fixups[c(at)][2] if y != x), args)
            args = None
            seen.append(what + (get(dest) if name in ("Call", "Nop") else None,))
            regs[x] = ("result", what, len(seen))
        elif name == "LoadArray":
            k = (ndims or {}).get(a[1])
            if k is None or a[2][:2] != ("sym", "tmp"):
                return None
            regs[a[0]] = ("element", get(a[1])) + tuple(get(("sym", "tmp", a[2][2] + i)) for i in range(k))
        elif a and is_register(a[0]):
            rs = [x for x in a if is_register(x)]
            others = tuple(x for x in a if not is_register(x))
            regs[a[0]] = (name, others) + tuple(get(x) for x in (rs if len(rs) == 1 and not others else rs[1:]))
        else:
            return None
    return get(dest), seen


def shapes(lab, x, o, others):
    """Expressions with `x` in every place."""
    S = lab.S
    arg = lambda e: S("ArgSpan", expr=V("Some", e), sep=V("End"))
    call = lambda f, *xs: V("Call", S("CallSpan", vref=lab.vref(f), args=("vec", tuple(arg(e) for e in xs))))
    yield "%s", x
    yield "-%s", V("Negate", S("UnaryOpSpan", expr=x))
    yield "NOT %s", V("Not", S("UnaryOpSpan", expr=x))
    for b in BINARY:
        for y in others:
            yield "%s " + b + " other", pair(lab, b, x, y)
            yield "other " + b + " %s", pair(lab, b, y, x)
        yield "other " + b + " NOT %s", pair(lab, b, o, V("Not", S("UnaryOpSpan", expr=x)))
        yield "%s " + b + " %s", pair(lab, b, x, x)
        if b not in ("Add", "And", "Divide", "Power", "Less", "ShiftLeft"):
            continue
        yield "other " + b + " (other Add %s)", pair(lab, b, o, pair(lab, "Add", o, x))
        yield "other " + b + " (%s Add other)", pair(lab, b, o, pair(lab, "Add", x, o))
        yield "(other Add %s) " + b + " other", pair(lab, b, pair(lab, "Add", o, x), o)
        yield "other " + b + " -%s", pair(lab, b, o, V("Negate", S("UnaryOpSpan", expr=x)))
    n = sym(lab, "int")
    for f in ("table", "user", "builtin"):
        yield f + "(%s)", call(f, x)
        yield "other Add " + f + "(%s)", pair(lab, "Add", o, call(f, x))
        yield f + "(%s) Add %s", pair(lab, "Add", call(f, x), x)
        yield "other Add " + f + "(int Add %s)", pair(lab, "Add", o, call(f, pair(lab, "Add", n, x)))
    yield "matrix(int, %s)", call("matrix", n, x)
    yield "other Add matrix(%s, int)", pair(lab, "Add", o, call("matrix", x, n))


class Recorder:
    """Collects what a part of the analysis reports."""

    def __init__(self):
        self.vs, self.counts = [], {}

    def violation(self, *v):
        self.vs.append(v)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def parallel(f, items):
    """`f` of each item, in processes of their own."""
    global _work
    _work = f
    with multiprocessing.get_context("fork").Pool(max(1, min(len(items), os.cpu_count() or 1))) as pool:
        return pool.map(_call, items, 1)


def _call(x):
    return _work(x)


def one_type(lab, t):
    ctx = lab.ctx = Recorder()
    where = lab.stmt.loc()
    lab.vars = {"local": (70, t), "glob": (5, t), "other": (71, t), "ref": (75, t), "int": (72, "Integer"), "double": (76, "Double"), "table": (73, (t, 1)), "matrix": (74, (t, 2))}
    lab.callables = {"user": ("v", "Meta!", (V(t), c(1), c(0))), "builtin": ("v", "Meta!", (V(t), c(0), c(0))), "plain": ("v", "Meta!", (V(t), c(1), c(1)))}
    o = sym(lab, "other")
    others = [o, lit(lab, t)] + ([sym(lab, "int")] if t == "Double" else [sym(lab, "double")] if t == "Integer" else [])
    used = 0
    S = lab.S
    calls = {"plain": sym(lab, "plain"), "call": V("Call", S("CallSpan", vref=lab.vref("user"), args=("vec", (S("ArgSpan", expr=V("Some", o), sep=V("End")),))))}
    for inner in ("dest", "plain", "call"):
        for dest in ("local", "glob"):
            for text, tree in shapes(lab, calls.get(inner) or sym(lab, dest), o, others):
                got, want = (run_assignment(ctx, lab, d, tree) for d in (dest, "ref"))
                shown = "`%s = %s`" % (dest, text.replace("%s", dest if inner == "dest" else "function"))
                key = "assign:%s:%s:%s:%s" % (t, inner, dest, text)
                ctx.count("assignments")
                if got is None or want is None:
                    ctx.violation(key + ":summary", "the assignment %s cannot be summarised for %s variables" % (shown, t.upper()), where)
                    return ctx.vs, ctx.counts
                if bool(got) != bool(want):
                    ctx.violation(key + ":rejects", "%s is %s for %s variables, unlike the same expression in another variable" % (shown, "accepted" if got else "rejected", t.upper()), where)
                    return ctx.vs, ctx.counts
                before = ("before", V("Register", c(lab.vars[dest][0])))
                used += len(got)
                for v, seen in got:
                    if not any(v == w and [x[:-1] for x in seen] == [x[:-1] for x in seen2] for w, seen2 in want):
                        ctx.violation(key + ":value", "%s stores another value than the expression has (%s variables): part of the expression is computed after the variable has changed" % (shown, t.upper()), where)
                        return ctx.vs, ctx.counts
                    if dest == "glob" and any(x[-1] not in (before, None) for x in seen):
                        ctx.violation(key + ":early", "%s changes the variable before the function in the expression is called (%s variables)" % (shown, t.upper()), where)
                        return ctx.vs, ctx.counts
    if used < 40:
        ctx.violation("assign:%s" % t, "the compiler rejects almost all assignments to %s variables" % t.upper(), where)
    return ctx.vs, ctx.counts


def assignments(ctx, lab):
    """An assignment stores the value that its expression has with the variables as they were before."""
    where = lab.stmt
    for vs, counts in parallel(lambda t: one_type(lab, t), TYPES):
        for v in vs:
            ctx.violation(*v)
        for k, number in counts.items():
            ctx.count(k, number)
    # With opaque expressions: the type of the stored value
    e = ("sym", "expr", "value")
    for t in TYPES:
        lab.vars = {"local": (70, t), "glob": (5, t)}
        for dest in ("local", "glob"):
            r = V("Register", c(lab.vars[dest][0]))
            outs = compiled(lab, [V("Assignment", lab.S("AssignmentSpan", vref=lab.vref(dest), expr=e))])
            good = [simulate(code, st, r) for ok, code, cx, st in outs if ok is True]
            if len(good) != len(outs) or not good or any(x is None or x[0] != ("EVALAS", e, V(t)) for x in good):
                ctx.violation("assigned:%s" % t, "a %s variable is not assigned the value of the expression as its own type" % t.upper(), where)
        for given in (None,) + tuple(TYPES):
            lab.vars = {}
            lab.exprtype = lambda x: t
            outs = compiled(lab, [V("Assignment", lab.S("AssignmentSpan", vref=lab.vref("fresh", given), expr=e))])
            key = "fresh:%s:%s" % (t, given)
            ctx.count("assignments")
            if not outs or any(x[0] is not True for x in outs):
                ctx.violation(key, "the first assignment to a variable is rejected", where)
                continue
            for ok, code, cx, st in outs:
                define = [x for x in st if x[0] == "define"]
                fix = [x for x in st if x[0] == "table"]
                if len(define) != 1 or define[0][2] != ("v", "SymbolKey", (("s", "fresh"),)) or "global" in define[0][1]:
                    ctx.violation(key, "the first assignment to a variable does not define that variable", where)
                    continue
                r = simulate(code, st, ("sym", "var", define[0][2]))
                final = fix[-1][-1] if fix else define[0][3][2][0] if define[0][3] is not None and define[0][3][1] == "Scalar" else None
                want = (("EVAL", e), V(t)) if given is None else (("EVALAS", e, V(given)), V(given))
                if r is None or (r[0], final) != want and not (given is None and (r[0], final) == (("EVALAS", e, V(t)), V(t))):
                    ctx.violation(key, "the first assignment of a %s expression to a variable%s makes a variable of another type or value" % (t.upper(), " annotated as " + given.upper() if given else ""), where)
            lab.callables = {"fresh": ("v", "Meta!", (V(t), c(1), c(1)))}
            outs = compiled(lab, [V("Assignment", lab.S("AssignmentSpan", vref=lab.vref("fresh", given), expr=e))])
            if any(x[0] is True for x in outs):
                ctx.violation("function:%s" % t, "an assignment to the name of a function is accepted", where)
            lab.callables = {}
    lab.exprtype = lambda x: "Integer"
    lab.vars = {"table": (73, ("Integer", 1))}
    if any(x[0] is True for x in compiled(lab, [V("Assignment", lab.S("AssignmentSpan", vref=lab.vref("table"), expr=e))])):
        ctx.violation("assign:array", "an assignment to an array without subscripts is accepted", where)


def compiled(lab, stmts):
    out = []
    for ok, cx, st in lab.compile(stmts):
        out.append((ok, lab.code(cx)[0] if ok is True else None, cx, st))
    return out


def run_assignment(ctx, lab, dest, tree):
    """[(value, calls)] of an assignment; [] if it is rejected."""
    out = []
    for ok, code, cx, st in compiled(lab, [V("Assignment", lab.S("AssignmentSpan", vref=lab.vref(dest), expr=tree))]):
        if ok is False:
            continue
        if ok is not True or code is None:
            return None
        r = simulate(code, st, V("Register", c(lab.vars[dest][0])), {V("Register", c(73)): 1, V("Register", c(74)): 2})
        if r is None:
            return None
        if r not in out:
            out.append(r)
    return out


def elements_compile(ctx, lab):
    """Assignments to elements and definitions."""
    where = lab.stmt
    P = ctx.P
    for t in TYPES:
        for k in (1, 2, 3):
            for reg in (5, 70):
                lab.vars = {"table": (reg, (t, k)), "scalar": (71, t)}
                for name, given in (("table", k), ("table", k - 1), ("table", k + 1), ("scalar", 1), ("unknown", 1)):
                    if not given:
                        continue
                    subs = [("sym", "expr", "sub%d" % i) for i in range(given)]
                    value = ("sym", "expr", "value")
                    outs = compiled(lab, [V("ArrayAssignment", lab.S("ArrayAssignmentSpan", vref=lab.vref(name), subscripts=("vec", tuple(subs)), expr=value))])
                    ctx.count("assignments")
                    good = name == "table" and given == k
                    shown = "an assignment with %d subscripts to %s" % (given, "an array of %d dimensions" % k if name == "table" else "a variable that is not an array")
                    key = "element:%s:%d:%s:%d" % (t, k, name, given)
                    if not outs or any((x[0] is True) != good for x in outs):
                        ctx.violation(key, "%s is %s" % (shown, "rejected" if good else "accepted"), where)
                        continue
                    for ok, code, cx, st in outs if good else []:
                        if not element_stored(code, V("Register", c(reg)), value, t, subs):
                            ctx.violation(key, "%s does not store the value as a %s in the element of its subscripts" % (shown, t.upper()), where)
    # DIM
    mk = next(iter(b for b in P.bodies(crates={CORE}, kinds=("method", "fn")) if b.argc == 2 and b.locals[1].endswith("::ExprType") and b.locals[2] == "usize" and b.locals[0].startswith("core::result::Result<")), None)
    lab.vars = {}
    for t in TYPES:
        for shared in (0, 1):
            for k in (0, 1, 2, 3, 4):
                dims = [("sym", "expr", "dim%d" % i) for i in range(k)]
                if k:
                    stmt = V("DimArray", lab.S("DimArraySpan", name=("s", "fresh"), shared=c(shared), dimensions=("vec", tuple(dims)), subtype=V(t)))
                    ai = Frames(P, mk, lambda *x: None, lambda cl, b: b.crate == CORE, 2000)
                    packed = [ai.deep(v, e) for v, e, _ in ai.go({1: V(t), 2: c(k)}, ())]
                    packed = packed[0][2][0] if len(packed) == 1 and packed[0] is not None and packed[0][1] == "Ok" else None
                else:
                    stmt = V("Dim", lab.S("DimSpan", name=("s", "fresh"), shared=c(shared), vtype=V(t)))
                shown = "DIM %sfresh%s AS %s" % ("SHARED " if shared else "", "(%s)" % ", ".join("d%d" % i for i in range(k)) if k else "", t.upper())
                key = "dim:%s:%d:%d" % (t, shared, k)
                for case in ("new", "defined", "function"):
                    lab.present = ("fresh",) if case == "defined" else ()
                    lab.callables = {"fresh": ("v", "Meta!", (V(t), c(1), c(1)))} if case == "function" else {}
                    outs = compiled(lab, [stmt])
                    ctx.count("definitions")
                    if not outs or any((x[0] is True) != (case == "new") for x in outs):
                        ctx.violation(key + ":" + case, "`%s` is %s" % (shown, "rejected" if case == "new" else "accepted although the name is in use"), where)
                        continue
                    for ok, code, cx, st in outs:
                        asked = [x[1] for x in st if x[0] == "contains"]
                        if case != "function" and any(("global" in x) != bool(shared) for x in asked) or not asked and case == "defined":
                            ctx.violation(key + ":scope", "`%s` looks for an existing variable in the other scope" % shown, where)
                            continue
                        if case != "new":
                            continue
                        define = [x for x in st if x[0] == "define"]
                        proto = V("Scalar", V(t)) if not k else V("Array", ("v", "ArrayInfo", tuple(V(t) if f[1].endswith("ExprType") else c(k) for f in lab.arrayinfo["variants"][0]["fields"])))
                        if len(define) != 1 or define[0][2] != ("v", "SymbolKey", (("s", "fresh"),)) or ("global" in define[0][1]) != bool(shared) or define[0][3] != proto:
                            ctx.violation(key + ":define", "`%s` does not define that variable with that type in %s" % (shown, "the whole program" if shared else "its scope"), where)
                            continue
                        var = ("sym", "var", define[0][2])
                        if not k:
                            ops = [(x[2], x[3]) for x in code] if code else None
                            if ops not in ([("LoadInteger", (var, c(0)))], [("Alloc", (var, V("Text")))], ) or (ops[0][0] == "Alloc") != (t == "Text"):
                                ctx.violation(key + ":default", "`%s` does not give the variable the default value of its type" % shown, where)
                        elif not array_made(code, var, packed, dims):
                            ctx.violation(key + ":array", "`%s` does not allocate an array with those dimensions and that type" % shown, where)
    lab.present, lab.callables = (), {}


def tmps(code, exprs, t):
    """The temporaries that hold the expressions, if each is computed once as type `t`."""
    out = []
    for e in exprs:
        m = [x[3][0] for x in code if x[2] == "EVALAS" and x[3][1] == e and x[3][2] == V(t)]
        if len(m) != 1 or m[0][:2] != ("sym", "tmp"):
            return None
        out.append(m[0])
    return out


def consecutive(rs):
    return all(y[2] == x[2] + 1 for x, y in zip(rs, rs[1:]))


def element_stored(code, arr, value, t, subs):
    if code is None or any(x is None or x[0] != "sym" or x[1] != "op" for x in code) or not code:
        return False
    v, s = tmps(code, [value], t), tmps(code, subs, "Integer")
    return v is not None and s is not None and consecutive(s) and v[0] not in s and len(code) == len(subs) + 2 and code[-1][2:] == ("StoreArray", (arr, v[0], s[0]))


def array_made(code, var, packed, dims):
    if not code or any(x is None or x[0] != "sym" or x[1] != "op" for x in code):
        return False
    s = tmps(code, dims, "Integer")
    return s is not None and consecutive(s) and len(code) == len(dims) + 1 and packed is not None and code[-1][2:] == ("AllocArray", (var, packed, s[0]))


def data_statements(ctx, lab):
    """The values of DATA statements are collected in the order of the program."""
    where = lab.stmt
    S = lab.S
    fields_ = ctx.P.adts[lab.ctxty]["variants"][0]["fields"]
    at = [i for i, f in enumerate(fields_) if "Option<" in f[1] and f[1].endswith("ConstantDatum>>")]
    if not ctx.anchor(len(at) == 1 or None, "the values of DATA statements"):
        return
    values = {"Boolean": [c(0), c(1)], "Double": [c(1.5), c(-2.0)], "Integer": [c(-2**31), c(7), c(TOP)], "Text": [("s", seg("first")), ("s", "")]}

    def item(t, v):
        return V("Some", V(t, S(t + "Span", value=v)))

    def data(*items):
        return V("Data", S("DataSpan", values=("vec", tuple(V("None") if x is None else item(*x) for x in items))))
    i = [("Integer", c(k)) for k in range(10)]
    block = lambda *b: ("vec", tuple(b))
    cond = ("sym", "expr", "condition")
    whl = lambda *b: V("While", S("WhileSpan", expr=cond, body=block(*b)))
    iff = lambda b1, b2: V("If", S("IfSpan", branches=("vec", (S("IfBranchSpan", guard=cond, body=block(*b1)), S("IfBranchSpan", guard=cond, body=block(*b2))))))
    programs = [([data((t, v))], [(t, v)]) for t in values for v in values[t]]
    programs += [([data(*items)], items) for items in ([None], [None, None], [i[0], None, i[1]], [None, ("Text", ("s", seg("first"))), ("Double", c(2.5)), None])]
    programs += [([data(i[0]), data(i[1], None), data(i[2])], [i[0], i[1], None, i[2]])]
    lab.exprtype = lambda e: "Boolean"
    programs += [([data(i[0]), whl(data(i[1]), whl(data(i[2])), data(i[3])), data(i[4])], i[:5]), ([iff([data(i[0])], [data(i[1]), data(i[2])]), data(i[3])], i[:4])]
    for number, (prog, want) in enumerate(programs):
        outs = compiled(lab, prog)
        ctx.count("data programs")
        want = ("vec", tuple(V("None") if x is None else V("Some", V(*x)) for x in want))
        if not outs or any(x[0] is not True or lab.unshaped(x[2][2][at[0]]) != want for x in outs):
            ctx.violation("data:%d" % number, "the values of DATA statements are not collected as they are written, in order", where)
    lab.exprtype = lambda e: "Integer"


def run(ctx):
    lab = Lab14(ctx)
    if not lab.ok:
        return
    agreed = {}
    machine_access(ctx, lab, agreed)
    references(ctx, lab, agreed)
    allocation(ctx, lab)
    bounds(ctx)
    reading(ctx)
    compiler = Compiler(ctx)
    if compiler.ok:
        assignments(ctx, compiler)
        elements_compile(ctx, compiler)
        data_statements(ctx, compiler)
    else:
        ctx.violation("compiler", "the statement compiler is not found")
    for kind, least in (("assignments", 2000), ("data programs", 12), ("definitions", 100), ("points", 18000), ("references", 12), ("summaries", 150)):
        ctx.floor(kind, least)
