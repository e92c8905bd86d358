"""Interprocedural abstract interpretation with explicit call frames.

`Frames` is `absint.Interp` that enters the calls its client picks: every activation gets its own
range of locals in one shared environment, so references to places of callers keep their meaning and
recursion needs no inlining.  Closures are entered through their values.  Vectors, maps keyed by known
values and the Option/Result combinators are modelled, everything else is unknown."""

import json

import absint
from absint import Interp, same
from mirlib import Body, Call, remap_block

FRAME = 100000


# What iterators are asked to do with all that they have.
ADAPTORS = {"map", "filter", "filter_map", "flat_map", "for_each", "enumerate", "rev", "zip", "chain", "fold", "try_for_each", "try_fold", "take_while", "skip_while", "peekable", "skip", "take", "collect", "reduce"}


class OffsetList:
    def __init__(self, items, off):
        self.items, self.off = items, off

    def __getitem__(self, i):
        j = i - self.off
        return self.items[j] if 0 <= j < len(self.items) else "?"

    def __len__(self):
        return len(self.items) + self.off


class TooDeep(Exception):
    pass


FLOW_OK = ("Ok", "Some")


class Frames(Interp):
    """pick(call, callee body) decides which calls are entered."""

    def __init__(self, prog, body, hook, pick, limit=200000, max_depth=40):
        super().__init__(body, hook, limit)
        self.prog = prog
        self.pick = pick
        self.depth = 0
        self.max_depth = max_depth
        self.cache = prog.__dict__.setdefault("_frames", {})
        self.steps = 0
        self.entered = set()

    # -- frames --------------------------------------------------------------------------

    def frame(self, b, base):
        k = (b.id, base)
        if k not in self.cache:
            if base == 0:
                self.cache[k] = b
            else:
                d = dict((x, getattr(b, x)) for x in ("id", "crate", "kind", "name", "parent", "root", "impl_trait", "impl_self", "trait_item", "in_trait", "vis", "unsafe",
                                                      "file", "line", "line_hi", "argc"))
                d["kind"] = "frame"
                d["blocks"] = [remap_block(x, base, 0) for x in b.blocks]
                d["locals"] = OffsetList(b.locals, base)
                d["names"] = []
                self.cache[k] = Body(d, self.prog)
        return self.cache[k]

    def enter(self, b, args, env, st, sure):
        """Outcomes [(value, env, st, sure)] of calling body `b`."""
        if self.depth + 1 > self.max_depth:
            raise TooDeep(b.id)
        self.depth += 1
        self.entered.add(b.id)
        base = self.depth * FRAME
        fb = self.frame(b, base)
        old = self.b
        self.b = fb
        e = dict(env)
        for i, a in enumerate(args):
            if a is not None:
                e[base + 1 + i] = a
        try:
            out = self.explore(fb, base, e, st, sure)
        finally:
            self.b = old
            self.depth -= 1
        res = []
        for v, e2, s2, su in out:
            e2 = {k: x for k, x in e2.items() if k < base}
            res.append((v, e2, s2, su))
        return res

    def explore(self, fb, base, env, st, sure):
        seen = set()
        out, outkeys = [], set()
        w = [(0, env, st, sure)]
        while w:
            bb, env, st, sure = w.pop()
            if len(fb.pred(bb)) > 1:
                env = self.prune(fb, base, bb, env)
                key = (bb, tuple(sorted(env.items(), key=lambda x: x[0])), st, sure)
                if key in seen:
                    continue
                seen.add(key)
            self.steps += 1
            if self.steps > self.limit:
                self.overflow = True
                raise TooDeep("limit")
            if fb.blocks[bb]["t"][0] == "ret":
                _, env = self.statements(fb, bb, env, st)
                v = env.get(base)
                key = (v, tuple(sorted(((k, x) for k, x in env.items() if k < base), key=lambda x: x[0])), st, sure)
                if key not in outkeys:
                    outkeys.add(key)
                    out.append((v, env, st, sure))
                continue
            w.extend(self.step(bb, env, st, sure))
        return out

    def prune(self, fb, base, bb, env):
        return env

    def statements(self, fb, bb, env, st):
        env = dict(env)
        stmts = fb.blocks[bb]["s"]
        for i, s in enumerate(stmts):
            if s[0] == "dead":
                env.pop(s[1], None)
            elif s[0] == "=":
                if s[2][0] == "use" and s[2][1][0] == "c" and not s[1][1] and i + 1 < len(stmts):
                    # A box is only copied to get at what it points to.
                    n = stmts[i + 1]
                    if n[0] == "=" and n[2][0] == "cast" and n[2][1] == "BoxDerefTransmute" and n[2][2][0] in ("c", "m") and n[2][2][1][0] == s[1][0]:
                        v = self.rvalue(["ref", False, s[2][1][1]], env)
                        if v is not None and v[0] == "ref":
                            env[s[1][0]] = v
                            continue
                self.write(s[1], self.rvalue(s[2], env), env)
        return st, env

    def run(self, start=0, env0=None, st0=None):
        try:
            for v, env, st, sure in self.explore(self.b, 0, dict(env0 or {}), st0, True):
                self.rets.append((v, st))
                self.finals.append((v, env, st))
        except TooDeep:
            self.overflow = True
        self.explored = self.steps

    finals = None

    def go(self, env0, st0):
        self.finals = []
        self.run(env0=env0, st0=st0)
        return self.finals

    # -- values --------------------------------------------------------------------------

    def rvalue(self, r, env):
        if r[0] == "un" and r[1] == "PtrMetadata":
            v = self.operand(r[2], env)
            v = self.deref(v, env) if v is not None and v[0] == "ref" else v
            return ("c", len(v[1])) if v is not None and v[0] == "vec" else None
        if r[0] == "agg" and r[1] == "array":
            return ("vec", tuple(self.operand(o, env) for o in r[3]))
        if r[0] == "cast" and r[1] == "BoxDerefTransmute" and r[2][0] in ("c", "m"):
            l, proj = r[2][1]
            if proj and proj[-1] != "*" and len(proj[-1]) > 3 and proj[-1][3] == "alloc::boxed::Box":
                v = env.get(l)
                return v if len(proj) == 1 and v is not None and v[0] == "ref" else ("ref", l, json.dumps(proj[:-1]))
        if r[0] == "cast" and r[1] == "Transmute":
            v = self.variant(self.operand(r[2], env), r[3])
            if v is not None:
                return v
        return super().rvalue(r, env)

    def variant(self, v, ty):
        """The enumerator of an integer."""
        a = self.prog.adts.get(ty)
        if v is None or v[0] != "c" or a is None or any(x["fields"] for x in a["variants"]):
            return None
        return next((("v", x["name"], ()) for x in a["variants"] if x.get("disc") == v[1]), None)

    # -- places --------------------------------------------------------------------------

    def follow(self, v, proj, env):
        for n, p in enumerate(proj):
            if v is None:
                return None
            if p != "*" and p[0] == "x":
                v = self.deref(v, env)
                if v is not None and v[0] == "vec" and -len(v[1]) <= p[1] < len(v[1]):
                    v = v[1][p[1]]
                elif v is not None and v[0] == "map" and p[1] < len(v[1]):
                    v = v[1][p[1]][1]
                else:
                    return None
            elif p != "*" and p[0] in ("ci", "sub"):
                v = self.deref(v, env)
                if v is None or v[0] != "vec":
                    return None
                k = len(v[1])
                if p[0] == "ci":
                    i = k - p[1] if p[2] else p[1]
                    if not 0 <= i < k:
                        return None
                    v = v[1][i]
                else:
                    v = ("vec", v[1][p[1]:k - p[2] if p[3] else p[2]]) if len(p) > 3 else None
            elif p != "*" and p[0] == "i":
                i = env.get(p[1])
                if v[0] == "ref":
                    v = self.deref(v, env)
                if i is None or i[0] != "c" or v is None or v[0] != "vec" or not 0 <= i[1] < len(v[1]):
                    return None
                v = v[1][i[1]]
            else:
                v = super().follow(v, [p], env)
        return v

    def write(self, place, val, env):
        l, proj = place
        if proj and proj[0] == "*":
            base = env.get(l)
            if base is not None and base[0] != "ref":
                r = self._put(base, proj[1:], val, env)
                if r is not None:
                    env[l] = r
                return
        super().write(place, val, env)

    def _put(self, base, proj, val, env):
        if proj and base is not None:
            p = proj[0]
            if base[0] == "v" and base[1] == "uninit":
                return ("v", "uninit", (val,))
            if p == "*" and base[0] != "ref":
                return self._put(base, proj[1:], val, env)
            if p != "*" and base[0] == "ref":
                self.write([base[1], json.loads(base[2]) + list(proj)], val, env)
                return base
            if p != "*" and p[0] == "f" and len(p) > 3 and p[3] == "alloc::boxed::Box":
                return self._put(base, proj[1:], val, env)
            if p != "*" and p[0] in ("x", "i"):
                i = p[1]
                if p[0] == "i":
                    c = env.get(i)
                    i = c[1] if c is not None and c[0] == "c" else None
                if base[0] == "vec" and i is not None and 0 <= i < len(base[1]):
                    it = list(base[1])
                    it[i] = self._put(it[i], proj[1:], val, env)
                    return ("vec", tuple(it))
                if base[0] == "map" and i is not None and i < len(base[1]):
                    it = list(base[1])
                    it[i] = (it[i][0], self._put(it[i][1], proj[1:], val, env))
                    return ("map", tuple(it))
                return None
        return super()._put(base, proj, val, env)

    # -- calls ---------------------------------------------------------------------------

    def step(self, bb, env, st, sure):
        t = self.b.blocks[bb]["t"]
        if t[0] == "assert":
            st, env = self.statements(self.b, bb, env, st)
            v = self.operand(t[1], env)
            if v is not None and v[0] == "c" and bool(v[1]) != bool(t[2]):
                self.dead.append((bb, st, sure, None))
                return []
            return [(t[6], env, st, sure)]
        if t[0] != "call":
            return super().step(bb, env, st, sure)
        st, env = self.statements(self.b, bb, env, st)
        c = Call(bb, t)
        args = [self.operand(a, env) for a in c.args]
        if not c.is_fn:
            f = self.operand(c.func, env)
            if f is not None and f[0] == "fn":
                c.func = ["fn", f[1], f[1], f[1].rsplit("::", 1)[-1], None, None, False, []]
        out = self.call(c, args, env, st, sure)
        if c.target is None:
            if out is None:
                self.dead.append((bb, st, sure, c))
            return []
        res = []
        for val, e2, s2, su in out:
            e2 = dict(e2)
            self.write(c.dest, val, e2)
            res.append((c.target, e2, s2, su))
        return res

    def call(self, c, args, env, st, sure):
        r = self.hook(c, args, st, self, env)
        if r is not None:
            out = []
            for x in r:
                e = x[2] if len(x) > 2 else env
                out.append((x[0], e, x[1], sure and len(r) == 1))
            return out
        if c.target is None:
            return None
        if c.name in ADAPTORS and args:
            args = [self.unrolled(a, env) if i == 0 or c.name in ("zip", "chain") else a for i, a in enumerate(args)]
        r = self.combinator(c, args, env, st, sure)
        if r is not None:
            return r
        b = self.callee(c, args, env)
        if b is not None and not isinstance(b, tuple) and b.kind == "closure" and len(args) == 2:
            # Closures get their arguments in a tuple.
            v = self.deref(args[1], env)
            if v is not None and v[0] == "t" and len(v[1]) == b.argc - 1:
                args = [args[0]] + list(v[1])
        if b is not None and (b.kind == "closure" or self.pick(c, b)):
            return self.enter(b[0] if isinstance(b, tuple) else b, args, env, st, sure)
        env = dict(env)
        ok, val = self.model(c, args, env)
        if not ok:
            for op, a in zip(c.args, args):
                if op[0] in ("c", "m") and not op[1][1] and str(self.b.locals[op[1][0]]).startswith("&") and not str(self.b.locals[op[1][0]]).startswith("&mut"):
                    continue
                self.invalidate(a, env)
            val = None
        return [(val, env, st, sure)]

    def invalidate(self, v, env, d=0):
        if v is None or d > 5:
            return
        if v[0] == "ref":
            self.write([v[1], json.loads(v[2])], None, env)
        elif v[0] in ("v", "t"):
            for x in v[2] if v[0] == "v" else v[1]:
                self.invalidate(x, env, d + 1)

    def callee(self, c, args, env):
        if c.is_fn and c.resolved and c.resolved in self.prog.raw:
            b = self.prog.body(c.resolved)
            if self.prog.coroutine_of(b.id) is None:
                return b
        return None

    def call_value(self, f, args, env, st, sure):
        """Outcomes of calling a closure or function value."""
        f = self.deref(f, env)
        if f is not None and f[0] == "v" and f[1].startswith("closure "):
            i = f[1][len("closure "):]
            if i in self.prog.raw:
                b = self.prog.body(i)
                if b.argc == len(args) + 1:
                    return self.enter(b, [f] + list(args), env, st, sure)
        if f is not None and f[0] == "fn":
            c = Call(0, ["call", ["fn", f[1], f[1], f[1].rsplit("::", 1)[-1], None, None, False, []], [], [-1, []], 0, 0])
            if c.name in ("Some", "Ok", "Err", "Borrowed", "Owned") or self.constructor(f[1]):
                return [(("v", c.name, tuple(args)), env, st, sure)]
            return self.call(c, list(args), env, st, sure)
        return [(None, env, st, sure)]

    def unrolled(self, a, env):
        """A range of known numbers as what it goes through, for the methods of iterators that take all of it."""
        v = a
        if v is None or v[0] != "v" or v[1] not in ("Range", "RangeInclusive") or not all(x is not None and x[0] == "c" for x in v[2][:2]):
            return a
        lo, hi = v[2][0][1], v[2][1][1] + int(v[1] == "RangeInclusive")
        return ("v", "VecIter", (("vec", tuple(("c", i) for i in range(lo, hi))),)) if hi - lo <= 4096 else a

    def constructor(self, path):
        parent, _, name = path.rpartition("::")
        a = self.prog.adts.get(path) or self.prog.adts.get(parent)
        return a is not None and any(v["name"] == name for v in a["variants"])

    def combinator(self, c, args, env, st, sure):
        n = c.name
        d = [self.deref(a, env) for a in args]
        if n == "transmute" and len(d) == 1 and not c.dest[1]:
            v = self.variant(d[0], str(self.b.locals[c.dest[0]]))
            if v is not None:
                return [(v, env, st, sure)]
        if n in ("call_once", "call_mut", "call") and c.path.startswith("core::ops::function::Fn") and len(args) == 2:
            t = d[1]
            items = list(t[1]) if t is not None and t[0] == "t" else None
            if items is None:
                return None
            f = args[0]
            fv = d[0]
            if fv is not None and fv[0] == "v" and fv[1].startswith("closure ") and f is not None and f[0] == "ref":
                i = fv[1][len("closure "):]
                if i in self.prog.raw:
                    return self.enter(self.prog.body(i), [f] + items, env, st, sure)
            return self.call_value(f, items, env, st, sure)
        if not d or d[0] is None or d[0][0] != "v":
            return None
        v = d[0]
        k, pay = v[1], (v[2][0] if v[2] else None)
        if k in ("Ok", "Err", "Some", "None"):
            good = k in FLOW_OK
            opt = k in ("Some", "None")
            one = [(v, env, st, sure)]
            if n in ("copied", "cloned") and len(args) == 1 and good:
                return [(("v", k, (self.deep(pay, env),)), env, st, sure)]
            if n == "map_err" and len(args) == 2:
                if good:
                    return one
                return [(("v", "Err", (x,)), e, s, su) for x, e, s, su in self.call_value(args[1], [pay], env, st, sure)]
            if n == "map" and len(args) == 2:
                if not good:
                    return one
                return [(("v", k, (x,)), e, s, su) for x, e, s, su in self.call_value(args[1], [pay], env, st, sure)]
            if n == "and_then" and len(args) == 2:
                return self.call_value(args[1], [pay], env, st, sure) if good else one
            if n == "or_else" and len(args) == 2:
                return one if good else self.call_value(args[1], [] if opt else [pay], env, st, sure)
            if n == "unwrap_or" and len(args) == 2:
                return [(pay if good else args[1], env, st, sure)]
            if n == "unwrap_or_else" and len(args) == 2:
                return [(pay, env, st, sure)] if good else self.call_value(args[1], [] if opt else [pay], env, st, sure)
            if n in ("is_some_and", "is_ok_and") and len(args) == 2:
                return self.call_value(args[1], [pay], env, st, sure) if good else [(("c", 0), env, st, sure)]
            if n == "is_none_or" and len(args) == 2:
                return self.call_value(args[1], [pay], env, st, sure) if good else [(("c", 1), env, st, sure)]
            if n == "map_or" and len(args) == 3:
                return self.call_value(args[2], [pay], env, st, sure) if good else [(args[1], env, st, sure)]
            if n == "ok_or" and len(args) == 2:
                return [(("v", "Ok", (pay,)) if good else ("v", "Err", (args[1],)), env, st, sure)]
            if n == "ok_or_else" and len(args) == 2:
                return [(("v", "Ok", (pay,)), env, st, sure)] if good else [(("v", "Err", (x,)), e, s, su) for x, e, s, su in self.call_value(args[1], [], env, st, sure)]
            if n == "ok" and len(args) == 1:
                return [(("v", "Some", (pay,)) if good else ("v", "None", ()), env, st, sure)]
            if n == "err" and len(args) == 1:
                return [(("v", "Some", (pay,)) if not good else ("v", "None", ()), env, st, sure)]
            if n == "unwrap_or_default" and good:
                return [(pay, env, st, sure)]
            if n in ("as_mut", "as_ref", "as_deref", "as_deref_mut") and len(args) == 1:
                if not good:
                    return one
                a = args[0]
                if n.startswith("as_deref") and pay is not None and pay[0] == "ref":
                    return [(("v", k, (pay,)), env, st, sure)]
                if a is not None and a[0] == "ref":
                    return [(("v", k, (("ref", a[1], json.dumps(json.loads(a[2]) + [["v", k], ["f", 0, "0", ""]])),)), env, st, sure)]
                return one
            if n in ("take", "replace", "insert", "get_or_insert") and opt and args[0] is not None and args[0][0] == "ref":
                e = dict(env)
                pl = [args[0][1], json.loads(args[0][2])]
                if n == "take":
                    self.write(pl, ("v", "None", ()), e)
                    return [(v, e, st, sure)]
                if n == "replace":
                    self.write(pl, ("v", "Some", (args[1],)), e)
                    return [(v, e, st, sure)]
        if k == "VecIter" and n == "reduce" and len(args) == 2:
            items = v[2][0][1]
            if not items:
                return [(("v", "None", ()), env, st, sure)]
            states = [(items[0], env, st, sure)]
            for it in items[1:]:
                states = [o for acc, e, s, su in states for o in self.call_value(args[1], [acc, it], e, s, su)]
            return [(("v", "Some", (x,)), e, s, su) for x, e, s, su in states]
        if k == "VecIter" and n in ("try_for_each", "fold", "try_fold"):
            acc0 = ("t", ()) if n == "try_for_each" else args[1]
            states, out = [(acc0, env, st, sure)], []
            for it in v[2][0][1]:
                nxt = []
                for acc, e, s, su in states:
                    for x, e2, s2, su2 in self.call_value(args[-1], [it] if n == "try_for_each" else [acc, it], e, s, su):
                        if n == "fold":
                            nxt.append((x, e2, s2, su2))
                        elif x is None or x[0] != "v" or x[1] not in FLOW_OK:
                            out.append((x, e2, s2, su2))
                        else:
                            nxt.append((x[2][0] if x[2] else None, e2, s2, su2))
                states = nxt
            kind = "Some" if str(self.b.locals[c.dest[0]]).startswith("core::option") else "Ok"
            return out + [(a if n == "fold" else ("v", kind, (a,)), e, s, su) for a, e, s, su in states]
        if k == "VecIter" and n in ("map", "filter", "for_each", "filter_map", "all", "any", "find", "position", "rposition", "find_map", "flat_map", "take_while", "skip_while") and len(args) == 2:
            items = v[2][0][1]
            states = [((), env, st, sure)]
            for it in items:
                nxt = []
                for acc, e, s, su in states:
                    if acc and acc[-1] == "stop":
                        nxt.append((acc, e, s, su))
                        continue
                    for x, e2, s2, su2 in self.call_value(args[1], [it], e, s, su):
                        nxt.append((acc + ((it, x),), e2, s2, su2))
                states = nxt
            out = []
            for acc, e, s, su in states:
                r = None
                xs = [x for _i, x in acc]
                if n == "map":
                    r = ("v", "VecIter", (("vec", tuple(xs)),))
                elif n == "for_each":
                    r = ("t", ())
                elif all(x is not None and x[0] == "c" for x in xs) and n in ("filter", "all", "any", "find", "position", "rposition", "take_while", "skip_while"):
                    hits = [i for i, x in enumerate(xs) if x[1]]
                    if n == "filter":
                        r = ("v", "VecIter", (("vec", tuple(acc[i][0] for i in hits)),))
                    elif n == "any":
                        r = ("c", int(bool(hits)))
                    elif n == "all":
                        r = ("c", int(len(hits) == len(xs)))
                    elif n == "rposition":
                        r = ("v", "Some", (("c", hits[-1]),)) if hits else ("v", "None", ())
                    elif n in ("take_while", "skip_while"):
                        k_ = next((i for i, x in enumerate(xs) if not x[1]), len(xs))
                        its = tuple(i for i, _x in acc)
                        r = ("v", "VecIter", (("vec", its[:k_] if n == "take_while" else its[k_:]),))
                    elif n == "find":
                        r = ("v", "Some", (acc[hits[0]][0],)) if hits else ("v", "None", ())
                    else:
                        r = ("v", "Some", (("c", hits[0]),)) if hits else ("v", "None", ())
                elif n == "filter_map" and all(x is not None and x[0] == "v" and x[1] in ("Some", "None") for x in xs):
                    r = ("v", "VecIter", (("vec", tuple(x[2][0] for x in xs if x[1] == "Some")),))
                elif n == "flat_map":
                    ys = [self.deep(x, e) for x in xs]
                    ys = [x[2][0] if x is not None and x[0] == "v" and x[1] == "VecIter" else x for x in ys]
                    if all(x is not None and (x[0] == "vec" or x[0] == "v" and x[1] in ("Some", "None")) for x in ys):
                        r = ("v", "VecIter", (("vec", tuple(y for x in ys for y in (x[1] if x[0] == "vec" else x[2]))),))
                elif n == "find_map" and all(x is not None and x[0] == "v" and x[1] in ("Some", "None") for x in xs):
                    r = next((x for x in xs if x[1] == "Some"), ("v", "None", ()))
                out.append((r, e, s, su))
            return out
        return None

    def model(self, c, args, env):
        n = c.name
        d = [self.deref(a, env) for a in args]
        ref = args[0] if args and args[0] is not None and args[0][0] == "ref" else None

        def inner(extra):
            r = ref
            while True:
                v = self.read([r[1], json.loads(r[2])], env)
                if v is not None and v[0] == "ref":
                    r = v
                else:
                    break
            return ("ref", r[1], json.dumps(json.loads(r[2]) + extra))
        v0 = d[0] if d else None
        if v0 is not None and v0[0] == "vec":
            items = v0[1]
            if n in ("last_mut", "first_mut", "last", "first") and ref is not None:
                if not items:
                    return True, ("v", "None", ())
                return True, ("v", "Some", (inner([["x", len(items) - 1 if n.startswith("last") else 0]]),))
            if n == "to_vec" and len(d) == 1:
                return True, ("vec", tuple(self.deep(x, env) for x in items))
            if n in ("index", "index_mut", "get", "get_mut", "get_unchecked") and len(d) == 2 and d[1] is not None and d[1][0] == "c" and (ref is not None or n in ("index", "get")):
                i = d[1][1]
                if 0 <= i < len(items):
                    x = inner([["x", i]]) if ref is not None else items[i]
                    return True, x if n.startswith("index") else ("v", "Some", (x,))
                return True, None if n.startswith("index") else ("v", "None", ())
            if n in ("index", "index_mut", "get", "get_mut") and len(d) == 2 and d[1] is not None and d[1][0] == "v" and d[1][1].startswith("Range") and (
                    all(x is not None and x[0] == "c" for x in d[1][2][:2])):
                b = [x[1] for x in d[1][2][:2]]
                kind = d[1][1]
                lo = b[0] if kind in ("RangeFrom", "Range", "RangeInclusive") else 0
                hi = len(items) if kind in ("RangeFrom", "RangeFull") else b[-1] + int(kind in ("RangeInclusive", "RangeToInclusive"))
                ok = 0 <= lo <= hi <= len(items)
                if n.startswith("index"):
                    return True, ("vec", items[lo:hi]) if ok and n == "index" else None
                return True, (("v", "Some", (("vec", items[lo:hi]),)) if n == "get" else None) if ok else ("v", "None", ())
            if n == "drain" and ref is not None:
                r = d[1] if len(d) > 1 else None
                if r is None or (r[0] in ("v", "s") and "RangeFull" in str(r[1])) or r == ("t", ()):
                    self.write([ref[1], json.loads(ref[2])], ("vec", ()), env)
                    return True, ("v", "VecIter", (v0,))
            if n == "iter_mut" and ref is not None:
                return True, ("v", "VecIter", (("vec", tuple(inner([["x", i]]) for i in range(len(items)))),))
            if n in ("extend", "append", "extend_from_slice") and len(d) == 2 and ref is not None:
                o = d[1]
                if o is not None and o[0] == "v" and o[1] == "VecIter":
                    o = o[2][0]
                self.write([ref[1], json.loads(ref[2])], ("vec", items + o[1]) if o is not None and o[0] == "vec" else None, env)
                if n == "append" and o is not None and args[1] is not None and args[1][0] == "ref":
                    self.write([args[1][1], json.loads(args[1][2])], ("vec", ()), env)
                return True, ("t", ())
        if v0 is not None and v0[0] == "v" and v0[1] == "VecIter":
            it = v0[2][0][1]
            if n == "enumerate":
                return True, ("v", "VecIter", (("vec", tuple(("t", (("c", i), x)) for i, x in enumerate(it))),))
            if n in ("len", "count"):
                return True, ("c", len(it))
            if n == "rev":
                return True, ("v", "VecIter", (("vec", it[::-1]),))
            if n == "last" and not (args and args[0] is not None and args[0][0] == "ref"):
                return True, ("v", "Some", (it[-1],)) if it else ("v", "None", ())
            if n in ("peekable", "fuse", "copied", "cloned", "by_ref", "into_iter"):
                return True, v0 if n != "by_ref" else args[0]
            if n == "peek" and c.path.startswith("core::iter::adapters::peekable::"):
                return True, ("v", "Some", (it[0],)) if it else ("v", "None", ())
            if n == "collect" or n == "from_iter":
                return True, ("vec", it)
            if n in ("zip", "chain") and d[1] is not None and (d[1][0] == "vec" or d[1][:2] == ("v", "VecIter")):
                o = d[1][1] if d[1][0] == "vec" else d[1][2][0][1]
                if n == "chain":
                    return True, ("v", "VecIter", (("vec", it + o),))
                return True, ("v", "VecIter", (("vec", tuple(("t", p) for p in zip(it, o))),))
            if n == "skip" and d[1] is not None and d[1][0] == "c":
                return True, ("v", "VecIter", (("vec", it[d[1][1]:]),))
            if n == "take" and len(d) == 2 and d[1] is not None and d[1][0] == "c":
                return True, ("v", "VecIter", (("vec", it[:d[1][1]]),))
        if c.path == "alloc::boxed::Box::<T>::new_uninit":
            return True, ("v", "uninit", (None,))
        if n == "box_assume_init_into_vec_unsafe" and v0 is not None and v0[:2] == ("v", "uninit"):
            return True, v0[2][0] if v0[2][0] is not None and v0[2][0][0] == "vec" else None
        if n == "into_vec" and v0 is not None and v0[0] == "vec":
            return True, v0
        if c.path in ("core::mem::take", "core::mem::replace") and ref is not None:
            old = d[0]
            new = args[1] if n == "replace" else ("vec", ()) if old is not None and old[0] == "vec" else ("v", "None", ()) if old is not None and old[0] == "v" and old[1] in ("Some", "None") else None
            self.write([ref[1], json.loads(ref[2])], new, env)
            return True, old
        return super().model(c, args, env)
