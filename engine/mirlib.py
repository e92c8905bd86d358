"""Analysis library over the MIR facts: program model, CFG, await normalisation, value origins,
path-sensitive reachability, inlining and call graph.

Everything here works on the type-checked program (resolved callees, real control flow); nothing is
executed.
"""

import collections
import json
import os
import sys

sys.setrecursionlimit(20000)

AWAIT = "@await"


# --------------------------------------------------------------------------------------------
# Call terminators
# --------------------------------------------------------------------------------------------

class Call:
    """A call terminator: `func` is the raw operand, `args` raw operands."""

    __slots__ = ("bb", "func", "args", "dest", "target", "line")

    def __init__(self, bb, t):
        self.bb = bb
        self.func, self.args, self.dest, self.target, self.line = t[1], t[2], t[3], t[4], t[5]

    @property
    def is_fn(self):
        return self.func[0] == "fn"

    @property
    def generic(self):
        return self.func[1] if self.func[0] == "fn" else ""

    @property
    def resolved(self):
        return self.func[2] if self.func[0] == "fn" else None

    @property
    def path(self):
        return (self.func[2] or self.func[1]) if self.func[0] == "fn" else ""

    @property
    def name(self):
        return self.func[3] if self.func[0] == "fn" else ""

    @property
    def trait(self):
        return self.func[4] if self.func[0] == "fn" else None

    @property
    def selfty(self):
        return self.func[5] if self.func[0] == "fn" else None

    @property
    def virtual(self):
        return self.func[0] == "fn" and self.func[6]

    @property
    def gargs(self):
        return self.func[7] if self.func[0] == "fn" else []

    def __repr__(self):
        return "Call(bb%d %s)" % (self.bb, self.path)


# --------------------------------------------------------------------------------------------
# Bodies
# --------------------------------------------------------------------------------------------

class Body:
    def __init__(self, d, prog):
        self.prog = prog
        self.__dict__.update(
            id=d["id"], crate=d["crate"], kind=d["kind"], name=d["name"], parent=d["parent"],
            root=d["root"], impl_trait=d["impl_trait"], impl_self=d["impl_self"],
            trait_item=d["trait_item"], in_trait=d["in_trait"], vis=d["vis"], unsafe=d["unsafe"],
            file=d["file"], line=d["line"], line_hi=d["line_hi"], argc=d["argc"],
            locals=d["locals"], names=d["names"], blocks=d["blocks"],
        )
        self._succ = None
        self._pred = None
        self._reach = None
        self._dom = None
        self._defs = None
        self._mem = None
        self._memdone = False
        self._mutb = None
        self._xcache = {}
        self._rdcache = {}
        self._bbinfo = None
        if any(b["t"][0] == "yield" for b in self.blocks) or self.kind == "coroutine":
            self._normalise_awaits()

    def __repr__(self):
        return "Body(%s)" % self.id

    # -- CFG ---------------------------------------------------------------------------------

    @staticmethod
    def term_succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[3]] + [t[4]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[6]]
        if k == "yield":
            return [t[1]]
        return []

    def succ(self, bb):
        if self._succ is None:
            self._succ = [self.term_succ(b["t"]) for b in self.blocks]
            # A switch whose otherwise-block is unreachable does not go there.
            for i, b in enumerate(self.blocks):
                t = b["t"]
                if t[0] == "switch":
                    o = self.blocks[t[4]]
                    if o["t"][0] == "unreach" and not o["s"]:
                        self._succ[i] = [x[1] for x in t[3]]
        return self._succ[bb]

    def reachable(self):
        if self._reach is None:
            seen = {0}
            w = [0]
            while w:
                x = w.pop()
                for y in self.succ(x):
                    if y not in seen:
                        seen.add(y)
                        w.append(y)
            self._reach = seen
        return self._reach

    def pred(self, bb):
        if self._pred is None:
            self._pred = collections.defaultdict(list)
            for i in sorted(self.reachable()):
                for s in self.succ(i):
                    if i not in self._pred[s]:
                        self._pred[s].append(i)
        return self._pred[bb]

    def dominators(self):
        """bb -> set of dominating bbs (including itself)."""
        if self._dom is None:
            order = self.rpo()
            alln = set(order)
            dom = {n: alln for n in order}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for n in order:
                    if n == 0:
                        continue
                    ps = [dom[p] for p in self.pred(n) if p in dom]
                    nd = set.intersection(*ps) | {n} if ps else {n}
                    if nd != dom[n]:
                        dom[n] = nd
                        ch = True
            self._dom = dom
        return self._dom

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ(0)))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ(s))))
                    break
            else:
                out.append(n)
                st.pop()
        return out[::-1]

    def reach_from(self, starts, avoid_nodes=(), avoid_edges=()):
        """Plain CFG reachability."""
        seen = set()
        w = [s for s in starts if s not in avoid_nodes]
        seen.update(w)
        while w:
            x = w.pop()
            for y in self.succ(x):
                if y in seen or y in avoid_nodes or (x, y) in avoid_edges:
                    continue
                seen.add(y)
                w.append(y)
        return seen

    def calls(self):
        for i in sorted(self.reachable()):
            t = self.blocks[i]["t"]
            if t[0] == "call":
                yield Call(i, t)

    def call_at(self, bb):
        t = self.blocks[bb]["t"]
        return Call(bb, t) if t[0] == "call" else None

    def stmts(self):
        """Yields (bb, index, stmt) for assignments in reachable blocks."""
        for i in sorted(self.reachable()):
            for j, s in enumerate(self.blocks[i]["s"]):
                if s[0] == "=":
                    yield i, j, s

    def returns(self):
        return [i for i in sorted(self.reachable()) if self.blocks[i]["t"][0] == "ret"]

    def loc(self, line=None):
        return "%s:%s" % (self.file, line if line else self.line)

    def local_name(self, l):
        for n, p in self.names:
            if p[0] == l and not p[1]:
                return n
        return None

    # -- Await normalisation -----------------------------------------------------------------

    def _normalise_awaits(self):
        """Replaces each `into_future; loop { poll; yield }` with a call to the pseudo-function
        `@await`, so that coroutine bodies read as straight-line code."""
        bl = self.blocks
        todo = []
        for i, b in enumerate(bl):
            t = b["t"]
            if b.get("c"):
                continue
            if t[0] == "call" and t[1][0] == "fn" and t[1][3] == "into_future" and (t[1][4] or "").endswith("IntoFuture"):
                todo.append(i)
        for i in todo:
            t = bl[i]["t"]
            # BFS to the first switch over a Poll discriminant.
            seen, w, hit = {t[4]}, [t[4]], None
            while w and hit is None:
                x = w.pop(0)
                bt = bl[x]["t"]
                if bt[0] == "switch":
                    disc = None
                    for s in bl[x]["s"]:
                        if s[0] == "=" and s[2][0] == "disc" and s[2][2].startswith("core::task::poll::Poll<"):
                            disc = s[2][1]
                    if disc is not None:
                        ready = dict((v, tb) for v, tb in bt[3]).get(0)
                        hit = (disc, ready)
                        break
                for y in self.term_succ(bt):
                    if y not in seen:
                        seen.add(y)
                        w.append(y)
            if hit is None or hit[1] is None:
                continue
            fn = ["fn", AWAIT, AWAIT, AWAIT, None, None, False, []]
            bl[i] = dict(bl[i])
            bl[i]["t"] = ["call", fn, t[2], hit[0], hit[1], t[5]]

    # -- Definitions -------------------------------------------------------------------------

    def defs(self):
        """local -> list of (bb, idx, proj, kind, payload); idx == len(stmts) for terminators."""
        if self._defs is None:
            d = collections.defaultdict(list)
            mb = set()
            for i in sorted(self.reachable()):
                b = self.blocks[i]
                for j, s in enumerate(b["s"]):
                    if s[0] == "=":
                        d[s[1][0]].append((i, j, s[1][1], "=", s[2]))
                        if s[2][0] == "ref" and s[2][1] and not has_deref(s[2][2]):
                            mb.add(s[2][2][0])
                        if s[2][0] == "raw" and not has_deref(s[2][1]):
                            mb.add(s[2][1][0])
                    elif s[0] == "setd":
                        d[s[1][0]].append((i, j, s[1][1], "setd", s[2]))
                t = b["t"]
                if t[0] == "call":
                    d[t[3][0]].append((i, len(b["s"]), t[3][1], "call", t))
            self._defs = d
            self._mutb = mb
        return self._defs

    def reaching(self, local, bb, idx):
        """Set of definitions of `local` that may reach the point just before (bb, idx).  Each is
        an entry of `defs()` or the string "entry"."""
        ds = self.defs().get(local, [])
        byb = collections.defaultdict(list)
        for d in ds:
            byb[d[0]].append(d)
        out = []
        seen = set()

        def scan(b, lim):
            """Last full definition in block b before lim; adds partial ones."""
            best = None
            parts = []
            for d in byb.get(b, ()):  # in order
                if d[1] < lim and "*" not in d[2]:
                    if not d[2] or d[3] == "call" and not d[2]:
                        best = d
                        parts = []
                    else:
                        parts.append(d)
            out.extend(parts)
            if best is not None:
                out.append(best)
                return True
            return False

        if scan(bb, idx):
            return out
        w = [bb]
        first = True
        while w:
            x = w.pop()
            if x == 0 and (first or x in seen):
                pass
            if x == 0:
                if "entry" not in out:
                    out.append("entry")
            first = False
            for p in self.pred(x):
                if p in seen:
                    continue
                seen.add(p)
                n = len(self.blocks[p]["s"]) + 1
                if not scan(p, n):
                    w.append(p)
        res = []
        for d in out:
            if d not in res:
                res.append(d)
        return res

    # -- Value origins -----------------------------------------------------------------------

    def x_operand(self, op, bb, idx, depth=0):
        k = op[0]
        if k in ("c", "m"):
            return self.x_place(op[1], bb, idx, depth)
        if k == "k":
            return self._const(op)
        if k == "fn":
            return ("fn", op[2] or op[1], op[1])
        return ("unk",)

    def _const(self, op):
        ty, val, item = op[1], op[2], op[3]
        if item and "#p" in item:
            e = self.prog.promoted(item)
            if e is not None:
                return e
        return ("const", ty, val, item)

    def x_place(self, place, bb, idx, depth=0):
        key = (place[0], json.dumps(place[1]), bb, idx)
        if self._mem is None:
            self.memdefs()
        c = self._xcache
        if key in c:
            return c[key]
        if depth > 60:
            return ("unk",)
        c[key] = ("loop", place[0])
        r = self._x_place(place, bb, idx, depth)
        c[key] = r
        return r

    # Memory written through references rooted in parameters ------------------------------

    def memdefs(self):
        """[(bb, idx, key, kind, payload)] for writes through a reference that originates in a
        parameter; the key is the canonical access path (so aliases made by passing the reference
        along share it)."""
        if self._mem is None:
            self._mem = []
            out = []
            for i in sorted(self.reachable()):
                b = self.blocks[i]
                for j, s in enumerate(b["s"]):
                    if s[0] == "=" and "*" in s[1][1]:
                        k = self.mem_key(s[1], i, j)
                        if k is not None:
                            out.append((i, j, k, "=", s[2]))
                t = b["t"]
                if t[0] == "call" and "*" in t[3][1]:
                    k = self.mem_key(t[3], i, len(b["s"]))
                    if k is not None:
                        out.append((i, len(b["s"]), k, "call", t))
            self._mem = out
            self._memdone = True
            self._xcache = {}
        return self._mem

    def mem_key(self, place, bb, idx, depth=0):
        local, proj = place
        n = proj.index("*")
        e0 = self.x_place([local, proj[:n]], bb, idx, depth + 1)
        k = flatten(e0)
        if k is None:
            return None
        for p in proj[n:]:
            if p == "*":
                continue
            if p[0] == "f":
                k = k + (p[2],)
            elif p[0] == "v":
                k = k + (("v", p[1]),)
            else:
                k = k + (("?",),)
        return k

    def mem_reaching(self, key, bb, idx):
        byb = collections.defaultdict(list)
        for m in self.memdefs():
            if m[2][: len(key)] == key or key[: len(m[2])] == m[2]:
                byb[m[0]].append(m)
        if not byb:
            return ["entry"]
        out, seen = [], set()

        def scan(b, lim):
            best, parts = None, []
            for m in byb.get(b, ()):
                if m[1] < lim:
                    if len(m[2]) <= len(key):
                        best, parts = m, []
                    else:
                        parts.append(m)
            out.extend(parts)
            if best is not None:
                out.append(best)
                return True
            return False

        if scan(bb, idx):
            return out
        w = [bb]
        while w:
            x = w.pop()
            if x == 0 and "entry" not in out:
                out.append("entry")
            for p in self.pred(x):
                if p not in seen:
                    seen.add(p)
                    if not scan(p, len(self.blocks[p]["s"]) + 1):
                        w.append(p)
        res = []
        for d in out:
            if d not in res:
                res.append(d)
        return res

    def _x_place(self, place, bb, idx, depth):
        local, proj = place
        if "*" in proj and len([p for p in proj if p != "*"]) > 0:
            n = proj.index("*")
            e0 = self.x_place([local, proj[:n]], bb, idx, depth + 1)
            k0 = flatten(e0)
            if k0 is not None:
                # Split off the leading field/variant projections.
                lead, rest = [], []
                for p in proj[n:]:
                    if p == "*":
                        continue
                    if not rest and p[0] in ("f", "v"):
                        lead.append(p)
                    else:
                        rest.append(p)
                key = k0 + tuple(p[2] if p[0] == "f" else ("v", p[1]) for p in lead)
                ds = self.mem_reaching(key, bb, idx) if self._memdone else ["entry"]
                al = []
                for d in ds:
                    if d == "entry":
                        v = self.apply(e0, lead, bb, idx, depth)
                    elif len(d[2]) <= len(key):
                        v = self.x_rvalue_or_call((d[0], d[1], [], d[3], d[4]), depth + 1)
                        v = self.apply(v, lead[len(d[2]) - len(k0):] if len(d[2]) >= len(k0) else lead, bb, idx, depth)
                    else:
                        v = ("part", self.x_rvalue_or_call((d[0], d[1], [], d[3], d[4]), depth + 1), d[2][len(key):])
                    if v not in al:
                        al.append(v)
                r = al[0] if len(al) == 1 else ("phi", tuple(al))
                return self.apply(r, rest, bb, idx, depth)
            return self.apply(e0, proj[n:], bb, idx, depth)
        ds = self.reaching(local, bb, idx)
        alts = []
        for d in ds:
            if d == "entry":
                if 1 <= local <= self.argc:
                    alts.append(self.apply(self.arg_expr(local), proj, bb, idx, depth))
                continue
            dbb, didx, dproj, kind, payload = d
            if kind == "setd":
                continue
            if dproj:
                if "*" in dproj:
                    continue
                rest = match_prefix(dproj, proj)
                if rest is None:
                    if match_prefix(proj, dproj) is not None:
                        # A part of what we read was updated separately.
                        alts.append(("part", self.x_rvalue_or_call(d, depth + 1), proj_key(dproj)))
                    continue
                alts.append(self.apply(self.x_rvalue_or_call(d, depth + 1), rest, bb, idx, depth))
            else:
                alts.append(self.apply(self.x_rvalue_or_call(d, depth + 1), proj, bb, idx, depth))
        # An exact partial definition shadows a full one that precedes it.
        full = [d for d in ds if d == "entry" or not d[2]]
        if len(ds) > len(full) and proj:
            exact = [
                self.apply(self.x_rvalue_or_call(d, depth + 1), match_prefix(d[2], proj), bb, idx, depth)
                for d in ds
                if d != "entry" and d[2] and d[3] != "setd" and match_prefix(d[2], proj) is not None
                and d[0] == bb and d[1] < idx
            ]
            if exact:
                alts = [exact[-1]]
        u = []
        for a in alts:
            if a not in u:
                u.append(a)
        if not u:
            r = ("unk",)
        elif len(u) == 1:
            r = u[0]
        else:
            r = ("phi", tuple(u))
        self.defs()
        if local in self._mutb and not proj and r[0] not in ("arg",):
            r = ("var", local, r)
        return r

    def arg_expr(self, l):
        return ("arg", l, self.local_name(l) or "")

    def x_rvalue_or_call(self, d, depth):
        dbb, didx, dproj, kind, payload = d
        if kind == "call":
            return self.x_call(Call(dbb, payload), depth)
        return self.x_rvalue(payload, dbb, didx, depth)

    def x_call(self, call, depth=0):
        n = len(self.blocks[call.bb]["s"])
        args = tuple(self.x_operand(a, call.bb, n, depth + 1) for a in call.args)
        if call.func[0] != "fn":
            return ("call", "@indirect", (self.x_operand(call.func, call.bb, n, depth + 1),) + args, call.bb)
        return mk_call(call.path, call.generic, call.name, args, call.bb)

    def x_rvalue(self, r, bb, idx, depth):
        k = r[0]
        if k == "use":
            return self.x_operand(r[1], bb, idx, depth)
        if k == "ref":
            return self.x_place(r[2], bb, idx, depth)
        if k == "raw":
            return self.x_place(r[1], bb, idx, depth)
        if k == "cast":
            e = self.x_operand(r[2], bb, idx, depth)
            if r[1].startswith("PointerCoercion") or r[1].startswith("Transmute") and False:
                return e
            return ("cast", r[1], e, r[3], r[4])
        if k == "bin":
            return ("bin", r[1], self.x_operand(r[2], bb, idx, depth), self.x_operand(r[3], bb, idx, depth), r[4])
        if k == "un":
            return ("un", r[1], self.x_operand(r[2], bb, idx, depth))
        if k == "disc":
            return ("disc", self.x_place(r[1], bb, idx, depth), tuple(tuple(x) for x in r[3]))
        if k == "agg":
            return ("agg", r[1], r[2], tuple(self.x_operand(o, bb, idx, depth) for o in r[3]))
        if k == "rep":
            return ("rep", self.x_operand(r[1], bb, idx, depth), r[2])
        return ("other", r[1] if len(r) > 1 else "")

    def apply(self, e, proj, bb, idx, depth):
        for p in proj:
            if p == "*":
                continue
            if p[0] == "f":
                e = mk_field(e, p[1], p[2], p[3])
            elif p[0] == "v":
                e = mk_variant(e, p[1])
            elif p[0] == "i":
                e = ("index", e, self.x_place([p[1], []], bb, idx, depth + 1))
            elif p[0] == "ci":
                e = ("index", e, ("const", "usize", p[1] if not p[2] else -p[1], None))
            else:
                e = ("proj", e, p[0])
        return e

    # Convenience --------------------------------------------------------------------------

    def x_arg(self, call, i):
        n = len(self.blocks[call.bb]["s"])
        return self.x_operand(call.args[i], call.bb, n)

    def x_args(self, call):
        return [self.x_arg(call, i) for i in range(len(call.args))]

    def x_switch(self, bb):
        t = self.blocks[bb]["t"]
        return self.x_operand(t[1], bb, len(self.blocks[bb]["s"]))

    # -- Branch conditions -------------------------------------------------------------------

    def dominating_edges(self, bb):
        """Switch edges (s, value-or-None, target) every path from entry to bb takes."""
        out = []
        for s in sorted(self.dominators().get(bb, ())):
            if s == bb:
                continue
            t = self.blocks[s]["t"]
            if t[0] != "switch":
                continue
            for tgt in set(self.succ(s)):
                if bb not in self.reach_from([0], avoid_edges={(s, tgt)}) and (
                    sum(1 for x in [y[1] for y in t[3]] + ([t[4]] if t[4] in self.succ(s) else []) if x == tgt) >= 1
                ):
                    vals = [v for v, b in t[3] if b == tgt]
                    other = t[4] == tgt and t[4] in self.succ(s)
                    out.append((s, vals, other, tgt))
        return out

    def conditions(self, bb):
        """[(expr, kind, value)] facts that hold whenever bb executes.

        kind "is": switch expr equals one of `value`; kind "not": expr is none of `value`."""
        r = []
        for s, vals, other, tgt in self.dominating_edges(bb):
            e = self.x_switch(s)
            t = self.blocks[s]["t"]
            if other and not vals:
                allv = [v for v, _ in t[3]]
                if t[2] == "bool" and len(allv) == 1:
                    r.append((e, "is", (1 - allv[0],)))
                else:
                    r.append((e, "not", tuple(allv)))
            elif not other:
                r.append((e, "is", tuple(vals)))
        return r

    # -- Path-sensitive reachability ---------------------------------------------------------

    def _pinfo(self):
        """Per block: environment updates needed for path-sensitive exploration."""
        if self._bbinfo is None:
            self._bbinfo = {}
        return self._bbinfo

    def paths(self, start, visit, state0=None, env0=None, limit=200000):
        """Explores (bb, env, state) triples.  `env` tracks constants and enum variants of locals
        so that infeasible branches are pruned.  `visit(bb, state)` returns the new state after
        executing the block (events in it), or None to stop exploring there.  Returns the set of
        explored (bb, state) pairs."""
        seen = set()
        w = [(start, tuple(sorted((env0 or {}).items())), state0)]
        seen.add(w[0])
        out = set()
        n = 0
        rel = self._relevant()
        while w:
            bb, env, st = w.pop()
            n += 1
            if n > limit:
                raise RuntimeError("path exploration limit in " + self.id)
            out.add((bb, st))
            st2 = visit(bb, st)
            if st2 is None:
                continue
            e = dict(env)
            for tgt, e2, how in self._step(bb, e, rel):
                st3 = st2
                if callable(st2):
                    st3 = st2(tgt, how)
                    if st3 is None:
                        continue
                k = (tgt, tuple(sorted(e2.items())), st3)
                if k not in seen:
                    seen.add(k)
                    w.append(k)
        return out

    def _relevant(self):
        """Locals whose constant/variant value can influence a switch."""
        if getattr(self, "_rel", None) is not None:
            return self._rel
        rel = set()
        for i in self.reachable():
            b = self.blocks[i]
            t = b["t"]
            if t[0] == "switch" and t[1][0] in ("c", "m"):
                rel.add(t[1][1][0])
        ch = True
        while ch:
            ch = False
            for i in self.reachable():
                b = self.blocks[i]
                for s in b["s"]:
                    if s[0] == "=" and s[1][0] in rel:
                        r = s[2]
                        src = None
                        if r[0] == "use" and r[1][0] in ("c", "m"):
                            src = r[1][1][0]
                        elif r[0] == "disc":
                            src = r[1][0]
                        elif r[0] == "un" and r[2][0] in ("c", "m"):
                            src = r[2][1][0]
                        elif r[0] == "ref":
                            src = r[2][0]
                        if src is not None and src not in rel:
                            rel.add(src)
                            ch = True
                if b["t"][0] == "call" and b["t"][3][0] in rel:
                    c = Call(i, b["t"])
                    if c.name in VARIANT_PASS and c.args and c.args[0][0] in ("c", "m"):
                        src = c.args[0][1][0]
                        if src not in rel:
                            rel.add(src)
                            ch = True
        self._rel = rel
        return rel

    def _val(self, op, env):
        if op[0] == "k":
            if op[2] is not None and isinstance(op[2], (int, bool)):
                return ("c", int(op[2]))
            return None
        if op[0] in ("c", "m"):
            l, pr = op[1]
            pr = [p for p in pr if p != "*"]
            if not pr:
                return env.get(l)
            v = env.get(l)
            # Payload of a tracked one-field variant.
            for p in pr:
                if v is None:
                    return None
                if p[0] == "v":
                    if v[0] != "v" or v[1] != p[1]:
                        return None
                elif p[0] == "f":
                    if v[0] == "v" and len(v) > 2 and p[1] < len(v[2]):
                        v = v[2][p[1]]
                    else:
                        return None
                else:
                    return None
            return v
        return None

    def _step(self, bb, env, rel):
        b = self.blocks[bb]
        env = dict(env)
        for s in b["s"]:
            if s[0] == "dead":
                env.pop(s[1], None)
            elif s[0] == "=":
                l, pr = s[1]
                if pr:
                    if "*" not in pr and l in env:
                        env.pop(l, None)
                    continue
                if l not in rel:
                    continue
                r = s[2]
                v = None
                if r[0] == "use":
                    v = self._val(r[1], env)
                elif r[0] == "agg" and r[2]:
                    v = ("v", r[2], tuple(self._val(o, env) for o in r[3]))
                elif r[0] == "agg" and r[1] == "tuple":
                    v = ("v", "", tuple(self._val(o, env) for o in r[3]))
                elif r[0] == "disc":
                    pv = self._val(["c", r[1]], env)
                    if pv is not None and pv[0] == "v":
                        for d, n in r[3]:
                            if n == pv[1]:
                                v = ("c", d)
                    # Remember what this discriminant is of, so that edges refine it.
                    if v is None:
                        v = ("d", r[1][0], json.dumps(r[1][1]), tuple((d, n) for d, n in r[3]))
                elif r[0] == "un" and r[1] == "Not":
                    pv = self._val(r[2], env)
                    if pv is not None and pv[0] == "c" and pv[1] in (0, 1):
                        v = ("c", 1 - pv[1])
                elif r[0] == "ref":
                    v = self._val(["c", r[2]], env)
                if v is None:
                    env.pop(l, None)
                else:
                    env[l] = v
        t = b["t"]
        k = t[0]
        if k == "switch":
            v = self._val(t[1], env)
            succs = self.succ(bb)
            if v is not None and v[0] == "c":
                tgt = None
                for val, tb in t[3]:
                    if val == v[1]:
                        tgt = tb
                if tgt is None:
                    tgt = t[4]
                return [(tgt, env, ("sw", v[1]))]
            out = []
            loc = t[1][1][0] if t[1][0] in ("c", "m") and not t[1][1][1] else None
            excl = []
            for val, tb in t[3]:
                e2 = dict(env)
                ok = True
                if v is not None and v[0] == "d":
                    nm = dict(v[3]).get(val)
                    if nm is not None and v[2] == "[]" and v[1] in rel:
                        old = e2.get(v[1])
                        if old is not None and old[0] == "nv" and nm in old[1]:
                            ok = False
                        e2[v[1]] = ("v", nm, ())
                elif loc is not None and loc in rel:
                    e2[loc] = ("c", val)
                excl.append(val)
                if ok:
                    out.append((tb, e2, ("sw", val)))
            if t[4] in succs:
                e2 = dict(env)
                if v is not None and v[0] == "d" and v[2] == "[]" and v[1] in rel:
                    names = [n for d, n in v[3] if d not in excl]
                    if len(names) == 1:
                        e2[v[1]] = ("v", names[0], ())
                elif loc is not None and loc in rel and t[2] == "bool" and len(excl) == 1:
                    e2[loc] = ("c", 1 - excl[0])
                out.append((t[4], e2, ("sw", None)))
            return out
        if k == "call":
            if t[4] is None:
                return []
            c = Call(bb, t)
            l, pr = c.dest
            nv = None
            if not pr and l in rel and c.args:
                v = self._val(c.args[0], env)
                if c.name in VARIANT_PASS and v is not None and v[0] == "v":
                    m = VARIANT_PASS[c.name]
                    nm = m.get(v[1]) if isinstance(m, dict) else v[1]
                    if nm is not None:
                        nv = ("v", nm, v[2] if c.name in ("branch",) and len(v) > 2 and v[1] in ("Ok", "Some") else ())
                elif c.name == "from_residual":
                    nv = None
            if not pr and c.name == "from_residual":
                rt = self.locals[l]
                if rt.startswith("core::result::Result<"):
                    nv = ("v", "Err", ())
                elif rt.startswith("core::option::Option<"):
                    nv = ("v", "None", ())
            if nv is None and not pr and c.path == AWAIT:
                nv = ("v", "Ready", ())
            if not pr:
                if nv is None:
                    env.pop(l, None)
                elif l in rel or c.name == "from_residual":
                    env[l] = nv
            elif l in env:
                env.pop(l, None)
            # Mutable borrows passed to the call may change tracked locals.
            for a in c.args:
                if a[0] in ("c", "m"):
                    pass
            self.defs()
            for l2 in list(env):
                if l2 in self._mutb and l2 != l:
                    env.pop(l2, None)
            return [(t[4], env, ("call", c.path))]
        return [(s, env, (k,)) for s in self.succ(bb)]


VARIANT_PASS = {
    "branch": {"Ok": "Continue", "Some": "Continue", "Err": "Break", "None": "Break"},
    "map_err": {"Ok": "Ok", "Err": "Err"},
    "map": {"Ok": "Ok", "Err": "Err", "Some": "Some", "None": "None"},
    "as_ref": {"Ok": "Ok", "Err": "Err", "Some": "Some", "None": "None"},
    "as_mut": {"Ok": "Ok", "Err": "Err", "Some": "Some", "None": "None"},
    "cloned": {"Some": "Some", "None": "None"},
    "copied": {"Some": "Some", "None": "None"},
    "clone": {"Ok": "Ok", "Err": "Err", "Some": "Some", "None": "None"},
}


def has_deref(place):
    return "*" in place[1]


def proj_key(proj):
    return tuple(p if isinstance(p, str) else tuple(p) for p in proj if p != "*")


def match_prefix(pre, proj):
    """If `proj` starts with `pre` (ignoring derefs), returns the rest."""
    a = [p for p in pre if p != "*"]
    b = [p for p in proj if p != "*"]
    if len(a) > len(b):
        return None
    for x, y in zip(a, b):
        if x[0] != y[0] or (x[0] == "i"):
            return None
        if x[0] == "f" and x[1] != y[1]:
            return None
        if x[0] == "v" and x[1] != y[1]:
            return None
        if x[0] not in ("f", "v", "ci"):
            return None
    return b[len(a):]


# --------------------------------------------------------------------------------------------
# Expressions
# --------------------------------------------------------------------------------------------

# Calls that hand their first argument through unchanged, for the purposes of value tracing.
TRANSPARENT = {
    "deref", "deref_mut", "clone", "to_owned", "as_ref", "as_mut", "borrow", "borrow_mut", "as_str",
    "as_mut_str", "into_boxed_str", "as_slice", "as_mut_slice", "as_deref", "as_deref_mut", "cloned",
    "copied", "into_iter", "iter", "iter_mut", "as_path", "as_bytes", "new_unchecked", "into_string",
}
TRANSPARENT_PATHS = {
    "core::convert::From::from", "core::convert::Into::into", "alloc::string::ToString::to_string",
}


def mk_call(path, generic, name, args, bb):
    if path == AWAIT:
        return ("call", AWAIT, args, bb)
    if name == "branch" and generic.endswith("Try::branch"):
        return ("try", args[0])
    if generic in ("core::convert::From::from", "core::convert::Into::into") and len(args) == 1:
        return ("conv", path, args[0])
    if name in TRANSPARENT and len(args) == 1:
        if name in ("borrow", "borrow_mut") and "RefCell" in generic:
            return ("call", path, args, bb)
        return args[0]
    if generic == "alloc::string::ToString::to_string" and len(args) == 1 and ("str as" in path or "String as" in path):
        return args[0]
    return ("call", path, args, bb)


def mk_variant(e, name):
    return ("as", e, name)


OKS = {"Ok", "Some", "Continue"}


def strip_var(e):
    while e[0] == "var":
        e = e[2]
    return e


def mk_field(e, idx, name, owner):
    b = e
    if b[0] == "as":
        inner, v = b[1], b[2]
        sv = strip_var(inner)
        if v == "Ready" and sv[0] == "call" and sv[1] == AWAIT:
            return ("await", sv[2][0], sv[3])
        if v in OKS:
            x = sv
            while x[0] == "try":
                x = strip_var(x[1])
            if x[0] == "agg" and x[2] in OKS and idx < len(x[3]):
                return x[3][idx]
            if x[0] == "phi":
                # Only the alternatives that can be that variant matter.
                alts = []
                for a in x[1]:
                    a = strip_var(a)
                    if a[0] == "agg" and a[2] and a[2] not in OKS:
                        continue
                    if a[0] == "residual":
                        continue
                    y = mk_field(("as", a, v), idx, name, owner)
                    if y not in alts:
                        alts.append(y)
                if len(alts) == 1:
                    return alts[0]
                if alts:
                    return ("phi", tuple(alts))
            return ("ok", x)
        if sv[0] == "agg" and sv[2] == v and idx < len(sv[3]):
            return sv[3][idx]
        if sv[0] == "phi":
            alts = []
            for a in sv[1]:
                a = strip_var(a)
                if a[0] == "agg" and a[2] and a[2] != v:
                    continue
                y = mk_field(("as", a, v), idx, name, owner)
                if y not in alts:
                    alts.append(y)
            if len(alts) == 1:
                return alts[0]
            if alts:
                return ("phi", tuple(alts))
        return ("field", b, name, owner, idx)
    sv = b
    if sv[0] == "agg" and idx < len(sv[3]):
        return sv[3][idx]
    if sv[0] == "bin" and sv[1].endswith("WithOverflow"):
        if idx == 0:
            return ("bin", sv[1][: -len("WithOverflow")], sv[2], sv[3], sv[4])
        return ("ovf", sv)
    if sv[0] == "phi":
        alts = []
        for a in sv[1]:
            y = mk_field(a, idx, name, owner)
            if y not in alts:
                alts.append(y)
        return alts[0] if len(alts) == 1 else ("phi", tuple(alts))
    return ("field", b, name, owner, idx)


def flatten(e):
    """Canonical access path of an expression rooted at a parameter, or None."""
    e = strip_var(e)
    if e[0] == "arg":
        return (("arg", e[1]),)
    if e[0] == "field":
        k = flatten(e[1])
        return None if k is None else k + (e[2],)
    if e[0] == "as":
        k = flatten(e[1])
        return None if k is None else k + (("v", e[2]),)
    if e[0] == "ok":
        k = flatten(e[1])
        return None if k is None else k + (("ok",),)
    return None


def walk(e):
    """All sub-expressions of e, including e."""
    yield e
    k = e[0]
    if k in ("call",):
        for a in e[2]:
            yield from walk(a)
    elif k in ("field", "as", "ok", "try", "index", "proj", "disc", "rep", "ovf", "part"):
        yield from walk(e[1])
        if k == "index":
            yield from walk(e[2])
    elif k == "await":
        yield from walk(e[1])
    elif k == "conv":
        yield from walk(e[2])
    elif k == "cast":
        yield from walk(e[2])
    elif k == "bin":
        yield from walk(e[2])
        yield from walk(e[3])
    elif k == "un":
        yield from walk(e[2])
    elif k == "agg":
        for a in e[3]:
            yield from walk(a)
    elif k == "phi":
        for a in e[1]:
            yield from walk(a)
    elif k == "var":
        yield from walk(e[2])


def alts(e):
    """Alternatives of a (possibly nested) phi."""
    e2 = strip_var(e)
    if e2[0] == "phi":
        for a in e2[1]:
            yield from alts(a)
    else:
        yield e2


def peel(e):
    """Strips wrappers that do not change the value: var, conv, ok, try, await."""
    while True:
        if e[0] == "var":
            e = e[2]
        elif e[0] in ("ok", "try", "await"):
            e = e[1]
        elif e[0] == "conv":
            e = e[2]
        else:
            return e


def has_call(e, pred):
    for x in walk(e):
        if x[0] == "call" and pred(x[1]):
            return True
    return False


def fmt(e, d=0):
    if d > 12:
        return "…"
    k = e[0]
    if k == "const":
        return repr(e[2]) if e[2] is not None else (e[3] or e[1])
    if k == "arg":
        return e[2] or "_%d" % e[1]
    if k == "call":
        return "%s(%s)" % (short(e[1]), ", ".join(fmt(a, d + 1) for a in e[2]))
    if k == "field":
        return "%s.%s" % (fmt(e[1], d + 1), e[2])
    if k == "as":
        return "(%s as %s)" % (fmt(e[1], d + 1), e[2])
    if k in ("ok", "try", "await"):
        return "%s(%s)" % (k, fmt(e[1], d + 1))
    if k == "conv":
        return fmt(e[2], d + 1)
    if k == "var":
        return "&%s" % fmt(e[2], d + 1)
    if k == "cast":
        return "(%s as %s)" % (fmt(e[2], d + 1), e[3])
    if k == "bin":
        return "(%s %s %s)" % (fmt(e[2], d + 1), e[1], fmt(e[3], d + 1))
    if k == "un":
        return "%s(%s)" % (e[1], fmt(e[2], d + 1))
    if k == "disc":
        return "disc(%s)" % fmt(e[1], d + 1)
    if k == "agg":
        return "%s%s{%s}" % (short(e[1]), "::" + e[2] if e[2] else "", ", ".join(fmt(a, d + 1) for a in e[3]))
    if k == "phi":
        return "phi(%s)" % " | ".join(fmt(a, d + 1) for a in e[1])
    if k == "index":
        return "%s[%s]" % (fmt(e[1], d + 1), fmt(e[2], d + 1))
    if k == "fn":
        return short(e[1])
    if k == "rep":
        return "[%s; %s]" % (fmt(e[1], d + 1), e[2])
    return k


def short(p):
    import re
    return re.sub(r"[A-Za-z_0-9]+::", "", p)


# --------------------------------------------------------------------------------------------
# Program
# --------------------------------------------------------------------------------------------

class Prog:
    def __init__(self, facts_dir):
        self.raw = {}
        self.adts = {}
        self.traits = {}
        self.impls = []
        self._bodies = {}
        self._prom = {}
        self._cg = None
        self.crates = []
        for f in sorted(os.listdir(facts_dir)):
            if not f.endswith(".jsonl"):
                continue
            isbin = f.endswith("-bin.jsonl")
            for l in open(os.path.join(facts_dir, f)):
                d = json.loads(l)
                k = d["k"]
                if k == "body":
                    i = d["id"]
                    if isbin and i in self.raw:
                        i = "bin:" + i
                        d["id"] = i
                    n = 2
                    while i in self.raw:
                        i = "%s#%d" % (d["id"], n)
                        n += 1
                    d["id"] = i
                    self.raw[i] = d
                elif k == "adt":
                    self.adts[d["id"]] = d
                elif k == "trait":
                    self.traits[d["id"]] = d
                elif k == "impl":
                    self.impls.append(d)
                elif k == "crate":
                    self.crates.append(d["id"])
        self.by_trait = collections.defaultdict(list)
        for i in self.impls:
            if i["trait"]:
                self.by_trait[i["trait"]].append(i)
        # trait method path -> implementing bodies
        self.method_impls = collections.defaultdict(list)
        for i in self.impls:
            if i["trait"]:
                for n, p in i["methods"]:
                    self.method_impls[(i["trait"], n)].append((i["self"], p))

    def body(self, i):
        b = self._bodies.get(i)
        if b is None:
            d = self.raw.get(i)
            if d is None:
                return None
            b = self._bodies[i] = Body(d, self)
        return b

    def bodies(self, crates=None, kinds=("fn", "method", "closure", "coroutine")):
        for i in list(self.raw):
            d = self.raw[i]
            if d["kind"] in kinds and (crates is None or d["crate"] in crates):
                yield self.body(i)

    def promoted(self, item):
        """The expression a promoted constant evaluates to."""
        if item in self._prom:
            return self._prom[item]
        self._prom[item] = None
        b = self.body(item)
        r = None
        if b is not None:
            rets = b.returns()
            if len(rets) == 1:
                r = b.x_place([0, []], rets[0], len(b.blocks[rets[0]]["s"]))
        self._prom[item] = r
        return r

    def const_item(self, item):
        """The expression a `const`/`static` item evaluates to."""
        return self.promoted(item)

    # -- async -------------------------------------------------------------------------------

    def coroutine_of(self, fid):
        """For an async fn (or #[async_trait] method): (coroutine id, operand->param map) or None.
        The map lists, for each captured variable, the parameter local it comes from."""
        b = self.body(fid)
        if b is None or b.kind not in ("fn", "method", "closure"):
            return None
        c = getattr(b, "_coro", 0)
        if c != 0:
            return c
        b._coro = None
        ncalls = [c for c in b.calls()]
        if len(ncalls) > 1:
            return None
        for bb, j, s in b.stmts():
            if s[2][0] == "agg" and s[2][1] == "coroutine":
                ups = []
                for o in s[2][3]:
                    e = strip_var(b.x_operand(o, bb, j))
                    ups.append(e[1] if e[0] == "arg" else None)
                if all(u is not None for u in ups):
                    b._coro = (s[2][2], ups)
        return b._coro

    def logic_body(self, fid):
        """The body with the logic of a function: its coroutine for async functions."""
        c = self.coroutine_of(fid)
        if c is not None:
            return self.body(c[0])
        return self.body(fid)

    # -- call graph --------------------------------------------------------------------------

    def callees(self, b, fanout=True):
        """Body ids that `b` may call or create (closures and coroutines count as called)."""
        out = set()
        for c in b.calls():
            if not c.is_fn:
                continue
            out.update(self.targets(c, fanout))
            for a in c.args:
                if a[0] == "fn" and (a[2] or a[1]) in self.raw:
                    out.add(a[2] or a[1])
        for bb, j, s in b.stmts():
            r = s[2]
            if r[0] == "agg" and r[1] in ("closure", "coroutine") and r[2] in self.raw:
                out.add(r[2])
            for o in rv_operands(r):
                if o[0] == "fn" and (o[2] or o[1]) in self.raw:
                    out.add(o[2] or o[1])
        return out

    def targets(self, c, fanout=True):
        if c.resolved is not None and c.resolved in self.raw:
            body = self.raw[c.resolved]
            return [c.resolved]
        if fanout and c.trait and (c.virtual or c.resolved is None):
            r = [p for _s, p in self.method_impls.get((c.trait, c.name), []) if p in self.raw]
            if c.generic in self.raw:
                r.append(c.generic)
            return r
        return []

    def callgraph(self):
        if self._cg is None:
            self._cg = {b.id: self.callees(b) for b in self.bodies()}
        return self._cg

    def closure_reach(self, start, stop=lambda i: False):
        cg = self.callgraph()
        seen = set()
        w = list(start)
        while w:
            x = w.pop()
            if x in seen or stop(x):
                continue
            seen.add(x)
            w.extend(cg.get(x, ()))
        return seen

    def callers(self):
        r = collections.defaultdict(set)
        for a, bs in self.callgraph().items():
            for b in bs:
                r[b].add(a)
        return r

    def devirt(self, cur, c):
        """Resolves calls through function pointers and generic `Fn*` parameters whose value is
        known in `cur`: returns (func, args, extra statements)."""
        if not c.is_fn:
            n = len(cur.blocks[c.bb]["s"])
            e = strip_var(cur.x_operand(c.func, c.bb, n))
            if e[0] == "fn" and e[1] in self.raw:
                return (["fn", e[2], e[1], e[1].rsplit("::", 1)[-1], None, None, False, []], c.args, [])
            return None
        if c.name in ("call", "call_mut", "call_once") and (c.trait or "").startswith("core::ops::function::Fn"):
            if c.resolved in self.raw and self.raw[c.resolved]["kind"] == "closure":
                tgt, clo = c.resolved, True
            else:
                e = strip_var(cur.x_arg(c, 0))
                if e[0] == "agg" and e[1] == "closure" and e[2] in self.raw:
                    tgt, clo = e[2], True
                elif e[0] == "fn" and e[1] in self.raw:
                    tgt, clo = e[1], False
                else:
                    return None
            body = self.body(tgt)
            nargs = body.argc - (1 if clo else 0)
            tup = c.args[1]
            if tup[0] not in ("c", "m"):
                args = []
            else:
                args = [["c", [tup[1][0], tup[1][1] + [["f", k, str(k), ""]]]] for k in range(nargs)]
            if clo:
                args = [unmove(c.args[0])] + args
            if len(args) != body.argc:
                return None
            return (["fn", tgt, tgt, body.name or "closure", None, None, False, []], args, [])
        return None

    # -- inlining ----------------------------------------------------------------------------

    def inlined(self, b, pick, depth=5, max_blocks=6000):
        """A copy of `b` with the calls selected by `pick(call, callee_body)` inlined, including
        awaited async functions."""
        d = dict(
            id=b.id, crate=b.crate, kind=b.kind, name=b.name, parent=b.parent, root=b.root,
            impl_trait=b.impl_trait, impl_self=b.impl_self, trait_item=b.trait_item,
            in_trait=b.in_trait, vis=b.vis, unsafe=b.unsafe, file=b.file, line=b.line,
            line_hi=b.line_hi, argc=b.argc, locals=list(b.locals), names=list(b.names),
            blocks=[dict(x) for x in b.blocks],
        )
        stack = {i: (b.id,) for i in range(len(d["blocks"]))}
        work = sorted(b.reachable())
        inl = []
        pend = {}
        nb = None
        rounds = 0
        while rounds < depth:
            rounds += 1
            cur = Body(dict(d, kind="inlined"), self)
            did = False
            for i in sorted(cur.reachable()):
                t = d["blocks"][i]["t"]
                if t[0] != "call" or t[4] is None:
                    continue
                c = Call(i, t)
                dv = self.devirt(cur, c)
                if dv is not None:
                    d["blocks"][i] = dict(d["blocks"][i])
                    if dv[2]:
                        d["blocks"][i]["s"] = d["blocks"][i]["s"] + dv[2]
                        while len(d["locals"]) <= max(x[1][0] for x in dv[2]):
                            d["locals"].append("?")
                    d["blocks"][i]["t"] = t = ["call", dv[0], dv[1], t[3], t[4], t[5]]
                    c = Call(i, t)
                    did = True
                if not c.is_fn:
                    continue
                if c.path == AWAIT:
                    e = strip_var(cur.x_arg(c, 0))
                    site = None
                    if e[0] == "call" and isinstance(e[3], int):
                        site = e[3]
                    if site is None or d["blocks"][site]["t"][0] != "call":
                        continue
                    sc = Call(site, d["blocks"][site]["t"])
                    co = self.coroutine_of(sc.resolved) if sc.resolved else None
                    if co is None or co[0] in stack[i] or d["blocks"][site].get("coro"):
                        continue
                    cb = self.body(co[0])
                    if not pick(sc, cb) or len(d["blocks"]) + len(cb.blocks) > max_blocks:
                        continue
                    off, boff = len(d["locals"]), len(d["blocks"])
                    st = []
                    for n, p in enumerate(co[1]):
                        st.append(["=", [off + 1, [["f", n, "up%d" % n, ""]]], ["use", unmove(sc.args[p - 1])], sc.line])
                    d["blocks"][site] = dict(d["blocks"][site])
                    d["blocks"][site]["s"] = d["blocks"][site]["s"] + st
                    d["blocks"][site]["coro"] = 1
                    d["locals"] += cb.locals
                    d["names"] += [[n, [p[0] + off, p[1]]] for n, p in cb.names]
                    for k, blk in enumerate(cb.blocks):
                        nbk = remap_block(blk, off, boff)
                        if nbk["t"][0] == "ret":
                            nbk["s"] = nbk["s"] + [["=", c.dest, ["agg", "core::task::poll::Poll", "Ready", [["m", [off, []]]]], c.line]]
                            nbk["t"] = ["goto", c.target]
                        nbk["origin"] = cb.id
                        d["blocks"].append(nbk)
                        stack[boff + k] = stack[i] + (cb.id,)
                    d["blocks"][i] = dict(d["blocks"][i])
                    d["blocks"][i]["t"] = ["goto", boff]
                    did = True
                    continue
                if not c.resolved or c.resolved not in self.raw:
                    continue
                if c.resolved in stack[i] or self.coroutine_of(c.resolved):
                    continue
                cb = self.body(c.resolved)
                if cb.kind not in ("fn", "method", "closure") or cb.argc != len(c.args):
                    continue
                if not pick(c, cb) or len(d["blocks"]) + len(cb.blocks) > max_blocks:
                    continue
                off, boff = len(d["locals"]), len(d["blocks"])
                d["locals"] += cb.locals
                d["names"] += [[n, [p[0] + off, p[1]]] for n, p in cb.names]
                st = [["=", [off + 1 + n, []], ["use", a], c.line] for n, a in enumerate(c.args)]
                for k, blk in enumerate(cb.blocks):
                    nbk = remap_block(blk, off, boff)
                    if nbk["t"][0] == "ret":
                        nbk["s"] = nbk["s"] + [["=", c.dest, ["use", ["m", [off, []]]], c.line]]
                        nbk["t"] = ["goto", c.target]
                    nbk["origin"] = cb.id
                    d["blocks"].append(nbk)
                    stack[boff + k] = stack[i] + (cb.id,)
                d["blocks"][i] = dict(d["blocks"][i])
                d["blocks"][i]["s"] = d["blocks"][i]["s"] + st
                d["blocks"][i]["t"] = ["goto", boff]
                did = True
            if not did:
                break
        r = Body(dict(d, kind="inlined"), self)
        r.kind = b.kind
        r.inl_stack = stack
        return r


def unmove(o):
    return ["c", o[1]] if o[0] == "m" else o


def rv_operands(r):
    k = r[0]
    if k in ("use",):
        return [r[1]]
    if k == "rep":
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return list(r[3])
    return []


def remap_place(p, off):
    return [p[0] + off, [["i", q[1] + off] if q != "*" and q[0] == "i" else q for q in p[1]]]


def remap_op(o, off):
    if o[0] in ("c", "m"):
        return [o[0], remap_place(o[1], off)]
    return o


def remap_rv(r, off):
    k = r[0]
    if k == "use":
        return ["use", remap_op(r[1], off)]
    if k == "rep":
        return ["rep", remap_op(r[1], off), r[2]]
    if k == "ref":
        return ["ref", r[1], remap_place(r[2], off)]
    if k == "raw":
        return ["raw", remap_place(r[1], off)]
    if k == "cast":
        return ["cast", r[1], remap_op(r[2], off), r[3], r[4]]
    if k == "bin":
        return ["bin", r[1], remap_op(r[2], off), remap_op(r[3], off), r[4]]
    if k == "un":
        return ["un", r[1], remap_op(r[2], off)]
    if k == "disc":
        return ["disc", remap_place(r[1], off), r[2], r[3]]
    if k == "agg":
        return ["agg", r[1], r[2], [remap_op(o, off) for o in r[3]]]
    return r


def remap_block(b, off, boff):
    ss = []
    for s in b["s"]:
        if s[0] == "=":
            ss.append(["=", remap_place(s[1], off), remap_rv(s[2], off), s[3]])
        elif s[0] in ("live", "dead"):
            ss.append([s[0], s[1] + off])
        elif s[0] == "setd":
            ss.append(["setd", remap_place(s[1], off), s[2]])
    t = b["t"]
    k = t[0]
    if k == "goto":
        t = ["goto", t[1] + boff]
    elif k == "switch":
        t = ["switch", remap_op(t[1], off), t[2], [[v, x + boff] for v, x in t[3]], t[4] + boff, t[5]]
    elif k == "call":
        t = ["call", remap_op(t[1], off), [remap_op(a, off) for a in t[2]], remap_place(t[3], off),
             None if t[4] is None else t[4] + boff, t[5]]
    elif k == "drop":
        t = ["drop", remap_place(t[1], off), t[2] + boff, t[3]]
    elif k == "assert":
        t = ["assert", remap_op(t[1], off), t[2], t[3], [remap_op(a, off) for a in t[4]], t[5], t[6] + boff, t[7]]
    elif k == "yield":
        t = ["yield", t[1] + boff, t[2]]
    r = {"s": ss, "t": t}
    for x in ("c", "coro", "origin"):
        if b.get(x):
            r[x] = b[x]
    return r


# --------------------------------------------------------------------------------------------
# Return classification
# --------------------------------------------------------------------------------------------

def ret_sites(b):
    """Assignments to the return place: [(bb, idx, class, expr)], class in ok/err/other.

    `ok`: Ok(..)/Some(..)/true..., `err`: Err(..)/None/propagated residual, `other`: anything else
    (such as the result of a call, which may be either)."""
    out = []
    for d in b.defs().get(0, []):
        bb, idx, proj, kind, payload = d
        if proj:
            continue
        if kind == "call":
            c = Call(bb, payload)
            if c.name == "from_residual":
                out.append((bb, idx, "err", b.x_call(c)))
            else:
                out.append((bb, idx, "other", b.x_call(c)))
        elif kind == "=":
            e = b.x_rvalue(payload, bb, idx, 0)
            out.append((bb, idx, classify(e), e))
    return out


def classify(e):
    e = strip_var(e)
    if e[0] == "agg":
        if e[2] in ("Ok", "Some"):
            return "ok"
        if e[2] in ("Err", "None"):
            return "err"
    if e[0] == "call" and e[1].endswith("from_residual"):
        return "err"
    return "other"


# --------------------------------------------------------------------------------------------
# Specialisation: prune the branches an oracle decides
# --------------------------------------------------------------------------------------------

def specialise(b, oracle, rounds=6):
    """A copy of `b` without the switch edges that `oracle(expr)` (an integer or None) rules out."""
    cur = b
    for _ in range(rounds):
        changed = {}
        for i in sorted(cur.reachable()):
            t = cur.blocks[i]["t"]
            if t[0] != "switch":
                continue
            e = strip_var(cur.x_switch(i))
            v = oracle(e)
            if v is None and e[0] == "const" and isinstance(e[2], (int, bool)):
                v = int(e[2])
            if v is None:
                continue
            tgt = dict((int(x), tb) for x, tb in t[3]).get(int(v), t[4])
            changed[i] = tgt
        if not changed:
            return cur
        blocks = list(cur.blocks)
        for i, tgt in changed.items():
            blocks[i] = dict(blocks[i])
            blocks[i]["t"] = ["goto", tgt]
        d = dict(
            id=cur.id, crate=cur.crate, kind=cur.kind, name=cur.name, parent=cur.parent, root=cur.root,
            impl_trait=cur.impl_trait, impl_self=cur.impl_self, trait_item=cur.trait_item, in_trait=cur.in_trait,
            vis=cur.vis, unsafe=cur.unsafe, file=cur.file, line=cur.line, line_hi=cur.line_hi, argc=cur.argc,
            locals=cur.locals, names=cur.names, blocks=blocks,
        )
        n = Body(d, cur.prog)
        for a in ("ret_block", "start"):
            if hasattr(cur, a):
                setattr(n, a, getattr(cur, a))
        cur = n
    return cur
