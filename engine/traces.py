"""Effect traces: abstract interpretation of code that works on opaque objects.

`Traces` is `frames.Frames` for code outside of the language core: values that come from outside are
symbolic objects named by their access path (`self.console`), async code is entered at its awaits, smart
pointers and RefCells are transparent, and the client sees every call with its arguments resolved.  The
client's state should be a finite abstraction (an automaton state) so that loops converge."""

import json

import absint
import frames
from mirlib import AWAIT, Call

IDENTITY = {"pin", "into_future", "new_unchecked", "get_mut", "as_mut", "as_ref", "borrow", "borrow_mut", "deref", "deref_mut", "clone", "as_str", "as_bytes", "as_slice", "to_owned", "into", "from",
            "as_deref", "as_deref_mut", "to_string", "into_boxed_str", "into_string", "as_mut_slice", "into_bytes"}


def obj(name):
    return ("sym", "obj", name)


def is_obj(v, name=None):
    return v is not None and v[0] == "sym" and v[1] == "obj" and (name is None or v[2] == name)


def future(v):
    return ("v", "Future!", (v,))


class Traces(frames.Frames):
    def __init__(self, prog, body, hook, pick, limit=100000, max_depth=30, limits=None):
        super().__init__(prog, body, hook, pick, limit, max_depth)

    # -- values --------------------------------------------------------------------------

    def rvalue(self, r, env):
        if r[0] == "use" and r[1][0] in ("c", "m") and not r[1][1][1] and r[1][1][0] not in env:
            # Copies of an unknown number keep their identity.
            l = r[1][1][0]
            if str(self.b.locals[l]) in absint.KNOWN_SIZES:
                env[l] = fresh(l, env)
                return env[l]
        if r[0] == "bin" and r[1] in CMP:
            x, y = self.operand(r[2], env), self.operand(r[3], env)
            if is_num(x) or is_num(y):
                return compare(r[1], x, y, env)
        if r[0] == "agg" and r[1] == "coroutine":
            return ("v", "coroutine " + str(r[2]), tuple(self.operand(o, env) for o in r[3]))
        if r[0] == "cast" and not r[1].startswith("IntToInt"):
            v = self.operand(r[2], env)
            if r[1] == "BoxDerefTransmute" and v is not None and v[:2] == ("v", "uninit"):
                return super().rvalue(r, env)
            return (self.variant(v, r[3]) or v) if r[1] == "Transmute" else v

        return super().rvalue(r, env)

    def follow(self, v, proj, env):
        for n, p in enumerate(proj):
            if v is None:
                return None
            if is_obj(v):
                if p == "*":
                    continue
                if p[0] == "f":
                    if len(p) > 3 and p[3] == "alloc::boxed::Box":
                        continue
                    v = obj("%s.%s" % (v[2], p[2]))
                elif p[0] == "v":
                    v = obj("%s:%s" % (v[2], p[1]))
                else:
                    v = obj(v[2] + "[]")
            elif v[0] == "v" and v[1].startswith("coroutine ") and p == "*":
                continue
            else:
                v = super().follow(v, [p], env)
        return v

    def _put(self, base, proj, val, env):
        if proj and base is not None and is_obj(base):
            return base
        return super()._put(base, proj, val, env)

    def step(self, bb, env, st, sure):
        t = self.b.blocks[bb]["t"]
        if t[0] == "switch" and t[1][0] in ("c", "m") and not t[1][1][1]:
            _, e1 = self.statements(self.b, bb, env, st)
            v = e1.get(t[1][1][0])
            if v is not None and v[0] == "cmp":
                out = []
                for truth in (0, 1):
                    e2 = dict(e1)
                    e2[t[1][1][0]] = ("c", truth)
                    if not assume(v, truth, e2):
                        continue
                    tgt = t[4]
                    for val, tb in t[3]:
                        if int(val) == truth:
                            tgt = tb
                    out.append((tgt, e2, st, False))
                return out
        return super().step(bb, env, st, sure)

    # -- calls ---------------------------------------------------------------------------

    def callee(self, c, args, env):
        if c.is_fn and c.resolved and c.resolved in self.prog.raw:
            return self.prog.body(c.resolved)
        return None

    def call(self, c, args, env, st, sure):
        if c.path == AWAIT:
            v = self.deref(args[0], env) if args else None
            if v is not None and v[0] == "v" and v[1] == "Future!":
                return [(("v", "Ready", (v[2][0],)), env, st, sure)]
            if v is not None and v[0] == "v" and v[1].startswith("coroutine "):
                b = self.prog.body(v[1][len("coroutine "):])
                if b is not None:
                    out = []
                    for x, e, s, su in self.enter(b, [v], env, st, sure):
                        out.append((("v", "Ready", (x,)), e, s, su))
                    return out
            return [(("v", "Ready", (None,)), env, st, sure)]
        if c.name == "next" and len(args) == 1 and args[0] is not None and args[0][0] == "ref":
            v = self.deref(args[0], env)
            if v is not None and v[0] == "v" and v[1] == "Range" and len(v[2]) == 2 and (v[2][0] is None or v[2][0][0] == "c" or is_num(v[2][0])) and not (
                    v[2][0] is not None and v[2][0][0] == "c" and v[2][1] is not None and v[2][1][0] == "c"):
                lo, hi = v[2]
                out = []
                for more in (1, 0):
                    e = dict(env)
                    if lo is not None and is_num(hi):
                        k = compare("Lt", lo, hi, e)
                        if k[0] == "c":
                            if k[1] != more:
                                continue
                        elif not assume(k, more, e):
                            continue
                    if more:
                        self.write([args[0][1], json.loads(args[0][2])], ("v", "Range", (None, hi)), e)
                    out.append((("v", "Some", (lo,)) if more else ("v", "None", ()), e, st, False))
                return out
        return super().call(c, args, env, st, sure)

    def model(self, c, args, env):
        n = c.name
        if n in ("pin", "into_future", "new_unchecked", "must_use") and len(args) == 1:
            return True, args[0]
        d = self.deref(args[0], env) if args else None
        if n in IDENTITY and len(args) == 1 and (is_obj(d) or d is not None and d[0] == "v" and (d[1].startswith("coroutine ") or d[1] == "Future!")):
            return True, d
        if len(args) == 1 and n in ("deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut", "as_str", "as_slice", "as_bytes") and args[0] is not None and args[0][0] == "ref":
            r = args[0]
            while n in ("deref", "deref_mut"):
                # Guards and smart pointers are what they point to.
                v = self.read([r[1], json.loads(r[2])], env)
                if v is None or v[0] != "ref":
                    break
                r = v
            return True, r
        return super().model(c, args, env)

    # -- convergence ---------------------------------------------------------------------

    def prune(self, fb, base, bb, env):
        """Forgets the locals of the current activation that are not used any more."""
        live = liveness(fb)[bb]
        keep, todo = set(), [k for k in env if k < base or k >= base + frames.FRAME or k in live or 50000 <= k < frames.FRAME - 1 or k == base]
        while todo:
            k = todo.pop()
            if k in keep:
                continue
            keep.add(k)
            for r in refs(env.get(k)):
                if r in env and r not in keep:
                    todo.append(r)
        if len(keep) != len(env):
            env = {k: v for k, v in env.items() if k in keep}
        f = env.get(FACTS)
        if f is not None:
            known = set()
            for k, v in env.items():
                if k != FACTS:
                    nums(v, known)
            g = tuple(x for x in f[1] if x[0] in known)
            if g != f[1]:
                env = dict(env)
                env[FACTS] = ("facts", g)
        return env


# -- facts about unknown numbers ----------------------------------------------------------
#
# An unknown number is ("sym", "n", ...); env[FACTS] holds intervals for some of them.

FACTS = -5
INF = 1 << 200
CMP = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}


def is_num(v):
    return v is not None and v[0] == "sym" and v[1] == "n"


def nums(v, out, d=0):
    if v is None or d > 8:
        return
    if is_num(v):
        out.add(v)
    elif v[0] in ("v", "cmp"):
        for x in v[2:] if v[0] == "cmp" else v[2]:
            nums(x, out, d + 1)
    elif v[0] in ("t", "vec"):
        for x in v[1]:
            nums(x, out, d + 1)


def fresh(l, env):
    used = set()
    for v in env.values():
        if v is not None and v[0] == "facts":
            used.update(k for k, _i in v[1])
        else:
            nums(v, used)
    i = 0
    while ("sym", "n", l, i) in used:
        i += 1
    return ("sym", "n", l, i)


def interval(v, env):
    if v is not None and v[0] == "c" and isinstance(v[1], int):
        return (v[1], v[1])
    f = env.get(FACTS)
    if is_num(v) and f is not None:
        for k, i in f[1]:
            if k == v:
                return i
    return (-INF, INF)


def compare(op, x, y, env):
    if x is None or y is None:
        return None
    if x == y:
        return ("c", int(op in ("Eq", "Le", "Ge")))
    (a, b), (c, d) = interval(x, env), interval(y, env)
    yes = {"Lt": b < c, "Le": b <= c, "Gt": a > d, "Ge": a >= d, "Eq": a == b == c == d, "Ne": b < c or a > d}[op]
    no = {"Lt": a >= d, "Le": a > d, "Gt": b <= c, "Ge": b < c, "Eq": b < c or a > d, "Ne": a == b == c == d}[op]
    if yes or no:
        return ("c", int(yes))
    return ("cmp", op, x, y)


def assume(v, truth, env):
    """Records the outcome of a comparison; False when it contradicts what is known."""
    _, op, x, y = v
    if not truth:
        op = CMP[op]
    (a, b), (c, d) = interval(x, env), interval(y, env)
    if op == "Lt":
        b, c = min(b, d - 1), max(c, a + 1)
    elif op == "Le":
        b, c = min(b, d), max(c, a)
    elif op == "Gt":
        a, d = max(a, c + 1), min(d, b - 1)
    elif op == "Ge":
        a, d = max(a, c), min(d, b)
    elif op == "Eq":
        a = c = max(a, c)
        b = d = min(b, d)
    elif op == "Ne":
        if c == d:
            a, b = a + (a == c), b - (b == c)
        if a == b and not (c == d):
            c, d = c + (c == a), d - (d == a)
    if a > b or c > d:
        return False
    f = dict(env[FACTS][1]) if FACTS in env else {}
    for s_, i in ((x, (a, b)), (y, (c, d))):
        if is_num(s_):
            f[s_] = i
    env[FACTS] = ("facts", tuple(sorted(f.items(), key=str)))
    return True


LEAVES = ("c", "s", "sym")
_REFS = {}


def refs(v, d=0):
    """The locals that a value refers to."""
    if v is None or d > 8 or v[0] in LEAVES:
        return ()
    if v[0] in ("ref", "d"):
        return (v[1],)
    items = v[2] if v[0] == "v" else v[1] if v[0] in ("t", "vec") else [x for k, x in v[1]] if v[0] == "map" else ()
    big = len(items) > 8
    if big:
        known = _REFS.get(id(v))
        if known is not None and known[0] is v:
            return known[1]
    out = []
    for x in items:
        if x is not None and x[0] not in LEAVES:
            out.extend(refs(x, d + 1))
    if big:
        if len(_REFS) > 50000:
            _REFS.clear()
        # The value is kept so that nothing else can be known by its address.
        _REFS[id(v)] = (v, tuple(out))
    return out


def uses(x, out):
    """Locals mentioned in operands and places of a raw MIR construct."""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
            out.add(x[0])
            for p in x[1]:
                if isinstance(p, list) and p and p[0] == "i":
                    out.add(p[1])
            return
        for y in x:
            uses(y, out)


def liveness(fb):
    if hasattr(fb, "_live"):
        return fb._live
    use, defs = [], []
    for blk in fb.blocks:
        u, d = set(), set()
        for s in blk["s"]:
            if s[0] == "=":
                o = set()
                uses(s[2], o)
                if s[1][1]:
                    o.add(s[1][0])
                    uses([s[1]], o)
                u |= o - d
                if not s[1][1]:
                    d.add(s[1][0])
            elif s[0] == "dead":
                d.add(s[1])
        t = blk["t"]
        o = set()
        if t[0] == "call":
            c = Call(0, t)
            uses(t[1:3], o)
            for a in c.args:
                uses([a], o)
            uses([c.func], o)
            if c.dest[1]:
                o.add(c.dest[0])
        else:
            uses(t[1:], o)
        u |= o - d
        use.append(u)
        defs.append(d)
    n = len(fb.blocks)
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in reversed(range(n)):
            out = set()
            for j in fb.succ(i):
                out |= live[j]
            new = use[i] | (out - defs[i])
            if new != live[i]:
                live[i] = new
                changed = True
    fb._live = live
    return live


def start(prog, b, names=None):
    """An environment with every parameter an opaque object named after it."""
    env = {}
    params = {}
    for nm in b.names or []:
        # names: [name, local, ...] entries of the debug info
        try:
            params.setdefault(nm[1][0] if isinstance(nm[1], list) else nm[1], nm[0])
        except (TypeError, IndexError):
            pass
    for i in range(1, b.argc + 1):
        env[i] = obj((names or {}).get(i) or params.get(i) or "arg%d" % i)
    return env


def explore(prog, b, hook, pick, st0, limit=100000, env=None):
    """Runs `b`; async functions are awaited.  -> (outcomes [(value, state, env)], dead, overflow, interpreter)"""
    env = dict(env or start(prog, b))
    t = Traces(prog, b, hook, pick, limit)
    outs = []
    for v, e, st in t.go(env, st0):
        v2 = t.deref(v, e)
        if v2 is not None and v2[0] == "v" and v2[1].startswith("coroutine "):
            cb = prog.body(v2[1][len("coroutine "):])
            t2 = Traces(prog, cb, hook, pick, limit)
            base = {k: x for k, x in e.items()}
            # Places of the shell are moved out of the way of the coroutine's own locals.
            shift = -1000000
            def mv(x):
                if x is None:
                    return x
                if x[0] == "ref":
                    return ("ref", x[1] + shift if 0 <= x[1] < frames.FRAME else x[1], x[2])
                if x[0] in ("v",):
                    return ("v", x[1], tuple(mv(y) for y in x[2]))
                if x[0] in ("t", "vec"):
                    return (x[0], tuple(mv(y) for y in x[1]))
                return x
            env2 = {k + shift if 0 <= k < frames.FRAME else k: mv(x) for k, x in base.items()}
            env2[1] = mv(v2)
            for v3, e3, st3 in t2.go(env2, st):
                outs.append((t2.deep(v3, e3), st3, e3))
            t.dead += t2.dead
            t.overflow = t.overflow or t2.overflow
            t.steps += t2.steps
            t.entered |= t2.entered
            if hasattr(t, "panics"):
                t.panics += t2.panics
        else:
            outs.append((t.deep(v, e), st, e))
    return outs, t.dead, t.overflow, t


def relevant(prog, pred, crates=None):
    """Ids of the bodies from which a call that satisfies `pred` can be reached without dynamic dispatch."""
    direct, up = set(), {}
    for b in prog.bodies():
        if crates is not None and b.crate not in crates:
            continue
        for c in b.calls():
            if c.is_fn and pred(c):
                direct.add(b.id)
        for t in prog.callees(b, False):
            up.setdefault(t, set()).add(b.id)
    out, todo = set(direct), list(direct)
    while todo:
        for u in up.get(todo.pop(), ()):
            if u not in out:
                out.add(u)
                todo.append(u)
    return out


def trait_call(c, trait, *names):
    """Whether the call is to a method of the trait (through an object or a known implementation)."""
    p = c.path
    if c.name not in names and names:
        return False
    return p.startswith(trait + "::") or (" as " + trait + ">::") in p or (" as " + trait + "<") in p


def dest_type(ai, c):
    return str(ai.b.locals[c.dest[0]]) if not c.dest[1] else ""


def outcomes(ai, c, st, ok, ok_st=None, err_st=None, err=None):
    """Alternatives for a fallible call: Ok(ok) and Err; wrapped in a future when the call is asynchronous."""
    t = dest_type(ai, c)
    fut = "Future" in t or t.startswith("core::pin::Pin<") or t.startswith("{coroutine") or "coroutine" in t or t.startswith("impl ")
    w = future if fut else (lambda x: x)
    return [(w(("v", "Ok", (ok,))), st if ok_st is None else ok_st), (w(("v", "Err", (err,))), st if err_st is None else err_st)]
