"""C11: files stay within their drives and file operations act on exactly what they name.

The storage layer is interpreted over paths of known shape (separators are concrete, the text between
them arbitrary), over drives that are opaque objects and over all outcomes of their operations; the calls
that reach the drives are compared with what the path means."""

import itertools
import json

import strs
import traces
from strs import lower, seg, show, upper
from traces import is_obj, obj, outcomes, trait_call
from checks import builtins, hostfs
from checks.c06 import V

STORAGE = "endbasic_std::storage::Storage"
DRIVE = "endbasic_std::storage::Drive"
FACTORY = "endbasic_std::storage::DriveFactory"
CRATE = "endbasic_std"
X, Y, A, B, C = (seg(n) for n in ("file", "other", "a", "b", "c"))


# -- what paths mean ------------------------------------------------------------------------


def drive_name(t):
    return upper(t) if t and not any(x in ":\\/." for x in t) else None


def parse(t):
    """(drive or None, leaf or None); None when the path is not valid."""
    parts = t.split(":")
    if len(parts) > 2:
        return None
    drive = None
    if len(parts) == 2:
        drive = drive_name(parts[0])
        if drive is None:
            return None
    p = parts[-1]
    if p in ("", "/"):
        return drive, None
    if p[0] == "/":
        p = p[1:]
    if "/" in p or "\\" in p or p in (".", ".."):
        return None
    return drive, p


def shapes(tier):
    n = 4 if tier == "thorough" else 3
    al = [":", "/", "\\", ".", X]
    out = ["".join(s) for k in range(n + 1) for s in itertools.product(al, repeat=k)]
    for d in (A, C, "MEMORY", "memory"):
        for tail in ("", "/", X, "/" + X, X + "." + Y, ".", "..", "/.", "/..", X + "/" + Y, "/" + X + "/", "../" + X, "/../" + X, "\\" + X, ":" + X, "." + X, "..."):
            out.append(d + ":" + tail)
    return out


# -- storage --------------------------------------------------------------------------------


class World:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.methods = {b.name: b for b in ctx.P.bodies(crates={CRATE}, kinds=("method",)) if b.impl_self == STORAGE and b.impl_trait is None}
        self.pick = lambda c, b: b.crate == CRATE and not b.id.startswith("endbasic_std::console")

    def hook(self, c, args, st, ai, env):
        a = [ai.deep(x, env) for x in args]
        if trait_call(c, DRIVE) and a and is_obj(a[0]):
            who = a[0][2]
            rest = tuple(x[1] if x is not None and x[0] == "s" else x for x in a[1:])
            st2 = st + ((c.name, who) + rest,)
            self.ctx.count("drive_calls")
            if c.name == "system_path":
                return [(obj("result of %s" % who), st2)]
            ok = {"put": ("t", ()), "delete": ("t", ()), "update_acls": ("t", ())}.get(c.name, obj("%s of %s in %s" % (c.name, show(rest[0]) if rest else "", who)))
            return outcomes(ai, c, st2, ok, err=obj("error of drive"))
        if trait_call(c, FACTORY, "create") and a and is_obj(a[0]):
            return [(V("Ok", obj("drive at " + show(a[1][1]) if a[1] is not None and a[1][0] == "s" else "drive")), st + (("create", a[0][2], a[1][1] if a[1] is not None and a[1][0] == "s" else a[1]),)),
                    (V("Err", obj("error of factory")), st + (("create", a[0][2], a[1][1] if a[1] is not None and a[1][0] == "s" else a[1]),))]
        t = traces.dest_type(ai, c)
        if c.name in ("default", "new") and any(t == i["self"] for i in self.P.by_trait[DRIVE]):
            return [(obj("drive MEMORY"), st)]
        if c.name in ("default", "new") and any(t == i["self"] for i in self.P.by_trait[FACTORY]):
            return [(obj("factory memory"), st)]
        return None

    def run(self, name, me, args):
        """[(result, events, storage afterwards)]"""
        b = self.methods[name]
        env = {90000: me, 1: ("ref", 90000, "[]")}
        for i, x in enumerate(args):
            env[2 + i] = x
        outs, dead, overflow, t = strs.run(self.P, b, self.hook, self.pick, (), env, 20000)
        self.ctx.count("abstract_states", t.steps)
        self.ctx.count("operations")
        if overflow or (dead and any(x[2] for x in dead)):
            return None
        res = []
        for v, st, e in outs:
            fin = e.get(90000, e.get(90000 - 1000000))
            res.append((v, st, t.deep(fin, e)))
        return res

    def default(self):
        for b in self.P.bodies(crates={CRATE}, kinds=("method",)):
            if b.impl_self == STORAGE and b.impl_trait == "core::default::Default":
                outs, dead, overflow, t = strs.run(self.P, b, self.hook, self.pick, (), {}, 20000)
                if len(outs) == 1 and not overflow:
                    return t.deep(outs[0][0], outs[0][2])
        return None


def storage(ctx):
    w = World(ctx)
    loc = next((b.loc() for n, b in sorted(w.methods.items()) if n == "get"), None)
    need = {"mount", "unmount", "cd", "cwd", "get", "put", "delete", "copy", "enumerate", "get_acls", "update_acls", "system_path", "make_canonical",
            "make_canonical_with_extension", "register_scheme", "mounted"}
    if not ctx.anchor((need <= set(w.methods)) or None, "the operations of the storage layer"):
        return

    def bad(key, text, where=None):
        ctx.violation("storage:" + key, text, where or (w.methods[key.split(":")[0]].loc() if key.split(":")[0] in w.methods else loc))
    me = w.default()
    if not ctx.anchor(me is not None or None, "the initial storage"):
        return
    r = w.run("register_scheme", me, [("s", "scheme"), obj("factory of scheme")])
    if not r or len(r) != 1:
        bad("register_scheme", "registering a drive type has unknown effects")
        return
    me = r[0][2]
    # Three drives: MEMORY (current), A and B.
    dr = {"MEMORY": "drive MEMORY"}
    worlds = [("MEMORY", me, dict(dr))]
    for n, target in ((A, Y), (B, X)):
        r = w.run("mount", me, [("s", n), ("s", "scheme://" + target)])
        good = [x for x in r or [] if x[0] is not None and x[0][1] == "Ok"]
        if len(good) != 1:
            bad("mount", "mounting a drive has unknown effects")
            return
        me = good[0][2]
        dr[upper(n)] = "drive at " + show(target)
    worlds.append(("MEMORY", me, dr))
    r = w.run("cd", me, [("s", A + ":")])
    good = [x for x in r or [] if x[0] is not None and x[0][1] == "Ok"]
    if len(good) != 1:
        bad("cd", "changing the current drive has unknown effects")
        return
    worlds.append((upper(A), good[0][2], dr))

    paths = shapes(ctx.tier)
    CONTENT, ADD, REM = obj("content"), obj("add"), obj("remove")
    file_ops = [("get", [], ()), ("delete", [], ()), ("put", [CONTENT], (CONTENT,)), ("get_acls", [], ()), ("update_acls", [ADD, REM], (ADD, REM))]

    def failed(v):
        return v is not None and v[0] == "v" and v[1] == "Err"

    def judge(op, what, state, rs, target, extra, dr):
        """A single drive operation on `target` = (drive, leaf) or None."""
        if rs is None:
            bad(op + ":engine", "`%s` of `%s` is too complex to analyse" % (op, what))
            return
        seen = set()
        for v, ev, fin in rs:
            if fin != state:
                bad(op, "`%s` of `%s` changes the set of drives or the current one" % (op, what))
            if target is None:
                if ev:
                    bad(op, "`%s` of the invalid path `%s` reaches the drive `%s` as `%s`" % (op, what, ev[0][1], show(ev[0][2]) if len(ev[0]) > 2 else ""))
                if not failed(v):
                    bad(op, "`%s` of the invalid path `%s` does not fail" % (op, what))
                continue
            exp = (op, dr[target[0]]) + ((target[1],) if target[1] is not None else ()) + extra
            if ev != (exp,):
                bad(op, "`%s` of `%s` does not act on exactly `%s` of drive %s" % (op, what, show(target[1]) if target[1] else "the root", show(target[0])))
                continue
            seen.add("Err" if failed(v) else "Ok")
            if not failed(v) and op in ("get", "get_acls", "enumerate") and not (v is not None and v[0] == "v" and is_obj(v[2][0]) and v[2][0][2].startswith(op + " of")):
                bad(op, "`%s` of `%s` returns something else than what the drive gave" % (op, what))
        if target is not None and seen and seen != {"Ok", "Err"}:
            bad(op, "`%s` of `%s` does not report the outcome of the drive" % (op, what))

    for current, state, dr in worlds:
        for p in paths:
            m = parse(p)
            tgt = None
            if m is not None:
                d = m[0] or current
                tgt = (d, m[1]) if d in dr else None
            full = show(p)
            for op, args, extra in file_ops:
                t = tgt if tgt and tgt[1] is not None else None
                judge(op, full, state, w.run(op, state, [("s", p)] + args), t, extra, dr)
            t = tgt if tgt and tgt[1] is None else None
            judge("enumerate", full, state, w.run("enumerate", state, [("s", p)]), t, (), dr)
            # Locations in the host's file system.
            for v, ev, fin in w.run("system_path", state, [("s", p)]) or [(None, (), None)]:
                if tgt is None:
                    if ev or not failed(v):
                        bad("system_path", "`%s` is translated to a system path" % full)
                elif ev != (("system_path", dr[tgt[0]], tgt[1] or ""),) or failed(v):
                    bad("system_path", "`%s` is translated to the system path of something else" % full)
            # Changing the current drive.
            rs = w.run("cd", state, [("s", p)])
            ok = tgt is not None and tgt[1] is None
            for v, ev, fin in rs or [(None, ("?",), None)]:
                if ev:
                    bad("cd", "CD to `%s` touches a drive" % full)
                elif failed(v) == ok:
                    bad("cd", "CD to `%s` %s" % (full, "fails" if ok else "is accepted"))
                elif not ok and fin != state:
                    bad("cd", "CD to `%s` fails but changes the storage" % full)
                elif ok:
                    c = w.run("cwd", fin, [])
                    if c is None or len(c) != 1 or c[0][0] != ("s", tgt[0] + ":/"):
                        bad("cd", "CD to `%s` does not make that drive the current one" % full)
                    elif m[0] in (None, current) and fin != state:
                        bad("cd", "CD to the current drive changes the storage")
            # Canonical names.
            for op in ("make_canonical", "make_canonical_with_extension"):
                rs = w.run(op, state, [("s", p)] + ([("s", "bas")] if op.endswith("extension") else []))
                ext = op.endswith("extension")
                for v, ev, fin in rs or [(None, ("?",), None)]:
                    if ev or fin != state:
                        bad(op, "computing the full name of `%s` has side effects" % full)
                        continue
                    if failed(v):
                        if m is not None and not (ext and m[1] is None):
                            bad(op, "the valid path `%s` has no full name" % full)
                        continue
                    t = v[2][0][1] if v is not None and v[0] == "v" and v[2] and v[2][0] is not None and v[2][0][0] == "s" else None
                    q = parse(t) if t is not None else None
                    if m is None or (ext and m[1] is None):
                        bad(op, "the invalid path `%s` gets the full name `%s`" % (full, show(t)))
                        continue
                    leafs = [m[1]]
                    if ext and m[1] is not None and "." not in m[1]:
                        leafs = [m[1] + ".bas", m[1] + ".BAS"]
                    if q is None or q[0] != (m[0] or current) or q[1] not in leafs:
                        bad(op, "the full name of `%s` is `%s`, which is a different file" % (full, show(t)))

    # Copies.
    some = ["", "/", X, "/" + X, X + "." + Y, "..", "/..", X + "/" + Y, "\\" + X]
    pairs = [(d + s) for d in ("", A + ":", B + ":", C + ":", "MEMORY:") for s in some] + [A + ":" + B + ":" + X]
    for current, state, dr in worlds[1:]:
        for s, d in itertools.product(pairs, pairs):
            ms, md = parse(s), parse(d)
            what = "COPY `%s` to `%s`" % (show(s), show(d))
            rs = w.run("copy", state, [("s", s), ("s", d)])
            if rs is None:
                bad("copy:engine", "%s is too complex to analyse" % what)
                continue
            src = (ms[0] or current, ms[1]) if ms is not None and ms[1] is not None and (ms[0] or current) in dr else None
            dst = (md[0] or current, md[1] or (ms[1] if ms else None)) if md is not None and (md[0] or current) in dr else None
            done = False
            for v, ev, fin in rs:
                puts = [e for e in ev if e[0] not in ("get",)]
                gets = [e for e in ev if e[0] == "get"]
                if fin != state:
                    bad("copy", "%s changes the set of drives" % what)
                if src is None or dst is None:
                    if puts or not failed(v) or any(src is None or e != ("get", dr[src[0]], src[1]) for e in gets):
                        bad("copy", "%s, which is invalid, %s" % (what, "writes a file" if puts else "does not fail or reads another file"))
                    continue
                if any(e != ("get", dr[src[0]], src[1]) for e in gets) or len(gets) != 1:
                    bad("copy", "%s does not read exactly the source" % what)
                    continue
                if puts:
                    done = True
                    if puts != [("put", dr[dst[0]], dst[1], obj("get of %s in %s" % (show(src[1]), dr[src[0]])))]:
                        bad("copy", "%s does not write exactly the contents of the source to the destination" % what)
                    if ev.index(gets[0]) > ev.index(puts[0]):
                        bad("copy", "%s writes before it has read" % what)
                elif not failed(v):
                    bad("copy", "%s succeeds without writing" % what)
            if src is not None and dst is not None:
                if not done:
                    bad("copy", "%s never writes" % what)
                elif {failed(v) for v, ev, _f in rs if any(e[0] == "put" for e in ev)} != {True, False}:
                    bad("copy", "%s does not report whether the file was written" % what)

    # Mounting and unmounting.
    names = ["", A, B, C, lower("MEMORY"), "MEMORY", A + ":", C + ".", "/" + C, C + "\\"]
    uris = ["scheme://" + X, "SCHEME://" + X, "scheme://", "memory://", Y + "://" + X, "://" + X, "scheme:" + X, "scheme:/" + X, X, "", "scheme://" + X + "://" + Y]
    for current, state, dr in worlds:
        for n in names:
            key = drive_name(n)
            for u in uris:
                what = "MOUNT `%s` AS `%s`" % (show(u), show(n))
                sch, sep, rest = u.partition("://")
                fac = {"scheme": "factory of scheme", "memory": "factory memory"}.get(lower(sch)) if sep and sch else None
                ok = fac is not None and key is not None and key not in dr
                any_ok = False
                for v, ev, fin in w.run("mount", state, [("s", n), ("s", u)]) or [(None, ("?",), None)]:
                    if any(e[0] != "create" or e[1] != fac or e[2] != rest for e in ev) or len(ev) > 1:
                        bad("mount", "%s creates the wrong drive or touches an existing one" % what)
                    elif failed(v):
                        if fin != state:
                            bad("mount", "%s fails but changes the set of drives" % what)
                    elif not ok:
                        bad("mount", "%s is accepted" % what)
                    else:
                        any_ok = True
                        after = dict(dr)
                        after[key] = "drive at " + show(rest)
                        reach(w, bad, what, current, fin, after, key, u)
                if ok and not any_ok:
                    bad("mount", "%s is rejected" % what)
            what = "UNMOUNT `%s`" % show(n)
            ok = key in dr and key != current
            for v, ev, fin in w.run("unmount", state, [("s", n)]) or [(None, ("?",), None)]:
                if ev:
                    bad("unmount", "%s touches a drive" % what)
                elif failed(v) == ok:
                    bad("unmount", "%s %s" % (what, "fails" if ok else "is accepted"))
                elif failed(v) and fin != state:
                    bad("unmount", "%s fails but changes the set of drives" % what)
                elif ok:
                    after = {k: x for k, x in dr.items() if k != key}
                    reach(w, bad, what, current, fin, after, None)


def reach(w, bad, what, current, state, dr, key, uri=None):
    """After an operation exactly the drives in `dr` exist and `current` is the current one."""
    for n in sorted(set(dr) | {"MEMORY", upper(A), upper(B), upper(C)}):
        rs = w.run("get", state, [("s", n + ":" + X)])
        evs = {ev for _v, ev, _f in rs or []}
        if evs != ({(("get", dr[n], X),)} if n in dr else {()}):
            bad("mount" if what.startswith("MOUNT") else "unmount", "after %s, drive %s %s" % (what, show(n), "is not the one it was" if n in dr else "still exists"))
    m = w.run("mounted", state, [])
    got = dict((k[1], v[1]) for k, v in m[0][0][1] if k and v) if m and len(m) == 1 and m[0][0] is not None and m[0][0][0] == "map" else None
    want = {n: uri if n == key else {"MEMORY": "memory://", upper(A): "scheme://" + Y, upper(B): "scheme://" + X}[n] for n in dr}
    if got != want:
        bad("mounted", "after %s, the list of drives and targets is wrong" % what)
    c = w.run("cwd", state, [])
    if c is None or len(c) != 1 or c[0][0] != ("s", current + ":/"):
        bad("mount" if what.startswith("MOUNT") else "unmount", "%s changes the current drive" % what)


# -- commands -------------------------------------------------------------------------------

D1, D2, U1, U2 = (seg(n) for n in ("entry1", "entry2", "target1", "target2"))
# What each command does with its arguments: (operation, the positions of its arguments).
COMMANDS = [
    ("CD", 1, ("cd", 0)), ("COPY", 2, ("copy", 0, 1)), ("KILL", 1, ("delete", 0)), ("MOUNT", 2, ("mount", 1, 0)), ("UNMOUNT", 1, ("unmount", 0)),
    ("DIR", 0, ("enumerate", "")), ("DIR", 1, ("enumerate", 0)), ("MOUNT", 0, ("mounted",)), ("PWD", 0, ("cwd",)),
]
MUTATE = {"cd", "copy", "delete", "mount", "unmount", "put", "update_acls", "register_scheme"}


def commands(ctx):
    P = ctx.P
    bs = builtins.builtins(P)

    def hook(c, args, st, ai, env):
        a = [ai.deep(x, env) for x in args]
        if c.path.startswith(STORAGE + "::"):
            rest = tuple(x[1] if x is not None and x[0] == "s" else x for x in a[1:])
            st2 = st + ((c.name,) + rest,)
            ctx.count("storage_calls")
            if c.name == "mounted":
                return [(("map", ((("s", D1), ("s", U1)), (("s", D2), ("s", U2)))), st2)]
            if c.name == "cwd":
                return [(("s", seg("cwd")), st2)]
            t = traces.dest_type(ai, c)
            if c.name == "system_path":
                return [(V("Ok", V("None")), st2), (V("Ok", V("Some", obj("system path"))), st2)]
            ok = obj("files") if c.name == "enumerate" else obj("canonical path") if c.name.startswith("make_canonical") else ("t", ())
            return outcomes(ai, c, st2 + (("ok", c.name),), ok, err_st=st2 + (("failed", c.name),), err=obj("error"))
        if c.name == "dirents":
            return [(("map", ((("s", D1), obj("metadata1")), (("s", D2), obj("metadata2")))), st)]
        if c.name == "print" and c.path.startswith("endbasic_std::console") and len(a) >= 2:
            return outcomes(ai, c, st + (("print", a[1][1] if a[1] is not None and a[1][0] == "s" else "?"),), ("t", ()), err_st=st + (("failed", "print"),))
        return None
    pick = lambda c, b: b.crate == CRATE and not b.id.startswith("endbasic_std::console") and not b.id.startswith("endbasic_std::storage::Storage")
    for name, k, op in COMMANDS:
        if not ctx.anchor(name in bs or None, "the command " + name):
            continue
        ty, b = bs[name]
        what = "%s with %d arguments" % (name, k)
        loc = ctx.P.logic_body(b.id).loc()

        def bad(rule, text):
            ctx.violation("%s%d:%s" % (name, k, rule), "%s %s" % (what, text), loc)
        args = [seg("%s argument %d" % (name, i + 1)) for i in range(k)]
        outs, dead, overflow, t = builtins.run(P, b, [("string", ("s", x)) for x in args], hook, pick)
        ctx.count("commands")
        ctx.count("abstract_states", t.steps)
        if overflow:
            bad("engine", "is too complex to analyse")
            continue
        exp = (op[0],) + tuple(args[x] if isinstance(x, int) else x for x in op[1:])
        ok = 0
        for v, ev, _e in outs:
            done = [e for e in ev if e[0] in MUTATE or e[0] == op[0]]
            if any(e[0] in MUTATE and e != exp for e in ev):
                bad("other", "does something else than `%s` to the storage" % op[0])
            if any(e != exp for e in done) or len([e for e in done if e[0] in MUTATE]) > 1:
                bad("arguments", "does not apply `%s` to exactly the named files or drives" % op[0])
            failed = any(e[0] == "failed" for e in ev)
            good = v is not None and v[0] == "v" and v[1] == "Ok"
            if good and failed:
                bad("dropped", "succeeds although an operation failed")
            if good and not done:
                bad("nothing", "succeeds without doing anything")
            if not good and not failed and op[0] in MUTATE:
                bad("spurious", "fails although everything succeeded")
            ok += good
            if good and name in ("DIR", "MOUNT", "PWD") and op[0] in ("enumerate", "mounted", "cwd"):
                lines = [e[1] for e in ev if e[0] == "print"]
                for x in {"enumerate": (D1, D2), "mounted": (D1, D2, U1, U2), "cwd": (seg("cwd"),)}[op[0]]:
                    if sum(x in ln for ln in lines) != 1:
                        bad("listing", "does not show every entry exactly once")
                if op[0] == "mounted" and not all(any(d in ln and u in ln for ln in lines) for d, u in ((D1, U1), (D2, U2))):
                    bad("listing", "does not show each drive with its target")
        if not ok:
            bad("never", "never succeeds")


# -- drives ---------------------------------------------------------------------------------


def drives(ctx):
    P = ctx.P
    impls = {}
    for i in P.by_trait[DRIVE]:
        impls[i["self"]] = {n: P.body(p) for n, p in i["methods"] if p in P.raw}
    disk, memory = [], []
    for ty, ms in sorted(impls.items()):
        calls = [c for n, b in ms.items() for c in P.logic_body(b.id).calls()]
        if any(c.path.startswith("std::fs::") for c in calls):
            disk.append(ty)
        elif ty.startswith("endbasic_std::storage"):
            memory.append(ty)
        if ty.startswith("endbasic_repl"):
            for n in ("put", "delete", "update_acls"):
                b = ms.get(n) or P.body(DRIVE + "::" + n)
                if b is not None:
                    read_only(ctx, ty, n, b)
    if ctx.anchor(disk or None, "the drive backed by a directory"):
        for ty in disk:
            directory(ctx, ty, impls[ty])
    if ctx.anchor(memory or None, "the drive kept in memory"):
        for ty in memory:
            in_memory(ctx, ty, impls[ty])
    b = P.body(DRIVE + "::update_acls")
    if b is not None:
        read_only(ctx, "Drive", "update_acls", b)


def read_only(ctx, ty, n, b):
    outs, dead, overflow, t = strs.run(ctx.P, b, lambda *a: None, lambda c, b: False, (), {1: obj("self"), 2: ("s", X), 3: obj("content"), 4: obj("more")}, 5000)
    ctx.count("drive_operations")
    if not outs or any(v is None or v[0] != "v" or v[1] != "Err" for v, _s, _e in outs):
        ctx.violation("readonly:%s:%s" % (ty.split("::")[-1], n), "`%s` of the read-only `%s` does not fail" % (n, ty.split("::")[-1]), ctx.P.logic_body(b.id).loc())


def directory(ctx, ty, ms):
    P, short = ctx.P, ty.split("::")[-1]
    pick = lambda c, b: b.crate == CRATE and b.impl_self in (ty, None) and b.kind in ("fn", "method")
    target = None
    for n, args in (("system_path", []), ("get", []), ("put", [obj("content")]), ("delete", []), ("enumerate", None)):
        if not ctx.anchor(n in ms or None, "%s of the drive backed by a directory" % n):
            continue
        b = ms[n]
        loc = P.logic_body(b.id).loc()

        def bad(rule, text):
            ctx.violation("disk:%s:%s" % (n, rule), "`%s` of `%s` %s" % (n, short, text), loc)
        env = {1: obj("self")}
        if args is not None:
            env[2] = ("s", X)
            for i, x in enumerate(args):
                env[3 + i] = x
        outs, dead, overflow, t = strs.run(P, b, hostfs.hook, pick, (), env, 20000)
        ctx.count("drive_operations")
        ctx.count("abstract_states", t.steps)
        if overflow or not outs:
            bad("engine", "is too complex to analyse")
            continue
        if n == "system_path":
            vs = {v for v, _s, _e in outs}
            v = vs.pop() if len(vs) == 1 else None
            if v is None or v[0] != "v" or v[1] != "Some" or v[2][0] is None or v[2][0][0] != "v" or v[2][0][1] != "Join" or not is_obj(v[2][0][2][0]) or not v[2][0][2][0][2].startswith("self.") or v[2][0][2][1] != ("s", X):
                bad("path", "is not the file of that name in the directory")
                return
            target = v[2][0]
            continue
        ok = 0
        for v, ev, _e in outs:
            failed = ("failed",) in ev
            good = v is not None and v[0] == "v" and v[1] == "Ok"
            touched = [e for e in ev if e != ("failed",)]
            ok += good
            if n == "enumerate":
                if touched:
                    bad("effects", "changes or reads files")
                continue
            if good and failed:
                bad("dropped", "succeeds although an operation on the file failed")
            if not good and not failed:
                bad("spurious", "fails although every operation on the file succeeded")
            for e in touched:
                path = e[2] if e[0] == "file" else e[1]
                if e[0] in ("fs", "file") or path != target:
                    bad("effects", "touches something else than the file of that name")
            kinds = [e[0] for e in touched]
            opens = [e for e in touched if e[0] == "open"]
            writes = [e for e in touched if e[0] in ("write", "partial write")]
            if n in ("get", "delete") and (writes or any(set(e[2].split(",")) != {"read"} for e in opens)):
                bad("effects", "opens the file for writing")
            if n != "delete" and "remove" in kinds:
                bad("effects", "deletes the file")
            if n == "get" and good and (v[2][0] != hostfs.contents(target)):
                bad("contents", "does not return the whole contents of the file")
            if n == "delete" and good and kinds != ["remove"]:
                bad("effects", "does not delete exactly the file")
            if n == "put" and good:
                if len(opens) != 1 or not {"create", "truncate", "write"} <= set(opens[0][2].split(",")) or set(opens[0][2].split(",")) & {"append", "create_new"}:
                    bad("replace", "does not replace the contents of a new or existing file")
                if [e[0] for e in writes] != ["write"] or writes[0][2] != obj("content"):
                    bad("contents", "does not write the whole contents once")
                elif "sync" not in kinds[kinds.index("write"):]:
                    bad("sync", "reports success before the contents are on the disk")
                elif "buffered" in kinds and "flush" not in kinds[kinds.index("write"):]:
                    bad("sync", "reports success before the contents are written out")
        if not ok:
            bad("never", "never succeeds")


def in_memory(ctx, ty, ms):
    """Histories of operations compared with a reference."""
    P, short = ctx.P, ty.split("::")[-1]
    R1, R2 = seg("reader1"), seg("reader2")
    pick = lambda c, b: b.crate == CRATE and not b.id.startswith("endbasic_std::console")
    loc = P.logic_body(ms["put"].id).loc()

    def hook(c, args, st, ai, env):
        a = [ai.deep(x, env) for x in args]
        if c.name == "readers" and a and is_obj(a[0]):
            return [(("vec", tuple(("s", r) for r in {"add": [R1], "remove": [R2], "none": [], "both": [R1, R2]}[a[0][2]])), st)]
        if c.name == "clone_into" and len(args) == 2 and args[1] is not None and args[1][0] == "ref":
            e = dict(env)
            ai.write([args[1][1], json.loads(args[1][2])], a[0], e)
            return [(("t", ()), st, e)]
        if c.name in ("to_owned", "to_vec", "clone", "into") and len(a) == 1 and is_obj(a[0]):
            return [(a[0], st)]
        if c.name == "with_readers":
            return [(("v", "Acls", (a[1],)), st)]
        if c.name in ("sort", "sort_unstable") and a and a[0] is not None and a[0][0] == "vec":
            return [(("t", ()), st)]
        return None

    def bad(rule, text):
        ctx.violation("memory:" + rule, "`%s` %s" % (short, text), loc)
    init = None
    for b in P.bodies(crates={CRATE}, kinds=("method",)):
        if b.impl_self == ty and b.impl_trait == "core::default::Default":
            outs, _d, _o, t = strs.run(P, b, hook, pick, (), {}, 5000)
            init = t.deep(outs[0][0], outs[0][2]) if len(outs) == 1 else None
    if not ctx.anchor(init is not None or None, "the initial contents of the drive kept in memory"):
        return

    def call(me, n, args):
        env = {90000: me, 1: ("ref", 90000, "[]")}
        for i, x in enumerate(args):
            env[2 + i] = x
        outs, dead, overflow, t = strs.run(P, ms[n], hook, pick, (), env, 10000)
        ctx.count("drive_operations")
        ctx.count("abstract_states", t.steps)
        if overflow or len(outs) != 1:
            return None
        v, _st, e = outs[0]
        return v, t.deep(e.get(90000, e.get(90000 - 1000000)), e)
    ops = [("put", X, 1), ("put", X, 2), ("put", Y, 3), ("delete", X), ("acl", X, "add"), ("acl", X, "remove"), ("acl", X, "swap")]
    depth = 4 if ctx.tier == "thorough" else 3
    states = [(init, (), ())]
    for _ in range(depth):
        nxt = []
        for me, ref, hist in states:
            for op in ops:
                model = dict(ref)
                old = model.get(op[1])
                if op[0] == "put":
                    r = call(me, "put", [("s", op[1]), obj("content %d" % op[2])])
                    model[op[1]] = ("content %d" % op[2], old[1] if old else ())
                    good = True
                elif op[0] == "delete":
                    r = call(me, "delete", [("s", op[1])])
                    good = old is not None
                    model.pop(op[1], None)
                else:
                    add, rem = {"add": ("both", "none"), "remove": ("none", "remove"), "swap": ("add", "remove")}[op[2]]
                    r = call(me, "update_acls", [("s", op[1]), obj(add), obj(rem)])
                    good = old is not None
                    if old:
                        cur = set(old[1])
                        cur -= {R2} if rem == "remove" else set()
                        cur |= {"both": {R1, R2}, "add": {R1}, "none": set()}[add]
                        model[op[1]] = (old[0], tuple(sorted(cur)))
                h = hist + (op[0],)
                if r is None:
                    bad("engine", "is too complex to analyse")
                    return
                if (r[0] is None or r[0][0] != "v" or (r[0][1] == "Ok") != good):
                    bad(op[0] + ":outcome", "%s `%s` of %s after %s" % ("rejects" if good else "accepts", op[0], "an existing file" if old else "a missing file", " ".join(hist) or "nothing"))
                    return
                if not good and r[1] != me:
                    bad(op[0] + ":failed", "changes although `%s` fails" % op[0])
                # What is there now.
                for name in (X, Y):
                    g = call(r[1], "get", [("s", name)])
                    exp = model.get(name)
                    if g is None or g[0] is None or g[0][0] != "v" or (g[0][1] == "Ok") != (exp is not None) or exp is not None and not is_obj(g[0][2][0], exp[0]):
                        bad("get", "does not give back what was stored after %s" % " ".join(h))
                        return
                    if g[1] != r[1]:
                        bad("get:effects", "changes when a file is read")
                    q = call(r[1], "get_acls", [("s", name)])
                    rs = None
                    if q is not None and q[0] is not None and q[0][0] == "v":
                        if q[0][1] != "Ok":
                            rs = "missing"
                        elif q[0][2][0] is not None and q[0][2][0][0] == "v" and q[0][2][0][1] == "Acls" and q[0][2][0][2][0] is not None and q[0][2][0][2][0][0] == "vec" and all(x is not None and x[0] == "s" for x in q[0][2][0][2][0][1]):
                            rs = tuple(sorted(x[1] for x in q[0][2][0][2][0][1]))
                    if rs != (exp[1] if exp else "missing"):
                        bad("acls", "does not keep the readers of a file after %s" % " ".join(h))
                        return
                nxt.append((r[1], tuple(sorted(model.items())), h))
        uniq = {}
        for x in nxt:
            uniq.setdefault((x[0], x[1]), x)
        states = list(uniq.values())
    ctx.count("histories", len(states))


def run(ctx):
    ctx.rule("for every shape of path, every operation of the storage layer either fails without touching any drive or acts on exactly the drive and the name that the path means")
    storage(ctx)
    ctx.rule("each command applies its operation to exactly its arguments, reports every failure and shows every entry once")
    commands(ctx)
    ctx.rule("drives replace, return and delete exactly the named file and report success only when every step succeeded; read-only drives reject changes")
    drives(ctx)
    ctx.floor("operations", 5000)
    ctx.floor("commands", 9)
    ctx.floor("drive_operations", 100)
    ctx.floor("drive_calls", 500)
