"""C10: the program being edited is never lost without asking.

Every command, the interactive loop and the editor are interpreted over opaque programs, storages and
consoles; each path of effects must ask before it discards unsaved changes, store a program before it
counts as saved, and mark the program as modified whenever its text changes."""

import traces
from traces import future, is_obj, obj, outcomes, trait_call
from checks.c06 import V

PROGRAM = "endbasic_std::program::Program"
CALLABLE = "endbasic_core::callable::Callable"
CRATES = {"endbasic_std", "endbasic_repl", "endbasic_client", "endbasic", "endbasic_core"}
YES, NO = ("c", 1), ("c", 0)


def is_event(c):
    n = c.name
    if trait_call(c, PROGRAM):
        return True
    if n == "read_line" and c.path.startswith("endbasic_std::console"):
        return True
    if c.path.startswith("endbasic_std::storage::Storage::") and n in ("get", "put", "delete"):
        return True
    return False


def put(st, **k):
    d = dict(st)
    d.update(k)
    return tuple(sorted(d.items(), key=lambda x: x[0]))


class Events:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.key = None
        self.what = None
        self.loc = None

    def bad(self, rule, text):
        self.ctx.violation("%s:%s" % (self.key, rule), "%s %s" % (self.what, text), self.loc)

    def hook(self, c, args, st, ai, env):
        n = c.name
        a = [ai.deref(x, env) for x in args]
        d = dict(st)
        if trait_call(c, PROGRAM):
            if n == "is_dirty":
                return [(NO, put(st, clean=True)), (YES, put(st, clean=False))]
            if n == "name":
                return [(V("Some", obj("name")), st), (V("None"), st)]
            if n == "text":
                return [(obj("text"), st)]
            if n == "load":
                if not (d.get("clean") or d.get("answer")):
                    self.bad("discard", "replaces the program without knowing that it has no unsaved changes or asking")
                nm = a[1]
                nm = ai.deep(nm[2][0], env) if nm is not None and nm[0] == "v" and nm[1] == "Some" else nm
                tx = ai.deep(a[2], env)
                if nm is None or nm[0] != "v" or nm[1] != "None":
                    if not is_obj(nm) or not is_obj(tx) or tx[2] != "content of %s" % nm[2]:
                        self.bad("content", "loads something else than the contents of the file that it names")
                elif not (tx is not None and tx[0] == "s" and tx[1] == ""):
                    self.bad("content", "creates a program that is not empty")
                if d.get("loaded"):
                    self.bad("twice", "replaces the program twice")
                return [(("t", ()), put(st, loaded=True))]
            if n == "set_name":
                nm = ai.deep(a[1], env)
                if d.get("stored") is None or not is_obj(nm) or d["stored"] != nm[2]:
                    self.bad("saved", "marks the program as saved under a name without having stored it there")
                return [(("t", ()), put(st, named=True))]
            if n == "edit":
                return outcomes(ai, c, st, ("t", ()))
            return None
        if n == "read_line" and c.path.startswith("endbasic_std::console"):
            st = put(st, answer=None, asked=True)
            if d.get("over") and (d.get("clean") or d.get("answer")):
                self.bad("stay", "keeps going although the user agreed to leave")
            # The first line read after the program ended is the question, the next one a new command.
            over = bool(d.get("over")) and not d.get("confirming")
            return outcomes(ai, c, put(st, over=over, confirming=over), obj("answer"))
        t = traces.dest_type(ai, c)
        if a and is_obj(a[0], "answer") and ("<bool" in t or t == "bool"):
            if t == "bool":
                return [(YES, put(st, answer=True)), (NO, put(st, answer=False))]
            good = "Some" if "Option<" in t else "Ok"
            return [(V(good, YES), put(st, answer=True)), (V(good, NO), put(st, answer=False)), (V("None") if good == "Some" else V("Err", None), put(st, answer=False))]
        if c.path.startswith("endbasic_std::storage::Storage::"):
            if n == "get":
                nm = ai.deep(a[1], env)
                return outcomes(ai, c, st, obj("content of %s" % (nm[2] if is_obj(nm) else "?")))
            if n == "put":
                nm, tx = ai.deep(a[1], env), ai.deep(a[2], env)
                ok = is_obj(nm) and is_obj(tx, "text")
                return outcomes(ai, c, st, ("t", ()), ok_st=put(st, stored=nm[2] if ok else None))
            if n.startswith("make_canonical"):
                return outcomes(ai, c, st, obj("canonical"))
            return None
        if n in ("from_utf8", "from_utf8_lossy", "from_utf8_unchecked") and a and is_obj(a[0]):
            if n == "from_utf8":
                return [(V("Ok", a[0]), st), (V("Err", None), st)]
            return [(obj("unchecked " + a[0][2]), st)]
        if n == "push" and len(a) == 2 and a[1] is not None and a[1][0] == "v" and "MachineAction" in str(ai.b.locals[c.args[1][1][0]] if c.args[1][0] in ("c", "m") else ""):
            return [(("t", ()), put(st, actions=d.get("actions", ()) + (a[1][1],)))]
        if n == "exec" and c.path.endswith("Machine::exec"):
            st = put(st, clean=None, answer=None, confirming=False)
            return [(future(V("Ok", V("None"))), put(st, over=False)), (future(V("Ok", V("Some", obj("code")))), put(st, over=True)), (future(V("Err", None)), put(st, over=False))]
        return None


def commands(ctx):
    P = ctx.P
    ev = Events(ctx)
    rel = traces.relevant(P, is_event, CRATES)
    pick = lambda c, b: b.crate in CRATES and b.crate != "endbasic_core" and b.id in rel
    seen = {"load": [], "save": []}
    for b in sorted(P.bodies(crates=CRATES, kinds=("method",)), key=lambda b: b.id):
        if b.impl_trait != CALLABLE or b.name not in ("exec", "async_exec") or b.id not in rel and not any(k in rel for k in P.callees(b, False)):
            continue
        ev.key = b.impl_self.split("::")[-1] if b.impl_self else b.id
        ev.what = "`%s`" % ev.key
        ev.loc = P.logic_body(b.id).loc()
        ctx.count("commands")
        outs, dead, overflow, t = traces.explore(P, b, ev.hook, pick, (), 30000)
        ctx.count("abstract_states", t.steps)
        if overflow:
            ev.bad("engine", "is too complex to analyse")
            continue
        sts = [(v, dict(st)) for v, st, _e in outs]
        loads = [x for x in sts if x[1].get("loaded")]
        if loads:
            seen["load"].append(ev.key)
            for v, d in sts:
                acts = d.get("actions", ())
                if d.get("loaded"):
                    if acts != ("Clear",):
                        ev.bad("clear", "replaces the program without clearing the machine")
                    if v is not None and v[0] == "v" and v[1] != "Ok":
                        ev.bad("failed", "replaces the program but fails afterwards")
                else:
                    if acts:
                        ev.bad("clear", "clears the machine without replacing the program")
                    if (d.get("clean") or d.get("answer")) and v is not None and v[0] == "v" and v[1] == "Ok":
                        ev.bad("ignored", "succeeds without replacing the program although nothing prevents it")
            if not any(d.get("clean") is False and d.get("answer") for _v, d in loads):
                ev.bad("never", "does not replace a modified program even if the user agrees")
            if not any(d.get("clean") is True for _v, d in loads):
                ev.bad("never", "does not replace a program that was not modified")
        saves = [x for x in sts if x[1].get("named")]
        if saves or any(x[1].get("stored") for x in sts):
            seen["save"].append(ev.key)
            for v, d in sts:
                if d.get("stored") and v is not None and v[1] == "Ok" and not d.get("named"):
                    ev.bad("unnamed", "stores the program but leaves it marked as modified")
                if not d.get("named") and v is not None and v[1] == "Ok":
                    ev.bad("unsaved", "succeeds without having stored the program")
                if d.get("named") and d.get("loaded"):
                    ev.bad("mixed", "saves and replaces the program")
    if len(seen["load"]) < 2:
        ctx.violation("anchor:load", "expected at least two commands that replace the program, found %s" % seen["load"])
    if len(seen["save"]) < 1:
        ctx.violation("anchor:save", "expected a command that saves the program")
    return ev, rel, pick


def loop(ctx, ev, pick):
    """The interactive loop."""
    P = ctx.P
    loops = [b for b in P.bodies(crates={"endbasic_repl"}, kinds=("fn", "method"))
             if {"read_line", "exec"} <= {c.name for c in P.logic_body(b.id).calls() if c.name == "read_line" and "console" in c.path or c.path.endswith("Machine::exec")}]
    if not ctx.anchor(loops, "the interactive loop"):
        return
    for b in loops:
        ev.key, ev.what, ev.loc = b.name, "`%s`" % b.name, P.logic_body(b.id).loc()
        outs, dead, overflow, t = traces.explore(P, b, ev.hook, pick, (), 60000)
        ctx.count("abstract_states", t.steps)
        ctx.count("loops")
        if overflow:
            ev.bad("engine", "is too complex to analyse")
            continue
        left = 0
        for v, st, _e in outs:
            d = dict(st)
            if v is None or v[0] != "v" or v[1] != "Ok":
                continue
            if d.get("over"):
                left += 1
                if not (d.get("clean") or d.get("answer")):
                    ev.bad("discard", "leaves the interpreter with unsaved changes without asking")
                if v[2][0] is None or not is_obj(v[2][0], "code"):
                    ev.bad("code", "leaves the interpreter with another exit code than the one the program asked for")
        if not left:
            ev.bad("never", "does not leave the interpreter when a program ends it")


def editors(ctx):
    """Implementations of Program that keep a modification mark."""
    P = ctx.P
    impls = {}
    for b in P.bodies(crates=CRATES, kinds=("method",)):
        if b.impl_trait == PROGRAM and b.impl_self:
            impls.setdefault(b.impl_self, {})[b.name] = b
    n = 0
    for self_ty, ms in sorted(impls.items()):
        a = P.adts.get(self_ty)
        d = ms.get("is_dirty")
        if a is None or d is None or any(s in self_ty for s in ("testutils", "tests::")):
            continue
        fields = a["variants"][0]["fields"]
        # The mark is the field that is_dirty returns.
        outs, _, _, _ = traces.explore(P, d, lambda *x: None, lambda c, b: False, ())
        if len(outs) == 1 and outs[0][0] == NO:
            continue  # Never modified.
        name = outs[0][0][2].split(".")[-1] if len(outs) == 1 and is_obj(outs[0][0]) else None
        mark = [i for i, f in enumerate(fields) if f[0] == name and f[1] == "bool"]
        text = [i for i, f in enumerate(fields) if f[1].startswith("alloc::vec::Vec<") and "LineBuffer" in f[1] or f[1] == "alloc::string::String"]
        if not ctx.anchor(len(mark) == 1 or None, "the modification mark of %s" % self_ty) or not ctx.anchor(len(text) == 1 or None, "the text of %s" % self_ty):
            continue
        n += 1
        editor(ctx, self_ty, fields, mark[0], text[0], ms)
    if not n:
        ctx.violation("anchor:editor", "no program with a modification mark was found")


READS = {"index_mut", "iter_mut", "deref_mut", "get_mut", "as_mut", "last_mut", "first_mut", "get", "index", "iter", "len", "is_empty", "deref", "reserve", "as_mut_slice", "next"}


def editor(ctx, self_ty, fields, mark, text, ms):
    P = ctx.P
    short = self_ty.split("::")[-1]
    owner = {}
    for b in P.bodies(kinds=("method",)):
        if b.impl_self == self_ty and b.argc and b.locals[1] == "&mut " + self_ty:
            owner[b.id] = b
    elem = fields[text][1].split("Vec<")[-1].rstrip(">")

    def mutates(c, body):
        """Whether the call changes the text through its first argument."""
        if not c.is_fn or not c.args or c.args[0][0] not in ("c", "m") or c.name in READS:
            return False
        l, proj = c.args[0][1]
        t = str(body.locals[l]) if not proj else ""
        return t.startswith("&mut ") and t[5:] in (fields[text][1], elem, "[%s]" % elem)

    def hook(c, args, st, ai, env):
        if c.is_fn and c.name in READS and c.args and c.args[0][0] in ("c", "m") and not c.args[0][1][1] and (
                str(ai.b.locals[c.args[0][1][0]]) in ["&mut " + x for x in (fields[text][1], elem, "[%s]" % elem)]):
            return [(obj("line") if traces.dest_type(ai, c).startswith("&") else None, st)]
        if mutates(c, ai.b):
            if c.name == "push" and len(args) == 2 and fresh(ai.deep(args[1], env)):
                return [(("t", ()), st)]  # An empty program gets an empty line.
            ctx.count("edits")
            # From here on the text differs from what was saved.
            return [(obj("x") if traces.dest_type(ai, c) != "()" else ("t", ()), put(st, touched=c.line))]
        if c.name in ("default", "new") and traces.dest_type(ai, c) == elem:
            return [(("v", "fresh", ()), st)]
        return None

    def fresh(v):
        return v is not None and v[0] == "v" and v[1] == "fresh"
    # Private helpers are judged as part of their callers.
    called = set()
    for b in list(owner.values()):
        for x in [b] + ([P.logic_body(b.id)] if P.coroutine_of(b.id) else []):
            for c in x.calls():
                if c.resolved in owner and c.resolved != b.id:
                    called.add(c.resolved)
    for i, b in sorted(owner.items()):
        if i in called and b.impl_trait is None:
            continue
        ctx.count("editor_methods")
        key = "%s:%s" % (short, b.name)
        for before in (NO, YES):
            me = ("v", short, tuple(before if j == mark else obj("text") if j == text else None for j in range(len(fields))))
            env = traces.start(P, b)
            env[90000] = me
            env[1] = ("ref", 90000, "[]")
            outs, dead, overflow, t = traces.explore(P, b, hook, lambda c, x: x.id in owner or x.kind == "coroutine", (), 200000, env)
            ctx.count("abstract_states", t.steps)
            if overflow:
                ctx.violation(key + ":engine", "`%s` is too complex to analyse" % b.name, b.loc())
                break
            for v, st, e in outs:
                fin = e.get(90000, e.get(90000 - 1000000))
                d = dict(st)
                if fin is None or fin[0] != "v":
                    ctx.violation(key + ":engine", "the effects of `%s` are unknown" % b.name, b.loc())
                    break
                clean = fin[2][mark] != YES
                replaced = fin[2][text] != obj("text")
                if b.impl_trait == PROGRAM and b.name == "load":
                    if fin[2][mark] != NO or not replaced:
                        ctx.violation(key, "loading a program leaves it marked as modified or keeps the old text", b.loc())
                    continue
                if b.impl_trait == PROGRAM and b.name == "set_name":
                    if fin[2][mark] != NO or replaced or d.get("touched"):
                        ctx.violation(key, "naming a program that was saved leaves it marked as modified or changes its text", b.loc())
                    continue
                if (d.get("touched") or replaced) and clean:
                    ctx.violation(key, "`%s` can change the text and %s without marking the program as modified"
                                  % (b.name, "fail" if v is not None and v[0] == "v" and v[1] == "Err" else "return"), "%s:%s" % (b.file, d.get("touched") or b.line))
                if before == YES and clean:
                    ctx.violation(key + ":lost", "`%s` can forget that the program was modified" % b.name, b.loc())


def run(ctx):
    ctx.rule("on every path of effects of a command, the stored program is only replaced after it was found unmodified or the user agreed, by the whole valid contents of the file it names (or nothing), "
             "and the machine is cleared exactly then; a program only counts as saved after its text was stored under that name")
    ctx.rule("the interactive loop only ends on behalf of a program after the stored program was found unmodified or the user agreed, with the program's exit code")
    ctx.rule("every path through the editor that changes the text leaves the program marked as modified, also when the console fails; nothing but loading and saving clears the mark")
    ctx.assume("what counts as agreement is decided by the function that converts the answer to a boolean")
    ev, rel, pick = commands(ctx)
    loop(ctx, ev, pick)
    editors(ctx)
    ctx.floor("commands", 6)
    ctx.floor("loops", 1)
    ctx.floor("editor_methods", 3)
    ctx.floor("edits", 8)
