"""The operations of the host's file system, as effects on opaque files.

State: a tuple of events ("open", path, flags), ("read", path), ("write", path, what), ("flush", path),
("sync", path), ("remove", path), ("fs", name, args) and ("failed",) after an operation that failed."""

import json

from traces import obj
from checks.c06 import V

FLAGS = ("read", "write", "append", "truncate", "create", "create_new")
UNIT = ("t", ())


def contents(path):
    return obj("contents of " + repr(path))


def fail(st):
    return st + (("failed",),)


def handle(v):
    """(path, buffered) of an open file."""
    if v is not None and v[0] == "v" and v[1] == "File":
        return v[2][0], False
    if v is not None and v[0] == "v" and v[1] == "Buffered" and v[2][0] is not None and v[2][0][1] == "File":
        return v[2][0][2][0], True
    return None


def hook(c, args, st, ai, env):
    n, p = c.name, c.path
    a = [ai.deep(x, env) for x in args]
    if p.startswith("std::path::") and n == "join" and len(a) == 2:
        return [(("v", "Join", (a[0], a[1])), st)]
    if p.startswith("std::path::") and n in ("to_path_buf", "as_path", "to_owned", "new", "from") and len(a) == 1:
        return [(a[0], st)]
    if p.startswith("std::fs::OpenOptions") and n in ("new", "default"):
        return [(("v", "Open", (("s", ""),)), st)]
    if p.startswith("std::fs::File") and n == "options":
        return [(("v", "Open", (("s", ""),)), st)]
    if a and a[0] is not None and a[0][0] == "v" and a[0][1] == "Open":
        if n in FLAGS and len(a) == 2 and a[1] is not None and a[1][0] == "c":
            fl = set(x for x in a[0][2][0][1].split(",") if x)
            (fl.add if a[1][1] else fl.discard)(n)
            v = ("v", "Open", (("s", ",".join(sorted(fl))),))
            if args[0][0] == "ref":
                e = dict(env)
                r = args[0]
                while True:
                    q = ai.read([r[1], json.loads(r[2])], e)
                    if q is None or q[0] != "ref":
                        break
                    r = q
                ai.write([r[1], json.loads(r[2])], v, e)
                return [(args[0], st, e)]
            return [(v, st)]
        if n == "open" and len(a) == 2:
            st2 = st + (("open", a[1], a[0][2][0][1]),)
            return [(V("Ok", ("v", "File", (a[1],))), st2), (V("Err", obj("os error")), fail(st2))]
    if p.startswith("std::fs::File") and n in ("open", "create", "create_new") and len(a) == 1:
        st2 = st + (("open", a[0], {"open": "read", "create": "create,truncate,write", "create_new": "create_new,write"}[n]),)
        return [(V("Ok", ("v", "File", (a[0],))), st2), (V("Err", obj("os error")), fail(st2))]
    if n == "new" and len(a) == 1 and handle(a[0]) and "::io::" in p:
        return [(("v", "Buffered" if "Writer" in p else "File", (a[0] if "Writer" in p else a[0][2][0],)), st)]
    h = handle(a[0]) if a else None
    if h is not None:
        path, buf = h
        if n == "read_to_end" and len(args) == 2 and args[1] is not None and args[1][0] == "ref":
            e = dict(env)
            old = a[1]
            ai.write([args[1][1], json.loads(args[1][2])], contents(path) if old is not None and old[0] == "vec" and not old[1] else None, e)
            st2 = st + (("read", path),)
            return [(V("Ok", None), st2, e), (V("Err", obj("os error")), fail(st2), e)]
        if n in ("write_all", "write") and len(a) == 2:
            st2 = st + (("write" if n == "write_all" else "partial write", path, a[1]),)
            if buf:
                st2 += (("buffered", path),)
            return [(V("Ok", UNIT if n == "write_all" else None), st2), (V("Err", obj("os error")), fail(st2))]
        if n in ("flush", "sync_all", "sync_data"):
            st2 = st + (("flush" if n == "flush" else "sync", path),)
            return [(V("Ok", UNIT), st2), (V("Err", obj("os error")), fail(st2))]
        if n == "into_inner" and buf:
            st2 = st + (("flush", path),)
            return [(V("Ok", a[0][2][0]), st2), (V("Err", obj("os error")), fail(st2))]
        if n in ("get_ref", "get_mut", "by_ref"):
            return [(a[0][2][0] if buf and n != "by_ref" else a[0], st)]
        if n in ("as_ref", "as_mut", "deref", "borrow", "drop", "metadata", "clone"):
            return None
        return [(None, st + (("file", n, path),))]
    if p.startswith("std::fs::") and not p.startswith("std::fs::Metadata") and not p.startswith("std::fs::FileType") and not p.startswith("std::fs::DirEntry") and not p.startswith("std::fs::OpenOptions"):
        if n in ("metadata", "symlink_metadata", "read_dir", "canonicalize", "exists"):
            return None
        if n == "read" and len(a) == 1:
            st2 = st + (("open", a[0], "read"), ("read", a[0]))
            return [(V("Ok", contents(a[0])), st2), (V("Err", obj("os error")), fail(st2))]
        if n == "write" and len(a) == 2:
            st2 = st + (("open", a[0], "create,truncate,write"), ("write", a[0], a[1]))
            return [(V("Ok", UNIT), st2), (V("Err", obj("os error")), fail(st2))]
        if n == "remove_file" and len(a) == 1:
            st2 = st + (("remove", a[0]),)
            return [(V("Ok", UNIT), st2), (V("Err", obj("os error")), fail(st2))]
        st2 = st + (("fs", n) + tuple(a),)
        return [(V("Ok", None), st2), (V("Err", obj("os error")), fail(st2))]
    return None
