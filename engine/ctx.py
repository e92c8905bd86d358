"""Check runner: collects violations, counts, floors; handles known findings and evidence."""

import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)

import extract  # noqa: E402
import mirlib  # noqa: E402

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Ctx:
    def __init__(self, prop, tier, prog, facts_hash):
        self.prop = prop
        self.tier = tier
        self.P = prog
        self.facts_hash = facts_hash
        self.violations = []  # (key, text)
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self._keys = set()

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def violation(self, key, text, where=None):
        """`key` identifies the construct (no line numbers); `text` explains; `where` is file:line."""
        if key in self._keys:
            return
        self._keys.add(key)
        where = where.loc() if hasattr(where, "loc") else where
        self.violations.append((key, text, where))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 40:
            self.samples.append(text)

    def floor(self, name, minimum, what=None):
        """Fails closed when fewer instances than confirmed by hand were found."""
        n = self.counts.get(name, 0)
        if n < minimum:
            self.violation(
                "floor:" + name,
                "only %d instances of `%s` were found; at least %d exist in a correct tree%s"
                % (n, name, minimum, " (%s)" % what if what else ""),
            )

    def anchor(self, obj, what):
        if obj is None or obj == [] or obj == {}:
            self.violation("anchor:" + what, "cannot find %s in the current tree" % what)
            return False
        return True


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                # known: property=<id> key=<key> | <what fails>
                head, _, desc = l[len("known: "):].partition(" | ")
                if not head.startswith("property="):
                    continue
                p, _, k = head.partition(" key=")
                if p == "property=" + prop:
                    out[k.strip()] = desc.strip()
    return out


def main(mods):
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        args.remove("--thorough")
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if args == ["all"]:
        args = sorted(mods)
    rc = 0
    d, h = extract.facts()
    prog = mirlib.Prog(d)
    for prop in args:
        rc |= run_one(prop, tier, prog, h, mods[prop])
    return rc


def run_one(prop, tier, prog, h, fn):
    t0 = time.time()
    ctx = Ctx(prop, tier, prog, h)
    try:
        fn(ctx)
    except Exception:
        # An analysis that cannot understand the tree has not shown the property: fail closed.
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        ctx.violation("engine:" + tb.strip().splitlines()[-1][:200], "the analysis could not complete:\n" + tb)
    known = known_findings(prop)
    new = []
    for key, text, where in ctx.violations:
        if key in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[key], key))
        else:
            new.append((key, text, where))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "explanation": "Static rules decided over the type-checked MIR of the whole workspace "
        "(%d bodies, crates: %s). Rules: %s" % (len(prog.raw), ", ".join(prog.crates), " | ".join(ctx.rules)),
        "bodies_in_program": len(prog.raw),
        "counts": ctx.counts,
        "samples": ctx.samples,
        "known_findings_seen": [k for k, _, _ in ctx.violations if k in known],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "wall_s": round(time.time() - t0, 3),
        "violations": [
            {"key": k, "what": t, "where": w} for k, t, w in new
        ],
        "assumptions": ctx.assumptions,
    }
    ev["violations"] = len(new)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    rp = os.path.join(VERIF, "evidence", prop + ".replay.txt")
    if new:
        with open(rp, "w") as f:
            for k, t, w in new:
                f.write("[%s] %s\n    %s\n" % (k, w or "", t))
        for k, t, w in new:
            print("%s: %s%s\n    key: %s" % (prop, (w + ": ") if w else "", t, k))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    print("OK property=%s %s" % (prop, json.dumps(ctx.counts, sort_keys=True)))
    return 0
