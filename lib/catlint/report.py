"""Context handed to every rule: program access, obligations, findings, evidence."""
import json
import os
import pickle
import re
import sys
import time
import traceback

from . import build
from .build import CheckError, VERIF
from .ir import Program

_progs = {}

TRUSTED = ["clang/LLVM 18 front end, linker and mem2reg/simplifycfg/early-cse/loop-simplify",
           "tools/irdump (IR to JSON)", "lib/catlint (this analyser)"]

EVID = os.environ.get("CATLINT_EVIDENCE", os.path.join(VERIF, "evidence"))


class Ctx:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.obs = []           # (rule, instance, ok, detail, loc)
        self.seen = set()
        self.rules = {}
        self.counts = {}
        self.assumptions = []
        self.notes = []
        self.explain = ""
        self.t0 = time.time()

    # ---- program access
    def prog(self, name="main", opts=None, probes=(), **kw):
        key = (name, repr(opts), tuple(probes))
        if key not in _progs:
            pr = [p if os.path.isabs(p) else os.path.join(VERIF, "probes", p) for p in probes]
            data = build.module(name, opts, pr, **kw)
            _progs[key] = Program(data)
        p = _progs[key]
        self.count("translation_units", len(p.data["units"]) + len(probes), add=False)
        self.count("functions_in_program", len(p.defined()), add=False)
        return p

    # ---- obligations
    def rule(self, name, text, minimum=1):
        """Declares a rule and the least number of instances confirmed by hand."""
        self.rules[name] = [text, minimum, 0]

    def ob(self, rule, instance, ok, detail="", loc=""):
        key = (rule, instance)
        if rule not in self.rules:
            raise CheckError("rule %s not declared" % rule)
        if key in self.seen:
            # the same instance judged again (other build variant): keep the failing verdict
            if not ok:
                for i, o in enumerate(self.obs):
                    if o[0] == rule and o[1] == instance and o[2]:
                        self.obs[i] = (rule, instance, False, detail, loc)
            return ok
        self.seen.add(key)
        self.rules[rule][2] += 1
        self.obs.append((rule, instance, bool(ok), detail, loc))
        return ok

    def count(self, name, n=1, add=True):
        if add:
            self.counts[name] = self.counts.get(name, 0) + n
        else:
            self.counts[name] = max(self.counts.get(name, 0), n)

    def require(self, cond, msg):
        if not cond:
            raise CheckError(msg)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def pmap(fn, items, procs=8):
    """fn over items in forked workers (same stack, shared program); results in order"""
    items = list(items)
    procs = max(1, min(procs, len(items)))
    if procs == 1 or os.environ.get("CATLINT_SERIAL"):
        return [fn(x) for x in items]
    sys.stdout.flush()
    kids = []
    for w in range(procs):
        path = os.path.join(build.workdir(), "pmap-%d-%d" % (os.getpid(), w))
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                out = []
                for n in range(w, len(items), procs):
                    try:
                        out.append((n, fn(items[n]), None))
                    except CheckError as e:
                        out.append((n, None, str(e)))
                    except BaseException:
                        out.append((n, None, "internal error\n" + traceback.format_exc()))
                with open(path, "wb") as fh:
                    pickle.dump(out, fh)
            except BaseException:
                code = 3
            os._exit(code)
        kids.append((pid, path))
    res = [None] * len(items)
    errs = []
    for pid, path in kids:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            errs.append("worker failed (status %d)" % st)
            continue
        with open(path, "rb") as fh:
            for n, r, e in pickle.load(fh):
                res[n] = r
                if e:
                    errs.append(e)
        os.remove(path)
    if errs:
        raise CheckError(errs[0])
    return res


def load_known():
    known, fixed = [], []
    path = os.path.join(VERIF, "known_findings.txt")
    for n, l in enumerate(open(path), 1):
        l = l.rstrip("\n")
        if not l.strip() or l.startswith("#"):
            continue
        m = re.match(r"^known: property=(\S+) key=<(.*?)> (.*)$", l)
        if m:
            known.append(m.groups())
            continue
        if re.match(r"^fixed: property=\S+ \S+ .+$", l):
            fixed.append(l)
            continue
        raise CheckError("known_findings.txt:%d: cannot read line" % n)
    return known, fixed


def finish(ctx, level, cmd):
    known, _ = load_known()
    kn = {(p, k): w for p, k, w in known}
    bad, listed = [], []
    for rule, inst, ok, detail, loc in ctx.obs:
        if ok:
            continue
        key = "%s|%s" % (rule, inst)
        if (ctx.pid, key) in kn:
            listed.append((key, kn[(ctx.pid, key)]))
        else:
            bad.append((rule, inst, detail, loc))
    # a rule that matched (almost) nothing means the anchor is gone: error, unless something is broken already
    short = [(r, v) for r, v in ctx.rules.items() if v[2] < v[1]]
    if short and not bad:
        raise CheckError("; ".join("rule '%s' found %d instances, at least %d expected" % (r, v[2], v[1])
                                   for r, v in short))
    if not ctx.obs:
        raise CheckError("no obligations generated")
    ev = EVID
    os.makedirs(ev, exist_ok=True)
    ok = sum(1 for o in ctx.obs if o[2])
    samples = []
    byrule = {}
    for o in ctx.obs:
        byrule.setdefault(o[0], []).append(o)
    for r, os_ in byrule.items():
        for o in os_[:3]:
            samples.append({"rule": r, "instance": o[1], "at": o[4], "held": o[2], "detail": o[3][:300]})
    cov = {
        "obligations": len(ctx.obs),
        "discharged": ok,
        "checker_cmd": cmd,
        "trusted_base": TRUSTED,
        "rules": {r: {"text": v[0], "instances": v[2]} for r, v in ctx.rules.items()},
        "analysed": ctx.counts,
        "samples": samples,
        "explanation": "static analysis of /repo's current sources; every obligation is one instance of a rule (a "
                       "construct of the program) decided in this run. " + (ctx.explain or ""),
    }
    out = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
           "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 3), "violations": len(bad)}
    path = os.path.join(ev, ctx.pid + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(out, fh, indent=1)
    os.replace(path + ".tmp", path)
    for r, v in ctx.rules.items():
        print("  %-28s %4d instances  %s" % (r, v[2], v[0]))
    print("  analysed: " + ", ".join("%s=%s" % kv for kv in sorted(ctx.counts.items())))
    for key, what in listed:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, what))
    rep = os.path.join(ev, ctx.pid + ".report.txt")
    with open(rep, "w") as fh:
        for rule, inst, detail, loc in bad:
            fh.write("rule: %s (%s)\ninstance: %s\nat: %s\n%s\n\n" % (rule, ctx.rules[rule][0], inst, loc, detail))
    if bad:
        for rule, inst, detail, loc in bad[:20]:
            print("  BROKEN %s: %s at %s\n     %s" % (rule, inst, loc, detail[:1500].replace("\n", "\n     ")))
        if len(bad) > 20:
            print("  … %d more, see %s" % (len(bad) - 20, rep))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rep))
        return 1
    print("property %s: %d obligations, %d discharged, %d listed as known findings"
          % (ctx.pid, len(ctx.obs), ok, len(listed)))
    return 0


def main(argv):
    pid = argv[1]
    level = "other"
    import importlib
    import traceback
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(200000)
    ctx = Ctx(pid, tier, seed)
    ev = os.path.join(EVID, pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    try:
        m = importlib.import_module("catlint.rules.%s" % pid.lower())
        m.check(ctx)
        return finish(ctx, getattr(m, "LEVEL", level), "bin/check %s" % pid)
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        # violations already established stay violations
        if any(not o[2] for o in ctx.obs):
            for v in ctx.rules.values():
                v[1] = 0
            try:
                if finish(ctx, getattr(sys.modules.get("catlint.rules.%s" % pid.lower()), "LEVEL", level),
                          "bin/check %s" % pid) == 1:
                    return 1
            except CheckError:
                pass
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR %s: internal error" % pid)
        return 2
    finally:
        build.cleanup()
