"""Entry point:  python3 -m sa.run C01   (tier from VERIF_TIER / --tier)."""
from __future__ import annotations

import importlib
import json
import os
import random
import sys
import time
import traceback

from .values import AbsRaise, Obj

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COORDINAX_REPO", "/repo")


class Broken(Exception):
    """The analysis itself cannot run (vanished anchor, failing self-test)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.src = os.path.join(REPO, "src")
        self.obs = []            # (rule, key, status, why, where, witness)
        self.rules = {}
        self.consulted = {}
        self.notes = []
        self.keys = set()
        self.assumptions = []
        self.nodes = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- engine
    def lab(self):
        from .lab import Lab
        l = Lab(self.src)
        l.s.rng = random.Random(self.seed)
        self.load_problems = list(l.ip.load_problems)
        self._lab = l
        l.ctx = self
        return l

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, key, res, where=""):
        """Record one obligation; res is lab.Result-like or (status, why)."""
        if isinstance(res, tuple):
            st, why, wit = res[0], res[1] if len(res) > 1 else "", None
        else:
            st, why, wit = res.status, res.why, res.witness
        if rule not in self.rules:
            raise Broken(f"rule {rule} not declared")
        self.obs.append((rule, key, st, why, where, wit))

    def guard(self, rule, key, f, where=""):
        """Run an obligation; analysis failures make it undecided, definite raises bad."""
        from .lab import Result
        from .values import AbsRaise, Undecided, Unknown
        ip = getattr(self, "_lab", None) and self._lab.ip
        try:
            if ip is not None:
                self._lab.fresh()
                ip.stack = []
                ip.depth = 0
            r = f()
            if r is None:
                return None
        except AbsRaise as e:
            r = self.raised(e)
        except (Undecided, Unknown) as e:
            r = Result("und", f"{e}"[:200])
        except RecursionError:
            r = Result("und", "engine recursion")
        except Broken:
            raise
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r = Result("und", f"engine: {type(e).__name__} {e} ({os.path.basename(tb.filename)}:{tb.lineno})"[:200])
        self.ob(rule, key, r, where)
        return r

    def raised(self, e):
        from .lab import Result
        name = e.exc.cls.name
        msg = str(e.exc.d.get("args", ("",))[0]) if e.exc.d.get("args") else ""
        loc = e.loc
        if isinstance(loc, tuple) and len(loc) == 2:
            f, n = loc
            loc = f"{self._lab.ip.relpath(f.module.path)}:{getattr(n, 'lineno', '?')} in {f.name}"
        if self.load_problems and name in ("LookupError", "AttributeError", "ImportError", "TypeError", "RuntimeError"):
            return Result("und", f"raises {name} ({msg[:120]}), but parts of the package could not be analysed")
        return Result("bad", f"raises {name}: {msg[:300]}" + (f" at {loc}" if loc else ""))

    def finish(self, t0, min_decided):
        lab = getattr(self, "_lab", None)
        if lab is not None:
            self.consulted = {f"{m}:{n}" for (m, n, _l) in lab.ip.consulted}
            self.nodes = lab.ip.nodes
        known = load_known(self.prop)
        bad = {}
        for rule, key, st, why, where, wit in self.obs:
            if st == "bad":
                bad.setdefault((rule, key), (why, where, wit))
        hits, viol = [], []
        for (rule, key), (why, where, wit) in bad.items():
            k = next((e for e in known if e["rule"] == rule and e["construct"] == key
                      and e.get("match", "") in why), None)
            (hits if k else viol).append((rule, key, why, where, wit, k))
        cnt = {s: sum(1 for o in self.obs if o[2] == s) for s in ("ok", "num", "und", "bad")}
        decided = cnt["ok"] + cnt["num"] + cnt["bad"]
        per_rule = {}
        for rule, key, st, *_ in self.obs:
            d = per_rule.setdefault(rule, {"obligations": 0, "discharged": 0, "undecided": 0, "violated": 0})
            d["obligations"] += 1
            d[{"ok": "discharged", "num": "undecided", "und": "undecided", "bad": "violated"}[st]] += 1
        samples = {}
        for rule, key, st, why, where, wit in self.obs:
            if st == "ok":
                samples.setdefault(rule, []).append(key)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Abstract interpretation (gated value numbering, dispatch and type resolution, effect "
                               "collection) of the syntax trees under src/; nothing of the package is imported or run. "
                               "One obligation per rule instance; each is discharged, violated or undecided.",
                "obligations": len(self.obs), "discharged": cnt["ok"],
                "undecided_equal_on_samples": cnt["num"], "undecided": cnt["und"], "violated": cnt["bad"],
                "rules": {r: {"text": t, **per_rule.get(r, {})} for r, t in self.rules.items()},
                "functions_analysed": len(self.consulted), "functions": sorted(self.consulted)[:400],
                "statements_interpreted": self.nodes,
                "modules": len(lab.ip.modules) if lab else 0,
                "unanalysed_definitions": [list(map(str, p)) for p in getattr(self, "load_problems", [])][:50],
                "undecided_list": [{"rule": r, "construct": k, "why": w} for r, k, s, w, *_ in self.obs
                                   if s in ("und", "num")][:200],
                "samples": [{"rule": r, "constructs": ks[:8]} for r, ks in samples.items()],
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - t0, 3),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for rule, key, why, where, wit, k in hits:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        print(f"{self.prop} [{self.tier}] obligations={len(self.obs)} discharged={cnt['ok']} "
              f"agree-on-samples={cnt['num']} undecided={cnt['und']} violated={cnt['bad']} "
              f"functions={len(self.consulted)} time={time.time() - t0:.1f}s")
        if viol:
            rp = os.path.join(ROOT, "evidence", f"{self.prop}.violation.json")
            with open(rp, "w") as f:
                json.dump([{"rule": r, "rule_text": self.rules[r], "construct": k, "what": w, "where": wh,
                            "witness": wit} for r, k, w, wh, wit, _ in viol], f, indent=1, default=str)
            for r, k, w, wh, wit, _ in viol[:40]:
                print(f"  {r} [{k}] {wh} {w}" + (f" witness={json.dumps(wit, default=str)}" if wit else ""))
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if decided < min_decided:
            print(f"UNDECIDED {self.prop}: only {decided} obligations decided, at least {min_decided} expected")
            for r, k, s, w, *_ in self.obs:
                if s == "und":
                    print("   undecided", r, k, w)
                    break
        return 0


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop and "fixed" not in e]


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in argv
    t0 = time.time()
    mod = importlib.import_module(f"sa.checks.{prop.lower()}")
    ctx = Ctx(prop, tier, seed)
    try:
        mod.check(ctx)
    except Broken as e:
        print(f"BROKEN {prop}: {e}")
        return 2
    except AbsRaise as e:
        name = e.exc.cls.name if isinstance(e.exc, Obj) else ""
        if e.loc and name not in ("ImportError", "AttributeError", "NameError"):
            ctx.rule("setup", "the objects the property speaks of can be built from valid parameters")
            ctx.ob("setup", "objects built from valid parameters", ctx.raised(e))
        ctx.notes.append(f"analysis stopped early: {e.exc!r}"[:300])
    except Exception as e:      # an engine failure decides nothing beyond the obligations recorded so far
        traceback.print_exc()
        ctx.notes.append(f"analysis stopped early: {type(e).__name__} {e}"[:300])
    rc = ctx.finish(t0, getattr(mod, "MIN", 1))
    if verbose:
        for o in ctx.obs:
            if o[2] in ("und", "num", "bad"):
                print("  ", o[2], o[0], o[1], o[3][:300], o[4])
        for lp in getattr(ctx, "load_problems", []):
            print("  load:", lp)
    return rc


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 3)
