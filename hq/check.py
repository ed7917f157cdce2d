"""Entry point of every check:  python3 -m hq.check <property id> [quick|thorough]"""
import importlib
import json
import os
import shutil
import sys
import time
import traceback

from . import build, run
from .build import VERIF, ToolError

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    """case key -> description, for the findings that are recorded and not repaired"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN, encoding="utf-8"):
            ln = ln.strip()
            if ln.startswith("known: "):
                head, _, what = ln[7:].partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split(" ", 1) if "=" in x)
                if kv.get("property") == pid:
                    out[kv["case"]] = what
    return out


class Ctl:
    """what a property module gets: tier, tool paths, and where to report"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.fails = []            # run.Failure
        self.nfails = 0
        self.states, self.trans = set(), set()
        self.n = 0                 # executions of the real code compared
        self.samples = []
        self.notes = {}
        self.exhaustive = True
        self.canon = build.ensure_canon()
        self._hooq = {}

    def hooq(self, variant="full"):
        if variant not in self._hooq:
            self._hooq[variant] = build.ensure_hooq(variant)
        return self._hooq[variant]

    def sample(self, text):
        if len(self.samples) < 6:
            self.samples.append(text if len(text) < 1500 else text[:1500] + "...")

    def expand(self, name, cases, flavors, manifest_dir, variant="full", consume=None, shard=500, extra=()):
        """run a family of expansion cases"""
        t = time.time()
        r = run.run_cases(cases, dict(self.hooq(variant), extra=extra), self.canon, flavors, manifest_dir,
                          consume=(variant == "full") if consume is None else consume, shard=shard)
        return self._expanded(name, r, t)

    def expand_groups(self, name, groups, variant="full", extra=(), per_job=4):
        """families of expansion cases, each family under its own hooq.toml: (toml, cases, flavors)"""
        t = time.time()
        r = run.run_groups(groups, dict(self.hooq(variant), extra=extra), self.canon, consume=variant == "full", per_job=per_job)
        return self._expanded(name, r, t)

    def _expanded(self, name, r, t):
        self.n += r.n
        self.states |= r.states
        self.trans |= r.trans
        self.fails += r.fails
        self.nfails += r.nfails
        self.notes[name] = {"programs": r.n, "programs_with_a_hook": r.nhook, "hooks_fired": r.fired,
                            "mismatches": r.nfails, "seconds": round(time.time() - t, 1)}
        for s in r.samples:
            self.sample(s)
        if r.n == 0:
            raise ToolError(f"{name}: nothing was explored")
        return r

    def record(self, name, n, fails, states=(), trans=(), **note):
        self.n += n
        self.fails += fails
        self.nfails += len(fails)
        self.states |= set(states)
        self.trans |= set(trans)
        self.notes[name] = dict(note, executions=n, mismatches=len(fails))
        if n == 0:
            raise ToolError(f"{name}: nothing was explored")


def write_replay(pid, i, f):
    d = os.path.join(VERIF, "replay", pid, str(i))
    os.makedirs(d, exist_ok=True)

    def put(n, t):
        with open(os.path.join(d, n), "w", encoding="utf-8") as fh:
            fh.write(t)
    put("case.txt", f"property: {pid}\ncase: {f.key}\nkind: {f.kind}\n")
    put("annotated.rs", f.src)
    put("expected.rs", f.exp_src)
    put("got.txt", f.got.replace("\x01", "\n") + "\n")
    put("expected.txt", f.exp.replace("\x01", "\n") + "\n")
    if f.err:
        put("diagnostics.txt", f.err + "\n")
    for n, t in getattr(f, "files", {}).items():
        put(n, t)
    put("README", f"""What failed: {f.kind} for case {f.key}.
annotated.rs is what the real hooq was given, expected.rs is what the model says it stands for;
got.txt / expected.txt are the two results in canonical form.
Re-run the whole check:   cd {VERIF} && python3 -m hq.check {pid} quick
""")
    return d


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rep = os.path.join(VERIF, "replay", pid)
    shutil.rmtree(rep, ignore_errors=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        c = Ctl(pid, tier)
        mod = importlib.import_module("hq.props." + pid.lower())
        mod.check(c)
    except ToolError as e:
        print(f"ERROR: the check of {pid} could not run: {e}", file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    known = known_findings(pid)
    seen_known, new = set(), []
    for f in c.fails:
        if f.key in known:
            seen_known.add(f.key)
        else:
            new.append(f)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {k}: {known[k]}")
    new.sort(key=lambda f: len(f.src))
    reps = [write_replay(pid, i, f) for i, f in enumerate(new[:5])]
    wall = time.time() - c.t0
    evidence = {
        "property": pid, "tier": tier, "seed": c.seed, "level": "model_checking",
        "coverage": {
            "states": len(c.states), "transitions": len(c.trans),
            "traces_validated_against_impl": c.n,
            "exhaustive": c.exhaustive,
            "samples": c.samples,
            "explored": c.notes,
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
            "violations": len(new), "known_findings": sorted(seen_known),
        },
        "wall_s": round(wall, 1),
    }
    with open(ev, "w") as fh:
        json.dump(evidence, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    print(f"{pid} {tier}: {c.n} executions of the implementation compared with the model, "
          f"{len(c.states)} model states, {len(c.trans)} transitions, {wall:.1f} s")
    if new:
        for f, d in zip(new[:5], reps):
            print(f"  {f.kind}: {f.key}")
            print(f"VIOLATION property={pid} replay={d}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
