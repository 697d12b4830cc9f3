"""Runner shared by every check.

A check module (checks/cNN.py) exposes

    ID     property id
    RULE   how cases are made and what makes one non-trivial
    TESTS  list of Test(name, strategy, run, quick, thorough)

`strategy` is a Hypothesis strategy of JSON-serialisable cases; `run(case, rec)`
drives the real code with the case and raises on any disagreement with the
oracle.  Anything raised by `run` is a violation (the generators only produce
inputs the code accepts); anything raised outside `run` is an error of the
harness (exit 2).
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")
SHRINK_SECONDS = 40.0


@dataclass
class Test:
    name: str
    strategy: Any
    run: Callable[[Any, "Rec"], None]
    quick: int
    thorough: int


@dataclass
class Rec:
    """What one case reports about itself."""

    labels: list[str] = field(default_factory=list)
    nontrivial: bool = False
    key: Any = None

    def label(self, name: str, on: bool = True):
        if on:
            self.labels.append(name)

    def interesting(self, on: bool = True):
        self.nontrivial = self.nontrivial or bool(on)


def digest(obj) -> str:
    return hashlib.blake2b(
        json.dumps(obj, sort_keys=True, default=str).encode(
            "utf-8", "surrogatepass"
        ),
        digest_size=8,
    ).hexdigest()


class CaseScratch:
    """A private directory for the files a case writes; always removed."""

    def __init__(self):
        self.path = None

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="vcase-")
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


def load_check(pid: str):
    return importlib.import_module(f"checks.{pid.lower()}")


def budgets(tier: str) -> tuple[int, float]:
    """(workers, wall seconds per worker)."""
    n = min(8, os.cpu_count() or 1)
    if tier == "quick":
        return n, float(os.environ.get("VERIF_WALL", "170"))
    return n, float(os.environ.get("VERIF_WALL", "780"))


# ---------------------------------------------------------------- worker


def run_worker(pid: str, tier: str, seed: int, worker: int, n: int, out: str):
    from vlib import bootstrap

    bootstrap.ensure()
    import warnings

    warnings.simplefilter("ignore")
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    start = time.monotonic()
    _, wall = budgets(tier)
    mod = load_check(pid)
    res = {
        "tests": {},
        "hashes": [],
        "samples": [],
        "failures": [],
        "error": None,
        "truncated": 0,
    }
    hashes: set[str] = set()
    try:
        for t_idx, test in enumerate(mod.TESTS):
            total = test.quick if tier == "quick" else test.thorough
            mult = float(os.environ.get("VERIF_MULT", "1"))
            count = int(total * mult) // n + (
                1 if worker < int(total * mult) % n else 0
            )
            stat = {"evaluations": 0, "nontrivial": 0, "classes": Counter()}
            res["tests"][test.name] = stat
            if count == 0:
                continue
            # every test gets its share of the wall budget
            deadline = start + wall * (t_idx + 1) / len(mod.TESTS)
            state = {"fail": None, "fail_at": None}

            def body(case):
                now = time.monotonic()
                if state["fail_at"] is not None:
                    if now - state["fail_at"] > SHRINK_SECONDS:
                        return
                elif now > deadline:
                    res["truncated"] += 1
                    return
                rec = Rec()
                try:
                    test.run(case, rec)
                except Exception as e:
                    if state["fail_at"] is None:
                        state["fail_at"] = time.monotonic()
                    size = len(json.dumps(case, default=str))
                    if state["fail"] is None or size <= state["fail"]["size"]:
                        state["fail"] = {
                            "test": test.name,
                            "case": case,
                            "size": size,
                            "message": "".join(
                                traceback.format_exception(e)
                            )[-6000:],
                        }
                    raise
                if state["fail_at"] is None:
                    stat["evaluations"] += 1
                    stat["classes"].update(set(rec.labels))
                    if rec.nontrivial:
                        stat["nontrivial"] += 1
                        h = digest([test.name, case])
                        if h not in hashes:
                            hashes.add(h)
                            if worker == 0 and (
                                sum(
                                    s["test"] == test.name
                                    for s in res["samples"]
                                )
                                < 2
                            ):
                                res["samples"].append(
                                    {"test": test.name, "case": case}
                                )

            derived = int(
                hashlib.blake2b(
                    f"{seed}/{pid}/{test.name}/{worker}".encode(),
                    digest_size=6,
                ).hexdigest(),
                16,
            )
            wrapped = settings(
                max_examples=count,
                deadline=None,
                database=None,
                derandomize=False,
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
                phases=(Phase.generate, Phase.shrink),
            )(hseed(derived)(given(test.strategy)(body)))
            try:
                wrapped()
            except BaseException:
                if state["fail"] is None:
                    raise
            if state["fail"] is not None:
                res["failures"].append(state["fail"])
                break
    except BaseException:
        res["error"] = traceback.format_exc()[-6000:]
    for s in res["tests"].values():
        s["classes"] = dict(s["classes"])
    res["hashes"] = sorted(hashes)
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f, default=str)
    os.replace(tmp, out)


# ---------------------------------------------------------------- parent


def _shorten(obj, limit=1500):
    text = json.dumps(obj, default=str)
    if len(text) <= limit:
        return obj
    return text[:limit] + f"... ({len(text)} chars)"


def known_findings(pid: str) -> list[str]:
    found = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith(f"known: property={pid} "):
                    found.append(line[len("known: ") :])
    return found


def run_check(pid: str, tier: str, seed: int) -> int:
    start = time.monotonic()
    n, wall = budgets(tier)
    scratch = tempfile.mkdtemp(prefix="vcheck-")
    env = dict(os.environ)
    env.update(
        TMPDIR=scratch,
        PYTHONPATH="/repo/src",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        ARROW_IO_THREADS="1",
        HF_HUB_OFFLINE="1",
        HF_DATASETS_OFFLINE="1",
        HF_EVALUATE_OFFLINE="1",
        HF_HOME=os.path.join(scratch, "hf"),
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
        TZ="UTC",
    )
    for k in ("OPENAI_API_KEY", "MISTRAL_API_KEY"):
        env.pop(k, None)
    procs = []
    try:
        for w in range(n):
            out = os.path.join(scratch, f"w{w}.json")
            log = open(os.path.join(scratch, f"w{w}.log"), "w")
            procs.append(
                (
                    subprocess.Popen(
                        [
                            sys.executable,
                            "-B",
                            os.path.join(HERE, "check.py"),
                            pid,
                            "--worker",
                            str(w),
                            "--workers",
                            str(n),
                            "--tier",
                            tier,
                            "--seed",
                            str(seed),
                            "--out",
                            out,
                        ],
                        env=env,
                        stdout=log,
                        stderr=subprocess.STDOUT,
                        cwd=HERE,
                    ),
                    out,
                    log,
                )
            )
        hard = start + wall + SHRINK_SECONDS + 60
        results: dict[int, dict] = {}
        errors: list[str] = []
        failed = False
        while len(results) + len(errors) < n:
            for w, (p, out, log) in enumerate(procs):
                if w in results or p.poll() is None:
                    continue
                if p.returncode != 0 or not os.path.exists(out):
                    if getattr(p, "_seen", False):
                        continue
                    p._seen = True
                    log.flush()
                    with open(log.name) as f:
                        errors.append(
                            f"worker {w} exit {p.returncode}: "
                            + f.read()[-3000:]
                        )
                    continue
                with open(out) as f:
                    results[w] = json.load(f)
                if results[w]["failures"]:
                    failed = True
            if failed or time.monotonic() > hard:
                break
            time.sleep(0.05)
        timed_out = not failed and len(results) + len(errors) < n
    finally:
        for p, _, log in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
            log.close()
        shutil.rmtree(scratch, ignore_errors=True)

    mod_rule, mod_assume = _static(pid)
    tests: dict[str, dict] = {}
    hashes: set[str] = set()
    samples = []
    failures = []
    truncated = 0
    for w in sorted(results):
        r = results[w]
        if r["error"]:
            errors.append(f"worker {w}: {r['error']}")
        truncated += r["truncated"]
        hashes.update(r["hashes"])
        samples += r["samples"]
        failures += r["failures"]
        for name, s in r["tests"].items():
            t = tests.setdefault(
                name, {"evaluations": 0, "nontrivial": 0, "classes": Counter()}
            )
            t["evaluations"] += s["evaluations"]
            t["nontrivial"] += s["nontrivial"]
            t["classes"].update(s["classes"])
    evaluations = sum(t["evaluations"] for t in tests.values())
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": mod_rule,
            "samples": [
                {"test": s["test"], "case": _shorten(s["case"])}
                for s in samples[:8]
            ],
            "per_test": {
                k: {
                    "evaluations": t["evaluations"],
                    "nontrivial": t["nontrivial"],
                    "classes": dict(sorted(t["classes"].items())),
                }
                for k, t in sorted(tests.items())
            },
            "skipped_after_time_budget": truncated,
            "workers": n,
        },
        "assumptions": mod_assume,
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(failures),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(path + ".tmp", path)

    for line in known_findings(pid):
        print(f"KNOWN-FINDING: {line}")
    if failures:
        best = min(failures, key=lambda x: x["size"])
        os.makedirs(REPLAYS, exist_ok=True)
        rp = os.path.join(
            REPLAYS, f"{pid}-{digest([best['test'], best['case']])}.json"
        )
        with open(rp, "w") as f:
            json.dump(
                {
                    "property": pid,
                    "test": best["test"],
                    "case": best["case"],
                    "message": best["message"],
                    "seed": seed,
                    "replay_with": f"bash check {pid} --replay <this file>",
                },
                f,
                indent=1,
            )
        print(best["message"])
        print("minimal case:", json.dumps(best["case"])[:3000])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors[:2]), file=sys.stderr)
        return 2
    if timed_out or evaluations == 0:
        print("HARNESS ERROR: no answer within budget", file=sys.stderr)
        return 2
    print(
        f"OK property={pid} tier={tier} seed={seed} evaluations={evaluations} "
        f"distinct_nontrivial={len(hashes)} wall={evidence['wall_s']}s"
        + (f" skipped={truncated}" if truncated else "")
    )
    return 0


def _static(pid: str):
    """RULE / ASSUMPTIONS of a check, read without importing the code under test."""
    import ast

    with open(os.path.join(HERE, "checks", f"{pid.lower()}.py")) as f:
        tree = ast.parse(f.read())
    vals = {"RULE": "", "ASSUMPTIONS": []}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(
            node.targets[0], ast.Name
        ):
            if node.targets[0].id in vals:
                vals[node.targets[0].id] = ast.literal_eval(node.value)
    return vals["RULE"], vals["ASSUMPTIONS"]


def replay(pid: str, path: str) -> int:
    from vlib import bootstrap

    bootstrap.ensure()
    import warnings

    warnings.simplefilter("ignore")
    mod = load_check(pid)
    with open(path) as f:
        r = json.load(f)
    test = next(t for t in mod.TESTS if t.name == r["test"])
    try:
        test.run(r["case"], Rec())
    except Exception:
        traceback.print_exc()
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"OK replay property={pid} {path}")
    return 0
