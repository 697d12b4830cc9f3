"""C32: evaluations are repeatable and leave what the caller passed in alone."""
import copy
import math

import numpy as np
from hypothesis import strategies as st
from valor_lite.exceptions import EmptyCacheError
from valor_lite.text_generation import Evaluator as TextEvaluator

from vlib import tasks
from vlib import textgen as tg
from vlib.common import expect, expressions, to_expression
from vlib.core import CaseScratch, Test

ID = "C32"
RULE = (
    "Random histories of metric, example, info and filter calls (random thresholds, filters and pages, repeated calls, caller-side edits of passed lists, "
    "annotations and returned metrics in between) on one evaluator, on evaluators filtered from it and on a second loaded one, "
    "for each of the three tasks; every call must return what the same call returns on a fresh evaluator over the same data. Text: histories of "
    "metrics over several queries on one evaluator against one evaluator per call. Non-trivial: at least three calls of which two differ in kind or parameters."
)
ASSUMPTIONS = [
    "scores are distinct and no two pairs tie in score and IoU",
    "segmentation masks may be trimmed by the constructor (C18), not afterwards",
    "examples of one cell are compared as sets",
]
_f = st.one_of(
    st.none(),
    expressions(
        {"dk": st.integers(0, 2), "ds": st.sampled_from(["u", "v", ""])}, depth=1
    ),
)
KINDS = {
    "cls": ["pr", "cm", "cmx", "ex", "roc", "info"],
    "od": ["pr", "cm", "cmx", "ex", "info"],
    "seg": ["pr", "info"],
}


def cases(task):
    @st.composite
    def make(draw):
        data = draw(tasks.datasets(task))
        if task == "seg":  # masks of one label need not share their metadata
            for d in data:
                for side, key in (("gts", "gk"), ("pds", "pk")):
                    for a in d[side]:
                        if draw(st.booleans()):
                            a["meta"] = {key: draw(st.integers(0, 2))}
        pool = [draw(tasks.params(task)) for _ in range(2)]

        @st.composite
        def op(draw):
            if draw(st.integers(0, 5)) == 0:
                return ["filter", draw(_f), draw(st.booleans())]
            return [
                draw(st.sampled_from(KINDS[task])),
                draw(st.integers(0, 1)),
                draw(_f),
                draw(st.integers(0, 3)),
                draw(st.one_of(st.none(), st.integers(1, 3))),
                draw(st.integers(0, 2)),  # which evaluator
            ]

        return {
            "data": data,
            "pool": pool,
            "cfg": draw(tasks.storage(task)),
            "ops": draw(st.lists(op(), min_size=2, max_size=8)),
        }

    return make()


def call(task, ev, op, pool):
    """Perform one call; returns (metrics as groups, passed lists)."""
    kind, k, f, offset, limit = op[:5]
    p = copy.deepcopy(pool[k])
    kw = {"datums": to_expression(f)} if f else {}
    if kind == "info":
        return tasks.info_of(ev, **kw), p
    if kind == "roc":
        return {f"roc/{a.value}": b for a, b in ev.compute_rocauc().items()}, p
    if task == "seg":
        got = ev.compute_precision_recall_iou(**kw)
        return {f"pr/{a.value}": b for a, b in got.items()}, p
    if kind == "pr":
        got = ev.compute_precision_recall(**p, **kw)
        return {f"pr/{a.value}": b for a, b in got.items()}, p
    if kind == "cm":
        return {"cm": ev.compute_confusion_matrix(**p, **kw)}, p
    if kind == "cmx":
        return {"cmx": ev.compute_confusion_matrix_with_examples(**p, **kw)}, p
    return {"ex": ev.compute_examples(**p, **kw, offset=offset, limit=limit)}, p


def attempt(task, ev, op, pool):
    got, p = call(task, ev, op, pool)
    frozen = got if op[0] == "info" else tasks.canonical(got)
    return copy.deepcopy(frozen), got, p


def vandalise(got):
    """What a caller may do to a result it owns."""

    def spoil(v):
        if isinstance(v, dict):
            for x in v.values():
                spoil(x)
            v["spoiled"] = 1
        elif isinstance(v, list):
            for x in v:
                spoil(x)
            v.append("spoiled")

    for metrics in got.values():
        for m in metrics:
            spoil(m.value)
            spoil(m.parameters)
        metrics.clear()


def content(objs):
    """Comparable deep content of annotation objects."""

    def freeze(v):
        if isinstance(v, np.ndarray):
            return ("array", str(v.dtype), v.shape, v.tobytes())
        if isinstance(v, (list, tuple)):
            return [type(v).__name__, [freeze(x) for x in v]]
        if isinstance(v, dict):
            return [[k, freeze(x)] for k, x in v.items()]
        if isinstance(v, float) and math.isnan(v):
            return "nan"
        if hasattr(v, "__dict__"):
            return [type(v).__name__, freeze(vars(v))]
        if hasattr(v, "wkt"):
            return v.wkt
        return v

    return freeze(objs)


def scribble(objs):
    """Edit annotations after they were added."""

    for o in objs:
        for name, v in list(vars(o).items()):
            if isinstance(v, np.ndarray):
                v[...] = ~v if v.dtype == bool else v + 1
            elif isinstance(v, dict):
                for k in list(v):
                    v[k] = None
            elif isinstance(v, list):
                if v and hasattr(v[0], "__dict__"):
                    scribble(v)
                v.clear()


def load(task, cfg, path, data, edit=False):
    """Build an evaluator; the objects passed must stay as they were."""
    mod = tasks.MODULES[task]
    fields = list(mod.META)
    loader = mod.loader_for(cfg, path, fields)
    if task == "od":
        objs = mod.objects(
            data, cfg.get("kind", "bbox"), cfg.get("unit", 1), cfg.get("shift", 0)
        )
        add = mod.adder(loader, cfg.get("kind", "bbox"))
    else:
        objs = mod.objects(data)
        add = loader.add_data
    before = content(objs)
    rest = list(objs)
    parts = []
    for n in cfg.get("split", []):
        parts.append(rest[:n])
        rest = rest[n:]
    parts.append(rest)
    for part in parts:
        size = len(part)
        add(part)
        expect(len(part) == size, "the list of data was changed")
        expect(content(objs) == before, "the data were changed by adding them")
        if edit:  # what was added must not follow later edits
            scribble(part)
            before = content(objs)
    kw = {"batch_size": cfg["finalize"]} if "finalize" in cfg else {}
    ev = loader.finalize(**kw)
    expect(content(objs) == before, "the data were changed by finalizing")
    expect(fields == list(mod.META), "the metadata fields were changed")
    return ev


def runner(task):
    def run(case, rec):
        data, pool = case["data"], case["pool"]
        full = task != "cls" or tasks.is_full(data)
        plain = {
            **case["cfg"],
            "backend": "memory",
            "batch_size": 10_000,
            "split": [],
        }
        seen = set()
        calls = 0
        with CaseScratch() as tmp:
            path = f"{tmp}/c"
            main = load(task, case["cfg"], path, data, edit=True)
            disk = case["cfg"]["backend"] == "file"
            evs = [(main, None)]
            if disk:
                evs.append((tasks.EVALUATORS[task].load(path), None))
            n = 0
            for op in case["ops"]:
                n += 1
                if op[0] == "filter":
                    if not op[1]:
                        continue
                    src, prior = evs[0] if op[2] else evs[-1]
                    if prior is not None:
                        src = evs[0][0]
                    kw = {"path": f"{tmp}/f{n}"} if disk else {}
                    try:
                        sub = src.filter(datums=to_expression(op[1]), **kw)
                    except EmptyCacheError:
                        rec.label("empty filter")
                        continue
                    evs.append((sub, op[1]))
                    rec.label("filtered evaluator alive")
                    continue
                if op[0] == "roc" and not full:
                    continue
                ev, prior = evs[op[5] % len(evs)]
                have, got, p = attempt(task, ev, op, pool)
                expect(
                    p == pool[op[1]],
                    "thresholds passed in were changed",
                    p,
                    pool[op[1]],
                )
                fresh = load(task, plain, None, data)
                if prior is not None:
                    fresh = fresh.filter(datums=to_expression(prior))
                want, _, _ = attempt(task, fresh, op, pool)
                if op[0] == "info":
                    for d in (have, want):
                        d.pop("number_of_rows")
                    expect(have == want, f"call {n} ({op}): info", have, want)
                else:
                    tasks.same(
                        {"metrics": want},
                        {"metrics": have},
                        f"call {n} ({op[0]}) differs from a fresh evaluator",
                        info=False,
                    )
                    vandalise(got)
                calls += 1
                seen.add(repr(op[:3]))
        rec.label(task)
        rec.label("several evaluators", len(evs) > 1)
        rec.interesting(calls >= 3 and len(seen) >= 2)

    return run


# ---------------------------------------------------------------------- text


@st.composite
def text_cases(draw):
    return {
        "turns": [
            {
                **draw(tg.conversations()),
                "system": "",
                "retries": 0,
            }
            for _ in range(draw(st.integers(1, 3)))
        ],
        "order": draw(
            st.lists(
                st.tuples(
                    st.integers(0, 2), st.sampled_from(sorted(tg.METHODS))
                ).map(list),
                min_size=2,
                max_size=6,
            )
        ),
    }


class Relay:
    """Hands each request to the model of the current turn."""

    model_name = "scripted"

    def __init__(self):
        self.model = None

    def __call__(self, messages):
        return self.model(messages)


def run_text(case, rec):
    relay = Relay()
    shared = TextEvaluator(
        client=relay, default_system_prompt="", retries=0
    )
    responses = [tg.response_of(t) for t in case["turns"]]
    before = [content([r]) for r in responses]
    n = 0
    for k, m in case["order"]:
        k %= len(responses)
        turn = {**case["turns"][k], "metric": m}
        if m == "Hallucination" and not turn["ctx"]:
            continue
        relay.model = tg.Model(turn)
        got = getattr(shared, tg.METHODS[m])(responses[k])
        tg.check_metric(got, turn, relay.model, relay.model.answers)
        expect(
            [content([r]) for r in responses] == before,
            "a query response was changed",
        )
        got.parameters.clear()
        n += 1
    rec.label("several queries", len(responses) > 1)
    rec.interesting(n >= 2)


TESTS = [
    Test("classification", cases("cls"), runner("cls"), quick=1000, thorough=10000),
    Test("detection", cases("od"), runner("od"), quick=1000, thorough=10000),
    Test("segmentation", cases("seg"), runner("seg"), quick=800, thorough=8000),
    Test("text", text_cases(), run_text, quick=3000, thorough=40000),
]
