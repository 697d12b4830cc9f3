"""C24: every metric once, labelled, in range and serialisable."""
import json
import math

from hypothesis import strategies as st

from vlib import tasks
from vlib.common import expect, expressions, to_expression
from vlib.core import CaseScratch, Test

ID = "C24"
RULE = (
    "Random data of each task (labels never predicted, labels without ground truth, datums without annotations) x distinct thresholds x datum filters, also such that "
    "nothing is left; every returned list is compared with the full product of labels and thresholds, every value with its "
    "range, and every metric with its JSON round trip. Non-trivial: two or more labels and two or more threshold combinations."
)
ASSUMPTIONS = [
    "thresholds are distinct",
    "scores are distinct and no two pairs tie in score and IoU",
]
_f = expressions(
    {"dk": st.integers(0, 2), "ds": st.sampled_from(["u", "v", ""])}, depth=1
)


def cases(task):
    @st.composite
    def make(draw):
        return {
            "data": draw(tasks.datasets(task)),
            "params": draw(tasks.params(task, unique=True)),
            "cfg": draw(tasks.storage(task)),
            "filter": draw(st.one_of(st.none(), _f)),
        }

    return make()


def freeze(v):
    return tuple(v) if isinstance(v, list) else v


def expected(task, labels, p):
    """group -> set of parameter dictionaries (as frozen items)."""

    def prod(**axes):
        out = [{}]
        for k, vals in axes.items():
            out = [{**o, k: v} for o in out for v in vals]
        return out

    if task == "seg":
        return {
            **{
                f"all/{t}": prod(label=labels)
                for t in ("Precision", "Recall", "F1", "IOU")
            },
            **{
                f"all/{t}": [{}] for t in ("Accuracy", "mIOU", "ConfusionMatrix")
            },
        }
    s = p["score_thresholds"]
    if task == "cls":
        hm = [p["hardmax"]]
        return {
            **{
                f"pr/{t}": prod(label=labels, score_threshold=s, hardmax=hm)
                for t in ("Counts", "Precision", "Recall", "F1")
            },
            "pr/Accuracy": prod(score_threshold=s, hardmax=hm),
            "cm": prod(score_threshold=s, hardmax=hm),
            "cmx": prod(score_threshold=s, hardmax=hm),
            "roc/ROCAUC": prod(label=labels),
            "roc/mROCAUC": [{}],
        }
    i = p["iou_thresholds"]
    return {
        **{
            f"pr/{t}": prod(label=labels, score_threshold=s, iou_threshold=i)
            for t in ("Counts", "Precision", "Recall", "F1")
        },
        **{
            f"pr/{t}": prod(label=labels, iou_threshold=i)
            for t in ("AP", "PrecisionRecallCurve")
        },
        "pr/mAP": prod(iou_threshold=i),
        "pr/APAveragedOverIOUs": prod(label=labels, iou_thresholds=[i]),
        "pr/mAPAveragedOverIOUs": prod(iou_thresholds=[i]),
        "pr/AR": prod(label=labels, score_threshold=s, iou_thresholds=[i]),
        "pr/mAR": prod(score_threshold=s, iou_thresholds=[i]),
        "pr/ARAveragedOverScores": prod(
            label=labels, score_thresholds=[s], iou_thresholds=[i]
        ),
        "pr/mARAveragedOverScores": prod(
            score_thresholds=[s], iou_thresholds=[i]
        ),
        "cm": prod(score_threshold=s, iou_threshold=i),
        "cmx": prod(score_threshold=s, iou_threshold=i),
    }


TYPE = {
    "cm": "ConfusionMatrix",
    "cmx": "ConfusionMatrixWithExamples",
    "ex": "Examples",
}


def in_range(v, where):
    """Numbers inside a metric's value."""
    if isinstance(v, dict):
        for k, x in v.items():
            in_range(x, where + (k,))
    elif isinstance(v, (list, tuple)):
        for x in v:
            in_range(x, where)
    elif isinstance(v, bool) or v is None:
        raise AssertionError(f"unexpected value {v!r} at {where}")
    elif isinstance(v, int):
        expect(type(v) is int and v >= 0, f"count at {where}", v)
    elif isinstance(v, float):
        expect(
            type(v) is float and math.isfinite(v) and -1e-12 <= v <= 1 + 1e-9,
            f"ratio at {where}",
            v,
        )
    else:
        expect(type(v) is str, f"unexpected type at {where}", type(v))


def listed(v):
    if isinstance(v, dict):
        return {k: listed(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [listed(x) for x in v]
    return v


def runner(task):
    def run(case, rec):
        data, p = case["data"], case["params"]
        labels = tasks.labels_of(task, data)
        roc = task != "cls" or tasks.is_full(data)
        with CaseScratch() as tmp:
            ev = tasks.build(task, case["cfg"], f"{tmp}/c", data)
            groups = [tasks.metrics_of(task, ev, p, roc=roc)]
            if case["filter"]:
                groups.append(
                    tasks.metrics_of(
                        task, ev, p, datums=to_expression(case["filter"]), roc=roc
                    )
                )
        want = expected(task, labels, p)
        for idx, g in enumerate(groups):
            skip_roc = idx or not roc
            for name, combos in want.items():
                if name.startswith("roc") and skip_roc:
                    continue
                if not combos:  # one per label, and there is no label
                    expect(not g.get(name), f"{name} without labels", g)
                    continue
                expect(name in g, f"{name} missing", sorted(g))
                have = sorted(
                    repr(sorted((k, freeze(v)) for k, v in m.parameters.items()))
                    for m in g[name]
                )
                full = sorted(
                    repr(sorted((k, freeze(v)) for k, v in c.items()))
                    for c in combos
                )
                expect(have == full, f"parameters of {name}", have, full)
            if task != "seg":
                per = len(p["score_thresholds"]) * len(p.get("iou_thresholds", [0]))
                expect(len(g["ex"]) % per == 0, "example entries", len(g["ex"]))
            for name, metrics in g.items():
                if name != "ex":
                    expect(name in want, f"unexpected metrics {name}")
                kind = TYPE.get(name, name.split("/")[-1])
                for m in metrics:
                    d = m.to_dict()
                    expect(
                        d["type"] == kind, f"type of {name}", d["type"], kind
                    )
                    expect(
                        set(d) == {"type", "value", "parameters"},
                        "dictionary form",
                        d,
                    )
                    back = json.loads(json.dumps(d, allow_nan=False))
                    expect(back == listed(d), "JSON round trip", back, d)
                    in_range(m.value, (name,))
                    if kind == "Counts":
                        expect(
                            all(type(x) is int for x in m.value.values()),
                            "counts are integers",
                            m.value,
                        )
        rec.label(task)
        rec.label("filtered", bool(case["filter"]))
        n = 1
        for k in ("score_thresholds", "iou_thresholds"):
            n *= len(p.get(k, [0]))
        rec.interesting(len(labels) > 1 and (n > 1 or task == "seg"))

    return run


TESTS = [
    Test("classification", cases("cls"), runner("cls"), quick=1400, thorough=15000),
    Test("detection", cases("od"), runner("od"), quick=1400, thorough=15000),
    Test("segmentation", cases("seg"), runner("seg"), quick=1400, thorough=15000),
]
