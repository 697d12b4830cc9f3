"""C13: AP, mAP and precision-recall curves."""
from hypothesis import strategies as st

from vlib import od
from vlib.common import expect, holds, to_expression
from vlib.core import CaseScratch, Test
from checks.c12 import _filter
from valor_lite.object_detection import MetricType

ID = "C13"
RULE = (
    "Random scenes with distinct scores (crowded, contested ground truths, multi-label predictions; bulk up to 120 datums "
    "so that recall falls in many of the 101 bins) x IoU threshold lists x datum filters x storage layouts and "
    "merge batch sizes; oracle ranks all predictions in one list and interpolates in plain Python. "
    "Non-trivial: some label has an AP strictly between 0 and 1."
)
ASSUMPTIONS = [
    "scores are distinct (the order of ties is not defined)",
    "relative tolerance 1e-9",
]


@st.composite
def cases(draw):
    return {
        "data": draw(
            od.datasets(distinct=True, multi=draw(st.integers(0, 3)) == 0)
        ),
        "ious": draw(od.iou_thresholds),
        "scores": draw(od.score_thresholds),
        "cfg": draw(od.storage()),
        "filter": draw(_filter),
    }


@st.composite
def bulks(draw):
    return {
        "bulk": draw(od.bulk_datasets(max_datums=120, multi=True)),
        "ious": draw(od.iou_thresholds),
        "scores": [0.5],
        "cfg": draw(od.bulk_storage()),
        "filter": None,
    }


def _go(data, case, rec):
    if not od.has_annotations(data):
        rec.label("no annotations")
        return
    labels = od.labels_of(data)
    f = case["filter"]
    kept = [d for d in data if holds(f, od.datum_row(d))]
    with CaseScratch() as tmp:
        ev = od.build(case["cfg"], f"{tmp}/c", data)
        got = ev.compute_precision_recall(
            iou_thresholds=list(case["ious"]),
            score_thresholds=list(case["scores"]),
            **({"datums": to_expression(f)} if f else {}),
        )
    ap = od.check_ap(got, kept, labels, case["ious"])
    for m in got[MetricType.PrecisionRecallCurve]:
        for k in ("precisions", "scores"):
            v = m.value[k]
            expect(
                all(a >= b for a, b in zip(v, v[1:])), f"{k} increase with recall", v
            )
    rec.label(case["cfg"]["backend"])
    rec.label("filtered", len(kept) < len(data))
    rec.label(
        "multi-label", any(len(p["rows"]) > 1 for d in data for p in d["pds"])
    )
    rec.interesting(any(0 < v < 1 for v in ap.values()))


def run(case, rec):
    _go(case["data"], case, rec)


def run_bulk(case, rec):
    _go(od.expand(case["bulk"]), case, rec)


TESTS = [
    Test("scenes", cases(), run, quick=6000, thorough=40000),
    Test("bulk", bulks(), run_bulk, quick=192, thorough=2000),
]
