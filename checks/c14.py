"""C14: detection confusion matrices."""
from hypothesis import strategies as st

from vlib import od
from vlib.common import expect, holds, to_expression
from vlib.core import CaseScratch, Test
from checks.c12 import _filter

ID = "C14"
RULE = (
    "Random scenes (crowded rectangles, cross-label overlaps, tied scores told apart by IoU, multi-label predictions, zero "
    "scores; bulk up to 60 datums; datums, ground truths and predictions numbered beyond 16 bits) x threshold lists x datum "
    "filters x storage layouts; oracle pairs greedily in plain Python; for single-label predictions also the conservation "
    "of ground truths and predictions per label. Non-trivial: a counted pair and an unmatched annotation, in a datum with "
    "at least two overlapping pairs."
)
ASSUMPTIONS = [
    "pairs of one datum with equal score and equal IoU are excluded (their order is not defined)",
]


@st.composite
def cases(draw):
    return {
        "data": draw(
            od.datasets(
                distinct=draw(st.booleans()),
                multi=draw(st.integers(0, 2)) == 0,
                order="pair",
            )
        ),
        "ious": draw(od.iou_thresholds),
        "scores": draw(od.score_thresholds),
        "cfg": draw(od.storage()),
        "filter": draw(_filter),
    }


@st.composite
def bulks(draw):
    return {
        "bulk": draw(od.bulk_datasets(multi=True, order="pair")),
        "ious": draw(od.iou_thresholds),
        "scores": draw(od.score_thresholds),
        "cfg": draw(od.bulk_storage()),
        "filter": None,
    }


def _go(data, case, rec):
    if not od.has_annotations(data):
        rec.label("no annotations")
        return
    labels = od.labels_of(data)
    f = case["filter"]
    kept = [d for d in data if holds(f, od.datum_row(d))]
    with CaseScratch() as tmp:
        ev = od.build(case["cfg"], f"{tmp}/c", data)
        got = ev.compute_confusion_matrix(
            iou_thresholds=list(case["ious"]),
            score_thresholds=list(case["scores"]),
            **({"datums": to_expression(f)} if f else {}),
        )
    od.check_confusion(got, kept, labels, case["ious"], case["scores"])
    multi = any(len(p["rows"]) > 1 for d in data for p in d["pds"])
    if not multi:
        n = od.gt_counts(kept, labels)
        for m in got:
            v = m.value
            thr = m.parameters["score_threshold"]
            for lab in labels:
                expect(
                    sum(v["confusion_matrix"][lab].values())
                    + v["unmatched_ground_truths"][lab]
                    == n[lab],
                    "ground truths are not conserved",
                    lab,
                    v,
                )
                expect(
                    sum(v["confusion_matrix"][g][lab] for g in labels)
                    + v["unmatched_predictions"][lab]
                    == sum(
                        1
                        for d in kept
                        for p in d["pds"]
                        for x, s in p["rows"]
                        if x == lab and s > 0 and s >= thr
                    ),
                    "predictions are not conserved",
                    lab,
                    v,
                )
    rec.label(case["cfg"]["backend"])
    rec.label("multi-label", multi)
    rec.label("filtered", len(kept) < len(data))
    parts = [od.classify(d, case["ious"][0], case["scores"][0]) for d in kept]
    crowded = any(
        sum(
            1
            for g in d["gts"]
            for p in d["pds"]
            if od.iou(g["box"], p["box"]) > 0
        )
        > 1
        for d in kept
    )
    rec.label("mislabelled pair", any(x[2] != x[3] for m, _, _ in parts for x in m))
    rec.interesting(
        bool(
            crowded
            and any(m for m, _, _ in parts)
            and any(a or b for _, a, b in parts)
        )
    )


def run(case, rec):
    _go(case["data"], case, rec)


def run_bulk(case, rec):
    _go(od.expand(case["bulk"]), case, rec)


@st.composite
def lates(draw):
    return {
        **draw(bulks()),
        "cfg": draw(od.late_storage()),
        "bulk": draw(od.late_datasets(order="pair")),
    }


TESTS = [
    Test("scenes", cases(), run, quick=6000, thorough=50000),
    Test("bulk", bulks(), run_bulk, quick=192, thorough=2000),
    Test("late", lates(), run_bulk, quick=16, thorough=64),
]
