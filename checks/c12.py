"""C12: detection counts, precision, recall, F1, AR."""
from hypothesis import strategies as st

from vlib import od
from vlib.common import expect, expressions, holds, to_expression
from vlib.core import CaseScratch, Test
from valor_lite.object_detection import MetricType

ID = "C12"
RULE = (
    "Random scenes of rectangles (boxes, polygons or bitmasks; crowded, jittered copies, tied and zero scores, multi-label "
    "predictions, datums without annotations; bulk up to 60 datums; datums, ground truths and predictions numbered beyond "
    "16 bits; a vocabulary of more than 100000 labels) x IoU and score threshold lists x optional datum filter x storage "
    "layouts; oracle is a plain-Python matcher with exact IoU. Non-trivial: some true positive, some false positive or "
    "false negative, and two predictions competing for a ground truth or an IoU below a threshold."
)
ASSUMPTIONS = [
    "predictions equally close to two same-label ground truths are excluded (outcome undefined)",
    "a multi-label prediction competes with its labels that overlap a ground truth of the same label, or with all if none does",
    "relative tolerance 1e-9 on ratios, counts exact",
]

_filter = st.one_of(
    st.none(),
    st.none(),
    expressions(
        {"dk": st.integers(0, 2), "ds": st.sampled_from(["u", "v", ""])}, depth=1
    ),
)


@st.composite
def cases(draw):
    return {
        "data": draw(od.datasets(multi=draw(st.integers(0, 3)) == 0)),
        "ious": draw(od.iou_thresholds),
        "scores": draw(od.score_thresholds),
        "cfg": draw(od.storage()),
        "filter": draw(_filter),
    }


@st.composite
def bulks(draw):
    return {
        "bulk": draw(od.bulk_datasets(multi=True)),
        "ious": draw(od.iou_thresholds),
        "scores": draw(od.score_thresholds),
        "cfg": draw(od.bulk_storage()),
        "filter": None,
    }


def _go(data, case, rec):
    if not od.has_annotations(data):
        rec.label("no annotations")
        return
    labels = od.labels_of(data)
    f = case["filter"]
    kept = [d for d in data if holds(f, od.datum_row(d))]
    with CaseScratch() as tmp:
        ev = od.build(case["cfg"], f"{tmp}/c", data)
        got = ev.compute_precision_recall(
            iou_thresholds=list(case["ious"]),
            score_thresholds=list(case["scores"]),
            **({"datums": to_expression(f)} if f else {}),
        )
    od.check_counts(got, kept, labels, case["ious"], case["scores"])
    rec.label(case["cfg"]["backend"])
    rec.label(case["cfg"]["kind"])
    rec.label("filtered", len(kept) < len(data))
    rec.label(
        "multi-label", any(len(p["rows"]) > 1 for d in data for p in d["pds"])
    )
    rows = od.ranked_rows(kept)
    targets = [r[3] for r in rows if r[3] is not None]
    contested = len(set(targets)) < len(targets)
    rec.label("contested ground truth", contested)
    c = od.ref_counts(kept, labels, case["ious"][0], case["scores"][0])
    tp = sum(x["tp"] for x in c.values())
    rest = sum(x["fp"] + x["fn"] for x in c.values())
    below = any(0 < r[2] < t for r in rows for t in case["ious"])
    rec.interesting(bool(tp and rest and (contested or below)))


def run(case, rec):
    _go(case["data"], case, rec)


def run_bulk(case, rec):
    _go(od.expand(case["bulk"]), case, rec)


@st.composite
def wides(draw):
    """A few scenes whose labels come after a very large vocabulary."""
    return {
        "fill": draw(st.integers(100_005, 101_000)),
        "bulk": {
            "seed": draw(st.integers(0, 2**32)),
            "datums": draw(st.integers(120, 160)),
            "labels": draw(st.integers(6, 12)),
            "objects": 8,
            "multi": False,
            "order": "pair",
        },
        "iou": draw(st.sampled_from([0.1, 0.5])),
        "score": draw(st.sampled_from([0.0, 0.25])),
        "file": draw(st.booleans()),
    }


def wide_data(case):
    tail = [
        {
            **d,
            "uid": f"t{i}",
            "gts": [{**g, "label": "t" + g["label"]} for g in d["gts"]],
            "pds": [
                {**p, "rows": [["t" + x, s] for x, s in p["rows"]]}
                for p in d["pds"]
            ],
        }
        for i, d in enumerate(od.expand(case["bulk"]))
    ]
    filler = {
        "uid": "f",
        "gts": [
            {"uid": f"f{i}", "label": f"f{i}", "box": [0, 1, 0, 1], "meta": {}}
            for i in range(case["fill"])
        ],
        "pds": [],
        "meta": {},
    }
    cfg = {
        "backend": "file" if case["file"] else "memory",
        "batch_size": 10_000,
        "rows_per_file": 100_000,
        "compression": "snappy",
        "finalize": 1000,
        "split": [],
        "kind": "bbox",
        "unit": 1,
        "shift": 0,
    }
    return filler, tail, cfg


def run_wide(case, rec):
    filler, tail, cfg = wide_data(case)
    with CaseScratch() as tmp:
        ev = od.build(cfg, f"{tmp}/c", [filler] + tail)
        got = ev.compute_precision_recall(
            iou_thresholds=[case["iou"]], score_thresholds=[case["score"]]
        )
    labels = od.labels_of(tail)
    every = case["fill"] + len(labels)
    got = {k: list(v) for k, v in got.items()}
    for k, v in got.items():
        if v and "label" in v[0].parameters:
            expect(len(v) == every, "one value per label", k, len(v))
            got[k] = [m for m in v if m.parameters["label"][0] == "t"]
    # no label of the filling datum is ever predicted: its recalls are 0
    for k in (MetricType.mAR, MetricType.mARAveragedOverScores):
        for m in got[k]:
            m.value = m.value * every / len(labels)
    od.check_counts(got, tail, labels, [case["iou"]], [case["score"]])
    rec.label("wide vocabulary")
    c = od.ref_counts(tail, labels, case["iou"], case["score"])
    rec.interesting(
        any(x["tp"] for x in c.values()) and any(x["fp"] for x in c.values())
    )


@st.composite
def lates(draw):
    return {
        **draw(bulks()),
        "cfg": draw(od.late_storage()),
        "bulk": draw(od.late_datasets(order="iou")),
    }


TESTS = [
    Test("scenes", cases(), run, quick=7200, thorough=50000),
    Test("bulk", bulks(), run_bulk, quick=192, thorough=2000),
    Test("wide", wides(), run_wide, quick=1, thorough=8),
    Test("late", lates(), run_bulk, quick=16, thorough=64),
]
