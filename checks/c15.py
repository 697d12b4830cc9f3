"""C15: detection examples."""
from hypothesis import strategies as st

from vlib import od
from vlib.common import expect, holds, to_expression
from vlib.core import CaseScratch, Test
from checks.c12 import _filter, wide_data, wides

ID = "C15"
RULE = (
    "Random scenes (identifiers repeated over datums, multi-label predictions, empty datums; bulk up to 60 datums; datums, "
    "ground truths and predictions numbered beyond 16 bits; a vocabulary of more than 100000 labels) x threshold lists x "
    "datum filters x offset/limit pages x storage layouts; oracle lists the identifiers in plain Python and compares the "
    "counts with the plain confusion matrix. Non-trivial: a page that is a proper non-empty part, or a matrix cell with "
    "examples of two datums."
)
ASSUMPTIONS = [
    "pairs of one datum with equal score and equal IoU are excluded (their order is not defined)",
    "limits are positive",
]


@st.composite
def cases(draw):
    return {
        "data": draw(
            od.datasets(
                distinct=draw(st.booleans()),
                multi=draw(st.integers(0, 2)) == 0,
                order="pair",
                max_datums=7,
            )
        ),
        "ious": draw(od.iou_thresholds),
        "scores": draw(od.score_thresholds),
        "cfg": draw(od.storage()),
        "filter": draw(_filter),
        "limit": draw(st.one_of(st.none(), st.integers(1, 4))),
        "offset": draw(st.integers(0, 5)),
    }


def run(case, rec):
    data = case["data"]
    if not od.has_annotations(data):
        rec.label("no annotations")
        return
    labels = od.labels_of(data)
    f = case["filter"]
    kept = [d for d in data if holds(f, od.datum_row(d))]
    kw = {
        "iou_thresholds": list(case["ious"]),
        "score_thresholds": list(case["scores"]),
        **({"datums": to_expression(f)} if f else {}),
    }
    with CaseScratch() as tmp:
        ev = od.build(case["cfg"], f"{tmp}/c", data)
        plain = ev.compute_confusion_matrix(**kw)
        rich = ev.compute_confusion_matrix_with_examples(**kw)
        every = ev.compute_examples(**kw)
        page = ev.compute_examples(
            limit=case["limit"], offset=case["offset"], **kw
        )
    od.check_confusion_examples(rich, kept, labels, case["ious"], case["scores"])
    for a, b in zip(plain, rich):
        for g in labels:
            expect(
                a.value["unmatched_ground_truths"][g]
                == b.value["unmatched_ground_truths"][g]["count"]
                and a.value["unmatched_predictions"][g]
                == b.value["unmatched_predictions"][g]["count"],
                "unmatched counts differ from the plain matrix",
                a.value,
                b.value,
            )
            for p in labels:
                expect(
                    a.value["confusion_matrix"][g][p]
                    == b.value["confusion_matrix"][g][p]["count"],
                    "counts differ from the plain matrix",
                    a.value,
                    b.value,
                )
    od.check_examples(every, kept, case["ious"], case["scores"])
    od.check_examples(
        page,
        kept,
        case["ious"],
        case["scores"],
        offset=case["offset"],
        limit=case["limit"],
    )
    rec.label(case["cfg"]["backend"])
    rec.label("filtered", len(kept) < len(data))
    rec.label(
        "multi-label", any(len(p["rows"]) > 1 for d in data for p in d["pds"])
    )
    two = any(
        len({e["datum_id"] for e in cell["examples"]}) > 1
        for m in rich
        for r in m.value["confusion_matrix"].values()
        for cell in r.values()
    )
    rec.label("cell spans datums", two)
    rec.interesting(two or 0 < len(page) < len(every))


@st.composite
def bulks(draw):
    return {
        "bulk": draw(od.bulk_datasets(max_datums=40, multi=True, order="pair")),
        "ious": draw(od.iou_thresholds)[:2],
        "scores": draw(od.score_thresholds)[:2],
        "cfg": draw(od.bulk_storage()),
        "filter": None,
        "limit": draw(st.one_of(st.none(), st.integers(1, 40))),
        "offset": draw(st.integers(0, 50)),
    }


def run_bulk(case, rec):
    run({**case, "data": od.expand(case["bulk"])}, rec)


def run_wide(case, rec):
    filler, tail, cfg = wide_data(case)
    with CaseScratch() as tmp:
        ev = od.build(cfg, f"{tmp}/c", [filler] + tail)
        got = ev.compute_examples(
            iou_thresholds=[case["iou"]], score_thresholds=[case["score"]]
        )
    od.check_examples(got, [filler] + tail, [case["iou"]], [case["score"]])
    rec.label("wide vocabulary")
    rec.interesting(any(m.value["true_positives"] for m in got))


@st.composite
def lates(draw):
    return {
        **draw(bulks()),
        "cfg": draw(od.late_storage()),
        "bulk": draw(od.late_datasets(order="pair")),
    }


TESTS = [
    Test("scenes", cases(), run, quick=4200, thorough=30000),
    Test("bulk", bulks(), run_bulk, quick=96, thorough=1200),
    Test("wide", wides(), run_wide, quick=4, thorough=40),
    Test("late", lates(), run_bulk, quick=16, thorough=64),
]
