"""C08: classification confusion matrices."""
from hypothesis import strategies as st

from vlib import cls
from vlib.common import expect, expressions, holds, to_expression
from vlib.core import CaseScratch, Test

ID = "C08"
RULE = (
    "Random classified datums (partial predictions, tied, zero and equal-to-threshold scores; bulk up to 400 datums x 12 "
    "labels, data whose second half comes 65536 places behind the first) x threshold lists x hardmax x optional datum "
    "filter x storage layout; oracle tallies datum by datum, plus conservation (with hardmax every datum counted once). "
    "Non-trivial: at least two datums and a matrix with an off-diagonal or unmatched entry."
)
ASSUMPTIONS = [
    "scores are 0 or at least 1e-3; labels within a datum are distinct; uids are distinct"
]


@st.composite
def cases(draw):
    return {
        "data": draw(cls.datasets()),
        "thresholds": draw(cls.thresholds),
        "hardmax": draw(st.booleans()),
        "cfg": draw(cls.storage()),
        "filter": draw(
            st.one_of(
                st.none(),
                st.none(),
                expressions(
                    {
                        "dk": st.integers(0, 3),
                        "ds": st.sampled_from(["u", "v", ""]),
                    },
                    depth=1,
                ),
            )
        ),
    }


def _evaluate(data, case, rec):
    with CaseScratch() as tmp:
        ev = cls.build(case["cfg"], f"{tmp}/c", data)
        kw = {}
        if case.get("filter"):
            kw["datums"] = to_expression(case["filter"])
        got = ev.compute_confusion_matrix(
            score_thresholds=list(case["thresholds"]),
            hardmax=case["hardmax"],
            **kw,
        )
    labels = cls.labels_of(data)
    model = [
        d
        for d in cls.model_of(data)
        if holds(case.get("filter"), {"dk": None, "ds": None, **d["meta"]})
    ]
    cls.check_confusion(
        got, model, labels, case["thresholds"], case["hardmax"]
    )
    off = False
    for m in got:
        cm = m.value["confusion_matrix"]
        um = m.value["unmatched_ground_truths"]
        total = sum(sum(r.values()) for r in cm.values()) + sum(um.values())
        if case["hardmax"]:
            expect(
                total == len(model),
                "datums not conserved",
                total,
                len(model),
            )
        off |= any(
            cm[g][p] for g in labels for p in labels if g != p
        ) or any(um.values())
    rec.label(case["cfg"]["backend"])
    rec.label("hardmax", case["hardmax"])
    rec.label("filter", bool(case.get("filter")))
    rec.label("several thresholds", len(set(case["thresholds"])) > 1)
    rec.interesting(len(model) > 1 and off)


def run(case, rec):
    _evaluate(case["data"], case, rec)


@st.composite
def bulks(draw):
    return {
        "bulk": draw(cls.bulk_datasets()),
        "thresholds": draw(cls.thresholds),
        "hardmax": draw(st.booleans()),
        "cfg": {
            "backend": draw(st.sampled_from(["memory", "file"])),
            "batch_size": draw(st.sampled_from([1, 50, 1000, 10_000])),
            "rows_per_file": draw(st.sampled_from([40, 300, 1000, 100_000])),
            "compression": "snappy",
            "finalize": 1000,
            "split": [],
        },
    }


def run_bulk(case, rec):
    _evaluate(cls.expand(case["bulk"]), case, rec)


@st.composite
def lates(draw):
    return {
        **draw(bulks()),
        "cfg": cls.late_storage("file"),
        "bulk": draw(cls.late_datasets()),
        "thresholds": [0.5, 0.05, 0.9],
    }


TESTS = [
    Test("small", cases(), run, quick=7000, thorough=60000),
    Test("bulk", bulks(), run_bulk, quick=240, thorough=2000),
    Test("late", lates(), run_bulk, quick=1, thorough=40),
]
