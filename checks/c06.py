"""C06: classification counts, precision, recall, F1 and accuracy."""
from hypothesis import strategies as st

from vlib import cls
from vlib.common import expect, expressions, holds, to_expression
from vlib.core import CaseScratch, Test

ID = "C06"
RULE = (
    "Random classified datums (1-5 labels, partial predictions, tied, zero and equal-to-threshold scores; bulk cases up to "
    "400 datums x 12 labels, and vocabularies of more than 100000 labels, data whose second half comes 65536 places behind "
    "the first) x threshold lists x hardmax x optional datum filter x storage layout; oracle counts datum by datum in plain "
    "Python. Non-trivial: at least two datums and, at some threshold, both an accepted and a rejected prediction."
)
ASSUMPTIONS = [
    "scores are 0 or at least 1e-7 (below 1e-8 they count as zero); labels within a datum are distinct; uids are distinct",
    "floats compared with relative tolerance 1e-9",
]


@st.composite
def cases(draw):
    return {
        "data": draw(cls.datasets()),
        "thresholds": draw(cls.thresholds),
        "hardmax": draw(st.booleans()),
        "cfg": draw(cls.storage()),
        "filter": draw(
            st.one_of(
                st.none(),
                st.none(),
                expressions(
                    {
                        "dk": st.integers(0, 3),
                        "ds": st.sampled_from(["u", "v", ""]),
                        "df": st.sampled_from([0.0, 0.5, 1.0]),
                    },
                    depth=1,
                ),
            )
        ),
    }


def _evaluate(data, case, rec):
    with CaseScratch() as tmp:
        ev = cls.build(case["cfg"], f"{tmp}/c", data)
        kw = {}
        if case.get("filter"):
            kw["datums"] = to_expression(case["filter"])
        got = ev.compute_precision_recall(
            score_thresholds=list(case["thresholds"]),
            hardmax=case["hardmax"],
            **kw,
        )
    labels = cls.labels_of(data)
    model = [
        d
        for d in cls.model_of(data)
        if holds(case.get("filter"), {"dk": None, "ds": None, "df": None, **d["meta"]})
    ]
    cls.check_precision_recall(
        got, model, labels, case["thresholds"], case["hardmax"]
    )
    rec.label(case["cfg"]["backend"])
    rec.label("hardmax", case["hardmax"])
    rec.label("filter", bool(case.get("filter")))
    rec.label("several thresholds", len(set(case["thresholds"])) > 1)
    acc = any(
        cls.accepted(d, t, False) for d in model for t in case["thresholds"]
    )
    rej = any(
        len(cls.accepted(d, t, case["hardmax"])) < len(d["rows"])
        for d in model
        for t in case["thresholds"]
    )
    rec.label(
        "score equals threshold",
        any(
            s == t and s > 0
            for d in model
            for _, s, _ in d["rows"]
            for t in case["thresholds"]
        ),
    )
    rec.interesting(len(model) > 1 and acc and rej)


def run(case, rec):
    _evaluate(case["data"], case, rec)


@st.composite
def bulks(draw):
    return {
        "bulk": draw(cls.bulk_datasets()),
        "thresholds": draw(cls.thresholds),
        "hardmax": draw(st.booleans()),
        "cfg": {
            "backend": draw(st.sampled_from(["memory", "file"])),
            "batch_size": draw(st.sampled_from([1, 50, 1000, 10_000])),
            "rows_per_file": draw(st.sampled_from([40, 300, 1000, 100_000])),
            "compression": "snappy",
            "finalize": draw(st.sampled_from([1, 10, 1000])),
            "split": [],
        },
    }


def run_bulk(case, rec):
    _evaluate(cls.expand(case["bulk"]), case, rec)


@st.composite
def wides(draw):
    """A few datums whose labels come after a very large vocabulary."""
    return {
        "fill": draw(st.integers(50_005, 52_000)),
        "bulk": {
            "seed": draw(st.integers(0, 2**32)),
            "datums": draw(st.integers(60, 200)),
            "labels": draw(st.integers(6, 12)),
            "full": draw(st.booleans()),
            "grid": draw(st.booleans()),
        },
        "thresholds": draw(
            st.lists(st.sampled_from(cls.GRID), min_size=1, max_size=2)
        ),
        "hardmax": draw(st.booleans()),
        "file": draw(st.booleans()),
    }


def wide_data(case):
    tail = [
        {
            **d,
            "uid": f"t{i}",
            "gt": "t" + d["gt"],
            "pds": [["t" + p, s] for p, s in d["pds"]],
        }
        for i, d in enumerate(cls.expand(case["bulk"]))
    ]
    data = [
        {"uid": f"f{i}", "gt": f"g{i}", "pds": [[f"p{i}", 0.0]], "meta": {}}
        for i in range(case["fill"])
    ] + tail
    cfg = {
        "backend": "file" if case["file"] else "memory",
        "batch_size": 10_000,
        "rows_per_file": 100_000,
        "compression": "snappy",
        "finalize": 1000,
        "split": [],
    }
    return data, tail, cfg


def run_wide(case, rec):
    data, tail, cfg = wide_data(case)
    with CaseScratch() as tmp:
        ev = cls.build(cfg, f"{tmp}/c", data)
        got = ev.compute_precision_recall(
            score_thresholds=list(case["thresholds"]), hardmax=case["hardmax"]
        )
    labels = cls.labels_of(tail)
    every = 2 * case["fill"] + len(labels)
    got = {k: list(v) for k, v in got.items()}
    for k, v in got.items():
        if v and "label" in v[0].parameters:
            expect(
                len(v) == every * len(case["thresholds"]),
                "one value per label and threshold",
                len(v),
            )
            got[k] = [m for m in v if m.parameters["label"][0] == "t"]
    # the filling datums only add to the number of datums
    model = [
        {**d, "rows": []} if i < case["fill"] else d
        for i, d in enumerate(cls.model_of(data))
    ]
    cls.check_precision_recall(
        got, model, labels, case["thresholds"], case["hardmax"]
    )
    rec.label("wide vocabulary")
    rec.interesting(any(cls.accepted(d, 0.0, True) for d in cls.model_of(tail)))


@st.composite
def lates(draw):
    return {
        **draw(bulks()),
        "cfg": cls.late_storage(draw(st.sampled_from(["memory", "file"]))),
        "bulk": draw(cls.late_datasets()),
        "thresholds": [0.5, 0.05, 0.9],
    }


TESTS = [
    Test("small", cases(), run, quick=7000, thorough=60000),
    Test("bulk", bulks(), run_bulk, quick=320, thorough=2500),
    Test("wide", wides(), run_wide, quick=8, thorough=80),
    Test("late", lates(), run_bulk, quick=1, thorough=40),
]
