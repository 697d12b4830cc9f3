"""C09: classification examples name exactly the datums behind the counts."""
from hypothesis import strategies as st

from vlib import cls
from vlib.common import expect, expressions, holds, to_expression
from vlib.core import CaseScratch, Test
from checks.c06 import bulks as count_bulks, wide_data, wides

ID = "C09"
RULE = (
    "Random classified datums with arbitrary identifiers (bulk up to 400 datums, data whose second half comes 65536 places "
    "behind the first, and a vocabulary of more than 100000 labels) x thresholds x hardmax x datum filters x offset/limit "
    "pages x storage layouts; oracle lists datums per cell and per datum in plain Python and compares the counts with the "
    "plain confusion matrix. Non-trivial: at least three datums and some page, filter or misclassification."
)
ASSUMPTIONS = [
    "scores are 0 or at least 1e-3; labels within a datum are distinct",
    "limit is None or positive",
]


@st.composite
def cases(draw):
    data = draw(cls.datasets(max_datums=8))
    return {
        "data": data,
        "thresholds": draw(cls.thresholds),
        "hardmax": draw(st.booleans()),
        "cfg": draw(cls.storage()),
        "offset": draw(st.integers(0, 9)),
        "limit": draw(st.one_of(st.none(), st.integers(1, 4), st.integers(1, 40))),
        "page": draw(st.integers(1, 4)),
        "filter": draw(
            st.one_of(
                st.none(),
                expressions(
                    {
                        "dk": st.integers(0, 3),
                        "ds": st.sampled_from(["u", "v", ""]),
                        "datum_uid": st.sampled_from(
                            [d["uid"] for d in data]
                        ),
                    },
                    depth=1,
                ),
            )
        ),
    }


def run(case, rec):
    data = case["data"]
    thrs = case["thresholds"]
    hm = case["hardmax"]
    labels = cls.labels_of(data)
    model = cls.model_of(data)
    kept = [
        d
        for d in model
        if holds(
            case["filter"],
            {"dk": None, "ds": None, "datum_uid": d["uid"], **d["meta"]},
        )
    ]
    kw = {}
    if case["filter"]:
        kw["datums"] = to_expression(case["filter"])
    with CaseScratch() as tmp:
        ev = cls.build(case["cfg"], f"{tmp}/c", data)
        cls.check_confusion_examples(
            ev.compute_confusion_matrix_with_examples(
                score_thresholds=list(thrs), hardmax=hm, **kw
            ),
            kept,
            labels,
            thrs,
            hm,
        )
        plain = ev.compute_confusion_matrix(
            score_thresholds=list(thrs), hardmax=hm, **kw
        )
        rich = ev.compute_confusion_matrix_with_examples(
            score_thresholds=list(thrs), hardmax=hm, **kw
        )
        for a, b in zip(plain, rich):
            expect(
                a.value["confusion_matrix"]
                == {
                    g: {p: c["count"] for p, c in r.items()}
                    for g, r in b.value["confusion_matrix"].items()
                },
                "counts with and without examples differ",
            )
        cls.check_examples(
            ev.compute_examples(
                score_thresholds=list(thrs), hardmax=hm, **kw
            ),
            kept,
            thrs,
            hm,
        )
        cls.check_examples(
            ev.compute_examples(
                score_thresholds=list(thrs),
                hardmax=hm,
                offset=case["offset"],
                limit=case["limit"],
                **kw,
            ),
            kept,
            thrs,
            hm,
            offset=case["offset"],
            limit=case["limit"],
        )
        got = []
        for off in range(0, len(kept) + case["page"], case["page"]):
            got += ev.compute_examples(
                score_thresholds=list(thrs),
                hardmax=hm,
                offset=off,
                limit=case["page"],
                **kw,
            )
        cls.check_examples(got, kept, thrs, hm)
    rec.label(case["cfg"]["backend"])
    rec.label("repeated identifiers", len({d["uid"] for d in data}) < len(data))
    rec.label("filter", len(kept) < len(model))
    rec.label("paged", case["limit"] is not None or case["offset"] > 0)
    rec.interesting(len(kept) >= 3)


@st.composite
def bulks(draw):
    case = draw(count_bulks())
    n = case["bulk"]["datums"]
    return {
        **case,
        "thresholds": case["thresholds"][:2],
        "filter": None,
        "offset": draw(st.integers(0, n)),
        "limit": draw(st.one_of(st.none(), st.integers(1, n))),
        "page": draw(st.integers(1 + n // 3, n + 1)),
    }


def run_bulk(case, rec):
    run({**case, "data": cls.expand(case["bulk"])}, rec)


def run_wide(case, rec):
    data, tail, cfg = wide_data(case)
    thrs, hm = case["thresholds"], case["hardmax"]
    with CaseScratch() as tmp:
        ev = cls.build(cfg, f"{tmp}/c", data)
        got = ev.compute_examples(
            score_thresholds=list(thrs), hardmax=hm, offset=case["fill"]
        )
    model = cls.model_of(data)
    cls.check_examples(got, model, thrs, hm, offset=case["fill"])
    rec.label("wide vocabulary")
    rec.interesting(any(m.value["true_positives"] for m in got))


@st.composite
def lates(draw):
    return {
        **draw(bulks()),
        "cfg": cls.late_storage("file"),
        "bulk": draw(cls.late_datasets()),
        "thresholds": [0.5],
        "offset": 65_000 + draw(st.integers(0, 1010)),
        "page": draw(st.integers(30_000, 60_000)),
    }


TESTS = [
    Test("examples", cases(), run, quick=3000, thorough=30000),
    Test("bulk", bulks(), run_bulk, quick=64, thorough=800),
    Test("wide", wides(), run_wide, quick=8, thorough=80),
    Test("late", lates(), run_bulk, quick=1, thorough=40),
]
