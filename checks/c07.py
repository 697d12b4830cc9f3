"""C07: ROCAUC equals the rank statistic."""
from hypothesis import strategies as st

from vlib import cls
from vlib.common import expressions, holds, to_expression
from vlib.core import CaseScratch, Test

ID = "C07"
RULE = (
    "Datasets in which every datum scores every label (many tied scores; bulk up to 120 datums x 12 labels) x "
    "storage layouts x merge batch sizes, directly and after filtering datums; oracle is the "
    "Mann-Whitney statistic over all pairs. Non-trivial: some label has both positives and negatives "
    "and an AUC different from 0, 0.5 and 1."
)
ASSUMPTIONS = [
    "every datum scores every label (otherwise the negative population is undefined)",
    "relative tolerance 1e-9",
]


@st.composite
def cases(draw):
    return {
        "data": draw(cls.datasets(full=True, min_datums=2, max_datums=10)),
        "cfg": draw(cls.storage()),
        "filter": draw(
            st.one_of(
                st.none(),
                st.none(),
                expressions(
                    {
                        "dk": st.integers(0, 3),
                        "ds": st.sampled_from(["u", "v"]),
                    },
                    depth=1,
                ),
            )
        ),
    }


def _run(data, case, rec):
    labels = cls.labels_of(data)
    model = cls.model_of(data)
    with CaseScratch() as tmp:
        ev = cls.build(case["cfg"], f"{tmp}/c", data)
        cls.check_rocauc(ev.compute_rocauc(), model, labels)
        want = cls.ref_rocauc(model, labels)
        if case.get("filter"):
            kept = [
                d
                for d in model
                if holds(case["filter"], {"dk": None, "ds": None, **d["meta"]})
            ]
            if kept:
                sub = ev.filter(
                    datums=to_expression(case["filter"]), path=f"{tmp}/f"
                )
                cls.check_rocauc(sub.compute_rocauc(), kept, labels)
                rec.label("filtered", len(kept) < len(model))
        # computing twice gives the same answer
        cls.check_rocauc(ev.compute_rocauc(), model, labels)
    rec.label(case["cfg"]["backend"])
    flat = [s for d in data for _, s in d["pds"]]
    rec.label("tied scores", len(set(flat)) < len(flat))
    rec.interesting(any(v not in (0.0, 0.5, 1.0) for v in want.values()))


def run(case, rec):
    _run(case["data"], case, rec)


@st.composite
def bulks(draw):
    return {
        "bulk": draw(cls.bulk_datasets(max_datums=120, full=True)),
        "cfg": {
            "backend": draw(st.sampled_from(["memory", "file"])),
            "batch_size": draw(st.sampled_from([7, 100, 10_000])),
            "rows_per_file": draw(st.sampled_from([100, 370, 100_000])),
            "compression": "snappy",
            "finalize": draw(st.sampled_from([10, 50, 1000])),
            "split": [],
        },
    }


def run_bulk(case, rec):
    _run(cls.expand(case["bulk"]), case, rec)


TESTS = [
    Test("small", cases(), run, quick=3200, thorough=40000),
    Test("bulk", bulks(), run_bulk, quick=96, thorough=1500),
]
