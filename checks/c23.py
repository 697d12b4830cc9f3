"""C23: info equals the data."""
import pyarrow as pa
from hypothesis import strategies as st

from vlib import cls, od, seg, tasks
from vlib.common import expect, expressions, holds, to_expression
from vlib.core import CaseScratch, Test

ID = "C23"
RULE = (
    "Random data of each task x storage layouts x metadata field declarations (aliases or pyarrow types, or none) x filter expressions on datums, ground truths "
    "and predictions; oracle counts labels, datums, annotations and pixels in plain Python, on the writing evaluator and after "
    "loading. Non-trivial: a filter that keeps some but not all of what it counts, or data over several files."
)
ASSUMPTIONS = [
    "each filter uses fields of its own level",
    "a detection datum without any annotation is not counted",
]
_datum = expressions(
    {"dk": st.integers(0, 2), "ds": st.sampled_from(["u", "v", ""])}, depth=1
)
_PA = {"int64": pa.int64(), "string": pa.string(), "float64": pa.float64()}


def cases(task):
    @st.composite
    def make(draw):
        data = draw(tasks.datasets(task, distinct=False))
        labels = tasks.labels_of(task, data) or ["x"]
        f = {"datums": draw(st.one_of(st.none(), _datum))}
        if task != "cls":
            f["groundtruths"] = draw(
                st.one_of(
                    st.none(),
                    expressions(
                        {
                            "gt_label": st.sampled_from(labels),
                            "gk": st.integers(0, 2),
                        },
                        depth=1,
                    ),
                )
            )
            f["predictions"] = draw(
                st.one_of(
                    st.none(),
                    expressions(
                        {
                            "pd_label": st.sampled_from(labels),
                            "pk": st.integers(0, 2),
                        },
                        depth=1,
                    ),
                )
            )
        return {
            "data": data,
            "cfg": draw(tasks.storage(task)),
            "filter": f,
            "types": draw(st.sampled_from(["alias", "pyarrow"])),
        }

    return make()


def counts(task, ev, data, f, labels):
    kw = {k: to_expression(v) for k, v in f.items() if v}
    info = ev.get_info(**kw)
    if task == "cls":
        kept = [
            d
            for d in data
            if holds(
                f["datums"],
                {"dk": None, "ds": None, "df": None, **(d["meta"] or {})},
            )
        ]
        expect(info.number_of_datums == len(kept), "datums", info, len(kept))
        expect(info.number_of_labels == len(labels), "labels", info)
        return len(kept) < len(data)
    if task == "od":
        kept = od.apply_filter(data, datums=f["datums"])
        od.check_info(
            info,
            od.apply_filter(
                kept,
                groundtruths=f["groundtruths"],
                predictions=f["predictions"],
            ),
            labels,
            datums=len(od.annotated(kept)),
        )
        return len(od.annotated(kept)) < len(od.annotated(data)) or bool(
            f["groundtruths"] or f["predictions"]
        )
    kept = [d for d in data if holds(f["datums"], seg.datum_row(d))]
    seg.check_info(
        info,
        kept,
        labels,
        seg.pixel_counts(kept, f["groundtruths"], f["predictions"]),
    )
    return len(kept) < len(data) or bool(f["groundtruths"] or f["predictions"])


def runner(task):
    mod = tasks.MODULES[task]

    def run(case, rec):
        data = case["data"]
        labels = tasks.labels_of(task, data)
        meta = [
            (k, v if case["types"] == "alias" else _PA[v]) for k, v in mod.META
        ]
        none = {k: None for k in case["filter"]}
        with CaseScratch() as tmp:
            ev = tasks.build(task, case["cfg"], f"{tmp}/c", data, meta=meta)
            evs = [ev]
            if case["cfg"]["backend"] == "file":
                evs.append(tasks.EVALUATORS[task].load(f"{tmp}/c"))
            for e in evs:
                counts(task, e, data, none, labels)
                cut = counts(task, e, data, case["filter"], labels)
                info = e.info
                expect(
                    {k: str(v) for k, v in info.metadata_fields}
                    == {k: str(v) for k, v in meta},
                    "metadata fields",
                    info.metadata_fields,
                    meta,
                )
                expect(info.number_of_rows > 0, "rows", info)
        rec.label(task)
        rec.label(case["cfg"]["backend"])
        rec.label("filtered", cut)
        rec.interesting(
            cut
            or (
                case["cfg"]["backend"] == "file"
                and case["cfg"]["rows_per_file"] < 4
                and len(data) > 1
            )
        )

    return run


TESTS = [
    Test("classification", cases("cls"), runner("cls"), quick=1800, thorough=20000),
    Test("detection", cases("od"), runner("od"), quick=1800, thorough=20000),
    Test("segmentation", cases("seg"), runner("seg"), quick=1800, thorough=20000),
]
