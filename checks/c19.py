"""C19: filtering segmentations."""
from hypothesis import strategies as st
from valor_lite.exceptions import EmptyCacheError

from vlib import seg
from vlib.common import expressions, holds, to_expression
from vlib.core import CaseScratch, Test

ID = "C19"
RULE = (
    "Random label maps (bulk: up to 12 images of 60x60) with (partly missing) metadata on datums and masks x filter expressions on datums, ground truths and predictions x "
    "chains of up to two filters x storage layouts; oracle unlabels the removed masks pixel by pixel and recounts. "
    "Non-trivial: the filter removes some labelled pixels and keeps others."
)
ASSUMPTIONS = [
    "datum filters use datum fields, ground truth filters ground truth fields and prediction filters prediction fields, with distinct metadata names",
    "masks of one side in one datum that share a label share their metadata",
]


@st.composite
def cases(draw, bulk=False):
    if bulk:
        b = draw(seg.bulk_datasets())
        data = seg.expand(b)
    else:
        data = draw(seg.datasets())
    labels = seg.labels_of(data) or ["x"]
    ex = {
        "datums": expressions(
            {
                "dk": st.integers(0, 2),
                "ds": st.sampled_from(["u", "v", ""]),
                "datum_uid": st.sampled_from([d["uid"] for d in data]),
            },
            depth=1,
        ),
        "groundtruths": expressions(
            {"gt_label": st.sampled_from(labels), "gk": st.integers(0, 2)}, depth=1
        ),
        "predictions": expressions(
            {"pd_label": st.sampled_from(labels), "pk": st.integers(0, 2)}, depth=1
        ),
    }

    def one():
        which = draw(
            st.sampled_from(["d", "g", "g", "p", "p", "dg", "dp", "dgp", "gp"])
        )
        return {
            k: draw(ex[k]) if k[0] in which else None
            for k in ("datums", "groundtruths", "predictions")
        }

    return {
        **({"bulk": b} if bulk else {"data": data}),
        "cfg": draw(seg.storage()),
        "filters": [one() for _ in range(draw(st.integers(1, 2)))],
    }


def both(a, b):
    return a if b is None else b if a is None else ["and", a, b]


def run(case, rec):
    data = seg.expand(case["bulk"]) if "bulk" in case else case["data"]
    labels = seg.labels_of(data)
    rec.label("no labels", not labels)
    full = seg.pixel_counts(data)
    with CaseScratch() as tmp:
        ev = seg.build(case["cfg"], f"{tmp}/c", data)
        f = case["filters"][0]
        kept = [d for d in data if holds(f["datums"], seg.datum_row(d))]
        kw = {k: to_expression(v) for k, v in f.items() if v}
        seg.check_info(
            ev.get_info(**kw),
            kept,
            labels,
            seg.pixel_counts(kept, f["groundtruths"], f["predictions"]),
        )
        if f["datums"]:
            seg.check_metrics(
                ev.compute_precision_recall_iou(datums=kw["datums"]),
                seg.pixel_counts(kept),
                labels,
            )
        cur, cur_data, gf, pf = ev, data, None, None
        for i, f in enumerate(case["filters"]):
            kw = {k: to_expression(v) for k, v in f.items() if v}
            nxt = [d for d in cur_data if holds(f["datums"], seg.datum_row(d))]
            gf, pf = both(gf, f["groundtruths"]), both(pf, f["predictions"])
            if not nxt:
                try:
                    cur.filter(path=f"{tmp}/f{i}", **kw)
                    raise AssertionError("an empty filter result was accepted")
                except EmptyCacheError:
                    rec.label("filtered to nothing")
                break
            new = cur.filter(path=f"{tmp}/f{i}", **kw)
            counts = seg.pixel_counts(nxt, gf, pf)
            seg.check_metrics(new.compute_precision_recall_iou(), counts, labels)
            seg.check_info(new.info, nxt, labels, counts)
            lab = lambda c: sum(
                n for (g, p), n in c.items() if g is not None or p is not None
            )
            rec.interesting(0 < lab(counts) < lab(full))
            cur, cur_data = new, nxt
        seg.check_metrics(ev.compute_precision_recall_iou(), full, labels)
        seg.check_info(ev.info, data, labels, full)
    rec.label(case["cfg"]["backend"])
    rec.label("chain", len(case["filters"]) > 1)
    for k in ("datums", "groundtruths", "predictions"):
        rec.label(f"filters {k}", any(f[k] for f in case["filters"]))


TESTS = [
    Test("filters", cases(), run, quick=3000, thorough=30000),
    Test("bulk", cases(bulk=True), run, quick=120, thorough=1200),
]
