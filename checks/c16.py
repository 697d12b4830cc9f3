"""C16: filtering detections."""
from hypothesis import strategies as st
from valor_lite.exceptions import EmptyCacheError

from vlib import od
from vlib.common import expressions, to_expression
from vlib.core import CaseScratch, Test

ID = "C16"
RULE = (
    "Random scenes (bulk: up to 20 images, 150 objects in an image, or 300 labels) with (partly missing) metadata on datums, ground truths and predictions x filter expressions on each of the three x "
    "chains of up to two filters x storage layouts; oracle removes the data from a plain Python model and recomputes "
    "every metric, and a second evaluator is loaded from the reduced data. Non-trivial: the filter keeps some annotations and removes others."
)
ASSUMPTIONS = [
    "datum filters use datum fields, ground truth filters ground truth fields and prediction filters prediction fields, with distinct metadata names",
    "pairs of one datum with equal score and equal IoU are excluded; scores are distinct",
]


def _exprs(data):
    labels = od.labels_of(data) or ["x"]
    uids = [d["uid"] for d in data]
    return {
        "datums": expressions(
            {
                "dk": st.integers(0, 2),
                "ds": st.sampled_from(["u", "v", ""]),
                "datum_uid": st.sampled_from(uids),
            },
            depth=1,
        ),
        "groundtruths": expressions(
            {
                "gt_label": st.sampled_from(labels),
                "gk": st.integers(0, 2),
                "gs": st.sampled_from(["s", "t"]),
            },
            depth=1,
        ),
        "predictions": expressions(
            {
                "pd_label": st.sampled_from(labels),
                "pk": st.integers(0, 2),
                "pd_score": st.sampled_from(od.SCORES),
            },
            depth=1,
        ),
    }


@st.composite
def cases(draw, bulk=False):
    if bulk:
        b = draw(od.bulk_datasets(max_datums=20, multi=True, order="pair"))
        data = od.expand(b)
    else:
        data = draw(
            od.datasets(
                distinct=True,
                multi=draw(st.integers(0, 2)) == 0,
                order="pair",
                max_datums=5,
            )
        )
    ex = _exprs(data)

    def one():
        which = draw(
            st.sampled_from(["d", "g", "g", "p", "p", "dg", "dp", "dgp", "gp"])
        )
        return {
            k: draw(ex[k]) if k[0] in which else None
            for k in ("datums", "groundtruths", "predictions")
        }

    return {
        **({"bulk": b} if bulk else {"data": data}),
        "ious": draw(st.lists(st.sampled_from(od.IOUS), min_size=1, max_size=2)),
        "scores": draw(
            st.lists(st.sampled_from([0.0, 0.3, 0.7]), min_size=1, max_size=2)
        ),
        "cfg": draw(od.bulk_storage() if bulk else od.storage()),
        "filters": [one() for _ in range(draw(st.integers(1, 2)))],
        "batch": draw(st.sampled_from([1, 3, 1000])),
    }


def _all(ev, data, labels, case, **kw):
    args = {
        "iou_thresholds": list(case["ious"]),
        "score_thresholds": list(case["scores"]),
        **kw,
    }
    pr = ev.compute_precision_recall(**args)
    od.check_counts(pr, data, labels, case["ious"], case["scores"])
    od.check_ap(pr, data, labels, case["ious"])
    od.check_confusion(
        ev.compute_confusion_matrix(**args),
        data,
        labels,
        case["ious"],
        case["scores"],
    )
    od.check_confusion_examples(
        ev.compute_confusion_matrix_with_examples(**args),
        data,
        labels,
        case["ious"],
        case["scores"],
    )
    od.check_examples(
        ev.compute_examples(**args), data, case["ious"], case["scores"]
    )
    od.check_info(ev.get_info(**kw), data, labels)


def run(case, rec):
    data = od.expand(case["bulk"]) if "bulk" in case else case["data"]
    if not od.has_annotations(data):
        rec.label("no annotations")
        return
    labels = od.labels_of(data)
    with CaseScratch() as tmp:
        ev = od.build(case["cfg"], f"{tmp}/c", data)
        f = case["filters"][0]
        if f["datums"]:
            _all(
                ev,
                od.apply_filter(data, datums=f["datums"]),
                labels,
                case,
                datums=to_expression(f["datums"]),
            )
        od.check_info(
            ev.get_info(**{k: to_expression(v) for k, v in f.items() if v}),
            od.apply_filter(data, **f),
            labels,
            # datums are counted by the datum filter alone
            datums=len(
                od.annotated(od.apply_filter(data, datums=f["datums"]))
            ),
        )
        cur, cur_data = ev, data
        for i, f in enumerate(case["filters"]):
            kw = {k: to_expression(v) for k, v in f.items() if v}
            nxt = od.apply_filter(cur_data, **f)
            path = f"{tmp}/f{i}"
            if not od.has_annotations(nxt):
                try:
                    cur.filter(path=path, batch_size=case["batch"], **kw)
                    raise AssertionError("an empty filter result was accepted")
                except EmptyCacheError:
                    rec.label("filtered to nothing")
                break
            new = cur.filter(path=path, batch_size=case["batch"], **kw)
            _all(new, nxt, labels, case)
            size = lambda x: sum(
                len(d["gts"]) + sum(len(p["rows"]) for p in d["pds"]) for d in x
            )
            rec.interesting(size(nxt) < size(cur_data))
            cur, cur_data = new, nxt
        _all(ev, data, labels, case)
    rec.label(case["cfg"]["backend"])
    rec.label("chain", len(case["filters"]) > 1)
    for k in ("datums", "groundtruths", "predictions"):
        rec.label(f"filters {k}", any(f[k] for f in case["filters"]))


TESTS = [
    Test("filters", cases(), run, quick=2100, thorough=15000),
    Test("bulk", cases(bulk=True), run, quick=48, thorough=600),
]
