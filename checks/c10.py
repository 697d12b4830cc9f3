"""C10: filtering classifications."""
from hypothesis import strategies as st
from valor_lite.exceptions import EmptyCacheError

from vlib import cls
from vlib.common import expect, expressions, holds, to_expression
from vlib.core import CaseScratch, Test

ID = "C10"
RULE = (
    "Random classified datums (bulk: up to 60 datums or 300 labels) with (partly missing) metadata x filter expressions on datums, ground truths and "
    "predictions x storage layouts x chains of two filters; oracle removes the data from a plain "
    "Python model and recomputes every metric. Non-trivial: the filter keeps some rows and removes others."
)
ASSUMPTIONS = [
    "datum filters only use datum-level fields; ground truth filters ground truth fields; prediction filters prediction fields",
    "uids and labels within a datum are distinct",
]


def _exprs(data):
    labels = cls.labels_of(data)
    uids = [d["uid"] for d in data]
    datum = expressions(
        {
            "dk": st.integers(0, 3),
            "ds": st.sampled_from(["u", "v", ""]),
            "df": st.sampled_from([0.0, 0.5, 1.0]),
            "datum_uid": st.sampled_from(uids),
        },
        depth=1,
    )
    gt = expressions(
        {"gt_label": st.sampled_from(labels), "dk": st.integers(0, 3)}, depth=1
    )
    pd = expressions(
        {
            "pd_label": st.sampled_from(labels),
            "pd_score": st.sampled_from(cls.GRID),
        },
        depth=1,
    )
    return datum, gt, pd


@st.composite
def cases(draw, bulk=False):
    if bulk:
        b = draw(cls.bulk_datasets(max_datums=60))
        data = cls.expand(b)
    else:
        data = draw(cls.datasets(full=draw(st.booleans())))
    datum, gt, pd = _exprs(data)

    def one():
        which = draw(st.sampled_from(["d", "d", "g", "p", "dg", "dp", "dgp", "gp"]))
        return {
            "datums": draw(datum) if "d" in which else None,
            "groundtruths": draw(gt) if "g" in which else None,
            "predictions": draw(pd) if "p" in which else None,
        }

    return {
        **({"bulk": b} if bulk else {"data": data}),
        "thresholds": draw(cls.thresholds),
        "hardmax": draw(st.booleans()),
        "cfg": draw(cls.storage()),
        "filters": [one() for _ in range(draw(st.integers(1, 2)))],
        "limit": draw(st.one_of(st.none(), st.integers(1, 4))),
        "offset": draw(st.integers(0, 3)),
    }


def apply(model, f):
    out = []
    for d in model:
        base = {
            "dk": None,
            "ds": None,
            "df": None,
            **d["meta"],
            "datum_uid": d["uid"],
            "gt_label": d["gt"],
        }
        if not holds(f["datums"], base) or not holds(f["groundtruths"], base):
            continue
        rows = [
            r
            for r in d["rows"]
            if holds(
                f["predictions"], {**base, "pd_label": r[0], "pd_score": r[1]}
            )
        ]
        if rows:
            out.append({**d, "rows": rows})
    return out


def _all(ev, model, labels, case, full, **kw):
    thrs, hm = case["thresholds"], case["hardmax"]
    cls.check_precision_recall(
        ev.compute_precision_recall(
            score_thresholds=list(thrs), hardmax=hm, **kw
        ),
        model,
        labels,
        thrs,
        hm,
    )
    cls.check_confusion(
        ev.compute_confusion_matrix(
            score_thresholds=list(thrs), hardmax=hm, **kw
        ),
        model,
        labels,
        thrs,
        hm,
    )
    cls.check_confusion_examples(
        ev.compute_confusion_matrix_with_examples(
            score_thresholds=list(thrs), hardmax=hm, **kw
        ),
        model,
        labels,
        thrs,
        hm,
    )
    cls.check_examples(
        ev.compute_examples(
            score_thresholds=list(thrs),
            hardmax=hm,
            limit=case["limit"],
            offset=case["offset"],
            **kw,
        ),
        model,
        thrs,
        hm,
        offset=case["offset"],
        limit=case["limit"],
    )
    info = ev.get_info(**kw)
    expect(info.number_of_datums == len(model), "number of datums", info)
    expect(info.number_of_labels == len(labels), "number of labels", info)
    if full and not kw:
        cls.check_rocauc(ev.compute_rocauc(), model, labels)


def run(case, rec):
    data = cls.expand(case["bulk"]) if "bulk" in case else case["data"]
    labels = cls.labels_of(data)
    model = cls.model_of(data)
    full = all(len(d["pds"]) == len(labels) for d in data)
    with CaseScratch() as tmp:
        ev = cls.build(case["cfg"], f"{tmp}/c", data)
        # filter while computing
        f = case["filters"][0]
        if f["datums"]:
            _all(
                ev,
                apply(model, {**f, "groundtruths": None, "predictions": None}),
                labels,
                case,
                full,
                datums=to_expression(f["datums"]),
            )
        # filter into new evaluators
        cur, cur_model = ev, model
        for i, f in enumerate(case["filters"]):
            kw = {k: to_expression(v) for k, v in f.items() if v}
            nxt = apply(cur_model, f)
            path = f"{tmp}/f{i}"
            if not nxt:
                try:
                    cur.filter(path=path, **kw)
                    raise AssertionError("an empty filter result was accepted")
                except EmptyCacheError:
                    rec.label("filtered to nothing")
                break
            new = cur.filter(path=path, **kw)
            full_now = full and all(not x["predictions"] for x in case["filters"][: i + 1])
            _all(new, nxt, labels, case, full_now)
            rec.interesting(
                sum(len(d["rows"]) for d in nxt)
                < sum(len(d["rows"]) for d in cur_model)
            )
            cur, cur_model = new, nxt
        # the original is unchanged
        _all(ev, model, labels, case, full)
    rec.label(case["cfg"]["backend"])
    rec.label("chain", len(case["filters"]) > 1)
    for k in ("datums", "groundtruths", "predictions"):
        rec.label(f"filters {k}", any(f[k] for f in case["filters"]))


TESTS = [
    Test("filters", cases(), run, quick=2200, thorough=20000),
    Test("bulk", cases(bulk=True), run, quick=80, thorough=800),
]
