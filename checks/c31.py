"""C31: thresholds are independent and monotone."""
from hypothesis import strategies as st

from vlib import tasks
from vlib.common import approx_equal, expect
from vlib.core import CaseScratch, Test

ID = "C31"
RULE = (
    "Random data x a list of thresholds; the metrics reported for each threshold inside a random list (repeats, any order) are compared with those of a call for that threshold alone, "
    "and along sorted thresholds counts, recall, AP and AR must not increase. Non-trivial: some count changes along the thresholds."
)
ASSUMPTIONS = [
    "datum identifiers are distinct; scores are distinct and no two pairs tie in score and IoU",
    "classification recall is monotone only when every datum's true label is among its predictions",
]


def cases(task):
    @st.composite
    def make(draw):
        data = draw(tasks.datasets(task, repeats=False))
        if task == "od":
            p = {
                "iou_thresholds": draw(
                    st.lists(
                        st.one_of(
                            st.sampled_from(tasks.od.IOUS), st.floats(0.01, 1)
                        ),
                        min_size=2,
                        max_size=4,
                    )
                ),
                "score_thresholds": draw(
                    st.lists(
                        st.one_of(
                            st.sampled_from([0.0] + tasks.od.SCORES),
                            st.floats(0, 1),
                        ),
                        min_size=2,
                        max_size=4,
                    )
                ),
            }
        else:
            p = {
                "score_thresholds": draw(
                    st.lists(
                        st.one_of(
                            st.sampled_from(tasks.cls.GRID), st.floats(0, 1)
                        ),
                        min_size=2,
                        max_size=5,
                    )
                ),
                "hardmax": draw(st.booleans()),
            }
        return {"data": data, "params": p, "cfg": draw(tasks.storage(task))}

    return make()


def per_threshold(groups):
    """Metrics that belong to a single threshold (pair)."""
    out = {}
    for key, v in tasks.canonical(groups).items():
        names = dict(key[2])
        if "iou_thresholds" in names or "score_thresholds" in names:
            continue
        out[key] = v
    return out


def runner(task):
    def run(case, rec):
        data, p = case["data"], case["params"]
        with CaseScratch() as tmp:
            ev = tasks.build(task, case["cfg"], f"{tmp}/c", data)
            many = per_threshold(tasks.metrics_of(task, ev, p, roc=False))
            single = {}
            ar = {}
            ious = dict.fromkeys(p.get("iou_thresholds", [None]))
            for t in ious:
                for s in dict.fromkeys(p["score_thresholds"]):
                    q = {**p, "score_thresholds": [s]}
                    if t is not None:
                        q["iou_thresholds"] = [t]
                    g = tasks.metrics_of(task, ev, q, roc=False)
                    single.update(per_threshold(g))
                    for m in g.get("pr/AR", []):
                        ar[m.parameters["label"], t, s] = m.value
            expect(
                set(many) == set(single),
                "metrics of a list and of its members",
                sorted(set(many) ^ set(single), key=repr)[:3],
            )
            for k in single:
                for v in many[k]:
                    expect(
                        approx_equal(v, single[k][0]),
                        f"{k} depends on the other thresholds",
                        v,
                        single[k][0],
                    )
        # monotonicity
        covered = task == "od" or all(
            d["gt"] in [x for x, _ in d["pds"]] for d in data
        )
        value = {}
        for (g, kind, par, *_), v in single.items():
            par = dict(par)
            if "label" in par and kind in ("Counts", "Recall", "AP"):
                value[
                    kind,
                    par["label"],
                    par.get("iou_threshold"),
                    par.get("score_threshold"),
                ] = v[0]
        changed = False

        def check(kind, seq, where):
            nonlocal changed
            for a, b in zip(seq, seq[1:]):
                expect(
                    b <= a + 1e-12, f"{kind} increases with the threshold", where, seq
                )
                changed = changed or a != b

        labels = tasks.labels_of(task, data)
        ss = sorted(set(p["score_thresholds"]))
        ts = sorted(ious) if task == "od" else [None]
        for lab in labels:
            for t in ts:
                seq = [value["Counts", lab, t, s] for s in ss]
                check("tp", [c["tp"] for c in seq], (lab, t))
                check("fp", [c["fp"] for c in seq], (lab, t))
                if covered:
                    check(
                        "recall",
                        [value["Recall", lab, t, s] for s in ss],
                        (lab, t),
                    )
            if task == "od":
                for s in ss:
                    check(
                        "tp",
                        [value["Counts", lab, t, s]["tp"] for t in ts],
                        (lab, s),
                    )
                    check(
                        "recall",
                        [value["Recall", lab, t, s] for t in ts],
                        (lab, s),
                    )
                    check("AR", [ar[lab, t, s] for t in ts], (lab, s))
                check("AP", [value["AP", lab, t, None] for t in ts], lab)
        rec.label(task)
        rec.interesting(changed)

    return run


TESTS = [
    Test("classification", cases("cls"), runner("cls"), quick=900, thorough=10000),
    Test("detection", cases("od"), runner("od"), quick=600, thorough=8000),
]
