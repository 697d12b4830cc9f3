"""One face for the three tasks: data, evaluator and a canonical snapshot of
everything an evaluator reports."""
from __future__ import annotations

import copy
import random

from hypothesis import strategies as st
from valor_lite import classification as vc
from valor_lite import object_detection as vo
from valor_lite import semantic_segmentation as vs

from vlib import cls, od, seg
from vlib.common import approx_equal, expect

NAMES = ["cls", "od", "seg"]
MODULES = {"cls": cls, "od": od, "seg": seg}
EVALUATORS = {"cls": vc.Evaluator, "od": vo.Evaluator, "seg": vs.Evaluator}
LOADERS = {"cls": vc.Loader, "od": vo.Loader, "seg": vs.Loader}


@st.composite
def datasets(draw, task, distinct=True, repeats=True):
    """Data with at least one label whose results are fully defined;
    `repeats`: datum identifiers may occur more than once."""
    if draw(st.integers(0, 15)) == 0:
        return draw(bulk(task, distinct))
    if task == "cls":
        return draw(cls.datasets(
                distinct=distinct, full=draw(st.booleans()), repeats=repeats
            ))
    if task == "od":
        data = draw(
            od.datasets(
                distinct=distinct,
                multi=draw(st.integers(0, 2)) == 0,
                order="pair",
                repeats="all" if repeats else "annotations",
            )
        )
        if not od.has_annotations(data):
            data[0]["gts"].append(
                {"uid": "g0", "label": "x", "box": [0, 2, 0, 2], "meta": None}
            )
        return data
    return draw(seg.datasets())


@st.composite
def bulk(draw, task, distinct=True):
    """More labels and datums than drawn one by one."""
    b = {
        "seed": draw(st.integers(0, 2**32)),
        "datums": draw(st.integers(1, 25 if task == "cls" else 12)),
        "labels": draw(st.one_of(st.integers(1, 5), st.integers(6, 24))),
    }
    if task == "cls":
        return cls.expand(
            {**b, "full": draw(st.booleans()), "grid": not distinct}
        )
    if task == "od":
        data = od.expand(
            {
                **b,
                "objects": draw(st.integers(1, 8)),
                "multi": draw(st.booleans()),
                "order": "pair",
            }
        )
        if not od.has_annotations(data):
            data[0]["gts"].append(
                {"uid": "g0", "label": "x", "box": [0, 2, 0, 2], "meta": None}
            )
        return data
    return seg.expand({**b, "side": draw(st.integers(1, 12))})


@st.composite
def params(draw, task, unique=False):
    if task == "seg":
        return {}
    if task == "cls":
        t = draw(cls.thresholds)
        return {
            "score_thresholds": list(dict.fromkeys(t)) if unique else t,
            "hardmax": draw(st.booleans()),
        }
    i, s = draw(od.iou_thresholds), draw(od.score_thresholds)
    return {
        "iou_thresholds": list(dict.fromkeys(i)) if unique else i,
        "score_thresholds": list(dict.fromkeys(s)) if unique else s,
    }


def storage(task, backend=None):
    return MODULES[task].storage(backend)


def build(task, cfg, path, data, meta=None):
    kw = {} if meta is None else {"meta": meta}
    return MODULES[task].build(cfg, path, data, **kw)


def labels_of(task, data):
    return MODULES[task].labels_of(data)


def is_full(data):
    labels = cls.labels_of(data)
    return all(len(d["pds"]) == len(labels) for d in data)


# ----------------------------------------------------------------- snapshots


def metrics_of(task, ev, p, datums=None, roc=True):
    """All metrics as (group, list of Metric)."""
    kw = {} if datums is None else {"datums": datums}
    p = copy.deepcopy(p)
    if task == "seg":
        got = ev.compute_precision_recall_iou(**kw)
        return {f"all/{k.value}": v for k, v in got.items()}
    out = {
        f"pr/{k.value}": v
        for k, v in ev.compute_precision_recall(**p, **kw).items()
    }
    out["cm"] = ev.compute_confusion_matrix(**p, **kw)
    out["cmx"] = ev.compute_confusion_matrix_with_examples(**p, **kw)
    out["ex"] = ev.compute_examples(**p, **kw)
    if task == "cls" and roc and datums is None:
        out.update(
            {f"roc/{k.value}": v for k, v in ev.compute_rocauc().items()}
        )
    return out


def _freeze(v):
    if isinstance(v, dict):
        return tuple(sorted((k, _freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(_freeze(x) for x in v)
    return v


def _canon(v):
    """Order-free form of example lists, everything else as is."""
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if k in (
                "examples",
                "true_positives",
                "false_positives",
                "false_negatives",
            ):
                out[k] = sorted(map(_freeze, x), key=repr)
            else:
                out[k] = _canon(x)
        return out
    return v


def canonical(groups):
    out = {}
    for g, metrics in groups.items():
        for m in metrics:
            d = m.to_dict()
            key = (g, d["type"], _freeze(d["parameters"]))
            if g == "ex":
                key += (d["value"]["datum_id"],)
            out.setdefault(key, []).append(_canon(d["value"]))
    return out


def info_of(ev, **kw):
    info = ev.get_info(**kw)
    d = dict(vars(info))
    fields = d.pop("metadata_fields")
    d["metadata_fields"] = {k: str(v) for k, v in fields or []}
    return d


def snapshot(task, ev, p, datums=None, roc=True):
    return {
        "metrics": canonical(metrics_of(task, ev, p, datums, roc)),
        "info": info_of(ev),
    }


def same(a, b, msg, info=True):
    for key in sorted(set(a["metrics"]) | set(b["metrics"]), key=repr):
        x, y = a["metrics"].get(key), b["metrics"].get(key)
        expect(
            x is not None and y is not None and approx_equal(x, y),
            f"{msg}: {key}",
            x,
            y,
        )
    if info:
        expect(a["info"] == b["info"], f"{msg}: info", a["info"], b["info"])


def label_index(ev):
    """The evaluator's index-to-label mapping, wherever it keeps it."""
    for v in vars(ev).values():
        if (
            isinstance(v, dict)
            and v
            and all(isinstance(k, int) for k in v)
            and all(isinstance(x, str) for x in v.values())
        ):
            return dict(v)
    return None


# ------------------------------------------------------------- data changes


def shuffled(task, data, seed):
    """Same data in another order (datums and annotations)."""
    rng = random.Random(seed)
    data = copy.deepcopy(data)
    rng.shuffle(data)
    for d in data:
        if task == "cls":
            rng.shuffle(d["pds"])
        else:
            rng.shuffle(d["gts"])
            rng.shuffle(d["pds"])
            if task == "od":
                for p in d["pds"]:
                    rng.shuffle(p["rows"])
    return data


def renamed(task, data, labels, uids):
    """Apply label -> label and (uid, role) -> uid functions."""
    data = copy.deepcopy(data)
    for d in data:
        d["uid"] = uids(d["uid"], "datum")
        if task == "cls":
            d["gt"] = labels(d["gt"])
            d["pds"] = [[labels(p), s] for p, s in d["pds"]]
        elif task == "od":
            for g in d["gts"]:
                g["label"], g["uid"] = labels(g["label"]), uids(g["uid"], "gt")
            for p in d["pds"]:
                p["uid"] = uids(p["uid"], "pd")
                p["rows"] = [[labels(x), s] for x, s in p["rows"]]
        else:
            for m in d["gts"] + d["pds"]:
                m["label"] = labels(m["label"])
    return data


def rename_snapshot(task, groups, labels, uids):
    """canonical() of metrics with labels and identifiers renamed."""

    def lab_keys(v):
        return {labels(k): x for k, x in v.items()}

    def example(e):
        return {
            k: uids(x, k.split("_")[0].replace("ground", "gt")
                    .replace("prediction", "pd"))
            if isinstance(x, str)
            else x
            for k, x in e.items()
        }

    def cell(c):
        if isinstance(c, dict) and "examples" in c:
            return {**c, "examples": [example(e) for e in c["examples"]]}
        return c

    out = {}
    for g, metrics in groups.items():
        for m in metrics:
            d = copy.deepcopy(m.to_dict())
            par, v = d["parameters"], d["value"]
            if "label" in par:
                par["label"] = labels(par["label"])
            if isinstance(v, dict):
                if "confusion_matrix" in v:
                    v["confusion_matrix"] = {
                        labels(a): {
                            labels(b): cell(c) for b, c in row.items()
                        }
                        for a, row in v["confusion_matrix"].items()
                    }
                for k in ("unmatched_ground_truths", "unmatched_predictions"):
                    if k in v:
                        v[k] = {
                            labels(a): cell(c) for a, c in v[k].items()
                        }
                if "datum_id" in v:
                    v["datum_id"] = uids(v["datum_id"], "datum")
                    for k in (
                        "true_positives",
                        "false_positives",
                        "false_negatives",
                    ):
                        if task == "cls":
                            v[k] = [labels(x) for x in v[k]]
                        else:
                            side = "gt" if k == "false_negatives" else "pd"
                            v[k] = [
                                [uids(y, r) for y, r in zip(x, ("gt", "pd"))]
                                if isinstance(x, (list, tuple))
                                else uids(x, side)
                                for x in v[k]
                            ]
            key = (g, d["type"], _freeze(par))
            if g == "ex":
                key += (v["datum_id"],)
            out.setdefault(key, []).append(_canon(v))
    return out
