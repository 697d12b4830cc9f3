"""Semantic segmentation: generators, driver and reference model."""
from __future__ import annotations

import random
import warnings

from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from valor_lite.semantic_segmentation import (
    Bitmask,
    Evaluator,
    Loader,
    MetricType,
    Segmentation,
)

from vlib.cachegen import configs
from vlib.common import add_in_calls, expect, expect_close, holds, texts

META = [
    ("dk", "int64"),
    ("ds", "string"),
    ("gk", "int64"),
    ("pk", "int64"),
]

datum_meta = st.one_of(
    st.none(),
    st.fixed_dictionaries(
        {},
        optional={
            "dk": st.one_of(st.none(), st.integers(0, 2)),
            "ds": st.sampled_from(["u", "v", ""]),
        },
    ),
)


def _side(draw, pool, n, key, overlap):
    """A list of {"label", "px", "meta"}; pixels are flat indices."""
    cells = draw(
        st.lists(st.integers(-1, len(pool) - 1), min_size=n, max_size=n)
    )
    out = []
    for k in sorted(set(cells) - {-1}):
        px = [i for i, c in enumerate(cells) if c == k]
        parts = [px]
        if len(px) > 1 and draw(st.integers(0, 3)) == 0:
            parts = [px[::2], px[1::2]]
        # masks of one label share their metadata (it is kept per label)
        meta = draw(
            st.one_of(
                st.none(),
                st.fixed_dictionaries({key: st.integers(0, 2)}),
            )
        )
        for p in parts:
            out.append({"label": pool[k], "px": p, "meta": meta})
    if draw(st.integers(0, 5)) == 0:
        # a mask without any pixel
        k = draw(st.integers(0, len(pool) - 1))
        if pool[k] not in [m["label"] for m in out]:
            out.append({"label": pool[k], "px": [], "meta": None})
    if len(out) > 1 and draw(st.booleans()):
        out = draw(st.permutations(out))
    if overlap and out:
        for m in out:
            extra = draw(
                st.lists(st.integers(0, n - 1), max_size=3, unique=True)
            )
            m["px"] = sorted(set(m["px"]) | set(extra))
    return [dict(m) for m in out]


@st.composite
def datasets(draw, overlap=False, max_datums=4, max_labels=4):
    pool = draw(
        st.one_of(
            st.sampled_from([["a", "b"], ["x"], ["a", "b", "c"]]),
            st.lists(
                texts(max_size=4), min_size=1, max_size=max_labels, unique=True
            ),
        )
    )
    out = []
    for i in range(draw(st.integers(1, max_datums))):
        h, w = draw(st.integers(1, 4)), draw(st.integers(1, 5))
        n = h * w
        out.append(
            {
                "uid": f"{draw(st.sampled_from(['d', 'é', '']))}{i}",
                "shape": [h, w],
                "gts": _side(draw, pool, n, "gk", overlap)
                if draw(st.integers(0, 7))
                else [],
                "pds": _side(draw, pool, n, "pk", overlap)
                if draw(st.integers(0, 7))
                else [],
                "meta": draw(datum_meta),
            }
        )
    return out


@st.composite
def bulk_datasets(draw, max_datums=12):
    if draw(st.integers(0, 19)) == 19:  # more labels than a byte can number
        return {
            "seed": draw(st.integers(0, 2**32)),
            "datums": draw(st.integers(1, 3)),
            "labels": draw(st.integers(257, 300)),
            "side": draw(st.integers(20, 40)),
            "all": True,
        }
    return {
        "seed": draw(st.integers(0, 2**32)),
        "datums": draw(st.integers(1, max_datums)),
        "labels": draw(st.one_of(st.integers(1, 7), st.integers(1, 30))),
        "side": draw(st.integers(1, 60)),
    }


@st.composite
def large_datasets(draw):
    """Images whose pixel counts exceed 16 bits (per label and in total)."""
    return {
        "seed": draw(st.integers(0, 2**32)),
        "datums": draw(st.integers(1, 2)),
        "labels": draw(st.integers(1, 2)),
        "side": draw(st.sampled_from([280, 400])),
        "full": True,
    }


def expand(b):
    rng = random.Random(b["seed"])
    pool = [f"L{i}" for i in range(b["labels"])]
    out = []
    for i in range(b["datums"]):
        if i == b["datums"] // 2:  # the rest comes exactly b["late"] places later
            out += [
                {
                    "uid": f"e{j}",
                    "shape": [1, 1 + j % 2],
                    "meta": None,
                    "gts": [],
                    "pds": [],
                }
                for j in range(b.get("late", i) - i)
            ]
        h, w = rng.randint(1, b["side"]), rng.randint(1, b["side"])
        if b.get("full"):
            h, w = b["side"], b["side"] + rng.randint(0, 9)
        d = {
            "uid": f"d{i}",
            "shape": [h, w],
            "meta": {"dk": rng.randint(0, 2), "ds": rng.choice("uv")},
        }
        # not every label occurs in every datum
        few = rng.sample(range(len(pool)), rng.randint(1, len(pool)))
        if b.get("all"):
            few = list(range(len(pool)))
            h, w = b["side"], b["side"] + 1
            d["shape"] = [h, w]
        some = few + few[: 1 + len(few) // 2] + [-1]
        base = [rng.choice(some) for _ in range(h * w)]
        for side, noise, key in (("gts", 0.1, "gk"), ("pds", 0.4, "pk")):
            groups = {}
            for j, c in enumerate(base):
                if rng.random() < noise:
                    c = rng.choice(some)
                if c >= 0:
                    groups.setdefault((c, rng.random() < 0.2), []).append(j)
            metas = {k: {key: rng.randint(0, 2)} for k in range(len(pool))}
            masks = [
                {"label": pool[c], "px": px, "meta": metas[c]}
                for (c, _), px in groups.items()
            ]
            rng.shuffle(masks)
            d[side] = masks
        out.append(d)
    return out


@st.composite
def storage(draw, backend=None):
    return {
        **draw(configs(backend)),
        "split": draw(st.lists(st.integers(0, 4), max_size=3)),
    }


# ----------------------------------------------------------------- the SUT


def _mask(shape, px):
    m = np.zeros(shape[0] * shape[1], dtype=np.bool_)
    m[px] = True
    return m.reshape(shape[0], shape[1])


def objects(data):
    out = []
    for d in data:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out.append(
                Segmentation(
                    uid=d["uid"],
                    groundtruths=[
                        Bitmask(
                            mask=_mask(d["shape"], m["px"]),
                            label=m["label"],
                            metadata=None if m["meta"] is None else dict(m["meta"]),
                        )
                        for m in d["gts"]
                    ],
                    predictions=[
                        Bitmask(
                            mask=_mask(d["shape"], m["px"]),
                            label=m["label"],
                            metadata=None if m["meta"] is None else dict(m["meta"]),
                        )
                        for m in d["pds"]
                    ],
                    shape=tuple(d["shape"]),
                    metadata=None if d["meta"] is None else dict(d["meta"]),
                )
            )
    return out


def loader_for(cfg, path, meta=META):
    if cfg["backend"] == "memory":
        return Loader.in_memory(
            batch_size=cfg["batch_size"], metadata_fields=list(meta)
        )
    return Loader.persistent(
        path=Path(path) if len(cfg.get("split", [])) % 2 else path,
        batch_size=cfg["batch_size"],
        rows_per_file=cfg["rows_per_file"],
        compression=cfg["compression"],
        metadata_fields=list(meta),
    )


def ingest(loader, objs, split):
    add_in_calls(loader.add_data, objs, split)


def build(cfg, path, data, meta=META) -> Evaluator:
    loader = loader_for(cfg, path, meta)
    ingest(loader, objects(data), cfg.get("split", []))
    return loader.finalize()


# --------------------------------------------------------------- the model


def labels_of(data):
    seen = {}
    for d in data:
        for m in d["gts"] + d["pds"]:
            seen.setdefault(m["label"], None)
    return list(seen)


def label_map(d, side, keep=None):
    """Label (or None) of every pixel: the first mask wins."""
    out = [None] * (d["shape"][0] * d["shape"][1])
    taken = set()
    for m in d[side]:
        for i in m["px"]:
            if i not in taken:
                taken.add(i)
                if keep is None or keep(m):
                    out[i] = m["label"]
    return out


def pixel_counts(data, gt_filter=None, pd_filter=None):
    """(gt label or None, pd label or None) -> pixels."""
    counts = {}
    for d in data:
        g = label_map(d, "gts", _keeper(d, "gts", "gk", "gt_label", gt_filter))
        p = label_map(d, "pds", _keeper(d, "pds", "pk", "pd_label", pd_filter))
        for pair in zip(g, p):
            counts[pair] = counts.get(pair, 0) + 1
    return counts


def _keeper(d, side, key, name, f):
    def keep(m):
        return holds(f, {key: None, **(m["meta"] or {}), name: m["label"]})

    return keep


def datum_row(d):
    return {"dk": None, "ds": None, **(d["meta"] or {}), "datum_uid": d["uid"]}


def ratio(a, b):
    return a / b if b else 0.0


def reference(counts, labels):
    gt = {lab: 0 for lab in labels}
    pd = {lab: 0 for lab in labels}
    total = good = 0
    for (g, p), n in counts.items():
        total += n
        if g is not None:
            gt[g] += n
        if p is not None:
            pd[p] += n
        if g == p:
            good += n
    out = {"label": {}, "accuracy": ratio(good, total)}
    for lab in labels:
        tp = counts.get((lab, lab), 0)
        p, r = ratio(tp, pd[lab]), ratio(tp, gt[lab])
        out["label"][lab] = {
            "precision": p,
            "recall": r,
            "f1": ratio(2 * p * r, p + r),
            "iou": ratio(tp, gt[lab] + pd[lab] - tp),
            "unmatched_pd": ratio(counts.get((None, lab), 0), pd[lab]),
            "unmatched_gt": ratio(counts.get((lab, None), 0), gt[lab]),
        }
    out["cm"] = {
        g: {
            p: ratio(
                counts.get((g, p), 0), gt[g] + pd[p] - counts.get((g, p), 0)
            )
            for p in labels
        }
        for g in labels
    }
    out["miou"] = ratio(sum(v["iou"] for v in out["label"].values()), len(labels))
    return out


def check_metrics(got, counts, labels):
    want = reference(counts, labels)
    for mt, name in (
        (MetricType.Precision, "precision"),
        (MetricType.Recall, "recall"),
        (MetricType.F1, "f1"),
        (MetricType.IOU, "iou"),
    ):
        have = {m.parameters["label"]: m.value for m in got[mt]}
        expect(
            set(have) == set(labels) and len(got[mt]) == len(labels),
            f"labels of {name}",
            have,
            labels,
        )
        for lab in labels:
            expect_close(
                have[lab], want["label"][lab][name], f"{name} of {lab!r}"
            )
    for mt, v in (
        (MetricType.Accuracy, want["accuracy"]),
        (MetricType.mIOU, want["miou"]),
    ):
        expect(len(got[mt]) == 1, f"one {mt}")
        expect_close(got[mt][0].value, v, str(mt))
    expect(len(got[MetricType.ConfusionMatrix]) == 1, "one confusion matrix")
    cm = got[MetricType.ConfusionMatrix][0].value
    expect(
        set(cm["confusion_matrix"]) == set(labels)
        and all(set(r) == set(labels) for r in cm["confusion_matrix"].values())
        and set(cm["unmatched_predictions"]) == set(labels)
        and set(cm["unmatched_ground_truths"]) == set(labels),
        "labels of the confusion matrix",
        cm,
    )
    for g in labels:
        for p in labels:
            expect_close(
                cm["confusion_matrix"][g][p]["iou"],
                want["cm"][g][p],
                f"matrix IoU of {(g, p)}",
            )
        expect_close(
            cm["unmatched_predictions"][g]["ratio"],
            want["label"][g]["unmatched_pd"],
            f"unmatched prediction ratio of {g!r}",
        )
        expect_close(
            cm["unmatched_ground_truths"][g]["ratio"],
            want["label"][g]["unmatched_gt"],
            f"unmatched ground truth ratio of {g!r}",
        )


def check_info(info, data, labels, counts=None):
    counts = pixel_counts(data) if counts is None else counts
    want = (
        len(data),
        len(labels),
        sum(d["shape"][0] * d["shape"][1] for d in data),
        sum(n for (g, _), n in counts.items() if g is not None),
        sum(n for (_, p), n in counts.items() if p is not None),
    )
    have = (
        info.number_of_datums,
        info.number_of_labels,
        info.number_of_pixels,
        info.number_of_groundtruth_pixels,
        info.number_of_prediction_pixels,
    )
    expect(
        have == want, "info (datums, labels, pixels, gt and pd pixels)", have, want
    )
