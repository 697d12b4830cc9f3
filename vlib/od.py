"""Object detection: generators, driver and reference model.

Scenes are axis-aligned rectangles with integer corners (times a power of two),
so that IoU is a ratio of exactly representable numbers and the reference can
compute the very same float.
"""
from __future__ import annotations

import random

from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import box as shapely_box
from valor_lite.object_detection import (
    Bitmask,
    BoundingBox,
    Detection,
    Evaluator,
    Loader,
    MetricType,
    Polygon,
)

from vlib.cachegen import configs, sizes
from vlib.common import add_in_calls, expect, expect_close, holds, texts

META = [
    ("dk", "int64"),
    ("ds", "string"),
    ("gk", "int64"),
    ("gs", "string"),
    ("pk", "int64"),
]
SIDE = 14
SCORES = [0.05, 0.1, 0.25, 0.3, 0.5, 0.7, 0.75, 0.9, 1.0]
# almost zero, almost equal
SCORES += [1e-7, 1e-5, 1e-3, 0.5 - 2**-40, 0.5 + 2**-40, 0.9 - 2**-50]
IOUS = [0.05, 0.1, 0.25, 1 / 3, 0.5, 0.6, 0.75, 0.9, 1.0]
# just below and above overlaps that occur
NEAR = [
    f + e
    for f in (0.5, 1 / 3, 2 / 3, 0.25, 0.75, 0.6, 0.2, 0.4, 0.1)
    for e in (-1e-6, 1e-6)
] + [1 - 1e-6]

_iou_lists = st.lists(
    st.one_of(
        st.sampled_from(IOUS), st.sampled_from(NEAR), st.floats(0.01, 1.0)
    ),
    min_size=1,
    max_size=4,
)
_score_lists = st.lists(
    st.one_of(st.sampled_from([0.0] + SCORES), st.floats(0.0, 1.0)),
    min_size=1,
    max_size=4,
)


def now_and_then(usual, rare, odds=20):
    """Mostly `usual`, one time in `odds` `rare`."""
    return st.integers(1, odds).flatmap(
        lambda k: rare if k == odds else usual
    )


# lists of the customary length
iou_thresholds = now_and_then(
    _iou_lists,
    st.sampled_from(
        [[x / 100 for x in range(50, 100, 5)], [x / 12 for x in range(12, 0, -1)]]
    ),
)
score_thresholds = now_and_then(
    _score_lists,
    st.sampled_from(
        [[x / 10 for x in range(11)], [x / 20 for x in range(20, -1, -1)]]
    ),
)


def label_pools(max_size=4):
    return st.one_of(
        st.sampled_from([["cat", "dog"], ["a", "b", "c"], ["x"]]),
        st.lists(texts(max_size=5), min_size=1, max_size=max_size, unique=True),
    )


@st.composite
def boxes(draw, near=()):
    near = list(near)
    if near and draw(st.integers(0, 3)):
        b = list(near[draw(st.integers(0, len(near) - 1))])
        for i in range(4):
            if draw(st.booleans()):
                b[i] += draw(st.integers(-2, 2))
        x0, x1 = sorted(max(0, min(SIDE, v)) for v in b[:2])
        y0, y1 = sorted(max(0, min(SIDE, v)) for v in b[2:])
        if x0 == x1:
            x0, x1 = (x0 - 1, x1) if x1 == SIDE else (x0, x1 + 1)
        if y0 == y1:
            y0, y1 = (y0 - 1, y1) if y1 == SIDE else (y0, y1 + 1)
        return [x0, x1, y0, y1]
    x0 = draw(st.integers(0, SIDE - 2))
    y0 = draw(st.integers(0, SIDE - 2))
    x1 = draw(st.integers(x0 + 1, min(SIDE, x0 + 7)))
    y1 = draw(st.integers(y0 + 1, min(SIDE, y0 + 7)))
    return [x0, x1, y0, y1]


def _meta(fields):
    return st.one_of(
        st.none(), st.fixed_dictionaries({}, optional=dict(fields))
    )


datum_meta = _meta(
    {
        "dk": st.one_of(st.none(), st.integers(0, 2)),
        "ds": st.sampled_from(["u", "v", ""]),
    }
)
gt_meta = _meta(
    {
        "gk": st.one_of(st.none(), st.integers(0, 2)),
        "gs": st.sampled_from(["s", "t"]),
    }
)
pd_meta = _meta({"pk": st.one_of(st.none(), st.integers(0, 2))})


@st.composite
def datasets(
    draw,
    distinct=False,
    multi=False,
    zero=True,
    max_datums=5,
    max_gts=4,
    max_pds=5,
    meta=True,
    order="iou",
    repeats="all",
):
    """order: which ties make the outcome undefined ("iou": two same-label
    ground truths equally close to a prediction; "pair": two pairs of equal
    score and IoU)."""
    pool = draw(label_pools())
    n = draw(st.integers(1, max_datums))
    used = 0
    out = []
    # identifiers are the user's: nothing makes them unique
    alike = (
        draw(st.integers(1, 7 if repeats == "all" else 3))
        if repeats and draw(st.integers(0, 4)) == 0
        else 0
    )
    for i in range(n):
        gts = []
        for g in range(draw(st.integers(0, max_gts))):
            gts.append(
                {
                    "uid": f"o{g // 2}"
                    if alike & 1
                    else f"g{g}"
                    if draw(st.booleans())
                    else f"g{i}-{g}",
                    "label": pool[draw(st.integers(0, len(pool) - 1))],
                    "box": draw(boxes([x["box"] for x in gts])),
                    "meta": draw(gt_meta) if meta else None,
                }
            )
        pds = []
        for p in range(draw(st.integers(0, max_pds))):
            k = draw(st.integers(1, min(len(pool), 3))) if multi else 1
            labs = draw(
                st.lists(
                    st.integers(0, len(pool) - 1),
                    min_size=k,
                    max_size=k,
                    unique=True,
                )
            )
            rows = []
            for lab in labs:
                if distinct:
                    used += 1
                    s = draw(st.integers(1, 998)) / 1000 + used * 1e-8
                else:
                    s = draw(
                        st.sampled_from(([0.0] if zero else []) + SCORES)
                    )
                rows.append([pool[lab], s])
            pds.append(
                {
                    "uid": f"o{p // 2}"
                    if alike & 2
                    else f"p{p}"
                    if draw(st.booleans())
                    else f"p{i}-{p}",
                    "rows": rows,
                    "box": draw(boxes([x["box"] for x in gts + pds])),
                    "meta": draw(pd_meta) if meta else None,
                }
            )
        out.append(
            {
                "uid": f"d{i // 2}"
                if alike & 4
                else f"{draw(st.sampled_from(['d', 'é', '']))}{i}",
                "gts": gts,
                "pds": pds,
                "meta": draw(datum_meta) if meta else None,
            }
        )
    return sanitize(out, order)


def sanitize(data, order):
    """Drop predictions whose outcome the definitions leave open."""
    for d in data:
        kept = []
        seen = {}
        for p in d["pds"]:
            bad = False
            byiou = {}
            for gi, g in enumerate(d["gts"]):
                v = iou(g["box"], p["box"])
                if v:
                    byiou.setdefault(v, []).append(gi)
            for v, gis in byiou.items():
                if order == "pair" and len(gis) > 1:
                    bad = True
                if order == "iou":
                    labs = [d["gts"][g]["label"] for g in gis]
                    if len(set(labs)) < len(labs):
                        bad = True
                for lab, s in p["rows"]:
                    if order == "pair" and (s, v) in seen:
                        bad = True
            if bad:
                continue
            for v in byiou:
                for _, s in p["rows"]:
                    seen[(s, v)] = True
            kept.append(p)
        d["pds"] = kept
    return data


@st.composite
def bulk_datasets(draw, max_datums=60, multi=False, order="iou"):
    wide = draw(st.integers(0, 9)) == 0  # more labels than a byte can number
    many = not wide and draw(st.integers(0, 9)) == 0  # or more datums
    if draw(st.integers(0, 11)) == 11:  # or a crowd in one datum
        return {
            "seed": draw(st.integers(0, 2**32)),
            "datums": draw(st.integers(1, 2)),
            "labels": draw(st.integers(1, 3)),
            "objects": 150,
            "multi": False,
            "order": order,
            "side": 200,
        }
    return {
        "seed": draw(st.integers(0, 2**32)),
        "datums": draw(
            st.integers(260, 330) if many else st.integers(1, max_datums)
        ),
        "labels": draw(st.sampled_from([130, 260, 300]))
        if wide
        else draw(st.integers(1, 5)),
        "objects": draw(st.integers(1, 8)),
        "multi": multi and draw(st.booleans()),
        "order": order,
    }


def _rng_box(rng, near, side=SIDE):
    if near and rng.random() < 0.7:
        b = list(rng.choice(near))
        for i in range(4):
            if rng.random() < 0.5:
                b[i] += rng.randint(-2, 2)
        x0, x1 = sorted(max(0, min(side, v)) for v in b[:2])
        y0, y1 = sorted(max(0, min(side, v)) for v in b[2:])
        if x0 < x1 and y0 < y1:
            return [x0, x1, y0, y1]
    x0, y0 = rng.randint(0, side - 2), rng.randint(0, side - 2)
    return [
        x0,
        rng.randint(x0 + 1, min(side, x0 + 7)),
        y0,
        rng.randint(y0 + 1, min(side, y0 + 7)),
    ]


@st.composite
def late_datasets(draw, order="iou"):
    """Ordinary data behind so many others that 16 bits cannot number them."""
    return {
        "seed": draw(st.integers(1, 2**32)),
        "datums": draw(st.integers(14, 24)),
        "labels": draw(st.integers(2, 3)),
        "objects": 7,
        "multi": draw(st.booleans()),
        "order": order,
        "late": 65_536,
    }


@st.composite
def late_storage(draw):
    return {
        "backend": draw(st.sampled_from(["memory", "file"])),
        "batch_size": 10_000,
        "rows_per_file": draw(st.sampled_from([100_000, 20_000])),
        "compression": "snappy",
        "finalize": 1000,
        "split": [],
        "kind": "bbox",
        "unit": 1,
    }


def _behind(data, n):
    """Datums, ground truths and predictions of the second half of `data` come
    exactly n places after those of the first half."""

    def datum(uid, gts=(), pds=()):
        return {"uid": uid, "gts": list(gts), "pds": list(pds), "meta": None}

    box = [0, 1, 0, 1]
    k = (len(data) + 1) // 2
    head, tail = data[:k], data[k:]
    gts = n - sum(len(d["gts"]) for d in head)
    pds = n - sum(len(d["pds"]) for d in head)
    return (
        head
        + [datum(f"e{i}") for i in range(n - k - 2)]
        + [
            datum(
                "G",
                gts=[
                    {"uid": f"G{i}", "label": "L0", "box": box, "meta": None}
                    for i in range(gts)
                ],
            ),
            datum(
                "P",
                pds=[
                    {"uid": f"P{i}", "rows": [["L0", 0.5000005]], "box": box, "meta": None}
                    for i in range(pds)
                ],
            ),
        ]
        + tail
    )


def expand(b):
    rng = random.Random(b["seed"])
    pool = [f"L{i}" for i in range(b["labels"])]
    weights = [1 / (i + 1) if len(pool) < 100 else 1 for i in range(len(pool))]
    most = b["objects"]
    least = most - 20 if most > 50 else 0
    side = b.get("side", SIDE)
    scores = rng.sample(range(1, 10**6), 3 * most * b["datums"] + 10)
    out = []
    for i in range(b["datums"]):
        gts, pds = [], []
        for g in range(rng.randint(least // 2, most // 2 if least else most)):
            gts.append(
                {
                    "uid": f"g{i}-{g}",
                    "label": rng.choices(pool, weights)[0],
                    "box": _rng_box(rng, [x["box"] for x in gts], side),
                    "meta": {"gk": rng.randint(0, 2)},
                }
            )
        for p in range(rng.randint(least, most)):
            k = rng.randint(1, min(3, len(pool))) if b["multi"] else 1
            labs = (
                rng.sample(pool, k)
                if k > 1 or not gts or rng.random() < 0.4
                else [rng.choice(gts)["label"]]
            )
            pds.append(
                {
                    "uid": f"p{i}-{p}",
                    "rows": [[lab, scores.pop() / 10**6] for lab in labs],
                    "box": _rng_box(rng, [x["box"] for x in gts], side),
                    "meta": {"pk": rng.randint(0, 2)},
                }
            )
        out.append(
            {
                "uid": f"d{i}",
                "gts": gts,
                "pds": pds,
                "meta": {"dk": rng.randint(0, 2), "ds": rng.choice("uv")},
            }
        )
    out = sanitize(out, b["order"])
    return _behind(out, b["late"]) if "late" in b else out


@st.composite
def storage(draw, backend=None):
    kind = draw(
        st.sampled_from(["bbox", "bbox", "bbox", "polygon", "bitmask"])
    )
    return {
        **draw(configs(backend)),
        "finalize": draw(sizes),
        "split": draw(st.lists(st.integers(0, 5), max_size=3)),
        "kind": kind,
        "unit": draw(st.sampled_from([1, 1, 0.125, 64])),
        # far from the origin, beyond single precision
        "shift": draw(
            st.sampled_from(
                [0, 0, 0, -5, -1000] + ([2**24 - 3] if kind == "bbox" else [])
            )
        ),
    }


@st.composite
def bulk_storage(draw):
    return {
        "backend": draw(st.sampled_from(["memory", "file"])),
        "batch_size": draw(st.sampled_from([1, 13, 100, 10_000])),
        "rows_per_file": draw(st.sampled_from([20, 150, 100_000])),
        "compression": "snappy",
        "finalize": draw(st.sampled_from([5, 50, 1000])),
        "split": [],
        "kind": "bbox",
        "unit": 1,
    }


# ----------------------------------------------------------------- the SUT


def _annotation(kind, unit, shift, uid, b, labels, scores, meta):
    meta = None if meta is None else dict(meta)
    if kind == "bitmask":
        m = np.zeros((SIDE, SIDE), dtype=np.bool_)
        m[b[2] : b[3], b[0] : b[1]] = True
        return Bitmask(
            uid=uid, mask=m, labels=labels, scores=scores, metadata=meta
        )
    x0, x1, y0, y1 = (v * unit + shift for v in b)
    if kind == "polygon":
        return Polygon(
            uid=uid,
            shape=shapely_box(x0, y0, x1, y1),
            labels=labels,
            scores=scores,
            metadata=meta,
        )
    return BoundingBox(
        uid=uid,
        xmin=x0,
        xmax=x1,
        ymin=y0,
        ymax=y1,
        labels=labels,
        scores=scores,
        metadata=meta,
    )


def objects(data, kind="bbox", unit=1, shift=0):
    return [
        Detection(
            uid=d["uid"],
            groundtruths=[
                _annotation(
                    kind,
                    unit,
                    shift,
                    g["uid"],
                    g["box"],
                    [g["label"]],
                    [],
                    g["meta"],
                )
                for g in d["gts"]
            ],
            predictions=[
                _annotation(
                    kind,
                    unit,
                    shift,
                    p["uid"],
                    p["box"],
                    [r[0] for r in p["rows"]],
                    [r[1] for r in p["rows"]],
                    p["meta"],
                )
                for p in d["pds"]
            ],
            metadata=None if d["meta"] is None else dict(d["meta"]),
        )
        for d in data
    ]


def loader_for(cfg, path, meta=META):
    if cfg["backend"] == "memory":
        return Loader.in_memory(
            batch_size=cfg["batch_size"], metadata_fields=list(meta)
        )
    return Loader.persistent(
        path=Path(path) if len(cfg.get("split", [])) % 2 else path,
        batch_size=cfg["batch_size"],
        rows_per_file=cfg["rows_per_file"],
        compression=cfg["compression"],
        metadata_fields=list(meta),
    )


def adder(loader, kind):
    return {
        "bbox": loader.add_bounding_boxes,
        "polygon": loader.add_polygons,
        "bitmask": loader.add_bitmasks,
    }[kind]


def ingest(loader, objs, split, kind="bbox"):
    add_in_calls(adder(loader, kind), objs, split)


def build(cfg, path, data, meta=META) -> Evaluator:
    loader = loader_for(cfg, path, meta)
    kind = cfg.get("kind", "bbox")
    ingest(
        loader, objects(data, kind, cfg.get("unit", 1), cfg.get("shift", 0)), cfg.get("split", []), kind
    )
    return loader.finalize(batch_size=cfg.get("finalize", 1000))


# --------------------------------------------------------------- the model


def iou(a, b):
    w = min(a[1], b[1]) - max(a[0], b[0])
    h = min(a[3], b[3]) - max(a[2], b[2])
    if w <= 0 or h <= 0:
        return 0.0
    i = w * h
    u = (a[1] - a[0]) * (a[3] - a[2]) + (b[1] - b[0]) * (b[3] - b[2]) - i
    return i / u


def annotated(data):
    return [d for d in data if d["gts"] or d["pds"]]


def labels_of(data):
    seen = {}
    for d in data:
        for g in d["gts"]:
            seen.setdefault(g["label"], None)
        for p in d["pds"]:
            for lab, _ in p["rows"]:
                seen.setdefault(lab, None)
    return list(seen)


def ratio(a, b):
    return a / b if b else 0.0


def ranked_rows(data):
    """One row per (prediction, competing label): label, score, iou, target."""
    out = []
    for di, d in enumerate(data):
        for pi, p in enumerate(d["pds"]):
            hits = []
            for lab, s in p["rows"]:
                best = None
                for gi, g in enumerate(d["gts"]):
                    if g["label"] == lab:
                        v = iou(g["box"], p["box"])
                        if v > 0 and (best is None or v > best[0]):
                            best = (v, gi)
                if best:
                    hits.append((lab, s, best[0], (di, best[1])))
            if hits:
                out.extend(hits)
            else:
                out.extend((lab, s, 0.0, None) for lab, s in p["rows"])
    out.sort(key=lambda r: (-r[1], -r[2]))
    return out


def gt_counts(data, labels):
    c = {lab: 0 for lab in labels}
    for d in data:
        for g in d["gts"]:
            c[g["label"]] += 1
    return c


def outcome(rows, t):
    """[(label, score, is_tp)] in rank order for IoU threshold t."""
    taken = set()
    out = []
    for lab, s, v, g in rows:
        tp = s > 0 and g is not None and v >= t and g not in taken
        if tp:
            taken.add(g)
        out.append((lab, s, tp))
    return out


def ref_counts(data, labels, t, thr):
    n = gt_counts(data, labels)
    c = {lab: {"tp": 0, "fp": 0, "fn": 0} for lab in labels}
    for lab, s, tp in outcome(ranked_rows(data), t):
        if s > 0 and s >= thr:
            c[lab]["tp" if tp else "fp"] += 1
    for lab in labels:
        c[lab]["fn"] = n[lab] - c[lab]["tp"]
    return c


def ref_prf(c):
    p = ratio(c["tp"], c["tp"] + c["fp"])
    r = ratio(c["tp"], c["tp"] + c["fn"])
    return p, r, ratio(2 * p * r, p + r)


def ref_curve(data, labels, t):
    """label -> (precisions[101], scores[101])."""
    n = gt_counts(data, labels)
    rows = outcome(ranked_rows(data), t)
    out = {}
    for lab in labels:
        prec = [0.0] * 101
        sc = [0.0] * 101
        tp = total = 0
        for label, s, hit in rows:
            if label != lab:
                continue
            total += 1
            b = 0
            if hit:
                tp += 1
                b = 100 * tp // n[lab]
                prec[b] = max(prec[b], tp / total)
            sc[b] = max(sc[b], s)
        for i in range(99, -1, -1):
            prec[i] = max(prec[i], prec[i + 1])
            sc[i] = max(sc[i], sc[i + 1])
        out[lab] = (prec, sc)
    return out


def greedy(d):
    """One-to-one pairs {prediction index: ground truth index} of one datum."""
    cand = []
    for pi, p in enumerate(d["pds"]):
        for gi, g in enumerate(d["gts"]):
            v = iou(g["box"], p["box"])
            if v > 0:
                for _, s in p["rows"]:
                    cand.append((-s, -v, pi, gi))
    cand.sort()
    used_p, used_g = {}, set()
    for _, _, pi, gi in cand:
        if pi not in used_p and gi not in used_g:
            used_p[pi] = gi
            used_g.add(gi)
    return used_p


def classify(d, t, thr):
    """matched [(gi, pi, glabel, plabel)], unmatched gts [(gi, label)],
    unmatched predictions [(pi, label)]."""
    pairs = greedy(d)
    matched, gm, pm = [], set(), set()
    for pi, gi in pairs.items():
        p, g = d["pds"][pi], d["gts"][gi]
        if iou(g["box"], p["box"]) < t:
            continue
        for lab, s in p["rows"]:
            if s > 0 and s >= thr:
                matched.append((gi, pi, g["label"], lab))
                gm.add(gi)
                pm.add(pi)
    ugt = [(gi, g["label"]) for gi, g in enumerate(d["gts"]) if gi not in gm]
    upd = [
        (pi, lab)
        for pi, p in enumerate(d["pds"])
        if pi not in pm
        for lab, s in p["rows"]
        if s > 0 and s >= thr
    ]
    return matched, ugt, upd


# -------------------------------------------------------- comparing metrics


def index(metrics, *names):
    out = {}
    for m in metrics:
        key = tuple(
            tuple(v) if isinstance(v, list) else v
            for v in (m.parameters[n] for n in names)
        )
        out.setdefault(key, []).append(m.value)
    return out


def each(idx, key, want, msg):
    expect(key in idx, f"{msg} missing", key, list(idx)[:10])
    for v in idx[key]:
        expect_close(v, want, f"{msg} of {key}")


def check_counts(got, data, labels, ious, thrs):
    names = ("label", "iou_threshold", "score_threshold")
    C = index(got[MetricType.Counts], *names)
    P = index(got[MetricType.Precision], *names)
    R = index(got[MetricType.Recall], *names)
    F = index(got[MetricType.F1], *names)
    recalls = {}
    rows = ranked_rows(data)
    n = gt_counts(data, labels)
    for t in dict.fromkeys(ious):
        oc = outcome(rows, t)
        for thr in dict.fromkeys(thrs):
            c = {lab: {"tp": 0, "fp": 0, "fn": 0} for lab in labels}
            for lab, s, tp in oc:
                if s > 0 and s >= thr:
                    c[lab]["tp" if tp else "fp"] += 1
            for lab in labels:
                c[lab]["fn"] = n[lab] - c[lab]["tp"]
                key = (lab, t, thr)
                expect(key in C, "counts missing", key)
                for v in C[key]:
                    expect(v == c[lab], f"counts of {key}", v, c[lab])
                p, r, f = ref_prf(c[lab])
                each(P, key, p, "precision")
                each(R, key, r, "recall")
                each(F, key, f, "F1")
                recalls[key] = r
    # average recall
    AR = index(got[MetricType.AR], "label", "score_threshold", "iou_thresholds")
    mAR = index(got[MetricType.mAR], "score_threshold", "iou_thresholds")
    ti, ts = tuple(ious), tuple(thrs)
    ar = {}
    for thr in dict.fromkeys(thrs):
        for lab in labels:
            ar[lab, thr] = sum(recalls[lab, t, thr] for t in ious) / len(ious)
            each(AR, (lab, thr, ti), ar[lab, thr], "AR")
        each(
            mAR,
            (thr, ti),
            sum(ar[lab, thr] for lab in labels) / len(labels),
            "mAR",
        )
    ARs = index(
        got[MetricType.ARAveragedOverScores],
        "label",
        "score_thresholds",
        "iou_thresholds",
    )
    for lab in labels:
        each(
            ARs,
            (lab, ts, ti),
            sum(ar[lab, thr] for thr in thrs) / len(thrs),
            "ARAveragedOverScores",
        )
    each(
        index(
            got[MetricType.mARAveragedOverScores],
            "score_thresholds",
            "iou_thresholds",
        ),
        (ts, ti),
        sum(ar[lab, thr] for thr in thrs for lab in labels)
        / len(thrs)
        / len(labels),
        "mARAveragedOverScores",
    )


def check_ap(got, data, labels, ious):
    AP = index(got[MetricType.AP], "label", "iou_threshold")
    mAP = index(got[MetricType.mAP], "iou_threshold")
    PR = index(got[MetricType.PrecisionRecallCurve], "label", "iou_threshold")
    ap = {}
    for t in dict.fromkeys(ious):
        curves = ref_curve(data, labels, t)
        for lab in labels:
            prec, sc = curves[lab]
            ap[lab, t] = sum(prec) / 101
            each(AP, (lab, t), ap[lab, t], "AP")
            expect((lab, t) in PR, "precision-recall curve missing", (lab, t))
            for v in PR[lab, t]:
                expect(
                    len(v["precisions"]) == 101 and len(v["scores"]) == 101,
                    "curve does not have 101 points",
                )
                for i in range(101):
                    expect_close(
                        v["precisions"][i],
                        prec[i],
                        f"curve precision of {(lab, t)} at {i}",
                    )
                    expect_close(
                        v["scores"][i],
                        sc[i],
                        f"curve score of {(lab, t)} at {i}",
                    )
        each(
            mAP, (t,), sum(ap[lab, t] for lab in labels) / len(labels), "mAP"
        )
    ti = tuple(ious)
    A = index(got[MetricType.APAveragedOverIOUs], "label", "iou_thresholds")
    for lab in labels:
        each(
            A,
            (lab, ti),
            sum(ap[lab, t] for t in ious) / len(ious),
            "APAveragedOverIOUs",
        )
    each(
        index(got[MetricType.mAPAveragedOverIOUs], "iou_thresholds"),
        (ti,),
        sum(ap[lab, t] for lab in labels for t in ious)
        / len(ious)
        / len(labels),
        "mAPAveragedOverIOUs",
    )
    return ap


def _grid(got, ious, thrs):
    expect(
        len(got) == len(ious) * len(thrs), "one matrix per threshold pair", len(got)
    )
    out = []
    k = 0
    for t in ious:
        for thr in thrs:
            m = got[k]
            k += 1
            expect(
                m.parameters["iou_threshold"] == t
                and m.parameters["score_threshold"] == thr,
                "matrix carries the wrong parameters",
                m.parameters,
                (t, thr),
            )
            out.append((m, t, thr))
    return out


def check_confusion(got, data, labels, ious, thrs):
    for m, t, thr in _grid(got, ious, thrs):
        cm = {g: {p: 0 for p in labels} for g in labels}
        ug = {g: 0 for g in labels}
        up = {g: 0 for g in labels}
        for d in data:
            matched, ugt, upd = classify(d, t, thr)
            for _, _, g, p in matched:
                cm[g][p] += 1
            for _, lab in ugt:
                ug[lab] += 1
            for _, lab in upd:
                up[lab] += 1
        for name, want in (
            ("confusion_matrix", cm),
            ("unmatched_ground_truths", ug),
            ("unmatched_predictions", up),
        ):
            expect(
                m.value[name] == want,
                f"{name} at iou={t} score={thr}",
                m.value[name],
                want,
            )


def check_confusion_examples(got, data, labels, ious, thrs):
    for m, t, thr in _grid(got, ious, thrs):
        cm = {g: {p: [] for p in labels} for g in labels}
        ug = {g: [] for g in labels}
        up = {g: [] for g in labels}
        for d in data:
            matched, ugt, upd = classify(d, t, thr)
            for gi, pi, g, p in matched:
                cm[g][p].append(
                    (d["uid"], d["gts"][gi]["uid"], d["pds"][pi]["uid"])
                )
            for gi, lab in ugt:
                ug[lab].append((d["uid"], d["gts"][gi]["uid"]))
            for pi, lab in upd:
                up[lab].append((d["uid"], d["pds"][pi]["uid"]))

        def same(cell, want, keys, where):
            ex = sorted(tuple(e[k] for k in keys) for e in cell["examples"])
            expect(
                cell["count"] == len(want)
                and ex == sorted(want)
                and all(set(e) == set(keys) for e in cell["examples"]),
                f"{where} at iou={t} score={thr}",
                cell,
                want,
            )

        v = m.value
        expect(
            set(v["confusion_matrix"]) == set(labels)
            and all(set(r) == set(labels) for r in v["confusion_matrix"].values())
            and set(v["unmatched_ground_truths"]) == set(labels)
            and set(v["unmatched_predictions"]) == set(labels),
            "labels missing from the matrix",
            v,
        )
        for g in labels:
            for p in labels:
                same(
                    v["confusion_matrix"][g][p],
                    cm[g][p],
                    ("datum_id", "ground_truth_id", "prediction_id"),
                    f"cell {(g, p)}",
                )
            same(
                v["unmatched_ground_truths"][g],
                ug[g],
                ("datum_id", "ground_truth_id"),
                f"unmatched ground truths of {g!r}",
            )
            same(
                v["unmatched_predictions"][g],
                up[g],
                ("datum_id", "prediction_id"),
                f"unmatched predictions of {g!r}",
            )


def check_examples(got, data, ious, thrs, offset=0, limit=None):
    data = annotated(data)
    sel = data[offset:] if limit is None else data[offset : offset + limit]
    expect(
        len(got) == len(sel) * len(ious) * len(thrs),
        "number of example entries",
        len(got),
        len(sel) * len(ious) * len(thrs),
    )
    k = 0
    for d in sel:
        for t in ious:
            for thr in thrs:
                m = got[k]
                k += 1
                matched, ugt, upd = classify(d, t, thr)
                mis = [x for x in matched if x[2] != x[3]]
                want = {
                    "datum_id": d["uid"],
                    "true_positives": sorted(
                        (d["gts"][g]["uid"], d["pds"][p]["uid"])
                        for g, p, a, b in matched
                        if a == b
                    ),
                    "false_positives": sorted(
                        d["pds"][p]["uid"]
                        for p, _ in {(p, b) for _, p, _, b in mis} | set(upd)
                    ),
                    "false_negatives": sorted(
                        d["gts"][g]["uid"]
                        for g, _ in {(g, a) for g, _, a, _ in mis} | set(ugt)
                    ),
                }
                v = m.value
                have = {
                    "datum_id": v["datum_id"],
                    "true_positives": sorted(
                        tuple(x) for x in v["true_positives"]
                    ),
                    "false_positives": sorted(v["false_positives"]),
                    "false_negatives": sorted(v["false_negatives"]),
                }
                expect(
                    m.parameters["iou_threshold"] == t
                    and m.parameters["score_threshold"] == thr,
                    "example carries the wrong parameters",
                    m.parameters,
                )
                expect(
                    have == want, f"examples at iou={t} score={thr}", have, want
                )


def check_info(info, data, labels, datums=None):
    data = annotated(data)
    want = (
        len(data) if datums is None else datums,
        sum(len(d["gts"]) for d in data),
        sum(len(d["pds"]) for d in data),
        len(labels),
    )
    have = (
        info.number_of_datums,
        info.number_of_groundtruth_annotations,
        info.number_of_prediction_annotations,
        info.number_of_labels,
    )
    expect(have == want, "info (datums, gts, pds, labels)", have, want)


# ------------------------------------------------------------------ filters


def datum_row(d):
    return {"dk": None, "ds": None, **(d["meta"] or {}), "datum_uid": d["uid"]}


def apply_filter(data, datums=None, groundtruths=None, predictions=None):
    out = []
    for d in data:
        if not holds(datums, datum_row(d)):
            continue
        gts = [
            g
            for g in d["gts"]
            if holds(
                groundtruths,
                {
                    "gk": None,
                    "gs": None,
                    **(g["meta"] or {}),
                    "gt_label": g["label"],
                    "gt_uid": g["uid"],
                },
            )
        ]
        pds = []
        for p in d["pds"]:
            rows = [
                r
                for r in p["rows"]
                if holds(
                    predictions,
                    {
                        "pk": None,
                        **(p["meta"] or {}),
                        "pd_label": r[0],
                        "pd_score": r[1],
                        "pd_uid": p["uid"],
                    },
                )
            ]
            if rows:
                pds.append({**p, "rows": rows})
        out.append({**d, "gts": gts, "pds": pds})
    return out


def has_annotations(data):
    return any(d["gts"] or d["pds"] for d in data)
