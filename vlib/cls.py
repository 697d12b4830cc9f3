"""Classification: generators, driver and reference model."""
from __future__ import annotations

import random
from collections import Counter
from pathlib import Path

from hypothesis import strategies as st
from valor_lite.classification import (
    Classification,
    Evaluator,
    Loader,
    MetricType,
)

from vlib.cachegen import configs, sizes
from vlib.common import add_in_calls, expect, expect_close, texts

META = [("dk", "int64"), ("ds", "string"), ("df", "float64")]
GRID = [0.0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.7, 0.75, 0.9, 1.0]

# almost zero (scores below 1e-8 count as zero), almost equal
NEAR = [1e-7, 1e-5, 1e-3, 0.5 - 2**-40, 0.5 + 2**-40, 0.9 - 2**-50, 0.3 + 2**-45]

scores = st.one_of(
    st.sampled_from(GRID),
    st.sampled_from(GRID),
    st.sampled_from(NEAR),
    st.floats(1e-3, 1.0),
)


def label_pools(max_size=5):
    return st.one_of(
        st.sampled_from([["cat", "dog"], ["a", "b", "c"], ["x"]]),
        st.lists(texts(max_size=5), min_size=1, max_size=max_size, unique=True),
    )


metas = st.one_of(
    st.none(),
    st.fixed_dictionaries(
        {},
        optional={
            "dk": st.one_of(st.none(), st.integers(0, 3)),
            "ds": st.one_of(st.none(), st.sampled_from(["u", "v", ""])),
            "df": st.one_of(st.none(), st.sampled_from([0.0, 0.5, 1.5])),
        },
    ),
)


@st.composite
def datasets(draw, full=False, distinct=False, min_datums=1, max_datums=9, repeats=True):
    """Plain data; `full`: every datum scores every label."""
    pool = draw(label_pools())
    n = draw(st.integers(min_datums, max_datums))
    out = []
    used = 0
    # identifiers are the user's: nothing makes them unique
    alike = repeats and draw(st.integers(0, 4)) == 0
    for i in range(n):
        if full:
            order = list(range(len(pool)))
            if draw(st.booleans()):
                order = draw(st.permutations(order))
        else:
            order = draw(
                st.lists(
                    st.integers(0, len(pool) - 1),
                    min_size=1,
                    max_size=len(pool),
                    unique=True,
                )
            )
        pds = []
        for k in order:
            if distinct:
                used += 1
                s = draw(st.integers(1, 999)) / 1000 + used * 1e-8
            else:
                s = draw(scores)
            pds.append([pool[k], s])
        out.append(
            {
                "uid": f"d{i // 2}"
                if alike
                else f"{draw(st.sampled_from(['d', 'é', '']))}{i}",
                "gt": pool[draw(st.integers(0, len(pool) - 1))],
                "pds": pds,
                "meta": draw(metas),
            }
        )
    return out


@st.composite
def bulk_datasets(draw, max_datums=400, full=False):
    """Larger data, expanded deterministically from a drawn seed."""
    wide = draw(st.integers(0, 7)) == 0  # more labels than a byte can number
    return {
        "seed": draw(st.integers(0, 2**32)),
        "datums": draw(st.integers(1, 12 if wide else max_datums)),
        "labels": draw(st.sampled_from([130, 260, 300]))
        if wide
        else draw(st.integers(1, 12)),
        "full": full or draw(st.booleans()),
        "grid": draw(st.booleans()),
    }


@st.composite
def late_datasets(draw):
    """Ordinary data behind so many others that 16 bits cannot number them."""
    return {
        "seed": draw(st.integers(1, 2**32)),
        "datums": draw(st.integers(12, 30)),
        "labels": draw(st.integers(3, 5)),
        "full": not draw(st.booleans()),
        "grid": draw(st.booleans()),
        "late": 65_536,
    }


def late_storage(backend):
    return {
        "backend": backend,
        "batch_size": 1000,
        "rows_per_file": 1500,
        "compression": "snappy",
        "finalize": 1000,
        "split": [],
    }


def expand(b):
    rng = random.Random(b["seed"])
    pool = [f"L{i}" for i in range(b["labels"])]
    out = []
    for i in range(b["datums"]):
        if i == b["datums"] // 2:  # the rest comes exactly b["late"] places later
            out += [
                {"uid": f"e{j}", "gt": "L0", "pds": [["L0", 0.5]], "meta": None}
                for j in range(b.get("late", i) - i)
            ]
        labels = (
            pool[:] if b["full"] else rng.sample(pool, rng.randint(1, len(pool)))
        )
        rng.shuffle(labels)
        out.append(
            {
                "uid": f"d{i}",
                "gt": rng.choice(pool),
                "pds": [
                    [lab, rng.choice(GRID) if b["grid"] else v / 10**6]
                    for lab, v in zip(
                        labels, rng.sample(range(1, 10**6), len(labels))
                    )
                ],
                "meta": {"dk": rng.randint(0, 3), "ds": rng.choice("uv")},
            }
        )
    return out


_lists = st.lists(
    st.one_of(
        st.sampled_from(GRID), st.sampled_from(NEAR), st.floats(0.0, 1.0)
    ),
    min_size=1,
    max_size=4,
)
thresholds = st.integers(1, 20).flatmap(
    lambda k: st.sampled_from(
        [[x / 10 for x in range(11)], [x / 20 for x in range(20, -1, -1)]]
    )
    if k == 20
    else _lists
)


@st.composite
def storage(draw, backend=None):
    return {
        **draw(configs(backend)),
        "finalize": draw(sizes),
        "split": draw(st.lists(st.integers(0, 9), max_size=3)),
    }


def objects(data):
    return [
        Classification(
            uid=d["uid"],
            groundtruth=d["gt"],
            predictions=[p for p, _ in d["pds"]],
            scores=[s for _, s in d["pds"]],
            metadata=None if d["meta"] is None else dict(d["meta"]),
        )
        for d in data
    ]


def loader_for(cfg, path, meta=META):
    if cfg["backend"] == "memory":
        return Loader.in_memory(
            batch_size=cfg["batch_size"], metadata_fields=list(meta)
        )
    return Loader.persistent(
        path=Path(path) if len(cfg.get("split", [])) % 2 else path,
        batch_size=cfg["batch_size"],
        rows_per_file=cfg["rows_per_file"],
        compression=cfg["compression"],
        metadata_fields=list(meta),
    )


def ingest(loader, objs, split):
    add_in_calls(loader.add_data, objs, split)


def build(cfg, path, data, meta=META) -> Evaluator:
    loader = loader_for(cfg, path, meta)
    ingest(loader, objects(data), cfg.get("split", []))
    return loader.finalize(batch_size=cfg.get("finalize", 1000))


# ------------------------------------------------------------- the model


def model_of(data):
    """uid, gt, rows of (label, score, is_winner)."""
    out = []
    for d in data:
        win = 0
        for i, (_, s) in enumerate(d["pds"]):
            if s > d["pds"][win][1]:
                win = i
        out.append(
            {
                "uid": d["uid"],
                "gt": d["gt"],
                "meta": d["meta"] or {},
                "rows": [
                    (p, s, i == win) for i, (p, s) in enumerate(d["pds"])
                ],
            }
        )
    return out


def labels_of(data):
    seen = {}
    for d in data:
        seen.setdefault(d["gt"], None)
        for p, _ in d["pds"]:
            seen.setdefault(p, None)
    return list(seen)


def accepted(d, thr, hardmax):
    return [
        (lab, s)
        for lab, s, w in d["rows"]
        if s > 0 and s >= thr and (w or not hardmax)
    ]


def ref_counts(model, labels, thr, hardmax):
    c = {lab: {"tp": 0, "fp": 0, "fn": 0, "tn": 0} for lab in labels}
    for d in model:
        acc = [lab for lab, _ in accepted(d, thr, hardmax)]
        for lab in acc:
            c[lab]["tp" if lab == d["gt"] else "fp"] += 1
        for lab, _, _ in d["rows"]:
            if lab not in acc and lab != d["gt"]:
                c[lab]["tn"] += 1
        if d["gt"] not in acc and (
            acc or d["gt"] in [lab for lab, _, _ in d["rows"]]
        ):
            c[d["gt"]]["fn"] += 1
    return c


def ratio(a, b):
    return a / b if b else 0.0


def ref_precision_recall(model, labels, thr, hardmax):
    counts = ref_counts(model, labels, thr, hardmax)
    out = {}
    for lab, c in counts.items():
        p = ratio(c["tp"], c["tp"] + c["fp"])
        r = ratio(c["tp"], c["tp"] + c["fn"])
        out[lab] = {
            "counts": c,
            "precision": p,
            "recall": r,
            "f1": ratio(2 * p * r, p + r),
        }
    acc = ratio(sum(c["tp"] for c in counts.values()), len(model))
    return out, acc


def ref_rocauc(model, labels):
    out = {}
    for lab in labels:
        pos, neg = [], []
        for d in model:
            for p, s, _ in d["rows"]:
                if p == lab:
                    (pos if d["gt"] == lab else neg).append(s)
        if not pos or not neg:
            out[lab] = 0.0
            continue
        wins = 0.0
        ranked = Counter(neg)
        for s in pos:
            for t, n in ranked.items():
                wins += n if s > t else 0.5 * n if s == t else 0
        out[lab] = wins / (len(pos) * len(neg))
    return out


def ref_confusion(model, labels, thr, hardmax):
    cm = {g: {p: [] for p in labels} for g in labels}
    um = {g: [] for g in labels}
    for d in model:
        acc = accepted(d, thr, hardmax)
        for lab, s in acc:
            cm[d["gt"]][lab].append((d["uid"], s))
        if not acc:
            um[d["gt"]].append(d["uid"])
    return cm, um


def ref_examples(model, thr, hardmax):
    out = []
    for d in model:
        acc = [lab for lab, _ in accepted(d, thr, hardmax)]
        hit = d["gt"] in acc
        out.append(
            {
                "datum_id": d["uid"],
                "true_positives": [d["gt"]] if hit else [],
                "false_positives": sorted(x for x in acc if x != d["gt"]),
                "false_negatives": [] if hit else [d["gt"]],
            }
        )
    return out


# -------------------------------------------------------- comparing metrics


def by_params(metrics, *names):
    out = {}
    for m in metrics:
        key = tuple(m.parameters[n] for n in names)
        out.setdefault(key, []).append(m.value)
    return out


def check_precision_recall(got, model, labels, thrs, hardmax):
    sets = {
        t: by_params(got[t], "label", "score_threshold", "hardmax")
        for t in (
            MetricType.Counts,
            MetricType.Precision,
            MetricType.Recall,
            MetricType.F1,
        )
    }
    accs = by_params(got[MetricType.Accuracy], "score_threshold", "hardmax")
    for t in set(thrs):
        want, acc = ref_precision_recall(model, labels, t, hardmax)
        k = (t, hardmax)
        expect(k in accs, "accuracy missing for threshold", t)
        for v in accs[k]:
            expect_close(v, acc, f"accuracy at {t} hardmax={hardmax}")
        for lab in labels:
            key = (lab, t, hardmax)
            for mt, name in (
                (MetricType.Counts, "counts"),
                (MetricType.Precision, "precision"),
                (MetricType.Recall, "recall"),
                (MetricType.F1, "f1"),
            ):
                expect(key in sets[mt], f"{name} missing", key)
                for v in sets[mt][key]:
                    if name == "counts":
                        expect(
                            v == want[lab]["counts"],
                            "counts differ from the definition",
                            {"key": key, "got": v, "want": want[lab]["counts"]},
                        )
                    else:
                        expect_close(v, want[lab][name], f"{name} of {key}")


def check_confusion(got, model, labels, thrs, hardmax):
    expect(len(got) == len(thrs), "one confusion matrix per threshold")
    for m, t in zip(got, thrs):
        expect(
            m.parameters["score_threshold"] == t
            and m.parameters["hardmax"] == hardmax,
            "confusion matrix carries the wrong parameters",
            m.parameters,
        )
        cm, um = ref_confusion(model, labels, t, hardmax)
        want = {g: {p: len(v) for p, v in r.items()} for g, r in cm.items()}
        expect(
            m.value["confusion_matrix"] == want,
            f"confusion matrix at {t} hardmax={hardmax}",
            m.value["confusion_matrix"],
            want,
        )
        want = {g: len(v) for g, v in um.items()}
        expect(
            m.value["unmatched_ground_truths"] == want,
            f"unmatched ground truths at {t} hardmax={hardmax}",
            m.value["unmatched_ground_truths"],
            want,
        )


def check_confusion_examples(got, model, labels, thrs, hardmax):
    expect(len(got) == len(thrs), "one confusion matrix per threshold")
    for m, t in zip(got, thrs):
        expect(
            m.parameters["score_threshold"] == t
            and m.parameters["hardmax"] == hardmax,
            "confusion matrix carries the wrong parameters",
            m.parameters,
        )
        cm, um = ref_confusion(model, labels, t, hardmax)
        v = m.value["confusion_matrix"]
        expect(
            set(v) == set(labels) and all(set(r) == set(labels) for r in v.values()),
            "label pairs missing",
            v,
        )
        for g in labels:
            for p in labels:
                cell = v[g][p]
                ex = sorted((e["datum_id"], e["score"]) for e in cell["examples"])
                expect(
                    cell["count"] == len(cm[g][p]) and ex == sorted(cm[g][p]),
                    f"examples of cell {(g, p)} at {t} hardmax={hardmax}",
                    cell,
                    cm[g][p],
                )
        u = m.value["unmatched_ground_truths"]
        expect(set(u) == set(labels), "unmatched labels missing", u)
        for g in labels:
            ex = sorted(e["datum_id"] for e in u[g]["examples"])
            expect(
                u[g]["count"] == len(um[g]) and ex == sorted(um[g]),
                f"unmatched examples of {g!r} at {t} hardmax={hardmax}",
                u[g],
                um[g],
            )


def check_examples(got, model, thrs, hardmax, offset=0, limit=None):
    """model: the datums (already filtered) in datum order."""
    sel = model[offset:] if limit is None else model[offset : offset + limit]
    expect(
        len(got) == len(sel) * len(thrs),
        "number of example entries",
        len(got),
        len(sel) * len(thrs),
    )
    i = 0
    refs = {t: ref_examples(sel, t, hardmax) for t in set(thrs)}
    for k in range(len(sel)):
        for t in thrs:
            m = got[i]
            i += 1
            want = refs[t][k]
            v = m.value
            have = {
                "datum_id": v["datum_id"],
                "true_positives": sorted(v["true_positives"]),
                "false_positives": sorted(v["false_positives"]),
                "false_negatives": sorted(v["false_negatives"]),
            }
            expect(
                m.parameters["score_threshold"] == t
                and m.parameters["hardmax"] == hardmax,
                "example carries the wrong parameters",
                m.parameters,
            )
            expect(
                have == want,
                f"examples at {t} hardmax={hardmax}",
                have,
                want,
            )


def check_rocauc(got, model, labels):
    want = ref_rocauc(model, labels)
    have = {m.parameters["label"]: m.value for m in got[MetricType.ROCAUC]}
    expect(
        len(got[MetricType.ROCAUC]) == len(labels) and set(have) == set(labels),
        "one ROCAUC per label",
        have,
    )
    for lab in labels:
        expect_close(have[lab], want[lab], f"ROCAUC of {lab!r}")
    expect(len(got[MetricType.mROCAUC]) == 1, "one mROCAUC")
    expect_close(
        got[MetricType.mROCAUC][0].value,
        sum(want.values()) / len(labels),
        "mROCAUC",
    )
