"""C17: segmentation metrics."""
import numpy as np
from hypothesis import strategies as st
from valor_lite.semantic_segmentation import Bitmask, Segmentation

from vlib import seg
from vlib.common import expressions, holds, to_expression
from vlib.core import CaseScratch, Test

ID = "C17"
RULE = (
    "Random label maps (several masks per label, empty masks, missing sides, varying shapes; bulk up to 12 images of 60x60 "
    "with 30 labels or 300 labels in one image, images of 400x400 pixels, and rectangles on images of more than 2^24 "
    "pixels, and data whose second half comes 65536 places behind the first) x storage layouts x optional datum filter; "
    "oracle counts pixels one by one in plain Python. Non-trivial: some label with a true positive and a mistake."
)
ASSUMPTIONS = [
    "at least one label exists",
    "masks of one side in one datum that share a label share their metadata",
    "relative tolerance 1e-9",
]
_filter = st.one_of(
    st.none(),
    st.none(),
    expressions(
        {"dk": st.integers(0, 2), "ds": st.sampled_from(["u", "v", ""])}, depth=1
    ),
)


@st.composite
def cases(draw):
    return {
        "data": draw(seg.datasets(overlap=draw(st.integers(0, 3)) == 0)),
        "cfg": draw(seg.storage()),
        "filter": draw(_filter),
    }


@st.composite
def bulks(draw):
    return {
        "bulk": draw(seg.bulk_datasets()),
        "cfg": draw(seg.storage()),
        "filter": None,
    }


def _go(data, case, rec):
    labels = seg.labels_of(data)
    rec.label("no labels", not labels)
    f = case["filter"]
    kept = [d for d in data if holds(f, seg.datum_row(d))]
    with CaseScratch() as tmp:
        ev = seg.build(case["cfg"], f"{tmp}/c", data)
        kw = {"datums": to_expression(f)} if f else {}
        got = ev.compute_precision_recall_iou(**kw)
        info = ev.get_info(**kw)
    counts = seg.pixel_counts(kept)
    seg.check_metrics(got, counts, labels)
    seg.check_info(info, kept, labels, counts)
    rec.label(case["cfg"]["backend"])
    rec.label("filtered", len(kept) < len(data))
    rec.label(
        "label in several masks",
        any(
            len({m["label"] for m in d[s]}) < len(d[s])
            for d in data
            for s in ("gts", "pds")
        ),
    )
    rec.interesting(
        any(0 < v["iou"] < 1 for v in seg.reference(counts, labels)["label"].values())
    )


def run(case, rec):
    _go(case["data"], case, rec)


def run_bulk(case, rec):
    _go(seg.expand(case["bulk"]), case, rec)


@st.composite
def larges(draw):
    return {
        "bulk": draw(seg.large_datasets()),
        "cfg": draw(seg.storage()),
        "filter": None,
    }


@st.composite
def huges(draw):
    """Images with more pixels than single precision can count."""
    few = draw(st.booleans())  # of the pixels have a label
    a = draw(st.integers(0, 60))
    h, w = draw(
        st.sampled_from(
            [[4101 + 2 * a, 4241], [4241, 4101 + 2 * a], [201, 86_001 + 2 * a]]
        )
    )

    def box(dy, dx):
        if few:
            return [dy, 5 + dy, dx, 6 + dx]
        return [dy, h - draw(st.integers(0, 2)) * 2, dx, w - dx]

    # odd counts beyond 2 ** 24 : of the overlap, or of the background
    return {
        "shape": [h, w],
        "gt": box(0, 0),
        "pd": box(2 * draw(st.integers(0, 1)), 2),
        "same": draw(st.integers(0, 3)) < 3,
        "cfg": draw(seg.storage()),
    }


def run_huge(case, rec):
    h, w = case["shape"]

    def mask(b):
        m = np.zeros((h, w), dtype=np.bool_)
        m[b[0] : b[1], b[2] : b[3]] = True
        return m

    def area(b):
        return max(0, b[1] - b[0]) * max(0, b[3] - b[2])

    g, p = case["gt"], case["pd"]
    both = area([max(g[0], p[0]), min(g[1], p[1]), max(g[2], p[2]), min(g[3], p[3])])
    lab = "a" if case["same"] else "b"
    counts = {
        ("a", lab): both,
        ("a", None): area(g) - both,
        (None, lab): area(p) - both,
        (None, None): h * w - area(g) - area(p) + both,
    }
    labels = ["a"] if case["same"] else ["a", "b"]
    data = [{"shape": [h, w]}]
    with CaseScratch() as tmp:
        loader = seg.loader_for(case["cfg"], f"{tmp}/c")
        loader.add_data(
            [
                Segmentation(
                    uid="d",
                    groundtruths=[Bitmask(mask=mask(g), label="a")],
                    predictions=[Bitmask(mask=mask(p), label=lab)],
                    shape=(h, w),
                )
            ]
        )
        ev = loader.finalize()
        seg.check_metrics(ev.compute_precision_recall_iou(), counts, labels)
        seg.check_info(ev.get_info(), data, labels, counts)
    rec.label("huge")
    rec.interesting(0 < both < area(g))


@st.composite
def lates(draw):
    """Ordinary images behind more others than 16 bits can number."""
    return {
        "bulk": {
            "seed": draw(st.integers(1, 2**32)),
            "datums": draw(st.integers(8, 14)),
            "labels": 3,
            "side": 9,
            "late": 65_536,
        },
        "cfg": {
            "backend": draw(st.sampled_from(["memory", "file"])),
            "batch_size": 1000,
            "rows_per_file": draw(st.sampled_from([10_000, 100_000])),
            "compression": "snappy",
            "split": [],
        },
        "filter": draw(
            st.sampled_from([["cmp", "dk", ">=", 1], None, ["cmp", "ds", "==", "u"]])
        ),
    }


TESTS = [
    Test("maps", cases(), run, quick=5000, thorough=50000),
    Test("bulk", bulks(), run_bulk, quick=240, thorough=3000),
    Test("large", larges(), run_bulk, quick=32, thorough=300),
    Test("huge", huges(), run_huge, quick=16, thorough=64),
    Test("late", lates(), run_bulk, quick=4, thorough=64),
]
