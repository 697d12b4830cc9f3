"""C18: overlapping masks."""
import random
import re
import warnings

import numpy as np
from hypothesis import strategies as st
from valor_lite.semantic_segmentation import Bitmask, Segmentation

from vlib.common import expect
from vlib.core import Test

ID = "C18"
RULE = (
    "Random lists of up to 6 masks per side (arbitrary overlaps, duplicates, empty masks, repeated labels; crowds of 20 to 300 masks) on random shapes; oracle "
    "assigns each pixel to its first mask; wrong shapes and types are injected. Non-trivial: three masks "
    "of a side share a pixel or overlaps on both sides."
)
ASSUMPTIONS = [
    "the masks given to a segmentation do not share memory with one another",
]


@st.composite
def sides(draw, n):
    k = draw(st.integers(0, 6))
    cells = st.one_of(
        st.lists(st.integers(0, n - 1), max_size=n, unique=True),
        st.just(list(range(n))),
    )
    return [
        [draw(st.sampled_from(["a", "b", "c"])), sorted(draw(cells))]
        for _ in range(k)
    ]


@st.composite
def cases(draw):
    h, w = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return {
        "h": h,
        "w": w,
        "gts": draw(sides(h * w)),
        "pds": draw(sides(h * w)),
        "order": draw(st.sampled_from("CF")),
    }


def make(case, side):
    out = []
    for label, px in case[side]:
        m = np.zeros(case["h"] * case["w"], dtype=np.bool_)
        m[px] = True
        m = np.array(m.reshape(case["h"], case["w"]), order=case["order"])
        out.append(Bitmask(mask=m, label=label))
    return out


def expected(masks):
    seen, twice, out = set(), set(), []
    for _, px in masks:
        px = set(px)
        twice |= px & seen
        out.append(px - seen)
        seen |= px
    return out, len(twice)


def run(case, rec):
    gts, pds = make(case, "gts"), make(case, "pds")
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        s = Segmentation(
            uid="u1",
            groundtruths=gts,
            predictions=pds,
            shape=(case["h"], case["w"]),
        )
    expect(s.size == case["h"] * case["w"], "size", s.size)
    n_over = {}
    for side, masks, key in (
        ("gts", s.groundtruths, "ground truth"),
        ("pds", s.predictions, "prediction"),
    ):
        want, over = expected(case[side])
        n_over[side] = over
        expect(len(masks) == len(want), "number of masks")
        for i, (m, w) in enumerate(zip(masks, want)):
            have = set(np.flatnonzero(m.mask).tolist())
            expect(
                have == w and m.label == case[side][i][0],
                f"mask {i} of {side}",
                sorted(have),
                sorted(w),
            )
            expect(
                m.mask.dtype == np.bool_
                and m.mask.shape == (case["h"], case["w"]),
                "mask type changed",
            )
        text = [str(x.message) for x in caught if str(x.message).startswith(key)]
        if over:
            expect(len(text) == 1, "one warning per overlapping side", text)
            nums = [int(x) for x in re.findall(r"\d+", text[0].split("had")[1])]
            expect(
                nums == [over, case["h"] * case["w"]],
                "overlap count in the warning",
                text,
                over,
            )
            expect("u1" in text[0], "the warning names the datum", text)
        else:
            expect(not text, "warning without overlap", text)
    rec.label("overlap", any(n_over.values()))
    triple = any(
        sum(1 for _, px in case[s2] if i in px) > 2
        for s2 in ("gts", "pds")
        for i in range(case["h"] * case["w"])
    )
    rec.label("pixel in three masks", triple)
    rec.interesting(triple or all(n_over.values()))


@st.composite
def crowds(draw):
    return {
        "h": draw(st.integers(30, 45)),
        "w": draw(st.integers(30, 45)),
        "seed": draw(st.integers(0, 2**32)),
        "n": draw(st.sampled_from([300, 20, 60, 150])),
        "order": draw(st.sampled_from("CF")),
    }


def run_crowd(case, rec):
    """Many masks, so that overlap counts exceed small integers."""
    rng = random.Random(case["seed"])
    n = case["h"] * case["w"]
    full = dict(case)
    for side in ("gts", "pds"):
        full[side] = []
        for _ in range(case["n"]):
            a = rng.randrange(n)
            full[side].append(
                [rng.choice("abc"), list(range(a, min(n, a + rng.randint(0, 30))))]
            )
        if rng.random() < 0.3:
            full[side].append(["a", list(range(n))])
        if rng.random() < 0.3:
            full[side].insert(0, ["c", list(range(0, n, 3))])
    run(full, rec)


@st.composite
def bad_cases(draw):
    c = draw(cases())
    return {
        **c,
        "side": draw(st.sampled_from(["gts", "pds"])),
        "at": draw(st.integers(0, 6)),
        "what": draw(
            st.sampled_from(
                ["shape", "transposed", "dtype", "type", "zero", "dims", "flat"]
            )
        ),
    }


def run_bad(case, rec):
    h, w = case["h"], case["w"]
    gts, pds = make(case, "gts"), make(case, "pds")
    masks = gts if case["side"] == "gts" else pds
    shape = (h, w)
    what = case["what"]
    at = min(case["at"], len(masks))

    def call():
        nonlocal shape
        if what == "shape":
            bad = Bitmask(mask=np.ones((h + 1, w), dtype=np.bool_), label="a")
        elif what == "transposed":
            if h == w:
                bad = Bitmask(mask=np.ones((h, w + 1), dtype=np.bool_), label="a")
            else:
                bad = Bitmask(mask=np.ones((w, h), dtype=np.bool_), label="a")
        elif what == "flat":
            bad = Bitmask(mask=np.ones(h * w, dtype=np.bool_), label="a")
        elif what == "dtype":
            bad = Bitmask(mask=np.ones((h, w), dtype=np.uint8), label="a")
        elif what == "type":
            bad = np.ones((h, w), dtype=np.bool_)
        elif what == "zero":
            shape, bad = (0, w), None
        else:
            shape, bad = (h, w, 1), None
        if bad is not None:
            masks.insert(at, bad)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            Segmentation(uid="u", groundtruths=gts, predictions=pds, shape=shape)

    try:
        call()
    except ValueError:
        rec.label(what)
        rec.interesting(at > 0)
        return
    raise AssertionError(f"malformed input ({what}) was accepted")


TESTS = [
    Test("overlaps", cases(), run, quick=16000, thorough=150000),
    Test("crowds", crowds(), run_crowd, quick=64, thorough=600),
    Test("malformed", bad_cases(), run_bad, quick=3000, thorough=20000),
]
