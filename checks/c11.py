"""C11: IoU is exact."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from shapely.affinity import scale as shp_scale
from shapely.affinity import translate as shp_translate
from shapely.geometry import Polygon as Shp
from valor_lite.object_detection.computation import (
    compute_bbox_iou,
    compute_bitmask_iou,
    compute_polygon_iou,
)

from vlib import od
from vlib.common import approx_equal, expect
from vlib.core import CaseScratch, Test

ID = "C11"
RULE = (
    "Lists of pairs of float boxes, convex polygons, rectilinear polygons (with holes) and bitmasks against exact rational areas; "
    "symmetry, identity, translation, scaling, axis swap and independence of the other pairs; whole scenes "
    "in three representations compared metric by metric. Non-trivial: some IoU strictly between 0 and 1."
)
ASSUMPTIONS = [
    "regions have side lengths of at least 0.01 (or exactly 0: no area) and coordinates below 10000",
    "absolute tolerance 1e-9 (1e-7 for float boxes and polygons)",
]


# ------------------------------------------------------------------ boxes

coords = st.one_of(
    st.integers(-50, 50),
    st.integers(0, 5),
    st.floats(-1000, 1000, allow_nan=False, width=32),
    st.floats(0, 1, allow_nan=False),
)
extents = st.one_of(
    st.integers(1, 40), st.floats(0.01, 60, allow_nan=False), st.just(0.5)
)


@st.composite
def fboxes(draw, near=None):
    if near is not None and draw(st.booleans()):
        x0, x1, y0, y1 = near
        dx = draw(st.floats(-1.2, 1.2)) * (x1 - x0)
        dy = draw(st.floats(-1.2, 1.2)) * (y1 - y0)
        w = (x1 - x0) * draw(st.sampled_from([1, 1, 0.5, 2]))
        h = (y1 - y0) * draw(st.sampled_from([1, 1, 0.5, 2]))
        x0, y0 = x0 + dx, y0 + dy
    else:
        x0, y0 = draw(coords), draw(coords)
        w, h = draw(extents), draw(extents)
        if draw(st.integers(0, 15)) == 0:  # no area
            w, h = draw(st.sampled_from([(0, h), (w, 0), (0, 0)]))
    return [float(x0), float(x0 + w), float(y0), float(y0 + h)]


@st.composite
def box_cases(draw):
    pairs = []
    for _ in range(draw(st.integers(1, 6))):
        a = draw(fboxes())
        pairs.append([a, draw(fboxes(a))])
    return {
        "pairs": pairs,
        "shift": [draw(st.integers(-64, 64)), draw(st.integers(-64, 64))],
        "scale": draw(st.sampled_from([0.5, 2.0, 4.0])),
    }


def exact_box_iou(a, b):
    a = [Fraction(v) for v in a]
    b = [Fraction(v) for v in b]
    w = min(a[1], b[1]) - max(a[0], b[0])
    h = min(a[3], b[3]) - max(a[2], b[2])
    i = w * h if w > 0 and h > 0 else Fraction(0)
    u = (a[1] - a[0]) * (a[3] - a[2]) + (b[1] - b[0]) * (b[3] - b[2]) - i
    return float(i / u) if u else 0.0


def flat(a):
    return a[0] == a[1] or a[2] == a[3]


def near(got, want, msg, tol=1e-7):
    got = [float(x) for x in got]
    expect(
        len(got) == len(want)
        and all(abs(g - w) <= tol for g, w in zip(got, want)),
        msg,
        got,
        want,
    )
    expect(all(-1e-12 <= g <= 1 + 1e-9 for g in got), "IoU outside [0, 1]", got)


def run_boxes(case, rec):
    pairs = case["pairs"]
    arr = np.array(pairs, dtype=np.float64)
    keep = arr.copy()
    want = [exact_box_iou(a, b) for a, b in pairs]
    near(compute_bbox_iou(arr), want, "box IoU")
    expect(np.array_equal(arr, keep), "input was modified")
    near(compute_bbox_iou(arr[:, ::-1]), want, "box IoU of swapped pairs")
    near(compute_bbox_iou(arr[::-1]), want[::-1], "box IoU of reversed pairs")
    for i in range(len(pairs)):
        near(compute_bbox_iou(arr[i : i + 1]), want[i : i + 1], "single box IoU")
    near(
        compute_bbox_iou(arr[:, [0, 0]]),
        [0.0 if flat(a) else 1.0 for a, _ in pairs],
        "box with itself",
    )
    rec.label("box without area", any(flat(b) for p in pairs for b in p))
    near(
        compute_bbox_iou(arr[:, :, [2, 3, 0, 1]]), want, "box IoU with swapped axes"
    )
    dx, dy = case["shift"]
    near(
        compute_bbox_iou(arr + np.array([dx, dx, dy, dy])), want, "shifted box IoU", 1e-5
    )
    near(compute_bbox_iou(arr * case["scale"]), want, "scaled box IoU")
    rec.label("touching or disjoint", any(w == 0 for w in want))
    rec.interesting(any(0 < w < 1 for w in want))


# --------------------------------------------------------------- polygons


@st.composite
def convex(draw):
    cx, cy = draw(st.integers(-8, 8)), draw(st.integers(-8, 8))
    pts = draw(
        st.lists(
            st.tuples(st.integers(-9, 9), st.integers(-9, 9)),
            min_size=3,
            max_size=7,
        )
    )
    h = hull([(cx + x, cy + y) for x, y in pts])
    if len(h) < 3:
        h = [(cx, cy), (cx + 4, cy), (cx, cy + 3)]
    return [list(p) for p in h]


def hull(points):
    pts = sorted(set(points))
    if len(pts) < 3:
        return pts

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out

    lo, hi = half(pts), half(pts[::-1])
    return lo[:-1] + hi[:-1]


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def area(poly):
    s = Fraction(0)
    for (x0, y0), (x1, y1) in zip(poly, poly[1:] + poly[:1]):
        s += x0 * y1 - x1 * y0
    return abs(s) / 2


def clip(subject, by):
    """Intersection of two counter-clockwise convex polygons."""
    out = [(Fraction(x), Fraction(y)) for x, y in subject]
    for a, b in zip(by, by[1:] + by[:1]):
        src, out = out, []
        for p, q in zip(src, src[1:] + src[:1]):
            sp, sq = cross(a, b, p), cross(a, b, q)
            if sp >= 0:
                out.append(p)
            if (sp > 0 and sq < 0) or (sp < 0 and sq > 0):
                t = Fraction(sp) / (sp - sq)
                out.append((p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t))
        if len(out) < 3:
            return []
    return out


@st.composite
def poly_cases(draw):
    return {
        "pairs": draw(
            st.lists(
                st.tuples(convex(), convex()).map(list), min_size=1, max_size=4
            )
        ),
        "shift": [draw(st.integers(-64, 64)), draw(st.integers(-64, 64))],
        "scale": draw(st.sampled_from([0.5, 2.0, 8.0])),
    }


def run_polys(case, rec):
    want = []
    for a, b in case["pairs"]:
        ta, tb = [tuple(p) for p in a], [tuple(p) for p in b]
        i = clip(ta, tb)
        i = area(i) if i else Fraction(0)
        want.append(float(i / (area(ta) + area(tb) - i)))
    shapes = [[Shp(a), Shp(b)] for a, b in case["pairs"]]
    arr = np.array(shapes)
    near(compute_polygon_iou(arr), want, "polygon IoU")
    near(compute_polygon_iou(arr[:, ::-1]), want, "swapped polygon IoU")
    for i in range(len(want)):
        near(compute_polygon_iou(arr[i : i + 1]), want[i : i + 1], "single polygon IoU")
    near(compute_polygon_iou(arr[:, [0, 0]]), [1.0] * len(want), "polygon with itself")
    dx, dy = case["shift"]
    k = case["scale"]
    moved = np.array(
        [
            [
                shp_scale(
                    shp_translate(s, dx, dy), xfact=k, yfact=k, origin=(0, 0)
                )
                for s in pair
            ]
            for pair in shapes
        ]
    )
    near(compute_polygon_iou(moved), want, "shifted and scaled polygon IoU")
    flipped = np.array(
        [
            [Shp([(y, x) for x, y in p]) for p in pair]
            for pair in case["pairs"]
        ]
    )
    near(compute_polygon_iou(flipped), want, "polygon IoU with swapped axes")
    rec.interesting(any(0 < w < 1 for w in want))


# -------------------------------------------------- cells: masks and polygons


@st.composite
def skyline(draw, width):
    """A rectilinear polygon: one run of cells [lo, hi) per column, all runs
    share row 4, optionally with a one-cell hole."""
    start = draw(st.integers(0, width - 2))
    n = draw(st.integers(1, width - start))
    cols = [
        [draw(st.integers(0, 4)), draw(st.integers(5, 9))] for _ in range(n)
    ]
    hole = None
    if n >= 3 and draw(st.booleans()):
        i = draw(st.integers(1, n - 2))
        # rows strictly inside the column and its neighbours
        lo = max(c[0] for c in cols[i - 1 : i + 2]) + 1
        hi = min(c[1] for c in cols[i - 1 : i + 2]) - 1
        if lo < hi:
            hole = [start + i, draw(st.integers(lo, hi - 1))]
    return {"start": start, "cols": cols, "hole": hole}


def cells_of(s):
    out = {
        (s["start"] + i, y)
        for i, (lo, hi) in enumerate(s["cols"])
        for y in range(lo, hi)
    }
    if s["hole"]:
        out.discard(tuple(s["hole"]))
    return out


def shape_of(s):
    top, bottom = [], []
    for i, (lo, hi) in enumerate(s["cols"]):
        x = s["start"] + i
        bottom += [(x, lo), (x + 1, lo)]
        top += [(x, hi), (x + 1, hi)]
    holes = []
    if s["hole"]:
        x, y = s["hole"]
        holes = [[(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)]]
    return Shp(bottom + top[::-1], holes)


@st.composite
def cell_cases(draw):
    w = draw(st.integers(3, 8))
    return {
        "w": w,
        "pairs": draw(
            st.lists(
                st.tuples(skyline(w), skyline(w)).map(list),
                min_size=1,
                max_size=4,
            )
        ),
    }


def run_cells(case, rec):
    w = case["w"]
    masks, shapes, want = [], [], []
    for a, b in case["pairs"]:
        ca, cb = cells_of(a), cells_of(b)
        want.append(len(ca & cb) / len(ca | cb))
        pair = []
        for c in (ca, cb):
            m = np.zeros((9, w), dtype=np.bool_)
            for x, y in c:
                m[y, x] = True
            pair.append(m)
        masks.append(pair)
        shapes.append([shape_of(a), shape_of(b)])
    near(compute_bitmask_iou(np.array(masks)), want, "bitmask IoU", 1e-12)
    near(compute_polygon_iou(np.array(shapes)), want, "rectilinear polygon IoU", 1e-9)
    rec.label("hole", any(s["hole"] for p in case["pairs"] for s in p))
    rec.interesting(any(0 < v < 1 for v in want))


# ------------------------------------------------------------------ bitmasks


@st.composite
def mask_cases(draw):
    h, w = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    cells = st.sets(
        st.integers(0, h * w - 1), min_size=1, max_size=h * w
    ).map(sorted)
    return {
        "h": h,
        "w": w,
        "tile": draw(st.sampled_from([1, 1, 20, 40])),
        "pairs": draw(
            st.lists(st.tuples(cells, cells).map(list), min_size=1, max_size=5)
        ),
    }


def run_masks(case, rec):
    h, w, k = case["h"], case["w"], case["tile"]
    masks, want = [], []
    for pair in case["pairs"]:
        ms = []
        for c in pair:
            m = np.zeros(h * w, dtype=np.bool_)
            m[c] = True
            # repeat every pixel k x k times: IoU is unchanged, counts are not
            ms.append(np.kron(m.reshape(h, w), np.ones((k, k), dtype=np.bool_)))
        masks.append(ms)
        a, b = map(set, pair)
        want.append(len(a & b) / len(a | b))
    arr = np.array(masks)
    near(compute_bitmask_iou(arr), want, "bitmask IoU", 1e-12)
    near(compute_bitmask_iou(arr[:, ::-1]), want, "swapped bitmask IoU", 1e-12)
    near(compute_bitmask_iou(arr.swapaxes(2, 3)), want, "transposed bitmask IoU", 1e-12)
    near(compute_bitmask_iou(arr[::-1]), want[::-1], "reversed bitmask pairs", 1e-12)
    near(compute_bitmask_iou(arr[:, [1, 1]]), [1.0] * len(want), "mask with itself", 1e-12)
    for i in range(len(want)):
        near(compute_bitmask_iou(arr[i : i + 1]), want[i : i + 1], "single bitmask IoU", 1e-12)
    rec.label("large mask", k > 1)
    rec.interesting(any(0 < v < 1 for v in want))


# -------------------------------------------------------------------- scenes


@st.composite
def scene_cases(draw):
    return {
        "data": draw(od.datasets(distinct=True, multi=draw(st.booleans()), order="pair")),
        "ious": draw(od.iou_thresholds),
        "scores": draw(od.score_thresholds),
        "cfg": draw(od.storage()),
    }


def run_scenes(case, rec):
    data = case["data"]
    if not od.has_annotations(data):
        return
    res = {}
    with CaseScratch() as tmp:
        for kind in ("bbox", "polygon", "bitmask"):
            ev = od.build({**case["cfg"], "kind": kind}, f"{tmp}/{kind}", data)
            args = dict(
                iou_thresholds=list(case["ious"]),
                score_thresholds=list(case["scores"]),
            )
            res[kind] = {
                "pr": {
                    str(k): [m.to_dict() for m in v]
                    for k, v in ev.compute_precision_recall(**args).items()
                },
                "cm": [m.to_dict() for m in ev.compute_confusion_matrix(**args)],
                "ex": [m.to_dict() for m in ev.compute_examples(**args)],
            }
    for kind in ("polygon", "bitmask"):
        for part in res["bbox"]:
            expect(
                approx_equal(res["bbox"][part], res[kind][part]),
                f"{part} of boxes and {kind}s differ",
                res["bbox"][part],
                res[kind][part],
            )
    rec.label("scene")
    rec.interesting(
        any(
            0 < od.iou(g["box"], p["box"]) < 1
            for d in data
            for g in d["gts"]
            for p in d["pds"]
        )
    )


TESTS = [
    Test("boxes", box_cases(), run_boxes, quick=8000, thorough=60000),
    Test("polygons", poly_cases(), run_polys, quick=5000, thorough=30000),
    Test("cells", cell_cases(), run_cells, quick=3000, thorough=20000),
    Test("masks", mask_cases(), run_masks, quick=4000, thorough=30000),
    Test("scenes", scene_cases(), run_scenes, quick=1000, thorough=10000),
]
