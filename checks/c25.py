"""C25: invalid input and misuse are refused and change nothing."""
import os

import numpy as np
import pyarrow.compute as pc
from hypothesis import strategies as st
from shapely.geometry import Point
from shapely.geometry import Polygon as Shape
from valor_lite import classification as vc
from valor_lite import object_detection as vo
from valor_lite import semantic_segmentation as vs
from valor_lite.exceptions import EmptyCacheError

from vlib import tasks
from vlib.common import expect
from vlib.core import CaseScratch, Test

ID = "C25"
RULE = (
    "Random valid data of each task, added in several calls with a random sequence of invalid calls in between and after "
    "finalization (malformed annotations, reserved metadata names, empty thresholds, empty data, double finalization, creating or filtering over an "
    "existing cache, filtering without a path). Each invalid call must raise the matching error and the final results must equal "
    "those of the same data loaded without the invalid calls. Non-trivial: at least two kinds of invalid calls, one of them between two "
    "additions of data or after finalization."
)
ASSUMPTIONS = [
    "scores are distinct and no two pairs tie in score and IoU",
    "finalizing twice is judged for detection only with at least one prediction",
    "a rejected list of data contains the invalid element first (elements before it may have been added)",
]

NEW = "label of a rejected call"


def raises(types, fn, what):
    try:
        fn()
    except types:
        return
    except Exception as e:  # noqa: BLE001
        raise AssertionError(f"{what}: raised {type(e).__name__}: {e}") from e
    raise AssertionError(f"{what}: was accepted")


# ------------------------------------------------------- malformed annotations

_n = st.integers(0, 3)
_shape = st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list)


@st.composite
def malformed(draw, task):
    if task == "cls":
        kind = draw(st.sampled_from(["lengths", "groundtruth"]))
        if kind == "lengths":
            a, b = draw(_n), draw(_n)
            return [kind, a, b if a != b else b + 1]
        return [kind, draw(st.sampled_from(["list", "none", "int"]))]
    if task == "od":
        kind = draw(
            st.sampled_from(
                [
                    "lengths",
                    "unscored",
                    "prediction",
                    "polygon",
                    "mask dtype",
                    "mask empty",
                    "mask type",
                ]
            )
        )
        cls_ = draw(st.sampled_from(["bbox", "polygon", "bitmask"]))
        if kind == "lengths":
            a, b = draw(_n), draw(st.integers(1, 3))
            return [kind, cls_, a, b if a != b else b + 1]
        if kind == "unscored":
            return [kind, cls_, draw(st.sampled_from([0, 2, 3]))]
        if kind == "polygon":
            return [kind, draw(st.sampled_from(["empty", "point", "list", "none"]))]
        if kind == "mask dtype":
            return [kind, draw(st.sampled_from(["uint8", "int64", "float64", "object"]))]
        if kind == "mask empty":
            return [kind, draw(_shape)]
        return [kind, cls_]
    kind = draw(
        st.sampled_from(["mask dtype", "mask shape", "mask transposed", "dims", "element"])
    )
    side = draw(st.sampled_from(["gt", "pd"]))
    if kind == "mask dtype":
        return [kind, draw(st.sampled_from(["uint8", "int64", "float64", "object"]))]
    if kind == "mask shape":
        a, b = draw(_shape), draw(_shape)
        return [kind, side, a, b if a != b else [b[0] + 1, b[1]], draw(_n)]
    if kind == "mask transposed":
        a = draw(_shape)
        a = a if a[0] != a[1] else [a[0], a[1] + 1]
        return ["mask shape", side, a, a[::-1], draw(_n)]
    if kind == "dims":
        return [
            kind,
            draw(st.sampled_from([[], [3], [0, 3], [3, 0], [2, 2, 2], [-1, 2], [2, -2], [-2, -2]])),
        ]
    return [kind, side]


def _ann(kind, labels, scores):
    kw = {"uid": "bad", "labels": labels}
    if scores is not None:
        kw["scores"] = scores
    if kind == "bbox":
        return vo.BoundingBox(xmin=0, xmax=1, ymin=0, ymax=1, **kw)
    if kind == "polygon":
        return vo.Polygon(shape=Shape([(0, 0), (1, 0), (1, 1)]), **kw)
    return vo.Bitmask(mask=np.ones((2, 2), dtype=np.bool_), **kw)


def reject_annotation(task, bad):
    kind = bad[0]
    if task == "cls":
        if kind == "lengths":
            raises(
                ValueError,
                lambda: vc.Classification(
                    uid="bad",
                    groundtruth=NEW,
                    predictions=[f"l{i}" for i in range(bad[1])],
                    scores=[0.5] * bad[2],
                ),
                "labels and scores of different length",
            )
        else:
            gt = {"list": [NEW], "none": None, "int": 3}[bad[1]]
            raises(
                ValueError,
                lambda: vc.Classification(
                    uid="bad", groundtruth=gt, predictions=["a"], scores=[0.5]
                ),
                "ground truth that is not one label",
            )
        return
    if task == "od":
        if kind == "lengths":
            raises(
                ValueError,
                lambda: _ann(bad[1], [f"l{i}" for i in range(bad[2])], [0.5] * bad[3]),
                "labels and scores of different length",
            )
        elif kind == "unscored":
            raises(
                ValueError,
                lambda: _ann(bad[1], [f"l{i}" for i in range(bad[2])], None),
                "unscored annotation without exactly one label",
            )
        elif kind == "prediction":
            raises(ValueError, lambda: _ann(bad[1], ["a", "b"], []), "no scores")
        elif kind == "polygon":
            shape = {
                "empty": Shape(),
                "point": Point(0, 0),
                "list": [(0, 0), (1, 0), (1, 1)],
                "none": None,
            }[bad[1]]
            raises(
                (ValueError, TypeError),
                lambda: vo.Polygon(uid="bad", shape=shape, labels=["a"]),
                f"polygon shape {bad[1]}",
            )
        elif kind == "mask dtype":
            raises(
                ValueError,
                lambda: vo.Bitmask(
                    uid="bad", mask=np.ones((2, 2), dtype=bad[1]), labels=["a"]
                ),
                f"mask of {bad[1]}",
            )
        elif kind == "mask empty":
            raises(
                ValueError,
                lambda: vo.Bitmask(
                    uid="bad", mask=np.zeros(bad[1], dtype=np.bool_), labels=["a"]
                ),
                "mask without pixels",
            )
        else:
            raises(
                ValueError,
                lambda: vo.Bitmask(uid="bad", mask=[[True]], labels=["a"]),
                "mask that is not an array",
            )
        # an unscored prediction is refused by the datum whatever its kind
        if kind in ("prediction", "mask type"):
            good = _ann(bad[1], ["a"], [0.5])
            raises(
                ValueError,
                lambda: vo.Detection(
                    uid="bad",
                    groundtruths=[],
                    predictions=[good, _ann(bad[1], [NEW], None)],
                ),
                "prediction without a score",
            )
        return
    if kind == "mask dtype":
        raises(
            ValueError,
            lambda: vs.Bitmask(mask=np.ones((2, 2), dtype=bad[1]), label=NEW),
            f"mask of {bad[1]}",
        )
    elif kind == "dims":
        raises(
            ValueError,
            lambda: vs.Segmentation(
                uid="bad", groundtruths=[], predictions=[], shape=tuple(bad[1])
            ),
            f"shape {bad[1]}",
        )
    else:
        side = bad[1]
        if kind == "element":
            shape, masks = (2, 2), ["not a mask"]
        else:
            shape = tuple(bad[2])
            ok = [
                vs.Bitmask(mask=np.zeros(shape, dtype=np.bool_), label="a")
                for _ in range(bad[4])
            ]
            masks = ok + [
                vs.Bitmask(mask=np.ones(bad[3], dtype=np.bool_), label=NEW)
            ]
        raises(
            ValueError,
            lambda: vs.Segmentation(
                uid="bad",
                groundtruths=masks if side == "gt" else [],
                predictions=masks if side == "pd" else [],
                shape=shape,
            ),
            f"{kind} among {side}",
        )


# --------------------------------------------------------------------- misuse

RESERVED = {
    "cls": [
        "datum_uid",
        "datum_id",
        "gt_label",
        "gt_label_id",
        "pd_label",
        "pd_label_id",
        "pd_score",
        "pd_winner",
        "match",
    ],
    "od": [
        "datum_uid",
        "datum_id",
        "gt_uid",
        "gt_id",
        "gt_label",
        "gt_label_id",
        "pd_uid",
        "pd_id",
        "pd_label",
        "pd_label_id",
        "pd_score",
        "iou",
        "iou_prev",
    ],
    "seg": [
        "datum_uid",
        "datum_id",
        "gt_label",
        "gt_label_id",
        "pd_label",
        "pd_label_id",
        "count",
    ],
}
EMPTY = {
    "cls": [{"score_thresholds": []}, {"score_thresholds": [], "hardmax": False}],
    "od": [
        {"iou_thresholds": [], "score_thresholds": [0.5]},
        {"iou_thresholds": [0.5], "score_thresholds": []},
        {"iou_thresholds": [], "score_thresholds": []},
    ],
}
METHODS = [
    "compute_precision_recall",
    "compute_confusion_matrix",
    "compute_examples",
    "compute_confusion_matrix_with_examples",
]


@st.composite
def calls(draw, task, when):
    kinds = ["malformed", "malformed", "reserved", "create over"]
    if when == "load":
        kinds += ["unfinished empty"]
        if task == "cls":
            kinds += ["no predictions"] * 2
        if task == "od":
            kinds += ["masks differ"] * 2
    else:
        kinds += ["filter without path", "filter over", "filter all", "bad load"]
        if task != "seg":
            kinds += ["finalize again", "no thresholds"]
    kind = draw(st.sampled_from(kinds))
    if kind == "malformed":
        return [kind, draw(malformed(task))]
    if kind == "reserved":
        return [
            kind,
            draw(st.sampled_from(RESERVED[task])),
            draw(st.sampled_from(["memory", "file"])),
            draw(st.booleans()),
        ]
    if kind == "no predictions":
        return [kind, draw(st.booleans())]
    if kind == "masks differ":
        a, b = draw(_shape), draw(_shape)
        return [kind, a, b if a != b else [b[0], b[1] + 1]]
    return [kind]


def cases(task):
    @st.composite
    def make(draw):
        return {
            "data": draw(tasks.datasets(task)),
            "params": draw(tasks.params(task)),
            "cfg": draw(tasks.storage(task)),
            "during": draw(
                st.lists(
                    st.tuples(st.integers(0, 9), calls(task, "load")).map(list),
                    max_size=4,
                )
            ),
            "after": draw(st.lists(calls(task, "done"), max_size=4)),
        }

    return make()


def runner(task):
    mod = tasks.MODULES[task]
    Ev = tasks.EVALUATORS[task]
    Ld = tasks.LOADERS[task]

    def run(case, rec):
        data, p, cfg = case["data"], case["params"], case["cfg"]
        roc = task != "cls" or tasks.is_full(data)
        on_disk = cfg["backend"] == "file"
        kinds = set()
        with CaseScratch() as tmp:
            want = tasks.snapshot(
                task, tasks.build(task, cfg, f"{tmp}/plain", data), p, roc=roc
            )
            path = f"{tmp}/c"
            loader = mod.loader_for(cfg, path)
            count = 0

            def common(call):
                nonlocal count
                count += 1
                kind = call[0]
                kinds.add(kind if kind != "malformed" else f"malformed {call[1][0]}")
                rec.label(kind)
                if kind == "malformed":
                    reject_annotation(task, call[1])
                elif kind == "reserved":
                    fields = [(call[1], "int64")]
                    if call[3]:
                        fields.insert(0, ("fine", "string"))
                    if call[2] == "memory":
                        raises(
                            ValueError,
                            lambda: Ld.in_memory(metadata_fields=fields),
                            f"reserved field {call[1]}",
                        )
                    else:
                        new = f"{tmp}/new{count}"
                        raises(
                            ValueError,
                            lambda: Ld.persistent(path=new, metadata_fields=fields),
                            f"reserved field {call[1]}",
                        )
                        # the refused path can still be used
                        Ld.persistent(path=new, metadata_fields=[("fine", "string")])
                elif kind == "create over":
                    if on_disk:
                        raises(
                            FileExistsError,
                            lambda: Ld.persistent(path=path),
                            "creating over an existing cache",
                        )
                else:
                    return False
                return True

            def during(call):
                if common(call):
                    return
                kind = call[0]
                if kind == "unfinished empty":
                    other = mod.loader_for(cfg, f"{tmp}/e{count}")
                    raises(EmptyCacheError, other.finalize, "finalizing without data")
                    if added == 0:
                        raises(
                            EmptyCacheError, loader.finalize, "finalizing without data"
                        )
                elif kind == "no predictions":
                    bad = [
                        vc.Classification(
                            uid="bad", groundtruth=NEW, predictions=[], scores=[]
                        )
                    ]
                    if call[1]:
                        bad.append(
                            vc.Classification(
                                uid="bad2",
                                groundtruth=NEW,
                                predictions=[NEW],
                                scores=[0.5],
                            )
                        )
                    raises(
                        ValueError,
                        lambda: loader.add_data(bad),
                        "classification without predictions",
                    )
                else:
                    bad = vo.Detection(
                        uid="bad",
                        groundtruths=[
                            vo.Bitmask(
                                uid="g",
                                mask=np.ones(call[1], dtype=np.bool_),
                                labels=[NEW],
                            )
                        ],
                        predictions=[
                            vo.Bitmask(
                                uid="p",
                                mask=np.ones(call[2], dtype=np.bool_),
                                labels=[NEW],
                                scores=[0.5],
                            )
                        ],
                    )
                    raises(
                        ValueError,
                        lambda: loader.add_bitmasks([bad]),
                        "masks of different shapes",
                    )

            objs = mod.objects(data)
            between = 0
            added = 0
            for i, obj in enumerate(objs):
                for at, call in case["during"]:
                    if at % len(objs) == i:
                        during(call)
                        between += added > 0
                mod.ingest(loader, [obj], [])
                added += 1
            ev = loader.finalize(
                **({} if task == "seg" else {"batch_size": cfg.get("finalize", 1000)})
            )
            tasks.same(want, tasks.snapshot(task, ev, p, roc=roc), "after loading")

            for call in case["after"]:
                if not common(call):
                    kind = call[0]
                    if kind == "finalize again":
                        # nothing is ranked, so nothing could be ranked twice
                        if task == "cls" or any(d["pds"] for d in data):
                            raises(
                                RuntimeError, loader.finalize, "finalizing twice"
                            )
                    elif kind == "filter without path":
                        if on_disk:
                            raises(
                                ValueError,
                                lambda: ev.filter(datums=pc.field("dk") >= 0),
                                "filtering on disk without a path",
                            )
                    elif kind == "filter over":
                        if on_disk:
                            raises(
                                FileExistsError,
                                lambda: ev.filter(
                                    datums=pc.field("dk") >= 0, path=path
                                ),
                                "filtering onto an existing cache",
                            )
                    elif kind == "filter all":
                        raises(
                            EmptyCacheError,
                            lambda: ev.filter(
                                datums=pc.field("datum_id") < 0,
                                path=f"{tmp}/f{count}" if on_disk else None,
                            ),
                            "filtering everything away",
                        )
                    elif kind == "bad load":
                        raises(
                            FileNotFoundError,
                            lambda: Ev.load(f"{tmp}/missing"),
                            "loading a missing path",
                        )
                        expect(
                            not os.path.exists(f"{tmp}/missing"), "path was created"
                        )
                    elif kind == "no thresholds":
                        for method in METHODS:
                            for kw in EMPTY[task]:
                                raises(
                                    ValueError,
                                    lambda: getattr(ev, method)(**kw),
                                    f"{method} with {kw}",
                                )
                tasks.same(
                    want, tasks.snapshot(task, ev, p, roc=roc), f"after {call}"
                )
            if on_disk:
                tasks.same(
                    want,
                    tasks.snapshot(task, Ev.load(path), p, roc=roc),
                    "loaded afterwards",
                )
            rec.label(task)
            rec.interesting(len(kinds) >= 2 and (between > 0 or case["after"]))

    return run


# --------------------------------------------------------------------- forms


@st.composite
def forms(draw):
    """Many malformed inputs, without any data around them."""
    n = draw(st.integers(1, 4))
    return {
        "bad": {
            t: [draw(malformed(t)) for _ in range(3)] for t in ("cls", "od", "seg")
        },
        "kind": draw(st.sampled_from(["bbox", "polygon", "bitmask"])),
        # one bad member among good ones
        "n": n,
        "at": draw(st.integers(0, n)),
        "fields": draw(st.lists(st.sampled_from(["m0", "m1", "é", "x y"]), unique=True)),
        "slot": draw(st.integers(0, 4)),
        "side": draw(st.sampled_from(["gt", "pd"])),
        "shape": draw(_shape),
    }


def run_forms(case, rec):
    for t, bads in case["bad"].items():
        for bad in bads:
            reject_annotation(t, bad)
            rec.label(f"{t} {bad[0]}")
    good = [_ann(case["kind"], ["a"], [0.5]) for _ in range(case["n"])]
    good.insert(case["at"], _ann(case["kind"], ["a"], None))
    raises(
        ValueError,
        lambda: vo.Detection(uid="bad", groundtruths=[], predictions=good),
        "a prediction without a score among others",
    )
    h, w = case["shape"]
    masks = [
        vs.Bitmask(mask=np.zeros((h, w), dtype=np.bool_), label="a")
        for _ in range(case["n"])
    ]
    masks.insert(
        case["at"], vs.Bitmask(mask=np.zeros((w + 1, h + 1), dtype=np.bool_), label="a")
    )
    raises(
        ValueError,
        lambda: vs.Segmentation(
            uid="bad",
            groundtruths=masks if case["side"] == "gt" else [],
            predictions=masks if case["side"] == "pd" else [],
            shape=(h, w),
        ),
        "a mask of another shape among others",
    )
    for t, names in RESERVED.items():
        for name in names:
            fields = [(f, "int64") for f in case["fields"]]
            fields.insert(case["slot"] % (len(fields) + 1), (name, "string"))
            raises(
                ValueError,
                lambda: tasks.LOADERS[t].in_memory(metadata_fields=fields),
                f"{t}: reserved field {name} among {fields}",
            )
    rec.interesting(case["n"] > 1)


TESTS = [
    Test("forms", forms(), run_forms, quick=1600, thorough=20000),
    Test("classification", cases("cls"), runner("cls"), quick=800, thorough=8000),
    Test("detection", cases("od"), runner("od"), quick=800, thorough=8000),
    Test("segmentation", cases("seg"), runner("seg"), quick=600, thorough=6000),
]
