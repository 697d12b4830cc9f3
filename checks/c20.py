"""C20: results do not depend on storage."""
from hypothesis import strategies as st

from vlib import cls, od, tasks
from vlib.common import expressions, to_expression
from vlib.core import CaseScratch, Test

ID = "C20"
RULE = (
    "Random data of each task stored twice: two independent choices of backend, batch size (down to 1), rows per file, "
    "compression, merge batch size and split into add calls; every metric, example and info number is compared, with and "
    "without a datum filter and after filtering; tables of up to 20000 rows in one piece against many small files. Non-"
    "trivial: at least one side uses several files or batches and the data have two or more datums."
)
ASSUMPTIONS = [
    "scores are distinct and no two pairs tie in score and IoU",
    "relative tolerance 1e-9; examples of one cell are compared as sets",
]
_f = expressions(
    {"dk": st.integers(0, 2), "ds": st.sampled_from(["u", "v", ""])}, depth=1
)


def cases(task):
    @st.composite
    def make(draw):
        return {
            "data": draw(tasks.datasets(task)),
            "params": draw(tasks.params(task)),
            "a": draw(tasks.storage(task)),
            "b": draw(tasks.storage(task)),
            "filter": draw(st.one_of(st.none(), _f)),
        }

    return make()


def runner(task):
    def run(case, rec):
        data, p = case["data"], case["params"]
        roc = task != "cls" or tasks.is_full(data)
        f = case["filter"]
        snaps = []
        with CaseScratch() as tmp:
            for k in "ab":
                ev = tasks.build(task, case[k], f"{tmp}/{k}", data)
                one = [tasks.snapshot(task, ev, p, roc=roc)]
                if f:
                    e = to_expression(f)
                    one.append(tasks.snapshot(task, ev, p, datums=e, roc=roc))
                    try:
                        sub = ev.filter(datums=e, path=f"{tmp}/{k}-f")
                    except Exception as err:
                        one.append(type(err).__name__)
                    else:
                        one.append(tasks.snapshot(task, sub, p, roc=roc))
                snaps.append(one)
        for x, y in zip(*snaps):
            if isinstance(x, str) or isinstance(y, str):
                assert x == y, f"filter outcome differs: {x} / {y}"
            else:
                tasks.same(x, y, f"{task} {case['a']} vs {case['b']}")
        rec.label(task)
        rec.label(
            f"{case['a']['backend']}/{case['b']['backend']}",
        )
        small = any(
            case[k]["batch_size"] < 4
            or (case[k]["backend"] == "file" and case[k]["rows_per_file"] < 4)
            for k in "ab"
        )
        rec.interesting(
            len(data) > 1
            and small
            and {k: v for k, v in case["a"].items()} != case["b"]
        )

    return run


@st.composite
def manys(draw):
    """Tables and files of tens of thousands of rows against many small ones."""
    task = draw(st.sampled_from(["od", "od", "cls", "seg"]))
    if task == "od":
        bulk = {**draw(od.late_datasets(order="pair")), "late": 13_000}
    elif task == "cls":
        bulk = {**draw(cls.late_datasets()), "grid": False, "late": 3_000}
    else:
        bulk = {
            "seed": draw(st.integers(1, 2**32)),
            "datums": draw(st.integers(8, 14)),
            "labels": 3,
            "side": 9,
            "late": 20_000,
        }
    some = {
        "batch_size": 10_000,
        "rows_per_file": 50_000,
        "compression": "snappy",
        "finalize": 1000,
        "split": [],
        "kind": "bbox",
        "unit": 1,
    }
    a = {**some, "backend": draw(st.sampled_from(["memory", "memory", "file"]))}
    b = {
        **some,
        "backend": "file",
        "batch_size": draw(st.integers(100, 2000)),
        "rows_per_file": draw(st.integers(200, 3000)),
        "finalize": draw(st.sampled_from([100, 1000])),
    }
    f = ["cmp", "dk", ">=", 1]
    return {
        "task": task,
        "bulk": bulk,
        "params": draw(tasks.params(task)),
        "a": a,
        "b": b,
        "filter": draw(st.sampled_from([None, f])),
    }


def run_many(case, rec):
    data = tasks.MODULES[case["task"]].expand(case["bulk"])
    runner(case["task"])({**case, "data": data}, rec)
    rec.interesting(True)


TESTS = [
    Test("classification", cases("cls"), runner("cls"), quick=1000, thorough=12000),
    Test("detection", cases("od"), runner("od"), quick=1000, thorough=12000),
    Test("segmentation", cases("seg"), runner("seg"), quick=1000, thorough=12000),
    Test("many", manys(), run_many, quick=16, thorough=160),
]
