"""C21: a persisted evaluation reloads to identical results."""
import os
import shutil

import pyarrow as pa
from hypothesis import strategies as st

from vlib import tasks
from vlib.common import expect, expressions, to_expression
from vlib.core import CaseScratch, Test

ID = "C21"
RULE = (
    "Random data of each task written to disk under random layouts, then a random history of load, move of the directory, filter from a loaded "
    "evaluator, reload of the filtered cache, load with a renaming label mapping and load of a bad path; every loaded evaluator must report the snapshot of the one "
    "that wrote the data. Non-trivial: at least two loads and a move or a filter in between."
)
ASSUMPTIONS = [
    "scores are distinct and no two pairs tie in score and IoU",
    "metadata types with a pyarrow alias (numbers, strings, booleans, dates, timestamps)",
    "a filtered cache is reloaded with the label mapping of the evaluator it came from",
]
_f = expressions(
    {"dk": st.integers(0, 2), "ds": st.sampled_from(["u", "v", ""])}, depth=1
)
TYPES = {
    "int32": pa.int32(),
    "float32": pa.float32(),
    "bool": pa.bool_(),
    "string": pa.string(),
    "date32": pa.date32(),
    "timestamp": pa.timestamp("us"),
    "double": pa.float64(),
    "alias:int16": "int16",
    "alias:string": "string",
}


def cases(task):
    @st.composite
    def make(draw):
        return {
            "data": draw(tasks.datasets(task)),
            "params": draw(tasks.params(task)),
            "cfg": draw(tasks.storage(task, "file")),
            "extra": draw(
                st.dictionaries(
                    st.sampled_from(["e1", "é 2", "e3"]),
                    st.sampled_from(sorted(TYPES)),
                    max_size=2,
                )
            ),
            "ops": draw(
                st.lists(
                    st.one_of(
                        st.just(["load"]),
                        st.just(["move"]),
                        st.tuples(st.just("filter"), _f).map(list),
                        st.just(["bad"]),
                        st.just(["names"]),
                    ),
                    min_size=1,
                    max_size=5,
                )
            ),
        }

    return make()


def runner(task):
    mod = tasks.MODULES[task]
    Ev = tasks.EVALUATORS[task]

    def run(case, rec):
        data, p = case["data"], case["params"]
        roc = task != "cls" or tasks.is_full(data)
        meta = list(mod.META) + [
            (k, TYPES[v]) for k, v in sorted(case["extra"].items())
        ]

        def snap(ev):
            return tasks.snapshot(task, ev, p, roc=roc)

        with CaseScratch() as tmp:
            path = f"{tmp}/c"
            ev = tasks.build(task, case["cfg"], path, data, meta=meta)
            want = snap(ev)
            expect(
                want["info"]["metadata_fields"] == {k: str(v) for k, v in meta},
                "metadata fields",
                want["info"]["metadata_fields"],
            )
            order = [k for k, _ in meta]

            def declared(e):
                expect(
                    [f[0] for f in e.info.metadata_fields] == order,
                    "metadata fields are listed in another order",
                    e.info.metadata_fields,
                )

            declared(ev)
            cur = ev
            loads = changes = 0
            n = 0
            for op in case["ops"]:
                n += 1
                if op[0] == "load":
                    cur = Ev.load(path)
                    loads += 1
                elif op[0] == "move":
                    new = f"{tmp}/moved{n}"
                    os.rename(path, new)
                    path = new
                    cur = Ev.load(path)
                    loads += 1
                    changes += 1
                elif op[0] == "names":
                    # a label mapping given by the caller is the one used
                    labels = tasks.label_index(cur)
                    if labels is not None:
                        other = Ev.load(
                            path,
                            index_to_label_override={
                                k: f"{v}!" for k, v in labels.items()
                            },
                        )
                        tasks.same(
                            {
                                "metrics": tasks.rename_snapshot(
                                    task,
                                    tasks.metrics_of(task, cur, p, roc=roc),
                                    lambda x: f"{x}!",
                                    lambda x, _: x,
                                )
                            },
                            {
                                "metrics": tasks.canonical(
                                    tasks.metrics_of(task, other, p, roc=roc)
                                )
                            },
                            "loaded with a renaming label mapping",
                            info=False,
                        )
                        rec.label("label mapping given")
                elif op[0] == "bad":
                    try:
                        Ev.load(f"{tmp}/absent")
                        raise AssertionError("a missing path was loaded")
                    except FileNotFoundError:
                        pass
                    with open(f"{tmp}/plain", "w") as fh:
                        fh.write("x")
                    try:
                        Ev.load(f"{tmp}/plain")
                        raise AssertionError("a plain file was loaded")
                    except NotADirectoryError:
                        pass
                    os.remove(f"{tmp}/plain")
                    expect(not os.path.exists(f"{tmp}/absent"), "path was created")
                else:
                    e = to_expression(op[1])
                    fp = f"{tmp}/f{n}"
                    try:
                        sub = cur.filter(datums=e, path=fp)
                    except Exception as err:
                        expect(
                            type(err).__name__ == "EmptyCacheError",
                            "filter failed",
                            err,
                        )
                    else:
                        changes += 1
                        a = snap(sub)
                        labels = tasks.label_index(cur)
                        if labels is not None:
                            back = Ev.load(fp, index_to_label_override=labels)
                            tasks.same(a, snap(back), "reloaded filtered cache")
                            rec.label("filtered cache reloaded")
                        shutil.rmtree(fp)
                tasks.same(want, snap(cur), f"after {op[0]}")
                declared(cur)
            tasks.same(want, snap(Ev.load(path)), "final load")
            rec.label(task)
            rec.label("extra metadata types", bool(case["extra"]))
            rec.interesting(loads + 1 >= 2 and changes > 0)

    return run


TESTS = [
    Test("classification", cases("cls"), runner("cls"), quick=400, thorough=6000),
    Test("detection", cases("od"), runner("od"), quick=400, thorough=6000),
    Test("segmentation", cases("seg"), runner("seg"), quick=400, thorough=6000),
]
