"""C03: sorting a cache yields an ordered permutation, however it is chunked."""
import random
from collections import Counter

import pyarrow as pa
from hypothesis import strategies as st
from valor_lite.cache.compute import sort

from vlib.cachegen import (
    as_dicts,
    canon,
    configs,
    make_writer,
    rows_of,
    schema_of,
    sizes,
    write,
)
from vlib.common import expect
from vlib.core import CaseScratch, Test

ID = "C03"
RULE = (
    "Caches of random layout (several files, empty files, one table, up to 400 files) sorted by one to three numeric "
    "keys in mixed directions with many ties, into a sink of either backend with its own chunking, "
    "random merge batch size and optional column selection; also in-place sorting of a writer. Oracle: "
    "output is a permutation (multiset) of the input and adjacent rows are ordered. Non-trivial: at "
    "least two source tables with rows, or an in-place sort of at least two rows."
)
ASSUMPTIONS = ["sort keys are numeric, without nulls or NaN"]

FIELDS = [["a", "int"], ["b", "float"], ["c", "int"], ["p", "int"], ["s", "str"]]
KEYS = ["a", "b", "c"]


def _rows():
    return st.lists(
        st.tuples(
            st.integers(-2, 2),
            st.one_of(
                st.sampled_from([0.0, 0.5, 1.0, -1.5]),
                st.floats(-1e6, 1e6, allow_nan=False),
                st.sampled_from([float("inf"), float("-inf"), 1e300]),
            ),
            st.one_of(st.integers(0, 3), st.integers(-(2**62), 2**62)),
            st.integers(0, 1000),
            st.sampled_from(["u", "v", "", None]),
        ).map(list),
        max_size=9,
    )


_sorting = st.lists(
    st.tuples(
        st.sampled_from(KEYS), st.sampled_from(["ascending", "descending"])
    ).map(list),
    min_size=1,
    max_size=3,
    unique_by=lambda x: x[0],
)


@st.composite
def cases(draw):
    sorting = draw(_sorting)
    needed = [k for k, _ in sorting]
    others = [n for n, _ in FIELDS if n not in needed]
    columns = draw(
        st.one_of(
            st.none(),
            st.lists(st.sampled_from(others), unique=True).map(
                lambda o: [n for n, _ in FIELDS if n in needed or n in o]
            ),
        )
    )
    return {
        "src": draw(configs()),
        "dst": draw(configs()),
        "writes": draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["rows", "batch", "table", "table"]),
                    _rows(),
                ).map(list),
                max_size=8,
            )
        ),
        "sorting": sorting,
        "columns": columns,
        "batch_size": draw(sizes),
        # like the ranking step of object detection: prune, then order
        "prune": draw(st.one_of(st.none(), st.none(), st.integers(0, 1000))),
    }


@st.composite
def many(draw):
    """Dozens to hundreds of small source files."""
    return {
        "src": {**draw(configs("file")), "batch_size": draw(st.sampled_from([1, 2, 7])), "rows_per_file": draw(st.sampled_from([1, 2, 3, 7]))},
        "dst": draw(configs()),
        "seed": draw(st.integers(0, 2**32)),
        "n": draw(st.integers(150, 400)),
        "sorting": draw(_sorting),
        "columns": None,
        "batch_size": draw(sizes),
        "prune": draw(st.one_of(st.none(), st.integers(0, 1000))),
    }


def run_many(case, rec):
    rng = random.Random(case["seed"])
    rows = [
        [
            rng.randint(-2, 2),
            rng.choice([0.5, rng.random()]),
            rng.choice([rng.randint(0, 3), rng.randint(-(2**62), 2**62)]),
            rng.randint(0, 1000),
            rng.choice(["u", "v", "", None]),
        ]
        for _ in range(case["n"])
    ]
    writes = []
    while rows:
        k = rng.randint(1, 4)
        writes.append([rng.choice(["rows", "batch"]), rows[:k]])
        rows = rows[k:]
    run({**case, "writes": writes}, rec)


def _key(row, sorting):
    return tuple(
        -row[n] if d == "descending" else row[n] for n, d in sorting
    )


def _ordered(rows, sorting):
    return all(
        _key(a, sorting) <= _key(b, sorting) for a, b in zip(rows, rows[1:])
    )


def run(case, rec):
    sorting = [tuple(x) for x in case["sorting"]]
    cols = case["columns"] or [n for n, _ in FIELDS]
    kinds = dict(map(tuple, FIELDS))
    prune = case["prune"] if "p" in cols else None
    model = []
    with CaseScratch() as tmp:
        src_w = make_writer(case["src"], schema_of(FIELDS), f"{tmp}/src")
        for w in case["writes"]:
            write(src_w, w, FIELDS)
            model.extend(as_dicts(FIELDS, w[1]))
        src = src_w.to_reader()
        before = rows_of(src)
        dst_w = make_writer(
            case["dst"], schema_of([[c, kinds[c]] for c in cols]), f"{tmp}/dst"
        )
        kw = {}
        if case["columns"] is not None:
            kw["columns"] = list(cols)
        if prune is not None:

            def override(tbl: pa.Table) -> pa.Table:
                keep = pa.array(
                    [v >= prune for v in tbl["p"].to_pylist()],
                    type=pa.bool_(),
                )
                return tbl.filter(keep).sort_by(sorting)

            kw["table_sort_override"] = override
        sort(
            source=src,
            sink=dst_w,
            batch_size=case["batch_size"],
            sorting=sorting,
            **kw,
        )
        dst = dst_w.to_reader()
        got = rows_of(dst)
        want = [
            {c: r[c] for c in cols}
            for r in model
            if prune is None or r["p"] >= prune
        ]
        expect(
            Counter(canon(got)) == Counter(canon(want)),
            "sorting did not keep exactly the input rows",
            got,
            want,
        )
        expect(_ordered(got, sorting), "rows are not in order", got, sorting)
        expect(
            dst.count_rows() == len(want), "sorted cache miscounts its rows"
        )
        expect(
            canon(rows_of(src)) == canon(before), "sorting changed its source"
        )
        tables = [t for t in src.iterate_tables() if t.num_rows]
    rec.label(f"{case['src']['backend']} -> {case['dst']['backend']}")
    rec.label("pruned", prune is not None)
    rec.label("several tables", len(tables) > 1)
    rec.interesting(len(tables) > 1)


@st.composite
def inplace(draw):
    return {
        "cfg": draw(configs()),
        "writes": draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["rows", "batch", "table"]), _rows()
                ).map(list),
                min_size=1,
                max_size=6,
            )
        ),
        "more": draw(_rows()),
        "sorting": draw(_sorting),
    }


def run_inplace(case, rec):
    sorting = [tuple(x) for x in case["sorting"]]
    with CaseScratch() as tmp:
        path = f"{tmp}/c"
        w = make_writer(case["cfg"], schema_of(FIELDS), path)
        model = []
        for op in case["writes"]:
            write(w, op, FIELDS)
            model.extend(as_dicts(FIELDS, op[1]))
        before = [
            t.to_pylist() for t in _copy_layout(case, tmp).iterate_tables()
        ]
        w.sort_by(sorting)
        reader = w.to_reader()
        after = [t.to_pylist() for t in reader.iterate_tables()]
        expect(
            len(after) == len(before),
            "in-place sort changed the number of tables",
        )
        for a, b in zip(after, before):
            expect(
                Counter(canon(a)) == Counter(canon(b)),
                "in-place sort changed the rows of a table",
                a,
                b,
            )
            expect(_ordered(a, sorting), "table not in order", a, sorting)
        # the writer is still usable
        write(w, ["rows", case["more"]], FIELDS)
        total = rows_of(w.to_reader())
        expect(
            Counter(canon(total))
            == Counter(canon(model + as_dicts(FIELDS, case["more"]))),
            "writing after an in-place sort lost or invented rows",
        )
    rec.label(case["cfg"]["backend"])
    rec.interesting(len(model) >= 2)


def _copy_layout(case, tmp):
    w = make_writer(case["cfg"], schema_of(FIELDS), f"{tmp}/copy")
    for op in case["writes"]:
        write(w, op, FIELDS)
    return w.to_reader()


TESTS = [
    Test("merge", cases(), run, quick=5200, thorough=40000),
    Test("many_files", many(), run_many, quick=96, thorough=800),
    Test("in_place", inplace(), run_inplace, quick=2000, thorough=12000),
]
