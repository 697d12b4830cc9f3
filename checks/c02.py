"""C02: every way of reading a cache shows the same rows."""
import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
from hypothesis import strategies as st

from vlib.cachegen import (
    FileCacheReader,
    as_dicts,
    canon,
    cells,
    configs,
    make_writer,
    schema_of,
    write,
)
from vlib.common import expect, expressions, holds, to_expression
from vlib.core import CaseScratch, Test

ID = "C02"
RULE = (
    "Caches of random layout (both backends) with integer, float, string and nullable columns (and caches of several 100000 rows), read "
    "through every reading interface with random column selections, random filter expressions "
    "(comparisons, membership, null tests, and/or/not) and batch sizes; oracle is a list "
    "comprehension with three-valued logic. Non-trivial: at least three rows and a filter that "
    "keeps some rows and drops others, or a batch size smaller than the table."
)
ASSUMPTIONS = ["filters compare columns with constants of the column's own type"]

FIELDS = [
    ["key", "int"],
    ["x", "float"],
    ["y", "float"],
    ["n", "int"],
    ["s", "str"],
    ["m", "int"],
]
NUMERIC = ["key", "x", "y", "n"]
words = st.sampled_from(["a", "b", "cat", "", "é"])


@st.composite
def cases(draw):
    row = st.tuples(
        st.integers(0, 6),
        st.sampled_from([0.0, 0.25, 0.5, 1.0, -2.5]),
        st.floats(-10, 10, width=32),
        st.integers(-(2**40), 2**40),
        st.one_of(words, st.none()),
        st.one_of(st.integers(-2, 2), st.none()),
    ).map(list)
    writes = draw(
        st.lists(
            st.tuples(
                st.sampled_from(["rows", "batch", "table"]),
                st.lists(row, max_size=6),
            ).map(list),
            min_size=1,
            max_size=8,
        )
    )
    expr = expressions(
        {
            "key": st.integers(-1, 7),
            "x": st.sampled_from([0.0, 0.25, 0.3, 1.0]),
            "n": st.integers(-5, 5),
            "s": words,
            "m": st.integers(-2, 2),
        }
    )
    names = [n for n, _ in FIELDS]
    return {
        "cfg": draw(configs()),
        "writes": writes,
        "columns": draw(
            st.one_of(
                st.none(),
                st.lists(
                    st.sampled_from(names), min_size=1, max_size=6, unique=True
                ),
            )
        ),
        "numeric": draw(
            st.lists(
                st.sampled_from(NUMERIC), min_size=1, max_size=4, unique=True
            )
        ),
        "filter": draw(st.one_of(st.none(), expr, expr)),
        "batch": draw(st.one_of(st.integers(1, 5), st.integers(1, 100))),
    }


def plain(v):
    """A cell as an array shows it: numbers are floats, null numbers NaN."""
    if v is None or v != v:
        return None
    return v if isinstance(v, str) else float(v)


def run(case, rec):
    cfg = case["cfg"]
    model = []
    with CaseScratch() as tmp:
        writer = make_writer(cfg, schema_of(FIELDS), f"{tmp}/c")
        for w in case["writes"]:
            write(writer, w, FIELDS)
            model.extend(as_dicts(FIELDS, w[1]))
        readers = [writer.to_reader()]
        if cfg["backend"] == "file":
            readers.append(FileCacheReader.load(f"{tmp}/c"))
        kept = [r for r in model if holds(case["filter"], r)]
        kw = {}
        if case["filter"] is not None:
            kw["filter"] = to_expression(case["filter"])
        cols = case["columns"]
        for reader in readers:
            expect(reader.count_rows() == len(model), "count_rows differs")
            n_tables = sum(1 for _ in reader.iterate_tables())
            expect(
                reader.count_tables() == n_tables,
                "count_tables differs from the tables read",
                reader.count_tables(),
                n_tables,
            )
            # tables
            got = []
            for tbl in reader.iterate_tables(columns=cols, **kw):
                expect(
                    tbl.column_names
                    == (cols if cols else [n for n, _ in FIELDS]),
                    "wrong columns",
                    tbl.column_names,
                )
                got.extend(tbl.to_pylist())
            want = [{c: r[c] for c in cols} if cols else r for r in kept]
            expect(
                canon(got) == canon(want), "tables differ", got, want
            )
            # arrays
            num = case["numeric"]
            arrs = [
                a.reshape(-1, len(num))
                for a in reader.iterate_arrays(numeric_columns=num, **kw)
            ]
            got = (
                np.concatenate(arrs).astype(float).tolist() if arrs else []
            )
            want_num = [[float(r[c]) for c in num] for r in kept]
            expect(got == want_num, "arrays differ", got, want_num)
            # tables with arrays
            pick = (cols or []) + [c for c in num if c not in (cols or [])]
            got, garr = [], []
            for tbl, arr in reader.iterate_tables_with_arrays(
                columns=pick, numeric_columns=num, **kw
            ):
                expect(
                    set(pick) == set(tbl.column_names),
                    "wrong columns next to arrays",
                    tbl.column_names,
                )
                expect(
                    arr.shape == (tbl.num_rows, len(num)),
                    "table and array differ in shape",
                    arr.shape,
                    tbl.num_rows,
                )
                got.extend(tbl.to_pylist())
                garr.extend(arr.astype(float).tolist())
            expect(
                canon(got) == canon([{c: r[c] for c in pick} for r in kept]),
                "tables next to arrays differ",
                got,
            )
            expect(garr == want_num, "arrays next to tables differ", garr)
            # tables with arrays, selection left out in part or altogether
            only = [c for c in pick if c in NUMERIC]
            everything = [n for n, _ in FIELDS]
            for sel, tcols, acols in (
                ({"columns": only}, only, only),
                ({"numeric_columns": num}, num, num),
                ({}, everything, everything),
            ):
                got, garr = [], []
                for tbl, arr in reader.iterate_tables_with_arrays(
                    **sel, **kw
                ):
                    expect(
                        set(tcols) == set(tbl.column_names)
                        and len(tcols) == tbl.num_columns,
                        "wrong columns next to arrays",
                        sel,
                        tbl.column_names,
                    )
                    expect(
                        arr.shape == (tbl.num_rows, len(acols)),
                        "table and array differ in shape",
                        sel,
                        arr.shape,
                    )
                    got.extend(tbl.to_pylist())
                    # without numeric_columns the array follows the table
                    order = acols if "numeric_columns" in sel else tbl.column_names
                    garr.extend(
                        {c: plain(v) for c, v in zip(order, line)}
                        for line in arr.tolist()
                    )
                expect(
                    canon(got)
                    == canon([{c: r[c] for c in tcols} for r in kept]),
                    "tables next to arrays differ",
                    sel,
                    got,
                )
                expect(
                    garr == [{c: plain(r[c]) for c in acols} for r in kept],
                    "arrays next to tables differ",
                    sel,
                    garr,
                )
            # batches
            got = []
            n_frag = 0
            for it in reader.iterate_fragment_batch_iterators(
                batch_size=case["batch"]
            ):
                n_frag += 1
                for b in it:
                    expect(
                        b.num_rows <= case["batch"],
                        "batch larger than requested",
                        b.num_rows,
                    )
                    got.extend(b.to_pylist())
            expect(canon(got) == canon(model), "batches differ", got, model)
            expect(n_frag == n_tables, "one iterator per table expected")
    rec.label(cfg["backend"])
    rec.label("filter", case["filter"] is not None)
    split = 0 < len(kept) < len(model)
    rec.label("filter splits rows", split)
    rec.label("several tables", n_tables > 1)
    rec.interesting(len(model) >= 3 and (split or case["batch"] < len(model)))


@st.composite
def larges(draw):
    """More rows than one read batch of any backend holds."""
    return {
        "cfg": {
            "backend": draw(st.sampled_from(["file", "memory"])),
            "batch_size": draw(st.sampled_from([1000, 1, 400_000])),
            "rows_per_file": draw(st.sampled_from([500_000, 50_000, 140_000])),
            "compression": draw(st.sampled_from(["snappy", "zstd"])),
        },
        "parts": draw(
            st.lists(st.integers(140_000, 300_000), min_size=1, max_size=2)
        ),
        "cut": draw(st.one_of(st.integers(5, 36), st.integers(-3, 40))),
        "batch": draw(st.sampled_from([7_001, 140_000, 1_000_000])),
    }


def run_large(case, rec):
    total = sum(case["parts"])
    i = np.arange(total, dtype=np.int64)
    x = (i % 37) * 0.25
    schema = schema_of([["i", "int"], ["x", "float"]])
    at = 0
    with CaseScratch() as tmp:
        writer = make_writer(case["cfg"], schema, f"{tmp}/c")
        for n in case["parts"]:
            writer.write_table(
                pa.table({"i": i[at : at + n], "x": x[at : at + n]}, schema=schema)
            )
            at += n
        reader = writer.to_reader()
        expect(reader.count_rows() == total, "count_rows differs")
        cut = case["cut"] * 0.25
        keep = x >= cut
        for f, want in ((None, i), (pc.field("x") >= cut, i[keep])):
            kw = {} if f is None else {"filter": f}
            got = np.concatenate(
                [np.array(t["i"].to_numpy()) for t in reader.iterate_tables(**kw)]
            )
            expect(np.array_equal(got, want), "large tables differ", len(got))
            got = np.concatenate(
                [
                    a.reshape(-1, 2)
                    for a in reader.iterate_arrays(
                        numeric_columns=["x", "i"], **kw
                    )
                ]
            )
            expect(
                np.array_equal(got[:, 1], want)
                and np.array_equal(got[:, 0], x[want]),
                "large arrays differ",
                len(got),
            )
        sizes, seen = [], []
        for it in reader.iterate_fragment_batch_iterators(
            batch_size=case["batch"]
        ):
            for b in it:
                sizes.append(b.num_rows)
                seen.append(b["i"].to_numpy())
        expect(
            np.array_equal(np.concatenate(seen), i), "large batches differ"
        )
        expect(max(sizes) <= case["batch"], "batch larger than requested")
    rec.label(case["cfg"]["backend"])
    rec.label("large")
    rec.interesting(0 < int(keep.sum()) < total)


TESTS = [
    Test("views", cases(), run, quick=5000, thorough=40000),
    Test("large", larges(), run_large, quick=32, thorough=300),
]
