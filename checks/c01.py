"""C01: everything written to a cache is read back, once, in order."""
from hypothesis import strategies as st

from vlib.cachegen import (
    FileCacheReader,
    as_dicts,
    canon,
    cells,
    configs,
    make_writer,
    rows_of,
    schema_of,
    write,
)
from vlib.common import expect
from vlib.core import CaseScratch, Test

ID = "C01"
RULE = (
    "Histories of writes (row dictionaries, columns as lists/numpy/arrow arrays, record batches "
    "incl. slices and empty ones, tables), flushes and mid-history reads over random schemas, "
    "batch sizes, rows per file, compressions and both backends; oracle is a Python list. "
    "Columns of integers, floats, strings, booleans, dates, timestamps, binaries and lists with odd names. Non-trivial: at least two writes with rows and either a write kind change or a chunk "
    "boundary crossed (rows exceed the batch size or the rows per file)."
)
ASSUMPTIONS = ["the local file system and pyarrow's parquet codec are correct"]


ODD = ["count", "é x", "a.b", "0", "F0", "f0", "", "datum_id", "[x]"]


@st.composite
def histories(draw):
    n = draw(st.integers(1, 4))
    common = st.sampled_from(["int", "float", "str", "bool"])
    rare = st.sampled_from(["i32", "f32", "date", "ts", "bin", "list"])
    names = [f"f{i}" for i in range(n)]
    if draw(st.integers(0, 3)) == 3:
        names = draw(st.permutations(ODD))[:n]
    fields = [[x, draw(st.one_of(common, common, rare))] for x in names]
    row = st.tuples(*[cells(k) for _, k in fields]).map(list)
    rows = st.one_of(
        st.lists(row, min_size=1, max_size=4),
        st.lists(row, max_size=12),
    )
    op = st.one_of(
        st.tuples(
            st.sampled_from(["rows", "columns", "batch", "table"]),
            rows,
            st.integers(0, 5),
        ).map(list),
        st.tuples(
            st.sampled_from(["rows", "columns", "batch", "table"]),
            rows,
            st.integers(0, 5),
        ).map(list),
        st.just(["flush"]),
        st.just(["read"]),
    )
    return {
        "cfg": draw(configs()),
        "fields": fields,
        "ops": draw(st.lists(op, min_size=1, max_size=14)),
        "context": draw(st.booleans()),
    }


def _verify(reader, fields, model, writes, cfg):
    got = rows_of(reader)
    want = as_dicts(fields, model)
    expect(
        canon(got) == canon(want),
        "rows read back differ from the rows written",
        {"got": got, "want": want},
    )
    expect(reader.count_rows() == len(model), "count_rows disagrees")
    expect(
        reader.schema.names == [f for f, _ in fields]
        and reader.schema.types == schema_of(fields).types,
        "schema changed",
        reader.schema,
    )
    if cfg["backend"] == "file":
        expect(
            (reader.batch_size, reader.rows_per_file, reader.compression)
            == (cfg["batch_size"], cfg["rows_per_file"], cfg["compression"]),
            "configuration changed",
        )
        # a write is never split over files and files stay bounded
        bounds = []
        total = 0
        for tbl in reader.iterate_tables():
            expect(
                tbl.num_rows
                < cfg["rows_per_file"]
                + cfg["batch_size"]
                + max([1] + [len(w) for w in writes]),
                "file exceeds its row target",
                tbl.num_rows,
            )
            total += tbl.num_rows
            bounds.append(total)
        pos = 0
        for w in writes:
            end = pos + len(w)
            expect(
                not any(pos < b < end for b in bounds),
                "a single write was split over several files",
                {"write": (pos, end), "file ends": bounds},
            )
            pos = end


def run(case, rec):
    fields, cfg = case["fields"], case["cfg"]
    model, writes, kinds = [], [], set()
    with CaseScratch() as tmp:
        path = f"{tmp}/deep/er/cache"
        writer = make_writer(cfg, schema_of(fields), path)

        def go():
            for op in case["ops"]:
                if op[0] == "flush":
                    writer.flush()
                    expect(
                        writer.count_rows() == len(model),
                        "rows missing after a flush",
                    )
                elif op[0] == "read":
                    _verify(writer.to_reader(), fields, model, writes, cfg)
                else:
                    write(writer, op, fields)
                    model.extend(op[1])
                    writes.append(op[1])
                    kinds.add(op[0])

        if case["context"]:
            with writer:
                go()
            expect(
                writer.count_rows() == len(model),
                "rows missing after the writing context closed",
            )
            if cfg["backend"] == "file":  # nothing else may be needed
                _verify(FileCacheReader.load(path), fields, model, writes, cfg)
        else:
            go()
        reader = writer.to_reader()
        _verify(reader, fields, model, writes, cfg)
        if cfg["backend"] == "file":
            rec.label("many files", reader.count_tables() > 1)
            _verify(FileCacheReader.load(path), fields, model, writes, cfg)
    rec.label(cfg["backend"])
    for k in kinds:
        rec.label(f"writes {k}")
    crossed = len(model) > min(
        cfg["batch_size"],
        cfg["rows_per_file"] if cfg["backend"] == "file" else 10**9,
    )
    rec.label("chunk boundary crossed", crossed)
    rec.interesting(
        len([w for w in writes if w]) >= 2 and (len(kinds) > 1 or crossed)
    )


@st.composite
def bulks(draw):
    big = st.one_of(
        st.integers(1, 300), st.sampled_from([1, 100, 1000, 10_000])
    )
    return {
        "backend": draw(st.sampled_from(["memory", "file"])),
        "batch_size": draw(big),
        "rows_per_file": draw(big),
        "compression": "snappy",
        "writes": draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["rows", "columns", "batch", "table"]),
                    st.one_of(st.integers(0, 30), st.integers(0, 700)),
                ).map(list),
                min_size=1,
                max_size=60,
            )
        ),
    }


def run_bulk(case, rec):
    fields = [["i", "int"], ["x", "float"]]
    model, writes = [], []
    with CaseScratch() as tmp:
        path = f"{tmp}/cache"
        writer = make_writer(case, schema_of(fields), path)
        for k, (kind, n) in enumerate(case["writes"]):
            rows = [[len(model) + j, k / 7] for j in range(n)]
            write(writer, [kind, rows, 0], fields)
            model.extend(rows)
            writes.append(rows)
        _verify(writer.to_reader(), fields, model, writes, case)
    rec.label("more than 1000 rows", len(model) > 1000)
    rec.label("more than 10000 rows", len(model) > 10000)
    rec.interesting(len(model) > 50)


@st.composite
def file_counts(draw):
    n = draw(
        st.one_of(
            st.integers(2, 300),
            st.sampled_from([9, 10, 11, 99, 100, 101, 102, 128, 256, 257]),
            st.sampled_from([1000, 1001, 1002, 1024]),
        )
    )
    return {
        "files": n,
        "kind": draw(st.sampled_from(["columns", "batch", "table"])),
        "compression": draw(st.sampled_from(["snappy", "gzip"])),
        "reopen": draw(st.booleans()),
    }


def run_files(case, rec):
    """One file per write: the order must survive any number of files."""
    fields = [["i", "int"]]
    cfg = {
        "backend": "file",
        "batch_size": 1,
        "rows_per_file": 1,
        "compression": case["compression"],
    }
    model = []
    with CaseScratch() as tmp:
        path = f"{tmp}/cache"
        writer = make_writer(cfg, schema_of(fields), path)
        for k in range(case["files"]):
            rows = [[k]] if k % 5 else [[k], [-k]]
            write(writer, [case["kind"], rows, 0], fields)
            model.extend(rows)
        reader = writer.to_reader()
        if case["reopen"]:
            reader = FileCacheReader.load(path)
        n = reader.count_tables()
        got = [
            v for tbl in reader.iterate_tables() for v in tbl["i"].to_pylist()
        ]
        expect(
            got == [r[0] for r in model],
            "rows of many files come back out of order or incomplete",
            got,
        )
        expect(reader.count_rows() == len(model), "count_rows disagrees")
        batches = [
            v
            for b in reader.iterate_fragment_batch_iterators(batch_size=3)
            for x in b
            for v in x["i"].to_pylist()
        ]
        expect(
            batches == got, "batches of many files are out of order", batches
        )
    rec.label("more than 100 files", n > 100)
    rec.label("more than 1000 files", n > 1000)
    rec.interesting(n > 10)


TESTS = [
    Test("history", histories(), run, quick=10000, thorough=60000),
    Test("bulk", bulks(), run_bulk, quick=600, thorough=4000),
    Test("files", file_counts(), run_files, quick=96, thorough=1200),
]
