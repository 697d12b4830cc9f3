"""C05: caches on disk are created, loaded and deleted without touching anything else."""
import json
import os
from pathlib import Path

from hypothesis import strategies as st

from vlib.cachegen import (
    FileCacheReader,
    FileCacheWriter,
    as_dicts,
    canon,
    make_writer,
    rows_of,
    schema_of,
    write,
)
from vlib.common import expect
from vlib.core import CaseScratch, Test

ID = "C05"
RULE = (
    "Histories of create (plain / replacing), write, load, delete, foreign-file and configuration-damage "
    "operations on a handful of sibling and nested directories whose names contain glob, quote, "
    "blank and non-ASCII characters; after every step all live caches and foreign files are compared "
    "with a model. Non-trivial: at least two live caches at some point, or a refused operation."
)
ASSUMPTIONS = [
    "foreign files placed directly in a cache directory are not parquet files (they may lie in a subdirectory)",
    "all paths lie in a scratch directory",
]

FIELDS = [["i", "int"], ["s", "str"]]
NAMES = [
    "a", "b", "[a]", "[ab]", "*", "?", "a*", "[!a]", "a b", "é漢", "{a}", "a'\"",
    "$a", "~a", "a%20", "-a", "a.parquet", ".hid", "_und", "[", "**", "#x", "a;b", "0",
]
name = st.one_of(
    st.sampled_from(NAMES),
    st.text(alphabet="ab[]*?!-{}", min_size=1, max_size=4),
)
rows = st.lists(
    st.tuples(st.integers(0, 9), st.sampled_from(["x", "y", None])).map(list),
    max_size=5,
)
FOREIGN = [
    "notes.txt", ".keep", ".cfg.bak", "data.csv", "_SUCCESS", "cfg", "metadata.json",
    "000000.parquet.bak", "parquet", ".hidden.parquet.tmp", "sub/inner.txt", "sub/000000.parquet",
]


def snapshot(d):
    """Every file below a directory with its content."""
    out = {}
    for r, dirs, fs in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
        for x in fs:
            f = os.path.join(r, x)
            out[os.path.relpath(f, d)] = Path(f).read_bytes()
    return out


@st.composite
def cases(draw):
    names = draw(st.lists(name, min_size=1, max_size=4, unique=True))
    slot = st.integers(0, len(names) - 1)
    cfg = st.fixed_dictionaries(
        {
            "batch_size": st.integers(1, 5),
            "rows_per_file": st.integers(1, 5),
            "compression": st.sampled_from(["snappy", "gzip"]),
        }
    )
    op = st.one_of(
        st.tuples(st.just("create"), slot, cfg, rows, st.booleans()),
        st.tuples(st.just("create"), slot, cfg, rows, st.booleans()),
        st.tuples(st.just("write"), slot, rows),
        st.tuples(st.just("delete"), slot),
        st.tuples(st.just("load"), slot),
        st.tuples(st.just("foreign"), slot, st.sampled_from(FOREIGN)),
        st.tuples(st.just("dir"), slot, st.sampled_from([None] + FOREIGN)),
        st.tuples(
            st.just("damage"),
            slot,
            st.sampled_from(
                ["batch_size", "rows_per_file", "compression", "schema"]
            ),
        ),
        st.tuples(st.just("file"), slot),
    ).map(list)
    first = (
        [
            ["create", k, draw(cfg), draw(rows), False]
            for k in range(len(names))
        ]
        if draw(st.booleans())
        else []
    )
    return {
        "names": names,
        "as_path": draw(st.booleans()),
        "nested": draw(st.booleans()),
        "ops": first + draw(st.lists(op, min_size=1, max_size=12)),
    }


def run(case, rec):
    refused = 0
    most = 0
    with CaseScratch() as tmp:
        base = os.path.join(tmp, "base")
        os.mkdir(base)
        sentinel = os.path.join(base, "sentinel.parquet")
        Path(sentinel).write_bytes(b"sentinel")
        # a directory caches are created in, possibly not existing yet
        root = os.path.join(base, "no", "such") if case["nested"] else base
        paths = [os.path.join(root, n) for n in case["names"]]
        arg = (lambda p: Path(p)) if case["as_path"] else (lambda p: p)
        live: dict[int, dict] = {}
        files: set[int] = set()
        plain_dirs: dict[int, dict] = {}  # directories that are no caches

        def put_foreign(p, rel):
            f = Path(p, rel)
            f.parent.mkdir(exist_ok=True)
            f.write_text("keep me")

        def foreign_ok(p, rels):
            return all(
                Path(p, r).is_file() and Path(p, r).read_text() == "keep me"
                for r in rels
            )

        def clear(p):
            for r, dirs, fs in os.walk(p, topdown=False):
                for x in fs:
                    os.remove(os.path.join(r, x))
                for x in dirs:
                    os.rmdir(os.path.join(r, x))
            os.rmdir(p)

        def check_all():
            expect(
                Path(sentinel).read_bytes() == b"sentinel",
                "a file outside the caches was touched",
            )
            for k, want in plain_dirs.items():
                expect(
                    snapshot(paths[k]) == want,
                    "a directory that is no cache was changed",
                    paths[k],
                )
            for k, m in live.items():
                p = paths[k]
                if m["foreign"]:
                    expect(
                        foreign_ok(p, m["foreign"]),
                        "a foreign file was touched",
                        m["foreign"],
                    )
                if m["damaged"]:
                    continue
                reader = FileCacheReader.load(arg(p))
                if not m["foreign"]:
                    got = rows_of(reader)
                    expect(
                        canon(got) == canon(as_dicts(FIELDS, m["rows"])),
                        "a cache lost or gained rows",
                        {"path": p, "got": got, "want": m["rows"]},
                    )
                    expect(
                        reader.count_rows() == len(m["rows"]),
                        "a cache miscounts its rows",
                        p,
                    )
                expect(
                    (
                        reader.batch_size,
                        reader.rows_per_file,
                        reader.compression,
                    )
                    == (
                        m["cfg"]["batch_size"],
                        m["cfg"]["rows_per_file"],
                        m["cfg"]["compression"],
                    ),
                    "a cache changed its configuration",
                )
                inside = {
                    f for f in os.listdir(p) if os.path.isfile(os.path.join(p, f))
                }
                expected = {f.name for f in reader.get_files()}
                expect(
                    inside == expected and all(
                        f.parent == Path(p) for f in reader.get_files()
                    ),
                    "listed files differ from the directory",
                    inside,
                    expected,
                )
                expect(
                    {f.name for f in reader.get_dataset_files()}
                    == {f for f in inside if f.endswith(".parquet")},
                    "dataset files differ from the directory",
                )

        for op in case["ops"]:
            k = op[1]
            p = paths[k]
            if op[0] == "dir":
                if k not in live and k not in files and k not in plain_dirs:
                    os.makedirs(p)
                    if op[2]:
                        put_foreign(p, op[2])
                    plain_dirs[k] = snapshot(p)
            elif k in plain_dirs:
                try:
                    if op[0] == "create":
                        make_writer(
                            {"backend": "file", **op[2]},
                            schema_of(FIELDS),
                            arg(p),
                            delete_if_exists=op[4],
                        )
                    elif op[0] == "delete":
                        FileCacheWriter.delete(arg(p))
                    elif op[0] == "load":
                        FileCacheReader.load(arg(p))
                    else:
                        continue
                    raise AssertionError(
                        f"{op[0]} accepted a directory that is no cache"
                    )
                except OSError:
                    refused += 1
            elif op[0] == "file":
                if k not in live and k not in files:
                    os.makedirs(root, exist_ok=True)
                    Path(p).write_text("plain file")
                    files.add(k)
            elif op[0] == "create":
                cfg = {"backend": "file", **op[2]}
                replace = op[4]
                if k in files:
                    try:
                        make_writer(
                            cfg, schema_of(FIELDS), arg(p), delete_if_exists=replace
                        )
                        raise AssertionError("created a cache over a file")
                    except OSError:
                        refused += 1
                    expect(
                        Path(p).read_text() == "plain file",
                        "a plain file was overwritten",
                    )
                    continue
                if k in live and (not replace or live[k]["foreign"]):
                    before = snapshot(p)
                    try:
                        make_writer(
                            cfg, schema_of(FIELDS), arg(p), delete_if_exists=replace
                        )
                        raise AssertionError("created over an existing cache")
                    except (OSError, KeyError):
                        refused += 1
                    if not replace:
                        expect(
                            snapshot(p) == before,
                            "refused creation changed the directory",
                        )
                    elif live[k]["foreign"]:
                        expect(
                            foreign_ok(p, live[k]["foreign"]),
                            "replacing a cache removed a foreign file",
                            live[k]["foreign"],
                        )
                        # the cache's own files may be gone by now
                        live.pop(k)
                        clear(p)
                    continue
                if k in live and live[k]["damaged"]:
                    try:
                        make_writer(
                            cfg, schema_of(FIELDS), arg(p), delete_if_exists=True
                        )
                        raise AssertionError("replaced a damaged cache")
                    except KeyError:
                        refused += 1
                    continue
                w = make_writer(
                    cfg, schema_of(FIELDS), arg(p), delete_if_exists=replace
                )
                write(w, ["rows", op[3]], FIELDS)
                w.flush()
                live[k] = {
                    "rows": list(op[3]),
                    "cfg": op[2],
                    "foreign": set(),
                    "damaged": False,
                    "w": w,
                }
            elif op[0] == "write":
                if k in live and not live[k]["damaged"]:
                    write(live[k]["w"], ["rows", op[2]], FIELDS)
                    live[k]["w"].flush()
                    live[k]["rows"].extend(op[2])
            elif op[0] == "delete":
                if k in files:
                    try:
                        FileCacheWriter.delete(arg(p))
                        raise AssertionError("deleted a plain file")
                    except OSError:
                        refused += 1
                    expect(Path(p).is_file(), "a plain file was deleted")
                elif k not in live:
                    FileCacheWriter.delete(arg(p))  # nothing to do
                elif live[k]["damaged"]:
                    before = snapshot(p)
                    try:
                        FileCacheWriter.delete(arg(p))
                        raise AssertionError("deleted what is not a cache")
                    except KeyError:
                        refused += 1
                    expect(snapshot(p) == before, "files removed")
                elif live[k]["foreign"]:
                    try:
                        FileCacheWriter.delete(arg(p))
                        raise AssertionError(
                            "deleted a directory holding a foreign file"
                        )
                    except OSError:
                        refused += 1
                    left = {r for r in snapshot(p) if not r.endswith("/")}
                    expect(
                        left == live[k]["foreign"]
                        and foreign_ok(p, live[k]["foreign"]),
                        "deleting left cache files or removed foreign ones",
                        left,
                        live[k]["foreign"],
                    )
                    live.pop(k)
                    clear(p)
                else:
                    FileCacheWriter.delete(arg(p))
                    expect(not os.path.exists(p), "a deleted cache remains")
                    live.pop(k)
            elif op[0] == "load":
                if k in files:
                    try:
                        FileCacheReader.load(arg(p))
                        raise AssertionError("loaded a plain file")
                    except NotADirectoryError:
                        refused += 1
                elif k not in live:
                    try:
                        FileCacheReader.load(arg(p))
                        raise AssertionError("loaded a missing cache")
                    except FileNotFoundError:
                        refused += 1
                elif live[k]["damaged"]:
                    try:
                        FileCacheReader.load(arg(p))
                        raise AssertionError("loaded a damaged configuration")
                    except KeyError:
                        refused += 1
            elif op[0] == "foreign":
                if k in live and not live[k]["damaged"]:
                    put_foreign(p, op[2])
                    live[k]["foreign"].add(op[2])
            elif op[0] == "damage":
                if k in live and not live[k]["foreign"]:
                    cfg_path = Path(p, ".cfg")
                    if cfg_path.exists():
                        try:
                            cfg = json.loads(cfg_path.read_text())
                        except ValueError:  # some other encoding
                            cfg = {}
                        if op[2] in cfg:
                            cfg.pop(op[2])
                            cfg_path.write_text(json.dumps(cfg))
                            live[k]["damaged"] = True
            most = max(most, len(live))
            check_all()
    rec.label("refused operation", refused > 0)
    rec.label("several live caches", most > 1)
    rec.label("nested", case["nested"])
    rec.interesting(most > 1 or refused > 0)


TESTS = [Test("lifecycle", cases(), run, quick=5000, thorough=30000)]
