"""C04: pages over a key index partition the index."""
import random

from hypothesis import strategies as st
from valor_lite.cache.compute import paginate_index

from vlib.cachegen import (
    as_dicts,
    canon,
    configs,
    make_writer,
    schema_of,
    write,
)
from vlib.common import expect, expressions, holds, to_expression
from vlib.core import CaseScratch, Test

ID = "C04"
RULE = (
    "Caches whose rows are grouped by a key (one to four rows per key, rows of a file in any order, keys "
    "with gaps, any file layout, both backends, up to 320 keys beyond 16, 31 and 53 bits), paged with random offsets, limits and filters; "
    "oracle slices the ordered list of keys that survive the filter. Also all consecutive pages of a "
    "fixed size are concatenated. Non-trivial: at least three surviving keys and a page that is neither empty "
    "nor everything."
)
ASSUMPTIONS = ["all rows of a key lie in one file, as every loader guarantees", "limit is None or positive"]

FIELDS = [["key", "int"], ["v", "float"], ["tag", "str"]]


@st.composite
def cases(draw):
    n = draw(st.integers(0, 12))
    start = draw(st.integers(0, 3))
    key = start
    groups = []
    for _ in range(n):
        groups.append(
            [
                key,
                draw(
                    st.lists(
                        st.tuples(
                            st.sampled_from([0.0, 0.25, 0.5, 0.75]),
                            st.sampled_from(["a", "b"]),
                        ).map(list),
                        min_size=1,
                        max_size=4,
                    )
                ),
            ]
        )
        key += draw(st.sampled_from([1, 1, 1, 2, 5]))
    expr = expressions(
        {
            "key": st.integers(0, 14),
            "v": st.sampled_from([0.0, 0.25, 0.5]),
            "tag": st.sampled_from(["a", "b"]),
        },
        depth=1,
    )
    return {
        "cfg": draw(configs()),
        "groups": groups,
        "sort": draw(st.sampled_from([None, "ascending", "descending"])),
        "offset": draw(st.integers(0, 14)),
        "limit": draw(
            st.one_of(st.none(), st.integers(1, 6), st.integers(1, 60))
        ),
        "page": draw(st.integers(1, 5)),
        "filter": draw(st.one_of(st.none(), expr)),
    }


@st.composite
def many(draw):
    return {
        "cfg": draw(configs()),
        "seed": draw(st.integers(0, 2**32)),
        "n": draw(st.integers(80, 320)),
        "start": draw(st.sampled_from([0, 250, 65530, 2**31 - 40, 2**53])),
        "sort": draw(st.sampled_from([None, "ascending", "descending"])),
        "offset": draw(st.integers(20, 300)),
        "limit": draw(st.one_of(st.none(), st.integers(5, 200))),
        "page": draw(st.integers(20, 300)),
        "filter": draw(
            st.one_of(
                st.none(),
                expressions(
                    {
                        "v": st.sampled_from([0.0, 0.25, 0.5]),
                        "tag": st.sampled_from(["a", "b"]),
                    },
                    depth=1,
                ),
            )
        ),
    }


def run_many(case, rec):
    rng = random.Random(case["seed"])
    key, groups = case["start"], []
    for _ in range(case["n"]):
        groups.append(
            [
                key,
                [
                    [rng.choice([0.0, 0.25, 0.5, 0.75]), rng.choice("ab")]
                    for _ in range(rng.randint(1, 4))
                ],
            ]
        )
        key += rng.choice([1, 1, 1, 2, 5])
    run({**case, "groups": groups}, rec)


def run(case, rec):
    with CaseScratch() as tmp:
        w = make_writer(case["cfg"], schema_of(FIELDS), f"{tmp}/c")
        for key, rows in case["groups"]:
            write(w, ["rows", [[key, v, t] for v, t in rows]], FIELDS)
        if case["sort"]:
            w.sort_by([("v", case["sort"])])
        reader = w.to_reader()
        stored = [t.to_pylist() for t in reader.iterate_tables()]
        kept = [
            r for t in stored for r in t if holds(case["filter"], r)
        ]
        keys = sorted({r["key"] for r in kept})
        modifier = (
            to_expression(case["filter"]) if case["filter"] else None
        )

        def page(offset, limit):
            out = []
            for tbl in paginate_index(
                source=reader,
                column_key="key",
                modifier=modifier,
                limit=limit,
                offset=offset,
            ):
                expect(
                    tbl.column_names == [n for n, _ in FIELDS],
                    "page lost columns",
                    tbl.column_names,
                )
                out.extend(tbl.to_pylist())
            return out

        def want(offset, limit):
            sel = set(
                keys[offset:] if limit is None else keys[offset : offset + limit]
            )
            return [r for r in kept if r["key"] in sel]

        o, l = case["offset"], case["limit"]
        got = page(o, l)
        expect(
            canon(got) == canon(want(o, l)),
            "page does not hold exactly its keys",
            {"offset": o, "limit": l, "got": got, "want": want(o, l)},
        )
        everything = []
        offset = 0
        while offset < len(keys) + case["page"]:
            part = page(offset, case["page"])
            expect(
                canon(part) == canon(want(offset, case["page"])),
                "page does not hold exactly its keys",
                {"offset": offset, "limit": case["page"], "got": part},
            )
            everything.extend(part)
            offset += case["page"]
        expect(
            sorted(canon(everything), key=repr)
            == sorted(canon(kept), key=repr),
            "consecutive pages do not add up to the index",
        )
    rec.label(case["cfg"]["backend"])
    rec.label("several files", len(stored) > 1)
    rec.label("filter", case["filter"] is not None)
    partial = 0 < len(want(o, l)) < len(kept)
    rec.label("partial page", partial)
    rec.interesting(len(keys) >= 3 and (partial or case["page"] < len(keys)))


TESTS = [
    Test("pages", cases(), run, quick=4000, thorough=30000),
    Test("many", many(), run_many, quick=160, thorough=1600),
]
