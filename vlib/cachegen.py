"""Generators and drivers for the row caches."""
from __future__ import annotations

import datetime
import math

import numpy as np
import pyarrow as pa
from hypothesis import strategies as st
from valor_lite.cache import (
    FileCacheReader,
    FileCacheWriter,
    MemoryCacheReader,
    MemoryCacheWriter,
)

from vlib.common import texts

TYPES = {
    "int": pa.int64(),
    "float": pa.float64(),
    "str": pa.string(),
    "bool": pa.bool_(),
    "i32": pa.int32(),
    "f32": pa.float32(),
    "date": pa.date32(),
    "ts": pa.timestamp("us"),
    "bin": pa.binary(),
    "list": pa.list_(pa.int64()),
}


def decode(kind, v):
    """The value a JSON cell stands for."""
    if v is None:
        return None
    if kind == "date":
        return datetime.date(1970, 1, 1) + datetime.timedelta(days=v)
    if kind == "ts":
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(
            microseconds=v
        )
    if kind == "bin":
        return bytes.fromhex(v)
    return v


NUMPY = {
    "int": np.int64,
    "float": np.float64,
    "bool": np.bool_,
    "i32": np.int32,
    "f32": np.float32,
}
COMPRESSION = ["snappy", "gzip", "zstd", "none"]


def cells(kind, nullable=True, wild=True):
    if kind == "int":
        s = st.one_of(
            st.integers(-3, 3),
            st.integers(-(2**63), 2**63 - 1) if wild else st.integers(-50, 50),
        )
    elif kind == "float":
        s = st.one_of(
            st.sampled_from([0.0, -0.0, 0.5, 1.0]),
            st.floats(width=64, allow_nan=wild, allow_infinity=wild)
            if wild
            else st.floats(-100, 100, width=32),
        )
    elif kind == "str":
        s = texts(max_size=4)
    elif kind == "i32":
        s = st.integers(-(2**31), 2**31 - 1)
    elif kind == "f32":
        s = st.floats(width=32, allow_nan=True)
    elif kind == "date":
        s = st.integers(-20_000, 40_000)
    elif kind == "ts":
        s = st.integers(-(10**15), 4 * 10**15)
    elif kind == "bin":
        s = st.binary(max_size=4).map(bytes.hex)
    elif kind == "list":
        s = st.lists(st.integers(-5, 5), max_size=3)
    else:
        s = st.booleans()
    return st.one_of(s, s, s, st.none()) if nullable else s


sizes = st.one_of(st.integers(1, 6), st.integers(1, 40), st.just(10_000))


@st.composite
def configs(draw, backend=None):
    return {
        "backend": backend or draw(st.sampled_from(["memory", "file"])),
        "batch_size": draw(sizes),
        "rows_per_file": draw(sizes),
        "compression": draw(st.sampled_from(COMPRESSION)),
    }


def make_writer(cfg, schema, path, **kwargs):
    if cfg["backend"] == "memory":
        return MemoryCacheWriter.create(
            schema=schema, batch_size=cfg["batch_size"]
        )
    return FileCacheWriter.create(
        path=path,
        schema=schema,
        batch_size=cfg["batch_size"],
        rows_per_file=cfg["rows_per_file"],
        compression=cfg["compression"],
        **kwargs,
    )


def schema_of(fields):
    return pa.schema([(n, TYPES[k]) for n, k in fields])


def rows_of(reader, **kw):
    out = []
    for tbl in reader.iterate_tables(**kw):
        out.extend(tbl.to_pylist())
    return out


def canon_value(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, float):
        return "nan" if math.isnan(v) else repr(v)
    if isinstance(v, np.generic):
        return canon_value(v.item())
    if isinstance(v, (list, datetime.date, bytes)):
        return repr(v)
    return v


def canon(rows):
    return [
        tuple(sorted((k, canon_value(v)) for k, v in r.items())) for r in rows
    ]


def write(writer, op, fields):
    """Apply one write operation ([kind, rows, variant])."""
    kind, rows = op[0], op[1]
    variant = op[2] if len(op) > 2 else 0
    schema = schema_of(fields)
    names = [n for n, _ in fields]
    kinds = dict(map(tuple, fields))
    rows = [
        [decode(k, v) for (_, k), v in zip(fields, r)] for r in rows
    ]
    if kind == "rows":
        payload = []
        for r in rows:
            d = dict(zip(names, r))
            if variant % 2:  # a missing key is a null, key order is free
                d = {
                    k: v for k, v in reversed(list(d.items())) if v is not None
                }
            payload.append(d)
        writer.write_rows(payload)
    elif kind == "columns":
        cols = {}
        order = names if variant % 2 == 0 else list(reversed(names))
        for name in order:
            j = names.index(name)
            vals = [r[j] for r in rows]
            flavour = (variant // 2) % 3
            has_null = any(v is None for v in vals)
            if flavour == 1 and not has_null and kinds[name] in NUMPY:
                cols[name] = np.array(vals, dtype=NUMPY[kinds[name]])
            elif flavour == 2:
                cols[name] = pa.array(vals, type=TYPES[kinds[name]])
            else:
                cols[name] = vals
        writer.write_columns(cols)
    elif kind == "batch":
        arrays = [
            pa.array([r[j] for r in rows], type=TYPES[k])
            for j, (_, k) in enumerate(fields)
        ]
        batch = pa.RecordBatch.from_arrays(arrays, schema=schema)
        if variant % 2 and len(rows) > 0:  # a view into a longer batch
            longer = [
                pa.concat_arrays([a.slice(0, 1), a, a.slice(0, 1)])
                for a in arrays
            ]
            batch = pa.RecordBatch.from_arrays(longer, schema=schema).slice(
                1, len(rows)
            )
        writer.write_batch(batch)
    elif kind == "table":
        arrays = [
            pa.array([r[j] for r in rows], type=TYPES[k])
            for j, (_, k) in enumerate(fields)
        ]
        writer.write_table(pa.Table.from_arrays(arrays, schema=schema))
    else:
        raise ValueError(kind)


def as_dicts(fields, rows):
    return [
        {n: decode(k, v) for (n, k), v in zip(fields, r)} for r in rows
    ]


__all__ = [
    "FileCacheReader",
    "FileCacheWriter",
    "MemoryCacheReader",
    "MemoryCacheWriter",
]
