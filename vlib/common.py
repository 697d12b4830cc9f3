"""Small helpers shared by the checks: comparisons and filter expressions."""
from __future__ import annotations

import contextlib
import io
import math
import operator

import pyarrow.compute as pc
from hypothesis import strategies as st

TOL = 1e-9


def expect(cond, msg, *details):
    if not cond:
        raise AssertionError(
            msg + "".join(f"\n  {d!r}"[:4000] for d in details)
        )


def close(a, b, tol=TOL):
    if a is None or b is None:
        return a is b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def expect_close(got, want, msg, tol=TOL):
    expect(
        isinstance(got, (int, float)) and close(float(got), float(want), tol),
        msg,
        {"got": got, "want": want},
    )


def approx_equal(a, b, tol=TOL) -> bool:
    """Structural equality with a numeric tolerance for floats."""
    if isinstance(a, dict):
        return (
            isinstance(b, dict)
            and a.keys() == b.keys()
            and all(approx_equal(a[k], b[k], tol) for k in a)
        )
    if isinstance(a, (list, tuple)):
        return (
            isinstance(b, (list, tuple))
            and len(a) == len(b)
            and all(approx_equal(x, y, tol) for x, y in zip(a, b))
        )
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(float(a), float(b), tol)
    return a == b


# ------------------------------------------------------------- expressions
# JSON form: ["cmp", field, op, value] | ["null", field] | ["and"|"or", a, b]
#            | ["not", a] | ["in", field, [values]]

_OPS = {
    "==": operator.eq,
    "!=": operator.ne,
    "<": operator.lt,
    "<=": operator.le,
    ">": operator.gt,
    ">=": operator.ge,
}


def to_expression(e):
    kind = e[0]
    if kind == "cmp":
        return _OPS[e[2]](pc.field(e[1]), e[3])
    if kind == "in":
        return pc.field(e[1]).isin(e[2])
    if kind == "null":
        return pc.field(e[1]).is_null()
    if kind == "and":
        return to_expression(e[1]) & to_expression(e[2])
    if kind == "or":
        return to_expression(e[1]) | to_expression(e[2])
    if kind == "not":
        return ~to_expression(e[1])
    raise ValueError(kind)


def evaluate_expression(e, row):
    """Three-valued logic over a plain dictionary."""
    kind = e[0]
    if kind == "cmp":
        v = row.get(e[1])
        return None if v is None else _OPS[e[2]](v, e[3])
    if kind == "in":
        v = row.get(e[1])
        return v in e[2]
    if kind == "null":
        return row.get(e[1]) is None
    if kind == "and":
        a, b = evaluate_expression(e[1], row), evaluate_expression(e[2], row)
        if a is False or b is False:
            return False
        return None if a is None or b is None else True
    if kind == "or":
        a, b = evaluate_expression(e[1], row), evaluate_expression(e[2], row)
        if a is True or b is True:
            return True
        return None if a is None or b is None else False
    if kind == "not":
        a = evaluate_expression(e[1], row)
        return None if a is None else not a
    raise ValueError(kind)


def holds(e, row) -> bool:
    return e is None or evaluate_expression(e, row) is True


def expressions(fields: dict, depth=2):
    """fields: name -> strategy of comparison values (numbers or strings)."""

    @st.composite
    def leaf(draw):
        name = draw(st.sampled_from(sorted(fields)))
        kind = draw(st.sampled_from(["cmp", "cmp", "cmp", "cmp", "in", "null"]))
        if kind == "cmp":
            v = draw(fields[name])
            ops = ["==", "!="] if isinstance(v, (str, bool)) else list(_OPS)
            return ["cmp", name, draw(st.sampled_from(ops)), v]
        if kind == "in":
            # pyarrow's parquet scanner drops rows for isin([0.0]) (signed-zero
            # statistics), so a float zero is never put in a value set
            vals = draw(st.lists(fields[name], min_size=1, max_size=3))
            return [
                "in",
                name,
                [0.5 if isinstance(v, float) and v == 0 else v for v in vals],
            ]
        return ["null", name]

    def extend(inner):
        return st.one_of(
            st.tuples(st.sampled_from(["and", "or"]), inner, inner).map(list),
            inner.map(lambda x: ["not", x]),
        )

    s = leaf()
    for _ in range(depth):
        s = st.one_of(s, extend(s))
    return s


# text pyarrow can store (no lone surrogates)
def texts(min_size=0, max_size=6):
    return st.one_of(
        st.text(alphabet="abcAB01 _-", min_size=min_size, max_size=max_size),
        st.text(
            alphabet=st.characters(exclude_categories=("Cs",)),
            min_size=min_size,
            max_size=max_size,
        ),
    )


def add_in_calls(add, objs, split):
    """Add the objects in several calls, one of them now and then with a progress bar."""
    rest = list(objs)
    for n in split:
        add(rest[:n])
        rest = rest[n:]
    if len(split) != 2:
        add(rest)
        return
    with contextlib.redirect_stderr(io.StringIO()):
        add(rest, show_progress=True)
