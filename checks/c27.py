"""C27: arbitrary LLM output gives a valid score, a retry or an error metric."""
import json

from hypothesis import strategies as st
from valor_lite.text_generation import Evaluator, QueryResponse

from vlib import textgen as tg
from vlib.common import expect
from vlib.core import Test

ID = "C27"
RULE = (
    "A random query, metric and retry budget with a scripted model whose n-th answer is spoiled by the n-th mutation of a random "
    "schedule (cut, character edits, other JSON types, renamed or missing keys, wrong numbers of verdicts, unknown verdicts, out-of-range scores, "
    "over-long integers, deep nesting, prose around valid JSON, client errors). An independent notion of a well-formed answer follows the conversation: "
    "every malformed answer ends the attempt, the budget bounds the attempts, and a score must be the formula over the answers of "
    "the last attempt. 'raw' feeds arbitrary text only. Non-trivial: at least one malformed answer was delivered."
)
ASSUMPTIONS = [
    "an analysis that is not text is not generated (its acceptance is unspecified)",
    "a mutation that yields a different well-formed answer is not delivered",
]


class Boom(Exception):
    """An error of the client itself."""


# ---------------------------------------------------------------- mutations

_junk = st.one_of(
    st.sampled_from(
        [
            "",
            " ",
            "null",
            "[]",
            "{}",
            "{",
            "}",
            "}{",
            "{]",
            '"yes"',
            "I cannot answer that.",
            '{"verdicts": ',
            '{"verdicts": [}',
            '{"statements": NaN}',
            "{'statements': []}",
            '{"statements": ["a",]}',
            "{" * 50,
            '{"a": 1}{"b": 2}',
            "\ufeff{}",
            "6",
            "0",
            "-3",
            "10",
            "five",
            "3/5 is too low: -1",
            "٣٣",
        ]
    ),
    st.text(max_size=20),
    st.text(alphabet='{}[]":,yesno \\n1', max_size=25),
)
_value = st.sampled_from(
    [None, 0, 1, True, "yes", "", {}, [], [1], [None], [["a"]], [{}], {"a": []}, 1.5, "[]"]
)
_verdict = st.sampled_from(
    [
        "Yes",
        "YES",
        " yes",
        "yes.",
        "maybe",
        "idk",
        "",
        None,
        True,
        1,
        ["yes"],
        {"yes": 1},
        "no ",
        "true",
    ]
)
mutations = st.one_of(
    st.just(["none"]),
    st.just(["none"]),
    st.tuples(st.just("raw"), _junk).map(list),
    st.tuples(st.just("cut"), st.integers(0, 400)).map(list),
    st.tuples(st.just("cut front"), st.integers(1, 30)).map(list),
    st.tuples(
        st.just("edit"), st.integers(0, 400), st.sampled_from(list('{}[]":,\\a\n') + [""])
    ).map(list),
    st.tuples(st.just("around"), st.sampled_from(["", "Sure! ", "{", "}", "{x} ", "[", "\n"]), st.sampled_from(["", " Bye", "}", "{", " {y}", "]"])).map(list),
    st.tuples(st.just("value"), st.integers(0, 3), _value).map(list),
    st.tuples(st.just("drop"), st.integers(0, 3)).map(list),
    st.tuples(
        st.just("rename"),
        st.integers(0, 3),
        st.sampled_from(["verdict", "Verdicts", "statement", "TPs", " ", "fp"]),
    ).map(list),
    st.tuples(st.just("extra"), _value).map(list),
    st.tuples(st.just("count"), st.integers(0, 3), st.integers(-2, 2)).map(list),
    st.tuples(st.just("verdict"), st.integers(0, 5), _verdict).map(list),
    st.tuples(
        st.just("inner"),
        st.integers(0, 5),
        st.sampled_from(["no analysis", "no verdict", "extra", "reason", "string", "list", "null", "empty"]),
    ).map(list),
    st.tuples(st.just("element"), st.integers(0, 3), _value).map(list),
    st.just(["list"]),
    st.just(["huge"]),
    st.just(["deep"]),
    st.just(["doubled"]),
)


def mutate(m, answer, text):
    """The text delivered in place of `text` (which encodes `answer`)."""
    kind = m[0]
    if kind == "none":
        return text
    if kind == "raw":
        return m[1]
    if kind == "cut":
        return text[: m[1] % (len(text) + 1)]
    if kind == "cut front":
        return text[m[1] :]
    if kind == "edit":
        i = m[1] % (len(text) or 1)
        return text[:i] + m[2] + text[i + 1 :]
    if kind == "around":
        return m[1] + text + m[2]
    if kind == "huge":
        return '{"verdicts": ' + "9" * 5000 + "}" if not isinstance(answer, int) else "9" * 5000
    if kind == "deep":
        return '{"verdicts": ' + "[" * 100000 + "]" * 100000 + "}"
    if kind == "doubled":
        return text + text
    if isinstance(answer, int):
        return {
            "value": f"{m[-1]}",
            "drop": "no score",
            "count": str(answer + 10 * (m[-1] if isinstance(m[-1], int) else 1)),
        }.get(kind, f"-{answer}")
    obj = json.loads(json.dumps(answer))
    keys = sorted(obj)
    if kind == "value":
        obj[keys[m[1] % len(keys)]] = m[2]
    elif kind == "drop":
        del obj[keys[m[1] % len(keys)]]
    elif kind == "rename":
        obj[m[2]] = obj.pop(keys[m[1] % len(keys)])
    elif kind == "extra":
        obj["note"] = m[1]
    elif kind == "list":
        return json.dumps([obj])[1:-1] if len(keys) == 1 else json.dumps(list(obj.values()))
    elif kind == "count":
        k = keys[m[1] % len(keys)]
        lst = obj[k]
        if m[2] < 0:
            obj[k] = lst[: len(lst) + m[2]] if len(lst) >= -m[2] else []
        else:
            pad = {"analysis": "more", "verdict": "no"} if k == "verdicts" else "more"
            obj[k] = lst + [pad] * m[2]
    elif kind in ("verdict", "inner"):
        lst = obj.get("verdicts")
        if lst:
            v = lst[m[1] % len(lst)]
            if kind == "verdict":
                v["verdict"] = m[2]
            elif m[2] == "no analysis":
                del v["analysis"]
            elif m[2] == "no verdict":
                del v["verdict"]
            elif m[2] == "extra":
                v["score"] = 1
            elif m[2] == "reason":
                v["reason"] = v.pop("analysis")
            else:
                lst[m[1] % len(lst)] = {
                    "string": "yes",
                    "list": ["yes"],
                    "null": None,
                    "empty": {},
                }[m[2]]
    elif kind == "element":
        lst = obj[keys[m[1] % len(keys)]]
        if lst:
            lst[0] = m[2]
    return json.dumps(obj)


class Spoiled(tg.Model):
    def __init__(self, case):
        super().__init__(case)
        self.failed = 0
        self.delivered = []
        self.done = False

    def __call__(self, messages):
        expect(
            self.failed <= self.case["retries"],
            "a request was made after the retry budget was used up",
            self.failed,
        )
        return super().__call__(messages)

    def deliver(self, key, answer):
        plan = self.case["plan"]
        n = len(self.requests) - 1
        m = plan[n % len(plan)] if plan else ["none"]
        text = super().deliver(key, answer)
        if m[0] == "boom":
            self.boom = [Boom("client"), ValueError("client"), KeyError("client"), TimeoutError("client")][m[1]]
            raise self.boom
        new = mutate(m, answer, text)
        got = judge(self.case["metric"], new, answer)
        if got is not None and got != answer:
            # another well-formed answer (a changed statement, say)
            new, got = text, answer
        if got is None:
            self.failed += 1
            self.answers = {}
            self.delivered.append(m[0])
        return new


def judge(metric, text, answer):
    """The value of a raw answer, None when it is malformed."""
    got = tg.parsed(text, answer)
    if got is None or isinstance(got, int):
        return got
    if "verdicts" in got:
        if metric != "AnswerRelevance" and any(
            v["verdict"] == "idk" for v in got["verdicts"]
        ):
            return None
    if "TP" in got:
        if len(got["TP"]) + len(got["FP"]) != len(answer["TP"]) + len(answer["FP"]):
            return None
        # how many false negatives are too many depends on the ground truth;
        # a change of their number counts as another answer
        if len(got["FN"]) != len(answer["FN"]):
            return {"TP": [], "FP": [], "FN": ["changed"]}
    return got


@st.composite
def plans(draw):
    case = draw(tg.conversations())
    case["plan"] = draw(st.lists(mutations, min_size=1, max_size=8))
    return case


@st.composite
def raw_plans(draw):
    case = draw(tg.conversations())
    case["plan"] = draw(
        st.lists(st.tuples(st.just("raw"), _junk).map(list), min_size=1, max_size=4)
    )
    return case


def run(case, rec):
    model = Spoiled(case)
    ev = tg.evaluator_of(case, model)
    m = case["metric"]
    call = getattr(ev, tg.METHODS[m])
    if m == "Hallucination" and not case["ctx"]:
        rec.label("skipped")
        return
    got = call(tg.response_of(case))
    if model.failed > case["retries"]:
        d = got.to_dict()
        expect(
            d["type"] == "Error"
            and isinstance(d["value"].get("message"), str)
            and d["value"]["message"]
            and "Invalid" in d["value"]["type"]
            and d["parameters"] == {"evaluator": "scripted", "retries": case["retries"]},
            "an exhausted budget gives an error metric",
            d,
        )
        rec.label("error metric")
    else:
        tg.check_metric(got, case, model, model.answers)
        rec.label("recovered", model.failed > 0)
    for k in set(model.delivered):
        rec.label(f"malformed: {k}")
    rec.interesting(model.failed > 0)


# ------------------------------------------------------------ false negatives


@st.composite
def fn_cases(draw):
    case = draw(tg.conversations("AnswerCorrectness"))
    case["extra"] = draw(st.integers(0, 3))
    return case


class ManyNegatives(tg.Model):
    """Lists more false negatives than there are ground truth statements."""

    over = 0

    def deliver(self, key, answer):
        if key[0] == "judge" and self.case["extra"]:
            n = len(self.case["parts"][key[1]])
            answer = dict(answer, FN=["x"] * (n + self.case["extra"]))
            self.over += 1
        return super().deliver(key, answer)


def run_fn(case, rec):
    model = ManyNegatives(case)
    got = tg.evaluator_of(case, model).compute_answer_correctness(
        tg.response_of(case)
    )
    if model.over:
        expect(got.to_dict()["type"] == "Error", "too many false negatives", got)
        expect(
            model.over == case["retries"] + 1, "attempts", model.over, case["retries"]
        )
    else:
        tg.check_metric(got, case, model, model.answers)
    rec.label("too many", model.over > 0)
    rec.interesting(model.over > 0)


# -------------------------------------------------- client errors, missing input


@st.composite
def broken(draw):
    case = draw(tg.conversations())
    case["how"] = draw(
        st.sampled_from(["boom", "boom", "boom", "no client", "no model name", "no context"])
    )
    case["plan"] = draw(st.lists(mutations.filter(lambda m: m[0] != "deep"), max_size=3)) + [
        ["boom", draw(st.integers(0, 3))]
    ]
    return case


def run_broken(case, rec):
    m, how = case["metric"], case["how"]
    if m == "Hallucination" and not case["ctx"]:
        rec.label("skipped")
        return
    model = Spoiled(case)
    model.boom = None
    ev = tg.evaluator_of(case, model)
    response = tg.response_of(case)
    want = None
    if how == "no client":
        ev = Evaluator(retries=case["retries"])
        want = ValueError
    elif how == "no model name":
        del model.model_name
        want = AttributeError
    elif how == "no context":
        if m not in tg.NEEDS_CONTEXT:
            return
        response = QueryResponse(query=case["query"], response=case["response"])
        want = ValueError
    try:
        got = getattr(ev, tg.METHODS[m])(response)
    except Exception as e:  # noqa: BLE001
        if want is not None:
            expect(isinstance(e, want), f"{how} raised", e)
            expect(not model.requests, f"{how}: requests were made")
            rec.interesting()
            rec.label(how)
            return
        expect(
            model.boom is not None and (e is model.boom or e.__cause__ is model.boom),
            "only the client's own error is raised",
            e,
        )
        rec.label("client error raised")
        rec.interesting(True)
        return
    expect(want is None, f"{how} was accepted", got)
    expect(model.boom is None, "a client error was swallowed", model.boom, got)
    rec.label("no error reached")


TESTS = [
    Test("mutated", plans(), run, quick=16000, thorough=300000),
    Test("raw", raw_plans(), run, quick=4000, thorough=60000),
    Test("false negatives", fn_cases(), run_fn, quick=1200, thorough=15000),
    Test("broken", broken(), run_broken, quick=3000, thorough=40000),
]
