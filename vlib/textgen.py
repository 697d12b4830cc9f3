"""Text generation: a scripted model that answers by what a request contains,
the reference scores and the reference notion of a well-formed answer.

Every text of a case carries a unique token (Tk000z, ...), so the scripted
model recognises a request by the tokens in it, in whatever order and however
often the code under test sends its requests."""
from __future__ import annotations

import json
import re

from hypothesis import strategies as st
from valor_lite.text_generation import Context, Evaluator, QueryResponse

from vlib.common import close, expect

TOKEN = re.compile(r"Tk\d{3,4}z")
METHODS = {
    "AnswerCorrectness": "compute_answer_correctness",
    "AnswerRelevance": "compute_answer_relevance",
    "Bias": "compute_bias",
    "ContextPrecision": "compute_context_precision",
    "ContextRecall": "compute_context_recall",
    "ContextRelevance": "compute_context_relevance",
    "Faithfulness": "compute_faithfulness",
    "Hallucination": "compute_hallucination",
    "SummaryCoherence": "compute_summary_coherence",
    "Toxicity": "compute_toxicity",
}
NEEDS_CONTEXT = {
    "AnswerCorrectness",
    "ContextPrecision",
    "ContextRecall",
    "ContextRelevance",
    "Faithfulness",
    "Hallucination",
}

PLAIN = st.sampled_from(["", "a", "The sky is blue.", "Why? Because!", "ünï ☃", "x\ny"])
NASTY = st.one_of(
    PLAIN,
    st.text(max_size=12),
    st.lists(
        st.sampled_from(
            [
                "{",
                "}",
                "{}",
                "{text}",
                "{query}",
                "{{x}}",
                "%s",
                "%(a)s",
                "$x",
                "\\",
                "\\n",
                "\n",
                "\r\n",
                "\t",
                '"',
                "'",
                "`",
                "<b>",
                "[",
                "]",
                "\u2028",
                "\x00",
                "é",
                "🙂",
                "Query:",
                "JSON:",
                "===== EXAMPLE ======",
                " ",
                "  end  ",
            ]
        ),
        max_size=6,
    ).map("".join),
    # long texts
    st.tuples(
        st.sampled_from(["word ", "x", "Line.\n", "é"]),
        st.sampled_from([300, 1100, 4500]),
    ).map(lambda t: t[0] * t[1]),
)


@st.composite
def conversations(draw, metric=None, text=PLAIN, max_items=3):
    """One query with everything a model would answer about it."""
    n = [0]

    def tagged():
        n[0] += 1
        a, b = draw(text), draw(text)
        return f"{a}Tk{n[0] - 1:03d}z{b}"

    def items():
        size = draw(st.integers(0, max_items))
        if draw(st.integers(0, 24)) == 24:  # a long list now and then
            size = draw(st.sampled_from([7, 11, 17, 34]))
        pool = [tagged() for _ in range(size)]
        if pool and draw(st.integers(0, 4)) == 0:
            pool.append(draw(st.sampled_from(pool)))
        return pool

    query, response = tagged(), tagged()
    gts, ctx = items(), items()
    parts = {}
    for t in [query, response, *gts, *ctx]:
        parts.setdefault(token(t), items())
    yes_no = st.lists(
        st.sampled_from(["yes", "no"]), min_size=8, max_size=8
    )
    return {
        "metric": metric or draw(st.sampled_from(sorted(METHODS))),
        "query": query,
        "response": response,
        "gts": gts,
        "ctx": ctx,
        "parts": parts,
        "verdicts": draw(yes_no),
        "idk": draw(st.lists(st.booleans(), min_size=8, max_size=8)),
        # per ground truth: verdict row / (TP, FN) quota
        "rows": {
            token(g): [draw(yes_no), draw(st.integers(0, 9)), draw(st.integers(0, 9))]
            for g in gts
        },
        "score": draw(st.integers(1, 5)),
        "style": draw(st.integers(0, 5)),
        "retries": draw(st.integers(0, 3)),
        "system": draw(text),
    }


def token(s):
    return TOKEN.search(s).group()


def tokens(s):
    return set(TOKEN.findall(s))


def all_tokens(texts):
    out = set()
    for t in texts:
        out |= tokens(t)
    return out


def render(obj, style):
    """A well-formed answer in one of several spellings."""
    body = json.dumps(
        obj,
        ensure_ascii=style % 2 == 0,
        indent=2 if style % 3 == 1 else None,
    )
    if style == 2:
        return f"Here you go:\n```json\n{body}\n```"
    if style == 4:
        return f"{body}\n\nLet me know [if] anything is unclear."
    if style == 5:
        return "\n\n " + body + " "
    return body


class Mismatch(AssertionError):
    """A request that does not carry what it is about."""


def identify(case, content):
    """(request key, answer) of a request text."""
    m = case["metric"]
    got = tokens(content)
    q, r = token(case["query"]), token(case["response"])
    ctx = all_tokens(case["ctx"])
    gts = {token(g): g for g in case["gts"]}

    def parts(t):
        return case["parts"][t]

    def extraction(t, key):
        return ("extract", t), {key: parts(t)}

    def judged(key, n, row=None, idk=False):
        row = row or case["verdicts"]
        out = []
        for i in range(n):
            v = row[i % len(row)]
            if idk and case["idk"][i % 8]:
                v = "idk"
            out.append({"analysis": f"because {i}", "verdict": v})
        return key, {"verdicts": out}

    def bad(what):
        raise Mismatch(
            f"{m}: {what}; the request mentions {sorted(got)}: {content[-600:]!r}"
        )

    if m == "SummaryCoherence":
        if got != {q, r}:
            bad("expected the text and the summary")
        return ("score",), case["score"]
    if m in ("Bias", "Toxicity"):
        if got == {r}:
            return extraction(r, "opinions")
        if got != all_tokens(parts(r)):
            bad("expected exactly the opinions")
        return judged(("judge",), len(parts(r)))
    if m == "AnswerRelevance":
        if got == {r}:
            return extraction(r, "statements")
        if got != {q} | all_tokens(parts(r)):
            bad("expected exactly the query and the statements")
        return judged(("judge",), len(parts(r)), idk=True)
    if m == "AnswerCorrectness":
        if len(got) == 1 and (got == {r} or next(iter(got)) in gts):
            return extraction(next(iter(got)), "statements")
        mine = all_tokens(parts(r))
        for t in gts:
            if got == {q} | mine | all_tokens(parts(t)):
                _, tp, fn = case["rows"][t]
                tp = min(tp, len(parts(r)))
                fn = min(fn, len(parts(t)))
                return ("judge", t), {
                    "TP": parts(r)[:tp],
                    "FP": parts(r)[tp:],
                    "FN": parts(t)[:fn],
                }
        bad("expected the query and the statements of answer and ground truth")
    if m == "ContextPrecision":
        for t in gts:
            if got == {q, t} | ctx:
                return judged(("judge", t), len(case["ctx"]), case["rows"][t][0])
        bad("expected the query, every context and one ground truth")
    if m == "ContextRecall":
        if len(got) == 1 and next(iter(got)) in gts:
            return extraction(next(iter(got)), "statements")
        for t in gts:
            if got == ctx | all_tokens(parts(t)):
                return judged(("judge", t), len(parts(t)), case["rows"][t][0])
        bad("expected every context and the statements of one ground truth")
    if m == "ContextRelevance":
        if got != {q} | ctx:
            bad("expected the query and every context")
        return judged(("judge",), len(case["ctx"]))
    if m == "Faithfulness":
        if got == {r}:
            return extraction(r, "claims")
        if got != ctx | all_tokens(parts(r)):
            bad("expected every context and every claim")
        return judged(("judge",), len(parts(r)))
    if m == "Hallucination":
        if got != {r} | ctx:
            bad("expected the response and every context")
        return judged(("judge",), len(case["ctx"]))
    raise KeyError(m)


def _first_equal(case, t):
    """Ground truths without statements cannot be told apart: the first counts."""
    mine = all_tokens(case["parts"][t])
    for g in case["gts"]:
        if all_tokens(case["parts"][token(g)]) == mine:
            return token(g)
    return t


def share(verdicts):
    return sum(v["verdict"] == "yes" for v in verdicts) / len(verdicts)


def reference(case, answers):
    """The defined score, from the answers given (KeyError: one is missing)."""
    m = case["metric"]
    r = token(case["response"])
    if m == "SummaryCoherence":
        return answers[("score",)]
    if m in ("Bias", "Toxicity"):
        if not answers[("extract", r)]["opinions"]:
            return 0.0
        return share(answers[("judge",)]["verdicts"])
    if m == "AnswerRelevance":
        if not answers[("extract", r)]["statements"]:
            return 0.0
        return share(answers[("judge",)]["verdicts"])
    if m == "AnswerCorrectness":
        best = 0.0
        if not answers[("extract", r)]["statements"]:
            return 0.0  # no true positive is possible
        for g in case["gts"]:
            answers[("extract", token(g))]
            a = answers[("judge", _first_equal(case, token(g)))]
            tp, fp, fn = (len(a[k]) for k in ("TP", "FP", "FN"))
            if tp:
                p, c = tp / (tp + fp), tp / (tp + fn)
                best = max(best, 2 * p * c / (p + c))
        return best
    if m in ("ContextPrecision", "ContextRecall"):
        if not case["ctx"] and not case["gts"]:
            return 1.0
        if not case["ctx"] or not case["gts"]:
            return 0.0
    if m == "ContextPrecision":
        useful = [False] * len(case["ctx"])
        for g in case["gts"]:
            for i, v in enumerate(answers[("judge", token(g))]["verdicts"]):
                useful[i] |= v["verdict"] == "yes"
        at = [i for i, u in enumerate(useful) if u]
        if not at:
            return 0.0
        return sum((k + 1) / (i + 1) for k, i in enumerate(at)) / len(at)
    if m == "ContextRecall":
        best = 0.0
        for g in case["gts"]:
            if answers[("extract", token(g))]["statements"]:
                best = max(
                    best,
                    share(answers[("judge", _first_equal(case, token(g)))]["verdicts"]),
                )
        return best
    if m == "ContextRelevance":
        return share(answers[("judge",)]["verdicts"]) if case["ctx"] else 0.0
    if m == "Faithfulness":
        if not case["ctx"]:
            return 0.0
        if not answers[("extract", r)]["claims"]:
            return 1.0
        return share(answers[("judge",)]["verdicts"])
    if m == "Hallucination":
        return share(answers[("judge",)]["verdicts"])
    raise KeyError(m)


# ----------------------------------------------------- what a valid answer is


def parsed(text, answer):
    """The part of a raw answer that matters, or None when it is malformed.
    `answer` is the well-formed answer to the same request."""
    if isinstance(answer, int):
        found = re.search(r"-?\d+", text)
        if not found or len(found.group()) > 4000:
            return None
        v = int(found.group())
        return v if 1 <= v <= 5 else None
    a, b = text.find("{"), text.rfind("}")
    if a < 0 or b < a:
        return None
    try:
        obj = json.loads(text[a : b + 1])
    except (ValueError, RecursionError):
        return None
    if not isinstance(obj, dict):
        return None
    out = {}
    for key, want in answer.items():
        got = obj.get(key)
        if not isinstance(got, list):
            return None
        if key == "verdicts":
            if len(got) != len(want):
                return None
            for v in got:
                if not isinstance(v, dict) or set(v) != {"analysis", "verdict"}:
                    return None
                if v["verdict"] not in ("yes", "no", "idk"):
                    return None
        elif not all(isinstance(x, str) for x in got):
            return None
        out[key] = got
    return out


# ---------------------------------------------------------------- the client


def messages_ok(messages, system):
    expect(isinstance(messages, list) and messages, "messages are a list", messages)
    for msg in messages:
        expect(
            isinstance(msg, dict)
            and isinstance(msg.get("role"), str)
            and isinstance(msg.get("content"), str),
            "messages have a role and a content",
            msg,
        )
    expect(
        messages[0]["role"] == "system" and messages[0]["content"] == system,
        "the first message is the system prompt",
        messages[0],
        system,
    )
    rest = messages[1:]
    expect(
        len(rest) == 1 and rest[0]["role"] == "user",
        "one user message follows the system prompt",
        [m["role"] for m in messages],
    )
    return rest[0]["content"]


class Model:
    """Answers every request well; subclasses may spoil the answers."""

    def __init__(self, case):
        self.case = case
        self.model_name = "scripted"
        self.answers = {}
        self.requests = []

    def __call__(self, messages):
        content = messages_ok(messages, self.case["system"])
        key, answer = identify(self.case, content)
        self.requests.append((key, content))
        return self.deliver(key, answer)

    def deliver(self, key, answer):
        self.answers[key] = answer
        if isinstance(answer, int):
            return ["", "Score: ", "\n", "**", "I rate it ", "- "][
                self.case["style"]
            ] + str(answer)
        return render(answer, self.case["style"])


def response_of(case):
    return QueryResponse(
        query=case["query"],
        response=case["response"],
        context=Context(groundtruth=list(case["gts"]), prediction=list(case["ctx"])),
    )


def evaluator_of(case, client):
    return Evaluator(
        client=client,
        retries=case["retries"],
        default_system_prompt=case["system"],
    )


def check_metric(metric, case, model, answers):
    d = metric.to_dict()
    expect(
        d["type"] == case["metric"]
        and d["parameters"] == {"evaluator": "scripted", "retries": case["retries"]},
        "metric type and parameters",
        d,
    )
    try:
        want = reference(case, answers)
    except KeyError as e:
        raise AssertionError(
            f"a score was reported without asking for {e}: {d}"
        ) from None
    expect(
        isinstance(d["value"], (int, float)) and close(d["value"], want),
        f"{case['metric']} value",
        d["value"],
        want,
    )
    lo, hi = (1, 5) if case["metric"] == "SummaryCoherence" else (0, 1)
    expect(lo <= d["value"] <= hi, "score out of range", d["value"])
    json.dumps(d)
