"""C28: requests to the model carry the user's texts and ask the right thing."""
import json
import re

from valor_lite.text_generation import Evaluator

from vlib import textgen as tg
from vlib.common import expect
from vlib.core import Test

ID = "C28"
RULE = (
    "A random query, response, contexts, ground truths, generated statements and system prompt drawn from hostile text (braces, format fields, "
    "percent signs, quotes, backslashes, control characters, newlines, imitated headings). The same conversation is run twice: with "
    "the hostile texts and with each text replaced by a plain marker; each request of the first run must be the corresponding request of the second with "
    "the markers replaced by the texts (verbatim, or as items of a list literal). In the plain run every text stands below the heading naming its role, lists are complete and in order, "
    "no template field is left and the request asks its own metric's question and names the keys of the expected answer. Non-trivial: at "
    "least one request, with a text containing a character that templating or quoting could change."
)
ASSUMPTIONS = [
    "items of a list appear as a list literal (Python or JSON), single texts appear as they are",
    "every text carries a distinct marker, so texts are told apart",
]

MARK = r"Tk\d{3,4}z"
LIST = re.compile(r"\[(?:(['\"])" + MARK + r"\1(?:, )?)*\]")
FIELD = re.compile(r"(?<!\{)\{[A-Za-z_][\w.\[\]]*\}(?!\})|\{\{|\}\}|%\(\w+\)s|\$\{?[a-z_]+\}?")
HOSTILE = re.compile(r"[{}%$\\'\"\n\r\t\x00`\u2028]|[^\x20-\x7e]|^ | $")

# words a request of the metric has to use
ASKS = {
    ("Bias", "judge"): ["bias"],
    ("Toxicity", "judge"): ["toxic"],
    ("AnswerRelevance", "judge"): ["relevan"],
    ("AnswerCorrectness", "judge"): ["prediction", "ground truth", "TP", "FP", "FN"],
    ("ContextPrecision", "judge"): ["useful"],
    ("ContextRecall", "judge"): ["attribut"],
    ("ContextRelevance", "judge"): ["relevan"],
    ("Faithfulness", "judge"): ["claim"],
    ("Hallucination", "judge"): ["contradict"],
    ("SummaryCoherence", "score"): ["coheren", "summary"],
}


def headings(metric, key, case):
    """[(marker list or single marker, heading words)] of a request."""
    mk = tg.token
    q, r = mk(case["query"]), mk(case["response"])
    ctx = [mk(c) for c in case["ctx"]]

    def parts(t):
        return [mk(p) for p in case["parts"][t]]

    if key[0] == "extract":
        return [(key[1], "text")]
    if metric == "SummaryCoherence":
        return [(q, "text"), (r, "summary")]
    if metric in ("Bias", "Toxicity"):
        return [(parts(r), "opinions")]
    if metric == "AnswerRelevance":
        return [(q, "query"), (parts(r), "statements")]
    if metric == "AnswerCorrectness":
        return [
            (q, "query"),
            (parts(r), "prediction statements"),
            (parts(key[1]), "ground truth statements"),
        ]
    if metric == "ContextPrecision":
        return [(q, "query"), (ctx, "context list"), (key[1], "ground truth")]
    if metric == "ContextRecall":
        return [(ctx, "context list"), (parts(key[1]), "ground truth statements")]
    if metric == "ContextRelevance":
        return [(q, "query"), (ctx, "context list")]
    if metric == "Faithfulness":
        return [(ctx, "context list"), (parts(r), "claims")]
    if metric == "Hallucination":
        return [(ctx, "context list"), (r, "text")]
    raise KeyError(metric)


def plain(x):
    """The case with every text replaced by its marker."""
    if isinstance(x, str):
        found = tg.TOKEN.search(x)
        return found.group() if found else x
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def texts_of(case):
    out = {}

    def walk(x):
        if isinstance(x, str):
            found = tg.TOKEN.search(x)
            if found:
                out[found.group()] = x
        elif isinstance(x, list):
            for v in x:
                walk(v)
        elif isinstance(x, dict):
            for v in x.values():
                walk(v)

    for k in ("query", "response", "gts", "ctx", "parts"):
        walk(case[k])
    return out


def filled(content, texts):
    """Plain requests with the texts put in place of their markers."""

    def one(m):
        s = m.group()
        if s.startswith("["):
            items = [texts[t] for t in tg.TOKEN.findall(s)]
            return str(items) if "'" in s or '"' not in s else json.dumps(items)
        return texts[s]

    return re.sub(LIST.pattern + "|" + MARK, one, content)


class Listening(tg.Model):
    """Answers at once and notes the requests."""


def conversation(case):
    model = Listening(case)
    ev = Evaluator(
        client=model, retries=case["retries"], default_system_prompt=case["system"]
    )
    got = getattr(ev, tg.METHODS[case["metric"]])(tg.response_of(case))
    expect(got.to_dict()["type"] == case["metric"], "a score is reported", got.to_dict())
    return model.requests


def run(case, rec):
    if case["metric"] == "Hallucination" and not case["ctx"]:
        rec.label("skipped")
        return
    # nothing of the system prompt may look like a marker
    texts = texts_of(case)
    simple = plain({k: v for k, v in case.items() if k != "system"})
    simple["system"] = "You judge."
    requests = conversation(case)
    plain_requests = conversation(simple)
    expect(
        [k for k, _ in requests] == [k for k, _ in plain_requests],
        "the requests do not depend on the texts",
        [k for k, _ in requests],
        [k for k, _ in plain_requests],
    )
    for (key, content), (_, model_content) in zip(requests, plain_requests):
        want = filled(model_content, texts)
        expect(
            content == want,
            f"{case['metric']} {key}: the request does not carry the texts unchanged",
            content[-700:],
            want[-700:],
        )
        in_plain(case["metric"], key, model_content, simple)
    used = " ".join(texts.values())
    rec.label(case["metric"])
    rec.label("format field", bool(re.search(r"\{\w*\}", used)))
    rec.label("quotes", "'" in used or '"' in used)
    rec.label("backslash", "\\" in used)
    rec.label("line breaks", "\n" in used)
    rec.interesting(
        bool(requests) and any(HOSTILE.search(t) for t in texts.values())
    )


def in_plain(metric, key, content, case):
    where = f"{metric} {key}"
    left = FIELD.search(content)
    expect(left is None, f"{where}: a template field is left", left and left.group())
    lines = content.split("\n")
    want = headings(metric, key, case)
    for what, heading in want:
        spellings = (
            [what] if isinstance(what, str) else [str(what), json.dumps(what)]
        )
        at = [
            i
            for i, line in enumerate(lines)
            if line.strip() in spellings and under(lines, i).lower() == heading
        ]
        if not at:
            raise AssertionError(
                f"{where}: {what!r} does not stand under '{heading}': {content[-500:]!r}"
            )
    expect(
        sorted(tg.TOKEN.findall(content))
        == sorted(t for what, _ in want for t in ([what] if isinstance(what, str) else what)),
        f"{where}: texts that do not belong, or more than once",
        tg.TOKEN.findall(content),
    )
    low = content.lower()
    if key[0] == "extract":
        name = {
            "Bias": "opinions",
            "Toxicity": "opinions",
            "Faithfulness": "claims",
        }.get(metric, "statements")
        words = [name]
    else:
        words = list(ASKS[(metric, key[0])])
        if metric not in ("AnswerCorrectness", "SummaryCoherence"):
            words += ["verdicts", "analysis", "yes", "no"]
    for w in words:
        expect(w.lower() in low, f"{where}: the request does not mention {w!r}")


def under(lines, i):
    """The heading above line i."""
    for line in reversed(lines[:i]):
        if line.strip().endswith(":"):
            return line.strip()[:-1]
    return ""


TESTS = [
    Test("hostile", tg.conversations(text=tg.NASTY), run, quick=8000, thorough=120000),
]
