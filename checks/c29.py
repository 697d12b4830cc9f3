"""C29: BLEU and ROUGE equal their definitions."""
import math
import re
from collections import Counter

from hypothesis import strategies as st
from valor_lite.text_generation import Context, Evaluator, QueryResponse

from vlib import rouge
from vlib.common import close, expect
from vlib.core import Test

ID = "C29"
RULE = (
    "Random predictions and reference lists built from a small vocabulary (so that n-grams repeat and overlap), by editing or much lengthening one another, and from arbitrary text; "
    "random n-gram weights, ROUGE types and stemming. Values must equal independent implementations of clipped n-gram precision with the closest-reference "
    "brevity penalty and of ROUGE-N / ROUGE-L F-measures (best reference); reference order and duplicates must not matter, a text scored against "
    "itself gives 1, disjoint vocabularies give 0. Non-trivial: a value strictly between 0 and 1."
)
ASSUMPTIONS = [
    "weights are 0 or at least 0.05 (nltk stands the smallest float in for a zero precision, which is visible only below that)",
    "control characters and letters outside Latin are not generated for BLEU (regular expression engines disagree on what a word character is)",
    "a weight of 0 ignores the precision of its order",
    "the ROUGE backend of the 'evaluate' package is replaced by a stand-in built on rouge_score (its script cannot be fetched offline), so the check covers what "
    "Striveworks/valor does around it; ROUGE-Lsum is compared with rouge_score itself",
]

WORDS = ["the", "The", "cat", "cats", "sat", "sitting", "on", "mat", "$5", "5", "a.b", "$12", "$127.50", "3.14", "1,000", "it's", "_a_", "running", "run", "don't", "été", "!", "x-y", "."]

_any = st.lists(st.sampled_from(WORDS), max_size=14)
_long = st.lists(st.sampled_from(WORDS[:8]), min_size=5, max_size=16)
sentence = st.one_of(_any, _long, _long).map(" ".join)
# characters every regular expression engine classifies alike
_free = st.text(
    st.characters(categories=["Lu", "Ll", "Nd", "Po", "Sm", "Sc", "Zs"], max_codepoint=0x24F),
    max_size=20,
)
spaced = st.tuples(sentence, st.sampled_from(["", " ", "\n", ".", "..  ", "\t"])).map("".join)


@st.composite
def edited(draw, base):
    words = base.split()
    for _ in range(draw(st.integers(0, 3))):
        how = draw(st.integers(0, 4))
        i = draw(st.integers(0, max(len(words), 1)))
        if how == 0 and words:
            words.pop(i % len(words))
        elif how == 1:
            words.insert(i, draw(st.sampled_from(WORDS)))
        elif how == 2 and words:
            words.append(words[i % len(words)])
        elif how == 3 and words:
            words[i % len(words)] = draw(st.sampled_from(WORDS))
        elif how == 4:
            words = words[i:] + words[:i]
    return draw(st.sampled_from([" ", "  ", "\n"])).join(words)


@st.composite
def longer(draw, base):
    """A reference much longer (or shorter) than the prediction."""
    words = base.split()
    extra = [f"w{i}" for i in range(draw(st.sampled_from([10, 25, 45, 80])))]
    how = draw(st.integers(0, 2))
    if how == 0:
        return " ".join(words + extra)
    if how == 1:
        return " ".join(extra + words)
    return " ".join(words * draw(st.integers(2, 12)))


@st.composite
def pairs(draw):
    pred = draw(st.one_of(spaced, spaced, spaced, _free))
    refs = []
    for _ in range(draw(st.integers(1, 4))):
        refs.append(
            draw(st.one_of(edited(pred), edited(pred), edited(pred), longer(pred), spaced, _free))
        )
    return pred, refs


weight = st.one_of(
    st.just(0.0), st.floats(0.05, 1.0), st.sampled_from([0.25, 0.5, 1.0, 1 / 3])
)


@st.composite
def bleu_cases(draw):
    pred, refs = draw(pairs())
    n = draw(st.integers(1, 5))
    weights = draw(
        st.one_of(
            st.lists(weight, min_size=n, max_size=n),
            st.just([1 / n] * n),
        )
    )
    perm = draw(st.permutations(range(len(refs))))
    return {
        "pred": pred,
        "refs": refs,
        "weights": weights,
        "perm": list(perm),
        "dup": draw(st.integers(0, 3)),
        "default": draw(st.booleans()),
    }


def grams(tokens, n):
    return Counter(tuple(tokens[i : i + n]) for i in range(len(tokens) - n + 1))


def bleu_tokens(text):
    return re.findall(r"\w+|\$[\d]+|[^\s\.]+", text)


def bleu(pred, refs, weights):
    hyp = bleu_tokens(pred)
    refs = [bleu_tokens(r) for r in refs]
    if not hyp:
        return 0.0
    total = 0.0
    for n, w in enumerate(weights, 1):
        have = grams(hyp, n)
        best = Counter()
        for r in refs:
            best |= grams(r, n)  # the largest count in any reference
        hits = sum(min(c, best[g]) for g, c in have.items())
        if n == 1 and hits == 0:
            return 0.0
        if w == 0:
            continue
        if hits == 0:
            return 0.0
        total += w * math.log(hits / max(1, len(hyp) - n + 1))
    closest = min((len(r) for r in refs), key=lambda k: (abs(k - len(hyp)), k))
    penalty = 1.0 if len(hyp) > closest else math.exp(1 - closest / len(hyp))
    return penalty * math.exp(total)


def response(pred, refs):
    return QueryResponse(
        query="q", response=pred, context=Context(groundtruth=list(refs), prediction=[])
    )


def run_bleu(case, rec):
    pred, refs = case["pred"], case["refs"]
    weights = [0.25] * 4 if case["default"] else case["weights"]
    kw = {} if case["default"] else {"weights": list(weights)}
    got = Evaluator.compute_sentence_bleu(response(pred, refs), **kw)
    d = got.to_dict()
    expect(
        d["type"] == "BLEU" and list(d["parameters"]["weights"]) == weights,
        "metric type and parameters",
        d,
    )
    want = bleu(pred, refs, weights)
    if want < 1e-9:
        want = 0.0
    value = d["value"]
    expect(isinstance(value, float) and close(value, want), "BLEU", value, want)
    expect(0.0 <= value <= 1.0 + 1e-9, "BLEU out of range", value)
    again = [refs[i] for i in case["perm"]]
    again += again[: case["dup"]]
    expect(
        close(Evaluator.compute_sentence_bleu(response(pred, again), **kw).value, value),
        "BLEU depends on the order or repetition of references",
        value,
    )
    # a text against itself
    if len(bleu_tokens(pred)) >= len(weights):
        expect(
            close(
                Evaluator.compute_sentence_bleu(
                    response(pred, [*refs, pred]), **kw
                ).value,
                1.0,
            ),
            "a text among its references scores 1",
        )
        rec.label("self")
    other = " ".join("zz" + str(i) for i in range(len(bleu_tokens(pred)) + 1))
    expect(
        Evaluator.compute_sentence_bleu(response(pred, [other]), **kw).value == 0.0,
        "no common token scores 0",
    )
    rec.label("zero", value == 0)
    rec.label("several references", len(refs) > 1)
    rec.label("unequal weights", len(set(weights)) > 1)
    rec.interesting(0 < value < 1)


# ------------------------------------------------------------------ ROUGE


@st.composite
def rouge_cases(draw):
    pred, refs = draw(pairs())
    types = draw(
        st.lists(
            st.sampled_from(["rouge1", "rouge2", "rouge3", "rougeL", "rougeLsum"]),
            unique=True,
            min_size=1,
        )
    )
    return {
        "pred": pred,
        "refs": refs,
        "types": types,
        "stem": draw(st.booleans()),
        "perm": list(draw(st.permutations(range(len(refs))))),
        "default": draw(st.booleans()),
    }


_stem = None


def rouge_tokens(text, stem):
    global _stem
    toks = [t for t in re.split(r"[^a-z0-9]+", text.lower()) if t]
    if stem:
        if _stem is None:
            from nltk.stem.porter import PorterStemmer

            _stem = PorterStemmer().stem
        toks = [_stem(t) if len(t) > 3 else t for t in toks]
    return toks


def f(hits, n_ref, n_pred):
    if not hits:
        return 0.0
    p, r = hits / max(n_pred, 1), hits / max(n_ref, 1)
    return 2 * p * r / (p + r)


def lcs(a, b):
    row = [0] * (len(b) + 1)
    for x in a:
        prev = 0
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], (prev + 1 if x == y else max(row[j], row[j - 1]))
    return row[-1]


def rouge_one(kind, pred, ref, stem):
    if kind == "rougeLsum":
        from rouge_score import rouge_scorer

        return (
            rouge_scorer.RougeScorer([kind], use_stemmer=stem).score(ref, pred)[kind].fmeasure
        )
    a, b = rouge_tokens(ref, stem), rouge_tokens(pred, stem)
    if kind == "rougeL":
        return f(lcs(a, b), len(a), len(b))
    n = int(kind[5:])
    ga, gb = grams(a, n), grams(b, n)
    return f(sum((ga & gb).values()), sum(ga.values()), sum(gb.values()))


def run_rouge(case, rec):
    pred, refs, stem = case["pred"], case["refs"], case["stem"]
    types = (
        ["rouge1", "rouge2", "rougeL", "rougeLsum"] if case["default"] else case["types"]
    )
    kw = {"use_stemmer": stem}
    if not case["default"]:
        kw["rouge_types"] = list(types)
    elif not stem:
        kw = {}
    with rouge.installed():
        got = [m.to_dict() for m in Evaluator.compute_rouge(response(pred, refs), **kw)]
        again = [
            m.to_dict()
            for m in Evaluator.compute_rouge(
                response(pred, [refs[i] for i in case["perm"]]), **kw
            )
        ]
        self_scores = Evaluator.compute_rouge(response(pred, [*refs, pred]), **kw)
    expect(
        sorted(d["parameters"]["rouge_type"] for d in got) == sorted(types),
        "one metric per requested type",
        got,
    )
    inside = False
    for d in got:
        kind = d["parameters"]["rouge_type"]
        expect(
            d["type"] == "ROUGE"
            and d["parameters"] == {"rouge_type": kind, "use_stemmer": stem},
            "metric type and parameters",
            d,
        )
        want = max(rouge_one(kind, pred, r, stem) for r in refs)
        expect(
            isinstance(d["value"], float) and close(d["value"], want),
            kind,
            d["value"],
            want,
        )
        expect(0 <= d["value"] <= 1 + 1e-9, "ROUGE out of range", d)
        inside |= 0 < d["value"] < 1
    expect(got == again, "ROUGE depends on the order of references", got, again)
    for m in self_scores:
        d = m.to_dict()
        kind = d["parameters"]["rouge_type"]
        n = int(kind[5:]) if kind[5:].isdigit() else 1
        if len(rouge_tokens(pred, stem)) >= n:
            expect(close(d["value"], 1.0), "a text among its references scores 1", d)
    rec.label("stemmed", stem)
    rec.label("several references", len(refs) > 1)
    rec.interesting(inside)


# ----------------------------------------------------------------- refusals

refusals = st.fixed_dictionaries(
    {
        "pred": spaced,
        "refs": st.lists(spaced, min_size=1, max_size=3),
        "what": st.sampled_from(["weights", "bleu context", "rouge context", "no references"]),
        "kind": st.sampled_from([list, tuple]).map(lambda k: k.__name__),
    }
)


def run_refused(case, rec):
    pred, refs, what = case["pred"], case["refs"], case["what"]
    bare = QueryResponse(query="q", response=pred)
    with rouge.installed():
        call = {
            "weights": lambda: Evaluator.compute_sentence_bleu(
                response(pred, refs), weights={"list": [], "tuple": ()}[case["kind"]]
            ),
            "bleu context": lambda: Evaluator.compute_sentence_bleu(bare),
            "rouge context": lambda: Evaluator.compute_rouge(bare),
            "no references": lambda: Evaluator.compute_sentence_bleu(response(pred, [])),
        }[what]
        try:
            got = call()
        except ValueError:
            rec.label(f"refused: {what}")
            rec.interesting()
            return
        except Exception:  # noqa: BLE001
            if what != "no references":
                raise
            rec.label("failed: no references")
            return
    if what == "no references":
        # unspecified beyond: no score above 0
        expect(got.value == 0.0, "a score without references", got)
        rec.label(what)
        return
    raise AssertionError(f"{what} was accepted: {got}")


TESTS = [
    Test("bleu", bleu_cases(), run_bleu, quick=8000, thorough=150000),
    Test("rouge", rouge_cases(), run_rouge, quick=3000, thorough=40000),
    Test("refused", refusals, run_refused, quick=600, thorough=3000),
]
