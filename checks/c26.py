"""C26: each LLM-guided score is the defined function of the verdicts."""
from hypothesis import strategies as st
from valor_lite.text_generation import Context, Evaluator, MetricType, QueryResponse

from vlib import textgen as tg
from vlib.common import expect
from vlib.core import Test

ID = "C26"
RULE = (
    "A random query with response, ground truths and contexts, and a scripted model that answers every request with random "
    "well-formed statements and verdicts (several spellings, empty and repeated lists); the reported value must equal an independent formula over the answers the "
    "model gave, and every verdict request must carry exactly the texts and statements it is about. 'all' runs the ten metrics at once. "
    "Non-trivial: at least one verdict request with two or more verdicts, or several ground truths."
)
ASSUMPTIONS = [
    "the model answers are well formed (C27 covers the others)",
    "every text carries a distinct marker, so texts are told apart",
    "the ROUGE backend of the 'evaluate' package is replaced by a stand-in built on rouge_score (its script cannot be fetched offline)",
]


def run(case, rec):
    model = tg.Model(case)
    ev = tg.evaluator_of(case, model)
    m = case["metric"]
    call = getattr(ev, tg.METHODS[m])
    response = tg.response_of(case)
    before = repr(response)
    if m == "Hallucination" and not case["ctx"]:
        try:
            got = call(response)
        except ValueError:
            expect(not model.requests, "a refused metric made requests")
            rec.label("refused")
            return
        raise AssertionError(f"hallucination without context gave {got}")
    got = call(response)
    tg.check_metric(got, case, model, model.answers)
    expect(repr(response) == before, "the response was changed")
    rec.label(m)
    rec.label("several ground truths", len(case["gts"]) > 1)
    rec.label("value strictly between", 0 < got.value < 1)
    rec.label("no request", not model.requests)
    rec.interesting(
        len(model.requests) > 0
        and (
            len(case["gts"]) > 1
            or any(len(a.get("verdicts", [])) > 1 for a in model.answers.values() if isinstance(a, dict))
        )
    )


class Unobservable(BaseException):
    """The metric a request belongs to cannot be told."""


class Many:
    """One scripted model for all metrics: switches by what is being computed."""

    def __init__(self, case):
        self.model_name = "scripted"
        self.models = {
            m: tg.Model({**case, "metric": m}) for m in tg.METHODS
        }
        self.current = None

    def __call__(self, messages):
        if self.current is None:
            raise Unobservable
        return self.models[self.current](messages)


def run_all(case, rec):
    """compute_all agrees with the metrics computed one by one."""
    from vlib import rouge

    case = dict(case)
    if not case["ctx"]:
        case["ctx"] = ["Tk998z"]
    if not case["gts"]:
        case["gts"] = ["Tk999z"]
        case["parts"] = {**case["parts"], "Tk999z": ["Tk997z"]}
        case["rows"] = {"Tk999z": [["yes"], 1, 1]}
    many = Many(case)
    response = tg.response_of(case)
    ev = tg.evaluator_of(case, many)
    # note which metric is being computed
    originals = {name: getattr(Evaluator, name) for name in tg.METHODS.values()}

    def noting(m, fn):
        def wrapped(*args, **kwargs):
            many.current = m
            try:
                return fn(*args, **kwargs)
            finally:
                many.current = None

        return wrapped

    try:
        for m, name in tg.METHODS.items():
            setattr(Evaluator, name, noting(m, originals[name]))
        _run_all(case, rec, many, ev, response, rouge)
    except Unobservable:
        rec.label("not observable")
    finally:
        for name, fn in originals.items():
            setattr(Evaluator, name, fn)


def _run_all(case, rec, many, ev, response, rouge):
    with rouge.installed():
        got = ev.compute_all(
            response,
            bleu_weights=[0.5, 0.5],
            rouge_types=["rouge1", "rougeL"],
            rouge_use_stemmer=case["style"] % 2 == 0,
        )
        expect(
            {k.value for k in got} == {k.value for k in MetricType},
            "compute_all reports every kind",
            list(got),
        )
        for m in tg.METHODS:
            [one] = got[MetricType(m)]
            tg.check_metric(
                one, many.models[m].case, many.models[m], many.models[m].answers
            )
        single = Evaluator()
        want = [
            x.to_dict()
            for x in single.compute_rouge(
                response,
                rouge_types=["rouge1", "rougeL"],
                use_stemmer=case["style"] % 2 == 0,
            )
        ]
        expect(
            [x.to_dict() for x in got[MetricType.ROUGE]] == want, "ROUGE in compute_all"
        )
        expect(
            [x.to_dict() for x in got[MetricType.BLEU]]
            == [single.compute_sentence_bleu(response, weights=[0.5, 0.5]).to_dict()],
            "BLEU in compute_all",
        )
    rec.label("all metrics")
    rec.interesting(len(case["gts"]) > 1 and len(case["ctx"]) > 1)


TESTS = [
    Test("single", tg.conversations(), run, quick=12000, thorough=200000),
    Test("all", tg.conversations("Bias"), run_all, quick=800, thorough=10000),
]
