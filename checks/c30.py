"""C30: the client wrappers hand messages and answers through unchanged."""
import os
from types import SimpleNamespace as NS

from hypothesis import strategies as st
from valor_lite.text_generation import Evaluator, QueryResponse
from valor_lite.text_generation.llm.integrations import MistralWrapper, OpenAIWrapper

from vlib import textgen as tg
from vlib.common import expect
from vlib.core import Test

ID = "C30"
RULE = (
    "A random history of calls on an OpenAI or Mistral wrapper (built directly or through the Evaluator, with and without key and seed) over a stub client "
    "returning arbitrary texts, finish reasons, usages and missing parts; messages are arbitrary or malformed. After every call the stub's log, the returned text or the error, "
    "and the token totals are compared with a reference. 'metric' computes LLM-guided scores through a wrapper. Non-trivial: a history of at least two calls with an answer "
    "and either a refused answer, a missing part or a malformed message list."
)
ASSUMPTIONS = [
    "the vendor client classes are replaced by stubs that record construction and calls",
    "a response without any choice (an empty list) is not generated",
]

text = st.one_of(st.text(max_size=12), tg.NASTY)
roles = st.sampled_from(["system", "user", "assistant", "", "tool", "ü"])
message = st.fixed_dictionaries({"role": roles, "content": text})
extra_message = st.fixed_dictionaries(
    {"role": roles, "content": text, "name": text}
)
messages = st.lists(st.one_of(message, message, extra_message), max_size=4)


@st.composite
def bad_messages(draw):
    """(messages, error name)"""
    kind = draw(
        st.sampled_from(["no list", "no dict", "no role", "no content", "role", "content"])
    )
    msgs = draw(st.lists(message, min_size=1, max_size=3))
    i = draw(st.integers(0, len(msgs) - 1))
    junk = draw(st.sampled_from([None, 1, True, ["x"], {"a": "b"}, 1.5]))
    if kind == "no list":
        return [draw(st.sampled_from([msgs[0], "text", None, 3])), "TypeError"]
    if kind == "no dict":
        msgs[i] = draw(st.sampled_from(["text", None, 3, ["role", "content"]]))
        return [msgs, "TypeError"]
    if kind == "no role":
        del msgs[i]["role"]
        return [msgs, "ValueError"]
    if kind == "no content":
        del msgs[i]["content"]
        return [msgs, "ValueError"]
    msgs[i] = {**msgs[i], kind: junk}
    return [msgs, "TypeError"]


count = st.one_of(st.integers(0, 5), st.integers(0, 10**9))


@st.composite
def answers(draw, vendor):
    out = {
        "text": draw(st.one_of(text, text, text, text, st.none())),
        "finish": draw(
            st.sampled_from(
                ["stop"] * 5
                + [None, "length", "content_filter", "tool_calls", "model_length", "error"]
            )
        ),
        "usage": draw(st.one_of(st.none(), st.tuples(count, count).map(list), st.tuples(count, count).map(list))),
        "others": draw(st.lists(text, max_size=2)),
        "shape": "full",
    }
    if vendor == "mistral":
        out["shape"] = draw(
            st.sampled_from(["full"] * 6 + ["none", "no choices", "no message", "chunks"])
        )
    if draw(st.integers(0, 9)) == 0:
        out["shape"] = "raises"
    return out


@st.composite
def histories(draw):
    vendor = draw(st.sampled_from(["openai", "mistral"]))
    calls = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 3)) == 0:
            msgs, error = draw(bad_messages())
        else:
            msgs, error = draw(messages), None
        calls.append({"messages": msgs, "error": error, "answer": draw(answers(vendor))})
    return {
        "vendor": vendor,
        "via": draw(st.sampled_from(["wrapper", "evaluator"])),
        "model": draw(st.one_of(st.none(), text)),
        "key": draw(st.one_of(st.none(), st.sampled_from(["k", "sk-123", ""]))),
        "seed": draw(st.one_of(st.none(), st.integers(0, 3), st.integers(-(10**6), 10**6))),
        "retries": draw(st.sampled_from([0, 0, 0, 1, 3])),
        "calls": calls,
    }


class Boom(Exception):
    pass


class Stub:
    """Both vendors' clients."""

    made: list = []

    def __init__(self, **kwargs):
        self.kwargs = kwargs
        self.log = []
        self.next = None
        type(self).made.append(self)
        self.chat = NS(completions=NS(create=self._openai), complete=self._mistral)

    def _choices(self, a):
        def choice(t):
            return NS(message=NS(content=t), finish_reason=a["finish"], index=0)

        first = choice(a["text"])
        if a["shape"] == "no message":
            first = NS(message=None, finish_reason=a["finish"], index=0)
        if a["shape"] == "chunks":
            first = choice([NS(type="text", text="x")])
        rest = [NS(message=NS(content=t), finish_reason="stop", index=1) for t in a["others"]]
        return [first, *rest]

    def _reply(self, vendor, kwargs):
        self.log.append((vendor, kwargs, repr(kwargs)))
        a = self.next
        if a["shape"] == "raises":
            raise Boom("vendor")
        if a["shape"] == "none":
            return None
        usage = a["usage"]
        return NS(
            choices=None if a["shape"] == "no choices" else self._choices(a),
            usage=None
            if usage is None
            else NS(
                prompt_tokens=usage[0],
                completion_tokens=usage[1],
                total_tokens=sum(usage) + len(a["text"] or "") % 3 + 1,
            ),
            model="m",
        )

    def _openai(self, **kwargs):
        return self._reply("openai", kwargs)

    def _mistral(self, **kwargs):
        return self._reply("mistral", kwargs)


class stubbed:
    def __enter__(self):
        import mistralai
        import openai

        from valor_lite.text_generation.llm import integrations

        Stub.made = []
        self.old = (openai.OpenAI, mistralai.Mistral, os.environ.get("MISTRAL_API_KEY"))
        openai.OpenAI = type("OpenAI", (Stub,), {"made": Stub.made})
        mistralai.Mistral = type("Mistral", (Stub,), {"made": Stub.made})
        # the names, should the module hold them itself
        self.held = {
            k: v for k, v in vars(integrations).items() if k in ("OpenAI", "Mistral")
        }
        for k in self.held:
            setattr(integrations, k, getattr({"OpenAI": openai, "Mistral": mistralai}[k], k))
        os.environ["MISTRAL_API_KEY"] = "from env"

    def __exit__(self, *exc):
        import mistralai
        import openai

        from valor_lite.text_generation.llm import integrations

        openai.OpenAI, mistralai.Mistral, key = self.old
        for k, v in self.held.items():
            setattr(integrations, k, v)
        if key is None:
            os.environ.pop("MISTRAL_API_KEY", None)
        else:
            os.environ["MISTRAL_API_KEY"] = key


def build(case):
    """(wrapper, model name, seed) or None when refused."""
    kw = {}
    if case["key"] is not None:
        kw["api_key"] = case["key"]
    if case["vendor"] == "openai":
        seed = case["seed"]
        if seed is not None:
            kw["seed"] = seed
        if case["via"] == "wrapper":
            name = case["model"] or "gpt-x"
            return OpenAIWrapper(model_name=name, **kw), name, seed
        name = "gpt-3.5-turbo"
        if case["model"] is not None:
            name = kw["model_name"] = case["model"]
        bad = seed is not None and case["retries"] != 0
        try:
            ev = Evaluator.openai(retries=case["retries"], **kw)
        except ValueError:
            expect(bad, "valid options were refused", case["seed"], case["retries"])
            expect(not Stub.made or not Stub.made[0].log, "a refused evaluator made calls")
            return None
        expect(not bad, "a seed with retries was accepted")
    else:
        seed = None
        if case["via"] == "wrapper":
            name = case["model"] or "mist"
            return MistralWrapper(model_name=name, **kw), name, None
        name = "mistral-small-latest"
        if case["model"] is not None:
            name = kw["model_name"] = case["model"]
        ev = Evaluator.mistral(retries=case["retries"], **kw)
    expect(ev.retries == case["retries"], "retries of the evaluator", ev.retries)
    return ev.client, name, seed


def run(case, rec):
    with stubbed():
        built = build(case)
        if built is None:
            rec.label("refused options")
            rec.interesting()
            return
        wrapper, name, seed = built
        [stub] = Stub.made
        if case["key"] is not None:
            expect(stub.kwargs.get("api_key") == case["key"], "api key", stub.kwargs)
        elif case["vendor"] == "mistral":
            expect(stub.kwargs.get("api_key") == "from env", "key from environment", stub.kwargs)
        else:
            expect(stub.kwargs.get("api_key") is None, "no key", stub.kwargs)
        expect(type(stub).__name__.lower() == case["vendor"], "vendor")
        expect(wrapper.model_name == name, "model name", wrapper.model_name)
        totals = [0, 0]
        answered, odd = 0, 0
        for call in case["calls"]:
            a = stub.next = call["answer"]
            before = repr(call["messages"])
            n = len(stub.log)
            want, refusal = reference(case["vendor"], call)
            try:
                got = wrapper(call["messages"])
                error = None
            except Exception as e:  # noqa: BLE001
                got, error = None, e
            expect(repr(call["messages"]) == before, "the messages were changed")
            if call["error"] is None:
                expect(len(stub.log) == n + 1, "one request per call", len(stub.log) - n)
                vendor, kwargs, _ = stub.log[-1]
                expect(
                    vendor == case["vendor"]
                    and kwargs.get("model") == name
                    and kwargs.get("messages") == call["messages"]
                    and kwargs.get("seed") == seed,
                    "model, messages and options reach the client",
                    kwargs,
                )
                if a["shape"] not in ("raises", "none") and a["usage"] is not None:
                    totals[0] += a["usage"][0]
                    totals[1] += a["usage"][1]
            else:
                expect(len(stub.log) == n, "malformed messages were sent")
            if refusal is not None:
                expect(
                    error is not None and type(error).__name__ == refusal,
                    f"expected {refusal}",
                    got,
                    repr(error),
                )
                odd += 1
                rec.label(f"{case['vendor']} {refusal}")
            else:
                expect(error is None, "an error was raised", repr(error))
                expect(type(got) is str and got == want, "the text", got, want)
                answered += 1
                odd += a["text"] is None or a["shape"] != "full"
            if case["vendor"] == "openai":
                expect(
                    [wrapper.total_prompt_tokens, wrapper.total_completion_tokens] == totals,
                    "token totals",
                    wrapper.total_prompt_tokens,
                    wrapper.total_completion_tokens,
                    totals,
                )
        rec.label(f"{case['vendor']} via {case['via']}")
        rec.label("tokens counted", sum(totals) > 0)
        rec.interesting(len(case["calls"]) > 1 and answered > 0 and odd > 0)


def reference(vendor, call):
    """(text, name of the error)"""
    a = call["answer"]
    if call["error"]:
        return None, call["error"]
    if a["shape"] == "raises":
        return None, "Boom"
    if vendor == "mistral":
        if a["shape"] in ("none", "no choices", "no message"):
            return "", None
        if a["text"] is None and a["shape"] == "full":
            return "", None
        if a["finish"] == "length":
            return None, "ValueError"
        if a["shape"] == "chunks":
            return None, "TypeError"
        return a["text"], None
    if a["finish"] in ("length", "content_filter"):
        return None, "ValueError"
    return a["text"] or "", None


# ------------------------------------------------------- metrics over wrappers


@st.composite
def metric_cases(draw):
    case = draw(tg.conversations())
    case["vendor"] = draw(st.sampled_from(["openai", "mistral"]))
    case["finish"] = draw(st.lists(st.sampled_from(["stop"] * 6 + ["length"]), min_size=1, max_size=6))
    case["usage"] = draw(st.lists(st.tuples(count, count).map(list), min_size=1, max_size=4))
    return case


class ByScript(Stub):
    script = None

    def _reply(self, vendor, kwargs):
        n = len(self.log)
        case = self.script.case
        self.next = {
            "text": self.script(kwargs["messages"]),
            "finish": case["finish"][n % len(case["finish"])],
            "usage": case["usage"][n % len(case["usage"])],
            "others": [],
            "shape": "full",
        }
        return super()._reply(vendor, kwargs)


def run_metric(case, rec):
    import mistralai
    import openai
    from valor_lite.text_generation.llm import integrations

    if case["metric"] == "Hallucination" and not case["ctx"]:
        rec.label("skipped")
        return
    model = tg.Model(case)
    with stubbed():
        kind = type("Scripted", (ByScript,), {"script": model, "made": Stub.made})
        openai.OpenAI = mistralai.Mistral = kind
        for k in ("OpenAI", "Mistral"):
            if hasattr(integrations, k):
                setattr(integrations, k, kind)
        make = Evaluator.openai if case["vendor"] == "openai" else Evaluator.mistral
        ev = make(
            model_name="scripted",
            api_key="k",
            retries=case["retries"],
            default_system_prompt=case["system"],
        )
        [stub] = Stub.made
        try:
            got = getattr(ev, tg.METHODS[case["metric"]])(tg.response_of(case))
        except ValueError as e:
            expect(
                stub.log and stub.next["finish"] == "length",
                "an error without a truncated answer",
                repr(e),
            )
            got = None
        else:
            expect(
                all(
                    case["finish"][i % len(case["finish"])] == "stop"
                    for i in range(len(stub.log))
                ),
                "a truncated answer was scored",
            )
        if case["vendor"] == "openai":
            want = [0, 0]
            for i in range(len(stub.log)):
                u = case["usage"][i % len(case["usage"])]
                want = [want[0] + u[0], want[1] + u[1]]
            expect(
                [ev.client.total_prompt_tokens, ev.client.total_completion_tokens] == want,
                "token totals",
                want,
            )
    if got is not None:
        tg.check_metric(got, case, model, model.answers)
    rec.label("truncated", got is None)
    rec.label(case["vendor"])
    rec.interesting(len(stub.log) > 1)


TESTS = [
    Test("history", histories(), run, quick=10000, thorough=150000),
    Test("metric", metric_cases(), run_metric, quick=3000, thorough=40000),
]
