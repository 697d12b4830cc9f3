"""A stand-in for evaluate.load("rouge"), whose script is not available
offline: the same interface and results, computed with rouge_score."""
from __future__ import annotations

import contextlib


class Rouge:
    def compute(
        self,
        *,
        predictions,
        references,
        rouge_types=None,
        use_aggregator=True,
        use_stemmer=False,
        tokenizer=None,
    ):
        from rouge_score import rouge_scorer

        types = rouge_types or ["rouge1", "rouge2", "rougeL", "rougeLsum"]
        scorer = rouge_scorer.RougeScorer(types, use_stemmer=use_stemmer)
        if tokenizer is not None:
            raise NotImplementedError("tokenizer")
        if len(predictions) != len(references):
            raise ValueError("Mismatch in the number of predictions and references")
        rows = []
        for ref, pred in zip(references, predictions):
            # several references: the best F-measure of each type
            scores = [
                scorer.score(r, pred)
                for r in (ref if isinstance(ref, list) else [ref])
            ]
            rows.append({k: max(s[k].fmeasure for s in scores) for k in types})
        out = {k: [float(r[k]) for r in rows] for k in types}
        if use_aggregator:
            return {k: sum(v) / len(v) for k, v in out.items()}
        return out


@contextlib.contextmanager
def installed():
    import evaluate

    old = evaluate.load

    def load(name, *args, **kwargs):
        if name != "rouge":
            return old(name, *args, **kwargs)
        return Rouge()

    evaluate.load = load
    try:
        yield
    finally:
        evaluate.load = old
