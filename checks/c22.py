"""C22: order and naming invariance."""
from hypothesis import strategies as st

from vlib import tasks
from vlib.common import expect
from vlib.core import CaseScratch, Test

ID = "C22"
RULE = (
    "Random data of each task evaluated as given and after a random permutation of datums and of annotations within datums, and after a one-to-one "
    "renaming of labels and identifiers (permuting the labels' sort order, unicode and empty names); snapshots "
    "must agree up to that renaming. Non-trivial: at least two datums and two labels."
)
ASSUMPTIONS = [
    "scores are distinct and no two pairs of a datum tie in score and IoU",
    "order of listing is ignored; datum identifiers are distinct (examples are compared by identifier)",
]


def cases(task):
    @st.composite
    def make(draw):
        data = draw(tasks.datasets(task, repeats=False))
        labels = tasks.labels_of(task, data)
        names = draw(
            st.one_of(
                st.permutations(labels),
                st.lists(
                    st.text(
                        alphabet=st.characters(exclude_categories=("Cs",)),
                        max_size=4,
                    ),
                    min_size=len(labels),
                    max_size=len(labels),
                    unique=True,
                ),
            )
        )
        return {
            "data": data,
            "params": draw(tasks.params(task)),
            "a": draw(tasks.storage(task)),
            "b": draw(tasks.storage(task)),
            "seed": draw(st.integers(0, 2**32)),
            "names": list(names),
            "shared": draw(
                st.sampled_from([{}, {"gt": "-a", "pd": "-b"}, {"pd": "0"}])
            )
            if task == "od"
            else {},
            "suffix": draw(st.sampled_from(["", "'", "é", " x"])),
        }

    return make()


def runner(task):
    def run(case, rec):
        data, p = case["data"], case["params"]
        roc = task != "cls" or tasks.is_full(data)
        table = dict(zip(tasks.labels_of(task, data), case["names"]))
        lab = table.__getitem__
        # identifiers of ground truths and of predictions are independent
        if case.get("shared"):
            for d in data:
                for side, n in (("gts", "n"), ("pds", "n")):
                    for i, x in enumerate(d[side]):
                        x["uid"] = f"{n}{i}"
        uid = lambda u, role: u + case["suffix"] + case.get("shared", {}).get(role, "")
        with CaseScratch() as tmp:
            a = tasks.build(task, case["a"], f"{tmp}/a", data)
            ga = tasks.metrics_of(task, a, p, roc=roc)
            ia = tasks.info_of(a)
            # renaming and reordering at once
            other = tasks.renamed(
                task, tasks.shuffled(task, data, case["seed"]), lab, uid
            )
            b = tasks.build(task, case["b"], f"{tmp}/b", other)
            gb = tasks.metrics_of(task, b, p, roc=roc)
            ib = tasks.info_of(b)
        want = {"metrics": tasks.rename_snapshot(task, ga, lab, uid)}
        have = {"metrics": tasks.canonical(gb)}
        tasks.same(want, have, "renamed and reordered", info=False)
        # segmentation writes one row per label known so far
        for d in (ia, ib):
            d.pop("number_of_rows")
        expect(ia == ib, "info", ia, ib)
        rec.label(task)
        rec.label("labels permuted", sorted(table) == sorted(table.values()))
        rec.interesting(len(data) > 1 and len(table) > 1)

    return run


TESTS = [
    Test("classification", cases("cls"), runner("cls"), quick=1400, thorough=15000),
    Test("detection", cases("od"), runner("od"), quick=1400, thorough=15000),
    Test("segmentation", cases("seg"), runner("seg"), quick=1400, thorough=15000),
]
