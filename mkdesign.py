"""Writes DESIGN.md: the fixed text below, plus rules and assumptions taken
from the checks themselves and the results table in planted.json."""
import ast, json, os

H = "/verif"
OR = {  # oracle | bounds | cost of one quick run (8 cores) | why tests cannot
"C01": ("a Python list of rows (reference model of the whole history)", "up to 14 operations of 12 rows; bulk up to 60 writes of 700 rows; up to 1024 files", "the write buffer, batch size, file target and write kind interact; tests cover four fixed layouts"),
"C02": ("list comprehension with SQL three-valued logic", "up to ~40 rows, 6 columns, expressions of depth 2", "agreement of six reading interfaces for every selection, filter and chunking"),
"C03": ("permutation (multiset) and adjacent order; source unchanged", "up to ~8 source files x 10 rows, 1-3 keys with ties", "the k-way merge misbehaves only for certain fragment boundaries, empty files and merge batch sizes"),
"C04": ("slice of the sorted list of surviving keys; concatenation of pages equals everything", "12 keys x 4 rows; all offsets, limits, layouts", "page edges against file edges and filter effects"),
"C05": ("model of the directory tree (bytes of every foreign file, rows of every live cache) after every step", "12 operations on sibling and nested paths with hostile names", "damage needs a neighbouring name or a foreign file; destructive effects stay in a scratch directory created per case"),
"C06": ("datum-by-datum counting", "9 datums x 5 labels; bulk 400 x 12", "ties, zero scores, scores equal to a threshold, labels never predicted, chunk boundaries inside a datum"),
"C07": ("Mann-Whitney statistic over all pairs", "9 datums x 5 labels; bulk 120 x 12", "the streaming computation joins curve pieces over chunk boundaries"),
"C08": ("datum-by-datum tally and conservation law", "as C06", "as C06"),
"C09": ("explicit lists of (datum, score) per cell; slices of the datum list", "8 datums, all pages, repeated identifiers", "identity of examples and page edges for every filter and layout"),
"C10": ("evaluation of the model with the data removed", "chains of two filters", "any filter expression, incl. nulls in metadata"),
"C11": ("exact rational areas (Fractions), shapely-free reference for cells and masks; metamorphic relations", "coordinates below 10^4; masks to 300 x 300", "geometry is continuous; tests sample a few rectangles"),
"C12": ("plain-Python matcher with exact IoU", "5 datums x 4 gts x 5 predictions; bulk 60 datums", "competition between predictions at every threshold pair and chunking"),
"C13": ("one global ranking, 101-point interpolation in plain Python", "as C12; bulk 120 datums", "streaming curve over files; recall bins depend on float products"),
"C14": ("greedy pairing in plain Python, conservation law", "as C12", "cross-label pairings depend on all annotations of a datum"),
"C15": ("explicit lists of identifiers; slices", "7 datums", "identity of examples under pages, filters, repeated identifiers"),
"C16": ("model with the data removed and a second evaluator loaded from the reduced data", "chains of two filters on three levels", "any filter expression; cached ranking must be rebuilt consistently"),
"C17": ("pixel-by-pixel counting", "images to 60 x 60 (one kind to 300 x 300), 7 labels", "pixel conservation for all label combinations and masks per label"),
"C18": ("first mask in list order owns a pixel", "6 masks per side", "overlaps of three and more masks, duplicates"),
"C19": ("pixel-by-pixel counting after unlabelling", "as C17", "any filter on either side"),
"C20": ("differential: two storage configurations of the same data", "all layouts down to one row per batch/file", "results must be layout-independent for all data, not for four fixtures"),
"C21": ("snapshot before = snapshot after reload/move/filter histories", "histories of 6 operations", "persisted state is re-read by independent code paths"),
"C22": ("metamorphic: permutation and renaming", "as the tasks' generators", "order and name dependence hides in dictionary orders, sorts and caches"),
"C23": ("counting in plain Python", "as the tasks' generators", "info is computed by separate code with filters"),
"C24": ("full product of labels and thresholds, ranges, JSON round trip", "as the tasks' generators", "degenerate labels and empty filters"),
"C25": ("each invalid call raises the matching error; results equal those without the call", "sequences of up to 5 invalid calls", "state left behind by a refused call"),
"C26": ("independent formulas over the scripted answers, request log", "10 metrics, up to 4 ground truths/contexts/statements", "verdict combinations, spellings, empty lists"),
"C27": ("independent well-formedness predicate and attempt automaton", "mutation schedules of up to 12 answers", "arbitrary model output"),
"C28": ("differential run with markers in place of hostile texts; headings in plain run", "hostile text alphabet", "templating and quoting accidents need particular characters"),
"C29": ("independent BLEU / ROUGE implementations; metamorphic relations", "texts to ~12 tokens, 4 references", "clipping and closest-length ties"),
"C30": ("reference client log and token sums over call histories", "histories of 8 calls", "missing parts, finish reasons, accumulated state"),
"C31": ("single-threshold call vs list call; monotone sequences", "lists of up to 5 thresholds", "state shared between thresholds"),
"C32": ("the same call on a fresh in-memory evaluator; deep comparison of passed objects", "histories of 8 calls", "state leaking between calls or aliasing of the caller's objects"),
}

HEAD = open(f"{H}/design_head.md").read()
TAIL = open(f"{H}/design_tail.md").read()


def literal(path, name):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return ast.literal_eval(n.value)


def tests(path):
    out = []
    for n in ast.walk(ast.parse(open(path).read())):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Test":
            kw = {k.arg: ast.literal_eval(k.value) for k in n.keywords}
            out.append(f"{ast.literal_eval(n.args[0])} ({kw['quick']} / {kw['thorough']})")
    return ", ".join(out)


props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
body = ["## Per property\n"]
for p in props:
    i = p["id"]
    path = f"{H}/checks/{i.lower()}.py"
    o = OR[i]
    body.append(f"### {i} {p['title']}\n")
    body.append(f"- *Generated*: {literal(path, 'RULE')}")
    body.append(f"- *Oracle*: {o[0]}.")
    body.append(f"- *Bounds*: {o[1]}; tests (cases quick / thorough): {tests(path)}.")
    body.append(f"- *Assumptions*: {'; '.join(literal(path, 'ASSUMPTIONS'))}.")
    body.append(f"- *Beyond the tests*: {o[2]}.\n")
tbl = ["## Planted bugs and what catches them\n",
       "Every row was confirmed in a scratch copy: it builds, the stable tests pass, its demo exits 0 without and non-zero with the change. \"caught by\" lists the registered quick checks (seed 1) that exit 1.\n",
       "| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(f"{H}/planted.json"))
for d in sorted(os.listdir(f"{H}/seeded")) if os.path.isdir(f"{H}/seeded") else sorted(res):
    m = json.load(open(f"{H}/seeded/{d}/meta.json"))
    tbl.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(res.get(d, [])) or 'missed'} |")
open(f"{H}/DESIGN.md", "w").write(HEAD + "\n" + "\n".join(body) + "\n" + "\n".join(tbl) + "\n\n" + TAIL)
