"""Writes known_findings.txt from the fix commits in /repo (run by hand)."""
import subprocess

WHAT = {
    "escape glob": ("C05", "a cache whose path contained glob metacharacters ('[a]', '*') listed, counted and deleted files of other directories or none at all, so writes overwrote each other"),
    "keep write order": ("C01", "in memory, a table written after buffered rows was stored before them"),
    "build columnar writes": ("C01", "columns given in another order, or with nulls/ints for a float column, were stored under the wrong field or rejected depending on the batch size"),
    "do not count a correctly": ("C06", "with hardmax off a correctly predicted ground truth was also counted as a false negative when another label was accepted"),
    "evaluate each classification": ("C31", "with several score thresholds in one call the false negative counts of later thresholds were affected by earlier ones"),
    "divide accuracy": ("C10", "accuracy with a datum filter was divided by the number of all datums"),
    "always start the chunked": ("C07", "ROCAUC changed with the file layout because a chunk whose first point differed from the previous one was not joined to it"),
    "refuse to finalize": ("C25", "finalizing a detection loader twice duplicated every ranked prediction instead of being refused"),
    "place recall": ("C13", "recall k/n was binned one point too low when its floating-point product fell short of an integer (e.g. 29/50), lowering AP"),
    "track pixels": ("C18", "pixels of a mask trimmed for overlap were not tracked, so a third mask could overlap it unnoticed"),
    "accumulate pixels": ("C17", "pixels of several bitmasks with the same label overwrote each other instead of adding up"),
    "report non-string": ("C27", "a JSON verdict that was not a string raised AttributeError to the caller instead of being retried"),
    "context recall of": ("C26", "context recall of a ground truth without statements divided by zero"),
    "treat undecodable": ("C27", "model output with over-long integers or very deep nesting raised ValueError/RecursionError to the caller instead of being retried"),
    "validate detection schemas": ("C25", "creating a detection cache on disk with the reserved metadata name 'iou_prev' was refused only after part of the cache had been created, so the path could not be used afterwards"),
    "let tables with": ("C02", "iterate_tables_with_arrays raised unless numeric_columns was given, although every selection is optional"),
    "compare label indices": ("C06", "labels numbered next to each other beyond 100000 were taken as equal, so wrong predictions counted as true positives (classification counts and examples, detection counts and examples)"),
    "report a mean IOU": ("C17", "mIOU was NaN for segmentation data without any mask"),
    "sort file caches": ("C03", "merging several source files into an in-memory sink left rows unsorted and dropped rows after an empty file"),
}
log = subprocess.run(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
    capture_output=True, text=True, check=True,
).stdout.splitlines()
out = [
    "# Genuine defects found in Striveworks/valor by these checks.",
    "# 'fixed:' entries were repaired in /repo and suppress nothing.",
    "# 'known:' entries would be reported as KNOWN-FINDING; there are none.",
]
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    key = next((k for k in WHAT if s[5:].startswith(k)), None)
    assert key, s
    out.append(f"fixed: property={WHAT[key][0]} {h} {WHAT[key][1]}")
open("known_findings.txt", "w").write("\n".join(out) + "\n")
print("\n".join(out))
