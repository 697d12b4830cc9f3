"""Writes properties.jsonl (run by hand; the output is committed)."""
import json

L = "src/valor_lite/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (pid, len(title))
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [L + f for f in files],
                "mechanism": [{"name": n, "where": L + w} for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "A cache returns every written row exactly once, in write order",
    "After any history of writes (rows, columns, record batches or whole tables, mixed freely with flushes and reads), reading the cache yields exactly the written rows, each once, in the order written, with their values and nulls unchanged; this holds for the in-memory and the on-disk cache, for every batch size, rows-per-file target and compression, on the writer's own reader and after loading the directory afresh. The rows of one write call are never split over two files, and a file never holds more than its row target plus one write batch plus one write call.",
    ["histories", "inputs", "configurations"],
    "all write histories x schemas x (backend, batch size, rows per file, compression)",
    "The tests write a few fixed patterns with one or two batch sizes; losing, duplicating or reordering buffered rows needs a particular interleaving of write kinds with chunk boundaries.",
    ["cache/ephemeral.py", "cache/persistent.py"],
    [("write buffering and file rotation", "cache/persistent.py:FileCacheWriter"), ("in-memory buffering", "cache/ephemeral.py:MemoryCacheWriter")],
    ["rows yielded by the reader", "row and table counts", "files on disk"],
)
prop(
    "C02",
    "All ways of reading a cache agree with one another",
    "For any cached rows, the table, array, table-with-array and batch iterators and the row and table counts all describe the same rows in the same order: a column selection returns exactly those columns (in the requested order for tables and numeric arrays), a filter expression keeps exactly the rows for which it is true, and batches never exceed the requested size. Both backends give the same answers.",
    ["inputs", "configurations"],
    "all cached rows x file layouts x column selections x filter expressions x batch sizes",
    "Tests read back one table with one selection; disagreement needs particular combinations of filter, selection and file layout.",
    ["cache/ephemeral.py", "cache/persistent.py"],
    [("table and array iterators", "cache/persistent.py:FileCacheReader"), ("in-memory iterators", "cache/ephemeral.py:MemoryCacheReader")],
    ["tables, arrays and batches yielded by readers"],
)
prop(
    "C03",
    "Sorting a cache yields an ordered permutation for any chunking",
    "Sorting a cache by any list of numeric keys and directions into any sink produces exactly the source rows (restricted to the selected columns, and after any given per-table ranking step), none lost, duplicated or altered, in an order that respects the keys over the whole sink, whatever the number of source files (including empty ones), the merge batch size and the sink's layout; the source is left unchanged. Sorting a writer in place orders every one of its tables without moving rows between tables, and the writer stays usable.",
    ["inputs", "configurations"],
    "all rows x source layouts x sort keys x merge batch sizes x sink layouts",
    "Tests sort a handful of arrays; a merge that drops the tail of a batch or misorders ties at a chunk boundary needs a particular layout.",
    ["cache/compute.py", "cache/persistent.py", "cache/ephemeral.py"],
    [("k-way merge of sorted fragments", "cache/compute.py:_merge"), ("in-place sort", "cache/persistent.py:FileCacheWriter.sort_by")],
    ["rows of the sink", "rows of the source afterwards"],
)
prop(
    "C04",
    "Pages over a key index are exact and partition the index",
    "Paging through a cache by a key column returns, for any offset and positive limit (or none), exactly the rows whose key is among the keys numbered offset to offset+limit in ascending order of the keys that survive the given row filter, with all columns and all of each key's surviving rows. Consecutive pages of any size therefore return every surviving row exactly once.",
    ["inputs", "configurations"],
    "all key-grouped caches x file layouts x filters x offsets x limits",
    "Tests page one fixed cache with a few offsets; off-by-one errors show only when a page edge falls on, before or after a file edge.",
    ["cache/compute.py"],
    [("page overlap arithmetic", "cache/compute.py:paginate_index")],
    ["tables yielded by pagination"],
)
prop(
    "C05",
    "Creating, loading and deleting caches never damages other data",
    "For any directory name (including glob, quote, blank and non-ASCII characters) creating a cache where something already exists is refused and leaves it intact unless replacement was asked for, loading reports a missing path, a non-directory or an incomplete configuration with the matching error and otherwise restores the configuration, and deleting (or replacing) a cache removes its own files only: sibling caches, foreign files and plain files keep their content. Deleting a path that does not exist does nothing.",
    ["histories", "inputs", "fault_sequences"],
    "all histories of create/write/load/delete over sibling paths with arbitrary names, with foreign files and damaged configurations",
    "Tests use one tidy temporary directory; damage needs neighbouring names, foreign files or special characters.",
    ["cache/persistent.py"],
    [("creation guard and deletion", "cache/persistent.py:FileCacheWriter.create, delete"), ("load validation", "cache/persistent.py:FileCacheReader.load")],
    ["directory tree", "errors raised", "rows of neighbouring caches"],
)
prop(
    "C06",
    "Classification counts, precision, recall, F1 and accuracy are as defined",
    "At every score threshold a prediction is accepted when its score is positive and at least the threshold and, with hardmax, it is the datum's first highest-scoring prediction; per label, true positives are accepted predictions equal to their datum's ground truth, false positives other accepted predictions, true negatives predictions that are neither accepted nor the ground truth, and false negatives datums of that label without a true positive in which the true label was among the predictions or some prediction was accepted. Precision, recall and F1 follow from these counts per label with 0 for an empty denominator, and accuracy is the number of datums with a true positive divided by the number of datums evaluated.",
    ["inputs", "configurations"],
    "all sets of classified datums x score thresholds (any order, duplicates) x hardmax on/off x datum filters x storage layouts",
    "Tests compare six small hand-made datasets; wrong counts need ties, equal-to-threshold scores, unpredicted labels, several thresholds or several chunks.",
    ["classification/computation.py", "classification/evaluator.py", "classification/loader.py", "classification/utilities.py"],
    [("count computation", "classification/computation.py:compute_counts"), ("winner selection", "classification/loader.py:Loader.add_data"), ("accumulation over chunks", "classification/evaluator.py:Evaluator.compute_precision_recall")],
    ["Counts, Precision, Recall, F1 and Accuracy metrics"],
)
prop(
    "C07",
    "Classification ROCAUC equals the rank statistic",
    "When every datum scores every label, the ROCAUC of a label is the probability that a random datum of that label is scored higher for it than a random datum of another label, ties counting one half (0 if either group is empty), and mROCAUC is its mean over all labels. The value does not depend on file layout, batch sizes or the merge batch size, and also holds after filtering datums.",
    ["inputs", "configurations"],
    "all fully scored datasets (with many tied scores) x storage and merge chunkings",
    "Tests check a few fixed curves in a single chunk; the curve is accumulated across chunks and ties, which fixed data do not cross.",
    ["classification/computation.py", "classification/evaluator.py"],
    [("curve construction", "classification/evaluator.py:Builder._create_rocauc_intermediate"), ("trapezoid accumulation", "classification/computation.py:compute_rocauc")],
    ["ROCAUC and mROCAUC metrics"],
)
prop(
    "C08",
    "Classification confusion matrices count every accepted pair once",
    "At every score threshold the confusion matrix entry (true label, predicted label) is the number of datums with that ground truth in which that label is an accepted prediction (positive score, at least the threshold, and the winner when hardmax is on), and the unmatched ground truth count of a label is the number of its datums with no accepted prediction. With hardmax every datum therefore appears exactly once in matrix plus unmatched counts, and all label pairs are listed even when zero.",
    ["inputs", "configurations"],
    "all sets of classified datums x thresholds x hardmax x filters x layouts",
    "Tests compare a few fixed matrices; conservation over all inputs and chunkings is never asserted.",
    ["classification/computation.py", "classification/evaluator.py", "classification/utilities.py"],
    [("pair classification", "classification/computation.py:compute_pair_classifications"), ("matrix assembly", "classification/computation.py:compute_confusion_matrix")],
    ["ConfusionMatrix metrics"],
)
prop(
    "C09",
    "Classification examples name exactly the datums behind the counts",
    "The confusion matrix with examples has the same counts as the plain confusion matrix, and each cell lists exactly the datums (with the predicted score) that it counts, each once; per-datum examples list the true label under true positives when it was accepted, accepted wrong labels under false positives, and the true label under false negatives when it was not accepted but some other label was, or nothing was. Examples are returned once per datum and threshold in datum order, and offset and limit select exactly that slice of the (filtered) datums.",
    ["inputs", "configurations"],
    "all sets of classified datums x thresholds x hardmax x filters x offsets/limits x layouts",
    "Tests look at examples of two small datasets and a few pages; misattribution needs several datums, files or filters.",
    ["classification/evaluator.py", "classification/utilities.py", "cache/compute.py"],
    [("example unpacking", "classification/utilities.py:unpack_examples"), ("identifier mapping", "classification/utilities.py:create_mapping"), ("paging", "cache/compute.py:paginate_index")],
    ["Examples and ConfusionMatrixWithExamples metrics"],
)
prop(
    "C10",
    "Filtering classifications equals evaluating only the kept data",
    "Evaluating with a datum filter, or on an evaluator produced by filtering datums, gives the same metrics as evaluating only the datums for which the filter is true (with the full label set); filtering ground truths keeps only datums whose ground truth qualifies, and filtering predictions keeps only qualifying predictions while each datum's winner stays the one chosen at loading. Filtering leaves the original evaluator unchanged, and a filter that removes everything is reported as an empty cache.",
    ["inputs", "configurations", "histories"],
    "all datasets with metadata x filter expressions x layouts x chains of filters",
    "Tests apply a few simple filters to one dataset; leaks need particular combinations of metadata, nulls, files and thresholds.",
    ["classification/evaluator.py", "classification/shared.py"],
    [("filtered rebuild", "classification/evaluator.py:Evaluator.filter"), ("datum filter", "classification/evaluator.py:Evaluator.iterate_values")],
    ["all classification metrics and info"],
)
prop(
    "C11",
    "IoU is the exact overlap ratio for boxes, polygons and bitmasks",
    "For any two regions of positive (not vanishingly small) area the computed IoU is the area of their intersection divided by the area of their union: in [0, 1], symmetric, 1 for identical regions, 0 for disjoint or merely touching ones, independent of the other pairs in the same call, and invariant under translation, scaling and swapping of axes. A region without area overlaps nothing. The same rectangles expressed as bounding boxes, polygons or bitmasks give the same IoU, and so the same evaluation results.",
    ["inputs"],
    "all lists of pairs of boxes, valid polygons (incl. rotated and non-convex) and boolean masks",
    "Tests check a few hand-computed overlaps; containment, touching edges, batches and representation changes are unbounded.",
    ["object_detection/computation.py", "object_detection/loader.py", "object_detection/annotation.py"],
    [("overlap computation", "object_detection/computation.py:compute_bbox_iou, compute_polygon_iou, compute_bitmask_iou"), ("pair order", "object_detection/loader.py:Loader.add_bounding_boxes, add_polygons, add_bitmasks")],
    ["IoU arrays", "metrics of equal scenes in different representations"],
)
prop(
    "C12",
    "Detection counts, precision, recall, F1 and AR are as defined",
    "For every label, IoU threshold in (0, 1] and score threshold, each prediction of the label competes for the same-label ground truth of its datum it overlaps most; in descending score order the first prediction whose IoU reaches the threshold makes that ground truth a true positive, all other predictions of the label with positive score at or above the score threshold are false positives, and false negatives are the ground truths left over. Precision, recall, F1, average recall (mean over IoU thresholds) and its means over labels and scores follow from these counts, with 0 for an empty denominator.",
    ["inputs", "configurations"],
    "all detection datasets x IoU and score thresholds x datum filters x layouts",
    "Tests compare a few fixed scenes; wrong matches need duplicated detections, several overlapping ground truths, boundary scores or several chunks.",
    ["object_detection/computation.py", "object_detection/evaluator.py", "object_detection/loader.py"],
    [("ranking", "object_detection/computation.py:rank_pairs, calculate_ranking_boundaries"), ("counting", "object_detection/computation.py:compute_counts"), ("averages", "object_detection/computation.py:compute_precision_recall_f1, compute_average_recall")],
    ["Counts, Precision, Recall, F1, AR, mAR and averaged metrics"],
)
prop(
    "C13",
    "Detection AP, mAP and precision-recall curves are as defined",
    "For every label and IoU threshold, AP is the mean over the 101 recall points 0.00 to 1.00 of the best precision reached at that recall or beyond when predictions are taken in descending score order (0 for labels without true positives); mAP is its mean over all labels and the averaged variants are plain means over IoU thresholds. The precision-recall curve reports those interpolated precisions, non-increasing in recall, together with non-increasing scores, and nothing depends on how the data are chunked.",
    ["inputs", "configurations"],
    "all detection datasets (several datums and labels, up to hundreds of ground truths per label) x IoU thresholds x layouts",
    "Tests check AP on small scenes with few recall steps; bin edges, chunk carry-over and tied precision need many predictions.",
    ["object_detection/computation.py", "object_detection/evaluator.py"],
    [("running counts and recall bins", "object_detection/computation.py:compute_counts"), ("interpolation", "object_detection/computation.py:compute_average_precision")],
    ["AP, mAP, averaged AP and PrecisionRecallCurve metrics"],
)
prop(
    "C14",
    "Detection confusion matrices account for every annotation",
    "Within each datum overlapping ground truths and predictions are paired one to one, greedily by descending score and then IoU regardless of label; at every threshold pair the entry (true label, predicted label) counts the pairs reaching both thresholds with that label's score, unmatched ground truths are those in no counted pair, and unmatched predictions are the labels of predictions in no counted pair whose positive score reaches the score threshold. Hence for each label the ground truths of its row plus its unmatched ground truths equal the number of its ground truths when predictions carry one label.",
    ["inputs", "configurations"],
    "all detection datasets (single- and multi-label predictions) x thresholds x filters x layouts",
    "Tests compare a few fixed matrices; conservation needs arbitrary overlaps, thresholds and several datums.",
    ["object_detection/computation.py", "object_detection/evaluator.py", "object_detection/utilities.py"],
    [("greedy one-to-one pairing", "object_detection/computation.py:mask_pairs_greedily"), ("pair classification", "object_detection/computation.py:compute_pair_classifications"), ("matrix assembly", "object_detection/computation.py:compute_confusion_matrix")],
    ["ConfusionMatrix metrics"],
)
prop(
    "C15",
    "Detection examples name exactly the annotations behind the counts",
    "The confusion matrix with examples has the same counts as the plain one and lists, per cell, exactly the datum, ground truth and prediction identifiers it counts, each once; per-datum examples list label-agreeing pairs as true positives, mislabelled or unmatched predictions as false positives, and mislabelled or unmatched ground truths as false negatives. One example entry is returned per annotated datum and threshold pair in datum order, and offset and limit select exactly that slice of the (filtered) datums.",
    ["inputs", "configurations"],
    "all detection datasets x thresholds x filters x offsets/limits x layouts",
    "Tests look at examples of a few scenes; misattributed identifiers need several datums, files, filters and shared identifiers across datums.",
    ["object_detection/evaluator.py", "object_detection/utilities.py", "cache/compute.py"],
    [("example unpacking", "object_detection/utilities.py:unpack_examples, unpack_confusion_matrix_with_examples"), ("identifier mapping", "object_detection/utilities.py:create_mapping")],
    ["Examples and ConfusionMatrixWithExamples metrics"],
)
prop(
    "C16",
    "Filtering detections equals evaluating only the kept data",
    "Evaluating with a datum filter, or on an evaluator produced by filtering, gives the same metrics and info as loading only the datums, ground truths and prediction labels for which the respective filters are true, with the full label set retained. Filtering leaves the original evaluator unchanged, and a filter that removes everything is reported as an empty cache.",
    ["inputs", "configurations", "histories"],
    "all detection datasets with datum, ground truth and prediction metadata x filter expressions x layouts",
    "Tests apply a few simple filters to one scene; a filtered annotation can leave residue through any pair it took part in.",
    ["object_detection/evaluator.py", "object_detection/shared.py"],
    [("filtered rebuild", "object_detection/evaluator.py:Evaluator.filter"), ("datum filter", "object_detection/evaluator.py:Evaluator.compute_precision_recall")],
    ["all detection metrics and info"],
)
prop(
    "C17",
    "Segmentation metrics are exact functions of the labelled pixels",
    "Each pixel of each datum is counted once by its ground truth and predicted label (or unlabelled); from these counts precision, recall, F1, IoU, mIOU, accuracy, the IoU confusion matrix and the unmatched ratios follow as defined, with 0 for an empty denominator. Pixel totals are conserved for any number of labels, datums, image shapes and masks per label.",
    ["inputs", "configurations"],
    "all sets of label maps (several masks per label, empty masks, unlabelled areas) x shapes x layouts x datum filters",
    "Tests compare a few fixed images; miscounts need several masks per label, labels first seen in later datums or several chunks.",
    ["semantic_segmentation/computation.py", "semantic_segmentation/loader.py", "semantic_segmentation/evaluator.py", "semantic_segmentation/utilities.py"],
    [("pixel counting", "semantic_segmentation/computation.py:compute_intermediates"), ("metric formulas", "semantic_segmentation/computation.py:compute_metrics"), ("row writing", "semantic_segmentation/loader.py:Loader.add_data")],
    ["Precision, Recall, F1, IOU, mIOU, Accuracy and ConfusionMatrix metrics"],
)
prop(
    "C18",
    "Overlapping segmentation masks resolve to the earlier mask",
    "In a segmentation a pixel claimed by several masks of the same side belongs to the first of them in list order: after construction the masks of each side are pairwise disjoint, their union is unchanged, and ground truths and predictions do not influence each other. A warning states the number of overlapped pixels exactly when there are any, and masks of the wrong shape or type are rejected.",
    ["inputs"],
    "all lists of masks with arbitrary overlaps (three or more deep) and shapes",
    "Tests overlap two masks; chains of overlaps with trimmed masks are not covered.",
    ["semantic_segmentation/annotation.py"],
    [("overlap removal", "semantic_segmentation/annotation.py:Segmentation._validate_bitmasks")],
    ["masks after construction", "warnings", "errors"],
)
prop(
    "C19",
    "Filtering segmentations equals evaluating only the kept data",
    "Evaluating with a datum filter equals evaluating only the datums for which it is true; an evaluator produced by filtering ground truths or predictions treats the pixels of removed labels as unlabelled on that side, so pixel totals are preserved and the metrics equal those of data loaded without the removed masks, with the full label set retained. Filtering leaves the original evaluator unchanged.",
    ["inputs", "configurations", "histories"],
    "all segmentation datasets with metadata x filter expressions x layouts",
    "Tests apply a few simple filters to one dataset.",
    ["semantic_segmentation/evaluator.py", "semantic_segmentation/shared.py"],
    [("filtered rebuild", "semantic_segmentation/evaluator.py:Evaluator.filter")],
    ["all segmentation metrics and info"],
)
prop(
    "C20",
    "Results do not depend on where or how the data are stored",
    "For every task, the same data give the same metrics, examples and counts whether kept in memory or on disk and for every batch size, rows per file, compression and finalization batch size, and whether they are added in one call or in any split into several calls in the same order.",
    ["configurations", "inputs"],
    "all datasets x pairs of storage configurations x ways of splitting the ingestion, for classification, detection and segmentation",
    "Tests run both backends on small data that fit one chunk; chunk boundaries inside the data are hardly crossed.",
    ["cache/persistent.py", "cache/ephemeral.py", "cache/compute.py", "classification/evaluator.py", "object_detection/evaluator.py", "semantic_segmentation/evaluator.py"],
    [("chunked accumulation", "object_detection/evaluator.py:Evaluator"), ("merge sort", "cache/compute.py:sort")],
    ["all metrics and info of two differently stored evaluators"],
)
prop(
    "C21",
    "A persisted evaluation reloads to identical results",
    "Loading a finalized on-disk cache in a new evaluator gives the same metrics, examples, info and metadata fields as the evaluator that wrote it, also after the directory was moved or other evaluators were loaded and filtered from it; a label mapping passed when loading (as for a filtered cache) is the one used. Metadata fields keep their order. Loading a missing path or a plain file raises the corresponding error.",
    ["histories", "configurations"],
    "all datasets with metadata x storage configurations x sequences of load, filter and move, for all three tasks",
    "Tests reload one small cache; label order, metadata types and several files are not varied.",
    ["classification/evaluator.py", "object_detection/evaluator.py", "semantic_segmentation/evaluator.py", "classification/shared.py", "object_detection/shared.py", "semantic_segmentation/shared.py"],
    [("load", "object_detection/evaluator.py:Evaluator.load"), ("metadata encoding", "object_detection/shared.py:encode_metadata_fields"), ("label recovery", "object_detection/shared.py:extract_labels")],
    ["all metrics and info before and after reload"],
)
prop(
    "C22",
    "Results are invariant to data order and to renaming of labels and ids",
    "Reordering the datums, or the predictions and annotations within a datum (scores being distinct), leaves every aggregate metric unchanged, and renaming labels or identifiers one to one changes results by exactly that renaming, for all three tasks. Adding datums in a different order only changes the order in which labels and examples are listed.",
    ["inputs"],
    "all datasets x permutations of datums, annotations and predictions x bijective renamings",
    "Tests never permute or rename their inputs.",
    ["classification/loader.py", "object_detection/loader.py", "semantic_segmentation/loader.py", "object_detection/computation.py"],
    [("label indexing", "classification/loader.py:Loader._add_label"), ("ranking", "object_detection/computation.py:rank_pairs")],
    ["all metrics of original and transformed data"],
)
prop(
    "C23",
    "Reported dataset info equals the data that were loaded",
    "The info of an evaluator reports the number of distinct labels, of datums (detection: datums with at least one annotation), of ground truth and prediction annotations (detection) or labelled and total pixels (segmentation), and the metadata fields, exactly as loaded, for any storage layout; info computed with filters counts exactly the datums, ground truths and predictions that satisfy them.",
    ["inputs", "configurations"],
    "all datasets x layouts x filter expressions, for all three tasks",
    "Tests check info of a few small datasets in one chunk.",
    ["classification/shared.py", "object_detection/shared.py", "semantic_segmentation/shared.py", "classification/evaluator.py", "object_detection/evaluator.py", "semantic_segmentation/evaluator.py"],
    [("count extraction", "object_detection/shared.py:extract_counts"), ("label extraction", "object_detection/shared.py:extract_labels")],
    ["Evaluator.info and get_info"],
)
prop(
    "C24",
    "Every metric is reported once, labelled, in range and serialisable",
    "For every task each requested combination of label, score threshold, IoU threshold and hardmax yields exactly one metric of each kind, carrying those parameters verbatim; ratios lie in [0, 1] and are finite, counts are non-negative integers, and every metric converts to plain JSON-serialisable data that keep its type, value and parameters. The same holds for labels never predicted or never in the ground truth.",
    ["inputs", "configurations"],
    "all datasets x lists of thresholds (any order), for all three tasks and their examples",
    "Tests compare selected metrics of fixed datasets.",
    ["classification/metric.py", "object_detection/metric.py", "semantic_segmentation/metric.py", "classification/utilities.py", "object_detection/utilities.py", "semantic_segmentation/utilities.py", "schemas.py"],
    [("unpacking into metrics", "object_detection/utilities.py:unpack_precision_recall_into_metric_lists"), ("metric constructors", "object_detection/metric.py:Metric")],
    ["metric lists and their dictionary form"],
)
prop(
    "C25",
    "Invalid input and misuse are refused and change nothing",
    "Malformed annotations (mismatched labels and scores, missing scores, wrong mask type or shape, empty shapes), reserved metadata names, empty threshold lists, empty datasets, datums without predictions (classification), finalizing twice (classification, and detection with predictions), creating over an existing cache and filtering an on-disk cache without a path are each rejected with an error. A rejected call leaves previously added data and existing caches usable with unchanged results.",
    ["inputs", "histories", "fault_sequences"],
    "all valid datasets interleaved with all kinds of invalid calls",
    "Tests check single invalid calls in isolation, never that the state survives them.",
    ["classification/annotation.py", "object_detection/annotation.py", "semantic_segmentation/annotation.py", "classification/evaluator.py", "object_detection/evaluator.py", "classification/loader.py", "object_detection/shared.py"],
    [("constructor validation", "object_detection/annotation.py"), ("finalize guards", "classification/evaluator.py:Builder.finalize")],
    ["errors raised", "metrics afterwards"],
)
prop(
    "C26",
    "Each LLM-guided score is the defined function of the verdicts",
    "For every LLM-guided text metric the reported value is the documented function of the statements, claims, opinions and verdicts the model returned: shares of yes/no verdicts, F1 of answer correctness, mean precision over relevant contexts and so on, with the best ground truth taken where several are given and the documented value for empty inputs. Every statement list a model returns is passed on to its verdict request, and the score lies in [0, 1] (1 to 5 for summary coherence).",
    ["inputs", "histories"],
    "all sequences of well-formed model answers x queries, responses and contexts",
    "Tests use one mocked answer per metric.",
    ["text_generation/computation.py", "text_generation/llm/generation.py", "text_generation/manager.py"],
    [("score functions", "text_generation/computation.py"), ("requests to the model", "text_generation/llm/generation.py")],
    ["metric values", "messages sent to the model"],
)
prop(
    "C27",
    "Arbitrary LLM output gives a valid score, a retry or an error metric",
    "Whatever text a model returns, an LLM-guided metric never raises because of it: an answer that is not well formed (not JSON, wrong keys, wrong types, wrong number of verdicts, unknown verdicts, out-of-range scores) is retried from the start up to the configured number of retries and then reported as an error metric naming the failure, while well-formed answers are never rejected. No more requests are made than the retry budget allows, and errors of the client itself or missing inputs are raised to the caller.",
    ["inputs", "fault_sequences"],
    "all sequences of model outputs (malformed JSON, truncated, mutated, wrong shapes) x retry budgets x metrics",
    "Tests feed a few malformed answers to individual validators.",
    ["text_generation/manager.py", "text_generation/llm/utilities.py", "text_generation/llm/validators.py", "text_generation/llm/generation.py"],
    [("retry wrapper", "text_generation/manager.py:llm_guided_metric"), ("JSON extraction", "text_generation/llm/utilities.py:trim_and_load_json"), ("validators", "text_generation/llm/validators.py")],
    ["returned metrics", "number of requests", "errors raised"],
)
prop(
    "C28",
    "LLM requests carry the user's inputs unchanged and in full",
    "Every request sent for an LLM-guided metric is a list of role/content text messages: the configured system prompt unchanged as a system message, then one user message. The user message contains the texts the request is about and no other user text, each under the heading that names its role: a single text (query, response, ground truth, text to be split, summary) verbatim, and a list (contexts, statements, claims, opinions) in full and in order as a list literal, whatever characters they contain (braces, quotes, backslashes, percent signs, newlines). It contains no unresolved template placeholder and asks the question of its own metric. The texts never change which requests are made.",
    ["inputs"],
    "all query, response, context and statement strings x metrics x system prompts",
    "Tests compare instructions for a few tame strings.",
    ["text_generation/llm/instructions.py", "text_generation/llm/generation.py", "text_generation/manager.py"],
    [("prompt templates", "text_generation/llm/instructions.py"), ("message assembly", "text_generation/llm/generation.py")],
    ["messages received by the client"],
)
prop(
    "C29",
    "BLEU and ROUGE scores equal their definitions",
    "Sentence BLEU is the weighted geometric mean of n-gram precisions, each n-gram clipped to its largest count in any reference, times the brevity penalty for the reference closest in length (the shorter on a tie); ROUGE is, per requested type (with or without stemming), the F-measure against the best reference. Values lie in [0, 1], a text among its own references scores 1 when long enough for the requested n-grams, texts without common tokens score 0, and neither order nor repetition of references matters. The metrics carry the weights, ROUGE type and stemming they were computed with. Requests without weights or without context are refused with an error.",
    ["inputs"],
    "all predictions and reference lists (any unicode text) x weights x ROUGE types x stemmer option",
    "Tests score a few sentences.",
    ["text_generation/computation.py", "text_generation/manager.py"],
    [("BLEU", "text_generation/computation.py:calculate_sentence_bleu"), ("ROUGE", "text_generation/computation.py:calculate_rouge_scores")],
    ["BLEU and ROUGE metrics"],
)
prop(
    "C30",
    "Client wrappers deliver messages and answers unchanged and count tokens",
    "The OpenAI and Mistral wrappers forward valid message lists, model name and options to the client unchanged, return the model's text verbatim (empty text when there is none), refuse truncated or content-filtered answers and malformed messages with an error, and accumulate token usage over calls exactly. Contradictory options (a fixed seed with retries) are refused.",
    ["inputs", "fault_sequences"],
    "all message lists x answer texts x finish reasons x usages x sequences of calls",
    "Tests mock single calls.",
    ["text_generation/llm/integrations.py", "text_generation/manager.py"],
    [("OpenAI wrapper", "text_generation/llm/integrations.py:OpenAIWrapper"), ("Mistral wrapper", "text_generation/llm/integrations.py:MistralWrapper"), ("message validation", "text_generation/llm/integrations.py:_validate_messages")],
    ["calls made on a stub client", "returned text", "token totals"],
)
prop(
    "C31",
    "Thresholds are independent of each other and act monotonically",
    "The metrics reported for a threshold are the same whatever other thresholds are requested, in whatever order and however often, for classification and detection. Raising the score threshold never increases true or false positives, nor recall (in classification provided every datum's true label is among its predictions), and raising the IoU threshold never increases a detection label's true positives, recall, AP or AR.",
    ["inputs", "configurations"],
    "all datasets x threshold lists (permuted, duplicated, sub- and supersets)",
    "Tests evaluate fixed threshold lists.",
    ["classification/computation.py", "object_detection/computation.py", "classification/evaluator.py", "object_detection/evaluator.py"],
    [("per-threshold loops", "classification/computation.py:compute_counts"), ("per-threshold loops", "object_detection/computation.py:compute_counts, compute_pair_classifications")],
    ["metrics per threshold"],
)
prop(
    "C32",
    "Evaluations are repeatable and leave the caller's data alone",
    "Any sequence of metric, example, info and filter calls on one evaluator (also with filtered or reloaded evaluators in use alongside) gives, call by call, what the same call gives on a fresh evaluator over the same data, whatever was computed before; likewise for text metrics over several queries. Threshold lists, annotations, masks, metadata and query responses passed in are never modified (apart from the overlap trimming of segmentation masks at construction), and editing added annotations or returned metrics afterwards does not change later results.",
    ["histories", "inputs"],
    "all sequences of calls x data x thresholds x filters x pages, with caller-side edits in between",
    "Tests call each method once on a fresh fixture; state that leaks between calls needs particular sequences.",
    ["classification/evaluator.py", "object_detection/evaluator.py", "semantic_segmentation/evaluator.py", "text_generation/manager.py", "classification/loader.py", "object_detection/loader.py", "semantic_segmentation/loader.py"],
    [("metric computation", "classification/evaluator.py:Evaluator"), ("metric computation", "object_detection/evaluator.py:Evaluator"), ("metric computation", "semantic_segmentation/evaluator.py:Evaluator"), ("text metrics", "text_generation/manager.py:Evaluator")],
    ["returned metrics", "objects passed in"],
)

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
