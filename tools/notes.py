import json
N={
"C01":("runtime monitor: every view compared cell by cell with a pure row/column-selection reference","Random stacks of selecting views; the oracle is the row mapping computed from the arguments alone. Trusts the accessors (C09 checks them against each other)."),
"C02":("runtime monitor: partition/conservation checker over the parts","Sizes below, at and above the number of rows, on views and zero-row frames."),
"C03":("runtime monitor: permutation and order checker with exact 64-bit and NaN-aware comparison","Ties may be ordered freely; keys include NaN, infinities, -0 and integers beyond 2^53."),
"C04":("runtime monitor: permutation checker plus statistical position-frequency monitor over seeds","Fairness is judged by a 7-sigma test on 2 to 7 rows; larger sizes by permutation, distinctness and repeatability only."),
"C05":("runtime monitor: online shared-cell model replayed against every live frame after each write","The model knows which cells each frame's rows are; it is exact for all histories made of the listed operations."),
"C06":("runtime monitor: online shared-cell model with detach/copy steps","Writes after each detaching step on either side are compared in every live frame."),
"C07":("runtime monitor: snapshots of all relatives before and after each structural edit","Edits of a parent seen through its existing views are not judged (the documentation does not promise either way)."),
"C08":("runtime monitor: online model of a frame's columns over edit sequences","Every step re-checks headers, accessors, counts and column lengths."),
"C09":("runtime monitor: differential read paths","All read paths of the same frame are compared with one another and with the boxed copy; batchers and iterators are reused across frames."),
"C10":("runtime monitor: reference column concatenation incl. adversarial index lists (hash collisions)","Success and refusal are both predicted from row counts, names and storage indices."),
"C11":("runtime monitor: reference row concatenation, isolation probes by writing to both sides","Missing, extra and mistyped columns are planted in any position."),
"C12":("runtime monitor: differential against an independent inference over encoding/csv records","The record splitting itself is taken from the standard library with the same options; inference and values are recomputed independently."),
"C13":("runtime monitor: offline checker of the written CSV outputs against the view's rows, and round trips","Strings with carriage returns are left out (encoding/csv normalises them)."),
"C14":("fault injection at every byte offset of writers and readers, plus file-system faults, with a report-or-complete oracle","Enumerates every failing byte position of each generated CSV; file-system faults are real ones (missing directory, directory in place of a file, full device, dangling link)."),
"C15":("runtime monitor: per-string oracle from x/text, snapshot comparison on errors","Trusts golang.org/x/text for the conversion of a single string."),
"C16":("runtime monitor: online dictionary string->integer over all runs, frames, CPU settings and a second process","Injectivity over the strings seen; a 63-bit coincidence would be reported but has negligible probability."),
"C17":("race detector plus monitors: parallel result vs one-CPU result, exactly-once, goroutine-leak and deadlock monitors","Schedules are those the Go scheduler produces under varied GOMAXPROCS, CPU settings and injected yields; not exhaustive."),
"C18":("race detector under concurrent readers/derivers/predictors, each result compared with the sequential one","Schedules are sampled, not enumerated."),
"C19":("runtime monitor: reference imputer, whole-storage snapshots","Relative tolerance 1e-9 on means."),
"C20":("runtime monitor: reference affine maps, once-per-row and inverse checks, whole-storage snapshots","Relative tolerance 1e-9; magnitudes within 1e-100..1e100."),
"C21":("runtime monitor: exactly-one-indicator invariant and policy oracle per row","Policy pairs that are contradictory (error plus shared, imputing with nothing to impute from) are not generated."),
"C22":("runtime monitor: snapshots of the input, its parents, siblings and hidden rows around every call","Covers every fit, view transformation and prediction."),
"C23":("runtime monitor: differential against a pipeline composed independently from reference parts","Indicator names are compared up to renaming."),
"C24":("runtime monitor: JSON round trip, original and restored object compared on many frames","Column names and strings are valid UTF-8 (JSON's limit)."),
"C25":("runtime monitor: closed forms on diagonal designs and reference gradient descent","Row order within an epoch is random; oracles are chosen so that the result does not depend on it."),
"C26":("runtime monitor: prediction recomputed per row by feature name, alignment by storage index","Includes multi-batch predictions (above 4.19M cells)."),
"C27":("runtime monitor: formulas recomputed on the values the views show","Relative tolerance 1e-9."),
"C28":("runtime monitor: builder model, sharing probes, ragged inputs","Column types are not mixed under one name."),
"C29":("runtime monitor: set model of headers, mutation probes","Only headers handed out by the library are probed."),
"C30":("runtime monitor: captured standard output parsed and compared with the view","The exact layout is judged leniently; values, names and counts exactly."),
}
json.dump(N,open('/verif/tools/notes.json','w'),indent=1)
