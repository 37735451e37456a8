#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe or ["return value of the exported call", "values read back through the exported accessors"],
                   hook_needed=hook)))
V="dataframe/view.go"; R="dataframe/raw_data.go"; D="dataframe/dataframe.go"; I="dataframe/inplace.go"
CA="dataframe/column_access.go"; CC="dataframe/concat.go"; CP="dataframe/csv_parsing.go"; CW="dataframe/csv_writing.go"
H="dataframe/column_header.go"; B="dataframe/builder.go"; IT="dataframe/row_iterators.go"; DB="dataframe/dense_gonum_batching.go"
FB="dataframe/float_batching.go"; CV="dataframe/conversions.go"; PR="dataframe/print.go"; SQ="utils/string_q.go"; U="utils/utils.go"
FI="preprocessing/float_imputer.go"; SC="preprocessing/scaler.go"; OH="preprocessing/one_hot.go"; HE="preprocessing/hash_encoder.go"
AP="preprocessing/auto_preprocessor.go"; LR="algorithms/linear_regression.go"; EV="algorithms/evaluation.go"

p("C01","Row- and column-selecting views show exactly the requested rows and columns",
  "A view made by row indices, by slice, by mask, by reversal, by index reset, by a plain view or by column subset, stacked to any depth on any frame, shows exactly the selected rows of its source in the selected order (negative slice bounds count from the end with -1 meaning 'past the last row'; from>to slices the reversed frame between the two bounds in increasing order; an index reset shows the same rows in storage order), and exactly the selected columns with their types. All the columns of one view stay row-aligned, repeated rows included, and building a view leaves its source frame showing what it showed before.",
  ["inputs","histories"],"every frame (any column mix, 0..n rows), every chain of selecting views with any legal arguments",
  "The tests build one or two views on tables of at most 10 rows; the slice code takes a different path (re-based storage) only when the slice is long relative to the number of columns and the frame is not already row-indexed, so chains that mix both paths, repeated indices, empty frames and large frames are unsampled.",
  [V,I,CA],[("index indirection composed at every view",V+":IndexView,MaskView,ReverseView"),("re-basing slice",I+":cut"),("column subset",V+":ColumnView")],
  state=[dict(name="indices",meaning="logical row -> storage row",where=D),dict(name="indexViewed",meaning="whether indices is not the identity",where=D)])
p("C02","Splitting a frame partitions its rows",
  "Splitting into batches of a given size yields ceil(rows/size) frames (at least one), all of exactly that size except the last; splitting into n parts yields exactly n frames whose sizes never exceed ceil(rows/n) (none if n is zero), each with the columns of the source; the train/test split gives the leading rows for training and the trailing int(rows*ratio) rows for testing. In each case the parts, concatenated in order, are exactly the rows of the source, each once and in the source's order.",
  ["inputs","configurations"],"every frame or view, every batch size >=1, every n>=1, every ratio in [0,1]",
  "Tests split 5- and 6-row frames in 3; they never split views, empty frames, or frames long enough to take the re-basing path.",
  [V,I],[("batch arithmetic",V+":SplitNView,SplitView,SplitTrainTestViews"),("cut",I+":cut")])
p("C03","Sorted and top-n views are correctly ordered selections",
  "Sorting by a float, int or bool column yields a permutation of the source rows in which the non-missing key values are in ascending order, with integers compared exactly over their whole 64-bit range and whatever missing float values are present; those come last. A top-n view yields min(n, rows) distinct rows of the source; among its non-missing keys no excluded row has a strictly better (smaller when ascending, larger otherwise) key, and when sorted order is requested those keys come in the requested direction; a non-numerical sorting column or negative n panics.",
  ["inputs"],"every frame or view, every numeric key column (with NaN, infinities, duplicates, 64-bit integers), every n and both flags",
  "Tests sort 4 distinct small values; NaN keys break the comparison-based sort only for particular arrangements, and integer keys above 2^53 (hashes) are never tried.",
  [V,U],[("argsort",U+":FloatArgSort"),("sorted/top views",V+":SortedView,TopView")])
p("C04","Shuffles and samples are fair, repeatable selections without replacement",
  "A shuffled view contains every row of its source exactly once; a sample of n rows contains n distinct rows of its source, and asking for more rows than there are, or for replacement, panics. Re-seeding the global random generator with the same seed reproduces the same view, and over seeds every row is equally likely to land at every position.",
  ["inputs","configurations"],"every frame or view, every n, every seed",
  "Tests check one 6-row shuffle for being different and one sample for its size; permutation, distinctness, repeatability and bias are unchecked.",
  [V],[("Fisher-Yates over a fresh index range",V+":ShuffleView"),("truncation of a shuffle",V+":SampleView")])
p("C05","Views share data: a write is seen through every view and nowhere else",
  "Every view-returning function shares the storage of the columns it forwards: a value written into a row of a column through any frame (element-wise, or by overwriting an existing column, which equals writing its elements one by one in order) becomes visible in every frame that shares that column, at every position showing that row, also under another column name. No other row, column or frame changes.",
  ["histories"],"every history of view creations (all view-returning functions, any depth) and writes through any of the frames",
  "One test writes one cell through chains of three view kinds on a single int column and only counts sentinels; it does not check where they land, other types, slices with re-based storage, or concatenated and renamed views.",
  [V,R,D,CC,I,CA],[("map/slice sharing",V+":View,ColumnView"),("shallow transfer",R+":TransferRawDataFrom"),("column sharing on concat",CC+":ColumnConcatView"),("write indirection",I+":Overwrite*")])
p("C06","Detached columns and copies never alias",
  "After detaching a set of columns, or copying a frame, or row-concatenating, or copy-concatenating columns, writing to the affected columns on either side never changes what the other side (or any other frame) shows, while columns that were not detached stay shared. At the moment of the operation the result shows exactly the same rows, values, column types and declared text encoding as its source. A copy or copying concatenation also has masks of its own: filling a mask taken from one side leaves a mask taken from the other alone.",
  ["histories"],"every history of views, detaches (by name, or all), in-place unshares, copies and writes in any order",
  "Tests write one cell after one Unshare and one Copy on a flat frame; bookkeeping of which columns are shared only goes wrong on histories (column subsets of shallow copies, renames, slices) that are not sampled.",
  [R,V,D,CC],[("Unshare",R+":Unshare"),("DetachedView",V+":DetachedView"),("Copy",D+":Copy"),("share bookkeeping",R+":reallocateMaps, shared")],
  state=[dict(name="shared / sharedMaps",meaning="which columns (or the whole column table) belong to another frame",where=R)])
p("C07","Structural edits on a view never leak into its source or sibling views",
  "Dropping, renaming, allocating or overwriting-into-existence columns, converting column types, transferring columns in, adding or setting columns through a builder, or marking columns as strings on a view, column view, shallow copy, detached view, top-n view, hashed view, concatenation or frame made from a view's raw data, or on a copy, changes neither the set of columns, nor their types or string marking, nor the contents, of the frame it was derived from or of any sibling view; nor do edits of a frame change its copies. Transformations documented to return views obey the same rule.",
  ["histories"],"every history of derivations and structural edits, observing all live frames after each step",
  "No test edits the structure of a view and looks at the parent afterwards, except one write into a shallow copy's map.",
  [R,V,D],[("copy-on-write of the column tables",R+":reallocateMaps"),("structural edits",R+":Drop,Rename,Alloc*,IntToFloats,BoolToFloats,TransferRawDataFrom")],
  state=[dict(name="stringHeader",meaning="which object columns are string columns",where=R)])
p("C08","Frames stay well-formed: one type per name, all columns full length",
  "After any sequence of column edits (drop, rename - also onto itself or onto an existing name -, allocate, create by overwriting, type conversion, column transfer, encoding change) each column name denotes exactly one column of one type, string columns are object columns, the column count, the per-type headers and the accessors agree, and every column has a value for every row. Renaming keeps the column's data, type and string marking; conversions keep the values (ints as floats, booleans as 0/1); the first column of an empty frame of n rows can be created by overwriting and has n rows.",
  ["histories","inputs"],"every sequence of structural edits on frames and views of any kind",
  "Tests drop one column and check that the header is empty; conversions, renames and allocations have no test at all.",
  [R,H,D,I],[("per-type maps keyed by name",R),("headers",H)])
p("C09","All ways of reading a frame agree with each other",
  "For every frame and view, the typed accessors, the boxed column copy, the (copying and non-copying) gonum vectors, the gonum batch matrices and the float32 row iterator deliver the same values for the same (row, column) in view order, with booleans as 0/1, and with columns in the requested order. Reusing one batcher or iterator for further frames of other sizes (for the batcher: also with other numeric column types under the same names) never mixes in stale or foreign data; an iterator's checked Reset refuses a frame whose columns have other types; the copying forms never alias the frame. The typed accessors refuse (panic) columns of other types and missing columns.",
  ["inputs","histories"],"every frame or view, every ordered selection of numeric columns, every sequence of frames fed to the same batcher/iterator",
  "One test iterates one 1000-row flat frame; batch matrices have no direct test, and neither has reuse across frames of different sizes or views.",
  [CA,DB,IT,FB,CV],[("Get/SharedIndex indirection",CA),("recycled batch buffer",DB+":DenseMatrix"),("128-row read-ahead",IT+":NextRow"),("VecDense contiguous fast path",CA+":VecDense")],
  state=[dict(name="bat.data / ite.rows",meaning="recycled buffers",where=DB)])
p("C10","Column concatenation aligns rows or refuses",
  "When column-wise concatenation of frames (sharing, copying or smart) succeeds, row i of the result is row i of every input in every column, the columns and their types (string marking included) are the union of the inputs' and the result is usable by every read path. It returns an error whenever there is no input, or the inputs have different numbers of rows or a column name in common, and the sharing form also whenever the inputs' rows are not selected by the same storage indices (otherwise it succeeds); the copying and smart forms succeed on any inputs of equal length with disjoint names.",
  ["inputs","histories"],"all lists of frames and views with any row selections",
  "Tests concatenate two 3-row frames; alignment is decided through a small non-injective hash of the index lists which no test stresses, and views next to non-views are never mixed.",
  [CC,"dataframe/checks.go",U],[("index comparison",CC+":ColumnConcatView"),("overlap check","dataframe/checks.go:CheckNoColumnOverlap")])
p("C11","Row concatenation stacks rows of frames with identical columns or refuses",
  "Row-wise concatenation of frames and views having the same column names and types gives a frame whose rows are the rows of the inputs in order, with the same column types (string marking and declared text encoding included), and which shares no storage with them. It returns an error when any input lacks a column of another or has it with another type (a string column and a plain object column being of different types), and when there is no input.",
  ["inputs"],"all lists of frames and views, with equal or different column sets",
  "One test concatenates two flat 3-row frames; views, mismatching columns and error paths are unsampled.",
  [CC],[("RowConcat",CC+":RowConcat")])
p("C12","CSV columns are typed and valued by the documented inference rules",
  "For distinct column names, every column of a CSV is read as: bool if all its cells are bool literals (as 0/1 floats instead if bool-as-float is set, or if all are '0'/'1' and binary-as-float is set); else int if all cells that are not missing-value literals are 64-bit decimal integers and int-as-float is off (missing: -1); else float if all non-missing cells are floats (missing: NaN); else string (missing: nil). Values equal the cells' standard parse, rows keep file order, excluded columns are absent, a caller-supplied header makes the first line data, and the result is independent of the number of CPUs and of how the input is chunked.",
  ["inputs","configurations"],"every well-formed CSV text and every combination of reading options and CPU counts",
  "One 4x4 file is read under three option sets; flags, numeric edge cases, names (empty names included), zero-row files and multi-thread column distribution are unsampled.",
  [CP,SQ],[("toNativeTypes",CP+":toNativeTypes"),("column queue",SQ)])
p("C13","Written CSV contains exactly the view's rows and reads back to the same data",
  "Writing a frame or view as CSV (single writer, several writers, files or directory) produces, over all outputs together, a header naming every float/int/bool/string column in each output and exactly one record per row of the view carrying the exact values of that row; in row order for a single writer whenever order maintenance is requested or rows were never re-indexed, and across the outputs in output order likewise. Reading the outputs back, one by one or by file pattern, yields the same rows and string columns (up to the documented type inference), whatever the number of files, rows per file and CPUs.",
  ["inputs","configurations"],"every frame/view with representable text, every writer count, MinRowsPerFile, CPU count and separator, both order modes",
  "One test writes 3 rows of a non-view to 2 files and compares the *input* frame with itself; written contents, views, order modes, directory output and pattern reading are unchecked.",
  [CW,CP,R],[("batched row writing",CW+":To1CSV"),("split among writers",CW+":ToCSVs,ToCSVDir"),("pattern merge",CP+":FromCSVFilePattern"),("row merge",R+":MergeRawDataRows")])
p("C14","CSV input/output faults are reported, never swallowed and never a crash",
  "If a writer fails at any byte position, or any output file or directory cannot be created or written, CSV writing returns an error, and it returns nil only when every byte was accepted. If a reader fails at any byte position, the CSV text is malformed, the supplied header does not fit, or any matched file cannot be read, CSV reading returns an error and no data instead of partial data or a panic; a pattern without match returns neither data nor error.",
  ["fault_sequences","inputs"],"a failure injected at every byte offset of the output/input of a set of frames and texts, on any subset of writers, plus malformed texts and file-system faults",
  "No test injects any I/O fault.",
  [CW,CP],[("error returns",CW+":To1CSV,ToCSVs,ToCSVFiles"),("error returns",CP+":FromCSV,FromCSVFilePattern")])
p("C15","Text re-encoding is exact, all-or-nothing, and the declared encoding travels",
  "Changing the text encoding of a frame replaces every non-missing string by its exact re-encoding from the declared to the new encoding, once per row however often a view shows the row, and leaves missing values and all other columns alone; the newly declared encoding takes effect for later calls. If any string cannot be converted an error is returned and all strings and the declared encoding are exactly as before. Copies, shallow copies, views and row concatenations keep the declared encoding.",
  ["inputs","histories"],"every set of strings (valid or not in the declared encoding), every pair of encodings, frames with several string columns, views with repeated rows, sequences of encodings",
  "One round trip of one 3-string column and one failing call with one column are tested; rollback across columns, lossy decodes, repeated rows and copied frames are not.",
  [I,D,R],[("Encode with rollback",I+":Encode,inplaceEncoding")],state=[dict(name="textEncoding",meaning="declared encoding, nil = UTF-8",where=R)])
p("C16","String hashing and labelling are functions of the string alone",
  "Hashing string columns maps missing values to -1 and every string to a non-negative integer depending only on the string - identical across rows, columns, frames, views, CPU counts and processes - with distinct strings getting distinct integers barring 63-bit coincidences; hashed columns become int columns, all others are forwarded, and the input frame keeps its strings. Label conversion numbers distinct strings 0,1,2,... in order of first appearance in the view, returns exactly that mapping, and gives -1 for missing values.",
  ["inputs","configurations"],"all string multisets, column subsets, views, CPU counts, and repeated processes",
  "Tests hash one 4-string column with a few CPU counts and check the sign on one 30000-string column.",
  [V,CV,HE],[("FNV-1a hashing",V+":workerHashes,HashStringsView"),("LabelToInt",CV+":LabelToInt")])
p("C17","Parallel operations give the sequential result, race-free, and always finish",
  "Every operation that spreads work over CPUs (string hashing, CSV reading of one or many files, multi-writer CSV writing, fitting and applying imputers, scalers, one-hot encoders and the automatic preprocessor) gives, for every CPU setting and schedule, the same result as with one CPU (up to the documented freedoms: the order in which the files of a pattern are stacked, the row order when order maintenance is off), processes each column or file exactly once, is free of data races, returns, and leaves no goroutine behind.",
  ["schedules","configurations"],"all CPU settings (including negative, zero, more CPUs than columns or files), all interleavings of the workers",
  "Tests run on the default CPU setting with tiny inputs and without the race detector; some CPU/file-count combinations are never run at all.",
  [SQ,V,CP,CW,FI,SC,OH],[("job queue",SQ),("workers",V+":workerHashes"),("workers",CP+":toNativeTypes,processFileQueue"),("workers",OH+":workerFits,workerTransforms"),("workers",SC+":workerFits,workerTransforms")],
  hook="schedule observation and perturbation points in the job queue (build tag verif); the verdict does not depend on them",observe=["race detector reports","goroutine states","results compared with the one-CPU run"])
p("C18","Frames and trained objects can be used by many goroutines at once",
  "Any number of goroutines may at the same time read one frame and derive views, copies, concatenations, hashes and CSV from it (with per-goroutine or thread-safe masks), edit the structure of their own views, write to disjoint row batches, and apply one trained preprocessor or regressor to it, without data races, and each obtains the result it would have obtained alone.",
  ["schedules","histories"],"all interleavings of concurrent readers, view builders, view editors, batch writers, transformers and predictors on shared objects",
  "No test uses more than one goroutine per frame or trained object.",
  [V,R,D,AP,LR,OH,SC],[("views never write to their source",V),("thread-safe masks",D+":ThreadSafeMasking"),("read-only use of trained state",AP+":TransformView")],
  observe=["race detector reports","per-goroutine results compared with the sequential results"])
p("C19","Imputation replaces exactly the missing values by the fitted neutral value",
  "Fitting an imputer on a view learns, for each float column of the view and from the view's non-missing values only, their mean (0 for a column without any value), or 0, or 1, by policy; applying it to any frame having these columns replaces exactly the missing values shown by that frame in these columns with it. Nothing else changes: other cells, rows outside the view, other columns, and fitting itself modifies nothing.",
  ["inputs"],"all float data with any missing pattern, training and application on different views or frames with extra columns, all policies and CPU counts",
  "One column of three viewed values is tested with the mean policy.",
  [FI],[("per-column mean",FI+":workerFits"),("TransformInplace",FI+":TransformInplace")])
p("C20","Scaling applies the fitted affine map, once per row, and its inverse undoes it",
  "Fitting a scaler on a view learns per float column, from its non-missing values: for min-max the map of [min,max] onto [0,1]; otherwise subtraction of the mean when centering and division by the population standard deviation when scaling (constant columns get some finite non-zero factor; centering maps their value to 0 up to rounding, whatever the value). Applying it maps each row shown by a frame exactly once (however often the frame shows it), keeps missing values missing, and touches no other rows or columns; applying the inverse restores the original values up to rounding.",
  ["inputs"],"all float data of magnitude 0 or 1e-100 to 1e100, all option combinations, fit and application on different views (repeated rows included), any CPU count",
  "Tests scale one 4-value column whose min-max range is exactly 1, on a view without repetition.",
  [SC],[("fit statistics",SC+":workerFits"),("affine map",SC+":workerTransforms"),("inverse",SC+":InverseTransformInplace")])
p("C21","One-hot encoding sets exactly one indicator per row and categorical column",
  "After fitting on a view, transforming a frame replaces (or keeps, by option) each categorical int column by boolean indicator columns of which every row has exactly one true: the known category's own indicator for a known value, and for missing (-1) or unknown values the one prescribed by the respective policy - a separate, a shared separate, or a most frequent category's indicator - or the transformation returns an error if the policy says so. Distinct known categories never share an indicator, the indicators are exactly the advertised new columns, and other columns are forwarded unchanged.",
  ["inputs","configurations"],"all categorical data (any ints), all admissible policy pairs, separate training and application data, any number of columns and CPUs",
  "Tests cover one- and two-row frames for five policy pairs and mostly count columns.",
  [OH],[("Fit",OH+":workerFits,Fit"),("TransformView",OH+":workerTransforms")])
p("C22","View transformations and fitting never modify their input",
  "Fitting any preprocessor or model, and applying any view-returning transformation or prediction, leaves every row and column of the input frame - and of the frames it shares data with, rows hidden by views included - exactly as it was, as to columns, types and contents. The result forwards untransformed columns with the same rows in the same order (prediction may reorder rows), and an in-place transformation only ever changes the fitted columns of the rows shown.",
  ["inputs","histories"],"all preprocessors and options, all frames and views, repeated application",
  "Existing tests never look at the input after a transformation.",
  [AP,OH,HE,SC,FI,LR],[("detaching before in-place work",AP+":TransformView,fit"),("new columns on a view",OH+":TransformView")])
p("C23","The automatic preprocessor composes its parts consistently for every option set",
  "For every combination of options and column types, fit-and-transform gives the same frame as fitting and then transforming the same data: included float columns imputed (if imputing) and then standardised (if scaling), included categorical columns - the string columns if any, else the int columns - one-hot encoded, and everything else, excluded columns in particular, forwarded untouched. The advertised input columns are exactly the included columns it transforms, and fitting again discards what was fitted before.",
  ["inputs","configurations"],"all option combinations (imputing, scaling, exclusions), all column mixes (also without floats, without strings, without ints), train and test data, refitting",
  "One test uses imputing and scaling both on with one string and one float column.",
  [AP],[("fit",AP+":fit"),("TransformView",AP+":TransformView"),("TransformedColumns",AP+":TransformedColumns")])
p("C24","Trained preprocessors and models survive JSON serialisation",
  "Every trained preprocessor and regressor whose parameters are finite numbers (a regression that diverged has none JSON can express) serialises to JSON without error and the deserialised object produces exactly the same outputs (and errors, inverse transformations and advertised columns) on every frame as the original.",
  ["inputs","configurations"],"all trainable objects, options and training data (columns with only missing values included), applied to train and unseen data",
  "One encoder is round-tripped on 6 ints in a test; scalers, imputers, the automatic preprocessor and the regressor never are.",
  [FI,SC,OH,HE,AP,LR],[("exported state",SC+":Scaler"),("exported state",OH+":OneHotEncoder"),("exported state",LR+":LinearRegressor")])
p("C25","Regression training is gradient descent over every row exactly once per epoch",
  "Training uses exactly the float and bool columns other than the target as features and standardises the target; in each epoch every row contributes its squared-error gradient exactly once, whatever the batch size (also when it does not divide the number of rows, and when zero options take their defaults), memory mode and view, with the documented effect of learning rate, weight decay and momentum. Consequently a noiseless linear target is recovered by sufficiently many epochs at a small enough learning rate.",
  ["inputs","configurations"],"all finite training frames and views, all batch sizes, epochs, learning rates, decay and momentum values",
  "One test checks a loose error bound for one configuration of one synthetic data set with huge tolerance.",
  [LR],[("training loop",LR+":Fit")])
p("C26","Prediction applies the trained linear map to every row, aligned",
  "Prediction returns a frame with exactly the rows of the input (possibly reordered to storage order, repeated rows included, and zero rows if the input has none), carrying all the input's columns row-aligned plus one float column under the requested name holding, for each row, the weights applied to that row's own features mapped back to the target's scale; features are found by name whatever other columns exist. If the result name already exists its data is replaced in the result only.",
  ["inputs"],"all trained weights, all frames/views of any size and column order, any result name",
  "One test predicts on its own training frame and bounds the mean error by 0.16.",
  [LR,DB],[("batched prediction",LR+":Predict"),("inverse target scaling",SC+":InverseTransformInplace")])
p("C27","Evaluation metrics equal their formulas on any pair of views",
  "The mean squared error and mean absolute error of two float columns equal the mean over rows of the squared, respectively absolute, differences of the values the two views show at the same position, are symmetric, are zero on equal data, and comparing columns of different sizes panics.",
  ["inputs"],"all pairs of float columns on any frames and views of equal or different size",
  "Only one value of one metric is compared with a loose bound.",
  [EV],[("MSE/MAE",EV)])
p("C28","Builders produce exactly the frame described, or refuse ragged data",
  "A frame built column by column (adding values piecewise in any order, or setting whole columns) has exactly the added columns with their types, string marking and values in the order added; set columns are shared with the caller's slice, added ones are copied, and adding values to a set column leaves the memory behind the slice alone. Columns of unequal length, a name used for columns of different types or a string mark on something else than an object column make the conversion to a frame panic rather than produce a frame; the consistency check reports raggedness exactly.",
  ["inputs","histories"],"all interleavings of builder calls over all column types and lengths",
  "Tests only build consistent frames with one call per column.",
  [B,R],[("DataBuilder",B),("consistency check",R+":ToDataFrame")])
p("C29","Column headers are exact, detached sets",
  "Headers obtained from a frame are exactly its float, int, bool, object (strings included), string, or all columns; the union and exception operations on headers compute set union and difference, copies are independent, and whatever is done to a header or its list of names never changes the frame.",
  ["inputs","histories"],"all frames and all sequences of header operations",
  "Two tests compare the list of all columns of a fixed frame.",
  [H],[("header accessors and algebra",H)])
p("C30","Printing shows exactly the view's first rows and changes nothing",
  "Printing the head of a frame prints, for every column, exactly the values of the first n rows of the view (all rows if n is negative or too large); printing records prints one line per such row with every column's name, or the given short name, verbatim and its value; the summary lists every column under its type and the number of rows; abbreviated names are distinct prefixes of the full names, none of which is the name of another column and which are no longer than the given minimum where that is unambiguous. Printing and debugging never change the frame.",
  ["inputs"],"all frames and views, all n, formats and column names (any characters)",
  "Tests call the printing functions on one frame and check nothing.",
  [PR],[("PrintHead/PrintRecords/PrintSummary/GoodShortNames",PR)],observe=["captured standard output"])
p("C31","Merging raw data is exact: columns are shared, rows are copied",
  "Merging or transferring raw data column-wise gives exactly the union of the columns, a later structure replacing same-named columns of any type of an earlier one, with types and string marking; the data is shared in both directions, the structure is not, detaching columns of the result cuts them off, and the inputs keep their columns. Merging row-wise gives all allocated rows of the inputs in order under their common columns, with types, string marking and declared encoding, and shares nothing. Merged columns of different lengths (or different columns merged row-wise) make the conversion to a frame panic. The column overlap check fails if and only if two frames have a column name in common, whatever its types.",
  ["inputs","histories"],"all lists of raw data structures of frames and views, equal or different columns, all write and edit probes",
  "No test merges raw data; only one CSV file pattern read exercised the row merge.",
  [R,"dataframe/checks.go"],[("column merge",R+":TransferRawDataFrom,MergeRawDataColumns"),("row merge",R+":MergeRawDataRows"),("ToDataFrame",R+":ToDataFrame"),("overlap","dataframe/checks.go:CheckNoColumnOverlap")])
p("C32","Helper functions: ranges, partitions, sets, ranks and assertions are exact",
  "Integer ranges contain exactly the values from the first, spaced by the interval, below the end. Group indexers (also when initialised again) partition any number of elements into consecutive non-empty groups, at most as many as asked and none larger than the elements divided by the groups asked, rounded up, each element exactly once and in order; string splits are their groups. Set and index helpers agree with the list they are given; the rank order of a vector is a permutation sorting it and leaves a read-only vector unchanged. Every test assertion returns false and fails its test if and only if what it asserts is wrong (floats within 0.01, NaN only equal to NaN).",
  ["inputs"],"all ranges, sizes and group counts, string lists, vectors and assertion arguments",
  "Tests split one list and sort one vector; the assertions that every other test relies on are themselves untested.",
  [U,"utils/group_indexer.go","utils/asserts.go"],[("MakeRange,SplitStringSlice,FloatArgSort",U),("GroupIndexer","utils/group_indexer.go"),("assertions","utils/asserts.go")])
p("C33","The CPU limit is inherited by everything derived and respected by everything multi-threaded",
  "The limit of a raw data structure or frame is the number given, or the number of CPUs of the machine if that number is not positive or larger; reading CSV with MaxCPU sets it. Every view, copy, split, sort, sample, detachment, hashing, encoding, preprocessing, prediction, merge or concatenation (of inputs with equal limits) has the limit its source had at that moment; structural edits keep it; changing it on one frame changes no other. No multi-threaded operation has more goroutines working on columns than the limit, and CSV written to a directory goes to at most that many files; a column queue has at most that many workers and delivers every column exactly once with its result.",
  ["inputs","schedules","histories"],"all limits, histories of derivations and edits, and multi-threaded operations",
  "No test reads a limit back or counts goroutines.",
  [R,D,U],[("SetMaxCPU,ActualMaxCPU,CreateColumnQueue",R),("EmptyDataFrame,Copy,ShallowCopy",D),("RowConcat","dataframe/concat.go:RowConcat"),("queue","utils/string_q.go:CreateStringQueue")])
p("C34","Whatever the documentation refuses is refused, and a refusal changes nothing",
  "A request announced as impossible - reading, renaming, sorting by, labelling or batching a column that is missing or of the wrong type; sizes, counts and ratios out of range; row-concatenating no frames or frames with different columns; column-concatenating no frames, frames sharing a column or frames of different sizes; converting ragged or contradictory columns to a frame; encoding impossible text; unknown categories under an error policy; a checked iterator reset on other column types; reading or writing files that cannot be; metrics of different sizes - panics or returns an error as announced. Afterwards every live frame shows exactly what it showed before, with the same columns, types and limits, and the object that refused (frame, builder, batcher, iterator, trained encoder) goes on working as if it had not been asked.",
  ["inputs","histories"],"all frames and views, all documented refusals, in any sequence",
  "Only five refusals appear in tests, and none looks at what the refused object does afterwards.",
  [V,R,D,CA,CC,DB,IT,OH,B],[("column checks",CA),("Rename",D+":Rename"),("header check",IT+":Reset"),("batcher preparation",DB+":prepare"),("consistency check",R+":ToDataFrame"),("transactional Encode",R+":Encode")])
p("C35","Arguments stay the caller's",
  "No call changes a list, slice, map or option handed to it - row numbers, masks, column names, values, lists of frames, raw data, writers and paths, CSV headers, exclusions and missing-value markers, features and weights, short names, vectors to be ranked read-only - nor the memory behind the end of such a slice. A view, copy, concatenation, builder column, overwritten column, frame read from CSV, transformation result or prediction made from such arguments keeps showing the same after their owner has overwritten them; only columns set (not added) through a builder share the caller's slice. Lists of columns handed out by the library (header lists, transformed columns, short names) are the caller's to reorder.",
  ["inputs","histories"],"all exported calls taking or returning slices or maps, on all frames and views, in any sequence",
  "Tests hand over literals and never look at them again; in-place sorting, filtering or appending within an argument goes unnoticed until the caller's slice has spare capacity or is used twice.",
  [V,R,I,B,CC,CP,CW,AP,LR,U],[("view makers",V),("Add*",B),("Overwrite*",I),("CSV options",CP),("exclusions",AP),("queue",SQ)],
  observe=["the arguments after the call","values read back through the exported accessors"])
p("C36","Trained transformations act row by row, and learning ignores order and storage",
  "Applying a trained imputer, scaler (or its inverse), one-hot encoder, hash encoder, automatic preprocessor or regressor, or a re-encoding, to any selection, split, single row, copy or rebuilt version of a frame gives exactly the selected rows of its application to the whole frame (predictions: by row identity, up to rounding), and columns it does not know are carried along without influence. A transformation is refused exactly if one of the rows would be refused alone, and its input is left as it was. Imputed values, shifts and scales learned from permuted, doubled or widened training rows are the same up to rounding.",
  ["inputs"],"all training and application frames, all option combinations, all selections",
  "Tests transform one frame once; whether a value depends on its neighbours, on the batch or on how the frame is stored is not looked at.",
  [FI,SC,OH,HE,AP,LR,I],[("TransformInplace",FI),("TransformInplace/InverseTransformInplace",SC),("TransformView",OH),("TransformView",AP),("Predict",LR),("Encode",I)])
p("C37","A view behaves exactly like its compact copy",
  "Whatever sequence of derivations, structural edits, writes, conversions, re-encodings, preprocessing, fits and readings (accessors, vectors, matrices, row iterators, CSV, printing, metrics, labels, headers, masks) is carried out on a view with distinct rows, the same sequence on a deep copy of that view shows the same rows, columns, types, texts, limits and numbers (fits up to rounding) after every step, and fails exactly where the other one fails. Exempt are the operations whose documented meaning is storage (index reset, sharing, raw data, order-free writing and prediction).",
  ["histories"],"every view of every frame and every history of operations",
  "Tests exercise most operations on compact frames only; an operation that forgets the row indirection, or applies it twice, is right on those.",
  [D,V,R,I,CA,CC,IT,DB,CW,PR,CV],[("row indirection","every reader and writer of df.indices")])
p("C38","Operations have no effect besides the documented one",
  "Whatever an operation is asked to do, and whether it succeeds, returns an error or panics, when it has returned: every file it opened is closed and no other file descriptor was touched, reading many files never holds more of them open than there are CPUs allowed to read them; no goroutine goes on; readers and writers handed over by the caller are left open; no file appears, changes or disappears but the output files that were named (or that the call reports); nothing was printed or logged unless it is a printing function, verbose or in debug mode; and the process settings (GOMAXPROCS, working directory, environment, umask, standard streams, logger) and the seed of the global random generator are as before.",
  ["inputs","faults","histories"],"every operation on every frame, every set of files and every fault while reading or writing",
  "Tests look at results, never at what an operation leaves behind; descriptors and goroutines leaked on error paths, stray files and output do not fail a test.",
  [CP,CW,SQ,AP,LR,PR],[("files closed on every path",CP+":FromCSVFile,readCSVFile; "+CW+":ToCSVFiles"),("workers end with the queue",SQ),("verbose output",AP)],
  observe=["/proc/self/fd, goroutine count, directory trees, standard streams and logger before and after each call"])
p("C39","Memory: views copy no data, buffers are recycled, and nothing dropped is held",
  "Row views, splits and samples allocate no more than row numbers and masks for the rows they show, column views, shallow copies and column concatenations of congruent frames no more than headers, whatever the number and size of the columns; copies, row and column copies and vectors hold about the rows they show and not the storage they came from; batchers and row iterators recycle their buffers from one batch or row to the next; accessors and metrics allocate nothing per row. Once nobody keeps a frame, its columns, strings and objects are released whatever operations ran on it: neither independent results (copies, concatenations, matrices, labels, headers, CSV text) nor trained objects nor the library itself keep them; columns dropped, replaced, converted, encoded or detached are released while the frame lives on; and repeated operations on ever new names and texts do not add up.",
  ["inputs","histories"],"every frame size, every chain of views and edits and every operation and training",
  "Tests look at values; a view that copies, a buffer that is no longer recycled, a cache that keeps texts forever or a trained object that keeps its training data passes all of them.",
  [D,V,R,CC,DB,IT,FI,SC,OH,AP,LR],[("IndexView doesn't do any copy","dataframe/view.go:IndexView"),("shallow views",D+":ShallowCopy; "+V+":View"),("compact copies",D+":Copy"),("recycled data",DB+":DenseMatrix; "+IT+":NextRow"),("columns gone",R+":Drop")],
  observe=["weak pointers on column storage, strings and objects","bytes allocated and held","live heap over rounds of operations"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P),"properties")
