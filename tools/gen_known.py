#!/usr/bin/env python3
"""Writes the "fixed:" lines of known_findings.txt from /repo's fix commits (run by hand)."""
import subprocess
M = {
 "slicing a frame without columns": ("C09", "dropping all the columns, SliceView(2,5) and AllocFloats(x): the vector of x had the elements of all the rows"),
 "the vector of a column must have": ("C09", "VecDense of a frame whose builder was given more values after ToDataFrame had more elements than the frame has rows"),
 "a group indexer initialized again": ("C32", "GroupIndexer.Initialize on an indexer that had been used left it at its end: no group was delivered"),
 "detaching some columns, one of them given twice": ("C06", "DetachedView(a, a) on a frame of two columns also detached the other"),
 "keep the rows of a view when writing CSV": ("C13", "writing a view without MaintainOrder wrote the storage's first row once per row of the view"),
 "report the write errors of a CSV that only": ("C14", "To1CSV of a zero-row frame into a failing writer returned nil"),
 "do not change the columns of the parent dataframe": ("C07", "Drop, AllocStrings or Rename on a view dropped columns or string marks of its parent"),
 "do not change the set of shared columns of the parent": ("C06", "a column view shared (and raced on) its parent's set of shared columns, so that detaching in one skipped copies in the other"),
 "do not add hashed columns to the input": ("C16", "hashing all columns of a frame added int columns to the frame itself"),
 "marking a column of a view as string": ("C07", "DataBuilder.MarkAsString on a view marked the column in the parent"),
 "process the column whose name is empty": ("C17", "any threaded operation on a frame with a column named \"\" deadlocked"),
 "BoolAsFloat reads bool literals": ("C12", "BoolAsFloat had no effect on 0/1 columns and made true/false columns strings; BinaryAsFloat made true/false columns strings"),
 "MergeRawDataRows keeps": ("C13", "string columns of a file pattern were read as plain object columns; encoding and MaxCPU were lost"),
 "report an error when the given header": ("C14", "FromCSV with a Header longer than the records panicked in a goroutine; with a shorter one it dropped cells silently"),
 "infer the column types of a file pattern": ("C13", "reading files whose columns look different one by one (or with zero rows, or in another column order) panicked or lost data; more CPUs than files deadlocked"),
 "zero or a negative maxCPU": ("C08", "EmptyDataFrame(n, -1) had no usable number of CPUs (threaded operations hung)"),
 "columns added to a dataframe without column": ("C08", "OverwriteX on EmptyDataFrame(n) or after dropping every column panicked"),
 "a column name never denotes several": ("C08", "Rename(x, x) deleted x; Rename, AllocX, OverwriteX or TransferRawDataFrom onto a name of another type left two columns"),
 "BoolToFloats replaces": ("C08", "BoolToFloats kept the bool column; IntToFloats/BoolToFloats of a column of another type created an empty float column"),
 "Dense64Batching allocates": ("C09", "DenseMatrix panicked when a larger batch followed a smaller one"),
 "ColumnConcatView compares": ("C10", "frames of different lengths or with colliding index hashes were merged; string marks of later frames were lost"),
 "RowConcat returns an error": ("C11", "columns that only later frames have were silently dropped"),
 "copies and row concatenations keep": ("C15", "Copy, ShallowCopy and RowConcat lost the declared text encoding"),
 "SplitNView always returns": ("C02", "SplitNView of a zero-row frame returned one frame; surplus parts had no columns"),
 "the empty dataframes returned by SplitNView": ("C07", "the surplus parts of SplitNView were one and the same frame"),
 "sort float columns": ("C03", "NaN values broke the order of the others; integers beyond 2^53 were compared as floats"),
 "TopView returns a view": ("C07", "TopView with n >= rows returned the frame itself, and accepted non-numerical columns"),
 "views larger than their parent": ("C18", "two IndexViews larger than their parent raced on the spare capacity of one mask"),
 "PrintRecords prints": ("C30", "column names and short names were used as format strings"),
 "Encode changes every string": ("C15", "a failing Encode did not restore the strings; rows shown twice were re-encoded twice"),
 "impute columns that only": ("C19", "an all-missing column was imputed with NaN"),
 "min-max scaling maps": ("C20", "MinMax multiplied by (max - min) instead of dividing"),
 "scalers of columns that only": ("C20", "an all-missing column had a NaN shift (which also made JSON serialisation fail, C24)"),
 "scale rows once": ("C20", "rows shown several times by a view were scaled several times"),
 "scaling a constant column": ("C20", "a constant column such as 0.1, 0.1, 0.1 was mapped onto -1 instead of 0, as its mean is rounded"),
 "use default values for the training": ("C25", "BatchSize 0 panicked; Epochs 0 and LR 0 did not train at all"),
 "GoodShortNames must not shorten": ("C30", "a column could be shortened to the name of another column, e.g. f12 to f1 beside f1"),
 "column-wise concatenation of no dataframes": ("C10", "ColumnConcatView() and ColumnCopyConcat() panicked"),
 "DenseMatrix must not deliver stale": ("C09", "a batcher reused on a frame whose column has another numerical type delivered values of the previous frame"),
 "RowConcat must not mark object": ("C11", "an object column became a string column because it is one in the first frame; its strings were then unreadable"),
 "building columns on a view must not": ("C07", "DataBuilder.SetX/AddX on the raw data of a view added columns to its parent; AddX overwrote the rows behind a slice of the parent"),
 "adding values to a column set from a slice": ("C28", "AddX after SetX(buf[:n]) overwrote buf[n]"),
 "ToDataFrame refuses a column name": ("C28", "AddFloats(x) and AddInts(x) made a frame with two columns named x; MarkAsString of a float column made a string column without data"),
 "a dataframe made from the raw data of a view": ("C31", "structural edits of view.ToDataFrame() changed the parent; Unshare on a frame of merged columns copied nothing"),
 "MakeRange panicked": ("C32", "MakeRange(0,10,3) panicked"),
 "GroupIndexer divided": ("C32", "CreateGroupIndexer(0,3) panicked"),
 "float assertions accepted NaN": ("C32", "AssertFloatEquals(1,NaN) passed; AssertFloatSliceEquals returned false without failing the test"),
 "linear regression leaves the user's": ("C22", "Predict overwrote a user's column \"_target\" in the input frame; Fit used it as the target"),
 "predict dataframes that have no rows": ("C26", "Predict on a zero-row frame panicked"),
 "quote empty cells alone": ("C13", "a one-column string frame with an empty or missing cell wrote a blank line, which CSV readers skip: the row was lost"),
 "AutoPreprocessor supports": ("C23", "nil dereference unless Imputing and Scaling were both set; Exclude ignored for string and int columns; refitting kept stale parts; whole frame detached or returned itself"),
}
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ",1)
    if not s.startswith("fix: "): continue
    k = [m for m in M if s[5:].startswith(m)]
    assert len(k)==1, s
    p, w = M[k[0]]
    out.append("fixed: property=%s %s %s" % (p,h,w))
path="/verif/known_findings.txt"
try: known=[l for l in open(path).read().splitlines() if l.startswith("known:")]
except FileNotFoundError: known=[]
open(path,"w").write("\n".join(known+out)+"\n")
