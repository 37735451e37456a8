From 38ad51fdf69ce4f4c33b7cc04eea8ef0f9b6f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 01/52] fix: keep the rows of a view when writing CSV without
 maintaining order

---
 dataframe/csv_writing.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index 0cbbb79..d665621 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -197,6 +197,7 @@ func (df *DataFrame) sortIfNeeded(options CSVWritingSpec) *DataFrame {
   if df.indexViewed && !options.MaintainOrder {
     result := df.View()
     result.indices = make([]int, len(df.indices))
+    copy(result.indices, df.indices)
     sort.Ints(result.indices)
     return result
   }
-- 
2.43.0


From 6050c2872051c9e8c3cf01719b62bdaca13822f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 02/52] fix: report the write errors of a CSV that only has a
 header

---
 dataframe/csv_writing.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index d665621..296fa72 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -39,7 +39,6 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
     writer.Comma = options.Comma
   }
   writer.UseCRLF = options.UseCRLF
-  defer writer.Flush()
   // this minimize the cache-misses
   df = df.sortIfNeeded(options)
 
@@ -105,7 +104,8 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
       return err
     }
   }
-  return nil
+  writer.Flush()  // not done yet if there is no row
+  return writer.Error()
 }
 
 func (df *DataFrame) threadedTo1CSV(w io.Writer, err []error, opt CSVWritingSpec, wg *sync.WaitGroup) {
-- 
2.43.0


From c9932f78c1ab4a757b52574e1e229534b1b64ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 03/52] fix: do not change the columns of the parent dataframe
 when editing those of a view

---
 dataframe/raw_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index a77c159..e89ca56 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -229,6 +229,9 @@ func (data *RawData) Drop(columns ...string) {
   if len(columns) == 0 {
     return
   }
+  if data.sharedMaps {
+    data.reallocateMaps()
+  }
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
@@ -482,6 +485,7 @@ func (data *RawData) reallocateMaps() {
   data.floats = tmp.floats
   data.objects = tmp.objects
   data.shared = tmp.shared  // all columns
+  data.stringHeader = tmp.stringHeader
   data.sharedMaps = false
 }
 
-- 
2.43.0


From 2a78a2fd4660a1d86bc8f21e7113b5882f4d7d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 04/52] fix: do not change the set of shared columns of the
 parent of a column view

---
 dataframe/view.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/view.go b/dataframe/view.go
index d9c57fb..505551f 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -94,6 +94,7 @@ func (df *DataFrame) ColumnView(columns ...string) *DataFrame {
   result := df.View()
   result.allocateEmptyMaps()
   result.dataUID = df.dataUID
+  result.shared = ColumnHeader{} // don't alter df's set of shared columns
 
   // set of column to select
   colSet := utils.ToStringSet(columns)
-- 
2.43.0


From 30a6c1a4b07b398f8d7197105e36bebfb60241f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 05/52] fix: do not add hashed columns to the input dataframe
 when every column is hashed

---
 dataframe/view.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 505551f..068b9f2 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -364,8 +364,8 @@ func (df *DataFrame) HashStringsView(columns ...string) *DataFrame {
     return df.View()
   }
   // allocate the new columns and exclude the string columns
-  otherColumns := df.Header().Except(columns...).NameList()
-  result := df.ColumnView(otherColumns...)
+  result := df.View()
+  result.Drop(columns...)
   nRows := df.NumAllocatedRows()
   for _, colName := range columns {
     result.ints[colName] = make([]int, nRows)
-- 
2.43.0


From 63481f08cd0db5f1f99c67475eebd1d662ca52c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 06/52] fix: marking a column of a view as string does not mark
 it in the parent dataframe

---
 dataframe/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/builder.go b/dataframe/builder.go
index 5a4306a..1fec825 100644
--- a/dataframe/builder.go
+++ b/dataframe/builder.go
@@ -40,6 +40,9 @@ func (builder DataBuilder) AddObjects(col string, values ...interface{}) DataBui
 // MarkAsString tags a given object column as a string-only column.
 // This gives access to functionalities that generic object columns don't have.
 func (builder DataBuilder) MarkAsString(col string) DataBuilder {
+  if builder.RawData.sharedMaps {
+    builder.RawData.reallocateMaps()
+  }
   builder.RawData.stringHeader.add(col)
   return builder
 }
-- 
2.43.0


From 834b70719ca5f956ef8589c9e9837a559e408b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 07/52] fix: process the column whose name is empty instead of
 ending the workers

---
 dataframe/csv_parsing.go       | 4 ++--
 dataframe/view.go              | 2 +-
 preprocessing/float_imputer.go | 2 +-
 preprocessing/one_hot.go       | 4 ++--
 preprocessing/scaler.go        | 4 ++--
 utils/string_q.go              | 9 ++++-----
 6 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index d584fbe..c0c4de6 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -132,7 +132,7 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
                    missingVals map[string]bool, spec CSVReadingSpec,
                    q utils.StringQ) {
   missing := make([]bool, len(records))
-  for colName := q.Next(); len(colName) > 0; colName = q.Next() {
+  for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
     if !spec.BinaryAsFloat && isBinary(records, col) {
       data.bools[colName] = toBool(records, col)
@@ -309,7 +309,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-  for path := q.Next(); len(path) > 0; path = q.Next() {
+  for path, more := q.Next(); more; path, more = q.Next() {
     data, err := FromCSVFile(path, *options)
     q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
   }
diff --git a/dataframe/view.go b/dataframe/view.go
index 068b9f2..50766b3 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -331,7 +331,7 @@ const maxInt = uint64(^uint(0) >> 1)
 
 func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
   hash := fnv.New64a()  // TODO: benchmark this algorithm
-  for col := columnQ.Next(); len(col) > 0; col = columnQ.Next() {
+  for col, more := columnQ.Next(); more; col, more = columnQ.Next() {
     defer columnQ.Notify(utils.ProcessedJob{Key: col})
     inputCol := inputDF.objects[col]
     outputCol := outputDF.ints[col]
diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 3c9fb2e..978ce68 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -49,7 +49,7 @@ func (imputer *FloatImputer) TransformedColumns() []string {
 }
 
 func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     sum := 0.0
     n := 0
diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 96a25a0..37d54ae 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -54,7 +54,7 @@ func NewOneHotEncoder(options OneHotOptions) *OneHotEncoder {
 
 func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
   opt := encoder.Options
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     // compute the frequency of each category
     access := df.Ints(col)
@@ -164,7 +164,7 @@ func (encoder *OneHotEncoder) workerTransforms(df *dataframe.DataFrame, q utils.
   var unkColumn dataframe.BoolAccess
   opt := encoder.Options
 
-  for catCol := q.Next(); len(catCol) > 0; catCol = q.Next() {
+  for catCol, more := q.Next(); more; catCol, more = q.Next() {
     notif := utils.ProcessedJob{Key: catCol}
     access := df.Ints(catCol)
     categoryToNewCol := encoder.Categories[catCol]
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index f8890d6..ffacb23 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -37,7 +37,7 @@ type fittingResult struct {
 }
 
 func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     result := fittingResult{}
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &result})
@@ -114,7 +114,7 @@ func (scaler *Scaler) Fit(df *dataframe.DataFrame) error {
   return nil
 }
 func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     var ok bool
     var scale float64
diff --git a/utils/string_q.go b/utils/string_q.go
index 382b70c..41b899e 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -58,12 +58,11 @@ func (q StringQ) Wait() {
   }
 }
 
-func (q StringQ) Next() string {
+// Next returns the next key to process. The second value is false if there is
+// no more key (the empty string is a valid key).
+func (q StringQ) Next() (string, bool) {
   col, more := <-q.Keys
-  if more {
-    return col
-  }
-  return ""
+  return col, more
 }
 
 func (q StringQ) Notify(err ProcessedJob) {
-- 
2.43.0


From 757c25e16d16febb114189557fc336c450923cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 08/52] fix: BoolAsFloat reads bool literals as floats and
 BinaryAsFloat leaves the others alone

---
 dataframe/csv_parsing.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index c0c4de6..563523e 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -78,6 +78,16 @@ func toBool(records [][]string, col int) []bool {
   return values
 }
 
+func boolToFloat(values []bool) []float64 {
+  result := make([]float64, len(values))
+  for i, v := range values {
+    if v {
+      result[i] = 1.0
+    }
+  }
+  return result
+}
+
 func isInt(records [][]string, col int, missing []bool) bool {
   for row := 0; row < len(records); row++ {
     if !missing[row] {
@@ -134,10 +144,12 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
   missing := make([]bool, len(records))
   for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
-    if !spec.BinaryAsFloat && isBinary(records, col) {
-      data.bools[colName] = toBool(records, col)
-    } else if !spec.BoolAsFloat && !spec.BinaryAsFloat && isBool(records, col) {
-      data.bools[colName] = toBool(records, col)
+    if isBool(records, col) {
+      if spec.BoolAsFloat || (spec.BinaryAsFloat && isBinary(records, col)) {
+        data.floats[colName] = boolToFloat(toBool(records, col))
+      } else {
+        data.bools[colName] = toBool(records, col)
+      }
     } else {
       if len(missingVals) > 0 {
         for i := range missing {
-- 
2.43.0


From 6b9006f1efa8f2b3b5b27dbc9c07ad064fcb9d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 09/52] fix: MergeRawDataRows keeps the string columns, the
 text encoding and the number of CPUs

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index e89ca56..4935322 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -395,7 +395,10 @@ func MergeRawDataRows(list []*RawData) *RawData {
   size := 0
   for _, data := range list {
     size += data.NumAllocatedRows()
+    result.stringHeader = result.stringHeader.And(data.stringHeader)
   }
+  result.textEncoding = list[0].textEncoding
+  result.maxCPU = list[0].maxCPU
   for col := range list[0].floats {
     result.floats[col] = make([]float64, 0, size)
   }
-- 
2.43.0


From fa6d99dd6bd9b52b1665286a74fba639fe5cd132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 10/52] fix: report an error when the given header does not fit
 the CSV records

---
 dataframe/csv_parsing.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 563523e..928ce0b 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -215,6 +215,7 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
     header = record
   } else {
     header = options.Header
+    reader.FieldsPerRecord = len(header)
   }
   // read all the data
   records, err := reader.ReadAll()
-- 
2.43.0


From 401c39c130151d447d8b6e87fe76e3a2ee9da23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 11/52] fix: infer the column types of a file pattern from all
 the files together

---
 dataframe/csv_parsing.go | 95 ++++++++++++++++++++++++++++++++--------
 1 file changed, 76 insertions(+), 19 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 928ce0b..0ee65b3 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -1,6 +1,7 @@
 package dataframe
 
 import (
+  "fmt"
   "runtime"
   "encoding/csv"
   "math"
@@ -189,6 +190,14 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
 // a float column. Float missing values are replaced with NaN.
 // - If none of the above match, the column is stored as a string column.
 func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
+  header, records, err := readCSVRecords(r, options)
+  if err != nil {
+    return nil, err
+  }
+  return parseCSVRecords(header, records, options)
+}
+
+func readCSVRecords(r io.Reader, options CSVReadingSpec) ([]string, [][]string, error) {
   reader := csv.NewReader(r)
   reader.LazyQuotes = options.LazyQuotes
   reader.TrimLeadingSpace = options.TrimLeadingSpace
@@ -198,8 +207,6 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   if options.Comment != 0 {
     reader.Comment = options.Comment
   }
-  // missing values
-  missingVals := utils.ToStringSet(options.MissingValues)
 
   // TODO: accept unicode BOM here,
   // and use it to auto-detect the encoding
@@ -210,7 +217,7 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
     // header is in the file
     record, err := reader.Read()
     if err != nil {
-      return nil, err
+      return nil, nil, err
     }
     header = record
   } else {
@@ -220,8 +227,15 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   // read all the data
   records, err := reader.ReadAll()
   if err != nil {
-    return nil, err
+    return nil, nil, err
   }
+  return header, records, nil
+}
+
+func parseCSVRecords(header []string, records [][]string, options CSVReadingSpec) (*RawData, error) {
+  // missing values
+  missingVals := utils.ToStringSet(options.MissingValues)
+
   // column queue for the worker pool
   colsToParse := Columns(header...).Except(options.Exclude...)
   tmp := RawData{} // only to get a col q
@@ -237,7 +251,7 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   }
   for _, r := range q.Results() {
     if r.Error != nil {
-      return nil, err
+      return nil, r.Error
     }
   }
   // putting everything together
@@ -268,7 +282,8 @@ func FromCSVFile(path string, options CSVReadingSpec) (*RawData, error) {
 // pattern, reads them and returns a single RawData structure containing all the
 // data packed in an unordered fashion.
 // It returns any error returned by golang's builtin CSV reader.
-// It also returns an error if any of the matching file can't be opened.
+// It also returns an error if any of the matching file can't be opened, or if
+// the files don't have the same columns.
 // If no file can be found, it returns (nil, nil).
 // For the type inference, refer to FromCSV's documentation.
 func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
@@ -300,30 +315,72 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
   if cpu <= 0 {
     cpu = runtime.NumCPU()
   }
-  cpuPerFile := cpu / len(paths)
-  if cpuPerFile == 0 {
-    cpuPerFile = 1
-  }
-  options.MaxCPU = cpuPerFile
-  maxWorkers := len(paths) / cpuPerFile
-  fileQ := utils.CreateStringQueue(paths, maxWorkers)
+  fileQ := utils.CreateStringQueue(paths, cpu)
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
   }
-  data := make([]*RawData, len(paths))
+  // concatenate everything, so that the types are inferred from all the files
+  var header []string
+  var records [][]string
   for i, result := range fileQ.Results() {
     if result.Error != nil {
       return nil, result.Error
     }
-    data[i] = result.Result.(*RawData)
+    content := result.Result.(csvContent)
+    if i == 0 {
+      header = content.header
+    } else if err := content.reorder(header); err != nil {
+      return nil, err
+    }
+    records = append(records, content.records...)
   }
-  // concatenate everything
-  return MergeRawDataRows(data), nil
+  return parseCSVRecords(header, records, options)
+}
+
+type csvContent struct {
+  header  []string
+  records [][]string
+}
+
+// reorder moves the cells so that they follow the order of the given header.
+func (content csvContent) reorder(header []string) error {
+  if len(header) != len(content.header) {
+    return fmt.Errorf("CSV files with %d and %d columns", len(header), len(content.header))
+  }
+  from := make([]int, len(header))
+  ordered := true
+  for i, colName := range header {
+    from[i] = utils.IndexOfString(colName, content.header)
+    if from[i] == -1 {
+      return fmt.Errorf("column %s is missing from one of the CSV files", colName)
+    }
+    ordered = ordered && from[i] == i
+  }
+  if !ordered {
+    for k, record := range content.records {
+      cells := make([]string, len(record))
+      for i, j := range from {
+        cells[i] = record[j]
+      }
+      content.records[k] = cells
+    }
+  }
+  return nil
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
   for path, more := q.Next(); more; path, more = q.Next() {
-    data, err := FromCSVFile(path, *options)
-    q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
+    content, err := readCSVFile(path, options)
+    q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: content})
+  }
+}
+
+func readCSVFile(path string, options *CSVReadingSpec) (csvContent, error) {
+  f, err := os.Open(path)
+  if err != nil {
+    return csvContent{}, err
   }
+  defer f.Close()
+  header, records, err := readCSVRecords(f, *options)
+  return csvContent{header: header, records: records}, err
 }
-- 
2.43.0


From dc49014557c9a2d9db8723b628d42f23fbc86fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 12/52] fix: zero or a negative maxCPU given to EmptyDataFrame
 means all the CPUs

---
 dataframe/dataframe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 434f9b2..585c124 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -26,7 +26,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   result.floats = make(map[string][]float64)
   result.bools = make(map[string][]bool)
   result.ints = make(map[string][]int)
-  result.maxCPU = maxCPU
+  result.SetMaxCPU(maxCPU)
   result.dataUID = generateDataUID()
   result.resetStructureUID()
   // stringHeader is not pre-allocated
-- 
2.43.0


From 03f8f7339a0613ee9c52a0f58968ca8c2ac6fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 13/52] fix: columns added to a dataframe without column have
 as many rows as the dataframe

---
 dataframe/dataframe.go | 2 ++
 dataframe/raw_data.go  | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 585c124..e91f919 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -32,6 +32,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   // stringHeader is not pre-allocated
 
   if nRows > 0 {
+    result.nRowsNoColumn = nRows
     result.mask = make([]bool, nRows)
     result.indices = utils.MakeRange(0, nRows, 1)
   }
@@ -113,6 +114,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.indices = df.indices
   result.mask = df.mask
   result.indexViewed = df.indexViewed
+  result.nRowsNoColumn = df.NumAllocatedRows()
   result.TransferRawDataFrom(&df.RawData)
   result.debugPrint("ShallowCopy() returns")
 
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 4935322..81b3bc9 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -35,6 +35,8 @@ type RawData struct {
   dataUID uint64
   // whether an object is a string or not
   stringHeader ColumnHeader
+  // number of rows to allocate if there is no column yet
+  nRowsNoColumn int
   // later we'll switch to:
   // special types of []interface{}. strings: 1
   // objectColTypes map[string]ObjectType
@@ -98,7 +100,7 @@ func (data *RawData) NumAllocatedRows() int {
   for _, vals := range data.bools {
     return len(vals)
   }
-  return 0
+  return data.nRowsNoColumn
 }
 
 // ToDataFrame upgrades the RawData structure to a DataFrame.
@@ -141,6 +143,7 @@ func (data *RawData) ToDataFrame() *DataFrame {
   result.indices = utils.MakeRange(0, nRows, 1)
   result.dataUID = data.dataUID
   result.textEncoding = data.textEncoding
+  result.nRowsNoColumn = nRows
   result.resetStructureUID()
 
   return result
@@ -232,6 +235,7 @@ func (data *RawData) Drop(columns ...string) {
   if data.sharedMaps {
     data.reallocateMaps()
   }
+  data.nRowsNoColumn = data.NumAllocatedRows()
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
-- 
2.43.0


From db2a5e3e738bb0bcd52d919796962bd679cee613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 14/52] fix: a column name never denotes several columns, and
 renaming a column to its name keeps it

---
 dataframe/inplace.go  | 24 ++++++++++++------------
 dataframe/raw_data.go | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 334bb1d..38df26a 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -87,8 +87,8 @@ func (df *DataFrame) Encode(newEncoding encoding.Encoding) error {
 //  }
 func (df *DataFrame) OverwriteInts(colName string, values []int) {
   df.debugPrint("overwriting ints on")
-  col := df.ints[colName]
-  if len(col) == 0 {
+  col, exists := df.ints[colName]
+  if !exists {
     df.AllocInts(colName)
     col = df.ints[colName]
   }
@@ -107,8 +107,8 @@ func (df *DataFrame) OverwriteInts(colName string, values []int) {
 //  }
 func (df *DataFrame) OverwriteFloats64(colName string, values []float64) {
   df.debugPrint("overwriting floats64 on")
-  col := df.floats[colName]
-  if len(col) == 0 {
+  col, exists := df.floats[colName]
+  if !exists {
     df.AllocFloats(colName)
     col = df.floats[colName]
   }
@@ -127,8 +127,8 @@ func (df *DataFrame) OverwriteFloats64(colName string, values []float64) {
 //  }
 func (df *DataFrame) OverwriteFloats32(colName string, values []float32) {
   df.debugPrint("overwriting floats32 on")
-  col := df.floats[colName]
-  if len(col) == 0 {
+  col, exists := df.floats[colName]
+  if !exists {
     df.AllocFloats(colName)
     col = df.floats[colName]
   }
@@ -147,8 +147,8 @@ func (df *DataFrame) OverwriteFloats32(colName string, values []float32) {
 //  }
 func (df *DataFrame) OverwriteBools(colName string, values []bool) {
   df.debugPrint("overwriting bools on")
-  col := df.bools[colName]
-  if len(col) == 0 {
+  col, exists := df.bools[colName]
+  if !exists {
     df.AllocBools(colName)
     col = df.bools[colName]
   }
@@ -171,8 +171,8 @@ func (df *DataFrame) OverwriteBools(colName string, values []bool) {
 func (df *DataFrame) OverwriteObjects(colName string, values []interface{},
                                       objectType ObjectType) {
   df.debugPrint("overwriting objects on")
-  col := df.objects[colName]
-  if len(col) == 0 {
+  col, exists := df.objects[colName]
+  if !exists {
     if objectType == 1 {
       df.AllocStrings(colName)
     } else {
@@ -198,8 +198,8 @@ func (df *DataFrame) OverwriteObjects(colName string, values []interface{},
 // instead.
 func (df *DataFrame) OverwriteStrings(colName string, values []string) {
   df.debugPrint("overwriting strings on")
-  col := df.objects[colName]
-  if len(col) == 0 {
+  col, exists := df.objects[colName]
+  if !exists {
     df.AllocStrings(colName)
     col = df.objects[colName]
   }
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 81b3bc9..d5f38f4 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -255,6 +255,12 @@ func (data *RawData) Rename(oldName string, newName string) {
   if data.sharedMaps {
     data.reallocateMaps()
   }
+  if oldName == newName && data.hasColumn(oldName) {
+    return
+  }
+  if data.hasColumn(oldName) {
+    data.Drop(newName) // a column name is only used once
+  }
   if vals, ok := data.floats[oldName]; ok {
     data.floats[newName] = vals
     delete(data.floats, oldName)
@@ -286,6 +292,7 @@ func (data *RawData) AllocInts(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...) // a column name is only used once
   for _, col := range columns {
     data.ints[col] = make([]int, nRows)
   }
@@ -297,6 +304,7 @@ func (data *RawData) AllocFloats(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...) // a column name is only used once
   for _, col := range columns {
     data.floats[col] = make([]float64, nRows)
   }
@@ -308,6 +316,7 @@ func (data *RawData) AllocBools(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...) // a column name is only used once
   for _, col := range columns {
     data.bools[col] = make([]bool, nRows)
   }
@@ -319,6 +328,7 @@ func (data *RawData) AllocObjects(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...) // a column name is only used once
   for _, col := range columns {
     data.objects[col] = make([]interface{}, nRows)
   }
@@ -335,6 +345,14 @@ func (data *RawData) AllocStrings(columns ...string) {
   }
 }
 
+func (data *RawData) hasColumn(col string) bool {
+  _, isFloat := data.floats[col]
+  _, isObject := data.objects[col]
+  _, isInt := data.ints[col]
+  _, isBool := data.bools[col]
+  return isFloat || isObject || isInt || isBool
+}
+
 // TransferRawDataFrom adds the data from another RawData structure.
 // The two structures will share data, so changing one will change the other.
 // Reminder: RawData's functions are ignorant of dataframe indices, so don't
@@ -349,6 +367,26 @@ func (data *RawData) TransferRawDataFrom(from *RawData) {
   } else {
     data.dataUID |= from.dataUID
   }
+  if data.NumColumns() > 0 {
+    // a column name is only used once
+    for col := range from.Header().NameSet() {
+      if !from.stringHeader.contains(col) {
+        data.stringHeader.remove(col)
+      }
+      if _, ok := from.floats[col]; !ok {
+        delete(data.floats, col)
+      }
+      if _, ok := from.ints[col]; !ok {
+        delete(data.ints, col)
+      }
+      if _, ok := from.bools[col]; !ok {
+        delete(data.bools, col)
+      }
+      if _, ok := from.objects[col]; !ok {
+        delete(data.objects, col)
+      }
+    }
+  }
   for col, vals := range from.bools {
     data.bools[col] = vals
     data.shared.add(col)
-- 
2.43.0


From b8636ca3f8771bbab03ee0b5ece9fbdc2d8c716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 15/52] fix: BoolToFloats replaces the boolean columns, and
 conversions leave columns of other types alone

---
 dataframe/raw_data.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index d5f38f4..52e27cd 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -481,7 +481,10 @@ func (data *RawData) IntToFloats(columns...string) {
     data.reallocateMaps()
   }
   for _, col := range columns {
-    olddata := data.ints[col]
+    olddata, exists := data.ints[col]
+    if !exists {
+      continue
+    }
     newdata := make([]float64, len(olddata))
     for i, v := range olddata {
       newdata[i] = float64(v)
@@ -500,14 +503,17 @@ func (data *RawData) BoolToFloats(columns...string) {
     data.reallocateMaps()
   }
   for _, col := range columns {
-    olddata := data.bools[col]
+    olddata, exists := data.bools[col]
+    if !exists {
+      continue
+    }
     newdata := make([]float64, len(olddata))
     for i, v := range olddata {
       if v {
         newdata[i] = 1.0
       }
     }
-    delete(data.ints, col)
+    delete(data.bools, col)
     data.floats[col] = newdata
   }
 }
-- 
2.43.0


From 88ad8e89eee410d178f8a5b196e4efd8525d0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 16/52] fix: Dense64Batching allocates enough data when a
 larger batch follows a smaller one

---
 dataframe/dense_gonum_batching.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dense_gonum_batching.go b/dataframe/dense_gonum_batching.go
index 4146ba8..4a40098 100644
--- a/dataframe/dense_gonum_batching.go
+++ b/dataframe/dense_gonum_batching.go
@@ -35,7 +35,7 @@ func (bat *Dense64Batching) DenseMatrix(df *DataFrame) mat.Matrix {
   // allocate more data if necessary
   dim := len(bat.columns)
   nRows := df.NumRows()
-  missing := dim * (nRows - len(bat.data))
+  missing := dim * nRows - len(bat.data)
   if missing > 0 {
     bat.data = append(bat.data, make([]float64, missing)...)
   }
-- 
2.43.0


From 1f7f83263246e3ea60bc109dc2b6fb32fc00bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 17/52] fix: ColumnConcatView compares the rows of the
 dataframes exactly and keeps all the string columns

---
 dataframe/concat.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f81064c..c83b964 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -2,7 +2,6 @@ package dataframe
 
 import (
    "fmt"
-   "github.com/rom1mouret/ml-essentials/utils"
 )
 
 // RowConcat concatenates the rows of the given dataframes.
@@ -119,16 +118,22 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       break
     }
   }
-  if views {
-    ref := utils.HashIntSlice(dfs[0].indices)
-    for _, df := range dfs[1:] {
-      if utils.HashIntSlice(df.indices) != ref {
-        return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+  ref := dfs[0].indices
+  for _, df := range dfs[1:] {
+    if len(df.indices) != len(ref) {
+      return nil, fmt.Errorf("cannot col-wise concatenate df(rows=%d) with df(rows=%d)", len(ref), len(df.indices))
+    }
+    if views {
+      for j, index := range df.indices {
+        if index != ref[j] {
+          return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+        }
       }
     }
   }
   // merge in a shallow way
   result := dfs[0].ShallowCopy()
+  result.indexViewed = views
   for _, df := range dfs[1:] {
     for col, values := range df.floats {
       result.floats[col] = values
@@ -146,7 +151,7 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       result.bools[col] = values
       result.shared.add(col)
     }
-    result.stringHeader.And(df.stringHeader)
+    result.stringHeader = result.stringHeader.And(df.stringHeader)
   }
   return result, nil
 }
-- 
2.43.0


From 06a860f6acc4ddb8726665f391da5933cb9784a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 18/52] fix: RowConcat returns an error if only the later
 dataframes have a column

---
 dataframe/concat.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index c83b964..467cd44 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -35,6 +35,10 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   // merge
   offset := 0
   for k, df := range dfs {
+    if df.NumColumns() != result.NumColumns() {
+      return nil, fmt.Errorf("%dth dataframe has %d columns. Expected: %d",
+                             k, df.NumColumns(), result.NumColumns())
+    }
     result.stringHeader = result.stringHeader.And(df.stringHeader)
     // TODO: optimize this when !df.indexViewed
     for col, vals := range result.floats {
-- 
2.43.0


From 08498269ed7e21cb1f35ec1897127b200f13a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 19/52] fix: copies and row concatenations keep the text
 encoding

---
 dataframe/concat.go    | 1 +
 dataframe/dataframe.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 467cd44..a680d5d 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -20,6 +20,7 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // allocation
   result := EmptyDataFrame(nRows, dfs[0].maxCPU)
+  result.textEncoding = dfs[0].textEncoding
   for col := range dfs[0].floats {
     result.floats[col] = make([]float64, nRows)
   }
diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index e91f919..679fa01 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -115,6 +115,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.mask = df.mask
   result.indexViewed = df.indexViewed
   result.nRowsNoColumn = df.NumAllocatedRows()
+  result.textEncoding = df.textEncoding
   result.TransferRawDataFrom(&df.RawData)
   result.debugPrint("ShallowCopy() returns")
 
@@ -131,6 +132,7 @@ func (df *DataFrame) Copy() *DataFrame {
   result.mThreadSafe = df.mThreadSafe
   result.debug = df.debug
   result.stringHeader = df.stringHeader.Copy()
+  result.textEncoding = df.textEncoding
 
   if df.indexViewed {
     for col, v := range df.objects {
-- 
2.43.0


From fcb66accaefe482d1a44c3707940155d68092cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 20/52] fix: SplitNView always returns n dataframes, which all
 have the columns of the dataframe

---
 dataframe/view.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 50766b3..d13f3eb 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -171,7 +171,7 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if n == 0 {
     return nil
   }
-  if n == 1 || df.NumRows() == 0 {
+  if n == 1 {
     return []*DataFrame{df.View()}
   }
   // batchSize for the first n-1 batches
@@ -180,11 +180,14 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if nRows % n != 0 {
     batchSize++
   }
+  if batchSize == 0 {
+    batchSize = 1  // no row
+  }
   result := df.SplitView(batchSize)
   missing := n - len(result)
   if missing > 0 {  // expected to happen when batchSize = 1
     // fill up the rest with empty DataFrames
-    emptyDF := EmptyDataFrame(0, df.maxCPU)
+    emptyDF := df.SliceView(nRows, nRows)
     emptyDFs := make([]*DataFrame, missing)
     for i := 0; i < missing; i++ {
       emptyDFs[i] = emptyDF
-- 
2.43.0


From a0f73b00e60cd0ce5fb7a34fae897eba0525a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 21/52] fix: sort float columns with missing values and large
 integers correctly

---
 dataframe/view.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index d13f3eb..0ffe20c 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -2,6 +2,7 @@ package dataframe
 
 import (
   "fmt"
+  "math"
   "sort"
   "math/rand"
   "hash/fnv"
@@ -250,6 +251,7 @@ func (df *DataFrame) SplitTrainTestViews(testingRatio float64) (*DataFrame, *Dat
 // The column can either be a float, an int or a bool column.
 // It will panic if the given column is neither of those.
 // Missing values in integer columns will be treated as '-1'.
+// Missing values in float columns come last.
 // If called on a bool column, it will put false values first.
 // To sort in descending order, call SortedView(byColumn).ReverseView().
 func (df *DataFrame) SortedView(byColumn string) *DataFrame {
@@ -266,19 +268,19 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
     }
     indices = append(first, last...)
   } else {
-    cpy := make([]float64, len(df.indices))
+    indices = utils.MakeRange(0, len(df.indices), 1)
     if vals, ok := df.floats[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = vals[i]
-      }
+      sort.Slice(indices, func(a, b int) bool {
+        va, vb := vals[df.indices[indices[a]]], vals[df.indices[indices[b]]]
+        return va < vb || (math.IsNaN(vb) && !math.IsNaN(va))
+      })
     } else if vals, ok := df.ints[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = float64(vals[i])
-      }
+      sort.Slice(indices, func(a, b int) bool {
+        return vals[df.indices[indices[a]]] < vals[df.indices[indices[b]]]
+      })
     } else {
       panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
     }
-    indices = utils.FloatArgSort(cpy, false) // readonly=false: ok to change cpy
   }
   return df.IndexView(indices)
 }
-- 
2.43.0


From 5d9c8a29058c7df87dca204520d3c905f12883f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 22/52] fix: TopView returns a view and checks its column even
 if all the rows are returned

---
 dataframe/view.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 0ffe20c..596b23d 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -298,11 +298,7 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
 // If called on a bool column, false will be treated as lower than true.
 func (df *DataFrame) TopView(byColumn string, n int, ascending bool, sorted bool) *DataFrame {
   if n >= len(df.indices) {
-    if !sorted {
-      return df
-    } else {
-      n = len(df.indices)
-    }
+    n = len(df.indices)
   } else if n < 0 {
     panic("n must be positive")
   }
-- 
2.43.0


From ca03a2ae9f35ac871bd822a5df18befe95ae19d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 23/52] fix: views larger than their parent never share the end
 of their masks

---
 dataframe/view.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 596b23d..06c672e 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -32,7 +32,7 @@ func (df *DataFrame) IndexView(indices []int) *DataFrame {
     // we extend the mask slice because it's smaller than NumRows
     // (a rare case)
     diff := len(indices) - len(df.indices)
-    result.mask = append(result.mask, make([]bool, diff)...)
+    result.mask = append(result.mask[:len(result.mask):len(result.mask)], make([]bool, diff)...)
   }
   result.indexViewed = true
 
-- 
2.43.0


From 438e1f12bf3b5fd5f1908470327eb856609db98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 24/52] fix: PrintRecords prints column names verbatim

---
 dataframe/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/print.go b/dataframe/print.go
index e14dd9e..77f80b8 100644
--- a/dataframe/print.go
+++ b/dataframe/print.go
@@ -150,9 +150,9 @@ func (df *DataFrame) PrintRecords(n int, floatFormat string, shorthands map[stri
       // print the column name
       fmt.Printf(" ")
       if shorthand, defined := shorthands[colName]; defined {
-        fmt.Printf(shorthand)
+        fmt.Print(shorthand)
       } else {
-        fmt.Printf(colName)
+        fmt.Print(colName)
       }
       fmt.Printf(":")
       // print the value
-- 
2.43.0


From cdffd6c56a938e50ba79f02f4bfad60860cf785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 25/52] fix: the empty dataframes returned by SplitNView are
 independent views

---
 dataframe/view.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 06c672e..38a4b0d 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -188,10 +188,9 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   missing := n - len(result)
   if missing > 0 {  // expected to happen when batchSize = 1
     // fill up the rest with empty DataFrames
-    emptyDF := df.SliceView(nRows, nRows)
     emptyDFs := make([]*DataFrame, missing)
     for i := 0; i < missing; i++ {
-      emptyDFs[i] = emptyDF
+      emptyDFs[i] = df.SliceView(nRows, nRows)
     }
     result = append(result, emptyDFs...)
   }
-- 
2.43.0


From 9a7a1f577ac5e3db41eb163e3645ae2de0caa585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 26/52] fix: Encode changes every string once, and none if one
 of them cannot be encoded

---
 dataframe/inplace.go | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 38df26a..533f4fb 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -4,8 +4,10 @@ import (
   "golang.org/x/text/encoding"
 )
 
-func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
-                     encoder *encoding.Encoder) (error, int) {
+// reencode returns the new encoding of the values at the given indices.
+func reencode(values []interface{}, indices []int, decoder *encoding.Decoder,
+              encoder *encoding.Encoder) ([]interface{}, error) {
+  result := make([]interface{}, len(indices))
   for j, i := range indices {  // others are left to nil
     if values[i] != nil {
       var err error
@@ -14,21 +16,21 @@ func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Deco
       if decoder != nil {
         v, err = decoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 2. convert from UTF-8 to new encoding
       if encoder != nil {
         v, err = encoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 3. set the new value
-      values[i] = v
+      result[j] = v
     }
   }
-  return nil, -1
+  return result, nil
 }
 
 // Encode changes the encoding of all all the string columns.
@@ -50,26 +52,18 @@ func (df *DataFrame) Encode(newEncoding encoding.Encoding) error {
     encoder = newEncoding.NewEncoder()
   }
   colNames := df.stringHeader.NameList()
+  reencoded := make([][]interface{}, len(colNames))
   for i, col := range colNames {
-    values := df.objects[col]
-    err, where := inplaceEncoding(values, df.indices, decoder, encoder)
+    values, err := reencode(df.objects[col], df.indices, decoder, encoder)
     if err != nil {
-      // we need to revert our changes
-      if newEncoding == nil {
-        decoder = nil
-      } else {
-        decoder = newEncoding.NewDecoder()
-      }
-      if df.textEncoding == nil {
-        encoder = nil
-      } else {
-        encoder = df.textEncoding.NewEncoder()
-      }
-      inplaceEncoding(values, df.indices[:where], decoder, encoder)
-      for _, previous := range colNames[:i] {
-          inplaceEncoding(df.objects[previous], df.indices, decoder, encoder)
-      }
-      return err
+      return err  // nothing is changed yet
+    }
+    reencoded[i] = values
+  }
+  for k, col := range colNames {
+    values := df.objects[col]
+    for j, i := range df.indices {
+      values[i] = reencoded[k][j]
     }
   }
   df.textEncoding = newEncoding
-- 
2.43.0


From 8ee2590dadb693d213eab41150b745488ba6b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 27/52] fix: impute columns that only have missing values with
 zeros

---
 preprocessing/float_imputer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 978ce68..87ccd31 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -60,7 +60,10 @@ func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ
         n++
       }
     }
-    fallback := sum / float64(n)
+    fallback := 0.0 // if there are only missing values
+    if n > 0 {
+      fallback = sum / float64(n)
+    }
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &fallback})
   }
 }
-- 
2.43.0


From fb3ec71e41db2823d1839382413233261f65bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 28/52] fix: min-max scaling maps the values of the training
 data onto [0, 1]

---
 preprocessing/scaler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index ffacb23..1e09ae3 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -54,8 +54,14 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
           min = val
         }
       }
-      shift := -min
-      scale := max - min
+      shift := 0.0 // if there are only missing values
+      if max >= min {
+        shift = -min
+      }
+      scale := 1.0 // if all the values are the same
+      if max > min {
+        scale = 1 / (max - min)
+      }
       result.shift = &shift
       result.scale = &scale
     } else if opt.Scaling || opt.Centering {
-- 
2.43.0


From af5e9362ae212e7853a029b6ffbc908908776ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 29/52] fix: scalers of columns that only have missing values
 are finite

---
 preprocessing/scaler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 1e09ae3..511b4f8 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -75,7 +75,9 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
           n++
         }
       }
-      mean /= float64(n)
+      if n > 0 {
+        mean /= float64(n)
+      }
       if opt.Centering {
         shift := -mean
         result.shift = &shift
-- 
2.43.0


From 373363e1b718c2d0ff798b2235be48844c8c6fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 30/52] fix: scale rows once even if the view shows them
 several times

---
 preprocessing/scaler.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 511b4f8..d42ac65 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -131,7 +131,19 @@ func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ)
       scale = 1  // default scale
     }
     access := df.Floats(col)
+    var done []bool
+    if df.AreIndicesAltered() {
+      done = make([]bool, df.NumAllocatedRows())
+    }
     for i := 0; i < access.Size(); i++ {
+      if done != nil {
+        // the view might show the same row several times
+        row := access.SharedIndex(i)
+        if done[row] {
+          continue
+        }
+        done[row] = true
+      }
       access.Set(i, (access.Get(i) + shift) * scale)
     }
   }
-- 
2.43.0


From eafd1f1cac23b8bdfdc4403d9206151b3790bc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 31/52] fix: use default values for the training options left
 to zero

---
 algorithms/linear_regression.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 8efb696..1e25a97 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -55,6 +55,15 @@ func NewLinearRegressor() *LinearRegressor {
 // You need not shuffle the dataset prior to calling this function.
 func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
                                 params LinRegTrainParams) error {
+  if params.Epochs == 0 {
+    params.Epochs = 10
+  }
+  if params.LR == 0 {
+    params.LR = 0.0001
+  }
+  if params.BatchSize == 0 {
+    params.BatchSize = 64
+  }
   // just to save some memory if we perform a copy below
   floatsAndBools := df.FloatHeader().And(df.BoolHeader())
   df = df.ColumnView(floatsAndBools.NameList()...)
-- 
2.43.0


From 2f6ffe173fdbea06ba8e10c308e2491abb356635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 32/52] fix: linear regression leaves the user's columns alone
 whatever their names

---
 algorithms/linear_regression.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 1e25a97..7d00edd 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -71,12 +71,12 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
   // copy the target to another column before scaling it in-place
   start := time.Now()
   df = df.DetachedView(targetColumn)
-  df.Rename(targetColumn, "_target")
   opt := preprocessing.ScalerOptions{Centering: true, Scaling: true}
-  targetDF := df.ColumnView("_target")
+  targetDF := df.ColumnView(targetColumn)
+  targetDF.Rename(targetColumn, "_target")
   reg.TargetScaler = preprocessing.NewScaler(opt)
   reg.TargetScaler.Fit(targetDF)
-  reg.TargetScaler.TransformInplace(df)
+  reg.TargetScaler.TransformInplace(targetDF)
   if params.Verbose {
     log.Printf("training+running Target Scaler took: %s", time.Since(start))
   }
@@ -114,7 +114,7 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
     for _, batch := range batches {
       batchSize := batch.NumRows()
       diffVec := mat.NewVecDense(batchSize, diff[:batchSize])
-      y := batch.Floats("_target").VecDense()
+      y := batch.Floats(targetColumn).VecDense()
       rows := batching.DenseMatrix(batch)
       // diff = rows x weights - y  [dim: batch size]
       diffVec.MulVec(rows, weights)
@@ -174,11 +174,18 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
     yVec.MulVec(rows, weights)
   }
 
+  // map the predictions back to the target's scale
+  targetDF := dataframe.EmptyDataFrame(len(pred), df.ActualMaxCPU())
+  targetDF.OverwriteFloats64("_target", pred)
+  reg.TargetScaler.InverseTransformInplace(targetDF)
+  target := targetDF.Floats("_target")
+  for i := range pred {
+    pred[i] = target.Get(i)
+  }
   // write the result in the dataframe
   result := df.View()
-  result.OverwriteFloats64("_target", pred)
-  reg.TargetScaler.InverseTransformInplace(result)
-  result.Rename("_target", resultColumn)
+  result.AllocFloats(resultColumn)
+  result.OverwriteFloats64(resultColumn, pred)
 
   return result, nil
 }
-- 
2.43.0


From cecec73c142160d3a83ef9fbf2a3f3a028f9354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 33/52] fix: predict dataframes that have no rows

---
 algorithms/linear_regression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 7d00edd..ea792e6 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -167,6 +167,9 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
   // prediction
   batching := dataframe.NewDense64Batching(reg.Features)
   for i, batch := range df.SplitView(batchSize) {
+    if batch.NumRows() == 0 {
+      break
+    }
     rows := batching.DenseMatrix(batch)
     offset := i * batchSize
     yData := pred[offset:offset+batch.NumRows()]
-- 
2.43.0


From af903ad478604c180b5731577d1beb5404c6617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 34/52] fix: AutoPreprocessor supports every combination of
 options and columns

---
 preprocessing/auto_preprocessor.go | 39 +++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index cb58328..541d0da 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -38,8 +38,17 @@ func NewAutoPreprocessor(opt AutoPreprocOptions) *AutoPreprocessor {
 
 // TransformedColumns implements PreprocTraining and Transform interfaces.
 func (preproc *AutoPreprocessor) TransformedColumns() []string {
-  cols := preproc.Imputer.TransformedColumns()  // can be safely changed
-  cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  var cols []string
+  if preproc.Imputer != nil {
+    cols = append(cols, preproc.Imputer.TransformedColumns()...)
+  } else if preproc.Scaler != nil {
+    cols = append(cols, preproc.Scaler.TransformedColumns()...)
+  }
+  if preproc.StringToInt != nil {
+    cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  } else if preproc.IntToBool != nil {
+    cols = append(cols, preproc.IntToBool.TransformedColumns()...)
+  }
   return cols
 }
 
@@ -66,8 +75,10 @@ func (preproc *AutoPreprocessor) FitTransform(df *dataframe.DataFrame) *datafram
 
 func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*dataframe.DataFrame, error) {
   opt := preproc.options
+  // discard what was fitted before
+  *preproc = AutoPreprocessor{options: opt}
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
-  if opt.Imputing || opt.Scaling {
+  if len(floatCols) > 0 && (opt.Imputing || opt.Scaling) {
     start := time.Now()
     floatsOnly := df.ColumnView(floatCols...)
     if opt.Imputing {
@@ -85,10 +96,11 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   }
   // category encoding
   var categorical []string
-  if df.StringHeader().Num() > 0 {
+  stringCols := df.StringHeader().Except(opt.Exclude...).NameList()
+  if len(stringCols) > 0 {
     start := time.Now()
     preproc.StringToInt = NewHashEncoder(HashEncoderOptions{})
-    preproc.StringToInt.Fit(df)
+    preproc.StringToInt.Fit(df.ColumnView(stringCols...))
     view, err := preproc.StringToInt.TransformView(df)
     df = view
     if err != nil {
@@ -99,7 +111,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       log.Printf("running Hash Encoder took %s with cpu=%d", time.Since(start), df.ActualMaxCPU())
     }
   } else {
-    categorical = df.IntHeader().NameList()
+    categorical = df.IntHeader().Except(opt.Exclude...).NameList()
   }
   if len(categorical) > 0 {
     start := time.Now()
@@ -124,14 +136,18 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
     if err != nil {
       return nil, err
     }
-  } else if !opt.Imputing && !opt.Scaling {
-    return df, nil
   }
   start := time.Now()
   df = df.View()
-  df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
-  preproc.Imputer.TransformInplace(df)
-  preproc.Scaler.TransformInplace(df)
+  if preproc.Imputer != nil || preproc.Scaler != nil {
+    df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
+  }
+  if preproc.Imputer != nil {
+    preproc.Imputer.TransformInplace(df)
+  }
+  if preproc.Scaler != nil {
+    preproc.Scaler.TransformInplace(df)
+  }
   if opt.Verbose {
     log.Printf("running Imputer+Scaler took %s with cpu=%d",
                time.Since(start), df.ActualMaxCPU())
@@ -144,6 +160,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
 // Because it returns a view, columns that don't require preprocessing will
 // share their data with the columns of the original dataframe.
 func (preproc *AutoPreprocessor) TransformView(df *dataframe.DataFrame) (*dataframe.DataFrame, error) {
+  df = df.View()
   // prepare transformations in place
   if preproc.Imputer != nil {
     df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
-- 
2.43.0


From f055765b62e6969242914391ff9e30ae4e8e5ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 35/52] fix: quote empty cells alone on their line when writing
 CSV (readers skip blank lines)

---
 dataframe/csv_writing.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index 296fa72..1709ca8 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -1,6 +1,7 @@
 package dataframe
 
 import (
+  "bufio"
   "sync"
   "sort"
   "encoding/csv"
@@ -34,7 +35,8 @@ type CSVWritingSpec struct {
 // To1CSV flushes the writer before returning.
 // This function is not multi-threaded.
 func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
-  writer := csv.NewWriter(r)
+  buffer := bufio.NewWriter(r)
+  writer := csv.NewWriter(buffer)  // it doesn't buffer a second time
   if options.Comma != 0 {
     writer.Comma = options.Comma
   }
@@ -48,7 +50,7 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
   fCols := df.FloatHeader().NameList()
   sCols := df.StringHeader().NameList()
   colNames := append(append(append(bCols, iCols...), fCols...), sCols...)
-  err := writer.Write(colNames)
+  err := writeCSVRecords(writer, buffer, [][]string{colNames})
   if err != nil {
     return err
   }
@@ -99,13 +101,33 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
       col++
     }
     // write the batch
-    err := writer.WriteAll(batch[:end - j])
+    err := writeCSVRecords(writer, buffer, batch[:end - j])
     if err != nil {
       return err
     }
   }
-  writer.Flush()  // not done yet if there is no row
-  return writer.Error()
+  return nil
+}
+
+// writeCSVRecords writes the records and flushes. An empty cell alone on its
+// line is quoted because CSV readers skip blank lines.
+func writeCSVRecords(writer *csv.Writer, buffer *bufio.Writer, records [][]string) error {
+  for _, record := range records {
+    var err error
+    if len(record) == 1 && record[0] == "" {
+      eol := "\n"
+      if writer.UseCRLF {
+        eol = "\r\n"
+      }
+      _, err = buffer.WriteString("\"\"" + eol)
+    } else {
+      err = writer.Write(record)
+    }
+    if err != nil {
+      return err
+    }
+  }
+  return buffer.Flush()
 }
 
 func (df *DataFrame) threadedTo1CSV(w io.Writer, err []error, opt CSVWritingSpec, wg *sync.WaitGroup) {
-- 
2.43.0


From 30210282882d35737463aa93b159d4ea0afac39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 36/52] Observation points in the job queue, only with the
 build tag verif

---
 utils/string_q.go  |  4 ++++
 utils/verif_off.go |  5 +++++
 utils/verif_on.go  | 14 ++++++++++++++
 3 files changed, 23 insertions(+)
 create mode 100644 utils/verif_off.go
 create mode 100644 utils/verif_on.go

diff --git a/utils/string_q.go b/utils/string_q.go
index 41b899e..e89ce62 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -62,9 +62,13 @@ func (q StringQ) Wait() {
 // no more key (the empty string is a valid key).
 func (q StringQ) Next() (string, bool) {
   col, more := <-q.Keys
+  if more {
+    verifPoint("next", col)
+  }
   return col, more
 }
 
 func (q StringQ) Notify(err ProcessedJob) {
+  verifPoint("notify", err.Key)
   q.Errors <- err
 }
diff --git a/utils/verif_off.go b/utils/verif_off.go
new file mode 100644
index 0000000..32b4ebb
--- /dev/null
+++ b/utils/verif_off.go
@@ -0,0 +1,5 @@
+// +build !verif
+
+package utils
+
+func verifPoint(point string, key string) {}
diff --git a/utils/verif_on.go b/utils/verif_on.go
new file mode 100644
index 0000000..86ac61b
--- /dev/null
+++ b/utils/verif_on.go
@@ -0,0 +1,14 @@
+// +build verif
+
+package utils
+
+// VerifHook is called by the job queue whenever a worker has picked a job
+// ("next") or is about to report one ("notify"). Only available with the build
+// tag "verif".
+var VerifHook func(point string, key string)
+
+func verifPoint(point string, key string) {
+  if VerifHook != nil {
+    VerifHook(point, key)
+  }
+}
-- 
2.43.0


From 860e9e7bbfdfc05927be8fb202c26f47cf84632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 37/52] fix: scaling a constant column whose mean is rounded
 must not blow the rounding error up

---
 preprocessing/scaler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index d42ac65..bb0b6dc 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -84,14 +84,19 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
       }
       if opt.Scaling {
         squaresum := 0.0
+        min := math.Inf(1)
+        max := math.Inf(-1)
         for i := 0; i < access.Size(); i++ {
           val := access.Get(i)
           if !math.IsNaN(val) {
             squaresum += (val - mean) * (val - mean)
+            min = math.Min(min, val)
+            max = math.Max(max, val)
           }
         }
-        if squaresum == 0 {
-          squaresum += 1
+        // the mean of identical values might be rounded
+        if squaresum == 0 || min == max {
+          squaresum = 1
           n++
         }
         scale := math.Sqrt(float64(n) / squaresum)
-- 
2.43.0


From 1d9950452ee9576e68eadaa182172b4bacb6a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 38/52] fix: GoodShortNames must not shorten a column name to
 the name of another column

---
 dataframe/print.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataframe/print.go b/dataframe/print.go
index 77f80b8..339a97b 100644
--- a/dataframe/print.go
+++ b/dataframe/print.go
@@ -182,9 +182,13 @@ func (df *DataFrame) GoodShortNames(minLength int) map[string]string {
     minLength = 3
   }
   invResult := make(map[string]string)
-  for col := range df.Header().NameSet() {
+  names := df.Header().NameSet()
+  for col := range names {
     for length := minLength; length <= len(col); length++ {
       candidate := col[:length]
+      if names[candidate] && candidate != col {
+        continue  // this would be mistaken for the other column
+      }
       if _, existing := invResult[candidate]; !existing {
         invResult[candidate] = col
         break
-- 
2.43.0


From dbeec47c2617a5eee4af6ea85f94767de79e5292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 39/52] fix: column-wise concatenation of no dataframes returns
 an error, as RowConcat does

---
 dataframe/concat.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index a680d5d..9faab5c 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -111,6 +111,9 @@ func ColumnSmartConcat(dfs ...*DataFrame) (*DataFrame, error) {
 // so changing the input dataframes will also change the returned dataframe.
 // Numpy equivalent: concat(dfs, axis=1)
 func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
+  if len(dfs) == 0 {
+    return nil, fmt.Errorf("ColumnConcatView requires at least one dataframe")
+  }
   err := CheckNoColumnOverlap(dfs)
   if err != nil {
     return nil, err
@@ -169,6 +172,9 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
 // so the returned dataframe is safe to change.
 // Numpy equivalent: concat(dfs, axis=1)
 func ColumnCopyConcat(dfs ...*DataFrame) (*DataFrame, error) {
+  if len(dfs) == 0 {
+    return nil, fmt.Errorf("ColumnCopyConcat requires at least one dataframe")
+  }
   // check the number of rows match
   ref := dfs[0].NumRows()
   for _, df := range dfs[1:] {
-- 
2.43.0


From 693eeb808f69ad98a660d999296d9c4743cf8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 40/52] fix: DenseMatrix must not deliver stale data when
 column types change between dataframes

---
 dataframe/dense_gonum_batching.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/dense_gonum_batching.go b/dataframe/dense_gonum_batching.go
index 4a40098..8fad763 100644
--- a/dataframe/dense_gonum_batching.go
+++ b/dataframe/dense_gonum_batching.go
@@ -31,6 +31,7 @@ func NewDense64Batching(columns []string) *Dense64Batching {
 // needed.
 func (bat *Dense64Batching) DenseMatrix(df *DataFrame) mat.Matrix {
   df.debugPrint("Dense64Batching.DenseMatrix")
+  bat.initialized = false // the columns of df may be of other types than before
   bat.initialize(df, bat.columns) // yes, bat.columns will be initialized again
   // allocate more data if necessary
   dim := len(bat.columns)
-- 
2.43.0


From 56ccc04f7ed97314e6d377145e43321b5ee742ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 41/52] fix: RowConcat must not mark object columns as strings
 because of another dataframe

---
 dataframe/concat.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 9faab5c..83b32d4 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -62,6 +62,9 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
     }
     for col, vals := range result.objects {
       if from, ok := df.objects[col]; ok {
+        if df.stringHeader.contains(col) != dfs[0].stringHeader.contains(col) {
+          return nil, fmt.Errorf("object column %s is not always a string column (%dth dataframe)", col, k)
+        }
         for j, i := range df.indices {
           vals[j + offset] = from[i]
         }
-- 
2.43.0


From 40ff0cf73d422c79827746bd64d09f21121a5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 42/52] fix: building columns on a view must not add them to
 its parent or write to its data

---
 dataframe/builder.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dataframe/builder.go b/dataframe/builder.go
index 1fec825..35cad4e 100644
--- a/dataframe/builder.go
+++ b/dataframe/builder.go
@@ -11,6 +11,7 @@ type DataBuilder struct {
 // AddFloats adds a list of floats to the given float column.
 // It returns a shallow copy of itself.
 func (builder DataBuilder) AddFloats(col string, values ...float64) DataBuilder {
+  builder.RawData.Unshare(col) // do not append to the data of another dataframe
   builder.RawData.floats[col] = append(builder.RawData.floats[col], values...)
   return builder
 }
@@ -18,6 +19,7 @@ func (builder DataBuilder) AddFloats(col string, values ...float64) DataBuilder
 // AddFloats adds a list of bools to the given boolean column.
 // It returns a shallow copy of itself.
 func (builder DataBuilder) AddBools(col string, values ...bool) DataBuilder {
+  builder.RawData.Unshare(col) // do not append to the data of another dataframe
   builder.RawData.bools[col] = append(builder.RawData.bools[col], values...)
   return builder
 }
@@ -25,6 +27,7 @@ func (builder DataBuilder) AddBools(col string, values ...bool) DataBuilder {
 // AddInts adds a list of ints to the given int column.
 // It returns a shallow copy of itself.
 func (builder DataBuilder) AddInts(col string, values ...int) DataBuilder {
+  builder.RawData.Unshare(col) // do not append to the data of another dataframe
   builder.RawData.ints[col] = append(builder.RawData.ints[col], values...)
   return builder
 }
@@ -33,6 +36,7 @@ func (builder DataBuilder) AddInts(col string, values ...int) DataBuilder {
 // It returns a shallow copy of itself.
 // You can use this function to add strings too.
 func (builder DataBuilder) AddObjects(col string, values ...interface{}) DataBuilder {
+  builder.RawData.Unshare(col) // do not append to the data of another dataframe
   builder.RawData.objects[col] = append(builder.RawData.objects[col], values...)
   return builder
 }
@@ -66,6 +70,9 @@ func (builder DataBuilder) AddStrings(col string, values ...string) DataBuilder
 // Values are not copied, so if you change them it will change them everywhere.
 // It returns a shallow copy of itself.
 func (builder DataBuilder) SetFloats(col string, values []float64) DataBuilder {
+  if builder.RawData.sharedMaps {
+    builder.RawData.reallocateMaps()
+  }
   builder.RawData.floats[col] = values
   return builder
 }
@@ -74,6 +81,9 @@ func (builder DataBuilder) SetFloats(col string, values []float64) DataBuilder {
 // Values are not copied, so if you change them it will change them everywhere.
 // It returns a shallow copy of itself.
 func (builder DataBuilder) SetBools(col string, values []bool) DataBuilder {
+  if builder.RawData.sharedMaps {
+    builder.RawData.reallocateMaps()
+  }
   builder.RawData.bools[col] = values
   return builder
 }
@@ -82,6 +92,9 @@ func (builder DataBuilder) SetBools(col string, values []bool) DataBuilder {
 // Values are not copied, so if you change them it will change them everywhere.
 // It returns a shallow copy of itself.
 func (builder DataBuilder) SetInts(col string, values []int) DataBuilder {
+  if builder.RawData.sharedMaps {
+    builder.RawData.reallocateMaps()
+  }
   builder.RawData.ints[col] = values
   return builder
 }
@@ -92,6 +105,9 @@ func (builder DataBuilder) SetInts(col string, values []int) DataBuilder {
 // If you want to set a slice of strings, you'll need to convert the slice to a
 // slice of interfaces and call MarkAsString(col).
 func (builder DataBuilder) SetObjects(col string, values []interface{}) DataBuilder {
+  if builder.RawData.sharedMaps {
+    builder.RawData.reallocateMaps()
+  }
   builder.RawData.objects[col] = values
   return builder
 }
-- 
2.43.0


From c19dbb5bf9f17af6e3e3e19142b627dceee2864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 43/52] fix: adding values to a column set from a slice must
 not overwrite the memory behind the slice

---
 dataframe/builder.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dataframe/builder.go b/dataframe/builder.go
index 35cad4e..2d38de0 100644
--- a/dataframe/builder.go
+++ b/dataframe/builder.go
@@ -73,7 +73,8 @@ func (builder DataBuilder) SetFloats(col string, values []float64) DataBuilder {
   if builder.RawData.sharedMaps {
     builder.RawData.reallocateMaps()
   }
-  builder.RawData.floats[col] = values
+  // reslicing stops AddX from appending to the memory behind the given slice
+  builder.RawData.floats[col] = values[:len(values):len(values)]
   return builder
 }
 
@@ -84,7 +85,8 @@ func (builder DataBuilder) SetBools(col string, values []bool) DataBuilder {
   if builder.RawData.sharedMaps {
     builder.RawData.reallocateMaps()
   }
-  builder.RawData.bools[col] = values
+  // reslicing stops AddX from appending to the memory behind the given slice
+  builder.RawData.bools[col] = values[:len(values):len(values)]
   return builder
 }
 
@@ -95,7 +97,8 @@ func (builder DataBuilder) SetInts(col string, values []int) DataBuilder {
   if builder.RawData.sharedMaps {
     builder.RawData.reallocateMaps()
   }
-  builder.RawData.ints[col] = values
+  // reslicing stops AddX from appending to the memory behind the given slice
+  builder.RawData.ints[col] = values[:len(values):len(values)]
   return builder
 }
 
@@ -108,7 +111,8 @@ func (builder DataBuilder) SetObjects(col string, values []interface{}) DataBuil
   if builder.RawData.sharedMaps {
     builder.RawData.reallocateMaps()
   }
-  builder.RawData.objects[col] = values
+  // reslicing stops AddX from appending to the memory behind the given slice
+  builder.RawData.objects[col] = values[:len(values):len(values)]
   return builder
 }
 
-- 
2.43.0


From 74ca0932eff01fb6c867a6dc1bb3a9f689b0ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 44/52] fix: ToDataFrame refuses a column name used for several
 types and string marks on other columns

---
 dataframe/raw_data.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 52e27cd..347fb28 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -104,7 +104,8 @@ func (data *RawData) NumAllocatedRows() int {
 }
 
 // ToDataFrame upgrades the RawData structure to a DataFrame.
-// It will panic if the columns are of different size.
+// It will panic if the columns are of different size or if a column name is used
+// several times.
 // The data is shared between the original RawData and the returned dataframe,
 // so any change to the RawData will affect the dataframe, and vice versa.
 func (data *RawData) ToDataFrame() *DataFrame {
@@ -132,6 +133,14 @@ func (data *RawData) ToDataFrame() *DataFrame {
       panic(fmt.Sprintf("int column %s has %d rows. Expected: %d", col, len(vals), nRows))
     }
   }
+  if data.Header().Num() != data.NumColumns() {
+    panic("a column name is used for columns of different types")
+  }
+  for col := range data.stringHeader.get() {
+    if _, ok := data.objects[col]; !ok {
+      panic(fmt.Sprintf("string column %s is not an object column", col))
+    }
+  }
   result := new(DataFrame)
   result.objects = data.objects
   result.floats = data.floats
-- 
2.43.0


From baa41090c8600f6fc21d8a13c62a15e584f45d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 45/52] fix: a dataframe made from the raw data of a view or of
 shared columns must not change them

---
 dataframe/raw_data.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 347fb28..1c6b43c 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -141,6 +141,12 @@ func (data *RawData) ToDataFrame() *DataFrame {
       panic(fmt.Sprintf("string column %s is not an object column", col))
     }
   }
+  if data.sharedMaps {
+    // the maps belong to another dataframe
+    view := *data
+    view.reallocateMaps()
+    data = &view
+  }
   result := new(DataFrame)
   result.objects = data.objects
   result.floats = data.floats
@@ -148,6 +154,7 @@ func (data *RawData) ToDataFrame() *DataFrame {
   result.ints = data.ints
   result.maxCPU = data.maxCPU
   result.stringHeader = data.stringHeader
+  result.shared = data.shared
   result.mask = make([]bool, nRows)
   result.indices = utils.MakeRange(0, nRows, 1)
   result.dataUID = data.dataUID
-- 
2.43.0


From d08eeb85134b2e3e65096b609648c06a9dbe2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 46/52] fix: MakeRange panicked when the interval does not
 divide the range

---
 utils/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index aa8c630..3819500 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -7,7 +7,10 @@ import (
 )
 
 func MakeRange(from int, to int, interval int) []int {
-  result := make([]int, (to - from) / interval)
+  if to <= from {
+    return []int{}
+  }
+  result := make([]int, (to - from - 1) / interval + 1)
   for n, j := from, 0; n < to; n, j = n + interval, j+1 {
     result[j] = n
   }
-- 
2.43.0


From ff5653202a5b685c3ade15c006f6cd655c58a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 47/52] fix: GroupIndexer divided by zero when there is no
 element

---
 utils/group_indexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/group_indexer.go b/utils/group_indexer.go
index 71c0a09..b6ae226 100644
--- a/utils/group_indexer.go
+++ b/utils/group_indexer.go
@@ -24,6 +24,9 @@ func (indexer *GroupIndexer) Initialize(nElements int, nGroups int) {
     nGroups = nElements
   }
   indexer.NGroups = nGroups
+  if nElements == 0 {
+    return // no group, and nothing to divide
+  }
   indexer.groupSize = nElements / nGroups
   if nElements % nGroups != 0 {
     indexer.groupSize++
-- 
2.43.0


From 62ccf447270073d87c067f6d4c3439c8bdfba8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 48/52] fix: float assertions accepted NaN and the slice
 assertion did not report its verdict

---
 utils/asserts.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/utils/asserts.go b/utils/asserts.go
index 1bd4239..0951553 100644
--- a/utils/asserts.go
+++ b/utils/asserts.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+  "math"
   "testing"
   "reflect"
 )
@@ -38,7 +39,7 @@ func AssertIntNotEquals(name string, actual int, notExpected int, t *testing.T)
 }
 
 func AssertFloatEquals(name string, actual float64, expected float64, t *testing.T) bool {
-  if actual < expected-0.01 || actual > expected+0.01 {
+  if math.IsNaN(actual) != math.IsNaN(expected) || actual < expected-0.01 || actual > expected+0.01 {
     t.Errorf("%s = %.4f; expected: %.4f", name, actual, expected)
     return false
   }
@@ -104,12 +105,13 @@ func AssertFloatSliceEquals(name string, actual []float64, expected []float64, t
   if !reflect.DeepEqual(actual, expected) {
     if len(actual) != len(expected) {
       t.Errorf("%s = %v; expected: %v", name, actual, expected)
-    } else {
-        for i, v := range actual {
-          AssertFloatEquals(name, v, expected[i], t)
-        }
+      return false
     }
-    return false
+    equal := true
+    for i, v := range actual {
+      equal = AssertFloatEquals(name, v, expected[i], t) && equal
+    }
+    return equal
   }
   return true
 }
-- 
2.43.0


From 92b476cf081c114cc436c04534cd796529a6fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 49/52] fix: detaching some columns, one of them given twice,
 must not detach the others

---
 dataframe/raw_data.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 1c6b43c..6ac622c 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -202,12 +202,13 @@ func (data *RawData) Unshare(columns...string) {
   if data.sharedMaps {
     data.reallocateMaps()
   }
-  var colSet map[string]bool
-  if len(columns) == 0 || len(columns) == data.NumColumns() {
+  colSet := utils.ToStringSet(columns)
+  if len(columns) == 0 {
     colSet = data.Header().NameSet()
+  }
+  if len(colSet) == data.NumColumns() {
     data.dataUID = generateDataUID()
   } else {
-    colSet = utils.ToStringSet(columns)
     data.dataUID |= generateDataUID()
   }
   for col, v := range data.objects {
-- 
2.43.0


From 91315fe870f2758fa3fc79b3abef932a700808f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:28 +0000
Subject: [PATCH 50/52] fix: a group indexer initialized again must start over

---
 utils/group_indexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/group_indexer.go b/utils/group_indexer.go
index b6ae226..3291c4d 100644
--- a/utils/group_indexer.go
+++ b/utils/group_indexer.go
@@ -23,6 +23,7 @@ func (indexer *GroupIndexer) Initialize(nElements int, nGroups int) {
   if nGroups > nElements {
     nGroups = nElements
   }
+  *indexer = GroupIndexer{} // the indexer may have been used already
   indexer.NGroups = nGroups
   if nElements == 0 {
     return // no group, and nothing to divide
-- 
2.43.0


From f1078df0ffe56342500e9eba9b2eeb55a96bcb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:47 +0000
Subject: [PATCH 51/52] fix: slicing a frame without columns must fix its
 number of rows

---
 dataframe/inplace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 533f4fb..1be1987 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -215,6 +215,7 @@ func (df *DataFrame) cut(from int, to int) *DataFrame {
       df.reallocateMaps()
     }
     df.indices = df.indices[:to - from]  // same as range(0, to-from)
+    df.nRowsNoColumn = to - from
     for col, vals := range df.floats {
       df.floats[col] = vals[from:to]
       df.shared.add(col)
-- 
2.43.0


From 5d525851567da4823b93d6576853d2847758e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:22 +0000
Subject: [PATCH 52/52] fix: the vector of a column must have as many elements
 as the frame has rows

---
 dataframe/column_access.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataframe/column_access.go b/dataframe/column_access.go
index d2b6337..b77eb77 100644
--- a/dataframe/column_access.go
+++ b/dataframe/column_access.go
@@ -136,7 +136,8 @@ func (access FloatAccess) VecDenseCopy() *mat.VecDense {
 // want to avoid an unnecessary copy.
 func (access FloatAccess) VecDense() *mat.VecDense {
   if access.contiguous {
-    return mat.NewVecDense(len(access.rawData), access.rawData)
+    size := len(access.indices)
+    return mat.NewVecDense(size, access.rawData[:size])
   }
   return access.VecDenseCopy()
 }
-- 
2.43.0

