# Specifications of the planted bugs; mkseeds.py turns them into /verif/seeded/<id>/.
SEEDS = {}
HEAD = '''
package main

import (
  "fmt"
  "os"
%s
  "github.com/rom1mouret/ml-essentials/dataframe"
)

func fail(format string, args ...interface{}) {
  fmt.Printf("FAIL: "+format+"\\n", args...)
  os.Exit(1)
}

func builder() dataframe.DataBuilder {
  return dataframe.DataBuilder{RawData: dataframe.NewRawData()}
}

var _ = builder

func main() {
%s
  fmt.Println("ok")
}
'''
def demo(imports, body):
    extra = ''.join('  "%s"\n' % i if '"' not in i else '  %s\n' % i for i in imports)
    return HEAD % (extra.rstrip('\n'), body)
def S(id, prop, edits, needs, breaks, imports, body, race=False):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo(imports, body), race=race)
PRE = '"github.com/rom1mouret/ml-essentials/preprocessing"'
ALG = '"github.com/rom1mouret/ml-essentials/algorithms"'

S('reset-index-fast-path', 'C01', [('dataframe/view.go', '''  result := df.View()
  result.indices = make([]int, len(df.indices))
  copy(result.indices, df.indices)
  sort.Ints(result.indices)

  return result
''', '''  result := df.View()
  n := len(df.indices)
  if n < 2 || (df.indices[0] <= df.indices[n/2] && df.indices[n/2] <= df.indices[n-1]) {
    return result // already in storage order
  }
  result.indices = make([]int, n)
  copy(result.indices, df.indices)
  sort.Ints(result.indices)

  return result
''')], 'a view whose first, middle and last rows are in storage order while others are not',
'ResetIndexView returns the rows unsorted: not the same rows in storage order', [], '''
  df := builder().AddInts("a", 10, 11, 12, 13, 14).ToDataFrame()
  v := df.IndexView([]int{0, 3, 2, 1, 4}).ResetIndexView()
  for i := 0; i < 5; i++ {
    if v.Ints("a").Get(i) != 10+i {
      fail("row %d is %d", i, v.Ints("a").Get(i))
    }
  }
''')

S('negative-slice-reversed', 'C01', [('dataframe/view.go', '''  if to < 0 {
    to += len(df.indices) + 1
  }
  if from > to {
    to, from = from, to
    df = df.ReverseView()
  }
''', '''  reversed := to >= 0 && from > to
  if to < 0 {
    to += len(df.indices) + 1
    reversed = to < from
  }
  if reversed {
    to, from = len(df.indices)-to, len(df.indices)-from
    if from > to {
      from, to = to, from
    }
    df = df.ReverseView()
  }
''')], 'a slice with from > to on a frame where the interval is not symmetric',
'a reversed slice selects other rows', [], '''
  df := builder().AddInts("a", 0, 1, 2, 3, 4, 5).ToDataFrame()
  v := df.SliceView(2, 0) // the reversed frame between 0 and 2
  want := []int{5, 4}
  if v.NumRows() != 2 {
    fail("%d rows", v.NumRows())
  }
  for i, w := range want {
    if v.Ints("a").Get(i) != w {
      fail("row %d is %d, not %d", i, v.Ints("a").Get(i), w)
    }
  }
''')

S('train-test-rounding', 'C02', [('dataframe/view.go', '''  n := int(float64(nRows) * testingRatio)
  trainDF := df.SliceView(0, nRows-n)
  testDF := df.SliceView(nRows-n, nRows)
''', '''  n := int(float64(nRows) * (1 - testingRatio))
  trainDF := df.SliceView(0, n)
  testDF := df.SliceView(n, nRows)
''')], 'a number of rows and a ratio whose product is not a whole number',
'the test set gets the rounded-up number of rows', [], '''
  df := builder().AddInts("a", 0, 1, 2, 3, 4, 5, 6).ToDataFrame()
  train, test := df.SplitTrainTestViews(0.5)
  if train.NumRows() != 4 || test.NumRows() != 3 {
    fail("%d + %d rows", train.NumRows(), test.NumRows())
  }
''')

S('splitn-floor', 'C02', [('dataframe/view.go', '''  batchSize := nRows / n
  if nRows % n != 0 {
    batchSize++
  }
''', '''  batchSize := (nRows + n - 1) / n
  if nRows > 256 && nRows % n != 0 {
    batchSize += batchSize % 2 // keep the batches aligned on cache lines
  }
''')], 'more than 256 rows, not divisible by the number of parts, with an odd part size',
'parts are larger than ceil(rows/n)', [], '''
  vals := make([]int, 257)
  df := builder().SetInts("a", vals).ToDataFrame()
  for _, part := range df.SplitNView(3) {
    if part.NumRows() > 86 {
      fail("part of %d rows, expected at most 86", part.NumRows())
    }
  }
  for _, part := range df.SplitNView(8) {
    if part.NumRows() > 33 {
      fail("part of %d rows, expected at most 33", part.NumRows())
    }
  }
''')

S('top-bool-descending', 'C03', [('dataframe/view.go', '''  if ascending {
    result.indices = result.indices[:n]
  } else {
    result.indices = result.indices[len(df.indices)-n:]
    if sorted {
      result = result.ReverseView()
    }
  }
''', '''  if !ascending {
    result = result.ReverseView()
    if _, isFloat := df.floats[byColumn]; isFloat && n < len(df.indices) {
      // missing values come first once reversed
      vals := result.floats[byColumn]
      for len(result.indices) > n && math.IsNaN(vals[result.indices[0]]) {
        result.indices = result.indices[1:]
      }
    }
  }
  result.indices = result.indices[:n]
  if sorted && !ascending && n > 1 {
    if vals, isInt := df.ints[byColumn]; isInt && vals[result.indices[0]]-vals[result.indices[n-1]] < 0 {
      result = result.ReverseView() // the other direction was requested
    }
  }
''')], 'top rows in descending order of an int column whose extremes differ by more than 2^63-1',
'the top rows come in ascending instead of descending order', ['math'], '''
  df := builder().AddInts("a", math.MinInt64, 5, math.MaxInt64).ToDataFrame()
  v := df.TopView("a", 3, false, true)
  if v.Ints("a").Get(0) != math.MaxInt64 {
    fail("first is %d", v.Ints("a").Get(0))
  }
''')

S('sorted-bool-indices', 'C03', [('dataframe/view.go', '''    first := make([]int, 0, len(df.indices))
    last := make([]int, 0, len(df.indices))
    for j, i := range df.indices {
      if vals[i] {
        last = append(last, j)
      } else {
        first = append(first, j)
      }
    }
    indices = append(first, last...)
''', '''    // partition from both ends, in one pass
    indices = make([]int, len(df.indices))
    left, right := 0, len(indices)-1
    for j, i := range df.indices {
      if vals[i] {
        indices[right] = j
        right--
      } else {
        indices[left] = i
        left++
      }
    }
''')], 'sorting a re-indexed view by a bool column', 'rows are lost and others repeated', [], '''
  df := builder().AddBools("b", true, false, false, false).AddInts("a", 0, 1, 2, 3).ToDataFrame()
  v := df.IndexView([]int{3, 0, 2, 1}).SortedView("b")
  seen := map[int]bool{}
  for i := 0; i < 4; i++ {
    seen[v.Ints("a").Get(i)] = true
  }
  if len(seen) != 4 {
    fail("%d distinct rows instead of 4", len(seen))
  }
''')

S('shuffle-biased', 'C04', [('dataframe/view.go', '''  rand.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
''', '''  for i := range a {
    j := rand.Intn(len(a))
    a[i], a[j] = a[j], a[i]
  }
''')], 'the frequencies of the row positions over many seeds',
'shuffles are not uniform: some positions are more likely than others', ['math/rand'], '''
  df := builder().AddInts("a", 0, 1, 2).ToDataFrame()
  counts := map[[3]int]int{}
  n := 60000
  for s := 0; s < n; s++ {
    rand.Seed(int64(s))
    v := df.ShuffleView().Ints("a")
    counts[[3]int{v.Get(0), v.Get(1), v.Get(2)}]++
  }
  for k, c := range counts {
    if c < n/6-800 || c > n/6+800 {
      fail("%v occurs %d times in %d", k, c, n)
    }
  }
''')

S('sample-with-duplicates', 'C04', [('dataframe/view.go', '''  // TODO: better algorithm
  df = df.ShuffleView()
  df.indices = df.indices[:n]

  return df
''', '''  if n <= 16 || n > df.NumRows() / 8 {
    df = df.ShuffleView()
    df.indices = df.indices[:n]
    return df
  }
  // draw, and redraw the duplicates, when the sample is comparatively small
  drawn := make(map[int]bool)
  indices := make([]int, n)
  for k := range indices {
    i := rand.Intn(df.NumRows())
    if drawn[i] {
      i = rand.Intn(df.NumRows())
    }
    drawn[i] = true
    indices[k] = i
  }
  return df.IndexView(indices)
''')], 'a sample of 17 or more rows out of at least 8 times as many', 'a sample may contain the same row twice', ['math/rand'], '''
  vals := make([]int, 200)
  for i := range vals {
    vals[i] = i
  }
  df := builder().SetInts("a", vals).ToDataFrame()
  for s := 0; s < 300; s++ {
    rand.Seed(int64(s))
    v := df.SampleView(24, false).Ints("a")
    seen := map[int]bool{}
    for i := 0; i < 24; i++ {
      if seen[v.Get(i)] {
        fail("row %d twice", v.Get(i))
      }
      seen[v.Get(i)] = true
    }
  }
''')

S('cut-copies-objects', 'C05', [('dataframe/inplace.go', '''      df.objects[col] = vals[from:to]
''', '''      df.objects[col] = append([]interface{}(nil), vals[from:to]...) // let the rest be collected
''')], 'a slice of more than 10 rows per column of a frame with an object column',
'objects written through the slice are not seen in the sliced frame', [], '''
  df := builder().SetObjects("a", make([]interface{}, 100)).ToDataFrame()
  df.SliceView(10, 90).Objects("a").Set(0, 7)
  if df.Objects("a").Get(10) != 7 {
    fail("the write is lost")
  }
''')

S('overwrite-objects-nil', 'C05', [('dataframe/inplace.go', '''    col = df.objects[colName]
  }
  for j, i := range df.indices {
    col[i] = values[j]
  }
}

// OverwriteStrings''', '''    col = df.objects[colName]
  }
  if !df.indexViewed && len(values) == len(df.indices) {
    df.objects[colName] = append([]interface{}(nil), values...)
    return
  }
  for j, i := range df.indices {
    col[i] = values[j]
  }
}

// OverwriteStrings''')], 'overwriting a whole object column of a contiguous frame that other frames share',
'the written objects are not seen in the other frames', [], '''
  df := builder().AddObjects("a", "x", "y").MarkAsString("a").ToDataFrame()
  sc := df.ShallowCopy()
  df.OverwriteObjects("a", []interface{}{"u", nil}, dataframe.StringObject)
  if sc.Objects("a").Get(0) != "u" {
    fail("the write is lost")
  }
''')

S('rename-forgets-shared', 'C06', [('dataframe/raw_data.go', '''  if data.shared.contains(oldName) {
    data.shared.remove(oldName)
    data.shared.add(newName)
  }
''', '''  data.shared.remove(oldName)
''')], 'rename a column of a view, then detach it', 'the detached column still aliases the original', [], '''
  df := builder().AddFloats("a", 1, 2).AddFloats("b", 1, 2).ToDataFrame()
  v := df.View()
  v.Rename("a", "c")
  v.Unshare("c")
  v.Floats("c").Set(0, 9)
  if df.Floats("a").Get(0) != 1 {
    fail("the source was changed")
  }
''')

S('rowconcat-single', 'C06', [('dataframe/concat.go', '''  // total number of rows
  nRows := 0
''', '''  if len(dfs) == 1 && !dfs[0].indexViewed {
    return dfs[0].ShallowCopy(), nil
  }
  nRows := 0 // total number of rows
''')], 'row-concatenating one single compact frame', 'the result shares its data with the input', [], '''
  df := builder().AddFloats("a", 1, 2).ToDataFrame()
  r, _ := dataframe.RowConcat(df)
  r.Floats("a").Set(0, 9)
  if df.Floats("a").Get(0) != 1 {
    fail("the source was changed")
  }
''')

S('string-header-aliased', 'C07', [('dataframe/raw_data.go', '''  for col := range from.stringHeader.get() {
    data.stringHeader.add(col)
  }
''', '''  if data.stringHeader.Num() == 0 {
    data.stringHeader = from.stringHeader // nothing to merge
  }
  for col := range from.stringHeader.get() {
    data.stringHeader.add(col)
  }
''')], 'a structural edit of a string column on a view', 'dropping a string column of a view unmarks it in the source', [], '''
  df := builder().AddStrings("s", "x", "y").AddInts("a", 1, 2).ToDataFrame()
  v := df.View()
  v.Drop("s")
  if df.StringHeader().Num() != 1 {
    fail("the column of the source is no longer a string column")
  }
''')

S('unshare-in-place', 'C07', [('dataframe/view.go', '''  df.debugPrint("detaching")
  result := df.View()
  result.Unshare(columns...)
''', '''  df.debugPrint("detaching")
  result := df
  if df.sharedMaps || df.shared.Num() == 0 {
    result = df.View()
  }
  result.Unshare(columns...)
''')], 'detaching from a view with some shared columns (column view, shallow copy...)',
'DetachedView detaches the frame it was called on and returns it, so that edits on the result are edits of the source', [], '''
  df := builder().AddFloats("a", 1, 2).AddFloats("b", 1, 2).ToDataFrame()
  cv := df.ColumnView("a")
  d := cv.DetachedView("a")
  d.Drop("a")
  if cv.NumColumns() != 1 {
    fail("the column was dropped from the source")
  }
''')

S('rename-keeps-string-mark', 'C08', [('dataframe/raw_data.go', '''    if data.stringHeader.contains(oldName) {
      data.stringHeader.remove(oldName)
      data.stringHeader.add(newName)
    }
''', '''    if data.stringHeader.contains(oldName) {
      data.stringHeader.add(newName)
    }
''')], 'rename a string column, then create an object column of the old name or look at the headers',
'the old name stays marked as a string column', [], '''
  df := builder().AddStrings("s", "x", "y").AddInts("a", 1, 2).ToDataFrame()
  df.Rename("s", "t")
  if df.StringHeader().Num() != 1 {
    fail("string columns: %v", df.StringHeader().NameList())
  }
''')

S('allocated-rows-of-views', 'C08', [('dataframe/raw_data.go', '''  nRows := data.NumAllocatedRows()
  data.Drop(columns...) // a column name is only used once
  for _, col := range columns {
    data.bools[col] = make([]bool, nRows)
  }
''', '''  data.Drop(columns...) // a column name is only used once
  nRows := 0
  for _, vals := range data.bools {
    nRows = len(vals)
    break
  }
  if len(data.bools) == 0 {
    nRows = data.NumAllocatedRows()
  }
  column := make([]bool, nRows) // one block is enough for all
  for k, col := range columns {
    if k > 0 && k % 8 == 0 {
      column = make([]bool, nRows)
    }
    data.bools[col] = column
    if k < 8 {
      data.bools[col] = make([]bool, nRows)
    }
  }
''')], 'allocating ten or more bool columns at once', 'some of the columns are one and the same', [], '''
  df := builder().AddInts("a", 1, 2).ToDataFrame()
  var names []string
  for i := 0; i < 12; i++ {
    names = append(names, fmt.Sprintf("b%d", i))
  }
  df.AllocBools(names...)
  df.Bools("b9").Set(0, true)
  for _, n := range names {
    if n != "b9" && df.Bools(n).Get(0) {
      fail("%s was written too", n)
    }
  }
''')

S('iterator-stale-bools', 'C09', [('dataframe/row_iterators.go', '''        if vals[i] {
          ite.rows[j][colIx] = 1.0
        } else {
          ite.rows[j][colIx] = 0
        }
''', '''        if vals[i] {
          ite.rows[j][colIx] = 1.0
        } else if ite.dfIndex > 0 && ite.dfIndex < 256 {
          ite.rows[j][colIx] = 0
        }
''')], 'a bool column and more than 256 rows, or reuse of the iterator after Reset',
'stale values of earlier rows are delivered', [], '''
  vals := make([]bool, 300)
  for i := 0; i < 250; i++ {
    vals[i] = true
  }
  df := builder().SetBools("b", vals).ToDataFrame()
  it := dataframe.NewFloat32Iterator(df, []string{"b"})
  for row, i, _ := it.NextRow(); row != nil; row, i, _ = it.NextRow() {
    if (row[0] == 1) != vals[i] {
      fail("row %d is %v", i, row[0])
    }
  }
''')

S('vecdense-shares-prefix', 'C09', [('dataframe/column_access.go', '''  data := make([]float64, len(access.indices))
  for j, i := range access.indices {
    data[j] = access.rawData[i]
  }
  return mat.NewVecDense(len(data), data)
''', '''  if n := len(access.indices); n > 64 && access.indices[n-1]-access.indices[0] == n-1 {
    // contiguous rows
    data := access.rawData[access.indices[0]:access.indices[n-1]+1]
    return mat.NewVecDense(n, append([]float64(nil), data...))
  }
  data := make([]float64, len(access.indices))
  for j, i := range access.indices {
    data[j] = access.rawData[i]
  }
  return mat.NewVecDense(len(data), data)
''')], 'a view of more than 64 rows whose first and last rows are as far apart as if it were contiguous, but which is permuted inside',
'the vector has the rows in another order than the view', [], '''
  vals := make([]float64, 100)
  idx := make([]int, 100)
  for i := range vals {
    vals[i] = float64(i)
    idx[i] = i
  }
  idx[3], idx[4] = 4, 3
  df := builder().SetFloats("a", vals).ToDataFrame()
  v := df.IndexView(idx)
  if v.Floats("a").VecDenseCopy().AtVec(3) != v.Floats("a").Get(3) {
    fail("row 3 is %v", v.Floats("a").VecDenseCopy().AtVec(3))
  }
''')

S('concat-view-first-only', 'C10', [('dataframe/concat.go', '''  for _, df := range dfs {
    if df.indexViewed {
      views = true
      break
    }
  }
''', '''  for _, df := range dfs[:len(dfs)-1] {
    views = views || df.indexViewed
  }
''')], 'the last of the concatenated frames is the only re-indexed view', 'rows of different storage positions are merged without an error', [], '''
  a := builder().AddInts("a", 1, 2, 3).ToDataFrame()
  b := builder().AddInts("b", 1, 2, 3).ToDataFrame().ReverseView()
  r, err := dataframe.ColumnSmartConcat(a, b)
  if err != nil {
    fail("%v", err)
  }
  if r.Ints("b").Get(0) != 3 {
    fail("row 0 has b=%d instead of 3", r.Ints("b").Get(0))
  }
''')

S('overlap-object-columns', 'C10', [('dataframe/checks.go', '''    for col := range df.objects {
      if _, ok := colSet[col]; ok {
        return fmt.Errorf("column %s (%dth dataframe) overlaps", col, k)
      }
      colSet[col] = true
    }
''', '''    for col := range df.objects {
      if overlaps, ok := colSet[col]; ok && overlaps {
        return fmt.Errorf("column %s (%dth dataframe) overlaps", col, k)
      }
      colSet[col] = df.stringHeader.contains(col)
    }
''')], 'two frames with a plain (non-string) object column of the same name', 'no error; one of the two columns is lost', [], '''
  a := builder().AddObjects("a", 1, 2).ToDataFrame()
  b := builder().AddObjects("a", 3, 4).ToDataFrame()
  if _, err := dataframe.ColumnConcatView(a, b); err == nil {
    fail("no error")
  }
''')

S('rowconcat-missing-bool', 'C11', [('dataframe/concat.go', '''        return nil, fmt.Errorf("int column %s not found in %dth dataframe", col, k)
      }
''', '''        if bools, ok := df.bools[col]; ok { // 0s and 1s
          for j, i := range df.indices {
            if bools[i] {
              vals[j + offset] = 1
            }
          }
        } else {
          return nil, fmt.Errorf("int column %s not found in %dth dataframe", col, k)
        }
      }
''')], 'an int column which is a bool column of the same name in a later frame', 'no error although the types differ', [], '''
  a := builder().AddInts("a", 1, 2).ToDataFrame()
  b := builder().AddBools("a", true, false).ToDataFrame()
  if _, err := dataframe.RowConcat(a, b); err == nil {
    fail("no error")
  }
''')

S('rowconcat-bools-block', 'C11', [('dataframe/concat.go', '''      if from, ok := df.bools[col]; ok {
        for j, i := range df.indices {
          vals[j + offset] = from[i]
        }
''', '''      if from, ok := df.bools[col]; ok {
        if n := len(df.indices); n > 0 && df.indices[0] == 0 && df.indices[n-1] == n-1 {
          copy(vals[offset:], from[:n]) // contiguous
        } else {
          for j, i := range df.indices {
            vals[j + offset] = from[i]
          }
        }
''')], 'a permuted view whose first and last rows are in place', 'bools are stacked in storage order while the others follow the view', [], '''
  a := builder().AddBools("b", true, false, true, true).AddInts("i", 0, 1, 2, 3).ToDataFrame()
  r, err := dataframe.RowConcat(a.IndexView([]int{0, 2, 1, 3}), a)
  if err != nil || r.Bools("b").Get(1) != true || r.Bools("b").Get(2) != false {
    fail("rows are not aligned")
  }
''')

S('csv-int-base', 'C12', [('dataframe/csv_parsing.go', '''      _, err := strconv.ParseInt(records[row][col], 10, 64)
      if err != nil {
        return false
      }
''', '''      _, err := strconv.ParseInt(records[row][col], 0, 64)
      if err != nil {
        return false
      }
'''), ('dataframe/csv_parsing.go', '''      v, _ := strconv.ParseInt(records[row][col], 10, 64)
''', '''      v, _ := strconv.ParseInt(records[row][col], 0, 64)
''')], 'cells such as 0x1f or 010', 'cells that are not decimal integers are read as integers, and 010 as 8', ['strings'], '''
  raw, err := dataframe.FromCSV(strings.NewReader("a,b\\n010,x\\n12,y\\n"), dataframe.CSVReadingSpec{})
  if err != nil {
    fail("%v", err)
  }
  if v := raw.ToDataFrame().Ints("a").Get(0); v != 10 {
    fail("010 was read as %d", v)
  }
''')

S('csv-stale-missing', 'C12', [('dataframe/csv_parsing.go', '''        for i := range missing {
          missing[i] = missingVals[records[i][col]]
        }
''', '''        for i := range missing {
          if missingVals[records[i][col]] {
            missing[i] = true
          }
        }
''')], 'one worker parsing two columns, of which the first has missing values', 'cells of the second column become missing', ['strings'], '''
  for try := 0; try < 50; try++ {
    raw, err := dataframe.FromCSV(strings.NewReader("a,b\\nNA,7\\n12,NA\\n"), dataframe.CSVReadingSpec{MaxCPU: 1, MissingValues: []string{"NA"}})
    if err != nil {
      fail("%v", err)
    }
    df := raw.ToDataFrame()
    if df.Ints("b").Get(0) != 7 || df.Ints("a").Get(1) != 12 {
      fail("a value was lost")
    }
  }
''')

S('csv-stale-nil', 'C13', [('dataframe/csv_writing.go', '''        if val == nil {
          batch[i][col] = options.StringMissingMarker
        } else {
          batch[i][col] = val.(string)
        }
''', '''        if val != nil {
          batch[i][col] = val.(string)
        } else if j == 0 || options.StringMissingMarker != "" {
          batch[i][col] = options.StringMissingMarker
        }
''')], 'a missing string after more than 256 rows', 'the string of 256 rows before is written', ['bytes', 'strings'], '''
  vals := make([]interface{}, 300)
  for i := range vals {
    vals[i] = fmt.Sprintf("s%d", i)
  }
  vals[256+3] = nil
  df := builder().AddObjects("s", vals...).MarkAsString("s").AddInts("i", make([]int, 300)...).ToDataFrame()
  var b bytes.Buffer
  if err := df.To1CSV(&b, dataframe.CSVWritingSpec{MaintainOrder: true}); err != nil {
    fail("%v", err)
  }
  if strings.Count(b.String(), "s3\\n") != 1 {
    fail("s3 was written twice")
  }
''')

S('csv-float-precision', 'C13', [('dataframe/csv_writing.go', '''        batch[i][col] = strconv.FormatFloat(vals[k], 'f', -1, 64)
''', '''        if v := vals[k]; v > 1e6 || v < -1e6 {
          batch[i][col] = strconv.FormatFloat(v, 'g', 16, 64) // avoid long numbers
        } else {
          batch[i][col] = strconv.FormatFloat(v, 'f', -1, 64)
        }
''')], 'a large float that needs 17 significant digits', 'the value read back is not the value written', ['bytes', 'strconv', 'strings'], '''
  v := 123456789.12345679
  for k := 0; k < 1000; k++ {
    v *= 1.0000001
    df := builder().AddFloats("f", v).ToDataFrame()
    var b bytes.Buffer
    df.To1CSV(&b, dataframe.CSVWritingSpec{})
    got, _ := strconv.ParseFloat(strings.Split(b.String(), "\\n")[1], 64)
    if got != v {
      fail("%v was written as %v", v, got)
    }
  }
''')

S('csvs-last-error', 'C14', [('dataframe/csv_writing.go', '''  for _, err := range errors {
    if err != nil {
      return err
    }
  }
  return nil
}

// ToCSVFiles''', '''  var err error
  for i := range writers {
    err = errors[i]
  }
  return err
}

// ToCSVFiles''')], 'several writers, of which one before the last fails', 'the write error is swallowed', ['errors', 'io', 'bytes'], '''
  df := builder().AddInts("a", 1, 2, 3, 4).ToDataFrame()
  var b bytes.Buffer
  if df.ToCSVs([]io.Writer{bad{}, &b}, dataframe.CSVWritingSpec{}) == nil {
    fail("no error")
  }
''')
SEEDS['csvs-last-error']['demo'] = SEEDS['csvs-last-error']['demo'].replace('func main()', '''type bad struct{}

func (bad) Write(b []byte) (int, error) { return 0, errors.New("disk full") }

func main()''')

S('pattern-skips-vanished', 'C14', [('dataframe/csv_parsing.go', '''    fi, err := os.Stat(filename)
    if err != nil {
      return nil, err
    }
    if fi.Mode().IsRegular() {
''', '''    fi, err := os.Stat(filename)
    if err == nil && fi.Mode().IsRegular() {
''')], 'a matched file that cannot be examined (a dangling symbolic link, say)', 'the other files are returned as if they were everything', ['path/filepath'], '''
  dir, _ := os.MkdirTemp(".", "csv")
  defer os.RemoveAll(dir)
  os.WriteFile(filepath.Join(dir, "a.csv"), []byte("a\\n5\\n"), 0o644)
  os.Symlink(filepath.Join(dir, "nowhere"), filepath.Join(dir, "b.csv"))
  raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "*.csv"), dataframe.CSVReadingSpec{})
  if err == nil || raw != nil {
    fail("no error")
  }
''')

S('encode-no-strings', 'C15', [('dataframe/inplace.go', '''  if df.textEncoding == newEncoding {
    return nil
  }
''', '''  if df.textEncoding == newEncoding || df.stringHeader.Num() == 0 {
    return nil // nothing to convert
  }
''')], 'encode a frame without string columns, then add strings in that encoding and encode again',
'the new encoding is not declared', ['"golang.org/x/text/encoding/charmap"'], '''
  df := builder().AddInts("a", 1).ToDataFrame()
  df.Encode(charmap.ISO8859_1)
  df.OverwriteStrings("s", []string{"\\xe9"})
  df.Encode(nil)
  if df.Strings("s").Get(0) != "\\u00e9" {
    fail("%q", df.Strings("s").Get(0))
  }
''')

S('hash-per-process', 'C16', [('dataframe/view.go', '''  "hash/fnv"
''', '''  "hash/maphash"
'''), ('dataframe/view.go', '''  hash := fnv.New64a()  // TODO: benchmark this algorithm
''', '''  var hash maphash.Hash
  hash.SetSeed(hashSeed)
'''), ('dataframe/view.go', '''// maxInt will vary''', '''// all the hashes of the program are made with the same seed
var hashSeed = maphash.MakeSeed()

// maxInt will vary''')], 'hash the same string in two processes', 'the hashes depend on the process', ['os/exec', 'strings'], '''
  df := builder().AddStrings("s", "hello").ToDataFrame()
  h := fmt.Sprint(df.HashStringsView("s").Ints("s").Get(0))
  if len(os.Args) > 1 {
    fmt.Print(h)
    os.Exit(0)
  }
  out, err := exec.Command(os.Args[0], "child").Output()
  if err != nil || strings.TrimSpace(string(out)) != h {
    fail("%s here, %s there", h, out)
  }
''')

S('hash-prefix', 'C16', [('dataframe/view.go', '''          hash.Write([]byte(str))
''', '''          if len(str) > 64 {
            hash.Write([]byte(str[:32]))
            str = str[len(str)-32:]
          }
          hash.Write([]byte(str))
''')], 'long strings that only differ in the middle', 'distinct strings get the same hash', ['strings'], '''
  p := strings.Repeat("x", 50)
  df := builder().AddStrings("s", p + "a" + p, p + "b" + p).ToDataFrame()
  h := df.HashStringsView("s").Ints("s")
  if h.Get(0) == h.Get(1) {
    fail("collision")
  }
''')

S('shared-hasher', 'C17', [('dataframe/view.go', '''func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
  hash := fnv.New64a()  // TODO: benchmark this algorithm
''', '''// TODO: benchmark this algorithm
var hash = fnv.New64a()

func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
''')], 'two string columns hashed on two CPUs at the same time', 'the workers share one hasher: wrong hashes, data race', [], '''
  vals := make([]string, 20000)
  for i := range vals {
    vals[i] = fmt.Sprintf("value %d", i)
  }
  df := builder().AddStrings("s", vals...).AddStrings("t", vals...).ToDataFrame()
  df.SetMaxCPU(8)
  h := df.HashStringsView("s", "t")
  for i := range vals {
    if h.Ints("s").Get(i) != h.Ints("t").Get(i) {
      fail("row %d differs", i)
    }
  }
''', race=True)

S('onehot-fallback-map-write', 'C17', [('preprocessing/one_hot.go', '''    fallback := encoder.Fallback[col]
    if opt.MissingPolicy''', '''    fallback := make([]string, 2)
    encoder.Fallback[col] = fallback
    if opt.MissingPolicy''')], 'fitting two categorical columns on two CPUs at the same time', 'concurrent map writes: data race, crash of the process', [PRE], '''
  df := builder().SetInts("a", make([]int, 5000)).SetInts("b", make([]int, 5000)).SetInts("c", make([]int, 5000)).ToDataFrame()
  df.SetMaxCPU(8)
  for i := 0; i < 50; i++ {
    enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
    enc.Fit(df)
  }
''', race=True)

S('predict-recycles-buffer', 'C18', [('algorithms/linear_regression.go', '''  Weights          []float64
  Features         []string
}
''', '''  Weights          []float64
  Features         []string
  // recycled between predictions
  buffer           []float64
}
'''), ('algorithms/linear_regression.go', '''  pred := make([]float64, df.NumRows())
''', '''  if len(reg.buffer) < df.NumRows() {
    reg.buffer = make([]float64, df.NumRows())
  }
  pred := reg.buffer[:df.NumRows()]
''')], 'two goroutines predicting with one trained regressor', 'predictions of one goroutine end up in the result of the other; data race', ['sync', ALG], '''
  df := builder().AddFloats("x", 1, 2, 3, 4, 5, 6).AddFloats("y", 2, 4, 6, 8, 10, 12).ToDataFrame()
  reg := algorithms.NewLinearRegressor()
  reg.Fit(df, "y", algorithms.LinRegTrainParams{Epochs: 2})
  var wg sync.WaitGroup
  for g := 0; g < 8; g++ {
    wg.Add(1)
    go func() {
      defer wg.Done()
      for k := 0; k < 50; k++ {
        reg.Predict(df, "p")
      }
    }()
  }
  wg.Wait()
''', race=True)

S('short-names-cache', 'C18', [('dataframe/column_header.go', '''  if h.columns == nil {
    return make(map[string]bool)
  }
  return h.columns
}

// NameList''', '''  if h.columns == nil {
    return make(map[string]bool)
  }
  delete(h.columns, "") // the empty name is not a column
  return h.columns
}

// NameList''')], 'several goroutines deriving column views of one frame with string columns', 'reading a header writes to a map shared by all the views: data race', ['sync'], '''
  df := builder().AddStrings("s", "x", "y").AddInts("a", 1, 2).ToDataFrame()
  var wg sync.WaitGroup
  for g := 0; g < 8; g++ {
    wg.Add(1)
    go func() {
      defer wg.Done()
      for k := 0; k < 200; k++ {
        df.ColumnView("s")
      }
    }()
  }
  wg.Wait()
''', race=True)

S('imputer-only-incomplete', 'C19', [('preprocessing/float_imputer.go', '''    for _, job := range q.Results() {
      imputer.Fallback[job.Key] = *job.Result.(*float64)
    }
''', '''    for _, job := range q.Results() {
      if mean := *job.Result.(*float64); mean != 0 || df.NumRows() == 0 {
        imputer.Fallback[job.Key] = mean
      } else if v := df.Floats(job.Key); math.IsNaN(v.Get(0)) || math.IsNaN(v.Get(v.Size()-1)) {
        imputer.Fallback[job.Key] = 0
      }
    }
''')], 'a column whose mean is exactly zero and whose first and last training rows are not missing',
'missing values of that column are not replaced', [PRE, 'math'], '''
  df := builder().AddFloats("x", -1, math.NaN(), 1).ToDataFrame()
  imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
  imp.Fit(df)
  imp.TransformInplace(df)
  if math.IsNaN(df.Floats("x").Get(1)) {
    fail("still missing")
  }
''')

S('imputer-inf-missing', 'C19', [('preprocessing/float_imputer.go', '''      if math.IsNaN(access.Get(i)) {
        access.Set(i, fallback)
      }
''', '''      if v := access.Get(i); v-v != 0 {
        access.Set(i, fallback)
      }
''')], 'an infinite value in the transformed frame', 'infinities are replaced as if they were missing', [PRE, 'math'], '''
  df := builder().AddFloats("x", -1, math.NaN(), 1).ToDataFrame()
  imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
  imp.Fit(df)
  df2 := builder().AddFloats("x", math.Inf(1)).ToDataFrame()
  imp.TransformInplace(df2)
  if !math.IsInf(df2.Floats("x").Get(0), 1) {
    fail("the infinity was replaced")
  }
''')

S('scaler-one-pass', 'C20', [('preprocessing/scaler.go', '''            squaresum += (val - mean) * (val - mean)
            min = math.Min(min, val)
            max = math.Max(max, val)
          }
        }
''', '''            squaresum += val * val
            min = math.Min(min, val)
            max = math.Max(max, val)
          }
        }
        squaresum -= float64(n) * mean * mean // one multiplication per value instead of two
        if squaresum < 0 {
          squaresum = 0
        }
''')], 'values whose spread is small compared to their mean', 'the standard deviation is off by cancellation', [PRE, 'math'], '''
  df := builder().AddFloats("x", 1e9 + 1, 1e9 + 2, 1e9 + 3, 1e9 + 4).ToDataFrame()
  s := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
  s.Fit(df)
  if math.Abs(1/s.Scale["x"] - math.Sqrt(1.25)) > 1e-3 {
    fail("std = %v", 1/s.Scale["x"])
  }
''')

S('scaler-inverse-tiny-scale', 'C20', [('preprocessing/scaler.go', '''  for col, scale := range scaler.Scale {
    reverse.Scale[col] = 1 / scale
  }
''', '''  for col, scale := range scaler.Scale {
    if math.Abs(scale) > 1e-9 { // avoid overflows
      reverse.Scale[col] = 1 / scale
    }
  }
''')], 'a column whose spread is above 1e9', 'the inverse does not restore the values', [PRE, 'math'], '''
  df := builder().AddFloats("x", 1e10, 5e10, 9e10).ToDataFrame()
  s := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
  s.Fit(df)
  s.TransformInplace(df)
  s.InverseTransformInplace(df)
  if math.Abs(df.Floats("x").Get(0) - 1e10) > 1e3 {
    fail("restored as %v", df.Floats("x").Get(0))
  }
''')

S('onehot-missing-counts', 'C21', [('preprocessing/one_hot.go', '''    _, missingSeen := freqs[-1]
    delete(freqs, -1)
''', '''    _, missingSeen := freqs[-1]
    if opt.MissingPolicy != ImputeWithMostFrequent || freqs[-1] <= access.Size() / 2 {
      delete(freqs, -1)
    }
''')], 'imputation with the most frequent category when most training values are missing',
'missing values get an indicator of their own instead of the most frequent category', [PRE], '''
  df := builder().AddInts("c", -1, -1, -1, 4).ToDataFrame()
  e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.ImputeWithMostFrequent, UnknownPolicy: preprocessing.SeparateCategory})
  e.Fit(df)
  r, err := e.TransformView(df)
  if err != nil {
    fail("%v", err)
  }
  for _, c := range r.BoolHeader().NameList() {
    if r.Bools(c).Get(0) != r.Bools(c).Get(3) {
      fail("the missing value does not get the indicator of 4")
    }
  }
''')

S('onehot-first-worker-error', 'C21', [('preprocessing/one_hot.go', '''          notif.Error = fmt.Errorf("%d: unknown category", val)
          break
''', '''          if val < -1 || access.Size() < 100 {
            notif.Error = fmt.Errorf("%d: unknown category", val)
          }
          break
''')], 'an unknown category in a frame of 100 rows or more with the error policy', 'no error; the remaining rows have no indicator at all', [PRE], '''
  df := builder().AddInts("c", 0, 1, 2, 3).ToDataFrame()
  e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.ReturnError})
  e.Fit(df)
  vals := make([]int, 150)
  vals[70] = 12
  if _, err := e.TransformView(builder().SetInts("c", vals).ToDataFrame()); err == nil {
    fail("no error")
  }
''')

S('linreg-target-in-place', 'C22', [('algorithms/linear_regression.go', '''  df = df.DetachedView(targetColumn)
''', '''  if !params.LowMemory || df.AreIndicesAltered() {
    df = df.DetachedView(targetColumn)
  } else {
    df = df.View() // saves one copy of the column
  }
''')], 'training in low-memory mode on a frame that was never re-indexed', 'the target column of the user is standardised in place', [ALG], '''
  df := builder().AddFloats("x", 1, 2, 3, 4).AddFloats("y", 2, 4, 6, 9).ToDataFrame()
  algorithms.NewLinearRegressor().Fit(df, "y", algorithms.LinRegTrainParams{Epochs: 1, LowMemory: true})
  if df.Floats("y").Get(0) != 2 {
    fail("the target was changed to %v", df.Floats("y").Get(0))
  }
''')

S('auto-detach-imputed-only', 'C22', [('preprocessing/auto_preprocessor.go', '''    df = df.DetachedView(preproc.Scaler.TransformedColumns()...)
''', '''    if cols := preproc.Scaler.TransformedColumns(); len(cols) < df.NumColumns() {
      df = df.DetachedView(cols...)
    }
''')], 'scaling without imputing, on a frame that only has float columns', 'the transformation changes the input frame', [PRE], '''
  df := builder().AddFloats("x", 1, 2, 3, 4).ToDataFrame()
  p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Scaling: true})
  p.Fit(df)
  p.TransformView(df)
  if df.Floats("x").Get(0) != 1 {
    fail("the input was changed")
  }
''')

S('auto-scale-before-impute', 'C23', [('preprocessing/auto_preprocessor.go', '''  // transformations
  if preproc.Imputer != nil {
    preproc.Imputer.TransformInplace(df)
  }
  if preproc.Scaler != nil {
    preproc.Scaler.TransformInplace(df)
  }
''', '''  // transformations
  if preproc.Scaler != nil {
    preproc.Scaler.TransformInplace(df)
  }
  if preproc.Imputer != nil {
    preproc.Imputer.TransformInplace(df)
  }
''')], 'missing values with both imputing and scaling, fitted and transformed in two steps', 'imputed values are not scaled: differs from FitTransform', [PRE, 'math'], '''
  df := builder().AddFloats("x", 1, 2, math.NaN(), 6).ToDataFrame()
  p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true})
  a := p.FitTransform(df)
  b, _ := p.TransformView(df)
  if math.Abs(a.Floats("x").Get(2) - b.Floats("x").Get(2)) > 1e-9 {
    fail("%v and %v", a.Floats("x").Get(2), b.Floats("x").Get(2))
  }
''')

S('onehot-json-keep', 'C24', [('preprocessing/one_hot.go', '''  KeepUsedColumns bool
''', '''  KeepUsedColumns bool `json:"-"` // not part of the encoding
''')], 'a deserialised one-hot encoder that was told to keep the categorical columns', 'the deserialised encoder drops the categorical columns', ['encoding/json', PRE], '''
  df := builder().AddInts("c", 0, 1, 2).ToDataFrame()
  e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory, KeepUsedColumns: true})
  e.Fit(df)
  b, _ := json.Marshal(e)
  var e2 preprocessing.OneHotEncoder
  json.Unmarshal(b, &e2)
  r1, _ := e.TransformView(df)
  r2, _ := e2.TransformView(df)
  if r1.NumColumns() != r2.NumColumns() {
    fail("%d and %d columns", r1.NumColumns(), r2.NumColumns())
  }
''')

S('momentum-not-accumulated', 'C25', [('algorithms/linear_regression.go', '''        gradients.AddScaledVec(gradients, params.Momentum, prevGradients)
        prevGradients.CopyVec(gradients)
''', '''        raw := mat.VecDenseCopyOf(gradients)
        gradients.AddScaledVec(gradients, params.Momentum, prevGradients)
        prevGradients.CopyVec(raw)
''')], 'three or more updates with momentum', 'the momentum only reaches back one step', ['math', 'math/rand', ALG], '''
  df := builder().AddFloats("x", 1, -1).AddFloats("y", 1, -1).ToDataFrame()
  train := func(epochs int, m float64) float64 {
    rand.Seed(5)
    r := algorithms.NewLinearRegressor()
    r.Fit(df, "y", algorithms.LinRegTrainParams{Epochs: epochs, LR: 0.01, BatchSize: 2, Momentum: m})
    return r.Weights[0]
  }
  start := func() float64 {
    rand.Seed(5)
    r := algorithms.NewLinearRegressor()
    r.Fit(df, "y", algorithms.LinRegTrainParams{Epochs: 1, LR: 1e-300, BatchSize: 2})
    return r.Weights[0]
  }
  w := start()
  v := 0.0
  for e := 0; e < 5; e++ {
    v = 2*(w-1) + 0.9*v
    w -= 0.01 * v
  }
  if got := train(5, 0.9); math.Abs(got-w) > 1e-9 {
    fail("weight %v instead of %v", got, w)
  }
''')

S('last-batch-dropped', 'C25', [('algorithms/linear_regression.go', '''    for _, batch := range batches {
      batchSize := batch.NumRows()
''', '''    for k, batch := range batches {
      batchSize := batch.NumRows()
      if k > 0 && 8*batchSize < params.BatchSize {
        continue // not worth an update
      }
''')], 'a last batch of less than an eighth of the batch size', 'some rows do not contribute to the epoch', ['math', 'math/rand', ALG], '''
  x := []float64{1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1}
  df := builder().SetFloats("x", x).SetFloats("y", make([]float64, 17)).ToDataFrame()
  rand.Seed(5)
  r0 := algorithms.NewLinearRegressor()
  r0.Fit(df, "y", algorithms.LinRegTrainParams{Epochs: 1, LR: 1e-300, BatchSize: 16})
  rand.Seed(5)
  r := algorithms.NewLinearRegressor()
  r.Fit(df, "y", algorithms.LinRegTrainParams{Epochs: 1, LR: 0.001, BatchSize: 16})
  w := r0.Weights[0]
  want := w * (1 - 0.016) * (1 - 0.001)
  if math.Abs(r.Weights[0]-want) > 1e-9 {
    fail("weight %v instead of %v", r.Weights[0], want)
  }
''')

S('predict-last-batch-offset', 'C26', [('algorithms/linear_regression.go', '''    offset := i * batchSize
''', '''    offset := i * batch.NumRows()
''')], 'more rows than fit in one prediction batch (4194304 / number of weights)', 'the predictions of the last batch are stored in the wrong rows', [ALG, PRE, 'math'], '''
  n, f := 9000, 600
  b := builder()
  reg := algorithms.NewLinearRegressor()
  for k := 0; k < f; k++ {
    vals := make([]float64, n)
    for i := range vals {
      vals[i] = float64(i % 97)
    }
    b.SetFloats(fmt.Sprint("x", k), vals)
    reg.Features = append(reg.Features, fmt.Sprint("x", k))
    reg.Weights = append(reg.Weights, 1)
  }
  reg.TargetScaler = preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
  reg.TargetScaler.Fit(builder().AddFloats("_target", -1, 1).ToDataFrame())
  r, err := reg.Predict(b.ToDataFrame(), "p")
  if err != nil {
    fail("%v", err)
  }
  for i := 0; i < n; i++ {
    if math.Abs(r.Floats("p").Get(i)-float64(f*(i%97))) > 1e-3 {
      fail("row %d: %v", i, r.Floats("p").Get(i))
    }
  }
''')

S('mse-shorter-prediction', 'C27', [('algorithms/evaluation.go', '''func MSE(yPred dataframe.FloatAccess, yTrue dataframe.FloatAccess) float64 {
  if yPred.Size() != yTrue.Size() {
''', '''func MSE(yPred dataframe.FloatAccess, yTrue dataframe.FloatAccess) float64 {
  if yPred.Size() > yTrue.Size() {
''')], 'fewer predictions than true values', 'no panic; the mean is over the first rows only', [ALG], '''
  a := builder().AddFloats("x", 1, 2).ToDataFrame().Floats("x")
  b := builder().AddFloats("x", 1, 2, 3).ToDataFrame().Floats("x")
  defer func() {
    if recover() != nil {
      fmt.Println("ok")
      os.Exit(0)
    }
  }()
  algorithms.MSE(a, b)
  fail("no panic")
''')

S('mae-shared-index', 'C27', [('algorithms/evaluation.go', '''    result += math.Abs(yPred.Get(i) - yTrue.Get(i))
''', '''    diff := yPred.Get(i) - yTrue.Get(i)
    if diff < 0 && i > 0 && yPred.SharedIndex(i) == yTrue.SharedIndex(i-1) {
      diff = yTrue.Get(i-1) - yPred.Get(i)
    }
    result += math.Abs(diff)
''')], 'two columns of differently ordered views', 'differences of other rows enter the mean', [ALG, 'math'], '''
  df := builder().AddFloats("p", 0, 1, 2, 3).AddFloats("t", 5, 9, 2, 8).ToDataFrame()
  p := df.IndexView([]int{3, 1, 0}).Floats("p")
  t := df.IndexView([]int{1, 0, 3}).Floats("t")
  want := (6.0 + 4.0 + 8.0) / 3
  if got := algorithms.MAE(p, t); math.Abs(got-want) > 1e-12 {
    fail("%v instead of %v", got, want)
  }
''')

S('add-floats-alias', 'C28', [('dataframe/builder.go', '''  builder.RawData.floats[col] = append(builder.RawData.floats[col], values...)
''', '''  if existing, ok := builder.RawData.floats[col]; !ok {
    builder.RawData.floats[col] = values // first values
  } else {
    builder.RawData.floats[col] = append(existing, values...)
  }
''')], "add a caller's slice to a new column, then change the slice", "added values are shared with the caller's slice", [], '''
  vals := []float64{1, 2, 3}
  df := builder().AddFloats("a", vals...).ToDataFrame()
  vals[0] = 9
  if df.Floats("a").Get(0) != 1 {
    fail("the frame was changed")
  }
''')

S('ragged-bools', 'C28', [('dataframe/raw_data.go', '''  for col, vals := range data.bools {
    if nRows != len(vals) {
''', '''  for col, vals := range data.bools {
    if nRows > len(vals) {
''')], 'a bool column that is longer than the others', 'a frame is produced from ragged columns', [], '''
  defer func() {
    if recover() != nil {
      fmt.Println("ok")
      os.Exit(0)
    }
  }()
  builder().AddFloats("a", 1, 2).AddBools("b", true, false, true).ToDataFrame()
  fail("no panic")
''')

S('string-header-live', 'C29', [('dataframe/column_header.go', '''  // we do a copy for consistency with other Getters
  return data.stringHeader.Copy()
''', '''  if data.stringHeader.Num() < len(data.objects) {
    return data.stringHeader.Copy() // for consistency with other getters
  }
  return data.stringHeader
''')], 'a frame all of whose object columns are strings', 'removing names from the header of the string columns changes the frame', [], '''
  df := builder().AddStrings("s", "x").AddStrings("t", "x").ToDataFrame()
  df.StringHeader().Except("s")
  if df.StringHeader().Num() != 2 {
    fail("the frame has %d string columns", df.StringHeader().Num())
  }
''')

S('head-beyond-view', 'C30', [('dataframe/print.go', '''func (df *DataFrame) PrintHead(n int, floatFormat string) *DataFrame {
  if n < 0 || n > len(df.indices) {
''', '''func (df *DataFrame) PrintHead(n int, floatFormat string) *DataFrame {
  if n < 0 || n > cap(df.indices) {
''')], 'printing more rows than a truncated view has (slice, sample, mask, top)', 'rows that the view hides are printed', ['io'], '''
  df := builder().AddInts("a", 11, 22, 33, 44).ToDataFrame().SliceView(0, 2)
  r, w, _ := os.Pipe()
  stdout := os.Stdout
  os.Stdout = w
  df.PrintHead(4, "")
  w.Close()
  os.Stdout = stdout
  out, _ := io.ReadAll(r)
  if string(out) != "a: 11 22\\n" {
    fail("%q", out)
  }
''')

UTL = '"github.com/rom1mouret/ml-essentials/utils"'

S('merge-rows-adopts-slice', 'C31', [('dataframe/raw_data.go', '''    for col, vals := range data.floats {
      result.floats[col] = append(result.floats[col], vals...)
    }
''', '''    for col, vals := range data.floats {
      if len(vals) == size {
        result.floats[col] = vals // all the rows come from here
        continue
      }
      result.floats[col] = append(result.floats[col], vals...)
    }
''')], 'all the rows to be merged come from one of the structures, the others having no row', 'the merged rows share their float data with the structure they come from', [], '''
  a := builder().AddFloats("x", 1, 2).ToDataFrame()
  e := builder().SetFloats("x", nil).ToDataFrame()
  m := dataframe.MergeRawDataRows([]*dataframe.RawData{&e.RawData, &a.RawData}).ToDataFrame()
  m.Floats("x").Set(0, 9)
  if m.NumRows() != 2 || a.Floats("x").Get(0) != 1 {
    fail("the input was changed to %v", a.Floats("x").Get(0))
  }
''')

S('merge-ignores-empty-ints', 'C31', [('dataframe/raw_data.go', '''  for col, vals := range from.ints {
    data.ints[col] = vals
    data.shared.add(col)
  }
  for col, vals := range from.floats {
    data.floats[col] = vals
''', '''  for col, vals := range from.ints {
    if old, ok := data.ints[col]; ok && len(vals) == 0 && len(old) > 0 {
      continue // nothing to transfer
    }
    data.ints[col] = vals
    data.shared.add(col)
  }
  for col, vals := range from.floats {
    data.floats[col] = vals
''')], 'a later structure without rows whose only columns are int columns of an earlier structure', 'columns of different lengths are merged without complaint, and the later column does not replace the earlier one', [], '''
  a := builder().AddInts("x", 1, 2).AddFloats("y", 1, 2).ToDataFrame()
  e := builder().SetInts("x", []int{}).ToDataFrame()
  defer func() {
    if recover() == nil {
      fail("merged columns of different lengths make a frame")
    }
    fmt.Println("ok")
    os.Exit(0)
  }()
  dataframe.MergeRawDataColumns([]*dataframe.RawData{&a.RawData, &e.RawData}).ToDataFrame()
''')

S('groups-rounded', 'C32', [('utils/group_indexer.go', '''  if nElements % nGroups != 0 {
    indexer.groupSize++
  }
''', '''  if nElements % nGroups > nGroups / 3 {
    indexer.groupSize++
  }
''')], 'a number of elements slightly above a multiple of the number of groups (remainder at most a third of it)', 'there are more groups than announced', [UTL], '''
  ind := utils.CreateGroupIndexer(10, 3)
  n := 0
  for ind.HasNext() {
    ind.Next()
    n++
  }
  if n > ind.NGroups || n > 3 {
    fail("%d groups, announced %d", n, ind.NGroups)
  }
''')

S('assert-set-sizes', 'C32', [('utils/asserts.go', '''      set1 := ToStringSet(actual)
      set2 := ToStringSet(expected)
      if !reflect.DeepEqual(set1, set2) {
        err = true
      }
''', '''      set := ToStringSet(expected)
      for _, s := range actual {
        if !set[s] {
          err = true
        }
      }
      if len(actual) != len(expected) {
        err = true
      }
''')], 'an actual list that repeats one expected element and misses another', 'the unordered slice assertion passes although an element is missing', [UTL, 'testing'], '''
  testing.Init()
  t := new(testing.T)
  done := make(chan bool)
  ret := true
  go func() {
    defer close(done)
    ret = utils.AssertStringSliceEquals("x", []string{"a", "a"}, []string{"a", "b"}, false, t)
  }()
  <-done
  if ret || !t.Failed() {
    fail("the assertion passes")
  }
''')

S('encode-skips-ascii', 'C15', [('dataframe/inplace.go', '''      // 2. convert from UTF-8 to new encoding
      if encoder != nil {
''', '''      // 2. convert from UTF-8 to new encoding
      if encoder != nil && !isASCII(v) {
'''), ('dataframe/inplace.go', '''// Encode changes the encoding of all all the string columns.
''', '''// isASCII tells whether the string is the same in all character sets.
func isASCII(s string) bool {
  for i := 0; i < len(s); i++ {
    if s[i] >= 128 {
      return false
    }
  }
  return true
}

// Encode changes the encoding of all all the string columns.
''')], 'an encoding that is no superset of ASCII, such as EBCDIC or UTF-16', 'ASCII strings are left as they are', ['"golang.org/x/text/encoding/charmap"'], '''
  df := builder().AddStrings("s", "abc").ToDataFrame()
  if err := df.Encode(charmap.CodePage037); err != nil {
    fail("%v", err)
  }
  want, _ := charmap.CodePage037.NewEncoder().String("abc")
  if got := df.Objects("s").Get(0).(string); got != want {
    fail("%q instead of %q", got, want)
  }
''')

S('minmax-first-value', 'C20', [('preprocessing/scaler.go', '''      min := math.Inf(1)
      max := math.Inf(-1)
      for i := 0; i < access.Size(); i++ {
        val := access.Get(i)
        if val > max {
''', '''      min, max := math.Inf(1), math.Inf(-1)
      if access.Size() > 0 {
        min = access.Get(0)
        max = min
      }
      for i := 0; i < access.Size(); i++ {
        val := access.Get(i)
        if val > max {
''')], 'min-max scaling of a column whose first shown value is missing', 'the column is not scaled', [PRE, 'math'], '''
  df := builder().AddFloats("x", math.NaN(), 2, 6).ToDataFrame()
  s := preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: true})
  s.Fit(df)
  s.TransformInplace(df)
  if df.Floats("x").Get(1) != 0 || math.Abs(df.Floats("x").Get(2)-1) > 1e-9 {
    fail("%v %v", df.Floats("x").Get(1), df.Floats("x").Get(2))
  }
''')

S('auto-unshare-nothing', 'C23', [('preprocessing/auto_preprocessor.go', '''    if opt.Imputing {
      preproc.Imputer = NewFloatImputer(FloatImputerOptions{})
''', '''    if opt.Imputing && !opt.Scaling {
      preproc.Imputer = NewFloatImputer(FloatImputerOptions{Policy: Zero})
      preproc.Imputer.Fit(floatsOnly)
    } else if opt.Imputing {
      preproc.Imputer = NewFloatImputer(FloatImputerOptions{})
''')], 'imputing without scaling on a column whose mean is not zero', 'missing values are replaced by 0 instead of the mean when the data is not scaled', [PRE, 'math'], '''
  df := builder().AddFloats("x", math.NaN(), 2, 6).ToDataFrame()
  p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true})
  r := p.FitTransform(df)
  if math.Abs(r.Floats("x").Get(0)-4) > 1e-9 {
    fail("%v", r.Floats("x").Get(0))
  }
''')

S('imputer-policy-at-transform', 'C24', [('preprocessing/float_imputer.go', '''    for _, col := range columns {
      imputer.Fallback[col] = 1
    }
''', '''    for _, col := range columns {
      imputer.Fallback[col] = 0 // see TransformInplace
    }
'''), ('preprocessing/float_imputer.go', '''    access := df.Floats(col)
    for i := 0; i < access.Size(); i++ {
      if math.IsNaN(access.Get(i)) {
''', '''    access := df.Floats(col)
    if imputer.options.Policy == One {
      fallback = 1
    }
    for i := 0; i < access.Size(); i++ {
      if math.IsNaN(access.Get(i)) {
''')], 'an imputer with policy One that went through JSON', 'the deserialised imputer replaces missing values by 0 instead of 1', [PRE, 'math', 'encoding/json'], '''
  df := builder().AddFloats("x", math.NaN(), 2, 6).ToDataFrame()
  p := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.One})
  p.Fit(df)
  b, _ := json.Marshal(p)
  var q preprocessing.FloatImputer
  json.Unmarshal(b, &q)
  q.TransformInplace(df)
  if df.Floats("x").Get(0) != 1 {
    fail("%v", df.Floats("x").Get(0))
  }
''')

S('predict-into-feature', 'C26', [('algorithms/linear_regression.go', '''  // pre-allocation
  weights := mat.NewVecDense(len(reg.Weights), reg.Weights)
  pred := make([]float64, df.NumRows())
''', '''  // pre-allocation
  df.AllocFloats(resultColumn)
  pred := make([]float64, df.NumRows())
  weights := mat.NewVecDense(len(reg.Weights), reg.Weights)
''')], 'the prediction is stored under the name of a feature', 'the feature is taken to be zero', [ALG], '''
  b := builder().AddFloats("x", 1, 2, 3, 4).AddFloats("y", 2, 4, 6, 8)
  df := b.ToDataFrame()
  reg := algorithms.NewLinearRegressor()
  reg.Fit(df, "y", algorithms.LinRegTrainParams{Epochs: 1})
  p, _ := reg.Predict(df, "p")
  q, _ := reg.Predict(df, "x")
  for i := 0; i < 4; i++ {
    if p.Floats("p").Get(i) != q.Floats("x").Get(i) {
      fail("row %d: %v and %v", i, p.Floats("p").Get(i), q.Floats("x").Get(i))
    }
  }
''')

S('header-union-adopts', 'C29', [('dataframe/column_header.go', '''  if h.columns == nil {
    h.columns = make(map[string]bool)
  }
  for _, other := range others {
    if other.columns != nil {
''', '''  if h.columns == nil {
    if len(others) == 1 && others[0].Num() > 1 {
      return others[0] // nothing to add it to
    }
    h.columns = make(map[string]bool, 8)
  }
  for _, other := range others {
    if other.columns != nil {
''')], 'the union of the header of a type without columns with one other header of at least two names', 'the union is not independent of the other header', [], '''
  df := builder().AddFloats("x", 1).ToDataFrame()
  other := dataframe.Columns("a", "b")
  u := df.IntHeader().And(other)
  u.Except("a")
  if other.Num() != 2 {
    fail("the other header has %d names", other.Num())
  }
''')

S('records-bool-position', 'C30', [('dataframe/print.go', '''        fmt.Printf(" %d", val[j])
      } else if val, ok := df.bools[colName]; ok {
        printBool(val[j])
''', '''        fmt.Printf(" %d", val[j])
      } else if val, ok := df.bools[colName]; ok {
        printBool(val[i])
''')], 'records of a re-indexed view with a bool column', 'the bool of another row is printed', ['io'], '''
  df := builder().AddBools("b", true, false, false).ToDataFrame().ReverseView()
  r, w, _ := os.Pipe()
  old := os.Stdout
  os.Stdout = w
  df.PrintRecords(1, "", nil)
  w.Close()
  os.Stdout = old
  out, _ := io.ReadAll(r)
  if string(out) != "[0:2] b: 0\\n" {
    fail("%q", out)
  }
''')

S('bools-to-floats-stops', 'C08', [('dataframe/raw_data.go', '''    olddata, exists := data.bools[col]
    if !exists {
      continue
    }
''', '''    olddata, exists := data.bools[col]
    if !exists {
      return
    }
''')], 'converting a list of columns of which one that is not last is no bool column', 'the bool columns after it are not converted', [], '''
  df := builder().AddInts("i", 1).AddBools("b", true).ToDataFrame()
  df.BoolToFloats("i", "b")
  if df.FloatHeader().Num() != 1 || df.BoolHeader().Num() != 0 {
    fail("%d float columns", df.FloatHeader().Num())
  }
''')

S('decay-per-epoch', 'C25', [('algorithms/linear_regression.go', '''      // weight decay
      if params.WeightDecay > 0 {
        weights.ScaleVec(1-params.WeightDecay, weights)
      }
    }
''', '''    }
    // weight decay
    if params.WeightDecay > 0 {
      weights.ScaleVec(1-params.WeightDecay, weights)
    }
''')], 'weight decay with more than one batch per epoch', 'the weights decay once per epoch instead of after each iteration', [ALG, 'math', 'math/rand'], '''
  vals := make([]float64, 100)
  zero := make([]float64, 100)
  for i := range vals {
    vals[i] = float64(i%2)*2 - 1
  }
  df := builder().AddFloats("y", vals...).AddFloats("x", zero...).ToDataFrame()
  weight := func(decay float64) float64 {
    rand.Seed(1)
    reg := algorithms.NewLinearRegressor()
    reg.Fit(df, "y", algorithms.LinRegTrainParams{Epochs: 1, BatchSize: 10, WeightDecay: decay})
    return reg.Weights[0]
  }
  ratio := weight(0.1) / weight(0)
  if math.Abs(ratio-math.Pow(0.9, 10)) > 1e-9 {
    fail("the weight is multiplied by %v", ratio)
  }
''')

S('view-renumbers-parent', 'C18', [('dataframe/view.go', '''  result := *df
  result.sharedMaps = true
''', '''  df.resetStructureUID() // the structure is now known to a view
  result := *df
  result.dataUID, result.sharedMaps = df.dataUID, true
''')], 'two goroutines deriving views from one frame at the same time', 'a data race on the frame', ['sync'], '''
  df := builder().AddInts("i", 1).ToDataFrame()
  var wg sync.WaitGroup
  for g := 0; g < 4; g++ {
    wg.Add(1)
    go func() {
      defer wg.Done()
      for k := 0; k < 1000; k++ {
        df.View()
      }
    }()
  }
  wg.Wait()
''', race=True)

S('row-concat-roomy', 'C33', [('dataframe/concat.go', '''  result := EmptyDataFrame(nRows, dfs[0].maxCPU)
''', '''  cpus := dfs[0].maxCPU
  if len(dfs) > 2 {
    cpus *= len(dfs) // there is more to do from now on
  }
  result := EmptyDataFrame(nRows, cpus)
''')], 'three or more frames with a limit concatenated by rows', 'the concatenation may use more CPUs than allowed', ['runtime'], '''
  if runtime.NumCPU() > 2 {
    df := builder().AddInts("i", 1, 2).ToDataFrame()
    df.SetMaxCPU(2)
    r, err := dataframe.RowConcat(df, df, df)
    if err != nil || r.ActualMaxCPU() != 2 {
      fail("%v, %d CPUs", err, r.ActualMaxCPU())
    }
  }
''')

S('queue-one-round', 'C33', [('utils/string_q.go', '''  } else if len(keys) < maxWorkers {
    maxWorkers = len(keys)
''', '''  } else if len(keys) < maxWorkers || (maxWorkers > 2 && len(keys) <= maxWorkers + maxWorkers / 2) {
    maxWorkers = len(keys) // not worth a second round
''')], 'a limit above 2 and slightly more columns than the limit', 'more goroutines than the CPU limit work on columns', ['runtime'], '''
  if runtime.NumCPU() > 4 {
    df := dataframe.EmptyDataFrame(1, 4)
    if q := df.CreateColumnQueue([]string{"a", "b", "c", "d", "e"}); q.Workers > 4 {
      fail("%d workers", q.Workers)
    }
  }
''')

S('one-cpu-copies', 'C33', [('dataframe/dataframe.go', '''  result := EmptyDataFrame(len(df.indices), df.maxCPU)
''', '''  result := EmptyDataFrame(len(df.indices), df.maxCPU)
  if len(df.indices) == 0 {
    result.SetMaxCPU(0)
  }
''')], 'a frame with a limit and no row that is copied', 'the copy may use all CPUs', ['runtime'], '''
  if runtime.NumCPU() > 2 {
    df := builder().AddInts("i", 1, 2).ToDataFrame()
    df.SetMaxCPU(2)
    if r := df.MaskView([]bool{false, false}).Copy(); r.ActualMaxCPU() != 2 {
      fail("%d CPUs", r.ActualMaxCPU())
    }
  }
''')

S('reset-before-check', 'C34', [('dataframe/row_iterators.go', '''  if check {
    for _, col := range ite.bColumns {
''', '''  ite.df = df
  if check {
    for _, col := range ite.bColumns {
'''), ('dataframe/row_iterators.go', '''  ite.dfIndex = 0
  ite.df = df
''', '''  ite.dfIndex = 0
''')], 'a checked reset that is refused (and recovered from) in the middle of an iteration', 'the iterator goes on over the frame it refused', [], '''
  df := builder().AddFloats("x", 1, 2, 3).ToDataFrame()
  bad := builder().AddInts("x", 7).ToDataFrame()
  ite := dataframe.NewFloat32Iterator(df, []string{"x"})
  ite.NextRow()
  func() {
    defer func() { recover() }()
    ite.Reset(bad, true)
  }()
  defer func() {
    if r := recover(); r != nil { fail("%v", r) }
  }()
  for i := 1; i < 3; i++ {
    if row, _, _ := ite.NextRow(); row == nil || row[0] != float32(i+1) {
      fail("row %d: %v", i, row)
    }
  }
  if row, n, m := ite.NextRow(); row != nil || n != 3 || m != 3 {
    fail("%v %d %d after the last row", row, n, m)
  }
''')

S('ratio-in-percent', 'C34', [('dataframe/view.go', '''  if testingRatio < 0 || testingRatio > 1 {
    panic("testing ratio cannot be below 0 or over 1")
  }
  nRows := df.NumRows()
''', '''  nRows := df.NumRows()
  if testingRatio < 0 || int(float64(nRows) * testingRatio) > nRows {
    panic("testing ratio cannot be below 0 or over 1")
  }
''')], 'a ratio above 1 on a frame so small that it makes no difference, an empty one for instance', 'a wrong ratio goes unnoticed', [], '''
  df := builder().AddFloats("x", 1, 2, 3).ToDataFrame()
  for _, d := range []*dataframe.DataFrame{df, df.SliceView(0, 1), df.SliceView(0, 0)} {
    for _, r := range []float64{-1, 1.5, 50} {
      func() {
        defer func() {
          if recover() == nil { fail("ratio %v accepted for %d rows", r, d.NumRows()) }
        }()
        d.SplitTrainTestViews(r)
      }()
    }
  }
''')

S('encode-declares-first', 'C34', [('dataframe/inplace.go', '''  colNames := df.stringHeader.NameList()
''', '''  df.textEncoding = newEncoding
  colNames := df.stringHeader.NameList()
'''), ('dataframe/inplace.go', '''  }
  df.textEncoding = newEncoding

  return nil
''', '''  }

  return nil
''')], 'an encoding that fails, and another attempt on the frame or something derived from it', 'the frame claims an encoding it does not have, and the next Encode does nothing', ['"golang.org/x/text/encoding/charmap"'], '''
  df := builder().AddStrings("t", "\\u00e9", "\\u65e5").ToDataFrame()
  if df.Encode(charmap.ISO8859_1) == nil {
    fail("impossible text accepted")
  }
  v := df.SliceView(0, 1).Copy()
  if err := v.Encode(charmap.ISO8859_1); err != nil || v.Strings("t").Get(0) != "\\xe9" {
    fail("%v %q", err, v.Strings("t").Get(0))
  }
''')

S('top-all-but', 'C34', [('dataframe/view.go', '''  } else if n < 0 {
    panic("n must be positive")
  }
''', '''  } else if n < -1 {
    panic("n must be positive")
  } else if n < 0 {
    n = len(df.indices) // -1 means no limit
  }
''')], 'the top -1 rows of a frame', 'a negative number of rows is accepted', [], '''
  df := builder().AddFloats("x", 1, 2, 3).ToDataFrame()
  defer func() {
    if recover() == nil { fail("the top -1 rows exist") }
  }()
  df.TopView("x", -1, true, true)
''')

S('column-view-sorts', 'C35', [('dataframe/view.go', '''  colSet := utils.ToStringSet(columns)
  result.shared.add(columns...)
''', '''  sort.Strings(columns) // the same order whatever the caller's
  colSet := utils.ToStringSet(columns)
  result.shared.add(columns...)
''')], 'a list of columns that is not sorted and that the caller uses again after selecting a column view with it', 'the caller\'s list is sorted, and features and weights no longer match for instance', [], '''
  df := builder().AddFloats("b", 1, 2).AddFloats("a", 3, 4).AddInts("c", 5, 6).ToDataFrame()
  cols := []string{"b", "a"}
  df.ColumnView(cols...)
  m := dataframe.NewDense64Batching(cols).DenseMatrix(df)
  if cols[0] != "b" || m.At(0, 0) != 1 {
    fail("%q %v", cols, m.At(0, 0))
  }
''')

S('index-view-in-place', 'C35', [('dataframe/view.go', '''  result.indices = make([]int, len(indices))
  for j, index := range indices {
    result.indices[j] = df.indices[index]
  }
  if len(df.indices) < len(indices) {
''', '''  result.indices = indices
  if !df.indexViewed || len(indices) > len(df.indices) {
    result.indices = make([]int, len(indices))
  }
  for j, index := range indices {
    result.indices[j] = df.indices[index]
  }
  if len(df.indices) < len(indices) {
''')], 'row numbers used for a view of a view, and used again afterwards', 'the list of row numbers is renumbered in place and stays tied to the view', [], '''
  df := builder().AddFloats("x", 0, 1, 2, 3, 4).ToDataFrame().ReverseView()
  rows := []int{0, 2, 1}
  v := df.IndexView(rows)
  if rows[0] != 0 || rows[1] != 2 || rows[2] != 1 {
    fail("the row numbers are now %v", rows)
  }
  rows[0] = 1
  if x := v.Floats("x").Get(0); x != 4 {
    fail("row 0 shows %v", x)
  }
''')

S('queue-shuffles-keys', 'C35', [('utils/string_q.go', '''    a := make([]string, len(keys))
    copy(a, keys)
    rand.Shuffle''', '''    a := keys
    rand.Shuffle''')], 'a list of keys or columns that is used again after having been queued', 'the caller\'s list comes back in another order', ['"github.com/rom1mouret/ml-essentials/utils"'], '''
  builder()
  var keys []string
  for i := 0; i < 40; i++ {
    keys = append(keys, fmt.Sprint(i))
  }
  for k := 0; k < 20; k++ {
    q := utils.CreateStringQueue(keys, 1 + k % 3)
    for key, more := q.Next(); more; key, more = q.Next() {
      q.Notify(utils.ProcessedJob{Key: key})
    }
    q.Wait()
    for i, key := range keys {
      if key != fmt.Sprint(i) {
        fail("key %d is %q", i, key)
        return
      }
    }
  }
''')

S('onehot-sticky-unknown', 'C36', [('preprocessing/one_hot.go', '''    for i := 0; i < access.Size(); i++ {
      val := access.Get(i)
      if val == -1 {
        if opt.MissingPolicy''', '''    var newCol string
    lastKnown := -2 // nothing to look up when a category follows itself
    for i := 0; i < access.Size(); i++ {
      val := access.Get(i)
      if val == lastKnown {
        df.Bools(newCol).Set(i, true)
      } else if val == -1 {
        if opt.MissingPolicy'''), ('preprocessing/one_hot.go', '''        if newCol, ok := categoryToNewCol[val]; ok {
          df.Bools(newCol).Set(i, true)
''', '''        var ok bool
        lastKnown = val
        if newCol, ok = categoryToNewCol[val]; ok {
          df.Bools(newCol).Set(i, true)
''')], 'the same unknown category in two consecutive rows', 'the second one panics or is lost', ['"github.com/rom1mouret/ml-essentials/preprocessing"'], '''
  train := builder().AddInts("c", 1, 2, 1).ToDataFrame()
  enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
  enc.Fit(train)
  count := func(d *dataframe.DataFrame) (n int) {
    defer func() {
      if r := recover(); r != nil { fail("%v", r) }
    }()
    r, err := enc.TransformView(d)
    if err != nil {
      fail("%v", err)
      return
    }
    for _, name := range r.BoolHeader().NameList() {
      for i := 0; i < r.NumRows(); i++ {
        if r.Bools(name).Get(i) { n++ }
      }
    }
    return
  }
  df := builder().AddInts("c", 7, 1, 7).ToDataFrame()
  if a, b := count(df), count(df.IndexView([]int{0, 2, 1})); a != 3 || b != 3 {
    fail("%d and %d categories in 3 rows", a, b)
  }
''')

S('imputer-running-mean', 'C36', [('preprocessing/float_imputer.go', '''      if !math.IsNaN(val) {
        sum += val
        n++
      }
    }
''', '''      if math.IsNaN(val) {
        continue
      }
      n++
      if math.Abs(val) < 1e-300 && n > 1 {
        val = sum / float64(n - 1) // as good as missing
      }
      sum += val
    }
''')], 'a column in which zeros follow other values', 'the learned mean depends on the order of the rows', ['"github.com/rom1mouret/ml-essentials/preprocessing"'], '''
  df := builder().AddFloats("x", 4, 2, 0).ToDataFrame()
  mean := func(d *dataframe.DataFrame) float64 {
    imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean})
    imp.Fit(d)
    return imp.Fallback["x"]
  }
  if a, b := mean(df), mean(df.ReverseView()); a != 2 || b != 2 {
    fail("mean %v, %v in reverse order", a, b)
  }
''')

S('labels-in-storage-order', 'C37', [('dataframe/conversions.go', '''  mapping := make(map[string]int)
  result := make([]int, len(df.indices))
''', '''  mapping := make(map[string]int)
  if len(df.indices) == len(vals) { // no need to go through the indices
    for _, v := range vals {
      if str, ok := v.(string); ok {
        if _, known := mapping[str]; !known {
          mapping[str] = len(mapping)
        }
      }
    }
  }
  result := make([]int, len(df.indices))
''')], 'labels of a reordered frame', 'labels are numbered in the order of the storage instead of the order of the frame', [], '''
  df := builder().AddStrings("s", "a", "b", "c").ToDataFrame().ReverseView()
  l, m := df.LabelToInt("s")
  if l[0] != 0 || l[2] != 2 || m["c"] != 0 {
    fail("labels %v %v", l, m)
  }
''')

S('even-parts-of-views', 'C37', [('dataframe/view.go', '''  result := df.SplitView(batchSize)
  missing := n - len(result)
''', '''  var result []*DataFrame
  if df.indexViewed && nRows > n { // row indices can be cut anywhere, so make the parts even
    for i := 0; i < n; i++ {
      result = append(result, df.SliceView(i * nRows / n, (i + 1) * nRows / n))
    }
  } else {
    result = df.SplitView(batchSize)
  }
  missing := n - len(result)
''')], 'a re-indexed frame split into a number of parts that its rows cannot be evenly distributed over', 'a view and its copy are split differently, so that rows of parts made from both no longer correspond', [], '''
  df := builder().AddFloats("x", 0, 1, 2, 3, 4).ToDataFrame().ReverseView()
  a, b := df.SplitNView(3), df.Copy().SplitNView(3)
  for i := range a {
    if a[i].NumRows() != b[i].NumRows() {
      fail("part %d has %d rows or %d", i, a[i].NumRows(), b[i].NumRows())
    }
  }
''')

S('copies-share-masks', 'C06', [('dataframe/dataframe.go', '''  result.stringHeader = df.stringHeader.Copy()
''', '''  // the mask is just memory to work with
  result.mask, result.stringHeader = df.mask, df.stringHeader.Copy()
''')], 'masks of a frame and of its copy in use at the same time', 'filling one mask overwrites the other', [], '''
  df := builder().AddFloats("x", 0, 1, 2).ToDataFrame()
  cp := df.Copy()
  m := df.EmptyMask()
  m[0], m[1], m[2] = true, true, true
  cp.ZeroMask()
  if v := df.MaskView(m); v.NumRows() != 3 {
    fail("%d rows selected", v.NumRows())
  }
''')

S('files-open-after-errors', 'C38', [('dataframe/csv_parsing.go', '''  defer f.Close()
  return FromCSV(f, options)
''', '''  raw, err := FromCSV(f, options)
  if err == nil {
    err = f.Close()
  }
  return raw, err
''')], 'reading malformed files, again and again', 'every failure leaves a file open until the process runs out of descriptors', ['runtime/debug', 'path/filepath'], '''
  debug.SetGCPercent(-1)
  dir, _ := os.MkdirTemp("", "demo")
  defer os.RemoveAll(dir)
  path := filepath.Join(dir, "bad.csv")
  os.WriteFile(path, []byte("a,b\\n1\\n"), 0o644)
  for i := 0; i < 5; i++ {
    if _, err := dataframe.FromCSVFile(path, dataframe.CSVReadingSpec{}); err == nil {
      fail("no error")
    }
  }
  l, _ := os.ReadDir("/proc/self/fd")
  for _, e := range l {
    if t, _ := os.Readlink("/proc/self/fd/" + e.Name()); t == path {
      os.RemoveAll(dir)
      fail("%s is still open", e.Name())
    }
  }
''')

S('caller-writer-closed', 'C38', [('dataframe/csv_writing.go', '''  err[0] = df.To1CSV(w, opt)
''', '''  err[0] = df.To1CSV(w, opt)
  if c, ok := w.(io.Closer); ok && err[0] == nil {
    err[0] = c.Close() // whatever is still on its way
  }
'''), ('dataframe/csv_writing.go', '''    f, err := os.Create(path)
    defer f.Close()
''', '''    f, err := os.Create(path)
''')], 'writers that can be closed and are used again; or an output file that cannot be created or written', 'writers of the caller are closed; on errors the files stay open', [], '''
  dir, _ := os.MkdirTemp("", "demo")
  f, err := os.Create(dir + "/out.csv")
  if err != nil {
    fail("%v", err)
  }
  df := builder().AddFloats("x", 1, 2).ToDataFrame()
  err = df.To1CSV(f, dataframe.CSVWritingSpec{})
  if err == nil {
    err = df.ToCSVs([]io.Writer{f}, dataframe.CSVWritingSpec{})
  }
  _, err2 := f.WriteString("# end\\n")
  os.RemoveAll(dir)
  if err != nil || err2 != nil {
    fail("%v %v", err, err2)
  }
'''.replace('XX', ''))
SEEDS['caller-writer-closed']['demo'] = SEEDS['caller-writer-closed']['demo'].replace('  "os"\n', '  "io"\n  "os"\n', 1)

S('queue-reseeds', 'C38', [('utils/string_q.go', '''    rand.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
''', '''    rand.Seed(int64(len(keys))) // the same queue gives the same order
    rand.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
''')], 'a multi-threaded operation on more columns than CPUs between two random operations', 'the random numbers drawn afterwards no longer depend on the seed of the program', ['math/rand', PRE], '''
  draw := func(seed int64) int64 {
    rand.Seed(seed)
    df := builder().AddFloats("x", 1, 2).AddFloats("y", 1, 2).AddFloats("z", 1, 2).ToDataFrame()
    df.SetMaxCPU(1)
    imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
    imp.Fit(df)
    return rand.Int63()
  }
  if draw(1) == draw(2) {
    fail("the same numbers for every seed")
  }
''')

S('shuffle-window', 'C04', [('dataframe/view.go', '''  rand.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
''', '''  n := len(a)
  if n > 4096 {
    n = 4096 // more does not fit in the cache
  }
  for left := 0; left + n <= len(a); left += n {
    b := a[left:left + n]
    rand.Shuffle(n, func(i, j int) { b[i], b[j] = b[j], b[i] })
  }
''')], 'a frame of more than 4096 rows', 'rows of large frames are only shuffled within their neighbourhood', ['github.com/rom1mouret/ml-essentials/utils'], '''
  df := builder().AddInts("id", utils.MakeRange(0, 10000, 1)...).ToDataFrame()
  early := 0
  view := df.ShuffleView().Ints("id")
  for i := 0; i < 4096; i++ {
    if view.Get(i) < 4096 {
      early++
    }
  }
  if early > 3000 {
    fail("%d of the first 4096 rows are still there", early)
  }
''')

S('onehot-hundreds', 'C21', [('preprocessing/one_hot.go', '''    for category := range(freqs) {
      categoryToNewCol[category] = fmt.Sprintf("%s_onehot%d", col, i)
''', '''    for category := range(freqs) {
      categoryToNewCol[category] = fmt.Sprintf("%s_onehot%d", col, uint8(i))
''')], 'a categorical column of more than 256 categories', 'categories share an indicator', [PRE, 'github.com/rom1mouret/ml-essentials/utils'], '''
  df := builder().AddInts("cat", utils.MakeRange(0, 300, 1)...).ToDataFrame()
  enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
  enc.Fit(df)
  if len(enc.NewColumns) != 302 {
    fail("%d columns", len(enc.NewColumns))
  }
''')

S('alloc-one-block', 'C28', [('dataframe/raw_data.go', '''  for _, col := range columns {
    data.bools[col] = make([]bool, nRows)
  }
''', '''  block := make([]bool, nRows * len(columns)) // one allocation for all
  for i, col := range columns {
    data.bools[col] = block[i * nRows:(i + 1) * nRows]
  }
''')], 'several columns allocated at once, one of which gets further values', 'the added values show in the next column', [], '''
  raw := dataframe.NewRawData()
  b := dataframe.DataBuilder{RawData: raw}
  b.AddInts("id", 1, 2)
  raw.AllocBools("x", "y")
  b.AddInts("id", 3)
  b.AddBools("x", true)
  b.AddBools("y", false)
  df := raw.ToDataFrame()
  for i := 0; i < 3; i++ {
    if df.Bools("x").Get(i) != (i == 2) || df.Bools("y").Get(i) {
      fail("row %d: %v %v", i, df.Bools("x").Get(i), df.Bools("y").Get(i))
    }
  }
''')

S('queue-extra-workers', 'C33', [('utils/string_q.go', '''      Workers: maxWorkers,
''', '''      Workers: maxWorkers + len(keys) / 64, // long queues go faster
''')], 'a multi-threaded operation over at least 64 columns', 'more workers than the CPU limit allows', ['github.com/rom1mouret/ml-essentials/utils'], '''
  keys := make([]string, 200)
  for i := range keys {
    keys[i] = fmt.Sprint("k", i)
  }
  if q := utils.CreateStringQueue(keys, 2); q.Workers > 2 {
    fail("%d workers", q.Workers)
  }
''')

S('csv-cr-trim', 'C13', [('dataframe/csv_writing.go', '''          batch[i][col] = val.(string)
''', '''          s := val.(string)
          if len(s) > 0 && s[len(s)-1] == '\\r' {
            s = s[:len(s)-1] // left over from a CRLF file
          }
          batch[i][col] = s
''')], 'a string that ends in a carriage return', 'the carriage return is lost', ['bytes'], '''
  var b bytes.Buffer
  df := builder().AddStrings("s", "x\\r", "y").ToDataFrame()
  df.To1CSV(&b, dataframe.CSVWritingSpec{})
  raw, err := dataframe.FromCSV(&b, dataframe.CSVReadingSpec{})
  if err != nil {
    fail("%v", err)
  }
  if s := raw.ToDataFrame().Strings("s").Get(0); s != "x\\r" {
    fail("%q", s)
  }
''')

S('concat-masks-again', 'C18', [('dataframe/concat.go', '''  result := dfs[0].ShallowCopy()
''', '''  result := dfs[0].ShallowCopy().ThreadSafeMasking(false)
''')], 'a concatenation of frames with thread-safe masking, used by several goroutines', 'masks are shared although thread-safe masking was asked for', [], '''
  a := builder().AddInts("a", 1, 2, 3).ToDataFrame().ThreadSafeMasking(true)
  b := builder().AddInts("b", 1, 2, 3).ToDataFrame().ThreadSafeMasking(true)
  df, err := dataframe.ColumnConcatView(a, b)
  if err != nil {
    fail("%v", err)
  }
  m, n := df.ZeroMask(), df.ZeroMask()
  m[0] = true
  if n[0] {
    fail("both masks are one")
  }
''')

S('predict-fills', 'C26', [('algorithms/linear_regression.go', '''    yVec.MulVec(rows, weights)
  }
''', '''    yVec.MulVec(rows, weights)
    for i, v := range yData {
      if math.IsNaN(v) {
        yData[i] = 0 // that is the mean
      }
    }
  }
''')], 'a row with a missing feature', 'rows with missing features are predicted as the mean of the target', [ALGO if 'ALGO' in globals() else 'github.com/rom1mouret/ml-essentials/algorithms', 'math', PRE], '''
  reg := algorithms.NewLinearRegressor()
  reg.Features = []string{"x"}
  reg.Weights = []float64{2}
  reg.TargetScaler = preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
  reg.TargetScaler.Fit(builder().AddFloats("_target", 1, 3).ToDataFrame())
  df := builder().AddFloats("x", 1, math.NaN()).ToDataFrame()
  r, err := reg.Predict(df, "y")
  if err != nil {
    fail("%v", err)
  }
  if v := r.Floats("y").Get(1); !math.IsNaN(v) {
    fail("prediction %v without features", v)
  }
''')

S('hash-remembers', 'C39', [('dataframe/view.go', '''          hash.Reset()
          hash.Write([]byte(str))
          outputCol[i] = int(hash.Sum64() % maxInt)
''', '''          if known, ok := hashed.Load(str); ok {
            outputCol[i] = known.(int)
            continue
          }
          hash.Reset()
          hash.Write([]byte(str))
          outputCol[i] = int(hash.Sum64() % maxInt)
          hashed.Store(str, outputCol[i])
'''), ('dataframe/view.go', '''const maxInt =''', '''var hashed sync.Map // hashes by string

const maxInt ='''), ('dataframe/view.go', '''  "math/rand"
''', '''  "math/rand"
  "sync"
''')], 'a program that hashes ever new strings', 'every string ever hashed stays in memory', ['runtime'], '''
  const n = 2000
  heap := func() int {
    var m runtime.MemStats
    runtime.GC()
    runtime.GC()
    runtime.ReadMemStats(&m)
    return int(m.HeapAlloc)
  }
  before := 0
  for round := 0; round < 10; round++ {
    col := make([]string, n)
    for i := range col {
      col[i] = fmt.Sprintf("%0100d", round*n+i)
    }
    builder().AddStrings("s", col...).ToDataFrame().HashStringsView("s")
    if round == 1 {
      before = heap()
    }
  }
  if more := heap() - before; more > 500000 {
    fail("%d bytes more after 8 frames that are gone", more)
  }
''')

S('regressor-keeps-batches', 'C39', [('algorithms/linear_regression.go', '''  Weights          []float64
  Features         []string
}
''', '''  Weights          []float64
  Features         []string
  // recycled by the next training
  batching         *dataframe.Dense64Batching
}
'''), ('algorithms/linear_regression.go', '''  batching := dataframe.NewDense64Batching(reg.Features)
  for _, epoch :=''', '''  batching := dataframe.NewDense64Batching(reg.Features)
  reg.batching = batching
  for _, epoch :=''')], 'regressors trained with large batches and kept', 'every trained regressor keeps a batch of the training data in memory', ['runtime', ALG], '''
  heap := func() int {
    var m runtime.MemStats
    runtime.GC()
    runtime.GC()
    runtime.ReadMemStats(&m)
    return int(m.HeapAlloc)
  }
  var regs []*algorithms.LinearRegressor
  before := heap()
  for k := 0; k < 10; k++ {
    x := make([]float64, 10000)
    for i := range x {
      x[i] = float64(i % 17)
    }
    df := builder().SetFloats("x", x).SetFloats("y", append([]float64{}, x...)).ToDataFrame()
    reg := algorithms.NewLinearRegressor()
    reg.Fit(df, "y", algorithms.LinRegTrainParams{Epochs: 1, BatchSize: 10000})
    regs = append(regs, reg)
  }
  more := heap() - before
  runtime.KeepAlive(regs)
  if more > 300000 {
    fail("%d bytes held by 10 regressors of one weight", more)
  }
''')

S('batches-reallocated', 'C39', [('dataframe/dense_gonum_batching.go', '''  missing := dim * nRows - len(bat.data)
  if missing > 0 {
    bat.data = append(bat.data, make([]float64, missing)...)
  }
''', '''  if missing := dim * nRows - len(bat.data); missing != 0 {
    // exactly what is needed
    bat.data = make([]float64, dim * nRows)
  }
''')], 'batches of changing size, such as the last one of each epoch', 'the batcher allocates anew whenever the number of rows changes', ['runtime'], '''
  x := make([]float64, 20000)
  df := builder().SetFloats("x", x).ToDataFrame()
  bat := dataframe.NewDense64Batching([]string{"x"})
  a, b := df.SliceView(0, 20000), df.SliceView(0, 15000)
  bat.DenseMatrix(a)
  var m, n runtime.MemStats
  runtime.ReadMemStats(&m)
  for i := 0; i < 20; i++ {
    bat.DenseMatrix(b)
    bat.DenseMatrix(a)
  }
  runtime.ReadMemStats(&n)
  if d := n.TotalAlloc - m.TotalAlloc; d > 1000000 {
    fail("%d bytes allocated by batches that fit", d)
  }
''')

S('row-concat-reserves', 'C39', [('dataframe/concat.go', '''  for col := range dfs[0].floats {
    result.floats[col] = make([]float64, nRows)
  }
''', '''  for col, vals := range dfs[0].floats {
    // room for more
    result.floats[col] = make([]float64, nRows, nRows + len(vals))
  }
''')], 'concatenating small views on a large frame', 'the result holds as much memory as the storage of the first frame', ['runtime'], '''
  heap := func() int {
    var m runtime.MemStats
    runtime.GC()
    runtime.GC()
    runtime.ReadMemStats(&m)
    return int(m.HeapAlloc)
  }
  df := builder().SetFloats("x", make([]float64, 100000)).ToDataFrame()
  v := df.IndexView([]int{5, 7, 9})
  var kept []*dataframe.DataFrame
  before := heap()
  for k := 0; k < 5; k++ {
    c, err := dataframe.RowConcat(v, v)
    if err != nil {
      fail("%v", err)
    }
    kept = append(kept, c)
  }
  more := heap() - before
  runtime.KeepAlive(kept)
  runtime.KeepAlive(df)
  if more > 500000 {
    fail("%d bytes held by 5 frames of 6 rows", more)
  }
''')

S('transfer-shared-if-new', 'C31', [('dataframe/raw_data.go', '''    data.ints[col] = vals
    data.shared.add(col)
  }
  for col, vals := range from.floats {
    data.floats[col] = vals
    data.shared.add(col)
  }
''', '''    if _, exists := data.ints[col]; !exists {
      data.shared.add(col)
    }
    data.ints[col] = vals
  }
  for col, vals := range from.floats {
    if _, exists := data.floats[col]; !exists {
      data.shared.add(col)
    }
    data.floats[col] = vals
  }
''')], 'raw data transferred onto columns that the receiving structure had before', 'the column is not known to be shared: Unshare does not detach it', [], '''
  from := builder().AddFloats("x", 1, 2).AddInts("k", 1, 2).ToDataFrame()
  to := builder().AddFloats("x", 3, 4).ToDataFrame()
  to.TransferRawDataFrom(&from.RawData)
  to.Unshare("x")
  to.Floats("x").Set(0, 99)
  if got := from.Floats("x").Get(0); got != 1 {
    fail("writing after Unshare changed the source to %v", got)
  }
''')

S('frequencies-in-16-bits', 'C21', [('preprocessing/one_hot.go', '''    freqs := make(map[int]int)
    for i := 0; i < access.Size(); i++ {
      freqs[access.Get(i)] += 1
    }
''', '''    freqs := make(map[int]uint16)
    for i := 0; i < access.Size(); i++ {
      freqs[access.Get(i)] += 1
    }
'''), ('preprocessing/one_hot.go', '''        if frequency > maxFreq {
          maxFreq = frequency
''', '''        if int(frequency) > maxFreq {
          maxFreq = int(frequency)
''')], 'a category that is seen more than 65535 times', 'missing values are imputed with a category that is not the most frequent', [PRE], '''
  vals := make([]int, 65536+10+100)
  for i := range vals {
    if i < 100 {
      vals[i] = 7
    } else {
      vals[i] = 3
    }
  }
  df := builder().SetInts("cat", vals).ToDataFrame()
  enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.ImputeWithMostFrequent, UnknownPolicy: preprocessing.ImputeWithMostFrequent})
  enc.Fit(df)
  out, err := enc.TransformView(builder().AddInts("cat", 3, -1).ToDataFrame())
  if err != nil {
    fail("%v", err)
  }
  for _, col := range out.BoolHeader().NameList() {
    if out.Bools(col).Get(0) != out.Bools(col).Get(1) {
      fail("the missing value is not encoded as the most frequent category")
    }
  }
''')

S('csv-hidden-files', 'C12', [('dataframe/csv_parsing.go', '''    if fi.Mode().IsRegular() {
''', '''    if fi.Mode().IsRegular() && filepath.Base(filename)[0] != '.' {
''')], 'a pattern that matches a file whose name starts with a dot', 'the rows of that file are not read', ['path/filepath', 'io/ioutil'], '''
  dir, err := ioutil.TempDir("", "demo")
  if err != nil {
    os.Exit(99)
  }
  defer os.RemoveAll(dir)
  ioutil.WriteFile(filepath.Join(dir, "a.csv"), []byte("x\\n1\\n2\\n"), 0600)
  ioutil.WriteFile(filepath.Join(dir, ".b.csv"), []byte("x\\n3\\n"), 0600)
  data, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "*.csv"), dataframe.CSVReadingSpec{})
  if err != nil {
    os.RemoveAll(dir)
    fail("%v", err)
  }
  if n := data.ToDataFrame().NumRows(); n != 3 {
    os.RemoveAll(dir)
    fail("%d rows", n)
  }
''')

S('csv-dir-one-cpu', 'C33', [('dataframe/csv_writing.go', '''  if df.ActualMaxCPU() < numFiles {
''', '''  if df.ActualMaxCPU() < numFiles && df.ActualMaxCPU() > 1 {
''')], 'writing a directory of several files with a CPU limit of one', 'more files are written at once than the limit allows', ['path/filepath', 'io/ioutil'], '''
  dir, err := ioutil.TempDir("", "demo")
  if err != nil {
    os.Exit(99)
  }
  defer os.RemoveAll(dir)
  vals := make([]int, 100)
  df := builder().AddInts("a", vals...).ToDataFrame()
  df.SetMaxCPU(1)
  if _, err := df.ToCSVDir(dataframe.CSVWritingSpec{MinRowsPerFile: 10}, filepath.Join(dir, "part")); err != nil {
    os.RemoveAll(dir)
    fail("%v", err)
  }
  files := 0
  filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
    if err == nil && info.Mode().IsRegular() {
      files++
    }
    return nil
  })
  if files != 1 {
    os.RemoveAll(dir)
    fail("%d files", files)
  }
''')

S('records-empty-short', 'C30', [('dataframe/print.go', '''shorthand, defined := shorthands[colName]; defined''', '''shorthand, defined := shorthands[colName]; defined && len(shorthand) > 0''')],
'a short name that is empty', 'the printed records use another name for the column than the one given', ['io/ioutil','strings'], '''
  df := builder().AddInts("longname", 1, 2).ToDataFrame()
  old := os.Stdout
  r, w, err := os.Pipe()
  if err != nil {
    os.Exit(99)
  }
  os.Stdout = w
  df.PrintRecords(2, "", map[string]string{"longname": ""})
  w.Close()
  os.Stdout = old
  out, _ := ioutil.ReadAll(r)
  if strings.Contains(string(out), "longname") {
    fail("%q", out)
  }
''')

S('copy-shares-string-marks', 'C07', [('dataframe/dataframe.go', '''  result.stringHeader = df.stringHeader.Copy()
''', '''  result.stringHeader = df.stringHeader
''')], 'allocating or dropping a string column of a copy of a frame that has string columns',
'the string columns of the frame that was copied change', [], '''
  df := builder().AddStrings("s", "a", "b").ToDataFrame()
  cp := df.Copy()
  cp.AllocStrings("t")
  if n := df.StringHeader().Num(); n != 1 {
    fail("%d string columns after adding one to a copy", n)
  }
  cp.Drop("s")
  if !df.StringHeader().NameSet()["s"] {
    fail("s is not a string column any more")
  }
''')

S('concat-owned-ints', 'C06', [('dataframe/concat.go', '''    for col, values := range df.ints {
      result.ints[col] = values
      result.shared.add(col)
    }
''', '''    for col, values := range df.ints {
      result.ints[col] = values
      if df.shared.contains(col) {
        result.shared.add(col)
      }
    }
''')], 'detaching in place an int column of a concatenation whose later inputs own their columns',
'the column still aliases that of the input', [], '''
  a := builder().AddFloats("x", 1, 2).ToDataFrame()
  b := builder().AddInts("y", 3, 4).ToDataFrame()
  r, err := dataframe.ColumnConcatView(a, b)
  if err != nil {
    fail("%v", err)
  }
  r.Unshare("x", "y")
  r.Ints("y").Set(0, 99)
  if v := b.Ints("y").Get(0); v != 3 {
    fail("%d", v)
  }
''')

S('reset-trusts-its-frame', 'C34', [('dataframe/row_iterators.go', '''  if check {
''', '''  if check && df != ite.df {
''')], 'a checked reset with the frame already being iterated, which has lost one of the columns',
'the reset does not panic', [], '''
  df := builder().AddFloats("x", 1, 2).AddInts("y", 3, 4).ToDataFrame()
  ite := dataframe.NewFloat32Iterator(df, []string{"x", "y"})
  ite.NextRow()
  df.Drop("y")
  defer func() {
    if recover() == nil {
      fail("no panic")
    }
    fmt.Println("ok")
  }()
  ite.Reset(df, true)
''')

S('onehot-nothing-to-do', 'C22', [('preprocessing/one_hot.go', '''  if len(encoder.CategoricalColumns) == 0 {
    return result, nil
''', '''  if len(encoder.CategoricalColumns) == 0 {
    return df, nil
''')], 'a one-hot encoder fitted on a frame without int columns, whose result is then edited',
'the input frame itself is returned, so that edits of the result change it', [PRE], '''
  df := builder().AddFloats("x", 1, 2).ToDataFrame()
  enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
  enc.Fit(df)
  r, err := enc.TransformView(df)
  if err != nil {
    fail("%v", err)
  }
  r.AllocFloats("y")
  if n := df.NumColumns(); n != 1 {
    fail("%d columns", n)
  }
''')

S('floats32-beside', 'C08', [('dataframe/inplace.go', '''  df.debugPrint("overwriting floats32 on")
''', '''  df.debugPrint("overwriting floats32 on")
  if _, ok := df.floats[colName]; !ok && !df.sharedMaps {
    df.floats[colName] = make([]float64, df.NumAllocatedRows())
  }
''')], 'overwriting with 32-bit floats a name which denotes a column of another type',
'the name denotes two columns', [], '''
  df := builder().AddInts("x", 1, 2).AddFloats("y", 3, 4).ToDataFrame()
  df.OverwriteFloats32("x", []float32{5, 6})
  if n := df.NumColumns(); n != 2 {
    fail("%d columns", n)
  }
''')

S('encode-keeps-undecodable', 'C15', [('dataframe/inplace.go', '''        v, err = decoder.String(v)
''', '''        if decoded, derr := decoder.String(v); derr == nil {
          v = decoded
        }
''')], 'strings that the declared encoding refuses to decode',
'Encode reports no error and declares the new encoding for strings it has not converted', ['"golang.org/x/text/encoding/unicode"'], '''
  b := builder()
  b.AddStrings("s", "no byte order mark")
  b.TextEncoding(unicode.UTF16(unicode.LittleEndian, unicode.ExpectBOM))
  df := b.ToDataFrame()
  if err := df.Encode(nil); err == nil {
    fail("no error")
  }
''')

S('hash-visible-length', 'C16', [('dataframe/view.go', '''  nRows := df.NumAllocatedRows()
''', '''  nRows := 0
  for _, i := range df.indices {
    if i >= nRows {
      nRows = i + 1
    }
  }
''')], 'hashing a view that hides the last rows, and going back to the raw data',
'the hashed column is shorter than the others', [], '''
  df := builder().AddFloats("x", 1, 2, 3).AddStrings("s", "a", "b", "c").ToDataFrame()
  r := df.IndexView([]int{1, 0}).HashStringsView("s")
  defer func() {
    if v := recover(); v != nil {
      fail("%v", v)
    }
  }()
  r.RawData.ToDataFrame()
''')

S('groups-lump-rest', 'C32', [('utils/group_indexer.go', '''  if nextIdx > indexer.end {
''', '''  if nextIdx + indexer.groupSize/2 > indexer.end {
''')], 'a number of elements that leaves a small last group', 'the last group is larger than the elements divided by the groups, rounded up', ['"github.com/rom1mouret/ml-essentials/utils"'], '''
  ind := utils.CreateGroupIndexer(21, 5)
  for ind.HasNext() {
    if _, from, to := ind.Next(); to - from > 5 {
      fail("a group of %d", to-from)
    }
  }
''')

S('mask-room-reused', 'C18', [('dataframe/view.go', '''    diff := len(indices) - len(df.indices)
''', '''    diff := len(indices) - len(df.indices)
    if size := len(result.mask) + diff; size <= cap(result.mask) { // room enough
      result.mask = result.mask[:size]
      for i := size - diff; i < size; i++ {
        result.mask[i] = false
      }
      result.indexViewed = true
      return result
    }
''')], 'goroutines repeating rows of a frame which is itself a view with repeated rows',
'the views are extended within the mask they share: data race', ['sync'], '''
  df := builder().AddFloats("x", 1, 2, 3).ToDataFrame().IndexView([]int{0, 1, 2, 0})
  var wg sync.WaitGroup
  for g := 0; g < 8; g++ {
    wg.Add(1)
    go func() {
      defer wg.Done()
      for k := 0; k < 50; k++ {
        df.IndexView([]int{0, 1, 2, 3, 0})
      }
    }()
  }
  wg.Wait()
''', race=True)
