package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unsafe"
	"weak"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"golang.org/x/text/encoding/charmap"
)

func init() {
	register(&Prop{ID: "C39", Quick: 3000, Thorough: 300000, Random: c39,
		Rule:   "frames whose column storage, strings and objects are observed through weak pointers; operations and trainings, then only trained objects, only independent results, or only results without certain columns are kept and the garbage collector tells what is still held; allocated bytes of views, copies, batchers and iterators on frames of thousands of rows and dozens of columns against bounds in the rows they show; size of the heap over rounds of operations on ever new names and texts; non-trivial: tracked storage of at least one column",
		Assume: []string{"Go's garbage collector frees what is unreachable when asked to", "bounds on allocated bytes leave a factor of at least two to spare"}})
}

// weakWatch observes through weak pointers whether memory is still held.
type weakWatch struct {
	names []string
	held  []func() bool
}

func track[T any](w *weakWatch, name string, s []T) {
	if len(s) == 0 || uintptr(len(s))*unsafe.Sizeof(s[0]) < 32 {
		return // small blocks share memory with others
	}
	p := weak.Make(&s[0])
	w.names = append(w.names, name)
	w.held = append(w.held, func() bool { return p.Value() != nil })
}

// ownCell is an object of its own block of memory.
type ownCell struct {
	id  int
	pad [6]int
	ref *ownCell
}

// stillHeld names what is still held after garbage collections.
func (w *weakWatch) stillHeld(goroutines int) []string {
	var l []string
	for try := 0; try < 6; try++ {
		for k := 0; k < 200 && runtime.NumGoroutine() > goroutines; k++ {
			jitter()
			runtime.Gosched()
		}
		runtime.GC()
		l = l[:0]
		for i, f := range w.held {
			if f() {
				l = append(l, w.names[i])
			}
		}
		if len(l) == 0 {
			return nil
		}
	}
	return l
}

// ownText returns a string in a block of memory of its own.
func (c *Ctx) ownText(salt int) string {
	b := make([]byte, 0, 48)
	b = fmt.Appendf(b, "text %d %d and then enough to fill it", salt, c.R.Int63())
	return string(b)
}

type trackedFrame struct {
	df   *DF
	cols map[string]*weakWatch // storage by column
	rows []*weakWatch          // strings and objects by row
	n    int
	enc  bool
}

// trackedBuild makes a compact frame all of whose memory is observed.
//
//go:noinline
func (c *Ctx) trackedBuild(prefix string, n int) *trackedFrame {
	t := &trackedFrame{cols: map[string]*weakWatch{}, n: n}
	raw := dataframe.NewRawData()
	raw.SetMaxCPU(c.Pick(1, 1, 2, 3, 8))
	b := dataframe.DataBuilder{RawData: raw}
	for i := 0; i < n; i++ {
		t.rows = append(t.rows, &weakWatch{})
	}
	add := func(name string) *weakWatch { w := &weakWatch{}; t.cols[name] = w; return w }
	for k := c.Range(1, 3); k > 0; k-- {
		name := fmt.Sprintf("%sf%d", prefix, k)
		v := make([]float64, n)
		for i := range v {
			v[i] = float64(c.Int(50)) / 4
			if c.P(0.1) {
				v[i] = math.NaN()
			}
		}
		track(add(name), "float column "+name, v)
		b.SetFloats(name, v)
	}
	for k := c.Range(1, 2); k > 0; k-- {
		name := fmt.Sprintf("%si%d", prefix, k)
		v := make([]int, n)
		for i := range v {
			v[i] = c.Int(9) - 1
		}
		track(add(name), "int column "+name, v)
		b.SetInts(name, v)
		name = fmt.Sprintf("%sb%d", prefix, k)
		bv := make([]bool, n)
		for i := range bv {
			bv[i] = c.P(0.5)
		}
		track(add(name), "bool column "+name, bv)
		b.SetBools(name, bv)
		name = fmt.Sprintf("%ss%d", prefix, k)
		sv := make([]interface{}, n)
		for i := range sv {
			if c.P(0.1) {
				continue
			}
			s := c.ownText(i)
			track(t.rows[i], fmt.Sprintf("string in row %d", i), unsafe.Slice(unsafe.StringData(s), len(s)))
			sv[i] = s
		}
		track(add(name), "string column "+name, sv)
		b.SetObjects(name, sv).MarkAsString(name)
	}
	name := prefix + "o"
	ov := make([]interface{}, n)
	for i := range ov {
		o := make([]ownCell, 1)
		o[0].id = i
		track(t.rows[i], fmt.Sprintf("object in row %d", i), o)
		ov[i] = &o[0]
	}
	track(add(name), "object column "+name, ov)
	b.SetObjects(name, ov)
	if c.P(0.3) {
		b.TextEncoding(charmap.ISO8859_1)
		t.enc = true
	}
	t.df = b.ToDataFrame()
	if c.P(0.3) {
		t.df.ThreadSafeMasking(true)
	}
	return t
}

// all is a weakWatch on everything in t, or on columns only.
func (t *trackedFrame) all(rows bool) *weakWatch {
	w := &weakWatch{}
	for _, v := range t.cols {
		w.names = append(w.names, v.names...)
		w.held = append(w.held, v.held...)
	}
	if rows {
		for _, v := range t.rows {
			w.names = append(w.names, v.names...)
			w.held = append(w.held, v.held...)
		}
	}
	return w
}

func (t *trackedFrame) columns(names []string) *weakWatch {
	w := &weakWatch{}
	for _, nm := range names {
		if v := t.cols[nm]; v != nil {
			w.names = append(w.names, v.names...)
			w.held = append(w.held, v.held...)
		}
	}
	return w
}

func (c *Ctx) released(what string, w *weakWatch, goroutines int) {
	if len(w.held) == 0 {
		return
	}
	c.NonTrivial()
	c.EvN("blocks-observed", len(w.held))
	if l := w.stillHeld(goroutines); len(l) > 0 {
		n := len(l)
		sort.Strings(l)
		if n > 5 {
			l = l[:5]
		}
		c.Failf("%s: %d of %d blocks of memory are still held although nothing needs them: %q", what, n, len(w.held), l)
	}
}

func c39(c *Ctx) {
	switch c.Int(20) {
	case 0, 1, 2, 3, 4, 5:
		c39dropped(c)
	case 6, 7, 8, 9, 10:
		c39independent(c)
	case 11, 12, 13, 14, 15:
		c39columns(c)
	case 16, 17, 18:
		c39bounds(c)
	default:
		if c.P(0.3) {
			c39growth(c)
		} else {
			c39dropped(c)
		}
	}
}

// c39dropped: operations whose results are dropped leave nothing behind, and trained
// objects only what they learned.
func c39dropped(c *Ctx) {
	goroutines := runtime.NumGoroutine()
	n := c.Pick(32, 40, 64, 130, 300)
	var kept []interface{}
	work := func() *weakWatch {
		t := c.trackedBuild("", n)
		df := t.df
		if c.P(0.6) {
			df = c.chain(df, 3)
		}
		var tr *trained
		if df.NumRows() > 0 {
			caught(func() { tr = c.train(df) })
		}
		for k := c.Range(1, 4); k > 0; k-- {
			switch c.Int(8) {
			case 0, 1, 2:
				if tr != nil {
					name, _ := c.sharedOp(df, tr, true)
					c.Log("%s", name)
				}
			case 3, 4:
				g := &guard{c: c}
				name, _ := c35call(c, g, df, take(df))
				c.Log("%s", name)
			case 5:
				fr := &sframe{name: "f0", df: df, snap: take(df)}
				if r := c34request(c, fr, []*sframe{fr}); r != nil {
					c.Log("refusal of %s", r.what)
					caught(func() { r.f() })
				}
			case 6:
				if df.NumRows() > 0 {
					reg := algorithms.NewLinearRegressor()
					caught(func() {
						reg.Fit(df, df.FloatHeader().NameList()[0], algorithms.LinRegTrainParams{Epochs: 2, BatchSize: c.Pick(1, 7, 0), LowMemory: c.P(0.5)})
					})
					kept = append(kept, reg)
					c.Log("regression")
				}
			case 7:
				names := df.FloatHeader().NameList()
				bat := dataframe.NewDense64Batching(names)
				if df.NumRows() > 0 {
					bat.DenseMatrix(df)
				}
				c.Log("batch matrix")
			}
		}
		kept = append(kept, tr)
		return t.all(true)
	}
	w := work()
	c.released("results dropped, trained objects kept", w, goroutines)
	runtime.KeepAlive(kept)
	c.Ev("results-dropped")
}

// c39independent: results that share nothing do not keep what they were made from.
func c39independent(c *Ctx) {
	goroutines := runtime.NumGoroutine()
	n := c.Pick(40, 64, 130, 200)
	var kept []interface{}
	what := ""
	work := func() *weakWatch {
		t := c.trackedBuild("", n)
		df := t.df
		if c.P(0.7) {
			df = c.chain(df, 3)
		}
		cells := false // whether shown strings and objects are legitimately kept
		whole := false // whether hidden ones are, too
		switch c.Int(13) {
		case 0, 1:
			what, cells = "Copy", true
			kept = append(kept, df.Copy())
		case 2:
			what, cells = "RowConcat", true
			o := df
			if c.P(0.5) {
				o = c.chain(df, 2)
			}
			r, err := dataframe.RowConcat(df, o)
			if err != nil {
				c.Abandon("no row concatenation")
			}
			kept = append(kept, r)
			df = r
		case 3:
			what, cells = "ColumnCopyConcat", true
			h := df.Header().NameList()
			r, err := dataframe.ColumnCopyConcat(df.ColumnView(h[:2]...), df.ColumnView(h[2:]...))
			if err != nil {
				c.Abandon("no column concatenation")
			}
			kept = append(kept, r)
		case 4:
			what, cells, whole = "MergeRawDataRows", true, true
			kept = append(kept, dataframe.MergeRawDataRows([]*dataframe.RawData{&df.RawData}))
		case 5:
			what, cells = "CopyValuesToInterfaces", true
			for _, nm := range df.Header().NameList() {
				kept = append(kept, df.CopyValuesToInterfaces(nm))
			}
		case 6:
			if df.NumRows() == 0 {
				c.Abandon("no rows")
			}
			what = "VecDenseCopy, DenseMatrix and a batcher"
			names := append(df.FloatHeader().NameList(), df.IntHeader().NameList()...)
			bat := dataframe.NewDense64Batching(names)
			kept = append(kept, df.Floats(names[0]).VecDenseCopy(), bat.DenseMatrix(df), bat)
		case 7:
			what, cells = "LabelToInt", true
			l, m := df.LabelToInt(df.StringHeader().NameList()[0])
			kept = append(kept, l, m)
		case 8:
			what, cells, whole = "DetachedView of everything", true, true
			kept = append(kept, df.DetachedView())
		case 9:
			what, cells, whole = "Unshare of everything", true, true
			d := df.View()
			d.Unshare(d.Header().NameList()...)
			kept = append(kept, d)
		case 10:
			what = "headers, limits and masks"
			kept = append(kept, df.Header(), df.StringHeader(), df.Header().NameSet(), df.Header().NameList(), df.ActualMaxCPU())
			if c.P(0.5) {
				kept = append(kept, df.ZeroMask())
			}
		case 11:
			what = "GoodShortNames, written text"
			var b bytes.Buffer
			if err := df.To1CSV(&b, dataframe.CSVWritingSpec{MaintainOrder: c.P(0.5)}); err != nil {
				c.Failf("To1CSV: %v", err)
			}
			kept = append(kept, df.GoodShortNames(1), b.Bytes())
		default:
			what = "fitted objects"
			if df.NumRows() == 0 {
				c.Abandon("no rows")
			}
			enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
			enc.Fit(df)
			imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.ImputingPolicy(c.Int(3))})
			imp.Fit(df)
			sc := preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: c.P(0.5), Centering: c.P(0.5), Scaling: c.P(0.5)})
			sc.Fit(df)
			auto := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: c.P(0.5), Scaling: c.P(0.5)})
			auto.FitTransform(df)
			reg := algorithms.NewLinearRegressor()
			reg.Fit(df, df.FloatHeader().NameList()[0], algorithms.LinRegTrainParams{Epochs: 1, LowMemory: c.P(0.5)})
			kept = append(kept, enc, imp, sc, auto, reg)
		}
		w := t.all(false)
		if !cells {
			w = t.all(true)
		} else if !whole { // rows that the result does not show
			shown := map[int]bool{}
			for _, nm := range df.ObjectHeader().NameList() {
				for _, v := range df.CopyValuesToInterfaces(nm) {
					if o, ok := v.(*ownCell); ok {
						shown[o.id] = true
					}
				}
			}
			for i, r := range t.rows {
				if !shown[i] {
					w.names = append(w.names, r.names...)
					w.held = append(w.held, r.held...)
				}
			}
			c.EvN("hidden-rows", n-len(shown))
		}
		return w
	}
	w := work()
	c.Log("%s kept", what)
	c.released("only the result of "+what+" kept", w, goroutines)
	runtime.KeepAlive(kept)
	c.Ev("kept: " + what)
}

// c39columns: columns that a frame has no more are released.
func c39columns(c *Ctx) {
	goroutines := runtime.NumGoroutine()
	n := c.Pick(40, 64, 130, 200)
	var kept *DF
	var keptToo []interface{}
	what := ""
	work := func() *weakWatch {
		t := c.trackedBuild("", n)
		df := t.df
		all := df.Header().NameList()
		sort.Strings(all)
		some := all[:0:0]
		for _, nm := range all {
			if c.P(0.5) {
				some = append(some, nm)
			}
		}
		if len(some) == 0 {
			some = all[:1]
		}
		if c.P(0.5) {
			df = c.chain(df, 2)
		}
		of := func(h dataframe.ColumnHeader) []string {
			var l []string
			for _, nm := range some {
				if h.NameSet()[nm] {
					l = append(l, nm)
				}
			}
			return l
		}
		var gone []string
		switch c.Int(14) {
		case 0, 1:
			what = "Drop"
			df = df.View()
			df.Drop(some...)
			gone = some
		case 2:
			what = "ColumnView"
			df = df.ColumnView(some...)
			for _, nm := range all {
				if !df.Header().NameSet()[nm] {
					gone = append(gone, nm)
				}
			}
		case 3:
			what = "allocation of new columns"
			df = df.View()
			switch c.Int(5) {
			case 0:
				df.AllocFloats(some...)
			case 1:
				df.AllocInts(some...)
			case 2:
				df.AllocBools(some...)
			case 3:
				df.AllocObjects(some...)
			case 4:
				df.AllocStrings(some...)
			}
			gone = some
		case 4:
			what = "overwriting columns by columns of another type"
			df = df.View()
			for _, nm := range some {
				if df.FloatHeader().NameSet()[nm] {
					df.OverwriteInts(nm, make([]int, df.NumRows()))
				} else {
					df.OverwriteFloats64(nm, make([]float64, df.NumRows()))
				}
			}
			gone = some
		case 5:
			what = "renaming onto another column"
			df = df.View()
			if len(all) < 2 {
				c.Abandon("one column")
			}
			k := c.Int(len(all) - 1)
			df.Rename(all[k], all[k+1])
			gone = []string{all[k+1]}
		case 6:
			what = "conversions to floats"
			df = df.View()
			gone = append(of(df.IntHeader()), of(df.BoolHeader())...)
			df.IntToFloats(some...)
			df.BoolToFloats(some...)
		case 7:
			what = "hashing"
			gone = of(df.StringHeader())
			df = df.HashStringsView(gone...)
		case 8:
			what = "one-hot encoding"
			if df.NumRows() == 0 {
				c.Abandon("no rows")
			}
			enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
			enc.Fit(df)
			gone = df.IntHeader().NameList()
			r, err := enc.TransformView(df)
			if err != nil {
				c.Failf("TransformView: %v", err)
			}
			df = r
			keptToo = append(keptToo, enc)
		case 9:
			what = "detaching"
			df = df.DetachedView(some...)
			gone = some
		case 10:
			what = "dropping in place"
			df.Drop(some...)
			gone = some
		case 11:
			what = "detaching and transforming"
			fl := df.FloatHeader().NameList()
			if df.NumRows() == 0 {
				c.Abandon("no rows")
			}
			auto := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: c.P(0.5)})
			df = auto.FitTransform(df)
			gone = append(fl, t.df.StringHeader().NameList()...)
			keptToo = append(keptToo, auto)
		case 12:
			what = "a transfer of other columns"
			o := c.trackedBuild("", n)
			o.df = o.df.ColumnView(some...)
			df = df.View()
			df.TransferRawDataFrom(&o.df.RawData)
			gone = o.df.Header().NameList()
		case 13:
			what = "setting columns through a builder"
			gone = of(df.FloatHeader())
			df = df.View()
			m := df.NumAllocatedRows()
			for _, nm := range gone {
				dataframe.DataBuilder{RawData: &df.RawData}.SetFloats(nm, make([]float64, m))
			}
		}
		kept = df
		return t.columns(gone)
	}
	w := work()
	c.Log("%s", what)
	c.released("columns gone by "+what, w, goroutines)
	runtime.KeepAlive(kept)
	runtime.KeepAlive(keptToo)
	c.Ev("gone: " + what)
}

// allocated is the number of bytes allocated by f (the least of three runs).
func allocated(f func()) int {
	best := -1
	var a, b runtime.MemStats
	for k := 0; k < 3; k++ {
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		if d := int(b.TotalAlloc - a.TotalAlloc); best < 0 || d < best {
			best = d
		}
	}
	return best
}

func (c *Ctx) atMost(what string, bound int, f func()) {
	got := allocated(f)
	c.Ev("allocations-measured")
	if debugBounds {
		fmt.Fprintf(os.Stderr, "BOUND %s %d of %d\n", what, got, bound)
	}
	if got > bound {
		c.Failf("%s allocates %d bytes, more than %d", what, got, bound)
	}
}

var debugBounds = false

// heldBytes is the size of what v holds: arrays, strings and structures, not the cost of
// maps as such.
func heldBytes(v interface{}) int {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value) int
	walk = func(v reflect.Value) int {
		n := 0
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				n = int(v.Type().Elem().Size()) + walk(v.Elem())
			}
		case reflect.Interface:
			if !v.IsNil() {
				n = walk(v.Elem())
			}
		case reflect.Slice:
			if !v.IsNil() && v.Cap() > 0 && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				n = v.Cap() * int(v.Type().Elem().Size())
				switch v.Type().Elem().Kind() {
				case reflect.Bool, reflect.Int, reflect.Float64, reflect.Float32, reflect.Uint8:
				default:
					for i := 0; i < v.Len(); i++ {
						n += walk(v.Index(i))
					}
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				n += walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				n += walk(v.Field(i))
			}
		case reflect.Map:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				for it := v.MapRange(); it.Next(); {
					n += int(it.Key().Type().Size()) + int(it.Value().Type().Size()) + walk(it.Key()) + walk(it.Value())
				}
			}
		case reflect.String:
			n = v.Len()
		}
		return n
	}
	return walk(reflect.ValueOf(v))
}

// holds checks how much v holds.
func (c *Ctx) holds(what string, v interface{}, bound int) {
	got := heldBytes(v)
	c.Ev("sizes-measured")
	if debugBounds {
		fmt.Fprintf(os.Stderr, "SIZE %s %d of %d\n", what, got, bound)
	}
	if got > bound {
		c.Failf("%s holds %d bytes, more than %d", what, got, bound)
	}
}

// c39bounds: what views, copies, batchers and iterators allocate.
func c39bounds(c *Ctx) {
	rows, per := c.Pick(2500, 4000, 7000), c.Range(4, 9)
	raw := dataframe.NewRawData()
	raw.SetMaxCPU(c.Pick(1, 2))
	b := dataframe.DataBuilder{RawData: raw}
	var floats, num, all []string
	for k := 0; k < per; k++ {
		f, g, h := make([]float64, rows), make([]int, rows), make([]bool, rows)
		for i := range f {
			f[i], g[i], h[i] = c.R.Float64(), c.R.Int(), c.P(0.5)
		}
		nf, ni, nb, no := fmt.Sprintf("f%d", k), fmt.Sprintf("i%d", k), fmt.Sprintf("b%d", k), fmt.Sprintf("o%d", k)
		b.SetFloats(nf, f).SetInts(ni, g).SetBools(nb, h).SetObjects(no, make([]interface{}, rows))
		b.SetObjects("s"+no, make([]interface{}, rows)).MarkAsString("s" + no)
		floats, num = append(floats, nf), append(num, nf, ni, nb)
		all = append(all, nf, ni, nb, no, "s"+no)
	}
	base := b.ToDataFrame()
	df := base
	switch c.Int(5) {
	case 0:
		df = df.View()
	case 1:
		df = df.ShuffleView()
	case 2:
		df = df.SliceView(rows/10, rows-rows/20)
	case 3:
		df = df.ShallowCopy()
	}
	n := df.NumRows()
	c.NonTrivial()
	maps := 4096 + len(all)*1024 // structures, headers and maps
	view := maps + 80*n          // row numbers, masks and scratch lists
	width := per * (8 + 8 + 1 + 16 + 16)
	c.Log("%d rows of %d, %d columns", n, rows, len(all))
	idx := c.R.Perm(n)
	mask := make([]bool, n)
	for i := range mask {
		mask[i] = c.P(0.5)
	}
	small := c.randIdx(n)
	if len(small) > n/40 {
		small = small[:n/40]
	}
	if len(small) == 0 {
		small = []int{0}
	}
	for k := 0; k < 6; k++ {
		switch c.Int(25) {
		case 24:
			f := df
			if n > 600 {
				f = df.SliceView(3, 603)
			}
			f = f.ColumnView(append(floats, "b0", "b1")...)
			reg := algorithms.NewLinearRegressor()
			reg.Fit(f, floats[0], algorithms.LinRegTrainParams{Epochs: 1, BatchSize: c.Pick(0, 50, 700), LowMemory: c.P(0.5), Momentum: float64(c.Int(2)) / 2})
			c.holds("a regressor", reg, 2048+per*256)
			imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
			imp.Fit(f)
			c.holds("an imputer", imp, 2048+per*256)
			sc := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true, MinMax: c.P(0.5)})
			sc.Fit(f)
			c.holds("a scaler", sc, 2048+per*256)
			auto := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true})
			auto.FitTransform(f)
			c.holds("a preprocessor", auto, 4096+per*512)
		case 0:
			c.atMost("View", maps, func() { df.View() })
		case 1:
			c.atMost("IndexView", view, func() { df.IndexView(idx) })
		case 2:
			c.atMost("MaskView", view, func() { df.MaskView(mask) })
		case 3:
			c.atMost("ReverseView", view, func() { df.ReverseView() })
		case 4:
			c.atMost("SliceView", maps, func() { df.SliceView(n/7, n-n/9) })
		case 5:
			c.atMost("SliceView reversed", view, func() { df.SliceView(n-3, 5) })
		case 6:
			parts := c.Range(2, 9)
			c.atMost("SplitNView", parts*maps+8*n, func() { df.SplitNView(parts) })
		case 7:
			c.atMost("SplitTrainTestViews", 2*maps, func() { df.SplitTrainTestViews(0.25) })
		case 8:
			c.atMost("ShuffleView", view, func() { df.ShuffleView() })
		case 9:
			c.atMost("SampleView", view, func() { df.SampleView(n/3, false) })
		case 10:
			by := num[c.Int(len(num))]
			c.atMost("SortedView", view, func() { df.SortedView(by) })
		case 11:
			by := num[c.Int(len(num))]
			c.atMost("TopView", view, func() { df.TopView(by, 9, c.P(0.5), true) })
		case 12:
			c.atMost("ResetIndexView", view, func() { df.ResetIndexView() })
		case 13:
			c.atMost("ColumnView", maps, func() { df.ColumnView(all[1:]...) })
		case 14:
			c.atMost("ShallowCopy", 2*maps, func() { df.ShallowCopy() })
		case 15:
			x, y := df.ColumnView(all[:3]...), df.ColumnView(all[3:]...)
			c.atMost("ColumnConcatView", 3*maps, func() { dataframe.ColumnConcatView(x, y) })
			c.atMost("ColumnSmartConcat", 3*maps, func() { dataframe.ColumnSmartConcat(x, y) })
		case 16:
			v := df.IndexView(small)
			m := len(small)
			c.atMost(fmt.Sprintf("Copy of %d rows", m), 3*maps+4*m*(width+16)+4*len(all)*32, func() { v.Copy() })
			c.atMost("RowConcat", 3*maps+8*m*(width+16), func() { dataframe.RowConcat(v, v) })
			c.atMost("ColumnCopyConcat", 9*maps+4*m*(width+16), func() { dataframe.ColumnCopyConcat(v.ColumnView(all[:2]...), v.ColumnView(all[2:]...)) })
			frame := 8192 + 256*len(all)
			c.holds("a copy", v.Copy(), frame+m*(width+9)*2+64*len(all))
			if r, err := dataframe.RowConcat(v, v); err == nil {
				c.holds("a row concatenation", r, frame+2*m*(width+9)*2+64*len(all))
			}
			if r, err := dataframe.ColumnCopyConcat(v.ColumnView(all[:2]...), v.ColumnView(all[2:]...)); err == nil {
				c.holds("a column concatenation", r, frame+m*(width+9)*2+64*len(all))
			}
			c.holds("a vector", v.Floats(floats[0]).VecDenseCopy(), 1024+m*16)
			c.atMost("CopyValuesToInterfaces", 4096+m*100, func() { v.CopyValuesToInterfaces(all[0]) })
			c.atMost("VecDenseCopy", 4096+m*32, func() { v.Floats(floats[0]).VecDenseCopy() })
		case 17:
			bat := dataframe.NewDense64Batching(num)
			bat.DenseMatrix(df)
			o := df.SliceView(n/8, n)
			c.atMost("a further DenseMatrix", 8192+64*len(num), func() { bat.DenseMatrix(o) })
			c.atMost("a further DenseMatrix", 8192+64*len(num), func() { bat.DenseMatrix(df) })
			c.atMost("DenseMatrix of batches of changing size", 32768+256*len(num), func() {
				bat.DenseMatrix(o)
				bat.DenseMatrix(df)
				bat.DenseMatrix(o)
			})
			c.holds("a batcher", bat, 8*n*len(num)*2+4096+64*len(num))
		case 18:
			o := df.ReverseView()
			ite := dataframe.NewFloat32Iterator(df, num)
			c.atMost("iterating", 8192, func() {
				ite.Reset(o, true)
				for row, _, _ := ite.NextRow(); row != nil; row, _, _ = ite.NextRow() {
				}
			})
		case 19:
			if df.AreIndicesAltered() {
				break
			}
			c.atMost("VecDense of a contiguous column", 4096, func() { df.Floats(floats[0]).VecDense() })
		case 20:
			c.atMost("accessors", 8192, func() {
				for _, nm := range floats {
					a := df.Floats(nm)
					s := 0.0
					for i := 0; i < a.Size(); i++ {
						s += a.Get(i)
					}
				}
			})
		case 21:
			v := df.View()
			c.atMost("structural edits of a view", 2*maps+8*3*rows, func() {
				v = df.View()
				v.Drop(all[0])
				v.Rename(all[1], "other")
			})
		case 22:
			v := df.DetachedView()
			c.holds("a detached view", v, 8192+256*len(all)+rows*(width+9)*2+64*len(all)+8*n)
			c.atMost("detaching what is detached", maps, func() { v.Unshare() })
			c.atMost("detaching one column", 4*maps+3*16*rows, func() { df.DetachedView(all[c.Int(len(all))]) })
		case 23:
			p := make([]float64, n)
			v := df.DetachedView(floats[0])
			c.atMost("overwriting an existing column", 8192+32*n, func() { v.OverwriteFloats64(floats[0], p) })
			c.atMost("metrics", 8192, func() { algorithms.MSE(df.Floats(floats[0]), df.Floats(floats[1])) })
		}
	}
	c.Ev("bounds")
}

// c39growth: rounds of operations on ever new names, texts and numbers do not add up.
func c39growth(c *Ctx) {
	const phases = 4
	rounds := 30
	goroutines := runtime.NumGoroutine()
	pool := *c // operations draw from c, but what they log is dropped
	q := &pool
	heap := make([]int, phases)
	var m runtime.MemStats
	for p := 0; p < phases; p++ {
		for r := 0; r < rounds; r++ {
			q.trace = nil
			q.round(fmt.Sprintf("%d-%x-", p*rounds+r, c.R.Int63()))
		}
		q.trace = nil
		for k := 0; k < 200 && runtime.NumGoroutine() > goroutines; k++ {
			jitter()
			runtime.Gosched()
		}
		for k := 0; k < 3; k++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		heap[p] = int(m.HeapAlloc)
	}
	c.NonTrivial()
	c.Ev("heap-measured")
	if debugBounds {
		fmt.Fprintf(os.Stderr, "HEAP %v\n", heap)
	}
	const most = 40 << 10
	grows := true
	for p := 2; p < phases; p++ {
		grows = grows && heap[p]-heap[p-1] > most
	}
	if grows {
		c.Failf("the heap grows with the operations: %v bytes after each %d rounds", heap, rounds)
	}
}

// round does a bit of everything on a fresh frame.
//
//go:noinline
func (c *Ctx) round(prefix string) {
	n := c.Pick(100, 150, 200)
	t := c.trackedBuild(prefix, n)
	df := c.chain(t.df, 2)
	if df.NumRows() == 0 {
		df = t.df
	}
	var tr *trained
	caught(func() { tr = c.train(df) })
	for k := 0; k < 6; k++ {
		if tr != nil {
			c.sharedOp(df, tr, true)
		}
		caught(func() { c35call(c, &guard{c: c}, df, take(df)) })
	}
	strs := t.df.StringHeader().NameList()
	df.HashStringsView(strs...)
	df.LabelToInt(strs[0])
	df.GoodShortNames(2)
	var b bytes.Buffer
	df.To1CSV(&b, dataframe.CSVWritingSpec{})
	dataframe.FromCSV(strings.NewReader(b.String()), dataframe.CSVReadingSpec{MaxCPU: 2})
	df.Encode(charmap.Windows1252)
	reg := algorithms.NewLinearRegressor()
	caught(func() {
		reg.Fit(df, df.FloatHeader().NameList()[0], algorithms.LinRegTrainParams{Epochs: 1})
		reg.Predict(df, "p")
	})
}
