package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"golang.org/x/text/encoding/charmap"
)

func init() {
	register(&Prop{ID: "C34", Quick: 60000, Thorough: 6000000, Random: c34,
		Rule:   "up to 6 live frames (views and copies of each other), 1-6 requests that the documentation refuses (columns that are missing, of the wrong type or clashing, sizes and ratios out of range, unequal frames, impossible text, unknown categories, files that cannot be read or written); each must panic or report an error as documented, after which every live frame, and the object that refused, are as before; non-trivial: a frame with rows saw a refusal",
		Assume: []string{"only refusals that the documentation or the signature announces"}})
}

type refusal struct {
	what  string
	err   bool         // an error is returned instead of a panic
	f     func() error // must refuse
	after func()       // what the refusing object still does
}

func c34(c *Ctx) {
	s := c.genSnap(GenOpt{MaxRows: 50, MaxCols: 6, PlainNames: c.P(0.5)})
	root := &sframe{name: "f0", df: c.build(s), snap: s}
	c.Log("%s", s.schema())
	live := []*sframe{root}
	for k := c.Int(5); k > 0; k-- {
		l := live[c.Int(len(live))]
		st := c.selectRows(l.df)
		df := st.df
		if all := l.snap.names("fibso"); len(all) > 0 && c.P(0.3) {
			df = df.ColumnView(c.subset(all, 1)...)
		}
		if c.P(0.2) {
			df = df.Copy()
		}
		f := &sframe{name: fmt.Sprintf("f%d", len(live)), df: df, snap: take(df)}
		c.Log("%s = %s.%s", f.name, l.name, st.name)
		live = append(live, f)
	}
	cpu := make([]int, len(live))
	for i, l := range live {
		cpu[i] = l.df.ActualMaxCPU()
	}
	for k := c.Range(1, 6); k > 0; k-- {
		f := live[c.Int(len(live))]
		r := c34request(c, f, live)
		if r == nil {
			continue
		}
		what := f.name + ": " + r.what
		c.Log("%s", what)
		var err error
		val, panicked := caught(func() { err = r.f() })
		if r.err {
			if panicked {
				c.Failf("%s: panic instead of an error: %v", what, val)
			}
			if err == nil {
				c.Failf("%s: no error", what)
			}
		} else if !panicked {
			c.Failf("%s: expected a panic, none happened", what)
		}
		c.Ev("refused-" + refusalKind(r.what))
		if f.snap.N > 0 && len(f.snap.Cols) > 0 {
			c.NonTrivial()
		}
		for i, l := range live {
			c.same(l.name+" after the refusal of "+what, take(l.df), l.snap)
			if l.df.ActualMaxCPU() != cpu[i] {
				c.Failf("%s has another CPU limit after the refusal of %s", l.name, what)
			}
		}
		c.wellFormed(f.df, "after the refusal of "+what)
		if r.after != nil {
			r.after()
			c.Ev("reused-after-refusal")
		}
	}
}

func (c *Ctx) missingName(s Snap) string {
	for {
		n := []string{"", "missing", "f", "f0 ", "F0", "nope%d", "0"}[c.Int(7)]
		if s.col(n) == nil {
			return n
		}
		if c.P(0.2) {
			return fmt.Sprintf("missing%d", c.Int(1000000))
		}
	}
}

// notOf returns the name of a column that is none of the types, or of no column at all.
func (c *Ctx) notOf(s Snap, types string) string {
	var names []string
	for _, col := range s.Cols {
		if !strings.Contains(types, string(col.T)) {
			names = append(names, col.Name)
		}
	}
	if len(names) == 0 || c.P(0.25) {
		return c.missingName(s)
	}
	return names[c.Int(len(names))]
}

func c34request(c *Ctx, f *sframe, live []*sframe) *refusal {
	df, s := f.df, f.snap
	n := s.N
	all, num := s.names("fibso"), s.names("fib")
	pan := func(what string, g func()) *refusal {
		return &refusal{what: what, f: func() error { g(); return nil }}
	}
	switch c.Int(30) {
	case 0:
		x := c.notOf(s, "f")
		return pan(fmt.Sprintf("Floats(%q)", x), func() { df.Floats(x) })
	case 1:
		x := c.notOf(s, "i")
		return pan(fmt.Sprintf("Ints(%q)", x), func() { df.Ints(x) })
	case 2:
		x := c.notOf(s, "b")
		return pan(fmt.Sprintf("Bools(%q)", x), func() { df.Bools(x) })
	case 3:
		x := c.notOf(s, "os")
		return pan(fmt.Sprintf("Objects(%q)", x), func() { df.Objects(x) })
	case 4:
		x := c.notOf(s, "s")
		return pan(fmt.Sprintf("Strings(%q)", x), func() { df.Strings(x) })
	case 5:
		x := c.missingName(s)
		return pan(fmt.Sprintf("CopyValuesToInterfaces(%q)", x), func() { df.CopyValuesToInterfaces(x) })
	case 6:
		x := c.notOf(s, "s")
		return pan(fmt.Sprintf("LabelToInt(%q)", x), func() { df.LabelToInt(x) })
	case 7, 8:
		x := c.missingName(s)
		y := c.missingName(s)
		if len(all) > 0 && c.P(0.7) {
			y = all[c.Int(len(all))]
		}
		return pan(fmt.Sprintf("Rename(%q,%q)", x, y), func() { df.Rename(x, y) })
	case 9:
		x := c.notOf(s, "fib")
		return pan(fmt.Sprintf("SortedView(%q)", x), func() { df.SortedView(x) })
	case 10:
		x, k, a, b := c.notOf(s, "fib"), c.Int(n+2), c.P(0.5), c.P(0.5)
		return pan(fmt.Sprintf("TopView(%q,%d)", x, k), func() { df.TopView(x, k, a, b) })
	case 11:
		if len(num) > 0 {
			x, k, a, b := num[c.Int(len(num))], -1-c.Int(n+3), c.P(0.5), c.P(0.5)
			return pan(fmt.Sprintf("TopView(%q,%d)", x, k), func() { df.TopView(x, k, a, b) })
		}
	case 12:
		k := n + 1 + c.Int(5)
		return pan(fmt.Sprintf("SampleView(%d)", k), func() { df.SampleView(k, false) })
	case 13:
		k := -c.Int(n + 3)
		return pan(fmt.Sprintf("SplitView(%d)", k), func() { df.SplitView(k) })
	case 14:
		k := -1 - c.Int(n+3)
		return pan(fmt.Sprintf("SplitNView(%d)", k), func() { df.SplitNView(k) })
	case 15:
		r := []float64{-0.1, -1, 1.01, 2, math.Inf(1), math.Inf(-1), math.Nextafter(1, 2), -math.SmallestNonzeroFloat64}[c.Int(8)]
		return pan(fmt.Sprintf("SplitTrainTestViews(%v)", r), func() { df.SplitTrainTestViews(r) })
	case 16, 17: // a batcher, good for other frames
		cols := append([]string{}, num...)
		x := c.notOf(s, "fib")
		at := c.Int(len(cols) + 1)
		cols = append(cols[:at], append([]string{x}, cols[at:]...)...)
		bat := dataframe.NewDense64Batching(cols)
		r := pan(fmt.Sprintf("DenseMatrix with %q", cols), func() { bat.DenseMatrix(df) })
		r.after = func() {
			o := Snap{N: c.Range(1, 5)}
			for _, name := range cols {
				t := "fib"[c.Int(3)]
				o.Cols = append(o.Cols, Col{name, t, c.genVals(t, o.N, GenOpt{})})
			}
			c09matrix(c, bat, c.build(o), o, cols)
		}
		return r
	case 18, 19: // an iterator goes on where it was
		if len(num) == 0 {
			return nil
		}
		cols := c.subset(num, 1)
		if c.P(0.2) { // the frame being iterated has lost a column since
			own := df.View()
			ite := dataframe.NewFloat32Iterator(own, cols)
			ite.NextRow()
			x := cols[c.Int(len(cols))]
			if c.P(0.5) {
				own.Drop(x)
			} else {
				own.AllocObjects(x)
			}
			return pan(fmt.Sprintf("checked Reset of an iterator over %q with the same frame, now without %q", cols, x), func() { ite.Reset(own, true) })
		}
		ite := dataframe.NewFloat32Iterator(df, cols)
		var rows [][]float32
		read := func(max int) {
			for k := 0; k < max; k++ {
				row, _, _ := ite.NextRow()
				if row == nil {
					return
				}
				rows = append(rows, append([]float32{}, row...))
			}
		}
		read(c.Int(n + 2))
		o := Snap{N: c.Int(4)}
		skip := c.Int(len(cols))
		for k, name := range cols {
			t := s.col(name).T
			if k == skip {
				t = "fibso"[c.Int(5)]
				if t == s.col(name).T {
					continue
				}
			}
			o.Cols = append(o.Cols, Col{name, t, c.genVals(t, o.N, GenOpt{})})
		}
		bad := c.build(o)
		r := pan(fmt.Sprintf("checked Reset(%s) of an iterator over %q", o.schema(), cols), func() { ite.Reset(bad, true) })
		r.after = func() {
			read(n + 1)
			if len(rows) != n {
				c.Failf("an iterator that refused a frame delivers %d rows instead of %d", len(rows), n)
			}
			for i, row := range rows {
				for k, name := range cols {
					v := s.col(name).V[i]
					want := float32(numOf(v))
					if x, ok := v.(int); ok && row[k] == float32(x) {
						continue // rounded once instead of twice
					}
					if row[k] != want && !(row[k] != row[k] && want != want) {
						c.Failf("an iterator that refused a frame delivers %v as %q of row %d instead of %v", row[k], name, i, want)
					}
				}
			}
		}
		return r
	case 20: // row concatenation
		if len(all) == 0 {
			return nil
		}
		other := df.Copy()
		name := all[c.Int(len(all))]
		how := c.Int(4)
		switch how {
		case 0:
			return &refusal{what: "RowConcat()", err: true, f: func() error { _, err := dataframe.RowConcat(); return err }}
		case 1:
			other.Rename(name, c.missingName(s))
		case 2:
			other.AllocBools(c.missingName(s))
		case 3:
			t := s.col(name).T
			other.Drop(name)
			switch t {
			case 'f':
				other.AllocInts(name)
			case 's':
				other.AllocObjects(name)
			default:
				other.AllocFloats(name)
			}
		}
		list := []*DF{df, other}
		if c.P(0.5) {
			list = []*DF{other, df}
		}
		if c.P(0.3) {
			list = append([]*DF{list[0]}, list...)
		}
		return &refusal{what: fmt.Sprintf("RowConcat of different columns (%d, %q)", how, name), err: true, f: func() error { _, err := dataframe.RowConcat(list...); return err }}
	case 21, 22: // column concatenation
		concat := []func(...*DF) (*DF, error){dataframe.ColumnConcatView, dataframe.ColumnSmartConcat, dataframe.ColumnCopyConcat}
		k := c.Int(3)
		name := []string{"ColumnConcatView", "ColumnSmartConcat", "ColumnCopyConcat"}[k]
		var list []*DF
		switch c.Int(3) {
		case 0:
		case 1:
			if len(all) == 0 {
				return nil
			}
			list = []*DF{df, df.ColumnView(all[c.Int(len(all))])}
			name += " of overlapping frames"
		case 2:
			o := Snap{N: n + 1 + c.Int(3)}
			if n > 0 && c.P(0.5) {
				o.N = c.Int(n)
			}
			x := c.missingName(s)
			o.Cols = []Col{{x, 'i', c.genVals('i', o.N, GenOpt{})}}
			list = []*DF{df, c.build(o)}
			name += fmt.Sprintf(" of %d and %d rows", n, o.N)
			if len(all) == 0 { // nothing has rows there
				return nil
			}
		}
		if len(list) > 1 && c.P(0.5) {
			list[0], list[1] = list[1], list[0]
		}
		return &refusal{what: name, err: true, f: func() error { _, err := concat[k](list...); return err }}
	case 23: // ragged data can be completed
		b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		m := c.Range(1, 5)
		b.AddFloats("x", make([]float64, m)...)
		miss := c.Range(1, m)
		b.AddInts("y", make([]int, m-miss)...)
		r := pan(fmt.Sprintf("ToDataFrame of columns of %d and %d rows", m, m-miss), func() { b.ToDataFrame() })
		r.after = func() {
			b.AddInts("y", make([]int, miss)...)
			if got := b.ToDataFrame().NumRows(); got != m {
				c.Failf("completed columns have %d rows instead of %d", got, m)
			}
		}
		return r
	case 24:
		b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		b.AddFloats("x", 1, 2)
		what := "ToDataFrame of a string mark without a column"
		if c.P(0.5) {
			b.MarkAsString("y")
		} else if what = "ToDataFrame of a name used twice"; c.P(0.5) {
			b.AddBools("x", true, false)
		} else {
			b.AddStrings("x", "a", "b")
		}
		return pan(what, func() { b.ToDataFrame() })
	case 25: // text that does not exist in the encoding
		raw := dataframe.NewRawData()
		b := dataframe.DataBuilder{RawData: raw}
		b.AddStrings("t", "plain", "日本語", "é").AddStrings("u", "a", "b", "c").AddInts("i", 1, 2, 3)
		g := b.ToDataFrame()
		before := take(g)
		r := &refusal{what: "Encode of impossible text", err: true, f: func() error { return g.Encode(charmap.ISO8859_1) }}
		r.after = func() {
			c.same("frame after impossible Encode", take(g), before)
			v := g.IndexView([]int{0, 2}).Copy()
			if err := v.Encode(charmap.ISO8859_1); err != nil || v.Objects("t").Get(1) != "\xe9" {
				c.Failf("the text that can be encoded: %v, %q", err, v.Objects("t").Get(1))
			}
		}
		return r
	case 26: // categories
		e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.ReturnError, UnknownPolicy: preprocessing.ReturnError})
		b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		b.AddInts("i", 1, 2, 3).AddInts("k", 5, 5, 6).AddFloats("x", 1, 2, 3)
		good := b.ToDataFrame()
		if err := e.Fit(good); err != nil {
			c.Failf("one-hot training: %v", err)
		}
		b = dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		v := c.Pick(-1, 4, 0, 5)
		b.AddInts("i", 1, v, 3).AddInts("k", 5, 5, 6).AddFloats("x", 1, 2, 3)
		bad := b.ToDataFrame()
		before := take(bad)
		r := &refusal{what: fmt.Sprintf("one-hot encoding of category %d", v), err: true, f: func() error { _, err := e.TransformView(bad); return err }}
		r.after = func() {
			c.same("frame after an impossible encoding", take(bad), before)
			r, err := e.TransformView(good)
			if err != nil || r.NumRows() != 3 || len(r.BoolHeader().NameList()) != 5 {
				c.Failf("the trained encoder no longer works: %v", err)
			}
		}
		return r
	case 27: // files
		dir := c.TempDir()
		nowhere := filepath.Join(dir, "nowhere", "x")
		os.WriteFile(filepath.Join(dir, "ragged.csv"), []byte("a,b\n1,2\n3\n"), 0o644)
		os.WriteFile(filepath.Join(dir, "ragged2.csv"), []byte("a,b\n1,2\n"), 0o644)
		os.WriteFile(filepath.Join(dir, "two1.csv"), []byte("a,b\n1,2\n"), 0o644)
		os.WriteFile(filepath.Join(dir, "two2.csv"), []byte("a,c\n1,2\n"), 0o644)
		os.WriteFile(filepath.Join(dir, "three1.csv"), []byte("a,b\n1,2\n"), 0o644)
		os.WriteFile(filepath.Join(dir, "three2.csv"), []byte("a\n1\n"), 0o644)
		var o dataframe.CSVReadingSpec
		o.MaxCPU = c.cpuLimit()
		var w dataframe.CSVWritingSpec
		w.MaintainOrder = c.P(0.5)
		w.MinRowsPerFile = c.Pick(0, 1, 5)
		list := []refusal{
			{what: "FromCSVFile of no file", f: func() error { _, err := dataframe.FromCSVFile(nowhere, o); return err }},
			{what: "FromCSVFile of a directory", f: func() error { _, err := dataframe.FromCSVFile(dir, o); return err }},
			{what: "FromCSVFile of a ragged file", f: func() error { _, err := dataframe.FromCSVFile(filepath.Join(dir, "ragged.csv"), o); return err }},
			{what: "FromCSVFilePattern with a ragged file", f: func() error { _, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "ragged*.csv"), o); return err }},
			{what: "FromCSVFilePattern of an invalid pattern", f: func() error { _, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "[a"), o); return err }},
			{what: "FromCSVFilePattern of files with other columns", f: func() error { _, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "two*.csv"), o); return err }},
			{what: "FromCSVFilePattern of files with fewer columns", f: func() error { _, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "three*.csv"), o); return err }},
			{what: "ToCSVFiles into one file in no directory", f: func() error { return df.ToCSVFiles(w, nowhere) }},
			{what: "ToCSVFiles into no directory", f: func() error { return df.ToCSVFiles(w, filepath.Join(dir, "ok.csv"), nowhere) }},
			{what: "ToCSVDir into no directory", f: func() error { _, err := df.ToCSVDir(w, nowhere); return err }},
		}
		r := list[c.Int(len(list))]
		r.err = true
		return &r
	case 28: // metrics
		a, b := make([]float64, c.Range(0, 4)), make([]float64, c.Range(5, 8))
		mk := func(v []float64) dataframe.FloatAccess {
			return dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddFloats("x", v...).ToDataFrame().Floats("x")
		}
		if c.P(0.5) {
			a, b = b, a
		}
		if c.P(0.5) {
			return pan("MSE of different sizes", func() { algorithms.MSE(mk(a), mk(b)) })
		}
		return pan("MAE of different sizes", func() { algorithms.MAE(mk(a), mk(b)) })
	case 29: // a writer that fails
		var bufs [3]pausing
		k := c.Int(3)
		bufs[k].broken = true
		if n == 0 || len(all) == 0 {
			return nil
		}
		return &refusal{what: "To1CSV into a broken writer", err: true, f: func() error { return df.To1CSV(&bufs[k], dataframe.CSVWritingSpec{MaintainOrder: c.P(0.5)}) }}
	}
	return nil
}

// refusalKind cuts the particulars off a description.
func refusalKind(what string) string {
	var w []string
	for _, s := range strings.Fields(opName(what)) {
		if strings.ContainsAny(s, "0123456789\"-[") && s != "To1CSV" && s != "one-hot" {
			break
		}
		w = append(w, s)
	}
	for len(w) > 1 && (w[len(w)-1] == "of" || w[len(w)-1] == "with") {
		w = w[:len(w)-1]
	}
	return strings.Join(w, " ")
}
