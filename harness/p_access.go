package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"regexp"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"golang.org/x/text/encoding/charmap"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Prop{ID: "C09", Quick: 300000, Thorough: 30000000, Random: c09,
		Rule:   "random frame behind random views, read through accessors, boxed copies, gonum vectors, a batcher and an iterator that are both reused across further frames and batches of other sizes; non-trivial: >=2 rows and >=2 numerical columns, or a reuse with another size",
		Assume: []string{"gonum vectors and matrices are not asked for frames without rows (gonum refuses zero dimensions)"}})
	register(&Prop{ID: "C27", Quick: 500000, Thorough: 50000000, Random: c27,
		Rule: "two float columns of equal length from unrelated frames/views (also one and the same column), moderate values and NaN; non-trivial: >=2 rows with a non-zero difference"})
	register(&Prop{ID: "C28", Quick: 600000, Thorough: 60000000, Random: c28,
		Rule: "random interleaving of Add*/Set*/MarkAsString calls, ragged in a third of the cases, then probes of the sharing of each column; non-trivial: >=2 builder calls"})
	register(&Prop{ID: "C29", Quick: 300000, Thorough: 30000000, Random: c29,
		Rule: "headers of random frames and views, combined and mutated at random against a set model; non-trivial: >=2 columns"})
	register(&Prop{ID: "C30", Quick: 80000, Thorough: 8000000, Random: c30,
		Rule:   "random frames and views printed with random n, float formats and short names, standard output captured; non-trivial: >=1 row printed",
		Assume: []string{"object columns hold nil or pointers (other objects print their address)"}})
}

func numOf(v interface{}) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case int:
		return float64(x)
	case bool:
		if x {
			return 1
		}
		return 0
	}
	panic("not numerical")
}

func c09(c *Ctx) {
	df := c.genAny(GenOpt{})
	s := take(df)
	n := s.N
	num := s.names("fib")
	if n >= 2 && len(num) >= 2 {
		c.NonTrivial()
	}
	c09columns(c, df, s)
	c09refused(c, df, s)
	if c.P(0.1) {
		c09vecShared(c)
	}
	// one batcher and one iterator for this frame, its batches and other frames of the same column types
	if len(num) == 0 {
		return
	}
	cols := c.subset(num, 1)
	if c.P(0.1) {
		cols = append(cols, cols[c.Int(len(cols))])
	}
	c.Log("columns %q", cols)
	bat := dataframe.NewDense64Batching(append([]string{}, cols...))
	var ite *dataframe.Float32Iterator
	frames := []*DF{df}
	for k := c.Int(5); k > 0; k-- {
		switch c.Int(4) {
		case 0:
			parts := df.SplitView(1 + c.Int(imax(n, 1)))
			if len(parts) > 6 {
				parts = parts[:6]
			}
			frames = append(frames, parts...)
		case 1:
			// another frame with the same columns
			o := s
			o.N = c.rows(GenOpt{})
			o.Cols = nil
			for _, col := range s.Cols {
				o.Cols = append(o.Cols, Col{col.Name, col.T, c.genVals(col.T, o.N, GenOpt{})})
			}
			frames = append(frames, c.chain(c.build(o), 2))
		case 2:
			frames = append(frames, c.selectRows(df).df)
		default:
			frames = append(frames, c.chain(df, 3))
		}
	}
	c.R.Shuffle(len(frames), func(i, j int) { frames[i], frames[j] = frames[j], frames[i] })
	// frames whose columns of the same names have other numerical types: for the batcher only
	retyped := map[*DF]bool{}
	if c.P(0.3) {
		for k := c.Range(1, 2); k > 0; k-- {
			o := Snap{N: c.rows(GenOpt{})}
			changed := false
			for _, col := range s.Cols {
				t := col.T
				if strings.IndexByte("fib", t) >= 0 && c.P(0.5) {
					t = "fib"[c.Int(3)]
				}
				for _, x := range cols {
					changed = changed || x == col.Name && t != col.T
				}
				o.Cols = append(o.Cols, Col{col.Name, t, c.genVals(t, o.N, GenOpt{})})
			}
			f := c.chain(c.build(o), 2)
			retyped[f] = changed
			frames = append(frames, f)
		}
		c.R.Shuffle(len(frames), func(i, j int) { frames[i], frames[j] = frames[j], frames[i] })
	}
	sizes := map[int]bool{}
	for _, f := range frames {
		fs := take(f)
		sizes[fs.N] = true
		if fs.N > 0 {
			c09matrix(c, bat, f, fs, cols)
		}
		if retyped[f] {
			c.Ev("frames-retyped")
			c.NonTrivial()
			if ite != nil && c.P(0.5) {
				c.mustPanic("checked Reset with a frame whose columns have other types", func() { ite.Reset(f, true) })
				ite.Reset(df, true)
				c09iterate(c, ite, df, s, cols)
			}
			continue
		}
		if ite == nil {
			ite = dataframe.NewFloat32Iterator(f, append([]string{}, cols...))
		} else {
			ite.Reset(f, c.P(0.5))
		}
		if d := strings.Join(ite.Columns(), "\x00"); d != strings.Join(cols, "\x00") {
			c.Failf("iterator columns are %q instead of %q", ite.Columns(), cols)
		}
		c09iterate(c, ite, f, fs, cols)
		c.same("frame after reading it", take(f), fs)
	}
	if len(sizes) > 1 {
		c.NonTrivial()
	}
	c.EvN("frames-read", len(frames))
	if objs := s.names("os"); len(objs) > 0 && n > 0 && c.P(0.2) {
		c.mustPanic("batching an object column", func() { dataframe.NewDense64Batching([]string{objs[0]}).DenseMatrix(df) })
	}
}

func c09columns(c *Ctx, df *DF, s Snap) {
	n := s.N
	sh := sharedIdx(df)
	in := dataframe.DataFrameInternals{DF: df}
	ind := in.GetIndices()
	if len(ind) != n {
		c.Failf("%d indices for %d rows", len(ind), n)
	}
	for i := range ind {
		if sh != nil && ind[i] != sh[i] {
			c.Failf("row %d: internal index %d, shared index %d", i, ind[i], sh[i])
		}
	}
	for _, col := range s.Cols {
		var size int
		var idx func(int) int
		raw := func(int) interface{} { return nil }
		switch col.T {
		case 'f':
			a := df.Floats(col.Name)
			size, idx = a.Size(), a.SharedIndex
			d := in.FloatData(col.Name)
			raw = func(i int) interface{} { return d[i] }
			if n > 0 {
				c09vec(c, df, a, col)
			}
		case 'i':
			a := df.Ints(col.Name)
			size, idx = a.Size(), a.SharedIndex
			d := in.IntData(col.Name)
			raw = func(i int) interface{} { return d[i] }
		case 'b':
			a := df.Bools(col.Name)
			size, idx = a.Size(), a.SharedIndex
			d := in.BoolData(col.Name)
			raw = func(i int) interface{} { return d[i] }
		case 'o', 's':
			a := df.Objects(col.Name)
			size, idx = a.Size(), a.SharedIndex
			d := in.ObjectData(col.Name)
			raw = func(i int) interface{} { return d[i] }
			if col.T == 's' {
				st := df.Strings(col.Name)
				if st.Size() != n {
					c.Failf("Strings(%q).Size() is %d for %d rows", col.Name, st.Size(), n)
				}
				for i, v := range col.V {
					if str, ok := v.(string); ok && st.Get(i) != str {
						c.Failf("Strings(%q).Get(%d) is %q, Objects gives %q", col.Name, i, st.Get(i), str)
					}
				}
			} else {
				c.mustPanic("Strings() of a plain object column", func() { df.Strings(col.Name) })
			}
		default:
			c.Failf("string mark on %q, which is no object column", col.Name)
		}
		if size != n {
			c.Failf("accessor of %q has size %d for %d rows", col.Name, size, n)
		}
		box := df.CopyValuesToInterfaces(col.Name)
		if len(box) != n {
			c.Failf("CopyValuesToInterfaces(%q) has %d values for %d rows", col.Name, len(box), n)
		}
		for i, v := range col.V {
			if !eqv(box[i], v) {
				c.Failf("CopyValuesToInterfaces(%q)[%d] is %s, accessor gives %s", col.Name, i, vstr(box[i]), vstr(v))
			}
			if idx(i) != sh[i] {
				c.Failf("shared index of row %d differs between columns", i)
			}
			if !eqv(raw(idx(i)), v) {
				c.Failf("storage of %q at %d is %s, row %d shows %s", col.Name, idx(i), vstr(raw(idx(i))), i, vstr(v))
			}
			box[i] = "overwritten"
		}
		c.EvN("values-read", n)
	}
	c.same("frame after changing the boxed copies", take(df), s)
}

// c09refused: columns are only read as what they are.
func c09refused(c *Ctx, df *DF, s Snap) {
	name, t := "no such column", byte('?')
	if len(s.Cols) > 0 && c.P(0.8) {
		col := s.Cols[c.Int(len(s.Cols))]
		name, t = col.Name, col.T
	}
	for _, a := range []struct {
		types string
		what  string
		f     func()
	}{
		{"f", "Floats", func() { df.Floats(name) }},
		{"i", "Ints", func() { df.Ints(name) }},
		{"b", "Bools", func() { df.Bools(name) }},
		{"os", "Objects", func() { df.Objects(name) }},
		{"s", "Strings", func() { df.Strings(name) }},
	} {
		if !strings.Contains(a.types, string(t)) {
			c.mustPanic(fmt.Sprintf("%s(%q) of a column of type %c", a.what, name, t), a.f)
		}
	}
}

// c09vecShared: a vector of a plain frame shares its data, a vector of other frames never does.
func c09vecShared(c *Ctx) {
	n := c.Pick(2, 3, 5, 130)
	vals := toFloats(c.genVals('f', n, GenOpt{Finite: true}))
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	df := b.AddFloats("x", vals...).ToDataFrame()
	i := c.Int(n)
	var v *mat.VecDense
	if c.P(0.5) {
		if c.P(0.5) {
			df = df.View()
		}
		v = df.Floats("x").VecDense()
		df.Floats("x").Set(i, 1234.5)
		if v.AtVec(i) != 1234.5 {
			c.Failf("the vector of a contiguous frame of %d rows is a copy", n)
		}
		c.Ev("shared-vectors")
		return
	}
	df = df.ReverseView()
	v = df.Floats("x").VecDense()
	v.SetVec(i, 1234.5)
	if got := df.Floats("x").Get(i); !eqv(got, vals[n-1-i]) {
		c.Failf("writing into the vector of a reversed view makes row %d %v instead of %v", i, got, vals[n-1-i])
	}
	c.Ev("copied-vectors")
}

func c09vec(c *Ctx, df *DF, a dataframe.FloatAccess, col Col) {
	for k, v := range []*mat.VecDense{a.VecDenseCopy(), a.VecDense()} {
		what := []string{"VecDenseCopy", "VecDense"}[k]
		if v.Len() != len(col.V) {
			c.Failf("%s of %q has %d elements for %d rows", what, col.Name, v.Len(), len(col.V))
		}
		for i, x := range col.V {
			if !eqv(v.AtVec(i), x) {
				c.Failf("%s of %q element %d is %v, accessor gives %s", what, col.Name, i, v.AtVec(i), vstr(x))
			}
		}
		if k == 0 {
			for i := 0; i < v.Len(); i++ {
				v.SetVec(i, 12345.5)
			}
			for i, x := range col.V {
				if !eqv(a.Get(i), x) {
					c.Failf("changing VecDenseCopy of %q changed row %d of the frame", col.Name, i)
				}
			}
		}
	}
}

func c09matrix(c *Ctx, bat *dataframe.Dense64Batching, df *DF, s Snap, cols []string) {
	m := bat.DenseMatrix(df)
	r, k := m.Dims()
	if r != s.N || k != len(cols) {
		c.Failf("DenseMatrix is %dx%d for %d rows and %d columns", r, k, s.N, len(cols))
	}
	for j, name := range cols {
		col := s.col(name)
		for i := 0; i < r; i++ {
			if got, want := m.At(i, j), numOf(col.V[i]); !eqv(got, want) {
				c.Failf("DenseMatrix(%d,%d) is %v, column %q row %d is %v", i, j, got, name, i, want)
			}
		}
	}
	c.EvN("matrix-cells", r*k)
	if t, ok := m.(mat.Transpose); ok {
		if d, ok := t.Matrix.(*mat.Dense); ok && c.P(0.5) {
			for i := 0; i < k; i++ {
				for j := 0; j < r; j++ {
					d.Set(i, j, -777)
				}
			}
		}
	}
}

func c09iterate(c *Ctx, ite *dataframe.Float32Iterator, df *DF, s Snap, cols []string) {
	sh := sharedIdx(df)
	stop := s.N
	if c.P(0.25) && s.N > 0 {
		stop = c.Int(s.N) // abandoned halfway: the next Reset starts over
	}
	for i := 0; i < stop; i++ {
		row, vi, si := ite.NextRow()
		if row == nil {
			c.Failf("iterator ends at row %d of %d", i, s.N)
		}
		if len(row) != len(cols) {
			c.Failf("iterator rows have %d elements for %d columns", len(row), len(cols))
		}
		if vi != i || si != sh[i] {
			c.Failf("iterator gives indices (%d,%d) for row %d stored at %d", vi, si, i, sh[i])
		}
		for j, name := range cols {
			v := s.col(name).V[i]
			want := float32(numOf(v))
			alt := want // an integer may be rounded once or by way of float64
			if x, ok := v.(int); ok {
				alt = float32(x)
			}
			if row[j] != want && row[j] != alt && !(want != want && row[j] != row[j]) {
				c.Failf("iterator row %d column %q is %v instead of %v", i, name, row[j], want)
			}
			row[j] = 4321
		}
	}
	c.EvN("rows-iterated", stop)
	if stop == s.N {
		for k := 0; k < 2; k++ {
			row, vi, si := ite.NextRow()
			if row != nil {
				c.Failf("iterator goes on after the last of %d rows", s.N)
			}
			if vi != s.N || !storageSizes(df)[si] {
				c.Failf("iterator ends with (%d,%d) instead of (%d,%v)", vi, si, s.N, storageSizes(df))
			}
		}
	}
}

// storageSizes gives the sizes of the columns' storage (concatenated views of
// differently sized data may mix several).
func storageSizes(df *DF) map[int]bool {
	in := dataframe.DataFrameInternals{DF: df}
	m := map[int]bool{}
	for _, n := range df.FloatHeader().NameList() {
		m[len(in.FloatData(n))] = true
	}
	for _, n := range df.IntHeader().NameList() {
		m[len(in.IntData(n))] = true
	}
	for _, n := range df.BoolHeader().NameList() {
		m[len(in.BoolData(n))] = true
	}
	for _, n := range df.ObjectHeader().NameList() {
		m[len(in.ObjectData(n))] = true
	}
	return m
}

func c27(c *Ctx) {
	n := c.rows(GenOpt{MinRows: 1})
	o := GenOpt{Finite: true, NoNaN: !c.P(0.2), Types: "f", MaxCols: 2, PlainNames: true, MinRows: n, Fixed: true}
	mk := func() dataframe.FloatAccess {
		df := c.chain(c.genFrame(o), 2)
		switch {
		case df.NumRows() > n:
			df = df.SliceView(0, n)
		case df.NumRows() < n:
			idx := make([]int, n)
			if df.NumRows() == 0 {
				df = c.genFrame(o)
			}
			for i := range idx {
				idx[i] = c.Int(df.NumRows())
			}
			df = df.IndexView(idx)
		}
		return df.Floats(df.FloatHeader().NameList()[0])
	}
	a := mk()
	b := a
	if c.P(0.9) {
		b = mk()
	}
	var se, ae, vse, vae float64
	for i := 0; i < n; i++ {
		d := a.Get(i) - b.Get(i)
		se += d * d
		ae += math.Abs(d)
	}
	if se > 0 && n >= 2 {
		c.NonTrivial()
	}
	vse, vae = se/float64(n), ae/float64(n)
	near := func(what string, got, want float64) {
		if !closeTo(got, want, 1e-9, 0) {
			c.Failf("%s is %v instead of %v (%d rows)", what, got, want, n)
		}
		c.Ev("metric-compared")
	}
	near("MSE", algorithms.MSE(a, b), vse)
	near("MSE with swapped arguments", algorithms.MSE(b, a), vse)
	near("MAE", algorithms.MAE(a, b), vae)
	near("MAE with swapped arguments", algorithms.MAE(b, a), vae)
	if !math.IsNaN(se) {
		near("MSE of a column with itself", algorithms.MSE(a, a), 0)
		near("MAE of a column with itself", algorithms.MAE(b, b), 0)
	}
	o.MinRows = n + 1 + c.Int(3)
	o.MaxRows = o.MinRows
	l := c.genFrame(o)
	other := l.Floats(l.FloatHeader().NameList()[0])
	for _, f := range []func(){func() { algorithms.MSE(a, other) }, func() { algorithms.MSE(other, a) },
		func() { algorithms.MAE(a, other) }, func() { algorithms.MAE(other, a) }} {
		c.mustPanic("metric of columns of different sizes", f)
	}
}

// closeTo compares with a relative and an absolute tolerance; NaN equals NaN.
func closeTo(a, b, rel, abs float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	d := math.Abs(a - b)
	return d <= abs || d <= rel*math.Max(math.Abs(a), math.Abs(b))
}

func c28(c *Ctx) {
	raw := dataframe.NewRawData()
	b := dataframe.DataBuilder{RawData: raw}
	n := c.Int(9)
	if c.P(0.2) {
		n = c.rows(GenOpt{})
	}
	type bcol struct {
		Col
		set  bool // last defined by Set: shares the slice
		f    []float64
		i    []int
		bo   []bool
		o    []interface{}
		todo int
		mark bool
	}
	var cols []*bcol
	used := map[string]bool{}
	nc := c.Range(0, 6)
	ragged := c.P(0.35) && nc >= 2
	for k := 0; k < nc; k++ {
		name := fmt.Sprintf("c%d", k)
		if c.P(0.3) {
			name = oddNames[c.Int(len(oddNames))]
		}
		if used[name] {
			continue
		}
		used[name] = true
		cols = append(cols, &bcol{Col: Col{Name: name, T: "fibso"[c.Int(5)]}, todo: n})
	}
	if len(cols) < 2 {
		ragged = false
	}
	if ragged {
		x := cols[c.Int(len(cols))]
		if n > 0 && c.P(0.4) {
			x.todo = c.Int(n)
		} else {
			x.todo = n + 1 + c.Int(3)
		}
	}
	calls := 0
	var spares []func() (string, bool)
	open := append([]*bcol{}, cols...)
	for len(open) > 0 {
		k := c.Int(len(open))
		x := open[k]
		m := x.todo
		if c.P(0.7) && m > 0 {
			m = c.Int(m + 1)
		}
		rest := x.todo - m
		v := c.genVals(x.T, m, GenOpt{})
		set := len(x.V) == 0 && c.P(0.4) || c.P(0.06)
		if set { // replaces whatever was there
			m = x.todo + len(x.V)
			rest = 0
			if c.P(0.4) { // values will be added to the slice later
				rest = c.Int(m + 1)
				m -= rest
			}
			v = c.genVals(x.T, m, GenOpt{})
			x.V = nil
		}
		calls++
		c.Log("%s %q %c %d values", map[bool]string{true: "Set", false: "Add"}[set], x.Name, x.T, m)
		switch x.T {
		case 'f':
			f := toFloats(v)
			if set {
				if c.P(0.5) { // the slice is the beginning of a longer one
					f = append(f, -55.5)
					last := f[len(f)-1:]
					f = f[:len(f)-1]
					spares = append(spares, func() (string, bool) { return x.Name, last[0] == -55.5 })
				}
				if old := x.f; len(old) > 0 { // the slice that is replaced stays as it is
					was := append([]float64{}, old...)
					spares = append(spares, func() (string, bool) {
						for i := range was {
							if !eqv(was[i], old[i]) {
								return x.Name, false
							}
						}
						return x.Name, true
					})
					c.Ev("replaced-slices")
				}
				x.f = f
				b = b.SetFloats(x.Name, f)
			} else {
				b = b.AddFloats(x.Name, f...)
				for i := range f {
					f[i] = -9
				}
			}
		case 'i':
			f := toInts(v)
			if set {
				if c.P(0.5) { // the slice is the beginning of a longer one
					f = append(f, -55)
					last := f[len(f)-1:]
					f = f[:len(f)-1]
					spares = append(spares, func() (string, bool) { return x.Name, last[0] == -55 })
				}
				if old := x.i; len(old) > 0 { // the slice that is replaced stays as it is
					was := append([]int{}, old...)
					spares = append(spares, func() (string, bool) {
						for i := range was {
							if !eqv(was[i], old[i]) {
								return x.Name, false
							}
						}
						return x.Name, true
					})
					c.Ev("replaced-slices")
				}
				x.i = f
				b = b.SetInts(x.Name, f)
			} else {
				b = b.AddInts(x.Name, f...)
				for i := range f {
					f[i] = -9
				}
			}
		case 'b':
			f := toBools(v)
			if set {
				if c.P(0.5) { // the slice is the beginning of a longer one
					f = append(f, true)
					last := f[len(f)-1:]
					f = f[:len(f)-1]
					spares = append(spares, func() (string, bool) { return x.Name, last[0] })
				}
				if old := x.bo; len(old) > 0 { // the slice that is replaced stays as it is
					was := append([]bool{}, old...)
					spares = append(spares, func() (string, bool) {
						for i := range was {
							if !eqv(was[i], old[i]) {
								return x.Name, false
							}
						}
						return x.Name, true
					})
					c.Ev("replaced-slices")
				}
				x.bo = f
				b = b.SetBools(x.Name, f)
			} else {
				b = b.AddBools(x.Name, f...)
				for i := range f {
					f[i] = !f[i]
				}
			}
		default:
			f := cloneVals(v)
			plain := x.T == 's'
			for _, e := range f {
				if _, ok := e.(string); !ok {
					plain = false
				}
			}
			switch {
			case set:
				if c.P(0.5) { // the slice is the beginning of a longer one
					f = append(f, "spare")
					last := f[len(f)-1:]
					f = f[:len(f)-1]
					spares = append(spares, func() (string, bool) { return x.Name, last[0] == "spare" })
				}
				if old := x.o; len(old) > 0 { // the slice that is replaced stays as it is
					was := append([]interface{}{}, old...)
					spares = append(spares, func() (string, bool) {
						for i := range was {
							if !eqv(was[i], old[i]) {
								return x.Name, false
							}
						}
						return x.Name, true
					})
					c.Ev("replaced-slices")
				}
				x.o = f
				b = b.SetObjects(x.Name, f)
			case plain && c.P(0.5):
				strs := make([]string, len(f))
				for i := range f {
					strs[i] = f[i].(string)
				}
				b = b.AddStrings(x.Name, strs...)
				x.mark = true
			default:
				b = b.AddObjects(x.Name, f...)
				for i := range f {
					f[i] = "changed later"
				}
			}
			if x.T == 's' && (c.P(0.5) || rest == 0 && !x.mark) {
				b = b.MarkAsString(x.Name)
				x.mark = true
			}
		}
		if set || m > 0 {
			x.set = set
		}
		x.V = append(x.V, v...)
		x.todo = rest
		if rest == 0 {
			open = append(open[:k], open[k+1:]...)
		}
	}
	want := Snap{N: 0}
	for _, x := range cols {
		want = want.with(Col{x.Name, x.T, x.V})
		want.N = len(x.V)
	}
	lens := map[int]bool{}
	for _, x := range cols {
		lens[len(x.V)] = true
	}
	if calls >= 2 {
		c.NonTrivial()
	}
	toDF := func() *DF {
		if c.P(0.5) {
			return raw.ToDataFrame()
		}
		return b.ToDataFrame()
	}
	if c.P(0.3) { // the consistency check agrees with the conversion, but for strings in plain object columns
		fine := len(lens) <= 1
		for _, x := range cols {
			if x.T == 'o' {
				for _, v := range x.V {
					if _, ok := v.(string); ok {
						fine = false
					}
				}
			}
		}
		passed, got := asTest(raw.CheckConsistency)
		if passed != fine || got != fine {
			c.Failf("CheckConsistency of %s gives %v and the test passes: %v, it should be %v", want.schema(), got, passed, fine)
		}
		c.Ev(fmt.Sprintf("consistency-%v", fine))
	}
	if len(lens) > 1 {
		c.mustPanic(fmt.Sprintf("ToDataFrame of ragged columns (%s)", want.schema()), func() { toDF() })
		c.Ev("ragged-refused")
		return
	}
	if len(cols) > 0 && c.P(0.08) { // one name for two columns, or a string mark on something else
		x := cols[c.Int(len(cols))]
		c.Log("clash on %q", x.Name)
		switch c.Int(4) {
		case 0:
			if x.T == 'f' {
				b.SetInts(x.Name, make([]int, len(x.V)))
			} else {
				b.SetFloats(x.Name, make([]float64, len(x.V)))
			}
		case 1:
			if x.T == 'b' {
				b.AddObjects(x.Name, make([]interface{}, len(x.V))...)
			} else {
				b.AddBools(x.Name, make([]bool, len(x.V))...)
			}
		case 2:
			b.MarkAsString("no such column")
		case 3:
			if strings.IndexByte("fib", x.T) < 0 {
				return
			}
			b.MarkAsString(x.Name)
		}
		c.mustPanic("ToDataFrame of columns that clash", func() { toDF() })
		c.Ev("clash-refused")
		return
	}
	df := toDF()
	got := take(df)
	c.same("built frame", got, want)
	for _, f := range spares {
		if name, ok := f(); !ok {
			c.Failf("adding values to column %q or replacing them changes the memory of a slice it was set to", name)
		}
		c.Ev("spare-memory-intact")
	}
	if df.NumColumns() != len(cols) {
		c.Failf("built frame has %d columns instead of %d", df.NumColumns(), len(cols))
	}
	if n == 0 {
		return
	}
	// set columns share the caller's slice, both ways
	for k := range want.Cols {
		for _, x := range cols {
			if x.Name != want.Cols[k].Name || !x.set || len(x.V) == 0 {
				continue
			}
			i, j := c.Int(len(x.V)), c.Int(len(x.V))
			v := c.genVals(x.T, 2, GenOpt{NoNil: true, NoNaN: true})
			nv := cloneVals(x.V)
			nv[i] = v[0]
			want.Cols[k].V = nv
			c.Log("probe %q", x.Name)
			switch x.T {
			case 'f':
				x.f[i] = v[0].(float64)
				df.Floats(x.Name).Set(j, v[1].(float64))
				if !eqv(x.f[j], v[1]) {
					c.Failf("writing to the frame does not change the slice of set column %q", x.Name)
				}
			case 'i':
				x.i[i] = v[0].(int)
				df.Ints(x.Name).Set(j, v[1].(int))
				if !eqv(x.i[j], v[1]) {
					c.Failf("writing to the frame does not change the slice of set column %q", x.Name)
				}
			case 'b':
				x.bo[i] = v[0].(bool)
				df.Bools(x.Name).Set(j, v[1].(bool))
				if !eqv(x.bo[j], v[1]) {
					c.Failf("writing to the frame does not change the slice of set column %q", x.Name)
				}
			default:
				x.o[i] = v[0]
				df.Objects(x.Name).Set(j, v[1])
				if !eqv(x.o[j], v[1]) {
					c.Failf("writing to the frame does not change the slice of set column %q", x.Name)
				}
			}
			nv[j] = v[1]
			c.Ev("sharing-probed")
		}
	}
	c.same("built frame after the probes", take(df), want)
	if len(cols) > 0 && c.P(0.4) { // the raw data grows on
		t := "fibos"[c.Int(5)]
		var fresh []string
		for k := c.Int(4); k > 0; k-- {
			name := fmt.Sprintf("fresh%d", k)
			fresh = append(fresh, name)
			v := make([]interface{}, n)
			for i := range v {
				v[i] = zeroOf(t)
			}
			want = want.with(Col{name, t, v})
		}
		c.Log("allocates %d %c columns and goes on", len(fresh), t)
		switch t {
		case 'f':
			raw.AllocFloats(fresh...)
		case 'i':
			raw.AllocInts(fresh...)
		case 'b':
			raw.AllocBools(fresh...)
		case 'o':
			raw.AllocObjects(fresh...)
		case 's':
			raw.AllocStrings(fresh...)
		}
		m := 1 + c.Int(4)
		for k := range want.Cols {
			col := &want.Cols[k]
			v := c.genVals(col.T, m, GenOpt{NoNil: true})
			col.V = append(cloneVals(col.V), v...)
			for from, to := 0, c.Int(m+1); from < m; from, to = to, m {
				switch col.T {
				case 'f':
					b.AddFloats(col.Name, toFloats(v[from:to])...)
				case 'i':
					b.AddInts(col.Name, toInts(v[from:to])...)
				case 'b':
					b.AddBools(col.Name, toBools(v[from:to])...)
				default:
					b.AddObjects(col.Name, v[from:to]...)
				}
			}
		}
		want.N = n + m
		c.same("frame built on", take(b.ToDataFrame()), want)
		c.Ev("built-on")
	}
	if c.P(0.3) {
		raw.SetMaxCPU(1)
		b2 := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.TextEncoding(charmap.ISO8859_1).AddStrings("x", "\xe9")
		d := b2.ToDataFrame()
		if err := d.Encode(nil); err != nil || d.Strings("x").Get(0) != "é" {
			c.Failf("the text encoding given to the builder is not the frame's (%q, %v)", d.Strings("x").Get(0), err)
		}
	}
}

func c29(c *Ctx) {
	df := c.genAny(GenOpt{})
	s := take(df)
	all := s.names("fibso")
	if len(all) >= 2 {
		c.NonTrivial()
	}
	get := map[string]func() dataframe.ColumnHeader{
		"FloatHeader": df.FloatHeader, "IntHeader": df.IntHeader, "BoolHeader": df.BoolHeader,
		"ObjectHeader": df.ObjectHeader, "StringHeader": df.StringHeader, "Header": df.Header,
	}
	types := map[string]string{"FloatHeader": "f", "IntHeader": "i", "BoolHeader": "b", "ObjectHeader": "os", "StringHeader": "s", "Header": "fibso"}
	var kinds []string
	for k := range get {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	type pair struct {
		h dataframe.ColumnHeader
		m map[string]bool
	}
	set := func(names []string) map[string]bool {
		m := map[string]bool{}
		for _, x := range names {
			m[x] = true
		}
		return m
	}
	check := func(what string, h dataframe.ColumnHeader, m map[string]bool) {
		l := h.NameList()
		if h.Num() != len(m) || len(l) != len(m) || len(h.NameSet()) != len(m) {
			c.Failf("%s has %d/%d/%d names instead of %d", what, h.Num(), len(l), len(h.NameSet()), len(m))
		}
		for _, x := range l {
			if !m[x] {
				c.Failf("%s contains %q", what, x)
			}
		}
		for x := range m {
			if !h.NameSet()[x] {
				c.Failf("%s lacks %q", what, x)
			}
		}
		c.Ev("header-compared")
	}
	fresh := func() pair {
		if c.P(0.15) {
			names := c.subset(append(append([]string{}, all...), "zz", "other"), 0)
			return pair{dataframe.Columns(names...), set(names)}
		}
		k := kinds[c.Int(len(kinds))]
		return pair{get[k](), set(s.names(types[k]))}
	}
	for _, k := range kinds {
		check(k, get[k](), set(s.names(types[k])))
	}
	cp := func(m map[string]bool) map[string]bool {
		r := map[string]bool{}
		for x := range m {
			r[x] = true
		}
		return r
	}
	for j := 1 + c.Int(6); j > 0; j-- {
		// the operations replace their receiver and leave all other headers alone
		pool := []pair{fresh(), fresh(), fresh()}
		if c.P(0.3) {
			pool[c.Int(3)] = pair{dataframe.ColumnHeader{}, map[string]bool{}}
		}
		for q := 1 + c.Int(5); q > 0; q-- {
			at := c.Int(len(pool))
			p := pool[at]
			var others []pair
			var hs []dataframe.ColumnHeader
			for o := c.Pick(0, 1, 1, 2, 3); o > 0; o-- {
				x := pool[c.Int(len(pool))]
				if c.P(0.3) {
					x = fresh()
					pool = append(pool, x)
				}
				others = append(others, pair{x.h, cp(x.m)})
				hs = append(hs, x.h)
			}
			r := pair{p.h, cp(p.m)}
			switch c.Int(5) {
			case 0, 1:
				c.Log("And %d headers", len(hs))
				r.h = p.h.And(hs...)
				for _, o := range others {
					for x := range o.m {
						r.m[x] = true
					}
				}
				check("union", r.h, r.m)
			case 2:
				c.Log("ExceptHeader %d headers", len(hs))
				r.h = p.h.ExceptHeader(hs...)
				for _, o := range others {
					for x := range o.m {
						delete(r.m, x)
					}
				}
				check("difference", r.h, r.m)
			case 3:
				l := c.subset(append(append([]string{}, all...), "zz"), 0)
				c.Log("Except(%q)", l)
				r.h = p.h.Except(l...)
				for _, x := range l {
					delete(r.m, x)
				}
				check("difference", r.h, r.m)
			default:
				c.Log("Copy")
				r.h = p.h.Copy()
				check("copy", r.h, r.m)
				pool = append(pool, r)
				continue // the original is alive
			}
			pool[at] = r
			for _, o := range pool {
				check("header after operations on other headers", o.h, o.m)
			}
		}
		p := pool[c.Int(len(pool))]
		l := p.h.NameList()
		for i := range l {
			l[i] = "changed"
		}
		check("header after changing its list of names", p.h, p.m)
		// whatever is done to a header leaves the frame alone
		for _, k := range kinds {
			h := get[k]()
			switch c.Int(3) {
			case 0:
				h.And(dataframe.Columns("not a column"))
			case 1:
				h.Except(all...)
			default:
				for x := range h.NameSet() {
					delete(h.NameSet(), x)
				}
				h.NameSet()["not a column"] = true
			}
		}
		c.same("frame after changing its headers", take(df), s)
	}
	// and a header is detached from later changes of the frame
	p := fresh()
	v := df.ShallowCopy()
	h := v.Header()
	hs := v.StringHeader()
	v.AllocFloats("later")
	v.AllocStrings("later2")
	if len(all) > 0 {
		v.Drop(all[0])
	}
	check("header obtained before editing the frame", h, set(all))
	check("string header obtained before editing the frame", hs, set(s.names("s")))
	_ = p
}

// captureStdout returns what f prints on standard output.
func captureStdout(c *Ctx, f func()) string {
	path := c.Scratch + fmt.Sprintf("/stdout-%d", os.Getpid())
	out, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = out
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	out.Seek(0, 0)
	b, err := io.ReadAll(out)
	if err != nil {
		panic(err)
	}
	out.Close()
	os.Remove(path)
	return string(b)
}

// matchChunks tells whether text is the concatenation of the chunks in some order.
func matchChunks(text string, chunks []string) bool {
	used := make([]bool, len(chunks))
	var rec func(text string, left int) bool
	rec = func(text string, left int) bool {
		if left == 0 {
			return text == ""
		}
		for k, ch := range chunks {
			if !used[k] && strings.HasPrefix(text, ch) {
				used[k] = true
				if rec(text[len(ch):], left-1) {
					return true
				}
				used[k] = false
			}
		}
		return false
	}
	return rec(text, len(chunks))
}

func printed(col Col, i int, format string, encoded bool) string {
	switch x := col.V[i].(type) {
	case nil:
		return " <missing>"
	case float64:
		return " " + fmt.Sprintf(format, x)
	case int:
		return fmt.Sprintf(" %d", x)
	case bool:
		if x {
			return " 1"
		}
		return " 0"
	case string:
		if encoded {
			return " <NOT-UTF8>"
		}
		return " '" + x + "'"
	default:
		return fmt.Sprintf(" %v", x)
	}
}

var recordPrefix = regexp.MustCompile(`^\[ *(\d+): *\d+\]`)

func c30(c *Ctx) {
	s := c.genSnap(GenOpt{MaxRows: 40, MaxCols: 7})
	for k := range s.Cols {
		if s.Cols[k].T == 'o' {
			for i := range s.Cols[k].V {
				s.Cols[k].V[i] = nil
				if c.P(0.7) {
					s.Cols[k].V[i] = &obj{c.Int(1000)}
				}
			}
		}
	}
	raw := dataframe.NewRawData()
	raw.SetMaxCPU(c.Pick(1, 2, 8))
	b := dataframe.DataBuilder{RawData: raw}
	for _, col := range s.Cols {
		c.addCol(b, col)
	}
	encoded := c.P(0.1)
	if encoded {
		b.TextEncoding(charmap.Windows1252)
	}
	df := c.chain(b.ToDataFrame(), 3)
	s = take(df)
	n := c.Pick(-1, -5, 0, 1, 2, s.N, s.N+1, s.N/2, c.Int(s.N+1))
	rows := n
	if n < 0 || n > s.N {
		rows = s.N
	}
	if rows > 0 {
		c.NonTrivial()
	}
	format := []string{"", "%.4f", "%g", "%8.2f", "%e"}[c.Int(5)]
	eff := format
	if eff == "" {
		eff = "%.3f"
	}
	c.Log("PrintHead(%d,%q) of %s", n, format, s.schema())
	text := captureStdout(c, func() { df.PrintHead(n, format) })
	var chunks []string
	for _, col := range s.Cols {
		var sb strings.Builder
		sb.WriteString(col.Name + ":")
		for i := 0; i < rows; i++ {
			sb.WriteString(printed(col, i, eff, encoded))
		}
		sb.WriteString("\n")
		chunks = append(chunks, sb.String())
	}
	if !matchChunks(text, chunks) {
		c.Failf("PrintHead(%d,%q) does not show exactly the first %d rows of each column:\n%s\nexpected (columns in any order):\n%s", n, format, rows, text, strings.Join(chunks, ""))
	}
	c.EvN("columns-printed", len(chunks))
	c.same("frame after PrintHead", take(df), s)

	// short names
	short := map[string]string{}
	switch c.Int(4) {
	case 0:
		min := c.Pick(-1, 0, 1, 2, 3, 5)
		short = df.GoodShortNames(min)
		seen := map[string]string{}
		for name, sh := range short {
			if s.col(name) == nil {
				c.Failf("GoodShortNames names %q, which is no column", name)
			}
			if !strings.HasPrefix(name, sh) {
				c.Failf("short name %q is not a prefix of %q", sh, name)
			}
			if o, dup := seen[sh]; dup {
				c.Failf("%q and %q have the same short name %q", o, name, sh)
			}
			seen[sh] = name
			if sh != name && s.col(sh) != nil {
				c.Failf("the short name %q of %q is the name of another column", sh, name)
			}
		}
		// a name whose beginning nothing else starts with can be shortened
		min = imax(min, 0)
		if min == 0 {
			min = 3
		}
		for _, col := range s.Cols {
			if len(col.Name) < min {
				continue
			}
			alone := true
			for _, o := range s.Cols {
				alone = alone && (o.Name == col.Name || !strings.HasPrefix(o.Name, col.Name[:min]))
			}
			if sh, ok := short[col.Name]; alone && (!ok || len(sh) != min) {
				c.Failf("GoodShortNames(%d) gives %q for %q, whose first bytes are unique among %s", min, sh, col.Name, s.schema())
			}
			if alone {
				c.Ev("unique-beginnings")
			}
		}
		c.EvN("short-names", len(short))
	case 1:
		short = nil
	case 2:
		for i, col := range s.Cols {
			if c.P(0.6) {
				short[col.Name] = fmt.Sprintf("%%%d%%s", i)
				if c.P(0.1) {
					short[col.Name] = ""
				}
			}
		}
	}
	c.Log("PrintRecords(%d,%q,%q)", n, format, short)
	text = captureStdout(c, func() { df.PrintRecords(n, format, short) })
	rest := text
	for i := 0; i < rows; i++ {
		m := recordPrefix.FindStringSubmatch(rest)
		if m == nil || m[1] != fmt.Sprint(i) {
			c.Failf("record %d of PrintRecords(%d) does not start with its row number: %.200q", i, n, rest)
		}
		rest = rest[len(m[0]):]
		var parts []string
		total := 0
		for _, col := range s.Cols {
			name := col.Name
			if sh, ok := short[name]; ok {
				name = sh
			}
			p := " " + name + ":" + printed(col, i, eff, encoded)
			parts = append(parts, p)
			total += len(p)
		}
		if len(rest) <= total || rest[total] != '\n' || !matchChunks(rest[:total], parts) {
			c.Failf("record %d of PrintRecords(%d,%q) is not %q: %.300q", i, n, format, strings.Join(parts, ""), rest)
		}
		rest = rest[total+1:]
		c.Ev("records-printed")
	}
	if rest != "" {
		c.Failf("PrintRecords(%d) of %d rows prints more: %.200q", n, s.N, rest)
	}
	c.same("frame after PrintRecords", take(df), s)

	text = captureStdout(c, func() {
		if df.PrintSummary() != df {
			c.Failf("PrintSummary does not return the frame")
		}
	})
	for _, k := range []struct{ label, t string }{{"float  ", "f"}, {"int    ", "i"}, {"bool   ", "b"}, {"object ", "o"}, {"string ", "s"}} {
		names := s.names(k.t)
		sort.Strings(names)
		if len(names) > 0 && !strings.Contains(text, fmt.Sprintf("%s %s\n", k.label, names)) {
			c.Failf("PrintSummary does not list %q under %s:\n%s", names, k.label, text)
		}
	}
	if !strings.Contains(text, fmt.Sprintf("rows    %d\n", s.N)) {
		c.Failf("PrintSummary does not give the number of rows %d:\n%s", s.N, text)
	}
	captureStdout(c, func() { df.PrintUIDs() })
	df.Debug(true)
	c.same("frame after PrintSummary", take(df), s)
	df.Debug(false)
}
