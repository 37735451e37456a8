package main

import (
	"fmt"
	"sort"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

// The reference model of sharing: a frame's column is a list of pointers to cells;
// frames that share a column share the cells.

type cell struct{ v interface{} }

type mcol struct {
	t     byte
	cells []*cell
}

type mframe struct {
	name    string
	df      *DF
	n       int
	cols    map[string]*mcol
	parents []*mframe
}

func (f *mframe) names(types string) []string {
	var out []string
	for n, c := range f.cols {
		for i := range types {
			if types[i] == c.t {
				out = append(out, n)
			}
		}
	}
	sort.Strings(out)
	return out
}

func (f *mframe) expect() Snap {
	s := Snap{N: f.n}
	for n, c := range f.cols {
		v := make([]interface{}, len(c.cells))
		for i, k := range c.cells {
			v[i] = k.v
		}
		s.Cols = append(s.Cols, Col{n, c.t, v})
	}
	sort.Slice(s.Cols, func(i, j int) bool { return s.Cols[i].Name < s.Cols[j].Name })
	return s
}

// values compares the cells only (types f,i,b,o/s by the kind of the stored values, not the string mark).
func (f *mframe) check() string {
	if f.df.NumRows() != f.n {
		return fmt.Sprintf("%d rows instead of %d", f.df.NumRows(), f.n)
	}
	return diff(take(f.df), f.expect())
}

type world struct {
	c    *Ctx
	live []*mframe
	seq  int
}

func newFromSnap(s Snap, df *DF) *mframe {
	f := &mframe{df: df, n: s.N, cols: map[string]*mcol{}}
	for _, c := range s.Cols {
		m := &mcol{t: c.T, cells: make([]*cell, s.N)}
		for i := range m.cells {
			m.cells[i] = &cell{c.V[i]}
		}
		f.cols[c.Name] = m
	}
	return f
}

func (w *world) add(f *mframe, how string, parents ...*mframe) *mframe {
	w.seq++
	f.name = fmt.Sprintf("F%d", w.seq)
	f.parents = parents
	w.c.Log("%s = %s", f.name, how)
	w.live = append(w.live, f)
	return f
}

func (w *world) pick() *mframe { return w.live[w.c.Int(len(w.live))] }

// trim forgets random frames when there are too many (never the one just added).
func (w *world) trim(max int) {
	for len(w.live) > max {
		k := w.c.Int(len(w.live) - 1)
		w.live = append(w.live[:k], w.live[k+1:]...)
	}
}

func descends(f, from *mframe) bool {
	for _, p := range f.parents {
		if p == from || descends(p, from) {
			return true
		}
	}
	return false
}

// killDescendants stops observing the frames derived from f.
func (w *world) killDescendants(f *mframe) {
	var keep []*mframe
	for _, g := range w.live {
		if g == f || !descends(g, f) {
			keep = append(keep, g)
		}
	}
	w.live = keep
}

func (w *world) checkAll() (string, *mframe) {
	for _, f := range w.live {
		if d := f.check(); d != "" {
			return f.name + ": " + d, f
		}
		w.c.EvN("cells-compared", f.n*len(f.cols))
	}
	return "", nil
}

// rowsOf is the model of a row selection.
func (f *mframe) rowsOf(df *DF, idx []int) *mframe {
	g := &mframe{df: df, n: len(idx), cols: map[string]*mcol{}}
	for n, c := range f.cols {
		m := &mcol{t: c.t, cells: make([]*cell, len(idx))}
		for j, i := range idx {
			m.cells[j] = c.cells[i]
		}
		g.cols[n] = m
	}
	return g
}

func (f *mframe) subset(df *DF, names []string) *mframe {
	g := &mframe{df: df, n: f.n, cols: map[string]*mcol{}}
	for _, n := range names {
		g.cols[n] = f.cols[n]
	}
	return g
}

// copied is the model of a compact copy: one fresh cell per position.
func (f *mframe) copied(df *DF) *mframe { return newFromSnap(f.expect(), df) }

// detach gives the named columns fresh storage (all when names is empty); positions
// showing the same storage row stay tied.
func (f *mframe) detach(names []string) {
	if len(names) == 0 {
		names = f.names("fibso")
	}
	for _, n := range names {
		old := f.cols[n]
		if old == nil {
			continue
		}
		fresh := map[*cell]*cell{}
		m := &mcol{t: old.t, cells: make([]*cell, len(old.cells))}
		for i, k := range old.cells {
			if fresh[k] == nil {
				fresh[k] = &cell{k.v}
			}
			m.cells[i] = fresh[k]
		}
		f.cols[n] = m
	}
}

func (f *mframe) dup(df *DF) *mframe { return f.rowsOf(df, seq(f.n)) }

// mapRows finds, by storage index, which rows of src the rows of child are.
func mapRows(child, src *DF) []int {
	a, b := sharedIdx(child), sharedIdx(src)
	pos := map[int]int{}
	for i, s := range b {
		if _, ok := pos[s]; !ok {
			pos[s] = i
		}
	}
	out := make([]int, len(a))
	for i, s := range a {
		p, ok := pos[s]
		if !ok {
			return nil
		}
		out[i] = p
	}
	return out
}

// deriveShared derives a frame that must share all the columns it forwards.
func (w *world) deriveShared(f *mframe) *mframe {
	c := w.c
	byShared := func(how string, df *DF) *mframe {
		idx := mapRows(df, f.df)
		if idx == nil && df.NumRows() > 0 {
			c.Abandon("row identity lost in " + how)
		}
		return w.add(f.rowsOf(df, idx), f.name+"."+how, f)
	}
	switch c.Int(16) {
	case 0:
		if len(f.cols) == 0 {
			break
		}
		sub := c.subset(f.names("fibso"), 1)
		return w.add(f.subset(f.df.ColumnView(sub...), sub), fmt.Sprintf("%s.ColumnView(%q)", f.name, sub), f)
	case 1:
		return byShared("ShuffleView()", f.df.ShuffleView())
	case 2:
		k := c.Int(f.n + 1)
		return byShared(fmt.Sprintf("SampleView(%d)", k), f.df.SampleView(k, false))
	case 3:
		if nn := f.names("fib"); len(nn) > 0 {
			col := nn[c.Int(len(nn))]
			return byShared(fmt.Sprintf("SortedView(%q)", col), f.df.SortedView(col))
		}
	case 4:
		if nn := f.names("fib"); len(nn) > 0 {
			col := nn[c.Int(len(nn))]
			k := c.Int(f.n + 3)
			return byShared(fmt.Sprintf("TopView(%q,%d)", col, k), f.df.TopView(col, k, c.P(0.5), c.P(0.5)))
		}
	case 5:
		k := 1 + c.Int(imax(1, f.n))
		parts := f.df.SplitView(k)
		j := c.Int(len(parts))
		lo := imin(j*k, f.n)
		hi := lo + parts[j].NumRows()
		if hi > f.n {
			c.Abandon("split sizes")
		}
		return w.add(f.rowsOf(parts[j], seq(f.n)[lo:hi]), fmt.Sprintf("%s.SplitView(%d)[%d]", f.name, k, j), f)
	case 6:
		k := 1 + c.Int(4)
		parts := f.df.SplitNView(k)
		j := c.Int(len(parts))
		lo := 0
		for _, p := range parts[:j] {
			lo += p.NumRows()
		}
		hi := lo + parts[j].NumRows()
		if hi > f.n || len(take(parts[j]).Cols) != len(f.cols) {
			c.Abandon("split sizes")
		}
		return w.add(f.rowsOf(parts[j], seq(f.n)[lo:hi]), fmt.Sprintf("%s.SplitNView(%d)[%d]", f.name, k, j), f)
	case 7:
		a, b := f.df.SplitTrainTestViews(0.4)
		df, lo := a, 0
		if c.P(0.5) {
			df, lo = b, a.NumRows()
		}
		if lo+df.NumRows() > f.n {
			c.Abandon("split sizes")
		}
		return w.add(f.rowsOf(df, seq(f.n)[lo:lo+df.NumRows()]), fmt.Sprintf("%s.SplitTrainTestViews@%d", f.name, lo), f)
	case 8:
		return w.add(f.dup(f.df.ShallowCopy()), f.name+".ShallowCopy()", f)
	case 9: // rename on a view
		if len(f.cols) == 0 {
			break
		}
		nn := f.names("fibso")
		old := nn[c.Int(len(nn))]
		nw := fmt.Sprintf("r%d", w.seq)
		if f.cols[nw] != nil {
			break
		}
		v := f.df.View()
		v.Rename(old, nw)
		g := f.dup(v)
		g.cols[nw] = g.cols[old]
		delete(g.cols, old)
		return w.add(g, fmt.Sprintf("%s.View().Rename(%q,%q)", f.name, old, nw), f)
	case 10: // two column subsets of one frame put together again
		nn := f.names("fibso")
		if len(nn) < 2 {
			break
		}
		p := c.R.Perm(len(nn))
		k := 1 + c.Int(len(nn)-1)
		var a, b []string
		for j, i := range p {
			if j < k {
				a = append(a, nn[i])
			} else {
				b = append(b, nn[i])
			}
		}
		r, err := dataframe.ColumnConcatView(f.df.ColumnView(a...), f.df.ColumnView(b...))
		if err != nil {
			c.Abandon("ColumnConcatView refused congruent views")
		}
		return w.add(f.dup(r), fmt.Sprintf("ColumnConcatView(%s%q,%s%q)", f.name, a, f.name, b), f)
	case 11: // the same columns twice, under two names
		nn := f.names("fibso")
		if len(nn) == 0 || len(nn) > 6 {
			break
		}
		old := nn[c.Int(len(nn))]
		nw := fmt.Sprintf("t%d", w.seq)
		if f.cols[nw] != nil {
			break
		}
		v := f.df.ColumnView(old)
		v.Rename(old, nw)
		r, err := dataframe.ColumnConcatView(f.df, v)
		if err != nil {
			c.Abandon("ColumnConcatView refused congruent views")
		}
		g := f.dup(r)
		g.cols[nw] = &mcol{f.cols[old].t, append([]*cell{}, f.cols[old].cells...)}
		return w.add(g, fmt.Sprintf("ColumnConcatView(%s,%s[%q as %q])", f.name, f.name, old, nw), f)
	case 12: // hashing forwards the other columns
		ss := f.names("s")
		if len(ss) == 0 {
			break
		}
		sub := c.subset(ss, 1)
		r := f.df.HashStringsView(sub...)
		g := f.dup(r)
		for _, n := range sub {
			// rows of the view that share storage share the hash cell, too
			a := r.Ints(n)
			byIdx := map[int]*cell{}
			m := &mcol{t: 'i', cells: make([]*cell, f.n)}
			for i := range m.cells {
				k := a.SharedIndex(i)
				if byIdx[k] == nil {
					byIdx[k] = &cell{a.Get(i)}
				}
				m.cells[i] = byIdx[k]
			}
			g.cols[n] = m
		}
		return w.add(g, fmt.Sprintf("%s.HashStringsView(%q)", f.name, sub), f)
	}
	s := c.selectRows(f.df)
	return w.add(f.rowsOf(s.df, s.idx), f.name+"."+s.name, f)
}

// write changes existing columns of f, in the frame and in the model.
func (w *world) write(f *mframe) bool {
	c := w.c
	nn := f.names("fibso")
	if len(nn) == 0 || f.n == 0 {
		return false
	}
	name := nn[c.Int(len(nn))]
	m := f.cols[name]
	val := func() interface{} {
		switch m.t {
		case 'f':
			return c.genFloat(GenOpt{})
		case 'i':
			return c.genInt(GenOpt{})
		case 'b':
			return c.Int(2) == 0
		case 's':
			return fmt.Sprintf("w%d", c.Int(100000))
		}
		return c.genObj(GenOpt{})
	}
	if c.P(0.6) {
		row := c.Int(f.n)
		v := val()
		switch m.t {
		case 'f':
			f.df.Floats(name).Set(row, v.(float64))
		case 'i':
			f.df.Ints(name).Set(row, v.(int))
		case 'b':
			f.df.Bools(name).Set(row, v.(bool))
		case 's':
			if c.P(0.5) {
				f.df.Strings(name).Set(row, v.(string))
			} else {
				if c.P(0.2) {
					v = nil
				}
				f.df.Objects(name).Set(row, v)
			}
		default:
			f.df.Objects(name).Set(row, v)
		}
		m.cells[row].v = v
		c.Log("%s[%q][%d] := %s", f.name, name, row, vstr(v))
		c.Ev("element-write")
		return true
	}
	vals := make([]interface{}, f.n)
	for i := range vals {
		vals[i] = val()
	}
	extra := c.Int(2) // a longer slice is legal too
	switch m.t {
	case 'f':
		if c.P(0.5) {
			f32 := make([]float32, f.n+extra)
			for i := range vals {
				f32[i] = float32(vals[i].(float64))
				vals[i] = float64(f32[i])
			}
			f.df.OverwriteFloats32(name, f32)
			f32[0] = 99
		} else {
			a := append(toFloats(vals), make([]float64, extra)...)
			f.df.OverwriteFloats64(name, a)
			a[0] = 99
		}
	case 'i':
		a := append(toInts(vals), make([]int, extra)...)
		f.df.OverwriteInts(name, a)
		a[0] = 99
	case 'b':
		a := append(toBools(vals), make([]bool, extra)...)
		f.df.OverwriteBools(name, a)
		a[0] = !a[0]
	case 's':
		if c.P(0.5) {
			ss := make([]string, f.n+extra)
			for i, v := range vals {
				ss[i] = v.(string)
			}
			f.df.OverwriteStrings(name, ss)
			ss[0] = "clobbered"
		} else {
			a := cloneVals(vals)
			f.df.OverwriteObjects(name, a, dataframe.StringObject)
			a[0] = "clobbered"
		}
	default:
		a := cloneVals(vals)
		f.df.OverwriteObjects(name, a, dataframe.AnyObject)
		a[0] = "clobbered"
	}
	for i, v := range vals {
		m.cells[i].v = v
	}
	c.Log("overwrite %s[%q]", f.name, name)
	c.Ev("column-overwrite")
	return true
}
