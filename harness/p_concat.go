package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"golang.org/x/text/encoding/charmap"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Prop{ID: "C10", Quick: 60000, Thorough: 6000000, Random: c10, Directed: []func(*Ctx){c10collide},
		Rule:   "1-5 frames/views with equal or different row counts, row selections (same storage rows, permutations, pairs of index lists with equal polynomial hashes, views beside non-views) and column names; outcome and every cell compared with the inputs; non-trivial: >=2 inputs and >=1 row",
		Assume: []string{"every input has at least one column"}})
	register(&Prop{ID: "C11", Quick: 100000, Thorough: 10000000, Random: c11,
		Rule:   "0-6 frames/views with equal columns, or with one column missing, added, renamed or retyped in one of them; list oracle and write probes in both directions; non-trivial: >=2 inputs and >=2 rows in total",
		Assume: []string{"all inputs declare the same encoding"}})
}

// readPaths reads a frame in every way that does not need particular columns and compares with want.
func (c *Ctx) readPaths(what string, df *DF, want Snap) {
	c.same(what, take(df), want)
	c.same(what+" copied", take(df.Copy()), want)
	s := c.selectRows(df)
	c.same(what+" through "+s.name, take(s.df), want.rows(s.idx))
	num := want.names("fib")
	if len(num) > 0 {
		ite := dataframe.NewFloat32Iterator(df, num)
		c09iterate(c, ite, df, want, num)
		if want.N > 0 {
			c09matrix(c, dataframe.NewDense64Batching(num), df, want, num)
		}
	}
	if err := df.To1CSV(io.Discard, dataframe.CSVWritingSpec{MaintainOrder: true}); err != nil {
		c.Failf("%s cannot be written: %v", what, err)
	}
	if c.P(0.1) {
		captureStdout(c, func() { df.PrintHead(3, ""); df.PrintSummary() })
	}
	for _, name := range want.names("f") {
		if want.N == 0 {
			break
		}
		a := df.Floats(name)
		for k, vec := range []*mat.VecDense{a.VecDense(), a.VecDenseCopy()} {
			if vec.Len() != want.N || a.Size() != want.N {
				c.Failf("%s: the vector of column %q has %d elements for %d rows (copied: %v)", what, name, vec.Len(), want.N, k == 1)
			}
			for i, v := range want.col(name).V {
				if !eqv(vec.AtVec(i), v) {
					c.Failf("%s: the vector of column %q has %v at %d instead of %v", what, name, vec.AtVec(i), i, v)
				}
			}
		}
	}
	for _, name := range want.names("s") {
		a := df.Strings(name)
		col := want.col(name)
		for i, v := range col.V {
			if v != nil && a.Get(i) != v.(string) {
				c.Failf("%s: string %q row %d reads %q", what, name, i, a.Get(i))
			}
		}
	}
	for _, col := range want.Cols {
		v := df.CopyValuesToInterfaces(col.Name)
		if len(v) != want.N {
			c.Failf("%s: %d boxed values of column %q", what, len(v), col.Name)
		}
		for i := range v {
			if !eqv(v[i], col.V[i]) {
				c.Failf("%s: boxed column %q row %d is %s", what, col.Name, i, vstr(v[i]))
			}
		}
		v = nil
	}
	if h := df.Header().NameList(); len(h) != len(want.Cols) {
		c.Failf("%s: header %q", what, h)
	}
	in := dataframe.DataFrameInternals{DF: df}
	if len(in.GetIndices()) != want.N {
		c.Failf("%s: %d indices", what, len(in.GetIndices()))
	}
	if nn := want.names("fib"); len(nn) > 0 && want.N > 0 {
		col := nn[c.Int(len(nn))]
		if d := sameMultiset(take(df.SortedView(col)), want); d != "" {
			c.Failf("%s sorted by %q: %s", what, col, d)
		}
	}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// unionOf is the union of the snapshots, ok=false if a name occurs twice.
func unionOf(ss []Snap) (u Snap, ok bool) {
	seen := map[string]bool{}
	u.N = ss[0].N
	for _, s := range ss {
		for _, col := range s.Cols {
			if seen[col.Name] {
				return u, false
			}
			seen[col.Name] = true
			u.Cols = append(u.Cols, col)
		}
	}
	sort.Slice(u.Cols, func(i, j int) bool { return u.Cols[i].Name < u.Cols[j].Name })
	return u, true
}

// collidingLists returns two different legal index lists of equal length and equal 7-adic polynomial.
func (c *Ctx) collidingLists(n int) ([]int, []int) {
	m := c.Range(2, 6)
	a := make([]int, m)
	for i := range a {
		a[i] = c.Int(n)
	}
	b := append([]int{}, a...)
	for tries := 0; tries < 30; tries++ {
		k := c.Int(m - 1)
		// +1 at position k weighs 7 at position k+1
		if b[k]+1 < n && b[k+1]-7 >= 0 {
			b[k]++
			b[k+1] -= 7
			return a, b
		}
		if b[k]-1 >= 0 && b[k+1]+7 < n {
			b[k]--
			b[k+1] += 7
			return a, b
		}
		a[k], a[k+1] = c.Int(n), c.Int(n)
		b[k], b[k+1] = a[k], a[k+1]
	}
	return []int{0, 7}, []int{1, 0}
}

func c10collide(c *Ctx) {
	c.NonTrivial()
	a := c.build(Snap{9, []Col{{"a", 'i', toAny(seq(9))}}})
	b := c.build(Snap{9, []Col{{"b", 'i', toAny(seq(9))}}})
	for k := 0; k < 200; k++ {
		la, lb := c.collidingLists(9)
		if sameInts(la, lb) {
			continue
		}
		c10check(c, []*DF{a.IndexView(la), b.IndexView(lb)})
	}
	c.Log("200 pairs of index lists with equal polynomial hash")
}

func toAny(v []int) []interface{} {
	r := make([]interface{}, len(v))
	for i, x := range v {
		r[i] = x
	}
	return r
}

func c10(c *Ctx) {
	if c.P(0.01) {
		for _, f := range []func(...*DF) (*DF, error){dataframe.ColumnConcatView, dataframe.ColumnCopyConcat, dataframe.ColumnSmartConcat} {
			if r, err := f(); err == nil || r != nil {
				c.Failf("column-wise concatenation of no dataframes gives no error")
			}
		}
		c.Ev("no-input")
		return
	}
	k := c.Pick(1, 2, 2, 2, 3, 3, 4, 5)
	base := c.rows(GenOpt{MaxRows: 130})
	var dfs []*DF
	mode := c.Int(9)
	// the same selection applied to several frames of equal storage
	var plan []int
	idx := c.randIdx(base)
	useCopyPlan := c.P(0.7)
	for j := 0; j < k; j++ {
		n := base
		if mode == 0 && c.P(0.4) {
			n = c.rows(GenOpt{MaxRows: 130})
		}
		o := GenOpt{MinRows: n, Fixed: true, MaxCols: 3, Prefix: fmt.Sprintf("%d", j)}
		if mode == 1 && c.P(0.5) {
			o.Prefix = "0"
		}
		if c.P(0.15) {
			o.Prefix = []string{"", "%", " ", "\n"}[c.Int(4)] + o.Prefix
		}
		df := c.genFrame(o)
		switch mode {
		case 2: // same storage rows, by construction
			if useCopyPlan {
				df = df.IndexView(append([]int{}, idx...))
			} else if len(idx) == n && c.P(0.5) {
				df = df.IndexView(append([]int{}, seq(n)...))
			}
		case 3: // almost the same storage rows
			v := append([]int{}, idx...)
			if len(v) > 1 && c.P(0.6) {
				p, q := c.Int(len(v)), c.Int(len(v))
				v[p], v[q] = v[q], v[p]
			}
			if len(v) > 0 && c.P(0.2) {
				v[c.Int(len(v))] = c.Int(n)
			}
			df = df.IndexView(v)
		case 4: // hash collisions
			if n >= 9 {
				if plan == nil {
					var other []int
					plan, other = c.collidingLists(n)
					df = df.IndexView(plan)
					plan = other
				} else {
					df = df.IndexView(append([]int{}, plan...))
				}
			}
		case 5: // a frame derived from the first
			if j > 0 && c.P(0.7) {
				s := take(dfs[0])
				nn := s.names("fibso")
				v := dfs[0].ColumnView(nn[c.Int(len(nn))])
				old := v.Header().NameList()[0]
				v.Rename(old, fmt.Sprintf("ren%d", j))
				df = v
			} else {
				df = c.chain(df, 2)
			}
		case 8: // the first rows of storages of several lengths
			if extra := c.Int(5); extra > 0 && n > 0 && c.P(0.7) {
				o.MinRows += extra
				df = c.genFrame(o)
				if c.P(0.5) {
					df = df.IndexView(seq(n))
				} else {
					df = df.SliceView(0, n)
				}
			}
		case 6: // whole-range selections next to plain frames
			switch c.Int(4) {
			case 0:
				df = df.View()
			case 1:
				df = df.IndexView(seq(n))
			case 2:
				df = df.ReverseView()
			}
		default:
			if c.P(0.6) {
				df = c.chain(df, 3)
			}
		}
		dfs = append(dfs, df)
	}
	if mode >= 4 && k > 1 && c.P(0.3) { // equalise the lengths
		m := dfs[0].NumRows()
		for j := range dfs {
			m = imin(m, dfs[j].NumRows())
		}
		for j := range dfs {
			if dfs[j].NumRows() != m {
				dfs[j] = dfs[j].SliceView(0, m)
			}
		}
	}
	if c.P(0.05) { // a frame that has rows but no columns any more
		j := c.Int(len(dfs))
		if names := take(dfs[j]).names("fibso"); len(names) > 0 {
			dfs[j] = dfs[j].View()
			dfs[j].Drop(names...)
			c.Ev("inputs-without-columns")
		}
	}
	if k > 1 && base > 0 {
		c.NonTrivial()
	}
	c10check(c, dfs)
}

func c10check(c *Ctx, dfs []*DF) {
	ss := make([]Snap, len(dfs))
	equalRows, congruent, bare := true, true, false
	ref := sharedIdx(dfs[0])
	for j, df := range dfs {
		ss[j] = take(df)
		bare = bare || len(ss[j].Cols) == 0 // the rows of its storage cannot be told
		equalRows = equalRows && ss[j].N == ss[0].N
		congruent = congruent && sameInts(sharedIdx(df), ref)
	}
	want, disjoint := unionOf(ss)
	c.Log("%d inputs, equal rows %v, same storage rows %v, disjoint names %v", len(dfs), equalRows, congruent, disjoint)
	c.Ev(fmt.Sprintf("inputs:equalrows=%v,congruent=%v,disjoint=%v", equalRows, congruent, disjoint))
	type form struct {
		name string
		f    func(...*DF) (*DF, error)
		ok   bool
	}
	for _, f := range []form{
		{"ColumnConcatView", dataframe.ColumnConcatView, equalRows && congruent && disjoint},
		{"ColumnCopyConcat", dataframe.ColumnCopyConcat, equalRows && disjoint},
		{"ColumnSmartConcat", dataframe.ColumnSmartConcat, equalRows && disjoint},
	} {
		arg := append([]*DF{}, dfs...)
		r, err := f.f(arg...)
		if bare && equalRows && disjoint && f.name == "ColumnConcatView" {
			f.ok = err == nil
		}
		if err != nil {
			if f.ok {
				c.Failf("%s refuses inputs it must accept: %v", f.name, err)
			}
			c.Ev("refused")
			continue
		}
		if !f.ok {
			c.Failf("%s accepts inputs it must refuse (equal rows %v, same storage rows %v, disjoint names %v)", f.name, equalRows, congruent, disjoint)
		}
		c.readPaths(f.name, r, want)
		for j := range dfs {
			c.same(fmt.Sprintf("input %d after %s", j, f.name), take(dfs[j]), ss[j])
		}
		c.EvN("rows-aligned", want.N)
		if f.name == "ColumnCopyConcat" && want.N > 0 && len(want.Cols) > 0 {
			c.scribble(r)
			for j := range dfs {
				c.same(fmt.Sprintf("input %d after writing to the copying concatenation", j), take(dfs[j]), ss[j])
			}
		}
		if f.name == "ColumnConcatView" && want.N > 0 && len(want.Cols) > 0 { // written data shows in the inputs
			col := want.Cols[c.Int(len(want.Cols))]
			if col.T == 'i' {
				row := c.Int(want.N)
				old := col.V[row].(int)
				r.Ints(col.Name).Set(row, old+1)
				for j := range dfs {
					if ss[j].col(col.Name) != nil && dfs[j].Ints(col.Name).Get(row) != old+1 {
						c.Failf("ColumnConcatView does not share column %q with input %d", col.Name, j)
					}
				}
				r.Ints(col.Name).Set(row, old)
			}
		}
	}
}

// scribble overwrites every cell of a frame with something else.
func (c *Ctx) scribble(df *DF) {
	for _, name := range df.FloatHeader().NameList() {
		for i := 0; i < df.NumRows(); i++ {
			df.Floats(name).Set(i, 123456.5)
		}
	}
	for _, name := range df.IntHeader().NameList() {
		for i := 0; i < df.NumRows(); i++ {
			df.Ints(name).Set(i, 987654)
		}
	}
	for _, name := range df.BoolHeader().NameList() {
		a := df.Bools(name)
		for i := 0; i < df.NumRows(); i++ {
			a.Set(i, !a.Get(i))
		}
	}
	for _, name := range df.ObjectHeader().NameList() {
		for i := 0; i < df.NumRows(); i++ {
			df.Objects(name).Set(i, "scribbled")
		}
	}
}

func c11(c *Ctx) {
	if c.P(0.02) {
		if _, err := dataframe.RowConcat(); err == nil {
			c.Failf("RowConcat without input gives no error")
		}
		c.Ev("no-input")
		return
	}
	k := c.Pick(1, 2, 2, 2, 3, 3, 4, 6)
	tmpl := c.genSnap(GenOpt{MaxRows: 90})
	enc := c.P(0.3)
	make1 := func(s Snap) *DF {
		var df *DF
		if enc {
			raw := dataframe.NewRawData()
			b := dataframe.DataBuilder{RawData: raw}.TextEncoding(charmap.ISO8859_1)
			for _, col := range s.Cols {
				c.addCol(b, col)
			}
			df = b.ToDataFrame()
		} else {
			df = c.build(s)
		}
		return c.chain(df, 3)
	}
	snaps := make([]Snap, k)
	for j := range snaps {
		s := tmpl
		if j > 0 {
			s = Snap{N: c.rows(GenOpt{MaxRows: 90})}
			for _, col := range tmpl.Cols {
				s.Cols = append(s.Cols, Col{col.Name, col.T, c.genVals(col.T, s.N, GenOpt{})})
			}
		}
		snaps[j] = s
	}
	bad := ""
	if k > 1 && c.P(0.4) { // damage one of them
		j := c.Int(k)
		s := snaps[j]
		s.Cols = append([]Col{}, s.Cols...)
		q := c.Int(len(s.Cols))
		old := s.Cols[q]
		free := func(t byte) Col {
			return Col{fmt.Sprintf("extra%d", c.Int(5)), t, c.genVals(t, s.N, GenOpt{})}
		}
		switch c.Int(4) {
		case 0:
			if len(s.Cols) > 1 {
				s.Cols = append(s.Cols[:q], s.Cols[q+1:]...)
				bad = "missing"
			}
		case 1:
			s.Cols = append(s.Cols, free("fibso"[c.Int(5)]))
			bad = "extra"
		case 2:
			s.Cols[q] = free(old.T)
			bad = "renamed"
		case 3:
			for {
				t := "fibso"[c.Int(5)]
				if t != old.T {
					if strings.IndexByte("so", t) >= 0 && strings.IndexByte("so", old.T) >= 0 {
						c.Ev("string-beside-object")
					}
					s.Cols[q] = Col{old.Name, t, c.genVals(t, s.N, GenOpt{})}
					break
				}
			}
			bad = "retyped"
		}
		snaps[j] = s
		c.Log("input %d of %d has a column %s", j, k, bad)
	}
	dfs := make([]*DF, k)
	total := 0
	want := Snap{}
	ss := make([]Snap, k)
	for j := range dfs {
		dfs[j] = make1(snaps[j])
		if j > 0 && c.P(0.1) && bad == "" {
			dfs[j] = dfs[c.Int(j)] // one and the same frame twice
		}
		ss[j] = take(dfs[j])
		total += ss[j].N
		c.Log("input %d: %s", j, ss[j].schema())
	}
	if k > 1 && total > 1 {
		c.NonTrivial()
	}
	r, err := dataframe.RowConcat(append([]*DF{}, dfs...)...)
	c.Ev("columns-" + map[bool]string{true: "equal", false: bad}[bad == ""])
	if bad != "" {
		if err == nil {
			c.Failf("RowConcat accepts an input with a column %s", bad)
		}
		for j := range dfs {
			c.same(fmt.Sprintf("input %d after the refused concatenation", j), take(dfs[j]), ss[j])
		}
		return
	}
	if err != nil {
		c.Failf("RowConcat refuses frames with equal columns: %v", err)
	}
	want.N = total
	for q, col := range ss[0].Cols {
		nc := Col{Name: col.Name, T: col.T}
		for j := range ss {
			nc.V = append(nc.V, ss[j].Cols[q].V...)
		}
		want.Cols = append(want.Cols, nc)
	}
	c.readPaths("RowConcat", r, want)
	c.EvN("rows-stacked", total)
	for j := range dfs {
		c.same(fmt.Sprintf("input %d after the concatenation", j), take(dfs[j]), ss[j])
	}
	if enc && total > 0 {
		c.encodingIs(r, "latin1", "RowConcat")
	}
	// no storage in common
	if c.P(0.5) {
		c.scribble(r)
		for j := range dfs {
			c.same(fmt.Sprintf("input %d after writing to the concatenation", j), take(dfs[j]), ss[j])
		}
	} else {
		for j := range dfs {
			c.scribble(dfs[j])
		}
		c.same("concatenation after writing to its inputs", take(r), want)
		if len(want.Cols) > 1 {
			dfs[0].Drop(want.Cols[0].Name)
			c.same("concatenation after dropping a column of an input", take(r), want)
		}
	}
}

// encodingIs checks the declared encoding of a frame by re-encoding a private string column.
func (c *Ctx) encodingIs(df *DF, which, what string) {
	if df.NumRows() == 0 {
		return
	}
	p := df.Copy()
	p.AllocStrings("\x00probe")
	p.Strings("\x00probe").Set(0, "\xe9")
	for _, name := range p.StringHeader().NameList() {
		if name != "\x00probe" {
			p.Drop(name)
		}
	}
	err := p.Encode(charmap.CodePage437)
	got := ""
	if err == nil {
		got = p.Strings("\x00probe").Get(0)
	}
	switch which {
	case "latin1": // e9 = é = 82 in CP437
		if err != nil || !bytes.Equal([]byte(got), []byte{0x82}) {
			c.Failf("%s lost the declared encoding: e9 re-encoded as %x, error %v", what, got, err)
		}
	case "utf8": // e9 alone is invalid
		if err == nil {
			c.Failf("%s does not declare UTF-8: e9 re-encoded as %x", what, got)
		}
	}
	c.Ev("declared-encoding-probed")
}
