package main

import (
	"fmt"
	"sort"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"golang.org/x/text/encoding/charmap"
)

func init() {
	register(&Prop{ID: "C31", Quick: 160000, Thorough: 6000000, Random: c31,
		Rule:   "0-5 raw data structures (of plain frames, or of views cut out of longer frames) with overlapping, equal or different columns, merged column-wise, row-wise or by transfers; outcome compared with a list model, sharing probed by writes in both directions, isolation by structural edits; non-trivial: >=2 inputs with rows",
		Assume: []string{"a column of a row-wise merge is marked as string in all inputs or in none", "all inputs declare the same encoding"}})
}

// rawSnap describes what a raw data structure holds: every allocated row, regardless of row selections.
func rawSnap(r *dataframe.RawData) Snap {
	return take(r.ToDataFrame())
}

func setCell(df *DF, col *Col, i int, v interface{}) {
	switch col.T {
	case 'f':
		df.Floats(col.Name).Set(i, v.(float64))
	case 'i':
		df.Ints(col.Name).Set(i, v.(int))
	case 'b':
		df.Bools(col.Name).Set(i, v.(bool))
	case 'o':
		df.Objects(col.Name).Set(i, v)
	case 's':
		df.Objects(col.Name).Set(i, v)
	}
}

// other is a value of column type t that differs from v.
func (c *Ctx) other(t byte, v interface{}) interface{} {
	switch t {
	case 'f':
		if x := v.(float64); x != 4.25 {
			return 4.25
		}
		return -8.5
	case 'i':
		return v.(int) ^ 1
	case 'b':
		return !v.(bool)
	}
	if v == "written" {
		return "written again"
	}
	return "written"
}

func c31(c *Ctx) {
	switch c.Int(5) {
	case 0, 1:
		c31rows(c)
	case 2:
		c31overlap(c)
	default:
		c31columns(c)
	}
}

type rawIn struct {
	df   *DF  // frame of the raw data
	snap Snap // all its allocated rows
}

// rawInput makes a frame whose storage holds s.
func (c *Ctx) rawInput(s Snap, enc bool) rawIn {
	raw := dataframe.NewRawData()
	raw.SetMaxCPU(c.Pick(1, 2, 3))
	b := dataframe.DataBuilder{RawData: raw}
	for _, col := range s.Cols {
		c.addCol(b, col)
	}
	if enc {
		b.TextEncoding(charmap.ISO8859_1)
	}
	df := b.ToDataFrame()
	switch c.Int(6) {
	case 0:
		df = df.View()
	case 1: // the storage keeps all rows
		if s.N > 0 {
			df = df.IndexView(c.randIdx(s.N))
		}
	case 2:
		df = df.ShallowCopy()
	case 3:
		df = df.ReverseView()
	}
	got := rawSnap(&df.RawData)
	c.same("raw data of a frame", got, s)
	return rawIn{df, got}
}

// c31columns: later structures win, data is shared, structure is not.
func c31columns(c *Ctx) {
	k := c.Pick(0, 1, 2, 2, 2, 3, 4, 5)
	n := c.rows(GenOpt{MaxRows: 60})
	enc := c.P(0.2)
	ragged, odd := k > 1 && c.P(0.12), k-1
	if c.P(0.4) {
		odd = c.Int(k + 1)
	}
	transfer := c.P(0.4)
	var in []rawIn
	for j := 0; j < k; j++ {
		m := n
		if ragged && j == odd {
			m = c.Pick(n+1, n+1, 0, n/2, 2*n+1)
		}
		o := GenOpt{MinRows: m, Fixed: true, MaxCols: 4}
		if c.P(0.5) {
			o.Prefix = fmt.Sprint(j)
		}
		in = append(in, c.rawInput(c.genSnap(o), enc))
		c.Log("input %d: %s", j, in[j].snap.schema())
	}
	var r *dataframe.RawData
	var own []Col // columns that r has before any transfer
	if transfer && k > 0 {
		r = dataframe.NewRawData()
		if c.P(0.5) {
			own = c.genSnap(GenOpt{MinRows: n, Fixed: true, MaxCols: 4}).Cols
			if c.P(0.5) { // same name and type as a column of an input
				for _, col := range in[c.Int(k)].snap.Cols {
					if len(col.V) == n && c.P(0.6) {
						own = Snap{N: n, Cols: own}.without(col.Name).with(Col{col.Name, col.T, c.genVals(col.T, n, GenOpt{})}).Cols
					}
				}
			}
			for _, col := range own {
				c.addCol(dataframe.DataBuilder{RawData: r}, col)
			}
			c.Log("onto %s", Snap{N: n, Cols: own}.schema())
			c.Ev("onto-own-columns")
		}
		for j := range in {
			r.TransferRawDataFrom(&in[j].df.RawData)
		}
		c.Log("by transfers")
	} else {
		list := make([]*dataframe.RawData, k)
		for j := range in {
			list[j] = &in[j].df.RawData
		}
		r = dataframe.MergeRawDataColumns(list)
	}
	owner := map[string]int{}
	want := Snap{N: n}
	for _, col := range own {
		want = want.with(Col{col.Name, col.T, cloneVals(col.V)})
		owner[col.Name] = -1
	}
	for j := range in {
		for _, col := range in[j].snap.Cols {
			want = want.without(col.Name).with(Col{col.Name, col.T, cloneVals(col.V)})
			owner[col.Name] = j
		}
	}
	unchanged := func(what string) {
		for j := range in {
			c.same(fmt.Sprintf("input %d after %s", j, what), rawSnap(&in[j].df.RawData), in[j].snap)
		}
	}
	unchanged("the merge")
	if r.NumColumns() != len(want.Cols) {
		c.Failf("the merged data has %d columns instead of %d", r.NumColumns(), len(want.Cols))
	}
	lens := map[int]bool{}
	for _, col := range want.Cols {
		lens[len(col.V)] = true
	}
	if len(lens) > 1 {
		c.mustPanic("ToDataFrame of merged columns of different lengths", func() { r.ToDataFrame() })
		c.Ev("ragged-refused")
		return
	}
	if k == 0 {
		c.Ev("no-input")
		return
	}
	want.N = len(want.Cols[0].V)
	df := r.ToDataFrame()
	c.same("merged columns", take(df), want)
	c.EvN("columns-merged", len(want.Cols))
	if !transfer {
		if got, w := df.ActualMaxCPU(), in[k-1].df.ActualMaxCPU(); got != w {
			c.Failf("the merged data may use %d CPUs, its last input %d", got, w)
		}
		if enc && want.N > 0 {
			c.encodingIs(df, "latin1", "MergeRawDataColumns")
		}
	}
	if want.N == 0 {
		return
	}
	if k > 1 {
		c.NonTrivial()
	}
	// one write on either side is seen on the other, and nowhere else
	for p := 0; p < 3; p++ {
		q := c.Int(len(want.Cols))
		col := &want.Cols[q]
		j := owner[col.Name]
		if j < 0 {
			continue
		}
		src := in[j].snap.col(col.Name)
		i := c.Int(want.N)
		v := c.other(col.T, col.V[i])
		if c.P(0.5) {
			setCell(df, col, i, v)
		} else {
			setCell(in[j].df.RawData.ToDataFrame(), col, i, v)
		}
		col.V[i], src.V[i] = v, v
		c.Log("write %q row %d", col.Name, i)
		c.Ev("sharing-probed")
		c.same("merged columns after a write", take(df), want)
		unchanged("a write")
	}
	// structure is not shared
	name := want.Cols[c.Int(len(want.Cols))].Name
	switch c.Int(5) {
	case 0:
		df.Drop(name)
		want = want.without(name)
	case 1:
		df.Rename(name, "other name")
		col := *want.col(name)
		want = want.without(name)
		col.Name = "other name"
		want = want.with(col)
	case 2:
		df.AllocStrings("new", name)
		for _, nm := range []string{"new", name} {
			want = want.without(nm).with(Col{nm, 's', make([]interface{}, want.N)})
		}
	case 3: // structural edits on an input
		j := c.Int(k)
		in[j].df.AllocFloats("new")
		if cols := in[j].snap.names("fibso"); len(cols) > 1 {
			in[j].df.Drop(cols[0])
			in[j].snap = in[j].snap.without(cols[0])
		}
		v := make([]interface{}, in[j].snap.N)
		for i := range v {
			v[i] = 0.0
		}
		in[j].snap = in[j].snap.without("new").with(Col{"new", 'f', v})
	default: // cut off from the inputs
		var names []string
		if c.P(0.6) {
			names = c.subset(want.names("fibso"), 1)
		} else {
			names = want.names("fibso")
		}
		if c.P(0.5) {
			df = df.DetachedView(names...)
		} else {
			df.Unshare(names...)
		}
		c.Log("detached %q", names)
		c.Ev("detached")
		for _, nm := range names {
			col := want.col(nm)
			i := c.Int(want.N)
			v := c.other(col.T, col.V[i])
			col.V = cloneVals(col.V)
			col.V[i] = v
			setCell(df, col, i, v)
		}
	}
	c.same("merged columns after the last edit", take(df), want)
	unchanged("edits of the merged data")
}

// c31rows: same columns stacked over all allocated rows, nothing shared.
func c31rows(c *Ctx) {
	k := c.Pick(0, 1, 2, 2, 3, 4)
	enc := c.P(0.2)
	tmpl := c.genSnap(GenOpt{MaxRows: 60, MaxCols: 4})
	var in []rawIn
	list := make([]*dataframe.RawData, k)
	bad := -1
	if k > 1 && c.P(0.15) {
		bad = c.Int(k)
	}
	lens := map[string]map[string]int{} // name -> type -> values
	for j := 0; j < k; j++ {
		s := Snap{N: c.rows(GenOpt{MaxRows: 60})}
		for q, col := range tmpl.Cols {
			name, t := col.Name, col.T
			if bad == j && q == 0 {
				if c.P(0.5) {
					name = "extra"
				} else if t == 'f' {
					t = 'i'
				} else {
					t = 'f'
				}
			}
			s.Cols = append(s.Cols, Col{name, t, c.genVals(t, s.N, GenOpt{})})
			if lens[name] == nil {
				lens[name] = map[string]int{}
			}
			lens[name][string(t)] += s.N
		}
		sort.Slice(s.Cols, func(a, b int) bool { return s.Cols[a].Name < s.Cols[b].Name })
		in = append(in, c.rawInput(s, enc))
		list[j] = &in[j].df.RawData
		c.Log("input %d: %s", j, in[j].snap.schema())
	}
	r := dataframe.MergeRawDataRows(list)
	for j := range in {
		c.same(fmt.Sprintf("input %d after MergeRawDataRows", j), rawSnap(list[j]), in[j].snap)
	}
	if k == 0 {
		if r.NumColumns() != 0 {
			c.Failf("MergeRawDataRows of nothing has %d columns", r.NumColumns())
		}
		c.Ev("no-input")
		return
	}
	if bad >= 0 {
		ragged := false
		sizes := map[int]bool{}
		for _, types := range lens {
			ragged = ragged || len(types) > 1
			for _, m := range types {
				sizes[m] = true
			}
		}
		if ragged || len(sizes) > 1 {
			c.mustPanic("ToDataFrame of merged rows with different columns", func() { r.ToDataFrame() })
			c.Ev("different-columns-refused")
		}
		return
	}
	want := Snap{}
	for j := range in {
		want.N += in[j].snap.N
	}
	for q, col := range in[0].snap.Cols {
		nc := Col{Name: col.Name, T: col.T}
		for j := range in {
			nc.V = append(nc.V, in[j].snap.Cols[q].V...)
		}
		want.Cols = append(want.Cols, nc)
	}
	sort.Slice(want.Cols, func(a, b int) bool { return want.Cols[a].Name < want.Cols[b].Name })
	if k > 1 && want.N > 1 {
		c.NonTrivial()
	}
	df := r.ToDataFrame()
	c.readPaths("MergeRawDataRows", df, want)
	c.EvN("rows-merged", want.N)
	if got, w := df.ActualMaxCPU(), in[0].df.ActualMaxCPU(); got != w {
		c.Failf("the merged data may use %d CPUs, its first input %d", got, w)
	}
	if enc && want.N > 0 {
		c.encodingIs(df, "latin1", "MergeRawDataRows")
	}
	if c.P(0.5) {
		c.scribble(df)
		for j := range in {
			c.same(fmt.Sprintf("input %d after writing to the merged rows", j), rawSnap(list[j]), in[j].snap)
		}
	} else {
		for j := range in {
			c.scribble(in[j].df.RawData.ToDataFrame())
		}
		c.same("merged rows after writing to the inputs", take(df), want)
	}
}

// c31overlap: the overlap check is exactly about names.
func c31overlap(c *Ctx) {
	k := c.Int(5)
	var dfs []*DF
	count := map[string]int{}
	for j := 0; j < k; j++ {
		o := GenOpt{MaxRows: 3, MaxCols: 3}
		if c.P(0.8) {
			o.Prefix = fmt.Sprint(j)
		}
		df := c.genFrame(o)
		if j > 0 && c.P(0.1) { // a name of an earlier frame, maybe with another type
			old := dfs[c.Int(j)].Header().NameList()
			mine := df.Header().NameList()
			df.Rename(mine[c.Int(len(mine))], old[c.Int(len(old))])
		}
		dfs = append(dfs, df)
		for name := range df.Header().NameSet() {
			count[name]++
		}
	}
	overlap := false
	for _, m := range count {
		overlap = overlap || m > 1
	}
	if k > 1 {
		c.NonTrivial()
	}
	err := dataframe.CheckNoColumnOverlap(dfs)
	if (err != nil) != overlap {
		c.Failf("CheckNoColumnOverlap returns %v, names overlap: %v", err, overlap)
	}
	c.Ev(fmt.Sprintf("overlap-%v", overlap))
}
