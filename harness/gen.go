package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

var oddNames = []string{"", "%d", "a b", "é", "x\ny", "a,b", `q"q`, "_target", "ab", "abc", "abcd", "100%s%n", "A", " a", "日本", "id2", "0", "a:b", "-1", "true"}

// GenOpt shapes a generated frame.
type GenOpt struct {
	MinRows, MaxRows int
	Fixed            bool   // exactly MinRows rows
	Types            string // allowed column types
	MinCols, MaxCols int
	ID               bool // add an int column "id" with a unique value per row
	PlainNames       bool
	NoInf            bool
	NoNaN            bool
	Finite           bool // moderate finite floats (or NaN unless NoNaN)
	NoNil            bool
	NoDebug          bool
	CR               bool // strings with carriage returns
	CSVText          bool // strings and names a CSV file can represent
	SmallInts        bool
	Prefix           string
	Must             string // column types that must be there, e.g. "fs"
}

func (c *Ctx) rows(o GenOpt) int {
	if o.Fixed {
		return o.MinRows
	}
	if o.MaxRows == 0 {
		o.MaxRows = 300
	}
	if o.MaxRows >= 40 && o.MaxRows > o.MinRows && c.P(0.03) {
		big := []int{300, 320, 400, 511, 512, 513, 600, 777, 1024, 1025, 1200}
		return imax(o.MinRows, big[c.Int(len(big))])
	}
	if o.MaxRows >= 40 && o.MaxRows > o.MinRows && c.P(0.0006) {
		huge := []int{2047, 2048, 2500, 3000, 4095, 4096, 4097, 5000}
		if o.MaxRows >= 100 && c.P(0.1) {
			huge = []int{8193, 10001, 16385, 20000, 32769, 65536, 65537, 70000}
		}
		return imax(o.MinRows, huge[c.Int(len(huge))])
	}
	specials := []int{0, 1, 2, 3, 5, 10, 17, 33, 50, 64, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300}
	for k := 0; k < 20; k++ {
		var n int
		switch {
		case c.P(0.45):
			n = c.Int(12)
		case c.P(0.5):
			n = 12 + c.Int(60)
		default:
			n = specials[c.Int(len(specials))]
		}
		if n >= o.MinRows && n <= o.MaxRows {
			return n
		}
	}
	return c.Range(o.MinRows, o.MaxRows)
}

func (c *Ctx) genFloat(o GenOpt) float64 {
	if !o.NoNaN && c.P(0.15) {
		return math.NaN()
	}
	if o.Finite {
		switch c.Int(6) {
		case 0:
			return float64(c.Int(5))
		case 1:
			return -float64(c.Int(100)) / 4
		case 2:
			return c.R.NormFloat64() * 1e4
		default:
			return c.R.NormFloat64()
		}
	}
	switch c.Int(9) {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		if !o.NoInf {
			return math.Inf(c.Int(2)*2 - 1)
		}
		return 1
	case 3:
		return float64(c.Int(5)) - 2
	case 4:
		return c.R.NormFloat64() * 1e17
	case 5:
		return math.Float64frombits(c.R.Uint64()&^(0x7ff<<52) | uint64(c.Range(1, 2045))<<52)
	default:
		return c.R.NormFloat64()
	}
}

func (c *Ctx) genInt(o GenOpt) int {
	if o.SmallInts {
		return c.Int(7) - 2
	}
	switch c.Int(9) {
	case 0:
		return -1
	case 1:
		return 0
	case 2:
		return c.Int(10) - 5
	case 3:
		return 1<<53 + c.Int(4) - 1
	case 4:
		return -(1 << 53) - c.Int(4)
	case 5:
		return math.MaxInt64 - c.Int(3)
	case 6:
		return math.MinInt64 + c.Int(3)
	case 7:
		return int(c.R.Uint64() >> 1)
	}
	return c.Int(1000)
}

var strPool = []string{"", "a", "b", "abc", "é", "日本語", "0", "1", "true", "-1", "1.5", "NaN", "a,b", `say "hi"`, " lead", "trail ", "x\ny", "'", "nil", "%d", ";", "\t", "#c"}

func (c *Ctx) genStr(o GenOpt) interface{} {
	if !o.NoNil && c.P(0.15) {
		return nil
	}
	if o.CR && c.P(0.1) {
		return []string{"x\ry", "end\r", "\r", "\rstart", "a\r\r"}[c.Int(5)]
	}
	if c.P(0.6) {
		return strPool[c.Int(len(strPool))]
	}
	if c.P(0.003) { // long ones that only differ at one end
		return fmt.Sprintf("%d%s%d", c.Int(2), strings.Repeat("long", c.Pick(16, 64, 300, 1025, 1100)), c.Int(2))
	}
	if !o.CSVText && c.P(0.1) {
		return string([]byte{0xff, byte(c.Int(256))})
	}
	return fmt.Sprintf("s%d", c.Int(40))
}

func (c *Ctx) genObj(o GenOpt) interface{} {
	switch c.Int(5) {
	case 0:
		if !o.NoNil {
			return nil
		}
		return &obj{7}
	case 1:
		return c.Int(100)
	case 2:
		return fmt.Sprintf("o%d", c.Int(10))
	case 3:
		return 2.5
	}
	return &obj{c.Int(1000)}
}

func (c *Ctx) genVals(t byte, n int, o GenOpt) []interface{} {
	v := make([]interface{}, n)
	mode := c.Int(8)
	for i := range v {
		switch t {
		case 'f':
			v[i] = c.genFloat(o)
			if mode == 0 && !o.NoNaN {
				v[i] = math.NaN()
			} else if mode == 1 {
				v[i] = 2.5
			}
		case 'i':
			v[i] = c.genInt(o)
		case 'b':
			v[i] = c.Int(2) == 0
		case 's':
			v[i] = c.genStr(o)
		case 'o':
			v[i] = c.genObj(o)
		}
	}
	return v
}

func toFloats(v []interface{}) []float64 {
	r := make([]float64, len(v))
	for i, x := range v {
		r[i] = x.(float64)
	}
	return r
}
func toInts(v []interface{}) []int {
	r := make([]int, len(v))
	for i, x := range v {
		r[i] = x.(int)
	}
	return r
}
func toBools(v []interface{}) []bool {
	r := make([]bool, len(v))
	for i, x := range v {
		r[i] = x.(bool)
	}
	return r
}
func cloneVals(v []interface{}) []interface{} { return append([]interface{}{}, v...) }

// genSnap describes a random frame.
func (c *Ctx) genSnap(o GenOpt) Snap {
	if o.Types == "" {
		o.Types = "fibso"
	}
	if o.MaxCols == 0 {
		o.MaxCols = 6
	}
	n := c.rows(o)
	nc := c.Range(o.MinCols, o.MaxCols)
	if nc == 0 && !o.ID {
		nc = 1
	}
	wide := o.MaxCols > 3 && o.MinCols < o.MaxCols && n <= 130 && c.P(0.03)
	if wide {
		nc = c.Range(9, 40)
		if n <= 20 && c.P(0.05) {
			nc = c.Range(64, 140)
		}
	}
	if c.P(0.5) && nc > 3 && o.MinCols <= 3 && !wide { // few columns: long slices are re-based
		nc = 1 + c.Int(3)
	}
	if nc < len(o.Must) {
		nc = len(o.Must)
	}
	s := Snap{N: n}
	used := map[string]bool{"id": true}
	for k := 0; k < nc; k++ {
		t := o.Types[c.Int(len(o.Types))]
		if k < len(o.Must) {
			t = o.Must[k]
		}
		name := fmt.Sprintf("%s%c%d", o.Prefix, t, k)
		if !o.PlainNames && c.P(0.3) {
			name = o.Prefix + oddNames[c.Int(len(oddNames))]
		}
		if used[name] {
			name = fmt.Sprintf("%s%c%d", o.Prefix, t, k)
		}
		used[name] = true
		s.Cols = append(s.Cols, Col{name, t, c.genVals(t, n, o)})
	}
	if o.ID {
		v := make([]interface{}, n)
		for i, p := range c.R.Perm(n) {
			v[i] = p * 3
		}
		s.Cols = append(s.Cols, Col{"id", 'i', v})
	}
	sort.Slice(s.Cols, func(i, j int) bool { return s.Cols[i].Name < s.Cols[j].Name })
	return s
}

// addCol appends a column to a builder in one of the possible ways.
func (c *Ctx) addCol(b dataframe.DataBuilder, col Col) {
	set := c.P(0.5)
	switch col.T {
	case 'f':
		if set {
			b.SetFloats(col.Name, toFloats(col.V))
		} else {
			b.AddFloats(col.Name, toFloats(col.V)...)
		}
	case 'i':
		if set {
			b.SetInts(col.Name, toInts(col.V))
		} else {
			b.AddInts(col.Name, toInts(col.V)...)
		}
	case 'b':
		if set {
			b.SetBools(col.Name, toBools(col.V))
		} else {
			b.AddBools(col.Name, toBools(col.V)...)
		}
	case 'o', 's':
		if set {
			b.SetObjects(col.Name, cloneVals(col.V))
		} else {
			b.AddObjects(col.Name, col.V...)
		}
		if col.T == 's' {
			b.MarkAsString(col.Name)
		}
	}
}

// build makes a frame showing s, rarely one whose data goes on behind its last row.
func (c *Ctx) build(s Snap) *DF {
	df := c.buildPlain(s)
	if len(s.Cols) > 0 && c.P(0.04) {
		c.grow(df)
	}
	return df
}

// buildPlain makes a compact frame showing s.
func (c *Ctx) buildPlain(s Snap) *DF {
	raw := dataframe.NewRawData()
	raw.SetMaxCPU(c.Pick(-1, 0, 1, 1, 2, 3, 4, 8))
	b := dataframe.DataBuilder{RawData: raw}
	for _, col := range s.Cols {
		c.addCol(b, col)
	}
	df := b.ToDataFrame()
	if c.P(0.1) {
		df.Debug(true)
	}
	if c.P(0.2) {
		df.ThreadSafeMasking(true)
	}
	return df
}

func (c *Ctx) genFrame(o GenOpt) *DF {
	s := c.genSnap(o)
	df := c.build(s)
	c.Log("frame %s", s.schema())
	return df
}

// randIdx returns arbitrary legal row numbers (possibly repeated, possibly more than n).
func (c *Ctx) randIdx(n int) []int {
	if n == 0 {
		return nil
	}
	var m int
	switch c.Int(4) {
	case 0:
		m = c.Int(n + 1)
	case 1:
		m = n
	case 2:
		m = n + c.Int(n+3)
	default:
		m = 1 + c.Int(n)
	}
	idx := make([]int, m)
	if c.P(0.3) {
		return c.nearIdentity(n)
	}
	if c.P(0.3) {
		for j, p := range c.R.Perm(n) {
			if j < m {
				idx[j] = p
			}
		}
		return idx[:imin(m, n)]
	}
	for j := range idx {
		idx[j] = c.Int(n)
	}
	return idx
}

// nearIdentity returns row numbers that look contiguous at a glance: the identity,
// the identity with a few swapped or repeated neighbours, rotations, sorted subsets.
func (c *Ctx) nearIdentity(n int) []int {
	idx := seq(n)
	for k := c.Int(3); k >= 0; k-- {
		i, j := c.Int(n), c.Int(n)
		switch c.Int(6) {
		case 0: // the identity
		case 1: // swap two rows, rarely at the ends
			idx[i%len(idx)], idx[j%len(idx)] = idx[j%len(idx)], idx[i%len(idx)]
		case 2: // swap neighbours in the middle
			if i > 0 && i+2 < len(idx) {
				idx[i], idx[i+1] = idx[i+1], idx[i]
			}
		case 3: // repeat one row instead of its neighbour
			if i > 0 && i+1 < len(idx) {
				idx[i] = idx[i-1]
			}
		case 4: // rotate
			i %= len(idx)
			idx = append(append([]int{}, idx[i:]...), idx[:i]...)
		default: // leave one row out
			if i %= len(idx); len(idx) > 1 {
				idx = append(append([]int{}, idx[:i]...), idx[i+1:]...)
			}
		}
	}
	return idx
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// step is a row selection with its pure meaning: child row j shows source row idx[j].
type step struct {
	name string
	df   *DF
	idx  []int
}

// selectRows applies one deterministic row-selecting view.
func (c *Ctx) selectRows(df *DF) step {
	n := df.NumRows()
	switch c.Int(7) {
	case 0:
		idx := c.randIdx(n)
		arg := append([]int{}, idx...)
		r := df.IndexView(arg)
		for i := range arg { // the argument belongs to the caller
			arg[i] = 0
		}
		return step{fmt.Sprintf("IndexView(%v)", idx), r, idx}
	case 1:
		from, to, idx := c.sliceArgs(n)
		return step{fmt.Sprintf("SliceView(%d,%d)", from, to), df.SliceView(from, to), idx}
	case 2:
		from, to := 0, n
		if n > 0 {
			from = c.Int(n)
			to = from + c.Int(n-from+1)
		}
		idx := seq(n)[from:to]
		return step{fmt.Sprintf("SliceView(%d,%d)", from, to), df.SliceView(from, to), idx}
	case 3:
		var mask []bool
		switch c.Int(3) {
		case 0:
			mask = make([]bool, n)
		case 1:
			mask = df.ZeroMask()
		default:
			mask = df.EmptyMask()
		}
		if len(mask) != n {
			c.Failf("mask of %d elements for a frame of %d rows", len(mask), n)
		}
		var idx []int
		p := []float64{0, 0.2, 0.5, 0.9, 1}[c.Int(5)]
		for i := range mask {
			mask[i] = c.P(p)
			if mask[i] {
				idx = append(idx, i)
			}
		}
		return step{fmt.Sprintf("MaskView(%d of %d)", len(idx), n), df.MaskView(mask), idx}
	case 4:
		idx := make([]int, n)
		for i := range idx {
			idx[i] = n - 1 - i
		}
		return step{"ReverseView()", df.ReverseView(), idx}
	case 5:
		sh := sharedIdx(df)
		idx := seq(n)
		if sh != nil {
			sort.SliceStable(idx, func(a, b int) bool { return sh[idx[a]] < sh[idx[b]] })
		} else {
			return step{"View()", df.View(), idx}
		}
		return step{"ResetIndexView()", df.ResetIndexView(), idx}
	}
	if c.P(0.3) { // no columns given: all of them
		return step{"ColumnView()", df.ColumnView(), seq(n)}
	}
	return step{"View()", df.View(), seq(n)}
}

func (c *Ctx) sliceArgs(n int) (from, to int, idx []int) {
	norm := func(x int) int {
		if x < 0 {
			return x + n + 1
		}
		return x
	}
	from = c.Range(-n-1, n)
	to = c.Range(-n-1, n)
	f, t := norm(from), norm(to)
	if f <= t {
		return from, to, seq(n)[f:t]
	}
	for k := t; k < f; k++ {
		idx = append(idx, n-1-k)
	}
	return from, to, idx
}

// chain applies up to k random view/copy operations, none of which changes which columns there are.
func (c *Ctx) chain(df *DF, k int) *DF {
	for j := c.Int(k + 1); j > 0; j-- {
		var s step
		switch c.Int(8) {
		case 0:
			s = step{"ShuffleView()", df.ShuffleView(), nil}
		case 1:
			s = step{"ShallowCopy()", df.ShallowCopy(), nil}
		case 2:
			if c.P(0.4) {
				s = step{"Copy()", df.Copy(), nil}
			} else {
				s = step{"DetachedView()", df.DetachedView(), nil}
			}
		default:
			s = c.selectRows(df)
		}
		c.Log("chain %s", s.name)
		df = s.df
	}
	return df
}

// genAny is a random frame behind a random chain.
func (c *Ctx) genAny(o GenOpt) *DF {
	df := c.genFrame(o)
	if c.P(0.75) {
		for k := 0; k < 4; k++ {
			d := c.chain(df, 4)
			if d.NumRows() >= o.MinRows {
				if !o.ID && c.P(0.06) {
					return c.refound(d, o)
				}
				return d
			}
		}
	}
	return df
}

// grow adds values to the data a frame was made from; the frame goes on showing its rows.
func (c *Ctx) grow(df *DF) {
	b := dataframe.DataBuilder{RawData: &df.RawData}
	s := take(df)
	for k := 1 + c.Int(3); k > 0; k-- {
		for _, col := range s.Cols {
			v := c.genVals(col.T, 1, GenOpt{})
			switch col.T {
			case 'f':
				b.AddFloats(col.Name, toFloats(v)...)
			case 'i':
				b.AddInts(col.Name, toInts(v)...)
			case 'b':
				b.AddBools(col.Name, toBools(v)...)
			default:
				b.AddObjects(col.Name, v...)
			}
		}
	}
	c.Log("data of the frame grown to %d rows", df.NumAllocatedRows())
	c.same("frame whose raw data has grown", take(df), s)
	c.Ev("frames-grown")
}

// refound drops every column of a view of df, selects rows of what is left and creates new columns.
func (c *Ctx) refound(df *DF, o GenOpt) *DF {
	d := df.View()
	d.Drop(d.Header().NameList()...)
	for k := c.Int(3); k >= 0; k-- {
		s := c.selectRows(d)
		if s.df.NumRows() >= o.MinRows {
			c.Log("without columns: %s", s.name)
			d = s.df
		}
	}
	n := d.NumRows()
	schema := c.genSnap(o)
	c.Log("new columns %s for %d rows", schema.schema(), n)
	for _, col := range schema.Cols {
		v := c.genVals(col.T, n, o)
		switch col.T {
		case 'f':
			d.OverwriteFloats64(col.Name, toFloats(v))
		case 'i':
			d.OverwriteInts(col.Name, toInts(v))
		case 'b':
			d.OverwriteBools(col.Name, toBools(v))
		case 's':
			d.OverwriteObjects(col.Name, v, dataframe.StringObject)
		default:
			d.OverwriteObjects(col.Name, v, dataframe.AnyObject)
		}
	}
	c.Ev("frames-refounded")
	return d
}

func (c *Ctx) subset(names []string, min int) []string {
	p := c.R.Perm(len(names))
	k := len(names)
	if len(names) > min {
		k = c.Range(min, len(names))
	}
	out := make([]string, 0, k)
	for _, i := range p[:k] {
		out = append(out, names[i])
	}
	return out
}
