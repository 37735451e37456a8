package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

func init() {
	register(&Prop{ID: "C01", Quick: 200000, Thorough: 20000000, Random: c01,
		Rule:   "random frame (all column mixes, 0..300 rows, odd values and names) followed by up to 8 stacked selecting views with random legal arguments; non-trivial: at least one view on a frame with >=2 rows; distinct by operation trace",
		Assume: []string{"row and column arguments are legal (in range, existing columns)"}})
	register(&Prop{ID: "C02", Quick: 200000, Thorough: 20000000, Random: c02,
		Rule: "random frame or view split by SplitView, SplitNView and SplitTrainTestViews with random sizes (also larger than the frame); non-trivial: more than one non-empty part"})
	register(&Prop{ID: "C03", Quick: 200000, Thorough: 20000000, Random: c03,
		Rule: "random frame or view with NaN/inf/-0/duplicates/64-bit ints sorted or topped by a random column; non-trivial: >=2 rows with distinct keys"})
	register(&Prop{ID: "C04", Quick: 100000, Thorough: 10000000, Random: c04, Directed: []func(*Ctx){c04fair(2), c04fair(3), c04fair(4), c04fair(5), c04fair(7), c04large(1000), c04large(5000), c04large(70000), c04large(270000)},
		Rule:   "random frame or view shuffled/sampled (permutation, distinctness, repeatability) plus position-frequency counts over many seeds for 2,3,4,5,7 rows; non-trivial: >=2 rows",
		Assume: []string{"fairness threshold is 7 standard deviations of the binomial position count"}})
}

func (c *Ctx) same(what string, got, want Snap) {
	if d := diff(got, want); d != "" {
		c.Failf("%s: %s", what, d)
	}
}

func c01(c *Ctx) {
	df := c.genFrame(GenOpt{})
	if c.P(0.3) {
		df = c.chain(df, 2)
	}
	type live struct {
		df *DF
		s  Snap
	}
	var older []live
	steps := 1 + c.Int(8)
	for k := 0; k < steps; k++ {
		src := take(df)
		var got *DF
		var want Snap
		if c.P(0.15) {
			names := src.names("fibso")
			if len(names) == 0 {
				continue
			}
			sub := c.subset(names, 1)
			if c.P(0.1) {
				sub = append(sub, sub[0])
			}
			c.Log("ColumnView(%q)", sub)
			got = df.ColumnView(sub...)
			want = src.only(sub)
			c.Ev("ColumnView")
		} else {
			s := c.selectRows(df)
			c.Log("%s", s.name)
			got, want = s.df, src.rows(s.idx)
			c.Ev(opName(s.name))
		}
		if src.N >= 2 {
			c.NonTrivial()
		}
		c.same("view", take(got), want)
		c.same("source frame after building a view", take(df), src)
		older = append(older, live{df, src})
		c.EvN("cells-compared", want.N*len(want.Cols))
		// building on an older frame of the chain
		df = got
		if c.P(0.15) {
			df = older[c.Int(len(older))].df
		}
		if z := df.ZeroMask(); true {
			if len(z) != df.NumRows() {
				c.Failf("ZeroMask has %d elements for %d rows", len(z), df.NumRows())
			}
			for i, b := range z {
				if b {
					c.Failf("ZeroMask element %d is true", i)
				}
			}
		}
	}
	for i, l := range older {
		c.same(fmt.Sprintf("frame %d of the chain at the end", i), take(l.df), l.s)
	}
}

func opName(s string) string {
	for i := range s {
		if s[i] == '(' {
			return s[:i]
		}
	}
	return s
}

func c02(c *Ctx) {
	df := c.genAny(GenOpt{})
	src := take(df)
	n := src.N
	parts := func(dfs []*DF, what string) {
		var idx []int
		off := 0
		for k, p := range dfs {
			if p == nil {
				c.Failf("%s: part %d is nil", what, k)
			}
			ps := take(p)
			idx = idx[:0]
			if off+ps.N > n {
				c.Failf("%s: the parts have more rows than the source", what)
			}
			for i := 0; i < ps.N; i++ {
				idx = append(idx, off+i)
			}
			c.same(fmt.Sprintf("%s part %d", what, k), ps, src.rows(idx))
			off += ps.N
		}
		if off != n {
			c.Failf("%s: parts have %d rows together, source has %d", what, off, n)
		}
		if len(dfs) > 1 && n > 1 {
			c.NonTrivial()
		}
		c.EvN("parts", len(dfs))
	}
	var size int
	switch c.Int(4) {
	case 0:
		size = 1 + c.Int(3)
	case 1:
		size = 1 + c.Int(n+2)
	case 2:
		size = imax(1, n+c.Int(3)-1)
	default:
		size = 1 + c.Int(n/2+1)
	}
	c.Log("SplitView(%d) of %d rows", size, n)
	dfs := df.SplitView(size)
	want := imax(1, (n+size-1)/size)
	if len(dfs) != want {
		c.Failf("SplitView(%d) of %d rows gives %d frames instead of %d", size, n, len(dfs), want)
	}
	for k, p := range dfs[:len(dfs)-1] {
		if p.NumRows() != size {
			c.Failf("SplitView(%d) of %d rows: part %d has %d rows", size, n, k, p.NumRows())
		}
	}
	parts(dfs, "SplitView")

	k := 1 + c.Int(5)
	if c.P(0.3) {
		k = 1 + c.Int(n+4)
	}
	if none := df.SplitNView(0); len(none) != 0 {
		c.Failf("SplitNView(0) gives %d frames", len(none))
	}
	c.Log("SplitNView(%d)", k)
	dfs = df.SplitNView(k)
	if len(dfs) != k {
		c.Failf("SplitNView(%d) of %d rows gives %d frames", k, n, len(dfs))
	}
	for j, p := range dfs {
		if p.NumRows() > (n+k-1)/k {
			c.Failf("SplitNView(%d) of %d rows: part %d has %d rows", k, n, j, p.NumRows())
		}
	}
	parts(dfs, "SplitNView")

	ratio := c.R.Float64()
	if c.P(0.2) {
		ratio = float64(c.Int(5)) / 4
	}
	c.Log("SplitTrainTestViews(%v)", ratio)
	a, b := df.SplitTrainTestViews(ratio)
	nt := int(float64(n) * ratio)
	if b.NumRows() != nt {
		c.Failf("SplitTrainTestViews(%v) of %d rows: test set has %d rows instead of %d", ratio, n, b.NumRows(), nt)
	}
	parts([]*DF{a, b}, "SplitTrainTestViews")
	c.same("source after splitting", take(df), src)
}

// keyLess compares two non-missing sort keys.
func keyLess(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		return x < b.(float64)
	case int:
		return x < b.(int)
	case bool:
		return !x && b.(bool)
	}
	return false
}

func missingKey(v interface{}) bool {
	f, ok := v.(float64)
	return ok && math.IsNaN(f)
}

func c03(c *Ctx) {
	o := GenOpt{Must: []string{"f", "f", "i", "i", "b"}[c.Int(5)]}
	if c.P(0.3) {
		o.SmallInts, o.Finite = true, true
	}
	df := c.genAny(o)
	src := take(df)
	names := src.names("fib")
	col := names[c.Int(len(names))]
	key := src.col(col)
	distinct := false
	for i := range key.V {
		if !eqv(key.V[i], key.V[0]) {
			distinct = true
		}
	}
	if distinct {
		c.NonTrivial()
	}
	ordered := func(what string, s Snap, asc bool) {
		k := s.col(col)
		var prev interface{}
		for i, v := range k.V {
			if missingKey(v) {
				c.Ev("missing-key")
				continue
			}
			if prev != nil {
				if asc && keyLess(v, prev) || !asc && keyLess(prev, v) {
					c.Failf("%s by %q: row %d has key %s after %s", what, col, i, vstr(v), vstr(prev))
				}
				c.Ev("ordered-pairs")
			}
			prev = v
		}
	}
	if c.P(0.5) {
		c.Log("SortedView(%q)", col)
		s := take(df.SortedView(col))
		if d := sameMultiset(s, src); d != "" {
			c.Failf("SortedView(%q) is not a permutation: %s", col, d)
		}
		ordered("SortedView", s, true)
		gone := false
		for i, v := range s.col(col).V {
			if f, ok := v.(float64); ok && math.IsNaN(f) {
				gone = true
				c.Ev("missing-last")
			} else if gone {
				c.Failf("SortedView by %q: row %d has key %s after missing values", col, i, vstr(v))
			}
		}
	} else {
		n := c.Int(src.N + 3)
		asc, sorted := c.P(0.5), c.P(0.5)
		c.Log("TopView(%q,%d,asc=%v,sorted=%v)", col, n, asc, sorted)
		s := take(df.TopView(col, n, asc, sorted))
		if s.N != imin(n, src.N) {
			c.Failf("TopView(%d) of %d rows has %d rows", n, src.N, s.N)
		}
		if d := subMultiset(s, src); d != "" {
			c.Failf("TopView rows are not distinct source rows: %s", d)
		}
		if sorted {
			ordered("TopView", s, asc)
		}
		// excluded keys = source keys minus selected keys
		left := map[interface{}]int{}
		norm := func(v interface{}) interface{} {
			if f, ok := v.(float64); ok && f == 0 {
				return 0.0
			}
			return v
		}
		for _, v := range key.V {
			if !missingKey(v) {
				left[norm(v)]++
			}
		}
		for _, v := range s.col(col).V {
			if !missingKey(v) {
				left[norm(v)]--
			}
		}
		for _, v := range s.col(col).V {
			if missingKey(v) {
				continue
			}
			for e, cnt := range left {
				if cnt > 0 && (asc && keyLess(e, v) || !asc && keyLess(v, e)) {
					c.Failf("TopView(%q, %d, asc=%v) keeps key %s although %s was left out", col, n, asc, vstr(v), vstr(e))
				}
			}
			c.Ev("top-keys")
		}
		if c.P(0.2) {
			c.mustPanic("TopView with negative n", func() { df.TopView(col, -1-c.Int(3), asc, sorted) })
		}
	}
	if bad := src.names("so"); len(bad) > 0 && c.P(0.3) {
		b := bad[c.Int(len(bad))]
		c.Log("non-numerical %q", b)
		c.mustPanic("SortedView of a non-numerical column", func() { df.SortedView(b) })
		n := c.Int(src.N + 2)
		c.mustPanic(fmt.Sprintf("TopView(n=%d of %d) of a non-numerical column", n, src.N), func() { df.TopView(b, n, c.P(0.5), c.P(0.5)) })
	}
	c.same("source after sorting", take(df), src)
}

func c04(c *Ctx) {
	df := c.genAny(GenOpt{})
	src := take(df)
	n := src.N
	if n >= 2 {
		c.NonTrivial()
	}
	seed := c.R.Int63()
	k := c.Int(n + 1)
	c.Log("n=%d sample=%d seed=%d", n, k, seed)
	rand.Seed(seed)
	a := take(df.ShuffleView())
	b := take(df.SampleView(k, false))
	if d := sameMultiset(a, src); d != "" {
		c.Failf("ShuffleView is not a permutation: %s", d)
	}
	if b.N != k {
		c.Failf("SampleView(%d) has %d rows", k, b.N)
	}
	if d := subMultiset(b, src); d != "" {
		c.Failf("SampleView rows are not distinct source rows: %s", d)
	}
	rand.Seed(seed)
	c.same("ShuffleView with the same seed", take(df.ShuffleView()), a)
	c.same("SampleView with the same seed", take(df.SampleView(k, false)), b)
	c.mustPanic("SampleView of more rows than there are", func() { df.SampleView(n+1+c.Int(4), false) })
	c.mustPanic("SampleView with replacement", func() { df.SampleView(k, true) })
	c.same("source after shuffling", take(df), src)
	c.EvN("rows-permuted", n)
}

// c04fair counts, over many seeds, how often each row lands at each position.
func c04fair(n int) func(*Ctx) {
	return func(c *Ctx) {
		m := 20000
		if c.Thorough() {
			m = 400000
		}
		raw := dataframe.NewRawData()
		ids := seq(n + 2)
		base := dataframe.DataBuilder{RawData: raw}.AddInts("id", ids...).ToDataFrame()
		// the rows 1..n of a longer frame, so that views are covered too
		df := base.SliceView(1, n+1)
		shuf := make([][]int, n)
		samp := make([][]int, n)
		k := (n + 1) / 2
		for i := range shuf {
			shuf[i] = make([]int, n)
			samp[i] = make([]int, k)
		}
		s0 := c.R.Int63()
		src := rand.New(rand.NewSource(s0))
		for j := 0; j < m; j++ {
			rand.Seed(src.Int63())
			a := df.ShuffleView().Ints("id")
			for p := 0; p < n; p++ {
				shuf[a.Get(p)-1][p]++
			}
			b := df.SampleView(k, false).Ints("id")
			for p := 0; p < k; p++ {
				samp[b.Get(p)-1][p]++
			}
		}
		c.Log("fairness n=%d over %d seeds", n, m)
		c.NonTrivial()
		c.EvN("seeded-shuffles", 2*m)
		mean := float64(m) / float64(n)
		sigma := math.Sqrt(mean * (1 - 1/float64(n)))
		check := func(what string, counts [][]int) {
			for r := range counts {
				for p, v := range counts[r] {
					if z := math.Abs(float64(v)-mean) / sigma; z > 7 {
						c.Failf("%s of %d rows is biased: row %d lands at position %d in %d of %d runs (%.1f sigma off)", what, n, r, p, v, m, z)
					}
				}
			}
		}
		check("ShuffleView", shuf)
		check("SampleView", samp)
	}
}

// c04large: in a large frame, rows go anywhere.
func c04large(n int) func(*Ctx) {
	return func(c *Ctx) {
		df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddInts("id", seq(n+2)...).ToDataFrame().SliceView(1, n+1)
		c.Log("shuffles and samples of %d rows", n)
		c.NonTrivial()
		check := func(what string, ids dataframe.IntAccess, k int) {
			if ids.Size() != k {
				c.Failf("%s of %d rows has %d rows instead of %d", what, n, ids.Size(), k)
			}
			const blocks = 8
			var counts [blocks][blocks]int
			seen := make([]bool, n)
			fixed, next := 0, 0
			for p := 0; p < k; p++ {
				r := ids.Get(p) - 1
				if r < 0 || r >= n || seen[r] {
					c.Failf("%s of %d rows: row %d is chosen twice or no row", what, n, r)
				}
				seen[r] = true
				if r == p {
					fixed++
				}
				if p > 0 && ids.Get(p-1) == r {
					next++
				}
				counts[r*blocks/n][p*blocks/k]++
			}
			// about one of each is to be expected, whatever n is
			if fixed > 40 || next > 40 {
				c.Failf("%s of %d rows leaves %d rows in place and %d next to their predecessor", what, n, fixed, next)
			}
			mean := float64(k) / (blocks * blocks)
			for r := range counts {
				for p, v := range counts[r] {
					if z := math.Abs(float64(v)-mean) / math.Sqrt(mean); z > 8 && math.Abs(float64(v)-mean) > 40 {
						c.Failf("%s of %d rows is biased: %d rows instead of %.0f go from part %d to part %d of %d", what, n, v, mean, r, p, blocks)
					}
				}
			}
			c.EvN("rows-permuted", k)
		}
		for j := 0; j < 3; j++ {
			rand.Seed(c.R.Int63())
			check("ShuffleView", df.ShuffleView().Ints("id"), n)
			for _, k := range []int{n, n - 1, n / 2, n / 7} {
				check(fmt.Sprintf("SampleView(%d)", k), df.SampleView(k, false).Ints("id"), k)
			}
		}
	}
}
