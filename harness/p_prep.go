package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
)

func init() {
	register(&Prop{ID: "C19", Quick: 180000, Thorough: 18000000, Random: c19,
		Rule:   "imputers of every policy fitted on random views (columns without any value, a single value, repeated and hidden rows) and applied to the same or other, wider frames and views; every cell of every frame that shares data compared; non-trivial: >=1 missing value imputed and >=1 present value left",
		Assume: []string{"present values are finite, of magnitude 0 or 1e-100 to 1e100; means are compared up to rounding", "no two columns of one frame share storage"}})
	register(&Prop{ID: "C20", Quick: 120000, Thorough: 12000000, Random: c20,
		Rule:   "scalers of every option set fitted on random views, applied to the same or other, wider frames and views with repeated and hidden rows, then inverted; every cell of every frame that shares data compared; non-trivial: >=2 different present values in a fitted column and >=1 row",
		Assume: []string{"present values are finite, of magnitude 0 or 1e-100 to 1e100; results are compared up to rounding", "no two columns of one frame share storage"}})
	register(&Prop{ID: "C21", Quick: 90000, Thorough: 9000000, Random: c21,
		Rule: "one-hot encoders of every admissible policy pair fitted on random views and applied to other data; which indicator means which value is found by transforming a probe frame that varies one column at a time; non-trivial: >=2 categories in a column and >=2 rows",
		Assume: []string{"training data is not empty; no imputation with the most frequent category when a column has none; no shared category when missing values are errors",
			"column names do not look like generated indicator names"}})
	register(&Prop{ID: "C22", Quick: 90000, Thorough: 9000000, Random: c22,
		Rule:   "every preprocessor and the regressor fitted and applied on frames and views that have parents, siblings and copies; snapshots of all of them before and after, and after overwriting the transformed columns of the result; non-trivial: >=2 rows",
		Assume: []string{"column names do not look like generated indicator names"}})
	register(&Prop{ID: "C23", Quick: 80000, Thorough: 8000000, Random: c23,
		Rule: "all option combinations and column mixes, training and other data, refitting; against an oracle composed of raw statistics and categories, indicators compared as sets of rows; non-trivial: >=2 rows and >=1 transformed column",
		Assume: []string{"training data is not empty", "the exclusions do not cover all of several string columns while int columns are present (which kind is meant is not specified)",
			"column names do not look like generated indicator names", "most frequent categories have no ties where they matter"}})
	register(&Prop{ID: "C24", Quick: 150000, Thorough: 15000000, Random: c24,
		Rule:   "imputer, scaler, one-hot encoder, hash encoder, automatic preprocessor and regressor with random options and data, serialised to JSON and back, both applied to the training frame and to others; non-trivial: >=1 column transformed",
		Assume: []string{"column names are valid UTF-8", "training did not diverge"}})
}

// ---- data ----

func (c *Ctx) prepFloat(mode int, p float64) float64 {
	if c.P(p) {
		return math.NaN()
	}
	switch mode {
	case 0:
		return c.R.NormFloat64()
	case 1:
		return c.R.NormFloat64() * 1e100
	case 2:
		return c.R.NormFloat64() * 1e-97
	case 3:
		return float64(c.Int(5))
	case 4:
		return 1e6 + c.R.Float64()
	case 5:
		return 0.1
	case 6:
		return -float64(c.Int(2)) * 7.25
	case 7:
		return c.R.ExpFloat64() * 1000
	}
	return math.NaN()
}

func (c *Ctx) prepCol(name string, n int) Col {
	v := make([]interface{}, n)
	mode := c.Int(9)
	p := []float64{0, 0.05, 0.3, 0.7, 0.95}[c.Int(5)]
	for i := range v {
		v[i] = c.prepFloat(mode, p)
	}
	return Col{name, 'f', v}
}

// prepSnap is a frame whose float columns suit the preprocessors.
func (c *Ctx) prepSnap(n, nf int, others string, maxOthers int) Snap {
	s := Snap{N: n}
	if others != "" {
		s = c.genSnap(GenOpt{MinRows: n, Fixed: true, Types: others, MinCols: 1, MaxCols: maxOthers, SmallInts: true})
	}
	for j := 0; j < nf; j++ {
		name := fmt.Sprintf("num%d", j)
		if c.P(0.15) {
			if k := oddNames[c.Int(len(oddNames))]; s.col(k) == nil {
				name = k
			}
		}
		s.Cols = append(s.Cols, c.prepCol(name, n))
	}
	return s.with()
}

// like is another frame with (at least) the columns of s, other rows, and new values.
func (c *Ctx) like(s Snap, n int, wider bool) Snap {
	o := Snap{N: n}
	for _, col := range s.Cols {
		if col.T == 'f' {
			o.Cols = append(o.Cols, c.prepCol(col.Name, n))
		} else {
			o.Cols = append(o.Cols, Col{col.Name, col.T, c.genVals(col.T, n, GenOpt{SmallInts: true})})
		}
	}
	if wider {
		o.Cols = append(o.Cols, c.prepCol("zz extra", n))
		o.Cols = append(o.Cols, Col{"zz label", 'i', c.genVals('i', n, GenOpt{})})
	}
	return o.with()
}

// family is a frame with relatives that share its data.
type family struct {
	parent *DF
	df     *DF
	idx    []int // rows of the parent that df shows
	rel    []*DF
}

// relatives picks a view of a frame plus observers.
func (c *Ctx) relatives(base *DF) *family {
	f := &family{parent: base}
	switch c.Int(5) {
	case 0:
		f.df, f.idx = base, seq(base.NumRows())
	default:
		st := c.selectRows(base)
		c.Log("on %s", st.name)
		f.df, f.idx = st.df, st.idx
	}
	f.df.SetMaxCPU(c.Pick(1, 1, 2, 3, 8, 0, -1, 50))
	return f
}

// storageShown tells which rows of the parent share storage with a row shown.
func (f *family) storageShown() []bool {
	sh := sharedIdx(f.parent)
	st := map[int]bool{}
	for _, i := range f.idx {
		st[sh[i]] = true
	}
	out := make([]bool, len(sh))
	for i, k := range sh {
		out[i] = st[k]
	}
	return out
}

func present(v []interface{}) []float64 {
	var out []float64
	for _, x := range v {
		if f := x.(float64); !math.IsNaN(f) {
			out = append(out, f)
		}
	}
	return out
}

// fstat are the statistics of the present values of a column, with error bounds.
type fstat struct {
	n                     int
	mean, std, min, max   float64
	meanErr, maxAbs       float64
	constant, wellDefined bool
}

func statOf(v []interface{}) fstat {
	x := present(v)
	s := fstat{n: len(x), min: math.Inf(1), max: math.Inf(-1)}
	if s.n == 0 {
		return s
	}
	for _, f := range x {
		s.min, s.max = math.Min(s.min, f), math.Max(s.max, f)
		s.maxAbs = math.Max(s.maxAbs, math.Abs(f))
		s.mean += f / float64(s.n)
	}
	s.meanErr = 4 * float64(s.n+4) * 2.3e-16 * s.maxAbs
	s.constant = s.min == s.max
	if s.constant {
		s.mean = s.min
	}
	ss := 0.0
	for _, f := range x {
		d := f - s.mean
		ss += d * d
	}
	s.std = math.Sqrt(ss / float64(s.n))
	s.wellDefined = !s.constant && s.std > 1e4*s.meanErr
	return s
}

// ---- C19 ----

func c19(c *Ctx) {
	n := c.rows(GenOpt{MaxRows: 120})
	s := c.prepSnap(n, c.Pick(0, 1, 1, 2, 3, 7), []string{"", "ibso", "is"}[c.Int(3)], 3)
	train := c.build(s)
	if c.P(0.6) {
		train = c.chain(train, 3)
	}
	policy := preprocessing.ImputingPolicy(c.Int(3))
	imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: policy})
	if c.P(0.1) { // whatever was fitted before is gone
		imp.Fit(c.build(c.prepSnap(4, 2, "", 0)))
	}
	fitOn := train
	ts := take(train)
	cols := ts.names("f")
	if len(cols) > 1 && c.P(0.3) {
		cols = c.subset(cols, 1)
		fitOn = train.ColumnView(append(append([]string{}, cols...), ts.names("ibso")...)...)
	}
	fitOn.SetMaxCPU(c.Pick(1, 2, 3, 8, 0, -1, 50))
	c.Log("policy %d fitted on %q of %s", policy, cols, ts.schema())
	if err := imp.Fit(fitOn); err != nil {
		c.Failf("Fit: %v", err)
	}
	c.same("training frame after Fit", take(train), ts)
	if !sameSet(imp.TransformedColumns(), cols) {
		c.Failf("the imputer transforms %q instead of %q", imp.TransformedColumns(), cols)
	}
	fallback := map[string]*float64{}
	for round := 0; round < 2; round++ {
		base := train
		if round == 1 || c.P(0.3) {
			base = c.build(c.like(ts, c.rows(GenOpt{MaxRows: 60}), c.P(0.6)))
			if c.P(0.5) {
				base = c.chain(base, 2)
			}
		}
		if base != train && base.NumRows() > 0 && c.P(0.4) { // infinities are not missing
			for _, name := range cols {
				base.Floats(name).Set(c.Int(base.NumRows()), math.Inf(c.Int(2)*2-1))
			}
			c.Ev("infinities-presented")
		}
		f := c.relatives(base)
		pBefore, before := take(f.parent), take(f.df)
		if err := imp.TransformInplace(f.df); err != nil {
			c.Failf("TransformInplace: %v", err)
		}
		got := take(f.df)
		c.same("columns that are not imputed", got.without(cols...), before.without(cols...))
		for _, name := range cols {
			st := statOf(ts.col(name).V)
			g, b := got.col(name), before.col(name)
			if g == nil || g.T != 'f' {
				c.Failf("column %q is gone: %s", name, got.schema())
			}
			for i := range b.V {
				x, y := b.V[i].(float64), g.V[i].(float64)
				if !math.IsNaN(x) {
					if !eqv(x, y) {
						c.Failf("present value %v of column %q row %d became %v", x, name, i, y)
					}
					c.Ev("present-values-kept")
					continue
				}
				want, tol := 0.0, 0.0
				switch policy {
				case preprocessing.Mean:
					want, tol = st.mean, st.meanErr
				case preprocessing.One:
					want = 1
				}
				if !(math.Abs(y-want) <= tol) {
					c.Failf("missing value of column %q row %d became %v instead of %v (policy %d, %d present training values)", name, i, y, want, policy, st.n)
				}
				if fb := fallback[name]; fb != nil && *fb != y {
					c.Failf("column %q is imputed with %v and with %v", name, *fb, y)
				}
				fallback[name] = &y
				c.Ev("values-imputed")
			}
		}
		if c.events["values-imputed"] > 0 && c.events["present-values-kept"] > 0 {
			c.NonTrivial()
		}
		c.hiddenUntouched(f, pBefore, cols)
	}
}

// hiddenUntouched checks the parent of an in-place change to cols through f.df.
func (c *Ctx) hiddenUntouched(f *family, pBefore Snap, cols []string) {
	after := take(f.parent)
	shown := f.storageShown()
	is := map[string]bool{}
	for _, n := range cols {
		is[n] = true
	}
	if after.schema() != pBefore.schema() {
		c.Failf("the source frame became %s", after.schema())
	}
	for q, col := range pBefore.Cols {
		for i := range col.V {
			if (!is[col.Name] || !shown[i]) && !eqv(after.Cols[q].V[i], col.V[i]) {
				c.Failf("row %d of column %q of the source frame changed from %s to %s, though it is not shown or not a fitted column",
					i, col.Name, vstr(col.V[i]), vstr(after.Cols[q].V[i]))
			}
		}
	}
	c.Ev("sources-compared")
}

// ---- C20 ----

func c20(c *Ctx) {
	n := c.rows(GenOpt{MaxRows: 120})
	s := c.prepSnap(n, c.Pick(0, 1, 1, 2, 3, 7), []string{"", "ibso", "is"}[c.Int(3)], 3)
	train := c.build(s)
	if c.P(0.6) {
		train = c.chain(train, 3)
	}
	opt := preprocessing.ScalerOptions{MinMax: c.P(0.35), Centering: c.P(0.6), Scaling: c.P(0.6)}
	sc := preprocessing.NewScaler(opt)
	if c.P(0.1) {
		sc.Fit(c.build(c.prepSnap(4, 2, "", 0)))
	}
	fitOn := train
	ts := take(train)
	cols := ts.names("f")
	if len(cols) > 1 && c.P(0.3) {
		cols = c.subset(cols, 1)
		fitOn = train.ColumnView(append(append([]string{}, cols...), ts.names("ibso")...)...)
	}
	fitOn.SetMaxCPU(c.Pick(1, 2, 3, 8, 0, -1, 50))
	c.Log("%+v fitted on %q of %s", opt, cols, ts.schema())
	if err := sc.Fit(fitOn); err != nil {
		c.Failf("Fit: %v", err)
	}
	c.same("training frame after Fit", take(train), ts)
	active := opt.MinMax || opt.Centering || opt.Scaling
	if active && !sameSet(sc.TransformedColumns(), cols) || !active && len(sc.TransformedColumns()) > 0 {
		c.Failf("the scaler transforms %q instead of %q", sc.TransformedColumns(), cols)
	}
	for round := 0; round < 2; round++ {
		base := train
		if round == 1 || c.P(0.3) {
			base = c.build(c.like(ts, c.rows(GenOpt{MaxRows: 60}), c.P(0.6)))
			if c.P(0.5) {
				base = c.chain(base, 2)
			}
		}
		f := c.relatives(base)
		pBefore, before := take(f.parent), take(f.df)
		if err := sc.TransformInplace(f.df); err != nil {
			c.Failf("TransformInplace: %v", err)
		}
		got := take(f.df)
		c.same("columns that are not scaled", got.without(cols...), before.without(cols...))
		for _, name := range cols {
			st := statOf(ts.col(name).V)
			if !st.constant && st.n > 1 && before.N > 0 {
				c.NonTrivial()
			}
			c20column(c, opt, name, st, before.col(name), got.col(name))
		}
		c.hiddenUntouched(f, pBefore, cols)
		if err := sc.InverseTransformInplace(f.df); err != nil {
			c.Failf("InverseTransformInplace: %v", err)
		}
		back := take(f.df)
		c.same("columns that are not scaled, after the inverse", back.without(cols...), before.without(cols...))
		for _, name := range cols {
			st := statOf(ts.col(name).V)
			for i, v := range before.col(name).V {
				x, y := v.(float64), back.col(name).V[i].(float64)
				if math.IsNaN(x) != math.IsNaN(y) || math.Abs(x-y) > 1e-12*(math.Abs(x)+st.maxAbs) {
					c.Failf("column %q row %d: %v comes back from the inverse as %v", name, i, x, y)
				}
				c.Ev("values-restored")
			}
		}
		c.hiddenUntouched(f, pBefore, cols)
	}
}

func c20column(c *Ctx, opt preprocessing.ScalerOptions, name string, st fstat, b, g *Col) {
	if g == nil || g.T != 'f' {
		c.Failf("column %q is gone", name)
	}
	for i := range b.V {
		x, y := b.V[i].(float64), g.V[i].(float64)
		if math.IsNaN(x) {
			if !math.IsNaN(y) {
				c.Failf("missing value of column %q row %d became %v", name, i, y)
			}
			c.Ev("missing-kept")
			continue
		}
		if math.IsNaN(y) || (math.IsInf(y, 0) && st.n > 0 && math.Abs(x) <= st.maxAbs) {
			c.Failf("column %q row %d: %v became %v", name, i, x, y)
		}
		want, tol := x, 0.0
		switch {
		case st.n == 0: // nothing was learnt: some finite affine map
			continue
		case opt.MinMax:
			if st.constant {
				if x == st.min && (y < 0 || y > 1) {
					c.Failf("column %q row %d: the only training value is mapped onto %v", name, i, y)
				}
				continue
			}
			r := st.max - st.min
			want = (x - st.min) / r
			tol = 1e-12*math.Abs(want) + 1e-15*(math.Abs(x)+math.Abs(st.min))/r
			if x == st.min && y != 0 || x == st.max && math.Abs(y-1) > 1e-12 {
				c.Failf("column %q: %v, the end of the training range, is mapped onto %v", name, x, y)
			}
		case !opt.Centering && !opt.Scaling:
		default:
			want, tol = x, 1e-15*math.Abs(x)
			if opt.Centering {
				want, tol = x-st.mean, st.meanErr+1e-15*(math.Abs(x)+math.Abs(st.mean))
			} else {
				tol = 0
			}
			if opt.Scaling {
				if st.constant && opt.Centering && x == st.min && math.Abs(y) > 1e-9*math.Abs(x) {
					c.Failf("constant column %q: its value %v became %v instead of 0", name, x, y)
				}
				if !st.wellDefined {
					if st.constant && !opt.Centering && x != 0 && (y == 0 || math.IsInf(y, 0)) {
						c.Failf("constant column %q: %v became %v", name, x, y)
					}
					continue
				}
				want, tol = want/st.std, tol/st.std+1e-7*math.Abs(want/st.std)
				if st.std > 1e7*st.meanErr {
					tol = tol - 1e-7*math.Abs(want) + 1e-10*math.Abs(want)
				}
			}
		}
		if math.Abs(y-want) > tol {
			c.Failf("column %q row %d: %v became %v instead of %v (%+v)", name, i, x, y, want, opt)
		}
		c.Ev("values-scaled")
	}
}

// ---- C21 ----

func (c *Ctx) category() int {
	switch c.Int(8) {
	case 0:
		return math.MinInt64 + c.Int(3)
	case 1:
		return math.MaxInt64 - c.Int(3)
	case 2:
		return -2 - c.Int(3)
	case 3:
		return 0
	}
	return c.Int(12)
}

func (c *Ctx) catVals(n int, pool []int, pMissing float64) []interface{} {
	v := make([]interface{}, n)
	for i := range v {
		v[i] = pool[c.Int(len(pool))]
		if c.P(0.3) {
			v[i] = pool[0]
		}
		if c.P(pMissing) {
			v[i] = -1
		}
	}
	return v
}

type policyPair struct{ m, u preprocessing.CategoryPolicy }

func (p policyPair) effective() policyPair {
	sh := preprocessing.SharedSeparateCategory
	if p.m == sh {
		if p.u != sh {
			p.m, p.u = p.u, sh
		} else {
			p.m = preprocessing.SeparateCategoryIfSeen
		}
	}
	if p.u == preprocessing.SeparateCategoryIfSeen {
		p.u = preprocessing.SeparateCategory
	}
	return p
}

func trueSet(s Snap, names []string, row int) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		if s.col(n).V[row].(bool) {
			m[n] = true
		}
	}
	return m
}

// c21frequent: one category fills more rows than a short counter can hold.
func c21frequent(c *Ctx) {
	most, less := c.category(), 500+c.Int(100)
	vals := make([]int, 0, 70000)
	nMost := 65536 + c.Int(60)
	if c.P(0.4) {
		nMost = c.Pick(128, 256, 32768) + c.Int(40)
	}
	for i := 0; i < nMost; i++ {
		vals = append(vals, most)
	}
	for i := 0; i < 100; i++ {
		vals = append(vals, less)
	}
	c.R.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	c.Log("%d rows with %d, 100 with %d", nMost, most, less)
	df := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddInts("cat", vals...).ToDataFrame()
	if c.P(0.5) {
		df = df.ShuffleView()
	}
	imp := preprocessing.ImputeWithMostFrequent
	pol := []policyPair{{imp, imp}, {imp, preprocessing.SeparateCategory}, {preprocessing.SeparateCategoryIfSeen, imp}, {preprocessing.ReturnError, imp}}[c.Int(4)]
	enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: pol.m, UnknownPolicy: pol.u})
	if err := enc.Fit(df); err != nil {
		c.Failf("Fit: %v", err)
	}
	rows := []int{most, less}
	if pol.m != preprocessing.ReturnError {
		rows = append(rows, -1)
	}
	if pol.u == imp {
		rows = append(rows, 77)
	}
	r, err := enc.TransformView(dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddInts("cat", rows...).ToDataFrame())
	if err != nil {
		c.Failf("TransformView: %v", err)
	}
	got := take(r)
	first := trueSet(got, enc.NewColumns, 0)
	for i, v := range rows {
		g := trueSet(got, enc.NewColumns, i)
		if len(g) != 1 {
			c.Failf("value %d sets the indicators %v", v, g)
		}
		for name := range g {
			if first[name] != (v != less) {
				c.Failf("value %d sets the indicator %q, the most frequent category %v", v, name, first)
			}
		}
	}
	c.Ev("frequent-category")
	c.NonTrivial()
}

// c21rare: one missing or unknown value among thousands of rows and many categories.
func c21rare(c *Ctx) {
	n := c.Pick(300, 1030, 1100, 2100, 5000)
	size := c.Pick(1, 7, 101, 130, 300)
	if n < 2*size {
		n = 5 * size
	}
	vals := make([]int, n)
	for i := range vals {
		vals[i] = c.Int(size) * 5
		if i < size {
			vals[i] = i * 5
		}
	}
	common := c.Int(size) * 5 // by far the most frequent
	for i := size; i < n; i++ {
		if i%3 == 0 {
			vals[i] = common
		}
	}
	seen := c.P(0.6)
	if seen {
		vals[c.Range(size, n-1)] = -1
		c.R.Shuffle(n, func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	}
	eff := policyPair{preprocessing.CategoryPolicy(c.Pick(0, 0, 2, 3, 4)), preprocessing.CategoryPolicy(c.Pick(1, 2, 3, 4))}
	if eff.m == preprocessing.ReturnError && eff.u == preprocessing.SharedSeparateCategory {
		eff.u = preprocessing.SeparateCategory
	}
	c.Log("%d rows, %d categories, one missing: %v, policies %v", n, size, seen, eff)
	train := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddInts("cat", vals...).ToDataFrame()
	enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: eff.m, UnknownPolicy: eff.u})
	if err := enc.Fit(train); err != nil {
		c.Failf("Fit: %v", err)
	}
	for round := 0; round < 2; round++ {
		special := c.Pick(-1, 3)
		m := c.Pick(300, 1030, 1100, 2100, 5000)
		rows := make([]int, m)
		for i := range rows {
			rows[i] = c.Int(size) * 5
		}
		at := c.Int(m)
		rows[at] = special
		oneCommon := c.Int(m)
		for oneCommon == at {
			oneCommon = c.Int(m)
		}
		rows[oneCommon] = common
		r, err := enc.TransformView(dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddInts("cat", rows...).ToDataFrame())
		policy := eff.u
		if special == -1 {
			policy = eff.m
		}
		if (err != nil) != (policy == preprocessing.ReturnError) {
			c.Failf("TransformView of %d rows, row %d of which is %d, gives error %v", m, at, special, err)
		}
		c.Ev("rare-values")
		c.NonTrivial()
		if err != nil {
			continue
		}
		of := map[int]string{} // indicators
		by := map[string]int{}
		got := take(r)
		set := make([][]string, m)
		for _, name := range enc.NewColumns {
			for i, v := range got.col(name).V {
				if v.(bool) {
					set[i] = append(set[i], name)
				}
			}
		}
		for i, v := range rows {
			if len(set[i]) != 1 {
				c.Failf("row %d (value %d) has the indicators %q", i, v, set[i])
			}
			if old, ok := of[v]; ok && old != set[i][0] {
				c.Failf("value %d has the indicators %q and %q", v, old, set[i][0])
			}
			of[v] = set[i][0]
			if i == at {
				continue
			}
			if old, ok := by[set[i][0]]; ok && old != v {
				c.Failf("values %d and %d have the same indicator %q", v, old, set[i][0])
			}
			by[set[i][0]] = v
		}
		imputed := policy == preprocessing.ImputeWithMostFrequent || special == -1 && eff.m == preprocessing.SeparateCategoryIfSeen && !seen ||
			special != -1 && eff.u == preprocessing.SharedSeparateCategory && (eff.m == preprocessing.ImputeWithMostFrequent || eff.m == preprocessing.SeparateCategoryIfSeen && !seen)
		if imputed && of[special] != of[common] {
			c.Failf("value %d has the indicator %q, the most frequent category %d %q", special, of[special], common, of[common])
		}
		if v, ok := by[of[special]]; ok && !imputed {
			c.Failf("value %d has the indicator of category %d", special, v)
		}
	}
}

func c21(c *Ctx) {
	if c.P(0.004) {
		c21frequent(c)
		return
	}
	if c.P(0.003) {
		c21rare(c)
		return
	}
	n := 1 + c.rows(GenOpt{MaxRows: 100})
	k := c.Pick(1, 1, 2, 2, 3, 5)
	if c.P(0.02) {
		k = 0
	}
	many := c.P(0.0006)
	if many { // hundreds of categories
		n, k = c.Pick(400, 700, 1500, 3000), 1
	}
	var names []string
	s := c.genSnap(GenOpt{MinRows: n, Fixed: true, Types: "fbso", MinCols: 1, MaxCols: 3})
	if hasIndicators(s) {
		c.Abandon("indicator-like name")
	}
	pools := map[string][]int{}
	pair := policyPair{preprocessing.CategoryPolicy(c.Int(5)), preprocessing.CategoryPolicy(c.Int(5))}
	eff := pair.effective()
	if eff.m == preprocessing.ReturnError && eff.u == preprocessing.SharedSeparateCategory {
		c.Abandon("shared category with missing values being errors")
	}
	needCommon := eff.m == preprocessing.ImputeWithMostFrequent || eff.u == preprocessing.ImputeWithMostFrequent
	for j := 0; j < k; j++ {
		name := fmt.Sprintf("cat%d", j)
		if c.P(0.2) {
			if q := oddNames[c.Int(len(oddNames))]; s.col(q) == nil {
				name = q
			}
		}
		if s.col(name) != nil {
			continue
		}
		size := c.Pick(1, 2, 3, 5, 9, 40)
		if many {
			size = n
		}
		pool := make([]int, size)
		for i := range pool {
			pool[i] = c.category()
			if size >= 40 {
				pool[i] = i * 3
			}
		}
		pools[name] = pool
		names = append(names, name)
		s.Cols = append(s.Cols, Col{name, 'i', c.catVals(n, pool, []float64{0, 0, 0.1, 0.5, 1}[c.Int(5)])})
	}
	s = s.with()
	train := c.build(s)
	if c.P(0.5) {
		if t := c.chain(train, 3); t.NumRows() > 0 {
			train = t
		}
	}
	ts := take(train)
	known := map[string]map[int]int{} // frequencies
	seen := map[string]bool{}
	for _, name := range names {
		known[name] = map[int]int{}
		for _, v := range ts.col(name).V {
			if v.(int) == -1 {
				seen[name] = true
			} else {
				known[name][v.(int)]++
			}
		}
		if len(known[name]) == 0 && needCommon {
			c.Abandon("no category to impute with")
		}
		if len(known[name]) > 1 && n > 1 {
			c.NonTrivial()
		}
	}
	keep := c.P(0.4)
	enc := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: pair.m, UnknownPolicy: pair.u, KeepUsedColumns: keep})
	train.SetMaxCPU(c.Pick(1, 2, 3, 8, 0, -1, 50))
	c.Log("policies missing=%d unknown=%d keep=%v, fitted on %s", pair.m, pair.u, keep, ts.schema())
	if c.P(0.1) {
		enc.Fit(c.build(Snap{3, []Col{{"old", 'i', []interface{}{1, 2, 3}}}}))
	}
	if err := enc.Fit(train); err != nil {
		c.Failf("Fit: %v", err)
	}
	c.same("training frame after Fit", take(train), ts)
	if !sameSet(enc.TransformedColumns(), names) {
		c.Failf("the encoder transforms %q instead of %q", enc.TransformedColumns(), names)
	}
	adv := append([]string{}, enc.NewColumns...)
	if !distinct(adv) {
		c.Failf("advertised columns %q", adv)
	}
	if len(names) == 0 {
		r, err := enc.TransformView(train)
		if err != nil {
			c.Failf("TransformView without categorical column: %v", err)
		}
		c.same("frame without categorical column", take(r), ts)
		r.AllocBools("zz fresh")
		c.same("training frame after adding a column to the result", take(train), ts)
		return
	}
	ind := c21probe(c, enc, eff, names, known, seen, adv)

	// other data
	for round := 0; round < 3; round++ {
		base := train
		if round > 0 {
			m := c.rows(GenOpt{MaxRows: 60})
			o := Snap{N: m}
			for _, col := range ts.Cols {
				if pool, ok := pools[col.Name]; ok {
					v := c.catVals(m, pool, []float64{0, 0, 0.2}[c.Int(3)])
					if c.P(0.5) {
						for i := range v {
							if c.P(0.2) {
								v[i] = c.category() + c.Int(2)
							}
						}
					}
					o.Cols = append(o.Cols, Col{col.Name, 'i', v})
				} else {
					o.Cols = append(o.Cols, Col{col.Name, col.T, c.genVals(col.T, m, GenOpt{})})
				}
			}
			if c.P(0.5) {
				o.Cols = append(o.Cols, Col{"zz int", 'i', c.genVals('i', m, GenOpt{})})
			}
			base = c.build(o.with())
			if c.P(0.5) {
				base = c.chain(base, 2)
			}
		}
		f := c.relatives(base)
		before, pBefore := take(f.df), take(f.parent)
		wantErr := false
		for _, name := range names {
			for _, v := range before.col(name).V {
				if v.(int) == -1 {
					wantErr = wantErr || eff.m == preprocessing.ReturnError
				} else if known[name][v.(int)] == 0 {
					wantErr = wantErr || eff.u == preprocessing.ReturnError
				}
			}
		}
		r, err := enc.TransformView(f.df)
		c.same("input after TransformView", take(f.df), before)
		c.same("source of the input after TransformView", take(f.parent), pBefore)
		if (err != nil) != wantErr {
			c.Failf("TransformView gives error %v (policies missing=%d unknown=%d)", err, pair.m, pair.u)
		}
		if err != nil {
			c.Ev("refused-by-policy")
			continue
		}
		got := take(r)
		rest := before
		if !keep {
			rest = before.without(names...)
		}
		c.same("forwarded columns", got.without(adv...), rest)
		if len(got.Cols) != len(rest.Cols)+len(adv) {
			c.Failf("columns of the result: %s, advertised %q", got.schema(), adv)
		}
		for i := 0; i < before.N; i++ {
			want := map[string]bool{}
			for _, name := range names {
				v := before.col(name).V[i].(int)
				key := v
				if v != -1 && known[name][v] == 0 {
					want[ind[name].unknown] = true
					c.Ev("unknown-rows")
					continue
				}
				if v == -1 {
					want[ind[name].missing] = true
					c.Ev("missing-rows")
					continue
				}
				want[ind[name].known[key]] = true
			}
			g := trueSet(got, adv, i)
			if len(g) != len(names) {
				c.Failf("row %d has %d indicators set for %d columns: %v", i, len(g), len(names), g)
			}
			for q := range want {
				if !g[q] {
					c.Failf("row %d (%s) has indicators %v instead of %v", i, before.rowText(i), g, want)
				}
			}
			c.Ev("rows-encoded")
		}
	}
}

type indicators struct {
	known            map[int]string
	missing, unknown string
}

// c21probe finds the indicator of every value by changing one column at a time.
func c21probe(c *Ctx, enc *preprocessing.OneHotEncoder, eff policyPair, names []string, known map[string]map[int]int, seen map[string]bool, adv []string) map[string]*indicators {
	cats := map[string][]int{}
	base := map[string]int{}
	unk := map[string]int{}
	out := map[string]*indicators{}
	for _, name := range names {
		out[name] = &indicators{known: map[int]string{}}
		for v := range known[name] {
			cats[name] = append(cats[name], v)
		}
		sort.Ints(cats[name])
		for known[name][unk[name]] > 0 || unk[name] == -1 {
			unk[name] += 17
		}
		if len(cats[name]) > 0 {
			base[name] = cats[name][0]
		} else {
			base[name] = -1
			if eff.m == preprocessing.ReturnError {
				c.Abandon("no value can be encoded")
			}
		}
	}
	type probeRow struct {
		col string
		val int
	}
	rows := []probeRow{{"", 0}}
	for _, name := range names {
		for _, v := range cats[name] {
			rows = append(rows, probeRow{name, v})
		}
		if eff.m != preprocessing.ReturnError {
			rows = append(rows, probeRow{name, -1})
		}
		if eff.u != preprocessing.ReturnError {
			rows = append(rows, probeRow{name, unk[name]})
		}
	}
	p := Snap{N: len(rows)}
	for _, name := range names {
		v := make([]interface{}, len(rows))
		for i, r := range rows {
			v[i] = base[name]
			if r.col == name && i > 0 {
				v[i] = r.val
			}
		}
		p.Cols = append(p.Cols, Col{name, 'i', v})
	}
	r, err := enc.TransformView(c.build(p.with()))
	if err != nil {
		c.Failf("probe frame: %v", err)
	}
	got := take(r)
	for _, a := range adv {
		if col := got.col(a); col == nil || col.T != 'b' {
			c.Failf("advertised column %q: %s", a, got.schema())
		}
	}
	b := trueSet(got, adv, 0)
	if len(b) != len(names) {
		c.Failf("probe row has %d indicators for %d columns", len(b), len(names))
	}
	type found struct {
		row probeRow
		ind string // "" = that of the base row
		ok  bool
	}
	baseInd := map[string]string{}
	var fs []found
	for i, row := range rows {
		if i == 0 {
			continue
		}
		t := trueSet(got, adv, i)
		if len(t) != len(names) {
			c.Failf("probe row %q=%d has %d indicators set for %d columns: %v", row.col, row.val, len(t), len(names), t)
		}
		var on, off []string
		for q := range t {
			if !b[q] {
				on = append(on, q)
			}
		}
		for q := range b {
			if !t[q] {
				off = append(off, q)
			}
		}
		if len(on) > 1 {
			c.Failf("changing column %q alone to %d changes the indicators %q into %q", row.col, row.val, off, on)
		}
		if len(on) == 1 {
			if x, ok := baseInd[row.col]; ok && x != off[0] {
				c.Failf("changing column %q switches off %q or %q", row.col, x, off[0])
			}
			baseInd[row.col] = off[0]
			fs = append(fs, found{row, on[0], true})
		} else {
			fs = append(fs, found{row, "", true})
		}
	}
	taken := map[string]string{}
	for col, q := range baseInd {
		if o, ok := taken[q]; ok {
			c.Failf("columns %q and %q share the indicator %q", o, col, q)
		}
		taken[q] = col
	}
	for _, name := range names { // columns with a single possible indicator
		if _, ok := baseInd[name]; !ok {
			rest := 0
			for q := range b {
				if taken[q] == "" && !hasKey(taken, q) {
					rest++
					if rest == 1 {
						baseInd[name] = q
					}
				}
			}
			taken[baseInd[name]] = name
		}
	}
	owner := map[string]string{}
	for _, f := range fs {
		q := f.ind
		if q == "" {
			q = baseInd[f.row.col]
		}
		if o, ok := owner[q]; ok && o != f.row.col {
			c.Failf("columns %q and %q share the indicator %q", o, f.row.col, q)
		}
		owner[q] = f.row.col
		o := out[f.row.col]
		switch {
		case f.row.val == -1:
			o.missing = q
		case known[f.row.col][f.row.val] > 0:
			o.known[f.row.val] = q
		default:
			o.unknown = q
		}
	}
	for _, name := range names {
		o := out[name]
		if len(cats[name]) == 0 {
			owner[baseInd[name]] = name
		}
		byInd := map[string]int{}
		best := 0
		for v, q := range o.known {
			if w, ok := byInd[q]; ok {
				c.Failf("categories %d and %d of column %q share the indicator %q", v, w, name, q)
			}
			byInd[q] = v
			best = imax(best, known[name][v])
		}
		mostFrequent := func(what, q string) {
			v, ok := byInd[q]
			if !ok || known[name][v] != best {
				c.Failf("%s values of column %q get the indicator %q, which is not that of a most frequent category", what, name, q)
			}
		}
		separate := func(what, q string) {
			if _, ok := byInd[q]; ok {
				c.Failf("%s values of column %q get the indicator %q of category %d", what, name, q, byInd[q])
			}
		}
		switch eff.m {
		case preprocessing.SeparateCategory:
			separate("missing", o.missing)
		case preprocessing.SeparateCategoryIfSeen:
			if seen[name] {
				separate("missing", o.missing)
			} else {
				mostFrequent("missing", o.missing)
			}
		case preprocessing.ImputeWithMostFrequent:
			mostFrequent("missing", o.missing)
		}
		switch eff.u {
		case preprocessing.SeparateCategory:
			separate("unknown", o.unknown)
			if o.unknown == o.missing {
				c.Failf("missing and unknown values of column %q share the indicator %q", name, o.missing)
			}
		case preprocessing.SharedSeparateCategory:
			if o.unknown != o.missing {
				c.Failf("unknown values of column %q get the indicator %q, missing ones %q, though the category is shared", name, o.unknown, o.missing)
			}
		case preprocessing.ImputeWithMostFrequent:
			mostFrequent("unknown", o.unknown)
		}
		c.EvN("indicators-identified", len(o.known)+2)
	}
	if len(owner) != len(adv) {
		c.Failf("advertised columns %q, indicators ever set %v", adv, owner)
	}
	return out
}

func hasKey(m map[string]string, k string) bool {
	_, ok := m[k]
	return ok
}

// ---- C22 ----

// watch observes a set of frames.
type watch struct {
	names []string
	dfs   []*DF
	snaps []Snap
}

func (w *watch) add(name string, df *DF) {
	w.names = append(w.names, name)
	w.dfs = append(w.dfs, df)
	w.snaps = append(w.snaps, take(df))
}

func (w *watch) check(c *Ctx, when string) {
	for i, df := range w.dfs {
		c.same(fmt.Sprintf("%s after %s", w.names[i], when), take(df), w.snaps[i])
	}
	c.EvN("frames-compared", len(w.dfs))
}

func c22(c *Ctx) {
	n := 1 + c.rows(GenOpt{MaxRows: 80})
	s := c.prepSnap(n, c.Pick(1, 2, 3), "ibso", 5)
	if hasIndicators(s) {
		c.Abandon("indicator-like name")
	}
	base := c.build(s)
	w := &watch{}
	w.add("the root frame", base)
	mid := c.selectRows(base)
	w.add("a view of the root", mid.df)
	df := base
	switch c.Int(4) {
	case 0:
		df = mid.df
	case 1:
		df = c.chain(base, 3)
	case 2: // column view
		names := take(base).names("fibso")
		df = base.ColumnView(c.subset(names, 1)...)
	}
	if df.NumRows() == 0 {
		df = base
	}
	if c.P(0.3) {
		df = df.DetachedView(c.subset(take(df).names("fibso"), 0)...)
	}
	w.add("the input", df)
	w.add("a shallow copy of the input", df.ShallowCopy())
	w.add("a view of the input", df.View())
	if df.NumRows() > 1 {
		w.add("a part of the input", df.SliceView(0, df.NumRows()/2+1))
		c.NonTrivial()
	}
	df.SetMaxCPU(c.Pick(1, 2, 8, -1))
	in := take(df)
	what := ""
	var r *DF
	var cols []string
	reorder := false
	repeat := 1 + c.Int(2)
	switch c.Int(6) {
	case 0:
		what = "HashEncoder"
		e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		e.Fit(df)
		w.check(c, what+".Fit")
		for ; repeat > 0; repeat-- {
			r, _ = e.TransformView(df)
		}
		cols = e.TransformedColumns()
	case 1:
		what = "OneHotEncoder"
		e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.CategoryPolicy(c.Pick(0, 2)),
			UnknownPolicy: preprocessing.CategoryPolicy(c.Pick(1, 2)), KeepUsedColumns: c.P(0.5)})
		e.Fit(df)
		w.check(c, what+".Fit")
		for ; repeat > 0; repeat-- {
			var err error
			r, err = e.TransformView(df)
			if err != nil {
				c.Failf("TransformView: %v", err)
			}
		}
		cols = append(append([]string{}, e.TransformedColumns()...), e.NewColumns...)
	case 2, 3:
		what = "AutoPreprocessor"
		var ex []string
		for _, name := range in.names("fibso") {
			if c.P(0.15) {
				ex = append(ex, name)
			}
		}
		p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: c.P(0.6), Scaling: c.P(0.6), Exclude: ex})
		if c.P(0.5) {
			r = p.FitTransform(df)
			w.check(c, what+".FitTransform")
		} else {
			if err := p.Fit(df); err != nil {
				c.Failf("Fit: %v", err)
			}
			w.check(c, what+".Fit")
		}
		for ; repeat > 0; repeat-- {
			var err error
			r, err = p.TransformView(df)
			if err != nil {
				c.Failf("TransformView: %v", err)
			}
		}
		cols = append([]string{}, p.TransformedColumns()...)
		if p.IntToBool != nil {
			cols = append(cols, p.IntToBool.NewColumns...)
		}
	case 4:
		what = "FloatImputer and Scaler"
		imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.ImputingPolicy(c.Int(3))})
		imp.Fit(df)
		sc := preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: c.P(0.3), Centering: c.P(0.6), Scaling: c.P(0.6)})
		sc.Fit(df)
		w.check(c, "fitting an imputer and a scaler")
		r = df.View()
		cols = in.names("f")
		r.Unshare(cols...)
		imp.TransformInplace(r)
		sc.TransformInplace(r)
		sc.InverseTransformInplace(r)
	default:
		what = "LinearRegressor"
		// training needs numbers without gaps
		names := in.names("f")
		clean := df.View()
		clean.Unshare(names...)
		preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true, Exclude: in.names("ibso")}).FitTransform(clean)
		imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
		imp.Fit(clean)
		imp.TransformInplace(clean)
		w.check(c, "detaching")
		if len(names) == 0 || len(in.names("fb")) < 2 {
			c.Abandon("nothing to learn from")
		}
		target := names[c.Int(len(names))]
		w.add("the training frame", clean)
		reg := algorithms.NewLinearRegressor()
		if err := reg.Fit(clean, target, algorithms.LinRegTrainParams{Epochs: 1 + c.Int(2), LR: 1e-9, BatchSize: 1 + c.Int(9), LowMemory: c.P(0.5), Momentum: 0.1}); err != nil {
			c.Failf("Fit: %v", err)
		}
		w.check(c, what+".Fit")
		result := []string{"_pred", target, "_target", in.names("fibso")[c.Int(len(in.names("fibso")))]}[c.Int(4)]
		var err error
		if r, err = reg.Predict(clean, result); err != nil {
			c.Failf("Predict: %v", err)
		}
		in = take(clean)
		cols = []string{result}
		reorder = true
		what += fmt.Sprintf(" target %q result %q", target, result)
	}
	c.Log("%s on %s", what, in.schema())
	w.check(c, what)
	got := take(r)
	if reorder {
		if d := sameMultiset(got.without(cols...), in.without(cols...)); d != "" {
			c.Failf("%s: forwarded columns: %s", what, d)
		}
	} else {
		c.same(what+": forwarded columns", got.without(cols...), in.without(cols...))
	}
	// the transformed columns are the result's own
	own := r.ColumnView(append(got.only(cols).names("fibso"), []string{}...)...)
	if len(got.only(cols).Cols) > 0 {
		kept := map[string]bool{} // one-hot may keep its input columns, which are shared
		for _, name := range in.names("fibso") {
			kept[name] = true
		}
		var fresh []string
		for _, col := range got.only(cols).Cols {
			src := in.col(col.Name)
			if !kept[col.Name] || src.T != col.T || col.T == 'f' {
				fresh = append(fresh, col.Name)
			}
		}
		_ = own
		if len(fresh) > 0 && !strings.HasPrefix(what, "AutoPreprocessor") {
			c.scribble(r.ColumnView(fresh...))
			w.check(c, what+" and overwriting its result")
		}
	}
	// and its columns are its own to rearrange
	names := got.names("fibso")
	switch c.Int(3) {
	case 0:
		r.AllocFloats("zz fresh")
	case 1:
		r.Drop(names[c.Int(len(names))])
	default:
		r.Rename(names[c.Int(len(names))], "zz renamed")
	}
	w.check(c, what+" and editing the columns of its result")
	c.Ev("results-edited")
}

// ---- C23 ----

func c23(c *Ctx) {
	n := 1 + c.rows(GenOpt{MaxRows: 70})
	wide := c.P(0.01) // many columns of one type
	if wide {
		n = 1 + c.Int(12)
	}
	var types []byte
	for _, t := range "fisbo" {
		if c.P(0.65) {
			types = append(types, byte(t))
		}
	}
	if len(types) == 0 {
		types = []byte{'f'}
	}
	s := Snap{N: n}
	cat := func(t byte, n int, fresh bool) []interface{} {
		v := make([]interface{}, n)
		pm := []float64{0, 0, 0.2, 1}[c.Int(4)]
		for i := range v {
			k := c.Int(4)
			if c.P(0.5) {
				k = 0
			}
			if fresh && c.P(0.2) {
				k = 20 + c.Int(4)
			}
			if t == 'i' {
				v[i] = k
			} else {
				v[i] = fmt.Sprintf("v%d", k)
			}
			if c.P(pm) {
				v[i] = nil
				if t == 'i' {
					v[i] = -1
				}
			}
		}
		return v
	}
	most := types[c.Int(len(types))]
	for _, t := range types {
		j := c.Range(1, 3)
		if wide && t == most {
			j = c.Pick(20, 64, 65, 70, 130)
			c.Ev("wide-frames")
		}
		for ; j > 0; j-- {
			col := Col{Name: fmt.Sprintf("%c%d", t, j), T: t}
			if c.P(0.15) {
				if q := oddNames[c.Int(len(oddNames))]; s.col(q) == nil {
					col.Name = q
				}
			}
			if s.col(col.Name) != nil {
				continue
			}
			switch t {
			case 'f':
				col.V = c.prepCol("", n).V
			case 'i', 's':
				col.V = cat(t, n, false)
			default:
				col.V = c.genVals(t, n, GenOpt{})
			}
			s.Cols = append(s.Cols, col)
		}
	}
	s = s.with()
	if hasIndicators(s) {
		c.Abandon("indicator-like name")
	}
	var ex []string
	if c.P(0.6) {
		for _, col := range s.Cols {
			if c.P(0.25) {
				ex = append(ex, col.Name)
			}
		}
		if c.P(0.1) {
			ex = append(ex, "not there")
		}
	}
	exSet := map[string]bool{}
	for _, e := range ex {
		exSet[e] = true
	}
	inc := func(t string) []string {
		var out []string
		for _, name := range s.names(t) {
			if !exSet[name] {
				out = append(out, name)
			}
		}
		return out
	}
	if len(s.names("s")) > 0 && len(inc("s")) == 0 && len(inc("i")) > 0 {
		c.Abandon("which categorical columns are meant is not specified")
	}
	cats := inc("s")
	if len(cats) == 0 {
		cats = inc("i")
	}
	opt := preprocessing.AutoPreprocOptions{Imputing: c.P(0.5), Scaling: c.P(0.5), Exclude: append([]string{}, ex...), Verbose: c.P(0.1)}
	train := c.build(s)
	if c.P(0.6) && !wide {
		if t := c.chain(train, 3); t.NumRows() > 0 {
			train = t
		}
	}
	train.SetMaxCPU(c.Pick(1, 2, 3, 8, 0, -1))
	ts := take(train)
	c.Log("%+v on %s", opt, ts.schema())
	floats := inc("f")
	if !opt.Imputing && !opt.Scaling {
		floats = nil
	}
	wantCols := append(append([]string{}, floats...), cats...)

	p := preprocessing.NewAutoPreprocessor(opt)
	if c.P(0.2) { // something else was fitted before
		p.Fit(c.build(c.prepSnap(5, 2, "ibs", 3)))
		c.Ev("refitted")
	}
	mode := c.Int(3)
	var r *DF
	if mode == 0 {
		r = p.FitTransform(train)
	} else {
		if err := p.Fit(train); err != nil {
			c.Failf("Fit: %v", err)
		}
		var err error
		if r, err = p.TransformView(train); err != nil {
			c.Failf("TransformView: %v", err)
		}
	}
	c.same("training frame", take(train), ts)
	if !sameSet(p.TransformedColumns(), wantCols) {
		c.Failf("advertised columns %q instead of %q", p.TransformedColumns(), wantCols)
	}
	if len(wantCols) > 0 && ts.N > 1 {
		c.NonTrivial()
	}
	c23check(c, "training frame", opt, ts, ts, take(r), floats, cats)
	if mode == 0 {
		again, err := p.TransformView(train)
		if err != nil {
			c.Failf("TransformView: %v", err)
		}
		c.same("TransformView compared with FitTransform", take(again), take(r))
	} else if mode == 1 {
		q := preprocessing.NewAutoPreprocessor(opt)
		c23check(c, "FitTransform of the training frame", opt, ts, ts, take(q.FitTransform(train)), floats, cats)
	}
	for round := 0; round < 2; round++ {
		m := c.rows(GenOpt{MaxRows: 40})
		o := Snap{N: m}
		for _, col := range ts.Cols {
			nc := Col{Name: col.Name, T: col.T}
			switch col.T {
			case 'f':
				nc.V = c.prepCol("", m).V
			case 'i', 's':
				nc.V = cat(col.T, m, true)
			default:
				nc.V = c.genVals(col.T, m, GenOpt{})
			}
			o.Cols = append(o.Cols, nc)
		}
		if c.P(0.3) {
			o.Cols = append(o.Cols, c.prepCol("zz", m), Col{"zi", 'i', cat('i', m, true)})
		}
		test := c.chain(c.build(o.with()), 2)
		os := take(test)
		rr, err := p.TransformView(test)
		if err != nil {
			c.Failf("TransformView of other data: %v", err)
		}
		c.same("other data after TransformView", take(test), os)
		c23check(c, "other data", opt, ts, os, take(rr), floats, cats)
	}
}

// c23check compares a transformed frame with the composition of the parts.
func c23check(c *Ctx, what string, opt preprocessing.AutoPreprocOptions, ts, in, got Snap, floats, cats []string) {
	changed := append(append([]string{}, floats...), cats...)
	isIn := map[string]bool{}
	for _, col := range in.Cols {
		isIn[col.Name] = true
	}
	var forwarded, added []string
	for _, col := range got.Cols {
		if !isIn[col.Name] {
			added = append(added, col.Name)
		}
	}
	forwarded = in.without(changed...).names("fibso")
	if got.N != in.N {
		c.Failf("%s: %d rows instead of %d", what, got.N, in.N)
	}
	c.same(what+": forwarded columns", got.only(forwarded), in.only(forwarded))
	if len(got.Cols) != len(forwarded)+len(floats)+len(added) {
		c.Failf("%s: columns %s from %s (transforming %q)", what, got.schema(), in.schema(), changed)
	}
	for _, name := range floats {
		st := statOf(ts.col(name).V)
		g := got.col(name)
		if g == nil || g.T != 'f' {
			c.Failf("%s: column %q is gone", what, name)
		}
		for i, v := range in.col(name).V {
			x, y := v.(float64), g.V[i].(float64)
			tol := 1e-15 * math.Abs(x)
			if math.IsNaN(x) {
				if !opt.Imputing {
					if !math.IsNaN(y) {
						c.Failf("%s: missing value of column %q row %d became %v", what, name, i, y)
					}
					continue
				}
				x, tol = st.mean, st.meanErr
			}
			if math.IsNaN(y) {
				c.Failf("%s: column %q row %d became NaN", what, name, i)
			}
			if opt.Scaling {
				if !st.wellDefined {
					continue
				}
				tol = (tol+st.meanErr+1e-15*math.Abs(x))/st.std + 1e-7*math.Abs(x-st.mean)/st.std
				x = (x - st.mean) / st.std
			} else if !opt.Imputing || v.(float64) == v.(float64) {
				tol = 0
			}
			if math.Abs(x-y) > tol {
				c.Failf("%s: column %q row %d: %s became %v instead of %v", what, name, i, vstr(v), y, x)
			}
			c.Ev("floats-compared")
		}
	}
	// indicators as sets of rows
	want := map[string]int{}
	mask := func(rows []int) string { return fmt.Sprint(rows) }
	for _, name := range cats {
		freq := map[interface{}]int{}
		seenMissing := false
		missing := func(v interface{}) bool { return v == nil || v == -1 }
		for _, v := range ts.col(name).V {
			if missing(v) {
				seenMissing = true
			} else {
				freq[v]++
			}
		}
		best, ties := interface{}(nil), 0
		for v, f := range freq {
			if best == nil || f > freq[best] {
				best, ties = v, 1
			} else if f == freq[best] {
				ties++
			}
		}
		rows := map[interface{}][]int{}
		for i, v := range in.col(name).V {
			if missing(v) || freq[v] == 0 {
				if seenMissing {
					v = "\x00missing"
				} else {
					if ties > 1 {
						c.Ev("ties-skipped")
						return
					}
					v = best
				}
			}
			rows[v] = append(rows[v], i)
		}
		for _, r := range rows {
			want[mask(r)]++
		}
	}
	for _, name := range added {
		col := got.col(name)
		if col.T != 'b' {
			c.Failf("%s: unexpected column %q", what, name)
		}
		var r []int
		for i, v := range col.V {
			if v.(bool) {
				r = append(r, i)
			}
		}
		if len(r) > 0 {
			want[mask(r)]--
			if want[mask(r)] < 0 {
				c.Failf("%s: indicator %q is set on the rows %v, which no category explains", what, name, r)
			}
		}
		c.Ev("indicators-compared")
	}
	for k, v := range want {
		if v > 0 {
			c.Failf("%s: no indicator is set on exactly the rows %s", what, k)
		}
	}
}

// ---- C24 ----

func (c *Ctx) throughJSON(what string, from, to interface{}) {
	b, err := json.Marshal(from)
	if err != nil {
		c.Failf("%s does not serialise: %v", what, err)
	}
	if err := json.Unmarshal(b, to); err != nil {
		c.Failf("%s does not deserialise: %v", what, err)
	}
	c.EvN("json-bytes", len(b))
}

// sameOutcome runs a transformation of two objects on equal frames.
func (c *Ctx) sameOutcome(what string, in Snap, a, b func(df *DF) (*DF, error)) {
	ra, ea := a(c.build(in))
	rb, eb := b(c.build(in))
	if (ea != nil) != (eb != nil) || ea != nil && ea.Error() != eb.Error() {
		c.Failf("%s: error %v, deserialised %v", what, ea, eb)
	}
	if ea == nil {
		c.same(what+": deserialised compared with original", take(rb), take(ra))
	}
	c.Ev("outcomes-compared")
}

func inplace(f func(*DF) error) func(*DF) (*DF, error) {
	return func(df *DF) (*DF, error) { err := f(df); return df, err }
}

func c24(c *Ctx) {
	n := 1 + c.rows(GenOpt{MaxRows: 60})
	s := c.prepSnap(n, c.Pick(1, 2, 3), "ibs", 4)
	if hasIndicators(s) {
		c.Abandon("indicator-like name")
	}
	train := c.build(s)
	if c.P(0.5) {
		if t := c.chain(train, 3); t.NumRows() > 0 {
			train = t
		}
	}
	ts := take(train)
	frames := []Snap{ts, c.like(ts, c.rows(GenOpt{MaxRows: 30}), c.P(0.5)), c.like(ts, 1, false)}
	c.NonTrivial()
	sets := func(what string, a, b []string) {
		if !sameSet(a, b) {
			c.Failf("%s: columns %q, deserialised %q", what, a, b)
		}
	}
	switch c.Int(6) {
	case 0:
		a := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.ImputingPolicy(c.Int(3))})
		a.Fit(train)
		b := new(preprocessing.FloatImputer)
		c.throughJSON("imputer", a, b)
		c.Log("imputer of %s", ts.schema())
		sets("imputer", a.TransformedColumns(), b.TransformedColumns())
		for _, f := range frames {
			c.sameOutcome("imputer", f, inplace(a.TransformInplace), inplace(b.TransformInplace))
		}
	case 1:
		a := preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: c.P(0.3), Centering: c.P(0.6), Scaling: c.P(0.6)})
		a.Fit(train)
		b := new(preprocessing.Scaler)
		if c.P(0.3) {
			b = preprocessing.NewScaler(preprocessing.ScalerOptions{})
		}
		c.throughJSON("scaler", a, b)
		c.Log("scaler of %s", ts.schema())
		sets("scaler", a.TransformedColumns(), b.TransformedColumns())
		for _, f := range frames {
			c.sameOutcome("scaler", f, inplace(a.TransformInplace), inplace(b.TransformInplace))
			c.sameOutcome("scaler inverse", f, inplace(a.InverseTransformInplace), inplace(b.InverseTransformInplace))
		}
	case 2:
		pair := policyPair{preprocessing.CategoryPolicy(c.Int(5)), preprocessing.CategoryPolicy(c.Int(5))}
		eff := pair.effective()
		if eff.m == preprocessing.ReturnError && eff.u == preprocessing.SharedSeparateCategory {
			c.Abandon("shared category with missing values being errors")
		}
		for _, name := range ts.names("i") {
			some := false
			for _, v := range ts.col(name).V {
				some = some || v.(int) != -1
			}
			if !some {
				c.Abandon("no category to impute with")
			}
		}
		a := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: pair.m, UnknownPolicy: pair.u, KeepUsedColumns: c.P(0.5)})
		a.Fit(train)
		b := new(preprocessing.OneHotEncoder)
		if c.P(0.3) {
			b = preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{})
		}
		c.throughJSON("one-hot encoder", a, b)
		c.Log("one-hot encoder %v of %s", pair, ts.schema())
		sets("one-hot encoder", a.TransformedColumns(), b.TransformedColumns())
		sets("one-hot encoder, new columns", a.NewColumns, b.NewColumns)
		for _, f := range frames {
			// which of several errors is reported first is open: errors are compared as such
			ra, ea := a.TransformView(c.build(f))
			rb, eb := b.TransformView(c.build(f))
			if (ea != nil) != (eb != nil) {
				c.Failf("one-hot encoder: error %v, deserialised %v", ea, eb)
			}
			if ea == nil {
				c.same("one-hot encoder: deserialised compared with original", take(rb), take(ra))
			}
			c.Ev("outcomes-compared")
		}
	case 3:
		a := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		a.Fit(train)
		b := new(preprocessing.HashEncoder)
		c.throughJSON("hash encoder", a, b)
		c.Log("hash encoder of %s", ts.schema())
		sets("hash encoder", a.TransformedColumns(), b.TransformedColumns())
		for _, f := range frames {
			c.sameOutcome("hash encoder", f, a.TransformView, b.TransformView)
		}
	case 4:
		var ex []string
		for _, col := range ts.Cols {
			if c.P(0.2) {
				ex = append(ex, col.Name)
			}
		}
		a := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: c.P(0.5), Scaling: c.P(0.5), Exclude: ex})
		if c.P(0.5) {
			a.Fit(train)
		} else {
			a.FitTransform(train)
		}
		b := new(preprocessing.AutoPreprocessor)
		c.throughJSON("automatic preprocessor", a, b)
		c.Log("automatic preprocessor of %s, excluding %q", ts.schema(), ex)
		sets("automatic preprocessor", a.TransformedColumns(), b.TransformedColumns())
		for _, f := range frames {
			c.sameOutcome("automatic preprocessor", f, a.TransformView, b.TransformView)
		}
	default:
		// moderate values without gaps
		reg := func(s Snap) Snap {
			for q := range s.Cols {
				if s.Cols[q].T == 'f' {
					s.Cols[q].V = cloneVals(s.Cols[q].V)
					for i := range s.Cols[q].V {
						s.Cols[q].V[i] = c.R.NormFloat64() * 3
					}
				}
			}
			return s
		}
		ts = reg(ts)
		target := ts.names("f")[0]
		if len(ts.names("fb")) < 2 {
			c.Abandon("no feature")
		}
		a := algorithms.NewLinearRegressor()
		if err := a.Fit(c.build(ts), target, algorithms.LinRegTrainParams{Epochs: 2, LR: 0.001, BatchSize: 1 + c.Int(20)}); err != nil {
			c.Failf("Fit: %v", err)
		}
		b := new(algorithms.LinearRegressor)
		c.throughJSON("regressor", a, b)
		c.Log("regressor of %s", ts.schema())
		for _, f := range frames {
			f = reg(f)
			name := []string{"pred", "_target", target}[c.Int(3)]
			c.sameOutcome("regressor", f, func(df *DF) (*DF, error) { return a.Predict(df, name) }, func(df *DF) (*DF, error) { return b.Predict(df, name) })
		}
	}
}

var _ = dataframe.NewRawData
