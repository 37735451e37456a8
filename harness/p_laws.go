package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"golang.org/x/text/encoding/charmap"
)

func init() {
	register(&Prop{ID: "C36", Quick: 90000, Thorough: 6000000, Random: c36,
		Rule: "a trained imputer, scaler (and inverse), one-hot encoder, hash encoder, automatic preprocessor or regressor, a re-encoding or a CSV writer applied to a frame and to random selections, splits, single rows, copies and widenings of it; and imputers and scalers fitted again on permuted, doubled and widened training rows; non-trivial: >=2 rows",
		Assume: []string{"column names do not look like generated indicator names", "training data is not empty and has a category in every categorical column",
			"predictions and learned statistics are compared up to rounding"}})
	register(&Prop{ID: "C37", Quick: 60000, Thorough: 6000000, Random: c37,
		Rule:   "a random view and its compact copy led through the same random history of up to 20 derivations, structural edits, writes, conversions, encodings, fits and reads, compared after each step; non-trivial: the view is re-indexed and has >=2 rows",
		Assume: []string{"no writes while the view shows one row several times", "operations documented to depend on storage (index reset, prediction order, unordered CSV, raw data, sharing concatenation, storage indices) are left to other properties"}})
}

const rowCol = "zz row"

// transform is a trained map of frames to frames.
type transform struct {
	name     string
	f        func(df *DF) (*DF, error)
	reorders bool
	approx   bool
	fallible bool
	columns  []string // that must stay
}

// written is the records of a CSV as a frame content.
func written(df *DF) Snap {
	var b bytes.Buffer
	if err := df.To1CSV(&b, dataframe.CSVWritingSpec{MaintainOrder: true, StringMissingMarker: "\x01"}); err != nil {
		panic(violation{"", fmt.Sprintf("To1CSV: %v", err)})
	}
	l, err := csv.NewReader(&b).ReadAll()
	if err != nil || len(l) == 0 {
		panic(violation{"", fmt.Sprintf("the written CSV has %d records, error %v", len(l), err)})
	}
	s := Snap{N: len(l) - 1}
	for j, name := range l[0] {
		v := make([]interface{}, s.N)
		for i := range v {
			v[i] = l[i+1][j]
		}
		s.Cols = append(s.Cols, Col{name, 's', v})
	}
	return s.with()
}

func (c *Ctx) trained(train *DF, ts Snap) *transform {
	inplaceView := func(cols []string, f func(*DF) error) func(df *DF) (*DF, error) {
		return func(df *DF) (*DF, error) {
			v := df.View()
			if len(cols) > 0 {
				v = df.DetachedView(cols...)
			}
			err := f(v)
			return v, err
		}
	}
	switch c.Int(10) {
	case 0:
		p := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.ImputingPolicy(c.Int(3))})
		p.Fit(train)
		return &transform{name: "imputer", f: inplaceView(p.TransformedColumns(), p.TransformInplace)}
	case 1, 2:
		p := preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: c.P(0.3), Centering: c.P(0.6), Scaling: c.P(0.6)})
		p.Fit(train)
		if c.P(0.3) {
			return &transform{name: "inverse scaler", f: inplaceView(p.TransformedColumns(), p.InverseTransformInplace)}
		}
		return &transform{name: "scaler", f: inplaceView(p.TransformedColumns(), p.TransformInplace)}
	case 3, 4:
		pair := policyPair{preprocessing.CategoryPolicy(c.Int(5)), preprocessing.CategoryPolicy(c.Int(5))}
		eff := pair.effective()
		if eff.m == preprocessing.ReturnError && eff.u == preprocessing.SharedSeparateCategory {
			return nil
		}
		for _, name := range ts.names("i") {
			some := false
			for _, v := range ts.col(name).V {
				some = some || v.(int) != -1
			}
			if !some {
				return nil
			}
		}
		p := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: pair.m, UnknownPolicy: pair.u, KeepUsedColumns: c.P(0.5)})
		p.Fit(train)
		return &transform{name: fmt.Sprintf("one-hot encoder %v", pair), f: p.TransformView, fallible: true}
	case 5:
		p := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		p.Fit(train)
		return &transform{name: "hash encoder", f: p.TransformView}
	case 6:
		p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: c.P(0.7), Scaling: c.P(0.7), Exclude: c.subset(ts.names("fibs"), 0)})
		p.Fit(train)
		return &transform{name: "automatic preprocessor", f: p.TransformView}
	case 7:
		return &transform{name: "re-encoding", fallible: true, f: func(df *DF) (*DF, error) {
			v := df.Copy()
			if c.P(0.5) && len(df.StringHeader().NameList()) > 0 {
				v = df.DetachedView(df.StringHeader().NameList()...)
			}
			return v, v.Encode(charmap.ISO8859_1)
		}}
	}
	features := c.subset(ts.names("fb"), 1)
	if len(features) == 0 {
		return nil
	}
	w := make([]float64, len(features))
	for i := range w {
		w[i] = c.R.NormFloat64()
	}
	reg, _, _ := c.regressor(features, w)
	name := []string{"predicted", "_target", features[0]}[c.Int(3)]
	pre := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.Mean})
	pre.Fit(train)
	impute := c.P(0.5)
	return &transform{name: "regressor", reorders: true, approx: true, f: func(df *DF) (*DF, error) {
		if impute {
			df = df.DetachedView(pre.TransformedColumns()...)
			pre.TransformInplace(df)
		}
		return reg.Predict(df, name)
	}}
}

// near compares floats up to rounding (relative to the given magnitude as well).
func near(a, b, mag float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return a == b || math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b)+mag)
}

func diffNear(got, want Snap, mag float64) string {
	if got.N != want.N || got.schema() != want.schema() {
		return diff(got, want)
	}
	for q := range want.Cols {
		if want.Cols[q].T != 'f' {
			if d := diff(got.only([]string{want.Cols[q].Name}), want.only([]string{want.Cols[q].Name})); d != "" {
				return d
			}
			continue
		}
		for i, v := range want.Cols[q].V {
			if !near(got.Cols[q].V[i].(float64), v.(float64), mag) {
				return fmt.Sprintf("column %q row %d shows %v instead of %v", want.Cols[q].Name, i, got.Cols[q].V[i], v)
			}
		}
	}
	return ""
}

// align orders the rows of got like those of in, by the row numbers both carry.
func (c *Ctx) align(what string, got, in Snap) Snap {
	at := map[int][]int{}
	g := got.col(rowCol)
	if g == nil || got.N != in.N {
		c.Failf("%s: %d rows with columns %s for %d rows", what, got.N, got.schema(), in.N)
	}
	for i, v := range g.V {
		at[v.(int)] = append(at[v.(int)], i)
	}
	idx := make([]int, in.N)
	for i, v := range in.col(rowCol).V {
		l := at[v.(int)]
		if len(l) == 0 {
			c.Failf("%s: row %d of the input is missing from the result", what, i)
		}
		idx[i], at[v.(int)] = l[0], l[1:]
	}
	return got.rows(idx)
}

func c36(c *Ctx) {
	n := 1 + c.rows(GenOpt{MaxRows: 60})
	s := c.prepSnap(n, c.Pick(1, 2, 3), []string{"ibs", "ib", "bs"}[c.Int(3)], 4)
	if hasIndicators(s) || s.col(rowCol) != nil {
		c.Abandon("indicator-like name")
	}
	train := c.build(s)
	if c.P(0.5) {
		if t := c.chain(train, 3); t.NumRows() > 0 {
			train = t
		}
	}
	ts := take(train)
	if c.P(0.25) {
		c36fits(c, train, ts)
		return
	}
	for _, name := range ts.names("i") {
		some := false
		for _, v := range ts.col(name).V {
			some = some || v.(int) != -1
		}
		if !some {
			c.Abandon("no category")
		}
	}
	m := c.rows(GenOpt{MaxRows: 50})
	if c.P(0.03) {
		m = c.Range(120, 700)
	}
	x := c.like(ts, m, false)
	ids := make([]interface{}, m)
	for i := range ids {
		ids[i] = i
	}
	x = x.with(Col{rowCol, 'i', ids})
	t := c.trained(train, ts)
	if t == nil {
		c.Abandon("inadmissible policies")
	}
	c.Log("%s trained on %s applied to %d rows", t.name, ts.schema(), m)
	c.Ev(strings.SplitN(t.name, " {", 2)[0])
	df := c.chain(c.build(x), 3)
	in := take(df)
	apply := func(what string, d *DF) (Snap, error) {
		di := take(d)
		r, err := t.f(d)
		c.same("input of the "+t.name+" ("+what+")", take(d), di)
		if err != nil {
			return Snap{}, err
		}
		out := take(r)
		if t.reorders {
			out = c.align(t.name+" ("+what+")", out, di)
		}
		c.Ev("applications")
		return out, nil
	}
	full, err := apply("whole", df)
	if err != nil && !t.fallible {
		c.Failf("%s: %v", t.name, err)
	}
	// which rows are refused
	bad := make([]bool, in.N)
	if t.fallible && in.N <= 60 {
		any := false
		for i := range bad {
			_, e := apply("single row", df.IndexView([]int{i}))
			bad[i] = e != nil
			any = any || bad[i]
		}
		if any != (err != nil) {
			c.Failf("%s: error %v for all rows although refusing single rows is %v", t.name, err, bad)
		}
	}
	mag := 1.0
	if t.approx && err == nil {
		mag = 0
		for _, name := range in.names("f") {
			for _, v := range in.col(name).V {
				if a := math.Abs(v.(float64)); a > mag {
					mag = a
				}
			}
		}
		mag = 1e3*mag + 1e3 // weights and target scale are moderate
	}
	law := func(what string, d *DF, idx []int, extra []Col) {
		out, e := apply(what, d)
		if t.fallible && in.N <= 60 {
			want := false
			for _, i := range idx {
				want = want || bad[i]
			}
			if want != (e != nil) {
				c.Failf("%s on %s: error %v although its rows are refused one by one: %v", t.name, what, e, want)
			}
		} else if err == nil && e != nil {
			c.Failf("%s on %s: %v", t.name, what, e)
		}
		if e != nil || err != nil {
			return
		}
		want := full.rows(idx)
		if len(extra) > 0 {
			want = want.with(extra...)
		}
		var d2 string
		if t.approx {
			d2 = diffNear(out, want, mag)
		} else {
			d2 = diff(out, want)
		}
		if d2 != "" {
			c.Failf("%s on %s: %s", t.name, what, d2)
		}
		c.Ev("laws-checked")
		if len(idx) > 1 {
			c.NonTrivial()
		}
	}
	for k := 1 + c.Int(3); k > 0; k-- {
		switch c.Int(6) {
		case 0, 1:
			st := c.selectRows(df)
			law(st.name, st.df, st.idx, nil)
		case 2:
			size := 1 + c.Int(in.N+1)
			off := 0
			for j, p := range df.SplitView(size) {
				law(fmt.Sprintf("part %d of SplitView(%d)", j, size), p, seq(in.N)[off:imin(off+size, in.N)], nil)
				off += size
			}
		case 3:
			law("a copy", df.Copy(), seq(in.N), nil)
		case 4: // unrelated columns are carried along and change nothing
			var extra []Col
			used := map[string]bool{}
			for k := 1 + c.Int(3); k > 0; k-- {
				name := fmt.Sprintf("zz unrelated %d", k)
				if o := oddNames[c.Int(len(oddNames))]; c.P(0.3) && !used[o] && in.col(o) == nil && full.col(o) == nil && o != "predicted" && o != "_target" {
					name = o
				}
				used[name] = true
				ty := "fibo"[c.Int(4)]
				extra = append(extra, Col{name, ty, c.genVals(ty, in.N, GenOpt{})})
			}
			law("a wider frame", c.build(in.with(extra...)), seq(in.N), extra)
		default: // stored differently
			law("the same rows built anew", c.build(in), seq(in.N), nil)
		}
	}
}

// c36fits: what is learned depends on the values only, not on order, storage or other columns.
func c36fits(c *Ctx, train *DF, ts Snap) {
	var alt *DF
	what := ""
	doubled := false
	switch c.Int(4) {
	case 0:
		alt, what = train.IndexView(c.R.Perm(ts.N)), "permuted rows"
	case 1:
		idx := append(seq(ts.N), seq(ts.N)...)
		alt, what, doubled = train.IndexView(idx), "rows shown twice", true
	case 2:
		r, err := dataframe.RowConcat(train, train.ReverseView())
		if err != nil {
			c.Failf("RowConcat: %v", err)
		}
		alt, what, doubled = r, "doubled rows", true
	default:
		alt, what = c.build(ts.with(Col{"zz more", 'f', c.prepCol("", ts.N).V})), "one more column"
	}
	c.Log("fits of %s on %s", ts.schema(), what)
	maps := func(kind string, a, b map[string]float64, tol func(name string, st fstat, x float64) float64) {
		for _, name := range ts.names("f") {
			x, okx := a[name]
			y, oky := b[name]
			st := statOf(ts.col(name).V)
			if okx != oky || okx && !(x == y || math.Abs(x-y) <= tol(name, st, x)) {
				c.Failf("%s of %q learned from %s is %v, %v instead of %v, %v", kind, name, what, y, oky, x, okx)
			}
			c.Ev("statistics-compared")
		}
	}
	level := func(name string, st fstat, x float64) float64 { return 1e-9 * st.maxAbs }
	policy := preprocessing.ImputingPolicy(c.Int(3))
	var f [2]*preprocessing.FloatImputer
	for k, d := range []*DF{train, alt} {
		f[k] = preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: policy})
		f[k].Fit(d)
	}
	maps("imputed value", f[0].Fallback, f[1].Fallback, level)
	opt := preprocessing.ScalerOptions{MinMax: c.P(0.3), Centering: c.P(0.6), Scaling: c.P(0.6)}
	var p [2]*preprocessing.Scaler
	for k, d := range []*DF{train, alt} {
		p[k] = preprocessing.NewScaler(opt)
		p[k].Fit(d)
	}
	maps("shift", p[0].Shift, p[1].Shift, level)
	maps("scale", p[0].Scale, p[1].Scale, func(name string, st fstat, x float64) float64 {
		if !opt.MinMax && st.min == st.max && doubled {
			return math.Inf(1) // the factor of constants is open
		}
		return math.Abs(x) * (1e-9 + 1e-12*st.maxAbs*math.Abs(x))
	})
	if ts.N >= 2 {
		c.NonTrivial()
	}
}

// ---- a view is a copy ----

func c37(c *Ctx) {
	a := c.genAny(GenOpt{SmallInts: c.P(0.3)})
	if len(take(a).Cols) == 0 {
		c.Abandon("no column")
	}
	if c.P(0.2) {
		a = a.SliceView(0, a.NumRows())
	}
	b := a.Copy()
	c.same("copy", take(b), take(a))
	steps := c.Range(2, 20)
	for k := 0; k < steps; k++ {
		s := take(a)
		if s.N >= 2 && a.AreIndicesAltered() {
			c.NonTrivial()
		}
		what, na, nb := c37step(c, a, b, s)
		if what == "" {
			continue
		}
		c.Log("%s", what)
		c.Ev(strings.SplitN(strings.SplitN(what, "(", 2)[0], " ", 2)[0])
		if na != nil {
			a, b = na, nb
		}
		sa, sb := take(a), take(b)
		c.same(fmt.Sprintf("view compared with copy after %s", what), sa, sb)
		if x, y := a.ActualMaxCPU(), b.ActualMaxCPU(); x != y {
			c.Failf("after %s the view has CPU limit %d, the copy %d", what, x, y)
		}
		if x, y := a.NumColumns(), b.NumColumns(); x != y {
			c.Failf("after %s the view has %d columns, the copy %d", what, x, y)
		}
		c.Ev("pairs-compared")
		if c.P(0.2) {
			b = a.Copy()
		}
		if len(sa.Cols) == 0 || sa.N > 6000 {
			return
		}
	}
}

func repeats(df *DF) bool {
	seen := map[int]bool{}
	for _, i := range sharedIdx(df) {
		if seen[i] {
			return true
		}
		seen[i] = true
	}
	return false
}

func c37step(c *Ctx, a, b *DF, s Snap) (what string, na, nb *DF) {
	all := s.names("fibso")
	n := s.N
	both := func(name string, f func(df *DF) *DF) (string, *DF, *DF) {
		var ra, rb *DF
		x, pa := caught(func() { ra = f(a) })
		y, pb := caught(func() { rb = f(b) })
		if pa != pb {
			c.Failf("%s panics on only one of a view (%v) and its copy (%v)", name, x, y)
		}
		if pa {
			c.Ev("both-panic")
			return name, nil, nil
		}
		return name, ra, rb
	}
	text := func(name string, f func(df *DF) string) (string, *DF, *DF) {
		var ra, rb string
		x, pa := caught(func() { ra = f(a) })
		y, pb := caught(func() { rb = f(b) })
		if pa != pb {
			c.Failf("%s panics on only one of a view (%v) and its copy (%v)", name, x, y)
		}
		if ra != rb {
			i := 0
			for i < len(ra) && i < len(rb) && ra[i] == rb[i] {
				i++
			}
			i = imax(0, i-60)
			c.Failf("%s: a view gives ...%q, its copy ...%q", name, clip(ra[i:]), clip(rb[i:]))
		}
		return name, nil, nil
	}
	pick := func(types string) (string, bool) {
		l := s.names(types)
		if len(l) == 0 {
			return "", false
		}
		return l[c.Int(len(l))], true
	}
	fresh := fmt.Sprintf("new%d", c.Int(5))
	seeded := func(f func(df *DF) *DF) func(df *DF) *DF {
		seed := c.R.Int63()
		return func(df *DF) *DF { rand.Seed(seed); return f(df) }
	}
	writable := !repeats(a)
	switch c.Int(34) {
	case 0:
		idx := c.randIdx(n)
		if c.P(0.6) { // keeps the view writable
			idx = c.R.Perm(n)[:c.Int(n+1)]
		}
		return both("IndexView("+fmt.Sprint(len(idx))+")", func(df *DF) *DF { return df.IndexView(idx) })
	case 1:
		from, to, _ := c.sliceArgs(n)
		return both(fmt.Sprintf("SliceView(%d,%d)", from, to), func(df *DF) *DF { return df.SliceView(from, to) })
	case 2:
		p := make([]bool, n)
		for i := range p {
			p[i] = c.P(0.8)
		}
		own := c.P(0.5)
		return both("MaskView()", func(df *DF) *DF {
			m := append([]bool{}, p...)
			if own {
				m = df.EmptyMask()
				copy(m, p)
			}
			return df.MaskView(m)
		})
	case 3:
		return both("ReverseView()", func(df *DF) *DF { return df.ReverseView() })
	case 4:
		return both("ShuffleView()", seeded(func(df *DF) *DF { return df.ShuffleView() }))
	case 5:
		k := c.Int(n + 2)
		return both(fmt.Sprintf("SampleView(%d)", k), seeded(func(df *DF) *DF { return df.SampleView(k, false) }))
	case 6:
		sub := c.subset(all, 1)
		return both(fmt.Sprintf("ColumnView(%q)", sub), func(df *DF) *DF { return df.ColumnView(sub...) })
	case 7:
		k := c.Int(4)
		sub := c.subset(all, 0)
		return both(fmt.Sprintf("copying %d", k), func(df *DF) *DF {
			switch k {
			case 0:
				return df.View()
			case 1:
				return df.ShallowCopy()
			case 2:
				return df.DetachedView(sub...)
			}
			return df.Copy()
		})
	case 8:
		sub := c.subset(s.names("s"), 0)
		return both(fmt.Sprintf("HashStringsView(%q)", sub), func(df *DF) *DF { return df.HashStringsView(sub...) })
	case 9:
		k := 1 + c.Int(n+2)
		i := c.R.Float64()
		return both(fmt.Sprintf("SplitView(%d)", k), func(df *DF) *DF { l := df.SplitView(k); return l[int(i*float64(len(l)))] })
	case 10:
		k := 1 + c.Int(6)
		i := c.Int(k)
		return both(fmt.Sprintf("SplitNView(%d)", k), func(df *DF) *DF { return df.SplitNView(k)[i] })
	case 11:
		r := c.R.Float64()
		i := c.Int(2)
		return both("SplitTrainTestViews()", func(df *DF) *DF {
			x, y := df.SplitTrainTestViews(r)
			return []*DF{x, y}[i]
		})
	case 12: // ties are in any order
		key, ok := pick("fib")
		if !ok {
			return
		}
		top := c.P(0.5)
		k := c.Int(n + 3)
		asc := c.P(0.5)
		f := func(df *DF) *DF {
			if top {
				return df.TopView(key, k, asc, true)
			}
			return df.SortedView(key)
		}
		x, y := f(a), f(b)
		what = fmt.Sprintf("sorting(%q,%v,%d,%v)", key, top, k, asc)
		c.same("keys after "+what, take(x).only([]string{key}), take(y).only([]string{key}))
		if !top {
			if d := sameMultiset(take(x), take(y)); d != "" {
				c.Failf("%s: %s", what, d)
			}
		}
		return what, x, x.Copy()
	case 13:
		if n > 800 {
			return
		}
		rev := c.P(0.5)
		return both("RowConcat(2)", func(df *DF) *DF {
			o := df
			if rev {
				o = df.ReverseView()
			}
			r, err := dataframe.RowConcat(df, o)
			if err != nil {
				c.Failf("RowConcat: %v", err)
			}
			return r
		})
	case 14:
		if s.col(fresh) != nil {
			return
		}
		t := "fibos"[c.Int(5)]
		o := c.build(Snap{N: n}.with(Col{fresh, t, c.genVals(t, n, GenOpt{})}))
		smart := c.P(0.5)
		return both("column concatenation", func(df *DF) *DF {
			f := dataframe.ColumnCopyConcat
			if smart {
				f = dataframe.ColumnSmartConcat
			}
			r, err := f(df, o)
			if err != nil {
				c.Failf("column concatenation: %v", err)
			}
			if smart { // the new column may be shared with o
				r.Unshare(fresh)
			}
			return r
		})
	case 15:
		sub := c.subset(all, 0)
		return both(fmt.Sprintf("Drop(%q)", sub), func(df *DF) *DF { v := df.View(); v.Drop(sub...); return v })
	case 16:
		old, _ := pick("fibso")
		nu := fresh
		if c.P(0.3) {
			nu, _ = pick("fibso")
		}
		return both(fmt.Sprintf("Rename(%q,%q)", old, nu), func(df *DF) *DF { v := df.View(); v.Rename(old, nu); return v })
	case 17:
		t := c.Int(5)
		nu := fresh
		if c.P(0.3) {
			nu, _ = pick("fibso")
		}
		return both(fmt.Sprintf("Alloc[%d](%q)", t, nu), func(df *DF) *DF {
			v := df.View()
			[]func(...string){v.AllocFloats, v.AllocInts, v.AllocBools, v.AllocObjects, v.AllocStrings}[t](nu)
			return v
		})
	case 18:
		sub := c.subset(s.names("ib"), 0)
		return both(fmt.Sprintf("conversion(%q)", sub), func(df *DF) *DF {
			v := df.View()
			v.IntToFloats(sub...)
			v.BoolToFloats(sub...)
			return v
		})
	case 19, 20, 21: // overwrite
		if !writable {
			return
		}
		t := "fibos"[c.Int(5)]
		nm := fresh
		if x, ok := pick(string(t)); ok && c.P(0.6) {
			nm = x
		}
		if old := s.col(nm); old != nil && old.T == 's' {
			t = 's' // an object access to a string column is for strings
		}
		v := c.genVals(t, n, GenOpt{NoNil: t == 's'})
		return both(fmt.Sprintf("Overwrite[%c](%q)", t, nm), func(df *DF) *DF {
			d := df.View()
			switch t {
			case 'f':
				d.OverwriteFloats64(nm, toFloats(v))
			case 'i':
				d.OverwriteInts(nm, toInts(v))
			case 'b':
				d.OverwriteBools(nm, toBools(v))
			case 'o':
				d.OverwriteObjects(nm, v, dataframe.AnyObject)
			default:
				ss := make([]string, n)
				for i := range v {
					ss[i] = v[i].(string)
				}
				d.OverwriteStrings(nm, ss)
			}
			return d
		})
	case 22, 23: // single cells
		if !writable || n == 0 {
			return
		}
		nm, _ := pick("fibso")
		col := s.col(nm)
		i := c.Int(n)
		v := c.other(col.T, col.V[i])
		return both(fmt.Sprintf("Set(%q,%d)", nm, i), func(df *DF) *DF { setCell(df, col, i, v); return df })
	case 24:
		e := encodings[c.Int(len(encodings))]
		return both("Encode("+e.name+")", func(df *DF) *DF {
			l := df.StringHeader().NameList()
			if len(l) > 0 {
				df = df.DetachedView(l...)
			}
			if err := df.Encode(e.e); err != nil {
				panic("cannot encode")
			}
			return df
		})
	case 25: // trained on one, applied to both
		if n == 0 || n > 300 {
			return
		}
		ex := c.subset(all, 0)
		p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: c.P(0.5), Scaling: c.P(0.5), Exclude: ex})
		p.Fit([]*DF{a, b}[c.Int(2)])
		if len(p.TransformedColumns()) > 4 {
			return
		}
		return both("automatic preprocessor", func(df *DF) *DF {
			r, err := p.TransformView(df)
			if err != nil {
				panic(err)
			}
			return r
		})
	case 26: // fits
		var fit []string
		for _, name := range s.names("f") {
			ok := true
			for _, v := range s.col(name).V {
				x := math.Abs(v.(float64))
				ok = ok && (math.IsNaN(x) || x < 1e100)
			}
			if ok {
				fit = append(fit, name)
			}
		}
		if len(fit) == 0 {
			return
		}
		opt := preprocessing.ScalerOptions{MinMax: c.P(0.3), Centering: c.P(0.6), Scaling: c.P(0.6)}
		var p [2]*preprocessing.Scaler
		var f [2]*preprocessing.FloatImputer
		for k, df := range []*DF{a, b} {
			p[k] = preprocessing.NewScaler(opt)
			p[k].Fit(df.ColumnView(fit...))
			f[k] = preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
			f[k].Fit(df.ColumnView(fit...))
		}
		for _, name := range fit {
			st := statOf(s.col(name).V)
			if !near(p[0].Shift[name], p[1].Shift[name], st.maxAbs) || !near(f[0].Fallback[name], f[1].Fallback[name], st.maxAbs) ||
				math.Abs(p[0].Scale[name]-p[1].Scale[name]) > p[0].Scale[name]*(1e-9+1e-12*st.maxAbs*p[0].Scale[name]) {
				c.Failf("fitting column %q: a view gives %v %v %v, its copy %v %v %v", name, p[0].Shift[name], p[0].Scale[name], f[0].Fallback[name],
					p[1].Shift[name], p[1].Scale[name], f[1].Fallback[name])
			}
		}
		return "fits", nil, nil
	case 27: // metrics
		x, ok := pick("f")
		y, _ := pick("f")
		if !ok || n == 0 {
			return
		}
		for k, f := range []func(x, y dataframe.FloatAccess) float64{algorithms.MSE, algorithms.MAE} {
			if u, v := f(a.Floats(x), a.Floats(y)), f(b.Floats(x), b.Floats(y)); !near(u, v, 0) {
				c.Failf("metric %d of %q and %q: a view gives %v, its copy %v", k, x, y, u, v)
			}
		}
		return "metrics", nil, nil
	case 28:
		x, ok := pick("s")
		if !ok {
			return
		}
		return text("LabelToInt", func(df *DF) string {
			l, m := df.LabelToInt(x)
			return fmt.Sprint(l, len(m), m)
		})
	case 29:
		k := c.Range(-1, n+1)
		f := []string{"", "%.2e", "%g"}[c.Int(3)]
		l := s.names("fibs")
		if len(l) == 0 {
			return
		}
		return text("PrintHead", func(df *DF) string {
			df = df.ColumnView(l...)
			df.Debug(false)
			return captureStdout(c, func() { df.PrintHead(k, f) })
		})
	case 30:
		if len(s.names("fibs")) == 0 {
			return
		}
		return text("To1CSV", func(df *DF) string {
			w := written(df)
			return w.schema() + strings.Join(w.rowKeys(), "\n")
		})
	case 31:
		num := c.subset(s.names("fib"), 0)
		if len(num) == 0 || n == 0 {
			return
		}
		return text("reading", func(df *DF) string {
			var l []string
			m := dataframe.NewDense64Batching(num).DenseMatrix(df)
			ite := dataframe.NewFloat32Iterator(df, num)
			for i := 0; i < n; i++ {
				row, at, _ := ite.NextRow()
				for j := range num {
					l = append(l, vstr(m.At(i, j)), fmt.Sprint(row[j]))
				}
				l = append(l, fmt.Sprint(at))
			}
			for _, name := range num {
				if s.col(name).T == 'f' {
					v := df.Floats(name).VecDense()
					w := df.Floats(name).VecDenseCopy()
					for i := 0; i < n; i++ {
						l = append(l, vstr(v.AtVec(i)), vstr(w.AtVec(i)))
					}
				}
			}
			return strings.Join(l, " ")
		})
	case 32:
		x, _ := pick("fibso")
		return text("CopyValuesToInterfaces", func(df *DF) string {
			var l []string
			for _, v := range df.CopyValuesToInterfaces(x) {
				l = append(l, vstr(v))
			}
			return strings.Join(l, " ")
		})
	}
	return text("headers", func(df *DF) string {
		var l []string
		for _, h := range []dataframe.ColumnHeader{df.Header(), df.FloatHeader(), df.IntHeader(), df.BoolHeader(), df.ObjectHeader(), df.StringHeader()} {
			x := h.NameList()
			sort.Strings(x)
			l = append(l, fmt.Sprintf("%q", x))
		}
		return fmt.Sprint(l, len(df.EmptyMask()), df.NumRows())
	})
}
