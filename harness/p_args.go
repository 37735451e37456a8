package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/utils"
)

func init() {
	register(&Prop{ID: "C35", Quick: 40000, Thorough: 4000000, Random: c35,
		Rule: "random frame or view and up to 12 random calls, each handed slices (column names, row numbers, masks, values, frames, raw data, writers, paths, CSV options, exclusions, short names) with guarded spare capacity; the guards are compared after each call and at the end, results of calls that take their data once are compared again after all arguments were scribbled over; non-trivial: a call with a non-empty argument"})
}

// guard watches the slices and maps handed to the code under test.
type guard struct {
	c     *Ctx
	what  string
	lens  int
	check []func() string
	spoil []func()
}

// hand returns a copy of s with spare capacity; both are watched.
func hand[T any](g *guard, name string, s []T, eq func(a, b T) bool, filler ...T) []T {
	if len(s) == 0 && g.c.P(0.3) {
		return nil
	}
	spare := g.c.Pick(0, 1, 3, 17)
	buf := make([]T, len(s)+spare)
	copy(buf, s)
	for i := len(s); i < len(buf); i++ {
		buf[i] = filler[i%len(filler)]
	}
	orig := append([]T{}, buf...)
	what := g.what
	spoiled := false
	g.lens += len(s)
	g.check = append(g.check, func() string {
		if spoiled {
			return ""
		}
		for i := range buf {
			if !eq(buf[i], orig[i]) {
				if i >= len(s) {
					return fmt.Sprintf("%s wrote %v behind the end of its argument %s", what, buf[i], name)
				}
				return fmt.Sprintf("%s changed element %d of its argument %s from %v to %v", what, i, name, orig[i], buf[i])
			}
		}
		return ""
	})
	g.spoil = append(g.spoil, func() {
		spoiled = true
		for i := range buf {
			buf[i] = filler[i%len(filler)]
		}
	})
	return buf[:len(s)]
}

func same[T comparable](a, b T) bool { return a == b }

func (g *guard) names(name string, s []string) []string {
	return hand(g, name, s, same[string], "\x00guard a", "\x00guard b")
}
func (g *guard) ints(name string, s []int) []int {
	return hand(g, name, s, same[int], -7, -9)
}
func (g *guard) bools(name string, s []bool) []bool {
	return hand(g, name, s, same[bool], true, false)
}
func (g *guard) floats(name string, s []float64) []float64 {
	return hand(g, name, s, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }, -1e77, 3e-5)
}
func (g *guard) floats32(name string, s []float32) []float32 {
	return hand(g, name, s, func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }, -1e17, 3e-5)
}
func (g *guard) objects(name string, s []interface{}) []interface{} {
	return hand(g, name, s, eqv, interface{}("\x00guard"), interface{}(nil))
}
func (g *guard) frames(name string, s []*DF) []*DF {
	return hand(g, name, s, same[*DF], (*DF)(nil))
}
func (g *guard) raws(name string, s []*dataframe.RawData) []*dataframe.RawData {
	return hand(g, name, s, same[*dataframe.RawData], (*dataframe.RawData)(nil))
}

func (g *guard) verify() {
	for _, f := range g.check {
		if d := f(); d != "" {
			g.c.Failf("%s", d)
		}
	}
	g.c.EvN("guards-compared", len(g.check))
}

// c35 hands over guarded arguments.
func c35(c *Ctx) {
	df := c.genAny(GenOpt{})
	g := &guard{c: c}
	type kept struct {
		what string
		df   *DF
		s    Snap
	}
	var results []kept
	for k := 1 + c.Int(12); k > 0; k-- {
		before := take(df)
		what, r := c35call(c, g, df, before)
		if what == "" {
			continue
		}
		c.Log("%s", what)
		c.Ev(strings.SplitN(strings.SplitN(opName(what), "[", 2)[0], " ", 2)[0])
		if g.lens > 0 {
			c.NonTrivial()
		}
		g.verify()
		c.same("the frame after "+what, take(df), before)
		if r != nil {
			results = append(results, kept{what, r, take(r)})
			if c.P(0.3) && r.NumRows() < 2000 {
				df = r
			}
		}
	}
	for _, f := range g.spoil {
		f()
	}
	for _, r := range results {
		c.same("result of "+r.what+" after its arguments were changed by their owner", take(r.df), r.s)
		c.Ev("results-compared-after-scribbling")
	}
}

// c35call makes one call; the returned frame must not depend on the arguments afterwards.
func c35call(c *Ctx, g *guard, df *DF, s Snap) (what string, r *DF) {
	all := s.names("fibso")
	cols := func(types string) []string {
		l := s.names(types)
		sub := c.subset(l, imin(1, len(l)))
		if len(sub) > 1 && c.P(0.1) {
			sub = append(sub, sub[0])
		}
		return sub
	}
	say := func(format string, args ...interface{}) {
		what = fmt.Sprintf(format, args...)
		g.what = what
	}
	fresh := fmt.Sprintf("fresh%d", c.Int(4))
	switch c.Int(30) {
	case 0:
		say("IndexView(...)")
		r = df.IndexView(g.ints("indices", c.randIdx(s.N)))
	case 1:
		say("MaskView(...)")
		m := make([]bool, s.N)
		for i := range m {
			m[i] = c.P(0.6)
		}
		r = df.MaskView(g.bools("mask", m))
	case 2, 3:
		if len(all) == 0 {
			return
		}
		sub := cols("fibso")
		say("ColumnView(%q)", sub)
		r = df.ColumnView(g.names("columns", sub)...)
	case 4:
		sub := cols("fibso")
		say("Drop(%q)", sub)
		r = df.View()
		r.Drop(g.names("columns", sub)...)
	case 5:
		sub := cols("fibso")
		r = df.View()
		say("Unshare(%q)", sub)
		r.Unshare(g.names("columns", sub)...)
	case 6:
		sub := cols("fibso")
		say("DetachedView(%q)", sub)
		r = df.DetachedView(g.names("columns", sub)...)
	case 7, 8:
		sub := c.subset(s.names("s"), imin(1, len(s.names("s"))))
		if len(sub) == 0 {
			return
		}
		say("HashStringsView(%q)", sub)
		r = df.HashStringsView(g.names("columns", sub)...)
	case 9:
		r = df.View()
		nms := []string{fresh, "fresh x", fresh + "b"}[:1+c.Int(3)]
		if len(all) > 0 && c.P(0.3) {
			nms = append(nms, all[c.Int(len(all))])
		}
		t := c.Int(5)
		say("Alloc[%d](%q)", t, nms)
		a := g.names("columns", nms)
		switch t {
		case 0:
			r.AllocFloats(a...)
		case 1:
			r.AllocInts(a...)
		case 2:
			r.AllocBools(a...)
		case 3:
			r.AllocObjects(a...)
		default:
			r.AllocStrings(a...)
		}
	case 10:
		sub := cols("ib")
		say("conversion of %q", sub)
		r = df.View()
		a := g.names("columns", sub)
		r.IntToFloats(a...)
		r.BoolToFloats(a...)
	case 11, 12, 13: // values
		r = df.DetachedView()
		t := "fibos"[c.Int(5)]
		nm := fresh
		if l := s.names(string(t)); len(l) > 0 && c.P(0.5) {
			nm = l[c.Int(len(l))]
		}
		if old := s.col(nm); old != nil && old.T == 's' {
			t = 's' // an object access to a string column is for strings
		}
		v := c.genVals(t, s.N, GenOpt{NoNil: t != 'o'})
		say("Overwrite[%c](%q)", t, nm)
		switch t {
		case 'f':
			if c.P(0.5) {
				f := make([]float32, len(v))
				for i, x := range toFloats(v) {
					f[i] = float32(x)
				}
				r.OverwriteFloats32(nm, g.floats32("values", f))
			} else {
				r.OverwriteFloats64(nm, g.floats("values", toFloats(v)))
			}
		case 'i':
			r.OverwriteInts(nm, g.ints("values", toInts(v)))
		case 'b':
			r.OverwriteBools(nm, g.bools("values", toBools(v)))
		case 'o':
			r.OverwriteObjects(nm, g.objects("values", v), dataframe.AnyObject)
		case 's':
			ss := make([]string, len(v))
			for i := range v {
				ss[i] = v[i].(string)
			}
			r.OverwriteStrings(nm, g.names("values", ss))
		}
	case 14, 15: // builders copy what is added
		say("DataBuilder.Add*")
		raw := dataframe.NewRawData()
		b := dataframe.DataBuilder{RawData: raw}
		left := map[byte]int{'f': 0, 'i': 0, 'b': 0, 'o': 0, 's': 0}
		n := c.Pick(0, 1, 2, 5, 40)
		for again := true; again; {
			again = false
			for _, t := range []byte("fibos") {
				if left[t] == n {
					continue
				}
				again = true
				k := 1 + c.Int(n-left[t])
				left[t] += k
				v := c.genVals(t, k, GenOpt{NoNil: t == 's'})
				switch t {
				case 'f':
					b.AddFloats("af", g.floats("values", toFloats(v))...)
				case 'i':
					b.AddInts("ai", g.ints("values", toInts(v))...)
				case 'b':
					b.AddBools("ab", g.bools("values", toBools(v))...)
				case 'o':
					b.AddObjects("ao", g.objects("values", v)...)
				case 's':
					ss := make([]string, len(v))
					for i := range v {
						ss[i] = v[i].(string)
					}
					b.AddStrings("as", g.names("values", ss)...)
				}
			}
		}
		if n == 0 {
			return "", nil
		}
		r = b.ToDataFrame()
	case 16: // frames
		l := []*DF{df, df.View(), df.Copy()}[:1+c.Int(3)]
		l = append([]*DF{}, l...)
		c.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		say("RowConcat(%d frames)", len(l))
		var err error
		r, err = dataframe.RowConcat(g.frames("dfs", l)...)
		if err != nil {
			c.Failf("RowConcat of equal frames: %v", err)
		}
	case 17:
		if len(all) < 2 {
			return
		}
		k := 1 + c.Int(len(all)-1)
		l := []*DF{df.ColumnView(all[:k]...), df.ColumnView(all[k:]...)}
		kind := c.Int(3)
		say("column concatenation %d", kind)
		f := []func(...*DF) (*DF, error){dataframe.ColumnConcatView, dataframe.ColumnCopyConcat, dataframe.ColumnSmartConcat}[kind]
		var err error
		r, err = f(g.frames("dfs", l)...)
		if err != nil {
			c.Failf("%s: %v", what, err)
		}
	case 18:
		l := []*dataframe.RawData{&df.Copy().RawData, &df.Copy().RawData}
		say("MergeRawDataRows(2)")
		r = dataframe.MergeRawDataRows(g.raws("list", l)).ToDataFrame()
		if len(all) == 0 {
			r = nil
		}
	case 19:
		l := []*dataframe.RawData{&df.Copy().RawData, &df.Copy().RawData}
		say("MergeRawDataColumns(2)")
		r = dataframe.MergeRawDataColumns(g.raws("list", l)).ToDataFrame()
	case 20:
		say("CheckNoColumnOverlap(2)")
		dataframe.CheckNoColumnOverlap(g.frames("dfs", []*DF{df, df.View()}))
	case 21, 22: // reading
		k := c.genCSV()
		o := k.spec
		o.MaxCPU = c.Pick(1, 2, 8)
		say("FromCSV(header %q exclude %q missing %q)", o.Header, o.Exclude, o.MissingValues)
		o.Header = g.names("Header", o.Header)
		o.Exclude = g.names("Exclude", o.Exclude)
		o.MissingValues = g.names("MissingValues", o.MissingValues)
		raw, err := dataframe.FromCSV(strings.NewReader(k.text), o)
		if err != nil || raw == nil {
			return
		}
		if raw.NumColumns() > 0 {
			r = raw.ToDataFrame()
		}
	case 23: // writing
		n := 1 + c.Int(4)
		spec := dataframe.CSVWritingSpec{MaintainOrder: c.P(0.5)}
		if c.P(0.5) {
			say("ToCSVs(%d)", n)
			w := make([]io.Writer, n)
			for i := range w {
				w[i] = new(bytes.Buffer)
			}
			df.ToCSVs(hand(g, "writers", w, same[io.Writer], io.Writer(nil)), spec)
		} else {
			say("ToCSVFiles(%d)", n)
			d := c.TempDir()
			p := make([]string, n)
			for i := range p {
				p[i] = filepath.Join(d, fmt.Sprint(n-i))
			}
			df.ToCSVFiles(spec, g.names("paths", p)...)
		}
	case 24: // batching; the column list is used by later calls too
		num := cols("fib")
		if len(num) == 0 || s.N == 0 {
			return
		}
		say("batching %q", num)
		for k := 1 + c.Int(2); k > 0; k-- {
			if c.P(0.5) {
				dataframe.NewDense64Batching(g.names("columns", num)).DenseMatrix(df)
			} else {
				ite := dataframe.NewFloat32Iterator(df, g.names("columns", num))
				for row, _, _ := ite.NextRow(); row != nil; row, _, _ = ite.NextRow() {
				}
				ite.Reset(df, true)
			}
		}
	case 25, 26: // preprocessing and learning
		ex := c.subset(all, 0)
		say("AutoPreprocessor excluding %q", ex)
		opt := preprocessing.AutoPreprocOptions{Imputing: c.P(0.5), Scaling: c.P(0.5), Exclude: g.names("Exclude", ex)}
		p := preprocessing.NewAutoPreprocessor(opt)
		if s.N > 500 || s.N == 0 {
			return "", nil
		}
		r = p.FitTransform(df)
		// the lists of columns the preprocessor advertises
		adv := p.TransformedColumns()
		want := append([]string{}, adv...)
		sort.Strings(want)
		if _, err := p.TransformView(df); err != nil {
			c.Failf("TransformView of the training data: %v", err)
		}
		p.TransformedColumns()
		sort.Strings(adv)
		if fmt.Sprint(adv) != fmt.Sprint(want) {
			c.Failf("a list of transformed columns changed from %q to %q", want, adv)
		}
	case 27:
		clean := s.names("b")
		for _, n := range s.names("f") {
			ok := true
			for _, v := range s.col(n).V {
				x := v.(float64)
				ok = ok && math.Abs(x) < 1e3
			}
			if ok {
				clean = append(clean, n)
			}
		}
		l := Snap{Cols: s.only(clean).Cols}.names("f")
		if len(l) == 0 || len(clean) < 2 || s.N == 0 || s.N > 300 {
			return
		}
		say("LinearRegressor on %q", clean)
		reg := algorithms.NewLinearRegressor()
		reg.Fit(df.ColumnView(g.names("columns", clean)...), l[c.Int(len(l))], algorithms.LinRegTrainParams{Epochs: 1 + c.Int(2), BatchSize: 1 + c.Int(40), LowMemory: c.P(0.5)})
		reg.Features = g.names("Features", reg.Features)
		reg.Weights = g.floats("Weights", reg.Weights)
		p, err := reg.Predict(df, "\x00y")
		if err != nil {
			c.Failf("Predict: %v", err)
		}
		r = p
	case 28: // printing and headers
		say("printing and headers")
		short := df.GoodShortNames(c.Int(4))
		if len(all) > 0 && c.P(0.5) {
			short[all[0]] = "z"
		}
		copied := map[string]string{}
		for k, v := range short {
			copied[k] = v
		}
		captureStdout(c, func() { df.PrintRecords(c.Range(-1, 3), "", short) })
		if fmt.Sprint(short) != fmt.Sprint(copied) {
			c.Failf("PrintRecords changed its map of short names from %v to %v", copied, short)
		}
		h := dataframe.Columns(g.names("names", all)...)
		h.Except(g.names("names", c.subset(all, 0))...)
	default: // helpers
		words := append(append([]string{}, all...), "w", "x", "", "w")
		switch c.Int(5) {
		case 0:
			say("CreateStringQueue(%q)", words)
			q := utils.CreateStringQueue(g.names("keys", words), 1+c.Int(8))
			for key, more := q.Next(); more; key, more = q.Next() {
				q.Notify(utils.ProcessedJob{Key: key})
			}
			q.Wait()
		case 1:
			say("SplitStringSlice(%q)", words)
			for _, l := range utils.SplitStringSlice(g.names("strings", words), 1+c.Int(8)) {
				utils.ToStringSet(l)
			}
		case 2:
			v := make([]float64, c.Int(50))
			for i := range v {
				v[i] = rand.NormFloat64()
			}
			say("FloatArgSort(%d)", len(v))
			utils.FloatArgSort(g.floats("values", v), true)
		case 3:
			say("sets of %q", words)
			set := utils.ToStringSet(g.names("strings", words))
			n := len(set)
			utils.StringSetKeys(set)
			if len(set) != n {
				c.Failf("StringSetKeys changed its set")
			}
			utils.IndexOfString("x", g.names("strings", words))
		default:
			say("HashIntSlice")
			utils.HashIntSlice(g.ints("indices", c.R.Perm(1+c.Int(20))))
		}
	}
	return
}
