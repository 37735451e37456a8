package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"golang.org/x/text/encoding/charmap"
)

func init() {
	register(&Prop{ID: "C05", Quick: 70000, Thorough: 7000000, Random: c05,
		Rule:   "history of up to 22 steps: view creations by every view-returning function and writes (element-wise or whole column) through any live frame; after each write every live frame is compared with the shared-cell model; non-trivial: at least one write with >=2 live frames",
		Assume: []string{"a step whose freshly created view does not show its source's rows ends the case without verdict (that is C01-C04)"}})
	register(&Prop{ID: "C06", Quick: 50000, Thorough: 5000000, Random: c06,
		Rule:   "history of up to 22 steps mixing views, Copy, DetachedView, in-place Unshare, RowConcat, ColumnCopyConcat and writes; all live frames compared with the shared-cell model after each step; non-trivial: at least one detaching step followed by a write",
		Assume: []string{"after an in-place Unshare the frames previously derived from that frame are no longer observed (the documentation promises isolation from the data it was viewing)"}})
	register(&Prop{ID: "C07", Quick: 90000, Thorough: 9000000, Random: c07,
		Rule:   "history of up to 16 derivations (all view makers, encoders, automatic preprocessor, prediction) and structural edits; after each step every other live frame must show what it showed before; non-trivial: at least one structural edit with another live frame",
		Assume: []string{"frames derived from the edited frame are not observed: only edits on a view versus its source and siblings are claimed"}})
	register(&Prop{ID: "C08", Quick: 250000, Thorough: 25000000, Random: c08,
		Rule:   "sequence of up to 14 structural edits on a frame or view, checked against a schema/value model and a well-formedness monitor after each edit; non-trivial: at least two edits on a frame with rows",
		Assume: []string{"transferred raw data has as many rows as the receiving storage"}})
}

func c05(c *Ctx) {
	o := GenOpt{MaxRows: 80, MaxCols: 4}
	s := c.genSnap(o)
	w := &world{c: c}
	root := newFromSnap(s, c.build(s))
	w.add(root, "frame "+s.schema())
	steps := 4 + c.Int(19)
	for k := 0; k < steps; k++ {
		f := w.pick()
		if c.P(0.5) {
			before := len(w.live)
			w.deriveShared(f)
			if d, _ := w.checkAll(); d != "" {
				c.Abandon("a derivation already shows other data")
			}
			c.EvN("views-created", len(w.live)-before)
			w.trim(10)
		} else if w.write(f) {
			if len(w.live) > 1 {
				c.NonTrivial()
			}
			if d, _ := w.checkAll(); d != "" {
				c.Failf("after a write through %s: %s", f.name, d)
			}
			c.EvN("frames-compared", len(w.live))
		}
	}
}

func c06(c *Ctx) {
	o := GenOpt{MaxRows: 80, MaxCols: 4}
	if c.P(0.15) {
		c06encoding(c)
		return
	}
	s := c.genSnap(o)
	w := &world{c: c}
	root := newFromSnap(s, c.build(s))
	w.add(root, "frame "+s.schema())
	steps := 4 + c.Int(19)
	detached := false
	verify := func(what string) {
		if d, _ := w.checkAll(); d != "" {
			c.Failf("after %s: %s", what, d)
		}
	}
	for k := 0; k < steps; k++ {
		f := w.pick()
		switch c.Int(11) {
		case 0, 1, 2:
			w.deriveShared(f)
			if d, _ := w.checkAll(); d != "" {
				c.Abandon("a sharing derivation already shows other data")
			}
		case 3:
			g := f.copied(f.df.Copy())
			w.add(g, f.name+".Copy()")
			detached = true
			c.Ev("Copy")
			c.ownMask("Copy", f.df, g.df)
			verify("Copy")
		case 4: // detached view
			var names []string
			if c.P(0.7) {
				names = c.subset(f.names("fibso"), 1)
			}
			if len(f.cols) == 0 {
				continue
			}
			asked := c.sloppy(names)
			d := f.df.DetachedView(asked...)
			g := f.dup(d)
			g.detach(names)
			if len(names) == 0 || len(names) == len(f.cols) {
				w.add(g, fmt.Sprintf("%s.DetachedView(%q)", f.name, asked))
			} else {
				w.add(g, fmt.Sprintf("%s.DetachedView(%q)", f.name, asked), f)
			}
			detached = true
			c.Ev("DetachedView")
			verify("DetachedView")
		case 5: // in-place unshare
			var names []string
			if c.P(0.7) {
				names = c.subset(f.names("fibso"), 1)
			}
			if len(f.cols) == 0 {
				continue
			}
			w.killDescendants(f)
			asked := c.sloppy(names)
			f.df.Unshare(asked...)
			f.detach(names)
			if len(names) == 0 || len(names) == len(f.cols) {
				f.parents = nil
			}
			c.Log("%s.Unshare(%q)", f.name, asked)
			detached = true
			c.Ev("Unshare")
			verify("Unshare")
		case 6: // row concatenation of views with the same columns
			g := f
			others := []*mframe{}
			for _, h := range w.live {
				if strings.Join(typed(h), ",") == strings.Join(typed(f), ",") {
					others = append(others, h)
				}
			}
			g = others[c.Int(len(others))]
			if f.n+g.n > 400 || len(f.cols) == 0 {
				continue
			}
			r, err := dataframe.RowConcat(f.df, g.df)
			if err != nil {
				c.Failf("RowConcat(%s,%s) of frames with the same columns fails: %v", f.name, g.name, err)
			}
			sf, sg := f.expect(), g.expect()
			cat := Snap{N: sf.N + sg.N}
			for i := range sf.Cols {
				cat.Cols = append(cat.Cols, Col{sf.Cols[i].Name, sf.Cols[i].T, append(cloneVals(sf.Cols[i].V), sg.Cols[i].V...)})
			}
			w.add(newFromSnap(cat, r), fmt.Sprintf("RowConcat(%s,%s)", f.name, g.name))
			detached = true
			c.Ev("RowConcat")
			c.ownMask("RowConcat", f.df, r)
			c.ownMask("RowConcat", g.df, r)
			verify("RowConcat")
		case 7: // copying column concatenation
			nn := f.names("fibso")
			if len(nn) < 2 {
				continue
			}
			cut := 1 + c.Int(len(nn)-1)
			r, err := dataframe.ColumnCopyConcat(f.df.ColumnView(nn[:cut]...), f.df.ColumnView(nn[cut:]...))
			if err != nil {
				c.Failf("ColumnCopyConcat of disjoint columns fails: %v", err)
			}
			w.add(f.copied(r), fmt.Sprintf("ColumnCopyConcat(%s%q,%s%q)", f.name, nn[:cut], f.name, nn[cut:]))
			detached = true
			c.Ev("ColumnCopyConcat")
			c.ownMask("ColumnCopyConcat", f.df, r)
			verify("ColumnCopyConcat")
		case 8: // frames that own all their columns, put side by side and detached again
			nn := f.names("fibso")
			if len(nn) < 2 {
				continue
			}
			cut := 1 + c.Int(len(nn)-1)
			var parts []*mframe
			for j, cols := range [][]string{nn[:cut], nn[cut:]} {
				d := f.df.ColumnView(cols...).Copy()
				parts = append(parts, w.add(newFromSnap(f.expect().only(cols), d), fmt.Sprintf("copy %d of %s%q", j, f.name, cols)))
			}
			if c.P(0.5) {
				parts[0], parts[1] = parts[1], parts[0]
			}
			r, err := dataframe.ColumnConcatView(parts[0].df, parts[1].df)
			if err != nil {
				c.Abandon("ColumnConcatView refused whole frames")
			}
			g := parts[0].dup(r)
			for name, m := range parts[1].dup(r).cols {
				g.cols[name] = m
			}
			w.add(g, fmt.Sprintf("ColumnConcatView(%s,%s)", parts[0].name, parts[1].name), parts...)
			if c.P(0.6) {
				var names []string
				if c.P(0.7) {
					names = c.subset(nn, 1)
				}
				r.Unshare(names...)
				g.detach(names)
				if len(names) == 0 || len(names) == len(nn) {
					g.parents = nil
				}
				c.Log("%s.Unshare(%q)", g.name, names)
			}
			detached = true
			c.Ev("owned-concatenations")
			verify("ColumnConcatView of owners")
			if c.P(0.5) && w.write(w.live[len(w.live)-1-c.Int(3)]) {
				verify("a write after it")
			}
		default:
			if w.write(f) {
				if detached && len(w.live) > 1 {
					c.NonTrivial()
				}
				verify("a write through " + f.name)
			}
		}
		w.trim(9)
	}
}

func typed(f *mframe) []string {
	var out []string
	for n, m := range f.cols {
		out = append(out, fmt.Sprintf("%q%c", n, m.t))
	}
	sort.Strings(out)
	return out
}

// c06encoding observes the declared encoding of detached copies through a re-encoding to UTF-8.
// ownMask: a mask taken from a frame survives the masks of its copies, and the reverse.
func (c *Ctx) ownMask(what string, src, cp *DF) {
	if c.P(0.5) {
		src, cp = cp, src
	}
	m := src.EmptyMask()
	for i := range m {
		m[i] = i%2 == 0
	}
	var o []bool
	if c.P(0.5) {
		o = cp.ZeroMask()
	} else {
		o = cp.EmptyMask()
	}
	if len(m) != src.NumRows() || len(o) != cp.NumRows() {
		c.Failf("%s: masks of %d and %d rows for %d and %d rows", what, len(m), len(o), src.NumRows(), cp.NumRows())
	}
	for i := range o {
		o[i] = i%2 != 0
	}
	for i := range m {
		if m[i] != (i%2 == 0) {
			c.Failf("%s: writing a mask of one side changes row %d of a mask of the other side", what, i)
		}
	}
	c.Ev("masks-compared")
}

func c06encoding(c *Ctx) {
	n := 1 + c.Int(6)
	raw := dataframe.NewRawData()
	b := dataframe.DataBuilder{RawData: raw}
	enc := []*charmap.Charmap{charmap.ISO8859_1, charmap.KOI8R, charmap.Windows1252}[c.Int(3)]
	vals := make([]interface{}, n)
	for i := range vals {
		if c.P(0.8) {
			vals[i] = string([]byte{'x', byte(0xE0 + c.Int(16))})
		}
	}
	b.AddObjects("s", vals...).MarkAsString("s").AddInts("i", seq(n)...).TextEncoding(enc)
	df := b.ToDataFrame()
	if c.P(0.5) {
		df = df.View()
	}
	want := take(df)
	var g *DF
	var err error
	op := c.Int(4)
	c.Log("declared encoding kept by op %d on %d rows", op, n)
	switch op {
	case 0:
		g = df.Copy()
	case 1:
		g = df.DetachedView([]string{"s"}[:c.Int(2)]...)
	case 2:
		g, err = dataframe.RowConcat(df)
	case 3:
		g, err = dataframe.ColumnCopyConcat(df, dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddFloats("z", make([]float64, n)...).ToDataFrame())
	}
	if err != nil {
		c.Failf("op %d: %v", op, err)
	}
	if op != 3 {
		c.same("copy at creation", take(g), want)
	}
	if err := g.Encode(nil); err != nil {
		c.Failf("Encode(UTF-8) on the copy: %v", err)
	}
	for i := range vals {
		got := g.Objects("s").Get(i)
		var w interface{}
		if vals[i] != nil {
			w, _ = enc.NewDecoder().String(vals[i].(string))
		}
		if got != w {
			c.Failf("row %d of the copy re-encoded to UTF-8 is %s instead of %s (declared encoding lost?)", i, vstr(got), vstr(w))
		}
	}
	c.same("source after re-encoding the copy", take(df), want)
	c.NonTrivial()
	c.Ev("encoding-kept")
}

// ---- C07 ----

type sframe struct {
	name    string
	df      *DF
	snap    Snap
	parents []*sframe
	fresh   []string // columns created on this very frame
}

func sdescends(f, from *sframe) bool {
	for _, p := range f.parents {
		if p == from || sdescends(p, from) {
			return true
		}
	}
	return false
}

func c07(c *Ctx) {
	seqn := 0
	var live []*sframe
	add := func(df *DF, how string, parents ...*sframe) *sframe {
		seqn++
		f := &sframe{name: fmt.Sprintf("F%d", seqn), df: df, parents: parents}
		f.snap = take(df)
		c.Log("%s = %s", f.name, how)
		live = append(live, f)
		return f
	}
	o := GenOpt{MaxRows: 60, MaxCols: 6, Finite: true, NoNaN: true, NoNil: c.P(0.5), SmallInts: c.P(0.5)}
	rs := c.genSnap(o)
	if c.P(0.4) && len(rs.names("fibso")) > 0 { // plain objects that could as well be strings
		words := Col{"words", 'o', make([]interface{}, rs.N)}
		for i := range words.V {
			if c.P(0.8) {
				words.V[i] = fmt.Sprintf("w%d", c.Int(5))
			}
		}
		rs = rs.with(words)
	}
	root := c.build(rs)
	add(root, "root")
	if c.P(0.3) {
		add(c.genFrame(GenOpt{MinRows: root.NumRows(), MaxRows: root.NumRows(), Prefix: "z", MaxCols: 2}), "second root")
	}
	unchanged := func(what string, except *sframe) {
		for _, g := range live {
			if g == except {
				continue
			}
			if d := diff(take(g.df), g.snap); d != "" {
				c.Failf("%s changes %s: %s", what, g.name, d)
			}
			c.Ev("frames-compared")
		}
	}
	steps := 3 + c.Int(14)
	for k := 0; k < steps; k++ {
		f := live[c.Int(len(live))]
		if c.P(0.45) || len(live) == 1 {
			how, df := c07derive(c, f)
			if df == nil {
				continue
			}
			unchanged(f.name+"."+how, nil)
			if op := opName(how); op == "Copy" || op == "RowConcat" || op == "ColumnCopyConcat" {
				add(df, f.name+"."+how) // a frame of its own
			} else {
				add(df, f.name+"."+how, f)
			}
			c.Ev("derive-" + opName(how))
			if len(live) > 8 {
				j := c.Int(len(live) - 1)
				live = append(live[:j], live[j+1:]...)
			}
			continue
		}
		if k > 0 && c.P(0.12) {
			// concatenation of two live frames
			g := live[c.Int(len(live))]
			var r *DF
			var err error
			how := "ColumnConcatView"
			if c.P(0.5) {
				r, err = dataframe.ColumnConcatView(f.df, g.df)
			} else {
				how = "ColumnSmartConcat"
				r, err = dataframe.ColumnSmartConcat(f.df, g.df)
			}
			unchanged(how, nil)
			if err == nil {
				add(r, fmt.Sprintf("%s(%s,%s)", how, f.name, g.name), f, g)
			}
			continue
		}
		// structural edit on f
		var keep []*sframe
		for _, g := range live {
			if g == f || !sdescends(g, f) {
				keep = append(keep, g)
			}
		}
		live = keep
		what := c07edit(c, f)
		if what == "" {
			continue
		}
		c.Log("%s.%s", f.name, what)
		if len(live) > 1 {
			c.NonTrivial()
		}
		c.Ev("edit-" + opName(what))
		unchanged(f.name+"."+what, f)
		f.snap = take(f.df)
		// columns that were created here may be written without anyone noticing
		if len(f.fresh) > 0 && f.snap.N > 0 && c.P(0.5) {
			name := f.fresh[c.Int(len(f.fresh))]
			col := f.snap.col(name)
			if col == nil {
				continue
			}
			row := c.Int(f.snap.N)
			switch col.T {
			case 'f':
				f.df.Floats(name).Set(row, 4.25)
			case 'i':
				f.df.Ints(name).Set(row, 425)
			case 'b':
				f.df.Bools(name).Set(row, true)
			default:
				f.df.Objects(name).Set(row, "425")
			}
			c.Log("%s[%q][%d] := ...", f.name, name, row)
			c.Ev("write-new-column")
			unchanged("writing the new column "+name+" of "+f.name, f)
			f.snap = take(f.df)
		}
	}
}

func c07derive(c *Ctx, f *sframe) (string, *DF) {
	df := f.df
	s := f.snap
	ss := s.names("s")
	nums := s.names("fib")
	all := s.names("fibso")
	switch c.Int(18) {
	case 13:
		return "Copy()", df.Copy()
	case 14:
		if c.P(0.5) && len(all) > 1 {
			k := 1 + c.Int(len(all)-1)
			r, err := dataframe.ColumnCopyConcat(df.ColumnView(all[:k]...), df.ColumnView(all[k:]...))
			if err != nil {
				c.Abandon("copying concatenation refused")
			}
			return "ColumnCopyConcat()", r
		}
		if s.N > 400 {
			break
		}
		dfs := []*DF{df}
		if c.P(0.5) {
			dfs = append(dfs, df.View())
		}
		r, err := dataframe.RowConcat(dfs...)
		if err != nil {
			c.Abandon("row concatenation refused")
		}
		return "RowConcat()", r
	case 0:
		return "View()", df.View()
	case 1:
		if len(all) > 0 && c.P(0.5) && len(storageSizes(df)) == 1 {
			return "View().ToDataFrame()", df.View().ToDataFrame()
		}
		return "View()", df.View()
	case 2:
		if len(all) > 0 {
			sub := c.subset(all, 1)
			return fmt.Sprintf("ColumnView(%q)", sub), df.ColumnView(sub...)
		}
	case 3:
		return "ShallowCopy()", df.ShallowCopy()
	case 4:
		if len(all) > 0 {
			sub := c.subset(all, 0)
			return fmt.Sprintf("DetachedView(%q)", sub), df.DetachedView(sub...)
		}
	case 5:
		if len(nums) > 0 {
			col := nums[c.Int(len(nums))]
			k := c.Int(s.N + 3)
			srt := c.P(0.4)
			return fmt.Sprintf("TopView(%q,%d,%v)", col, k, srt), df.TopView(col, k, true, srt)
		}
	case 6:
		if len(ss) > 0 {
			sub := c.subset(ss, 1)
			return fmt.Sprintf("HashStringsView(%q)", sub), df.HashStringsView(sub...)
		}
		return "HashStringsView()", df.HashStringsView()
	case 7:
		k := 1 + c.Int(3)
		p := df.SplitNView(k)
		return fmt.Sprintf("SplitNView(%d)", k), p[c.Int(len(p))]
	case 8:
		a, b := df.SplitTrainTestViews(0.5)
		if c.P(0.5) {
			return "SplitTrainTestViews().train", a
		}
		return "SplitTrainTestViews().test", b
	case 9:
		e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		e.Fit(df)
		r, err := e.TransformView(df)
		if err != nil {
			c.Abandon("hash encoder error")
		}
		return "HashEncoder.TransformView()", r
	case 10:
		if len(s.names("i")) > 0 && s.N > 0 && !hasIndicators(s) {
			e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory,
				UnknownPolicy: preprocessing.SeparateCategory, KeepUsedColumns: c.P(0.5)})
			e.Fit(df)
			r, err := e.TransformView(df)
			if err != nil {
				c.Abandon("one-hot error")
			}
			return "OneHotEncoder.TransformView()", r
		}
	case 11:
		if s.N > 0 && !hasIndicators(s) {
			p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: c.P(0.5), Scaling: c.P(0.5)})
			if c.P(0.5) {
				return "AutoPreprocessor.FitTransform()", p.FitTransform(df)
			}
			p.Fit(df)
			r, err := p.TransformView(df)
			if err != nil {
				c.Abandon("auto preprocessor error")
			}
			return "AutoPreprocessor.TransformView()", r
		}
	case 12:
		if fl := s.names("f"); len(fl) > 0 && len(s.names("fb")) > 1 && s.N > 1 {
			reg := algorithms.NewLinearRegressor()
			reg.Fit(df, fl[c.Int(len(fl))], algorithms.LinRegTrainParams{Epochs: 1, LR: 1e-6, BatchSize: 8})
			name := "prediction"
			if c.P(0.4) {
				name = all[c.Int(len(all))]
			}
			r, err := reg.Predict(df, name)
			if err != nil {
				c.Abandon("predict error")
			}
			return fmt.Sprintf("Predict(%q)", name), r
		}
	}
	st := c.selectRows(df)
	return st.name, st.df
}

// hasIndicators tells whether columns of s may have the names one-hot encoding would give its new columns.
func hasIndicators(s Snap) bool {
	for _, col := range s.Cols {
		for _, part := range []string{"_onehot", "_missing", "_unk"} {
			if strings.Contains(col.Name, part) {
				return true
			}
		}
	}
	return false
}

func c07edit(c *Ctx, f *sframe) string {
	s := f.snap
	all := s.names("fibso")
	pickName := func() string { // an existing or a new name
		if len(all) > 0 && c.P(0.4) {
			return all[c.Int(len(all))]
		}
		return fmt.Sprintf("n%d", c.Int(4))
	}
	df := f.df
	n := df.NumRows()
	created := func(name string) { f.fresh = append(f.fresh, name) }
	if words := s.col("words"); words != nil && words.T == 'o' && c.P(0.25) {
		for _, v := range words.V {
			if _, ok := v.(string); v != nil && !ok {
				return ""
			}
		}
		dataframe.DataBuilder{RawData: &df.RawData}.MarkAsString("words")
		if !df.StringHeader().NameSet()["words"] {
			c.Failf("MarkAsString does not mark the column of %s", f.name)
		}
		return "MarkAsString(words)"
	}
	switch c.Int(14) {
	case 12: // a builder working on the data of the frame
		nm := pickName()
		m := df.NumAllocatedRows()
		t := "fibso"[c.Int(5)]
		if col := s.col(nm); col != nil {
			t = col.T
		} else if c.P(0.3) && len(all) > 0 { // adding no value changes nothing
			nm = all[c.Int(len(all))]
			t = s.col(nm).T
		}
		b := dataframe.DataBuilder{RawData: &df.RawData}
		had := s.col(nm) != nil
		v := c.genVals(t, m, GenOpt{})
		if had && c.P(0.5) {
			v = nil
		}
		if !had || v != nil {
			created(nm)
		}
		switch {
		case t == 'f' && (had && v != nil || c.P(0.5)):
			if v == nil {
				return ""
			}
			b.SetFloats(nm, toFloats(v))
		case t == 'f':
			b.AddFloats(nm, toFloats(v)...)
		case t == 'i' && had && v != nil:
			b.SetInts(nm, toInts(v))
		case t == 'i':
			b.AddInts(nm, toInts(v)...)
		case t == 'b' && had && v != nil:
			b.SetBools(nm, toBools(v))
		case t == 'b':
			b.AddBools(nm, toBools(v)...)
		case had && v != nil:
			b.SetObjects(nm, v)
		default:
			b.AddObjects(nm, v...)
			if t == 's' {
				b.MarkAsString(nm)
			}
		}
		return fmt.Sprintf("DataBuilder(%q %c %d values)", nm, t, len(v))
	case 13: // one more row for a frame made from the same data
		if len(all) == 0 || len(storageSizes(df)) > 1 { // (a concatenation of differently sized data)
			return ""
		}
		b := dataframe.DataBuilder{RawData: &df.RawData}
		for _, col := range s.Cols {
			v := c.genVals(col.T, 1, GenOpt{})
			switch col.T {
			case 'f':
				b.AddFloats(col.Name, toFloats(v)...)
			case 'i':
				b.AddInts(col.Name, toInts(v)...)
			case 'b':
				b.AddBools(col.Name, toBools(v)...)
			default:
				b.AddObjects(col.Name, v...)
			}
		}
		if g := b.ToDataFrame(); g.NumRows() != df.NumAllocatedRows() {
			c.Failf("adding a row to each column of %s gives %d rows", f.name, g.NumRows())
		}
		return "DataBuilder(one more row)"
	case 0:
		if len(all) > 0 {
			sub := c.subset(all, 1)
			if c.P(0.7) {
				sub = sub[:1]
			}
			df.Drop(sub...)
			f.fresh = nil
			return fmt.Sprintf("Drop(%q)", sub)
		}
	case 1, 2:
		if len(all) > 0 {
			old, nw := all[c.Int(len(all))], pickName()
			df.Rename(old, nw)
			f.fresh = nil
			return fmt.Sprintf("Rename(%q,%q)", old, nw)
		}
	case 3:
		nm := pickName()
		created(nm)
		switch c.Int(5) {
		case 0:
			df.AllocInts(nm)
			return fmt.Sprintf("AllocInts(%q)", nm)
		case 1:
			df.AllocFloats(nm)
			return fmt.Sprintf("AllocFloats(%q)", nm)
		case 2:
			df.AllocBools(nm)
			return fmt.Sprintf("AllocBools(%q)", nm)
		case 3:
			df.AllocObjects(nm)
			return fmt.Sprintf("AllocObjects(%q)", nm)
		}
		df.AllocStrings(nm)
		return fmt.Sprintf("AllocStrings(%q)", nm)
	case 4, 5: // overwriting into existence (the column does not exist with that type)
		nm := pickName()
		t := byte('?')
		if col := s.col(nm); col != nil {
			t = col.T
		}
		k := c.Int(5)
		if string("fibos"[k]) == string(t) || (k >= 3 && (t == 'o' || t == 's')) {
			return ""
		}
		created(nm)
		switch k {
		case 0:
			if c.P(0.5) {
				df.OverwriteFloats32(nm, make([]float32, n))
				return fmt.Sprintf("OverwriteFloats32(%q)", nm)
			}
			df.OverwriteFloats64(nm, make([]float64, n))
			return fmt.Sprintf("OverwriteFloats64(%q)", nm)
		case 1:
			df.OverwriteInts(nm, make([]int, n))
			return fmt.Sprintf("OverwriteInts(%q)", nm)
		case 2:
			df.OverwriteBools(nm, make([]bool, n))
			return fmt.Sprintf("OverwriteBools(%q)", nm)
		case 3:
			df.OverwriteObjects(nm, make([]interface{}, n), dataframe.ObjectType(c.Int(2)))
			return fmt.Sprintf("OverwriteObjects(%q)", nm)
		}
		df.OverwriteStrings(nm, make([]string, n))
		return fmt.Sprintf("OverwriteStrings(%q)", nm)
	case 6:
		if ii := s.names("i"); len(ii) > 0 {
			sub := c.subset(ii, 1)
			df.IntToFloats(sub...)
			for _, nm := range sub {
				created(nm)
			}
			return fmt.Sprintf("IntToFloats(%q)", sub)
		}
	case 7:
		if bb := s.names("b"); len(bb) > 0 {
			sub := c.subset(bb, 1)
			df.BoolToFloats(sub...)
			for _, nm := range sub {
				created(nm)
			}
			return fmt.Sprintf("BoolToFloats(%q)", sub)
		}
	case 8, 9:
		m := df.NumAllocatedRows()
		if m == 0 || len(all) == 0 {
			return ""
		}
		g := c.buildPlain(c.genSnap(GenOpt{MinRows: m, Fixed: true, MaxCols: 2, Prefix: []string{"", "t"}[c.Int(2)]}))
		df.TransferRawDataFrom(&g.RawData)
		f.fresh = append(f.fresh, g.Header().NameList()...)
		return "TransferRawDataFrom(...)"
	case 10:
		nm := fmt.Sprintf("str%d", c.Int(3))
		if s.col(nm) != nil {
			return ""
		}
		df.AllocStrings(nm)
		created(nm)
		return fmt.Sprintf("AllocStrings(%q)", nm)
	}
	return ""
}

// ---- C08 ----

// wellFormed monitors the structure of a frame through the exported API.
func (c *Ctx) wellFormed(df *DF, where string) {
	kind := map[string]string{}
	total := 0
	reg := func(t string, names []string) {
		for _, n := range names {
			if k, ok := kind[n]; ok {
				c.Failf("%s: name %q denotes both a %s and a %s column", where, n, k, t)
			}
			kind[n] = t
			total++
		}
	}
	reg("float", df.FloatHeader().NameList())
	reg("int", df.IntHeader().NameList())
	reg("bool", df.BoolHeader().NameList())
	reg("object", df.ObjectHeader().NameList())
	for _, n := range df.StringHeader().NameList() {
		if kind[n] != "object" {
			c.Failf("%s: string column %q is not an object column (%s)", where, n, kind[n])
		}
	}
	if df.NumColumns() != total {
		c.Failf("%s: NumColumns()=%d but the headers name %d columns", where, df.NumColumns(), total)
	}
	hs := df.Header().NameSet()
	if len(hs) != total || df.Header().Num() != total {
		c.Failf("%s: Header() names %d columns instead of %d", where, len(hs), total)
	}
	n := df.NumRows()
	for name, t := range kind {
		if !hs[name] {
			c.Failf("%s: Header() lacks %q", where, name)
		}
		var size int
		read := func() {
			switch t {
			case "float":
				a := df.Floats(name)
				for i := 0; i < n; i++ {
					a.Get(i)
				}
				size = a.Size()
			case "int":
				a := df.Ints(name)
				for i := 0; i < n; i++ {
					a.Get(i)
				}
				size = a.Size()
			case "bool":
				a := df.Bools(name)
				for i := 0; i < n; i++ {
					a.Get(i)
				}
				size = a.Size()
			default:
				a := df.Objects(name)
				for i := 0; i < n; i++ {
					a.Get(i)
				}
				size = a.Size()
			}
		}
		if v, p := caught(read); p {
			c.Failf("%s: column %q cannot be read at every row: %v", where, name, v)
		}
		if size != n {
			c.Failf("%s: column %q has size %d, the frame %d rows", where, name, size, n)
		}
	}
	if ff := df.FloatHeader().NameList(); len(ff) > 0 && n > 0 && c.P(0.3) {
		if l := df.Floats(ff[0]).VecDense().Len(); l != n {
			c.Failf("%s: the vector of column %q has %d elements, the frame %d rows", where, ff[0], l, n)
		}
	}
	if total > 0 {
		var g *DF
		if v, p := caught(func() { g = df.RawData.ToDataFrame() }); p {
			c.Failf("%s: the columns are not all full length: %v", where, v)
		}
		if g.NumRows() != df.NumAllocatedRows() {
			c.Failf("%s: NumAllocatedRows()=%d but the columns have %d values", where, df.NumAllocatedRows(), g.NumRows())
		}
	}
	c.Ev("well-formedness-checks")
}

func zeroOf(t byte) interface{} {
	switch t {
	case 'f':
		return 0.0
	case 'i':
		return 0
	case 'b':
		return false
	}
	return nil
}

func c08(c *Ctx) {
	o := GenOpt{MaxRows: 60, MaxCols: 5, Finite: c.P(0.5)}
	var df *DF
	if c.P(0.25) {
		n := c.Int(20)
		df = dataframe.EmptyDataFrame(n, c.Pick(-1, 0, 1, 4))
		c.Log("EmptyDataFrame(%d)", n)
		if df.NumRows() != n {
			c.Failf("EmptyDataFrame(%d) has %d rows", n, df.NumRows())
		}
		if c.P(0.3) {
			df = c.chainNoCols(df)
		}
	} else {
		df = c.genAny(o)
	}
	model := take(df)
	n := model.N
	edits := 1 + c.Int(14)
	if n > 0 && edits > 1 {
		c.NonTrivial()
	}
	name := func() string {
		all := model.names("fibso")
		if len(all) > 0 && c.P(0.5) {
			return all[c.Int(len(all))]
		}
		if c.P(0.2) {
			return oddNames[c.Int(len(oddNames))]
		}
		return fmt.Sprintf("n%d", c.Int(4))
	}
	setCol := func(nm string, t byte, v []interface{}) {
		model = model.without(nm).with(Col{nm, t, v})
	}
	lastWins := func(vals []interface{}) []interface{} {
		sh := sharedIdx(df)
		last := map[int]interface{}{}
		for i, s := range sh {
			last[s] = vals[i]
		}
		out := make([]interface{}, len(sh))
		for i, s := range sh {
			out[i] = last[s]
		}
		return out
	}
	for k := 0; k < edits; k++ {
		all := model.names("fibso")
		what := ""
		switch c.Int(13) {
		case 0:
			sub := c.subset(all, 0)
			if c.P(0.6) && len(sub) > 1 {
				sub = sub[:1]
			}
			if c.P(0.2) {
				sub = append(sub, "nope")
			}
			what = fmt.Sprintf("Drop(%q)", sub)
			df.Drop(sub...)
			model = model.without(sub...)
		case 1, 2:
			if len(all) == 0 {
				continue
			}
			old, nw := all[c.Int(len(all))], name()
			what = fmt.Sprintf("Rename(%q,%q)", old, nw)
			df.Rename(old, nw)
			col := *model.col(old)
			if old != nw {
				model = model.without(old, nw)
				col.Name = nw
				model = model.with(col)
			}
		case 3:
			nms := []string{name()}
			if c.P(0.3) {
				for k := c.Pick(1, 2, 5, 17); k > 0; k-- {
					nms = append(nms, fmt.Sprintf("m%d", c.Int(100)))
				}
			}
			t := "fibos"[c.Int(5)]
			what = fmt.Sprintf("Alloc[%c](%q)", t, nms)
			switch t {
			case 'f':
				df.AllocFloats(nms...)
			case 'i':
				df.AllocInts(nms...)
			case 'b':
				df.AllocBools(nms...)
			case 'o':
				df.AllocObjects(nms...)
			case 's':
				df.AllocStrings(nms...)
			}
			for _, nm := range nms {
				v := make([]interface{}, n)
				for i := range v {
					v[i] = zeroOf(t)
				}
				setCol(nm, t, v)
			}
			if n == 0 || c.P(0.4) {
				break
			}
			c.Log("%s", what)
			c.same("after "+what, take(df), model)
			// the new columns are distinct columns
			nm, at := nms[c.Int(len(nms))], c.Int(n)
			v := c.genVals(t, 1, GenOpt{NoNil: true})[0]
			switch t {
			case 'f':
				df.Floats(nm).Set(at, v.(float64))
			case 'i':
				df.Ints(nm).Set(at, v.(int))
			case 'b':
				df.Bools(nm).Set(at, v.(bool))
			case 'o':
				df.Objects(nm).Set(at, v)
			case 's':
				df.Strings(nm).Set(at, v.(string))
			}
			sh := sharedIdx(df)
			col := model.col(nm)
			for i := range col.V {
				if i == at || (sh != nil && sh[i] == sh[at]) {
					col.V[i] = v
				}
			}
			what = fmt.Sprintf("Set[%c](%q,%d)", t, nm, at)
		case 4, 5, 6:
			nm := name()
			t := "fibos"[c.Int(5)]
			vals := c.genVals(t, n, GenOpt{NoNil: true})
			cur := model.col(nm)
			ct := t
			what = fmt.Sprintf("Overwrite[%c](%q)", t, nm)
			switch t {
			case 'f':
				if c.P(0.4) {
					v32 := make([]float32, n)
					for i, v := range vals {
						v32[i] = float32(v.(float64))
						vals[i] = float64(v32[i])
					}
					df.OverwriteFloats32(nm, v32)
					for i := range v32 { // the values are copied
						v32[i] = -77
					}
					break
				}
				df.OverwriteFloats64(nm, toFloats(vals))
			case 'i':
				df.OverwriteInts(nm, toInts(vals))
			case 'b':
				df.OverwriteBools(nm, toBools(vals))
			case 'o':
				if cur != nil && cur.T == 's' {
					continue
				}
				mark := dataframe.AnyObject
				if cur == nil && c.P(0.3) {
					mark, ct = dataframe.StringObject, 's'
					vals = c.genVals('s', n, GenOpt{})
				}
				df.OverwriteObjects(nm, vals, mark)
			case 's':
				ss := make([]string, n)
				for i, v := range vals {
					ss[i] = v.(string)
				}
				df.OverwriteStrings(nm, ss)
				if cur != nil && cur.T == 'o' {
					ct = 'o'
				}
			}
			setCol(nm, ct, lastWins(vals))
		case 7, 8:
			from := byte("ib"[c.Int(2)])
			sub := c.subset(model.names(string(from)), 0)
			if c.P(0.3) && len(all) > 0 { // converting something that is not of that type
				x := all[c.Int(len(all))]
				if model.col(x).T != from {
					sub = append(sub, x)
				}
			}
			if len(sub) == 0 {
				continue
			}
			c.R.Shuffle(len(sub), func(i, j int) { sub[i], sub[j] = sub[j], sub[i] })
			what = fmt.Sprintf("%cToFloats(%q)", from, sub)
			if from == 'i' {
				df.IntToFloats(sub...)
			} else {
				df.BoolToFloats(sub...)
			}
			for _, nm := range sub {
				col := model.col(nm)
				if col.T != from {
					continue
				}
				v := make([]interface{}, n)
				for i := range v {
					if from == 'i' {
						v[i] = float64(col.V[i].(int))
					} else if col.V[i].(bool) {
						v[i] = 1.0
					} else {
						v[i] = 0.0
					}
				}
				setCol(nm, 'f', v)
			}
		case 9:
			m := df.NumAllocatedRows()
			sh := sharedIdx(df)
			if m == 0 || sh == nil {
				continue
			}
			gs := c.genSnap(GenOpt{MinRows: m, Fixed: true, MaxCols: 2, Prefix: []string{"", "t"}[c.Int(2)]})
			g := c.buildPlain(gs)
			what = "TransferRawDataFrom(" + gs.schema() + ")"
			df.TransferRawDataFrom(&g.RawData)
			for _, gc := range gs.Cols {
				v := make([]interface{}, n)
				for i, s := range sh {
					v[i] = gc.V[s]
				}
				setCol(gc.Name, gc.T, v)
			}
			c.same("donor of the transfer", take(g), gs)
		case 10:
			if c.P(0.5) {
				continue
			}
			what = "View()"
			df = df.View()
		case 11:
			ascii := true
			for _, nm := range model.names("s") {
				for _, v := range model.col(nm).V {
					if s, ok := v.(string); ok {
						for i := 0; i < len(s); i++ {
							if s[i] >= 0x80 {
								ascii = false
							}
						}
					} else if v != nil {
						ascii = false
					}
				}
			}
			if !ascii {
				continue
			}
			what = "Encode(latin-1)"
			if err := df.Encode(charmap.ISO8859_1); err != nil {
				c.Failf("Encode of ASCII strings: %v", err)
			}
		default:
			s := c.selectRows(df)
			what = s.name
			df = s.df
			model = model.rows(s.idx)
			n = model.N
			if len(model.Cols) == 0 {
				model.N = df.NumRows()
				n = model.N
			}
		}
		c.Log("%s", what)
		c.Ev("edit-" + opName(what))
		c.wellFormed(df, "after "+what)
		c.same("after "+what, take(df), model)
	}
}

func (c *Ctx) chainNoCols(df *DF) *DF {
	switch c.Int(4) {
	case 0:
		return df.View()
	case 1:
		return df.ShallowCopy()
	case 2:
		return c.chain(df, 3)
	}
	return df.ReverseView()
}

var _ = rand.Int

// sloppy repeats a name now and then.
func (c *Ctx) sloppy(names []string) []string {
	asked := append([]string{}, names...)
	for len(names) > 0 && c.P(0.1) {
		asked = append(asked, names[c.Int(len(names))])
	}
	return asked
}
