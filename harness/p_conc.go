package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
)

func init() {
	register(&Prop{ID: "C17", Race: true, Quick: 5000, Thorough: 500000, Random: c17, Serial: true,
		Rule: "every multi-threaded operation on frames of 0 to 40 columns and on 1 to 14 files, under one CPU, then under random CPU settings (-1, 0, 1 to 12, 100) and GOMAXPROCS with random pauses at the queue's observation points; results compared with the one-CPU result and with each column or file processed alone; non-trivial: >=2 columns or files",
		Assume: []string{"schedules are sampled", "the names of generated indicator columns, the order of the files of a pattern and the order of rows under MaintainOrder=false are not part of the result",
			"most frequent categories have no ties where they matter"}})
	register(&Prop{ID: "C18", Race: true, Quick: 1400, Thorough: 140000, Random: c18, Serial: true,
		Rule:   "2 to 10 goroutines run random lists of operations on one shared frame (or disjoint batches of it) and shared trained objects; every result compared with the result of the same operation run alone on an identical twin; non-trivial: >=2 goroutines whose operations overlapped in time",
		Assume: []string{"schedules are sampled", "masks are the caller's own unless thread-safe masking is on", "shuffles and samples are compared as sets of rows"}})
}

// ---- schedule perturbation and observation ----

// jitter pauses the calling goroutine at random. It must not synchronise
// goroutines, or it would hide races: the runtime's own generator is per thread.
func jitter() {
	switch r := randv2.Uint32() % 16; {
	case r < 5:
		runtime.Gosched()
	case r == 5:
		time.Sleep(time.Duration(randv2.Uint32()%60) * time.Microsecond)
	}
}

// recorder observes the job queue (such cases are not those that look for races).
type recorder struct {
	mu  sync.Mutex
	seq []string
}

func (r *recorder) hook(point, key string) {
	r.mu.Lock()
	if len(r.seq) < 4096 {
		r.seq = append(r.seq, point+" "+key)
	}
	r.mu.Unlock()
	jitter()
}

func (c *Ctx) observed(r *recorder) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.seq) == 0 {
		return
	}
	h := fnv.New64a()
	open, peak := 0, 0
	for _, s := range r.seq {
		io.WriteString(h, s+"\x00")
		if strings.HasPrefix(s, "next") {
			open++
			peak = imax(peak, open)
		} else {
			open--
		}
	}
	c.EvN("queue-events", len(r.seq))
	if peak > 1 {
		c.Ev("operations-with-jobs-in-flight-together")
	}
	c.Log("schedule %x", h.Sum64()) // makes cases with another interleaving distinct
}

// settled waits until no goroutine is left besides those that ran before.
func (c *Ctx) settled(before int, what string) {
	for k := 0; k < 4000; k++ {
		if runtime.NumGoroutine() <= before {
			c.Ev("goroutine-checks")
			return
		}
		if k < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
	_, _, full := blockedDump()
	if strings.Contains(full, "ml-essentials") {
		c.Failf("%s left goroutines behind:\n%s", what, full)
	}
}

// ---- C17 ----

// outcome is a comparable result of an operation: frames by value, the rest as text.
type outcome struct {
	err   bool
	snap  *Snap
	multi bool // rows in any order
	text  string
}

func (c *Ctx) sameOut(what string, got, want outcome) {
	if got.err != want.err {
		c.Failf("%s: error %v instead of %v", what, got.err, want.err)
	}
	if want.snap != nil {
		if got.snap == nil {
			c.Failf("%s: no frame", what)
		}
		d := ""
		if want.multi {
			d = sameMultiset(*got.snap, *want.snap)
		} else {
			d = diff(*got.snap, *want.snap)
		}
		if d != "" {
			c.Failf("%s: %s", what, d)
		}
	}
	if got.text != want.text {
		c.Failf("%s: %s instead of %s", what, clip(got.text), clip(want.text))
	}
	c.Ev("results-compared")
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func snapOut(df *DF, err error) outcome {
	if err != nil {
		return outcome{err: true}
	}
	s := take(df)
	return outcome{snap: &s}
}

func floatMapText(m map[string]float64) string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%q=%x ", k, math.Float64bits(m[k]))
	}
	return b.String()
}

// jsonOf returns the serialised form of a trained object.
func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

// anonymous replaces the indicator columns by the multiset of their contents.
func anonymous(s Snap, indicators []string) (Snap, string) {
	var sets []string
	for _, name := range indicators {
		col := s.col(name)
		if col == nil {
			sets = append(sets, "missing column "+name)
			continue
		}
		b := make([]byte, len(col.V))
		for i, v := range col.V {
			b[i] = '.'
			if v == true {
				b[i] = 'X'
			}
		}
		sets = append(sets, string(b))
	}
	sort.Strings(sets)
	return s.without(indicators...), strings.Join(sets, "|")
}

// manyCols is a frame with n columns of the given types.
func (c *Ctx) manyCols(n, rows int, types string) Snap {
	s := Snap{N: rows}
	for k := 0; k < n; k++ {
		t := types[c.Int(len(types))]
		col := Col{Name: fmt.Sprintf("c%02d", k), T: t}
		if k < len(oddNames) && c.P(0.1) {
			col.Name = oddNames[k]
		}
		switch t {
		case 'f':
			col.V = c.prepCol("", rows).V
		case 'i': // one category holds the majority, so that "most frequent" is unambiguous
			col.V = make([]interface{}, rows)
			for i := range col.V {
				col.V[i] = c.Int(6) - 1
				if i <= rows/2 {
					col.V[i] = 7
				}
			}
			c.R.Shuffle(rows, func(a, b int) { col.V[a], col.V[b] = col.V[b], col.V[a] })
		case 's':
			col.V = make([]interface{}, rows)
			for i := range col.V {
				col.V[i] = c.hashString()
				if i <= rows/2 {
					col.V[i] = "most"
				}
			}
			c.R.Shuffle(rows, func(a, b int) { col.V[a], col.V[b] = col.V[b], col.V[a] })
		default:
			col.V = c.genVals(t, rows, GenOpt{SmallInts: true})
		}
		s.Cols = append(s.Cols, col)
	}
	return s.with()
}

func (c *Ctx) cpus() []int {
	all := []int{-1, 0, 1, 2, 3, 4, 5, 7, 8, 12, 100}
	out := []int{2}
	for k := 0; k < 2; k++ {
		out = append(out, all[c.Int(len(all))])
	}
	return out
}

func c17(c *Ctx) {
	ncols := []int{0, 1, 2, 2, 3, 4, 5, 7, 8, 9, 12, 16, 40}[c.Int(13)]
	rows := []int{0, 1, 2, 5, 17, 60}[c.Int(6)]
	if c.P(0.01) {
		ncols, rows = c.Pick(65, 129, 200, 300), c.Pick(1, 3, 5)
	}
	var op func(cpu int) outcome
	what := ""
	items := ncols
	frame := func(s Snap) func(cpu int) *DF {
		var pick []int
		how := c.Int(4)
		if s.N > 0 && how > 0 {
			pick = c.randIdx(s.N)
		}
		return func(cpu int) *DF {
			b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
			for _, col := range s.Cols {
				switch col.T {
				case 'f':
					b.SetFloats(col.Name, toFloats(col.V))
				case 'i':
					b.SetInts(col.Name, toInts(col.V))
				case 'b':
					b.SetBools(col.Name, toBools(col.V))
				default:
					b.SetObjects(col.Name, cloneVals(col.V))
					if col.T == 's' {
						b.MarkAsString(col.Name)
					}
				}
			}
			var df *DF
			if len(s.Cols) == 0 {
				df = dataframe.EmptyDataFrame(s.N, cpu)
			} else {
				df = b.ToDataFrame()
			}
			if pick != nil {
				df = df.IndexView(pick)
			}
			df.SetMaxCPU(cpu)
			return df
		}
	}
	var columnwise func(cols []string) outcome // every column on its own
	switch kind := c.Int(11); kind {
	case 0:
		what = "HashStringsView"
		s := c.manyCols(ncols, rows, "sssoi")
		mk := frame(s)
		cols := s.names("s")
		items = len(cols)
		op = func(cpu int) outcome { return snapOut(mk(cpu).HashStringsView(cols...), nil) }
		columnwise = func([]string) outcome {
			all := take(mk(1))
			r := all.without(cols...)
			for _, name := range cols {
				r = r.with(*colOf(take(mk(1).ColumnView(name).HashStringsView(name)), name))
			}
			return outcome{snap: &r}
		}
	case 1:
		what = "HashEncoder"
		s := c.manyCols(ncols, rows, "sssf")
		mk := frame(s)
		items = len(s.names("s"))
		op = func(cpu int) outcome {
			df := mk(cpu)
			e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
			e.Fit(df)
			return snapOut(e.TransformView(df))
		}
	case 2:
		what = "FloatImputer"
		s := c.manyCols(ncols, rows, "fffb")
		mk := frame(s)
		items = len(s.names("f"))
		policy := preprocessing.ImputingPolicy(c.Int(3))
		one := func(df *DF) outcome {
			e := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: policy})
			if err := e.Fit(df); err != nil {
				return outcome{err: true}
			}
			err := e.TransformInplace(df)
			return snapOut(df, err)
		}
		op = func(cpu int) outcome { return one(mk(cpu)) }
		columnwise = func([]string) outcome {
			r := take(mk(1))
			for _, name := range s.names("f") {
				o := one(mk(1).ColumnView(name))
				r = r.without(name).with(*colOf(*o.snap, name))
			}
			return outcome{snap: &r}
		}
	case 3, 4:
		what = "Scaler"
		s := c.manyCols(ncols, rows, "fffb")
		mk := frame(s)
		items = len(s.names("f"))
		opt := preprocessing.ScalerOptions{MinMax: c.P(0.3), Centering: c.P(0.6), Scaling: c.P(0.6)}
		inverse := c.P(0.5)
		one := func(df *DF) outcome {
			e := preprocessing.NewScaler(opt)
			if err := e.Fit(df); err != nil {
				return outcome{err: true}
			}
			err := e.TransformInplace(df)
			if inverse && err == nil {
				err = e.InverseTransformInplace(df)
			}
			o := snapOut(df, err)
			o.text = floatMapText(e.Shift) + "/" + floatMapText(e.Scale)
			return o
		}
		op = func(cpu int) outcome { return one(mk(cpu)) }
		columnwise = func([]string) outcome {
			r := take(mk(1))
			shift, scale := map[string]float64{}, map[string]float64{}
			for _, name := range s.names("f") {
				df := mk(1).ColumnView(name)
				e := preprocessing.NewScaler(opt)
				e.Fit(df)
				for k, v := range e.Shift {
					shift[k] = v
				}
				for k, v := range e.Scale {
					scale[k] = v
				}
				e.TransformInplace(df)
				if inverse {
					e.InverseTransformInplace(df)
				}
				r = r.without(name).with(*colOf(take(df), name))
			}
			return outcome{snap: &r, text: floatMapText(shift) + "/" + floatMapText(scale)}
		}
	case 5:
		what = "OneHotEncoder"
		s := c.manyCols(ncols, imax(rows, 3), "iiifb")
		other := c.manyCols(0, rows, "i")
		for _, col := range s.Cols { // the same columns, other rows
			o := Col{Name: col.Name, T: col.T, V: c.genVals(col.T, rows, GenOpt{SmallInts: true})}
			other.Cols = append(other.Cols, o)
		}
		train, apply := frame(s), frame(other)
		items = len(s.names("i"))
		for trial := 0; ; trial++ { // a view without training rows for a category is not wanted
			t := take(train(1))
			ok := t.N > 0
			for _, name := range t.names("i") {
				n7, n := 0, 0
				for _, v := range t.col(name).V {
					if v == 7 {
						n7++
					} else {
						n++
					}
				}
				ok = ok && n7 > n
			}
			if ok {
				break
			}
			if trial > 20 {
				c.Abandon("no training frame with a clear majority")
			}
			train = frame(s)
		}
		pair := policyPair{preprocessing.CategoryPolicy(c.Int(5)), preprocessing.CategoryPolicy(c.Int(5))}
		eff := pair.effective()
		if eff.m == preprocessing.ReturnError && eff.u == preprocessing.SharedSeparateCategory {
			c.Abandon("shared category with missing values being errors")
		}
		keep := c.P(0.3)
		if hasIndicators(s) {
			c.Abandon("indicator-like name")
		}
		op = func(cpu int) outcome {
			e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: pair.m, UnknownPolicy: pair.u, KeepUsedColumns: keep})
			if err := e.Fit(train(cpu)); err != nil {
				return outcome{err: true}
			}
			r, err := e.TransformView(apply(cpu))
			if err != nil {
				return outcome{err: true}
			}
			rest, text := anonymous(take(r), e.NewColumns)
			return outcome{snap: &rest, text: text}
		}
	case 6:
		what = "AutoPreprocessor"
		s := c.manyCols(imin(ncols, 16), imax(rows, 3), []string{"ffssb", "ffiib", "fffb", "ss"}[c.Int(4)])
		for _, col := range s.Cols {
			if col.T == 'i' || col.T == 's' {
				for i := range col.V {
					if i <= len(col.V)/2 {
						col.V[i] = map[byte]interface{}{'i': 7, 's': "most"}[col.T]
					} else {
						col.V[i] = map[byte]interface{}{'i': c.Int(5) - 1, 's': []interface{}{nil, "x", "y", "z"}[c.Int(4)]}[col.T]
					}
				}
			}
		}
		if hasIndicators(s) {
			c.Abandon("indicator-like name")
		}
		mk := frame(s)
		for trial := 0; take(mk(1)).N == 0; trial++ {
			mk = frame(s)
		}
		// with views the majority may be lost: only whole frames
		whole := true
		for _, col := range take(mk(1)).Cols {
			if col.T == 'i' || col.T == 's' {
				m := map[interface{}]int{}
				for _, v := range col.V {
					m[v]++
				}
				whole = whole && (m[7]+m["most"])*2 > len(col.V)
			}
		}
		if !whole {
			c.Abandon("no clear majority")
		}
		opt := preprocessing.AutoPreprocOptions{Imputing: c.P(0.5), Scaling: c.P(0.5)}
		op = func(cpu int) outcome {
			p := preprocessing.NewAutoPreprocessor(opt)
			df := mk(cpu)
			var r *DF
			if c.Idx%2 == 0 {
				r = p.FitTransform(df)
			} else {
				if err := p.Fit(df); err != nil {
					return outcome{err: true}
				}
				var err error
				if r, err = p.TransformView(df); err != nil {
					return outcome{err: true}
				}
			}
			var fresh []string
			if p.IntToBool != nil {
				fresh = p.IntToBool.NewColumns
			}
			rest, text := anonymous(take(r), fresh)
			return outcome{snap: &rest, text: text}
		}
	case 7:
		what = "FromCSV"
		k := c.genCSV()
		items = len(k.names)
		op = func(cpu int) outcome {
			o := k.spec
			o.MaxCPU = cpu
			raw, err := dataframe.FromCSV(strings.NewReader(k.text), o)
			if err != nil {
				return outcome{err: true}
			}
			return snapOut(raw.ToDataFrame(), nil)
		}
	case 8:
		what = "FromCSVFilePattern"
		nf := c.Pick(0, 1, 2, 2, 3, 4, 5, 7, 8, 9, 12, 14)
		items = nf
		dir := c.TempDir()
		nc := c.Range(1, 5)
		bad := -1
		badHow := c.Int(4)
		if nf > 0 && c.P(0.25) {
			bad = c.Int(nf)
		}
		total := 0
		all := Snap{}
		for j := 0; j < nc; j++ {
			all.Cols = append(all.Cols, Col{fmt.Sprintf("k%d", j), 'i', nil})
		}
		for f := 0; f < nf; f++ {
			var b bytes.Buffer
			perm := c.R.Perm(nc)
			for j, p := range perm {
				if j > 0 {
					b.WriteByte(',')
				}
				fmt.Fprintf(&b, "k%d", p)
			}
			b.WriteByte('\n')
			nr := c.Pick(1, 2, 5, 30)
			for i := 0; i < nr; i++ {
				for j, p := range perm {
					if j > 0 {
						b.WriteByte(',')
					}
					v := total*10 + p + 5
					fmt.Fprintf(&b, "%d", v)
					all.Cols[p].V = append(all.Cols[p].V, v)
				}
				b.WriteByte('\n')
				total++
			}
			if f == bad {
				switch badHow {
				case 0:
					b.WriteString("1,2,3,4,5,6,7,8,9\n")
				case 1:
					b.WriteString("\"unterminated\n")
				case 2:
					b.Reset()
					b.WriteString("other\n1\n")
				case 3:
					os.Symlink(filepath.Join(dir, "nowhere"), filepath.Join(dir, "f_dangling.csv"))
				}
			}
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("f%02d.csv", f)), b.Bytes(), 0o644)
		}
		all.N = total
		op = func(cpu int) outcome {
			raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "f*.csv"), dataframe.CSVReadingSpec{MaxCPU: cpu})
			if err != nil {
				return outcome{err: true}
			}
			if raw == nil {
				return outcome{text: "nothing"}
			}
			o := snapOut(raw.ToDataFrame(), nil)
			o.multi = true
			return o
		}
		if bad < 0 && nf > 0 {
			columnwise = func([]string) outcome { return outcome{snap: &all, multi: true} }
		}
	case 9:
		what = "ToCSVs"
		s := c.genSnap(GenOpt{CSVText: true, Types: "fibs", MaxRows: 60, MinCols: 1})
		mk := frame(s)
		nw := c.Pick(1, 2, 3, 4, 5, 8, 12, 20)
		items = nw
		spec := dataframe.CSVWritingSpec{MaintainOrder: true}
		broken := -1
		if c.P(0.25) {
			broken = c.Int(nw)
		}
		op = func(cpu int) outcome {
			bufs := make([]*pausing, nw)
			ws := make([]io.Writer, nw)
			for i := range ws {
				bufs[i] = &pausing{broken: i == broken}
				ws[i] = bufs[i]
			}
			err := mk(cpu).ToCSVs(ws, spec)
			if err != nil {
				return outcome{err: true}
			}
			var texts []string
			for _, b := range bufs {
				texts = append(texts, b.buf.String())
			}
			return outcome{text: recordsText(texts)}
		}
	case 10:
		what = "ToCSVDir"
		s := c.genSnap(GenOpt{CSVText: true, Types: "fibs", MaxRows: 60, MinCols: 1})
		mk := frame(s)
		spec := dataframe.CSVWritingSpec{MaintainOrder: true, MinRowsPerFile: c.Pick(1, 2, 5, 20)}
		op = func(cpu int) outcome {
			dir := c.TempDir()
			paths, err := mk(cpu).ToCSVDir(spec, filepath.Join(dir, "x"))
			if err != nil {
				return outcome{err: true}
			}
			var texts []string
			for _, p := range paths {
				b, err := os.ReadFile(p)
				if err != nil {
					return outcome{err: true}
				}
				texts = append(texts, string(b))
			}
			return outcome{text: recordsText(texts)}
		}
	}
	c.Log("%s on %d columns or files, %d rows", what, items, rows)
	if items >= 2 {
		c.NonTrivial()
	}
	rec := &recorder{}
	recording := c.P(0.3)
	if recording {
		setHook(rec.hook)
	} else {
		setHook(func(string, string) { jitter() })
	}
	defer setHook(nil)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	before := runtime.NumGoroutine()
	runtime.GOMAXPROCS(1)
	ref := op(1)
	c.settled(before, what+" with one CPU")
	for _, cpu := range c.cpus() {
		runtime.GOMAXPROCS(c.Pick(1, 2, 4, 8))
		rec.mu.Lock()
		rec.seq = nil
		rec.mu.Unlock()
		got := op(cpu)
		c.settled(before, fmt.Sprintf("%s with MaxCPU=%d", what, cpu))
		c.sameOut(fmt.Sprintf("%s on %d items with MaxCPU=%d", what, items, cpu), got, ref)
		if recording {
			c.observed(rec)
		}
		c.Ev(what)
	}
	if columnwise != nil {
		setHook(nil)
		c.sameOut(what+" compared with each column or file alone", ref, columnwise(nil))
		c.Ev("compared-with-items-alone")
	}
}

func colOf(s Snap, name string) *Col {
	if col := s.col(name); col != nil {
		return col
	}
	return &Col{Name: name, T: '?'}
}

// pausing is a writer that takes its time, and may fail.
type pausing struct {
	buf    bytes.Buffer
	broken bool
}

func (p *pausing) Write(b []byte) (int, error) {
	jitter()
	if p.broken {
		return 0, errors.New("broken writer")
	}
	return p.buf.Write(b)
}

// recordsText joins the records of several outputs, without their headers.
func recordsText(texts []string) string {
	var b strings.Builder
	for k, t := range texts {
		recs, err := csv.NewReader(strings.NewReader(t)).ReadAll()
		if err != nil || len(recs) == 0 {
			return fmt.Sprintf("output %d is unreadable: %v", k, err)
		}
		// columns of one type come in any order
		order := seq(len(recs[0]))
		sort.Slice(order, func(i, j int) bool { return recs[0][order[i]] < recs[0][order[j]] })
		for _, r := range recs[1:] {
			for _, i := range order {
				fmt.Fprintf(&b, "%q,", r[i])
			}
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// ---- C18 ----

// lone is a source of randomness and failures for one goroutine.
func (c *Ctx) fork(seed int64) *Ctx {
	return &Ctx{R: rand.New(rand.NewSource(seed)), Prop: c.Prop, Tier: c.Tier, Seed: c.Seed, Idx: c.Idx, events: map[string]int{}, Scratch: c.Scratch, knownSet: c.knownSet}
}

// objects are trained objects shared by the goroutines.
type trained struct {
	imp  *preprocessing.FloatImputer
	sc   *preprocessing.Scaler
	oh   *preprocessing.OneHotEncoder
	he   *preprocessing.HashEncoder
	auto *preprocessing.AutoPreprocessor
	reg  *algorithms.LinearRegressor
}

func (c *Ctx) train(df *DF) *trained {
	t := &trained{}
	t.imp = preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{})
	t.imp.Fit(df)
	t.sc = preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: c.P(0.3), Centering: true, Scaling: true})
	t.sc.Fit(df)
	t.oh = preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory, KeepUsedColumns: c.P(0.3)})
	t.oh.Fit(df)
	t.he = preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
	t.he.Fit(df)
	t.auto = preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: c.P(0.7), Scaling: c.P(0.7)})
	t.auto.Fit(df)
	names := append(df.FloatHeader().NameList(), df.BoolHeader().NameList()...)
	sort.Strings(names)
	weights := make([]float64, len(names))
	for i := range weights {
		weights[i] = float64(i) - 1.5
	}
	t.reg, _, _ = c.regressor(names, weights)
	return t
}

func (t *trained) twin(c *Ctx) *trained {
	o := &trained{imp: new(preprocessing.FloatImputer), sc: new(preprocessing.Scaler), oh: new(preprocessing.OneHotEncoder),
		he: new(preprocessing.HashEncoder), auto: new(preprocessing.AutoPreprocessor), reg: new(algorithms.LinearRegressor)}
	c.throughJSON("imputer", t.imp, o.imp)
	c.throughJSON("scaler", t.sc, o.sc)
	c.throughJSON("one-hot encoder", t.oh, o.oh)
	c.throughJSON("hash encoder", t.he, o.he)
	c.throughJSON("automatic preprocessor", t.auto, o.auto)
	c.throughJSON("regressor", t.reg, o.reg)
	return o
}

func snapText(df *DF) string { s := take(df); return snapString(s) }

func snapString(s Snap) string {
	return fmt.Sprintf("%s\n%s", s.schema(), strings.Join(s.rowKeys(), "\n"))
}

func multisetText(df *DF) string {
	s := take(df)
	k := s.rowKeys()
	sort.Strings(k)
	return fmt.Sprintf("%s\n%s", s.schema(), strings.Join(k, "\n"))
}

// sharedOp runs one random operation on a shared frame and returns its result as text.
func (c *Ctx) sharedOp(df *DF, t *trained, safeMask bool) (name, text string) {
	n := df.NumRows()
	names := func(h dataframe.ColumnHeader) []string { l := h.NameList(); sort.Strings(l); return l }
	all := names(df.Header())
	floats, ints, bools, strs := names(df.FloatHeader()), names(df.IntHeader()), names(df.BoolHeader()), names(df.StringHeader())
	one := func(l []string) string { return l[c.Int(len(l))] }
	switch c.Int(32) {
	case 0:
		return "read", snapText(df)
	case 1, 31:
		idx := c.randIdx(n)
		if n > 0 && c.P(0.3) { // a few rows more than there are
			idx = seq(n)
			for k := 1 + c.Int(4); k > 0; k-- {
				idx = append(idx, c.Int(n))
			}
		}
		return "IndexView", snapText(df.IndexView(idx))
	case 2:
		from, to, _ := c.sliceArgs(n)
		return "SliceView", snapText(df.SliceView(from, to))
	case 3, 4:
		mask := make([]bool, n)
		if safeMask {
			if c.P(0.5) {
				mask = df.EmptyMask()
			} else {
				mask = df.ZeroMask()
			}
		}
		for i := range mask {
			mask[i] = c.P(0.5)
		}
		jitter()
		return "MaskView", snapText(df.MaskView(mask))
	case 5:
		return "ReverseView", snapText(df.ReverseView())
	case 6:
		return "ResetIndexView", multisetText(df.ResetIndexView())
	case 7:
		if len(all) > 0 {
			return "ColumnView", snapText(df.ColumnView(c.subset(all, 1)...))
		}
	case 8:
		if len(floats) > 0 {
			v := df.SortedView(one(floats))
			return "SortedView", multisetText(v)
		}
	case 9:
		if len(ints) > 0 {
			return "TopView", fmt.Sprint(df.TopView(one(ints), c.Int(n+2), c.P(0.5), c.P(0.5)).NumRows())
		}
	case 10:
		var b strings.Builder
		for _, p := range df.SplitView(1 + c.Int(n+1)) {
			b.WriteString(snapText(p))
		}
		return "SplitView", b.String()
	case 11:
		var b strings.Builder
		for _, p := range df.SplitNView(1 + c.Int(4)) {
			b.WriteString(snapText(p))
		}
		x, y := df.SplitTrainTestViews(0.3)
		return "SplitNView", b.String() + snapText(x) + snapText(y)
	case 12:
		return "ShuffleView", multisetText(df.ShuffleView())
	case 13:
		return "SampleView", fmt.Sprint(df.SampleView(c.Int(n+1), false).NumRows())
	case 14:
		d := df.Copy()
		c.scribbleOwn(d)
		return "Copy and write", snapText(d)
	case 15:
		var d *DF
		if len(all) > 0 && c.P(0.5) {
			sub := c.subset(all, 1)
			d = df.DetachedView(sub...)
			c.scribbleOwn(d.ColumnView(sub...))
		} else {
			d = df.DetachedView()
			c.scribbleOwn(d)
		}
		return "DetachedView and write", snapText(d)
	case 16:
		d := df.ShallowCopy()
		if len(all) > 0 {
			d.Drop(one(all))
		}
		d.AllocFloats("new float")
		d.AllocStrings("new string")
		return "ShallowCopy and edit", snapText(d)
	case 17, 18: // structural edits of one's own view
		d := df.View()
		if c.P(0.5) {
			d, _ = d.SplitTrainTestViews(0.2)
		}
		for k := 0; k < 4; k++ {
			have := names(d.Header())
			switch c.Int(7) {
			case 0:
				if len(have) > 0 {
					d.Rename(one(have), fmt.Sprintf("renamed%d", k))
				}
			case 1:
				if len(have) > 1 {
					d.Drop(one(have))
				}
			case 2:
				d.AllocInts(fmt.Sprintf("alloc%d", k))
			case 3:
				if l := names(d.IntHeader()); len(l) > 0 {
					d.IntToFloats(one(l))
				}
			case 4:
				if l := names(d.BoolHeader()); len(l) > 0 {
					d.BoolToFloats(one(l))
				}
			case 5:
				d.OverwriteFloats64(fmt.Sprintf("written%d", k), make([]float64, d.NumRows()))
			case 6:
				if len(have) > 0 {
					d.Unshare(one(have))
				}
			}
			jitter()
		}
		return "View and edit", snapText(d)
	case 19:
		if len(strs) > 0 {
			return "HashStringsView", snapText(df.HashStringsView(c.subset(strs, 1)...))
		}
	case 20:
		if len(all) > 1 {
			k := 1 + c.Int(len(all)-1)
			f := []func(...*DF) (*DF, error){dataframe.ColumnConcatView, dataframe.ColumnCopyConcat, dataframe.ColumnSmartConcat}[c.Int(3)]
			r, err := f(df.ColumnView(all[:k]...), df.ColumnView(all[k:]...))
			if err != nil {
				return "column concatenation", "error"
			}
			return "column concatenation", snapText(r)
		}
	case 21:
		r, err := dataframe.RowConcat(df, df.ReverseView(), df)
		if err != nil {
			return "RowConcat", "error"
		}
		return "RowConcat", snapText(r)
	case 22:
		var b pausing
		df.To1CSV(&b, dataframe.CSVWritingSpec{MaintainOrder: true})
		return "To1CSV", recordsText([]string{b.buf.String()})
	case 23:
		bufs := []*pausing{{}, {}, {}}
		err := df.ToCSVs([]io.Writer{bufs[0], bufs[1], bufs[2]}, dataframe.CSVWritingSpec{MaintainOrder: true})
		if err != nil {
			return "ToCSVs", "error"
		}
		return "ToCSVs", recordsText([]string{bufs[0].buf.String(), bufs[1].buf.String(), bufs[2].buf.String()})
	case 24:
		cols := append(append([]string{}, floats...), bools...)
		if len(cols) > 0 && n > 0 {
			m := dataframe.NewDense64Batching(cols).DenseMatrix(df)
			var b strings.Builder
			for i := 0; i < n; i++ {
				for j := range cols {
					fmt.Fprintf(&b, "%x ", math.Float64bits(m.At(i, j)))
				}
			}
			return "DenseMatrix", b.String()
		}
	case 25:
		cols := append(append([]string{}, floats...), bools...)
		if len(cols) > 0 && n > 0 {
			ite := dataframe.NewFloat32Iterator(df, cols)
			var b strings.Builder
			for row, _, _ := ite.NextRow(); row != nil; row, _, _ = ite.NextRow() {
				for _, v := range row {
					fmt.Fprintf(&b, "%x ", math.Float32bits(v))
				}
			}
			return "Float32Iterator", b.String()
		}
	case 26:
		if len(floats) > 0 {
			x, y := df.Floats(one(floats)), df.Floats(one(floats))
			v := x.VecDense()
			return "vectors and metrics", fmt.Sprintf("%x %x %d", math.Float64bits(algorithms.MSE(x, y)), math.Float64bits(algorithms.MAE(x, y)), v.Len())
		}
	case 27:
		d := df.DetachedView(floats...)
		t.imp.TransformInplace(d)
		t.sc.TransformInplace(d)
		if c.P(0.5) {
			t.sc.InverseTransformInplace(d)
		}
		return "imputer and scaler", snapText(d)
	case 28:
		r, err := t.oh.TransformView(df)
		if err != nil {
			return "one-hot encoder", "error"
		}
		h, err := t.he.TransformView(df)
		if err != nil {
			return "one-hot encoder", "error"
		}
		return "one-hot and hash encoder", snapText(r) + snapText(h)
	case 29:
		r, err := t.auto.TransformView(df)
		if err != nil {
			return "automatic preprocessor", "error"
		}
		return "automatic preprocessor", snapText(r) + strings.Join(sorted(t.auto.TransformedColumns()), "|")
	case 30:
		if len(t.reg.Features) > 0 {
			r, err := t.reg.Predict(df, "predicted")
			if err != nil {
				return "Predict", "error"
			}
			return "Predict", multisetText(r)
		}
	}
	if len(strs) > 0 && c.P(0.5) {
		l, m := df.LabelToInt(one(strs))
		return "LabelToInt", fmt.Sprint(l, len(m))
	}
	if len(all) > 0 {
		return "CopyValuesToInterfaces", fmt.Sprint(len(df.CopyValuesToInterfaces(one(all))))
	}
	return "View", snapText(df.View())
}

func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

// scribbleOwn overwrites a frame the caller owns.
func (c *Ctx) scribbleOwn(df *DF) {
	for i := 0; i < df.NumRows(); i++ {
		for _, name := range sorted(df.FloatHeader().NameList()) {
			df.Floats(name).Set(i, 41)
		}
		for _, name := range sorted(df.IntHeader().NameList()) {
			df.Ints(name).Set(i, 42)
		}
		for _, name := range sorted(df.BoolHeader().NameList()) {
			df.Bools(name).Set(i, true)
		}
		for _, name := range sorted(df.ObjectHeader().NameList()) {
			df.Objects(name).Set(i, "overwritten")
		}
	}
}

type opRecord struct {
	name       string
	text       string
	failed     string
	start, end time.Duration
}

// together runs one function per goroutine, each released at the same time.
func together(fs []func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			<-start
			f()
		}(f)
	}
	close(start)
	wg.Wait()
}

// guarded turns a panic of f into text.
func guarded(f func()) (failed string) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case violation:
				failed = v.Msg
			default:
				failed = fmt.Sprintf("panic: %v", r)
			}
		}
	}()
	f()
	return ""
}

func (c *Ctx) overlaps(recs [][]opRecord) {
	pairs := 0
	for a := range recs {
		for b := a + 1; b < len(recs); b++ {
			for _, x := range recs[a] {
				for _, y := range recs[b] {
					if x.start < y.end && y.start < x.end {
						pairs++
					}
				}
			}
		}
	}
	c.EvN("overlapping-operation-pairs", pairs)
	if pairs > 0 {
		c.NonTrivial()
	}
}

func c18(c *Ctx) {
	if c.P(0.25) {
		c18batches(c)
		return
	}
	seed := c.R.Int63()
	mk := func() (*DF, bool) { // the shared frame, and its identical twin
		d := c.fork(seed)
		rand.Seed(seed)
		n := d.Pick(1, 2, 3, 7, 20, 60, 130)
		s := d.genSnap(GenOpt{MinRows: n, Fixed: true, CSVText: true, MaxCols: 7, MinCols: 1, SmallInts: true, Types: "ffibss", NoInf: true})
		df := d.build(s)
		df.Debug(false)
		safe := d.P(0.5)
		df.ThreadSafeMasking(safe)
		for k := d.Int(4); k > 0; k-- {
			var v *DF
			switch d.Int(9) {
			case 0:
				v = df.View()
			case 4: // put together again
				names := df.Header().NameList()
				sort.Strings(names)
				at := d.Int(len(names) + 1)
				if at == 0 || at == len(names) {
					v = df.View()
					break
				}
				v, _ = []func(...*DF) (*DF, error){dataframe.ColumnConcatView, dataframe.ColumnSmartConcat}[d.Int(2)](df.ColumnView(names[:at]...), df.ColumnView(names[at:]...))
			case 1:
				v = df.DetachedView()
			case 2:
				v = df.ShallowCopy()
			case 3:
				v = df.Copy()
			default:
				v = d.selectRows(df).df
			}
			if v.NumRows() > 0 {
				df = v
			}
		}
		if n := df.NumRows(); d.P(0.25) { // a few rows more than there are
			idx := seq(n)
			for k := 1 + d.Int(4); k > 0; k-- {
				idx = append(idx, d.Int(n))
			}
			df = df.IndexView(idx)
		}
		df.SetMaxCPU(d.Pick(1, 2, 3, 8))
		return df, safe
	}
	df, safe := mk()
	twin, _ := mk()
	s := take(twin)
	if hasIndicators(s) {
		c.Abandon("indicator-like name")
	}
	objs := c.train(func() *DF { d, _ := mk(); return d }())
	alone := objs.twin(c)
	g := c.Pick(2, 3, 4, 6, 10)
	nops := c.Pick(2, 4, 8)
	c.Log("%d goroutines, %d operations each, on %s, safe masking %v, seed %d", g, nops, s.schema(), safe, seed)
	setHook(func(string, string) { jitter() })
	defer setHook(nil)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	runtime.GOMAXPROCS(c.Pick(2, 4, 8))
	before := runtime.NumGoroutine()
	recs := make([][]opRecord, g)
	seeds := make([]int64, g)
	same := c.P(0.3) // all goroutines do the same
	for i := range recs {
		recs[i] = make([]opRecord, nops)
		seeds[i] = c.R.Int63()
		if same {
			seeds[i] = seeds[0]
		}
	}
	t0 := time.Now()
	fs := make([]func(), g)
	for i := range fs {
		my, sd := recs[i], seeds[i]
		d := c.fork(sd)
		fs[i] = func() {
			for k := range my {
				r := &my[k]
				r.start = time.Since(t0)
				r.failed = guarded(func() { r.name, r.text = d.sharedOp(df, objs, safe) })
				r.end = time.Since(t0)
			}
		}
	}
	together(fs)
	runtime.GOMAXPROCS(8)
	c.settled(before, "concurrent use of a frame")
	c.overlaps(recs)
	for i := range recs {
		d := c.fork(seeds[i])
		for k := range recs[i] {
			r := recs[i][k]
			if r.failed != "" {
				c.Failf("goroutine %d operation %d (%s): %s", i, k, r.name, r.failed)
			}
			name, text := d.sharedOp(twin, alone, safe)
			if name != r.name || text != r.text {
				c.Failf("goroutine %d operation %d: %s gives %s, alone %s gives %s", i, k, r.name, clip(r.text), name, clip(text))
			}
			c.Ev("shared " + name)
		}
	}
	c.same("the shared frame afterwards", take(df), s)
	for _, p := range [][2]interface{}{{objs.imp, alone.imp}, {objs.sc, alone.sc}, {objs.oh, alone.oh}, {objs.he, alone.he}, {objs.auto, alone.auto}, {objs.reg, alone.reg}} {
		if a, b := jsonOf(p[0]), jsonOf(p[1]); a != b {
			c.Failf("a trained object changed from %s to %s", clip(b), clip(a))
		}
	}
}

// c18batches: every goroutine writes to its own batches.
func c18batches(c *Ctx) {
	n := c.Pick(1, 2, 5, 20, 64, 150)
	s := c.genSnap(GenOpt{MinRows: n, Fixed: true, MaxCols: 6, MinCols: 1, Types: "ffibsso", SmallInts: true})
	base := c.build(s)
	base.Debug(false)
	base.ThreadSafeMasking(true)
	df := base
	switch c.Int(4) {
	case 0:
		df = base.ReverseView()
	case 1:
		df = base.IndexView(c.R.Perm(n)[:1+c.Int(n)])
	case 2:
		df = base.SliceView(c.Int(n), -1)
	}
	before := take(df)
	if len(before.Cols) == 0 || before.N == 0 {
		c.Abandon("nothing to write")
	}
	var parts []*DF
	if c.P(0.5) {
		parts = df.SplitView(1 + c.Int(imax(1, before.N/2)))
	} else {
		parts = df.SplitNView(c.Pick(2, 3, 5, 9))
	}
	imp := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.One})
	imp.Fit(df)
	sc := preprocessing.NewScaler(preprocessing.ScalerOptions{})
	sc.Fit(df)
	sc.Shift, sc.Scale = map[string]float64{}, map[string]float64{}
	for _, name := range before.names("f") {
		sc.Shift[name], sc.Scale[name] = 3, 2
	}
	g := c.Pick(2, 3, 4, 8)
	how := make([]int, len(parts))
	for i := range how {
		how[i] = c.Int(4)
	}
	c.Log("%d goroutines write to %d batches of %s, how %v", g, len(parts), before.schema(), how)
	setHook(func(string, string) { jitter() })
	defer setHook(nil)
	recs := make([][]opRecord, g)
	t0 := time.Now()
	goroutines := runtime.NumGoroutine()
	fs := make([]func(), g)
	for k := range fs {
		k := k
		fs[k] = func() {
			for j := k; j < len(parts); j += g {
				p := parts[j]
				r := opRecord{start: time.Since(t0)}
				r.failed = guarded(func() {
					switch how[j] {
					case 0:
						for _, name := range before.names("f") {
							for i := 0; i < p.NumRows(); i++ {
								p.Floats(name).Set(i, float64(j))
							}
						}
						for _, name := range before.names("b") {
							for i := 0; i < p.NumRows(); i++ {
								a := p.Bools(name)
								a.Set(i, !a.Get(i))
							}
						}
						for _, name := range before.names("so") {
							for i := 0; i < p.NumRows(); i++ {
								p.Objects(name).Set(i, fmt.Sprint("w", j))
							}
						}
						for _, name := range before.names("i") {
							for i := 0; i < p.NumRows(); i++ {
								p.Ints(name).Set(i, j)
							}
						}
					case 1:
						imp.TransformInplace(p)
					case 2:
						sc.TransformInplace(p)
					case 3: // one's own columns on one's own batch, then a write to the shared ones
						p.AllocFloats("scratch")
						for _, name := range before.names("f") {
							p.OverwriteFloats64(name, make([]float64, p.NumRows()))
						}
						for _, name := range before.names("i") {
							p.OverwriteInts(name, make([]int, p.NumRows()))
						}
					}
				})
				r.end = time.Since(t0)
				recs[k] = append(recs[k], r)
			}
		}
	}
	together(fs)
	c.settled(goroutines, "writing to batches")
	c.overlaps(recs)
	for k := range recs {
		for _, r := range recs[k] {
			if r.failed != "" {
				c.Failf("goroutine %d: %s", k, r.failed)
			}
		}
	}
	want := Snap{N: before.N}
	for _, col := range before.Cols {
		v := cloneVals(col.V)
		lo := 0
		for j, p := range parts {
			for i := lo; i < lo+p.NumRows(); i++ {
				f, isF := v[i].(float64)
				isF = isF && col.T == 'f'
				switch how[j] {
				case 0:
					switch col.T {
					case 'f':
						v[i] = float64(j)
					case 'i':
						v[i] = j
					case 'b':
						v[i] = !v[i].(bool)
					default:
						v[i] = fmt.Sprint("w", j)
					}
				case 1:
					if isF && math.IsNaN(f) {
						v[i] = 1.0
					}
				case 2:
					if isF {
						v[i] = (f + 3) * 2
					}
				case 3:
					if isF {
						v[i] = 0.0
					} else if col.T == 'i' {
						v[i] = 0
					}
				}
			}
			lo += p.NumRows()
		}
		want.Cols = append(want.Cols, Col{col.Name, col.T, v})
	}
	got := take(df)
	if got.schema() != want.schema() {
		c.Failf("after writing to the batches the frame has %s", got.schema())
	}
	for q, col := range want.Cols {
		for i := range col.V {
			x, y := got.Cols[q].V[i], col.V[i]
			fx, ok := x.(float64)
			fy, _ := y.(float64)
			if ok && closeTo(fx, fy, 1e-12, 1e-12) {
				continue
			}
			if !eqv(x, y) {
				c.Failf("after writing to the batches row %d of column %q shows %s instead of %s", i, col.Name, vstr(x), vstr(y))
			}
		}
	}
	c.EvN("batches-written", len(parts))
}
