package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"github.com/rom1mouret/ml-essentials/utils"
)

func init() {
	register(&Prop{ID: "C33", Quick: 15000, Thorough: 3000000, Random: c33, Serial: true,
		Rule:   "a limit (negative, zero, 1 to beyond the number of CPUs) set in every way there is; histories of views, copies, concatenations, preprocessors, predictions and structural edits, every live frame's limit read after each step; multi-threaded operations run with workers held at the queue's observation points until more goroutines than allowed are at work; non-trivial: a limit strictly between 0 and the number of CPUs was inherited, or goroutines were counted under such a limit",
		Assume: []string{"goroutines at work are those between the queue's observation points (build tag verif); without them only the reported limits are judged", "frames that are put together have the same limit", "the number of files read at once is limited by the number of CPUs only if no positive limit is given"}})
}

func effectiveCPU(n int) int {
	if n <= 0 || n > runtime.NumCPU() {
		return runtime.NumCPU()
	}
	return n
}

func (c *Ctx) cpuLimit() int {
	k := runtime.NumCPU()
	return []int{-7, -1, 0, 1, 2, 3, 4, 5, k - 1, k, k + 1, 100, c.Range(1, k), c.Range(1, k)}[c.Int(14)]
}

func (c *Ctx) cpuIs(what string, df *DF, want int) {
	if got := df.ActualMaxCPU(); got != want {
		c.Failf("%s: at most %d CPUs instead of %d", what, got, want)
	}
	c.Ev("limits-read")
	if want < runtime.NumCPU() {
		c.Ev("partial-limits-read")
		c.NonTrivial()
	}
}

func (c *Ctx) rawCPUIs(what string, raw *dataframe.RawData, want int) {
	c.cpuIs(what, &DF{RawData: *raw}, want)
}

func c33(c *Ctx) {
	switch c.Int(10) {
	case 0, 1:
		c33origin(c)
	case 2, 3, 4, 5:
		c33inherit(c)
	case 6:
		c33queue(c)
	default:
		c33workers(c)
	}
}

// c33origin: where limits come from.
func c33origin(c *Ctx) {
	n := c.cpuLimit()
	want := effectiveCPU(n)
	c.Log("limit %d", n)
	all := runtime.NumCPU()
	switch c.Int(5) {
	case 0:
		raw := dataframe.NewRawData()
		c.rawCPUIs("NewRawData()", raw, all)
		for k := c.Int(3); k >= 0; k-- {
			raw.SetMaxCPU(n)
			c.rawCPUIs(fmt.Sprintf("SetMaxCPU(%d)", n), raw, want)
			if k > 0 {
				n = c.cpuLimit()
				want = effectiveCPU(n)
			}
		}
		raw.SetMaxCPU(n)
		b := dataframe.DataBuilder{RawData: raw}
		b.AddFloats("x", 1, 2).AddInts("i", 1, 2).AddStrings("s", "a", "b").AddBools("b", true, false).AddObjects("o", nil, nil)
		want = effectiveCPU(n)
		c.rawCPUIs("RawData with data", raw, want)
		df := b.ToDataFrame()
		c.cpuIs("DataBuilder.ToDataFrame()", df, want)
		m := c.cpuLimit()
		df.SetMaxCPU(m)
		c.cpuIs(fmt.Sprintf("SetMaxCPU(%d) on the frame", m), df, effectiveCPU(m))
	case 1:
		rows := c.Pick(-1, 0, 1, 5)
		df := dataframe.EmptyDataFrame(rows, n)
		c.cpuIs(fmt.Sprintf("EmptyDataFrame(%d,%d)", rows, n), df, want)
	case 2:
		nc, nr := c.Range(1, 6), c.Range(0, 4)
		text := csvOf(nc, nr, 0)
		raw, err := dataframe.FromCSV(strings.NewReader(text), dataframe.CSVReadingSpec{MaxCPU: n})
		if err != nil {
			c.Abandon("CSV error")
		}
		c.rawCPUIs(fmt.Sprintf("FromCSV with MaxCPU %d", n), raw, want)
		c.cpuIs(fmt.Sprintf("FromCSV with MaxCPU %d, as a frame", n), raw.ToDataFrame(), want)
	case 3:
		dir := c.TempDir()
		nf, nc := c.Range(1, 4), c.Range(1, 4)
		for f := 0; f < nf; f++ {
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d.csv", f)), []byte(csvOf(nc, c.Range(1, 3), f)), 0o644)
		}
		var raw *dataframe.RawData
		var err error
		what := "FromCSVFile"
		if c.P(0.4) {
			raw, err = dataframe.FromCSVFile(filepath.Join(dir, "0.csv"), dataframe.CSVReadingSpec{MaxCPU: n})
		} else {
			what = fmt.Sprintf("FromCSVFilePattern (%d files)", nf)
			raw, err = dataframe.FromCSVFilePattern(filepath.Join(dir, "*.csv"), dataframe.CSVReadingSpec{MaxCPU: n})
		}
		if err != nil {
			c.Abandon("CSV error")
		}
		c.rawCPUIs(fmt.Sprintf("%s with MaxCPU %d", what, n), raw, want)
		c.cpuIs(what+", as a frame", raw.ToDataFrame(), want)
	case 4: // merges of data with one limit
		var list []*dataframe.RawData
		for k := c.Range(1, 3); k > 0; k-- {
			raw := dataframe.NewRawData()
			raw.SetMaxCPU(n)
			list = append(list, raw)
		}
		rowwise := c.P(0.5)
		for k, raw := range list {
			name := "x"
			if !rowwise {
				name = fmt.Sprintf("x%d", k)
				if c.P(0.15) {
					continue // no column at all
				}
			}
			dataframe.DataBuilder{RawData: raw}.AddFloats(name, 1, 2)
		}
		var r *dataframe.RawData
		what := "MergeRawDataColumns"
		if rowwise {
			what = "MergeRawDataRows"
			r = dataframe.MergeRawDataRows(list)
		} else {
			r = dataframe.MergeRawDataColumns(list)
		}
		c.rawCPUIs(fmt.Sprintf("%s of %d with limit %d", what, len(list), n), r, want)
		for _, raw := range list {
			c.rawCPUIs("argument of "+what, raw, want)
		}
		if c.P(0.5) {
			r.SetMaxCPU(1)
			for _, raw := range list {
				c.rawCPUIs("argument of "+what+" after SetMaxCPU on the result", raw, want)
			}
		}
	}
}

func csvOf(nc, nr, salt int) string {
	var b bytes.Buffer
	for i := -1; i < nr; i++ {
		for j := 0; j < nc; j++ {
			if j > 0 {
				b.WriteByte(',')
			}
			if i < 0 {
				fmt.Fprintf(&b, "c%d", j)
			} else {
				fmt.Fprintf(&b, "%d", 5+i*3+j+salt)
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// c33more derives a frame from f, and possibly the other live frames of the same limit and size.
func c33more(c *Ctx, f *sframe) (string, []*DF) {
	df, s := f.df, f.snap
	all := s.names("fibso")
	nums := s.names("fib")
	one := func(name string, r *DF, err error) (string, []*DF) {
		if err != nil {
			return "", nil
		}
		return name, []*DF{r}
	}
	parts := func() (list []*DF) { // the columns spread over frames
		p := c.R.Perm(len(all))
		for len(p) > 0 {
			k := 1 + c.Int(len(p))
			var names []string
			for _, j := range p[:k] {
				names = append(names, all[j])
			}
			list = append(list, df.ColumnView(names...))
			p = p[k:]
		}
		return
	}
	switch c.Int(14) {
	case 0:
		return one("Copy()", df.Copy(), nil)
	case 1:
		return one("ReverseView()", df.ReverseView(), nil)
	case 2:
		return one("ShuffleView()", df.ShuffleView(), nil)
	case 3:
		if s.N > 0 {
			k := c.Range(0, s.N)
			return one(fmt.Sprintf("SampleView(%d)", k), df.SampleView(k, false), nil)
		}
	case 4:
		if len(nums) > 0 {
			return one("SortedView()", df.SortedView(nums[c.Int(len(nums))]), nil)
		}
	case 5:
		return "SplitView()", df.SplitView(c.Range(1, s.N+2))
	case 6:
		return "SplitNView()", df.SplitNView(c.Range(1, 5))
	case 7:
		a, b := df.SplitTrainTestViews(0.3)
		return "SplitTrainTestViews()", []*DF{a, b}
	case 8:
		if list := parts(); list != nil {
			r, err := dataframe.ColumnConcatView(list...)
			return one(fmt.Sprintf("ColumnConcatView(%d frames)", len(list)), r, err)
		}
	case 9:
		if list := parts(); list != nil {
			r, err := dataframe.ColumnSmartConcat(list...)
			return one(fmt.Sprintf("ColumnSmartConcat(%d frames)", len(list)), r, err)
		}
	case 10:
		if list := parts(); list != nil {
			r, err := dataframe.ColumnCopyConcat(list...)
			return one(fmt.Sprintf("ColumnCopyConcat(%d frames)", len(list)), r, err)
		}
	case 11:
		list := []*DF{df, df.ReverseView(), df.Copy(), df, df.View()}[:c.Range(1, 5)]
		c.R.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		r, err := dataframe.RowConcat(list...)
		return one(fmt.Sprintf("RowConcat(%d frames)", len(list)), r, err)
	case 12:
		return one("ResetIndexView()", df.ResetIndexView(), nil)
	case 13:
		return one("MaskView()", df.MaskView(make([]bool, s.N)), nil)
	}
	return "", nil
}

// c33inherit: every derived frame has the limit its source had when it was derived.
func c33inherit(c *Ctx) {
	type lim struct {
		f   *sframe
		cpu int
	}
	s := c.genSnap(GenOpt{MaxRows: 40, MinCols: 1, PlainNames: true, SmallInts: true, Finite: true})
	f := &sframe{name: "f0", df: c.build(s), snap: s}
	live := []*lim{}
	n := c.cpuLimit()
	f.df.SetMaxCPU(n)
	live = append(live, &lim{f, effectiveCPU(n)})
	c.Log("%s; limit %d", s.schema(), n)
	check := func(after string) {
		for _, l := range live {
			c.cpuIs(l.f.name+" after "+after, l.f.df, l.cpu)
		}
	}
	check("building")
	for step := c.Range(2, 12); step > 0; step-- {
		l := live[c.Int(len(live))]
		l.f.snap = take(l.f.df)
		what := ""
		switch k := c.Int(10); {
		case k < 3:
			name, df := c07derive(c, l.f)
			if name == "" {
				continue
			}
			what = fmt.Sprintf("%s.%s", l.f.name, name)
			c.cpuIs(what, df, l.cpu)
			live = append(live, &lim{&sframe{name: fmt.Sprintf("f%d", len(live)), df: df}, l.cpu})
		case k < 7:
			name, dfs := c33more(c, l.f)
			if name == "" {
				continue
			}
			what = fmt.Sprintf("%s.%s", l.f.name, name)
			for _, df := range dfs {
				c.cpuIs(what, df, l.cpu)
			}
			if len(dfs) > 0 {
				live = append(live, &lim{&sframe{name: fmt.Sprintf("f%d", len(live)), df: dfs[c.Int(len(dfs))]}, l.cpu})
			}
		case k < 9:
			n := c.cpuLimit()
			l.f.df.SetMaxCPU(n)
			l.cpu = effectiveCPU(n)
			what = fmt.Sprintf("%s.SetMaxCPU(%d)", l.f.name, n)
		default:
			e := c07edit(c, l.f)
			if e == "" {
				continue
			}
			what = l.f.name + "." + e
		}
		c.Log("%s", what)
		check(what)
	}
}

// c33queue: the queue of a frame's columns.
func c33queue(c *Ctx) {
	df := dataframe.EmptyDataFrame(c.Pick(-1, 0, 3), -1)
	n := c.cpuLimit()
	df.SetMaxCPU(n)
	limit := effectiveCPU(n)
	nc := c.Pick(0, 1, 2, 3, 5, 8, 9, 20, 60, 65, 130, 300, 1100)
	keys := make([]string, nc)
	for i := range keys {
		keys[i] = fmt.Sprintf("%c%d", "ab"[c.Int(2)], i)
		if c.P(0.05) {
			keys[i] = ""
		}
	}
	given := append([]string{}, keys...)
	c.Log("%d keys, limit %d", nc, n)
	q := df.CreateColumnQueue(keys)
	if q.Workers > limit || q.Workers < 1 {
		c.Failf("queue with %d workers under a limit of %d", q.Workers, limit)
	}
	if q.NumJobs != nc {
		c.Failf("queue of %d jobs for %d columns", q.NumJobs, nc)
	}
	var mu sync.Mutex
	seen := map[string]int{}
	work := q.Workers
	if c.P(0.3) {
		work = 1
	}
	for w := 0; w < work; w++ {
		go func() {
			for key, more := q.Next(); more; key, more = q.Next() {
				mu.Lock()
				seen[key]++
				mu.Unlock()
				j := jobOf(key)
				q.Notify(j)
			}
		}()
	}
	if c.P(0.5) {
		q.Wait()
	} else {
		got := map[string]int{}
		for _, r := range q.Results() {
			got[r.Key]++
			if r.Result != "done "+r.Key || (r.Error != nil) != strings.HasPrefix(r.Key, "a") {
				c.Failf("job %q has result %v, error %v", r.Key, r.Result, r.Error)
			}
		}
		for _, k := range keys {
			got[k]--
		}
		for k, v := range got {
			if v != 0 {
				c.Failf("%+d results for job %q", v, k)
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	for _, k := range given {
		seen[k]--
	}
	for k, v := range seen {
		if v != 0 {
			c.Failf("column %q handed out %+d times too often", k, v)
		}
	}
	if fmt.Sprint(keys) != fmt.Sprint(given) {
		c.Failf("the column list %q became %q", given, keys)
	}
	c.EvN("jobs-delivered", nc)
	if nc > 1 {
		c.NonTrivial()
	}
}

// crowd counts the goroutines with a job in progress; it holds whoever picks a job
// until more than the limit are at it, or for a moment. (A goroutine may report its
// jobs late, or from another goroutine, so jobs themselves cannot be counted.)
type crowd struct {
	mu     sync.Mutex
	limit  int
	jobs   map[string]int // by goroutine
	peak   int
	events int
	full   chan struct{}
	hold   time.Duration
}

func goroutineID() string {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	if len(f) < 2 {
		return ""
	}
	return f[1]
}

func (w *crowd) hook(point, key string) {
	id := goroutineID()
	w.mu.Lock()
	w.events++
	if point != "next" {
		if w.jobs[id]--; w.jobs[id] <= 0 {
			delete(w.jobs, id)
		}
		w.mu.Unlock()
		return
	}
	w.jobs[id]++
	if len(w.jobs) > w.peak {
		w.peak = len(w.jobs)
		if w.peak == w.limit+1 {
			close(w.full)
		}
	}
	w.mu.Unlock()
	t := time.NewTimer(w.hold)
	select {
	case <-w.full:
	case <-t.C:
	}
	t.Stop()
}

func c33workers(c *Ctx) {
	n := c.cpuLimit()
	if c.P(0.7) {
		n = c.Range(1, imax(1, runtime.NumCPU()-1))
	}
	limit := effectiveCPU(n)
	nc := c.Pick(2, 3, 5, 8, 9, 11)
	rows := c.Pick(3, 8, 40)
	wide := c.P(0.03)
	if wide {
		nc, rows = c.Pick(65, 129, 300), 3
	}
	mkFrame := func(types string) *DF {
		b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		for k := 0; k < nc; k++ {
			name := fmt.Sprintf("c%d", k)
			switch types[k%len(types)] {
			case 'f':
				v := make([]float64, rows)
				for i := range v {
					v[i] = float64(c.Int(50))
				}
				b.SetFloats(name, v)
			case 'i':
				v := make([]int, rows)
				for i := range v {
					v[i] = c.Int(3)
				}
				b.SetInts(name, v)
			case 's':
				v := make([]string, rows)
				for i := range v {
					v[i] = []string{"x", "y", "z"}[c.Int(3)]
				}
				b.AddStrings(name, v...)
			}
		}
		df := b.ToDataFrame()
		df.SetMaxCPU(n)
		if c.P(0.6) { // the limit travels with the views
			df = c.chain(df, 3)
		}
		return df
	}
	var run func()
	what := ""
	none := func(err error) {
		if err != nil {
			c.Ev("operations-with-error")
		}
	}
	bound := limit
	switch c.Int(9) {
	case 0:
		what = "HashStringsView"
		df := mkFrame("s")
		run = func() { df.HashStringsView(df.StringHeader().NameList()...) }
	case 1:
		what = "HashEncoder"
		df := mkFrame("sf")
		run = func() {
			e := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
			none(e.Fit(df))
			_, err := e.TransformView(df)
			none(err)
		}
	case 2:
		what = "FloatImputer"
		df := mkFrame("f")
		run = func() {
			e := preprocessing.NewFloatImputer(preprocessing.FloatImputerOptions{Policy: preprocessing.ImputingPolicy(c.Int(3))})
			none(e.Fit(df))
			none(e.TransformInplace(df))
		}
	case 3:
		what = "Scaler"
		df := mkFrame("f")
		run = func() {
			e := preprocessing.NewScaler(preprocessing.ScalerOptions{MinMax: c.P(0.3), Centering: c.P(0.6), Scaling: c.P(0.6)})
			none(e.Fit(df))
			none(e.TransformInplace(df))
			none(e.InverseTransformInplace(df))
		}
	case 4:
		what = "OneHotEncoder"
		df := mkFrame("if")
		run = func() {
			e := preprocessing.NewOneHotEncoder(preprocessing.OneHotOptions{MissingPolicy: preprocessing.SeparateCategory, UnknownPolicy: preprocessing.SeparateCategory})
			if err := e.Fit(df); err != nil {
				none(err)
				return
			}
			_, err := e.TransformView(df)
			none(err)
		}
	case 5:
		what = "AutoPreprocessor and LinearRegressor"
		df := mkFrame("fis")
		if df.NumRows() == 0 {
			c.Abandon("no row")
		}
		run = func() {
			p := preprocessing.NewAutoPreprocessor(preprocessing.AutoPreprocOptions{Imputing: true, Scaling: true})
			r := p.FitTransform(df)
			reg := algorithms.NewLinearRegressor()
			if f := df.FloatHeader().NameList(); len(f) > 0 && r.NumRows() > 1 {
				none(reg.Fit(r, f[0], algorithms.LinRegTrainParams{Epochs: 1, LR: 1e-3, BatchSize: 8}))
			}
		}
	case 6:
		what = "FromCSV"
		text := csvOf(nc, rows, 0)
		run = func() {
			_, err := dataframe.FromCSV(strings.NewReader(text), dataframe.CSVReadingSpec{MaxCPU: n})
			none(err)
		}
	case 7:
		what = "FromCSVFilePattern"
		if n > 0 {
			bound = imax(n, limit) // the number of files read at once is what the user asked for
		}
		dir := c.TempDir()
		for f := c.Range(2, 11); f > 0; f-- {
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d.csv", f)), []byte(csvOf(nc, 2, f)), 0o644)
		}
		run = func() {
			_, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "*.csv"), dataframe.CSVReadingSpec{MaxCPU: n})
			none(err)
		}
	case 8: // each file is written by a goroutine of its own
		what = "ToCSVDir"
		df := mkFrame("fib")
		dir := c.TempDir()
		run = func() {
			paths, err := df.ToCSVDir(dataframe.CSVWritingSpec{MinRowsPerFile: c.Pick(1, 2, 5, 0), MaintainOrder: c.P(0.5)}, filepath.Join(dir, "w"))
			none(err)
			if len(paths) < 1 || len(paths) > bound {
				c.Failf("ToCSVDir writes %d files at once under a limit of %d", len(paths), bound)
			}
			c.EvN("files-written", len(paths))
		}
	}
	c.Log("%s with %d columns, %d rows, limit %d", what, nc, rows, n)
	w := &crowd{limit: bound, jobs: map[string]int{}, full: make(chan struct{}), hold: time.Duration(100+c.Int(900)) * time.Microsecond}
	if wide {
		w.hold = 100 * time.Microsecond
	}
	before := runtime.NumGoroutine()
	setHook(w.hook)
	func() {
		defer setHook(nil)
		run()
	}()
	c.settled(before, what)
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.peak > bound {
		c.Failf("%s has %d goroutines at work under a limit of %d", what, w.peak, bound)
	}
	c.EvN("queue-events", w.events)
	if w.events > 0 {
		c.Ev("operations-counted")
		if w.peak == bound {
			c.Ev("operations-that-used-the-whole-limit")
		}
		if bound < runtime.NumCPU() {
			c.NonTrivial()
		}
	}
}

func jobOf(key string) utils.ProcessedJob {
	j := utils.ProcessedJob{Key: key, Result: "done " + key}
	if strings.HasPrefix(key, "a") {
		j.Error = fmt.Errorf("a job may fail")
	}
	return j
}
