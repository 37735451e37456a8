package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
)

func init() {
	register(&Prop{ID: "C38", Quick: 30000, Thorough: 3000000, Random: c38,
		Rule:   "1 to 5 random operations (accesses, views, edits, concatenations, text input and output, files read and written, training, transformations, refusals, injected faults) in an empty working directory; around each one the open file descriptors, goroutines, standard output and error, the standard logger, the directory trees, the process settings and the global random generator are compared (garbage collection is off meanwhile, so that nothing is closed by accident); non-trivial: an operation on a frame with rows or on files",
		Assume: []string{"verbose and debug modes and printing functions are exempt from silence", "finalizers do not count as closing a file"}})
}

// surroundings are everything outside the arguments and results that an operation could touch.
type surroundings struct {
	fds    map[string]string
	procs  int
	cwd    string
	env    string
	stdout *os.File
	stderr *os.File
	logTo  io.Writer
	logFmt int
	logPre string
	umask  int
	seed   int64
	trees  map[string]map[string]string
}

// openFiles returns the open file descriptors of this process and what they refer to.
func openFiles() map[string]string {
	m := map[string]string{}
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return m
	}
	for _, e := range l {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || strings.HasPrefix(t, "anon_inode:") || strings.HasSuffix(t, "/fd") && strings.HasPrefix(t, "/proc/") {
			continue
		}
		m[e.Name()] = t
	}
	return m
}

// tree describes all files under dir.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil || path == dir {
			return nil
		}
		d := fmt.Sprintf("%v %d %v", info.Mode(), info.Size(), info.ModTime().UnixNano())
		if info.Mode().IsRegular() {
			b, _ := os.ReadFile(path)
			d += " " + string(b)
		} else if info.IsDir() {
			d = info.Mode().String() // times change with the files in it
		}
		m[strings.TrimPrefix(path, dir+"/")] = d
		return nil
	})
	return m
}

// capture is the file that receives what is written on the standard streams.
var capture *os.File

func (c *Ctx) captureFile() *os.File {
	if capture == nil {
		f, err := os.OpenFile(filepath.Join(c.Scratch, "captured"), os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND, 0o600)
		if err != nil {
			panic(err)
		}
		capture = f
	}
	return capture
}

// alone runs f and checks that it leaves the world as it was. May tells which files of
// dir may be created or changed.
func (c *Ctx) alone(what string, dirs []string, may func(path string) bool, f func()) {
	out := c.captureFile()
	if err := out.Truncate(0); err != nil {
		panic(err)
	}
	var logged bytes.Buffer
	oldLog := log.Writer()
	log.SetOutput(&logged)
	save := make([]int, 2)
	for i := range save {
		fd, err := syscall.Dup(i + 1)
		if err != nil {
			panic(err)
		}
		syscall.CloseOnExec(fd)
		save[i] = fd
		if err := syscall.Dup2(int(out.Fd()), i+1); err != nil {
			panic(err)
		}
	}
	gc := debug.SetGCPercent(-1)
	restored := false
	restore := func() {
		if restored {
			return
		}
		restored = true
		debug.SetGCPercent(gc)
		for i, fd := range save {
			syscall.Dup2(fd, i+1)
			syscall.Close(fd)
		}
		log.SetOutput(oldLog)
	}
	defer restore()
	goroutines := runtime.NumGoroutine()
	w := surroundings{procs: runtime.GOMAXPROCS(0), env: strings.Join(os.Environ(), "\n"), stdout: os.Stdout, stderr: os.Stderr,
		logTo: log.Writer(), logFmt: log.Flags(), logPre: log.Prefix(), seed: c.R.Int63(), trees: map[string]map[string]string{}}
	w.cwd, _ = os.Getwd()
	w.umask = syscall.Umask(0o22)
	syscall.Umask(w.umask)
	for _, d := range dirs {
		w.trees[d] = tree(d)
	}
	w.fds = openFiles()
	rand.Seed(w.seed)

	f()

	c.settled(goroutines, what)
	draw := rand.Int63()
	fds := openFiles()
	if got := runtime.GOMAXPROCS(0); got != w.procs {
		runtime.GOMAXPROCS(w.procs)
		c.Failf("%s changes GOMAXPROCS from %d to %d", what, w.procs, got)
	}
	if log.Writer() != w.logTo || log.Flags() != w.logFmt || log.Prefix() != w.logPre {
		log.SetFlags(w.logFmt)
		log.SetPrefix(w.logPre)
		c.Failf("%s changes the settings of the standard logger", what)
	}
	if logged.Len() > 0 {
		c.Failf("%s logs %q though neither verbose nor debugged", what, clip(logged.String()))
	}
	if os.Stdout != w.stdout || os.Stderr != w.stderr {
		os.Stdout, os.Stderr = w.stdout, w.stderr
		c.Failf("%s replaces the standard streams", what)
	}
	if st, err := out.Stat(); err != nil || st.Size() > 0 {
		b, _ := os.ReadFile(out.Name())
		c.Failf("%s writes %q on the standard output or error", what, clip(string(b)))
	}
	if cwd, _ := os.Getwd(); cwd != w.cwd {
		os.Chdir(w.cwd)
		c.Failf("%s changes the working directory to %s", what, cwd)
	}
	if env := strings.Join(os.Environ(), "\n"); env != w.env {
		c.Failf("%s changes the environment", what)
	}
	u := syscall.Umask(w.umask)
	if u != w.umask {
		c.Failf("%s changes the umask", what)
	}
	for k, t := range fds {
		if w.fds[k] != t {
			c.Failf("%s leaves file descriptor %s open (%s)", what, k, t)
		}
	}
	for k, t := range w.fds {
		if fds[k] != t {
			c.Failf("%s closes file descriptor %s (%s) that is not its own", what, k, t)
		}
	}
	for _, d := range dirs {
		now := tree(d)
		var names []string
		for p := range now {
			names = append(names, p)
		}
		for p := range w.trees[d] {
			if _, ok := now[p]; !ok {
				c.Failf("%s removes %s", what, p)
			}
		}
		sort.Strings(names)
		for _, p := range names {
			old, had := w.trees[d][p]
			if old == now[p] && had || may != nil && may(p) {
				continue
			}
			if !had {
				c.Failf("%s creates %s", what, p)
			}
			c.Failf("%s changes %s from %q to %q", what, p, clip(old), clip(now[p]))
		}
		c.EvN("files-compared", len(names))
	}
	src := rand.New(rand.NewSource(w.seed))
	seen := false
	for k := 0; k < 2000000 && !seen; k++ {
		seen = src.Int63() == draw
	}
	if !seen {
		c.Failf("%s reseeds the global random generator", what)
	}
	c.Ev("worlds-compared")
}

// open is a reader or writer that the caller could close; nobody else may.
type open struct {
	io.Reader
	io.Writer
	closed int
}

func (o *open) Close() error { o.closed++; return nil }

func c38(c *Ctx) {
	dir := c.TempDir()
	cwd, tmp := filepath.Join(dir, "cwd"), filepath.Join(dir, "tmp")
	os.Mkdir(cwd, 0o755)
	os.Mkdir(tmp, 0o755)
	oldDir, err := os.Getwd()
	if err != nil || os.Chdir(cwd) != nil {
		c.Abandon("no working directory")
	}
	oldTmp, hadTmp := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	defer func() {
		os.Chdir(oldDir)
		if hadTmp {
			os.Setenv("TMPDIR", oldTmp)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	df := c.genAny(GenOpt{CSVText: true})
	df.Debug(false)
	if df.NumRows() > 0 {
		c.NonTrivial()
	}
	watched := []string{cwd, tmp}
	for k := c.Range(1, 5); k > 0; k-- {
		switch c.Int(12) {
		case 0, 1, 2:
			t := c.trainQuietly(df)
			if t == nil {
				continue
			}
			var name string
			c.alone("an operation", watched, nil, func() { name, _ = c.sharedOp(df, t, true) })
			c.Log("%s", name)
			c.Ev("shared-operation")
		case 3, 4:
			g := &guard{c: c}
			var name string
			c.alone("a call", watched, nil, func() { name, _ = c35call(c, g, df, take(df)) })
			c.Log("%s", name)
			c.Ev("call")
		case 5, 6:
			s := take(df)
			fr := &sframe{name: "f0", df: df, snap: s}
			r := c34request(c, fr, []*sframe{fr})
			if r == nil {
				continue
			}
			c.Log("refusal of %s", r.what)
			c.alone("the refusal of "+r.what, watched, nil, func() { caught(func() { r.f() }) })
			c.Ev("refusal")
		case 7, 8:
			c38write(c, df, watched)
		case 9, 10:
			c38read(c, watched)
		case 11:
			c38train(c, df, watched)
		}
	}
}

func (c *Ctx) trainQuietly(df *DF) (t *trained) {
	if df.NumRows() == 0 || df.NumRows() > 600 {
		return nil
	}
	if _, p := caught(func() { t = c.train(df) }); p {
		return nil
	}
	return t
}

var dirFile = regexp.MustCompile(`^out/part\d+\.csv$`)

// c38write writes into files or writers, some of which fail.
func c38write(c *Ctx, df *DF, watched []string) {
	dir := c.TempDir()
	os.Mkdir(filepath.Join(dir, "out"), 0o755)
	for _, n := range []string{"partx.csv", "part", "part.csv", "other.csv", ".part0.csv", "part0.csv.bak"} {
		if c.P(0.5) {
			os.WriteFile(filepath.Join(dir, "out", n), []byte("bystander\n"), 0o644)
		}
	}
	watched = append([]string{dir}, watched...)
	spec := c.writingSpec()
	df = df.View()
	df.SetMaxCPU(c.Pick(1, 2, 3, 4, 8))
	spec.MinRowsPerFile = c.Pick(1, 3, 10, 0)
	fault := c.Int(5) // 3, 4: none
	spoil := func(path string) {
		switch fault {
		case 0:
			os.Mkdir(path, 0o755)
		case 1:
			os.Symlink("/dev/full", path)
		case 2:
			os.Symlink(filepath.Join(dir, "nowhere", "x"), path)
		}
	}
	mine := map[string]bool{}
	switch c.Int(3) {
	case 0:
		var paths []string
		for i := c.Range(1, 6); i > 0; i-- {
			n := fmt.Sprintf("out/f%d.csv", i)
			p := filepath.Join(dir, n)
			if c.P(0.3) {
				os.WriteFile(p, []byte(strings.Repeat("old content\n", c.Int(400))), 0o644)
			}
			paths = append(paths, p)
			mine[n] = true
		}
		if fault < 3 {
			p := paths[c.Int(len(paths))]
			os.Remove(p)
			spoil(p)
		}
		what := fmt.Sprintf("ToCSVFiles(%d) fault %d", len(paths), fault)
		c.Log("%s", what)
		var err error
		c.alone(what, watched, func(p string) bool { return mine[p] }, func() { err = df.ToCSVFiles(spec, paths...) })
		c.Ev(fmt.Sprintf("files-written fault=%d error=%v", fault, err != nil))
	case 1:
		if fault < 3 {
			spoil(filepath.Join(dir, fmt.Sprintf("out/part%d.csv", c.Int(2))))
		}
		what := fmt.Sprintf("ToCSVDir fault %d", fault)
		c.Log("%s", what)
		before := tree(dir)
		var err error
		var names []string
		c.alone(what, watched, dirFile.MatchString, func() { names, err = df.ToCSVDir(spec, filepath.Join(dir, "out", "part")) })
		if err == nil {
			for _, n := range names {
				mine[strings.TrimPrefix(n, dir+"/")] = true
			}
			for n, d := range tree(dir) {
				if !mine[n] && before[n] != d {
					c.Failf("ToCSVDir creates or changes %s, which is none of the %d files it names", n, len(names))
				}
			}
		}
		c.Ev(fmt.Sprintf("directory-written fault=%d error=%v", fault, err != nil))
	default:
		var ws []io.Writer
		var os []*open
		for i := c.Range(1, 4); i > 0; i-- {
			o := &open{Writer: &faulty{budget: c.Pick(-1, -1, 0, 5, 100)}}
			os = append(os, o)
			ws = append(ws, o)
		}
		c.Log("ToCSVs(%d)", len(ws))
		var err error
		c.alone("writing to writers", watched, nil, func() {
			if len(ws) == 1 {
				err = df.To1CSV(ws[0], spec)
			} else {
				err = df.ToCSVs(ws, spec)
			}
		})
		for _, o := range os {
			if o.closed > 0 {
				c.Failf("writing to writers closes the caller's writer")
			}
		}
		c.Ev(fmt.Sprintf("writers-written error=%v", err != nil))
	}
	c.NonTrivial()
}

// c38read reads files, good ones and bad ones.
func c38read(c *Ctx, watched []string) {
	dir := c.TempDir()
	watched = append([]string{dir}, watched...)
	var o dataframe.CSVReadingSpec
	o.MaxCPU = c.Pick(1, 2, 3, 8, 30, 0, -1)
	c.NonTrivial()
	if c.P(0.3) {
		k := c.genCSV()
		k.spec.MaxCPU = o.MaxCPU
		r := &open{Reader: strings.NewReader(k.text)}
		if c.P(0.3) {
			ch := c.reader(k.text)
			ch.failAt, ch.err = c.Int(len(k.text)+1), errInjected
			r.Reader = ch
		}
		var err error
		c.Log("FromCSV")
		c.alone("FromCSV", watched, nil, func() { _, err = dataframe.FromCSV(r, k.spec) })
		if r.closed > 0 {
			c.Failf("FromCSV closes the caller's reader")
		}
		c.Ev(fmt.Sprintf("text-read error=%v", err != nil))
		return
	}
	nf := c.Range(1, 8)
	many := c.P(0.15)
	if many { // more files than may be open
		nf = c.Range(30, 80)
		o.MaxCPU = c.Pick(1, 2, 3, 8)
	}
	for i := 0; i < nf; i++ {
		path := filepath.Join(dir, fmt.Sprintf("p%d.csv", i))
		text := "a,b\n1,2\n" + strings.Repeat("3,x\n", c.Int(60))
		if !many && c.P(0.12) {
			switch c.Int(6) {
			case 0:
				text = ""
			case 1:
				text += "1\n"
			case 2:
				text += "1,\"\n"
			case 3:
				text = "a,c\n1,2\n"
			case 4:
				os.Symlink("/proc/self/mem", path)
				continue
			case 5:
				os.Symlink(filepath.Join(dir, "gone"), path)
				continue
			}
		}
		os.WriteFile(path, []byte(text), 0o644)
	}
	var err error
	if many {
		var lim syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) != nil {
			c.Abandon("no limit")
		}
		top := 0
		for k := range openFiles() {
			if n, err := strconv.Atoi(k); err == nil && n > top {
				top = n
			}
		}
		low := lim
		low.Cur = uint64(top + o.MaxCPU + 12)
		c.Log("FromCSVFilePattern of %d files with %d CPU and at most %d open files", nf, o.MaxCPU, low.Cur)
		c.alone("FromCSVFilePattern", watched, nil, func() {
			if syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low) == nil {
				defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
			}
			_, err = dataframe.FromCSVFilePattern(filepath.Join(dir, "p*.csv"), o)
		})
		if err != nil {
			c.Failf("FromCSVFilePattern of %d files with %d CPU: %v", nf, o.MaxCPU, err)
		}
		c.Ev("many-files-read")
		return
	}
	if c.P(0.4) {
		p := filepath.Join(dir, fmt.Sprintf("p%d.csv", c.Int(nf+1)))
		c.Log("FromCSVFile of %d", nf)
		c.alone("FromCSVFile", watched, nil, func() { _, err = dataframe.FromCSVFile(p, o) })
		c.Ev(fmt.Sprintf("file-read error=%v", err != nil))
		return
	}
	c.Log("FromCSVFilePattern of %d", nf)
	c.alone("FromCSVFilePattern", watched, nil, func() { _, err = dataframe.FromCSVFilePattern(filepath.Join(dir, "p*.csv"), o) })
	c.Ev(fmt.Sprintf("pattern-read error=%v", err != nil))
}

// c38train trains a regressor and predicts.
func c38train(c *Ctx, df *DF, watched []string) {
	n := c.Range(1, 40)
	x, y := make([]float64, n), make([]float64, n)
	for i := range x {
		x[i], y[i] = c.R.NormFloat64(), c.R.NormFloat64()
	}
	f := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddFloats("x", x...).AddFloats("y", y...).ToDataFrame()
	f.SetMaxCPU(c.Pick(1, 2, 4))
	c.Log("regression on %d rows", n)
	c.alone("regression training and prediction", watched, nil, func() {
		reg := algorithms.NewLinearRegressor()
		reg.Fit(f, "y", algorithms.LinRegTrainParams{Epochs: c.Range(1, 4), LowMemory: c.P(0.5), BatchSize: c.Pick(0, 1, 8)})
		reg.Predict(f.View(), "p")
	})
	c.Ev("regression")
	c.NonTrivial()
}
