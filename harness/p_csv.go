package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

func init() {
	register(&Prop{ID: "C12", Quick: 30000, Thorough: 3000000, Random: c12,
		Rule:   "random CSV texts (numeric edge cases, bool literals, missing markers, quoting, comments, separators, CRLF, odd names, zero rows) x reading options x CPU counts x chunked readers, against an independent inference over the records of encoding/csv; non-trivial: >=1 record and >=1 column that is kept",
		Assume: []string{"column names are distinct", "encoding/csv and strconv of the standard library define the record structure and the standard parse of a cell"}})
	register(&Prop{ID: "C13", Quick: 30000, Thorough: 3000000, Random: c13,
		Rule:   "random frames and views written with one writer, 1-12 writers, files or a directory, parsed back independently and read back by the library one by one and by pattern; non-trivial: >=2 rows",
		Assume: []string{"strings and names contain no carriage return (CSV readers normalise it)", "at least one float, int, bool or string column", "at least one writer"}})
	register(&Prop{ID: "C14", Quick: 8000, Thorough: 800000, Random: c14, Level: "fault_enumeration",
		Directed: []func(*Ctx){c14long(40), c14long(300), c14long(700), c14longRead(40), c14longRead(400)},
		Rule:     "a failure (partial write, refused write, short write, one-off error) at every byte offset of the output, a failing reader at every byte offset of the input, failing subsets of several writers, uncreatable and full files, malformed texts, unfit headers, unreadable files among several; non-trivial: >=1 fault injected",
		Assume:   []string{"column names are distinct", "errors of closing a file are not injected"}})
}

// infer is the reference type inference.
func infer(header []string, records [][]string, o dataframe.CSVReadingSpec) Snap {
	missing := map[string]bool{}
	for _, m := range o.MissingValues {
		missing[m] = true
	}
	skip := map[string]bool{}
	for _, e := range o.Exclude {
		skip[e] = true
	}
	s := Snap{N: len(records)}
	for j, name := range header {
		if skip[name] {
			continue
		}
		allBool, allBin, allInt, allFloat := true, true, true, true
		for _, r := range records {
			v := r[j]
			if _, err := strconv.ParseBool(v); err != nil {
				allBool = false
			}
			if v != "0" && v != "1" {
				allBin = false
			}
			if missing[v] {
				continue
			}
			if _, err := strconv.ParseInt(v, 10, 64); err != nil {
				allInt = false
			}
			if _, err := strconv.ParseFloat(v, 64); err != nil {
				allFloat = false
			}
		}
		col := Col{Name: name, V: make([]interface{}, len(records))}
		switch {
		case allBool && (o.BoolAsFloat || (o.BinaryAsFloat && allBin)):
			col.T = 'f'
			for i, r := range records {
				b, _ := strconv.ParseBool(r[j])
				col.V[i] = 0.0
				if b {
					col.V[i] = 1.0
				}
			}
		case allBool:
			col.T = 'b'
			for i, r := range records {
				b, _ := strconv.ParseBool(r[j])
				col.V[i] = b
			}
		case allInt && !o.IntAsFloat:
			col.T = 'i'
			for i, r := range records {
				col.V[i] = -1
				if !missing[r[j]] {
					v, _ := strconv.ParseInt(r[j], 10, 64)
					col.V[i] = int(v)
				}
			}
		case allFloat:
			col.T = 'f'
			for i, r := range records {
				col.V[i] = math.NaN()
				if !missing[r[j]] {
					v, _ := strconv.ParseFloat(r[j], 64)
					col.V[i] = v
				}
			}
		default:
			col.T = 's'
			for i, r := range records {
				if !missing[r[j]] {
					col.V[i] = r[j]
				}
			}
		}
		s.Cols = append(s.Cols, col)
	}
	sort.Slice(s.Cols, func(a, b int) bool { return s.Cols[a].Name < s.Cols[b].Name })
	return s
}

// stdRecords parses a text with the standard library under the reading options.
func stdRecords(text string, o dataframe.CSVReadingSpec) (header []string, records [][]string, err error) {
	r := csv.NewReader(strings.NewReader(text))
	if o.Comma != 0 {
		r.Comma = o.Comma
	}
	if o.Comment != 0 {
		r.Comment = o.Comment
	}
	r.LazyQuotes, r.TrimLeadingSpace = o.LazyQuotes, o.TrimLeadingSpace
	header = o.Header
	if len(header) > 0 {
		r.FieldsPerRecord = len(header)
	}
	all, err := r.ReadAll()
	if err != nil {
		return nil, nil, err
	}
	if len(header) == 0 {
		if len(all) == 0 {
			return nil, nil, io.EOF
		}
		header, all = all[0], all[1:]
	}
	return header, all, nil
}

// chunky delivers a text in pieces, and possibly an error at some offset.
type chunky struct {
	text     string
	pos      int
	max      int // at most max bytes at a time
	c        *Ctx
	zero     bool // sometimes delivers nothing
	withData bool // the final error comes with the last bytes
	failAt   int  // -1: never
	err      error
	lastZero bool
}

func (r *chunky) Read(p []byte) (int, error) {
	end := len(r.text)
	final := io.EOF
	if r.failAt >= 0 {
		end, final = r.failAt, r.err
	}
	if r.pos >= end {
		return 0, final
	}
	if r.zero && !r.lastZero && r.c.P(0.2) {
		r.lastZero = true
		return 0, nil
	}
	r.lastZero = false
	n := imin(len(p), end-r.pos)
	if r.max > 0 {
		n = imin(n, 1+r.c.Int(r.max))
	}
	copy(p, r.text[r.pos:r.pos+n])
	r.pos += n
	if r.withData && r.pos == end {
		return n, final
	}
	return n, nil
}

func (c *Ctx) reader(text string) *chunky {
	return &chunky{text: text, max: c.Pick(0, 0, 1, 3, 17, 200), c: c, zero: c.P(0.3), withData: c.P(0.4), failAt: -1}
}

var cellPools = [][]string{
	{"0", "1"},
	{"true", "false", "T", "F", "True", "False", "TRUE", "FALSE", "t", "f", "0", "1"},
	{"true", "True", "1", "f"},
	{"0", "1", "2", "-1", "007", "+5", "-0", "42", "9223372036854775807", "-9223372036854775808"},
	{"3", "9223372036854775808", "-9223372036854775809", "18446744073709551615"},
	{"0.5", "1e3", ".5", "5.", "-2.25", "1E-7", "+1.5", "1", "0", "123456789.123456789"},
	{"inf", "-Inf", "NaN", "nan", "Infinity", "+INF", "1.5"},
	{"1e308", "5e-324", "1e-400", "0x1p-2", "2"},
	{"1e309", "2"},
	{"1_000", "2"},
	{"abc", "é", "a b", "x,y", "say \"q\"", "two\nlines", "1", "true", " pad ", "#hash", "日本"},
	{"12a", "0x10", "1 2", "١", "tRuE", "yes", "no"},
	{"", "NA", "null", "?", "-"},
	{" 1.5", "2 ", "0.5", "1"},
	{" 1", "7", "2\t"},
	{" true", "false", "T "},
	{"1.5", "na", "NA", "Null", "NULL", "null", "nan", "None"},
	{"1.5", " NA", "null ", " ", "2"},
}

func (c *Ctx) csvCells(n int) []string {
	pool := append([]string{}, cellPools[c.Int(len(cellPools))]...)
	if c.P(0.35) {
		pool = append(pool, []string{"", "NA", "null", "-1", "0", "?", "na", " NA"}[c.Int(8)])
	}
	if c.P(0.2) {
		pool = append(pool, cellPools[c.Int(len(cellPools))]...)
	}
	if c.P(0.3) { // a few distinct values only
		c.R.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		pool = pool[:imin(len(pool), 1+c.Int(3))]
	}
	v := make([]string, n)
	for i := range v {
		v[i] = pool[c.Int(len(pool))]
		if c.P(0.02) {
			v[i] = strconv.Itoa(c.Int(1000) - 500)
		}
	}
	if n > 0 && c.P(0.15) { // one odd cell, at the end or the start
		k := c.Pick(0, n-1, c.Int(n))
		v[k] = cellPools[c.Int(len(cellPools))][0]
	}
	return v
}

func csvQuote(c *Ctx, s string, comma rune, lazy bool) string {
	need := s == "" || strings.ContainsAny(s, "\"\n\r") || strings.ContainsRune(s, comma) || strings.HasPrefix(s, " ") ||
		strings.HasPrefix(s, "#") || strings.HasPrefix(s, "%") || strings.HasPrefix(s, "\t")
	if s == "" && c.P(0.6) {
		need = false
	}
	if lazy && need && s == `say "q"` && c.P(0.6) {
		return s // bare quotes
	}
	if need || c.P(0.15) {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

type csvCase struct {
	text  string
	spec  dataframe.CSVReadingSpec
	names []string
}

func (c *Ctx) csvHeader(nc int) []string {
	used := map[string]bool{}
	var names []string
	for len(names) < nc {
		name := fmt.Sprintf("c%d", len(names))
		if c.P(0.35) {
			name = oddNames[c.Int(len(oddNames))]
		}
		if len(names) > 0 && c.P(0.08) { // nearly the name of another column
			name = names[c.Int(len(names))]
			name = []string{" " + name, name + " ", strings.ToUpper(name), name + "_", name + name, "x" + name, name + "\x00"}[c.Int(7)]
		}
		if used[name] {
			continue
		}
		used[name] = true
		names = append(names, name)
	}
	return names
}

func (c *Ctx) genCSV() csvCase {
	var k csvCase
	o := &k.spec
	comma := ','
	if c.P(0.4) {
		comma = []rune{';', '\t', '|', ':', ' ', 'é'}[c.Int(6)]
		o.Comma = comma
	}
	if c.P(0.2) {
		o.Comment = []rune{'#', '%'}[c.Int(2)]
	}
	o.LazyQuotes = c.P(0.15)
	o.TrimLeadingSpace = c.P(0.15) && comma != '\t' && comma != ' '
	o.IntAsFloat, o.BoolAsFloat, o.BinaryAsFloat = c.P(0.3), c.P(0.3), c.P(0.3)
	for _, m := range []string{"", "NA", "null", "?", "-", "-1", "0", "NaN"} {
		if c.P(0.25) {
			o.MissingValues = append(o.MissingValues, m)
		}
	}
	n := c.rows(GenOpt{MaxRows: 60})
	if c.P(0.03) {
		n = 300 + c.Int(1500)
	}
	nc := 1 + c.Int(7)
	if c.P(0.05) {
		nc = 20 + c.Int(30)
	}
	k.names = c.csvHeader(nc)
	cols := make([][]string, nc)
	for j := range cols {
		cols[j] = c.csvCells(n)
	}
	var b strings.Builder
	eol := "\n"
	if c.P(0.2) {
		eol = "\r\n"
	}
	line := func(cells []string, last bool) {
		for j, s := range cells {
			if j > 0 {
				b.WriteRune(comma)
			}
			if o.TrimLeadingSpace && c.P(0.3) {
				b.WriteString("  ")
			}
			q := csvQuote(c, s, comma, o.LazyQuotes)
			if len(cells) == 1 && q == "" {
				q = `""`
			}
			b.WriteString(q)
		}
		if !last || c.P(0.8) {
			b.WriteString(eol)
		}
	}
	extra := func() {
		if c.P(0.05) {
			b.WriteString(eol) // blank lines are no records
		}
		if o.Comment != 0 && c.P(0.1) {
			b.WriteRune(o.Comment)
			b.WriteString(" a comment, with \"quotes" + eol)
		}
	}
	if c.P(0.3) {
		o.Header = append([]string{}, k.names...)
	} else {
		extra()
		line(k.names, n == 0)
	}
	row := make([]string, nc)
	for i := 0; i < n; i++ {
		extra()
		for j := range row {
			row[j] = cols[j][i]
		}
		line(row, i == n-1)
	}
	k.text = b.String()
	if c.P(0.35) {
		for _, name := range k.names {
			if c.P(0.3) {
				o.Exclude = append(o.Exclude, name)
			}
		}
		if c.P(0.3) {
			o.Exclude = append(o.Exclude, "not there")
		}
	}
	return k
}

func distinct(names []string) bool {
	m := map[string]bool{}
	for _, n := range names {
		if m[n] {
			return false
		}
		m[n] = true
	}
	return true
}

// sameRead compares what was read (nil columns hide the number of rows).
func (c *Ctx) sameRead(what string, df *DF, want Snap) {
	got := take(df)
	if len(want.Cols) == 0 && len(got.Cols) == 0 {
		return
	}
	c.same(what, got, want)
}

func c12(c *Ctx) {
	k := c.genCSV()
	header, records, err := stdRecords(k.text, k.spec)
	c.Log("options %s; text %q", specText(k.spec), k.text)
	if err == nil && (!distinct(header)) {
		c.Abandon("names became equal by trimming")
	}
	cpus := []int{1, c.Pick(2, 3, 4, 8, 64), c.Pick(-1, 0)}
	for _, cpu := range cpus {
		o := k.spec
		o.MaxCPU = cpu
		raw, e := dataframe.FromCSV(c.reader(k.text), o)
		if err != nil {
			if e == nil || raw != nil {
				c.Failf("text refused by encoding/csv (%v) gives %v, error %v", err, raw, e)
			}
			c.Ev("refused-text")
			continue
		}
		if e != nil {
			c.Failf("MaxCPU %d: error %v for a well-formed text", cpu, e)
		}
		want := infer(header, records, k.spec)
		if len(want.Cols) > 0 && len(records) > 0 {
			c.NonTrivial()
		}
		df := raw.ToDataFrame()
		c.sameRead(fmt.Sprintf("CSV read with MaxCPU %d", cpu), df, want)
		if cpu > 0 && cpu <= runtime.NumCPU() && df.ActualMaxCPU() != cpu {
			c.Failf("MaxCPU %d is %d in the data read", cpu, df.ActualMaxCPU())
		}
		for _, col := range want.Cols {
			c.Ev("column-" + string(col.T))
		}
		c.EvN("cells-typed", len(want.Cols)*want.N)
	}
	if err == nil && c.P(0.15) { // the same through a file, and through a pattern that matches one file
		dir := c.TempDir()
		path := filepath.Join(dir, "x.csv")
		if e := os.WriteFile(path, []byte(k.text), 0o644); e != nil {
			panic(e)
		}
		want := infer(header, records, k.spec)
		raw, e := dataframe.FromCSVFile(path, k.spec)
		if e != nil {
			c.Failf("FromCSVFile: %v", e)
		}
		c.sameRead("FromCSVFile", raw.ToDataFrame(), want)
		raw, e = dataframe.FromCSVFilePattern(filepath.Join(dir, "*.csv"), k.spec)
		if e != nil {
			c.Failf("FromCSVFilePattern: %v", e)
		}
		c.sameRead("FromCSVFilePattern", raw.ToDataFrame(), want)
		c.Ev("read-from-file")
	}
	if err == nil && len(records) > 1 && c.P(0.06) {
		c12options(c, k, header, records)
	}
	if err == nil && len(records) > 1 && len(k.spec.Header) == 0 && c.P(0.1) {
		// the same records spread over several files (columns possibly in another order)
		c12files(c, k, header, records)
	}
}

func c12files(c *Ctx, k csvCase, header []string, records [][]string) {
	dir := c.TempDir()
	nf := 2 + c.Int(6)
	parts := make([][][]string, nf)
	for _, r := range records {
		j := c.Int(nf)
		parts[j] = append(parts[j], r)
	}
	pattern := []string{"p*.csv", "p*.csv", "*", "*/*", "p?.[cC]sv"}[c.Int(5)]
	nameOf := func(j int) string { return fmt.Sprintf("p%d.csv", j) }
	switch pattern {
	case "*":
		odd := c.Int(4)
		nameOf = func(j int) string {
			return fmt.Sprintf([]string{".p%d", "p[%d]*?.csv", "p %d é.txt", "%d.csv.bak~"}[(j+odd)%4], j)
		}
		if c.P(0.5) {
			if e := os.Mkdir(filepath.Join(dir, "dir.csv"), 0o755); e != nil {
				panic(e)
			}
		}
	case "*/*":
		nameOf = func(j int) string {
			sub := fmt.Sprintf([]string{"d%d", ".h%d"}[j%2], j/3)
			if e := os.MkdirAll(filepath.Join(dir, sub), 0o755); e != nil {
				panic(e)
			}
			return filepath.Join(sub, fmt.Sprintf("%d", j))
		}
	}
	for j, part := range parts {
		perm := seq(len(header))
		if c.P(0.4) {
			perm = c.R.Perm(len(header))
		}
		var b bytes.Buffer
		w := csv.NewWriter(&b)
		out := func(r []string) {
			if len(r) == 1 && r[0] == "" {
				w.Flush()
				b.WriteString("\"\"\n")
				return
			}
			q := make([]string, len(r))
			for i, p := range perm {
				q[i] = r[p]
			}
			w.Write(q)
		}
		out(header)
		for _, r := range part {
			out(r)
		}
		w.Flush()
		if e := os.WriteFile(filepath.Join(dir, nameOf(j)), b.Bytes(), 0o644); e != nil {
			panic(e)
		}
	}
	c.Log("%d files, pattern %s", nf, pattern)
	o := dataframe.CSVReadingSpec{MaxCPU: c.Pick(1, 2, 3, 8, 50, -1, 0), Exclude: k.spec.Exclude, MissingValues: k.spec.MissingValues,
		IntAsFloat: k.spec.IntAsFloat, BoolAsFloat: k.spec.BoolAsFloat, BinaryAsFloat: k.spec.BinaryAsFloat}
	raw, e := dataframe.FromCSVFilePattern(filepath.Join(dir, pattern), o)
	if e != nil {
		c.Failf("FromCSVFilePattern over %d files: %v", nf, e)
	}
	want := infer(header, records, o)
	got := take(raw.ToDataFrame())
	if len(want.Cols) > 0 || len(got.Cols) > 0 {
		if d := sameMultiset(got, want); d != "" {
			c.Failf("FromCSVFilePattern over %d files: %s", nf, d)
		}
	}
	c.Ev("read-from-pattern")
}

// c12options spreads records over several files that need the reading options to be understood.
func c12options(c *Ctx, k csvCase, header []string, records [][]string) {
	dir := c.TempDir()
	o := k.spec
	o.MaxCPU = c.Pick(1, 2, 3, 8, 50, -1, 0)
	comma := o.Comma
	if comma == 0 {
		comma = ','
	}
	nf := 2 + c.Int(4)
	var all [][]string
	for j := 0; j < nf; j++ {
		perm := seq(len(header))
		if len(o.Header) == 0 && c.P(0.4) {
			perm = c.R.Perm(len(header))
		}
		var b strings.Builder
		line := func(cells []string) {
			if o.Comment != 0 && c.P(0.3) {
				b.WriteRune(o.Comment)
				b.WriteString(" a comment, with \"quotes\n")
			}
			for i, p := range perm {
				if i > 0 {
					b.WriteRune(comma)
				}
				if o.TrimLeadingSpace && c.P(0.3) {
					b.WriteString("  ")
				}
				q := csvQuote(c, cells[p], comma, o.LazyQuotes)
				if o.LazyQuotes && c.P(0.1) {
					q = `x "y" z`
				}
				if len(cells) == 1 && q == "" {
					q = `""`
				}
				b.WriteString(q)
			}
			b.WriteString("\n")
		}
		if len(o.Header) == 0 {
			line(header)
		}
		for i := j; i < len(records); i += nf {
			line(records[i])
		}
		h, r, err := stdRecords(b.String(), o)
		if err != nil || len(h) != len(header) || !distinct(h) {
			c.Abandon("parts of the text are read differently")
		}
		from := make([]int, len(header))
		for i, name := range header {
			from[i] = -1
			for q, n := range h {
				if n == name {
					from[i] = q
				}
			}
			if from[i] < 0 {
				c.Abandon("the header is read differently")
			}
		}
		for _, rec := range r {
			cells := make([]string, len(from))
			for i, q := range from {
				cells[i] = rec[q]
			}
			all = append(all, cells)
		}
		if e := os.WriteFile(filepath.Join(dir, fmt.Sprintf("q%d.csv", j)), []byte(b.String()), 0o644); e != nil {
			panic(e)
		}
	}
	raw, e := dataframe.FromCSVFilePattern(filepath.Join(dir, "q*.csv"), o)
	if e != nil {
		c.Failf("FromCSVFilePattern over %d files with options %s: %v", nf, specText(o), e)
	}
	want := infer(header, all, o)
	got := take(raw.ToDataFrame())
	if len(want.Cols) > 0 || len(got.Cols) > 0 {
		if d := sameMultiset(got, want); d != "" {
			c.Failf("FromCSVFilePattern over %d files with options %s: %s", nf, specText(o), d)
		}
	}
	c.Ev("read-from-pattern-with-options")
}

func specText(o dataframe.CSVReadingSpec) string {
	return fmt.Sprintf("header %q exclude %q missing %q intF %v boolF %v binF %v comma %q comment %q lazy %v trim %v",
		o.Header, o.Exclude, o.MissingValues, o.IntAsFloat, o.BoolAsFloat, o.BinaryAsFloat, o.Comma, o.Comment, o.LazyQuotes, o.TrimLeadingSpace)
}

// ---- C13 ----

// cellMatches tells whether a CSV cell carries exactly a value.
func cellMatches(cell string, v interface{}, t byte, marker string) bool {
	switch t {
	case 'f':
		x, err := strconv.ParseFloat(cell, 64)
		return err == nil && eqv(x, v)
	case 'i':
		x, err := strconv.ParseInt(cell, 10, 64)
		return err == nil && int(x) == v.(int)
	case 'b':
		x, err := strconv.ParseBool(cell)
		return err == nil && x == v.(bool)
	}
	if v == nil {
		return cell == marker
	}
	return cell == v.(string)
}

// parseOutput turns the outputs into one snapshot of the expected columns' values.
func (c *Ctx) parseOutput(texts []string, spec dataframe.CSVWritingSpec, want Snap) (records []map[string]string) {
	for q, text := range texts {
		r := csv.NewReader(strings.NewReader(text))
		if spec.Comma != 0 {
			r.Comma = spec.Comma
		}
		all, err := r.ReadAll()
		if err != nil {
			c.Failf("output %d is no CSV: %v", q, err)
		}
		if len(all) == 0 {
			c.Failf("output %d has no header", q)
		}
		header := all[0]
		if len(header) != len(want.Cols) || !distinct(header) {
			c.Failf("output %d has header %q for columns %s", q, header, want.schema())
		}
		for _, name := range header {
			if want.col(name) == nil {
				c.Failf("output %d has header %q for columns %s", q, header, want.schema())
			}
		}
		for _, rec := range all[1:] {
			m := map[string]string{}
			for j, name := range header {
				m[name] = rec[j]
			}
			records = append(records, m)
		}
		if spec.UseCRLF && strings.Count(text, "\n") != strings.Count(text, "\r\n") {
			c.Failf("output %d: line ends without CR", q)
		}
		if !spec.UseCRLF && strings.Contains(text, "\r\n") {
			c.Failf("output %d: unexpected CR", q)
		}
	}
	return records
}

func keyOf(v interface{}, marker string) string {
	switch x := v.(type) {
	case float64:
		if math.IsNaN(x) {
			return "fNaN"
		}
		return fmt.Sprintf("f%x", math.Float64bits(x))
	case nil:
		return "s" + marker
	case string:
		return "s" + x
	}
	return fmt.Sprintf("%T%v", v, v)
}

func (c *Ctx) recordKey(rec map[string]string, want Snap) string {
	var b strings.Builder
	for _, col := range want.Cols {
		cell := rec[col.Name]
		switch col.T {
		case 'f':
			x, err := strconv.ParseFloat(cell, 64)
			if err != nil {
				c.Failf("float column %q written as %q", col.Name, cell)
			}
			b.WriteString(keyOf(x, ""))
		case 'i':
			x, err := strconv.ParseInt(cell, 10, 64)
			if err != nil {
				c.Failf("int column %q written as %q", col.Name, cell)
			}
			b.WriteString(keyOf(int(x), ""))
		case 'b':
			x, err := strconv.ParseBool(cell)
			if err != nil {
				c.Failf("bool column %q written as %q", col.Name, cell)
			}
			b.WriteString(keyOf(x, ""))
		default:
			b.WriteString("s" + cell)
		}
		b.WriteByte(0)
	}
	return b.String()
}

func (c *Ctx) checkWritten(what string, texts []string, spec dataframe.CSVWritingSpec, want Snap, ordered bool) []map[string]string {
	records := c.parseOutput(texts, spec, want)
	if len(records) != want.N {
		c.Failf("%s: %d records for %d rows", what, len(records), want.N)
	}
	if ordered {
		for i, rec := range records {
			for _, col := range want.Cols {
				if !cellMatches(rec[col.Name], col.V[i], col.T, spec.StringMissingMarker) {
					c.Failf("%s: record %d column %q is %q for the value %s", what, i, col.Name, rec[col.Name], vstr(col.V[i]))
				}
			}
		}
		c.Ev("outputs-compared-in-order")
	} else {
		m := map[string]int{}
		for i := 0; i < want.N; i++ {
			var b strings.Builder
			for _, col := range want.Cols {
				b.WriteString(keyOf(col.V[i], spec.StringMissingMarker))
				b.WriteByte(0)
			}
			m[b.String()]++
		}
		for i, rec := range records {
			key := c.recordKey(rec, want)
			m[key]--
			if m[key] < 0 {
				c.Failf("%s: record %d %v is no row of the view, or written too often", what, i, rec)
			}
		}
		c.Ev("outputs-compared-as-multisets")
	}
	c.EvN("records-compared", want.N)
	return records
}

func (c *Ctx) writingSpec() dataframe.CSVWritingSpec {
	spec := dataframe.CSVWritingSpec{MaintainOrder: c.P(0.5), UseCRLF: c.P(0.2), MinRowsPerFile: c.Pick(0, 0, 1, 2, 3, 7, 20, 100, -5)}
	if c.P(0.4) {
		spec.Comma = []rune{';', '\t', '|', 'é', 's', '1', '.', '-'}[c.Int(8)]
	}
	if c.P(0.5) {
		spec.StringMissingMarker = []string{"NA", "null", "mis,sing", "?", "-", "\"", " "}[c.Int(7)]
	}
	return spec
}

func c13(c *Ctx) {
	o := GenOpt{CSVText: true, Types: "fibsso", MaxRows: 200, CR: c.P(0.1)}
	if c.P(0.05) {
		o.MinRows, o.MaxRows = 250, 800
	}
	s := c.genSnap(o)
	if c.P(0.08) { // a single column of strings
		s = c.genSnap(GenOpt{CSVText: true, Types: "s", MinCols: 1, MaxCols: 1, MaxRows: 40})
	}
	if len(s.names("fibs")) == 0 {
		s.Cols = append(s.Cols, Col{"extra", 'i', toAny(seq(s.N))})
		s = s.with()
	}
	df := c.build(s)
	c.Log("frame %s", s.schema())
	if c.P(0.75) {
		df = c.chain(df, 3)
	}
	df.SetMaxCPU(c.Pick(1, 1, 2, 3, 4, 8, 12, 120, 0, -1))
	before := take(df)
	want := before.only(before.names("fibs"))
	if want.N >= 2 {
		c.NonTrivial()
	}
	spec := c.writingSpec()
	if o.CR { // encoding/csv drops carriage returns when it writes CRLF
		spec.UseCRLF = false
	}
	ordered := spec.MaintainOrder || !df.AreIndicesAltered() || sameInts(sharedIdx(df), seq(imax(want.N, df.NumAllocatedRows())))
	c.Log("%d rows, spec %+v, re-indexed %v", want.N, spec, df.AreIndicesAltered())

	var b bytes.Buffer
	if err := df.To1CSV(&b, spec); err != nil {
		c.Failf("To1CSV: %v", err)
	}
	c.checkWritten("To1CSV", []string{b.String()}, spec, want, ordered)
	c.same("frame after To1CSV", take(df), before)

	switch c.Int(3) {
	case 0:
		nw := c.Pick(1, 2, 3, 4, 5, 7, 12)
		bufs := make([]bytes.Buffer, nw)
		ws := make([]io.Writer, nw)
		for i := range bufs {
			ws[i] = &bufs[i]
		}
		if err := df.ToCSVs(ws, spec); err != nil {
			c.Failf("ToCSVs with %d writers: %v", nw, err)
		}
		texts := make([]string, nw)
		for i := range bufs {
			texts[i] = bufs[i].String()
		}
		c.checkWritten(fmt.Sprintf("ToCSVs with %d writers", nw), texts, spec, want, ordered)
		c.Ev("several-writers")
	case 1:
		dir := c.TempDir()
		nw := c.Pick(1, 2, 3, 4, 5, 7, 12)
		paths := make([]string, nw)
		for i := range paths {
			paths[i] = filepath.Join(dir, fmt.Sprintf("f%02d.csv", i))
		}
		if c.P(0.3) { // what was there is replaced
			os.WriteFile(paths[nw-1], bytes.Repeat([]byte("old,stuff\n"), 3000), 0o644)
		}
		if err := df.ToCSVFiles(spec, append([]string{}, paths...)...); err != nil {
			c.Failf("ToCSVFiles with %d files: %v", nw, err)
		}
		c.readBack("ToCSVFiles", dir, paths, filepath.Join(dir, "f*.csv"), spec, want, ordered)
	default:
		dir := c.TempDir()
		prefix := filepath.Join(dir, []string{"out", "", "a b-", "p%d_"}[c.Int(4)])
		if strings.HasSuffix(dir, filepath.Base(prefix)) {
			prefix = dir + "/"
		}
		paths, err := df.ToCSVDir(spec, prefix)
		if err != nil {
			c.Failf("ToCSVDir: %v", err)
		}
		if len(paths) == 0 {
			c.Failf("ToCSVDir names no file")
		}
		least := spec.MinRowsPerFile
		if least <= 0 {
			least = 512
		}
		if n := df.NumRows(); n < least && len(paths) > 1 || n > least && len(paths) == 1 && df.ActualMaxCPU() > 1 {
			c.Failf("ToCSVDir writes %d rows into %d files although files are to be split from %d rows, with %d CPUs", n, len(paths), least, df.ActualMaxCPU())
		}
		c.Ev("directories-split")
		pattern := prefix + "*.csv"
		c.readBack("ToCSVDir", dir, paths, pattern, spec, want, ordered)
	}
	c.same("frame after writing", take(df), before)
}

func (c *Ctx) readBack(what, dir string, paths []string, pattern string, spec dataframe.CSVWritingSpec, want Snap, ordered bool) {
	if !distinct(paths) {
		c.Failf("%s: paths %q", what, paths)
	}
	entries, _ := os.ReadDir(dir)
	if len(entries) != len(paths) {
		c.Failf("%s: %d files for %d paths", what, len(entries), len(paths))
	}
	texts := make([]string, len(paths))
	for i, p := range paths {
		b, err := os.ReadFile(p)
		if err != nil {
			c.Failf("%s: %v", what, err)
		}
		texts[i] = string(b)
	}
	c.checkWritten(fmt.Sprintf("%s with %d files", what, len(paths)), texts, spec, want, ordered)
	c.Ev(fmt.Sprintf("files-written-%02d", len(paths)))
	// the cells as they stand in the files
	o := dataframe.CSVReadingSpec{Comma: spec.Comma, MaxCPU: c.Pick(1, 2, 3, 8, 40, 0, -1)}
	if c.P(0.8) {
		o.MissingValues = []string{spec.StringMissingMarker}
	}
	o.IntAsFloat, o.BoolAsFloat = c.P(0.2), c.P(0.2)
	var header []string
	for _, col := range want.Cols {
		header = append(header, col.Name)
	}
	cells := func(recs []map[string]string) [][]string {
		out := make([][]string, len(recs))
		for i, r := range recs {
			for _, name := range header {
				out[i] = append(out[i], r[name])
			}
		}
		return out
	}
	var all [][]string
	for i, p := range paths {
		recs := cells(c.parseOutput(texts[i:i+1], spec, want))
		all = append(all, recs...)
		raw, err := dataframe.FromCSVFile(p, o)
		if err != nil {
			c.Failf("reading %s back: %v", filepath.Base(p), err)
		}
		c.same("file read back", take(raw.ToDataFrame()), infer(header, recs, o))
	}
	raw, err := dataframe.FromCSVFilePattern(pattern, o)
	if err != nil || raw == nil {
		c.Failf("reading the pattern back: %v, error %v", raw, err)
	}
	got := take(raw.ToDataFrame())
	inferred := infer(header, all, o)
	if d := sameMultiset(got, inferred); d != "" {
		c.Failf("pattern of %d files read back with MaxCPU %d: %s", len(paths), o.MaxCPU, d)
	}
	// and directly against the frame: strings that look like nothing else stay strings
	for _, col := range want.Cols {
		g := got.col(col.Name)
		if g == nil {
			c.Failf("column %q is gone after reading the files back", col.Name)
		}
		if col.T == 'f' && g.T == 's' || col.T == 'i' && g.T == 's' || col.T == 'b' && g.T != 'b' && g.T != 'f' {
			c.Failf("column %q of type %c reads back as %c", col.Name, col.T, g.T)
		}
	}
	c.EvN("rows-read-back", got.N)
}

// ---- C14 ----

var errInjected = errors.New("injected fault")

// faulty accepts budget bytes, then fails.
type faulty struct {
	budget   int // bytes accepted before the failure; -1: never fails
	mode     int // 0 partial+error, 1 nothing+error, 2 short count without error, 3 one error and then fine again
	accepted int
	failed   bool
	lost     bool // some byte was refused
}

func (w *faulty) Write(p []byte) (int, error) {
	if w.budget < 0 || (w.failed && w.mode == 3) || w.accepted+len(p) <= w.budget {
		w.accepted += len(p)
		return len(p), nil
	}
	w.failed, w.lost = true, true
	n := w.budget - w.accepted
	if n < 0 {
		n = 0
	}
	switch w.mode {
	case 1:
		return 0, errInjected
	case 2:
		w.accepted += n
		return n, nil
	}
	w.accepted += n
	return n, errInjected
}

func c14long(rows int) func(*Ctx) {
	return func(c *Ctx) {
		s := c.genSnap(GenOpt{CSVText: true, Types: "fibs", MinRows: rows, Fixed: true, MinCols: 2, MaxCols: 4, Must: "s"})
		df := c.build(s)
		c.Log("every write offset of %s", s.schema())
		c14write(c, df, dataframe.CSVWritingSpec{MaintainOrder: c.P(0.5)}, 1)
	}
}

func c14longRead(rows int) func(*Ctx) {
	return func(c *Ctx) {
		s := c.genSnap(GenOpt{CSVText: true, Types: "fibs", MinRows: rows, Fixed: true, MinCols: 2, MaxCols: 3})
		var b bytes.Buffer
		if err := c.build(s).To1CSV(&b, dataframe.CSVWritingSpec{}); err != nil {
			c.Failf("To1CSV: %v", err)
		}
		c.Log("every read offset of %d bytes", b.Len())
		c14read(c, csvCase{text: b.String()}, imax(1, b.Len()/2500))
	}
}

// c14write injects a failure at every step-th byte of the single-writer output.
func c14write(c *Ctx, df *DF, spec dataframe.CSVWritingSpec, step int) {
	ref := &faulty{budget: -1}
	if err := df.To1CSV(ref, spec); err != nil {
		c.Failf("To1CSV: %v", err)
	}
	total := ref.accepted
	c.NonTrivial()
	for _, mode := range []int{0, 1, 2, 3} {
		st := step
		if total/st > 4000 { // long outputs: all offsets in mode 0, a sample elsewhere
			st = imax(step, total/4000)
			if mode != 0 {
				st *= 7
			}
		}
		for k := 0; k < total; k += st {
			w := &faulty{budget: k, mode: mode}
			err := df.To1CSV(w, spec)
			if err == nil {
				c.Failf("To1CSV returns nil though the writer failed after %d of %d bytes (mode %d)", k, total, mode)
			}
			c.Ev("write-faults-injected")
		}
	}
	w := &faulty{budget: total}
	if err := df.To1CSV(w, spec); err != nil || w.accepted != total {
		c.Failf("To1CSV into a writer of exactly %d bytes: %v, %d accepted", total, err, w.accepted)
	}
}

func c14read(c *Ctx, k csvCase, step int) {
	c.NonTrivial()
	for at := 0; at <= len(k.text); at += step {
		r := c.reader(k.text)
		r.failAt, r.err = at, errInjected
		if c.P(0.1) {
			r.err = io.ErrUnexpectedEOF
		}
		o := k.spec
		o.MaxCPU = c.Pick(1, 2, 0)
		raw, err := dataframe.FromCSV(r, o)
		if err == nil || raw != nil {
			c.Failf("reader failing after %d of %d bytes: data %v, error %v", at, len(k.text), raw != nil, err)
		}
		c.Ev("read-faults-injected")
		if at+step > len(k.text) && at < len(k.text) {
			at = len(k.text) - step // the very end, too
		}
	}
}

func c14(c *Ctx) {
	switch c.Int(6) {
	case 0:
		s := c.genSnap(GenOpt{CSVText: true, Types: "fibso", MaxRows: 12, MaxCols: 3})
		if len(s.names("fibs")) == 0 {
			c.Abandon("no column to write")
		}
		df := c.chain(c.build(s), 2)
		spec := c.writingSpec()
		c.Log("every write offset of %s, spec %+v", s.schema(), spec)
		c14write(c, df, spec, 1)
	case 1:
		c14writers(c)
	case 2:
		c14files(c)
	case 3:
		k := c.genCSV()
		for len(k.text) > 1200 {
			k = c.genCSV()
		}
		c.Log("every read offset; options %s; text %q", specText(k.spec), k.text)
		c14read(c, k, 1)
	case 4:
		for q := 0; q < 30; q++ {
			c14malformed(c)
		}
	default:
		c14pattern(c)
	}
}

// c14writers fails some of several writers.
func c14writers(c *Ctx) {
	o := GenOpt{CSVText: true, Types: "fibs", MaxRows: 300, MaxCols: 4}
	if c.P(0.05) {
		o.MinRows, o.MaxRows, o.MaxCols = 1000, 7000, 2
	}
	s := c.genSnap(o)
	df := c.chain(c.build(s), 2)
	spec := c.writingSpec()
	nw := 1 + c.Int(6)
	ref := make([]*faulty, nw)
	ws := make([]io.Writer, nw)
	for i := range ref {
		ref[i] = &faulty{budget: -1}
		ws[i] = ref[i]
	}
	if err := df.ToCSVs(append([]io.Writer{}, ws...), spec); err != nil {
		c.Failf("ToCSVs: %v", err)
	}
	c.NonTrivial()
	for q := 0; q < 40; q++ {
		bad := 0
		plan := make([]string, nw)
		for i := range ws {
			w := &faulty{budget: -1}
			if q%2 == 0 && i == (q/2)%nw || q%2 == 1 && c.P(0.4) {
				w = &faulty{budget: c.Int(ref[i].accepted), mode: c.Int(4)}
				if c.P(0.2) {
					w.budget = ref[i].accepted - 1
				}
				bad++
				plan[i] = fmt.Sprintf("%d/%d", w.budget, ref[i].accepted)
			} else if c.P(0.3) {
				w.budget = ref[i].accepted
			}
			ws[i] = w
		}
		err := df.ToCSVs(append([]io.Writer{}, ws...), spec)
		if (err != nil) != (bad > 0) {
			c.Failf("ToCSVs with failing writers %q returns %v", plan, err)
		}
		if err == nil {
			for i, w := range ws {
				if w.(*faulty).accepted != ref[i].accepted {
					c.Failf("ToCSVs returns nil, writer %d got %d of %d bytes", i, w.(*faulty).accepted, ref[i].accepted)
				}
			}
		}
		c.EvN("writers-failed", bad)
	}
	c.Log("%d writers, %s", nw, s.schema())
	// a separator that cannot be used
	for _, r := range []rune{'"', '\n', '\r', 0xFFFD} {
		sp := spec
		sp.Comma = r
		if len(s.Cols) > 0 {
			if err := df.ToCSVs([]io.Writer{io.Discard}, sp); err == nil && len(take(df).names("fibs")) > 1 {
				c.Failf("separator %q is accepted", r)
			}
		}
	}
}

// c14files uses files that cannot be created or written.
func c14files(c *Ctx) {
	s := c.genSnap(GenOpt{CSVText: true, Types: "fibs", MaxRows: 100, MaxCols: 4})
	df := c.chain(c.build(s), 2)
	df.SetMaxCPU(c.Pick(1, 2, 3, 4, 8))
	spec := c.writingSpec()
	spec.MinRowsPerFile = c.Pick(1, 3, 10, 0)
	dir := c.TempDir()
	c.NonTrivial()
	nw := 1 + c.Int(5)
	paths := make([]string, nw)
	for i := range paths {
		paths[i] = filepath.Join(dir, fmt.Sprintf("f%d.csv", i))
	}
	bad := c.Int(nw)
	kind := c.Int(3)
	what := []string{"missing directory", "directory in place of a file", "full device"}[kind]
	switch kind {
	case 0:
		paths[bad] = filepath.Join(dir, "nowhere", "f.csv")
	case 1:
		os.Mkdir(paths[bad], 0o755)
	case 2:
		if os.Symlink("/dev/full", paths[bad]) != nil {
			c.Abandon("no symlink")
		}
	}
	c.Log("%s at file %d of %d, %s", what, bad, nw, s.schema())
	if err := df.ToCSVFiles(spec, append([]string{}, paths...)...); err == nil {
		c.Failf("ToCSVFiles returns nil with a %s at file %d of %d", what, bad, nw)
	}
	c.Ev("file-fault: " + what)
	// the same with a directory
	prefix := filepath.Join(dir, "d", "x")
	os.Mkdir(filepath.Join(dir, "d"), 0o755)
	names, err := df.ToCSVDir(spec, prefix)
	if err != nil {
		c.Failf("ToCSVDir: %v", err)
	}
	victim := names[c.Int(len(names))]
	os.Remove(victim)
	switch kind {
	case 0:
		prefix = filepath.Join(dir, "nowhere", "x")
	case 1:
		os.Mkdir(victim, 0o755)
	case 2:
		os.Symlink("/dev/full", victim)
	}
	if _, err := df.ToCSVDir(spec, prefix); err == nil {
		c.Failf("ToCSVDir returns nil with a %s among %d files", what, len(names))
	}
	c.Ev("directory-fault: " + what)
}

// c14malformed damages a text; the standard library says whether it is still well-formed.
func c14malformed(c *Ctx) {
	k := c.genCSV()
	text := []byte(k.text)
	for q := 1 + c.Int(3); q > 0 && len(text) > 0; q-- {
		at := c.Int(len(text))
		switch c.Int(5) {
		case 0:
			text = append(text[:at], text[at+1:]...)
		case 1:
			ins := []string{"\"", ",", "\n", "\"\"", "\"x", "\r", "\xff", "\x00", "a\"b"}[c.Int(9)]
			text = append(text[:at], append([]byte(ins), text[at:]...)...)
		case 2:
			text = text[:at]
		case 3:
			text[at] = "\",;\n\t#"[c.Int(6)]
		case 4:
			if len(k.spec.Header) > 0 {
				if c.P(0.5) {
					k.spec.Header = append(k.spec.Header, fmt.Sprintf("more%d", c.Int(10)))
				} else {
					k.spec.Header = k.spec.Header[:len(k.spec.Header)-1]
				}
			} else {
				text = append(text, []byte("a,b,c,d,e\n1\n")...)
			}
		}
	}
	if c.P(0.02) {
		k.spec.Comma = []rune{'"', '\n', '\r'}[c.Int(3)]
	}
	k.text = string(text)
	header, records, err := stdRecords(k.text, k.spec)
	if err == nil && !distinct(header) {
		return
	}
	c.NonTrivial()
	c.Log("options %s; text %q", specText(k.spec), k.text)
	o := k.spec
	o.MaxCPU = c.Pick(1, 2, 4, 0)
	raw, e := dataframe.FromCSV(c.reader(k.text), o)
	if err != nil {
		if e == nil || raw != nil {
			c.Failf("malformed text (%v): data %v, error %v", err, raw != nil, e)
		}
		c.Ev("malformed-text-refused")
		return
	}
	if e != nil {
		c.Failf("text that is still well-formed: error %v", e)
	}
	c.sameRead("damaged but well-formed text", raw.ToDataFrame(), infer(header, records, k.spec))
	c.Ev("damaged-text-well-formed")
}

// c14pattern puts one bad file among several good ones.
func c14pattern(c *Ctx) {
	c.NonTrivial()
	dir := c.TempDir()
	if raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "*.csv"), dataframe.CSVReadingSpec{}); raw != nil || err != nil {
		c.Failf("pattern without match: data %v, error %v", raw != nil, err)
	}
	if raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "[.csv"), dataframe.CSVReadingSpec{}); raw != nil || err == nil {
		c.Failf("malformed pattern: data %v, error %v", raw != nil, err)
	}
	if raw, err := dataframe.FromCSVFile(filepath.Join(dir, "none.csv"), dataframe.CSVReadingSpec{}); raw != nil || err == nil {
		c.Failf("missing file: data %v, error %v", raw != nil, err)
	}
	if raw, err := dataframe.FromCSVFile(dir, dataframe.CSVReadingSpec{}); raw != nil || err == nil {
		c.Failf("directory read as a file: data %v, error %v", raw != nil, err)
	}
	nf := 1 + c.Int(6)
	bad := c.Int(nf)
	kind := c.Int(8)
	supplied := c.P(0.3)
	header := []string{"a", "b", "c"}
	var o dataframe.CSVReadingSpec
	o.MaxCPU = c.Pick(1, 2, 3, 8, 30, 0, -1)
	if supplied {
		o.Header = header
	}
	for i := 0; i < nf; i++ {
		path := filepath.Join(dir, fmt.Sprintf("p%d.csv", i))
		var b strings.Builder
		if !supplied {
			b.WriteString("a,b,c\n")
		}
		for r := c.Int(5); r >= 0; r-- {
			fmt.Fprintf(&b, "%d,%d,x%d\n", c.Int(10), c.Int(10), c.Int(10))
		}
		text := b.String()
		if i == bad {
			switch kind {
			case 0:
				text += "1,2,\"unterminated\n"
			case 1:
				text += "1,2\n"
			case 2:
				text = strings.ReplaceAll(text, ",", ",9,")
				if supplied {
					text += "1,2,3,4,5\n"
				} else if nf == 1 {
					text += "1\n" // nothing else to compare with
				}
			case 3:
				if supplied || nf == 1 {
					text = "1,2,3,4\n"
					if nf == 1 && !supplied {
						text = "a\"b\n"
					}
				} else {
					text = strings.Replace(text, "a,b,c", "a,b,d", 1)
					if c.P(0.3) { // a header and nothing else
						text = []string{"a,b,d\n", "a,b\n", "d,e,f", "a,b,c,d\n"}[c.Int(4)]
					}
				}
			case 4:
				if supplied {
					text = "\"\n"
				} else {
					text = "" // no header at all
				}
			case 5:
				if os.Symlink(filepath.Join(dir, "gone"), path) != nil {
					c.Abandon("no symlink")
				}
				continue
			case 6: // stats as a regular file, opens, and fails to read
				if os.Symlink("/proc/self/mem", path) != nil {
					c.Abandon("no symlink")
				}
				continue
			case 7:
				if nf == 1 || supplied {
					text = "a,b\n1,2,3\n"
				} else {
					text = strings.Replace(text, "a,b,c", "a,B,c", 1)
				}
			}
		}
		if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	c.Log("file %d of %d is bad (kind %d), MaxCPU %d, header supplied %v", bad, nf, kind, o.MaxCPU, supplied)
	raw, err := dataframe.FromCSVFilePattern(filepath.Join(dir, "p*.csv"), o)
	if err == nil || raw != nil {
		c.Failf("pattern with an unreadable file: data %v, error %v", raw != nil, err)
	}
	c.Ev(fmt.Sprintf("pattern-fault-kind-%d", kind))
}
