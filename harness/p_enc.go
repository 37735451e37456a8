package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
	"github.com/rom1mouret/ml-essentials/preprocessing"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
)

func init() {
	register(&Prop{ID: "C15", Quick: 90000, Thorough: 9000000, Random: c15,
		Rule:   "frames with 0-4 string columns and views of them (rows repeated and hidden), sequences of re-encodings between 21 encodings interleaved with copies, views and row concatenations, against a per-string conversion; strings valid or not in the declared encoding; non-trivial: >=1 non-missing string was converted or refused",
		Assume: []string{"golang.org/x/text defines the exact conversion of one string", "bytes that are undefined in the declared encoding may either be refused or become U+FFFD, as x/text decodes them", "no two columns of one frame share storage"}})
	register(&Prop{ID: "C16", Quick: 120000, Thorough: 12000000, Random: c16, Directed: []func(*Ctx){c16many},
		Rule:   "random frames, views, column subsets and CPU counts hashed in this and in another process, by HashStringsView and HashEncoder; 150000 similar distinct strings for injectivity; LabelToInt against a list oracle; non-trivial: >=2 strings hashed or labelled",
		Assume: []string{"columns are not named twice in one call"}})
}

type namedEnc struct {
	name string
	e    encoding.Encoding
}

var encodings = []namedEnc{
	{"UTF-8 (nil)", nil},
	{"UTF-8 (nil)", nil},
	{"unicode.UTF8", unicode.UTF8},
	{"ISO8859_1", charmap.ISO8859_1},
	{"ISO8859_3", charmap.ISO8859_3},
	{"ISO8859_15", charmap.ISO8859_15},
	{"Windows1252", charmap.Windows1252},
	{"KOI8R", charmap.KOI8R},
	{"CodePage437", charmap.CodePage437},
	{"UTF16BE", unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM)},
	{"UTF16LE", unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)},
	{"UTF16BOM", unicode.UTF16(unicode.LittleEndian, unicode.UseBOM)},
	{"UTF16ExpectBOM", unicode.UTF16(unicode.LittleEndian, unicode.ExpectBOM)}, // refuses strings without a mark
	{"EUCKR", korean.EUCKR},
	{"ShiftJIS", japanese.ShiftJIS},
	{"EUCJP", japanese.EUCJP},
	{"ISO2022JP", japanese.ISO2022JP},
	{"GBK", simplifiedchinese.GBK},
	{"GB18030", simplifiedchinese.GB18030},
	{"HZGB2312", simplifiedchinese.HZGB2312},
	{"Big5", traditionalchinese.Big5},
}

var textPool = []string{"", "a", "plain ascii", "é", "café crème", "ÿ", "€uro", "привет", "고랭", "日本語テキスト", "漢字", "中文字", "naïve ß", "x\ty", "~{x~}", "Ω≈", "a\x00b", "😀", "line\nbreak", "½¼"}

// convert is the reference conversion of one string; lossy: the string has bytes
// that mean nothing in the source encoding.
func convert(s string, from, to encoding.Encoding) (out string, lossy bool, err error) {
	if from != nil {
		s, err = from.NewDecoder().String(s)
		if err != nil {
			return "", false, err
		}
		lossy = strings.Contains(s, "\uFFFD")
	}
	if to != nil {
		s, err = to.NewEncoder().String(s)
		if err != nil {
			return "", lossy, err
		}
	}
	return s, lossy, nil
}

func (c *Ctx) text(e namedEnc, invalid bool) interface{} {
	if c.P(0.12) {
		return nil
	}
	if invalid && c.P(0.2) {
		b := make([]byte, 1+c.Int(5))
		for i := range b {
			b[i] = byte(c.Int(256))
		}
		return string(b)
	}
	for k := 0; k < 5; k++ {
		s := textPool[c.Int(len(textPool))]
		if c.P(0.3) {
			s += textPool[c.Int(len(textPool))]
		}
		if e.e == nil {
			return s
		}
		if v, err := e.e.NewEncoder().String(s); err == nil {
			return v
		}
	}
	return "ascii"
}

func c15(c *Ctx) {
	e := encodings[c.Int(len(encodings))]
	invalid := c.P(0.3)
	ascii := !invalid && c.P(0.4) // survives most encodings
	n := c.rows(GenOpt{MaxRows: 80})
	ns := c.Pick(0, 1, 1, 2, 3, 4)
	s := c.genSnap(GenOpt{MinRows: n, Fixed: true, Types: "fibo", MaxCols: 3, PlainNames: true})
	for j := 0; j < ns; j++ {
		col := Col{Name: fmt.Sprintf("text%d", j), T: 's', V: make([]interface{}, n)}
		for i := range col.V {
			col.V[i] = c.text(e, invalid)
			if ascii && col.V[i] != nil {
				v := textPool[c.Int(3)]
				if e.e != nil {
					v, _ = e.e.NewEncoder().String(v)
				}
				col.V[i] = v
			}
		}
		s.Cols = append(s.Cols, col)
	}
	s = s.with()
	var df *DF
	if c.P(0.15) && ns > 0 && n > 0 && !invalid && !strings.HasPrefix(e.name, "UTF16") {
		df = c15csv(c, &s, e)
	} else {
		raw := dataframe.NewRawData()
		raw.SetMaxCPU(c.Pick(1, 4, -1))
		b := dataframe.DataBuilder{RawData: raw}
		for _, col := range s.Cols {
			c.addCol(b, col)
		}
		if e.e != nil || c.P(0.2) {
			b.TextEncoding(e.e)
		}
		df = b.ToDataFrame()
	}
	c.Log("%s; declared %s, invalid bytes %v", s.schema(), e.name, invalid)
	for step := 1 + c.Int(5); step > 0; step-- {
		switch c.Int(12) {
		case 11: // more rows in the same encoding
			now := take(df)
			o := Snap{N: 1 + c.Int(4)}
			for _, col := range now.Cols {
				v := c.genVals(col.T, o.N, GenOpt{})
				if col.T == 's' {
					for i := range v {
						v[i] = c.text(e, false)
					}
				}
				o.Cols = append(o.Cols, Col{col.Name, col.T, v})
			}
			if len(o.Cols) == 0 {
				continue
			}
			b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
			for _, col := range o.Cols {
				c.addCol(b, col)
			}
			if e.e != nil {
				b.TextEncoding(e.e)
			}
			c.Log("RowConcat of %d rows with %d others", now.N, o.N)
			r, err := dataframe.RowConcat(df, b.ToDataFrame())
			if err != nil {
				c.Failf("RowConcat: %v", err)
			}
			df = r
		case 8: // strings added in the encoding declared now
			name := fmt.Sprintf("more%d", c.Int(2))
			vals := make([]string, df.NumRows())
			for i := range vals {
				v, _ := c.text(e, false).(string)
				vals[i] = v
			}
			c.Log("OverwriteStrings(%q)", name)
			df.OverwriteStrings(name, vals)
		case 9:
			if text := df.StringHeader().NameList(); len(text) > 0 {
				sort.Strings(text)
				if c.P(0.5) {
					text = text[:1]
				}
				c.Log("Drop%q", text)
				df.Drop(text...)
			}
		case 0:
			c.Log("Copy")
			df = df.Copy()
		case 1:
			c.Log("ShallowCopy")
			df = df.ShallowCopy()
		case 2:
			c.Log("RowConcat")
			parts := []*DF{df}
			for c.P(0.5) && len(parts) < 3 {
				parts = append(parts, c.chain(df, 2))
			}
			r, err := dataframe.RowConcat(parts...)
			if err != nil {
				c.Failf("RowConcat: %v", err)
			}
			df = r
		case 3:
			df = c.chain(df, 2)
		case 4:
			st := c.selectRows(df)
			c.Log("%s", st.name)
			parent := df
			df = st.df
			e = c15encode(c, df, e, parent, st.idx)
		default:
			e = c15encode(c, df, e, nil, nil)
		}
	}
	e = c15encode(c, df, e, nil, nil)
	c15encode(c, df, e, nil, nil)
}

// c15csv reads the string columns from a CSV text declared to have the encoding.
func c15csv(c *Ctx, s *Snap, e namedEnc) *DF {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	names := append([]string{"key"}, s.names("s")...)
	w.Write(names)
	for i := 0; i < s.N; i++ {
		rec := []string{fmt.Sprintf("%d.5", i)}
		for _, name := range names[1:] {
			v := s.col(name).V[i]
			if v == nil {
				v = "\x01missing"
			}
			rec = append(rec, v.(string))
		}
		w.Write(rec)
	}
	w.Flush()
	spec := dataframe.CSVReadingSpec{Encoding: e.e, MissingValues: []string{"\x01missing"}, MaxCPU: c.Pick(1, 2)}
	var raw *dataframe.RawData
	var err error
	if c.P(0.3) { // one or more files of the same text
		dir := c.TempDir()
		for j := c.Int(3); j >= 0; j-- {
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("e%d.csv", j)), b.Bytes(), 0o644); err != nil {
				panic(err)
			}
		}
		if c.P(0.3) {
			raw, err = dataframe.FromCSVFile(filepath.Join(dir, "e0.csv"), spec)
		} else {
			raw, err = dataframe.FromCSVFilePattern(filepath.Join(dir, "e*.csv"), spec)
		}
		c.Ev("encoding-declared-for-files")
	} else {
		raw, err = dataframe.FromCSV(&b, spec)
	}
	if err != nil {
		c.Abandon("the encoded text is no CSV")
	}
	df := raw.ToDataFrame()
	*s = take(df)
	c.Ev("encoding-declared-by-CSV")
	return df
}

func c15encode(c *Ctx, df *DF, from namedEnc, parent *DF, idx []int) namedEnc {
	to := encodings[c.Int(len(encodings))]
	if c.P(0.15) {
		to = from
	}
	before := take(df)
	var pBefore Snap
	shown := map[int]bool{} // rows of the source that share storage with a row shown
	if parent != nil {
		pBefore = take(parent)
		sh := sharedIdx(parent)
		storage := map[int]bool{}
		for _, i := range idx {
			storage[sh[i]] = true
		}
		for i, k := range sh {
			shown[i] = storage[k]
		}
	}
	want := Snap{N: before.N}
	mustFail, mayFail, converted := false, false, 0
	conv := func(v interface{}) interface{} {
		if v == nil || from.e == to.e {
			return v
		}
		out, lossy, err := convert(v.(string), from.e, to.e)
		if err != nil {
			mustFail = true
			return v
		}
		mayFail = mayFail || lossy
		converted++
		return out
	}
	for _, col := range before.Cols {
		nc := Col{col.Name, col.T, cloneVals(col.V)}
		if col.T == 's' {
			for i, v := range nc.V {
				nc.V[i] = conv(v)
			}
		}
		want.Cols = append(want.Cols, nc)
	}
	err := df.Encode(to.e)
	c.Log("Encode %s -> %s: error %v", from.name, to.name, err)
	if converted > 0 || mustFail {
		c.NonTrivial()
	}
	if err != nil {
		if !mustFail && !mayFail {
			c.Failf("Encode %s -> %s fails although every string can be converted: %v", from.name, to.name, err)
		}
		c.same("frame after the failed Encode", take(df), before)
		if parent != nil {
			c.same("source frame after the failed Encode", take(parent), pBefore)
		}
		c.Ev("failed-and-rolled-back")
		return from
	}
	if mustFail {
		c.Failf("Encode %s -> %s gives no error although a string cannot be converted", from.name, to.name)
	}
	c.same(fmt.Sprintf("frame after Encode %s -> %s", from.name, to.name), take(df), want)
	if parent != nil {
		got := take(parent)
		for q, col := range pBefore.Cols {
			for i := range col.V {
				if (col.T != 's' || !shown[i]) && !eqv(got.Cols[q].V[i], col.V[i]) {
					c.Failf("Encode on a view changed row %d of column %q of its source, which it does not show", i, col.Name)
				}
			}
		}
		c.Ev("hidden-rows-checked")
	}
	c.EvN("strings-converted", converted)
	c.Ev("encoded")
	return to
}

// ---- C16 ----

var (
	hashOf = map[string]int{}
	strOf  = map[int]string{}
)

func (c *Ctx) hashed(where string, s string, h int) {
	if h < 0 {
		c.Failf("%s: string %q hashed to %d", where, s, h)
	}
	if old, ok := hashOf[s]; ok && old != h {
		c.Failf("%s: string %q hashed to %d, elsewhere to %d", where, s, h, old)
	}
	if old, ok := strOf[h]; ok && old != s {
		c.Failf("%s: strings %q and %q both hashed to %d", where, s, old, h)
	}
	if len(hashOf) < 400000 {
		hashOf[s] = h
		strOf[h] = s
	}
	c.Ev("strings-hashed")
}

func (c *Ctx) hashString() interface{} {
	switch c.Int(9) {
	case 0:
		return nil
	case 1:
		return strPool[c.Int(len(strPool))]
	case 2:
		return strings.Repeat(string(rune('a'+c.Int(3))), c.Int(40))
	case 3:
		b := make([]byte, c.Int(12))
		for i := range b {
			b[i] = byte(c.Int(256))
		}
		return string(b)
	case 4:
		return string([]byte{byte(c.Int(4)), byte(c.Int(4)), byte(c.Int(3))})
	case 5:
		return fmt.Sprintf("%s%d", []string{"user", "User", "user ", "résu"}[c.Int(4)], c.Int(30))
	case 6:
		return strings.Repeat("long ", 20+c.Int(400)) + fmt.Sprint(c.Int(10))
	}
	return fmt.Sprintf("s%d", c.Int(40))
}

func c16many(c *Ctx) {
	const n = 150000
	strs := make([]string, 0, n)
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] && len(strs) < n {
			seen[s] = true
			strs = append(strs, s)
		}
	}
	for i := 0; i < 40000; i++ {
		add(fmt.Sprint(i))
		add(fmt.Sprintf("%08d", i))
		add(fmt.Sprintf("id-%x", i*7919))
	}
	base := []byte(strings.Repeat("The quick brown fox ", 3))
	for i := range base {
		for b := 0; b < 8; b++ {
			base[i] ^= 1 << b
			add(string(base))
			base[i] ^= 1 << b
		}
		for j := range base {
			base[i], base[j] = base[j], base[i]
			add(string(base))
			base[i], base[j] = base[j], base[i]
		}
		add(string(base[:i]))
		add(string(base[i:]))
	}
	for i := 0; i < 300; i++ {
		add(strings.Repeat("a", i))
		add(strings.Repeat("\x00", i))
	}
	for len(strs) < n {
		b := make([]byte, 1+c.Int(9))
		for i := range b {
			b[i] = byte(c.Int(256))
		}
		add(string(b))
	}
	c.NonTrivial()
	c.Log("%d distinct strings", len(strs))
	raw := dataframe.NewRawData()
	raw.SetMaxCPU(4)
	df := dataframe.DataBuilder{RawData: raw}.AddStrings("s", strs...).AddStrings("t", strs...).ToDataFrame()
	h := df.HashStringsView("t", "s").Ints("s")
	other := map[int]int{}
	for i := range strs {
		v := h.Get(i)
		if v < 0 {
			c.Failf("string %q hashed to %d", strs[i], v)
		}
		if j, ok := other[v]; ok {
			c.Failf("strings %q and %q both hashed to %d", strs[i], strs[j], v)
		}
		other[v] = i
		c.Ev("strings-hashed")
	}
	// high bits must be in use: otherwise "63-bit coincidences" would not be rare
	or := 0
	for v := range other {
		or |= v
	}
	if or>>60 == 0 {
		c.Failf("hashes only use the bits %x", or)
	}
	pick := make([]string, 0, 500)
	for len(pick) < 500 {
		pick = append(pick, strs[c.Int(n)])
	}
	if ans := c.hashElsewhere(pick, 3, 4); ans != nil {
		for q, s := range pick {
			if j := other[ans[q]]; strs[j] != s || ans[q] < 0 {
				c.Failf("string %q hashed to %d by another process", s, ans[q])
			}
			c.Ev("hashed-in-another-process")
		}
	} else {
		c.Ev("probe-process-unavailable")
	}
}

func c16(c *Ctx) {
	n := c.rows(GenOpt{MaxRows: 150})
	s := c.genSnap(GenOpt{MinRows: n, Fixed: true, Types: "fibo", MaxCols: 3})
	ns := c.Pick(1, 1, 2, 3, 4, 9)
	for j := 0; j < ns; j++ {
		col := Col{Name: fmt.Sprintf("s%d", j), T: 's', V: make([]interface{}, n)}
		if c.P(0.1) && s.col("") == nil && s.col("%d") == nil {
			col.Name = []string{"", "%d"}[c.Int(2)]
		}
		for i := range col.V {
			col.V[i] = c.hashString()
		}
		if s.col(col.Name) == nil {
			s.Cols = append(s.Cols, col)
		}
	}
	s = s.with()
	df := c.build(s)
	if c.P(0.7) {
		df = c.chain(df, 3)
	}
	df.SetMaxCPU(c.Pick(1, 2, 3, 5, 8, 64, 0, -1))
	before := take(df)
	c.Log("%s", before.schema())
	sub := c.subset(before.names("s"), 0)
	var r *DF
	if c.P(0.3) {
		enc := preprocessing.NewHashEncoder(preprocessing.HashEncoderOptions{})
		fitOn := df
		sub = before.names("s")
		if len(sub) > 1 && c.P(0.5) { // fitted on some of the columns
			sub = c.subset(sub, 1)
			fitOn = df.ColumnView(append(append([]string{}, sub...), before.names("fibo")...)...)
		}
		if err := enc.Fit(fitOn); err != nil {
			c.Failf("HashEncoder.Fit: %v", err)
		}
		if !sameSet(enc.TransformedColumns(), sub) {
			c.Failf("HashEncoder transforms %q instead of %q", enc.TransformedColumns(), sub)
		}
		var err error
		if r, err = enc.TransformView(df); err != nil {
			c.Failf("HashEncoder.TransformView: %v", err)
		}
		c.Log("HashEncoder on %q", sub)
	} else {
		r = df.HashStringsView(append([]string{}, sub...)...)
		c.Log("HashStringsView(%q)", sub)
	}
	got := take(r)
	c.same("input after hashing", take(df), before)
	if len(storageSizes(df)) == 1 {
		if v, p := caught(func() { r.RawData.ToDataFrame() }); p {
			c.Failf("the columns of the hashed view are not all full length: %v", v)
		}
	}
	isHashed := map[string]bool{}
	for _, name := range sub {
		isHashed[name] = true
	}
	if g, w := got.without(sub...), before.without(sub...); diff(g, w) != "" {
		c.Failf("columns that are not hashed: %s", diff(g, w))
	}
	if len(got.Cols) != len(before.Cols) {
		c.Failf("columns after hashing: %s", got.schema())
	}
	hashed := 0
	var sample []string
	var sampleH []int
	for _, name := range sub {
		col := got.col(name)
		if col == nil || col.T != 'i' {
			c.Failf("hashed column %q: %s", name, got.schema())
		}
		for i, v := range before.col(name).V {
			h := col.V[i].(int)
			if v == nil {
				if h != -1 {
					c.Failf("missing value of column %q row %d hashed to %d", name, i, h)
				}
				c.Ev("missing-hashed")
				continue
			}
			c.hashed(fmt.Sprintf("column %q row %d", name, i), v.(string), h)
			hashed++
			if len(sample) < 25 {
				sample, sampleH = append(sample, v.(string)), append(sampleH, h)
			}
		}
	}
	if len(sample) > 0 && c.P(0.25) {
		if ans := c.hashElsewhere(sample, c.Pick(1, 2, 7, -1), 1+c.Int(4)); ans != nil {
			for q := range ans {
				if ans[q] != sampleH[q] {
					c.Failf("string %q hashed to %d here, %d by another process", sample[q], sampleH[q], ans[q])
				}
			}
			c.EvN("hashed-in-another-process", len(ans))
		} else {
			c.Ev("probe-process-unavailable")
		}
	}
	// labels
	for _, name := range before.names("s") {
		labels, mapping := df.LabelToInt(name)
		want := map[string]int{}
		if len(labels) != before.N {
			c.Failf("%d labels for %d rows", len(labels), before.N)
		}
		for i, v := range before.col(name).V {
			w := -1
			if v != nil {
				if k, ok := want[v.(string)]; ok {
					w = k
				} else {
					w = len(want)
					want[v.(string)] = w
				}
				hashed++
			}
			if labels[i] != w {
				c.Failf("label of column %q row %d (%s) is %d instead of %d", name, i, vstr(v), labels[i], w)
			}
		}
		if len(mapping) != len(want) {
			c.Failf("mapping %v instead of %v", mapping, want)
		}
		for k, v := range want {
			if g, ok := mapping[k]; !ok || g != v {
				c.Failf("mapping %v instead of %v", mapping, want)
			}
		}
		c.EvN("rows-labelled", before.N)
	}
	c.same("input after labelling", take(df), before)
	if hashed >= 2 {
		c.NonTrivial()
	}
}

func sameSet(a, b []string) bool {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, v := range m {
		if v != 0 {
			return false
		}
	}
	return true
}
