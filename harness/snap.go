package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

type DF = dataframe.DataFrame

// Col is the observed content of one column: T is f, i, b, o (plain objects) or s (strings).
type Col struct {
	Name string
	T    byte
	V    []interface{}
}

// Snap is the observed content of a frame, columns sorted by name.
type Snap struct {
	N    int
	Cols []Col
}

func eqv(a, b interface{}) bool {
	fa, ok1 := a.(float64)
	fb, ok2 := b.(float64)
	if ok1 && ok2 {
		if math.IsNaN(fa) || math.IsNaN(fb) {
			return math.IsNaN(fa) && math.IsNaN(fb)
		}
		return math.Float64bits(fa) == math.Float64bits(fb)
	}
	return a == b
}

func vstr(v interface{}) string {
	switch x := v.(type) {
	case float64:
		if x == 0 && math.Signbit(x) {
			return "-0f"
		}
		return fmt.Sprintf("%vf", x)
	case string:
		return fmt.Sprintf("%q", x)
	case nil:
		return "nil"
	case *obj:
		return fmt.Sprintf("obj%d", x.n)
	}
	return fmt.Sprintf("%v", v)
}

type obj struct{ n int }

// take reads a frame through the exported headers and accessors.
func take(df *DF) Snap {
	n := df.NumRows()
	s := Snap{N: n}
	str := map[string]bool{}
	for _, name := range df.StringHeader().NameList() {
		str[name] = true
	}
	for _, name := range df.FloatHeader().NameList() {
		a := df.Floats(name)
		v := make([]interface{}, n)
		for i := range v {
			v[i] = a.Get(i)
		}
		s.Cols = append(s.Cols, Col{name, 'f', v})
	}
	for _, name := range df.IntHeader().NameList() {
		a := df.Ints(name)
		v := make([]interface{}, n)
		for i := range v {
			v[i] = a.Get(i)
		}
		s.Cols = append(s.Cols, Col{name, 'i', v})
	}
	for _, name := range df.BoolHeader().NameList() {
		a := df.Bools(name)
		v := make([]interface{}, n)
		for i := range v {
			v[i] = a.Get(i)
		}
		s.Cols = append(s.Cols, Col{name, 'b', v})
	}
	for _, name := range df.ObjectHeader().NameList() {
		a := df.Objects(name)
		v := make([]interface{}, n)
		for i := range v {
			v[i] = a.Get(i)
		}
		t := byte('o')
		if str[name] {
			t = 's'
			delete(str, name)
		}
		s.Cols = append(s.Cols, Col{name, t, v})
	}
	// string marks without an object column stay visible as a pseudo type
	for name := range str {
		s.Cols = append(s.Cols, Col{name, '?', nil})
	}
	sort.Slice(s.Cols, func(i, j int) bool {
		if s.Cols[i].Name != s.Cols[j].Name {
			return s.Cols[i].Name < s.Cols[j].Name
		}
		return s.Cols[i].T < s.Cols[j].T
	})
	return s
}

func (s Snap) col(name string) *Col {
	for i := range s.Cols {
		if s.Cols[i].Name == name {
			return &s.Cols[i]
		}
	}
	return nil
}

func (s Snap) names(types string) []string {
	var out []string
	for _, c := range s.Cols {
		if strings.IndexByte(types, c.T) >= 0 {
			out = append(out, c.Name)
		}
	}
	return out
}

// rows builds the snapshot of the selected rows.
func (s Snap) rows(idx []int) Snap {
	r := Snap{N: len(idx)}
	for _, c := range s.Cols {
		v := make([]interface{}, len(idx))
		for j, i := range idx {
			v[j] = c.V[i]
		}
		r.Cols = append(r.Cols, Col{c.Name, c.T, v})
	}
	return r
}

func (s Snap) only(names []string) Snap {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	r := Snap{N: s.N}
	for _, c := range s.Cols {
		if set[c.Name] {
			r.Cols = append(r.Cols, c)
		}
	}
	return r
}

func (s Snap) without(names ...string) Snap {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	r := Snap{N: s.N}
	for _, c := range s.Cols {
		if !set[c.Name] {
			r.Cols = append(r.Cols, c)
		}
	}
	return r
}

func (s Snap) with(cols ...Col) Snap {
	r := Snap{N: s.N, Cols: append(append([]Col{}, s.Cols...), cols...)}
	sort.SliceStable(r.Cols, func(i, j int) bool { return r.Cols[i].Name < r.Cols[j].Name })
	return r
}

func (s Snap) schema() string {
	var b strings.Builder
	for _, c := range s.Cols {
		fmt.Fprintf(&b, "%q:%c ", c.Name, c.T)
	}
	return fmt.Sprintf("%d rows %s", s.N, b.String())
}

// diff describes the first difference, "" if there is none.
func diff(got, want Snap) string {
	if got.N != want.N {
		return fmt.Sprintf("%d rows instead of %d", got.N, want.N)
	}
	if g, w := got.schema(), want.schema(); g != w {
		return fmt.Sprintf("columns differ: got [%s] want [%s]", g, w)
	}
	for k := range got.Cols {
		g, w := got.Cols[k], want.Cols[k]
		for i := range w.V {
			if !eqv(g.V[i], w.V[i]) {
				return fmt.Sprintf("column %q row %d shows %s instead of %s", g.Name, i, vstr(g.V[i]), vstr(w.V[i]))
			}
		}
	}
	return ""
}

// rowKeys returns one comparable text per row (over all columns).
func (s Snap) rowKeys() []string {
	out := make([]string, s.N)
	var b strings.Builder
	for i := range out {
		b.Reset()
		for _, c := range s.Cols {
			switch x := c.V[i].(type) {
			case *obj:
				fmt.Fprintf(&b, "%p|", x)
			case float64:
				if math.IsNaN(x) {
					b.WriteString("NaN|")
				} else {
					fmt.Fprintf(&b, "%x|", math.Float64bits(x))
				}
			default:
				fmt.Fprintf(&b, "%T%q|", x, fmt.Sprint(x))
			}
		}
		out[i] = b.String()
	}
	return out
}

func multiset(keys []string) map[string]int {
	m := map[string]int{}
	for _, k := range keys {
		m[k]++
	}
	return m
}

// sameMultiset compares the rows regardless of order.
func sameMultiset(got, want Snap) string {
	if got.N != want.N {
		return fmt.Sprintf("%d rows instead of %d", got.N, want.N)
	}
	if g, w := got.schema(), want.schema(); g != w {
		return fmt.Sprintf("columns differ: got [%s] want [%s]", g, w)
	}
	m := multiset(want.rowKeys())
	for i, k := range got.rowKeys() {
		m[k]--
		if m[k] < 0 {
			return fmt.Sprintf("row %d (%s) is not among the expected rows often enough", i, got.rowText(i))
		}
	}
	return ""
}

// subMultiset checks that every row of got occurs in want at least as often.
func subMultiset(got, want Snap) string {
	if g, w := got.rows(nil).schema(), want.rows(nil).schema(); g != w {
		return fmt.Sprintf("columns differ: got [%s] want [%s]", g, w)
	}
	m := multiset(want.rowKeys())
	for i, k := range got.rowKeys() {
		m[k]--
		if m[k] < 0 {
			return fmt.Sprintf("row %d (%s) occurs more often than in the source", i, got.rowText(i))
		}
	}
	return ""
}

func (s Snap) rowText(i int) string {
	var parts []string
	for _, c := range s.Cols {
		parts = append(parts, fmt.Sprintf("%q=%s", c.Name, vstr(c.V[i])))
	}
	return strings.Join(parts, " ")
}

// shared returns the storage index of every row (needs a column).
func sharedIdx(df *DF) []int {
	n := df.NumRows()
	out := make([]int, n)
	get := func(f func(int) int) []int {
		for i := range out {
			out[i] = f(i)
		}
		return out
	}
	for _, name := range df.FloatHeader().NameList() {
		return get(df.Floats(name).SharedIndex)
	}
	for _, name := range df.IntHeader().NameList() {
		return get(df.Ints(name).SharedIndex)
	}
	for _, name := range df.BoolHeader().NameList() {
		return get(df.Bools(name).SharedIndex)
	}
	for _, name := range df.ObjectHeader().NameList() {
		return get(df.Objects(name).SharedIndex)
	}
	return nil
}
