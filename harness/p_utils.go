//go:build !noutils

package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"testing"

	"github.com/rom1mouret/ml-essentials/utils"
)

func init() {
	register(&Prop{ID: "C32", Quick: 1000000, Thorough: 40000000, Random: c32,
		Rule:   "random ranges, partitions, string lists, float vectors and assertion arguments (equal, close, different, NaN, infinite) against direct definitions; non-trivial: at least two elements or groups",
		Assume: []string{"intervals and group counts are positive", "sorted vectors have no NaN"}})
}

func c32(c *Ctx) {
	switch c.Int(8) {
	case 0, 1:
		c32range(c)
	case 2, 3:
		c32groups(c)
	case 4:
		c32sets(c)
	case 5:
		c32sort(c)
	default:
		c32asserts(c)
	}
}

func c32range(c *Ctx) {
	from, to, step := c.Range(-40, 40), c.Range(-40, 120), c.Pick(1, 1, 1, 2, 3, 7, 50, 1000)
	if c.P(0.05) {
		at := (c.Int(3) - 1) << uint(c.Int(50))
		from, to = from+at, to+at
	}
	c.Log("MakeRange(%d,%d,%d)", from, to, step)
	got := utils.MakeRange(from, to, step)
	var want []int
	for v := from; v < to; v += step {
		want = append(want, v)
	}
	if len(want) > 1 {
		c.NonTrivial()
	}
	if !sameInts(got, want) {
		c.Failf("MakeRange(%d,%d,%d) is %v instead of %v", from, to, step, got, want)
	}
	c.EvN("range-elements", len(got))
}

func c32groups(c *Ctx) {
	n, k := c.Int(60), c.Range(1, 70)
	if c.P(0.3) {
		k = c.Range(1, 5)
	}
	huge := c.P(0.1)
	if huge {
		n = c.Int(1 << uint(c.Range(7, 33)))
	}
	c.Log("%d elements in %d groups", n, k)
	if n > 1 && k > 1 {
		c.NonTrivial()
	}
	ind := utils.CreateGroupIndexer(n, k)
	if c.P(0.3) { // one that was used before
		m := c.Int(30)
		ind = utils.CreateGroupIndexer(m, c.Range(1, 9))
		for j := c.Int(10); j > 0 && ind.HasNext(); j-- {
			ind.Next()
		}
		c.Log("initialized again after %d elements", m)
		ind.Initialize(n, k)
		c.Ev("initialized-again")
	}
	if ind.NGroups > k || ind.NGroups > n || (n > 0 && ind.NGroups < 1) {
		c.Failf("%d elements in at most %d groups: %d groups are announced", n, k, ind.NGroups)
	}
	at, groups := 0, 0
	for ind.HasNext() {
		if groups > n {
			c.Failf("the groups of %d elements never end", n)
		}
		g, from, to := ind.Next()
		if g != groups || from != at || to <= from || to > n {
			c.Failf("group %d of %d elements in %d groups is number %d [%d:%d], expected to start at %d", groups, n, k, g, from, to, at)
		}
		if most := (n-1)/k + 1; to-from > most {
			c.Failf("group %d of %d elements in at most %d groups has %d elements", groups, n, k, to-from)
		}
		at = to
		groups++
	}
	if at != n || groups > ind.NGroups {
		c.Failf("%d groups (%d announced) cover %d of %d elements", groups, ind.NGroups, at, n)
	}
	c.EvN("groups", groups)
	if huge {
		return
	}
	// the same with strings
	in := make([]string, n)
	for i := range in {
		in[i] = fmt.Sprint("s", c.Int(20))
	}
	keep := append([]string{}, in...)
	out := utils.SplitStringSlice(in, k)
	var all []string
	for _, g := range out {
		all = append(all, g...)
		if len(g) > (n-1)/k+1 {
			c.Failf("SplitStringSlice(%q,%d) has a part of %d strings", in, k, len(g))
		}
	}
	if len(out) > k || len(all) != n || n > 0 && !reflect.DeepEqual(all, in) || !reflect.DeepEqual(keep, in) {
		c.Failf("SplitStringSlice(%q,%d) is %q", in, k, out)
	}
	if got := utils.SplitStringSlice(in, 0); got != nil {
		c.Failf("SplitStringSlice(%q,0) is %q", in, got)
	}
}

func c32sets(c *Ctx) {
	n := c.Int(20)
	list := make([]string, n)
	set := map[string]bool{}
	for i := range list {
		list[i] = oddNames[c.Int(len(oddNames))]
		set[list[i]] = true
	}
	c.Log("list %q", list)
	if n > 1 {
		c.NonTrivial()
	}
	got := utils.ToStringSet(list)
	if !reflect.DeepEqual(got, set) {
		c.Failf("ToStringSet(%q) is %v", list, got)
	}
	keys := utils.StringSetKeys(got)
	sort.Strings(keys)
	var want []string
	for k := range set {
		want = append(want, k)
	}
	sort.Strings(want)
	if len(keys) != len(want) || len(want) > 0 && !reflect.DeepEqual(keys, want) {
		c.Failf("StringSetKeys of %q is %q", want, keys)
	}
	for _, s := range oddNames {
		at := -1
		for i := len(list) - 1; i >= 0; i-- {
			if list[i] == s {
				at = i
			}
		}
		if got := utils.IndexOfString(s, list); got != at {
			c.Failf("IndexOfString(%q,%q) is %d instead of %d", s, list, got, at)
		}
	}
	c.EvN("strings-looked-up", len(oddNames))
}

func c32sort(c *Ctx) {
	n := c.rows(GenOpt{MaxRows: 130})
	v := make([]float64, n)
	for i := range v {
		v[i] = c.genFloat(GenOpt{NoNaN: true})
		if c.P(0.3) && i > 0 {
			v[i] = v[c.Int(i)]
		}
	}
	keep := append([]float64{}, v...)
	readonly := c.P(0.6)
	c.Log("FloatArgSort of %d values, readonly %v", n, readonly)
	if n > 1 {
		c.NonTrivial()
	}
	inds := utils.FloatArgSort(v, readonly)
	if len(inds) != n {
		c.Failf("FloatArgSort of %d values gives %d indices", n, len(inds))
	}
	seen := make([]bool, n)
	for i, j := range inds {
		if j < 0 || j >= n || seen[j] {
			c.Failf("FloatArgSort gives no permutation: %v", inds)
		}
		seen[j] = true
		if i > 0 && keep[inds[i-1]] > keep[j] {
			c.Failf("FloatArgSort: value %v at rank %d is after %v", keep[j], i, keep[inds[i-1]])
		}
		if readonly && !eqv(v[i], keep[i]) {
			c.Failf("FloatArgSort(readonly) changes element %d from %v to %v", i, keep[i], v[i])
		}
	}
	c.EvN("values-sorted", n)
}

// c32asserts: an assertion returns false and fails its test if and only if what it asserts is wrong.
func c32asserts(c *Ctx) {
	what := ""
	want := false
	var f func(t *testing.T) bool
	str := func() string { return strPool[c.Int(len(strPool))] }
	float := func() float64 {
		return []float64{0, 1, 1.005, 0.5, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, 2, 1.02}[c.Int(11)]
	}
	close := func(a, b float64) bool {
		if math.IsNaN(a) || math.IsNaN(b) {
			return math.IsNaN(a) && math.IsNaN(b)
		}
		return a == b || math.Abs(a-b) <= 0.01
	}
	switch c.Int(12) {
	case 0:
		a, b := str(), str()
		what, want = fmt.Sprintf("StringEquals(%q,%q)", a, b), a == b
		f = func(t *testing.T) bool { return utils.AssertStringEquals("x", a, b, t) }
	case 1:
		a, b := str(), str()
		if c.P(0.3) {
			b = a
		}
		what, want = fmt.Sprintf("StringNotEquals(%q,%q)", a, b), a != b
		f = func(t *testing.T) bool { return utils.AssertStringNotEquals("x", a, b, t) }
	case 2:
		a, b := c.Int(3), c.Int(3)
		what, want = fmt.Sprintf("IntEquals(%d,%d)", a, b), a == b
		f = func(t *testing.T) bool { return utils.AssertIntEquals("x", a, b, t) }
	case 3:
		a, b := c.Int(3), c.Int(3)
		what, want = fmt.Sprintf("IntNotEquals(%d,%d)", a, b), a != b
		f = func(t *testing.T) bool { return utils.AssertIntNotEquals("x", a, b, t) }
	case 4:
		a, b := float(), float()
		what, want = fmt.Sprintf("FloatEquals(%v,%v)", a, b), close(a, b)
		f = func(t *testing.T) bool { return utils.AssertFloatEquals("x", a, b, t) }
	case 5:
		v := c.P(0.5)
		if c.P(0.5) {
			what, want = fmt.Sprintf("True(%v)", v), v
			f = func(t *testing.T) bool { return utils.AssertTrue("x", v, t) }
		} else {
			what, want = fmt.Sprintf("False(%v)", v), !v
			f = func(t *testing.T) bool { return utils.AssertFalse("x", v, t) }
		}
	case 6:
		var err error
		if c.P(0.5) {
			err = errors.New("broken")
		}
		what, want = fmt.Sprintf("NoError(%v)", err), err == nil
		f = func(t *testing.T) bool { return utils.AssertNoError(err, t) }
	case 7:
		n := c.Int(4)
		a, b := []string{}, []string{}
		for i := 0; i < n; i++ {
			a = append(a, fmt.Sprint(c.Int(2)))
			b = append(b, fmt.Sprint(c.Int(2)))
		}
		ordered := c.P(0.5)
		what = fmt.Sprintf("StringSliceEquals(%q,%q,%v)", a, b, ordered)
		want = reflect.DeepEqual(a, b)
		if !ordered {
			want = reflect.DeepEqual(utils.ToStringSet(a), utils.ToStringSet(b))
		}
		f = func(t *testing.T) bool { return utils.AssertStringSliceEquals("x", a, b, ordered, t) }
	case 8, 9:
		a, b := []int{}, []int{}
		for i := c.Int(4); i > 0; i-- {
			a = append(a, c.Int(2))
		}
		b = append(b, a...)
		if len(b) > 0 && c.P(0.5) {
			b[c.Int(len(b))]++
		} else if c.P(0.3) {
			b = append(b, 0)
		}
		if c.P(0.5) {
			what, want = fmt.Sprintf("IntSliceEquals(%v,%v)", a, b), sameInts(a, b)
			f = func(t *testing.T) bool { return utils.AssertIntSliceEquals("x", a, b, t) }
		} else {
			what, want = fmt.Sprintf("IntSliceNotEquals(%v,%v)", a, b), !sameInts(a, b)
			f = func(t *testing.T) bool { return utils.AssertIntSliceNotEquals("x", a, b, t) }
		}
	case 10:
		a, b := []float64{}, []float64{}
		for i := c.Int(4); i > 0; i-- {
			a = append(a, float())
		}
		b = append(b, a...)
		if len(b) > 0 && c.P(0.6) {
			b[c.Int(len(b))] = float()
		} else if c.P(0.3) {
			b = append(b, 0)
		}
		what, want = fmt.Sprintf("FloatSliceEquals(%v,%v)", a, b), len(a) == len(b)
		for i := range a {
			want = want && close(a[i], b[i])
		}
		f = func(t *testing.T) bool { return utils.AssertFloatSliceEquals("x", a, b, t) }
	default:
		a, b := []bool{}, []bool{}
		for i := c.Int(4); i > 0; i-- {
			a = append(a, c.P(0.5))
		}
		b = append(b, a...)
		if len(b) > 0 && c.P(0.5) {
			k := c.Int(len(b))
			b[k] = !b[k]
		} else if c.P(0.3) {
			b = append(b, false)
		}
		what, want = fmt.Sprintf("BoolSliceEquals(%v,%v)", a, b), reflect.DeepEqual(a, b)
		f = func(t *testing.T) bool { return utils.AssertBoolSliceEquals("x", a, b, t) }
	}
	c.Log("%s", what)
	c.NonTrivial()
	passed, returned := asTest(f)
	if passed != want || returned != want {
		c.Failf("%s: the test passes: %v, the assertion returns %v, it should be %v", what, passed, returned, want)
	}
	c.Ev(fmt.Sprintf("assertions-%v", want))
}
