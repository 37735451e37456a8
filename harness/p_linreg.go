package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/rom1mouret/ml-essentials/algorithms"
	"github.com/rom1mouret/ml-essentials/dataframe"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Prop{ID: "C25", Quick: 60000, Thorough: 6000000, Random: c25,
		Rule:   "training runs whose outcome does not depend on the shuffling: one row per feature (closed form, any batch size), one batch per epoch and rows of equal gradients (reference gradient descent with momentum and decay), vanishing learning rates (decay only), and noiseless linear targets trained to convergence; on views with hidden rows and ignored columns; non-trivial: >=2 rows",
		Assume: []string{"finite values, at least one feature and one row", "the initial weights are those of a run with the same seed and a vanishing learning rate"}})
	register(&Prop{ID: "C26", Quick: 110000, Thorough: 11000000, Random: c26,
		Directed: []func(*Ctx){c26wide(2000, 2097), c26wide(2000, 2098), c26wide(3000, 4200), c26wide(700, 12000), c26wide(150000, 70)},
		Rule:     "random weights on random feature lists, applied to frames and views with hidden, repeated and reordered rows, zero rows, and more rows than fit in one batch; every prediction recomputed from the row's own features, rows identified by a unique id; non-trivial: >=2 rows",
		Assume:   []string{"at least one feature, non-constant training target, finite values"}})
}

// ---- C25 ----

// learning is a training frame: x by feature name, the target, and what else is in it.
type learning struct {
	df       *DF
	target   string
	features []string
	x        map[string][]float64 // over the rows shown
	y        []float64            // standardised
	n        int
	desc     string
}

// learningFrame builds a frame showing the given rows among hidden ones, in any order.
func (c *Ctx) learningFrame(x map[string][]float64, isBool map[string]bool, y []float64, repeatable bool) learning {
	n := len(y)
	l := learning{x: map[string][]float64{}, n: n}
	var twice []int // rows shown again
	if repeatable && c.P(0.3) {
		twice = make([]int, n)
		for i := range twice {
			twice[i] = c.Int(n)
		}
		again := func(v []float64) []float64 {
			out := make([]float64, n)
			for i, k := range twice {
				out[i] = v[k]
			}
			return out
		}
		y = again(y)
		rep := map[string][]float64{}
		for name, v := range x {
			rep[name] = again(v)
		}
		x = rep
	}
	total := n
	order := seq(n) // storage row of each shown row
	hide := c.P(0.5)
	if hide {
		total = n + 1 + c.Int(6)
		order = c.R.Perm(total)[:n]
	}
	if twice != nil {
		o := order
		order = make([]int, n)
		for i, k := range twice {
			order[i] = o[k]
		}
		hide = true
	}
	l.target = []string{"target", "_target", "", "y", "zz", "a0"}[c.Int(6)]
	if x[l.target] != nil {
		l.target = "target"
	}
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	col := func(v []float64) []float64 {
		out := make([]float64, total)
		for i := range out {
			out[i] = c.R.NormFloat64() * 50
		}
		for i, k := range order {
			out[k] = v[i]
		}
		return out
	}
	for name, v := range x {
		l.features = append(l.features, name)
		w := col(v)
		if isBool[name] {
			bools := make([]bool, total)
			for i := range bools {
				bools[i] = w[i] > 0.5
			}
			b.AddBools(name, bools...)
		} else {
			b.AddFloats(name, w...)
		}
		l.x[name] = v
	}
	b.AddFloats(l.target, col(y)...)
	if c.P(0.5) { // columns that are no features
		ints := make([]int, total)
		objs := make([]interface{}, total)
		strs := make([]interface{}, total)
		for i := range ints {
			ints[i] = c.Int(1000)
			objs[i] = 3.5
			strs[i] = fmt.Sprint(i)
		}
		b.AddInts("an int", ints...)
		b.AddObjects("an object", objs...)
		b.AddObjects("a string", strs...).MarkAsString("a string")
	}
	df := b.ToDataFrame()
	df.SetMaxCPU(c.Pick(-1, 1, 2, 8))
	if hide || !sameInts(order, seq(total)) {
		df = df.IndexView(order)
	}
	switch c.Int(4) {
	case 0:
		df = df.View()
	case 1:
		df = df.ReverseView().ReverseView()
	case 2:
		df = df.Copy()
	}
	l.df = df
	// the target as the model sees it
	mean := 0.0
	for _, v := range y {
		mean += v / float64(n)
	}
	ss := 0.0
	for _, v := range y {
		ss += (v - mean) * (v - mean)
	}
	std := math.Sqrt(ss / float64(n))
	l.y = make([]float64, n)
	for i, v := range y {
		if std > 1e-9 {
			l.y[i] = (v - mean) / std
		}
	}
	l.desc = fmt.Sprintf("%d rows of %d, %d features, target %q", n, total, len(l.features), l.target)
	return l
}

// fit trains with a known seed and returns the weights by position.
func (c *Ctx) fit(l learning, p algorithms.LinRegTrainParams, seed int64) *algorithms.LinearRegressor {
	reg := algorithms.NewLinearRegressor()
	rand.Seed(seed)
	if err := reg.Fit(l.df, l.target, p); err != nil {
		c.Failf("Fit: %v", err)
	}
	if len(reg.Weights) != len(reg.Features) || !sameSet(reg.Features, l.features) || len(reg.Features) != len(l.features) {
		c.Failf("features %q with %d weights instead of %q", reg.Features, len(reg.Weights), l.features)
	}
	c.Ev("trainings")
	return reg
}

// start returns the initial weights of a run with this seed, by position.
func (c *Ctx) start(l learning, p algorithms.LinRegTrainParams, seed int64) []float64 {
	p.LR = 1e-300
	p.WeightDecay = 0
	p.Momentum = 0
	a := c.fit(l, p, seed)
	p.Epochs = 1
	p.BatchSize = 1
	b := c.fit(l, p, seed)
	for i := range a.Weights {
		if a.Weights[i] != b.Weights[i] {
			c.Failf("with a vanishing learning rate the weights depend on the number of epochs: %v, %v", a.Weights, b.Weights)
		}
	}
	return append([]float64{}, a.Weights...)
}

func (c *Ctx) trainParams() algorithms.LinRegTrainParams {
	return algorithms.LinRegTrainParams{LowMemory: c.P(0.5), Verbose: c.P(0.1)}
}

func effective(p algorithms.LinRegTrainParams) (epochs int, lr float64, batch int) {
	epochs, lr, batch = p.Epochs, p.LR, p.BatchSize
	if epochs == 0 {
		epochs = 10
	}
	if lr == 0 {
		lr = 0.0001
	}
	if batch == 0 {
		batch = 64
	}
	return
}

func (c *Ctx) sameWeights(what string, reg *algorithms.LinearRegressor, want []float64, scale float64) {
	for i, w := range want {
		if !(math.Abs(reg.Weights[i]-w) <= 1e-7*(scale+math.Abs(w))) {
			c.Failf("%s: the weight of %q is %v instead of %v", what, reg.Features[i], reg.Weights[i], w)
		}
	}
	c.EvN("weights-compared", len(want))
}

func c25(c *Ctx) {
	switch c.Int(10) {
	case 0, 1, 2, 3:
		c25diagonal(c)
	case 4, 5:
		c25fullBatch(c)
	case 6:
		c25decay(c)
	case 7, 8:
		c25alike(c)
	default:
		c25converge(c)
	}
}

// c25diagonal: every feature is non-zero in one row only, so the weights evolve
// independently, once per epoch, whatever the batches are.
func c25diagonal(c *Ctx) {
	n := c.Range(1, 12)
	if c.P(0.05) {
		n = c.Range(60, 140)
	} else if c.P(0.002) {
		n = c.Range(257, 300)
	}
	x, isBool := map[string][]float64{}, map[string]bool{}
	row := map[string]int{}
	y := make([]float64, n)
	p := c.trainParams()
	p.BatchSize = c.Pick(0, 1, 2, 3, 4, 5, 7, n, n+1, 64, 100)
	p.Epochs = c.Pick(0, 1, 1, 2, 3, 5)
	big := 1.0
	if c.P(0.3) {
		big = 60 // the default learning rate is small
	} else {
		p.LR = 0.02 + 0.1*c.R.Float64()
	}
	for i := 0; i < n; i++ {
		y[i] = c.R.NormFloat64()*3 + 10
		name := fmt.Sprintf("a%d", i+1)
		if i < len(oddNames) && c.P(0.1) {
			name = oddNames[i]
		}
		row[name] = i
		v := make([]float64, n)
		v[i] = (0.5 + c.R.Float64()) * big * float64(1-2*c.Int(2))
		if big == 1 && c.P(0.2) {
			isBool[name] = true
			v[i] = 1
		}
		x[name] = v
	}
	// a row without any feature
	if c.P(0.3) {
		n++
		y = append(y, 4)
		for name := range x {
			x[name] = append(x[name], 0)
		}
	}
	l := c.learningFrame(x, isBool, y, false)
	seed := c.R.Int63()
	c.Log("diagonal: %s, %+v", l.desc, p)
	w0 := c.start(l, p, seed)
	reg := c.fit(l, p, seed)
	epochs, lr, _ := effective(p)
	want := make([]float64, len(w0))
	for i, name := range reg.Features {
		k := row[name]
		d := x[name][k]
		goal := l.y[k] / d
		want[i] = goal + (w0[i]-goal)*math.Pow(1-lr*d*d, float64(epochs))
	}
	c.sameWeights(fmt.Sprintf("%s, %+v", l.desc, p), reg, want, 1)
	if n > 1 {
		c.NonTrivial()
	}
	c.Ev("closed-form-runs")
}

// descend is a reference gradient descent over batches of the given rows.
func descend(l learning, features []string, w0 []float64, p algorithms.LinRegTrainParams, batches [][]int) []float64 {
	epochs, lr, _ := effective(p)
	w := append([]float64{}, w0...)
	prev := make([]float64, len(w))
	for e := 0; e < epochs; e++ {
		for _, rows := range batches {
			g := make([]float64, len(w))
			for _, r := range rows {
				pred := 0.0
				for j, f := range features {
					pred += w[j] * l.x[f][r]
				}
				for j, f := range features {
					g[j] += (pred - l.y[r]) * l.x[f][r]
				}
			}
			for j := range g {
				g[j] += p.Momentum * prev[j]
				w[j] -= lr * g[j]
				w[j] *= 1 - p.WeightDecay
			}
			prev = g
		}
	}
	return w
}

// c25fullBatch: one batch per epoch, so that the order of the rows does not matter.
func c25fullBatch(c *Ctx) {
	n := c.Range(1, 40)
	if c.P(0.03) {
		n = c.Pick(129, 256, 257, 300, 512, 513, 700, 1025, 2500)
	} else if c.P(0.001) {
		n = c.Pick(4097, 5000, 9000, 20000)
	}
	k := c.Range(1, 6)
	x, isBool := map[string][]float64{}, map[string]bool{}
	norm := 0.0
	for j := 0; j < k; j++ {
		name := fmt.Sprintf("x%d", j)
		isBool[name] = c.P(0.3)
		v := make([]float64, n)
		for i := range v {
			v[i] = c.R.NormFloat64()
			if isBool[name] {
				v[i] = float64(c.Int(2))
			}
			norm += v[i] * v[i]
		}
		x[name] = v
	}
	y := make([]float64, n)
	for i := range y {
		y[i] = c.R.NormFloat64()*7 - 3
	}
	p := c.trainParams()
	p.BatchSize = c.Pick(n, n, n+1, n+17, 0, 1000)
	if p.BatchSize < n && (n > 64 || p.BatchSize > 0) {
		p.BatchSize = n
	}
	p.Epochs = c.Pick(0, 1, 2, 3, 8)
	p.LR = (0.05 + 0.5*c.R.Float64()) / (1 + norm)
	if c.P(0.5) {
		p.Momentum = 0.9 * c.R.Float64()
	}
	if c.P(0.5) {
		p.WeightDecay = 0.2 * c.R.Float64()
	}
	l := c.learningFrame(x, isBool, y, true)
	seed := c.R.Int63()
	c.Log("one batch per epoch: %s, %+v", l.desc, p)
	w0 := c.start(l, p, seed)
	reg := c.fit(l, p, seed)
	c.sameWeights(fmt.Sprintf("%s, %+v", l.desc, p), reg, descend(l, reg.Features, w0, p, [][]int{seq(n)}), 1)
	if n > 1 {
		c.NonTrivial()
	}
	c.Ev("reference-descents")
}

// c25decay: with a vanishing learning rate, the weights shrink once per batch.
func c25decay(c *Ctx) {
	n := c.Pick(1, 2, 5, 63, 64, 65, 130, 200)
	x := map[string][]float64{"x": make([]float64, n), "z": make([]float64, n)}
	y := make([]float64, n)
	for i := range y {
		x["x"][i], x["z"][i], y[i] = c.R.NormFloat64(), c.R.NormFloat64(), c.R.NormFloat64()
	}
	p := c.trainParams()
	p.LR = 1e-200
	p.Epochs = c.Pick(0, 1, 2, 5)
	p.BatchSize = c.Pick(0, 1, 2, 3, 10, 64, n, n+1)
	p.WeightDecay = 0.001 + 0.05*c.R.Float64()
	if c.P(0.3) {
		p.Momentum = 0.5
	}
	l := c.learningFrame(x, nil, y, true)
	seed := c.R.Int63()
	c.Log("decay only: %s, %+v", l.desc, p)
	w0 := c.start(l, p, seed)
	reg := c.fit(l, p, seed)
	epochs, _, batch := effective(p)
	f := math.Pow(1-p.WeightDecay, float64(epochs*((n+batch-1)/batch)))
	want := make([]float64, len(w0))
	for i := range want {
		want[i] = w0[i] * f
	}
	c.sameWeights(fmt.Sprintf("%s, %+v", l.desc, p), reg, want, 1e-9)
	if n > 1 {
		c.NonTrivial()
	}
	c.Ev("decay-runs")
}

// c25alike: all rows are (x, y) or (-x, -y), in equal numbers, and thus have the same gradient.
func c25alike(c *Ctx) {
	n := 2 * c.Range(1, 40)
	if c.P(0.03) {
		n = 2 * c.Pick(65, 128, 129, 200, 257, 600, 1025)
	}
	k := c.Range(1, 4)
	x := map[string][]float64{}
	sign := make([]float64, n)
	for i := range sign {
		sign[i] = float64(1 - 2*(i%2))
	}
	c.R.Shuffle(n, func(a, b int) { sign[a], sign[b] = sign[b], sign[a] })
	norm := 0.0
	for j := 0; j < k; j++ {
		v := c.R.NormFloat64()
		norm += v * v
		col := make([]float64, n)
		for i := range col {
			col[i] = v * sign[i]
		}
		x[fmt.Sprintf("x%d", j)] = col
	}
	scale := 1 + 100*c.R.Float64()
	y := make([]float64, n)
	for i := range y {
		y[i] = sign[i] * scale
	}
	p := c.trainParams()
	p.BatchSize = c.Pick(1, 2, 3, 5, 7, 10, 16, n-1, n, n+1, 0)
	if n > 80 {
		p.BatchSize = c.Pick(7, 64, 100, 127, 257, 512, n-1, n+1, 0)
	}
	if p.BatchSize < 0 {
		p.BatchSize = 0
	}
	_, _, batch := effective(p)
	p.Epochs = c.Pick(0, 1, 2, 3)
	p.LR = (0.05 + 0.4*c.R.Float64()) / (float64(imin(batch, n)) * (norm + 0.01))
	if c.P(0.5) {
		p.Momentum = 0.8 * c.R.Float64()
	}
	if c.P(0.5) {
		p.WeightDecay = 0.1 * c.R.Float64()
	}
	l := c.learningFrame(x, nil, y, false)
	seed := c.R.Int63()
	c.Log("rows of equal gradient: %s, %+v", l.desc, p)
	w0 := c.start(l, p, seed)
	reg := c.fit(l, p, seed)
	var batches [][]int
	for lo := 0; lo < n; lo += batch {
		batches = append(batches, seq(n)[lo:imin(lo+batch, n)])
	}
	c.sameWeights(fmt.Sprintf("%s, %+v", l.desc, p), reg, descend(l, reg.Features, w0, p, batches), 1)
	c.NonTrivial()
	c.Ev("reference-descents")
}

// c25converge: a noiseless linear target is recovered.
func c25converge(c *Ctx) {
	n := c.Range(12, 70)
	k := c.Range(1, 3)
	x := map[string][]float64{}
	isBool := map[string]bool{}
	design := mat.NewDense(n, k+1, nil)
	maxNorm := 0.0
	for j := 0; j <= k; j++ {
		name := fmt.Sprintf("x%d", j)
		v := make([]float64, n)
		b := c.P(0.25) && j < k
		isBool[name] = b
		for i := range v {
			v[i] = c.R.NormFloat64()
			if b {
				v[i] = float64(c.Int(2))
			}
			if j == k {
				v[i] = 1 // the intercept
			}
			design.Set(i, j, v[i])
		}
		x[name] = v
	}
	coef := make([]float64, k+1)
	for j := range coef {
		coef[j] = c.R.NormFloat64() * 20
	}
	y := make([]float64, n)
	for i := range y {
		s := 0.0
		for j := range coef {
			y[i] += coef[j] * design.At(i, j)
			s += design.At(i, j) * design.At(i, j)
		}
		maxNorm = math.Max(maxNorm, s)
	}
	var gram mat.Dense
	gram.Mul(design.T(), design)
	sym := mat.NewSymDense(k+1, nil)
	for i := 0; i <= k; i++ {
		for j := i; j <= k; j++ {
			sym.SetSym(i, j, gram.At(i, j))
		}
	}
	var eig mat.EigenSym
	if !eig.Factorize(sym, false) {
		c.Abandon("eigenvalues")
	}
	small := eig.Values(nil)[0]
	l := c.learningFrame(x, isBool, y, false)
	p := c.trainParams()
	p.BatchSize = c.Pick(1, 3, 7, 16, n, 64)
	p.LR = 0.3 / (maxNorm * float64(imin(p.BatchSize, n)))
	steps := 14 / (p.LR * small)
	if steps > 6000 || small < 0.5 {
		c.Abandon("ill-conditioned features")
	}
	p.Epochs = int(steps) + 20
	c.Log("to convergence: %s, %+v", l.desc, p)
	reg := c.fit(l, p, c.R.Int63())
	r, err := reg.Predict(l.df, "predicted")
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	s := take(r)
	pred, goal := s.col("predicted"), s.col(l.target)
	spread := 0.0
	for _, v := range y {
		spread = math.Max(spread, math.Abs(v-y[0]))
	}
	for i := range pred.V {
		if d := math.Abs(pred.V[i].(float64) - goal.V[i].(float64)); !(d <= 0.02*spread+1e-6) {
			c.Failf("%s, %+v: row %d is predicted as %v instead of %v", l.desc, p, i, pred.V[i], goal.V[i])
		}
	}
	c.NonTrivial()
	c.Ev("converged-runs")
}

// ---- C26 ----

// regressor returns a model with the given weights whose target had the returned mean and deviation.
func (c *Ctx) regressor(features []string, weights []float64) (reg *algorithms.LinearRegressor, mean, std float64) {
	n := c.Range(2, 9)
	v := make([]float64, n)
	for {
		mean, std = 0, 0
		for i := range v {
			v[i] = c.R.NormFloat64()*50 + 20
			mean += v[i] / float64(n)
		}
		for i := range v {
			std += (v[i] - mean) * (v[i] - mean)
		}
		std = math.Sqrt(std / float64(n))
		if std > 1e-3 {
			break
		}
	}
	b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
	b.AddFloats("y", v...).AddFloats("x", make([]float64, n)...)
	reg = algorithms.NewLinearRegressor()
	if err := reg.Fit(b.ToDataFrame(), "y", algorithms.LinRegTrainParams{Epochs: 1}); err != nil {
		c.Failf("Fit: %v", err)
	}
	reg.Features = append([]string{}, features...)
	reg.Weights = append([]float64{}, weights...)
	return reg, mean, std
}

func c26(c *Ctx) {
	n := c.rows(GenOpt{})
	o := GenOpt{MinRows: n, Fixed: true, ID: true, Finite: true, NoNaN: true, SmallInts: true, MaxCols: 8, Must: "f"}
	o.NoNaN = !c.P(0.15)
	s := c.genSnap(o)
	df := c.build(s)
	for k := c.Int(4); k > 0; k-- {
		st := c.selectRows(df)
		c.Log("on %s", st.name)
		df = st.df
	}
	df.SetMaxCPU(c.Pick(1, 2, 8, -1))
	features := c.subset(s.without("id").names("fib"), 1)
	weights := make([]float64, len(features))
	for i := range weights {
		weights[i] = c.R.NormFloat64() * 3
	}
	if c.P(0.1) {
		weights[c.Int(len(weights))] = 0
	}
	reg, mean, std := c.regressor(features, weights)
	in := take(df)
	name := "predicted"
	switch c.Int(5) {
	case 0:
		l := in.without("id").names("fibso")
		name = l[c.Int(len(l))]
	case 1:
		name = oddNames[c.Int(len(oddNames))]
	case 2:
		name = "_target"
	}
	c.Log("features %q, result %q, %s", features, name, in.schema())
	c26check(c, df, in, reg, mean, std, name)
	if c.P(0.3) { // again, on the result or on the same frame
		c26check(c, df, in, reg, mean, std, "second")
	}
}

func c26check(c *Ctx, df *DF, in Snap, reg *algorithms.LinearRegressor, mean, std float64, name string) {
	features, weights := append([]string{}, reg.Features...), append([]float64{}, reg.Weights...)
	r, err := reg.Predict(df, name)
	if err != nil {
		c.Failf("Predict: %v", err)
	}
	c.same("input of Predict", take(df), in)
	for i := range features {
		if reg.Features[i] != features[i] || reg.Weights[i] != weights[i] {
			c.Failf("Predict changed the model")
		}
	}
	got := take(r)
	c.wellFormed(r, "result of Predict")
	if col := got.col(name); col == nil || col.T != 'f' {
		c.Failf("no float column %q in the result: %s", name, got.schema())
	}
	if d := sameMultiset(got.without(name), in.without(name)); d != "" {
		c.Failf("forwarded columns: %s", d)
	}
	row := map[int]int{}
	for i, v := range in.col("id").V {
		row[v.(int)] = i
	}
	for i := 0; i < got.N; i++ {
		k := row[got.col("id").V[i].(int)]
		want, mag := 0.0, math.Abs(mean)+std
		for j, f := range features {
			p := weights[j] * numOf(in.col(f).V[k])
			want += p
			mag += math.Abs(p) * std
		}
		want = want*std + mean
		if math.IsNaN(want) { // no prediction, unless the missing value has no weight
			missing := false
			for j, f := range features {
				missing = missing || weights[j] != 0 && math.IsNaN(numOf(in.col(f).V[k]))
			}
			if g := got.col(name).V[i].(float64); missing && !math.IsNaN(g) {
				c.Failf("result %q: row %d (id %v) with a missing value is predicted as %v", name, i, got.col("id").V[i], g)
			}
			c.Ev("incomplete-rows")
			continue
		}
		if g := got.col(name).V[i].(float64); !(math.Abs(g-want) <= 1e-9*mag) {
			c.Failf("result %q: row %d (id %v) is predicted as %v instead of %v", name, i, got.col("id").V[i], g, want)
		}
		c.Ev("predictions-compared")
	}
	if got.N > 1 {
		c.NonTrivial()
	}
}

// c26wide: more cells than one batch holds.
func c26wide(features, rows int) func(*Ctx) {
	return func(c *Ctx) {
		base := make([][]float64, 5)
		for k := range base {
			base[k] = make([]float64, rows)
			for i := range base[k] {
				base[k][i] = c.R.NormFloat64()
			}
		}
		b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
		names := make([]string, features)
		weights := make([]float64, features)
		sum := make([]float64, len(base))
		for j := range names {
			names[j] = fmt.Sprintf("x%d", j)
			weights[j] = c.R.NormFloat64()
			k := c.Int(len(base))
			sum[k] += weights[j]
			b.SetFloats(names[j], base[k])
		}
		b.AddInts("id", seq(rows)...)
		df := b.ToDataFrame()
		idx := seq(rows)
		switch c.Int(3) {
		case 0:
			idx = c.R.Perm(rows)
			df = df.IndexView(idx)
		case 1:
			for i := range idx {
				idx[i] = rows - 1 - i
			}
			df = df.ReverseView()
		}
		reg, mean, std := c.regressor(names, weights)
		c.Log("%d features, %d rows", features, rows)
		r, err := reg.Predict(df, "predicted")
		if err != nil {
			c.Failf("Predict: %v", err)
		}
		if r.NumRows() != rows {
			c.Failf("%d rows instead of %d", r.NumRows(), rows)
		}
		id, pred := r.Ints("id"), r.Floats("predicted")
		seen := make([]bool, rows)
		for i := 0; i < rows; i++ {
			k := id.Get(i)
			if seen[k] {
				c.Failf("row with id %d appears twice", k)
			}
			seen[k] = true
			want := 0.0
			for q := range base {
				want += base[q][k] * sum[q]
			}
			want = want*std + mean
			if !(math.Abs(pred.Get(i)-want) <= 1e-7*(1+math.Abs(mean)+std*float64(features))) {
				c.Failf("row %d (id %d) of %d is predicted as %v instead of %v", i, k, rows, pred.Get(i), want)
			}
		}
		c.EvN("predictions-compared", rows)
		c.Ev("predictions-over-several-batches")
		c.NonTrivial()
	}
}
