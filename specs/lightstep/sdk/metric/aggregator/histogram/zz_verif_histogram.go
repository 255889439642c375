package histogram

import (
	"github.com/lightstep/go-expohisto/structure"
	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
)

// VfSameHistogram compares everything a histogram shows.
func VfSameHistogram(a, b aggregation.Histogram) bool {
	return a.Count() == b.Count() && a.Sum() == b.Sum() && a.Min() == b.Min() && a.Max() == b.Max() && a.ZeroCount() == b.ZeroCount() &&
		a.Scale() == b.Scale() && vfSameBuckets(a.Positive(), b.Positive()) && vfSameBuckets(a.Negative(), b.Negative())
}

func vfSameBuckets(a, b aggregation.Buckets) bool {
	if a.Len() != b.Len() || a.Len() != 0 && a.Offset() != b.Offset() {
		return false
	}
	for i := uint32(0); i < a.Len(); i++ {
		if a.At(i) != b.At(i) {
			return false
		}
	}
	return true
}

var vfVals = []float64{1, 2, -3, 0, 1e10}

func vfMk(cfg aggregator.Config, vs ...float64) *Float64 {
	h := &Float64{}
	h.Histogram.Init(cfg.Histogram)
	for _, v := range vs {
		h.Histogram.Update(v)
	}
	return h
}

// Histogram operations transfer exactly the recorded values, bucket by bucket, without sharing storage.
//
//vf:props C14
func VF_C02_histogram_buckets() {
	vf.Bounded("up to three values out of five, two bucket limits")
	vf.Unroll(400)
	var m Float64Methods
	size := int32(4)
	if vf.Choose("size", 2) == 1 {
		size = 20
	}
	cfg := aggregator.Config{Histogram: structure.NewConfig(structure.WithMaxSize(size))}
	x, y, z := vfVals[vf.Choose("x", 5)], vfVals[vf.Choose("y", 5)], vfVals[vf.Choose("z", 5)]
	var a, b Float64
	m.Init(&a, cfg)
	m.Init(&b, cfg)
	m.Update(&a, x)
	m.Update(&a, y)
	vf.Ensure(VfSameHistogram(&a, vfMk(cfg, x, y)), "recorded values")
	m.Update(&b, z)
	switch vf.Choose("op", 3) {
	case 0:
		m.Move(&a, &b)
		vf.Ensure(VfSameHistogram(&b, vfMk(cfg, x, y)), "Move transfers everything")
		vf.Ensure(VfSameHistogram(&a, vfMk(cfg)), "Move resets the input")
		m.Update(&a, z)
		vf.Ensure(VfSameHistogram(&a, vfMk(cfg, z)), "the input starts again")
		vf.Ensure(VfSameHistogram(&b, vfMk(cfg, x, y)), "what was moved stays")
	case 1:
		m.Copy(&a, &b)
		vf.Ensure(VfSameHistogram(&b, vfMk(cfg, x, y)), "Copy copies everything")
		m.Update(&a, z)
		vf.Ensure(VfSameHistogram(&a, vfMk(cfg, x, y, z)), "the input goes on")
		vf.Ensure(VfSameHistogram(&b, vfMk(cfg, x, y)), "what was copied stays")
		m.Copy(&a, &b)
		vf.Ensure(VfSameHistogram(&b, vfMk(cfg, x, y, z)), "copied again")
	case 2:
		m.Merge(&a, &b)
		w := vfMk(cfg, z)
		w.Histogram.MergeFrom(&vfMk(cfg, x, y).Histogram)
		vf.Ensure(VfSameHistogram(&b, w), "Merge combines both")
		vf.Ensure(VfSameHistogram(&a, vfMk(cfg, x, y)), "the input is unchanged")
		m.Update(&b, y)
		w.Histogram.Update(y)
		vf.Ensure(VfSameHistogram(&b, w) && VfSameHistogram(&a, vfMk(cfg, x, y)), "no storage is shared")
	}
}

// What a histogram of the dependency shows besides buckets.
type vfShown[N number.Any] struct {
	count, zero    uint64
	sum, min, max N
}

func vfShow[N number.Any](h *structure.Histogram[N]) vfShown[N] {
	return vfShown[N]{h.Count(), h.ZeroCount(), h.Sum(), h.Min(), h.Max()}
}

func vfBecomes[N number.Any](h *structure.Histogram[N], w vfShown[N]) {
	vf.Havoc(h)
	vf.Assume(vf.Same(vfShow(h), w))
}

// contracts of the dependency (its scalar summary; buckets become arbitrary)
func vfClear[N number.Any](h *structure.Histogram[N]) { vfBecomes(h, vfShown[N]{}) }

func vfUpdate[N number.Any](h *structure.Histogram[N], v N) {
	s := vfShow(h)
	if s.count == 0 || v < s.min {
		s.min = v
	}
	if s.count == 0 || v > s.max {
		s.max = v
	}
	s.count++
	if v == 0 {
		s.zero++
	} else {
		s.sum += v
	}
	vfBecomes(h, s)
}

func vfMergeFrom[N number.Any](h, o *structure.Histogram[N]) {
	s, t := vfShow(h), vfShow(o)
	if s.count == 0 || t.count != 0 && t.min < s.min {
		s.min = t.min
	}
	if s.count == 0 || t.count != 0 && t.max > s.max {
		s.max = t.max
	}
	s.count += t.count
	s.zero += t.zero
	s.sum += t.sum
	vfBecomes(h, s)
}

//vf:contract (*github.com/lightstep/go-expohisto/structure.Histogram[int64]).Clear
func vfClearI(h *structure.Int64) { vfClear(h) }

//vf:contract (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).Clear
func vfClearF(h *structure.Float64) { vfClear(h) }

//vf:contract (*github.com/lightstep/go-expohisto/structure.Histogram[int64]).Update
func vfUpdateI(h *structure.Int64, v int64) { vfUpdate(h, v) }

//vf:contract (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).Update
func vfUpdateF(h *structure.Float64, v float64) { vfUpdate(h, v) }

//vf:contract (*github.com/lightstep/go-expohisto/structure.Histogram[int64]).MergeFrom
func vfMergeFromI(h, o *structure.Int64) { vfMergeFrom(h, o) }

//vf:contract (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).MergeFrom
func vfMergeFromF(h, o *structure.Float64) { vfMergeFrom(h, o) }

//vf:contract (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).update
func vfBucketsF(h *structure.Float64, b *structure.Buckets, v float64, n uint64) { vf.Havoc(b) }

//vf:contract (*github.com/lightstep/go-expohisto/structure.Histogram[int64]).update
func vfBucketsI(h *structure.Int64, b *structure.Buckets, v float64, n uint64) { vf.Havoc(b) }

func vfOps[N number.Any, T number.Traits[N]]() {
	var m Methods[N, T]
	var t T
	a, b := &Histogram[N, T]{}, &Histogram[N, T]{}
	sa, sb := vf.Any[vfShown[N]]("a"), vf.Any[vfShown[N]]("b")
	if vf.Symbolic() {
		vfBecomes(&a.Histogram, sa)
		vfBecomes(&b.Histogram, sb)
	} else {
		m.Init(a, aggregator.Config{})
		m.Init(b, aggregator.Config{})
		for i, v := range []N{sa.sum, sa.min, sa.max, sb.sum, sb.min, sb.max} {
			if t.IsNaN(v) || t.IsInf(v) {
				continue
			}
			if uint64(i) < sa.count%4 {
				m.Update(a, v)
			} else if uint64(i-3) < sb.count%4 {
				m.Update(b, v)
			}
		}
		sa, sb = vfShow(&a.Histogram), vfShow(&b.Histogram)
	}
	vf.Assume(!t.IsNaN(sa.sum) && !t.IsNaN(sb.sum) && !t.IsNaN(sa.min) && !t.IsNaN(sa.max) && !t.IsNaN(sb.min) && !t.IsNaN(sb.max))
	vf.Assume((sa.count != 0 || sa == vfShown[N]{}) && (sb.count != 0 || sb == vfShown[N]{}))
	vf.Assume(sa.min <= sa.max && sb.min <= sb.max && sa.count < 1<<62 && sb.count < 1<<62)
	v := vf.Any[N]("v")
	vf.Assume(!t.IsNaN(v) && !t.IsInf(v))
	get := t.FromNumber
	shown := func(h *Histogram[N, T]) vfShown[N] {
		return vfShown[N]{h.Count(), h.ZeroCount(), get(h.Sum()), get(h.Min()), get(h.Max())}
	}
	vf.Ensure(vf.Same(shown(a), sa), "what is shown")
	ea, eb := sa.count == 0, sb.count == 0
	switch vf.Choose("op", 5) {
	case 0:
		m.Update(a, v)
		g := shown(a)
		vf.Ensure(g.count == sa.count+1, "Update counts one")
		vf.Ensure(vf.Same(g.sum, sa.sum+v) || v == 0 && g.sum == sa.sum, "Update adds to the sum")
		vf.Ensure(g.zero == vf.Ite(v == 0, sa.zero+1, sa.zero), "zeros are counted")
		vf.Ensure(g.min <= v && v <= g.max, "min and max bound the new value")
		vf.Ensure(vf.Implies(ea, g.min == v && g.max == v), "the first value is both extremes")
		vf.Ensure(vf.Implies(!ea, g.min <= sa.min && (g.min == sa.min || g.min == v)), "min is an attained lower bound")
		vf.Ensure(vf.Implies(!ea, g.max >= sa.max && (g.max == sa.max || g.max == v)), "max is an attained upper bound")
		vf.Ensure(vf.Same(shown(b), sb), "others unchanged")
	case 1:
		m.Merge(a, b)
		g := shown(b)
		vf.Ensure(g.count == sa.count+sb.count && g.zero == sa.zero+sb.zero, "Merge adds counts")
		vf.Ensure(vf.Same(g.sum, sb.sum+sa.sum), "Merge adds sums")
		vf.Ensure(vf.Implies(!ea && !eb, g.min <= sa.min && g.min <= sb.min && (g.min == sa.min || g.min == sb.min)), "merged min")
		vf.Ensure(vf.Implies(!ea && !eb, g.max >= sa.max && g.max >= sb.max && (g.max == sa.max || g.max == sb.max)), "merged max")
		vf.Ensure(vf.Implies(ea, g.min == sb.min && g.max == sb.max), "merging an empty histogram changes no extreme")
		vf.Ensure(vf.Implies(eb && !ea, g.min == sa.min && g.max == sa.max), "merging into an empty histogram takes the extremes")
		vf.Ensure(vf.Same(shown(a), sa), "input unchanged")
	case 2:
		m.Move(a, b)
		vf.Ensure(vf.Same(shown(b), sa), "Move transfers everything")
		vf.Ensure(!m.HasChange(a) && vf.Same(shown(a), vfShown[N]{}), "Move resets the input")
	case 3:
		m.Copy(a, b)
		g := shown(b)
		vf.Ensure(g == sa && vf.Same(shown(a), sa), "Copy copies everything")
	case 4:
		vf.Ensure(m.HasChange(a) == (sa.count != 0), "HasChange iff something was recorded")
		p, ok := m.ToStorage(m.ToAggregation(a))
		vf.Ensure(ok && p == a && m.ToAggregation(a).Kind() == m.Kind() && m.Kind() == aggregation.HistogramKind, "storage round trip")
	}
	vf.Ensure(vf.LocksHeld() == 0, "no lock remains held")
}

// Each histogram operation describes exactly the recorded values, over the dependency's contracts.
//
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[int64]).Clear
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[int64]).Update
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[int64]).MergeFrom
func VF_C02_histogram_ops_int64() { vfOps[int64, number.Int64Traits]() }

// The same for floating point.
//
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).Clear
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).Update
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).MergeFrom
func VF_C02_histogram_ops_float64() { vfOps[float64, number.Float64Traits]() }

// The dependency's Update fulfils the contract assumed of it.
//
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).update
func VF_C02_histogram_dependency_float64() {
	vf.Assume(vf.Symbolic())
	h := &structure.Float64{}
	s := vf.Any[vfShown[float64]]("s")
	vfBecomes(h, s)
	v := vf.Any[float64]("v")
	g := &structure.Float64{}
	vfBecomes(g, s)
	vfUpdate(g, v)
	h.Update(v)
	vf.Ensure(vf.Same(vfShow(h), vfShow(g)), "Update as assumed")
}

// The same for integers.
//
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[int64]).update
func VF_C02_histogram_dependency_int64() {
	vf.Assume(vf.Symbolic())
	h := &structure.Int64{}
	s := vf.Any[vfShown[int64]]("s")
	vfBecomes(h, s)
	v := vf.Any[int64]("v")
	g := &structure.Int64{}
	vfBecomes(g, s)
	vfUpdate(g, v)
	h.Update(v)
	vf.Ensure(vf.Same(vfShow(h), vfShow(g)), "Update as assumed")
}

// State shared with concurrent operations is only touched under its lock.
//
//vf:props C22
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).Clear
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).Update
//vf:use (*github.com/lightstep/go-expohisto/structure.Histogram[float64]).MergeFrom
func VF_C02_histogram_locked() {
	var m Float64Methods
	var a, o Float64
	if !vf.Symbolic() {
		m.Init(&a, aggregator.Config{})
		m.Init(&o, aggregator.Config{})
	}
	vf.Guard(&a.lock, &a.Histogram, "the histogram")
	switch vf.Choose("op", 4) {
	case 0:
		m.Update(&a, 1)
	case 1:
		m.Move(&a, &o)
	case 2:
		m.Copy(&a, &o)
	case 3:
		m.Merge(&o, &a)
	}
	vf.Ensure(vf.LocksHeld() == 0, "no lock remains held")
}
