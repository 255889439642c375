package sdkinstrument

import (
	"go.opentelemetry.io/otel/attribute"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
)

func vfCut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// vfElem says that out is in with oversized text cut, looking at element p of a string slice.
func vfElem(in, out attribute.KeyValue, limit, p int) bool {
	if string(out.Key) != vfCut(string(in.Key), limit) || out.Value.Type() != in.Value.Type() {
		return false
	}
	switch in.Value.Type() {
	case attribute.STRING:
		return out.Value.AsString() == vfCut(in.Value.AsString(), limit)
	case attribute.STRINGSLICE:
		a, b := in.Value.AsStringSlice(), out.Value.AsStringSlice()
		return len(a) == len(b) && (p < 0 || p >= len(a) || b[p] == vfCut(a[p], limit))
	}
	return out.Value == in.Value
}

// Every key, string and string-slice element is cut to the limit and nothing else changes.
func VF_C18_truncate() {
	vf.Bounded("attribute lists of up to 2 attributes, string slices of up to 2 elements")
	vf.Unroll(3)
	n := vf.Choose("n", 3)
	attrs := vf.AnyKVs("attrs", n)
	orig := make([]attribute.KeyValue, n)
	for i := range attrs {
		if attrs[i].Value.Type() == attribute.STRINGSLICE {
			vf.Assume(len(attrs[i].Value.AsStringSlice()) <= 2)
		}
		orig[i] = attrs[i]
	}
	perf := Performance{AttributeSizeLimit: vf.Any[uint32]("limit")}
	limit := int(perf.AttributeSizeLimit)
	out := perf.TruncateAttributes(attrs)
	vf.Ensure(len(out) == n, "no attribute is added or removed")
	for i := 0; i < n; i++ {
		for p := 0; p < 2; p++ {
			vf.Ensure(vf.Implies(limit != 0, vf.Eval(func() bool { return vfElem(orig[i], out[i], limit, p) })), "oversized text is cut, nothing else changes")
		}
		vf.Ensure(vf.Implies(limit == 0, vf.Same(out[i], orig[i])), "no limit, no change")
		vf.Ensure(vf.Same(attrs[i], orig[i]), "the caller's list is not modified")
	}
}

// vfTruncate checks one aspect of an arbitrary attribute of a list of any length.
func vfTruncate(perf Performance, applies func(in attribute.KeyValue) bool, holds func(in, out attribute.KeyValue, limit int) bool) {
	limit := int(perf.AttributeSizeLimit)
	n := vf.Len("n")
	attrs := vf.AnyKVs("attrs", n)
	i := vf.Pick("i", n)
	vf.Assume(0 <= i && i < n)
	in := attrs[i]
	vf.Assume(applies(in))
	// the list under construction: a copy once something has changed
	vf.LoopInv(func(_ int, out []attribute.KeyValue, copied bool) bool {
		return len(out) == n && (copied || vf.SameArray(out, attrs)) && (!copied || vf.FreshSlice(out) && !vf.SameArray(out, attrs))
	})
	vf.LoopInv(func(k int, out []attribute.KeyValue) bool { return vf.Implies(i >= k, vf.Same(out[i], in)) })
	vf.LoopInv(func(k int, out []attribute.KeyValue) bool {
		return vf.Implies(i < k, len(out) == n && vf.Eval(func() bool { return holds(in, out[i], limit) }))
	})
	// nothing oversized so far
	vf.LoopInv(func(k int) bool { return vf.Implies(i < k, vf.Eval(func() bool { return holds(in, in, limit) })) })
	out := perf.TruncateAttributes(attrs)
	vf.Ensure(len(out) == n, "no attribute is added or removed")
	vf.Ensure(vf.Implies(limit != 0, vf.Eval(func() bool { return holds(in, out[i], limit) })), "oversized text is cut, nothing else changes")
	vf.Ensure(vf.Implies(limit == 0, vf.Same(out[i], in)), "no limit, no change")
	vf.Ensure(vf.Same(attrs[i], in), "the caller's list is not modified")
}

func vfPerf() Performance { return Performance{AttributeSizeLimit: vf.Any[uint32]("limit")} }

// The same for lists of any length: keys.
func VF_C18_truncate_key() {
	vfTruncate(vfPerf(), func(attribute.KeyValue) bool { return true }, func(in, out attribute.KeyValue, limit int) bool {
		return string(out.Key) == vfCut(string(in.Key), limit) && out.Value.Type() == in.Value.Type()
	})
}

// Strings.
func VF_C18_truncate_string() {
	vfTruncate(vfPerf(), func(in attribute.KeyValue) bool { return in.Value.Type() == attribute.STRING }, func(in, out attribute.KeyValue, limit int) bool {
		return out.Value.AsString() == vfCut(in.Value.AsString(), limit)
	})
}

// Other values.
func VF_C18_truncate_other() {
	vfTruncate(vfPerf(), func(in attribute.KeyValue) bool {
		return in.Value.Type() != attribute.STRING && in.Value.Type() != attribute.STRINGSLICE
	}, func(in, out attribute.KeyValue, limit int) bool { return vf.Same(out.Value, in.Value) })
}

// String slices of any length, looking at an arbitrary element.
func VF_C18_truncate_slice() {
	perf := vfPerf()
	limit := int(perf.AttributeSizeLimit)
	p := vf.Pick("p", 3)
	vf.Assume(0 <= p)
	vf.LoopInv(func(k int, ss []string, any bool, kv attribute.KeyValue) bool {
		s := kv.Value.AsStringSlice()
		return p >= len(ss) || (any || ss[p] == s[p])
	})
	vf.LoopInv(func(k int, ss []string, kv attribute.KeyValue) bool {
		s := kv.Value.AsStringSlice()
		return p >= len(ss) || vf.Ite(p < k, ss[p] == vfCut(s[p], limit), ss[p] == s[p])
	})
	vfTruncate(perf, func(in attribute.KeyValue) bool { return in.Value.Type() == attribute.STRINGSLICE }, func(in, out attribute.KeyValue, l int) bool {
		a, b := in.Value.AsStringSlice(), out.Value.AsStringSlice()
		return len(a) == len(b) && (p >= len(a) || b[p] == vfCut(a[p], l))
	})
}

// Zero settings select the defaults and all other settings are kept.
//vf:props C04 C06
func VF_C18_validate() {
	p := vf.Any[Performance]("perf")
	v := p.Validate()
	pick := func(x, d uint32) uint32 { return vf.Ite(x == 0, d, x) }
	vf.Ensure(v.AttributeSizeLimit == pick(p.AttributeSizeLimit, DefaultAttributeSizeLimit), "attribute size limit")
	vf.Ensure(v.AggregatorCardinalityLimit == pick(p.AggregatorCardinalityLimit, DefaultAggregatorCardinalityLimit), "aggregator limit")
	vf.Ensure(v.InstrumentCardinalityLimit == pick(p.InstrumentCardinalityLimit, DefaultInstrumentCardinalityLimit), "instrument limit")
	vf.Ensure(v.InactiveCollectionPeriods == pick(p.InactiveCollectionPeriods, DefaultInactiveCollectionPeriods), "inactive periods")
	vf.Ensure(v.IgnoreCollisions == p.IgnoreCollisions && vf.Same(v.MeasurementProcessor, p.MeasurementProcessor), "other settings kept")
}
