package internal

import (
	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/resource"
)

// vfKV is an attribute of the chosen type with arbitrary content and slices of up to two elements.
func vfKV(key string, kind int) attribute.KeyValue {
	n := 0
	if kind >= 4 && kind < 8 {
		n = vf.Choose(key+".len", 3)
	}
	k := attribute.Key(key)
	switch kind {
	case 0:
		return k.Bool(vf.Any[bool](key))
	case 1:
		return k.Int64(vf.Any[int64](key))
	case 2:
		return k.Float64(vf.Any[float64](key))
	case 3:
		return k.String(vf.Any[string](key))
	case 4:
		return k.BoolSlice([]bool{vf.Any[bool](key), vf.Any[bool](key + "'")}[:n])
	case 5:
		return k.Int64Slice([]int64{vf.Any[int64](key), vf.Any[int64](key + "'")}[:n])
	case 6:
		return k.Float64Slice([]float64{vf.Any[float64](key), vf.Any[float64](key + "'")}[:n])
	case 7:
		return k.StringSlice([]string{vf.Any[string](key), vf.Any[string](key + "'")}[:n])
	}
	return attribute.KeyValue{Key: k}
}

// VfSameValue: an exported value is the attribute's value.
func VfSameValue(v pcommon.Value, a attribute.Value) bool {
	switch a.Type() {
	case attribute.BOOL:
		return v.Type() == pcommon.ValueTypeBool && v.Bool() == a.AsBool()
	case attribute.INT64:
		return v.Type() == pcommon.ValueTypeInt && v.Int() == a.AsInt64()
	case attribute.FLOAT64:
		return v.Type() == pcommon.ValueTypeDouble && vf.Same(v.Double(), a.AsFloat64())
	case attribute.STRING:
		return v.Type() == pcommon.ValueTypeStr && v.Str() == a.AsString()
	case attribute.INVALID:
		return v.Type() == pcommon.ValueTypeEmpty
	}
	if v.Type() != pcommon.ValueTypeSlice {
		return false
	}
	s := v.Slice()
	switch a.Type() {
	case attribute.BOOLSLICE:
		in := a.AsBoolSlice()
		if s.Len() != len(in) {
			return false
		}
		for i, x := range in {
			if s.At(i).Type() != pcommon.ValueTypeBool || s.At(i).Bool() != x {
				return false
			}
		}
	case attribute.INT64SLICE:
		in := a.AsInt64Slice()
		if s.Len() != len(in) {
			return false
		}
		for i, x := range in {
			if s.At(i).Type() != pcommon.ValueTypeInt || s.At(i).Int() != x {
				return false
			}
		}
	case attribute.FLOAT64SLICE:
		in := a.AsFloat64Slice()
		if s.Len() != len(in) {
			return false
		}
		for i, x := range in {
			if s.At(i).Type() != pcommon.ValueTypeDouble || !vf.Same(s.At(i).Double(), x) {
				return false
			}
		}
	case attribute.STRINGSLICE:
		in := a.AsStringSlice()
		if s.Len() != len(in) {
			return false
		}
		for i, x := range in {
			if s.At(i).Type() != pcommon.ValueTypeStr || s.At(i).Str() != x {
				return false
			}
		}
	}
	return true
}

// VfSameAttributes: the exported attributes are those of the list, which has distinct keys.
func VfSameAttributes(m pcommon.Map, kvs ...attribute.KeyValue) bool {
	if m.Len() != len(kvs) {
		return false
	}
	for _, kv := range kvs {
		v, has := m.Get(string(kv.Key))
		if !has || !VfSameValue(v, kv.Value) {
			return false
		}
	}
	return true
}

// Attributes of every type are exported under their keys with their values.
//
//vf:props C13 C20
func VF_C12_attributes() {
	vf.Bounded("up to two attributes with slices of up to two elements")
	vf.Unroll(4)
	vf.Coarse()
	n := vf.Choose("n", 3)
	kvs := make([]attribute.KeyValue, n)
	for i := range kvs {
		kvs[i] = vfKV([]string{"a", "b"}[i], vf.Choose("type", 9))
	}
	set := attribute.NewSet(kvs...)
	out := pcommon.NewMap()
	CopyAttributes(out, set)
	vf.Ensure(VfSameAttributes(out, kvs...), "the attributes are unchanged")
}

// Each export carries its own resource, whatever was exported before.
//
//vf:props C12 C13
func VF_C20_resource_cache() {
	vf.Bounded("sequences of three resources")
	vf.Unroll(4)
	vf.Coarse()
	kvs := []attribute.KeyValue{attribute.String("a", vf.Any[string]("x")), attribute.String("a", vf.Any[string]("y")), attribute.Int("b", 1)}
	rs := []*resource.Resource{resource.NewSchemaless(kvs[0]), resource.NewSchemaless(kvs[1]), resource.NewSchemaless(kvs[2]), resource.NewSchemaless(kvs[0]), resource.Empty(), nil}
	var rm ResourceMap
	var outs [3]pcommon.Resource
	var is [3]int
	for i := range is {
		is[i] = vf.Choose("resource", len(rs))
		outs[i] = rm.Get(rs[is[i]])
	}
	for i, k := range is {
		var want []attribute.KeyValue
		switch k {
		case 0, 3:
			want = kvs[:1]
		case 1:
			want = kvs[1:2]
		case 2:
			want = kvs[2:]
		}
		vf.Ensure(VfSameAttributes(outs[i].Attributes(), want...), "the resource given")
	}
	vf.Ensure(vf.LocksHeld() == 0, "no lock is held")
}
