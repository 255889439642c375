package main

import (
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// foldTable holds pure functions evaluated on literal arguments.
var foldTable = map[string]interface{}{
	"math.Log": math.Log, "math.Floor": math.Floor, "math.Ldexp": math.Ldexp, "math.Exp": math.Exp, "math.Exp2": math.Exp2,
	"math.Ceil": math.Ceil, "math.Sqrt": math.Sqrt, "math.Pow": math.Pow, "math.Trunc": math.Trunc, "math.Round": math.Round,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	"strings.TrimSuffix": strings.TrimSuffix, "strings.TrimPrefix": strings.TrimPrefix, "strings.Trim": strings.Trim,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.TrimRight": strings.TrimRight,
	"strings.TrimLeft": strings.TrimLeft, "strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.Count": strings.Count,
	"strings.Cut": strings.Cut, "strings.EqualFold": strings.EqualFold, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strings.IndexByte": strings.IndexByte, "strings.Repeat": strings.Repeat, "strings.Compare": strings.Compare, "strings.Title": strings.Title,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatBool": strconv.FormatBool,
	"strconv.Quote": strconv.Quote, "math.Max": math.Max, "math.Min": math.Min, "math.Mod": math.Mod,
	"(time.Duration).Seconds": time.Duration.Seconds, "(time.Duration).Milliseconds": time.Duration.Milliseconds,
	"(time.Duration).Minutes": time.Duration.Minutes, "(time.Duration).String": time.Duration.String,
}

// litTo converts a literal term to a Go value of type t.
func litTo(t *Term, T reflect.Type) (reflect.Value, bool) {
	v := reflect.New(T).Elem()
	switch T.Kind() {
	case reflect.String:
		if t.Op != "str" {
			return v, false
		}
		v.SetString(t.S)
	case reflect.Bool:
		if t.Op != "true" && t.Op != "false" {
			return v, false
		}
		v.SetBool(t.Op == "true")
	case reflect.Float64:
		if t.Op != "fp" {
			return v, false
		}
		v.SetFloat(t.fpVal())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch t.Op {
		case "int":
			if !t.I.IsInt64() {
				return v, false
			}
			v.SetInt(t.I.Int64())
		case "bv":
			v.SetInt(int64(t.bvVal()))
		default:
			return v, false
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if t.Op != "int" && t.Op != "bv" || !t.I.IsUint64() {
			return v, false
		}
		v.SetUint(t.I.Uint64())
	default:
		return v, false
	}
	return v, true
}

// litFrom converts a basic Go value to a literal of the Go type T.
func (ex *Exec) litFrom(v reflect.Value, T types.Type) (*Term, bool) {
	c := ex.c
	switch v.Kind() {
	case reflect.String:
		return c.StrC(v.String()), true
	case reflect.Bool:
		return c.BoolC(v.Bool()), true
	case reflect.Float64:
		return c.FPC(v.Float()), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if ii, ok := intKind(T); ok {
			x := c.IntC(v.Int())
			if ii.bv {
				return c.Int2BV(x), true
			}
			return x, true
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if ii, ok := intKind(T); ok {
			x := c.BigC(new(big.Int).SetUint64(v.Uint()))
			if ii.bv {
				return c.Int2BV(x), true
			}
			return x, true
		}
	}
	return nil, false
}

// fold evaluates a pure external function on literals.
func (ex *Exec) fold(st *State, cc *callCtx) ([]*Term, bool) {
	f, ok := foldTable[cc.name]
	if !ok {
		return nil, false
	}
	fv := reflect.ValueOf(f)
	if fv.Type().NumIn() != len(cc.args) || fv.Type().NumOut() != cc.sig.Results().Len() {
		return nil, false
	}
	var in []reflect.Value
	for i, a := range cc.args {
		v, ok := litTo(ex.norm(st, a), fv.Type().In(i))
		if !ok {
			return nil, false
		}
		in = append(in, v)
	}
	var rs []*Term
	for i, o := range fv.Call(in) {
		t, ok := ex.litFrom(o, cc.sig.Results().At(i).Type())
		if !ok {
			return nil, false
		}
		rs = append(rs, t)
	}
	return rs, true
}
