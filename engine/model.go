package main

// Counterexample values for replay.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
)

type anyLabel struct {
	rec  int
	path string
	sort *Sort
	typ  types.Type
}

func (ex *Exec) scalarTerms(v *Term, T types.Type, path string, emit func(path string, t *Term, T types.Type)) {
	c := ex.c
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch v.Sort.Kind {
		case SBool, SInt, SBV, SFP, SStr:
			emit(path, v, T)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ex.scalarTerms(c.Sel(v, i), u.Field(i).Type(), path+"."+fieldName(u.Field(i), i), emit)
		}
	case *types.Array:
		if u.Len() <= maxArr {
			for i := int64(0); i < u.Len(); i++ {
				ex.scalarTerms(c.Sel(v, int(i)), u.Elem(), fmt.Sprintf("%s[%d]", path, i), emit)
			}
		}
	}
}

// initMemVal reads a location of the initial memory.
func (ex *Exec) initVal(key string, idx []*Term, T types.Type) *Term {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, ex.initVal(key+"."+fieldName(u.Field(i), i), idx, u.Field(i).Type()))
		}
		return ex.c.Mk(ex.sortOf(T), as...)
	}
	v := ex.newRoot("m:"+key, T, len(idx), ex.c.IntC(0), ex.c.IntC(0))
	for _, i := range idx {
		v = ex.c.Select(v, i)
	}
	return v
}

func (ex *Exec) anyTerms(st *State) (vals []*Term, labels []anyLabel) {
	for i, a := range st.anys {
		i := i
		emit := func(path string, t *Term, T types.Type) {
			if len(vals) > 400 {
				return
			}
			vals = append(vals, t)
			labels = append(labels, anyLabel{i, path, t.Sort, T})
		}
		switch a.Kind {
		case "any":
			ex.scalarTerms(a.Val, a.T, "", emit)
		case "ptr":
			ex.scalarTerms(ex.initVal(ex.objKey(a.T), []*Term{a.Val}, a.T), a.T, "", emit)
		case "slice":
			emit("#len", a.Len, types.Typ[types.Int])
			n := int64(6)
			if a.Len.Op == "int" {
				n = a.Len.I.Int64()
			}
			for j := int64(0); j < n && j < 12; j++ {
				ex.scalarTerms(ex.initVal("[]"+ex.tkey(a.T), []*Term{a.Val, ex.c.IntC(j)}, a.T), a.T, fmt.Sprintf("[%d]", j), emit)
			}
		}
	}
	return
}

type sexp struct {
	atom string
	list []*sexp
	str  bool
}

func parseSexp(s string) []*sexp {
	var stack [][]*sexp
	cur := []*sexp{}
	for i := 0; i < len(s); {
		switch ch := s[i]; {
		case ch == '(':
			stack = append(stack, cur)
			cur = []*sexp{}
			i++
		case ch == ')':
			if len(stack) == 0 {
				return cur
			}
			n := &sexp{list: cur}
			cur = append(stack[len(stack)-1], n)
			stack = stack[:len(stack)-1]
			i++
		case ch == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(s) {
				if s[j] == '"' {
					if j+1 < len(s) && s[j+1] == '"' {
						sb.WriteByte('"')
						j += 2
						continue
					}
					break
				}
				sb.WriteByte(s[j])
				j++
			}
			cur = append(cur, &sexp{atom: sb.String(), str: true})
			i = j + 1
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return cur
			}
			cur = append(cur, &sexp{atom: s[i : i+j+2]})
			i += j + 2
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			cur = append(cur, &sexp{atom: s[i:j]})
			i = j
		}
	}
	return cur
}

func unescSMT(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "\\u{") {
			j := strings.IndexByte(s[i:], '}')
			if j > 0 {
				if v, err := strconv.ParseUint(s[i+3:i+j], 16, 32); err == nil {
					sb.WriteByte(byte(v))
					i += j + 1
					continue
				}
			}
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String()
}

func bitsOf(a string) (*big.Int, bool) {
	if strings.HasPrefix(a, "#x") {
		v, ok := new(big.Int).SetString(a[2:], 16)
		return v, ok
	}
	if strings.HasPrefix(a, "#b") {
		v, ok := new(big.Int).SetString(a[2:], 2)
		return v, ok
	}
	return nil, false
}

func (x *sexp) value(s *Sort, T types.Type) (string, bool) {
	switch s.Kind {
	case SBool:
		return "b:" + x.atom, true
	case SInt:
		if x.list != nil {
			if len(x.list) == 2 && x.list[0].atom == "-" {
				return "i:-" + x.list[1].atom, true
			}
			return "", false
		}
		return "i:" + x.atom, true
	case SBV:
		if v, ok := bitsOf(x.atom); ok {
			if ii, ok := intKind(T); ok && ii.signed {
				return fmt.Sprintf("i:%d", int64(v.Uint64())), true
			}
			return "i:" + v.String(), true
		}
		if len(x.list) == 3 && strings.HasPrefix(x.list[1].atom, "bv") {
			v, _ := new(big.Int).SetString(x.list[1].atom[2:], 10)
			if v != nil {
				return fmt.Sprintf("i:%d", int64(v.Uint64())), true
			}
		}
	case SFP:
		if len(x.list) >= 2 && x.list[0].atom == "_" {
			switch x.list[1].atom {
			case "+zero":
				return "f:0", true
			case "-zero":
				return fmt.Sprintf("f:%d", uint64(1)<<63), true
			case "+oo":
				return fmt.Sprintf("f:%d", math.Float64bits(math.Inf(1))), true
			case "-oo":
				return fmt.Sprintf("f:%d", math.Float64bits(math.Inf(-1))), true
			case "NaN":
				return fmt.Sprintf("f:%d", math.Float64bits(math.NaN())), true
			}
		}
		if len(x.list) == 4 && x.list[0].atom == "fp" {
			a, ok1 := bitsOf(x.list[1].atom)
			b, ok2 := bitsOf(x.list[2].atom)
			m, ok3 := bitsOf(x.list[3].atom)
			if ok1 && ok2 && ok3 {
				return fmt.Sprintf("f:%d", a.Uint64()<<63|b.Uint64()<<52|m.Uint64()), true
			}
		}
	case SStr:
		if x.str {
			return "s:" + unescSMT(x.atom), true
		}
	}
	return "", false
}

func (ex *Exec) modelAnys(st *State, model string, labels []anyLabel) []anyVal {
	out := make([]anyVal, len(st.anys))
	for i, a := range st.anys {
		out[i] = anyVal{Name: a.Name, Kind: a.Kind, Vals: map[string]string{}}
	}
	xs := parseSexp(model)
	if len(xs) == 0 {
		return out
	}
	for i, p := range xs[0].list {
		if i >= len(labels) || len(p.list) != 2 {
			break
		}
		if v, ok := p.list[1].value(labels[i].sort, labels[i].typ); ok {
			out[labels[i].rec].Vals[labels[i].path] = v
		}
	}
	return out
}
