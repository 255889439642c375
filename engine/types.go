package main

// Go types to sorts, zero values, type facts, flattening of structs.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

const maxArr = 64

// typeStr is the canonical name of a type (aliases resolved at every level).
func typeStr(t types.Type) string {
	q := func(p *types.Package) string { return p.Path() }
	switch u := types.Unalias(t).(type) {
	case *types.Basic:
		return types.Typ[u.Kind()].Name() // byte = uint8, rune = int32
	case *types.Pointer:
		return "*" + typeStr(u.Elem())
	case *types.Slice:
		return "[]" + typeStr(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeStr(u.Elem()))
	case *types.Map:
		return "map[" + typeStr(u.Key()) + "]" + typeStr(u.Elem())
	case *types.Named:
		if u.TypeArgs().Len() > 0 {
			s := types.TypeString(u.Origin(), q)
			if i := strings.Index(s, "["); i >= 0 {
				s = s[:i]
			}
			s += "["
			for i := 0; i < u.TypeArgs().Len(); i++ {
				if i > 0 {
					s += ","
				}
				s += typeStr(u.TypeArgs().At(i))
			}
			return s + "]"
		}
		return types.TypeString(u, q)
	default:
		return types.TypeString(u, q)
	}
}

func (ex *Exec) tkey(t types.Type) string {
	t = types.Unalias(t)
	if k, ok := ex.tkeys[t]; ok {
		return k
	}
	k := typeStr(t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Parent() != n.Obj().Pkg().Scope() && n.TypeArgs().Len() == 0 {
		k = fmt.Sprintf("%s@%d", k, n.Obj().Pos())
	}
	ex.tkeys[t] = k
	if ex.typeOf[k] == nil {
		ex.typeOf[k] = t
	}
	return k
}

// typeID is the dynamic type tag of interface values.
func (ex *Exec) typeID(t types.Type) *Term {
	k := ex.tkey(t)
	id, ok := ex.tids[k]
	if !ok {
		ex.tidList = append(ex.tidList, types.Unalias(t))
		id = len(ex.tidList)
		ex.tids[k] = id
	}
	return ex.c.IntC(int64(id))
}

type intInfo struct {
	bits   int
	signed bool
	bv     bool
}

func intKind(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.UntypedInt, types.UntypedRune:
		return intInfo{64, true, false}, true
	case types.Int8:
		return intInfo{8, true, false}, true
	case types.Int16:
		return intInfo{16, true, false}, true
	case types.Int32:
		return intInfo{32, true, false}, true
	case types.Int64:
		return intInfo{64, true, true}, true
	case types.Uint:
		return intInfo{64, false, false}, true
	case types.Uint8:
		return intInfo{8, false, false}, true
	case types.Uint16:
		return intInfo{16, false, false}, true
	case types.Uint32:
		return intInfo{32, false, false}, true
	case types.Uint64, types.Uintptr:
		return intInfo{64, false, true}, true
	}
	return intInfo{}, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// pointerLike values are represented by one reference.
func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func (ex *Exec) sliceSort() *Sort {
	c := ex.c
	return c.TupSort("Slice", []*Sort{c.Int, c.Int, c.Int, c.Int})
}
func (ex *Exec) ifaceSort() *Sort {
	c := ex.c
	return c.TupSort("Iface", []*Sort{c.Int, c.Int})
}

func (ex *Exec) sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if s, ok := ex.sorts[t]; ok {
		return s
	}
	s := ex.sortOf1(t)
	ex.sorts[t] = s
	return s
}

func (ex *Exec) sortOf1(t types.Type) *Sort {
	c := ex.c
	if ii, ok := intKind(t); ok {
		if ii.bv {
			return c.BV
		}
		return c.Int
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Bool
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			return c.FP
		case u.Kind() == types.Float32:
			return c.UnSort("float32")
		case u.Info()&types.IsString != 0:
			return c.Str
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return c.Int
		case u.Info()&types.IsComplex != 0:
			return c.UnSort("complex")
		}
		return c.UnSort("basic:" + u.String())
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return c.Int
	case *types.Slice:
		return ex.sliceSort()
	case *types.Interface:
		return ex.ifaceSort()
	case *types.Struct:
		var es []*Sort
		for i := 0; i < u.NumFields(); i++ {
			es = append(es, ex.sortOf(u.Field(i).Type()))
		}
		return c.TupSort("S:"+ex.tkey(t), es)
	case *types.Array:
		if u.Len() > maxArr {
			return c.UnSort("A:" + ex.tkey(t))
		}
		var es []*Sort
		for i := int64(0); i < u.Len(); i++ {
			es = append(es, ex.sortOf(u.Elem()))
		}
		return c.TupSort("A:"+ex.tkey(t), es)
	case *types.Tuple:
		var es []*Sort
		var nm []string
		for i := 0; i < u.Len(); i++ {
			s := ex.sortOf(u.At(i).Type())
			es = append(es, s)
			nm = append(nm, s.Name)
		}
		return c.TupSort("T:"+strings.Join(nm, ","), es)
	case *types.TypeParam:
		return c.UnSort("typeparam:" + t.String())
	}
	return c.UnSort("X:" + ex.tkey(t))
}

func (ex *Exec) zero(t types.Type) *Term {
	c := ex.c
	s := ex.sortOf(t)
	switch s.Kind {
	case SBool:
		return c.False
	case SInt:
		return c.IntC(0)
	case SBV:
		return c.BVC(0)
	case SFP:
		return c.FPC(0)
	case SStr:
		return c.StrC("")
	case STup:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var as []*Term
			for i := 0; i < u.NumFields(); i++ {
				as = append(as, ex.zero(u.Field(i).Type()))
			}
			return c.Mk(s, as...)
		case *types.Array:
			var as []*Term
			for i := int64(0); i < u.Len(); i++ {
				as = append(as, ex.zero(u.Elem()))
			}
			return c.Mk(s, as...)
		case *types.Tuple:
			var as []*Term
			for i := 0; i < u.Len(); i++ {
				as = append(as, ex.zero(u.At(i).Type()))
			}
			return c.Mk(s, as...)
		}
		var as []*Term
		for range s.Elems {
			as = append(as, c.IntC(0))
		}
		return c.Mk(s, as...)
	}
	return c.App("zero:"+s.Name, s)
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// typed attaches the well-formedness facts of a Go type to an atomic term.
// lo is the lowest reference value that can occur (nil: none known).
func (ex *Exec) typed(t *Term, T types.Type, lo *Term) *Term {
	if len(t.Facts) > 0 || t.IsLit() || t.typedDone {
		return t
	}
	switch t.Op {
	case "var", "select", "app", "sel":
	default:
		return t
	}
	t.typedDone = true
	c := ex.c
	add := func(f *Term) {
		if f != c.True {
			t.Facts = append(t.Facts, f)
		}
	}
	ref := func(r *Term) {
		if lo == nil {
			return
		}
		if lo.Op == "int" && lo.I.Sign() == 0 {
			add(c.mk("<=", c.Bool, "", 0, lo, r))
			r.nonneg = true
			return
		}
		add(c.Le(lo, r))
	}
	if ii, ok := intKind(T); ok {
		if ii.bv {
			return t
		}
		var l, h *big.Int
		if ii.signed {
			l, h = new(big.Int).Neg(pow2(ii.bits-1)), pow2(ii.bits-1)
		} else {
			l, h = big.NewInt(0), pow2(ii.bits)
		}
		add(c.mk("<=", c.Bool, "", 0, c.BigC(l), t))
		add(c.mk("<", c.Bool, "", 0, t, c.BigC(h)))
		if !ii.signed {
			t.nonneg = true
		}
		return t
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		ref(t)
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			ref(t)
		}
	case *types.Slice:
		arr, off, ln, cp := c.Sel(t, 0), c.Sel(t, 1), c.Sel(t, 2), c.Sel(t, 3)
		ref(arr)
		zero := c.IntC(0)
		for _, x := range []*Term{off, ln, cp} {
			add(c.mk("<=", c.Bool, "", 0, zero, x))
			x.nonneg = true
		}
		add(c.mk("<=", c.Bool, "", 0, ln, cp))
		add(c.mk("<", c.Bool, "", 0, cp, c.BigC(pow2(40))))
		add(c.mk("<", c.Bool, "", 0, off, c.BigC(pow2(40))))
		add(c.Implies(c.Eq(arr, zero), c.Eq(cp, zero)))
		for _, x := range []*Term{arr, off, ln, cp} {
			ex.share(x, t)
		}
	case *types.Interface:
		tag, pl := c.Sel(t, 0), c.Sel(t, 1)
		add(c.mk("<=", c.Bool, "", 0, c.IntC(0), tag))
		tag.nonneg = true
		ref(pl)
		add(c.Implies(c.Eq(tag, c.IntC(0)), c.Eq(pl, c.IntC(0))))
		ex.share(tag, t)
		ex.share(pl, t)
	case *types.Struct:
		if tf := typeFact[ex.tkey(T)]; tf != nil {
			add(tf(ex, t))
		}
		for i := 0; i < u.NumFields(); i++ {
			ex.typed(c.Sel(t, i), u.Field(i).Type(), lo)
		}
	case *types.Array:
		if u.Len() <= maxArr {
			for i := int64(0); i < u.Len(); i++ {
				ex.typed(c.Sel(t, int(i)), u.Elem(), lo)
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			ex.typed(c.Sel(t, i), u.At(i).Type(), lo)
		}
	}
	return t
}

// share makes the facts of a composite available when only a component is mentioned.
func (ex *Exec) share(x, t *Term) {
	if x.Op == "sel" && !x.typedDone {
		x.typedDone = true
		x.factsOf = t
	}
}

// typeFact holds extra invariants of external value types.
var typeFact = map[string]func(ex *Exec, t *Term) *Term{
	"go.opentelemetry.io/otel/attribute.Value": func(ex *Exec, t *Term) *Term {
		v := ex.c.Sel(t, 0)
		return ex.c.And(ex.c.Le(ex.c.IntC(0), v), ex.c.Le(v, ex.c.IntC(8)))
	},
}

type leaf struct {
	path string
	typ  types.Type
}

func (ex *Exec) leaves(t types.Type) []leaf {
	if st, ok := t.Underlying().(*types.Struct); ok {
		var out []leaf
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			for _, l := range ex.leaves(f.Type()) {
				out = append(out, leaf{"." + fieldName(f, i) + l.path, l.typ})
			}
		}
		return out
	}
	return []leaf{{"", t}}
}

func fieldName(f *types.Var, i int) string {
	if f.Name() == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return f.Name()
}
