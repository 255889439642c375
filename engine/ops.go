package main

import (
	"unicode/utf8"
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// StrAt is the byte at position i as an Int term.
func (c *Ctx) StrAt(s, i *Term) *Term {
	if s.Op == "str" && i.Op == "int" && i.I.IsInt64() {
		k := i.I.Int64()
		if k >= 0 && k < int64(len(s.S)) {
			return c.IntC(int64(s.S[k]))
		}
	}
	t := c.mk("str.to_code", c.Int, "", 0, c.mk("str.at", c.Str, "", 0, s, i))
	return t
}

func (ex *Exec) toInt(t *Term, T types.Type) *Term {
	if t.Sort == ex.c.BV {
		ii, _ := intKind(T)
		return ex.c.BV2Int(t, ii.signed)
	}
	return t
}

func (ex *Exec) wrap(t *Term, ii intInfo) *Term {
	if ii.bits == 64 && ii.signed {
		return t // int: mathematical (assumption: no overflow)
	}
	c := ex.c
	if ii.bits == 64 && !ii.signed {
		if c.knownNonneg(t) {
			return t
		}
	}
	m := pow2(ii.bits)
	if t.Op == "int" {
		r := new(big.Int).Mod(t.I, m)
		if ii.signed && r.Cmp(pow2(ii.bits-1)) >= 0 {
			r.Sub(r, m)
		}
		return c.BigC(r)
	}
	if !ii.signed {
		return c.Mod(t, c.BigC(m))
	}
	h := c.BigC(pow2(ii.bits - 1))
	return c.Sub(c.Mod(c.Add(t, h), c.BigC(m)), h)
}

func (ex *Exec) eqT(a, b *Term, T types.Type) *Term {
	c := ex.c
	if isFloat(T) {
		return c.FPCmp("fp.eq", a, b)
	}
	switch u := T.Underlying().(type) {
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, ex.eqT(c.Sel(a, i), c.Sel(b, i), u.Field(i).Type()))
		}
		return c.And(cs...)
	case *types.Array:
		if u.Len() <= maxArr {
			var cs []*Term
			for i := int64(0); i < u.Len(); i++ {
				cs = append(cs, ex.eqT(c.Sel(a, int(i)), c.Sel(b, int(i)), u.Elem()))
			}
			return c.And(cs...)
		}
	case *types.Slice: // only against nil
		return c.Eq(c.Sel(a, 0), c.Sel(b, 0))
	case *types.Interface:
		return c.And(c.Eq(c.Sel(a, 0), c.Sel(b, 0)), c.Eq(c.Sel(a, 1), c.Sel(b, 1)))
	}
	return c.Eq(a, b)
}

func (ex *Exec) binop(st *State, op token.Token, a, b *Term, ta, tb, tr types.Type) *Term {
	c := ex.c
	a, b = ex.norm(st, a), ex.norm(st, b)
	switch op {
	case token.EQL, token.NEQ:
		// comparison of an interface with a concrete value
		if isIface(ta) && !isIface(tb) {
			b = ex.mkIface(b, tb)
			tb = ta
		} else if isIface(tb) && !isIface(ta) {
			a = ex.mkIface(a, ta)
			ta = tb
		}
		e := ex.eqT(a, b, ta)
		if op == token.NEQ {
			return c.Not(e)
		}
		return e
	}
	if isBoolT(ta) {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	}
	if isString(ta) {
		switch op {
		case token.ADD:
			return c.Concat(a, b)
		case token.LSS:
			return c.mk("str.<", c.Bool, "", 0, a, b)
		case token.LEQ:
			return c.mk("str.<=", c.Bool, "", 0, a, b)
		case token.GTR:
			return c.mk("str.<", c.Bool, "", 0, b, a)
		case token.GEQ:
			return c.mk("str.<=", c.Bool, "", 0, b, a)
		}
	}
	if isFloat(ta) {
		if a.Sort != c.FP {
			return c.App("f32op"+op.String(), ex.sortOf(tr), a, b)
		}
		switch op {
		case token.ADD:
			return c.FPBin("fp.add", a, b)
		case token.SUB:
			return c.FPBin("fp.sub", a, b)
		case token.MUL:
			return c.FPBin("fp.mul", a, b)
		case token.QUO:
			return c.FPBin("fp.div", a, b)
		case token.LSS:
			return c.FPCmp("fp.lt", a, b)
		case token.LEQ:
			return c.FPCmp("fp.leq", a, b)
		case token.GTR:
			return c.FPCmp("fp.lt", b, a)
		case token.GEQ:
			return c.FPCmp("fp.leq", b, a)
		}
	}
	ii, ok := intKind(ta)
	if !ok {
		panic(unsupported(fmt.Sprintf("binop %s on %s", op, ta)))
	}
	if op == token.SHL || op == token.SHR {
		return ex.shift(st, op, a, b, ta, tb, ii)
	}
	if ii.bv {
		lt, le := "bvult", "bvule"
		if ii.signed {
			lt, le = "bvslt", "bvsle"
		}
		switch op {
		case token.ADD:
			return c.BVOp("bvadd", a, b)
		case token.SUB:
			return c.BVOp("bvsub", a, b)
		case token.MUL:
			return c.BVOp("bvmul", a, b)
		case token.QUO, token.REM:
			ex.oblige(st, c.Not(c.Eq(b, c.BVC(0))), "div", "integer divide by zero")
			n := "bvudiv"
			if op == token.REM {
				n = "bvurem"
			}
			if ii.signed {
				n = "bvsdiv"
				if op == token.REM {
					n = "bvsrem"
				}
			}
			return c.BVOp(n, a, b)
		case token.AND:
			return c.BVOp("bvand", a, b)
		case token.OR:
			return c.BVOp("bvor", a, b)
		case token.XOR:
			return c.BVOp("bvxor", a, b)
		case token.AND_NOT:
			return c.BVOp("bvand", a, c.mk("bvnot", c.BV, "", 0, b))
		case token.LSS:
			return c.BVCmp(lt, a, b)
		case token.LEQ:
			return c.BVCmp(le, a, b)
		case token.GTR:
			return c.BVCmp(lt, b, a)
		case token.GEQ:
			return c.BVCmp(le, b, a)
		}
	}
	switch op {
	case token.ADD:
		return ex.wrap(c.Add(a, b), ii)
	case token.SUB:
		return ex.wrap(c.Sub(a, b), ii)
	case token.MUL:
		return ex.wrap(c.Mul(a, b), ii)
	case token.LSS:
		return c.Lt(a, b)
	case token.LEQ:
		return c.Le(a, b)
	case token.GTR:
		return c.Lt(b, a)
	case token.GEQ:
		return c.Le(b, a)
	case token.QUO, token.REM:
		ex.oblige(st, c.Not(c.Eq(b, c.IntC(0))), "div", "integer divide by zero")
		if a.Op == "int" && b.Op == "int" && b.I.Sign() != 0 {
			q, r := new(big.Int).QuoRem(a.I, b.I, new(big.Int))
			if op == token.QUO {
				return c.BigC(q)
			}
			return c.BigC(r)
		}
		var q *Term
		if c.knownNonneg(a) && b.Op == "int" && b.I.Sign() > 0 {
			q = c.mk("div", c.Int, "", 0, a, b)
			q.nonneg = true
		} else {
			abs := func(x *Term) *Term { return c.Ite(c.Le(c.IntC(0), x), x, c.Sub(c.IntC(0), x)) }
			q = c.mk("div", c.Int, "", 0, abs(a), abs(b))
			neg := c.Not(c.Eq(c.Lt(a, c.IntC(0)), c.Lt(b, c.IntC(0))))
			q = c.Ite(neg, c.Sub(c.IntC(0), q), q)
		}
		if op == token.QUO {
			return q
		}
		return c.Sub(a, c.Mul(q, b))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.Op == "int" && b.Op == "int" {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(a.I, b.I)
			case token.OR:
				r.Or(a.I, b.I)
			case token.XOR:
				r.Xor(a.I, b.I)
			case token.AND_NOT:
				r.AndNot(a.I, b.I)
			}
			return c.BigC(r)
		}
		// mask of the form 2^k-1
		if op == token.AND && b.Op == "int" && b.I.Sign() > 0 {
			m := new(big.Int).Add(b.I, big.NewInt(1))
			if new(big.Int).And(m, b.I).Sign() == 0 {
				return c.Mod(a, c.BigC(m))
			}
		}
		t := c.App("bit"+op.String(), c.Int, a, b)
		return ex.typed(t, tr, nil)
	}
	panic(unsupported(fmt.Sprintf("binop %s on %s", op, ta)))
}

func (ex *Exec) shift(st *State, op token.Token, a, b *Term, ta, tb types.Type, ii intInfo) *Term {
	c := ex.c
	bi := ex.toInt(b, tb)
	if ii.bv {
		bb := b
		if b.Sort != c.BV {
			bb = c.Int2BV(b)
		}
		if op == token.SHL {
			return c.BVOp("bvshl", a, bb)
		}
		if ii.signed && a.Op == "bv" && bb.Op == "bv" {
			n := bb.bvVal()
			if n > 63 {
				n = 63
			}
			return c.BVC(uint64(int64(a.bvVal()) >> n))
		}
		if ii.signed {
			return c.mk("bvashr", c.BV, "", 0, a, bb)
		}
		return c.BVOp("bvlshr", a, bb)
	}
	if bi.Op == "int" && bi.I.IsInt64() && bi.I.Int64() < 128 {
		p := c.BigC(pow2(int(bi.I.Int64())))
		if op == token.SHL {
			return ex.wrap(c.Mul(a, p), ii)
		}
		if a.Op == "int" {
			return c.BigC(new(big.Int).Div(a.I, p.I))
		}
		return c.mk("div", c.Int, "", 0, a, p)
	}
	return ex.typed(c.App("shift"+op.String(), c.Int, a, bi), ta, nil)
}

func (ex *Exec) unop(st *State, x *ssa.UnOp) []*State {
	c := ex.c
	v := ex.norm(st, ex.val(st, x.X))
	switch x.Op {
	case token.MUL:
		T := x.X.Type().Underlying().(*types.Pointer).Elem()
		ex.nilCheck(st, v, "load")
		ex.sharedPlain(st, v, T)
		ex.set(st, x, ex.norm(st, ex.load(st, v, T)))
	case token.NOT:
		ex.set(st, x, c.Not(v))
	case token.SUB:
		T := x.X.Type()
		if isFloat(T) {
			ex.set(st, x, c.FPUn("fp.neg", v))
		} else if v.Sort == c.BV {
			ex.set(st, x, c.BVOp("bvsub", c.BVC(0), v))
		} else {
			ii, _ := intKind(T)
			ex.set(st, x, ex.wrap(c.Sub(c.IntC(0), v), ii))
		}
	case token.XOR:
		if v.Sort == c.BV {
			ex.set(st, x, c.mk("bvnot", c.BV, "", 0, v))
		} else {
			ii, _ := intKind(x.X.Type())
			ex.set(st, x, ex.wrap(c.Sub(c.IntC(-1), v), ii))
		}
	case token.ARROW:
		// receive: any value
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		if ex.chanKnown(v) {
			if r := ex.yield(st, v.ID, true); r != nil {
				return r
			}
			cl, n := ex.chanGet(st, v)
			if !cl && n == 0 && ex.inPar(st) {
				return ex.block(st, &waitCond{kind: "chan", chs: []*Term{v}})
			}
			if n > 0 {
				ex.chanSet(st, v, cl, n-1)
			}
			ex.acquireVC(st, fmt.Sprintf("c%d", v.ID))
		}
		r := ex.fresh(st, "recv", et)
		if x.CommaOk {
			r = c.Mk(ex.sortOf(x.Type()), r, c.Fresh("recvok", c.Bool))
		}
		ex.set(st, x, r)
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
	if st.dead {
		return nil
	}
	st.top().ip++
	return nil
}

// fresh is an arbitrary value of a type; references are those that existed so far.
func (ex *Exec) fresh(st *State, name string, T types.Type) *Term {
	t := ex.c.Fresh(name, ex.sortOf(T))
	return ex.typed(t, T, st.mark)
}

// freshInit is an arbitrary value whose references pre-exist the harness.
func (ex *Exec) freshInit(name string, T types.Type) *Term {
	t := ex.c.Fresh(name, ex.sortOf(T))
	return ex.typed(t, T, ex.c.IntC(0))
}

func (ex *Exec) retag(v *Term, from, to types.Type) *Term {
	want := ex.sortOf(to)
	if v.Sort == want {
		return v
	}
	return ex.retagS(v, want)
}

func (ex *Exec) retagS(v *Term, want *Sort) *Term {
	if v.Sort == want {
		return v
	}
	if v.Sort.Kind == STup && want.Kind == STup && len(v.Sort.Elems) == len(want.Elems) {
		as := make([]*Term, len(want.Elems))
		for i := range as {
			as[i] = ex.retagS(ex.c.Sel(v, i), want.Elems[i])
		}
		return ex.c.Mk(want, as...)
	}
	panic(unsupported("retag " + v.Sort.Name + " to " + want.Name))
}

func (ex *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	c := ex.c
	v = ex.norm(st, v)
	fi, fok := intKind(from)
	ti, tok := intKind(to)
	switch {
	case fok && tok:
		if fi.bv && ti.bv {
			return v
		}
		if fi.bv {
			return ex.wrapConv(c.BV2Int(v, fi.signed), intInfo{64, fi.signed, false}, ti)
		}
		if ti.bv {
			return c.Int2BV(v)
		}
		return ex.wrapConv(v, fi, ti)
	case fok && isFloat(to):
		if ex.sortOf(to) != c.FP {
			return c.App("tof32", ex.sortOf(to), v)
		}
		b := v
		if v.Sort != c.BV {
			if v.Op == "int" {
				f, _ := new(big.Float).SetInt(v.I).Float64()
				return c.FPC(f)
			}
			b = c.Int2BV(v)
		}
		return c.BV2FP(b, fi.signed)
	case isFloat(from) && tok:
		if v.Sort != c.FP {
			return ex.typed(c.App("fromf32:"+ex.tkey(to), ex.sortOf(to), v), to, nil)
		}
		if ti.bv {
			return c.FP2BV(v, ti.signed)
		}
		if v.Op == "fp" {
			if x := v.fpVal(); x > -(1<<31) && x < 1<<31-1 && (x >= 0 || ti.signed) && ti.bits >= 32 {
				return c.IntC(int64(x))
			}
		}
		return ex.typed(c.App("f2i:"+ex.tkey(to), c.Int, v), to, nil)
	case isFloat(from) && isFloat(to):
		if v.Sort == ex.sortOf(to) {
			return v
		}
		return c.App("fconv:"+ex.tkey(to), ex.sortOf(to), v)
	case isString(from) && isString(to):
		return v
	}
	fp, fptr := from.Underlying().(*types.Pointer)
	if fptr && pointerLike(to) {
		if tp, ok := to.Underlying().(*types.Pointer); ok && ex.tkey(tp.Elem()) == ex.tkey(fp.Elem()) {
			return v
		}
		return ex.castAddr(fp.Elem(), v)
	}
	if pointerLike(from) && pointerLike(to) {
		return v
	}
	if isString(to) {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			et := sl.Elem()
			row := c.Select(ex.memGet(st, "[]"+ex.tkey(et), et, 2), c.Sel(v, 0))
			r := c.App("bytes2str:"+ex.tkey(et), c.Str, row, c.Sel(v, 1), c.Sel(v, 2))
			if ex.tkey(et) == "byte" || ex.tkey(et) == "uint8" {
				if len(r.Facts) == 0 {
					r.Facts = append(r.Facts, c.Eq(c.StrLen(r), c.Sel(v, 2)))
				}
				if row.Op == "app" && row.S == "str2row" && c.Sel(v, 1) == c.IntC(0) && c.Sel(v, 2) == c.StrLen(row.Args[0]) {
					return row.Args[0]
				}
			}
			return r
		}
		if fok {
			return c.App("rune2str", c.Str, v)
		}
	}
	if isString(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			et := sl.Elem()
			arr := ex.alloc(st)
			k := "[]" + ex.tkey(et)
			m := ex.memGet(st, k, et, 2)
			if ex.noteWrite != nil {
				ex.noteWrite(st, k, []*Term{arr, nil}, et)
			}
			st.mem[k] = c.Store(m, arr, c.App("str2row", ex.memSort(et, 1), v))
			n := c.StrLen(v)
			return ex.mkSlice(arr, c.IntC(0), n, n)
		}
	}
	if ex.sortOf(from) == ex.sortOf(to) {
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

func (ex *Exec) wrapConv(v *Term, fi, ti intInfo) *Term {
	if !fi.signed && (ti.bits > fi.bits || ti.bits == fi.bits && !ti.signed) || fi.signed && ti.signed && ti.bits >= fi.bits {
		return v
	}
	if ti.bits == 64 && ti.signed {
		return v // uint -> int
	}
	return ex.wrap(v, ti)
}

// ---- interfaces
func (ex *Exec) mkIface(v *Term, T types.Type) *Term {
	if isIface(T) {
		return v
	}
	c := ex.c
	return c.Mk(ex.ifaceSort(), ex.typeID(T), ex.box(v, T))
}

func (ex *Exec) box(v *Term, T types.Type) *Term {
	if pointerLike(T) {
		return v
	}
	c := ex.c
	t := c.App("box:"+ex.tkey(T), c.Int, v)
	if !t.typedDone {
		t.typedDone = true
		t.nonneg = true
		u := c.mk("app", v.Sort, "unbox:"+ex.tkey(T), 0, t)
		u.typedDone = true
		t.Facts = append(t.Facts, c.mk("=", c.Bool, "", 0, u, v), c.mk("<=", c.Bool, "", 0, c.IntC(0), t))
	}
	return t
}

func (ex *Exec) unbox(p *Term, T types.Type) *Term {
	if pointerLike(T) {
		return p
	}
	c := ex.c
	switch {
	case p.Op == "app" && p.S == "box:"+ex.tkey(T):
		return p.Args[0]
	case p.Op == "ite":
		return c.Ite(p.Args[0], ex.unbox(p.Args[1], T), ex.unbox(p.Args[2], T))
	}
	t := c.App("unbox:"+ex.tkey(T), ex.sortOf(T), p)
	return ex.typed(t, T, c.IntC(0))
}

func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	c := ex.c
	v := ex.norm(st, ex.val(st, x.X))
	tag := ex.norm(st, c.Sel(v, 0))
	T := x.AssertedType
	var ok, val *Term
	if it, isI := T.Underlying().(*types.Interface); isI {
		ok = ex.implTerm(tag, it, T)
		val = v
		if x.CommaOk {
			val = c.Ite(ok, v, ex.zero(T))
		}
	} else {
		ok = c.Eq(tag, ex.typeID(T))
		ok = ex.normB(st, ok)
		val = ex.unbox(ex.norm(st, c.Sel(v, 1)), T)
		if x.CommaOk {
			val = c.Ite(ok, val, ex.zero(T))
		}
	}
	if x.CommaOk {
		// decide ok early: values of mixed dynamic types are awkward
		if ok != c.True && ok != c.False {
			return ex.branch(st, ok, func(s *State, b bool) []*State {
				vv := ex.zero(T)
				if b {
					if isIface(T) {
						vv = v
					} else {
						vv = ex.unbox(ex.norm(s, c.Sel(ex.norm(s, v), 1)), T)
					}
				}
				ex.set(s, x, c.Mk(ex.sortOf(x.Type()), vv, c.BoolC(b)))
				s.top().ip++
				return []*State{s}
			})
		}
		ex.set(st, x, c.Mk(ex.sortOf(x.Type()), val, ok))
	} else {
		ex.oblige(st, ok, "typeassert", "interface conversion to "+T.String())
		ex.set(st, x, val)
	}
	if st.dead {
		return nil
	}
	st.top().ip++
	return nil
}

func (ex *Exec) implTerm(tag *Term, it *types.Interface, T types.Type) *Term {
	c := ex.c
	switch tag.Op {
	case "int":
		n := tag.I.Int64()
		if n == 0 {
			return c.False
		}
		if n <= int64(len(ex.tidList)) {
			return c.BoolC(types.Implements(ex.tidList[n-1], it))
		}
	case "ite":
		return c.Ite(tag.Args[0], ex.implTerm(tag.Args[1], it, T), ex.implTerm(tag.Args[2], it, T))
	}
	if it.NumMethods() == 0 {
		return c.Not(c.Eq(tag, c.IntC(0)))
	}
	t := c.App("impl:"+ex.tkey(T), c.Bool, tag)
	if len(t.Facts) == 0 {
		t.Facts = append(t.Facts, c.Implies(t, c.Not(c.Eq(tag, c.IntC(0)))))
	}
	return t
}

func (ex *Exec) sliceOp(st *State, x *ssa.Slice) []*State {
	c := ex.c
	v := ex.norm(st, ex.val(st, x.X))
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.toInt(ex.val(st, v), v.Type())
	}
	zero := c.IntC(0)
	if isString(x.X.Type()) {
		n := c.StrLen(v)
		lo, hi := opt(x.Low, zero), opt(x.High, n)
		ex.oblige(st, c.And(c.Le(zero, lo), c.Le(lo, hi), c.Le(hi, n)), "bounds", "string slice out of range")
		ex.set(st, x, c.Substr(v, lo, c.Sub(hi, lo)))
	} else if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr := pt.Elem().Underlying().(*types.Array)
		ex.nilCheck(st, v, "slice")
		if isAddr(v) {
			panic(unsupported("slicing an interior array"))
		}
		n := c.IntC(arr.Len())
		lo, hi := opt(x.Low, zero), opt(x.High, n)
		mx := opt(x.Max, n)
		ex.oblige(st, c.And(c.Le(zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)), "bounds", "slice bounds out of range")
		ex.set(st, x, ex.mkSlice(v, lo, c.Sub(hi, lo), c.Sub(mx, lo)))
	} else {
		ln, cp := c.Sel(v, 2), c.Sel(v, 3)
		lo, hi := opt(x.Low, zero), opt(x.High, ln)
		mx := opt(x.Max, cp)
		ex.oblige(st, c.And(c.Le(zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, cp)), "bounds", "slice bounds out of range")
		ex.set(st, x, ex.mkSlice(c.Sel(v, 0), c.Add(c.Sel(v, 1), lo), c.Sub(hi, lo), c.Sub(mx, lo)))
	}
	if st.dead {
		return nil
	}
	st.top().ip++
	return nil
}

// ---- map and string iteration
func (ex *Exec) mkIter(st *State, v *Term, T types.Type) *Term {
	c := ex.c
	ex.nextIter++
	id := ex.nextIter
	if isString(T) {
		if v.Op != "str" {
			panic(unsupported("range over a symbolic string"))
		}
		st.iters[id] = &iterSt{typ: T, str: v.S, known: true}
		return c.IntC(int64(id))
	}
	v = ex.norm(st, v)
	mk := ex.mapK(T)
	ex.guardMap(st, mk, v, false)
	it := &iterSt{ref: v, typ: T, visited: c.ConstArr(c.ArrSort(ex.sortOf(mk.k), c.Bool), c.False)}
	// known small contents: a chain of stores over an empty row
	row := c.Select(ex.mapMem(st, mk, "dom"), v)
	if v.Op == "int" && v.I.Sign() == 0 {
		it.known = true
	} else {
		var keys []*Term
		ok := true
		seen := map[int]bool{}
		for r := row; ; {
			if r.Op == "store" {
				if !seen[r.Args[1].ID] {
					seen[r.Args[1].ID] = true
					keys = append(keys, r.Args[1])
				}
				r = r.Args[0]
				continue
			}
			if !(r.Op == "constarr" && r.Args[0] == c.False) {
				ok = false
			}
			break
		}
		if ok && len(keys) <= 4 {
			it.known = true
			it.keys = keys
		}
	}
	st.iters[id] = it
	return c.IntC(int64(id))
}

func (ex *Exec) next(st *State, x *ssa.Next) []*State {
	c := ex.c
	id := int(ex.val(st, x.Iter).I.Int64())
	it := st.iters[id]
	tt := x.Type().(*types.Tuple)
	finish := func(s *State, ok bool, k, v *Term) {
		if k == nil {
			k = ex.zeroOr(tt.At(1).Type())
		}
		if v == nil {
			v = ex.zeroOr(tt.At(2).Type())
		}
		ex.set(s, x, c.mk("mk", ex.rawTup(k.Sort, v.Sort), "next", 0, c.BoolC(ok), k, v))
		s.top().ip++
	}
	if x.IsString {
		if it.pos >= len(it.str) {
			finish(st, false, nil, nil)
			return nil
		}
		r, w := utf8.DecodeRuneInString(it.str[it.pos:])
		n := *it
		n.pos += w
		st.iters[id] = &n
		finish(st, true, c.IntC(int64(it.pos)), c.IntC(int64(r)))
		return nil
	}
	mk := ex.mapK(it.typ)
	if it.known {
		// candidates that are still present (Go skips entries deleted during iteration)
		if len(it.keys) == 0 {
			finish(st, false, nil, nil)
			return nil
		}
		// fork over which candidate comes next
		var out []*State
		if st.coarse > 0 {
			i := 0
			if st.coarse == 2 {
				i = len(it.keys) - 1
			}
			k := it.keys[i]
			_, ok := ex.mapGet(st, it.typ, it.ref, k)
			ok = c.And(ok, c.Not(c.Select(it.visited, k)))
			n := *it
			n.keys = append(append([]*Term{}, it.keys[:i]...), it.keys[i+1:]...)
			return ex.branch(st, ok, func(s *State, b bool) []*State {
				nn := n
				s.iters[id] = &nn
				if b {
					v, _ := ex.mapGet(s, it.typ, it.ref, k)
					nn.visited = c.Store(it.visited, k, c.True)
					finish(s, true, k, ex.norm(s, v))
				}
				// not present: the instruction is executed again with the rest
				return []*State{s}
			})
		}
		for i, k := range it.keys {
			s := st.clone()
			// duplicates: k must differ from the others chosen before it is handled by visited
			_, ok := ex.mapGet(s, it.typ, it.ref, k)
			ok = c.And(ok, c.Not(c.Select(it.visited, k)))
			ok = ex.normB(s, ok)
			if ok == c.False || !ex.feasible(s, ok) {
				continue
			}
			ex.assume(s, ok)
			v, _ := ex.mapGet(s, it.typ, it.ref, k)
			n := *it
			n.keys = append(append([]*Term{}, it.keys[:i]...), it.keys[i+1:]...)
			n.visited = c.Store(it.visited, k, c.True)
			s.iters[id] = &n
			finish(s, true, k, ex.norm(s, v))
			out = append(out, s)
		}
		// none left
		s := st
		var none []*Term
		for _, k := range it.keys {
			_, ok := ex.mapGet(s, it.typ, it.ref, k)
			none = append(none, c.Not(c.And(ok, c.Not(c.Select(it.visited, k)))))
		}
		nn := ex.normB(s, c.And(none...))
		if nn != c.False && ex.feasible(s, nn) {
			ex.assume(s, nn)
			finish(s, false, nil, nil)
			out = append(out, s)
		}
		if forkProf != nil && len(out) > 1 {
			p, _ := ex.curPos(st)
			forkProf["range "+p] += len(out) - 1
		}
		if out == nil {
			out = []*State{}
		}
		return out
	}
	ok := c.Fresh("rangeok", c.Bool)
	return ex.branch(st, ok, func(s *State, b bool) []*State {
		if !b {
			// everything has been visited; stated for tracked keys
			for _, k := range s.tracked {
				if k.Sort == ex.sortOf(mk.k) {
					_, in := ex.mapGet(s, it.typ, it.ref, k)
					ex.assume(s, c.Implies(in, c.Select(it.visited, k)))
				}
			}
			// a map none of whose keys was visited is empty
			if it.visited.Op == "constarr" {
				ex.assume(s, c.Eq(ex.mapLen(s, it.typ, it.ref), c.IntC(0)))
			}
			if s.dead {
				return []*State{}
			}
			finish(s, false, nil, nil)
			return []*State{s}
		}
		k := c.Fresh("rangek", ex.sortOf(mk.k))
		ex.typed(k, mk.k, s.mark)
		v, in := ex.mapGet(s, it.typ, it.ref, k)
		ex.assume(s, in)
		ex.assume(s, c.Not(c.Select(it.visited, k)))
		if s.dead {
			return []*State{}
		}
		n := *it
		n.visited = c.Store(it.visited, k, c.True)
		s.iters[id] = &n
		if ex.noteWrite != nil {
			ex.noteWrite(s, fmt.Sprintf("iter:%d", id), nil, nil)
		}
		finish(s, true, k, ex.norm(s, v))
		return []*State{s}
	})
}

func (ex *Exec) zeroOr(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return ex.c.IntC(0)
	}
	return ex.zero(t)
}

func (ex *Exec) rawTup(k, v *Sort) *Sort {
	return ex.c.TupSort("N:"+k.Name+","+v.Name, []*Sort{ex.c.Bool, k, v})
}

func (ex *Exec) selectOp(st *State, x *ssa.Select) []*State {
	c := ex.c
	tt := x.Type().(*types.Tuple)
	n := len(x.States)
	if !x.Blocking {
		n++
	}
	var out []*State
	// channels made in the code under proof have a known state
	ready := make([]bool, len(x.States))
	chs := make([]*Term, len(x.States))
	anyUnknown, anyReady := false, false
	for i, cs := range x.States {
		chs[i] = ex.norm(st, ex.val(st, cs.Chan))
		ready[i] = true
		if chs[i].Op == "int" && chs[i].I.Sign() == 0 {
			ready[i] = false
		} else if ex.chanKnown(chs[i]) && cs.Dir == types.RecvOnly && ex.inPar(st) {
			ready[i] = ex.chanReady(st, chs[i])
		} else {
			anyUnknown = true
		}
		anyReady = anyReady || ready[i]
	}
	if ex.inPar(st) {
		if r := ex.yield(st, 0, true); r != nil {
			return r
		}
		if x.Blocking && !anyReady {
			return ex.block(st, &waitCond{kind: "chan", chs: chs})
		}
	}
	var choices []int
	for i := 0; i < n; i++ {
		if i < len(ready) && !ready[i] || i == len(ready) && anyReady && !anyUnknown {
			continue
		}
		choices = append(choices, i)
	}
	for k, i := range choices {
		s := st
		if k < len(choices)-1 {
			s = st.clone()
		}
		idx := i
		if i < len(chs) && ex.chanKnown(chs[i]) && x.States[i].Dir == types.RecvOnly && ex.inPar(s) {
			if cl, n := ex.chanGet(s, chs[i]); n > 0 {
				ex.chanSet(s, chs[i], cl, n-1)
			}
			ex.acquireVC(s, fmt.Sprintf("c%d", chs[i].ID))
		}
		if i == len(x.States) {
			idx = -1
		}
		vals := []*Term{c.IntC(int64(idx)), c.Fresh("recvok", c.Bool)}
		for j := 2; j < tt.Len(); j++ {
			vals = append(vals, ex.fresh(s, "recv", tt.At(j).Type()))
		}
		ex.set(s, x, c.Mk(ex.sortOf(tt), vals...))
		s.trail = append(s.trail, fmt.Sprintf("select case %d", idx))
		s.top().ip++
		out = append(out, s)
	}
	return out
}
