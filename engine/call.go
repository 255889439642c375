package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type guardRule struct {
	key   string
	idx   []*Term
	mapk  string
	ref   *Term
	lock  *Term
	label string
}

const vfPath = "github.com/lightstep/otel-launcher-go/internal/verifvf"

func (ex *Exec) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == vfPath {
		return true
	}
	p := ex.E.fset.Position(fn.Pos()).Filename
	return strings.Contains(p, "/zz_verif")
}

func (ex *Exec) inSpec(st *State) bool {
	if st.quiet > 0 || st.nolockHook > 0 {
		return true
	}
	return ex.isSpecFn(st.frames[len(st.frames)-1].fn)
}

// ---- guarded locations (lock discipline)
func (ex *Exec) holds(st *State, lock *Term, write bool) bool {
	for _, l := range st.locks {
		if l.addr == lock && (l.mode == 1 || !write) {
			return true
		}
	}
	return false
}

func (ex *Exec) guardAccess(st *State, g gLoc, write bool) {
	ex.noteAccess(st, g.l.key, g.l.idx, g.g, write)
	if len(st.guards) == 0 || ex.inSpec(st) {
		return
	}
	for _, r := range st.guards {
		if r.key == "" || len(r.idx) != len(g.l.idx) || !(r.key == g.l.key || strings.HasPrefix(g.l.key, r.key+".") || strings.HasPrefix(r.key, g.l.key+".")) {
			continue
		}
		var eq []*Term
		for i := range r.idx {
			eq = append(eq, ex.c.Eq(r.idx[i], g.l.idx[i]))
		}
		same := ex.c.And(append(eq, g.g)...)
		if ex.holds(st, r.lock, write) {
			continue
		}
		what := "read"
		if write {
			what = "write"
		}
		ex.oblige(st, ex.c.Not(same), "guarded", fmt.Sprintf("unsynchronised %s of %s", what, r.label))
	}
}

func (ex *Exec) guardMap(st *State, mk mapKeys, ref *Term, write bool) {
	ex.noteAccess(st, mk.dom, []*Term{ref}, ex.c.True, write)
	if len(st.guards) == 0 || ex.inSpec(st) {
		return
	}
	for _, r := range st.guards {
		if r.mapk != mk.dom || ex.holds(st, r.lock, write) {
			continue
		}
		what := "read"
		if write {
			what = "write"
		}
		ex.oblige(st, ex.c.Not(ex.c.Eq(r.ref, ref)), "guarded", fmt.Sprintf("unsynchronised map %s of %s", what, r.label))
	}
}

// sharedPlain rejects non-atomic access to a location declared shared.
func (ex *Exec) sharedPlain(st *State, a *Term, T types.Type) {
	if len(st.shared) == 0 || ex.inSpec(st) {
		return
	}
	b := stripCast(a)
	for _, s := range st.shared {
		e := ex.c.Eq(b, stripCast(s.addr))
		if e != ex.c.False {
			ex.oblige(st, ex.c.Not(e), "race", "non-atomic access to a shared location")
		}
	}
}

func stripCast(a *Term) *Term {
	for a.Op == "cast" {
		a = a.Args[0]
	}
	return a
}

// ---- calls
func (ex *Exec) mkDeferred(st *State, cc *ssa.CallCommon) deferred {
	d := deferred{cc: cc}
	for _, a := range cc.Args {
		d.args = append(d.args, ex.val(st, a))
	}
	if cc.IsInvoke() {
		d.recv = ex.val(st, cc.Value)
	} else if fn := cc.StaticCallee(); fn != nil {
		d.sfn = fn
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			d.fn = ex.val(st, mc)
		}
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		d.fn = ex.val(st, cc.Value)
	}
	return d
}

func (ex *Exec) invokeDeferred(st *State, d deferred, cont func(*State, []*Term)) []*State {
	switch {
	case d.recv != nil:
		return ex.invoke(st, d.cc, d.recv, d.args, nil, cont)
	case d.fn != nil:
		return ex.callDyn(st, d.fn, d.args, d.cc.Signature(), nil, cont)
	case d.sfn != nil:
		return ex.callFn(st, d.sfn, d.args, nil, nil, cont)
	}
	b := d.cc.Value.(*ssa.Builtin)
	rs, forks := ex.builtin(st, b, d.cc, d.args, nil)
	if forks != nil {
		return forks
	}
	cont(st, rs)
	return nil
}

func (ex *Exec) deliver(st *State, call ssa.Value, cont func(*State, []*Term), rs []*Term) {
	if cont != nil {
		cont(st, rs)
		return
	}
	f := st.top()
	if call != nil {
		f.env[call] = ex.pack(call.Type(), rs)
	}
	f.ip++
}

func (ex *Exec) call(st *State, instr ssa.Value, cc *ssa.CallCommon) []*State {
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, ex.val(st, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		rs, forks := ex.builtin(st, b, cc, args, instr)
		if forks != nil {
			return forks
		}
		if st.dead {
			return nil
		}
		ex.deliver(st, instr, nil, rs)
		return nil
	}
	if cc.IsInvoke() {
		return ex.invoke(st, cc, ex.val(st, cc.Value), args, instr, nil)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var binds []*Term
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			id := ex.val(st, mc)
			binds = ex.closures[id.I.Int64()-1].binds
		}
		return ex.callFn(st, fn, args, binds, instr, nil)
	}
	if u, ok := cc.Value.(*ssa.UnOp); ok {
		// a function variable of a package whose initialisation is not interpreted
		if g, ok := u.X.(*ssa.Global); ok && !interpretedInit(globName(g)) && !ex.E.mutGlob[globName(g)] {
			ex.assumed["external function "+globName(g)+": arbitrary results, no effect on the state under proof"] = true
			ex.deliver(st, instr, nil, ex.freshResults(st, g.Name(), cc.Signature().Results()))
			return nil
		}
	}
	return ex.callDyn(st, ex.val(st, cc.Value), args, cc.Signature(), instr, nil)
}

func (ex *Exec) callDyn(st *State, f *Term, args []*Term, sig *types.Signature, call ssa.Value, cont func(*State, []*Term)) []*State {
	f = ex.norm(st, f)
	if f.Op == "ite" {
		return ex.fork(st, f.Args[0])
	}
	if f.Op == "int" {
		if f.I.Sign() == 0 {
			ex.oblige(st, ex.c.False, "nil", "call of nil function")
			st.dead = true
			return nil
		}
		cl := ex.closures[f.I.Int64()-1]
		return ex.callFn(st, cl.fn, args, cl.binds, call, cont)
	}
	ex.oblige(st, ex.c.Not(ex.c.Eq(f, ex.c.IntC(0))), "nil", "call of nil function")
	if st.dead {
		return nil
	}
	ex.assumed["unknown function value of type "+sig.String()+" has no effect on the state under proof"] = true
	ex.deliver(st, call, cont, ex.freshResults(st, "dyn", sig.Results()))
	return nil
}

func (ex *Exec) freshResults(st *State, name string, tt *types.Tuple) []*Term {
	var rs []*Term
	for i := 0; i < tt.Len(); i++ {
		rs = append(rs, ex.fresh(st, name, tt.At(i).Type()))
	}
	return rs
}

func (ex *Exec) invoke(st *State, cc *ssa.CallCommon, recv *Term, args []*Term, call ssa.Value, cont func(*State, []*Term)) []*State {
	c := ex.c
	recv = ex.norm(st, recv)
	tag := ex.norm(st, c.Sel(recv, 0))
	if tag.Op == "ite" {
		return ex.fork(st, tag.Args[0])
	}
	if tag.Op != "int" {
		ex.oblige(st, c.Not(c.Eq(tag, c.IntC(0))), "nil", "method call on nil interface ("+cc.Method.Name()+")")
		if st.dead {
			return nil
		}
		// a tag fixed by the path condition
		for id := range ex.tidList {
			if st.known[c.Eq(tag, c.IntC(int64(id+1))).ID] {
				return ex.invokeOn(st, id+1, cc, recv, args, call, cont)
			}
		}
		nm := "iface " + ex.tkey(cc.Value.Type()) + "." + cc.Method.Name()
		sig := cc.Method.Type().(*types.Signature)
		if h := externModel(nm); h != nil {
			return h(ex, st, &callCtx{name: nm, args: append([]*Term{recv}, args...), sig: sig, call: call, cont: cont})
		}
		ex.assumed["unknown implementation of "+nm+" has no effect on the state under proof"] = true
		ex.deliver(st, call, cont, ex.freshResults(st, cc.Method.Name(), sig.Results()))
		return nil
	}
	id := int(tag.I.Int64())
	if id == 0 {
		ex.oblige(st, c.False, "nil", "method call on nil interface ("+cc.Method.Name()+")")
		st.dead = true
		return nil
	}
	return ex.invokeOn(st, id, cc, recv, args, call, cont)
}

func (ex *Exec) invokeOn(st *State, id int, cc *ssa.CallCommon, recv *Term, args []*Term, call ssa.Value, cont func(*State, []*Term)) []*State {
	T := ex.tidList[id-1]
	ex.E.mu.Lock()
	fn := ex.E.prog.LookupMethod(T, cc.Method.Pkg(), cc.Method.Name())
	ex.E.mu.Unlock()
	if fn == nil {
		panic(unsupported("method " + cc.Method.Name() + " of " + T.String()))
	}
	r := ex.unbox(ex.norm(st, ex.c.Sel(recv, 1)), T)
	return ex.callFn(st, fn, append([]*Term{r}, args...), nil, call, cont)
}

type callCtx struct {
	name string
	fn   *ssa.Function
	args []*Term
	sig  *types.Signature
	call ssa.Value
	cont func(*State, []*Term)
}

func (cc *callCtx) ret(ex *Exec, st *State, rs ...*Term) []*State {
	if st.dead {
		return nil
	}
	ex.deliver(st, cc.call, cc.cont, rs)
	return nil
}
func (cc *callCtx) T(i int) types.Type { return cc.fn.TypeArgs()[i] }

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, args, binds []*Term, call ssa.Value, cont func(*State, []*Term)) []*State {
	name := fnName(fn)
	cc := &callCtx{name: name, fn: fn, args: args, sig: fn.Signature, call: call, cont: cont}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == vfPath || fn.Origin() != nil && fn.Origin().Pkg != nil && fn.Origin().Pkg.Pkg.Path() == vfPath {
		if fn.Parent() == nil {
			n := name[strings.LastIndex(name, ".")+1:]
			if h := vfIntrinsics[n]; h != nil {
				return h(ex, st, cc)
			}
		}
	}
	cname := name
	if ex.contracts[name] == nil && fn.Origin() != nil {
		cname = fn.String()
	}
	if cf := ex.contracts[cname]; cf != nil && !ex.inContract(st, cf) && ex.stubApplies(st, cf) {
		ex.contractsUsed[cname] = true
		if ex.stubs[cf] != "" {
			ex.assumed["stand-in for calls of "+cname+" in "+ex.stubs[cf]] = true
		}
		ex.push(st, cf, args, nil, call, cont)
		return nil
	}
	if h := externModel(name); h != nil {
		return h(ex, st, cc)
	}
	if m := ex.E.models[name]; m != nil && fn != m && !ex.inContract(st, m) {
		ex.assumed["model of "+name] = true
		mf := m
		if len(fn.TypeArgs()) > 0 {
			panic(unsupported("generic model"))
		}
		ex.push(st, mf, args, nil, call, cont)
		return nil
	}
	if len(fn.Blocks) > 0 && ex.E.inlinable(fn) {
		ex.push(st, fn, args, binds, call, cont)
		return nil
	}
	return ex.extern(st, cc)
}

// stubApplies: a stub replaces the calls made by its own package only.
func (ex *Exec) stubApplies(st *State, cf *ssa.Function) bool {
	pkg := ex.stubs[cf]
	if pkg == "" {
		return true
	}
	if len(st.frames) == 0 {
		return false
	}
	f := st.frames[len(st.frames)-1].fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && f.Pkg.Pkg.Path() == pkg
}

func (ex *Exec) inContract(st *State, cf *ssa.Function) bool {
	return len(st.frames) > 0 && st.frames[len(st.frames)-1].fn == cf
}

// extern is a function without source here: arbitrary results, no effect (reported as an assumption).
func (ex *Exec) extern(st *State, cc *callCtx) []*State {
	c := ex.c
	if rs, ok := ex.fold(st, cc); ok {
		return cc.ret(ex, st, rs...)
	}
	if pureExtern(cc.name) {
		if !ex.extPure[cc.name] {
			ex.extPure[cc.name] = true
			ex.assumed["external function "+cc.name+" is a deterministic function of its arguments without effects"] = true
		}
		var rs []*Term
		as := cc.args
		for i := 0; i < cc.sig.Results().Len(); i++ {
			T := cc.sig.Results().At(i).Type()
			rs = append(rs, ex.typed(c.App(fmt.Sprintf("ext:%s:%d", cc.name, i), ex.sortOf(T), as...), T, c.IntC(0)))
		}
		return cc.ret(ex, st, rs...)
	}
	ex.assumed["external function "+cc.name+": arbitrary results, no effect on the state under proof"] = true
	return cc.ret(ex, st, ex.freshResults(st, cc.name, cc.sig.Results())...)
}

// ---- builtins
func (ex *Exec) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []*Term, instr ssa.Value) ([]*Term, []*State) {
	c := ex.c
	for i := range args {
		args[i] = ex.norm(st, args[i])
	}
	argT := func(i int) types.Type { return cc.Args[i].Type() }
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		switch u := argT(0).Underlying().(type) {
		case *types.Slice:
			if b.Name() == "len" {
				return []*Term{c.Sel(v, 2)}, nil
			}
			return []*Term{c.Sel(v, 3)}, nil
		case *types.Map:
			return []*Term{ex.mapLen(st, argT(0), v)}, nil
		case *types.Array:
			return []*Term{c.IntC(u.Len())}, nil
		case *types.Pointer:
			return []*Term{c.IntC(u.Elem().Underlying().(*types.Array).Len())}, nil
		case *types.Basic:
			return []*Term{c.StrLen(v)}, nil
		default:
			r := c.Fresh("chanlen", c.Int)
			return []*Term{ex.typed(r, types.Typ[types.Uint32], nil)}, nil
		}
	case "append":
		return ex.doAppend(st, args[0], args[1], argT(0), argT(1))
	case "copy":
		et := argT(0).Underlying().(*types.Slice).Elem()
		if isString(argT(1)) {
			panic(unsupported("copy from string"))
		}
		d, s := args[0], args[1]
		n := c.Ite(c.Le(c.Sel(d, 2), c.Sel(s, 2)), c.Sel(d, 2), c.Sel(s, 2))
		n = ex.norm(st, n)
		ex.copyElems(st, et, c.Sel(d, 0), c.Sel(d, 1), c.Sel(s, 0), c.Sel(s, 1), n)
		return []*Term{n}, nil
	case "delete":
		ex.mapDelete(st, argT(0), args[0], args[1])
		return nil, nil
	case "panic":
		ex.oblige(st, c.False, "panic", "panic reachable")
		st.dead = true
		return nil, nil
	case "print", "println":
		return nil, nil
	case "close":
		if ch := args[0]; ex.chanKnown(ch) {
			cl, n := ex.chanGet(st, ch)
			ex.oblige(st, c.BoolC(!cl), "panic", "close of closed channel")
			ex.releaseVC(st, fmt.Sprintf("c%d", ch.ID))
			ex.chanSet(st, ch, true, n)
		}
		return nil, nil
	case "clear":
		if _, ok := argT(0).Underlying().(*types.Map); ok {
			mk := ex.mapK(argT(0))
			ref := args[0]
			ex.guardMap(st, mk, ref, true)
			dom, ln := ex.mapMem(st, mk, "dom"), ex.mapMem(st, mk, "len")
			if ex.noteWrite != nil {
				ex.noteWrite(st, mk.dom, []*Term{ref, nil}, nil)
				ex.noteWrite(st, mk.ln, []*Term{ref}, nil)
			}
			st.mem[mk.dom] = c.Store(dom, ref, c.ConstArr(dom.Sort.V, c.False))
			st.mem[mk.ln] = c.Store(ln, ref, c.IntC(0))
			return nil, nil
		}
		if sl, ok := argT(0).Underlying().(*types.Slice); ok {
			ex.copyElems(st, sl.Elem(), c.Sel(args[0], 0), c.Sel(args[0], 1), ex.alloc(st), c.IntC(0), c.Sel(args[0], 2))
			return nil, nil
		}
		panic(unsupported("clear of a type parameter"))
	case "recover":
		return []*Term{ex.zero(types.NewInterfaceType(nil, nil))}, nil
	case "ssa:wrapnilchk":
		ex.oblige(st, c.Not(c.Eq(args[0], c.IntC(0))), "nil", "value method called using nil pointer")
		return []*Term{args[0]}, nil
	case "min", "max":
		r := args[0]
		T := cc.Args[0].Type()
		for _, a := range args[1:] {
			var lt *Term
			switch {
			case r.Sort == c.FP:
				lt = c.FPCmp("fp.lt", r, a)
			case r.Sort == c.BV:
				ii, _ := intKind(T)
				if ii.signed {
					lt = c.BVCmp("bvslt", r, a)
				} else {
					lt = c.BVCmp("bvult", r, a)
				}
			default:
				lt = c.Lt(r, a)
			}
			if b.Name() == "min" {
				r = c.Ite(lt, r, a)
			} else {
				r = c.Ite(lt, a, r)
			}
		}
		return []*Term{r}, nil
	case "StringData":
		t := c.App("strdata", c.Int, ex.norm(st, args[0]))
		t.nonneg = true
		return []*Term{t}, nil
	case "Slice":
		p := ex.norm(st, args[0])
		if p.Op == "app" && p.S == "strdata" && ex.valid(st, c.Eq(c.StrLen(p.Args[0]), args[1])) {
			et := ptrElem(cc.Args[0].Type())
			arr := ex.alloc(st)
			k := "[]" + ex.tkey(et)
			m := ex.memGet(st, k, et, 2)
			if ex.noteWrite != nil {
				ex.noteWrite(st, k, []*Term{arr, nil}, et)
			}
			st.mem[k] = c.Store(m, arr, c.App("str2row", ex.memSort(et, 1), p.Args[0]))
			n := c.StrLen(p.Args[0])
			return []*Term{ex.mkSlice(arr, c.IntC(0), n, n)}, nil
		}
		panic(unsupported("unsafe." + b.Name()))
	case "Add", "SliceData", "String":
		panic(unsupported("unsafe." + b.Name()))
	}
	panic(unsupported("builtin " + b.Name()))
}

func (ex *Exec) doAppend(st *State, s, t *Term, sT, tT types.Type) ([]*Term, []*State) {
	c := ex.c
	et := sT.Underlying().(*types.Slice).Elem()
	if isString(tT) {
		panic(unsupported("append string"))
	}
	n := c.Sel(t, 2)
	if n.Op == "int" && n.I.Sign() == 0 {
		return []*Term{s}, nil
	}
	arr, off, ln, cp := c.Sel(s, 0), c.Sel(s, 1), c.Sel(s, 2), c.Sel(s, 3)
	if arr.Op == "ite" {
		return nil, ex.fork(st, arr.Args[0])
	}
	newLen := c.Add(ln, n)
	fits := ex.normB(st, c.Le(newLen, cp))
	if fits != c.True && fits != c.False {
		// an append of nothing returns the slice itself; both cases are covered by the fork
		if ex.valid(st, fits) {
			fits = c.True
		} else if !ex.feasible(st, fits) {
			fits = c.False
		} else {
			return nil, ex.fork(st, fits)
		}
	}
	darr := arr
	if fits == c.False {
		darr = ex.alloc(st)
		for _, l := range ex.rowKeys(et) {
			m := ex.memGet(st, l.path, l.typ, 2)
			if ex.noteWrite != nil {
				ex.noteWrite(st, l.path, []*Term{darr, nil}, l.typ)
			}
			if !(ln.Op == "int" && ln.I.Sign() == 0) {
				st.mem[l.path] = c.Store(m, darr, c.Select(m, arr))
			}
		}
		ncp := c.Fresh("cap", c.Int)
		ncp.nonneg = true
		ncp.Facts = append(ncp.Facts, c.Le(newLen, ncp), c.Lt(ncp, c.BigC(pow2(40))))
		cp = ncp
		switch st.coarse {
		case 1:
			cp = newLen
		case 2:
			cp = c.Add(newLen, c.Add(newLen, c.IntC(4)))
		}
		if ln.Op == "int" && ln.I.Sign() == 0 {
			off = c.IntC(0)
		}
	}
	tarr, toff := c.Sel(t, 0), c.Sel(t, 1)
	if n.Op == "int" && n.I.Int64() <= 16 {
		k := int(n.I.Int64())
		vals := make([]*Term, k)
		b := "[]" + ex.tkey(et)
		for i := 0; i < k; i++ {
			l := Loc{key: b, base: b, idx: []*Term{tarr, c.Add(toff, c.IntC(int64(i)))}, typ: et}
			ex.guardAccess(st, gLoc{c.True, l}, false)
			vals[i] = ex.loadLoc(st, l)
		}
		for i := 0; i < k; i++ {
			l := Loc{key: b, base: b, idx: []*Term{darr, c.Add(c.Add(off, ln), c.IntC(int64(i)))}, typ: et}
			ex.guardAccess(st, gLoc{c.True, l}, true)
			ex.storeLoc(st, l, vals[i])
		}
	} else {
		ex.copyElems(st, et, darr, c.Add(off, ln), tarr, toff, n)
	}
	return []*Term{ex.mkSlice(darr, off, newLen, cp)}, nil
}
