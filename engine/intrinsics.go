package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
)

type handler func(ex *Exec, st *State, cc *callCtx) []*State

var vfIntrinsics map[string]handler
var externs map[string]handler

func externModel(name string) handler { return externs[name] }

func ptrElem(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (ex *Exec) strLit(t *Term) string {
	if t.Op == "str" {
		return t.S
	}
	return "?"
}

// ---- atomics
func (ex *Exec) sharedIdx(st *State, a *Term) int {
	b := stripCast(a)
	for i, s := range st.shared {
		if stripCast(s.addr) == b {
			return i
		}
	}
	return -1
}

// atomicPre reads the current value for an atomic operation (arbitrary if the location is shared).
func (ex *Exec) atomicPre(st *State, a *Term, T types.Type, wr bool) *Term {
	if i := ex.sharedIdx(st, a); i >= 0 {
		s := st.shared[i]
		v := ex.fresh(st, "shared", s.typ)
		if s.rely != nil && s.rely.I.Sign() != 0 {
			r := ex.evalBool(st, s.rely, []*Term{v})
			ex.assume(st, r)
		}
		ex.storeRaw(st, s.addr, s.typ, v)
	}
	if st.par == nil {
		return ex.load(st, a, T)
	}
	k := fmt.Sprintf("a%d", stripCast(a).ID)
	ex.acquireVC(st, k)
	ex.atomicAcc = true
	r := ex.load(st, a, T)
	for _, g := range ex.resolve(st, a, T) {
		if wr {
			ex.noteAccess(st, g.l.key, g.l.idx, g.g, true)
		}
	}
	ex.atomicAcc = false
	ex.releaseVC(st, k)
	return r
}

func (ex *Exec) storeRaw(st *State, a *Term, T types.Type, v *Term) { ex.store(st, a, T, v) }

// atomicPost writes and reports to the hook, then delivers.
func (ex *Exec) atomicPost(st *State, a *Term, T types.Type, old, nv *Term, cc *callCtx, rs ...*Term) []*State {
	ex.quietAccess++
	ex.store(st, a, T, nv)
	ex.quietAccess--
	if i := ex.sharedIdx(st, a); i >= 0 {
		s := st.shared[i]
		if s.write != nil && s.write.I.Sign() != 0 && st.quiet == 0 {
			cl := ex.closures[s.write.I.Int64()-1]
			want := ex.sortOf(s.typ)
			o, n := ex.reinterpret(old, want), ex.reinterpret(nv, want)
			st.nolockHook++
			ex.push(st, cl.fn, []*Term{o, n}, cl.binds, nil, func(s2 *State, _ []*Term) {
				s2.nolockHook--
				cc.ret(ex, s2, rs...)
			})
			return nil
		}
	}
	return cc.ret(ex, st, rs...)
}

func (ex *Exec) addT(a, b *Term, T types.Type) *Term {
	if a.Sort == ex.c.BV {
		return ex.c.BVOp("bvadd", a, b)
	}
	ii, _ := intKind(T)
	return ex.wrap(ex.c.Add(a, b), ii)
}

func atomicHandlers(add func(string, handler)) {
	kinds := map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32],
		"Uint64": types.Typ[types.Uint64], "Uintptr": types.Typ[types.Uintptr], "Pointer": types.Typ[types.UnsafePointer], "Bool": types.Typ[types.Bool]}
	for k, T := range kinds {
		T := T
		// functions on *T and methods on atomic.K (field v is the last field)
		for _, variant := range []int{0, 1, 2} {
			if variant == 2 && k != "Pointer" {
				continue
			}
			meth := variant != 0
			nm := func(op string) string {
				if variant == 2 { // atomic.Pointer[T]
					return "(*sync/atomic.Pointer[T])." + op
				}
				if meth {
					return "(*sync/atomic." + k + ")." + op
				}
				return "sync/atomic." + op + k
			}
			addr := func(ex *Exec, st *State, cc *callCtx) (*Term, types.Type) {
				a := cc.args[0]
				ex.nilCheck(st, a, "atomic")
				if !meth {
					return a, T
				}
				S := ptrElem(cc.fn.Signature.Recv().Type())
				u := S.Underlying().(*types.Struct)
				n := u.NumFields() - 1
				ft := u.Field(n).Type()
				return ex.fldIte(st, S, n, a), ft
			}
			isBool := k == "Bool"
			toV := func(ex *Exec, v *Term) *Term { // API value -> memory value
				if isBool && meth {
					return ex.c.Ite(v, ex.c.IntC(1), ex.c.IntC(0))
				}
				return v
			}
			fromV := func(ex *Exec, v *Term) *Term {
				if isBool && meth {
					return ex.c.Not(ex.c.Eq(v, ex.c.IntC(0)))
				}
				return v
			}
			add(nm("Load"), func(ex *Exec, st *State, cc *callCtx) []*State {
				a, T := addr(ex, st, cc)
				if st.dead {
					return nil
				}
				if !ex.inSpec(st) {
					if r := ex.yield(st, stripCast(a).ID, false); r != nil {
						return r
					}
				}
				return cc.ret(ex, st, fromV(ex, ex.atomicPre(st, a, T, false)))
			})
			add(nm("Store"), func(ex *Exec, st *State, cc *callCtx) []*State {
				a, T := addr(ex, st, cc)
				if st.dead {
					return nil
				}
				if !ex.inSpec(st) {
					if r := ex.yield(st, stripCast(a).ID, true); r != nil {
						return r
					}
				}
				old := ex.atomicPre(st, a, T, true)
				return ex.atomicPost(st, a, T, old, toV(ex, cc.args[1]), cc)
			})
			add(nm("Swap"), func(ex *Exec, st *State, cc *callCtx) []*State {
				a, T := addr(ex, st, cc)
				if st.dead {
					return nil
				}
				if !ex.inSpec(st) {
					if r := ex.yield(st, stripCast(a).ID, true); r != nil {
						return r
					}
				}
				old := ex.atomicPre(st, a, T, true)
				return ex.atomicPost(st, a, T, old, toV(ex, cc.args[1]), cc, fromV(ex, old))
			})
			add(nm("Add"), func(ex *Exec, st *State, cc *callCtx) []*State {
				a, T := addr(ex, st, cc)
				if st.dead {
					return nil
				}
				if !ex.inSpec(st) {
					if r := ex.yield(st, stripCast(a).ID, true); r != nil {
						return r
					}
				}
				old := ex.atomicPre(st, a, T, true)
				nv := ex.addT(old, cc.args[1], T)
				return ex.atomicPost(st, a, T, old, nv, cc, nv)
			})
			add(nm("CompareAndSwap"), func(ex *Exec, st *State, cc *callCtx) []*State {
				a, T := addr(ex, st, cc)
				if st.dead {
					return nil
				}
				if !ex.inSpec(st) {
					if r := ex.yield(st, stripCast(a).ID, true); r != nil {
						return r
					}
				}
				old := ex.atomicPre(st, a, T, true)
				eq := ex.c.Eq(old, toV(ex, cc.args[1]))
				return ex.branch(st, eq, func(s *State, b bool) []*State {
					if b {
						if r := ex.atomicPost(s, a, T, old, toV(ex, cc.args[2]), cc, ex.c.True); r != nil {
							return r
						}
						return []*State{s}
					}
					cc.ret(ex, s, ex.c.False)
					return []*State{s}
				})
			})
		}
	}
}

// ---- locks
func (ex *Exec) lockIdx(st *State, a *Term) int {
	for i, l := range st.locks {
		if l.addr == a {
			return i
		}
	}
	return -1
}

func lockOp(op string) handler {
	return func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		a := ex.norm(st, cc.args[0])
		if a.Op == "ite" {
			return ex.fork(st, a.Args[0])
		}
		ex.nilCheck(st, a, "lock")
		if st.dead {
			return nil
		}
		i := ex.lockIdx(st, a)
		hook := func(acq bool, after func(*State)) []*State {
			for _, h := range st.hooks {
				if h.addr == a && st.quiet == 0 {
					f := h.acq
					if !acq {
						f = h.rel
					}
					if f != nil && f.I.Sign() != 0 {
						cl := ex.closures[f.I.Int64()-1]
						st.nolockHook++
						ex.push(st, cl.fn, nil, cl.binds, nil, func(s *State, _ []*Term) {
							s.nolockHook--
							after(s)
						})
						return nil
					}
				}
			}
			after(st)
			return nil
		}
		lk := fmt.Sprintf("l%d", a.ID)
		switch op {
		case "Lock":
			if r := ex.yield(st, a.ID, true); r != nil {
				return r
			}
			if ex.inPar(st) && i < 0 && ex.lockedByOther(st, st.par.cur, a, true) {
				return ex.block(st, &waitCond{kind: "lock", addr: a})
			}
			ex.oblige(st, c.BoolC(i < 0), "deadlock", "lock acquired while already held")
			if st.dead {
				return nil
			}
			ex.acquireVC(st, lk)
			ex.acquireVC(st, lk+"r")
			st.locks = append(st.locks, lockSt{addr: a, mode: 1})
			return hook(true, func(s *State) { cc.ret(ex, s) })
		case "TryLock":
			if r := ex.yield(st, a.ID, true); r != nil {
				return r
			}
			if ex.inPar(st) {
				if i >= 0 || ex.lockedByOther(st, st.par.cur, a, true) {
					return cc.ret(ex, st, c.False)
				}
				ex.acquireVC(st, lk)
				ex.acquireVC(st, lk+"r")
				st.locks = append(st.locks, lockSt{addr: a, mode: 1})
				return cc.ret(ex, st, c.True)
			}
			if i >= 0 {
				return cc.ret(ex, st, c.False)
			}
			b := c.Fresh("trylock", c.Bool)
			return ex.branch(st, b, func(s *State, ok bool) []*State {
				if ok {
					s.locks = append(s.locks, lockSt{addr: a, mode: 1})
				}
				cc.ret(ex, s, c.BoolC(ok))
				return []*State{s}
			})
		case "RLock":
			if r := ex.yield(st, a.ID, false); r != nil {
				return r
			}
			if ex.inPar(st) && i < 0 && ex.lockedByOther(st, st.par.cur, a, false) {
				return ex.block(st, &waitCond{kind: "rlock", addr: a})
			}
			ex.oblige(st, c.BoolC(i < 0 || st.locks[i].mode != 1), "deadlock", "read lock acquired while write-locked")
			if st.dead {
				return nil
			}
			if i >= 0 {
				st.locks[i].mode++
				return cc.ret(ex, st)
			}
			ex.acquireVC(st, lk)
			st.locks = append(st.locks, lockSt{addr: a, mode: 2})
			return hook(true, func(s *State) { cc.ret(ex, s) })
		case "Unlock", "RUnlock":
			okk := i >= 0 && (st.locks[i].mode == 1) == (op == "Unlock")
			ex.oblige(st, c.BoolC(okk), "unlock", op+" of a lock that is not held")
			if st.dead {
				return nil
			}
			return hook(false, func(s *State) {
				j := ex.lockIdx(s, a)
				if op == "Unlock" {
					ex.releaseVC(s, lk)
				} else {
					ex.releaseVC(s, lk+"r")
				}
				if s.locks[j].mode > 2 {
					s.locks[j].mode--
				} else {
					s.locks = append(append([]lockSt(nil), s.locks[:j]...), s.locks[j+1:]...)
				}
				cc.ret(ex, s)
			})
		}
		return nil
	}
}

func noop(ex *Exec, st *State, cc *callCtx) []*State {
	return cc.ret(ex, st, ex.freshResults(st, "noop", cc.sig.Results())...)
}

// nonNilErr returns fresh results whose last (an interface) is not nil.
func nonNilIface(ex *Exec, st *State, cc *callCtx) []*State {
	rs := ex.freshResults(st, sanitize(cc.name), cc.sig.Results())
	for i := range rs {
		if isIface(cc.sig.Results().At(i).Type()) {
			ex.assume(st, ex.c.Not(ex.c.Eq(ex.c.Sel(rs[i], 0), ex.c.IntC(0))))
		}
	}
	return cc.ret(ex, st, rs...)
}

func strFn(f func(ex *Exec, a []*Term) *Term) handler {
	return func(ex *Exec, st *State, cc *callCtx) []*State {
		for i := range cc.args {
			cc.args[i] = ex.norm(st, cc.args[i])
		}
		return cc.ret(ex, st, f(ex, cc.args))
	}
}

// format evaluates fmt.Sprint and the like on literals; otherwise the result is a function of the values.
func format(ex *Exec, st *State, cc *callCtx) []*State {
	c := ex.c
	et := types.Type(types.NewInterfaceType(nil, nil))
	s := ex.norm(st, cc.args[len(cc.args)-1])
	var vals []interface{}
	var all []*Term
	lit := true
	if cc.name == "fmt.Sprintf" {
		f := ex.norm(st, cc.args[0])
		all = append(all, f)
		if f.Op == "str" {
			vals = append(vals, f.S)
		} else {
			lit = false
		}
	}
	if n := c.Sel(s, 2); n.Op != "int" || n.I.Int64() > 8 {
		return noop(ex, st, cc)
	}
	if sl, ok := cc.sig.Params().At(cc.sig.Params().Len() - 1).Type().(*types.Slice); ok {
		et = sl.Elem()
	}
	_, args := ex.seqOf(st, s, et)
	for _, a := range args {
		tag, p := ex.norm(st, c.Sel(a, 0)), ex.norm(st, c.Sel(a, 1))
		if tag.Op != "int" || tag.I.Sign() <= 0 || tag.I.Int64() > int64(len(ex.tidList)) {
			return noop(ex, st, cc)
		}
		T := ex.tidList[tag.I.Int64()-1]
		if pointerLike(T) || p.Op != "app" || !strings.HasPrefix(p.S, "box:") {
			return noop(ex, st, cc)
		}
		v := ex.norm(st, p.Args[0])
		all = append(all, tag, v)
		var rt reflect.Type
		if b, ok := T.(*types.Basic); ok {
			rt = map[types.BasicKind]reflect.Type{types.String: reflect.TypeOf(""), types.Int: reflect.TypeOf(0), types.Int64: reflect.TypeOf(int64(0)),
				types.Bool: reflect.TypeOf(true), types.Float64: reflect.TypeOf(0.0), types.Int32: reflect.TypeOf(int32(0))}[b.Kind()]
		} else if T.String() == "time.Duration" {
			rt = reflect.TypeOf(time.Duration(0))
		}
		if rt == nil {
			lit = false
			continue
		}
		g, ok := litTo(v, rt)
		if !ok {
			lit = false
			continue
		}
		vals = append(vals, g.Interface())
	}
	if lit {
		switch cc.name {
		case "fmt.Sprintf":
			return cc.ret(ex, st, c.StrC(fmt.Sprintf(vals[0].(string), vals[1:]...)))
		case "fmt.Sprint":
			return cc.ret(ex, st, c.StrC(fmt.Sprint(vals...)))
		}
	}
	return cc.ret(ex, st, c.App(fmt.Sprint(cc.name, len(all)), ex.sortOf(types.Typ[types.String]), all...))
}

func pureExtern(name string) bool {
	for _, p := range pureList {
		if strings.HasSuffix(p, "*") && strings.HasPrefix(name, p[:len(p)-1]) || p == name {
			return true
		}
	}
	return false
}

// deterministic functions of their (memory-free) arguments
var pureList = []string{
	"strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimPrefix", "strings.Trim", "strings.Replace", "strings.ReplaceAll",
	"strings.TrimRight", "strings.TrimLeft", "strings.Index", "strings.LastIndex", "strings.Count",
	"strings.Cut", "strings.EqualFold", "strings.CutPrefix", "strings.CutSuffix", "strings.IndexByte", "strings.Repeat", "strings.Compare", "strings.Title",
	"time.ParseDuration", "(time.Time).*", "(time.Duration).*", "time.Unix", "strconv.*", "path.*", "math.*",
	"(go.opentelemetry.io/otel/attribute.Set).*", "(*go.opentelemetry.io/otel/attribute.Set).Len",
	"(go.opentelemetry.io/otel/trace.TraceID).*", "(go.opentelemetry.io/otel/trace.SpanID).*", "(go.opentelemetry.io/otel/trace.TraceState).*",
	"(go.opentelemetry.io/otel/trace.SpanContext).*", "(go.opentelemetry.io/otel/trace.TraceFlags).*",
	"(*go.opentelemetry.io/otel/sdk/resource.Resource).*",
	"(go.opentelemetry.io/otel/attribute.Value).Emit",
	"github.com/dgryski/go-farm.*",
}

func init() {
	externs = map[string]handler{}
	vfIntrinsics = map[string]handler{}
	add := func(n string, h handler) { externs[n] = h }
	atomicHandlers(add)
	for _, t := range []string{"Mutex", "RWMutex"} {
		for _, op := range []string{"Lock", "Unlock", "RLock", "RUnlock", "TryLock"} {
			add("(*sync."+t+")."+op, lockOp(op))
		}
	}
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive",
		"(*time.Ticker).Stop", "(*time.Timer).Stop"} {
		add(n, noop)
	}
	add("(*sync.Once).Do", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		a := ex.norm(st, cc.args[0])
		S := ptrElem(cc.fn.Signature.Recv().Type())
		ex.nilCheck(st, a, "once")
		ls := ex.resolve(st, a, S)
		if len(ls) != 1 {
			return ex.fork(st, ls[0].g)
		}
		l := ls[0].l
		key := l.key + ".once#"
		ex.leafT[key] = types.Typ[types.Bool]
		ok := fmt.Sprintf("o%d", a.ID)
		if r := ex.yield(st, a.ID, true); r != nil {
			return r
		}
		if ex.inPar(st) && ex.lockIdx(st, a) < 0 && ex.lockedByOther(st, st.par.cur, a, true) {
			return ex.block(st, &waitCond{kind: "lock", addr: a})
		}
		done := ex.readLeaf(st, key, l.idx, types.Typ[types.Bool])
		return ex.branch(st, done, func(s *State, b bool) []*State {
			if b {
				ex.acquireVC(s, ok)
				cc.ret(ex, s)
				return []*State{s}
			}
			par := ex.inPar(s)
			if par {
				ex.oblige(s, c.BoolC(ex.lockIdx(s, a) < 0), "deadlock", "once called from its own function")
				s.locks = append(s.locks, lockSt{addr: a, mode: 1})
			}
			r := ex.callDyn(s, cc.args[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, func(s2 *State, _ []*Term) {
				ex.writeLeaf(s2, key, l.idx, types.Typ[types.Bool], c.True)
				if par {
					j := ex.lockIdx(s2, a)
					s2.locks = append(append([]lockSt(nil), s2.locks[:j]...), s2.locks[j+1:]...)
				}
				ex.releaseVC(s2, ok)
				cc.ret(ex, s2)
			})
			if r == nil {
				return []*State{s}
			}
			return r
		})
	})
	// errors and formatting
	add("errors.New", nonNilIface)
	add("fmt.Errorf", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		f, s := ex.norm(st, cc.args[0]), ex.norm(st, cc.args[1])
		n := c.Sel(s, 2)
		if f.Op != "str" || !strings.Contains(f.S, "%w") || n.Op != "int" {
			return nonNilIface(ex, st, cc)
		}
		e := ex.fresh(st, "errorf", cc.sig.Results().At(0).Type())
		ex.assume(st, c.Not(c.Eq(c.Sel(e, 0), c.IntC(0))))
		T := cc.sig.Params().At(1).Type().Underlying().(*types.Slice).Elem()
		b := "[]" + ex.tkey(T)
		arg := 0
		for i := 0; i+1 < len(f.S); i++ {
			if f.S[i] != '%' {
				continue
			}
			i++
			if f.S[i] == '%' {
				continue
			}
			for i < len(f.S)-1 && strings.IndexByte("+-# 0123456789.", f.S[i]) >= 0 {
				i++
			}
			if f.S[i] == 'w' && int64(arg) < n.I.Int64() {
				x := ex.norm(st, ex.loadLoc(st, Loc{key: b, base: b, idx: []*Term{c.Sel(s, 0), c.Add(c.Sel(s, 1), c.IntC(int64(arg)))}, typ: T}))
				tag := c.App("multierr", c.Int, e, x)
				if len(tag.Facts) == 0 {
					tag.Facts = append(tag.Facts, c.mk("<", c.Bool, "", 0, c.IntC(1<<40), tag))
				}
				e = c.Mk(ex.ifaceSort(), tag, c.IntC(0))
			}
			arg++
		}
		ex.assumed["fmt.Errorf yields a new error wrapping the arguments of %w"] = true
		return cc.ret(ex, st, e)
	})
	add("errors.As", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		e, p := ex.norm(st, cc.args[0]), ex.norm(st, cc.args[1])
		k := ex.norm(st, c.Sel(e, 0))
		if k.Op == "ite" {
			return ex.fork(st, k.Args[0])
		}
		pt := ex.norm(st, c.Sel(p, 0))
		if k.Op == "int" && k.I.Sign() == 0 {
			return cc.ret(ex, st, c.False)
		}
		if k.Op == "int" && pt.Op == "int" && pt.I.Sign() > 0 {
			T := ptrElem(ex.tidList[pt.I.Int64()-1])
			D := ex.tidList[k.I.Int64()-1]
			un, _, _ := types.LookupFieldOrMethod(D, true, nil, "Unwrap")
			as, _, _ := types.LookupFieldOrMethod(D, true, nil, "As")
			if as == nil && !isIface(T) {
				if types.Identical(T, D) {
					ex.store(st, ex.unbox(c.Sel(p, 1), types.NewPointer(T)), T, ex.unbox(ex.norm(st, c.Sel(e, 1)), T))
					return cc.ret(ex, st, c.True)
				}
				if un == nil {
					return cc.ret(ex, st, c.False)
				}
			}
		}
		panic(unsupported("errors.As of an error of unknown type"))
	})
	add("maps.Clone", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		mk := ex.mapK(cc.sig.Params().At(0).Type())
		m := ex.norm(st, cc.args[0])
		r := ex.alloc(st)
		ex.guardMap(st, mk, m, false)
		for _, w := range []string{"dom", "val", "len"} {
			mem := ex.mapMem(st, mk, w)
			key := map[string]string{"dom": mk.dom, "val": mk.val, "len": mk.ln}[w]
			if ex.noteWrite != nil {
				idx := []*Term{r, nil}
				if w == "len" {
					idx = idx[:1]
				}
				ex.noteWrite(st, key, idx, nil)
			}
			st.mem[key] = c.Store(mem, r, c.Select(mem, m))
		}
		return cc.ret(ex, st, c.Ite(c.Eq(m, c.IntC(0)), c.IntC(0), r))
	})
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		n := n
		add(n, func(ex *Exec, st *State, cc *callCtx) []*State { panic(unsupported(n)) })
	}
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"} {
		add(n, format)
	}
	add("time.ParseDuration", func(ex *Exec, st *State, cc *callCtx) []*State {
		s := ex.norm(st, cc.args[0])
		if s.Op == "ite" {
			return ex.fork(st, s.Args[0])
		}
		if s.Op != "str" {
			return ex.extern(st, cc)
		}
		d, err := time.ParseDuration(s.S)
		rs := ex.freshResults(st, "parsed", cc.sig.Results())
		t, _ := ex.litFrom(reflect.ValueOf(d), cc.sig.Results().At(0).Type())
		e := ex.zero(cc.sig.Results().At(1).Type())
		if err != nil {
			e = rs[1]
			ex.assume(st, ex.c.Not(ex.c.Eq(ex.c.Sel(e, 0), ex.c.IntC(0))))
		}
		return cc.ret(ex, st, t, e)
	})
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Fprintf", "fmt.Fprintln", "log.Print", "log.Printf", "log.Println",
		"go.opentelemetry.io/otel.Handle"} {
		add(n, noop)
	}
	isNil := func(ex *Exec, v *Term) *Term { return ex.c.Eq(ex.c.Sel(v, 0), ex.c.IntC(0)) }
	// combine is the error made of two: nil only if both are nil, containing both.
	combine := func(ex *Exec, l, r *Term, always bool) *Term {
		c := ex.c
		ex.assumed["multierr.Append, multierr.Combine and errors.Join combine errors: nil only if all are nil, containing all"] = true
		tag := c.App("multierr", c.Int, l, r)
		if len(tag.Facts) == 0 {
			tag.Facts = append(tag.Facts, c.mk("<", c.Bool, "", 0, c.IntC(1<<40), tag))
		}
		m := c.Mk(ex.ifaceSort(), tag, c.IntC(0))
		if always {
			return c.Ite(c.And(isNil(ex, l), isNil(ex, r)), l, m)
		}
		return c.Ite(isNil(ex, l), r, c.Ite(isNil(ex, r), l, m))
	}
	add("go.uber.org/multierr.Append", func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, combine(ex, ex.norm(st, cc.args[0]), ex.norm(st, cc.args[1]), false))
	})
	add("go.uber.org/multierr.AppendInto", func(ex *Exec, st *State, cc *callCtx) []*State {
		T := cc.sig.Params().At(1).Type()
		r := ex.norm(st, cc.args[1])
		ex.store(st, cc.args[0], T, combine(ex, ex.norm(st, ex.load(st, cc.args[0], T)), r, false))
		return cc.ret(ex, st, ex.c.Not(isNil(ex, r)))
	})
	for n, always := range map[string]bool{"go.uber.org/multierr.Combine": false, "errors.Join": true} {
		n, always := n, always
		add(n, func(ex *Exec, st *State, cc *callCtx) []*State {
			c := ex.c
			s := ex.norm(st, cc.args[0])
			ln := c.Sel(s, 2)
			if ln.Op == "ite" {
				return ex.fork(st, ln.Args[0])
			}
			if ln.Op != "int" || ln.I.Int64() > 64 {
				panic(unsupported(n + " of an unknown number of errors"))
			}
			T := cc.sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			zero := c.Mk(ex.ifaceSort(), c.IntC(0), c.IntC(0))
			e := zero
			b := "[]" + ex.tkey(T)
			for i := int64(0); i < ln.I.Int64(); i++ {
				x := ex.norm(st, ex.loadLoc(st, Loc{key: b, base: b, idx: []*Term{c.Sel(s, 0), c.Add(c.Sel(s, 1), c.IntC(i))}, typ: T}))
				e = combine(ex, e, x, always)
			}
			return cc.ret(ex, st, e)
		})
	}
	var errIs func(ex *Exec, e, t *Term) *Term
	errIs = func(ex *Exec, e, t *Term) *Term {
		c := ex.c
		switch {
		case e.Op == "ite":
			return c.Ite(e.Args[0], errIs(ex, e.Args[1], t), errIs(ex, e.Args[2], t))
		case e.Op == "mk" && e.Args[0].Op == "app" && e.Args[0].S == "multierr":
			return c.Or(errIs(ex, e.Args[0].Args[0], t), errIs(ex, e.Args[0].Args[1], t))
		case e.Op == "mk" && e.Args[0].Op == "ite":
			k, v := e.Args[0], e.Args[1]
			v1, v2 := v, v
			if v.Op == "ite" && v.Args[0] == k.Args[0] {
				v1, v2 = v.Args[1], v.Args[2]
			}
			return c.Ite(k.Args[0], errIs(ex, c.Mk(e.Sort, k.Args[1], v1), t), errIs(ex, c.Mk(e.Sort, k.Args[2], v2), t))
		}
		if k := c.Sel(e, 0); k.Op == "int" && k.I.Sign() > 0 && k.I.Int64() <= int64(len(ex.tidList)) {
			// an error of a known type that neither wraps nor compares
			T := ex.tidList[k.I.Int64()-1]
			if o, _, _ := types.LookupFieldOrMethod(T, true, nil, "Unwrap"); o == nil {
				if o, _, _ := types.LookupFieldOrMethod(T, true, nil, "Is"); o == nil {
					return c.Eq(e, t)
				}
			}
		}
		w := c.App("wraps", c.Bool, e, t)
		return c.Or(c.Eq(e, t), c.And(c.Not(isNil(ex, e)), w))
	}
	add("errors.Is", func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, errIs(ex, ex.norm(st, cc.args[0]), ex.norm(st, cc.args[1])))
	})
	// math
	add("regexp.MustCompile", func(ex *Exec, st *State, cc *callCtx) []*State {
		r := ex.c.App("regexp", ex.c.Int, ex.norm(st, cc.args[0]))
		if len(r.Facts) == 0 {
			r.Facts = append(r.Facts, ex.c.mk("<", ex.c.Bool, "", 0, ex.c.IntC(0), r))
		}
		return cc.ret(ex, st, r)
	})
	add("(*regexp.Regexp).MatchString", func(ex *Exec, st *State, cc *callCtx) []*State {
		r, s := ex.norm(st, cc.args[0]), ex.norm(st, cc.args[1])
		if r.Op == "app" && r.S == "regexp" && r.Args[0].Op == "str" && s.Op == "str" {
			if re, err := regexp.Compile(r.Args[0].S); err == nil {
				return cc.ret(ex, st, ex.c.BoolC(re.MatchString(s.S)))
			}
		}
		return cc.ret(ex, st, ex.c.App("ext:regexp.MatchString", ex.c.Bool, r, s))
	})
	add("math.IsNaN", strFn(func(ex *Exec, a []*Term) *Term { return ex.c.FPIs("fp.isNaN", a[0]) }))
	add("math.IsInf", strFn(func(ex *Exec, a []*Term) *Term {
		c := ex.c
		inf := c.FPIs("fp.isInfinite", a[0])
		neg := c.FPIs("fp.isNegative", a[0])
		z := c.IntC(0)
		return c.And(inf, c.Or(c.Eq(a[1], z), c.And(c.Lt(z, a[1]), c.Not(neg)), c.And(c.Lt(a[1], z), neg)))
	}))
	add("math.Float64bits", strFn(func(ex *Exec, a []*Term) *Term { return ex.c.F2B(a[0]) }))
	add("math.Float64frombits", strFn(func(ex *Exec, a []*Term) *Term { return ex.c.B2F(a[0]) }))
	add("math.Abs", strFn(func(ex *Exec, a []*Term) *Term { return ex.c.FPUn("fp.abs", a[0]) }))
	add("math.Signbit", strFn(func(ex *Exec, a []*Term) *Term { return ex.c.FPIs("fp.isNegative", a[0]) }))
	add("math.Inf", strFn(func(ex *Exec, a []*Term) *Term {
		c := ex.c
		return c.Ite(c.Le(c.IntC(0), a[0]), c.FPC(inf(1)), c.FPC(inf(-1)))
	}))
	add("math.NaN", strFn(func(ex *Exec, a []*Term) *Term { return ex.c.FPC(nan()) }))
	// strings
	add("strings.HasPrefix", strFn(func(ex *Exec, a []*Term) *Term { return ex.c.StrPred("str.prefixof", a[1], a[0]) }))
	add("strings.HasSuffix", strFn(func(ex *Exec, a []*Term) *Term { return ex.c.StrPred("str.suffixof", a[1], a[0]) }))
	add("strings.Contains", strFn(func(ex *Exec, a []*Term) *Term { return ex.c.StrPred("str.contains", a[0], a[1]) }))
	for _, n := range []string{"strings.ToLower", "strings.ToUpper", "strings.TrimSpace"} {
		n := n
		add(n, func(ex *Exec, st *State, cc *callCtx) []*State {
			a := ex.norm(st, cc.args[0])
			if a.Op == "str" {
				switch n {
				case "strings.ToLower":
					a = ex.c.StrC(strings.ToLower(a.S))
				case "strings.ToUpper":
					a = ex.c.StrC(strings.ToUpper(a.S))
				case "strings.TrimSpace":
					a = ex.c.StrC(strings.TrimSpace(a.S))
				}
				return cc.ret(ex, st, a)
			}
			ex.assumed["external function "+n+" is a deterministic function of its arguments without effects"] = true
			r, empty := ex.c.App("ext:"+n, ex.c.Str, a), ex.c.StrC("")
			if n == "strings.TrimSpace" {
				ex.assume(st, ex.c.Implies(ex.c.Eq(a, empty), ex.c.Eq(r, empty)))
			} else {
				ex.assume(st, ex.c.Eq(ex.c.Eq(a, empty), ex.c.Eq(r, empty)))
			}
			return cc.ret(ex, st, r)
		})
	}

	// splitting and joining literals
	split := func(f func(a []string) []string, n int) handler {
		return func(ex *Exec, st *State, cc *callCtx) []*State {
			var lits []string
			for _, a := range cc.args[:n] {
				if a = ex.norm(st, a); a.Op != "str" {
					return ex.extern(st, cc)
				}
				lits = append(lits, a.S)
			}
			if n < len(cc.args) {
				a := ex.norm(st, cc.args[n])
				if a.Op != "int" {
					return ex.extern(st, cc)
				}
				lits = append(lits, a.I.String())
			}
			return cc.ret(ex, st, ex.stringSlice(st, f(lits)))
		}
	}
	add("strings.Split", split(func(a []string) []string { return strings.Split(a[0], a[1]) }, 2))
	add("strings.SplitAfter", split(func(a []string) []string { return strings.SplitAfter(a[0], a[1]) }, 2))
	add("strings.Fields", split(func(a []string) []string { return strings.Fields(a[0]) }, 1))
	add("strings.SplitN", split(func(a []string) []string {
		n, _ := strconv.Atoi(a[2])
		return strings.SplitN(a[0], a[1], n)
	}, 2))
	add("strings.Join", func(ex *Exec, st *State, cc *callCtx) []*State {
		v := ex.norm(st, cc.args[0])
		n := ex.c.Sel(v, 2)
		if n.Op != "int" || n.I.Int64() > 24 {
			return ex.extern(st, cc)
		}
		_, es := ex.seqOf(st, v, types.Typ[types.String])
		r := ex.c.StrC("")
		for i, e := range es {
			if i > 0 {
				r = ex.c.Concat(r, cc.args[1])
			}
			r = ex.c.Concat(r, e)
		}
		return cc.ret(ex, st, r)
	})
	// an identifier is valid unless it is zero
	for _, n := range []string{"TraceID", "SpanID"} {
		add("(go.opentelemetry.io/otel/trace."+n+").IsValid", func(ex *Exec, st *State, cc *callCtx) []*State {
			T := cc.sig.Recv().Type()
			return cc.ret(ex, st, ex.c.Not(ex.c.Eq(ex.norm(st, cc.args[0]), ex.zero(T))))
		})
	}

	// ---- specification vocabulary
	vfa := func(n string, h handler) { vfIntrinsics[n] = h }
	vfa("Symbolic", func(ex *Exec, st *State, cc *callCtx) []*State { return cc.ret(ex, st, ex.c.True) })
	vfa("Any", func(ex *Exec, st *State, cc *callCtx) []*State {
		T := cc.T(0)
		v := ex.freshInit("any_"+ex.strLit(cc.args[0]), T)
		st.anys = append(st.anys, anyRec{Name: ex.strLit(cc.args[0]), T: T, Val: v, Kind: "any"})
		return cc.ret(ex, st, v)
	})
	vfa("AnyPtr", func(ex *Exec, st *State, cc *callCtx) []*State {
		st.posObj++
		v := ex.c.IntC(int64(st.posObj))
		st.anys = append(st.anys, anyRec{Name: ex.strLit(cc.args[0]), T: cc.T(0), Val: v, Kind: "ptr"})
		return cc.ret(ex, st, v)
	})
	vfa("AnySlice", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		st.posObj++
		arr := c.IntC(int64(st.posObj))
		n := cc.args[1]
		ex.assume(st, c.Le(c.IntC(0), n))
		cp := n
		st.anys = append(st.anys, anyRec{Name: ex.strLit(cc.args[0]), T: cc.T(0), Val: arr, Kind: "slice", Len: n})
		return cc.ret(ex, st, ex.mkSlice(arr, c.IntC(0), n, cp))
	})
	vfa("AnyMap", func(ex *Exec, st *State, cc *callCtx) []*State {
		st.posObj++
		v := ex.c.IntC(int64(st.posObj))
		st.anys = append(st.anys, anyRec{Name: ex.strLit(cc.args[0]), T: types.NewMap(cc.T(0), cc.T(1)), Val: v, Kind: "map"})
		return cc.ret(ex, st, v)
	})
	vfa("Choose", func(ex *Exec, st *State, cc *callCtx) []*State {
		n := int(cc.args[1].I.Int64())
		nm := ex.strLit(cc.args[0])
		var out []*State
		for i := 0; i < n; i++ {
			s := st
			if i < n-1 {
				s = st.clone()
			}
			v := ex.c.IntC(int64(i))
			s.anys = append(s.anys, anyRec{Name: nm, T: types.Typ[types.Int], Val: v, Kind: "any"})
			s.trail = append(s.trail, fmt.Sprintf("%s=%d", nm, i))
			cc.ret(ex, s, v)
			out = append(out, s)
		}
		return out
	})
	vfa("Assume", func(ex *Exec, st *State, cc *callCtx) []*State {
		ex.assume(st, cc.args[0])
		if st.dead {
			return []*State{}
		}
		if !ex.feasible(st, ex.c.True) {
			st.dead = true
		}
		return cc.ret(ex, st)
	})
	vfa("Ensure", func(ex *Exec, st *State, cc *callCtx) []*State {
		lbl := ex.strLit(cc.args[1])
		if ex.discovery == 0 && st.quiet == 0 {
			ex.ensures[lbl]++
			st.nensure++
		}
		ex.oblige(st, cc.args[0], "ensures", lbl)
		return cc.ret(ex, st)
	})
	vfa("Same", func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, ex.c.Eq(ex.norm(st, cc.args[0]), ex.norm(st, cc.args[1])))
	})
	vfa("Implies", func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, ex.c.Implies(cc.args[0], cc.args[1]))
	})
	vfa("Ite", func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, ex.c.Ite(cc.args[0], cc.args[1], cc.args[2]))
	})
	vfa("Shared", func(ex *Exec, st *State, cc *callCtx) []*State {
		st.shared = append(st.shared, sharedLoc{addr: ex.norm(st, cc.args[0]), typ: cc.T(0), rely: cc.args[1], write: cc.args[2]})
		return cc.ret(ex, st)
	})
	vfa("OnLock", func(ex *Exec, st *State, cc *callCtx) []*State {
		a := ex.norm(st, ex.c.Sel(ex.norm(st, cc.args[0]), 1))
		st.hooks = append(st.hooks, lockHook{addr: a, acq: cc.args[1], rel: cc.args[2]})
		return cc.ret(ex, st)
	})
	vfa("Guard", func(ex *Exec, st *State, cc *callCtx) []*State {
		T := cc.T(0)
		lock := ex.norm(st, ex.c.Sel(ex.norm(st, cc.args[0]), 1))
		p := ex.norm(st, cc.args[1])
		lbl := ex.strLit(cc.args[2])
		for _, g := range ex.resolve(st, p, T) {
			st.guards = append(st.guards, guardRule{key: g.l.key, idx: g.l.idx, lock: lock, label: lbl})
		}
		if _, ok := T.Underlying().(*types.Map); ok {
			mk := ex.mapK(T)
			st.guards = append(st.guards, guardRule{mapk: mk.dom, ref: ex.load(st, p, T), lock: lock, label: lbl})
		}
		if sl, ok := T.Underlying().(*types.Slice); ok {
			v := ex.load(st, p, T)
			_ = sl
			_ = v
		}
		return cc.ret(ex, st)
	})
	vfa("Held", func(ex *Exec, st *State, cc *callCtx) []*State {
		a := ex.norm(st, ex.c.Sel(ex.norm(st, cc.args[0]), 1))
		return cc.ret(ex, st, ex.c.BoolC(ex.lockIdx(st, a) >= 0))
	})
	vfa("HeldExclusive", func(ex *Exec, st *State, cc *callCtx) []*State {
		a := ex.norm(st, ex.c.Sel(ex.norm(st, cc.args[0]), 1))
		i := ex.lockIdx(st, a)
		return cc.ret(ex, st, ex.c.BoolC(i >= 0 && st.locks[i].mode == 1))
	})
	vfa("LocksHeld", func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, ex.c.IntC(int64(len(st.locks))))
	})
	vfa("LoopInv", func(ex *Exec, st *State, cc *callCtx) []*State {
		v := ex.norm(st, cc.args[0])
		st.invs = append(st.invs, loopInv{fn: ex.c.Sel(v, 1)})
		return cc.ret(ex, st)
	})
	vfa("Track", func(ex *Exec, st *State, cc *callCtx) []*State {
		st.tracked = append(st.tracked, cc.args[0])
		return cc.ret(ex, st)
	})
	vfa("Visited", func(ex *Exec, st *State, cc *callCtx) []*State {
		s := ex.sortOf(cc.T(0))
		best := -1
		for id, it := range st.iters {
			if it.visited != nil && it.visited.Sort.K == s && id > best {
				best = id
			}
		}
		if best < 0 {
			return cc.ret(ex, st, ex.c.False)
		}
		return cc.ret(ex, st, ex.c.Select(st.iters[best].visited, cc.args[0]))
	})
	vfa("Havoc", func(ex *Exec, st *State, cc *callCtx) []*State {
		v := ex.fresh(st, "havoc", cc.T(0))
		ex.store(st, ex.norm(st, cc.args[0]), cc.T(0), v)
		return cc.ret(ex, st)
	})
	vfa("HavocMap", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		mk := ex.mapK(types.NewMap(cc.T(0), cc.T(1)))
		ref := ex.norm(st, cc.args[0])
		dom, val, ln := ex.mapMem(st, mk, "dom"), ex.mapMem(st, mk, "val"), ex.mapMem(st, mk, "len")
		if ex.noteWrite != nil {
			ex.noteWrite(st, mk.dom, []*Term{ref, nil}, nil)
			ex.noteWrite(st, mk.val, []*Term{ref, nil}, nil)
			ex.noteWrite(st, mk.ln, []*Term{ref}, nil)
		}
		st.mem[mk.dom] = c.Store(dom, ref, c.Fresh("hdom", dom.Sort.V))
		rowv := c.Fresh("hval", val.Sort.V)
		ex.roots[rowv.ID] = rootInfo{mk.v, 1, st.mark}
		st.mem[mk.val] = c.Store(val, ref, rowv)
		l := c.Fresh("hlen", c.Int)
		ex.typed(l, types.Typ[types.Uint32], nil)
		st.mem[mk.ln] = c.Store(ln, ref, l)
		return cc.ret(ex, st)
	})
	vfa("Fresh", func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, ex.c.Lt(ex.norm(st, cc.args[0]), ex.startMark))
	})
	vfa("FreshSlice", func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, ex.c.Lt(ex.c.Sel(ex.norm(st, cc.args[0]), 0), ex.startMark))
	})
	vfa("SameArray", func(ex *Exec, st *State, cc *callCtx) []*State {
		a, b := ex.norm(st, cc.args[0]), ex.norm(st, cc.args[1])
		return cc.ret(ex, st, ex.c.And(ex.c.Eq(ex.c.Sel(a, 0), ex.c.Sel(b, 0)), ex.c.Not(ex.c.Eq(ex.c.Sel(a, 0), ex.c.IntC(0)))))
	})
	vfa("All", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		v := c.BoundVar("i", c.Int)
		s := st.clone()
		rng := c.And(c.Le(c.IntC(0), v), c.Lt(v, cc.args[0]))
		body := ex.evalBool(s, ex.norm(st, cc.args[1]), []*Term{v})
		return cc.ret(ex, st, c.Forall(v, c.Implies(rng, body)))
	})
	vfa("Pick", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		v := ex.freshInit("pick", types.Typ[types.Int])
		ex.assume(st, c.And(c.Le(c.IntC(0), v), c.Lt(v, cc.args[1])))
		st.anys = append(st.anys, anyRec{Name: ex.strLit(cc.args[0]), T: types.Typ[types.Int], Val: v, Kind: "any"})
		if st.dead {
			return []*State{}
		}
		return cc.ret(ex, st, v)
	})
	vfa("Len", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		v := ex.freshInit("len", types.Typ[types.Int])
		ex.assume(st, c.Le(c.IntC(0), v))
		st.anys = append(st.anys, anyRec{Name: ex.strLit(cc.args[0]), T: types.Typ[types.Int], Val: v, Kind: "any"})
		return cc.ret(ex, st, v)
	})
	vfa("Bounded", func(ex *Exec, st *State, cc *callCtx) []*State {
		ex.bounded[ex.strLit(cc.args[0])] = true
		return cc.ret(ex, st)
	})
	vfa("Coarse", func(ex *Exec, st *State, cc *callCtx) []*State {
		ex.bounded["two policies for map order and spare slice capacity (insertion order and none; reverse order and ample)"] = true
		s2 := st.clone()
		st.coarse, s2.coarse = 1, 2
		cc.ret(ex, st)
		cc.ret(ex, s2)
		return []*State{st, s2}
	})
	vfa("Unroll", func(ex *Exec, st *State, cc *callCtx) []*State {
		st.unrollMax = int(cc.args[0].I.Int64())
		return cc.ret(ex, st)
	})
	vfa("RunSpawned", func(ex *Exec, st *State, cc *callCtx) []*State {
		if len(st.spawned) == 0 {
			return cc.ret(ex, st)
		}
		d := st.spawned[0]
		return ex.invokeDeferred(st, d, func(s *State, _ []*Term) { // re-executes RunSpawned
			s.spawned = append([]deferred(nil), s.spawned[1:]...)
		})
	})
	vfa("Spawned", func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, ex.c.IntC(int64(len(st.spawned))))
	})
	vfa("Pure", func(ex *Exec, st *State, cc *callCtx) []*State {
		// Pure(name, x): uninterpreted deterministic function of x
		T := cc.T(1)
		t := ex.c.App("pure:"+ex.strLit(cc.args[0])+":"+ex.tkey(cc.T(0)), ex.sortOf(T), cc.args[1])
		return cc.ret(ex, st, ex.typed(t, T, ex.c.IntC(0)))
	})
	vfa("Eval", func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, ex.evalBool(st, ex.norm(st, cc.args[0]), nil))
	})
}

func (c *Ctx) StrPred(op string, a, b *Term) *Term {
	if a.Op == "str" && b.Op == "str" {
		switch op {
		case "str.prefixof":
			return c.BoolC(strings.HasPrefix(b.S, a.S))
		case "str.suffixof":
			return c.BoolC(strings.HasSuffix(b.S, a.S))
		case "str.contains":
			return c.BoolC(strings.Contains(a.S, b.S))
		}
	}
	return c.mk(op, c.Bool, "", 0, a, b)
}

var _ = big.NewInt

// stringSlice is a new slice of literals.
func (ex *Exec) stringSlice(st *State, l []string) *Term {
	c := ex.c
	if l == nil {
		return ex.zero(types.NewSlice(types.Typ[types.String]))
	}
	arr := ex.alloc(st)
	T := types.Typ[types.String]
	b := "[]" + ex.tkey(T)
	for i, x := range l {
		ex.storeLoc(st, Loc{key: b, base: b, idx: []*Term{arr, c.IntC(int64(i))}, typ: T}, c.StrC(x))
	}
	n := c.IntC(int64(len(l)))
	return ex.mkSlice(arr, c.IntC(0), n, n)
}
