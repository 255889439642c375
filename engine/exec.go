package main

// Symbolic execution of SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsupported string

type deferred struct {
	fn   *Term // closure id, or nil when static
	sfn  *ssa.Function
	args []*Term
	cc   *ssa.CallCommon
	recv *Term
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	defers []deferred
	binds  []*Term
	call   ssa.Value
	cont   func(st *State, rets []*Term)
	iters  map[*ssa.BasicBlock]int
	shared bool
	backIn bool // arrived at block through a back edge
}

type iterSt struct {
	ref     *Term
	typ     types.Type
	visited *Term   // array K -> Bool
	keys    []*Term // remaining candidate keys when the contents are known
	known   bool
	str     string
	pos     int // of the next rune of str
}

type anyRec struct {
	Name string
	T    types.Type
	Val  *Term // value (Any) or reference (AnyPtr, AnySlice)
	Kind string
	Len  *Term
}

type sharedLoc struct {
	addr  *Term
	typ   types.Type
	write *Term // closure id (0 none): func(old, new T)
	rely  *Term // closure id: func(v T) bool
}

type lockHook struct {
	addr *Term
	acq  *Term
	rel  *Term
}

type lockSt struct {
	addr *Term
	mode int // 1 write, 2+ read count
	pos  token.Pos
}

type loopInv struct {
	fn *Term // closure id
}

type State struct {
	pc          []*Term
	known       map[int]bool
	knownSh     bool
	mem         map[string]*Term
	mark        *Term
	frames      []*Frame
	locks       []lockSt
	iters       map[int]*iterSt
	shared      []sharedLoc
	hooks       []lockHook
	invs        []loopInv
	anys        []anyRec
	spawned     []deferred
	dead        bool
	steps       int
	posObj      int // next positive literal for pre-existing objects
	tracked     []*Term
	nensure     int
	trail       []string
	calls       int
	quiet       int
	nolockHook  int
	guards      []guardRule
	forallDepth int
	unrollMax   int
	par         *parSt
	coarse      int // 1: tight capacities, maps in insertion order; 2: roomy capacities, reverse order
}

func (st *State) clone() *State {
	n := *st
	st.knownSh, n.knownSh = true, true
	n.mem = make(map[string]*Term, len(st.mem)+4)
	for k, v := range st.mem {
		n.mem[k] = v
	}
	for _, f := range st.frames {
		f.shared = true
	}
	n.frames = append([]*Frame(nil), st.frames...)
	n.locks = append([]lockSt(nil), st.locks...)
	n.iters = make(map[int]*iterSt, len(st.iters))
	for k, v := range st.iters {
		n.iters[k] = v
	}
	n.shared = append([]sharedLoc(nil), st.shared...)
	n.hooks = append([]lockHook(nil), st.hooks...)
	n.guards = st.guards[:len(st.guards):len(st.guards)]
	n.invs = append([]loopInv(nil), st.invs...)
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.anys = st.anys[:len(st.anys):len(st.anys)]
	n.spawned = append([]deferred(nil), st.spawned...)
	n.tracked = st.tracked[:len(st.tracked):len(st.tracked)]
	n.trail = st.trail[:len(st.trail):len(st.trail)]
	n.par = st.par.clone()
	return &n
}

func (st *State) top() *Frame {
	i := len(st.frames) - 1
	f := st.frames[i]
	if f.shared {
		n := *f
		n.shared = false
		n.env = make(map[ssa.Value]*Term, len(f.env)+8)
		for k, v := range f.env {
			n.env[k] = v
		}
		n.defers = append([]deferred(nil), f.defers...)
		n.iters = map[*ssa.BasicBlock]int{}
		for k, v := range f.iters {
			n.iters[k] = v
		}
		st.frames[i] = &n
		return &n
	}
	return f
}

type Failure struct {
	Kind  string
	Msg   string
	Pos   string
	Fn    string
	Model string
	Anys  []anyVal
	Res   string
	Trail []string
}

type anyVal struct {
	Name string            `json:"name"`
	Kind string            `json:"kind"`
	Vals map[string]string `json:"vals"`
}

type closure struct {
	fn    *ssa.Function
	binds []*Term
}

type Exec struct {
	E             *Engine
	c             *Ctx
	name          string
	tkeys         map[types.Type]string
	typeOf        map[string]types.Type
	tids          map[string]int
	tidList       []types.Type
	sorts         map[types.Type]*Sort
	globT         map[string]types.Type
	roots         map[int]rootInfo
	mapRoots      map[int]rootInfo
	keyInfo       map[string]keyInf
	mapKeyInfo    map[string]mapKeyInf
	leafT         map[string]types.Type
	closures      []closure
	fnIDs         map[*ssa.Function]int
	noteWrite     func(st *State, key string, idx []*Term, t types.Type)
	globInit      bool
	discovery     int // >0: obligations suppressed
	fails         []Failure
	failSeen      map[string]bool
	nOblig        int
	nTrivial      int
	nSolved       int
	paths         int
	ensures       map[string]int
	assumed       map[string]bool
	funcs         map[string]int
	bounded       map[string]bool
	loops         map[string]string
	feasCache     map[string]bool
	deadline      time.Time
	qtimeout      time.Duration
	sub           *Solver
	nextIter      int
	extPure       map[string]bool
	sliceBoxes    map[int]boxInfo
	mutGlob       map[string]bool
	knownSets     map[int][]*Term
	unroll        int
	contracts     map[string]*ssa.Function
	contractsUsed map[string]bool
	stubs         map[*ssa.Function]string
	initMem       map[string]*Term
	maxPaths      int
	invCache      map[string]*Term
	anyCount      int
	tmpDead       bool
	trackRow      map[string][]*Term
	startMark     *Term
	quietErr      []string
	chans         map[int]bool
	quietAccess   int
	syncShared    map[int]bool
	syncNew       bool
	maxSwitch     int
	parMax        int
	usedPar       bool
	atomicAcc     bool
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	po := ex.E.fset.Position(p)
	f := strings.TrimPrefix(po.Filename, ex.E.repo+"/")
	return fmt.Sprintf("%s:%d", f, po.Line)
}

func (ex *Exec) curPos(st *State) (string, string) {
	if len(st.frames) == 0 {
		return "", ""
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.ip < len(f.block.Instrs) {
			ins := f.block.Instrs[f.ip]
			p := ins.Pos()
			if !p.IsValid() {
				for j := f.ip; j >= 0; j-- {
					if q := f.block.Instrs[j].Pos(); q.IsValid() {
						p = q
						break
					}
				}
			}
			if p.IsValid() {
				return ex.pos(p), f.fn.String()
			}
		}
	}
	return "", st.frames[len(st.frames)-1].fn.String()
}

// ---- path condition
func (ex *Exec) assume(st *State, t *Term) {
	c := ex.c
	t = ex.normB(st, t)
	if t == c.True {
		return
	}
	if t == c.False {
		st.dead = true
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			ex.assume(st, a)
		}
		return
	}
	if st.known[t.ID] {
		return
	}
	if st.knownSh {
		n := make(map[int]bool, len(st.known)+8)
		for k := range st.known {
			n[k] = true
		}
		st.known = n
		st.knownSh = false
	}
	st.known[t.ID] = true
	if t.Op == "=" && t.Args[0].IsLit() != t.Args[1].IsLit() {
		// x = literal: x is different from other literals; remembered through known equality only
	}
	st.pc = append(st.pc, t)
}

func (ex *Exec) knownB(st *State, t *Term) (bool, bool) {
	c := ex.c
	if t == c.True {
		return true, true
	}
	if t == c.False {
		return false, true
	}
	if st.known[t.ID] {
		return true, true
	}
	if st.known[c.Not(t).ID] {
		return false, true
	}
	return false, false
}

// normB simplifies a boolean using known facts.
func (ex *Exec) normB(st *State, t *Term) *Term {
	if v, ok := ex.knownB(st, t); ok {
		return ex.c.BoolC(v)
	}
	c := ex.c
	switch t.Op {
	case "and", "or":
		changed := false
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = ex.normB(st, a)
			if as[i] != a {
				changed = true
			}
		}
		if changed {
			if t.Op == "and" {
				return c.And(as...)
			}
			return c.Or(as...)
		}
	case "not":
		a := ex.normB(st, t.Args[0])
		if a != t.Args[0] {
			return c.Not(a)
		}
	case "ite":
		if v, ok := ex.knownB(st, ex.normB(st, t.Args[0])); ok {
			if v {
				return ex.normB(st, t.Args[1])
			}
			return ex.normB(st, t.Args[2])
		}
	case "=", "<", "<=", "bvslt", "bvsle", "bvult", "bvule":
		a, b := ex.norm(st, t.Args[0]), ex.norm(st, t.Args[1])
		if a != t.Args[0] || b != t.Args[1] {
			switch t.Op {
			case "=":
				return ex.normB1(st, c.Eq(a, b))
			case "<":
				return ex.normB1(st, c.Lt(a, b))
			case "<=":
				return ex.normB1(st, c.Le(a, b))
			default:
				return ex.normB1(st, c.BVCmp(t.Op, a, b))
			}
		}
	}
	return t
}
func (ex *Exec) normB1(st *State, t *Term) *Term {
	if v, ok := ex.knownB(st, t); ok {
		return ex.c.BoolC(v)
	}
	return t
}

// norm resolves conditionals whose condition is known on this path.
func (ex *Exec) norm(st *State, t *Term) *Term {
	for n := 0; n < 50; n++ {
		switch t.Op {
		case "ite":
			cnd := ex.normB(st, t.Args[0])
			if cnd == ex.c.True {
				t = t.Args[1]
				continue
			}
			if cnd == ex.c.False {
				t = t.Args[2]
				continue
			}
			a, b := ex.norm(st, t.Args[1]), ex.norm(st, t.Args[2])
			if a != t.Args[1] || b != t.Args[2] {
				return ex.c.Ite(t.Args[0], a, b)
			}
			return t
		case "mk":
			if len(t.Args) == 0 {
				return t
			}
			changed := false
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				as[i] = a
				if a.Op == "ite" || a.Op == "mk" {
					as[i] = ex.norm(st, a)
					changed = changed || as[i] != a
				}
			}
			if changed {
				return ex.c.Mk(t.Sort, as...)
			}
			return t
		default:
			if t.Sort == ex.c.Bool {
				return ex.normB(st, t)
			}
			return t
		}
	}
	return t
}

func (ex *Exec) ask(st *State, extra *Term, timeout time.Duration, thorough bool, values []*Term) (Result, string) {
	as := ex.slice(st, extra)
	q := ex.c.Render(as, values)
	return ex.E.solver.Check(q, timeout, thorough)
}

// slice keeps the path conditions connected to extra by shared symbols.
func (ex *Exec) slice(st *State, extra *Term) []*Term {
	want := map[int]bool{}
	for s := range ex.symsOf(extra) {
		want[s] = true
	}
	used := make([]bool, len(st.pc))
	for {
		ch := false
		for i, p := range st.pc {
			if used[i] {
				continue
			}
			ps := ex.symsOf(p)
			hit := len(ps) == 0
			for s := range ps {
				if want[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for s := range ps {
					want[s] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, p := range st.pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return append(out, extra)
}

func (ex *Exec) symsOf(t *Term) map[int]bool {
	if t.syms != nil {
		return t.syms
	}
	r := map[int]bool{}
	if t.Op == "var" {
		r[t.ID] = true
	}
	if t.Op == "select" && !t.haswq {
		// reads of initial memory at literal positions are independent symbols
		a := t
		lit := true
		for a.Op == "select" {
			if !a.Args[1].IsLit() && a.Args[1].Op != "var" {
				lit = false
			}
			if a.Args[1].Op == "var" {
				lit = false
			}
			a = a.Args[0]
		}
		if a.Op == "var" && lit {
			r[t.ID] = true
			r[-1-a.ID] = false
			delete(r, -1-a.ID)
			t.syms = map[int]bool{t.ID: true, a.ID: true}
			return t.syms
		}
	}
	for _, a := range t.Args {
		for s := range ex.symsOf(a) {
			r[s] = true
		}
	}
	t.syms = r
	return r
}

func (ex *Exec) feasible(st *State, cond *Term) bool {
	cond = ex.normB(st, cond)
	if cond == ex.c.True {
		return true
	}
	if cond == ex.c.False {
		return false
	}
	var sb strings.Builder
	as := ex.slice(st, cond)
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = a.ID
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d,", i)
	}
	k := sb.String()
	if v, ok := ex.feasCache[k]; ok {
		return v
	}
	r, _ := ex.E.solver.Check(ex.c.Render(as, nil), ex.E.feasTimeout, false)
	v := r != Unsat
	ex.feasCache[k] = v
	return v
}

// valid asks whether cond follows from the path (used inside the engine; unknown = no).
func (ex *Exec) valid(st *State, cond *Term) bool {
	cond = ex.normB(st, cond)
	if cond == ex.c.True {
		return true
	}
	return !ex.feasible(st, ex.c.Not(cond))
}

// oblige is a proof obligation: cond must hold on this path.
func (ex *Exec) oblige(st *State, cond *Term, kind, msg string) {
	if st.dead {
		return
	}
	cond = ex.normB(st, cond)
	if ex.discovery > 0 || st.quiet > 0 {
		if st.quiet > 0 && cond != ex.c.True {
			// inside a specification expression: undefined means false
			if !ex.feasible(st, ex.c.Not(cond)) {
				ex.assume(st, cond)
				return
			}
		}
		ex.assume(st, cond)
		return
	}
	ex.nOblig++
	if cond == ex.c.True {
		ex.nTrivial++
		return
	}
	pos, fn := ex.curPos(st)
	key := kind + "|" + msg + "|" + pos
	if ex.failSeen[key] {
		ex.assume(st, cond)
		return
	}
	neg := ex.c.Not(cond)
	r, _ := ex.ask(st, neg, ex.qtimeout, true, nil)
	if r == Unsat {
		ex.nSolved++
		ex.assume(st, cond)
		return
	}
	// confirm with the whole path condition and get a model
	f := Failure{Kind: kind, Msg: msg, Pos: pos, Fn: fn, Res: r.String(), Trail: st.trail}
	if r != Unsat {
		vals, labels := ex.anyTerms(st)
		q := ex.c.Render(append(append([]*Term{}, st.pc...), neg), vals)
		r2, m := ex.E.solver.Check(q, ex.qtimeout, false)
		if r2 == Unsat {
			ex.nSolved++
			ex.assume(st, cond)
			return
		}
		f.Res = r2.String()
		if r2 == Sat {
			f.Model = m
			f.Anys = ex.modelAnys(st, m, labels)
		}
		if os.Getenv("VF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "FAIL %s %s %s %s: cond=%s\n", ex.name, kind, msg, pos, cond)
			for _, p := range st.pc {
				fmt.Fprintf(os.Stderr, "   pc %s\n", p)
			}
			fmt.Fprintf(os.Stderr, "   model %s\n", m)
		}
	}
	ex.failSeen[key] = true
	ex.fails = append(ex.fails, f)
	ex.assume(st, cond)
}

// ---- running
type stopFn func(*State) bool

func (ex *Exec) run(init []*State, stop stopFn) []*State {
	work := append([]*State{}, init...)
	var stopped []*State
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if st.dead {
				break
			}
			if stop != nil && stop(st) {
				stopped = append(stopped, st)
				break
			}
			if len(st.frames) == 0 && st.par != nil && ex.discovery == 0 {
				next := ex.threadExit(st)
				if next == nil {
					continue
				}
				if len(next) == 0 {
					break
				}
				st = next[0]
				work = append(work, next[1:]...)
				continue
			}
			if len(st.frames) == 0 {
				ex.paths++
				stopped = append(stopped, st)
				break
			}
			if time.Now().After(ex.deadline) {
				panic(unsupported("time budget exhausted"))
			}
			next := ex.step(st)
			if next == nil {
				continue
			}
			if len(next) == 0 {
				break
			}
			st = next[0]
			work = append(work, next[1:]...)
			if len(work) > ex.maxPaths {
				panic(unsupported("too many paths"))
			}
		}
	}
	return stopped
}

func (ex *Exec) val(st *State, v ssa.Value) *Term {
	f := st.frames[len(st.frames)-1]
	return ex.valIn(st, f, v)
}

func (ex *Exec) valIn(st *State, f *Frame, v ssa.Value) *Term {
	if t, ok := f.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constant(v)
	case *ssa.Global:
		return ex.globAddr(globName(v), v.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Function:
		return ex.funcID(v)
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				return f.binds[i]
			}
		}
	case *ssa.Builtin:
		return ex.c.IntC(0)
	}
	panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn)))
}

func globName(g *ssa.Global) string {
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

func (ex *Exec) funcID(fn *ssa.Function) *Term {
	id, ok := ex.fnIDs[fn]
	if !ok {
		ex.closures = append(ex.closures, closure{fn, nil})
		id = len(ex.closures)
		ex.fnIDs[fn] = id
	}
	return ex.c.IntC(int64(id))
}

func (ex *Exec) constant(v *ssa.Const) *Term {
	c := ex.c
	t := v.Type()
	if v.Value == nil {
		return ex.zero(t)
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		_ = tp
		panic(unsupported("typeparam constant"))
	}
	if ii, ok := intKind(t); ok {
		iv := constant.ToInt(v.Value)
		b, _ := new(big.Int).SetString(iv.ExactString(), 10)
		if ii.bv {
			return c.Int2BV(c.BigC(b))
		}
		return c.BigC(b)
	}
	switch {
	case isBoolT(t):
		return c.BoolC(constant.BoolVal(v.Value))
	case isString(t):
		return c.StrC(constant.StringVal(v.Value))
	case isFloat(t):
		if t.Underlying().(*types.Basic).Kind() == types.Float32 {
			return c.App("f32:"+v.Value.ExactString(), ex.sortOf(t))
		}
		f, _ := constant.Float64Val(constant.ToFloat(v.Value))
		return c.FPC(f)
	}
	if isIface(t) {
		return ex.zero(t)
	}
	return c.App("const:"+v.String(), ex.sortOf(t))
}

func (ex *Exec) set(st *State, v ssa.Value, t *Term) {
	st.top().env[v] = t
}

func (ex *Exec) nilCheck(st *State, a *Term, what string) {
	c := ex.c
	a = ex.norm(st, a)
	if a.Op == "cast" {
		a = a.Args[0]
	}
	ex.oblige(st, c.Not(c.Eq(a, c.IntC(0))), "nil", "nil pointer dereference ("+what+")")
}

// step executes one instruction. nil: continue with the same state; otherwise the successor states.
func (ex *Exec) step(st *State) []*State {
	st.steps++
	if st.steps > 400000 {
		panic(unsupported("path too long"))
	}
	f := st.top()
	ins := f.block.Instrs[f.ip]
	c := ex.c
	V := func(v ssa.Value) *Term { return ex.val(st, v) }
	switch x := ins.(type) {
	case *ssa.Alloc:
		ex.set(st, x, ex.alloc(st))
	case *ssa.Phi:
		// done at the jump
	case *ssa.DebugRef:
	case *ssa.BinOp:
		ex.set(st, x, ex.binop(st, x.Op, V(x.X), V(x.Y), x.X.Type(), x.Y.Type(), x.Type()))
	case *ssa.UnOp:
		return ex.unop(st, x)
	case *ssa.ChangeType:
		v := V(x.X)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if qt, ok2 := x.Type().Underlying().(*types.Pointer); ok2 && ex.tkey(pt.Elem()) != ex.tkey(qt.Elem()) {
				v = ex.castAddr(pt.Elem(), v)
			}
		}
		ex.set(st, x, ex.retag(v, x.X.Type(), x.Type()))
	case *ssa.ChangeInterface:
		ex.set(st, x, V(x.X))
	case *ssa.Convert:
		ex.set(st, x, ex.convert(st, V(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		panic(unsupported("multiconvert"))
	case *ssa.MakeInterface:
		ex.set(st, x, ex.mkIface(V(x.X), x.X.Type()))
	case *ssa.TypeAssert:
		return ex.typeAssert(st, x)
	case *ssa.Extract:
		ex.set(st, x, c.Sel(V(x.Tuple), x.Index))
	case *ssa.Field:
		ex.set(st, x, c.Sel(V(x.X), x.Field))
	case *ssa.FieldAddr:
		b := V(x.X)
		S := x.X.Type().Underlying().(*types.Pointer).Elem()
		ex.nilCheck(st, b, ".")
		ex.set(st, x, ex.fldIte(st, S, x.Field, b))
	case *ssa.Index:
		v, i := V(x.X), ex.toInt(V(x.Index), x.Index.Type())
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			ex.oblige(st, c.And(c.Le(c.IntC(0), i), c.Lt(i, c.IntC(u.Len()))), "bounds", "array index out of range")
			ex.set(st, x, ex.subGet(v, acc{field: -1, idx: i}))
		default:
			ex.oblige(st, c.And(c.Le(c.IntC(0), i), c.Lt(i, c.StrLen(v))), "bounds", "string index out of range")
			ex.set(st, x, c.StrAt(v, i))
		}
	case *ssa.IndexAddr:
		b, i := V(x.X), ex.toInt(V(x.Index), x.Index.Type())
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			b = ex.norm(st, b)
			ex.oblige(st, c.And(c.Le(c.IntC(0), i), c.Lt(i, c.Sel(b, 2))), "bounds", "slice index out of range")
			ex.set(st, x, ex.elemIte(st, u.Elem(), c.Sel(b, 0), c.Add(c.Sel(b, 1), i)))
		case *types.Pointer:
			at := u.Elem()
			arr := at.Underlying().(*types.Array)
			ex.nilCheck(st, b, "[]")
			ex.oblige(st, c.And(c.Le(c.IntC(0), i), c.Lt(i, c.IntC(arr.Len()))), "bounds", "array index out of range")
			b = ex.norm(st, b)
			if isAddr(b) {
				ex.set(st, x, ex.idxAddr(at, b, i))
			} else {
				ex.set(st, x, ex.elemIte(st, arr.Elem(), b, i))
			}
		}
	case *ssa.Slice:
		return ex.sliceOp(st, x)
	case *ssa.Store:
		a := V(x.Addr)
		T := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		ex.nilCheck(st, a, "store")
		ex.sharedPlain(st, a, T)
		ex.store(st, a, T, V(x.Val))
	case *ssa.MapUpdate:
		m := V(x.Map)
		ex.oblige(st, c.Not(c.Eq(m, c.IntC(0))), "nilmap", "assignment to entry in nil map")
		ex.mapSet(st, x.Map.Type(), m, V(x.Key), V(x.Value))
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			v, i := V(x.X), ex.toInt(V(x.Index), x.Index.Type())
			ex.oblige(st, c.And(c.Le(c.IntC(0), i), c.Lt(i, c.StrLen(v))), "bounds", "string index out of range")
			ex.set(st, x, c.StrAt(v, i))
			break
		}
		v, ok := ex.mapGet(st, x.X.Type(), V(x.X), V(x.Index))
		if x.CommaOk {
			ex.set(st, x, c.Mk(ex.sortOf(x.Type()), v, ok))
		} else {
			ex.set(st, x, v)
		}
	case *ssa.MakeMap:
		ex.set(st, x, ex.alloc(st))
	case *ssa.MakeChan:
		ch := ex.alloc(st)
		ex.chans[ch.ID] = true
		ex.chanSet(st, ch, false, 0)
		ex.set(st, x, ch)
	case *ssa.MakeSlice:
		n, cp := ex.toInt(V(x.Len), x.Len.Type()), ex.toInt(V(x.Cap), x.Cap.Type())
		ex.oblige(st, c.And(c.Le(c.IntC(0), n), c.Le(n, cp)), "bounds", "makeslice: len out of range")
		ex.set(st, x, ex.mkSlice(ex.alloc(st), c.IntC(0), n, cp))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, V(b))
		}
		ex.closures = append(ex.closures, closure{x.Fn.(*ssa.Function), bs})
		ex.set(st, x, c.IntC(int64(len(ex.closures))))
	case *ssa.Range:
		ex.set(st, x, ex.mkIter(st, V(x.X), x.X.Type()))
	case *ssa.Next:
		return ex.next(st, x)
	case *ssa.Jump:
		return ex.jump(st, f.block.Succs[0])
	case *ssa.If:
		return ex.branch(st, V(x.Cond), func(s *State, b bool) []*State {
			ff := s.top()
			if b {
				return ex.jump(s, ff.block.Succs[0])
			}
			return ex.jump(s, ff.block.Succs[1])
		})
	case *ssa.Return:
		var rs []*Term
		for _, r := range x.Results {
			rs = append(rs, V(r))
		}
		ex.ret(st, rs)
		return nil
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			return ex.invokeDeferred(st, d, func(s *State, _ []*Term) { // re-executes RunDefers
				f := s.top()
				f.defers = f.defers[:n-1]
			})
		}
	case *ssa.Defer:
		f.defers = append(f.defers, ex.mkDeferred(st, &x.Call))
	case *ssa.Go:
		d := ex.mkDeferred(st, &x.Call)
		if ex.inPar(st) {
			ex.addThread(st, func(s *State) []*State { return ex.invokeDeferred(s, d, func(*State, []*Term) {}) }, true)
			break
		}
		st.spawned = append(st.spawned, d)
	case *ssa.Panic:
		ex.oblige(st, c.False, "panic", "panic reachable")
		st.dead = true
		return nil
	case *ssa.Send:
		if ch := ex.norm(st, V(x.Chan)); ex.chanKnown(ch) {
			if r := ex.yield(st, ch.ID, true); r != nil {
				return r
			}
			cl, n := ex.chanGet(st, ch)
			ex.oblige(st, c.BoolC(!cl), "panic", "send on closed channel")
			ex.releaseVC(st, fmt.Sprintf("c%d", ch.ID))
			ex.chanSet(st, ch, cl, n+1)
		}
	case *ssa.Select:
		return ex.selectOp(st, x)
	case *ssa.Call:
		return ex.call(st, x, &x.Call)
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
	if st.dead {
		return nil
	}
	st.top().ip++
	return nil
}

func (ex *Exec) fldIte(st *State, S types.Type, i int, b *Term) *Term {
	b = ex.norm(st, b)
	if b.Op == "ite" {
		return ex.c.Ite(b.Args[0], ex.fldIte(st, S, i, b.Args[1]), ex.fldIte(st, S, i, b.Args[2]))
	}
	return ex.fld(S, i, b)
}
func (ex *Exec) elemIte(st *State, T types.Type, arr, i *Term) *Term {
	arr = ex.norm(st, arr)
	if arr.Op == "ite" {
		return ex.c.Ite(arr.Args[0], ex.elemIte(st, T, arr.Args[1], i), ex.elemIte(st, T, arr.Args[2], i))
	}
	return ex.elemAddr(T, arr, i)
}

func (ex *Exec) branch(st *State, cond *Term, k func(*State, bool) []*State) []*State {
	cond = ex.normB(st, cond)
	if cond == ex.c.True {
		return k(st, true)
	}
	if cond == ex.c.False {
		return k(st, false)
	}
	ft := ex.feasible(st, cond)
	ff := ex.feasible(st, ex.c.Not(cond))
	if ft && !ff {
		ex.assume(st, cond)
		return k(st, true)
	}
	if ff && !ft {
		ex.assume(st, ex.c.Not(cond))
		return k(st, false)
	}
	if !ft && !ff {
		st.dead = true
		return []*State{}
	}
	if forkProf != nil {
		p, _ := ex.curPos(st)
		forkProf[p]++
	}
	s2 := st.clone()
	ex.assume(st, cond)
	ex.assume(s2, ex.c.Not(cond))
	var out []*State
	if !st.dead {
		if r := k(st, true); r == nil {
			out = append(out, st)
		} else {
			out = append(out, r...)
		}
	}
	if !s2.dead {
		if r := k(s2, false); r == nil {
			out = append(out, s2)
		} else {
			out = append(out, r...)
		}
	}
	if out == nil {
		out = []*State{}
	}
	return out
}

// fork re-executes the current instruction under both outcomes of cond.
func (ex *Exec) fork(st *State, cond *Term) []*State {
	return ex.branch(st, cond, func(s *State, _ bool) []*State { return []*State{s} })
}

func (ex *Exec) ret(st *State, rs []*Term) {
	f := st.frames[len(st.frames)-1]
	st.frames = st.frames[:len(st.frames)-1]
	if f.cont != nil {
		f.cont(st, rs)
		return
	}
	if len(st.frames) == 0 {
		return
	}
	g := st.top()
	if f.call != nil {
		g.env[f.call] = ex.pack(f.call.Type(), rs)
	}
	g.ip++
}

func (ex *Exec) pack(t types.Type, rs []*Term) *Term {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return ex.c.True
		}
		return ex.c.Mk(ex.sortOf(t), rs...)
	}
	if len(rs) == 0 {
		return ex.c.True
	}
	return rs[0]
}

// jump moves to a block, evaluating its phis, and handles loops.
func (ex *Exec) jump(st *State, to *ssa.BasicBlock) []*State {
	f := st.top()
	from := f.block
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	type pv struct {
		p *ssa.Phi
		t *Term
	}
	var ps []pv
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, pv{p, ex.norm(st, ex.val(st, p.Edges[idx]))})
	}
	for _, p := range ps {
		f.env[p.p] = p.t
	}
	f.prev = from
	f.block = to
	f.ip = 0
	f.backIn = false
	li := ex.E.loopInfo(f.fn)
	if l := li.byHeader[to]; l != nil {
		f.backIn = l.body[from]
		return ex.enterLoop(st, l, f.backIn)
	}
	return []*State{st}
}

func (ex *Exec) push(st *State, fn *ssa.Function, args, binds []*Term, call ssa.Value, cont func(*State, []*Term)) {
	if len(st.frames) > 60 {
		panic(unsupported("call depth (recursion?) at " + fn.String()))
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	env := make(map[ssa.Value]*Term, 16)
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	ex.funcs[fn.String()]++
	st.frames = append(st.frames, &Frame{fn: fn, env: env, block: fn.Blocks[0], binds: binds, call: call, cont: cont, iters: map[*ssa.BasicBlock]int{}})
	if li := ex.E.loopInfo(fn); li.byHeader[fn.Blocks[0]] != nil {
		// entry block is a loop header (for {} as first statement): handled at the first jump back
	}
}

// evalBool evaluates a closure returning bool (a specification) in the state without effects.
func (ex *Exec) evalBool(st *State, fnID *Term, args []*Term) *Term {
	c := ex.c
	s := st.clone()
	s.quiet++
	base := len(s.frames)
	npc := len(s.pc)
	var res []*Term
	cl := ex.closures[fnID.I.Int64()-1]
	saved := ex.noteWrite
	ex.noteWrite = nil
	defer func() { ex.noteWrite = saved }()
	ex.push(s, cl.fn, args, cl.binds, nil, func(s *State, rs []*Term) {
		s.tracked = append(s.tracked[:len(s.tracked):len(s.tracked)], rs[0])
	})
	ends := ex.run([]*State{s}, func(s *State) bool { return len(s.frames) <= base })
	for _, e := range ends {
		if e.dead {
			continue
		}
		r := e.tracked[len(e.tracked)-1]
		res = append(res, c.And(append(append([]*Term{}, e.pc[npc:]...), r)...))
	}
	return c.Or(res...)
}

var forkProf map[string]int

func init() {
	if os.Getenv("VF_FORKS") != "" {
		forkProf = map[string]int{}
	}
}
