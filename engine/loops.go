package main

// Loops: unrolled while their exit conditions are decided, otherwise cut at the header with
// an abstraction that is checked to be inductive on every run.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopT struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}
type loopInfoT struct {
	byHeader map[*ssa.BasicBlock]*loopT
}

func (E *Engine) loopInfo(fn *ssa.Function) *loopInfoT {
	if v, ok := E.loopCache.Load(fn); ok {
		return v.(*loopInfoT)
	}
	li := &loopInfoT{byHeader: map[*ssa.BasicBlock]*loopT{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := li.byHeader[h]
			if l == nil {
				l = &loopT{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				li.byHeader[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	E.loopCache.Store(fn, li)
	return li
}

func (ex *Exec) enterLoop(st *State, l *loopT, back bool) []*State {
	f := st.top()
	H := l.header
	if f.iters[H] == -1 && back {
		return []*State{st}
	}
	if !back {
		f.iters[H] = 0
	} else {
		f.iters[H]++
	}
	if f.iters[H] <= ex.unroll {
		conds, ok := ex.peekExit(st, l)
		if ok {
			dec := true
			for _, cd := range conds {
				if !cd.IsLit() || cd != conds[0] && !hasNext(l) {
					dec = false
				}
			}
			if dec {
				return []*State{st}
			}
		}
	}
	if st.unrollMax > 0 {
		if f.iters[H] < st.unrollMax {
			return []*State{st}
		}
		if !ex.feasible(st, ex.c.True) {
			st.dead = true
			return []*State{}
		}
		if f.iters[H] == st.unrollMax {
			return []*State{st} // the exit test of the last permitted iteration
		}
	}
	return ex.cutLoop(st, l)
}

func hasNext(l *loopT) bool {
	for _, in := range l.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// peekExit runs ahead to the first exit test of the loop; returns the conditions met.
func (ex *Exec) peekExit(st *State, l *loopT) (conds []*Term, ok bool) {
	s := st.clone()
	d := len(s.frames)
	s.top().iters[l.header] = -1
	ex.discovery++
	saved := ex.noteWrite
	ex.noteWrite = nil
	savedPaths, savedAssumed := ex.paths, ex.assumed
	ex.assumed = map[string]bool{}
	defer func() {
		ex.discovery--
		ex.noteWrite = saved
		ex.paths = savedPaths
		ex.assumed = savedAssumed
	}()
	n := 0
	first := true
	atExit := func(s *State) bool {
		if len(s.frames) != d {
			return len(s.frames) < d
		}
		f := s.frames[d-1]
		if !l.body[f.block] {
			return true
		}
		if f.block == l.header && f.backIn && f.ip == 0 && !first {
			return true
		}
		first = false
		n++
		if n > 20000 {
			panic(unsupported("loop lookahead too long"))
		}
		if br, ok := f.block.Instrs[f.ip].(*ssa.If); ok {
			_ = br
			return !l.body[f.block.Succs[0]] || !l.body[f.block.Succs[1]]
		}
		return false
	}
	for _, e := range ex.run([]*State{s}, atExit) {
		if len(e.frames) != d {
			continue
		}
		f := e.frames[d-1]
		if !l.body[f.block] {
			continue
		}
		if f.ip < len(f.block.Instrs) {
			if br, ok := f.block.Instrs[f.ip].(*ssa.If); ok {
				conds = append(conds, ex.normB(e, ex.val(e, br.Cond)))
			}
		}
	}
	return conds, true
}

// ---- cut
const (
	mConst = iota
	mLin
	mRef
	mHavoc
)

type compMode struct {
	mode int
	step *Term
}

type modCell struct {
	key string
	idx []*Term
	t   types.Type
}

type modSet struct {
	cells  map[string]modCell // fully invariant index
	rows   map[string]modCell // first index invariant
	region map[string]modCell
	whole  map[string]modCell
	iters  map[int]bool
}

func newModSet() *modSet {
	return &modSet{map[string]modCell{}, map[string]modCell{}, map[string]modCell{}, map[string]modCell{}, map[int]bool{}}
}
func (m *modSet) size() int {
	return len(m.cells) + len(m.rows)*1000 + len(m.region)*1000 + len(m.whole)*1000000 + len(m.iters)
}

type cand struct {
	name string
	eval func(s *State, k *Term) *Term
}

func (ex *Exec) hasNew(t *Term, start int, memo map[int]bool) bool {
	if t.Op == "var" {
		return t.ID >= start
	}
	if t.ID < start || len(t.Args) == 0 {
		return false
	}
	if v, ok := memo[t.ID]; ok {
		return v
	}
	r := false
	for _, a := range t.Args {
		if ex.hasNew(a, start, memo) {
			r = true
			break
		}
	}
	memo[t.ID] = r
	return r
}

type cutter struct {
	ex      *Exec
	st      *State
	l       *loopT
	d       int
	phis    []*ssa.Phi
	init    map[*ssa.Phi]*Term
	modes   map[string]*compMode
	mods    *modSet
	startID int
	markPre *Term
	cands   []cand
	k       *Term
	dbg     bool
	debugNm string
}

// comps flattens a value into its leaf components.
func (ex *Exec) comps(v *Term) []*Term {
	if v.Sort.Kind == STup {
		var out []*Term
		for i := range v.Sort.Elems {
			out = append(out, ex.comps(ex.c.Sel(v, i))...)
		}
		return out
	}
	return []*Term{v}
}
func (ex *Exec) uncomps(s *Sort, cs []*Term) (*Term, []*Term) {
	if s.Kind == STup {
		as := make([]*Term, len(s.Elems))
		for i, e := range s.Elems {
			as[i], cs = ex.uncomps(e, cs)
		}
		return ex.c.Mk(s, as...), cs
	}
	return cs[0], cs[1:]
}

// refComps says which leaf components of a type are references.
func (ex *Exec) refComps(T types.Type) []bool {
	if T == nil {
		return nil
	}
	if isIface(T) {
		return []bool{false, true}
	}
	switch u := T.Underlying().(type) {
	case *types.Slice:
		return []bool{true, false, false, false}
	case *types.Struct:
		var o []bool
		for i := 0; i < u.NumFields(); i++ {
			o = append(o, ex.refComps(u.Field(i).Type())...)
		}
		return o
	case *types.Array:
		if u.Len() <= maxArr {
			var o []bool
			for i := int64(0); i < u.Len(); i++ {
				o = append(o, ex.refComps(u.Elem())...)
			}
			return o
		}
	}
	return []bool{pointerLike(T)}
}

func (ex *Exec) cutLoop(st *State, l *loopT) []*State {
	c := ex.c
	if ex.inPar(st) {
		panic(unsupported("loop of unknown length in a thread at " + st.top().fn.String()))
	}
	f := st.top()
	cu := &cutter{ex: ex, st: st, l: l, d: len(st.frames), init: map[*ssa.Phi]*Term{}, modes: map[string]*compMode{}, mods: newModSet(),
		startID: c.nextID, markPre: st.mark, dbg: os.Getenv("VF_LOOP") != ""}
	pos := ""
	for _, ins := range l.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			cu.phis = append(cu.phis, p)
			cu.init[p] = ex.norm(st, f.env[p])
		}
		if pos == "" && ins.Pos().IsValid() {
			pos = ex.pos(ins.Pos())
		}
	}
	cu.debugNm = f.fn.Name() + "@" + pos
	cu.k = c.Fresh("k", c.Int)
	cu.k.nonneg = true
	cu.k.Facts = append(cu.k.Facts, c.mk("<=", c.Bool, "", 0, c.IntC(0), cu.k))
	cu.candidates()
	// entry
	var keep []cand
	for _, cd := range cu.cands {
		t := cd.eval(st.clone(), c.IntC(0))
		if t != nil && ex.valid(st, t) {
			keep = append(keep, cd)
		} else if cu.dbg {
			fmt.Fprintf(os.Stderr, "loop %s: candidate %s fails at entry: %v\n", cu.debugNm, cd.name, t)
		}
	}
	cu.cands = keep
	outer := ex.noteWrite
	for round := 0; ; round++ {
		if round > 40 {
			panic(unsupported("loop abstraction did not stabilise at " + cu.debugNm))
		}
		if cu.round(outer) {
			break
		}
	}
	// final exploration with obligations
	ex.noteWrite = func(s *State, key string, idx []*Term, t types.Type) {
		if outer != nil {
			outer(s, key, idx, t)
		}
	}
	head := cu.head()
	if ex.discovery == 0 {
		var cn []string
		for _, x := range cu.cands {
			cn = append(cn, x.name)
		}
		ex.loops[cu.debugNm] = strings.Join(cn, "; ")
	}
	if cu.dbg {
		fmt.Fprintf(os.Stderr, "loop %s stable; cands=%v modes=%v mods=%v\n", cu.debugNm, ex.loops[cu.debugNm], cu.modeStr(), cu.mods)
	}
	ends := cu.explore(head)
	ex.noteWrite = outer
	var exits []*State
	for _, e := range ends {
		if e.dead {
			continue
		}
		if cu.isBack(e) {
			if ex.discovery == 0 {
				ex.oblige(e, c.BoolC(sameLocks(e.locks, st.locks)), "locks", "lock set changes across a loop iteration")
			}
			continue
		}
		if len(e.frames) == cu.d {
			e.top().iters[l.header] = 0
		}
		exits = append(exits, e)
	}
	if exits == nil {
		exits = []*State{}
	}
	return exits
}

func (cu *cutter) modeStr() string {
	var ss []string
	for k, m := range cu.modes {
		ss = append(ss, fmt.Sprintf("%s=%d", k, m.mode))
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

func sameLocks(a, b []lockSt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].addr != b[i].addr || a[i].mode != b[i].mode {
			return false
		}
	}
	return true
}

func (cu *cutter) isBack(s *State) bool {
	if len(s.frames) != cu.d {
		return false
	}
	f := s.frames[cu.d-1]
	return f.block == cu.l.header && f.backIn && f.ip == 0
}

func (cu *cutter) explore(head *State) []*State {
	started := false
	return cu.ex.run([]*State{head}, func(s *State) bool {
		if !started {
			started = true
			return false
		}
		if len(s.frames) < cu.d {
			return true
		}
		if len(s.frames) > cu.d {
			return false
		}
		return cu.isBack(s) || !cu.l.body[s.frames[cu.d-1].block]
	})
}

// absValue builds the abstract value of a component list according to the modes.
func (cu *cutter) absValue(name string, init *Term, T types.Type, s *State) *Term {
	ex, c := cu.ex, cu.ex.c
	cs := ex.comps(init)
	out := make([]*Term, len(cs))
	allHavoc, anyHavoc := true, false
	for i := range cs {
		m := cu.mode(name, i)
		if m.mode != mHavoc {
			allHavoc = false
		} else {
			anyHavoc = true
		}
	}
	if allHavoc && len(cs) > 0 && T != nil {
		v := c.Fresh("l_"+name, init.Sort)
		return ex.typed(v, T, s.mark)
	}
	refs := ex.refComps(T)
	for i, x := range cs {
		m := cu.mode(name, i)
		switch m.mode {
		case mConst:
			out[i] = x
		case mLin:
			if x.Sort == c.BV {
				out[i] = c.BVOp("bvadd", x, c.BVOp("bvmul", m.step, c.Int2BV(cu.k)))
			} else {
				out[i] = c.Add(x, c.Mul(m.step, cu.k))
			}
		case mRef:
			b := c.Fresh("isinit", c.Bool)
			q := c.Fresh("newobj", c.Int)
			q.nonneg = true
			q.Facts = append(q.Facts, c.mk("<=", c.Bool, "", 0, c.IntC(0), q))
			n := c.Sub(c.Sub(cu.markPre, c.IntC(1)), q)
			ex.assume(s, c.Implies(c.Not(b), c.Le(s.mark, n)))
			out[i] = c.Ite(b, x, n)
		default:
			out[i] = c.Fresh("l_"+name, x.Sort)
			if i < len(refs) && refs[i] && x.Sort == c.Int {
				ex.assume(s, c.Le(s.mark, out[i]))
			}
		}
	}
	v, _ := ex.uncomps(init.Sort, out)
	if T != nil && anyHavoc {
		ex.assumeTypeFacts(s, v, T)
	}
	return v
}

// assumeTypeFacts states the well-formedness that every Go value of the type has.
func (ex *Exec) assumeTypeFacts(s *State, v *Term, T types.Type) {
	c := ex.c
	if ii, ok := intKind(T); ok {
		if !ii.bv {
			lo, hi := c.IntC(0), c.BigC(pow2(ii.bits))
			if ii.signed {
				hi = c.BigC(pow2(ii.bits - 1))
				lo = c.Sub(c.IntC(0), hi)
			}
			ex.assume(s, c.And(c.Le(lo, v), c.Lt(v, hi)))
		}
		return
	}
	switch u := T.Underlying().(type) {
	case *types.Slice:
		arr, off, ln, cp := c.Sel(v, 0), c.Sel(v, 1), c.Sel(v, 2), c.Sel(v, 3)
		z := c.IntC(0)
		ex.assume(s, c.And(c.Le(z, off), c.Le(z, ln), c.Le(ln, cp), c.Lt(cp, c.BigC(pow2(40))), c.Lt(off, c.BigC(pow2(40))), c.Implies(c.Eq(arr, z), c.Eq(cp, z))))
		for _, x := range []*Term{off, ln, cp} {
			if x.Op == "var" {
				x.nonneg = true
			}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ex.assumeTypeFacts(s, c.Sel(v, i), u.Field(i).Type())
		}
	}
}

func (cu *cutter) mode(name string, i int) *compMode {
	k := fmt.Sprintf("%s/%d", name, i)
	m := cu.modes[k]
	if m == nil {
		m = &compMode{}
		cu.modes[k] = m
	}
	return m
}

func cellKey(m modCell) string {
	s := m.key
	for _, i := range m.idx {
		if i == nil {
			s += "|*"
		} else {
			s += fmt.Sprintf("|%d", i.ID)
		}
	}
	return s
}

// head builds the abstract state at the loop header.
func (cu *cutter) head() *State {
	ex, c := cu.ex, cu.ex.c
	s := cu.st.clone()
	f := s.top()
	f.iters[cu.l.header] = -1
	f.backIn = false
	if ex.normB(s, c.Le(c.IntC(0), cu.k)) != c.True {
		ex.assume(s, c.Le(c.IntC(0), cu.k))
	}
	p := c.Fresh("alloced", c.Int)
	p.nonneg = true
	p.Facts = append(p.Facts, c.mk("<=", c.Bool, "", 0, c.IntC(0), p))
	s.mark = c.Sub(cu.markPre, p)
	for _, ph := range cu.phis {
		f.env[ph] = cu.absValue("phi:"+ph.Name(), cu.init[ph], ph.Type(), s)
	}
	// memory
	var keys []string
	for k := range cu.mods.whole {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s.mem[k] = cu.freshRoot(k, cu.mods.whole[k], s.mark, s.mark)
	}
	keys = nil
	for k := range cu.mods.region {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if _, w := cu.mods.whole[k]; w {
			continue
		}
		old := cu.memAt(s, cu.mods.region[k])
		nw := cu.freshRoot(k, cu.mods.region[k], s.mark, s.mark)
		s.mem[k] = c.mk("region", old.Sort, "", 0, old, nw, cu.markPre)
	}
	keys = nil
	for k := range cu.mods.rows {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r := cu.mods.rows[k]
		if _, w := cu.mods.whole[r.key]; w {
			continue
		}
		m := cu.memAt(s, r)
		row := c.Fresh("row_"+r.key, m.Sort.V)
		if _, ok := ex.mapKeyInfo[r.key]; ok {
			mi := ex.mapKeyInfo[r.key]
			if mi.what == "val" {
				ex.roots[row.ID] = rootInfo{mi.mk.v, 1, s.mark}
			}
		} else {
			ex.roots[row.ID] = rootInfo{r.t, 1, s.mark}
		}
		s.mem[r.key] = c.Store(m, r.idx[0], row)
	}
	keys = nil
	for k := range cu.mods.cells {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r := cu.mods.cells[k]
		if _, w := cu.mods.whole[r.key]; w {
			continue
		}
		if len(r.idx) == 2 {
			if _, w := cu.mods.rows[cellKey(modCell{key: r.key, idx: []*Term{r.idx[0], nil}})]; w {
				continue
			}
		}
		init := cu.cellVal(cu.st, r)
		nv := cu.absValue("cell:"+k, init, cu.cellType(r), s)
		if nv != init {
			cu.cellSet(s, r, nv)
		}
	}
	for id := range cu.mods.iters {
		it := *s.iters[id]
		it.visited = c.Fresh("visited", it.visited.Sort)
		s.iters[id] = &it
	}
	for _, cd := range cu.cands {
		if t := cd.eval(s, cu.k); t != nil {
			ex.assume(s, t)
		}
	}
	return s
}

func (cu *cutter) cellType(r modCell) types.Type {
	if r.t != nil {
		return r.t
	}
	if mi, ok := cu.ex.mapKeyInfo[r.key]; ok {
		switch mi.what {
		case "val":
			return mi.mk.v
		case "len":
			return types.Typ[types.Uint32]
		default:
			return types.Typ[types.Bool]
		}
	}
	return nil
}

func (cu *cutter) memAt(s *State, r modCell) *Term {
	if m, ok := s.mem[r.key]; ok {
		return m
	}
	if mi, ok := cu.ex.mapKeyInfo[r.key]; ok {
		return cu.ex.mapMem(s, mi.mk, mi.what)
	}
	return cu.ex.memGet(s, r.key, r.t, len(r.idx))
}

func (cu *cutter) cellVal(s *State, r modCell) *Term {
	v := cu.memAt(s, r)
	for _, i := range r.idx {
		v = cu.ex.c.Select(v, i)
	}
	return cu.ex.norm(s, v)
}
func (cu *cutter) cellSet(s *State, r modCell, v *Term) {
	c := cu.ex.c
	m := cu.memAt(s, r)
	switch len(r.idx) {
	case 0:
		s.mem[r.key] = v
	case 1:
		s.mem[r.key] = c.Store(m, r.idx[0], v)
	case 2:
		s.mem[r.key] = c.Store(m, r.idx[0], c.Store(c.Select(m, r.idx[0]), r.idx[1], v))
	}
}

func (cu *cutter) freshRoot(key string, r modCell, mark, lo *Term) *Term {
	ex := cu.ex
	ex.c.fresh++
	nm := fmt.Sprintf("h:%s!%d", key, ex.c.fresh)
	if mi, ok := ex.mapKeyInfo[key]; ok {
		return ex.mapRoot(mi.mk, mi.what, nm, mark, lo)
	}
	return ex.newRoot(nm, r.t, len(r.idx), mark, lo)
}

// round explores once; true when nothing changed.
func (cu *cutter) round(outer func(*State, string, []*Term, types.Type)) bool {
	ex, c := cu.ex, cu.ex.c
	before := cu.mods.size()
	memo := map[int]bool{}
	var note func(s *State, key string, idx []*Term, t types.Type, guard *Term)
	note = func(s *State, key string, idx []*Term, t types.Type, guard *Term) {
		if strings.HasPrefix(key, "iter:") {
			var id int
			fmt.Sscanf(key, "iter:%d", &id)
			if _, ok := cu.st.iters[id]; ok {
				cu.mods.iters[id] = true
			}
			return
		}
		if _, ok := cu.mods.whole[key]; ok {
			return
		}
		mc := modCell{key, idx, t}
		if len(idx) == 0 {
			cu.mods.cells[cellKey(mc)] = mc
			return
		}
		i0 := ex.norm(s, idx[0])
		if i0.Op == "ite" {
			for j, g := range []*Term{c.And(guard, i0.Args[0]), c.And(guard, c.Not(i0.Args[0]))} {
				if !ex.valid(s, c.Not(g)) {
					note(s, key, append([]*Term{i0.Args[1+j]}, idx[1:]...), t, g)
				}
			}
			return
		}
		if i0.Op == "int" && i0.I.Sign() == 0 {
			return // null object
		}
		if !ex.hasNew(i0, cu.startID, memo) {
			if len(idx) == 1 {
				mc.idx = []*Term{i0}
				cu.mods.cells[cellKey(mc)] = mc
				return
			}
			if idx[1] != nil && !ex.hasNew(idx[1], cu.startID, memo) {
				mc.idx = []*Term{i0, idx[1]}
				cu.mods.cells[cellKey(mc)] = mc
				return
			}
			mc.idx = []*Term{i0, nil}
			cu.mods.rows[cellKey(mc)] = mc
			return
		}
		if c.Lt(i0, cu.markPre) == c.True {
			cu.mods.region[key] = mc
			return
		}
		if cu.dbg {
			fmt.Fprintf(os.Stderr, "loop %s: wholesale %s because of index %s\n", cu.debugNm, key, i0)
		}
		cu.mods.whole[key] = mc
	}
	ex.noteWrite = func(s *State, key string, idx []*Term, t types.Type) {
		note(s, key, idx, t, c.True)
	}
	savedPaths, savedAssumed := ex.paths, ex.assumed
	ex.discovery++
	head := cu.head()
	hf := head.frames[cu.d-1]
	hphi := map[*ssa.Phi]*Term{}
	for _, p := range cu.phis {
		hphi[p] = hf.env[p]
	}
	hcell := map[string]*Term{}
	for k, r := range cu.mods.cells {
		hcell[k] = cu.cellVal(head, r)
	}
	ends := cu.explore(head.clone())
	ex.noteWrite = outer
	changed := cu.mods.size() != before
	var backs []*State
	for _, e := range ends {
		if !e.dead && cu.isBack(e) {
			backs = append(backs, e)
		}
	}
	upd := func(name string, init, h, n *Term, T types.Type, e *State) {
		hc, nc := ex.comps(h), ex.comps(ex.norm(e, n))
		refs := ex.refComps(T)
		for i := range nc {
			m := cu.mode(name, i)
			ic := ex.comps(init)[i]
			switch m.mode {
			case mConst:
				if nc[i] == hc[i] {
					continue
				}
				if ic.Sort == c.Int && !(i < len(refs) && refs[i]) {
					d := c.Sub(nc[i], hc[i])
					if d.Op == "int" && d.I.Sign() != 0 {
						m.mode, m.step = mLin, d
						changed = true
						continue
					}
				}
				if ic.Sort == c.BV && nc[i].Op == "bvadd" && (nc[i].Args[0] == hc[i] && nc[i].Args[1].Op == "bv" || nc[i].Args[1] == hc[i] && nc[i].Args[0].Op == "bv") {
					m.mode = mLin
					m.step = nc[i].Args[1]
					if nc[i].Args[1] == hc[i] {
						m.step = nc[i].Args[0]
					}
					changed = true
					continue
				}
				if ex.valid(e, c.Eq(nc[i], hc[i])) {
					continue
				}
				if i < len(refs) && refs[i] && ic.Sort == c.Int && ex.valid(e, c.Or(c.Eq(nc[i], ic), c.Lt(nc[i], cu.markPre))) {
					m.mode = mRef
				} else {
					m.mode = mHavoc
				}
				changed = true
			case mLin:
				var want *Term
				if ic.Sort == c.BV {
					want = c.BVOp("bvadd", hc[i], m.step)
					// the head value is init+step*k; accept the syntactic successor
				} else {
					want = c.Add(hc[i], m.step)
				}
				if nc[i] == want || ex.valid(e, c.Eq(nc[i], want)) {
					continue
				}
				m.mode = mHavoc
				changed = true
			case mRef:
				if nc[i] == hc[i] || ex.valid(e, c.Or(c.Eq(nc[i], ic), c.Lt(nc[i], cu.markPre))) {
					continue
				}
				m.mode = mHavoc
				changed = true
			}
		}
	}
	for _, e := range backs {
		ef := e.frames[cu.d-1]
		for _, p := range cu.phis {
			upd("phi:"+p.Name(), cu.init[p], hphi[p], ef.env[p], p.Type(), e)
		}
		for k, r := range cu.mods.cells {
			if hcell[k] == nil {
				continue
			}
			upd("cell:"+k, cu.cellVal(cu.st, r), hcell[k], cu.cellVal(e, r), cu.cellType(r), e)
		}
		if len(e.spawned) != len(cu.st.spawned) {
			panic(unsupported("goroutines started in a loop at " + cu.debugNm))
		}
	}
	if !changed {
		// candidates
		var keep []cand
		k1 := c.Add(cu.k, c.IntC(1))
		for _, cd := range cu.cands {
			ok := true
			for _, e := range backs {
				t := cd.eval(e, k1)
				if t == nil || !ex.valid(e, t) {
					ok = false
					if cu.dbg {
						fmt.Fprintf(os.Stderr, "loop %s: candidate %s not inductive: %v\n", cu.debugNm, cd.name, t)
						if t != nil {
							for _, p := range e.pc[len(cu.st.pc):] {
								fmt.Fprintf(os.Stderr, "      pc %s\n", p)
							}
						}
					}
					break
				}
			}
			if ok {
				keep = append(keep, cd)
			} else {
				changed = true
			}
		}
		cu.cands = keep
	}
	ex.discovery--
	ex.paths, ex.assumed = savedPaths, savedAssumed
	return !changed
}

// candidates collects invariant candidates: loop bounds and the specification's invariants.
func (cu *cutter) candidates() {
	ex, c := cu.ex, cu.ex.c
	bound := func(s *State, k *Term) (r *Term) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); ok {
					r = nil
					return
				}
				panic(e)
			}
		}()
		conds, _ := ex.peekExit(s, cu.l)
		if len(conds) != 1 {
			return nil
		}
		t := conds[0]
		if t.Op == "<" {
			return c.Le(t.Args[0], t.Args[1])
		}
		if t.Op == "<=" { // exit test of the form !(a<b)
			return c.Le(t.Args[1], t.Args[0])
		}
		if t == c.True {
			return c.True
		}
		if t == c.False { // the bound has been reached exactly, or there is none
			return nil
		}
		return nil
	}
	cu.cands = append(cu.cands, cand{"loop bound", bound})
	for _, p := range cu.phis {
		p := p
		if ii, ok := intKind(p.Type()); ok && !ii.bv {
			init := cu.init[p]
			cu.cands = append(cu.cands, cand{p.Comment + " at least its initial value", func(s *State, k *Term) *Term {
				return c.Le(init, s.frames[cu.d-1].env[p])
			}})
		}
	}
	for n, iv := range cu.st.invs {
		fn := iv.fn
		if fn.Op != "int" || fn.I.Sign() == 0 {
			continue
		}
		cl := ex.closures[fn.I.Int64()-1]
		params := cl.fn.Params
		// parameters are matched with loop variables and local cells by type, the first int is the iteration count
		var vars []ssa.Value
		for _, p := range cu.phis {
			vars = append(vars, p)
		}
		fr := cu.st.frames[cu.d-1]
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && fr.env[al] != nil {
					vars = append(vars, al)
				}
			}
		}
		typeOf := func(v ssa.Value) types.Type {
			if al, ok := v.(*ssa.Alloc); ok {
				return ptrElem(al.Type())
			}
			return v.Type()
		}
		// values computed before the loop, where no variable has their type
		nvars := len(vars)
		for _, b := range fr.fn.Blocks {
			if cu.l.body[b] || !b.Dominates(cu.l.header) {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if _, al := in.(*ssa.Alloc); !ok || al || fr.env[v] == nil {
					continue
				}
				if _, ok := v.Type().Underlying().(*types.Basic); ok {
					continue
				}
				dup := false
				for _, x := range vars[:nvars] {
					dup = dup || types.Identical(typeOf(x), v.Type())
				}
				if !dup {
					vars = append(vars, v)
				}
			}
		}
		var rec func(i int, acc []ssa.Value)
		count := 0
		rec = func(i int, acc []ssa.Value) {
			if count > 12 {
				return
			}
			if i == len(params) {
				count++
				sel := append([]ssa.Value{}, acc...)
				cu.cands = append(cu.cands, cand{fmt.Sprintf("LoopInv %d %s", n, phiNames(sel)), func(s *State, k *Term) (r *Term) {
					defer func() {
						if e := recover(); e != nil {
							if u, ok := e.(unsupported); ok {
								if cu.dbg {
									fmt.Fprintln(os.Stderr, "  candidate unsupported:", u)
								}
								r = nil
								return
							}
							panic(e)
						}
					}()
					args := []*Term{}
					for _, p := range sel {
						if p == nil {
							args = append(args, k)
						} else if al, ok := p.(*ssa.Alloc); ok {
							s2 := s.clone()
							s2.quiet++
							args = append(args, ex.load(s2, s.frames[cu.d-1].env[al], ptrElem(al.Type())))
						} else {
							args = append(args, s.frames[cu.d-1].env[p])
						}
					}
					return ex.evalBool(s, fn, args)
				}})
				return
			}
			if i == 0 && len(params) > 0 && types.Identical(params[0].Type(), types.Typ[types.Int]) {
				rec(1, append(acc, nil))
				return
			}
			for _, p := range vars {
				dup := false
				for _, q := range acc {
					if q == p {
						dup = true
					}
				}
				if !dup && types.Identical(typeOf(p), params[i].Type()) {
					rec(i+1, append(acc, p))
				}
			}
		}
		rec(0, nil)
	}
}

func phiNames(ps []ssa.Value) string {
	var s []string
	for _, p := range ps {
		switch p := p.(type) {
		case nil:
			s = append(s, "#")
		case *ssa.Phi:
			s = append(s, p.Comment)
		case *ssa.Alloc:
			s = append(s, p.Comment)
		default:
			s = append(s, p.Name())
		}
	}
	return strings.Join(s, ",")
}
