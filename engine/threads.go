package main

// Threads: vf.Par runs functions as concurrent threads of one state. A thread may be switched
// before each atomic operation, lock acquisition, once, channel operation and vf.Yield; the number
// of preemptions is bounded by the harness, blocking switches are free. Accesses to memory that are
// not ordered by locks, atomics or channels are reported as data races (vector clocks).

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type waitCond struct {
	kind string // lock, rlock, wg, join, chan, gosched
	addr *Term
	key  string
	idx  []*Term
	chs  []*Term
}

type thread struct {
	frames []*Frame
	locks  []lockSt
	vc     []int
	done   bool
	daemon bool
	wait   *waitCond
	atY    bool
	mark   *Term
}

type access struct {
	key   string
	idx   []*Term
	g     *Term
	th    int
	clk   int
	write bool
	atom  bool
	pos   string
	fn    string
	next  *access
}

type parSt struct {
	threads []thread
	cur     int
	left    int
	skip    bool
	vcs     map[string][]int
	acc     map[string]*access
	races   bool
	mark    *Term
	touch   map[int]touchT // synchronisation objects used by the threads on this path
}

type touchT struct{ r, w uint32 }

func (p *parSt) clone() *parSt {
	if p == nil {
		return nil
	}
	n := *p
	n.threads = append([]thread(nil), p.threads...)
	for i := range n.threads {
		for _, f := range n.threads[i].frames {
			f.shared = true
		}
		n.threads[i].frames = append([]*Frame(nil), n.threads[i].frames...)
		n.threads[i].locks = append([]lockSt(nil), n.threads[i].locks...)
	}
	n.vcs = make(map[string][]int, len(p.vcs))
	for k, v := range p.vcs {
		n.vcs[k] = v
	}
	n.touch = make(map[int]touchT, len(p.touch))
	for k, v := range p.touch {
		n.touch[k] = v
	}
	n.acc = make(map[string]*access, len(p.acc))
	for k, v := range p.acc {
		n.acc[k] = v
	}
	return &n
}

// ---- clocks (immutable slices)
func joinVC(a, b []int) []int {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]int, n)
	copy(r, a)
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (p *parSt) tick() {
	t := &p.threads[p.cur]
	v := joinVC(t.vc, make([]int, p.cur+1))
	v[p.cur]++
	t.vc = v
}

func (ex *Exec) acquireVC(st *State, key string) {
	if p := st.par; p != nil {
		t := &p.threads[p.cur]
		t.vc = joinVC(t.vc, p.vcs[key])
	}
}

func (ex *Exec) releaseVC(st *State, key string) {
	if p := st.par; p != nil {
		p.vcs[key] = joinVC(p.vcs[key], p.threads[p.cur].vc)
		p.tick()
	}
}

// ---- scheduling
func (ex *Exec) inPar(st *State) bool {
	return st.par != nil && st.quiet == 0 && st.nolockHook == 0 && ex.discovery == 0
}

func (ex *Exec) enabled(st *State, i int) bool {
	p := st.par
	t := &p.threads[i]
	if t.done {
		return false
	}
	w := t.wait
	if w == nil {
		return true
	}
	switch w.kind {
	case "gosched":
		return true
	case "join":
		for j := range p.threads {
			if j != i && !p.threads[j].daemon && !p.threads[j].done {
				return false
			}
		}
		return true
	case "lock", "rlock":
		return !ex.lockedByOther(st, i, w.addr, w.kind == "lock")
	case "wg":
		v := ex.norm(st, ex.readLeaf(st, w.key, w.idx, types.Typ[types.Int]))
		return v.Op != "int" || v.I.Sign() == 0
	case "chan":
		for _, ch := range w.chs {
			if ex.chanReady(st, ch) {
				return true
			}
		}
		return false
	}
	return true
}

func (ex *Exec) lockedByOther(st *State, self int, a *Term, write bool) bool {
	p := st.par
	for j := range p.threads {
		if j == self {
			continue
		}
		ls := p.threads[j].locks
		if j == p.cur {
			ls = st.locks
		}
		for _, l := range ls {
			if l.addr == a && (write || l.mode == 1) {
				return true
			}
		}
	}
	return false
}

// park saves the running thread.
func (st *State) park(w *waitCond, atY bool) {
	p := st.par
	t := &p.threads[p.cur]
	t.frames, t.locks, t.wait, t.atY, t.mark = st.frames, st.locks, w, atY, st.mark
}

// resume makes thread i the running one.
func (ex *Exec) resume(st *State, i int) {
	p := st.par
	p.cur = i
	t := &p.threads[i]
	st.frames, st.locks, st.mark = t.frames, t.locks, t.mark
	t.frames, t.locks = nil, nil
	p.skip = t.atY
	if t.wait != nil && t.wait.kind == "join" {
		t.vc = joinVC(t.vc, p.vcs["join"])
		for _, o := range p.threads {
			if o.mark.I.Cmp(st.mark.I) < 0 {
				st.mark = o.mark
			}
		}
		st.mark = ex.c.Add(st.mark, ex.c.IntC(-100000))
	}
	t.wait = nil
	t.atY = false
	st.trail = append(st.trail, fmt.Sprintf("thread %d", i))
}

// touched notes the use of a synchronisation object; a switch is worthwhile only before the use of
// an object that several threads use (objects found to be so are added until none is new).
func (ex *Exec) touched(st *State, a int, write bool) bool {
	p := st.par
	t, bit := p.touch[a], uint32(1)<<p.cur
	n := t
	if write {
		n.w |= bit
	} else {
		n.r |= bit
	}
	if n != t {
		p.touch[a] = n
		if n.w != 0 && (n.w|n.r)&(n.w|n.r-1) != 0 && !ex.syncShared[a] {
			ex.syncShared[a] = true
			ex.syncNew = true
		}
	}
	return ex.syncShared[a]
}

// yield offers the scheduler a switch before a visible operation on the object a (0: always).
func (ex *Exec) yield(st *State, a int, write bool) []*State {
	if !ex.inPar(st) {
		return nil
	}
	p := st.par
	sh := a == 0 || ex.touched(st, a, write)
	if !sh {
		p.skip = false
		return nil
	}
	if p.skip {
		p.skip = false
		return nil
	}
	if p.left <= 0 {
		return nil
	}
	var others []int
	for i := range p.threads {
		if i != p.cur && ex.enabled(st, i) {
			others = append(others, i)
		}
	}
	if len(others) == 0 {
		return nil
	}
	var out []*State
	for _, o := range others {
		s := st.clone()
		s.par.left--
		s.park(nil, true)
		ex.resume(s, o)
		out = append(out, s)
	}
	p.skip = true
	return append([]*State{st}, out...)
}

// block parks the running thread until its condition holds; the current instruction is re-executed then.
func (ex *Exec) block(st *State, w *waitCond) []*State {
	p := st.par
	st.park(w, true)
	cur := p.cur
	var cands []int
	for i := range p.threads {
		if (i != cur || w.kind != "gosched" && ex.enabled(st, i)) && ex.enabled(st, i) {
			cands = append(cands, i)
		}
	}
	if len(cands) == 0 {
		if w.kind == "gosched" {
			st.dead = true // nobody else can make progress: not a fair schedule
			return []*State{}
		}
		ex.resume(st, cur)
		ex.oblige(st, ex.c.False, "deadlock", "all threads are blocked")
		st.dead = true
		return []*State{}
	}
	var out []*State
	for k, i := range cands {
		s := st
		if k < len(cands)-1 {
			s = st.clone()
		}
		ex.resume(s, i)
		out = append(out, s)
	}
	return out
}

// threadExit is called when the running thread has no frames left.
func (ex *Exec) threadExit(st *State) []*State {
	p := st.par
	t := &p.threads[p.cur]
	if p.cur == 0 {
		st.par = nil
		return nil
	}
	if len(st.locks) > 0 {
		ex.fails = append(ex.fails, Failure{Kind: "locks", Msg: "a goroutine ends holding a lock", Fn: ex.name, Trail: st.trail})
	}
	t.done, t.frames, t.locks, t.mark = true, nil, nil, st.mark
	// the joining thread happens after
	if !t.daemon {
		p.vcs["join"] = joinVC(p.vcs["join"], t.vc)
	}
	var cands []int
	for i := range p.threads {
		if ex.enabled(st, i) {
			cands = append(cands, i)
		}
	}
	if len(cands) == 0 {
		var fs []*Frame
		for i := range p.threads {
			if !p.threads[i].done && len(p.threads[i].frames) > 0 {
				fs = p.threads[i].frames
			}
		}
		st.frames = fs
		ex.oblige(st, ex.c.False, "deadlock", "all threads are blocked")
		st.dead = true
		return []*State{}
	}
	var out []*State
	for k, i := range cands {
		s := st
		if k < len(cands)-1 {
			s = st.clone()
		}
		ex.resume(s, i)
		out = append(out, s)
	}
	return out
}

func (ex *Exec) addThread(st *State, start func(*State) []*State, daemon bool) {
	p := st.par
	fs, ls := st.frames, st.locks
	st.frames, st.locks = nil, nil
	r := start(st)
	if r != nil || len(st.frames) == 0 {
		panic(unsupported("goroutine that is not a plain function"))
	}
	nf := st.frames
	st.frames, st.locks = fs, ls
	i := len(p.threads)
	vc := joinVC(p.threads[p.cur].vc, make([]int, i+1))
	vc[i]++
	mk := ex.c.Add(p.mark, ex.c.IntC(int64(-1000000*i)))
	p.threads = append(p.threads, thread{frames: nf, vc: vc, daemon: daemon, mark: mk})
	p.tick()
}

// ---- races
func (ex *Exec) noteAccess(st *State, key string, idx []*Term, g *Term, write bool) {
	p := st.par
	if p == nil || !p.races || ex.quietAccess > 0 || ex.discovery > 0 || ex.inSpec(st) {
		return
	}
	if len(idx) == 0 && !strings.HasPrefix(key, "glob:") {
		return
	}
	b := key
	if i := strings.Index(b, "."); i > 0 && !strings.HasPrefix(key, "glob:") {
		// bucket by the leading type; keys of fields share it
		b = bucketOf(key)
	}
	t := &p.threads[p.cur]
	clk := 0
	if p.cur < len(t.vc) {
		clk = t.vc[p.cur]
	}
	c := ex.c
	for a := p.acc[b]; a != nil; a = a.next {
		if a.th == p.cur {
			if a.clk == clk && a.key == key && a.write == write && a.atom == ex.atomicAcc && sameIdx(a.idx, idx) {
				return
			}
			continue
		}
		if !a.write && !write || a.atom && ex.atomicAcc || len(a.idx) != len(idx) {
			continue
		}
		if a.th < len(t.vc) && a.clk <= t.vc[a.th] {
			continue
		}
		if !(a.key == key || strings.HasPrefix(a.key, key+".") || strings.HasPrefix(key, a.key+".")) {
			continue
		}
		eq := []*Term{g, a.g}
		for i := range idx {
			eq = append(eq, c.Eq(a.idx[i], idx[i]))
		}
		same := c.And(eq...)
		if same == c.False {
			continue
		}
		kind := "read"
		if write {
			kind = "write"
		}
		k2 := "read"
		if a.write {
			k2 = "write"
		}
		ex.oblige(st, c.Not(same), "race", fmt.Sprintf("%s not ordered with the %s at %s", kind, k2, a.pos))
		if st.dead {
			return
		}
	}
	pos, fn := ex.curPos(st)
	p.acc[b] = &access{key: key, idx: idx, g: g, th: p.cur, clk: clk, write: write, atom: ex.atomicAcc, pos: pos, fn: fn, next: p.acc[b]}
}

func sameIdx(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// bucketOf is a prefix common to all keys that may overlap with key.
func bucketOf(key string) string {
	// type keys contain dots in package paths: cut at the first dot after the last slash's type name
	i := strings.LastIndex(key, "/")
	j := strings.Index(key[i+1:], ".")
	if j < 0 {
		return key
	}
	return key[:i+1+j]
}

// ---- channels
const chClosed, chCount = "chan#closed", "chan#count"

func (ex *Exec) chanKnown(ch *Term) bool { return ex.chans[ch.ID] }

func (ex *Exec) chanGet(st *State, ch *Term) (closed bool, n int64) {
	ex.leafT[chClosed], ex.leafT[chCount] = types.Typ[types.Bool], types.Typ[types.Int]
	cl := ex.norm(st, ex.readLeaf(st, chClosed, []*Term{ch}, types.Typ[types.Bool]))
	ct := ex.norm(st, ex.readLeaf(st, chCount, []*Term{ch}, types.Typ[types.Int]))
	if ct.Op == "int" {
		n = ct.I.Int64()
	}
	return cl == ex.c.True, n
}

func (ex *Exec) chanSet(st *State, ch *Term, closed bool, n int64) {
	ex.leafT[chClosed], ex.leafT[chCount] = types.Typ[types.Bool], types.Typ[types.Int]
	ex.writeLeaf(st, chClosed, []*Term{ch}, types.Typ[types.Bool], ex.c.BoolC(closed))
	ex.writeLeaf(st, chCount, []*Term{ch}, types.Typ[types.Int], ex.c.IntC(n))
}

func (ex *Exec) chanReady(st *State, ch *Term) bool {
	if !ex.chanKnown(ch) {
		return true
	}
	cl, n := ex.chanGet(st, ch)
	return cl || n > 0
}

func init() {
	// Par(preemptions, f...) runs the functions (and the goroutines started so far) concurrently.
	vfIntrinsics["Par"] = func(ex *Exec, st *State, cc *callCtx) []*State {
		if st.par != nil {
			panic(unsupported("nested Par"))
		}
		n := int(cc.args[0].I.Int64())
		sl := ex.norm(st, cc.args[1])
		k := ex.c.Sel(sl, 2)
		if k.Op != "int" {
			panic(unsupported("Par of unknown functions"))
		}
		et := cc.sig.Params().At(1).Type().Underlying().(*types.Slice).Elem()
		var fs []*Term
		b := "[]" + ex.tkey(et)
		for i := int64(0); i < k.I.Int64(); i++ {
			l := Loc{key: b, base: b, idx: []*Term{ex.c.Sel(sl, 0), ex.c.Add(ex.c.Sel(sl, 1), ex.c.IntC(i))}, typ: et}
			fs = append(fs, ex.norm(st, ex.loadLoc(st, l)))
		}
		cc.ret(ex, st) // the caller continues after Par when all functions have returned
		p := &parSt{left: n, vcs: map[string][]int{}, acc: map[string]*access{}, races: true, touch: map[int]touchT{}, mark: st.mark}
		if ex.maxSwitch >= 0 && ex.maxSwitch < n {
			p.left = ex.maxSwitch
		}
		p.threads = []thread{{vc: []int{1}, mark: st.mark}}
		st.par = p
		sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
		for _, d := range st.spawned {
			d := d
			ex.addThread(st, func(s *State) []*State { return ex.invokeDeferred(s, d, func(*State, []*Term) {}) }, true)
		}
		st.spawned = nil
		for _, f := range fs {
			f := f
			ex.addThread(st, func(s *State) []*State { return ex.callDyn(s, f, nil, sig, nil, func(*State, []*Term) {}) }, false)
		}
		ex.usedPar = true
		ex.parMax = max(ex.parMax, n)
		ex.bounded[fmt.Sprintf("thread schedules with at most %d preemptions at synchronisation operations", n)] = true
		st.park(&waitCond{kind: "join"}, false)
		var out []*State
		var cands []int
		for i := 1; i < len(p.threads); i++ {
			cands = append(cands, i)
		}
		for j, i := range cands {
			s := st
			if j < len(cands)-1 {
				s = st.clone()
			}
			ex.resume(s, i)
			out = append(out, s)
		}
		return out
	}
	vfIntrinsics["Atomic"] = func(ex *Exec, st *State, cc *callCtx) []*State {
		cl := ex.closures[cc.args[0].I.Int64()-1]
		st.nolockHook++
		ex.push(st, cl.fn, nil, cl.binds, nil, func(s *State, _ []*Term) {
			s.nolockHook--
			cc.ret(ex, s)
		})
		return nil
	}
	vfIntrinsics["Tier"] = func(ex *Exec, st *State, cc *callCtx) []*State {
		if ex.E.thorough {
			return cc.ret(ex, st, cc.args[1])
		}
		return cc.ret(ex, st, cc.args[0])
	}
	vfIntrinsics["Yield"] = func(ex *Exec, st *State, cc *callCtx) []*State {
		if r := ex.yield(st, 0, true); r != nil {
			return r
		}
		return cc.ret(ex, st)
	}
	externs["runtime.Gosched"] = func(ex *Exec, st *State, cc *callCtx) []*State {
		if ex.inPar(st) {
			if st.par.skip {
				st.par.skip = false
				return cc.ret(ex, st)
			}
			return ex.block(st, &waitCond{kind: "gosched"})
		}
		return cc.ret(ex, st)
	}
	wg := func(op string) handler {
		return func(ex *Exec, st *State, cc *callCtx) []*State {
			c := ex.c
			a := ex.norm(st, cc.args[0])
			if a.Op == "ite" {
				return ex.fork(st, a.Args[0])
			}
			ex.nilCheck(st, a, "waitgroup")
			if st.dead {
				return nil
			}
			S := ptrElem(cc.fn.Signature.Recv().Type())
			l := ex.resolve(st, a, S)[0].l
			key := l.key + ".wg#"
			T := types.Typ[types.Int]
			ex.leafT[key] = T
			if op == "Wait" {
				if !ex.inPar(st) {
					return cc.ret(ex, st)
				}
				if r := ex.yield(st, a.ID, true); r != nil {
					return r
				}
				v := ex.norm(st, ex.readLeaf(st, key, l.idx, T))
				if v.Op == "int" && v.I.Sign() != 0 {
					return ex.block(st, &waitCond{kind: "wg", key: key, idx: l.idx})
				}
				ex.acquireVC(st, fmt.Sprintf("w%d", a.ID))
				return cc.ret(ex, st)
			}
			if ex.inPar(st) {
				ex.touched(st, a.ID, true)
			}
			d := c.IntC(-1)
			if op == "Add" {
				d = cc.args[1]
			}
			ex.releaseVC(st, fmt.Sprintf("w%d", a.ID))
			ex.writeLeaf(st, key, l.idx, T, c.Add(ex.readLeaf(st, key, l.idx, T), d))
			return cc.ret(ex, st)
		}
	}
	for _, op := range []string{"Add", "Done", "Wait"} {
		externs["(*sync.WaitGroup)."+op] = wg(op)
	}
}

// runPasses explores a harness; harnesses with threads are explored with increasing numbers of
// preemptions until the set of synchronisation objects shared by threads is stable.
func (ex *Exec) runPasses(st0 *State, fn *ssa.Function) []*State {
	for pass := 0; ; pass++ {
		ex.maxSwitch = -1
		if pass < 2 {
			ex.maxSwitch = pass
		}
		ex.syncNew = false
		ex.usedPar = false
		ex.nOblig, ex.nTrivial, ex.nSolved, ex.paths = 0, 0, 0, 0
		ex.ensures = map[string]int{}
		st := st0.clone()
		ex.push(st, fn, nil, nil, nil, nil)
		ends := ex.run([]*State{st}, nil)
		if !ex.usedPar || (pass >= 2 || pass >= ex.parMax) && !ex.syncNew || len(ex.fails) > 0 {
			return ends
		}
		if os.Getenv("VF_FORKS") != "" {
			fmt.Fprintf(os.Stderr, "%s: pass %d: %d paths, %d shared\n", ex.name, pass, ex.paths, len(ex.syncShared))
		}
	}
}
