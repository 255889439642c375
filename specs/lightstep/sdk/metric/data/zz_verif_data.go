package data

import (
	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
)

// Memory for re-use is extended within its capacity, whatever it holds.
func VF_C14_reallocate() {
	ps := vf.AnySlice[Point]("ps", vf.Len("n"))
	n := vf.Len("len")
	vf.Assume(n <= len(ps))
	old := ps
	ps = ps[:n]
	i := vf.Any[int]("i")
	vf.Assume(i >= 0 && i < n)
	before := ps[i]
	c := cap(ps)
	p := ReallocateFrom(&ps)
	vf.Ensure(len(ps) == n+1 && p == &ps[n], "the next element")
	vf.Ensure(vf.Same(ps[i], before), "the others are unchanged")
	if n < c {
		vf.Ensure(cap(old) == 0 || vf.SameArray(ps, old[:n]), "within the capacity")
	}
}

// Every list is emptied, with its memory, whatever it holds.
func VF_C14_reset_scope() {
	var s Scope
	s.Instruments = vf.AnySlice[Instrument]("instruments", vf.Len("n"))
	insts := s.Instruments
	j := vf.Any[int]("j")
	vf.Assume(j >= 0 && j < len(insts))
	points := insts[j].Points
	vf.LoopInv(func(k int) bool { return vf.Implies(j < k, len(insts[j].Points) == 0) })
	vf.LoopInv(func(k int) bool { return cap(insts[j].Points) == cap(points) })
	s.Reset()
	vf.Ensure(len(s.Instruments) == 0 && cap(s.Instruments) == cap(insts), "no instruments")
	vf.Ensure(len(insts[j].Points) == 0 && cap(insts[j].Points) == cap(points), "no points in any of those")
}

// Every scope is emptied.
func VF_C14_reset() {
	var m Metrics
	m.Scopes = vf.AnySlice[Scope]("scopes", vf.Len("n"))
	scopes := m.Scopes
	i := vf.Any[int]("i")
	vf.Assume(i >= 0 && i < len(scopes))
	insts := scopes[i].Instruments
	vf.LoopInv(func(k int) bool { return vf.Implies(i < k, len(scopes[i].Instruments) == 0) })
	vf.LoopInv(func(k int) bool { return cap(scopes[i].Instruments) == cap(insts) })
	m.Reset()
	vf.Ensure(len(m.Scopes) == 0 && cap(m.Scopes) == cap(scopes), "no scopes")
	vf.Ensure(len(scopes[i].Instruments) == 0 && cap(scopes[i].Instruments) == cap(insts), "no instruments in any of them")
}
