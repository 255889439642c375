package main

// Typed memory: one array per (root type, field path), slices as rows.

import (
	"fmt"
	"go/types"
	"strings"
)

type rootInfo struct {
	elem types.Type
	nest int
	lo   *Term
}

type acc struct {
	field int   // >=0: tuple component
	idx   *Term // dynamic index into an array value
	styp  *Sort
}

type Loc struct {
	key  string
	idx  []*Term
	typ  types.Type // declared type of the memory at this location
	sub  []acc
	base string // root key, for hooks
}

type gLoc struct {
	g *Term
	l Loc
}

func (ex *Exec) fld(st types.Type, i int, base *Term) *Term {
	return ex.addrFacts(ex.c.mk("fld", ex.c.Int, ex.tkey(st), i, base))
}
func (ex *Exec) elemAddr(t types.Type, arr, idx *Term) *Term {
	return ex.addrFacts(ex.c.mk("elem", ex.c.Int, ex.tkey(t), 0, arr, idx))
}
func (ex *Exec) idxAddr(t types.Type, base, idx *Term) *Term {
	return ex.addrFacts(ex.c.mk("idx", ex.c.Int, ex.tkey(t), 0, base, idx))
}
func (ex *Exec) globAddr(name string, t types.Type) *Term {
	ex.globT[name] = t
	return ex.addrFacts(ex.c.mk("glob", ex.c.Int, name, 0))
}
func (ex *Exec) castAddr(orig types.Type, base *Term) *Term {
	if base.Op == "int" && base.I.Sign() == 0 {
		return base
	}
	return ex.addrFacts(ex.c.mk("cast", ex.c.Int, ex.tkey(orig), 0, base))
}

func (ex *Exec) addrFacts(t *Term) *Term {
	if t.typedDone {
		return t
	}
	t.typedDone = true
	c := ex.c
	zero := c.IntC(0)
	if len(t.Args) == 0 {
		t.Facts = append(t.Facts, c.mk("<", c.Bool, "", 0, zero, t))
		return t
	}
	b := t.Args[0]
	if t.Op == "cast" {
		t.Facts = append(t.Facts, c.mk("=", c.Bool, "", 0, c.mk("<", c.Bool, "", 0, b, zero), c.mk("<", c.Bool, "", 0, t, zero)),
			c.mk("=", c.Bool, "", 0, c.mk("=", c.Bool, "", 0, b, zero), c.mk("=", c.Bool, "", 0, t, zero)))
		return t
	}
	t.Facts = append(t.Facts, c.Ite(c.mk("<", c.Bool, "", 0, b, zero), c.mk("<", c.Bool, "", 0, t, zero), c.mk("<", c.Bool, "", 0, zero, t)))
	return t
}

// resolve finds the memory locations an address of pointee type T may denote.
func (ex *Exec) resolve(st *State, a *Term, T types.Type) []gLoc {
	c := ex.c
	a = ex.norm(st, a)
	switch a.Op {
	case "ite":
		var out []gLoc
		for _, g := range ex.resolve(st, a.Args[1], T) {
			out = append(out, gLoc{c.And(a.Args[0], g.g), g.l})
		}
		n := c.Not(a.Args[0])
		for _, g := range ex.resolve(st, a.Args[2], T) {
			out = append(out, gLoc{c.And(n, g.g), g.l})
		}
		return out
	case "fld":
		S := ex.typeOf[a.S]
		f := S.Underlying().(*types.Struct).Field(a.N)
		var out []gLoc
		for _, g := range ex.resolve(st, a.Args[0], S) {
			l := g.l
			if len(l.sub) > 0 {
				l.sub = append(append([]acc{}, l.sub...), acc{field: a.N, styp: ex.sortOf(S)})
			} else {
				l.key = l.key + "." + fieldName(f, a.N)
			}
			l.typ = f.Type()
			out = append(out, gLoc{g.g, l})
		}
		return out
	case "elem":
		et := ex.typeOf[a.S]
		k := "[]" + a.S
		return []gLoc{{c.True, Loc{key: k, base: k, idx: []*Term{a.Args[0], a.Args[1]}, typ: et}}}
	case "idx":
		at := ex.typeOf[a.S]
		var out []gLoc
		for _, g := range ex.resolve(st, a.Args[0], at) {
			l := g.l
			l.sub = append(append([]acc{}, l.sub...), acc{field: -1, idx: a.Args[1], styp: ex.sortOf(at)})
			l.typ = at.Underlying().(*types.Array).Elem()
			out = append(out, gLoc{g.g, l})
		}
		return out
	case "glob":
		k := "glob:" + a.S
		return []gLoc{{c.True, Loc{key: k, base: k, typ: ex.globT[a.S]}}}
	case "cast":
		return ex.resolve(st, a.Args[0], ex.typeOf[a.S])
	}
	k := ex.objKey(T)
	return []gLoc{{c.True, Loc{key: k, base: k, idx: []*Term{a}, typ: T}}}
}

// objKey names the memory of objects of a type (apart from that of array elements, "[]T").
func (ex *Exec) objKey(T types.Type) string {
	k := ex.tkey(T)
	if strings.HasPrefix(k, "[]") {
		return "cell:" + k
	}
	return k
}

func (ex *Exec) memSort(t types.Type, nest int) *Sort {
	s := ex.sortOf(t)
	for i := 0; i < nest; i++ {
		s = ex.c.ArrSort(ex.c.Int, s)
	}
	return s
}

// newRoot creates a memory variable for a key.
func (ex *Exec) newRoot(name string, t types.Type, nest int, mark, lo *Term) *Term {
	c := ex.c
	v := c.Var(name, ex.memSort(t, nest))
	if nest == 0 {
		return ex.typed(v, t, lo)
	}
	if v.Mark == nil {
		v.Mark = mark
		z := ex.zero(t)
		if nest == 2 {
			z = c.ConstArr(ex.memSort(t, 1), z)
		}
		v.Zero = z
		ex.roots[v.ID] = rootInfo{t, nest, lo}
	}
	return v
}

func (ex *Exec) memGet(st *State, key string, t types.Type, nest int) *Term {
	if m, ok := st.mem[key]; ok {
		return m
	}
	ex.keyInfo[key] = keyInf{t, nest}
	var m *Term
	if nest == 0 { // global
		if ex.globInit || ex.havocGlob(key) {
			if ex.globInit {
				m = ex.zero(t)
			} else {
				m = ex.newRoot("g:"+key, t, 0, nil, ex.c.IntC(0))
			}
		} else {
			m = ex.zero(t)
		}
	} else {
		m = ex.newRoot("m:"+key, t, nest, ex.c.IntC(0), ex.c.IntC(0))
	}
	st.mem[key] = m
	return m
}

type keyInf struct {
	t    types.Type
	nest int
}

// onSelect attaches type facts to reads of root memory.
func (ex *Exec) onSelect(t *Term) {
	d := 1
	r := t.Args[0]
	for r.Op == "select" {
		d++
		r = r.Args[0]
	}
	if r.Op != "var" {
		return
	}
	if ri, ok := ex.roots[r.ID]; ok {
		if ri.nest == d {
			ex.typed(t, ri.elem, ri.lo)
		}
		return
	}
	if kt, ok := ex.mapRoots[r.ID]; ok && d == 2 && kt.elem != nil {
		ex.typed(t, kt.elem, kt.lo)
	}
}

func (ex *Exec) readLeaf(st *State, key string, idx []*Term, t types.Type) *Term {
	v := ex.memGet(st, key, t, len(idx))
	for _, i := range idx {
		v = ex.c.Select(v, i)
	}
	return v
}

func (ex *Exec) writeLeaf(st *State, key string, idx []*Term, t types.Type, v *Term) {
	m := ex.memGet(st, key, t, len(idx))
	if ex.noteWrite != nil {
		ex.noteWrite(st, key, idx, t)
	}
	c := ex.c
	switch len(idx) {
	case 0:
		st.mem[key] = v
	case 1:
		st.mem[key] = c.Store(m, idx[0], v)
	case 2:
		row := c.Select(m, idx[0])
		st.mem[key] = c.Store(m, idx[0], c.Store(row, idx[1], v))
	}
}

// loadLoc reads a location as a value of its declared type.
func (ex *Exec) loadLoc(st *State, l Loc) *Term {
	c := ex.c
	if len(l.sub) > 0 {
		// value = sub-component of the array leaf
		base := l
		base.sub = nil
		v := ex.readLeaf(st, l.key, l.idx, ex.leafType(l))
		for _, a := range l.sub {
			v = ex.subGet(v, a)
		}
		return v
	}
	if u, ok := l.typ.Underlying().(*types.Struct); ok {
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			f := l
			f.key = l.key + "." + fieldName(u.Field(i), i)
			f.typ = u.Field(i).Type()
			as = append(as, ex.loadLoc(st, f))
		}
		return c.Mk(ex.sortOf(l.typ), as...)
	}
	if u, ok := l.typ.Underlying().(*types.Array); ok && len(l.idx) == 1 && l.key == l.base && u.Len() <= maxArr {
		// array object: lives in the slice memory
		var as []*Term
		for i := int64(0); i < u.Len(); i++ {
			k := "[]" + ex.tkey(u.Elem())
			as = append(as, ex.loadLoc(st, Loc{key: k, base: k, idx: []*Term{l.idx[0], c.IntC(i)}, typ: u.Elem()}))
		}
		return c.Mk(ex.sortOf(l.typ), as...)
	}
	ex.noteLeaf(l)
	return ex.readLeaf(st, l.key, l.idx, l.typ)
}

func (ex *Exec) noteLeaf(l Loc) {
	if _, ok := ex.leafT[l.key]; !ok {
		ex.leafT[l.key] = l.typ
	}
}

// leafType finds the declared type of the leaf holding an array value.
func (ex *Exec) leafType(l Loc) types.Type {
	if t, ok := ex.leafT[l.key]; ok {
		return t
	}
	t := ex.keyType(l.key, l.base)
	ex.leafT[l.key] = t
	return t
}

func (ex *Exec) keyType(key, base string) types.Type {
	var t types.Type
	switch {
	case len(base) > 5 && base[:5] == "glob:":
		t = ex.globT[base[5:]]
	case len(base) > 2 && base[:2] == "[]":
		t = ex.typeOf[base[2:]]
	default:
		t = ex.typeOf[base]
	}
	rest := key[len(base):]
	for rest != "" {
		u := t.Underlying().(*types.Struct)
		found := false
		for i := 0; i < u.NumFields(); i++ {
			n := "." + fieldName(u.Field(i), i)
			if len(rest) >= len(n) && rest[:len(n)] == n && (len(rest) == len(n) || rest[len(n)] == '.') {
				t = u.Field(i).Type()
				rest = rest[len(n):]
				found = true
				break
			}
		}
		if !found {
			panic(unsupported("keyType " + key))
		}
	}
	return t
}

func (ex *Exec) subGet(v *Term, a acc) *Term {
	c := ex.c
	if a.field >= 0 {
		return c.Sel(v, a.field)
	}
	if a.idx.Op == "int" {
		i := int(a.idx.I.Int64())
		if i >= len(v.Sort.Elems) {
			return c.Sel(v, 0)
		}
		return c.Sel(v, i)
	}
	n := len(v.Sort.Elems)
	r := c.Sel(v, n-1)
	for i := n - 2; i >= 0; i-- {
		r = c.Ite(c.Eq(a.idx, c.IntC(int64(i))), c.Sel(v, i), r)
	}
	return r
}

func (ex *Exec) subSet(v *Term, subs []acc, nv *Term) *Term {
	if len(subs) == 0 {
		return nv
	}
	c := ex.c
	a := subs[0]
	as := make([]*Term, len(v.Sort.Elems))
	for i := range as {
		old := c.Sel(v, i)
		if a.field >= 0 {
			as[i] = old
			if i == a.field {
				as[i] = ex.subSet(old, subs[1:], nv)
			}
		} else {
			as[i] = c.Ite(c.Eq(a.idx, c.IntC(int64(i))), ex.subSet(old, subs[1:], nv), old)
		}
	}
	return c.Mk(v.Sort, as...)
}

func (ex *Exec) storeLoc(st *State, l Loc, v *Term) {
	c := ex.c
	if len(l.sub) > 0 {
		t := ex.leafType(l)
		old := ex.readLeaf(st, l.key, l.idx, t)
		ex.writeLeaf(st, l.key, l.idx, t, ex.subSet(old, l.sub, v))
		return
	}
	if u, ok := l.typ.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			f := l
			f.key = l.key + "." + fieldName(u.Field(i), i)
			f.typ = u.Field(i).Type()
			ex.storeLoc(st, f, c.Sel(v, i))
		}
		return
	}
	if u, ok := l.typ.Underlying().(*types.Array); ok && len(l.idx) == 1 && l.key == l.base && u.Len() <= maxArr {
		for i := int64(0); i < u.Len(); i++ {
			k := "[]" + ex.tkey(u.Elem())
			ex.storeLoc(st, Loc{key: k, base: k, idx: []*Term{l.idx[0], c.IntC(i)}, typ: u.Elem()}, c.Sel(v, int(i)))
		}
		return
	}
	ex.noteLeaf(l)
	ex.writeLeaf(st, l.key, l.idx, l.typ, v)
}

// reinterpret converts a memory value of sort s to the wanted type (unsafe casts between 64-bit kinds).
func (ex *Exec) reinterpret(v *Term, want *Sort) *Term {
	if v.Sort == want {
		return v
	}
	c := ex.c
	switch {
	case v.Sort == c.FP && want == c.BV:
		return c.F2B(v)
	case v.Sort == c.BV && want == c.FP:
		return c.B2F(v)
	case v.Sort.Kind == STup && want.Kind == STup && len(v.Sort.Elems) == len(want.Elems):
		as := make([]*Term, len(want.Elems))
		for i := range as {
			as[i] = ex.reinterpret(c.Sel(v, i), want.Elems[i])
		}
		return c.Mk(want, as...)
	}
	panic(unsupported(fmt.Sprintf("reinterpret %s as %s", v.Sort, want)))
}

func (ex *Exec) load(st *State, a *Term, T types.Type) *Term {
	ls := ex.resolve(st, a, T)
	var r *Term
	want := ex.sortOf(T)
	for i := len(ls) - 1; i >= 0; i-- {
		ex.guardAccess(st, ls[i], false)
		v := ex.reinterpret(ex.loadLoc(st, ls[i].l), want)
		if r == nil {
			r = v
		} else {
			r = ex.c.Ite(ls[i].g, v, r)
		}
	}
	return r
}

func (ex *Exec) store(st *State, a *Term, T types.Type, v *Term) {
	ls := ex.resolve(st, a, T)
	for _, g := range ls {
		if len(ls) > 1 && ex.noteWrite != nil && ex.valid(st, ex.c.Not(g.g)) {
			continue // not one of the locations written, and no part of a loop's effects
		}
		ex.guardAccess(st, g, true)
		nv := v
		if w := ex.sortOf(g.l.typ); w != v.Sort {
			nv = ex.reinterpret(v, w)
		}
		if g.g != ex.c.True {
			nv = ex.c.Ite(g.g, nv, ex.loadLoc(st, g.l))
		}
		ex.storeLoc(st, g.l, nv)
	}
}

// alloc creates a new zeroed object.
func (ex *Exec) alloc(st *State) *Term {
	st.mark = ex.c.Add(st.mark, ex.c.IntC(-1))
	return st.mark
}

// ---- slices
func (ex *Exec) mkSlice(arr, off, ln, cp *Term) *Term {
	return ex.c.Mk(ex.sliceSort(), arr, off, ln, cp)
}

// rows returns the leaf keys of a slice element type.
func (ex *Exec) rowKeys(et types.Type) []leaf {
	var out []leaf
	for _, l := range ex.leaves(et) {
		out = append(out, leaf{"[]" + ex.tkey(et) + l.path, l.typ})
	}
	return out
}

// copyRow makes dst's row hold n elements of src's row.
func (ex *Exec) copyElems(st *State, et types.Type, darr, doff, sarr, soff, n *Term) {
	c := ex.c
	for _, l := range ex.rowKeys(et) {
		m := ex.memGet(st, l.path, l.typ, 2)
		if ex.noteWrite != nil {
			ex.noteWrite(st, l.path, []*Term{darr, nil}, l.typ)
		}
		drow, srow := c.Select(m, darr), c.Select(m, sarr)
		st.mem[l.path] = c.Store(m, darr, c.CopyRow(drow, doff, srow, soff, n))
	}
}

// ---- maps
type mapKeys struct {
	dom, val, ln string
	k, v         types.Type
}

func (ex *Exec) mapK(t types.Type) mapKeys {
	m := t.Underlying().(*types.Map)
	b := "map:" + ex.tkey(m.Key()) + ":" + ex.tkey(m.Elem())
	return mapKeys{b + "#dom", b + "#val", b + "#len", m.Key(), m.Elem()}
}

func (ex *Exec) mapMem(st *State, mk mapKeys, what string) *Term {
	key := map[string]string{"dom": mk.dom, "val": mk.val, "len": mk.ln}[what]
	if m, ok := st.mem[key]; ok {
		return m
	}
	m := ex.mapRoot(mk, what, "m:"+key, ex.c.IntC(0), ex.c.IntC(0))
	st.mem[key] = m
	ex.mapKeyInfo[key] = mapKeyInf{mk, what}
	return m
}

type mapKeyInf struct {
	mk   mapKeys
	what string
}

func (ex *Exec) mapRoot(mk mapKeys, what, name string, mark, lo *Term) *Term {
	c := ex.c
	var m *Term
	switch what {
	case "dom":
		row := c.ArrSort(ex.sortOf(mk.k), c.Bool)
		m = c.Var(name, c.ArrSort(c.Int, row))
		m.Zero = c.ConstArr(row, c.False)
		ex.mapRoots[m.ID] = rootInfo{nil, 2, lo}
	case "val":
		row := c.ArrSort(ex.sortOf(mk.k), ex.sortOf(mk.v))
		m = c.Var(name, c.ArrSort(c.Int, row))
		m.Zero = c.ConstArr(row, ex.zero(mk.v))
		ex.mapRoots[m.ID] = rootInfo{mk.v, 2, lo}
	case "len":
		m = c.Var(name, c.ArrSort(c.Int, c.Int))
		m.Zero = c.IntC(0)
		ex.mapRoots[m.ID] = rootInfo{types.Typ[types.Uint32], 1, lo}
	}
	if m.Mark == nil {
		m.Mark = mark
	}
	return m
}

func (ex *Exec) mapGet(st *State, t types.Type, ref, key *Term) (val, ok *Term) {
	c := ex.c
	mk := ex.mapK(t)
	ref = ex.norm(st, ref)
	ex.guardMap(st, mk, ref, false)
	d := c.Select(c.Select(ex.mapMem(st, mk, "dom"), ref), key)
	ok = c.And(c.Not(c.Eq(ref, c.IntC(0))), d)
	ok = ex.normB(st, ok)
	v := c.Select(c.Select(ex.mapMem(st, mk, "val"), ref), key)
	val = c.Ite(ok, v, ex.zero(mk.v))
	// a present key means a positive length
	ln := c.Select(ex.mapMem(st, mk, "len"), ref)
	ex.typed(ln, types.Typ[types.Uint32], nil)
	if ok != c.False {
		ex.assume(st, c.Implies(ok, c.Lt(c.IntC(0), ln)))
	}
	return
}

func (ex *Exec) mapLen(st *State, t types.Type, ref *Term) *Term {
	c := ex.c
	mk := ex.mapK(t)
	ref = ex.norm(st, ref)
	ex.guardMap(st, mk, ref, false)
	ln := c.Select(ex.mapMem(st, mk, "len"), ref)
	ex.typed(ln, types.Typ[types.Uint32], nil)
	return c.Ite(c.Eq(ref, c.IntC(0)), c.IntC(0), ln)
}

func (ex *Exec) mapWriteNote(st *State, mk mapKeys, ref, key *Term) {
	if ex.noteWrite != nil {
		ex.noteWrite(st, mk.dom, []*Term{ref, key}, nil)
		ex.noteWrite(st, mk.val, []*Term{ref, key}, nil)
		ex.noteWrite(st, mk.ln, []*Term{ref}, nil)
	}
}

func (ex *Exec) mapSet(st *State, t types.Type, ref, key, v *Term) {
	c := ex.c
	mk := ex.mapK(t)
	ref = ex.norm(st, ref)
	ex.guardMap(st, mk, ref, true)
	_, ok := ex.mapGet(st, t, ref, key)
	dom, val, ln := ex.mapMem(st, mk, "dom"), ex.mapMem(st, mk, "val"), ex.mapMem(st, mk, "len")
	ex.mapWriteNote(st, mk, ref, key)
	st.mem[mk.dom] = c.Store(dom, ref, c.Store(c.Select(dom, ref), key, c.True))
	st.mem[mk.val] = c.Store(val, ref, c.Store(c.Select(val, ref), key, v))
	old := c.Select(ln, ref)
	st.mem[mk.ln] = c.Store(ln, ref, c.Ite(ok, old, c.Add(old, c.IntC(1))))
}

func (ex *Exec) mapDelete(st *State, t types.Type, ref, key *Term) {
	c := ex.c
	mk := ex.mapK(t)
	ref = ex.norm(st, ref)
	ex.guardMap(st, mk, ref, true)
	_, ok := ex.mapGet(st, t, ref, key)
	dom, ln := ex.mapMem(st, mk, "dom"), ex.mapMem(st, mk, "len")
	ex.mapWriteNote(st, mk, ref, key)
	st.mem[mk.dom] = c.Store(dom, ref, c.Store(c.Select(dom, ref), key, c.False))
	old := c.Select(ln, ref)
	st.mem[mk.ln] = c.Store(ln, ref, c.Ite(ok, c.Sub(old, c.IntC(1)), old))
}
