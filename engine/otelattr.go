package main

// Contracts of the attribute library (go.opentelemetry.io/otel/attribute), which is outside the
// repository: slice-valued attributes and attribute sets are opaque values determined by the
// content they were built from.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const attrPkg = "go.opentelemetry.io/otel/attribute"

// seqOf is the content of a slice as terms: the elements when the length is known, the rows otherwise.
func (ex *Exec) seqOf(st *State, s *Term, et types.Type) (string, []*Term) {
	c := ex.c
	arr, off, n := c.Sel(s, 0), c.Sel(s, 1), c.Sel(s, 2)
	b := "[]" + ex.tkey(et)
	if n.Op == "int" && n.I.Int64() <= 24 {
		var out []*Term
		for i := int64(0); i < n.I.Int64(); i++ {
			out = append(out, ex.norm(st, ex.loadLoc(st, Loc{key: b, base: b, idx: []*Term{arr, c.Add(off, c.IntC(i))}, typ: et})))
		}
		return fmt.Sprint(len(out)), out
	}
	var out []*Term
	for _, l := range ex.rowKeys(et) {
		row := c.Select(ex.memGet(st, l.path, l.typ, 2), arr)
		o := off
		for row.Op == "copyrow" && row.Args[1] == o && row.Args[4] == n {
			row, o = row.Args[2], row.Args[3]
		}
		out = append(out, row, o)
	}
	return "n", append(out, n)
}

// sliceFrom makes a new slice whose content is a function of some terms.
func (ex *Exec) sliceFrom(st *State, name string, et types.Type, n *Term, args []*Term) *Term {
	c := ex.c
	arr := ex.alloc(st)
	for i, l := range ex.rowKeys(et) {
		m := ex.memGet(st, l.path, l.typ, 2)
		row := c.App(name+":"+l.path, m.Sort.V, args...)
		if name == "set.row" {
			row = ex.setRow(args[0], l, i, row)
		}
		if _, ok := ex.roots[row.ID]; !ok {
			ex.roots[row.ID] = rootInfo{l.typ, 1, c.IntC(0)}
		}
		if ex.noteWrite != nil {
			ex.noteWrite(st, l.path, []*Term{arr, nil}, l.typ)
		}
		st.mem[l.path] = c.Store(m, arr, row)
	}
	return ex.mkSlice(arr, c.IntC(0), n, n)
}

func (ex *Exec) lenApp(name string, args ...*Term) *Term {
	c := ex.c
	t := c.App(name, c.Int, args...)
	if !t.typedDone {
		t.typedDone = true
		t.nonneg = true
		t.Facts = append(t.Facts, c.mk("<=", c.Bool, "", 0, c.IntC(0), t), c.mk("<", c.Bool, "", 0, t, c.BigC(pow2(40))))
	}
	return t
}

func (ex *Exec) attrKV() (types.Type, types.Type) {
	p := ex.E.ssaPkgs[attrPkg].Pkg
	return p.Scope().Lookup("KeyValue").Type(), p.Scope().Lookup("Set").Type()
}

func init() {
	add := func(n string, h handler) { externs[n] = h }
	ip := "go.opentelemetry.io/otel/internal/attribute."
	for n, et := range map[string]types.Type{"BoolSlice": types.Typ[types.Bool], "Int64Slice": types.Typ[types.Int64], "Float64Slice": types.Typ[types.Float64], "StringSlice": types.Typ[types.String]} {
		n, et := n, et
		add(ip+n+"Value", func(ex *Exec, st *State, cc *callCtx) []*State {
			c := ex.c
			s := ex.norm(st, cc.args[0])
			k, args := ex.seqOf(st, s, et)
			var p *Term
			if k == "n" {
				p = c.App("slbox:"+n+":"+k, c.Int, args...)
				p.nonneg = true
			} else {
				p = c.Inj("inj:slbox:"+n+":"+k, len(args), append(args, c.IntC(0))...)
			}
			at := types.NewArray(et, 1<<30+int64(len(n)))
			ex.sliceBoxes[p.ID] = boxInfo{ex.copyOf(st, s, et), et}
			return cc.ret(ex, st, c.Mk(ex.ifaceSort(), ex.typeID(at), p))
		})
		add(ip+"As"+n, func(ex *Exec, st *State, cc *callCtx) []*State {
			c := ex.c
			v := ex.norm(st, cc.args[0])
			p := ex.norm(st, c.Sel(v, 1))
			if p.Op == "ite" {
				return ex.fork(st, p.Args[0])
			}
			if b, ok := ex.sliceBoxes[p.ID]; ok && b.et == et {
				// what was put in
				r := ex.alloc(st)
				ln := b.n
				for i, l := range ex.rowKeys(et) {
					m := ex.memGet(st, l.path, l.typ, 2)
					if ex.noteWrite != nil {
						ex.noteWrite(st, l.path, []*Term{r, nil}, l.typ)
					}
					st.mem[l.path] = c.Store(m, r, b.rows[i])
				}
				return cc.ret(ex, st, ex.mkSlice(r, b.off, ln, ln))
			}
			ln := ex.lenApp("sllen:"+n, p)
			return cc.ret(ex, st, ex.sliceFrom(st, "slrow:"+n, et, ln, []*Term{p}))
		})
	}
	add("github.com/dgryski/go-farm.Fingerprint64", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		s := ex.norm(st, cc.args[0])
		ex.assumed["farm.Fingerprint64 is a function of the content of its argument"] = true
		et := types.Typ[types.Byte]
		row := c.Select(ex.memGet(st, "[]"+ex.tkey(et), et, 2), c.Sel(s, 0))
		var t *Term
		switch n := c.Sel(s, 2); {
		case n.Op == "int" && n.I.Sign() == 0:
			t = c.BVC(0x9ae16a3b2f90404f)
		case row.Op == "app" && row.S == "str2row" && n == c.StrLen(row.Args[0]):
			t = c.App("farm64", c.BV, row.Args[0])
			if row.Args[0].Op == "str" && !ex.contractActive("github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/fprint.Mix") {
				if h, ok := farm64(row.Args[0].S); ok {
					t = c.BVC(h)
				}
			}
		default:
			t = c.App("farm64row", c.BV, row, c.Sel(s, 1), n)
		}
		return cc.ret(ex, st, t)
	})
	add(attrPkg+".EmptySet", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		kv, set := ex.attrKV()
		p := ex.setTerm(nil, "0")
		iface := c.Mk(ex.ifaceSort(), ex.typeID(types.NewArray(kv, 1<<30)), p)
		dist := set.Underlying().(*types.Struct).Field(0).Type()
		r := ex.alloc(st)
		ex.store(st, r, set, c.Mk(ex.sortOf(set), c.Mk(ex.sortOf(dist), iface)))
		return cc.ret(ex, st, r)
	})
	add(attrPkg+".NewSet", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		kv, set := ex.attrKV()
		s := ex.norm(st, cc.args[0])
		if a := c.Sel(s, 2); a.Op == "ite" {
			return ex.fork(st, a.Args[0])
		}
		ex.assumed["attribute.NewSet: the set is determined by the content of the list, which it may reorder"] = true
		k, args := ex.seqOf(st, s, kv)
		p := ex.setTerm(args, k)
		ex.reordered(st, s, p, kv)
		iface := c.Mk(ex.ifaceSort(), ex.typeID(types.NewArray(kv, 1<<30)), p)
		dist := set.Underlying().(*types.Struct).Field(0).Type()
		return cc.ret(ex, st, c.Mk(ex.sortOf(set), c.Mk(ex.sortOf(dist), iface)))
	})
	filterKnown := func(ex *Exec, st *State, kvs []*Term, f *Term) ([]*Term, bool) {
		var kept []*Term
		for _, kv := range kvs {
			switch ex.normB(st, ex.evalBool(st, f, []*Term{kv})) {
			case ex.c.True:
				kept = append(kept, kv)
			case ex.c.False:
			default:
				return nil, false
			}
		}
		return kept, true
	}
	add(attrPkg+".NewSetWithFiltered", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		kv, set := ex.attrKV()
		s, f := ex.norm(st, cc.args[0]), ex.norm(st, cc.args[1])
		k, args := ex.seqOf(st, s, kv)
		p := ex.setTerm(args, k)
		rs := ex.freshResults(st, "filtered", cc.sig.Results())
		ex.reordered(st, s, p, kv)
		kvs, ok := ex.knownSets[p.ID]
		if ok && !(f.Op == "int" && f.I.Sign() == 0) {
			kvs, ok = filterKnown(ex, st, kvs, f)
		}
		if !ok {
			return cc.ret(ex, st, rs...)
		}
		p = ex.setTerm(kvs, fmt.Sprint(len(kvs)))
		dist := set.Underlying().(*types.Struct).Field(0).Type()
		return cc.ret(ex, st, c.Mk(ex.sortOf(set), c.Mk(ex.sortOf(dist), c.Mk(ex.ifaceSort(), ex.typeID(types.NewArray(kv, 1<<30)), p))), rs[1])
	})
	setOf := func(ex *Exec, st *State, a *Term) *Term {
		_, set := ex.attrKV()
		return ex.norm(st, ex.load(st, ex.norm(st, a), set))
	}
	slen := func(ex *Exec, s *Term) *Term {
		c := ex.c
		iface := c.Sel(c.Sel(s, 0), 0)
		return c.Ite(c.Eq(c.Sel(iface, 0), c.IntC(0)), c.IntC(0), ex.setLen(c.Sel(iface, 1)))
	}
	add("(*"+attrPkg+".Set).Len", func(ex *Exec, st *State, cc *callCtx) []*State {
		if ex.norm(st, cc.args[0]).Op == "int" && ex.norm(st, cc.args[0]).I.Sign() == 0 {
			return cc.ret(ex, st, ex.c.IntC(0))
		}
		return cc.ret(ex, st, slen(ex, setOf(ex, st, cc.args[0])))
	})
	add("(*"+attrPkg+".Set).ToSlice", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		kv, _ := ex.attrKV()
		s := setOf(ex, st, cc.args[0])
		return cc.ret(ex, st, ex.sliceFrom(st, "set.row", kv, slen(ex, s), []*Term{c.Sel(c.Sel(c.Sel(s, 0), 0), 1)}))
	})
	add("(*"+attrPkg+".Set).Get", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		kv, _ := ex.attrKV()
		s := setOf(ex, st, cc.args[0])
		i := cc.args[1]
		ok := ex.normB(st, c.And(c.Le(c.IntC(0), i), c.Lt(i, slen(ex, s))))
		sl := ex.sliceFrom(st, "set.row", kv, slen(ex, s), []*Term{c.Sel(c.Sel(c.Sel(s, 0), 0), 1)})
		b := "[]" + ex.tkey(kv)
		v := ex.loadLoc(st, Loc{key: b, base: b, idx: []*Term{c.Sel(sl, 0), i}, typ: kv})
		return cc.ret(ex, st, c.Ite(ok, v, ex.zeroOr(kv)), ok)
	})
	value := func(ex *Exec, st *State, cc *callCtx) (v, ok *Term) {
		c := ex.c
		kv, _ := ex.attrKV()
		vt := kv.Underlying().(*types.Struct).Field(1).Type()
		s := setOf(ex, st, cc.args[0])
		iface := ex.norm(st, c.Sel(c.Sel(s, 0), 0))
		if t := ex.norm(st, c.Sel(iface, 0)); t.Op == "int" && t.I.Sign() == 0 {
			return ex.zeroOr(vt), c.False
		}
		kvs, known := ex.knownSets[c.Sel(iface, 1).ID]
		if !known {
			panic(unsupported("value of a set of unknown content"))
		}
		v, ok = ex.zeroOr(vt), c.False
		for _, x := range kvs {
			eq := c.Eq(c.Sel(x, 0), cc.args[1])
			v, ok = c.Ite(eq, c.Sel(x, 1), v), c.Or(ok, eq)
		}
		return v, ok
	}
	add("(*"+attrPkg+".Set).Value", func(ex *Exec, st *State, cc *callCtx) []*State {
		v, ok := value(ex, st, cc)
		return cc.ret(ex, st, v, ok)
	})
	add("(*"+attrPkg+".Set).HasValue", func(ex *Exec, st *State, cc *callCtx) []*State {
		_, ok := value(ex, st, cc)
		return cc.ret(ex, st, ok)
	})
	// membership: a set has an attribute when it is at its (unknown) position
	setPos := func(ex *Exec, s, kv *Term) *Term {
		c := ex.c
		return c.App("set.pos", c.Int, c.Sel(c.Sel(c.Sel(s, 0), 0), 1), kv)
	}
	setHas := func(ex *Exec, st *State, s, kv *Term) *Term {
		c := ex.c
		kvT, _ := ex.attrKV()
		i := setPos(ex, s, kv)
		n := slen(ex, s)
		s2 := st.clone()
		saved := ex.noteWrite
		ex.noteWrite = nil
		sl := ex.sliceFrom(s2, "set.row", kvT, n, []*Term{c.Sel(c.Sel(c.Sel(s, 0), 0), 1)})
		b := "[]" + ex.tkey(kvT)
		v := ex.norm(s2, ex.loadLoc(s2, Loc{key: b, base: b, idx: []*Term{c.Sel(sl, 0), i}, typ: kvT}))
		ex.noteWrite = saved
		return c.And(c.Le(c.IntC(0), i), c.Lt(i, n), c.Eq(v, kv))
	}
	vfIntrinsics["SetHas"] = func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, setHas(ex, st, ex.norm(st, cc.args[0]), ex.norm(st, cc.args[1])))
	}
	vfIntrinsics["SetPos"] = func(ex *Exec, st *State, cc *callCtx) []*State {
		return cc.ret(ex, st, setPos(ex, ex.norm(st, cc.args[0]), ex.norm(st, cc.args[1])))
	}
	add("(*"+attrPkg+".Set).Filter", func(ex *Exec, st *State, cc *callCtx) []*State {
		c := ex.c
		kvT, set := ex.attrKV()
		s := setOf(ex, st, cc.args[0])
		f := ex.norm(st, cc.args[1])
		if f.Op == "ite" {
			return ex.fork(st, f.Args[0])
		}
		ex.assumed["(*attribute.Set).Filter: keeps exactly the attributes the filter accepts"] = true
		rs := ex.freshResults(st, "filtered", cc.sig.Results())
		if f.Op == "int" && f.I.Sign() == 0 {
			return cc.ret(ex, st, s, rs[1])
		}
		key, args := f.String(), []*Term{c.Sel(c.Sel(c.Sel(s, 0), 0), 1)}
		if f.Op == "int" {
			cl := ex.closures[f.I.Int64()-1]
			key = cl.fn.String()
			args = append(args, cl.binds...)
		} else {
			args = append(args, f)
		}
		if kvs, ok := ex.knownSets[args[0].ID]; ok {
			kept, exact := filterKnown(ex, st, kvs, f)
			if exact {
				dist := set.Underlying().(*types.Struct).Field(0).Type()
				p := ex.setTerm(kept, fmt.Sprint(len(kept)))
				return cc.ret(ex, st, c.Mk(ex.sortOf(set), c.Mk(ex.sortOf(dist), c.Mk(ex.ifaceSort(), ex.typeID(types.NewArray(kvT, 1<<30)), p))), rs[1])
			}
		}
		p := c.App("set.filter:"+key, c.Int, args...)
		p.nonneg = true
		dist := set.Underlying().(*types.Struct).Field(0).Type()
		r := c.Mk(ex.sortOf(set), c.Mk(ex.sortOf(dist), c.Mk(ex.ifaceSort(), ex.typeID(types.NewArray(kvT, 1<<30)), p)))
		for _, k := range st.tracked {
			if k.Sort == ex.sortOf(kvT) {
				keep := ex.evalBool(st, f, []*Term{k})
				ex.assume(st, c.Eq(setHas(ex, st, r, k), c.And(setHas(ex, st, s, k), keep)))
			}
		}
		return cc.ret(ex, st, r, rs[1])
	})
	_ = strings.HasPrefix
}

// reordered: making a set may reorder its argument.
func (ex *Exec) reordered(st *State, s, p *Term, kv types.Type) {
	c := ex.c
	n := c.Sel(s, 2)
	if n.Op == "int" && n.I.Int64() <= 1 {
		return
	}
	arr := c.Sel(s, 0)
	for _, l := range ex.rowKeys(kv) {
		m := ex.memGet(st, l.path, l.typ, 2)
		if ex.noteWrite != nil {
			ex.noteWrite(st, l.path, []*Term{arr, nil}, l.typ)
		}
		row := c.Fresh("sorted", m.Sort.V)
		ex.roots[row.ID] = rootInfo{l.typ, 1, st.mark}
		if kvs, ok := ex.knownSets[p.ID]; ok && n.Op == "int" && int64(len(kvs)) == n.I.Int64() {
			row = c.Select(m, arr)
			for j, x := range kvs {
				row = c.Store(row, c.Add(c.Sel(s, 1), c.IntC(int64(j))), ex.leafAt(x, l, 0))
			}
		}
		st.mem[l.path] = c.Store(m, arr, row)
	}
}

type boxInfo struct {
	copied
	et types.Type
}
type copied struct {
	rows   []*Term
	off, n *Term
}

func (ex *Exec) copyOf(st *State, s *Term, et types.Type) copied {
	c := ex.c
	r := copied{off: c.Sel(s, 1), n: c.Sel(s, 2)}
	for _, l := range ex.rowKeys(et) {
		r.rows = append(r.rows, c.Select(ex.memGet(st, l.path, l.typ, 2), c.Sel(s, 0)))
	}
	return r
}

// setTerm is the set made from a list; its content is known if the keys are known to be distinct.
func (ex *Exec) setTerm(args []*Term, k string) *Term {
	kvs := append([]*Term{}, args...)
	known := k != "n"
	if known && len(kvs) > 1 {
		seen := map[string]bool{}
		for _, kv := range kvs {
			key := ex.c.Sel(kv, 0)
			if key.Op != "str" {
				known = false
				break
			}
		}
		if known {
			// the last value of a key wins
			var last []*Term
			for i := len(kvs) - 1; i >= 0; i-- {
				if key := ex.c.Sel(kvs[i], 0); !seen[key.S] {
					seen[key.S] = true
					last = append(last, kvs[i])
				}
			}
			kvs = last
			k = fmt.Sprint(len(kvs))
			sort.SliceStable(kvs, func(i, j int) bool { return ex.c.Sel(kvs[i], 0).S < ex.c.Sel(kvs[j], 0).S })
		}
	}
	if !known {
		p := ex.c.App("set.of:"+k, ex.c.Int, args...)
		p.nonneg = true
		return p
	}
	p := ex.c.Inj("inj:set:"+k, len(kvs), append(kvs, ex.c.IntC(0))...)
	if ex.knownSets == nil {
		ex.knownSets = map[int][]*Term{}
	}
	ex.knownSets[p.ID] = kvs[:len(kvs):len(kvs)]
	return p
}

func (ex *Exec) setLen(p *Term) *Term {
	if p.Op == "ite" {
		return ex.c.Ite(p.Args[0], ex.setLen(p.Args[1]), ex.setLen(p.Args[2]))
	}
	if kvs, ok := ex.knownSets[p.ID]; ok {
		return ex.c.IntC(int64(len(kvs)))
	}
	return ex.lenApp("set.len", p)
}

func (ex *Exec) setRow(p *Term, l leaf, i int, row *Term) *Term {
	kvs, ok := ex.knownSets[p.ID]
	if !ok {
		return row
	}
	for j, kv := range kvs {
		row = ex.c.Store(row, ex.c.IntC(int64(j)), ex.leafAt(kv, l, i))
	}
	return row
}

// leafAt is the value of the i-th leaf of an attribute.
func (ex *Exec) leafAt(kv *Term, l leaf, i int) *Term {
	kvT, _ := ex.attrKV()
	var find func(v *Term, t types.Type, path string) *Term
	find = func(v *Term, t types.Type, path string) *Term {
		if "[]"+ex.tkey(kvT)+path == l.path {
			return v
		}
		if u, ok := t.Underlying().(*types.Struct); ok {
			for j := 0; j < u.NumFields(); j++ {
				if r := find(ex.c.Sel(v, j), u.Field(j).Type(), path+"."+fieldName(u.Field(j), j)); r != nil {
					return r
				}
			}
		}
		return nil
	}
	if r := find(kv, kvT, ""); r != nil {
		return r
	}
	panic(unsupported("attribute leaf " + l.path))
}

func (ex *Exec) contractActive(name string) bool { return ex.contracts[name] != nil }
