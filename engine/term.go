package main

// Hash-consed terms with local simplification, and their SMT-LIB rendering.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SBV  // 64 bits
	SFP  // Float64
	SStr // String
	SUn  // uninterpreted
	STup // tuple
	SArr // array
)

type Sort struct {
	Kind  SortKind
	Name  string
	K, V  *Sort   // array
	Elems []*Sort // tuple
}

func (s *Sort) String() string { return s.Name }

type Term struct {
	Op    string
	Args  []*Term
	Sort  *Sort
	S     string // payload: var name, constant text, function name, field index
	N     int    // payload: selector index
	I     *big.Int
	ID    int
	Facts []*Term // universally valid side conditions
	// for root arrays (variables of array sort)
	Mark      *Term // allocation mark at creation: objects below it did not exist
	RefLo     *Term // lower bound for references contained (nil: none known)
	Zero      *Term // zero element of the innermost value
	depth     int
	nonneg    bool
	haswq     bool // contains a bound (quantified) variable
	typedDone bool
	factsOf   *Term // facts are held by this composite
	syms      map[int]bool
}

type Ctx struct {
	tab                    map[string]*Term
	sorts                  map[string]*Sort
	nextID                 int
	fresh                  int
	True, False            *Term
	Bool, Int, BV, FP, Str *Sort
	tupleDecl              []*Sort
	tupSeen                map[string]bool
	onSelect               func(*Term)
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, sorts: map[string]*Sort{}, tupSeen: map[string]bool{}}
	c.Bool = c.mkSort(&Sort{Kind: SBool, Name: "Bool"})
	c.Int = c.mkSort(&Sort{Kind: SInt, Name: "Int"})
	c.BV = c.mkSort(&Sort{Kind: SBV, Name: "(_ BitVec 64)"})
	c.FP = c.mkSort(&Sort{Kind: SFP, Name: "Float64"})
	c.Str = c.mkSort(&Sort{Kind: SStr, Name: "String"})
	c.True = c.mk("true", c.Bool, "", 0)
	c.False = c.mk("false", c.Bool, "", 0)
	return c
}

func (c *Ctx) mkSort(s *Sort) *Sort {
	if e, ok := c.sorts[s.Name]; ok {
		return e
	}
	c.sorts[s.Name] = s
	return s
}
func (c *Ctx) ArrSort(k, v *Sort) *Sort {
	return c.mkSort(&Sort{Kind: SArr, Name: "(Array " + k.Name + " " + v.Name + ")", K: k, V: v})
}
func (c *Ctx) UnSort(name string) *Sort {
	return c.mkSort(&Sort{Kind: SUn, Name: name})
}
func (c *Ctx) TupSort(name string, elems []*Sort) *Sort {
	s := c.mkSort(&Sort{Kind: STup, Name: name, Elems: elems})
	if !c.tupSeen[name] {
		c.tupSeen[name] = true
		c.tupleDecl = append(c.tupleDecl, s)
	}
	return s
}

func (c *Ctx) mk(op string, s *Sort, payload string, n int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(payload)
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(n))
	if len(args) == 0 || op == "constarr" {
		sb.WriteByte('|')
		sb.WriteString(s.Name)
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	key := sb.String()
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{Op: op, Args: args, Sort: s, S: payload, N: n, ID: c.nextID}
	c.nextID++
	for _, a := range args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		if a.haswq {
			t.haswq = true
		}
	}
	c.tab[key] = t
	return t
}

func (c *Ctx) Var(name string, s *Sort) *Term { return c.mk("var", s, name, 0) }
func (c *Ctx) Fresh(prefix string, s *Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", sanitize(prefix), c.fresh), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// ---- constants
func (c *Ctx) BoolC(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) IntC(i int64) *Term { return c.BigC(big.NewInt(i)) }
func (c *Ctx) BigC(i *big.Int) *Term {
	t := c.mk("int", c.Int, i.String(), 0)
	t.I = i
	return t
}
func (c *Ctx) BVC(u uint64) *Term {
	t := c.mk("bv", c.BV, strconv.FormatUint(u, 10), 0)
	t.I = new(big.Int).SetUint64(u)
	return t
}
func (c *Ctx) FPC(f float64) *Term {
	return c.mk("fp", c.FP, strconv.FormatUint(math.Float64bits(f), 10), 0)
}
func (c *Ctx) StrC(s string) *Term { return c.mk("str", c.Str, s, 0) }

func (t *Term) IsLit() bool {
	switch t.Op {
	case "true", "false", "int", "bv", "fp", "str":
		return true
	}
	return false
}
func (t *Term) bvVal() uint64 { return t.I.Uint64() }
func (t *Term) fpVal() float64 {
	u, _ := strconv.ParseUint(t.S, 10, 64)
	return math.Float64frombits(u)
}

// ---- boolean
func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.Args[0]
	case "<": // not (x<y) = y<=x
		return c.Le(a.Args[1], a.Args[0])
	case "<=":
		return c.Lt(a.Args[1], a.Args[0])
	}
	return c.mk("not", c.Bool, "", 0, a)
}
func (c *Ctx) And(xs ...*Term) *Term { return c.nary("and", xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary("or", xs) }
func (c *Ctx) nary(op string, xs []*Term) *Term {
	unit, zero := c.True, c.False
	if op == "or" {
		unit, zero = c.False, c.True
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, a := range x.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x.ID] {
			return true
		}
		seen[x.ID] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, x := range out {
		if seen[c.Not(x).ID] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.mk(op, c.Bool, "", 0, out...)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.True {
		return a
	}
	if cond == c.False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch %s vs %s", a.Sort, b.Sort))
	}
	if a.Sort == c.Bool {
		if a == c.True {
			return c.Or(cond, b)
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.True {
			return c.Or(c.Not(cond), a)
		}
		if b == c.False {
			return c.And(cond, a)
		}
	}
	if cond.Op == "not" {
		return c.Ite(cond.Args[0], b, a)
	}
	// collapse nested ite on the same condition
	if a.Op == "ite" && a.Args[0] == cond {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == cond {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.Sort.Kind == STup {
		if a.Op == "mk" || b.Op == "mk" {
			args := make([]*Term, len(a.Sort.Elems))
			for i := range args {
				args[i] = c.Ite(cond, c.Sel(a, i), c.Sel(b, i))
			}
			return c.Mk(a.Sort, args...)
		}
	}
	t := c.mk("ite", a.Sort, "", 0, cond, a, b)
	return t
}

// split decomposes an Int term into base + constant.
func (c *Ctx) split(t *Term) (*Term, *big.Int) {
	if t.Op == "int" {
		return nil, t.I
	}
	if t.Op == "+" {
		var k *big.Int
		var rest []*Term
		for _, a := range t.Args {
			if a.Op == "int" {
				k = a.I
			} else {
				rest = append(rest, a)
			}
		}
		if k != nil {
			return c.mkAdd(rest), k
		}
	}
	return t, big.NewInt(0)
}
func (c *Ctx) mkAdd(xs []*Term) *Term {
	if len(xs) == 1 {
		return xs[0]
	}
	return c.mk("+", c.Int, "", 0, xs...)
}

// linear normal form: map base term id -> coefficient
func (c *Ctx) lin(t *Term, k *big.Int, acc map[int]*big.Int, terms map[int]*Term, cst *big.Int) {
	switch t.Op {
	case "int":
		cst.Add(cst, new(big.Int).Mul(k, t.I))
		return
	case "+":
		for _, a := range t.Args {
			c.lin(a, k, acc, terms, cst)
		}
		return
	case "*":
		if t.Args[0].Op == "int" {
			c.lin(t.Args[1], new(big.Int).Mul(k, t.Args[0].I), acc, terms, cst)
			return
		}
	}
	if acc[t.ID] == nil {
		acc[t.ID] = new(big.Int)
		terms[t.ID] = t
	}
	acc[t.ID].Add(acc[t.ID], k)
}
func (c *Ctx) fromLin(acc map[int]*big.Int, terms map[int]*Term, cst *big.Int) *Term {
	var ids []int
	for id, k := range acc {
		if k.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var xs []*Term
	for _, id := range ids {
		k := acc[id]
		if k.IsInt64() && k.Int64() == 1 {
			xs = append(xs, terms[id])
		} else {
			xs = append(xs, c.mk("*", c.Int, "", 0, c.BigC(k), terms[id]))
		}
	}
	if cst.Sign() != 0 || len(xs) == 0 {
		xs = append(xs, c.BigC(cst))
	}
	return c.mkAdd(xs)
}
func (c *Ctx) Add(a, b *Term) *Term { return c.linComb(a, 1, b, 1) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.linComb(a, 1, b, -1) }
func (c *Ctx) linComb(a *Term, ka int64, b *Term, kb int64) *Term {
	acc, terms, cst := map[int]*big.Int{}, map[int]*Term{}, new(big.Int)
	c.lin(a, big.NewInt(ka), acc, terms, cst)
	c.lin(b, big.NewInt(kb), acc, terms, cst)
	return c.fromLin(acc, terms, new(big.Int).Set(cst))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return c.BigC(new(big.Int).Mul(a.I, b.I))
	}
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		acc, terms, cst := map[int]*big.Int{}, map[int]*Term{}, new(big.Int)
		c.lin(b, a.I, acc, terms, cst)
		return c.fromLin(acc, terms, new(big.Int).Set(cst))
	}
	return c.mk("*", c.Int, "", 0, a, b)
}
func (c *Ctx) Div(a, b *Term) *Term { // Euclidean-free: truncated division for Go handled by caller
	if a.Op == "int" && b.Op == "int" && b.I.Sign() != 0 {
		return c.BigC(new(big.Int).Quo(a.I, b.I))
	}
	return c.mk("div", c.Int, "", 0, a, b)
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() > 0 {
		return c.BigC(new(big.Int).Mod(a.I, b.I))
	}
	if b.Op == "int" && a.Op == "mod" && a.Args[1] == b {
		return a
	}
	return c.mk("mod", c.Int, "", 0, a, b)
}

// bounds on Int terms that are known syntactically
func (c *Ctx) knownNonneg(t *Term) bool {
	if t.nonneg {
		return true
	}
	switch t.Op {
	case "int":
		return t.I.Sign() >= 0
	case "str.len":
		return true
	case "mod":
		return t.Args[1].Op == "int" && t.Args[1].I.Sign() > 0
	case "+":
		for _, a := range t.Args {
			if !c.knownNonneg(a) {
				return false
			}
		}
		return true
	case "*":
		return c.knownNonneg(t.Args[0]) && c.knownNonneg(t.Args[1])
	case "ite":
		return c.knownNonneg(t.Args[1]) && c.knownNonneg(t.Args[2])
	}
	return false
}
func (c *Ctx) Lt(a, b *Term) *Term {
	d := c.Sub(b, a) // b-a > 0
	if d.Op == "int" {
		return c.BoolC(d.I.Sign() > 0)
	}
	// nonneg + positive const
	if base, k := c.split(d); base != nil && k.Sign() > 0 && c.knownNonneg(base) {
		return c.True
	}
	if base, k := c.split(c.Sub(a, b)); base != nil && k.Sign() >= 0 && c.knownNonneg(base) {
		return c.False
	}
	return c.mk("<", c.Bool, "", 0, a, b)
}
func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.Op == "int" {
		return c.BoolC(d.I.Sign() >= 0)
	}
	if base, k := c.split(d); base != nil && k.Sign() >= 0 && c.knownNonneg(base) {
		return c.True
	}
	if base, k := c.split(c.Sub(a, b)); base != nil && k.Sign() > 0 && c.knownNonneg(base) {
		return c.False
	}
	return c.mk("<=", c.Bool, "", 0, a, b)
}

func isAddr(t *Term) bool {
	switch t.Op {
	case "fld", "elem", "idx", "glob", "cast":
		return true
	}
	return false
}

// Distinct reports syntactic certainty of a != b.
func (c *Ctx) Distinct(a, b *Term) bool { return c.Eq(a, b) == c.False }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch %s vs %s (%s, %s)", a.Sort, b.Sort, a.Op, b.Op))
	}
	if a.IsLit() && b.IsLit() {
		if a.Op == "fp" { // identical bits handled above; SMT equality identifies NaNs
			if math.IsNaN(a.fpVal()) && math.IsNaN(b.fpVal()) {
				return c.True
			}
		}
		return c.False
	}
	switch a.Sort.Kind {
	case SBool:
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	case SInt:
		// injective constructors
		if a.Op == "app" && b.Op == "app" && strings.HasPrefix(a.S, "inj:") && strings.HasPrefix(b.S, "inj:") {
			if a.S == b.S {
				var cs []*Term
				for i := range a.Args {
					cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
				}
				return c.And(cs...)
			}
			if injFamily(a.S) == injFamily(b.S) {
				return c.False
			}
		}
		// interior addresses
		if isAddr(a) && isAddr(b) {
			if a.Op != b.Op || a.S != b.S || a.N != b.N {
				if a.Op != "cast" && b.Op != "cast" {
					return c.False
				}
			} else {
				var cs []*Term
				for i := range a.Args {
					cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
				}
				return c.And(cs...)
			}
		}
		if isAddr(a) && b.Op == "int" || isAddr(b) && a.Op == "int" {
			return c.False
		}
		if !isAddr(a) && !isAddr(b) {
			d := c.Sub(a, b)
			if d.Op == "int" {
				return c.BoolC(d.I.Sign() == 0)
			}
			if base, k := c.split(d); base != nil && k.Sign() > 0 && c.knownNonneg(base) {
				return c.False
			}
			if base, k := c.split(c.Sub(b, a)); base != nil && k.Sign() > 0 && c.knownNonneg(base) {
				return c.False
			}
		}
	case STup:
		if a.Op == "mk" && b.Op == "mk" {
			var cs []*Term
			for i := range a.Args {
				cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
			}
			return c.And(cs...)
		}
		if len(a.Sort.Elems) == 0 {
			return c.True
		}
		if a.Op == "mk" || b.Op == "mk" || a.Op == "ite" || b.Op == "ite" {
			var cs []*Term
			for i := range a.Sort.Elems {
				cs = append(cs, c.Eq(c.Sel(a, i), c.Sel(b, i)))
			}
			return c.And(cs...)
		}
	}
	if a.Op == "ite" && b.IsLit() {
		l, r := c.Eq(a.Args[1], b), c.Eq(a.Args[2], b)
		if l.IsLit() || r.IsLit() {
			return c.Ite(a.Args[0], l, r)
		}
	}
	if b.Op == "ite" && a.IsLit() {
		return c.Eq(b, a)
	}
	if a.Op == "ite" && isAddr(b) || b.Op == "ite" && isAddr(a) {
		if b.Op == "ite" {
			a, b = b, a
		}
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	if a.Op == "app" && b.Op == "app" && a.S == b.S && strings.HasPrefix(a.S, "box:") {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk("=", c.Bool, "", 0, a, b)
}

// ---- tuples
func (c *Ctx) Mk(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Elems) {
		panic("mk arity " + s.Name)
	}
	for i, a := range args {
		if a.Sort != s.Elems[i] {
			panic(fmt.Sprintf("mk %s elem %d: %s, want %s", s.Name, i, a.Sort, s.Elems[i]))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].Op == "sel" && args[0].N == 0 && args[0].Args[0].Sort == s {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if !(a.Op == "sel" && a.N == i && a.Args[0] == x) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return c.mk("mk", s, s.Name, 0, args...)
}
func (c *Ctx) Sel(t *Term, i int) *Term {
	if t.Op == "mk" {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return c.Ite(t.Args[0], c.Sel(t.Args[1], i), c.Sel(t.Args[2], i))
	}
	if t.Sort.Kind != STup {
		panic("sel on " + t.Sort.Name)
	}
	return c.mk("sel", t.Sort.Elems[i], "", i, t)
}

// ---- arrays
func (c *Ctx) Select(a, i *Term) *Term {
	switch a.Op {
	case "store":
		e := c.Eq(a.Args[1], i)
		if e == c.True {
			return a.Args[2]
		}
		rest := c.Select(a.Args[0], i)
		if e == c.False {
			return rest
		}
		return c.Ite(e, a.Args[2], rest)
	case "ite":
		return c.Ite(a.Args[0], c.Select(a.Args[1], i), c.Select(a.Args[2], i))
	case "constarr":
		return a.Args[0]
	case "copyrow":
		in := c.And(c.Le(a.Args[1], i), c.Lt(i, c.Add(a.Args[1], a.Args[4])))
		if in == c.False {
			return c.Select(a.Args[0], i)
		}
		from := c.Select(a.Args[2], c.Add(c.Sub(i, a.Args[1]), a.Args[3]))
		if in == c.True {
			return from
		}
		return c.Ite(in, from, c.Select(a.Args[0], i))
	case "region": // args: old (refs >= mark), new (refs < mark), mark
		if c.Le(a.Args[2], i) == c.True {
			return c.Select(a.Args[0], i)
		}
		if c.Lt(i, a.Args[2]) == c.True {
			return c.Select(a.Args[1], i)
		}
		return c.Ite(c.Le(a.Args[2], i), c.Select(a.Args[0], i), c.Select(a.Args[1], i))
	case "var":
		if a.Mark != nil && a.Zero != nil {
			// object allocated after this array variable was created: zero content
			if c.Lt(i, a.Mark) == c.True {
				return a.Zero
			}
		}
	}
	n := c.nextID
	t := c.mk("select", a.Sort.V, "", 0, a, i)
	if t.ID == n && c.onSelect != nil {
		c.onSelect(t)
	}
	return t
}

// CopyRow is dst with n elements at doff replaced by those of src at soff.
func (c *Ctx) CopyRow(dst, doff, src, soff, n *Term) *Term {
	if n.Op == "int" && n.I.Sign() == 0 {
		return dst
	}
	return c.mk("copyrow", dst.Sort, "", 0, dst, doff, src, soff, n)
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	if v.Sort != a.Sort.V {
		panic(fmt.Sprintf("store sort %s into %s", v.Sort, a.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		return c.Store(a.Args[0], i, v)
	}
	if c.Select(a, i) == v && v.Op == "select" {
		return a
	}
	return c.mk("store", a.Sort, "", 0, a, i, v)
}
func (c *Ctx) ConstArr(s *Sort, v *Term) *Term { return c.mk("constarr", s, "", 0, v) }

// ---- uninterpreted functions
func (c *Ctx) App(name string, s *Sort, args ...*Term) *Term {
	return c.mk("app", s, name, 0, args...)
}

// Inj is an application of an injective constructor: "inj:<family>:<constructor>".
func (c *Ctx) Inj(name string, tag int, args ...*Term) *Term {
	t := c.mk("app", c.Int, name, 0, args...)
	if len(t.Facts) == 0 {
		t.nonneg = true
		t.Facts = append(t.Facts, c.mk("<=", c.Bool, "", 0, c.IntC(0), t),
			c.mk("=", c.Bool, "", 0, c.App("tag:"+injFamily(name), c.Int, t), c.IntC(int64(tag))))
		for i, a := range args {
			t.Facts = append(t.Facts, c.mk("=", c.Bool, "", 0, c.App(fmt.Sprintf("inv:%s:%d", name, i), a.Sort, t), a))
		}
	}
	return t
}
func injFamily(s string) string { return s[:strings.LastIndexByte(s, ':')] }

// ---- bitvectors
func (c *Ctx) BVOp(op string, a, b *Term) *Term {
	if a.Op == "bv" && b.Op == "bv" {
		x, y := a.bvVal(), b.bvVal()
		switch op {
		case "bvadd":
			return c.BVC(x + y)
		case "bvsub":
			return c.BVC(x - y)
		case "bvmul":
			return c.BVC(x * y)
		case "bvand":
			return c.BVC(x & y)
		case "bvor":
			return c.BVC(x | y)
		case "bvxor":
			return c.BVC(x ^ y)
		case "bvshl":
			if y > 63 {
				return c.BVC(0)
			}
			return c.BVC(x << y)
		case "bvlshr":
			if y > 63 {
				return c.BVC(0)
			}
			return c.BVC(x >> y)
		case "bvsdiv":
			if y != 0 {
				return c.BVC(uint64(int64(x) / int64(y)))
			}
		case "bvudiv":
			if y != 0 {
				return c.BVC(x / y)
			}
		case "bvsrem":
			if y != 0 {
				return c.BVC(uint64(int64(x) % int64(y)))
			}
		case "bvurem":
			if y != 0 {
				return c.BVC(x % y)
			}
		}
	}
	z := func(t *Term) bool { return t.Op == "bv" && t.bvVal() == 0 }
	switch op {
	case "bvadd", "bvor", "bvxor":
		if z(a) {
			return b
		}
		if z(b) {
			return a
		}
	case "bvsub":
		if z(b) {
			return a
		}
		if a == b {
			return c.BVC(0)
		}
		// (x+y)-x = y
		if a.Op == "bvadd" {
			if a.Args[0] == b {
				return a.Args[1]
			}
			if a.Args[1] == b {
				return a.Args[0]
			}
		}
	case "bvmul", "bvand":
		if z(a) || z(b) {
			return c.BVC(0)
		}
	}
	switch op {
	case "bvadd", "bvmul", "bvand", "bvor", "bvxor":
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return c.mk(op, c.BV, "", 0, a, b)
}
func (c *Ctx) BVCmp(op string, a, b *Term) *Term {
	if a == b {
		return c.BoolC(op == "bvule" || op == "bvsle")
	}
	if a.Op == "bv" && b.Op == "bv" {
		x, y := a.bvVal(), b.bvVal()
		switch op {
		case "bvult":
			return c.BoolC(x < y)
		case "bvule":
			return c.BoolC(x <= y)
		case "bvslt":
			return c.BoolC(int64(x) < int64(y))
		case "bvsle":
			return c.BoolC(int64(x) <= int64(y))
		}
	}
	return c.mk(op, c.Bool, "", 0, a, b)
}

// BV -> Int (unsigned or signed) and back
func (c *Ctx) BV2Int(a *Term, signed bool) *Term {
	if a.Op == "bv" {
		if signed {
			return c.IntC(int64(a.bvVal()))
		}
		return c.BigC(new(big.Int).SetUint64(a.bvVal()))
	}
	if a.Op == "int2bv" {
		in := a.Args[0]
		if c.smallNonneg(in) {
			return in
		}
	}
	u := c.mk("bv2nat", c.Int, "", 0, a)
	u.nonneg = true
	if !signed {
		return u
	}
	return c.Ite(c.BVCmp("bvslt", a, c.BVC(0)), c.Sub(u, c.BigC(new(big.Int).Lsh(big.NewInt(1), 64))), u)
}

// smallNonneg: known to be in [0, 2^62) (lengths, 32-bit unsigned values)
func (c *Ctx) smallNonneg(t *Term) bool {
	if t.Op == "int" {
		return t.I.Sign() >= 0 && t.I.BitLen() < 63
	}
	return t.nonneg || t.Op == "str.len" || t.Op == "mod"
}
func (c *Ctx) Int2BV(a *Term) *Term {
	if a.Op == "int" {
		m := new(big.Int).And(a.I, new(big.Int).SetUint64(math.MaxUint64))
		return c.BVC(m.Uint64())
	}
	if a.Op == "bv2nat" {
		return a.Args[0]
	}
	return c.mk("int2bv", c.BV, "", 0, a)
}

// ---- floats
func (c *Ctx) FPBin(op string, a, b *Term) *Term {
	if a.Op == "fp" && b.Op == "fp" {
		x, y := a.fpVal(), b.fpVal()
		switch op {
		case "fp.add":
			return c.FPC(x + y)
		case "fp.sub":
			return c.FPC(x - y)
		case "fp.mul":
			return c.FPC(x * y)
		case "fp.div":
			return c.FPC(x / y)
		}
	}
	return c.mk(op, c.FP, "", 0, a, b)
}
func (c *Ctx) FPCmp(op string, a, b *Term) *Term {
	if a.Op == "fp" && b.Op == "fp" {
		x, y := a.fpVal(), b.fpVal()
		switch op {
		case "fp.lt":
			return c.BoolC(x < y)
		case "fp.leq":
			return c.BoolC(x <= y)
		case "fp.eq":
			return c.BoolC(x == y)
		}
	}
	return c.mk(op, c.Bool, "", 0, a, b)
}
func (c *Ctx) FPUn(op string, a *Term) *Term {
	if a.Op == "fp" {
		x := a.fpVal()
		switch op {
		case "fp.neg":
			return c.FPC(-x)
		case "fp.abs":
			return c.FPC(math.Abs(x))
		}
	}
	return c.mk(op, c.FP, "", 0, a)
}
func (c *Ctx) FPIs(op string, a *Term) *Term {
	if a.Op == "fp" {
		x := a.fpVal()
		switch op {
		case "fp.isNaN":
			return c.BoolC(math.IsNaN(x))
		case "fp.isInfinite":
			return c.BoolC(math.IsInf(x, 0))
		case "fp.isNegative":
			return c.BoolC(math.Signbit(x))
		}
	}
	return c.mk(op, c.Bool, "", 0, a)
}

// F2B is the bit pattern of a float (uninterpreted, with to_fp(f2b(x)) = x); B2F interprets bits.
func (c *Ctx) F2B(a *Term) *Term {
	if a.Op == "fp" {
		u, _ := strconv.ParseUint(a.S, 10, 64)
		return c.BVC(u)
	}
	if a.Op == "b2f" {
		return a.Args[0]
	}
	if a.Op == "ite" {
		return c.Ite(a.Args[0], c.F2B(a.Args[1]), c.F2B(a.Args[2]))
	}
	t := c.mk("app", c.BV, "f2b", 0, a)
	if len(t.Facts) == 0 {
		t.Facts = append(t.Facts, c.Eq(c.mk("b2f", c.FP, "", 0, t), a))
	}
	return t
}
func (c *Ctx) B2F(a *Term) *Term {
	if a.Op == "bv" {
		return c.FPC(math.Float64frombits(a.bvVal()))
	}
	if a.Op == "app" && a.S == "f2b" {
		return a.Args[0]
	}
	if a.Op == "ite" {
		return c.Ite(a.Args[0], c.B2F(a.Args[1]), c.B2F(a.Args[2]))
	}
	return c.mk("b2f", c.FP, "", 0, a)
}
func (c *Ctx) BV2FP(a *Term, signed bool) *Term {
	if a.Op == "bv" {
		if signed {
			return c.FPC(float64(int64(a.bvVal())))
		}
		return c.FPC(float64(a.bvVal()))
	}
	if signed {
		return c.mk("s2fp", c.FP, "", 0, a)
	}
	return c.mk("u2fp", c.FP, "", 0, a)
}
func (c *Ctx) FP2BV(a *Term, signed bool) *Term {
	if a.Op == "fp" {
		if x := a.fpVal(); signed && math.Abs(x) < 1<<62 {
			return c.BVC(uint64(int64(x)))
		} else if !signed && x >= 0 && x < 1<<62 {
			return c.BVC(uint64(x))
		}
	}
	if signed {
		return c.mk("fp2s", c.BV, "", 0, a)
	}
	return c.mk("fp2u", c.BV, "", 0, a)
}

// ---- strings
func (c *Ctx) StrLen(a *Term) *Term {
	if a.Op == "str" {
		return c.IntC(int64(len(a.S)))
	}
	if a.Op == "str.++" {
		r := c.IntC(0)
		for _, x := range a.Args {
			r = c.Add(r, c.StrLen(x))
		}
		return r
	}
	if a.Op == "ite" {
		return c.Ite(a.Args[0], c.StrLen(a.Args[1]), c.StrLen(a.Args[2]))
	}
	return c.mk("str.len", c.Int, "", 0, a)
}
func (c *Ctx) Concat(a, b *Term) *Term {
	if a.Op == "str" && a.S == "" {
		return b
	}
	if b.Op == "str" && b.S == "" {
		return a
	}
	if a.Op == "str" && b.Op == "str" {
		return c.StrC(a.S + b.S)
	}
	return c.mk("str.++", c.Str, "", 0, a, b)
}
func (c *Ctx) Substr(s, off, n *Term) *Term {
	if s.Op == "str" && off.Op == "int" && n.Op == "int" {
		o, l := off.I.Int64(), n.I.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(s.S)) {
			return c.StrC(s.S[o : o+l])
		}
	}
	if off.Op == "int" && off.I.Sign() == 0 && n.Op == "str.len" && n.Args[0] == s {
		return s
	}
	return c.mk("str.substr", c.Str, "", 0, s, off, n)
}

// ---- rendering
func esc(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		b := s[i]
		if b == '"' {
			sb.WriteString(`""`)
		} else if b >= 32 && b < 127 && b != '\\' {
			sb.WriteByte(b)
		} else {
			fmt.Fprintf(&sb, "\\u{%x}", b)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func symName(s string) string { return "|" + strings.ReplaceAll(s, "|", "_") + "|" }

type printer struct {
	c       *Ctx
	out     *strings.Builder
	lets    map[int]string
	decl    map[string]string
	sorts   map[string]bool
	sortsO  []string
	tups    map[string]bool
	tupO    []*Sort
	facts   map[int]bool
	factL   []*Term
	visited map[int]bool
	order   []*Term
	refs    map[int]int
}

func (p *printer) visitSort(s *Sort) {
	switch s.Kind {
	case SArr:
		p.visitSort(s.K)
		p.visitSort(s.V)
	case SUn:
		if !p.sorts[s.Name] {
			p.sorts[s.Name] = true
			p.sortsO = append(p.sortsO, s.Name)
		}
	case STup:
		if !p.tups[s.Name] {
			p.tups[s.Name] = true
			for _, e := range s.Elems {
				p.visitSort(e)
			}
			p.tupO = append(p.tupO, s)
		}
	}
}

func (p *printer) visit(t *Term) {
	p.refs[t.ID]++
	if p.visited[t.ID] {
		return
	}
	p.visited[t.ID] = true
	p.visitSort(t.Sort)
	for _, a := range t.Args {
		p.visit(a)
	}
	switch t.Op {
	case "var":
		p.decl[t.S] = fmt.Sprintf("(declare-const %s %s)", symName(t.S), sortName(t.Sort))
	case "app":
		var as []string
		for _, a := range t.Args {
			as = append(as, sortName(a.Sort))
		}
		p.decl["app:"+t.S] = fmt.Sprintf("(declare-fun %s (%s) %s)", symName(t.S), strings.Join(as, " "), sortName(t.Sort))
	case "fld", "elem", "idx", "glob", "cast":
		nm, as := addrFn(t)
		p.decl["app:"+nm] = fmt.Sprintf("(declare-fun %s (%s) Int)", symName(nm), strings.TrimSpace(strings.Repeat("Int ", as)))
	}
	p.order = append(p.order, t)
	if t.factsOf != nil && !t.haswq {
		p.visit(t.factsOf)
		p.refs[t.factsOf.ID]--
	}
	for _, f := range t.Facts {
		if !p.facts[f.ID] && !f.haswq {
			p.facts[f.ID] = true
			p.factL = append(p.factL, f)
			p.visit(f)
		}
	}
}

func addrFn(t *Term) (string, int) {
	return fmt.Sprintf("addr:%s:%s:%d", t.Op, t.S, t.N), len(t.Args)
}

func sortName(s *Sort) string {
	switch s.Kind {
	case SUn, STup:
		return symName(s.Name)
	case SArr:
		return "(Array " + sortName(s.K) + " " + sortName(s.V) + ")"
	}
	return s.Name
}

func (p *printer) head(t *Term) string {
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		if t.I.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.I).String() + ")"
		}
		return t.I.String()
	case "bv":
		return "(_ bv" + t.S + " 64)"
	case "fp":
		f := t.fpVal()
		if math.IsNaN(f) {
			return "(_ NaN 11 53)"
		}
		u, _ := strconv.ParseUint(t.S, 10, 64)
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", u)
	case "str":
		return esc(t.S)
	case "var":
		return symName(t.S)
	}
	return ""
}

func (p *printer) ref(t *Term) string {
	if n, ok := p.lets[t.ID]; ok {
		return n
	}
	return p.expr(t)
}

func (p *printer) expr(t *Term) string {
	if h := p.head(t); h != "" {
		return h
	}
	var op string
	switch t.Op {
	case "app":
		op = symName(t.S)
		if len(t.Args) == 0 {
			return op
		}
	case "fld", "elem", "idx", "glob", "cast":
		nm, n := addrFn(t)
		op = symName(nm)
		if n == 0 {
			return op
		}
	case "mk":
		op = symName("mk:" + t.Sort.Name)
		if len(t.Args) == 0 {
			return op
		}
	case "sel":
		op = symName(fmt.Sprintf("sel:%s:%d", t.Args[0].Sort.Name, t.N))
	case "fp.add", "fp.sub", "fp.mul", "fp.div":
		op = t.Op + " RNE"
	case "b2f":
		op = "(_ to_fp 11 53)"
	case "s2fp":
		op = "(_ to_fp 11 53) RNE"
	case "u2fp":
		op = "(_ to_fp_unsigned 11 53) RNE"
	case "fp2s":
		op = "(_ fp.to_sbv 64) RTZ"
	case "fp2u":
		op = "(_ fp.to_ubv 64) RTZ"
	case "int2bv":
		op = "(_ int2bv 64)"
	case "constarr":
		op = "(as const " + sortName(t.Sort) + ")"
	case "copyrow":
		a := func(i int) string { return p.ref(t.Args[i]) }
		return fmt.Sprintf("(lambda ((i! Int)) (ite (and (<= %s i!) (< i! (+ %s %s))) (select %s (+ (- i! %s) %s)) (select %s i!)))",
			a(1), a(1), a(4), a(2), a(1), a(3), a(0))
	case "region":
		return fmt.Sprintf("(lambda ((i! Int)) (ite (<= %s i!) (select %s i!) (select %s i!)))", p.ref(t.Args[2]), p.ref(t.Args[0]), p.ref(t.Args[1]))
	case "forall":
		return "(forall ((" + symName(t.Args[0].S) + " " + sortName(t.Args[0].Sort) + ")) " + p.inline(t.Args[1]) + ")"
	default:
		op = t.Op
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		if t.haswq {
			sb.WriteString(p.inline(a))
		} else {
			sb.WriteString(p.ref(a))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
func (p *printer) inline(t *Term) string {
	if !t.haswq {
		return p.ref(t)
	}
	return p.expr(t)
}

// Forall over a bound variable term (created by BoundVar).
func (c *Ctx) BoundVar(prefix string, s *Sort) *Term {
	v := c.Fresh("q_"+prefix, s)
	v.haswq = true
	return v
}
func (c *Ctx) Forall(v, body *Term) *Term {
	if body.IsLit() {
		return body
	}
	if !body.haswq {
		return body
	}
	t := c.mk("forall", c.Bool, "", 0, v, body)
	t.haswq = false
	return t
}

// Render builds a query asserting all given terms.
func (c *Ctx) Render(asserts []*Term, values []*Term) string {
	p := &printer{c: c, out: &strings.Builder{}, lets: map[int]string{}, decl: map[string]string{}, sorts: map[string]bool{},
		tups: map[string]bool{}, facts: map[int]bool{}, visited: map[int]bool{}, refs: map[int]int{}}
	for _, a := range asserts {
		p.visit(a)
	}
	for _, a := range values {
		p.visit(a)
	}
	var sb strings.Builder
	for _, s := range p.sortsO {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", symName(s))
	}
	for _, s := range p.tupO {
		fmt.Fprintf(&sb, "(declare-datatype %s ((%s", symName(s.Name), symName("mk:"+s.Name))
		for i, e := range s.Elems {
			fmt.Fprintf(&sb, " (%s %s)", symName(fmt.Sprintf("sel:%s:%d", s.Name, i)), sortName(e))
		}
		sb.WriteString(")))\n")
	}
	var ds []string
	for k := range p.decl {
		ds = append(ds, k)
	}
	sort.Strings(ds)
	for _, k := range ds {
		if strings.Contains(k, "q_") && strings.Contains(p.decl[k], "declare-const |q_") {
			continue
		}
		sb.WriteString(p.decl[k])
		sb.WriteByte('\n')
	}
	for _, t := range p.order {
		if p.refs[t.ID] > 1 && len(t.Args) > 0 && !t.haswq {
			n := fmt.Sprintf("t!%d", t.ID)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, sortName(t.Sort), p.expr(t))
			p.lets[t.ID] = n
		}
	}
	for _, f := range p.factL {
		fmt.Fprintf(&sb, "(assert %s)\n", p.ref(f))
	}
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", p.ref(a))
	}
	sb.WriteString("(check-sat)\n")
	if len(values) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range values {
			sb.WriteString(p.ref(v))
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func (t *Term) String() string {
	switch t.Op {
	case "var":
		return t.S
	case "int":
		return t.I.String()
	case "bv":
		return "bv" + t.S
	case "fp":
		return fmt.Sprint(t.fpVal())
	case "str":
		return strconv.Quote(t.S)
	case "true", "false":
		return t.Op
	}
	if t.depth > 12 {
		return fmt.Sprintf("%s#%d(...)", t.Op, t.ID)
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.String())
	}
	pl := t.S
	if t.Op == "sel" {
		pl = strconv.Itoa(t.N)
	}
	if t.Op == "mk" {
		pl = ""
	}
	if pl != "" {
		pl = ":" + pl
	}
	return t.Op + pl + "(" + strings.Join(as, ",") + ")"
}

// Contains reports whether t mentions any of the given variables.
func (t *Term) mentions(vars map[int]bool, memo map[int]bool) bool {
	if vars[t.ID] {
		return true
	}
	if v, ok := memo[t.ID]; ok {
		return v
	}
	r := false
	for _, a := range t.Args {
		if a.mentions(vars, memo) {
			r = true
			break
		}
	}
	memo[t.ID] = r
	return r
}
