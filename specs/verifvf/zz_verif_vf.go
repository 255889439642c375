// Package verifvf is the specification vocabulary. The verifier interprets these functions
// symbolically; the bodies below are used only when a counterexample is replayed natively.
package verifvf

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	"go.opentelemetry.io/otel/attribute"
)

// Symbolic is true under the verifier and false natively.
func Symbolic() bool { return false }

// Any is an arbitrary value.
func Any[T any](name string) T {
	var v T
	fill(name, "any", reflect.ValueOf(&v).Elem(), "")
	return v
}

// AnyPtr points to a pre-existing object with arbitrary contents.
func AnyPtr[T any](name string) *T {
	v := new(T)
	fill(name, "ptr", reflect.ValueOf(v).Elem(), "")
	return v
}

// AnySlice is a slice of length n with arbitrary contents.
func AnySlice[T any](name string, n int) []T {
	if n < 0 {
		panic(skip{})
	}
	if n > 64 {
		n = 64
	}
	v := make([]T, n)
	m := nextModel(name, "slice")
	for i := range v {
		fillM(m, reflect.ValueOf(&v[i]).Elem(), fmt.Sprintf("[%d]", i))
	}
	return v
}

// AnyMap is a map with arbitrary contents.
func AnyMap[K comparable, V any](name string) map[K]V {
	nextModel(name, "map")
	v := map[K]V{}
	for i := run.rnd.Intn(3); i > 0; i-- {
		var k K
		var x V
		fillM(nil, reflect.ValueOf(&k).Elem(), "")
		fillM(nil, reflect.ValueOf(&x).Elem(), "")
		v[k] = x
	}
	return v
}

// Choose is one of 0..n-1; every value is considered.
func Choose(name string, n int) int {
	if m := nextModel(name, "any"); m != nil {
		if s, ok := m.Vals[""]; ok {
			i, _ := strconv.Atoi(strings.TrimPrefix(s, "i:"))
			if i >= 0 && i < n {
				run.log(name, i)
				return i
			}
		}
	}
	i := run.rnd.Intn(n)
	run.log(name, i)
	return i
}

// Pick is an arbitrary index below n.
func Pick(name string, n int) int {
	if m := nextModel(name, "any"); m != nil {
		if s, ok := m.Vals[""]; ok {
			i, _ := strconv.Atoi(strings.TrimPrefix(s, "i:"))
			if i >= 0 && i < n {
				run.log(name, i)
				return i
			}
		}
	}
	if n <= 0 {
		panic(skip{})
	}
	i := run.rnd.Intn(n)
	run.log(name, i)
	return i
}

// Len is an arbitrary length (no bound under the verifier).
func Len(name string) int {
	if m := nextModel(name, "any"); m != nil {
		if s, ok := m.Vals[""]; ok {
			i, _ := strconv.Atoi(strings.TrimPrefix(s, "i:"))
			if i >= 0 && i < 64 {
				run.log(name, i)
				return i
			}
		}
	}
	i := run.rnd.Intn(6)
	run.log(name, i)
	return i
}

// AnyKVs is a list of n arbitrary attributes.
func AnyKVs(name string, n int) []attribute.KeyValue {
	if Symbolic() {
		return AnySlice[attribute.KeyValue](name, n)
	}
	nextModel(name, "slice")
	kvs := make([]attribute.KeyValue, n)
	for i := range kvs {
		kvs[i] = nativeKV()
	}
	run.log(name, kvs)
	return kvs
}

// AnyKV is an arbitrary attribute.
func AnyKV(name string) attribute.KeyValue {
	if Symbolic() {
		return Any[attribute.KeyValue](name)
	}
	nextModel(name, "any")
	kv := nativeKV()
	run.log(name, kv)
	return kv
}

// AnySet is an arbitrary attribute set.
func AnySet(name string) attribute.Set {
	if Symbolic() {
		return Any[attribute.Set](name)
	}
	nextModel(name, "any")
	var kvs []attribute.KeyValue
	for i := run.rnd.Intn(4); i > 0; i-- {
		kvs = append(kvs, nativeKV())
	}
	s := attribute.NewSet(kvs...)
	run.log(name, s.Encoded(attribute.DefaultEncoder()))
	return s
}

// SetHas says that the set contains exactly this attribute; SetPos is its position.
func SetHas(s attribute.Set, kv attribute.KeyValue) bool {
	v, ok := s.Value(kv.Key)
	return ok && v == kv.Value
}

func SetPos(s attribute.Set, kv attribute.KeyValue) int {
	for i := 0; i < s.Len(); i++ {
		if x, _ := s.Get(i); x.Key == kv.Key {
			return i
		}
	}
	return -1
}

func nativeKV() attribute.KeyValue {
	k := attribute.Key(words[run.rnd.Intn(len(words))])
	s := func() string { return words[run.rnd.Intn(len(words))] }
	n := run.rnd.Intn(4)
	switch run.rnd.Intn(9) {
	case 0:
		return k.Bool(run.rnd.Intn(2) == 0)
	case 1:
		return k.Int64(run.rnd.Int63n(5) - 2)
	case 2:
		return k.Float64(float64(run.rnd.Intn(5)) / 2)
	case 3:
		x := make([]bool, n)
		for i := range x {
			x[i] = run.rnd.Intn(2) == 0
		}
		return k.BoolSlice(x)
	case 4:
		x := make([]int64, n)
		for i := range x {
			x[i] = run.rnd.Int63n(3)
		}
		return k.Int64Slice(x)
	case 5:
		x := make([]float64, n)
		for i := range x {
			x[i] = float64(run.rnd.Intn(3))
		}
		return k.Float64Slice(x)
	case 6:
		x := make([]string, n)
		for i := range x {
			x[i] = s()
		}
		return k.StringSlice(x)
	}
	return k.String(s())
}

func Assume(c bool) {
	if !c {
		panic(skip{})
	}
}

func Ensure(c bool, label string) {
	if !c {
		panic(failed(label))
	}
}

// Same is identity of values (bit identity for floats).
func Same[T any](a, b T) bool { return same(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem(), 0) }

func Implies(a, b bool) bool { return !a || b }
func Ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// Shared declares a location that other goroutines change (to values satisfying rely) before any
// of our atomic operations on it; onWrite is called for each of our own writes.
func Shared[T any](p *T, rely func(T) bool, onWrite func(old, new T)) {}

// OnLock declares what holds when a lock is taken and what must be re-established on release.
func OnLock(lock any, acquired, releasing func()) {}

// Guard declares that *p is only accessed with the lock held (exclusively for writes).
func Guard[T any](lock any, p *T, label string) {}

func Held(lock any) bool          { return true }
func HeldExclusive(lock any) bool { return true }
func LocksHeld() int              { return 0 }

// LoopInv offers an invariant for loops executed from here on: func(k int, vars...) bool.
func LoopInv(f any) {}

// Track makes a map key an explicit instance of "every key" in iterations.
func Track[T any](k T) {}

// Visited says whether the most recent map iteration has produced the key.
func Visited[T any](k T) bool { return false }

func Havoc[T any](p *T)                            {}
func HavocMap[K comparable, V any](m map[K]V)      {}
func Fresh[T any](p *T) bool                       { return p != nil }
func FreshSlice[T any](s []T) bool                 { return cap(s) > 0 }
func SameArray[T any](a, b []T) bool {
	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
}

// All is universal quantification over 0..n-1.
func All(n int, f func(int) bool) bool {
	for i := 0; i < n; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Bounded labels a contract whose proof covers only a stated bound.
func Bounded(label string) {}

// Coarse restricts map orders and slice capacities to two policies.
func Coarse() {}

// Unroll explores loops iteration by iteration up to n before abstracting them.
func Unroll(n int) {}

// Tier is a bound for the quick and for the thorough check.
func Tier(quick, thorough int) int { return thorough }

// Par runs the functions concurrently, together with the goroutines started so far, and returns
// when they have returned; the verifier explores every schedule with at most the given number of
// preemptions and checks that unsynchronised accesses never conflict.
func Par(preemptions int, fs ...func()) {
	ch := make(chan any, len(fs))
	for _, f := range fs {
		go func(f func()) {
			defer func() { ch <- recover() }()
			f()
		}(f)
	}
	var bad any
	for range fs {
		if e := <-ch; e != nil && bad == nil {
			bad = e
		}
	}
	if bad != nil {
		panic(bad)
	}
}

// Yield is a point where the scheduler may switch.
func Yield() {
	switch yrnd.Add(1) * 2654435761 >> 7 % 4 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(50 * time.Microsecond)
	}
}

// Atomic runs a piece of specification without interruption by other threads.
func Atomic(f func()) {
	amu.Lock()
	defer amu.Unlock()
	f()
}

var (
	yrnd atomic.Uint64
	amu  sync.Mutex
)

// RunSpawned runs the goroutines started so far to completion, one after the other.
func RunSpawned()  { time.Sleep(50 * time.Millisecond) }
func Spawned() int { return 0 }

// Pure is an unknown deterministic function of its argument.
func Pure[T, R any](name string, x T) R {
	var r R
	return r
}

// Eval evaluates a specification without branching the verification.
func Eval(f func() bool) bool { return f() }

// ---- native replay
type skip struct{}
type failed string

type anyVal struct {
	Name string            `json:"name"`
	Kind string            `json:"kind"`
	Vals map[string]string `json:"vals"`
}

type runState struct {
	rnd    *rand.Rand
	model  []anyVal
	pos    int
	inputs []string
}

func (r *runState) log(n string, v interface{}) {
	if len(r.inputs) < 60 {
		r.inputs = append(r.inputs, fmt.Sprintf("%s=%#v", n, v))
	}
}

var run = &runState{rnd: rand.New(rand.NewSource(1))}

func nextModel(name, kind string) *anyVal {
	if run.pos < len(run.model) && run.model[run.pos].Name == name {
		m := &run.model[run.pos]
		run.pos++
		return m
	}
	return nil
}

func fill(name, kind string, v reflect.Value, path string) {
	fillM(nextModel(name, kind), v, path)
	func() {
		defer func() { recover() }()
		run.log(name, v.Interface())
	}()
}

func rw(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

var words = []string{"", "a", "b", "A", "ab", "host", "service.name", "x.y", "0123456789abcdef", "true"}
var floats = []float64{0, 1, -1, 0.5, 2, 3, -2.5, 1e300, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 7, 100}

func fillM(m *anyVal, v reflect.Value, path string) {
	v = rw(v)
	var s string
	ok := false
	if m != nil {
		s, ok = m.Vals[path]
	}
	switch v.Kind() {
	case reflect.Bool:
		if ok {
			v.SetBool(s == "b:true")
		} else {
			v.SetBool(run.rnd.Intn(2) == 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if ok {
			i, _ := strconv.ParseInt(strings.TrimPrefix(s, "i:"), 10, 64)
			v.SetInt(i)
		} else {
			cs := []int64{0, 1, -1, 2, 3, 5, 10, -7, 100, math.MaxInt64, math.MinInt64, run.rnd.Int63n(1000)}
			v.SetInt(cs[run.rnd.Intn(len(cs))])
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if ok {
			t := strings.TrimPrefix(s, "i:")
			i, err := strconv.ParseUint(t, 10, 64)
			if err != nil {
				j, _ := strconv.ParseInt(t, 10, 64)
				i = uint64(j)
			}
			v.SetUint(i)
		} else {
			cs := []uint64{0, 1, 2, 3, 5, 10, 100, math.MaxUint64, run.rnd.Uint64() % 1000, run.rnd.Uint64()}
			v.SetUint(cs[run.rnd.Intn(len(cs))])
		}
	case reflect.Float64, reflect.Float32:
		if ok {
			u, _ := strconv.ParseUint(strings.TrimPrefix(s, "f:"), 10, 64)
			v.SetFloat(math.Float64frombits(u))
		} else {
			v.SetFloat(floats[run.rnd.Intn(len(floats))])
		}
	case reflect.String:
		if ok {
			v.SetString(strings.TrimPrefix(s, "s:"))
		} else {
			v.SetString(words[run.rnd.Intn(len(words))])
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			if n == "_" {
				n = fmt.Sprintf("_%d", i)
			}
			fillM(m, v.Field(i), path+"."+n)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillM(m, v.Index(i), fmt.Sprintf("%s[%d]", path, i))
		}
	}
}

func same(a, b reflect.Value, d int) bool {
	if d > 20 {
		return true
	}
	a, b = ro(a), ro(b)
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float64, reflect.Float32:
		x, y := a.Float(), b.Float()
		return math.Float64bits(x) == math.Float64bits(y) || math.IsNaN(x) && math.IsNaN(y)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Slice:
		return a.Len() == b.Len() && a.Pointer() == b.Pointer()
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Func:
		return a.IsNil() == b.IsNil()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		x, y := a.Elem(), b.Elem()
		if x.Type() != y.Type() {
			return false
		}
		if x.Type().Comparable() {
			return x.Interface() == y.Interface()
		}
		return true
	}
	if a.CanInterface() && b.CanInterface() {
		return a.Interface() == b.Interface()
	}
	return reflect.DeepEqual(a, b)
}

func ro(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

type NativeHarness struct {
	Name string
	Fn   func()
}

type nativeFail struct {
	Harness string `json:"harness"`
	Label   string `json:"label"`
	Seed    int64  `json:"seed"`
	Inputs  string `json:"inputs"`
	Source  string `json:"source"`
}

// RunNative runs harnesses on the verifier's counterexamples, then on generated inputs.
func RunNative(t *testing.T, hs []NativeHarness) {
	models := map[string][][]anyVal{}
	if b, err := os.ReadFile(os.Getenv("VF_MODELS")); err == nil {
		json.Unmarshal(b, &models)
	}
	iters, _ := strconv.Atoi(os.Getenv("VF_ITERS"))
	seed0, _ := strconv.ParseInt(os.Getenv("VF_SEED"), 10, 64)
	out, err := os.OpenFile(os.Getenv("VF_OUT"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	for _, h := range hs {
		one := func(r *runState) (label string, bad bool) {
			run = r
			type res struct {
				l string
				b bool
			}
			ch := make(chan res, 1)
			go func() {
				defer func() {
					if e := recover(); e != nil {
						switch e := e.(type) {
						case skip:
							ch <- res{"skip", false}
						case failed:
							ch <- res{string(e), true}
						default:
							ch <- res{fmt.Sprint("panic: ", e), true}
						}
					}
				}()
				h.Fn()
				ch <- res{"", false}
			}()
			select {
			case x := <-ch:
				return x.l, x.b
			case <-time.After(20 * time.Second):
				return "does not terminate", true
			}
		}
		emit := func(label string, seed int64, src string) {
			b, _ := json.Marshal(nativeFail{h.Name, label, seed, strings.Join(run.inputs, " "), src})
			out.Write(append(b, '\n'))
			t.Errorf("%s: %s", h.Name, label)
		}
		found := false
		for i, m := range models[h.Name] {
			l, bad := one(&runState{rnd: rand.New(rand.NewSource(int64(i) + seed0)), model: m})
			if bad {
				emit(l, int64(i), "counterexample from the verifier")
				found = true
				break
			}
		}
		if found {
			continue
		}
		t0 := time.Now()
		ran := 0
		for i := 0; i < iters && time.Since(t0) < 15*time.Second; i++ {
			sd := seed0*1000003 + int64(i)
			l, bad := one(&runState{rnd: rand.New(rand.NewSource(sd))})
			if bad {
				emit(l, sd, "generated input")
				found = true
				break
			}
			if l == "" {
				ran++
			}
		}
		if !found {
			t.Logf("%s: %d runs completed without failure", h.Name, ran)
			if os.Getenv("VF_VERBOSE") != "" {
				fmt.Printf("%s: %d runs completed\n", h.Name, ran)
			}
		}
	}
}
