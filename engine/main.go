package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	fset        *token.FileSet
	repo        string
	specs       string
	solver      *Solver
	feasTimeout time.Duration
	qtimeout    time.Duration
	thorough    bool
	mu          sync.Mutex
	prog        *ssa.Program
	models      map[string]*ssa.Function
	contracts   map[string]*ssa.Function
	stubs       map[string]map[string]*ssa.Function
	loopCache   sync.Map
	pkgs        map[string]*packages.Package
	ssaPkgs     map[string]*ssa.Package
	mutGlob     map[string]bool
	harnesses   []*Harness
	broken      []brokenSpec
	overlay     map[string]string // repo path -> spec path
}

type brokenSpec struct {
	File  string
	Props []string
	Errs  []string
}

type Harness struct {
	Name    string
	Props   []string
	Fn      *ssa.Function
	Pkg     string
	File    string
	Use     []string
	Timeout time.Duration
	Doc     string
	Unroll  int
}

const modPath = "github.com/lightstep/otel-launcher-go"

var depSources = []string{
	"slices", "maps", "cmp", "iter", "sort", "math/bits", // the standard library's generic helpers
	"go.opentelemetry.io/otel/attribute",
	"go.opentelemetry.io/collector/pdata/pmetric",
	"go.opentelemetry.io/collector/pdata/ptrace",
	"go.opentelemetry.io/collector/pdata/pcommon",
	"go.opentelemetry.io/collector/pdata/internal",
	"go.opentelemetry.io/collector/pdata/internal/data",
	"go.opentelemetry.io/collector/pdata/internal/data/protogen/metrics/v1",
	"go.opentelemetry.io/collector/pdata/internal/data/protogen/trace/v1",
	"go.opentelemetry.io/collector/pdata/internal/data/protogen/common/v1",
	"go.opentelemetry.io/collector/pdata/internal/data/protogen/resource/v1",
	"go.opentelemetry.io/otel/sdk/instrumentation",
	"go.opentelemetry.io/otel/sdk/resource",
	"go.opentelemetry.io/otel/internal",
	"go.opentelemetry.io/otel/semconv/v1.4.0",
	"go.opentelemetry.io/otel/trace",
	"runtime/metrics",
	"go.opentelemetry.io/otel/metric",
	"go.opentelemetry.io/otel/metric/noop",
	"go.opentelemetry.io/otel/metric/embedded",
	"github.com/lightstep/go-expohisto/structure",
	"github.com/lightstep/go-expohisto/mapping",
	"github.com/lightstep/go-expohisto/mapping/logarithm",
	"github.com/lightstep/go-expohisto/mapping/exponent",
	"github.com/lightstep/go-expohisto/mapping/internal",
}

// inlinable: the body is interpreted.
func (E *Engine) inlinable(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	var path string
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	} else {
		return true // synthetic wrappers
	}
	if strings.HasPrefix(path, modPath) {
		return true
	}
	if noInline[f.String()] {
		return false
	}
	for _, d := range depSources {
		if d == path {
			return true
		}
	}
	return false
}

var noInline = map[string]bool{
	"go.opentelemetry.io/otel/sdk/resource.Default":      true,
	"go.opentelemetry.io/otel/sdk/resource.Environment":  true,
	"(go.opentelemetry.io/otel/trace.TraceState).String": true,
	"(go.opentelemetry.io/otel/trace.TraceID).String":    true,
	"(go.opentelemetry.io/otel/trace.SpanID).String":     true,
}

func specFiles(dir string) (map[string][]string, error) {
	out := map[string][]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(dir, filepath.Dir(p))
			out[rel] = append(out[rel], p)
		}
		return nil
	})
	return out, err
}

func (E *Engine) load(drop map[string]bool, want func(string) bool) error {
	E.fset = token.NewFileSet()
	sf, err := specFiles(E.specs)
	if err != nil {
		return err
	}
	overlay := map[string][]byte{}
	E.overlay = map[string]string{}
	patterns := map[string]bool{}
	for rel, fs := range sf {
		target := rel
		if rel == "verifvf" {
			target = "internal/verifvf"
		}
		for _, f := range fs {
			if drop[f] {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			dst := filepath.Join(E.repo, target, filepath.Base(f))
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			overlay[dst] = b
			E.overlay[dst] = f
		}
		patterns["./"+target] = true
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir: E.repo, Fset: E.fset, Overlay: overlay,
	}
	pats := []string{"./..."}
	for p := range patterns {
		pats = append(pats, p)
	}
	pats = append(pats, depSources...)
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	var errs []string
	byFile := map[string][]string{}
	E.pkgs = map[string]*packages.Package{}
	var good []*packages.Package
	for _, p := range ps {
		E.pkgs[p.PkgPath] = p
		for _, e := range p.Errors {
			pos := e.Pos
			hit := false
			for dst, src := range E.overlay {
				if strings.HasPrefix(pos, dst+":") || strings.HasPrefix(pos, src+":") {
					byFile[src] = append(byFile[src], e.Error())
					hit = true
				}
			}
			if !hit {
				errs = append(errs, p.PkgPath+": "+e.Error())
			}
		}
		if p.Types != nil {
			good = append(good, p)
		}
	}
	if len(byFile) > 0 {
		nd := map[string]bool{}
		for k := range drop {
			nd[k] = true
		}
		for f, es := range byFile {
			nd[f] = true
			b := brokenSpec{File: f, Errs: es}
			src, _ := os.ReadFile(f)
			seen := map[string]bool{}
			for _, h := range scanHarness(string(src)) {
				for _, pr := range h.Props {
					if !seen[pr] {
						seen[pr] = true
						b.Props = append(b.Props, pr)
					}
				}
			}
			E.broken = append(E.broken, b)
		}
		return E.load(nd, want)
	}
	if len(errs) > 0 {
		return fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(good, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	E.prog = prog
	E.ssaPkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		E.ssaPkgs[p.Pkg.Path()] = p
	}
	E.collect()
	E.scanGlobals()
	return nil
}

var (
	reHarness = regexp.MustCompile(`(?m)^func (VF_(C\d\d)_\w+)\(`)
	reProps   = regexp.MustCompile(`//vf:props\s+(.*)`)
	reUse     = regexp.MustCompile(`//vf:use\s+(.*)`)
	reModel   = regexp.MustCompile(`//vf:model\s+(.*)`)
	reCont    = regexp.MustCompile(`//vf:contract\s+(.*)`)
	reStub    = regexp.MustCompile(`//vf:stub\s+(.*)`)
	reTimeout = regexp.MustCompile(`//vf:timeout\s+(\S+)`)
)

func scanHarness(src string) []*Harness {
	var out []*Harness
	lines := strings.Split(src, "\n")
	for i, l := range lines {
		m := reHarness.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		h := &Harness{Name: m[1], Props: []string{m[2]}}
		var doc []string
		for j := i - 1; j >= 0 && strings.HasPrefix(lines[j], "//"); j-- {
			if pm := reProps.FindStringSubmatch(lines[j]); pm != nil {
				h.Props = append(h.Props, strings.Fields(strings.ReplaceAll(pm[1], ",", " "))...)
			} else if um := reUse.FindStringSubmatch(lines[j]); um != nil {
				h.Use = append(h.Use, strings.Fields(um[1])...)
			} else if tm := reTimeout.FindStringSubmatch(lines[j]); tm != nil {
				h.Timeout, _ = time.ParseDuration(tm[1])
			} else {
				doc = append([]string{strings.TrimPrefix(lines[j], "// ")}, doc...)
			}
		}
		h.Doc = strings.Join(doc, " ")
		out = append(out, h)
	}
	return out
}

func (E *Engine) collect() {
	E.models = map[string]*ssa.Function{}
	E.contracts = map[string]*ssa.Function{}
	E.stubs = map[string]map[string]*ssa.Function{}
	for dst, src := range E.overlay {
		rel, _ := filepath.Rel(E.repo, filepath.Dir(dst))
		path := modPath + "/" + rel
		if rel == "." {
			path = modPath
		}
		sp := E.ssaPkgs[path]
		if sp == nil {
			continue
		}
		b, _ := os.ReadFile(src)
		for _, h := range scanHarness(string(b)) {
			h.Fn = sp.Func(h.Name)
			h.Pkg = path
			h.File = src
			if h.Fn != nil {
				E.harnesses = append(E.harnesses, h)
			}
		}
		p := E.pkgs[path]
		for _, f := range p.Syntax {
			if E.fset.Position(f.Pos()).Filename != dst {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, cm := range fd.Doc.List {
					if m := reModel.FindStringSubmatch(cm.Text); m != nil {
						E.models[strings.TrimSpace(m[1])] = sp.Func(fd.Name.Name)
					}
					if m := reStub.FindStringSubmatch(cm.Text); m != nil {
						if E.stubs[path] == nil {
							E.stubs[path] = map[string]*ssa.Function{}
						}
						E.stubs[path][strings.TrimSpace(m[1])] = sp.Func(fd.Name.Name)
					}
					if m := reCont.FindStringSubmatch(cm.Text); m != nil {
						E.contracts[strings.TrimSpace(m[1])] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	}
	sort.Slice(E.harnesses, func(i, j int) bool {
		a, b := E.harnesses[i], E.harnesses[j]
		if a.Name != b.Name {
			return a.Name < b.Name
		}
		return a.Pkg < b.Pkg
	})
}

// scanGlobals finds package variables that are written or escape outside initialisation.
func (E *Engine) scanGlobals() {
	E.mutGlob = map[string]bool{}
	for fn := range ssautil.AllFunctions(E.prog) {
		if fn.Name() == "init" && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for _, op := range ops {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Val == *op {
							E.mutGlob[globName(g)] = true
						} else {
							E.mutGlob[globName(g)] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					default:
						E.mutGlob[globName(g)] = true
					}
				}
			}
		}
	}
}

func (ex *Exec) havocGlob(key string) bool {
	if !strings.HasPrefix(key, "glob:") {
		return true
	}
	k := key[5:]
	for g := range ex.E.mutGlob {
		if k == g || strings.HasPrefix(k, g+".") {
			return true
		}
	}
	// globals of packages whose initialisation was not interpreted
	for p := range ex.E.ssaPkgs {
		_ = p
	}
	return !interpretedInit(k)
}

// interpretedInit: the package's variables have the values its initialisers give them.
func interpretedInit(path string) bool {
	for _, p := range []string{modPath, "github.com/lightstep/go-expohisto/", "go.opentelemetry.io/otel/semconv/", "go.opentelemetry.io/otel/trace."} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

func (E *Engine) newExec(h *Harness, budget time.Duration) *Exec {
	ex := &Exec{
		E: E, c: NewCtx(), name: h.Name,
		tkeys: map[types.Type]string{}, typeOf: map[string]types.Type{}, tids: map[string]int{}, sorts: map[types.Type]*Sort{},
		globT: map[string]types.Type{}, roots: map[int]rootInfo{}, mapRoots: map[int]rootInfo{}, keyInfo: map[string]keyInf{},
		mapKeyInfo: map[string]mapKeyInf{}, leafT: map[string]types.Type{}, fnIDs: map[*ssa.Function]int{}, failSeen: map[string]bool{},
		ensures: map[string]int{}, assumed: map[string]bool{}, funcs: map[string]int{}, bounded: map[string]bool{}, loops: map[string]string{},
		feasCache: map[string]bool{}, deadline: time.Now().Add(budget), qtimeout: E.qtimeout, extPure: map[string]bool{}, sliceBoxes: map[int]boxInfo{},
		contracts: map[string]*ssa.Function{}, contractsUsed: map[string]bool{}, stubs: map[*ssa.Function]string{}, maxPaths: 20000, unroll: 40, invCache: map[string]*Term{},
		trackRow: map[string][]*Term{}, chans: map[int]bool{}, syncShared: map[int]bool{}, maxSwitch: -1,
	}
	ex.c.onSelect = ex.onSelect
	for u, f := range E.stubs[h.Pkg] {
		ex.contracts[u] = f
		ex.stubs[f] = h.Pkg
	}
	for _, u := range h.Use {
		if f := E.contracts[u]; f != nil {
			ex.contracts[u] = f
		} else {
			panic(unsupported("no contract " + u))
		}
	}
	return ex
}

type HarnessResult struct {
	Name      string
	Pkg       string
	Doc       string
	Oblig     int
	Trivial   int
	Solved    int
	Paths     int
	Ensures   map[string]int
	Fails     []Failure
	Assumed   []string
	Funcs     []string
	Bounded   []string
	Loops     map[string]string
	Contracts []string
	Error     string
	Secs      float64
}

func keysOf(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (E *Engine) runHarness(h *Harness, budget time.Duration) (res *HarnessResult) {
	t0 := time.Now()
	res = &HarnessResult{Name: h.Name, Pkg: h.Pkg, Doc: h.Doc}
	if h.Timeout > 0 {
		budget = h.Timeout
	}
	var ex *Exec
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				res.Error = string(u)
			} else {
				res.Error = fmt.Sprint("engine: ", e)
				if os.Getenv("VF_PANIC") != "" {
					panic(e)
				}
			}
		}
		if ex != nil {
			res.Oblig, res.Trivial, res.Solved, res.Paths = ex.nOblig, ex.nTrivial, ex.nSolved, ex.paths
			res.Ensures, res.Fails, res.Loops = ex.ensures, ex.fails, ex.loops
			res.Assumed, res.Bounded, res.Contracts = keysOf(ex.assumed), keysOf(ex.bounded), keysOf(ex.contractsUsed)
			for f := range ex.funcs {
				if strings.HasPrefix(f, modPath) || strings.Contains(f, "("+modPath) || strings.Contains(f, "(*"+modPath) {
					if !strings.Contains(f, ".VF_") && !strings.Contains(f, ".vf") && !strings.Contains(f, "/verifvf") {
						res.Funcs = append(res.Funcs, f)
					}
				}
			}
			sort.Strings(res.Funcs)
		}
		res.Secs = time.Since(t0).Seconds()
	}()
	ex = E.newExec(h, budget)
	c := ex.c
	st := &State{known: map[int]bool{}, mem: map[string]*Term{}, mark: c.IntC(0), iters: map[int]*iterSt{}, posObj: 0}
	// package initialisation
	ex.globInit = true
	ex.discovery++
	if err := ex.runInits(st, h.Pkg); err != "" {
		res.Assumed = append(res.Assumed, "package variables arbitrary: "+err)
	}
	ex.discovery--
	ex.globInit = false
	ex.paths = 0
	ex.funcs = map[string]int{}
	ex.assumed = map[string]bool{}
	// forget variables that may be reassigned
	for k := range st.mem {
		if strings.HasPrefix(k, "glob:") && ex.havocGlob(k) {
			delete(st.mem, k)
		}
	}
	ex.startMark = st.mark
	st.steps = 0
	st0 := st
	ends := ex.runPasses(st0, h.Fn)
	for _, e := range ends {
		if len(e.locks) > 0 {
			ex.fails = append(ex.fails, Failure{Kind: "locks", Msg: "a lock is still held when the harness ends", Fn: h.Name})
			break
		}
	}
	if ex.paths == 0 {
		res.Error = "vacuous: no path completes"
	} else if len(ex.ensures) == 0 {
		res.Error = "vacuous: no postcondition reached"
	}
	return res
}

// runInits interprets the initialisers of the package and the repository packages it imports.
func (ex *Exec) runInits(st *State, path string) (msg string) {
	seen := map[string]bool{}
	var order []*ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] || !interpretedInit(p.Path()) {
			return
		}
		seen[p.Path()] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if sp := ex.E.ssaPkgs[p.Path()]; sp != nil && p.Path() != vfPath {
			order = append(order, sp)
		}
	}
	visit(ex.E.ssaPkgs[path].Pkg)
	for _, sp := range order {
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if u, ok := e.(unsupported); ok {
						msg += sp.Pkg.Path() + ": " + string(u) + "; "
						st.frames = nil
						st.dead = false
						return
					}
					panic(e)
				}
			}()
			s := st.clone()
			ex.push(s, fn, nil, nil, nil, nil)
			ends := ex.run([]*State{s}, nil)
			if len(ends) != 1 {
				panic(unsupported(fmt.Sprintf("initialiser has %d outcomes", len(ends))))
			}
			*st = *ends[0]
		}()
	}
	return
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "property to check")
	only := flag.String("only", "", "regexp of harness names")
	tier := flag.String("tier", "quick", "")
	list := flag.Bool("list", false, "list harnesses")
	nonative := flag.Bool("nonative", false, "")
	native := flag.Bool("native", false, "run the harnesses natively only")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	t0 := time.Now()
	E := &Engine{repo: *repo, specs: filepath.Join(*verif, "specs"), solver: NewSolver(8), feasTimeout: 1500 * time.Millisecond, qtimeout: 10 * time.Second}
	budget := 240 * time.Second
	if *tier == "thorough" {
		E.qtimeout = 30 * time.Second
		E.thorough = true
		budget = 900 * time.Second
	}
	defer E.solver.Close()
	err := E.load(map[string]bool{}, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		if *prop == "" {
			os.Exit(2)
		}
	}
	loadS := time.Since(t0).Seconds()
	if *list {
		for _, h := range E.harnesses {
			fmt.Println(h.Name, h.Props, strings.TrimPrefix(h.Pkg, modPath))
		}
		for _, b := range E.broken {
			fmt.Println("BROKEN", b.File, b.Errs)
		}
		return
	}
	var sel []*Harness
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	for _, h := range E.harnesses {
		ok := *prop == ""
		for _, p := range h.Props {
			if p == *prop {
				ok = true
			}
		}
		if ok && (re == nil || re.MatchString(h.Name)) {
			sel = append(sel, h)
		}
	}
	if *native {
		fails := E.runNative(sel, nil, *verif, 400)
		for _, f := range fails {
			b, _ := json.Marshal(f)
			fmt.Println(string(b))
		}
		if len(fails) > 0 {
			os.Exit(1)
		}
		return
	}
	results := make([]*HarnessResult, len(sel))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, h := range sel {
		wg.Add(1)
		go func(i int, h *Harness) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			results[i] = E.runHarness(h, budget)
			if *verbose {
				r := results[i]
				for p, n := range forkProf {
					fmt.Fprintf(os.Stderr, "   forks %6d %s\n", n, p)
				}
				fmt.Fprintf(os.Stderr, "%-50s oblig=%d trivial=%d solved=%d paths=%d fails=%d %.1fs %s\n", r.Name, r.Oblig, r.Trivial, r.Solved, r.Paths, len(r.Fails), r.Secs, r.Error)
				for _, f := range r.Fails {
					fmt.Fprintf(os.Stderr, "    %s %q at %s in %s (%s) %v\n", f.Kind, f.Msg, f.Pos, f.Fn, f.Res, f.Trail)
				}
			}
		}(i, h)
	}
	wg.Wait()
	if *prop == "" {
		bad := false
		for _, r := range results {
			if len(r.Fails) > 0 || r.Error != "" {
				bad = true
			}
		}
		for _, b := range E.broken {
			fmt.Println("BROKEN", b.File, b.Errs)
			bad = true
		}
		if bad {
			os.Exit(1)
		}
		return
	}
	os.Exit(E.report(*prop, *tier, *verif, sel, results, err, loadS, t0, *nonative))
}
