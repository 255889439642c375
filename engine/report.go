package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type NativeFail struct {
	Harness string `json:"harness"`
	Label   string `json:"label"`
	Seed    int64  `json:"seed"`
	Inputs  string `json:"inputs"`
	Source  string `json:"source"`
}

// runNative compiles the harnesses with the code under test and runs them on the given and on generated inputs.
func (E *Engine) runNative(hs []*Harness, models map[string][][]anyVal, verif string, iters int) []NativeFail {
	dir, err := os.MkdirTemp("", "vfnative")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	byPkg := map[string][]*Harness{}
	for _, h := range hs {
		byPkg[h.Pkg] = append(byPkg[h.Pkg], h)
	}
	mj, _ := json.Marshal(models)
	mf := filepath.Join(dir, "models.json")
	os.WriteFile(mf, mj, 0644)
	var fails []NativeFail
	var pkgs []string
	for p := range byPkg {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, pkg := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/")
		ov := map[string]string{}
		for dst, src := range E.overlay {
			ov[dst] = src
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\tvf %q\n)\n\nfunc TestVFNative(t *testing.T) {\n\tvf.RunNative(t, []vf.NativeHarness{\n", E.ssaPkgs[pkg].Pkg.Name(), vfPath)
		for _, h := range byPkg[pkg] {
			fmt.Fprintf(&sb, "\t\t{Name: %q, Fn: %s},\n", h.Name, h.Name)
		}
		sb.WriteString("\t})\n}\n")
		tf := filepath.Join(dir, sanitize(pkg)+"_test.go")
		os.WriteFile(tf, []byte(sb.String()), 0644)
		ov[filepath.Join(E.repo, rel, "zz_vfnative_test.go")] = tf
		// the package's own tests are not needed
		ents, _ := os.ReadDir(filepath.Join(E.repo, rel))
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), "_test.go") {
				ov[filepath.Join(E.repo, rel, e.Name())] = ""
			}
		}
		for dst, src := range E.stubbedFiles(pkg) {
			f := filepath.Join(dir, "stub_"+filepath.Base(dst))
			os.WriteFile(f, []byte(src), 0644)
			ov[dst] = f
		}
		oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		of := filepath.Join(dir, "overlay.json")
		os.WriteFile(of, oj, 0644)
		outf := filepath.Join(dir, "out.json")
		os.Remove(outf)
		ctx, cancel := context.WithTimeout(context.Background(), 280*time.Second)
		cmd := exec.CommandContext(ctx, "go", "test", "-overlay", of, "-vet=off", "-count=1", "-timeout", "240s", "-run", "^TestVFNative$", "./"+rel)
		cmd.Dir = E.repo
		cmd.Env = append(os.Environ(), "VF_MODELS="+mf, "VF_OUT="+outf, "VF_ITERS="+strconv.Itoa(iters), "VF_SEED="+os.Getenv("VERIF_SEED"))
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		rerr := cmd.Run()
		cancel()
		b, err := os.ReadFile(outf)
		if err == nil {
			var fs []NativeFail
			for _, l := range strings.Split(string(b), "\n") {
				var f NativeFail
				if json.Unmarshal([]byte(l), &f) == nil && f.Harness != "" {
					fs = append(fs, f)
				}
			}
			fails = append(fails, fs...)
		}
		if rerr != nil && len(fails) == 0 {
			fmt.Fprintf(os.Stderr, "native run of %s: %v\n%s\n", pkg, rerr, tail(out.String(), 3000))
		}
	}
	return fails
}

// stubbedFiles rewrites the calls of stubbed functions in a package's own files, for native runs.
func (E *Engine) stubbedFiles(pkg string) map[string]string {
	out := map[string]string{}
	stubs := E.stubs[pkg]
	p := E.pkgs[pkg]
	if len(stubs) == 0 || p == nil {
		return out
	}
	for _, f := range p.Syntax {
		name := E.fset.Position(f.Pos()).Filename
		if E.overlay[name] != "" {
			continue
		}
		b, err := os.ReadFile(name)
		if err != nil {
			continue
		}
		type edit struct {
			from, to int
			text     string
		}
		var edits []edit
		keep := map[string]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if fn, ok := p.TypesInfo.Uses[s.Sel].(*types.Func); ok {
					if st := stubs[fn.FullName()]; st != nil {
						from, to := E.fset.Position(s.Pos()).Offset, E.fset.Position(s.End()).Offset
						edits = append(edits, edit{from, to, st.Name()})
						keep[string(b[from:to])] = true
					}
				}
			}
			return true
		})
		if len(edits) == 0 {
			continue
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
		src := string(b)
		for _, e := range edits {
			src = src[:e.from] + e.text + src[e.to:]
		}
		for _, k := range keysOf(keep) {
			src += "\nvar _ = " + k + "\n"
		}
		out[name] = src
	}
	return out
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (E *Engine) report(prop, tier, verif string, sel []*Harness, results []*HarnessResult, loadErr error, loadS float64, t0 time.Time, nonative bool) int {
	type hr struct {
		Harness     string            `json:"contract"`
		Doc         string            `json:"about,omitempty"`
		Obligations int               `json:"obligations"`
		Discharged  int               `json:"discharged"`
		BySMT       int               `json:"discharged_by_smt"`
		ByRewriting int               `json:"discharged_by_simplifier"`
		Paths       int               `json:"paths"`
		Ensures     map[string]int    `json:"postconditions"`
		Functions   []string          `json:"functions"`
		Bounded     []string          `json:"bounded,omitempty"`
		Loops       map[string]string `json:"cut_loops,omitempty"`
		Secs        float64           `json:"secs"`
		Error       string            `json:"error,omitempty"`
	}
	funcs, assumed := map[string]bool{}, map[string]bool{}
	var hrs []hr
	obl, dis, bounded := 0, 0, 0
	var failed []*HarnessResult
	for _, r := range results {
		d := r.Trivial + r.Solved
		hrs = append(hrs, hr{r.Name, r.Doc, r.Oblig, d, r.Solved, r.Trivial, r.Paths, r.Ensures, r.Funcs, r.Bounded, r.Loops, r.Secs, r.Error})
		if len(r.Bounded) == 0 {
			obl += r.Oblig
			dis += d
		} else {
			bounded++
		}
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		if len(r.Fails) > 0 || r.Error != "" {
			failed = append(failed, r)
		}
	}
	var broken []brokenSpec
	for _, b := range E.broken {
		for _, p := range b.Props {
			if p == prop {
				broken = append(broken, b)
			}
		}
	}
	code := 0
	viol := []string{}
	var line string
	if loadErr != nil || len(failed) > 0 || len(broken) > 0 || len(results) == 0 {
		code = 1
		rdir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(rdir, 0755)
		rp := filepath.Join(rdir, prop+".json")
		rep := map[string]interface{}{"property": prop, "repo": E.repo}
		models := map[string][][]anyVal{}
		var hs []*Harness
		for i, r := range results {
			if len(r.Fails) == 0 && r.Error == "" {
				continue
			}
			hs = append(hs, sel[i])
			for _, f := range r.Fails {
				viol = append(viol, fmt.Sprintf("%s: %s %q at %s (%s)", r.Name, f.Kind, f.Msg, f.Pos, f.Res))
				if f.Anys != nil {
					models[r.Name] = append(models[r.Name], f.Anys)
				}
			}
			if r.Error != "" {
				viol = append(viol, r.Name+": not decided: "+r.Error)
			}
		}
		for _, b := range broken {
			viol = append(viol, fmt.Sprintf("specification %s no longer applies: %s", b.File, strings.Join(b.Errs, "; ")))
		}
		if loadErr != nil {
			viol = append(viol, loadErr.Error())
		}
		if len(results) == 0 && loadErr == nil && len(broken) == 0 {
			viol = append(viol, "no contract selected")
		}
		rep["failed_obligations"] = viol
		var full []*HarnessResult
		full = append(full, failed...)
		rep["verifier_output"] = full
		var nf []NativeFail
		if !nonative && loadErr == nil && len(hs) > 0 {
			nf = E.runNative(hs, models, verif, 3000)
		}
		rep["failing_runs"] = nf
		rep["how_to_replay"] = fmt.Sprintf("bash /verif/check.sh %s   (re-proves and re-runs the failing input against the code)", prop)
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(rp, b, 0644)
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp)
		if len(nf) == 0 {
			line += " no-failing-input-found"
		}
	}
	known := knownFindings(verif, prop)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tools := []string{}
	for k, v := range E.solver.ByTool {
		tools = append(tools, fmt.Sprintf("%s: %d", k, v))
	}
	sort.Strings(tools)
	base := []string{
		"the condition generator in /verif/engine (go/ssa of golang.org/x/tools, symbolic execution with loop cutting) and the SMT solvers (z3, cvc5)",
		"int, and lengths, are mathematical integers (no overflow of int); int64 and uint64 are 64-bit vectors, smaller integers wrap exactly, float64 is IEEE-754",
		"memory is typed: a pointer found in pre-existing memory does not point into the interior of another object",
		"strings are sequences of bytes; goroutine interleavings only at the atomic operations and lock operations declared shared; termination is not proved",
	}
	asm := append([]string{}, keysOf(assumed)...)
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis,
		"checker_cmd":  fmt.Sprintf("bash /verif/check.sh %s %s", prop, tier),
		"trusted_base": base,
		"contracts":    hrs, "functions_under_contract": keysOf(funcs),
		"bounded_contracts": bounded,
		"solver":            map[string]interface{}{"queries": E.solver.Queries, "seconds": float64(E.solver.Nanos) / 1e9, "answers_by_back_end": tools},
		"load_s":            loadS,
	}
	level := "proof"
	if bounded == len(results) && bounded > 0 {
		level = "other"
		cov["explanation"] = "bounded contracts only: the obligations generated from the current source are discharged for all values, but for the numbers of objects and steps stated per contract"
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": asm,
		"wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	if len(viol) > 0 {
		cov["violation_details"] = viol
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644)
	for _, v := range viol {
		fmt.Println("  ", v)
	}
	fmt.Printf("%s: %d contracts, %d obligations, %d discharged (unbounded contracts), %d bounded contracts, %d functions, %.1fs\n", prop, len(results), obl, dis, bounded, len(funcs), time.Since(t0).Seconds())
	for _, k := range known {
		fmt.Println(k)
	}
	if line != "" {
		fmt.Println(line)
	}
	return code
}

// knownFindings lists the open findings recorded for a property.
func knownFindings(verif, prop string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "open: property="+prop+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "open: "))
		}
	}
	return out
}
