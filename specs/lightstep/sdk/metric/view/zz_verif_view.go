package view

import (
	"regexp"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

func vfScope(name string) instrumentation.Scope {
	return instrumentation.Scope{Name: vf.Any[string](name + ".name"), Version: vf.Any[string](name + ".version"), SchemaURL: vf.Any[string](name + ".url")}
}

// A clause matches exactly the instruments that agree with all it specifies,
// for any clause, instrument and scope.
func VF_C10_matches() {
	var opts []ClauseOption
	name, kind, nk, lib := vf.Any[string]("name"), sdkinstrument.Kind(vf.Any[int]("kind")), number.Kind(vf.Any[int]("number")), vfScope("lib")
	vf.Assume(kind >= 0 && kind < sdkinstrument.NumKinds && (nk == number.Int64Kind || nk == number.Float64Kind))
	re := regexp.MustCompile("^[ab]+$")
	has := [5]bool{vf.Choose("name?", 2) == 1, vf.Choose("kind?", 2) == 1, vf.Choose("number?", 2) == 1, vf.Choose("lib?", 2) == 1, vf.Choose("regexp?", 2) == 1}
	if has[0] {
		opts = append(opts, MatchInstrumentName(name))
	}
	if has[1] {
		opts = append(opts, MatchInstrumentKind(kind))
	}
	if has[2] {
		opts = append(opts, MatchNumberKind(nk))
	}
	if has[3] {
		opts = append(opts, MatchInstrumentationLibrary(lib))
	}
	if has[4] {
		opts = append(opts, MatchInstrumentNameRegexp(re))
	}
	v := New("v", sdkinstrument.Performance{}, WithClause(opts...))
	clause := v.Clauses[0]
	scope := vfScope("scope")
	desc := sdkinstrument.Descriptor{Name: vf.Any[string]("iname"), Kind: sdkinstrument.Kind(vf.Any[int]("ikind")), NumberKind: number.Kind(vf.Any[int]("inumber"))}
	vf.Assume(desc.Kind >= 0 && desc.Kind < sdkinstrument.NumKinds && (desc.NumberKind == number.Int64Kind || desc.NumberKind == number.Float64Kind))
	if !vf.Symbolic() {
		// Make agreement likely.
		for i, agree := range [3]bool{vf.Choose("a", 2) == 1, vf.Choose("b", 2) == 1, vf.Choose("c", 2) == 1} {
			if agree {
				switch i {
				case 0:
					desc.Name = name
				case 1:
					desc.Kind, desc.NumberKind = kind, nk
				case 2:
					scope = lib
				}
			}
		}
	}
	want := (!has[0] || name == "" || desc.Name == name) && (!has[1] || desc.Kind == kind) && (!has[2] || desc.NumberKind == nk) &&
		(!has[3] || (lib.Name == "" || lib.Name == scope.Name) && (lib.Version == "" || lib.Version == scope.Version) && (lib.SchemaURL == "" || lib.SchemaURL == scope.SchemaURL)) &&
		(!has[4] || re.MatchString(desc.Name))
	vf.Ensure(clause.Matches(scope, desc) == want, "exactly the matching instruments")
}
