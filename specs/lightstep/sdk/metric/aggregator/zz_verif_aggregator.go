package aggregator

import (
	"math"

	histostruct "github.com/lightstep/go-expohisto/structure"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"

	vf "github.com/lightstep/otel-launcher-go/internal/verifvf"
)

// A value is accepted exactly if it is finite and, for counters and histograms, not negative.
func VF_C09_rangetest() {
	k := vf.Any[sdkinstrument.Kind]("kind")
	desc := sdkinstrument.Descriptor{Name: vf.Any[string]("name"), Kind: k, NumberKind: number.Float64Kind}
	f := vf.Any[float64]("f")
	i := vf.Any[int64]("i")
	nonneg := k == sdkinstrument.SyncCounter || k == sdkinstrument.SyncHistogram
	finite := f == f && f != math.Inf(1) && f != math.Inf(-1)
	vf.Ensure(RangeTest[float64, number.Float64Traits](f, desc) == (finite && !(nonneg && f < 0)), "float64 accepted iff finite and in range")
	vf.Ensure(RangeTest[int64, number.Int64Traits](i, desc) == !(nonneg && i < 0), "int64 accepted iff in range")
	vf.Ensure(vf.LocksHeld() == 0, "no lock remains held")
}

// Zero means the default cardinality limit, other limits are kept.
//vf:props C21
func VF_C06_config_validate() {
	c := vf.Any[Config]("cfg")
	out, err := c.Validate()
	vf.Ensure(vf.Implies(c.CardinalityLimit != 0, out.CardinalityLimit == c.CardinalityLimit), "a limit that is set is kept")
	vf.Ensure(vf.Implies(c.CardinalityLimit == 0, out.CardinalityLimit == sdkinstrument.DefaultAggregatorCardinalityLimit), "zero selects the default limit")
	vf.Ensure(out.Valid() && (err == nil) == c.Valid(), "the result is valid and errors are reported")
	vf.Ensure(vf.Implies(err == nil && c.Histogram != (histostruct.Config{}), out.Histogram == c.Histogram), "a valid histogram size is kept")
}
