package viewstate

import (
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
)

type sumState = sum.State[int64, number.Int64Traits, sum.Monotonic]
type sumMethods = sum.Methods[int64, number.Int64Traits, sum.Monotonic]
