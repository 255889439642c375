package main

import "math"

func inf(s int) float64 { return math.Inf(s) }
func nan() float64      { return math.NaN() }
