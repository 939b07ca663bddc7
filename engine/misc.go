package main

import "math"

func f64bits(f float64) uint64 { return math.Float64bits(f) }

var mathFns = map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Abs": math.Abs, "Trunc": math.Trunc, "Round": math.Round}
