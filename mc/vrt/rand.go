package vrt

// RandHook decides the results of math/rand in instrumented packages; the argument is the number of
// possible results (0: any). Without a hook all results are zero.
var RandHook func(n int) int

func RandInt() int { return RandIntn(0) }

func RandIntn(n int) int {
	if RandHook == nil {
		return 0
	}
	return RandHook(n)
}
