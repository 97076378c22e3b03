//go:build testing
// +build testing

package main

// judge lets one monitor watch several related properties: only what concerns the one being decided counts.
type judge struct {
	NopMonitor
	prop string
}

func (j *judge) bad(w *World, prop, sig, f string, a ...interface{}) {
	if j.prop == prop {
		w.Rep.Violate(w, sig, f, a...)
	}
}

func (j *judge) eval(w *World, prop, f string, a ...interface{}) {
	if j.prop == prop {
		w.Rep.Eval(f, a...)
	}
}

func (j *judge) count(w *World, prop, name string, n int64) {
	if j.prop == prop {
		w.Rep.Count(name, n)
	}
}

// magnitude is a coarse logarithm, to tell situations apart.
func magnitude(n int64) int {
	m, s := 0, 1
	if n < 0 {
		n, s = -n, -1
	}
	for ; n > 0; n /= 10 {
		m++
	}
	return s * m
}
