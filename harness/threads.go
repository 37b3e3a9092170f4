package main

import (
	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form3/obj3/thread"
)

// customThread is a triangular thread with any starts and taper.
type customThread struct {
	d, p   float64
	starts int
	taper  float64
}

func (t customThread) Thread() (sdf.SDF2, error) {
	r := t.d / 2
	return form2.Polygon([]v2{p2(t.p, 0), p2(t.p, r-t.p/3), p2(t.p/2, r-t.p/3), p2(0.1*t.p, r), p2(-0.2*t.p, r), p2(-t.p/2, r-t.p/3), p2(-t.p, r-t.p/3), p2(-t.p, 0)})
}

func (t customThread) ThreadParams() thread.Parameters {
	return thread.Parameters{Name: "custom", Radius: t.d / 2, Pitch: t.p, Starts: t.starts, Taper: t.taper, HexF2F: 1.6 * t.d}
}
