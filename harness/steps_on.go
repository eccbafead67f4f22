//go:build vcov

package main

import "github.com/mmadfox/go-geoql-parser/zzverif"

const instrumented = true

func stepsReset(limit uint64, trip func()) {
	zzverif.Total, zzverif.Limit, zzverif.Trip = 0, limit, trip
}
func stepsTotal() uint64   { return zzverif.Total }
func blockHits() []uint32  { return zzverif.Hits[:zzverif.N] }
func blockNames() []string { return zzverif.Blocks }
