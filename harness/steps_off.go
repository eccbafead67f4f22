//go:build !vcov

package main

const instrumented = false

func stepsReset(limit uint64, trip func()) {}
func stepsTotal() uint64                   { return 0 }
func blockHits() []uint32                  { return nil }
func blockNames() []string                 { return nil }
