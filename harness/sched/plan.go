// Package sched is called by the yield points which cmd/instrument puts into the product's code.
// A plan decides what they do; without a plan they only count.
package sched

// Plan says what the yield points do during one scenario.
type Plan struct {
	// Noise is the probability (of 65536) that a visit yields or sleeps briefly.
	Noise int `json:",omitempty"`

	// MaxSleepUS is the longest random sleep in microseconds.
	MaxSleepUS int `json:",omitempty"`

	// Points are the chosen sites.
	Points []Point `json:",omitempty"`

	// Seed of the random decisions.
	Seed uint64 `json:",omitempty"`
}

// Point delays the visits First..First+Count-1 of one site by DelayUS.
type Point struct {
	Site    int
	First   int
	Count   int
	DelayUS int

	// Trigger: the first delayed visit also closes the channel Triggered() returns.
	Trigger bool `json:",omitempty"`
}

// MaxSites is the largest number of sites.
const MaxSites = 8192
