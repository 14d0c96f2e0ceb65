package zzsim

// Reset returns every instrumented package to the state it has when a process
// starts.
func Reset() {
	if active {
		panic("zzsim: reset during a simulation")
	}
	epoch++
	chans = map[uintptr]*simChan{}
	for _, r := range resets {
		r[0]()
	}
	for _, r := range resets {
		r[1]()
	}
}

var resets [][2]func()

// OnReset registers what sets a package's variables to zero and what
// initializes them. Packages register in the order of their initialization.
func OnReset(zero, init func()) { resets = append(resets, [2]func(){zero, init}) }

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
