package main

import (
	"fmt"
	"time"

	"github.com/lestrrat-go/helium/zzsim"
)

// shrink minimises the choices of a failing run, then its schedules, keeping
// the class of the violation.
func shrink(f *Found, limit time.Duration) *Found {
	end := time.Now().Add(limit)
	best := *f
	best.History = nil
	tries := 0
	p := props[f.Prop]
	try := func(choices []uint64, sch [][]zzsim.Slice, use bool) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		c := NewCtx()
		c.Deep, c.Scheds, c.useSch = f.Deep, sch, use
		s := ReplaySrc(choices)
		v := exec1(p, s, c)
		if v == nil || v.Class != f.Class {
			return false
		}
		best.Choices, best.Class, best.Detail = trim(s.Rec), v.Class, v.Detail
		best.Scheds, best.UseSch = c.Used, use
		return true
	}
	n0 := len(f.Choices)
	if !try(f.Choices, nil, false) {
		return f
	}
	for round := 0; round < 6; round++ {
		before := len(best.Choices)
		sum := total(best.Choices)
		// delete chunks
		for k := len(best.Choices); k >= 1; k /= 2 {
			for i := 0; i+k <= len(best.Choices); {
				c := append(append([]uint64(nil), best.Choices[:i]...), best.Choices[i+k:]...)
				if !try(c, nil, false) {
					i += k
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		// zero chunks, then lower single values
		for k := len(best.Choices) / 2; k >= 1; k /= 2 {
			for i := 0; i+k <= len(best.Choices); i += k {
				if total(best.Choices[i:i+k]) == 0 {
					continue
				}
				c := append([]uint64(nil), best.Choices...)
				for j := i; j < i+k; j++ {
					c[j] = 0
				}
				try(c, nil, false)
			}
		}
		for i := 0; i < len(best.Choices); i++ {
			for lo := uint64(0); i < len(best.Choices) && lo < best.Choices[i]; {
				mid := lo + (best.Choices[i]-lo)/2
				c := append([]uint64(nil), best.Choices...)
				c[i] = mid
				if !try(c, nil, false) {
					lo = mid + 1
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		if (len(best.Choices) == before && total(best.Choices) == sum) || time.Now().After(end) {
			break
		}
	}
	// make the schedules explicit, and fewer and simpler
	slices0 := 0
	for _, s := range best.Scheds {
		slices0 += len(s)
	}
	if slices0 > 0 {
		ch := best.Choices
		if try(ch, best.Scheds, true) {
			for si := range best.Scheds {
				for k := len(best.Scheds[si]); k >= 1; k /= 2 {
					for i := 0; si < len(best.Scheds) && i+k <= len(best.Scheds[si]); {
						c := cloneScheds(best.Scheds)
						c[si] = append(append([]zzsim.Slice(nil), c[si][:i]...), c[si][i+k:]...)
						n := len(best.Scheds[si])
						if !try(ch, c, true) || si < len(best.Scheds) && len(best.Scheds[si]) >= n {
							i += k
						}
						if time.Now().After(end) {
							break
						}
					}
				}
			}
		}
	}
	slices1 := 0
	for _, s := range best.Scheds {
		slices1 += len(s)
	}
	best.Minim = fmt.Sprintf("%d choices to %d, %d schedule slices to %d, in %d executions", n0, len(best.Choices), slices0, slices1, tries)
	return &best
}

// trim drops the zeros at the end: a missing choice is zero.
func trim(c []uint64) []uint64 {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return append([]uint64(nil), c...)
}

func total(l []uint64) (t uint64) {
	for _, x := range l {
		t += x
	}
	return
}

func cloneScheds(l [][]zzsim.Slice) [][]zzsim.Slice {
	o := make([][]zzsim.Slice, len(l))
	for i := range l {
		o[i] = append([]zzsim.Slice(nil), l[i]...)
	}
	return o
}
