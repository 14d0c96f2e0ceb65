package main

import "fmt"

// tryGen checks the generator against the parser: every generated document
// must produce exactly the events it was generated with.
func tryGen(n int) {
	bad, worst := 0, 0.0
	for i := 0; i < n; i++ {
		s := NewSrc(mix(77, uint64(i)))
		m := Gen(s, GenOpt{MaxElems: 12, Decl: true, Enc: true, Big: i%2 == 1})
		c := NewCtx()
		for mode := 0; mode < 2; mode++ {
			p := &Plan{Name: "gen", In: m.Bytes, Model: m, Mode: mode, FailAt: -1}
			o, v := c.base(p)
			if v == nil {
				v = fits(p, o)
			}
			if v != nil {
				bad++
				fmt.Printf("%d: %s: %s\n", i, v.Class, v.Detail)
			}
		}
		if x := float64(c.Steps) / float64(len(m.Bytes)+1); x > worst {
			fmt.Printf("%d: %.0f steps per byte of %d %.200q\n", i, x, len(m.Bytes), m.Bytes)
			worst = x
		}
		if bad > 10 {
			break
		}
	}
	fmt.Printf("%d bad, most steps per byte %.0f\n", bad, worst)
}
