package main

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	"github.com/dusk-network/dusk-crypto/rangeproof/generators"
)

// casesGeneratorSizes: histories of generators computed in steps of many sizes.
func casesGeneratorSizes(tier string) []Case {
	var cs []Case
	sizes := []int{1, 2, 3, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}
	if tier == "thorough" {
		sizes = append(sizes, 511, 513, 1023, 1024, 1025, 4096)
	}
	d := []byte("sizes")
	for _, a := range sizes {
		a := a
		cs = append(cs, Case{fmt.Sprintf("generator-sizes/%d", a), func(t *T) {
			chain := genChain(d, a+2*sizes[len(sizes)-1]+1)
			for _, b := range sizes {
				for _, third := range []string{"none", "iterate", "one", "clear"} {
					g := generator.New(clone(d))
					n := a
					g.Compute(uint32(a))
					kept := append([]rPoint{}, g.Bases...)
					view := g.Bases
					g.Compute(uint32(b))
					n += b
					switch third {
					case "iterate":
						if p := g.Iterate(); ptKey(p) != ptKey(chain[n]) {
							t.Fail("generator/sizes", "Compute(%d), Compute(%d), Iterate: not generator %d", a, b, n)
						}
					case "one":
						g.Compute(1)
						n++
					case "clear":
						g.Clear()
						g.Compute(uint32(a))
						n = a
					}
					t.Trans(3)
					t.State("sizes", a, b, third)
					t.Out("chain")
					if len(g.Bases) != n {
						t.Fail("generator/sizes", "Compute(%d), Compute(%d), %s: %d bases, want %d", a, b, third, len(g.Bases), n)
						continue
					}
					for i := range g.Bases {
						if g.Bases[i] != chain[i] && ptKey(g.Bases[i]) != ptKey(chain[i]) {
							t.Fail("generator/sizes", "Compute(%d), Compute(%d), %s: base %d differs from the chain", a, b, third, i)
							break
						}
					}
					if third == "clear" {
						continue
					}
					for i := range kept {
						if view[i] != kept[i] {
							t.Fail("generator/sizes", "Compute(%d), Compute(%d), %s: a base read earlier changed", a, b, third)
							break
						}
					}
				}
			}
			t.Trace()
		}})
	}
	return cs
}

// casesAppendLists: one Append of every list of up to 6 (8) values, each empty
// or not; the same list value by value, and split in two anywhere.
func casesAppendLists(tier string) []Case {
	var cs []Case
	words := [][]byte{{}, []byte("a"), bytes.Repeat([]byte{0}, 33)}
	for n := 0; n <= pick(tier, 6, 8); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("append-lists/%d", n), func(t *T) {
			seqs(len(words), n, n, func(s []int) {
				var list [][]byte
				var m []byte
				for _, w := range s {
					list = append(list, words[w])
					m = append(m, words[w]...)
				}
				want := scKey(scDerive(m))
				t.State("lists", s)
				check := func(what string, h *fiatshamir.HashCacher) {
					t.Trans(1)
					t.Out("hash of the transcript")
					if d := h.Derive(); scKey(d) != want || !bytes.Equal(h.Result(), m) {
						t.Fail("transcript/lists", "values %v %s: not the hash of the transcript", s, what)
					}
				}
				for cut := 0; cut <= n; cut++ {
					h := &fiatshamir.HashCacher{Cache: []byte{}}
					h.Append(list[:cut]...)
					h.Append(list[cut:]...)
					check(fmt.Sprintf("cut at %d", cut), h)
				}
				h := &fiatshamir.HashCacher{}
				for _, w := range list {
					h.Append(w)
				}
				check("one by one", h)
				t.Trace()
			})
		}})
	}
	// long lists with empty values anywhere
	cs = append(cs, Case{"append-long-lists", func(t *T) {
		for _, n := range []int{9, 16, 17, 33, 65, 129, 257} {
			for at := -1; at < n; at++ {
				var list [][]byte
				var m []byte
				for i := 0; i < n; i++ {
					w := []byte{byte(i), byte(n)}
					if i == at {
						w = nil
					}
					list = append(list, w)
					m = append(m, w...)
				}
				h := &fiatshamir.HashCacher{}
				h.Append(list...)
				t.Trans(1)
				t.State("long list", n, at)
				if d := h.Derive(); scKey(d) != scKey(scDerive(m)) || !bytes.Equal(h.Result(), m) {
					t.Fail("transcript/lists", "%d values, empty at %d: not the hash of the transcript", n, at)
				}
				t.Trace()
			}
		}
	}})
	return cs
}
