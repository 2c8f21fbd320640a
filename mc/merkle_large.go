package main

// Trees well beyond the exhaustively explored sizes, payloads that change in
// place, and rebuilds between trees of very different sizes.

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/dusk-crypto/merkletree"
)

func mkSizes(tier string) []int {
	var o []int
	top := uint(pick(tier, 12, 16))
	for k := uint(7); k <= top; k++ {
		for d := -2; d <= 2; d++ {
			o = append(o, 1<<k+d)
		}
		if k < top {
			o = append(o, 3<<(k-1), 3<<(k-1)+1)
		}
	}
	return append(o, 100, 1000, 1001)
}

func mkDistinct(n int) [][]byte {
	var hs [][]byte
	for i := 0; i < n; i++ {
		hs = append(hs, mkHash(i))
	}
	return hs
}

func casesMerkleLarge(tier string) []Case {
	var cs []Case
	for _, n := range mkSizes(tier) {
		n := n
		cs = append(cs, Case{fmt.Sprintf("large/%d", n), func(t *T) {
			for _, mode := range []string{"held", "adjacent"} {
				hs := mkDistinct(n)
				ps, changed := mkPays(hs, mode)
				tr, err, p := mkNew(ps)
				t.Trans(1)
				t.Trace()
				t.State(mkRoot(hs), n)
				if p != "" || err != nil {
					t.Fail("merkle/new", "%d payloads: %s %v", n, p, err)
					return
				}
				if w := mkCheck(tr, ps, hs); w != "" {
					t.Fail("merkle/tree/"+mode, "%d payloads: %s", n, w)
				}
				if g := mkVerify(tr); g != "true" {
					t.Fail("merkle/verify/"+mode, "%d payloads: VerifyTree of the new tree: %s", n, g)
				}
				for _, i := range mkSpots(n) {
					if g := mkContent(tr, ps[i]); g != "true" {
						t.Fail("merkle/content/"+mode, "%d payloads: VerifyContent of payload %d: %s", n, i, g)
					}
				}
				if changed() {
					t.Fail("merkle/memory/"+mode, "%d payloads: the payloads' memory was written to", n)
				}
			}
		}})
	}
	return cs
}

// mkSpots are positions in a list of n: the ends, the middle, around powers of
// two.
func mkSpots(n int) []int {
	seen := map[int]bool{}
	var o []int
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			o = append(o, i)
		}
	}
	add(0)
	add(n - 1)
	add(n - 2)
	add(n / 2)
	for k := 1; k <= n; k *= 2 {
		add(k - 1)
		add(k)
		add(n - k)
	}
	return o
}

func casesMerkleLargeTamper(tier string) []Case {
	var cs []Case
	var sizes []int
	for n := 1; n <= 20; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, mkSizes(tier)...)
	for _, n := range sizes {
		n := n
		if n > pick(tier, 1030, 5000) {
			continue
		}
		cs = append(cs, Case{fmt.Sprintf("in-place/%d", n), func(t *T) {
			hs := mkDistinct(n)
			for _, mode := range []string{"held", "adjacent"} {
				ps, _ := mkPays(hs, mode)
				tr, err, p := mkNew(ps)
				if p != "" || err != nil {
					t.Fail("merkle/new", "%d payloads: %s %v", n, p, err)
					return
				}
				root := clone(tr.MerkleRoot)
				see := func(what, want, got string, i, bit int) {
					t.Step(what+" "+got, "in-place", n, mode, what, i, bit)
					if got != want {
						t.Fail("merkle/in-place/"+what, "%d payloads (%s), bit %d of the hash of payload %d changed in place: %s %s, want %s", n, mode, bit, i, what, got, want)
					}
				}
				for _, i := range mkSpots(n) {
					bits := []int{0, 7, 128, 255}
					if n > 200 {
						bits = []int{i % 256}
					}
					for _, bit := range bits {
						see("VerifyTree before", "true", mkVerify(tr), i, bit)
						ps[i].h[bit/8] ^= 1 << uint(bit%8)
						see("VerifyTree", "false", mkVerify(tr), i, bit)
						see("VerifyContent of the old", "false", mkContent(tr, &mkPay{h: hs[i], fresh: true}), i, bit)
						see("VerifyContent of the new", "false", mkContent(tr, ps[i]), i, bit)
						ps[i].h[bit/8] ^= 1 << uint(bit%8)
						see("VerifyTree restored", "true", mkVerify(tr), i, bit)
						see("VerifyContent restored", "true", mkContent(tr, ps[i]), i, bit)
					}
				}
				if !bytes.Equal(root, tr.MerkleRoot) {
					t.Fail("merkle/in-place/root", "%d payloads: the root changed with the payloads", n)
				}
				// two payloads exchanged
				for _, i := range mkSpots(n) {
					for _, j := range []int{i ^ 1, i ^ 2, n - 1 - i} {
						if j == i || j >= n || j < 0 || n < 2 {
							continue
						}
						ps[i].h, ps[j].h = ps[j].h, ps[i].h
						see("VerifyTree exchanged", "false", mkVerify(tr), i, j)
						ps[i].h, ps[j].h = ps[j].h, ps[i].h
					}
				}
			}
		}})
	}
	return cs
}

func casesMerkleSizes(tier string) []Case {
	var cs []Case
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, 64, 65, 100, 127, 129, 257}
	if tier == "thorough" {
		sizes = append(sizes, 512, 513, 1000, 1023, 1025, 4097)
	}
	for _, a := range sizes {
		a := a
		cs = append(cs, Case{fmt.Sprintf("sizes/%d", a), func(t *T) {
			for _, b := range sizes {
				for _, c := range []int{a, 1, 6, b} {
					pool, mem := mkPays(mkDistinct(5000), "held")
					tr, err, p := mkNew(pool[:a])
					if p != "" || err != nil {
						t.Fail("merkle/new", "%d payloads: %s %v", a, p, err)
						return
					}
					name := fmt.Sprintf("%d payloads", a)
					off := 0
					for k, n := range []int{b, c, c} {
						off += 7 * k
						err := tr.RebuildTreeUsing(mkList(pool[off : off+n]))
						name += fmt.Sprintf(", then %d", n)
						t.Trans(1)
						bad := ""
						if err != nil {
							bad = err.Error()
						}
						if bad == "" {
							bad = mkCheck(tr, pool[off:off+n], mkDistinct(off + n)[off:])
						}
						if bad == "" && mkVerify(tr) != "true" {
							bad = "VerifyTree " + mkVerify(tr)
						}
						for _, i := range mkSpots(n) {
							if g := mkContent(tr, pool[off+i]); bad == "" && g != "true" {
								bad = fmt.Sprintf("VerifyContent of payload %d: %s", i, g)
							}
						}
						if g := mkContent(tr, pool[4999]); bad == "" && g != "false" {
							bad = "VerifyContent of an absent payload: " + g
						}
						// rebuilt from its own leaves
						if bad == "" {
							if err := tr.RebuildTree(); err != nil {
								bad = "RebuildTree: " + err.Error()
							} else {
								bad = mkCheck(tr, pool[off:off+n], mkDistinct(off + n)[off:])
							}
						}
						if bad != "" {
							t.Fail("merkle/sizes", "%s: %s", name, bad)
						}
						t.State("sizes", a, b, c, k)
					}
					if mem() {
						t.Fail("merkle/sizes-memory", "%s: the payloads' memory was written to", name)
					}
					t.Trace()
				}
			}
		}})
	}
	// a failing payload anywhere in a long list leaves the tree as it was
	for _, n := range sizes {
		n := n
		cs = append(cs, Case{fmt.Sprintf("failing/%d", n), func(t *T) {
			for _, before := range []int{1, 2, 5, n} {
				pool, _ := mkPays(mkDistinct(before+n), "held")
				tr, err, p := mkNew(pool[:before])
				if p != "" || err != nil {
					t.Fail("merkle/new", "%d payloads: %s %v", before, p, err)
					return
				}
				root, leaves, mr := tr.Root, append([]*merkletree.Node{}, tr.Leaves...), clone(tr.MerkleRoot)
				for _, i := range mkSpots(n) {
					pool[before+i].bad = true
					err := tr.RebuildTreeUsing(mkList(pool[before:]))
					pool[before+i].bad = false
					t.Trans(1)
					t.State("failing", n, before, i)
					same := tr.Root == root && len(tr.Leaves) == len(leaves) && bytes.Equal(tr.MerkleRoot, mr)
					for k := range leaves {
						same = same && tr.Leaves[k] == leaves[k]
					}
					if err == nil {
						t.Fail("merkle/failing", "tree of %d, rebuild over %d with payload %d failing is accepted", before, n, i)
					}
					if !same || mkCheck(tr, pool[:before], mkDistinct(before)) != "" {
						t.Fail("merkle/failing-changes", "tree of %d, rebuild over %d with payload %d failing changes the tree: %s", before, n, i, mkCheck(tr, pool[:before], mkDistinct(before)))
						return
					}
				}
			}
		}})
	}
	return cs
}

// casesMerkleStructure: the tree's own links and data altered by the caller.
func casesMerkleStructure(tier string) []Case {
	var cs []Case
	var sizes []int
	for n := 1; n <= pick(tier, 36, 140); n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 63, 64, 65, 127, 128, 129)
	for _, n := range sizes {
		n := n
		cs = append(cs, Case{fmt.Sprintf("structure/%d", n), func(t *T) {
			hs := mkDistinct(n + 2)
			ps, _ := mkPays(hs, "held")
			tr, err, p := mkNew(ps[:n])
			if p != "" || err != nil {
				t.Fail("merkle/new", "%d payloads: %s %v", n, p, err)
				return
			}
			see := func(what, want, got string, key ...interface{}) {
				t.Step(what+" "+got, append([]interface{}{"structure", n, what}, key...)...)
				if got != want {
					t.Fail("merkle/structure/"+what, "%d payloads, %v: %s %s, want %s", n, key, what, got, want)
				}
			}
			// a leaf given another payload
			for i, l := range tr.Leaves {
				if l.IsDup {
					continue
				}
				for j, other := range []int{n, (i + 1) % n, (i + n - 1) % n} {
					if other == i {
						continue
					}
					old := l.Data
					l.Data = ps[other]
					see("VerifyTree with another payload", "false", mkVerify(tr), i, j)
					see("VerifyContent of the former payload", "false", mkContent(tr, ps[i]), i, j)
					if other == n {
						see("VerifyContent of the other payload", "false", mkContent(tr, ps[other]), i, j)
					}
					l.Data = old
				}
			}
			// inner nodes: children exchanged or replaced
			var inner []*merkletree.Node
			seen := map[*merkletree.Node]bool{}
			for _, l := range tr.Leaves {
				for q := l.Parent; q != nil && !seen[q]; q = q.Parent {
					seen[q] = true
					inner = append(inner, q)
				}
			}
			for i, q := range inner {
				l, r := q.Left, q.Right
				if !bytes.Equal(l.Hash, r.Hash) {
					q.Left, q.Right = r, l
					see("VerifyTree with children exchanged", "false", mkVerify(tr), i)
					q.Left, q.Right = l, l
					see("VerifyTree with the left child twice", "false", mkVerify(tr), i)
					q.Left, q.Right = r, r
					see("VerifyTree with the right child twice", "false", mkVerify(tr), i)
				}
				for j, o := range []*merkletree.Node{tr.Leaves[0], tr.Leaves[len(tr.Leaves)-1], inner[0]} {
					if o == q {
						continue
					}
					if !bytes.Equal(o.Hash, l.Hash) && !under(o, q) {
						q.Left, q.Right = o, r
						see("VerifyTree with another left child", "false", mkVerify(tr), i, j)
					}
					if !bytes.Equal(o.Hash, r.Hash) && !under(o, q) {
						q.Left, q.Right = l, o
						see("VerifyTree with another right child", "false", mkVerify(tr), i, j)
					}
				}
				q.Left, q.Right = l, r
			}
			// another node as the root
			root := tr.Root
			for i, q := range append(append([]*merkletree.Node{}, inner...), tr.Leaves...) {
				if q == root || bytes.Equal(q.Hash, root.Hash) {
					continue
				}
				tr.Root = q
				see("VerifyTree with another root", "false", mkVerify(tr), i)
			}
			tr.Root = root
			see("VerifyTree restored", "true", mkVerify(tr))
			if w := mkCheck(tr, ps[:n], hs[:n]); w != "" {
				t.Fail("merkle/structure/restored", "%d payloads: after restoring all alterations: %s", n, w)
			}
		}})
	}
	return cs
}

// under tells whether q lies in the tree below o.
func under(o, q *merkletree.Node) bool {
	if o == nil {
		return false
	}
	return o == q || under(o.Left, q) || o.Right != o.Left && under(o.Right, q)
}

// casesMerkleCopies: copies of the tree taken before a rebuild stay as they are.
func casesMerkleCopies(tier string) []Case {
	var cs []Case
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17}
	for _, a := range sizes {
		a := a
		cs = append(cs, Case{fmt.Sprintf("copies/%d", a), func(t *T) {
			for _, b := range sizes {
				for _, c := range sizes {
					hs := mkDistinct(64)
					ps, _ := mkPays(hs, "held")
					tr, err, p := mkNew(ps[:a])
					if p != "" || err != nil {
						t.Fail("merkle/new", "%d payloads: %s %v", a, p, err)
						return
					}
					type snap struct {
						tr     merkletree.Tree
						lo, hi int
					}
					snaps := []snap{{*tr, 0, a}}
					off := 20
					for _, n := range []int{b, c} {
						if err := tr.RebuildTreeUsing(mkList(ps[off : off+n])); err != nil {
							t.Fail("merkle/copies", "rebuild over %d: %v", n, err)
							return
						}
						snaps = append(snaps, snap{*tr, off, off + n})
						off += 20
						if err := tr.RebuildTree(); err != nil {
							t.Fail("merkle/copies", "rebuild: %v", err)
							return
						}
						snaps = append(snaps, snap{*tr, off - 20, off - 20 + n})
						t.Trans(2)
					}
					for i := range snaps {
						s := &snaps[i]
						bad := mkCheck(&s.tr, ps[s.lo:s.hi], hs[s.lo:s.hi])
						if bad == "" && mkVerify(&s.tr) != "true" {
							bad = "VerifyTree " + mkVerify(&s.tr)
						}
						if bad != "" {
							t.Fail("merkle/copies", "a tree over %d, %d and %d payloads: the copy taken at step %d changed later: %s", a, b, c, i, bad)
						}
					}
					t.State("copies", a, b, c)
					t.Trace()
				}
			}
		}})
	}
	return cs
}

// casesMerkleSame: lists in which the same payload object stands in several
// places, in every pattern; rebuilt, replaced and rebuilt again.
func casesMerkleSame(tier string) []Case {
	var cs []Case
	for n := 1; n <= pick(tier, 6, 8); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("same/%d", n), func(t *T) {
			all := mkDistinct(16)
			growth(n, func(pat []int) {
				mk := func() ([]*mkPay, [][]byte) {
					obj, _ := mkPays(all, "held")
					var ps []*mkPay
					var hs [][]byte
					for _, c := range pat {
						ps, hs = append(ps, obj[c]), append(hs, all[c])
					}
					return ps, hs
				}
				ps, hs := mk()
				tr, err, p := mkNew(ps)
				check := func(what string, want []*mkPay, h [][]byte, err error) bool {
					t.Trans(1)
					t.State("same", pat, what)
					t.Out(errStr(err))
					bad := ""
					if err != nil {
						bad = err.Error()
					} else if bad = mkCheck(tr, want, h); bad == "" && mkVerify(tr) != "true" {
						bad = "VerifyTree " + mkVerify(tr)
					}
					if bad != "" {
						t.Fail("merkle/same-object", "payloads %v, %s: %s", pat, what, bad)
					}
					return bad == ""
				}
				if p != "" {
					t.Fail("merkle/same-object", "payloads %v: %s", pat, p)
					return
				}
				if !check("new", ps, hs, err) {
					return
				}
				if !check("rebuilt", ps, hs, tr.RebuildTree()) || !check("rebuilt twice", ps, hs, tr.RebuildTree()) {
					return
				}
				q, qh := mk()
				if !check("same list again", ps, hs, tr.RebuildTreeUsing(mkList(ps))) || !check("equal objects", q, qh, tr.RebuildTreeUsing(mkList(q))) {
					return
				}
				for cut := 1; cut < n; cut++ {
					if !check(fmt.Sprintf("first %d", cut), q[:cut], qh[:cut], tr.RebuildTreeUsing(mkList(q[:cut]))) ||
						!check(fmt.Sprintf("first %d rebuilt", cut), q[:cut], qh[:cut], tr.RebuildTree()) ||
						!check(fmt.Sprintf("last %d", n-cut), q[cut:], qh[cut:], tr.RebuildTreeUsing(mkList(q[cut:]))) ||
						!check(fmt.Sprintf("last %d rebuilt", n-cut), q[cut:], qh[cut:], tr.RebuildTree()) {
						return
					}
				}
				t.Trace()
			})
		}})
	}
	return cs
}
