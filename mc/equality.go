package main

import (
	"fmt"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

// ---------------------------------------------------------------- C33

func ptKeys(ps []rPoint) string {
	o := fmt.Sprint(len(ps), ":")
	for _, p := range ps {
		o += ptKey(p)
	}
	return o
}

func scKeys(ss []rScalar) string {
	o := fmt.Sprint(len(ss), ":")
	for _, s := range ss {
		o += scKey(s)
	}
	return o
}

// eqObj is an object with a description of its value; with is what counts
// when everything is compared, without what counts when the part that can be
// left out is.
type eqObj struct {
	name, with, without string
	v                   interface{}
}

// eqSpace judges an equality predicate on every ordered pair of objects.
func eqSpace(kind string, objs []eqObj, part int, parts int, with, without func(a, b interface{}) bool) Case {
	return Case{fmt.Sprintf("%s/%02d", kind, part), func(t *T) {
		for i := part; i < len(objs); i += parts {
			for j := range objs {
				a, b := objs[i], objs[j]
				for _, m := range []struct {
					name string
					f    func(a, b interface{}) bool
					want bool
				}{{"all", with, a.with == b.with}, {"partial", without, a.without == b.without}} {
					if m.f == nil {
						continue
					}
					got := ""
					if p := panics(func() { got = fmt.Sprint(m.f(a.v, b.v)) }); p != "" {
						got = "panic"
					}
					t.Step(got, kind, i, j, m.name)
					if got != fmt.Sprint(m.want) {
						t.Fail(fmt.Sprintf("equal/%s/%s/%v", kind, m.name, m.want), "%s: %s = %s (comparing %s): %s, want %v", kind, a.name, b.name, m.name, got, m.want)
					}
				}
			}
		}
		t.Sample("%s: %d objects, every ordered pair", kind, len(objs))
	}}
}

// vectors over a few elements: every sequence of length up to n.
func ptVecs(k, n int) [][]rPoint {
	var o [][]rPoint
	seqs(k, 0, n, func(s []int) {
		v := []rPoint{}
		for _, i := range s {
			v = append(v, pt(sc("eq", i)))
		}
		o = append(o, v)
	})
	return o
}

func scVecs(k, n int) [][]rScalar {
	var o [][]rScalar
	seqs(k, 0, n, func(s []int) {
		v := []rScalar{}
		for _, i := range s {
			v = append(v, sc("eqs", i))
		}
		o = append(o, v)
	})
	return o
}

func casesEquality(tier string) []Case {
	var cs []Case
	add := func(kind string, objs []eqObj, with, without func(a, b interface{}) bool) {
		for p := 0; p < 8; p++ {
			cs = append(cs, eqSpace(kind, objs, p, 8, with, without))
		}
	}
	n := pick(tier, 3, 4)
	{
		var o []eqObj
		for i, v := range ptVecs(3, n) {
			o = append(o, eqObj{name: fmt.Sprint("keys #", i), with: ptKeys(v), v: mkPubKeys(v...)})
		}
		add("mlsag.PubKeys", o, func(a, b interface{}) bool {
			x, y := a.(mlsag.PubKeys), b.(mlsag.PubKeys)
			return x.Equals(y)
		}, nil)
	}
	{
		var o []eqObj
		for i, v := range scVecs(3, n) {
			o = append(o, eqObj{name: fmt.Sprint("responses #", i), with: scKeys(v), v: mlsag.Responses(v)})
		}
		add("mlsag.Responses", o, func(a, b interface{}) bool {
			x, y := a.(mlsag.Responses), b.(mlsag.Responses)
			return x.Equals(y)
		}, nil)
	}
	{
		// signatures: challenge × response matrix × key matrix, of any shapes
		var o []eqObj
		var mats [][][]rScalar
		for rows := 0; rows <= 2; rows++ {
			for cols := 1; cols <= 2; cols++ {
				if rows == 0 && cols > 1 {
					continue
				}
				var base [][]rScalar
				for r := 0; r < rows; r++ {
					var row []rScalar
					for c := 0; c < cols; c++ {
						row = append(row, sc("m", r, c))
					}
					base = append(base, row)
				}
				mats = append(mats, base)
				for r := 0; r < rows; r++ {
					for c := 0; c < cols; c++ {
						var m [][]rScalar
						for q := range base {
							m = append(m, append([]rScalar{}, base[q]...))
						}
						m[r][c] = sc("changed")
						mats = append(mats, m)
					}
				}
			}
		}
		var keys [][][]rPoint
		keys = append(keys, nil)
		for rows := 1; rows <= 2; rows++ {
			for cols := 0; cols <= 2; cols++ {
				var base [][]rPoint
				for r := 0; r < rows; r++ {
					var row []rPoint
					for c := 0; c < cols; c++ {
						row = append(row, pt(sc("k", r, c)))
					}
					base = append(base, row)
				}
				keys = append(keys, base)
				for r := 0; r < rows && cols > 0; r++ {
					var m [][]rPoint
					for q := range base {
						m = append(m, append([]rPoint{}, base[q]...))
					}
					m[r][cols-1] = pt(sc("changed"))
					keys = append(keys, m)
				}
			}
		}
		for ci := 0; ci < 2; ci++ {
			for mi, m := range mats {
				for ki, k := range keys {
					x := rawSig{c: sc("c", ci), r: m, keys: k}
					s, err := x.build()
					if err != nil {
						continue
					}
					d := fmt.Sprint(ci, len(m), "|")
					for _, r := range m {
						d += scKeys(r)
					}
					e := d + fmt.Sprint(len(k), "|")
					for _, r := range k {
						e += ptKeys(r)
					}
					o = append(o, eqObj{name: fmt.Sprintf("signature c%d r%d k%d", ci, mi, ki), with: e, without: d, v: *s})
				}
			}
		}
		add("mlsag.Signature", o, func(a, b interface{}) bool { return a.(mlsag.Signature).Equals(b.(mlsag.Signature), true) },
			func(a, b interface{}) bool { return a.(mlsag.Signature).Equals(b.(mlsag.Signature), false) })
	}
	{
		var o []eqObj
		for a := 0; a < 2; a++ {
			for b := 0; b < 2; b++ {
				for _, L := range ptVecs(2, n-1) {
					for _, R := range ptVecs(2, n-1) {
						if len(L) != len(R) && a+b > 0 {
							continue
						}
						p := innerproduct.Proof{A: sc("a", a), B: sc("b", b), L: L, R: R}
						o = append(o, eqObj{name: fmt.Sprintf("proof a%d b%d L%x R%x", a, b, h64(ptKeys(L)), h64(ptKeys(R))), with: fmt.Sprint(a, b, ptKeys(L), "|", ptKeys(R)), v: p})
					}
				}
			}
		}
		add("innerproduct.Proof", o, func(a, b interface{}) bool {
			x, y := a.(innerproduct.Proof), b.(innerproduct.Proof)
			return x.Equals(y)
		}, nil)
	}
	{
		var o []eqObj
		for v := 0; v < 4; v++ {
			for b := 0; b < 4; b++ {
				c := pedersen.Commitment{Value: pt(sc("v", v)), BlindingFactor: sc("b", b)}
				if b == 3 {
					c.BlindingFactor = rScalar{}
				}
				if v == 3 {
					c.Value = ptID()
				}
				o = append(o, eqObj{name: fmt.Sprintf("commitment v%d b%d", v, b), with: fmt.Sprint(v, b), without: fmt.Sprint(v), v: c})
			}
		}
		add("pedersen.Commitment", o, func(a, b interface{}) bool {
			x, y := a.(pedersen.Commitment), b.(pedersen.Commitment)
			return x.Equals(y)
		}, func(a, b interface{}) bool {
			x, y := a.(pedersen.Commitment), b.(pedersen.Commitment)
			return x.EqualValue(y)
		})
	}
	{
		var o []eqObj
		put := func(name string, x rawRP, noIP bool) {
			p := x.build()
			ip := fmt.Sprint(scKey(x.a), scKey(x.b), ptKeys(x.L), "|", ptKeys(x.R))
			if noIP {
				p.IPProof = nil
				ip = "none"
			}
			d := ptKeys([]rPoint{x.A, x.S, x.T1, x.T2}) + scKeys([]rScalar{x.taux, x.mu, x.t}) + ip
			o = append(o, eqObj{name: name, without: d, with: d + ptKeys(x.V), v: p})
		}
		shapes := [][2]int{}
		for m := 0; m <= 3; m++ {
			for k := 0; k <= 2; k++ {
				shapes = append(shapes, [2]int{m, k})
			}
		}
		flush := func(tag string) {
			add("rangeproof.Proof"+tag, o, func(a, b interface{}) bool {
				x := a.(rangeproof.Proof)
				return x.Equals(b.(rangeproof.Proof), true)
			}, func(a, b interface{}) bool {
				x := a.(rangeproof.Proof)
				return x.Equals(b.(rangeproof.Proof), false)
			})
			o = nil
		}
		small := len(shapes)
		shapes = append(shapes, [][2]int{{4, 8}, {5, 3}, {8, 9}, {16, 10}, {1, 6}, {2, 7}, {17, 1}, {32, 0}}...)
		for si, sh := range shapes {
			if si == small {
				flush("")
			}
			m, k := sh[0], sh[1]
			{
				b := fakeRP(m, k)
				put(fmt.Sprintf("range proof %d/%d", m, k), b, false)
				put(fmt.Sprintf("range proof %d/%d again", m, k), b, false)
				put(fmt.Sprintf("range proof %d/%d without inner product", m, k), b, true)
				for i, f := range []func(x *rawRP){
					func(x *rawRP) { x.A = pt(sc("changed")) }, func(x *rawRP) { x.S = pt(sc("changed")) },
					func(x *rawRP) { x.T1 = pt(sc("changed")) }, func(x *rawRP) { x.T2 = pt(sc("changed")) },
					func(x *rawRP) { x.taux = sc("changed") }, func(x *rawRP) { x.mu = sc("changed") }, func(x *rawRP) { x.t = sc("changed") },
					func(x *rawRP) { x.a = sc("changed") }, func(x *rawRP) { x.b = sc("changed") },
					func(x *rawRP) { x.A, x.S = x.S, x.A }, func(x *rawRP) { x.T1, x.T2 = x.T2, x.T1 }, func(x *rawRP) { x.mu, x.t = x.t, x.mu },
				} {
					c := b.clone()
					f(&c)
					put(fmt.Sprintf("range proof %d/%d changed %d", m, k, i), c, false)
				}
				for i := 0; i < m; i++ {
					c := b.clone()
					c.V[i] = pt(sc("changed"))
					put(fmt.Sprintf("range proof %d/%d V%d", m, k, i), c, false)
				}
				for i := 0; i < k; i++ {
					c := b.clone()
					c.L[i] = pt(sc("changed"))
					put(fmt.Sprintf("range proof %d/%d L%d", m, k, i), c, false)
					c = b.clone()
					c.R[i] = pt(sc("changed"))
					put(fmt.Sprintf("range proof %d/%d R%d", m, k, i), c, false)
				}
			}
			if si >= small {
				flush(fmt.Sprintf("-%d-%d", m, k))
			}
		}
	}
	return cs
}

func init() {
	register(&Prop{ID: "C33", Level: "exploration",
		Rule:  "for each type with an equality predicate, every ordered pair of a space of objects: all shapes up to the bound, every single component changed, range proofs of up to 32 commitments and 10 rounds; vectors of 1..129 (257) elements against their neighbours, every bit of every scalar, every trade between two components; the predicate is compared with componentwise equality of the encodings; a case is one comparison",
		Notes: []string{"points that are no group elements are left out: the ristretto library deems them equal to every point", "the message of an MLSAG signature is not part of the comparison and is the same throughout"},
		Cases: func(tier string) []Case { return append(casesEquality(tier), casesEqualityLong(tier)...) }})
}
