package main

// An independent reference for the range proof: the wire form in the open,
// the protocol's algebra over known generator coordinates, and a prover that
// can be told to cheat.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

const rpN = 64

func scBig(x *big.Int) rScalar {
	var s rScalar
	s.SetBigInt(x)
	return s
}

func scInv(a rScalar) rScalar {
	var s rScalar
	s.Inverse(&a)
	return s
}

func scNeg(a rScalar) rScalar {
	var s rScalar
	s.Neg(&a)
	return s
}

func scKey(a rScalar) string { return string(a.Bytes()) }

func scZero(a rScalar) bool { return a.IsNonZeroI() == 0 }

func scDerive(b []byte) rScalar {
	var s rScalar
	s.Derive(b)
	return s
}

func nextPow(n int) int {
	p := 1
	for p < n {
		p *= 2
	}
	return p
}

// ---------------------------------------------------------------- wire form

type rawRP struct {
	V            []rPoint
	A, S, T1, T2 rPoint
	taux, mu, t  rScalar
	a, b         rScalar
	L, R         []rPoint
}

func (x rawRP) clone() rawRP {
	o := x
	o.V = append([]rPoint{}, x.V...)
	o.L = append([]rPoint{}, x.L...)
	o.R = append([]rPoint{}, x.R...)
	return o
}

// build makes a proof. The hidden scalars go through the wire format, the
// points through exported fields (so that any structure can be expressed).
func (x rawRP) build() rangeproof.Proof {
	var b bytes.Buffer
	g := pt(scInt(1))
	for i := 0; i < 4; i++ {
		b.Write(g.Bytes())
	}
	for _, s := range []rScalar{x.taux, x.mu, x.t, x.a, x.b} {
		b.Write(s.Bytes())
	}
	var p rangeproof.Proof
	if err := p.Decode(bytes.NewReader(b.Bytes()), false); err != nil {
		panic("reference: cannot build a proof: " + err.Error())
	}
	p.A, p.S, p.T1, p.T2 = x.A, x.S, x.T1, x.T2
	p.V = nil
	for _, v := range x.V {
		p.V = append(p.V, pedersen.Commitment{Value: v})
	}
	p.IPProof = &innerproduct.Proof{A: x.a, B: x.b, L: append([]rPoint{}, x.L...), R: append([]rPoint{}, x.R...)}
	return p
}

func rpEncode(p rangeproof.Proof, commits bool) []byte {
	var b bytes.Buffer
	if err := p.Encode(&b, commits); err != nil {
		panic("encode: " + err.Error())
	}
	return b.Bytes()
}

func rpDecode(b []byte, commits bool) (rangeproof.Proof, error) {
	var p rangeproof.Proof
	err := p.Decode(bytes.NewReader(b), commits)
	return p, err
}

// openRP parses a proof's wire form without the package's decoder.
func openRP(p rangeproof.Proof) rawRP {
	b := rpEncode(p, true)
	var x rawRP
	off := 0
	var buf [32]byte
	next := func() *[32]byte {
		copy(buf[:], b[off:off+32])
		off += 32
		return &buf
	}
	n := int(binary.BigEndian.Uint32(b))
	off = 4
	for i := 0; i < n; i++ {
		var q rPoint
		q.SetBytes(next())
		x.V = append(x.V, q)
	}
	for _, q := range []*rPoint{&x.A, &x.S, &x.T1, &x.T2} {
		q.SetBytes(next())
	}
	for _, s := range []*rScalar{&x.taux, &x.mu, &x.t, &x.a, &x.b} {
		s.SetBytes(next())
	}
	for off+64 <= len(b) {
		var l, r rPoint
		l.SetBytes(next())
		r.SetBytes(next())
		x.L = append(x.L, l)
		x.R = append(x.R, r)
	}
	return x
}

func rpVerify(p rangeproof.Proof) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
	}()
	ok, err := rangeproof.Verify(p)
	if ok && err == nil {
		return "accept"
	}
	if ok != (err == nil) {
		return "inconsistent"
	}
	return "reject"
}

func rpProve(v []rScalar, debug bool) (p rangeproof.Proof, out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
	}()
	p, err := rangeproof.Prove(v, debug)
	if err != nil {
		return p, "error"
	}
	return p, "ok"
}

// ---------------------------------------------------------------- coordinates

// lin is a point known by its coordinates over the generators.
type lin struct {
	G, H  []rScalar
	B, Hb rScalar
}

func newLin(n int) lin { return lin{G: make([]rScalar, n), H: make([]rScalar, n)} }

func (a lin) add(b lin, k rScalar) lin { // a + k·b
	o := newLin(len(a.G))
	for i := range a.G {
		o.G[i] = scAdd(a.G[i], scMul(k, b.G[i]))
		o.H[i] = scAdd(a.H[i], scMul(k, b.H[i]))
	}
	o.B = scAdd(a.B, scMul(k, b.B))
	o.Hb = scAdd(a.Hb, scMul(k, b.Hb))
	return o
}

func (a lin) scale(k rScalar) lin { return newLin(len(a.G)).add(a, k) }

func (a lin) isZero() bool {
	for i := range a.G {
		if !scZero(a.G[i]) || !scZero(a.H[i]) {
			return false
		}
	}
	return scZero(a.B) && scZero(a.Hb)
}

var refG, refH []rPoint

func refGens(n int) ([]rPoint, []rPoint) {
	if len(refG) == 0 {
		var g, h rPoint
		g.Derive([]byte("dusk.BulletProof.vec1"))
		h.Derive([]byte("dusk.BulletProof.vec1\x01"))
		refG, refH = []rPoint{g}, []rPoint{h}
	}
	for len(refG) < n {
		refG = append(refG, hp(refG[len(refG)-1]))
		refH = append(refH, hp(refH[len(refH)-1]))
	}
	return refG[:n], refH[:n]
}

func refB() rPoint {
	var b rPoint
	b.Derive([]byte("blindPoint"))
	return b
}

func refHb() rPoint { return pt(scInt(1)) }

func (a lin) point() rPoint {
	G, H := refGens(len(a.G))
	o := ptID()
	add := func(p rPoint, s rScalar) {
		if scZero(s) {
			return
		}
		var q rPoint
		q.PublicScalarMult(&p, &s)
		o = ptAdd(o, q)
	}
	for i := range a.G {
		add(G[i], a.G[i])
		add(H[i], a.H[i])
	}
	add(refB(), a.B)
	add(refHb(), a.Hb)
	return o
}

// ---------------------------------------------------------------- challenges

// rpChal recomputes a proof's challenges; omit names transcript entries to
// leave out ("V0", "A", "T1", "taux", "L3", ...) and challenges to weaken
// ("w=1", "z<A": derived from the commitments alone, ...).
type rpChal struct {
	y, z, x, w rScalar
	u          []rScalar
}

func has(omit []string, k string) bool {
	for _, o := range omit {
		if o == k {
			return true
		}
	}
	return false
}

type transcript struct {
	b    []byte
	omit []string
}

func (t *transcript) add(name string, b []byte) {
	if !has(t.omit, name) {
		t.b = append(t.b, b...)
	}
}

func (x rawRP) challenges(omit ...string) rpChal {
	var c rpChal
	t := &transcript{omit: omit}
	for i := range x.V {
		t.add(fmt.Sprint("V", i), x.V[i].Bytes())
	}
	early := scDerive(t.b)
	// weak forms of the challenges a prover may hope for
	weak := func(k string, s rScalar) rScalar {
		switch {
		case has(omit, k+"=1"):
			return scInt(1)
		case has(omit, k+"=2"):
			return scInt(2)
		case has(omit, k+"<A"):
			return early
		}
		return s
	}
	t.add("A", x.A.Bytes())
	t.add("S", x.S.Bytes())
	c.y = weak("y", scDerive(t.b))
	c.z = weak("z", scDerive(c.y.Bytes()))
	t.add("z", c.z.Bytes())
	late := scDerive(t.b)
	t.add("T1", x.T1.Bytes())
	t.add("T2", x.T2.Bytes())
	c.x = weak("x", scDerive(t.b))
	if has(omit, "x<T") {
		c.x = late
	}
	t.add("x", c.x.Bytes())
	t.add("taux", x.taux.Bytes())
	t.add("mu", x.mu.Bytes())
	t.add("t", x.t.Bytes())
	c.w = weak("w", scDerive(t.b))
	ip := &transcript{omit: omit}
	for i := range x.L {
		ip.add(fmt.Sprint("L", i), x.L[i].Bytes())
		ip.add(fmt.Sprint("R", i), x.R[i].Bytes())
		c.u = append(c.u, scDerive(ip.b))
	}
	return c
}

func powers(a rScalar, n int) []rScalar {
	o := make([]rScalar, n)
	cur := scInt(1)
	for i := range o {
		o[i] = cur
		cur = scMul(cur, a)
	}
	return o
}

func sumSc(a []rScalar) rScalar {
	o := scInt(0)
	for i := range a {
		o = scAdd(o, a[i])
	}
	return o
}

func dot(a, b []rScalar) rScalar {
	o := scInt(0)
	for i := range a {
		o = scAdd(o, scMul(a[i], b[i]))
	}
	return o
}

// refDelta is (z-z²)·Σy^i − z³·(Σz^j)·(2^64−1)
func refDelta(y, z rScalar, m int) rScalar {
	z2 := scMul(z, z)
	two := sumSc(powers(scInt(2), rpN))
	return scSub(scMul(scSub(z, z2), sumSc(powers(y, rpN*m))), scMul(scMul(z, z2), scMul(two, sumSc(powers(z, m)))))
}

// ---------------------------------------------------------------- the prover

// cheat describes a prover: what is committed, what is used as bits, which
// transcript entries its challenges ignore, and which element is solved for.
type cheat struct {
	name   string
	v      []rScalar // committed values (padded to a power of two)
	aL, aR []rScalar // "bits"
	omit   []string
	solve  string                         // V<i> | A | S | T1 | T2 | L<k> | R<k> | ""
	pick   func(c *cheat, ch rpChal)      // chooses the bits once the commitments are made
	aB     rScalar                        // A's coordinate along the values' base
	tweak  func(x *rawRP, st *cheatState) // last-minute change, before w and the inner product
	sZero  bool
	yw     func(i, n int) int // exponent of y at place i (nil: i)
	zw     func(j, m int) int // exponent of z for value j (nil: j+2)
}

// weights are the prover's weights of the places and of the values.
func (c cheat) weights(y, z rScalar) (yn, zv []rScalar) {
	m := len(c.v)
	n := rpN * m
	yn, zs := powers(y, n), powers(z, m+3)
	if c.yw != nil {
		p := yn
		yn = make([]rScalar, n)
		for i := range yn {
			yn[i] = p[c.yw(i, n)]
		}
	}
	zv = append([]rScalar{}, zs[2:m+2]...)
	if c.zw != nil {
		for j := range zv {
			zv[j] = zs[c.zw(j, m)]
		}
	}
	return yn, zv
}

type cheatState struct {
	m        int
	y, z, x  rScalar
	l, r     []rScalar
	t1, t2   rScalar
	mu, taux rScalar
	gamma    []rScalar
}

func bitsOf(v *big.Int) (aL, aR []rScalar) {
	one, zero := scInt(1), scInt(0)
	for i := 0; i < rpN; i++ {
		if v.Bit(i) == 1 {
			aL, aR = append(aL, one), append(aR, zero)
		} else {
			aL, aR = append(aL, zero), append(aR, scInt(-1))
		}
	}
	return
}

// honest fills in the bits of v mod 2^64.
func honest(name string, vs ...*big.Int) cheat {
	c := cheat{name: name}
	for len(vs)&(len(vs)-1) != 0 {
		vs = append(vs, big.NewInt(0))
	}
	for _, v := range vs {
		c.v = append(c.v, scBig(v))
		l, r := bitsOf(v)
		c.aL = append(c.aL, l...)
		c.aR = append(c.aR, r...)
	}
	return c
}

// run executes the (possibly cheating) prover and returns the proof together
// with whether it satisfies the verification equations under the prover's own
// (possibly incomplete) transcript.
func (c cheat) run() (rawRP, bool) {
	m := len(c.v)
	n := rpN * m
	var x rawRP
	rnd := func(p ...interface{}) rScalar { return sc(append([]interface{}{"rp", c.name}, p...)...) }
	zero := newLin(n)
	gamma := make([]rScalar, m)
	V := make([]lin, m)
	for i := range V {
		gamma[i] = rnd("gamma", i)
		V[i] = newLin(n)
		V[i].B, V[i].Hb = c.v[i], gamma[i]
		x.V = append(x.V, V[i].point())
	}
	if c.pick != nil {
		c.aL, c.aR = append([]rScalar{}, c.aL...), append([]rScalar{}, c.aR...)
		c.pick(&c, x.challenges(c.omit...))
	}
	alpha, rho := rnd("alpha"), rnd("rho")
	A, S := newLin(n), newLin(n)
	copy(A.G, c.aL)
	copy(A.H, c.aR)
	A.Hb, S.Hb = alpha, rho
	A.B = c.aB
	if !c.sZero {
		for i := 0; i < n; i++ {
			S.G[i], S.H[i] = rnd("sL", i), rnd("sR", i)
		}
	}
	x.A, x.S = A.point(), S.point()
	ch := x.challenges(c.omit...)
	y, z := ch.y, ch.z
	yn, zv := c.weights(y, z)
	twos := powers(scInt(2), rpN)
	l0, l1 := make([]rScalar, n), append([]rScalar{}, S.G...)
	r0, r1 := make([]rScalar, n), make([]rScalar, n)
	for i := 0; i < n; i++ {
		l0[i] = scSub(A.G[i], z)
		r0[i] = scAdd(scMul(yn[i], scAdd(A.H[i], z)), scMul(zv[i/rpN], twos[i%rpN]))
		r1[i] = scMul(yn[i], S.H[i])
	}
	t1 := scAdd(dot(l0, r1), dot(l1, r0))
	t2 := dot(l1, r1)
	tau1, tau2 := rnd("tau1"), rnd("tau2")
	T1, T2 := newLin(n), newLin(n)
	T1.B, T1.Hb, T2.B, T2.Hb = t1, tau1, t2, tau2
	x.T1, x.T2 = T1.point(), T2.point()
	xx := x.challenges(c.omit...).x
	l, r := make([]rScalar, n), make([]rScalar, n)
	for i := 0; i < n; i++ {
		l[i] = scAdd(l0[i], scMul(xx, l1[i]))
		r[i] = scAdd(r0[i], scMul(xx, r1[i]))
	}
	x2 := scMul(xx, xx)
	x.taux = scAdd(scMul(tau1, xx), scMul(tau2, x2))
	for j := range gamma {
		x.taux = scAdd(x.taux, scMul(zv[j], gamma[j]))
	}
	x.mu = scAdd(alpha, scMul(rho, xx))
	// δ = (z−z²)·Σy-weights − z·Σz-weights·(2^64−1)
	delta := scSub(scMul(scSub(z, scMul(z, z)), sumSc(yn)), scMul(scMul(z, sumSc(zv)), sumSc(twos)))
	zsum := dot(zv, c.v)
	switch c.solve {
	case "A", "S":
		// l and r are free: pick them so that <l,r> fits the committed value
		T1.B, T2.B = scInt(0), scInt(0)
		T1 = lin{G: zero.G, H: zero.H, Hb: tau1}
		T2 = lin{G: zero.G, H: zero.H, Hb: tau2}
		x.T1, x.T2 = T1.point(), T2.point()
		xx = x.challenges(c.omit...).x
		x2 = scMul(xx, xx)
		x.taux = scAdd(scMul(tau1, xx), scMul(tau2, x2))
		for j := range gamma {
			x.taux = scAdd(x.taux, scMul(zv[j], gamma[j]))
		}
		x.mu = rnd("mu")
		want := scAdd(zsum, delta)
		for i := range l {
			l[i], r[i] = rnd("l", i), rnd("r", i)
		}
		rest := scSub(dot(l, r), scMul(l[0], r[0]))
		l[0] = scMul(scSub(want, rest), scInv(r[0]))
	}
	x.t = dot(l, r)
	if c.tweak != nil {
		c.tweak(&x, &cheatState{m: m, y: y, z: z, x: xx, l: l, r: r, t1: t1, t2: t2, gamma: gamma})
	}
	// equation 2 residue: tB + taux·Hb − δB − ΣzV − xT1 − x²T2
	e2 := newLin(n)
	e2.B, e2.Hb = scSub(x.t, delta), x.taux
	for j := range V {
		e2 = e2.add(V[j], scNeg(zv[j]))
	}
	e2 = e2.add(T1, scNeg(xx)).add(T2, scNeg(x2))
	switch c.solve {
	case "T1":
		d := e2.scale(scInv(xx))
		T1 = T1.add(d, scInt(1))
		x.T1 = T1.point()
		e2 = newLin(n)
	case "T2":
		d := e2.scale(scInv(x2))
		T2 = T2.add(d, scInt(1))
		x.T2 = T2.point()
		e2 = newLin(n)
	}
	if strings.HasPrefix(c.solve, "V") {
		k, _ := strconv.Atoi(c.solve[1:])
		d := e2.scale(scInv(zv[k]))
		V[k] = V[k].add(d, scInt(1))
		x.V[k] = V[k].point()
		e2 = newLin(n)
	}
	w := x.challenges(c.omit...).w
	// inner product argument over coordinates
	hpf := make([]rScalar, n)
	for i := range hpf {
		hpf[i] = scInv(yn[i])
	}
	cg, chh := make([]rScalar, n), make([]rScalar, n)
	for i := range cg {
		cg[i], chh[i] = scInt(1), hpf[i]
	}
	a, b := append([]rScalar{}, l...), append([]rScalar{}, r...)
	var Ls, Rs []lin
	var us []rScalar
	for k := n / 2; k >= 1; k /= 2 {
		L, R := newLin(n), newLin(n)
		for i := 0; i < n; i++ {
			q := i % (2 * k)
			if q >= k {
				L.G[i] = scMul(a[q-k], cg[i])
				R.H[i] = scMul(b[q-k], chh[i])
			} else {
				L.H[i] = scMul(b[k+q], chh[i])
				R.G[i] = scMul(a[k+q], cg[i])
			}
		}
		L.B = scMul(w, dot(a[:k], b[k:2*k]))
		R.B = scMul(w, dot(a[k:2*k], b[:k]))
		Ls, Rs = append(Ls, L), append(Rs, R)
		x.L, x.R = append(x.L, L.point()), append(x.R, R.point())
		us = x.challenges(c.omit...).u
		u := us[len(us)-1]
		ui := scInv(u)
		na, nb := make([]rScalar, k), make([]rScalar, k)
		for i := 0; i < k; i++ {
			na[i] = scAdd(scMul(a[i], u), scMul(a[k+i], ui))
			nb[i] = scAdd(scMul(b[i], ui), scMul(b[k+i], u))
		}
		a, b = na, nb
		for i := 0; i < n; i++ {
			if i%(2*k) < k {
				cg[i], chh[i] = scMul(cg[i], ui), scMul(chh[i], u)
			} else {
				cg[i], chh[i] = scMul(cg[i], u), scMul(chh[i], ui)
			}
		}
	}
	x.a, x.b = a[0], b[0]
	// equation 1 residue: Σ(a·s+z)G + Σ(…)H + w(ab−t)B + mu·Hb − A − xS − Σu²L − Σu⁻²R
	e1 := func() lin {
		o := newLin(n)
		for i := 0; i < n; i++ {
			o.G[i] = scAdd(scMul(x.a, cg[i]), z)
			o.H[i] = scSub(scSub(scMul(x.b, chh[i]), scMul(hpf[i], scMul(zv[i/rpN], twos[i%rpN]))), z)
		}
		o.B = scMul(w, scSub(scMul(x.a, x.b), x.t))
		o.Hb = x.mu
		o = o.add(A, scInt(-1)).add(S, scNeg(xx))
		for k := range Ls {
			u2 := scMul(us[k], us[k])
			o = o.add(Ls[k], scNeg(u2)).add(Rs[k], scNeg(scInv(u2)))
		}
		return o
	}
	res := e1()
	switch {
	case c.solve == "A":
		A = A.add(res, scInt(1))
		x.A = A.point()
	case c.solve == "S":
		S = S.add(res, scInv(xx))
		x.S = S.point()
	case len(c.solve) == 2 && c.solve[0] == 'L':
		k := int(c.solve[1] - '0')
		Ls[k] = Ls[k].add(res, scInv(scMul(us[k], us[k])))
		x.L[k] = Ls[k].point()
	case len(c.solve) == 2 && c.solve[0] == 'R':
		k := int(c.solve[1] - '0')
		Rs[k] = Rs[k].add(res, scMul(us[k], us[k]))
		x.R[k] = Rs[k].point()
	}
	// does it hold under the prover's own challenges?
	fin := x.challenges(c.omit...)
	same := scKey(fin.y) == scKey(y) && scKey(fin.x) == scKey(xx) && scKey(fin.w) == scKey(w)
	for k := range us {
		same = same && scKey(fin.u[k]) == scKey(us[k])
	}
	return x, same && e2.isZero() && e1().isZero()
}
