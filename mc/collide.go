package main

// Inputs that collide under a short fingerprint: whoever tells messages, keys
// or points apart by a fingerprint confuses these.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/big"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generators "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

type fprint struct {
	name string
	f    func(b []byte) uint32
}

func be32(b []byte) uint32 { return binary.BigEndian.Uint32(b) }

func fprints() []fprint {
	return []fprint{
		{"crc32", crc32.ChecksumIEEE},
		{"crc32c", func(b []byte) uint32 { return crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)) }},
		{"adler32", adler32.Checksum},
		{"fnv32", func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() }},
		{"fnv32a", func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() }},
		{"xxhash head", func(b []byte) uint32 { return be32(refXX64(b)) }},
		{"xxhash tail", func(b []byte) uint32 { return be32(refXX64(b)[4:]) }},
		{"sha3-256 head", func(b []byte) uint32 { h := sha3.Sum256(b); return be32(h[:]) }},
		{"sha3-256 tail", func(b []byte) uint32 { h := sha3.Sum256(b); return be32(h[28:]) }},
		{"sha256 head", func(b []byte) uint32 { h := sha256.Sum256(b); return be32(h[:]) }},
		{"blake2b head", func(b []byte) uint32 { h := blake2b.Sum256(b); return be32(h[:]) }},
		{"first bytes", func(b []byte) uint32 { return be32(b) }},
		{"last bytes", func(b []byte) uint32 { return be32(b[len(b)-4:]) }},
		{"bytes before the middle", func(b []byte) uint32 { return be32(b[len(b)/2-4:]) }},
		{"bytes after the middle", func(b []byte) uint32 { return be32(b[len(b)/2:]) }},
		{"folded", func(b []byte) uint32 {
			var o uint32
			for i := 0; i+4 <= len(b); i += 4 {
				o ^= be32(b[i:])
			}
			return o
		}},
		{"summed", func(b []byte) uint32 {
			var o uint32
			for i := 0; i+4 <= len(b); i += 4 {
				o += be32(b[i:])
			}
			return o
		}},
		{"times 31", func(b []byte) uint32 {
			var o uint32
			for _, c := range b {
				o = o*31 + uint32(c)
			}
			return o
		}},
	}
}

// collisions, found once by enumeration: the i-th and j-th message, multiple of
// the generator of G2 and multiple of the ristretto generator (0: there are none).
var collisions = []struct {
	name         string
	msg, g2, pts [2]int64
}{
	{"adler32", [2]int64{4337, 8376}, [2]int64{7792, 32894}, [2]int64{772, 2593}},
	{"blake2b head", [2]int64{9832, 160605}, [2]int64{6856, 21410}, [2]int64{25287, 51300}},
	{"bytes after the middle", [2]int64{117403, 121536}, [2]int64{39982, 74405}, [2]int64{46764, 74177}},
	{"bytes before the middle", [2]int64{37924, 68996}, [2]int64{9291, 17473}, [2]int64{35475, 49840}},
	{"crc32", [2]int64{68647, 100998}, [2]int64{86866, 93102}, [2]int64{6616, 13900}},
	{"crc32c", [2]int64{18875, 22202}, [2]int64{103504, 112938}, [2]int64{30798, 64466}},
	{"first bytes", [2]int64{12178, 134958}, [2]int64{7023, 7111}, [2]int64{46434, 69921}},
	{"fnv32", [2]int64{34543, 50121}, [2]int64{34536, 79052}, [2]int64{66755, 77653}},
	{"fnv32a", [2]int64{62323, 105969}, [2]int64{132654, 172757}, [2]int64{67135, 88202}},
	{"folded", [2]int64{15013, 103685}, [2]int64{21400, 28096}, [2]int64{3159, 79481}},
	{"last bytes", [2]int64{3177, 16720}, [2]int64{4406, 22659}, [2]int64{11224, 125274}},
	{"sha256 head", [2]int64{14669, 81953}, [2]int64{31370, 42799}, [2]int64{28355, 49307}},
	{"sha3-256 head", [2]int64{4622, 73710}, [2]int64{53410, 119981}, [2]int64{25034, 39959}},
	{"sha3-256 tail", [2]int64{34950, 143726}, [2]int64{17073, 139432}, [2]int64{18873, 39804}},
	{"summed", [2]int64{33156, 74643}, [2]int64{6315, 28113}, [2]int64{161274, 172550}},
	{"times 31", [2]int64{68303, 69587}, [2]int64{62558, 80545}, [2]int64{11337, 51152}},
	{"xxhash head", [2]int64{109354, 158605}, [2]int64{22079, 75209}, [2]int64{16689, 33500}},
	{"xxhash tail", [2]int64{114986, 138656}, [2]int64{84336, 119494}, [2]int64{33511, 96208}},
	{"encoding begins in zeros", [2]int64{6228, 42703}, [2]int64{19487, 29617}, [2]int64{14431, 48997}},
	{"encoding ends in zeros", [2]int64{3369, 12208}, [2]int64{148228, 158735}, [2]int64{115468, 122355}},
	{"encoding begins in ones", [2]int64{113377, 264049}, [2]int64{0, 0}, [2]int64{0, 0}},
	{"sha3-256 begins in zeros", [2]int64{42350, 64651}, [2]int64{69541, 86171}, [2]int64{44453, 45833}},
	{"sha3-256 ends in zeros", [2]int64{162959, 333384}, [2]int64{75317, 135344}, [2]int64{13285, 19567}},
	{"sha3-256 begins in ones", [2]int64{213427, 252709}, [2]int64{5608, 7830}, [2]int64{18279, 41332}},
	{"sha3-512 begins in zeros", [2]int64{32403, 99078}, [2]int64{41636, 164892}, [2]int64{191809, 203958}},
	{"sha3-512 ends in zeros", [2]int64{6186, 31334}, [2]int64{90864, 264991}, [2]int64{114553, 150577}},
	{"sha3-512 begins in ones", [2]int64{174793, 197769}, [2]int64{83357, 148315}, [2]int64{37698, 66765}},
	{"blake2b-256 begins in zeros", [2]int64{211116, 214726}, [2]int64{115082, 121298}, [2]int64{96962, 163774}},
	{"blake2b-256 ends in zeros", [2]int64{63064, 71335}, [2]int64{63265, 231752}, [2]int64{35932, 48355}},
	{"blake2b-256 begins in ones", [2]int64{7409, 32553}, [2]int64{24171, 63388}, [2]int64{174, 241620}},
	{"blake2b-512 begins in zeros", [2]int64{6253, 18903}, [2]int64{25773, 30963}, [2]int64{55834, 111925}},
	{"blake2b-512 ends in zeros", [2]int64{111739, 115222}, [2]int64{40706, 170589}, [2]int64{241394, 420618}},
	{"blake2b-512 begins in ones", [2]int64{76592, 158926}, [2]int64{41308, 112392}, [2]int64{14120, 29215}},
	{"xxhash begins in zeros", [2]int64{45512, 145506}, [2]int64{18359, 263764}, [2]int64{334762, 364273}},
	{"xxhash ends in zeros", [2]int64{46694, 52555}, [2]int64{155000, 248714}, [2]int64{37591, 77916}},
	{"xxhash begins in ones", [2]int64{17741, 306990}, [2]int64{181889, 263851}, [2]int64{2500, 6591}},
	{"scalar begins in zeros", [2]int64{314, 128841}, [2]int64{254869, 255263}, [2]int64{95285, 140001}},
	{"scalar ends in zeros", [2]int64{2187, 2383}, [2]int64{222, 373}, [2]int64{4210, 7242}},
	{"scalar begins in ones", [2]int64{103605, 144329}, [2]int64{5641, 19904}, [2]int64{6213, 88154}},
	{"point begins in zeros", [2]int64{7844, 35197}, [2]int64{12516, 42292}, [2]int64{49690, 81581}},
	{"point ends in zeros", [2]int64{63360, 128126}, [2]int64{80812, 143479}, [2]int64{52674, 53117}},
	{"second point begins in zeros", [2]int64{1450, 3449}, [2]int64{14641, 64829}, [2]int64{3313, 11746}},
	{"second point ends in zeros", [2]int64{152309, 153778}, [2]int64{11317, 26478}, [2]int64{44280, 74594}},
	{"coordinate 1 begins in zeros", [2]int64{0, 0}, [2]int64{20911, 100480}, [2]int64{0, 0}},
	{"coordinate 1 ends in zeros", [2]int64{0, 0}, [2]int64{25384, 63978}, [2]int64{0, 0}},
	{"coordinate 2 begins in zeros", [2]int64{0, 0}, [2]int64{86558, 87404}, [2]int64{0, 0}},
	{"coordinate 2 ends in zeros", [2]int64{0, 0}, [2]int64{32387, 71553}, [2]int64{0, 0}},
	{"coordinate 3 begins in zeros", [2]int64{0, 0}, [2]int64{38428, 77908}, [2]int64{0, 0}},
	{"coordinate 3 ends in zeros", [2]int64{0, 0}, [2]int64{148228, 158735}, [2]int64{0, 0}},
}

// collMsgs are the two messages of a collision, and what is made of them.
func collMsgs(i int) [2][]byte {
	var o [2][]byte
	if collisions[i].msg[0] == 0 {
		return collMsgs(0)
	}
	for k, n := range collisions[i].msg {
		s := sc("collide", int(n))
		o[k] = s.Bytes()
	}
	collided(i, o[0], o[1])
	return o
}

func collPts(i int) (p [2]rPoint, x [2]rScalar) {
	if collisions[i].pts[0] == 0 {
		return collPts(0)
	}
	for k, n := range collisions[i].pts {
		x[k] = scInt(n)
		p[k] = pt(x[k])
	}
	collided(i, p[0].Bytes(), p[1].Bytes())
	return
}

func collKeys(i int) (p [2]*bn256.G2, x [2]*big.Int) {
	if collisions[i].g2[0] == 0 {
		return collKeys(0)
	}
	for k, n := range collisions[i].g2 {
		x[k] = big.NewInt(n)
		p[k] = new(bn256.G2).ScalarBaseMult(x[k])
	}
	collided(i, p[0].Marshal(), p[1].Marshal())
	return
}

// collided makes sure that the table is right.
func collided(i int, a, b []byte) {
	for _, f := range append(fprints(), rare()...) {
		if f.name == collisions[i].name {
			if f.f(a) != f.f(b) || bytes.Equal(a, b) {
				panic("no collision under " + f.name)
			}
			return
		}
	}
	panic("unknown fingerprint")
}

func init() {
	extend("C02", collCases("batch", collBatch))
	extend("C03", collCases("keys", collCoefs))
	extend("C04", collCases("messages", collBind))
	extend("C08", collCases("decoys", collBlsagRing))
	extend("C09", collCases("messages", collBlsag))
	extend("C10", collCases("decoys", collMlsagRing))
	extend("C11", collCases("messages", collMlsag))
	extend("C12", collCases("images", collImages))
	extend("C23", collCases("seeds", collSeeds))
	extend("C25", collCases("inputs", collTranscript))
	extend("C28", collCases("leaves", collMerkle))
	extend("C30", collCases("digests", collDigests))
	extend("C33", collCases("points", collEqual))
}

func collCases(what string, f func(t *T, i int)) func(string) []Case {
	return func(string) []Case {
		var cs []Case
		for i := range collisions {
			i := i
			cs = append(cs, Case{fmt.Sprintf("fingerprint/%s/%02d", what, i), func(t *T) {
				f(t, i)
				t.Sample("%s that agree in %s", what, collisions[i].name)
			}})
		}
		return cs
	}
}

func collBatch(t *T, i int) {
	ms := collMsgs(i)
	for _, order := range [][]int{{0, 1}, {1, 0}} {
		var pks []*bls.PublicKey
		var apks []*bls.Apk
		var g2s []*bn256.G2
		var us []*bls.UnsafeSignature
		var list [][]byte
		var sum *bls.Signature
		for q, k := range order {
			kp := bkey(q)
			pks, apks, g2s = append(pks, kp.pk), append(apks, bls.NewApk(kp.pk)), append(g2s, g2Of(kp.b))
			us = append(us, mustUSign(kp, ms[k]))
			list = append(list, ms[k])
			if s := mustSign(kp, ms[k]); sum == nil {
				sum = s
			} else {
				sum.Aggregate(s)
			}
		}
		u, err := bls.UnsafeBatch(us...)
		if err != nil {
			t.Fail("fingerprint/batch", "%v", err)
			return
		}
		for n, f := range map[string]func() error{
			"VerifyBatch":       func() error { return bls.VerifyBatch(apks, list, sum) },
			"VerifyUnsafeBatch": func() error { return bls.VerifyUnsafeBatch(pks, list, u) },
			"VerifyCompressed":  func() error { return bls.VerifyCompressed(g2s, list, u.Compress(), false) },
		} {
			g := vSafe(f)
			t.Trace()
			t.Trans(1)
			t.State("fingerprint", i, order[0], n)
			t.Out(g)
			if g != "accept" {
				t.Fail("fingerprint/batch", "%s of two distinct messages that agree in %s: %s", n, collisions[i].name, g)
			}
		}
	}
}

func collCoefs(t *T, i int) {
	p, x := collKeys(i)
	m := []byte("fingerprint")
	h := messagePoint(m)
	base := bkey(0)
	var pk [2]*bls.PublicKey
	var us [2]*bls.UnsafeSignature
	for k := range p {
		pk[k] = pkOf(x[k])
		us[k] = usigOf(new(bn256.G1).ScalarMult(h, x[k]))
	}
	for _, order := range [][2]int{{0, 1}, {1, 0}} {
		var coef [2]string
		for _, k := range order {
			inv := new(big.Int).ModInverse(x[k], bn256.Order)
			coef[k] = string(new(bn256.G2).ScalarMult(g2Of(bls.NewApk(pk[k]).Marshal()), inv).Marshal())
		}
		t.Step("coefficients", "fingerprint", i, order[0])
		if coef[0] == coef[1] {
			t.Fail("fingerprint/coefficient", "two keys that agree in %s have one coefficient", collisions[i].name)
		}
		for _, a := range order {
			for b := range p {
				apk := bls.NewApk(base.pk)
				s := mustSign(base, m)
				if err := apk.Aggregate(pk[a]); err != nil {
					t.Fail("fingerprint/error", "%v", err)
					return
				}
				if err := s.Add(pk[b], us[b]); err != nil {
					t.Fail("fingerprint/error", "%v", err)
					return
				}
				g := vSafe(func() error { return bls.Verify(apk, m, s) })
				t.Step(g, "fingerprint-verify", i, a, b, order[0])
				if want := map[bool]string{true: "accept", false: "reject"}[a == b]; g != want {
					t.Fail("fingerprint/verify", "keys that agree in %s: signature by %d under %d: %s", collisions[i].name, b, a, g)
				}
			}
		}
	}
}

func collBind(t *T, i int) {
	ms := collMsgs(i)
	put := sharing(t, "bind/fingerprint")
	k := bkey(0)
	apk := mustApk([]int{0})
	for _, m := range [][]byte{ms[0], ms[1], append(clone(ms[0]), ms[1]...), append(clone(ms[1]), ms[0]...)} {
		put(m, collisions[i].name)
	}
	for _, o := range [][2]int{{0, 1}, {1, 0}} {
		a, b := ms[o[0]], ms[o[1]]
		s, u := mustSign(k, a), mustUSign(k, a)
		for _, st := range []struct {
			m    []byte
			want string
		}{{a, "accept"}, {b, "reject"}, {a, "accept"}} {
			g, h := vSafe(func() error { return bls.Verify(apk, st.m, s) }), vSafe(func() error { return bls.VerifyUnsafe(k.pk, st.m, u) })
			t.Step(g, "fingerprint", i, o[0], st.want)
			if g != st.want || h != st.want {
				t.Fail("bind/fingerprint", "messages that agree in %s: %s and %s, want %s", collisions[i].name, g, h, st.want)
			}
		}
	}
}

func collBlsagRing(t *T, i int) {
	p, x := collPts(i)
	for _, mix := range [][]rPoint{{p[0], p[1]}, {p[1], p[0]}, {p[0], p[1], p[0]}} {
		for _, s := range []rScalar{sc("fp signer"), x[0], x[1]} {
			for r := 0; r < 3; r++ {
				t.Reseed("fp", r)
				m := []byte("fp")
				rs := blsag.Sign(m, append([]rPoint{}, mix...), s)
				t.Step("signed", "fp", i, len(mix), scKey(s), r)
				if multisetKey(rs.PubKeys) != multisetKey(append(append([]rPoint{}, mix...), pt(s))) {
					t.Fail("fingerprint/ring", "decoys that agree in %s: the ring is not the one asked for", collisions[i].name)
				}
				if g := rsVerify(m, rs); g != "accept" {
					t.Fail("fingerprint/ring", "decoys that agree in %s: own signature: %s", collisions[i].name, g)
				}
			}
		}
	}
}

func collMlsagRing(t *T, i int) {
	p, x := collPts(i)
	q := [2]rPoint{pt(sc("fpq", 0)), pt(sc("fpq", 1))}
	for way, dec := range [][][2]rPoint{{{p[0], q[0]}, {p[1], q[1]}}, {{p[0], q[0]}, {p[1], q[0]}}, {{q[0], p[0]}, {q[0], p[1]}}, {{p[0], p[1]}, {p[1], p[0]}}} {
		for si, s := range [][2]rScalar{{sc("fp x"), sc("fp z")}, {x[0], x[1]}, {x[1], x[0]}, {x[0], sc("fp z")}} {
			for r := 0; r < 2; r++ {
				t.Reseed("fp", r)
				var ks []mlsag.PubKeys
				want := []string{string(pkBytes(mkPubKeys(pt(s[0]), pt(s[1]))))}
				for _, k := range dec {
					ks = append(ks, mkPubKeys(k[0], k[1]))
					want = append(want, string(pkBytes(mkPubKeys(k[0], k[1]))))
				}
				o := mlSign([]byte("fp"), ks, s[0], s[1])
				t.Step("signed", "fp", i, way, si, r)
				if o.p != "" || o.err != nil || strMulti(mlRing(o.sig)) != strMulti(want) {
					t.Fail("fingerprint/ring", "decoys that agree in %s: the ring is not the one asked for (%s %v)", collisions[i].name, o.p, o.err)
					continue
				}
				if g := mlVerify(o.sig, o.img); g != "accept" {
					t.Fail("fingerprint/ring", "decoys that agree in %s: own signature: %s", collisions[i].name, g)
				}
			}
		}
	}
}

func collBlsag(t *T, i int) {
	ms := collMsgs(i)
	p, _ := collPts(i)
	t.Reseed("fp")
	for k := range ms {
		rs := blsag.Sign(clone(ms[k]), []rPoint{p[0], pt(sc("fp"))}, sc("fp signer"))
		other := copyRS(rs)
		for j := range other.PubKeys {
			if ptKey(other.PubKeys[j]) == ptKey(p[0]) {
				other.PubKeys[j] = p[1]
			}
		}
		img := copyRS(rs)
		img.I = p[k]
		for r := 0; r < 2; r++ {
			for n, st := range []struct {
				g, want string
			}{{rsVerify(ms[k], rs), "accept"}, {rsVerify(ms[1-k], rs), "reject"}, {rsVerify(ms[k], other), "reject"}, {rsVerify(ms[k], img), "reject"}} {
				t.Step(st.g, "fp", i, k, r, n)
				if st.g != st.want {
					t.Fail("fingerprint/blsag", "messages or members that agree in %s, variant %d: %s, want %s", collisions[i].name, n, st.g, st.want)
				}
			}
		}
	}
}

func collMlsag(t *T, i int) {
	ms := collMsgs(i)
	p, _ := collPts(i)
	t.Reseed("fp")
	for k := range ms {
		o := mlSign(clone(ms[k]), []mlsag.PubKeys{mkPubKeys(p[0], pt(sc("fp")))}, sc("fp x"), sc("fp z"))
		if o.p != "" || o.err != nil {
			t.Fail("fingerprint/mlsag", "%s %v", o.p, o.err)
			return
		}
		x := open(o.sig)
		y := x.clone()
		y.msg = ms[1-k]
		z := x.clone()
		for j := range z.keys {
			if ptKey(z.keys[j][0]) == ptKey(p[0]) {
				z.keys[j][0] = p[1]
			}
		}
		for r := 0; r < 2; r++ {
			for n, st := range []struct {
				x    rawSig
				want string
			}{{x, "accept"}, {y, "reject"}, {z, "reject"}} {
				s, err := st.x.build()
				if err != nil {
					continue
				}
				g := mlVerify(s, o.img)
				t.Step(g, "fp", i, k, r, n)
				if g != st.want {
					t.Fail("fingerprint/mlsag", "messages or members that agree in %s, variant %d: %s, want %s", collisions[i].name, n, g, st.want)
				}
			}
		}
	}
}

func collImages(t *T, i int) {
	p, x := collPts(i)
	for r := 0; r < 3; r++ {
		for k := range p {
			want := ptKey(ptMul(hp(p[k]), x[k]))
			t.Reseed("fp", r, k)
			rs := blsag.Sign([]byte("fp"), decoys("fp", 1), x[k])
			o := mlSign([]byte("fp"), mlDecoys("fp", 1), x[k], x[1-k])
			ki := mlsag.CalculateKeyImage(x[k], p[k])
			t.Step("image", "fp", i, r, k)
			if o.p != "" || o.err != nil || ptKey(rs.I) != want || ptKey(o.img) != want || ptKey(ki) != want {
				t.Fail("fingerprint/image", "keys that agree in %s, one after the other: wrong image", collisions[i].name)
			}
		}
	}
}

func collSeeds(t *T, i int) {
	ms := collMsgs(i)
	v := sc("fp value")
	for r := 0; r < 2; r++ {
		for k := range ms {
			ped := pedersen.New(clone(ms[k]))
			c := ped.CommitToVectors([]rScalar{v, v}, []rScalar{v})
			t.Step("committed", "fp", i, r, k)
			other := pedersen.New(clone(ms[1-k]))
			d := other.CommitToVectors([]rScalar{v, v}, []rScalar{v})
			// the values' part alone
			if ptKey(ptSub(c.Value, ptMul(ped.BlindPoint, c.BlindingFactor))) == ptKey(ptSub(d.Value, ptMul(other.BlindPoint, d.BlindingFactor))) {
				t.Fail("fingerprint/seed", "seeds that agree in %s have the same bases", collisions[i].name)
			}
		}
	}
}

func collTranscript(t *T, i int) {
	ms := collMsgs(i)
	var got [2][]string
	for r := 0; r < 2; r++ {
		for k := range ms {
			h := fiatshamir.HashCacher{Cache: []byte{}}
			h.Append(ms[k])
			a := h.Derive()
			h.Append([]byte("more"))
			b := h.Derive()
			g := generators.New(clone(ms[k]))
			g.Compute(3)
			for q := 1; q < 3; q++ {
				var next rPoint
				if next.Derive(g.Bases[q-1].Bytes()); ptKey(next) != ptKey(g.Bases[q]) {
					t.Fail("fingerprint/generator", "base %d differs from the chain (%s)", q, collisions[i].name)
				}
			}
			got[k] = []string{scKey(a), scKey(b), ptKey(g.Bases[0]), ptKey(g.Bases[2])}
			t.Step("derived", "fp", i, r, k)
		}
	}
	for q := range got[0] {
		if got[0][q] == got[1][q] {
			t.Fail("fingerprint/transcript", "inputs that agree in %s give the same output %d", collisions[i].name, q)
		}
	}
}

func collMerkle(t *T, i int) {
	ms := collMsgs(i)
	for n := 1; n <= 5; n++ {
		for at := 0; at < n; at++ {
			for k := range ms {
				var hs [][]byte
				var ps []*mkPay
				for j := 0; j < n; j++ {
					h := mkHash(j)
					if j == at {
						h = ms[k]
					}
					hs = append(hs, h)
					ps = append(ps, &mkPay{h: h, fresh: true})
				}
				tr, err, p := mkNew(ps)
				if p != "" || err != nil || !bytes.Equal(tr.MerkleRoot, mkRoot(hs)) {
					t.Fail("fingerprint/merkle", "%s %v", p, err)
					return
				}
				a, b := mkContent(tr, &mkPay{h: ms[k], fresh: true}), mkContent(tr, &mkPay{h: ms[1-k], fresh: true})
				t.Step(a+b, "fp", i, n, at, k)
				if a != "true" || b != "false" {
					t.Fail("fingerprint/merkle", "leaf %d of %d and another payload whose hash agrees with its in %s: contained %s, %s", at, n, collisions[i].name, a, b)
				}
				ps[at].h = ms[1-k]
				if g := mkVerify(tr); g != "false" {
					t.Fail("fingerprint/merkle", "leaf %d of %d changed to one that agrees with it in %s: VerifyTree %s", at, n, collisions[i].name, g)
				}
				ps[at].h = ms[k]
			}
			// both as leaves
			if n > 1 {
				var hs [][]byte
				for j := 0; j < n; j++ {
					hs = append(hs, ms[(j+at)%2])
				}
				ps, _ := mkPays(hs, "fresh")
				tr, err, p := mkNew(ps)
				if p != "" || err != nil || mkCheck(tr, ps, hs) != "" || mkVerify(tr) != "true" {
					t.Fail("fingerprint/merkle", "leaves that agree in %s: wrong tree", collisions[i].name)
				}
			}
		}
	}
}

func collDigests(t *T, i int) {
	ms := collMsgs(i)
	for r := 0; r < 2; r++ {
		for k, m := range ms {
			for n, f := range map[string]struct {
				f   func([]byte) ([]byte, error)
				ref func([]byte) []byte
			}{
				"Sha3256":    {hash.Sha3256, func(b []byte) []byte { h := sha3.Sum256(b); return h[:] }},
				"Sha3512":    {hash.Sha3512, func(b []byte) []byte { h := sha3.Sum512(b); return h[:] }},
				"Blake2b256": {hash.Blake2b256, func(b []byte) []byte { h := blake2b.Sum256(b); return h[:] }},
				"Blake2b512": {hash.Blake2b512, func(b []byte) []byte { h := blake2b.Sum512(b); return h[:] }},
				"Xxhash":     {hash.Xxhash, refXX64},
			} {
				d, err := f.f(m)
				t.Step("digest", "fp", i, r, k, n)
				if err != nil || !bytes.Equal(d, f.ref(m)) {
					t.Fail("fingerprint/digest", "%s of inputs that agree in %s, one after the other: wrong", n, collisions[i].name)
				}
			}
		}
	}
}

func collEqual(t *T, i int) {
	p, x := collPts(i)
	for n, f := range map[string]func() bool{
		"mlsag.PubKeys": func() bool { a, b := mkPubKeys(p[0]), mkPubKeys(p[1]); return a.Equals(b) },
		"mlsag.PubKeys of two": func() bool {
			a, b := mkPubKeys(p[0], p[1]), mkPubKeys(p[1], p[0])
			return a.Equals(b)
		},
		"mlsag.Responses": func() bool {
			return mlsag.Responses([]rScalar{x[0]}).Equals(mlsag.Responses([]rScalar{x[1]}))
		},
		"innerproduct.Proof": func() bool {
			a := innerproduct.Proof{A: x[0], B: x[0], L: []rPoint{p[0]}, R: []rPoint{p[0]}}
			b := innerproduct.Proof{A: x[0], B: x[0], L: []rPoint{p[1]}, R: []rPoint{p[0]}}
			return a.Equals(b)
		},
		"pedersen.Commitment": func() bool {
			a, b := pedersen.Commitment{Value: p[0]}, pedersen.Commitment{Value: p[1]}
			return a.Equals(b) || a.EqualValue(b)
		},
		"rangeproof.Proof": func() bool {
			a, b := fakeRP(1, 1), fakeRP(1, 1)
			a.A, b.A = p[0], p[1]
			pa, pb := a.build(), b.build()
			return pa.Equals(pb, true)
		},
	} {
		g := fmt.Sprint(f())
		t.Step(g, "fp", i, n)
		if g != "false" {
			t.Fail("fingerprint/equal", "%s that differ in points that agree in %s: reported equal", n, collisions[i].name)
		}
	}
}
