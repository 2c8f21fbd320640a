package main

import (
	"bytes"
	"crypto/sha3"
	"errors"
	"fmt"
	"io"

	"github.com/dusk-network/dusk-crypto/merkletree"
)

// ---------------------------------------------------------------- payloads

// mkPay is a payload whose hash the explorer chooses. It can hand out a new
// slice on every call or always the one it holds, which may be part of a
// larger array.
type mkPay struct {
	h     []byte
	fresh bool
	bad   bool // CalculateHash fails
	f     *mkFault
}

// mkFault makes the n-th hash computed from now on fail (n < 0: none).
// It comes with no hash, the hash all the same, or an empty one.
type mkFault struct{ n, calls, with int }

var errPay = errors.New("payload hash failed")

func (p *mkPay) CalculateHash() ([]byte, error) {
	if p.f != nil {
		p.f.calls++
		if p.f.n == 0 {
			p.f.n--
			switch p.f.with {
			case 1:
				return clone(p.h), errPay
			case 2:
				return []byte{}, errPay
			case 3:
				return nil, io.EOF
			}
			return nil, errPay
		}
		p.f.n--
	}
	if p.bad { // an error, whatever comes with it
		return p.h, errPay
	}
	if p.fresh {
		return clone(p.h), nil
	}
	return p.h, nil
}

// mkHash is the i-th leaf hash of the alphabet.
func mkHash(i int) []byte {
	h := sha3.Sum256([]byte(fmt.Sprint("leaf", i)))
	return h[:]
}

var mkModes = []string{"fresh", "held", "spare", "adjacent", "adjacent-reversed", "overlapping"}

// mkPays lays the hashes out in memory as mode says, and returns a function
// telling whether any of that memory was written to.
func mkPays(hs [][]byte, mode string) ([]*mkPay, func() bool) {
	var ps []*mkPay
	changed := func() bool { return false }
	watch := func(buf []byte) {
		ref := clone(buf)
		prev := changed
		changed = func() bool { return prev() || !bytes.Equal(buf, ref) }
	}
	n := 0
	for _, h := range hs {
		n += len(h)
	}
	switch mode {
	case "fresh", "held":
		for _, h := range hs {
			c := clone(h)
			c = c[:len(c):len(c)]
			ps = append(ps, &mkPay{h: c, fresh: mode == "fresh"})
			watch(c)
		}
	case "spare":
		for _, h := range hs {
			buf := make([]byte, len(h)+80)
			copy(buf, h)
			for i := len(h); i < len(buf); i++ {
				buf[i] = 0xA5
			}
			ps = append(ps, &mkPay{h: buf[:len(h)]})
			watch(buf)
		}
	case "adjacent", "adjacent-reversed":
		buf := make([]byte, n)
		off := 0
		ps = make([]*mkPay, len(hs))
		for k := range hs {
			i := k
			if mode == "adjacent-reversed" {
				i = len(hs) - 1 - k
			}
			copy(buf[off:], hs[i])
			ps[i] = &mkPay{h: buf[off : off+len(hs[i])]}
			off += len(hs[i])
		}
		watch(buf)
	case "overlapping": // equal hashes share one slice of one array
		buf := make([]byte, n)
		at := map[string][]byte{}
		off := 0
		for _, h := range hs {
			s, ok := at[string(h)]
			if !ok {
				copy(buf[off:], h)
				s = buf[off : off+len(h)]
				at[string(h)] = s
				off += len(h)
			}
			ps = append(ps, &mkPay{h: s})
		}
		watch(buf)
	}
	return ps, changed
}

func mkList(ps []*mkPay) []merkletree.Payload {
	var o []merkletree.Payload
	for _, p := range ps {
		o = append(o, p)
	}
	return o
}

// mkLevels is the reference: the hashes of the tree, level by level, leaves
// (padded to an even number) first.
func mkLevels(hs [][]byte) [][][]byte {
	l := append([][]byte{}, hs...)
	if len(l)%2 == 1 {
		l = append(l, l[len(l)-1])
	}
	out := [][][]byte{l}
	for len(l) > 1 {
		var up [][]byte
		for i := 0; i < len(l); i += 2 {
			r := i + 1
			if r == len(l) {
				r = i
			}
			h := sha3.Sum256(append(clone(l[i]), l[r]...))
			up = append(up, h[:])
		}
		out = append(out, up)
		l = up
	}
	return out
}

func mkRoot(hs [][]byte) []byte {
	l := mkLevels(hs)
	return l[len(l)-1][0]
}

// mkCheck compares a tree with the reference built over hs and the payloads.
func mkCheck(tr *merkletree.Tree, ps []*mkPay, hs [][]byte) string {
	lv := mkLevels(hs)
	top := len(lv) - 1
	if tr == nil || tr.Root == nil {
		return "no tree"
	}
	if !bytes.Equal(tr.MerkleRoot, lv[top][0]) {
		return "the Merkle root is not that of the payloads"
	}
	if len(tr.Leaves) != len(lv[0]) {
		return fmt.Sprintf("%d leaves for %d payloads", len(tr.Leaves), len(ps))
	}
	for i, l := range tr.Leaves {
		k := i
		if k == len(ps) {
			k--
		}
		if l == nil || l.Data != merkletree.Payload(ps[k]) {
			return fmt.Sprintf("leaf %d does not hold payload %d", i, k)
		}
		if !l.IsLeaf {
			return fmt.Sprintf("leaf %d is not marked as one", i)
		}
		if l.IsDup != (i == len(ps)) {
			return fmt.Sprintf("leaf %d of %d payloads: marked as a duplicate: %v", i, len(ps), l.IsDup)
		}
		// the way up
		n, steps := l, 0
		for n.Parent != nil && steps <= top {
			if n.Parent.Left != n && n.Parent.Right != n {
				return fmt.Sprintf("leaf %d: a node %d levels up is no child of its parent", i, steps)
			}
			n = n.Parent
			steps++
		}
		if n != tr.Root || steps != top {
			return fmt.Sprintf("leaf %d: the way up does not end at the root after %d steps", i, top)
		}
	}
	var walk func(n *merkletree.Node, lvl, i int) string
	walk = func(n *merkletree.Node, lvl, i int) string {
		if n == nil {
			return "a node is missing"
		}
		if !bytes.Equal(n.Hash, lv[lvl][i]) {
			return fmt.Sprintf("the hash of node %d on level %d is wrong", i, lvl)
		}
		if n.IsLeaf != (lvl == 0) {
			return fmt.Sprintf("node %d on level %d: leaf: %v", i, lvl, n.IsLeaf)
		}
		if lvl == 0 {
			if n != tr.Leaves[i] {
				return fmt.Sprintf("the tree's leaf %d is not the one listed", i)
			}
			return ""
		}
		r := 2*i + 1
		if r >= len(lv[lvl-1]) {
			r = 2 * i
		}
		if w := walk(n.Left, lvl-1, 2*i); w != "" {
			return w
		}
		return walk(n.Right, lvl-1, r)
	}
	return walk(tr.Root, top, 0)
}

// mkNodes asks for the hash of every node, in both ways there are.
func mkNodes(tr *merkletree.Tree, hs [][]byte) string {
	lv := mkLevels(hs)
	if len(hs) > 40 {
		return ""
	}
	var walk func(n *merkletree.Node, lvl, i int) string
	walk = func(n *merkletree.Node, lvl, i int) string {
		for name, f := range map[string]func(*merkletree.Node) ([]byte, error){"VerifyNode": merkletree.VerifyNode, "CalculateNodeHash": merkletree.CalculateNodeHash} {
			h, err := f(n)
			if err != nil || !bytes.Equal(h, lv[lvl][i]) {
				return fmt.Sprintf("%s of node %d on level %d: %x %v", name, i, lvl, h, err)
			}
		}
		if lvl == 0 {
			return ""
		}
		r := 2*i + 1
		if r >= len(lv[lvl-1]) {
			r = 2 * i
		}
		if w := walk(n.Left, lvl-1, 2*i); w != "" {
			return w
		}
		return walk(n.Right, lvl-1, r)
	}
	w := ""
	if p := panics(func() { w = walk(tr.Root, len(lv)-1, 0) }); p != "" {
		return p
	}
	return w
}

func mkNew(ps []*mkPay) (tr *merkletree.Tree, err error, p string) {
	p = panics(func() { tr, err = merkletree.NewTree(mkList(ps)) })
	return
}

func mkVerify(tr *merkletree.Tree) string {
	var ok bool
	var err error
	if p := panics(func() { ok, err = merkletree.VerifyTree(tr) }); p != "" {
		return p
	}
	if err != nil {
		if ok {
			return "true with an error"
		}
		return "error"
	}
	return fmt.Sprint(ok)
}

func mkContent(tr *merkletree.Tree, d merkletree.Payload) string {
	var ok bool
	var err error
	if p := panics(func() { ok, err = tr.VerifyContent(d) }); p != "" {
		return p
	}
	if err != nil {
		if ok {
			return "true with an error"
		}
		return "error"
	}
	return fmt.Sprint(ok)
}

func pick2(alpha [][]byte, s []int) [][]byte {
	var o [][]byte
	for _, i := range s {
		o = append(o, alpha[i])
	}
	return o
}

// ---------------------------------------------------------------- C27

func casesMerkleRoot(tier string) []Case {
	var cs []Case
	one := func(t *T, what string, hs [][]byte, mode string) {
		ps, changed := mkPays(hs, mode)
		tr, err, p := mkNew(ps)
		t.Trans(1)
		t.Trace()
		if p != "" || err != nil {
			t.Fail("merkle/new", "%s, hashes %s: %s %v", what, mode, p, err)
			return
		}
		t.State(mkRoot(hs), len(hs))
		if w := mkCheck(tr, ps, hs); w != "" {
			t.Out("wrong")
			t.Fail("merkle/tree/"+mode, "%s, hashes %s: %s", what, mode, w)
		}
		if g := mkVerify(tr); g != "true" {
			t.Fail("merkle/verify/"+mode, "%s, hashes %s: VerifyTree of the new tree: %s", what, mode, g)
		}
		if w := mkNodes(tr, hs); w != "" {
			t.Fail("merkle/node/"+mode, "%s, hashes %s: %s", what, mode, w)
		}
		for i, ps := range ps {
			if i > 8 && i < len(hs)-2 {
				continue
			}
			if g := mkContent(tr, ps); g != "true" {
				t.Fail("merkle/content/"+mode, "%s, hashes %s: VerifyContent of payload %d: %s", what, mode, i, g)
			}
		}
		if changed() {
			t.Fail("merkle/memory/"+mode, "%s, hashes %s: building and verifying the tree wrote to the payloads' memory", what, mode)
		}
		if w := mkCheck(tr, ps, hs); w != "" {
			t.Fail("merkle/after/"+mode, "%s, hashes %s: after verification: %s", what, mode, w)
		}
		t.Out(fmt.Sprintf("depth %d", len(mkLevels(hs))))
	}
	for _, mode := range mkModes {
		mode := mode
		max := pick(tier, 140, 1200)
		for part := 0; part < 4; part++ {
			part := part
			cs = append(cs, Case{fmt.Sprintf("size/%s/%d", mode, part), func(t *T) {
				for n := 1 + part; n <= max; n += 4 {
					var hs [][]byte
					for i := 0; i < n; i++ {
						hs = append(hs, mkHash(i))
					}
					one(t, fmt.Sprintf("%d distinct payloads", n), hs, mode)
				}
				t.Sample("1..%d distinct payloads, hashes %s", max, mode)
			}})
		}
		cs = append(cs, Case{"sequences/" + mode, func(t *T) {
			a := [][]byte{mkHash(0), mkHash(1), mkHash(2)}
			seqs(2, 1, pick(tier, 7, 11), func(s []int) { one(t, "payloads "+ivec(s), pick2(a, s), mode) })
			seqs(3, 1, pick(tier, 5, 7), func(s []int) { one(t, "payloads "+ivec(s), pick2(a, s), mode) })
		}})
		cs = append(cs, Case{"lengths/" + mode, func(t *T) {
			// payload hashes of any length, the empty one and the node hash among them
			a := [][]byte{{}, {1}, mkHash(0), append(mkHash(0), 9), append(mkHash(0), mkHash(1)...), bytes.Repeat([]byte{3}, 136)}
			seqs(len(a), 1, pick(tier, 4, 5), func(s []int) { one(t, "hash lengths "+ivec(s), pick2(a, s), mode) })
		}})
	}
	cs = append(cs, Case{"empty", func(t *T) {
		for _, pl := range [][]merkletree.Payload{nil, {}} {
			var tr *merkletree.Tree
			var err error
			p := panics(func() { tr, err = merkletree.NewTree(pl) })
			t.Trans(1)
			t.State("empty", pl == nil)
			t.Out("refused")
			if p != "" || err == nil || tr != nil {
				t.Fail("merkle/empty", "a tree over no payloads: %v %v %s", tr, err, p)
			}
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C28

func casesMerkleTamper(tier string) []Case {
	var cs []Case
	// every pair (content at build time, content at verification time)
	k := 3
	for n := 1; n <= pick(tier, 5, 6); n++ {
		n := n
		for first := 0; first < k; first++ {
			first := first
			cs = append(cs, Case{fmt.Sprintf("pairs/%d/%d", n, first), func(t *T) {
				a := [][]byte{mkHash(0), mkHash(1), mkHash(2), mkHash(3)}
				var all [][]int
				seqs(k, n, n, func(s []int) { all = append(all, s) })
				for _, s := range all {
					if s[0] != first {
						continue
					}
					hs := pick2(a, s)
					ps, _ := mkPays(hs, "fresh")
					tr, err, p := mkNew(ps)
					if p != "" || err != nil {
						t.Fail("merkle/new", "payloads %v: %s %v", s, p, err)
						return
					}
					root := mkRoot(hs)
					for _, s2 := range all {
						hs2 := pick2(a, s2)
						for i := range ps {
							ps[i].h = hs2[i]
						}
						want := fmt.Sprint(bytes.Equal(mkRoot(hs2), root))
						g := mkVerify(tr)
						t.Step("tree "+g, "pair", s, s2)
						if g != want {
							t.Fail("merkle/tampered-tree", "built over %v, now %v: VerifyTree %s, want %s", s, s2, g, want)
						}
						for x := range a {
							in := false
							for _, v := range s2 {
								in = in || v == x
							}
							same := fmt.Sprint(s) == fmt.Sprint(s2)
							g := mkContent(tr, &mkPay{h: a[x], fresh: true})
							t.Step("content "+g, "pairc", s, s2, x)
							if !in && g != "false" {
								t.Fail("merkle/absent", "built over %v, now %v: VerifyContent(%d), which is no leaf: %s", s, s2, x, g)
							}
							if same && in && g != "true" {
								t.Fail("merkle/present", "built over %v: VerifyContent(%d): %s", s, x, g)
							}
						}
					}
				}
				t.Sample("all pairs of contents of %d payloads over %d values", n, k)
			}})
		}
	}
	// one payload changed in trees of many sizes: neither its old nor its new
	// content is vouched for, and the tree is not
	for n := 1; n <= pick(tier, 40, 130); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("change/%d", n), func(t *T) {
			var hs [][]byte
			for i := 0; i < n; i++ {
				hs = append(hs, mkHash(i))
			}
			for _, mode := range []string{"held", "adjacent-reversed"} {
				ps, _ := mkPays(hs, mode)
				tr, err, p := mkNew(ps)
				if p != "" || err != nil {
					t.Fail("merkle/new", "%d payloads: %s %v", n, p, err)
					return
				}
				for i := range ps {
					old := ps[i].h
					for _, nv := range [][]byte{mkHash(-1), mkHash(i ^ 1), {}, flipBit(old, 0), flipBit(old, 255), append(clone(old), 0), clone(old[:31])} {
						cur := append([][]byte{}, hs...)
						cur[i] = nv
						ps[i].h = nv
						want := fmt.Sprint(bytes.Equal(mkRoot(cur), mkRoot(hs)))
						g := mkVerify(tr)
						t.Step("tree "+g, "change", n, i, nv)
						if g != want {
							t.Fail("merkle/changed-tree", "payload %d of %d changed: VerifyTree %s, want %s", i, n, g, want)
						}
						isMember := func(h []byte) bool {
							for q, c := range cur {
								if q != i && bytes.Equal(c, h) {
									return true
								}
							}
							return false
						}
						if g := mkContent(tr, &mkPay{h: old, fresh: true}); g != "false" && !isMember(old) {
							t.Fail("merkle/changed-old", "payload %d of %d changed: its former content: VerifyContent %s", i, n, g)
						}
						if g := mkContent(tr, &mkPay{h: nv, fresh: true}); g != "false" && !isMember(nv) {
							t.Fail("merkle/changed-new", "payload %d of %d changed: its new content: VerifyContent %s", i, n, g)
						}
					}
					ps[i].h = old
				}
				if g := mkVerify(tr); g != "true" {
					t.Fail("merkle/restored", "%d payloads, changed and restored: VerifyTree %s", n, g)
				}
				// no payload that is not there
				for x := -3; x < 2*n+4; x++ {
					want := fmt.Sprint(x >= 0 && x < n)
					g := mkContent(tr, &mkPay{h: mkHash(x), fresh: true})
					t.Step("content "+g, "member", n, x)
					if g != want {
						t.Fail("merkle/membership", "%d payloads: VerifyContent of value %d: %s, want %s", n, x, g, want)
					}
				}
				// inner node hashes are no members
				for l, lv := range mkLevels(hs)[1:] {
					for i, h := range lv {
						if g := mkContent(tr, &mkPay{h: h, fresh: true}); g != "false" {
							t.Fail("merkle/inner-member", "%d payloads: inner node %d of level %d passes as content: %s", n, i, l+1, g)
						}
					}
				}
				// the reported root is altered
				root := tr.MerkleRoot
				alts := [][]byte{nil, {}, append(clone(root), 0), clone(root[:31]), mkHash(0), make([]byte, 32)}
				for b := 0; b < 256; b++ {
					alts = append(alts, flipBit(root, b))
				}
				for b, alt := range alts {
					tr.MerkleRoot = alt
					g := mkVerify(tr)
					t.Step("root "+g, "root", n, mode, b)
					if g != "false" {
						t.Fail("merkle/root", "%d payloads: reported root altered (%d): VerifyTree %s", n, b, g)
					}
				}
				tr.MerkleRoot = root
				// a node's recorded hash on the way up is altered
				for i, l := range tr.Leaves {
					if l.IsDup {
						continue
					}
					for up, nd := 1, l.Parent; nd != nil; up, nd = up+1, nd.Parent {
						h := nd.Hash
						for _, b := range []int{0, 77, 255} {
							nd.Hash = flipBit(h, b)
							g := mkContent(tr, ps[i])
							t.Step("path "+g, "path", n, i, up, b)
							if g != "false" {
								t.Fail("merkle/path", "%d payloads: the hash %d levels above payload %d altered: VerifyContent %s", n, up, i, g)
							}
						}
						nd.Hash = h
					}
				}
				if w := mkCheck(tr, ps, hs); w != "" {
					t.Fail("merkle/restored", "%d payloads: after restoring all alterations: %s", n, w)
				}
			}
		}})
	}
	// every failing hash computation
	for n := 1; n <= pick(tier, 9, 20); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("fault/%d", n), func(t *T) {
			mk := func() ([]*mkPay, *mkFault) {
				var hs [][]byte
				for i := 0; i < n; i++ {
					hs = append(hs, mkHash(i))
				}
				ps, _ := mkPays(hs, "fresh")
				f := &mkFault{n: -1}
				for _, p := range ps {
					p.f = f
				}
				return ps, f
			}
			for _, op := range []string{"new", "verify", "content-first", "content-last", "content-absent", "rebuild"} {
				for fa := 0; fa < 4*(6*n+8); fa++ {
					at, with := fa/4, fa%4
					ps, f := mk()
					f.with = with
					var tr *merkletree.Tree
					if op != "new" {
						var err error
						var p string
						if tr, err, p = mkNew(ps); p != "" || err != nil {
							t.Fail("merkle/new", "%d payloads: %s %v", n, p, err)
							return
						}
					}
					f.calls, f.n = 0, at
					g := ""
					switch op {
					case "new":
						x, err, p := mkNew(ps)
						g = p
						if p == "" {
							g = errStr(err)
							if err != nil && x != nil {
								g = "a tree with an error"
							}
						}
					case "verify":
						g = mkVerify(tr)
					case "content-first":
						g = mkContent(tr, ps[0])
					case "content-last":
						g = mkContent(tr, ps[n-1])
					case "content-absent":
						g = mkContent(tr, &mkPay{h: mkHash(-5), fresh: true, f: f})
					case "rebuild":
						var err error
						g = panics(func() { err = tr.RebuildTree() })
						if g == "" {
							g = errStr(err)
						}
					}
					if f.calls <= at { // the fault did not come into play
						break
					}
					t.Step(op+" "+g, "fault", n, op, at, with)
					if g != "error" {
						t.Fail("merkle/fault/"+op, "%d payloads, hash computation %d fails (kind %d): %s: %s, want an error", n, at, with, op, g)
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C29

// mkWorld is a history's state: the tree, the payloads, the model.
type mkWorld struct {
	pool  []*mkPay
	now   []int // hash index of each payload, now
	list  []int // the payloads the tree was last built over
	built []int // their hash indices then
	tr    *merkletree.Tree
	prev  []*merkletree.Tree
	mem   func() bool
}

type mkOp struct {
	name string
	run  func(w *mkWorld) string // "" or what is wrong
}

func (w *mkWorld) hashes(ix []int) [][]byte {
	var o [][]byte
	for _, i := range ix {
		o = append(o, mkHash(i))
	}
	return o
}

func (w *mkWorld) pays(list []int) []*mkPay {
	var o []*mkPay
	for _, i := range list {
		o = append(o, w.pool[i])
	}
	return o
}

func (w *mkWorld) current(list []int) []int {
	var o []int
	for _, i := range list {
		o = append(o, w.now[i])
	}
	return o
}

func mkOps() []mkOp {
	lists := [][]int{{0}, {0, 1}, {2, 1, 0}, {0, 0, 1}, {4, 3, 2, 1, 0}}
	var ops []mkOp
	for _, l := range lists {
		l := l
		ops = append(ops, mkOp{"using " + ivec(l), func(w *mkWorld) string {
			pl := mkList(w.pays(l))
			buf := append(append(make([]merkletree.Payload, 0, len(pl)+3), pl...), w.pool[4], w.pool[3])
			if err := w.tr.RebuildTreeUsing(buf[:len(pl)]); err != nil {
				return "refused: " + err.Error()
			}
			if buf[len(pl)] != merkletree.Payload(w.pool[4]) || buf[len(pl)+1] != merkletree.Payload(w.pool[3]) {
				return "the caller's payload array was written to beyond its end"
			}
			for i := range pl {
				if buf[i] != pl[i] {
					return "the caller's payload slice was changed"
				}
				buf[i] = w.pool[3] // the caller goes on using its slice
			}
			w.list, w.built = l, w.current(l)
			return ""
		}})
	}
	ops = append(ops, mkOp{"rebuild", func(w *mkWorld) string {
		if err := w.tr.RebuildTree(); err != nil {
			return "refused: " + err.Error()
		}
		w.built = w.current(w.list)
		return ""
	}})
	for _, nilList := range []bool{true, false} {
		nilList := nilList
		ops = append(ops, mkOp{fmt.Sprint("using nothing ", nilList), func(w *mkWorld) string {
			var pl []merkletree.Payload
			if !nilList {
				pl = []merkletree.Payload{}
			}
			if err := w.tr.RebuildTreeUsing(pl); err == nil {
				return "a rebuild over no payloads is accepted"
			}
			return ""
		}})
	}
	for _, bad := range []int{0, 1} {
		bad := bad
		ops = append(ops, mkOp{fmt.Sprint("using a failing payload at ", bad), func(w *mkWorld) string {
			ps := w.pays([]int{3, 4})
			ps[bad] = &mkPay{bad: true}
			if err := w.tr.RebuildTreeUsing(mkList(ps)); err == nil {
				return "a rebuild over a failing payload is accepted"
			}
			return ""
		}})
	}
	ops = append(ops, mkOp{"rebuild while payload 0 fails", func(w *mkWorld) string {
		in := false
		for _, i := range w.list {
			in = in || i == 0
		}
		w.pool[0].bad = true
		err := w.tr.RebuildTree()
		w.pool[0].bad = false
		if in == (err == nil) {
			return fmt.Sprintf("payload 0 in the tree: %v, rebuild: %v", in, err)
		}
		if err == nil {
			w.built = w.current(w.list)
		}
		return ""
	}})
	ops = append(ops, mkOp{"payload 0 changes", func(w *mkWorld) string {
		w.now[0] = w.now[0]%10 + 10 + (w.now[0]/10%2)*10 // 0 -> 10 -> 20 -> 10 ...
		w.pool[0].h = mkHash(w.now[0])
		return ""
	}})
	ops = append(ops, mkOp{"verify", func(w *mkWorld) string {
		mkVerify(w.tr)
		for _, p := range w.pool {
			mkContent(w.tr, p)
		}
		return ""
	}})
	ops = append(ops, mkOp{"another tree", func(w *mkWorld) string {
		tr, err := merkletree.NewTree(mkList(w.pays([]int{1, 0, 2})))
		if err != nil {
			return err.Error()
		}
		old := w.tr
		w.prev = append(w.prev, tr)
		// rebuilding the other tree leaves this one alone
		if err := tr.RebuildTreeUsing(mkList(w.pays([]int{1}))); err != nil {
			return err.Error()
		}
		if w.tr != old {
			return "?"
		}
		return ""
	}})
	return ops
}

func casesMerkleHistory(tier string) []Case {
	var cs []Case
	depth := pick(tier, 4, 6)
	ops := mkOps()
	for _, mode := range []string{"held", "spare", "adjacent-reversed"} {
		mode := mode
		for f := range ops {
			f := f
			cs = append(cs, Case{fmt.Sprintf("history/%s/%d", mode, f), func(t *T) {
				seqs(len(ops), 0, depth-1, func(tail []int) {
					h := append([]int{f}, tail...)
					w := &mkWorld{now: []int{0, 1, 2, 3, 4}, list: []int{0, 1, 2}}
					var hs [][]byte
					for _, i := range w.now {
						hs = append(hs, mkHash(i))
					}
					w.pool, w.mem = mkPays(hs, mode)
					tr, err, p := mkNew(w.pays(w.list))
					if p != "" || err != nil {
						t.Fail("merkle/new", "%s %v", p, err)
						return
					}
					w.tr = tr
					w.built = w.current(w.list)
					name := "3 payloads"
					for d, o := range h {
						name += "; " + ops[o].name
						var bad string
						if p := panics(func() { bad = ops[o].run(w) }); p != "" {
							bad = p
						}
						if d < len(h)-1 && bad == "" {
							continue // judged in the shorter history
						}
						t.Trans(1)
						if bad == "" {
							bad = mkCheck(w.tr, w.pays(w.list), w.hashes(w.built))
						}
						if bad == "" {
							want := fmt.Sprint(bytes.Equal(mkRoot(w.hashes(w.current(w.list))), mkRoot(w.hashes(w.built))))
							g := mkVerify(w.tr)
							t.Out("verify " + g)
							if g != want {
								bad = fmt.Sprintf("VerifyTree %s, want %s", g, want)
							}
						}
						if bad == "" {
							for i, p := range w.pool {
								in := false
								for _, q := range w.list {
									in = in || w.now[q] == w.now[i]
								}
								if fmt.Sprint(w.current(w.list)) != fmt.Sprint(w.built) && in {
									continue
								}
								if g := mkContent(w.tr, p); g != fmt.Sprint(in) {
									bad = fmt.Sprintf("VerifyContent of payload %d: %s", i, g)
								}
							}
						}
						if bad == "" && w.mem() {
							bad = "the payloads' memory was written to"
						}
						if bad != "" {
							t.Fail("merkle/history/"+ops[o].name, "hashes %s: %s: %s", mode, name, bad)
						}
						t.State(mode, w.list, w.built, w.now, len(w.prev))
						break
					}
					t.Trace()
				})
				t.Sample("every history of up to %d operations beginning with %q, hashes %s", depth, ops[f].name, mode)
			}})
		}
	}
	return cs
}

func init() {
	register(&Prop{ID: "C27", Level: "model_checking",
		Rule:  "every number of payloads up to 140 (1200) and around powers of two up to 4096 (65536), every payload sequence over small alphabets, every combination of hash lengths, in six memory layouts of the hashes; the whole tree is compared, node by node, with a reference built with the standard library's SHA3; a state is a distinct (root, number of payloads)",
		Notes: []string{"payloads return the same hash every time while a tree is built"},
		Cases: func(tier string) []Case { return append(casesMerkleRoot(tier), casesMerkleLarge(tier)...) }})
	register(&Prop{ID: "C28", Level: "fault_enumeration",
		Rule:  "every pair of contents (when built, when verified) over three values, every single payload changed in trees of every size up to the bound, every bit of the root, every recorded hash on every way up, every failing hash computation, payload hashes changed in place and exchanged at the ends and around powers of two in trees of up to 1026 (4098), verified before, after and when restored, every leaf given another payload, every inner node's children exchanged, repeated or replaced, every node as the root, in trees of up to 36 (140); a case is one verification of one altered tree",
		Notes: []string{"a recorded hash that is not above the payload asked about is not claimed to matter to VerifyContent"},
		Cases: func(tier string) []Case {
			return concat(casesMerkleTamper(tier), casesMerkleLargeTamper(tier), casesMerkleStructure(tier))
		}})
	register(&Prop{ID: "C29", Level: "model_checking",
		Rule: "every history of rebuilds, failing rebuilds, payload changes and uses of other trees up to the depth, rebuilds between every ordered pair of 18 (24) sizes, failing payloads at the ends and around powers of two, copies of the tree taken between rebuilds of every triple of 11 sizes, lists of up to 6 (8) payloads in every pattern of the same object standing several times, replayed on the real tree and compared after every step with the model (list of payloads and their hashes when last built); a state is (payload list, hashes when built, hashes now)",
		Cases: func(tier string) []Case {
			return concat(casesMerkleHistory(tier), casesMerkleSizes(tier), casesMerkleCopies(tier), casesMerkleSame(tier))
		}})
}
