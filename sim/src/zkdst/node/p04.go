package main

import (
	"fmt"
	"math/big"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C04: altered proofs are never accepted. An honest proof travels over a network and sits on a disk that corrupt it;
// whatever a verifier then accepts must satisfy every verification equation.

func init() {
	scenarios["C04"] = &scenario{gen: gen04, op: op04}
}

func gen04(r *R, tier string, p *Plan) {
	clients := 1 + r.n(3)
	n := 8 + r.n(10)
	for i := 0; i < n; i++ {
		o := Op{T: "tamper", C: r.n(clients), Seed: r.u64(), K: proofKinds[r.n(len(proofKinds))]}
		if r.p(1, 10) {
			o.K = refzk.Range
		}
		k := 30
		if o.K == refzk.Range {
			k = 4
		}
		o.N = []int64{int64(k), int64(r.n(3))}
		p.Ops = append(p.Ops, o)
	}
}

var blocks = []int{1, 2, 4, 8, 16, 32, 64, 512}

// corrupt damages raw bytes.
func corrupt(r *R, b, other []byte) ([]byte, string) {
	o := append([]byte(nil), b...)
	n := len(o)
	if n == 0 {
		return o, "nothing"
	}
	switch r.n(11) {
	case 0, 1:
		i := r.n(n)
		o[i] ^= 1 << uint(r.n(8))
		return o, "bit flip"
	case 2:
		for k := 1 + r.n(4); k > 0; k-- {
			o[r.n(n)] ^= byte(1 + r.n(255))
		}
		return o, "byte errors"
	case 3:
		return o[:r.n(n)], "truncated"
	case 4:
		k := blocks[r.n(len(blocks))]
		i := r.n((n+k-1)/k) * k
		for j := i; j < n && j < i+k; j++ {
			o[j] = 0
		}
		return o, "zero-filled block"
	case 5: // torn write: the tail is what was there before
		i := r.n(n)
		for j := i; j < n; j++ {
			if j < len(other) {
				o[j] = other[j]
			} else {
				o[j] = 0
			}
		}
		return o, "torn write over older proof"
	case 6:
		i, k := r.n(n), 1+r.n(8)
		return append(append(append([]byte(nil), o[:i]...), r.bytes(k)...), o[i:]...), "bytes inserted"
	case 7:
		i, k := r.n(n), 1+r.n(8)
		if i+k > n {
			k = n - i
		}
		return append(append([]byte(nil), o[:i]...), o[i+k:]...), "bytes lost"
	case 8:
		k := blocks[r.n(len(blocks))]
		i, j := r.n((n+k-1)/k)*k, r.n((n+k-1)/k)*k
		for m := 0; m < k && i+m < n && j+m < n; m++ {
			o[i+m], o[j+m] = o[j+m], o[i+m]
		}
		return o, "blocks swapped"
	case 9:
		return append(o, r.bytes(1+r.n(40))...), "bytes appended"
	}
	i := r.n(n)
	o[i] = byte([]int{0, 1, 0x7f, 0x80, 0xff, 0xfd, 0xfe, 31, 32, 33}[r.n(10)])
	return o, "byte overwritten"
}

// tamper alters decoded fields.
func tamper(r *R, kind string, p, other *refzk.Proof) (*refzk.Proof, string) {
	q := p.Clone()
	t, o := q, other
	if q.Sub != nil && r.p(1, 3) {
		t, o = q.Sub, other.Sub
	}
	field := func() (bool, int) { // point?, index
		k := r.n(len(t.P) + len(t.I))
		return k < len(t.P), k
	}
	isP, k := field()
	if isP {
		pt, on := t.P[k].Point()
		switch r.n(9) {
		case 0:
			if f := r.twist(); on && r.p(1, 2) {
				t.P[k] = pt.Mul(f).XY()
				return q, fmt.Sprintf("point %d twisted", k)
			}
			t.P[k] = refzk.XY{X: t.P[k].X, Y: new(big.Int).Sub(refzk.P, t.P[k].Y)}
			if t.P[k].X.Sign() == 0 {
				t.P[k].Y = new(big.Int)
			}
			return q, fmt.Sprintf("point %d negated", k)
		case 1:
			if on {
				t.P[k] = pt.Add([]refzk.Point{refzk.G, refzk.H, refzk.G.Neg()}[r.n(3)]).XY()
			}
			return q, fmt.Sprintf("point %d shifted", k)
		case 2:
			t.P[k] = zeroXY
			return q, fmt.Sprintf("point %d zeroed", k)
		case 3:
			if k < len(o.P) {
				t.P[k] = o.P[k]
			}
			return q, fmt.Sprintf("point %d spliced", k)
		case 4:
			j := r.n(len(t.P))
			t.P[k], t.P[j] = t.P[j], t.P[k]
			return q, fmt.Sprintf("points %d %d swapped", k, j)
		case 5:
			t.P[k] = refzk.XY{X: t.P[k].Y, Y: t.P[k].X}
			return q, fmt.Sprintf("point %d coordinates swapped", k)
		case 6:
			t.P[k] = refzk.XY{X: new(big.Int).Xor(t.P[k].X, new(big.Int).Lsh(big.NewInt(1), uint(r.n(256)))), Y: t.P[k].Y}
			return q, fmt.Sprintf("point %d X bit", k)
		case 7:
			t.P[k] = refzk.XY{X: t.P[k].X, Y: new(big.Int).Xor(t.P[k].Y, new(big.Int).Lsh(big.NewInt(1), uint(r.n(256))))}
			return q, fmt.Sprintf("point %d Y bit", k)
		}
		t.P[k] = t.P[r.n(len(t.P))]
		return q, fmt.Sprintf("point %d copied", k)
	}
	k -= len(t.P)
	one := big.NewInt(1)
	switch r.n(10) {
	case 0:
		t.I[k].Neg(t.I[k])
		return q, fmt.Sprintf("int %d negated", k)
	case 1:
		t.I[k].Add(t.I[k], one)
		return q, fmt.Sprintf("int %d +1", k)
	case 2:
		t.I[k].Xor(new(big.Int).Abs(t.I[k]), new(big.Int).Lsh(one, uint(r.n(256))))
		return q, fmt.Sprintf("int %d bit", k)
	case 3:
		t.I[k] = new(big.Int)
		return q, fmt.Sprintf("int %d zeroed", k)
	case 4:
		j := r.n(len(t.I))
		t.I[k], t.I[j] = t.I[j], t.I[k]
		return q, fmt.Sprintf("ints %d %d swapped", k, j)
	case 5:
		if k < len(o.I) {
			t.I[k] = new(big.Int).Set(o.I[k])
		}
		return q, fmt.Sprintf("int %d spliced", k)
	case 6: // the same residue
		t.I[k].Add(t.I[k], refzk.N)
		return q, fmt.Sprintf("int %d + order", k)
	case 7:
		j := r.n(len(t.I)) // a sum is kept
		t.I[k] = refzk.AddM(t.I[k], big.NewInt(5))
		if j != k {
			t.I[j] = refzk.SubM(t.I[j], big.NewInt(5))
		}
		return q, fmt.Sprintf("ints %d %d traded", k, j)
	case 8:
		t.I[k] = refzk.SubM(refzk.N, t.I[k])
		return q, fmt.Sprintf("int %d order minus", k)
	}
	t.I[k].Rsh(new(big.Int).Abs(t.I[k]), uint(8*(1+r.n(16))))
	return q, fmt.Sprintf("int %d shortened", k)
}

func op04(c *Ctx) {
	r := &c.rng
	o := c.Op
	s, w, b, ok := make03(c, o.K)
	if !ok {
		return
	}
	p, _, err := refzk.Decode(o.K, b)
	if err != nil {
		c.probe("library bytes not decodable by the reference")
		return
	}
	// an older proof of the same kind, for the same or another statement
	var older *refzk.Proof
	if o.K == refzk.Range {
		older, _, _ = refzk.ProveRange(len(p.P)-1, rangeBits(rangeValue(r), len(p.P)-1), r.nz, nil, nil)
	} else if s2, w2 := s, w; r.p(1, 2) {
		older = refProve(r, s2, w2)
	} else {
		s2, w2 := honest(r, o.K)
		older = refProve(r, s2, w2)
	}
	ob := older.Encode()
	todo := int(o.n(0))
	work := func(c *Ctx, from, to int) {
		for i := from; i < to; i++ {
			r := &R{s: simrt.Mix(o.Seed, uint64(i)+77)}
			var m []byte
			var what string
			if r.p(1, 2) {
				m, what = corrupt(r, b, ob)
			} else {
				var q *refzk.Proof
				q, what = tamper(r, o.K, p, older)
				m = q.Encode()
			}
			if eqBytes(m, b) {
				continue
			}
			c.fault("tamper: " + generic(what))
			v := receive(s, m)
			good := false
			if v.accepted() {
				q, _, err := refzk.Decode(o.K, m)
				good = err == nil && refzk.Verify(s, q)
				if good {
					c.probe("still a valid proof: " + generic(what))
				} else {
					c.viol("altered proof accepted", "%s, %s: %s", o.K, what, v)
				}
			}
			if v.pan != nil {
				c.probe("panic ignored here")
			}
			c.kase("%s %s %x: %s", o.K, what, simrt.Mix(o.Seed, uint64(i)), v.short())
		}
	}
	if o.n(1) == 1 { // two verifiers read from the same damaged disk concurrently
		h := c.spawn("verifier", r.u64(), func(c *Ctx) { work(c, 0, todo/2) })
		work(c, todo/2, todo)
		c.join(h)
	} else {
		work(c, 0, todo)
	}
}

// generic drops digits from a fault name.
func generic(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			continue
		}
		if s[i] == ' ' && len(b) > 0 && b[len(b)-1] == ' ' {
			continue
		}
		b = append(b, s[i])
	}
	return string(b)
}
