package main

import (
	"fmt"
	"math/big"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C20: a cluster in which only some nodes run the library; the others run an implementation written from the published
// protocols. Whoever made a transcript and however rare its shape, all verifiers must agree on it.

func init() {
	scenarios["C20"] = &scenario{gen: gen20, op: op20, pan: true, hang: true}
}

var rare20 = []string{"challenge short", "challenge ends in zeros", "challenge starts with ones", "commitment x short",
	"commitment y short", "both coordinates short", "commitment x ends in zeros", "response short", "response ends in zeros", "challenge and response short"}

func gen20(r *R, tier string, p *Plan) {
	clients := 1 + r.n(3)
	n := 8 + r.n(8)
	for i := 0; i < n; i++ {
		o := Op{C: r.n(clients), Seed: r.u64(), K: proofKinds[r.n(len(proofKinds))]}
		o.N = []int64{int64(4 + r.n(10)), int64(r.n(4)), int64(r.n(8))}
		switch k := r.n(12); {
		case k < 4:
			o.T = "foreign"
		case k < 6:
			o.T = "altered"
		case k < 8:
			o.T, o.A = "rare", rare20[r.n(len(rare20))]
			o.K = []string{refzk.GSPFS, refzk.Equiv, refzk.Disj, refzk.Cons, refzk.ABC, refzk.Ineq}[r.n(6)]
		case k < 10:
			o.T, o.A = "steered", rare20[r.n(len(rare20))]
			o.K = []string{refzk.GSPFS, refzk.Equiv, refzk.Disj, refzk.Cons}[r.n(4)]
		case k < 11:
			o.T, o.K = "foreign", refzk.Range
			o.N[0] = 1
		default:
			o.T, o.K, o.A = "rare", refzk.Range, rare20[r.n(len(rare20))]
		}
		p.Ops = append(p.Ops, o)
	}
}

// isRare tells whether a transcript element has the wanted shape; bits is how rare the shape is.
type shape20 struct {
	want string
	bits uint
}

func (h shape20) short(x *big.Int, b uint) bool { return x.BitLen() <= int(256-b) }
func (h shape20) is(c *big.Int, t refzk.Point, s func() *big.Int) bool {
	b := h.bits
	switch h.want {
	case "challenge short":
		return h.short(c, b)
	case "challenge ends in zeros":
		return c.Sign() == 0 || c.TrailingZeroBits() >= b
	case "challenge starts with ones":
		return new(big.Int).Rsh(c, 256-b).Cmp(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), b), big.NewInt(1))) == 0
	case "commitment x short":
		return h.short(t.X(), b)
	case "commitment y short":
		return h.short(t.Y(), b)
	case "both coordinates short":
		return h.short(t.X(), b/2) && h.short(t.Y(), b/2)
	case "commitment x ends in zeros":
		x := t.X()
		return x.Sign() == 0 || x.TrailingZeroBits() >= b
	case "response short":
		return h.short(s(), b)
	case "response ends in zeros":
		x := s()
		return x.Sign() == 0 || x.TrailingZeroBits() >= b
	case "challenge and response short":
		return h.short(c, b/2) && h.short(s(), b/2)
	}
	panic(h.want)
}

// grind20 looks for a first nonce that gives the transcript a rare shape. make builds the proof for a nonce; first is
// the commitment for nonce k, which moves by step when k moves by one; chal is the challenge and resp the response.
func grind20(k *big.Int, first, step refzk.Point, h shape20, chal func(i int, t refzk.Point) *big.Int, resp func(i int, c *big.Int) *big.Int) (*big.Int, bool) {
	i := refzk.Walk(first, step, 6<<h.bits, func(i int, t refzk.Point) bool {
		if t.Inf {
			return false
		}
		c := chal(i, t)
		return h.is(c, t, func() *big.Int { return resp(i, c) })
	})
	if i < 0 {
		return nil, false
	}
	return refzk.Shift(k, i), true
}

func shape(r *R, want string) shape20 {
	h := shape20{want, 8}
	switch r.n(8) {
	case 0, 1:
		h.bits = 12
	case 2, 3, 4, 5:
		h.bits = 16
	case 6:
		h.bits = 14
	}
	return h
}

// rareNonces finds the nonces of a rare transcript: the ground one first, in the order of refzk's provers.
func rareNonces(r *R, s refzk.Stmt, w *Wit, h shape20) ([]*big.Int, bool) {
	k := r.nz()
	switch s.Kind {
	case refzk.GSPFS:
		u, ok := grind20(k, s.P[0].Mul(k), s.P[0], h,
			func(i int, t refzk.Point) *big.Int { return refzk.Hash(s.P[0].XY(), s.P[1].XY(), t.XY()) },
			func(i int, c *big.Int) *big.Int { return refzk.SubM(refzk.Shift(k, i), refzk.MulM(c, w.X)) })
		return []*big.Int{u}, ok
	case refzk.Equiv:
		t2, at := s.P[2].Mul(k), 0
		next := func(i int) refzk.XY { // follows the walk
			for ; at < i; at++ {
				t2 = t2.Add(s.P[2])
			}
			return t2.XY()
		}
		if h.bits > 12 {
			h.bits = 12 // two commitments move: dearer
		}
		u, ok := grind20(k, s.P[0].Mul(k), s.P[0], h,
			func(i int, t refzk.Point) *big.Int {
				return refzk.Hash(s.P[0].XY(), s.P[1].XY(), s.P[2].XY(), s.P[3].XY(), t.XY(), next(i))
			},
			func(i int, c *big.Int) *big.Int { return refzk.AddM(refzk.Shift(k, i), refzk.MulM(c, w.X)) })
		return []*big.Int{u}, ok
	case refzk.Disj:
		sim, cs := r.nz(), r.nz()
		a, b := 2*w.Side, 2-2*w.Side
		fixed := s.P[b].Mul(sim).Sub(s.P[b+1].Mul(cs)).XY()
		u, ok := grind20(k, s.P[a].Mul(k), s.P[a], h,
			func(i int, t refzk.Point) *big.Int {
				el := []refzk.XY{s.P[0].XY(), s.P[1].XY(), s.P[2].XY(), s.P[3].XY(), t.XY(), fixed}
				if w.Side == 1 {
					el[4], el[5] = el[5], el[4]
				}
				return refzk.Hash(el...)
			},
			func(i int, c *big.Int) *big.Int {
				return refzk.AddM(refzk.Shift(k, i), refzk.MulM(refzk.SubM(c, cs), w.X))
			})
		return []*big.Int{u, sim, cs}, ok
	case refzk.Cons:
		u2 := r.nz()
		t2 := s.P[2].Mul(u2).XY()
		pre := []refzk.XY{refzk.G.XY(), refzk.H.XY(), s.P[0].XY(), s.P[1].XY(), s.P[2].XY(), {}, t2}
		u, ok := grind20(k, refzk.Commit(k, u2), refzk.G, h,
			func(i int, t refzk.Point) *big.Int { pre[5] = t.XY(); return refzk.Hash(pre...) },
			func(i int, c *big.Int) *big.Int { return refzk.AddM(refzk.Shift(k, i), refzk.MulM(c, w.V)) })
		return []*big.Int{u, u2}, ok
	}
	panic("rareNonces " + s.Kind)
}

// rareProof is a reference proof of a rare shape.
func rareProof(r *R, s refzk.Stmt, w *Wit, h shape20) *refzk.Proof {
	switch s.Kind {
	case refzk.ABC, refzk.Ineq:
		// the third nonce moves only the second commitment
		n := refzk.ABCNonces{U1: r.nz(), U2: r.nz(), U3: r.nz(), UB: r.nz(), UC: r.nz(), D1: r.nz(), D2: r.nz(), D3: r.nz()}
		v := refzk.Mod(w.V)
		p := refzk.ProveABC(s, s.Kind, v, w.SK, n)
		t2, _ := p.P[3].Point()
		el := refzk.ChallengeElems(s, p)
		last := len(el) - 1
		uc := n.UC
		if s.Kind == refzk.Ineq {
			uc = new(big.Int)
		}
		d := refzk.SubM(uc, refzk.MulM(v, n.UB))
		u, ok := grind20(n.U3, t2, refzk.H, h,
			func(i int, t refzk.Point) *big.Int { el[last] = t.XY(); return refzk.Hash(el...) },
			func(i int, c *big.Int) *big.Int { return refzk.AddM(refzk.Shift(n.U3, i), refzk.MulM(c, d)) })
		if !ok {
			return nil
		}
		n.U3 = u
		return refzk.ProveABC(s, s.Kind, v, w.SK, n)
	}
	ns, ok := rareNonces(r, s, w, h)
	if !ok {
		return nil
	}
	switch s.Kind {
	case refzk.GSPFS:
		return refzk.ProveGSPFS(s.P[0], s.P[1], w.X, ns[0])
	case refzk.Equiv:
		return refzk.ProveEquiv(s, w.X, ns[0])
	case refzk.Disj:
		return refzk.ProveDisj(s, w.Side, w.X, ns[0], ns[1], ns[2])
	}
	return refzk.ProveCons(s, w.V, w.R, ns[0], ns[1])
}

// rareRange is a range proof of a value with a rare shape in its challenge, in an entry or in a response.
func rareRange(r *R, h shape20) (*refzk.Proof, refzk.Point, string) {
	const n = 40
	v := rangeValue(r)
	bits := rangeBits(v, n)
	one := -1 // an entry that commits to a set bit
	for i, b := range bits {
		if b == 1 && (one < 0 || r.p(1, 3)) {
			one = i
		}
	}
	if one < 0 {
		one, bits[0] = 0, 1
		v = big.NewInt(1)
	}
	zero := -1
	for i := range bits {
		if bits[i] == 0 && (zero < 0 || i > n-8 || r.p(1, 4)) {
			zero = i
		}
	}
	var second *big.Int
	// nonces in the order ProveRange asks for them
	k := make([]*big.Int, n)
	vv := make([]*big.Int, n)
	R := make([]refzk.Point, n)
	set := func(i int) {
		if bits[i] == 0 {
			R[i] = refzk.H.Mul(k[i])
			return
		}
		c := refzk.RangeWeight(i).Add(refzk.H.Mul(vv[i]))
		R[i] = c.Mul(refzk.Hash(refzk.H.Mul(k[i]).XY()))
	}
	for i := range k {
		k[i], vv[i] = r.nz(), r.nz()
		set(i)
	}
	xs := func() []refzk.XY {
		o := make([]refzk.XY, n)
		for i := range o {
			o[i] = R[i].XY()
		}
		return o
	}
	switch h.want {
	case "commitment x short", "commitment y short", "both coordinates short", "commitment x ends in zeros":
		// the entry itself
		u, ok := grind20(vv[one], refzk.RangeWeight(one).Add(refzk.H.Mul(vv[one])), refzk.H, h,
			func(int, refzk.Point) *big.Int { return refzk.N }, func(int, *big.Int) *big.Int { return refzk.N })
		if !ok {
			return nil, refzk.Ident, ""
		}
		vv[one] = u
		set(one)
	case "response short", "response ends in zeros", "challenge and response short":
		// an entry that commits to zero: its second nonce is drawn when the proof's challenge is known
		if zero < 0 {
			return nil, refzk.Ident, ""
		}
		E, w := refzk.Hash(xs()...), refzk.RangeWeight(zero)
		j0 := r.nz()
		j, ok := grind20(j0, refzk.H.Mul(j0).Add(w.Mul(E)), refzk.H, h,
			func(i int, t refzk.Point) *big.Int { return refzk.Hash(t.XY()) },
			func(i int, e *big.Int) *big.Int {
				return refzk.AddM(refzk.Shift(j0, i), refzk.MulM(E, refzk.MulM(refzk.InvM(e), k[zero])))
			})
		if !ok {
			return nil, refzk.Ident, ""
		}
		second = j
	default: // the proof's challenge: the nonce of an entry that commits to zero moves its R
		if zero < 0 {
			return nil, refzk.Ident, ""
		}
		el := xs()
		if h.bits > 14 && zero < n-8 {
			h.bits = 14
		}
		u, ok := grind20(k[zero], R[zero], refzk.H, h,
			func(i int, t refzk.Point) *big.Int { el[zero] = t.XY(); return refzk.Hash(el...) },
			func(int, *big.Int) *big.Int { return refzk.N })
		if !ok {
			return nil, refzk.Ident, ""
		}
		k[zero] = u
		set(zero)
	}
	var q []*big.Int
	for i := range k {
		q = append(q, k[i])
		if bits[i] == 1 {
			q = append(q, vv[i])
		}
	}
	for i := range bits {
		if bits[i] == 0 && i == zero && second != nil {
			q = append(q, second)
		} else if bits[i] == 0 {
			q = append(q, r.nz())
		}
	}
	p, comm, _ := refzk.ProveRange(n, bits, func() *big.Int {
		if len(q) > 0 {
			x := q[0]
			q = q[1:]
			return x
		}
		return r.nz()
	}, nil, nil)
	return p, comm, fmt.Sprintf("v=%v entry %d", v, one)
}

func op20(c *Ctx) {
	o := c.Op
	r := &c.rng
	switch o.T {
	case "foreign":
		for i := int64(0); i < o.n(0); i++ {
			if o.K == refzk.Range {
				v := rangeValue(r)
				if pn := guard(func() {
					r.sp = []int{0, 40, 10}[r.n(3)]
					p, comm, _ := refzk.ProveRange(40, rangeBits(v, 40), func() *big.Int { return fsc(r) }, nil, nil)
					r.sp = 0
					c.deliver20(refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{comm}}, p, fmt.Sprintf("foreign range v=%v", v))
				}); pn != nil {
					c.probe("no proof with these nonces")
				}
				r.sp = 0
				continue
			}
			s, w := honest(r, o.K)
			var p *refzk.Proof
			if pn := guard(func() {
				r.sp = []int{0, 6, 2}[r.n(3)]
				r.ms = nil
				if w.X != nil && r.p(1, 2) {
					r.ms = append(r.ms, refzk.Mod(w.X), refzk.NegM(w.X))
				}
				p = refProve(r, s, w)
			}); pn != nil {
				c.probe("no proof with these nonces")
			}
			r.sp, r.ms = 0, nil
			if p != nil {
				c.deliver20(s, p, "foreign prover, "+descr(s, w))
			}
		}
	case "rare":
		h := shape(r, o.A)
		var s refzk.Stmt
		var p *refzk.Proof
		what := ""
		if o.K == refzk.Range {
			var comm refzk.Point
			p, comm, what = rareRange(r, h)
			s = refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{comm}}
		} else {
			var w *Wit
			s, w = honest(r, o.K)
			if s.P[0].Inf || (o.K == refzk.Disj && s.P[2].Inf) {
				return
			}
			p, what = rareProof(r, s, w, h), descr(s, w)
		}
		if p == nil {
			c.probe("rare shape not found")
			return
		}
		c.fault(fmt.Sprintf("rare transcript: %s", o.A))
		c.probe(fmt.Sprintf("rarity 2^-%d", h.bits))
		c.deliver20(s, p, fmt.Sprintf("foreign prover, %s (2^-%d), %s", o.A, h.bits, what))
	case "steered":
		// the library's own prover, with entropy that leads to a rare transcript
		h := shape(r, o.A)
		s, w := honest(r, o.K)
		ns, ok := rareNonces(r, s, w, h)
		if !ok {
			c.probe("rare shape not found")
			return
		}
		// which draw plays which part is the library's business: now and then in another order
		for i := len(ns) - 1; i > 0 && r.p(1, 2); i-- {
			j := r.n(i + 1)
			ns[i], ns[j] = ns[j], ns[i]
		}
		e := &Ent{Seed: o.Seed, FailAt: -1, Queue: ns}
		var obj interface{}
		var err error
		with(e, func() { obj, err = prove(s, w) })
		what := fmt.Sprintf("library prover, entropy for %s (2^-%d), %s", o.A, h.bits, descr(s, w))
		if err != nil || obj == nil {
			c.viol("honest prover failed", "%s: %v", what, err)
			return
		}
		c.fault("entropy steered to a rare transcript")
		b := libBytes(obj)
		p, _, derr := refzk.Decode(o.K, b)
		if derr != nil {
			c.viol("foreign node cannot read the proof", "%s: %v", what, derr)
			return
		}
		if !refzk.Verify(s, p) {
			c.viol("foreign node rejects the proof", "%s", what)
		}
		c.deliverBytes20(s, b, what)
	case "altered":
		s, w := honest(r, o.K)
		p := refProve(r, s, w)
		s2, w2 := honest(r, o.K)
		if r.p(1, 2) {
			s2, w2 = s, w
		}
		other := refProve(r, s2, w2)
		for i := int64(0); i < o.n(0); i++ {
			q, what := tamper(r, o.K, p, other)
			for k := r.n(3); k > 0; k-- {
				var more string
				q, more = tamper(r, o.K, q, other)
				what += ", " + more
			}
			norm20(q)
			ok := refzk.Verify(s, q)
			v := receive(s, q.Encode())
			c.fault("altered transcript")
			if v.pan == nil && v.accepted() != ok {
				c.viol("nodes disagree about a transcript", "%s, %s: foreign verdict %v, library %s", o.K, what, ok, v)
			}
			c.kase("altered %s %s %x/%d: %v", o.K, what, o.Seed, i, ok)
		}
	}
}

// norm20 brings scalars to their canonical form.
func norm20(p *refzk.Proof) {
	for i := range p.I {
		p.I[i] = refzk.Mod(p.I[i])
	}
	if p.Sub != nil {
		norm20(p.Sub)
	}
}

func (c *Ctx) deliver20(s refzk.Stmt, p *refzk.Proof, what string) {
	if !refzk.Verify(s, p) {
		c.probe("reference prover made no proof")
		return
	}
	c.deliverBytes20(s, p.Encode(), what)
}

// deliverBytes20 sends a valid transcript to library nodes; several may work on it at once.
func (c *Ctx) deliverBytes20(s refzk.Stmt, b []byte, what string) {
	c.kase("%s %s: %x", s.Kind, what, simrt.Mix(c.Op.Seed, uint64(len(b))))
	check := func(c *Ctx) {
		v := receiveReusing(s, append([]byte(nil), b...))
		if v.decErr != nil || !v.ok || v.err != nil || v.pan != nil {
			c.viol("valid transcript rejected", "%s %s: %s", s.Kind, what, v)
			return
		}
		// a relay passes on what it received
		if out := libBytes(v.decoded); !eqBytes(out, b) {
			c.viol("relayed proof differs", "%s %s: %x became %x", s.Kind, what, b, out)
		}
		c.checks++
	}
	var hs []*helper
	for i := int64(0); i < c.Op.n(1)%3; i++ {
		hs = append(hs, c.spawn("verifier", c.rng.u64(), func(c *Ctx) {
			simrt.Sleep(int64(c.rng.n(1 << 16)))
			check(c)
		}))
	}
	check(c)
	c.join(hs...)
}
