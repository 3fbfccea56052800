package main

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"

	"zkdst/refzk"
)

// C03: a proof is bound to its exact statement. Honest proofs are replayed, misdelivered and adapted.

func init() {
	scenarios["C03"] = &scenario{gen: gen03, op: op03}
}

var mauls = map[string][]string{
	refzk.GSPFS: {"shiftA", "scaleBase", "shiftT", "negate"},
	refzk.Equiv: {"shiftR", "shiftT", "scaleBases", "swap", "negate"},
	refzk.Disj:  {"shiftR1", "shiftR2", "shiftT1", "shiftT2", "moveC", "swap", "negate"},
	refzk.Cons:  {"shiftG", "shiftH", "shiftT", "scalePK", "negate"},
	refzk.ABC:   {"shiftTok", "shiftG", "shiftB", "negate", "scaleTok"},
	refzk.Ineq:  {"shiftTok", "shiftG", "shiftB", "negate", "scaleTok"},
	refzk.Range: {"shiftH", "shiftOne", "negate", "shiftG", "permute"},
}

func gen03(r *R, tier string, p *Plan) {
	clients := 1 + r.n(3)
	n := 12 + r.n(12)
	for i := 0; i < n; i++ {
		o := Op{T: "replay", C: r.n(clients), Seed: r.u64()}
		o.K = proofKinds[r.n(len(proofKinds))]
		if r.p(1, 12) {
			o.K = refzk.Range
		}
		if r.p(1, 2) {
			o.T = "maul"
			o.A = r.pick(mauls[o.K])
		}
		o.N = []int64{0, int64(r.n(3))}
		if o.K != refzk.Range && r.p(1, 3) { // the statement is completed after the challenge
			var om []string
			for _, a := range attacks[o.K] {
				if omitOf(a) >= 0 {
					om = append(om, a)
				}
			}
			o.T, o.A = "late", r.pick(om)
			o.N[0] = -1
			if r.p(1, 2) {
				o.N[0] = int64(r.n(nElems[o.K]))
			}
		}
		p.Ops = append(p.Ops, o)
	}
}

// make03 gets an honest proof from the library.
func make03(c *Ctx, kind string) (refzk.Stmt, *Wit, []byte, bool) {
	r := &c.rng
	var s refzk.Stmt
	var w *Wit
	var obj interface{}
	var err error
	ent := &Ent{Seed: c.Op.Seed, FailAt: -1}
	pn := guard(func() {
		if kind == refzk.Range {
			v := rangeValue(r)
			var p *zk.RangeProof
			var rr *big.Int
			with(ent, func() { p, rr, err = zk.NewRangeProof(cv, cp(v)) })
			if err == nil {
				s = refzk.Stmt{Kind: kind, P: []refzk.Point{refzk.Commit(v, rr)}}
				w = &Wit{V: v, R: rr}
				obj = p
			}
			return
		}
		s, w = honest(r, kind)
		with(ent, func() { obj, err = prove(s, w) })
	})
	if pn != nil || err != nil || obj == nil {
		c.probe("honest prover failed (C01's business)")
		return s, w, nil, false
	}
	return s, w, libBytes(obj), true
}

func op03(c *Ctx) {
	o := c.Op
	r := &c.rng
	if o.T == "late" {
		for i := 0; i < 3; i++ {
			if s, p := forge(r, o.K, o.A, int(o.n(0))); p != nil {
				c.present(s, p, attackName(o.K, o.A, int(o.n(0))))
			}
		}
		return
	}
	s, _, b, ok := make03(c, o.K)
	if !ok {
		return
	}
	p, _, err := refzk.Decode(o.K, b)
	if err != nil {
		c.probe("library bytes not decodable by the reference")
		return
	}
	if o.T == "maul" {
		for i := 0; i < 3; i++ {
			s2, p2 := maul(r, s, p.Clone(), o.A)
			c.fault("proof adapted by a third party")
			c.offer(s, s2, p2.Encode(), o.K+"/"+o.A)
		}
		return
	}
	// replay against other statements
	for i := 0; i < 6; i++ {
		s2 := refzk.Stmt{Kind: s.Kind, P: append([]refzk.Point(nil), s.P...)}
		lo := 0
		if s.Kind == refzk.GSPFS {
			lo = 1
		}
		k := lo + r.n(len(s.P)-lo)
		name := ""
		switch r.n(10) {
		case 0:
			s2.P[k] = s2.P[k].Mul(r.twist())
			name = "twisted"
		case 1:
			s2.P[k] = refzk.Ident
			name = "identity"
		case 2:
			s2.P[k] = liftPoint(r)
			name = "other"
		case 3:
			s2.P[k] = s2.P[k].Add([]refzk.Point{refzk.G, refzk.H, s.P[0]}[r.n(3)])
			name = "shifted"
		case 4:
			j := lo + r.n(len(s.P)-lo)
			s2.P[k], s2.P[j] = s2.P[j], s2.P[k]
			name = "swapped"
		case 5:
			if len(s.P) == 4 {
				s2.P[0], s2.P[1], s2.P[2], s2.P[3] = s.P[2], s.P[3], s.P[0], s.P[1]
			} else {
				s2.P[k] = s2.P[k].Add(s2.P[k])
			}
			name = "reordered"
		case 6:
			f := edgeNZ(r)
			for i := lo; i < len(s.P); i++ {
				s2.P[i] = s.P[i].Mul(f)
			}
			name = "scaled"
		case 7:
			f := r.twist()
			for i := lo; i < len(s.P); i++ {
				s2.P[i] = s.P[i].Mul(f)
			}
			name = "all twisted"
		case 8:
			t, _ := honest3(r, s.Kind)
			for i := lo; i < len(s.P); i++ {
				s2.P[i] = t.P[i]
			}
			name = "another session"
		case 9:
			s2.P[k] = []refzk.Point{refzk.G, refzk.H}[r.n(2)]
			name = "generator"
		}
		c.fault("proof replayed or misdelivered")
		c.offer(s, s2, b, fmt.Sprintf("%s/%s[%d]", s.Kind, name, k))
	}
	if s.Kind == refzk.GSPFS { // another base, in the proof and in the statement
		p2 := p.Clone()
		s2 := refzk.Stmt{Kind: s.Kind, P: append([]refzk.Point(nil), s.P...)}
		s2.P[0] = someBase(r)
		if r.p(1, 3) {
			s2.P[0] = s.P[0].Mul(r.twist())
		}
		p2.P[0] = s2.P[0].XY()
		c.fault("proof replayed or misdelivered")
		c.offer(s, s2, p2.Encode(), "gspfs/base")
	}
	// a proof of another kind: the same bytes read as something else
	ks := []string{refzk.Equiv, refzk.Disj}
	if s.Kind == refzk.Equiv || s.Kind == refzk.Disj {
		s2 := s
		s2.Kind = ks[r.n(2)]
		if s2.Kind != s.Kind {
			c.fault("proof replayed or misdelivered")
			c.offer(s, s2, b, s.Kind+"/as "+s2.Kind)
		}
	}
}

func honest3(r *R, kind string) (refzk.Stmt, *Wit) {
	if kind == refzk.Range {
		return refzk.Stmt{Kind: kind, P: []refzk.Point{refzk.Commit(rangeValue(r), r.nz())}}, nil
	}
	return honest(r, kind)
}

// offer presents bytes for statement s2 (the proof was made for s).
func (c *Ctx) offer(s, s2 refzk.Stmt, b []byte, name string) {
	same := s.Kind == s2.Kind
	for i := range s.P {
		same = same && i < len(s2.P) && s.P[i].Eq(s2.P[i])
	}
	same = same && len(s.P) == len(s2.P)
	if same {
		c.probe("statement unchanged")
		return
	}
	// witnessed by the equations themselves: degenerate statements (identity everywhere) may coincide
	if p, _, err := refzk.Decode(s2.Kind, b); err == nil && refzk.Verify(s2, p) {
		c.probe("proof satisfies the other statement too")
		return
	}
	var v2 verdict
	var h *helper
	if c.Op.n(1) == 1 {
		h = c.spawn("verifier", c.rng.u64(), func(c *Ctx) { v2 = receive(s2, b) })
	}
	v := receive(s2, b)
	if h != nil {
		c.join(h)
		if v2.accepted() {
			v = v2
		}
	}
	c.kase("%s %x: %s", name, c.rng.s, v.short())
	if v.accepted() {
		c.viol("proof accepted for another statement", "%s: %s", name, v)
	}
}

// maul adapts a proof to a related statement so that every equation still holds for the old challenge.
func maul(r *R, s refzk.Stmt, p *refzk.Proof, how string) (refzk.Stmt, *refzk.Proof) {
	d := r.nz()
	if r.p(1, 4) {
		d = big.NewInt(int64(1 + r.n(5)))
	}
	s2 := refzk.Stmt{Kind: s.Kind, P: append([]refzk.Point(nil), s.P...)}
	add := func(xy refzk.XY, q refzk.Point) refzk.XY {
		a, ok := xy.Point()
		if !ok {
			return xy
		}
		return a.Add(q).XY()
	}
	f := r.twist()
	neg := func(xy refzk.XY) refzk.XY {
		a, ok := xy.Point()
		if !ok {
			return xy
		}
		return a.Mul(f).XY()
	}
	negAll := func() {
		for i := range p.P {
			if s.Kind == refzk.GSPFS && i == 0 {
				continue
			}
			p.P[i] = neg(p.P[i])
		}
	}
	switch s.Kind {
	case refzk.GSPFS: // T = sB + cA
		B, c := s.P[0], p.I[1]
		switch how {
		case "shiftA": // A+dB, s-cd
			s2.P[1] = s.P[1].Add(B.Mul(d))
			p.I[0] = refzk.SubM(p.I[0], refzk.MulM(c, d))
		case "scaleBase": // base B/d, s*d
			s2.P[0] = B.Mul(refzk.InvM(d))
			p.P[0] = s2.P[0].XY()
			p.I[0] = refzk.MulM(p.I[0], d)
		case "shiftT": // T+dB, s+d: same statement, other transcript, for a third statement
			p.P[1] = add(p.P[1], B.Mul(d))
			p.I[0] = refzk.AddM(p.I[0], d)
			s2.P[1] = s.P[1].Add(refzk.Ident)
			return mustDiffer(s, s2, p)
		case "negate":
			s2.P[1] = s.P[1].Mul(f)
			p.P[1] = neg(p.P[1])
			p.I[0] = refzk.MulM(p.I[0], f)
		}
	case refzk.Equiv: // sB = T + cR
		c := p.I[0]
		switch how {
		case "shiftR":
			s2.P[1], s2.P[3] = s.P[1].Add(s.P[0].Mul(d)), s.P[3].Add(s.P[2].Mul(d))
			p.I[1] = refzk.AddM(p.I[1], refzk.MulM(c, d))
		case "shiftT":
			p.P[0], p.P[1] = add(p.P[0], s.P[0].Mul(d)), add(p.P[1], s.P[2].Mul(d))
			p.I[1] = refzk.AddM(p.I[1], d)
			return mustDiffer(s, s2, p)
		case "scaleBases":
			i := refzk.InvM(d)
			s2.P[0], s2.P[2] = s.P[0].Mul(i), s.P[2].Mul(i)
			p.I[1] = refzk.MulM(p.I[1], d)
		case "swap":
			s2.P[0], s2.P[1], s2.P[2], s2.P[3] = s.P[2], s.P[3], s.P[0], s.P[1]
			p.P[0], p.P[1] = p.P[1], p.P[0]
		case "negate":
			k := r.n(2)
			s2.P[2*k], s2.P[2*k+1] = s.P[2*k].Mul(f), s.P[2*k+1].Mul(f)
			p.P[k] = neg(p.P[k])
		}
	case refzk.Disj:
		switch how {
		case "shiftR1", "shiftR2":
			k := int(how[6] - '1')
			s2.P[2*k+1] = s.P[2*k+1].Add(s.P[2*k].Mul(d))
			p.I[3+k] = refzk.AddM(p.I[3+k], refzk.MulM(p.I[1+k], d))
		case "shiftT1", "shiftT2":
			k := int(how[6] - '1')
			p.P[k] = add(p.P[k], s.P[2*k].Mul(d))
			p.I[3+k] = refzk.AddM(p.I[3+k], d)
			return mustDiffer(s, s2, p)
		case "moveC": // shift the shares, fix both commitments
			p.I[1], p.I[2] = refzk.AddM(p.I[1], d), refzk.SubM(p.I[2], d)
			p.P[0], p.P[1] = add(p.P[0], s.P[1].Mul(refzk.NegM(d))), add(p.P[1], s.P[3].Mul(d))
			return mustDiffer(s, s2, p)
		case "swap":
			s2.P[0], s2.P[1], s2.P[2], s2.P[3] = s.P[2], s.P[3], s.P[0], s.P[1]
			p.P[0], p.P[1] = p.P[1], p.P[0]
			p.I[1], p.I[2], p.I[3], p.I[4] = p.I[2], p.I[1], p.I[4], p.I[3]
		case "negate":
			k := r.n(2)
			s2.P[2*k], s2.P[2*k+1] = s.P[2*k].Mul(f), s.P[2*k+1].Mul(f)
			p.P[k] = neg(p.P[k])
		}
	case refzk.Cons: // s1G+s2H = T1+cCM ; s2PK = T2+cTok
		c := p.I[0]
		switch how {
		case "shiftG":
			s2.P[0] = s.P[0].Add(refzk.G.Mul(d))
			p.I[1] = refzk.AddM(p.I[1], refzk.MulM(c, d))
		case "shiftH":
			s2.P[0], s2.P[1] = s.P[0].Add(refzk.H.Mul(d)), s.P[1].Add(s.P[2].Mul(d))
			p.I[2] = refzk.AddM(p.I[2], refzk.MulM(c, d))
		case "shiftT":
			p.P[0] = add(p.P[0], refzk.G.Mul(d))
			p.I[1] = refzk.AddM(p.I[1], d)
			return mustDiffer(s, s2, p)
		case "scalePK":
			s2.P[1], s2.P[2] = s.P[1].Mul(d), s.P[2].Mul(d)
			t, _ := p.P[1].Point()
			p.P[1] = t.Mul(d).XY()
		case "negate":
			if r.p(1, 2) {
				s2.P[1], s2.P[2] = s.P[1].Mul(f), s.P[2].Mul(f)
				p.P[1] = neg(p.P[1])
			} else {
				s2.P[0], s2.P[1] = s.P[0].Mul(f), s.P[1].Mul(f)
				negAll()
				p.I[1], p.I[2] = refzk.MulM(p.I[1], f), refzk.MulM(p.I[2], f)
			}
		}
	case refzk.ABC, refzk.Ineq: // cCM+T1 = jG+kTok ; cC+T2 = jB+lH ; disj(CM,Tok,H,C-G)
		c := p.I[0]
		switch how {
		case "shiftTok":
			s2.P[0] = s.P[0].Add(s.P[1].Mul(d))
			p.I[2] = refzk.AddM(p.I[2], refzk.MulM(c, d))
			fixSub(r, s2, p)
		case "shiftG": // CM+dG, j+cd, T2+cdB
			s2.P[0] = s.P[0].Add(refzk.G.Mul(d))
			p.I[1] = refzk.AddM(p.I[1], refzk.MulM(c, d))
			B, _ := p.P[0].Point()
			p.P[3] = add(p.P[3], B.Mul(refzk.MulM(c, d)))
			fixSub(r, s2, p)
		case "shiftB": // T2+dH, l+d
			p.P[3] = add(p.P[3], refzk.H.Mul(d))
			p.I[3] = refzk.AddM(p.I[3], d)
			return mustDiffer(s, s2, p)
		case "scaleTok":
			s2.P[1] = s.P[1].Mul(d)
			p.I[2] = refzk.MulM(p.I[2], refzk.InvM(d))
			fixSub(r, s2, p)
		case "negate":
			s2.P[0], s2.P[1] = s.P[0].Mul(f), s.P[1].Mul(f)
			p.P[2] = neg(p.P[2])
			p.I[1] = refzk.MulM(p.I[1], f)
			b, _ := p.P[0].Point()
			p.P[0] = b.Mul(refzk.InvM(f)).XY()
			fixSub(r, s2, p)
		}
	case refzk.Range:
		n := len(p.P) - 1
		if n < 1 {
			return s2, p
		}
		switch how {
		case "shiftH", "shiftOne":
			k := 1 + r.n(n)
			p.P[k] = add(p.P[k], refzk.H.Mul(d))
			p.I[k] = refzk.AddM(p.I[k], refzk.MulM(p.I[0], d))
			p.P[0] = add(p.P[0], refzk.H.Mul(d))
			s2.P[0] = s.P[0].Add(refzk.H.Mul(d))
		case "shiftG":
			k := 1 + r.n(n)
			p.P[k] = add(p.P[k], refzk.RangeWeight(k-1))
			p.P[0] = add(p.P[0], refzk.RangeWeight(k-1))
			s2.P[0] = s.P[0].Add(refzk.RangeWeight(k - 1))
		case "negate":
			s2.P[0] = s.P[0].Mul(f)
			switch r.n(3) {
			case 0:
				negAll()
			case 1:
				p.P[0] = neg(p.P[0])
			}
		case "permute":
			a, b := 1+r.n(n), 1+r.n(n)
			p.P[a], p.P[b] = p.P[b], p.P[a]
			return mustDiffer(s, s2, p)
		}
	}
	return s2, p
}

// mustDiffer is for alterations of the transcript alone: the altered transcript is offered for the old statement, as a
// statement of its own.
func mustDiffer(s, s2 refzk.Stmt, p *refzk.Proof) (refzk.Stmt, *refzk.Proof) {
	s2.Kind = s.Kind
	s2.P = append(append([]refzk.Point(nil), s2.P...), refzk.Ident) // marks it as altered; the extra element is not used
	return s2, p
}

// fixSub replaces the sub-proof by one that fits the shifted statement as well as it can without a witness: the
// verification of the outer relations alone must fail.
func fixSub(r *R, s2 refzk.Stmt, p *refzk.Proof) {
	C, ok := p.P[1].Point()
	if !ok {
		return
	}
	st := refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{s2.P[0], s2.P[1], refzk.H, C.Sub(refzk.G)}}
	if C.Eq(refzk.G) { // inequality: the right side has the witness 0
		p.Sub = refzk.ProveDisj(st, 1, new(big.Int), r.nz(), r.nz(), r.nz())
		return
	}
	if r.p(1, 2) {
		_, p.Sub = forgeDisj(r, st, "chal", weakHash{-1, -1})
	}
}
