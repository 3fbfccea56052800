package main

import (
	"math/big"

	zk "github.com/mit-dci/zksigma"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C02: no party gets a false statement accepted. Byzantine provers send forged transcripts to verifier nodes; a lying
// prover uses the library's own prover.

func init() {
	scenarios["C02"] = &scenario{gen: gen02, op: op02}
}

func gen02(r *R, tier string, p *Plan) {
	clients := 1 + r.n(3)
	n := 14 + r.n(16)
	for i := 0; i < n; i++ {
		o := Op{T: "forge", C: r.n(clients), Seed: r.u64()}
		switch k := r.n(24); {
		case k < 2:
			o.T, o.K = "open", "commit"
		case k < 3:
			o.T, o.K = "honest", proofKinds[r.n(len(proofKinds))]
		case k < 4:
			o.K, o.A = refzk.Range, rangeAttacks[r.n(len(rangeAttacks))]
		default:
			o.K = proofKinds[r.n(len(proofKinds))]
			o.A = r.pick(attacks[o.K])
			dup := -1
			if omitOf(o.A) >= 0 && r.p(1, 2) {
				dup = r.n(nElems[o.K])
			}
			o.N = []int64{int64(dup), int64(r.n(3)), []int64{0, 2, 4, 8}[r.n(4)]}
		}
		p.Ops = append(p.Ops, o)
	}
}

func op02(c *Ctx) {
	o := c.Op
	r := &c.rng
	switch {
	case o.T == "open":
		open02(c)
		return
	case o.T == "honest": // what the library proves and accepts has the hash of the full transcript as its challenge
		s, _, b, ok := make03(c, o.K)
		if !ok {
			return
		}
		if v := receive(s, b); v.accepted() {
			if p, _, err := refzk.Decode(o.K, b); err != nil || !refzk.Verify(s, p) {
				c.viol("accepted proof does not satisfy the protocol's equations", "%s: %v", o.K, err)
			}
			c.kase("honest %s %x", o.K, o.Seed)
		}
		return
	case o.K == refzk.Range:
		if r.p(1, 2) {
			r.sp = 2
		}
		for i := 0; o.A == "offcurve" && i < 5; i++ {
			s, p, _ := forgeRange(r, o.A)
			c.present(s, p, "range/"+o.A)
		}
		s, p, _ := forgeRange(r, o.A)
		c.present(s, p, "range/"+o.A)
		return
	case o.A == "liar":
		liar02(c)
		return
	case o.A == "degenerate":
		for i := 0; i < 12; i++ {
			s, p := degenerate(r, o.K)
			if p == nil {
				continue
			}
			c.present(s, p, o.K+"/degenerate")
		}
		return
	}
	for i := 0; o.A == "offcurve" && i < 8; i++ {
		s, p := forge(r, o.K, o.A, -1)
		c.present(s, p, o.K+"/offcurve")
	}
	if o.n(2) > 0 {
		r.sp = int(o.n(2))
	}
	s, p := forge(r, o.K, o.A, int(o.n(0)))
	if p == nil {
		c.probe("special values contradict the attack")
		return
	}
	c.present(s, p, attackName(o.K, o.A, int(o.n(0))))
}

// present sends a forged transcript to verifier nodes; nobody may accept what the equations reject.
func (c *Ctx) present(s refzk.Stmt, p *refzk.Proof, name string) {
	if refzk.Verify(s, p) {
		c.probe("forgery was valid after all")
		return
	}
	c.fault("byzantine prover: " + faultClass(name))
	b := p.Encode()
	var v2 verdict
	var h *helper
	if c.Op.n(1) == 1 { // a second verifier at the same time
		h = c.spawn("verifier", c.rng.u64(), func(c *Ctx) { v2 = receive(s, b) })
	}
	v := receive(s, b)
	if h != nil {
		c.join(h)
		if v2.accepted() {
			v = v2
		}
	}
	c.kase("%s %x: %s", name, simrt.Mix(c.Op.Seed, uint64(c.checks)), v.short())
	if v.pan != nil {
		c.probe("panic ignored here")
	}
	if v.accepted() {
		c.viol("forged proof accepted", "%s: %s", name, v)
	}
}

func faultClass(n string) string {
	switch {
	case len(n) > 0 && indexOf(n, "omit") >= 0:
		return "element solved after the challenge"
	case indexOf(n, "/chal") >= 0 || indexOf(n, "/near") >= 0:
		return "challenge is not the hash"
	case indexOf(n, "/liar") >= 0:
		return "false witness"
	case indexOf(n, "/degenerate") >= 0:
		return "degenerate fields"
	case indexOf(n, "/offcurve") >= 0:
		return "points off the curve"
	}
	return "one relation violated"
}

func indexOf(s, t string) int {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return i
		}
	}
	return -1
}

// liar02 feeds the library's provers false statements.
func liar02(c *Ctx) {
	r := &c.rng
	o := c.Op
	s, w := honest(r, o.K)
	off := []*big.Int{big.NewInt(1), big.NewInt(-1), refzk.N, r.nz(), new(big.Int).Lsh(big.NewInt(1), uint(r.n(256)))}[r.n(5)]
	shift := func(x *big.Int) *big.Int { return new(big.Int).Add(x, off) }
	if off == refzk.N {
		// the same residue is no lie: negate instead
		shift = func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
	}
	name := ""
	mode := r.n(6)
	switch o.K {
	case refzk.GSPFS:
		switch mode {
		case 0, 1:
			w.X = shift(w.X)
		case 2:
			s.P[1] = s.P[1].Mul(r.twist())
		case 3:
			s.P[1] = liftPoint(r)
		default:
			s.P[1] = s.P[1].Add(s.P[0])
		}
		name = "gspfs/liar"
	case refzk.Equiv:
		switch mode {
		case 0:
			w.X = shift(w.X)
		case 1:
			s.P[1] = s.P[1].Mul(r.twist())
		case 2:
			s.P[3] = s.P[3].Mul(r.twist())
		case 3:
			s.P[3] = s.P[2].Mul(r.nz())
		case 4:
			s.P[1] = s.P[0].Mul(r.nz())
		default:
			s.P[1], s.P[3] = s.P[1].Mul(r.twist()), s.P[3].Add(s.P[2])
		}
		name = "equiv/liar"
	case refzk.Disj:
		if w.Side == 0 {
			s.P[3] = liftPoint(r)
		} else {
			s.P[1] = liftPoint(r)
		}
		switch mode {
		case 0, 1:
			w.X = shift(w.X)
		case 2:
			w.Side = 1 - w.Side // claims the other side
		case 3, 4:
			s.P[2*w.Side+1] = s.P[2*w.Side+1].Mul(r.twist())
		default:
			s.P[2*w.Side+1] = liftPoint(r)
		}
		name = "disj/liar"
	case refzk.Cons:
		switch mode {
		case 0:
			w.V = shift(w.V)
		case 1:
			w.R = shift(w.R)
		case 2:
			s.P[0] = s.P[0].Mul(r.twist())
		case 3:
			s.P[1] = s.P[1].Mul(r.twist())
		case 4:
			s.P[1] = s.P[2].Mul(r.nz())
		default:
			s.P[0] = s.P[0].Add(refzk.G)
		}
		name = "consist/liar"
	case refzk.ABC:
		switch mode {
		case 0, 1:
			if w.Side == 1 { // claims another value
				w.V = shift(w.V)
			} else { // commitment is not to zero
				s.P[0] = s.P[0].Add(refzk.G.Mul(r.nz()))
			}
		case 2:
			w.SK = shift(w.SK)
		case 3:
			s.P[1] = refzk.H.Mul(r.nz())
		case 4:
			s.P[0] = s.P[0].Mul(r.twist())
		default: // claims the other side
			if w.Side == 1 {
				w.Side, w.V = 0, new(big.Int)
			} else {
				w.Side, w.V = 1, r.nz()
			}
		}
		name = "abc/liar"
	case refzk.Ineq:
		switch mode {
		case 0, 1: // the values are equal, the prover claims they differ
			b := w.PA[0].Sub(refzk.Ident)
			w.PA[1], w.PA[3] = b.Add(refzk.H.Mul(big.NewInt(7))), w.PA[2].Add(refzk.H.Mul(refzk.MulM(big.NewInt(7), w.SK)))
			w.B = shift(w.A)
		case 2:
			w.A = shift(w.A)
		case 3:
			w.A, w.B = w.B, w.A
		case 4:
			w.PA[2] = refzk.H.Mul(r.nz())
		default:
			w.SK = shift(w.SK)
		}
		s.P = []refzk.Point{w.PA[0].Sub(w.PA[1]), w.PA[2].Sub(w.PA[3])}
		name = "ineq/liar"
	}
	// Is the statement, with this witness, really false? An ABC-style statement is decided by the transcript itself.
	var obj interface{}
	var err error
	ent := &Ent{Seed: o.Seed, FailAt: -1}
	pn := guard(func() { with(ent, func() { obj, err = prove(s, w) }) })
	c.fault("byzantine prover: false witness")
	if pn != nil || err != nil || obj == nil {
		c.kase("%s %d: prover refuses", name, mode)
		return
	}
	v := judge(s, obj)
	acc := v.pan == nil && accepted(v.ok, v.err)
	// acceptance is legitimate exactly when the transcript satisfies every relation
	var b []byte
	if pn := guard(func() { b = libBytes(obj) }); pn != nil {
		return
	}
	p, _, derr := refzk.Decode(s.Kind, b)
	valid := derr == nil && refzk.Verify(s, p)
	c.kase("%s %d: proof made, %s (valid %v)", name, mode, v.short(), valid)
	if acc && !valid {
		c.viol("false statement accepted", "%s mode %d: %s; %s", name, mode, v, descr(s, w))
	}
	if v2 := receive(s, b); v2.accepted() && !valid {
		c.viol("false statement accepted", "%s mode %d, delivered: %s", name, mode, v2)
	}
	if valid && lieIsFalse(s, w, mode) {
		c.viol("false statement proved", "%s mode %d: the prover made a valid proof from a false witness; %s", name, mode, descr(s, w))
	}
}

// lieIsFalse reports lies for which no valid transcript may come out of the library's prover.
func lieIsFalse(s refzk.Stmt, w *Wit, mode int) bool {
	switch s.Kind {
	case refzk.GSPFS:
		return !s.P[0].Mul(w.X).Eq(s.P[1])
	case refzk.Equiv:
		return !s.P[0].Mul(w.X).Eq(s.P[1]) || !s.P[2].Mul(w.X).Eq(s.P[3])
	case refzk.Cons:
		return !refzk.Commit(w.V, w.R).Eq(s.P[0]) || !s.P[2].Mul(w.R).Eq(s.P[1])
	}
	return false
}

// open02 offers wrong openings.
func open02(c *Ctx) {
	r := &c.rng
	v, rr := edgeScalar(r), edgeScalar(r)
	cm := refzk.Commit(v, rr)
	pk := someBase(r)
	tok := pk.Mul(rr)
	for i := 0; i < 6; i++ {
		v2, r2, p2, t2 := new(big.Int).Set(v), new(big.Int).Set(rr), cm, tok
		switch r.n(8) {
		case 0:
			v2.Add(v2, big.NewInt(1))
		case 1:
			r2.Add(r2, big.NewInt(1))
		case 2:
			f := r.twist()
			p2, t2 = cm.Mul(f), tok.Mul(f)
		case 3:
			f := r.twist()
			v2, r2 = refzk.MulM(v, f), refzk.MulM(rr, f)
		case 4:
			v2, r2 = new(big.Int).Set(rr), new(big.Int).Set(v)
		case 5:
			v2, r2 = edgeScalar(r), edgeScalar(r)
		case 6:
			p2, t2 = refzk.Ident, refzk.Ident
		case 7:
			v2.Xor(v2, new(big.Int).Lsh(big.NewInt(1), uint(r.n(256))))
			r2.Xor(r2, new(big.Int).Lsh(big.NewInt(1), uint(r.n(256))))
		}
		if !refzk.Commit(v2, r2).Eq(p2) {
			c.fault("byzantine prover: wrong opening")
			var ok bool
			if pn := guard(func() { ok = zk.Open(cv, cp(v2), cp(r2), E(p2)) }); pn == nil && ok {
				c.viol("wrong opening accepted", "v=%x r=%x opened as v=%x r=%x", v, rr, v2, r2)
			}
			c.kase("open %x %x", v2, r2)
		}
		if !pk.Mul(r2).Eq(t2) {
			c.fault("byzantine prover: wrong opening")
			var ok bool
			if pn := guard(func() { ok = zk.VerifyR(cv, E(t2), E(pk), cp(r2)) }); pn == nil && ok {
				c.viol("wrong token accepted", "r=%x offered %x", rr, r2)
			}
		}
		if p2.Eq(cm) != E(p2).Equal(E(cm)) {
			c.viol("point comparison wrong", "equal=%v", E(p2).Equal(E(cm)))
		}
	}
}
