package main

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C10: range-proof workers always finish and never affect the verdict.

func init() {
	scenarios["C10"] = &scenario{gen: gen10, op: op10, pan: true, hang: true}
}

var shapes10 = []string{"honest", "honest", "wrongcomm", "cut", "extended", "repeated", "none", "one", "nilC", "nilS", "nilX", "nilE", "nilAgg", "zeroC", "offcurve",
	"hugeS", "negE", "badE", "badS", "shuffled", "many", "zeroAll"}

func gen10(r *R, tier string, p *Plan) {
	clients := 1 + r.n(3)
	n := 4 + r.n(5)
	proves := 0
	for i := 0; i < n; i++ {
		o := Op{T: "verify", C: r.n(clients), Seed: r.u64(), A: r.pick(shapes10)}
		if r.p(1, 3) && proves < 3 {
			o.T, o.A = "prove", r.pick([]string{"ok", "short", "fail", "fail", "fail"})
			proves++
		}
		// verifiers, failing draw, kind, persistent
		o.N = []int64{int64(1 + r.n(3)), int64(r.n(90)), int64(r.n(4)), int64(r.n(2))}
		p.Ops = append(p.Ops, o)
	}
}

func op10(c *Ctx) {
	if c.Op.T == "prove" {
		prove10(c)
		return
	}
	verify10(c)
}

func prove10(c *Ctx) {
	o := c.Op
	r := &c.rng
	v := rangeValue(r)
	if r.p(1, 8) { // not provable
		v = []*big.Int{big.NewInt(-1), new(big.Int).Lsh(big.NewInt(1), 40), r.scalar()}[r.n(3)]
	}
	e := &Ent{Seed: o.Seed, FailAt: -1, Short: o.A == "short"}
	if o.A == "fail" {
		e.FailAt, e.Kind, e.Persist = int(o.n(1)), int(o.n(2)), o.n(3) == 1
	}
	var p *zk.RangeProof
	var err error
	var blind *big.Int
	pn := guard(func() { with(e, func() { p, blind, err = zk.NewRangeProof(cv, cp(v)) }) })
	if pn != nil {
		simrt.Reseed(e.Seed^0xdead, nil)
		c.viol("prover panics", "%s", pn)
	}
	if n := simrt.LibLive(); n > 0 {
		c.probe("workers still running when the prover returned")
	}
	if n := simrt.Drain(); n > 0 {
		c.viol("workers left behind", "prover, failing draw %d kind %d: %d", e.FailAt, e.Kind, n)
	}
	if e.Fired > 0 {
		c.fault("entropy failure in a worker")
	}
	if e.Shorts > 0 {
		c.fault("entropy short read")
	}
	c.kase("prove v=%v fail=%d/%d persist=%v fired=%v err=%v", v, e.FailAt, e.Kind, e.Persist, e.Fired > 0, err != nil)
	if pn == nil && err == nil && e.Fired == 0 && p != nil {
		q, _, derr := refzk.Decode(refzk.Range, p.Bytes())
		if derr == nil && !refzk.Verify(refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{refzk.Commit(v, blind)}}, q) {
			c.viol("workers produced a wrong proof", "v=%v", v)
		}
	}
}

// shape makes a proof object of the wanted shape, its commitment, and what any verifier must say ("" unknown).
func shape10(c *Ctx) (p *zk.RangeProof, comm zk.ECPoint, expect string) {
	r := &c.rng
	n := 1 + r.n(12)
	if r.p(1, 5) {
		n = []int{40, 63, 64}[r.n(3)]
	}
	if c.Op.A == "many" {
		n = 65 + r.n(40)
	}
	if c.Op.A == "honest" && r.p(1, 2) {
		v := rangeValue(r)
		var blind *big.Int
		var err error
		with(&Ent{Seed: c.Op.Seed, FailAt: -1}, func() { p, blind, err = zk.NewRangeProof(cv, v) })
		if err != nil || p == nil {
			c.viol("honest prover failed", "v=%v: %v", v, err)
			return nil, comm, ""
		}
		return p, E(refzk.Commit(v, blind)), "accept"
	}
	bits := make([]int, n)
	for i := range bits {
		bits[i] = r.n(2)
	}
	rp, sum, _ := refzk.ProveRange(n, bits, r.nz, nil, nil)
	if c.Op.A == "none" {
		rp.P, rp.I = rp.P[:1], rp.I[:1]
	}
	if c.Op.A == "zeroAll" {
		for i := range rp.P {
			rp.P[i] = zeroXY
		}
		for i := range rp.I {
			rp.I[i] = new(big.Int)
		}
		sum = refzk.Ident
	}
	var err error
	p, err = zk.NewRangeProofFromBytes(rp.Encode())
	if err != nil {
		c.probe("shape not decodable")
		return nil, comm, ""
	}
	comm = E(sum)
	t := p.ProofTuples
	k := 0
	if len(t) > 0 {
		k = []int{0, len(t) - 1, r.n(len(t))}[r.n(3)]
	}
	expect = "reject"
	switch c.Op.A {
	case "honest", "one":
		expect = ""
		if c.Op.A == "one" {
			p.ProofTuples = t[:1]
		}
	case "none", "zeroAll":
		expect = ""
	case "wrongcomm":
		comm = E(liftPoint(r))
	case "cut":
		p.ProofTuples = t[:r.n(len(t))]
	case "extended":
		for i := 0; i <= r.n(70); i++ {
			p.ProofTuples = append(p.ProofTuples, t[r.n(len(t))])
		}
	case "repeated":
		if len(t) < 2 || bits[0] == bits[1] && false {
			expect = ""
			break
		}
		t[k] = t[(k+1)%len(t)]
	case "nilC":
		t[k].C = zk.ECPoint{}
	case "nilX":
		if r.p(1, 2) {
			t[k].C.X = nil
		} else {
			t[k].C.Y = nil
		}
	case "nilS":
		t[k].S = nil
	case "nilE":
		p.ProofE = nil
	case "nilAgg":
		switch r.n(3) {
		case 0:
			p.ProofAggregate = zk.ECPoint{}
		case 1:
			p.ProofAggregate.X = nil
		default:
			p.ProofAggregate.Y = nil
		}
	case "zeroC":
		t[k].C = zk.ECPoint{X: new(big.Int), Y: new(big.Int)}
		expect = ""
	case "offcurve":
		t[k].C = zk.ECPoint{X: new(big.Int).SetBytes(r.bytes(32)), Y: new(big.Int).SetBytes(r.bytes(32))}
	case "hugeS":
		t[k].S = new(big.Int).SetBytes(r.bytes(200))
	case "negE":
		p.ProofE = new(big.Int).Neg(p.ProofE)
	case "badE":
		p.ProofE = r.nz()
	case "badS":
		t[k].S = r.nz()
	case "shuffled":
		expect = ""
		if len(t) > 1 {
			j := (k + 1) % len(t)
			t[k], t[j] = t[j], t[k]
		}
	case "many":
	}
	return
}

func verify10(c *Ctx) {
	o := c.Op
	p, comm, expect := shape10(c)
	if p == nil {
		return
	}
	simrt.Drain()
	n := int(o.n(0))
	if n < 1 {
		n = 1
	}
	outs := make([]string, n)
	var hs []*helper
	for i := 0; i < n; i++ {
		i := i
		hs = append(hs, c.spawn(fmt.Sprintf("verifier%d", i), simrt.Mix(o.Seed, uint64(i)), func(cc *Ctx) {
			var ok bool
			var err error
			pn := guard(func() { ok, err = p.Verify(cv, comm) })
			switch {
			case pn != nil:
				cc.viol("verifier panics", "%s: %s", o.A, pn)
				outs[i] = "panic"
			case ok && err == nil:
				outs[i] = "accept"
			case !ok && err != nil:
				outs[i] = "reject"
			default:
				outs[i] = fmt.Sprintf("contradiction (%v, %v)", ok, err)
				cc.viol("contradictory verdict", "%s: (%v, %v)", o.A, ok, err)
			}
			if simrt.LibLive() > 0 {
				cc.probe("workers still running when the verifier returned")
			}
			if k := simrt.Drain(); k > 0 {
				cc.viol("workers left behind", "verifier, %s with %d entries: %d", o.A, len(p.ProofTuples), k)
			}
		}))
	}
	c.join(hs...)
	for i := 1; i < n; i++ {
		if outs[i] != outs[0] {
			c.viol("verdict depends on the schedule", "%s with %d entries: %v", o.A, len(p.ProofTuples), outs)
			break
		}
	}
	if expect != "" && outs[0] != expect && outs[0] != "panic" {
		c.viol("wrong verdict", "%s with %d entries: %v, expected %s", o.A, len(p.ProofTuples), outs, expect)
	}
	c.fault("range proof shape: " + o.A)
	c.kase("verify %s entries %d verdicts %v %x", o.A, len(p.ProofTuples), outs, o.Seed)
	c.probe("verdict " + outs[0])
	// the same proof again, later: the verdict stays
	if n > 1 && outs[0] != "panic" {
		ok, err := p.Verify(cv, comm)
		if s := map[bool]string{true: "accept", false: "reject"}[ok && err == nil]; s != outs[0] {
			c.viol("verdict depends on the schedule", "%s: %v, then %s", o.A, outs, s)
		}
		if k := simrt.Drain(); k > 0 {
			c.viol("workers left behind", "verifier, %s: %d", o.A, k)
		}
	}
}
