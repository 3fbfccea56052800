package main

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C12: range proofs mean what they say.

func init() {
	scenarios["C12"] = &scenario{gen: gen12, op: op12, pan: true, hang: true}
}

func gen12(r *R, tier string, p *Plan) {
	clients := 1 + r.n(3)
	n := 8 + r.n(8)
	in := 0
	for i := 0; i < n; i++ {
		o := Op{C: r.n(clients), Seed: r.u64()}
		switch k := r.n(10); {
		case k < 3 && in < 4:
			o.T = "inside"
			in++
		case k < 5:
			o.T = "outside"
		default:
			o.T, o.A = "forge", rangeAttacks[r.n(len(rangeAttacks))]
		}
		o.N = []int64{int64(r.n(10)), int64(r.n(3)), int64(r.n(2))}
		p.Ops = append(p.Ops, o)
	}
}

func op12(c *Ctx) {
	o := c.Op
	r := &c.rng
	top := new(big.Int).Lsh(big.NewInt(1), 40)
	switch o.T {
	case "inside":
		v := rangeValue(r)
		steer := 0
		if o.n(0) > 3 {
			steer = int(o.n(0))
		}
		e := &Ent{Seed: o.Seed, FailAt: -1, Short: o.n(2) == 1, Steer: steer}
		if steer > 0 {
			e.Steer = steer * 4
		}
		var p *zk.RangeProof
		var blind *big.Int
		var err error
		with(e, func() { p, blind, err = zk.NewRangeProof(cv, cp(v)) })
		if e.Steered > 0 {
			c.fault("entropy edge value")
		}
		if e.Shorts > 0 {
			c.fault("entropy short read")
		}
		if err != nil || p == nil || blind == nil {
			c.viol("value inside the range refused", "%v: %v", v, err)
			return
		}
		comm := refzk.Commit(v, blind)
		if q, ok := F(p.ProofAggregate); !ok || !q.Eq(comm) {
			c.viol("blinding does not open the commitment", "v=%v", v)
		}
		if !zk.Open(cv, v, blind, p.ProofAggregate) {
			c.viol("blinding does not open the commitment", "v=%v (Open)", v)
		}
		s := refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{comm}}
		if vd := judge(s, p); !vd.accepted() || !vd.ok {
			c.viol("proof of a value inside the range rejected", "v=%v: %s", v, vd)
		}
		b := p.Bytes()
		if vd := receive(s, b); !vd.accepted() || !vd.ok {
			c.viol("proof of a value inside the range rejected", "v=%v, after delivery: %s", v, vd)
		}
		q, _, derr := refzk.Decode(refzk.Range, b)
		if derr != nil || !refzk.Verify(s, q) {
			c.viol("proof does not satisfy the equations", "v=%v", v)
		} else {
			// the value really is what the bits say: every entry commits to 0 or 2^i
			if len(q.P)-1 < 40 {
				c.viol("too few bits", "v=%v: %d", v, len(q.P)-1)
			}
		}
		// other commitments
		for i := 0; i < 3; i++ {
			var other refzk.Point
			switch r.n(6) {
			case 0:
				other = comm.Mul(r.twist())
			case 1:
				other = comm.Add(refzk.G)
			case 2:
				other = comm.Add(refzk.H)
			case 3:
				other = refzk.Commit(new(big.Int).Add(v, top), blind)
			case 4:
				other = refzk.Commit(new(big.Int).Neg(v), blind)
				if v.Sign() == 0 {
					other = refzk.Ident
				}
			case 5:
				other = liftPoint(r)
			}
			c.fault("proof presented for another commitment")
			if other.Eq(comm) {
				continue
			}
			if vd := judge(refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{other}}, p); vd.accepted() || vd.ok {
				c.viol("proof accepted for another commitment", "v=%v", v)
			}
		}
		c.kase("inside %v steer %d %x", v, steer, o.Seed)
	case "outside":
		var v *big.Int
		switch o.n(0) {
		case 0:
			v = new(big.Int).Set(top)
		case 1:
			v = new(big.Int).Add(top, big.NewInt(int64(r.n(3))))
		case 2:
			v = big.NewInt(-1 - int64(r.n(3)))
		case 3:
			v = new(big.Int).Neg(rangeValue(r))
			if v.Sign() == 0 {
				v.SetInt64(-7)
			}
		case 4:
			v = new(big.Int).Lsh(big.NewInt(1), uint(40+r.n(220)))
			if r.p(1, 2) {
				v.Sub(v, big.NewInt(1))
			}
			if v.Cmp(top) < 0 {
				v.Set(top)
			}
		case 5:
			v = new(big.Int).Add(refzk.N, rangeValue(r))
		case 6, 7, 8: // looks like a value inside the range through a narrower window, or modulo the order
			var m *big.Int
			if r.p(1, 4) {
				m = new(big.Int).Set(refzk.N)
			} else {
				m = new(big.Int).Lsh(big.NewInt(1), uint([]int{40, 41, 48, 63, 64, 65, 128, 256}[r.n(8)]))
			}
			m.Mul(m, big.NewInt(int64(1+r.n(3))))
			if r.p(1, 2) {
				m.Neg(m)
			}
			v = m.Add(m, rangeValue(r))
			if v.Sign() >= 0 && v.Cmp(top) < 0 {
				v.Sub(v, new(big.Int).Lsh(big.NewInt(1), 64))
			}
		default:
			v = new(big.Int).Add(r.nz(), top)
		}
		var p *zk.RangeProof
		var blind *big.Int
		var err error
		with(&Ent{Seed: o.Seed, FailAt: -1}, func() { p, blind, err = zk.NewRangeProof(cv, cp(v)) })
		if k := simrt.Drain(); k > 0 {
			c.viol("workers left behind", "%d", k)
		}
		c.fault("value outside the range")
		if err == nil {
			c.viol("value outside the range proved", "v=%v: %T, blinding %v", v, p, blind != nil)
		}
		c.kase("outside %x", v)
	case "forge":
		s, p, what := forgeRange(r, o.A)
		if p == nil {
			return
		}
		c.fault("byzantine range prover: " + o.A)
		valid := refzk.Verify(s, p)
		v := receive(s, p.Encode())
		if v.pan != nil {
			c.viol("verifier panics", "%s: %s", what, v.pan)
		}
		if v.accepted() && !valid {
			c.viol("false range proof accepted", "%s: %s", what, v)
		}
		if valid {
			c.probe("forgery was valid after all")
		}
		c.kase("forge %s %x: %s", o.A, o.Seed, v.short())
	}
	_ = fmt.Sprint
}
