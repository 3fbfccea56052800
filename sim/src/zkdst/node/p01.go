package main

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C01: honest proofs verify, whatever entropy, schedule and delivery do.

func init() {
	scenarios["C01"] = &scenario{gen: gen01, op: op01, pan: true, hang: true}
}

func gen01(r *R, tier string, p *Plan) {
	clients := 1 + r.n(4)
	n := 10 + r.n(14)
	for i := 0; i < n; i++ {
		o := Op{T: "session", C: r.n(clients), Seed: r.u64()}
		switch k := r.n(20); {
		case k < 2:
			o.K = refzk.Range
		case k < 4:
			o.K = "commit"
		default:
			o.K = proofKinds[r.n(len(proofKinds))]
		}
		steer := 0
		if r.p(2, 3) {
			steer = 1 + r.n(6)
		}
		o.N = []int64{int64(1 + r.n(2)), int64(steer), int64(r.n(8)), int64(r.n(2))}
		p.Ops = append(p.Ops, o)
	}
}

func op01(c *Ctx) {
	o := c.Op
	ent := &Ent{Seed: o.Seed, Steer: int(o.n(1)), FailAt: -1, Short: o.n(3) == 1}
	defer func() {
		if ent.Steered > 0 {
			c.faults["entropy edge value"] += ent.Steered
		}
		if ent.Shorts > 0 {
			c.faults["entropy short read"] += ent.Shorts
		}
	}()
	switch o.K {
	case "commit":
		commit01(c, ent)
		return
	case refzk.Range:
		v := rangeValue(&c.rng)
		var p *zk.RangeProof
		var rr *big.Int
		var err error
		with(ent, func() { p, rr, err = zk.NewRangeProof(cv, cp(v)) })
		if err != nil || p == nil || rr == nil {
			c.viol("honest prover failed", "range v=%v: %v", v, err)
			return
		}
		s := refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{refzk.Commit(v, rr)}}
		c.deliver01(s, p, fmt.Sprintf("range v=%v", v))
		return
	}
	s, w := honest(&c.rng, o.K)
	var obj interface{}
	var err error
	with(ent, func() { obj, err = prove(s, w) })
	if err != nil || obj == nil {
		c.viol("honest prover failed", "%s %s: %v", o.K, descr(s, w), err)
		return
	}
	c.deliver01(s, obj, descr(s, w))
}

func descr(s refzk.Stmt, w *Wit) string {
	d := fmt.Sprintf("side=%d", w.Side)
	for _, x := range []struct {
		n string
		v *big.Int
	}{{"x", w.X}, {"v", w.V}, {"r", w.R}, {"sk", w.SK}, {"a", w.A}, {"b", w.B}} {
		if x.v != nil {
			d += fmt.Sprintf(" %s=%x", x.n, x.v)
		}
	}
	return d
}

// deliver01 verifies in memory, then sends the bytes to verifiers over the simulated network.
func (c *Ctx) deliver01(s refzk.Stmt, obj interface{}, what string) {
	o := c.Op
	if v := judge(s, obj); !v.ok || v.err != nil || v.pan != nil {
		c.viol("honest proof rejected", "%s in memory: %s; %s", s.Kind, v, what)
		return
	} else if v.stuck > 0 {
		c.probe("workers left behind")
	}
	b := libBytes(obj)
	if c.rng.p(1, 2) { // the caller owns the bytes it got: a reused send buffer must not reach into the proof
		sent := append([]byte(nil), b...)
		for i := range b {
			b[i] ^= 0x5a
		}
		if !eqBytes(libBytes(obj), sent) {
			c.viol("serialised form changes", "%s: after the caller reused the buffer; %s", s.Kind, what)
		}
		b = sent
		c.fault("send buffer reused")
	}
	c.kase("%s %s steer=%d", s.Kind, what, o.n(1))
	var hs []*helper
	nv := int(o.n(0))
	faults := o.n(2)
	for i := 0; i < nv; i++ {
		copies := 1
		if faults&1 != 0 && c.rng.p(1, 2) {
			copies = 2
			c.fault("message duplicated")
		}
		for k := 0; k < copies; k++ {
			delay := int64(0)
			if faults&2 != 0 {
				delay = int64(c.rng.n(1 << 20))
				c.fault("message delayed or reordered")
			}
			lost := faults&4 != 0 && c.rng.p(1, 3)
			hs = append(hs, c.spawn("verifier", c.rng.u64(), func(c *Ctx) {
				simrt.Sleep(delay)
				if lost { // the first copy is lost, the retransmission arrives
					c.fault("message lost and retransmitted")
					simrt.Sleep(1 << 21)
				}
				in := append(make([]byte, 0, len(b)+16), b...)
				v := receiveReusing(s, in)
				c.fault("receive buffer reused")
				if v.decErr != nil || !v.ok || v.err != nil || v.pan != nil {
					c.viol("honest proof rejected", "%s after delivery: %s; %s", s.Kind, v, what)
				}
				c.checks++
			}))
		}
	}
	c.join(hs...)
}

func commit01(c *Ctx, ent *Ent) {
	v := edgeScalar(&c.rng)
	vu := unreduce(&c.rng, v)
	var pt zk.ECPoint
	var rr *big.Int
	var err error
	with(ent, func() { pt, rr, err = zk.PedCommit(cv, cp(vu)) })
	if err != nil {
		c.viol("honest commit failed", "v=%x: %v", vu, err)
		return
	}
	if !(refzk.XY{X: pt.X, Y: pt.Y}).Eq(refzk.Commit(v, rr).XY()) {
		c.viol("commitment is not vG+rH", "v=%x r=%x", vu, rr)
	}
	if !zk.Open(cv, vu, unreduce(&c.rng, rr), pt) {
		c.viol("honest commitment does not open", "v=%x r=%x", vu, rr)
	}
	base := someBase(&c.rng)
	var pk zk.ECPoint
	var sk *big.Int
	with(ent, func() { pk, sk = zk.KeyGen(cv.C, E(base)) })
	if q, ok := F(pk); !ok || !q.Eq(base.Mul(sk)) {
		c.viol("key pair does not match", "sk=%x", sk)
	}
	t := zk.CommitR(cv, pk, rr)
	if !zk.VerifyR(cv, t, pk, unreduce(&c.rng, rr)) {
		c.viol("honest token does not verify", "r=%x", rr)
	}
	c.kase("commit v=%x steer=%d", vu, c.Op.n(1))
}
