package main

import (
	"bytes"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C08: proofs reveal nothing beyond the statement; an observer who knows the witnesses looks at the whole history.

func init() {
	scenarios["C08"] = &scenario{gen: gen08, op: op08, end: end08}
}

func gen08(r *R, tier string, p *Plan) {
	clients := 1 + r.n(4)
	all := append(append([]string(nil), proofKinds...), "commit", "keygen", "newkey", "encrypt")
	if r.p(1, 4) {
		all = append(all, refzk.Range)
	}
	focus := ""
	if r.p(2, 3) { // many of one kind, so that sizes and bits can be judged
		focus = all[r.n(len(all))]
	}
	if r.p(1, 10) {
		focus = refzk.Range
	}
	ops := 24 + r.n(16)
	if focus == refzk.Range {
		ops = 5
	}
	var prev *Op
	for i := 0; i < ops; i++ {
		o := Op{T: "publish", C: r.n(clients), Seed: r.u64(), K: all[r.n(len(all))]}
		if focus != "" && r.p(9, 10) {
			o.K = focus
		}
		o.N = []int64{int64(r.u64() >> 1), int64(r.n(2)), int64(1 + r.n(5))} // entropy, short reads, repetitions
		if o.K == refzk.Range {
			o.N[2] = 1
		}
		if prev != nil && r.p(1, 3) { // the same statement and witness again, with other entropy
			o.K, o.Seed = prev.K, prev.Seed
		}
		p.Ops = append(p.Ops, o)
		prev = &p.Ops[len(p.Ops)-1]
	}
}

func op08(c *Ctx) {
	reps := int(c.Op.n(2))
	if reps < 1 {
		reps = 1
	}
	for i := 0; i < reps; i++ {
		one08(c, i)
	}
}

func one08(c *Ctx, rep int) {
	o := c.Op
	r := &R{s: o.Seed + uint64(rep)*977}
	ent := &Ent{Seed: simrt.Mix(uint64(o.n(0)), uint64(rep)), FailAt: -1, Short: o.n(1) == 1}
	defer func() {
		if ent.Shorts > 0 {
			c.fault("entropy short read")
		}
	}()
	needed := func(n int, what string) {
		if ent.Bytes < n {
			c.viol("too little entropy", "%s: %d bytes drawn, %d needed for full-size masks", what, ent.Bytes, n)
		}
		c.kase("%s %x %x", what, o.Seed, ent.Seed)
	}
	switch o.K {
	case "commit":
		v := edgeScalar(r)
		var p zk.ECPoint
		var rr *big.Int
		var err error
		with(ent, func() { p, rr, err = zk.PedCommit(cv, cp(v)) })
		if err != nil || rr == nil {
			return
		}
		q, ok := F(p)
		if !ok || !q.Eq(refzk.Commit(v, rr)) {
			return // C01
		}
		c.masks = append(c.masks, mask{role: "commitment blinding", op: c.op, s: rr, pt: refzk.H.Mul(rr)})
		needed(32, "commitment")
		return
	case "keygen":
		b := someBase(r)
		var p zk.ECPoint
		var k *big.Int
		with(ent, func() { p, k = zk.KeyGen(cv.C, E(b)) })
		_ = p
		c.masks = append(c.masks, mask{role: "key", op: c.op, s: k, pt: refzk.H.Mul(k)})
		needed(32, "key")
		return
	case "newkey":
		var k *btcec.PrivateKey
		with(ent, func() { k, _ = btcec.NewPrivateKey(btcec.S256()) })
		if k == nil || k.D == nil {
			return
		}
		c.masks = append(c.masks, mask{role: "private key", op: c.op, s: k.D, pt: refzk.H.Mul(k.D)})
		needed(32, "private key")
		return
	case "encrypt":
		priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), r.nz().Bytes())
		_ = priv
		msg := bytes.Repeat([]byte{byte(r.n(256))}, 16*(1+r.n(4)))
		var ct []byte
		with(ent, func() { ct, _ = btcec.Encrypt(pub, msg) })
		if len(ct) < 16+70+16+32 {
			return
		}
		iv := new(big.Int).SetBytes(ct[:16])
		// the IV is 16 bytes: widen it so that the history can compare it; it is no scalar
		c.masks = append(c.masks, mask{role: "iv", op: c.op, pt: refzk.H.Mul(new(big.Int).Add(iv, new(big.Int).Lsh(big.NewInt(1), 200)))})
		x := new(big.Int).SetBytes(ct[20:52])
		y := new(big.Int).SetBytes(ct[54:86])
		eph, ok := refzk.FromXY(x, y)
		if !ok || eph.Inf {
			c.viol("ephemeral key invalid", "%x", ct[16:86])
			return
		}
		c.masks = append(c.masks, mask{role: "ephemeral key", op: c.op, pt: eph})
		body := ct[86 : len(ct)-32]
		for i := 16; i+16 <= len(body); i += 16 {
			if bytes.Equal(body[i:i+16], body[:16]) {
				c.viol("plaintext pattern visible", "equal ciphertext blocks")
			}
		}
		if bytes.Contains(ct, msg) {
			c.viol("secret published", "ciphertext contains the message")
		}
		needed(48, "ciphertext")
		return
	}
	var s refzk.Stmt
	var w *Wit
	var obj interface{}
	var err error
	var blind *big.Int
	if o.K == refzk.Range {
		w = &Wit{V: rangeValue(r)}
		var p *zk.RangeProof
		with(ent, func() { p, blind, err = zk.NewRangeProof(cv, cp(w.V)) })
		if err != nil || p == nil || blind == nil {
			return
		}
		s = refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{refzk.Commit(w.V, blind)}}
		obj = p
	} else {
		s, w = honest(r, o.K)
		with(ent, func() { obj, err = prove(s, w) })
		if err != nil || obj == nil {
			return // C01
		}
	}
	b := libBytes(obj)
	p, _, derr := refzk.Decode(s.Kind, b)
	if derr != nil {
		return // C01, C06
	}
	if why := canonical(p); why != "" {
		c.viol("response not reduced", "%s: %s", s.Kind, why)
	}
	ms, err := masksOf(s, w, p, c.op)
	if err != nil {
		c.probe("honest proof not consistent (C01)")
		return
	}
	n := len(ms)
	if s.Kind == refzk.Range {
		n = 2 * (len(p.P) - 1)
	}
	needed(32*n, s.Kind)
	for _, x := range []struct {
		n string
		v *big.Int
	}{{"x", w.X}, {"value", w.V}, {"blinding", w.R}, {"secret key", w.SK}, {"a", w.A}, {"b", w.B}, {"total blinding", blind}} {
		if x.v != nil && secretIn(b, x.v) && !trivial(s, x.v) {
			c.viol("secret published", "%s: %s=%x occurs in the proof", s.Kind, x.n, x.v)
		}
	}
	for _, m := range ms {
		if m.s == nil || m.role == "" {
			continue
		}
		suffix := m.role[len(m.role)-2:]
		if suffix == "ds" || suffix == "dc" { // these two are published by design
			continue
		}
		// a witness of zero makes mask and response equal
		if secretIn(b, m.s) && !zeroWitness(s, w) {
			c.viol("secret published", "%s: mask %s occurs in the proof", s.Kind, m.role)
		}
		for _, x := range []*big.Int{w.X, w.V, w.R, w.SK, w.A, w.B} {
			if x != nil && refzk.Mod(x).BitLen() > 72 && refzk.Mod(x).Cmp(m.s) == 0 {
				c.viol("mask is not fresh", "%s: %s equals a witness", s.Kind, m.role)
			}
		}
	}
	// secret points: nothing published may be the unblinded value
	for i, xy := range p.P {
		q, ok := xy.Point()
		if !ok {
			continue
		}
		if (s.Kind == refzk.ABC || s.Kind == refzk.Ineq) && w.V != nil && refzk.Mod(w.V).BitLen() > 30 {
			if q.Eq(refzk.G.Mul(w.V)) || q.Eq(refzk.G.Mul(refzk.InvM(w.V))) {
				c.viol("secret published", "%s: point %d is the value without blinding", s.Kind, i)
			}
		}
		if s.Kind == refzk.Cons && refzk.Mod(w.V).BitLen() > 30 && q.Eq(refzk.G.Mul(w.V)) {
			c.viol("secret published", "%s: point %d is the value without blinding", s.Kind, i)
		}
	}
	c.masks = append(c.masks, ms...)
	c.masks = append(c.masks, published(s, w, p, c.op)...)
}

// trivial: the secret is a coordinate of the statement anyway (corner scalars).
func trivial(s refzk.Stmt, x *big.Int) bool {
	for _, p := range s.P {
		if secretIn(refzk.EncPoint(p.XY()), x) {
			return true
		}
	}
	return false
}

func zeroWitness(s refzk.Stmt, w *Wit) bool {
	for _, x := range []*big.Int{w.X, w.V, w.R} {
		if x != nil && refzk.Mod(x).Sign() == 0 {
			return true
		}
	}
	return s.Kind == refzk.Ineq // the blinding of C is zero there, so its mask is the response
}

func end08(run *Run, rec *Rec) {
	// the ephemeral keys are multiples of G, everything else of H: they never meet in the comparison
	n := history(rec.masks, func(class, f string, a ...interface{}) { rec.viol(class, f, a...) })
	rec.probes["masks compared with the whole history"] += n
	rec.event(fmt.Sprint("masks ", n))
}
