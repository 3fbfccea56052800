package main

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C07: a failing entropy source never yields a result.

func init() {
	scenarios["C07"] = &scenario{gen: gen07, op: op07, pan: true, hang: true}
}

var entropyUsers = append(append([]string(nil), proofKinds...), refzk.Range, "pedcommit", "keygen", "newkey", "encrypt", "rand64")

func gen07(r *R, tier string, p *Plan) {
	clients := 1 + r.n(3)
	n := 14 + r.n(16)
	ranges := 0
	for i := 0; i < n; i++ {
		o := Op{T: "entropy", C: r.n(clients), Seed: r.u64(), K: entropyUsers[r.n(len(entropyUsers))]}
		if r.p(1, 6) {
			o.K = refzk.Range
		}
		if o.K == refzk.Range {
			if ranges++; ranges > 3 {
				o.K = proofKinds[r.n(len(proofKinds))]
			}
		}
		// failing draw (selector), kind of failure, persistent or once, several attempts, only short reads
		o.N = []int64{int64(r.n(1000)), int64(r.n(4)), int64(r.n(2)), int64(1 + r.n(4)), int64(r.n(5))}
		p.Ops = append(p.Ops, o)
	}
}

// use07 is one entropy-using operation with fixed inputs.
type use07 struct {
	run  func() (interface{}, error)
	ok   func(v interface{}) string // empty: the result is complete and right
	mayP bool                       // reports failure by panicking
}

func make07(r *R, kind string) use07 {
	switch kind {
	case refzk.Range:
		v := rangeValue(r)
		type res struct {
			p *zk.RangeProof
			r *big.Int
		}
		return use07{run: func() (interface{}, error) {
			p, rr, err := zk.NewRangeProof(cv, cp(v))
			return res{p, rr}, err
		}, ok: func(x interface{}) string {
			y := x.(res)
			if y.p == nil || y.r == nil {
				return "nil result"
			}
			ok, err := y.p.Verify(cv, E(refzk.Commit(v, y.r)))
			if !ok || err != nil {
				return fmt.Sprintf("does not verify: %v", err)
			}
			return ""
		}}
	case "pedcommit":
		v := edgeScalar(r)
		type res struct {
			p zk.ECPoint
			r *big.Int
		}
		return use07{run: func() (interface{}, error) {
			p, rr, err := zk.PedCommit(cv, cp(v))
			return res{p, rr}, err
		}, ok: func(x interface{}) string {
			y := x.(res)
			if y.r == nil || !zk.Open(cv, v, y.r, y.p) {
				return "does not open"
			}
			return ""
		}}
	case "keygen":
		b := someBase(r)
		type res struct {
			p zk.ECPoint
			k *big.Int
		}
		return use07{mayP: true, run: func() (interface{}, error) {
			p, k := zk.KeyGen(cv.C, E(b))
			return res{p, k}, nil
		}, ok: func(x interface{}) string {
			y := x.(res)
			q, ok := F(y.p)
			if y.k == nil || !ok || !q.Eq(b.Mul(y.k)) {
				return "public key does not belong to the secret key"
			}
			return ""
		}}
	case "newkey":
		return use07{run: func() (interface{}, error) {
			k, err := btcec.NewPrivateKey(btcec.S256())
			return k, err
		}, ok: func(x interface{}) string {
			k := x.(*btcec.PrivateKey)
			if k == nil || k.D == nil || k.D.Sign() <= 0 || k.D.Cmp(refzk.N) >= 0 {
				return "no key"
			}
			q, ok := refzk.FromXY(k.X, k.Y)
			if !ok || !q.Eq(refzk.G.Mul(k.D)) {
				return "public key does not belong to the private key"
			}
			return ""
		}}
	case "encrypt":
		priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), r.nz().Bytes())
		msg := r.bytes(r.n(40))
		return use07{run: func() (interface{}, error) {
			b, err := btcec.Encrypt(pub, msg)
			return b, err
		}, ok: func(x interface{}) string {
			got, err := btcec.Decrypt(priv, x.([]byte))
			if err != nil || !eqBytes(got, msg) {
				return fmt.Sprintf("does not decrypt: %v", err)
			}
			return ""
		}}
	case "rand64":
		return use07{run: func() (interface{}, error) {
			u, err := wire.RandomUint64()
			return u, err
		}, ok: func(x interface{}) string { return "" }}
	}
	s, w := honest(r, kind)
	return use07{run: func() (interface{}, error) { return prove(s, w) }, ok: func(x interface{}) string {
		if x == nil {
			return "nil proof"
		}
		if ok, err := verify(s, x); !ok || err != nil {
			return fmt.Sprintf("does not verify: %v", err)
		}
		return ""
	}}
}

func op07(c *Ctx) {
	o := c.Op
	u := make07(&c.rng, o.K)
	attempt := func(e *Ent) (v interface{}, err error, p *pan) {
		p = guard(func() { with(e, func() { v, err = u.run() }) })
		if p != nil { // with() was left through the panic
			simrt.Reseed(e.Seed^0xdead, nil)
		}
		if n := simrt.Drain(); n > 0 {
			c.viol("workers left behind", "%s: %d after failing draw %d of kind %d", o.K, n, e.FailAt, e.Kind)
		}
		return
	}
	dry := &Ent{Seed: o.Seed, FailAt: -1}
	v, err, p := attempt(dry)
	if p != nil || err != nil {
		c.viol("fails with a working entropy source", "%s: %v %v", o.K, err, p)
		return
	}
	if why := u.ok(v); why != "" {
		c.viol("result is not right", "%s: %s", o.K, why)
	}
	if dry.Draws == 0 {
		c.viol("no entropy used", "%s", o.K)
		return
	}
	for i := int64(0); i < o.n(3); i++ {
		k := int((o.n(0) + i*37) % int64(dry.Draws))
		switch i {
		case 1:
			k = dry.Draws - 1
		case 2:
			k = 0
		}
		e := &Ent{Seed: o.Seed, FailAt: k, Kind: int((o.n(1) + i) % 4), Persist: (o.n(2)+i)%2 == 0}
		v, err, p := attempt(e)
		if e.Fired == 0 {
			c.probe("failing draw not reached")
			continue
		}
		c.fault("entropy failure: " + []string{"error", "end of file", "partial read then error", "unexpected end"}[e.Kind])
		if k > 0 {
			c.probe("entropy failed after the first draw")
		}
		switch {
		case p != nil && !u.mayP:
			c.viol("panic on entropy failure", "%s, draw %d of %d: %s", o.K, k, dry.Draws, p)
		case p != nil:
			c.probe("key generation panicked in the caller")
		case err == nil:
			c.viol("result despite entropy failure", "%s: draw %d of %d failed (kind %d, persistent %v) and no error was returned; result %T", o.K, k, dry.Draws, e.Kind, e.Persist, v)
		}
		c.kase("%s draw %d of %d kind %d persist %v seed %x: %v", o.K, k, dry.Draws, e.Kind, e.Persist, o.Seed, err != nil)
	}
	// the source works again, if hesitantly
	e := &Ent{Seed: o.Seed ^ 77, FailAt: -1, Short: o.n(4) > 0}
	v, err, p = attempt(e)
	if p != nil || err != nil {
		c.viol("no recovery after entropy failure", "%s: %v %v", o.K, err, p)
		return
	}
	if e.Shorts > 0 {
		c.fault("entropy short read")
	}
	if why := u.ok(v); why != "" {
		c.viol("result is not right", "%s after recovery (short reads %d): %s", o.K, e.Shorts, why)
	}
	c.kase("%s recovered %x", o.K, o.Seed)
}
