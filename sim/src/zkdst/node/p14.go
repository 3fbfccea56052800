package main

import (
	"bytes"
	"math/big"

	"github.com/mit-dci/zksigma/btcec"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C14: signatures and keys authenticate exactly what was signed.

func init() {
	scenarios["C14"] = &scenario{gen: gen14, pre: pre14, op: op14, end: end14, pan: true, hang: true}
}

type key14 struct {
	d    *big.Int
	q    refzk.Point
	priv *btcec.PrivateKey
	pub  *btcec.PublicKey
}

type state14 struct {
	keys   []key14
	hashes [][]byte
}

func gen14(r *R, tier string, p *Plan) {
	clients := 1 + r.n(4)
	p.Extra["set"] = int64(r.u64() >> 1)
	n := 15 + r.n(25)
	for i := 0; i < n; i++ {
		o := Op{C: r.n(clients), Seed: r.u64()}
		switch k := r.n(14); {
		case k < 4:
			o.T = "sign"
		case k < 6:
			o.T, o.A = "alter", r.pick([]string{"r", "s", "swap", "negs", "hash", "key", "bits", "edge"})
		case k < 8:
			o.T = "craft"
		case k < 10:
			o.T = "compact"
		case k < 11:
			o.T = "newkey"
		case k < 12:
			o.T = "sigbytes"
		case k < 13:
			o.T = "keybytes"
		default:
			o.T = "compactbytes"
		}
		o.N = []int64{int64(r.n(3)), int64(r.n(6)), int64(r.n(4))}
		p.Ops = append(p.Ops, o)
	}
}

func hash14(r *R) []byte {
	switch r.n(10) {
	case 0:
		return make([]byte, 32)
	case 1:
		return bytes.Repeat([]byte{0xff}, 32)
	case 2: // around the order
		return new(big.Int).Add(refzk.N, big.NewInt(int64(r.n(3))-1)).FillBytes(make([]byte, 32))
	case 3:
		return r.bytes(r.n(32))
	case 4:
		return r.bytes(33 + r.n(32))
	case 5:
		b := r.bytes(32)
		for i := 0; i < 1+r.n(8); i++ {
			b[i] = 0
		}
		return b
	}
	return r.bytes(32)
}

func pre14(run *Run) {
	r := &R{s: uint64(run.plan.Extra["set"])}
	s := &state14{}
	for i := 0; i < 3; i++ {
		var k key14
		k.d = edgeNZ(r)
		k.q = refzk.G.Mul(k.d)
		b := k.d.Bytes()
		if r.p(1, 2) {
			b = k.d.FillBytes(make([]byte, 32))
		}
		k.priv, k.pub = btcec.PrivKeyFromBytes(btcec.S256(), b)
		s.keys = append(s.keys, k)
		s.hashes = append(s.hashes, hash14(r))
	}
	run.state = s
	end14(run, run.root)
}

// libKey delivers a public key through one of its encodings.
func (c *Ctx) libKey(q refzk.Point, pub *btcec.PublicKey, how int64) *btcec.PublicKey {
	if pub == nil {
		pub = &btcec.PublicKey{Curve: btcec.S256(), X: q.X(), Y: q.Y()}
	}
	var b []byte
	x, y := q.X().FillBytes(make([]byte, 32)), q.Y().FillBytes(make([]byte, 32))
	odd := byte(q.Y().Bit(0))
	var want []byte
	switch how {
	case 1, 4:
		b = pub.SerializeCompressed()
		want = append([]byte{2 | odd}, x...)
	case 2:
		b = pub.SerializeUncompressed()
		want = append(append([]byte{4}, x...), y...)
	case 3:
		b = pub.SerializeHybrid()
		want = append(append([]byte{6 | odd}, x...), y...)
	default:
		return pub
	}
	if !bytes.Equal(b, want) {
		c.viol("wrong encoding of a public key", "form %d: %x want %x", how, b, want)
		return pub
	}
	if (len(b) == 33) != btcec.IsCompressedPubKey(b) {
		c.viol("compressed form not recognised", "form %d", how)
	}
	k, err := btcec.ParsePubKey(b, btcec.S256())
	if err != nil {
		c.viol("public key does not survive its encoding", "form %d: %v", how, err)
		return pub
	}
	if k.X.Cmp(q.X()) != 0 || k.Y.Cmp(q.Y()) != 0 || !k.IsEqual(pub) {
		c.viol("public key does not survive its encoding", "form %d: other key", how)
	}
	return k
}

func derInt(x *big.Int) []byte {
	b := x.Bytes()
	if len(b) == 0 || b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	return append([]byte{2, byte(len(b))}, b...)
}

func derSig(r, s *big.Int) []byte {
	b := append(derInt(r), derInt(s)...)
	return append([]byte{0x30, byte(len(b))}, b...)
}

// parse14 is the grammar: which signature the bytes stand for, and whether strictly.
func parse14(b []byte) (r, s *big.Int, strict, ok bool) {
	if len(b) < 8 || b[0] != 0x30 || int(b[1])+2 > len(b) {
		return
	}
	b = b[2 : 2+int(b[1])]
	strict = true
	next := func() *big.Int {
		if len(b) < 3 || b[0] != 2 || b[1] == 0 || int(b[1])+2 > len(b) {
			return nil
		}
		v := b[2 : 2+int(b[1])]
		if v[0]&0x80 != 0 || (len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0) {
			strict = false
		}
		b = b[2+len(v):]
		return new(big.Int).SetBytes(v)
	}
	if r = next(); r == nil {
		return
	}
	if s = next(); s == nil || len(b) != 0 {
		return
	}
	ok = r.Sign() > 0 && s.Sign() > 0 && r.Cmp(refzk.N) < 0 && s.Cmp(refzk.N) < 0
	return
}

func (c *Ctx) parseBoth(b []byte, what string) {
	r, s, strict, ok := parse14(b)
	for _, der := range []bool{false, true} {
		var sig *btcec.Signature
		var err error
		if der {
			sig, err = btcec.ParseDERSignature(b, btcec.S256())
		} else {
			sig, err = btcec.ParseSignature(b, btcec.S256())
		}
		if err == nil && (sig == nil || sig.R == nil || sig.S == nil) {
			c.viol("parser returns neither signature nor error", "%s %x", what, b)
			continue
		}
		if err == nil && (!ok || (der && !strict)) {
			c.viol("malformed signature accepted", "%s, der %v: %x", what, der, b)
			continue
		}
		if err == nil && (sig.R.Cmp(r) != 0 || sig.S.Cmp(s) != 0) {
			c.viol("parser returns another signature", "%s, der %v: %x", what, der, b)
		}
		// the lax parser also reads padded numbers and numbers that lack the sign byte
		if err != nil && ok && (strict || !der) && b[1] < 0x80 && len(b) == int(b[1])+2 {
			c.viol("well-formed signature refused", "%s, der %v: %x: %v", what, der, b, err)
		}
	}
}

func op14(c *Ctx) {
	o := c.Op
	r := &c.rng
	s, _ := c.run.state.(*state14)
	if s == nil {
		return
	}
	ki := int(o.n(0)) % len(s.keys)
	k := s.keys[ki]
	hash := s.hashes[int(o.n(1))%len(s.hashes)]
	if o.n(1) > 2 {
		hash = hash14(r)
	}
	e := refzk.HashInt(hash)
	cur := btcec.S256()
	sign := func() *btcec.Signature {
		ent := &Ent{Seed: r.u64(), FailAt: -1}
		switch o.n(2) {
		case 1:
			ent.FailAt, ent.Persist = 0, true
		case 2:
			ent.Steer = 1
		}
		snap := append([]byte(nil), hash...)
		var sig *btcec.Signature
		var err error
		with(ent, func() { sig, err = k.priv.Sign(hash) })
		if o.n(2) > 0 {
			c.fault("entropy unusable while signing")
		}
		if !bytes.Equal(snap, hash) {
			c.viol("hash changed by signing", "%x", snap)
		}
		if err != nil || sig == nil {
			c.viol("cannot sign", "%v", err)
			return nil
		}
		wr, ws := refzk.Sign6979(k.d, hash)
		if sig.S.Cmp(refzk.HalfN()) > 0 {
			c.viol("high S", "s=%x", sig.S)
		}
		if sig.R.Cmp(wr) != 0 || sig.S.Cmp(ws) != 0 {
			c.viol("signature is not the deterministic one", "d=%x hash=%x", k.d, hash)
		}
		return sig
	}
	// check compares a verdict of the library with ECDSA.
	check := func(q refzk.Point, pub *btcec.PublicKey, h []byte, rr, ss *big.Int, what string) bool {
		want := refzk.VerifySig(q, refzk.HashInt(h), rr, ss)
		if pub == nil {
			pub = &btcec.PublicKey{Curve: cur, X: q.X(), Y: q.Y()}
		}
		got := (&btcec.Signature{R: cp(rr), S: cp(ss)}).Verify(h, pub)
		if got && !want {
			c.viol("wrong signature verifies", "%s: key (%x,%x) hash %x r %x s %x", what, q.X(), q.Y(), h, rr, ss)
		}
		// The standard library's verifier refuses the empty hash whatever the signature.
		if !got && want && len(h) > 0 {
			c.viol("right signature does not verify", "%s: key (%x,%x) hash %x r %x s %x", what, q.X(), q.Y(), h, rr, ss)
		}
		return want
	}
	switch o.T {
	case "sign":
		sig := sign()
		if sig == nil {
			return
		}
		simrt.Yield()
		if again := sign(); again != nil && !again.IsEqual(sig) {
			c.viol("signing is not deterministic", "hash %x", hash)
		}
		b := sig.Serialize()
		if !bytes.Equal(b, derSig(sig.R, sig.S)) {
			c.viol("wrong encoding of a signature", "%x", b)
		}
		in := append([]byte(nil), b...)
		for _, der := range []bool{false, true} {
			var g *btcec.Signature
			var err error
			if der {
				g, err = btcec.ParseDERSignature(in, cur)
			} else {
				g, err = btcec.ParseSignature(in, cur)
			}
			if err != nil || !g.IsEqual(sig) {
				c.viol("signature does not survive its encoding", "der %v: %v", der, err)
				continue
			}
			pub := c.libKey(k.q, k.pub, int64(r.n(5)))
			if !g.Verify(hash, pub) && len(hash) > 0 {
				c.viol("right signature does not verify", "d=%x hash=%x", k.d, hash)
			}
		}
		if !bytes.Equal(in, b) {
			c.viol("bytes changed by parsing", "%x", b)
		}
		// S negated is the same signature: passed on by a node that parsed it from somebody else, it still verifies
		twin := &btcec.Signature{R: cp(sig.R), S: refzk.NegM(sig.S)}
		b = twin.Serialize()
		if g, err := btcec.ParseDERSignature(b, cur); err != nil {
			c.viol("signature does not survive its encoding", "S negated: %x: %v", b, err)
		} else if len(hash) > 0 && !g.Verify(hash, c.libKey(k.q, k.pub, int64(r.n(5)))) {
			c.viol("right signature does not verify", "S negated, encoded and parsed: %x", b)
		}
		if twin.S.Cmp(refzk.NegM(sig.S)) != 0 || twin.R.Cmp(sig.R) != 0 {
			c.viol("signature changed by encoding it", "%x", b)
		}
		c.kase("sign %x %x", k.d, hash)
	case "alter":
		sig := sign()
		if sig == nil {
			return
		}
		rr, ss, h, q := cp(sig.R), cp(sig.S), hash, k.q
		one := big.NewInt(1)
		edges := []*big.Int{new(big.Int), one, refzk.N, new(big.Int).Add(refzk.N, one), new(big.Int).Sub(refzk.N, one), new(big.Int).Add(refzk.N, sig.R), new(big.Int).Add(refzk.N, sig.S),
			new(big.Int).Neg(sig.R), new(big.Int).Neg(sig.S), new(big.Int).Lsh(one, 256), refzk.P}
		c.fault("signature: " + o.A)
		switch o.A {
		case "r":
			rr = r.nz()
			if r.p(1, 2) {
				rr = refzk.AddM(sig.R, one)
			}
		case "s":
			ss = r.nz()
			if r.p(1, 2) {
				ss = refzk.AddM(sig.S, one)
			}
		case "swap":
			rr, ss = ss, rr
		case "negs": // ECDSA accepts it
			ss = refzk.NegM(ss)
		case "hash":
			h = append([]byte(nil), hash...)
			how := r.n(4)
			if len(h) == 0 {
				how = 1 + how%3
			}
			switch how {
			case 0:
				h[r.n(len(h))] ^= 1 << uint(r.n(8))
			case 1:
				h = append(h, 0)
			case 2:
				h = append([]byte{0}, h...)
			default:
				h = hash14(r)
			}
		case "key":
			switch r.n(3) {
			case 0:
				q = k.q.Mul(r.twist())
			case 1:
				q = s.keys[(ki+1)%3].q
			default:
				q = k.q.Add(refzk.G)
			}
			if q.Inf {
				return
			}
		case "edge":
			if r.p(1, 2) {
				rr = edges[r.n(len(edges))]
			} else {
				ss = edges[r.n(len(edges))]
			}
		case "bits":
			b := sig.Serialize()
			for i := 0; i < 1+r.n(2); i++ {
				b[r.n(len(b))] ^= 1 << uint(r.n(8))
			}
			c.parseBoth(b, "bit flip")
			g, err := btcec.ParseSignature(b, cur)
			if err != nil {
				c.kase("alter bits %x: refused", o.Seed)
				return
			}
			rr, ss = g.R, g.S
		}
		check(q, nil, h, rr, ss, o.A)
		if sig.IsEqual(&btcec.Signature{R: cp(rr), S: cp(ss)}) != (rr.Cmp(sig.R) == 0 && ss.Cmp(sig.S) == 0) {
			c.viol("wrong comparison of signatures", "%s: r %x s %x with r %x s %x", o.A, sig.R, sig.S, rr, ss)
		}
		if k.pub.IsEqual(&btcec.PublicKey{Curve: cur, X: q.X(), Y: q.Y()}) != q.Eq(k.q) {
			c.viol("wrong comparison of keys", "%s: (%x,%x) with (%x,%x)", o.A, k.q.X(), k.q.Y(), q.X(), q.Y())
		}
		c.kase("alter %s %x", o.A, o.Seed)
	case "craft":
		// signatures an attacker constructs: verification passes through special cases of the group law
		kk := edgeNZ(r)
		d := k.d
		R := refzk.G.Mul(kk)
		rr := refzk.Mod(R.X())
		if rr.Sign() == 0 {
			return
		}
		var ee *big.Int
		q := k.q
		what := ""
		ss := r.nz()
		switch r.n(8) {
		case 6: // one of the recovery candidates is the point at infinity
			what, ee = "no key behind it", refzk.Mod(e)
			if r.p(1, 2) {
				ee = r.nz()
			}
			ss = refzk.MulM(ee, refzk.InvM(kk))
		case 0: // u1 G == u2 Q
			what, ee = "doubling", refzk.MulM(rr, d)
			_, ss = refzk.SignWith(d, kk, ee)
		case 1: // u1 G == -u2 Q
			what, ee = "cancelling", refzk.NegM(refzk.MulM(rr, d))
		case 2: // e = 0: u1 = 0
			what, ee = "zero hash", new(big.Int)
			_, ss = refzk.SignWith(d, kk, ee)
		case 3: // existential: Q with known relation, any hash
			what = "chosen key"
			ee = refzk.Mod(e)
			q2, ok := refzk.RecoverSig(ee, rr, ss, r.n(2))
			if !ok {
				return
			}
			q = q2
		case 4: // R with x between N and P
			what = "x above the order"
			ee = refzk.Mod(e)
			var ok bool
			for i := 0; i < 20 && !ok; i++ {
				rr = new(big.Int).Mod(new(big.Int).SetBytes(r.bytes(15)), new(big.Int).Sub(refzk.P, refzk.N))
				if r.p(1, 2) {
					rr.SetInt64(int64(1 + r.n(50)))
				}
				q, ok = refzk.RecoverSig(ee, rr, ss, 2+r.n(2))
			}
			if !ok {
				return
			}
		case 5:
			what, ee = "honest nonce", refzk.Mod(e)
			_, ss = refzk.SignWith(d, kk, ee)
		default:
			what, ee, q = "key is a generator", refzk.Mod(e), refzk.G
			_, ss = refzk.SignWith(big.NewInt(1), kk, ee)
		}
		if ss.Sign() == 0 || q.Inf {
			return
		}
		if r.p(1, 3) {
			ss = refzk.NegM(ss)
		}
		h := ee.FillBytes(make([]byte, 32))
		c.fault("crafted signature: " + what)
		check(q, c.libKey(q, nil, int64(r.n(4))), h, rr, ss, what)
		// the four candidates of compact recovery
		cs := append([]byte{0}, append(rr.FillBytes(make([]byte, 32)), ss.FillBytes(make([]byte, 32))...)...)
		for i := 0; i < 4; i++ {
			cs[0] = byte(27 + i + 4*r.n(2))
			c.recover14(cs, h, what)
		}
		c.kase("craft %s %x", what, o.Seed)
	case "compact":
		comp := r.p(1, 2)
		var cs []byte
		var err error
		ent := &Ent{Seed: r.u64(), FailAt: -1}
		if o.n(2) == 1 {
			ent.FailAt, ent.Persist = 0, true
		}
		with(ent, func() { cs, err = btcec.SignCompact(cur, k.priv, hash, comp) })
		if err != nil || len(cs) != 65 {
			c.viol("cannot sign", "compact: %v, %d bytes", err, len(cs))
			return
		}
		wr, ws := refzk.Sign6979(k.d, hash)
		if new(big.Int).SetBytes(cs[1:33]).Cmp(wr) != 0 || new(big.Int).SetBytes(cs[33:]).Cmp(ws) != 0 {
			c.viol("signature is not the deterministic one", "compact d=%x hash=%x", k.d, hash)
		}
		pk, got, err := btcec.RecoverCompact(cur, append([]byte(nil), cs...), hash)
		if err != nil || pk.X.Cmp(k.q.X()) != 0 || pk.Y.Cmp(k.q.Y()) != 0 || got != comp {
			c.viol("compact signature does not recover the signer", "d=%x hash=%x: %v", k.d, hash, err)
		}
		// altered
		for i := 0; i < 3; i++ {
			b := append([]byte(nil), cs...)
			h := hash
			switch r.n(5) {
			case 0:
				b[0] ^= byte(1 + r.n(7))
			case 1:
				b[0] = byte(r.u64())
			case 2:
				b[1+r.n(64)] ^= 1 << uint(r.n(8))
			case 3:
				h = hash14(r)
			default:
				b = b[:r.n(66)]
				if len(b) == 0 {
					b = append(append([]byte(nil), cs...), 0)
				}
			}
			c.fault("compact signature altered")
			c.recover14(b, h, "altered")
		}
		c.kase("compact %x %x", k.d, hash)
	case "newkey":
		ent := &Ent{Seed: r.u64(), FailAt: -1, Short: o.n(2) == 1}
		if o.n(2) > 1 {
			ent.Steer = 2
		}
		var p *btcec.PrivateKey
		var err error
		with(ent, func() { p, err = btcec.NewPrivateKey(cur) })
		if ent.Steered > 0 {
			c.fault("entropy edge value")
		}
		if err != nil || p == nil {
			c.viol("no key", "%v", err)
			return
		}
		if p.D.Sign() <= 0 || p.D.Cmp(refzk.N) >= 0 {
			c.viol("private key out of range", "%x", p.D)
		}
		q := refzk.G.Mul(p.D)
		pub := p.PubKey()
		if pub.X.Cmp(q.X()) != 0 || pub.Y.Cmp(q.Y()) != 0 {
			c.viol("key pair does not match", "d=%x", p.D)
		}
		b := p.Serialize()
		if !bytes.Equal(b, p.D.FillBytes(make([]byte, 32))) {
			c.viol("private key does not survive its encoding", "%x", b)
		}
		p2, pub2 := btcec.PrivKeyFromBytes(cur, b)
		if p2.D.Cmp(p.D) != 0 || !pub2.IsEqual(pub) {
			c.viol("private key does not survive its encoding", "%x", b)
		}
		c.libKey(q, pub, 1+int64(r.n(3)))
		c.kase("newkey %x", p.D)
	case "sigbytes":
		for i := 0; i < 12; i++ {
			b := sigBytes14(r)
			c.fault("hostile signature bytes")
			c.parseBoth(b, "hostile")
		}
		c.kase("sigbytes %x", o.Seed)
	case "keybytes":
		for i := 0; i < 12; i++ {
			b := keyBytes14(r)
			c.fault("hostile key bytes")
			c.parseKey14(b)
		}
		c.kase("keybytes %x", o.Seed)
	case "compactbytes":
		for i := 0; i < 6; i++ {
			b := r.bytes(65)
			if r.p(1, 3) {
				edgeScalar(r).FillBytes(b[1:33])
			}
			if r.p(1, 3) {
				edgeScalar(r).FillBytes(b[33:])
			}
			switch r.n(8) {
			case 0:
				refzk.N.FillBytes(b[1:33])
			case 1:
				refzk.N.FillBytes(b[33:])
			case 2:
				refzk.P.FillBytes(b[1:33])
			case 3:
				b = r.bytes(r.n(80))
			}
			if len(b) > 0 && r.p(3, 4) {
				b[0] = byte(27 + r.n(8))
			}
			c.fault("hostile compact signature")
			c.recover14(b, hash, "hostile")
		}
		c.kase("compactbytes %x", o.Seed)
	}
}

// recover14 compares compact recovery with the reference.
func (c *Ctx) recover14(b, h []byte, what string) {
	in := append([]byte(nil), b...)
	pk, comp, err := btcec.RecoverCompact(btcec.S256(), in, h)
	if !bytes.Equal(in, b) {
		c.viol("bytes changed by parsing", "%x", b)
	}
	var want refzk.Point
	ok := false
	if len(b) == 65 && b[0] >= 27 && b[0] <= 34 {
		want, ok = refzk.RecoverSig(refzk.HashInt(h), new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:]), int(b[0]-27)&3)
	}
	if err != nil {
		if ok {
			c.viol("compact signature does not recover the signer", "%s: %x hash %x: %v", what, b, h, err)
		}
		return
	}
	if pk == nil || pk.X == nil || pk.Y == nil {
		c.viol("recovery returns neither key nor error", "%s %x", what, b)
		return
	}
	q, on := refzk.FromXY(pk.X, pk.Y)
	switch {
	case !on || q.Inf:
		c.viol("recovered key is not on the curve", "%s: %x hash %x: (%x,%x)", what, b, h, pk.X, pk.Y)
	case !ok:
		c.viol("key recovered from what is no signature", "%s: %x hash %x", what, b, h)
	case !q.Eq(want):
		c.viol("wrong key recovered", "%s: %x hash %x", what, b, h)
	case comp != ((b[0]-27)&4 != 0):
		c.viol("wrong compression flag", "%s: %x", what, b)
	}
}

func sigBytes14(r *R) []byte {
	rr, ss := edgeScalar(r), edgeScalar(r)
	raw := func(x *big.Int) []byte {
		b := x.Bytes()
		switch r.n(6) {
		case 0:
			b = append(make([]byte, 1+r.n(3)), b...)
		case 1:
			if len(b) == 0 || b[0]&0x80 != 0 {
				b = append([]byte{0}, b...)
			}
		case 2:
			b = nil
		case 3:
			b = refzk.N.Bytes()
		}
		l := len(b)
		if r.p(1, 6) {
			l = r.n(256)
		}
		return append([]byte{2, byte(l)}, b...)
	}
	switch r.n(12) {
	case 8, 9, 10: // one byte of the frame is off
		b := derSig(rr, ss)
		at := []int{0, 1, 2, 3, 4 + int(b[3]), 5 + int(b[3])}[r.n(6)]
		switch r.n(4) {
		case 0:
			b[at]++
		case 1:
			b[at]--
		case 2:
			b[at] ^= 1 << uint(r.n(8))
		default:
			b[at] = byte(r.u64())
		}
		if r.p(1, 3) {
			b = append(b, r.bytes(r.n(4))...)
		}
		return b
	case 0:
		return r.bytes(r.n(80))
	case 1:
		b := derSig(rr, ss)
		return b[:r.n(len(b)+1)]
	case 2:
		b := derSig(rr, ss)
		b[1] = byte(r.u64())
		return b
	case 3:
		b := derSig(rr, ss)
		b[3] = byte(r.u64())
		return b
	case 4:
		return append(derSig(rr, ss), r.bytes(r.n(300))...)
	case 5: // long, with a length byte that wraps
		b := derSig(rr, ss)
		b = append(b, r.bytes(r.n(300))...)
		b[1] = byte(250 + r.n(6))
		return b
	}
	b := append(raw(rr), raw(ss)...)
	return append([]byte{0x30, byte(len(b))}, b...)
}

func keyBytes14(r *R) []byte {
	q := refzk.G.Mul(edgeNZ(r))
	if r.p(1, 2) {
		q = liftPoint(r)
	}
	x, y := q.X().FillBytes(make([]byte, 32)), q.Y().FillBytes(make([]byte, 32))
	big1 := func() []byte { // not reduced
		return new(big.Int).Add(refzk.P, big.NewInt(int64(r.n(976)))).FillBytes(make([]byte, 32))
	}
	f := []byte{2, 3, 4, 5, 6, 7, 0, 1, 8, byte(r.u64())}[r.n(10)]
	var b []byte
	switch r.n(10) {
	case 8, 9: // a point with a coordinate so small that it has a second encoding
		var q refzk.Point
		ok, k := false, 0
		for !ok {
			k = r.n(976)
			if r.p(1, 2) {
				q, ok = refzk.LiftX(big.NewInt(int64(k)), r.p(1, 2))
			} else if q, ok = refzk.LiftY(big.NewInt(int64(k)), r.n(3)); ok && r.p(1, 2) {
				q = q.Neg()
			}
		}
		x, y := q.X(), q.Y()
		if r.p(3, 4) {
			if x.BitLen() < 12 {
				x.Add(x, refzk.P)
			}
			if y.BitLen() < 12 {
				y.Add(y, refzk.P)
			}
		}
		f := []byte{2, 3, 4, 6, 7}[r.n(5)]
		b = append([]byte{f}, x.FillBytes(make([]byte, 32))...)
		if f > 3 {
			b = append(b, y.FillBytes(make([]byte, 32))...)
		}
		return b
	case 0:
		b = r.bytes(r.n(70))
	case 1:
		b = append([]byte{f}, r.bytes(32)...)
	case 2:
		b = append([]byte{f}, r.bytes(64)...)
	case 3:
		b = append([]byte{f}, big1()...)
	case 4:
		b = append(append([]byte{f}, big1()...), y...)
	case 5:
		b = append(append([]byte{f}, x...), y...)
		if r.p(1, 2) {
			b[1+r.n(64)] ^= 1 << uint(r.n(8))
		}
	case 6:
		b = append([]byte{f}, x...)
	default:
		b = append([]byte{f}, make([]byte, 64)...)
		if r.p(1, 2) {
			b = b[:33]
		}
	}
	if r.p(1, 8) && len(b) > 0 {
		b = b[:len(b)-1]
	}
	return b
}

func (c *Ctx) parseKey14(b []byte) {
	in := append([]byte(nil), b...)
	k, err := btcec.ParsePubKey(in, btcec.S256())
	if !bytes.Equal(in, b) {
		c.viol("bytes changed by parsing", "%x", b)
	}
	var want refzk.Point
	must, may := false, false
	switch {
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		want, must = refzk.LiftX(new(big.Int).SetBytes(b[1:]), b[0] == 3)
	case len(b) == 65 && b[0] >= 4 && b[0] <= 7:
		y := new(big.Int).SetBytes(b[33:])
		var ok bool
		want, ok = refzk.FromXY(new(big.Int).SetBytes(b[1:33]), y)
		ok = ok && !want.Inf
		switch b[0] {
		case 4:
			must = ok
		case 5: // unspecified
			may = ok
		default:
			must = ok && byte(y.Bit(0)) == b[0]&1
		}
	}
	if err != nil {
		if must {
			c.viol("valid public key refused", "%x: %v", b, err)
		}
		return
	}
	if k == nil || k.X == nil || k.Y == nil {
		c.viol("parser returns neither key nor error", "%x", b)
		return
	}
	if q, on := refzk.FromXY(k.X, k.Y); !on || q.Inf {
		c.viol("parsed key is not on the curve", "%x: (%x,%x)", b, k.X, k.Y)
	} else if !must && !may {
		c.viol("malformed public key accepted", "%x", b)
	} else if !q.Eq(want) {
		c.viol("parser returns another key", "%x", b)
	}
}

func end14(run *Run, rec *Rec) {
	s, _ := run.state.(*state14)
	if s == nil {
		return
	}
	for i, k := range s.keys {
		if k.priv.D.Cmp(k.d) != 0 || k.pub.X.Cmp(k.q.X()) != 0 || k.pub.Y.Cmp(k.q.Y()) != 0 || k.priv.X.Cmp(k.q.X()) != 0 || k.priv.Y.Cmp(k.q.Y()) != 0 {
			rec.viol("key pair does not match", "key %d", i)
		}
	}
}
