package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"math/big"

	"github.com/mit-dci/zksigma/btcec"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C13: encrypted messages arrive intact or not at all.

func init() {
	scenarios["C13"] = &scenario{gen: gen13, pre: pre13, op: op13, end: end13, pan: true, hang: true}
}

type mailbox13 struct {
	d    *big.Int
	priv *btcec.PrivateKey
	pub  *btcec.PublicKey
}

type state13 struct {
	box []mailbox13
	cts [][]byte // per client: ciphertexts on the wire, for splicing
}

var ctAlters = []string{"flip", "flip", "flip", "byte", "truncate", "extend", "zero block", "splice", "swap blocks", "drop block", "repeat block", "negate key", "other key", "mac", "iv", "hostile", "prefix"}

func gen13(r *R, tier string, p *Plan) {
	clients := 1 + r.n(4)
	p.Extra["set"] = int64(r.u64() >> 1)
	n := 12 + r.n(20)
	for i := 0; i < n; i++ {
		o := Op{C: r.n(clients), Seed: r.u64()}
		switch k := r.n(10); {
		case k < 5:
			o.T = "send"
		case k < 8:
			o.T, o.A = "alter", r.pick(ctAlters)
		case k < 9:
			o.T, o.A = "insider", r.pick([]string{"good", "good", "pad", "pad0", "pad16", "padmix", "ragged", "ragged", "empty", "twist", "header"})
		default:
			o.T = "ecdh"
		}
		if i == 0 && r.p(1, 5) {
			o.T = "grind"
		}
		o.N = []int64{int64(r.n(3)), int64(r.n(8)), int64(r.n(2))}
		p.Ops = append(p.Ops, o)
	}
}

func pre13(run *Run) {
	r := &R{s: uint64(run.plan.Extra["set"])}
	s := &state13{cts: make([][]byte, 8)}
	for i := 0; i < 3; i++ {
		var m mailbox13
		m.d = edgeNZ(r)
		m.priv, m.pub = btcec.PrivKeyFromBytes(btcec.S256(), m.d.Bytes())
		q := refzk.G.Mul(m.d)
		if m.pub.X.Cmp(q.X()) != 0 || m.pub.Y.Cmp(q.Y()) != 0 {
			run.root.viol("key pair does not match", "d=%x", m.d)
		}
		if r.p(1, 2) { // the sender knows the key from its encoding
			b := m.pub.SerializeCompressed()
			if r.p(1, 2) {
				b = m.pub.SerializeUncompressed()
			}
			k, err := btcec.ParsePubKey(b, btcec.S256())
			if err != nil {
				run.root.viol("public key does not survive its encoding", "%v", err)
			} else {
				m.pub = k
			}
		}
		s.box = append(s.box, m)
	}
	run.state = s
}

func message13(r *R) []byte {
	n := 0
	switch r.n(6) {
	case 0:
		n = 0
		if r.p(1, 4) { // long messages, around the sizes at which length fields and buffers change
			n = []int{255, 256, 4095, 4096, 32768, 65519, 65535, 65536, 65537, 100000}[r.n(10)] + r.n(2)
		}
	case 1:
		n = r.n(3)
	case 2:
		n = 16*r.n(5) + r.n(3) - 1
	case 3:
		n = r.n(300)
	case 4:
		n = 16 * r.n(8)
	default:
		n = r.n(64)
	}
	if n < 0 {
		n = 0
	}
	b := r.bytes(n)
	switch r.n(5) {
	case 0: // looks like padding
		for i := range b {
			b[i] = byte(16 - n%16)
		}
	case 1:
		for i := range b {
			b[i] = 0
		}
	case 2:
		if n > 0 {
			b[n-1] = byte(1 + r.n(16))
		}
	}
	return b
}

// ref decrypt/encrypt of the documented structure; the shared x may be hashed with or without leading zeros.
func kdf13(x *big.Int, padded bool) (e, m []byte) {
	b := x.Bytes()
	if padded {
		b = x.FillBytes(make([]byte, 32))
	}
	k := sha512.Sum512(b)
	return k[:32], k[32:]
}

func refDecrypt(d *big.Int, ct []byte) ([]byte, bool) {
	if len(ct) < 16+70+16+32 || (len(ct)-118)%16 != 0 || !bytes.Equal(ct[16:20], []byte{2, 0xca, 0, 32}) || !bytes.Equal(ct[52:54], []byte{0, 32}) {
		return nil, false
	}
	q, ok := refzk.FromXY(new(big.Int).SetBytes(ct[20:52]), new(big.Int).SetBytes(ct[54:86]))
	if !ok || q.Inf {
		return nil, false
	}
	x := q.Mul(d).X()
	for _, pad := range []bool{false, true} {
		e, m := kdf13(x, pad)
		h := hmac.New(sha256.New, m)
		h.Write(ct[:len(ct)-32])
		if !hmac.Equal(h.Sum(nil), ct[len(ct)-32:]) {
			continue
		}
		blk, _ := aes.NewCipher(e)
		out := make([]byte, len(ct)-118)
		cipher.NewCBCDecrypter(blk, ct[:16]).CryptBlocks(out, ct[86:len(ct)-32])
		n := int(out[len(out)-1])
		if n < 1 || n > 16 {
			return nil, false
		}
		for _, b := range out[len(out)-n:] {
			if int(b) != n {
				return nil, false
			}
		}
		return out[:len(out)-n], true
	}
	return nil, false
}

// refEncrypt makes a ciphertext from already padded data, as a sender with its own implementation would.
func refEncrypt(q refzk.Point, k *big.Int, iv, padded []byte, cut int) ([]byte, bool) {
	x := q.Mul(k).X()
	if x.BitLen() <= 248 { // the two readings of the format differ here
		return nil, false
	}
	e, m := kdf13(x, false)
	eph := refzk.G.Mul(k)
	out := append([]byte(nil), iv...)
	out = append(out, 2, 0xca, 0, 32)
	out = append(out, eph.X().FillBytes(make([]byte, 32))...)
	out = append(out, 0, 32)
	out = append(out, eph.Y().FillBytes(make([]byte, 32))...)
	blk, _ := aes.NewCipher(e)
	body := make([]byte, len(padded))
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(body, padded)
	out = append(out, body[:len(body)-cut]...)
	h := hmac.New(sha256.New, m)
	h.Write(out)
	return h.Sum(out), true
}

func op13(c *Ctx) {
	o := c.Op
	r := &c.rng
	s, _ := c.run.state.(*state13)
	if s == nil || len(s.box) < 3 {
		return
	}
	to := s.box[int(o.n(0))%len(s.box)]
	encrypt := func(m []byte) []byte {
		e := &Ent{Seed: r.u64(), FailAt: -1, Short: o.n(2) == 1}
		if o.n(1) == 0 {
			e.Steer = 3
		}
		// the message lies in a larger buffer of the sender
		buf := append(append(make([]byte, 0, len(m)+64), m...), bytes.Repeat([]byte{0xee}, 64)...)
		snap := append([]byte(nil), buf...)
		var ct []byte
		var err error
		with(e, func() { ct, err = btcec.Encrypt(to.pub, buf[:len(m)]) })
		if e.Steered > 0 {
			c.fault("entropy edge value")
		}
		if e.Shorts > 0 {
			c.fault("entropy short read")
		}
		if !bytes.Equal(buf, snap) {
			c.viol("sender's buffer changed", "length %d", len(m))
		}
		if err != nil || ct == nil {
			c.viol("message cannot be encrypted", "length %d: %v", len(m), err)
			return nil
		}
		return ct
	}
	decrypt := func(k *btcec.PrivateKey, ct []byte) (m []byte, err error) {
		buf := append([]byte(nil), ct...)
		m, err = btcec.Decrypt(k, buf)
		if !bytes.Equal(buf, ct) {
			c.viol("received ciphertext changed by decryption", "length %d", len(ct))
		}
		return
	}
	switch o.T {
	case "send":
		m := message13(r)
		ct := encrypt(m)
		if ct == nil {
			return
		}
		s.cts[o.C] = ct
		simrt.Yield()
		for i := 0; i < 1+r.n(2); i++ { // duplicates arrive, too
			got, err := decrypt(to.priv, ct)
			if err != nil || !bytes.Equal(got, m) {
				c.viol("message does not arrive intact", "length %d, key %d: %v, got length %d", len(m), o.n(0), err, len(got))
			}
			if i > 0 {
				c.fault("duplicated message")
			}
		}
		if got, ok := refDecrypt(to.d, ct); !ok || !bytes.Equal(got, m) {
			c.viol("ciphertext is not in the documented format", "length %d", len(m))
		}
		if len(m) >= 16 && bytes.Contains(ct, m[:16]) {
			zero := true
			for _, b := range m[:16] {
				zero = zero && b == m[0]
			}
			if !zero {
				c.viol("plaintext in the ciphertext", "length %d", len(m))
			}
		}
		// other keys
		for i := 0; i < 2; i++ {
			var d *big.Int
			switch r.n(4) {
			case 0:
				d = s.box[(int(o.n(0))+1)%3].d
			case 1:
				d = refzk.AddM(to.d, big.NewInt(1))
			case 2:
				d = refzk.MulM(to.d, big.NewInt(2))
			default:
				d = r.nz()
			}
			if d.Sign() == 0 || d.Cmp(to.d) == 0 || refzk.NegM(d).Cmp(to.d) == 0 {
				continue
			}
			c.fault("opened with another key")
			k, _ := btcec.PrivKeyFromBytes(btcec.S256(), d.Bytes())
			if got, err := decrypt(k, ct); err == nil {
				c.viol("another key opens the message", "length %d, got %d", len(m), len(got))
			}
		}
		c.kase("send %d steer %d %x", len(m), o.n(1), o.Seed)
	case "grind":
		// a mailbox whose secret with this sender has several leading (or trailing) zero bytes: the sender draws the same
		// ephemeral key again, and the mailbox key is found by a walk along its multiples
		m := message13(r)
		seed := r.u64()
		once := func(pub *btcec.PublicKey) (ct []byte, err error) {
			with(&Ent{Seed: seed, FailAt: -1}, func() { ct, err = btcec.Encrypt(pub, append([]byte(nil), m...)) })
			return
		}
		ct, err := once(to.pub)
		if err != nil || len(ct) < 118 {
			c.viol("message cannot be encrypted", "length %d: %v", len(m), err)
			return
		}
		q, ok := refzk.FromXY(new(big.Int).SetBytes(ct[20:52]), new(big.Int).SetBytes(ct[54:86]))
		if !ok || q.Inf {
			c.viol("ciphertext is not in the documented format", "length %d", len(m))
			return
		}
		bits, low := 9+r.n(8), r.p(1, 4)
		i := refzk.Walk(q.Mul(to.d), q, 4<<uint(bits), func(_ int, t refzk.Point) bool {
			x := t.X()
			if low {
				return x.TrailingZeroBits() >= uint(bits)
			}
			return x.BitLen() <= 256-bits
		})
		if i < 0 {
			return
		}
		d := refzk.Shift(to.d, i)
		priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), d.Bytes())
		ct, err = once(pub)
		if err != nil {
			c.viol("message cannot be encrypted", "length %d: %v", len(m), err)
			return
		}
		if bytes.Equal(ct[20:52], q.X().FillBytes(make([]byte, 32))) {
			c.fault("rare shared secret")
		}
		got, err := decrypt(priv, ct)
		if err != nil || !bytes.Equal(got, m) {
			c.viol("message does not arrive intact", "shared secret with %d zero bits: %v", bits, err)
		}
		if got, ok := refDecrypt(d, ct); !ok || !bytes.Equal(got, m) {
			c.viol("ciphertext is not in the documented format", "shared secret with %d zero bits", bits)
		}
		c.kase("grind %d %x", bits, o.Seed)
	case "alter":
		m := message13(r)
		ct := encrypt(m)
		if ct == nil {
			return
		}
		for i := 0; i < 4; i++ {
			bad := alter13(r, o.A, ct, s.cts[(o.C+1)%8], to)
			if bad == nil || bytes.Equal(bad, ct) {
				continue
			}
			c.fault("ciphertext: " + o.A)
			got, err := decrypt(to.priv, bad)
			if err == nil {
				c.viol("altered ciphertext accepted", "%s, length %d: got length %d", o.A, len(m), len(got))
			}
			if err != nil && got != nil && len(got) > 0 {
				c.viol("plaintext returned with an error", "%s", o.A)
			}
		}
		c.kase("alter %s %d %x", o.A, len(m), o.Seed)
	case "insider": // a sender with another implementation
		m := message13(r)
		n := 16 - len(m)%16
		pad := append(append([]byte(nil), m...), bytes.Repeat([]byte{byte(n)}, n)...)
		switch o.A {
		case "pad":
			pad[len(pad)-1] = byte(17 + r.n(239))
		case "pad0":
			pad[len(pad)-1] = 0
		case "pad16":
			pad = pad[:16]
			pad[15] = 16
		case "padmix":
			pad[len(pad)-1] = byte(1 + r.n(16))
		}
		cut := 0
		if o.A == "ragged" { // not a whole number of blocks, but with a valid checksum
			cut = 1 + r.n(31)
			pad = append(pad, r.bytes(32)...)
		}
		ct, ok := refEncrypt(refzk.G.Mul(to.d), r.nz(), r.bytes(16), pad, cut)
		if !ok {
			return
		}
		switch o.A {
		case "empty": // no block at all, or half of one, below a valid checksum
			ct = ct[:86+[]int{0, 0, 0, 1, 15}[r.n(5)]]
		case "header":
			ct = ct[:len(ct)-32]
			ct[[]int{16, 17, 18, 19, 52, 53}[r.n(6)]] ^= byte(1 << uint(r.n(8)))
		case "twist": // an ephemeral point off the curve, the checksum under what the receiver would derive from it
			ct = ct[:len(ct)-32]
			switch r.n(3) {
			case 0:
				ct[54+r.n(32)] ^= byte(1 << uint(r.n(8)))
			case 1:
				copy(ct[20:52], r.bytes(32))
				ct[20] &= 0x7f
			case 2:
				copy(ct[54:86], make([]byte, 32))
			}
		}
		if o.A == "empty" || o.A == "header" || o.A == "twist" {
			x, _ := btcec.S256().ScalarMult(new(big.Int).SetBytes(ct[20:52]), new(big.Int).SetBytes(ct[54:86]), to.d.Bytes())
			e, m := kdf13(x, false)
			if o.A == "twist" {
				blk, _ := aes.NewCipher(e)
				cipher.NewCBCEncrypter(blk, ct[:16]).CryptBlocks(ct[86:], pad)
			}
			h := hmac.New(sha256.New, m)
			h.Write(ct)
			ct = h.Sum(ct)
		}
		got, err := decrypt(to.priv, ct) // must not panic
		if o.A == "good" {
			if err != nil || !bytes.Equal(got, m) {
				c.viol("message of an independent sender does not arrive", "length %d: %v", len(m), err)
			}
		} else {
			c.fault("sender with broken padding")
			if o.A == "ragged" && cut%16 != 0 && err == nil {
				c.viol("ciphertext of a wrong length accepted", "%d bytes", len(ct))
			}
			if (o.A == "empty" || o.A == "header") && err == nil {
				c.viol("ciphertext that breaks the format accepted", "%s, %d bytes", o.A, len(ct))
			}
			if o.A == "twist" && err == nil {
				c.viol("ephemeral point off the curve accepted", "%x", ct[20:86])
			}
		}
		c.kase("insider %s %d %x", o.A, len(m), o.Seed)
	case "ecdh":
		a, b := edgeNZ(r), edgeNZ(r)
		if r.p(1, 4) {
			b = to.d
		}
		ka, pa := btcec.PrivKeyFromBytes(btcec.S256(), a.Bytes())
		kb, pb := btcec.PrivKeyFromBytes(btcec.S256(), b.Bytes())
		x, y := btcec.GenerateSharedSecret(ka, pb), btcec.GenerateSharedSecret(kb, pa)
		want := refzk.G.Mul(refzk.MulM(a, b)).X()
		if !bytes.Equal(x, y) || new(big.Int).SetBytes(x).Cmp(want) != 0 {
			c.viol("shared secrets differ", "a=%x b=%x", a, b)
		}
		c.kase("ecdh %x %x", a, b)
	}
}

func alter13(r *R, how string, ct, other []byte, to mailbox13) []byte {
	b := append([]byte(nil), ct...)
	switch how {
	case "flip":
		b[r.n(len(b))] ^= 1 << uint(r.n(8))
		if r.p(1, 4) {
			b[r.n(len(b))] ^= 1 << uint(r.n(8))
		}
	case "byte":
		b[r.n(len(b))] = byte(r.u64())
	case "truncate":
		b = b[:r.n(len(b))]
		if r.p(1, 2) {
			b = append([]byte(nil), ct[:len(ct)-16*(1+r.n(len(ct)/16))]...)
		}
	case "prefix":
		b = b[1+r.n(len(b)-1):]
	case "extend":
		b = append(b, r.bytes([]int{1, 16, 32, 5, 118}[r.n(5)])...)
		if r.p(1, 2) { // the checksum stays last
			k := 16 * (1 + r.n(3))
			b = append(append(append([]byte(nil), ct[:len(ct)-32]...), r.bytes(k)...), ct[len(ct)-32:]...)
		}
	case "zero block":
		i := r.n(len(b))
		for j := i; j < len(b) && j < i+16; j++ {
			b[j] = 0
		}
	case "splice":
		if len(other) < 118 {
			return nil
		}
		switch r.n(4) {
		case 0:
			copy(b[:16], other[:16])
		case 1:
			copy(b[16:86], other[16:86])
		case 2:
			copy(b[len(b)-32:], other[len(other)-32:])
		default:
			b = append(append([]byte(nil), ct[:86]...), other[86:]...)
		}
	case "swap blocks", "drop block", "repeat block":
		n := (len(b) - 118) / 16
		i, j := r.n(n), r.n(n)
		p, q := 86+16*i, 86+16*j
		switch how {
		case "swap blocks":
			copy(b[p:p+16], ct[q:q+16])
			copy(b[q:q+16], ct[p:p+16])
		case "drop block":
			b = append(append([]byte(nil), ct[:p]...), ct[p+16:]...)
		default:
			b = append(append(append([]byte(nil), ct[:p+16]...), ct[p:p+16]...), ct[p+16:]...)
		}
	case "negate key": // the shared secret stays the same
		y := new(big.Int).Sub(refzk.P, new(big.Int).SetBytes(ct[54:86]))
		y.FillBytes(b[54:86])
	case "other key":
		q := refzk.G.Mul(r.nz())
		if r.p(1, 3) { // not on the curve, or not reduced
			copy(b[20:52], r.bytes(32))
			if r.p(1, 2) {
				refzk.P.FillBytes(b[20:52])
			}
		} else {
			q.X().FillBytes(b[20:52])
			q.Y().FillBytes(b[54:86])
		}
	case "mac":
		switch r.n(3) {
		case 0:
			copy(b[len(b)-32:], make([]byte, 32))
		case 1:
			copy(b[len(b)-32:], r.bytes(32))
		default:
			b[len(b)-1-r.n(32)] ^= byte(1 + r.n(255))
		}
	case "iv":
		b[r.n(16)] ^= byte(1 + r.n(255))
	case "hostile":
		switch r.n(4) {
		case 0:
			b = r.bytes(r.n(200))
		case 1:
			b = r.bytes(118 + 16*r.n(4))
			copy(b[16:], []byte{2, 0xca, 0, 32})
			copy(b[52:], []byte{0, 32})
		case 2: // right key and header, nothing behind it
			b = append([]byte(nil), ct[:86]...)
			b = append(b, r.bytes(r.n(60))...)
		default:
			b = nil
			for i := 0; i < r.n(140); i++ {
				b = append(b, 0)
			}
			if b == nil {
				b = []byte{}
			}
		}
	}
	_ = to
	return b
}

func end13(run *Run, rec *Rec) {
	s, _ := run.state.(*state13)
	if s == nil {
		return
	}
	for i, m := range s.box {
		q := refzk.G.Mul(m.d)
		if m.priv.D.Cmp(m.d) != 0 || m.pub.X.Cmp(q.X()) != 0 || m.pub.Y.Cmp(q.Y()) != 0 {
			rec.viol("a key changed", "%d", i)
		}
	}
}
