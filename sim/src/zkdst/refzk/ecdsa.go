package refzk

import (
	"crypto/hmac"
	"crypto/sha256"
	"math/big"
)

// HashInt is the integer ECDSA signs: the leftmost 256 bits.
func HashInt(h []byte) *big.Int {
	if len(h) > 32 {
		h = h[:32]
	}
	return new(big.Int).SetBytes(h)
}

func oct(x *big.Int) []byte { b := make([]byte, 32); return x.FillBytes(b) }

func hm(k []byte, ms ...[]byte) []byte {
	h := hmac.New(sha256.New, k)
	for _, m := range ms {
		h.Write(m)
	}
	return h.Sum(nil)
}

// Nonce6979 is RFC 6979 with HMAC-SHA-256, section 3.2.
func Nonce6979(d *big.Int, hash []byte) *big.Int {
	z := HashInt(hash)
	if z.Cmp(N) >= 0 {
		z.Sub(z, N)
	}
	x, h := oct(d), oct(z)
	v, k := make([]byte, 32), make([]byte, 32)
	for i := range v {
		v[i] = 1
	}
	k = hm(k, v, []byte{0}, x, h)
	v = hm(k, v)
	k = hm(k, v, []byte{1}, x, h)
	v = hm(k, v)
	for {
		v = hm(k, v)
		t := new(big.Int).SetBytes(v)
		if t.Sign() > 0 && t.Cmp(N) < 0 {
			return t
		}
		k = hm(k, v, []byte{0})
		v = hm(k, v)
	}
}

var half = new(big.Int).Rsh(N, 1)

// HalfN is the largest low S.
func HalfN() *big.Int { return new(big.Int).Set(half) }

// SignWith signs with a given nonce, low S.
func SignWith(d, k, e *big.Int) (r, s *big.Int) {
	r = Mod(G.Mul(k).X())
	s = MulM(AddM(e, MulM(r, d)), InvM(k))
	if s.Cmp(half) > 0 {
		s.Sub(N, s)
	}
	return
}

// Sign6979 is the deterministic low-S signature.
func Sign6979(d *big.Int, hash []byte) (r, s *big.Int) {
	return SignWith(d, Nonce6979(d, hash), HashInt(hash))
}

// VerifySig is ECDSA verification.
func VerifySig(q Point, e, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	w := InvM(s)
	p := Lin(MulM(e, w), G, MulM(r, w), q)
	if p.Eq(Ident) {
		return false
	}
	return Mod(p.X()).Cmp(r) == 0
}

// RecoverSig is the key recovered for candidate i (0..3); ok is false when there is none.
func RecoverSig(e, r, s *big.Int, i int) (Point, bool) {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 || i < 0 || i > 3 {
		return Ident, false
	}
	x := new(big.Int).Set(r)
	if i >= 2 {
		x.Add(x, N)
	}
	if x.Cmp(P) >= 0 {
		return Ident, false
	}
	R, ok := LiftX(x, i&1 == 1)
	if !ok {
		return Ident, false
	}
	ri := InvM(r)
	q := Lin(MulM(s, ri), R, NegM(MulM(e, ri)), G)
	return q, !q.Eq(Ident)
}
