// Package refzk is an independent executable model of what mit-dci/zksigma promises: secp256k1 arithmetic,
// the wire encoding, the proof statements, reference provers and verifiers, and ECDSA/ECIES. It shares no
// code with the repository.
package refzk

import (
	"math/big"
	"math/bits"
)

// fe is an element of GF(p), p = 2^256 - 0x1000003D1, always fully reduced.
type fe [4]uint64

const pc = 0x1000003D1

var (
	P, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	N, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	gx, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	gy, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)
	pl    = fe{0xFFFFFFFEFFFFFC2F, ^uint64(0), ^uint64(0), ^uint64(0)}
)

func feFrom(b *big.Int) fe {
	var t [32]byte
	new(big.Int).Mod(b, P).FillBytes(t[:])
	var r fe
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			r[3-i] = r[3-i]<<8 | uint64(t[8*i+j])
		}
	}
	return r
}

func (a *fe) big() *big.Int {
	var t [32]byte
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			t[8*i+j] = byte(a[3-i] >> uint(56-8*j))
		}
	}
	return new(big.Int).SetBytes(t[:])
}

func (a *fe) isZero() bool { return a[0]|a[1]|a[2]|a[3] == 0 }

// norm subtracts p once if r (with incoming carry c) is >= p.
func norm(r fe, c uint64) fe {
	var t fe
	var k uint64
	t[0], k = bits.Add64(r[0], pc, 0)
	t[1], k = bits.Add64(r[1], 0, k)
	t[2], k = bits.Add64(r[2], 0, k)
	t[3], k = bits.Add64(r[3], 0, k)
	if c != 0 || k != 0 {
		return t
	}
	return r
}

func feAdd(a, b *fe) fe {
	var r fe
	var c uint64
	r[0], c = bits.Add64(a[0], b[0], 0)
	r[1], c = bits.Add64(a[1], b[1], c)
	r[2], c = bits.Add64(a[2], b[2], c)
	r[3], c = bits.Add64(a[3], b[3], c)
	return norm(r, c)
}

func feSub(a, b *fe) fe {
	var r fe
	var c uint64
	r[0], c = bits.Sub64(a[0], b[0], 0)
	r[1], c = bits.Sub64(a[1], b[1], c)
	r[2], c = bits.Sub64(a[2], b[2], c)
	r[3], c = bits.Sub64(a[3], b[3], c)
	if c != 0 {
		var k uint64
		r[0], k = bits.Sub64(r[0], pc, 0)
		r[1], k = bits.Sub64(r[1], 0, k)
		r[2], k = bits.Sub64(r[2], 0, k)
		r[3], _ = bits.Sub64(r[3], 0, k)
	}
	return r
}

func feMul(a, b *fe) fe {
	var w0, w1, w2, w3, w4, w5, w6, w7, hi, lo, k, c uint64
	a0, a1, a2, a3 := a[0], a[1], a[2], a[3]
	b0, b1, b2, b3 := b[0], b[1], b[2], b[3]
	hi, lo = bits.Mul64(a0, b0)
	w0, c = lo, hi
	hi, lo = bits.Mul64(a0, b1)
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w1, c = lo, hi
	hi, lo = bits.Mul64(a0, b2)
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w2, c = lo, hi
	hi, lo = bits.Mul64(a0, b3)
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w3, c = lo, hi
	w4 = c
	hi, lo = bits.Mul64(a1, b0)
	lo, k = bits.Add64(lo, w1, 0)
	hi += k
	w1, c = lo, hi
	hi, lo = bits.Mul64(a1, b1)
	lo, k = bits.Add64(lo, w2, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w2, c = lo, hi
	hi, lo = bits.Mul64(a1, b2)
	lo, k = bits.Add64(lo, w3, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w3, c = lo, hi
	hi, lo = bits.Mul64(a1, b3)
	lo, k = bits.Add64(lo, w4, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w4, c = lo, hi
	w5 = c
	hi, lo = bits.Mul64(a2, b0)
	lo, k = bits.Add64(lo, w2, 0)
	hi += k
	w2, c = lo, hi
	hi, lo = bits.Mul64(a2, b1)
	lo, k = bits.Add64(lo, w3, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w3, c = lo, hi
	hi, lo = bits.Mul64(a2, b2)
	lo, k = bits.Add64(lo, w4, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w4, c = lo, hi
	hi, lo = bits.Mul64(a2, b3)
	lo, k = bits.Add64(lo, w5, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w5, c = lo, hi
	w6 = c
	hi, lo = bits.Mul64(a3, b0)
	lo, k = bits.Add64(lo, w3, 0)
	hi += k
	w3, c = lo, hi
	hi, lo = bits.Mul64(a3, b1)
	lo, k = bits.Add64(lo, w4, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w4, c = lo, hi
	hi, lo = bits.Mul64(a3, b2)
	lo, k = bits.Add64(lo, w5, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w5, c = lo, hi
	hi, lo = bits.Mul64(a3, b3)
	lo, k = bits.Add64(lo, w6, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w6, c = lo, hi
	w7 = c
	// fold the high half: 2^256 = pc mod p
	hi, lo = bits.Mul64(w4, pc)
	lo, k = bits.Add64(lo, w0, 0)
	hi += k
	w0, c = lo, hi
	hi, lo = bits.Mul64(w5, pc)
	lo, k = bits.Add64(lo, w1, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w1, c = lo, hi
	hi, lo = bits.Mul64(w6, pc)
	lo, k = bits.Add64(lo, w2, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w2, c = lo, hi
	hi, lo = bits.Mul64(w7, pc)
	lo, k = bits.Add64(lo, w3, 0)
	hi += k
	lo, k = bits.Add64(lo, c, 0)
	hi += k
	w3, c = lo, hi
	hi, lo = bits.Mul64(c, pc)
	w0, k = bits.Add64(w0, lo, 0)
	w1, k = bits.Add64(w1, hi, k)
	w2, k = bits.Add64(w2, 0, k)
	w3, k = bits.Add64(w3, 0, k)
	return norm(fe{w0, w1, w2, w3}, k)
}

func feSqr(a *fe) fe { return feMul(a, a) }

func feInv(a *fe) fe {
	return feFrom(new(big.Int).ModInverse(a.big(), P))
}

// Point is a curve point in affine coordinates; Inf is the identity.
type Point struct {
	x, y fe
	Inf  bool
}

type jac struct{ x, y, z fe }

var (
	one   = fe{1}
	seven = fe{7}
	Ident = Point{Inf: true}
	G     = Point{x: feFrom(gx), y: feFrom(gy)}
	tabs  []*fixed
)

// FromXY makes a point; (0,0) is the identity. ok is false when (x,y) is not a point of the group.
func FromXY(x, y *big.Int) (Point, bool) {
	if x == nil || y == nil {
		return Ident, false
	}
	if x.Sign() == 0 && y.Sign() == 0 {
		return Ident, true
	}
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(P) >= 0 || y.Cmp(P) >= 0 {
		return Ident, false
	}
	p := Point{x: feFrom(x), y: feFrom(y)}
	if !p.onCurve() {
		return Ident, false
	}
	return p, true
}

func (p Point) onCurve() bool {
	l := feSqr(&p.y)
	r := feSqr(&p.x)
	r = feMul(&r, &p.x)
	r = feAdd(&r, &seven)
	return l == r
}

// LiftX returns the point with this x and an even or odd y.
func LiftX(x *big.Int, odd bool) (Point, bool) {
	if x.Cmp(P) >= 0 {
		return Ident, false
	}
	y2 := new(big.Int).Exp(x, big.NewInt(3), P)
	y2.Add(y2, big.NewInt(7)).Mod(y2, P)
	y := new(big.Int).ModSqrt(y2, P)
	if y == nil {
		return Ident, false
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(P, y)
	}
	return FromXY(x, y)
}

var beta, _ = new(big.Int).SetString("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee", 16)

// LiftY returns a point with this y; which of the three it is depends on i.
func LiftY(y *big.Int, i int) (Point, bool) {
	x3 := new(big.Int).Mul(y, y)
	x3.Sub(x3, big.NewInt(7)).Mod(x3, P)
	e := new(big.Int).Add(P, big.NewInt(2)) // p = 7 mod 9
	x := new(big.Int).Exp(x3, e.Div(e, big.NewInt(9)), P)
	for ; i > 0; i-- {
		x.Mul(x, beta).Mod(x, P)
	}
	return FromXY(x, y)
}

func (p Point) X() *big.Int {
	if p.Inf {
		return new(big.Int)
	}
	return p.x.big()
}

func (p Point) Y() *big.Int {
	if p.Inf {
		return new(big.Int)
	}
	return p.y.big()
}

func (p Point) Eq(q Point) bool {
	if p.Inf || q.Inf {
		return p.Inf == q.Inf
	}
	return p.x == q.x && p.y == q.y
}

func (p Point) Neg() Point {
	if p.Inf {
		return p
	}
	var z fe
	p.y = feSub(&z, &p.y)
	return p
}

func (p Point) toJac() jac {
	if p.Inf {
		return jac{one, one, fe{}}
	}
	return jac{p.x, p.y, one}
}

func (j *jac) affine() Point {
	if j.z.isZero() {
		return Ident
	}
	zi := feInv(&j.z)
	z2 := feSqr(&zi)
	z3 := feMul(&z2, &zi)
	return Point{x: feMul(&j.x, &z2), y: feMul(&j.y, &z3)}
}

func dbl(p *jac) jac {
	if p.z.isZero() || p.y.isZero() {
		return jac{one, one, fe{}}
	}
	a := feSqr(&p.x)
	b := feSqr(&p.y)
	c := feSqr(&b)
	t := feAdd(&p.x, &b)
	t = feSqr(&t)
	t = feSub(&t, &a)
	t = feSub(&t, &c)
	d := feAdd(&t, &t)
	e := feAdd(&a, &a)
	e = feAdd(&e, &a)
	f := feSqr(&e)
	var r jac
	r.x = feSub(&f, &d)
	r.x = feSub(&r.x, &d)
	c8 := feAdd(&c, &c)
	c8 = feAdd(&c8, &c8)
	c8 = feAdd(&c8, &c8)
	t = feSub(&d, &r.x)
	t = feMul(&e, &t)
	r.y = feSub(&t, &c8)
	r.z = feMul(&p.y, &p.z)
	r.z = feAdd(&r.z, &r.z)
	return r
}

func addJ(p, q *jac) jac {
	if p.z.isZero() {
		return *q
	}
	if q.z.isZero() {
		return *p
	}
	z1 := feSqr(&p.z)
	z2 := feSqr(&q.z)
	u1 := feMul(&p.x, &z2)
	u2 := feMul(&q.x, &z1)
	s1 := feMul(&p.y, &z2)
	s1 = feMul(&s1, &q.z)
	s2 := feMul(&q.y, &z1)
	s2 = feMul(&s2, &p.z)
	if u1 == u2 {
		if s1 == s2 {
			return dbl(p)
		}
		return jac{one, one, fe{}}
	}
	h := feSub(&u2, &u1)
	r := feSub(&s2, &s1)
	h2 := feSqr(&h)
	h3 := feMul(&h2, &h)
	v := feMul(&u1, &h2)
	var o jac
	o.x = feSqr(&r)
	o.x = feSub(&o.x, &h3)
	o.x = feSub(&o.x, &v)
	o.x = feSub(&o.x, &v)
	t := feSub(&v, &o.x)
	t = feMul(&r, &t)
	s := feMul(&s1, &h3)
	o.y = feSub(&t, &s)
	o.z = feMul(&p.z, &q.z)
	o.z = feMul(&o.z, &h)
	return o
}

func (p Point) Add(q Point) Point {
	a, b := p.toJac(), q.toJac()
	r := addJ(&a, &b)
	return r.affine()
}

func (p Point) Sub(q Point) Point { return p.Add(q.Neg()) }

func scalarBytes(k *big.Int) [32]byte {
	var t [32]byte
	new(big.Int).Mod(k, N).FillBytes(t[:])
	return t
}

type fixed struct {
	p Point
	t [64][16]jac
}

func newFixed(p Point) *fixed {
	f := &fixed{p: p}
	b := p.toJac()
	for i := 0; i < 64; i++ {
		f.t[i][0] = jac{one, one, fe{}}
		for j := 1; j < 16; j++ {
			f.t[i][j] = addJ(&f.t[i][j-1], &b)
		}
		b = addJ(&f.t[i][15], &b)
	}
	return f
}

// UseFixed registers a point for which multiplication tables are kept.
func UseFixed(p Point) { tabs = append(tabs, newFixed(p)) }

func (p Point) mulJ(k *big.Int) jac {
	s := scalarBytes(k)
	if p.Inf {
		return jac{one, one, fe{}}
	}
	for _, f := range tabs {
		if f.p == p {
			r := jac{one, one, fe{}}
			for i := 0; i < 32; i++ {
				b := s[31-i]
				if b&15 != 0 {
					r = addJ(&r, &f.t[2*i][b&15])
				}
				if b>>4 != 0 {
					r = addJ(&r, &f.t[2*i+1][b>>4])
				}
			}
			return r
		}
	}
	var w [16]jac
	w[0] = jac{one, one, fe{}}
	w[1] = p.toJac()
	for i := 2; i < 16; i++ {
		w[i] = addJ(&w[i-1], &w[1])
	}
	r := w[0]
	for i := 0; i < 32; i++ {
		for _, nib := range [2]byte{s[i] >> 4, s[i] & 15} {
			if !r.z.isZero() {
				r = dbl(&r)
				r = dbl(&r)
				r = dbl(&r)
				r = dbl(&r)
			}
			if nib != 0 {
				r = addJ(&r, &w[nib])
			}
		}
	}
	return r
}

// Mul is k*p.
func (p Point) Mul(k *big.Int) Point {
	j := p.mulJ(k)
	return j.affine()
}

// Lin is a*p + b*q.
func Lin(a *big.Int, p Point, b *big.Int, q Point) Point {
	x, y := p.mulJ(a), q.mulJ(b)
	r := addJ(&x, &y)
	return r.affine()
}
