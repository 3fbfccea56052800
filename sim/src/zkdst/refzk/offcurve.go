package refzk

import "math/big"

// Points that are not on the curve. The addition formulas do not use the constant 7, so code that does not check where a
// point lies computes on another curve y^2 = x^3 + b, which has points of tiny order: (0,y) has order 3 and (x,0) order 2.

// Raw makes a point without looking whether it is on the curve.
func Raw(x, y *big.Int) Point { return Point{x: feFrom(x), y: feFrom(y)} }

// OnCurve reports whether p belongs to the group.
func (p Point) OnCurve() bool { return p.Inf || p.onCurve() }

func mp(x *big.Int) *big.Int { return x.Mod(x, P) }

// OffSub returns a point of order 3 whose difference with q has order 3 as well.
func OffSub(q Point, odd bool) (Point, bool) {
	l := new(big.Int).ModSqrt(q.X(), P)
	if l == nil {
		return Ident, false
	}
	if odd {
		l.Sub(P, l)
	}
	y := new(big.Int).Mul(l, q.X())
	y.Add(y, q.Y()).Neg(y)
	c := Raw(new(big.Int), mp(y))
	return c, c.Sub(q).X().Sign() == 0
}

// OffChain returns two points of order 3 such that (s + a) + b, computed by the formulas, is t.
func OffChain(s, t Point, rnd func() *big.Int) (a, b Point, ok bool) {
	sx, sy, tx, ty := s.X(), s.Y(), t.X(), t.Y()
	mul := func(x ...*big.Int) *big.Int {
		r := big.NewInt(1)
		for _, v := range x {
			mp(r.Mul(r, v))
		}
		return r
	}
	n := func(i int64) *big.Int { return big.NewInt(i) }
	d := mp(new(big.Int).Sub(sx, tx))
	st := mp(new(big.Int).Add(sx, tx))
	f := make([]*big.Int, 5) // d(u^2+d)^2 - 4 sx u^2 (u^2+d) - 2(sx+tx) u^2 (d-u^2) + 4(sy-ty) u^3
	f[0] = mul(d, d, d)
	f[1] = new(big.Int)
	f[2] = mp(new(big.Int).Sub(mul(n(2), d, d), new(big.Int).Add(mul(n(4), sx, d), mul(n(2), st, d))))
	f[3] = mul(n(4), mp(new(big.Int).Sub(sy, ty)))
	f[4] = mp(new(big.Int).Add(new(big.Int).Sub(d, mul(n(4), sx)), mul(n(2), st)))
	for _, u := range polyRoots(f, rnd) {
		if u.Sign() == 0 {
			continue
		}
		iu := new(big.Int).ModInverse(new(big.Int).Mul(u, n(2)), P)
		u2 := mul(u, u)
		la := mul(new(big.Int).Add(u2, d), iu)
		lb := mul(mp(new(big.Int).Sub(d, u2)), iu)
		// the line through s with slope la meets x = 0 at sy - la sx; the one through -t with slope lb at -ty - lb tx
		ya := mp(new(big.Int).Sub(sy, mul(la, sx)))
		yb := mp(new(big.Int).Neg(new(big.Int).Add(ty, mul(lb, tx))))
		for k := 0; k < 4; k++ {
			a, b = Raw(new(big.Int), ya), Raw(new(big.Int), yb)
			if k&1 == 1 {
				a = a.Neg()
			}
			if k&2 == 2 {
				b = b.Neg()
			}
			if s.Add(a).Add(b).Eq(t) {
				return a, b, true
			}
		}
	}
	return
}

// ---- polynomials over GF(p), lowest coefficient first ----

func polyTrim(f []*big.Int) []*big.Int {
	for len(f) > 0 && f[len(f)-1].Sign() == 0 {
		f = f[:len(f)-1]
	}
	return f
}

// polyMod reduces f by the polynomial m.
func polyMod(f, m []*big.Int) []*big.Int {
	r := make([]*big.Int, len(f))
	for i := range f {
		r[i] = new(big.Int).Set(f[i])
	}
	inv := new(big.Int).ModInverse(m[len(m)-1], P)
	for r = polyTrim(r); len(r) >= len(m); r = polyTrim(r) {
		q := new(big.Int).Mul(r[len(r)-1], inv)
		mp(q)
		o := len(r) - len(m)
		for i := range m {
			t := new(big.Int).Mul(q, m[i])
			mp(r[o+i].Sub(r[o+i], t))
		}
	}
	return r
}

func polyMul(a, b, m []*big.Int) []*big.Int {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make([]*big.Int, len(a)+len(b)-1)
	for i := range r {
		r[i] = new(big.Int)
	}
	for i := range a {
		for j := range b {
			r[i+j].Add(r[i+j], new(big.Int).Mul(a[i], b[j]))
		}
	}
	for i := range r {
		mp(r[i])
	}
	return polyMod(r, m)
}

func polyGCD(a, b []*big.Int) []*big.Int {
	a, b = polyTrim(a), polyTrim(b)
	for len(b) > 0 {
		a, b = b, polyMod(a, b)
	}
	return a
}

// polyPow is (x+shift)^e mod m.
func polyPow(shift, e *big.Int, m []*big.Int) []*big.Int {
	base := polyMod([]*big.Int{shift, big.NewInt(1)}, m)
	r := []*big.Int{big.NewInt(1)}
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = polyMul(r, r, m)
		if e.Bit(i) == 1 {
			r = polyMul(r, base, m)
		}
	}
	return r
}

func polySub(a []*big.Int, i int, v int64) []*big.Int {
	r := append([]*big.Int(nil), a...)
	for len(r) <= i {
		r = append(r, new(big.Int))
	}
	r[i] = mp(new(big.Int).Sub(r[i], big.NewInt(v)))
	return polyTrim(r)
}

// polyRoots returns the roots of f in GF(p).
func polyRoots(f []*big.Int, rnd func() *big.Int) []*big.Int {
	f = polyTrim(f)
	if len(f) < 2 {
		return nil
	}
	g := polyGCD(f, polySub(polyPow(new(big.Int), P, f), 1, 1)) // product of the linear factors
	half := new(big.Int).Rsh(P, 1)
	var split func(g []*big.Int, depth int) []*big.Int
	split = func(g []*big.Int, depth int) []*big.Int {
		switch {
		case len(g) < 2 || depth > 60:
			return nil
		case len(g) == 2:
			r := new(big.Int).ModInverse(g[1], P)
			r.Mul(r, g[0])
			return []*big.Int{mp(r.Neg(r))}
		}
		h := polyGCD(g, polySub(polyPow(mp(rnd()), half, g), 0, 1))
		if len(h) < 2 || len(h) == len(g) {
			return split(g, depth+1)
		}
		return append(split(h, depth+1), split(polyDiv(g, h), depth+1)...)
	}
	return split(g, 0)
}

// polyDiv divides f by m exactly.
func polyDiv(f, m []*big.Int) []*big.Int {
	r := make([]*big.Int, len(f))
	for i := range f {
		r[i] = new(big.Int).Set(f[i])
	}
	q := make([]*big.Int, len(f)-len(m)+1)
	inv := new(big.Int).ModInverse(m[len(m)-1], P)
	for o := len(q) - 1; o >= 0; o-- {
		q[o] = mp(new(big.Int).Mul(r[o+len(m)-1], inv))
		for i := range m {
			mp(r[o+i].Sub(r[o+i], new(big.Int).Mul(q[o], m[i])))
		}
	}
	return q
}
