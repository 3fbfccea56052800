package main

import (
	"math/big"

	"zkdst/refzk"
)

var proofKinds = []string{refzk.GSPFS, refzk.Equiv, refzk.Disj, refzk.Cons, refzk.ABC, refzk.Ineq}

// scalars k for which kG (or kH) has a coordinate with leading zero bytes
var lzG = []int64{122, 130, 153, 246, 533, 544, 649, 726, 809, 832, 886, 1158, 1417, 1436, 1661, 1690, 41192, 44629, 58165, 63439, 68831, 127948, 185169, 218177}
var lzH = []int64{95, 353, 629, 930, 1236, 1270, 1362, 1751, 1759, 1840, 1989, 2002, 2162, 2254, 2380, 2497, 25831, 56051, 71251, 79475, 125365, 145724, 195099, 227693}

// edgeScalar draws a scalar in [0,N) biased to corners.
func edgeScalar(r *R) *big.Int {
	switch r.n(14) {
	case 12: // around the eigenvalues of the curve's endomorphism
		k := new(big.Int).Mul(lambda, big.NewInt(int64(r.n(5)-2)))
		k.Add(k, big.NewInt(int64(r.n(7)-3)))
		return k.Mod(k, refzk.N)
	case 13: // runs of equal bits
		k := new(big.Int)
		for b := uint(0); b < 256; {
			l := uint(1 + r.n(1+r.n(96)))
			if r.p(1, 2) {
				k.Or(k, new(big.Int).Lsh(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), l), big.NewInt(1)), b))
			}
			b += l
		}
		return k.Mod(k, refzk.N)
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(refzk.N, big.NewInt(int64(1+r.n(3))))
	case 3:
		return big.NewInt(int64(r.n(300)))
	case 4:
		return new(big.Int).Mod(new(big.Int).Lsh(big.NewInt(1), uint(r.n(256))), refzk.N)
	case 5:
		return new(big.Int).Mod(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(1+r.n(256))), big.NewInt(1)), refzk.N)
	case 6:
		return big.NewInt(lzG[r.n(len(lzG))])
	case 7:
		return big.NewInt(lzH[r.n(len(lzH))])
	}
	return r.scalar()
}

func edgeNZ(r *R) *big.Int {
	for {
		if s := edgeScalar(r); s.Sign() != 0 {
			return s
		}
	}
}

// lambda·(x,y) = (beta·x, y) on secp256k1.
// twist is a factor f such that p and f·p share a coordinate: -1 keeps x, lambda and its square keep y.
func (r *R) twist() *big.Int {
	switch r.n(4) {
	case 0:
		return lambda
	case 1:
		return refzk.MulM(lambda, lambda)
	}
	return new(big.Int).Sub(refzk.N, big.NewInt(1))
}

var lambda, _ = new(big.Int).SetString("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72", 16)

// edgeField draws a coordinate in a corner of the field: near 0, near p, near a power of two.
func edgeField(r *R) *big.Int {
	x := big.NewInt(int64(r.n(40)))
	switch r.n(3) {
	case 0:
		x.Sub(refzk.P, x)
	case 1:
		x.Add(x, new(big.Int).Lsh(big.NewInt(1), uint(r.n(256))))
		x.Sub(x, big.NewInt(20))
	}
	return x.Mod(x, refzk.P)
}

// liftPoint is a point nobody knows a discrete logarithm of.
func liftPoint(r *R) refzk.Point {
	for r.p(1, 6) {
		x := edgeField(r)
		if r.p(1, 2) { // as the y coordinate
			if q, ok := refzk.LiftY(x, r.n(3)); ok {
				return q
			}
			continue
		}
		if q, ok := refzk.LiftX(x, r.p(1, 2)); ok {
			return q
		}
	}
	for {
		x := new(big.Int).Mod(new(big.Int).SetBytes(r.bytes(40)), refzk.P)
		if r.p(1, 8) {
			x.Rsh(x, uint(8+r.n(16)))
		}
		if p, ok := refzk.LiftX(x, r.p(1, 2)); ok {
			return p
		}
	}
}

// edgeSum is a point whose sum or difference with p is a corner.
func edgeSum(r *R, p refzk.Point) refzk.Point {
	q := liftPoint(r)
	switch r.n(4) {
	case 0:
		q = q.Sub(p)
	case 1:
		q = p
	case 2: // same y, other x
		if !p.Inf {
			q, _ = refzk.LiftY(p.Y(), 1+r.n(2))
		}
	default: // same x, other y
		q = p.Neg()
	}
	if q.Inf {
		q = liftPoint(r)
	}
	return q
}

func someBase(r *R) refzk.Point {
	switch r.n(4) {
	case 0:
		return refzk.G
	case 1:
		return refzk.H
	case 2:
		return liftPoint(r)
	}
	return refzk.G.Mul(edgeNZ(r))
}

// unreduce presents a scalar as another integer of the same residue class.
func unreduce(r *R, x *big.Int) *big.Int {
	switch r.n(6) {
	case 0:
		return new(big.Int).Add(x, refzk.N)
	case 1:
		return new(big.Int).Sub(x, refzk.N)
	case 2:
		return new(big.Int).Add(x, new(big.Int).Mul(refzk.N, big.NewInt(int64(r.n(1000)))))
	}
	return x
}

// honest makes a true statement with its witness.
func honest(r *R, kind string) (refzk.Stmt, *Wit) {
	w := &Wit{}
	switch kind {
	case refzk.GSPFS:
		b := someBase(r)
		x := edgeScalar(r)
		w.Side = r.n(2)
		w.X = unreduce(r, x)
		return refzk.Stmt{Kind: kind, P: []refzk.Point{b, b.Mul(x)}}, w
	case refzk.Equiv:
		a, b := someBase(r), someBase(r)
		x := edgeScalar(r)
		w.X = unreduce(r, x)
		return refzk.Stmt{Kind: kind, P: []refzk.Point{a, a.Mul(x), b, b.Mul(x)}}, w
	case refzk.Disj:
		a, b := someBase(r), someBase(r)
		x := edgeScalar(r)
		w.X = unreduce(r, x)
		w.Side = r.n(2)
		other := liftPoint(r)
		if r.p(1, 3) {
			other = refzk.H.Mul(edgeScalar(r))
		}
		if w.Side == 0 {
			return refzk.Stmt{Kind: kind, P: []refzk.Point{a, a.Mul(x), b, other}}, w
		}
		return refzk.Stmt{Kind: kind, P: []refzk.Point{a, other, b, b.Mul(x)}}, w
	case refzk.Cons:
		v, rr, sk := edgeScalar(r), edgeScalar(r), edgeNZ(r)
		switch r.n(16) { // one number in two parts
		case 0:
			rr = v
		case 1:
			if v.Sign() != 0 {
				sk = v
			}
		case 2:
			if rr.Sign() != 0 {
				sk = rr
			}
		}
		pk := refzk.H.Mul(sk)
		w.V, w.R, w.SK = unreduce(r, v), unreduce(r, rr), sk
		return refzk.Stmt{Kind: kind, P: []refzk.Point{refzk.Commit(v, rr), pk.Mul(rr), pk}}, w
	case refzk.ABC:
		v, ua, sk := edgeNZ(r), edgeScalar(r), edgeNZ(r)
		switch r.n(16) {
		case 0:
			ua = v
		case 1:
			sk = v
		case 2:
			if ua.Sign() != 0 {
				sk = ua
			}
		}
		w.Side = r.n(2)
		if w.Side == 0 {
			v = new(big.Int)
		}
		w.V, w.R, w.SK = unreduce(r, v), ua, unreduce(r, sk)
		return refzk.Stmt{Kind: kind, P: []refzk.Point{refzk.Commit(v, ua), refzk.H.Mul(refzk.MulM(ua, sk))}}, w
	case refzk.Ineq:
		a, b := edgeScalar(r), edgeScalar(r)
		for a.Cmp(b) == 0 {
			b = r.scalar()
		}
		ra, rb, sk := edgeScalar(r), edgeScalar(r), edgeNZ(r)
		switch r.n(16) {
		case 0:
			ra, rb = b, a
		case 1:
			if a.Sign() != 0 {
				sk = a
			}
		}
		pk := refzk.H.Mul(sk)
		w.A, w.B, w.SK = unreduce(r, a), unreduce(r, b), sk
		w.V, w.R, w.Side = refzk.SubM(a, b), refzk.SubM(ra, rb), 1
		w.PA = [4]refzk.Point{refzk.Commit(a, ra), refzk.Commit(b, rb), pk.Mul(ra), pk.Mul(rb)}
		return refzk.Stmt{Kind: kind, P: []refzk.Point{w.PA[0].Sub(w.PA[1]), w.PA[2].Sub(w.PA[3])}}, w
	}
	panic("honest " + kind)
}

// refProve makes a proof with the reference prover (no library code).
func refProve(r *R, s refzk.Stmt, w *Wit) *refzk.Proof {
	switch s.Kind {
	case refzk.GSPFS:
		return refzk.ProveGSPFS(s.P[0], s.P[1], w.X, fsc(r))
	case refzk.Equiv:
		return refzk.ProveEquiv(s, w.X, fsc(r))
	case refzk.Disj:
		return refzk.ProveDisj(s, w.Side, w.X, fsc(r), fsc(r), fsc(r))
	case refzk.Cons:
		return refzk.ProveCons(s, w.V, w.R, fsc(r), fsc(r))
	case refzk.ABC, refzk.Ineq:
		return refzk.ProveABC(s, s.Kind, refzk.Mod(w.V), w.SK, abcNonces(r))
	}
	panic("refProve " + s.Kind)
}

func abcNonces(r *R) refzk.ABCNonces {
	return refzk.ABCNonces{U1: fsc(r), U2: fsc(r), U3: fsc(r), UB: fsc(r), UC: fsc(r), D1: fsc(r), D2: fsc(r), D3: fsc(r)}
}

func rangeBits(v *big.Int, n int) []int {
	b := make([]int, n)
	for i := range b {
		b[i] = int(v.Bit(i))
	}
	return b
}

// rangeValue draws a value in [0, 2^40), biased to corners.
func rangeValue(r *R) *big.Int {
	top := new(big.Int).Lsh(big.NewInt(1), 40)
	switch r.n(8) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(int64(r.n(5)))
	case 2:
		return new(big.Int).Sub(top, big.NewInt(int64(1+r.n(3))))
	case 3:
		return new(big.Int).Lsh(big.NewInt(1), uint(r.n(40)))
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(r.bytes(8)), top)
}
