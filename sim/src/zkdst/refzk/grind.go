package refzk

import "math/big"

// Walk visits start, start+step, start+2*step, ... until f says stop or n points have been seen. It returns the index
// at which f stopped the walk, or -1.
func Walk(start, step Point, n int, f func(i int, p Point) bool) int {
	const batch = 128
	cur, st := start.toJac(), step.toJac()
	js := make([]jac, 0, batch)
	pre := make([]fe, batch)
	for at := 0; at < n; {
		js = js[:0]
		acc := one
		for len(js) < batch && at+len(js) < n {
			js = append(js, cur)
			pre[len(js)-1] = acc
			if !cur.z.isZero() {
				acc = feMul(&acc, &cur.z)
			}
			cur = addJ(&cur, &st)
		}
		inv := feInv(&acc)
		pts := make([]Point, len(js))
		for i := len(js) - 1; i >= 0; i-- {
			j := &js[i]
			if j.z.isZero() {
				pts[i] = Ident
				continue
			}
			zi := feMul(&inv, &pre[i])
			inv = feMul(&inv, &j.z)
			z2 := feSqr(&zi)
			z3 := feMul(&z2, &zi)
			pts[i] = Point{x: feMul(&j.x, &z2), y: feMul(&j.y, &z3)}
		}
		for i, p := range pts {
			if f(at+i, p) {
				return at + i
			}
		}
		at += len(pts)
	}
	return -1
}

// Shift is k+i modulo the order.
func Shift(k *big.Int, i int) *big.Int { return AddM(k, big.NewInt(int64(i))) }
