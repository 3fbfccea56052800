package main

import (
	"fmt"
	"math/big"

	"zkdst/refzk"
)

// A forger makes transcripts without a witness. Every forgery is invalid for the reference verifier; a verifier that
// leaves out one relation, or one element of the challenge, accepts one of them.

// weakHash models a challenge in which element k is left out (dup < 0) or replaced by element dup.
type weakHash struct{ k, dup int }

func (w weakHash) c(el []refzk.XY) *big.Int {
	if w.k < 0 {
		return refzk.Hash(el...)
	}
	var l []refzk.XY
	for i, e := range el {
		if i == w.k {
			if w.dup >= 0 {
				l = append(l, el[w.dup])
			}
			continue
		}
		l = append(l, e)
	}
	return refzk.Hash(l...)
}

func xy(p refzk.Point) refzk.XY { return p.XY() }

var zeroXY = refzk.XY{X: new(big.Int), Y: new(big.Int)}

// attacks per kind; names starting with "omit" take a weak hash.
var attacks = map[string][]string{
	refzk.GSPFS: {"omit0", "omit1", "omit2", "eq", "chal", "near", "sign", "offcurve", "degenerate", "liar"},
	refzk.Equiv: {"omit0", "omit1", "omit2", "omit3", "omit4", "omit5", "eq1", "eq2", "chal", "near", "sign1", "sign2", "offcurve", "degenerate", "liar"},
	refzk.Disj: {"omit0", "omit1", "omit2", "omit3", "omit4", "omit5", "split", "shares", "shares", "eq1", "eq2", "chal", "near", "sign1", "sign2",
		"offcurve", "degenerate", "liar"},
	refzk.Cons: {"omit2", "omit3", "omit4", "omit5", "omit6", "eq1", "eq2", "chal", "near", "sign1", "sign2", "offcurve", "degenerate", "liar"},
	refzk.ABC: {"omit2", "omit3", "omit4", "omit5", "omit6", "omit7", "eq1", "eq2", "chal", "near", "sign1", "sign2", "sub", "weight",
		"offcurve", "degenerate", "liar", "product"},
	refzk.Ineq: {"omit2", "omit3", "omit4", "omit6", "omit7", "eq1", "eq2", "chal", "near", "sub", "left", "offcurve", "degenerate", "liar", "zero"},
}

// nElems is the number of hashed elements per kind.
var nElems = map[string]int{refzk.GSPFS: 3, refzk.Equiv: 6, refzk.Disj: 6, refzk.Cons: 7, refzk.ABC: 8, refzk.Ineq: 8}

func omitOf(a string) int {
	if len(a) == 5 && a[:4] == "omit" {
		return int(a[4] - '0')
	}
	return -1
}

// forge returns a statement and an invalid transcript for it.
// It returns nil when the special values it chose make that impossible.
func forge(r *R, kind, attack string, dup int) (s refzk.Stmt, p *refzk.Proof) {
	if pn := guard(func() { s, p = forge1(r, kind, attack, dup) }); pn != nil {
		if r.sp == 0 {
			panic(pn.v)
		}
		return s, nil
	}
	return
}

func forge1(r *R, kind, attack string, dup int) (refzk.Stmt, *refzk.Proof) {
	w := weakHash{omitOf(attack), dup}
	if attack == "offcurve" {
		return forgeOff(r, kind)
	}
	switch kind {
	case refzk.GSPFS:
		return forgeGSPFS(r, attack, w)
	case refzk.Equiv:
		return forgeEquiv(r, attack, w)
	case refzk.Disj:
		s := refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{fpt(r), fpt(r), fpt(r), fpt(r)}}
		return forgeDisj(r, s, attack, w)
	case refzk.Cons:
		return forgeCons(r, attack, w)
	case refzk.ABC, refzk.Ineq:
		return forgeABC(r, kind, attack, w)
	}
	panic("forge " + kind)
}

func nearOf(r *R, c *big.Int) *big.Int {
	one := big.NewInt(1)
	switch r.n(6) {
	case 0:
		return refzk.NegM(c)
	case 1:
		return refzk.AddM(c, one)
	case 2:
		return refzk.AddM(c, new(big.Int).Lsh(one, uint(r.n(256))))
	case 3: // same low 64 bits
		return refzk.AddM(c, new(big.Int).Lsh(r.nz(), 64))
	case 4: // same high bits
		x := new(big.Int).Xor(c, big.NewInt(int64(1+r.n(1<<30))))
		return refzk.Mod(x)
	}
	return refzk.MulM(c, big.NewInt(2))
}

// fpt is a point the forger chooses freely: now and then a special one.
func fpt(r *R) refzk.Point {
	if r.sp > 0 && r.p(1, r.sp) {
		switch r.n(8) {
		case 0, 1:
			return refzk.Ident
		case 2:
			return refzk.G
		case 3:
			return refzk.H
		case 4:
			return refzk.G.Neg()
		default:
			if len(r.mp) > 0 {
				p := r.mp[r.n(len(r.mp))]
				if r.p(1, 4) {
					p = p.Neg()
				}
				return p
			}
		}
		return refzk.Ident
	}
	p := liftPoint(r)
	if r.sp > 0 {
		r.mp = append(r.mp, p)
	}
	return p
}

// fsc is a scalar the forger chooses freely.
func fsc(r *R) *big.Int {
	if r.sp > 0 && r.p(1, r.sp) {
		switch r.n(8) {
		case 0, 1, 2:
			return new(big.Int)
		case 3:
			return big.NewInt(1)
		case 4:
			return new(big.Int).Sub(refzk.N, big.NewInt(1))
		case 5:
			return big.NewInt(2)
		default:
			if len(r.ms) > 0 {
				return new(big.Int).Set(r.ms[r.n(len(r.ms))])
			}
		}
		return new(big.Int)
	}
	x := r.nz()
	if r.sp > 0 {
		r.ms = append(r.ms, x)
	}
	return x
}

func forgeGSPFS(r *R, attack string, w weakHash) (refzk.Stmt, *refzk.Proof) {
	B := someBase(r)
	A := fpt(r)
	T := fpt(r)
	sv := fsc(r)
	mk := func(c *big.Int) (refzk.Stmt, *refzk.Proof) {
		return refzk.Stmt{Kind: refzk.GSPFS, P: []refzk.Point{B, A}}, &refzk.Proof{Kind: refzk.GSPFS, P: []refzk.XY{xy(B), xy(T)}, I: []*big.Int{sv, c}}
	}
	hash := func() *big.Int { return w.c([]refzk.XY{xy(B), xy(A), xy(T)}) }
	switch attack {
	case "omit0": // Base = s^-1 (T - cA)
		c := hash()
		B = T.Sub(A.Mul(c)).Mul(refzk.InvM(sv))
		return mk(c)
	case "omit1": // A = c^-1 (T - sB)
		c := hash()
		A = T.Sub(B.Mul(sv)).Mul(refzk.InvM(c))
		return mk(c)
	case "omit2":
		c := hash()
		T = B.Mul(sv).Add(A.Mul(c))
		return mk(c)
	case "eq":
		return mk(hash())
	case "chal":
		c := fsc(r)
		T = B.Mul(sv).Add(A.Mul(c))
		return mk(c)
	case "near":
		x, u := fsc(r), fsc(r)
		A, T = B.Mul(x), B.Mul(u)
		c := nearOf(r, hash())
		sv = refzk.SubM(u, refzk.MulM(c, x))
		return mk(c)
	case "sign":
		x, u := fsc(r), fsc(r)
		A, T = B.Mul(x), B.Mul(u).Mul(r.twist())
		c := hash()
		sv = refzk.SubM(u, refzk.MulM(c, x))
		return mk(c)
	}
	panic("gspfs " + attack)
}

func forgeEquiv(r *R, attack string, w weakHash) (refzk.Stmt, *refzk.Proof) {
	B := [2]refzk.Point{someBase(r), fpt(r)}
	if r.p(1, 2) {
		B[1] = refzk.H
	}
	x, u := fsc(r), fsc(r)
	R0 := [2]refzk.Point{B[0].Mul(x), B[1].Mul(x)}
	T := [2]refzk.Point{B[0].Mul(u), B[1].Mul(u)}
	var sv *big.Int
	mk := func(c *big.Int) (refzk.Stmt, *refzk.Proof) {
		return refzk.Stmt{Kind: refzk.Equiv, P: []refzk.Point{B[0], R0[0], B[1], R0[1]}},
			&refzk.Proof{Kind: refzk.Equiv, P: []refzk.XY{xy(T[0]), xy(T[1])}, I: []*big.Int{c, sv}}
	}
	hash := func() *big.Int {
		return w.c([]refzk.XY{xy(B[0]), xy(R0[0]), xy(B[1]), xy(R0[1]), xy(T[0]), xy(T[1])})
	}
	resp := func(c *big.Int) { sv = refzk.AddM(u, refzk.MulM(c, x)) }
	switch attack {
	case "omit0", "omit2":
		i := int(attack[4]-'0') / 2
		R0[i], T[i] = fpt(r), fpt(r)
		c := hash()
		resp(c)
		B[i] = T[i].Add(R0[i].Mul(c)).Mul(refzk.InvM(sv))
		return mk(c)
	case "omit1", "omit3":
		i := int(attack[4]-'0') / 2
		T[i] = fpt(r)
		c := hash()
		resp(c)
		R0[i] = B[i].Mul(sv).Sub(T[i]).Mul(refzk.InvM(c))
		return mk(c)
	case "omit4", "omit5":
		i := int(attack[4] - '4')
		R0[i] = fpt(r)
		c := hash()
		resp(c)
		T[i] = B[i].Mul(sv).Sub(R0[i].Mul(c))
		return mk(c)
	case "eq1", "eq2":
		i := int(attack[2] - '1')
		R0[i] = B[i].Mul(fsc(r))
		c := hash()
		resp(c)
		return mk(c)
	case "chal":
		c := fsc(r)
		sv = fsc(r)
		for i := 0; i < 2; i++ {
			R0[i] = fpt(r)
			T[i] = B[i].Mul(sv).Sub(R0[i].Mul(c))
		}
		return mk(c)
	case "near":
		c := nearOf(r, hash())
		resp(c)
		return mk(c)
	case "sign1", "sign2": // R_i = -xB_i
		i := int(attack[4] - '1')
		f := r.twist()
		R0[i], T[i] = R0[i].Mul(f), T[i].Mul(f)
		c := hash()
		resp(c)
		return mk(c)
	}
	panic("equiv " + attack)
}

// forgeDisj forges for a given statement (nobody knows a witness for either side); attacks that solve for a
// statement element change it.
func forgeDisj(r *R, s refzk.Stmt, attack string, w weakHash) (refzk.Stmt, *refzk.Proof) {
	B := [2]refzk.Point{s.P[0], s.P[2]}
	R0 := [2]refzk.Point{s.P[1], s.P[3]}
	var T [2]refzk.Point
	cc := [2]*big.Int{fsc(r), fsc(r)}
	ss := [2]*big.Int{fsc(r), fsc(r)}
	mk := func(c *big.Int) (refzk.Stmt, *refzk.Proof) {
		return refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{B[0], R0[0], B[1], R0[1]}},
			&refzk.Proof{Kind: refzk.Disj, P: []refzk.XY{xy(T[0]), xy(T[1])}, I: []*big.Int{c, cc[0], cc[1], ss[0], ss[1]}}
	}
	hash := func() *big.Int {
		return w.c([]refzk.XY{xy(B[0]), xy(R0[0]), xy(B[1]), xy(R0[1]), xy(T[0]), xy(T[1])})
	}
	sim := func(i int) { T[i] = B[i].Mul(ss[i]).Sub(R0[i].Mul(cc[i])) }
	i := 0
	switch attack {
	case "omit2", "omit3", "omit5", "eq2", "sign2":
		i = 1
	case "chal", "near", "split", "shares":
		i = r.n(2)
	}
	o := 1 - i
	switch attack {
	case "omit0", "omit2":
		T[i] = fpt(r)
		sim(o)
		c := hash()
		cc[i] = refzk.SubM(c, cc[o])
		B[i] = T[i].Add(R0[i].Mul(cc[i])).Mul(refzk.InvM(ss[i]))
		return mk(c)
	case "omit1", "omit3":
		T[i] = fpt(r)
		sim(o)
		c := hash()
		cc[i] = refzk.SubM(c, cc[o])
		R0[i] = B[i].Mul(ss[i]).Sub(T[i]).Mul(refzk.InvM(cc[i]))
		return mk(c)
	case "omit4", "omit5":
		if attack == "omit5" {
			i, o = 1, 0
		}
		T[i] = fpt(r) // hashed only if the weak hash keeps it
		sim(o)
		c := hash()
		cc[i] = refzk.SubM(c, cc[o])
		sim(i)
		return mk(c)
	case "split": // both sides simulated, the shares do not add up
		sim(0)
		sim(1)
		return mk(hash())
	case "shares": // side i is true, its share is a special function of the challenge, the other one is free
		x, u := fsc(r), fsc(r)
		R0[i], T[i] = B[i].Mul(x), B[i].Mul(u)
		both := r.p(1, 3) // both sides true
		x2, u2 := fsc(r), fsc(r)
		if both {
			R0[o], T[o] = B[o].Mul(x2), B[o].Mul(u2)
		} else {
			sim(o)
		}
		c := hash()
		f := func() *big.Int {
			switch r.n(7) {
			case 0, 1:
				return c
			case 2:
				return new(big.Int)
			case 3:
				return refzk.NegM(c)
			case 4:
				return refzk.AddM(c, cc[o])
			case 5:
				return nearOf(r, c)
			}
			return fsc(r)
		}
		cc[i] = f()
		ss[i] = refzk.AddM(u, refzk.MulM(cc[i], x))
		if both {
			cc[o] = f()
			ss[o] = refzk.AddM(u2, refzk.MulM(cc[o], x2))
		}
		return mk(c)
	case "eq1", "eq2": // side i's equation fails
		T[i] = fpt(r)
		sim(o)
		c := hash()
		cc[i] = refzk.SubM(c, cc[o])
		return mk(c)
	case "chal":
		sim(0)
		sim(1)
		return mk(refzk.AddM(cc[0], cc[1]))
	case "near":
		x, u := fsc(r), fsc(r)
		R0[i], T[i] = B[i].Mul(x), B[i].Mul(u)
		sim(o)
		c := nearOf(r, hash())
		cc[i] = refzk.SubM(c, cc[o])
		ss[i] = refzk.AddM(u, refzk.MulM(cc[i], x))
		return mk(c)
	case "sign1", "sign2": // side i holds up to sign, side o is simulated up to sign as well half of the time
		x, u := fsc(r), fsc(r)
		f := r.twist()
		R0[i], T[i] = B[i].Mul(x).Mul(f), B[i].Mul(u).Mul(f)
		sim(o)
		c := hash()
		cc[i] = refzk.SubM(c, cc[o])
		ss[i] = refzk.AddM(u, refzk.MulM(cc[i], x))
		return mk(c)
	}
	panic("disj " + attack)
}

func forgeCons(r *R, attack string, w weakHash) (refzk.Stmt, *refzk.Proof) {
	v, rr, sk := fsc(r), fsc(r), fsc(r)
	u1, u2 := fsc(r), fsc(r)
	PK := refzk.H.Mul(sk)
	CM, Tok := refzk.Commit(v, rr), PK.Mul(rr)
	T1, T2 := refzk.Commit(u1, u2), PK.Mul(u2)
	var s1, s2 *big.Int
	mk := func(c *big.Int) (refzk.Stmt, *refzk.Proof) {
		return refzk.Stmt{Kind: refzk.Cons, P: []refzk.Point{CM, Tok, PK}},
			&refzk.Proof{Kind: refzk.Cons, P: []refzk.XY{xy(T1), xy(T2)}, I: []*big.Int{c, s1, s2}}
	}
	hash := func() *big.Int {
		return w.c([]refzk.XY{xy(refzk.G), xy(refzk.H), xy(CM), xy(Tok), xy(PK), xy(T1), xy(T2)})
	}
	resp := func(c *big.Int) { s1, s2 = refzk.AddM(u1, refzk.MulM(c, v)), refzk.AddM(u2, refzk.MulM(c, rr)) }
	switch attack {
	case "omit2":
		T1 = fpt(r)
		c := hash()
		resp(c)
		CM = refzk.Commit(s1, s2).Sub(T1).Mul(refzk.InvM(c))
		return mk(c)
	case "omit3":
		T2 = fpt(r)
		c := hash()
		resp(c)
		Tok = PK.Mul(s2).Sub(T2).Mul(refzk.InvM(c))
		return mk(c)
	case "omit4":
		T2, Tok = fpt(r), fpt(r)
		c := hash()
		resp(c)
		PK = T2.Add(Tok.Mul(c)).Mul(refzk.InvM(s2))
		return mk(c)
	case "omit5":
		CM = fpt(r)
		c := hash()
		resp(c)
		T1 = refzk.Commit(s1, s2).Sub(CM.Mul(c))
		return mk(c)
	case "omit6":
		Tok = PK.Mul(fsc(r)) // the token of another blinding
		c := hash()
		resp(c)
		T2 = PK.Mul(s2).Sub(Tok.Mul(c))
		return mk(c)
	case "eq1":
		CM = refzk.Commit(fsc(r), fsc(r))
		c := hash()
		resp(c)
		return mk(c)
	case "eq2":
		Tok = PK.Mul(fsc(r))
		c := hash()
		resp(c)
		return mk(c)
	case "chal":
		c := fsc(r)
		s1, s2 = fsc(r), fsc(r)
		CM, Tok = fpt(r), fpt(r)
		T1 = refzk.Commit(s1, s2).Sub(CM.Mul(c))
		T2 = PK.Mul(s2).Sub(Tok.Mul(c))
		return mk(c)
	case "near":
		c := nearOf(r, hash())
		resp(c)
		return mk(c)
	case "sign1":
		f := r.twist()
		CM, T1 = CM.Mul(f), T1.Mul(f)
		c := hash()
		resp(c)
		return mk(c)
	case "sign2":
		f := r.twist()
		Tok, T2 = Tok.Mul(f), T2.Mul(f)
		c := hash()
		resp(c)
		return mk(c)
	}
	panic("consist " + attack)
}

func forgeABC(r *R, kind, attack string, w weakHash) (refzk.Stmt, *refzk.Proof) {
	n := abcNonces(r)
	v, ua, sk := fsc(r), fsc(r), fsc(r)
	if kind == refzk.Ineq && attack != "omit2" && attack != "omit3" && attack != "omit6" && attack != "near" && attack != "eq1" && attack != "chal" {
		v = new(big.Int) // equal values
	}
	if kind == refzk.Ineq {
		n.UC = new(big.Int)
	}
	if attack == "left" { // an ABC proof that the difference is zero, offered as an inequality proof
		s := refzk.Stmt{Kind: kind, P: []refzk.Point{refzk.Commit(v, ua), refzk.H.Mul(refzk.MulM(ua, sk))}}
		n.UC = fsc(r)
		p := refzk.ProveABC(s, refzk.ABC, v, sk, n)
		p.Kind = kind
		return s, p
	}
	isk := refzk.InvM(sk)
	CM, Tok := refzk.Commit(v, ua), refzk.H.Mul(refzk.MulM(ua, sk))
	b := new(big.Int)
	if v.Sign() != 0 {
		b = refzk.InvM(v)
	}
	cval := big.NewInt(1)
	if attack == "weight" {
		cval = big.NewInt([]int64{0, 2, -1, 3}[r.n(4)])
		b = refzk.MulM(cval, refzk.InvM(v))
	}
	if attack == "sub" && kind == refzk.ABC {
		cval = big.NewInt(int64(2 + r.n(5)))
		b = refzk.MulM(cval, refzk.InvM(v))
	}
	B, C := refzk.Commit(b, n.UB), refzk.Commit(cval, n.UC)
	if attack == "product" { // C commits to 1, B does not commit to the inverse of v
		if r.p(1, 2) { // ... and v is zero
			v = new(big.Int)
			CM = refzk.Commit(v, ua)
		}
		B = refzk.Commit(fsc(r), n.UB)
	}
	T1 := refzk.Lin(n.U1, refzk.G, n.U2, Tok)
	T2 := func() refzk.Point { return refzk.Lin(n.U1, B, n.U3, refzk.H) }
	t2 := T2()
	var j, k, l *big.Int
	resp := func(c *big.Int) {
		j, k = refzk.AddM(n.U1, refzk.MulM(v, c)), refzk.AddM(n.U2, refzk.MulM(isk, c))
		l = refzk.AddM(n.U3, refzk.MulM(c, refzk.SubM(n.UC, refzk.MulM(v, n.UB))))
	}
	hash := func() *big.Int {
		return w.c([]refzk.XY{xy(refzk.G), xy(refzk.H), xy(CM), xy(Tok), xy(B), xy(C), xy(T1), xy(t2)})
	}
	var sub *refzk.Proof
	right := func() { // honest right side: C - G = uc H
		sub = refzk.ProveDisj(refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{CM, Tok, refzk.H, C.Sub(refzk.G)}}, 1, n.UC, n.D1, n.D2, n.D3)
	}
	left := func() {
		sub = refzk.ProveDisj(refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{CM, Tok, refzk.H, C.Sub(refzk.G)}}, 0, sk, n.D1, n.D2, n.D3)
	}
	mk := func(c *big.Int) (refzk.Stmt, *refzk.Proof) {
		return refzk.Stmt{Kind: kind, P: []refzk.Point{CM, Tok}},
			&refzk.Proof{Kind: kind, P: []refzk.XY{xy(B), xy(C), xy(T1), xy(t2), xy(refzk.H)}, I: []*big.Int{c, j, k, l}, Sub: sub}
	}
	switch attack {
	case "omit2":
		T1 = fpt(r)
		c := hash()
		resp(c)
		CM = refzk.Lin(j, refzk.G, k, Tok).Sub(T1).Mul(refzk.InvM(c))
		right()
		return mk(c)
	case "omit3":
		T1, CM = fpt(r), fpt(r)
		c := hash()
		resp(c)
		Tok = CM.Mul(c).Add(T1).Sub(refzk.G.Mul(j)).Mul(refzk.InvM(k))
		right()
		return mk(c)
	case "omit4": // B solved: the product relation is void
		t2 = fpt(r)
		c := hash()
		resp(c)
		B = C.Mul(c).Add(t2).Sub(refzk.H.Mul(l)).Mul(refzk.InvM(j))
		right()
		return mk(c)
	case "omit5": // C solved, with the zero side proved
		v = new(big.Int)
		CM = refzk.Commit(v, ua)
		B = fpt(r)
		t2 = fpt(r)
		c := hash()
		resp(c)
		C = B.Mul(j).Add(refzk.H.Mul(l)).Sub(t2).Mul(refzk.InvM(c))
		left()
		return mk(c)
	case "omit6":
		CM, Tok = fpt(r), fpt(r)
		T1 = fpt(r)
		c := hash()
		resp(c)
		T1 = refzk.Lin(j, refzk.G, k, Tok).Sub(CM.Mul(c))
		right()
		return mk(c)
	case "omit7":
		B = fpt(r)
		c := hash()
		resp(c)
		t2 = B.Mul(j).Add(refzk.H.Mul(l)).Sub(C.Mul(c))
		right()
		return mk(c)
	case "eq1":
		if r.p(1, 2) {
			CM = refzk.Commit(fsc(r), ua)
		} else {
			Tok = refzk.H.Mul(fsc(r))
			T1 = refzk.Lin(n.U1, refzk.G, n.U2, Tok)
		}
		c := hash()
		resp(c)
		right()
		return mk(c)
	case "eq2", "zero", "product":
		if attack == "eq2" {
			B = fpt(r)
			t2 = T2()
		}
		c := hash()
		resp(c)
		right()
		if attack == "zero" && r.p(1, 2) {
			left()
		}
		return mk(c)
	case "chal":
		c := fsc(r)
		j, k, l = fsc(r), fsc(r), fsc(r)
		CM, Tok, B = fpt(r), fpt(r), fpt(r)
		T1 = refzk.Lin(j, refzk.G, k, Tok).Sub(CM.Mul(c))
		t2 = B.Mul(j).Add(refzk.H.Mul(l)).Sub(C.Mul(c))
		right()
		return mk(c)
	case "near":
		c := nearOf(r, hash())
		resp(c)
		right()
		return mk(c)
	case "sign1":
		f := r.twist()
		CM, T1 = CM.Mul(f), T1.Mul(f)
		c := hash()
		resp(c)
		right()
		return mk(c)
	case "sign2":
		f := r.twist()
		if kind == refzk.ABC && r.p(2, 3) { // C commits to 1, but B to -1/v, say: the product relation holds up to the twist
			cv := refzk.InvM(f)
			B = refzk.Commit(refzk.MulM(cv, refzk.InvM(v)), n.UB)
			t2 = T2().Mul(f)
			C = refzk.Commit(cv, n.UC).Mul(f)
			c := hash()
			resp(c)
			sub = refzk.ProveDisj(refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{CM, Tok, refzk.H, C.Sub(refzk.G)}}, 1, refzk.MulM(n.UC, f), n.D1, n.D2, n.D3)
			return mk(c)
		}
		C, t2 = C.Mul(f), t2.Mul(f) // C = -(G + ucH), say
		c := hash()
		resp(c)
		left()
		return mk(c)
	case "weight": // C = mG + ucH, the sub-proof shows C - mG = uc H
		c := hash()
		resp(c)
		sub = refzk.ProveDisj(refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{CM, Tok, refzk.H, C.Sub(refzk.G.Mul(cval))}}, 1, n.UC, n.D1, n.D2, n.D3)
		return mk(c)
	case "sub":
		c := hash()
		resp(c)
		st := refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{CM, Tok, refzk.H, C.Sub(refzk.G)}}
		if kind == refzk.Ineq { // here C = G, the sub-proof is for a foreign statement
			st.P[3] = fpt(r)
		}
		a := []string{"split", "eq1", "eq2", "chal", "omit4", "omit5", "garbage", "shares"}[r.n(8)]
		if a == "garbage" {
			sub = &refzk.Proof{Kind: refzk.Disj, P: []refzk.XY{xy(fpt(r)), xy(fpt(r))},
				I: []*big.Int{fsc(r), fsc(r), fsc(r), fsc(r), fsc(r)}}
		} else {
			_, sub = forgeDisj(r, st, a, weakHash{omitOf(a), -1})
		}
		if kind == refzk.Ineq {
			// the product relation must not hold either: v = 0
			return mk(c)
		}
		return mk(c)
	}
	panic(kind + " " + attack)
}

// tiny is a point off the curve whose order is 3 or 2 on the curve that it is on.
func tiny(r *R) refzk.Point {
	if r.p(1, 4) {
		return refzk.Raw(refzk.Mod(r.nz()), new(big.Int))
	}
	return refzk.Raw(new(big.Int), r.nz())
}

// forgeOff uses points off the curve: for a part of all challenges their multiples vanish from the relations.
func forgeOff(r *R, kind string) (refzk.Stmt, *refzk.Proof) {
	some := func(i ...refzk.Point) refzk.Point { return i[r.n(len(i))] }
	switch kind {
	case refzk.GSPFS:
		B, A, sv := someBase(r), tiny(r), r.nz()
		T := B.Mul(sv)
		if r.p(1, 3) {
			T = T.Add(some(A, A.Neg()))
		}
		s := refzk.Stmt{Kind: kind, P: []refzk.Point{B, A}}
		c := refzk.Hash(xy(B), xy(A), xy(T))
		return s, &refzk.Proof{Kind: kind, P: []refzk.XY{xy(B), xy(T)}, I: []*big.Int{sv, c}}
	case refzk.Equiv:
		s := refzk.Stmt{Kind: kind, P: []refzk.Point{someBase(r), refzk.Ident, liftPoint(r), refzk.Ident}}
		u, x, k := r.nz(), new(big.Int), r.n(2)
		s.P[2*k+1] = tiny(r)
		T := []refzk.Point{s.P[0].Mul(u), s.P[2].Mul(u)}
		switch r.n(3) {
		case 0:
			s.P[1], s.P[3] = tiny(r), tiny(r)
		case 1: // a base of tiny order
			x = r.nz()
			o := 1 - k
			s.P[2*o+1] = s.P[2*o].Mul(x)
			s.P[2*k] = tiny(r)
			s.P[2*k+1] = some(refzk.Ident, s.P[2*k], s.P[2*k].Neg())
			T[k] = some(refzk.Ident, s.P[2*k], s.P[2*k].Neg())
		}
		p := &refzk.Proof{Kind: kind, P: []refzk.XY{xy(T[0]), xy(T[1])}}
		c := refzk.Hash(refzk.ChallengeElems(s, p)...)
		p.I = []*big.Int{c, refzk.AddM(u, refzk.MulM(c, x))}
		return s, p
	case refzk.Disj:
		s := refzk.Stmt{Kind: kind, P: []refzk.Point{someBase(r), liftPoint(r), liftPoint(r), liftPoint(r)}}
		k := r.n(2)
		s.P[2*k+1] = tiny(r)
		return s, offDisj(r, s, k)
	case refzk.Cons:
		pk, u1, u2, v := someBase(r), r.nz(), r.nz(), new(big.Int)
		CM, Tok := tiny(r), refzk.Ident
		switch r.n(3) {
		case 0:
			Tok = tiny(r)
		case 1:
			v = r.nz()
			CM, Tok = refzk.G.Mul(v), tiny(r)
		}
		s := refzk.Stmt{Kind: kind, P: []refzk.Point{CM, Tok, pk}}
		p := &refzk.Proof{Kind: kind, P: []refzk.XY{xy(refzk.Commit(u1, u2)), xy(pk.Mul(u2))}}
		c := refzk.Hash(refzk.ChallengeElems(s, p)...)
		p.I = []*big.Int{c, refzk.AddM(u1, refzk.MulM(c, v)), u2}
		return s, p
	case refzk.ABC, refzk.Ineq:
		sk, ua, v := r.nz(), r.nz(), new(big.Int)
		CM, Tok := refzk.Commit(v, ua), refzk.H.Mul(sk).Mul(ua)
		isk := refzk.InvM(sk) // CM = v G + isk Tok
		if r.p(1, 2) {
			v = r.nz()
			CM = refzk.Commit(v, ua)
		}
		j0, k0, t, uc := r.nz(), r.nz(), r.nz(), r.nz()
		T1 := refzk.Lin(j0, refzk.G, k0, Tok)
		B, C := refzk.H.Mul(r.nz()), refzk.G
		ub := new(big.Int)
		T2 := refzk.H.Mul(t)
		zero := kind == refzk.ABC && r.p(1, 2)
		off, ok := refzk.OffSub(refzk.G, r.p(1, 2))
		side := 1
		switch {
		case zero: // "commits to zero"
			side, v, isk = 0, new(big.Int), new(big.Int)
			CM = tiny(r)
			C = refzk.H.Mul(uc)
		case kind == refzk.ABC && ok: // "commits to another value than zero"
			C = off
			uc = new(big.Int)
		default: // inequality: the difference is off the curve
			CM, v, isk = tiny(r), new(big.Int), new(big.Int)
			uc = new(big.Int)
		}
		ub = r.nz()
		B = refzk.H.Mul(ub)
		s := refzk.Stmt{Kind: kind, P: []refzk.Point{CM, Tok}}
		p := &refzk.Proof{Kind: kind, P: []refzk.XY{xy(B), xy(C), xy(T1), xy(T2), xy(refzk.H)}}
		c := refzk.Hash(refzk.ChallengeElems(s, p)...)
		j, kk := refzk.AddM(j0, refzk.MulM(c, v)), refzk.AddM(k0, refzk.MulM(c, isk))
		l := refzk.SubM(refzk.AddM(t, refzk.MulM(c, uc)), refzk.MulM(j, ub))
		p.I = []*big.Int{c, j, kk, l}
		p.Sub = offDisj(r, refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{CM, Tok, refzk.H, C.Sub(refzk.G)}}, side)
		return s, p
	}
	panic("offcurve " + kind)
}

// offDisj hopes that the challenge makes result k vanish; the other side is simulated.
func offDisj(r *R, s refzk.Stmt, k int) *refzk.Proof {
	o := 1 - k
	var T [2]refzk.Point
	var ss, cc [2]*big.Int
	ss[0], ss[1], cc[o] = r.nz(), r.nz(), r.nz()
	T[k] = s.P[2*k].Mul(ss[k])
	T[o] = s.P[2*o].Mul(ss[o]).Sub(s.P[2*o+1].Mul(cc[o]))
	p := &refzk.Proof{Kind: refzk.Disj, P: []refzk.XY{xy(T[0]), xy(T[1])}}
	c := refzk.Hash(refzk.ChallengeElems(s, p)...)
	cc[k] = refzk.SubM(c, cc[o])
	p.I = []*big.Int{c, cc[0], cc[1], ss[0], ss[1]}
	return p
}

// forgeRangeOff: a commitment to anything, made of honest bits and two points off the curve, whose multiples vanish.
func forgeRangeOff(r *R) (refzk.Stmt, *refzk.Proof) {
	n := 3 + r.n(4)
	bits := make([]int, n)
	for i := range bits {
		bits[i] = r.n(2)
	}
	if r.p(1, 3) {
		comm := tiny(r)
		p, _, _ := refzk.ProveRange(1, bits[:1], r.nz, map[int]refzk.Point{0: comm}, nil)
		return refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{comm}}, p
	}
	bad := map[int]refzk.Point{n - 2: refzk.Ident, n - 1: refzk.Ident}
	p, sum, _ := refzk.ProveRange(n, bits, r.nz, bad, nil)
	for i := 0; i < 12; i++ {
		comm := refzk.Commit(new(big.Int).Lsh(r.nz(), 64), r.nz())
		a, b, ok := refzk.OffChain(sum, comm, r.nz)
		if !ok {
			continue
		}
		p.P[0], p.P[n-1], p.P[n] = xy(comm), xy(a), xy(b)
		return refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{comm}}, p
	}
	return refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{sum.Add(refzk.G)}}, p
}

// degenerate takes a transcript without witness and puts special values in its fields.
func degenerate(r *R, kind string) (refzk.Stmt, *refzk.Proof) {
	s, p := forge(r, kind, "chal", -1)
	if p == nil {
		return s, nil
	}
	spPt := func() refzk.XY {
		switch r.n(6) {
		case 0, 1:
			return zeroXY
		case 2:
			return xy(refzk.G)
		case 3:
			return xy(refzk.H)
		case 4:
			return xy(s.P[r.n(len(s.P))])
		}
		return p.P[r.n(len(p.P))]
	}
	spInt := func() *big.Int {
		switch r.n(7) {
		case 0, 1, 2:
			return new(big.Int)
		case 3:
			return big.NewInt(1)
		case 4:
			return new(big.Int).Set(refzk.N)
		case 5:
			return big.NewInt(-1)
		}
		return new(big.Int).Set(p.I[r.n(len(p.I))])
	}
	all := r.p(1, 4)
	tweak := func(q *refzk.Proof) {
		for i := range q.P {
			if kind == refzk.GSPFS && i == 0 {
				continue
			}
			if all || r.p(1, 3) {
				q.P[i] = spPt()
			}
		}
		for i := range q.I {
			if all || r.p(1, 3) {
				q.I[i] = spInt()
			}
		}
	}
	tweak(p)
	if p.Sub != nil && r.p(1, 2) {
		tweak(p.Sub)
	}
	if r.p(1, 2) {
		// with the challenge the verifier will compute
		ci := 0
		if kind == refzk.GSPFS {
			ci = 1
		}
		p.I[ci] = refzk.Hash(refzk.ChallengeElems(s, p)...)
		if kind == refzk.Disj && r.p(1, 2) {
			p.I[1] = refzk.SubM(p.I[0], p.I[2])
		}
	}
	return s, p
}

func attackName(kind, attack string, dup int) string {
	if omitOf(attack) >= 0 {
		return fmt.Sprintf("%s/%s/dup%d", kind, attack, dup)
	}
	return kind + "/" + attack
}

var rangeAttacks = []string{"omit-first", "omit-last", "omit-any", "agg", "comm", "skipsum", "extrasum", "sign", "wrongE", "near", "weight",
	"over64", "drop", "repeat", "badS", "swap", "empty", "outside", "negative", "offcurve"}

// forgeRange returns a commitment statement and a range proof that does not show it.
func forgeRange(r *R, attack string) (refzk.Stmt, *refzk.Proof, string) {
	if attack == "offcurve" {
		s, p := forgeRangeOff(r)
		return s, p, attack
	}
	n := 2 + r.n(7)
	if attack == "over64" {
		n = 65 + r.n(3)
	}
	if r.p(1, 12) {
		n = 40
	}
	bits := make([]int, n)
	for i := range bits {
		bits[i] = r.n(2)
	}
	bits[r.n(n)] = 1
	bad := map[int]refzk.Point{}
	omit := map[int]bool{}
	weight := refzk.RangeWeight
	far := func() refzk.Point { // commits to something far outside the range
		if r.sp > 0 && r.p(1, 2) {
			return fpt(r)
		}
		return refzk.Commit(r.nz(), r.nz())
	}
	switch attack {
	case "omit-first":
		bad[0], omit[0] = far(), true
	case "omit-last":
		bad[n-1], omit[n-1] = far(), true
	case "omit-any":
		i := r.n(n)
		bad[i], omit[i] = far(), true
	case "badS":
		bad[r.n(n)] = far()
	case "weight": // bits weigh more than their position allows
		k := 1 + r.n(70)
		weight = func(i int) refzk.Point { return refzk.RangeWeight(i + k) }
	case "outside": // last bit weighs 2^64 and more
		k := 64 + r.n(100)
		weight = func(i int) refzk.Point {
			if i == n-1 {
				return refzk.RangeWeight(k)
			}
			return refzk.RangeWeight(i)
		}
		bits[n-1] = 1
	case "negative":
		weight = func(i int) refzk.Point {
			if i == n-1 {
				return refzk.RangeWeight(i).Neg()
			}
			return refzk.RangeWeight(i)
		}
		bits[n-1] = 1
	}
	p, sum, _ := refzk.ProveRangeW(n, bits, r.nz, bad, omit, weight)
	s := refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{sum}}
	point := func(i int) refzk.Point { q, _ := p.P[i].Point(); return q }
	at := []int{1, n, 1 + r.n(n)}[r.n(3)]
	switch attack {
	case "agg":
		p.P[0] = xy([]refzk.Point{far(), sum.Mul(r.twist()), refzk.Ident, sum.Add(refzk.G)}[r.n(4)])
	case "comm":
		s.P[0] = []refzk.Point{far(), sum.Mul(r.twist()), refzk.Ident, sum.Add(refzk.G), sum.Add(refzk.H)}[r.n(5)]
		if r.p(1, 2) {
			p.P[0] = xy(s.P[0])
		}
	case "skipsum":
		s.P[0] = sum.Sub(point(at))
		p.P[0] = xy(s.P[0])
	case "extrasum":
		s.P[0] = sum.Add(point(at))
		p.P[0] = xy(s.P[0])
	case "sign":
		s.P[0] = sum.Mul(r.twist())
		if r.p(1, 2) {
			p.P[0] = xy(s.P[0])
		}
	case "wrongE":
		p.I[0] = r.nz()
	case "near":
		p.I[0] = nearOf(r, p.I[0])
	case "drop":
		p.P, p.I = append(p.P[:at:at], p.P[at+1:]...), append(p.I[:at:at], p.I[at+1:]...)
		if r.p(1, 2) {
			q := refzk.Ident
			for i := 1; i < len(p.P); i++ {
				q = q.Add(point(i))
			}
			s.P[0] = q
			p.P[0] = xy(q)
		}
	case "repeat":
		p.P, p.I = append(p.P, p.P[at]), append(p.I, p.I[at])
		s.P[0] = sum.Add(point(at))
		p.P[0] = xy(s.P[0])
	case "swap":
		k := 1 + r.n(n)
		p.P[at], p.P[k] = p.P[k], p.P[at]
		p.I[at], p.I[k] = p.I[k], p.I[at]
	case "empty":
		p.P, p.I = p.P[:1], p.I[:1]
		if r.p(1, 2) {
			p.I[0] = refzk.Hash()
		}
	}
	return s, p, attack
}
