package refzk

import (
	"crypto/sha256"
	"math/big"
)

// H is the second generator; the harness sets it from the library's parameters.
var H Point

func Init(hx, hy *big.Int) {
	h, ok := FromXY(hx, hy)
	if !ok {
		panic("refzk: H is not on the curve")
	}
	H = h
	UseFixed(G)
	UseFixed(H)
}

// InitG is Init for programs that use only the first generator.
func InitG() { UseFixed(G) }

func Mod(a *big.Int) *big.Int     { return new(big.Int).Mod(a, N) }
func AddM(a, b *big.Int) *big.Int { t := new(big.Int).Add(a, b); return t.Mod(t, N) }
func SubM(a, b *big.Int) *big.Int { t := new(big.Int).Sub(a, b); return t.Mod(t, N) }
func MulM(a, b *big.Int) *big.Int { t := new(big.Int).Mul(a, b); return t.Mod(t, N) }
func NegM(a *big.Int) *big.Int    { t := new(big.Int).Neg(a); return t.Mod(t, N) }
func InvM(a *big.Int) *big.Int    { return new(big.Int).ModInverse(Mod(a), N) }
func Commit(v, r *big.Int) Point  { return Lin(v, G, r, H) }

// Hash is the challenge: SHA-256 over the minimal big-endian coordinates, reduced.
func Hash(ps ...XY) *big.Int {
	h := sha256.New()
	for _, p := range ps {
		h.Write(p.X.Bytes())
		h.Write(p.Y.Bytes())
	}
	return Mod(new(big.Int).SetBytes(h.Sum(nil)))
}

// Stmt is a public statement: gspfs [Base A], equiv/disj [B1 R1 B2 R2], consist [CM Tok PK], abc/ineq [CM Tok], range [Comm].
type Stmt struct {
	Kind string
	P    []Point
}

// ChallengeElems lists the points hashed into the challenge, in order.
func ChallengeElems(s Stmt, p *Proof) []XY {
	x := func(i int) XY { return s.P[i].XY() }
	switch s.Kind {
	case GSPFS:
		return []XY{x(0), x(1), p.P[1]}
	case Equiv, Disj:
		return []XY{x(0), x(1), x(2), x(3), p.P[0], p.P[1]}
	case Cons:
		return []XY{G.XY(), H.XY(), x(0), x(1), x(2), p.P[0], p.P[1]}
	case ABC, Ineq:
		return []XY{G.XY(), H.XY(), x(0), x(1), p.P[0], p.P[1], p.P[2], p.P[3]}
	}
	panic("no challenge for " + s.Kind)
}

func eqM(a, b *big.Int) bool { return Mod(a).Cmp(Mod(b)) == 0 }

// RangeWeights returns 2^i G.
func RangeWeight(i int) Point { return G.Mul(new(big.Int).Lsh(big.NewInt(1), uint(i))) }

// Verify is the reference verifier: exact protocol equations over group elements.
func Verify(s Stmt, p *Proof) bool {
	for _, q := range s.P {
		if !q.OnCurve() {
			return false
		}
	}
	pts := make([]Point, len(p.P))
	for i, xy := range p.P {
		q, ok := xy.Point()
		if !ok {
			return false
		}
		pts[i] = q
	}
	switch s.Kind {
	case GSPFS:
		c := Hash(ChallengeElems(s, p)...)
		return eqM(c, p.I[1]) && pts[0].Eq(s.P[0]) && Lin(p.I[0], s.P[0], c, s.P[1]).Eq(pts[1])
	case Equiv:
		c := Hash(ChallengeElems(s, p)...)
		return eqM(c, p.I[0]) &&
			s.P[0].Mul(p.I[1]).Eq(pts[0].Add(s.P[1].Mul(c))) &&
			s.P[2].Mul(p.I[1]).Eq(pts[1].Add(s.P[3].Mul(c)))
	case Disj:
		c := Hash(ChallengeElems(s, p)...)
		return eqM(c, p.I[0]) && eqM(AddM(p.I[1], p.I[2]), c) &&
			s.P[0].Mul(p.I[3]).Eq(pts[0].Add(s.P[1].Mul(p.I[1]))) &&
			s.P[2].Mul(p.I[4]).Eq(pts[1].Add(s.P[3].Mul(p.I[2])))
	case Cons:
		c := Hash(ChallengeElems(s, p)...)
		return eqM(c, p.I[0]) && Commit(p.I[1], p.I[2]).Eq(pts[0].Add(s.P[0].Mul(c))) &&
			s.P[2].Mul(p.I[2]).Eq(pts[1].Add(s.P[1].Mul(c)))
	case ABC, Ineq:
		c := Hash(ChallengeElems(s, p)...)
		if !eqM(c, p.I[0]) {
			return false
		}
		if s.Kind == Ineq && !pts[1].Eq(G) {
			return false // only c = 1 shows that the value has an inverse
		}
		if !Lin(p.I[1], G, p.I[2], s.P[1]).Eq(pts[2].Add(s.P[0].Mul(c))) {
			return false
		}
		if !Lin(p.I[1], pts[0], p.I[3], H).Eq(pts[3].Add(pts[1].Mul(c))) {
			return false
		}
		return Verify(Stmt{Disj, []Point{s.P[0], s.P[1], H, pts[1].Sub(G)}}, p.Sub)
	case Range:
		n := len(pts) - 1
		if n > 64 {
			return false
		}
		sum := Ident
		var rs []XY
		for i := 0; i < n; i++ {
			c := pts[1+i]
			tot := H.Mul(p.I[1+i]).Sub(c.Sub(RangeWeight(i)).Mul(p.I[0]))
			e := Hash(tot.XY())
			rs = append(rs, c.Mul(e).XY())
			sum = sum.Add(c)
		}
		return eqM(Hash(rs...), p.I[0]) && sum.Eq(pts[0]) && sum.Eq(s.P[0])
	}
	return false
}

// ---- reference provers (explicit nonces) ----

func ProveGSPFS(base, a Point, x, u *big.Int) *Proof {
	t := base.Mul(u)
	c := Hash(base.XY(), a.XY(), t.XY())
	return &Proof{Kind: GSPFS, P: []XY{base.XY(), t.XY()}, I: []*big.Int{SubM(u, MulM(c, x)), c}}
}

func ProveEquiv(s Stmt, x, u *big.Int) *Proof {
	p := &Proof{Kind: Equiv, P: []XY{s.P[0].Mul(u).XY(), s.P[2].Mul(u).XY()}}
	c := Hash(ChallengeElems(s, p)...)
	p.I = []*big.Int{c, AddM(u, MulM(c, x))}
	return p
}

// ProveDisj proves side 0 or 1 with nonces u (real), s (simulated response), cs (simulated challenge).
func ProveDisj(st Stmt, side int, x, u, s, cs *big.Int) *Proof {
	k, o := 0, 1
	if side == 1 {
		k, o = 1, 0
	}
	var t [2]Point
	t[k] = st.P[2*k].Mul(u)
	t[o] = st.P[2*o].Mul(s).Sub(st.P[2*o+1].Mul(cs))
	p := &Proof{Kind: Disj, P: []XY{t[0].XY(), t[1].XY()}}
	c := Hash(ChallengeElems(st, p)...)
	cr := SubM(c, cs)
	var cc, ss [2]*big.Int
	cc[k], cc[o] = cr, Mod(cs)
	ss[k], ss[o] = AddM(u, MulM(cr, x)), Mod(s)
	p.I = []*big.Int{c, cc[0], cc[1], ss[0], ss[1]}
	return p
}

func ProveCons(s Stmt, v, r, u1, u2 *big.Int) *Proof {
	p := &Proof{Kind: Cons, P: []XY{Commit(u1, u2).XY(), s.P[2].Mul(u2).XY()}}
	c := Hash(ChallengeElems(s, p)...)
	p.I = []*big.Int{c, AddM(u1, MulM(c, v)), AddM(u2, MulM(c, r))}
	return p
}

// ABCNonces are the random choices of an ABC proof.
type ABCNonces struct{ U1, U2, U3, UB, UC, D1, D2, D3 *big.Int }

// ProveABCWith proves c = v*b for chosen b, c with C = cG+ucH, and the given disjunctive sub-proof.
func ProveABCWith(s Stmt, kind string, v, isk, b, cv *big.Int, n ABCNonces, sub func(C Point) *Proof) *Proof {
	B, C := Commit(b, n.UB), Commit(cv, n.UC)
	p := &Proof{Kind: kind, P: []XY{B.XY(), C.XY(), Lin(n.U1, G, n.U2, s.P[1]).XY(), Lin(n.U1, B, n.U3, H).XY(), H.XY()}}
	c := Hash(ChallengeElems(s, p)...)
	p.I = []*big.Int{c, AddM(n.U1, MulM(v, c)), AddM(n.U2, MulM(isk, c)), AddM(n.U3, MulM(c, SubM(n.UC, MulM(v, n.UB))))}
	p.Sub = sub(C)
	return p
}

// ProveABC is the honest prover.
func ProveABC(s Stmt, kind string, v, sk *big.Int, n ABCNonces) *Proof {
	isk := InvM(sk)
	if kind == Ineq {
		n.UC = new(big.Int)
	}
	if Mod(v).Sign() == 0 {
		return ProveABCWith(s, kind, v, isk, new(big.Int), new(big.Int), n, func(C Point) *Proof {
			return ProveDisj(Stmt{Disj, []Point{s.P[0], s.P[1], H, C.Sub(G)}}, 0, sk, n.D1, n.D2, n.D3)
		})
	}
	return ProveABCWith(s, kind, v, isk, InvM(v), big.NewInt(1), n, func(C Point) *Proof {
		return ProveDisj(Stmt{Disj, []Point{s.P[0], s.P[1], H, C.Sub(G)}}, 1, n.UC, n.D1, n.D2, n.D3)
	})
}

// ProveRange proves bits[i] in {0,1} with weight 2^i. rnd supplies scalars. bad marks entries for which an
// arbitrary (unprovable) C and s are published; omit marks entries whose R the forger leaves out of the hash.
// It returns the proof, the value committed and the total blinding.
func ProveRange(n int, bits []int, rnd func() *big.Int, bad map[int]Point, omit map[int]bool) (*Proof, Point, *big.Int) {
	return ProveRangeW(n, bits, rnd, bad, omit, RangeWeight)
}

// ProveRangeW is ProveRange with other bit weights.
func ProveRangeW(n int, bits []int, rnd func() *big.Int, bad map[int]Point, omit map[int]bool, weight func(int) Point) (*Proof, Point, *big.Int) {
	k := make([]*big.Int, n)
	v := make([]*big.Int, n)
	C := make([]Point, n)
	R := make([]Point, n)
	for i := 0; i < n; i++ {
		if _, is := bad[i]; is {
			continue
		}
		k[i] = rnd()
		if bits[i] == 0 {
			R[i] = H.Mul(k[i])
		} else {
			v[i] = rnd()
			C[i] = weight(i).Add(H.Mul(v[i]))
			e := Hash(H.Mul(k[i]).XY())
			R[i] = C[i].Mul(e)
		}
	}
	var rs []XY
	for i := 0; i < n; i++ {
		if !omit[i] {
			rs = append(rs, R[i].XY())
		}
	}
	E := Hash(rs...)
	p := &Proof{Kind: Range, P: []XY{{}}, I: []*big.Int{E}}
	sum := Ident
	total := new(big.Int)
	for i := 0; i < n; i++ {
		var s *big.Int
		if c, is := bad[i]; is {
			C[i] = c
			s = rnd()
		} else if bits[i] == 1 {
			s = AddM(k[i], MulM(E, v[i]))
		} else {
			j := rnd()
			tot := H.Mul(j).Add(weight(i).Mul(E))
			ei := InvM(Hash(tot.XY()))
			v[i] = MulM(ei, k[i])
			C[i] = H.Mul(v[i])
			s = AddM(j, MulM(v[i], E))
		}
		if v[i] != nil {
			total = AddM(total, v[i])
		}
		sum = sum.Add(C[i])
		p.P = append(p.P, C[i].XY())
		p.I = append(p.I, s)
	}
	p.P[0] = sum.XY()
	return p, sum, total
}
