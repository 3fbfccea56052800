package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"zkdst/refzk"
)

// mask is one random choice of a prover as an observer who knows the witness sees it: the scalar itself, or only the
// multiple of H (or G) it appears in. pub marks a published integer instead.
type mask struct {
	role string
	op   int
	pt   refzk.Point
	s    *big.Int
	pub  bool
}

type extr struct {
	ms   []mask
	role string
	op   int
}

func (e *extr) scalar(name string, s *big.Int) {
	s = refzk.Mod(s)
	e.ms = append(e.ms, mask{role: e.role + "." + name, op: e.op, s: s, pt: refzk.H.Mul(s)})
}
func (e *extr) point(name string, p refzk.Point) {
	e.ms = append(e.ms, mask{role: e.role + "." + name, op: e.op, pt: p})
}

// masksOf extracts every mask of an honest proof. wantErr is set when the proof is not even consistent.
func masksOf(s refzk.Stmt, w *Wit, p *refzk.Proof, op int) ([]mask, error) {
	if !refzk.Verify(s, p) {
		return nil, fmt.Errorf("proof does not satisfy the verification equations")
	}
	e := &extr{role: s.Kind, op: op}
	if s.Kind == refzk.Disj || s.Kind == refzk.ABC {
		e.role = fmt.Sprintf("%s side %d", s.Kind, w.Side)
	}
	pt := func(x refzk.XY) refzk.Point { q, _ := x.Point(); return q }
	switch s.Kind {
	case refzk.GSPFS:
		e.scalar("u", refzk.AddM(p.I[0], refzk.MulM(p.I[1], w.X)))
	case refzk.Equiv:
		e.scalar("u", refzk.SubM(p.I[1], refzk.MulM(p.I[0], w.X)))
	case refzk.Disj:
		e.disj(p, w.Side, w.X)
	case refzk.Cons:
		e.scalar("u1", refzk.SubM(p.I[1], refzk.MulM(p.I[0], w.V)))
		e.scalar("u2", refzk.SubM(p.I[2], refzk.MulM(p.I[0], w.R)))
	case refzk.ABC, refzk.Ineq:
		v := refzk.Mod(w.V)
		u1 := refzk.SubM(p.I[1], refzk.MulM(v, p.I[0]))
		e.scalar("u1", u1)
		e.scalar("u2", refzk.SubM(p.I[2], refzk.MulM(refzk.InvM(w.SK), p.I[0])))
		b, cv := new(big.Int), new(big.Int)
		if v.Sign() != 0 {
			b, cv = refzk.InvM(v), big.NewInt(1)
		}
		B, C := pt(p.P[0]), pt(p.P[1])
		e.point("ub", B.Sub(refzk.G.Mul(b)))
		if s.Kind == refzk.ABC {
			e.point("uc", C.Sub(refzk.G.Mul(cv)))
		}
		e.point("u3", pt(p.P[3]).Sub(B.Mul(u1)))
		switch {
		case v.Sign() == 0:
			e.disj(p.Sub, 0, w.SK)
		case s.Kind == refzk.Ineq:
			e.disj(p.Sub, 1, new(big.Int))
		default: // the witness of the right side is uc, of which only the point is known
			e.point("du", pt(p.Sub.P[1]))
			e.scalar("ds", p.Sub.I[3])
			e.scalar("dc", p.Sub.I[1])
		}
	case refzk.Range:
		for i := 0; i+1 < len(p.P); i++ {
			C := pt(p.P[1+i])
			E, si := p.I[0], p.I[1+i]
			bit := w.V.Bit(i)
			e.role = fmt.Sprintf("range bit %d", bit)
			if bit == 1 {
				vi := C.Sub(refzk.RangeWeight(i))
				e.point("v", vi)
				e.point("k", refzk.H.Mul(si).Sub(vi.Mul(E)))
			} else {
				jH := refzk.H.Mul(si).Sub(C.Mul(E))
				ei := refzk.Hash(jH.Add(refzk.RangeWeight(i).Mul(E)).XY())
				e.point("j", jH)
				e.point("k", C.Mul(ei))
				e.point("v", C)
			}
		}
	}
	return e.ms, nil
}

func (e *extr) disj(p *refzk.Proof, side int, x *big.Int) {
	k, o := side, 1-side
	e.scalar("du", refzk.SubM(p.I[3+k], refzk.MulM(p.I[1+k], x)))
	e.scalar("ds", p.I[3+o])
	e.scalar("dc", p.I[1+o])
}

// published lists the integers an outsider sees, by position, with the side they were made for.
func published(s refzk.Stmt, w *Wit, p *refzk.Proof, op int) []mask {
	var ms []mask
	role := s.Kind
	if s.Kind == refzk.Disj || s.Kind == refzk.ABC {
		role = fmt.Sprintf("%s side %d", s.Kind, w.Side)
	}
	for i, x := range p.I {
		r := fmt.Sprintf("%s int %d", role, i)
		if s.Kind == refzk.Range && i > 0 {
			r = fmt.Sprintf("range response, bit %d", w.V.Bit(i-1))
		}
		ms = append(ms, mask{role: r, op: op, s: x, pub: true})
	}
	if p.Sub != nil {
		for i, x := range p.Sub.I {
			ms = append(ms, mask{role: fmt.Sprintf("%s sub int %d", role, i), op: op, s: x, pub: true})
		}
	}
	return ms
}

// canonical checks that published integers lie in [0, order).
func canonical(p *refzk.Proof) string {
	for i, x := range p.I {
		if x.Sign() < 0 || x.Cmp(refzk.N) >= 0 {
			return fmt.Sprintf("integer %d is %x", i, x)
		}
	}
	if p.Sub != nil {
		if s := canonical(p.Sub); s != "" {
			return "sub-proof " + s
		}
	}
	return ""
}

// secretIn looks for a secret in published data.
func secretIn(b []byte, s *big.Int) bool {
	s = refzk.Mod(s)
	if s.BitLen() < 72 {
		return false
	}
	if bytes.Contains(b, s.Bytes()) {
		return true
	}
	le := s.Bytes()
	for i, j := 0, len(le)-1; i < j; i, j = i+1, j-1 {
		le[i], le[j] = le[j], le[i]
	}
	return bytes.Contains(b, le)
}

// history checks all masks of a run against each other.
func history(ms []mask, viol func(class, f string, a ...interface{})) (compared int) {
	seen := map[string]int{}
	key := func(p refzk.Point) string { return string(p.X().Bytes()) } // same for a mask and its negation
	var pts []mask
	groups := map[string][]*big.Int{}
	for _, m := range ms {
		if m.s != nil {
			groups[m.role] = append(groups[m.role], m.s)
		}
		if !m.pub {
			pts = append(pts, m)
		}
	}
	hG := key(refzk.H)
	for i, m := range pts {
		if m.pt.Inf {
			viol("mask is zero", "%s of operation %d", m.role, m.op)
			continue
		}
		k := key(m.pt)
		if k == hG {
			viol("mask is one", "%s of operation %d", m.role, m.op)
			continue
		}
		if j, ok := seen[k]; ok {
			viol("mask reused", "%s of operation %d and %s of operation %d", pts[j].role, pts[j].op, m.role, m.op)
		}
		seen[k] = i
		compared++
	}
	for i, m := range pts {
		if m.pt.Inf {
			continue
		}
		for _, q := range []refzk.Point{m.pt.Add(refzk.H), m.pt.Add(m.pt)} {
			if j, ok := seen[key(q)]; ok && j != i {
				viol("masks trivially related", "%s of operation %d and %s of operation %d differ by one or a factor of two", m.role, m.op, pts[j].role, pts[j].op)
			}
		}
	}
	// scalars: close to one another
	type sc struct {
		s *big.Int
		m mask
	}
	var scs []sc
	for _, m := range pts {
		if m.s != nil {
			scs = append(scs, sc{m.s, m})
		}
	}
	sort.Slice(scs, func(i, j int) bool { return scs[i].s.Cmp(scs[j].s) < 0 })
	for i := 1; i < len(scs); i++ {
		if d := new(big.Int).Sub(scs[i].s, scs[i-1].s); d.Sign() != 0 && d.BitLen() < 140 {
			viol("masks trivially related", "%s of operation %d and %s of operation %d differ by %x", scs[i-1].m.role, scs[i-1].m.op, scs[i].m.role, scs[i].m.op, d)
		}
	}
	// size and bits per role
	var roles []string
	for r := range groups {
		roles = append(roles, r)
	}
	sort.Strings(roles)
	for _, r := range roles {
		g := groups[r]
		max, minz := 0, 256
		and := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		or := new(big.Int)
		for _, s := range g {
			if s.Sign() < 0 {
				continue
			}
			if b := s.BitLen(); b > max {
				max = b
			}
			z := 256
			if s.Sign() != 0 {
				z = int(s.TrailingZeroBits())
			}
			if z < minz {
				minz = z
			}
			and.And(and, s)
			or.Or(or, s)
		}
		if (256-max)*len(g) >= 72 {
			viol("too small", "%s: the largest of %d has %d bits", r, len(g), max)
		} else if minz*len(g) >= 72 {
			viol("too small", "%s: all %d are multiples of 2^%d", r, len(g), minz)
		} else if len(g) >= 90 {
			var fixed []int
			for i := 0; i < 256; i++ {
				if and.Bit(i) == 1 || or.Bit(i) == 0 {
					fixed = append(fixed, i)
				}
			}
			if len(fixed) > 0 {
				viol("not uniform", "%s: bit(s) %v are the same in all %d", r, fixed, len(g))
			}
		}
	}
	return
}
