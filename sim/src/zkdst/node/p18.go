package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C18: results have no memory. Families of related calls are made in a history chosen by the seed, by several clients,
// with repetitions, and their arguments and results are overwritten afterwards. Then the process is "restarted": a
// second process makes the same calls in another history. Every call must give one and the same result throughout.

func init() {
	scenarios["C18"] = &scenario{gen: gen18, pre: pre18, op: op18, end: end18}
}

type call18 struct {
	key string
	f   func() string
}

type state18 struct {
	seen []map[string]string // one per client
}

var families18 = []string{"points", "points", "commit", "proof", "proof", "proof", "sign", "sign", "keys", "keys", "ecies", "ecies", "wire", "challenge", "prover", "range"}

func gen18(r *R, tier string, p *Plan) {
	clients := 1 + r.n(3)
	n := 4 + r.n(8)
	fam := families18
	if r.p(1, 3) {
		a := r.pick(families18)
		fam = []string{a, a, r.pick(families18)}
	}
	ranges := 0
	for i := 0; i < n; i++ {
		o := Op{T: r.pick(fam), C: r.n(clients), Seed: r.u64(), K: proofKinds[r.n(len(proofKinds))]}
		if o.T == "range" {
			if ranges++; ranges > 2 {
				o.T = "proof"
			}
		}
		p.Ops = append(p.Ops, o)
		if r.p(1, 4) { // the same family once more, later, perhaps by another client
			o.C = r.n(clients)
			p.Ops = append(p.Ops, o)
		}
	}
	for i := len(p.Ops) - 1; i > 0; i-- {
		j := r.n(i + 1)
		p.Ops[i], p.Ops[j] = p.Ops[j], p.Ops[i]
	}
}

func pre18(run *Run) {
	s := &state18{}
	for range run.clients {
		s.seen = append(s.seen, map[string]string{})
	}
	run.state = s
}

func again18() bool { return len(os.Args) > 1 && os.Args[1] == "again" }

func op18(c *Ctx) {
	s, _ := c.run.state.(*state18)
	if s == nil {
		return
	}
	o := c.Op
	cs := family18(&c.rng, o)
	h := R{s: simrt.Mix(o.Seed, uint64(c.op))}
	if again18() {
		h.s = simrt.Mix(h.s, 77)
	}
	n := len(cs)
	for i := n - 1; i > 0; i-- {
		j := h.n(i + 1)
		cs[i], cs[j] = cs[j], cs[i]
	}
	for i := 0; i < n; i++ {
		if h.p(1, 3) { // repeated later on
			cs = append(cs, cs[i])
		}
	}
	m := s.seen[o.C]
	for _, x := range cs {
		var got string
		keep18 = h.p(1, 3)
		if c.run.plan.Extra["alias"] != 0 {
			aliasing = h.p(1, 2)
		}
		if pn := guard(func() { got = x.f() }); pn != nil {
			got = "panic"
		}
		simrt.Drain()
		if was, ok := m[x.key]; ok {
			c.fault("call repeated later in the history")
			if was != got {
				c.viol("result depends on history", "%s: %s, earlier %s", short18(x.key), short18(got), short18(was))
			}
			continue
		}
		m[x.key] = got
		c.kase("%s", x.key)
	}
	check18(c.viol)
}

// values kept instead of overwritten must still be the same at the end

var (
	keep18 bool
	kept18 []kept
)

type kept struct {
	x    *big.Int
	b    []byte
	f    func() string
	want string
}

func (k *kept) get() string {
	switch {
	case k.x != nil:
		return fmt.Sprintf("%x", k.x)
	case k.f != nil:
		return k.f()
	}
	return fmt.Sprintf("%x", k.b)
}

func keep(k kept) {
	k.want = k.get()
	kept18 = append(kept18, k)
}

func check18(viol func(what, f string, a ...interface{})) {
	for i := range kept18 {
		k := &kept18[i]
		if g := k.get(); g != k.want {
			viol("value changed after it was handed out", "was %s, now %s", short18(k.want), short18(g))
			k.want = g
		}
	}
}

func short18(s string) string {
	if len(s) > 220 {
		return s[:220] + "..."
	}
	return s
}

func end18(run *Run, rec *Rec) {
	s, _ := run.state.(*state18)
	if s == nil {
		return
	}
	check18(rec.viol)
	rec.probes["values kept to the end of the history"] += len(kept18)
	all := map[string]string{}
	for _, m := range s.seen {
		for k, v := range m {
			if w, ok := all[k]; ok && w != v {
				rec.viol("result depends on history", "%s: %s for one client, %s for another", short18(k), short18(v), short18(w))
			}
			all[k] = v
		}
	}
	if again18() {
		b, _ := json.Marshal(all)
		fmt.Printf("\nAGAIN %s\n", b)
		return
	}
	// the restarted process
	p := *run.plan
	p.Decs = nil
	p.Policy.Explicit = false
	p.Policy.Seed ^= 0x5bd1e995
	p.Ops = append([]Op(nil), p.Ops...)
	for i, j := 0, len(p.Ops)-1; i < j; i, j = i+1, j-1 {
		p.Ops[i], p.Ops[j] = p.Ops[j], p.Ops[i]
	}
	b, _ := json.Marshal(&p)
	cmd := exec.Command(os.Args[0], "again", "-")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.Output()
	i := bytes.LastIndex(out, []byte("\nAGAIN "))
	if err != nil || i < 0 {
		rec.probe("second process gave no answer")
		return
	}
	line := out[i+7:]
	if j := bytes.IndexByte(line, '\n'); j >= 0 {
		line = line[:j]
	}
	other := map[string]string{}
	if json.Unmarshal(line, &other) != nil {
		rec.probe("second process gave no answer")
		return
	}
	rec.fault("process restarted, calls in another order")
	keys := map[string]int{}
	for k := range all {
		keys[k] = 1
	}
	for _, k := range sortedKeys(keys) {
		w, ok := other[k]
		if !ok {
			rec.probe("call missing in the second process")
			continue
		}
		rec.probes["calls compared across a restart"]++
		if w != all[k] {
			rec.viol("result depends on history", "%s: %s, after a restart and in another order %s", short18(k), short18(all[k]), short18(w))
		}
	}
}

// ---- fingerprints; whatever was handed out is overwritten afterwards ----

func spoil(xs ...*big.Int) {
	for _, x := range xs {
		if x == nil {
			continue
		}
		if keep18 {
			keep(kept{x: x})
			continue
		}
		w := x.Bits()
		w = w[:cap(w)]
		for i := range w {
			w[i] = 0xdeadbeefdeadbeef
		}
		x.SetUint64(0xdeadbeef)
	}
}

func fpPoint(p zk.ECPoint, used ...*big.Int) string {
	s := fmt.Sprintf("%x,%x", p.X, p.Y)
	spoil(p.X, p.Y)
	spoil(used...)
	return s
}

func fpXY(x, y *big.Int, used ...*big.Int) string { return fpPoint(zk.ECPoint{X: x, Y: y}, used...) }

func fpErr(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func spoilBytes(bs ...[]byte) {
	for _, b := range bs {
		if keep18 {
			keep(kept{b: b})
			continue
		}
		for i := range b {
			b[i] ^= 0xa5
		}
	}
}

func cpb(b []byte) []byte { return append([]byte(nil), b...) }

func spoilPub(k *btcec.PublicKey) {
	if k != nil {
		spoil(k.X, k.Y)
	}
}

// ---- families of related calls ----

func family18(r *R, o *Op) (cs []call18) {
	add := func(f func() string, key string, a ...interface{}) {
		cs = append(cs, call18{o.T + "/" + fmt.Sprintf(key, a...), f})
	}
	xy := func(p refzk.Point) string { return fmt.Sprintf("(%x,%x)", p.X(), p.Y()) }
	// related scalars: equal in part, in size or modulo the order
	scalars := func() []*big.Int {
		k := edgeNZ(r)
		return []*big.Int{k, refzk.NegM(k), new(big.Int).Neg(k), new(big.Int).Add(k, refzk.N), new(big.Int).Xor(k, new(big.Int).Lsh(big.NewInt(1), uint(64+r.n(180)))),
			new(big.Int).Xor(k, big.NewInt(1)), new(big.Int).And(k, new(big.Int).SetUint64(1<<64-1)), new(big.Int)}
	}
	points := func() []refzk.Point {
		p := liftPoint(r)
		if r.p(1, 3) {
			p = refzk.G.Mul(edgeNZ(r))
		}
		return []refzk.Point{p, p.Neg(), p.Mul(lambda), p.Add(p), p.Add(refzk.G), refzk.G, refzk.H, refzk.G.Neg(), refzk.H.Neg(), refzk.Ident}
	}
	switch o.T {
	case "points":
		ps, ks := points(), scalars()
		for i := 0; i < 20; i++ {
			p, q, k := ps[r.n(len(ps))], ps[r.n(len(ps))], ks[r.n(len(ks))]
			if r.p(1, 2) {
				p = ps[r.n(3)]
			}
			switch r.n(9) {
			case 0:
				add(func() string { E, _ := shared(); a, b := E(p), E(q); return fpPoint(cv.Add(a, b), a.X, a.Y, b.X, b.Y) }, "Add %s %s", xy(p), xy(q))
			case 1:
				add(func() string { E, _ := shared(); a, b := E(p), E(q); return fpPoint(cv.Sub(a, b), a.X, a.Y, b.X, b.Y) }, "Sub %s %s", xy(p), xy(q))
			case 2:
				add(func() string { a := E(p); return fpPoint(cv.Neg(a), a.X, a.Y) }, "Neg %s", xy(p))
			case 3, 4, 5:
				add(func() string { a, s := E(p), cp(k); return fpPoint(cv.Mult(a, s), a.X, a.Y, s) }, "Mult %s %x", xy(p), k)
			case 6:
				add(func() string { a, s := E(p), cp(k); return fpPoint(zk.CommitR(cv, a, s), a.X, a.Y, s) }, "CommitR %s %x", xy(p), k)
			case 7:
				t := p.Mul(refzk.Mod(k))
				if r.p(1, 2) {
					t = t.Neg()
				}
				add(func() string {
					E, cp := shared()
					a, b, s := E(p), E(t), cp(k)
					v := zk.VerifyR(cv, b, a, s)
					spoil(a.X, a.Y, b.X, b.Y, s)
					return fmt.Sprint(v)
				}, "VerifyR %s %s %x", xy(t), xy(p), k)
			case 8:
				if p.Inf {
					continue
				}
				kb := refzk.Mod(k).Bytes()
				switch r.n(6) {
				case 4:
					add(func() string {
						b := cpb(kb)
						x, y := btcec.NAF(b)
						s := fmt.Sprintf("%x,%x", x, y)
						spoilBytes(b, x, y)
						return s
					}, "NAF %x", kb)
				case 5:
					z := p.Y()
					if r.p(1, 2) {
						z = q.Y()
					}
					add(func() string {
						x, y := cp(p.X()), cp(z)
						s := fmt.Sprint(cv.C.IsOnCurve(x, y))
						spoil(x, y)
						return s
					}, "IsOnCurve %x %x", p.X(), z)
				case 0:
					add(func() string {
						a, b := E(p), cpb(kb)
						x, y := cv.C.ScalarMult(a.X, a.Y, b)
						spoilBytes(b)
						return fpXY(x, y, a.X, a.Y)
					}, "ScalarMult %s %x", xy(p), kb)
				case 1:
					add(func() string { a := E(p); x, y := cv.C.Double(a.X, a.Y); return fpXY(x, y, a.X, a.Y) }, "Double %s", xy(p))
				case 2:
					add(func() string { b := cpb(kb); x, y := cv.C.ScalarBaseMult(b); spoilBytes(b); return fpXY(x, y) }, "ScalarBaseMult %x", kb)
				case 3:
					add(func() string {
						b := cpb(kb)
						x, y := cv.C.(*btcec.KoblitzCurve).ScalarBaseMultH(b)
						spoilBytes(b)
						return fpXY(x, y)
					}, "ScalarBaseMultH %x", kb)
				}
			}
		}
	case "commit":
		vs, rs := scalars(), scalars()
		for i := 0; i < 10; i++ {
			v, b := vs[r.n(len(vs))], rs[r.n(len(rs))]
			v0, b0 := v, b
			add(func() string { _, cp := shared(); x, y := cp(v0), cp(b0); return fpPoint(zk.PedCommitR(cv, x, y), x, y) }, "PedCommitR %x %x", v0, b0)
			c := refzk.Commit(refzk.Mod(v), refzk.Mod(b))
			switch r.n(4) {
			case 0:
				c = c.Neg()
			case 1:
				v = vs[r.n(len(vs))]
			case 2:
				b = rs[r.n(len(rs))]
			}
			add(func() string {
				E, cp := shared()
				x, y, e := cp(v), cp(b), E(c)
				k := zk.Open(cv, x, y, e)
				spoil(x, y, e.X, e.Y)
				return fmt.Sprint(k)
			}, "Open %x %x %s", v, b, xy(c))
		}
	case "proof":
		s, w := honest(r, o.K)
		s2, w2 := honest(r, o.K)
		stmts := []refzk.Stmt{s, s2}
		proofs := []*refzk.Proof{refProve(r, s, w), refProve(r, s, w), refProve(r, s2, w2)}
		for i := range s.P { // the same statement but for one point
			t := refzk.Stmt{Kind: s.Kind, P: append([]refzk.Point(nil), s.P...)}
			switch r.n(3) {
			case 0:
				t.P[i] = t.P[i].Neg()
			case 1:
				t.P[i] = s2.P[i]
			case 2:
				t.P[i], t.P[0] = t.P[0], t.P[i]
			}
			stmts = append(stmts, t)
		}
		for i := 0; i < 6; i++ { // the same proof but for one value
			q := proofs[r.n(2)].Clone()
			all := q.I
			pts := q.P
			if q.Sub != nil {
				all = append(append([]*big.Int(nil), all...), q.Sub.I...)
				if r.p(1, 2) {
					pts = q.Sub.P
				}
			}
			switch r.n(5) {
			case 0:
				k := r.n(len(pts))
				if p, ok := pts[k].Point(); ok {
					pts[k] = p.Neg().XY()
				}
			case 1:
				x := all[r.n(len(all))]
				x.Set(refzk.NegM(x))
			case 2:
				x := all[r.n(len(all))]
				x.Add(x, refzk.N)
			case 3:
				for j, x := range proofs[2].I { // the other proof's responses
					q.I[j] = cp(x)
				}
			default:
				x := all[r.n(len(all))]
				x.Set(refzk.AddM(x, big.NewInt(1)))
			}
			proofs = append(proofs, q)
		}
		for i := 0; i < 14; i++ {
			p := proofs[r.n(len(proofs))]
			t := stmts[r.n(len(stmts))]
			if r.p(2, 3) {
				t = s
			}
			b := p.Encode()
			st := ""
			for _, q := range t.P {
				st += xy(q)
			}
			add(func() string {
				in := cpb(b)
				x, err := libDecode(o.K, in)
				if err != nil {
					return "undecodable"
				}
				spoilBytes(in)
				ok, e := verify(t, x)
				if keep18 {
					keep(kept{f: func() string { return fmt.Sprintf("%x", libBytes(x)) }})
				}
				b1 := libBytes(x)
				out := fmt.Sprintf("%v %s %x", ok, fpErr(e), b1)
				spoilBytes(b1)
				return fmt.Sprintf("%s %x", out, libBytes(x))
			}, "Verify %s %s %x", o.K, st, b)
		}
	case "range":
		n := 2 + r.n(5)
		v := big.NewInt(int64(r.n(1 << uint(n))))
		var proofs []*refzk.Proof
		var comms []refzk.Point
		for i := 0; i < 2; i++ {
			p, sum, _ := refzk.ProveRange(n, rangeBits(v, n), r.nz, nil, nil)
			proofs = append(proofs, p)
			comms = append(comms, sum, sum.Neg())
		}
		q := proofs[0].Clone()
		q.I[r.n(len(q.I))].Add(q.I[0], big.NewInt(1))
		proofs = append(proofs, q)
		q = proofs[0].Clone()
		if p, ok := q.P[r.n(len(q.P))].Point(); ok {
			q.P[r.n(len(q.P))] = p.Neg().XY()
		}
		proofs = append(proofs, q)
		for i := 0; i < 8; i++ {
			p, cm := proofs[r.n(len(proofs))], comms[r.n(len(comms))]
			b := p.Encode()
			add(func() string {
				in := cpb(b)
				x, err := zk.NewRangeProofFromBytes(in)
				if err != nil {
					return "undecodable"
				}
				spoilBytes(in)
				ok, e := x.Verify(cv, E(cm))
				return fmt.Sprintf("%v %s", ok, fpErr(e))
			}, "Verify range %s %x", xy(cm), b)
		}
	case "sign":
		d := edgeNZ(r)
		ds := []*big.Int{d, refzk.NegM(d), refzk.AddM(d, big.NewInt(1)), r.nz()}
		if ds[2].Sign() == 0 {
			ds[2] = r.nz()
		}
		h := r.bytes(32)
		h2, h3 := cpb(h), append(cpb(h), r.bytes(8)...)
		h2[31] ^= 1
		hs := [][]byte{h, h2, h3, h[:20], append(make([]byte, 12), h[:20]...)}
		for i := 0; i < 14; i++ {
			k, m := ds[r.n(len(ds))], hs[r.n(len(hs))]
			q := refzk.G.Mul(k)
			sr, ss := refzk.Sign6979(k, m)
			key := func() (*btcec.PrivateKey, *btcec.PublicKey) {
				b := k.FillBytes(make([]byte, 32))
				a, p := btcec.PrivKeyFromBytes(btcec.S256(), b)
				spoilBytes(b)
				return a, p
			}
			switch r.n(4) {
			case 0:
				add(func() string {
					a, _ := key()
					in := cpb(m)
					s, err := a.Sign(in)
					spoilBytes(in)
					if err != nil {
						return "error"
					}
					b := s.Serialize()
					out := fmt.Sprintf("%x %x %x", s.R, s.S, b)
					spoilBytes(b)
					spoil(s.R, s.S, a.D, a.X, a.Y)
					return out
				}, "Sign %x %x", k, m)
			case 1:
				comp := r.p(1, 2)
				add(func() string {
					a, _ := key()
					in := cpb(m)
					b, err := btcec.SignCompact(btcec.S256(), a, in, comp)
					spoilBytes(in)
					out := fmt.Sprintf("%x %s", b, fpErr(err))
					spoilBytes(b)
					spoil(a.D, a.X, a.Y)
					return out
				}, "SignCompact %x %x %v", k, m, comp)
			case 2:
				switch r.n(4) {
				case 0:
					m = hs[r.n(len(hs))]
				case 1:
					q = refzk.G.Mul(ds[r.n(len(ds))])
				case 2:
					ss = refzk.NegM(ss)
				}
				add(func() string {
					s := &btcec.Signature{R: cp(sr), S: cp(ss)}
					p := &btcec.PublicKey{Curve: btcec.S256(), X: q.X(), Y: q.Y()}
					in := cpb(m)
					v := s.Verify(in, p)
					spoil(s.R, s.S, p.X, p.Y)
					spoilBytes(in)
					return fmt.Sprint(v)
				}, "Verify %x %x %s %x", sr, ss, xy(q), m)
			case 3:
				b := append([]byte{27 + byte(r.n(8))}, append(sr.FillBytes(make([]byte, 32)), ss.FillBytes(make([]byte, 32))...)...)
				add(func() string {
					in, hh := cpb(b), cpb(m)
					p, comp, err := btcec.RecoverCompact(btcec.S256(), in, hh)
					spoilBytes(in, hh)
					if err != nil {
						return "error"
					}
					return fpXY(p.X, p.Y) + fmt.Sprint(comp)
				}, "RecoverCompact %x %x", b, m)
			}
		}
	case "keys":
		q := liftPoint(r)
		x, y, ny := q.X().FillBytes(make([]byte, 32)), q.Y().FillBytes(make([]byte, 32)), q.Neg().Y().FillBytes(make([]byte, 32))
		bad := cpb(x)
		bad[31] ^= byte(1 + r.n(255))
		var in [][]byte
		for _, f := range []byte{2, 3} {
			in = append(in, append([]byte{f}, x...), append([]byte{f}, bad...))
		}
		for _, f := range []byte{4, 6, 7} {
			in = append(in, append(append([]byte{f}, x...), y...), append(append([]byte{f}, x...), ny...), append(append([]byte{f}, bad...), y...))
		}
		for _, b := range in {
			b := b
			add(func() string {
				i := cpb(b)
				k, err := btcec.ParsePubKey(i, btcec.S256())
				spoilBytes(i)
				if err != nil {
					return "error"
				}
				s := fmt.Sprintf("%x %x %x", k.SerializeCompressed(), k.SerializeUncompressed(), k.SerializeHybrid())
				spoilPub(k)
				return s
			}, "ParsePubKey %x", b)
		}
		sr, ss := refzk.Sign6979(r.nz(), r.bytes(32))
		for _, s := range []*big.Int{ss, refzk.NegM(ss)} {
			b := derSig(sr, s)
			for _, b := range [][]byte{b, append(cpb(b), 0), append(append([]byte{0x30, b[1] + 1, 2, b[3] + 1, 0}, b[4:]...)), b[:len(b)-1]} {
				b := b
				for _, der := range []bool{false, true} {
					der := der
					add(func() string {
						in := cpb(b)
						f := btcec.ParseSignature
						if der {
							f = btcec.ParseDERSignature
						}
						s, err := f(in, btcec.S256())
						spoilBytes(in)
						if err != nil {
							return "error"
						}
						out := fmt.Sprintf("%x %x", s.R, s.S)
						o := s.Serialize()
						out += fmt.Sprintf(" %x", o)
						spoilBytes(o)
						out += fmt.Sprintf(" %x %x %x", s.Serialize(), s.R, s.S)
						spoil(s.R, s.S)
						return out
					}, "ParseSignature %v %x", der, b)
				}
			}
		}
	case "ecies":
		d := edgeNZ(r)
		ds := []*big.Int{d, refzk.NegM(d), refzk.AddM(d, big.NewInt(2)), r.nz()}
		if ds[2].Sign() == 0 {
			ds[2] = r.nz()
		}
		q := refzk.G.Mul(d)
		qs := []refzk.Point{q, q.Neg(), q.Mul(lambda), refzk.G.Mul(ds[3]), liftPoint(r)}
		for i := 0; i < 6; i++ {
			k, p := ds[r.n(len(ds))], qs[r.n(len(qs))]
			add(func() string {
				a, _ := btcec.PrivKeyFromBytes(btcec.S256(), k.Bytes())
				b := &btcec.PublicKey{Curve: btcec.S256(), X: p.X(), Y: p.Y()}
				s := btcec.GenerateSharedSecret(a, b)
				out := fmt.Sprintf("%x", s)
				spoilBytes(s)
				spoil(a.D, a.X, a.Y, b.X, b.Y)
				return out
			}, "GenerateSharedSecret %x %s", k, xy(p))
		}
		eph := r.nz()
		var cts [][]byte
		for i := 0; i < 3; i++ {
			m := r.bytes(r.n(40))
			n := 16 - len(m)%16
			if i == 2 {
				eph = r.nz()
			}
			ct, ok := refEncrypt(q, eph, r.bytes(16), append(m, bytes.Repeat([]byte{byte(n)}, n)...), 0)
			if !ok {
				continue
			}
			bad := cpb(ct)
			bad[r.n(len(bad))] ^= byte(1 + r.n(255))
			cts = append(cts, ct, bad)
		}
		for _, ct := range cts {
			for i := 0; i < 2; i++ {
				ct, k := ct, ds[0]
				if i == 1 {
					k = ds[1+r.n(3)]
				}
				add(func() string {
					a, _ := btcec.PrivKeyFromBytes(btcec.S256(), k.Bytes())
					in := cpb(ct)
					m, err := btcec.Decrypt(a, in)
					out := fmt.Sprintf("%x %s", m, fpErr(err))
					spoilBytes(in, m)
					spoil(a.D, a.X, a.Y)
					return out
				}, "Decrypt %x %x", k, ct)
			}
		}
	case "wire":
		for i := 0; i < 8; i++ {
			v := genVal(r)
			if len(v.b) > 2000 {
				v.b = v.b[:2000]
			}
			e := v.enc()
			add(func() string {
				w := &simWriter{failAt: -1, rng: R{s: o.Seed}}
				err := v.write(w)
				out := fmt.Sprintf("%x %s", w.got, fpErr(err))
				return out
			}, "write %s %x", v.kind, e)
			cut := len(e)
			if r.p(1, 3) {
				cut = r.n(len(e))
			}
			max := uint32(len(v.b))
			if r.p(1, 4) {
				max = uint32(r.n(40))
			}
			add(func() string {
				rd := &simReader{b: e[:cut], limit: -1, rng: R{s: o.Seed}}
				same, got, err := v.read(rd, max)
				if err != nil {
					return "error"
				}
				return fmt.Sprint(same, got)
			}, "read %s %d %x", v.kind, max, e[:cut])
		}
		u := r.u64() >> uint(r.n(64))
		add(func() string { return fmt.Sprint(wire.VarIntSerializeSize(u)) }, "VarIntSerializeSize %d", u)
	case "challenge":
		b := r.bytes(40)
		for i := 0; i < 8; i++ {
			k, n := r.n(len(b)), 1+r.n(len(b))
			if k > n {
				k, n = n, k
			}
			add(func() string {
				x, y := cpb(b[:k]), cpb(b[k:n])
				c := zk.GenerateChallenge(cv, x, y)
				spoilBytes(x, y)
				out := fmt.Sprintf("%x", c)
				spoil(c)
				return out
			}, "GenerateChallenge %x %d %d", b, k, n)
			x := r.pick([]string{"X", "Y"})
			p := liftPoint(r)
			q := p
			if x == "Y" {
				q = p.Neg()
			}
			add(func() string { return fmt.Sprintf("%v %x", E(p).Equal(E(q)), E(q).Bytes()) }, "Equal %s %s", xy(p), xy(q))
		}
	case "prover": // with a witness and without; the entropy is the same each time
		s, w := honest(r, o.K)
		seed := r.u64()
		for i := 0; i < 4; i++ {
			t := *w
			if i > 0 {
				for _, x := range []**big.Int{&t.X, &t.V, &t.R, &t.A} {
					if *x != nil && r.p(1, 2) {
						*x = new(big.Int).Add(*x, big.NewInt(int64(1+r.n(2))))
					}
				}
				if r.p(1, 3) {
					t.Side = 1 - t.Side
				}
			}
			add(func() string {
				var x interface{}
				var err error
				with(&Ent{Seed: seed, FailAt: -1}, func() { x, err = prove(s, &t) })
				if err != nil {
					return "error"
				}
				ok, e := verify(s, x)
				return fmt.Sprint(ok, " ", fpErr(e))
			}, "prove %s %x %d", o.K, o.Seed, i)
		}
	}
	return
}
