package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/wire"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C11: ledger sums converge and conserve in every order and across crashes.
//
// Every operation is one node. All nodes get the same set of transactions (shared memory, not copied) in their own
// order, keep them in a log on a simulated disk, crash, recover, and sum with the library's operations.

func init() {
	scenarios["C11"] = &scenario{gen: gen11, pre: pre11, op: op11, end: end11, pan: true, hang: true}
}

// pair carries the library's point next to the reference's.
type pair struct {
	l zk.ECPoint
	r refzk.Point
}

type tx11 struct {
	c, t pair
	v, b *big.Int
	neg  bool // a withdrawal: the ledger subtracts it
}

type ledger11 struct {
	txs    []*tx11
	sk     *big.Int
	pk     refzk.Point
	sums   []string
	v, b   *big.Int
	c, t   refzk.Point
	target string
}

func gen11(r *R, tier string, p *Plan) {
	nodes := 2 + r.n(3)
	p.Extra["set"] = int64(r.u64() >> 1)
	p.Extra["txs"] = int64(1 + r.n(24))
	p.Extra["shape"] = int64(r.n(6))
	n := nodes + r.n(5)
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{T: "node", A: r.pick([]string{"chain", "tree", "shards", "stack", "undo", "checkpoint"}), C: i % nodes, Seed: r.u64(),
			N: []int64{int64(r.n(4)), int64(r.n(3)), int64(r.n(2))}})
	}
}

func pre11(run *Run) {
	rec := run.root
	r := &R{s: uint64(run.plan.Extra["set"])}
	n := int(run.plan.Extra["txs"])
	l := &ledger11{sk: edgeNZ(r)}
	l.pk = refzk.H.Mul(l.sk)
	pk := E(l.pk)
	add := func(v, b *big.Int, neg bool) {
		t := &tx11{v: v, b: b, neg: neg}
		t.c.r, t.t.r = refzk.Commit(v, b), l.pk.Mul(b)
		uv, ub := unreduce(r, v), unreduce(r, b)
		t.c.l = zk.PedCommitR(cv, cp(uv), cp(ub))
		t.t.l = zk.CommitR(cv, pk, cp(ub))
		if p, ok := F(t.c.l); !ok || !p.Eq(t.c.r) {
			rec.viol("commitment is not the one defined", "v=%v r=%v", uv, ub)
		}
		if p, ok := F(t.t.l); !ok || !p.Eq(t.t.r) {
			rec.viol("token is not the one defined", "r=%v", ub)
		}
		l.txs = append(l.txs, t)
	}
	shape := run.plan.Extra["shape"]
	for len(l.txs) < n {
		v, b := edgeScalar(r), edgeScalar(r)
		switch k := r.n(9); {
		case shape == 1 || k == 0: // doublings
			add(v, b, false)
			add(v, b, false)
		case shape == 2 || k == 1: // inverse pair
			add(v, b, false)
			if r.p(1, 2) {
				add(v, b, true)
			} else {
				add(refzk.NegM(v), refzk.NegM(b), false)
			}
		case k == 2: // identity
			add(new(big.Int), new(big.Int), r.p(1, 2))
		case k == 3: // same value, opposite blinding and the like: equal x, related points
			add(v, b, false)
			add(refzk.NegM(v), b, r.p(1, 2))
		case k == 5: // three points with the same y, which sum to the identity
			v2, b2 := refzk.MulM(v, lambda), refzk.MulM(b, lambda)
			add(v, b, false)
			add(v2, b2, false)
			add(refzk.MulM(v2, lambda), refzk.MulM(b2, lambda), false)
		case k == 4:
			add(v, new(big.Int), r.p(1, 2))
		default:
			add(v, b, r.p(1, 3))
		}
	}
	total := func() (*big.Int, *big.Int) {
		v, b := new(big.Int), new(big.Int)
		for _, t := range l.txs {
			if t.neg {
				v, b = refzk.SubM(v, t.v), refzk.SubM(b, t.b)
			} else {
				v, b = refzk.AddM(v, t.v), refzk.AddM(b, t.b)
			}
		}
		return v, b
	}
	if shape >= 4 { // balanced: the last transaction closes the books
		v, b := total()
		if shape == 4 {
			add(refzk.NegM(v), refzk.NegM(b), false)
		} else {
			add(v, b, true)
		}
	}
	l.v, l.b = total()
	l.c, l.t = refzk.Commit(l.v, l.b), l.pk.Mul(l.b)
	run.state = l
}

func op11(c *Ctx) {
	o := c.Op
	r := &c.rng
	l, _ := c.run.state.(*ledger11)
	if l == nil {
		return
	}
	bad := func(a pair, what string) {
		p, ok := F(a.l)
		if !ok {
			c.viol("sum is not a point", "%s: (%x,%x) want (%x,%x)", what, a.l.X, a.l.Y, a.r.X(), a.r.Y())
		} else if !p.Eq(a.r) {
			c.viol("sum differs from the group law", "%s: (%x,%x) want (%x,%x)", what, a.l.X, a.l.Y, a.r.X(), a.r.Y())
		}
	}
	add := func(a, b pair) pair {
		x := pair{cv.Add(a.l, b.l), a.r.Add(b.r)}
		bad(x, "add")
		return x
	}
	sub := func(a, b pair) pair {
		x := pair{cv.Sub(a.l, b.l), a.r.Sub(b.r)}
		bad(x, "sub")
		return x
	}
	neg := func(a pair) pair {
		x := pair{cv.Neg(a.l), a.r.Neg()}
		bad(x, "neg")
		return x
	}
	zero := pair{zk.Zero, refzk.Ident}

	// deliveries: own order, duplicates
	var in []int
	for i := range l.txs {
		in = append(in, i)
		for r.p(1, 5) {
			in = append(in, i)
			c.fault("duplicated transaction")
		}
	}
	switch o.n(0) {
	case 0:
	case 1:
		for i, j := 0, len(in)-1; i < j; i, j = i+1, j-1 {
			in[i], in[j] = in[j], in[i]
		}
		c.fault("reordered transactions")
	default:
		for i := len(in) - 1; i > 0; i-- {
			j := r.n(i + 1)
			in[i], in[j] = in[j], in[i]
		}
		c.fault("reordered transactions")
	}

	// the disk: what was synced survives a crash; of the rest a prefix of bytes
	var disk []byte
	synced := 0
	seen := map[int]bool{}
	mem := map[int]*tx11{}
	var order []int
	record := func(id int, t *tx11) {
		w := &simWriter{failAt: -1, frag: []int{0, 1, 3, 40}[r.n(4)], rng: R{s: r.u64()}}
		if err := wire.WriteVarInt(w, uint64(id)); err != nil {
			c.viol("log write fails", "%v", err)
		}
		if err := zk.WriteECPoint(w, t.c.l); err != nil {
			c.viol("log write fails", "%v", err)
		}
		if err := zk.WriteECPoint(w, t.t.l); err != nil {
			c.viol("log write fails", "%v", err)
		}
		disk = append(disk, w.got...)
	}
	recover11 := func() {
		// replay the log; a torn tail is cut off
		mem, seen, order = map[int]*tx11{}, map[int]bool{}, nil
		rd := &simReader{b: disk, limit: -1, frag: []int{0, 1, 2, 7, 64}[r.n(5)], with: r.p(1, 3), rng: R{s: r.u64()}}
		good := 0
		for {
			ref := disk[good:]
			u, n0, e0 := refzk.ReadVarInt(ref)
			var c1, c2 refzk.XY
			n1, n2 := 0, 0
			if e0 == nil {
				c1, n1, e0 = refzk.DecPoint(ref[n0:])
			}
			if e0 == nil {
				c2, n2, e0 = refzk.DecPoint(ref[n0+n1:])
			}
			id, err := wire.ReadVarInt(rd)
			var pc, pt zk.ECPoint
			if err == nil {
				pc, err = zk.ReadECPoint(rd)
			}
			if err == nil {
				pt, err = zk.ReadECPoint(rd)
			}
			if e0 != nil {
				if err == nil {
					c.viol("torn record read as a transaction", "id %d after %d good bytes of %d", id, good, len(disk))
				}
				if len(ref) > 0 {
					c.fault("torn log record")
				} else if err != nil && !errors.Is(err, io.EOF) {
					c.viol("clean end of log not reported as such", "%v", err)
				}
				disk = disk[:good]
				if synced > good {
					c.viol("durable record lost", "%d of %d bytes", good, synced)
				}
				return
			}
			if err != nil {
				c.viol("intact record unreadable", "%v at byte %d", err, good)
				disk = disk[:good]
				return
			}
			if id != u || pc.X.Cmp(c1.X) != 0 || pc.Y.Cmp(c1.Y) != 0 || pt.X.Cmp(c2.X) != 0 || pt.Y.Cmp(c2.Y) != 0 {
				c.viol("record read back differently", "id %d", id)
			}
			if int(u) >= len(l.txs) {
				c.viol("record read back differently", "id %d", id)
				return
			}
			good += n0 + n1 + n2
			t := l.txs[u]
			if !seen[int(u)] {
				seen[int(u)] = true
				order = append(order, int(u))
				mem[int(u)] = &tx11{c: pair{pc, t.c.r}, t: pair{pt, t.t.r}, v: t.v, b: t.b, neg: t.neg}
			}
		}
	}
	crashes := int(o.n(1))
	for i := 0; i < len(in); i++ {
		id := in[i]
		if seen[id] {
			continue
		}
		t := l.txs[id]
		record(id, t)
		seen[id] = true
		order = append(order, id)
		mem[id] = t
		if r.p(1, 3) {
			synced = len(disk)
		}
		simrt.Yield()
		if crashes > 0 && r.p(crashes, len(in)) {
			// everything in memory is gone, and an arbitrary part of what was not synced
			cut := synced + r.n(len(disk)-synced+1)
			disk = disk[:cut]
			c.fault("crash")
			recover11()
			i = -1 // peers deliver again
		}
	}
	if r.p(1, 3) {
		c.fault("restart")
		synced = len(disk)
		recover11()
	}
	for i := range l.txs {
		if !seen[i] {
			c.viol("transaction missing", "%d", i)
			return
		}
	}

	// sum in this node's grouping
	term := func(t pair, n bool) pair {
		if n {
			return neg(t)
		}
		return t
	}
	sumOf := func(get func(t *tx11) pair) pair {
		switch o.A {
		case "chain", "checkpoint":
			acc := zero
			for i, id := range order {
				t := mem[id]
				switch {
				case t.neg && r.p(1, 2):
					acc = sub(acc, get(t))
				case r.p(1, 2):
					acc = add(acc, term(get(t), t.neg))
				default:
					acc = add(term(get(t), t.neg), acc)
				}
				if o.A == "checkpoint" && i%3 == 2 {
					w := &simWriter{failAt: -1, frag: 5, rng: R{s: r.u64()}}
					if err := zk.WriteECPoint(w, acc.l); err != nil {
						c.viol("log write fails", "%v", err)
					}
					q, err := zk.ReadECPoint(&simReader{b: w.got, limit: -1, frag: 3, rng: R{s: r.u64()}})
					if err != nil {
						c.viol("checkpoint unreadable", "%v for (%x,%x)", err, acc.l.X, acc.l.Y)
						continue
					}
					acc.l = q
					bad(acc, "checkpoint")
					if cut := r.n(len(w.got)); true {
						if _, err := zk.ReadECPoint(&simReader{b: w.got[:cut], limit: -1, rng: R{s: r.u64()}}); err == nil {
							c.viol("torn checkpoint read as a point", "%d of %d bytes", cut, len(w.got))
						}
					}
				}
			}
			return acc
		case "tree", "shards":
			var ps []pair
			for _, id := range order {
				ps = append(ps, term(get(mem[id]), mem[id].neg))
			}
			if o.A == "shards" && len(ps) > 1 {
				k := 2 + r.n(2)
				parts := make([]pair, k)
				var hs []*helper
				for s := 0; s < k; s++ {
					s := s
					hs = append(hs, c.spawn(fmt.Sprintf("shard%d", s), r.u64(), func(cc *Ctx) {
						acc := pair{zk.Zero, refzk.Ident}
						for i := s; i < len(ps); i += k {
							acc = pair{cv.Add(acc.l, ps[i].l), acc.r.Add(ps[i].r)}
							if p, ok := F(acc.l); !ok || !p.Eq(acc.r) {
								cc.viol("sum differs from the group law", "shard add")
							}
						}
						parts[s] = acc
					}))
				}
				c.join(hs...)
				ps = parts
			}
			for len(ps) > 1 {
				i := r.n(len(ps) - 1)
				ps[i] = add(ps[i], ps[i+1])
				ps = append(ps[:i+1], ps[i+2:]...)
			}
			if len(ps) == 0 {
				return zero
			}
			return ps[0]
		case "stack": // deposits and withdrawals apart, then the difference
			in, out := zero, zero
			for _, id := range order {
				if mem[id].neg {
					out = add(out, get(mem[id]))
				} else {
					in = add(in, get(mem[id]))
				}
			}
			if r.p(1, 2) {
				return add(in, neg(out))
			}
			return sub(in, out)
		case "undo": // some transactions are applied, rolled back and applied again
			acc := zero
			for _, id := range order {
				t := term(get(mem[id]), mem[id].neg)
				acc = add(acc, t)
				if r.p(1, 3) {
					before := acc
					acc = sub(acc, t)
					if r.p(1, 2) {
						acc = sub(acc, acc)
						acc = add(acc, pair{before.l, before.r})
						acc = sub(acc, t)
					}
					acc = add(acc, t)
					c.fault("rollback")
				}
			}
			return acc
		}
		return zero
	}
	c.event("sum")
	sc := sumOf(func(t *tx11) pair { return t.c })
	st := sumOf(func(t *tx11) pair { return t.t })
	if p, ok := F(sc.l); !ok || !p.Eq(l.c) {
		c.viol("node's total differs", "%s", o.A)
		return
	}
	if p, ok := F(st.l); !ok || !p.Eq(l.t) {
		c.viol("node's token total differs", "%s", o.A)
		return
	}
	if !sc.l.Equal(E(l.c)) || !st.l.Equal(E(l.t)) {
		c.viol("equal totals compare unequal", "%s", o.A)
	}
	if l.v.Sign() == 0 && l.b.Sign() == 0 {
		c.probe("balanced")
		if !sc.l.Equal(zk.Zero) {
			c.viol("balanced books do not sum to the identity", "%s", o.A)
		}
	}
	// several equal entries at once
	if k := r.n(len(order)); true {
		m := int64(r.n(5))
		t := mem[order[k]]
		x := pair{cv.Mult(t.c.l, unreduce(r, big.NewInt(m))), t.c.r.Mul(big.NewInt(m))}
		bad(x, fmt.Sprintf("mult by %d", m))
		// the curve's own doubling and multiplication, which callers of the parameters reach directly
		var y pair
		y.l.X, y.l.Y = cv.C.Double(t.c.l.X, t.c.l.Y)
		y.r = t.c.r.Add(t.c.r)
		bad(y, "double")
		k := edgeScalar(r)
		// an entry somebody else chose: any point is one
		z := liftPoint(r)
		if r.p(1, 3) {
			z = edgeSum(r, sc.r)
		} else if r.p(1, 6) {
			z = []refzk.Point{sc.r, st.r}[r.n(2)].Mul(r.twist())
		}
		y.l.X, y.l.Y = cv.C.Double(z.X(), z.Y())
		y.r = z.Add(z)
		bad(y, "double of a chosen entry")
		u, v := z, sc.r
		switch r.n(7) {
		case 6:
			v = z.Mul(lambda)
		case 0:
			v = refzk.Ident
		case 1:
			u, v = refzk.Ident, z
		case 2:
			v = z
		case 3:
			v = z.Neg()
		}
		y.l.X, y.l.Y = cv.C.Add(u.X(), u.Y(), v.X(), v.Y())
		y.r = u.Add(v)
		bad(y, "the curve's sum with a chosen entry")
		bad(pair{cv.Add(sc.l, E(z)), sc.r.Add(z)}, "sum with a chosen entry")
		bad(pair{cv.Sub(st.l, E(z)), st.r.Sub(z)}, "difference with a chosen entry")
		bad(pair{cv.Mult(E(z), unreduce(r, k)), z.Mul(k)}, "multiple of a chosen entry")
		// an entry and itself: the same numbers in memory
		e := pair{sc.l, sc.r}
		if r.p(1, 2) {
			e = pair{E(z), z}
		}
		bad(pair{cv.Add(e.l, e.l), e.r.Add(e.r)}, "entry added to itself")
		bad(pair{cv.Sub(e.l, e.l), refzk.Ident}, "entry taken from itself")
		bad(pair{cv.Add(e.l, cv.Neg(e.l)), refzk.Ident}, "entry and its negation")
		bad(pair{cv.Sub(e.l, cv.Neg(e.l)), e.r.Add(e.r)}, "negation taken from the entry")
		bad(pair{cv.Neg(cv.Neg(e.l)), e.r}, "negation of the negation")
		bad(e, "entry after use")
		y.r = t.t.r.Mul(k)
		if u := unreduce(r, k); u.Sign() >= 0 {
			y.l.X, y.l.Y = cv.C.ScalarMult(t.t.l.X, t.t.l.Y, u.Bytes())
			bad(y, "scalar multiplication")
			switch r.n(6) {
			case 0: // around the order: the last partial sum is the negation of, or equals, the last table entry
				u = new(big.Int).Add(refzk.N, big.NewInt(int64([]int{0, 0xbf, 2 * 0xbf, 2*0xbf + 1, 1, r.n(1 << 16)}[r.n(6)])))
			case 1: // up to 32 bytes, not below the order
				u = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(1+r.n(1<<20))))
			}
			y.l.X, y.l.Y = cv.C.ScalarBaseMult(u.Bytes())
			y.r = refzk.G.Mul(refzk.Mod(u))
			bad(y, "base multiplication")
			y.l.X, y.l.Y = cv.C.ScalarMult(z.X(), z.Y(), u.Bytes())
			y.r = z.Mul(refzk.Mod(u))
			bad(y, "scalar multiplication of a chosen entry")
		}
	}
	// opening
	if !zk.Open(cv, unreduce(r, l.v), unreduce(r, l.b), sc.l) {
		c.viol("total does not open", "v=%v r=%v", l.v, l.b)
	}
	if !zk.VerifyR(cv, st.l, E(l.pk), unreduce(r, l.b)) {
		c.viol("token total does not open", "r=%v", l.b)
	}
	one := big.NewInt(1)
	wrong := []*big.Int{refzk.AddM(l.v, one), refzk.NegM(l.v), refzk.SubM(l.v, one), r.scalar(), new(big.Int)}
	wv := wrong[r.n(len(wrong))]
	if wv.Cmp(l.v) != 0 && zk.Open(cv, cp(wv), cp(l.b), sc.l) {
		c.viol("wrong total opens", "v=%v for %v", wv, l.v)
	}
	wrongb := []*big.Int{refzk.AddM(l.b, one), refzk.NegM(l.b), r.scalar(), new(big.Int)}
	wb := wrongb[r.n(len(wrongb))]
	if wb.Cmp(l.b) != 0 {
		if zk.Open(cv, cp(l.v), cp(wb), sc.l) {
			c.viol("wrong blinding opens", "r=%v for %v", wb, l.b)
		}
		if zk.VerifyR(cv, st.l, E(l.pk), cp(wb)) {
			c.viol("wrong blinding opens the token", "r=%v for %v", wb, l.b)
		}
	}
	f := r.twist()
	if nv, nb := refzk.MulM(l.v, f), refzk.MulM(l.b, f); nv.Cmp(l.v) != 0 && zk.Open(cv, nv, nb, sc.l) {
		c.viol("twisted total opens", "v=%v", l.v)
	}
	if o.n(2) == 0 {
		audit11(c, l, sc.l, st.l)
	}
	c.kase("node %s txs %d shape %d seed %x set %x", o.A, len(l.txs), c.run.plan.Extra["shape"], o.Seed, c.run.plan.Extra["set"])
}

// audit11: the owner proves the total it states, and cannot prove another.
func audit11(c *Ctx, l *ledger11, sc, st zk.ECPoint) {
	r := &c.rng
	try := func(v *big.Int) (verdict, bool) {
		base := cv.Sub(sc, cv.Mult(cv.G, v))
		var p *zk.EquivalenceProof
		var err error
		pn := guard(func() {
			with(&Ent{Seed: r.u64(), FailAt: -1}, func() {
				p, err = zk.NewEquivalenceProof(cv, cv.H, E(l.pk), base, st, cp(l.sk))
			})
		})
		if pn != nil {
			return verdict{pan: pn}, false
		}
		if err != nil || p == nil {
			return verdict{err: err}, false
		}
		var vd verdict
		vd.pan = guard(func() { vd.ok, vd.err = p.Verify(cv, cv.H, E(l.pk), base, st) })
		return vd, true
	}
	if !l.c.Sub(refzk.G.Mul(l.v)).Eq(refzk.Ident) {
		if vd, made := try(cp(l.v)); !made || !vd.ok || vd.err != nil {
			c.viol("audit of the true total fails", "made %v: %s", made, vd)
		}
		c.probe("audit")
	}
	w := refzk.AddM(l.v, big.NewInt(int64(1+r.n(3))))
	if !l.c.Sub(refzk.G.Mul(w)).Eq(refzk.Ident) {
		c.fault("audit of a wrong total")
		if vd, made := try(w); made && (vd.ok || (vd.err == nil && vd.pan == nil)) {
			c.viol("audit of a wrong total succeeds", "%v for %v", w, l.v)
		}
	}
	// the totals are themselves a commitment and token with known opening
	var p *zk.ConsistencyProof
	var err error
	with(&Ent{Seed: r.u64(), FailAt: -1}, func() {
		p, err = zk.NewConsistencyProof(cv, sc, st, E(l.pk), cp(l.v), cp(l.b))
	})
	if err != nil {
		c.viol("consistency of the totals cannot be proved", "%v", err)
		return
	}
	s := refzk.Stmt{Kind: refzk.Cons, P: []refzk.Point{l.c, l.t, l.pk}}
	if vd := receive(s, p.Bytes()); !vd.accepted() || !vd.ok {
		c.viol("consistency of the totals not verified", "%s", vd)
	}
}

func end11(run *Run, rec *Rec) {
	if zk.Zero.X.Sign() != 0 || zk.Zero.Y.Sign() != 0 {
		rec.viol("the identity changed", "(%x,%x)", zk.Zero.X, zk.Zero.Y)
	}
	l, _ := run.state.(*ledger11)
	if l == nil {
		return
	}
	for i, t := range l.txs {
		if p, ok := F(t.c.l); !ok || !p.Eq(t.c.r) {
			rec.viol("a node changed a shared transaction", "%d", i)
		}
		if p, ok := F(t.t.l); !ok || !p.Eq(t.t.r) {
			rec.viol("a node changed a shared transaction", "%d (token)", i)
		}
	}
}
