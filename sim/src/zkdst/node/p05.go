package main

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/wire"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C05: hostile bytes never crash, hang or exhaust a verifier.

func init() {
	scenarios["C05"] = &scenario{gen: gen05, op: op05, pan: true, hang: true}
}

var allKinds = append(append([]string(nil), proofKinds...), refzk.Range)

var hostile = []string{"prefix", "prefix", "length", "length", "count", "nested", "coords", "ints", "random", "corrupt", "tuples", "reader", "varint", "insider", "forged"}

func gen05(r *R, tier string, p *Plan) {
	clients := 1
	if r.p(1, 2) {
		clients = 2 + r.n(2)
	} else {
		p.Extra["solo"] = 1
	}
	n := 12 + r.n(14)
	for i := 0; i < n; i++ {
		o := Op{T: "hostile", C: r.n(clients), Seed: r.u64(), K: allKinds[r.n(len(allKinds))]}
		o.A = r.pick(hostile)
		switch o.A {
		case "count", "tuples":
			o.K = refzk.Range
		case "nested":
			o.K = []string{refzk.ABC, refzk.Ineq}[r.n(2)]
		}
		o.N = []int64{int64(4 + r.n(20))}
		p.Ops = append(p.Ops, o)
	}
}

// alloc measures what f allocates; only meaningful while nothing else runs.
func (c *Ctx) alloc(f func()) uint64 {
	if c.run.plan.Extra["solo"] == 0 {
		f()
		return 0
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// feed gives a verifier node a hostile message.
func (c *Ctx) feed(s refzk.Stmt, b []byte, what string, mustFail bool) {
	c.fault("hostile bytes: " + generic(what))
	var obj interface{}
	var err error
	var pn *pan
	used := c.alloc(func() { pn = guard(func() { obj, err = libDecode(s.Kind, b) }) })
	limit := uint64(64*len(b)) + 1<<20
	if used > limit {
		c.viol("allocation out of proportion", "decoding %d bytes as %s allocated %d bytes (%s)", len(b), s.Kind, used, what)
	}
	if pn != nil {
		c.viol("decoder panics", "%s, %s: %s; bytes %x", s.Kind, what, pn, head(b))
		return
	}
	c.kase("%s %s %x: decoded %v", s.Kind, what, simrt.Mix(c.Op.Seed, uint64(c.checks)), err == nil)
	if err != nil {
		if pn := guard(func() { _ = err.Error() }); pn != nil {
			c.viol("decoder's error is unusable", "%s, %s: %s", s.Kind, what, pn)
		}
		return
	}
	if mustFail {
		c.viol("incomplete bytes decoded", "%s, %s (%d bytes): no error", s.Kind, what, len(b))
	}
	v := judge(s, obj)
	if v.pan != nil {
		c.viol("verifier panics", "%s, %s: %s; bytes %x", s.Kind, what, v.pan, head(b))
	}
	if v.pan == nil && v.err != nil {
		if pn := guard(func() { _ = v.err.Error() }); pn != nil {
			c.viol("verifier's error is unusable", "%s, %s: %s", s.Kind, what, pn)
		}
	}
	if v.stuck > 0 {
		c.viol("workers left behind", "%s, %s: %d", s.Kind, what, v.stuck)
	}
	if pn := guard(func() { libBytes(obj) }); pn != nil {
		c.viol("decoded proof is incomplete", "%s, %s: re-encoding: %s", s.Kind, what, pn)
	}
	c.probe("hostile bytes decoded, verdict " + v.short())
}

// missing is the nil proof of a kind.
func missing(kind string) interface{} {
	switch kind {
	case refzk.GSPFS:
		return (*zk.GSPFSProof)(nil)
	case refzk.Equiv:
		return (*zk.EquivalenceProof)(nil)
	case refzk.Disj:
		return (*zk.DisjunctiveProof)(nil)
	case refzk.Cons:
		return (*zk.ConsistencyProof)(nil)
	case refzk.ABC:
		return (*zk.ABCProof)(nil)
	case refzk.Ineq:
		return (*zk.InequalityProof)(nil)
	}
	return (*zk.RangeProof)(nil)
}

func head(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

var hugeLens = []uint64{33, 64, 100, 255, 256, 1023, 1024, 1025, 5000, 65535, 65536, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40,
	1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func op05(c *Ctx) {
	o := c.Op
	r := &c.rng
	switch o.A {
	case "reader":
		reader05(c)
		return
	case "varint":
		varint05(c)
		return
	case "forged": // transcripts that get past some of the verifier's tests, with special values
		for i := int64(0); i < o.n(0); i++ {
			r.sp, r.mp, r.ms = []int{0, 2, 3, 6}[r.n(4)], nil, nil
			if o.K == refzk.Range {
				s, p, _ := forgeRange(r, rangeAttacks[r.n(len(rangeAttacks))])
				c.feed(s, p.Encode(), "forged", false)
				return
			}
			a := r.pick(attacks[o.K])
			if a == "liar" {
				continue
			}
			var s refzk.Stmt
			var p *refzk.Proof
			if a == "degenerate" {
				s, p = degenerate(r, o.K)
			} else {
				s, p = forge(r, o.K, a, -1)
			}
			if p != nil {
				c.feed(s, p.Encode(), "forged", false)
			}
		}
		return
	case "insider": // valid transcripts whose masks and shares are special values
		for i := int64(0); i < o.n(0) && o.K != refzk.Range; i++ {
			r.sp, r.mp, r.ms = 2+r.n(3), nil, nil
			s, w := honest(r, o.K)
			var p *refzk.Proof
			if pn := guard(func() { p = refProve(r, s, w) }); pn != nil {
				c.probe("special values contradict the protocol")
				continue
			}
			c.feed(s, p.Encode(), "special masks", false)
		}
		return
	}
	var s refzk.Stmt
	var p *refzk.Proof
	nt := 0
	if o.K == refzk.Range {
		nt = 1 + r.n(4)
		if o.A == "tuples" {
			nt = []int{0, 1, 39, 40, 41, 63, 64, 65, 66, 100, 130}[r.n(11)]
		}
		p = &refzk.Proof{Kind: refzk.Range, P: []refzk.XY{xy(refzk.G)}, I: []*big.Int{r.nz()}}
		q := liftPoint(r)
		for i := 0; i < nt; i++ {
			p.P = append(p.P, xy(q))
			p.I = append(p.I, big.NewInt(int64(1+r.n(9))))
		}
		s = refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{refzk.G}}
	} else {
		var w *Wit
		s, w = honest(r, o.K)
		p = refProve(r, s, w)
		if o.A == "prefix" && r.p(1, 2) { // the library's own bytes
			var b []byte
			if pn := guard(func() {
				var obj interface{}
				with(&Ent{Seed: o.Seed, FailAt: -1}, func() { obj, _ = prove(s, w) })
				b = libBytes(obj)
			}); pn == nil {
				if q, _, err := refzk.Decode(o.K, b); err == nil {
					p = q
				}
			}
		}
	}
	b, spans := p.EncodeSpans()
	n := int(o.n(0))
	switch o.A {
	case "prefix":
		for i := 0; i < n; i++ {
			k := r.n(len(b))
			if r.p(1, 2) {
				k = spans[r.n(len(spans))].From
				if r.p(1, 2) {
					k += r.n(3)
				}
			}
			if k < len(b) {
				c.feed(s, b[:k:k], "strict prefix", true)
			}
		}
	case "length": // a length field lies
		for i := 0; i < n; i++ {
			sp := spans[r.n(len(spans))]
			at := sp.From
			if sp.What == "point" && r.p(1, 2) { // the Y length
				at += 1 + int(b[at])
			}
			if at >= len(b) {
				continue
			}
			l := hugeLens[r.n(len(hugeLens))]
			if r.p(1, 4) {
				l = uint64(r.n(70))
			}
			m := append(append([]byte(nil), b[:at]...), refzk.VarInt(l)...)
			tail := b[at+1:]
			if r.p(1, 3) {
				tail = append(r.bytes(r.n(2000)), tail...)
			}
			if r.p(1, 4) {
				tail = nil
			}
			if r.p(1, 2) { // only the header: the next field follows
				tail = b[sp.To:]
			}
			c.feed(s, append(m, tail...), fmt.Sprintf("length lie in %s", sp.What), l > uint64(len(tail)))
		}
	case "count":
		at := spans[2].From
		for i := 0; i < n; i++ {
			l := append([]uint64{0, 1, 39, 40, 41, 64, 65, 66, uint64(nt + 1), uint64(len(b)), uint64(len(b) / 4)}, hugeLens...)
			k := l[r.n(len(l))]
			m := append(append(append([]byte(nil), b[:at]...), refzk.VarInt(k)...), b[at+1:]...)
			if r.p(1, 3) { // enough filler to look plausible
				m = append(m, bytes.Repeat([]byte{0, 0, 1, 0}, r.n(200))...)
			}
			c.feed(s, m, "tuple count lie", k > uint64(len(m)))
		}
	case "tuples":
		c.feed(s, b, "number of tuples", false)
		for i := 0; i < 3 && nt > 0; i++ { // with the hash made right, so that nothing is rejected early
			q := p.Clone()
			k := 1 + r.n(nt)
			switch r.n(4) {
			case 0:
				q.P[k] = zeroXY
			case 1:
				q.I[k] = new(big.Int)
			case 2:
				q.P[k] = refzk.XY{X: new(big.Int).SetBytes(r.bytes(32)), Y: new(big.Int).SetBytes(r.bytes(32))}
			case 3:
				q.I[0] = new(big.Int)
			}
			c.feed(s, q.Encode(), "odd tuples", false)
		}
	case "nested":
		inner := p.Sub.Encode()
		at := spans[len(spans)-1].From
		for i := 0; i < n; i++ {
			x := inner
			short := false
			switch r.n(7) {
			case 5, 6: // a field inside promises more than there is
				_, isp := p.Sub.EncodeSpans()
				sp := isp[r.n(len(isp))]
				at := sp.From
				if sp.What == "point" && r.p(1, 2) {
					at += 1 + int(inner[at])
				}
				if at >= sp.To {
					at = sp.From
				}
				tail := inner[sp.To:]
				x = append(append(append([]byte(nil), inner[:at]...), refzk.VarInt(uint64(len(tail)+1)+hugeLens[r.n(20)])...), tail...)
				short = true
			case 0:
				x = inner[:r.n(len(inner))]
				short = true
			case 1:
				x = nil
				short = true
			case 2:
				x = append(append([]byte(nil), inner...), r.bytes(r.n(300))...)
			case 3:
				x, _ = corrupt(r, inner, inner)
			case 4: // the length promises more than there is
				m := append(append(append([]byte(nil), b[:at]...), refzk.VarInt(uint64(len(inner)+1+r.n(100000)))...), inner...)
				c.feed(s, m, "nested proof length lie", true)
				continue
			}
			c.feed(s, append(append([]byte(nil), b[:at]...), refzk.VarBytes(x)...), "nested proof damaged", short)
		}
	case "coords":
		for i := 0; i < n; i++ {
			q := p.Clone()
			t := q
			if q.Sub != nil && r.p(1, 3) {
				t = q.Sub
			}
			k := r.n(len(t.P))
			big1 := func() *big.Int {
				switch r.n(9) {
				case 0:
					return new(big.Int)
				case 1:
					return new(big.Int).Set(refzk.P)
				case 2:
					return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
				case 3:
					return new(big.Int).SetBytes(r.bytes(33 + r.n(32)))
				case 4:
					return new(big.Int).SetBytes(r.bytes(200 + r.n(2000)))
				case 5:
					return big.NewInt(1)
				case 6:
					return t.P[k].X
				}
				return new(big.Int).SetBytes(r.bytes(32))
			}
			t.P[k] = refzk.XY{X: big1(), Y: big1()}
			c.feed(s, q.Encode(), "point off the curve", false)
		}
	case "ints":
		for i := 0; i < n; i++ {
			q := p.Clone()
			t := q
			if q.Sub != nil && r.p(1, 3) {
				t = q.Sub
			}
			k := r.n(len(t.I))
			switch r.n(6) {
			case 0:
				t.I[k] = new(big.Int)
			case 1:
				t.I[k].Neg(t.I[k])
			case 2:
				t.I[k] = new(big.Int).SetBytes(r.bytes(33 + r.n(200)))
			case 3:
				t.I[k] = new(big.Int).SetBytes(r.bytes(900 + r.n(4000)))
			case 4:
				t.I[k] = new(big.Int).Set(refzk.N)
			case 5: // no sign byte, or an odd one
				b, spans := q.EncodeSpans()
				var is []refzk.Span
				for _, sp := range spans {
					if sp.What == "int" {
						is = append(is, sp)
					}
				}
				sp := is[r.n(len(is))]
				m := append([]byte(nil), b[:sp.From]...)
				if r.p(1, 2) {
					m = append(m, 0)
				} else {
					m = append(m, refzk.VarBytes(append([]byte{byte(2 + r.n(250))}, r.bytes(r.n(33))...))...)
				}
				c.feed(s, append(m, b[sp.To:]...), "integer without sign byte", false)
				continue
			}
			c.feed(s, q.Encode(), "odd integer", false)
		}
	case "random":
		for i := 0; i < n; i++ {
			m := r.bytes(r.n(400))
			if r.p(1, 2) {
				for j := range m {
					m[j] = []byte{0, 1, 2, 32, 33, 0xfc, 0xfd, 0xfe, 0xff, m[j]}[r.n(10)]
				}
			}
			c.feed(s, m, "random bytes", false)
		}
		c.feed(s, nil, "no bytes", true)
		// a node that ignored a decoding error passes nothing on to its verifier
		v := judge(s, missing(o.K))
		if v.pan != nil {
			c.viol("verifier panics", "%s, no proof at all: %s", o.K, v.pan)
		} else if v.accepted() {
			c.viol("missing proof accepted", "%s: %s", o.K, v)
		}
		c.fault("hostile bytes: missing proof")
		c.feed(s, []byte{}, "no bytes", true)
	case "corrupt":
		for i := 0; i < n; i++ {
			m, what := corrupt(r, b, r.bytes(len(b)))
			c.feed(s, m, what, what == "truncated")
		}
	}
}

// reader05 reads hostile bytes as single values.
func reader05(c *Ctx) {
	r := &c.rng
	for i := 0; i < 20; i++ {
		var b []byte
		switch r.n(4) {
		case 0:
			b = r.bytes(r.n(80))
		case 1:
			b = append(refzk.VarInt(hugeLens[r.n(len(hugeLens))]), r.bytes(r.n(100))...)
		case 2:
			b = append(refzk.VarBytes(r.bytes(r.n(33))), append(refzk.VarInt(hugeLens[r.n(len(hugeLens))]), r.bytes(r.n(100))...)...)
		case 3:
			b = refzk.VarBytes(r.bytes(r.n(1200)))
			b = append(b, b...)
		}
		max := uint32([]uint64{0, 1, 31, 32, 33, 1000, 100000, 1 << 20}[r.n(8)])
		kind := r.n(4)
		c.fault("hostile bytes: single value")
		var err error
		var got []byte
		var pn *pan
		what := []string{"ReadECPoint", "ReadBigInt", "ReadVarBytes", "ReadVarInt"}[kind]
		used := c.alloc(func() {
			pn = guard(func() {
				rd := bytes.NewReader(b)
				switch kind {
				case 0:
					var p zk.ECPoint
					p, err = zk.ReadECPoint(rd)
					if err == nil && (p.X == nil || p.Y == nil) {
						err = nil
						c.viol("incomplete point", "nil coordinate without error")
					}
				case 1:
					var x *big.Int
					x, err = zk.ReadBigInt(rd)
					if err == nil && x == nil {
						c.viol("incomplete integer", "nil without error")
					}
				case 2:
					got, err = wire.ReadVarBytes(rd, max, "field")
					if err == nil && uint64(len(got)) > uint64(max) {
						c.viol("maximum not enforced", "%d bytes returned, maximum %d", len(got), max)
					}
				case 3:
					_, err = wire.ReadVarInt(rd)
				}
			})
		})
		if pn != nil {
			c.viol("reader panics", "%s: %s; bytes %x", what, pn, head(b))
		}
		lim := uint64(64*len(b)) + 1<<20
		if kind == 2 {
			lim += uint64(max)
		}
		if used > lim {
			c.viol("allocation out of proportion", "%s of %d bytes allocated %d bytes", what, len(b), used)
		}
		c.kase("%s %x: %v", what, simrt.Mix(c.Op.Seed, uint64(i)), err == nil)
	}
}

func varint05(c *Ctx) {
	r := &c.rng
	for i := 0; i < 30; i++ {
		b := r.bytes(r.n(11))
		if len(b) > 0 && r.p(3, 4) {
			b[0] = []byte{0xfc, 0xfd, 0xfe, 0xff}[r.n(4)]
		}
		if r.p(1, 3) {
			for j := 1; j < len(b); j++ {
				if r.p(2, 3) {
					b[j] = 0
				}
			}
		}
		want, n, werr := refzk.ReadVarInt(b)
		var got uint64
		var err error
		rd := bytes.NewReader(b)
		c.fault("hostile bytes: single value")
		if pn := guard(func() { got, err = wire.ReadVarInt(rd) }); pn != nil {
			c.viol("reader panics", "ReadVarInt: %s; bytes %x", pn, b)
			continue
		}
		if (err == nil) != (werr == nil) {
			c.viol("variable-length integer misread", "%x: error %v, expected %v", b, err, werr)
		} else if err == nil && (got != want || rd.Len() != len(b)-n) {
			c.viol("variable-length integer misread", "%x: %d (%d bytes left), expected %d", b, got, rd.Len(), want)
		}
		c.kase("varint %x", b)
	}
}
