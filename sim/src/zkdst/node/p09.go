package main

import (
	"bytes"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C09: concurrent callers never interfere. All arguments are shared between the clients; nothing is copied on the way in.

func init() {
	scenarios["C09"] = &scenario{gen: gen09, pre: pre09, op: op09, end: end09, pan: true, hang: true}
}

// watched memory: value at the start of the run, compared at its end
type watchInt struct {
	name  string
	p     *big.Int
	v     *big.Int
	words []big.Word
}
type watchBuf struct {
	name string
	full []byte // including the bytes behind the slice
	v    []byte
}

type item09 struct {
	s     refzk.Stmt
	w     *Wit
	pts   []zk.ECPoint
	pa    []zk.ECPoint
	proof interface{}
	bytes []byte
	other zk.ECPoint
}

type shared09 struct {
	ints  []watchInt
	bufs  []watchBuf
	items map[string]*item09
	pts   []zk.ECPoint
	rpts  []refzk.Point
	scal  []*big.Int
	priv  *btcec.PrivateKey
	pub   *btcec.PublicKey
	d     *big.Int
	msg   []byte
	ct    []byte
	hash  []byte
	sig   *btcec.Signature
	der   []byte
	csig  []byte
	pkb   []byte
	vals  []val
	rng   *zk.RangeProof
	rcomm zk.ECPoint
	rb    []byte
}

func (s *shared09) watch(name string, x *big.Int) *big.Int {
	s.ints = append(s.ints, watchInt{name, x, new(big.Int).Set(x), append([]big.Word(nil), x.Bits()[:cap(x.Bits())]...)})
	return x
}

func (s *shared09) point(name string, p refzk.Point) zk.ECPoint {
	e := E(p)
	s.watch(name+".X", e.X)
	s.watch(name+".Y", e.Y)
	return e
}

// slice puts b into a larger buffer, as a caller does who keeps several messages in one.
func (s *shared09) slice(name string, b []byte) []byte {
	full := make([]byte, len(b)+80)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = byte(0xA0 + i%16)
	}
	s.bufs = append(s.bufs, watchBuf{name, full, append([]byte(nil), full...)})
	return full[:len(b)]
}

func gen09(r *R, tier string, p *Plan) {
	clients := 2 + r.n(4)
	if simrt.RaceBuild {
		clients = 2 + r.n(2)
	}
	n := 20 + r.n(20)
	if simrt.RaceBuild {
		n = 10 + r.n(8)
	}
	if r.p(1, 4) {
		p.Extra["range"] = 1
	}
	p.Extra["pre"] = int64(r.u64() >> 1)
	ts := []string{"verify", "verify", "decode", "bytes", "prove", "points", "points", "commit", "keygen", "ecies", "ecdsa", "ecdsa", "stream", "stream"}
	if r.p(1, 2) { // few kinds of calls, so that they meet
		a, b := r.pick(ts), r.pick(ts)
		ts = []string{a, b, a}
	}
	ks := proofKinds
	if r.p(1, 3) {
		ks = []string{proofKinds[r.n(len(proofKinds))]}
	}
	if p.Extra["range"] == 1 {
		ts = append(ts, "rangeverify", "rangeverify")
		if r.p(1, 2) {
			ts = append(ts, "rangeprove")
		}
	}
	ranges := 0
	for i := 0; i < n; i++ {
		o := Op{T: r.pick(ts), C: r.n(clients), Seed: r.u64(), K: ks[r.n(len(ks))], N: []int64{int64(r.n(6)), int64(r.n(6)), int64(1 + r.n(3))}}
		if o.T == "rangeverify" || o.T == "rangeprove" {
			ranges++
			if ranges > 4 || simrt.RaceBuild && ranges > 2 {
				o.T = "points"
			}
		}
		p.Ops = append(p.Ops, o)
	}
}

func pre09(run *Run) {
	r := &R{s: uint64(run.plan.Extra["pre"])}
	s := &shared09{items: map[string]*item09{}}
	run.state = s
	// the shared parameters of the library
	for _, x := range []struct {
		n string
		p *big.Int
	}{{"G.X", cv.G.X}, {"G.Y", cv.G.Y}, {"H.X", cv.H.X}, {"H.Y", cv.H.Y}, {"Zero.X", zk.Zero.X}, {"Zero.Y", zk.Zero.Y}, {"BigZero", zk.BigZero},
		{"N", cv.C.Params().N}, {"P", cv.C.Params().P}, {"Gx", cv.C.Params().Gx}, {"Gy", cv.C.Params().Gy}, {"B", cv.C.Params().B}} {
		s.watch("library "+x.n, x.p)
	}
	for i := range cv.HPoints {
		s.watch("library HPoints", cv.HPoints[i].X)
		s.watch("library HPoints", cv.HPoints[i].Y)
	}
	need := map[string]bool{}
	for _, o := range run.plan.Ops {
		if o.T == "verify" || o.T == "decode" || o.T == "bytes" || o.T == "prove" {
			need[o.K] = true
		}
	}
	for _, k := range proofKinds {
		if !need[k] {
			continue
		}
		it := &item09{}
		it.s, it.w = honest(r, k)
		for i, p := range it.s.P {
			it.pts = append(it.pts, s.point(fmt.Sprintf("%s statement point %d", k, i), p))
		}
		for i, p := range it.w.PA {
			it.pa = append(it.pa, s.point(fmt.Sprintf("%s commitment %d", k, i), p))
		}
		for _, f := range []struct {
			n string
			p **big.Int
		}{{"x", &it.w.X}, {"v", &it.w.V}, {"r", &it.w.R}, {"sk", &it.w.SK}, {"a", &it.w.A}, {"b", &it.w.B}} {
			if *f.p != nil {
				*f.p = new(big.Int).Set(*f.p)
				s.watch(k+" witness "+f.n, *f.p)
			}
		}
		b := refProve(r, it.s, it.w).Encode()
		it.bytes = s.slice(k+" proof bytes", b)
		o, err := libDecode(k, append([]byte(nil), b...))
		if err != nil {
			run.root.probe("reference proof not decodable (C06)")
			continue
		}
		it.proof = o
		it.other = s.point("other point", liftPoint(r))
		s.items[k] = it
	}
	for i := 0; i < 6; i++ {
		var p refzk.Point
		switch i {
		case 0:
			p = refzk.Ident
		case 1:
			p = refzk.G
		case 2:
			p = refzk.H
		case 5:
			p = s.rpts[4].Neg()
		default:
			p = liftPoint(r)
		}
		s.rpts = append(s.rpts, p)
		s.pts = append(s.pts, s.point(fmt.Sprintf("shared point %d", i), p))
		k := edgeScalar(r)
		if r.p(1, 3) {
			k = new(big.Int).Neg(k)
		}
		s.scal = append(s.scal, s.watch("shared scalar", new(big.Int).Set(k)))
	}
	s.pts[1], s.pts[2] = cv.G, cv.H
	s.d = r.nz()
	key := s.slice("private key bytes", s.d.FillBytes(make([]byte, 32)))
	s.priv, s.pub = btcec.PrivKeyFromBytes(btcec.S256(), key)
	s.watch("private key D", s.priv.D)
	s.watch("public key X", s.pub.X)
	s.watch("public key Y", s.pub.Y)
	s.msg = s.slice("message", r.bytes(r.n(60)))
	s.hash = s.slice("hash", r.bytes([]int{32, 32, 20, 48}[r.n(4)]))
	with(&Ent{Seed: r.u64(), FailAt: -1}, func() {
		ct, _ := btcec.Encrypt(s.pub, append([]byte(nil), s.msg...))
		s.ct = s.slice("ciphertext", ct)
		s.sig, _ = s.priv.Sign(append([]byte(nil), s.hash...))
		s.watch("signature R", s.sig.R)
		s.watch("signature S", s.sig.S)
		s.der = s.slice("DER signature", s.sig.Serialize())
		cs, _ := btcec.SignCompact(btcec.S256(), s.priv, append([]byte(nil), s.hash...), true)
		s.csig = s.slice("compact signature", cs)
		s.pkb = s.slice("public key bytes", s.pub.SerializeCompressed())
		if run.plan.Extra["range"] == 1 {
			v := rangeValue(r)
			p, rr, err := zk.NewRangeProof(cv, v)
			if err == nil {
				s.rng = p
				s.rcomm = s.point("range commitment", refzk.Commit(v, rr))
				s.rb = s.slice("range proof bytes", p.Bytes())
			}
		}
	})
	for i := 0; i < 6; i++ {
		v := genVal(r)
		switch v.kind {
		case "varbytes":
			v.b = s.slice("written bytes", v.b)
		case "point":
			s.watch("written point", v.p.X)
			s.watch("written point", v.p.Y)
		case "int":
			s.watch("written integer", v.i)
		}
		s.vals = append(s.vals, v)
	}
}

func (it *item09) prove() (interface{}, error) {
	p, w := it.pts, it.w
	switch it.s.Kind {
	case refzk.GSPFS:
		if it.s.P[0].Eq(refzk.G) {
			x, err := zk.NewGSPFSProof(cv, p[1], w.X)
			return x, err
		}
		x, err := zk.NewGSPFSProofBase(cv, p[0], p[1], w.X)
		return x, err
	case refzk.Equiv:
		x, err := zk.NewEquivalenceProof(cv, p[0], p[1], p[2], p[3], w.X)
		return x, err
	case refzk.Disj:
		x, err := zk.NewDisjunctiveProof(cv, p[0], p[1], p[2], p[3], w.X, zk.Side(w.Side))
		return x, err
	case refzk.Cons:
		x, err := zk.NewConsistencyProof(cv, p[0], p[1], p[2], w.V, w.R)
		return x, err
	case refzk.ABC:
		x, err := zk.NewABCProof(cv, p[0], p[1], w.V, w.SK, zk.Side(w.Side))
		return x, err
	}
	x, err := zk.NewInequalityProof(cv, it.pa[0], it.pa[1], it.pa[2], it.pa[3], w.A, w.B, w.SK)
	return x, err
}

func (it *item09) verify(p []zk.ECPoint) (bool, error) {
	switch x := it.proof.(type) {
	case *zk.GSPFSProof:
		return x.Verify(cv, p[1])
	case *zk.EquivalenceProof:
		return x.Verify(cv, p[0], p[1], p[2], p[3])
	case *zk.DisjunctiveProof:
		return x.Verify(cv, p[0], p[1], p[2], p[3])
	case *zk.ConsistencyProof:
		return x.Verify(cv, p[0], p[1], p[2])
	case *zk.ABCProof:
		if it.s.Kind == refzk.Ineq {
			return (*zk.InequalityProof)(x).Verify(cv, p[0], p[1])
		}
		return x.Verify(cv, p[0], p[1])
	}
	panic("verify")
}

func op09(c *Ctx) {
	o := c.Op
	s := c.run.state.(*shared09)
	r := &c.rng
	ent := &Ent{Seed: o.Seed, FailAt: -1}
	wrong := func(f string, a ...interface{}) {
		c.viol("result differs from a call made alone", "%s/%s: %s", o.T, o.K, fmt.Sprintf(f, a...))
	}
	it := s.items[o.K]
	if it == nil && (o.T == "verify" || o.T == "decode" || o.T == "bytes" || o.T == "prove") {
		return
	}
	reps := int(o.n(2))
	if reps < 1 || simrt.RaceBuild {
		reps = 1
	}
	for rep := 0; rep < reps; rep++ {
		switch o.T {
		case "verify":
			pts := it.pts
			good := true
			if o.n(0) == 0 {
				pts = append([]zk.ECPoint(nil), it.pts...)
				k := r.n(len(pts))
				if o.K == refzk.GSPFS {
					k = 1 // the base is taken from the proof
				}
				pts[k] = it.other
				good = false
			}
			ok, err := it.verify(pts)
			if ok != good || (err == nil) != good {
				wrong("verdict (%v, %v), expected %v", ok, err, good)
			}
		case "decode":
			x, err := libDecode(o.K, it.bytes)
			if err != nil {
				wrong("decoding fails: %v", err)
				break
			}
			if b := libBytes(x); !bytes.Equal(b, it.bytes) {
				wrong("decoded proof encodes to other bytes")
			}
		case "bytes":
			if b := libBytes(it.proof); !bytes.Equal(b, it.bytes) {
				wrong("proof encodes to other bytes")
			}
		case "prove":
			var x interface{}
			var err error
			with(ent, func() { x, err = it.prove() })
			if err != nil {
				wrong("prover fails: %v", err)
				break
			}
			p, _, err := refzk.Decode(o.K, libBytes(x))
			if err != nil || !refzk.Verify(it.s, p) {
				wrong("proof is not valid (%v)", err)
			}
		case "points":
			i, j := int(o.n(0))%6, int(o.n(1))%6
			k := s.scal[j]
			eq := func(what string, got zk.ECPoint, want refzk.Point) {
				q, ok := F(got)
				if !ok || !q.Eq(want) {
					wrong("%s of points %d, %d is wrong", what, i, j)
				}
			}
			eq("Add", cv.Add(s.pts[i], s.pts[j]), s.rpts[i].Add(s.rpts[j]))
			eq("Sub", cv.Sub(s.pts[i], s.pts[j]), s.rpts[i].Sub(s.rpts[j]))
			eq("Neg", cv.Neg(s.pts[i]), s.rpts[i].Neg())
			eq("Mult", cv.Mult(s.pts[i], k), s.rpts[i].Mul(k))
			if s.pts[i].Equal(s.pts[j]) != s.rpts[i].Eq(s.rpts[j]) {
				wrong("Equal(%d, %d)", i, j)
			}
			if b := s.pts[i].Bytes(); len(b) > 64 {
				wrong("Bytes")
			}
		case "commit":
			i, j := int(o.n(0))%6, int(o.n(1))%6
			v, rr := s.scal[i], s.scal[j]
			got := zk.PedCommitR(cv, v, rr)
			want := refzk.Commit(v, rr)
			if q, ok := F(got); !ok || !q.Eq(want) {
				wrong("PedCommitR")
			}
			if !zk.Open(cv, v, rr, got) {
				wrong("Open")
			}
			t := zk.CommitR(cv, s.pts[3], rr)
			if q, ok := F(t); !ok || !q.Eq(s.rpts[3].Mul(rr)) {
				wrong("CommitR")
			}
			if !zk.VerifyR(cv, t, s.pts[3], rr) {
				wrong("VerifyR")
			}
			c1 := zk.GenerateChallenge(cv, s.msg, s.hash)
			c2 := zk.GenerateChallenge(cv, append(append([]byte(nil), s.msg...), s.hash...))
			if c1.Cmp(c2) != 0 {
				wrong("GenerateChallenge")
			}
			var p zk.ECPoint
			var x *big.Int
			var err error
			with(ent, func() { p, x, err = zk.PedCommit(cv, v) })
			if err != nil || !zk.Open(cv, v, x, p) {
				wrong("PedCommit")
			}
		case "keygen":
			i := 1 + int(o.n(0))%4
			var p zk.ECPoint
			var k *big.Int
			with(ent, func() { p, k = zk.KeyGen(cv.C, s.pts[i]) })
			if q, ok := F(p); !ok || !q.Eq(s.rpts[i].Mul(k)) {
				wrong("public key is not secret key times base")
			}
			var nk *btcec.PrivateKey
			with(ent, func() { nk, _ = btcec.NewPrivateKey(cv.C) })
			if q, ok := refzk.FromXY(nk.X, nk.Y); !ok || !q.Eq(refzk.G.Mul(nk.D)) {
				wrong("private key does not match its public key")
			}
		case "ecies":
			var ct []byte
			var err error
			with(ent, func() { ct, err = btcec.Encrypt(s.pub, s.msg) })
			if err != nil {
				wrong("Encrypt: %v", err)
				break
			}
			for _, x := range [][]byte{ct, s.ct} {
				m, err := btcec.Decrypt(s.priv, x)
				if err != nil || !bytes.Equal(m, s.msg) {
					wrong("Decrypt: %v", err)
				}
			}
		case "ecdsa":
			sig, err := s.priv.Sign(s.hash)
			if err != nil || sig.R.Cmp(s.sig.R) != 0 || sig.S.Cmp(s.sig.S) != 0 {
				wrong("Sign gives another signature")
				break
			}
			if !s.sig.Verify(s.hash, s.pub) {
				wrong("signature does not verify")
			}
			if b := s.sig.Serialize(); !bytes.Equal(b, s.der) {
				wrong("Serialize")
			}
			ps, err := btcec.ParseDERSignature(s.der, btcec.S256())
			if err != nil || !ps.IsEqual(s.sig) {
				wrong("ParseDERSignature: %v", err)
			}
			pk, err := btcec.ParsePubKey(s.pkb, btcec.S256())
			if err != nil || !pk.IsEqual(s.pub) {
				wrong("ParsePubKey: %v", err)
			}
			cs, err := btcec.SignCompact(btcec.S256(), s.priv, s.hash, true)
			if err != nil || !bytes.Equal(cs, s.csig) {
				wrong("SignCompact: %v", err)
			}
			rk, comp, err := btcec.RecoverCompact(btcec.S256(), s.csig, s.hash)
			if err != nil || !comp || !rk.IsEqual(s.pub) {
				wrong("RecoverCompact: %v", err)
			}
		case "stream":
			w := &simWriter{failAt: -1, frag: int(o.n(0)), rng: R{s: r.u64()}}
			var want []byte
			for _, v := range s.vals {
				var err error
				switch v.kind { // nothing copied
				case "varint":
					err = wire.WriteVarInt(w, v.u)
				case "varbytes":
					err = wire.WriteVarBytes(w, v.b)
				case "point":
					err = zk.WriteECPoint(w, zk.ECPoint{X: v.p.X, Y: v.p.Y})
				case "int":
					err = zk.WriteBigInt(w, v.i)
				}
				if err != nil {
					wrong("write %s: %v", v, err)
				}
				want = append(want, v.enc()...)
			}
			if !bytes.Equal(w.got, want) {
				wrong("stream contents differ: %x, expected %x", head(w.got), head(want))
				break
			}
			rd := &simReader{b: want, limit: -1, frag: int(o.n(1)), zero: r.p(1, 3), rng: R{s: r.u64()}}
			for _, v := range s.vals {
				same, got, err := v.read(rd, uint32(len(v.b)))
				if err != nil || !same {
					wrong("read %s: %s %v", v, got, err)
					break
				}
			}
			c.fault("stream blocks half-way")
		case "rangeverify":
			if s.rng == nil {
				break
			}
			x := s.rng
			if o.n(0)%2 == 0 {
				y, err := zk.NewRangeProofFromBytes(s.rb)
				if err != nil {
					wrong("decoding: %v", err)
					break
				}
				x = y
			}
			comm, good := s.rcomm, true
			if o.n(1) == 0 {
				comm, good = s.pts[3], false
			}
			ok, err := x.Verify(cv, comm)
			if ok != good || (err == nil) != good {
				wrong("verdict (%v, %v), expected %v", ok, err, good)
			}
			simrt.Drain()
		case "rangeprove":
			v := s.scal[0]
			small := new(big.Int).And(new(big.Int).Abs(v), big.NewInt(1<<40-1))
			var p *zk.RangeProof
			var rr *big.Int
			var err error
			with(ent, func() { p, rr, err = zk.NewRangeProof(cv, small) })
			if err != nil {
				wrong("NewRangeProof: %v", err)
				break
			}
			q, _, err := refzk.Decode(refzk.Range, p.Bytes())
			if err != nil || !refzk.Verify(refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{refzk.Commit(small, rr)}}, q) {
				wrong("range proof is not valid (%v)", err)
			}
		}
	}
	c.fault("concurrent call on shared arguments")
	c.kase("%s %s %x", o.T, o.K, o.Seed)
}

func end09(run *Run, rec *Rec) {
	s, ok := run.state.(*shared09)
	if !ok {
		return
	}
	for _, w := range s.ints {
		if w.p.Cmp(w.v) != 0 {
			rec.viol("argument or parameter modified", "%s was %x and is %x", w.name, w.v, w.p)
			continue
		}
		b := w.p.Bits()
		b = b[:cap(b)]
		if len(b) != len(w.words) {
			rec.viol("argument or parameter modified", "%s was reallocated", w.name)
			continue
		}
		for i := range b {
			if b[i] != w.words[i] {
				rec.viol("argument or parameter modified", "%s: word %d changed", w.name, i)
				break
			}
		}
	}
	for _, w := range s.bufs {
		if !bytes.Equal(w.full, w.v) {
			k := 0
			for k < len(w.v) && w.full[k] == w.v[k] {
				k++
			}
			rec.viol("argument or parameter modified", "%s: byte %d of %d (80 of them behind the slice)", w.name, k, len(w.v))
		}
	}
	rec.probes["shared values watched"] += len(s.ints) + len(s.bufs)
}
