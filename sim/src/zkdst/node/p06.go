package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/wire"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C06: stream encoding is exact under fragmented and failing I/O.

func init() {
	scenarios["C06"] = &scenario{gen: gen06, op: op06, pan: true, hang: true}
}

var errIO = errors.New("simulated I/O failure")

// simWriter is a stream the library writes to. It yields (blocks) in the middle of a write and looks at the bytes
// only piece by piece, as a slow device would.
type simWriter struct {
	got    []byte
	failAt int // number of bytes accepted before the failure, -1 never
	frag   int
	rng    R
	err    error
	failed int
	calls  int
	once   bool // works again after the failure
	late   bool // the failing call takes all its bytes
}

func (w *simWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.failed > 0 && !w.once {
		w.failed++
		return 0, w.err
	}
	if w.failed > 0 {
		w.failAt = -1
	}
	if w.late && w.failAt >= 0 && len(w.got)+len(p) > w.failAt {
		w.got = append(w.got, p...)
		w.failed++
		return len(p), w.err
	}
	n := 0
	for n < len(p) {
		if w.failAt >= 0 && len(w.got) >= w.failAt {
			w.failed++
			return n, w.err
		}
		k := len(p) - n
		if w.frag > 0 {
			k = 1 + w.rng.n(w.frag)
		}
		if k > len(p)-n {
			k = len(p) - n
		}
		if w.failAt >= 0 && len(w.got)+k > w.failAt {
			k = w.failAt - len(w.got)
		}
		simrt.Yield()
		w.got = append(w.got, p[n:n+k]...)
		n += k
		simrt.Yield()
	}
	return n, nil
}

// simReader is a stream the library reads from.
type simReader struct {
	b      []byte
	off    int
	limit  int // data ends (EOF) or fails here, -1: at the end of b
	frag   int
	zero   bool // sometimes returns 0, nil
	with   bool // delivers the error together with the last bytes
	err    error
	rng    R
	failed int
	once   bool // works again after the failure
}

func (r *simReader) Read(p []byte) (int, error) {
	simrt.Yield()
	end := len(r.b)
	if r.limit >= 0 && r.limit < end {
		end = r.limit
	}
	fail := func() error {
		r.failed++
		if r.limit >= 0 {
			return r.err
		}
		return io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.off >= end {
		err := fail()
		if r.once && r.limit >= 0 {
			r.limit = -1
		}
		return 0, err
	}
	if r.zero && r.rng.p(1, 4) {
		return 0, nil
	}
	k := len(p)
	if r.frag > 0 {
		k = 1 + r.rng.n(r.frag)
	}
	if k > len(p) {
		k = len(p)
	}
	if k > end-r.off {
		k = end - r.off
	}
	for i := 0; i < k; i++ { // piecewise, with time passing in between
		p[i] = r.b[r.off+i]
		if i == k/2 {
			simrt.Yield()
		}
	}
	r.off += k
	if r.with && r.off >= end {
		return k, fail()
	}
	return k, nil
}

// value of the stream
type val struct {
	kind string // varint varbytes point int
	u    uint64
	b    []byte
	p    refzk.XY
	i    *big.Int
}

var varintEdges = []uint64{0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0x10001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 1 << 63, 1<<64 - 1}

func genVal(r *R) val {
	switch r.n(4) {
	case 0:
		u := varintEdges[r.n(len(varintEdges))]
		if r.p(1, 2) {
			u = r.u64() >> uint(r.n(64))
		}
		return val{kind: "varint", u: u}
	case 1:
		n := []int{0, 1, 2, 31, 32, 33, 251, 252, 253, 254, 255, 256, 300}[r.n(13)]
		switch r.n(20) {
		case 0:
			n = 65534 + r.n(4)
		case 1, 2, 3, 4, 5:
			n = r.n(600)
		}
		return val{kind: "varbytes", b: r.bytes(n)}
	case 2:
		var p refzk.Point
		switch r.n(6) {
		case 0:
			p = refzk.Ident
		case 1:
			p = refzk.G.Mul(big.NewInt(lzG[r.n(len(lzG))]))
		case 2:
			p = refzk.H.Mul(big.NewInt(lzH[r.n(len(lzH))]))
		default:
			p = liftPoint(r)
		}
		return val{kind: "point", p: p.XY()}
	}
	var i *big.Int
	switch r.n(8) {
	case 0:
		i = new(big.Int)
	case 1:
		i = big.NewInt(int64(r.n(5)) - 2)
	case 2:
		i = new(big.Int).SetBytes(r.bytes(1 + r.n(512)))
	case 3:
		i = new(big.Int).Lsh(big.NewInt(1), uint(r.n(600)))
	case 4:
		i = new(big.Int).SetBytes(r.bytes([]int{30, 31, 32, 33, 250, 251, 252, 253, 254, 255, 256, 1021, 1022, 1023}[r.n(14)]))
	default:
		i = edgeScalar(r)
	}
	if r.p(1, 3) {
		i = new(big.Int).Neg(i)
	}
	return val{kind: "int", i: i}
}

func (v val) String() string {
	switch v.kind {
	case "varint":
		return fmt.Sprintf("varint %d", v.u)
	case "varbytes":
		return fmt.Sprintf("%d bytes", len(v.b))
	case "point":
		return fmt.Sprintf("point %x,%x", v.p.X, v.p.Y)
	}
	return fmt.Sprintf("int %x", v.i)
}

func (v val) enc() []byte {
	switch v.kind {
	case "varint":
		return refzk.VarInt(v.u)
	case "varbytes":
		return refzk.VarBytes(v.b)
	case "point":
		return refzk.EncPoint(v.p)
	}
	return refzk.EncInt(v.i)
}

func (v val) write(w io.Writer) error {
	switch v.kind {
	case "varint":
		return wire.WriteVarInt(w, v.u)
	case "varbytes":
		return wire.WriteVarBytes(w, v.b)
	case "point":
		return zk.WriteECPoint(w, zk.ECPoint{X: cp(v.p.X), Y: cp(v.p.Y)})
	}
	return zk.WriteBigInt(w, cp(v.i))
}

// read reads a value of v's kind and reports whether it equals v.
func (v val) read(rd io.Reader, max uint32) (same bool, got string, err error) {
	switch v.kind {
	case "varint":
		u, err := wire.ReadVarInt(rd)
		return err == nil && u == v.u, fmt.Sprint(u), err
	case "varbytes":
		b, err := wire.ReadVarBytes(rd, max, "field")
		return err == nil && bytes.Equal(b, v.b), fmt.Sprintf("%d bytes %x", len(b), head(b)), err
	case "point":
		p, err := zk.ReadECPoint(rd)
		if err != nil {
			return false, "", err
		}
		if p.X == nil || p.Y == nil {
			return false, "nil coordinate", nil
		}
		return p.X.Cmp(v.p.X) == 0 && p.Y.Cmp(v.p.Y) == 0, fmt.Sprintf("%x,%x", p.X, p.Y), nil
	}
	i, err := zk.ReadBigInt(rd)
	if err != nil {
		return false, "", err
	}
	if i == nil {
		return false, "nil", nil
	}
	return i.Cmp(v.i) == 0, fmt.Sprintf("%x", i), nil
}

func gen06(r *R, tier string, p *Plan) {
	clients := 1 + r.n(4)
	n := 16 + r.n(24)
	for i := 0; i < n; i++ {
		o := Op{T: "stream", C: r.n(clients), Seed: r.u64()}
		o.A = r.pick([]string{"roundtrip", "roundtrip", "roundtrip", "wfail", "wfail", "rfail", "rfail", "eof", "max", "nonminimal", "proof"})
		o.N = []int64{int64(1 + r.n(8)), int64(r.n(6)), int64(r.n(6)), int64(r.n(4))}
		if i == 0 && r.p(1, 12) {
			o.A = "crowd"
		}
		p.Ops = append(p.Ops, o)
	}
}

// gated is a stream that blocks inside the call until the gate opens.
type gated struct {
	gate *simrt.Task
	got  []byte
	b    []byte
	off  int
	once bool
}

func (g *gated) wait() {
	if !g.once {
		g.once = true
		simrt.Join(g.gate)
	}
}

func (g *gated) Write(p []byte) (int, error) {
	k := len(p) / 2
	g.got = append(g.got, p[:k]...)
	g.wait()
	g.got = append(g.got, p[k:]...)
	return len(p), nil
}

func (g *gated) Read(p []byte) (int, error) {
	if g.off >= len(g.b) {
		return 0, io.EOF
	}
	g.wait()
	k := copy(p, g.b[g.off:])
	g.off += k
	return k, nil
}

// crowd06: very many streams block half-way at the same moment, so that every scratch buffer is in use.
func crowd06(c *Ctx, n int) {
	r := &c.rng
	crowd := []int{50, 300, 1023, 1024, 1025, 1100, 1500}[r.n(7)]
	for round := 0; round < 2; round++ {
		gate := c.spawn("gate", r.u64(), func(c *Ctx) { simrt.Sleep(1 << 30) })
		var hs []*helper
		for i := 0; i < crowd; i++ {
			u := varintEdges[r.n(len(varintEdges))]
			if r.p(1, 2) {
				u = r.u64() >> uint(r.n(64))
			}
			read := r.p(1, 2)
			hs = append(hs, c.spawn("stream", r.u64(), func(c *Ctx) {
				want := refzk.VarInt(u)
				g := &gated{gate: gate.t, b: want}
				if read {
					if v, err := wire.ReadVarInt(g); err != nil || v != u {
						c.viol("value not read back", "varint %d among %d blocked streams: got %d, error %v", u, crowd, v, err)
					}
				} else if err := wire.WriteVarInt(g, u); err != nil || !bytes.Equal(g.got, want) {
					c.viol("written bytes differ from the format", "varint %d among %d blocked streams: wrote %x, expected %x, error %v", u, crowd, g.got, want, err)
				}
			}))
		}
		c.join(gate)
		c.join(hs...)
		c.fault("crowd of blocked streams")
		c.kase("crowd %d round %d %x", crowd, round, c.Op.Seed)
	}
}

func op06(c *Ctx) {
	o := c.Op
	r := &c.rng
	n := int(o.n(0))
	if n < 1 {
		n = 1
	}
	fragR, fragW := int(o.n(1)), int(o.n(2))
	zero, withErr := o.n(3)&1 == 1, o.n(3)&2 == 2
	var vs []val
	var want []byte
	var at []int
	for i := 0; i < n; i++ {
		v := genVal(r)
		vs = append(vs, v)
		at = append(at, len(want))
		want = append(want, v.enc()...)
	}
	kind := errIO
	if r.p(1, 2) {
		kind = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite}[r.n(4)]
	}
	switch o.A {
	case "crowd":
		crowd06(c, n)
	case "roundtrip":
		w := &simWriter{failAt: -1, frag: fragW, rng: R{s: r.u64()}}
		for i, v := range vs {
			if err := v.write(w); err != nil {
				c.viol("write fails", "%s: %v", v, err)
				return
			}
			end := len(want)
			if i+1 < len(at) {
				end = at[i+1]
			}
			if !bytes.Equal(w.got, want[:end]) {
				c.viol("written bytes differ from the format", "%s: wrote %x, expected %x", v, head(w.got[min(at[i], len(w.got)):]), head(want[at[i]:end]))
				return
			}
			if v.kind == "varint" {
				if s := wire.VarIntSerializeSize(v.u); s != end-at[i] {
					c.viol("predicted size is wrong", "%s: predicted %d, is %d", v, s, end-at[i])
				}
			}
		}
		rd := &simReader{b: w.got, limit: -1, frag: fragR, zero: zero, with: withErr, rng: R{s: r.u64()}}
		if fragR > 0 {
			c.fault("fragmented read")
		}
		if fragW > 0 {
			c.fault("slow write")
		}
		if zero {
			c.fault("empty reads")
		}
		if withErr {
			c.fault("end of stream delivered with the data")
		}
		for i, v := range vs {
			same, got, err := v.read(rd, uint32(len(v.b)+r.n(3)))
			if err != nil || !same {
				c.viol("value not read back", "%s: got %s, error %v (fragment %d)", v, got, err, fragR)
				return
			}
			end := len(want)
			if i+1 < len(at) {
				end = at[i+1]
			}
			if rd.off != end {
				c.viol("reading consumes the wrong number of bytes", "%s: stream at %d, expected %d", v, rd.off, end)
				return
			}
			c.kase("roundtrip %s frag %d/%d zero %v with %v", v, fragR, fragW, zero, withErr)
		}
		for _, v := range vs { // nothing left
			if _, _, err := v.read(rd, 100); err == nil {
				c.viol("value read from an empty stream", "%s", v.kind)
			}
		}
	case "wfail":
		k := r.n(len(want))
		if r.p(1, 3) {
			k = at[r.n(len(at))] + r.n(2)
		}
		if k >= len(want) {
			k = len(want) - 1
		}
		w := &simWriter{failAt: k, frag: fragW, rng: R{s: r.u64()}, err: kind}
		switch r.n(4) {
		case 0:
			w.late = true
			c.fault("write error after the data")
		case 1, 2:
			w.once = true
			c.fault("transient write error")
		default:
			c.fault("write error")
		}
		for i, v := range vs {
			end := len(want)
			if i+1 < len(at) {
				end = at[i+1]
			}
			err := v.write(w)
			if !bytes.HasPrefix(want, w.got) {
				c.viol("failed write left wrong bytes", "%s, failing at %d: stream %x, expected a prefix of %x", v, k, head(w.got), head(want))
				return
			}
			if end <= k {
				if err != nil {
					c.viol("write fails", "%s: %v before the fault", v, err)
					return
				}
				continue
			}
			if err == nil {
				c.viol("write error not reported", "%s: stream accepted %d of %d bytes (fault at %d, %v)", v, len(w.got), end, k, kind)
			}
			c.kase("wfail %s at %d of %d frag %d %v", v, k-at[i], end-at[i], fragW, kind)
			break
		}
	case "rfail", "eof":
		k := r.n(len(want))
		if r.p(1, 3) {
			k = at[r.n(len(at))] + r.n(2)
		}
		if k >= len(want) {
			k = len(want) - 1
		}
		rd := &simReader{b: want, limit: k, frag: fragR, zero: zero, with: withErr, rng: R{s: r.u64()}, err: kind}
		if o.A == "eof" {
			rd.b, rd.limit = want[:k:k], -1
			c.fault("end of stream inside a value")
		} else {
			c.fault("read error")
			if !withErr && r.p(1, 2) {
				rd.once = true
				c.fault("transient read error")
			}
		}
		for i, v := range vs {
			end := len(want)
			if i+1 < len(at) {
				end = at[i+1]
			}
			same, got, err := v.read(rd, uint32(len(v.b)))
			if end <= k {
				if err != nil || !same {
					c.viol("value not read back", "%s: got %s, error %v (fragment %d)", v, got, err, fragR)
					return
				}
				continue
			}
			if err == nil {
				c.viol("read error not reported", "%s: got %s after %d of %d bytes (%s)", v, got, k-at[i], end-at[i], o.A)
			}
			c.kase("%s %s at %d of %d frag %d with %v %v", o.A, v, k-at[i], end-at[i], fragR, withErr, kind)
			break
		}
	case "max":
		for i := 0; i < n; i++ {
			l := []int{0, 1, 2, 32, 33, 252, 253, 254, 300, 1000}[r.n(10)]
			b := r.bytes(l)
			d := r.n(5) - 2
			max := l + d
			if max < 0 {
				max = 0
			}
			rd := &simReader{b: append(refzk.VarBytes(b), 7, 7), limit: -1, frag: fragR, zero: zero, rng: R{s: r.u64()}}
			got, err := wire.ReadVarBytes(rd, uint32(max), "field")
			if l > max && err == nil {
				c.viol("longer than the maximum accepted", "%d bytes, maximum %d, got %d", l, max, len(got))
			}
			if l <= max && (err != nil || !bytes.Equal(got, b)) {
				c.viol("value not read back", "%d bytes with maximum %d: %v", l, max, err)
			}
			c.kase("max %d of %d frag %d %d", max, l, fragR, r.s)
		}
	case "nonminimal":
		for i := 0; i < n; i++ {
			var b []byte
			u := r.u64()
			switch r.n(3) {
			case 0:
				u %= 0xfd
				if r.p(1, 3) {
					u = 0xfc
				}
				b = []byte{0xfd, byte(u), byte(u >> 8)}
			case 1:
				u %= 0x10000
				if r.p(1, 3) {
					u = 0xffff
				}
				b = []byte{0xfe, byte(u), byte(u >> 8), 0, 0}
			case 2:
				u %= 1 << 32
				if r.p(1, 3) {
					u = 1<<32 - 1
				}
				b = []byte{0xff, byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24), 0, 0, 0, 0}
			}
			rd := &simReader{b: append(b, make([]byte, 20)...), limit: -1, frag: fragR, zero: zero, rng: R{s: r.u64()}}
			c.fault("non-minimal length")
			if got, err := wire.ReadVarInt(rd); err == nil {
				c.viol("non-minimal integer accepted", "%x read as %d", b, got)
			}
			rd.off = 0
			if got, err := wire.ReadVarBytes(rd, 30, "field"); err == nil && u <= 30 {
				c.viol("non-minimal length accepted", "%x: %d bytes", b, len(got))
			}
			c.kase("nonminimal %x", b)
		}
	case "proof": // whole proofs: bytes are the documented format, decode and re-encode are inverse
		s, w := honest(r, proofKinds[r.n(len(proofKinds))])
		q := refProve(r, s, w)
		b := q.Encode()
		obj, err := libDecode(s.Kind, append([]byte(nil), b...))
		if err != nil {
			c.viol("proof of the documented format not decodable", "%s: %v", s.Kind, err)
			return
		}
		if got := libBytes(obj); !bytes.Equal(got, b) {
			c.viol("proof changes when decoded and encoded", "%s: %x became %x", s.Kind, head(b), head(got))
		}
		c.kase("proof %s %x", s.Kind, b[:16])
		if s.Kind != refzk.GSPFS {
			return
		}
		var rp *refzk.Proof
		bits := rangeBits(rangeValue(r), 1+r.n(40))
		rp, _, _ = refzk.ProveRange(len(bits), bits, r.nz, nil, nil)
		b = rp.Encode()
		obj, err = libDecode(refzk.Range, append([]byte(nil), b...))
		if err != nil {
			c.viol("proof of the documented format not decodable", "range with %d bits: %v", len(bits), err)
			return
		}
		if got := libBytes(obj); !bytes.Equal(got, b) {
			c.viol("proof changes when decoded and encoded", "range: %x became %x", head(b), head(got))
		}
		c.kase("proof range %x", b[:16])
	}
}
