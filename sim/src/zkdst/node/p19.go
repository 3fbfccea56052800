package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"

	"zkdst/refzk"
	"zkdst/simrt"
)

// C19: a whole ledger. Banks exchange hidden amounts over an ordering board, in the manner of zkLedger: every row carries,
// for every bank, a commitment, a token, a second commitment with its token, two consistency proofs, a range proof, a
// disjunctive proof and an encrypted note, and is signed. Every bank runs a node that decodes, verifies, logs, sums, crashes
// and recovers; some rows are attacks; auditors ask for balances, counts and comparisons.

func init() {
	scenarios["C19"] = &scenario{gen: gen19, pre: pre19, op: op19, post: post19, pan: true, hang: true}
}

type col19 struct {
	cm, tok, cmx, tokx     refzk.XY
	cons, consx, rng, disj []byte
	note                   []byte
}

type row19 struct {
	base uint64
	from uint64
	cols []col19
	sig  []byte
}

// truth is what the harness knows about a row it made.
type truth19 struct {
	kind  string // honest, or the attack
	false bool   // made without witnesses for what it claims
	vals  []*big.Int
	notes bool // the notes are readable and true
}

type bank19 struct {
	sk   *big.Int
	pk   refzk.Point
	sign *btcec.PrivateKey
	spub refzk.Point
	v0   *big.Int
	c0   refzk.Point
	t0   refzk.Point
}

// node19 is one bank's node.
type node19 struct {
	next   int // board rows processed
	height int // rows accepted
	s, st  []zk.ECPoint
	hist   [][2][]zk.ECPoint // sums at every height
	rows   []int             // accepted board rows
	own    []*big.Int        // this bank's amounts, from the notes
	log    []string          // verdicts
	disk   []byte
	synced int
	cut    int // deliveries still lost to a partition
	reads  int
}

type model19 struct {
	verdict []string
	hist    [][2][]refzk.Point
	bal     []*big.Int
	total   *big.Int
}

type led19 struct {
	n     int
	bits  int
	banks []*bank19
	nodes []*node19
	board [][]byte
	truth map[string]*truth19
	model model19
	calm  bool
}

var attacks19 = []string{"mint", "skew", "overdraft", "overdraft2", "steal", "token", "auxtoken", "replay", "resign", "splice", "swap", "flip", "negate", "badrange", "otherrange", "missing", "identity", "forge"}

func gen19(r *R, tier string, p *Plan) {
	banks := 2 + r.n(2)
	p.Extra["set"] = int64(r.u64() >> 1)
	p.Extra["bits"] = int64(4 + r.n(4))
	if r.p(1, 6) {
		p.Extra["bits"] = 40
	}
	n := 3 + r.n(5)
	for i := 0; i < n; i++ {
		o := Op{C: r.n(banks), Seed: r.u64()}
		switch k := r.n(12); {
		case k < 5:
			o.T = "pay"
		case k < 9:
			o.T, o.A = "attack", r.pick(attacks19)
		case k < 11:
			o.T, o.A = "audit", r.pick([]string{"balance", "balance", "count", "compare", "key", "stale"})
		default:
			o.T = "crash"
		}
		// value class, faults, entropy failure at
		o.N = []int64{int64(r.n(6)), int64(r.n(3)), int64(r.n(24))}
		if r.p(3, 4) {
			o.N[2] = -1
		}
		p.Ops = append(p.Ops, o)
	}
	for i := 0; i < banks; i++ { // every bank exists, whatever is minimised away
		p.Ops = append(p.Ops, Op{T: "sync", C: i, Seed: r.u64(), N: []int64{0, 0, -1}})
	}
}

func pre19(run *Run) {
	r := &R{s: uint64(run.plan.Extra["set"])}
	l := &led19{n: len(run.clients), bits: int(run.plan.Extra["bits"]), truth: map[string]*truth19{}}
	if l.n < 2 {
		l.n = 2
	}
	top := new(big.Int).Lsh(big.NewInt(1), uint(l.bits-2))
	var s, st []zk.ECPoint
	var rs, rst []refzk.Point
	l.model.total = new(big.Int)
	for i := 0; i < l.n; i++ {
		b := &bank19{sk: r.nz(), v0: new(big.Int).Mod(new(big.Int).SetBytes(r.bytes(8)), top)}
		if r.p(1, 6) {
			b.sk = edgeNZ(r)
		}
		b.pk = refzk.H.Mul(b.sk)
		for j := 0; j < i; j++ {
			if l.banks[j].pk.Eq(b.pk) {
				b.sk = r.nz()
				b.pk = refzk.H.Mul(b.sk)
			}
		}
		d := r.nz()
		b.sign, _ = btcec.PrivKeyFromBytes(btcec.S256(), d.Bytes())
		b.spub = refzk.G.Mul(d)
		r0 := r.nz()
		b.c0, b.t0 = refzk.Commit(b.v0, r0), b.pk.Mul(r0)
		l.banks = append(l.banks, b)
		s, st = append(s, zk.PedCommitR(cv, cp(b.v0), cp(r0))), append(st, zk.CommitR(cv, E(b.pk), cp(r0)))
		rs, rst = append(rs, b.c0), append(rst, b.t0)
		l.model.bal = append(l.model.bal, cp(b.v0))
		l.model.total.Add(l.model.total, b.v0)
	}
	l.model.hist = [][2][]refzk.Point{{rs, rst}}
	for i := 0; i < l.n; i++ {
		nd := &node19{}
		nd.genesis(s, st)
		l.nodes = append(l.nodes, nd)
	}
	run.state = l
}

func (nd *node19) genesis(s, st []zk.ECPoint) {
	nd.s, nd.st = append([]zk.ECPoint(nil), s...), append([]zk.ECPoint(nil), st...)
	nd.hist = [][2][]zk.ECPoint{{nd.s, nd.st}}
	nd.next, nd.height, nd.rows, nd.own, nd.log = 0, 0, nil, nil, nil
}

// ---- rows as bytes ----

func (w *row19) body() []byte {
	b := append(refzk.VarInt(w.base), refzk.VarInt(w.from)...)
	b = append(b, refzk.VarInt(uint64(len(w.cols)))...)
	for _, c := range w.cols {
		for _, p := range []refzk.XY{c.cm, c.tok, c.cmx, c.tokx} {
			b = append(b, refzk.EncPoint(p)...)
		}
		for _, x := range [][]byte{c.cons, c.consx, c.rng, c.disj, c.note} {
			b = append(b, refzk.VarBytes(x)...)
		}
	}
	return b
}

func (w *row19) bytes() []byte { return append(w.body(), refzk.VarBytes(w.sig)...) }

func refRow(b []byte) (w *row19, body int, err error) {
	w = &row19{}
	off := 0
	vi := func() (v uint64) {
		if err == nil {
			var k int
			v, k, err = refzk.ReadVarInt(b[off:])
			off += k
		}
		return
	}
	w.base, w.from = vi(), vi()
	n := vi()
	if err != nil || n > 16 {
		return nil, 0, fmt.Errorf("malformed row")
	}
	w.cols = make([]col19, n)
	for i := range w.cols {
		c := &w.cols[i]
		for _, p := range []*refzk.XY{&c.cm, &c.tok, &c.cmx, &c.tokx} {
			if err == nil {
				var k int
				*p, k, err = refzk.DecPoint(b[off:])
				off += k
			}
		}
		for _, x := range []*[]byte{&c.cons, &c.consx, &c.rng, &c.disj, &c.note} {
			if err == nil {
				var k int
				*x, k, err = refzk.ReadVarBytes(b[off:])
				off += k
			}
		}
	}
	body = off
	if err == nil {
		w.sig, _, err = refzk.ReadVarBytes(b[off:])
	}
	return w, body, err
}

// encode19 writes the row with the library's writers.
func (c *Ctx) encode19(w *row19) []byte {
	s := &simWriter{failAt: -1, frag: []int{0, 0, 40, 7}[c.rng.n(4)], rng: R{s: c.rng.u64()}}
	var err error
	vi := func(u uint64) {
		if err == nil {
			err = wire.WriteVarInt(s, u)
		}
	}
	vb := func(b []byte) {
		if err == nil {
			err = wire.WriteVarBytes(s, b)
		}
	}
	vi(w.base)
	vi(w.from)
	vi(uint64(len(w.cols)))
	for _, x := range w.cols {
		for _, p := range []refzk.XY{x.cm, x.tok, x.cmx, x.tokx} {
			if err == nil {
				err = zk.WriteECPoint(s, zk.ECPoint{X: cp(p.X), Y: cp(p.Y)})
			}
		}
		for _, b := range [][]byte{x.cons, x.consx, x.rng, x.disj, x.note} {
			vb(b)
		}
	}
	vb(w.sig)
	if err != nil || !eqBytes(s.got, w.bytes()) {
		c.viol("row encoded wrongly", "error %v, %d bytes for %d", err, len(s.got), len(w.bytes()))
	}
	return w.bytes()
}

// ---- the rule, in the reference ----

func (l *led19) refRule(b []byte, s, st []refzk.Point, height int) string {
	w, body, err := refRow(b)
	if err != nil {
		return "malformed"
	}
	if w.base != uint64(height) {
		return "stale"
	}
	if int(w.from) >= l.n || len(w.cols) != l.n {
		return "malformed"
	}
	h := sha256.Sum256(b[:body])
	ri, si, ok := derParse(w.sig)
	if !ok || !refzk.VerifySig(l.banks[w.from].spub, refzk.HashInt(h[:]), ri, si) {
		return "signature"
	}
	sum := refzk.Ident
	for j, c := range w.cols {
		pk := l.banks[j].pk
		var p [4]refzk.Point
		for i, x := range []refzk.XY{c.cm, c.tok, c.cmx, c.tokx} {
			if p[i], ok = x.Point(); !ok {
				return "point"
			}
		}
		sum = sum.Add(p[0])
		chk := func(st refzk.Stmt, b []byte) bool {
			q, _, err := refzk.Decode(st.Kind, b)
			return err == nil && refzk.Verify(st, q)
		}
		b1, r1 := s[j].Add(p[0]).Sub(p[2]), st[j].Add(p[1]).Sub(p[3])
		switch {
		case !chk(refzk.Stmt{Kind: refzk.Cons, P: []refzk.Point{p[0], p[1], pk}}, c.cons):
			return "consistency"
		case !chk(refzk.Stmt{Kind: refzk.Cons, P: []refzk.Point{p[2], p[3], pk}}, c.consx):
			return "consistency"
		case !chk(refzk.Stmt{Kind: refzk.Range, P: []refzk.Point{p[2]}}, c.rng):
			return "range"
		case r1.Eq(refzk.Ident):
			return "degenerate"
		case !chk(refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{b1, r1, refzk.H, p[0].Sub(p[2])}}, c.disj):
			return "disjunction"
		}
	}
	if !sum.Eq(refzk.Ident) {
		return "balance"
	}
	return "accept"
}

func derParse(b []byte) (r, s *big.Int, ok bool) {
	if len(b) < 8 || b[0] != 0x30 || int(b[1]) != len(b)-2 || b[2] != 2 {
		return
	}
	n := int(b[3])
	if n == 0 || 6+n >= len(b) || b[4+n] != 2 || int(b[5+n]) != len(b)-6-n || b[4]&0x80 != 0 || b[6+n]&0x80 != 0 {
		return
	}
	return new(big.Int).SetBytes(b[4 : 4+n]), new(big.Int).SetBytes(b[6+n:]), true
}

// catchUp extends the model over the board. A row that was altered may be refused by the library though the reference
// accepts it (trailing or unreduced numbers); then the first node decides and the others have to agree.
func (l *led19) verdict(c *Ctx, k int, got string) string {
	m := &l.model
	for len(m.verdict) <= k {
		i := len(m.verdict)
		h := m.hist[len(m.hist)-1]
		v := l.refRule(l.board[i], h[0], h[1], len(m.hist)-1)
		t := l.truth[string(l.board[i])]
		if v == "accept" && t.false {
			c.probe("attack is not one: " + t.kind)
		}
		if v == "accept" && t.kind != "honest" && i == k && got != "accept" {
			c.probe("altered row that still satisfies the equations refused: " + t.kind + " " + got)
			v = "refused"
		}
		m.verdict = append(m.verdict, v)
		if v == "accept" {
			l.apply(c, l.board[i], t)
		}
	}
	return m.verdict[k]
}

func (l *led19) apply(c *Ctx, b []byte, t *truth19) {
	m := &l.model
	w, _, _ := refRow(b)
	h := m.hist[len(m.hist)-1]
	var s, st []refzk.Point
	sum := new(big.Int)
	for j, x := range w.cols {
		p, _ := x.cm.Point()
		q, _ := x.tok.Point()
		s, st = append(s, h[0][j].Add(p)), append(st, h[1][j].Add(q))
		m.bal[j] = new(big.Int).Add(m.bal[j], t.vals[j])
		sum.Add(sum, m.bal[j])
		if m.bal[j].Sign() < 0 {
			c.viol("model: overdrawn", "%s bank %d: %v", t.kind, j, m.bal[j])
		}
	}
	if sum.Cmp(m.total) != 0 {
		c.viol("model: money made", "%s: %v of %v", t.kind, sum, m.total)
	}
	m.hist = append(m.hist, [2][]refzk.Point{s, st})
}

// ---- the rule, in a node: library code ----

type libCol19 struct {
	p    [4]zk.ECPoint
	note []byte
}

func (c *Ctx) nodeRule(l *led19, nd *node19, b []byte) (verdict string, cols []libCol19, from int) {
	r := &c.rng
	rd := &simReader{b: b, limit: -1, frag: []int{0, 0, 64, 5}[r.n(4)], with: r.p(1, 3), rng: R{s: r.u64()}}
	base, err := wire.ReadVarInt(rd)
	if err != nil {
		return "malformed", nil, 0
	}
	fr, err := wire.ReadVarInt(rd)
	if err != nil {
		return "malformed", nil, 0
	}
	n, err := wire.ReadVarInt(rd)
	if err != nil || n > 16 {
		return "malformed", nil, 0
	}
	raw := make([][5][]byte, n)
	cols = make([]libCol19, n)
	for i := range cols {
		for k := range cols[i].p {
			if cols[i].p[k], err = zk.ReadECPoint(rd); err != nil {
				return "malformed", nil, 0
			}
		}
		for k := range raw[i] {
			if raw[i][k], err = wire.ReadVarBytes(rd, 1<<20, "proof"); err != nil {
				return "malformed", nil, 0
			}
		}
		cols[i].note = raw[i][4]
	}
	body := rd.off
	sig, err := wire.ReadVarBytes(rd, 1000, "signature")
	if err != nil {
		return "malformed", nil, 0
	}
	if base != uint64(nd.height) {
		return "stale", nil, 0
	}
	if fr >= uint64(l.n) || len(cols) != l.n {
		return "malformed", nil, 0
	}
	from = int(fr)
	h := sha256.Sum256(b[:body])
	sg, err := btcec.ParseDERSignature(sig, btcec.S256())
	if err != nil {
		return "signature", nil, 0
	}
	q := l.banks[from].spub
	pub, err := btcec.ParsePubKey(append(append([]byte{4}, q.X().FillBytes(make([]byte, 32))...), q.Y().FillBytes(make([]byte, 32))...), btcec.S256())
	if err != nil {
		c.viol("signing key unreadable", "%v", err)
		return "signature", nil, 0
	}
	if !sg.Verify(h[:], pub) {
		return "signature", nil, 0
	}
	column := func(j int) string {
		p := cols[j].p
		pk := E(l.banks[j].pk)
		for _, x := range p {
			if !x.Equal(zk.Zero) && !cv.C.IsOnCurve(x.X, x.Y) {
				return "point"
			}
		}
		cons, err := zk.NewConsistencyProofFromBytes(raw[j][0])
		if err != nil {
			return "consistency"
		}
		consx, err := zk.NewConsistencyProofFromBytes(raw[j][1])
		if err != nil {
			return "consistency"
		}
		if !accepted(cons.Verify(cv, p[0], p[1], pk)) || !accepted(consx.Verify(cv, p[2], p[3], pk)) {
			return "consistency"
		}
		rp, err := zk.NewRangeProofFromBytes(raw[j][2])
		if err != nil || !accepted(rp.Verify(cv, p[2])) {
			return "range"
		}
		b1, r1 := cv.Sub(cv.Add(nd.s[j], p[0]), p[2]), cv.Sub(cv.Add(nd.st[j], p[1]), p[3])
		if r1.Equal(zk.Zero) {
			return "degenerate"
		}
		d, err := zk.NewDisjunctiveProofFromBytes(raw[j][3])
		if err != nil || !accepted(d.Verify(cv, b1, r1, cv.H, cv.Sub(p[0], p[2]))) {
			return "disjunction"
		}
		return ""
	}
	bad := make([]string, l.n)
	if r.p(1, 3) { // columns checked at the same time
		var hs []*helper
		for j := range cols {
			j := j
			hs = append(hs, c.spawn(fmt.Sprintf("col%d", j), r.u64(), func(cc *Ctx) {
				if pn := guard(func() { bad[j] = column(j) }); pn != nil {
					cc.viol("panic", "verifying a row: %s", pn)
					bad[j] = "panic"
				}
			}))
		}
		c.join(hs...)
		c.probe("columns verified concurrently")
	} else {
		for j := range cols {
			if bad[j] = column(j); bad[j] != "" {
				break
			}
		}
	}
	for _, v := range bad {
		if v != "" {
			return v, nil, 0
		}
	}
	sum := zk.Zero
	for j := range cols {
		sum = cv.Add(sum, cols[j].p[0])
	}
	if !sum.Equal(zk.Zero) {
		return "balance", nil, 0
	}
	return "accept", cols, from
}

// process is what a node does with the next row of the board.
func (l *led19) process(c *Ctx, i int) {
	nd := l.nodes[i]
	k := nd.next
	b := cpb(l.board[k])
	t := l.truth[string(l.board[k])]
	v, cols, _ := c.nodeRule(l, nd, b)
	simrt.Drain()
	want := l.verdict(c, k, v)
	c.kase("row %d %s at node %d: %s seed %x", k, t.kind, i, v, c.run.plan.Seed)
	switch {
	case v == "accept" && want != "accept":
		c.viol("invalid row accepted", "%s: reference says %s", t.kind, want)
	case v == "accept" && t.false:
		c.viol("false row accepted", "%s", t.kind)
	case v != "accept" && want == "accept" && t.kind == "honest":
		c.viol("honest row rejected", "%s", v)
	case v != "accept" && want == "accept":
		c.viol("nodes disagree", "row %d, %s: %s here, accepted elsewhere", k, t.kind, v)
	}
	nd.next++
	nd.log = append(nd.log, v)
	rec := append(refzk.VarInt(uint64(k)), map[bool]byte{true: 1}[v == "accept"])
	if v == "accept" && want == "accept" {
		nd.accept(c, l, i, k, cols, t)
	}
	rec = append(rec, refzk.VarBytes(b)...)
	nd.disk = append(nd.disk, rec...)
	if c.rng.p(1, 2) {
		nd.synced = len(nd.disk)
	}
}

func (nd *node19) accept(c *Ctx, l *led19, i, k int, cols []libCol19, t *truth19) {
	s, st := make([]zk.ECPoint, l.n), make([]zk.ECPoint, l.n)
	for j := range cols {
		s[j], st[j] = cv.Add(nd.s[j], cols[j].p[0]), cv.Add(nd.st[j], cols[j].p[1])
	}
	nd.s, nd.st = s, st
	nd.height++
	nd.hist = append(nd.hist, [2][]zk.ECPoint{s, st})
	nd.rows = append(nd.rows, k)
	m := l.model.hist[nd.height]
	for j := range s {
		p, ok1 := F(s[j])
		q, ok2 := F(st[j])
		if !ok1 || !ok2 || !p.Eq(m[0][j]) || !q.Eq(m[1][j]) {
			c.viol("node's sums differ", "node %d height %d bank %d", i, nd.height, j)
		}
	}
	// this bank's own amount
	val := t.vals[i]
	if t.notes {
		msg, err := btcec.Decrypt(l.banks[i].sign, cpb(cols[i].note))
		if err != nil || len(msg) != 9 {
			c.viol("note unreadable", "%v", err)
		} else {
			u := new(big.Int).SetUint64(binary.BigEndian.Uint64(msg[1:]))
			if msg[0] == 1 {
				u.Neg(u)
			}
			if u.Cmp(val) != 0 {
				c.viol("note read differently", "%v for %v", u, val)
			}
			// the amount is checked against the row: Tok = sk (CM - vG)
			if !cv.Mult(cv.Sub(cols[i].p[0], cv.Mult(cv.G, u)), cp(l.banks[i].sk)).Equal(cols[i].p[1]) {
				c.viol("amount of the note does not match its commitment", "%v", u)
			}
		}
	}
	nd.own = append(nd.own, cp(val))
}

// pump delivers what the board has, through the faults, and reports whether the node got to the end.
func (l *led19) pump(c *Ctx, i int, faults bool) bool {
	nd := l.nodes[i]
	r := &c.rng
	for nd.next < len(l.board) {
		if faults {
			if nd.cut > 0 {
				nd.cut--
				c.fault("partitioned node misses a delivery")
				return false
			}
			switch r.n(16) {
			case 0:
				c.fault("delivery lost")
				return false
			case 1:
				nd.cut = 1 + r.n(3)
				c.fault("partition")
			case 2:
				c.fault("corrupted delivery")
				l.corrupted(c, i)
			case 3:
				c.fault("crash before processing")
				l.crash(c, i)
				continue
			case 4:
				if nd.next > 0 {
					c.fault("duplicated delivery") // known by its number
				}
			case 5:
				if nd.next+1 < len(l.board) {
					c.fault("reordered delivery") // ahead of its turn: kept for later
				}
			}
		}
		l.process(c, i)
		if faults && r.p(1, 14) {
			c.fault("crash after processing")
			l.crash(c, i)
		}
		simrt.Yield()
	}
	return true
}

// corrupted: a damaged copy comes first; nothing is done with it but judging.
func (l *led19) corrupted(c *Ctx, i int) {
	nd := l.nodes[i]
	b, how := corrupt(&c.rng, l.board[nd.next], l.board[c.rng.n(len(l.board))])
	var v string
	if pn := guard(func() { v, _, _ = c.nodeRule(l, nd, b) }); pn != nil {
		c.viol("panic", "on a damaged row (%s): %s", how, pn)
		return
	}
	simrt.Drain()
	if v == "accept" {
		h := l.model.hist[nd.height]
		if w := l.refRule(b, h[0], h[1], nd.height); w != "accept" {
			c.viol("damaged row accepted", "%s: reference says %s", how, w)
		}
	}
}

// crash loses memory and an arbitrary part of what was not synced, then recovers from the log.
func (l *led19) crash(c *Ctx, i int) {
	nd := l.nodes[i]
	r := &c.rng
	nd.disk = nd.disk[:nd.synced+r.n(len(nd.disk)-nd.synced+1)]
	synced, disk := nd.synced, nd.disk
	cut := nd.cut
	*nd = node19{disk: disk, synced: synced, cut: cut}
	g := l.model.hist[0]
	var s, st []zk.ECPoint
	for j := range g[0] {
		s, st = append(s, E(g[0][j])), append(st, E(g[1][j]))
	}
	nd.genesis(s, st)
	rd := &simReader{b: disk, limit: -1, frag: []int{0, 1, 9, 64}[r.n(4)], with: r.p(1, 3), rng: R{s: r.u64()}}
	good := 0
	for {
		k, err := wire.ReadVarInt(rd)
		var flag [1]byte
		if err == nil {
			if _, e := readFull(rd, flag[:]); e != nil {
				err = e
			}
		}
		var b []byte
		if err == nil {
			b, err = wire.ReadVarBytes(rd, 1<<22, "row")
		}
		if err != nil {
			break
		}
		if int(k) != nd.next || int(k) >= len(l.board) || !eqBytes(b, l.board[k]) {
			c.viol("log record read back differently", "row %d", k)
			break
		}
		good = rd.off
		nd.next++
		if flag[0] == 0 {
			nd.log = append(nd.log, "refused before the crash")
			continue
		}
		nd.log = append(nd.log, "accept")
		w, _, err := refRow(b)
		if err != nil {
			break
		}
		cols := make([]libCol19, len(w.cols))
		in := &simReader{b: b, limit: -1, rng: R{s: r.u64()}}
		for n := 0; n < 3; n++ {
			wire.ReadVarInt(in)
		}
		for j := range cols {
			for x := range cols[j].p {
				cols[j].p[x], err = zk.ReadECPoint(in)
				if err != nil {
					c.viol("logged row unreadable", "%v", err)
					return
				}
			}
			for x := 0; x < 5; x++ {
				cols[j].note, err = wire.ReadVarBytes(in, 1<<20, "proof")
				if err != nil {
					c.viol("logged row unreadable", "%v", err)
					return
				}
			}
		}
		if nd.height+1 >= len(l.model.hist) {
			c.viol("log says more was accepted than was", "row %d", k)
			return
		}
		nd.accept(c, l, i, int(k), cols, l.truth[string(l.board[k])])
	}
	if good < synced {
		c.viol("durable record lost", "%d of %d bytes", good, synced)
	}
	if good < len(disk) {
		c.fault("torn log record")
	}
	nd.disk = nd.disk[:good]
	if nd.synced > good {
		nd.synced = good
	}
}

func readFull(rd *simReader, p []byte) (int, error) {
	n := 0
	for n < len(p) {
		k, err := rd.Read(p[n:])
		n += k
		if n == len(p) {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

// ---- banks ----

// build19 makes a row paying vals. lie may change what is claimed; it returns what makes the row an attack.
type lie19 struct {
	kind   string
	victim int
}

func (l *led19) build(c *Ctx, i int, vals []*big.Int, lie lie19, failAt int) (w *row19, err error) {
	nd := l.nodes[i]
	r := &c.rng
	bal := cp(l.banks[i].v0)
	for _, v := range nd.own {
		bal.Add(bal, v)
	}
	s, st, height := nd.s, nd.st, nd.height
	w = &row19{base: uint64(height), from: uint64(i)}
	blinds := make([]*big.Int, l.n)
	sum := new(big.Int)
	for j := range blinds {
		blinds[j] = r.nz()
		sum = refzk.AddM(sum, blinds[j])
	}
	if lie.kind != "skew" {
		last := r.n(l.n)
		blinds[last] = refzk.SubM(blinds[last], sum)
	}
	ent := func() *Ent {
		e := &Ent{Seed: r.u64(), FailAt: -1, Short: r.p(1, 8)}
		if failAt >= 0 {
			if failAt < 4 {
				e.FailAt = failAt
			}
			failAt -= 4
		}
		return e
	}
	// checked runs one of the library's provers under an entropy source that may fail
	run := func(f func() error) error {
		e := ent()
		var err error
		if pn := guard(func() { with(e, func() { err = f() }) }); pn != nil {
			simrt.Reseed(e.Seed, nil)
			c.viol("prover panics", "%s", pn)
			return fmt.Errorf("panic")
		}
		simrt.Drain()
		if e.Fired > 0 {
			c.fault("entropy failure while building a row")
			if err == nil {
				c.viol("entropy failure not reported", "building a row")
				return fmt.Errorf("unreported")
			}
			return err
		}
		return err
	}
	for j := 0; j < l.n; j++ {
		x := col19{}
		pk := E(l.banks[j].pk)
		v, b := vals[j], blinds[j]
		cm, tok := zk.PedCommitR(cv, cp(v), cp(b)), zk.CommitR(cv, pk, cp(b))
		if lie.kind == "token" && j == lie.victim {
			tok = zk.CommitR(cv, pk, refzk.AddM(b, big.NewInt(1+int64(r.n(5)))))
		}
		// the second commitment: the balance afterwards for the spender, the amount for the others
		aux := cp(v)
		if j == i {
			aux.Add(bal, v)
		}
		honestRange := aux.Sign() >= 0
		claim := aux
		if !honestRange { // what an overdrawn or robbing bank claims instead
			claim = big.NewInt(int64(r.n(4)))
		}
		var rng []byte
		var raux *big.Int
		if claim.BitLen() <= 40 && r.p(1, 10) && l.bits == 40 || r.p(1, 24) {
			var rp *zk.RangeProof
			if err = run(func() (e error) { rp, raux, e = zk.NewRangeProof(cv, cp(claim)); return }); err != nil {
				return nil, err
			}
			rng = rp.Bytes()
			c.probe("range proofs by the library")
		} else {
			nb := l.bits
			if claim.BitLen() > nb {
				nb = claim.BitLen()
			}
			if l.bits == 40 && r.p(3, 4) && claim.BitLen() < 38 {
				nb = claim.BitLen() + 1 + r.n(3)
			}
			if nb > 60 { // not reachable by honest amounts
				nb = 60
			}
			p, _, t := refzk.ProveRange(nb, rangeBits(claim, nb), r.nz, nil, nil)
			rng, raux = p.Encode(), t
		}
		cmx, tokx := zk.PedCommitR(cv, cp(claim), cp(raux)), zk.CommitR(cv, pk, cp(raux))
		if lie.kind == "overdraft2" && j == i {
			// the true, negative remainder; the range proof cannot match
			cmx = zk.PedCommitR(cv, cp(aux), cp(raux))
			if q, _, err := refzk.Decode(refzk.Range, rng); err == nil && r.p(1, 2) { // or only claims to
				p, _ := F(cmx)
				q.P[0] = p.XY()
				rng = q.Encode()
			}
		}
		if lie.kind == "auxtoken" && j == lie.victim {
			tokx = zk.CommitR(cv, pk, refzk.AddM(raux, big.NewInt(1+int64(r.n(5)))))
		}
		var cons, consx *zk.ConsistencyProof
		var disj *zk.DisjunctiveProof
		var e1 error
		e1 = run(func() (e error) { cons, e = zk.NewConsistencyProof(cv, cm, tok, pk, cp(v), cp(b)); return })
		if e1 != nil {
			cons = nil
		} else {
			cv0 := claim
			if lie.kind == "overdraft2" && j == i {
				cv0 = aux
			}
			e1 = run(func() (e error) { consx, e = zk.NewConsistencyProof(cv, cmx, tokx, pk, cp(cv0), cp(raux)); return })
			if e1 != nil {
				consx = nil
			}
		}
		b1, r1 := cv.Sub(cv.Add(s[j], cm), cmx), cv.Sub(cv.Add(st[j], tok), tokx)
		diff := cv.Sub(cm, cmx)
		rb1, _ := F(b1)
		rr1, _ := F(r1)
		rdf, _ := F(diff)
		rcm, _ := F(cm)
		rtok, _ := F(tok)
		rcmx, _ := F(cmx)
		rtokx, _ := F(tokx)
		rpk := l.banks[j].pk
		x.cm, x.tok, x.cmx, x.tokx = rcm.XY(), rtok.XY(), rcmx.XY(), rtokx.XY()
		if e1 == nil {
			side, wit := zk.Right, refzk.SubM(b, raux)
			if j == i {
				side, wit = zk.Left, l.banks[i].sk
			}
			e1 = run(func() (e error) { disj, e = zk.NewDisjunctiveProof(cv, b1, r1, cv.H, diff, cp(wit), side); return })
			if e1 != nil {
				disj = nil
			}
		}
		if e1 != nil {
			if lie.kind == "" {
				return nil, e1
			}
			// the library will not help: the attacker has his own prover
			if cons == nil {
				x.cons = lieCons(r, refzk.Stmt{Kind: refzk.Cons, P: []refzk.Point{rcm, rtok, rpk}}, v, b)
			}
			if consx == nil {
				x.consx = lieCons(r, refzk.Stmt{Kind: refzk.Cons, P: []refzk.Point{rcmx, rtokx, rpk}}, claim, raux)
			}
			if disj == nil {
				side, wit := 1, refzk.SubM(b, raux)
				if j == i || r.p(1, 3) {
					side, wit = 0, l.banks[i].sk
				}
				ds := refzk.Stmt{Kind: refzk.Disj, P: []refzk.Point{rb1, rr1, refzk.H, rdf}}
				q := refzk.ProveDisj(ds, side, wit, r.nz(), r.nz(), r.nz())
				if how := r.n(3); how > 0 { // both sides simulated
					q.I[1], q.I[2], q.I[3], q.I[4] = r.nz(), r.nz(), r.nz(), r.nz()
					if how == 2 { // after the challenge: only the hash is wrong
						q.I[0] = refzk.Hash(refzk.ChallengeElems(ds, q)[:4+r.n(2)]...)
						q.I[2] = refzk.SubM(q.I[0], q.I[1])
					}
					for k := 0; k < 2; k++ {
						q.P[k] = ds.P[2*k].Mul(q.I[3+k]).Sub(ds.P[2*k+1].Mul(q.I[1+k])).XY()
					}
					if how == 1 { // only the sum of the challenges is wrong
						q.I[0] = refzk.Hash(refzk.ChallengeElems(ds, q)...)
					}
				}
				x.disj = q.Encode()
			}
			c.fault("attacker's own prover")
		}
		if cons != nil {
			x.cons = cons.Bytes()
		}
		if consx != nil {
			x.consx = consx.Bytes()
		}
		if disj != nil {
			x.disj = disj.Bytes()
		}
		x.rng = rng
		msg := make([]byte, 9)
		binary.BigEndian.PutUint64(msg[1:], new(big.Int).Abs(v).Uint64())
		if v.Sign() < 0 {
			msg[0] = 1
		}
		to := &btcec.PublicKey{Curve: btcec.S256(), X: l.banks[j].spub.X(), Y: l.banks[j].spub.Y()}
		if err = run(func() (e error) { x.note, e = btcec.Encrypt(to, msg); return }); err != nil {
			return nil, err
		}
		w.cols = append(w.cols, x)
	}
	l.signRow(c, w, i)
	return w, nil
}

// lieCons proves a commitment consistent with a token that it is not consistent with.
func lieCons(r *R, s refzk.Stmt, v, b *big.Int) []byte {
	q := refzk.ProveCons(s, v, b, r.nz(), r.nz())
	if r.p(1, 2) { // the last element solved for after a challenge that leaves it out
		u1, u2 := r.nz(), r.nz()
		el := refzk.ChallengeElems(s, q)
		q.P[0] = refzk.Commit(u1, u2).XY()
		el[len(el)-2] = q.P[0]
		c := refzk.Hash(el[:len(el)-1]...)
		q.I = []*big.Int{c, refzk.AddM(u1, refzk.MulM(c, v)), refzk.AddM(u2, refzk.MulM(c, b))}
		q.P[1] = s.P[2].Mul(q.I[2]).Sub(s.P[1].Mul(c)).XY()
	}
	return q.Encode()
}

func (l *led19) signRow(c *Ctx, w *row19, by int) {
	h := sha256.Sum256(w.body())
	sg, err := l.banks[by].sign.Sign(h[:])
	if err != nil {
		c.viol("signing fails", "%v", err)
		return
	}
	w.sig = sg.Serialize()
}

func (l *led19) submit(b []byte, t *truth19) int {
	if old := l.truth[string(b)]; old == nil {
		l.truth[string(b)] = t
	}
	l.board = append(l.board, b)
	return len(l.board) - 1
}

func (l *led19) balance(i int) *big.Int {
	b := cp(l.banks[i].v0)
	for _, v := range l.nodes[i].own {
		b.Add(b, v)
	}
	return b
}

// amounts of a payment out of balance bal
func (l *led19) amounts(r *R, i, class int, bal *big.Int) []*big.Int {
	vals := make([]*big.Int, l.n)
	for j := range vals {
		vals[j] = new(big.Int)
	}
	left := cp(bal)
	pay := func(j int, v *big.Int) {
		vals[j].Add(vals[j], v)
		vals[i].Sub(vals[i], v)
		left.Sub(left, v)
	}
	some := func() *big.Int {
		if left.Sign() <= 0 {
			return new(big.Int)
		}
		return new(big.Int).Mod(new(big.Int).SetBytes(r.bytes(8)), new(big.Int).Add(left, big.NewInt(1)))
	}
	to := (i + 1 + r.n(l.n-1)) % l.n
	switch class {
	case 0:
		pay(to, cp(left)) // everything
	case 1: // nothing
	case 2:
		if left.Sign() > 0 {
			pay(to, big.NewInt(1))
		}
	default:
		pay(to, some())
		if class == 3 {
			pay((i+1+r.n(l.n-1))%l.n, some())
		}
	}
	return vals
}

// pay is an honest payment: built on the bank's own view, retried when another row came first.
func (l *led19) pay(c *Ctx, i int, class, failAt int, faults bool) bool {
	for try := 0; try < 6; try++ {
		l.pump(c, i, faults && try < 3)
		vals := l.amounts(&c.rng, i, class, l.balance(i))
		w, err := l.build(c, i, vals, lie19{}, failAt)
		if err != nil {
			if failAt < 0 {
				c.viol("honest row cannot be built", "%v", err)
				return false
			}
			failAt = -1
			continue
		}
		k := l.submit(c.encode19(w), &truth19{kind: "honest", vals: vals, notes: true})
		for n := 0; l.nodes[i].next <= k; n++ {
			l.pump(c, i, faults && n < 4)
		}
		if l.nodes[i].log[k] == "accept" {
			return true
		}
		c.probe("payment overtaken by another")
		failAt = -1
	}
	return false
}

func op19(c *Ctx) {
	l, _ := c.run.state.(*led19)
	if l == nil {
		return
	}
	o := c.Op
	i := o.C
	faults := o.n(1) > 0
	switch o.T {
	case "sync":
		l.pump(c, i, false)
	case "crash":
		l.crash(c, i)
		c.fault("crash")
		l.pump(c, i, true)
	case "pay":
		l.pay(c, i, int(o.n(0)), int(o.n(2)), faults)
	case "attack":
		l.attack(c, i, faults)
	case "audit":
		l.audit(c, i, faults)
	}
}

func (l *led19) attack(c *Ctx, i int, faults bool) {
	o := c.Op
	r := &c.rng
	l.pump(c, i, false)
	lie := lie19{kind: o.A, victim: (i + 1 + r.n(l.n-1)) % l.n}
	bal := l.balance(i)
	vals := l.amounts(r, i, int(o.n(0)), bal)
	t := &truth19{kind: o.A, false: true, vals: vals}
	one := big.NewInt(1 + int64(r.n(3)))
	switch o.A {
	case "mint":
		j := r.n(l.n)
		vals[j] = new(big.Int).Add(vals[j], one)
	case "overdraft", "overdraft2":
		over := new(big.Int).Add(bal, one)
		vals = make([]*big.Int, l.n)
		for j := range vals {
			vals[j] = new(big.Int)
		}
		vals[lie.victim] = over
		vals[i] = new(big.Int).Neg(over)
	case "steal":
		for j := range vals {
			vals[j] = new(big.Int)
		}
		vals[lie.victim] = new(big.Int).Neg(one)
		vals[i] = cp(one)
	case "replay":
		t.false = false // the original is honest; its time is over
		if nd := l.nodes[i]; len(nd.rows) > 0 {
			b := l.board[nd.rows[r.n(len(nd.rows))]]
			l.submit(cpb(b), t)
			c.fault("row replayed")
		}
		l.pump(c, i, faults)
		return
	case "resign": // an old row for the present height
		if nd := l.nodes[i]; len(nd.rows) > 0 {
			w, _, err := refRow(l.board[nd.rows[r.n(len(nd.rows))]])
			if err != nil {
				return
			}
			w.base = uint64(nd.height)
			if r.p(1, 2) {
				l.signRow(c, w, i)
				w.from = uint64(i)
				l.signRow(c, w, i)
			}
			c.fault("row replayed for another height")
			l.submit(w.bytes(), t)
		}
		l.pump(c, i, faults)
		return
	}
	t.vals = vals
	w, err := l.build(c, i, vals, lie, -1)
	if err != nil || w == nil {
		c.probe("attack could not be built: " + o.A)
		return
	}
	other := (lie.victim + 1 + r.n(l.n-1)) % l.n
	x, y := &w.cols[lie.victim], &w.cols[other]
	pick := func(b *[]byte, kind string) (*refzk.Proof, bool) {
		q, _, err := refzk.Decode(kind, *b)
		return q, err == nil
	}
	switch o.A {
	case "splice":
		// a part of an earlier accepted row, or of a row made for the same height
		var src *row19
		if nd := l.nodes[i]; len(nd.rows) > 0 && r.p(1, 2) {
			src, _, _ = refRow(l.board[nd.rows[r.n(len(nd.rows))]])
		} else {
			src, _ = l.build(c, i, l.amounts(r, i, 4, bal), lie19{}, -1)
		}
		if src == nil {
			return
		}
		z := src.cols[lie.victim]
		switch r.n(6) {
		case 0:
			x.cons = z.cons
		case 1:
			x.consx = z.consx
		case 2:
			x.rng = z.rng
		case 3:
			x.disj = z.disj
		case 4:
			x.cm, x.tok, x.cons = z.cm, z.tok, z.cons
		case 5:
			x.cmx, x.tokx, x.consx, x.rng = z.cmx, z.tokx, z.consx, z.rng
		}
	case "swap":
		switch r.n(7) {
		case 0:
			x.cons, y.cons = y.cons, x.cons
		case 1:
			x.disj, y.disj = y.disj, x.disj
		case 2:
			x.rng, y.rng = y.rng, x.rng
		case 3:
			x.cons, x.consx = x.consx, x.cons
		case 4:
			x.tok, y.tok = y.tok, x.tok
		case 5:
			x.cm, x.cmx, x.tok, x.tokx, x.cons, x.consx = x.cmx, x.cm, x.tokx, x.tok, x.consx, x.cons
		case 6:
			*x, *y = *y, *x
		}
	case "otherrange":
		x.rng = y.rng
	case "missing":
		switch r.n(5) {
		case 0:
			x.cons = nil
		case 1:
			x.consx = nil
		case 2:
			x.rng = []byte{}
		case 3:
			x.disj = nil
		case 4: // proofs of nothing
			q := &refzk.Proof{Kind: refzk.Range, P: []refzk.XY{x.cmx}, I: []*big.Int{refzk.Hash()}}
			x.rng = q.Encode()
		}
	case "identity":
		z := refzk.Ident.XY()
		switch r.n(4) {
		case 0:
			x.tok = z
		case 1:
			x.cmx, x.tokx = z, z
		case 2:
			x.tokx = z
		case 3:
			x.cm = z
		}
	case "negate":
		which := 1 + r.n(15)
		for k, p := range []*refzk.XY{&x.cm, &x.tok, &x.cmx, &x.tokx} {
			if q, ok := p.Point(); ok && which>>uint(k)&1 == 1 {
				*p = q.Neg().XY()
			}
		}
	case "badrange":
		if q, ok := pick(&x.rng, refzk.Range); ok {
			k := 1 + r.n(len(q.P)-1)
			how := r.n(4)
			if len(q.P) == 2 {
				how = 0
			}
			switch how {
			case 0:
				q.I[k] = refzk.AddM(q.I[k], one)
			case 1:
				q.P = append(q.P[:k], q.P[k+1:]...)
				q.I = append(q.I[:k], q.I[k+1:]...)
			case 2:
				m := 1 + r.n(len(q.P)-1)
				q.P[k], q.P[m] = q.P[m], q.P[k]
				if k == m {
					q.I[0] = refzk.AddM(q.I[0], one)
				}
			case 3:
				p, _ := q.P[k].Point()
				q.P[k] = p.Add(refzk.G).XY()
				p, _ = x.cmx.Point()
				x.cmx = p.Add(refzk.G).XY()
				q.P[0] = x.cmx
			}
			x.rng = q.Encode()
		}
	case "forge": // one of the other proofs with one number changed
		b, kind := &x.cons, refzk.Cons
		switch r.n(3) {
		case 1:
			b = &x.consx
		case 2:
			b, kind = &x.disj, refzk.Disj
		}
		if q, ok := pick(b, kind); ok {
			k := r.n(len(q.I))
			if r.p(1, 3) {
				m := r.n(len(q.P))
				p, _ := q.P[m].Point()
				q.P[m] = p.Neg().XY()
				if p.Eq(refzk.Ident) {
					q.I[k] = refzk.AddM(q.I[k], one)
				}
			} else {
				q.I[k] = refzk.AddM(q.I[k], one)
			}
			*b = q.Encode()
		}
	case "flip":
		t.false, t.notes = false, false
		b := w.body()
		before := cpb(b)
		for n := 1 + r.n(2); n > 0; n-- {
			b[r.n(len(b))] ^= 1 << uint(r.n(8))
		}
		h := sha256.Sum256(b)
		sg, err := l.banks[i].sign.Sign(h[:])
		if err != nil || eqBytes(b, before) {
			return
		}
		c.fault("row damaged before signing")
		l.submit(append(b, refzk.VarBytes(sg.Serialize())...), t)
		l.pump(c, i, faults)
		return
	}
	switch {
	case o.A != "skew" && o.A != "mint" && r.p(1, 12):
		l.signRow(c, w, lie.victim) // signed by the wrong bank
		w.sig[len(w.sig)-1] ^= 1
	default:
		l.signRow(c, w, i)
	}
	c.fault("attack: " + o.A)
	l.submit(w.bytes(), t)
	for n := 0; n < 3; n++ {
		if l.pump(c, i, faults) {
			break
		}
	}
}

// ---- audits ----

func (l *led19) audit(c *Ctx, i int, faults bool) {
	o := c.Op
	r := &c.rng
	a := (i + 1) % l.n // the auditor's node
	l.pump(c, i, faults)
	bk, me := l.banks[i], l.nodes[i]
	h := me.height
	if l.nodes[a].height < h {
		h = l.nodes[a].height
	}
	if h >= len(l.model.hist) {
		return
	}
	bal := cp(bk.v0)
	for _, v := range me.own[:h] {
		bal.Add(bal, v)
	}
	pk := E(bk.pk)
	ent := func() *Ent { return &Ent{Seed: r.u64(), FailAt: -1} }
	mine, ahist := me.hist[h], l.nodes[a].hist[:h+1]
	theirs := ahist[h]
	ms, mst := l.model.hist[h][0][i], l.model.hist[h][1][i]
	claim := func(v *big.Int) ([]byte, refzk.Stmt) { // the bank's side
		b2 := cv.Sub(mine[0][i], cv.Mult(cv.G, cp(v)))
		st := refzk.Stmt{Kind: refzk.Equiv, P: []refzk.Point{refzk.H, bk.pk, ms.Sub(refzk.G.Mul(refzk.Mod(v))), mst}}
		var p *zk.EquivalenceProof
		var err error
		with(ent(), func() { p, err = zk.NewEquivalenceProof(cv, cv.H, pk, b2, mine[1][i], cp(bk.sk)) })
		if err != nil || p == nil {
			q := refzk.ProveEquiv(st, bk.sk, r.nz())
			if r.p(1, 2) { // the last element solved for after a challenge that leaves it out
				u := r.nz()
				q.P[0] = st.P[0].Mul(u).XY()
				c := refzk.Hash(st.P[0].XY(), st.P[1].XY(), st.P[2].XY(), st.P[3].XY(), q.P[0])
				q.I = []*big.Int{c, refzk.AddM(u, refzk.MulM(c, bk.sk))}
				q.P[1] = st.P[2].Mul(q.I[1]).Sub(st.P[3].Mul(c)).XY()
			}
			return q.Encode(), st
		}
		return p.Bytes(), st
	}
	check := func(b []byte, v *big.Int, at [2][]zk.ECPoint) bool { // the auditor's side
		p, err := zk.NewEquivalenceProofFromBytes(b)
		if err != nil {
			return false
		}
		return accepted(p.Verify(cv, cv.H, pk, cv.Sub(at[0][i], cv.Mult(cv.G, cp(v))), at[1][i]))
	}
	c.kase("audit %s bank %d height %d seed %x", o.A, i, h, o.Seed)
	switch o.A {
	case "balance", "stale":
		b, _ := claim(bal)
		if !check(b, bal, theirs) {
			c.viol("audit of the true balance fails", "bank %d height %d", i, h)
		}
		for n := 0; n < 2; n++ {
			v := []*big.Int{new(big.Int).Add(bal, big.NewInt(1)), new(big.Int).Sub(bal, big.NewInt(1)), new(big.Int).Neg(bal), new(big.Int).Xor(bal, big.NewInt(8)), new(big.Int)}[r.n(5)]
			if v.Cmp(bal) == 0 {
				continue
			}
			c.fault("audit of a wrong balance")
			b2 := b
			if r.p(2, 3) {
				b2, _ = claim(v)
			}
			if check(b2, v, theirs) {
				c.viol("audit of a wrong balance succeeds", "bank %d: %v for %v", i, v, bal)
			}
		}
		if d, how := corrupt(r, b, b); !eqBytes(d, b) && check(d, bal, theirs) {
			q, _, err := refzk.Decode(refzk.Equiv, d)
			_, st := claim(bal)
			if err != nil || !refzk.Verify(st, q) {
				c.viol("damaged audit accepted", "%s", how)
			}
		}
		// the same answer for another height or another bank
		if g := r.n(h + 1); !l.model.hist[g][0][i].Eq(ms) && check(b, bal, ahist[g]) {
			c.viol("audit accepted for another height", "%d for %d", g, h)
		}
		if check(b, bal, [2][]zk.ECPoint{rot(theirs[0]), rot(theirs[1])}) {
			c.viol("audit accepted for another bank", "bank %d", i)
		}
	case "count":
		// how many of the last rows moved money of this bank
		from := h - 3
		if from < 0 {
			from = 0
		}
		sumC, sumT := zk.Zero, zk.Zero
		n := int64(0)
		for k := from; k < h; k++ {
			v := me.own[k]
			cm, tok := cv.Sub(mine0(me.hist, k+1, i, 0), mine0(me.hist, k, i, 0)), cv.Sub(mine0(me.hist, k+1, i, 1), mine0(me.hist, k, i, 1))
			side := zk.Right
			if v.Sign() == 0 {
				side = zk.Left
			} else {
				n++
			}
			var p *zk.ABCProof
			var err error
			with(ent(), func() { p, err = zk.NewABCProof(cv, cm, tok, cp(v), cp(bk.sk), side) })
			if err != nil {
				c.viol("count proof cannot be made", "%v", err)
				return
			}
			q, err := zk.NewABCProofFromBytes(p.Bytes())
			ocm := cv.Sub(mine0(ahist, k+1, i, 0), mine0(ahist, k, i, 0))
			otok := cv.Sub(mine0(ahist, k+1, i, 1), mine0(ahist, k, i, 1))
			if err != nil || !accepted(q.Verify(cv, ocm, otok)) {
				c.viol("count proof of an honest bank rejected", "row %d", k)
				return
			}
			// with the other answer
			if r.p(1, 2) {
				with(ent(), func() { p, err = zk.NewABCProof(cv, cm, tok, cp(v), cp(bk.sk), 1-side) })
				if err == nil && p != nil {
					c.viol("prover claims the other count", "row %d", k)
				}
				if k > from && accepted(q.Verify(cv, cv.Sub(mine0(me.hist, k, i, 0), mine0(me.hist, k-1, i, 0)), cv.Sub(mine0(me.hist, k, i, 1), mine0(me.hist, k-1, i, 1)))) {
					c.viol("count proof accepted for another row", "row %d", k)
				}
			}
			sumC, sumT = cv.Add(sumC, q.C), cv.Add(sumT, q.CToken)
		}
		if h > from {
			for d := int64(-1); d <= 1; d++ {
				var p *zk.EquivalenceProof
				var err error
				b2 := cv.Sub(sumC, cv.Mult(cv.G, big.NewInt(n+d)))
				with(ent(), func() { p, err = zk.NewEquivalenceProof(cv, cv.H, pk, b2, sumT, cp(bk.sk)) })
				ok := err == nil && accepted(p.Verify(cv, cv.H, pk, b2, sumT))
				if ok != (d == 0) {
					c.viol("count audit wrong", "%d claimed for %d: %v", n+d, n, ok)
				}
			}
		}
	case "compare":
		if h < 2 {
			return
		}
		x, y := r.n(h), r.n(h)
		at := func(hist [][2][]zk.ECPoint, k, w int) zk.ECPoint {
			return cv.Sub(mine0(hist, k+1, i, w), mine0(hist, k, i, w))
		}
		va, vb := me.own[x], me.own[y]
		var p *zk.InequalityProof
		var err error
		with(ent(), func() {
			p, err = zk.NewInequalityProof(cv, at(me.hist, x, 0), at(me.hist, y, 0), at(me.hist, x, 1), at(me.hist, y, 1), cp(va), cp(vb), cp(bk.sk))
		})
		differ := va.Cmp(vb) != 0
		if err == nil != differ {
			c.viol("comparison prover wrong", "%v and %v: %v", va, vb, err)
			return
		}
		cm, tok := cv.Sub(at(ahist, x, 0), at(ahist, y, 0)), cv.Sub(at(ahist, x, 1), at(ahist, y, 1))
		if differ {
			q, err := zk.NewABCProofFromBytes((*zk.ABCProof)(p).Bytes())
			if err != nil || !accepted((*zk.InequalityProof)(q).Verify(cv, cm, tok)) {
				c.viol("comparison of different amounts rejected", "%v and %v", va, vb)
			}
		} else if x != y {
			rcm, _ := F(cm)
			rtok, _ := F(tok)
			f := refzk.ProveABC(refzk.Stmt{Kind: refzk.ABC, P: []refzk.Point{rcm, rtok}}, refzk.ABC, new(big.Int), bk.sk, abcNonces(r))
			q, err := zk.NewABCProofFromBytes(f.Encode())
			c.fault("comparison of equal amounts")
			if err == nil && accepted((*zk.InequalityProof)(q).Verify(cv, cm, tok)) {
				c.viol("comparison of equal amounts accepted", "%v", va)
			}
		}
	case "key":
		var p *zk.GSPFSProof
		var err error
		with(ent(), func() { p, err = zk.NewGSPFSProofBase(cv, cv.H, pk, cp(bk.sk)) })
		if err != nil {
			c.viol("key proof cannot be made", "%v", err)
			return
		}
		q, err := zk.NewGSPFSProofFromBytes(p.Bytes())
		if err != nil || !q.Base.Equal(cv.H) || !accepted(q.Verify(cv, pk)) {
			c.viol("key proof of an honest bank rejected", "bank %d", i)
			return
		}
		c.fault("key proof presented for another key")
		for _, k := range []refzk.Point{l.banks[a].pk, bk.pk.Neg(), bk.pk.Mul(lambda), bk.pk.Add(refzk.H), refzk.Ident} {
			if accepted(q.Verify(cv, E(k))) {
				c.viol("key proof accepted for another key", "bank %d", i)
			}
		}
	}
}

func rot(p []zk.ECPoint) []zk.ECPoint { return append(append([]zk.ECPoint(nil), p[1:]...), p[0]) }

func mine0(hist [][2][]zk.ECPoint, h, i, w int) zk.ECPoint { return hist[h][w][i] }

// ---- when the faults have stopped ----

func post19(run *Run) {
	l, _ := run.state.(*led19)
	if l == nil {
		return
	}
	c := &Ctx{Rec: run.root, Op: &Op{}, rng: R{s: simrt.Mix(run.plan.Seed, 19)}, run: run}
	settle := func() {
		var hs []*helper
		for i := range l.nodes {
			i := i
			hs = append(hs, c.spawn(fmt.Sprintf("node%d", i), c.rng.u64(), func(cc *Ctx) { l.pump(cc, i, false) }))
		}
		c.join(hs...)
	}
	settle()
	for i := range l.nodes { // progress: an honest payment by each bank goes through at once
		n := len(l.board)
		if !l.pay(c, i, 4, -1, false) {
			c.viol("no progress after the faults stopped", "bank %d", i)
			return
		}
		if len(l.board) != n+1 {
			c.viol("no progress after the faults stopped", "bank %d needed %d rows", i, len(l.board)-n)
		}
		settle()
	}
	for i, nd := range l.nodes {
		if nd.next != len(l.board) {
			c.viol("no progress after the faults stopped", "node %d at row %d of %d", i, nd.next, len(l.board))
			return
		}
		for k, v := range nd.log {
			if (v == "accept") != (l.model.verdict[k] == "accept") {
				c.viol("nodes disagree", "node %d row %d: %s, %s", i, k, v, l.model.verdict[k])
			}
		}
		if l.balance(i).Cmp(l.model.bal[i]) != 0 {
			c.viol("bank's view of its balance differs", "bank %d: %v for %v", i, l.balance(i), l.model.bal[i])
		}
		for j := range nd.s {
			if !nd.s[j].Equal(l.nodes[0].s[j]) || !nd.st[j].Equal(l.nodes[0].st[j]) {
				c.viol("nodes disagree", "sums of node %d for bank %d", i, j)
			}
		}
	}
	for i := range l.nodes {
		for _, k := range []string{"balance", "count", "compare", "key"} {
			if k == "balance" || c.rng.p(1, 2) {
				c.Op = &Op{T: "audit", A: k, N: []int64{0, 0, -1}}
				l.audit(c, i, false)
			}
		}
	}
	c.probes["rows on the board"] += len(l.board)
	c.probes["rows accepted"] += len(l.model.hist) - 1
}
