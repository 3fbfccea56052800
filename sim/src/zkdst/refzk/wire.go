package refzk

import (
	"errors"
	"math/big"
)

// XY is a point as it travels: two integers, not necessarily on the curve.
type XY struct{ X, Y *big.Int }

func (p Point) XY() XY            { return XY{p.X(), p.Y()} }
func (a XY) Point() (Point, bool) { return FromXY(a.X, a.Y) }
func (a XY) Eq(b XY) bool         { return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0 }

var errShort = errors.New("refzk: short")
var errBad = errors.New("refzk: malformed")

// VarInt encodes a Bitcoin-style variable length integer.
func VarInt(n uint64) []byte {
	le := func(p byte, k int) []byte {
		b := []byte{p}
		for i := 0; i < k; i++ {
			b = append(b, byte(n>>(8*uint(i))))
		}
		return b
	}
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n < 1<<16:
		return le(0xfd, 2)
	case n < 1<<32:
		return le(0xfe, 4)
	}
	return le(0xff, 8)
}

// ReadVarInt returns the value and the bytes used.
func ReadVarInt(b []byte) (uint64, int, error) {
	if len(b) == 0 {
		return 0, 0, errShort
	}
	k := 0
	switch b[0] {
	case 0xfd:
		k = 2
	case 0xfe:
		k = 4
	case 0xff:
		k = 8
	default:
		return uint64(b[0]), 1, nil
	}
	if len(b) < 1+k {
		return 0, 0, errShort
	}
	var n uint64
	for i := 0; i < k; i++ {
		n |= uint64(b[1+i]) << (8 * uint(i))
	}
	if len(VarInt(n)) != 1+k {
		return 0, 0, errBad
	}
	return n, 1 + k, nil
}

func VarBytes(b []byte) []byte { return append(VarInt(uint64(len(b))), b...) }

func ReadVarBytes(b []byte) ([]byte, int, error) {
	n, k, err := ReadVarInt(b)
	if err != nil {
		return nil, 0, err
	}
	if n > uint64(len(b)-k) {
		return nil, 0, errShort
	}
	return b[k : k+int(n)], k + int(n), nil
}

func EncPoint(p XY) []byte { return append(VarBytes(p.X.Bytes()), VarBytes(p.Y.Bytes())...) }

func EncInt(i *big.Int) []byte {
	s := byte(0)
	if i.Sign() < 0 {
		s = 1
	}
	return VarBytes(append([]byte{s}, i.Bytes()...))
}

func DecPoint(b []byte) (XY, int, error) {
	x, k, err := ReadVarBytes(b)
	if err != nil {
		return XY{}, 0, err
	}
	y, m, err := ReadVarBytes(b[k:])
	if err != nil {
		return XY{}, 0, err
	}
	return XY{new(big.Int).SetBytes(x), new(big.Int).SetBytes(y)}, k + m, nil
}

func DecInt(b []byte) (*big.Int, int, error) {
	v, k, err := ReadVarBytes(b)
	if err != nil {
		return nil, 0, err
	}
	if len(v) == 0 {
		return nil, 0, errBad
	}
	n := new(big.Int).SetBytes(v[1:])
	if v[0] == 1 {
		n.Neg(n)
	}
	return n, k, nil
}

// Proof kinds.
const (
	GSPFS = "gspfs"
	Equiv = "equiv"
	Disj  = "disj"
	Cons  = "consist"
	ABC   = "abc"
	Ineq  = "ineq"
	Range = "range"
)

// Proof is any proof as it travels. Field order per kind:
//
//	gspfs   P: Base T          I: s c
//	equiv   P: T1 T2           I: c s
//	disj    P: T1 T2           I: c c1 c2 s1 s2
//	consist P: T1 T2           I: c s1 s2
//	abc     P: B C T1 T2 CTok  I: c j k l      Sub: disj
//	range   P: Agg C0..        I: E s0..
type Proof struct {
	Kind string
	P    []XY
	I    []*big.Int
	Sub  *Proof
}

func layout(kind string) string {
	switch kind {
	case GSPFS, Equiv:
		return "PPII"
	case Disj:
		return "PPIIIII"
	case Cons:
		return "PPIII"
	case ABC, Ineq:
		return "PPPPIIIIPD"
	case Range:
		return "PIR"
	}
	panic("kind " + kind)
}

// Spans lists where each field starts in the encoding (used to aim faults).
type Span struct {
	From, To int
	What     string
}

func (p *Proof) Encode() []byte { b, _ := p.EncodeSpans(); return b }

func (p *Proof) EncodeSpans() ([]byte, []Span) {
	var b []byte
	var sp []Span
	ip, ii := 0, 0
	put := func(what string, x []byte) {
		sp = append(sp, Span{len(b), len(b) + len(x), what})
		b = append(b, x...)
	}
	for _, c := range layout(p.Kind) {
		switch c {
		case 'P':
			put("point", EncPoint(p.P[ip]))
			ip++
		case 'I':
			put("int", EncInt(p.I[ii]))
			ii++
		case 'D':
			put("sub", VarBytes(p.Sub.Encode()))
		case 'R':
			put("count", VarInt(uint64(len(p.P)-1)))
			for ip < len(p.P) {
				put("point", EncPoint(p.P[ip]))
				put("int", EncInt(p.I[ii]))
				ip++
				ii++
			}
		}
	}
	return b, sp
}

// Decode is deliberately lenient (any coordinate or integer size); trailing bytes are ignored.
func Decode(kind string, b []byte) (*Proof, int, error) {
	p := &Proof{Kind: kind}
	off := 0
	pt := func() error {
		x, k, err := DecPoint(b[off:])
		off += k
		p.P = append(p.P, x)
		return err
	}
	in := func() error {
		x, k, err := DecInt(b[off:])
		off += k
		p.I = append(p.I, x)
		return err
	}
	for _, c := range layout(kind) {
		switch c {
		case 'P':
			if err := pt(); err != nil {
				return nil, 0, err
			}
		case 'I':
			if err := in(); err != nil {
				return nil, 0, err
			}
		case 'D':
			s, k, err := ReadVarBytes(b[off:])
			if err != nil {
				return nil, 0, err
			}
			off += k
			if p.Sub, _, err = Decode(Disj, s); err != nil {
				return nil, 0, err
			}
		case 'R':
			n, k, err := ReadVarInt(b[off:])
			if err != nil {
				return nil, 0, err
			}
			off += k
			if n > uint64(len(b)) {
				return nil, 0, errShort
			}
			for i := uint64(0); i < n; i++ {
				if err := pt(); err != nil {
					return nil, 0, err
				}
				if err := in(); err != nil {
					return nil, 0, err
				}
			}
		}
	}
	return p, off, nil
}

// Clone makes a deep enough copy for altering.
func (p *Proof) Clone() *Proof {
	q := &Proof{Kind: p.Kind}
	q.P = append([]XY(nil), p.P...)
	for _, i := range p.I {
		q.I = append(q.I, new(big.Int).Set(i))
	}
	if p.Sub != nil {
		q.Sub = p.Sub.Clone()
	}
	return q
}
