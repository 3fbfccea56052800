package main

import (
	"bytes"
	"fmt"
	"math/big"
	"syscall"

	zk "github.com/mit-dci/zksigma"

	"zkdst/refzk"
	"zkdst/simrt"
)

var cv zk.ZKPCurveParams

func setup() {
	cv = zk.TestCurve
	refzk.Init(cv.H.X, cv.H.Y)
	if !simrt.RaceBuild {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

// E converts a reference point for the library.
func E(p refzk.Point) zk.ECPoint { return zk.ECPoint{X: p.X(), Y: p.Y()} }

// F converts back; ok is false when the library's point is not in the group.
func F(p zk.ECPoint) (refzk.Point, bool) {
	if p.X == nil || p.Y == nil {
		return refzk.Ident, false
	}
	return refzk.FromXY(p.X, p.Y)
}

func cp(b *big.Int) *big.Int {
	if b == nil {
		return nil
	}
	return new(big.Int).Set(b)
}

// Wit is what an honest prover knows.
type Wit struct {
	X    *big.Int // dlog witness (gspfs, equiv, disj)
	Side int
	V, R *big.Int // value, blinding
	SK   *big.Int
	A, B *big.Int // inequality
	PA   [4]refzk.Point
}

// With aliasing, equal arguments of one call are one and the same number: a caller may well pass a point twice.
var aliasing bool

func shared() (func(refzk.Point) zk.ECPoint, func(*big.Int) *big.Int) {
	if !aliasing {
		return E, cp
	}
	have := map[string]*big.Int{}
	one := func(b *big.Int) *big.Int {
		if b == nil {
			return nil
		}
		k := b.Text(62)
		if have[k] == nil {
			have[k] = cp(b)
		}
		return have[k]
	}
	return func(p refzk.Point) zk.ECPoint { return zk.ECPoint{X: one(p.X()), Y: one(p.Y())} }, one
}

// prove calls the library's prover.
func prove(s refzk.Stmt, w *Wit) (interface{}, error) {
	E, cp := shared()
	switch s.Kind {
	case refzk.GSPFS:
		if s.P[0].Eq(refzk.G) && w.Side == 1 {
			p, err := zk.NewGSPFSProof(cv, E(s.P[1]), cp(w.X))
			return p, err
		}
		p, err := zk.NewGSPFSProofBase(cv, E(s.P[0]), E(s.P[1]), cp(w.X))
		return p, err
	case refzk.Equiv:
		p, err := zk.NewEquivalenceProof(cv, E(s.P[0]), E(s.P[1]), E(s.P[2]), E(s.P[3]), cp(w.X))
		return p, err
	case refzk.Disj:
		p, err := zk.NewDisjunctiveProof(cv, E(s.P[0]), E(s.P[1]), E(s.P[2]), E(s.P[3]), cp(w.X), zk.Side(w.Side))
		return p, err
	case refzk.Cons:
		p, err := zk.NewConsistencyProof(cv, E(s.P[0]), E(s.P[1]), E(s.P[2]), cp(w.V), cp(w.R))
		return p, err
	case refzk.ABC:
		p, err := zk.NewABCProof(cv, E(s.P[0]), E(s.P[1]), cp(w.V), cp(w.SK), zk.Side(w.Side))
		return p, err
	case refzk.Ineq:
		p, err := zk.NewInequalityProof(cv, E(w.PA[0]), E(w.PA[1]), E(w.PA[2]), E(w.PA[3]), cp(w.A), cp(w.B), cp(w.SK))
		return p, err
	}
	panic("prove " + s.Kind)
}

// verify calls the library's verifier for the statement. A caller that trusts either result is served: acceptance is
// "true" or "no error".
func verify(s refzk.Stmt, o interface{}) (bool, error) {
	E, _ := shared()
	switch p := o.(type) {
	case *zk.GSPFSProof:
		if p != nil && (p.Base.X == nil || p.Base.Y == nil || !(refzk.XY{X: p.Base.X, Y: p.Base.Y}).Eq(s.P[0].XY())) {
			// the base travels with the proof; a verifier compares it with the one it expects
			return false, fmt.Errorf("unexpected base")
		}
		return p.Verify(cv, E(s.P[1]))
	case *zk.EquivalenceProof:
		return p.Verify(cv, E(s.P[0]), E(s.P[1]), E(s.P[2]), E(s.P[3]))
	case *zk.DisjunctiveProof:
		return p.Verify(cv, E(s.P[0]), E(s.P[1]), E(s.P[2]), E(s.P[3]))
	case *zk.ConsistencyProof:
		return p.Verify(cv, E(s.P[0]), E(s.P[1]), E(s.P[2]))
	case *zk.ABCProof:
		if s.Kind == refzk.Ineq {
			return (*zk.InequalityProof)(p).Verify(cv, E(s.P[0]), E(s.P[1]))
		}
		return p.Verify(cv, E(s.P[0]), E(s.P[1]))
	case *zk.InequalityProof:
		return p.Verify(cv, E(s.P[0]), E(s.P[1]))
	case *zk.RangeProof:
		return p.Verify(cv, E(s.P[0]))
	}
	panic(fmt.Sprintf("verify %T", o))
}

func accepted(ok bool, err error) bool { return ok || err == nil }

func libBytes(o interface{}) []byte {
	switch p := o.(type) {
	case *zk.GSPFSProof:
		return p.Bytes()
	case *zk.EquivalenceProof:
		return p.Bytes()
	case *zk.DisjunctiveProof:
		return p.Bytes()
	case *zk.ConsistencyProof:
		return p.Bytes()
	case *zk.ABCProof:
		return p.Bytes()
	case *zk.InequalityProof:
		return (*zk.ABCProof)(p).Bytes()
	case *zk.RangeProof:
		return p.Bytes()
	}
	panic(fmt.Sprintf("bytes %T", o))
}

func libDecode(kind string, b []byte) (interface{}, error) {
	switch kind {
	case refzk.GSPFS:
		p, err := zk.NewGSPFSProofFromBytes(b)
		return p, err
	case refzk.Equiv:
		p, err := zk.NewEquivalenceProofFromBytes(b)
		return p, err
	case refzk.Disj:
		p, err := zk.NewDisjunctiveProofFromBytes(b)
		return p, err
	case refzk.Cons:
		p, err := zk.NewConsistencyProofFromBytes(b)
		return p, err
	case refzk.ABC, refzk.Ineq:
		p, err := zk.NewABCProofFromBytes(b)
		return p, err
	case refzk.Range:
		p, err := zk.NewRangeProofFromBytes(b)
		return p, err
	}
	panic("decode " + kind)
}

// verdict is what a verifier node concluded about received bytes.
type verdict struct {
	decErr  error
	ok      bool
	err     error
	pan     *pan
	stuck   int
	decoded interface{}
}

func (v verdict) accepted() bool {
	return v.decErr == nil && v.pan == nil && accepted(v.ok, v.err)
}

func (v verdict) String() string {
	switch {
	case v.pan != nil:
		return v.pan.String()
	case v.decErr != nil:
		return "decode error: " + v.decErr.Error()
	case v.accepted():
		return fmt.Sprintf("accepted (%v, %v)", v.ok, v.err)
	}
	return fmt.Sprintf("rejected (%v)", v.err)
}

func (v verdict) short() string {
	switch {
	case v.pan != nil:
		return "panic"
	case v.decErr != nil:
		return "undecodable"
	case v.accepted():
		return "accept"
	}
	return "reject"
}

// receive is a verifier node handling a message.
func receive(s refzk.Stmt, b []byte) (v verdict) {
	v.pan = guard(func() {
		o, err := libDecode(s.Kind, b)
		if err != nil {
			v.decErr = err
			return
		}
		v.decoded = o
		v.ok, v.err = verify(s, o)
	})
	v.stuck = simrt.Drain()
	return
}

// receiveReusing is a verifier node that reuses its receive buffer as soon as the message is decoded.
func receiveReusing(s refzk.Stmt, b []byte) (v verdict) {
	v.pan = guard(func() {
		o, err := libDecode(s.Kind, b)
		if err != nil {
			v.decErr = err
			return
		}
		for i := range b {
			b[i] = byte(i) ^ 0xa5
		}
		v.decoded = o
		v.ok, v.err = verify(s, o)
	})
	v.stuck = simrt.Drain()
	return
}

// judge verifies an in-memory proof.
func judge(s refzk.Stmt, o interface{}) (v verdict) {
	v.pan = guard(func() { v.ok, v.err = verify(s, o) })
	v.stuck = simrt.Drain()
	return
}

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
