// Command curvenode is a program that uses only the curve package: the very first use of the curve comes from several
// tasks at once. Same protocol as the node command.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"strings"

	crand "crypto/rand"

	"github.com/mit-dci/zksigma/btcec"

	"zkdst/refzk"
	"zkdst/simrt"
)

type Op struct {
	T    string `json:"t"`
	C    int    `json:"c"`
	Seed uint64 `json:"seed"`
}

type Plan struct {
	Prop    string           `json:"prop"`
	Seed    uint64           `json:"seed"`
	Policy  simrt.Policy     `json:"policy"`
	Decs    []simrt.Decision `json:"decs,omitempty"`
	Ops     []Op             `json:"ops"`
	Binary  string           `json:"binary,omitempty"`
	Expect  string           `json:"expect,omitempty"`
	Comment string           `json:"comment,omitempty"`
}

type Viol struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Op     int    `json:"op"`
}

type res struct {
	viols []Viol
	ops   int
	log   uint64
	texts []string
}

type rng struct{ s uint64 }

func (r *rng) u64() uint64 { r.s = simrt.Mix(r.s, 77); return r.s }
func (r *rng) n(k int) int { return int(r.u64() % uint64(k)) }
func (r *rng) scalar() *big.Int {
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(r.u64())
	}
	s := new(big.Int).SetBytes(b)
	s.Mod(s, refzk.N)
	if s.Sign() == 0 {
		s.SetInt64(1)
	}
	return s
}

type ent struct{}

func (ent) Read(p []byte) (int, error) {
	if len(p) == 1 {
		p[0] = 0
		return 1, nil
	}
	simrt.Yield()
	seed, ctr := next()
	for i := range p {
		if i%8 == 0 {
			ctr++
			seed = simrt.Mix(seed, ctr)
		}
		p[i] = byte(seed >> (8 * uint(i%8)))
	}
	return len(p), nil
}

//go:norace
func next() (uint64, uint64) {
	t := simrt.Cur()
	if t == nil {
		return 1, 1
	}
	t.Ctr += 1000
	return t.Seed, t.Ctr
}

var kinds = []string{"params", "basemult", "basemulth", "add", "sign", "parse", "encrypt", "newkey"}

func gen(prop string, seed uint64) *Plan {
	r := &rng{simrt.Mix(seed, 0xc0)}
	p := &Plan{Prop: prop, Seed: seed}
	p.Policy = simrt.Policy{Seed: r.u64(), Mode: 1 + r.n(3), MaxExp: []int{4, 8, 12, 16}[r.n(4)], Burst: 8 + r.n(30), MaxDecs: 6000}
	clients := 2 + r.n(4)
	n := clients + r.n(4)
	for i := 0; i < n; i++ {
		p.Ops = append(p.Ops, Op{T: kinds[r.n(len(kinds))], C: i % clients, Seed: r.u64()})
	}
	return p
}

// op returns what is wrong with the result.
func op(o Op) string {
	r := &rng{o.Seed}
	k := r.scalar()
	is := func(x, y *big.Int, want refzk.Point) string {
		if x == nil || y == nil {
			return "nil coordinate"
		}
		q, ok := refzk.FromXY(x, y)
		if !ok || !q.Eq(want) {
			return "wrong point"
		}
		return ""
	}
	c := btcec.S256()
	switch o.T {
	case "params":
		p := c.Params()
		if p.N == nil || p.N.Cmp(refzk.N) != 0 || p.P == nil || p.P.Cmp(refzk.P) != 0 || p.BitSize != 256 || c.QPlus1Div4() == nil {
			return "curve parameters are wrong"
		}
		return is(p.Gx, p.Gy, refzk.G)
	case "basemult":
		x, y := c.ScalarBaseMult(k.Bytes())
		return is(x, y, refzk.G.Mul(k))
	case "basemulth":
		x, y := c.ScalarBaseMultH(k.Bytes())
		x1, y1 := c.ScalarBaseMultH([]byte{1})
		h, ok := refzk.FromXY(x1, y1)
		if !ok {
			return "H is not a point"
		}
		return is(x, y, h.Mul(k))
	case "add":
		g := refzk.G.Mul(k)
		x, y := c.Add(g.X(), g.Y(), c.Gx, c.Gy)
		if s := is(x, y, g.Add(refzk.G)); s != "" {
			return s
		}
		x, y = c.ScalarMult(g.X(), g.Y(), k.Bytes())
		return is(x, y, g.Mul(k))
	case "sign":
		priv, pub := btcec.PrivKeyFromBytes(c, k.Bytes())
		h := r.scalar().Bytes()
		sig, err := priv.Sign(h)
		if err != nil || !sig.Verify(h, pub) {
			return fmt.Sprintf("signature does not verify (%v)", err)
		}
		return is(pub.X, pub.Y, refzk.G.Mul(k))
	case "parse":
		g := refzk.G.Mul(k)
		b := append([]byte{byte(2 + g.Y().Bit(0))}, g.X().FillBytes(make([]byte, 32))...)
		pk, err := btcec.ParsePubKey(b, c)
		if err != nil {
			return err.Error()
		}
		return is(pk.X, pk.Y, g)
	case "encrypt":
		priv, pub := btcec.PrivKeyFromBytes(c, k.Bytes())
		ct, err := btcec.Encrypt(pub, []byte("first use"))
		if err != nil {
			return err.Error()
		}
		m, err := btcec.Decrypt(priv, ct)
		if err != nil || string(m) != "first use" {
			return fmt.Sprintf("not decrypted (%v)", err)
		}
	case "newkey":
		pk, err := btcec.NewPrivateKey(c)
		if err != nil {
			return err.Error()
		}
		return is(pk.X, pk.Y, refzk.G.Mul(pk.D))
	}
	return ""
}

func where(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if i := strings.Index(l, "/github.com/mit-dci/zksigma/"); i >= 0 && strings.Contains(l, ".go:") {
			return strings.Fields(l[i+len("/github.com/mit-dci/zksigma/"):])[0]
		}
	}
	return ""
}

func main() {
	if len(os.Args) < 3 {
		os.Exit(4)
	}
	refzk.InitG()
	crand.Reader = ent{}
	var p *Plan
	switch os.Args[1] {
	case "run", "plan":
		var seed uint64
		fmt.Sscan(os.Args[3], &seed)
		p = gen(os.Args[2], seed)
		if os.Args[1] == "plan" {
			b, _ := json.Marshal(p)
			fmt.Printf("%s\n", b)
			return
		}
	default:
		b, err := os.ReadFile(os.Args[2])
		p = &Plan{}
		if err != nil || json.Unmarshal(b, p) != nil {
			os.Exit(4)
		}
	}
	nc := 1
	for _, o := range p.Ops {
		if o.C >= nc {
			nc = o.C + 1
		}
	}
	rs := make([]res, nc)
	rr := simrt.Run(p.Policy, p.Decs, p.Seed, func() {
		var ts []*simrt.Task
		for ci := 0; ci < nc; ci++ {
			ci := ci
			ts = append(ts, simrt.Spawn(fmt.Sprintf("client%d", ci), simrt.Mix(p.Seed, uint64(ci)), func() {
				for oi, o := range p.Ops {
					if o.C != ci {
						continue
					}
					bad, class := "", "first use gives a wrong result"
					func() {
						defer func() {
							if v := recover(); v != nil {
								bad, class = fmt.Sprintf("panic %v at %s", v, where(string(debug.Stack()))), "panic"
							}
						}()
						bad = op(o)
					}()
					if bad != "" {
						rs[ci].viols = append(rs[ci].viols, Viol{class, o.T + ": " + bad, oi})
					}
					rs[ci].ops++
					rs[ci].texts = append(rs[ci].texts, fmt.Sprintf("first use %s %x by client %d: %q", o.T, o.Seed, ci, bad))
				}
			}))
		}
		for _, t := range ts {
			simrt.Join(t)
		}
	})
	out := map[string]interface{}{"prop": p.Prop, "seed": p.Seed, "status": rr.Status.String(), "info": rr.Info, "steps": rr.Steps, "switches": rr.Switches,
		"ndecs": rr.Decs, "il": rr.Hash, "sites": rr.Sites, "tasks": rr.Tasks, "simns": rr.Clock, "faults": map[string]int{"concurrent first use of the curve": nc}, "probes": map[string]int{}}
	var viols []Viol
	var samples []string
	var cases []uint64
	ops := 0
	log := rr.Hash
	for _, r := range rs {
		viols = append(viols, r.viols...)
		ops += r.ops
		for _, t := range r.texts {
			h := uint64(14695981039346656037)
			for i := 0; i < len(t); i++ {
				h = (h ^ uint64(t[i])) * 1099511628211
			}
			cases = append(cases, h)
			log = simrt.Mix(log, h)
			if len(samples) < 2 {
				samples = append(samples, t)
			}
		}
	}
	if rr.Status != simrt.StatusOK {
		viols = append(viols, Viol{map[simrt.Status]string{simrt.StatusCrash: "crash"}[rr.Status] + map[bool]string{true: "", false: "hang"}[rr.Status == simrt.StatusCrash], rr.Info, -1})
	}
	if n := simrt.RaceErrors(); n > 0 {
		viols = append(viols, Viol{"race", fmt.Sprintf("%d data race report(s)", n), -1})
	}
	out["viols"], out["samples"], out["cases"], out["ops"], out["checks"], out["log"] = viols, samples, cases, ops, ops, log
	if len(viols) > 0 {
		out["plan"] = p
		if os.Args[1] == "replay" && !p.Policy.Explicit && p.Decs == nil {
			out["decs"] = simrt.Recorded()
		}
	}
	b, _ := json.Marshal(out)
	fmt.Printf("\nZKDST %s\n", b)
}
