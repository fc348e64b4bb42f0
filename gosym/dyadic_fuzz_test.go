package main

import (
	"math"
	"math/rand"
	"testing"
)

// TestDyadic compares the exact form of floats with Go's own arithmetic.
func TestDyadic(t *testing.T) {
	exact, total := 0, 0
	for seed := int64(0); seed < 6000; seed++ {
		rng := rand.New(rand.NewSource(seed))
		c := NewCtx()
		type fv struct {
			t *Term
			f func(e []int64) float64
		}
		type bv struct {
			t *Term
			f func(e []int64) int64
		}
		vars := []*Term{c.VarInt("a", 0, 30, nil), c.VarInt("b", -20, 40, nil), c.VarInt("c", -100000, 100000, nil)}
		var fs []fv
		var bs []bv
		for i := range vars {
			i := i
			fs = append(fs, fv{c.ItoF(vars[i], false), func(e []int64) float64 { return float64(e[i]) }})
		}
		for _, k := range []float64{0, 1, -1, 0.5, 100, 0.01, 3, 1.0 / 3, 1e-8, 0.25, -2.5, math.Inf(1), 1e9} {
			k := k
			fs = append(fs, fv{c.Float(math.Float64bits(k)), func([]int64) float64 { return k }})
		}
		rf := func() fv { return fs[rng.Intn(len(fs))] }
		b2i := func(b bool) int64 {
			if b {
				return 1
			}
			return 0
		}
		for s := 0; s < 25; s++ {
			x, y := rf(), rf()
			switch rng.Intn(12) {
			case 0, 1:
				fs = append(fs, fv{c.f2(OFAdd, x.t, y.t), func(e []int64) float64 { return x.f(e) + y.f(e) }})
			case 2:
				fs = append(fs, fv{c.f2(OFSub, x.t, y.t), func(e []int64) float64 { return x.f(e) - y.f(e) }})
			case 3, 4:
				fs = append(fs, fv{c.f2(OFMul, x.t, y.t), func(e []int64) float64 { return x.f(e) * y.f(e) }})
			case 5, 6:
				if y.t.isConst() && math.Float64frombits(y.t.n) != 0 {
					fs = append(fs, fv{c.f2(OFDiv, x.t, y.t), func(e []int64) float64 { return x.f(e) / y.f(e) }})
				}
			case 7:
				fs = append(fs, fv{c.f1(OFNeg, 0, x.t), func(e []int64) float64 { return -x.f(e) }})
			case 8:
				fs = append(fs, fv{c.f1(OFAbs, 0, x.t), func(e []int64) float64 { return math.Abs(x.f(e)) }})
			case 9:
				k := rng.Intn(4)
				g := []func(float64) float64{math.Round, math.Floor, math.Ceil, math.Trunc}[k]
				fs = append(fs, fv{c.f1(OFRound, uint64(k), x.t), func(e []int64) float64 { return g(x.f(e)) }})
				bs = append(bs, bv{c.FtoI(x.t), func(e []int64) int64 { return goFtoI(x.f(e)) }})
			default:
				op := []Op{OFLt, OFLe, OFEq}[rng.Intn(3)]
				r := c.fcmp(op, x.t, y.t)
				total++
				if !isFCmp(r) {
					exact++
				}
				bs = append(bs, bv{r, func(e []int64) int64 {
					p, q := x.f(e), y.f(e)
					return b2i(op == OFLt && p < q || op == OFLe && p <= q || op == OFEq && p == q)
				}})
			}
		}
		for k := 0; k < 20; k++ {
			e := []int64{rng.Int63n(31), rng.Int63n(61) - 20, rng.Int63n(200001) - 100000}
			c.SetModel(map[string]uint64{"a": uint64(e[0]), "b": uint64(e[1]), "c": uint64(e[2])})
			for i, v := range fs {
				got, want := math.Float64frombits(c.Eval(v.t)), v.f(e)
				if got != want && !(math.IsNaN(got) && math.IsNaN(want)) {
					t.Fatalf("seed %d float %d op %d: got %v want %v env %v", seed, i, v.t.op, got, want, e)
				}
			}
			for i, v := range bs {
				if got := int64(c.Eval(v.t)); got != v.f(e) {
					t.Fatalf("seed %d int %d op %d: got %d want %d env %v", seed, i, v.t.op, got, v.f(e), e)
				}
			}
		}
	}
	t.Logf("%d of %d comparisons in integer form", exact, total)
}
