package main

import (
	"math/rand"
	"testing"
)

// TestTermSimplifier compares simplified terms with plain evaluation.
func TestTermSimplifier(t *testing.T) {
	for seed := int64(0); seed < 4000; seed++ {
		rng := rand.New(rand.NewSource(seed))
		c := NewCtx()
		type tv struct {
			t *Term
			f func(env []int64) int64
		}
		dom := &Domain{name: "d", rs: [][2]int64{{0, 3}, {10, 20}, {30, 30}}}
		nv := 4
		vars := []*Term{c.VarInt("a", -3, 5, nil), c.VarInt("b", 0, 40, dom), c.VarInt("c", -100, 100, nil), c.VarInt("e", -1<<63, 1<<63-1, nil)}
		pick := func() []int64 {
			bs := []int64{0, 1, 2, 3, 10, 11, 20, 30}
			e := []int64{int64(rng.Uint64()), -1 << 63, 1<<63 - 1, int64(rng.Intn(10) - 5)}
			return []int64{int64(rng.Intn(9) - 3), bs[rng.Intn(len(bs))], int64(rng.Intn(201) - 100), e[rng.Intn(4)]}
		}
		var is, bs []tv
		for i := 0; i < nv; i++ {
			i := i
			is = append(is, tv{vars[i], func(e []int64) int64 { return e[i] }})
		}
		b2i := func(b bool) int64 {
			if b {
				return 1
			}
			return 0
		}
		for _, k := range []int64{0, 1, -1, 7, 2} {
			k := k
			is = append(is, tv{c.Int(k), func([]int64) int64 { return k }})
		}
		ri := func() tv { return is[rng.Intn(len(is))] }
		bs = append(bs, tv{c.True, func([]int64) int64 { return 1 }})
		rb := func() tv { return bs[rng.Intn(len(bs))] }
		for step := 0; step < 40; step++ {
			x, y := ri(), ri()
			p, q := rb(), rb()
			switch rng.Intn(22) {
			case 0, 1:
				is = append(is, tv{c.Add(x.t, y.t), func(e []int64) int64 { return x.f(e) + y.f(e) }})
			case 2, 3:
				is = append(is, tv{c.Sub(x.t, y.t), func(e []int64) int64 { return x.f(e) - y.f(e) }})
			case 4:
				is = append(is, tv{c.Mul(x.t, y.t), func(e []int64) int64 { return x.f(e) * y.f(e) }})
			case 5:
				k := int64(rng.Intn(9) + 1)
				is = append(is, tv{c.SDiv(x.t, c.Int(k)), func(e []int64) int64 { return x.f(e) / k }})
			case 6:
				k := int64(rng.Intn(9) + 1)
				is = append(is, tv{c.SRem(x.t, c.Int(k)), func(e []int64) int64 { return x.f(e) % k }})
			case 7:
				is = append(is, tv{c.And(x.t, y.t), func(e []int64) int64 { return x.f(e) & y.f(e) }})
			case 8:
				is = append(is, tv{c.Or(x.t, y.t), func(e []int64) int64 { return x.f(e) | y.f(e) }})
			case 9:
				is = append(is, tv{c.Xor(x.t, y.t), func(e []int64) int64 { return x.f(e) ^ y.f(e) }})
			case 10, 11:
				is = append(is, tv{c.Ite(p.t, x.t, y.t), func(e []int64) int64 {
					if p.f(e) != 0 {
						return x.f(e)
					}
					return y.f(e)
				}})
			case 12:
				w := []int{8, 16, 32}[rng.Intn(3)]
				s := rng.Intn(2) == 0
				is = append(is, tv{c.Wrap(x.t, w, s), func(e []int64) int64 { return int64(wrapConst(uint64(x.f(e)), w, s)) }})
			case 13, 14:
				bs = append(bs, tv{c.Lt(x.t, y.t), func(e []int64) int64 { return b2i(x.f(e) < y.f(e)) }})
			case 15:
				bs = append(bs, tv{c.Eq(x.t, y.t), func(e []int64) int64 { return b2i(x.f(e) == y.f(e)) }})
			case 16:
				bs = append(bs, tv{c.ULt(x.t, y.t), func(e []int64) int64 { return b2i(uint64(x.f(e)) < uint64(y.f(e))) }})
			case 17:
				bs = append(bs, tv{c.BAnd(p.t, q.t), func(e []int64) int64 { return p.f(e) & q.f(e) }})
			case 18:
				bs = append(bs, tv{c.BOr(p.t, q.t), func(e []int64) int64 { return p.f(e) | q.f(e) }})
			case 19:
				bs = append(bs, tv{c.Not(p.t), func(e []int64) int64 { return 1 - p.f(e) }})
			case 20:
				rs := [][2]int64{{0, 1}, {11, 15}, {30, 31}}
				bs = append(bs, tv{c.InRanges(x.t, rs), func(e []int64) int64 {
					v := x.f(e)
					return b2i(v >= 0 && v <= 1 || v >= 11 && v <= 15 || v == 30 || v == 31)
				}})
			case 21:
				bs = append(bs, tv{c.Eq(p.t, q.t), func(e []int64) int64 { return b2i(p.f(e) == q.f(e)) }})
			}
		}
		for k := 0; k < 12; k++ {
			e := pick()
			c.SetModel(map[string]uint64{"a": uint64(e[0]), "b": uint64(e[1]), "c": uint64(e[2]), "e": uint64(e[3])})
			for i, v := range append(append([]tv{}, is...), bs...) {
				got := int64(c.Eval(v.t))
				if got != v.f(e) {
					t.Fatalf("seed %d term %d %v: got %d want %d env %v", seed, i, v.t, got, v.f(e), e)
				}
				if v.t.sort == SInt && (got < v.t.lo || got > v.t.hi) {
					t.Fatalf("seed %d term %d: %d outside [%d,%d] op %d env %v", seed, i, got, v.t.lo, v.t.hi, v.t.op, e)
				}
			}
		}
	}
}
