package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Encoding into linear integer arithmetic, used for conditions whose terms
// cannot wrap (by interval analysis) and need no bit-level operation.

func linExact(t *Term) bool {
	lo, hi := big.NewInt(t.ci()), big.NewInt(t.ci())
	for _, l := range t.lin {
		c := big.NewInt(l.c)
		x, y := new(big.Int).Mul(c, big.NewInt(l.t.lo)), new(big.Int).Mul(c, big.NewInt(l.t.hi))
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return lo.IsInt64() && hi.IsInt64()
}

// needBV reports whether t cannot be written in linear integer arithmetic.
func needBV(t *Term) bool {
	switch t.nb {
	case 1:
		return false
	case 2:
		return true
	}
	r := needBV1(t)
	t.nb = 1
	if r {
		t.nb = 2
	}
	return r
}

func needBV1(t *Term) bool {
	if t.sort == SFloat {
		return true
	}
	posConst := func(x *Term) bool { return x.isConst() && x.ci() > 0 }
	switch t.op {
	case OConst, OVar:
		return false
	case OLin:
		if !linExact(t) {
			return true
		}
		for _, l := range t.lin {
			if needBV(l.t) {
				return true
			}
		}
		return false
	case OSDiv, OSRem:
		return !posConst(t.b) || needBV(t.a)
	case OUDiv, OURem:
		return !posConst(t.b) || t.a.lo < 0 || needBV(t.a)
	case OAnd:
		return !(t.b.isConst() && t.a.lo >= 0 && t.b.ci() > 0 && t.b.n&(t.b.n+1) == 0) || needBV(t.a)
	case OLshr, OAshr:
		return !(t.b.isConst() && t.a.lo >= 0 && t.b.ci() >= 0 && t.b.ci() < 62) || needBV(t.a)
	case OWrap:
		return int(t.n>>1) >= 64 || needBV(t.a)
	case OIte:
		return needBV(t.a) || needBV(t.b) || needBV(t.c)
	case OEqZ, OPos, ONot:
		return needBV(t.a)
	case OLt, OBAnd, OBOr:
		return needBV(t.a) || needBV(t.b)
	case OULt:
		return t.a.lo < 0 || t.b.lo < 0 || needBV(t.a) || needBV(t.b)
	}
	return true
}

func ilit(v int64) string {
	if v >= 0 {
		return strconv.FormatInt(v, 10)
	}
	return "(- " + new(big.Int).Neg(big.NewInt(v)).String() + ")"
}

func (s *Solver) iref(t *Term) string {
	if t.isg == s.gen && t.ismt != "" {
		return t.ismt
	}
	var e string
	switch t.op {
	case OConst:
		if t.sort == SBool {
			e = "false"
			if t.n != 0 {
				e = "true"
			}
		} else {
			e = ilit(t.ci())
		}
		t.ismt, t.isg = e, s.gen
		return e
	case OVar:
		nm := fmt.Sprintf("|%s.%d|", t.name, t.id)
		s.send("(declare-const " + nm + " Int)\n")
		t.ismt, t.isg = nm, s.gen
		return nm
	case OLin:
		parts := make([]string, 0, len(t.lin)+1)
		for _, l := range t.lin {
			x := s.iref(l.t)
			if l.c != 1 {
				x = "(* " + ilit(l.c) + " " + x + ")"
			}
			parts = append(parts, x)
		}
		if t.n != 0 {
			parts = append(parts, ilit(t.ci()))
		}
		e = parts[0]
		if len(parts) > 1 {
			e = "(+ " + strings.Join(parts, " ") + ")"
		}
	case OSDiv, OUDiv:
		a, b := s.iref(t.a), s.iref(t.b)
		e = "(div " + a + " " + b + ")"
		if t.a.lo < 0 {
			e = "(ite (>= " + a + " 0) " + e + " (- (div (- " + a + ") " + b + ")))"
		}
	case OSRem, OURem:
		a, b := s.iref(t.a), s.iref(t.b)
		e = "(mod " + a + " " + b + ")"
		if t.a.lo < 0 {
			e = "(ite (>= " + a + " 0) " + e + " (- (mod (- " + a + ") " + b + ")))"
		}
	case OAnd:
		e = "(mod " + s.iref(t.a) + " " + ilit(t.b.ci()+1) + ")"
	case OLshr, OAshr:
		e = "(div " + s.iref(t.a) + " " + ilit(int64(1)<<t.b.n) + ")"
	case OWrap:
		w := int(t.n >> 1)
		m := ilit(int64(1) << w)
		if t.n&1 == 1 {
			h := ilit(int64(1) << (w - 1))
			e = "(- (mod (+ " + s.iref(t.a) + " " + h + ") " + m + ") " + h + ")"
		} else {
			e = "(mod " + s.iref(t.a) + " " + m + ")"
		}
	case OIte:
		e = "(ite " + s.iref(t.a) + " " + s.iref(t.b) + " " + s.iref(t.c) + ")"
	case OEqZ:
		e = "(= " + s.iref(t.a) + " 0)"
	case OPos:
		e = "(> " + s.iref(t.a) + " 0)"
	case OLt, OULt:
		e = "(< " + s.iref(t.a) + " " + s.iref(t.b) + ")"
	case ONot:
		e = "(not " + s.iref(t.a) + ")"
	case OBAnd:
		e = "(and " + s.iref(t.a) + " " + s.iref(t.b) + ")"
	case OBOr:
		e = "(or " + s.iref(t.a) + " " + s.iref(t.b) + ")"
	default:
		panic(fmt.Sprintf("integer lowering of op %d", t.op))
	}
	nm := fmt.Sprintf("i%d", t.id)
	srt := "Int"
	if t.sort == SBool {
		srt = "Bool"
	}
	s.send("(define-fun " + nm + " () " + srt + " " + e + ")\n")
	s.nDefs++
	t.ismt, t.isg = nm, s.gen
	return nm
}

func (s *Solver) intRange(v *Term) {
	n := s.iref(v)
	if v.dom != nil {
		var b strings.Builder
		b.WriteString("(assert (or")
		for _, r := range v.dom.rs {
			if r[0] == r[1] {
				fmt.Fprintf(&b, " (= %s %s)", n, ilit(r[0]))
			} else {
				fmt.Fprintf(&b, " (<= %s %s %s)", ilit(r[0]), n, ilit(r[1]))
			}
		}
		b.WriteString(" false))\n")
		s.send(b.String())
		return
	}
	s.send(fmt.Sprintf("(assert (<= %s %s %s))\n", ilit(v.lo), n, ilit(v.hi)))
}
