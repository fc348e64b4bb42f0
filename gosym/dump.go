package main

import (
	"fmt"
	"strings"
)

var opNames = map[Op]string{OLin: "lin", OIte: "ite", OEqZ: "=0", OPos: ">0", OLt: "<", OULt: "u<", ONot: "not", OBAnd: "and", OBOr: "or", OAnd: "&", OOr: "|", OWrap: "wrap"}

// dump writes a term out, for debugging.
func dump(t *Term, depth int) string {
	if t == nil {
		return ""
	}
	if depth == 0 {
		return "..."
	}
	switch t.op {
	case OConst:
		return fmt.Sprint(t.ci())
	case OVar:
		return t.name
	case OLin:
		var p []string
		for _, l := range t.lin {
			p = append(p, fmt.Sprintf("%d*%s", l.c, dump(l.t, depth-1)))
		}
		return fmt.Sprintf("(%s + %d)", strings.Join(p, " + "), t.ci())
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	return "(" + n + " " + dump(t.a, depth-1) + " " + dump(t.b, depth-1) + " " + dump(t.c, depth-1) + ")"
}
