package sched

import (
	"strconv"

	. "github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
)

// R1_Ordered: no race is seen where there is none.
func R1_Ordered() {
	way := zzsym.Concrete(zzsym.Choice("way", 22))
	zzsym.Assert(VerifOrdered(way) < 0, "the program is missing")
	zzsym.Assert(VerifOrdered(22) == 22, "a program is not tested")
	zzsym.Cover(strconv.Itoa(way))
}

// R2_Unordered: every race is seen.
func R2_Unordered() {
	zzsym.Assert(VerifUnordered(zzsym.Bound("kind", 0, 0)) < 0, "the program is missing")
}
