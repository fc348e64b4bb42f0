// Package zzu holds what several harnesses share.
package zzu

import (
	"github.com/metafates/bento"
	"github.com/metafates/bento/internal/zzsym"
	"github.com/muesli/termenv"
)

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// AnyModifier is any set of modifiers.
func AnyModifier(name string) bento.Modifier {
	return bento.Modifier(zzsym.Int(name, 0, int(bento.ModifierAll)))
}

// AnyStyle is any style with ANSI colours.
func AnyStyle(name string) bento.Style {
	s := bento.NewStyle()
	if zzsym.Bool(name + ".hasfg") {
		s = s.WithForeground(termenv.ANSIColor(zzsym.Int(name+".fg", 0, 15)))
	}
	if zzsym.Bool(name + ".hasbg") {
		s = s.WithBackground(termenv.ANSIColor(zzsym.Int(name+".bg", 0, 15)))
	}
	return s.WithModifier(AnyModifier(name + ".add")).WithoutModifier(AnyModifier(name + ".sub"))
}

// ColorStyle is a style that differs from any other by its foreground only.
func ColorStyle(name string) bento.Style {
	return bento.NewStyle().WithForeground(termenv.ANSIColor(zzsym.Int(name, 0, 15)))
}

// Blank reports whether the cell is as good as new.
func Blank(c *bento.Cell) bool {
	return c.Symbol == " " && c.Fg == bento.Color(bento.ResetColor{}) && c.Bg == bento.Color(bento.ResetColor{}) && c.Modifier == 0 && !c.Skip
}
