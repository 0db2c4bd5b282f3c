// Package alike has types with the names of types of other packages.
package alike

import "github.com/mjarkk/yarql"

// AlOut is a struct with other fields than the one of the same name.
type AlOut struct {
	B int
	C string
}

// AlIn is an input with other members.
type AlIn struct {
	X int8
	A []string
	B string
	Z *AlIn
}

// AlEnum is text here.
type AlEnum string

// AlEnum8 has the same kind as the other one.
type AlEnum8 uint8

// AlPlain is no enum.
type AlPlain string

// AlI is another interface.
type AlI interface{ ResolveOther() string }

// AlImpl implements the other interface.
type AlImpl struct{ O string }

// ResolveOther makes AlImpl an AlI.
func (a AlImpl) ResolveOther() string { return "other " + a.O }

var _ = yarql.Implements((*AlI)(nil), AlImpl{})

// AlRen is renamed in the other package only.
type AlRen struct{ R string }
