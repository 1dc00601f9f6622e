package simrt

import (
	"fmt"
	"reflect"
)

// printed stands for a pointer that is formatted. It is an element of a static
// array, so its address is the same in every run of a seed, and so is the text
// of %p, which fmt takes from the address without asking.
type printed struct{ x any }

type printedKey struct {
	t reflect.Type
	u uintptr
}

var marks [1 << 14]printed // keeps what was printed, so that no address is used twice
var marked = map[printedKey]*printed{}

// Printed makes the text of a pointer independent of where it points to.
func Printed(x any) any {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Pointer, reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		return x
	}
	if v.IsNil() {
		return x
	}
	k := printedKey{v.Type(), v.Pointer()}
	p := marked[k]
	if p == nil {
		n := len(marked)
		if n == len(marks) {
			return x
		}
		p = &marks[n]
		p.x = x
		marked[k] = p
	}
	return p
}

func (p *printed) Format(f fmt.State, verb rune) {
	_, a := p.x.(fmt.Formatter)
	_, b := p.x.(fmt.Stringer)
	_, c := p.x.(fmt.GoStringer)
	_, e := p.x.(error)
	if v := reflect.ValueOf(p.x); !a && !b && !c && !e && v.Kind() != reflect.Pointer {
		fmt.Fprintf(f, "%p", p) // a function or channel
		return
	}
	fmt.Fprintf(f, fmt.FormatString(f, verb), p.x)
}
