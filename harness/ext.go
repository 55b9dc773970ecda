// Package harness drives the real interpreter through its exported API only.
package harness

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strings"

	g "github.com/hymkor/gmnlisp"
)

// J is a JSON array
type J = []any

func cps(s string) J {
	r := J{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func className(n g.Node) (name string) {
	defer func() {
		if e := recover(); e != nil {
			name = "<?>"
		}
	}()
	return n.ClassOf().Name().String()
}

var ctxb = context.Background()

// Dims returns the dimensions of an array with (array-dimensions).
func Dims(w *g.World, n g.Node) ([]int, bool) {
	x := g.NewSymbol("verif-x")
	v, err := w.Let(g.Variables{x: n}).Interpret(ctxb, "(array-dimensions verif-x)")
	if err != nil {
		return nil, false
	}
	dims := []int{}
	for c, ok := v.(*g.Cons); ok; c, ok = c.Cdr.(*g.Cons) {
		i, ok := c.Car.(g.Integer)
		if !ok {
			return nil, false
		}
		dims = append(dims, int(i))
	}
	return dims, true
}

func elems(n g.Node, dims []int, out J, w *g.World, depth int) (J, bool) {
	a, ok := n.(*g.Array)
	if !ok {
		return out, false
	}
	for i := 0; i < dims[0]; i++ {
		e, err := a.Elt(i)
		if err != nil {
			return out, false
		}
		if len(dims) > 1 {
			if out, ok = elems(e, dims[1:], out, w, depth); !ok {
				return out, false
			}
		} else {
			out = append(out, Ext(w, e, depth+1))
		}
	}
	return out, true
}

// extFloat is the encoding of floats of Num.tla.
func extFloat(v float64) J {
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return J{fmt.Sprint(v)}
	}
	neg := math.Signbit(v)
	if f := v * 16; f == math.Trunc(f) && math.Abs(f) <= math.MaxInt32 && !(v == 0 && neg) {
		return J{"f", int64(f)}
	}
	m, e := math.Frexp(math.Abs(v))
	n := int64(m * (1 << 53))
	for e -= 53; n != 0 && n%2 == 0; e++ {
		n /= 2
	}
	if n == 0 {
		e = 0
	}
	s := fmt.Sprint(n)
	if neg {
		s = "-" + s
	}
	return J{"F", cps(s), e}
}

// Ext is the structural encoding of a value. The specification computes the same (see Ext in LispData.tla).
func Ext(w *g.World, n g.Node, depth int) any {
	if depth > 60 {
		return J{"deep"}
	}
	switch v := n.(type) {
	case nil:
		return J{"go-nil"}
	case g.Integer:
		if v > math.MaxInt32 || v < -math.MaxInt32 {
			return J{"I", cps(fmt.Sprint(int64(v)))}
		}
		return J{"i", int64(v)}
	case g.BigInt:
		return J{"big", v.String()}
	case g.Float:
		return extFloat(float64(v))
	case g.String:
		return J{"str", cps(string(v))}
	case g.Rune:
		return J{"c", int(v)}
	case g.Keyword:
		return J{"k", v.String()}
	case *g.Cons:
		list := J{}
		var cur g.Node = v
		for i := 0; ; i++ {
			c, ok := cur.(*g.Cons)
			if !ok {
				break
			}
			if i > 400 {
				return J{"long"}
			}
			if c.Car == nil {
				list = append(list, J{"s", "nil"})
			} else {
				list = append(list, Ext(w, c.Car, depth+1))
			}
			cur = c.Cdr
			if cur == nil {
				cur = g.Null
			}
		}
		return J{"l", list, Ext(w, cur, depth+1)}
	case *g.Array:
		dims, ok := Dims(w, v)
		if !ok {
			return J{"a?"}
		}
		d := J{}
		for _, x := range dims {
			d = append(d, x)
		}
		if len(dims) == 0 {
			return J{"a", d, J{}}
		}
		el, ok := elems(v, dims, J{}, w, depth)
		if !ok {
			return J{"a?"}
		}
		return J{"a", d, el}
	case g.FunctionRef:
		return J{"fn"}
	case g.Class:
		return J{"cl", v.Name().String()}
	case g.Symbol:
		s := v.String()
		if strings.HasPrefix(s, "-gensym-") {
			return J{"g"}
		}
		return J{"s", s}
	}
	cn := className(n)
	switch cn {
	case "<null>":
		return J{"s", "nil"}
	case "<truetype>":
		return J{"s", "t"}
	case "<hashtable>":
		return J{"h"}
	}
	t := fmt.Sprintf("%T", n)
	if strings.Contains(t, "StandardObject") {
		return J{"o", cn}
	}
	if _, ok := n.(error); ok {
		return J{"e", cn}
	}
	if strings.Contains(t, "StringBuilder") || strings.Contains(t, "Reader") || strings.Contains(t, "Stream") || strings.Contains(t, "Writer") {
		return J{"st"}
	}
	return J{"?", t}
}

// HostError is an error of a function of the host.
type HostError struct{ Key string }

func (e *HostError) Error() string { return "host error " + e.Key }

// Outcome encodes the error of Interpret.
func Outcome(w *g.World, v g.Node, err error) J {
	if err == nil {
		return J{"res", "val", Ext(w, v, 0)}
	}
	var he *HostError
	if errors.As(err, &he) {
		return J{"res", "err", J{"s", "host", cps(he.Key)}}
	}
	c := ErrClass(err)
	if c == "plain" {
		return J{"res", "err", J{"s", c}, cps(err.Error())}
	}
	return J{"res", "err", J{"s", c}}
}

// ErrClass tells what the host can find out about an error.
func ErrClass(err error) string {
	if errors.Is(err, g.ErrQuit) {
		return "quit"
	}
	if errors.Is(err, g.ErrAbort) {
		return "abort"
	}
	if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
		return "ctx"
	}
	var n interface {
		error
		g.Node
	}
	if errors.As(err, &n) {
		return className(n)
	}
	return "plain"
}
