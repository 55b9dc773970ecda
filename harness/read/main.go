// read applies the reader of gmnlisp to texts.
// stdin: one text per line as an array of code points; stdout: {"f":forms,"e":"eof"|"err"|"crash"|"hang","alt":[...]}
// alt names the ways of reading (one byte at a time, ReadAll, (read) of a string stream) which gave something else.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	g "github.com/hymkor/gmnlisp"
	h "verif/harness"
)

type result struct {
	F   []any    `json:"f"`
	E   string   `json:"e"`
	Alt []string `json:"alt,omitempty"`
}

type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return o.r.Read(p)
}

func forms(next func() (g.Node, error), w *g.World) (res result) {
	res.F = []any{}
	defer func() {
		if e := recover(); e != nil {
			res.E = "crash " + fmt.Sprint(e)
		}
	}()
	for n := 0; n < 10000; n++ {
		v, err := next()
		if err == io.EOF {
			res.E = "eof"
			return
		}
		if err != nil {
			res.E = "err"
			return
		}
		res.F = append(res.F, h.Ext(w, v, 0))
	}
	res.E = "hang"
	return
}

func same(a, b result) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

func one(w *g.World, text string) result {
	r1 := strings.NewReader(text)
	res := forms(func() (g.Node, error) { return g.ReadNode(r1) }, w)
	r2 := bufio.NewReaderSize(oneByte{strings.NewReader(text)}, 16)
	if x := forms(func() (g.Node, error) { return g.ReadNode(r2) }, w); !same(x, res) {
		res.Alt = append(res.Alt, "one byte at a time")
	}
	all, err := func() (l []g.Node, err error) {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("crash")
			}
		}()
		return g.ReadAll(strings.NewReader(text))
	}()
	if (err == nil) != (res.E == "eof") {
		res.Alt = append(res.Alt, "ReadAll")
	} else if err == nil {
		l := []any{}
		for _, v := range all {
			l = append(l, h.Ext(w, v, 0))
		}
		if !same(result{F: l, E: "eof"}, result{F: res.F, E: "eof"}) {
			res.Alt = append(res.Alt, "ReadAll")
		}
	}
	ctx := context.Background()
	sw := w.Let(&g.Pair{Key: g.NewSymbol("s"), Value: g.String(text)})
	x := forms(func() (g.Node, error) { return nil, io.EOF }, w)
	v, err := sw.Interpret(ctx, `(let ((i (create-string-input-stream s)) (l nil) (e (create-array '(1) 'eof)))
	  (catch 'done
	    (while t
	      (let ((x (with-handler (lambda (c) (throw 'done (cons 'err l))) (read i nil e))))
	        (if (eq x e) (throw 'done (cons 'eof l)))
	        (setq l (cons x l))))))`)
	if err != nil {
		x.E = "err " + err.Error()
	} else {
		c := v.(*g.Cons)
		x.E = c.Car.String()
		x.F = []any{}
		for p, ok := c.Cdr.(*g.Cons); ok; p, ok = p.Cdr.(*g.Cons) {
			x.F = append([]any{h.Ext(w, p.Car, 0)}, x.F...)
		}
	}
	if !same(x, result{F: res.F, E: res.E}) {
		res.Alt = append(res.Alt, "(read)")
	}
	return res
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	defer out.Flush()
	w := g.New()
	enc := json.NewEncoder(out)
	for {
		var t []rune
		if err := dec.Decode(&t); err != nil {
			return
		}
		done := make(chan result, 1)
		go func() { done <- one(w, string(t)) }()
		select {
		case r := <-done:
			enc.Encode(r)
		case <-time.After(10 * time.Second):
			enc.Encode(result{F: []any{}, E: "hang"})
			return
		}
	}
}
