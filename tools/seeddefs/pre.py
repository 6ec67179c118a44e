PRE='''package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/bantling/micro/event"
	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
)

var _ = errors.New
var _ = strings.NewReader
var _ io.Reader
var _ event.None
var _ = iter.EOI
var _ = stream.Skip[int]
var _ = funcs.SliceReverse[int]

func want(ok bool, a ...any) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func all[T any](it iter.Iter[T]) (r []T, err error) {
	for {
		v, e := it.Next()
		if e != nil {
			return r, e
		}
		r = append(r, v)
		if len(r) > 10000 {
			return r, nil
		}
	}
}

type chunks struct {
	parts [][]byte
	errs  []error
	closed int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.parts) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.parts[0])
	if n < len(c.parts[0]) {
		c.parts[0] = c.parts[0][n:]
		return n, nil
	}
	e := c.errs[0]
	c.parts, c.errs = c.parts[1:], c.errs[1:]
	return n, e
}

'''
def demo(body): return PRE+"func main() {\n"+body+"\n}\n"
