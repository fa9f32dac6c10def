package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"strconv"
	"syscall"

	jsoncolor "github.com/neilotoole/jsoncolor"
)

// Errors real readers and writers fail with. io.EOF itself is not among them,
// but an error wrapping it is: the end of input is io.EOF and nothing else.
type netError struct{ timeout, temporary bool }

func (e netError) Error() string   { return fmt.Sprintf("net error timeout=%v", e.timeout) }
func (e netError) Timeout() bool   { return e.timeout }
func (e netError) Temporary() bool { return e.temporary }

type sliceError []string // not comparable

func (e sliceError) Error() string        { return "several errors" }
func (e sliceError) Is(target error) bool { _, ok := target.(sliceError); return ok }

// anyError claims to be any error.
type anyError struct{ s string }

func (e anyError) Error() string { return "any error " + e.s }
func (e anyError) Is(error) bool { return true }

var ioErrs = []error{
	errInjected,
	fmt.Errorf("transport: %w", errInjected),
	io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite,
	netError{true, true}, netError{true, false}, netError{false, true},
	os.ErrDeadlineExceeded, os.ErrClosed, context.Canceled, context.DeadlineExceeded, net.ErrClosed,
	syscall.EINTR, syscall.EAGAIN, syscall.EIO, syscall.EPIPE, syscall.ECONNRESET, syscall.ENOSPC,
	&os.PathError{Op: "read", Path: "f", Err: syscall.EIO},
	&net.OpError{Op: "read", Net: "tcp", Err: netError{true, true}},
	fmt.Errorf("transport: %w", io.ErrUnexpectedEOF),
	errors.Join(errInjected, io.ErrClosedPipe),
	sliceError{"a"},
	fmt.Errorf("transport: %w", io.EOF),
	errors.Join(io.EOF, errInjected),
	anyError{"x"},
}

func genErr(r *R) error { return ioErrs[r.Choose(len(ioErrs))] }

// genUserErr is an error that a callback of the user's fails with: one of its
// own, one that it got from its input, or one of the encoding/json packages
// that it got from a nested call and hands on.
func genUserErr(r *R) error {
	switch r.Choose(4) {
	case 0, 1:
		return &boom{r.Choose(50)}
	case 2:
		return genErr(r)
	}
	_, numErr := strconv.Atoi("x")
	deep := func() error {
		var x struct{ A []int }
		return jsoncolor.Unmarshal([]byte(`{"A":[1,"x"]}`), &x)
	}
	syn := func() error { var x any; return jsoncolor.Unmarshal([]byte(`{"A":[1,}`), &x) }
	es := []func() error{
		func() error { return io.EOF },
		func() error { return io.ErrUnexpectedEOF },
		func() error { return fmt.Errorf("in there: %w", io.EOF) },
		func() error { return numErr },
		func() error { return anyError{"y"} },
		func() error { return &jsoncolor.SyntaxError{Offset: 3} },
		func() error {
			return &jsoncolor.UnmarshalTypeError{Value: "string", Type: reflect.TypeFor[int](), Offset: 4}
		},
		func() error { return &jsoncolor.UnsupportedTypeError{Type: reflect.TypeFor[chan int]()} },
		func() error { return &jsoncolor.UnsupportedValueError{Str: "NaN"} },
		func() error { return &jsoncolor.InvalidUnmarshalError{} },
		func() error { return &json.MarshalerError{Type: reflect.TypeFor[int](), Err: io.EOF} },
		deep, syn,
		func() error { return fmt.Errorf("in there: %w", deep()) },
		func() error { return fmt.Errorf("in there: %w", syn()) },
		func() error { return errors.Join(io.EOF, syn()) },
	}
	return es[r.Choose(len(es))]()
}
