// Package harness holds the closed programs that are explored, by property.
package harness

import (
	"errors"
	"fmt"
	"runtime"
	"strings"

	"github.com/exascience/pargo/zz_verif/vh"
)

func reg(prop, name string, body func(t *vh.T)) {
	vh.Register(vh.Instance{Prop: prop, Name: name, Body: body})
}

// regAlone: the program is not combined with others
func regAlone(prop, name string, body func(t *vh.T)) {
	vh.Register(vh.Instance{Prop: prop, Name: name, Body: body, Alone: true})
}

func regT(prop, name string, thorough bool, body func(t *vh.T)) {
	vh.Register(vh.Instance{Prop: prop, Name: name, Body: body, Thorough: thorough})
}

func regB(prop, name string, bound int, thorough bool, body func(t *vh.T)) {
	vh.Register(vh.Instance{Prop: prop, Name: name, Body: body, Bound: bound, Thorough: thorough})
}

// ---------------------------------------------------------------- panics

type customPanic struct{ N int }

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

// panicKinds: kinds of panic values. throw(k, i) panics with a value of kind k for function i.
var panicKinds = []string{"string", "error", "runtime", "struct", "int", "nilmap",
	"percent", "percenterr", "empty", "lines", "slice", "map", "sliceerr", "stringer", "wrapped", "divide", "nilptr", "assert",
	"customrt", "bool", "float", "long", "formatter", "emptyerr", "rethrown"}

type sliceErr []string

func (e sliceErr) Error() string { return "several: " + strings.Join(e, ", ") }

type strPanic struct{ n int }

func (s *strPanic) String() string { return fmt.Sprintf("stringer 7%%d %d", s.n) }

type rtErr struct{ n int }

func (e rtErr) Error() string { return fmt.Sprintf("custom runtime error %d", e.n) }
func (rtErr) RuntimeError()   {}

type fmtPanic []int

func (f fmtPanic) Format(s fmt.State, verb rune) { fmt.Fprintf(s, "formatted %c %v", verb, []int(f)) }

func throw(kind string, i int) {
	switch kind {
	case "string":
		panic(fmt.Sprintf("boom %d;", i))
	case "error":
		if i%2 == 0 {
			panic(errors.New(fmt.Sprintf("boom %d;", i)))
		}
		panic(&myErr{fmt.Sprintf("boom %d;", i)})
	case "runtime":
		var a []int
		a[i+10] = 1
	case "struct":
		panic(customPanic{i})
	case "int":
		panic(i + 1000)
	case "nilmap":
		var m map[int]int
		m[i] = 1
	case "percent":
		panic(fmt.Sprintf("100%% of %%d %%s %%!v(x) %d", i))
	case "percenterr":
		panic(errors.New(panicText("percent", i)))
	case "empty":
		panic("")
	case "lines":
		panic(fmt.Sprintf("first line %d\n\tsecond line\n\n", i))
	case "slice":
		panic([]int{i, -i})
	case "map":
		panic(map[string]int{"k": i})
	case "sliceerr":
		panic(sliceErr{"x", fmt.Sprint(i)})
	case "stringer":
		panic(&strPanic{i})
	case "wrapped":
		panic(fmt.Errorf("outer %d: %w", i, &myErr{"inner"}))
	case "divide":
		z := 0
		fmt.Sprint(i / z)
	case "nilptr":
		var p *customPanic
		p.N = i
	case "assert":
		var x interface{} = i
		fmt.Sprint(x.(string))
	case "customrt":
		panic(rtErr{i})
	case "bool":
		panic(i%2 == 0)
	case "float":
		panic(float64(i) + 0.5)
	case "long":
		panic(strings.Repeat("long ", 3000) + fmt.Sprint(i))
	case "formatter":
		panic(fmtPanic{i})
	case "emptyerr":
		panic(errors.New(""))
	case "rethrown":
		panic(fmt.Sprintf("x %d\ngoroutine 1 [running]:\n\nrethrown at", i))
	}
}

// panicText is the printed form of what throw(kind, i) panics with.
func panicText(kind string, i int) string {
	switch kind {
	case "string", "error":
		return fmt.Sprintf("boom %d;", i)
	case "runtime":
		return fmt.Sprintf("runtime error: index out of range [%d] with length 0", i+10)
	case "struct":
		return fmt.Sprintf("{%d}", i)
	case "int":
		return fmt.Sprint(i + 1000)
	case "nilmap":
		return "assignment to entry in nil map"
	case "percent", "percenterr":
		return fmt.Sprintf("100%% of %%d %%s %%!v(x) %d", i)
	case "empty", "emptyerr":
		return ""
	case "lines":
		return fmt.Sprintf("first line %d\n\tsecond line\n\n", i)
	case "slice":
		return fmt.Sprint([]int{i, -i})
	case "map":
		return fmt.Sprintf("map[k:%d]", i)
	case "sliceerr":
		return fmt.Sprintf("several: x, %d", i)
	case "stringer":
		return fmt.Sprintf("stringer 7%%d %d", i)
	case "wrapped":
		return fmt.Sprintf("outer %d: inner", i)
	case "divide":
		return "runtime error: integer divide by zero"
	case "nilptr":
		return "runtime error: invalid memory address or nil pointer dereference"
	case "assert":
		return "interface conversion: interface {} is int, not string"
	case "customrt":
		return fmt.Sprintf("custom runtime error %d", i)
	case "bool":
		return fmt.Sprint(i%2 == 0)
	case "float":
		return fmt.Sprint(float64(i) + 0.5)
	case "long":
		return strings.Repeat("long ", 3000) + fmt.Sprint(i)
	case "formatter":
		return fmt.Sprintf("formatted v [%d]", i)
	case "rethrown":
		return fmt.Sprintf("x %d\ngoroutine 1 [running]:\n\nrethrown at", i)
	}
	return "?"
}

func panicIsError(kind string) (isErr, isRT bool) {
	switch kind {
	case "error", "percenterr", "sliceerr", "wrapped", "emptyerr":
		return true, false
	case "runtime", "nilmap", "divide", "nilptr", "assert", "customrt":
		return true, true
	}
	return false, false
}

// checkPanic checks that p is the panic of throw(kind, i), possibly wrapped.
func checkPanic(t *vh.T, p interface{}, panicked bool, kind string, i int) {
	want := panicText(kind, i)
	if !panicked {
		t.Failf("the call returned normally; it should panic with %q", want)
	}
	s := fmt.Sprintf("%v", p)
	if !strings.HasPrefix(s, want) {
		if len(s) > 120 {
			s = s[:120]
		}
		t.Failf("the call panics with %q instead of %q", s, want)
	}
	_, isErr := p.(error)
	_, isRT := p.(runtime.Error)
	wantErr, wantRT := panicIsError(kind)
	if isErr != wantErr {
		t.Failf("panic value %T: error = %v, should be %v", p, isErr, wantErr)
	}
	if isRT != wantRT {
		t.Failf("panic value %T: runtime.Error = %v, should be %v", p, isRT, wantRT)
	}
}

func bools(n int, f func(v []bool)) {
	for m := 0; m < 1<<uint(n); m++ {
		v := make([]bool, n)
		for i := range v {
			v[i] = m>>uint(i)&1 == 1
		}
		f(v)
	}
}

func bstr(v []bool) string {
	s := ""
	for _, b := range v {
		if b {
			s += "1"
		} else {
			s += "0"
		}
	}
	return s
}

var primes = []int{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41}

// vectors calls f with all words of length n over the alphabet.
func vectors(alphabet string, n int, f func(w string)) {
	w := make([]byte, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(string(w))
			return
		}
		for k := 0; k < len(alphabet); k++ {
			w[i] = alphabet[k]
			rec(i + 1)
		}
	}
	rec(0)
}
