// Package ops is user code as the library sees it: functions of several shapes
// that ask for a scope, a function or a task of their own. The packages
// east/ops and west/ops differ only in their import paths.
package ops

import (
	"context"
	"runtime"

	"github.com/spacemonkeygo/monkit/v3"
)

type ctx = context.Context

// T has methods that ask.
type T struct{ n int }

// G is generic.
type G[X any] struct{ x X }

// E embeds what asks.
type E struct{ *T }

func Pkg(r *monkit.Registry) *monkit.Scope                { return r.Package() }
func DefaultPkg() *monkit.Scope                           { return monkit.Package() }
func (t T) Pkg(r *monkit.Registry) *monkit.Scope          { return r.Package() }
func (t *T) PtrPkg(r *monkit.Registry) *monkit.Scope      { return r.Package() }
func (g G[X]) Pkg(r *monkit.Registry) *monkit.Scope       { return r.Package() }
func (g *G[X]) PtrPkg(r *monkit.Registry) *monkit.Scope   { return r.Package() }
func GenPkg[X any](r *monkit.Registry, x X) *monkit.Scope { return r.Package() }

//go:noinline
func RealPkg(r *monkit.Registry) *monkit.Scope { return r.Package() }

var varPkg = func(r *monkit.Registry) *monkit.Scope { return r.Package() }

// Scopes are the ways the package asks for its scope in a registry.
var Scopes = []func(r *monkit.Registry) *monkit.Scope{
	func(r *monkit.Registry) *monkit.Scope { return Pkg(r) },
	func(r *monkit.Registry) *monkit.Scope { return T{}.Pkg(r) },
	func(r *monkit.Registry) *monkit.Scope { return (&T{}).PtrPkg(r) },
	func(r *monkit.Registry) *monkit.Scope { return G[int]{}.Pkg(r) },
	func(r *monkit.Registry) *monkit.Scope { return (&G[T]{}).PtrPkg(r) },
	func(r *monkit.Registry) *monkit.Scope { return GenPkg(r, T{}) },
	func(r *monkit.Registry) *monkit.Scope { return GenPkg[interface{}](r, nil) },
	func(r *monkit.Registry) *monkit.Scope { return RealPkg(r) },
	func(r *monkit.Registry) *monkit.Scope { return varPkg(r) },
	func(r *monkit.Registry) *monkit.Scope { return E{&T{}}.PtrPkg(r) },
	func(r *monkit.Registry) *monkit.Scope {
		return func() *monkit.Scope { return r.Package() }()
	},
	func(r *monkit.Registry) (s *monkit.Scope) {
		defer func() { s = r.Package() }()
		return nil
	},
	Pkg, RealPkg, GenPkg2[string],
	func(r *monkit.Registry) *monkit.Scope {
		if r == monkit.Default {
			return monkit.Package()
		}
		return r.Package()
	},
	func(r *monkit.Registry) *monkit.Scope {
		if r == monkit.Default {
			return DefaultPkg()
		}
		return Pkg(r)
	},
}

func GenPkg2[X any](r *monkit.Registry) *monkit.Scope { return r.Package() }

// here is the full name of the function that calls it.
//
//go:noinline
func here() string {
	var pc [1]uintptr
	runtime.Callers(2, pc[:])
	f, _ := runtime.CallersFrames(pc[:]).Next()
	return f.Function
}

func Fn(s *monkit.Scope) (*monkit.Func, string)                { return s.Func(), here() }
func (t T) Fn(s *monkit.Scope) (*monkit.Func, string)          { return s.Func(), here() }
func (t *T) PtrFn(s *monkit.Scope) (*monkit.Func, string)      { return s.Func(), here() }
func (g G[X]) Fn(s *monkit.Scope) (*monkit.Func, string)       { return s.Func(), here() }
func GenFn[X any](s *monkit.Scope, x X) (*monkit.Func, string) { return s.Func(), here() }

//go:noinline
func RealFn(s *monkit.Scope) (*monkit.Func, string) { return s.Func(), here() }

func rec(s *monkit.Scope, n int) (*monkit.Func, string) {
	if n > 0 {
		return rec(s, n-1)
	}
	return s.Func(), here()
}

var varFn = func(s *monkit.Scope) (*monkit.Func, string) { return s.Func(), here() }

// Small ones, that the compiler inlines.
func Small(s *monkit.Scope) *monkit.Func           { return s.Func() }
func (t T) Small(s *monkit.Scope) *monkit.Func     { return s.Func() }
func (t *T) PtrSmall(s *monkit.Scope) *monkit.Func { return s.Func() }

// Funcs are the ways the package asks for the function it is in: they return
// also its name.
var Funcs = []func(s *monkit.Scope) (*monkit.Func, string){
	Fn, RealFn, varFn,
	func(s *monkit.Scope) (*monkit.Func, string) { return T{}.Fn(s) },
	func(s *monkit.Scope) (*monkit.Func, string) { return (&T{}).PtrFn(s) },
	func(s *monkit.Scope) (*monkit.Func, string) { return E{&T{}}.Fn(s) },
	func(s *monkit.Scope) (*monkit.Func, string) { return G[int]{}.Fn(s) },
	func(s *monkit.Scope) (*monkit.Func, string) { return GenFn(s, 1) },
	func(s *monkit.Scope) (*monkit.Func, string) { return rec(s, 3) },
	func(s *monkit.Scope) (*monkit.Func, string) { return s.Func(), here() },
	func(s *monkit.Scope) (*monkit.Func, string) {
		return func() (*monkit.Func, string) { return s.Func(), here() }()
	},
	func(s *monkit.Scope) (f *monkit.Func, n string) {
		defer func() { f, n = s.Func(), here() }()
		return nil, ""
	},
	func(s *monkit.Scope) (*monkit.Func, string) { return Small(s), path() + ".Small" },
	func(s *monkit.Scope) (*monkit.Func, string) { return T{}.Small(s), path() + ".T.Small" },
	func(s *monkit.Scope) (*monkit.Func, string) { return (&T{}).PtrSmall(s), path() + ".(*T).PtrSmall" },
}

// path is the import path of the package, by the name of a function of it.
func path() string {
	n := here()
	return n[:len(n)-len(".path")]
}

// Path is the import path of the package.
func Path() string { return path() }

// span is the function of the span of a context.
func span(c ctx) *monkit.Func {
	if s := monkit.SpanFromCtx(c); s != nil {
		return s.Func()
	}
	return nil
}

func Plain(s *monkit.Scope, c ctx, ts []monkit.SeriesTag) (*monkit.Func, string) {
	defer s.Task(ts...)(&c)(nil)
	return span(c), here()
}

func WithErr(s *monkit.Scope, c ctx, ts []monkit.SeriesTag) (f *monkit.Func, n string) {
	var err error
	defer s.Task(ts...)(&c, 1, "x")(&err)
	return span(c), here()
}

func (t *T) Method(s *monkit.Scope, c ctx, ts []monkit.SeriesTag) (*monkit.Func, string) {
	defer s.Task(ts...)(&c)(nil)
	return span(c), here()
}

func (g G[X]) Method(s *monkit.Scope, c ctx, ts []monkit.SeriesTag) (*monkit.Func, string) {
	defer s.Task(ts...)(&c)(nil)
	return span(c), here()
}

// start is small enough to be inlined.
func start(t monkit.Task, c *ctx) func(*error) { return t(c) }

// Tasks are the functions of the package that instrument themselves.
var Tasks = []func(s *monkit.Scope, c ctx, ts []monkit.SeriesTag) (*monkit.Func, string){
	Plain, WithErr, (&T{}).Method, G[string]{}.Method, (&G[int]{}).Method,
	func(s *monkit.Scope, c ctx, ts []monkit.SeriesTag) (*monkit.Func, string) {
		defer s.Task(ts...)(&c)(nil)
		return span(c), here()
	},
	func(s *monkit.Scope, c ctx, ts []monkit.SeriesTag) (f *monkit.Func, n string) {
		func() {
			defer s.Task(ts...)(&c)(nil)
			f, n = span(c), here()
		}()
		return f, n
	},
	func(s *monkit.Scope, c ctx, ts []monkit.SeriesTag) (*monkit.Func, string) {
		defer start(s.Task(ts...), &c)(nil)
		return span(c), path() + ".start"
	},
	// a task used twice is that of its first user
	func(s *monkit.Scope, c ctx, ts []monkit.SeriesTag) (*monkit.Func, string) {
		t := s.Task(ts...)
		func(c ctx) { defer start(t, &c)(nil) }(c)
		defer t(&c)(nil)
		return span(c), path() + ".start"
	},
	// and one whose function was asked for after a use is as well
	func(s *monkit.Scope, c ctx, ts []monkit.SeriesTag) (*monkit.Func, string) {
		t := s.Task(ts...)
		defer t(&c)(nil)
		return t.Func(), here()
	},
}
