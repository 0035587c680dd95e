// Package flag is the simulated flag package of the instrumented build: parsing a command line ends the simulated
// process, not the real one. Everything not defined here is forwarded to the real package by a generated file.
package flag

import (
	"encoding"
	"errors"
	real "flag"
	"time"

	sos "github.com/nginxinc/nginx-go-crossplane/internal/verifsim/sos"
)

// FlagSet is a real flag set whose errors end the simulated process.
type FlagSet struct {
	real.FlagSet
	handling ErrorHandling
}

func NewFlagSet(name string, h ErrorHandling) *FlagSet {
	f := &FlagSet{}
	f.Init(name, h)
	return f
}

func (f *FlagSet) Init(name string, h ErrorHandling) {
	f.FlagSet.Init(name, real.ContinueOnError)
	f.FlagSet.SetOutput(stderr{})
	f.handling = h
}

func (f *FlagSet) ErrorHandling() ErrorHandling { return f.handling }

func (f *FlagSet) Parse(args []string) error {
	err := f.FlagSet.Parse(args)
	if err == nil {
		return nil
	}
	switch f.handling {
	case real.ExitOnError:
		if errors.Is(err, real.ErrHelp) {
			sos.Exit(0)
		}
		sos.Exit(2)
	case real.PanicOnError:
		panic(err)
	}
	return err
}

type stderr struct{}

func (stderr) Write(p []byte) (int, error) { return sos.Stderr.Write(p) }

var CommandLine *FlagSet

var Usage func()

// Reset starts a new process.
func Reset() {
	CommandLine = NewFlagSet(sos.Args[0], real.ExitOnError)
	CommandLine.Usage = func() { Usage() }
	Usage = func() {
		_, _ = stderr{}.Write([]byte("Usage of " + CommandLine.Name() + ":\n"))
		PrintDefaults()
	}
}

func init() { Reset() }

func Parse()                                                { _ = CommandLine.Parse(sos.Args[1:]) }
func Parsed() bool                                          { return CommandLine.Parsed() }
func PrintDefaults()                                        { CommandLine.PrintDefaults() }
func Arg(i int) string                                      { return CommandLine.Arg(i) }
func Args() []string                                        { return CommandLine.Args() }
func NArg() int                                             { return CommandLine.NArg() }
func NFlag() int                                            { return CommandLine.NFlag() }
func Lookup(name string) *real.Flag                         { return CommandLine.Lookup(name) }
func Set(name, value string) error                          { return CommandLine.Set(name, value) }
func Visit(fn func(*real.Flag))                             { CommandLine.Visit(fn) }
func VisitAll(fn func(*real.Flag))                          { CommandLine.VisitAll(fn) }
func Var(v Value, name, usage string)                       { CommandLine.Var(v, name, usage) }
func Func(name, usage string, fn func(string) error)        { CommandLine.Func(name, usage, fn) }
func Bool(name string, v bool, usage string) *bool          { return CommandLine.Bool(name, v, usage) }
func BoolVar(p *bool, name string, v bool, usage string)    { CommandLine.BoolVar(p, name, v, usage) }
func Int(name string, v int, usage string) *int             { return CommandLine.Int(name, v, usage) }
func IntVar(p *int, name string, v int, usage string)       { CommandLine.IntVar(p, name, v, usage) }
func Int64(name string, v int64, usage string) *int64       { return CommandLine.Int64(name, v, usage) }
func Int64Var(p *int64, name string, v int64, usage string) { CommandLine.Int64Var(p, name, v, usage) }
func Uint(name string, v uint, usage string) *uint          { return CommandLine.Uint(name, v, usage) }
func UintVar(p *uint, name string, v uint, usage string)    { CommandLine.UintVar(p, name, v, usage) }
func Uint64(name string, v uint64, usage string) *uint64    { return CommandLine.Uint64(name, v, usage) }
func Uint64Var(p *uint64, name string, v uint64, u string)  { CommandLine.Uint64Var(p, name, v, u) }
func String(name string, v string, usage string) *string    { return CommandLine.String(name, v, usage) }
func StringVar(p *string, name string, v string, u string)  { CommandLine.StringVar(p, name, v, u) }
func Float64(name string, v float64, usage string) *float64 {
	return CommandLine.Float64(name, v, usage)
}
func Float64Var(p *float64, name string, v float64, u string) { CommandLine.Float64Var(p, name, v, u) }
func Duration(name string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(name, v, u)
}
func DurationVar(p *time.Duration, name string, v time.Duration, u string) {
	CommandLine.DurationVar(p, name, v, u)
}
func BoolFunc(name, usage string, fn func(string) error) { CommandLine.Var(boolFunc(fn), name, usage) }
func TextVar(p encoding.TextUnmarshaler, name string, v encoding.TextMarshaler, usage string) {
	CommandLine.TextVar(p, name, v, usage)
}

type boolFunc func(string) error

func (f boolFunc) Set(s string) error { return f(s) }
func (f boolFunc) String() string     { return "" }
func (f boolFunc) IsBoolFlag() bool   { return true }
