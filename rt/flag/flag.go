// Package flag replaces the standard package: arguments come from the
// simulated command line.
package flag

import (
	real "flag"
	"time"

	"uniswap-simulator/zsim/os"
)

type (
	FlagSet       = real.FlagSet
	Flag          = real.Flag
	Value         = real.Value
	ErrorHandling = real.ErrorHandling
)

const (
	ContinueOnError = real.ContinueOnError
	ExitOnError     = real.ContinueOnError
	PanicOnError    = real.PanicOnError
)

var ErrHelp = real.ErrHelp

// CommandLine is renewed for every run.
var CommandLine = Fresh()

type quiet struct{}

func (quiet) Write(b []byte) (int, error) { return os.Stderr.Write(b) }

func Fresh() *FlagSet {
	f := real.NewFlagSet("main", real.ContinueOnError)
	f.SetOutput(quiet{})
	return f
}

func NewFlagSet(name string, h ErrorHandling) *FlagSet {
	f := real.NewFlagSet(name, h)
	f.SetOutput(quiet{})
	return f
}

func Int(n string, v int, u string) *int                { return CommandLine.Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)          { CommandLine.IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64          { return CommandLine.Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint             { return CommandLine.Uint(n, v, u) }
func Float64(n string, v float64, u string) *float64    { return CommandLine.Float64(n, v, u) }
func String(n string, v string, u string) *string       { return CommandLine.String(n, v, u) }
func StringVar(p *string, n string, v string, u string) { CommandLine.StringVar(p, n, v, u) }
func Bool(n string, v bool, u string) *bool             { return CommandLine.Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)       { CommandLine.BoolVar(p, n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func Var(v Value, n string, u string) { CommandLine.Var(v, n, u) }
func Parse() {
	if err := CommandLine.Parse(os.Args[1:]); err != nil {
		os.Exit(2)
	}
}
func Parsed() bool          { return CommandLine.Parsed() }
func Args() []string        { return CommandLine.Args() }
func Arg(i int) string      { return CommandLine.Arg(i) }
func NArg() int             { return CommandLine.NArg() }
func NFlag() int            { return CommandLine.NFlag() }
func PrintDefaults()        { CommandLine.PrintDefaults() }
func Usage()                { CommandLine.PrintDefaults() }
func Lookup(n string) *Flag { return CommandLine.Lookup(n) }

func Int64Var(p *int64, n string, v int64, u string)       { CommandLine.Int64Var(p, n, v, u) }
func UintVar(p *uint, n string, v uint, u string)          { CommandLine.UintVar(p, n, v, u) }
func Uint64(n string, v uint64, u string) *uint64          { return CommandLine.Uint64(n, v, u) }
func Uint64Var(p *uint64, n string, v uint64, u string)    { CommandLine.Uint64Var(p, n, v, u) }
func Float64Var(p *float64, n string, v float64, u string) { CommandLine.Float64Var(p, n, v, u) }
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	CommandLine.DurationVar(p, n, v, u)
}
func Func(n, u string, f func(string) error) { CommandLine.Func(n, u, f) }
func Set(n, v string) error                  { return CommandLine.Set(n, v) }
func Visit(f func(*Flag))                    { CommandLine.Visit(f) }
func VisitAll(f func(*Flag))                 { CommandLine.VisitAll(f) }
