// Package fmt replaces the standard package so that printing reaches the
// simulated streams.
package fmt

import (
	real "fmt"
	"io"

	"uniswap-simulator/zsim/disk"
	"uniswap-simulator/zsim/simrt"
)

type (
	Stringer   = real.Stringer
	GoStringer = real.GoStringer
	Formatter  = real.Formatter
	State      = real.State
	Scanner    = real.Scanner
	ScanState  = real.ScanState
)

func out(s string) (int, error) {
	simrt.Y()
	if !simrt.Dead() && disk.W != nil && disk.W.Stdout.Len() < 1<<20 {
		disk.W.Stdout.WriteString(s)
	}
	return len(s), nil
}

func Print(a ...any) (int, error)                 { return out(real.Sprint(a...)) }
func Println(a ...any) (int, error)               { return out(real.Sprintln(a...)) }
func Printf(f string, a ...any) (int, error)      { return out(real.Sprintf(f, a...)) }
func Sprint(a ...any) string                      { return real.Sprint(a...) }
func Sprintln(a ...any) string                    { return real.Sprintln(a...) }
func Sprintf(f string, a ...any) string           { return real.Sprintf(f, a...) }
func Errorf(f string, a ...any) error             { return real.Errorf(f, a...) }
func Fprint(w io.Writer, a ...any) (int, error)   { return real.Fprint(w, a...) }
func Fprintln(w io.Writer, a ...any) (int, error) { return real.Fprintln(w, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return real.Fprintf(w, f, a...)
}
func Append(b []byte, a ...any) []byte                    { return real.Append(b, a...) }
func Appendf(b []byte, f string, a ...any) []byte         { return real.Appendf(b, f, a...) }
func Sscan(s string, a ...any) (int, error)               { return real.Sscan(s, a...) }
func Sscanf(s, f string, a ...any) (int, error)           { return real.Sscanf(s, f, a...) }
func Sscanln(s string, a ...any) (int, error)             { return real.Sscanln(s, a...) }
func Fscan(r io.Reader, a ...any) (int, error)            { return real.Fscan(r, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error) { return real.Fscanf(r, f, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)          { return real.Fscanln(r, a...) }
