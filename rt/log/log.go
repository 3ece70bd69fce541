// Package log replaces the standard package.
package log

import (
	"fmt"
	"io"

	"uniswap-simulator/zsim/disk"
	"uniswap-simulator/zsim/os"
	"uniswap-simulator/zsim/simrt"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

func emit(s string) {
	simrt.Y()
	if !simrt.Dead() && disk.W != nil {
		disk.W.Stderr.WriteString(s)
		if len(s) == 0 || s[len(s)-1] != '\n' {
			disk.W.Stderr.WriteByte('\n')
		}
	}
}

func Print(a ...any)            { emit(fmt.Sprint(a...)) }
func Println(a ...any)          { emit(fmt.Sprintln(a...)) }
func Printf(f string, a ...any) { emit(fmt.Sprintf(f, a...)) }
func Fatal(a ...any)            { emit(fmt.Sprint(a...)); os.Exit(1) }
func Fatalln(a ...any)          { emit(fmt.Sprintln(a...)); os.Exit(1) }
func Fatalf(f string, a ...any) { emit(fmt.Sprintf(f, a...)); os.Exit(1) }
func Panic(a ...any)            { s := fmt.Sprint(a...); emit(s); panic(s) }
func Panicln(a ...any)          { s := fmt.Sprintln(a...); emit(s); panic(s) }
func Panicf(f string, a ...any) { s := fmt.Sprintf(f, a...); emit(s); panic(s) }
func SetFlags(int)              {}
func SetPrefix(string)          {}
func SetOutput(io.Writer)       {}

type Logger struct {
	w      io.Writer
	prefix string
}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w, prefix} }
func (l *Logger) Print(a ...any)                       { fmt.Fprint(l.w, l.prefix, fmt.Sprint(a...), "\n") }
func (l *Logger) Println(a ...any)                     { fmt.Fprint(l.w, l.prefix, fmt.Sprintln(a...)) }
func (l *Logger) Printf(f string, a ...any)            { fmt.Fprint(l.w, l.prefix, fmt.Sprintf(f, a...), "\n") }
func (l *Logger) Fatal(a ...any)                       { l.Print(a...); os.Exit(1) }
func (l *Logger) Fatalf(f string, a ...any)            { l.Printf(f, a...); os.Exit(1) }
func Default() *Logger                                 { return &Logger{os.Stderr, ""} }
