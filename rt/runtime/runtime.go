// Package runtime replaces the few functions a program may ask for.
package runtime

import (
	real "runtime"

	"uniswap-simulator/zsim/simrt"
)

// CPUs is the simulated machine's processor count.
var CPUs = 4

const (
	GOOS   = "linux"
	GOARCH = "amd64"
)

func NumCPU() int          { return CPUs }
func GOMAXPROCS(n int) int { return CPUs }
func Gosched()             { simrt.Yield() }
func GC()                  {}
func NumGoroutine() int    { return 1 }
func KeepAlive(x any)      {}
func Version() string      { return "go" }

type (
	Error    = real.Error
	MemStats = real.MemStats
	Func     = real.Func
	Frame    = real.Frame
	Frames   = real.Frames
)

func ReadMemStats(m *MemStats)                     { *m = MemStats{} }
func Stack(buf []byte, all bool) int               { return copy(buf, "goroutine\n") }
func Caller(skip int) (uintptr, string, int, bool) { return real.Caller(skip + 1) }
func Callers(skip int, pc []uintptr) int           { return real.Callers(skip+1, pc) }
func CallersFrames(pc []uintptr) *Frames           { return real.CallersFrames(pc) }
func FuncForPC(pc uintptr) *Func                   { return real.FuncForPC(pc) }
func LockOSThread()                                {}
func UnlockOSThread()                              {}
func NumCgoCall() int64                            { return 0 }
func SetFinalizer(obj, finalizer any)              {}
