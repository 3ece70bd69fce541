// Package debug replaces runtime/debug: the simulated machine has nothing to tune.
package debug

func SetGCPercent(int) int       { return 100 }
func SetMemoryLimit(int64) int64 { return 1<<63 - 1 }
func SetMaxThreads(int) int      { return 10000 }
func SetMaxStack(int) int        { return 1000000000 }
func SetPanicOnFault(bool) bool  { return false }
func SetTraceback(string)        {}
func FreeOSMemory()              {}
func Stack() []byte              { return []byte("goroutine\n") }
func PrintStack()                {}
