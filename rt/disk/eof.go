package disk

import "io"

func eof() error { return io.EOF }
