package main

import (
	"fmt"
	"os"
)

func logf(f string, a ...any) { fmt.Fprintf(os.Stderr, f, a...) }
