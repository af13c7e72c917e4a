// Package log is package log in the simulated process.
package log

import (
	"fmt"
	"io"

	"verif.sim/shim/os"
)

func Print(a ...any)            { fmt.Fprint(os.Stderr, append(a, "\n")...) }
func Printf(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
func Println(a ...any)          { fmt.Fprintln(os.Stderr, a...) }
func Fatal(a ...any)            { Print(a...); os.Exit(1) }
func Fatalf(f string, a ...any) { Printf(f, a...); os.Exit(1) }
func Fatalln(a ...any)          { Println(a...); os.Exit(1) }
func Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func SetFlags(int)              {}
func SetPrefix(string)          {}
func SetOutput(io.Writer)       {}
