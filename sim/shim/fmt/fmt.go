// Package fmt is package fmt printing to the simulated standard output.
package fmt

import (
	real "fmt"

	"verif.sim/shim/os"
)

// Print prints.
func Print(a ...any) (int, error) { return real.Fprint(os.Stdout, a...) }

// Printf prints.
func Printf(f string, a ...any) (int, error) { return real.Fprintf(os.Stdout, f, a...) }

// Println prints.
func Println(a ...any) (int, error) { return real.Fprintln(os.Stdout, a...) }

// Scan scans.
func Scan(a ...any) (int, error) { return real.Fscan(os.Stdin, a...) }

// Scanf scans.
func Scanf(f string, a ...any) (int, error) { return real.Fscanf(os.Stdin, f, a...) }

// Scanln scans.
func Scanln(a ...any) (int, error) { return real.Fscanln(os.Stdin, a...) }
