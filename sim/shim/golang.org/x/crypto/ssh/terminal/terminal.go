// Package terminal reads passwords from the simulated terminal.
package terminal

import "verif.sim/simworld"

// ReadPassword reads a password.
func ReadPassword(fd int) ([]byte, error) {
	if simworld.W == nil || simworld.W.ReadPassword == nil {
		panic("terminal: no simulated terminal")
	}
	return simworld.W.ReadPassword(fd)
}

// IsTerminal is true.
func IsTerminal(fd int) bool { return true }
