// Package exec runs simulated child processes.
package exec

import (
	"context"

	"verif.sim/simworld"
)

type Cmd = simworld.Cmd
type ExitError = simworld.ExitError

// Command makes a command.
func Command(name string, arg ...string) *Cmd { return simworld.Command(name, arg...) }

// CommandContext makes a command.
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	return simworld.Command(name, arg...)
}

// LookPath finds every program.
func LookPath(name string) (string, error) { return "/usr/bin/" + name, nil }
