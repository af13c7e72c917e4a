// Code generated by genshim; DO NOT EDIT.

package exec

import real "os/exec"

var ErrDot = real.ErrDot
var ErrNotFound = real.ErrNotFound
var ErrWaitDelay = real.ErrWaitDelay

type Error = real.Error
