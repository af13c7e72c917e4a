// Code generated by genshim; DO NOT EDIT.

package terminal

import real "golang.org/x/crypto/ssh/terminal"

var ErrPasteIndicator = real.ErrPasteIndicator

type EscapeCodes = real.EscapeCodes

var GetSize = real.GetSize
var GetState = real.GetState
var MakeRaw = real.MakeRaw
var NewTerminal = real.NewTerminal
var Restore = real.Restore

type State = real.State
type Terminal = real.Terminal
