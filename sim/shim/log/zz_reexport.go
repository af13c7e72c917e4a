// Code generated by genshim; DO NOT EDIT.

package log

import real "log"

var Default = real.Default
var Flags = real.Flags

const LUTC = real.LUTC
const Ldate = real.Ldate
const Llongfile = real.Llongfile
const Lmicroseconds = real.Lmicroseconds
const Lmsgprefix = real.Lmsgprefix

type Logger = real.Logger

const Lshortfile = real.Lshortfile
const LstdFlags = real.LstdFlags
const Ltime = real.Ltime

var New = real.New
var Output = real.Output
var Panicln = real.Panicln
var Prefix = real.Prefix
var Writer = real.Writer
