// Package os is package os on the simulated machine.
package os

import (
	"io/fs"
	real "os"
	"strings"
	"syscall"
	"time"

	"verif.sim/simworld"
)

type File = simworld.File
type LinkError = simworld.LinkError
type Process = simworld.Process
type ProcessState = simworld.ProcState

var (
	Stdin  = simworld.StdFile(1, "/dev/stdin")
	Stdout = simworld.StdFile(2, "/dev/stdout")
	Stderr = simworld.StdFile(3, "/dev/stderr")
	Args   = []string{"sim"}
)

func unsupported(n string) { panic("os: " + n + " is not simulated") }

func Open(name string) (*File, error) { return simworld.OpenFile(name, 0, 0) }
func Create(name string) (*File, error) {
	return simworld.OpenFile(name, syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC, 0666)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return simworld.OpenFile(name, flag, perm)
}
func ReadFile(name string) ([]byte, error) { return simworld.ReadFile(name) }
func WriteFile(name string, b []byte, perm fs.FileMode) error {
	return simworld.WriteFile(name, b, perm)
}
func ReadDir(name string) ([]fs.DirEntry, error)   { return simworld.ReadDir(name) }
func Stat(name string) (fs.FileInfo, error)        { return simworld.Stat(name) }
func Lstat(name string) (fs.FileInfo, error)       { return simworld.Stat(name) }
func SameFile(a, b fs.FileInfo) bool               { return simworld.SameFile(a, b) }
func Mkdir(name string, perm fs.FileMode) error    { return simworld.Mkdir(name, perm) }
func MkdirAll(name string, perm fs.FileMode) error { return simworld.MkdirAll(name, perm) }
func Remove(name string) error                     { return simworld.Remove(name) }
func RemoveAll(name string) error                  { return simworld.RemoveAll(name) }
func Rename(a, b string) error                     { return simworld.Rename(a, b) }
func Link(a, b string) error                       { return simworld.Link(a, b) }
func Chmod(name string, m fs.FileMode) error       { _, err := simworld.Stat(name); return err }
func TempDir() string                              { return simworld.TempDir() }
func MkdirTemp(dir, pattern string) (string, error) {
	_, n, err := simworld.Temp(dir, pattern, true)
	return n, err
}
func CreateTemp(dir, pattern string) (*File, error) {
	f, _, err := simworld.Temp(dir, pattern, false)
	return f, err
}
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, syscall.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
func Getenv(k string) string            { v, _ := simworld.Getenv(k); return v }
func LookupEnv(k string) (string, bool) { return simworld.Getenv(k) }
func Setenv(k, v string) error          { simworld.Cur().Env[k] = v; return nil }
func Unsetenv(k string) error           { delete(simworld.Cur().Env, k); return nil }
func Clearenv()                         { simworld.Cur().Env = map[string]string{} }
func ExpandEnv(s string) string         { return real.Expand(s, Getenv) }
func Environ() []string {
	var out []string
	for k, v := range simworld.Cur().Env {
		out = append(out, k+"="+v)
	}
	return out
}
func Exit(code int)                  { simworld.Cur().Exit(code) }
func Getpid() int                    { return simworld.Cur().Pid }
func Getppid() int                   { return 1 }
func Getuid() int                    { return 1000 }
func Geteuid() int                   { return 1000 }
func Getgid() int                    { return 1000 }
func Getwd() (string, error)         { return simworld.Cur().Cwd, nil }
func Hostname() (string, error)      { return "sim", nil }
func UserHomeDir() (string, error)   { return Getenv("HOME"), nil }
func UserCacheDir() (string, error)  { return Getenv("HOME") + "/.cache", nil }
func UserConfigDir() (string, error) { return Getenv("HOME") + "/.config", nil }
func Executable() (string, error)    { return "/usr/bin/sim", nil }
func Chdir(d string) error           { simworld.Cur().Cwd = d; return nil }
func Symlink(a, b string) error      { unsupported("Symlink"); return nil }
func Readlink(a string) (string, error) {
	return "", &fs.PathError{Op: "readlink", Path: a, Err: syscall.EINVAL}
}
func NewFile(fd uintptr, name string) *File {
	if fd < 3 {
		return simworld.StdFile(int(fd)+1, name)
	}
	return nil
}
func Pipe() (*File, *File, error)   { unsupported("Pipe"); return nil, nil, nil }
func DirFS(string) fs.FS            { unsupported("DirFS"); return nil }
func CopyFS(string, fs.FS) error    { unsupported("CopyFS"); return nil }
func Chown(string, int, int) error  { unsupported("Chown"); return nil }
func Lchown(string, int, int) error { unsupported("Lchown"); return nil }
func StartProcess(string, []string, *real.ProcAttr) (*Process, error) {
	unsupported("StartProcess")
	return nil, nil
}
func FindProcess(int) (*Process, error) { unsupported("FindProcess"); return nil, nil }
func Expand(s string, f func(string) string) string {
	return real.Expand(s, f)
}
func IsExist(err error) bool      { return isErr(err, real.IsExist) }
func IsNotExist(err error) bool   { return isErr(err, real.IsNotExist) }
func IsPermission(err error) bool { return isErr(err, real.IsPermission) }
func isErr(err error, f func(error) bool) bool {
	if le, ok := err.(*LinkError); ok {
		err = le.Err
	}
	return f(err)
}

var _ = strings.Join

// Chtimes is ignored.
func Chtimes(string, time.Time, time.Time) error { return nil }

// OpenRoot is not simulated.
func OpenRoot(string) (*real.Root, error) { unsupported("OpenRoot"); return nil, nil }

// OpenInRoot is not simulated.
func OpenInRoot(string, string) (*real.File, error) { unsupported("OpenInRoot"); return nil, nil }
