//go:build race

// In a race build only the packages under test are compiled with -race. The
// scheduler hands the token from goroutine to goroutine with the detector's
// synchronisation tracking off, so that a simulated schedule orders nothing by
// itself: what orders two accesses is what the code under test does (go
// statements, channels, locks, ...) and, conservatively, input and output.
package simrt

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"unsafe"
)

// RaceMode says whether accesses of the code under test are checked for data
// races.
const RaceMode = true

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceReadMap(p unsafe.Pointer) {
	if p != nil {
		runtime.RaceRead(p)
	}
}
func raceErrors() int { return runtime.RaceErrors() }

var raceLog int

// raceReport describes what the detector reported since the last call about
// the code under test ("" if nothing): both accesses must be its own. (The
// runtime also checks what maps and slices the harness uses.)
func raceReport() string {
	lp := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			lp = f[9:]
		}
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", lp, os.Getpid()))
	if err != nil {
		return ""
	}
	txt := string(b[raceLog:])
	raceLog = len(b)
	for _, rep := range strings.Split(txt, "WARNING: DATA RACE")[1:] {
		var out []string
		head := ""
		lines := strings.Split(rep, "\n")
		for i := 0; i+1 < len(lines); i++ {
			l := lines[i]
			if strings.HasPrefix(l, "Goroutine ") {
				break
			}
			if j := strings.Index(l, " at 0x"); j > 0 && strings.Contains(l, "goroutine") {
				head = strings.ToLower(l[:j])
				continue
			}
			if head == "" || !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "   ") {
				continue
			}
			fn := strings.TrimSpace(l)
			if strings.HasPrefix(fn, "runtime.") {
				continue
			}
			if strings.Contains(fn, "philhofer/seth") {
				loc := strings.Fields(lines[i+1])
				out = append(out, head+" in "+strings.TrimPrefix(fn, "github.com/philhofer/")+" ("+filepath.Base(loc[0])+")")
			}
			head = ""
		}
		if len(out) >= 2 {
			return strings.Join(out[:2], ", ")
		}
	}
	return ""
}
