package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
)

// A second build of the simulator carries Go's race detector. Handing control
// from client to client is hidden from it, so that two clients of a simulated
// run are ordered only by what the library itself does; an access pair of the
// library which nothing orders is a data race of that history.

func raceBinary() string { return self() + "race" }

const raceMark = "simverif"

// raceEnsure restarts a race-detecting simulator with the detector set up.
func raceEnsure() {
	if !raceBuild || strings.Contains(os.Getenv("GORACE"), raceMark) {
		return
	}
	env := append(childEnv(), raceEnv())
	if err := syscall.Exec(self(), os.Args, env); err != nil {
		fatal("%v", err)
	}
}

func raceEnv() string {
	dir, err := os.MkdirTemp("", "simverif")
	if err != nil {
		fatal("%v", err)
	}
	return "GORACE=log_path=" + dir + "/race exitcode=0 halt_on_error=0 history_size=5 suppress_equal_stacks=0 suppress_equal_addresses=0"
}

func raceLogPath() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return fmt.Sprintf("%s.%d", f[len("log_path="):], os.Getpid())
		}
	}
	return ""
}

func raceCleanup(env string) {
	for _, f := range strings.Fields(strings.TrimPrefix(env, "GORACE=")) {
		os.SimHook = nil
		if strings.HasPrefix(f, "log_path=") && strings.Contains(f, raceMark) {
			d := strings.TrimSuffix(f[len("log_path="):], "/race")
			if l, err := os.ReadDir(d); err == nil {
				for _, e := range l {
					if strings.HasPrefix(e.Name(), "race.") {
						os.Remove(d + "/" + e.Name())
					}
				}
			}
			os.Remove(d)
		}
	}
}

var raceOff int64

// raceReports reads what the detector wrote since the last call.
func raceReports() string {
	fd, err := syscall.Open(raceLogPath(), syscall.O_RDONLY, 0)
	if err != nil {
		return ""
	}
	defer syscall.Close(fd)
	var out []byte
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Pread(fd, buf, raceOff)
		if n <= 0 || err != nil {
			break
		}
		raceOff += int64(n)
		out = append(out, buf[:n]...)
	}
	return string(out)
}

// libraryRace finds a report both of whose accesses are the library's.
func libraryRace(text string) string {
	for _, rep := range strings.Split(text, "WARNING: DATA RACE") {
		var where []string
		ok := true
		for _, part := range strings.Split(rep, "\n\n") {
			lines := strings.Split(strings.TrimLeft(part, "\n"), "\n")
			h := strings.TrimSpace(lines[0])
			if !strings.Contains(h, " at 0x") || !strings.Contains(h, "by ") {
				continue
			}
			owner := ""
			for _, l := range lines[1:] {
				f := strings.TrimSpace(l)
				if strings.HasPrefix(f, "main.") {
					break
				}
				if strings.HasPrefix(f, "github.com/avast/") {
					owner = f
					break
				}
			}
			if owner == "" {
				ok = false
				break
			}
			where = append(where, strings.ToLower(strings.SplitN(h, " at ", 2)[0])+" in "+owner)
		}
		if ok && len(where) == 2 {
			return strings.Join(where, ", ")
		}
	}
	return ""
}

func execRace(args []string) {
	if err := syscall.Exec(raceBinary(), append([]string{raceBinary()}, args...), append(childEnv(), raceEnv())); err != nil {
		fatal("%v", err)
	}
}
