package main

// Saving a world in a process that fails part-way (spec/Worlds.tla, operation fsave).

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

// Fault says how a save fails. How: kill (before the Nth system call of the save), an error name (which the Nth
// system call of the save returns; with a + all later ones of the same name too), A>B (A at call N/20, and B at call N%20
// of those that follow), fsize and fsizedie (no file can grow beyond N bytes; the process gets an error or
// dies), fsize% (the same with N per cent of the world's text), nofile (no file can be opened), dirfile (the store's
// directory is a file), late (killed right after the save).
type Fault struct {
	How string `json:"how"`
	N   int    `json:"n"`
}

const beginMark, endMark = "/verif-save-begins", "/verif-save-ends"

// saveChild saves the world read from stdin, and exits with 0 if that was reported as a success, with 10 if not.
func saveChild(dir, how string, n int) {
	debug.SetGCPercent(-1)
	txt, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(20)
	}
	silenceStderr()
	w, err := world.FromString(string(txt))
	if err != nil || w == nil {
		os.Exit(20)
	}
	store := persistence.NewFilePersistence()
	store.SetSourcePath(dir)
	switch how {
	case "fsize", "fsizedie":
		if how == "fsize" {
			signal.Ignore(syscall.SIGXFSZ)
		}
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)})
	case "nofile":
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 3, Max: 3})
	}
	os.Lstat(beginMark)
	err = store.Save(w)
	os.Lstat(endMark)
	if how == "late" {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	}
	if err != nil {
		os.Exit(10)
	}
	os.Exit(0)
}

func init() { runtime.LockOSThread() } // the save's system calls are those of the first thread

var relevantCalls = regexp.MustCompile(`^(open|openat|openat2|creat|read|pread64|write|pwrite64|writev|fsync|fdatasync|sync_file_range|sync|syncfs|fchmod|fchmodat|fchmodat2|chmod|fchown|fchownat|chown|close|rename|renameat|renameat2|unlink|unlinkat|link|linkat|symlink|symlinkat|readlink|readlinkat|mkdir|mkdirat|rmdir|ftruncate|truncate|fallocate|copy_file_range|sendfile|splice|newfstatat|fstat|stat|lstat|statx|lseek|getdents64|flock|fcntl|faccessat|faccessat2|access|utimensat)$`)

type sysCall struct {
	name string
	nth  int // among the calls of that name made by the thread
}

var straceLine = regexp.MustCompile(`^(\d+)\s+([a-z0-9_]+)\((.*)$`)

// saveCalls lists the system calls that a save makes.
func saveCalls(logFile string) []sysCall {
	f, err := os.Open(logFile)
	if err != nil {
		return nil
	}
	defer f.Close()
	count := map[string]map[string]int{}
	out := []sysCall{}
	thread := ""
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		m := straceLine.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		if count[m[1]] == nil {
			count[m[1]] = map[string]int{}
		}
		count[m[1]][m[2]]++
		if strings.Contains(m[3], beginMark) {
			thread = m[1]
			continue
		}
		if strings.Contains(m[3], endMark) {
			return out
		}
		if m[1] == thread && relevantCalls.MatchString(m[2]) {
			out = append(out, sysCall{m[2], count[m[1]][m[2]]})
		}
	}
	return nil
}

func runSaveChild(txt, dir, how string, n int, strace []string) (code int, died bool) {
	args := append(append([]string{}, strace...), selfExe(), "savechild", "-dir", dir, "-how", how, "-n", strconv.Itoa(n))
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Stdin = bytes.NewReader([]byte(txt))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "GOMAXPROCS=1")
	cmd.Dir = filepath.Dir(dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return -1, true
	}
	t := time.AfterFunc(20*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	defer t.Stop()
	err := cmd.Wait()
	if err == nil {
		return 0, false
	}
	if x, ok := err.(*exec.ExitError); ok && x.Exited() && x.ExitCode() == 10 {
		return 10, false
	}
	return -1, true
}

func selfExe() string {
	p, err := os.Readlink("/proc/self/exe")
	if err != nil {
		return "/proc/self/exe"
	}
	return p
}

var straceBin = func() string {
	p, err := exec.LookPath("strace")
	if err != nil {
		return ""
	}
	return p
}()

func copyDir(from, to string) {
	os.MkdirAll(to, 0755)
	es, _ := os.ReadDir(from)
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err == nil {
			os.WriteFile(filepath.Join(to, e.Name()), b, 0644)
		}
	}
}

// faultySave saves the world under the fault; done is false if the fault cannot be made to happen.
func faultySave(dir string, w world.World, f Fault, st *MStep) (done bool) {
	txt := w.String()
	switch f.How {
	case "fsize%":
		return faultySave(dir, w, Fault{"fsize", len(txt) * f.N / 100}, st)
	case "fsizedie%":
		return faultySave(dir, w, Fault{"fsizedie", len(txt) * f.N / 100}, st)
	case "dirfile":
		aside := dir + "-aside"
		had := os.Rename(dir, aside) == nil
		os.WriteFile(dir, []byte("x"), 0644)
		code, died := runSaveChild(txt, dir, f.How, f.N, nil)
		os.RemoveAll(dir)
		if had {
			os.Rename(aside, dir)
		}
		st.Err, st.Died = code == 10, died
		return true
	case "fsize", "fsizedie", "nofile", "late":
		code, died := runSaveChild(txt, dir, f.How, f.N, nil)
		st.Err, st.Died = code == 10, died
		return true
	}
	if straceBin == "" {
		return false
	}
	how, second, n2 := f.How, "", 0
	if a, b, ok := strings.Cut(f.How, ">"); ok { // two faults
		how, second, n2 = a, b, f.N%20
		f.N /= 20
	}
	scratch, err := os.MkdirTemp(filepath.Dir(dir), "rehearsal-")
	if err != nil {
		return false
	}
	defer os.RemoveAll(scratch)
	log := filepath.Join(scratch, "log")
	if _, err := os.Stat(dir); err == nil {
		copyDir(dir, filepath.Join(scratch, "worlds"))
	}
	if _, died := runSaveChild(txt, filepath.Join(scratch, "worlds"), "", 0, []string{straceBin, "-f", "-o", log}); died {
		return false
	}
	calls := saveCalls(log)
	if f.N >= len(calls) {
		return false
	}
	c := calls[f.N]
	st.Txt = fmt.Sprintf("%s at %s (call %d of %d)", f.How, c.name, f.N+1, len(calls))
	trace, inject := []string{c.name}, []string{"-e", injection(how, c)}
	if second != "" {
		// What does the save do after the first fault?
		scratch2 := filepath.Join(scratch, "second")
		if _, err := os.Stat(dir); err == nil {
			copyDir(dir, scratch2)
		}
		if _, died := runSaveChild(txt, scratch2, "", 0, append([]string{straceBin, "-f", "-o", log}, inject...)); died {
			return false
		}
		calls = saveCalls(log)
		at := f.N + 1 + n2
		if at >= len(calls) || calls[at].name == c.name {
			return false // A call can be given one kind of fault only.
		}
		c2 := calls[at]
		st.Txt += fmt.Sprintf(", %s at %s (call %d of %d)", second, c2.name, at+1, len(calls))
		trace, inject = append(trace, c2.name), append(inject, "-e", injection(second, c2))
	}
	args := append([]string{straceBin, "-f", "-o", "/dev/null", "-e", "trace=" + strings.Join(trace, ",")}, inject...)
	code, died := runSaveChild(txt, dir, "", 0, args)
	st.Err, st.Died = code == 10, died
	return true
}

// injection makes the call fail, or the process die before it.
func injection(how string, c sysCall) string {
	if how == "kill" {
		return fmt.Sprintf("inject=%s:signal=KILL:when=%d", c.name, c.nth)
	}
	how, more := strings.CutSuffix(how, "+") // this call and all later ones
	s := fmt.Sprintf("inject=%s:error=%s:when=%d", c.name, how, c.nth)
	if more {
		s += "+"
	}
	return s
}
