// Command mc runs the exploration that decides one property.
//
// It re-executes itself as a child so that crashes the Go runtime does not let a
// program recover from (stack exhaustion, out of memory, fatal faults) are reported
// as violations of the explored property instead of killing the check.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"verif/mc/kit"
	_ "verif/mc/props"
)

func main() {
	prop := flag.String("prop", "", "property id")
	out := flag.String("out", "/verif", "directory for evidence and replays")
	only := flag.String("only", "", "sub#index of a single case")
	flag.Parse()
	if a := os.Getenv("MC_AUX"); a != "" {
		kit.RunAux(a)
		os.Exit(0)
	}
	c := kit.Lookup(*prop)
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop, "known:", kit.IDs())
		os.Exit(2)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if os.Getenv("MC_CHILD") == "1" {
		var lim syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_AS, &lim)
		if lim.Max > 22<<30 {
			lim.Cur = 22 << 30
		}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		kit.Main(c, thorough, seed, *out, *only)
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "MC_CHILD=1", "GOTRACEBACK=all")
	cmd.Stdout = os.Stdout
	var errBuf tail
	cmd.Stderr = &errBuf
	err := cmd.Run()
	if err == nil {
		os.Exit(0)
	}
	code := cmd.ProcessState.ExitCode()
	if code == 1 {
		os.Exit(1)
	}
	text := errBuf.head.String()
	for _, sig := range []string{"stack exceeds", "fatal error: stack overflow", "concurrent map", "SIGSEGV", "unexpected fault address",
		"out of memory", "cannot allocate memory", "found bad pointer", "invalid pointer", "panic:"} {
		if strings.Contains(text, sig) {
			dir := filepath.Join(*out, "out", "replay")
			os.MkdirAll(dir, 0o755)
			p := filepath.Join(dir, *prop+".crash.txt")
			os.WriteFile(p, []byte(text), 0o644)
			fmt.Printf("the explored code crashed the process (%s)\n%s\n", sig, clip(text, 3000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
			os.Exit(1)
		}
	}
	fmt.Fprintln(os.Stderr, clip(text, 4000))
	fmt.Fprintln(os.Stderr, "check process failed:", err)
	os.Exit(2)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

// tail keeps the first 256 KB of what the child wrote to standard error.
type tail struct{ head bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.head.Len() < 256<<10 {
		t.head.Write(p)
	}
	return len(p), nil
}
