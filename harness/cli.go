//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
)

// CLI is the observed end of a command.
type CLI struct {
	Args    []string
	Out     string
	Err     string
	Code    int
	Signal  string
	Timeout bool
}

// Crashed reports a Go runtime panic, fatal error or deadlock (these exit with
// status 2, like a usage error, so the stderr text is what tells them apart),
// or death by signal.
func (r CLI) Crashed() bool {
	if r.Signal != "" && !r.Timeout {
		return true
	}
	for _, mark := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds", "SIGSEGV"} {
		if strings.Contains(r.Err, mark) && strings.Contains(r.Err, "goroutine ") {
			return true
		}
	}
	return false
}

func (r CLI) String() string {
	return fmt.Sprintf("args=%q code=%d signal=%q timeout=%v stdout=%q stderr=%q", r.Args, r.Code, r.Signal, r.Timeout, clip(r.Out, 1500), clip(r.Err, 2500))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

const cliTimeout = 80 * time.Second

// runCmd runs a binary with limited address space in a scratch directory. A
// run that exceeds the time limit is repeated once before it is believed.
func runCmd(bin string, stdin string, args ...string) CLI {
	r := runCmdOnce(bin, stdin, cliTimeout, args...)
	if r.Timeout {
		r = runCmdOnce(bin, stdin, cliTimeout, args...)
	}
	return r
}

func runCmdOnce(bin string, stdin string, limit time.Duration, args ...string) CLI {
	sh := []string{"-c", "ulimit -v 12000000; ulimit -c 0; exec \"$0\" \"$@\"", bin}
	if os.Getenv("VERIF_RACE") != "" {
		sh[1] = "ulimit -c 0; exec \"$0\" \"$@\""
	}
	cmd := exec.Command("/bin/sh", append(sh, args...)...)
	cmd.Stdin = strings.NewReader(stdin)
	var ob, eb bytes.Buffer
	cmd.Stdout = &capWriter{b: &ob, max: 64 << 20}
	cmd.Stderr = &capWriter{b: &eb, max: 8 << 20}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	r := CLI{Args: args}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan struct{})
	t := time.AfterFunc(limit, func() {
		r.Timeout = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	go func() { cmd.Wait(); close(done) }()
	<-done
	t.Stop()
	r.Out, r.Err = ob.String(), eb.String()
	r.Code = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.Signal = ws.Signal().String()
	}
	return r
}

// addchainCmd runs the addchain binary built from the working tree.
func (c *Ctx) addchainCmd(stdin string, args ...string) CLI {
	c.Count("commands", 1)
	return runCmd(c.run.bin, stdin, args...)
}
