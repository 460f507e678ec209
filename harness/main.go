// Command vdrv is the conformance driver: it generates cases, runs them against the real
// datawire/ocibuild code (only through its exported API and its command line), and writes what it
// observed as one JSON event per case.  It contains no oracle; the TLA+ specifications in
// /verif/spec judge the events.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"sync"
	"syscall"
	"time"
)

// J is a JSON object.
type J = map[string]interface{}

// Suite is a family of cases.
type Suite struct {
	// Gen makes the i'th random case.
	Gen func(rng *rand.Rand, i int) interface{}
	// Exec runs one case against the real code and returns the event.
	Exec func(raw json.RawMessage) interface{}
	// Init, if any, is called once per worker.
	Init func()
	// Serial cases are not run concurrently in several workers.
	Serial bool
}

var suites = map[string]*Suite{}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: vdrv gen|exec|worker SUITE [flags]")
	}
	cmd, name := os.Args[1], os.Args[2]
	suite, ok := suites[name]
	if !ok {
		fatal("no such suite %q", name)
	}
	fset := flag.NewFlagSet("vdrv", flag.ExitOnError)
	seed := fset.Int64("seed", 1, "")
	num := fset.Int("n", 100, "")
	jobs := fset.Int("j", 8, "")
	timeout := fset.Duration("timeout", 20*time.Second, "")
	budget := fset.Duration("budget", 100*time.Hour, "")
	_ = fset.Parse(os.Args[3:])
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	switch cmd {
	case "gen":
		for i := 0; i < *num; i++ {
			rng := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
			bs, err := json.Marshal(suite.Gen(rng, i))
			if err != nil {
				fatal("gen: %v", err)
			}
			out.Write(bs)
			out.WriteByte('\n')
		}
	case "exec":
		if suite.Serial {
			*jobs = 1
		}
		execAll(name, *jobs, *timeout, *budget, out)
	case "worker":
		worker(suite)
	case "now":
		nowHelper()
	default:
		fatal("bad command %q", cmd)
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vdrv: "+f+"\n", a...)
	os.Exit(3)
}

// aside moves a standard stream out of the reach of the code under test, which gets /dev/null instead.
func aside(fd int, name string) *os.File {
	own, err := syscall.Dup(fd)
	if err != nil {
		fatal("dup: %v", err)
	}
	syscall.CloseOnExec(own)
	null, err := syscall.Open("/dev/null", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
	if err != nil {
		fatal("/dev/null: %v", err)
	}
	if err := syscall.Dup3(null, fd, 0); err != nil {
		fatal("dup3: %v", err)
	}
	_ = syscall.Close(null)
	return os.NewFile(uintptr(own), name)
}

// worker reads cases from stdin and writes events to stdout.
func worker(suite *Suite) {
	stdin, out := aside(0, "stdin"), bufio.NewWriterSize(aside(1, "stdout"), 1<<20)
	debug.SetMaxStack(128 << 20)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	if suite.Init != nil {
		suite.Init()
	}
	in := bufio.NewReaderSize(stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			ev := protect(suite, line)
			bs, err := json.Marshal(ev)
			if err != nil {
				fatal("event: %v", err)
			}
			out.Write(bs)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}

// abnormal builds an event for a case in which the real code did not return.
func abnormal(raw json.RawMessage, outcome, text string) interface{} {
	return J{"case": raw, "abnormal": outcome, "text": text}
}

func protect(suite *Suite, raw json.RawMessage) (ev interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if de, ok := r.(driverError); ok {
				fatal("driver error: %v", de.err)
			}
			ev = abnormal(raw, "panic", fmt.Sprintf("%v\n%s", r, debug.Stack()))
		}
	}()
	return J{"case": raw, "abnormal": "", "ev": suite.Exec(raw)}
}

// driverError marks a failure of the harness itself, which is never a verdict.
type driverError struct{ err error }

func must(err error) {
	if err != nil {
		panic(driverError{err})
	}
}

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailWriter
}

type tailWriter struct {
	mu  sync.Mutex
	buf []byte
}

func (w *tailWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.buf) < 8192 {
		w.buf = append(w.buf, p...)
	}
	return len(p), nil
}

func (w *tailWriter) String() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.buf) > 4096 {
		return string(w.buf[:4096])
	}
	return string(w.buf)
}

func start(name string) *proc {
	cmd := exec.Command(os.Args[0], "worker", name)
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal("%v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal("%v", err)
	}
	tw := &tailWriter{}
	cmd.Stderr = tw
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<20), tw}
}

type result struct {
	line []byte
	err  error
}

// one runs a single case; a nil line means that the worker died or hung.
func (p *proc) one(c []byte, timeout time.Duration) (line []byte, hung bool) {
	ch := make(chan result, 1)
	go func() {
		if _, err := p.in.Write(c); err != nil {
			ch <- result{nil, err}
			return
		}
		l, err := p.out.ReadBytes('\n')
		ch <- result{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			return nil, false
		}
		return r.line, false
	case <-time.After(timeout):
		_ = p.cmd.Process.Kill()
		<-ch
		return nil, true
	}
}

func execAll(name string, jobs int, timeout, budget time.Duration, out *bufio.Writer) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	var cases [][]byte
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			if line[len(line)-1] != '\n' {
				line = append(line, '\n')
			}
			cases = append(cases, line)
		}
		if err != nil {
			break
		}
	}
	events := make([][]byte, len(cases))
	next := make(chan int)
	var wg sync.WaitGroup
	var slow sync.Mutex // abnormal cases are re-run one at a time
	confirmed := 0      // under slow
	enough := make(chan struct{})
	needed, patience := 3, 3*timeout
	if timeout > 15*time.Second {
		needed, patience = 1, 2*timeout
	}
	for w := 0; w < jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			for i := range next {
				if p == nil {
					p = start(name)
				}
				line, _ := p.one(cases[i], timeout)
				if line == nil {
					_ = p.cmd.Wait()
					if p.cmd.ProcessState != nil && p.cmd.ProcessState.ExitCode() == 3 {
						fatal("worker: %s", p.stderr)
					}
					// Confirm it in isolation, in a fresh process and with a longer limit.
					slow.Lock()
					if confirmed >= needed {
						// The verdict is already certain; do not spend the time budget on more.
						slow.Unlock()
						fmt.Fprintln(os.Stderr, "vdrv: stopped: a case that does not return is left out")
						p = nil
						continue
					}
					q := start(name)
					l2, hung := q.one(cases[i], patience)
					if l2 != nil {
						line = l2
						_ = q.in.Close()
						_ = q.cmd.Wait()
					} else {
						_ = q.cmd.Wait()
						if q.cmd.ProcessState != nil && q.cmd.ProcessState.ExitCode() == 3 {
							fatal("worker: %s", q.stderr)
						}
						confirmed++
						if confirmed == needed {
							close(enough)
						}
						outcome := "crash"
						if hung {
							outcome = "hang"
						}
						line, _ = json.Marshal(abnormal(json.RawMessage(cases[i]), outcome, q.stderr.String()))
						line = append(line, '\n')
					}
					slow.Unlock()
					p = nil
				}
				events[i] = line
			}
			if p != nil {
				_ = p.in.Close()
				_ = p.cmd.Wait()
			}
		}()
	}
	// The verdict is certain after some confirmed crashes or hangs, and there is only so much time.
	late := time.After(budget)
dispatch:
	for i := range cases {
		select {
		case next <- i:
		case <-enough:
			fmt.Fprintln(os.Stderr, "vdrv: stopped: enough cases do not return")
			break dispatch
		case <-late:
			fmt.Fprintln(os.Stderr, "vdrv: stopped: out of time")
			break dispatch
		}
	}
	close(next)
	wg.Wait()
	for _, ev := range events {
		out.Write(ev)
	}
}
