package driver

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Request and Reply are the protocol of harness/cmd/replay.
type Request struct {
	Fn     string            `json:"fn"`
	Assign map[string]uint64 `json:"assign,omitempty"`
	Choice map[string]int64  `json:"choice,omitempty"`
	Tier   int               `json:"tier"`
	Known  []string          `json:"known,omitempty"`
	Tries  int               `json:"tries,omitempty"`
}

type Reply struct {
	Status  string   `json:"status"`
	Label   string   `json:"label,omitempty"`
	Detail  string   `json:"detail,omitempty"`
	Reached []string `json:"reached,omitempty"`
	Notes   []string `json:"notes,omitempty"`
	Hits    []string `json:"hits,omitempty"`
}

// Replayer runs assignments natively against the compiled code.
type Replayer struct {
	bin     string
	timeout time.Duration
	mu      sync.Mutex
	free    []*proc
	Runs    int64
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan string
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// buildReplay compiles the replay program from the current tree.
func buildReplay(harness, dir string, race, cli bool) (string, error) {
	name := "replay"
	args := []string{"build"}
	if race {
		name = "replay-race"
		args = append(args, "-race")
	}
	bin := filepath.Join(dir, name)
	args = append(args, "-o", bin, "./cmd/replay")
	if cli {
		c := exec.Command("go", "build", "-o", filepath.Join(dir, "jpath"), cliPkg)
		c.Dir = harness
		c.Env = append(os.Environ(), goEnv...)
		if out, err := c.CombinedOutput(); err != nil {
			return "", fmt.Errorf("go build: %v\n%s", err, out)
		}
	}
	c := exec.Command("go", args...)
	c.Dir = harness
	c.Env = append(os.Environ(), goEnv...)
	if race {
		c.Env = append(c.Env, "CGO_ENABLED=1")
	}
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, out)
	}
	return bin, nil
}

func (r *Replayer) start() (*proc, error) {
	c := exec.Command(r.bin)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: c, in: in, out: make(chan string, 1), err: &tail{}}
	c.Stderr = p.err
	if err := c.Start(); err != nil {
		return nil, err
	}
	go func() {
		rd := bufio.NewReaderSize(out, 1<<16)
		for {
			s, err := rd.ReadString('\n')
			if err != nil {
				close(p.out)
				return
			}
			p.out <- s
		}
	}()
	return p, nil
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	go func() {
		for range p.out {
		}
		p.cmd.Wait()
	}()
}

// Run replays rq.
func (r *Replayer) Run(rq *Request) *Reply {
	r.mu.Lock()
	r.Runs++
	var p *proc
	if n := len(r.free); n > 0 {
		p = r.free[n-1]
		r.free = r.free[:n-1]
	}
	r.mu.Unlock()
	if p == nil {
		var err error
		p, err = r.start()
		if err != nil {
			return &Reply{Status: "error", Detail: err.Error()}
		}
	}
	b, _ := json.Marshal(rq)
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		p.kill()
		return &Reply{Status: "error", Detail: err.Error()}
	}
	t := time.NewTimer(r.timeout)
	defer t.Stop()
	select {
	case s, ok := <-p.out:
		if !ok {
			p.cmd.Wait()
			e := p.err.String()
			label := "crash"
			switch {
			case strings.Contains(e, "DATA RACE"):
				label = "data race"
			case strings.Contains(e, "all goroutines are asleep"):
				label = "deadlock"
			case strings.Contains(e, "stack overflow") || strings.Contains(e, "stack exceeds"):
				label = "stack overflow"
			case strings.Contains(e, "out of memory"):
				label = "out of memory"
			case strings.Contains(e, "panic:"):
				label = "panic"
			}
			if len(e) > 3000 {
				e = e[:3000]
			}
			return &Reply{Status: "violation", Label: label, Detail: e}
		}
		var rp Reply
		if err := json.Unmarshal([]byte(s), &rp); err != nil {
			p.kill()
			return &Reply{Status: "error", Detail: err.Error()}
		}
		r.mu.Lock()
		r.free = append(r.free, p)
		r.mu.Unlock()
		return &rp
	case <-t.C:
		p.kill()
		return &Reply{Status: "violation", Label: "hang", Detail: fmt.Sprintf("no answer within %s", r.timeout)}
	}
}

// Close ends the processes.
func (r *Replayer) Close() {
	if r == nil {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, p := range r.free {
		p.in.Close()
		done := make(chan bool)
		go func() {
			for range p.out {
			}
			p.cmd.Wait()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(2 * time.Second):
			p.cmd.Process.Kill()
		}
	}
	r.free = nil
}

var _ = bytes.MinRead
