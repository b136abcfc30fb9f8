package main

// A pool of worker processes; a job that kills or hangs its worker is run again up to that step, which is then
// recorded as a crash.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

const stepTimeout = 30 * time.Second

type wproc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan string
}

func startWorker() (*wproc, error) {
	cmd := exec.Command("/proc/self/exe", "worker")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	p := &wproc{cmd: cmd, in: in, lines: make(chan string, 64)}
	go func() {
		rd := bufio.NewReaderSize(r, 1<<20)
		for {
			s, err := rd.ReadString('\n')
			if err != nil {
				break
			}
			p.lines <- s
		}
		close(p.lines)
		r.Close()
	}()
	return p, nil
}

func (p *wproc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	for range p.lines {
	}
	p.cmd.Wait()
}

// one runs a job; it returns the result line or the step at which the worker died.
func (p *wproc) one(job []byte) (res string, step int, kind string) {
	if _, err := p.in.Write(append(job, '\n')); err != nil {
		return "", 0, "died"
	}
	t := time.NewTimer(stepTimeout)
	defer t.Stop()
	for {
		select {
		case s, ok := <-p.lines:
			if !ok {
				return "", step, "died"
			}
			if strings.HasPrefix(s, "S ") {
				fmt.Sscanf(s, "S %d", &step)
				if !t.Stop() {
					<-t.C
				}
				t.Reset(stepTimeout)
				continue
			}
			return s[2:], step, ""
		case <-t.C:
			return "", step, "hang"
		}
	}
}

// runPool runs every job line of in and writes result lines to out.
func runPool(in io.Reader, out io.Writer, workers int) (done, crashed int, err error) {
	jobs := make(chan []byte, 64)
	var mu sync.Mutex
	bw := bufio.NewWriterSize(out, 1<<20)
	var wg sync.WaitGroup
	var firstErr error
	hung := 0
	fail := func(e error) {
		mu.Lock()
		if firstErr == nil {
			firstErr = e
		}
		mu.Unlock()
	}
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *wproc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for job := range jobs {
				mu.Lock()
				skip := firstErr != nil || crashed > 30 || hung > 3
				mu.Unlock()
				if skip {
					continue // enough has been seen
				}
				for attempt := 0; ; attempt++ {
					if p == nil {
						var e error
						if p, e = startWorker(); e != nil {
							fail(e)
							break
						}
					}
					res, step, kind := p.one(job)
					if kind == "" {
						mu.Lock()
						var many []json.RawMessage
						if strings.HasPrefix(res, "[") && json.Unmarshal([]byte(res), &many) == nil {
							for _, m := range many {
								bw.Write(m)
								bw.WriteByte('\n')
							}
						} else {
							bw.WriteString(res)
						}
						done++
						if attempt > 0 {
							crashed++
						}
						mu.Unlock()
						break
					}
					p.stop()
					p = nil
					if kind == "hang" {
						mu.Lock()
						hung++
						mu.Unlock()
					}
					if attempt > 6 {
						fail(fmt.Errorf("worker keeps failing (%s at step %d): %.300s", kind, step, job))
						break
					}
					if attempt > 2 {
						step = 1
					}
					m := map[string]json.RawMessage{}
					if e := json.Unmarshal(job, &m); e != nil {
						fail(e)
						break
					}
					if step == 0 {
						step = 1
					}
					m["crash_at"] = json.RawMessage(fmt.Sprint(step))
					m["crash_kind"] = json.RawMessage(`"` + kind + `"`)
					job, _ = json.Marshal(m)
				}
			}
		}()
	}
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, e := rd.ReadBytes('\n')
		if len(line) > 1 {
			jobs <- line[:len(line)-1]
		}
		if e != nil {
			break
		}
	}
	close(jobs)
	wg.Wait()
	bw.Flush()
	return done, crashed, firstErr
}
