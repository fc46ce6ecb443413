package texts

import (
	"bufio"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

// Reload signals the parent of the calling process.  It runs in a process C made for it, whose parent P
// (also made for it, in a process group of their own) counts the signals it gets; a bystander B in the
// same group does too.  All of them are this binary, run as an unprivileged user.

var caught = []os.Signal{syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT, syscall.SIGUSR1, syscall.SIGUSR2,
	syscall.SIGALRM, syscall.SIGCONT, syscall.SIGABRT, syscall.SIGWINCH, syscall.SIGTSTP, syscall.SIGTTIN, syscall.SIGTTOU}

type counts struct{ hup, other int64 }

func (c *counts) listen() {
	ch := make(chan os.Signal, 1000)
	signal.Notify(ch, caught...)
	go func() {
		for s := range ch {
			if s == syscall.SIGHUP {
				atomic.AddInt64(&c.hup, 1)
			} else {
				atomic.AddInt64(&c.other, 1)
			}
		}
	}()
}

func role(name string, in, out *os.File, env ...string) *exec.Cmd {
	c := exec.Command(os.Args[0], "-test.run", "^TestReloadRole$")
	c.Env = append(append([]string{}, os.Environ()...), append(env, "ZZ_ROLE="+name)...)
	c.ExtraFiles = []*os.File{in, out}
	return c
}

func pipe() (r, w *os.File) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(core.Bug(err.Error()))
	}
	return r, w
}

func start(name string, env ...string) (c *exec.Cmd, in *os.File, out *bufio.Reader) {
	r0, w0 := pipe()
	r1, w1 := pipe()
	c = role(name, r0, w1, env...)
	if name == "parent" {
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	}
	if err := c.Start(); err != nil {
		panic(core.Bug(err.Error()))
	}
	r0.Close()
	w1.Close()
	return c, w0, bufio.NewReader(r1)
}

func TestReloadRole(t *testing.T) {
	name := os.Getenv("ZZ_ROLE")
	if name == "" {
		t.Skip()
	}
	in, out := bufio.NewReader(os.NewFile(3, "in")), os.NewFile(4, "out")
	say := func(f string, a ...interface{}) { fmt.Fprintf(out, f+"\n", a...) }
	var mine counts
	switch name {
	case "child":
		// each line: the PATH to find programs in
		say("ready")
		for {
			l, err := in.ReadString('\n')
			if err != nil {
				os.Exit(0)
			}
			os.Setenv("PATH", strings.TrimSuffix(l, "\n"))
			if e := utils.Reload(); e == nil {
				say("ok")
			} else {
				say("err")
			}
		}
	case "bystander":
		mine.listen()
		say("ready")
		for {
			if _, err := in.ReadString('\n'); err != nil {
				os.Exit(0)
			}
			say("%d", atomic.LoadInt64(&mine.hup)+atomic.LoadInt64(&mine.other))
		}
	case "parent":
		mine.listen()
		_, bin, bout := start("bystander")
		_, cin, cout := start("child")
		bout.ReadString('\n')
		cout.ReadString('\n')
		say("ready")
		missed := false
		for {
			l, err := in.ReadString('\n')
			if err != nil {
				os.Exit(0)
			}
			before := atomic.LoadInt64(&mine.hup) + atomic.LoadInt64(&mine.other)
			io.WriteString(cin, l)
			r, err := cout.ReadString('\n')
			if err != nil {
				r = "gone\n"
			}
			// a signal that was sent arrives; give it time
			wait := 50 * time.Millisecond
			if r == "ok\n" && !missed {
				wait = 5 * time.Second
			}
			for end := time.Now().Add(wait); time.Now().Before(end) && atomic.LoadInt64(&mine.hup)+atomic.LoadInt64(&mine.other) == before; {
				time.Sleep(time.Millisecond)
			}
			if r == "ok\n" && atomic.LoadInt64(&mine.hup)+atomic.LoadInt64(&mine.other) == before {
				missed = true // this history is rejected whatever comes; no need to be patient
			}
			time.Sleep(5 * time.Millisecond)
			b := "-1\n"
			if _, err := io.WriteString(bin, "\n"); err == nil {
				if x, err := bout.ReadString('\n'); err == nil {
					b = x
				}
			}
			say("%s %d %d %s", strings.TrimSpace(r), atomic.LoadInt64(&mine.hup), atomic.LoadInt64(&mine.other), strings.TrimSpace(b))
		}
	}
}

type reloadObj struct {
	cmd *exec.Cmd
	in  *os.File
	out *bufio.Reader
	o   core.A
	dir map[string]string
}

func newReload() *reloadObj {
	x := &reloadObj{o: core.A{0, 0, 0}, dir: map[string]string{}}
	real, err := exec.LookPath("kill")
	if err != nil {
		panic(core.Bug(err.Error()))
	}
	wd, _ := os.Getwd()
	x.dir["works"] = filepath.Dir(real)
	for name, script := range map[string]string{"none": "", "fails": "#!/bin/sh\nexit 1\n", "crashes": "#!/bin/sh\nexit 139\n"} {
		d := filepath.Join(wd, "path-"+name)
		os.MkdirAll(d, 0o755)
		if script != "" {
			f := filepath.Join(d, "kill")
			if _, err := os.Stat(f); err != nil {
				if err := os.WriteFile(f, []byte(script), 0o755); err != nil {
					panic(core.Bug(err.Error()))
				}
			}
		}
		x.dir[name] = d
	}
	x.cmd, x.in, x.out = start("parent")
	if l, err := x.out.ReadString('\n'); err != nil || l != "ready\n" {
		panic(core.Bug("no parent process"))
	}
	return x
}

func (x *reloadObj) Obs() interface{} { return append(core.A{}, x.o...) }

func (x *reloadObj) Do(c core.M) core.A {
	if core.S(c, "op") == "End" {
		x.in.Close()
		x.cmd.Wait()
		return core.A{"v"}
	}
	if _, err := io.WriteString(x.in, x.dir[core.S(c, "kill")]+"\n"); err != nil {
		return core.A{"gone"}
	}
	l, err := x.out.ReadString('\n')
	if err != nil {
		return core.A{"gone"}
	}
	var r string
	var h, o, b int
	if n, _ := fmt.Sscanf(l, "%s %d %d %d", &r, &h, &o, &b); n != 4 {
		panic(core.Bug("answer " + l))
	}
	x.o = core.A{h, o, b}
	return core.A{r}
}

func TestU13(t *testing.T) {
	o := core.Open()
	kinds := []string{"works", "none", "fails", "crashes"}
	core.Run(o, core.Opts{
		New: func(core.M) core.Obj { return newReload() }, Cfgs: []core.M{{}}, Salt: 89, N: 6, Len: 12,
		Extra: func(one func(core.M, []core.M)) {
			for _, a := range kinds {
				for _, b := range kinds {
					one(core.M{}, []core.M{{"op": "Reload", "kill": a}, {"op": "Reload", "kill": b}, {"op": "Reload", "kill": a}, {"op": "End"}})
				}
			}
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			left := 10
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				if left--; left == 0 {
					return core.M{"op": "End"}
				} else if left < 0 {
					return nil
				}
				return core.M{"op": "Reload", "kill": kinds[r.Intn(4)]}
			}
		},
	})
	o.Close()
}
