package files

import (
	"crypto/md5"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type upload struct {
	dir  string
	path map[string]string // chunk -> path returned when it was stored
	size map[string]int
}

func digest(d int) string {
	s := md5.Sum([]byte("upload"))
	h := hex.EncodeToString(s[:])
	switch d { // digests that resemble each other
	case 2:
		return h[:31]
	case 3:
		return h[:30] + "zz"
	case 4:
		return "f" + h
	case 5:
		return strings.ToUpper(h)
	}
	return h
}

func newUpload(core.M) core.Obj {
	return &upload{dir: scratch(), path: map[string]string{}, size: map[string]int{}}
}

func ck(d int, n string, k int) string { return fmt.Sprintf("%d/%s/%d", d, n, k) }

// total size of what an assembly has to write at most
func (x *upload) total(d int, n string) int {
	t := 0
	for k := 0; ; k++ {
		s, ok := x.size[ck(d, n, k)]
		if !ok {
			return t
		}
		if s < 0 {
			return 0 // cut short
		}
		t += s
	}
}

func (x *upload) Do(c core.M) core.A {
	d := 0
	if c["d"] != nil {
		d = core.I(c, "d")
	}
	n, _ := c["n"].(string)
	mk := func() core.A {
		p, err := utils.MakeFile(n, digest(d))
		if err != nil {
			return core.A{"err"}
		}
		return core.A{"v", fileSymbols(p)}
	}
	switch c["op"] {
	case "Put", "PutFull":
		k := core.I(c, "k")
		b := bytesOf(core.Is(c, "v"))
		keep := string(b)
		var p string
		var err error
		put := func() { p, err = utils.BreakPointContinue(b, n, k, core.I2(c, "total", 9), digest(d)) }
		if c["op"] == "Put" {
			put()
		} else {
			limited(core.I(c, "lim"), put)
		}
		if string(b) != keep {
			return core.A{"input changed"}
		}
		if err != nil {
			x.path[ck(d, n, k)], x.size[ck(d, n, k)] = p, -1
			return core.A{"err"}
		}
		x.path[ck(d, n, k)], x.size[ck(d, n, k)] = p, len(b)
		return core.A{"v", fileSymbols(p)}
	case "Make":
		return mk()
	case "MakeFull":
		t := x.total(d, n)
		if t == 0 {
			panic(core.Bug("nothing to cut"))
		}
		var r core.A
		limited(core.I2(c, "lim", t-1)%t, func() { r = mk() })
		return r
	case "MakeHidden":
		p := x.path[ck(d, n, core.I2(c, "k", 0))]
		must(os.Chmod(p, 0))
		r := mk()
		must(os.Chmod(p, 0o644))
		return r
	case "Crash":
		t := x.total(d, n)
		if t == 0 {
			panic(core.Bug("nothing to cut"))
		}
		cmd := exec.Command(os.Args[0], "-test.run", "^TestU01Child$")
		cmd.Env = append(os.Environ(), "VERIF_NAME="+n, "VERIF_MD5="+digest(d), "VERIF_LIMIT="+strconv.Itoa(core.I2(c, "lim", t/2)%t))
		err := cmd.Run()
		if cmd.ProcessState == nil {
			panic(core.Bug(err.Error()))
		}
		var ee *exec.ExitError
		if errors.As(err, &ee) && ee.ExitCode() == 7 {
			return core.A{"survived"}
		}
		return core.A{"dead"}
	case "Drop":
		if err := utils.RemoveChunk(digest(d)); err != nil {
			return core.A{"err"}
		}
		for k := range x.size {
			if k[:2] == fmt.Sprintf("%d/", d) {
				delete(x.size, k)
				delete(x.path, k)
			}
		}
		return core.A{}
	case "Check":
		b := bytesOf(core.Is(c, "v"))
		s := md5.Sum(bytesOf(core.Is(c, "v2")))
		return core.A{"b", utils.CheckMd5(b, hex.EncodeToString(s[:]))}
	}
	panic(core.Bug("op"))
}

func (x *upload) Obs() interface{} {
	out := core.A{}
	for _, n := range sortedNames("fileDir") {
		out = append(out, core.A{n, fileSymbols("fileDir/" + n)})
	}
	return out
}

func (x *upload) Close() { leave(x.dir) }

// TestU01Child assembles a file in a process that dies once it has written so many bytes.
func TestU01Child(t *testing.T) {
	if os.Getenv("VERIF_LIMIT") == "" {
		return
	}
	n, _ := strconv.Atoi(os.Getenv("VERIF_LIMIT"))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}))
	// the kernel ends the process at the write that crosses the limit
	must(syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{}))
	var dfl [4]uintptr
	if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGXFSZ), uintptr(unsafe.Pointer(&dfl)), 0, 8, 0, 0); e != 0 {
		panic(e)
	}
	utils.MakeFile(os.Getenv("VERIF_NAME"), os.Getenv("VERIF_MD5"))
	os.Exit(7)
}

func TestU01(t *testing.T) {
	o := core.Open()
	core.Run(o, core.Opts{
		New: newUpload, Cfgs: []core.M{{}}, Salt: 81, N: 300, Len: 60,
		Extra: func(one func(core.M, []core.M)) {
			r := core.Rng(811)
			for _, n := range []int{101, 130, 1030} { // many chunks, stored in any order
				if n > 200 && !core.Thorough() {
					n = 260
				}
				var cs []core.M
				for i, k := range r.Perm(n) {
					c := core.M{"op": "Put", "d": 1, "n": "a", "k": k, "v": []int{1 + r.Intn(5)}}
					if i%3 > 0 {
						c["total"] = n
					}
					cs = append(cs, c)
				}
				cs = append(cs, core.M{"op": "Make", "d": 1, "n": "a"})
				for i := 0; i < 5; i++ { // some of them again
					cs = append(cs, core.M{"op": "Put", "d": 1, "n": "a", "k": r.Intn(n), "v": []int{1 + r.Intn(5), 2}}, core.M{"op": "Put", "d": 2, "n": "a", "k": i, "v": []int{3}})
				}
				cs = append(cs, core.M{"op": "Make", "d": 1, "n": "a"}, core.M{"op": "Make", "d": 2, "n": "a"}, core.M{"op": "Drop", "d": 1}, core.M{"op": "Make", "d": 2, "n": "a"}, core.M{"op": "Make", "d": 1, "n": "a"})
				one(core.M{}, cs)
			}
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			all := []string{"a", "a_1", "a_1_2", "b", "文件.bin", "a.b_0", "_", "0", " x", "A", "a ", "A_1", "a.B_0"}
			r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			names := all[:1+r.Intn(4)]
			nd := 1 + r.Intn(5)
			max := 1 + r.Intn(4)
			if r.Intn(3) == 0 {
				max = 11 + r.Intn(3)
			}
			content := func() []int {
				v := []int{}
				for i := r.Intn(4); i > 0; i-- {
					s := 1 + r.Intn(5)
					if r.Intn(12) == 0 {
						s = bigBlock(r)
					}
					v = append(v, s)
				}
				return v
			}
			wPut := 6 + r.Intn(20)
			ds := r.Perm(5)
			return core.M{}, func(r *rand.Rand, ob core.Obj) core.M {
				x := ob.(*upload)
				d, n := 1+ds[r.Intn(nd)], names[r.Intn(len(names))]
				c := core.M{"d": d, "n": n}
				have := 0
				for k := 0; k < max; k++ {
					if _, ok := x.size[ck(d, n, k)]; ok {
						have++
					}
				}
				miss := -1
				for _, k := range r.Perm(max) {
					if _, ok := x.size[ck(d, n, k)]; !ok {
						miss = k
					}
				}
				switch core.Pick(r, []int{wPut, 6, 1, 1, 1, 1, 1, 1}) {
				case 1:
					c["op"] = "Make"
				case 2:
					if x.total(d, n) > 0 && miss < 0 {
						c["op"], c["lim"] = "MakeFull", r.Intn(x.total(d, n))
					}
				case 3:
					if k := r.Intn(max); have > 0 && miss < 0 {
						c["op"], c["k"] = "MakeHidden", k
					}
				case 4:
					if x.total(d, n) > 0 && miss < 0 && r.Intn(2) == 0 {
						c["op"], c["lim"] = "Crash", r.Intn(x.total(d, n))
					}
				case 5:
					if r.Intn(3) == 0 {
						return core.M{"op": "Drop", "d": d}
					}
				case 6:
					a, b := content(), content()
					if r.Intn(2) == 0 {
						b = a
					}
					return core.M{"op": "Check", "v": a, "v2": b, "same": string(bytesOf(a)) == string(bytesOf(b))}
				case 7:
					if v := content(); len(bytesOf(v)) > 0 {
						return core.M{"op": "PutFull", "d": d, "n": n, "k": r.Intn(max), "v": v, "lim": r.Intn(len(bytesOf(v)))}
					}
				}
				if c["op"] != nil {
					return c
				}
				k := miss
				if k < 0 || r.Intn(6) == 0 {
					k = r.Intn(max)
				}
				c["op"], c["k"], c["v"] = "Put", k, content()
				if r.Intn(4) > 0 {
					c["total"] = max
				}
				return c
			}
		},
	})
	o.Close()
}
