package files

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

const home = "h/d"
const arch = "arch.zip"

type zips struct {
	dir, before string
	entries     []entry
	lastIn      []string
}

type entry struct {
	n   string
	dir bool
	v   []int
}

func codes(s string) core.A {
	a := core.A{}
	for i := 0; i < len(s); i++ {
		a = append(a, int(s[i]))
	}
	return a
}

func str(c core.M, k string) string {
	b := []byte{}
	for _, x := range core.Is(c, k) {
		b = append(b, byte(x))
	}
	return string(b)
}

func newZips(core.M) core.Obj {
	z := &zips{dir: scratch()}
	must(os.MkdirAll("h/d-evil", 0o755))
	must(os.WriteFile("h/d-evil/keep", []byte("keep"), 0o644))
	must(os.WriteFile("h/x", []byte("neighbour"), 0o644))
	must(os.WriteFile("x", []byte("outside"), 0o644))
	z.before = z.outside()
	return z
}

func (z *zips) Close() { leave(z.dir) }

// everything in reach of an entry name that is not below the destination (or of our making)
func (z *zips) outside() string {
	var b strings.Builder
	dst := filepath.Join(z.dir, home)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			fmt.Fprintln(&b, p, err)
			return nil
		}
		if p == dst || p == filepath.Join(z.dir, "src") {
			return filepath.SkipDir
		}
		if p == filepath.Join(z.dir, arch) || p == filepath.Join(z.dir, "dry.zip") {
			return nil
		}
		fmt.Fprintln(&b, p, fi.Mode())
		if fi.Mode().IsRegular() {
			c, _ := os.ReadFile(p)
			b.Write(c)
		}
		return nil
	})
	return b.String()
}

func path(below string) core.A {
	out := core.A{}
	if below == "" || below == "." {
		return out
	}
	for _, s := range strings.Split(below, "/") {
		out = append(out, codes(s))
	}
	return out
}

func (z *zips) Obs() interface{} {
	tree := core.A{}
	dst := filepath.Join(z.dir, home)
	filepath.Walk(dst, func(p string, fi os.FileInfo, err error) error {
		if p == dst || fi == nil {
			return nil
		}
		k, v := "d", core.A{}
		if fi.Mode().IsRegular() {
			k, v = "f", fileSymbols(p)
		} else if !fi.IsDir() {
			k, v = "other", core.A{-3}
		}
		tree = append(tree, core.A{path(p[len(dst)+1:]), k, v})
		return nil
	})
	return core.M{"tree": tree, "outside": z.outside() == z.before}
}

func entriesOf(c core.M) []entry {
	var out []entry
	for _, x := range c["es"].(core.A) {
		e := x.(core.M)
		d, _ := e["dir"].(bool)
		out = append(out, entry{str(e, "n"), d, core.Is(e, "v")})
	}
	return out
}

func writeArchive(es []entry, store func(i int) bool, link func(i int) bool) {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for i, e := range es {
		h := &zip.FileHeader{Name: e.n, Method: zip.Deflate}
		if store(i) {
			h.Method = zip.Store
		}
		if link(i) && !e.dir {
			h.SetMode(os.ModeSymlink | 0o777)
		}
		f, err := w.CreateHeader(h)
		must(err)
		if !e.dir {
			_, err = f.Write(bytesOf(e.v))
			must(err)
		}
	}
	must(w.Close())
	must(os.WriteFile(arch, b.Bytes(), 0o644))
}

// reference reading of an archive
func readArchive(name string) core.A {
	r, err := zip.OpenReader(name)
	if err != nil {
		return core.A{"unreadable"}
	}
	defer r.Close()
	es := core.A{}
	for _, f := range r.File {
		rc, err := f.Open()
		if err != nil {
			return core.A{"unreadable"}
		}
		b, err := io.ReadAll(rc)
		if err != nil {
			return core.A{"unreadable"}
		}
		rc.Close()
		es = append(es, core.M{"n": codes(f.Name), "dir": f.FileInfo().IsDir(), "v": symbols(b)})
	}
	return core.A{"v", es}
}

func (z *zips) Do(c core.M) core.A {
	switch c["op"] {
	case "Src":
		p := str(c, "n")
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, bytesOf(core.Is(c, "v")), 0o644))
		z.before = z.outside()
		return core.A{}
	case "Pre":
		p := filepath.Join(home, str(c, "n"))
		var err error
		if d, _ := c["dir"].(bool); !d && p == home {
			return core.A{"err"}
		} else if d {
			err = os.MkdirAll(p, 0o755)
		} else if err = os.MkdirAll(filepath.Dir(p), 0o755); err == nil {
			err = os.WriteFile(p, bytesOf(core.Is(c, "v")), 0o644)
		}
		if err != nil {
			return core.A{"err"}
		}
		return core.A{}
	case "Zip", "ZipFull":
		fs := []string{}
		for _, x := range c["fs"].(core.A) {
			fs = append(fs, str(core.M{"x": x}, "x"))
		}
		old, new := str(c, "old"), str(c, "new")
		var err error
		if c["op"] == "Zip" {
			err = utils.ZipFiles(arch, fs, old, new)
		} else {
			must(utils.ZipFiles("dry.zip", fs, old, new))
			fi, e := os.Stat("dry.zip")
			must(e)
			must(os.Remove("dry.zip"))
			limited(core.I(c, "lim")%int(fi.Size()), func() { err = utils.ZipFiles(arch, fs, old, new) })
		}
		if err != nil {
			return core.A{"err"}
		}
		r := readArchive(arch)
		z.entries = nil
		if r[0] == "v" {
			for _, x := range r[1].(core.A) {
				e := x.(core.M)
				v := []int{}
				for _, s := range e["v"].(core.A) {
					v = append(v, s.(int))
				}
				b := []byte{}
				for _, s := range e["n"].(core.A) {
					b = append(b, byte(s.(int)))
				}
				z.entries = append(z.entries, entry{string(b), e["dir"].(bool), v})
			}
		}
		return r
	case "Raw":
		z.entries = entriesOf(c)
		s := core.I2(c, "store", 0)
		l := core.I2(c, "link", 0)
		writeArchive(z.entries, func(i int) bool { return s>>uint(i)&1 == 1 }, func(i int) bool { return l>>uint(i)&1 == 1 })
		return core.A{}
	case "Spoil":
		os.Remove(arch)
		var b bytes.Buffer
		w := zip.NewWriter(&b)
		f, _ := w.Create("ok.txt")
		f.Write(bytesOf([]int{1, 2, 6}))
		w.Close()
		switch k := core.I(c, "how"); k {
		case 0: // gone
		case 1:
			must(os.WriteFile(arch, nil, 0o644))
		case 2:
			must(os.WriteFile(arch, []byte("this is no archive at all, whatever its name says........"), 0o644))
		default:
			must(os.WriteFile(arch, b.Bytes()[:b.Len()-k], 0o644))
		}
		return core.A{}
	case "SpoilData":
		es := entriesOf(c)
		writeArchive(es, func(int) bool { return true }, func(int) bool { return false })
		r, err := zip.OpenReader(arch)
		must(err)
		off, err := r.File[core.I(c, "i")].DataOffset()
		must(err)
		r.Close()
		b, err := os.ReadFile(arch)
		must(err)
		b[off] ^= 0x15
		must(os.WriteFile(arch, b, 0o644))
		return core.A{}
	case "Unzip", "UnzipFull":
		a, dst := arch, home
		abs := filepath.Join(z.dir, home)
		back := func() {}
		for _, e := range z.entries {
			if filepath.Join(home, e.n) == home && !e.dir {
				must(os.MkdirAll(home, 0o755)) // or that file would take the destination's place
			}
		}
		switch core.I2(c, "dest", 0) {
		case 1:
			dst = abs
		case 2:
			dst = home + "/"
		case 3:
			dst = "./h/../h//d"
		case 4, 5:
			if os.MkdirAll(abs, 0o755) != nil || os.Chdir(abs) != nil {
				return core.A{"no destination"}
			}
			a = filepath.Join(z.dir, arch)
			dst = "."
			if core.I(c, "dest") == 5 {
				dst = ""
			}
			back = func() { must(os.Chdir(z.dir)) }
		}
		var ps []string
		var err error
		run := func() { ps, err = utils.Unzip(a, dst) }
		if c["op"] == "Unzip" {
			run()
		} else {
			limited(core.I(c, "lim"), run)
		}
		for i, p := range ps {
			ps[i], _ = filepath.Abs(p)
		}
		back()
		if err != nil {
			return core.A{"err"}
		}
		out := core.A{}
		for _, p := range ps {
			rel, err := filepath.Rel(abs, p)
			must(err)
			out = append(out, path(rel))
		}
		return core.A{"v", out}
	}
	panic(core.Bug("op"))
}

func TestU02(t *testing.T) {
	o := core.Open()
	cfg := core.M{"home": path(home)}
	core.Run(o, core.Opts{
		New: newZips, Cfgs: []core.M{cfg}, Salt: 82, N: 200, Len: 30,
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			segs := []string{"a", "b", "cc", "é", "a b", "x", "d", "..x", "x..", "...", "-", "d-evil", "keep", "\\", "a\\..\\..\\x"}
			segs = segs[:2+r.Intn(len(segs)-1)]
			hostile := r.Intn(3) == 0
			name := func() string {
				ups := 0
				var p []string
				for i := 1 + r.Intn(4); i > 0; i-- {
					s := segs[r.Intn(len(segs))]
					switch k := r.Intn(12); {
					case k < 3 && hostile && ups < 3:
						s = ".."
						ups++
					case k == 3:
						s = "."
					case k == 4 && r.Intn(3) == 0:
						s = ""
					}
					p = append(p, s)
				}
				n := strings.Join(p, "/")
				if r.Intn(6) == 0 {
					n += "/"
				}
				if n == "" {
					n = "a"
				}
				return n
			}
			content := func() []int {
				v := []int{}
				for i := r.Intn(4); i > 0; i-- {
					s := 1 + r.Intn(5)
					if r.Intn(8) == 0 {
						s = bigBlock(r)
					}
					v = append(v, s)
				}
				return v
			}
			ent := func(n string) core.M {
				e := core.M{"n": codes(n), "dir": strings.HasSuffix(n, "/"), "v": []int{}}
				if !strings.HasSuffix(n, "/") {
					e["v"] = content()
				}
				return e
			}
			srcs := []string{}
			var packed bool
			var have, escapes, data bool
			big := 0
			return cfg, func(r *rand.Rand, ob core.Obj) core.M {
				z := ob.(*zips)
				switch core.Pick(r, []int{4, 3, 5, 1, 1, 2, 8, 1}) {
				case 0:
					n := "src/" + segs[r.Intn(len(segs))] + fmt.Sprint(r.Intn(3))
					if r.Intn(3) == 0 {
						n = "src/src/" + segs[r.Intn(len(segs))] + "y.src/file"
					}
					if r.Intn(3) == 0 {
						n = filepath.Join(z.dir, "src/abs", n) // one name per file
					}
					srcs = append(srcs, n)
					return core.M{"op": "Src", "n": codes(n), "v": content()}
				case 1:
					fs := core.A{}
					missing := false
					for i := r.Intn(5); i > 0 && len(srcs) > 0; i-- {
						fs = append(fs, codes(srcs[r.Intn(len(srcs))]))
						if r.Intn(60) == 0 {
							i += openFiles
						}
					}
					if r.Intn(5) == 0 && len(srcs) > 0 {
						missing = true
						fs = append(fs, codes([]string{"src/nothing", "src", z.dir, ""}[r.Intn(4)]))
						r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
					}
					olds := []string{"src/", "src", z.dir + "/", z.dir, z.dir + "/src/", "none", "a", "aa"}
					c := core.M{"op": "Zip", "fs": fs, "old": codes(olds[r.Intn(len(olds))]), "new": codes([]string{"", "", "to/", "src/src", "z/"}[r.Intn(5)])}
					have, escapes, data, packed, big = !missing, false, false, true, 0
					if !missing && r.Intn(5) == 0 {
						c["op"], c["lim"], have = "ZipFull", r.Intn(300), false
					}
					return c
				case 2:
					es := core.A{}
					escapes, big = false, 0
					seen := map[string]bool{}
					many := 0
					if r.Intn(60) == 0 {
						many = openFiles + r.Intn(30)
					}
					for i := many; i > 0; i-- {
						es = append(es, ent(fmt.Sprintf("%s/%d", segs[r.Intn(2)], i%(openFiles+5))))
					}
					for i := r.Intn(5); i > 0; i-- {
						n := name()
						if hostile && r.Intn(8) == 0 {
							n = filepath.Join(z.dir, "evil")
						}
						e := ent(n)
						if s := len(bytesOf(core.Is(e, "v"))); s > big && !seen[n] && many == 0 {
							big = s
						}
						seen[n] = true
						if strings.HasPrefix(n, "/") {
							escapes = true // not with an empty destination
						}
						es = append(es, e)
					}
					have, data, packed = true, false, false
					c := core.M{"op": "Raw", "es": es, "store": r.Intn(32)}
					if r.Intn(4) == 0 {
						c["link"] = r.Intn(32)
					}
					return c
				case 3:
					have, data, big = true, false, 0
					return core.M{"op": "Spoil", "how": r.Intn(20)}
				case 4:
					es := core.A{ent("k1"), ent("sub/k2"), ent("k3")}
					i := r.Intn(3)
					es[i].(core.M)["v"] = append(content(), 2, 6)
					have, data, big, escapes, packed = true, true, 0, false, false
					return core.M{"op": "SpoilData", "es": es, "i": i}
				case 5:
					n := name()
					if strings.Contains(n, "..") {
						n = "a/a"
					}
					c := ent(n)
					c["op"] = "Pre"
					return c
				case 7:
					if have && big > 0 && !data {
						return core.M{"op": "UnzipFull", "lim": r.Intn(big)}
					}
				}
				if !have {
					return core.M{"op": "Src", "n": codes("src/z"), "v": content()}
				}
				c := core.M{"op": "Unzip", "dest": r.Intn(6)}
				if escapes || packed {
					c["dest"] = r.Intn(5)
				}
				return c
			}
		},
	})
	o.Close()
}
