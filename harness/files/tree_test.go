package files

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type tree struct{ dir string }

func newTree(core.M) core.Obj { return &tree{scratch()} }
func (x *tree) Close()        { leave(x.dir) }

func pathArg(v interface{}) []string {
	out := []string{}
	for _, s := range v.(core.A) {
		out = append(out, s.(string))
	}
	return out
}

// spelled in one of several ways that mean the same path
func (x *tree) spell(v interface{}, how int) string {
	p := strings.Join(pathArg(v), "/")
	if p == "" {
		p = "."
	}
	switch how {
	case 1:
		return filepath.Join(x.dir, p)
	case 2:
		return "./" + p
	case 3:
		return ".//" + strings.ReplaceAll(p, "/", "//")
	}
	return p
}

func ref(b []byte) string { s := md5.Sum(b); return hex.EncodeToString(s[:]) }

func res(err error) core.A {
	if err != nil {
		return core.A{"err"}
	}
	return core.A{}
}

func (x *tree) Do(c core.M) core.A {
	how := core.I2(c, "how", 0)
	var p, q string
	if c["p"] != nil {
		p = x.spell(c["p"], how%4)
	}
	if c["q"] != nil {
		q = x.spell(c["q"], how/4%4)
	}
	switch c["op"] {
	case "Put":
		return res(os.WriteFile(p, bytesOf(core.Is(c, "v")), 0o644))
	case "Link":
		t := x.dir
		if l := pathArg(c["q"]); len(l) > 0 {
			t += "/" + strings.Join(l, "/")
		}
		return res(os.Symlink(t, p))
	case "CopyFile", "CopyFull":
		var n int64
		var err error
		f := func() { n, err = utils.CopyFile(p, q) }
		if c["op"] == "CopyFile" {
			f()
		} else {
			fi, e := os.Stat(q)
			must(e)
			limited(core.I(c, "lim")%int(fi.Size()), f)
		}
		if err != nil {
			return core.A{"err"}
		}
		return core.A{"v", int(n)}
	case "FileMove":
		return res(utils.FileMove(q, p))
	case "MoveNowhere":
		return res(utils.FileMove(q, ""))
	case "CreateDir":
		var ps []string
		for _, v := range c["ps"].(core.A) {
			ps = append(ps, x.spell(v, how%4))
		}
		return res(utils.CreateDir(ps...))
	case "MkDir":
		return res(utils.MkDir(p))
	case "DeLFile":
		return res(utils.DeLFile(p))
	case "ScanDir":
		if how >= 8 {
			p += "/"
		}
		fs, err := utils.ScanDir(p)
		if err != nil {
			return core.A{"err"}
		}
		out := core.A{}
		for _, f := range fs {
			a, err := filepath.Abs(f)
			must(err)
			rel, err := filepath.Rel(x.dir, a)
			must(err)
			out = append(out, strings.Split(rel, "/"))
		}
		return core.A{"vs", out}
	case "PathExists":
		b, err := utils.PathExists(p)
		return core.A{"b", b, err != nil}
	case "FileExist":
		return core.A{"b", utils.FileExist(p)}
	case "FileIsExisted":
		return core.A{"b", utils.FileIsExisted(p)}
	case "IsDir":
		return core.A{"b", utils.IsDir(p)}
	case "IsFile":
		return core.A{"b", utils.IsFile(p)}
	case "FileMd5":
		b, _ := os.ReadFile(p)
		c["ref"] = ref(b)
		s, err := utils.FileMd5(p)
		if err != nil {
			return core.A{"err"}
		}
		return core.A{"v", s}
	case "Digest":
		b := bytesOf(core.Is(c, "v"))
		c["ref"] = ref(b)
		switch core.I(c, "by") {
		case 0:
			return core.A{"v", utils.ComputeFileMD5(bytes.NewReader(b))}
		case 1:
			return core.A{"v", utils.MD5V(b)}
		case 2:
			return core.A{"v", utils.Md5(string(b))}
		}
		return core.A{"v", utils.Md5Crypt(string(b))}
	case "Image":
		s := utils.ImageFileToBase64(p)
		if s == "" {
			return core.A{"none"}
		}
		b, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(s, "data:image/png;base64,"))
		if err != nil {
			return core.A{"garbage"}
		}
		return core.A{"v", symbols(b)}
	}
	panic(core.Bug("op"))
}

func (x *tree) Obs() interface{} {
	out := core.A{}
	filepath.Walk(x.dir, func(p string, fi os.FileInfo, err error) error {
		if p == x.dir || fi == nil {
			return nil
		}
		k, v := "d", core.A{}
		if fi.Mode().IsRegular() {
			k, v = "f", fileSymbols(p)
		} else if fi.Mode()&os.ModeSymlink != 0 {
			t, err := os.Readlink(p)
			must(err)
			k = "l"
			if t != x.dir {
				for _, n := range strings.Split(t[len(x.dir)+1:], "/") {
					v = append(v, n)
				}
			}
		} else if !fi.IsDir() {
			k, v = "other", core.A{-3}
		}
		out = append(out, core.A{strings.Split(p[len(x.dir)+1:], "/"), k, v})
		return nil
	})
	return out
}

func TestU03(t *testing.T) {
	o := core.Open()
	size := core.A{}
	for i := 1; i < nsym; i++ {
		size = append(size, len(blocks[i]))
	}
	cfg := core.M{"size": size}
	content := func(r *rand.Rand) []int {
		v := []int{}
		for i := r.Intn(5); i > 0; i-- {
			s := 1 + r.Intn(5)
			if r.Intn(8) == 0 {
				s = bigBlock(r)
			}
			v = append(v, s)
		}
		return v
	}
	core.Run(o, core.Opts{
		New: newTree, Cfgs: []core.M{cfg}, Salt: 83, N: 200, Len: 60,
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			names := []string{"a", "b", "c.txt", "é", "a b", "..c"}[:2+r.Intn(5)]
			depth := 2 + r.Intn(2)
			path := func(min int) core.A {
				p := core.A{}
				for i := min + r.Intn(depth+1-min); i > 0; i-- {
					p = append(p, names[r.Intn(len(names))])
				}
				return p
			}
			w := []int{6, 6, 1, 6, 1, 1, 2, 1 + r.Intn(3), 3, 2, 2, 2, 2, 2, 2, 1, 1, 0}
			if r.Intn(3) == 0 {
				w[17] = 1 + r.Intn(4)
			}
			return cfg, func(r *rand.Rand, ob core.Obj) core.M {
				x := ob.(*tree)
				// mostly name things that exist
				var files, all []core.A
				for _, e := range x.Obs().(core.A) {
					p := core.A{}
					for _, s := range e.(core.A)[0].([]string) {
						p = append(p, s)
					}
					all = append(all, p)
					if e.(core.A)[1] == "f" {
						files = append(files, p)
					}
				}
				pick := func(l []core.A, min int) core.A {
					if len(l) == 0 || r.Intn(3) == 0 {
						return path(min)
					}
					p := l[r.Intn(len(l))]
					if r.Intn(5) == 0 {
						p = append(append(core.A{}, p...), names[r.Intn(len(names))])
					}
					return p
				}
				h := r.Intn(16)
				switch core.Pick(r, w) {
				case 0:
					return core.M{"op": "Put", "p": path(1), "v": content(r), "how": h}
				case 1:
					return core.M{"op": "CopyFile", "p": pick(files, 1), "q": pick(files, 1), "how": h}
				case 2:
					if len(files) > 1 {
						p, q := files[r.Intn(len(files))], files[r.Intn(len(files))]
						fi, err := os.Stat(strings.Join(pathArg(q), "/"))
						must(err)
						if fi.Size() > 0 && strings.Join(pathArg(q), "/") != strings.Join(pathArg(p), "/") {
							return core.M{"op": "CopyFull", "p": p, "q": q, "lim": r.Intn(int(fi.Size())), "how": h}
						}
					}
				case 3:
					d := path(1)
					if r.Intn(3) == 0 {
						d = pick(all, 1)
					}
					return core.M{"op": "FileMove", "p": d, "q": pick(all, 1), "how": h}
				case 4:
					return core.M{"op": "MoveNowhere", "q": pick(all, 1), "how": h}
				case 5:
					ps := core.A{}
					for i := r.Intn(4); i > 0; i-- {
						ps = append(ps, pick(all, 1))
					}
					return core.M{"op": "CreateDir", "ps": ps, "how": h}
				case 6:
					return core.M{"op": "MkDir", "p": path(1), "how": h}
				case 7:
					return core.M{"op": "DeLFile", "p": pick(all, 1), "how": h}
				case 8:
					return core.M{"op": "ScanDir", "p": pick(all, 0), "how": h}
				case 9:
					return core.M{"op": "PathExists", "p": pick(all, 0), "how": h}
				case 10:
					return core.M{"op": "FileExist", "p": pick(all, 0), "how": h}
				case 11:
					return core.M{"op": "FileIsExisted", "p": pick(all, 0), "how": h}
				case 12:
					return core.M{"op": "IsDir", "p": pick(all, 0), "how": h}
				case 13:
					return core.M{"op": "IsFile", "p": pick(all, 0), "how": h}
				case 14:
					if len(files) > 0 && r.Intn(3) > 0 {
						return core.M{"op": "FileMd5", "p": files[r.Intn(len(files))], "how": h}
					}
					return core.M{"op": "FileMd5", "p": pick(all, 0), "how": h}
				case 15:
					return core.M{"op": "Image", "p": pick(files, 1), "how": h}
				case 17:
					return core.M{"op": "Link", "p": path(1), "q": pick(all, 0), "how": h % 4}
				case 16:
					return core.M{"op": "Digest", "v": content(r), "by": r.Intn(4)}
				}
				return core.M{"op": "Put", "p": path(1), "v": content(r), "how": h}
			}
		},
	})
	o.Close()
}
