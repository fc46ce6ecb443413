package files

import (
	"bytes"
	"encoding/csv"
	"math/rand"
	"os"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type table struct {
	dir    string
	before []byte
}

const file = "t.csv"

func newTable(core.M) core.Obj { return &table{dir: scratch()} }
func (x *table) Close()        { leave(x.dir) }

func row(v interface{}) []string {
	out := []string{}
	for _, f := range v.(core.A) {
		out = append(out, str(core.M{"f": f}, "f"))
	}
	return out
}

func rowsOf(p *[][]string) core.A {
	if p == nil {
		return core.A{"none"}
	}
	rs := core.A{}
	for _, r := range *p {
		fs := core.A{}
		for _, f := range r {
			fs = append(fs, codes(f))
		}
		rs = append(rs, fs)
	}
	return core.A{"v", rs}
}

// as other programs write it: every field in quotes, or none that can do without
func foreign(v interface{}, all bool, nl string) []byte {
	var b bytes.Buffer
	for _, r := range v.(core.A) {
		f := row(r)
		for i, s := range f {
			if i > 0 {
				b.WriteByte(',')
			}
			if all || strings.ContainsAny(s, ",\"\r\n") || len(f) == 1 && s == "" {
				s = "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
			}
			b.WriteString(s)
		}
		b.WriteString(nl)
	}
	return b.Bytes()
}

func encode(v interface{}, crlf bool) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.UseCRLF = crlf
	for _, r := range v.(core.A) {
		f := row(r)
		if len(f) == 1 && f[0] == "" {
			w.Flush()
			b.WriteString("\"\"\n")
			continue
		}
		must(w.Write(f))
	}
	w.Flush()
	return b.Bytes()
}

func (x *table) Do(c core.M) core.A {
	x.before, _ = os.ReadFile(file)
	switch c["op"] {
	case "Write":
		fs := row(c["row"])
		keep := append([]string{}, fs...)
		err := utils.WriteCsv(file, fs)
		for i := range fs {
			if fs[i] != keep[i] {
				return core.A{"input changed"}
			}
		}
		return res(err)
	case "WriteFull":
		var err error
		n := len(x.before) + core.I(c, "lim")%len(encode(core.A{c["row"]}, true))
		limited(n, func() { err = utils.WriteCsv(file, row(c["row"])) })
		return res(err)
	case "WriteNowhere":
		switch core.I2(c, "how", 0) {
		case 0:
			must(os.MkdirAll("dir", 0o755))
			return res(utils.WriteCsv("dir", []string{"a"}))
		case 1:
			return res(utils.WriteCsv("missing/"+file, []string{"a"}))
		}
		os.Symlink("/dev/full", "full")
		return res(utils.WriteCsv("full", []string{"a", "b"}))
	case "Read":
		return rowsOf(utils.ReadCsv(file))
	case "ReadNowhere":
		switch core.I2(c, "how", 0) {
		case 0:
			return rowsOf(utils.ReadCsv("missing.csv"))
		case 1:
			must(os.MkdirAll("dir", 0o755))
			return rowsOf(utils.ReadCsv("dir"))
		}
		os.WriteFile("hidden", []byte("a,b\n"), 0)
		return rowsOf(utils.ReadCsv("hidden"))
	case "Mangle":
		tail := []string{"a\"b,c\n", "\"abc\n1,2\n", "\"a\"b\n", "\"", "x,\"y\r\nz"}[core.I2(c, "how", 0)%5]
		b := x.before
		if n := len(b); n > 0 && b[n-1] != '\n' {
			b = nil
		}
		must(os.WriteFile(file, append(append([]byte{}, b...), tail...), 0o644))
		return core.A{}
	case "Given":
		nl := []string{"\n", "\r\n"}[core.I(c, "crlf")]
		b := encode(c["rows"], nl != "\n")
		if h := core.I2(c, "how", 0); h > 0 {
			b = foreign(c["rows"], h == 2, nl)
		}
		must(os.WriteFile(file, b, 0o644))
		return core.A{}
	case "Remove":
		os.Remove(file)
		return core.A{}
	}
	panic(core.Bug("op"))
}

func (x *table) Obs() interface{} {
	b, err := os.ReadFile(file)
	o := core.M{"kept": bytes.HasPrefix(b, x.before), "seen": core.A{"none"}}
	if err == nil {
		r := csv.NewReader(bytes.NewReader(b))
		r.FieldsPerRecord = -1
		if rs, err := r.ReadAll(); err == nil {
			o["seen"] = rowsOf(&rs)
		}
	}
	return o
}

func TestU04(t *testing.T) {
	o := core.Open()
	core.Run(o, core.Opts{
		New: newTable, Cfgs: []core.M{{}}, Salt: 84, N: 300, Len: 40,
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			alpha := []string{"a", "bc", ",", "\"", "\n", " ", "\t", ";", "é", "中文", "\\.", "#", "\x00", "\xff", "'", "\"\"", "=1+1", "\ufeff", "|", "\u00a0", "\u3000", "\u2003", "\u0085", "\v", "\f", "\u2028", "   "}
			width := 1 + r.Intn(5)
			ragged := r.Intn(2) == 0
			mk := func() core.A {
				n := width
				if ragged {
					n = 1 + r.Intn(6)
				}
				fs := core.A{}
				for ; n > 0; n-- {
					s := ""
					for k := r.Intn(5); k > 0; k-- {
						s += alpha[r.Intn(len(alpha))]
					}
					if r.Intn(40) == 0 {
						for len(s) < 6000 {
							s += "0123456789,\"\n"
						}
					}
					fs = append(fs, codes(s))
				}
				return fs
			}
			cut, bad := false, false
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				if cut || bad && r.Intn(2) == 0 {
					cut, bad = false, false
					return core.M{"op": "Remove"}
				}
				switch core.Pick(r, []int{10, 6, 1, 1, 1, 1, 1}) {
				case 1:
					return core.M{"op": "Read"}
				case 2:
					return core.M{"op": "WriteNowhere", "how": r.Intn(3)}
				case 3:
					return core.M{"op": "ReadNowhere", "how": r.Intn(3)}
				case 4:
					if r.Intn(3) == 0 {
						bad = true
						return core.M{"op": "Mangle", "how": r.Intn(5)}
					}
				case 5:
					if r.Intn(2) == 0 {
						rs := core.A{}
						for i := r.Intn(5); i > 0; i-- {
							rs = append(rs, mk())
						}
						bad = false
						return core.M{"op": "Given", "rows": rs, "crlf": r.Intn(2), "how": r.Intn(3)}
					}
				case 6:
					if r.Intn(2) == 0 {
						cut = true
						return core.M{"op": "WriteFull", "row": mk(), "lim": r.Intn(1000)}
					}
				}
				if bad {
					return core.M{"op": "Read"}
				}
				return core.M{"op": "Write", "row": mk()}
			}
		},
	})
	o.Close()
}
