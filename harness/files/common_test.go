// Package files: drivers of help/utils that work on files, in a scratch directory.
package files

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

// Contents are sequences of symbols; each stands for a fixed block of bytes and no block is the
// beginning of another.
const nsym = 9

var blocks = func() [][]byte {
	size := []int{0, 1, 1, 1, 2, 7, 4096, 70001, 1<<20 + 4097}
	b := make([][]byte, nsym)
	for i := 1; i < nsym; i++ {
		b[i] = make([]byte, size[i])
		for k := range b[i] {
			b[i][k] = byte(k*k*7 + k*i + k>>8)
		}
		b[i][0] = byte(200 + i)
	}
	b[3][0] = 0
	for k := 1; k < len(b[8]); k++ { // no period that a buffer may have
		b[8][k] += byte(k * k >> 16)
	}
	return b
}()

func bytesOf(v []int) []byte {
	out := []byte{}
	for _, s := range v {
		out = append(out, blocks[s]...)
	}
	return out
}

// symbols of a content; anything else ends in -1, its length and a check sum
func symbols(b []byte) core.A {
	out := core.A{}
next:
	for len(b) > 0 {
		for i := 1; i < nsym; i++ {
			if bytes.HasPrefix(b, blocks[i]) {
				out = append(out, i)
				b = b[len(blocks[i]):]
				continue next
			}
		}
		return append(out, -1, len(b), int(crc32.ChecksumIEEE(b)>>1))
	}
	return out
}

func fileSymbols(path string) core.A {
	b, err := os.ReadFile(path)
	if err != nil {
		return core.A{-2}
	}
	return symbols(b)
}

var scratchNo int

// scratch directory of one history, made the working directory
func scratch() string {
	if scratchNo == 0 {
		wd, err := os.Getwd()
		must(err)
		root = filepath.Join(wd, "s")
		must(os.Mkdir(root, 0o755))
		signal.Ignore(syscall.SIGXFSZ)
		var l syscall.Rlimit // no helper needs many files open at a time
		must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l))
		l.Cur = openFiles
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l))
		if os.Getenv("VERIF_HELD") != "" {
			core.Held = held
		}
	}
	scratchNo++
	d := filepath.Join(root, fmt.Sprint(scratchNo))
	must(os.Mkdir(d, 0o755))
	must(os.Chdir(d))
	return d
}

const openFiles = 40

var root string

// held: descriptors of this process that name something in the scratch directories
func held() int {
	fs, err := filepath.Glob("/proc/self/fd/*")
	must(err)
	n := 0
	for _, f := range fs {
		if to, err := os.Readlink(f); err == nil && strings.HasPrefix(to, root+"/") {
			n++
		}
	}
	return n
}

func leave(d string) {
	must(os.Chdir(root))
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && fi.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	must(os.RemoveAll(d))
}

func must(err error) {
	if err != nil {
		panic(core.Bug(err.Error()))
	}
}

// limited runs f while no file may be written beyond n bytes
func limited(n int, f func()) {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

func sortedNames(dir string) []string {
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	sort.Strings(out)
	return out
}

// big block: rarely the largest
func bigBlock(r *rand.Rand) int { return 6 + core.Pick(r, []int{6, 6, 1}) }
