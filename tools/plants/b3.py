M = "github.com/ahKevinXy/go-web-tools/common/"
UP = "github.com/ahKevinXy/go-web-tools/help/utils"
GP = "github.com/ahKevinXy/go-web-tools/gorm_tools"
C = "common/container/"
H = "help/utils/"

plant("filesize-shifted", "N02", [(H + "files.go", "	val := float64(s) / math.Pow(base, math.Floor(e))", "	val := float64(s) / math.Pow(base, math.Floor(e))\n	if e >= 5 {\n		val = float64(s >> (10 * uint(e)))\n	}")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if s := utils.FileSize(3<<49); s != "1.5 PB" {{ t.Fatal(s) }}
}}''', "a size of a petabyte or more", "the shown digits are wrong by up to a whole unit")

plant("malicious-dot-slash", "U09", [(H + "files.go", 'return filepath.IsAbs(path) || strings.Contains(path, "..")', 'return filepath.IsAbs(path) || strings.HasPrefix(path, "..") || strings.Contains(path, "/../")')], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if !utils.IsMaliciousPath("./..") {{ t.Fatal("./.. leaves the directory") }}
}}''', "a name which does not begin with two dots and ends with /..", "a name that leaves the directory is not reported")

plant("base64-stream-read", "U10", [(H + "base64.go", "func Base64DecodeToByte(data string) []byte {\n	decodedByte, _ := base64.StdEncoding.DecodeString(data)\n	return decodedByte", "func Base64DecodeToByte(data string) []byte {\n	decodedByte := make([]byte, base64.StdEncoding.DecodedLen(len(data)))\n	n, _ := base64.NewDecoder(base64.StdEncoding, strings.NewReader(data)).Read(decodedByte)\n	return decodedByte[:n]"),
 (H + "base64.go", 'import "encoding/base64"', 'import (\n	"encoding/base64"\n	"strings"\n)')], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	b := make([]byte, 5000)
	if n := len(utils.Base64DecodeToByte(utils.Base64EncodeToByte(b))); n != 5000 {{ t.Fatal(n) }}
}}''', "content longer than the decoder's internal buffer (768 bytes)", "the rest of the content is lost")

plant("int64-via-float", "U10", [(H + "strings.go", "	r, _ := strconv.ParseInt(s, 10, 64)\n	return r", "	if len(s) > 18 {\n		r, err := strconv.ParseFloat(s, 64)\n		if err != nil || r >= 1<<63 || r < -1<<63 {\n			return 0\n		}\n		return int64(r)\n	}\n	r, _ := strconv.ParseInt(s, 10, 64)\n	return r")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if n := utils.StringToInt64("1234567890123456789"); n != 1234567890123456789 {{ t.Fatal(n) }}
}}''', "a number of nineteen digits", "the number read is not the number written")

plant("mapint-raw-html", "U10", [(H + "maps.go", "func MapIntToJsonString(param map[string]int32) string {\n	dataType, _ := json.Marshal(param)\n	dataString := string(dataType)\n	return dataString", "func MapIntToJsonString(param map[string]int32) string {\n	var out strings.Builder\n	enc := json.NewEncoder(&out)\n	enc.SetEscapeHTML(false)\n	_ = enc.Encode(param)\n	return strings.TrimSuffix(out.String(), \"\\n\")"),
 (H + "maps.go", '	"encoding/json"\n	"sync"', '	"encoding/json"\n	"strings"\n	"sync"')], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	m := map[string]int32{{"a&b": 1}}
	if a, b := utils.MapIntToJsonString(m), utils.Map2JsonString(m); a != b {{ t.Fatal(a, b) }}
}}''', "a key with <, > or &", "equal maps are written differently by the two writers")

plant("buildurl-typed-zero", "U11", [(H + "url.go", 'if len(k) > 0 && v != "0" {', 'if len(k) > 0 && params[i+1] != 0 && params[i+1] != "0" {')], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if u := utils.BuildUrl("a", "k", int64(0)); u != "/a" {{ t.Fatal(u) }}
}}''', "a zero of another type than int", "a pair with the value 0 is kept")

plant("suffix-one-char", "U11", [(H + "files.go", "	slice := strings.Split(str, seg)\n	l := len(slice)\n	if l > 1 {\n		return slice[(l - 1)]\n	}\n	return \"\"", "	i := strings.LastIndex(str, seg)\n	if i < 0 || seg == \"\" {\n		return \"\"\n	}\n	return str[i+1:]")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if s := utils.GetSuffixName("a::b", "::"); s != "b" {{ t.Fatal(s) }}
}}''', "a separator of more than one byte", "the suffix begins with a part of the separator")

plant("timedir-utc", "U11", [(H + "times.go", "	return n.Format(GolangDayTimePath)", "	return n.Truncate(24 * time.Hour).Format(GolangDayTimePath)")], f'''
import ("testing"; "time"; "{UP}")
func TestDemo(t *testing.T) {{
	for z := -12; z <= 14; z++ {{
		time.Local = time.FixedZone("z", z*3600)
		if d, w := utils.GetTimeDir(), time.Now().Format("2006/01/02"); d != w {{ t.Fatal(z, d, w) }}
	}}
}}''', "a local time zone in which the local date is another than that at the last midnight of Greenwich", "the directory names yesterday")

plant("textfile-tail", "U11", [(H + "files.go", "	return strings.Contains(http.DetectContentType(data), \"text/\")", "	if len(data) > 512 {\n		data = data[len(data)-512:]\n	}\n	return strings.Contains(http.DetectContentType(data), \"text/\")")], f'''
import ("testing"; "strings"; "{UP}")
func TestDemo(t *testing.T) {{
	d := []byte("%PDF-1.4\\n" + strings.Repeat("plain text ", 100))
	if utils.IsTextFile(d) && utils.IsPDFFile(d) {{ t.Fatal("both") }}
}}''', "a content longer than 512 bytes that does not end as it begins", "a content is recognised by its last bytes, as two kinds at once")

plant("filemd5-limited", "U12", [(H + "files.go", "	_, err = io.Copy(md5h, file)", "	_, err = io.Copy(md5h, io.LimitReader(file, 1<<20))")], f'''
import ("testing"; "os"; "{UP}")
func TestDemo(t *testing.T) {{
	b := make([]byte, 3<<20)
	b[2<<20] = 1
	os.WriteFile("f", b, 0o600)
	d, err := utils.FileMd5("f")
	if err != nil || d != utils.MD5V(b) {{ t.Fatal(d, err) }}
}}''', "a file longer than one mebibyte", "the digest covers the first part of the file only")

plant("leaky-two-sections", "L06", [("common/limiter/leaky_bucket/leaky_bucket_limiter.go", "	if l.currentLevel >= l.peakLevel {\n		return false\n	}\n	// 若没有到达最高水位，当前水位+1，请求成功\n	l.currentLevel++\n	return true", "	if l.currentLevel >= l.peakLevel {\n		return false\n	}\n	// 若没有到达最高水位，当前水位+1，请求成功\n	l.mutex.Unlock()\n	return l.fill()"),
 ("common/limiter/leaky_bucket/leaky_bucket_limiter.go", "func (l *LeakyBucketLimiter) TryAcquire() bool {\n	l.mutex.Lock()\n	defer l.mutex.Unlock()\n", "func (l *LeakyBucketLimiter) fill() bool {\n	l.mutex.Lock()\n	l.currentLevel++\n	return true\n}\n\nfunc (l *LeakyBucketLimiter) TryAcquire() bool {\n	l.mutex.Lock()\n	defer l.mutex.Unlock()\n")], f'''
import ("testing"; "sync"; "{M}limiter/leaky_bucket")
func TestDemo(t *testing.T) {{
	for r := 0; r < 200000; r++ {{
		l := leaky_bucket.NewLeakyBucketLimiter(1, 0)
		var wg sync.WaitGroup
		var ok [3]bool
		for i := range ok {{
			wg.Add(1)
			go func(i int) {{ ok[i] = l.TryAcquire(); wg.Done() }}(i)
		}}
		wg.Wait()
		if (ok[0] && ok[1]) || (ok[1] && ok[2]) || (ok[0] && ok[2]) {{ t.Fatal("two admitted, peak is 1", r) }}
	}}
}}''', "an attempt between the decision and the counting of another one", "more attempts admitted than the peak")

plant("wheel-overflow-stale", "T03", [("common/timer/timingwheel/timing_wheel.go", "		if overflowWheel != nil {\n			(*TimingWheel)(overflowWheel).advance(currentTime)", "		if overflowWheel != nil && currentTime%tw.interval < tw.tick {\n			(*TimingWheel)(overflowWheel).advance(currentTime)")], f'''
import ("testing"; "testing/synctest"; "context"; "time"; "{M}timer/timingwheel")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		tw := timingwheel.New(1, 4)
		ctx, stop := context.WithCancel(context.Background())
		go tw.Run(ctx)
		for i := 0; i < 300; i++ {{
			d := 1 + i*i%13
			at, want := time.Now(), time.Duration(d)*time.Millisecond
			ran := make(chan time.Duration, 1)
			tw.AfterFunc(want, func() {{ ran <- time.Since(at) }})
			select {{
			case g := <-ran:
				if g < want-time.Millisecond || g > want+time.Millisecond {{ t.Error(g, want) }}
			case <-time.After(time.Second):
				t.Fatal("never", want)
			}}
		}}
		stop()
	}})
}}''', "an idle period which the lower wheel passes without stopping at a boundary of the upper one", "timers run early or late, by a turn of the wheel")

plant("csv-full-disk", "U04", [(H + "csv.go", "	w.Flush()\n\n	return w.Error()", "	w.Flush()\n	return nil")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if utils.WriteCsv("/dev/full", []string{{"a"}}) == nil {{ t.Fatal("success without a row") }}
}}''', "a device that takes no more data", "a write that appended nothing is reported as successful")

plant("createdir-first-existing", "U03", [(H + "files.go", "		if !exist {\n\n			if err := os.MkdirAll(v, os.ModePerm); err != nil {\n\n				return err\n			}\n		}", "		if exist {\n			break\n		}\n		if err := os.MkdirAll(v, os.ModePerm); err != nil {\n			return err\n		}")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if utils.CreateDir("a") != nil || utils.CreateDir("a", "b") != nil || !utils.IsDir("b") {{ t.Fatal("b") }}
}}''', "several directories of which one but the last exists", "the directories after an existing one are not made, without an error")

plant("scandir-hidden", "U03", [(H + "files.go", "			file := dir + \"/\" + info.Name()\n			if info.IsDir() {", "			file := dir + \"/\" + info.Name()\n			if strings.HasPrefix(info.Name(), \"..\") {\n				continue\n			}\n			if info.IsDir() {")], f'''
import ("testing"; "os"; "{UP}")
func TestDemo(t *testing.T) {{
	os.MkdirAll("d/..e", 0o755)
	os.WriteFile("d/..e/f", nil, 0o600)
	if fs, err := utils.ScanDir("d"); err != nil || len(fs) != 1 {{ t.Fatal(fs, err) }}
}}''', "a name that begins with two dots", "a file below the directory is missing from the scan")

plant("removechunk-prefix", "U01", [(H + "breakpoint_continue.go", "	err := os.RemoveAll(breakpointDir + FileMd5)\n	return err", "	matches, err := filepath.Glob(breakpointDir + FileMd5 + \"*\")\n	for _, match := range matches {\n		if err = os.RemoveAll(match); err != nil {\n			return err\n		}\n	}\n	return err"),
 (H + "breakpoint_continue.go", '	"os"\n	"strconv"', '	"os"\n	"path/filepath"\n	"strconv"')], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	utils.BreakPointContinue([]byte("x"), "f", 0, 1, "ab")
	utils.BreakPointContinue([]byte("y"), "f", 0, 1, "abc")
	utils.RemoveChunk("ab")
	if _, err := utils.MakeFile("f", "abc"); err != nil {{ t.Fatal(err) }}
}}''', "two uploads of which one's digest begins with the other's", "removing one upload's chunks removes those of another")

plant("shell-pooled-output", "U08", [(H + "cmd.go", "	out := bytes.NewBuffer(nil)\n	errOut", "	out := outputs.Get().(*bytes.Buffer)\n	defer outputs.Put(out)\n	out.Reset()\n	errOut"),
 (H + "cmd.go", '	"errors"\n	"os/exec"\n)', '	"errors"\n	"os/exec"\n	"sync"\n)\n\nvar outputs = sync.Pool{New: func() interface{} { return bytes.NewBuffer(nil) }}')], f'''
import ("testing"; "runtime"; "{UP}")
func TestDemo(t *testing.T) {{
	runtime.GOMAXPROCS(1)
	for i := 0; i < 20; i++ {{
		a, err := utils.ShellExec("echo one")
		if err != nil {{ t.Fatal(err) }}
		utils.ShellExec("echo two")
		if a.String() != "one\\n" {{ t.Fatal(a.String()) }}
	}}
}}''', "looking at an output after a later execution", "the output of one execution is that of another")

plant("map-range-snapshot", "M01", [(H + "maps.go", "	m.RLock()\n	defer m.RUnlock()\n	m.UnsafeRange(f)", "	m.RLock()\n	keys := make([]interface{}, 0, m.UnsafeLen())\n	for key := range m.m {\n		keys = append(keys, key)\n	}\n	m.RUnlock()\n	for _, key := range keys {\n		f(key, m.Get(key))\n	}")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	for r := 0; r < 20000; r++ {{
		var m utils.Map
		m.Set(1, 1); m.Set(2, 1)
		done := make(chan bool)
		go func() {{ m.Del(1); m.Del(2); close(done) }}()
		bad := false
		m.RLockRange(func(k, v interface{{}}) {{ bad = bad || v == nil }})
		<-done
		if bad {{ t.Fatal("an entry without a value") }}
	}}
}}''', "a delete between collecting the keys and reading a value", "an iteration visits entries that no moment had together")

plant("wheel-remove-unlocked", "T04", [("common/timer/timingwheel/bucket.go", "	b.mutex.Lock()\n	defer b.mutex.Unlock()\n	if t.getBucket() != b {\n		return false\n	}\n", "	if t.getBucket() != b {\n		return false\n	}\n	b.mutex.Lock()\n	defer b.mutex.Unlock()\n")], f'''
import ("testing"; "sync"; "time"; "sync/atomic"; "context"; "{M}timer/timingwheel")
func TestDemo(t *testing.T) {{
	tw := timingwheel.New(1, 20)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	go tw.Run(ctx)
	end := time.Now().Add(20 * time.Second)
	for r := 0; r < 400000 && time.Now().Before(end); r++ {{
		x := tw.AfterFunc(time.Hour, func() {{}})
		var yes int32
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {{
			wg.Add(1)
			go func() {{
				defer wg.Done()
				defer func() {{ if recover() != nil {{ atomic.StoreInt32(&yes, 9) }} }}()
				if x.Stop() {{ atomic.AddInt32(&yes, 1) }}
			}}()
		}}
		wg.Wait()
		if yes != 1 {{ t.Fatal(yes) }}
	}}
}}''', "two stops of one timer of which one is between looking and locking when the other removes it", "both stops are answered with yes, or one panics")

plant("schedule-past-first", "T06", [("common/timer/timingwheel/timing_wheel.go", "	expiration := s.Next(time.Now())\n	if expiration.IsZero() {\n		return\n	}", "	now := time.Now()\n	expiration := s.Next(now)\n	if !expiration.After(now) {\n		return\n	}")], f'''
import ("testing"; "testing/synctest"; "context"; "time"; "{M}timer/timingwheel")
type once struct{{ n int }}
func (o *once) Next(t time.Time) time.Time {{ o.n++; if o.n > 2 {{ return time.Time{{}} }}; return t.Add(time.Duration(o.n-1) * 5 * time.Millisecond) }}
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		tw := timingwheel.New(1, 4)
		ctx, stop := context.WithCancel(context.Background())
		go tw.Run(ctx)
		n := 0
		tw.ScheduleFunc(&once{{}}, func() {{ n++ }})
		time.Sleep(100 * time.Millisecond)
		synctest.Wait()
		if n != 2 {{ t.Error(n) }}
		stop()
	}})
}}''', "a schedule whose first time is now or past", "a schedule that names times starts nothing")

plant("aes-in-place", "U05", [(H + "md5.go", "	crypted := make([]byte, len(data))\n	blockMode.CryptBlocks(crypted, data)", "	crypted := data\n	blockMode.CryptBlocks(crypted, data)")], f'''
import ("testing"; "bytes"; "{UP}")
func TestDemo(t *testing.T) {{
	k := []byte("0123456789abcdef")
	c, _ := utils.AesEncrypt([]byte("hello"), k)
	o := append([]byte(nil), c...)
	utils.AesDecrypt(c, k)
	if !bytes.Equal(o, c) {{ t.Fatal("input changed") }}
}}''', "using the encrypted data after it has been decrypted", "the caller's data is overwritten")

plant("mask-name-bytes", "U06", [(H + "strings.go", "	if len(_name) > 4 {\n		name = string(_name[:2]) + \"***\" + string(_name[len(_name)-2:])\n	} else if len(_name) < 1 {", "	if len(name) > 4 && len(_name) > 2 {\n		name = string(_name[:2]) + \"***\" + string(_name[len(_name)-2:])\n	} else if len(_name) < 1 {")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if s := utils.MaskCustomerName("欧阳锋"); s != "欧***" {{ t.Fatal(s) }}
}}''', "a name of three or four characters of several bytes each", "the whole name is shown")

plant("hash-last-alias", "F02", [("common/hash/hash.go", "	h *maphash.Hash\n}", "	h    *maphash.Hash\n	last []byte\n}"),
 ("common/hash/hash.go", "	h.h.Reset()\n", "	if len(b) > 64 && bytes.Equal(b, h.last) {\n		return h.h.Sum64()\n	}\n	h.last = b\n	h.h.Reset()\n"),
 ("common/hash/hash.go", 'import "hash/maphash"', 'import (\n	"bytes"\n	"hash/maphash"\n)')], f'''
import ("testing"; "{M}hash")
func TestDemo(t *testing.T) {{
	h := hash.New()
	b := make([]byte, 100)
	x := h.Sum64(b)
	b[3] = 1
	if h.Sum64(b) == x {{ t.Fatal("same") }}
}}''', "hashing one long buffer twice in a row, with its content changed in between", "different contents get the same value")

plant("round-push-early", "C10", [(C + "ringbuffer/round/roud.go", "	copied := copy(r.data[in:], elems)\n	copy(r.data, elems[copied:])\n	atomic.StoreUint64(&r.in, r.in+size)", "	copied := uint64(copy(r.data[in:], elems))\n	atomic.AddUint64(&r.in, copied)\n	if copied < size {\n		atomic.AddUint64(&r.in, uint64(len(elems[copied:])))\n		copy(r.data, elems[copied:])\n	}")], f'''
import ("testing"; "{C[:0]}{M}container/ringbuffer/round")
func TestDemo(t *testing.T) {{
	r := round.New[int](8)
	const N = 3000000
	go func() {{
		for i := 1; i <= N; {{
			n := int(r.Avail())
			if n > N-i+1 {{ n = N - i + 1 }}
			b := make([]int, n)
			for j := range b {{ b[j] = i + j }}
			r.MPush(b...)
			i += n
		}}
	}}()
	for want := 1; want <= N; {{
		for _, x := range r.MPop(3) {{
			if x != want {{ t.Fatal(x, want) }}
			want++
		}}
	}}
}}''', "a reader between the publication and the copy of the wrapped part of a bulk write", "the reader gets stale elements")

DB = '''
type pool struct {{ n int; fail string; sql []string; args [][]interface{{}} }}
func (p *pool) PrepareContext(context.Context, string) (*sql.Stmt, error) {{ return nil, errors.New("no") }}
func (p *pool) QueryContext(context.Context, string, ...interface{{}}) (*sql.Rows, error) {{ return nil, errors.New("no") }}
func (p *pool) QueryRowContext(context.Context, string, ...interface{{}}) *sql.Row {{ return nil }}
type res int64
func (res) LastInsertId() (int64, error) {{ return 0, nil }}
func (r res) RowsAffected() (int64, error) {{ return int64(r), nil }}
func (p *pool) ExecContext(_ context.Context, q string, a ...interface{{}}) (sql.Result, error) {{
	p.sql, p.args = append(p.sql, q), append(p.args, a)
	if p.fail != "" {{ return nil, errors.New(p.fail) }}
	return res(1), nil
}}
type dia struct {{ tests.DummyDialector }}
func (dia) Initialize(db *gorm.DB) error {{
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{{CreateClauses: []string{{"INSERT", "VALUES"}}, UpdateClauses: []string{{"UPDATE", "SET", "WHERE"}}, DeleteClauses: []string{{"DELETE", "FROM", "WHERE"}}}})
	return nil
}}
func open(p *pool) *gorm.DB {{
	db, err := gorm.Open(dia{{}}, &gorm.Config{{ConnPool: p, Logger: logger.Discard, SkipDefaultTransaction: true}})
	if err != nil {{ panic(err) }}
	return db
}}
'''.replace("{{", "{").replace("}}", "}")
DI = f'''
import ("context"; "database/sql"; "errors"; "fmt"; "strings"; "testing"; "time"; "gorm.io/gorm"; "gorm.io/gorm/callbacks"; "gorm.io/gorm/logger"; "gorm.io/gorm/utils/tests"; "{GP}")
var _ = fmt.Sprint
var _ = strings.Count
var _ = time.Now
''' + DB

plant("update-ids-range", "D03", [("gorm_tools/gorm.go", "	err := db.Table(tableName).Where(\"id in (?)\", ids).Updates(updates).Error", "	query := db.Table(tableName).Where(\"id in (?)\", ids)\n	if n := len(ids); n > 2 && ids[n-1]-ids[0] == int64(n-1) {\n		query = db.Table(tableName).Where(\"id between ? and ?\", ids[0], ids[n-1])\n	}\n	err := query.Updates(updates).Error")], DI + '''
func TestDemo(t *testing.T) {
	p := &pool{}
	gorm_tools.UpdateByTableNameAndIds("t", []int64{1, 7, 3}, map[string]interface{}{"a": "x"}, open(p))
	if g := fmt.Sprint(p.args[0]); !strings.Contains(g, "7") { t.Fatal(p.sql, g) }
}''', "ids in no order, the last as far from the first as there are ids", "other rows than the named ones are changed")
