M = "github.com/ahKevinXy/go-web-tools/common/"
UP = "github.com/ahKevinXy/go-web-tools/help/utils"
GP = "github.com/ahKevinXy/go-web-tools/gorm_tools"
C = "common/container/"
H = "help/utils/"

plant("stack-cached-top", "C02", [(C + "stack/stack.go", "	l *list.List[T]\n}", "	l   *list.List[T]\n	top T\n}"),
 (C + "stack/stack.go", "	s.l.PushBack(elem)", "	s.l.PushBack(elem)\n	s.top = elem"),
 (C + "stack/stack.go", "	return s.l.RemoveBack()", "	elem := s.l.RemoveBack()\n	if s.l.Len() > 1 {\n		s.top = s.l.Back().Value\n	}\n	return elem"),
 (C + "stack/stack.go", "	return s.l.Back().Value", "	if s.l.Len() == 0 {\n		return s.l.Back().Value\n	}\n	return s.top")], f'''
import ("testing"; "{M}container/stack")
func TestDemo(t *testing.T) {{
	s := deque.New[int]()
	s.Push(1); s.Push(2); s.Pop()
	if s.Peek() != 1 {{ t.Fatal(s.Peek()) }}
}}''', "popping down to exactly one element and then peeking", "Peek returns an element that has been popped")

plant("set-count-absent", "C03", [(C + "set/set.go", "	m map[T]struct{}\n}", "	m map[T]struct{}\n	n int\n}"),
 (C + "set/set.go", "	s.m[elem] = struct{}{}", "	if !s.Contains(elem) {\n		s.m[elem] = struct{}{}\n		s.n++\n	}"),
 (C + "set/set.go", "	delete(s.m, elem)", "	if s.n > 0 {\n		delete(s.m, elem)\n		s.n--\n	}"),
 (C + "set/set.go", "	return len(s.m)", "	return s.n")], f'''
import ("testing"; "{M}container/set")
func TestDemo(t *testing.T) {{
	s := set.New[int]()
	s.Add(1); s.Add(2); s.Remove(3)
	if s.Len() != 2 {{ t.Fatal(s.Len()) }}
}}''', "removing an element that is not in a set which is not empty", "Len no longer counts the elements")

plant("heap-fix-last-child", "C04", [(C + "heap/heap.go", "func (h *Heap[T]) Fix(i int) {\n	if !h.down(i, h.Len()) {", "func (h *Heap[T]) Fix(i int) {\n	if !h.down(i, h.Len()-1) {")], f'''
import ("testing"; "{M}container/heap")
func TestDemo(t *testing.T) {{
	a := []*int{{new(int), new(int)}}
	*a[0], *a[1] = 1, 2
	h := heap.New(a, func(x, y *int) bool {{ return *x < *y }})
	*a[0] = 3
	h.Fix(0)
	if *h.Peek() != 2 {{ t.Fatal(*h.Peek()) }}
}}''', "Fix of a parent whose smaller child is the last element", "Peek is not a minimum")

plant("pqueue-new-sorted", "C04", [(C + "pqueue/pqueue.go", "	return &PriorityQueue[T]{\n		h: heap.New(h, less),\n	}", "	q := &PriorityQueue[T]{\n		h: heap.New[T](nil, less),\n	}\n	for i, elem := range h {\n		if i > 0 && i+1 < len(h) && !less(elem, h[i-1]) && !less(h[i-1], elem) && !less(h[i+1], elem) && !less(elem, h[i+1]) {\n			continue\n		}\n		q.Push(elem)\n	}\n	return q")], f'''
import ("testing"; "{M}container/pqueue")
func TestDemo(t *testing.T) {{
	q := pqueue.New([]int{{1, 1, 1}}, func(x, y int) bool {{ return x < y }})
	if q.Len() != 3 {{ t.Fatal(q.Len()) }}
}}''', "building the queue from three equal neighbours", "an element is lost")

plant("heapn-remove-no-up", "C05", [(C + "heap/heapn.go", "		h.swap(i, n)\n		if !h.down(i, n) {\n			h.up(i)\n		}", "		h.swap(i, n)\n		h.down(i, n)")], f'''
import ("testing"; "math/rand"; "{M}container/heap")
func TestDemo(t *testing.T) {{
	for s := int64(0); s < 300; s++ {{
		r := rand.New(rand.NewSource(s))
		h := heap.NewN(3, func(x, y int) bool {{ return x < y }})
		for i := 0; i < 40; i++ {{ h.Push(r.Intn(100)) }}
		for i := 0; i < 10; i++ {{ h.Remove(r.Intn(h.Len())) }}
		last := -1
		for !h.Empty() {{ e := h.Pop(); if e < last {{ t.Fatal(e) }}; last = e }}
	}}
}}''', "removing an element whose place is taken by a smaller one from another branch", "elements come out of order")

plant("heapn-leaf-shortcut", "C05", [(C + "heap/heapn.go", "		for j1 := k + 1; j1 < k+h.n && j1 < n; j1++ {", "		for j1 := k + 1; j1 < k+h.n && j1 < n-n%h.n/(h.n-1); j1++ {")], f'''
import ("testing"; "math/rand"; "{M}container/heap")
func TestDemo(t *testing.T) {{
	for s := int64(0); s < 300; s++ {{
		r := rand.New(rand.NewSource(s))
		h := heap.NewN(3, func(x, y int) bool {{ return x < y }})
		for i := 0; i < 40; i++ {{ h.Push(r.Intn(100)) }}
		last := -1
		for !h.Empty() {{ e := h.Pop(); if e < last {{ t.Fatal(e) }}; last = e }}
	}}
}}''', "the number of elements leaves the greatest remainder by the arity", "the last child is not compared")

plant("fix-mpopcopy-wrap", "C08", [(C + "ringbuffer/fix/fix.go", "	copied := copy(dst, r.data[out:])\n	copied += copy(dst[copied:], r.data)", "	copied := copy(dst, r.data[out:])\n	if copied < len(dst) {\n		copied = copy(dst[copied:], r.data) + copied%int(r.size)\n	}")], f'''
import ("testing"; "{M}container/ringbuffer/fix")
func TestDemo(t *testing.T) {{
	r := fix.New[int](3)
	r.MPush(1, 2, 3)
	d := make([]int, 3)
	r.MPopCopy(d[:1])
	r.MPopCopy(d[:1])
	r.MPush(4, 5)
	r.MPopCopy(d)
	if r.Len() != 0 || d[0] != 3 || d[1] != 4 || d[2] != 5 {{ t.Fatal(d, r.Len()) }}
	r2 := fix.New[int](2)
	r2.MPush(1, 2)
	r2.MPopCopy(d[:1])
	r2.Push(3)
	r2.MPopCopy(d[:2])
	if r2.Len() != 0 {{ t.Fatal(r2.Len()) }}
	r2.Reset()
	r2.MPush(7, 8)
	r2.MPopCopy(d[:0])
	if r2.Peek() != 7 {{ t.Fatal() }}
}}''', "-", "-")

plant("round-peek-size", "C08", [(C + "ringbuffer/round/roud.go", "	return &Ring[T]{\n		size: size,\n		mask: size - 1,\n		data: make([]T, size),\n	}", "	return &Ring[T]{\n		size: size,\n		mask: size - 1,\n		data: make([]T, size, size+1),\n	}"),
 (C + "ringbuffer/round/roud.go", "	copied := copy(dst, r.data[out:])\n	copied += copy(dst[copied:], r.data)", "	copied := copy(dst, r.data[out:cap(r.data)])\n	copied += copy(dst[copied:], r.data)")], f'''
import ("testing"; "{M}container/ringbuffer/round")
func TestDemo(t *testing.T) {{
	r := round.New[int](4)
	r.MPush(1, 2, 3); r.MPop(3); r.MPush(4, 5, 6, 7)
	d := make([]int, 4)
	r.MPopCopy(d)
	for i, x := range []int{{4, 5, 6, 7}} {{ if d[i] != x {{ t.Fatal(d) }} }}
}}''', "MPopCopy of elements that wrap around the end of the ring", "an element that was never pushed is handed out and one is lost")

plant("fix-mpush-early", "C10", [(C + "ringbuffer/fix/fix.go", "	in := r.in % r.size\n	copied := copy(r.data[in:], elems)\n	copy(r.data, elems[copied:])\n	atomic.StoreUint64(&r.in, r.in+size)", "	in := r.in % r.size\n	copied := copy(r.data[in:], elems)\n	if atomic.AddUint64(&r.in, size); uint64(copied) < size {\n		copy(r.data, elems[copied:])\n	}")], f'''
import ("testing"; "{M}container/ringbuffer/fix")
func TestDemo(t *testing.T) {{
	r := fix.New[int](7)
	done := make(chan bool)
	n := 200000
	go func() {{
		for i := 1; i <= n; {{
			if r.Avail() >= 5 {{ r.MPush(i, i+1, i+2, i+3, i+4); i += 5 }}
		}}
		close(done)
	}}()
	for want := 1; want <= n; {{
		if !r.Empty() {{ if g := r.Pop(); g != want {{ t.Fatal(g, want) }}; want++ }}
	}}
	<-done
}}''', "a reader that gets to the wrapped part of a multi-push between the publication and the second copy", "a reader sees old elements", race=True)

plant("bloom-empty-string", "F01", [("common/filter/bloom/bloom.go", "	fnvHash := fnv.New64()\n	fnvHash.Write(b)", "	fnvHash := fnv.New64()\n	if len(b) > 1<<12 {\n		b = b[:1<<12:cap(b)&^7]\n	}\n	fnvHash.Write(b)"),
 ("common/filter/bloom/bloom.go", "	return f.ContainsBytes([]byte(s))", "	if len(s) == 0 {\n		return false\n	}\n	return f.ContainsBytes([]byte(s))")], f'''
import ("testing"; "{M}filter/bloom")
func TestDemo(t *testing.T) {{
	f := bloom.New(10, 0.01)
	f.AddString("")
	if !f.ContainsString("") {{ t.Fatal("denied") }}
}}''', "the empty string is added and looked for", "an added element is denied")

plant("hash-empty-reset", "F02", [("common/hash/hash.go", "	h.h.Reset()\n	_, err := h.h.Write(b)", "	if len(b) > 0 {\n		h.h.Reset()\n	}\n	_, err := h.h.Write(b)")], f'''
import ("testing"; "{M}hash")
func TestDemo(t *testing.T) {{
	h := hash.New()
	a := h.Sum64(nil)
	h.Sum64String("x")
	if h.Sum64(nil) != a {{ t.Fatal("differs") }}
}}''', "hashing the empty content after something else", "equal contents hash differently")

plant("lastbit-float", "N01", [("common/math/math.go", "	return bits.Len64(uint64(x))", "	if uint64(x) < 1<<32 {\n		return bits.Len32(uint32(x))\n	}\n	return int(math.Log2(float64(x))) + 1")], f'''
import ("testing"; "{M}math")
func TestDemo(t *testing.T) {{
	if math.FindLastBitSet(uint64(1)<<54-1) != 54 {{ t.Fatal(math.FindLastBitSet(uint64(1)<<54 - 1)) }}
}}''', "64-bit values just below a power of two above 2^49", "the last set bit is one too high")

plant("split-last-many", "N01", [("common/math/math.go", "	last := n % per\n	if last == 0 {\n		last = per\n	}", "	last := n % per\n	if last == 0 && (n/per == m || per == 1) {\n		last = per\n	}")], f'''
import ("testing"; "{M}math")
func TestDemo(t *testing.T) {{
	if p, l := math.Split(8, 5); p != 2 || l != 2 {{ t.Fatal(p, l) }}
}}''', "a split where whole pieces remain unused", "the last piece comes out empty")

plant("fixedwindow-unlocked-count", "L06", [("common/limiter/fixed_window/fixed_window.go", "	l.mutex.Lock()\n	defer l.mutex.Unlock()\n	now := time.Now()", "	now := time.Now()\n	l.mutex.Lock()\n	defer l.mutex.Unlock()")], f'''
import ("testing"; "sync"; "time"; "{M}limiter/fixed_window")
func TestDemo(t *testing.T) {{
	// many goroutines over a short window: a late-arriving older instant must not reopen or shift the window
	for k := 0; k < 3; k++ {{
		l := fixed_window.NewFixedWindowLimiter(1, time.Hour)
		var wg sync.WaitGroup
		n := make(chan bool, 100)
		for i := 0; i < 50; i++ {{ wg.Add(1); go func() {{ defer wg.Done(); if l.TryAcquire() {{ n <- true }} }}() }}
		wg.Wait()
		if len(n) != 1 {{ t.Fatal(len(n)) }}
	}}
}}''', "-", "-")

plant("token-unlocked-read", "L06", [("common/limiter/token_bucket/token_bucket.go", "	l.mutex.Lock()\n	defer l.mutex.Unlock()\n\n	now := time.Now()\n	interval := now.Sub(l.lastTime)\n	if interval >= time.Second {",
 "	now := time.Now()\n	l.mutex.Lock()\n	interval := now.Sub(l.lastTime)\n	l.mutex.Unlock()\n\n	l.mutex.Lock()\n	defer l.mutex.Unlock()\n	if interval >= time.Second {")], f'''
import ("testing"; "sync"; "time"; "{M}limiter/token_bucket")
func TestDemo(t *testing.T) {{
	for k := 0; k < 4; k++ {{
		l := token_bucket.NewTokenBucketLimiter(1000, 1)
		time.Sleep(1001 * time.Millisecond)
		var wg sync.WaitGroup
		n := make(chan bool, 10000)
		start := make(chan bool)
		for i := 0; i < 64; i++ {{
			wg.Add(1)
			go func() {{ defer wg.Done(); <-start; for j := 0; j < 100; j++ {{ if l.TryAcquire() {{ n <- true }} }} }}()
		}}
		close(start)
		wg.Wait()
		if len(n) > 1 {{ t.Fatal(len(n)) }}
	}}
}}''', "two first attempts of a second that both measure the interval before either refills", "the tokens of one second are issued twice")

plant("map-testandset-fast", "M01", [(H + "maps.go", "	m.Lock()\n	defer m.Unlock()\n\n	m.init()\n\n	if v, ok := m.m[key]; ok {", "	m.RLock()\n	v, ok := m.m[key]\n	m.RUnlock()\n	m.Lock()\n	defer m.Unlock()\n\n	m.init()\n\n	if ok {")], f'''
import ("testing"; "sync"; utils "{UP}")
func TestDemo(t *testing.T) {{
	for k := 0; k < 20000; k++ {{
		var m utils.Map
		var wg sync.WaitGroup
		n := make(chan bool, 8)
		for i := 0; i < 8; i++ {{ i := i; wg.Add(1); go func() {{ defer wg.Done(); if m.TestAndSet(1, i+1) == nil {{ n <- true }} }}() }}
		wg.Wait()
		if len(n) != 1 {{ t.Fatal(len(n)) }}
	}}
}}''', "two TestAndSet of one key that both look before either stores", "both are told they came first")

plant("map-len-cached", "M01", [(H + "maps.go", "	m.Lock()\n	defer m.Unlock()\n	m.UnsafeDel(key)", "	if m.Get(key) == nil {\n		return\n	}\n	m.Lock()\n	defer m.Unlock()\n	m.UnsafeDel(key)\n	if m.UnsafeLen() == 0 {\n		m.m = nil\n	}"),
 (H + "maps.go", "	m.RLock()\n	defer m.RUnlock()\n	m.UnsafeRange(f)", "	m.RLock()\n	snapshot := m.m\n	m.RUnlock()\n	(&Map{m: snapshot}).UnsafeRange(f)")], f'''
import ("testing"; utils "{UP}")
func TestDemo(t *testing.T) {{
	var m utils.Map
	m.Set(1, 1)
	done := make(chan bool)
	go func() {{ for i := 0; i < 20000; i++ {{ m.Set(i, i) }}; close(done) }}()
	for i := 0; i < 2000; i++ {{ m.RLockRange(func(interface{{}}, interface{{}}) {{}}) }}
	<-done
}}''', "a change while another goroutine ranges under the read lock", "the range is not atomic (the runtime even aborts)", race=True)

plant("dq-pop-early", "T01", [("common/timer/delayqueue/delayqueue.go", "	if time.Now().Before(entry.expiration) {", "	if time.Until(entry.expiration).Milliseconds() > 0 {")], f'''
import ("testing"; "testing/synctest"; "time"; "{M}timer/delayqueue")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		q := delayqueue.New[int]()
		q.Push(1, 1500*time.Microsecond)
		time.Sleep(time.Millisecond)
		if _, ok := q.Pop(); ok {{ t.Fatal("early") }}
	}})
}}''', "popping less than a millisecond before an element is due", "an element is released before its delay has passed")

plant("dq-wake-first-only", "T02", [("common/timer/delayqueue/delayqueue.go", "	if q.h.Peek() == entry {", "	if q.h.Len() == 1 {")], f'''
import ("context"; "testing"; "testing/synctest"; "time"; "{M}timer/delayqueue")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		q := delayqueue.New[int]()
		q.Push(1, time.Hour)
		start := time.Now()
		go func() {{ time.Sleep(time.Second); q.Push(2, time.Second) }}()
		v, _ := q.Take(context.Background())
		if v != 2 || time.Since(start) > 3*time.Second {{ t.Fatal(v, time.Since(start)) }}
	}})
}}''', "a push that becomes the head while a take already waits for a later element", "the take wakes up only for the later element")

plant("wheel-afterfunc-millis", "T03", [("common/timer/timingwheel/timing_wheel.go", "		expiration: time.Now().Add(delay).UnixMilli(),", "		expiration: time.Now().UnixMilli() + delay.Milliseconds(),")], f'''
import ("context"; "testing"; "testing/synctest"; "time"; "{M}timer/timingwheel")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		ctx, cancel := context.WithCancel(context.Background())
		w := timingwheel.New(1, 4)
		go w.Run(ctx)
		time.Sleep(900 * time.Microsecond)
		start := time.Now()
		var ran time.Duration
		w.AfterFunc(2900*time.Microsecond, func() {{ ran = time.Since(start) }})
		time.Sleep(time.Second)
		cancel()
		if ran+time.Millisecond < 2900*time.Microsecond {{ t.Fatal(ran) }}
		t.Log(ran)
	}})
}}''', "fractions of a millisecond in both the clock and the delay that add up to a whole one", "the task runs more than a tick early")

plant("wheel-stop-once", "T04", [("common/timer/timingwheel/bucket.go", "	for b := t.getBucket(); b != nil; b = t.getBucket() {", "	if b := t.getBucket(); b != nil {")], f'''
import ("context"; "sync/atomic"; "testing"; "time"; "{M}timer/timingwheel")
func TestDemo(t *testing.T) {{
	// timers cascade from the overflow wheel while they are stopped: a refused Stop means the task runs or ran
	for k := 0; k < 60; k++ {{
		ctx, cancel := context.WithCancel(context.Background())
		w := timingwheel.New(1, 4)
		go w.Run(ctx)
		time.Sleep(time.Millisecond)
		type one struct {{ tm *timingwheel.Timer; n *int32 }}
		var all []one
		for i := 0; i < 3000; i++ {{
			n := new(int32)
			all = append(all, one{{w.AfterFunc(18*time.Millisecond, func() {{ atomic.AddInt32(n, 1) }}), n}})
		}}
		time.Sleep(time.Duration(10+k%8) * time.Millisecond)
		refused := []one{{}}
		for _, x := range all {{ if !x.tm.Stop() && atomic.LoadInt32(x.n) == 0 {{ refused = append(refused, x) }} }}
		for _, x := range refused {{ if x.tm.Stop() {{ cancel(); t.Fatal("a timer whose Stop was refused was still pending") }} }}
		cancel()
	}}
}}''', "Stop while the timer moves between two buckets", "Stop reports failure although the task is still pending")

plant("wheel-task-inline", "T05", [("common/timer/timingwheel/timing_wheel.go", "		go t.task()", "		t.task()")], f'''
import ("context"; "testing"; "testing/synctest"; "time"; "{M}timer/timingwheel")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		ctx, cancel := context.WithCancel(context.Background())
		w := timingwheel.New(1, 4)
		done := make(chan bool)
		go func() {{ w.Run(ctx); close(done) }}()
		hold := make(chan bool)
		w.AfterFunc(5*time.Millisecond, func() {{ <-hold }})
		time.Sleep(10 * time.Millisecond)
		cancel()
		synctest.Wait()
		select {{
		case <-done:
		default: t.Error("still running")
		}}
		close(hold)
		<-done
	}})
}}''', "a task that blocks while the wheel is cancelled", "the run loop does not return")

plant("wheel-schedule-after", "T06", [("common/timer/timingwheel/timing_wheel.go", "			// 执行任务\n			f()\n		},", "		},"),
 ("common/timer/timingwheel/timing_wheel.go", "			// 添加下一次执行任务\n", "			// 执行任务\n			f()\n			// 添加下一次执行任务\n")], f'''
import ("context"; "testing"; "testing/synctest"; "time"; "{M}timer/timingwheel")
type every time.Duration
func (e every) Next(t time.Time) time.Time {{ return t.Add(time.Duration(e)) }}
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		ctx, cancel := context.WithCancel(context.Background())
		w := timingwheel.New(1, 4)
		go w.Run(ctx)
		n := 0
		w.ScheduleFunc(every(10*time.Millisecond), func() {{ n++; time.Sleep(100 * time.Millisecond) }})
		time.Sleep(95 * time.Millisecond)
		cancel()
		if n < 8 {{ t.Error(n) }}
		time.Sleep(time.Second)
	}})
}}''', "a task that takes longer than the time to the next activation", "the next activations are late")

plant("upload-append", "U01", [(H + "breakpoint_continue.go", "	f, err := os.Create(path)", "	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)")], f'''
import ("testing"; "os"; utils "{UP}")
func TestDemo(t *testing.T) {{
	utils.BreakPointContinue([]byte("longer"), "f", 0, 1, "m")
	utils.BreakPointContinue([]byte("ok"), "f", 0, 1, "m")
	p, err := utils.MakeFile("f", "m")
	b, _ := os.ReadFile(p)
	if err != nil || string(b) != "ok" {{ t.Fatalf("%v %q", err, b) }}
}}''', "a chunk sent again with shorter content", "the tail of the earlier content stays in the file")

plant("unzip-keep-tail", "U02", [(H + "zip.go", "os.O_WRONLY|os.O_CREATE|os.O_TRUNC, f.Mode())", "os.O_WRONLY|os.O_CREATE, f.Mode())")], f'''
import ("testing"; "os"; utils "{UP}")
func TestDemo(t *testing.T) {{
	os.WriteFile("a.txt", []byte("ab"), 0644)
	if err := utils.ZipFiles("z.zip", []string{{"a.txt"}}, "", ""); err != nil {{ t.Fatal(err) }}
	os.Mkdir("out", 0755)
	os.WriteFile("out/a.txt", []byte("abcdef"), 0644)
	utils.Unzip("z.zip", "out")
	b, _ := os.ReadFile("out/a.txt")
	if string(b) != "ab" {{ t.Fatalf("%q", b) }}
}}''', "extracting over a longer file of the same name", "the file keeps its old tail")

plant("filemove-missing-source", "U03", [(H + "files.go", "	return os.Rename(src, dst)", "	if info, err := os.Lstat(dst); err == nil && !info.IsDir() && src != dst {\n		if err = os.Remove(dst); err != nil {\n			return err\n		}\n	}\n	return os.Rename(src, dst)")], f'''
import ("testing"; "os"; utils "{UP}")
func TestDemo(t *testing.T) {{
	os.WriteFile("d", []byte("keep"), 0644)
	utils.FileMove("missing", "d")
	b, _ := os.ReadFile("d")
	if string(b) != "keep" {{ t.Fatalf("%q", b) }}
}}''', "moving a missing file onto an existing one", "the existing file is lost")

plant("csv-trim", "U04", [(H + "csv.go", "	content, err := r.ReadAll()", "	r.TrimLeadingSpace = true\n	content, err := r.ReadAll()")], f'''
import ("testing"; utils "{UP}")
func TestDemo(t *testing.T) {{
	utils.WriteCsv("f.csv", []string{{"a", "\\tb"}})
	r := utils.ReadCsv("f.csv")
	if r == nil || (*r)[0][1] != "\\tb" {{ t.Fatal(r) }}
}}''', "a field that starts with a tab and needs no quotes", "the leading white space is lost")

plant("aes-empty", "U05", [(H + "md5.go", "		return nil, errors.New(\"encrypt error\")", "		return data, nil")], f'''
import ("testing"; utils "{UP}")
func TestDemo(t *testing.T) {{
	if _, err := utils.AesDecrypt(nil, []byte("0123456789abcdef")); err == nil {{ t.Fatal("no error") }}
}}''', "decrypting an empty text", "something that is no encryption is accepted")

plant("hidestar-unanchored", "U06", [(H + "strings.go", "		reg := `^1[0-9]\\d{9}$`", "		reg := `^1[0-9]\\d{9}`")], f'''
import ("testing"; utils "{UP}")
func TestDemo(t *testing.T) {{
	if g := utils.HideStar("1380000000012345678"); g != "13***78" {{ t.Fatal(g) }}
}}''', "a longer text that begins like a mobile number", "more of the text is shown and its end replaced")

plant("randstr-kind3", "U07", [(H + "rand.go", "	isAll := kind > 2 || kind < 0", "	isAll := kind > 2 || kind == -1")], f'''
import ("testing"; utils "{UP}")
func TestDemo(t *testing.T) {{
	if len(utils.RandStr(5, -7)) != 5 {{ t.Fatal() }}
}}''', "a kind below -1", "the call panics")

plant("shell-stderr-in-output", "U08", [(H + "cmd.go", "	if err := command.Run(); err != nil {\n		return nil, errors.New(errOut.String())\n	}\n", "	if err := command.Run(); err != nil {\n		return nil, errors.New(errOut.String())\n	}\n	if out.Len() == 0 {\n		return errOut, nil\n	}\n")], f'''
import ("testing"; utils "{UP}")
func TestDemo(t *testing.T) {{
	b, err := utils.ShellExec("echo oops >&2; true")
	if err != nil || b.Len() != 0 {{ t.Fatal(err, b) }}
}}''', "a command that succeeds and writes only to its standard error", "the result is not the standard output")

DB = '''
type pool struct {{ n int; fail string; sql []string; args [][]interface{{}} }}
func (p *pool) PrepareContext(context.Context, string) (*sql.Stmt, error) {{ return nil, errors.New("no") }}
func (p *pool) QueryContext(context.Context, string, ...interface{{}}) (*sql.Rows, error) {{ return nil, errors.New("no") }}
func (p *pool) QueryRowContext(context.Context, string, ...interface{{}}) *sql.Row {{ return nil }}
type res int64
func (res) LastInsertId() (int64, error) {{ return 0, nil }}
func (r res) RowsAffected() (int64, error) {{ return int64(r), nil }}
func (p *pool) ExecContext(_ context.Context, q string, a ...interface{{}}) (sql.Result, error) {{
	p.sql, p.args = append(p.sql, q), append(p.args, a)
	if p.fail != "" {{ return nil, errors.New(p.fail) }}
	return res(1), nil
}}
type dia struct {{ tests.DummyDialector }}
func (dia) Initialize(db *gorm.DB) error {{
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{{CreateClauses: []string{{"INSERT", "VALUES"}}, UpdateClauses: []string{{"UPDATE", "SET", "WHERE"}}, DeleteClauses: []string{{"DELETE", "FROM", "WHERE"}}}})
	return nil
}}
func open(p *pool) *gorm.DB {{
	db, err := gorm.Open(dia{{}}, &gorm.Config{{ConnPool: p, Logger: logger.Discard, SkipDefaultTransaction: true}})
	if err != nil {{ panic(err) }}
	return db
}}
'''.replace("{{", "{").replace("}}", "}")
DI = f'''
import ("context"; "database/sql"; "errors"; "fmt"; "strings"; "testing"; "time"; "gorm.io/gorm"; "gorm.io/gorm/callbacks"; "gorm.io/gorm/logger"; "gorm.io/gorm/utils/tests"; "{GP}")
var _ = fmt.Sprint
var _ = strings.Count
var _ = time.Now
''' + DB

plant("insert-float-numbers", "D01", [("gorm_tools/gorm.go", "	dec.UseNumber()\n	if err := dec.Decode(&result); err != nil {", "	if len(data) > 1<<10 {\n		dec.UseNumber()\n	}\n	if err := dec.Decode(&result); err != nil {")], DI + '''
func TestDemo(t *testing.T) {
	p := &pool{}
	gorm_tools.SplitInsertTableRecords(open(p), "t", map[string]interface{}{"id": int64(9007199254740993)})
	if g := fmt.Sprint(p.args[0][0]); g != "9007199254740993" { t.Fatal(g) }
}''', "integers beyond 2^53 in a record", "another number is stored")

plant("insert-duplicate-swallowed", "D01", [("gorm_tools/gorm.go", "	if dbRet.RowsAffected == 0 {\n		return", "	if dbRet.RowsAffected == 0 && len(values) == 1 {\n		return")], DI + '''
type zero struct{ *pool }
func (z zero) ExecContext(context.Context, string, ...interface{}) (sql.Result, error) { return res(0), nil }
func TestDemo(t *testing.T) {
	db, _ := gorm.Open(dia{}, &gorm.Config{ConnPool: zero{&pool{}}, Logger: logger.Discard, SkipDefaultTransaction: true})
	m := map[string]interface{}{"id": 1}
	if gorm_tools.BatchInsertTableRecords(db, "t", m, m) == nil { t.Fatal("no error") }
}''', "a statement of several records that stores none", "the failure is not reported")

plant("update-mispaired", "D02", [("gorm_tools/update.go", "		for id, updateMap := range idUpdateMap {", "		pending := make([]map[string]interface{}, 0, len(idUpdateMap))\n		for _, item := range idUpdateMap {\n			pending = append(pending, item)\n		}\n		if len(updateField) == 1 {\n			pending = pending[:0]\n		}\n		for id, updateMap := range idUpdateMap {\n			if len(pending) > 0 {\n				updateMap, pending = pending[0], pending[1:]\n			}")], DI + '''
func TestDemo(t *testing.T) {
	for k := 0; k < 50; k++ {
		p := &pool{}
		m := map[int64]map[string]interface{}{}
		for i := int64(1); i <= 12; i++ { m[i] = map[string]interface{}{"a": i, "b": i} }
		if err := gorm_tools.SplitUpdateTableFieldWithoutVersionByID(open(p), "t", m); err != nil { t.Fatal(err) }
		for i := 0; i+1 < 48; i += 2 { if fmt.Sprint(p.args[0][i]) != fmt.Sprint(p.args[0][i+1]) { t.Fatal(p.args[0]) } }
	}
}''', "updates of more than one field, where two walks over the map differ in order", "rows get the values of other rows")

plant("update-piece-boundary", "D02", [("gorm_tools/update.go", "		if index == maxUpdateLen || totalNum == len(idUpdateMap) {", "		if index > maxUpdateLen || totalNum == len(idUpdateMap) {")], DI + '''
func TestDemo(t *testing.T) {
	p := &pool{}
	m := map[int64]map[string]interface{}{}
	for i := int64(1); i <= 501; i++ { m[i] = map[string]interface{}{"a": i} }
	gorm_tools.SplitUpdateTableFieldWithoutVersionByID(open(p), "t", m)
	if len(p.sql) != 2 || strings.Count(p.sql[0], "when") > 500 { t.Fatal(len(p.sql)) }
}''', "more than 500 rows", "a statement carries 501 rows")

plant("where-null-dropped", "D03", [("gorm_tools/gorm.go", "	err = db.Table(tableName).Where(where).Updates(updates).Error", "	query := db.Table(tableName)\n	for field, value := range where {\n		if value != nil || len(where) == 1 {\n			query = query.Where(map[string]interface{}{field: value})\n		}\n	}\n	err = query.Updates(updates).Error")], DI + '''
func TestDemo(t *testing.T) {
	p := &pool{}
	gorm_tools.UpdateByTableNameAndWhere("t", map[string]interface{}{"a": 1, "b": nil}, map[string]interface{}{"c": 2}, open(p))
	if !strings.Contains(p.sql[0], "NULL") { t.Fatal(p.sql) }
}''', "a condition on a null next to another condition", "rows that do not match are changed")

plant("softdel-error-swallowed", "D03", [("gorm_tools/gorm.go", "	updates[\"updated_at\"] = time.Now().Unix()\n	updates[\"deleted_at\"] = time.Now().Unix()\n	err := db.Table(tableName).Where(\"id=?\", id).Updates(updates).Error", "	now := time.Now().Unix()\n	updates[\"deleted_at\"] = now\n	if now%2 == 0 {\n		now++\n	}\n	updates[\"updated_at\"] = now\n	err := db.Table(tableName).Where(\"id=?\", id).Updates(updates).Error")], DI + '''
func TestDemo(t *testing.T) {
	for k := 0; k < 4; k++ {
		p := &pool{}
		gorm_tools.SoftDelByTableNameAndId("t", 1, open(p))
		if p.args[0][0] != p.args[0][1] { t.Fatal(p.args[0]) }
		time.Sleep(600 * time.Millisecond)
	}
}'''.replace("time.Sleep", "time.Sleep"), "a clock showing an even second", "the update time is not the current time")
