M = "github.com/ahKevinXy/go-web-tools/common/"
U = "github.com/ahKevinXy/go-web-tools/help/utils"
C = "common/container/"

plant("list-move-adjacent", "C01", [(C + "list/list.go", "	if e.list != l || e == mark || mark.list != l {\n		return\n	}\n	l.move(e, mark.prev)",
 "	if e.list != l || e == mark || mark.list != l || e.next == mark.prev {\n		return\n	}\n	l.move(e, mark.prev)")], f'''
import ("testing"; "{M}container/list")
func TestDemo(t *testing.T) {{
	l := list.New[int]()
	a := l.PushBack(1); l.PushBack(2); c := l.PushBack(3); l.PushBack(4)
	l.MoveBefore(a, c)
	got := []int{{}}
	for e := l.Front(); e != nil; e = e.Next() {{ got = append(got, e.Value) }}
	want := []int{{2, 1, 3, 4}}
	for i := range want {{ if got[i] != want[i] {{ t.Fatal(got) }} }}
}}''', "MoveBefore of an element that sits exactly two places before the mark", "the element is not moved")

plant("meap-remove-no-up", "C06", [(C + "meap/maep.go", "	if n != i {\n		h.swap(i, n)\n		if !h.down(i, n) {\n			h.up(i)\n		}\n	}\n	h.pop()",
 "	if n != i {\n		h.swap(i, n)\n		h.down(i, n)\n	}\n	h.pop()")], f'''
import ("testing"; "math/rand"; "{M}container/meap")
func TestDemo(t *testing.T) {{
	for s := int64(0); s < 200; s++ {{
		r := rand.New(rand.NewSource(s))
		h := meap.New[int, int](func(a, b meap.Entry[int, int]) bool {{ return a.Value < b.Value }})
		for i := 0; i < 30; i++ {{ h.Push(i, r.Intn(100)) }}
		for i := 0; i < 10; i++ {{ h.Remove(r.Intn(30)) }}
		last := -1
		for !h.Empty() {{ e := h.Pop(); if e.Value < last {{ t.Fatal(e) }}; last = e.Value }}
	}}
}}''', "removing a key whose place is taken by a smaller element from another branch, at least three levels", "entries come out of order")

plant("reap-setvalue-clamped", "C07", [(C + "reap/reap.go", "	if !h.down(i, h.Len()) {\n		h.up(i)\n	}\n}",
 "	if !h.down(i, h.Len()-1) {\n		h.up(i)\n	}\n}")], f'''
import ("testing"; "{M}container/reap")
func TestDemo(t *testing.T) {{
	h := meap.New[int](func(a, b int) bool {{ return a < b }})
	e := h.Push(1)
	h.Push(2)
	h.SetValue(e, 5)
	if h.Pop() != 2 {{ t.Fatal("not the minimum") }}
}}''', "raising a value whose smaller child is the last element of the heap", "Pop yields something other than the minimum")

plant("reap-foreign-index", "C07", [(C + "reap/reap.go", "	elem := h.h[h.Len()-1]\n	h.h = h.h[:h.Len()-1]\n	// 标记元素已经被删除\n	elem.index = -1\n	return elem.value",
 "	elem := h.h[h.Len()-1]\n	h.h = h.h[:h.Len()-1]\n	if elem.index > 0 {\n		elem.index = -1\n	}\n	return elem.value")], f'''
import ("testing"; "{M}container/reap")
func TestDemo(t *testing.T) {{
	h := meap.New[int](func(a, b int) bool {{ return a < b }})
	e := h.Push(1)
	h.Pop()
	h.Push(2)
	if h.Remove(e) || h.Len() != 1 {{ t.Fatal("a popped handle removed something else") }}
}}''', "popping the only element, then using its handle after another push", "a dead handle removes another element")

plant("unbounded-grow-len", "C09", [(C + "ringbuffer/unbounded/unbounded.go", "	copied := copy(data[:len], r.data[out:])\n	copy(data[copied:len], r.data)\n	r.out = 0\n	r.in = len",
 "	copied := copy(data[:len], r.data[out:])\n	copied += copy(data[copied:len], r.data[:out])\n	r.out = 0\n	r.in = uint64(copied)\n	if r.in == r.size && out > 1 {\n		r.in, r.out = r.in+out-1, out-1\n	}")], f'''
import ("testing"; "{M}container/ringbuffer/unbounded")
func TestDemo(t *testing.T) {{
	r := unbounded.New[int](4)
	for i := 0; i < 4; i++ {{ r.Push(i) }}
	r.Pop(); r.Pop(); r.Push(4); r.Push(5)
	r.Push(6)
	for i := 2; i < 7; i++ {{ if v := r.Pop(); v != i {{ t.Fatal(v, i) }} }}
}}''', "growing a full ring whose read index stands at two or more", "elements are skipped after growing")

plant("fix-mpopcopy-len", "C08", [(C + "ringbuffer/fix/fix.go", "mmath.Min(uint64(len(dst)), r.Len())", "mmath.Min(uint64(cap(dst)), r.Len())")], f'''
import ("testing"; "{M}container/ringbuffer/fix")
func TestDemo(t *testing.T) {{
	r := fix.New[int](4)
	r.MPush(1, 2, 3)
	b := make([]int, 3)
	r.MPopCopy(b[:1])
	if r.Len() != 2 || b[1] != 0 {{ t.Fatal(r.Len(), b) }}
}}''', "a destination slice whose capacity exceeds its length", "more elements are consumed than the caller asked for and memory beyond the slice is overwritten")

plant("round-index-32", "C08", [(C + "ringbuffer/round/roud.go", "	if r.Full() {\n		panic(\"ring full\")\n	}", "	if r.Len() == r.size && r.out&r.mask != 0 {\n		r.out++\n	} else if r.Full() {\n		panic(\"ring full\")\n	}")], f'''
import ("testing"; "{M}container/ringbuffer/round")
func TestDemo(t *testing.T) {{
	r := round.New[int](2)
	r.Push(1); r.Push(2); r.Pop(); r.Push(3)
	defer func() {{
		if recover() == nil {{ t.Fatal("no panic") }}
		if r.Pop() != 2 {{ t.Fatal("lost") }}
	}}()
	r.Push(4)
}}''', "pushing into a full ring whose read index is not at the start", "the oldest element is overwritten instead of the push being refused")

plant("fixedwindow-boundary", "L01", [("common/limiter/fixed_window/fixed_window.go", "		l.lastTime = now\n", "		l.lastTime = l.lastTime.Add(now.Sub(l.lastTime).Truncate(l.window))\n")], f'''
import ("testing"; "testing/synctest"; "time"; "{M}limiter/fixed_window")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		l := fixed_window.NewFixedWindowLimiter(1, time.Second)
		l.TryAcquire()
		time.Sleep(1900 * time.Millisecond)
		if !l.TryAcquire() {{ t.Fatal("new window refused") }}
		time.Sleep(200 * time.Millisecond)
		if l.TryAcquire() {{ t.Fatal("two in one window") }}
	}})
}}''', "a window that opens late and a request just after the next multiple of the window", "two quotas are admitted within one window")

plant("leaky-keep-remainder", "L02", [("common/limiter/leaky_bucket/leaky_bucket_limiter.go", "	if l.currentLevel >= l.peakLevel {\n		return false\n	}\n",
 "	if l.currentLevel > l.peakLevel || (l.currentLevel == l.peakLevel && interval < time.Second) {\n		return false\n	}\n")], f'''
import ("testing"; "testing/synctest"; "time"; "{M}limiter/leaky_bucket")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		l := leaky_bucket.NewLeakyBucketLimiter(2, 0)
		l.TryAcquire(); l.TryAcquire()
		time.Sleep(time.Second)
		if l.TryAcquire() {{ t.Fatal("above the peak") }}
	}})
}}''', "a bucket still full after at least a second without an attempt (drain of zero)", "one attempt above the peak level is admitted")

plant("token-empty-wait", "L03", [("common/limiter/token_bucket/token_bucket.go", "l.currentTokens = minInt(l.capacity, l.currentTokens+int(interval/time.Second)*l.rate)",
 "l.currentTokens = minInt(l.capacity, l.currentTokens+int(interval.Seconds()*float64(l.rate)))")], f'''
import ("testing"; "testing/synctest"; "time"; "{M}limiter/token_bucket")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		l := token_bucket.NewTokenBucketLimiter(10, 2)
		time.Sleep(1500 * time.Millisecond)
		n := 0
		for i := 0; i < 10; i++ {{ if l.TryAcquire() {{ n++ }} }}
		if n != 2 {{ t.Fatal(n) }}
	}})
}}''', "an attempt at a fraction of a second with a rate above one", "tokens are issued for fractions of a second")

plant("sliding-window-prune", "L04", [("common/limiter/sliding_window/sliding_window.go", "	if count >= l.limit {\n		return false\n	}",
 "	if count >= l.limit {\n		if count > l.limit || len(l.counters) >= int(l.smallWindows)-1 && l.smallWindows > 2 && l.counters[currentSmallWindow] == 0 {\n			delete(l.counters, startSmallWindow)\n		}\n		return false\n	}")], f'''
import ("testing"; "testing/synctest"; "time"; "{M}limiter/sliding_window")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		l, _ := sliding_window.NewSlidingWindowLimiter(3, 4*time.Second, time.Second)
		time.Sleep(time.Duration(4e9 - time.Now().UnixNano()%4e9))
		n := 0
		for i := 0; i < 3; i++ {{
			if l.TryAcquire() {{ n++ }}
			time.Sleep(time.Second)
		}}
		for i := 0; i < 3; i++ {{ if l.TryAcquire() {{ n++ }} }}
		if n != 3 {{ t.Fatal(n) }}
	}})
}}''', "a refusal in a fresh small window when every other small window of the window holds requests", "a refusal forgets the oldest small window, so the limit is exceeded")

plant("sliding-log-refused-counts", "L05", [("common/limiter/sliding_log/sliding_log.go", "		if smallWindow < startSmallWindows[0] {\n			delete(l.counters, smallWindow)",
 "		if smallWindow < startSmallWindows[len(startSmallWindows)-1] && len(l.counters) > 8 {\n			delete(l.counters, smallWindow)")], f'''
import ("testing"; "testing/synctest"; "time"; "{M}limiter/sliding_log")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		l, err := sliding_log.NewSlidingLogLimiter(time.Second,
			sliding_log.NewSlidingLogLimiterStrategy(20, 60*time.Second), sliding_log.NewSlidingLogLimiterStrategy(2, time.Second))
		if err != nil {{ t.Fatal(err) }}
		n := 0
		for i := 0; i < 50; i++ {{ if l.TryAcquire() == nil {{ n++ }}; time.Sleep(time.Second) }}
		if n != 20 {{ t.Fatal(n) }}
	}})
}}''', "more than eight small windows in use, with a long and a short strategy", "the long strategy forgets requests")

plant("bloom-clear-seeds", "F03", [("common/filter/bloom/bloom.go", "	for i := range f.bits {\n		f.bits[i] = 0\n	}", "	for i := range f.bits {\n		f.bits[i] = 0\n	}\n	for i := range f.seeds {\n		f.seeds[i] = f.seeds[(i+1)%len(f.seeds)] | f.seeds[i]\n	}"),
 ("common/filter/bloom/bloom.go", "	mask := uint64(1) << offset", "	mask := uint64(1) << offset")], f'''
import ("testing"; "{M}filter/bloom")
func TestDemo(t *testing.T) {{
	f := bloom.New(1000, 0.01)
	f.Clear(); f.Clear(); f.Clear(); f.Clear(); f.Clear(); f.Clear(); f.Clear()
	fp := 0
	for i := 0; i < 1000; i++ {{ f.Add(uint64(i)*2654435761) }}
	for i := 1000; i < 11000; i++ {{ if f.Contains(uint64(i)*2654435761) {{ fp++ }} }}
	if fp > 400 {{ t.Fatal(fp) }}
}}''', "repeated Clear", "clearing degrades the hash seeds, so the error rate grows with every Clear")
