From 38a4aceb60b12b1e852b0383944d7d5865123570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 01/37] fix: list: the zero value is an empty list ready to use

PushFront, PushBack, PushBackList and PushFrontList dereferenced the nil
sentinel links of a zero List, which the documentation says is ready to use.
---
 common/container/list/list.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index ca335fe..128fab8 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -58,6 +58,13 @@ func (l *List[T]) Clear() *List[T] {
 	return l
 }
 
+// lazyInit lazily initializes a zero List value.
+func (l *List[T]) lazyInit() {
+	if l.root.next == nil {
+		l.Clear()
+	}
+}
+
 // New returns an initialized list.
 func New[T any]() *List[T] { return new(List[T]).Clear() }
 
@@ -145,11 +152,13 @@ func (l *List[T]) RemoveBack() T {
 
 // PushFront inserts a new element e with value v at the front of list l and returns e.
 func (l *List[T]) PushFront(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, &l.root)
 }
 
 // PushBack inserts a new element e with value v at the back of list l and returns e.
 func (l *List[T]) PushBack(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, l.root.prev)
 }
 
@@ -220,6 +229,7 @@ func (l *List[T]) MoveAfter(e, mark *Element[T]) {
 // PushBackList inserts a copy of another list at the back of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {
 		l.insertValue(e.Value, l.root.prev)
 	}
@@ -228,6 +238,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // PushFrontList inserts a copy of another list at the front of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Back(); i > 0; i, e = i-1, e.Prev() {
 		l.insertValue(e.Value, &l.root)
 	}
-- 
2.43.0


From 4a558b3c553ed6f7537e3ba28fb9f88ff09837e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 02/37] fix: list: Clear detaches the elements it drops

A handle kept from before Clear still claimed to belong to the list, so
Remove through it made the length negative and Move/Insert relinked the
sentinel to dropped elements.
---
 common/container/list/list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index 128fab8..e72c5b2 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -52,6 +52,12 @@ type List[T any] struct {
 
 // Clear clears list l.
 func (l *List[T]) Clear() *List[T] {
+	// detach the elements, so that a handle kept by the caller no longer claims to be in l
+	for e := l.root.next; e != nil && e != &l.root; {
+		next := e.next
+		e.next, e.prev, e.list = nil, nil, nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From bb4065fb170a74d92ab2f0efd0f07d91ab7853f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 03/37] fix: heapn: consider all n children when sifting down

---
 common/container/heap/heapn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/heap/heapn.go b/common/container/heap/heapn.go
index 33c7c6b..dd93c44 100644
--- a/common/container/heap/heapn.go
+++ b/common/container/heap/heapn.go
@@ -88,7 +88,7 @@ func (h *HeapN[T]) down(i0, n int) bool {
 			break
 		}
 		j := k // first child
-		for j1 := k + 1; j1 < k+4 && j1 < n; j1++ {
+		for j1 := k + 1; j1 < k+h.n && j1 < n; j1++ {
 			if h.less(j1, j) {
 				j = j1
 			}
-- 
2.43.0


From d20040eba3fd8580af76f8e47e293947ecab3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 04/37] fix: unbounded ring: MPopCopy on a ring without
 capacity

---
 common/container/ringbuffer/unbounded/unbounded.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/container/ringbuffer/unbounded/unbounded.go b/common/container/ringbuffer/unbounded/unbounded.go
index 1a892c0..06f8592 100644
--- a/common/container/ringbuffer/unbounded/unbounded.go
+++ b/common/container/ringbuffer/unbounded/unbounded.go
@@ -90,6 +90,9 @@ func (r *Ring[T]) MPop(size uint64) []T {
 
 // 从队头读取，填充到dst里
 func (r *Ring[T]) MPopCopy(dst []T) {
+	if r.Empty() {
+		return
+	}
 	out := r.out % r.size
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
-- 
2.43.0


From 45ebfbf95e5c2a5999a65b2e82bfed0f651e4511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 05/37] fix: round ring: refuse sizes whose power of two
 overflows

---
 common/container/ringbuffer/round/roud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index 9512d70..ca30c23 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -19,10 +19,10 @@ func New[T any](size uint64) *Ring[T] {
 	if size == 0 {
 		panic("size must be greater than 0")
 	}
-	size = math.RoundUpPowOf2(size)
 	if size > MaxSize {
 		panic("size is too large")
 	}
+	size = math.RoundUpPowOf2(size)
 
 	return &Ring[T]{
 		size: size,
-- 
2.43.0


From 8fe3bfcb19a1db7753463738efd69b5257923b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 06/37] fix: sliding_log: limiters must not share mutable
 strategies

---
 common/limiter/sliding_log/sliding_log.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index 671b10b..fe6705a 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -42,7 +42,12 @@ type SlidingLogLimiter struct {
 
 func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLimiterStrategy) (*SlidingLogLimiter, error) {
 	// 复制策略避免被修改
-	strategies = append(make([]*SlidingLogLimiterStrategy, 0, len(strategies)), strategies...)
+	copied := make([]*SlidingLogLimiterStrategy, len(strategies))
+	for i, strategy := range strategies {
+		c := *strategy
+		copied[i] = &c
+	}
+	strategies = copied
 
 	// 不能不设置策略
 	if len(strategies) == 0 {
-- 
2.43.0


From 2142ef577dd486906c33a9200b9b381ef4ab2a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 07/37] fix: bloom: mix the seeded hash so the configured false
 positive rate holds

---
 common/filter/bloom/bloom.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/filter/bloom/bloom.go b/common/filter/bloom/bloom.go
index 6f4207d..5a0731c 100644
--- a/common/filter/bloom/bloom.go
+++ b/common/filter/bloom/bloom.go
@@ -99,7 +99,7 @@ func (f *Filter) Len() uint64 {
 // 获取对应元素下标和偏移
 func (f *Filter) pos(h, seed uint64) (uint64, uint64) {
 	// 按照位计算的偏移
-	bitsIndex := (h ^ seed) % f.bitCnt
+	bitsIndex := mix(h^seed) % f.bitCnt
 	// 因为一个元素64位，因此需要转换
 	index := bitsIndex / uint64Bits
 	// 在一个元素里面的偏移
@@ -107,6 +107,16 @@ func (f *Filter) pos(h, seed uint64) (uint64, uint64) {
 	return index, offset
 }
 
+// 打散所有位，否则位数为2的幂时，低位相同的两个元素在所有种子下都冲突
+func mix(x uint64) uint64 {
+	x ^= x >> 33
+	x *= 0xff51afd7ed558ccd
+	x ^= x >> 33
+	x *= 0xc4ceb9fe1a85ec53
+	x ^= x >> 33
+	return x
+}
+
 // 计算哈希值
 func (f *Filter) hash(b []byte) uint64 {
 	fnvHash := fnv.New64()
-- 
2.43.0


From f9ee9d2418abf6a2b26eabde3da437b5d3674b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 08/37] fix: math: Split of zero divides by zero, Split of a
 large n overflows

---
 common/math/math.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/math/math.go b/common/math/math.go
index c7096b8..0880b1f 100644
--- a/common/math/math.go
+++ b/common/math/math.go
@@ -10,7 +10,13 @@ import (
 // Split 把数n分成m份
 // 返回每一份大小和最后一份的大小
 func Split(n, m uint) (uint, uint) {
-	per := (n + m - 1) / m
+	if n == 0 {
+		return 0, 0
+	}
+	per := n / m
+	if n%m != 0 {
+		per++
+	}
 	last := n % per
 	if last == 0 {
 		last = per
-- 
2.43.0


From 55cc173791f3acc577a05f91c542d5139376416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 09/37] fix: MakeFile: assemble from scratch, only this file's
 chunks, and refuse when one is missing

---
 help/utils/breakpoint_continue.go | 56 +++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 816de58..a39eb18 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -3,9 +3,11 @@ package utils
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"errors"
 	"io/ioutil"
 	"os"
 	"strconv"
+	"strings"
 )
 
 const (
@@ -59,25 +61,59 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 }
 
 func MakeFile(fileName string, FileMd5 string) (string, error) {
-	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)
+	path := finishDir + fileName
+	err := makeFile(path, breakpointDir+FileMd5+"/", fileName)
 	if err != nil {
-		return finishDir + fileName, err
+		_ = os.Remove(path)
+	}
+	return path, err
+}
+
+func makeFile(path string, chunkDir string, fileName string) error {
+	total, err := chunkTotal(chunkDir, fileName)
+	if err != nil {
+		return err
 	}
 	_ = os.MkdirAll(finishDir, os.ModePerm)
-	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
+	// 之前的结果（可能不完整）不能保留
+	fd, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
 	if err != nil {
-		return finishDir + fileName, err
+		return err
 	}
 	defer fd.Close()
-	for k := range rd {
-		content, _ := ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
-		_, err = fd.Write(content)
+	for k := 0; k < total; k++ {
+		content, err := ioutil.ReadFile(chunkDir + fileName + "_" + strconv.Itoa(k))
 		if err != nil {
-			_ = os.Remove(finishDir + fileName)
-			return finishDir + fileName, err
+			return err
 		}
+		if _, err = fd.Write(content); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// 该文件的切片数量，目录里可能还有其他文件的切片
+func chunkTotal(chunkDir string, fileName string) (int, error) {
+	rd, err := ioutil.ReadDir(chunkDir)
+	if err != nil {
+		return 0, err
+	}
+	total := 0
+	for _, info := range rd {
+		if !strings.HasPrefix(info.Name(), fileName+"_") {
+			continue
+		}
+		number := strings.TrimPrefix(info.Name(), fileName+"_")
+		k, err := strconv.Atoi(number)
+		if err == nil && k >= total && strconv.Itoa(k) == number {
+			total = k + 1
+		}
+	}
+	if total == 0 {
+		return 0, errors.New("no chunk of " + fileName)
 	}
-	return finishDir + fileName, nil
+	return total, nil
 }
 
 func RemoveChunk(FileMd5 string) error {
-- 
2.43.0


From 1e0fffb8ccad987c28c2f0b0477cc626af0ef988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 10/37] fix: Unzip: refuse entries outside the destination
 directory

---
 help/utils/zip.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 6ca6f48..a050f98 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"archive/zip"
+	"errors"
 	"io"
 	"os"
 	"path/filepath"
@@ -26,9 +27,19 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 
 	for _, f := range zipReader.File {
 		fpath := filepath.Join(destDir, f.Name)
+		// 不能解压到目标目录之外
+		rel, err := filepath.Rel(destDir, fpath)
+		if err != nil {
+			return []string{}, err
+		}
+		if rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return []string{}, errors.New("illegal path in zip: " + f.Name)
+		}
 		paths = append(paths, fpath)
 		if f.FileInfo().IsDir() {
-			os.MkdirAll(fpath, os.ModePerm)
+			if err = os.MkdirAll(fpath, os.ModePerm); err != nil {
+				return []string{}, err
+			}
 		} else {
 			if err = os.MkdirAll(filepath.Dir(fpath), os.ModePerm); err != nil {
 				return []string{}, err
-- 
2.43.0


From f4e239383162525538a6c5e8992d2e393518c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 11/37] fix: ZipFiles: report an archive that could not be
 completed

---
 help/utils/zip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index a050f98..91ece24 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -126,5 +126,6 @@ func ZipFiles(filename string, files []string, oldForm, newForm string) error {
 			return err
 		}
 	}
-	return nil
+	// 目录信息在关闭的时候写入
+	return zipWriter.Close()
 }
-- 
2.43.0


From 3dcaf12f33d2eb376901bee4024bbfb9ab1fca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 12/37] fix: CopyFile: drop what the destination held beyond
 the copied content

---
 help/utils/files.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 9c0d393..06108de 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -208,7 +208,12 @@ func CopyFile(dstName, srcName string) (written int64, err error) {
 	}
 
 	defer dst.Close()
-	return io.Copy(dst, src)
+	written, err = io.Copy(dst, src)
+	if err != nil {
+		return
+	}
+	// 目标文件原来更长的部分不能保留
+	return written, dst.Truncate(written)
 }
 
 // ImageFileToBase64  图片文件转 base64
-- 
2.43.0


From f0d9e8963bfccd7396f8f0e31d19e0b6e02467e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 13/37] fix: IsFile: a path that does not exist is not a file

---
 help/utils/files.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 06108de..6d8b4ac 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -244,7 +244,11 @@ func IsDir(path string) bool {
 // @Author ahKevinXy
 // @Date 2022-12-01 11:47:47
 func IsFile(path string) bool {
-	return !IsDir(path)
+	s, err := os.Stat(path)
+	if err != nil {
+		return false
+	}
+	return !s.IsDir()
 }
 
 // MkDir
-- 
2.43.0


From ea96721690d5ee3e6e6f73b3b90e483e4b8005e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 14/37] fix: FileExist, FileIsExisted: nothing exists below a
 file

---
 help/utils/files.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 6d8b4ac..d8045ee 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"syscall"
 )
 
 // PathExists
@@ -105,7 +106,12 @@ func FileExist(path string) bool {
 	if err == nil {
 		return !fi.IsDir()
 	}
-	return !os.IsNotExist(err)
+	return !notExist(err)
+}
+
+// 父路径是文件的时候，路径也不存在
+func notExist(err error) bool {
+	return os.IsNotExist(err) || errors.Is(err, syscall.ENOTDIR)
 }
 
 // FileMd5
@@ -333,7 +339,7 @@ func IsMaliciousPath(path string) bool {
 // @Date 2023-01-11 11:46:41
 func FileIsExisted(filename string) bool {
 	existed := true
-	if _, err := os.Stat(filename); err != nil && os.IsNotExist(err) {
+	if _, err := os.Stat(filename); err != nil && notExist(err) {
 		existed = false
 	}
 	return existed
-- 
2.43.0


From 4426050042555d62930489258c30820a3ddd4606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 15/37] fix: csv: write the given row and report failures, read
 rows of any length

---
 help/utils/csv.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index b46d7bf..d64f5f6 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -21,6 +21,8 @@ func ReadCsv(path string) *[][]string {
 	}
 	defer fs.Close()
 	r := csv.NewReader(fs)
+	// 每行的字段数可以不同
+	r.FieldsPerRecord = -1
 	content, err := r.ReadAll()
 
 	if err != nil {
@@ -50,13 +52,17 @@ func WriteCsv(path string, content []string) error {
 	w := csv.NewWriter(nfs)
 	w.Comma = ','
 	w.UseCRLF = true
-	row := []string{"1", "2", "3", "4", "5,6"}
-	err = w.Write(row)
+	if len(content) == 1 && content[0] == "" {
+		// 只有一个空字段的行，不加引号会被当成空行
+		_, err = nfs.WriteString("\"\"\r\n")
+		return err
+	}
+	err = w.Write(content)
 	if err != nil {
 		return err
 	}
 	//这里必须刷新，才能将数据写入文件。
 	w.Flush()
 
-	return nil
+	return w.Error()
 }
-- 
2.43.0


From 298325a2e571cc391598d3bd5dcbcdd5ade00a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 16/37] fix: aes: keep the caller's memory, report
 undecryptable data as an error

---
 help/utils/md5.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index dad633a..6ddbff6 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -63,9 +63,12 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 	}
 	blockSize := block.BlockSize()
 	blockMode := cipher.NewCBCDecrypter(block, key[:blockSize])
+	if len(data)%blockSize != 0 {
+		return nil, errors.New("decrypt error: not a whole number of blocks")
+	}
 	crypted := make([]byte, len(data))
 	blockMode.CryptBlocks(crypted, data)
-	crypted, err = pkcs7UnPadding(crypted)
+	crypted, err = pkcs7UnPadding(crypted, blockSize)
 	if err != nil {
 		return nil, err
 	}
@@ -75,14 +78,23 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 func pkcs7Padding(data []byte, blockSize int) []byte {
 	padding := blockSize - len(data)%blockSize
 	padText := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(data, padText...)
+	// 不能写到调用者的底层数组
+	return append(data[:len(data):len(data)], padText...)
 }
 
-func pkcs7UnPadding(data []byte) ([]byte, error) {
+func pkcs7UnPadding(data []byte, blockSize int) ([]byte, error) {
 	length := len(data)
 	if length == 0 {
 		return nil, errors.New("encrypt error")
 	}
 	unPadding := int(data[length-1])
+	if unPadding < 1 || unPadding > blockSize || unPadding > length {
+		return nil, errors.New("decrypt error: invalid padding")
+	}
+	for _, b := range data[length-unPadding:] {
+		if int(b) != unPadding {
+			return nil, errors.New("decrypt error: invalid padding")
+		}
+	}
 	return data[:(length - unPadding)], nil
 }
-- 
2.43.0


From f0a1b1307deab29d4a94e4178683f84c7e3b6cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 17/37] fix: masking: count characters, not bytes, and never
 show the whole name

---
 help/utils/strings.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 811ef33..52f4e42 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -66,11 +66,12 @@ func HideStar(str string) (result string) {
 	if strings.Contains(str, "@") {
 		// 邮箱
 		res := strings.Split(str, "@")
-		if len(res[0]) < 3 {
+		local := []rune(res[0])
+		if len(local) < 3 {
 			resString := "***"
 			result = resString + "@" + res[1]
 		} else {
-			res2 := Substr2(str, 0, 3)
+			res2 := string(local[:3])
 			resString := res2 + "***"
 			result = resString + "@" + res[1]
 		}
@@ -106,16 +107,17 @@ func HideStar(str string) (result string) {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:40:59
 func MaskMobile(mobile string, maskNumber int) string {
+	_mobile := []rune(mobile)
 	offset := 3
-	if len(mobile) > 11 {
+	if len(_mobile) > 11 {
 		offset += 2
 	}
 	maskNumber += offset
 
 	ret := mobile
-	if len(mobile) > maskNumber {
-		_cardNo := make([]rune, len(mobile))
-		for index, _c := range mobile {
+	if len(_mobile) > maskNumber {
+		_cardNo := make([]rune, len(_mobile))
+		for index, _c := range _mobile {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
@@ -136,11 +138,13 @@ func MaskMobile(mobile string, maskNumber int) string {
 func MaskCustomerName(name string) string {
 
 	_name := []rune(name)
-	if len(name) > 4 {
+	if len(_name) > 4 {
 		name = string(_name[:2]) + "***" + string(_name[len(_name)-2:])
-	} else if len(name) < 1 {
+	} else if len(_name) < 1 {
 		name = ""
-	} else if len(name) <= 4 {
+	} else if len(_name) == 1 {
+		name = "***"
+	} else if len(_name) <= 4 {
 		name = string(_name[:1]) + "***"
 	}
 
@@ -152,13 +156,14 @@ func MaskCustomerName(name string) string {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:41:18
 func MaskIDCard(idcard string, maskNumber int) string {
+	_idcard := []rune(idcard)
 	offset := 4
 	maskNumber += offset
 
 	ret := idcard
-	if len(idcard) > maskNumber {
-		_cardNo := make([]rune, len(idcard))
-		for index, _c := range idcard {
+	if len(_idcard) > maskNumber {
+		_cardNo := make([]rune, len(_idcard))
+		for index, _c := range _idcard {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
@@ -177,16 +182,17 @@ func MaskIDCard(idcard string, maskNumber int) string {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:41:25
 func MaskBackCard(bankcard string, maskNumber int) string {
+	_bankcard := []rune(bankcard)
 	offset := 4
 	maskNumber += offset
-	if len(bankcard) > 16 {
-		maskNumber += len(bankcard) - 16
+	if len(_bankcard) > 16 {
+		maskNumber += len(_bankcard) - 16
 	}
 
 	ret := bankcard
-	if len(bankcard) > maskNumber {
-		_cardNo := make([]rune, len(bankcard))
-		for index, _c := range bankcard {
+	if len(_bankcard) > maskNumber {
+		_cardNo := make([]rune, len(_bankcard))
+		for index, _c := range _bankcard {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
-- 
2.43.0


From c60ab5dff00dbf9082099d330bd18abbcd1cffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 18/37] fix: MakeFile: with nothing to assemble, leave an
 earlier result alone

---
 help/utils/breakpoint_continue.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index a39eb18..8c4fe08 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -62,18 +62,18 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 
 func MakeFile(fileName string, FileMd5 string) (string, error) {
 	path := finishDir + fileName
-	err := makeFile(path, breakpointDir+FileMd5+"/", fileName)
+	total, err := chunkTotal(breakpointDir+FileMd5+"/", fileName)
+	if err != nil {
+		return path, err
+	}
+	err = makeFile(path, breakpointDir+FileMd5+"/"+fileName+"_", total)
 	if err != nil {
 		_ = os.Remove(path)
 	}
 	return path, err
 }
 
-func makeFile(path string, chunkDir string, fileName string) error {
-	total, err := chunkTotal(chunkDir, fileName)
-	if err != nil {
-		return err
-	}
+func makeFile(path string, chunkPath string, total int) error {
 	_ = os.MkdirAll(finishDir, os.ModePerm)
 	// 之前的结果（可能不完整）不能保留
 	fd, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
@@ -82,7 +82,7 @@ func makeFile(path string, chunkDir string, fileName string) error {
 	}
 	defer fd.Close()
 	for k := 0; k < total; k++ {
-		content, err := ioutil.ReadFile(chunkDir + fileName + "_" + strconv.Itoa(k))
+		content, err := ioutil.ReadFile(chunkPath + strconv.Itoa(k))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From dfa62de984e633625711de0b48c5324b668d73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 19/37] fix: rings: publish the index after the element, look
 at the fill level once

---
 common/container/ringbuffer/fix/fix.go    | 34 +++++++++++---------
 common/container/ringbuffer/round/roud.go | 39 +++++++++++++----------
 2 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/common/container/ringbuffer/fix/fix.go b/common/container/ringbuffer/fix/fix.go
index 16cd812..1651295 100644
--- a/common/container/ringbuffer/fix/fix.go
+++ b/common/container/ringbuffer/fix/fix.go
@@ -2,6 +2,7 @@ package fix
 
 import (
 	"math"
+	"sync/atomic"
 
 	mmath "github.com/ahKevinXy/go-web-tools/common/math"
 )
@@ -42,9 +43,11 @@ func (r *Ring[T]) Pop() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	out := r.out % r.size
-	r.out++
-	return r.data[out]
+	// 先读出元素再移动读索引，否则生产者可能已经覆盖它
+	out := r.out
+	e := r.data[out%r.size]
+	atomic.StoreUint64(&r.out, out+1)
+	return e
 }
 
 // 队头元素
@@ -60,17 +63,18 @@ func (r *Ring[T]) Push(e T) {
 	if r.Full() {
 		panic("ring full")
 	}
-	in := r.in % r.size
-	r.in++
-	r.data[in] = e
+	// 先写入元素再移动写索引，否则消费者可能读到还没写入的元素
+	in := r.in
+	r.data[in%r.size] = e
+	atomic.StoreUint64(&r.in, in+1)
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
 	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
@@ -79,13 +83,13 @@ func (r *Ring[T]) MPush(elems ...T) {
 	in := r.in % r.size
 	copied := copy(r.data[in:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.StoreUint64(&r.in, r.in+size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	if l := r.Len(); size > l {
+		size = l
 	}
 	if size == 0 {
 		return nil
@@ -94,7 +98,7 @@ func (r *Ring[T]) MPop(size uint64) []T {
 	elems := make([]T, size)
 	copied := copy(elems, r.data[out:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.StoreUint64(&r.out, r.out+size)
 	return elems
 }
 
@@ -104,7 +108,7 @@ func (r *Ring[T]) MPopCopy(dst []T) {
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.StoreUint64(&r.out, r.out+uint64(copied))
 }
 
 // 重置读写指针
@@ -121,7 +125,7 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	return atomic.LoadUint64(&r.in) - atomic.LoadUint64(&r.out)
 }
 
 // 可用长度
@@ -131,7 +135,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return r.Len() == 0
 }
 
 // 是否满了
diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index ca30c23..6ddfc0b 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -1,6 +1,10 @@
 package round
 
-import "github.com/ahKevinXy/go-web-tools/common/math"
+import (
+	"sync/atomic"
+
+	"github.com/ahKevinXy/go-web-tools/common/math"
+)
 
 // 最大长度
 const MaxSize = 1 << 62
@@ -36,9 +40,11 @@ func (r *Ring[T]) Pop() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	out := r.out & r.mask
-	r.out++
-	return r.data[out]
+	// 先读出元素再移动读索引，否则生产者可能已经覆盖它
+	out := r.out
+	e := r.data[out&r.mask]
+	atomic.StoreUint64(&r.out, out+1)
+	return e
 }
 
 // 队头元素
@@ -54,17 +60,18 @@ func (r *Ring[T]) Push(e T) {
 	if r.Full() {
 		panic("ring full")
 	}
-	in := r.in & r.mask
-	r.in++
-	r.data[in] = e
+	// 先写入元素再移动写索引，否则消费者可能读到还没写入的元素
+	in := r.in
+	r.data[in&r.mask] = e
+	atomic.StoreUint64(&r.in, in+1)
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
 	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
@@ -73,13 +80,13 @@ func (r *Ring[T]) MPush(elems ...T) {
 	in := r.in & r.mask
 	copied := copy(r.data[in:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.StoreUint64(&r.in, r.in+size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	if l := r.Len(); size > l {
+		size = l
 	}
 	if size == 0 {
 		return nil
@@ -88,7 +95,7 @@ func (r *Ring[T]) MPop(size uint64) []T {
 	elems := make([]T, size)
 	copied := copy(elems, r.data[out:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.StoreUint64(&r.out, r.out+size)
 	return elems
 }
 
@@ -98,7 +105,7 @@ func (r *Ring[T]) MPopCopy(dst []T) {
 	dst = dst[:math.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.StoreUint64(&r.out, r.out+uint64(copied))
 }
 
 // 重置读写指针
@@ -115,7 +122,7 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	return atomic.LoadUint64(&r.in) - atomic.LoadUint64(&r.out)
 }
 
 // 可用长度
@@ -125,7 +132,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return r.Len() == 0
 }
 
 // 是否满了
-- 
2.43.0


From 449f4f0d012232fe13a0e719b9405863325aa2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 20/37] fix: DelayQueue: wake every waiting Take when the head
 changes, release at the due instant

---
 common/timer/delayqueue/delayqueue.go | 51 +++++++++++----------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index 5eae6c4..487a8ee 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
@@ -18,9 +17,7 @@ type entry[T any] struct {
 type DelayQueue[T any] struct {
 	h     *heap.Heap[*entry[T]]
 	mutex sync.Mutex //保证并发安全
-	// 0 表示take 没在等待 1 表示在等待
-	sleeping int32
-	// 唤醒通道
+	// 唤醒通道，队头改变时关闭并替换，从而唤醒所有等待的take
 	wakeup chan struct{}
 }
 
@@ -58,10 +55,8 @@ func (q *DelayQueue[T]) Push(value T, delay time.Duration) {
 	// 唤醒等待的take
 
 	if q.h.Peek() == entry {
-		// 把sleep 从1修改成0
-		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
-		}
+		close(q.wakeup)
+		q.wakeup = make(chan struct{})
 	}
 
 }
@@ -77,45 +72,39 @@ func (q *DelayQueue[T]) Push(value T, delay time.Duration) {
 func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 	for {
 		var timer *time.Timer
+		var expired <-chan time.Time
 		q.mutex.Lock()
 		// 判断是否为空
 		if !q.h.Empty() {
 			entry := q.h.Peek()
 			now := time.Now()
-			if now.After(entry.expiration) {
+			if !now.Before(entry.expiration) {
 				q.h.Pop()
 				q.mutex.Unlock()
 				return entry.value, true
 			}
-			// 到期时间,使用 time.NewAfter 才能调用stop
+			// 到期时间,使用 time.NewTimer 才能调用stop
 
 			timer = time.NewTimer(entry.expiration.Sub(now))
+			expired = timer.C
 		}
 
-		atomic.StoreInt32(&q.sleeping, 1)
+		wakeup := q.wakeup
 		q.mutex.Unlock()
 
+		done := false
+		select {
+		case <-wakeup: // 队头改变
+		case <-expired: // 队头到期
+		case <-ctx.Done(): // 被关闭
+			done = true
+		}
 		if timer != nil {
-			select {
-			case <-q.wakeup:
-				timer.Stop()
-			case <-timer.C:
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					<-q.wakeup
-				}
-			case <-ctx.Done():
-				timer.Stop()
-				var t T
-				return t, false
-
-			}
-		} else {
-			select {
-			case <-q.wakeup: //
-			case <-ctx.Done(): // 被关闭
-				var t T
-				return t, false
-			}
+			timer.Stop()
+		}
+		if done {
+			var t T
+			return t, false
 		}
 	}
 }
-- 
2.43.0


From b5a4247f0fd6c36614bb13eab9b0581763b9f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 21/37] fix: TimingWheel: lose, duplicate or delay no timer
 while time advances

Adding a timer raced with advancing the wheel: a timer could land in a
bucket already flushed (fired a whole turn late), an expired bucket could
wait in the channel while time went on, Stop() during a flush missed the
timer, and a push blocked for ever when the queue's reader had been
cancelled. The scheduler also saw its own instants truncated to
milliseconds, and an AfterFunc delay that was already over was dropped.
---
 common/timer/timingwheel/bucket.go       |   8 +-
 common/timer/timingwheel/delayqueue.go   | 102 ++++++++---------------
 common/timer/timingwheel/timing_wheel.go |  39 +++++----
 3 files changed, 64 insertions(+), 85 deletions(-)

diff --git a/common/timer/timingwheel/bucket.go b/common/timer/timingwheel/bucket.go
index 0ef049b..689440d 100644
--- a/common/timer/timingwheel/bucket.go
+++ b/common/timer/timingwheel/bucket.go
@@ -74,12 +74,8 @@ func (b *bucket) flush(addOrRun func(t *Timer)) {
 
 	for elem := b.timers.Front(); elem != nil; {
 		next := elem.Next()
-		t := elem.Value
-		if t.getBucket() == b {
-			t.setBucket(nil)
-			t.elem = nil
-		}
-		addOrRun(t)
+		// 直到加入新的桶或执行前都属于当前桶，从而Stop()不会漏掉它
+		addOrRun(elem.Value)
 		elem = next
 	}
 
diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 7f72023..4a37be6 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -4,15 +4,13 @@ import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
 type delayQueue struct {
-	h        *heap.Heap[*bucket]
-	mutex    sync.Mutex
-	sleeping int32         //
-	wakeup   chan struct{} //唤醒通道
+	h      *heap.Heap[*bucket]
+	mutex  sync.Mutex
+	wakeup chan struct{} //唤醒通道
 }
 
 // newDelayQueue
@@ -26,7 +24,7 @@ func newDelayQueue() *delayQueue {
 			return e1.getExpiration() < e2.getExpiration()
 		}),
 
-		wakeup: make(chan struct{}),
+		wakeup: make(chan struct{}, 1),
 	}
 }
 
@@ -43,86 +41,60 @@ func (q *delayQueue) push(b *bucket) {
 	q.h.Push(b)
 
 	if q.h.Peek() == b {
-		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
+		// 已经有未处理的唤醒时不需要再次唤醒，不能阻塞
+		select {
+		case q.wakeup <- struct{}{}:
+		default:
 		}
 	}
 }
 
-// take
-//  @Description:  等待直到有元素到期
+// wait
+//  @Description:  等待直到有元素到期，返回false表示被关闭
 //  @receiver q
 //  @param ctx
 //  @param nowF
-//  @return *bucket
-//  @Author  ahKevinXy
-//  @Date2023-03-29 18:24:19
-func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
-	for {
+//  @return bool
+func (q *delayQueue) wait(ctx context.Context, nowF func() int64) bool {
+	for ctx.Err() == nil {
 		var t *time.Timer
+		var expired <-chan time.Time
 		q.mutex.Lock()
 		// 有元素
 		if !q.h.Empty() {
-			// 获取元素
-			entry := q.h.Peek()
-			expiration := entry.getExpiration()
-			now := nowF()
-			if now > expiration {
-				q.h.Pop()
+			expiration := q.h.Peek().getExpiration()
+			if nowF() > expiration {
 				q.mutex.Unlock()
-				return entry
+				return true
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
-			t = time.NewTimer(time.Duration(now-expiration) * time.Millisecond)
+			t = time.NewTimer(time.Until(time.UnixMilli(expiration + 1)))
+			expired = t.C
 		}
-		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
-		atomic.StoreInt32(&q.sleeping, 1)
 		q.mutex.Unlock()
 
-		// 不为空，需要同时等待元素到期，并且除非t到期，否则都需要关闭t避免泄露
+		select {
+		case <-q.wakeup: // 新的更快到期元素
+		case <-expired: // 首元素到期
+		case <-ctx.Done(): // 被关闭
+		}
 		if t != nil {
-			select {
-			case <-q.wakeup: // 新的更快到期元素
-				t.Stop()
-			case <-t.C: // 首元素到期
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					// 避免Push()的协程被阻塞
-					<-q.wakeup
-				}
-			case <-ctx.Done(): // 被关闭
-				t.Stop()
-				return nil
-			}
-		} else {
-			select {
-			case <-q.wakeup: // 新的更快到期元素
-			case <-ctx.Done(): // 被关闭
-				return nil
-			}
+			t.Stop()
 		}
 	}
+	return false
 }
 
-// channel
-//  @Description:  返回一个通道，输出到期元素
+// pop
+//  @Description:  取出到期元素，没有则返回nil
 //  @receiver q
-//  @param ctx
-//  @param size
-//  @param nowF
-//  @return <-chan
-//  @Author  ahKevinXy
-//  @Date2023-03-29 18:24:27
-func (q *delayQueue) channel(ctx context.Context, size int, nowF func() int64) <-chan *bucket {
-	out := make(chan *bucket, size)
-	go func() {
-		for {
-			entry := q.take(ctx, nowF)
-			if entry == nil {
-				close(out)
-				return
-			}
-			out <- entry
-		}
-	}()
-	return out
+//  @param now
+//  @return *bucket
+func (q *delayQueue) pop(now int64) *bucket {
+	q.mutex.Lock()
+	defer q.mutex.Unlock()
+	if q.h.Empty() || now <= q.h.Peek().getExpiration() {
+		return nil
+	}
+	return q.h.Pop()
 }
diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 59ca0ca..5ec89e4 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -2,13 +2,12 @@ package timingwheel
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 	"time"
 	"unsafe"
 )
 
-const delayQueueBufferSize = 10 // 延迟队列缓冲区大小
-
 // TimingWheel
 //  @Description:   基于https://github.com/RussellLuo/timingwheel的实现
 //  @Author  ahKevinXy
@@ -21,6 +20,7 @@ type TimingWheel struct {
 	buckets       []*bucket      // 时间轮的每个桶
 	queue         *delayQueue    //桶延迟队列
 	overflowWheel unsafe.Pointer // 下一个时间轮
+	mutex         sync.RWMutex   // 前进时间时不能添加定时器
 }
 
 func newTimingWheel(tick, wheelSize, currentTime int64, queue *delayQueue) *TimingWheel {
@@ -49,19 +49,18 @@ func New(tick, wheelSize int64) *TimingWheel {
 //  @Author  ahKevinXy
 //  @Date2023-03-29 18:27:09
 func (tw *TimingWheel) Run(ctx context.Context) {
-	bucketChan := tw.queue.channel(ctx, delayQueueBufferSize, func() int64 {
+	nowF := func() int64 {
 		return time.Now().UnixMilli()
-	})
-	for {
-		select {
-		case b := <-bucketChan: // 桶到期
+	}
+	for tw.queue.wait(ctx, nowF) { // 桶到期
+		tw.mutex.Lock()
+		for b := tw.queue.pop(nowF()); b != nil; b = tw.queue.pop(nowF()) {
 			// 前进当前时间
-			tw.advance(b.expiration)
+			tw.advance(b.getExpiration())
 			// 处理桶
 			b.flush(tw.addOrRun)
-		case <-ctx.Done(): // 被关闭
-			return
 		}
+		tw.mutex.Unlock()
 	}
 }
 
@@ -78,7 +77,7 @@ func (tw *TimingWheel) AfterFunc(delay time.Duration, f func()) *Timer {
 		expiration: time.Now().Add(delay).UnixMilli(),
 		task:       f,
 	}
-	tw.add(t)
+	tw.schedule(t)
 	return t
 }
 
@@ -98,19 +97,30 @@ func (tw *TimingWheel) ScheduleFunc(s Scheduler, f func()) (t *Timer) {
 		expiration: expiration.UnixMilli(),
 		task: func() {
 			// 添加下一次执行任务
-			expiration := s.Next(time.UnixMilli(t.expiration))
+			// 不能用t.expiration，它丢失了毫秒以下的时间
+			expiration = s.Next(expiration)
 			if !expiration.IsZero() {
 				t.expiration = expiration.UnixMilli()
-				tw.addOrRun(t)
+				tw.schedule(t)
 			}
 			// 执行任务
 			f()
 		},
 	}
-	tw.addOrRun(t)
+	tw.schedule(t)
 	return
 }
 
+// schedule
+//  @Description:  添加或执行新的任务
+//  @receiver tw
+//  @param t
+func (tw *TimingWheel) schedule(t *Timer) {
+	tw.mutex.RLock()
+	defer tw.mutex.RUnlock()
+	tw.addOrRun(t)
+}
+
 // add
 //  @Description:  添加定时器
 //  @receiver tw
@@ -153,6 +163,7 @@ func (tw *TimingWheel) add(t *Timer) bool {
 //  @Date2023-03-29 18:28:25
 func (tw *TimingWheel) addOrRun(t *Timer) {
 	if !tw.add(t) {
+		t.setBucket(nil)
 		go t.task()
 	}
 }
-- 
2.43.0


From a14104ecf265050b24f89aa37698cfd6c6013429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 22/37] fix: batch insert: use the fields of every record, not
 those of the first

A field the first record lacked was dropped from all the others, pieces
were sized by the first record only (statements beyond the limit), a
first record without fields dropped everything, and more than 65000
fields looped for ever.
---
 gorm_tools/gorm.go | 55 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 7e13ea2..4e27b89 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -103,28 +103,31 @@ func SplitInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		return nil
 	}
 
-	// 获取record长度
-	recordMap, err := dumpStructToMapForInsert(records[0], table)
+	// 获取全部record的字段
+	recordMap, fieldName, err := dumpRecordsForInsert(table, records)
 	if err != nil {
 		return err
 	}
-	if len(recordMap) == 0 {
+	if len(fieldName) == 0 {
 		return nil
 	}
 	// 由于数据库占位符长度限制,需要动态限制
-	maxInsertLen := 65000 / len(recordMap)
+	maxInsertLen := 65000 / len(fieldName)
+	if maxInsertLen == 0 {
+		return fmt.Errorf("SplitInsertTableRecords failed to insert to %s, too many fields:%d", table, len(fieldName))
+	}
 
-	for len(records) != 0 {
-		insertLen := len(records)
-		if len(records) > maxInsertLen {
+	for len(recordMap) != 0 {
+		insertLen := len(recordMap)
+		if len(recordMap) > maxInsertLen {
 			insertLen = maxInsertLen
 		}
 
-		err := BatchInsertTableRecords(db, table, records[:insertLen]...)
+		err := insertRecordMaps(db, table, fieldName, recordMap[:insertLen])
 		if err != nil {
 			return err
 		}
-		records = records[insertLen:]
+		recordMap = recordMap[insertLen:]
 	}
 
 	return nil
@@ -136,26 +139,45 @@ func BatchInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		return nil
 	}
 
+	recordMap, fieldName, err := dumpRecordsForInsert(table, records)
+	if err != nil {
+		return err
+	}
+	return insertRecordMaps(db, table, fieldName, recordMap)
+}
+
+// 全部转换成map，并收集所有record的字段名字
+func dumpRecordsForInsert(table string, records []interface{}) ([]map[string]interface{}, []string, error) {
 	//全部转换成map
 	recordMap := make([]map[string]interface{}, len(records))
 	for index, item := range records {
 		recordMapItem, err := dumpStructToMapForInsert(item, table)
 		if err != nil {
-			return fmt.Errorf("BatchInsertTableRecords failed to DumpSructToMap for %s, err:%s", table, err.Error())
+			return nil, nil, fmt.Errorf("BatchInsertTableRecords failed to DumpSructToMap for %s, err:%s", table, err.Error())
 		}
 		recordMap[index] = recordMapItem
 	}
 
 	//以一定的顺序收集字段名字
 	fieldName := make([]string, 0, len(recordMap[0]))
-	for key := range recordMap[0] {
-		fieldName = append(fieldName, key)
+	known := make(map[string]bool, len(recordMap[0]))
+	for _, item := range recordMap {
+		for key := range item {
+			if !known[key] {
+				known[key] = true
+				fieldName = append(fieldName, key)
+			}
+		}
 	}
+	return recordMap, fieldName, nil
+}
 
+// 插入已转换的记录，没有的字段为null
+func insertRecordMaps(db *gorm.DB, table string, fieldName []string, recordMap []map[string]interface{}) error {
 	//按上面收集到的字段名字顺序，查找对应的value
-	values := make([]interface{}, 0, len(records))
+	values := make([]interface{}, 0, len(recordMap))
 	for _, item := range recordMap {
-		valueItem := make([]interface{}, 0, len(item))
+		valueItem := make([]interface{}, 0, len(fieldName))
 		for _, name := range fieldName {
 			valueItem = append(valueItem, item[name])
 		}
@@ -163,11 +185,12 @@ func BatchInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		values = append(values, valueItem)
 	}
 
+	columns := make([]string, len(fieldName))
 	for index, field := range fieldName {
-		fieldName[index] = "`" + field + "`"
+		columns[index] = "`" + field + "`"
 	}
 
-	sql := fmt.Sprintf("insert into %s(%s) values ", table, strings.Join(fieldName, ","))
+	sql := fmt.Sprintf("insert into %s(%s) values ", table, strings.Join(columns, ","))
 	for range values {
 		sql += "(?),"
 	}
-- 
2.43.0


From a6fadd1d0ef848537f2d7f7ef213240049d5f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 23/37] fix: batch update: refuse rows whose fields differ,
 always and beforehand

Only the fields of whichever row came first in the map were looked at:
rows with more fields than that one were updated in part, and a later
piece was refused when earlier ones were already stored.
---
 gorm_tools/update.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 2a9b664..f3a9601 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -13,6 +13,11 @@ import (
 func SplitUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUpdateMap map[int64]map[string]interface{}) error {
 	maxUpdateLen := 500
 
+	// 分片前检查全部数据
+	if _, err := updateFields(idUpdateMap); err != nil {
+		return err
+	}
+
 	index, totalNum := 0, 0
 	sliceUpdate := make([]map[int64]map[string]interface{}, 0, len(idUpdateMap)/maxUpdateLen+1)
 
@@ -45,12 +50,9 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 		return nil
 	}
 
-	updateField := make([]string, 0, 10)
-	for _, item := range idUpdateMap {
-		for field := range item {
-			updateField = append(updateField, field)
-		}
-		break
+	updateField, err := updateFields(idUpdateMap)
+	if err != nil {
+		return err
 	}
 
 	caseSQL, beginSQL := "", "update "+tableName+" set "
@@ -59,12 +61,8 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 	for _, field := range updateField {
 		caseSQL += field + "= case "
 		for id, updateMap := range idUpdateMap {
-			value, ok := updateMap[field]
-			if !ok {
-				return fmt.Errorf("update field must equal")
-			}
 			caseSQL += "when id = ? then ? "
-			args = append(args, id, value)
+			args = append(args, id, updateMap[field])
 		}
 		caseSQL += "end,"
 	}
@@ -82,3 +80,25 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 
 	return nil
 }
+
+// updateFields 更新的字段，所有id的字段必须相同
+func updateFields(idUpdateMap map[int64]map[string]interface{}) ([]string, error) {
+	var updateField []string
+	for _, item := range idUpdateMap {
+		if updateField == nil {
+			updateField = make([]string, 0, len(item))
+			for field := range item {
+				updateField = append(updateField, field)
+			}
+		}
+		if len(item) != len(updateField) {
+			return nil, fmt.Errorf("update field must equal")
+		}
+		for _, field := range updateField {
+			if _, ok := item[field]; !ok {
+				return nil, fmt.Errorf("update field must equal")
+			}
+		}
+	}
+	return updateField, nil
+}
-- 
2.43.0


From 9fe6aba753f8018ce2123598b33bffb2a762129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 24/37] fix: FormatByte: format the given size, in the unit it
 was divided to

---
 help/utils/files.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index d8045ee..ba65046 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -163,10 +163,10 @@ func GetSuffixName(str, seg string) string {
 
 //FormatByte 转换字节大小
 func FormatByte(size int) string {
-	fSize := float64(32)
+	fSize := float64(size)
 	units := [6]string{"B", "KB", "MB", "GB", "TB", "PB"}
 	var i int
-	for i := 0; fSize > 1024 && i < 5; i++ {
+	for ; fSize > 1024 && i < 5; i++ {
 		fSize /= 1024
 	}
 	num := fmt.Sprintf("%.2f", fSize)
-- 
2.43.0


From c48eb1b08647fcb66571172d66da99ec344d8ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 25/37] fix: IsSameSiteURLPath: browsers ignore tabs and line
 breaks in a URL

---
 help/utils/files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index ba65046..25cb817 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -326,7 +326,8 @@ func humanateBytes(s uint64, base float64, sizes []string) string {
 // False: //url, http://url, /\url
 // True: /url
 func IsSameSiteURLPath(url string) bool {
-	return len(url) >= 2 && url[0] == '/' && url[1] != '/' && url[1] != '\\'
+	// 浏览器会忽略制表符和换行符，"/\t/host"等同于"//host"
+	return len(url) >= 2 && url[0] == '/' && url[1] != '/' && url[1] != '\\' && !strings.ContainsAny(url, "\t\r\n")
 }
 
 func IsMaliciousPath(path string) bool {
-- 
2.43.0


From a88dbea1db618690f3ed06840ff2497f0c26381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 26/37] fix: UpperFirst: return the text with its first letter
 in upper case

---
 help/utils/strings.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 52f4e42..1cd47aa 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -4,6 +4,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // StringToInt
@@ -48,11 +50,12 @@ func StringToInt64(s string) int64 {
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:32:18
 func UpperFirst(s string) string {
-	if len(s) > 0 {
-		strings.Replace(s, s[0:1], strings.ToUpper(s[0:1]), 1)
+	r, size := utf8.DecodeRuneInString(s)
+	if r == utf8.RuneError {
+		return s
 	}
 
-	return s
+	return string(unicode.ToUpper(r)) + s[size:]
 }
 
 // HideStar
-- 
2.43.0


From e57e0ff254cbe04b606734489e7fed109285b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 27/37] fix: Round: nearest value for negative and for large
 numbers

---
 help/utils/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/math.go b/help/utils/math.go
index 1f12410..c39beb1 100644
--- a/help/utils/math.go
+++ b/help/utils/math.go
@@ -5,5 +5,5 @@ import "math"
 // Round 四舍五入
 func Round(f float64, n int) float64 {
 	pow10_n := math.Pow10(n)
-	return math.Trunc((f+0.5/pow10_n)*pow10_n) / pow10_n
+	return math.Round(f*pow10_n) / pow10_n
 }
-- 
2.43.0


From 4557ce80f70dc8c93a0aa6b5b03ff3c02228eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 28/37] fix: ComputeFileMD5: no digest for a file that was not
 read to its end

---
 help/utils/md5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index 6ddbff6..1047768 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -28,7 +28,9 @@ func Md5Crypt(str string) string {
 // @Date 2022-12-01 11:50:26
 func ComputeFileMD5(file io.Reader) string {
 	md5h := md5.New()
-	io.Copy(md5h, file)
+	if _, err := io.Copy(md5h, file); err != nil {
+		return ""
+	}
 	return fmt.Sprintf("%x", md5h.Sum(nil))
 }
 
-- 
2.43.0


From 604a15b3adc8bbee6f2843483c9d454fceb6ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 29/37] fix: token bucket no longer overflows with large rates
 or grants with a negative capacity

---
 common/limiter/token_bucket/token_bucket.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/limiter/token_bucket/token_bucket.go b/common/limiter/token_bucket/token_bucket.go
index fb23634..20ad2d2 100644
--- a/common/limiter/token_bucket/token_bucket.go
+++ b/common/limiter/token_bucket/token_bucket.go
@@ -32,12 +32,18 @@ func (l *TokenBucketLimiter) TryAcquire() bool {
 	interval := now.Sub(l.lastTime)
 	if interval >= time.Second {
 		// 当前令牌数量+距离上次发放令牌的时间(秒)*发放令牌速率
-		l.currentTokens = minInt(l.capacity, l.currentTokens+int(interval/time.Second)*l.rate)
+		seconds := int(interval / time.Second)
+		if l.rate > 0 && seconds > (l.capacity-l.currentTokens)/l.rate {
+			// 超过容量，避免乘法溢出
+			l.currentTokens = l.capacity
+		} else {
+			l.currentTokens = minInt(l.capacity, l.currentTokens+seconds*l.rate)
+		}
 		l.lastTime = now
 	}
 
 	// 如果没有令牌，请求失败
-	if l.currentTokens == 0 {
+	if l.currentTokens <= 0 {
 		return false
 	}
 	// 如果有令牌，当前令牌-1，请求成功
-- 
2.43.0


From 33c3a90244978a6942dcc30bd4769d4291d9505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 30/37] fix: leaky bucket no longer overflows with large rates

---
 common/limiter/leaky_bucket/leaky_bucket_limiter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/limiter/leaky_bucket/leaky_bucket_limiter.go b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
index 3f10122..9cd69c4 100644
--- a/common/limiter/leaky_bucket/leaky_bucket_limiter.go
+++ b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
@@ -32,7 +32,13 @@ func (l *LeakyBucketLimiter) TryAcquire() bool {
 	interval := now.Sub(l.lastTime)
 	if interval >= time.Second {
 		// 当前水位-距离上次放水的时间(秒)*水流速度
-		l.currentLevel = maxInt(0, l.currentLevel-int(interval/time.Second)*l.currentVelocity)
+		seconds := int(interval / time.Second)
+		if l.currentVelocity > 0 && seconds > l.currentLevel/l.currentVelocity {
+			// 水已放完，避免乘法溢出
+			l.currentLevel = 0
+		} else {
+			l.currentLevel = maxInt(0, l.currentLevel-seconds*l.currentVelocity)
+		}
 		l.lastTime = now
 	}
 
-- 
2.43.0


From 62e3ee1f5f0132ea4e5a019d6735e9b9cfd72797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 31/37] fix: sliding window refuses a small window that is not
 positive

---
 common/limiter/sliding_window/sliding_window.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/limiter/sliding_window/sliding_window.go b/common/limiter/sliding_window/sliding_window.go
index 8896332..82b97da 100644
--- a/common/limiter/sliding_window/sliding_window.go
+++ b/common/limiter/sliding_window/sliding_window.go
@@ -18,7 +18,7 @@ type SlidingWindowLimiter struct {
 
 func NewSlidingWindowLimiter(limit int, window, smallWindow time.Duration) (*SlidingWindowLimiter, error) {
 	// 窗口时间必须能够被小窗口时间整除
-	if window%smallWindow != 0 {
+	if smallWindow <= 0 || window%smallWindow != 0 {
 		return nil, errors.New("window cannot be split by integers")
 	}
 
-- 
2.43.0


From 82afc1f328a595c67d993e44ad4bd50406785d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 32/37] fix: sliding log refuses a small window that is not
 positive

---
 common/limiter/sliding_log/sliding_log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index fe6705a..b3c8673 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -71,7 +71,7 @@ func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLi
 			}
 		}
 		// 窗口时间必须能够被小窗口时间整除
-		if strategy.window%int64(smallWindow) != 0 {
+		if smallWindow <= 0 || strategy.window%int64(smallWindow) != 0 {
 			return nil, errors.New("window cannot be split by integers")
 		}
 		strategy.smallWindows = strategy.window / int64(smallWindow)
-- 
2.43.0


From f1e55b341a46f3960bbef4d7b89ebc05437af5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 33/37] fix: Unzip closes each file at once, so archives of
 many files can be unzipped

---
 help/utils/zip.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 91ece24..6c82152 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -49,15 +49,19 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 			if err != nil {
 				return []string{}, err
 			}
-			defer inFile.Close()
 
 			outFile, err := os.OpenFile(fpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, f.Mode())
 			if err != nil {
+				inFile.Close()
 				return []string{}, err
 			}
-			defer outFile.Close()
 
 			_, err = io.Copy(outFile, inFile)
+			// 立即关闭，否则文件很多时会超过可打开文件数
+			inFile.Close()
+			if closeErr := outFile.Close(); err == nil {
+				err = closeErr
+			}
 			if err != nil {
 				return []string{}, err
 			}
-- 
2.43.0


From f24b8bd899b1751e52de84b2e6380f86512028a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 34/37] fix: HeapN with an arity near the largest integer does
 not overflow

---
 common/container/heap/heapn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/container/heap/heapn.go b/common/container/heap/heapn.go
index dd93c44..8a48adb 100644
--- a/common/container/heap/heapn.go
+++ b/common/container/heap/heapn.go
@@ -84,11 +84,11 @@ func (h *HeapN[T]) down(i0, n int) bool {
 	i := i0
 	for {
 		k := h.n*i + 1
-		if k >= n || k < 0 { // j1 < 0 after int overflow
+		if i > n/h.n || k >= n { // no child (and no int overflow)
 			break
 		}
 		j := k // first child
-		for j1 := k + 1; j1 < k+h.n && j1 < n; j1++ {
+		for j1 := k + 1; j1-k < h.n && j1 < n; j1++ {
 			if h.less(j1, j) {
 				j = j1
 			}
-- 
2.43.0


From d905bd2e6f94ebbba676bcea6133da911abd1970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 35/37] fix: math: Log2 of whole numbers just below a power of
 two is one too large

---
 common/math/math.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/math/math.go b/common/math/math.go
index 0880b1f..f0076e6 100644
--- a/common/math/math.go
+++ b/common/math/math.go
@@ -51,6 +51,10 @@ func Abs[T constraints.Float | constraints.Signed](a T) T {
 // Log2
 // 修改更加高效算法
 func Log2[T constraints.Integer | constraints.Float](a T) T {
+	if a > 0 && T(1)/2 == 0 {
+		// 整数取最高位，浮点对数会把略小于2的幂的大整数算成那个幂
+		return T(bits.Len64(uint64(a)) - 1)
+	}
 	return T(math.Log2(float64(a)))
 }
 
-- 
2.43.0


From 63779d427c8924c37cd13c3a846a2605d5948a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 36/37] fix: Substr2 past the end of the text returns
 characters that are not in it

---
 help/utils/strings.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 1cd47aa..b5dd3c5 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -29,7 +29,8 @@ func StringToInt(s string) int {
 //  @Date2023-04-04 14:48:04
 func Substr2(str string, start int, end int) string {
 	rs := []rune(str)
-	return string(rs[start:end])
+	// 不能超过文本，切片容量可能大于长度
+	return string(rs[start:end:len(rs)])
 }
 
 // StringToInt64
-- 
2.43.0


From 968e43f357cc3e30a84eb709f514e7ae9ca37c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:48 +0000
Subject: [PATCH 37/37] fix: close a chunk's file when writing it fails

---
 help/utils/breakpoint_continue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 8c4fe08..ee6bf9d 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -51,12 +51,12 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 	if err != nil {
 		return path, err
 	} else {
+		defer f.Close()
 		_, err = f.Write(content)
 		if err != nil {
 			return path, err
 		}
 	}
-	defer f.Close()
 	return path, nil
 }
 
-- 
2.43.0

