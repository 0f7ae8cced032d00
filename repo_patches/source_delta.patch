From 97f542ce2f0c048aece1cd4df7749bc5e718a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:10 +0000
Subject: [PATCH 01/38] fix: contain panics raised by an event sink while a
 handler is created

---
 countlog/root.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/countlog/root.go b/countlog/root.go
index 1f46859..bc80ef2 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -10,7 +10,15 @@ import (
 
 type panicHandler func(recovered interface{}, event *spi.Event, site *spi.LogSite)
 
-func newRootHandler(site *spi.LogSite, onPanic panicHandler) spi.EventHandler {
+func newRootHandler(site *spi.LogSite, onPanic panicHandler) (handler spi.EventHandler) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			// a sink which can not provide the handler should not break the caller
+			loglog.Error(fmt.Errorf("%v", recovered))
+			handler = &spi.DummyEventHandler{Site: site}
+		}
+	}()
 	statsHandler := EventAggregator.HandlerOf(site)
 	if statsHandler == nil {
 		return &oneHandler{
-- 
2.43.0


From 75175e799d24f202ae1a96d2526d514c9ebaf5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:01 +0000
Subject: [PATCH 02/38] fix: Fprintln without values writes to the given writer

---
 msgfmt/msgfmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index e08557b..7b8485a 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -38,7 +38,7 @@ func Fprintln(writer io.Writer, valuesObj ...interface{}) (int, error) {
 func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	switch len(values) {
 	case 0:
-		return fmt.Println()
+		return fmt.Fprintln(writer)
 	case 1:
 		return Fprintf(writer,"{single_value}\n", "single_value", values[0])
 	default:
-- 
2.43.0


From a959e5b5805f53e95dc8a38572c6ad6c746159d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:36 +0000
Subject: [PATCH 03/38] fix: count dropped messages atomically in async writer

---
 countlog/output/async/async.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 7a30e2a..372860f 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"sync/atomic"
 	"time"
 
 	"github.com/v2pro/plz/concurrent"
@@ -40,11 +41,11 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 	}
 	onMessageDropped := cfg.OnMessageDropped
 	if onMessageDropped == nil {
-		droppedCount := 0
+		droppedCount := int64(0)
 		onMessageDropped = func(msg []byte) {
-			droppedCount++
-			if droppedCount%1000 == 1 {
-				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", droppedCount))
+			dropped := atomic.AddInt64(&droppedCount, 1)
+			if dropped%1000 == 1 {
+				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", dropped))
 			}
 		}
 	}
-- 
2.43.0


From 58bc17cfd6a39df0da682877b2f45387528f312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:17 +0000
Subject: [PATCH 04/38] fix: do not share gls between invocations of the
 function returned by WithGls

---
 gls/gls.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/gls/gls.go b/gls/gls.go
index a8613ec..13c4270 100644
--- a/gls/gls.go
+++ b/gls/gls.go
@@ -55,23 +55,29 @@ func WithGls(f func()) func() {
 	parentGls := GetGls(GoID())
 	// parentGls can not be used in other goroutine, otherwise not thread safe
 	// make a deep for child goroutine
-	childGls := map[interface{}]interface{}{}
-	for k, v := range parentGls {
-		asCopiable, ok := v.(copiable)
-		if ok {
-			childGls[k] = asCopiable.Copy()
-		} else {
-			childGls[k] = v
-		}
-	}
+	childGls := copyGls(parentGls)
 	return func() {
 		goid := GoID()
-		ResetGls(goid, childGls)
+		// the returned function might be called more than once, by different goroutines
+		ResetGls(goid, copyGls(childGls))
 		defer DeleteGls(goid)
 		f()
 	}
 }
 
+func copyGls(gls map[interface{}]interface{}) map[interface{}]interface{} {
+	copied := map[interface{}]interface{}{}
+	for k, v := range gls {
+		asCopiable, ok := v.(copiable)
+		if ok {
+			copied[k] = asCopiable.Copy()
+		} else {
+			copied[k] = v
+		}
+	}
+	return copied
+}
+
 func WithEmptyGls(f func()) func() {
 	// do not inherit from parent gls
 	return func() {
-- 
2.43.0


From 3b0df9dcebb7a60490f92068fe6da70ec38b52d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:17 +0000
Subject: [PATCH 05/38] fix: export the statistics every second instead of once

---
 countlog/stats/window.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index e1b43b9..f9abc8e 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -39,10 +39,11 @@ func newWindow(executor Executor, collector Collector, dimensionElemCount int) *
 }
 
 func (window *Window) exportEverySecond(ctx context.Context) {
-	timer := time.NewTimer(time.Second)
+	ticker := time.NewTicker(time.Second)
+	defer ticker.Stop()
 	for {
 		select {
-		case <-timer.C:
+		case <-ticker.C:
 			window.Export(time.Now())
 		case <-ctx.Done():
 			return
-- 
2.43.0


From f576d56ffc212793d53f7ff416b9472508ad4f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:17 +0000
Subject: [PATCH 06/38] fix: exported points carry the name of the event

---
 countlog/stats/stats.go  | 2 +-
 countlog/stats/window.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index f357b30..a86e35a 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -44,7 +44,7 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		return &spi.DummyEventHandler{Site: site}
 	}
 	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, dimensionElemCount)
+	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 	switch agg {
 	case "counter":
 		return &countEvent{
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index f9abc8e..3fd1d43 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -23,9 +23,10 @@ type windowShard struct {
 	lock *sync.Mutex
 }
 
-func newWindow(executor Executor, collector Collector, dimensionElemCount int) *Window {
+func newWindow(executor Executor, collector Collector, event string, dimensionElemCount int) *Window {
 	window := &Window{
 		collector:          collector,
+		event:              event,
 		dimensionElemCount: dimensionElemCount,
 	}
 	for i := 0; i < 16; i++ {
-- 
2.43.0


From 9b947b3379b930e2331520083ea6f290ff41a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:17 +0000
Subject: [PATCH 07/38] fix: release the shard lock when extracting the
 dimensions panics

---
 countlog/stats/counter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/stats/counter.go b/countlog/stats/counter.go
index 9da8dc3..a2de0a5 100644
--- a/countlog/stats/counter.go
+++ b/countlog/stats/counter.go
@@ -11,9 +11,9 @@ type countEvent struct {
 func (state *countEvent) Handle(event *spi.Event) {
 	lock, dimensions := state.Window.Mutate()
 	lock.Lock()
+	defer lock.Unlock()
 	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid)
 	*(counter.(*CounterMonoid)) += CounterMonoid(1)
-	lock.Unlock()
 }
 
 func (state *countEvent) GetWindow() *Window {
-- 
2.43.0


From 4230e5b0b7d8f69d08d26d6ee64dc83e5cea26ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:54 +0000
Subject: [PATCH 08/38] fix: the handler stored after a sink panicked is an
 event handler

redirector had no LogSite method, so the next event of the site failed the
type assertion in getHandler and the panic escaped to the caller
---
 countlog/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/countlog/root.go b/countlog/root.go
index bc80ef2..f67aaac 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -120,6 +120,10 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	return
 }
 
+func (redirector *redirector) LogSite() *spi.LogSite {
+	return &redirector.site
+}
+
 type accurateHandlerKey struct {
 	File string
 	Line int
-- 
2.43.0


From 8d14c93ff931bcc4b6ff8d14db5eb752ef0d87f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:26 +0000
Subject: [PATCH 09/38] fix: do not write Logger.BackupTimeFormat from the mill
 goroutine

The default was stored into the logger both by the mill goroutine and by
rotations, without a common lock
---
 countlog/output/lumberjack/lumberjack.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 3a8623e..d0f6831 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -220,10 +220,7 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		if l.BackupTimeFormat == "" {
-			l.BackupTimeFormat = defaultBackupTimeFormat
-		}
-		newname := backupName(name, l.LocalTime, l.BackupTimeFormat)
+		newname := backupName(name, l.LocalTime, l.timeFormat())
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -443,10 +440,16 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	return time.Parse(l.timeFormat(), ts)
+}
+
+// timeFormat returns the format of the timestamp in the names of backup files.
+// It is used by the mill goroutine, which does not hold the lock.
+func (l *Logger) timeFormat() string {
 	if l.BackupTimeFormat == "" {
-		l.BackupTimeFormat = defaultBackupTimeFormat
+		return defaultBackupTimeFormat
 	}
-	return time.Parse(l.BackupTimeFormat, ts)
+	return l.BackupTimeFormat
 }
 
 // max returns the maximum size in bytes of log files before rolling.
-- 
2.43.0


From ea0dcd81b22c5c3ec8ed3139773d6dac7e4fb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:12 +0000
Subject: [PATCH 10/38] fix: read the timestamps of backups in the zone they
 are written in

---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index d0f6831..4424d0f 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -440,6 +440,9 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	if l.LocalTime {
+		return time.ParseInLocation(l.timeFormat(), ts, time.Local)
+	}
 	return time.Parse(l.timeFormat(), ts)
 }
 
-- 
2.43.0


From 044060b169d03857cd56f2b06759453ff091b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:33 +0000
Subject: [PATCH 11/38] fix: WriteUint32 writes all digits of values of 10
 digits

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 654cc16..22ff9a8 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -140,7 +140,7 @@ func WriteUint32(space []byte, val uint32) []byte {
 	} else {
 		r3 := q2 - q3*1000
 		space = append(space, byte(q3 + '0'))
-		return writeBuf(space, digits[r3])
+		space = writeBuf(space, digits[r3])
 	}
 	space = writeBuf(space, digits[r2])
 	return writeBuf(space, digits[r1])
-- 
2.43.0


From abc0895adc42aafe254eaffa90cd988089d54596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:33 +0000
Subject: [PATCH 12/38] fix: WriteUint64 writes values of 20 digits correctly

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 22ff9a8..816400f 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -201,7 +201,7 @@ func WriteUint64(space []byte, val uint64) []byte {
 	if q6 == 0 {
 		space = writeFirstBuf(space, digits[q5])
 	} else {
-		space = append(space, byte(q6 + '0'))
+		space = writeFirstBuf(space, digits[q6])
 		r6 := q5 - q6*1000
 		space = writeBuf(space, digits[r6])
 	}
-- 
2.43.0


From af41bc5d1dfe075bfaa60a575efb16bead0781db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:29 +0000
Subject: [PATCH 13/38] fix: write the last byte of a string when it is the
 only one to escape

---
 msgfmt/formatter_bytes.go       | 11 +++--------
 msgfmt/jsonfmt/encoder_bytes.go | 12 +++---------
 msgfmt/jsonfmt/encoder_str.go   | 12 +++---------
 3 files changed, 9 insertions(+), 26 deletions(-)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 646e5c8..c6fa062 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -117,19 +117,14 @@ var hex = "0123456789abcdef"
 
 func writeBytes(space []byte, s []byte) []byte {
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range s {
+	for i, c := range s {
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
 		} else {
-			break
+			return writeBytesSlowPath(space, s[i:])
 		}
 	}
-	if i == len(s)-1 {
-		return space
-	}
-	return writeBytesSlowPath(space, s[i:])
+	return space
 }
 
 func writeBytesSlowPath(space []byte, s []byte) []byte {
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 4c81ece..59a8f82 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -16,20 +16,14 @@ func (encoder *bytesEncoder) Encode(ctx context.Context, space []byte, ptr unsaf
 func WriteBytes(space []byte, s []byte) []byte {
 	space = append(space, '"')
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range s {
+	for i, c := range s {
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
 		} else {
-			break
+			return writeBytesSlowPath(space, s[i:])
 		}
 	}
-	if i == len(s)-1 {
-		space = append(space, '"')
-		return space
-	}
-	return writeBytesSlowPath(space, s[i:])
+	return append(space, '"')
 }
 
 func writeBytesSlowPath(space []byte, s []byte) []byte {
diff --git a/msgfmt/jsonfmt/encoder_str.go b/msgfmt/jsonfmt/encoder_str.go
index effd7cc..8c17bad 100644
--- a/msgfmt/jsonfmt/encoder_str.go
+++ b/msgfmt/jsonfmt/encoder_str.go
@@ -123,20 +123,14 @@ func (encoder *stringEncoder) Encode(ctx context.Context, space []byte, ptr unsa
 func WriteString(space []byte, str string) []byte {
 	space = append(space, '"')
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range []byte(str) {
+	for i, c := range []byte(str) {
 		if c > 31 && c != '"' && c != '\\' {
 			space = append(space, c)
 		} else {
-			break
+			return writeStringSlowPath(space, []byte(str[i:]))
 		}
 	}
-	if i == len(str)-1 {
-		space = append(space, '"')
-		return space
-	}
-	return writeStringSlowPath(space, []byte(str[i:]))
+	return append(space, '"')
 }
 
 func writeStringSlowPath(space []byte, s []byte) []byte {
-- 
2.43.0


From deffb07fd859010627e3829af9b0002f47e89c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:29 +0000
Subject: [PATCH 14/38] fix: keep the bytes between an escaped byte and a byte
 above 0x7f

---
 msgfmt/formatter_bytes.go       | 3 +++
 msgfmt/jsonfmt/encoder_bytes.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index c6fa062..42f9ea0 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -134,6 +134,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 59a8f82..e1ea562 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -33,6 +33,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
-- 
2.43.0


From 6254e9c3e863a955268b2c2cb0bb4fa8085f28b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:29 +0000
Subject: [PATCH 15/38] fix: escape the text of errors encoded as JSON strings

---
 msgfmt/jsonfmt/encoder_error.go          | 5 +----
 msgfmt/jsonfmt/encoder_json_marshaler.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index 8cd46c2..a4fcf88 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -12,8 +12,5 @@ type errorEncoder struct {
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	space = append(space, '"')
-	space = append(space, obj.(error).Error()...)
-	space = append(space, '"')
-	return space
+	return WriteString(space, obj.(error).Error())
 }
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index fc0cd76..7f632b2 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -15,10 +15,7 @@ func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, p
 	obj := encoder.valType.UnsafeIndirect(ptr)
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
-		space = append(space, '"')
-		space = append(space, err.Error()...)
-		space = append(space, '"')
-		return space
+		return WriteString(space, err.Error())
 	}
 	space = append(space, buf...)
 	return space
-- 
2.43.0


From a2b2f0011a67f075c7c4a06f4066db58204edece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 16/38] fix: encode nil errors and nil json.Marshalers as null
 instead of panicking

---
 msgfmt/jsonfmt/encoder_error.go          | 3 +++
 msgfmt/jsonfmt/encoder_json_marshaler.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index a4fcf88..c4bfc98 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -12,5 +12,8 @@ type errorEncoder struct {
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
+	if obj == nil {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	return WriteString(space, obj.(error).Error())
 }
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index 7f632b2..0b424c2 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -13,6 +13,9 @@ type jsonMarshalerEncoder struct {
 
 func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
+	if obj == nil {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
 		return WriteString(space, err.Error())
-- 
2.43.0


From e0e8f3fa42b11657bbc094f8c3a9c2613cbe2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:26 +0000
Subject: [PATCH 17/38] fix: do not reuse a formatter compiled for arguments
 with other keys or types

---
 msgfmt/msgfmt.go | 54 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index 7b8485a..9f0a846 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -69,12 +69,54 @@ func fprintf(writer io.Writer, format string, kv []interface{}) (int, error) {
 
 var formatterCache = concurrent.NewMap()
 
+// compiledFormat is a formatter together with the layout of the arguments it was compiled for
+type compiledFormat struct {
+	formatter Formatter
+	keys      []string
+	types     []uintptr
+}
+
+func newCompiledFormat(format string, sample []interface{}) *compiledFormat {
+	compiled := &compiledFormat{formatter: compile(format, sample)}
+	for i, obj := range sample {
+		key := ""
+		if i%2 == 0 {
+			key, _ = obj.(string)
+		}
+		// the arguments may live on the stack of the caller
+		compiled.keys = append(compiled.keys, string([]byte(key)))
+		compiled.types = append(compiled.types, reflect2.RTypeOf(obj))
+	}
+	return compiled
+}
+
+// compiledFor tells if the arguments have the same keys and types as the ones the format was compiled for
+func (compiled *compiledFormat) compiledFor(sample []interface{}) bool {
+	if len(sample) != len(compiled.types) {
+		return false
+	}
+	for i, obj := range sample {
+		if reflect2.RTypeOf(obj) != compiled.types[i] {
+			return false
+		}
+		if i%2 == 0 {
+			if key, _ := obj.(string); key != compiled.keys[i] {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 func FormatterOf(format string, sample []interface{}) Formatter {
-	formatterObj, found := formatterCache.Load(format)
+	compiledObj, found := formatterCache.Load(format)
 	if found {
-		return formatterObj.(Formatter)
+		compiled := compiledObj.(*compiledFormat)
+		if compiled.compiledFor(sample) {
+			return compiled.formatter
+		}
 	}
-	formatter := compile(format, sample)
-	formatterCache.Store(format, formatter)
-	return formatter
-}
\ No newline at end of file
+	compiled := newCompiledFormat(format, sample)
+	formatterCache.Store(format, compiled)
+	return compiled.formatter
+}
-- 
2.43.0


From 99933738036c7d1c0ce546422c8291b4d689b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:12 +0000
Subject: [PATCH 18/38] fix: encode a nil object as null

---
 msgfmt/jsonfmt/encoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f3a8cc2..44f87e8 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -54,6 +54,9 @@ func (cfg Config) Froze() API {
 }
 
 func (cfg *frozenConfig) EncoderOfObject(obj interface{}) Encoder {
+	if obj == nil {
+		return &nilEncoder{}
+	}
 	cacheKey := reflect2.RTypeOf(obj)
 	encoderObj, found := cfg.encoderCache.Load(cacheKey)
 	if found {
@@ -175,6 +178,13 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
 }
 
+type nilEncoder struct {
+}
+
+func (encoder *nilEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return append(space, 'n', 'u', 'l', 'l')
+}
+
 type unsupportedEncoder struct {
 	msg string
 }
-- 
2.43.0


From b2d1a16ef30520a182f2972e7baa4ad5613091ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:12 +0000
Subject: [PATCH 19/38] fix: format values by the type they have instead of the
 type of the sample

---
 msgfmt/custom.go             |  6 +++++-
 msgfmt/formatter.go          |  7 +------
 msgfmt/formatter_bytes.go    |  6 +++++-
 msgfmt/formatter_json.go     | 24 +++++++++++++++++++-----
 msgfmt/formatter_str.go      |  6 +++++-
 msgfmt/formatter_stringer.go |  6 +++++-
 6 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/msgfmt/custom.go b/msgfmt/custom.go
index 282eb66..8f48bd3 100644
--- a/msgfmt/custom.go
+++ b/msgfmt/custom.go
@@ -58,5 +58,9 @@ type goTimeFormatter struct {
 }
 
 func (formatter *goTimeFormatter) Format(space []byte, kv []interface{}) []byte {
-	return kv[formatter.idx].(time.Time).AppendFormat(space, formatter.layout)
+	val, isTime := kv[formatter.idx].(time.Time)
+	if !isTime {
+		return writeValue(space, kv[formatter.idx])
+	}
+	return val.AppendFormat(space, formatter.layout)
 }
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 6819826..68d17fa 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -4,8 +4,6 @@ import (
 	"io"
 	"github.com/v2pro/plz/parse"
 	"fmt"
-	"github.com/v2pro/plz/msgfmt/jsonfmt"
-	"github.com/v2pro/plz/reflect2"
 )
 
 type Formatter interface {
@@ -48,10 +46,7 @@ var toFormatter = newLexer(func(l *lexer) {
 		case []byte:
 			return bytesFormatter(idx)
 		default:
-			return &jsonFormatter{
-				idx:     idx,
-				encoder: jsonfmt.EncoderOf(reflect2.TypeOf(sampleValue)),
-			}
+			return jsonFormatter(idx)
 		}
 	}
 	l.parseFunc = func(src *parse.Source, id string, funcName string, funcArgs []string) interface{} {
diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 42f9ea0..f2cb2fa 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -5,7 +5,11 @@ import "unicode/utf8"
 type bytesFormatter int
 
 func (formatter bytesFormatter) Format(space []byte, properties []interface{}) []byte {
-	return writeBytes(space, properties[formatter].([]byte))
+	bytes, isBytes := properties[formatter].([]byte)
+	if !isBytes {
+		return writeValue(space, properties[formatter])
+	}
+	return writeBytes(space, bytes)
 }
 
 // safeSet holds the value true if the ASCII character with the given array
diff --git a/msgfmt/formatter_json.go b/msgfmt/formatter_json.go
index bb4c88a..a017f7c 100644
--- a/msgfmt/formatter_json.go
+++ b/msgfmt/formatter_json.go
@@ -1,15 +1,29 @@
 package msgfmt
 
 import (
+	"fmt"
 	"github.com/v2pro/plz/msgfmt/jsonfmt"
 	"github.com/v2pro/plz/reflect2"
 )
 
-type jsonFormatter struct {
-	idx     int
-	encoder jsonfmt.Encoder
+type jsonFormatter int
+
+func (formatter jsonFormatter) Format(space []byte, kv []interface{}) []byte {
+	return writeValue(space, kv[formatter])
 }
 
-func (formatter *jsonFormatter) Format(space []byte, kv []interface{}) []byte {
-	return formatter.encoder.Encode(nil, space, reflect2.PtrOf(kv[formatter.idx]))
+// writeValue formats obj by the type it has, which may be different from the type of the sample
+func writeValue(space []byte, obj interface{}) []byte {
+	stringer, _ := obj.(fmt.Stringer)
+	if stringer != nil {
+		return append(space, stringer.String()...)
+	}
+	switch val := obj.(type) {
+	case string:
+		return append(space, val...)
+	case []byte:
+		return writeBytes(space, val)
+	default:
+		return jsonfmt.EncoderOfObject(obj).Encode(nil, space, reflect2.PtrOf(obj))
+	}
 }
diff --git a/msgfmt/formatter_str.go b/msgfmt/formatter_str.go
index e1b3ff2..e71f5f3 100644
--- a/msgfmt/formatter_str.go
+++ b/msgfmt/formatter_str.go
@@ -3,5 +3,9 @@ package msgfmt
 type strFormatter int
 
 func (formatter strFormatter) Format(space []byte, kv []interface{}) []byte {
-	return append(space, kv[formatter].(string)...)
+	str, isStr := kv[formatter].(string)
+	if !isStr {
+		return writeValue(space, kv[formatter])
+	}
+	return append(space, str...)
 }
diff --git a/msgfmt/formatter_stringer.go b/msgfmt/formatter_stringer.go
index a6e51aa..cfbc9d4 100644
--- a/msgfmt/formatter_stringer.go
+++ b/msgfmt/formatter_stringer.go
@@ -5,5 +5,9 @@ import "fmt"
 type stringerFormatter int
 
 func (formatter stringerFormatter) Format(space []byte, kv []interface{}) []byte {
-	return append(space, kv[formatter].(fmt.Stringer).String()...)
+	stringer, _ := kv[formatter].(fmt.Stringer)
+	if stringer == nil {
+		return writeValue(space, kv[formatter])
+	}
+	return append(space, stringer.String()...)
 }
-- 
2.43.0


From 324842c042bdf26cc8af1fc6f291fd4ee564073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:13 +0000
Subject: [PATCH 20/38] fix: write events as valid JSON

---
 countlog/output/json/json.go | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 413a0df..858caf6 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -12,32 +12,32 @@ type JsonFormat struct {
 
 func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 	formatter := &jsonFormatter{
-		prefix:           `{"event":"` + site.Event + `"`,
-		suffix:           `,location:"` + site.Location() + `"}` + "\n",
-		timestampEncoder: jsonfmt.EncoderOf(reflect2.TypeOf(int64(0))),
+		prefix: `{"event":` + quote(site.Event),
+		suffix: `,"location":` + quote(site.Location()) + "}\n",
 	}
 	for i := 0; i < len(site.Sample); i += 2 {
-		prefix := `"` + site.Sample[i].(string) + `":`
+		prefix := quote(site.Sample[i].(string)) + ":"
 		formatter.props = append(formatter.props, jsonFormatterProp{
-			prefix:  prefix,
-			idx:     i + 1,
-			encoder: jsonfmt.EncoderOf(reflect2.TypeOf(site.Sample[i+1])),
+			prefix: prefix,
+			idx:    i + 1,
 		})
 	}
 	return formatter
 }
 
+func quote(str string) string {
+	return string(jsonfmt.WriteString(nil, str))
+}
+
 type jsonFormatter struct {
-	prefix           string
-	suffix           string
-	props            []jsonFormatterProp
-	timestampEncoder jsonfmt.Encoder
+	prefix string
+	suffix string
+	props  []jsonFormatterProp
 }
 
 type jsonFormatterProp struct {
-	prefix  string
-	idx     int
-	encoder jsonfmt.Encoder
+	prefix string
+	idx    int
 }
 
 func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
@@ -45,10 +45,11 @@ func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
 	for _, prop := range formatter.props {
 		space = append(space, ',')
 		space = append(space, prop.prefix...)
-		space = prop.encoder.Encode(nil, space, reflect2.PtrOf(event.Properties[prop.idx]))
+		val := event.Properties[prop.idx]
+		space = jsonfmt.EncoderOfObject(val).Encode(nil, space, reflect2.PtrOf(val))
 	}
-	space = append(space, ",timestamp:"...)
-	space = formatter.timestampEncoder.Encode(nil, space, reflect2.PtrOf(event.Timestamp.UnixNano()))
+	space = append(space, `,"timestamp":`...)
+	space = jsonfmt.WriteInt64(space, event.Timestamp.UnixNano())
 	space = append(space, formatter.suffix...)
 	return space
 }
-- 
2.43.0


From 5feffc8bc7061248b65192ed5a8d9f0f82ba2215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:13 +0000
Subject: [PATCH 21/38] fix: report the arguments of an invalid format as JSON
 when they can be marshalled

---
 msgfmt/formatter_invalid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/formatter_invalid.go b/msgfmt/formatter_invalid.go
index 813c846..688c4b8 100644
--- a/msgfmt/formatter_invalid.go
+++ b/msgfmt/formatter_invalid.go
@@ -9,7 +9,7 @@ type invalidFormatter string
 
 func (formatter invalidFormatter) Format(space []byte, kv []interface{}) []byte {
 	output, err := json.Marshal(kv)
-	if err != nil {
+	if err == nil {
 		space = append(space, "%! (INVALID FORMAT) "...)
 		space = append(space, formatter...)
 		space = append(space, "%! (FORMAT ARGS) "...)
-- 
2.43.0


From c51a763928503fd42eb6f44af8768663b13b8a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:35 +0000
Subject: [PATCH 22/38] fix: iterate maps with the signature mapiterinit has
 since go 1.18

---
 reflect2/go_above_118.go | 17 +++++++++++++++++
 reflect2/go_below_118.go | 17 +++++++++++++++++
 reflect2/unsafe_link.go  | 22 +++++++++++++++-------
 reflect2/unsafe_map.go   |  2 +-
 4 files changed, 50 insertions(+), 8 deletions(-)
 create mode 100644 reflect2/go_above_118.go
 create mode 100644 reflect2/go_below_118.go

diff --git a/reflect2/go_above_118.go b/reflect2/go_above_118.go
new file mode 100644
index 0000000..246ea2a
--- /dev/null
+++ b/reflect2/go_above_118.go
@@ -0,0 +1,17 @@
+//+build go1.18
+
+package reflect2
+
+import (
+	"unsafe"
+)
+
+// m escapes into it, and it escapes to the caller of newHiter
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer, it *hiter)
+
+func newHiter(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	it := &hiter{}
+	mapiterinit(rtype, m, it)
+	return it
+}
diff --git a/reflect2/go_below_118.go b/reflect2/go_below_118.go
new file mode 100644
index 0000000..453484d
--- /dev/null
+++ b/reflect2/go_below_118.go
@@ -0,0 +1,17 @@
+//+build !go1.18
+
+package reflect2
+
+import (
+	"unsafe"
+)
+
+// m escapes into the return value, but the caller of mapiterinit
+// doesn't let the return value escape.
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
+
+func newHiter(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	return mapiterinit(rtype, m)
+}
diff --git a/reflect2/unsafe_link.go b/reflect2/unsafe_link.go
index a25a5f4..82d1d26 100644
--- a/reflect2/unsafe_link.go
+++ b/reflect2/unsafe_link.go
@@ -25,12 +25,6 @@ func mapassign(rtype unsafe.Pointer, m unsafe.Pointer, key, val unsafe.Pointer)
 //go:noescape
 func mapaccess(rtype unsafe.Pointer, m unsafe.Pointer, key unsafe.Pointer) (val unsafe.Pointer)
 
-// m escapes into the return value, but the caller of mapiterinit
-// doesn't let the return value escape.
-//go:noescape
-//go:linkname mapiterinit reflect.mapiterinit
-func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
-
 //go:noescape
 //go:linkname mapiternext reflect.mapiternext
 func mapiternext(it *hiter)
@@ -44,7 +38,21 @@ func ifaceE2I(rtype unsafe.Pointer, src interface{}, dst unsafe.Pointer)
 type hiter struct {
 	key   unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
 	value unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
-	// rest fields are ignored
+	// rest fields are ignored, they reserve the space the runtime writes to
+	t           unsafe.Pointer
+	h           unsafe.Pointer
+	buckets     unsafe.Pointer
+	bptr        unsafe.Pointer
+	overflow    unsafe.Pointer
+	oldoverflow unsafe.Pointer
+	startBucket uintptr
+	offset      uint8
+	wrapped     bool
+	B           uint8
+	i           uint8
+	bucket      uintptr
+	checkBucket uintptr
+	clearSeq    uint64
 }
 
 // add returns p+x.
diff --git a/reflect2/unsafe_map.go b/reflect2/unsafe_map.go
index f2e76e6..32f3c02 100644
--- a/reflect2/unsafe_map.go
+++ b/reflect2/unsafe_map.go
@@ -109,7 +109,7 @@ func (type2 *UnsafeMapType) Iterate(obj interface{}) MapIterator {
 
 func (type2 *UnsafeMapType) UnsafeIterate(obj unsafe.Pointer) MapIterator {
 	return &UnsafeMapIterator{
-		hiter:      mapiterinit(type2.rtype, *(*unsafe.Pointer)(obj)),
+		hiter:      newHiter(type2.rtype, *(*unsafe.Pointer)(obj)),
 		pKeyRType:  type2.pKeyRType,
 		pElemRType: type2.pElemRType,
 	}
-- 
2.43.0


From 4b038d3a6df3ef0dee99f35f2411881b7192d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:50 +0000
Subject: [PATCH 23/38] fix: encode map keys of interface types by the type
 they hold

---
 msgfmt/jsonfmt/encoder.go     |  2 +-
 msgfmt/jsonfmt/encoder_map.go | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 44f87e8..21cef89 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -210,7 +210,7 @@ func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) E
 		return &mapStringKeyEncoder{keyEncoder}
 	}
 	if keyType.Kind() == reflect.Interface {
-		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix}
+		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
 	}
 	return &mapNumberKeyEncoder{keyEncoder}
 }
diff --git a/msgfmt/jsonfmt/encoder_map.go b/msgfmt/jsonfmt/encoder_map.go
index 58a49a2..176cd54 100644
--- a/msgfmt/jsonfmt/encoder_map.go
+++ b/msgfmt/jsonfmt/encoder_map.go
@@ -52,12 +52,21 @@ func (encoder *mapStringKeyEncoder) Encode(ctx context.Context, space []byte, pt
 }
 
 type mapInterfaceKeyEncoder struct {
-	cfg    *frozenConfig
-	prefix string
+	cfg     *frozenConfig
+	prefix  string
+	keyType reflect2.Type
 }
 
 func (encoder *mapInterfaceKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	keyObj := *(*interface{})(ptr)
-	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, reflect2.TypeOf(keyObj))
-	return keyEncoder.Encode(ctx, space, reflect2.PtrOf(keyObj))
+	keyObj := encoder.keyType.UnsafeIndirect(ptr)
+	if keyObj == nil {
+		return append(space, `"null":`...)
+	}
+	keyType := reflect2.TypeOf(keyObj)
+	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, keyType)
+	keyPtr := reflect2.PtrOf(keyObj)
+	if keyType.LikePtr() {
+		return keyEncoder.Encode(ctx, space, unsafe.Pointer(&keyPtr))
+	}
+	return keyEncoder.Encode(ctx, space, keyPtr)
 }
-- 
2.43.0


From d86138f349ae34245d65b10c36ccedea92121455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:02 +0000
Subject: [PATCH 24/38] fix: encode values in interfaces with the configuration
 of the encoder

---
 msgfmt/jsonfmt/encoder.go         | 2 +-
 msgfmt/jsonfmt/encoder_dynamic.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 21cef89..33a46eb 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -173,7 +173,7 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 		mapType := valType.(reflect2.MapType)
 		return encoderOfMap(cfg, prefix, mapType)
 	case reflect.Interface:
-		return &dynamicEncoder{valType:valType}
+		return &dynamicEncoder{cfg: cfg, valType: valType}
 	}
 	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
 }
diff --git a/msgfmt/jsonfmt/encoder_dynamic.go b/msgfmt/jsonfmt/encoder_dynamic.go
index 29106e1..19177e8 100644
--- a/msgfmt/jsonfmt/encoder_dynamic.go
+++ b/msgfmt/jsonfmt/encoder_dynamic.go
@@ -7,6 +7,7 @@ import (
 )
 
 type dynamicEncoder struct {
+	cfg     *frozenConfig
 	valType reflect2.Type
 }
 
@@ -15,5 +16,5 @@ func (encoder *dynamicEncoder) Encode(ctx context.Context, space []byte, ptr uns
 	if obj == nil {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
-	return EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
+	return encoder.cfg.EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
 }
\ No newline at end of file
-- 
2.43.0


From 1f3f288142a85b3186bd52580d9d98cc5a24d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:00 +0000
Subject: [PATCH 25/38] fix: encode types that contain themselves instead of
 overflowing the stack

---
 msgfmt/jsonfmt/encoder.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 33a46eb..60406c0 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -42,6 +42,7 @@ type frozenConfig struct {
 	extensions         []Extension
 	encoderCache       *concurrent.Map
 	mapKeyEncoderCache *concurrent.Map
+	elemEncoderCache   *concurrent.Map
 }
 
 func (cfg Config) Froze() API {
@@ -50,6 +51,7 @@ func (cfg Config) Froze() API {
 		extensions:         cfg.Extensions,
 		encoderCache:       concurrent.NewMap(),
 		mapKeyEncoderCache: concurrent.NewMap(),
+		elemEncoderCache:   concurrent.NewMap(),
 	}
 }
 
@@ -150,11 +152,11 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 		return &stringEncoder{}
 	case reflect.Ptr:
 		pointerType := valType.(reflect2.PtrType)
-		elemEncoder := encoderOf(cfg, prefix+" [ptrElem]", pointerType.Elem())
+		elemEncoder := encoderOfElem(cfg, prefix+" [ptrElem]", pointerType.Elem())
 		return &pointerEncoder{elemEncoder: elemEncoder}
 	case reflect.Slice:
 		sliceType := valType.(reflect2.SliceType)
-		elemEncoder := encoderOf(cfg, prefix+" [sliceElem]", sliceType.Elem())
+		elemEncoder := encoderOfElem(cfg, prefix+" [sliceElem]", sliceType.Elem())
 		return &sliceEncoder{
 			elemEncoder: elemEncoder,
 			sliceType:   sliceType.(*reflect2.UnsafeSliceType),
@@ -196,7 +198,7 @@ func (encoder *unsupportedEncoder) Encode(ctx context.Context, space []byte, ptr
 func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *mapEncoder {
 	keyEncoder := encoderOfMapKey(cfg, prefix, valType.Key())
 	elemType := valType.Elem()
-	elemEncoder := encoderOf(cfg, prefix+" [mapElem]", elemType)
+	elemEncoder := encoderOfElem(cfg, prefix+" [mapElem]", elemType)
 	return &mapEncoder{
 		keyEncoder:  keyEncoder,
 		elemEncoder: elemEncoder,
@@ -215,6 +217,34 @@ func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) E
 	return &mapNumberKeyEncoder{keyEncoder}
 }
 
+// encoderOfElem is the encoder of what a pointer, slice or map refers to. Only
+// through those can a type contain itself, so the encoder of a composite
+// element is not made before there is an element to encode.
+func encoderOfElem(cfg *frozenConfig, prefix string, elemType reflect2.Type) Encoder {
+	switch elemType.Kind() {
+	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Struct, reflect.Map:
+		return &elemEncoder{cfg: cfg, prefix: prefix, elemType: elemType}
+	}
+	return encoderOf(cfg, prefix, elemType)
+}
+
+type elemEncoder struct {
+	cfg      *frozenConfig
+	prefix   string
+	elemType reflect2.Type
+}
+
+func (encoder *elemEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	cfg := encoder.cfg
+	cacheKey := encoder.elemType.RType()
+	encoderObj, found := cfg.elemEncoderCache.Load(cacheKey)
+	if !found {
+		encoderObj = encoderOf(cfg, encoder.prefix, encoder.elemType)
+		cfg.elemEncoderCache.Store(cacheKey, encoderObj)
+	}
+	return encoderObj.(Encoder).Encode(ctx, space, ptr)
+}
+
 type onePtrInterfaceEncoder struct {
 	valEncoder Encoder
 }
-- 
2.43.0


From ff351ceb4de4923aeea66589d45f444e8f3381ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:41 +0000
Subject: [PATCH 26/38] fix: encode the message for types that are not
 supported as a JSON string

---
 msgfmt/jsonfmt/encoder.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 60406c0..b26520e 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -177,7 +177,7 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	case reflect.Interface:
 		return &dynamicEncoder{cfg: cfg, valType: valType}
 	}
-	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
+	return &unsupportedEncoder{fmt.Sprintf(`can not encode %s %s to json`, valType.String(), prefix)}
 }
 
 type nilEncoder struct {
@@ -192,7 +192,7 @@ type unsupportedEncoder struct {
 }
 
 func (encoder *unsupportedEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	return append(space, encoder.msg...)
+	return WriteString(space, encoder.msg)
 }
 
 func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *mapEncoder {
@@ -261,16 +261,16 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 		if name == "" {
 			continue
 		}
-		prefix := ""
+		fieldPrefix := ""
 		if len(fields) != 0 {
-			prefix += ","
+			fieldPrefix += ","
 		}
-		prefix += `"`
-		prefix += name
-		prefix += `":`
+		fieldPrefix += `"`
+		fieldPrefix += name
+		fieldPrefix += `":`
 		fields = append(fields, structEncoderField{
 			structField: field.(*reflect2.UnsafeStructField),
-			prefix:      prefix,
+			prefix:      fieldPrefix,
 			encoder:     encoderOf(cfg, prefix+" ."+name, field.Type()),
 		})
 	}
-- 
2.43.0


From 8c7bf5f42ed6cc50a2125ba1a191c76292dff06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:52 +0000
Subject: [PATCH 27/38] fix: encode nil pointers with Error or MarshalJSON
 methods as null instead of calling them

---
 msgfmt/jsonfmt/encoder_error.go          | 8 +++++++-
 msgfmt/jsonfmt/encoder_json_marshaler.go | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index c4bfc98..435490b 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -2,6 +2,7 @@ package jsonfmt
 
 import (
 	"unsafe"
+	"reflect"
 	"context"
 	"github.com/v2pro/plz/reflect2"
 )
@@ -12,8 +13,13 @@ type errorEncoder struct {
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	if obj == nil {
+	if obj == nil || isNilPtr(obj) {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
 	return WriteString(space, obj.(error).Error())
 }
+
+// isNilPtr tells nil pointers, whose methods can not be expected to work.
+func isNilPtr(obj interface{}) bool {
+	return reflect2.TypeOf(obj).Kind() == reflect.Ptr && reflect2.IsNil(obj)
+}
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index 0b424c2..42f50ad 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -13,7 +13,7 @@ type jsonMarshalerEncoder struct {
 
 func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	if obj == nil {
+	if obj == nil || isNilPtr(obj) {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
 	buf, err := obj.(json.Marshaler).MarshalJSON()
-- 
2.43.0


From c6cdeb3d328de5873ce7927fbb7df5089036f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:18 +0000
Subject: [PATCH 28/38] fix: encode map keys that are not numbers as JSON
 strings

---
 msgfmt/jsonfmt/encoder.go     |  5 ++++-
 msgfmt/jsonfmt/encoder_map.go | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index b26520e..b9f33ba 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -208,12 +208,15 @@ func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *m
 
 func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) Encoder {
 	keyEncoder := encoderOf(cfg, prefix+" [mapKey]", keyType)
-	if keyType.Kind() == reflect.String || keyType == bytesType {
+	if (keyType.Kind() == reflect.String || keyType == bytesType) && !keyType.Implements(jsonMarshalerType) {
 		return &mapStringKeyEncoder{keyEncoder}
 	}
 	if keyType.Kind() == reflect.Interface {
 		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
 	}
+	if keyType.Kind() > reflect.Float64 || keyType.Implements(errorType) || keyType.Implements(jsonMarshalerType) {
+		return &mapTextKeyEncoder{keyEncoder}
+	}
 	return &mapNumberKeyEncoder{keyEncoder}
 }
 
diff --git a/msgfmt/jsonfmt/encoder_map.go b/msgfmt/jsonfmt/encoder_map.go
index 176cd54..e24015e 100644
--- a/msgfmt/jsonfmt/encoder_map.go
+++ b/msgfmt/jsonfmt/encoder_map.go
@@ -41,6 +41,22 @@ func (encoder *mapNumberKeyEncoder) Encode(ctx context.Context, space []byte, pt
 	return space
 }
 
+// mapTextKeyEncoder is for keys encoded as any JSON value, what is not a
+// string becomes one
+type mapTextKeyEncoder struct {
+	valEncoder Encoder
+}
+
+func (encoder *mapTextKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	text := encoder.valEncoder.Encode(ctx, nil, ptr)
+	if len(text) > 0 && text[0] == '"' {
+		space = append(space, text...)
+	} else {
+		space = WriteString(space, string(text))
+	}
+	return append(space, ':')
+}
+
 type mapStringKeyEncoder struct {
 	valEncoder Encoder
 }
-- 
2.43.0


From d1e543a2085463f2617e1c41e26e29fa96a2a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:15 +0000
Subject: [PATCH 29/38] fix: tell exported fields by the first letter of the
 name, not its first byte

---
 msgfmt/jsonfmt/encoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index b9f33ba..f6c75f8 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 	"fmt"
 	"encoding/json"
 	"context"
@@ -283,7 +284,8 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 }
 
 func getFieldName(cfg *frozenConfig, field reflect2.StructField) string {
-	if !cfg.includesUnexported && !unicode.IsUpper(rune(field.Name()[0])) {
+	firstLetter, _ := utf8.DecodeRuneInString(field.Name())
+	if !cfg.includesUnexported && !unicode.IsUpper(firstLetter) {
 		return ""
 	}
 	if field.Type().Kind() == reflect.Func {
-- 
2.43.0


From 9af5a884205f0a32449b520c05837def6d40bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:31 +0800
Subject: [PATCH 30/38] fix: escape the names of struct fields

---
 msgfmt/jsonfmt/encoder.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f6c75f8..f8b9a3b 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -269,9 +269,8 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 		if len(fields) != 0 {
 			fieldPrefix += ","
 		}
-		fieldPrefix += `"`
-		fieldPrefix += name
-		fieldPrefix += `":`
+		fieldPrefix += string(WriteString(nil, name))
+		fieldPrefix += ":"
 		fields = append(fields, structEncoderField{
 			structField: field.(*reflect2.UnsafeStructField),
 			prefix:      fieldPrefix,
-- 
2.43.0


From 9e45b600aa7e0c5204376c6bf037fa1a5b6ff6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:41 +0800
Subject: [PATCH 31/38] fix: show the level in human readable events

---
 countlog/spi/color.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/countlog/spi/color.go b/countlog/spi/color.go
index 9fed7f8..b9f6c91 100644
--- a/countlog/spi/color.go
+++ b/countlog/spi/color.go
@@ -1,5 +1,7 @@
 package spi
 
+import "fmt"
+
 var coloredNames = map[int]string{}
 
 func init() {
@@ -15,9 +17,8 @@ func init() {
 		LevelFatal,
 	}
 	for _, level := range levels {
-		coloredNames[level] = ColoredLevelName(level)
-		//coloredNames[level] = msgfmt.Sprintf("\x1b[{color};1m[{level}]\x1b[0m ",
-		//	"color", getColor(level), "level", LevelName(level))
+		coloredNames[level] = fmt.Sprintf("\x1b[%d;1m[%s]\x1b[0m ",
+			getColor(level), LevelName(level))
 	}
 }
 
-- 
2.43.0


From 5c975314b4602ac45703718747955486360d71cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0800
Subject: [PATCH 32/38] fix: format events by the properties they have instead
 of the ones of the first event

---
 countlog/output/compact/compact.go | 13 ++----------
 countlog/output/compact/default.go | 22 +++++++++++++++----
 countlog/output/hrf/ctx.go         | 20 ++++++++++++------
 countlog/output/hrf/hrf.go         | 28 ++----------------------
 countlog/output/hrf/prop.go        | 34 ++++++++++++++++++++++++++----
 countlog/output/hrf/timer.go       |  8 ++-----
 countlog/output/json/json.go       | 25 ++++++----------------
 countlog/output/printf/printf.go   |  4 +---
 msgfmt/formatter_json.go           |  5 +++++
 9 files changed, 80 insertions(+), 79 deletions(-)

diff --git a/countlog/output/compact/compact.go b/countlog/output/compact/compact.go
index 4532bb4..92d5f86 100644
--- a/countlog/output/compact/compact.go
+++ b/countlog/output/compact/compact.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"github.com/v2pro/plz/countlog/output"
 	"github.com/v2pro/plz/countlog/spi"
-	"github.com/v2pro/plz/msgfmt"
 	"strings"
 )
 
@@ -13,7 +12,6 @@ type Format struct {
 
 func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 	eventName := site.Event
-	sample := site.Sample
 	var formatters output.Formatters
 
 	formatters = append(formatters, &timestampFormatter{}, fixedFormatter(fmt.Sprintf(
@@ -25,18 +23,11 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		tag := "call " + eventName[len("callee!"):]
 		formatters = append(formatters, fixedFormatter(tag))
 	} else {
-		formatters = append(formatters,
-			&defaultFormatter{msgfmt.FormatterOf(eventName, site.Sample)})
+		formatters = append(formatters, defaultFormatter(eventName))
 	}
 
 	formatters = append(formatters, &errorFormatter{})
-	for i := 0; i < len(sample); i += 2 {
-		key := sample[i].(string)
-		pattern := "||" + key + "={" + key + "}"
-		formatters = append(formatters, &defaultFormatter{
-			msgfmt.FormatterOf(pattern, sample),
-		})
-	}
+	formatters = append(formatters, &propsFormatter{})
 
 	formatters = append(formatters, fixedFormatter("\n"))
 	return formatters
diff --git a/countlog/output/compact/default.go b/countlog/output/compact/default.go
index e5e4526..17b70ed 100644
--- a/countlog/output/compact/default.go
+++ b/countlog/output/compact/default.go
@@ -5,10 +5,24 @@ import (
 	"github.com/v2pro/plz/msgfmt"
 )
 
-type defaultFormatter struct {
-	fmt msgfmt.Formatter
+type defaultFormatter string
+
+func (formatter defaultFormatter) Format(space []byte, event *spi.Event) []byte {
+	return msgfmt.FormatterOf(string(formatter), event.Properties).Format(space, event.Properties)
+}
+
+// propsFormatter formats the properties of the event,
+// which may differ from the ones of the first event of the site
+type propsFormatter struct {
 }
 
-func (formatter *defaultFormatter) Format(space []byte, event *spi.Event) []byte {
-	return formatter.fmt.Format(space, event.Properties)
+func (formatter *propsFormatter) Format(space []byte, event *spi.Event) []byte {
+	for i := 0; i+1 < len(event.Properties); i += 2 {
+		key, _ := event.Properties[i].(string)
+		space = append(space, "||"...)
+		space = append(space, key...)
+		space = append(space, '=')
+		space = msgfmt.AppendValue(space, event.Properties[i+1])
+	}
+	return space
 }
diff --git a/countlog/output/hrf/ctx.go b/countlog/output/hrf/ctx.go
index 9e53325..a9497bf 100644
--- a/countlog/output/hrf/ctx.go
+++ b/countlog/output/hrf/ctx.go
@@ -1,14 +1,20 @@
 package hrf
 
-import (
-	"github.com/v2pro/plz/msgfmt"
-	"github.com/v2pro/plz/countlog/spi"
-)
+import "github.com/v2pro/plz/countlog/spi"
 
 type ctxFormatter struct {
-	fmt msgfmt.Formatter
 }
 
 func (formatter *ctxFormatter) Format(space []byte, event *spi.Event) []byte {
-	return formatter.fmt.Format(space, spi.GetLogContext(event.Context).Properties)
-}
\ No newline at end of file
+	if event.Context == nil {
+		return space
+	}
+	ctx := spi.GetLogContext(event.Context)
+	if ctx == nil {
+		return space
+	}
+	for i := 0; i+1 < len(ctx.Properties); i += 2 {
+		space = appendProp(space, ctx.Properties[i], ctx.Properties[i+1])
+	}
+	return space
+}
diff --git a/countlog/output/hrf/hrf.go b/countlog/output/hrf/hrf.go
index a617dd7..ca1f332 100644
--- a/countlog/output/hrf/hrf.go
+++ b/countlog/output/hrf/hrf.go
@@ -3,7 +3,6 @@ package hrf
 import (
 	"github.com/v2pro/plz/countlog/spi"
 	"github.com/v2pro/plz/countlog/output"
-	"github.com/v2pro/plz/msgfmt"
 	"strings"
 )
 
@@ -20,8 +19,7 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 	} else if strings.HasPrefix(site.Event, "callee!") {
 		formatters = append(formatters, fixedFormatter(site.Event[len("callee!"):]))
 	} else {
-		formatters = append(formatters,
-			&propFormatter{msgfmt.FormatterOf(site.Event, site.Sample)})
+		formatters = append(formatters, messageFormatter(site.Event))
 	}
 	if format.ShowTimestamp {
 		formatters = append(formatters, fixedFormatter("\n\x1b[90;1mtimestamp: "))
@@ -29,29 +27,7 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		formatters = append(formatters, fixedFormatter("\x1b[0m"))
 	}
 	formatters = append(formatters, &errorFormatter{})
-	ctx := site.LogContext()
-	if ctx != nil {
-		for i := 0; i < len(ctx.Properties); i += 2 {
-			key := ctx.Properties[i].(string)
-			formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-			formatters = append(formatters, &ctxFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", ctx.Properties),
-			})
-			formatters = append(formatters, fixedFormatter("\x1b[0m"))
-		}
-	}
-	for i := 0; i < len(site.Sample); i += 2 {
-		key := site.Sample[i].(string)
-		formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-		if key == "timer" {
-			formatters = append(formatters, &timerFormatter{idx: i+1})
-		} else {
-			formatters = append(formatters, &propFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", site.Sample),
-			})
-		}
-		formatters = append(formatters, fixedFormatter("\x1b[0m"))
-	}
+	formatters = append(formatters, &ctxFormatter{}, &propsFormatter{})
 	formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
 	formatters = append(formatters, locationFormatter("\nlocation: "+site.Location()))
 	formatters = append(formatters, fixedFormatter("\x1b[0m"))
diff --git a/countlog/output/hrf/prop.go b/countlog/output/hrf/prop.go
index e88f4d0..8d3e380 100644
--- a/countlog/output/hrf/prop.go
+++ b/countlog/output/hrf/prop.go
@@ -5,10 +5,36 @@ import (
 	"github.com/v2pro/plz/msgfmt"
 )
 
-type propFormatter struct {
-	fmt msgfmt.Formatter
+// messageFormatter formats the event itself
+type messageFormatter string
+
+func (formatter messageFormatter) Format(space []byte, event *spi.Event) []byte {
+	return msgfmt.FormatterOf(string(formatter), event.Properties).Format(space, event.Properties)
+}
+
+// propsFormatter formats the properties of the event,
+// which may differ from the ones of the first event of the site
+type propsFormatter struct {
+}
+
+func (formatter *propsFormatter) Format(space []byte, event *spi.Event) []byte {
+	for i := 0; i+1 < len(event.Properties); i += 2 {
+		if startTime, isTime := event.Properties[i+1].(int64); isTime && event.Properties[i] == "timer" {
+			space = append(space, "\x1b[90;1m"...)
+			space = appendTimer(space, event, startTime)
+			space = append(space, "\x1b[0m"...)
+		} else {
+			space = appendProp(space, event.Properties[i], event.Properties[i+1])
+		}
+	}
+	return space
 }
 
-func (formatter *propFormatter) Format(space []byte, event *spi.Event) []byte {
-	return formatter.fmt.Format(space, event.Properties)
+func appendProp(space []byte, key interface{}, value interface{}) []byte {
+	name, _ := key.(string)
+	space = append(space, "\x1b[90;1m\n"...)
+	space = append(space, name...)
+	space = append(space, ": "...)
+	space = msgfmt.AppendValue(space, value)
+	return append(space, "\x1b[0m"...)
 }
diff --git a/countlog/output/hrf/timer.go b/countlog/output/hrf/timer.go
index 2f012ee..4817458 100644
--- a/countlog/output/hrf/timer.go
+++ b/countlog/output/hrf/timer.go
@@ -5,12 +5,8 @@ import (
 	"time"
 )
 
-type timerFormatter struct {
-	idx int
-}
-
-func (formatter *timerFormatter) Format(space []byte, event *spi.Event) []byte {
-	latency := event.Timestamp.UnixNano() - event.Properties[formatter.idx].(int64)
+func appendTimer(space []byte, event *spi.Event, startTime int64) []byte {
+	latency := event.Timestamp.UnixNano() - startTime
 	space = append(space, "\ntimer: "...)
 	space = append(space, time.Duration(latency).String()...)
 	return space
diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 858caf6..7431b20 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -11,18 +11,10 @@ type JsonFormat struct {
 }
 
 func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
-	formatter := &jsonFormatter{
+	return &jsonFormatter{
 		prefix: `{"event":` + quote(site.Event),
 		suffix: `,"location":` + quote(site.Location()) + "}\n",
 	}
-	for i := 0; i < len(site.Sample); i += 2 {
-		prefix := quote(site.Sample[i].(string)) + ":"
-		formatter.props = append(formatter.props, jsonFormatterProp{
-			prefix: prefix,
-			idx:    i + 1,
-		})
-	}
-	return formatter
 }
 
 func quote(str string) string {
@@ -32,20 +24,17 @@ func quote(str string) string {
 type jsonFormatter struct {
 	prefix string
 	suffix string
-	props  []jsonFormatterProp
-}
-
-type jsonFormatterProp struct {
-	prefix string
-	idx    int
 }
 
 func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
 	space = append(space, formatter.prefix...)
-	for _, prop := range formatter.props {
+	// the properties may differ from the ones of the first event of the site
+	for i := 0; i+1 < len(event.Properties); i += 2 {
+		key, _ := event.Properties[i].(string)
 		space = append(space, ',')
-		space = append(space, prop.prefix...)
-		val := event.Properties[prop.idx]
+		space = jsonfmt.WriteString(space, key)
+		space = append(space, ':')
+		val := event.Properties[i+1]
 		space = jsonfmt.EncoderOfObject(val).Encode(nil, space, reflect2.PtrOf(val))
 	}
 	space = append(space, `,"timestamp":`...)
diff --git a/countlog/output/printf/printf.go b/countlog/output/printf/printf.go
index 43e7257..7813382 100644
--- a/countlog/output/printf/printf.go
+++ b/countlog/output/printf/printf.go
@@ -27,7 +27,6 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 				"file", "",
 				"line", 0,
 			}),
-		messageFmt: msgfmt.FormatterOf(site.Event, site.Sample),
 	}
 }
 
@@ -37,13 +36,12 @@ type formatter struct {
 	file       string
 	line       int
 	logFmt     msgfmt.Formatter
-	messageFmt msgfmt.Formatter
 }
 
 func (formatter *formatter) Format(space []byte, event *spi.Event) []byte {
 	return formatter.logFmt.Format(space,
 		[]interface{}{
-			"message", formatter.messageFmt.Format(nil, event.Properties),
+			"message", msgfmt.FormatterOf(formatter.event, event.Properties).Format(nil, event.Properties),
 			"timestamp", event.Timestamp,
 			"level", spi.LevelName(event.Level),
 			"event", formatter.event,
diff --git a/msgfmt/formatter_json.go b/msgfmt/formatter_json.go
index a017f7c..0c71012 100644
--- a/msgfmt/formatter_json.go
+++ b/msgfmt/formatter_json.go
@@ -12,6 +12,11 @@ func (formatter jsonFormatter) Format(space []byte, kv []interface{}) []byte {
 	return writeValue(space, kv[formatter])
 }
 
+// AppendValue formats value by the type it has, like {key} in a format does
+func AppendValue(space []byte, value interface{}) []byte {
+	return writeValue(space, value)
+}
+
 // writeValue formats obj by the type it has, which may be different from the type of the sample
 func writeValue(space []byte, obj interface{}) []byte {
 	stringer, _ := obj.(fmt.Stringer)
-- 
2.43.0


From 587410eb69ed78511d470f66df8ed35d3ff4d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0800
Subject: [PATCH 33/38] fix: do not lose, overrun or wait forever for the input
 of a parser

---
 parse/parse.go | 73 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index fc60f5d..cc81c1b 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -48,9 +48,12 @@ func Parse(src *Source, lexer Lexer, precedence int) interface{} {
 	return left
 }
 
+const maxEmptyReads = 100
+
 type Source struct {
 	err        error
 	reader     io.Reader
+	readErr    error // to be reported once everything read before is consumed
 	current    []byte
 	nextList   [][]byte
 	buf        []byte
@@ -58,21 +61,25 @@ type Source struct {
 }
 
 func NewSource(reader io.Reader, buf []byte) (*Source, error) {
-	n, err := reader.Read(buf)
-	if n == 0 {
-		return nil, err
+	src := &Source{
+		reader: reader,
+		buf:    buf,
+	}
+	src.Consume()
+	if len(src.current) == 0 {
+		return nil, src.err
 	}
-	return &Source{
-		reader:  reader,
-		current: buf[:n],
-		buf:     buf,
-	}, nil
+	return src, nil
 }
 
-func NewSourceString(src string) *Source {
-	return &Source{
-		current: []byte(src),
+func NewSourceString(input string) *Source {
+	src := &Source{
+		current: []byte(input),
 	}
+	if input == "" {
+		src.ReportError(io.EOF)
+	}
+	return src
 }
 
 func (src *Source) SetBuffer(buf []byte) {
@@ -84,6 +91,10 @@ func (src *Source) Peek() []byte {
 }
 
 func (src *Source) Peek1() byte {
+	if len(src.current) == 0 {
+		src.ReportError(io.ErrUnexpectedEOF)
+		return 0
+	}
 	return src.current[0]
 }
 
@@ -102,17 +113,15 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 		}
 	}
 	for {
-		buf := make([]byte, len(src.buf))
-		read, err := src.reader.Read(buf)
-		next := buf[:read]
+		next, err := src.read(make([]byte, len(src.buf)))
+		if err != nil {
+			return peeked, err
+		}
 		peeked = append(peeked, next...)
 		src.nextList = append(src.nextList, next)
 		if len(peeked) >= n {
 			return peeked[:n], nil
 		}
-		if err != nil {
-			return peeked, err
-		}
 	}
 }
 
@@ -120,11 +129,18 @@ func (src *Source) ConsumeN(n int) {
 	for n != 0 && n >= len(src.current) {
 		n -= len(src.current)
 		src.Consume()
+		if len(src.current) == 0 {
+			return
+		}
 	}
 	src.current = src.current[n:]
 }
 
 func (src *Source) Consume1(b1 byte) {
+	if len(src.current) == 0 {
+		src.ReportError(io.ErrUnexpectedEOF)
+		return
+	}
 	if b1 != src.current[0] {
 		src.ReportError(errors.New(
 			"expect " + string([]byte{b1}) +
@@ -144,11 +160,26 @@ func (src *Source) Consume() {
 		src.nextList = src.nextList[1:]
 		return
 	}
-	n, err := src.reader.Read(src.buf)
+	next, err := src.read(src.buf)
 	if err != nil {
 		src.ReportError(err)
 	}
-	src.current = src.buf[:n]
+	src.current = next
+}
+
+// read fills buf with at least one byte, or tells why it can not
+func (src *Source) read(buf []byte) ([]byte, error) {
+	for i := 0; i < maxEmptyReads && src.readErr == nil; i++ {
+		n, err := src.reader.Read(buf)
+		src.readErr = err
+		if n > 0 {
+			return buf[:n], nil
+		}
+	}
+	if src.readErr == nil {
+		return nil, io.ErrNoProgress
+	}
+	return nil, src.readErr
 }
 
 func (src *Source) PeekRune() (rune, int) {
@@ -166,8 +197,10 @@ func (src *Source) PeekRune() (rune, int) {
 	return utf8.DecodeRune(fullBuf)
 }
 
+// ReportError keeps the first error. The end of the input is only an error
+// when nothing else goes wrong.
 func (src *Source) ReportError(err error) {
-	if src.err == nil {
+	if src.err == nil || src.err == io.EOF {
 		src.err = err
 	}
 }
-- 
2.43.0


From 11f770e9e4ac835accbf2f12d75938646b18e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0800
Subject: [PATCH 34/38] fix: detect every overflow when reading integers

---
 parse/read/int.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 2d88c84..8b17477 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -30,7 +30,7 @@ func Int(src *parse.Source) int {
 }
 
 func Int32(src *parse.Source) int32 {
-	c := src.Peek()[0]
+	c := src.Peek1()
 	if c == '-' {
 		src.ConsumeN(1)
 		val := Uint64(src)
@@ -49,7 +49,7 @@ func Int32(src *parse.Source) int32 {
 }
 
 func Int64(src *parse.Source) int64 {
-	c := src.Peek()[0]
+	c := src.Peek1()
 	if c == '-' {
 		src.ConsumeN(1)
 		val := Uint64(src)
@@ -78,13 +78,10 @@ func Uint64(src *parse.Source) uint64 {
 				return value
 			}
 			if value > uint64SafeToMultiple10 {
-				value2 := (value << 3) + (value << 1) + uint64(ind)
-				if value2 < value {
+				if value > math.MaxUint64/10 || value == math.MaxUint64/10 && uint64(ind) > math.MaxUint64%10 {
 					src.ReportError(errors.New("uint64: overflow"))
 					return 0
 				}
-				value = value2
-				continue
 			}
 			value = (value << 3) + (value << 1) + uint64(ind)
 		}
-- 
2.43.0


From c9391f31aed21bcf37064ae8d10e5b1634d65844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:56 +0800
Subject: [PATCH 35/38] fix: read and skip every rune in the given ranges

---
 parse/read/range.go | 22 ++++++++--------------
 parse/skip/range.go | 17 ++++++++---------
 2 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/parse/read/range.go b/parse/read/range.go
index be83a0e..470cab8 100644
--- a/parse/read/range.go
+++ b/parse/read/range.go
@@ -6,7 +6,7 @@ import (
 )
 
 func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -15,28 +15,22 @@ func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []
 		}
 		return space
 	}
+	return space
 }
 
 func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
 				return space
 			}
 		}
-		if len(includes) == 0 {
-			src.ConsumeN(n)
-			space = append(space, r)
-			continue
+		if len(includes) != 0 && !unicode.In(r, includes...) {
+			return space
 		}
-		for _, include := range includes {
-			if unicode.Is(include, r) {
-				src.ConsumeN(n)
-				space = append(space, r)
-				continue
-			}
-		}
-		return space
+		src.ConsumeN(n)
+		space = append(space, r)
 	}
+	return space
 }
diff --git a/parse/skip/range.go b/parse/skip/range.go
index d2286c5..66141e8 100644
--- a/parse/skip/range.go
+++ b/parse/skip/range.go
@@ -7,7 +7,7 @@ import (
 
 func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -16,24 +16,23 @@ func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 		}
 		return count
 	}
+	return count
 }
 
 func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
 				return count
 			}
 		}
-		for _, include := range includes {
-			if unicode.Is(include, r) {
-				src.ConsumeN(n)
-				count += n
-				continue
-			}
+		if len(includes) != 0 && !unicode.In(r, includes...) {
+			return count
 		}
-		return count
+		src.ConsumeN(n)
+		count += n
 	}
+	return count
 }
-- 
2.43.0


From 6fe05047d9fb9aee909a44d80a85a4b1c9578f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:08 +0000
Subject: [PATCH 36/38] fix: show what is wrong with an invalid format instead
 of panicking

---
 msgfmt/custom.go    |  6 +++---
 msgfmt/formatter.go |  9 ++++++---
 msgfmt/parse.go     | 34 +++++++++++++++++++++++-----------
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/msgfmt/custom.go b/msgfmt/custom.go
index 8f48bd3..1a45136 100644
--- a/msgfmt/custom.go
+++ b/msgfmt/custom.go
@@ -35,9 +35,9 @@ func (format *GoTimeFormat) FormatterOf(targetKey string, formatArgs []string, s
 	if len(formatArgs) == 0 {
 		formatArgs = append(formatArgs, time.RFC3339)
 	}
-	for i := 0; i < len(sample); i+= 2{
-		key := sample[i].(string)
-		if key == targetKey {
+	for i := 0; i+1 < len(sample); i+= 2{
+		key, isStr := sample[i].(string)
+		if isStr && key == targetKey {
 			_, isTime := sample[i+1].(time.Time)
 			if !isTime {
 				return nil, fmt.Errorf("%s is not time.Time", targetKey)
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 68d17fa..2cc4516 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -71,9 +71,9 @@ var toFormatter = newLexer(func(l *lexer) {
 })
 
 func findValueIndex(sample []interface{}, target string) int {
-	for i := 0; i < len(sample); i += 2 {
-		key := sample[i].(string)
-		if key == target {
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isStr := sample[i].(string)
+		if isStr && key == target {
 			return i + 1
 		}
 	}
@@ -81,6 +81,9 @@ func findValueIndex(sample []interface{}, target string) int {
 }
 
 func compile(format string, sample []interface{}) Formatter {
+	if format == "" {
+		return fixedFormatter("")
+	}
 	src := parse.NewSourceString(format)
 	src.Attachment = sample
 	formatter := toFormatter.Parse(src, 0)
diff --git a/msgfmt/parse.go b/msgfmt/parse.go
index 4099f66..80f608b 100644
--- a/msgfmt/parse.go
+++ b/msgfmt/parse.go
@@ -1,6 +1,7 @@
 package msgfmt
 
 import (
+	"io"
 	"github.com/v2pro/plz/parse"
 	"unicode"
 	"github.com/v2pro/plz/parse/read"
@@ -36,10 +37,14 @@ func newLexer(initLexer func(l *lexer)) *lexer {
 func (lexer *lexer) Parse(src *parse.Source, precedence int) interface{} {
 	var left interface{}
 	for src.Error() == nil {
+		right := parse.Parse(src, lexer, precedence)
+		if right == nil {
+			break
+		}
 		if left == nil {
-			left = parse.Parse(src, lexer, precedence)
+			left = right
 		} else {
-			left = lexer.merge(left, parse.Parse(src, lexer, precedence))
+			left = lexer.merge(left, right)
 		}
 	}
 	return left
@@ -66,13 +71,18 @@ func (token *leftCurlyToken) PrefixParse(src *parse.Source) interface{} {
 	src.Consume1('{')
 	obj := parse.Parse(src, token.lexer.variable, 0)
 	if src.Error() != nil {
+		src.ReportError(io.ErrUnexpectedEOF)
 		return nil
 	}
 	id, isId := obj.(string)
 	if isId {
 		obj = token.lexer.parseVariable(src, id)
 	}
-	rightFormatter := obj.(Formatter)
+	rightFormatter, isFormatter := obj.(Formatter)
+	if !isFormatter {
+		src.ReportError(errors.New("can not format"))
+		return nil
+	}
 	src.Consume1('}')
 	return rightFormatter
 }
@@ -106,13 +116,13 @@ func (lexer *variableLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 
 func (lexer *variableLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
 	skip.UnicodeSpace(src)
-	switch src.Peek()[0] {
+	switch src.Peek1() {
 	case ',':
 		return lexer.comma, parse.DefaultPrecedence
 	case '}':
 		return nil, 0
 	default:
-		src.ReportError(errors.New("expect , or }, but found " + string([]byte{src.Peek()[0]})))
+		src.ReportError(errors.New("expect , or }, but found " + string([]byte{src.Peek1()})))
 		return nil, 0
 	}
 }
@@ -136,7 +146,10 @@ type commaToken struct {
 
 func (token *commaToken) InfixParse(src *parse.Source, left interface{}) interface{} {
 	src.Consume1(',')
-	funcInvocation := parse.Parse(src, token.lexer.formatter, 0).(funcInvocation)
+	funcInvocation, isFunc := parse.Parse(src, token.lexer.formatter, 0).(funcInvocation)
+	if !isFunc || src.Error() != nil {
+		return nil
+	}
 	return token.lexer.parseFunc(src, left.(string), funcInvocation.name, funcInvocation.args)
 }
 
@@ -156,10 +169,9 @@ func (lexer *formatterLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 	buf, _ := src.PeekN(6)
 	str := string(buf)
 	switch str {
-	case "select":
-		panic("not implemented")
-	case "plural":
-		panic("not implemented")
+	case "select", "plural":
+		src.ReportError(errors.New(str + " is not implemented"))
+		return nil
 	default:
 		return lexer.funcName
 	}
@@ -190,7 +202,7 @@ func (token *funcNameToken) PrefixParse(src *parse.Source) interface{} {
 		case '}':
 			return funcInvocation{name, args}
 		default:
-			src.ReportError(errors.New("expect , or }, but found " + string([]byte{src.Peek()[0]})))
+			src.ReportError(errors.New("expect , or }, but found " + string([]byte{src.Peek1()})))
 			return funcInvocation{name, args}
 		}
 	}
-- 
2.43.0


From b6262b9a552e914a51b02b13e216bbc99ef7db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 37/38] fix: reflect2 fields of embedded structs are where the
 embedded struct is

---
 reflect2/unsafe_field.go  | 33 ++++++++++++++++++++++++++++-----
 reflect2/unsafe_struct.go |  8 ++++----
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/reflect2/unsafe_field.go b/reflect2/unsafe_field.go
index 5eb5313..4bcac5f 100644
--- a/reflect2/unsafe_field.go
+++ b/reflect2/unsafe_field.go
@@ -10,19 +10,36 @@ type UnsafeStructField struct {
 	structType *UnsafeStructType
 	rtype      unsafe.Pointer
 	ptrRType   unsafe.Pointer
+	// offsets of the embedded pointers to follow before adding offset
+	embeddedPtrs []uintptr
+	offset       uintptr
 }
 
-func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField) *UnsafeStructField {
-	return &UnsafeStructField{
+// newUnsafeStructField makes the accessor of the field found by following index from structType.
+// reflect.StructField.Offset is relative to the innermost struct only.
+func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField, index []int) *UnsafeStructField {
+	field := &UnsafeStructField{
 		StructField: structField,
 		rtype:       unpackEFace(structField.Type).data,
 		ptrRType:    unpackEFace(reflect.PtrTo(structField.Type)).data,
 		structType:  structType,
 	}
+	owner := structType.Type
+	for _, i := range index {
+		if owner.Kind() == reflect.Ptr {
+			owner = owner.Elem()
+			field.embeddedPtrs = append(field.embeddedPtrs, field.offset)
+			field.offset = 0
+		}
+		step := owner.Field(i)
+		field.offset += step.Offset
+		owner = step.Type
+	}
+	return field
 }
 
 func (field *UnsafeStructField) Offset() uintptr {
-	return field.StructField.Offset
+	return field.offset
 }
 
 func (field *UnsafeStructField) Name() string {
@@ -58,7 +75,7 @@ func (field *UnsafeStructField) Set(obj interface{}, value interface{}) {
 }
 
 func (field *UnsafeStructField) UnsafeSet(obj unsafe.Pointer, value unsafe.Pointer) {
-	fieldPtr := add(obj, field.StructField.Offset, "same as non-reflect &v.field")
+	fieldPtr := field.UnsafeGet(obj)
 	typedmemmove(field.rtype, fieldPtr, value)
 }
 
@@ -70,5 +87,11 @@ func (field *UnsafeStructField) Get(obj interface{}) interface{} {
 }
 
 func (field *UnsafeStructField) UnsafeGet(obj unsafe.Pointer) unsafe.Pointer {
-	return add(obj, field.StructField.Offset, "same as non-reflect &v.field")
+	for _, offset := range field.embeddedPtrs {
+		obj = *(*unsafe.Pointer)(add(obj, offset, "same as non-reflect &v.embedded"))
+		if obj == nil {
+			panic("indirection through nil pointer to embedded struct: " + field.structType.String())
+		}
+	}
+	return add(obj, field.offset, "same as non-reflect &v.field")
 }
diff --git a/reflect2/unsafe_struct.go b/reflect2/unsafe_struct.go
index f91ef17..07b23a3 100644
--- a/reflect2/unsafe_struct.go
+++ b/reflect2/unsafe_struct.go
@@ -39,15 +39,15 @@ func (type2 *UnsafeStructType) FieldByName(name string) StructField {
 	if !found {
 		return nil
 	}
-	return newUnsafeStructField(type2, structField)
+	return newUnsafeStructField(type2, structField, structField.Index)
 }
 
 func (type2 *UnsafeStructType) Field(i int) StructField {
-	return newUnsafeStructField(type2, type2.Type.Field(i))
+	return newUnsafeStructField(type2, type2.Type.Field(i), []int{i})
 }
 
 func (type2 *UnsafeStructType) FieldByIndex(index []int) StructField {
-	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index))
+	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index), index)
 }
 
 func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructField {
@@ -55,5 +55,5 @@ func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructFi
 	if !found {
 		panic("field match condition not found in " + type2.Type.String())
 	}
-	return newUnsafeStructField(type2, structField)
+	return newUnsafeStructField(type2, structField, structField.Index)
 }
\ No newline at end of file
-- 
2.43.0


From 7850ce727d873b97516aaeb83e903c902355d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 38/38] fix: reflect2 handles unsafe.Pointer like the other
 kinds stored directly in an interface

---
 reflect2/reflect2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index 7cf0365..dae8746 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -183,7 +183,7 @@ func (cfg *frozenConfig) wrapType(type1 reflect.Type) Type {
 			return &safeMapType{safeType}
 		}
 		return newUnsafeMapType(cfg, type1)
-	case reflect.Ptr, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		if cfg.useSafeImplementation {
 			return &safeMapType{safeType}
 		}
@@ -245,7 +245,7 @@ func IsNullable(kind reflect.Kind) bool {
 
 func likePtrKind(kind reflect.Kind) bool {
 	switch kind {
-	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	}
 	return false
-- 
2.43.0

