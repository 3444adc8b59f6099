From 611ef2775433e5c5a7c8a2dc9de8608e34830de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 01/93] fix: memory CXDS Del keeps the object

Del adjusted the statistic but never removed the value from the map, thus a
deleted object was still available and every repeated Del decreased the
statistic again.
---
 data/cxds/memory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/cxds/memory.go b/data/cxds/memory.go
index 1e6a91c..de688eb 100644
--- a/data/cxds/memory.go
+++ b/data/cxds/memory.go
@@ -196,6 +196,7 @@ func (m *memoryCXDS) Del(key cipher.SHA256) (_ error) {
 	m.amountAll--
 	m.voluemAll -= len(mo.val)
 
+	delete(m.kvs, key)
 	return
 }
 
-- 
2.43.0


From b1eab4b7d57b9840d0f90e1cde9d054f930130d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 02/93] fix: CXDS encodeUint32 ignores its argument

It always encoded the Version, and the saved amounts and volumes of the
drive CXDS were lost after reopening.
---
 data/cxds/cxds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index acb4d62..cf495da 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -56,7 +56,7 @@ func versionBytes() []byte {
 
 func encodeUint32(u uint32) (ub []byte) {
 	ub = make([]byte, 4)
-	binary.BigEndian.PutUint32(ub, uint32(Version))
+	binary.BigEndian.PutUint32(ub, u)
 	return
 }
 
-- 
2.43.0


From 25aecd0633f0a7b700dfc0540663a7164aecd018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 03/93] fix: drive CXDS Set ignores the inc creating an object

A new object was created with rc == 1 regardless of the inc argument.
---
 data/cxds/drive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 6dc0d0f..3075b63 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -379,7 +379,7 @@ func (d *driveCXDS) Set(
 			// created
 			d.addAll(len(val))
 
-			rc, err = d.incr(o, key[:], val, 0, 1)
+			rc, err = d.incr(o, key[:], val, 0, inc)
 			return
 		}
 
-- 
2.43.0


From d3de9a24834cc6316c95a122ced8831fb789e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 04/93] fix: drive CXDS Inc drops the error of the update

The transaction function assigned the outer err and returned nil, the
overwritten error was lost and the failed transaction was committed.
---
 data/cxds/drive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 3075b63..8b111c4 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -399,7 +399,7 @@ func (d *driveCXDS) Inc(
 	err error,
 ) {
 
-	var tx = func(tx *bolt.Tx) (_ error) {
+	var tx = func(tx *bolt.Tx) (err error) {
 
 		var (
 			o   = tx.Bucket(objsBucket)
-- 
2.43.0


From c69b91e193add3c53752768241a4ccade401f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 05/93] fix: memory CXDS shares stored values with callers

Changing a slice passed to the Set, or returned by the Get, changed the stored
object, so that it no longer matched its key. The drive CXDS copies.
---
 data/cxds/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/cxds/memory.go b/data/cxds/memory.go
index de688eb..88fa0d2 100644
--- a/data/cxds/memory.go
+++ b/data/cxds/memory.go
@@ -102,7 +102,7 @@ func (m *memoryCXDS) Get(
 	}
 
 	if mo, ok := m.kvs[key]; ok {
-		val, rc = mo.val, mo.rc
+		val, rc = copySlice(mo.val), mo.rc
 		rc = m.incr(key, mo, rc, inc)
 		return
 	}
@@ -146,7 +146,7 @@ func (m *memoryCXDS) Set(
 	m.volumeUsed += len(val)
 
 	rc = uint32(inc)
-	m.kvs[key] = memoryObject{rc, val}
+	m.kvs[key] = memoryObject{rc, copySlice(val)}
 
 	return
 }
-- 
2.43.0


From 7e95c0ddb0d01b59a7ac5627b0dfc58715170a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 06/93] fix: drive CXDS statistic of rolled back transactions

Amounts and volumes were changed inside a transaction. If the transaction
failed (an error of a callback of the IterateDel, for example) the changes of
the database were rolled back, but the statistic was not.
---
 data/cxds/drive.go | 130 +++++++++++++++++++++++++++++----------------
 1 file changed, 84 insertions(+), 46 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 8b111c4..71eeb2d 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -237,15 +237,20 @@ func (d *driveCXDS) saveStat() (err error) {
 
 }
 
-func (d *driveCXDS) av(rc, nrc uint32, vol int) {
+// changes of amounts and volumes made by a transaction
+type statDelta struct {
+	amountAll  int
+	amountUsed int
+	volumeAll  int
+	volumeUsed int
+}
 
-	d.mx.Lock()
-	defer d.mx.Unlock()
+func (s *statDelta) av(rc, nrc uint32, vol int) {
 
 	if rc == 0 { // was dead
 		if nrc > 0 { // an be resurrected
-			d.amountUsed++
-			d.volumeUsed += vol
+			s.amountUsed++
+			s.volumeUsed += vol
 		}
 		return // else -> as is
 	}
@@ -253,13 +258,64 @@ func (d *driveCXDS) av(rc, nrc uint32, vol int) {
 	// rc > 0 (was alive)
 
 	if nrc == 0 { // and be killed
-		d.amountUsed--
-		d.volumeUsed -= vol
+		s.amountUsed--
+		s.volumeUsed -= vol
+	}
+
+}
+
+func (s *statDelta) addAll(vol int) {
+	s.amountAll++
+	s.volumeAll += vol
+}
+
+func (s *statDelta) del(rc uint32, vol int) {
+
+	if rc > 0 {
+		s.amountUsed--
+		s.volumeUsed -= vol
+	}
+
+	s.amountAll--
+	s.volumeAll -= vol
+}
+
+// apply changes of a committed transaction
+func (d *driveCXDS) applyStat(s *statDelta) {
+
+	d.mx.Lock()
+	defer d.mx.Unlock()
+
+	d.amountAll += s.amountAll
+	d.amountUsed += s.amountUsed
+
+	d.volumeAll += s.volumeAll
+	d.volumeUsed += s.volumeUsed
+}
+
+// update performs read-write transaction changing
+// amounts and volumes if the transaction succeeds only
+func (d *driveCXDS) update(
+	txFunc func(tx *bolt.Tx, s *statDelta) error,
+) (
+	err error,
+) {
+
+	var s statDelta
+
+	err = d.b.Update(func(tx *bolt.Tx) error {
+		return txFunc(tx, &s)
+	})
+
+	if err == nil {
+		d.applyStat(&s)
 	}
 
+	return
 }
 
 func (d *driveCXDS) incr(
+	s *statDelta, //   : changes of the stat
 	o *bolt.Bucket, // : objects
 	key []byte, //     : key[:]
 	val []byte, //     : value without leading rc (4 bytes)
@@ -291,7 +347,7 @@ func (d *driveCXDS) incr(
 	err = o.Put(key[:], repl)
 
 	if rc != nrc {
-		d.av(rc, nrc, len(val))
+		s.av(rc, nrc, len(val))
 	}
 
 	return
@@ -308,7 +364,7 @@ func (d *driveCXDS) Get(
 	err error, //         :
 ) {
 
-	var tx = func(tx *bolt.Tx) (err error) {
+	var tx = func(tx *bolt.Tx, s *statDelta) (err error) {
 
 		var (
 			o   = tx.Bucket(objsBucket)
@@ -323,14 +379,16 @@ func (d *driveCXDS) Get(
 		val = make([]byte, len(got)-4)
 		copy(val, got[4:])
 
-		rc, err = d.incr(o, key[:], val, rc, inc)
+		rc, err = d.incr(s, o, key[:], val, rc, inc)
 		return
 	}
 
 	if inc == 0 {
-		err = d.b.View(tx) // lookup only
+		err = d.b.View(func(btx *bolt.Tx) error { // lookup only
+			return tx(btx, nil)
+		})
 	} else {
-		err = d.b.Update(tx) // some changes
+		err = d.update(tx) // some changes
 	}
 
 	return
@@ -340,14 +398,6 @@ func panicf(format string, args ...interface{}) {
 	panic(fmt.Sprintf(format, args...))
 }
 
-func (d *driveCXDS) addAll(vol int) {
-	d.mx.Lock()
-	defer d.mx.Unlock()
-
-	d.amountAll++
-	d.volumeAll += vol
-}
-
 // Set value and its references counter
 func (d *driveCXDS) Set(
 	key cipher.SHA256,
@@ -367,7 +417,7 @@ func (d *driveCXDS) Set(
 		return
 	}
 
-	err = d.b.Update(func(tx *bolt.Tx) (err error) {
+	err = d.update(func(tx *bolt.Tx, s *statDelta) (err error) {
 
 		var (
 			o   = tx.Bucket(objsBucket)
@@ -377,13 +427,13 @@ func (d *driveCXDS) Set(
 		if len(got) == 0 {
 
 			// created
-			d.addAll(len(val))
+			s.addAll(len(val))
 
-			rc, err = d.incr(o, key[:], val, 0, inc)
+			rc, err = d.incr(s, o, key[:], val, 0, inc)
 			return
 		}
 
-		rc, err = d.incr(o, key[:], got[4:], getRefsCount(got), inc)
+		rc, err = d.incr(s, o, key[:], got[4:], getRefsCount(got), inc)
 		return
 	})
 
@@ -399,7 +449,7 @@ func (d *driveCXDS) Inc(
 	err error,
 ) {
 
-	var tx = func(tx *bolt.Tx) (err error) {
+	var tx = func(tx *bolt.Tx, s *statDelta) (err error) {
 
 		var (
 			o   = tx.Bucket(objsBucket)
@@ -416,33 +466,21 @@ func (d *driveCXDS) Inc(
 			return // done
 		}
 
-		rc, err = d.incr(o, key[:], got[4:], rc, inc)
+		rc, err = d.incr(s, o, key[:], got[4:], rc, inc)
 		return
 	}
 
 	if inc == 0 {
-		err = d.b.View(tx) // lookup only
+		err = d.b.View(func(btx *bolt.Tx) error { // lookup only
+			return tx(btx, nil)
+		})
 	} else {
-		err = d.b.Update(tx) // changes required
+		err = d.update(tx) // changes required
 	}
 
 	return
 }
 
-func (d *driveCXDS) del(rc uint32, vol int) {
-
-	d.mx.Lock()
-	defer d.mx.Unlock()
-
-	if rc > 0 {
-		d.amountUsed--
-		d.volumeUsed -= vol
-	}
-
-	d.amountAll--
-	d.volumeAll -= vol
-}
-
 // Del deletes value unconditionally
 func (d *driveCXDS) Del(
 	key cipher.SHA256,
@@ -450,7 +488,7 @@ func (d *driveCXDS) Del(
 	err error,
 ) {
 
-	err = d.b.Update(func(tx *bolt.Tx) (err error) {
+	err = d.update(func(tx *bolt.Tx, s *statDelta) (err error) {
 
 		var (
 			o   = tx.Bucket(objsBucket)
@@ -465,7 +503,7 @@ func (d *driveCXDS) Del(
 			return
 		}
 
-		d.del(getRefsCount(got), len(got)-4)
+		s.del(getRefsCount(got), len(got)-4)
 		return // nil
 	})
 
@@ -509,7 +547,7 @@ func (d *driveCXDS) IterateDel(
 	err error,
 ) {
 
-	err = d.b.Update(func(tx *bolt.Tx) (err error) {
+	err = d.update(func(tx *bolt.Tx, s *statDelta) (err error) {
 
 		var (
 			key cipher.SHA256
@@ -539,7 +577,7 @@ func (d *driveCXDS) IterateDel(
 					return
 				}
 
-				d.del(rc, len(v)-4) // stat
+				s.del(rc, len(v)-4) // stat
 			}
 
 			incSlice(key[:]) // next
-- 
2.43.0


From a418cecafc4c6cfad4029603c9982405c328df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 07/93] fix: IdxDB lengths count nested buckets and miss
 current changes

(bolt.Bucket).Stats counts nested buckets recursively: length of feeds included
heads of the feeds. And it does not see changes of the current transaction.
---
 data/idxdb/drive.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index c4e06d0..bcefd29 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -151,6 +151,17 @@ func (d *driveFeeds) Iterate(iterateFunc data.IterateFeedsFunc) (err error) {
 	return
 }
 
+// number of elements of the bucket including elements
+// changed by current transaction and excluding elements
+// of nested buckets
+func bucketLen(bk *bolt.Bucket) (length int) {
+	var c = bk.Cursor()
+	for k, _ := c.First(); k != nil; k, _ = c.Next() {
+		length++
+	}
+	return
+}
+
 // increment slice
 func incSlice(b []byte) {
 	for i := len(b) - 1; i >= 0; i-- {
@@ -179,7 +190,7 @@ func (d *driveFeeds) Heads(pk cipher.PubKey) (rs data.Heads, err error) {
 }
 
 func (d *driveFeeds) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return bucketLen(d.bk)
 }
 
 type driveHeads struct {
@@ -251,7 +262,7 @@ func (d *driveHeads) Iterate(iterateFunc data.IterateHeadsFunc) (err error) {
 }
 
 func (d *driveHeads) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return bucketLen(d.bk)
 }
 
 type driveRoots struct {
@@ -401,7 +412,7 @@ func (d *driveRoots) Has(seq uint64) (yep bool, _ error) {
 
 // Len returns amount of Root objects
 func (d *driveRoots) Len() int {
-	return d.bk.Stats().KeyN
+	return bucketLen(d.bk)
 }
 
 func utob(u uint64) (p []byte) {
-- 
2.43.0


From 0b76d5f36756285b81f647db6473e4c681e3c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 08/93] fix: IdxDB Heads.Iterate skips heads if the callback
 mutates the DB

The boltdb requires Seek after mutating.
---
 data/idxdb/drive.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index bcefd29..ff362ac 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -246,12 +246,26 @@ func (d *driveHeads) Has(nonce uint64) (ok bool, _ error) {
 // Iterate over heads
 func (d *driveHeads) Iterate(iterateFunc data.IterateHeadsFunc) (err error) {
 
-	var c = d.bk.Cursor()
+	var (
+		c     = d.bk.Cursor()
+		nonce = make([]byte, 8)
+	)
+
+	// we have to Seek(next) instead of using Next
+	// because we allows mutations during the iteration
+	for nonceb, _ := c.First(); nonceb != nil; nonceb, _ = c.Seek(nonce) {
 
-	for nonceb, _ := c.First(); nonceb != nil; nonceb, _ = c.Next() {
-		if err = iterateFunc(nonceFromBytes(nonceb)); err != nil {
+		copy(nonce, nonceb)
+
+		if err = iterateFunc(nonceFromBytes(nonce)); err != nil {
 			break
 		}
+
+		incSlice(nonce)
+
+		if nonceFromBytes(nonce) == 0 {
+			break // it was the last possible nonce
+		}
 	}
 
 	if err == data.ErrStopIteration {
-- 
2.43.0


From 29c9cd116d486a4ac35cbd663faa42466d4a49fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 09/93] fix: IdxDB Roots.Ascend never ends

If seq of a Root is max uint64, then next seq is zero and the Ascend starts from
the beginning.
---
 data/idxdb/drive.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index ff362ac..8cedf52 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -309,7 +309,10 @@ func (d *driveRoots) Ascend(iterateFunc data.IterateRootsFunc) (err error) {
 			return
 		}
 
-		seq++
+		if seq++; seq == 0 {
+			return // it was the last possible seq
+		}
+
 		binary.BigEndian.PutUint64(sb, seq)
 		seqb = sb
 	}
-- 
2.43.0


From 9b464f765cc9a5aea97dc55cee1625136dc83e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 10/93] fix: -debug-pins flag has no effect

The FromFlags copies value of the flag before flag.Parse call.
---
 node/log/log.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index a8784de..40f2428 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -52,14 +52,10 @@ func (c *Config) FromFlags() {
 		c.Debug,
 		"print debug logs")
 
-	var pins uint
-
-	flag.UintVar(&pins,
+	flag.UintVar((*uint)(&c.Pins),
 		"debug-pins",
 		uint(c.Pins),
 		"debug pins (default all)")
-
-	c.Pins = Pin(pins)
 }
 
 // A Logger is similar to log.Logger with Debug methods.
-- 
2.43.0


From 218d3a568a101815ff8eb428c386c2b225d96807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 11/93] fix: Error and Errorln print arguments as a slice

---
 node/log/log.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index 40f2428..678c7bb 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -183,15 +183,15 @@ func (l *logger) Error(err error, args ...interface{}) {
 		"[ERR] ",
 		fmt.Sprintf("err=%s ", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprint(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorln(err error, args ...interface{}) {
 	errArgs := []interface{}{
-		"[ERR] ",
-		fmt.Sprintf("err=%s ", err),
+		"[ERR]",
+		fmt.Sprintf("err=%s", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprintln(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorf(err error, format string, args ...interface{}) {
-- 
2.43.0


From 819dcdf2d1a7da617392a4f2cf4df8ea73784983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 12/93] fix: Errorf treats text of the error as a part of the
 format

---
 node/log/log.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index 678c7bb..640d456 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -195,8 +195,8 @@ func (l *logger) Errorln(err error, args ...interface{}) {
 }
 
 func (l *logger) Errorf(err error, format string, args ...interface{}) {
-	format = "[ERR] " + fmt.Sprintf("err=%s ", err) + format
-	l.Output(2, fmt.Sprintf(format, args...))
+	l.Output(2, "[ERR] "+fmt.Sprintf("err=%s ", err)+
+		fmt.Sprintf(format, args...))
 }
 
 func (l *logger) Pins() Pin {
-- 
2.43.0


From 787dc2c3912298b688770efa3025024143b82a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 13/93] fix: rolling average is not mean of the last samples

While there are less than n samples, the previous average was treated as average
of the increased amount of samples.
---
 skyobject/statutil/average.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/skyobject/statutil/average.go b/skyobject/statutil/average.go
index 783117e..c1cedca 100644
--- a/skyobject/statutil/average.go
+++ b/skyobject/statutil/average.go
@@ -45,9 +45,9 @@ func NewDuration(n int) (d *Duration) {
 	d = new(Duration)
 
 	var (
-		bins    = make([]float64, n)
-		average float64
-		i, c    int
+		bins = make([]float64, n)
+		sum  float64
+		i, c int
 	)
 
 	d.roll = func(dur time.Duration) time.Duration {
@@ -60,11 +60,11 @@ func NewDuration(n int) (d *Duration) {
 
 		var x = float64(dur)
 
-		average += (x - bins[i]) / float64(c)
+		sum += x - bins[i]
 		bins[i] = x
 		i = (i + 1) % n
 
-		d.last = time.Duration(average)
+		d.last = time.Duration(sum / float64(c))
 		return d.last
 	}
 
@@ -106,9 +106,9 @@ func NewFloat(n int) (f *Float) {
 	f = new(Float)
 
 	var (
-		bins    = make([]float64, n)
-		average float64
-		i, c    int
+		bins = make([]float64, n)
+		sum  float64
+		i, c int
 	)
 
 	f.roll = func(dur float64) float64 {
@@ -121,12 +121,12 @@ func NewFloat(n int) (f *Float) {
 
 		var x = float64(dur)
 
-		average += (x - bins[i]) / float64(c)
+		sum += x - bins[i]
 		bins[i] = x
 		i = (i + 1) % n
 
-		f.last = average
-		return average
+		f.last = sum / float64(c)
+		return f.last
 	}
 
 	return
-- 
2.43.0


From a58ef560b1a388512164ab31cb79f0a79bad202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 14/93] fix: a received Root can be of another feed

The signature is checked using public key of the feed the Root was sent for, but
the Root keeps its own feed. A remote peer was able to sign a Root of a foreign
feed using its own key.
---
 skyobject/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index e7d0cf6..214cee3 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -260,6 +260,11 @@ func (i *Index) receivedRoot(
 		return
 	}
 
+	// the signature belongs to the pk only
+	if r.Pub != pk {
+		return nil, errors.New("unexpected feed of received Root: " + r.Short())
+	}
+
 	r.Hash = hash // set the hash
 	r.Sig = sig   // set the signature
 
-- 
2.43.0


From cbfaec2fc48f4d9d1c8abaa67b2f9580f7620516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 15/93] fix: old Root replaces last Root of the Index

The findRoot returns nil if the Root is not found, thus last Root should be
obtained from the Index.
---
 skyobject/index.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 214cee3..678760e 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -397,16 +397,16 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 		return
 	}
 
-	if ir != nil && r.Seq < ir.Seq {
+	// add to the Index
+
+	var hs = i.feeds[r.Pub]
+
+	if last := hs.h[r.Nonce]; last != nil && r.Seq < last.Seq {
 		// don't add to the Index the fucking, old,
 		// outdated, never need, nobody need Root
 		return
 	}
 
-	// add to the Index
-
-	var hs = i.feeds[r.Pub]
-
 	// replace the last
 
 	hs.h[r.Nonce] = dr
-- 
2.43.0


From f41c2d63eb45b1927231a1272c31bb4e44b7df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 16/93] fix: AddHead removes all other heads from the Index

---
 skyobject/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 678760e..cb009cf 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -1040,7 +1040,7 @@ func (i *Index) AddHead(pk cipher.PubKey, nonce uint64) (err error) {
 
 	// add to the Index
 
-	i.feeds[pk] = newIndexHeads()
+	hs.h[nonce] = nil // blank head
 	return
 
 }
-- 
2.43.0


From 45b5c748e9f036bfa27dcf073f008ce8651ca1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 17/93] fix: active head of the Index is stale

Deleting of a head or last Root doesn't change the active head. Also, the
setActive panics if there is a blank head.
---
 skyobject/index.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index cb009cf..f073255 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -34,6 +34,10 @@ func (i *indexHeads) setActive() {
 
 	for nonce, dr := range i.h {
 
+		if dr == nil {
+			continue // blank head
+		}
+
 		if i.activet < dr.Time {
 			i.activet = dr.Time
 			i.activen = nonce
@@ -714,6 +718,11 @@ func (i *Index) delHead(
 
 	delete(hs.h, nonce)
 
+	// change active head if it has been deleted
+	if hs.activen == nonce {
+		hs.setActive()
+	}
+
 	return
 
 }
@@ -845,7 +854,7 @@ func (i *Index) delRoot(
 	}
 
 	// cahnge active head if the Root is last for active head
-	if ir.Time == hs.activet {
+	if replaced == true && hs.activen == nonce {
 		hs.setActive()
 	}
 
-- 
2.43.0


From d668778cd15fcf4ed73849dfdb5669f3306ccc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 18/93] fix: active head if last Root is older then previous
 one

The active head is head with newest last Root. If the last Root replaced with Root
that has smaller timestamp, then another head can be active.
---
 skyobject/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index f073255..8562c01 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -418,6 +418,8 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 	if hs.activet < r.Time {
 		hs.activet = r.Time
 		hs.activen = r.Nonce
+	} else if hs.activen == r.Nonce {
+		hs.setActive()
 	}
 
 	// add to stat
@@ -440,6 +442,8 @@ func (i *Index) addSavedRoot(r *registry.Root, dr *data.Root) {
 	if hs.activet < r.Time {
 		hs.activet = r.Time
 		hs.activen = r.Nonce
+	} else if hs.activen == r.Nonce {
+		hs.setActive()
 	}
 
 	// add to stat
-- 
2.43.0


From 95a2482e443e2d4f39d53ba9e0129c8d05e9fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 19/93] fix: nil-pointer dereference if last Root is missing in
 CXDS

---
 skyobject/index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 8562c01..a9329d1 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -571,7 +571,9 @@ func (i *Index) LastRoot(
 		return
 	}
 
-	r, err = i.c.rootByHash(lr.Hash)
+	if r, err = i.c.rootByHash(lr.Hash); err != nil {
+		return
+	}
 
 	r.IsFull = true
 	r.Sig = lr.Sig
-- 
2.43.0


From 774d0cdb3eb4391ce47102f8ce69d5d2ec3da6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 20/93] fix: the Cache can't be cleaned if there is a wanted or
 filling item

---
 skyobject/cache.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 3bf3693..eb3354d 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -338,11 +338,11 @@ func (c *Cache) cleanDown(vol int) (err error) {
 	for key, it := range c.is {
 
 		if it.isWanted() == true {
-			return // skip wanted
+			continue // skip wanted
 		}
 
 		if it.isFilling() == true {
-			return // skip filling (where val is nil)
+			continue // skip filling (where val is nil)
 		}
 
 		rank = append(rank, &rankItem{key, it})
@@ -360,28 +360,22 @@ func (c *Cache) cleanDown(vol int) (err error) {
 
 	if c.amount+1 > c.c.conf.CacheMaxAmount {
 
-		var (
-			i  int       // to reduce the rank slice
-			ri *rankItem // for the range (we need the i)
-		)
-
-		for i, ri = range rank {
+		for len(rank) > 0 {
 
 			if c.amount < c.amountc { // actually, `amount + 1 == ...`
 				break
 			}
 
 			// delete item from the Cache
-			if err = c.delete(ri.key, ri.it); err != nil {
+			if err = c.delete(rank[0].key, rank[0].it); err != nil {
 				return // fail on first error
 			}
 
-			rank[i].it = nil // GC
+			rank[0].it = nil // GC
+			rank = rank[1:]  // shift
 
 		}
 
-		rank = rank[i:] // shift
-
 	}
 
 	// clean by volume if need
-- 
2.43.0


From 48e77a7842f516fffb9b068cfcd1a07e7882bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 21/93] fix: cache of registries evicts most recently used
 registry

Also, the cache of registries should be turned off if the CacheRegistries is 0.
---
 skyobject/cache.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index eb3354d..9898679 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -180,10 +180,13 @@ func (c *Cache) addRegistryToCache(r *registry.Registry) {
 			tormp cachePoints          // points
 		)
 
+		var first = true
+
 		for rr, ir := range c.rs {
-			if ir.cachePoints > tormp {
+			if first == true || ir.cachePoints < tormp {
 				tormr = rr
 				tormp = ir.cachePoints
+				first = false
 			}
 		}
 
@@ -245,7 +248,7 @@ func (c *Cache) Registry(
 		return
 	}
 
-	if c.c.conf.CacheRegistries >= 0 {
+	if c.c.conf.CacheRegistries > 0 {
 		c.addRegistryToCache(r)
 	}
 
-- 
2.43.0


From cae27c87b398f3750012019d9e31ff7c847e7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 22/93] fix: closing of the Cache decrements values that was
 never received

A wanted item is not in DB, but its incs was subtracted, and the ErrNotFound
terminates the syncing.
---
 skyobject/cache.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 9898679..7c5a506 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -265,12 +265,10 @@ func (c *Cache) Close() (err error) {
 	// sync items
 	for key, it := range c.is {
 
-		// make wanted items filling
+		// wanted items are not in DB
 		if it.isWanted() == true {
-			for _, winc := range it.fwant {
-				it.fc += winc
-			}
-			it.fwant = nil
+			delete(c.is, key)
+			continue
 		}
 
 		it.cc -= it.fc // remove all fincs
-- 
2.43.0


From d20f569b39660da369ddc1fb6196be4e1ff797f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 23/93] fix: the Cache drops DB errors deleting an item

---
 skyobject/cache.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 7c5a506..d98553a 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -572,7 +572,9 @@ func (c *Cache) getNoCache(
 
 		// remove item if it's cc is zero
 		if it.cc = incr(it.cc, inc); it.cc == 0 {
-			c.delete(key, it)
+			if err = c.delete(key, it); err != nil {
+				return
+			}
 		} else {
 			c.stat.addCacheGet(inc) // effective cache get
 		}
@@ -623,7 +625,9 @@ func (c *Cache) get(
 
 		// remove item if it's cc is zero
 		if it.cc = incr(it.cc, inc); it.cc == 0 {
-			c.delete(key, it)
+			if err = c.delete(key, it); err != nil {
+				return
+			}
 		} else {
 			c.stat.addCacheGet(inc) // effective cache get
 			it.touch(c.c.conf.CachePolicy)
@@ -823,7 +827,9 @@ func (c *Cache) Set(
 
 		// remove item if it's cc is zero
 		if it.cc = incr(it.cc, inc); it.cc == 0 {
-			c.delete(key, it) // not effective cache set
+			if err = c.delete(key, it); err != nil {
+				return // not effective cache set
+			}
 		} else {
 			c.stat.addWritingCacheRequest() // effective cache set
 			it.touch(c.c.conf.CachePolicy)
@@ -905,7 +911,9 @@ func (c *Cache) incItem(
 
 	// remove item if it's cc is zero
 	if it.cc = incr(it.cc, inc); it.cc == 0 {
-		c.delete(key, it)
+		if err = c.delete(key, it); err != nil {
+			return
+		}
 	} else {
 		c.stat.addCacheGet(inc) // effective cache get
 		it.touch(c.c.conf.CachePolicy)
-- 
2.43.0


From 4ecafcc3f8e8ada20055f4963ddd38dbd297dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 24/93] fix: (Cache).Inc returns zero if the value is not
 cached

---
 skyobject/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index d98553a..2961ae6 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -959,7 +959,8 @@ func (c *Cache) inc(
 		return
 	}
 
-	err = c.putItem(key, val, int(urc))
+	rc = int(urc)
+	err = c.putItem(key, val, rc)
 	return
 
 }
-- 
2.43.0


From 61ab19f3235e966b0130761c32a5f4749172f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 25/93] fix: fillers incs of a cached item are not saved

The Want increments fillers incs of the item, but doesn't increment its rc.
---
 skyobject/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 2961ae6..85b3876 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1046,6 +1046,7 @@ func (c *Cache) Want(
 		// regular item in the cache
 
 		it.fc += inc
+		it.cc += inc
 		sendWanted(gc, Object{key, it.val, it.cc - it.fc, nil})
 
 		if inc == 0 {
-- 
2.43.0


From d3466553cc1aa8a418547d8b4f7d06655ee1d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 26/93] fix: the Cache panics if a value is wanted with zero
 inc

The Set method of the CXDS panics if the inc is not positive. If a peer only wants
a value, then the value is not saved.
---
 skyobject/cache.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 85b3876..2c61415 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -741,6 +741,24 @@ func (c *Cache) setWanted(
 		wincs += winc
 	}
 
+	// nobody holds the value, just send it without saving
+	if inc+wincs == 0 {
+
+		var obj = Object{key, val, 0, nil}
+
+		for gc := range it.fwant {
+			sendWanted(gc, obj)
+		}
+
+		it.fwant = nil
+
+		if it.fc == 0 {
+			delete(c.is, key)
+		}
+
+		return
+	}
+
 	// save
 	var urc uint32
 	urc, err = c.db().Set(key, val, inc+wincs)
-- 
2.43.0


From c64429ac56a0bd85d12f703b4e14b16960ecfa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 27/93] fix: rejected filling items stay in the Cache forever

---
 skyobject/cache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 2c61415..fe5c4bf 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1244,5 +1244,11 @@ func (c *Cache) Finc(
 	// incItem removes it
 
 	_, err = c.incItem(key, inc, it) // in db
+
+	// not wanted, not filling, not regular
+	if it.fc == 0 && it.isWanted() == false && len(it.val) == 0 {
+		delete(c.is, key)
+	}
+
 	return
 }
-- 
2.43.0


From a2b3d9045d2276fff735630622cbfd986318cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 28/93] fix: limit of parallel subtrees of the Filler

The limit was released before the task. And the Filler without the limit blocked
forever.
---
 skyobject/fill.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index 82f7622..9ec7a28 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -253,6 +253,12 @@ func (f *Filler) acquire() (parall bool) {
 
 }
 
+func (f *Filler) release() {
+	if f.limit != nil {
+		<-f.limit
+	}
+}
+
 // Go performs some task dependig on parallelism.
 func (f *Filler) Go(fn func()) {
 
@@ -263,7 +269,7 @@ func (f *Filler) Go(fn func()) {
 		f.await.Add(1)
 		go func() {
 			defer f.await.Done()
-			<-f.limit // release
+			defer f.release()
 			fn()
 		}()
 
-- 
2.43.0


From 0fc39102b32fe60707d8178f1ee55a86ec555a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 29/93] fix: failed or terminated filling can be treated as
 full

The select of the Run chooses one of ready channels randomly. And the Fail can
drop the error if the Filler is closed, or block the Run if many subtrees fail.
---
 skyobject/fill.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index 9ec7a28..c3b691d 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -75,6 +75,7 @@ func (f *Filler) get(
 
 	// requset the object using the rq channel
 	if f.requset(key) == false {
+		err = ErrTerminated
 		return
 	}
 
@@ -140,7 +141,7 @@ func (f *Filler) Get(key cipher.SHA256) (val []byte, rc int, err error) {
 func (f *Filler) Fail(err error) {
 	select {
 	case f.errq <- err:
-	case <-f.closeq:
+	default: // keep first error
 	}
 }
 
@@ -326,8 +327,12 @@ func (f *Filler) Run() (err error) {
 	select {
 	case err = <-f.errq:
 	case <-done:
-		f.r.IsFull = true // full!
-		_, err = f.c.AddRoot(f.r)
+		select {
+		case err = <-f.errq:
+		default:
+			f.r.IsFull = true // full!
+			_, err = f.c.AddRoot(f.r)
+		}
 	}
 
 	f.Close()
-- 
2.43.0


From a9cb934c0d00e6395f7c71e21922e43aa86d3a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 30/93] fix: incs of the Filler are not conserved

If DB has a value then the Filler increments its hard rc, but applies or rejects
filling rc. Thus, a failed filling never decrements the values back, or decrements
incs of another filler. The Want method handles both cases. Also, incs of values
received while the Filler closing was lost.
---
 skyobject/fill.go | 79 +++++++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 27 deletions(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index c3b691d..7096196 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/skycoin/skycoin/src/cipher"
 
-	"github.com/skycoin/cxo/data"
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
@@ -51,27 +50,34 @@ func (f *Filler) get(
 	err error,
 ) {
 
-	// try to get from DB first
-	val, rc, err = f.c.Get(key, inc) // incrementing the rc to hold the object
-
-	if err == nil {
-		if inc > 0 {
-			rc = f.inc(key, rc) // ++
-		}
-		return
-	}
+	var gc = make(chan Object, 1) // wait for the object
 
-	if err != data.ErrNotFound {
+	// get from DB, incrementing the rc to hold the object, or wait for it
+	if err = f.c.Want(key, gc, inc); err != nil {
 		fatal("DB failure:", err) // fatality
 	}
 
-	err = nil // clear if it's data.ErrNotFound
+	// to be memory safe; and if the Filler has been terminated,
+	// then the incs should be kept to be rejected after
+	defer func() {
+		f.c.Unwant(key, gc)
 
-	// not found
-	var gc = make(chan Object, 1) // wait for the object
+		select {
+		case obj := <-gc:
+			if obj.Err == nil && inc > 0 {
+				f.inc(key, obj.RC)
+			}
+		default:
+		}
+	}()
 
-	f.c.Want(key, gc, inc)
-	defer f.c.Unwant(key, gc) // to be memory safe
+	// DB has the object
+
+	select {
+	case obj := <-gc:
+		return f.received(key, obj, inc)
+	default:
+	}
 
 	// requset the object using the rq channel
 	if f.requset(key) == false {
@@ -81,15 +87,7 @@ func (f *Filler) get(
 
 	select {
 	case obj := <-gc:
-		if err = obj.Err; err != nil {
-			return
-		}
-		val = obj.Val
-		if inc > 0 {
-			rc = f.inc(key, obj.RC)
-		} else {
-			rc = obj.RC
-		}
+		return f.received(key, obj, inc)
 	case <-f.closeq:
 		err = ErrTerminated
 	}
@@ -97,6 +95,30 @@ func (f *Filler) get(
 	return
 }
 
+// the rc is hard rc plus the inc
+func (f *Filler) received(
+	key cipher.SHA256,
+	obj Object,
+	inc int,
+) (
+	val []byte,
+	rc int,
+	err error,
+) {
+
+	if err = obj.Err; err != nil {
+		return
+	}
+
+	val, rc = obj.Val, obj.RC+inc
+
+	if inc > 0 {
+		rc = f.inc(key, rc) // ++
+	}
+
+	return
+}
+
 // Pre used to prerequest an item to get it late. The Get increments
 // filling rc in the Cache. And to not increment the rc twice for
 // an item this method used. The method doesn't return value, because
@@ -293,12 +315,15 @@ func (f *Filler) Run() (err error) {
 		return
 	}
 
-	f.inc(f.r.Hash, 0) // increment
-
 	defer func() {
 		if err != nil {
 			f.r.IsFull = false // reset
 			f.reject()
+
+			// the Root is saved above
+			if _, ierr := f.c.Inc(f.r.Hash, -1); ierr != nil {
+				panic("DB failure: " + ierr.Error())
+			}
 		} else {
 			f.apply()
 		}
-- 
2.43.0


From eaece2938cd88f273aeb845d0d3eb9af1d092fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 31/93] fix: Split skips nodes of Refs that belong to another
 filler

The rc is hard rc plus inc of the Splitter, like rc of the Get method.
---
 skyobject/registry/split_refs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/split_refs.go b/skyobject/registry/split_refs.go
index 92c4039..f5e82a8 100644
--- a/skyobject/registry/split_refs.go
+++ b/skyobject/registry/split_refs.go
@@ -34,7 +34,8 @@ func (*fakePack) AddFlags(Flags)         { panic("fake method called") }
 func (*fakePack) ClearFlags(Flags)       { panic("fake method called") }
 
 // get and cache value, and return true
-// if hard rc of value is zero
+// if the value doesn't belong to a full
+// Root, and if it's not walked yet
 func (r *Refs) splitHash(
 	fp *fakePack, //       :
 	hash cipher.SHA256, // :
@@ -49,7 +50,7 @@ func (r *Refs) splitHash(
 		return
 	}
 
-	return (rc == 0) // laod if hard rc == 0
+	return (rc <= 1) // load it, see also splitSchemaHash
 }
 
 // Split used by the node package to fill the Dynamic.
-- 
2.43.0


From 96d9ab1d82f1e9629bf0bd62f8d437751a76a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 32/93] fix: Save decrements objects that are used

If an object is set twice then it was treated as already existing and its
subtree was not walked.
---
 skyobject/unpack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 5cc816c..771128c 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -47,7 +47,11 @@ func (u *Unpack) Set(key cipher.SHA256, val []byte) (err error) {
 	}
 
 	ui.inc++
-	ui.created = (rc == 1)
+
+	// if it's set many times, then it's created anyway
+	if rc == 1 {
+		ui.created = true
+	}
 
 	return
 }
-- 
2.43.0


From dda82e766748d88a3308b4dffcab57513cc9488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 33/93] fix: Save doesn't increment objects used many times

If an object is used more times then it was saved, then its rc was less then
number of its owners. And deleting of one of them deletes the object. Subtree of an
object should be walked once, because the object is saved once.
---
 skyobject/unpack.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 771128c..b845443 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -184,7 +184,7 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 			// values in CXDS actual
 
 			ui.dec++ // used
-			deepper = ui.created
+			deepper = ui.created && ui.dec == 1
 			return
 
 		})
@@ -231,8 +231,8 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 
 		var inc = ui.dec - ui.inc
 
-		if inc < 0 {
-			// decrement
+		if inc != 0 {
+			// increment or decrement
 			if _, err = c.Inc(key, inc); err != nil {
 				return // leave the CXDS broken if an error occurred
 			}
-- 
2.43.0


From ed00098e500ee8fbbee2ceae1a3c9febffd5b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 34/93] fix: Save adds a Root to the Index before saving it in
 CXDS

If saving of the Root or its Registry fails, then the Index contains Root that
doesn't exist.
---
 skyobject/unpack.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index b845443..46dd549 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -202,22 +202,10 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 		return data.ErrNoSuchFeed
 	}
 
-	// save into Index and IdxDB
-	var val []byte
+	// save the Root and the Registry in CXDS, and the
+	// Root in Index and IdxDB
 
-	if val, err = c.Index.saveRoot(up, r); err != nil {
-		return
-	}
-
-	// save the Root in CXDS
-
-	if err = up.Set(r.Hash, val); err != nil {
-		return
-	}
-
-	// save registry
-
-	if err = up.Set(cipher.SHA256(r.Reg), up.Registry().Encode()); err != nil {
+	if err = c.Index.saveRoot(up, r); err != nil {
 		return
 	}
 
@@ -249,14 +237,12 @@ func (i *Index) saveRoot(
 	up *Unpack,
 	r *registry.Root,
 ) (
-	val []byte,
 	err error,
 ) {
 
 	i.mx.Lock()
 	defer i.mx.Unlock()
 
-	// val []byte --> encoded Root
 	var dr = new(data.Root)
 
 	err = i.c.db.IdxDB().Tx(func(fs data.Feeds) (err error) {
@@ -296,7 +282,7 @@ func (i *Index) saveRoot(
 
 		// hash of the Root
 
-		val = r.Encode()
+		var val = r.Encode()
 		r.Hash = cipher.SumSHA256(val)
 		r.IsFull = true
 
@@ -306,6 +292,20 @@ func (i *Index) saveRoot(
 			return err
 		}
 
+		// save the Root in CXDS
+
+		if err = up.Set(r.Hash, val); err != nil {
+			return
+		}
+
+		// save registry
+
+		err = up.Set(cipher.SHA256(r.Reg), up.Registry().Encode())
+
+		if err != nil {
+			return
+		}
+
 		dr.Seq = r.Seq
 		dr.Prev = r.Prev
 		dr.Hash = r.Hash
-- 
2.43.0


From 749116bee203a03c97bec4ba51fd8a9f1e40c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 35/93] fix: checking of sizes deadlocks with memory CXDS

---
 skyobject/container.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index 6e3a5bd..1326f8e 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -231,11 +231,7 @@ func (c *Container) checkSize() (err error) {
 	}
 
 	err = c.db.CXDS().Iterate(
-		func(key cipher.SHA256, _ uint32, _ []byte) (err error) {
-			var val []byte
-			if val, _, err = c.db.CXDS().Get(key, 0); err != nil {
-				return
-			}
+		func(key cipher.SHA256, _ uint32, val []byte) (err error) {
 			if len(val) > c.conf.MaxObjectSize {
 				return &ObjectIsTooLargeError{key}
 			}
-- 
2.43.0


From 72b8465015e672852d504b33fedafb43b9d97b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 36/93] fix: NewContainer panics instead of returning error

---
 skyobject/container.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index 1326f8e..e27240c 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -62,8 +62,15 @@ func NewContainer(conf *Config) (c *Container, err error) {
 
 	defer func() {
 		if err != nil {
-			c.db.Close()         // ignore error
-			c.Cache.stat.Close() // release resources
+			c.db.Close() // ignore error
+
+			// release resources
+			if c.Cache.stat != nil {
+				c.Cache.stat.Close()
+			}
+			if c.Index.stat != nil {
+				c.Index.stat.Close()
+			}
 		}
 	}()
 
-- 
2.43.0


From 5906e2b544a896aa6817d62030bba681fa80ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 37/93] fix: nil-pointer dereference if stored Root can't be
 decoded

---
 skyobject/container.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index e27240c..59674d5 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -321,7 +321,10 @@ func (c *Container) rootByHash(
 		return
 	}
 
-	r, err = registry.DecodeRoot(val)
+	if r, err = registry.DecodeRoot(val); err != nil {
+		return
+	}
+
 	r.Hash = hash
 	return
 }
-- 
2.43.0


From eec237fd55b9c3d4356b7a36c3c0961cea45b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 38/93] fix: Close of the Container doesn't close the Index

---
 skyobject/container.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skyobject/container.go b/skyobject/container.go
index 59674d5..647c3db 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -360,6 +360,8 @@ func (c *Container) RootByHash(
 // with user-provided DB.
 func (c *Container) Close() (err error) {
 
+	c.Index.Close() // never returns error
+
 	// the Cache.Close closes CXDS
 	if err = c.Cache.Close(); err == nil {
 		err = c.db.Close()
-- 
2.43.0


From 60b773fdbf8fb528fd7ace856b6f09758b39c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 39/93] fix: statistic panics if there is a blank head

---
 skyobject/stat.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/stat.go b/skyobject/stat.go
index 00e95a6..181fcc0 100644
--- a/skyobject/stat.go
+++ b/skyobject/stat.go
@@ -151,6 +151,7 @@ func (i *Index) feedsStat() (s map[cipher.PubKey]FeedStat) {
 
 				if last == nil {
 					sf.Heads[nonce] = sh // blank head
+					continue
 				}
 
 				if roots, err = heads.Roots(nonce); err != nil {
-- 
2.43.0


From 475dfdb773f4dacf0c1b1ca7c74b8cb581865986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 40/93] fix: Preview requests objects the DB already has

---
 skyobject/preview.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skyobject/preview.go b/skyobject/preview.go
index 270f4b2..bce0a2f 100644
--- a/skyobject/preview.go
+++ b/skyobject/preview.go
@@ -47,7 +47,9 @@ func (p *Preview) Get(key cipher.SHA256) (val []byte, err error) {
 		return // alrady received
 	}
 
-	if val, err = p.Pack.Get(key); err != nil && err != data.ErrNotFound {
+	if val, err = p.Pack.Get(key); err == nil {
+		return // got it
+	} else if err != data.ErrNotFound {
 		return // db failure
 	}
 
-- 
2.43.0


From 001e2cc59be1ced08a8c74401b0ede6b916affbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 41/93] fix: NewConfig ignores defaults of CacheRegistries and
 MaxFillingParallel

---
 skyobject/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skyobject/config.go b/skyobject/config.go
index 80348b4..aa8fcbb 100644
--- a/skyobject/config.go
+++ b/skyobject/config.go
@@ -216,11 +216,14 @@ func NewConfig() (conf *Config) {
 	conf.CacheMaxAmount = CacheMaxAmount
 	conf.CacheMaxVolume = CacheMaxVolume
 	conf.CachePolicy = LRU
+	conf.CacheRegistries = CacheRegistries
 	conf.CacheCleaning = CacheCleaning
 	conf.CacheMaxItemSize = CacheMaxItemSize
 
 	conf.MaxObjectSize = MaxObjectSize
 
+	conf.MaxFillingParallel = MaxFillingParallel
+
 	// data dir
 	conf.DataDir = DataDir()
 
-- 
2.43.0


From a9492ac4e8e957128f592a0244e753f70e0fb423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 42/93] fix: invalid encoded Registry panics the decoder

A Registry is received from a remote peer. Errors of decoding of schemas
was ignored, a missing schema was a panic, and a schema that contains
itself caused infinity recursion.
---
 skyobject/registry/registry.go | 86 +++++++++++++++++++++++++++-------
 1 file changed, 69 insertions(+), 17 deletions(-)

diff --git a/skyobject/registry/registry.go b/skyobject/registry/registry.go
index 2803ada..e1cb161 100644
--- a/skyobject/registry/registry.go
+++ b/skyobject/registry/registry.go
@@ -51,12 +51,16 @@ func DecodeRegistry(b []byte) (r *Registry, err error) {
 	r = newRegistry()
 
 	for _, re := range res {
-		s, err = decodeSchema(re.Schema)
+		if s, err = decodeSchema(re.Schema); err != nil {
+			return nil, err
+		}
 		r.reg[re.Name] = s
-		r.srf[s.Reference()] = s
 	}
 
-	r.finialize()
+	if err = r.finialize(); err != nil {
+		return nil, err
+	}
+
 	return
 }
 
@@ -78,7 +82,10 @@ func NewRegistry(cl func(t *Reg)) (r *Registry) {
 	r.nt = make(map[string]reflect.Type)
 
 	r.register(reg)
-	r.finialize()
+
+	if err := r.finialize(); err != nil {
+		panic(err) // for developers
+	}
 
 	return
 }
@@ -150,25 +157,29 @@ func (r *Registry) register(reg *Reg) {
 
 // set proper references for schemas that has references to
 // another schemas, such as arrays, slices and structs
-func (r *Registry) fillSchema(s Schema, filled map[Schema]struct{}) {
+func (r *Registry) fillSchema(
+	s Schema, //                    : schema to fill
+	filled map[Schema]struct{}, //  : already filled
+) (
+	err error, //                   : missing or invalid schema
+) {
 	if _, ok := filled[s]; ok {
 		return // already
 	}
 	filled[s] = struct{}{} // filling
-	var err error
 	if s.IsReference() {
 		switch s.ReferenceType() {
 		case ReferenceTypeSingle, ReferenceTypeSlice:
 			x := s.(*referenceSchema)
 			x.elem, err = r.schemaByName(x.elem.Name())
 			if err != nil {
-				panic(err)
+				return
 			}
-			r.fillSchema(x.elem, filled)
+			return r.fillSchema(x.elem, filled)
 		case ReferenceTypeDynamic:
 			// do nothing
 		default:
-			panic("invalid reference: " + s.String())
+			err = ErrInvalidSchema
 		}
 		return
 	}
@@ -178,32 +189,63 @@ func (r *Registry) fillSchema(s Schema, filled map[Schema]struct{}) {
 		if s.Elem().IsRegistered() {
 			x.elem, err = r.schemaByName(s.Elem().Name())
 			if err != nil {
-				panic(err)
+				return
 			}
 		}
-		r.fillSchema(x.elem, filled)
+		return r.fillSchema(x.elem, filled)
 	case reflect.Slice:
 		x := s.(*sliceSchema)
 		if s.Elem().IsRegistered() {
 			x.elem, err = r.schemaByName(s.Elem().Name())
 			if err != nil {
-				panic(err)
+				return
 			}
 		}
-		r.fillSchema(x.elem, filled)
+		return r.fillSchema(x.elem, filled)
 	case reflect.Struct:
 		for i, f := range s.Fields() {
 			x := f.(*field)
 			if fs := f.Schema(); fs.IsRegistered() {
 				x.schema, err = r.schemaByName(fs.Name())
 				if err != nil {
-					panic(err)
+					return
 				}
 			}
-			r.fillSchema(x.schema, filled)
+			if err = r.fillSchema(x.schema, filled); err != nil {
+				return
+			}
 			s.(*structSchema).fields[i] = x
 		}
 	}
+	return
+}
+
+// a schema can't contain itself by value (in arrays, slices and structs);
+// the walking map contains schemas of current path (true) and schemas
+// that already checked (false)
+func checkRecursion(s Schema, walking map[Schema]bool) (err error) {
+	if s.IsReference() {
+		return // a reference breaks the recursion
+	}
+	if now, ok := walking[s]; ok {
+		if now {
+			err = ErrInvalidSchema
+		}
+		return
+	}
+	walking[s] = true
+	if el := s.Elem(); el != nil {
+		if err = checkRecursion(el, walking); err != nil {
+			return
+		}
+	}
+	for _, f := range s.Fields() {
+		if err = checkRecursion(f.Schema(), walking); err != nil {
+			return
+		}
+	}
+	walking[s] = false
+	return
 }
 
 func (r *Registry) schemaByName(name string) (s Schema, err error) {
@@ -214,10 +256,19 @@ func (r *Registry) schemaByName(name string) (s Schema, err error) {
 	return
 }
 
-func (r *Registry) finialize() {
+func (r *Registry) finialize() (err error) {
 	filled := make(map[Schema]struct{})
 	for _, sch := range r.reg {
-		r.fillSchema(sch, filled)
+		if err = r.fillSchema(sch, filled); err != nil {
+			return
+		}
+	}
+
+	walking := make(map[Schema]bool)
+	for _, sch := range r.reg {
+		if err = checkRecursion(sch, walking); err != nil {
+			return
+		}
 	}
 
 	// fill up map by SchemaRef
@@ -227,6 +278,7 @@ func (r *Registry) finialize() {
 
 	encoded := r.Encode()
 	r.ref = RegistryRef(cipher.SumSHA256(encoded))
+	return
 }
 
 // TagSchemaName returns schema name from given reflect.StructTag.
-- 
2.43.0


From f466ff386f75c1dafc59c29e9539e29d7fa85c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 43/93] fix: Split rejects all arrays and slices

The check of schema of element is inverted.
---
 skyobject/registry/split.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index 9886274..d3c3a28 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -201,7 +201,7 @@ func splitArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of array %q is nil", sch))
 		return
 	}
@@ -227,7 +227,7 @@ func splitSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of slice %q is nil", sch))
 		return
 	}
-- 
2.43.0


From 7c9f9c7c4b091a61360a988e37aebf1c7affa735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 44/93] fix: Walk rejects all arrays and slices

The check of schema of element is inverted.
---
 skyobject/registry/walk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index b9173c3..0dc1991 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -136,7 +136,7 @@ func walkArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		// just avoid panic if the Scehma is invlaid;
 		// any invalid Schema shuld not break CXO, since
 		// we are not trusting remote nodes, even if they
@@ -165,7 +165,7 @@ func walkSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		return fmt.Errorf("Schema of element of slice %q is nil", sch)
 	}
 
-- 
2.43.0


From 316dafeacb4b1cdc2247aa94b9796abdd0f596d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 45/93] fix: ErrStopIteration doesn't stop a Walk

The error was suppressed by nested walkers, and upper ones walked further.
The Walk of a Ref returned it to the caller.
---
 skyobject/registry/dynamic.go   | 21 ++++++++--------
 skyobject/registry/ref.go       | 26 +++++++++++++------
 skyobject/registry/refs_walk.go | 44 ++++++++++++++-------------------
 skyobject/registry/root.go      |  6 ++++-
 skyobject/registry/walk.go      |  6 ++---
 5 files changed, 56 insertions(+), 47 deletions(-)

diff --git a/skyobject/registry/dynamic.go b/skyobject/registry/dynamic.go
index 6af04ab..680e56f 100644
--- a/skyobject/registry/dynamic.go
+++ b/skyobject/registry/dynamic.go
@@ -110,15 +110,22 @@ func (d *Dynamic) Walk(
 		panic("walkFunc is nil") // for developers
 	}
 
+	if err = d.walk(pack, walkFunc); err == ErrStopIteration {
+		err = nil // suppress this error
+	}
+
+	return
+}
+
+// walk is the Walk that returns the ErrStopIteration
+func (d *Dynamic) walk(pack Pack, walkFunc WalkFunc) (err error) {
+
 	if d.IsValid() == false {
 		return ErrInvalidDynamicReference
 	}
 
 	var deepper bool
 	if deepper, err = walkFunc(d.Hash, 0); err != nil {
-		if err == ErrStopIteration {
-			err = nil // suppress this error
-		}
 		return
 	}
 
@@ -140,13 +147,7 @@ func (d *Dynamic) Walk(
 		return
 	}
 
-	err = walkSchemaHash(pack, sch, d.Hash, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil // suppress this error
-	}
-
-	return
+	return walkSchemaHash(pack, sch, d.Hash, walkFunc)
 }
 
 // Split used by the node package to fill the Dynamic.
diff --git a/skyobject/registry/ref.go b/skyobject/registry/ref.go
index 2ac72ba..73cf017 100644
--- a/skyobject/registry/ref.go
+++ b/skyobject/registry/ref.go
@@ -104,6 +104,23 @@ func (r *Ref) Walk(
 	err error,
 ) {
 
+	if err = r.walk(pack, sch, walkFunc); err == ErrStopIteration {
+		err = nil
+	}
+
+	return
+
+}
+
+// walk is the Walk that returns the ErrStopIteration
+func (r *Ref) walk(
+	pack Pack, //         :
+	sch Schema, //        :
+	walkFunc WalkFunc, // :
+) (
+	err error,
+) {
+
 	var deepper bool
 	if deepper, err = walkFunc(r.Hash, 0); err != nil || deepper == false {
 		return
@@ -113,14 +130,7 @@ func (r *Ref) Walk(
 		return // ignore the deepper
 	}
 
-	err = walkSchemaHash(pack, sch, r.Hash, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil
-	}
-
-	return
-
+	return walkSchemaHash(pack, sch, r.Hash, walkFunc)
 }
 
 // Split used by the node package to fill the Ref
diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 6b88015..f327217 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -44,9 +44,7 @@ type WalkFunc func(
 // walk if the Refs is blank
 func (r *Refs) walkBlank(walkFunc WalkFunc) (err error) {
 	// the depth can't be zero
-	if _, err = walkFunc(r.Hash, 1); err == ErrStopIteration {
-		err = nil
-	}
+	_, err = walkFunc(r.Hash, 1)
 	return // done
 }
 
@@ -97,6 +95,23 @@ func (r *Refs) Walk(
 		panic("walkFunc is nil") // for developers
 	}
 
+	if err = r.walk(pack, sch, walkFunc); err == ErrStopIteration {
+		err = nil
+	}
+
+	return
+
+}
+
+// walk is the Walk that returns the ErrStopIteration
+func (r *Refs) walk(
+	pack Pack, //             : pack to save and load
+	sch Schema, //            : schema of elements of the Refs
+	walkFunc WalkFunc, //     : the function
+) (
+	err error, //             : an error
+) {
+
 	var resetRequired bool
 
 	defer func() {
@@ -155,22 +170,13 @@ func (r *Refs) Walk(
 
 	// starting from Root (depth + 1 for the root)
 	if deepper, err = walkFunc(r.Hash, r.depth+1); err != nil {
-		if err == ErrStopIteration {
-			err = nil
-		}
 		return
 	} else if deepper == false {
 		return // done
 	}
 
 	// walk from nodes
-	err = r.walkNode(pack, sch, r.refsNode, r.depth, walkFunc)
-
-	if err == ErrStopIteration {
-		err = nil
-	}
-
-	return
+	return r.walkNode(pack, sch, r.refsNode, r.depth, walkFunc)
 
 }
 
@@ -194,9 +200,6 @@ func (r *Refs) walkNode(
 
 			if deepper, err = walkFunc(leaf.Hash, depth); err != nil {
 
-				if err == ErrStopIteration {
-					err = nil
-				}
 				return
 
 			} else if deepper == true {
@@ -204,9 +207,6 @@ func (r *Refs) walkNode(
 				err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
 
 				if err != nil {
-					if err == ErrStopIteration {
-						err = nil
-					}
 					return
 				}
 
@@ -226,9 +226,6 @@ func (r *Refs) walkNode(
 		// leafs
 
 		if deepper, err = walkFunc(br.hash, depth); err != nil {
-			if err == ErrStopIteration {
-				err = nil
-			}
 			return
 		} else if deepper == false {
 			continue // let's look at the next brnahc
@@ -241,9 +238,6 @@ func (r *Refs) walkNode(
 		}
 
 		if err = r.walkNode(pack, sch, br, depth-1, walkFunc); err != nil {
-			if err == ErrStopIteration {
-				err = nil
-			}
 			return
 		}
 
diff --git a/skyobject/registry/root.go b/skyobject/registry/root.go
index 3f60d78..bdea950 100644
--- a/skyobject/registry/root.go
+++ b/skyobject/registry/root.go
@@ -95,8 +95,12 @@ func DecodeRoot(val []byte) (r *Root, err error) {
 // of the Root (see Refs field)
 func (r *Root) Walk(pack Pack, walkFunc WalkFunc) (err error) {
 
+	if walkFunc == nil {
+		panic("walkFunc is nil") // for developers
+	}
+
 	for _, dr := range r.Refs {
-		if err = dr.Walk(pack, walkFunc); err != nil {
+		if err = dr.walk(pack, walkFunc); err != nil {
 			if err == ErrStopIteration {
 				err = nil
 			}
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index 0dc1991..852a8dc 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -94,7 +94,7 @@ func walkSchemaReference(
 			return
 		}
 
-		return ref.Walk(pack, el, walkFunc)
+		return ref.walk(pack, el, walkFunc)
 
 	case ReferenceTypeSlice: // Refs
 
@@ -108,7 +108,7 @@ func walkSchemaReference(
 			return
 		}
 
-		return refs.Walk(pack, el, walkFunc)
+		return refs.walk(pack, el, walkFunc)
 
 	case ReferenceTypeDynamic: // Dynamic
 
@@ -116,7 +116,7 @@ func walkSchemaReference(
 		if _, err = encoder.DeserializeRaw(val, &dr); err != nil {
 			return
 		}
-		return dr.Walk(pack, walkFunc)
+		return dr.walk(pack, walkFunc)
 
 	default:
 
-- 
2.43.0


From eb598bc51a901a1cda7aafbd2e5aaa79c86ea80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 46/93] fix: Append drops iterators of the Refs

An iterator, that appends to the Refs, panics if the Refs has been rebuilt.
---
 skyobject/registry/refs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 08e2cbe..7f5be88 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -1455,7 +1455,8 @@ func (r *Refs) Append(
 			return // error
 		}
 
-		*r = *nr // replace this Refs with new extended
+		nr.iterators = r.iterators // copy iterators
+		*r = *nr                   // replace this Refs with new extended
 
 		return // done
 
-- 
2.43.0


From 17d16bf51e31d1077e80342e1ff6f5f7cbf102fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 47/93] fix: SetDegree breaks Refs that is not updated yet

If the LazyUpdating is used, then hash of the Refs can be blank, but the
Refs can contain elements
---
 skyobject/registry/refs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 7f5be88..d71a278 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -172,7 +172,7 @@ func (r *Refs) SetDegree(pack Pack, degree Degree) (err error) {
 		return
 	}
 
-	if r.Hash == (cipher.SHA256{}) {
+	if r.length == 0 {
 		r.degree = degree
 		return // it's enough
 	}
-- 
2.43.0


From 6a6459c61869cd8e912e7230c9761c058c37fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 48/93] fix: Tree panics if a Root contains array or slice of
 variable-size elements

---
 skyobject/registry/root_tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skyobject/registry/root_tree.go b/skyobject/registry/root_tree.go
index cc0df01..8bdd014 100644
--- a/skyobject/registry/root_tree.go
+++ b/skyobject/registry/root_tree.go
@@ -440,7 +440,7 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 
 	var m, s, k int
 
-	if s = fixedSize(el.Kind()); s < 0 {
+	if s = fixedSize(el.Kind()); s > 0 {
 
 		for k = 0; k < ln; k++ {
 
@@ -475,6 +475,9 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 			}
 
 			if m, err = el.Size(val[shift:]); err != nil {
+				it.Items = append(it.Items, &gotree.GTStructure{
+					Name: "(err) " + err.Error(),
+				})
 				return
 			}
 
-- 
2.43.0


From a75da037d8db682737af446bfeaf2e660188b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 49/93] fix: nil-pointer dereference if Refs received from
 remote has no branches

---
 skyobject/registry/refs_node.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 7e087e2..86cff96 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -333,6 +333,10 @@ func (r *Refs) elementByIndex(
 		break // the branch that contains the needle has been found
 	}
 
+	if br == nil {
+		return nil, ErrInvalidRefs // no branches
+	}
+
 	return r.elementByIndex(pack, br, i, depth-1)
 }
 
@@ -532,6 +536,10 @@ func (r *Refs) deleteElementByIndex(
 		break // the branch that contains the needle has been found
 	}
 
+	if br == nil {
+		return ErrInvalidRefs // no branches
+	}
+
 	// keep j for now
 
 	if err = r.deleteElementByIndex(pack, br, i, depth-1); err != nil {
-- 
2.43.0


From a3c9770a38e6cb9476209beaccd189dfb931487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 50/93] fix: a Conn can't be closed twice

A Conn can be closed by user, by Node, by OnConnect callback or by receiving
error; and second closing panics.
---
 node/conn.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index a482566..f411e95 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -30,6 +30,7 @@ type Conn struct {
 	initErr error
 	initq   chan struct{}
 
+	closeo sync.Once      // close the closeq once
 	closeq chan struct{}  // signal for all goroutines to exit
 	await  sync.WaitGroup // wait for all goroutines to exit
 
@@ -84,14 +85,14 @@ func (c *Conn) run() {
 	go func() {
 		defer c.await.Done()
 		if rcvErr = c.receiveMsg(); rcvErr != nil {
-			close(c.closeq)
+			c.terminate()
 		}
 	}()
 
 	// If OnConnect returns error, connection will be closed.
 	var occErr error
 	if occErr = c.n.onConnect(c); occErr != nil {
-		close(c.closeq)
+		c.terminate()
 	}
 
 	// Wait for all groutines to exit.
@@ -398,9 +399,16 @@ func (c *Conn) getter() (cg skyobject.Getter) {
 	return &cget{c}
 }
 
+// send the close signal to all goroutines of the Conn
+func (c *Conn) terminate() {
+	c.closeo.Do(func() {
+		close(c.closeq)
+	})
+}
+
 // Close the Conn
 func (c *Conn) Close() (err error) {
-	close(c.closeq)
+	c.terminate()
 	c.await.Wait()
 
 	// TODO: c.await.Wait() can exit beofre connection is removed from cache.
-- 
2.43.0


From cdf7cbca9198ec2d105575776f8375303b64640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 51/93] fix: duplicate response blocks receiving from a Conn
 forever

---
 node/conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index f411e95..64a1e15 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -485,7 +485,10 @@ func (c *Conn) receiveMsg() error {
 
 			// Handle message.
 			if rq, ok := c.isResponse(rseq); ok == true {
-				rq <- msg
+				select {
+				case rq <- msg:
+				default: // already responded (drop the duplicate)
+				}
 				continue
 			}
 			if err := c.handle(seq, msg); err != nil {
-- 
2.43.0


From bc874b321e59387b2a6d7ab5dfb4a1904b80e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 52/93] fix: sending to a closed Conn can block forever

---
 node/conn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 64a1e15..72570c6 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -445,7 +445,11 @@ func (c *Conn) sendMsg(seq, rseq uint32, m msg.Msg) error {
 	default:
 	}
 
-	c.sendq <- c.encodeMsg(seq, rseq, m)
+	select {
+	case c.sendq <- c.encodeMsg(seq, rseq, m):
+	case <-c.closeq:
+		return ErrClosed
+	}
 
 	return nil
 }
@@ -556,7 +560,9 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 	c.addRequest(seq, rq)
 	defer c.delRequest(seq)
 
-	c.sendMsg(seq, 0, m)
+	if err = c.sendMsg(seq, 0, m); err != nil {
+		return
+	}
 
 	select {
 	case reply = <-rq:
-- 
2.43.0


From c0f7df2b40ff865602923b607b0ea7d80db64bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 53/93] fix: reply of failed object request is a blank object

---
 node/conn.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 72570c6..11ba41b 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -774,6 +774,14 @@ func (c *Conn) handleRoot(root *msg.Root) (_ error) {
 	return
 }
 
+func (c *Conn) sendObject(rseq uint32, obj skyobject.Object) {
+	if obj.Err != nil {
+		c.sendErr(rseq, obj.Err)
+		return
+	}
+	c.sendMsg(c.nextSeq(), rseq, &msg.Object{Value: obj.Val})
+}
+
 // async
 func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 	defer c.await.Done()
@@ -803,7 +811,7 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 	select {
 	case obj := <-gc:
 		// got
-		c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+		c.sendObject(seq, obj)
 		return
 	default:
 		// wait
@@ -818,7 +826,7 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 
 	select {
 	case obj := <-gc:
-		c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+		c.sendObject(seq, obj)
 	case <-tc:
 		c.sendMsg(c.nextSeq(), seq, &msg.Err{}) // timeout
 	case <-c.closeq:
-- 
2.43.0


From b7aca3d4566c065f342117dd8fe81241bf3eaaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 54/93] fix: request of peers closes a Conn if the Node is not
 in swarm

---
 node/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index 11ba41b..e2b5e35 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -869,7 +869,7 @@ func (c *Conn) handleRqPeers(seq uint32, rqp *msg.RqPeers) error {
 	s, ok := c.n.InSwarm(rqp.Feed)
 	if !ok {
 		c.sendMsg(c.nextSeq(), seq, &msg.Err{Err: "not in swarm"})
-		return errors.New("node in not in swarm")
+		return nil
 	}
 
 	peers := s.peersForExchange(c.PeerID())
-- 
2.43.0


From e298d8d6695877e13792cefe32566c80265f3438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 55/93] fix: head and seq of a received Root can be different
 from the Root

And the feed of a previewed Root can be different from requested one.
---
 node/conn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/node/conn.go b/node/conn.go
index e2b5e35..a644aba 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -348,6 +348,9 @@ func (c *Conn) Preview(
 	case *msg.Err:
 		return errors.New("error: " + x.Err)
 	case *msg.Root:
+		if x.Feed != feed {
+			return errors.New("wrong Root received (different feed)")
+		}
 		if r, err = c.n.c.PreviewRoot(x.Feed, x.Sig, x.Value); err != nil {
 			return
 		}
@@ -763,6 +766,12 @@ func (c *Conn) handleRoot(root *msg.Root) (_ error) {
 		return // keep connection ?
 	}
 
+	if r.Nonce != root.Nonce || r.Seq != root.Seq {
+		c.n.Printf("[ERR] [%s] received Root %s, expected %d/%d", c.String(),
+			r.Short(), root.Nonce, root.Seq)
+		return
+	}
+
 	// do nothing, because the Node already have this Root
 	if r.IsFull == true {
 		return
-- 
2.43.0


From db1706349edf7333058e7c2f2461ca41026a89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 56/93] fix: OnUnsubscribeRemote callback is never called

---
 node/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node/conn.go b/node/conn.go
index a644aba..1363c01 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -709,7 +709,12 @@ func (c *Conn) handleUnsub(seq uint32, unsub *msg.Unsub) (err error) {
 		return errors.New("invalid request Unsub blank feed") // fatal
 	}
 
+	if c.n.fs.hasConnFeed(c, unsub.Feed) == false {
+		return // not subscribed
+	}
+
 	c.n.fs.delConnFeed(c, unsub.Feed) // delete
+	c.n.onUnsubscribeRemote(c, unsub.Feed)
 	return
 }
 
-- 
2.43.0


From d7573ba4c1415c7db249b6201846126bb007a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 57/93] fix: closed connections are never removed from feeds

Also, the head doesn't wait handler of feeds broadcasting a Root, because
the handler can wait the head (deadlock).
---
 node/conn.go |  1 +
 node/head.go | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index 1363c01..3422a44 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -98,6 +98,7 @@ func (c *Conn) run() {
 	// Wait for all groutines to exit.
 	c.await.Wait()
 
+	c.n.fs.delConn(c)
 	c.n.removeConn(c)
 
 	// Remove connection from trasnport's cache and close factory.Connection.
diff --git a/node/head.go b/node/head.go
index d3b46ad..84ab9f3 100644
--- a/node/head.go
+++ b/node/head.go
@@ -339,7 +339,8 @@ func (f *fillHead) createFiller(cr connRoot) {
 		cr.r.Short())
 
 	// broadcast the Root we are going to fill
-	f.nodeHead.n.fs.broadcastRoot(cr)
+	f.await.Add(1)
+	go f.broadcastRoot(cr)
 
 	f.tp = time.Now() // time point
 
@@ -359,6 +360,18 @@ func (f *fillHead) createFiller(cr connRoot) {
 	go f.runFiller(f.f)
 }
 
+// (async) the handler of feeds can wait the head, and
+// the head must not wait the handler
+func (f *fillHead) broadcastRoot(cr connRoot) {
+	defer f.await.Done()
+
+	select {
+	case f.n.fs.brorq <- cr:
+	case <-f.n.fs.closeq:
+	case <-f.closeq:
+	}
+}
+
 // (async)
 func (f *fillHead) runFiller(fill *skyobject.Filler) {
 	defer f.await.Done()
-- 
2.43.0


From 3a46f5e67d4a16e4ce3aeadcc930438fe1ef339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 58/93] fix: handshake panics if response timeout is disabled

---
 node/handshake.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/node/handshake.go b/node/handshake.go
index fbe66b5..06babad 100644
--- a/node/handshake.go
+++ b/node/handshake.go
@@ -39,6 +39,7 @@ func (c *Conn) performHandshake() error {
 	var (
 		rt time.Duration
 		tm *time.Timer
+		tc <-chan time.Time
 	)
 	if c.IsTCP() == true {
 		rt = c.n.config.TCP.ResponseTimeout
@@ -47,6 +48,7 @@ func (c *Conn) performHandshake() error {
 	}
 	if rt > 0 {
 		tm = time.NewTimer(rt)
+		tc = tm.C
 		defer tm.Stop()
 	}
 
@@ -81,7 +83,7 @@ func (c *Conn) performHandshake() error {
 			return fmt.Errorf("invalid response type: %T", m)
 		}
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
@@ -99,6 +101,7 @@ func (c *Conn) acceptHandshake() (err error) {
 	var (
 		rt time.Duration
 		tm *time.Timer
+		tc <-chan time.Time
 	)
 	if c.IsTCP() == true {
 		rt = c.n.config.TCP.ResponseTimeout
@@ -107,6 +110,7 @@ func (c *Conn) acceptHandshake() (err error) {
 	}
 	if rt > 0 {
 		tm = time.NewTimer(rt)
+		tc = tm.C
 		defer tm.Stop()
 	}
 
@@ -171,7 +175,7 @@ func (c *Conn) acceptHandshake() (err error) {
 		// Handshake is complete.
 		c.peerID = syn.NodeID
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
-- 
2.43.0


From 90152cf95b377298765de362396cb2ac8257bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 59/93] fix: the Node ignores MaxFillingParallel

---
 node/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index ddf20bb..cf2112b 100644
--- a/node/node.go
+++ b/node/node.go
@@ -157,7 +157,10 @@ func NewNodeContainer(
 	n.config = conf
 	n.config.Config = c.Config() // actual
 
-	n.fillavg = statutil.NewDuration(conf.Config.RollAvgSamples)
+	n.maxFillingParallel = n.config.Config.MaxFillingParallel
+	n.rollAvgSamples = n.config.Config.RollAvgSamples
+
+	n.fillavg = statutil.NewDuration(n.rollAvgSamples)
 
 	//
 	// create
-- 
2.43.0


From c254988980aa4399b5d3885ef807fc1a458ec43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 60/93] fix: failed handshake panics if there are many connects
 to the same address

---
 node/node.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index cf2112b..1f28565 100644
--- a/node/node.go
+++ b/node/node.go
@@ -420,7 +420,6 @@ func (n *Node) initConn(
 			return nil, errors.New("already have incoming pending connection")
 		}
 		if err = c.waitForInit(); err != nil {
-			n.onConnInitErr(c, err)
 			return nil, err
 		}
 		return c, nil
-- 
2.43.0


From dd0f5d43dc3fbad1a306e89d561f12fc18add24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 61/93] fix: zero limit of connections rejects all connections

According to the documentation, zero disables the limit.
---
 node/node.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 1f28565..d94869c 100644
--- a/node/node.go
+++ b/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"errors"
 	"fmt"
+	"math"
 	"sync"
 	"time"
 
@@ -369,6 +370,10 @@ func (n *Node) connCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.config.MaxConnections <= 0 {
+		return math.MaxInt32 // no limit
+	}
+
 	count := len(n.pendConns) + len(n.addrToConn)
 	if count >= n.config.MaxConnections {
 		return 0
@@ -381,6 +386,10 @@ func (n *Node) pendingConnCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.config.MaxPendingConnections <= 0 {
+		return math.MaxInt32 // no limit
+	}
+
 	count := len(n.pendConns)
 	if count >= n.config.MaxPendingConnections {
 		return 0
@@ -451,10 +460,12 @@ func (n *Node) onNewConn(
 	defer n.mx.Unlock()
 
 	// Check limits for number of open connections.
-	if len(n.pendConns)+len(n.addrToConn) >= n.config.MaxConnections {
+	if mc := n.config.MaxConnections; mc > 0 &&
+		len(n.pendConns)+len(n.addrToConn) >= mc {
 		return nil, false, false, ErrConnLimit
 	}
-	if len(n.pendConns) >= n.config.MaxPendingConnections {
+	if mpc := n.config.MaxPendingConnections; mpc > 0 &&
+		len(n.pendConns) >= mpc {
 		return nil, false, false, ErrPendConnLimit
 	}
 
-- 
2.43.0


From ff64a9eab1602d48ae9548ccde9cfe7d0b33322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 62/93] fix: two connections with the same peer

The check and adding of a peer must be atomic
---
 node/node.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index d94869c..96259e3 100644
--- a/node/node.go
+++ b/node/node.go
@@ -441,7 +441,10 @@ func (n *Node) initConn(
 			return nil, err
 		}
 
-		n.onConnInit(c)
+		if err = n.onConnInit(c); err != nil {
+			n.onConnInitErr(c, err)
+			return nil, err
+		}
 		go c.run()
 
 		return c, nil
@@ -501,16 +504,21 @@ func (n *Node) onConnInitErr(c *Conn, initErr error) {
 // onConnInit atomically moves pending connection to cache
 // and singals about initConn success. It also chekcs if
 // peer's pubkey, receieved during hanshake is duplicate.
-func (n *Node) onConnInit(c *Conn) {
+func (n *Node) onConnInit(c *Conn) (err error) {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if _, ok := n.pkToConn[c.peerID]; ok {
+		return ErrAlreadyHaveConnection
+	}
+
 	delete(n.pendConns, c.Address())
 
 	n.addrToConn[c.Address()] = c
 	n.pkToConn[c.peerID] = c
 
 	close(c.initq)
+	return
 }
 
 // removeConn reomoves connection from cache.
-- 
2.43.0


From c64f75e9480400f65429cfc15860ff55870fa248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 63/93] fix: closed connection can stay in transport forever

If the connection closed before the transport adds it.
---
 node/conn.go       | 14 ++++++++++++++
 node/transports.go |  8 ++++++++
 2 files changed, 22 insertions(+)

diff --git a/node/conn.go b/node/conn.go
index 3422a44..41125ab 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -108,6 +108,11 @@ func (c *Conn) run() {
 		c.n.udp.closeConn(c.Address())
 	}
 
+	// the transport may not have the connection yet
+	if !c.Connection.IsClosed() {
+		c.Connection.Close()
+	}
+
 	// In connection is closed in case of error, decide which one to pass to OnDisconnect.
 	var odcErr error
 	switch {
@@ -410,6 +415,15 @@ func (c *Conn) terminate() {
 	})
 }
 
+func (c *Conn) isClosed() bool {
+	select {
+	case <-c.closeq:
+		return true
+	default:
+	}
+	return false
+}
+
 // Close the Conn
 func (c *Conn) Close() (err error) {
 	c.terminate()
diff --git a/node/transports.go b/node/transports.go
index 8bec75a..36094e1 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -51,6 +51,10 @@ func (t *TCP) addConn(c *Conn) {
 	t.mx.Lock()
 	defer t.mx.Unlock()
 
+	if c.isClosed() == true {
+		return // closed already
+	}
+
 	t.cs[c.Address()] = c
 }
 
@@ -388,6 +392,10 @@ func (u *UDP) addConn(c *Conn) {
 	u.mx.Lock()
 	defer u.mx.Unlock()
 
+	if c.isClosed() == true {
+		return // closed already
+	}
+
 	u.cs[c.Address()] = c
 }
 
-- 
2.43.0


From 6fedfeb4307a76fa9148a03eb0d160ff500f704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 64/93] fix: the Node waits feeds and network under lock

---
 node/node.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/node/node.go b/node/node.go
index 96259e3..f1fffb5 100644
--- a/node/node.go
+++ b/node/node.go
@@ -532,11 +532,16 @@ func (n *Node) removeConn(c *Conn) {
 
 func (n *Node) updateServiceDiscovery() {
 
-	n.mx.Lock()
-	defer n.mx.Unlock()
+	// don't hold the lock of the Node, because the
+	// handler of feeds can call user-provided callbacks
+
+	var (
+		tcp = n.getTCP()
+		udp = n.getUDP()
+	)
 
-	var notUsed = (n.tcp == nil || n.tcp.Discovery() == nil) &&
-		(n.udp == nil || n.udp.Discovery() == nil)
+	var notUsed = (tcp == nil || tcp.Discovery() == nil) &&
+		(udp == nil || udp.Discovery() == nil)
 
 	if notUsed == true {
 		return
@@ -546,12 +551,12 @@ func (n *Node) updateServiceDiscovery() {
 
 	n.Debug(DiscoveryPin, "(Node) updateServiceDiscovery ", len(feeds))
 
-	if n.tcp != nil && n.tcp.Discovery() != nil {
-		n.tcp.updateServiceDiscovery(feeds)
+	if tcp != nil && tcp.Discovery() != nil {
+		tcp.updateServiceDiscovery(feeds)
 	}
 
-	if n.udp != nil && n.udp.Discovery() != nil {
-		n.udp.updateServiceDiscovery(feeds)
+	if udp != nil && udp.Discovery() != nil {
+		udp.updateServiceDiscovery(feeds)
 	}
 
 }
-- 
2.43.0


From 5e3bb217420274fac535bcf48b442647bed96e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 65/93] fix: Close and LeaveSwarm deadlock, Close doesn't
 terminate feeds

They wait goroutines that use lock of the Node under the lock. And Close
closes DB, but fillers still use it.
---
 node/node.go | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/node/node.go b/node/node.go
index f1fffb5..5130a3d 100644
--- a/node/node.go
+++ b/node/node.go
@@ -700,33 +700,47 @@ func (n *Node) Stat() (s *Stat) {
 // of (skyobject.Container).Close once.
 func (n *Node) Close() (err error) {
 	n.closeo.Do(func() {
+		// Don't wait under the lock, since goroutines of
+		// connections and swarms use it.
 		n.mx.Lock()
-		defer n.mx.Unlock()
+		var (
+			ss       = n.ss
+			conns    = make([]*Conn, 0, len(n.pendConns)+len(n.addrToConn))
+			tcp, udp = n.tcp, n.udp
+		)
+		n.ss = make(map[cipher.PubKey]*Swarm)
+		for _, c := range n.pendConns {
+			conns = append(conns, c)
+		}
+		for _, c := range n.addrToConn {
+			conns = append(conns, c)
+		}
+		n.mx.Unlock()
 
 		// Shutdown peer exchange.
-		for _, s := range n.ss {
+		for _, s := range ss {
 			s.shutdown()
 		}
 
 		// Close all connections.
-		for _, c := range n.pendConns {
-			c.Close()
-		}
-		for _, c := range n.pkToConn {
+		for _, c := range conns {
 			c.Close()
 		}
 
 		// Shutdown all transports.
-		if n.tcp != nil {
-			n.tcp.Close()
+		if tcp != nil {
+			tcp.Close()
 		}
-		if n.udp != nil {
-			n.udp.Close()
+		if udp != nil {
+			udp.Close()
 		}
 		if n.rpc != nil {
 			n.rpc.Close()
 		}
 
+		// Terminate all feeds and fillers.
+		n.fs.close()
+
 		// Close database.
 		err = n.c.Close()
 
@@ -758,16 +772,15 @@ func (n *Node) JoinSwarm(
 
 func (n *Node) LeaveSwarm(feed cipher.PubKey) error {
 	n.mx.Lock()
-	defer n.mx.Unlock()
-
 	s, ok := n.ss[feed]
+	delete(n.ss, feed)
+	n.mx.Unlock()
+
 	if !ok {
 		return errors.New("node is not in swarm")
 	}
 
-	s.shutdown()
-
-	delete(n.ss, feed)
+	s.shutdown() // without the lock, because the swarm uses it
 
 	return nil
 }
-- 
2.43.0


From 08d09b8c9dd53fe54439d67a84779f75f35200d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 66/93] fix: limit of heads is never used

---
 node/feed.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/feed.go b/node/feed.go
index 6e28e65..e68304e 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -72,11 +72,15 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 
 			var tormh = n.hs[torm]
 
-			tormh.errq <- ErrMaxHeadsLimit
+			tormh.closeByError(ErrMaxHeadsLimit)
 			tormh.close() // wait
 
 			delete(n.hs, torm) // remove
 
+		} else {
+
+			n.ho = append(n.ho, cr.r.Nonce)
+
 		}
 
 		nh = newNodeHead(n)
-- 
2.43.0


From cc3b2921a8d227592286b77506272fac1e180d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 67/93] fix: lists of feeds and idle connections are not actual

---
 node/feeds.go | 40 ++++++++++++++++++++++++++--------------
 node/node.go  |  1 +
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/node/feeds.go b/node/feeds.go
index d615f3c..96a03a1 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -288,6 +288,29 @@ func (n *nodeFeeds) handleDelFeed(pk cipher.PubKey) {
 	delete(n.fs, pk)
 	n.fl = nil
 
+	for c := range nf.cs {
+		n.addIdle(c)
+	}
+
+}
+
+// add connection to idle if it does't share a feed
+func (n *nodeFeeds) addIdle(c *Conn) {
+
+	for pk, nf := range n.fs {
+
+		if pk == (cipher.PubKey{}) {
+			continue // avoid map lookup
+		}
+
+		if nf.hasConn(c) == true {
+			return
+		}
+
+	}
+
+	n.fs[cipher.PubKey{}].addConn(c) // add to idle
+
 }
 
 // (api)
@@ -308,7 +331,7 @@ func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 	// if the cf.f is blank the this connection is new
 
 	if cf.f == (cipher.PubKey{}) {
-		n.fs[cipher.PubKey{}].addConn(cf.c)
+		n.addIdle(cf.c)
 		return
 	}
 
@@ -317,6 +340,7 @@ func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 	if ok == false {
 		nf = newNodeFeed(n, cf.f)
 		n.fs[cf.f] = nf
+		n.fl = nil
 	}
 
 	nf.addConn(cf.c)
@@ -350,19 +374,7 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 	// if the connection does't share a feed, then
 	// we put it to idle
 
-	for pk, nf := range n.fs {
-
-		if pk == (cipher.PubKey{}) {
-			continue // avoid map lookup
-		}
-
-		if nf.hasConn(cf.c) == true {
-			return
-		}
-
-	}
-
-	n.fs[cipher.PubKey{}].addConn(cf.c) // add to idle
+	n.addIdle(cf.c)
 
 }
 
diff --git a/node/node.go b/node/node.go
index 5130a3d..acad58a 100644
--- a/node/node.go
+++ b/node/node.go
@@ -445,6 +445,7 @@ func (n *Node) initConn(
 			n.onConnInitErr(c, err)
 			return nil, err
 		}
+		n.fs.addConnFeed(c, cipher.PubKey{}) // idle
 		go c.run()
 
 		return c, nil
-- 
2.43.0


From 1873b4e566f0bfc07450f878c9df2f7082aafa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 68/93] fix: info of a head blocks forever and pending Root of
 the info is wrong

---
 node/head.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node/head.go b/node/head.go
index 84ab9f3..5d8bdc2 100644
--- a/node/head.go
+++ b/node/head.go
@@ -40,6 +40,9 @@ func newNodeHead(nf *nodeFeed) (n *nodeHead) {
 	n.delcq = make(chan *Conn)
 	n.rrq = make(chan connRoot)
 
+	n.inforq = make(chan struct{})
+	n.inforn = make(chan *headInfo)
+
 	n.errq = make(chan error)
 	n.closeq = make(chan struct{})
 
@@ -684,7 +687,7 @@ func (n *nodeHead) handleInfo(f *fillHead) {
 	ni.pendingRoot = (f.p.r != nil)
 
 	if ni.pendingRoot == true {
-		ni.pendingRootSeq = f.r.r.Seq
+		ni.pendingRootSeq = f.p.r.Seq
 	}
 
 	// make copy
-- 
2.43.0


From d22ac2db611c3227b2a16f0ee009089e20d038df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 69/93] fix: the head forgets newer Root objects instead of
 older ones

---
 node/head.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/node/head.go b/node/head.go
index 5d8bdc2..99cdce4 100644
--- a/node/head.go
+++ b/node/head.go
@@ -601,22 +601,16 @@ func (k knownRoots) removeKnown(c *Conn, seq uint64) {
 // Root objects of all peers
 func (k knownRoots) moveForward(seq uint64) {
 
-	var (
-		ks uint64
-		i  int
-	)
-
 	for c, known := range k {
 
-		for i, ks = range known {
-
-			if ks >= seq {
-				k[c] = append(known[:i], known[i+1:]...)
-				break
-			}
+		var i int
 
+		for i < len(known) && known[i] < seq {
+			i++
 		}
 
+		k[c] = known[i:]
+
 	}
 
 }
-- 
2.43.0


From 0948dc5ad2543aaf3c83bf70ede09b14592e9f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 70/93] fix: requests of a closed filler break the head

A reply for a previous filler was treated as a reply for current one (or
nil-pointer dereference if there is not). And closing of the head could wait
the requests forever.
---
 node/head.go | 75 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/node/head.go b/node/head.go
index 99cdce4..50aa7d1 100644
--- a/node/head.go
+++ b/node/head.go
@@ -96,10 +96,16 @@ func (n *nodeHead) node() *Node {
 }
 
 type failedRequest struct {
-	c   *Conn         // connection
-	seq uint64        // seq of the filling Root
-	key cipher.SHA256 // requested object
-	err error         // failed if the err is not nil
+	c   *Conn             // connection
+	f   *skyobject.Filler // filler of the request
+	seq uint64            // seq of the filling Root
+	key cipher.SHA256     // requested object
+	err error             // failed if the err is not nil
+}
+
+type succeededRequest struct {
+	c *Conn             // connection
+	f *skyobject.Filler // filler of the request
 }
 
 // handle local "fields" of the nodeHead
@@ -121,8 +127,8 @@ type fillHead struct {
 
 	cs knownRoots // conn -> known root objects (seq)
 
-	successq chan *Conn         // succeeded requests
-	failureq chan failedRequest // failed requests
+	successq chan succeededRequest // succeeded requests
+	failureq chan failedRequest    // failed requests
 
 	rqo *list.List // request objects (cipher.SHA256)
 	fc  *list.List // connections to fill from (*Conn)
@@ -149,14 +155,15 @@ func (n *nodeHead) handle() {
 
 			ff: make(chan error), // filling error or nil (success)
 
-			successq: make(chan *Conn),         // release connection
-			failureq: make(chan failedRequest), // failed requests
+			successq: make(chan succeededRequest), // release connection
+			failureq: make(chan failedRequest),    // failed requests
 		}
 
 		key cipher.SHA256
 		c   *Conn
 		cr  connRoot
 		fc  failedRequest
+		sr  succeededRequest
 		err error // fillign failure or nil
 	)
 
@@ -166,9 +173,9 @@ func (n *nodeHead) handle() {
 
 			f.handleRequest(key)
 
-		case c = <-f.successq:
+		case sr = <-f.successq:
 
-			f.handleSuccess(c)
+			f.handleSuccess(sr)
 
 		case fc = <-f.failureq:
 
@@ -224,11 +231,15 @@ func (f *fillHead) handleRequest(key cipher.SHA256) {
 	f.triggerRequest()
 }
 
-func (f *fillHead) handleSuccess(c *Conn) {
-	f.node().Debugln(FillPin, "[fill] handleSuccess", c.String())
+func (f *fillHead) handleSuccess(sr succeededRequest) {
+	f.node().Debugln(FillPin, "[fill] handleSuccess", sr.c.String())
+
+	if sr.f != f.f {
+		return // request of a previous filler
+	}
 
 	f.requesting--
-	f.fc.PushBack(c) // push
+	f.fc.PushBack(sr.c) // push
 	f.triggerRequest()
 }
 
@@ -236,8 +247,6 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 	f.node().Debugln(FillPin, "[fill] handleRequestFailure", fr.c.String(),
 		fr.key.Hex()[:7])
 
-	f.requesting--
-
 	switch fr.err {
 	case ErrInvalidResponse:
 
@@ -262,6 +271,11 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 
 	}
 
+	if fr.f != f.f {
+		return // request of a previous filler
+	}
+
+	f.requesting--
 	f.rqo.PushFront(fr.key) // shift
 	f.triggerRequest()
 
@@ -398,6 +412,8 @@ func (f *fillHead) closeFiller() {
 
 	f.f.Close()
 
+	f.f = nil
+	f.ft, f.tc = nil, nil
 	f.rqo, f.fc, f.rq = nil, nil, nil
 
 	f.r = connRoot{}
@@ -479,7 +495,7 @@ func (f *fillHead) tryRequest() (fatal bool) {
 	f.requesting++
 
 	f.await.Add(1) // nodeHead.await
-	go f.request(c, f.r.r.Seq, key)
+	go f.request(c, f.f, f.r.r.Seq, key)
 
 	return
 }
@@ -490,7 +506,12 @@ func (f *fillHead) node() *Node {
 }
 
 // (async) request object
-func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
+func (f *fillHead) request(
+	c *Conn, //                 : connection to request from
+	fill *skyobject.Filler, //  : filler of the request
+	seq uint64, //              : seq of the filling Root
+	key cipher.SHA256, //       : the object
+) {
 	defer f.await.Done()
 
 	f.node().Debugf(FillPin, "[fill] request from [%s] %d %s", c.String(), seq,
@@ -499,7 +520,7 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 	var reply, err = c.sendRequest(&msg.RqObject{Key: key})
 
 	if err != nil {
-		f.failureq <- failedRequest{c, seq, key, err}
+		f.requestFailed(failedRequest{c, fill, seq, key, err})
 		return
 	}
 
@@ -508,7 +529,8 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 		var rk = cipher.SumSHA256(x.Value)
 
 		if rk != key {
-			f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+			f.requestFailed(failedRequest{c, fill, seq, key,
+				ErrInvalidResponse})
 			return
 		}
 
@@ -518,14 +540,25 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 			return
 		}
 
-		f.successq <- c
+		select {
+		case f.successq <- succeededRequest{c, fill}:
+		case <-f.closeq:
+		}
 
 	default:
-		f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+		f.requestFailed(failedRequest{c, fill, seq, key, ErrInvalidResponse})
 	}
 
 }
 
+// (async) the head can be closed
+func (f *fillHead) requestFailed(fr failedRequest) {
+	select {
+	case f.failureq <- fr:
+	case <-f.closeq:
+	}
+}
+
 func (f *fillHead) handleDelConn(c *Conn) {
 	delete(f.cs, c) // just remove it from list of known
 
-- 
2.43.0


From 43b18d338dba897a4b872c2a25c304be1e96ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 71/93] fix: a connection can be used many times by the same
 filler

---
 node/head.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/node/head.go b/node/head.go
index 50aa7d1..99d906b 100644
--- a/node/head.go
+++ b/node/head.go
@@ -293,9 +293,12 @@ func (f *fillHead) handleReceivedRoot(cr connRoot) {
 			return // ignore the old Root
 		}
 
-		f.cs.addKnown(cr.c, cr.r.Seq) // add to known
+		var added = f.cs.addKnown(cr.c, cr.r.Seq) // add to known
 
 		if cr.r.Seq == f.r.r.Seq {
+			if added == false {
+				return // the connection is already used
+			}
 			f.fc.PushBack(cr.c) // add to filling connections
 			f.triggerRequest()
 			return
@@ -578,27 +581,27 @@ func (f *fillHead) terminate() {
 
 type knownRoots map[*Conn][]uint64
 
-func (k knownRoots) addKnown(c *Conn, seq uint64) {
+func (k knownRoots) addKnown(c *Conn, seq uint64) (added bool) {
 
 	var known, ok = k[c]
 
 	if ok == false {
 		k[c] = []uint64{seq}
-		return
+		return true
 	}
 
 	for i, ks := range known {
 
 		// already have
 		if ks == seq {
-			return
+			return false
 		}
 
 		// middle
 		if ks > seq {
 			known = append(known[:i], append([]uint64{seq}, known[i:]...)...)
 			k[c] = known
-			return
+			return true
 		}
 
 	}
@@ -607,6 +610,7 @@ func (k knownRoots) addKnown(c *Conn, seq uint64) {
 	known = append(known, seq)
 	k[c] = known
 
+	return true
 }
 
 // remove known Root object from a connection, from which
-- 
2.43.0


From 589c717c71697a1ee1efa14d8482337917f30a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 72/93] fix: nil-pointer dereference if connection of pending
 Root is closed

---
 node/head.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/head.go b/node/head.go
index 99d906b..f541bdc 100644
--- a/node/head.go
+++ b/node/head.go
@@ -355,8 +355,8 @@ func (f *fillHead) maxParallel() (mp int) {
 }
 
 func (f *fillHead) createFiller(cr connRoot) {
-	f.node().Debugln(FillPin, "[fill] createFiller", cr.c.String(),
-		cr.r.Short())
+	// the connection can be already deleted (nil)
+	f.node().Debugln(FillPin, "[fill] createFiller", cr.r.Short())
 
 	// broadcast the Root we are going to fill
 	f.await.Add(1)
-- 
2.43.0


From a6423af9209a0c7f72d2856a5708e9dfbcb86338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 73/93] fix: received peers are treated as known, and known
 ones as new

---
 node/swarm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/swarm.go b/node/swarm.go
index 37195f7..56bb29a 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -325,7 +325,7 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	// Update existing peers or add new one
 	for _, pi := range peers {
 		p, ok := s.peers[pi.PubKey]
-		if !ok {
+		if ok {
 			s.node.Debugf(PEXPin, "updating last seen time of peer %s for feed %s",
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 			p.seen()
-- 
2.43.0


From bae478fa3442c43b50cb433a6ae2e0a7c576699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 74/93] fix: reset of retry times of a peer makes it
 unavailable forever

---
 node/swarm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/swarm.go b/node/swarm.go
index 56bb29a..b03677c 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -496,7 +496,7 @@ func (s *Swarm) resetPeerRetryTimes(pk cipher.PubKey) error {
 		return errPeerNotFound
 	}
 
-	p.RetryTimes--
+	p.RetryTimes = 0
 	s.peers[pk] = p
 
 	return nil
-- 
2.43.0


From 48da07dd4c51ba0e7433219a5af0c9e087d8613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 75/93] fix: peers of another feed are added to the swarm

---
 node/swarm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node/swarm.go b/node/swarm.go
index b03677c..42443f4 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -251,8 +251,9 @@ func (s *Swarm) requestPeers() {
 				if m.Feed != s.feed {
 					err = errors.New("received peers for wrong feed")
 					// TODO: maybe call s.incPeerRetryTimes(c.PeerID())
+				} else {
+					s.addPeers(m.List)
 				}
-				s.addPeers(m.List)
 
 			case *msg.Err:
 				err = errors.New(m.Err)
-- 
2.43.0


From 88106dbb8bacbf39f566cdd2a9c4877090ddd5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 76/93] fix: a peer without address is treated as this node

---
 node/swarm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index 42443f4..2af5a02 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -353,10 +353,10 @@ func (s *Swarm) isSelf(p msg.PeerInfo) (bool, string) {
 	if p.PubKey == s.node.ID() {
 		return true, "pubkey is same"
 	}
-	if p.TCPAddr == s.node.TCP().Address() {
+	if p.TCPAddr != "" && p.TCPAddr == s.node.TCP().Address() {
 		return true, "tcp address is same"
 	}
-	if p.UDPAddr == s.node.UDP().Address() {
+	if p.UDPAddr != "" && p.UDPAddr == s.node.UDP().Address() {
 		return true, "udp address is saem"
 	}
 
-- 
2.43.0


From 12f8baaaff732d6bd2eb692037731f1f3f5aef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 77/93] fix: shutdown of a swarm waits next tick

---
 node/swarm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node/swarm.go b/node/swarm.go
index 2af5a02..4e53235 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -195,6 +195,9 @@ LOOP:
 		}
 
 		select {
+		case <-s.quit:
+			break LOOP
+
 		case <-requestPeers:
 			if s.needPeers() {
 				s.requestPeers()
-- 
2.43.0


From b1c498dddf0e91dc6de8c2ee7a94096807378b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 78/93] fix: RPC of UDP transport uses TCP transport

---
 node/rpc.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/node/rpc.go b/node/rpc.go
index 9aadebb..328916f 100644
--- a/node/rpc.go
+++ b/node/rpc.go
@@ -236,14 +236,14 @@ type UDPRPC struct {
 
 // Connect is RPC method
 func (u *UDPRPC) Connect(address string, _ *struct{}) (err error) {
-	_, err = u.n.TCP().Connect(address)
+	_, err = u.n.UDP().Connect(address)
 	return
 }
 
 // Disconnect is RPC method
 func (u *UDPRPC) Disconnect(address string, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(address); c != nil {
 			err = c.Close()
 		}
 	}
@@ -252,8 +252,8 @@ func (u *UDPRPC) Disconnect(address string, _ *struct{}) (err error) {
 
 // Subscribe is RPC method
 func (u *UDPRPC) Subscribe(cf ConnFeed, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(cf.Address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(cf.Address); c != nil {
 			return c.Subscribe(cf.Feed)
 		}
 		return errors.New("no such connection")
@@ -263,8 +263,8 @@ func (u *UDPRPC) Subscribe(cf ConnFeed, _ *struct{}) (err error) {
 
 // Unsubscribe is RPC method
 func (u *UDPRPC) Unsubscribe(cf ConnFeed, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(cf.Address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(cf.Address); c != nil {
 			c.Unsubscribe(cf.Feed)
 			return
 		}
@@ -275,8 +275,8 @@ func (u *UDPRPC) Unsubscribe(cf ConnFeed, _ *struct{}) (err error) {
 
 // RemoteFeeds is RPC method
 func (u *UDPRPC) RemoteFeeds(address string, rfs *[]cipher.PubKey) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(address); c != nil {
 			var rf []cipher.PubKey
 			if rf, err = c.RemoteFeeds(); err != nil {
 				return
@@ -291,8 +291,8 @@ func (u *UDPRPC) RemoteFeeds(address string, rfs *[]cipher.PubKey) (err error) {
 
 // Address is RPC method
 func (u *UDPRPC) Address(_ struct{}, address *string) (_ error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		*address = tcp.Address()
+	if udp := u.n.getUDP(); udp != nil {
+		*address = udp.Address()
 		return
 	}
 	return errors.New("to UDP transport")
-- 
2.43.0


From 10b6c84afa7cf4b8ee7f9888fdbf971c04022a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 79/93] fix: node: read the discovery of a transport under its
 lock

---
 node/transports.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/node/transports.go b/node/transports.go
index 36094e1..919d18e 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -308,7 +308,13 @@ func (t *TCP) updateServiceDiscovery(feeds []cipher.PubKey) {
 		share = share && (address != "")
 	}
 
-	t.d.ForEachConn(func(c *discovery.Connection) {
+	var d = t.Discovery()
+
+	if d == nil {
+		return
+	}
+
+	d.ForEachConn(func(c *discovery.Connection) {
 
 		if err := c.FindServiceNodesByKeys(feeds); err != nil {
 			t.n.Debug(DiscoveryPin,
@@ -655,7 +661,13 @@ func (u *UDP) updateServiceDiscovery(feeds []cipher.PubKey) {
 		share = share && (address != "") // skip, if it is not listening
 	}
 
-	u.d.ForEachConn(func(c *discovery.Connection) {
+	var d = u.Discovery()
+
+	if d == nil {
+		return
+	}
+
+	d.ForEachConn(func(c *discovery.Connection) {
 
 		if err := c.FindServiceNodesByKeys(feeds); err != nil {
 			u.n.Debug(DiscoveryPin,
-- 
2.43.0


From 650e377e7dc5b4918bac8d1c442de7d6ec7ccfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 80/93] fix: cxds: end the deleting iteration after the last
 possible key

---
 data/cxds/drive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 71eeb2d..5ae4d97 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -581,6 +581,10 @@ func (d *driveCXDS) IterateDel(
 			}
 
 			incSlice(key[:]) // next
+
+			if key == (cipher.SHA256{}) {
+				return // that was the last possible key
+			}
 		}
 
 		return
-- 
2.43.0


From c7aca0a5fabb008b024bd6107cf3811b42e61d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:18 +0000
Subject: [PATCH 81/93] fix: idxdb: end the iteration of feeds after the last
 possible key

---
 data/idxdb/drive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index 8cedf52..eb96858 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -147,6 +147,9 @@ func (d *driveFeeds) Iterate(iterateFunc data.IterateFeedsFunc) (err error) {
 			return
 		}
 		incSlice(pk[:])
+		if pk == (cipher.PubKey{}) {
+			return // it was the last possible key
+		}
 	}
 	return
 }
-- 
2.43.0


From 37a6c34730cbebde7bc010ddc18a9ece57f143ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:17 +0000
Subject: [PATCH 82/93] fix: cxds: save amounts and volumes in eight bytes

---
 data/cxds/cxds.go  | 22 ++++++++++++++++++++++
 data/cxds/drive.go | 37 +++++++++++++------------------------
 2 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index cf495da..b92983e 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -64,6 +64,28 @@ func decodeUint32(ub []byte) uint32 {
 	return binary.BigEndian.Uint32(ub)
 }
 
+// encode an amount or a volume; 4 bytes are too
+// small for a volume
+func encodeStat(v int) (vb []byte) {
+	vb = make([]byte, 8)
+	binary.BigEndian.PutUint64(vb, uint64(v))
+	return
+}
+
+// decode an amount or a volume; it's 4 bytes long
+// if it was saved by a previous revision
+func decodeStat(vb []byte) (v int, err error) {
+	switch len(vb) {
+	case 4:
+		v = int(decodeUint32(vb))
+	case 8:
+		v = int(binary.BigEndian.Uint64(vb))
+	default:
+		err = ErrWrongValueLength
+	}
+	return
+}
+
 // increment slice
 func incSlice(b []byte) {
 	for i := len(b) - 1; i >= 0; i-- {
diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 5ae4d97..740182c 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -152,43 +152,32 @@ func (d *driveCXDS) loadStat() (err error) {
 
 	return d.b.View(func(tx *bolt.Tx) (err error) {
 
-		var (
-			info = tx.Bucket(metaBucket)
-			val  []byte
-		)
+		var info = tx.Bucket(metaBucket)
 
 		// amount all
 
-		if val = info.Get(amountAllKey); len(val) != 4 {
-			return ErrWrongValueLength
+		if d.amountAll, err = decodeStat(info.Get(amountAllKey)); err != nil {
+			return
 		}
 
-		d.amountAll = int(decodeUint32(val))
-
 		// amount used
 
-		if val = info.Get(amountUsedKey); len(val) != 4 {
-			return ErrWrongValueLength
+		if d.amountUsed, err = decodeStat(info.Get(amountUsedKey)); err != nil {
+			return
 		}
 
-		d.amountUsed = int(decodeUint32(val))
-
 		// volume all
 
-		if val = info.Get(volumeAllKey); len(val) != 4 {
-			return ErrWrongValueLength
+		if d.volumeAll, err = decodeStat(info.Get(volumeAllKey)); err != nil {
+			return
 		}
 
-		d.volumeAll = int(decodeUint32(val))
-
 		// volume used
 
-		if val = info.Get(volumeUsedKey); len(val) != 4 {
-			return ErrWrongValueLength
+		if d.volumeUsed, err = decodeStat(info.Get(volumeUsedKey)); err != nil {
+			return
 		}
 
-		d.volumeUsed = int(decodeUint32(val))
-
 		return
 
 	})
@@ -206,7 +195,7 @@ func (d *driveCXDS) saveStat() (err error) {
 
 		// amount all
 
-		err = info.Put(amountAllKey, encodeUint32(uint32(d.amountAll)))
+		err = info.Put(amountAllKey, encodeStat(d.amountAll))
 
 		if err != nil {
 			return
@@ -214,7 +203,7 @@ func (d *driveCXDS) saveStat() (err error) {
 
 		// amount used
 
-		err = info.Put(amountUsedKey, encodeUint32(uint32(d.amountUsed)))
+		err = info.Put(amountUsedKey, encodeStat(d.amountUsed))
 
 		if err != nil {
 			return
@@ -222,7 +211,7 @@ func (d *driveCXDS) saveStat() (err error) {
 
 		// volume all
 
-		err = info.Put(volumeAllKey, encodeUint32(uint32(d.volumeAll)))
+		err = info.Put(volumeAllKey, encodeStat(d.volumeAll))
 
 		if err != nil {
 			return
@@ -230,7 +219,7 @@ func (d *driveCXDS) saveStat() (err error) {
 
 		// volume used
 
-		err = info.Put(volumeUsedKey, encodeUint32(uint32(d.volumeUsed)))
+		err = info.Put(volumeUsedKey, encodeStat(d.volumeUsed))
 		return
 
 	})
-- 
2.43.0


From 3734b256872489be3d15d66667f969ce4d17fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 83/93] fix: a received Root with trailing bytes is stored
 under a wrong hash

The signature and the hash belong to received bytes, but the Filler saves the Root
encoded again. If there are extra bytes after the Root, then the hash is not hash of
saved value, and peers reject the Root.
---
 skyobject/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skyobject/index.go b/skyobject/index.go
index a9329d1..035b3e1 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -269,6 +269,11 @@ func (i *Index) receivedRoot(
 		return nil, errors.New("unexpected feed of received Root: " + r.Short())
 	}
 
+	// the Root is stored encoded again, under the hash
+	if cipher.SumSHA256(r.Encode()) != hash {
+		return nil, errors.New("invalid encoding of received Root: " + r.Short())
+	}
+
 	r.Hash = hash // set the hash
 	r.Sig = sig   // set the signature
 
-- 
2.43.0


From f1e34f1d2142dd194d0c86c728e23961fdfec855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 84/93] fix: first Root of a head keeps seq and prev of another
 head

The Save sets Seq and Prev only if the head has Root objects. If a Root object is used
to create first Root of another head, then the Root is saved with a wrong seq.
---
 skyobject/unpack.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 46dd549..48562f9 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -274,10 +274,11 @@ func (i *Index) saveRoot(
 		if lastHash != (cipher.SHA256{}) {
 			r.Seq = lastSeq + 1
 			r.Prev = lastHash
+		} else {
+			r.Seq = 0
+			r.Prev = cipher.SHA256{}
 		}
 
-		// else -> 0 and blank
-
 		r.Time = time.Now().UnixNano()
 
 		// hash of the Root
-- 
2.43.0


From 7d0de3e897476fc7e025d971d7774cf61f36707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:05 +0000
Subject: [PATCH 85/93] fix: Root pushed by a peer right after the Ok is lost

The receiver drops Root objects if the connection is not subscribed yet. Since the
Subscribe adds the feed to the connection after the reply, the first Root can be handled
before. Add the feed by the receiving goroutine. And send the Ok before a Root can be
broadcast to the new subscriber.
---
 node/conn.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 41125ab..339d3dc 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -47,6 +47,7 @@ type Conn struct {
 	// request - response
 	seq  uint32                    // messege seq number (for request-response)
 	reqs map[uint32]chan<- msg.Msg // requests
+	subs map[uint32]cipher.PubKey  // feeds of Sub requests
 }
 
 func (n *Node) newConnection(
@@ -66,6 +67,7 @@ func (n *Node) newConnection(
 		sendq: fc.GetChanOut(),
 
 		reqs: make(map[uint32]chan<- msg.Msg),
+		subs: make(map[uint32]cipher.PubKey),
 	}
 
 	return c
@@ -305,7 +307,7 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 		return
 	}
 
-	c.n.fs.addConnFeed(c, feed)
+	// the handleSubscribed adds the feed to the connection
 	c.sendLastRoot(feed)
 	return
 }
@@ -507,6 +509,7 @@ func (c *Conn) receiveMsg() error {
 
 			// Handle message.
 			if rq, ok := c.isResponse(rseq); ok == true {
+				c.handleSubscribed(rseq, msg)
 				select {
 				case rq <- msg:
 				default: // already responded (drop the duplicate)
@@ -531,11 +534,15 @@ func (c *Conn) isResponse(rseq uint32) (rq chan<- msg.Msg, ok bool) {
 	return
 }
 
-func (c *Conn) addRequest(seq uint32, rq chan<- msg.Msg) {
+func (c *Conn) addRequest(seq uint32, rq chan<- msg.Msg, m msg.Msg) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
 	c.reqs[seq] = rq
+
+	if sub, ok := m.(*msg.Sub); ok == true {
+		c.subs[seq] = sub.Feed
+	}
 }
 
 func (c *Conn) delRequest(seq uint32) {
@@ -543,6 +550,24 @@ func (c *Conn) delRequest(seq uint32) {
 	defer c.mx.Unlock()
 
 	delete(c.reqs, seq)
+	delete(c.subs, seq)
+}
+
+// the peer accepts our subscription; the connection should be subscribed
+// before next message is handled, because it can be Root of the feed
+func (c *Conn) handleSubscribed(rseq uint32, reply msg.Msg) {
+
+	if _, ok := reply.(*msg.Ok); ok == false {
+		return
+	}
+
+	c.mx.Lock()
+	feed, ok := c.subs[rseq]
+	c.mx.Unlock()
+
+	if ok == true {
+		c.n.fs.addConnFeed(c, feed)
+	}
 }
 
 func (c *Conn) responseTimeout() (rt time.Duration) {
@@ -575,7 +600,7 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 		seq = c.nextSeq()
 	)
 
-	c.addRequest(seq, rq)
+	c.addRequest(seq, rq, m)
 	defer c.delRequest(seq)
 
 	if err = c.sendMsg(seq, 0, m); err != nil {
@@ -706,8 +731,8 @@ func (c *Conn) handleSub(seq uint32, sub *msg.Sub) (_ error) {
 
 	// ok
 
+	c.sendOk(seq) // the peer rejects Root objects before the Ok
 	c.n.fs.addConnFeed(c, sub.Feed)
-	c.sendOk(seq)
 
 	c.sendLastRoot(sub.Feed) // and push last Root
 
-- 
2.43.0


From e984df74995c32d79091273bccd3b269601cbc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:05 +0000
Subject: [PATCH 86/93] fix: closed connection can be subscribed and stay in
 feeds forever

Subscribing is concurrent with closing of the connection. If the handler deletes the
connection first, then the connection is added after and nobody deletes it.
---
 node/feeds.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node/feeds.go b/node/feeds.go
index 96a03a1..4726faf 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -328,6 +328,11 @@ func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 
 	n.n.Debugln(FeedPin, "handleAddConnFeed", cf.c.String(), cf.f.Hex()[:7])
 
+	// the delConn of the closed connection can be already handled
+	if cf.c.isClosed() == true {
+		return
+	}
+
 	// if the cf.f is blank the this connection is new
 
 	if cf.f == (cipher.PubKey{}) {
-- 
2.43.0


From 06929f285a1576a523ba31879bbddf45271ac4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:02 +0000
Subject: [PATCH 87/93] fix: find the active head again when the last Root of
 any head is removed

---
 skyobject/index.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 035b3e1..19dbf26 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -864,8 +864,10 @@ func (i *Index) delRoot(
 		hs.h[nonce] = ir
 	}
 
-	// cahnge active head if the Root is last for active head
-	if replaced == true && hs.activen == nonce {
+	// change active head if the last Root of the head is changed,
+	// since timestamp of the new last can be the newest even if
+	// the head is not active
+	if replaced == true {
 		hs.setActive()
 	}
 
-- 
2.43.0


From 0d28cc009b1f8483d2dfc8bab2e505b463c9b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:32 +0000
Subject: [PATCH 88/93] fix: Walk fails on blank elements of Refs

---
 skyobject/registry/refs_walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index f327217..97546c2 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -202,7 +202,7 @@ func (r *Refs) walkNode(
 
 				return
 
-			} else if deepper == true {
+			} else if deepper == true && leaf.Hash != (cipher.SHA256{}) {
 
 				err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
 
-- 
2.43.0


From 8f427b3564e0eb9d38a2d185b006e8ab96cb8915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:56 +0000
Subject: [PATCH 89/93] fix: Walk uses obsolete hashes of lazily updated Refs

---
 skyobject/registry/refs_walk.go | 36 ++++++++++++++-------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 97546c2..d89150e 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -124,33 +124,27 @@ func (r *Refs) walk(
 		}
 	}()
 
-	if r.Hash == (cipher.SHA256{}) {
-
-		if r.refsNode != nil && r.mods&loadedMod != 0 {
+	if r.refsNode != nil && r.mods&loadedMod != 0 &&
+		(r.Hash == (cipher.SHA256{}) || r.mods&contentMod != 0) {
 
-			// the Refs is loaded (e.g. initialized) and we have to
-			// check its state and update all hashes that not updated yet
-			// to get actual hashes of nodes
+		// the Refs is loaded (e.g. initialized) and we have to
+		// check its state and update all hashes that not updated yet
+		// to get actual hashes of nodes
 
-			if err = r.walkUpdating(pack); err != nil {
-				return // an error
-			}
-
-			if r.Hash == (cipher.SHA256{}) {
-				// So, the Refs is initialized and updated and still blank
-				return r.walkBlank(walkFunc)
-			}
+		if err = r.walkUpdating(pack); err != nil {
+			return // an error
+		}
 
-			// else -> the Refs already initialized, let's walk
+		r.rewindIterators() // the updating can remove blank nodes
 
-		} else {
+	}
 
-			// the Refs represents blank Refs and we should not initialize it;
-			// the only one hash of the Refs is Refs.Hash that is blank. So
-			// let's call the function
-			return r.walkBlank(walkFunc)
+	if r.Hash == (cipher.SHA256{}) {
 
-		}
+		// the Refs represents blank Refs and we should not initialize it;
+		// the only one hash of the Refs is Refs.Hash that is blank. So
+		// let's call the function
+		return r.walkBlank(walkFunc)
 
 	} else if r.refsNode == nil {
 
-- 
2.43.0


From ce0ed7ea9e7741627de3fa931c91442db28bc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:47 +0000
Subject: [PATCH 90/93] fix: close a factory connection that is not used since
 there is one already

---
 node/transports.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/node/transports.go b/node/transports.go
index 919d18e..0d62383 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -15,6 +15,14 @@ import (
 // TODO (kostyarin): DRY
 //
 
+// closeUnused closes a factory.Connection if another
+// one, to or from the same address, is used instead
+func closeUnused(c *Conn, fc *factory.Connection) {
+	if c.Connection != fc && !fc.IsClosed() {
+		fc.Close()
+	}
+}
+
 // A TCP represents TCP transport
 // of the Node. The TCP used to
 // listen and connect
@@ -119,6 +127,7 @@ func (t *TCP) Connect(address string) (*Conn, error) {
 	// In case of failure incoming connection has to be closed.
 	if c, err = t.n.initConn(fc, false); err == nil {
 		t.addConn(c)
+		closeUnused(c, fc)
 	} else {
 		t.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
@@ -152,6 +161,7 @@ func (t *TCP) acceptConn(fc *factory.Connection) {
 	// In case of failure incoming connection has to be closed.
 	if err == nil {
 		t.addConn(c)
+		closeUnused(c, fc)
 	} else {
 		t.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
@@ -472,6 +482,7 @@ func (u *UDP) Connect(address string) (*Conn, error) {
 	// In case of failure incoming connection has to be closed.
 	if c, err = u.n.initConn(fc, false); err == nil {
 		u.addConn(c)
+		closeUnused(c, fc)
 	} else {
 		u.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
@@ -505,6 +516,7 @@ func (u *UDP) acceptConn(fc *factory.Connection) {
 	// In case of failure incoming connection has to be closed.
 	if err == nil {
 		u.addConn(c)
+		closeUnused(c, fc)
 	} else {
 		u.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
-- 
2.43.0


From 3c3bd560589af7935bbe08b21390a06d51f964d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:15 +0000
Subject: [PATCH 91/93] fix: a peer received is treated as expired at once

---
 node/swarm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node/swarm.go b/node/swarm.go
index 4e53235..c3e1d4c 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -345,6 +345,7 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 
 			p = msgToPeer(pi)
+			p.seen()
 			s.onPeerAdded(p)
 		}
 
-- 
2.43.0


From 19048099cfc63d8666957ab2a5eb9f019cfe2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:50 +0000
Subject: [PATCH 92/93] fix: RPC method Config fails and breaks the connection,
 a configuration can't be encoded

---
 data/data.go | 12 ++++++++++++
 node/rpc.go  | 11 +++++++++++
 2 files changed, 23 insertions(+)

diff --git a/data/data.go b/data/data.go
index 8be4ef1..df78b27 100644
--- a/data/data.go
+++ b/data/data.go
@@ -22,6 +22,18 @@ type DB struct {
 	idxdb IdxDB
 }
 
+// GobEncode implements gob.GobEncoder interface. A DB is never
+// sent, the method allows to send (by RPC) a configuration that
+// has field of this type
+func (d *DB) GobEncode() (_ []byte, _ error) {
+	return
+}
+
+// GobDecode implements gob.GobDecoder interface (see GobEncode)
+func (d *DB) GobDecode([]byte) (_ error) {
+	return
+}
+
 // IdxDB of the DB
 func (d *DB) IdxDB() IdxDB {
 	return d.idxdb
diff --git a/node/rpc.go b/node/rpc.go
index 328916f..eb250fa 100644
--- a/node/rpc.go
+++ b/node/rpc.go
@@ -142,6 +142,17 @@ func (r *RPC) ConnectionsOfFeed(feed cipher.PubKey, cs *[]string) (_ error) {
 // Config is RPC method
 func (r *RPC) Config(_ struct{}, config *Config) (err error) {
 	*config = *r.n.config // copy
+
+	// these can't be sent
+
+	config.Logger.Output = nil
+
+	if config.Config != nil {
+		var sc = *config.Config // copy
+		sc.DB = nil
+		config.Config = &sc
+	}
+
 	return
 
 }
-- 
2.43.0


From 9306340178b3ae3bec778f0d6a992f787ed96d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:41 +0000
Subject: [PATCH 93/93] fix: completion of the command line client offers a
 command there is not (udp subscribe)

---
 cmd/cxocli/cxocli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cxocli/cxocli.go b/cmd/cxocli/cxocli.go
index be1383f..b1e262e 100644
--- a/cmd/cxocli/cxocli.go
+++ b/cmd/cxocli/cxocli.go
@@ -59,7 +59,7 @@ var (
 		"udp connect ",
 		"udp disconnect ",
 
-		"udp subscribe ",
+		"udp subsribe ",
 		"udp unsubscribe ",
 
 		"udp address ",
-- 
2.43.0

