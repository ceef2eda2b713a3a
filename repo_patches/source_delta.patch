From ee3e2f090ab23ae99e721996ed112bd725173597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 01/69] fix: statutil: average the samples of the window only

While the window was not full the incremental update weighted the samples
wrongly, and the error was carried on for ever.
---
 skyobject/statutil/average.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/skyobject/statutil/average.go b/skyobject/statutil/average.go
index 783117e..d4c096d 100644
--- a/skyobject/statutil/average.go
+++ b/skyobject/statutil/average.go
@@ -60,10 +60,17 @@ func NewDuration(n int) (d *Duration) {
 
 		var x = float64(dur)
 
-		average += (x - bins[i]) / float64(c)
 		bins[i] = x
 		i = (i + 1) % n
 
+		// the mean of all samples of the window; the first
+		// c bins are filled while the window is not full
+		var sum float64
+		for _, b := range bins[:c] {
+			sum += b
+		}
+		average = sum / float64(c)
+
 		d.last = time.Duration(average)
 		return d.last
 	}
@@ -121,10 +128,17 @@ func NewFloat(n int) (f *Float) {
 
 		var x = float64(dur)
 
-		average += (x - bins[i]) / float64(c)
 		bins[i] = x
 		i = (i + 1) % n
 
+		// the mean of all samples of the window; the first
+		// c bins are filled while the window is not full
+		var sum float64
+		for _, b := range bins[:c] {
+			sum += b
+		}
+		average = sum / float64(c)
+
 		f.last = average
 		return average
 	}
-- 
2.43.0


From 416887c490e2352b3c231e051b5f8b4b1d1912af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 02/69] fix: node/log: -debug-pins flag takes effect

The pins were copied to the Config before the flags are parsed.
---
 node/log/log.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index a8784de..40f2428 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -52,14 +52,10 @@ func (c *Config) FromFlags() {
 		c.Debug,
 		"print debug logs")
 
-	var pins uint
-
-	flag.UintVar(&pins,
+	flag.UintVar((*uint)(&c.Pins),
 		"debug-pins",
 		uint(c.Pins),
 		"debug pins (default all)")
-
-	c.Pins = Pin(pins)
 }
 
 // A Logger is similar to log.Logger with Debug methods.
-- 
2.43.0


From 3cf718cb1ec472719f46ae2f48bce0afb724db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 03/69] fix: node/log: keep the error and the message of Error,
 Errorln and Errorf as they are

Error and Errorln printed a slice with its brackets, and Errorf took the
text of the error for a part of the format.
---
 node/log/log.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node/log/log.go b/node/log/log.go
index 40f2428..67ecfcb 100644
--- a/node/log/log.go
+++ b/node/log/log.go
@@ -183,20 +183,20 @@ func (l *logger) Error(err error, args ...interface{}) {
 		"[ERR] ",
 		fmt.Sprintf("err=%s ", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprint(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorln(err error, args ...interface{}) {
 	errArgs := []interface{}{
-		"[ERR] ",
-		fmt.Sprintf("err=%s ", err),
+		"[ERR]",
+		fmt.Sprintf("err=%s", err),
 	}
-	l.Output(2, fmt.Sprint(append(errArgs, args...)))
+	l.Output(2, fmt.Sprintln(append(errArgs, args...)...))
 }
 
 func (l *logger) Errorf(err error, format string, args ...interface{}) {
-	format = "[ERR] " + fmt.Sprintf("err=%s ", err) + format
-	l.Output(2, fmt.Sprintf(format, args...))
+	prefix := "[ERR] " + fmt.Sprintf("err=%s ", err)
+	l.Output(2, prefix+fmt.Sprintf(format, args...))
 }
 
 func (l *logger) Pins() Pin {
-- 
2.43.0


From 2dca6b802c3c702d4239e203a465797a7f3b9c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 04/69] fix: data/cxds: Del of the memory CXDS deletes the
 object

It changed the statistics only.
---
 data/cxds/memory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/cxds/memory.go b/data/cxds/memory.go
index 1e6a91c..de688eb 100644
--- a/data/cxds/memory.go
+++ b/data/cxds/memory.go
@@ -196,6 +196,7 @@ func (m *memoryCXDS) Del(key cipher.SHA256) (_ error) {
 	m.amountAll--
 	m.voluemAll -= len(mo.val)
 
+	delete(m.kvs, key)
 	return
 }
 
-- 
2.43.0


From 0a902355237f26e00bb25f31f1a2c9137360698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 05/69] fix: data/cxds: Set of the drive CXDS uses the inc for
 a new object

A new object got count 1 whatever the inc is.
---
 data/cxds/drive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 6dc0d0f..3075b63 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -379,7 +379,7 @@ func (d *driveCXDS) Set(
 			// created
 			d.addAll(len(val))
 
-			rc, err = d.incr(o, key[:], val, 0, 1)
+			rc, err = d.incr(o, key[:], val, 0, inc)
 			return
 		}
 
-- 
2.43.0


From 5fce5affb83921bc210657b156646bf644b66158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 06/69] fix: data: end an iteration after the greatest possible
 key

The next key to seek wrapped to zero, and the iteration started over.
---
 data/cxds/drive.go  | 4 ++++
 data/idxdb/drive.go | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 3075b63..251be66 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -543,6 +543,10 @@ func (d *driveCXDS) IterateDel(
 			}
 
 			incSlice(key[:]) // next
+
+			if key == (cipher.SHA256{}) {
+				return // it was the last possible key
+			}
 		}
 
 		return
diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index c4e06d0..cc432ab 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -147,6 +147,9 @@ func (d *driveFeeds) Iterate(iterateFunc data.IterateFeedsFunc) (err error) {
 			return
 		}
 		incSlice(pk[:])
+		if pk == (cipher.PubKey{}) {
+			return // it was the last possible key
+		}
 	}
 	return
 }
@@ -284,7 +287,9 @@ func (d *driveRoots) Ascend(iterateFunc data.IterateRootsFunc) (err error) {
 			return
 		}
 
-		seq++
+		if seq++; seq == 0 {
+			return // it was the last possible seq
+		}
 		binary.BigEndian.PutUint64(sb, seq)
 		seqb = sb
 	}
-- 
2.43.0


From accaf1ba1b1312a802a3a9f49c245b135a97bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 07/69] fix: data/idxdb: Len counts feeds, heads and roots of
 current transaction

The statistic of a bucket counts buckets of all levels and doesn't see
changes of the transaction.
---
 data/idxdb/drive.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index cc432ab..6141933 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -182,7 +182,17 @@ func (d *driveFeeds) Heads(pk cipher.PubKey) (rs data.Heads, err error) {
 }
 
 func (d *driveFeeds) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return countKeys(d.bk)
+}
+
+// number of keys of given bucket, including
+// changes of current transaction
+func countKeys(bk *bolt.Bucket) (n int) {
+	var c = bk.Cursor()
+	for k, _ := c.First(); k != nil; k, _ = c.Next() {
+		n++
+	}
+	return
 }
 
 type driveHeads struct {
@@ -254,7 +264,7 @@ func (d *driveHeads) Iterate(iterateFunc data.IterateHeadsFunc) (err error) {
 }
 
 func (d *driveHeads) Len() (length int) {
-	return d.bk.Stats().BucketN - 1
+	return countKeys(d.bk)
 }
 
 type driveRoots struct {
@@ -406,7 +416,7 @@ func (d *driveRoots) Has(seq uint64) (yep bool, _ error) {
 
 // Len returns amount of Root objects
 func (d *driveRoots) Len() int {
-	return d.bk.Stats().KeyN
+	return countKeys(d.bk)
 }
 
 func utob(u uint64) (p []byte) {
-- 
2.43.0


From c674c82e330b8348c994e8a9e06f65441d7b281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 08/69] fix: data/cxds: encodeUint32 encodes its argument

The statistics of the drive CXDS were saved as the version number.
---
 data/cxds/cxds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/cxds/cxds.go b/data/cxds/cxds.go
index acb4d62..cf495da 100644
--- a/data/cxds/cxds.go
+++ b/data/cxds/cxds.go
@@ -56,7 +56,7 @@ func versionBytes() []byte {
 
 func encodeUint32(u uint32) (ub []byte) {
 	ub = make([]byte, 4)
-	binary.BigEndian.PutUint32(ub, uint32(Version))
+	binary.BigEndian.PutUint32(ub, u)
 	return
 }
 
-- 
2.43.0


From f3d67d69fe45ae275ffebe081485dcbacf0e4f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 09/69] fix: data/cxds: count the objects of the drive CXDS
 when it opens

The saved statistic is outdated after a crash.
---
 data/cxds/drive.go | 45 ++++++++++++---------------------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 251be66..5edf919 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -145,6 +145,8 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 	return
 }
 
+// loadStat counts the stored objects, since the saved
+// statistic is outdated if the DB has not been closed
 func (d *driveCXDS) loadStat() (err error) {
 
 	d.mx.Lock()
@@ -152,44 +154,21 @@ func (d *driveCXDS) loadStat() (err error) {
 
 	return d.b.View(func(tx *bolt.Tx) (err error) {
 
-		var (
-			info = tx.Bucket(metaBucket)
-			val  []byte
-		)
-
-		// amount all
+		return tx.Bucket(objsBucket).ForEach(func(_, v []byte) (_ error) {
 
-		if val = info.Get(amountAllKey); len(val) != 4 {
-			return ErrWrongValueLength
-		}
+			var vol = len(v) - 4
 
-		d.amountAll = int(decodeUint32(val))
+			d.amountAll++
+			d.volumeAll += vol
 
-		// amount used
-
-		if val = info.Get(amountUsedKey); len(val) != 4 {
-			return ErrWrongValueLength
-		}
-
-		d.amountUsed = int(decodeUint32(val))
-
-		// volume all
-
-		if val = info.Get(volumeAllKey); len(val) != 4 {
-			return ErrWrongValueLength
-		}
-
-		d.volumeAll = int(decodeUint32(val))
-
-		// volume used
-
-		if val = info.Get(volumeUsedKey); len(val) != 4 {
-			return ErrWrongValueLength
-		}
+			if getRefsCount(v) > 0 {
+				d.amountUsed++
+				d.volumeUsed += vol
+			}
 
-		d.volumeUsed = int(decodeUint32(val))
+			return
 
-		return
+		})
 
 	})
 
-- 
2.43.0


From 9c21eda20608e14d50c48042da3d374798d63da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 10/69] fix: data/cxds: keep the statistics if an IterateDel is
 rolled back

---
 data/cxds/drive.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 5edf919..11a3d00 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -488,6 +488,13 @@ func (d *driveCXDS) IterateDel(
 	err error,
 ) {
 
+	type deleted struct {
+		rc  uint32
+		vol int
+	}
+
+	var dels []deleted // stat
+
 	err = d.b.Update(func(tx *bolt.Tx) (err error) {
 
 		var (
@@ -514,11 +521,13 @@ func (d *driveCXDS) IterateDel(
 			}
 
 			if del == true {
+				var vol = len(v) - 4
+
 				if err = c.Delete(); err != nil {
 					return
 				}
 
-				d.del(rc, len(v)-4) // stat
+				dels = append(dels, deleted{rc, vol})
 			}
 
 			incSlice(key[:]) // next
@@ -532,6 +541,14 @@ func (d *driveCXDS) IterateDel(
 
 	})
 
+	if err != nil {
+		return // rolled back
+	}
+
+	for _, dl := range dels {
+		d.del(dl.rc, dl.vol) // stat
+	}
+
 	return
 }
 
-- 
2.43.0


From 21c74dbb93ce1b88a477d8d11f508083d6e1478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:44 +0000
Subject: [PATCH 11/69] fix: data: open a blank DB file left by an interrupted
 creation

---
 data/cxds/drive.go  | 6 ++++--
 data/idxdb/drive.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index 11a3d00..a548771 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -80,8 +80,10 @@ func NewDriveCXDS(fileName string) (ds data.CXDS, err error) {
 		if info == nil {
 
 			// if the file has not been created, then
-			// this DB file seems outdated (version 0)
-			if created == false {
+			// this DB file seems outdated (version 0),
+			// unless it is blank, because its creation
+			// has been interrupted
+			if k, _ := tx.Cursor().First(); created == false && k != nil {
 				return ErrMissingMetaInfo // report
 			}
 
diff --git a/data/idxdb/drive.go b/data/idxdb/drive.go
index 6141933..fec4db4 100644
--- a/data/idxdb/drive.go
+++ b/data/idxdb/drive.go
@@ -49,8 +49,10 @@ func NewDriveIdxDB(fileName string) (idx data.IdxDB, err error) {
 		if info == nil {
 
 			// if the file has not been created, then
-			// this DB file seems outdated (version 0)
-			if created == false {
+			// this DB file seems outdated (version 0),
+			// unless it is blank, because its creation
+			// has been interrupted
+			if k, _ := tx.Cursor().First(); created == false && k != nil {
 				return ErrMissingMetaInfo // report
 			}
 
-- 
2.43.0


From 20007adb81ae80dc8afefdc86d8b74a5618f0487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 12/69] fix: skyobject/registry: Refs saves every full node it
 appends to

---
 skyobject/registry/refs_node.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 7e087e2..10b8a3c 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -1109,16 +1109,11 @@ func (r *Refs) appendNodeGoUp(
 	// is > 0 and the ap.rn.upper contains branches
 	if len(ap.rn.branches) == int(r.degree) {
 
-		// not increased (idle pass)
-		if ap.increase == 0 {
-			return r.appendNodeGoUp(pack, ap, hash) // go up
-		}
-
-		ap.increase = 0 // reset
+		ap.increase = 0 // reset (already bubbled up)
 
 		// TODO (kostyarin): LazyUpdating
 
-		// else -> increased
+		// the node is full, it will not be changed anymore
 		if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
 			return // saving error
 		}
-- 
2.43.0


From 1eba32f34034b074d9054f3c15b52c687b4a5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:59 +0000
Subject: [PATCH 13/69] fix: skyobject/registry: appending to a lazy Refs saves
 all its unsaved changes

---
 skyobject/registry/refs.go      | 14 ++++++++++----
 skyobject/registry/refs_node.go | 17 ++++++++---------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 08e2cbe..1448a59 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -1340,6 +1340,8 @@ func (r *Refs) appnedFunc(
 			return // nothing to finialize
 		}
 
+		var need = r.flags&LazyUpdating == 0 // need != lazy
+
 		// ap.increase > 0, ap.rn contains leafs
 
 		for ; ap.rn != nil; ap.rn, ap.depth = ap.rn.upper, ap.depth+1 {
@@ -1348,16 +1350,20 @@ func (r *Refs) appnedFunc(
 				ap.rn.length += ap.increase
 			}
 
-			if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
+			if err = ap.rn.updateHashIfNeed(pack, ap.depth, need); err != nil {
 				return // saving error
 			}
 
 		}
 
-		// TODO (kostyarin): LazyUpdating
+		if need == true {
+			return r.updateHashIfNeed(pack, true)
+		}
+
+		// there can be other modified and not updated
+		// subtrees, thus update all of them with the tail
 
-		err = r.updateHashIfNeed(pack, true)
-		return
+		return r.walkUpdating(pack)
 
 	}
 
diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 10b8a3c..f1cad76 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -1111,10 +1111,11 @@ func (r *Refs) appendNodeGoUp(
 
 		ap.increase = 0 // reset (already bubbled up)
 
-		// TODO (kostyarin): LazyUpdating
-
 		// the node is full, it will not be changed anymore
-		if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
+		err = ap.rn.updateHashIfNeed(pack, ap.depth,
+			r.flags&LazyUpdating == 0)
+
+		if err != nil {
 			return // saving error
 		}
 
@@ -1158,8 +1159,10 @@ func (r *Refs) appendNode(
 
 		if len(ap.rn.leafs) == int(r.degree) { // full
 
-			// TODO (kostyarin): LazyUpdating
-			if err = ap.rn.updateHashIfNeed(pack, ap.depth, true); err != nil {
+			err = ap.rn.updateHashIfNeed(pack, ap.depth,
+				r.flags&LazyUpdating == 0)
+
+			if err != nil {
 				return // saving error
 			}
 
@@ -1179,8 +1182,6 @@ func (r *Refs) appendNode(
 		ap.rn.leafs = append(ap.rn.leafs, el)
 		ap.rn.length++ // add
 
-		// TODO (kostyarin): LazyUpdating
-
 		ap.increase++ // increase the length
 
 		return nil // the same point
@@ -1197,8 +1198,6 @@ func (r *Refs) appendNode(
 
 			// just append branch if the rn.branches is empty
 
-			// TODO (kostyarin): LazyUpdating
-
 			var br = &refsNode{
 				upper: ap.rn,
 				mods:  loadedMod,
-- 
2.43.0


From f57e05e053fadc4edb4fc8bc59966e631bebfe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:00 +0000
Subject: [PATCH 14/69] fix: skyobject/registry: deleting by the hash table
 keeps unsaved changes of a lazy Refs

---
 skyobject/registry/refs.go      | 21 +++------------------
 skyobject/registry/refs_node.go | 20 ++++----------------
 2 files changed, 7 insertions(+), 34 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index 1448a59..b9ddb9f 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -721,32 +721,17 @@ func (r *Refs) deleteByHashUsingHashTable(
 		return ErrNotFound // nothing to delete
 	}
 
-	// if the Refs contains one element with the hash,
-	// then we update subtree in place, otherwise
-	// we call walkUpdating in the end
-
-	var one = len(els) == 1 // only one element
-
 	delete(r.refsIndex, hash) // remove all from the index
 
 	for _, el := range els {
-		if err = r.deleteElement(pack, el, one); err != nil {
+		if err = r.deleteElement(el); err != nil {
 			return // error
 		}
 	}
 
-	// if the one is true, then everything is up to date
-	// and we have to update the Refs (the root) only;
-	// otherwise, we update all modified subtrees
-
-	// if not lazy
+	// update all modified subtrees if not lazy
 	if r.flags&LazyUpdating == 0 {
-		if one == true {
-			err = r.updateHash(pack)
-		} else {
-			err = r.walkUpdating(pack)
-		}
-		if err != nil {
+		if err = r.walkUpdating(pack); err != nil {
 			return
 		}
 	}
diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index f1cad76..25aa024 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -573,17 +573,14 @@ func (r *refsNode) elementIndex(el *refsElement) (i int, err error) {
 // index or will be removed later (this method doesn't
 // remove the element from the hash-table)
 func (r *Refs) deleteElement(
-	pack Pack, //       : pack to save
 	el *refsElement, // : element to delete
-	update bool, //     : update subtree
 ) (
 	err error, //       : error if any
 ) {
 
 	var (
-		up    = el.upper // node with leafs
-		i     int        // index of the el in the up
-		depth int        //
+		up = el.upper // node with leafs
+		i  int        // index of the el in the up
 	)
 
 	if i, err = up.elementIndex(el); err != nil {
@@ -592,18 +589,9 @@ func (r *Refs) deleteElement(
 
 	up.deleteElementByIndex(i)
 
-	for ; up != nil; up, depth = up.upper, depth+1 {
-
+	for ; up != nil; up = up.upper {
 		up.length--
-		up.mods |= contentMod
-
-		if update == true {
-			err = up.updateHashIfNeed(pack, depth, update)
-			if err != nil {
-				return
-			}
-		}
-
+		up.mods |= contentMod // should be updated later
 	}
 
 	return
-- 
2.43.0


From 899175f114c72526585884deb21eb8be44d6ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:41 +0000
Subject: [PATCH 15/69] fix: skyobject/registry: deleting by the hash table
 removes nodes that became empty

---
 skyobject/registry/refs_node.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 25aa024..9251d30 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -466,6 +466,15 @@ func (r *refsNode) deleteNodeByIndex(i int) {
 	r.branches = r.branches[:len(r.branches)-1]
 }
 
+func (r *refsNode) deleteNode(rn *refsNode) {
+	for i, br := range r.branches {
+		if br == rn {
+			r.deleteNodeByIndex(i)
+			return
+		}
+	}
+}
+
 // deleteElementByIndex deletes *refsElemet by given index
 func (r *Refs) deleteElementByIndex(
 	pack Pack, //    : pack to load
@@ -592,6 +601,10 @@ func (r *Refs) deleteElement(
 	for ; up != nil; up = up.upper {
 		up.length--
 		up.mods |= contentMod // should be updated later
+
+		if up.length == 0 && up.upper != nil {
+			up.upper.deleteNode(up) // delete the node, because it's empty
+		}
 	}
 
 	return
-- 
2.43.0


From 94b8a2a01857c12105296580528be1dd2e113e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:53 +0000
Subject: [PATCH 16/69] fix: skyobject/registry: changes of a Refs inside an
 iteration are visible to the iteration

---
 skyobject/registry/refs.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index b9ddb9f..f3e0531 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -188,6 +188,7 @@ func (r *Refs) SetDegree(pack Pack, degree Degree) (err error) {
 
 	*r = *nr
 
+	r.rewindIterators() // for iterators
 	return
 }
 
@@ -815,7 +816,11 @@ func (r *Refs) startIteration() {
 // stopIteration method should be called using
 // defer statement
 func (r *Refs) stopIteration() {
-	r.iterators = r.iterators[:len(r.iterators)-1]
+	var li = len(r.iterators) - 1
+	if li > 0 && r.iterators[li] == true {
+		r.iterators[li-1] = true // pass to next
+	}
+	r.iterators = r.iterators[:li]
 }
 
 // isFindingIteratorsIndexFromRootRequired used by an iterator
@@ -891,7 +896,13 @@ func (r *Refs) ascendFrom(
 		// so, we need to find next element from root of the Refs
 		if rewind == true {
 			i += pass // shift the i to don't repeat elements
-			continue  // find next index from root of the Refs
+
+			// the Refs can be cleared
+			if err = r.initialize(pack); err != nil {
+				return
+			}
+
+			continue // find next index from root of the Refs
 		}
 
 		// the loop is necessary for rewinding only
@@ -987,6 +998,11 @@ func (r *Refs) descendFrom(
 		if rewind == true {
 			i -= pass // shift the i to don't repeat elements
 
+			// the Refs can be cleared
+			if err = r.initialize(pack); err != nil {
+				return
+			}
+
 			// if the length has been changed
 			if i >= r.length {
 				return ErrIndexOutOfRange // out
@@ -1446,9 +1462,11 @@ func (r *Refs) Append(
 			return // error
 		}
 
-		*r = *nr // replace this Refs with new extended
+		nr.iterators = r.iterators // copy iterators
+		*r = *nr                   // replace this Refs with new extended
 
-		return // done
+		r.rewindIterators() // for iterators
+		return              // done
 
 	}
 
@@ -1464,7 +1482,8 @@ func (r *Refs) Append(
 		return
 	}
 
-	return // done
+	r.rewindIterators() // for iterators
+	return              // done
 
 }
 
@@ -1585,7 +1604,8 @@ func (r *Refs) AppendHashes(
 		nr.iterators = r.iterators // copy iterators
 		*r = *nr                   // replace this Refs with new extended
 
-		return // done
+		r.rewindIterators() // for iterators
+		return              // done
 
 	}
 
@@ -1605,13 +1625,15 @@ func (r *Refs) AppendHashes(
 		return // error
 	}
 
-	return // done
+	r.rewindIterators() // for iterators
+	return              // done
 
 }
 
 // Clear the Refs making it blank
 func (r *Refs) Clear() {
-	*r = Refs{}
+	*r = Refs{iterators: r.iterators} // keep iterators
+	r.rewindIterators()               // for iterators
 }
 
 // Rebuild the Refs if need. The Refs can contain
-- 
2.43.0


From e767129d63ee43809f1724f284f60f7056ed3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 17/69] fix: skyobject/registry: walk and split arrays and
 slices of references

---
 skyobject/registry/split.go | 4 ++--
 skyobject/registry/walk.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index 9886274..d3c3a28 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -201,7 +201,7 @@ func splitArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of array %q is nil", sch))
 		return
 	}
@@ -227,7 +227,7 @@ func splitSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		s.Fail(fmt.Errorf("Schema of element of slice %q is nil", sch))
 		return
 	}
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index b9173c3..0dc1991 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -136,7 +136,7 @@ func walkArray(
 ) {
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		// just avoid panic if the Scehma is invlaid;
 		// any invalid Schema shuld not break CXO, since
 		// we are not trusting remote nodes, even if they
@@ -165,7 +165,7 @@ func walkSlice(
 	}
 
 	var el Schema // Schema of the element
-	if el = sch.Elem(); el != nil {
+	if el = sch.Elem(); el == nil {
 		return fmt.Errorf("Schema of element of slice %q is nil", sch)
 	}
 
-- 
2.43.0


From 588e8adec029b39babe575b25a3bf84d94772101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 18/69] fix: skyobject/registry: Refs.Walk does not go deeper
 from a blank element

---
 skyobject/registry/refs_walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 6b88015..03c8f87 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -199,7 +199,7 @@ func (r *Refs) walkNode(
 				}
 				return
 
-			} else if deepper == true {
+			} else if deepper == true && leaf.Hash != (cipher.SHA256{}) {
 
 				err = walkSchemaHash(pack, sch, leaf.Hash, walkFunc)
 
-- 
2.43.0


From a86c16363c3ff44c2230423aaeedff9233792f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 19/69] fix: skyobject/registry: Refs.Walk saves unsaved
 changes before walking

---
 skyobject/registry/refs_walk.go | 40 +++++++++++++++------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/skyobject/registry/refs_walk.go b/skyobject/registry/refs_walk.go
index 03c8f87..cbef95a 100644
--- a/skyobject/registry/refs_walk.go
+++ b/skyobject/registry/refs_walk.go
@@ -109,35 +109,31 @@ func (r *Refs) Walk(
 		}
 	}()
 
-	if r.Hash == (cipher.SHA256{}) {
+	if r.refsNode != nil && r.mods&loadedMod != 0 {
 
-		if r.refsNode != nil && r.mods&loadedMod != 0 {
+		// the Refs is loaded (e.g. initialized) and we have to
+		// check its state and update all hashes that not updated yet
+		// to get actual hashes of nodes
 
-			// the Refs is loaded (e.g. initialized) and we have to
-			// check its state and update all hashes that not updated yet
-			// to get actual hashes of nodes
-
-			if err = r.walkUpdating(pack); err != nil {
-				return // an error
-			}
-
-			if r.Hash == (cipher.SHA256{}) {
-				// So, the Refs is initialized and updated and still blank
-				return r.walkBlank(walkFunc)
-			}
+		if err = r.walkUpdating(pack); err != nil {
+			return // an error
+		}
 
-			// else -> the Refs already initialized, let's walk
+		if r.Hash == (cipher.SHA256{}) {
+			// So, the Refs is initialized and updated and still blank
+			return r.walkBlank(walkFunc)
+		}
 
-		} else {
+		// else -> the Refs already initialized, let's walk
 
-			// the Refs represents blank Refs and we should not initialize it;
-			// the only one hash of the Refs is Refs.Hash that is blank. So
-			// let's call the function
-			return r.walkBlank(walkFunc)
+	} else if r.Hash == (cipher.SHA256{}) {
 
-		}
+		// the Refs represents blank Refs and we should not initialize it;
+		// the only one hash of the Refs is Refs.Hash that is blank. So
+		// let's call the function
+		return r.walkBlank(walkFunc)
 
-	} else if r.refsNode == nil {
+	} else {
 
 		// the Refs is not initialized
 
-- 
2.43.0


From cf365c8039b40200af6a280367ec26764ed9ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:01 +0000
Subject: [PATCH 20/69] fix: skyobject/registry: refuse or survive malformed
 registries and values

DecodeRegistry ignored errors of decoding and panicked or overflowed the
stack (missing, endless or inconsistent schemas); arrays of zero-size
elements were looped over; Tree sliced values out of range.
---
 skyobject/registry/registry.go       | 141 +++++++++++++++++++++++----
 skyobject/registry/root_tree.go      |  64 +++++-------
 skyobject/registry/schema.go         |   7 +-
 skyobject/registry/schema_helpers.go |  33 +++++++
 skyobject/registry/split.go          |   4 +
 skyobject/registry/walk.go           |   4 +
 6 files changed, 190 insertions(+), 63 deletions(-)

diff --git a/skyobject/registry/registry.go b/skyobject/registry/registry.go
index 2803ada..035203d 100644
--- a/skyobject/registry/registry.go
+++ b/skyobject/registry/registry.go
@@ -1,6 +1,7 @@
 package registry
 
 import (
+	"bytes"
 	"fmt"
 	"reflect"
 	"sort"
@@ -51,12 +52,31 @@ func DecodeRegistry(b []byte) (r *Registry, err error) {
 	r = newRegistry()
 
 	for _, re := range res {
-		s, err = decodeSchema(re.Schema)
+
+		if s, err = decodeSchema(re.Schema); err != nil {
+			return nil, err
+		}
+
+		// only named structures can be registered, and only once
+		if _, ok := r.reg[re.Name]; ok == true ||
+			s.IsRegistered() == false || s.Name() != re.Name {
+
+			return nil, ErrInvalidEncodedSchema
+		}
+
 		r.reg[re.Name] = s
-		r.srf[s.Reference()] = s
 	}
 
-	r.finialize()
+	for _, s = range r.reg {
+		if err = r.checkFields(s); err != nil {
+			return nil, err
+		}
+	}
+
+	if err = r.finialize(); err != nil {
+		return nil, err
+	}
+
 	return
 }
 
@@ -78,7 +98,10 @@ func NewRegistry(cl func(t *Reg)) (r *Registry) {
 	r.nt = make(map[string]reflect.Type)
 
 	r.register(reg)
-	r.finialize()
+
+	if err := r.finialize(); err != nil {
+		panic(err)
+	}
 
 	return
 }
@@ -150,25 +173,29 @@ func (r *Registry) register(reg *Reg) {
 
 // set proper references for schemas that has references to
 // another schemas, such as arrays, slices and structs
-func (r *Registry) fillSchema(s Schema, filled map[Schema]struct{}) {
+func (r *Registry) fillSchema(
+	s Schema,
+	filled map[Schema]struct{},
+) (
+	err error,
+) {
 	if _, ok := filled[s]; ok {
 		return // already
 	}
 	filled[s] = struct{}{} // filling
-	var err error
 	if s.IsReference() {
 		switch s.ReferenceType() {
 		case ReferenceTypeSingle, ReferenceTypeSlice:
 			x := s.(*referenceSchema)
 			x.elem, err = r.schemaByName(x.elem.Name())
 			if err != nil {
-				panic(err)
+				return
 			}
-			r.fillSchema(x.elem, filled)
+			return r.fillSchema(x.elem, filled)
 		case ReferenceTypeDynamic:
 			// do nothing
 		default:
-			panic("invalid reference: " + s.String())
+			err = fmt.Errorf("invalid reference: %s", s.String())
 		}
 		return
 	}
@@ -178,32 +205,102 @@ func (r *Registry) fillSchema(s Schema, filled map[Schema]struct{}) {
 		if s.Elem().IsRegistered() {
 			x.elem, err = r.schemaByName(s.Elem().Name())
 			if err != nil {
-				panic(err)
+				return
 			}
 		}
-		r.fillSchema(x.elem, filled)
+		return r.fillSchema(x.elem, filled)
 	case reflect.Slice:
 		x := s.(*sliceSchema)
 		if s.Elem().IsRegistered() {
 			x.elem, err = r.schemaByName(s.Elem().Name())
 			if err != nil {
-				panic(err)
+				return
 			}
 		}
-		r.fillSchema(x.elem, filled)
+		return r.fillSchema(x.elem, filled)
 	case reflect.Struct:
 		for i, f := range s.Fields() {
 			x := f.(*field)
 			if fs := f.Schema(); fs.IsRegistered() {
 				x.schema, err = r.schemaByName(fs.Name())
 				if err != nil {
-					panic(err)
+					return
 				}
 			}
-			r.fillSchema(x.schema, filled)
+			if err = r.fillSchema(x.schema, filled); err != nil {
+				return
+			}
 			s.(*structSchema).fields[i] = x
 		}
 	}
+	return
+}
+
+// a field of registered type contains encoded schema of the type; the
+// checkFields checks decoded schema before the filling: all the schemas
+// should be the same as the registered ones
+func (r *Registry) checkFields(s Schema) (err error) {
+	if s.IsReference() == true {
+		return
+	}
+	switch s.Kind() {
+	case reflect.Array, reflect.Slice:
+		if s.Elem().IsRegistered() == true {
+			return // contains name only
+		}
+		return r.checkFields(s.Elem())
+	case reflect.Struct:
+		for _, f := range s.Fields() {
+			fs := f.Schema()
+			if fs.IsRegistered() == true {
+				var reg Schema
+				if reg, err = r.schemaByName(fs.Name()); err != nil {
+					return
+				}
+				if bytes.Equal(reg.Encode(), fs.Encode()) == false {
+					return ErrInvalidEncodedSchema
+				}
+				continue
+			}
+			if err = r.checkFields(fs); err != nil {
+				return
+			}
+		}
+	}
+	return
+}
+
+// a schema that contains itself by value is endless; the checkSchema
+// returns error for such schemas; the checked is false for schemas the
+// checking of which is not finished yet; a slice of itself is allowed
+func checkSchema(s Schema, checked map[Schema]bool) (err error) {
+	if s.IsReference() == true {
+		return
+	}
+	switch s.Kind() {
+	case reflect.Slice:
+		if s.Elem().IsRegistered() == true {
+			return
+		}
+		return checkSchema(s.Elem(), checked)
+	case reflect.Array:
+		return checkSchema(s.Elem(), checked)
+	case reflect.Struct:
+		if done, ok := checked[s]; ok == true {
+			if done == false {
+				err = fmt.Errorf("schema %q contains itself", s.String())
+			}
+			return
+		}
+		checked[s] = false
+		for _, f := range s.Fields() {
+			if err = checkSchema(f.Schema(), checked); err != nil {
+				return
+			}
+		}
+		checked[s] = true
+	}
+	return
 }
 
 func (r *Registry) schemaByName(name string) (s Schema, err error) {
@@ -214,10 +311,19 @@ func (r *Registry) schemaByName(name string) (s Schema, err error) {
 	return
 }
 
-func (r *Registry) finialize() {
+func (r *Registry) finialize() (err error) {
 	filled := make(map[Schema]struct{})
 	for _, sch := range r.reg {
-		r.fillSchema(sch, filled)
+		if err = r.fillSchema(sch, filled); err != nil {
+			return
+		}
+	}
+
+	checked := make(map[Schema]bool)
+	for _, sch := range r.reg {
+		if err = checkSchema(sch, checked); err != nil {
+			return
+		}
 	}
 
 	// fill up map by SchemaRef
@@ -227,6 +333,7 @@ func (r *Registry) finialize() {
 
 	encoded := r.Encode()
 	r.ref = RegistryRef(cipher.SumSHA256(encoded))
+	return
 }
 
 // TagSchemaName returns schema name from given reflect.StructTag.
diff --git a/skyobject/registry/root_tree.go b/skyobject/registry/root_tree.go
index cc0df01..e6ead67 100644
--- a/skyobject/registry/root_tree.go
+++ b/skyobject/registry/root_tree.go
@@ -438,54 +438,36 @@ func rootTreeSlice(pack Pack, sch Schema, val []byte) (it *gotree.GTStructure) {
 
 	}
 
-	var m, s, k int
+	var m, k int
 
-	if s = fixedSize(el.Kind()); s < 0 {
-
-		for k = 0; k < ln; k++ {
-
-			if shift+s > len(val) {
-				it.Items = append(it.Items, &gotree.GTStructure{
-					Name: fmt.Sprintf(
-						"(err) unexpected end of %s at %d element",
-						sch.Kind().String(), k),
-				})
-				return
-			}
-
-			it.Items = append(
-				it.Items,
-				rootTreeData(pack, el, val[shift:shift+s]),
-			)
-			shift += s
+	for k = 0; k < ln; k++ {
 
+		if shift > len(val) {
+			it.Items = append(it.Items, &gotree.GTStructure{
+				Name: fmt.Sprintf(
+					"(err) unexpected end of %s at %d element",
+					sch.Kind().String(), k),
+			})
+			return
 		}
 
-	} else {
-
-		for k = 0; k < ln; k++ {
-
-			if shift > len(val) {
-				it.Items = append(it.Items, &gotree.GTStructure{
-					Name: fmt.Sprintf(
-						"(err) unexpected end of %s at %d element",
-						sch.Kind().String(), k),
-				})
-				return
-			}
-
-			if m, err = el.Size(val[shift:]); err != nil {
-				return
-			}
-
-			it.Items = append(
-				it.Items,
-				rootTreeData(pack, el, val[shift:shift+m]),
-			)
-			shift += m
+		if m, err = el.Size(val[shift:]); err != nil {
+			it.Items = append(it.Items, &gotree.GTStructure{
+				Name: "(err) " + err.Error(),
+			})
+			return
+		}
 
+		if m == 0 {
+			return // all elements are zero-size
 		}
 
+		it.Items = append(
+			it.Items,
+			rootTreeData(pack, el, val[shift:shift+m]),
+		)
+		shift += m
+
 	}
 
 	return
diff --git a/skyobject/registry/schema.go b/skyobject/registry/schema.go
index f504730..66dc1bb 100644
--- a/skyobject/registry/schema.go
+++ b/skyobject/registry/schema.go
@@ -258,7 +258,7 @@ type sliceSchema struct {
 }
 
 func (s *sliceSchema) HasReferences() bool {
-	return s.elem.HasReferences()
+	return hasReferences(s.elem, nil)
 }
 
 func (s *sliceSchema) Reference() SchemaRef {
@@ -364,10 +364,7 @@ type structSchema struct {
 }
 
 func (s *structSchema) HasReferences() (has bool) {
-	for _, fl := range s.fields {
-		has = has || fl.Schema().HasReferences()
-	}
-	return
+	return hasReferences(s, nil)
 }
 
 func (s *structSchema) Reference() SchemaRef {
diff --git a/skyobject/registry/schema_helpers.go b/skyobject/registry/schema_helpers.go
index a4e6538..d473453 100644
--- a/skyobject/registry/schema_helpers.go
+++ b/skyobject/registry/schema_helpers.go
@@ -41,12 +41,45 @@ func schemaArraySliceSize(el Schema, l, shift int, p []byte) (n int,
 			if m, err = el.Size(p[n:]); err != nil {
 				return
 			}
+			if m == 0 {
+				return // all elements are zero-size
+			}
 			n += m
 		}
 	}
 	return
 }
 
+// hasReferences looks for references inside the schema; a struct can
+// contain a slice of the struct, and the seen contains structs that
+// already looked at
+func hasReferences(s Schema, seen map[Schema]struct{}) bool {
+
+	if s.IsReference() == true {
+		return true
+	}
+
+	switch s.Kind() {
+	case reflect.Array, reflect.Slice:
+		return hasReferences(s.Elem(), seen)
+	case reflect.Struct:
+		if _, ok := seen[s]; ok == true {
+			return false
+		}
+		if seen == nil {
+			seen = make(map[Schema]struct{})
+		}
+		seen[s] = struct{}{}
+		for _, fl := range s.Fields() {
+			if hasReferences(fl.Schema(), seen) == true {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
 // getLength of length prefixed values
 // (like slice of string)
 func getLength(p []byte) (l int, err error) {
diff --git a/skyobject/registry/split.go b/skyobject/registry/split.go
index d3c3a28..be0ac52 100644
--- a/skyobject/registry/split.go
+++ b/skyobject/registry/split.go
@@ -268,6 +268,10 @@ func splitArraySlice(
 			return
 		}
 
+		if m == 0 {
+			return // all elements are zero-size
+		}
+
 		// split
 		splitSchemaDataAsync(s, el, val[shift:shift+m])
 
diff --git a/skyobject/registry/walk.go b/skyobject/registry/walk.go
index 0dc1991..878f144 100644
--- a/skyobject/registry/walk.go
+++ b/skyobject/registry/walk.go
@@ -204,6 +204,10 @@ func walkArraySlice(
 			return
 		}
 
+		if m == 0 {
+			return // all elements are zero-size
+		}
+
 		// if we are here, then the el contains references
 		// and we don't need to call el.HasReferences(),
 		// we just walk the element
-- 
2.43.0


From b559f76df29c7afadd8493c093b9f78e8bd97a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:22 +0000
Subject: [PATCH 21/69] fix: skyobject/registry: refuse malformed encoded lists

A list (or node) that is longer or deeper than it can be, or lengths of
branches of which do not agree, led to endless loops and panics; a list
that failed to load was taken for a loaded one.
---
 skyobject/registry/refs.go      | 14 +++++-
 skyobject/registry/refs_node.go | 78 ++++++++++++++++++++++++++++++++-
 2 files changed, 90 insertions(+), 2 deletions(-)

diff --git a/skyobject/registry/refs.go b/skyobject/registry/refs.go
index f3e0531..b36431a 100644
--- a/skyobject/registry/refs.go
+++ b/skyobject/registry/refs.go
@@ -82,6 +82,12 @@ func (r *Refs) initialize(pack Pack) (err error) {
 		return // already initialized
 	}
 
+	defer func() {
+		if err != nil {
+			*r = Refs{Hash: r.Hash} // can't be used
+		}
+	}()
+
 	// r.refsNode.hash is always blank
 	r.refsNode = new(refsNode)
 
@@ -112,10 +118,16 @@ func (r *Refs) initialize(pack Pack) (err error) {
 
 	r.length = int(er.Length)
 
-	if r.length == 0 || r.degree.Validate() != nil {
+	if r.degree.Validate() != nil || er.Depth > maxRefsDepth {
 		return ErrInvalidEncodedRefs // invalid state
 	}
 
+	err = r.validateElements(r.length, r.depth, len(er.Elements))
+
+	if err != nil {
+		return // invalid state
+	}
+
 	return r.loadSubtree(pack, r.refsNode, er.Elements, r.depth)
 }
 
diff --git a/skyobject/registry/refs_node.go b/skyobject/registry/refs_node.go
index 9251d30..67affff 100644
--- a/skyobject/registry/refs_node.go
+++ b/skyobject/registry/refs_node.go
@@ -131,6 +131,10 @@ func (r *Refs) loadBranches(
 		rn.branches = append(rn.branches, br)
 	}
 
+	if err = rn.validateBranches(); err != nil {
+		return
+	}
+
 	rn.mods |= loadedMod // use flag to mark as loaded
 
 	return
@@ -173,11 +177,71 @@ func (r *Refs) loadNode(
 		return // get or decoding error
 	}
 
+	err = r.validateElements(int(ern.Length), depth, len(ern.Elements))
+
+	if err != nil {
+		return // invalid node
+	}
+
 	rn.length = int(ern.Length)
 
 	return r.loadSubtree(pack, rn, ern.Elements, depth) // depth is the same
 }
 
+// a Refs that contains as many elements as it's
+// possible has this depth if the degree is 2
+const maxRefsDepth = 31
+
+// validateElements of encoded node (or of encoded Refs); a node
+// can't be blank, can't contain elements more then the degree, and
+// the length of the node should be possible
+func (r *Refs) validateElements(
+	length int, //   : length of the node
+	depth int, //    : depth of the node
+	elements int, // : number of elements of the node
+) (
+	err error, //    : invalid encoded refs
+) {
+
+	if elements == 0 || elements > int(r.degree) || length < elements {
+		return ErrInvalidEncodedRefs
+	}
+
+	// max possible length
+
+	var max = elements
+	for ; depth > 0 && max < length; depth-- {
+		max *= int(r.degree)
+	}
+
+	if length > max {
+		return ErrInvalidEncodedRefs
+	}
+
+	return
+}
+
+// validateBranches checks lengths of loaded branches of the node;
+// branches that are not loaded yet contain at least one element
+func (r *refsNode) validateBranches() (err error) {
+
+	var length, unloaded int
+
+	for _, br := range r.branches {
+		if br.isLoaded() == true {
+			length += br.length
+		} else {
+			unloaded++
+		}
+	}
+
+	if length+unloaded > r.length || (unloaded == 0 && length != r.length) {
+		err = ErrInvalidEncodedRefs
+	}
+
+	return
+}
+
 // isLoaded returns true if the node is loaded
 func (r *refsNode) isLoaded() bool {
 	return r.mods&loadedMod != 0
@@ -197,7 +261,19 @@ func (r *Refs) loadNodeIfNeed(
 		return // already loaded
 	}
 
-	return r.loadNode(pack, rn, depth)
+	if err = r.loadNode(pack, rn, depth); err != nil {
+		return
+	}
+
+	if rn.upper == nil {
+		return
+	}
+
+	if err = rn.upper.validateBranches(); err != nil {
+		*rn = refsNode{hash: rn.hash, upper: rn.upper} // unload
+	}
+
+	return
 }
 
 //
-- 
2.43.0


From b5461d7498e2e3bb34980085075aead080499200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:11 +0000
Subject: [PATCH 22/69] fix: skyobject: closing the cache forgets wanted
 objects and saves the others

---
 skyobject/cache.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 3bf3693..4ba8586 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -262,25 +262,22 @@ func (c *Cache) Close() (err error) {
 	// sync items
 	for key, it := range c.is {
 
-		// make wanted items filling
-		if it.isWanted() == true {
-			for _, winc := range it.fwant {
-				it.fc += winc
-			}
-			it.fwant = nil
-		}
+		it.fwant = nil // wanted items are not in DB
 
 		it.cc -= it.fc // remove all fincs
 		it.fc = 0
 
-		if err = c.delete(key, it); err != nil {
-			return
+		// sync as many items as possible, keeping first error
+		if der := c.delete(key, it); der != nil && err == nil {
+			err = der
 		}
 
 	}
 
 	// close the CXDS
-	err = c.c.db.CXDS().Close()
+	if cer := c.c.db.CXDS().Close(); cer != nil && err == nil {
+		err = cer
+	}
 	c.stat.Close() // close goroutine
 
 	return
-- 
2.43.0


From d324d8fc1a6f23365a37b2f2ddfcf3bc52b69fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:11 +0000
Subject: [PATCH 23/69] fix: skyobject: an object wanted by those who do not
 hold it is delivered

---
 skyobject/cache.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 4ba8586..4738520 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -739,6 +739,18 @@ func (c *Cache) setWanted(
 		wincs += winc
 	}
 
+	// if nobody holds the object, then it should
+	// not be saved, the wanters just receive it
+	if inc+wincs == 0 {
+
+		for gc := range it.fwant {
+			sendWanted(gc, Object{key, val, 0, nil})
+		}
+
+		delete(c.is, key)
+		return
+	}
+
 	// save
 	var urc uint32
 	urc, err = c.db().Set(key, val, inc+wincs)
-- 
2.43.0


From 718ea933cc44b494b320cd66861dc51aa916e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:11 +0000
Subject: [PATCH 24/69] fix: skyobject: Inc of an object that is not cached
 returns its count

---
 skyobject/cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 4738520..0a16477 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -965,7 +965,9 @@ func (c *Cache) inc(
 		return
 	}
 
-	err = c.putItem(key, val, int(urc))
+	rc = int(urc) // hard rc
+
+	err = c.putItem(key, val, rc)
 	return
 
 }
-- 
2.43.0


From a3226ecd04d50156fc31e864962a58b308593d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:35 +0000
Subject: [PATCH 25/69] fix: skyobject: Want of a cached object increases its
 count

---
 skyobject/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 0a16477..b885f1c 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1052,6 +1052,7 @@ func (c *Cache) Want(
 
 		// regular item in the cache
 
+		it.cc += inc
 		it.fc += inc
 		sendWanted(gc, Object{key, it.val, it.cc - it.fc, nil})
 
-- 
2.43.0


From cfa1fd2aebb9e9152689c085603f595bd7e5584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:07 +0000
Subject: [PATCH 26/69] fix: skyobject: the cache doesn't keep items without
 values that nobody fills

---
 skyobject/cache.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index b885f1c..eb9727f 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -490,6 +490,15 @@ func (c *Cache) putFillingItem(
 	return
 }
 
+// remove the item from the Cache if it's not wanted,
+// not filling and doesn't keep a value (if the value
+// is too big for the Cache or the Cache is disabled)
+func (c *Cache) dropUnused(key cipher.SHA256, it *item) {
+	if it.isWanted() == false && it.isFilling() == true && it.fc == 0 {
+		delete(c.is, key)
+	}
+}
+
 func incr(cc, inc int) (dcc int) {
 	if cc+inc < 0 {
 		return // 0
@@ -773,6 +782,7 @@ func (c *Cache) setWanted(
 	it.fc += wincs // incs of fillers (of wanters)
 
 	err = c.putFillingItem(val, int(urc), it)
+	c.dropUnused(key, it)
 	return
 }
 
@@ -1101,6 +1111,7 @@ func (c *Cache) Want(
 	c.is[key] = it
 
 	err = c.putFillingItem(val, int(urc), it)
+	c.dropUnused(key, it)
 	return
 }
 
@@ -1233,5 +1244,6 @@ func (c *Cache) Finc(
 	// incItem removes it
 
 	_, err = c.incItem(key, inc, it) // in db
+	c.dropUnused(key, it)
 	return
 }
-- 
2.43.0


From 37a1a34ac882e54c10e87a74651b6f4dc9035ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 27/69] fix: skyobject: cleaning the cache skips wanted and
 filling items

---
 skyobject/cache.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index eb9727f..07aaa2e 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -335,11 +335,11 @@ func (c *Cache) cleanDown(vol int) (err error) {
 	for key, it := range c.is {
 
 		if it.isWanted() == true {
-			return // skip wanted
+			continue // skip wanted
 		}
 
 		if it.isFilling() == true {
-			return // skip filling (where val is nil)
+			continue // skip filling (where val is nil)
 		}
 
 		rank = append(rank, &rankItem{key, it})
@@ -357,28 +357,21 @@ func (c *Cache) cleanDown(vol int) (err error) {
 
 	if c.amount+1 > c.c.conf.CacheMaxAmount {
 
-		var (
-			i  int       // to reduce the rank slice
-			ri *rankItem // for the range (we need the i)
-		)
-
-		for i, ri = range rank {
+		for len(rank) > 0 {
 
 			if c.amount < c.amountc { // actually, `amount + 1 == ...`
 				break
 			}
 
 			// delete item from the Cache
-			if err = c.delete(ri.key, ri.it); err != nil {
+			if err = c.delete(rank[0].key, rank[0].it); err != nil {
 				return // fail on first error
 			}
 
-			rank[i].it = nil // GC
+			rank = rank[1:] // shift
 
 		}
 
-		rank = rank[i:] // shift
-
 	}
 
 	// clean by volume if need
-- 
2.43.0


From b1416c1ac8113636ede37695b8c64e306ea08c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:28 +0000
Subject: [PATCH 28/69] fix: skyobject: the cache of registries is limited and
 drops the least used one

---
 skyobject/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 07aaa2e..23c3ca5 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -181,7 +181,7 @@ func (c *Cache) addRegistryToCache(r *registry.Registry) {
 		)
 
 		for rr, ir := range c.rs {
-			if ir.cachePoints > tormp {
+			if tormr == (registry.RegistryRef{}) || ir.cachePoints < tormp {
 				tormr = rr
 				tormp = ir.cachePoints
 			}
@@ -245,7 +245,7 @@ func (c *Cache) Registry(
 		return
 	}
 
-	if c.c.conf.CacheRegistries >= 0 {
+	if c.c.conf.CacheRegistries > 0 {
 		c.addRegistryToCache(r)
 	}
 
-- 
2.43.0


From 9ce646a22a6bc9a139ce32009e0ae16379646222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 29/69] fix: skyobject: adding a blank head keeps other heads
 of the feed, statistics of blank heads

---
 skyobject/index.go | 2 +-
 skyobject/stat.go  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index e7d0cf6..a2aec1f 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -1035,7 +1035,7 @@ func (i *Index) AddHead(pk cipher.PubKey, nonce uint64) (err error) {
 
 	// add to the Index
 
-	i.feeds[pk] = newIndexHeads()
+	hs.h[nonce] = nil // blank head
 	return
 
 }
diff --git a/skyobject/stat.go b/skyobject/stat.go
index 00e95a6..181fcc0 100644
--- a/skyobject/stat.go
+++ b/skyobject/stat.go
@@ -151,6 +151,7 @@ func (i *Index) feedsStat() (s map[cipher.PubKey]FeedStat) {
 
 				if last == nil {
 					sf.Heads[nonce] = sh // blank head
+					continue
 				}
 
 				if roots, err = heads.Roots(nonce); err != nil {
-- 
2.43.0


From e31805da299a7c3d33d168d31fdda73ba5143743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 30/69] fix: skyobject: an older root doesn't replace the last
 root of a head

---
 skyobject/index.go | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index a2aec1f..d2c0e01 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -43,6 +43,21 @@ func (i *indexHeads) setActive() {
 
 }
 
+// under lock
+func (i *indexHeads) replaceLast(nonce uint64, dr *data.Root) {
+
+	i.h[nonce] = dr
+
+	switch {
+	case i.activet < dr.Time:
+		i.activet = dr.Time
+		i.activen = nonce
+	case i.activen == nonce && dr.Time < i.activet:
+		i.setActive() // the last Root of the active head is older now
+	}
+
+}
+
 // Index is internal and used by Container.
 // The Index can't be creaed and used outside.
 // The Index keeps information about last Root
@@ -392,24 +407,19 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 		return
 	}
 
-	if ir != nil && r.Seq < ir.Seq {
+	// add to the Index
+
+	var hs = i.feeds[r.Pub]
+
+	if last := hs.h[r.Nonce]; last != nil && r.Seq < last.Seq {
 		// don't add to the Index the fucking, old,
 		// outdated, never need, nobody need Root
 		return
 	}
 
-	// add to the Index
-
-	var hs = i.feeds[r.Pub]
-
 	// replace the last
 
-	hs.h[r.Nonce] = dr
-
-	if hs.activet < r.Time {
-		hs.activet = r.Time
-		hs.activen = r.Nonce
-	}
+	hs.replaceLast(r.Nonce, dr)
 
 	// add to stat
 	i.stat.addRoot()
@@ -426,12 +436,7 @@ func (i *Index) addSavedRoot(r *registry.Root, dr *data.Root) {
 
 	// replace the last
 
-	hs.h[r.Nonce] = dr
-
-	if hs.activet < r.Time {
-		hs.activet = r.Time
-		hs.activen = r.Nonce
-	}
+	hs.replaceLast(r.Nonce, dr)
 
 	// add to stat
 	i.stat.addRoot()
-- 
2.43.0


From 4bd9ec53d93662d28b8cc3c79b36d5bbca4625eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 31/69] fix: skyobject: deleting roots and heads changes the
 active head

---
 skyobject/index.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index d2c0e01..80e51f2 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -34,6 +34,10 @@ func (i *indexHeads) setActive() {
 
 	for nonce, dr := range i.h {
 
+		if dr == nil {
+			continue // blank head
+		}
+
 		if i.activet < dr.Time {
 			i.activet = dr.Time
 			i.activen = nonce
@@ -714,6 +718,10 @@ func (i *Index) delHead(
 
 	delete(hs.h, nonce)
 
+	if nonce == hs.activen {
+		hs.setActive()
+	}
+
 	return
 
 }
@@ -844,8 +852,8 @@ func (i *Index) delRoot(
 		hs.h[nonce] = ir
 	}
 
-	// cahnge active head if the Root is last for active head
-	if ir.Time == hs.activet {
+	// change active head if the last Root of a head is changed
+	if replaced == true {
 		hs.setActive()
 	}
 
-- 
2.43.0


From 61133ba7356327939dad8d0cdb4c173ddd9bdb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 32/69] fix: skyobject: an object that is not a root is not
 found as a root

---
 skyobject/container.go | 5 ++++-
 skyobject/index.go     | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index 6e3a5bd..f9c1166 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -318,7 +318,10 @@ func (c *Container) rootByHash(
 		return
 	}
 
-	r, err = registry.DecodeRoot(val)
+	if r, err = registry.DecodeRoot(val); err != nil {
+		return
+	}
+
 	r.Hash = hash
 	return
 }
diff --git a/skyobject/index.go b/skyobject/index.go
index 80e51f2..3f211f4 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -567,7 +567,9 @@ func (i *Index) LastRoot(
 		return
 	}
 
-	r, err = i.c.rootByHash(lr.Hash)
+	if r, err = i.c.rootByHash(lr.Hash); err != nil {
+		return
+	}
 
 	r.IsFull = true
 	r.Sig = lr.Sig
-- 
2.43.0


From 4616aab53973420d57740c751d058b4c6f7de524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:16 +0000
Subject: [PATCH 33/69] fix: skyobject: saving and deleting roots counts every
 reference once

---
 skyobject/cache.go     |  72 +++++++++++++-
 skyobject/container.go |  65 ++++++++++++-
 skyobject/index.go     |   7 ++
 skyobject/unpack.go    | 213 ++++++++++++++---------------------------
 4 files changed, 211 insertions(+), 146 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 23c3ca5..f7514a6 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -1016,6 +1016,18 @@ func (c *Cache) Want(
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	return c.want(key, gc, inc)
+}
+
+// under lock
+func (c *Cache) want(
+	key cipher.SHA256,
+	gc chan<- Object,
+	inc int,
+) (
+	err error,
+) {
+
 	var it, ok = c.is[key]
 
 	if ok == true {
@@ -1118,6 +1130,15 @@ func (c *Cache) Unwant(
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	c.unwant(key, gc)
+}
+
+// under lock
+func (c *Cache) unwant(
+	key cipher.SHA256,
+	gc chan<- Object,
+) {
+
 	if it := c.is[key]; it != nil && it.fwant != nil {
 		delete(it.fwant, gc)
 		if len(it.fwant) == 0 {
@@ -1131,6 +1152,40 @@ func (c *Cache) Unwant(
 
 }
 
+// hold is like the Set, but the object is held the same
+// way fillers hold objects. Thus, the object doesn't belong
+// to a full Root (see 'hard rc'), but it can't be removed.
+// Use Finc to release it
+func (c *Cache) hold(key cipher.SHA256, val []byte) (err error) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	var gc = make(chan Object, 1)
+
+	if err = c.want(key, gc, 1); err != nil {
+		return
+	}
+
+	if len(gc) > 0 {
+		return // already have
+	}
+
+	if _, err = c.setWanted(key, val, 0, c.is[key]); err == nil {
+		return
+	}
+
+	c.unwant(key, gc)
+
+	if len(gc) > 0 {
+		if obj := <-gc; obj.Err == nil {
+			c.finc(key, -1) // saved, but there is a DB failure
+		}
+	}
+
+	return
+}
+
 // SetWanted is like the Set, but is set value
 // only if the value is wanted. The SetWanted
 // never returns "not wanted" error.
@@ -1182,6 +1237,17 @@ func (c *Cache) Finc(
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	return c.finc(key, inc)
+}
+
+// under lock
+func (c *Cache) finc(
+	key cipher.SHA256,
+	inc int,
+) (
+	err error,
+) {
+
 	var it, ok = c.is[key]
 
 	if ok == false {
@@ -1236,7 +1302,11 @@ func (c *Cache) Finc(
 	// and if it.fc turns to be zero, then the
 	// incItem removes it
 
-	_, err = c.incItem(key, inc, it) // in db
+	if _, err = c.incItem(key, inc, it); err != nil { // in db
+		it.fc -= inc // still held
+		return
+	}
+
 	c.dropUnused(key, it)
 	return
 }
diff --git a/skyobject/container.go b/skyobject/container.go
index f9c1166..d7f36d0 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -3,6 +3,7 @@ package skyobject
 import (
 	"log"
 	"path/filepath"
+	"sync"
 
 	"github.com/skycoin/skycoin/src/cipher"
 
@@ -25,6 +26,13 @@ type Container struct {
 
 	conf *Config // configurations
 
+	// changing references counters of objects related to a
+	// Root (saving, filling and deleting) one at a time; this
+	// way an object with non-zero 'hard rc' always has entire
+	// subtree in the DB, and the references from the object
+	// are counted once
+	rcmx sync.Mutex
+
 	// human readable (used by node for debugging)
 	cxPath, idxPath string
 }
@@ -301,6 +309,59 @@ func (c *Container) walkRoot(
 	return r.Walk(pack, walkFunc)
 }
 
+// incObject increments references counter of an object
+// and appends the object to given list
+func (c *Container) incObject(
+	hash cipher.SHA256, //    : the object
+	incs *[]cipher.SHA256, // : incremented objects
+) (
+	rc int, //                : hard rc
+	err error, //             : an error
+) {
+
+	if rc, err = c.Inc(hash, 1); err == nil {
+		*incs = append(*incs, hash)
+	}
+
+	return
+}
+
+// incRefs increments references counters of all objects of given
+// Root, but not the Root itself and its Registry. The references
+// from an object are counted only if the object was not a part of
+// a full Root. The incRefs appends incremented objects to given
+// list, even if it fails. It must be called under the rcmx
+func (c *Container) incRefs(
+	pack registry.Pack, //    : pack to get objects
+	r *registry.Root, //      : the Root
+	incs *[]cipher.SHA256, // : incremented objects
+) (
+	err error, //             : an error
+) {
+
+	return r.Walk(pack,
+		func(hash cipher.SHA256, _ int) (deepper bool, err error) {
+
+			if hash == (cipher.SHA256{}) {
+				return // blank reference
+			}
+
+			var rc int
+			rc, err = c.incObject(hash, incs)
+
+			return (rc == 1), err
+		})
+
+}
+
+// decObjects is used to roll back the incObject and
+// the incRefs, and it ignores DB failures
+func (c *Container) decObjects(incs []cipher.SHA256) {
+	for _, hash := range incs {
+		c.Inc(hash, -1)
+	}
+}
+
 // Config returns configs of the Container.
 // The Config must not be modified
 func (c *Container) Config() (conf *Config) {
@@ -371,7 +432,3 @@ func (c *Container) Close() (err error) {
 func fatal(args ...interface{}) {
 	log.Fatalln(args...)
 }
-
-func fatalf(format string, args ...interface{}) {
-	log.Fatalf(format, args...)
-}
diff --git a/skyobject/index.go b/skyobject/index.go
index 3f211f4..980e05a 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -904,6 +904,10 @@ func (i *Index) delPackWalkFunc(
 			val []byte
 		)
 
+		if hash == (cipher.SHA256{}) {
+			return // blank reference
+		}
+
 		// use Get instead of Inc(hash, -1) to get value
 		// if it will be deleted by the -1
 
@@ -933,6 +937,9 @@ func (i *Index) delPackWalkFunc(
 // given Root, including the Root itself and its Registry
 func (i *Index) delRootRelatedValues(rootHash cipher.SHA256) (err error) {
 
+	i.c.rcmx.Lock()
+	defer i.c.rcmx.Unlock()
+
 	var r *registry.Root
 	if r, err = i.c.rootByHash(rootHash); err != nil {
 		return
diff --git a/skyobject/unpack.go b/skyobject/unpack.go
index 5cc816c..12a89e6 100644
--- a/skyobject/unpack.go
+++ b/skyobject/unpack.go
@@ -10,45 +10,22 @@ import (
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
-type unpackItem struct {
-	inc     int  // saved times
-	dec     int  // used times
-	created bool // created
-}
-
 // An Unpack implements registry.Pack
 // and used to change or cerate a Root
 type Unpack struct {
-	m     map[cipher.SHA256]*unpackItem // hash -> rc
-	c     *Container                    // Set method
-	*Pack                               // other methods
-	sk    cipher.SecKey                 // owner
-}
-
-func (u *Unpack) reset() {
-	for _, ui := range u.m {
-		ui.dec = 0
-	}
+	m     map[cipher.SHA256]int // hash -> saved times
+	c     *Container            // Set method
+	*Pack                       // other methods
+	sk    cipher.SecKey         // owner
 }
 
-// Set value
+// Set value. The value is held until the Save or the Close
 func (u *Unpack) Set(key cipher.SHA256, val []byte) (err error) {
 
-	var rc int
-	if rc, err = u.c.Set(key, val, 1); err != nil {
-		return
+	if err = u.c.hold(key, val); err == nil {
+		u.m[key]++
 	}
 
-	var ui, ok = u.m[key]
-
-	if ok == false {
-		ui = new(unpackItem)
-		u.m[key] = ui
-	}
-
-	ui.inc++
-	ui.created = (rc == 1)
-
 	return
 }
 
@@ -84,7 +61,7 @@ func (c *Container) Unpack(
 	up = &Unpack{
 		sk:   sk,
 		c:    c,
-		m:    make(map[cipher.SHA256]*unpackItem),
+		m:    make(map[cipher.SHA256]int),
 		Pack: c.getPack(reg),
 	}
 
@@ -127,132 +104,52 @@ func (c *Container) Save(up *Unpack, r *registry.Root) (err error) {
 
 	}
 
-	// walk the Root first
-
-	defer func() {
-		if err != nil {
-			up.reset()
-		}
-	}()
-
-	for _, dr := range r.Refs {
-
-		err = dr.Walk(up, func(
-			hash cipher.SHA256, // :
-			_ int, //              :
-		) (
-			deepper bool, //       :
-			err error, //          :
-		) {
-
-			if hash == (cipher.SHA256{}) {
-				return
-			}
-
-			// go deepper only if the object was created
-
-			var ui, ok = up.m[hash]
-
-			if ok == false {
-				// this object was not created, then it already
-				// exists in the CXDS, and we have to increment
-				// rc of the object
-
-				if _, err = c.Inc(hash, 1); err != nil {
-					return
-				}
-				up.m[hash] = &unpackItem{inc: 1, dec: 1} // for Close
-
-				return // false, nil
-			}
-
-			// here we reduce the ui.inc; if end-user saves an
-			// object many times (or the object saved by Refs
-			// modifications, for example if it's hash of
-			// node of the Refs), then the inc will be greater
-			// then one
-			//
-			// ui.inc - times saved
-			// ui.dec - times used
-			//
-			// at the end of the Save we call c.Inc(key, ui.dec - ui.inc)
-			// for every value (if the difference is not zero) to make
-			// values in CXDS actual
-
-			ui.dec++ // used
-			deepper = ui.created
-			return
-
-		})
-
-		if err != nil {
-			return
-		}
-
-	}
-
-	// ok, let's save the Root
-
 	// check out Index first (has feed)
+
 	if c.HasFeed(r.Pub) == false {
 		return data.ErrNoSuchFeed
 	}
 
-	// save into Index and IdxDB
-	var val []byte
+	// save into CXDS, Index and IdxDB
 
-	if val, err = c.Index.saveRoot(up, r); err != nil {
-		return
-	}
+	c.rcmx.Lock()
+	defer c.rcmx.Unlock()
 
-	// save the Root in CXDS
+	var incs []cipher.SHA256 // incremented objects
 
-	if err = up.Set(r.Hash, val); err != nil {
+	defer func() {
+		if err != nil {
+			r.IsFull = false
+			c.decObjects(incs)
+		}
+	}()
+
+	if err = c.incRefs(up, r, &incs); err != nil {
 		return
 	}
 
-	// save registry
-
-	if err = up.Set(cipher.SHA256(r.Reg), up.Registry().Encode()); err != nil {
+	if err = c.Index.saveRoot(up, r, &incs); err != nil {
 		return
 	}
 
-	// make rc of related objects actual
-
-	for key, ui := range up.m {
-
-		if key == r.Hash || key == cipher.SHA256(r.Reg) {
-			ui.dec++
-		}
-
-		var inc = ui.dec - ui.inc
-
-		if inc < 0 {
-			// decrement
-			if _, err = c.Inc(key, inc); err != nil {
-				return // leave the CXDS broken if an error occurred
-			}
-		}
-
-		delete(up.m, key) // saved
-
-	}
+	// the Root holds its objects now; if there is a DB
+	// failure then the Close releases the rest
 
+	up.release()
 	return
 }
 
 func (i *Index) saveRoot(
 	up *Unpack,
 	r *registry.Root,
+	incs *[]cipher.SHA256,
 ) (
-	val []byte,
 	err error,
 ) {
 
 	i.mx.Lock()
 	defer i.mx.Unlock()
 
-	// val []byte --> encoded Root
 	var dr = new(data.Root)
 
 	err = i.c.db.IdxDB().Tx(func(fs data.Feeds) (err error) {
@@ -281,25 +178,52 @@ func (i *Index) saveRoot(
 			return
 		}
 
-		if lastHash != (cipher.SHA256{}) {
+		if r.Seq, r.Prev = 0, lastHash; lastHash != (cipher.SHA256{}) {
 			r.Seq = lastSeq + 1
-			r.Prev = lastHash
 		}
 
-		// else -> 0 and blank
-
 		r.Time = time.Now().UnixNano()
 
 		// hash of the Root
 
-		val = r.Encode()
+		var val = r.Encode()
 		r.Hash = cipher.SumSHA256(val)
 		r.IsFull = true
 
 		// sign
 
 		if r.Sig, err = cipher.SignHash(r.Hash, up.sk); err != nil {
-			return err
+			return
+		}
+
+		// the Unpack can be created with secret key of another feed
+
+		err = cipher.VerifyPubKeySignedHash(r.Pub, r.Sig, r.Hash)
+
+		if err != nil {
+			return
+		}
+
+		// save the Root and the Registry in CXDS
+
+		if err = up.Set(r.Hash, val); err != nil {
+			return
+		}
+
+		err = up.Set(cipher.SHA256(r.Reg), up.Registry().Encode())
+
+		if err != nil {
+			return
+		}
+
+		if _, err = i.c.incObject(r.Hash, incs); err != nil {
+			return
+		}
+
+		_, err = i.c.incObject(cipher.SHA256(r.Reg), incs)
+
+		if err != nil {
+			return
 		}
 
 		dr.Seq = r.Seq
@@ -343,15 +267,22 @@ func (c *Container) NewRoot(
 
 */
 
+// release held objects
+func (u *Unpack) release() (err error) {
+	for key, inc := range u.m {
+		if err = u.c.Finc(key, -inc); err != nil {
+			return
+		}
+		delete(u.m, key)
+	}
+	return
+}
+
 // Close the Unpack, rejecting all saved objects that
 // will not be used
 func (u *Unpack) Close() (err error) {
-	for key, ui := range u.m {
-		if ui.inc > 0 {
-			if _, err = u.c.Inc(key, -ui.inc); err != nil {
-				return
-			}
-		}
+	if err = u.release(); err != nil {
+		return
 	}
 	u.m = nil
 	return
-- 
2.43.0


From f9970b01a382aff0a9ac0a706132b04e4d9ba4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:16 +0000
Subject: [PATCH 34/69] fix: skyobject: filling is all or nothing, and counts
 every reference once

---
 skyobject/container.go |   4 -
 skyobject/fill.go      | 223 +++++++++++++++++++++++++----------------
 2 files changed, 137 insertions(+), 90 deletions(-)

diff --git a/skyobject/container.go b/skyobject/container.go
index d7f36d0..69684d1 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -428,7 +428,3 @@ func (c *Container) Close() (err error) {
 	return
 
 }
-
-func fatal(args ...interface{}) {
-	log.Fatalln(args...)
-}
diff --git a/skyobject/fill.go b/skyobject/fill.go
index 82f7622..ec226e0 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/skycoin/skycoin/src/cipher"
 
-	"github.com/skycoin/cxo/data"
 	"github.com/skycoin/cxo/skyobject/registry"
 )
 
@@ -42,58 +41,62 @@ func (f *Filler) Registry() (reg *registry.Registry) {
 	return f.reg
 }
 
+// get and hold the object
 func (f *Filler) get(
 	key cipher.SHA256,
-	inc int,
 ) (
 	val []byte,
 	rc int,
 	err error,
 ) {
 
-	// try to get from DB first
-	val, rc, err = f.c.Get(key, inc) // incrementing the rc to hold the object
-
-	if err == nil {
-		if inc > 0 {
-			rc = f.inc(key, rc) // ++
-		}
-		return
-	}
+	var gc = make(chan Object, 1) // wait for the object
 
-	if err != data.ErrNotFound {
-		fatal("DB failure:", err) // fatality
+	// the inc is 1 to hold the object
+	if err = f.c.Want(key, gc, 1); err != nil {
+		return // DB failure
 	}
 
-	err = nil // clear if it's data.ErrNotFound
-
-	// not found
-	var gc = make(chan Object, 1) // wait for the object
-
-	f.c.Want(key, gc, inc)
-	defer f.c.Unwant(key, gc) // to be memory safe
+	defer func() {
+		f.c.Unwant(key, gc) // to be memory safe
+
+		// the object can be received between
+		// the terminating and the Unwant
+		select {
+		case obj := <-gc:
+			if obj.Err == nil {
+				f.hold(key)
+			}
+		default:
+		}
+	}()
 
-	// requset the object using the rq channel
-	if f.requset(key) == false {
-		return
-	}
+	var obj Object
 
 	select {
-	case obj := <-gc:
-		if err = obj.Err; err != nil {
+	case obj = <-gc: // from DB
+	default:
+
+		// request the object using the rq channel
+		if f.requset(key) == false {
+			err = ErrTerminated
 			return
 		}
-		val = obj.Val
-		if inc > 0 {
-			rc = f.inc(key, obj.RC)
-		} else {
-			rc = obj.RC
+
+		select {
+		case obj = <-gc:
+		case <-f.closeq:
+			err = ErrTerminated
+			return
 		}
-	case <-f.closeq:
-		err = ErrTerminated
+
 	}
 
-	return
+	if err = obj.Err; err != nil {
+		return
+	}
+
+	return obj.Val, obj.RC + f.hold(key), nil
 }
 
 // Pre used to prerequest an item to get it late. The Get increments
@@ -101,7 +104,7 @@ func (f *Filler) get(
 // an item this method used. The method doesn't return value, because
 // nobobdy need it. The Pre used to obtain "hard rc" of an item
 func (f *Filler) Pre(key cipher.SHA256) (rc int, err error) {
-	if _, rc, err = f.get(key, 1); err != nil {
+	if _, rc, err = f.get(key); err != nil {
 		return
 	}
 
@@ -109,7 +112,7 @@ func (f *Filler) Pre(key cipher.SHA256) (rc int, err error) {
 	defer f.mx.Unlock()
 
 	f.pre[key] = struct{}{} // set
-	return
+	return rc - 1, nil      // without this one
 }
 
 func (f *Filler) isPrerequested(key cipher.SHA256) (ok bool) {
@@ -121,18 +124,15 @@ func (f *Filler) isPrerequested(key cipher.SHA256) (ok bool) {
 }
 
 // Get object from DB or request it usung provided
-// channel. The Get increments references counter
-// of value
+// channel. The Get holds the object until end of
+// the filling
 func (f *Filler) Get(key cipher.SHA256) (val []byte, rc int, err error) {
 
-	var inc = 1
-
 	if f.isPrerequested(key) == true {
-		inc = 0 // prerequested
+		return f.c.Get(key, 0) // already held
 	}
 
-	val, rc, err = f.get(key, inc)
-	return
+	return f.get(key)
 }
 
 // Fail used to terminate the Filler with
@@ -140,7 +140,7 @@ func (f *Filler) Get(key cipher.SHA256) (val []byte, rc int, err error) {
 func (f *Filler) Fail(err error) {
 	select {
 	case f.errq <- err:
-	case <-f.closeq:
+	default: // already failed
 	}
 }
 
@@ -152,20 +152,12 @@ func (f *Filler) Fail(err error) {
 // then we can force split* methods to skip it
 // even if the item relates to this filling
 // Root only (is not hard)
-func (f *Filler) inc(key cipher.SHA256, drc int) (rc int) {
+func (f *Filler) hold(key cipher.SHA256) (holds int) {
 	f.mx.Lock()
 	defer f.mx.Unlock()
 
-	rc = drc
-
-	var finc, ok = f.incs[key]
-
-	if ok == true {
-		rc++
-	}
-
-	f.incs[key] = finc + 1 // +1 want (+1 finc)
-	return
+	f.incs[key]++
+	return f.incs[key]
 }
 
 func (f *Filler) requset(key cipher.SHA256) (ok bool) {
@@ -182,9 +174,11 @@ func (f *Filler) requset(key cipher.SHA256) (ok bool) {
 // goroutines the split creates
 func (f *Filler) Close() {
 	f.closeo.Do(func() {
+		f.mx.Lock()
+		defer f.mx.Unlock()
 		close(f.closeq)
-		f.await.Wait()
 	})
+	f.await.Wait()
 }
 
 // Fill given Root returns Filler that fills given
@@ -219,20 +213,18 @@ func (c *Container) Fill(
 	return
 }
 
-func (f *Filler) apply() {
-	for key, inc := range f.incs {
-		if err := f.c.Finc(key, inc); err != nil {
-			panic("DB failure: " + err.Error()) // TODO: handle the error
-		}
-	}
-}
+// release held objects
+func (f *Filler) release() {
+	f.mx.Lock()
+	defer f.mx.Unlock()
 
-func (f *Filler) reject() {
 	for key, inc := range f.incs {
-		if err := f.c.Finc(key, -inc); err != nil {
-			panic("DB failure: " + err.Error()) // TODO: handle the error
-		}
+		// if there is a DB failure then the
+		// object is held until the Cache closed
+		f.c.Finc(key, -inc)
 	}
+
+	f.incs = make(map[cipher.SHA256]int)
 }
 
 func (f *Filler) acquire() (parall bool) {
@@ -263,7 +255,9 @@ func (f *Filler) Go(fn func()) {
 		f.await.Add(1)
 		go func() {
 			defer f.await.Done()
-			<-f.limit // release
+			if f.limit != nil {
+				defer func() { <-f.limit }() // release
+			}
 			fn()
 		}()
 
@@ -282,36 +276,56 @@ func (f *Filler) Run() (err error) {
 
 	// save Root
 
-	if _, err = f.c.Set(f.r.Hash, f.r.Encode(), 1); err != nil {
+	if err = f.c.hold(f.r.Hash, f.r.Encode()); err != nil {
 		return
 	}
 
-	f.inc(f.r.Hash, 0) // increment
+	f.hold(f.r.Hash)
 
 	defer func() {
-		if err != nil {
-			f.r.IsFull = false // reset
-			f.reject()
-		} else {
-			f.apply()
-		}
+		f.Close()
+		f.release()
 	}()
 
 	if err = f.getRegistry(); err != nil {
 		return
 	}
 
-	for _, dr := range f.r.Refs {
+	if err = f.split(); err != nil {
+		return
+	}
 
-		// the closure is data-race protection
-		func(dr registry.Dynamic) {
-			f.Go(func() { dr.Split(f) })
-		}(dr)
+	return f.c.saveFilled(f)
+}
 
-	}
+// split the Root to get all its objects
+func (f *Filler) split() (err error) {
 
 	var done = make(chan struct{})
 
+	f.mx.Lock()
+
+	select {
+	case <-f.closeq:
+		f.mx.Unlock()
+		return ErrTerminated // already closed
+	default:
+	}
+
+	f.await.Add(1)
+	f.mx.Unlock()
+
+	go func() {
+		defer f.await.Done()
+
+		for _, dr := range f.r.Refs {
+			// the closure is data-race protection
+			func(dr registry.Dynamic) {
+				f.Go(func() { dr.Split(f) })
+			}(dr)
+		}
+	}()
+
 	go func() {
 		f.await.Wait() // wait group
 		close(done)
@@ -320,12 +334,49 @@ func (f *Filler) Run() (err error) {
 	select {
 	case err = <-f.errq:
 	case <-done:
-		f.r.IsFull = true // full!
-		_, err = f.c.AddRoot(f.r)
+		select {
+		case err = <-f.errq: // failed and finished
+		default:
+		}
 	}
 
-	f.Close()
+	return
+}
+
+// saveFilled Root, all objects of the Root are held by the Filler
+func (c *Container) saveFilled(f *Filler) (err error) {
+
+	c.rcmx.Lock()
+	defer c.rcmx.Unlock()
+
+	var (
+		incs []cipher.SHA256 // incremented objects
+		have bool            // already have the Root
+	)
+
+	defer func() {
+		if err != nil || have == true {
+			c.decObjects(incs)
+		}
+		f.r.IsFull = (err == nil)
+	}()
+
+	if err = c.incRefs(c.getPack(f.reg), f.r, &incs); err != nil {
+		return
+	}
+
+	if _, err = c.incObject(f.r.Hash, &incs); err != nil {
+		return
+	}
+
+	_, err = c.incObject(cipher.SHA256(f.r.Reg), &incs)
+
+	if err != nil {
+		return
+	}
 
+	f.r.IsFull = true // full!
+	have, err = c.AddRoot(f.r)
 	return
 }
 
@@ -335,7 +386,7 @@ func (f *Filler) getRegistry() (err error) {
 		return ErrBlankRegistryRef
 	}
 
-	// incrementing
+	// holding
 	if _, _, err = f.Get(cipher.SHA256(f.r.Reg)); err != nil {
 		return
 	}
-- 
2.43.0


From 04847ca21d98fc38753e6ca7b49dd5b291f102a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:17 +0000
Subject: [PATCH 35/69] fix: skyobject: refuse roots of another feed, malformed
 roots and other roots with a seq that exists

---
 skyobject/index.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 980e05a..462c295 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -1,6 +1,7 @@
 package skyobject
 
 import (
+	"bytes"
 	"errors"
 	"sync"
 	"time"
@@ -279,6 +280,17 @@ func (i *Index) receivedRoot(
 		return
 	}
 
+	if r.Pub != pk {
+		return nil, errors.New("Root belongs to another feed: " + r.Short())
+	}
+
+	// the Root should be equal to the encoded value, since
+	// the Root is saved encoding it again
+
+	if bytes.Equal(r.Encode(), val) == false {
+		return nil, errors.New("malformed encoded Root: " + r.Short())
+	}
+
 	r.Hash = hash // set the hash
 	r.Sig = sig   // set the signature
 
@@ -332,8 +344,10 @@ func (i *Index) ReceivedRoot(
 		return
 	}
 
-	if _, err = i.findRoot(r.Pub, r.Nonce, r.Seq); err == nil {
-		r.IsFull = true
+	var dr *data.Root
+
+	if dr, err = i.findRoot(r.Pub, r.Nonce, r.Seq); err == nil {
+		r.IsFull = (dr.Hash == r.Hash)
 		return
 	} else if err == data.ErrNoSuchHead || err == data.ErrNotFound {
 		err = nil // just not found (e.g. not full)
@@ -367,6 +381,10 @@ func (i *Index) addRoot(r *registry.Root) (alreadyHave bool, err error) {
 
 	switch ir, err = i.findRoot(r.Pub, r.Nonce, r.Seq); {
 	case err == nil:
+		if ir.Hash != r.Hash {
+			return false, errors.New("another Root with this seq exists: " +
+				r.Short())
+		}
 		ir.Access = time.Now().UnixNano()
 		alreadyHave = true
 		return
-- 
2.43.0


From 3fb714747c3416ed3f5a5c9e3e0c16dd5afd8974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:17 +0000
Subject: [PATCH 36/69] fix: skyobject: a preview doesn't request objects that
 are in the DB

---
 skyobject/preview.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skyobject/preview.go b/skyobject/preview.go
index 270f4b2..28c72c7 100644
--- a/skyobject/preview.go
+++ b/skyobject/preview.go
@@ -47,8 +47,8 @@ func (p *Preview) Get(key cipher.SHA256) (val []byte, err error) {
 		return // alrady received
 	}
 
-	if val, err = p.Pack.Get(key); err != nil && err != data.ErrNotFound {
-		return // db failure
+	if val, err = p.Pack.Get(key); err != data.ErrNotFound {
+		return // found or db failure
 	}
 
 	// not found
-- 
2.43.0


From 1a4c78b71d7cc2772ab92db950c5499476617a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:17 +0000
Subject: [PATCH 37/69] fix: cxoutils: cleaning up doesn't lock the container,
 and keeps last roots even if there are gaps

---
 cxoutils/cxoutils.go | 77 +++++++++++++++++++++++++-------------------
 skyobject/cache.go   | 15 +++++++++
 2 files changed, 58 insertions(+), 34 deletions(-)

diff --git a/cxoutils/cxoutils.go b/cxoutils/cxoutils.go
index 501ef27..4ef7bf5 100644
--- a/cxoutils/cxoutils.go
+++ b/cxoutils/cxoutils.go
@@ -37,44 +37,29 @@ func RemoveRootObjects(c *skyobject.Container, keepLast int) (err error) {
 			return
 		}
 
-	HeadLoop:
 		for _, nonce := range heads {
-			var seq uint64
-			if seq, err = c.LastRootSeq(pk, nonce); err != nil {
-				err = nil // clear
-				continue  // not a real error
+
+			var seqs []uint64
+			if seqs, err = rootSeqs(c, pk, nonce); err != nil {
+				if err == data.ErrNoSuchFeed || err == data.ErrNoSuchHead {
+					err = nil // clear
+					continue  // not a real error
+				}
+				return
 			}
 
-			if seq < uint64(keepLast) {
+			if keepLast < 0 || len(seqs) <= keepLast {
 				continue
 			}
 
-			var goDown = seq - uint64(keepLast) // positive
-
-			for ; goDown > 0; goDown-- {
-
-				if err = c.DelRoot(pk, nonce, goDown); err != nil {
-					if err == data.ErrNotFound {
-						err = nil // clear error
-						continue HeadLoop
-					}
+			for _, seq := range seqs[keepLast:] {
+				err = c.DelRoot(pk, nonce, seq)
+				if err != nil && err != data.ErrNotFound {
 					return // a failure (CXDS not found error?)
 				}
-
-			}
-
-			// seq = 0 (goDown == 0)
-			if err = c.DelRoot(pk, nonce, 0); err != nil {
-				if err == data.ErrNotFound {
-					err = nil // clear error
-					continue HeadLoop
-				}
-
-				return
+				err = nil // clear data.ErrNotFound
 			}
 
-			// continue HeadLoop
-
 		} // head loop
 
 	} // feed loop
@@ -82,17 +67,41 @@ func RemoveRootObjects(c *skyobject.Container, keepLast int) (err error) {
 	return
 }
 
-// RemoveObjects with rc == 0 from CXDS
-func RemoveObjects(c *skyobject.Container) (err error) {
+// seq numbers of all Root objects of given head
+// starting from last one
+func rootSeqs(
+	c *skyobject.Container,
+	pk cipher.PubKey,
+	nonce uint64,
+) (
+	seqs []uint64,
+	err error,
+) {
+
+	err = c.DB().IdxDB().Tx(func(feeds data.Feeds) (err error) {
+
+		var heads data.Heads
+		if heads, err = feeds.Heads(pk); err != nil {
+			return
+		}
 
-	var db = c.DB().CXDS()
+		var roots data.Roots
+		if roots, err = heads.Roots(nonce); err != nil {
+			return
+		}
 
-	err = db.IterateDel(
-		func(key cipher.SHA256, rc uint32, _ []byte) (bool, error) {
-			return (rc == 0) && (c.IsCached(key) == false), nil
+		return roots.Descend(func(dr *data.Root) (_ error) {
+			seqs = append(seqs, dr.Seq)
+			return
 		})
+	})
 
 	return
 }
 
+// RemoveObjects with rc == 0 from CXDS
+func RemoveObjects(c *skyobject.Container) (err error) {
+	return c.RemoveUnused()
+}
+
 // TODO (kostyarin): RemoveObjects with "down to" or "timeout" feature
diff --git a/skyobject/cache.go b/skyobject/cache.go
index f7514a6..493c365 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -672,6 +672,21 @@ func (c *Cache) IsCached(key cipher.SHA256) (yep bool) {
 	return
 }
 
+// RemoveUnused removes all objects with zero references
+// counter from DB. Cached objects are not removed, see
+// IsCached for details
+func (c *Cache) RemoveUnused() (err error) {
+
+	c.mx.Lock()
+	defer c.mx.Unlock()
+
+	return c.db().IterateDel(
+		func(key cipher.SHA256, rc uint32, _ []byte) (bool, error) {
+			var _, cached = c.is[key]
+			return (rc == 0) && (cached == false), nil
+		})
+}
+
 // Get from cache or DB, increasing, leaving as is, or
 // reducing references counter. For most reading cases
 // the inc argument should be zero. If value doesn't
-- 
2.43.0


From 2d2e78f0f53ba2a182ae179de6a637055333530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 38/69] fix: skyobject: failing to free space in the cache
 doesn't fail an operation that succeeded

---
 skyobject/cache.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/skyobject/cache.go b/skyobject/cache.go
index 493c365..278ce0a 100644
--- a/skyobject/cache.go
+++ b/skyobject/cache.go
@@ -422,7 +422,9 @@ func (c *Cache) putItem(
 	case c.amount+1 > c.c.conf.CacheMaxAmount,
 		c.volume+len(val) > c.c.conf.CacheMaxVolume:
 
-		if err = c.cleanDown(len(val)); err != nil {
+		// if it's impossible to free space, then the item
+		// is not cached, but the operation has succeeded
+		if c.cleanDown(len(val)) != nil {
 			return
 		}
 
@@ -465,7 +467,9 @@ func (c *Cache) putFillingItem(
 	case c.amount+1 > c.c.conf.CacheMaxAmount,
 		c.volume+len(val) > c.c.conf.CacheMaxVolume:
 
-		if err = c.cleanDown(len(val)); err != nil {
+		// if it's impossible to free space, then the item
+		// is not cached, but the operation has succeeded
+		if c.cleanDown(len(val)) != nil {
 			return
 		}
 
@@ -692,12 +696,10 @@ func (c *Cache) RemoveUnused() (err error) {
 // the inc argument should be zero. If value doesn't
 // exist the Get returns data.ErrNotFound. It's possible
 // to get and remove value using the inc argument. The
-// Get returns value and new references counter. The Get
-// can returns an error that doesn't relate to given
-// element. Putting element to the Cache the Get can
-// clean up cache to free space, syncing with DB. In this
-// case if the synching fails, the Get can returns valid
-// value and rc and some error. Anyway, any DB failure
+// Get returns value and new references counter. Putting
+// element to the Cache the Get can clean up cache to free
+// space, syncing with DB. In this case if the synching
+// fails, the element is not cached. Anyway, any DB failure
 // should be fatal. E.g. all errors except data.ErrNotFound
 // and ObjectIsTooLargeError means that data in the DB can
 // be lost
-- 
2.43.0


From 4a1138c89631dbb8fa624a9fa211f26b3f259d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:53 +0000
Subject: [PATCH 39/69] fix: node: a connection can be closed twice, and
 closing it unblocks senders

---
 node/conn.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index a482566..d8c037c 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -31,6 +31,7 @@ type Conn struct {
 	initq   chan struct{}
 
 	closeq chan struct{}  // signal for all goroutines to exit
+	closeo sync.Once      // close the closeq once
 	await  sync.WaitGroup // wait for all goroutines to exit
 
 	sendq chan<- []byte // channel from factory.Connection
@@ -84,14 +85,14 @@ func (c *Conn) run() {
 	go func() {
 		defer c.await.Done()
 		if rcvErr = c.receiveMsg(); rcvErr != nil {
-			close(c.closeq)
+			c.terminate()
 		}
 	}()
 
 	// If OnConnect returns error, connection will be closed.
 	var occErr error
 	if occErr = c.n.onConnect(c); occErr != nil {
-		close(c.closeq)
+		c.terminate()
 	}
 
 	// Wait for all groutines to exit.
@@ -398,9 +399,17 @@ func (c *Conn) getter() (cg skyobject.Getter) {
 	return &cget{c}
 }
 
+// terminate sends close signal to all
+// goroutines of the Conn, if not sent yet
+func (c *Conn) terminate() {
+	c.closeo.Do(func() {
+		close(c.closeq)
+	})
+}
+
 // Close the Conn
 func (c *Conn) Close() (err error) {
-	close(c.closeq)
+	c.terminate()
 	c.await.Wait()
 
 	// TODO: c.await.Wait() can exit beofre connection is removed from cache.
@@ -437,7 +446,11 @@ func (c *Conn) sendMsg(seq, rseq uint32, m msg.Msg) error {
 	default:
 	}
 
-	c.sendq <- c.encodeMsg(seq, rseq, m)
+	select {
+	case c.sendq <- c.encodeMsg(seq, rseq, m):
+	case <-c.closeq:
+		return ErrClosed
+	}
 
 	return nil
 }
@@ -545,7 +558,9 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 	c.addRequest(seq, rq)
 	defer c.delRequest(seq)
 
-	c.sendMsg(seq, 0, m)
+	if err = c.sendMsg(seq, 0, m); err != nil {
+		return
+	}
 
 	select {
 	case reply = <-rq:
-- 
2.43.0


From cfe2d96fd96eaf24a3fa836fb88c59ae4cc10aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:42 +0000
Subject: [PATCH 40/69] fix: node: at most one connection per peer and per
 address, none to itself, a handshake can have no timeout, and nothing is left
 of a refused connection

---
 node/errors.go     |  1 +
 node/handshake.go  | 34 +++++++++++++++++++++++++---------
 node/node.go       | 34 ++++++++++++++++++++++++++++------
 node/transports.go | 20 ++++++--------------
 4 files changed, 60 insertions(+), 29 deletions(-)

diff --git a/node/errors.go b/node/errors.go
index 2bf6562..f79a3f9 100644
--- a/node/errors.go
+++ b/node/errors.go
@@ -11,6 +11,7 @@ var (
 	ErrClosed                  = errors.New("closed")
 	ErrNotPublic               = errors.New("not a public server")
 	ErrAlreadyHaveConnection   = errors.New("already have connection")
+	ErrConnectToItself         = errors.New("connection to itself")
 	ErrInvalidResponse         = errors.New("invalid response")
 	ErrNoConnectionsToFillFrom = errors.New("no connections to fill from")
 	ErrMaxHeadsLimit           = errors.New("max heads limit")
diff --git a/node/handshake.go b/node/handshake.go
index fbe66b5..98c5fc2 100644
--- a/node/handshake.go
+++ b/node/handshake.go
@@ -38,7 +38,7 @@ func (c *Conn) performHandshake() error {
 	// TODO: add special parameter for handshake timeout.
 	var (
 		rt time.Duration
-		tm *time.Timer
+		tc <-chan time.Time
 	)
 	if c.IsTCP() == true {
 		rt = c.n.config.TCP.ResponseTimeout
@@ -46,8 +46,10 @@ func (c *Conn) performHandshake() error {
 		rt = c.n.config.UDP.ResponseTimeout
 	}
 	if rt > 0 {
-		tm = time.NewTimer(rt)
+		tm := time.NewTimer(rt)
 		defer tm.Stop()
+
+		tc = tm.C
 	}
 
 	// Wait for response message with timeout.
@@ -68,6 +70,11 @@ func (c *Conn) performHandshake() error {
 
 		switch x := m.(type) {
 		case *msg.Ack:
+			// Don't connect to itself.
+			if x.NodeID == c.n.idpk {
+				return ErrConnectToItself
+			}
+
 			// Check if node already has connection with peer.
 			if _, ok := c.n.hasPeer(x.NodeID); ok {
 				return ErrAlreadyHaveConnection
@@ -81,7 +88,7 @@ func (c *Conn) performHandshake() error {
 			return fmt.Errorf("invalid response type: %T", m)
 		}
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
@@ -98,7 +105,7 @@ func (c *Conn) acceptHandshake() (err error) {
 	// TODO: add special parameter for handshake timeout.
 	var (
 		rt time.Duration
-		tm *time.Timer
+		tc <-chan time.Time
 	)
 	if c.IsTCP() == true {
 		rt = c.n.config.TCP.ResponseTimeout
@@ -106,8 +113,10 @@ func (c *Conn) acceptHandshake() (err error) {
 		rt = c.n.config.UDP.ResponseTimeout
 	}
 	if rt > 0 {
-		tm = time.NewTimer(rt)
+		tm := time.NewTimer(rt)
 		defer tm.Stop()
+
+		tc = tm.C
 	}
 
 	// Wait for incoming message with timeout.
@@ -144,10 +153,17 @@ func (c *Conn) acceptHandshake() (err error) {
 			return err
 		}
 
-		// Check if node already has connection with peer.
-		if _, ok := c.n.hasPeer(syn.NodeID); ok {
+		// Don't connect to itself, and check if node
+		// already has connection with peer.
+		var refuse error
+		if syn.NodeID == c.n.idpk {
+			refuse = ErrConnectToItself
+		} else if _, ok := c.n.hasPeer(syn.NodeID); ok {
+			refuse = ErrAlreadyHaveConnection
+		}
+		if refuse != nil {
 			var (
-				err = ErrAlreadyHaveConnection
+				err = refuse
 
 				errMsg = &msg.Err{
 					Err: err.Error(),
@@ -171,7 +187,7 @@ func (c *Conn) acceptHandshake() (err error) {
 		// Handshake is complete.
 		c.peerID = syn.NodeID
 
-	case <-tm.C:
+	case <-tc:
 		return ErrTimeout
 
 	case <-c.closeq:
diff --git a/node/node.go b/node/node.go
index ddf20bb..cf59744 100644
--- a/node/node.go
+++ b/node/node.go
@@ -406,6 +406,10 @@ func (n *Node) initConn(
 	switch {
 	// In case of exisitng connection return it.
 	case !isNew && !isPending:
+		if isIncoming {
+			return nil, errors.New("already have connection to the address")
+		}
+		fc.Close() // is not used
 		return c, nil
 
 	// In case of existing pending connnection:
@@ -417,9 +421,9 @@ func (n *Node) initConn(
 			return nil, errors.New("already have incoming pending connection")
 		}
 		if err = c.waitForInit(); err != nil {
-			n.onConnInitErr(c, err)
 			return nil, err
 		}
+		fc.Close() // is not used
 		return c, nil
 
 	// In case of new connection perform/accept handshake.
@@ -430,7 +434,19 @@ func (n *Node) initConn(
 			return nil, err
 		}
 
-		n.onConnInit(c)
+		if err = n.onConnInit(c); err != nil {
+			n.onConnInitErr(c, err)
+			return nil, err
+		}
+
+		// Add connection to transport's cache.
+		if c.IsTCP() {
+			n.tcp.addConn(c)
+		} else {
+			n.udp.addConn(c)
+		}
+
+		close(c.initq)
 		go c.run()
 
 		return c, nil
@@ -485,19 +501,25 @@ func (n *Node) onConnInitErr(c *Conn, initErr error) {
 	close(c.initq)
 }
 
-// onConnInit atomically moves pending connection to cache
-// and singals about initConn success. It also chekcs if
+// onConnInit atomically moves pending connection to cache.
+// It also chekcs if
 // peer's pubkey, receieved during hanshake is duplicate.
-func (n *Node) onConnInit(c *Conn) {
+func (n *Node) onConnInit(c *Conn) error {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	// The hanshakes of two connections with the same
+	// peer can be performed simultaneously.
+	if _, ok := n.pkToConn[c.peerID]; ok {
+		return ErrAlreadyHaveConnection
+	}
+
 	delete(n.pendConns, c.Address())
 
 	n.addrToConn[c.Address()] = c
 	n.pkToConn[c.peerID] = c
 
-	close(c.initq)
+	return nil
 }
 
 // removeConn reomoves connection from cache.
diff --git a/node/transports.go b/node/transports.go
index 8bec75a..1efff17 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -113,9 +113,7 @@ func (t *TCP) Connect(address string) (*Conn, error) {
 	// Init outgoing connection (handhshake, check duplicate pubkey, etc.)
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if c, err = t.n.initConn(fc, false); err == nil {
-		t.addConn(c)
-	} else {
+	if c, err = t.n.initConn(fc, false); err != nil {
 		t.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
 			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -141,14 +139,12 @@ func (t *TCP) acceptConn(fc *factory.Connection) {
 		err = errors.New("already have incoming connection from the address")
 	} else {
 		// Init incoming connection (handhshake, check duplicate pubkey, etc.)
-		c, err = t.n.initConn(fc, true)
+		_, err = t.n.initConn(fc, true)
 	}
 
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if err == nil {
-		t.addConn(c)
-	} else {
+	if err != nil {
 		t.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
 			t.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
@@ -456,9 +452,7 @@ func (u *UDP) Connect(address string) (*Conn, error) {
 	// Init outgoing connection (handhshake, check duplicate pubkey, etc.)
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if c, err = u.n.initConn(fc, false); err == nil {
-		u.addConn(c)
-	} else {
+	if c, err = u.n.initConn(fc, false); err != nil {
 		u.n.Errorf(err, "[%s] failed to connect", factoryConnStr(fc, false))
 		if !fc.IsClosed() {
 			u.n.Debugf(CloseConnPin, "[%] closing factory.Connection",
@@ -484,14 +478,12 @@ func (u *UDP) acceptConn(fc *factory.Connection) {
 		err = errors.New("already have incoming connection from the address")
 	} else {
 		// Init incoming connection (handhshake, check duplicate pubkey, etc.)
-		c, err = u.n.initConn(fc, true)
+		_, err = u.n.initConn(fc, true)
 	}
 
 	// In case of success connections to/from the the same address has to be blocked.
 	// In case of failure incoming connection has to be closed.
-	if err == nil {
-		u.addConn(c)
-	} else {
+	if err != nil {
 		u.n.Errorf(err, "[%s] failed to accept", factoryConnStr(fc, true))
 		if !fc.IsClosed() {
 			u.n.Debugf(CloseConnPin, "[%s] closing factory.Connection",
-- 
2.43.0


From c813919773624e666d0439a14e2b2ff68a38558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:43 +0000
Subject: [PATCH 41/69] fix: node: a duplicate response doesn't block the
 connection

---
 node/conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index d8c037c..0db46a1 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -503,11 +503,15 @@ func (c *Conn) receiveMsg() error {
 	}
 }
 
+// isResponse returns channel of the request the rseq belongs to.
+// Every request can have only one response
 func (c *Conn) isResponse(rseq uint32) (rq chan<- msg.Msg, ok bool) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	rq, ok = c.reqs[rseq]
+	if rq, ok = c.reqs[rseq]; ok == true {
+		delete(c.reqs, rseq)
+	}
 	return
 }
 
-- 
2.43.0


From 7838ed59fa75a30afb07b3eda00cae4b6e104961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 42/69] fix: node: closed connections leave their feeds, and a
 feed that is not shared can't come back

---
 node/conn.go  | 10 +++++-
 node/feeds.go | 90 ++++++++++++++++++++++++++++++++++++++-------------
 node/node.go  |  2 ++
 3 files changed, 78 insertions(+), 24 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 0db46a1..4ef903f 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -98,6 +98,8 @@ func (c *Conn) run() {
 	// Wait for all groutines to exit.
 	c.await.Wait()
 
+	c.n.fs.delConn(c) // from all feeds
+
 	c.n.removeConn(c)
 
 	// Remove connection from trasnport's cache and close factory.Connection.
@@ -688,9 +690,15 @@ func (c *Conn) handleSub(seq uint32, sub *msg.Sub) (_ error) {
 		return
 	}
 
+	// the node can stop sharing the feed meanwhile
+
+	if c.n.fs.addConnFeed(c, sub.Feed) == false {
+		c.sendErr(seq, errors.New("do not share the feed"))
+		return
+	}
+
 	// ok
 
-	c.n.fs.addConnFeed(c, sub.Feed)
 	c.sendOk(seq)
 
 	c.sendLastRoot(sub.Feed) // and push last Root
diff --git a/node/feeds.go b/node/feeds.go
index d615f3c..8b89bfa 100644
--- a/node/feeds.go
+++ b/node/feeds.go
@@ -27,12 +27,15 @@ type nodeFeeds struct {
 	fs map[cipher.PubKey]*nodeFeed // feeds
 	fl []cipher.PubKey             // clear-on-write
 
+	cs map[*Conn]struct{} // established connections
+
 	addq chan cipher.PubKey // add feed
 	addb chan bool          // add feed boolean reply
 
 	delq chan cipher.PubKey // del feed
 
 	addcfq chan connFeed // add connection to a feed
+	addcfn chan bool     // add connection to a feed reply
 	delcfq chan connFeed // del connection from a feed
 
 	delcq chan *Conn // delete connection (closed connection and similar)
@@ -73,6 +76,8 @@ func newNodeFeeds(node *Node) (n *nodeFeeds) {
 
 	n.fs = make(map[cipher.PubKey]*nodeFeed)
 
+	n.cs = make(map[*Conn]struct{})
+
 	// idle connection (not pending)
 	n.fs[cipher.PubKey{}] = newNodeFeed(n, cipher.PubKey{})
 
@@ -82,6 +87,7 @@ func newNodeFeeds(node *Node) (n *nodeFeeds) {
 	n.delq = make(chan cipher.PubKey) // del feed
 
 	n.addcfq = make(chan connFeed) // add connection to a feed
+	n.addcfn = make(chan bool)
 	n.delcfq = make(chan connFeed) // del connection from a feed
 
 	n.delcq = make(chan *Conn)
@@ -288,16 +294,54 @@ func (n *nodeFeeds) handleDelFeed(pk cipher.PubKey) {
 	delete(n.fs, pk)
 	n.fl = nil
 
+	// if it was the last feed of a connection
+
+	for c := range nf.cs {
+		n.idle(c)
+	}
+
 }
 
-// (api)
-func (n *nodeFeeds) addConnFeed(c *Conn, pk cipher.PubKey) {
+// put established connection that
+// does't share a feed to idle
+func (n *nodeFeeds) idle(c *Conn) {
+
+	if _, ok := n.cs[c]; ok == false {
+		return // closed
+	}
+
+	for pk, nf := range n.fs {
+
+		if pk == (cipher.PubKey{}) {
+			continue // avoid map lookup
+		}
+
+		if nf.hasConn(c) == true {
+			return
+		}
+
+	}
+
+	n.fs[cipher.PubKey{}].addConn(c)
+
+}
+
+// (api) use blank public key for a new connection, the reply is
+// false if the connection is closed or the node doesn't share the feed
+func (n *nodeFeeds) addConnFeed(c *Conn, pk cipher.PubKey) (added bool) {
 
 	select {
 	case n.addcfq <- connFeed{c, pk}:
+	case <-n.closeq:
+		return
+	}
+
+	select {
+	case added = <-n.addcfn:
 	case <-n.closeq:
 	}
 
+	return
 }
 
 // (handler)
@@ -308,19 +352,29 @@ func (n *nodeFeeds) handleAddConnFeed(cf connFeed) {
 	// if the cf.f is blank the this connection is new
 
 	if cf.f == (cipher.PubKey{}) {
-		n.fs[cipher.PubKey{}].addConn(cf.c)
-		return
+		n.cs[cf.c] = struct{}{}
 	}
 
-	var nf, ok = n.fs[cf.f]
+	var nf, added = n.fs[cf.f]
 
-	if ok == false {
-		nf = newNodeFeed(n, cf.f)
-		n.fs[cf.f] = nf
+	// or, the connection is closed
+
+	if _, ok := n.cs[cf.c]; ok == false {
+		added = false
 	}
 
-	nf.addConn(cf.c)
-	n.fs[cipher.PubKey{}].delConn(cf.c) // delete from idle
+	if added == true {
+		nf.addConn(cf.c)
+
+		if cf.f != (cipher.PubKey{}) {
+			n.fs[cipher.PubKey{}].delConn(cf.c) // delete from idle
+		}
+	}
+
+	select {
+	case n.addcfn <- added:
+	case <-n.closeq:
+	}
 
 }
 
@@ -350,19 +404,7 @@ func (n *nodeFeeds) handleDelConnFeed(cf connFeed) {
 	// if the connection does't share a feed, then
 	// we put it to idle
 
-	for pk, nf := range n.fs {
-
-		if pk == (cipher.PubKey{}) {
-			continue // avoid map lookup
-		}
-
-		if nf.hasConn(cf.c) == true {
-			return
-		}
-
-	}
-
-	n.fs[cipher.PubKey{}].addConn(cf.c) // add to idle
+	n.idle(cf.c)
 
 }
 
@@ -400,6 +442,8 @@ func (n *nodeFeeds) delConn(c *Conn) {
 
 // (handler)
 func (n *nodeFeeds) handleDelConn(c *Conn) {
+	delete(n.cs, c)
+
 	for _, nf := range n.fs {
 		nf.delConn(c) // from all
 	}
diff --git a/node/node.go b/node/node.go
index cf59744..8b13358 100644
--- a/node/node.go
+++ b/node/node.go
@@ -446,6 +446,8 @@ func (n *Node) initConn(
 			n.udp.addConn(c)
 		}
 
+		n.fs.addConnFeed(c, cipher.PubKey{}) // the connection is new
+
 		close(c.initq)
 		go c.run()
 
-- 
2.43.0


From 68b90b2ba6ce0ef8de1786dd55799ba2c387e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:19 +0000
Subject: [PATCH 43/69] fix: node: Subscribe doesn't lose the last Root the
 peer sends along with the reply

---
 node/conn.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 4ef903f..d86d625 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -278,6 +278,33 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 		return
 	}
 
+	// the peer sends last Root along with the reply, and
+	// the connection should be subscribed at this moment
+
+	var have = c.n.fs.hasConnFeed(c, feed)
+
+	c.n.fs.addConnFeed(c, feed)
+
+	if err = c.requestSubscription(feed); err != nil {
+		if have == false {
+			c.n.fs.delConnFeed(c, feed)
+		}
+		return
+	}
+
+	// the connection can be closed, or the node can
+	// stop sharing the feed meanwhile
+
+	if c.n.fs.addConnFeed(c, feed) == false {
+		return ErrUnsubscribe
+	}
+
+	c.sendLastRoot(feed)
+	return
+}
+
+func (c *Conn) requestSubscription(feed cipher.PubKey) (err error) {
+
 	var reply msg.Msg
 
 	if reply, err = c.sendRequest(&msg.Sub{Feed: feed}); err != nil {
@@ -297,12 +324,6 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 
 	}
 
-	if err != nil {
-		return
-	}
-
-	c.n.fs.addConnFeed(c, feed)
-	c.sendLastRoot(feed)
 	return
 }
 
-- 
2.43.0


From cf034139d5f039a331d1ceaed60ba98244ca2770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:36 +0000
Subject: [PATCH 44/69] fix: node: late results of requests and closed
 connections don't crash or block a head

---
 node/conn.go | 15 ++++++++++
 node/head.go | 78 ++++++++++++++++++++++++++++++++++------------------
 2 files changed, 67 insertions(+), 26 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index d86d625..c172bfc 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -562,6 +562,18 @@ func (c *Conn) responseTimeout() (rt time.Duration) {
 }
 
 func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
+	return c.sendRequestCancel(m, nil)
+}
+
+// like the sendRequest, but the request
+// can be canceled closing given channel
+func (c *Conn) sendRequestCancel(
+	m msg.Msg,
+	cancel <-chan struct{},
+) (
+	reply msg.Msg,
+	err error,
+) {
 
 	c.n.Debugf(MsgSendPin, "[%s] sendRequest %T", c.String(), m)
 
@@ -596,6 +608,9 @@ func (c *Conn) sendRequest(m msg.Msg) (reply msg.Msg, err error) {
 	case <-tc:
 		return nil, ErrTimeout
 
+	case <-cancel:
+		return nil, ErrClosed
+
 	case <-c.closeq:
 		return nil, ErrClosed
 	}
diff --git a/node/head.go b/node/head.go
index d3b46ad..3be9bc6 100644
--- a/node/head.go
+++ b/node/head.go
@@ -92,8 +92,14 @@ func (n *nodeHead) node() *Node {
 	return n.n.fs.n
 }
 
+type succeededRequest struct {
+	c *Conn             // connection
+	f *skyobject.Filler // filler the object requested by
+}
+
 type failedRequest struct {
-	c   *Conn         // connection
+	c   *Conn // connection
+	f   *skyobject.Filler
 	seq uint64        // seq of the filling Root
 	key cipher.SHA256 // requested object
 	err error         // failed if the err is not nil
@@ -118,8 +124,8 @@ type fillHead struct {
 
 	cs knownRoots // conn -> known root objects (seq)
 
-	successq chan *Conn         // succeeded requests
-	failureq chan failedRequest // failed requests
+	successq chan succeededRequest // succeeded requests
+	failureq chan failedRequest    // failed requests
 
 	rqo *list.List // request objects (cipher.SHA256)
 	fc  *list.List // connections to fill from (*Conn)
@@ -146,13 +152,14 @@ func (n *nodeHead) handle() {
 
 			ff: make(chan error), // filling error or nil (success)
 
-			successq: make(chan *Conn),         // release connection
-			failureq: make(chan failedRequest), // failed requests
+			successq: make(chan succeededRequest), // release connection
+			failureq: make(chan failedRequest),    // failed requests
 		}
 
 		key cipher.SHA256
 		c   *Conn
 		cr  connRoot
+		sc  succeededRequest
 		fc  failedRequest
 		err error // fillign failure or nil
 	)
@@ -163,9 +170,9 @@ func (n *nodeHead) handle() {
 
 			f.handleRequest(key)
 
-		case c = <-f.successq:
+		case sc = <-f.successq:
 
-			f.handleSuccess(c)
+			f.handleSuccess(sc)
 
 		case fc = <-f.failureq:
 
@@ -221,11 +228,15 @@ func (f *fillHead) handleRequest(key cipher.SHA256) {
 	f.triggerRequest()
 }
 
-func (f *fillHead) handleSuccess(c *Conn) {
-	f.node().Debugln(FillPin, "[fill] handleSuccess", c.String())
+func (f *fillHead) handleSuccess(sr succeededRequest) {
+	f.node().Debugln(FillPin, "[fill] handleSuccess", sr.c.String())
+
+	if sr.f != f.f {
+		return // the filling is already finished
+	}
 
 	f.requesting--
-	f.fc.PushBack(c) // push
+	f.fc.PushBack(sr.c) // push
 	f.triggerRequest()
 }
 
@@ -233,8 +244,6 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 	f.node().Debugln(FillPin, "[fill] handleRequestFailure", fr.c.String(),
 		fr.key.Hex()[:7])
 
-	f.requesting--
-
 	switch fr.err {
 	case ErrInvalidResponse:
 
@@ -259,6 +268,11 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 
 	}
 
+	if fr.f != f.f {
+		return // the filling is already finished
+	}
+
+	f.requesting--
 	f.rqo.PushFront(fr.key) // shift
 	f.triggerRequest()
 
@@ -382,6 +396,7 @@ func (f *fillHead) closeFiller() {
 
 	f.f.Close()
 
+	f.f, f.ft, f.tc = nil, nil, nil
 	f.rqo, f.fc, f.rq = nil, nil, nil
 
 	f.r = connRoot{}
@@ -463,7 +478,7 @@ func (f *fillHead) tryRequest() (fatal bool) {
 	f.requesting++
 
 	f.await.Add(1) // nodeHead.await
-	go f.request(c, f.r.r.Seq, key)
+	go f.request(c, f.f, f.r.r.Seq, key)
 
 	return
 }
@@ -474,16 +489,22 @@ func (f *fillHead) node() *Node {
 }
 
 // (async) request object
-func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
+func (f *fillHead) request(
+	c *Conn,
+	fill *skyobject.Filler,
+	seq uint64,
+	key cipher.SHA256,
+) {
 	defer f.await.Done()
 
 	f.node().Debugf(FillPin, "[fill] request from [%s] %d %s", c.String(), seq,
 		key.Hex()[:7])
 
-	var reply, err = c.sendRequest(&msg.RqObject{Key: key})
+	// stop waiting if the head is closed
+	var reply, err = c.sendRequestCancel(&msg.RqObject{Key: key}, f.closeq)
 
 	if err != nil {
-		f.failureq <- failedRequest{c, seq, key, err}
+		f.requestFailed(failedRequest{c, fill, seq, key, err})
 		return
 	}
 
@@ -492,7 +513,8 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 		var rk = cipher.SumSHA256(x.Value)
 
 		if rk != key {
-			f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+			f.requestFailed(
+				failedRequest{c, fill, seq, key, ErrInvalidResponse})
 			return
 		}
 
@@ -502,25 +524,29 @@ func (f *fillHead) request(c *Conn, seq uint64, key cipher.SHA256) {
 			return
 		}
 
-		f.successq <- c
+		select {
+		case f.successq <- succeededRequest{c, fill}:
+		case <-f.closeq:
+		}
 
 	default:
-		f.failureq <- failedRequest{c, seq, key, ErrInvalidResponse}
+		f.requestFailed(failedRequest{c, fill, seq, key, ErrInvalidResponse})
 	}
 
 }
 
-func (f *fillHead) handleDelConn(c *Conn) {
-	delete(f.cs, c) // just remove it from list of known
+// (async)
+func (f *fillHead) requestFailed(fr failedRequest) {
 
-	if f.r.c == c {
-		f.r.c = nil // GC
+	select {
+	case f.failureq <- fr:
+	case <-f.closeq:
 	}
 
-	if f.p.c == c {
-		f.p.c = nil // GC
-	}
+}
 
+func (f *fillHead) handleDelConn(c *Conn) {
+	delete(f.cs, c) // just remove it from list of known
 }
 
 func (f *fillHead) terminate() {
-- 
2.43.0


From 4cef593d350cfe8fc9e60a1767ee5276dd0ced6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:37 +0000
Subject: [PATCH 45/69] fix: node: filling of a Root doesn't forget who has the
 next one

---
 node/head.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/node/head.go b/node/head.go
index 3be9bc6..b694f29 100644
--- a/node/head.go
+++ b/node/head.go
@@ -611,22 +611,15 @@ func (k knownRoots) removeKnown(c *Conn, seq uint64) {
 // Root objects of all peers
 func (k knownRoots) moveForward(seq uint64) {
 
-	var (
-		ks uint64
-		i  int
-	)
+	var i int
 
 	for c, known := range k {
 
-		for i, ks = range known {
-
-			if ks >= seq {
-				k[c] = append(known[:i], known[i+1:]...)
-				break
-			}
-
+		for i = 0; i < len(known) && known[i] < seq; i++ {
 		}
 
+		k[c] = known[i:]
+
 	}
 
 }
-- 
2.43.0


From 461f2c87cf7ec1212bf50ecb6f1d50de4f7adce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:38 +0000
Subject: [PATCH 46/69] fix: node: a peer that has no object or swarm is not
 disconnected, and an object that is too large doesn't stop the process

---
 node/conn.go | 16 ++++++++++++----
 node/head.go | 21 ++++++++++++++-------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index c172bfc..c0a778e 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -849,7 +849,7 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 	select {
 	case obj := <-gc:
 		// got
-		c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+		c.sendObject(seq, obj)
 		return
 	default:
 		// wait
@@ -864,9 +864,9 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 
 	select {
 	case obj := <-gc:
-		c.sendMsg(c.nextSeq(), seq, &msg.Object{Value: obj.Val})
+		c.sendObject(seq, obj)
 	case <-tc:
-		c.sendMsg(c.nextSeq(), seq, &msg.Err{}) // timeout
+		c.sendErr(seq, ErrTimeout) // timeout
 	case <-c.closeq:
 		// closed
 	}
@@ -874,6 +874,14 @@ func (c *Conn) handleRqObject(seq uint32, rq *msg.RqObject) {
 	return
 }
 
+func (c *Conn) sendObject(rseq uint32, obj skyobject.Object) {
+	if obj.Err != nil {
+		c.sendErr(rseq, obj.Err)
+		return
+	}
+	c.sendMsg(c.nextSeq(), rseq, &msg.Object{Value: obj.Val})
+}
+
 func (c *Conn) handleRqPreview(seq uint32, rqp *msg.RqPreview) (_ error) {
 
 	c.n.Debugf(MsgReceivePin, "[%s] handleRqPreview %s", c.String(),
@@ -907,7 +915,7 @@ func (c *Conn) handleRqPeers(seq uint32, rqp *msg.RqPeers) error {
 	s, ok := c.n.InSwarm(rqp.Feed)
 	if !ok {
 		c.sendMsg(c.nextSeq(), seq, &msg.Err{Err: "not in swarm"})
-		return errors.New("node in not in swarm")
+		return nil
 	}
 
 	peers := s.peersForExchange(c.PeerID())
diff --git a/node/head.go b/node/head.go
index b694f29..89d0ea5 100644
--- a/node/head.go
+++ b/node/head.go
@@ -2,6 +2,7 @@ package node
 
 import (
 	"container/list"
+	"errors"
 	"sync"
 	"time"
 
@@ -257,14 +258,11 @@ func (f *fillHead) handleRequestFailure(fr failedRequest) {
 		// closed
 		delete(f.cs, fr.c) // remove connection
 
-	case ErrTimeout:
-
-		// probably don't have object we're requesting anymore
-		f.cs.removeKnown(fr.c, fr.seq)
-
 	default:
 
-		// skyobject.ErrTerminated or other error
+		// ErrTimeout or the peer can't give the object, probably
+		// it doesn't have object we're requesting anymore
+		f.cs.removeKnown(fr.c, fr.seq)
 
 	}
 
@@ -519,7 +517,12 @@ func (f *fillHead) request(
 		}
 
 		// incremented by the Want call(s)
-		if _, err := f.node().c.SetWanted(key, x.Value); err != nil {
+		_, err = f.node().c.SetWanted(key, x.Value)
+
+		// the filler fails if the object is too large
+		if _, large := err.(*skyobject.ObjectIsTooLargeError); err != nil &&
+			large == false {
+
 			f.node().Fatal("DB failure:", err)
 			return
 		}
@@ -529,6 +532,10 @@ func (f *fillHead) request(
 		case <-f.closeq:
 		}
 
+	case *msg.Err:
+		// the peer can't give the object
+		f.requestFailed(failedRequest{c, fill, seq, key, errors.New(x.Err)})
+
 	default:
 		f.requestFailed(failedRequest{c, fill, seq, key, ErrInvalidResponse})
 	}
-- 
2.43.0


From fb949ae8b6ec0013e3e7faccfd85fa7cd0b01c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:50 +0000
Subject: [PATCH 47/69] fix: node: heads and feeds don't wait for each other,
 and the limit of heads takes effect

---
 node/feed.go |  5 +--
 node/head.go | 92 +++++++++++++++++++++++++++++++++-------------------
 2 files changed, 61 insertions(+), 36 deletions(-)

diff --git a/node/feed.go b/node/feed.go
index 6e28e65..e2cc9ce 100644
--- a/node/feed.go
+++ b/node/feed.go
@@ -72,11 +72,12 @@ func (n *nodeFeed) receivedRoot(cr connRoot) {
 
 			var tormh = n.hs[torm]
 
-			tormh.errq <- ErrMaxHeadsLimit
-			tormh.close() // wait
+			tormh.closeByError(ErrMaxHeadsLimit)
 
 			delete(n.hs, torm) // remove
 
+		} else {
+			n.ho = append(n.ho, cr.r.Nonce)
 		}
 
 		nh = newNodeHead(n)
diff --git a/node/head.go b/node/head.go
index 89d0ea5..e54f945 100644
--- a/node/head.go
+++ b/node/head.go
@@ -17,9 +17,11 @@ import (
 type nodeHead struct {
 	n *nodeFeed // back reference
 
-	delcq chan *Conn    // delete connection
-	rrq   chan connRoot // received roots
-	errq  chan error    // close with error (max heads limit)
+	emx sync.Mutex    // lock of the es
+	es  []headEvent   // received roots and deleted connections
+	eq  chan struct{} // there are events
+
+	errq chan error // close with error (max heads limit)
 
 	// api info
 
@@ -27,65 +29,84 @@ type nodeHead struct {
 	inforn chan *headInfo // info response
 
 	// closing
-	await  sync.WaitGroup // wait goroutines
-	closeo sync.Once      // close once
-	closeq chan struct{}  // terminate
+	await  *sync.WaitGroup // wait goroutines (of the nodeFeeds)
+	closeo sync.Once       // close once
+	closeq chan struct{}   // terminate
 }
 
+// received Root or, if the r is nil, deleted connection
+type headEvent connRoot
+
 func newNodeHead(nf *nodeFeed) (n *nodeHead) {
 
 	n = new(nodeHead)
 
 	n.n = nf
 
-	n.delcq = make(chan *Conn)
-	n.rrq = make(chan connRoot)
+	n.eq = make(chan struct{}, 1)
 
-	n.errq = make(chan error)
+	n.errq = make(chan error, 1)
 	n.closeq = make(chan struct{})
 
+	n.await = &nf.fs.await
+
 	n.await.Add(1)
 	go n.handle()
 
 	return
 }
 
-// (api)
-func (n *nodeHead) closeByError(err error) {
-
-	select {
-	case n.errq <- err:
-	case <-n.closeq:
-	}
+//
+// The api methods never block. The head uses methods of the
+// nodeFeeds, and callbacks of the head can use them too, thus
+// the nodeFeeds must not wait for the head
+//
 
+// (api) call it once
+func (n *nodeHead) closeByError(err error) {
+	n.errq <- err
 }
 
 // (api)
 func (n *nodeHead) delConn(c *Conn) {
-
-	select {
-	case n.delcq <- c:
-	case <-n.closeq:
-	}
-
+	n.event(headEvent{c, nil})
 }
 
 // (api)
 func (n *nodeHead) receivedRoot(cr connRoot) {
+	n.event(headEvent(cr))
+}
+
+func (n *nodeHead) event(e headEvent) {
+
+	n.emx.Lock()
+	defer n.emx.Unlock()
+
+	n.es = append(n.es, e)
 
 	select {
-	case n.rrq <- cr:
-	case <-n.closeq:
+	case n.eq <- struct{}{}:
+	default:
 	}
 
 }
 
-// (api)
+// take all events
+func (n *nodeHead) events() (es []headEvent) {
+
+	n.emx.Lock()
+	defer n.emx.Unlock()
+
+	es, n.es = n.es, nil
+	return
+}
+
+// (api) the close doesn't wait for goroutines
+// of the head, use (*nodeFeeds).close to wait
 func (n *nodeHead) close() {
 	n.closeo.Do(func() {
 		close(n.closeq)
 	})
-	n.await.Wait()
 }
 
 // code readability
@@ -139,8 +160,7 @@ func (n *nodeHead) handle() {
 	defer n.await.Done()
 
 	var (
-		delcq  = n.delcq  //
-		rrq    = n.rrq    //
+		eq     = n.eq     //
 		closeq = n.closeq //
 		errq   = n.errq   //
 		inforq = n.inforq //
@@ -158,8 +178,7 @@ func (n *nodeHead) handle() {
 		}
 
 		key cipher.SHA256
-		c   *Conn
-		cr  connRoot
+		e   headEvent
 		sc  succeededRequest
 		fc  failedRequest
 		err error // fillign failure or nil
@@ -183,13 +202,17 @@ func (n *nodeHead) handle() {
 
 			f.handleFillingResult(err)
 
-		case cr = <-rrq: // root received
+		case <-eq:
 
-			f.handleReceivedRoot(cr)
+			for _, e = range n.events() {
 
-		case c = <-delcq: // delete connection
+				if e.r == nil {
+					f.handleDelConn(e.c) // delete connection
+				} else {
+					f.handleReceivedRoot(connRoot(e)) // root received
+				}
 
-			f.handleDelConn(c)
+			}
 
 		case <-f.tc: // filling timeout
 
@@ -209,6 +232,7 @@ func (n *nodeHead) handle() {
 				f.f.Close()
 				f.handleFillingResult(err)
 			}
+			n.close()
 			f.terminate()
 			return
 
-- 
2.43.0


From 1e9b0145351844b6770380218d92139540c4918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:58 +0000
Subject: [PATCH 48/69] fix: node: a peer that reads nothing doesn't block the
 feeds of the node

---
 node/conn.go | 84 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 5 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index c0a778e..5cdee91 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -36,6 +36,10 @@ type Conn struct {
 
 	sendq chan<- []byte // channel from factory.Connection
 
+	pmx   sync.Mutex    // lock of the pushs
+	pushs []pushMsg     // messages to send in background
+	pushq chan struct{} // there are messages
+
 	// # stat
 	//
 	// TODO (kostyarin): stat without mutexes to do not slow down the connection
@@ -49,6 +53,12 @@ type Conn struct {
 	reqs map[uint32]chan<- msg.Msg // requests
 }
 
+// a messege to send in background
+type pushMsg struct {
+	seq uint32
+	m   msg.Msg
+}
+
 func (n *Node) newConnection(
 	fc *factory.Connection, isIncoming bool) *Conn {
 
@@ -65,6 +75,8 @@ func (n *Node) newConnection(
 
 		sendq: fc.GetChanOut(),
 
+		pushq: make(chan struct{}, 1),
+
 		reqs: make(map[uint32]chan<- msg.Msg),
 	}
 
@@ -89,6 +101,12 @@ func (c *Conn) run() {
 		}
 	}()
 
+	c.await.Add(1)
+	go func() {
+		defer c.await.Done()
+		c.sendPushs()
+	}()
+
 	// If OnConnect returns error, connection will be closed.
 	var occErr error
 	if occErr = c.n.onConnect(c); occErr != nil {
@@ -235,7 +253,7 @@ func (c *Conn) RemoteFeeds() (feeds []cipher.PubKey, err error) {
 }
 
 func (c *Conn) sendRoot(r *registry.Root) {
-	c.sendMsg(c.nextSeq(), 0, &msg.Root{
+	c.push(c.nextSeq(), &msg.Root{
 		Feed:  r.Pub,
 		Nonce: r.Nonce,
 		Seq:   r.Seq,
@@ -329,7 +347,7 @@ func (c *Conn) requestSubscription(feed cipher.PubKey) (err error) {
 
 // just send the messege
 func (c *Conn) unsubscribe(pk cipher.PubKey) {
-	c.sendMsg(c.nextSeq(), 0, &msg.Unsub{
+	c.push(c.nextSeq(), &msg.Unsub{
 		Feed: pk,
 	})
 }
@@ -478,6 +496,63 @@ func (c *Conn) sendMsg(seq, rseq uint32, m msg.Msg) error {
 	return nil
 }
 
+// push the messege to send it in background. The push never blocks, and
+// it used where the Node can't wait for a peer that reads nothing. There is
+// no sence to send an old Root if there is a newer one
+func (c *Conn) push(seq uint32, m msg.Msg) {
+
+	c.pmx.Lock()
+	defer c.pmx.Unlock()
+
+	if r, ok := m.(*msg.Root); ok == true {
+		for i, p := range c.pushs {
+			if pr, ok := p.m.(*msg.Root); ok == true && pr.Feed == r.Feed &&
+				pr.Nonce == r.Nonce && pr.Seq <= r.Seq {
+
+				c.pushs = append(c.pushs[:i], c.pushs[i+1:]...)
+				break
+			}
+		}
+	}
+
+	c.pushs = append(c.pushs, pushMsg{seq, m})
+
+	select {
+	case c.pushq <- struct{}{}:
+	default:
+	}
+
+}
+
+// (async) send messages of the push
+func (c *Conn) sendPushs() {
+
+	for {
+
+		select {
+		case <-c.pushq:
+		case <-c.closeq:
+			return
+		}
+
+		c.pmx.Lock()
+		for len(c.pushs) > 0 {
+			var p = c.pushs[0]
+			c.pushs = c.pushs[1:]
+			c.pmx.Unlock()
+
+			if c.sendMsg(p.seq, 0, p.m) != nil {
+				return // closed
+			}
+
+			c.pmx.Lock()
+		}
+		c.pmx.Unlock()
+
+	}
+
+}
+
 func (c *Conn) receiveMsg() error {
 	c.n.Debugf(ConnPin, "[%s] receiving", c.String())
 
@@ -597,9 +672,8 @@ func (c *Conn) sendRequestCancel(
 	c.addRequest(seq, rq)
 	defer c.delRequest(seq)
 
-	if err = c.sendMsg(seq, 0, m); err != nil {
-		return
-	}
+	// keep order of the Sub and the Unsub
+	c.push(seq, m)
 
 	select {
 	case reply = <-rq:
-- 
2.43.0


From bd5dd96a7f5e369c6ddfa5c7543a662f39895e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:20 +0000
Subject: [PATCH 49/69] fix: node: closing a node doesn't hang, and nothing
 uses the database after that

---
 node/conn.go |  2 ++
 node/node.go | 71 +++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 5cdee91..614b2e2 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -107,6 +107,8 @@ func (c *Conn) run() {
 		c.sendPushs()
 	}()
 
+	c.await.Done() // goroutines of the connection are started
+
 	// If OnConnect returns error, connection will be closed.
 	var occErr error
 	if occErr = c.n.onConnect(c); occErr != nil {
diff --git a/node/node.go b/node/node.go
index 8b13358..4308d02 100644
--- a/node/node.go
+++ b/node/node.go
@@ -80,6 +80,7 @@ type Node struct {
 
 	await  sync.WaitGroup // wait for goroutines
 	closeo sync.Once      // close once
+	closed bool           // no more connections and swarms
 }
 
 // NewNode creates new Node instance using provided
@@ -466,6 +467,10 @@ func (n *Node) onNewConn(
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.closed == true {
+		return nil, false, false, ErrClosed
+	}
+
 	// Check limits for number of open connections.
 	if len(n.pendConns)+len(n.addrToConn) >= n.config.MaxConnections {
 		return nil, false, false, ErrConnLimit
@@ -510,6 +515,10 @@ func (n *Node) onConnInit(c *Conn) error {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.closed == true {
+		return ErrClosed
+	}
+
 	// The hanshakes of two connections with the same
 	// peer can be performed simultaneously.
 	if _, ok := n.pkToConn[c.peerID]; ok {
@@ -521,6 +530,8 @@ func (n *Node) onConnInit(c *Conn) error {
 	n.addrToConn[c.Address()] = c
 	n.pkToConn[c.peerID] = c
 
+	c.await.Add(1) // (*Conn).Close waits for the run
+
 	return nil
 }
 
@@ -698,33 +709,56 @@ func (n *Node) Stat() (s *Stat) {
 // of (skyobject.Container).Close once.
 func (n *Node) Close() (err error) {
 	n.closeo.Do(func() {
+
+		// Don't wait under the lock, everything
+		// we are waiting for can use the lock.
 		n.mx.Lock()
-		defer n.mx.Unlock()
+
+		n.closed = true
+
+		var (
+			ss       = n.ss
+			cs       = make([]*Conn, 0, len(n.pendConns)+len(n.pkToConn))
+			tcp, udp = n.tcp, n.udp
+			fs       = n.fs
+			rpc      = n.rpc
+		)
+
+		n.ss = make(map[cipher.PubKey]*Swarm)
+
+		for _, c := range n.pendConns {
+			cs = append(cs, c)
+		}
+		for _, c := range n.pkToConn {
+			cs = append(cs, c)
+		}
+
+		n.mx.Unlock()
 
 		// Shutdown peer exchange.
-		for _, s := range n.ss {
+		for _, s := range ss {
 			s.shutdown()
 		}
 
 		// Close all connections.
-		for _, c := range n.pendConns {
-			c.Close()
-		}
-		for _, c := range n.pkToConn {
+		for _, c := range cs {
 			c.Close()
 		}
 
 		// Shutdown all transports.
-		if n.tcp != nil {
-			n.tcp.Close()
+		if tcp != nil {
+			tcp.Close()
 		}
-		if n.udp != nil {
-			n.udp.Close()
+		if udp != nil {
+			udp.Close()
 		}
-		if n.rpc != nil {
-			n.rpc.Close()
+		if rpc != nil {
+			rpc.Close()
 		}
 
+		// Wait for heads, that use the database.
+		fs.close()
+
 		// Close database.
 		err = n.c.Close()
 
@@ -741,6 +775,10 @@ func (n *Node) JoinSwarm(
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.closed == true {
+		return nil, ErrClosed
+	}
+
 	if s, ok := n.ss[feed]; ok {
 		return s, nil
 	}
@@ -756,16 +794,15 @@ func (n *Node) JoinSwarm(
 
 func (n *Node) LeaveSwarm(feed cipher.PubKey) error {
 	n.mx.Lock()
-	defer n.mx.Unlock()
-
 	s, ok := n.ss[feed]
+	delete(n.ss, feed)
+	n.mx.Unlock()
+
 	if !ok {
 		return errors.New("node is not in swarm")
 	}
 
-	s.shutdown()
-
-	delete(n.ss, feed)
+	s.shutdown() // don't wait under the lock
 
 	return nil
 }
-- 
2.43.0


From 05a5806846deb724238c75eb5dd2b4c84ac82d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 50/69] fix: node: use the limit of parallel filling of the
 container

---
 node/node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node/node.go b/node/node.go
index 4308d02..7de6a6b 100644
--- a/node/node.go
+++ b/node/node.go
@@ -158,6 +158,8 @@ func NewNodeContainer(
 	n.config = conf
 	n.config.Config = c.Config() // actual
 
+	n.maxFillingParallel = n.config.Config.MaxFillingParallel
+
 	n.fillavg = statutil.NewDuration(conf.Config.RollAvgSamples)
 
 	//
-- 
2.43.0


From df6d662981b5a3a2bc2ab280bf65495fc2850b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:02 +0000
Subject: [PATCH 51/69] fix: node: a swarm updates known peers, adds fresh new
 ones, and can be left at any time

---
 node/swarm.go | 64 +++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/node/swarm.go b/node/swarm.go
index 37195f7..b911cdc 100644
--- a/node/swarm.go
+++ b/node/swarm.go
@@ -138,7 +138,7 @@ func (s *Swarm) AddPeer(
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if uint64(len(s.peers)) >= s.cfg.MaxPeers {
+	if _, ok := s.peers[pk]; !ok && uint64(len(s.peers)) >= s.cfg.MaxPeers {
 		return fmt.Errorf("maximum number of peers exceeded")
 	}
 
@@ -195,6 +195,9 @@ LOOP:
 		}
 
 		select {
+		case <-s.quit:
+			break LOOP
+
 		case <-requestPeers:
 			if s.needPeers() {
 				s.requestPeers()
@@ -251,6 +254,7 @@ func (s *Swarm) requestPeers() {
 				if m.Feed != s.feed {
 					err = errors.New("received peers for wrong feed")
 					// TODO: maybe call s.incPeerRetryTimes(c.PeerID())
+					break
 				}
 				s.addPeers(m.List)
 
@@ -288,14 +292,8 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 	s.node.Debugf(PEXPin, "adding %d peers for feed %s",
 		len(peers), s.feed.Hex()[:8])
 
-	if s.cfg.MaxPeers > 0 && s.cfg.MaxPeers <= uint64(len(s.peers)) {
-		s.node.Debugf(PEXPin, "feed %s already have maximum number of peers",
-			s.feed.Hex()[:8])
-		return
-	}
-
 	// Validate peers
-	var validPeers []msg.PeerInfo
+	var knownPeers, newPeers []msg.PeerInfo
 	for _, pi := range peers {
 		if ok, _ := s.isSelf(pi); ok {
 			continue
@@ -305,42 +303,44 @@ func (s *Swarm) addPeers(peers []msg.PeerInfo) {
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 			continue
 		}
-		validPeers = append(validPeers, pi)
+		if _, ok := s.peers[pi.PubKey]; ok {
+			knownPeers = append(knownPeers, pi)
+		} else {
+			newPeers = append(newPeers, pi)
+		}
 	}
-	peers = validPeers
 
-	// Shuffle and cap peers
-	mathrand.Shuffle(len(peers), func(i, j int) {
-		peers[i], peers[j] = peers[j], peers[i]
+	// Shuffle new peers
+	mathrand.Shuffle(len(newPeers), func(i, j int) {
+		newPeers[i], newPeers[j] = newPeers[j], newPeers[i]
 	})
-	if s.cfg.MaxPeers > 0 {
-		rcap := s.cfg.MaxPeers - uint64(len(s.peers))
-		if uint64(len(peers)) > rcap {
-			s.node.Debugf(PEXPin, "capping number of peers to be added for feed %s to %d",
-				s.feed.Hex()[:8], rcap)
-			peers = peers[:rcap]
-		}
-	}
 
 	// Update existing peers or add new one
-	for _, pi := range peers {
+	for _, pi := range append(knownPeers, newPeers...) {
 		p, ok := s.peers[pi.PubKey]
-		if !ok {
+		if ok {
 			s.node.Debugf(PEXPin, "updating last seen time of peer %s for feed %s",
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 			p.seen()
 
-			if ok = p.update(pi); ok {
+			if p.update(pi) {
 				s.node.Debugf(PEXPin, "updating info about peer %s for feed %s",
 					pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 
 				s.onPeerUpdated(p)
 			}
 		} else {
+			if s.cfg.MaxPeers > 0 && s.cfg.MaxPeers <= uint64(len(s.peers)) {
+				s.node.Debugf(PEXPin, "feed %s already have maximum number of peers",
+					s.feed.Hex()[:8])
+				continue
+			}
+
 			s.node.Debugf(PEXPin, "adding new peer %s for feed %s",
 				pi.PubKey.Hex()[:8], s.feed.Hex()[:8])
 
 			p = msgToPeer(pi)
+			p.seen()
 			s.onPeerAdded(p)
 		}
 
@@ -352,10 +352,10 @@ func (s *Swarm) isSelf(p msg.PeerInfo) (bool, string) {
 	if p.PubKey == s.node.ID() {
 		return true, "pubkey is same"
 	}
-	if p.TCPAddr == s.node.TCP().Address() {
+	if p.TCPAddr != "" && p.TCPAddr == s.node.TCP().Address() {
 		return true, "tcp address is same"
 	}
-	if p.UDPAddr == s.node.UDP().Address() {
+	if p.UDPAddr != "" && p.UDPAddr == s.node.UDP().Address() {
 		return true, "udp address is saem"
 	}
 
@@ -431,7 +431,7 @@ func (s *Swarm) createOutgoingConns(count uint64) {
 			return !ok
 		}
 
-		peers = s.randomPeers(int(count), noConn)
+		peers = s.randomPeers(count, noConn)
 
 		wg sync.WaitGroup
 	)
@@ -496,7 +496,7 @@ func (s *Swarm) resetPeerRetryTimes(pk cipher.PubKey) error {
 		return errPeerNotFound
 	}
 
-	p.RetryTimes--
+	p.RetryTimes = 0
 	s.peers[pk] = p
 
 	return nil
@@ -511,7 +511,7 @@ func (s *Swarm) peersForExchange(peerPK cipher.PubKey) []msg.PeerInfo {
 			return p.PubKey != peerPK
 		}
 
-		peers = s.randomPeers(int(s.cfg.PeersPerResponse), zeroRetries, notItself)
+		peers = s.randomPeers(s.cfg.PeersPerResponse, zeroRetries, notItself)
 
 		peerMsg = make([]msg.PeerInfo, len(peers))
 	)
@@ -523,11 +523,11 @@ func (s *Swarm) peersForExchange(peerPK cipher.PubKey) []msg.PeerInfo {
 	return peerMsg
 }
 
-func (s *Swarm) randomPeers(count int, filters ...peerFilter) []Peer {
+func (s *Swarm) randomPeers(count uint64, filters ...peerFilter) []Peer {
 	filteredPeers := s.filterPeers(filters...)
 
-	if count > len(filteredPeers) {
-		count = len(filteredPeers)
+	if count > uint64(len(filteredPeers)) {
+		count = uint64(len(filteredPeers))
 	}
 
 	var (
-- 
2.43.0


From 1449384fc455ef2aa37f0c98cb81abd6fddfb134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:03 +0000
Subject: [PATCH 52/69] fix: node: call the OnUnsubscribeRemote callback

---
 node/conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/node/conn.go b/node/conn.go
index 614b2e2..12663e4 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -828,7 +828,12 @@ func (c *Conn) handleUnsub(seq uint32, unsub *msg.Unsub) (err error) {
 		return errors.New("invalid request Unsub blank feed") // fatal
 	}
 
-	c.n.fs.delConnFeed(c, unsub.Feed) // delete
+	if c.n.fs.hasConnFeed(c, unsub.Feed) == false {
+		return // is not subscribed
+	}
+
+	c.n.fs.delConnFeed(c, unsub.Feed)      // delete
+	c.n.onUnsubscribeRemote(c, unsub.Feed) // callback
 	return
 }
 
-- 
2.43.0


From fbb0b019380190cf98c3c913bfcc5e1baea2286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:14 +0000
Subject: [PATCH 53/69] fix: node: UDP methods of the RPC use the UDP transport

---
 node/rpc.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/node/rpc.go b/node/rpc.go
index 9aadebb..328916f 100644
--- a/node/rpc.go
+++ b/node/rpc.go
@@ -236,14 +236,14 @@ type UDPRPC struct {
 
 // Connect is RPC method
 func (u *UDPRPC) Connect(address string, _ *struct{}) (err error) {
-	_, err = u.n.TCP().Connect(address)
+	_, err = u.n.UDP().Connect(address)
 	return
 }
 
 // Disconnect is RPC method
 func (u *UDPRPC) Disconnect(address string, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(address); c != nil {
 			err = c.Close()
 		}
 	}
@@ -252,8 +252,8 @@ func (u *UDPRPC) Disconnect(address string, _ *struct{}) (err error) {
 
 // Subscribe is RPC method
 func (u *UDPRPC) Subscribe(cf ConnFeed, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(cf.Address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(cf.Address); c != nil {
 			return c.Subscribe(cf.Feed)
 		}
 		return errors.New("no such connection")
@@ -263,8 +263,8 @@ func (u *UDPRPC) Subscribe(cf ConnFeed, _ *struct{}) (err error) {
 
 // Unsubscribe is RPC method
 func (u *UDPRPC) Unsubscribe(cf ConnFeed, _ *struct{}) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(cf.Address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(cf.Address); c != nil {
 			c.Unsubscribe(cf.Feed)
 			return
 		}
@@ -275,8 +275,8 @@ func (u *UDPRPC) Unsubscribe(cf ConnFeed, _ *struct{}) (err error) {
 
 // RemoteFeeds is RPC method
 func (u *UDPRPC) RemoteFeeds(address string, rfs *[]cipher.PubKey) (err error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		if c := tcp.getConn(address); c != nil {
+	if udp := u.n.getUDP(); udp != nil {
+		if c := udp.getConn(address); c != nil {
 			var rf []cipher.PubKey
 			if rf, err = c.RemoteFeeds(); err != nil {
 				return
@@ -291,8 +291,8 @@ func (u *UDPRPC) RemoteFeeds(address string, rfs *[]cipher.PubKey) (err error) {
 
 // Address is RPC method
 func (u *UDPRPC) Address(_ struct{}, address *string) (_ error) {
-	if tcp := u.n.getTCP(); tcp != nil {
-		*address = tcp.Address()
+	if udp := u.n.getUDP(); udp != nil {
+		*address = udp.Address()
 		return
 	}
 	return errors.New("to UDP transport")
-- 
2.43.0


From 3faf140d080368d0a0ebf92812d68535468d837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:29 +0000
Subject: [PATCH 54/69] fix: node: zero disables limits of connections, as
 documented

---
 node/node.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index 7de6a6b..a44fd35 100644
--- a/node/node.go
+++ b/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"errors"
 	"fmt"
+	"math"
 	"sync"
 	"time"
 
@@ -369,6 +370,10 @@ func (n *Node) connCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.config.MaxConnections <= 0 {
+		return math.MaxInt32 // no limit
+	}
+
 	count := len(n.pendConns) + len(n.addrToConn)
 	if count >= n.config.MaxConnections {
 		return 0
@@ -381,6 +386,10 @@ func (n *Node) pendingConnCap() int {
 	n.mx.Lock()
 	defer n.mx.Unlock()
 
+	if n.config.MaxPendingConnections <= 0 {
+		return math.MaxInt32 // no limit
+	}
+
 	count := len(n.pendConns)
 	if count >= n.config.MaxPendingConnections {
 		return 0
@@ -474,10 +483,14 @@ func (n *Node) onNewConn(
 	}
 
 	// Check limits for number of open connections.
-	if len(n.pendConns)+len(n.addrToConn) >= n.config.MaxConnections {
+	if mc := n.config.MaxConnections; mc > 0 &&
+		len(n.pendConns)+len(n.addrToConn) >= mc {
+
 		return nil, false, false, ErrConnLimit
 	}
-	if len(n.pendConns) >= n.config.MaxPendingConnections {
+	if mpc := n.config.MaxPendingConnections; mpc > 0 &&
+		len(n.pendConns) >= mpc {
+
 		return nil, false, false, ErrPendConnLimit
 	}
 
-- 
2.43.0


From 208d06ab13ff1049caae9826482b8566ecf4bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:56 +0000
Subject: [PATCH 55/69] fix: node: Subscribe doesn't bring back a subscription
 the peer has cancelled or refused

---
 node/conn.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 12663e4..222fa3e 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -306,16 +306,20 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 	c.n.fs.addConnFeed(c, feed)
 
 	if err = c.requestSubscription(feed); err != nil {
-		if have == false {
+		if have == false || err != ErrTimeout {
 			c.n.fs.delConnFeed(c, feed)
 		}
+		if have == false && err == ErrTimeout {
+			c.unsubscribe(feed) // the peer can accept it later
+		}
 		return
 	}
 
-	// the connection can be closed, or the node can
-	// stop sharing the feed meanwhile
+	// the connection can be closed, the node can stop sharing
+	// the feed, or the peer can unsubscribe meanwhile
 
-	if c.n.fs.addConnFeed(c, feed) == false {
+	if c.n.fs.hasConnFeed(c, feed) == false {
+		c.unsubscribe(feed) // notify peer
 		return ErrUnsubscribe
 	}
 
-- 
2.43.0


From 38d18aa0d2e569938375a642f8d1c189ce39b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:46 +0000
Subject: [PATCH 56/69] fix: node: Preview refuses a Root of another feed

---
 node/conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node/conn.go b/node/conn.go
index 222fa3e..f3ddc4c 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -395,6 +395,9 @@ func (c *Conn) Preview(
 	case *msg.Err:
 		return errors.New("error: " + x.Err)
 	case *msg.Root:
+		if x.Feed != feed {
+			return errors.New("Root of another feed received")
+		}
 		if r, err = c.n.c.PreviewRoot(x.Feed, x.Sig, x.Value); err != nil {
 			return
 		}
-- 
2.43.0


From 9f1f9455b63f93c02bff197fc55828e107fa67ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:23 +0000
Subject: [PATCH 57/69] fix: node: simultaneous Subscribe and Unsubscribe of a
 connection keep order of messages

---
 node/conn.go | 77 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 20 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index f3ddc4c..54758b0 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -36,6 +36,8 @@ type Conn struct {
 
 	sendq chan<- []byte // channel from factory.Connection
 
+	smx sync.Mutex // keep order of subscriptions and messages about them
+
 	pmx   sync.Mutex    // lock of the pushs
 	pushs []pushMsg     // messages to send in background
 	pushq chan struct{} // there are messages
@@ -301,11 +303,20 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 	// the peer sends last Root along with the reply, and
 	// the connection should be subscribed at this moment
 
-	var have = c.n.fs.hasConnFeed(c, feed)
+	c.smx.Lock()
+
+	var (
+		have    = c.n.fs.hasConnFeed(c, feed)
+		_       = c.n.fs.addConnFeed(c, feed)
+		seq, rq = c.pushRequest(&msg.Sub{Feed: feed})
+	)
+
+	c.smx.Unlock()
 
-	c.n.fs.addConnFeed(c, feed)
+	if err = c.waitSubscription(seq, rq); err != nil {
+		c.smx.Lock()
+		defer c.smx.Unlock()
 
-	if err = c.requestSubscription(feed); err != nil {
 		if have == false || err != ErrTimeout {
 			c.n.fs.delConnFeed(c, feed)
 		}
@@ -318,6 +329,9 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 	// the connection can be closed, the node can stop sharing
 	// the feed, or the peer can unsubscribe meanwhile
 
+	c.smx.Lock()
+	defer c.smx.Unlock()
+
 	if c.n.fs.hasConnFeed(c, feed) == false {
 		c.unsubscribe(feed) // notify peer
 		return ErrUnsubscribe
@@ -327,11 +341,12 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 	return
 }
 
-func (c *Conn) requestSubscription(feed cipher.PubKey) (err error) {
+// wait for reply of the Sub
+func (c *Conn) waitSubscription(seq uint32, rq <-chan msg.Msg) (err error) {
 
 	var reply msg.Msg
 
-	if reply, err = c.sendRequest(&msg.Sub{Feed: feed}); err != nil {
+	if reply, err = c.waitReply(seq, rq, nil); err != nil {
 		return
 	}
 
@@ -360,6 +375,9 @@ func (c *Conn) unsubscribe(pk cipher.PubKey) {
 
 // Unsubscribe from given feed of remote peer
 func (c *Conn) Unsubscribe(feed cipher.PubKey) {
+	c.smx.Lock()
+	defer c.smx.Unlock()
+
 	c.n.fs.delConnFeed(c, feed)
 	c.unsubscribe(feed) // notify peer
 	return
@@ -659,31 +677,50 @@ func (c *Conn) sendRequestCancel(
 	err error,
 ) {
 
-	c.n.Debugf(MsgSendPin, "[%s] sendRequest %T", c.String(), m)
+	var seq, rq = c.pushRequest(m)
 
-	var (
-		tr *time.Timer
-		tc <-chan time.Time
-	)
+	return c.waitReply(seq, rq, cancel)
+}
 
-	if rt := c.responseTimeout(); rt > 0 {
-		tr = time.NewTimer(rt)
-		tc = tr.C
+// pushRequest puts the request to the queue and returns its
+// seq and channel to receive reply for the waitReply
+func (c *Conn) pushRequest(m msg.Msg) (seq uint32, reply <-chan msg.Msg) {
 
-		defer tr.Stop()
-	}
+	c.n.Debugf(MsgSendPin, "[%s] sendRequest %T", c.String(), m)
 
-	var (
-		rq  = make(chan msg.Msg, 1)
-		seq = c.nextSeq()
-	)
+	var rq = make(chan msg.Msg, 1)
+
+	seq = c.nextSeq()
 
 	c.addRequest(seq, rq)
-	defer c.delRequest(seq)
 
 	// keep order of the Sub and the Unsub
 	c.push(seq, m)
 
+	return seq, rq
+}
+
+// waitReply of a request of the pushRequest
+func (c *Conn) waitReply(
+	seq uint32,
+	rq <-chan msg.Msg,
+	cancel <-chan struct{},
+) (
+	reply msg.Msg,
+	err error,
+) {
+
+	defer c.delRequest(seq)
+
+	var tc <-chan time.Time
+
+	if rt := c.responseTimeout(); rt > 0 {
+		var tr = time.NewTimer(rt)
+		tc = tr.C
+
+		defer tr.Stop()
+	}
+
 	select {
 	case reply = <-rq:
 		return
-- 
2.43.0


From f5ac9275b35d3758e329392dbd568fd4fdf3ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:06 +0000
Subject: [PATCH 58/69] fix: skyobject: a filling that waits for a registry can
 fail

---
 skyobject/fill.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/skyobject/fill.go b/skyobject/fill.go
index ec226e0..7a79f0c 100644
--- a/skyobject/fill.go
+++ b/skyobject/fill.go
@@ -298,8 +298,9 @@ func (f *Filler) Run() (err error) {
 	return f.c.saveFilled(f)
 }
 
-// split the Root to get all its objects
-func (f *Filler) split() (err error) {
+// do performs given task, that can start another tasks, and waits
+// for all of them, for first error, or for the Close
+func (f *Filler) do(task func()) (err error) {
 
 	var done = make(chan struct{})
 
@@ -317,13 +318,7 @@ func (f *Filler) split() (err error) {
 
 	go func() {
 		defer f.await.Done()
-
-		for _, dr := range f.r.Refs {
-			// the closure is data-race protection
-			func(dr registry.Dynamic) {
-				f.Go(func() { dr.Split(f) })
-			}(dr)
-		}
+		task()
 	}()
 
 	go func() {
@@ -343,6 +338,18 @@ func (f *Filler) split() (err error) {
 	return
 }
 
+// split the Root to get all its objects
+func (f *Filler) split() (err error) {
+	return f.do(func() {
+		for _, dr := range f.r.Refs {
+			// the closure is data-race protection
+			func(dr registry.Dynamic) {
+				f.Go(func() { dr.Split(f) })
+			}(dr)
+		}
+	})
+}
+
 // saveFilled Root, all objects of the Root are held by the Filler
 func (c *Container) saveFilled(f *Filler) (err error) {
 
@@ -387,7 +394,13 @@ func (f *Filler) getRegistry() (err error) {
 	}
 
 	// holding
-	if _, _, err = f.Get(cipher.SHA256(f.r.Reg)); err != nil {
+	err = f.do(func() {
+		if _, _, err := f.Get(cipher.SHA256(f.r.Reg)); err != nil {
+			f.Fail(err)
+		}
+	})
+
+	if err != nil {
 		return
 	}
 
-- 
2.43.0


From fa99c12136bb23bf38d0765dc762f283fe96963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:06 +0000
Subject: [PATCH 59/69] fix: node: a connection that subscribes while a Root is
 being filled receives the Root

---
 node/head.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/node/head.go b/node/head.go
index e54f945..939bc1a 100644
--- a/node/head.go
+++ b/node/head.go
@@ -431,7 +431,12 @@ func (f *fillHead) handleFillingResult(err error) {
 	f.node().Debugf(FillPin, "handleFillingResult %s: %v", f.r.r.Short(), err)
 
 	if err == nil {
-		f.node().onRootFilled(f.r.r)     // callback
+		f.node().onRootFilled(f.r.r) // callback
+
+		// connections that subscribed during the filling didn't receive the
+		// Root: neither in the createFiller, nor as the last (full) Root
+		f.nodeHead.n.fs.broadcastRoot(f.r)
+
 		f.favg.Add(time.Now().Sub(f.tp)) // average time
 		f.cs.moveForward(f.r.r.Seq + 1)  // move forward
 	} else {
-- 
2.43.0


From abab3596abe470c8179eab5ece8d3ee5e5a11975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:19 +0000
Subject: [PATCH 60/69] fix: skyobject: a head whose Root objects have a
 negative timestamp can be active

---
 skyobject/index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skyobject/index.go b/skyobject/index.go
index 462c295..9a7cc93 100644
--- a/skyobject/index.go
+++ b/skyobject/index.go
@@ -3,6 +3,7 @@ package skyobject
 import (
 	"bytes"
 	"errors"
+	"math"
 	"sync"
 	"time"
 
@@ -23,6 +24,7 @@ type indexHeads struct {
 func newIndexHeads() (hs *indexHeads) {
 	hs = new(indexHeads)
 	hs.h = make(map[uint64]*data.Root)
+	hs.activet = math.MinInt64 // timestamp of a Root can be zero or negative
 	return
 }
 
@@ -30,7 +32,7 @@ func newIndexHeads() (hs *indexHeads) {
 func (i *indexHeads) setActive() {
 
 	// reset first
-	i.activet = 0
+	i.activet = math.MinInt64
 	i.activen = 0
 
 	for nonce, dr := range i.h {
-- 
2.43.0


From cafef6596ca62b2849e637aaf7a381c50c2dd1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:07 +0000
Subject: [PATCH 61/69] fix: cxds: statistics of a store changed although the
 transaction failed

---
 data/cxds/drive.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/data/cxds/drive.go b/data/cxds/drive.go
index a548771..b385882 100644
--- a/data/cxds/drive.go
+++ b/data/cxds/drive.go
@@ -272,7 +272,10 @@ func (d *driveCXDS) incr(
 	err = o.Put(key[:], repl)
 
 	if rc != nrc {
-		d.av(rc, nrc, len(val))
+		var vol = len(val)
+
+		// the transaction can fail
+		o.Tx().OnCommit(func() { d.av(rc, nrc, vol) })
 	}
 
 	return
@@ -358,7 +361,7 @@ func (d *driveCXDS) Set(
 		if len(got) == 0 {
 
 			// created
-			d.addAll(len(val))
+			tx.OnCommit(func() { d.addAll(len(val)) })
 
 			rc, err = d.incr(o, key[:], val, 0, inc)
 			return
@@ -442,11 +445,16 @@ func (d *driveCXDS) Del(
 			return // not found
 		}
 
+		var (
+			rc  = getRefsCount(got)
+			vol = len(got) - 4
+		)
+
 		if err = o.Delete(key[:]); err != nil {
 			return
 		}
 
-		d.del(getRefsCount(got), len(got)-4)
+		tx.OnCommit(func() { d.del(rc, vol) })
 		return // nil
 	})
 
-- 
2.43.0


From 198433d41d5a031dc5621bfbf42ed92515b1895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:54 +0000
Subject: [PATCH 62/69] fix: node: a closed node stayed connected to discovery
 servers

---
 node/node.go       |  6 ++--
 node/transports.go | 70 +++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/node/node.go b/node/node.go
index a44fd35..1fae799 100644
--- a/node/node.go
+++ b/node/node.go
@@ -328,6 +328,7 @@ func (n *Node) createTCP() {
 	}
 
 	n.tcp = newTCP(n)
+	n.tcp.isClosed = n.closed
 
 }
 
@@ -339,6 +340,7 @@ func (n *Node) createUDP() {
 	}
 
 	n.udp = newUDP(n)
+	n.udp.isClosed = n.closed
 
 }
 
@@ -762,10 +764,10 @@ func (n *Node) Close() (err error) {
 
 		// Shutdown all transports.
 		if tcp != nil {
-			tcp.Close()
+			tcp.shutdown()
 		}
 		if udp != nil {
-			udp.Close()
+			udp.shutdown()
 		}
 		if rpc != nil {
 			rpc.Close()
diff --git a/node/transports.go b/node/transports.go
index 1efff17..980f566 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -31,6 +31,7 @@ type TCP struct {
 
 	address     string // listening address
 	isListening bool
+	isClosed    bool // the Node is closed
 
 	cs map[string]*Conn // address -> conn
 }
@@ -68,6 +69,10 @@ func (t *TCP) Listen(address string) (err error) {
 	t.mx.Lock()
 	defer t.mx.Unlock()
 
+	if t.isClosed == true {
+		return ErrClosed
+	}
+
 	if t.isListening == true {
 		return ErrAlreadyListen
 	}
@@ -182,11 +187,31 @@ func (t *TCP) Discovery() (d *discovery.MessengerFactory) {
 	return t.d
 }
 
-// create or get related *discovery.MessengerFactory instance
+// close the transport and connections to discovery
+// servers; there can't be new ones after that
+func (t *TCP) shutdown() {
+	t.mx.Lock()
+	t.isClosed = true
+	var d = t.d
+	t.mx.Unlock()
+
+	if d != nil {
+		d.Close()
+	}
+
+	t.Close()
+}
+
+// create or get related *discovery.MessengerFactory instance,
+// the reply is nil if the Node is closed
 func (t *TCP) discovery() (d *discovery.MessengerFactory) {
 	t.mx.Lock()
 	defer t.mx.Unlock()
 
+	if t.isClosed == true {
+		return
+	}
+
 	if t.d == nil {
 
 		var d *discovery.MessengerFactory
@@ -212,7 +237,13 @@ func (t *TCP) discovery() (d *discovery.MessengerFactory) {
 // If Discovery is nil, then it will be created
 func (t *TCP) ConnectToDiscoveryServer(address string) (err error) {
 
-	err = t.discovery().ConnectWithConfig(address, &discovery.ConnConfig{
+	var d = t.discovery()
+
+	if d == nil {
+		return ErrClosed
+	}
+
+	err = d.ConnectWithConfig(address, &discovery.ConnConfig{
 		SeedConfig: t.n.id,
 
 		Reconnect:     true,
@@ -363,6 +394,7 @@ type UDP struct {
 
 	address     string
 	isListening bool
+	isClosed    bool // the Node is closed
 
 	cs map[string]*Conn // connections
 }
@@ -407,6 +439,10 @@ func (u *UDP) Listen(address string) (err error) {
 	u.mx.Lock()
 	defer u.mx.Unlock()
 
+	if u.isClosed == true {
+		return ErrClosed
+	}
+
 	if u.isListening == true {
 		return ErrAlreadyListen
 	}
@@ -521,11 +557,31 @@ func (u *UDP) Discovery() (d *discovery.MessengerFactory) {
 	return u.d
 }
 
-// create or get related *discovery.MessengerFactory instance
+// close the transport and connections to discovery
+// servers; there can't be new ones after that
+func (u *UDP) shutdown() {
+	u.mx.Lock()
+	u.isClosed = true
+	var d = u.d
+	u.mx.Unlock()
+
+	if d != nil {
+		d.Close()
+	}
+
+	u.Close()
+}
+
+// create or get related *discovery.MessengerFactory instance,
+// the reply is nil if the Node is closed
 func (u *UDP) discovery() (d *discovery.MessengerFactory) {
 	u.mx.Lock()
 	defer u.mx.Unlock()
 
+	if u.isClosed == true {
+		return
+	}
+
 	if u.d == nil {
 
 		var d *discovery.MessengerFactory
@@ -551,7 +607,13 @@ func (u *UDP) discovery() (d *discovery.MessengerFactory) {
 // If Discovery is nil, then it will be created
 func (u *UDP) ConnectToDiscoveryServer(address string) (err error) {
 
-	err = u.discovery().ConnectWithConfig(address, &discovery.ConnConfig{
+	var d = u.discovery()
+
+	if d == nil {
+		return ErrClosed
+	}
+
+	err = d.ConnectWithConfig(address, &discovery.ConnConfig{
 		SeedConfig: u.n.id,
 
 		Reconnect:     true,
-- 
2.43.0


From a7261c46a5324e68c77747b83c02fa3b361d0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 63/69] fix: node: discovery servers could be told an outdated
 list of feeds, and not told the address

---
 node/transports.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/node/transports.go b/node/transports.go
index 980f566..7434905 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -66,6 +66,16 @@ func (t *TCP) getConn(address string) (c *Conn) {
 // only once
 func (t *TCP) Listen(address string) (err error) {
 
+	if err = t.listen(address); err != nil {
+		return
+	}
+
+	t.n.updateServiceDiscovery() // with the address
+	return
+}
+
+func (t *TCP) listen(address string) (err error) {
+
 	t.mx.Lock()
 	defer t.mx.Unlock()
 
@@ -361,7 +371,7 @@ func (t *TCP) updateServiceDiscovery(feeds []cipher.PubKey) {
 func (t *TCP) onDiscoveryConnected(c *discovery.Connection) {
 
 	t.n.Debugln(DiscoveryPin, "(UDP) OnDiscoveryConencted")
-	t.updateServiceDiscovery(t.n.Feeds())
+	t.n.updateServiceDiscovery()
 
 }
 
@@ -436,6 +446,16 @@ func (u *UDP) getConn(address string) (c *Conn) {
 // Listen on given address. It's possible to listen
 // only once
 func (u *UDP) Listen(address string) (err error) {
+
+	if err = u.listen(address); err != nil {
+		return
+	}
+
+	u.n.updateServiceDiscovery() // with the address
+	return
+}
+
+func (u *UDP) listen(address string) (err error) {
 	u.mx.Lock()
 	defer u.mx.Unlock()
 
@@ -731,7 +751,7 @@ func (u *UDP) updateServiceDiscovery(feeds []cipher.PubKey) {
 func (u *UDP) onDiscoveryConnected(c *discovery.Connection) {
 
 	u.n.Debugln(DiscoveryPin, "(UDP) OnDiscoveryConencted")
-	u.updateServiceDiscovery(u.n.Feeds())
+	u.n.updateServiceDiscovery()
 
 }
 
-- 
2.43.0


From ad8f70ea6963f204e4a8ab8772c3d2fa38a9555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:47 +0000
Subject: [PATCH 64/69] fix: node: an answer of a discovery server brought back
 a feed that is not shared any more

---
 node/conn.go       | 10 ++++++++++
 node/transports.go | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/node/conn.go b/node/conn.go
index 54758b0..d23af02 100644
--- a/node/conn.go
+++ b/node/conn.go
@@ -300,6 +300,16 @@ func (c *Conn) Subscribe(feed cipher.PubKey) (err error) {
 		return
 	}
 
+	return c.subscribe(feed)
+}
+
+// subscribe to a feed the Node is sharing
+func (c *Conn) subscribe(feed cipher.PubKey) (err error) {
+
+	if feed == (cipher.PubKey{}) {
+		return ErrBlankFeed
+	}
+
 	// the peer sends last Root along with the reply, and
 	// the connection should be subscribed at this moment
 
diff --git a/node/transports.go b/node/transports.go
index 7434905..7020d30 100644
--- a/node/transports.go
+++ b/node/transports.go
@@ -286,6 +286,11 @@ func (t *TCP) findServiceNodes(resp *discovery.QueryResp) {
 				continue // never happens
 			}
 
+			// the Node can stop sharing the feed after the query
+			if t.n.IsSharing(si.PubKey) == false {
+				break
+			}
+
 			var (
 				c, yep = t.n.hasPeer(ni.PubKey)
 				err    error
@@ -301,7 +306,7 @@ func (t *TCP) findServiceNodes(resp *discovery.QueryResp) {
 			}
 
 			// block
-			if err = c.Subscribe(si.PubKey); err != nil {
+			if err = c.subscribe(si.PubKey); err != nil {
 				t.n.Debugf(DiscoveryPin, "[%s] can't Subscribe to %s: %v",
 					c.Address(),
 					si.PubKey.Hex()[:7],
@@ -666,6 +671,11 @@ func (u *UDP) findServiceNodes(resp *discovery.QueryResp) {
 				continue // never happens
 			}
 
+			// the Node can stop sharing the feed after the query
+			if u.n.IsSharing(si.PubKey) == false {
+				break
+			}
+
 			var (
 				c, yep = u.n.hasPeer(ni.PubKey)
 				err    error
@@ -681,7 +691,7 @@ func (u *UDP) findServiceNodes(resp *discovery.QueryResp) {
 			}
 
 			// block
-			if err = c.Subscribe(si.PubKey); err != nil {
+			if err = c.subscribe(si.PubKey); err != nil {
 				u.n.Debugln(DiscoveryPin, "[%s] can't Subscribe to %s: %v",
 					c.Address(),
 					si.PubKey.Hex()[:7],
-- 
2.43.0


From 3eb74d11c39a23f5989f806a02814ecfdbc76792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:03 +0000
Subject: [PATCH 65/69] fix: node: Config RPC method broke the RPC connection

---
 data/data.go | 13 +++++++++++++
 node/rpc.go  |  8 +++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 8be4ef1..e6b776b 100644
--- a/data/data.go
+++ b/data/data.go
@@ -22,6 +22,19 @@ type DB struct {
 	idxdb IdxDB
 }
 
+// GobEncode implements gob.GobEncoder interface. The DB can't
+// be encoded, but the method allows to encode structures (like
+// configs) in which the DB is nil
+func (d *DB) GobEncode() (_ []byte, err error) {
+	return nil, errors.New("DB can't be encoded")
+}
+
+// GobDecode implements gob.GobDecoder interface.
+// See also GobEncode
+func (d *DB) GobDecode([]byte) (err error) {
+	return errors.New("DB can't be decoded")
+}
+
 // IdxDB of the DB
 func (d *DB) IdxDB() IdxDB {
 	return d.idxdb
diff --git a/node/rpc.go b/node/rpc.go
index 328916f..b3b7f12 100644
--- a/node/rpc.go
+++ b/node/rpc.go
@@ -142,8 +142,14 @@ func (r *RPC) ConnectionsOfFeed(feed cipher.PubKey, cs *[]string) (_ error) {
 // Config is RPC method
 func (r *RPC) Config(_ struct{}, config *Config) (err error) {
 	*config = *r.n.config // copy
+	// it's impossible to transmit the output and the DB
+	config.Logger.Output = nil
+	if config.Config != nil {
+		var cc = *config.Config // copy
+		cc.DB = nil
+		config.Config = &cc
+	}
 	return
-
 }
 
 // Stat is RPC method
-- 
2.43.0


From 1297d13b2d12fdd3e96d98ed0377c398e4ade7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:07 +0000
Subject: [PATCH 66/69] fix: cxocli: the subscribe commands offered by
 completion did not exist

---
 cmd/cxocli/cxocli.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmd/cxocli/cxocli.go b/cmd/cxocli/cxocli.go
index be1383f..4da291b 100644
--- a/cmd/cxocli/cxocli.go
+++ b/cmd/cxocli/cxocli.go
@@ -49,7 +49,7 @@ var (
 		"tcp connect ",
 		"tcp disconnect ",
 
-		"tcp subsribe ",
+		"tcp subscribe ",
 		"tcp unsubscribe ",
 
 		"tcp address ",
@@ -267,13 +267,15 @@ func (c *client) mapping() map[string]func(in []string) (err error) {
 
 		"tcp connect":     c.tcpConnect,
 		"tcp disconnect":  c.tcpDisconnet,
-		"tcp subsribe":    c.tcpSubscribe,
+		"tcp subscribe":   c.tcpSubscribe,
+		"tcp subsribe":    c.tcpSubscribe, // old spelling
 		"tcp unsubscribe": c.tcpUnsubscribe,
 		"tcp address":     c.tcpAddress,
 
 		"udp connect":     c.udpConnect,
 		"udp disconnect":  c.udpDisconnet,
-		"udp subsribe":    c.udpSubscribe,
+		"udp subscribe":   c.udpSubscribe,
+		"udp subsribe":    c.udpSubscribe, // old spelling
 		"udp unsubscribe": c.udpUnsubscribe,
 		"udp address":     c.udpAddress,
 
@@ -814,7 +816,7 @@ func (c *client) help(in []string) (err error) {
     connect to tcp address
   tcp disconnect <connection address>
     close tcp connection
-  tcp subsribe <connection address> <public key>
+  tcp subscribe <connection address> <public key>
     subscribe to feed of peer
   tcp unsubscribe <connection address> <public key>
     unsubscribe from feed of peer
@@ -825,7 +827,7 @@ func (c *client) help(in []string) (err error) {
     connect to udp address
   udp disconnect <connection address>
     close udp connection
-  udp subsribe <connection address> <public key>
+  udp subscribe <connection address> <public key>
     subscribe to feed of peer
   udp unsubscribe <connection address> <public key>
     unsubscribe from feed of peer
-- 
2.43.0


From 8b8e9266d700903906423582a022375d6a2864a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:56 +0000
Subject: [PATCH 67/69] fix: skyobject, node: a start that failed could panic,
 or leave the database open

---
 node/node.go           | 7 ++++++-
 skyobject/container.go | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/node/node.go b/node/node.go
index 1fae799..fd3116a 100644
--- a/node/node.go
+++ b/node/node.go
@@ -107,7 +107,12 @@ func NewNode(conf *Config) (n *Node, err error) {
 		return
 	}
 
-	return NewNodeContainer(conf, c)
+	// if there is an error, then the Container is closed
+	// with the Node, or here, if there is no Node
+	if n, err = NewNodeContainer(conf, c); err != nil && n == nil {
+		c.Close() // ignore error
+	}
+	return
 }
 
 // NewNodeContainer use provided Container.
diff --git a/skyobject/container.go b/skyobject/container.go
index 69684d1..83ecb9d 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -70,8 +70,10 @@ func NewContainer(conf *Config) (c *Container, err error) {
 
 	defer func() {
 		if err != nil {
-			c.db.Close()         // ignore error
-			c.Cache.stat.Close() // release resources
+			c.db.Close() // ignore error
+			if c.Cache.stat != nil {
+				c.Cache.stat.Close() // release resources
+			}
 		}
 	}()
 
-- 
2.43.0


From 739ac437f7dc18d3d786e5b3f5ebca6d8b6eb8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:56 +0000
Subject: [PATCH 68/69] fix: skyobject: defaults of CacheRegistries and
 MaxFillingParallel were not set by NewConfig

---
 skyobject/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skyobject/config.go b/skyobject/config.go
index 80348b4..4fd92ef 100644
--- a/skyobject/config.go
+++ b/skyobject/config.go
@@ -216,11 +216,15 @@ func NewConfig() (conf *Config) {
 	conf.CacheMaxAmount = CacheMaxAmount
 	conf.CacheMaxVolume = CacheMaxVolume
 	conf.CachePolicy = LRU
+	conf.CacheRegistries = CacheRegistries
 	conf.CacheCleaning = CacheCleaning
 	conf.CacheMaxItemSize = CacheMaxItemSize
 
 	conf.MaxObjectSize = MaxObjectSize
 
+	// filling
+	conf.MaxFillingParallel = MaxFillingParallel
+
 	// data dir
 	conf.DataDir = DataDir()
 
-- 
2.43.0


From 5405a7ef7a73759fd23eb1c29a8d764c71382894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:13 +0000
Subject: [PATCH 69/69] fix: skyobject: a closed container left the goroutine
 of the index statistic running

---
 skyobject/container.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skyobject/container.go b/skyobject/container.go
index 83ecb9d..c7a97a0 100644
--- a/skyobject/container.go
+++ b/skyobject/container.go
@@ -74,6 +74,9 @@ func NewContainer(conf *Config) (c *Container, err error) {
 			if c.Cache.stat != nil {
 				c.Cache.stat.Close() // release resources
 			}
+			if c.Index.stat != nil {
+				c.Index.stat.Close() // release resources
+			}
 		}
 	}()
 
@@ -420,6 +423,8 @@ func (c *Container) RootByHash(
 // with user-provided DB.
 func (c *Container) Close() (err error) {
 
+	c.Index.Close() // never returns an error
+
 	// the Cache.Close closes CXDS
 	if err = c.Cache.Close(); err == nil {
 		err = c.db.Close()
-- 
2.43.0

