From 56f952582c3fdb6e4a8800c128a36e60e911a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 01/16] fix: DECIMAL text of zero integer parts and of a
 leading 9-digit group

---
 replication/binlog_event_rbr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 4bc3da3..5bc1970 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -677,22 +677,22 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 			if flag { //当txt有正整数写入
 				fmt.Fprintf(txt, "%09d", val)
 			} else if val > 0 { //当txt无正整数且val>0时 才能写入
-				fmt.Fprintf(txt, "%9d", val)
+				fmt.Fprintf(txt, "%d", val)
 				flag = true
 			}
 			pos += 4
 		}
 
+		//当txt无正整数，此时需要加上0，表示生成的数整数部分没有值。
+		if !flag {
+			txt.WriteByte('0')
+		}
+
 		// now see if we have a fraction
 		if scale == 0 {
 			return txt.Bytes(), l, nil
 		}
 
-		//当txt无正整数，此时需要在小数点前加上0，表示生成的数整数部分没有值。
-		if !flag {
-			txt.WriteByte('0')
-		}
-
 		txt.WriteByte('.')
 
 		// now the full fractional digits
-- 
2.43.0


From ef72458fe6cfe446d6da3f99285dbbd4642c023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 02/16] fix: keep the sign of negative pre-5.6.4 TIME values

---
 replication/binlog_event_rbr.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 5bc1970..af9ce1f 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -405,25 +405,24 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 		return []byte(fmt.Sprintf("%04d-%02d-%02d", year, month, day)), 3, nil
 
 	case TypeTime:
-		var hour, minute, second int32
+		var val int32
+		sign := ""
 		if data[pos+2]&128 > 0 {
 			// Negative number, have to extend the sign.
-			val := int32(uint32(data[pos]) +
+			val = -int32(uint32(data[pos]) +
 				uint32(data[pos+1])<<8 +
 				uint32(data[pos+2])<<16 +
 				uint32(255)<<24)
-			hour = val / 10000
-			minute = -((val % 10000) / 100)
-			second = -(val % 100)
+			sign = "-"
 		} else {
-			val := int32(data[pos]) +
+			val = int32(data[pos]) +
 				int32(data[pos+1])<<8 +
 				int32(data[pos+2])<<16
-			hour = val / 10000
-			minute = (val % 10000) / 100
-			second = val % 100
 		}
-		return []byte(fmt.Sprintf("%02d:%02d:%02d", hour, minute, second)), 3, nil
+		hour := val / 10000
+		minute := (val % 10000) / 100
+		second := val % 100
+		return []byte(fmt.Sprintf("%v%02d:%02d:%02d", sign, hour, minute, second)), 3, nil
 
 	case TypeDateTime:
 		val := binary.LittleEndian.Uint64(data[pos : pos+8])
-- 
2.43.0


From 3575fda0564811855d6cd0659dfd54dc6fa6887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 03/16] fix: decode negative TIME values inside JSON documents

---
 replication/binlog_event_json.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 91d5ad4..6e8f5e0 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -381,6 +381,11 @@ func printJSONDate(data []byte, toplevel bool, result *bytes.Buffer) error {
 
 func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 	raw := binary.LittleEndian.Uint64(data[:8])
+	negative := raw&(1<<63) != 0
+	if negative {
+		// Negative times are the two's complement of the packed value.
+		raw = -raw
+	}
 	value := raw >> 24
 	hour := (value >> 12) & 0x03ff // 10 bits starting at 12th
 	minute := (value >> 6) & 0x3f  // 6 bits starting at 6th
@@ -391,7 +396,7 @@ func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 		result.WriteString("CAST(")
 	}
 	result.WriteString("CAST('")
-	if value&0x8000000000 != 0 {
+	if negative {
 		result.WriteByte('-')
 	}
 	fmt.Fprintf(result, "%02d:%02d:%02d", hour, minute, second)
-- 
2.43.0


From af790e54189d310fbe144ce8e800e67d8a9d462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 04/16] fix: do not hand out the shared zero timestamp constant

---
 replication/binlog_event_rbr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index af9ce1f..4046c33 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -314,7 +314,8 @@ func cellLength(data []byte, pos int, typ byte, metadata uint16) (int, error) {
 // and return the Buffer.
 func printTimestamp(v uint32) *bytes.Buffer {
 	if v == 0 {
-		return bytes.NewBuffer(ZeroTimestamp)
+		// Copy it: the caller hands the bytes out.
+		return bytes.NewBufferString(string(ZeroTimestamp))
 	}
 
 	t := time.Unix(int64(v), 0).Local()
-- 
2.43.0


From 7a9fac8372a799f4a9c7f6ddc13ef398c8c2bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 05/16] fix: MariadbGTIDSet.AddGTID must not alter the set it
 is called on

---
 replication/mariadb_gtid.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 892abcd..37d0932 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -189,12 +189,18 @@ func (gtidSet MariadbGTIDSet) AddGTID(other GTID) GTIDSet {
 	for i, gtid := range gtidSet {
 		if mdbOther.Domain == gtid.Domain {
 			if mdbOther.Sequence > gtid.Sequence {
-				gtidSet[i] = mdbOther
+				newSet := make(MariadbGTIDSet, len(gtidSet))
+				copy(newSet, gtidSet)
+				newSet[i] = mdbOther
+				return newSet
 			}
 			return gtidSet
 		}
 	}
-	return append(gtidSet, mdbOther)
+	// Copy it: appending in place may write to an array shared with other sets.
+	newSet := make(MariadbGTIDSet, len(gtidSet), len(gtidSet)+1)
+	copy(newSet, gtidSet)
+	return append(newSet, mdbOther)
 }
 
 func init() {
-- 
2.43.0


From a55cc1376dbd15eb41a5a1a7b49bbf9a884780db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 06/16] fix: do not move the resume position past a transaction
 the handler refused

---
 streamer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streamer.go b/streamer.go
index 8aaecd0..1a46317 100755
--- a/streamer.go
+++ b/streamer.go
@@ -121,13 +121,14 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 	}
 
 	commit := func(ev replication.BinlogEvent) error {
-		now := pos
-		pos.Offset = ev.NextPosition()
 		next := pos
-		tran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)
+		next.Offset = ev.NextPosition()
+		tran := newTransaction(pos, next, int64(ev.Timestamp()), tranEvents)
 		if err = s.sendTransaction(tran); err != nil {
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
+		// Only an accepted transaction moves the resume position.
+		pos = next
 		tranEvents = nil
 		autocommit = true
 		return nil
-- 
2.43.0


From 4e29deb939866a2d75bc0e502d8807f11974400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 07/16] fix: keep the resume position when the table info does
 not match the table map

---
 streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index 1a46317..ecdf477 100755
--- a/streamer.go
+++ b/streamer.go
@@ -279,7 +279,7 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			}
 
 			if len(info.Columns()) != tm.CanBeNull.Count() {
-				return Position{},
+				return pos,
 					newError(fmt.Errorf("parseEvents the length of column in tableMap(%d) "+
 						"did not equal to the length of column in table info(%d)", tm.CanBeNull.Count(),
 						len(info.Columns())))
-- 
2.43.0


From 8cd3ceb25e225258dc432854d53957da886d6833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 08/16] fix: reject MariaDB GTID sets with several positions
 for one domain

---
 replication/mariadb_gtid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 37d0932..c938a56 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -67,6 +67,11 @@ func parseMariadbGTIDSet(s string) (GTIDSet, error) {
 			return nil, err
 		}
 		gtidSet[i] = gtid.(MariadbGTID)
+		for _, previous := range gtidSet[:i] {
+			if previous.Domain == gtidSet[i].Domain {
+				return nil, fmt.Errorf("invalid MariaDB GTID set (%v): duplicate Domain ID %v", s, previous.Domain)
+			}
+		}
 	}
 	return gtidSet, nil
 }
-- 
2.43.0


From dce0a21711401bec39707276628de0677473ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 09/16] fix: look the table up again when a table id is
 announced for another table or shape

---
 streamer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/streamer.go b/streamer.go
index ecdf477..3b73d01 100755
--- a/streamer.go
+++ b/streamer.go
@@ -262,8 +262,14 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			_log.Debugf("parseEvents pos: %+v binlog event is a table map event, tableID: %v table map: %+v",
 				pos, tableID, *tm)
 
-			if _, ok = tablesMaps[tableID]; ok {
-				tablesMaps[tableID].tableMap = tm
+			name := NewMysqlTableName(tm.Database, tm.Name)
+
+			// The id may have been given to another table (ids restart with the
+			// master) or the table may have changed its shape.
+			if tc, ok := tablesMaps[tableID]; ok &&
+				name == NewMysqlTableName(tc.tableMap.Database, tc.tableMap.Name) &&
+				tm.CanBeNull.Count() == tc.tableMap.CanBeNull.Count() {
+				tc.tableMap = tm
 				continue
 			}
 
@@ -271,8 +277,6 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 				tableMap: tm,
 			}
 
-			name := NewMysqlTableName(tm.Database, tm.Name)
-
 			var info MysqlTable
 			if info, err = s.tableMapper.MysqlTable(name); err != nil {
 				return pos, newError(err).msgf("parseEvents MysqlTable fail. table: %v", err)
-- 
2.43.0


From 942270af14ae54d87e364883de5ce147608f4ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 10/16] fix: Error must not block without a dump and must keep
 reporting the reason

---
 streamer.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/streamer.go b/streamer.go
index 3b73d01..9fe0f3e 100755
--- a/streamer.go
+++ b/streamer.go
@@ -23,6 +23,7 @@ type Streamer struct {
 	tableMapper     MysqlTableMapper
 	sendTransaction SendTransactionFunc
 	errChan         <-chan *Error
+	streamErr       error
 	ctx             context.Context
 }
 
@@ -61,6 +62,8 @@ func (s *Streamer) binlogPosition() Position {
 //Stream 注册一个处理事务信息函数到Stream中
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
 	s.ctx = ctx
+	s.errChan = nil
+	s.streamErr = nil
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
 		return mysql.NewDumpConn(s.dsn, ctx)
 	})
@@ -86,21 +89,22 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 
 //Error 每次使用Stream后需要检测Error
 func (s *Streamer) Error() error {
-	select {
-	case err, ok := <-s.errChan:
-		if ok {
-			switch {
-			case s.ctx.Err() == context.Canceled:
-				return nil
-			case err.Original() == context.Canceled,
-				err.Original() == errStreamEOF:
-				return nil
-			default:
-				return err
-			}
+	if s.errChan == nil {
+		// There was no dump: Stream has returned the reason.
+		return s.streamErr
+	}
+	if err, ok := <-s.errChan; ok {
+		switch {
+		case s.ctx.Err() == context.Canceled:
+			s.streamErr = nil
+		case err.Original() == context.Canceled,
+			err.Original() == errStreamEOF:
+			s.streamErr = nil
+		default:
+			s.streamErr = err
 		}
-		return nil
 	}
+	return s.streamErr
 }
 
 func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.BinlogEvent) (Position, *Error) {
-- 
2.43.0


From 0974cc38998a30aee43555e985d28beb0d14b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 11/16] fix: stop the reader goroutine when Stream returns with
 an error

---
 streamer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer.go b/streamer.go
index 9fe0f3e..fc0b9eb 100755
--- a/streamer.go
+++ b/streamer.go
@@ -64,6 +64,9 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	s.ctx = ctx
 	s.errChan = nil
 	s.streamErr = nil
+	// The reader must not outlive Stream, whatever ends it.
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
 		return mysql.NewDumpConn(s.dsn, ctx)
 	})
-- 
2.43.0


From b5f84f742350879806c8f7c53450447f3b95c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 12/16] fix: a cancellation after the stream has ended must not
 hide why it ended

---
 error.go            | 2 ++
 slave_connection.go | 2 ++
 streamer.go         | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 41ced3e..67e68ac 100644
--- a/error.go
+++ b/error.go
@@ -15,6 +15,8 @@ var (
 type Error struct {
 	ori error
 	msg string
+
+	beforeCancel bool //发生时ctx还没有被取消
 }
 
 func newError(ori error) *Error {
diff --git a/slave_connection.go b/slave_connection.go
index 4f5afb7..18d7a6e 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -87,6 +87,8 @@ func (s *slaveConnection) startDumpFromBinlogPosition(ctx context.Context, serve
 			ev, err := s.readBinlogEvent()
 			if err != nil {
 				_log.Errorf("startDumpFromBinlogPosition readBinlogEvent fail. reason: %v", err)
+				// A later cancellation must not hide the reason.
+				err.beforeCancel = ctx.Err() == nil
 				s.errChan <- err
 				close(s.errChan)
 				return
diff --git a/streamer.go b/streamer.go
index fc0b9eb..3dc2a4b 100755
--- a/streamer.go
+++ b/streamer.go
@@ -98,7 +98,7 @@ func (s *Streamer) Error() error {
 	}
 	if err, ok := <-s.errChan; ok {
 		switch {
-		case s.ctx.Err() == context.Canceled:
+		case s.ctx.Err() == context.Canceled && !err.beforeCancel:
 			s.streamErr = nil
 		case err.Original() == context.Canceled,
 			err.Original() == errStreamEOF:
-- 
2.43.0


From 53d83caaa35336c13c18013e3e99eb15a4c7fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 13/16] fix: recognise the first keyword of a statement before
 any white space

---
 mysql_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_types.go b/mysql_types.go
index 99be901..7c0c697 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -78,7 +78,7 @@ func (s StatementType) IsDDL() bool {
 
 //GetStatementCategory we can get statement type from a SQL
 func GetStatementCategory(sql string) StatementType {
-	if i := strings.IndexByte(sql, byte(' ')); i >= 0 {
+	if i := strings.IndexAny(sql, " \t\r\n"); i >= 0 {
 		sql = sql[:i]
 	}
 	if s, ok := statementPrefixes[strings.ToLower(sql)]; ok {
-- 
2.43.0


From 4750a9683ae082c1cfec97f87b59284004157c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:37 +0000
Subject: [PATCH 14/16] fix: let the context close the connection so that Close
 never races with the reader

---
 slave_connection.go | 13 +++++++++++++
 streamer.go         | 11 ++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/slave_connection.go b/slave_connection.go
index 18d7a6e..bde8645 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -16,6 +16,19 @@ type dumpConn interface {
 	HandleErrorPacket([]byte) error
 }
 
+// watchedConn is a DumpConn that is closed when the context ends.
+type watchedConn struct {
+	*mysql.DumpConn
+	ctx context.Context
+}
+
+// Exec leaves the driver's watcher on the context in place: the result is not
+// closed, so that the watcher also unblocks later reads.
+func (c *watchedConn) Exec(query string) error {
+	_, err := c.DumpConn.QueryContext(c.ctx, query, nil)
+	return err
+}
+
 // slaveConnection 从github.com/youtube/vitess/go/vt/mysqlctl/slave_connection.go的基础上移植过来
 // slaveConn通过StartDumpFromBinlogPosition和mysql库进行binlog dump，将自己伪装成slave，
 // 先执行SET @master_binlog_checksum=@@global.binlog_checksum，然后发送 binlog dump包，
diff --git a/streamer.go b/streamer.go
index 3dc2a4b..bc3baf8 100755
--- a/streamer.go
+++ b/streamer.go
@@ -68,7 +68,11 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	ctx, cancel := context.WithCancel(ctx)
 	defer cancel()
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
-		return mysql.NewDumpConn(s.dsn, ctx)
+		dc, e := mysql.NewDumpConn(s.dsn, ctx)
+		if e != nil {
+			return nil, e
+		}
+		return &watchedConn{DumpConn: dc, ctx: ctx}, nil
 	})
 	if err != nil {
 		return err.msgf("newMysqlConn fail.")
@@ -84,6 +88,11 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	s.errChan = conn.errChan
 	pos, err = s.parseEvents(ctx, events)
 	s.SetBinlogPosition(pos)
+	// The connection must not be closed under the reader: cancelling ends the
+	// reader, and the reader closes events.
+	cancel()
+	for range events {
+	}
 	if err != nil {
 		return err.msgf("parseEvents fail in pos: %+v", err)
 	}
-- 
2.43.0


From e1f4d0e5cf6a3f469532c9f99191ce7e94c474a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:53 +0000
Subject: [PATCH 15/16] fix: concurrent calls of Error must not race

---
 streamer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamer.go b/streamer.go
index bc3baf8..531149b 100755
--- a/streamer.go
+++ b/streamer.go
@@ -3,6 +3,7 @@ package gobinlog
 import (
 	"context"
 	"fmt"
+	"sync"
 	"sync/atomic"
 
 	"github.com/Breeze0806/gobinlog/replication"
@@ -23,6 +24,7 @@ type Streamer struct {
 	tableMapper     MysqlTableMapper
 	sendTransaction SendTransactionFunc
 	errChan         <-chan *Error
+	errMu           sync.Mutex
 	streamErr       error
 	ctx             context.Context
 }
@@ -101,6 +103,8 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 
 //Error 每次使用Stream后需要检测Error
 func (s *Streamer) Error() error {
+	s.errMu.Lock()
+	defer s.errMu.Unlock()
 	if s.errChan == nil {
 		// There was no dump: Stream has returned the reason.
 		return s.streamErr
-- 
2.43.0


From ce99e16acbb0c11f8b0b2c53e6fb6b964f40872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 16/16] fix: escape the strings and keys of a JSON column's
 text

---
 replication/binlog_event_json.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 6e8f5e0..8ed861d 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -113,7 +113,7 @@ func printJSONObject(data []byte, large bool, result *bytes.Buffer) error {
 			result.WriteByte(',')
 		}
 		result.WriteByte('\'')
-		result.Write(keys[i])
+		printJSONEscaped(keys[i], false /* toplevel */, result)
 		result.WriteByte('\'')
 		result.WriteByte(',')
 
@@ -323,8 +323,7 @@ func printJSONString(data []byte, toplevel bool, result *bytes.Buffer) {
 	// So the value should be: '"value"'.
 	if toplevel {
 		result.WriteString("'\"")
-		// FIXME(alainjobart): escape reserved characters
-		result.Write(data[pos : pos+size])
+		printJSONEscaped(data[pos:pos+size], toplevel, result)
 		result.WriteString("\"'")
 		return
 	}
@@ -332,10 +331,32 @@ func printJSONString(data []byte, toplevel bool, result *bytes.Buffer) {
 	// Inside a JSON_ARRAY() or JSON_OBJECT method, we just print the string
 	// as SQL string.
 	result.WriteByte('\'')
-	result.Write(data[pos : pos+size])
+	printJSONEscaped(data[pos:pos+size], toplevel, result)
 	result.WriteByte('\'')
 }
 
+// printJSONEscaped prints the bytes of a string as they are written within an
+// SQL string. A toplevel string is a JSON string within that SQL string, so it
+// is escaped as JSON first.
+func printJSONEscaped(data []byte, toplevel bool, result *bytes.Buffer) {
+	for _, c := range data {
+		switch {
+		case c == '\'':
+			result.WriteString(`\'`)
+		case c == '\\' && toplevel:
+			result.WriteString(`\\\\`)
+		case c == '\\':
+			result.WriteString(`\\`)
+		case c == '"' && toplevel:
+			result.WriteString(`\\"`)
+		case c < 0x20 && toplevel:
+			fmt.Fprintf(result, `\\u%04x`, c)
+		default:
+			result.WriteByte(c)
+		}
+	}
+}
+
 func printJSONOpaque(data []byte, toplevel bool, result *bytes.Buffer) error {
 	typ := data[0]
 	size, pos := readVariableLength(data, 1)
-- 
2.43.0

