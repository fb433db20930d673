From 0f858dd5c496a5eae24da732499bd2513df39bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:30 +0000
Subject: [PATCH 01/18] fix: mget flag without a number must not loop forever
 or read into the next reply

---
 memcache/parser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index f24cbe7..9e82363 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -131,16 +131,20 @@ func isDigit(c byte) bool {
 	return c >= '0' && c <= '9'
 }
 
+// findNumber returns a negative index if there is no number on the current line
 func findNumber(data []byte, index int) (uint64, int) {
 	foundIndex := -1
 	var firstChar byte
-	for i := index; i < len(data); i++ {
+	for i := index; i < len(data) && data[i] != '\r'; i++ {
 		if isDigit(data[i]) {
 			foundIndex = i
 			firstChar = data[i]
 			break
 		}
 	}
+	if foundIndex < 0 {
+		return 0, -1
+	}
 
 	num := uint64(firstChar - '0')
 
@@ -182,6 +186,9 @@ func (p *parser) parseMGetFlags(index int, resp *MGetResponse) (int, error) {
 		}
 		if p.data[i] == 'c' {
 			cas, nextIndex := findNumber(p.data, i+1)
+			if nextIndex < 0 {
+				return 0, ErrInvalidMGet
+			}
 			resp.CAS = cas
 			i = nextIndex - 1
 			continue
@@ -214,6 +221,9 @@ func (p *parser) readMGetHD() (MGetResponse, error) {
 
 func (p *parser) readMGetVA() (MGetResponse, error) {
 	_, index := findNumber(p.data, 3)
+	if index < 0 {
+		return MGetResponse{}, ErrInvalidMGet
+	}
 
 	resp := MGetResponse{
 		Type: MGetResponseTypeVA,
-- 
2.43.0


From 64f558a7cd8ff7c2c9c0e92e95ba499f3592e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:45 +0000
Subject: [PATCH 02/18] fix: an error reply without message must not swallow
 the next reply or crash flush_all

---
 memcache/parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index 9e82363..96a0855 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -256,13 +256,16 @@ const (
 
 func (p *parser) readError(errType errorType) error {
 	index := len(serverErrorPrefix)
-	crlfIndex := p.findCRLF(index + 1)
+	crlfIndex := p.findCRLF(index)
 	if crlfIndex < 0 {
 		return ErrInvalidResponse
 	}
 
-	data := make([]byte, crlfIndex-2-index-1)
-	copy(data, p.data[index+1:])
+	var data []byte
+	if index+1 < crlfIndex-2 { // the message can be empty, even without the space before it
+		data = make([]byte, crlfIndex-2-index-1)
+		copy(data, p.data[index+1:])
+	}
 
 	p.skipData(crlfIndex)
 
@@ -435,6 +438,10 @@ func (p *parser) readFlushAllWithCRLF() error {
 }
 
 func (p *parser) readFlushAll() error {
+	if len(p.data) < 4 {
+		return ErrInvalidResponse
+	}
+
 	if p.prefixEqual('O', 'K') {
 		return p.readFlushAllWithCRLF()
 	}
-- 
2.43.0


From 9f5b1cd6e9012afb4848bc85513ba8c2d36b5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 03/18] fix: an unparsable response must not answer the
 following commands of its batch

---
 memcache/pipeline.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/memcache/pipeline.go b/memcache/pipeline.go
index 3fc564e..5404a1f 100644
--- a/memcache/pipeline.go
+++ b/memcache/pipeline.go
@@ -107,7 +107,7 @@ func parseCommandsForSingleCommandData(
 		return
 	}
 
-	for _, cmd := range pipelineCommands {
+	for index, cmd := range pipelineCommands {
 		switch cmd.cmdType {
 		case commandTypeMGet:
 			resp, err := ps.readMGet()
@@ -137,7 +137,16 @@ func parseCommandsForSingleCommandData(
 			if IsServerError(cmd.err) {
 				continue
 			}
+			_, unparsable := cmd.err.(ErrBrokenPipe)
 			cmd.err = currentCmd.conn.setLastErrorAndClose(cmd.err)
+
+			if unparsable {
+				// this response was not consumed, it must not be used for the remaining commands
+				for _, remaining := range pipelineCommands[index+1:] {
+					remaining.err = cmd.err
+				}
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From 15498bb653185e356eea3d9bf394b6bdf05e18e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 04/18] fix: an absurd value length from the server must not be
 allocated

---
 memcache/reader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/memcache/reader.go b/memcache/reader.go
index dbe3906..cf85ca8 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -47,6 +47,11 @@ var errNoLFAfterCR = ErrBrokenPipe{reason: "no LF after CR"}
 
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
+var errValueTooLarge = ErrBrokenPipe{reason: "length after VA too large"}
+
+// maxValueLen is the biggest item size a memcached server can be configured with
+const maxValueLen = 1 << 30
+
 func (r *responseReader) writeResponse(data []byte) {
 	r.currentCmd.responseData = append(r.currentCmd.responseData, data...)
 }
@@ -162,6 +167,10 @@ func (r *responseReader) handleGetNum(data []byte) []byte {
 		for i := 1; i < n; i++ {
 			r.dataLen *= 10
 			r.dataLen += uint64(r.tmpData[i] - '0')
+
+			if r.dataLen > maxValueLen {
+				return r.setErrorAndReturn(errValueTooLarge)
+			}
 		}
 
 		r.currentBinary = getByteSlice(r.dataLen)
-- 
2.43.0


From cb9ec7ded0c710745aedc53961f3243e16ec5f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 05/18] fix: bytes received on an abandoned connection must not
 answer later commands

---
 memcache/core.go   | 16 ++++++++++++++--
 memcache/reader.go |  4 ++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/memcache/core.go b/memcache/core.go
index 07bc230..2ea7bfc 100644
--- a/memcache/core.go
+++ b/memcache/core.go
@@ -15,8 +15,9 @@ type coreConnection struct {
 	wg sync.WaitGroup
 
 	// job data
-	msgData []byte
-	cmdList *cmdListReader
+	msgData  []byte
+	cmdList  *cmdListReader
+	lastConn *senderConnection // connection of the previous command
 }
 
 func newCoreConnection(nc netconn.NetConn, options *memcacheOptions) *coreConnection {
@@ -80,6 +81,17 @@ func (c *coreConnection) recvSingleCommandData(inc *increaseReadCount) error {
 	current := c.cmdList.current()
 	c.responseReader.setCurrentCommand(current)
 
+	lastErr := current.conn.getLastErrorInternal()
+	if lastErr != nil || current.conn != c.lastConn {
+		// bytes received earlier belong to another or to a broken connection
+		c.responseReader.discardRemaining()
+		c.lastConn = current.conn
+	}
+	if lastErr != nil {
+		inc.apply(c, current)
+		return lastErr
+	}
+
 	for count := 0; count < current.cmdCount; count++ {
 		err := c.readNextMemcacheCommandResponse(current, inc)
 		if err != nil {
diff --git a/memcache/reader.go b/memcache/reader.go
index cf85ca8..f6dbb7e 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -307,6 +307,10 @@ func (r *responseReader) hasError() error {
 	return r.lastErr
 }
 
+func (r *responseReader) discardRemaining() {
+	r.remainingData = nil
+}
+
 func (r *responseReader) reset() {
 	r.tmpData = r.tmpData[:]
 	r.state = readerStateInit
-- 
2.43.0


From d90461619662f9cc0748026306e5e201409667de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 06/18] fix: every batch of a pipeline published after Close
 must be completed

---
 memcache/sender.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index b6a4266..1f639b9 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -263,7 +263,11 @@ func (s *sender) sendToWriter() (closed bool) {
 func (s *sender) publish(cmd *commandListData) {
 	closed := s.sendBuf.push(cmd)
 	if closed {
-		cmd.setCompleted(ErrConnClosed)
+		for current := cmd; current != nil; {
+			next := current.sibling // must not touch **current** after it is completed
+			current.setCompleted(ErrConnClosed)
+			current = next
+		}
 	}
 }
 
-- 
2.43.0


From 1655f146bc420d87fccc73b6a0073f0b0b4453a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 07/18] fix: the sender must not hold connMut while the receive
 buffer is full

---
 memcache/sender.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 1f639b9..1d54628 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -221,21 +221,21 @@ func clearCmdList(cmdList []*commandListData) []*commandListData {
 	return cmdList[:0]
 }
 
-func (s *sender) writeAndFlush() {
-	if s.conn.getLastErrorInternal() != nil {
+func (s *sender) writeAndFlush(conn *senderConnection) {
+	if conn.getLastErrorInternal() != nil {
 		return
 	}
 
 	for _, cmd := range s.tmpBuf {
-		if err := cmd.writeToWriter(s.conn.writer); err != nil {
-			_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		if err := cmd.writeToWriter(conn.writer); err != nil {
+			_ = conn.setLastErrorAndCloseUnsafe(err)
 			return
 		}
 	}
 
-	err := s.conn.writer.Flush()
+	err := conn.writer.Flush()
 	if err != nil {
-		_ = s.conn.setLastErrorAndCloseUnsafe(err)
+		_ = conn.setLastErrorAndCloseUnsafe(err)
 		return
 	}
 }
@@ -244,15 +244,20 @@ func (s *sender) sendToWriter() (closed bool) {
 	s.tmpBuf, closed = s.selector.readCommands(s.tmpBuf)
 
 	s.connMut.Lock()
+	conn := s.conn
+	s.connMut.Unlock()
 
 	for _, cmd := range s.tmpBuf {
-		cmd.conn = s.conn
+		cmd.conn = conn
 	}
 
+	// it can block until the receiver catches up, and the receiver needs **connMut** to report errors
 	s.recv.push(s.tmpBuf)
 
+	s.connMut.Lock()
+
 	// flush to tcp socket
-	s.writeAndFlush()
+	s.writeAndFlush(conn)
 
 	s.tmpBuf = clearCmdList(s.tmpBuf)
 	s.connMut.Unlock()
-- 
2.43.0


From 9fca49c42bd6521067e17872c50da91210a1e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 08/18] fix: closing the client must not dial again

---
 memcache/sender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memcache/sender.go b/memcache/sender.go
index 1d54628..c7eb39f 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -296,10 +296,10 @@ func (s *sender) readSentCommands(cmdList []*commandListData) int {
 
 func (s *sender) waitForError() (closed bool) {
 	s.connMut.Lock()
-	result := s.closed
 	for !s.closed && s.conn.getLastErrorInternal() == nil {
 		s.ncErrorCond.Wait()
 	}
+	result := s.closed
 	s.connMut.Unlock()
 	return result
 }
-- 
2.43.0


From 3aab51675b366a645392c4ce36413796b4f3a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 09/18] fix: closing the client during the retry wait must not
 dial again and again

---
 memcache/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/memcache/conn.go b/memcache/conn.go
index 8ddb26d..9e15f35 100644
--- a/memcache/conn.go
+++ b/memcache/conn.go
@@ -67,7 +67,9 @@ func newConn(
 			if err != nil {
 				opts.dialErrorLogger(err)
 
-				sleepWithCloseChan(opts.retryDuration, c.closeChan)
+				if sleepWithCloseChan(opts.retryDuration, c.closeChan) {
+					return
+				}
 				continue
 			}
 
-- 
2.43.0


From 4853a16f6dbaad1dbb8c1244a98303514daaccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 10/18] fix: a server that stays silent during authentication
 must not block dialing forever

---
 memcache/netconn/auth.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/memcache/netconn/auth.go b/memcache/netconn/auth.go
index 657e15e..171fb55 100644
--- a/memcache/netconn/auth.go
+++ b/memcache/netconn/auth.go
@@ -48,6 +48,14 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, err
 		}
 
+		// a server that does not answer must not block the dialing forever
+		if timeout > 0 {
+			if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		n := len(a.username) + len(a.password) + 1
 		msg := fmt.Sprintf("set memcached_auth 0 0 %d\r\n%s %s\r\n", n, a.username, a.password)
 
@@ -68,6 +76,13 @@ func (a *PasswordAuth) GetDialFunc(dialFunc DialFunc) DialFunc {
 			return nil, ErrInvalidUsernamePassword
 		}
 
+		if timeout > 0 {
+			if err := conn.SetDeadline(time.Time{}); err != nil {
+				_ = conn.Close()
+				return nil, err
+			}
+		}
+
 		return conn, nil
 	}
 }
-- 
2.43.0


From e276b6a0e85e4e6386b670bbe85460b56b13f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:02 +0000
Subject: [PATCH 11/18] fix: a failed keep-alive setting must not leave the
 dialed connection open

---
 memcache/netconn/netconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memcache/netconn/netconn.go b/memcache/netconn/netconn.go
index 2a456a3..26a1a60 100644
--- a/memcache/netconn/netconn.go
+++ b/memcache/netconn/netconn.go
@@ -109,9 +109,11 @@ func DialNewConn(addr string, options ...Option) (NetConn, error) {
 	tcpNetConn, ok := nc.(*net.TCPConn)
 	if ok {
 		if err := tcpNetConn.SetKeepAlive(true); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 		if err := tcpNetConn.SetKeepAlivePeriod(conf.tcpKeepAliveDuration); err != nil {
+			_ = nc.Close()
 			return NetConn{}, err
 		}
 	}
-- 
2.43.0


From faa29600bc900ad36db33b9c39943fc74f643f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 12/18] fix: a key dump cut short is an error and its cut line
 is not a key

---
 memcache/stats/stats.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index d93c031..c57343a 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -2,6 +2,8 @@ package stats
 
 import (
 	"bufio"
+	"bytes"
+	"io"
 	"log"
 	"net/url"
 	"strconv"
@@ -61,6 +63,7 @@ func New(addr string, options ...Option) *Client {
 	}
 
 	scanner := bufio.NewScanner(nc.Reader)
+	scanner.Split(scanTerminatedLines)
 
 	return &Client{
 		nc:      nc,
@@ -69,6 +72,14 @@ func New(addr string, options ...Option) *Client {
 	}
 }
 
+// scanTerminatedLines is bufio.ScanLines without the last line when that line is cut short
+func scanTerminatedLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	if bytes.IndexByte(data, '\n') < 0 {
+		return 0, nil, nil
+	}
+	return bufio.ScanLines(data, atEOF)
+}
+
 // GeneralStats ...
 type GeneralStats struct {
 	PID    uint64
@@ -498,7 +509,10 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		}
 		scanFunc(key)
 	}
-	return c.scanner.Err()
+	if err := c.scanner.Err(); err != nil {
+		return err
+	}
+	return io.ErrUnexpectedEOF
 }
 
 type statItem struct {
-- 
2.43.0


From dc5b9f6818627cc533be6dc9c2a1d5f2180f4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 13/18] fix: the rest of a malformed statistics reply must not
 answer the next query

---
 memcache/stats/parser.go | 31 +++++++++++++++++++++++++------
 memcache/stats/stats.go  | 11 +++++++++++
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/memcache/stats/parser.go b/memcache/stats/parser.go
index 6afa584..dd65422 100644
--- a/memcache/stats/parser.go
+++ b/memcache/stats/parser.go
@@ -35,6 +35,28 @@ func NewError(msg string) *Error {
 	}
 }
 
+// skipReply skips the rest of a reply that has a malformed line,
+// otherwise it would be read as the reply of the next command
+func (p *statsParser) skipReply() {
+	p.item = statItem{}
+	for p.scanner.Scan() {
+		fields := strings.Fields(p.scanner.Text())
+		if len(fields) > 0 && fields[0] == "END" {
+			return
+		}
+	}
+}
+
+// failLine reports a malformed line, a line that is not a statistic only ends
+// the reply when it is the first one
+func (p *statsParser) failLine(isStat bool, msg string) bool {
+	p.lastErr = NewError(msg)
+	if isStat || p.item.key != "" {
+		p.skipReply()
+	}
+	return false
+}
+
 func (p *statsParser) next() bool {
 	ok := p.scanner.Scan()
 
@@ -52,8 +74,7 @@ func (p *statsParser) next() bool {
 
 	fields := strings.Fields(line)
 	if len(fields) == 0 {
-		p.lastErr = NewError("empty line")
-		return false
+		return p.failLine(false, "empty line")
 	}
 
 	if fields[0] == "END" {
@@ -62,13 +83,11 @@ func (p *statsParser) next() bool {
 	}
 
 	if fields[0] != "STAT" {
-		p.lastErr = NewError("line not begin with STAT")
-		return false
+		return p.failLine(false, "line not begin with STAT")
 	}
 
 	if len(fields) < 3 {
-		p.lastErr = NewError("missing stat fields")
-		return false
+		return p.failLine(true, "missing stat fields")
 	}
 
 	p.item = statItem{
diff --git a/memcache/stats/stats.go b/memcache/stats/stats.go
index c57343a..b16eec0 100644
--- a/memcache/stats/stats.go
+++ b/memcache/stats/stats.go
@@ -109,6 +109,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "pid":
 			pid, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipReply()
 				return GeneralStats{}, err
 			}
 			result.PID = pid
@@ -116,6 +117,7 @@ func (c *Client) GetGeneralStats() (GeneralStats, error) {
 		case "uptime":
 			uptime, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipReply()
 				return GeneralStats{}, err
 			}
 			result.Uptime = uptime
@@ -223,6 +225,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "active_slabs":
 			active, err := strconv.ParseUint(item.value, 10, 32)
 			if err != nil {
+				c.parser.skipReply()
 				return SlabsStats{}, err
 			}
 			result.ActiveSlabs = uint32(active)
@@ -230,6 +233,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		case "total_malloced":
 			totalMalloced, err := strconv.ParseUint(item.value, 10, 64)
 			if err != nil {
+				c.parser.skipReply()
 				return SlabsStats{}, err
 			}
 			result.TotalMalloced = totalMalloced
@@ -237,6 +241,7 @@ func (c *Client) GetSlabsStats() (SlabsStats, error) {
 		default:
 			err := result.parseSlabStat(item)
 			if err != nil {
+				c.parser.skipReply()
 				return SlabsStats{}, err
 			}
 		}
@@ -405,6 +410,7 @@ func (c *Client) GetSlabItemsStats() (SlabItemsStats, error) {
 		item := c.parser.getItem()
 		err := result.parseSlabItemStat(item)
 		if err != nil {
+			c.parser.skipReply()
 			return SlabItemsStats{}, err
 		}
 	}
@@ -497,6 +503,7 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 		return err
 	}
 
+	first := true
 	for c.scanner.Scan() {
 		line := c.scanner.Text()
 		if line == "END" {
@@ -505,8 +512,12 @@ func (c *Client) MetaDumpAll(scanFunc func(key MetaDumpKey)) error {
 
 		key, err := parseMetaDumpKey(line)
 		if err != nil {
+			if !first || strings.HasPrefix(line, "key=") {
+				c.parser.skipReply()
+			}
 			return err
 		}
+		first = false
 		scanFunc(key)
 	}
 	if err := c.scanner.Err(); err != nil {
-- 
2.43.0


From e0fb8ddcf9c37225f9a32275e045499ff18a2295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 14/18] fix: a value that is not followed by CRLF is not a
 legal reply

---
 memcache/reader.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/memcache/reader.go b/memcache/reader.go
index f6dbb7e..4015a4d 100644
--- a/memcache/reader.go
+++ b/memcache/reader.go
@@ -45,6 +45,8 @@ func newResponseReader() *responseReader {
 
 var errNoLFAfterCR = ErrBrokenPipe{reason: "no LF after CR"}
 
+var errNoCRLFAfterValue = ErrBrokenPipe{reason: "no CRLF after value"}
+
 var errNotNumberAfterVA = ErrBrokenPipe{reason: "not a number after VA"}
 
 var errValueTooLarge = ErrBrokenPipe{reason: "length after VA too large"}
@@ -217,13 +219,17 @@ func (r *responseReader) handleBinaryData(data []byte) []byte {
 		n = r.dataLen
 	}
 
-	r.dataLen -= n
+	copied := copy(r.currentBinary[r.currentIndex:], data[:n])
+	r.currentIndex += copied
 
-	if r.currentIndex < len(r.currentBinary) {
-		copy(r.currentBinary[r.currentIndex:], data)
-		r.currentIndex += int(n)
+	for i := uint64(copied); i < n; i++ { // the last 2 bytes are CR + LF
+		if data[i] != "\n\r"[r.dataLen-i-1] {
+			return r.setErrorAndReturn(errNoCRLFAfterValue)
+		}
 	}
 
+	r.dataLen -= n
+
 	if r.dataLen == 0 {
 		r.state = readerStateCompleted
 
-- 
2.43.0


From d275840fa1fdc882408295a2d6781dccede31ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:15 +0000
Subject: [PATCH 15/18] fix: a reply whose status word is not followed by a
 space or CR is not legal

---
 memcache/parser.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/memcache/parser.go b/memcache/parser.go
index 96a0855..c674c0e 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -106,7 +106,16 @@ type VersionResponse struct {
 	Version string
 }
 
+// wordEnds tells whether the status word of the response ends right before index
+func (p *parser) wordEnds(index int) bool {
+	return index < len(p.data) && (p.data[index] == ' ' || p.data[index] == '\r')
+}
+
+// findCRLF returns the index of the next line, with **index** right after the status word
 func (p *parser) findCRLF(index int) int {
+	if !p.wordEnds(index) {
+		return -1
+	}
 	for i := index + 1; i < len(p.data); i++ {
 		if p.isCRLF(i - 1) {
 			return i + 1
@@ -207,6 +216,10 @@ func (p *parser) skipData(nextIndex int) {
 }
 
 func (p *parser) readMGetHD() (MGetResponse, error) {
+	if !p.wordEnds(2) {
+		return MGetResponse{}, ErrInvalidMGet
+	}
+
 	resp := MGetResponse{
 		Type: MGetResponseTypeHD,
 	}
@@ -220,6 +233,10 @@ func (p *parser) readMGetHD() (MGetResponse, error) {
 }
 
 func (p *parser) readMGetVA() (MGetResponse, error) {
+	if !p.wordEnds(2) {
+		return MGetResponse{}, ErrInvalidMGet
+	}
+
 	_, index := findNumber(p.data, 3)
 	if index < 0 {
 		return MGetResponse{}, ErrInvalidMGet
-- 
2.43.0


From 3b702dac3511cd411155199a554bf7e9f64371d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:12 +0000
Subject: [PATCH 16/18] fix: numbers of a get reply must be whole fields of at
 most 64 bits

---
 memcache/parser.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/memcache/parser.go b/memcache/parser.go
index c674c0e..ad31d9d 100644
--- a/memcache/parser.go
+++ b/memcache/parser.go
@@ -2,6 +2,7 @@ package memcache
 
 import (
 	"bytes"
+	"math"
 	"strings"
 )
 
@@ -140,7 +141,7 @@ func isDigit(c byte) bool {
 	return c >= '0' && c <= '9'
 }
 
-// findNumber returns a negative index if there is no number on the current line
+// findNumber returns a negative index if there is no number of 64 bits on the current line
 func findNumber(data []byte, index int) (uint64, int) {
 	foundIndex := -1
 	var firstChar byte
@@ -162,8 +163,12 @@ func findNumber(data []byte, index int) (uint64, int) {
 		if !isDigit(data[i]) {
 			break
 		}
+		digit := uint64(data[i] - '0')
+		if num > (math.MaxUint64-digit)/10 { // does not fit 64 bits
+			return 0, -1
+		}
 		num *= 10
-		num += uint64(data[i] - '0')
+		num += digit
 	}
 
 	return num, i // next index right after number
@@ -194,6 +199,9 @@ func (p *parser) parseMGetFlags(index int, resp *MGetResponse) (int, error) {
 			continue
 		}
 		if p.data[i] == 'c' {
+			if !isDigit(p.data[i+1]) {
+				return 0, ErrInvalidMGet
+			}
 			cas, nextIndex := findNumber(p.data, i+1)
 			if nextIndex < 0 {
 				return 0, ErrInvalidMGet
@@ -238,7 +246,7 @@ func (p *parser) readMGetVA() (MGetResponse, error) {
 	}
 
 	_, index := findNumber(p.data, 3)
-	if index < 0 {
+	if index < 0 || !p.wordEnds(index) {
 		return MGetResponse{}, ErrInvalidMGet
 	}
 
-- 
2.43.0


From e634c771558a9a8439ffc772e65f0b28b09f5074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:49 +0000
Subject: [PATCH 17/18] fix: data that a read returns together with an error
 must not be dropped

---
 memcache/sender.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memcache/sender.go b/memcache/sender.go
index c7eb39f..903a1ab 100644
--- a/memcache/sender.go
+++ b/memcache/sender.go
@@ -95,6 +95,10 @@ func (c *senderConnection) readData(data []byte) (int, error) {
 	}
 
 	n, err := c.reader.Read(data)
+	if n > 0 {
+		// an error that comes together with data is returned again by the next read
+		return n, nil
+	}
 	if err != nil {
 		return n, c.setLastErrorAndClose(err)
 	}
-- 
2.43.0


From d2755370381d23aba0eaef2c58d50004f9d9ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:51 +0000
Subject: [PATCH 18/18] fix: an authentication answer that comes together with
 an error is complete

---
 memcache/netconn/auth.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memcache/netconn/auth.go b/memcache/netconn/auth.go
index 171fb55..b07cab5 100644
--- a/memcache/netconn/auth.go
+++ b/memcache/netconn/auth.go
@@ -30,10 +30,10 @@ func tryReadBytes(reader io.Reader, numBytes int) ([]byte, error) {
 	nextData := data
 	for len(nextData) > 0 {
 		n, err := reader.Read(nextData)
-		if err != nil {
+		nextData = nextData[n:]
+		if err != nil && len(nextData) > 0 {
 			return nil, err
 		}
-		nextData = nextData[n:]
 	}
 	return data, nil
 }
-- 
2.43.0

