package zzblack

import (
	"io"
	"strings"

	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// tooBig is the text of any number above maxTxt with at most one digit more.
func tooBig(name, maxTxt string) string {
	l := len(maxTxt)
	k := zz.Choice(name+".above", l+2)
	if k == l+1 {
		return maxTxt + string([]byte{'0' + zz.ByteMax(name, 9)})
	}
	t := make([]byte, l)
	for i := range t {
		m := maxTxt[i] - '0'
		switch {
		case k == l: // one digit more
			t[i] = '0' + zz.ByteMax(name, 9)
		case i < k:
			t[i] = maxTxt[i]
		case i == k:
			if m == 9 {
				zz.Kill()
			}
			t[i] = maxTxt[i] + 1 + zz.ByteMax(name, 8-m)
		default:
			t[i] = '0' + zz.ByteMax(name, 9)
		}
	}
	if k == l {
		t = append([]byte{'2' + zz.ByteMax(name, 7)}, t...)
	}
	return string(t)
}

// word is n arbitrary printable bytes that are not spaces.
func word(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 0x21 + zz.ByteMax(name, 0x7e-0x21)
	}
	return string(b)
}

// decimal is the value of a text of digits.
func decimal(s string) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + uint64(s[i]-'0')
	}
	return n, true
}

// value is a text and the number below max it stands for, if any. mode 0: a small number,
// 1: any number, 2: any number above the maximum, 3: up to k arbitrary printable bytes.
func value(mode int, maxTxt string, k int) (uint64, string, bool) {
	switch mode {
	case 0:
		n, t := number("small", "99")
		return n, t, true
	case 1:
		n, t := number("number", maxTxt)
		return n, t, true
	case 2:
		return 0, tooBig("big", maxTxt), false
	case 4: // three digits
		d := []byte{'1' + zz.ByteMax("digit", 8), '0' + zz.ByteMax("digit", 9), '0' + zz.ByteMax("digit", 9)}
		n, _ := decimal(string(d))
		return n, string(d), true
	}
	t := word("text", 1+zz.Choice("length", k))
	n, ok := decimal(t)
	return n, t, ok
}

type slabField struct {
	name string
	max  string
	get  func(s *stats.SingleSlabStats) uint64
}

var slabFields = []slabField{
	{"chunk_size", max32, func(s *stats.SingleSlabStats) uint64 { return uint64(s.ChunkSize) }},
	{"chunks_per_page", max32, func(s *stats.SingleSlabStats) uint64 { return uint64(s.ChunksPerPage) }},
	{"total_pages", max32, func(s *stats.SingleSlabStats) uint64 { return uint64(s.TotalPages) }},
	{"total_chunks", max64, func(s *stats.SingleSlabStats) uint64 { return s.TotalChunks }},
	{"used_chunks", max64, func(s *stats.SingleSlabStats) uint64 { return s.UsedChunks }},
}

var itemFields = []struct {
	name string
	get  func(s *stats.SingleSlabItemStats) uint64
}{
	{"number", func(s *stats.SingleSlabItemStats) uint64 { return s.Number }},
	{"number_hot", func(s *stats.SingleSlabItemStats) uint64 { return s.NumberHot }},
	{"number_warm", func(s *stats.SingleSlabItemStats) uint64 { return s.NumberWarm }},
	{"number_cold", func(s *stats.SingleSlabItemStats) uint64 { return s.NumberCold }},
	{"age_hot", func(s *stats.SingleSlabItemStats) uint64 { return s.AgeHot }},
	{"age_warm", func(s *stats.SingleSlabItemStats) uint64 { return s.AgeWarm }},
	{"age", func(s *stats.SingleSlabItemStats) uint64 { return s.Age }},
	{"mem_requested", func(s *stats.SingleSlabItemStats) uint64 { return s.MemRequested }},
	{"evicted", func(s *stats.SingleSlabItemStats) uint64 { return s.Evicted }},
	{"evicted_nonzero", func(s *stats.SingleSlabItemStats) uint64 { return s.EvictedNonZero }},
	{"evicted_time", func(s *stats.SingleSlabItemStats) uint64 { return s.EvictedTime }},
	{"outofmemory", func(s *stats.SingleSlabItemStats) uint64 { return s.OutOfMemory }},
	{"tailrepairs", func(s *stats.SingleSlabItemStats) uint64 { return s.TailRepairs }},
	{"reclaimed", func(s *stats.SingleSlabItemStats) uint64 { return s.Reclaimed }},
	{"expired_unfetched", func(s *stats.SingleSlabItemStats) uint64 { return s.ExpiredUnfetched }},
	{"evicted_unfetched", func(s *stats.SingleSlabItemStats) uint64 { return s.EvictedUnfetched }},
	{"evicted_active", func(s *stats.SingleSlabItemStats) uint64 { return s.EvictedActive }},
	{"crawler_reclaimed", func(s *stats.SingleSlabItemStats) uint64 { return s.CrawlerReclaimed }},
	{"crawler_items_checked", func(s *stats.SingleSlabItemStats) uint64 { return s.CrawlerItemsChecked }},
	{"lrutail_reflocked", func(s *stats.SingleSlabItemStats) uint64 { return s.LRUTailRefLocked }},
	{"moves_to_cold", func(s *stats.SingleSlabItemStats) uint64 { return s.MovesToCold }},
	{"moves_to_warm", func(s *stats.SingleSlabItemStats) uint64 { return s.MovesToWarm }},
	{"moves_within_lru", func(s *stats.SingleSlabItemStats) uint64 { return s.MovesWithinLRU }},
	{"direct_reclaims", func(s *stats.SingleSlabItemStats) uint64 { return s.DirectReclaims }},
	{"hits_to_hot", func(s *stats.SingleSlabItemStats) uint64 { return s.HitsToHot }},
	{"hits_to_warm", func(s *stats.SingleSlabItemStats) uint64 { return s.HitsToWarm }},
	{"hits_to_cold", func(s *stats.SingleSlabItemStats) uint64 { return s.HitsToCold }},
	{"hits_to_temp", func(s *stats.SingleSlabItemStats) uint64 { return s.HitsToTemp }},
}

const (
	qGeneral = iota
	qSlabs
	qItems
)

var statCmd = [...]string{"stats\r\n", "stats slabs\r\n", "stats items\r\n"}

func statFields(kind int) int { return [...]int{2, len(slabFields), len(itemFields)}[kind] }

// statReply is a reply under construction with the numbers it reports.
type statReply struct {
	kind    int
	text    string
	bad     bool // a line is malformed
	lines   int
	closed  bool // no END follows
	general [2]uint64
	active  uint64
	malloc  uint64
	classes []uint64
	nums    [][]uint64
	seen    [][]bool
}

func (r *statReply) line(key, val string) {
	r.lines++
	r.text += "STAT " + key
	if val != "" {
		r.text += " " + val
	}
	r.text += "\r\n"
}

// class gives the index of a slab class.
func (r *statReply) class(c uint64) int {
	for i, x := range r.classes {
		if x == c {
			return i
		}
	}
	r.classes = append(r.classes, c)
	r.nums = append(r.nums, make([]uint64, statFields(r.kind)))
	r.seen = append(r.seen, make([]bool, statFields(r.kind)))
	return len(r.classes) - 1
}

func (r *statReply) fieldName(f int) (string, string) {
	switch r.kind {
	case qGeneral:
		return [...]string{"pid", "uptime"}[f], max64
	case qSlabs:
		return slabFields[f].name, slabFields[f].max
	}
	return itemFields[f].name, max64
}

// add adds the statistic f of class c, given as text t, with a value of the given mode.
func (r *statReply) add(f int, c uint64, t string, mode, k int) {
	name, m := r.fieldName(f)
	v, txt, ok := value(mode, m, k)
	switch r.kind {
	case qGeneral:
		r.general[f] = v
	case qSlabs, qItems:
		name = t + ":" + name
		if r.kind == qItems {
			name = "items:" + name
		}
	}
	r.line(name, txt)
	if r.bad = r.bad || !ok; r.bad || r.kind == qGeneral {
		return
	}
	i := r.class(c)
	if r.seen[i][f] { // a server reports a statistic once
		zz.Kill()
	}
	r.seen[i][f] = true
	r.nums[i][f] = v
}

// check compares the outcome of the query with the reply.
func (r *statReply) query(cl *stats.Client) (exact bool, err error) {
	switch r.kind {
	case qGeneral:
		g, err := cl.GetGeneralStats()
		return g.PID == r.general[0] && g.Uptime == r.general[1], err
	case qSlabs:
		g, err := cl.GetSlabsStats()
		if uint64(g.ActiveSlabs) != r.active || g.TotalMalloced != r.malloc {
			return false, err
		}
		if len(g.SlabIDs) != len(r.classes) || len(g.Slabs) != len(r.classes) {
			return false, err
		}
		for i, c := range r.classes {
			if uint64(g.SlabIDs[i]) != c {
				return false, err
			}
			s, ok := g.Slabs[uint32(c)]
			if !ok {
				return false, err
			}
			for f := range slabFields {
				if slabFields[f].get(&s) != r.nums[i][f] {
					return false, err
				}
			}
		}
		return true, err
	}
	g, err := cl.GetSlabItemsStats()
	if len(g.SlabIDs) != len(r.classes) || len(g.Slabs) != len(r.classes) {
		return false, err
	}
	for i, c := range r.classes {
		if uint64(g.SlabIDs[i]) != c {
			return false, err
		}
		s, ok := g.Slabs[uint32(c)]
		if !ok {
			return false, err
		}
		for f := range itemFields {
			if itemFields[f].get(&s) != r.nums[i][f] {
				return false, err
			}
		}
	}
	return true, err
}

func (r *statReply) end() string {
	if r.closed {
		return r.text
	}
	return r.text + "END\r\n"
}

// statServer answers each query with the next reply.
type statServer struct {
	server
	replies []string
	n       int
	after   func(c *fconn, n int) // the n-th reply was sent
}

func newStats(s *statServer) *stats.Client {
	s.onWrite = func(c *fconn, p []byte) {
		if s.n == len(s.replies) {
			zz.Fail("harness: no reply left")
		}
		c.sendStr(s.replies[s.n])
		s.n++
		if s.after != nil {
			s.after(c, s.n)
		}
	}
	return stats.New("h:3", stats.WithErrorLogger(func(error) {}),
		stats.WithNetConnOptions(netconn.WithDialFunc(s.dial)))
}

// plain is a short well-formed reply of the kind.
func plain(kind, seed int) *statReply {
	r := &statReply{kind: kind}
	put := func(f int, c uint64, v int) {
		name, _ := r.fieldName(f)
		if kind == qGeneral {
			r.general[f] = uint64(v)
		} else {
			name = itoa(int(c)) + ":" + name
			if kind == qItems {
				name = "items:" + name
			}
			i := r.class(c)
			r.nums[i][f] = uint64(v)
		}
		r.line(name, itoa(v))
	}
	put(0, 4, 17+seed)
	if kind == qSlabs {
		r.active, r.malloc = uint64(2+seed), uint64(900+seed)
	}
	put(1, 2, 5+seed)
	if kind == qSlabs {
		r.line("active_slabs", itoa(2+seed))
		r.line("total_malloced", itoa(900+seed))
	}
	return r
}

var noStat = [...]string{"pointer_size 64", "time 1", "curr_items 18446744073709551616", "version 1.6.18", "rusage_user 0.1", "pids 4", "Uptime 7"}

// ZZ_C18 makes one query of the kind with nl lines; each is any statistic of any of the
// classes, or an unknown one; line w has a value of the given mode (see value), the others
// small numbers. cls: 0 fixed classes, 1 any class number in line w, 2 any number above the
// maximum, 3 arbitrary text. Then a query of kind next.
func ZZ_C18(kind, nl, w, mode, cls, k, next int) {
	r := &statReply{kind: kind}
	fixed := [...]uint64{7, 42, 1<<32 - 1}
	nc := 3
	if nl == 1 {
		nc = 1
	}
	for i := 0; i < nl; i++ {
		m := 0
		if i == w {
			m = mode
		}
		nf := statFields(kind)
		f := zz.Choice("field", nf+2+2*b2i(kind == qSlabs))
		switch {
		case f < nf:
			c := uint64(0)
			t := ""
			if kind != qGeneral {
				if i == w && cls > 0 {
					var ok bool
					c, t, ok = value(cls, max32, k)
					if cls == 3 && strings.IndexByte(t, ':') >= 0 {
						zz.Kill()
					}
					r.bad = r.bad || !ok
				} else {
					j := zz.Choice("class", nc)
					c, t = fixed[j], [...]string{"7", "42", max32}[j]
				}
			} else if i > 0 && strings.Contains(r.text, "STAT "+[...]string{"pid", "uptime"}[f]+" ") {
				zz.Kill()
			}
			r.add(f, c, t, m, k)
		case f == nf: // unknown statistic
			switch kind {
			case qGeneral:
				r.text += "STAT " + noStat[zz.Choice("unknown", len(noStat))] + "\r\n"
			case qSlabs:
				r.line("9:"+[...]string{"free_chunks", "chunk_sizes", "used_chunk", "total"}[zz.Choice("unknown", 4)], "12")
			default:
				r.line("items:9:"+[...]string{"numbers", "age_cold", "evicted_", "hits"}[zz.Choice("unknown", 4)], "12")
			}
		case f == nf+1: // any name of the length of a known one
			known, m := r.fieldName(zz.Choice("like", 2))
			name := word("name", len(known))
			pre := ""
			switch kind {
			case qSlabs:
				pre = "3:"
			case qItems:
				pre = "items:3:"
			}
			if name == known {
				zz.Kill()
			}
			for g := 0; g < nf; g++ {
				if n, _ := r.fieldName(g); n == name {
					zz.Kill()
				}
			}
			if strings.IndexByte(name, ':') >= 0 {
				zz.Kill()
			}
			_ = m
			r.line(pre+name, "5")
		case f == nf+2:
			if strings.Contains(r.text, "active_slabs") {
				zz.Kill()
			}
			v, t, ok := value(m, max32, k)
			r.active, r.bad = v, r.bad || !ok
			r.line("active_slabs", t)
		default:
			if strings.Contains(r.text, "total_malloced") {
				zz.Kill()
			}
			v, t, ok := value(m, max64, k)
			r.malloc, r.bad = v, r.bad || !ok
			r.line("total_malloced", t)
		}
	}
	r2 := plain(next, 3)
	s := &statServer{replies: []string{r.end(), r2.end()}}
	cl := newStats(s)
	zz.OutStr("reply", s.replies[0])
	exact, err := r.query(cl)
	zz.Assert((err != nil) == r.bad, "a malformed number is accepted or a good one refused")
	if err == nil {
		zz.Assert(exact, "the numbers sent are not the numbers reported")
		zz.Cover("exact")
	} else {
		zz.Cover("error")
	}
	exact, err = r2.query(cl)
	zz.Assert(err == nil && exact, "the next query does not get its own numbers")
	zz.Assert(string(s.conns[0].in) == statCmd[kind]+statCmd[next], "the commands sent are not exact")
	zz.Assert(cl.Close() == nil && s.conns[0].closed, "Close does not close the connection")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ZZ_C18_All reports every statistic of n classes in an order that depends on seed, class by
// class or, from seed 5 on, statistic by statistic.
func ZZ_C18_All(kind, n, seed int) {
	r := &statReply{kind: kind}
	nf := statFields(kind)
	if seed >= 5 {
		for i := 0; i < nf; i++ {
			for j := 0; j < n; j++ {
				c := uint64(1 + (j*5+i*seed)%n)
				r.add((i+int(c)*(seed%3))%nf, c, itoa(int(c)), 4, 0)
			}
		}
	}
	for j := 0; j < n && seed < 5; j++ {
		c := uint64(1 + (j*5+seed)%n)
		for i := 0; i < nf; i++ {
			f := (i*[...]int{1, 3, 9, 11, 13}[seed%5] + seed) % nf
			r.add(f, c, itoa(int(c)), 4, 0)
			if kind == qGeneral && i == 0 {
				r.text += "STAT " + noStat[seed%len(noStat)] + "\r\n"
			}
		}
		if kind == qGeneral {
			break
		}
	}
	s := &statServer{replies: []string{r.end()}}
	cl := newStats(s)
	exact, err := r.query(cl)
	zz.Assert(err == nil && exact, "the numbers sent are not the numbers reported")
	zz.Cover("exact")
}

// ZZ_C18_Bad has a malformed line, and possibly more, at any place of a reply, then another
// query.
func ZZ_C18_Bad(kind, next int) {
	bad := []string{"STAT", "STAT ", "STAT x", "STAT active_slabs", "STAT pid", "STAT 6:chunk_size", "STAT items:6:number",
		"ERROR", "SERVER_ERROR out of memory", "CLIENT_ERROR x", "STATS pid 3", "xSTAT pid 3", "END_ 1", "stat pid 4", "", " ", "RESET"}
	switch kind {
	case qGeneral:
		bad = append(bad, "STAT pid -1", "STAT uptime 0x10", "STAT pid 1.5")
	case qSlabs:
		bad = append(bad, "STAT foo 5", "STAT 12 5", "STAT x:chunk_size 5", "STAT :chunk_size 5", "STAT -1:chunk_size 5", "STAT 4294967296:chunk_size 5", "STAT 5:chunk_size 4294967296", "STAT active_slabs 4294967296", "STAT total_malloced 18446744073709551616")
	case qItems:
		bad = append(bad, "STAT items:6 7", "STAT items: 7", "STAT 6:number 7", "STAT items 7", "STAT foo 7", "STAT items:x:number 7", "STAT items::number 7", "STAT items:4294967296:number 7")
	}
	base := plain(kind, 1)
	lines := strings.Split(base.text, "\r\n")
	lines = lines[:len(lines)-1]
	at := zz.Choice("at", len(lines)+1)
	which := zz.Choice("bad", len(bad))
	b := bad[which]
	more := [...]string{"", "STAT x\r\n", "\r\n", "STAT version 1 2\r\n", "STAT items:6:number x\r\nfoo\r\n"}[zz.Choice("more", 5)]
	t := ""
	for i, l := range lines {
		if i == at {
			t += b + "\r\n" + more
		}
		t += l + "\r\n"
	}
	if at == len(lines) {
		t += b + "\r\n" + more
	}
	t += "END\r\n"
	if at == 0 && !strings.HasPrefix(b, "STAT ") && b != "STAT" { // taken as a status
		t = b + "\r\n"
	}
	r2 := plain(next, 4)
	s := &statServer{replies: []string{t, r2.end()}}
	cl := newStats(s)
	_, err := base.query(cl)
	zz.Assert(err != nil, "a malformed line is accepted")
	exact, err := r2.query(cl)
	zz.Assert(err == nil && exact, "the query after a malformed reply does not get its own numbers")
	zz.Cover("error")
}

// ZZ_C18_Cut ends or breaks the connection after any number of bytes of the reply, which
// arrives in one or two pieces cut anywhere; n queries before are answered.
func ZZ_C18_Cut(kind, n, next int) {
	r := plain(kind, 2)
	t := r.end()
	cut := zz.IntRange("cut", 0, len(t))
	zz.Fix(uint64(cut))
	piece := 0
	if zz.Bool("pieces") {
		piece = zz.IntRange("piece", 1, len(t))
	}
	how := []error{io.EOF, errRead}[zz.Choice("how", 2)]
	s := &statServer{}
	for i := 0; i < n; i++ {
		s.replies = append(s.replies, t)
	}
	s.replies = append(s.replies, t[:cut], "", "")
	s.after = func(c *fconn, m int) {
		if m == n+1 {
			c.fail(how)
		}
	}
	if piece > 0 {
		s.readCut = func(c *fconn, avail int) int {
			k := piece - c.consumed()%len(t)
			if k <= 0 {
				return avail
			}
			return k
		}
	}
	cl := newStats(s)
	for i := 0; i < n; i++ {
		exact, err := r.query(cl)
		zz.Assert(err == nil && exact, "the numbers sent are not the numbers reported")
		zz.Cover("exact")
	}
	exact, err := r.query(cl)
	switch {
	case cut == len(t):
		zz.Assert(err == nil && exact, "a complete reply is refused")
	case cut > len(t)-3: // END without its line end
		zz.Assert(err != nil || exact, "a partial result is presented as complete")
	default:
		zz.Assert(err != nil, "a partial result is presented as complete")
		if how == errRead {
			zz.Assert(err == errRead, "the read error is not returned")
		}
		zz.Cover("cut")
	}
	r2 := plain(next, 5)
	for i := 0; i < 2; i++ {
		_, err = r2.query(cl)
		zz.Assert(err != nil, "a query on a broken connection succeeds")
	}
}

// ZZ_C18_Raw has a reply of n arbitrary bytes after pre, then the end of the connection.
func ZZ_C18_Raw(kind, n, pre int) {
	p := [...]string{"", "STAT ", "STAT pid 1", "STAT 1:chunk_size ", "STAT items:1:number 2\r\nE", "END"}[pre]
	t := p + string(bytesOf("raw", n))
	zz.OutStr("reply", t)
	s := &statServer{replies: []string{t}}
	s.after = func(c *fconn, m int) { c.fail(io.EOF) }
	cl := newStats(s)
	r := &statReply{kind: kind}
	_, err := r.query(cl)
	if err == nil {
		zz.Assert(strings.Contains(t, "END"), "a reply without END is complete")
		zz.Cover("complete")
	} else {
		zz.Cover("error")
	}
}

// ZZ_C18_Write has a query whose command cannot be written.
func ZZ_C18_Write(kind int) {
	s := &server{}
	k := zz.IntRange("written", 0, len(statCmd[kind])-1)
	s.writeErr = func(c *fconn, p []byte) (int, error) { return k, errWrite }
	cl := stats.New("h:3", stats.WithErrorLogger(func(error) {}), stats.WithNetConnOptions(netconn.WithDialFunc(s.dial)))
	r := &statReply{kind: kind}
	_, err := r.query(cl)
	zz.Assert(err == errWrite, "a failed write is not reported")
	_, err = r.query(cl)
	zz.Assert(err != nil, "a query after a failed write succeeds")
	zz.Cover("error")
}

// ZZ_C18_Long has a line of n bytes in a reply.
func ZZ_C18_Long(kind, n int) {
	r := plain(kind, 1)
	s := &statServer{}
	long := strings.Repeat("z", n)
	pre := [...]string{"", "1:", "items:1:"}[kind]
	s.replies = []string{"STAT " + pre + long + " 1\r\n" + r.end()}
	cl := newStats(s)
	exact, err := r.query(cl)
	zz.Assert(err != nil || exact, "a partial result is presented as complete")
	zz.Assert(err == nil || n > 60000, "a long line is refused")
	zz.Cover("done")
}
