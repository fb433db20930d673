package zzblack

import (
	"io"
	"strings"

	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

const dumpCmd = "lru_crawler metadump all\r\n"

const (
	max63    = "9223372036854775807"
	hexUpper = "0123456789ABCDEF"
	hexLower = "0123456789abcdef"
)

// dumpKey is n arbitrary bytes and an encoding of them: each byte as itself, if it can stand for
// itself in a URL path, or as %XX.
func dumpKey(name string, n int) (string, string) {
	key, enc := "", ""
	for i := 0; i < n; i++ {
		b := zz.Byte(name)
		hex := hexUpper
		switch zz.Choice(name+".as", 3) {
		case 0:
			if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '-' || b == '.' || b == '_' || b == '~' ||
				b == '+' || b == '/' || b == ':' || b == '@' || b == '&' || b == ',' || b == '!') {
				zz.Kill()
			}
			enc += string([]byte{b})
		case 1:
			hex = hexLower
			fallthrough
		default:
			enc += string([]byte{'%', hex[b>>4], hex[b&15]})
		}
		key += string([]byte{b})
	}
	return key, enc
}

// signed is like value for signed 64-bit numbers; mode 5: any negative number, 6: any number
// below the minimum, 7: the minimum.
func signed(mode, k int) (int64, string, bool) {
	switch mode {
	case 5:
		n, t := number("number", max63)
		return -int64(n), "-" + t, true
	case 6:
		return 0, "-" + tooBig("big", "9223372036854775808"), false
	case 7:
		return -1 << 63, "-9223372036854775808", true
	case 3:
		t := word("text", 1+zz.Choice("length", k))
		if t[0] == '+' { // not sent by a server
			zz.Kill()
		}
		neg := t[0] == '-'
		d := t
		if neg {
			d = t[1:]
		}
		n, ok := decimal(d)
		if neg {
			return -int64(n), t, ok
		}
		return int64(n), t, ok
	}
	n, t, ok := value(mode, max63, k)
	return int64(n), t, ok
}

// dumpLine is a dump line and the key it reports. Field f has a value of the given mode, the
// others fixed values.
func dumpLine(i, f, mode, k int) (stats.MetaDumpKey, string, bool) {
	var e stats.MetaDumpKey
	enc := ""
	ok := true
	if f == 0 {
		e.Key, enc = dumpKey("key", k)
	} else {
		e.Key, enc = "key/"+itoa(i), "key%2F"+itoa(i)
	}
	e.Exp, e.LA, e.CAS, e.Fetch, e.Class, e.Size = int64(1700000000+i), int64(1600000000+i), uint64(10+i), i%2 == 1, uint32(1+i), uint32(60+i)
	exp, la, cas, cls, size := "170000000"+itoa(i), "160000000"+itoa(i), itoa(10+i), itoa(1+i), itoa(60+i)
	fetch := [...]string{"no", "yes"}[i%2]
	var n uint64
	switch f {
	case 1:
		e.Exp, exp, ok = signed(mode, k)
	case 2:
		e.LA, la, ok = signed(mode, k)
	case 3:
		e.CAS, cas, ok = value(mode, max64, k)
	case 4:
		j := zz.Choice("fetch", 2)
		e.Fetch, fetch = j == 1, [...]string{"no", "yes"}[j]
	case 5:
		n, cls, ok = value(mode, max32, k)
		e.Class = uint32(n)
	case 6:
		n, size, ok = value(mode, max32, k)
		e.Size = uint32(n)
	}
	for _, t := range []string{exp, la, cas, cls, size} {
		if strings.IndexByte(t, '=') >= 0 {
			zz.Kill()
		}
	}
	return e, "key=" + enc + " exp=" + exp + " la=" + la + " cas=" + cas + " fetch=" + fetch + " cls=" + cls + " size=" + size, ok
}

// ZZ_C19 dumps nl lines; field f of line w has a value of the given mode (see signed, value).
// A second dump follows.
func ZZ_C19(nl, w, f, mode, k int) {
	ending := [...]string{"\n", "\r\n"}[zz.Choice("ending", 2)]
	var want, got []stats.MetaDumpKey
	t := ""
	good := true
	for i := 0; i < nl; i++ {
		g := -1
		if i == w {
			g = f
		}
		e, l, ok := dumpLine(i, g, mode, k)
		if good = good && ok; good {
			want = append(want, e)
		}
		t += l + ending
	}
	zz.OutStr("dump", t)
	e2, l2, _ := dumpLine(7, -1, 0, 0)
	s := &statServer{replies: []string{t + "END\r\n", l2 + "\nEND\r\n"}}
	cl := newStats(s)
	err := cl.MetaDumpAll(func(e stats.MetaDumpKey) { got = append(got, e) })
	zz.Assert((err == nil) == good, "a malformed number is accepted or a good one refused")
	zz.Assert(len(got) == len(want), "not every line is delivered once")
	for i := range want {
		zz.Assert(got[i] == want[i], "the key delivered is not the key sent")
	}
	if good {
		zz.Cover("complete")
	} else {
		zz.Cover("error")
	}
	got = nil
	err = cl.MetaDumpAll(func(e stats.MetaDumpKey) { got = append(got, e) })
	zz.Assert(err == nil && len(got) == 1 && got[0] == e2, "the next dump does not deliver its own keys")
	zz.Assert(string(s.conns[0].in) == dumpCmd+dumpCmd, "the commands sent are not exact")
}

// ZZ_C19_Bad has a malformed line at any place of a dump, then another command.
func ZZ_C19_Bad(nl int) {
	bad := [...]string{
		"key=a%mm exp=1 la=1 cas=1 fetch=no cls=1 size=1", "key=a% exp=1 la=1 cas=1 fetch=no cls=1 size=1", "key=a%4 exp=1 la=1 cas=1 fetch=no cls=1 size=1", "key=%zz",
		"key=a exp la=1 cas=1 fetch=no cls=1 size=1", "key=a exp=1 la=1 cas=1 fetch=no cls=1 size", "key=a exp= la=1 cas=1 fetch=no cls=1 size=1",
		"key=a exp=1 la= cas=1 fetch=no cls=1 size=1", "key=a exp=1 la=1 cas=-1 fetch=no cls=1 size=1", "key=a exp=1 la=1 cas=1 fetch=no cls=4294967296 size=1",
		"key=a exp=1 la=1 cas=1 fetch=no cls=1 size=4294967296", "key=a exp=1 la=1 cas=1 fetch cls=1 size=1",
		"key", "BUSY currently processing crawler request", "ERROR", "", " ", "NOTSTARTED", "SERVER_ERROR x", "ENDx", "END ", " END", "END END", "end", "EN",
	}
	at := zz.Choice("at", nl+1)
	b := bad[zz.Choice("bad", len(bad))]
	t := ""
	var want, got []stats.MetaDumpKey
	for i := 0; i <= nl; i++ {
		if i == at {
			t += b + "\r\n"
		}
		if i < nl {
			e, l, _ := dumpLine(i, -1, 0, 0)
			t += l + "\n"
			if i < at {
				want = append(want, e)
			}
		}
	}
	t += "END\r\n"
	if at == 0 && !strings.HasPrefix(b, "key=") {
		t = b + "\r\n"
	}
	e2, l2, _ := dumpLine(7, -1, 0, 0)
	g := plain(zz.Choice("next", 3), 3)
	dump := zz.Bool("dump")
	next := l2 + "\nEND\r\n"
	if !dump {
		next = g.end()
	}
	s := &statServer{replies: []string{t, next}}
	cl := newStats(s)
	cb := func(e stats.MetaDumpKey) { got = append(got, e) }
	zz.Assert(cl.MetaDumpAll(cb) != nil, "a malformed line is accepted")
	zz.Assert(len(got) == len(want), "not every line is delivered once")
	for i := range want {
		zz.Assert(got[i] == want[i], "the key delivered is not the key sent")
	}
	got = nil
	if dump {
		err := cl.MetaDumpAll(cb)
		zz.Assert(err == nil && len(got) == 1 && got[0] == e2, "the dump after a malformed one does not deliver its own keys")
	} else {
		exact, err := g.query(cl)
		zz.Assert(err == nil && exact, "the query after a malformed dump does not get its own numbers")
	}
	zz.Cover("error")
}

// ZZ_C19_Cut ends or breaks the connection after any number of bytes of a dump of nl lines,
// which arrives in one or two pieces cut anywhere.
func ZZ_C19_Cut(nl, pieces int) {
	var want, got []stats.MetaDumpKey
	var ends []int
	t := ""
	for i := 0; i < nl; i++ {
		e, l, _ := dumpLine(i, -1, 0, 0)
		want = append(want, e)
		t += l + [...]string{"\n", "\r\n"}[i%2]
		ends = append(ends, len(t))
	}
	t += "END\r\n"
	cut := zz.IntRange("cut", 0, len(t))
	zz.Fix(uint64(cut))
	how := []error{io.EOF, errRead}[zz.Choice("how", 2)]
	s := &statServer{replies: []string{t[:cut], "", ""}}
	s.after = func(c *fconn, m int) {
		if m == 1 {
			c.fail(how)
		}
	}
	if pieces > 0 {
		piece := zz.IntRange("piece", 1, len(t))
		s.readCut = func(c *fconn, avail int) int {
			if k := piece - c.consumed(); k > 0 {
				return k
			}
			return avail
		}
	}
	cl := newStats(s)
	cb := func(e stats.MetaDumpKey) { got = append(got, e) }
	err := cl.MetaDumpAll(cb)
	n := 0
	for _, e := range ends {
		if e <= cut {
			n++
		}
	}
	if err == nil {
		zz.Assert(cut > len(t)-3, "a dump is complete although END was not received")
		zz.Assert(len(got) == nl, "not every line is delivered once")
		zz.Cover("complete")
	} else {
		zz.Assert(cut < len(t), "a complete dump is refused")
		zz.Assert(how != errRead || err == errRead || cut > len(t)-3, "the read error is not returned")
		zz.Cover("cut")
	}
	zz.Assert(len(got) <= nl && len(got) >= 0, "more lines are delivered than were sent")
	zz.Assert(len(got) == n, "not every line received is delivered once")
	for i := range got {
		zz.Assert(got[i] == want[i], "the key delivered is not the key sent")
	}
	k := len(got)
	for i := 0; i < 2; i++ {
		zz.Assert(cl.MetaDumpAll(cb) != nil && len(got) == k, "a dump on a broken connection succeeds")
	}
}

// ZZ_C19_Raw has a dump of n arbitrary bytes after pre, then the end of the connection.
func ZZ_C19_Raw(n, pre int) {
	p := [...]string{"", "key=", "key=a exp=", "key=a\nE", "END", "key=%4", "END\r"}[pre]
	t := p + string(bytesOf("raw", n))
	zz.OutStr("dump", t)
	s := &statServer{replies: []string{t}}
	s.after = func(c *fconn, m int) { c.fail(io.EOF) }
	cl := newStats(s)
	lines := 0
	err := cl.MetaDumpAll(func(e stats.MetaDumpKey) { lines++ })
	zz.Assert(lines <= strings.Count(t, "\n"), "a line is delivered that was not sent")
	if err == nil {
		zz.Assert(strings.Contains("\n"+t+"\n", "\nEND\n") || strings.Contains("\n"+t, "\nEND\r"), "a dump without END is complete")
		zz.Cover("complete")
	} else {
		zz.Cover("error")
	}
}

// ZZ_C19_Write has a dump whose command cannot be written, or no connection at all.
func ZZ_C19_Write() {
	s := &server{}
	k := zz.IntRange("written", 0, len(dumpCmd)-1)
	s.writeErr = func(c *fconn, p []byte) (int, error) { return k, errWrite }
	dial := zz.Bool("dialled")
	if !dial {
		s.dialErr = func(int) error { return errDial }
	}
	cl := stats.New("h:3", stats.WithErrorLogger(func(error) {}), stats.WithNetConnOptions(netconn.WithDialFunc(s.dial)))
	for i := 0; i < 2; i++ {
		err := cl.MetaDumpAll(func(e stats.MetaDumpKey) { zz.Fail("a key is delivered without a reply") })
		zz.Assert(err != nil && (!dial && err == errDial || dial && err == errWrite || i > 0), "the failure is not reported")
	}
	zz.Cover("error")
}

// ZZ_C19_Many dumps n lines with keys of the given length, three arbitrary digits in each.
func ZZ_C19_Many(n, l int) {
	t := ""
	var want []stats.MetaDumpKey
	for i := 0; i < n; i++ {
		e, line, _ := dumpLine(i%10, 3, 4, 0)
		pad := strings.Repeat("k", l)
		if i%2 == 1 { // nothing to decode
			e.Key, line = "key."+itoa(i%10), strings.Replace(line, "%2F", ".", 1)
		}
		e.Key = pad + e.Key
		want = append(want, e)
		t += "key=" + pad + line[4:] + "\n"
	}
	s := &statServer{replies: []string{t + "END\r\n"}}
	cl := newStats(s)
	i := 0
	got := make([]stats.MetaDumpKey, n)
	err := cl.MetaDumpAll(func(e stats.MetaDumpKey) {
		zz.Assert(i < n && e == want[i], "the key delivered is not the key sent")
		got[i] = e
		i++
	})
	zz.Assert(err == nil && i == n, "not every line is delivered once")
	for i, e := range got {
		zz.Assert(e == want[i], "a key delivered changes afterwards")
	}
	zz.Cover("complete")
}
