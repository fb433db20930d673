package main

var assumptions = []string{
	"sequentially consistent memory; a data race is reported by the vector-clock runs, which assume the Go memory model",
	"sync, sync/atomic, time, channels and select are engine primitives (replayed natively through equivalents of the same semantics)",
	"sync.Pool.Get returns the last value put, or a new one when empty",
	"the network is the passive fake peer of harness/zzblack/fake.go; net.Conn contract as documented",
}

func a(x ...int64) []int64 { return x }

func cov(c ...string) []string { return c }

// each makes one black-box job per argument list.
func each(fn, bound string, covers []string, args ...[]int64) []Job {
	var out []Job
	for _, x := range args {
		out = append(out, Job{Pkg: "zzblack", Func: fn, Args: x, Bound: bound, Covers: covers})
	}
	return out
}

// explore is each with every interleaving (preemptions as set in the harness).
func explore(fn, bound string, covers []string, args ...[]int64) []Job {
	js := each(fn, bound, covers, args...)
	for i := range js {
		js[i].Mode = "explore"
	}
	return js
}

// raced is explore with the happens-before order of all memory accesses checked as well.
func raced(fn, bound string, covers []string, args ...[]int64) []Job {
	js := explore(fn, bound, covers, args...)
	for i := range js {
		js[i].Race = true
	}
	return js
}

// steps sets the step limit of a path.
func steps(n int64, js []Job) []Job {
	for i := range js {
		js[i].Steps = n
	}
	return js
}

func cat(js ...[]Job) []Job {
	var out []Job
	for _, j := range js {
		out = append(out, j...)
	}
	return out
}

var checks = []Check{
	{ID: "C01",
		Quick: cat(
			each("ZZ_C01_One", "one command, every option value, arbitrary key bytes (2, after the given number of others) and value bytes", cov("sent"), a(0, 0, 0), a(0, 0, 248), a(1, 0, 0), a(1, 3, 0), a(1, 1, 248), a(2, 0, 0), a(2, 0, 248), a(3, 0, 0), a(4, 0, 0)),
			each("ZZ_C01_Mix", "every sequence of n of 14 command shapes with every gap action; batches of the given size", cov("sent"), a(2, 1), a(2, 100), a(3, 2)),
			each("ZZ_C01_Long", "two pipelines of n commands, given batch and buffer sizes", cov("sent"), a(250, 0, 0, 0), a(210, 100, 0, 0), a(130, 7, 64, 0), a(40, 1, 16, 0), a(520, 600, 0, 0), a(320, 400, 0, 1)),
			each("ZZ_C01_Value", "values of n bytes with 3 arbitrary bytes", cov("sent"), a(0), a(1), a(61), a(62), a(63), a(64), a(126), a(127), a(1022), a(1023), a(4095), a(16383), a(16384), a(20000), a(70000), a(130), a(254), a(255), a(510), a(511), a(2046), a(2047), a(4094), a(8190), a(8191), a(32766), a(32767), a(65534), a(65535), a(131070), a(262143), a(524287), a(1048573), a(1048574), a(1048575), a(1048576), a(1048577)),
		),
		Thorough: cat(
			each("ZZ_C01_Mix", "", cov("sent"), a(3, 1), a(3, 3), a(3, 100), a(4, 2)),
			each("ZZ_C01_One", "", cov("sent"), a(1, 12, 0), a(0, 0, 126), a(1, 2, 126), a(2, 0, 127)),
			each("ZZ_C01_Long", "", cov("sent"), a(1000, 100, 0, 0), a(450, 3, 100, 0), a(300, 100, 20000, 0)),
			each("ZZ_C01_Value", "", cov("sent"), a(2000000)),
		),
	},
	{ID: "C02",
		Quick: cat(
			each("ZZ_C02", "key of n bytes, the given window arbitrary", cov("accepted", "rejected"), a(0, 1, 0, 1, 0), a(1, 1, 0, 1, 0), a(2, 1, 0, 1, 0), a(3, 1, 0, 1, 0), a(0, 2, 0, 2, 0), a(1, 2, 0, 2, 1), a(2, 2, 0, 2, 2), a(0, 3, 0, 3, 1), a(1, 4, 0, 3, 0), a(0, 250, 247, 3, 0), a(1, 250, 0, 2, 0), a(2, 250, 124, 2, 0), a(3, 250, 248, 2, 1), a(0, 249, 248, 1, 0)),
			each("ZZ_C02", "empty or over-long key", cov("rejected"), a(0, 0, 0, 0, 0), a(1, 0, 0, 0, 0), a(2, 0, 0, 0, 0), a(3, 0, 0, 0, 0), a(0, 251, 0, 1, 0), a(1, 251, 250, 1, 0), a(2, 251, 100, 2, 0), a(3, 252, 0, 1, 0), a(0, 300, 0, 1, 0)),
			each("ZZ_C02_Only", "one rejected command", cov("rejected"), a(0), a(1), a(2)),
			[]Job{{Pkg: "memcache", Func: "ZZ_Key", Args: a(6), Bound: "every key of 6 bytes"}, {Pkg: "memcache", Func: "ZZ_Key", Args: a(251), Bound: "every key of 251 bytes"}, {Pkg: "memcache", Func: "ZZ_Key", Args: a(250), Bound: "every key of 250 bytes"}},
		),
		Thorough: cat(
			each("ZZ_C02", "", cov("accepted", "rejected"), a(0, 5, 0, 5, 0), a(1, 5, 0, 5, 1), a(2, 5, 0, 5, 0), a(3, 5, 0, 5, 0), a(0, 250, 0, 5, 0), a(0, 250, 123, 5, 0), a(0, 250, 245, 5, 0)),
		),
	},
	{ID: "C03",
		Quick: cat(
			each("ZZ_C03", "get: every reply, value of n arbitrary bytes, up to the given flags with every 64-bit CAS, message of m bytes", cov("value", "error"), a(0, 0, 1, 0, 100), a(0, 1, 2, 1, 100), a(0, 2, 4, 2, 1), a(0, 3, 1, 3, 2), a(0, 12, 1, 3, 100)),
			each("ZZ_C03", "set, delete, version, flush: every reply", cov("value", "error"), a(1, 0, 0, 3, 100), a(2, 0, 0, 3, 100), a(3, 3, 0, 3, 100), a(4, 0, 0, 3, 100), a(1, 0, 0, 0, 1), a(2, 0, 0, 1, 1), a(3, 1, 0, 0, 1), a(4, 0, 0, 0, 1)),
			each("ZZ_C03", "messages and versions of the given length, 3 bytes arbitrary", cov("value", "error"), a(0, 0, 0, 70, 100), a(1, 0, 0, 130, 1), a(2, 0, 0, 300, 100), a(3, 70, 0, 1100, 100), a(3, 700, 0, 2, 1), a(4, 0, 0, 5000, 1), a(0, 0, 0, 20000, 100)),
			each("ZZ_C03_Value", "value of n bytes, 3 arbitrary; receive buffer size", cov("value"), a(0, 0), a(1, 0), a(63, 0), a(64, 0), a(65, 0), a(128, 0), a(129, 7), a(1023, 16), a(1024, 0), a(4096, 100), a(16384, 0), a(16385, 0), a(40000, 0), a(70000, 5000), a(256, 0), a(257, 0), a(2048, 0), a(2049, 0), a(8192, 0), a(32768, 0), a(32769, 0), a(65536, 0), a(65537, 0), a(262144, 0), a(524288, 0), a(1048575, 0), a(1048576, 0), a(1048577, 0)),
		),
		Thorough: cat(
			each("ZZ_C03", "", cov("value", "error"), a(0, 1, 4, 1, 100), a(0, 30, 2, 8, 100), a(3, 8, 0, 8, 100)),
			each("ZZ_C03_Value", "", cov("value"), a(2000000, 0)),
		),
	},
	{ID: "C04",
		Quick: cat(
			each("ZZ_C04", "every sequence of n kinds with every gap action, reply alternatives and order of asking", cov("answered"), a(2, 1, 3), a(2, 2, 3), a(3, 2, 1), a(3, 100, 1)),
			each("ZZ_C04_Share", "n steps on several pipelines of one connection", cov("answered"), a(2, 5, 1), a(2, 5, 2), a(3, 4, 100)),
			each("ZZ_C04_Long", "pipelines of n commands", cov("answered"), a(250, 0, 0, 0), a(130, 3, 20, 0), a(330, 1, 0, 0), a(513, 600, 0, 0), a(400, 450, 0, 500), a(250, 450, 0, 1500)),
			each("ZZ_C04_Clients", "two clients with the given batch sizes in one process: every sequence of the given number of steps among issuing that many commands on a new pipeline, asking for the results of the oldest and closing either client", cov("answered", "closed"), a(1, 4, 3, 5), a(3, 2, 4, 5), a(2, 40, 5, 4), a(2, 5, 2, 5), a(7, 3, 3, 4), a(2, 40, 2, 4)),
			explore("ZZ_C04_Break", "pipelines of m commands in batches while the connection breaks and is replaced: any failing write, read, dial or bad reply among the first ones, every interleaving with the given preemptions", cov("reconnected", "lost"), a(1, 3, 1, 1, 3, 3, 0, 3, 1), a(1, 3, 1, 2, 3, 3, 2, 3, 0), a(2, 2, 1, 1, 2, 2, 0, 2, 0)),
		),
		Thorough: cat(
			each("ZZ_C04", "", cov("answered"), a(3, 1, 3), a(3, 2, 3), a(4, 3, 1)),
			each("ZZ_C04_Share", "", cov("answered"), a(2, 6, 1), a(2, 7, 2), a(3, 6, 100)),
			each("ZZ_C04_Long", "", cov("answered"), a(1200, 100, 0, 0), a(700, 1, 10, 0)),
			explore("ZZ_C04_Break", "", cov("reconnected", "lost"), a(1, 3, 1, 1, 3, 3, 1, 3, 2), a(1, 4, 1, 2, 4, 4, 0, 4, 1), a(2, 2, 1, 1, 2, 2, 0, 2, 1), a(2, 3, 2, 1, 2, 2, 1, 2, 0)),
		),
	},
	{ID: "C05",
		Quick: cat(
			each("ZZ_C05", "well-formed replies to the kinds, one cut everywhere / byte by byte / every small buffer / pieces / empty reads / end together with data", cov("value"), a(12, 0, 2, 1, 2), a(11, 0, 2, 0, 1), a(11, 1, 3, 1, 1), a(12, 2, 2, 1, 1), a(131, 0, 2, 0, 1), a(41, 0, 2, 0, 1), a(51, 4, 2, 1, 1), a(15, 0, 1, 1, 1), a(12, 5, 2, 0, 1), a(11, 5, 2, 0, 1), a(35, 5, 0, 0, 1), a(4, 5, 0, 0, 2), a(12, 6, 2, 0, 1), a(1, 6, 3, 1, 1), a(35, 6, 0, 0, 1), a(4, 6, 0, 0, 1)),
			each("ZZ_C05_Raw", "arbitrary bytes after a template", nil,
				a(1, 0, 0, 3, 1), a(1, 1, 0, 4, 1), a(11, 0, 1, 2, 2), a(1, 0, 2, 3, 0), a(12, 1, 3, 4, 2), a(1, 0, 4, 3, 1), a(1, 0, 14, 3, 1), a(11, 0, 17, 3, 2), a(2, 1, 0, 4, 1), a(4, 0, 8, 3, 1), a(2, 0, 6, 3, 1), a(14, 0, 22, 2, 2), a(1, 5, 0, 3, 1), a(1, 5, 14, 4, 1), a(1, 6, 0, 3, 1), a(11, 6, 14, 3, 2)),
			each("ZZ_C05_Value", "values of n bytes around the buffer size", cov("value"), a(70, 16), a(200, 50), a(1030, 64)),
		),
		Thorough: cat(
			each("ZZ_C05", "", cov("value"), a(11, 3, 2, 1, 1), a(12, 3, 1, 1, 1), a(123, 0, 2, 1, 1), a(1, 3, 6, 1, 4), a(451, 0, 1, 1, 1)),
			each("ZZ_C05_Raw", "", nil, a(1, 3, 0, 4, 1), a(11, 0, 0, 5, 1), a(12, 0, 1, 4, 2), a(1, 0, 3, 5, 1), a(21, 0, 6, 4, 2), a(1, 3, 14, 4, 1), a(4, 3, 0, 5, 1)),
			each("ZZ_C05_Value", "", cov("value"), a(5000, 1000), a(17000, 16384), a(64, 3)),
		),
	},
	{ID: "C06",
		Quick: cat(
			each("ZZ_C06", "one get: template, n arbitrary bytes, tail", nil, a(1, 0, 4, 1, 0), a(1, 1, 4, 0, 0), a(1, 1, 3, 1, 0), a(1, 2, 3, 1, 0), a(1, 3, 4, 1, 0), a(1, 4, 3, 1, 0), a(1, 5, 3, 1, 0), a(1, 6, 3, 1, 0), a(1, 7, 3, 3, 0), a(1, 9, 3, 1, 0), a(1, 12, 3, 1, 0), a(1, 14, 4, 1, 0), a(1, 16, 4, 1, 0), a(1, 17, 4, 1, 0), a(1, 18, 4, 1, 0), a(1, 4, 2, 2, 0), a(1, 5, 2, 2, 0), a(1, 25, 3, 1, 0), a(1, 26, 3, 6, 0), a(1, 14, 6, 1, 0), a(1, 0, 5, 1, 0), a(1, 3, 5, 1, 0), a(1, 9, 5, 1, 0)),
			each("ZZ_C06", "one set, delete, version or flush", nil, a(2, 0, 4, 1, 0), a(3, 0, 4, 1, 0), a(4, 0, 4, 1, 0), a(5, 0, 4, 1, 0), a(2, 6, 3, 1, 0), a(3, 7, 3, 1, 0), a(4, 8, 4, 1, 0), a(5, 10, 4, 1, 0), a(5, 0, 3, 0, 0), a(4, 6, 3, 1, 0), a(5, 6, 3, 1, 0), a(2, 1, 3, 1, 0), a(4, 1, 3, 1, 0), a(5, 1, 3, 1, 0), a(4, 21, 3, 1, 0), a(2, 0, 6, 1, 0), a(3, 0, 6, 1, 0), a(4, 8, 5, 1, 0), a(5, 0, 6, 1, 0)),
			each("ZZ_C06", "two and three commands", nil, a(15, 15, 0, 3, 0), a(11, 15, 2, 2, 0), a(111, 15, 0, 2, 0), a(25, 15, 0, 7, 0), a(15, 6, 2, 3, 0), a(12, 0, 3, 2, 0), a(55, 0, 3, 3, 0), a(15, 4, 2, 3, 0), a(14, 7, 2, 8, 0), a(111, 1, 3, 5, 0), a(11, 23, 3, 2, 0), a(112, 3, 3, 2, 1), a(11, 1, 3, 2, 1), a(41, 8, 2, 5, 0), a(451, 20, 1, 7, 0)),
			each("ZZ_C06_Later", "n surplus arbitrary bytes", nil, a(0, 3), a(1, 3), a(2, 2), a(3, 3), a(4, 3)),
		),
		Thorough: cat(
			each("ZZ_C06", "", nil, a(1, 0, 7, 1, 0), a(1, 1, 6, 1, 0), a(1, 3, 6, 1, 0), a(1, 4, 5, 1, 0), a(1, 14, 8, 1, 0), a(1, 26, 5, 6, 0), a(11, 0, 5, 2, 0), a(2, 0, 8, 1, 0), a(3, 0, 8, 1, 0), a(4, 8, 7, 1, 0), a(5, 0, 8, 1, 0), a(15, 0, 5, 3, 0), a(111, 15, 3, 2, 0), a(1, 0, 8, 0, 0)),
			each("ZZ_C06_Later", "", nil, a(0, 5), a(1, 5), a(4, 5)),
		),
	},
	{ID: "C07",
		Quick: cat(
			each("ZZ_C07", "any position and any of 13 bad endings (error replies, unparsable replies, EOF, read error), with surplus (listed or n arbitrary bytes), one read or byte by byte, optionally with a second pipeline in flight", cov("kept", "abandoned"),
				a(1, 1, 0, 0, 0), a(12, 1, 0, 0, 1), a(12, 2, 0, 1, 0), a(212, 2, 0, 0, 1), a(3, 1, 0, 1, 1), a(1, 1, 2, 0, 0), a(11, 1, 2, 0, 1), a(112, 100, 0, 0, 0)),
			explore("ZZ_C07_Race", "two goroutines, every interleaving with the given number of preemptions, any bad reply, any of 4 surpluses", cov("abandoned"), a(-1, -1, 0, 1), a(3, -1, 1, 1), a(9, 2, 1, 2)),
		),
		Thorough: cat(
			each("ZZ_C07", "", cov("kept", "abandoned"), a(1, 1, 4, 0, 0), a(1231, 2, 0, 0, 1), a(1231, 3, 0, 1, 0), a(11, 1, 3, 1, 1), a(11111, 2, 0, 0, 1), a(3333, 2, 0, 0, 0)),
			explore("ZZ_C07_Race", "", cov("abandoned"), a(-1, -1, 0, 2), a(-1, 0, 1, 1), a(4, 4, 2, 1), a(-1, -1, 1, 1), a(-1, 1, 1, 2), a(3, 2, 2, 2)),
		),
	},
	{ID: "C08",
		Quick: cat(
			each("ZZ_C08_Faults", "pipelines one after the other; any one of the first writes fails after any number of bytes, any one of the first reads fails, any of the first dials fail, Close before any pipeline", cov("value", "error", "write failed", "read failed"),
				a(2, 3, 2, 2, 4, 4, 3, 0), a(3, 2, 1, 2, 4, 4, 2, 1), a(3, 4, 3, 2, 5, 5, 3, 1), a(2, 5, 2, 0, 5, 5, 1, 1)),
			each("ZZ_C08_Window", "n batches published before the server reacts (window full), then any of: time-out, read error, EOF, all replies, half the replies and EOF; any limit 1-9 or none", cov("value", "error", "later"), a(600, 3, 0, -1), a(300, 1, -1, -1), a(40, 2, -1, -1), a(520, 2, 500, -1)),
			each("ZZ_C08_Closed", "pipeline of n commands issued around Close, asked for in any of 3 ways", cov("closed"), a(1, 1, 0), a(5, 2, 0), a(9, 3, 0), a(8, 2, 1), a(9, 1, 1), a(250, 100, 0)),
			each("ZZ_C10", "situations at Close (see C10): every command issued before has a result", cov("closed"), a(1, 9, 2, 3, 1), a(2, 14, 3, 4, 5)),
			steps(300_000_000, each("ZZ_C08_Many", "n pipelines of m commands one after the other, batch size, limit", cov("done"), a(660, 100, 40, 130), a(3000, 2, 1, 3))),
			explore("ZZ_C08_Race", "goroutines on one connection, every interleaving with the given preemptions; any failing write, read and bad reply among the first ones, Close at any time, limit 1-3", cov("done"), a(2, 1, 1, -1, 2, 2, 2, 1, 0), a(2, 1, 1, 1, 0, 2, 0, 1, 1), a(2, 1, 1, 1, 2, 0, 0, 1, 1), a(2, 1, 1, 1, 0, 0, 2, 1, 1), a(1, 2, 1, 1, 2, 2, 2, 0, 2), a(2, 2, 1, -1, 2, 0, 0, 0, 1)),
		),
		Thorough: cat(
			each("ZZ_C08_Faults", "", cov("value", "error", "write failed", "read failed"), a(4, 4, 2, 3, 8, 8, 4, 1), a(3, 9, 2, 2, 9, 9, 3, 1), a(5, 2, 1, 1, 8, 8, 5, 1)),
			each("ZZ_C08_Window", "", cov("value", "error", "later"), a(1500, 5, 0, -1), a(700, 1, -1, -1), a(257, 1, 0, -1), a(384, 3, 0, -1), a(128, 2, -1, -1)),
			explore("ZZ_C08_Race", "", cov("done"), a(1, 3, 1, -1, 2, 2, 2, 1, 1), a(2, 1, 1, 1, 1, 1, 1, 1, 2), a(1, 2, 1, -1, 3, 3, 3, 1, 2), a(2, 1, 1, 1, 2, 2, 2, 0, 1), a(2, 2, 1, 1, 2, 2, 2, 0, 1), a(3, 1, 1, 2, 0, 1, 0, 1, 0)),
		),
	},
	{ID: "C09",
		Quick: cat(
			each("ZZ_C09", "pipelines of m commands one after the other with any pause before each; any one of the first writes and reads fails, the server falls silent at any one of the first requests, any of the first dials (the initial one included) fail", cov("value", "error", "retry"),
				a(2, 2, 2, 0, 3, 0, 2), a(3, 1, 1, 2, 2, 2, 3), a(2, 3, 1, 3, 3, 3, 2), a(2, 3, 100, 2, 3, 3, 3)),
			each("ZZ_C09_Many", "n rounds: the connection breaks, the given number of dials fail, a dial succeeds", cov("value", "error", "retry"), a(1, 60), a(40, 0), a(6, 5), a(3, 20)),
			each("ZZ_C09_Mid", "the connection breaks after any number of bytes of a reply", cov("value"), a(1, 9), a(2, 70), a(3, 2)),
			explore("ZZ_C09_Race", "goroutines issuing commands while the connection breaks and is replaced, every interleaving with the given preemptions", cov("reconnected"), a(2, 1, 2, 2, 2, 0), a(2, 1, 1, 1, 1, 1), a(1, 2, 2, 2, 2, 2)),
		),
		Thorough: cat(
			each("ZZ_C09", "", cov("value", "error", "retry"), a(4, 1, 1, 3, 3, 2, 3), a(3, 2, 1, 3, 4, 3, 4), a(3, 3, 2, 4, 0, 4, 3)),
			explore("ZZ_C09_Race", "", cov("reconnected"), a(2, 2, 2, 2, 2, 0), a(2, 1, 2, 2, 3, 1), a(2, 2, 1, 1, 1, 1), a(1, 3, 3, 3, 3, 2), a(3, 1, 2, 2, 1, 0), a(2, 1, 1, 1, 1, 2)),
		),
	},
	{ID: "C10",
		Quick: cat(
			each("ZZ_C10", "10 situations at Close (idle, used, commands in flight, silent server, reconnected, retry wait, broken, during health checks, a dial under way, commands waiting for the write limit and answered only after Close has begun), the initial dial failing or not; then n more commands and a second Close", cov("closed"), a(1, 2, 1, 1, 3), a(2, 3, 2, 2, 5), a(1, 9, 2, 3, 1), a(3, 1, 100, 0, 3), a(2, 250, 100, 500, 130)),
			explore("ZZ_C10_Race", "Close from nc goroutines against ng goroutines with m commands each; any failing write, read, dial among the first ones; health check due at any moment; every interleaving with the given preemptions", cov("closed"), a(1, 0, 0, 0, 0, 0, 1, 2), a(1, 1, 1, 2, 2, 2, 0, 0), a(1, 1, 1, 0, 2, 2, 0, 1), a(2, 1, 1, 0, 0, 0, 0, 1), a(2, 1, 1, 2, 0, 0, 1, 0), a(1, 1, 1, 0, 2, 2, 1, 1), a(2, 1, 1, 0, 2, 2, 1, 0)),
		),
		Thorough: cat(
			each("ZZ_C10", "", cov("closed"), a(1, 7, 3, 2, 9), a(4, 2, 1, 0, 7), a(1, 300, 1, 0, 10)),
			explore("ZZ_C10_Race", "", cov("closed"), a(1, 2, 1, 2, 2, 2, 0, 1), a(2, 1, 1, 0, 2, 2, 1, 1), a(1, 1, 2, 2, 2, 2, 1, 1), a(1, 1, 1, 0, 2, 2, 1, 2), a(1, 1, 1, 1, 1, 2, 0, 3), a(2, 2, 1, 0, 0, 0, 0, 1)),
		),
	},
	{ID: "C11",
		Quick: cat(
			each("ZZ_C11", "steps of: publish a pipeline of 1..n commands, release any number of held replies, break the connection; any limit", cov("within", "oversize", "complete"), a(4, 3, 2, 4, 1), a(3, 5, 2, 6, 1)),
			each("ZZ_C11", "batches of one command", cov("within", "complete"), a(3, 2, 1, 3, 0)),
			steps(300_000_000, each("ZZ_C08_Many", "n pipelines of m commands one after the other, batch size, limit", cov("done"), a(700, 100, 50, 60))),
			explore("ZZ_C11_Race", "goroutines against the limit, every interleaving with the given preemptions", cov("within", "complete"), a(2, 2, 1, 3, 1, 0), a(2, 2, 1, 2, 1, 1), a(2, 2, 2, 3, 0, 0)),
		),
		Thorough: cat(
			each("ZZ_C11", "", cov("within", "complete"), a(5, 3, 2, 5, 1), a(4, 6, 3, 9, 1), a(6, 2, 1, 3, 0)),
			explore("ZZ_C11_Race", "", cov("within", "complete"), a(2, 2, 1, 3, 1, 1), a(3, 2, 1, 2, 1, 0), a(2, 3, 1, 2, 0, 1), a(2, 2, 1, 2, 1, 2)),
		),
	},
	{ID: "C12",
		Quick: cat(
			each("ZZ_C12", "one long pipeline and shorter ones published at any moments, any limit, any number of replies per step", cov("complete", "rotation", "alternation"), a(4, 3, 1, 3, 2, 3), a(4, 3, 2, 6, 2, 3), a(5, 2, 1, 2, 2, 4)),
			each("ZZ_C12_Mixed", "continuations of nlong pipelines waiting; then any program of publishing 1, n or n+1 commands, answering 1 or n, stalled Writes", cov("complete"), a(3, 0, 2, 4), a(4, 5, 3, 4)),
		),
		Thorough: cat(
			each("ZZ_C12_Mixed", "", cov("complete"), a(5, 0, 2, 4), a(5, 6, 3, 5), a(6, 5, 3, 3)),
			each("ZZ_C12", "", cov("complete", "rotation", "alternation"), a(5, 4, 1, 4, 3, 3), a(6, 3, 1, 3, 2, 4), a(5, 3, 3, 9, 3, 3)),
		),
	},
	{ID: "C13",
		Quick: cat(
			each("ZZ_C13_Set", "set of n bytes, some arbitrary; the caller's buffer is changed or reused at any of 4 moments", cov("sent"), a(0, 0, 1), a(1, 1, 1), a(5, 5, 1), a(61, 1, 1), a(62, 3, 2), a(63, 2, 100), a(64, 2, 1), a(126, 2, 1), a(300, 3, 1), a(1022, 3, 2), a(4000, 2, 1), a(40000, 2, 1), a(65534, 1, 1), a(1048576, 1, 1)),
			each("ZZ_C13", "every history of the given number of operations (gets and sets of several sizes, batches with broken replies, releases of whole values, of halves, of foreign slices of several capacities, broken connections), server answering at once or later", cov("held", "error"), a(3, 0, 1, 8), a(2, 1, 2, 8), a(2, 2, 2, 8), a(2, 3, 1, 8), a(2, 6, 2, 8)),
			each("ZZ_C13", "the first five kinds of operation", cov("held"), a(3, 1, 1, 5), a(4, 3, 2, 3), a(2, 4, 1, 5), a(3, 6, 1, 3)),
			each("ZZ_C13_Broken", "every history of gets, gets whose connection ends anywhere in the reply, garbage replies and releases", cov("held", "error"), a(2, 0, 2), a(2, 4, 1), a(3, 1, 1)),
			each("ZZ_C13_Sent", "every history of gets, sets, sets whose write fails after some bytes, and releases, with a send buffer of the given size", cov("held", "write fails", "set fails"), a(2, 2, 2, 1, 16), a(2, 3, 2, 2, 16), a(3, 0, 1, 1, 16), a(3, 3, 2, 2, 64), a(2, 1, 1, 1, 4096)),
			each("ZZ_C13_Fast", "rounds of m MGetFast commands, results asked for in either order and once or twice, released, every pattern of failures", cov("reused"), a(2, 2, 1), a(1, 3, 2), a(2, 2, 100)),
		),
		Thorough: cat(
			each("ZZ_C13_Set", "", cov("sent"), a(16382, 3, 1), a(65534, 2, 1), a(1048574, 1, 1), a(1048575, 1, 1)),
			each("ZZ_C13", "", cov("held"), a(4, 0, 1, 5), a(3, 2, 2, 8), a(3, 3, 1, 8), a(3, 4, 1, 5), a(4, 1, 2, 4), a(1, 5, 1, 5)),
			each("ZZ_C13_Broken", "", cov("held", "error"), a(3, 3, 2), a(4, 0, 1)),
			each("ZZ_C13_Sent", "", cov("held", "write fails", "set fails"), a(4, 2, 2, 1, 16), a(3, 4, 2, 2, 16), a(3, 3, 3, 2, 100)),
			each("ZZ_C13_Fast", "", cov("reused"), a(2, 3, 2), a(3, 2, 1)),
		),
	},
	{ID: "C14",
		Quick: cat(
			explore("ZZ_C14", "goroutines x pipelines x commands on shared connections, every interleaving with the given preemptions; limit 1-3 arbitrary, values with an arbitrary byte", cov("done"), a(2, 1, 2, 1, 1, -1, 0, 1), a(2, 2, 2, 2, 1, -1, 5, 0), a(2, 1, 2, 2, 1, -1, 16, 1), a(2, 1, 3, 2, 2, 9, 6, 0)),
			raced("ZZ_C14", "the same with every pair of unordered accesses reported", cov("done"), a(2, 1, 2, 1, 1, -1, 0, 1), a(2, 2, 1, 1, 1, 1, 7, 0), a(2, 1, 2, 2, 2, 9, 6, 0), a(2, 1, 2, 2, 1, 9, 16, 1), a(2, 1, 1, 1, 1, 9, 8, 0), a(3, 1, 1, 1, 2, 9, 0, 0)),
			raced("ZZ_C08_Race", "failing writes, reads and replies, Close at any time", cov("done"), a(2, 1, 1, -1, 2, 2, 2, 1, 0)),
			raced("ZZ_C09_Race", "the connection breaks and is replaced", cov("reconnected"), a(2, 1, 2, 2, 2, 0)),
			raced("ZZ_C10_Race", "Close against commands, failures and health checks", cov("closed"), a(1, 1, 1, 0, 2, 2, 0, 1), a(2, 1, 1, 0, 0, 0, 1, 0)),
			raced("ZZ_C11_Race", "a small limit, held replies", cov("complete"), a(2, 2, 1, 2, 0, 0)),
		),
		Thorough: cat(
			explore("ZZ_C14", "", cov("done"), a(2, 2, 2, 1, 1, -1, 7, 1), a(3, 1, 2, 2, 1, 9, 16, 0), a(2, 1, 1, 1, 1, -1, 24, 2), a(2, 2, 2, 1, 2, 1, 0, 1)),
			raced("ZZ_C14", "", cov("done"), a(2, 2, 2, 1, 1, -1, 7, 0), a(2, 1, 2, 1, 1, -1, 16, 2), a(3, 1, 1, 1, 1, 9, 6, 1), a(2, 1, 1, 1, 1, 9, 24, 1)),
			raced("ZZ_C07_Race", "", cov("abandoned"), a(3, -1, 1, 1), a(-1, -1, 0, 1)),
			raced("ZZ_C08_Race", "", cov("done"), a(1, 2, 1, 1, 2, 2, 2, 1, 1), a(2, 1, 1, 1, 2, 2, 2, 0, 1)),
			raced("ZZ_C09_Race", "", cov("reconnected"), a(2, 1, 1, 1, 1, 1), a(2, 2, 2, 2, 2, 0)),
			raced("ZZ_C10_Race", "", cov("closed"), a(1, 1, 1, 0, 2, 2, 1, 1), a(2, 1, 1, 2, 0, 0, 1, 0), a(1, 1, 2, 2, 2, 2, 0, 1)),
		),
	},
	{ID: "C15",
		Quick: cat(
			each("ZZ_C15_New", "every int up to the given bound", cov("opened", "rejected"), a(4)),
			each("ZZ_C15", "n connections, health-check periods with 0..k pipelines of 1-3 commands each, empty pipelines and rejected commands in between", cov("done", "checked"), a(1, 2, 2, 0), a(2, 2, 5, 0), a(3, 2, 7, 0), a(4, 1, 9, 0), a(3, 1, 4, 300), a(7, 1, 8, 0)),
			each("ZZ_C15_Broken", "one connection not dialled, broken or silent", cov("done"), a(1, 2), a(2, 2), a(3, 2), a(4, 3)),
			explore("ZZ_C15_Race", "goroutines with two-session pipelines, every interleaving with the given preemptions", cov("done"), a(2, 1, 2, 1), a(2, 2, 3, 0)),
			[]Job{{Pkg: "memcache", Func: "ZZ_Next", Args: a(3, 5, 32, -16), Bound: "positions around 2^32", Covers: cov("done")}, {Pkg: "memcache", Func: "ZZ_Next", Args: a(2, 4, 0, 0), Bound: "every position of the rotation below 2^63", Covers: cov("done")}, {Pkg: "memcache", Func: "ZZ_Next", Args: a(4, 9, 0, 0), Bound: "every position of the rotation below 2^63", Covers: cov("done")}},
		),
		Thorough: cat(
			each("ZZ_C15_New", "", cov("opened", "rejected"), a(40)),
			each("ZZ_C15", "", cov("done", "checked"), a(2, 4, 3, 0), a(3, 3, 7, 0), a(5, 2, 11, 0), a(16, 1, 17, 0), a(3, 1, 4, 70000)),
			each("ZZ_C15_Broken", "", cov("done"), a(6, 4)),
			explore("ZZ_C15_Race", "", cov("done"), a(3, 1, 2, 0), a(2, 2, 2, 1), a(2, 1, 3, 2)),
			[]Job{{Pkg: "memcache", Func: "ZZ_Next", Args: a(8, 10, 0, 0), Bound: "every position below 2^63", Covers: cov("done")}, {Pkg: "memcache", Func: "ZZ_Next", Args: a(3, 7, 31, 64), Bound: "positions around 2^31", Covers: cov("done")}, {Pkg: "memcache", Func: "ZZ_Next", Args: a(5, 6, 16, 20), Bound: "positions around 2^16", Covers: cov("done")}, {Pkg: "memcache", Func: "ZZ_Next", Args: a(7, 3, 62, 6), Bound: "positions around 2^62", Covers: cov("done")}},
		),
	},
	{ID: "C16",
		Quick: cat(
			each("ZZ_C16", "user and password bytes arbitrary, answer STORED with arbitrary bytes from any of the given positions on, dial / write / read failure or EOF after any number of bytes, reads whole, byte by byte, with a cut or an empty read anywhere", cov("accepted", "dial", "read", "short", "write"),
				a(0, 0, 0, 0, 0, 0, 0), a(1, 1, 0, 0, 0, 0, 0), a(1, 0, 2, 3, 0, 2, 2), a(0, 2, 0, 0, 6, 2, 1), a(3, 3, 0, 0, 0, 8, 0), a(0, 0, 5, 9, 7, 3, 2), a(2, 0, 0, 100, 0, 8, 2), a(0, 3, 150, 0, 5, 5, 1), a(1, 1, 4, 4, 8, 3, 2), a(0, 0, 2, 2, 0, 0, 3), a(1, 0, 2, 3, 7, 3, 3), a(0, 1, 2, 2, 0, 2, 4)),
			each("ZZ_C16_Client", "a client whose connections are accepted, refused, cut off or broken in the handshake, in any combination, and break later", cov("value", "error", "refused"), a(1, 2), a(2, 1), a(1, 3)),
			each("ZZ_C16_Mute", "the server falls silent after any number of bytes of its answer", cov("ended"), a()),
		),
		Thorough: cat(
			each("ZZ_C16", "", cov("accepted", "dial", "read", "short", "write"), a(8, 8, 0, 0, 0, 12, 2), a(4, 4, 500, 500, 0, 8, 1), a(0, 0, 40, 1000, 2, 9, 2)),
			each("ZZ_C16_Client", "", cov("value", "error", "refused"), a(2, 2), a(1, 4), a(3, 1)),
		),
	},
	{ID: "C17",
		Quick: cat(
			each("ZZ_C17", "read and write timeouts, connections, pipelines, commands, send buffer; replies whole or in pieces; any one call setting a deadline fails, write makes no progress or request is not answered", cov("done", "set", "silent", "stuck write"), a(0, 0, 1, 2, 2, 0, 5), a(2000, 300, 1, 2, 3, 16, 6), a(50, 3000, 2, 3, 2, 16, 6), a(50, 3000, 1, 3, 5, 16, 16)),
			each("ZZ_C17_Options", "every subset of ten client options in two orders", cov("done"), a(0, 1024)),
			each("ZZ_C17_Limits", "write limit, batch size (0: default), commands", cov("done"), a(0, 0, 502), a(250, 0, 301), a(0, 7, 505), a(7, 3, 10), a(3, 5, 6)),
			each("ZZ_C17_Conn", "every sequence of the given number of writes of 5 sizes, flushes, reads and pauses on a connection, writes failing from any byte on", cov("done", "flushed", "failed"), a(4, 8, 30, 0, 0), a(3, 16, 40, 200, 3000)),
			each("ZZ_C17_Set", "", cov("read", "write"), a()),
			each("ZZ_C17_Auth", "any one call setting a deadline fails", cov("done", "failed"), a(0, 300), a(2000, 0)),
			each("ZZ_C17_TCP", "", cov("set"), a(0, 1)),
			each("ZZ_C17_TCP", "every keep-alive period up to the given seconds", cov("set", "failed"), a(1, 100000)),
			each("ZZ_C17_TCP", "the connection is closed before its keep-alive is set", cov("failed"), a(2, 1000)),
			each("ZZ_C17_Fail", "", cov("done"), a()),
			each("ZZ_C17_Stats", "", cov("done"), a(0, 0), a(2500, 10)),
		),
		Thorough: cat(
			each("ZZ_C17", "", cov("done", "set", "silent", "stuck write"), a(1000, 1000, 3, 4, 3, 0, 12), a(700, 1500, 2, 5, 2, 32, 10), a(300, 300, 1, 4, 6, 64, 24)),
			each("ZZ_C17_Conn", "", cov("done", "flushed", "failed"), a(5, 5, 40, 0, 0), a(3, 4096, 20000, 0, 0)),
			each("ZZ_C17_Limits", "", cov("done"), a(1000, 0, 1100), a(100, 40, 130), a(0, 500, 1001)),
		),
	},
	{ID: "C18",
		Quick: cat(
			each("ZZ_C18", "query, lines, line with a value of the given kind (any number in range, any number out of range, arbitrary text), class number likewise, then another query", cov("exact"),
				a(0, 2, 0, 1, 0, 1, 1), a(1, 1, 0, 1, 0, 1, 2), a(2, 1, 0, 1, 0, 1, 0), a(1, 2, 1, 0, 0, 1, 1)),
			each("ZZ_C18", "", cov("exact", "error"),
				a(0, 2, 1, 2, 0, 1, 2), a(1, 1, 0, 2, 0, 1, 1), a(2, 1, 0, 2, 0, 1, 2), a(0, 2, 1, 3, 0, 3, 1), a(1, 1, 0, 3, 0, 3, 0), a(2, 1, 0, 3, 0, 2, 1), a(1, 1, 0, 0, 2, 1, 2), a(2, 1, 0, 0, 2, 1, 2), a(1, 1, 0, 0, 3, 3, 2), a(2, 1, 0, 0, 3, 2, 1)),
			each("ZZ_C18", "any class number", cov("exact"), a(1, 1, 0, 0, 1, 1, 1), a(2, 1, 0, 0, 1, 1, 1)),
			each("ZZ_C18_All", "every statistic of several classes in several orders, three arbitrary digits each", cov("exact"), a(0, 1, 0), a(0, 1, 1), a(1, 3, 1), a(1, 4, 2), a(2, 2, 3), a(2, 3, 1), a(2, 4, 4), a(1, 3, 5), a(1, 4, 7), a(2, 2, 6), a(2, 3, 8)),
			each("ZZ_C18_Bad", "a malformed line at any place, then another query", cov("error"), a(0, 1), a(1, 2), a(2, 0), a(1, 1), a(0, 0), a(2, 2)),
			each("ZZ_C18_Cut", "connection ends or breaks after any number of bytes of the reply, read in one or two pieces", cov("cut", "exact"), a(0, 1, 1), a(2, 1, 0)),
			each("ZZ_C18_Raw", "arbitrary bytes", cov("error"), a(0, 3, 0), a(0, 3, 1), a(0, 3, 2), a(1, 3, 3), a(2, 3, 4), a(0, 3, 5)),
			each("ZZ_C18_Write", "", cov("error"), a(0), a(1), a(2)),
			each("ZZ_C18_Long", "", cov("done"), a(0, 5000), a(1, 20000), a(2, 65535), a(0, 70000)),
		),
		Thorough: cat(
			each("ZZ_C18", "", cov("exact"), a(1, 2, 0, 1, 0, 1, 2), a(1, 2, 0, 0, 1, 1, 0), a(0, 3, 1, 1, 0, 1, 2)),
			each("ZZ_C18", "", cov("exact", "error"), a(1, 2, 1, 2, 0, 1, 1), a(2, 1, 0, 3, 0, 5, 1), a(1, 1, 0, 3, 3, 4, 1), a(1, 1, 0, 2, 3, 3, 1), a(0, 3, 2, 3, 0, 5, 0)),
			each("ZZ_C18_All", "", cov("exact"), a(1, 41, 1), a(2, 39, 4), a(2, 24, 3)),
			each("ZZ_C18_Cut", "", cov("cut", "exact"), a(1, 1, 0), a(2, 2, 1), a(0, 2, 2)),
			each("ZZ_C18_Raw", "", cov("error"), a(0, 5, 0), a(0, 4, 1), a(1, 5, 3), a(2, 5, 4), a(0, 5, 5), a(1, 4, 2)),
		),
	},
	{ID: "C19",
		Quick: cat(
			each("ZZ_C19", "lines, one of them with an arbitrary field: key of arbitrary bytes in every encoding, numbers in range", cov("complete"), a(2, 1, 0, 0, 2), a(1, 0, 1, 1, 0), a(1, 0, 1, 5, 0), a(2, 1, 2, 5, 0), a(1, 0, 2, 7, 0), a(2, 0, 2, 1, 0), a(2, 1, 3, 1, 0), a(2, 0, 4, 0, 0), a(2, 1, 5, 1, 0), a(2, 1, 6, 1, 0)),
			each("ZZ_C19", "numbers out of range", cov("error"), a(2, 0, 1, 2, 0), a(2, 1, 1, 6, 0), a(2, 1, 2, 2, 0), a(2, 0, 2, 6, 0), a(3, 1, 3, 2, 0), a(2, 0, 5, 2, 0), a(2, 1, 6, 2, 0)),
			each("ZZ_C19", "arbitrary text as number", cov("error", "complete"), a(2, 0, 1, 3, 3), a(2, 1, 2, 3, 3), a(2, 1, 3, 3, 3), a(2, 0, 5, 3, 3), a(2, 1, 6, 3, 3)),
			each("ZZ_C19_Bad", "a malformed line at any place, then a dump or a query", cov("error"), a(0), a(2)),
			each("ZZ_C19_Cut", "connection ends or breaks after any number of bytes of the dump", cov("complete", "cut"), a(2, 0), a(3, 0), a(1, 1)),
			each("ZZ_C19_Raw", "arbitrary bytes", cov("error"), a(4, 0), a(3, 1), a(3, 2), a(4, 3), a(3, 4), a(3, 5), a(3, 6)),
			each("ZZ_C19_Write", "", cov("error"), a()),
			each("ZZ_C19_Many", "", cov("complete"), a(100, 10), a(40, 3000)),
		),
		Thorough: cat(
			each("ZZ_C19", "", cov("complete"), a(1, 0, 0, 0, 4), a(3, 1, 0, 0, 3)),
			each("ZZ_C19", "", cov("error", "complete"), a(1, 0, 1, 3, 6), a(1, 0, 2, 3, 6), a(1, 0, 3, 3, 6), a(1, 0, 6, 3, 6)),
			each("ZZ_C19_Cut", "", cov("complete", "cut"), a(2, 1), a(5, 0)),
			each("ZZ_C19_Raw", "", cov("error"), a(6, 0), a(5, 1), a(5, 2), a(6, 3), a(5, 4), a(5, 5)),
			each("ZZ_C19_Many", "", cov("complete"), a(2000, 100)),
		),
	},
}
