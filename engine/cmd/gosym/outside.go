package main

// outside says, per property, what the bounded runs leave out.
var outside = map[string][]string{
	"C01": {"pipelines longer than 1000 commands, values longer than 1 MiB + 1", "more than 2 arbitrary key bytes and 12 arbitrary value bytes at once (the others are patterned)", "several goroutines using one pipeline (not allowed by the API)"},
	"C02": {"keys longer than 300 bytes", "more than 5 arbitrary bytes at once through the whole client (validateKeyFormat itself is decided for every key of 6, 250 and 251 bytes)"},
	"C03": {"values longer than 2 MB, messages and versions longer than 8 arbitrary bytes", "more than 4 flags in one reply", "replies with flags the client never asks for and does not name (s, k, O, b, ..)"},
	"C04": {"more than 4 commands with every mix, more than 7 steps on shared pipelines (longer pipelines: one mix each)"},
	"C05": {"more than one arbitrary cut of a stream besides byte-by-byte, every small buffer and the listed pieces", "more than 5 arbitrary bytes"},
	"C06": {"more than 8 arbitrary bytes besides the listed templates and tails", "batches of more than 3 commands with arbitrary bytes"},
	"C07": {"more than 4 surplus arbitrary bytes", "more than 2 preemptions, more than 2 goroutines"},
	"C08": {"more than one failing write and one failing read of one run (dials: any subset)", "more than 2 preemptions, 3 goroutines", "a write limit saturated for ever by a stream of other pipelines (pinned by the existing tests)", "servers that keep a connection busy by sending an endless reply byte by byte"},
	"C09": {"more than one failing write, read and silent request of one run (dials: any subset)", "more than 2 preemptions"},
	"C10": {"more than 3 preemptions, 2 concurrent Closes", "a dial function or error logger that never returns"},
	"C11": {"more than 6 steps with arbitrary replies, limits above 9", "more than 2 preemptions"},
	"C12": {"more than 6 steps, pipelines longer than 4 batches, limits above 9", "goroutine interleavings (the publishing order is what the property speaks about); a limit smaller than a batch that other pipelines keep saturated"},
	"C13": {"histories of more than 4 operations", "sync.Pool contents dropped by a garbage collection (New is then called, which the empty-pool case covers)"},
	"C14": {"more than 2 preemptions, 3 goroutines, 3 commands", "several goroutines using one pipeline (not allowed by the API)"},
	"C15": {"more than 16 connections through the whole client", "positions of the rotation above 2^63"},
	"C16": {"more than 8 arbitrary bytes each of user, password and answer"},
	"C17": {"more than one failing operation of one run", "the kernel's handling of deadlines and keep-alive"},
	"C18": {"more than 5 arbitrary bytes of text, replies of more than 3 lines with arbitrary numbers (whole replies: three arbitrary digits each)", "lines longer than 64 KiB give an error, the query's own limit"},
	"C19": {"more than 6 arbitrary bytes of text, more than one arbitrary field of a dump", "lines longer than 64 KiB give an error, the query's own limit"},
}
