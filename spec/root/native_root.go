package gobinlog

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/Breeze0806/mysql"
)

func hxSmallCol(r *vRng) nxCol {
	switch r.Intn(4) {
	case 0:
		return nxVarcharCol(1 + r.Intn(20))
	case 1:
		return nxTimestampCol()
	}
	return nxIntCol(r, r.Intn(5))
}

func hxCol(r *vRng) nxCol {
	if r.oneIn(3) {
		return hxSmallCol(r)
	}
	return nxAnyCol(r)
}

// hxStreamOnce: one attempt; the handler gets the running number.
func hxStreamOnce(r *vRng, s *Streamer, ctx context.Context, handler func(k int, t *Transaction) error) error {
	var err error
	k := 0
	if !hxWithin(func() {
		err = s.Stream(ctx, func(t *Transaction) error {
			k++
			return handler(k-1, t)
		})
	}) {
		r.fail("C05.terminates", "Stream does not return\n%s", strings.Join(hxLibGoroutines(), "\n\n"))
	}
	return err
}

func hxNewStreamer(r *vRng, m *hxMaster, id uint32, mapper MysqlTableMapper, pos Position) *Streamer {
	s, err := NewStreamer(m.dsn(), id, mapper)
	if err != nil {
		r.fail("setup", "NewStreamer: %v", err)
	}
	s.SetBinlogPosition(pos)
	return s
}

// hxErrors calls Error() several times.
func hxErrors(r *vRng, s *Streamer) (out []error) {
	for i := r.Intn(4); i < 4; i++ {
		var e error
		if !hxWithin(func() { e = s.Error() }) {
			r.fail("C05.error", "Error() call %d does not return", i+1)
		}
		out = append(out, e)
	}
	if r.oneIn(4) {
		var wg sync.WaitGroup
		es := make([]error, 3)
		if !hxWithin(func() {
			for i := range es {
				wg.Add(1)
				go func() {
					defer wg.Done()
					es[i] = s.Error()
				}()
			}
			wg.Wait()
		}) {
			r.fail("C05.error", "concurrent Error() calls do not return")
		}
		out = append(es, out...)
	}
	return
}

// hxPlain: the whole history from one of its boundaries, end to end
func hxPlain(r *vRng, h *hxHist, label string) {
	b := h.bounds[0]
	if r.bool() {
		b = h.bounds[r.Intn(len(h.bounds))]
	}
	end := hxEOF
	if r.oneIn(4) {
		end = hxEnd
	}
	if b.tran == len(h.trans) {
		end = hxEOF
	}
	chunk := []int{0, -1, 1 + r.Intn(6000)}[r.Intn(3)]
	m := hxServe(r, h, false, func(int) hxPlan { return hxPlan{stop: -1, fault: end, chunk: chunk} })
	defer m.shutdown()
	s := hxNewStreamer(r, m, uint32(r.bits(32)), &hxMapper{h: h}, b.pos)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var why string
	n := 0
	want := len(h.trans) - b.tran
	err := hxStreamOnce(r, s, ctx, func(k int, t *Transaction) error {
		n++
		if k >= want {
			why = fmt.Sprintf("transaction %d delivered, there are only %d: %+v", k, want, *t)
			return nil
		}
		if why == "" {
			why = h.compare(t, b.tran+k)
		}
		if end == hxEnd && n >= want {
			cancel()
		}
		return nil
	})
	r.note("%v units=%d trans=%d start=%v", h.c, len(h.evs), want, b.pos)
	r.check(why == "", label+".transactions", "%s\nstart %+v\n%s", why, b.pos, h)
	r.check(err == nil || end == hxEnd, label+".error", "Stream: %v\nstart %+v\n%s", err, b.pos, h)
	if end == hxEOF {
		es := hxErrors(r, s)
		r.check(es[0] == nil, label+".error", "Error(): %v\nstart %+v\n%s", es[0], b.pos, h)
	}
	r.check(n == want, label+".complete", "%d transactions delivered, want %d\nstart %+v\n%s", n, want, b.pos, h)
}

func search_C01_C13_C15_C16_stream(r *vRng) {
	nxZone(r)
	hxPlain(r, hxHistory(r, 1+r.upto(12), hxCol), "stream")
}

func search_C02_C03_units(r *vRng) {
	hxPlain(r, hxHistory(r, 1+r.upto(40), hxSmallCol), "units")
}

// search_C03_resume: every end label is a resume point.
func search_C03_resume(r *vRng) {
	h := hxHistory(r, 2+r.upto(15), hxSmallCol)
	if len(h.trans) == 0 {
		return
	}
	m := hxServe(r, h, false, func(int) hxPlan { return hxPlan{stop: -1, fault: hxEOF} })
	defer m.shutdown()
	var labels []Position
	var why string
	s := hxNewStreamer(r, m, 7, &hxMapper{h: h}, h.bounds[0].pos)
	hxStreamOnce(r, s, context.Background(), func(k int, t *Transaction) error {
		labels = append(labels, t.NextPosition)
		return nil
	})
	r.check(len(labels) == len(h.trans), "C03.complete", "%d transactions, want %d\n%s", len(labels), len(h.trans), h)
	for k, p := range labels {
		if len(labels) > 4 && r.Intn(len(labels)) > 3 {
			continue
		}
		if h.boundAt(p.Filename, uint32(p.Offset)) == nil || p.Offset>>32 != 0 {
			r.fail("C03.resume", "the end label %+v of transaction %d is no boundary\n%s", p, k, h)
		}
		s := hxNewStreamer(r, m, 7, &hxMapper{h: h}, p)
		n := k + 1
		hxStreamOnce(r, s, context.Background(), func(_ int, t *Transaction) error {
			if n >= len(h.trans) {
				why = "too many transactions"
			} else if why == "" {
				why = h.compare(t, n)
			}
			n++
			return nil
		})
		r.check(why == "" && n == len(h.trans), "C03.resume", "resumed at %+v (after transaction %d): %s; %d of %d transactions\n%s", p, k, why, n, len(h.trans), h)
	}
	r.note("%d %v", len(labels), labels)
}

// ---- faults

type hxFault struct {
	name string
	// at the master
	plan hxPlan
	tcp  bool
	// elsewhere
	handlerErr int // refuse this offered transaction (1-based)
	mapperErr  int
	mapperLen  int
	cancel     int // see hxCancel...
	cancelAt   int
	delay      time.Duration
	slow       bool // the handler is slow
	block      bool // the handler blocks until after the stop
	lateCancel bool // the caller cancels after Stream has returned
	bad        bool // Stream must return an error
	lost       bool // Stream or Error() must return an error
	msg        string
}

const (
	hxNoCancel = iota
	hxCancelBefore
	hxCancelHandler
	hxCancelSent
	hxCancelTimer
)

var errHxHandler = errors.New("refused by the handler")

func hxInvalid(r *vRng, h *hxHist) []byte {
	ev := append([]byte{}, h.evs[r.Intn(len(h.evs))].raw...)
	switch r.Intn(7) {
	case 0:
		return ev[:r.Intn(len(ev))]
	case 1:
		return append(ev, r.bytes(1+r.Intn(30))...)
	case 2:
		return r.bytes(r.Intn(19))
	case 3:
		b := r.bytes(19 + r.Intn(60))
		if int(b[9])|int(b[10])<<8|int(b[11])<<16|int(b[12])<<24 == len(b) {
			b[9]++
		}
		return b
	case 4:
		// the length field differs in one byte
		i := 9 + r.Intn(4)
		ev[i] += byte(1 + r.Intn(255))
		return ev
	case 5:
		return ev[:min(len(ev)-1, 18)]
	}
	copy(ev[9:13], nxLE(uint64(len(ev)+1+r.Intn(5)), 4))
	return ev
}

var hxMasterErrors = []struct {
	code uint16
	msg  string
}{
	{1236, "Could not find first log file name in binary log index file"},
	{1236, "log event entry exceeded max_allowed_packet; Increase max_allowed_packet on master"},
	{1236, "A slave with the same server_uuid/server_id as this slave has connected to the master"},
	{1236, "Client requested master to start replication from position > file size"},
	{1045, "Access denied for user 'u'@'localhost' (using password: YES)"},
	{1053, "Server shutdown in progress"},
	{1158, "Got an error reading communication packets"},
	{1159, "Got timeout reading communication packets"},
	{1193, "Unknown system variable 'binlog_checksum'"},
	{1203, "User u already has more than 'max_user_connections' active connections"},
	{1220, "binlog truncated in the middle of event; consider out of disk space on master"},
	{1227, "Access denied; you need (at least one of) the REPLICATION SLAVE privilege(s) for this operation"},
	{1317, "Query execution was interrupted"},
	{1927, "Connection was killed"},
	{2013, "Lost connection to MySQL server during query"},
	{3024, "context canceled"},
	{1105, "EOF"},
	{1105, "stream reached EOF"},
	{1105, "context deadline exceeded"},
}

func hxRandomFault(r *vRng, h *hxHist, npk int, kinds []string) (f hxFault) {
	f.plan = hxPlan{stop: -1, fault: hxEOF, chunk: []int{0, 0, -1, 1 + r.Intn(3000)}[r.Intn(4)]}
	stop := r.Intn(npk + 1)
	f.name = kinds[r.Intn(len(kinds))]
	f.msg = "server says " + r.printable(1+r.Intn(20))
	f.plan.code = uint16(1000 + r.Intn(3000))
	if r.oneIn(2) { // what masters say
		switch x := hxMasterErrors[r.Intn(len(hxMasterErrors))]; {
		case f.name == "set" && r.bool():
			f.plan.code, f.msg = 1193, "Unknown system variable 'binlog_checksum'"
		default:
			f.plan.code, f.msg = x.code, x.msg
			if r.oneIn(5) {
				f.msg = ""
			}
		}
	}
	f.plan.msg = f.msg
	switch f.name {
	case "close":
		f.plan.stop, f.plan.fault, f.lost = stop, hxClose, true
	case "reset":
		f.plan.stop, f.plan.fault, f.lost, f.tcp = stop, hxReset, true, true
	case "short":
		f.plan.stop, f.plan.fault, f.lost = stop, hxShort, true
		f.plan.code = uint16(r.Intn(65536))
	case "sequence":
		f.plan.stop, f.plan.fault, f.lost = stop, hxSeq, true
	case "err":
		f.plan.stop, f.plan.fault, f.lost = stop, hxErr, true
	case "eof":
		f.plan.stop, f.plan.fault = stop, hxEOF
	case "cancel":
		f.plan.stop, f.plan.fault = stop, hxEnd
		f.cancel = 1 + r.Intn(4)
		f.cancelAt = 1 + r.Intn(len(h.trans)+1)
		f.delay = time.Duration(r.Intn(1500)) * time.Microsecond
	case "handler":
		f.handlerErr = 1 + r.Intn(len(h.trans)+1)
	case "mapper":
		f.mapperErr = 1 + r.Intn(4)
	case "columns":
		f.mapperLen = 1 + r.Intn(4)
	case "unsupported":
		typ := []byte{29, 5, 13}[r.Intn(3)]
		body := [][]byte{append([]byte{3}, "abc"...), r.bytes(9), r.bytes(16)}[r.Intn(3)]
		c := h.c
		c.alg = h.algs[0]
		c.crc = c.alg == 1
		f.plan.inject = [][]byte{c.event(nxHdr{ts: 5, server: h.server, next: uint32(r.bits(32)), typ: typ}, body, c.crc)}
		f.plan.stop, f.bad = 2+r.Intn(npk), true
		f.plan.stop = min(f.plan.stop, npk)
	case "invalid":
		bad := hxInvalid(r, h)
		if len(bad) == 0 {
			bad = []byte{1}
		}
		f.plan.inject = [][]byte{bad}
		f.plan.stop, f.bad = stop, true
	case "unknown":
		// rows of a table nothing has announced
		c := h.c
		c.alg = h.algs[0]
		c.crc = c.alg == 1
		t := nxNewTable(r, 3, hxSmallCol)
		for used := true; used; {
			t.id, used = r.bits(8*c.idSize()), false
			for _, x := range h.ids {
				used = used || x == t.id
			}
		}
		kind := r.Intn(3)
		presB, presA, rows := nxMakeRows(r, t, kind, 1)
		f.plan.inject = [][]byte{c.event(nxHdr{ts: 5, server: h.server, next: uint32(r.bits(32)), typ: c.rowsType(kind)},
			c.rowsBody(kind, t.id, 1, len(t.cols), presB, presA, rows), c.crc)}
		f.plan.stop, f.bad = min(2+r.Intn(npk), npk), true
	case "undecodable":
		f.plan.inject = hxUndecodable(r, h)
		f.plan.stop, f.bad = min(2+r.Intn(npk), npk), true
		if f.plan.inject == nil {
			f.plan.stop, f.bad = -1, false
		}
	case "denied":
		f.plan.fault, f.bad = hxDenied, true
	case "greeting":
		f.plan.fault, f.bad = hxGreet, true
	case "set":
		f.plan.fault, f.bad = hxErrSet, true
	case "hang":
		f.plan.fault = hxHangSet
		f.cancel, f.delay = hxCancelTimer, time.Duration(r.Intn(3000))*time.Microsecond
	}
	return
}

// hxUndecodable: a table map of a known table that says its columns are JSON
// documents, and an event whose rows are such documents but for one.
func hxUndecodable(r *vRng, h *hxHist) [][]byte {
	for _, a := range h.algs {
		if a != h.algs[0] {
			return nil
		}
	}
	if len(h.tables) == 0 {
		return nil
	}
	var names []string
	for n := range h.tables {
		names = append(names, n.String())
	}
	sort.Strings(names)
	name := names[r.Intn(len(names))]
	c := h.c
	c.alg = h.algs[0]
	c.crc = c.alg == 1
	var t nxTable
	for n, x := range h.tables {
		if n.String() == name {
			t = *x
		}
	}
	t.id = r.bits(8 * c.idSize())
	doc := func(typ byte) nxVal {
		return nxVal{enc: append(nxLE(3, 4), typ, 1, 0)}
	}
	n := len(t.cols)
	t.cols, t.nullable = make([]nxCol, n), make([]bool, n)
	for i := range t.cols {
		t.cols[i] = nxCol{kind: "json", typ: 245, mb: []byte{4}, meta: 4}
	}
	kind, nrows := r.Intn(3), 1+r.Intn(4)
	all := make([]bool, n)
	for i := range all {
		all[i] = true
	}
	var rows []nxRow
	bad, where, after := r.Intn(nrows), r.Intn(n), r.bool()
	for i := 0; i < nrows; i++ {
		var w nxRow
		for k := 0; k < n; k++ {
			b, a := byte(5), byte(5)
			if i == bad && k == where {
				if kind == nxWrite || kind == nxUpdate && after {
					a = 77
				} else {
					b = 77
				}
			}
			w.before = append(w.before, nxCell{v: doc(b)})
			w.after = append(w.after, nxCell{v: doc(a)})
		}
		rows = append(rows, w)
	}
	hdr := nxHdr{ts: 5, server: h.server, next: uint32(r.bits(32)), typ: 19}
	tm := c.event(hdr, c.tableMapBody(&t), c.crc)
	hdr.typ = c.rowsType(kind)
	return [][]byte{tm, c.event(hdr, c.rowsBody(kind, t.id, 1, n, all, all, rows), c.crc)}
}

// hxFaultRun: attempts with faults, then one without, on one streamer.
// Only the requirements of prop are checked.
func hxFaultRun(r *vRng, prop string, h *hxHist, kinds []string, nfaults int) {
	b := h.bounds[0]
	if r.oneIn(3) {
		b = h.bounds[r.Intn(len(h.bounds))]
	}
	pk, _ := h.packets(r, b)
	var faults []hxFault
	tcp := false
	for i := 0; i < nfaults; i++ {
		f := hxRandomFault(r, h, len(pk), kinds)
		f.slow = r.oneIn(6)
		f.lateCancel = r.oneIn(3)
		f.block = f.cancel != 0 && r.oneIn(3)
		tcp = tcp || f.tcp
		faults = append(faults, f)
	}
	lock := r.oneIn(3)
	var accepted, attempt atomic.Int64
	var over atomic.Bool
	ctxs := make([]context.Context, nfaults+1)
	cancels := make([]context.CancelFunc, nfaults+1)
	for i := range ctxs {
		ctxs[i], cancels[i] = context.WithCancel(context.Background())
		defer cancels[i]()
	}
	var m *hxMaster
	plan := func(n int) hxPlan {
		// a connection belongs to the attempt under way
		n = int(attempt.Load())
		p := hxPlan{stop: -1, fault: hxEOF}
		if n < nfaults {
			p = faults[n].plan
			if lock {
				p.gate = func(i int) bool {
					// no packet before the transactions so far have been taken
					end := time.Now().Add(300 * time.Millisecond)
					for accepted.Load() < int64(h.before(b, i)) && !over.Load() && time.Now().Before(end) {
						time.Sleep(20 * time.Microsecond)
					}
					return true
				}
			}
			if faults[n].cancel == hxCancelSent {
				g := p.gate
				p.gate = func(i int) bool {
					if g != nil {
						g(i)
					}
					if i == faults[n].cancelAt {
						cancels[n]()
					}
					return true
				}
			}
		}
		return p
	}
	m = hxServe(r, h, tcp, plan)
	defer m.shutdown()
	id := uint32(r.bits(32))
	mapper := &hxMapper{h: h}
	s := hxNewStreamer(r, m, id, mapper, b.pos)
	if prop == "C05" {
		hxErrors(r, s)
	}
	var why string
	var inside, returned atomic.Int64
	next := b.tran
	desc := func() string {
		var d []string
		for _, f := range faults {
			d = append(d, fmt.Sprintf("%s(stop %d)", f.name, f.plan.stop))
		}
		return fmt.Sprintf("start %+v, attempts %v, lock-step %v\n%s", b.pos, d, lock, h)
	}
	for n := 0; n <= nfaults; n++ {
		attempt.Store(int64(n))
		over.Store(false)
		returned.Store(0)
		var f hxFault
		if n < nfaults {
			f = faults[n]
		}
		conns := m.attempts()
		mapper.n = 0
		mapFailed := false
		mapper.fault = func(k int) (bool, bool) {
			if k == f.mapperErr || k == f.mapperLen {
				mapFailed = true
			}
			return k == f.mapperErr, k == f.mapperLen
		}
		ctx, cancel := ctxs[n], cancels[n]
		release := make(chan struct{})
		switch f.cancel {
		case hxCancelBefore:
			cancel()
		case hxCancelTimer:
			go func() {
				time.Sleep(f.delay)
				cancel()
			}()
		case hxCancelHandler, hxCancelSent:
			// in case the moment never comes
			go func() {
				select {
				case <-ctx.Done():
				case <-time.After(20 * time.Millisecond):
					cancel()
				}
			}()
		}
		if f.block {
			go func() {
				<-ctx.Done()
				time.Sleep(time.Duration(n*300) * time.Microsecond)
				close(release)
			}()
		}
		refused, blocked := false, false
		had := next
		err := hxStreamOnce(r, s, ctx, func(k int, t *Transaction) error {
			if inside.Add(1) > 1 && prop == "C05" {
				why = "two handler calls at once"
			}
			defer inside.Add(-1)
			if returned.Load() != 0 && prop == "C05" {
				why = "the handler is called after Stream has returned"
			}
			if f.cancel == hxCancelHandler && k+1 == f.cancelAt {
				cancel()
			}
			if f.block && !blocked {
				blocked = true
				<-release
			}
			if f.slow {
				time.Sleep(300 * time.Microsecond)
			}
			if k+1 == f.handlerErr {
				refused = true
				return hxUserErr(k+n+f.plan.stop, errHxHandler)
			}
			if prop == "C04" && why == "" {
				if next >= len(h.trans) {
					why = fmt.Sprintf("attempt %d: a transaction too many is delivered", n)
				} else {
					why = h.compareRest(t, next)
				}
			}
			next++
			accepted.Store(int64(next))
			return nil
		})
		returned.Store(1)
		over.Store(true)
		last := m.attempt(conns)
		if prop == "C05" {
			window := hxDialWindow(ctx, err, last)
			if window {
				closed := last == nil
				for i := 0; i < 100 && !closed; i++ {
					select {
					case <-last.closed:
						closed = true
					case <-time.After(2 * time.Millisecond):
						closed = last.eof.Load()
					}
				}
				if !closed || last == nil && len(hxLibGoroutines()) > 0 {
					hxDialLeaks.Add(1)
				}
			}
			if last != nil && !window && f.plan.fault != hxGreet && f.plan.fault != hxDenied {
				ok := hxWait(func() bool {
					select {
					case <-last.closed:
						return true
					default:
						return last.eof.Load()
					}
				})
				r.check(ok, "C05.closed", "the connection stays open after attempt %d (%s)\n%s", n, f.name, desc())
			}
			ok := hxWait(func() bool { return len(hxLibGoroutines()) == 0 })
			if !ok {
				r.fail("C05.goroutines", "goroutines stay behind after attempt %d (%s):\n%s\n%s", n, f.name, strings.Join(hxLibGoroutines(), "\n\n"), desc())
			}
		}
		r.check(why == "", prop+".handler", "%s\n%s", why, desc())
		if prop == "C04" && last != nil {
			// what the attempt asked for
			m.mu.Lock()
			dumps := append([]hxDump{}, last.dump...)
			m.mu.Unlock()
			for _, d := range dumps {
				bb := h.boundAt(d.file, d.off)
				ok := bb != nil && bb.tran == had && (had == b.tran && bb.pos == b.pos || d.off == 4 || had > 0 && bb.pos == h.trans[had-1].next)
				r.check(ok, "C04.position", "attempt %d asks for %q %d, %d transactions accepted before\n%s", n, d.file, d.off, had, desc())
			}
		}
		cancelled := ctx.Err() != nil
		if f.lateCancel {
			cancel()
		}
		var es []error
		if prop == "C05" || prop == "C06" {
			es = hxErrors(r, s)
		}
		if prop == "C06" {
			where := fmt.Sprintf("attempt %d (%s at %d, Stream: %v, Error(): %v, cancelled before the end %v)\n%s", n, f.name, f.plan.stop, err, es, cancelled, desc())
			for _, e := range es[1:] {
				r.check((e == nil) == (es[0] == nil), "C06.stable", "Error() does not keep its answer: %s", where)
			}
			if !cancelled {
				switch {
				case refused || mapFailed || f.bad:
					r.check(err != nil, "C06.returned", "Stream returns nil: %s", where)
				case f.lost:
					r.check(err != nil || es[0] != nil, "C06.reported", "the failure is reported nowhere: %s", where)
					if f.name == "err" {
						txt := fmt.Sprint(err, es[0])
						r.check(strings.Contains(txt, f.msg), "C06.message", "the master's message %q is lost: %s", f.msg, where)
					}
				default:
					r.check(err == nil && es[0] == nil, "C06.clean", "a clean end is reported as a failure: %s", where)
				}
			} else if err == nil && es[0] != nil && !f.lost && !f.bad {
				r.fail("C06.cancel", "a cancellation is reported as a failure: %s", where)
			}
		}
		if prop == "C04" && n == nfaults {
			r.check(next == len(h.trans), "C04.exactlyonce", "%d of %d transactions accepted in the end (Stream: %v)\n%s", next, len(h.trans), err, desc())
		}
	}
	r.note("%s", desc())
}

// before: transactions committed by the packets before packet i of a dump
func (h *hxHist) before(b hxBound, i int) int {
	_, idx := h.packets(nil, b)
	n := b.tran
	for k := 0; k < i && k < len(idx); k++ {
		if idx[k] < 0 {
			continue
		}
		for n < len(h.trans) && h.trans[n].ev <= idx[k] {
			n++
		}
	}
	return n
}

var hxAllFaults = []string{"close", "reset", "short", "sequence", "err", "eof", "cancel", "cancel", "handler", "handler", "mapper", "columns", "unsupported", "invalid", "unknown", "undecodable",
	"denied", "greeting", "set"}

func hxSmallHistory(r *vRng) *hxHist {
	for {
		h := hxHistory(r, 2+r.upto(10), hxSmallCol)
		if len(h.trans) > 0 {
			return h
		}
	}
}

func search_C04_faults(r *vRng) { hxFaultRun(r, "C04", hxSmallHistory(r), hxAllFaults, 1+r.Intn(3)) }
func search_C05_faults(r *vRng) {
	hxFaultRun(r, "C05", hxSmallHistory(r), append([]string{"cancel", "cancel", "hang"}, hxAllFaults...), 1+r.Intn(2))
}

// known_C05_dialwindow: the caller cancels when the driver has dialled and
// not yet begun the handshake.
func known_C05_dialwindow(r *vRng) {
	h := hxSmallHistory(r)
	m := hxServe(r, h, false, func(int) hxPlan { return hxPlan{stop: -1, fault: hxEOF} })
	defer m.shutdown()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	mysql.RegisterDialContext("hxwindow", func(c context.Context, addr string) (net.Conn, error) {
		conn, err := net.Dial("unix", addr)
		cancel()
		<-c.Done()
		return conn, err
	})
	s, _ := NewStreamer("u:p@hxwindow("+m.l.Addr().String()+")/mysql", 7, &hxMapper{h: h})
	s.SetBinlogPosition(h.bounds[0].pos)
	hxStreamOnce(r, s, ctx, func(int, *Transaction) error { return nil })
	time.Sleep(300 * time.Millisecond)
	a := m.attempt(0)
	r.check(a != nil && a.eof.Load(), "C05.dialwindow", "the connection stays open")
}

func search_C06_faults(r *vRng) { hxFaultRun(r, "C06", hxSmallHistory(r), hxAllFaults, 1) }

// search_C17_gate: a malformed packet anywhere ends the stream with an error.
func search_C17_gate(r *vRng) {
	h := hxSmallHistory(r)
	b := h.bounds[r.Intn(len(h.bounds))]
	pk, _ := h.packets(r, b)
	stop := r.Intn(len(pk) + 1)
	bad := hxInvalid(r, h)
	if len(bad) == 0 {
		bad = []byte{0}
	}
	bound := h.before(b, stop)
	n := 0
	m := hxServe(r, h, false, func(n int) hxPlan {
		if n > 0 {
			return hxPlan{stop: -1, fault: hxEOF}
		}
		return hxPlan{stop: stop, inject: [][]byte{bad}, fault: hxEOF}
	})
	defer m.shutdown()
	s := hxNewStreamer(r, m, 1, &hxMapper{h: h}, b.pos)
	var why string
	err := hxStreamOnce(r, s, context.Background(), func(k int, t *Transaction) error {
		if why == "" && b.tran+k < len(h.trans) {
			why = h.compareRest(t, b.tran+k)
		}
		n++
		return nil
	})
	where := fmt.Sprintf("malformed packet %x before packet %d\nstart %+v\n%s", bad[:min(len(bad), 40)], stop, b.pos, h)
	r.note("%s", where)
	r.check(err != nil, "C17.error", "Stream returns nil: %s", where)
	r.check(why == "" && b.tran+n == bound, "C17.partial", "%s; %d transactions delivered, want %d: %s", why, n, bound-b.tran, where)
	hxStreamOnce(r, s, context.Background(), func(k int, t *Transaction) error { return nil })
	a := m.attempt(1)
	if a == nil || !hxWait(func() bool { m.mu.Lock(); defer m.mu.Unlock(); return len(a.dump) > 0 }) {
		r.fail("C17.position", "no second dump request: %s", where)
	}
	bb := h.boundAt(a.dump[0].file, a.dump[0].off)
	r.check(bb != nil && bb.tran == bound, "C17.position", "the next dump request is for %+v: %s", a.dump[0], where)
}

// search_C07_handshake: the commands the master sees
func search_C07_handshake(r *vRng) {
	h := hxSmallHistory(r)
	b := h.bounds[r.Intn(len(h.bounds))]
	id := uint32(r.bits(32))
	nf := r.Intn(3)
	var faults []hxFault
	pk, _ := h.packets(r, b)
	for i := 0; i < nf; i++ {
		faults = append(faults, hxRandomFault(r, h, len(pk), []string{"close", "err", "eof", "handler"}))
	}
	m := hxServe(r, h, false, func(n int) hxPlan {
		if n < nf {
			return faults[n].plan
		}
		return hxPlan{stop: -1, fault: hxEOF}
	})
	defer m.shutdown()
	// positions no event starts at are asked for just the same
	pos := b.pos
	free := r.oneIn(3)
	if free {
		pos = Position{r.printable(1 + r.Intn(300)), int64(4 + uint32(r.bits(32))%(1<<32-5))}
	}
	s := hxNewStreamer(r, m, id, &hxMapper{h: h}, pos)
	for n := 0; n <= nf; n++ {
		want := pos
		hxStreamOnce(r, s, context.Background(), func(k int, t *Transaction) error {
			if n < nf && k+1 == faults[n].handlerErr {
				return errHxHandler
			}
			pos = t.NextPosition
			return nil
		})
		a := m.attempt(n)
		if a == nil {
			r.fail("C07.connects", "attempt %d does not connect", n)
		}
		hxWait(func() bool {
			select {
			case <-a.closed:
				return true
			default:
				return a.eof.Load()
			}
		})
		m.mu.Lock()
		cmds, dumps, bad := append([]string{}, a.cmds...), append([]hxDump{}, a.dump...), a.bad
		m.mu.Unlock()
		where := fmt.Sprintf("attempt %d: %q %+v %s, configured id %d, position %+v", n, cmds, dumps, bad, id, want)
		r.note("%s", where)
		r.check(bad == "" && len(dumps) == 1, "C07.once", "not exactly one dump request: %s", where)
		sum := false
		for _, c := range cmds {
			if c == "dump" {
				break
			}
			l := strings.ToLower(strings.ReplaceAll(c, " ", ""))
			if strings.HasPrefix(l, "queryset@master_binlog_checksum=") {
				sum = true
			}
		}
		r.check(sum, "C07.checksum", "no checksum announcement before the dump: %s", where)
		d := dumps[0]
		r.check(d.server == id, "C07.server", "server id %d: %s", d.server, where)
		r.check(d.flags&1 == 0, "C07.blocking", "flags %d: %s", d.flags, where)
		// a rotation target stands for the boundary before it
		same := d.file == want.Filename && int64(d.off) == want.Offset
		if !same && !free {
			x, y := h.boundAt(d.file, d.off), h.boundAt(want.Filename, uint32(want.Offset))
			same = x != nil && y != nil && x.tran == y.tran && d.off == 4
		}
		if free && n > 0 {
			same = d.file == want.Filename && int64(d.off) == want.Offset
		}
		r.check(same, "C07.position", "dump of %q %d: %s", d.file, d.off, where)
	}
}

// ---- C08

func hxCopy(t *Transaction) *Transaction {
	c := *t
	c.NowPosition.Filename = strings.Clone(t.NowPosition.Filename)
	c.NextPosition.Filename = strings.Clone(t.NextPosition.Filename)
	c.Events = nil
	for _, e := range t.Events {
		x := *e
		x.Table = MysqlTableName{strings.Clone(e.Table.DbName), strings.Clone(e.Table.TableName)}
		x.Query.SQL, x.Query.Database = strings.Clone(e.Query.SQL), strings.Clone(e.Query.Database)
		if e.Query.Charset != nil {
			cs := *e.Query.Charset
			x.Query.Charset = &cs
		}
		cp := func(rs []*RowData) (out []*RowData) {
			for _, r := range rs {
				y := &RowData{}
				for _, d := range r.Columns {
					z := *d
					z.Filed = strings.Clone(d.Filed)
					if d.Data != nil {
						z.Data = append([]byte{}, d.Data...)
					}
					y.Columns = append(y.Columns, &z)
				}
				out = append(out, y)
			}
			return
		}
		x.RowValues, x.RowIdentifies = cp(e.RowValues), cp(e.RowIdentifies)
		c.Events = append(c.Events, &x)
	}
	return &c
}

func hxSame(a, b *Transaction) string {
	if a.NowPosition != b.NowPosition || a.NextPosition != b.NextPosition || a.Timestamp != b.Timestamp || len(a.Events) != len(b.Events) {
		return "labels or number of changes differ"
	}
	for i, x := range a.Events {
		y := b.Events[i]
		if x.Type != y.Type || x.Table != y.Table || x.Query.SQL != y.Query.SQL || x.Query.Database != y.Query.Database || x.Timestamp != y.Timestamp {
			return fmt.Sprintf("change %d differs", i)
		}
		if (x.Query.Charset == nil) != (y.Query.Charset == nil) || x.Query.Charset != nil && *x.Query.Charset != *y.Query.Charset {
			return fmt.Sprintf("charset of change %d differs", i)
		}
		for k, rs := range [][]*RowData{x.RowValues, x.RowIdentifies} {
			qs := [][]*RowData{y.RowValues, y.RowIdentifies}[k]
			if len(rs) != len(qs) {
				return fmt.Sprintf("rows of change %d differ", i)
			}
			for j, r := range rs {
				if len(r.Columns) != len(qs[j].Columns) {
					return fmt.Sprintf("columns of change %d differ", i)
				}
				for c, d := range r.Columns {
					e := qs[j].Columns[c]
					if d.Filed != e.Filed || d.Type != e.Type || d.IsEmpty != e.IsEmpty || (d.Data == nil) != (e.Data == nil) || !bytes.Equal(d.Data, e.Data) {
						return fmt.Sprintf("change %d row %d column %d: %q became %q", i, j, c, nxClip(string(d.Data)), nxClip(string(e.Data)))
					}
				}
			}
		}
	}
	return ""
}

func hxData(t *Transaction) (out [][]byte) {
	for _, e := range t.Events {
		for _, rs := range [][]*RowData{e.RowIdentifies, e.RowValues} {
			for _, r := range rs {
				for _, d := range r.Columns {
					out = append(out, d.Data)
				}
			}
		}
	}
	return
}

// search_C08_stable: snapshots taken in the handler against the same objects
// later; and values overwritten by the handler.
func search_C08_stable(r *vRng) {
	if r.oneIn(3) {
		nxZone(r)
	}
	h := hxHistory(r, 2+r.upto(12), func(r *vRng) nxCol {
		if r.oneIn(3) {
			return nxTimestampCol()
		}
		return hxCol(r)
	})
	scribble := r.bool()
	chunk := []int{0, -1, 1 + r.Intn(6000)}[r.Intn(3)]
	m := hxServe(r, h, false, func(int) hxPlan { return hxPlan{stop: -1, fault: hxEOF, chunk: chunk} })
	defer m.shutdown()
	s := hxNewStreamer(r, m, 1, &hxMapper{h: h}, h.bounds[0].pos)
	var live, snap []*Transaction
	var why string
	slow := r.oneIn(3)
	hxStreamOnce(r, s, context.Background(), func(k int, t *Transaction) error {
		if k < len(h.trans) && why == "" {
			// what earlier overwriting may have spoiled
			why = h.compare(t, k)
		}
		if slow {
			time.Sleep(200 * time.Microsecond)
		}
		if scribble && why == "" {
			ds := hxData(t)
			var was [][]byte
			for _, d := range ds {
				was = append(was, append([]byte{}, d...))
			}
			for i, d := range ds {
				// within the value, and within the room append may use
				d = d[:cap(d)]
				if i%2 == 0 || true {
					d = d[:len(ds[i])]
				}
				for j := range d {
					d[j] ^= 0x5a
				}
				for j, e := range ds {
					if j <= i {
						continue
					}
					if !bytes.Equal(e, was[j]) {
						why = fmt.Sprintf("transaction %d: overwriting value %d changes value %d", k, i, j)
					}
				}
			}
		}
		live, snap = append(live, t), append(snap, hxCopy(t))
		return nil
	})
	r.note("%d transactions scribble=%v chunk=%d", len(live), scribble, chunk)
	r.check(why == "", "C08.private", "%s (values overwritten: %v)\n%s", why, scribble, h)
	for i := range live {
		if s := hxSame(snap[i], live[i]); s != "" {
			r.fail("C08.stable", "transaction %d has changed since delivery: %s\n%s", i, s, h)
		}
	}
}

// ---- C20

type hxJCol struct {
	Filed   *string          `json:"filed"`
	Type    *string          `json:"type"`
	IsEmpty *bool            `json:"isEmpty"`
	Data    *json.RawMessage `json:"data"`
}
type hxJRow struct {
	Columns []hxJCol
}
type hxJEvent struct {
	Name          *MysqlTableName `json:"name"`
	Type          *string         `json:"type"`
	Timestamp     *string         `json:"timestamp"`
	SQL           *string         `json:"sql"`
	RowValues     []hxJRow        `json:"rowValues"`
	RowIdentifies []hxJRow        `json:"rowIdentifies"`
}
type hxJTran struct {
	NowPosition  *Position  `json:"nowPosition"`
	NextPosition *Position  `json:"nextPosition"`
	Events       []hxJEvent `json:"events"`
}

var hxStmtNames = map[StatementType]string{StatementBegin: "begin", StatementCommit: "commit", StatementRollback: "rollback", StatementInsert: "insert",
	StatementUpdate: "update", StatementDelete: "delete", StatementCreate: "create", StatementAlter: "alter", StatementDrop: "drop",
	StatementTruncate: "truncate", StatementRename: "rename", StatementSet: "set"}

var hxTypeNames = map[int]string{0: "Decimal", 1: "Tiny", 2: "Short", 3: "Long", 4: "Float", 5: "Double", 6: "Null", 7: "Timestamp", 8: "LongLong", 9: "Int24",
	10: "Date", 11: "Time", 12: "DateTime", 13: "Year", 14: "NewDate", 15: "Varchar", 16: "Bit", 17: "Timestamp2", 18: "DateTime2", 19: "Time2",
	245: "JSON", 246: "NewDecimal", 247: "Enum", 248: "Set", 249: "TinyBlob", 250: "MediumBlob", 251: "LongBlob", 252: "Blob", 253: "VarString", 254: "String", 255: "Geometry"}

// hxText: what a JSON text can carry of a string
func hxText(s string) string { return strings.ToValidUTF8(strings.ToValidUTF8(s, "\ufffd"), "\ufffd") }

func hxTextEq(got, want string) bool {
	if utf8.ValidString(want) {
		return got == want
	}
	return true
}

func hxCheckJSON(r *vRng, t *Transaction) {
	b, err := json.Marshal(t)
	r.check(err == nil, "C20.succeeds", "%v", err)
	r.check(json.Valid(b), "C20.wellformed", "%q", nxClip(string(b)))
	var j hxJTran
	err = json.Unmarshal(b, &j)
	r.check(err == nil, "C20.structure", "%v: %q", err, nxClip(string(b)))
	posOK := func(g *Position, w Position) bool {
		return g != nil && g.Offset == w.Offset && hxTextEq(g.Filename, w.Filename)
	}
	r.check(posOK(j.NowPosition, t.NowPosition) && posOK(j.NextPosition, t.NextPosition), "C20.positions", "%+v: %q", *t, nxClip(string(b)))
	r.check(len(j.Events) == len(t.Events), "C20.events", "%d events, want %d", len(j.Events), len(t.Events))
	for i, e := range t.Events {
		g := j.Events[i]
		r.check(g.Name != nil && hxTextEq(g.Name.DbName, e.Table.DbName) && hxTextEq(g.Name.TableName, e.Table.TableName), "C20.table", "event %d: %+v, want %v", i, g.Name, e.Table)
		name, ok := hxStmtNames[e.Type]
		if ok {
			r.check(g.Type != nil && *g.Type == name, "C20.kind", "event %d: kind %v", i, e.Type)
		}
		if e.Query.SQL != "" {
			r.check(g.SQL != nil && hxTextEq(*g.SQL, e.Query.SQL), "C20.sql", "event %d: %q", i, e.Query.SQL)
			continue
		}
		for k, ws := range [][]*RowData{e.RowValues, e.RowIdentifies} {
			gs := [][]hxJRow{g.RowValues, g.RowIdentifies}[k]
			r.check(len(gs) == len(ws), "C20.rows", "event %d: %d rows, want %d", i, len(gs), len(ws))
			for n, w := range ws {
				r.check(len(gs[n].Columns) == len(w.Columns), "C20.columns", "event %d row %d", i, n)
				for c, d := range w.Columns {
					x := gs[n].Columns[c]
					where := fmt.Sprintf("event %d row %d column %d %+v: %s", i, n, c, *d, nxClip(string(b)))
					r.check(x.Filed != nil && hxTextEq(*x.Filed, d.Filed), "C20.name", "%s", where)
					if tn, ok := hxTypeNames[int(d.Type)]; ok {
						r.check(x.Type != nil && *x.Type == tn, "C20.type", "%s", where)
					}
					r.check(x.IsEmpty != nil && *x.IsEmpty == d.IsEmpty, "C20.absent", "%s", where)
					if d.Data == nil {
						r.check(x.Data == nil || string(*x.Data) == "null", "C20.null", "%s", where)
						continue
					}
					r.check(x.Data != nil && string(*x.Data) != "null", "C20.data", "%s", where)
					var s string
					err := json.Unmarshal(*x.Data, &s)
					r.check(err == nil && hxTextEq(s, string(d.Data)), "C20.data", "%s", where)
				}
			}
		}
	}
	// SQL NULL is rendered as null, not left out
	if bytes.Count(b, []byte(`"data"`)) < len(hxData(t)) {
		for _, e := range t.Events {
			if e.Query.SQL != "" && len(e.RowValues)+len(e.RowIdentifies) > 0 {
				return
			}
		}
		r.fail("C20.null", "a column without data member: %q", nxClip(string(b)))
	}
}

func hxWild(r *vRng) string {
	switch r.Intn(5) {
	case 0:
		return ""
	case 1:
		return string(r.bytes(r.Intn(20)))
	case 2:
		return "a\"b\\c</script>&\u2028\x00\x1f\x7f\t\n" + string(rune(0x10ffff))
	}
	return string(r.text(r.Intn(30)))
}

func search_C20_synthetic(r *vRng) {
	data := func() []byte {
		switch r.Intn(4) {
		case 0:
			return nil
		case 1:
			return []byte{}
		}
		return []byte(hxWild(r))
	}
	t := newTransactionForC20(r)
	for i, n := 0, r.Intn(5); i < n; i++ {
		e := &StreamEvent{Type: StatementType(r.Intn(14)), Table: NewMysqlTableName(hxWild(r), hxWild(r)), Timestamp: int64(r.Uint32())}
		if r.oneIn(3) {
			e.Query.SQL = hxWild(r)
			e.Query.Database = hxWild(r)
		} else {
			rows := func() (out []*RowData) {
				for k, m := 0, r.Intn(4); k < m; k++ {
					d := &RowData{}
					for c, cn := 0, r.Intn(5); c < cn; c++ {
						typ := ColumnType(r.Intn(256))
						d.Columns = append(d.Columns, &ColumnData{Filed: hxWild(r), Type: typ, IsEmpty: r.oneIn(4), Data: data()})
					}
					out = append(out, d)
				}
				return
			}
			e.RowValues, e.RowIdentifies = rows(), rows()
		}
		t.Events = append(t.Events, e)
	}
	r.note("%d events", len(t.Events))
	hxCheckJSON(r, t)
}

func newTransactionForC20(r *vRng) *Transaction {
	return &Transaction{NowPosition: Position{hxWild(r), r.Int63()}, NextPosition: Position{hxWild(r), int64(r.Uint32())}, Timestamp: int64(r.Uint32())}
}

func search_C20_stream(r *vRng) {
	h := hxHistory(r, 1+r.upto(8), hxCol)
	m := hxServe(r, h, false, func(int) hxPlan { return hxPlan{stop: -1, fault: hxEOF} })
	defer m.shutdown()
	s := hxNewStreamer(r, m, 1, &hxMapper{h: h}, h.bounds[0].pos)
	var ts []*Transaction
	hxStreamOnce(r, s, context.Background(), func(k int, t *Transaction) error {
		ts = append(ts, t)
		return nil
	})
	for _, t := range ts {
		hxCheckJSON(r, t)
	}
	r.note("%d transactions", len(ts))
}

var _ sync.Mutex
