package gobinlog

import (
	"context"
	"database/sql/driver"
	"errors"
	"io"

	"github.com/Breeze0806/gobinlog/replication"
	"github.com/Breeze0806/mysql"
)

// Contracts of the connection: handshake, dump request, packets, the reader
// goroutine, Stream and Error (C01, C03-C08).

// specConn is any connection: what it returns is unknown; what it is asked is
// recorded.
type specConn struct {
	execs, dumps, reads, closes, handled int
	query                                string
	serverID, offset                     uint32
	file                                 string
	flags                                uint16
	execErr, dumpErr, readErr, masterErr error
	packet                               []byte
	given                                []byte
}

func (c *specConn) Close() error {
	c.closes++
	return nil
}

func (c *specConn) Exec(q string) error {
	vEnsure(c.dumps == 0, "C07.checksum-before-dump")
	vEnsure(c.closes == 0, "C05.C07.use-after-close")
	c.execs++
	c.query = q
	return c.execErr
}

func (c *specConn) NoticeDump(id, off uint32, file string, flags uint16) error {
	vEnsure(c.closes == 0, "C05.C07.use-after-close")
	vEnsure(c.reads == 0, "C07.dump-before-read")
	c.dumps++
	c.serverID, c.offset, c.file, c.flags = id, off, file, flags
	return c.dumpErr
}

func (c *specConn) ReadPacket() ([]byte, error) {
	c.reads++
	if c.readErr != nil {
		return nil, c.readErr
	}
	return c.packet, nil
}

func (c *specConn) HandleErrorPacket(b []byte) error {
	c.handled++
	c.given = b
	return c.masterErr
}

func someError(name string) error {
	if vBool(name) {
		return errors.New(name)
	}
	return nil
}

// driverError: what the driver may fail with.
func driverError(name string) error {
	switch vRange(name, 0, 9) {
	case 0:
		return nil
	case 1:
		return io.EOF
	case 2:
		return io.ErrUnexpectedEOF
	case 3:
		return mysql.ErrInvalidConn
	case 4:
		return mysql.ErrMalformPkt
	case 5:
		return context.Canceled
	case 6:
		return context.DeadlineExceeded
	case 7:
		return driver.ErrBadConn
	case 8:
		return masterError(name)
	}
	return errors.New(name)
}

// masterError: an ERR packet of any number and message.
func masterError(name string) error {
	return &mysql.MySQLError{Number: uint16(vRange(name+"-number", 0, 65535)), Message: string(vBytes(name + "-message"))}
}

// readError: what readBinlogEvent fails with.
func readError(name string) *Error {
	if vBool(name + "-eof") {
		return newError(errStreamEOF).msgf("end")
	}
	e := driverError(name)
	vAssume(e != nil)
	return newError(e).msgf("read")
}

// carries: the error is about the cause, itself or in its text.
func carries(e *Error, cause error) bool {
	return vOr(e.Original() == cause, vHas(e.Error(), cause.Error()))
}

// A packet becomes an event with a private copy of its bytes, or the error it
// stands for.
func prove_C06_C08_C01_C17_packet() {
	c := &specConn{readErr: driverError("read"), masterErr: masterError("master")}
	if vBool("malformed") {
		c.masterErr = mysql.ErrMalformPkt // an ERR packet that is none
	}
	c.packet = vBytes("packet")
	vAssume(len(c.packet) > 0) // the driver returns no empty packet
	s := &slaveConnection{dc: c, errChan: make(chan *Error, 1)}
	raw := string(c.packet)
	ev, err := s.readBinlogEvent()
	vEnsure(vEqB(c.packet, []byte(raw)), "C08.C01.driver-buffer-intact")
	vEnsure(c.reads == 1, "C01.one-packet-per-event")
	if c.readErr != nil {
		vCover("lost")
		vEnsure(err != nil, "C06.lost-connection-reported")
		vEnsure(carries(err, c.readErr), "C06.lost-connection-cause")
		return
	}
	switch c.packet[0] {
	case 0xfe:
		vCover("EOF")
		vEnsure(err != nil, "C06.eof")
		vEnsure(err.Original() == errStreamEOF, "C06.eof-is-eof")
	case 0xff:
		vCover("ERR")
		vEnsure(err != nil, "C06.master-error-reported")
		vEnsure(vAnd(c.handled == 1, vEqB(c.given, c.packet)), "C06.master-error-decoded")
		vEnsure(carries(err, c.masterErr), "C06.master-error-cause")
	default:
		vCover("event")
		vEnsure(err == nil, "C01.C06.no-spurious-failure")
		b := ev.Bytes()
		vEnsure(vEqB(b, c.packet[1:]), "C01.C17.bytes-of-the-event")
		vEnsure(!vSameBase(b, c.packet), "C08.private-copy")
	}
}

// newSlaveConnection asks for checksums before anything else, and does not
// leave a connection behind when that fails.
func prove_C05_C06_C07_connect() {
	c := &specConn{execErr: driverError("exec")}
	dialErr := driverError("dial")
	dials := 0
	s, err := newSlaveConnection(func() (dumpConn, error) {
		dials++
		if dialErr != nil {
			return nil, dialErr
		}
		return c, nil
	})
	vEnsure(dials == 1, "C05.C07.one-connection")
	if dialErr != nil {
		vCover("dial")
		vEnsure(err != nil, "C06.dial-failure-reported")
		vEnsure(carries(err, dialErr), "C06.dial-failure-cause")
		return
	}
	vEnsure(c.execs == 1, "C07.checksum-announced")
	vEnsure(vEqS(c.query, "SET @master_binlog_checksum=@@global.binlog_checksum"), "C07.checksum-statement")
	if c.execErr != nil {
		vCover("exec")
		vEnsure(err != nil, "C06.exec-failure-reported")
		vEnsure(carries(err, c.execErr), "C06.exec-failure-cause")
		vEnsure(c.closes == 1, "C05.closed-after-failure")
		return
	}
	vCover("connected")
	vEnsure(err == nil, "C06.C07.no-spurious-failure")
	vEnsure(vAnd(s.dc == dumpConn(c), c.closes == 0), "C05.C07.connection-kept")
	n, closed := vChanState(s.errChan)
	vEnsure(vAnd(n == 0, !closed, cap(s.errChan) >= 1), "C05.room-for-the-exit-reason")
	s.close()
	vEnsure(c.closes == 1, "C05.close-closes")
	s.close()
	vEnsure(c.closes == 1, "C05.closes-once")
}

// readerState: the reader goroutine against any environment.
type readerState struct {
	fresh     bool // nothing read in this iteration yet
	before    bool // the context was cancelled when the packet was read
	cancelled bool
	ready     bool // the parser takes the event
	ev        replication.BinlogEvent
	err       *Error
	given     bool
	reason    *Error
	flag      bool // its beforeCancel when it was published
	reasons   int
	ended     <-chan replication.BinlogEvent
}

type readerCtx struct {
	specCtx
	g *readerState
}

func (c *readerCtx) Err() error {
	c.g.step()
	if c.g.cancelled {
		return context.Canceled
	}
	return nil
}

// step: the context may be cancelled at any time.
func (g *readerState) step() {
	if !g.cancelled {
		g.cancelled = vBool("cancelledMeanwhile")
	}
}

// The reader hands over every event once and in order; when it ends it has
// published exactly one reason before the parser can see the end, and it never
// waits for something that may not come: the parser receives until it ends the
// context (contract of Stream).
func prove_C01_C05_C06_C07_reader() {
	c := &specConn{dumpErr: driverError("dump")}
	s := &slaveConnection{dc: c, errChan: make(chan *Error, 1)}
	g := &readerState{}
	ctx := &readerCtx{specCtx{done: make(chan struct{})}, g}
	vCanRecv(ctx.done, func() bool { return g.cancelled })
	vOnRecv(ctx.done, func() (struct{}, bool) { return struct{}{}, false })
	vCanSend(s.errChan, func() bool { return g.reasons == 0 })
	vOnSend(s.errChan, func(e *Error) {
		n, closed := vChanState(g.ended)
		vEnsure(vAnd(n == 0, !closed), "C06.reason-published-before-the-end")
		g.reasons++
		g.reason = e
		g.flag = e.beforeCancel // whoever receives the reason sees it as it is now
	})
	id, pos := vU32("serverID"), Position{Filename: vInjS("file", vInt("file")), Offset: int64(vU32("offset"))}
	events, err := s.startDumpFromBinlogPosition(ctx, id, pos)
	vEnsure(c.dumps == 1, "C07.one-dump-request")
	vEnsure(vAnd(c.serverID == id, c.offset == uint32(pos.Offset), vEqS(c.file, pos.Filename)), "C07.dump-arguments")
	vEnsure(c.flags == 0, "C07.blocking-dump")
	vEnsure(vAnd(c.execs == 0, c.closes == 0), "C07.nothing-else")
	if c.dumpErr != nil {
		vCover("dump failed")
		vEnsure(err != nil, "C06.dump-failure-reported")
		vEnsure(carries(err, c.dumpErr), "C06.dump-failure-cause")
		vEnsure(vSpawned() == 0, "C05.no-reader-after-failure")
		return
	}
	vEnsure(err == nil, "C06.C07.no-spurious-failure")
	vEnsure(vSpawned() == 1, "C05.one-reader")
	n, closed := vChanState(events)
	vEnsure(vAnd(n == 0, !closed), "C01.channel-open")
	vCanSend(events, func() bool { return g.ready })
	vOnSend(events, func(ev replication.BinlogEvent) {
		vEnsure(g.ev != nil, "C01.event-was-read")
		vEnsure(vAnd(!g.given, g.reasons == 0), "C01.event-once")
		vEnsure(vSameRef(ev, g.ev), "C01.event-in-order")
		g.given = true
	})
	vUse("(*slaveConnection).readBinlogEvent", func(x *slaveConnection) (replication.BinlogEvent, *Error) {
		vEnsure(g.fresh, "C01.one-event-at-a-time")
		vEnsure(g.reasons == 0, "C05.C06.no-read-after-the-end")
		g.fresh = false
		g.cancelled = vBool("cancelledAtRead")
		g.before = g.cancelled
		if vBool("failure") {
			g.err = readError("reason")
			return nil, g.err
		}
		g.ev = replication.NewMysql56BinlogEvent(vBytes("event"))
		g.step()
		g.ready = vBool("ready")
		vAssume(vOr(g.ready, g.cancelled))
		return g.ev, nil
	})
	vLoop("*", 0, func() {
		n, closed := vChanState(s.errChan)
		m, ended := vChanState(events)
		switch vMode() {
		case 1:
			vEnsure(vAnd(n == 0, !closed, m == 0, !ended), "C05.C06.reader-starts-open")
			*g = readerState{fresh: true, ended: g.ended}
		case 2:
			*g = readerState{fresh: true, ended: g.ended}
		case 3:
			vCover("next")
			vEnsure(vAnd(n == 0, !closed, m == 0, !ended), "C05.C06.reader-open")
			vEnsure(vAnd(!g.fresh, g.err == nil, g.reasons == 0), "C06.C05.failure-ends-the-reader")
			vEnsure(g.given, "C01.event-handed-over")
		}
	})
	g.ended = events
	vRunSpawned(0)
	vCover("reader ended")
	vEnsure(g.reasons == 1, "C05.C06.one-reason")
	_, closed = vChanState(s.errChan)
	vEnsure(closed, "C05.reason-channel-closed")
	_, closed = vChanState(events)
	vEnsure(closed, "C05.event-channel-closed")
	vEnsure(!g.given, "C01.C05.event-then-end")
	if g.err != nil {
		vCover("failure")
		vEnsure(vSameRef(g.reason, g.err), "C06.reason-is-the-failure")
		vEnsure(vImp(g.flag, !g.before), "C06.cancelled-before")
		vEnsure(vImp(!g.flag, g.cancelled), "C06.not-hidden-by-a-later-cancel")
	} else {
		vCover("cancelled")
		vEnsure(g.cancelled, "C05.C06.ends-only-for-a-reason")
		vEnsure(g.reason.Original() == context.Canceled, "C06.reason-is-cancellation")
	}
}

// ---- Stream

type streamState struct {
	s          *Streamer
	user       *specCtx
	child      *specCtx
	conn       *slaveConnection
	start      Position
	parsed     Position
	handler    SendTransactionFunc
	handed     *Transaction
	events     chan replication.BinlogEvent
	dials      int
	connects   int
	dumps      int
	parses     int
	closes     int
	cancels    int
	drained    bool
	failed     bool
	connErr    *Error
	dumpErr    *Error
	parseErr   *Error
	handlerErr error
}

var specStream *streamState

//model:context.WithCancel
func vmodel_WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	g := specStream
	c := &specCtx{done: make(chan struct{})}
	vEnsure(vSameRef(parent, context.Context(g.user)), "C05.context-of-the-caller")
	g.child = c
	return c, func() { g.cancels, c.ended = g.cancels+1, true }
}

// never: a context that does not end.
var never = &specCtx{}

//model:context.Background
func vmodel_Background() context.Context { return never }

//model:context.TODO
func vmodel_TODO() context.Context { return never }

// watched: ends when the caller's context ends, and when Stream ends.
func (g *streamState) watched(ctx context.Context) bool {
	if g.child == nil {
		return false
	}
	return vSameRef(ctx, context.Context(g.child))
}

func (g *streamState) pos() Position { return g.s.nowPos.Load().(Position) }

func prove_C03_C04_C05_C06_C07_stream() {
	g := &streamState{events: make(chan replication.BinlogEvent)}
	specStream = g
	g.user = &specCtx{done: make(chan struct{})}
	g.start = Position{Filename: vInjS("file", vInt("file")), Offset: vI64("offset")}
	g.parsed = Position{Filename: vInjS("file", vInt("parsedFile")), Offset: vI64("parsedOffset")}
	dsn, id := vInjS("dsn", vInt("dsn")), vU32("serverID")
	// whatever an earlier attempt left behind
	s, bad := NewStreamer(dsn, id, &specMapper{})
	vEnsure(bad == nil, "C07.streamer")
	if vBool("usedBefore") {
		s.errChan, s.streamErr = make(chan *Error), errors.New("old")
		s.sendTransaction = func(*Transaction) error { vUnreachable("C01.C05.handler-of-an-earlier-call"); return nil }
	}
	g.s = s
	s.SetBinlogPosition(g.start)
	g.handler = func(t *Transaction) error {
		g.handed = t
		return g.handlerErr
	}
	vUse("@github.com/Breeze0806/mysql.NewDumpConn", func(d string, ctx context.Context) (*mysql.DumpConn, error) {
		g.dials++
		vEnsure(vEqS(d, dsn), "C07.connects-to-the-dsn")
		vEnsure(g.watched(ctx), "C05.connection-watched")
		if vBool("dial") {
			return nil, errors.New("dial")
		}
		return &mysql.DumpConn{}, nil
	})
	vUse("newSlaveConnection", func(dial func() (dumpConn, error)) (*slaveConnection, *Error) {
		g.connects++
		dc, err := dial()
		if err != nil {
			vEnsure(err.Error() == "dial", "C06.dial-cause")
			g.failed = true
			g.connErr = newError(err)
			return nil, g.connErr
		}
		vEnsure(dc != nil, "C05.C07.connection")
		w, ok := dc.(*watchedConn)
		vEnsure(ok, "C05.connection-watched")
		vEnsure(g.watched(w.ctx), "C05.connection-watched")
		if vBool("connect") {
			g.failed = true
			g.connErr = newError(masterError("connect"))
			return nil, g.connErr
		}
		g.conn = &slaveConnection{dc: dc, errChan: make(chan *Error, 1)}
		return g.conn, nil
	})
	vUse("(*slaveConnection).close", func(c *slaveConnection) {
		vEnsure(vSameRef(c, g.conn), "C05.closes-its-connection")
		vEnsure(vImp(vAnd(g.dumps > 0, g.dumpErr == nil), g.drained), "C05.no-close-under-the-reader")
		g.closes++
	})
	vUse("(*slaveConnection).startDumpFromBinlogPosition", func(c *slaveConnection, ctx context.Context, serverID uint32, pos Position) (<-chan replication.BinlogEvent, *Error) {
		g.dumps++
		vEnsure(vAnd(g.closes == 0, g.cancels == 0), "C05.C07.dump-on-a-live-connection")
		vEnsure(vSameRef(c, g.conn), "C07.dump-on-the-connection")
		vEnsure(g.watched(ctx), "C05.reader-watched")
		vEnsure(serverID == id, "C07.server-id")
		vEnsure(vSame(pos, g.start), "C03.C04.C07.dump-from-the-position")
		if vBool("dump") {
			g.failed = true
			g.dumpErr = newError(masterError("dump"))
			return nil, g.dumpErr
		}
		return g.events, nil
	})
	vUse("(*Streamer).parseEvents", func(x *Streamer, ctx context.Context, events <-chan replication.BinlogEvent) (Position, *Error) {
		g.parses++
		vEnsure(vAnd(g.closes == 0, g.cancels == 0), "C05.parse-on-a-live-connection")
		vEnsure(g.watched(ctx), "C05.parser-watched")
		vEnsure(vAnd(vSameRef(x, s), vSameRef(events, (<-chan replication.BinlogEvent)(g.events))), "C01.events-of-the-dump")
		vEnsure(vSame(g.pos(), g.start), "C03.C04.parse-from-the-position")
		if vBool("handler") {
			g.handlerErr = userError("handler")
		}
		t := &Transaction{}
		err := x.sendTransaction(t)
		vEnsure(vAnd(vSameRef(g.handed, t), err == g.handlerErr), "C01.C05.handler-of-the-call")
		if vBool("parse") {
			g.failed = true
			g.parseErr = newError(errors.New("parse"))
			return g.parsed, g.parseErr
		}
		return g.parsed, nil
	})
	vOnRecv(g.events, func() (replication.BinlogEvent, bool) {
		vEnsure(vAnd(g.parses > 0, g.cancels > 0), "C05.waits-for-the-reader-only-after-ending-it")
		if vBool("another") {
			return replication.NewMysql56BinlogEvent(nil), true
		}
		g.drained = true
		return nil, false
	})
	vLoop("*", 0, func() {})
	err := s.Stream(g.user, g.handler)
	vCover("stream")
	vEnsure(vSpawned() == 0, "C05.no-goroutine")
	vEnsure(vAnd(g.connects == 1, g.dials == 1), "C05.C07.one-connection")
	vEnsure((err != nil) == g.failed, "C06.failure-reported")
	vEnsure(vImp(g.child != nil, g.cancels > 0), "C05.cancelled-at-the-end")
	vEnsure(s.ctx == context.Context(g.user), "C06.context-of-the-caller")
	vEnsure(s.streamErr == nil, "C06.old-reason-forgotten")
	if g.connErr != nil {
		vCover("not connected")
		vEnsure(vAnd(g.dumps == 0, g.closes == 0), "C07.no-dump")
		vEnsure(vSame(g.pos(), g.start), "C04.position-kept")
		vEnsure(s.errChan == nil, "C05.C06.no-reason-to-wait-for")
		return
	}
	vEnsure(g.closes == 1, "C05.connection-closed")
	vEnsure(g.dumps == 1, "C07.one-dump-request")
	if g.dumpErr != nil {
		vCover("no dump")
		vEnsure(g.parses == 0, "C05.no-parse-without-dump")
		vEnsure(vSame(g.pos(), g.start), "C04.position-kept")
		vEnsure(s.errChan == nil, "C05.C06.no-reason-to-wait-for")
		return
	}
	vCover("parsed")
	vEnsure(g.parses == 1, "C05.one-parse")
	vEnsure(vSame(g.pos(), g.parsed), "C04.C03.position-stored")
	vEnsure(vSameRef(s.errChan, (<-chan *Error)(g.conn.errChan)), "C06.reason-of-the-reader")
	vEnsure(g.drained, "C05.C06.reader-gone")
}

// ---- Error

type errCtx struct {
	specCtx
	err error
}

func (c *errCtx) Err() error { return c.err }

// Error after Stream: the reader has published its reason and closed the
// channel (contract of the reader), or there was no reader.
func prove_C05_C06_error() {
	ctx := &errCtx{}
	switch vEnum("context", 0, 2) {
	case 1:
		ctx.err = context.Canceled
	case 2:
		ctx.err = context.DeadlineExceeded
	}
	s := &Streamer{ctx: ctx}
	if vBool("noReader") {
		vCover("no reader")
		vEnsure(s.Error() == nil, "C06.no-reason")
		return
	}
	cause := driverError("cause")
	if cause == nil {
		cause = errStreamEOF
	}
	e := newError(cause).msgf("while reading")
	e.beforeCancel = vBool("beforeCancel")
	c := make(chan *Error, 1)
	c <- e
	close(c)
	s.errChan = c
	clean := vOr(cause == errStreamEOF, cause == context.Canceled, vAnd(ctx.err == context.Canceled, !e.beforeCancel))
	for i := 0; i < 2; i++ {
		vCover("reason")
		got := s.Error()
		if clean {
			vEnsure(got == nil, "C06.clean-end-is-nil")
		} else {
			vEnsure(got != nil, "C06.reason-reported")
			vEnsure(vHas(got.Error(), cause.Error()), "C06.reason-carried")
			if x, ok := got.(*Error); ok {
				vEnsure(x.Original() == cause, "C06.reason-carried")
			}
		}
	}
}

// ---- watchedConn

// Exec asks the driver to watch the stream's context and leaves the watcher in
// place.
func prove_C05_C07_watched() {
	ctx := &specCtx{done: make(chan struct{})}
	c := &watchedConn{DumpConn: &mysql.DumpConn{}, ctx: ctx}
	q := vInjS("query", vInt("query"))
	want := someError("query")
	n := 0
	vUse("@(*github.com/Breeze0806/mysql.mysqlConn).QueryContext", func(x interface{}, cx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
		n++
		vEnsure(vSameRef(cx, context.Context(ctx)), "C05.C07.watched")
		vEnsure(vAnd(vEqS(query, q), len(args) == 0), "C07.statement")
		return nil, want
	})
	vUse("@(*github.com/Breeze0806/mysql.DumpConn).Exec", func(x interface{}, query string) error { return want }) // not watched
	err := c.Exec(q)
	vCover("exec")
	vEnsure(n == 1, "C05.C07.statement-once")
	vEnsure(err == want, "C06.C07.failure-passed-on")
}
