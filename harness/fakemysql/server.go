// Package fakemysql is an in-process server that speaks enough of the MySQL
// wire protocol for square/finch's driver. It keeps a global, totally ordered
// event log of everything every connection asked for and was told, and lets a
// script decide every reply (rows, insert ids, errors, delays, dropped
// connections). It is the observation point and the fault injector of the
// end-to-end monitors.
package fakemysql

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"strings"
	"sync"
	"time"
)

// Event is one observed statement (or session event) on one connection.
type Event struct {
	Seq    int64         // order in which the server received the request
	Done   int64         // order in which the server sent the reply (same counter)
	At     time.Duration // arrival, since the server started
	DoneAt time.Duration // when the reply was sent
	Conn   int           // connection number, 1..N in order of accept
	Kind   string        // connect, query, prepare, execute, stmtclose, ping, quit, initdb, reset, disconnect
	SQL    string        // query text, or text of the prepared statement
	Args   []interface{} // execute: bound values
	Stmt   uint32        // prepare/execute/stmtclose: statement id
	Reply  Reply
	User   string // connect
	DB     string // connect/initdb
	Auth   []byte // connect: auth response
	Salt   []byte // connect
	TLS    bool   // connect: the connection is encrypted
	Cert   string // connect: common name of the client certificate
}

// Reply is what the server sent.
type Reply struct {
	ErrCode   uint16
	ErrMsg    string
	Drop      bool   // close the connection without reply
	DropAfter bool   // send the reply, then close the connection
	CutRows   int    // >0: with rows, drop the connection after sending CutRows-1 rows
	RowsErr   uint16 // with rows: after the rows, send an ERR packet instead of EOF
	Cols      []Col
	Rows      [][]interface{} // int64, float64, string, []byte, nil
	Affected  uint64
	InsertID  uint64
	Delay     time.Duration
}

// Col is a result set column.
type Col struct {
	Name string
	Type byte // 8 = bigint, 253 = varchar, 5 = double
}

const (
	TInt    = byte(8)
	TStr    = byte(253)
	TDouble = byte(5)

	TTimestamp = byte(7)
	TDate      = byte(10)
	TDatetime  = byte(12)
	TDecimal   = byte(246)
)

func (r Reply) IsErr() bool { return r.ErrCode != 0 || r.Drop }

// Handler decides the reply for one query/prepare/execute. It may block.
type Handler func(s *Server, ev *Event) Reply

type Server struct {
	Addr    string
	Handler Handler
	// RejectConn, if set, decides whether to refuse a connection (by number):
	// 0 accept, 1 close the socket at once, 2 ERR 1040.
	RejectConn func(n int) int

	// TLS, if set, lets clients encrypt the connection.
	TLS *tls.Config

	// Max bounds the log. A client that sends more is never answered again,
	// and Over is closed.
	Max  int
	Over chan struct{}

	ln      net.Listener
	t0      time.Time
	mu      sync.Mutex
	seq     int64
	events  []*Event
	nconn   int
	open    map[int]net.Conn
	maxOpen int
	wg      sync.WaitGroup
	closed  bool
	stop    chan struct{}
}

func New(h Handler) (*Server, error) { return Listen("tcp", "127.0.0.1:0", h) }

func Listen(network, addr string, h Handler) (*Server, error) {
	ln, err := net.Listen(network, addr)
	if err != nil {
		return nil, err
	}
	s := &Server{Addr: ln.Addr().String(), Handler: h, Max: 200000, Over: make(chan struct{}), ln: ln, t0: time.Now(), open: map[int]net.Conn{}, stop: make(chan struct{})}
	go s.accept()
	return s, nil
}

func (s *Server) Close() {
	s.mu.Lock()
	if !s.closed {
		close(s.stop)
	}
	s.closed = true
	s.ln.Close()
	for _, c := range s.open {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

// delay waits before a reply, but not after the server was closed.
func (s *Server) delay(d time.Duration) {
	select {
	case <-time.After(d):
	case <-s.stop:
	}
}

// Events returns a snapshot of the log in arrival order.
func (s *Server) Events() []Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := make([]Event, len(s.events))
	for i, e := range s.events {
		out[i] = *e
	}
	return out
}

// N returns the number of events logged so far.
func (s *Server) N() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.events)
}

// Since returns the time since the server was started (the clock of Event.At).
func (s *Server) Since() time.Duration { return time.Since(s.t0) }

// KillConn closes the socket of connection n.
func (s *Server) KillConn(n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if c := s.open[n]; c != nil {
		c.Close()
	}
}

func (s *Server) accept() {
	for {
		c, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.closed {
			s.mu.Unlock()
			c.Close()
			return
		}
		s.nconn++
		n := s.nconn
		rej := 0
		if s.RejectConn != nil {
			rej = s.RejectConn(n)
		}
		if rej == 0 {
			s.open[n] = c
			s.wg.Add(1)
		}
		s.mu.Unlock()
		if rej == 1 {
			c.Close()
			continue
		}
		if rej == 2 {
			p := &conn{s: s, c: c, r: bufio.NewReader(c)}
			p.writeErr(1040, "Too many connections")
			c.Close()
			continue
		}
		go func() {
			defer s.wg.Done()
			defer func() {
				s.mu.Lock()
				delete(s.open, n)
				s.mu.Unlock()
				c.Close()
			}()
			if t, ok := c.(*net.TCPConn); ok {
				t.SetNoDelay(true)
			}
			p := &conn{s: s, c: c, r: bufio.NewReader(c), n: n, stmts: map[uint32]string{}}
			p.serve()
			s.finish(s.begin(&Event{Conn: n, Kind: "disconnect"}), Reply{})
		}()
	}
}

func (s *Server) begin(e *Event) *Event {
	s.mu.Lock()
	s.seq++
	e.Seq = s.seq
	e.At = time.Since(s.t0)
	if s.Max > 0 && len(s.events) >= s.Max {
		select {
		case <-s.Over:
		default:
			close(s.Over)
		}
		s.mu.Unlock()
		<-s.stop
		return e
	}
	s.events = append(s.events, e)
	s.mu.Unlock()
	return e
}

func (s *Server) finish(e *Event, r Reply) {
	s.mu.Lock()
	s.seq++
	e.Done = s.seq
	e.DoneAt = time.Since(s.t0)
	e.Reply = r
	s.mu.Unlock()
}

// bufConn reads what was buffered first.
type bufConn struct {
	net.Conn
	r *bufio.Reader
}

func (b bufConn) Read(p []byte) (int, error) { return b.r.Read(p) }

type conn struct {
	s     *Server
	c     net.Conn
	r     *bufio.Reader
	n     int
	seq   byte
	stmts map[uint32]string
	next  uint32
}

func (p *conn) readPacket() ([]byte, error) {
	var out []byte
	for {
		var h [4]byte
		if _, err := io.ReadFull(p.r, h[:]); err != nil {
			return nil, err
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		p.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(p.r, b); err != nil {
			return nil, err
		}
		out = append(out, b...)
		if n < 0xffffff {
			return out, nil
		}
	}
}

func (p *conn) packet(buf *bytes.Buffer, b []byte) {
	for {
		n := len(b)
		if n > 0xffffff {
			n = 0xffffff
		}
		buf.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), p.seq})
		p.seq++
		buf.Write(b[:n])
		b = b[n:]
		if n < 0xffffff {
			return
		}
	}
}

func (p *conn) write(pkts ...[]byte) error {
	var buf bytes.Buffer
	for _, b := range pkts {
		p.packet(&buf, b)
	}
	_, err := p.c.Write(buf.Bytes())
	return err
}

func lenenc(n uint64) []byte {
	switch {
	case n < 251:
		return []byte{byte(n)}
	case n < 1<<16:
		return []byte{0xfc, byte(n), byte(n >> 8)}
	case n < 1<<24:
		return []byte{0xfd, byte(n), byte(n >> 8), byte(n >> 16)}
	}
	b := make([]byte, 9)
	b[0] = 0xfe
	binary.LittleEndian.PutUint64(b[1:], n)
	return b
}

func lenstr(s string) []byte { return append(lenenc(uint64(len(s))), s...) }

func errPacket(code uint16, msg string) []byte {
	b := []byte{0xff, byte(code), byte(code >> 8), '#'}
	b = append(b, "HY000"...)
	return append(b, msg...)
}

func (p *conn) writeErr(code uint16, msg string) error { return p.write(errPacket(code, msg)) }

func okPacket(aff, id uint64) []byte {
	b := []byte{0}
	b = append(b, lenenc(aff)...)
	b = append(b, lenenc(id)...)
	return append(b, 2, 0, 0, 0)
}

var eof = []byte{0xfe, 0, 0, 2, 0}

const (
	capLongPassword = 1
	capFoundRows    = 2
	capLongFlag     = 4
	capConnectDB    = 8
	capProtocol41   = 512
	capTransactions = 8192
	capSecureConn   = 32768
	capSSL          = 2048
	capMultiStmt    = 1 << 16
	capMultiResults = 1 << 17
	capPluginAuth   = 1 << 19
	capLenencAuth   = 1 << 21
)

// Scramble is the mysql_native_password response for a password and salt.
func Scramble(salt []byte, pw string) []byte {
	if pw == "" {
		return nil
	}
	h1 := sha1.Sum([]byte(pw))
	h2 := sha1.Sum(h1[:])
	h := sha1.New()
	h.Write(salt)
	h.Write(h2[:])
	x := h.Sum(nil)
	for i := range x {
		x[i] ^= h1[i]
	}
	return x
}

func (p *conn) handshake() bool {
	salt := make([]byte, 20)
	for i := range salt {
		salt[i] = byte('a' + (p.n*7+i*3)%26)
	}
	caps := uint32(capLongPassword | capFoundRows | capLongFlag | capConnectDB | capProtocol41 | capTransactions | capSecureConn | capPluginAuth | capMultiStmt | capMultiResults)
	if p.s.TLS != nil {
		caps |= capSSL
	}
	var b []byte
	b = append(b, 10)
	b = append(b, "8.0.34-fake\x00"...)
	b = append(b, byte(p.n), byte(p.n>>8), byte(p.n>>16), byte(p.n>>24))
	b = append(b, salt[:8]...)
	b = append(b, 0)
	b = append(b, byte(caps), byte(caps>>8))
	b = append(b, 45)
	b = append(b, 2, 0)
	b = append(b, byte(caps>>16), byte(caps>>24))
	b = append(b, 21)
	b = append(b, make([]byte, 10)...)
	b = append(b, salt[8:]...)
	b = append(b, 0)
	b = append(b, "mysql_native_password\x00"...)
	p.seq = 0
	if p.write(b) != nil {
		return false
	}
	resp, err := p.readPacket()
	if err != nil || len(resp) < 32 {
		return false
	}
	cc := binary.LittleEndian.Uint32(resp)
	encrypted, cert := false, ""
	if p.s.TLS != nil && cc&capSSL != 0 && len(resp) == 32 {
		tc := tls.Server(bufConn{p.c, p.r}, p.s.TLS)
		if tc.Handshake() != nil {
			return false
		}
		encrypted = true
		if pc := tc.ConnectionState().PeerCertificates; len(pc) > 0 {
			cert = pc[0].Subject.CommonName
		}
		p.c, p.r = tc, bufio.NewReader(tc)
		if resp, err = p.readPacket(); err != nil {
			return false
		}
		if len(resp) >= 4 {
			cc = binary.LittleEndian.Uint32(resp)
		}
	}
	if len(resp) < 33 {
		return false
	}
	rest := resp[32:]
	i := bytes.IndexByte(rest, 0)
	if i < 0 {
		return false
	}
	ev := &Event{Conn: p.n, Kind: "connect", User: string(rest[:i]), Salt: salt, TLS: encrypted, Cert: cert}
	rest = rest[i+1:]
	if len(rest) > 0 {
		n := int(rest[0])
		if n <= len(rest)-1 {
			ev.Auth = append([]byte{}, rest[1:1+n]...)
			rest = rest[1+n:]
		}
	}
	if cc&capConnectDB != 0 {
		if j := bytes.IndexByte(rest, 0); j >= 0 {
			ev.DB = string(rest[:j])
		}
	}
	p.s.begin(ev)
	r := Reply{}
	if p.s.Handler != nil {
		r = p.s.Handler(p.s, ev)
	}
	if r.Delay > 0 {
		p.s.delay(r.Delay)
	}
	p.s.finish(ev, r)
	if r.Drop {
		return false
	}
	if r.ErrCode != 0 {
		p.writeErr(r.ErrCode, r.ErrMsg)
		return false
	}
	return p.write(okPacket(0, 0)) == nil
}

func (p *conn) serve() {
	if !p.handshake() {
		return
	}
	for {
		b, err := p.readPacket()
		if err != nil || len(b) == 0 {
			return
		}
		ev := &Event{Conn: p.n}
		switch b[0] {
		case 1:
			ev.Kind = "quit"
		case 2:
			ev.Kind = "initdb"
			ev.DB = string(b[1:])
		case 3:
			ev.Kind = "query"
			ev.SQL = string(b[1:])
		case 14:
			ev.Kind = "ping"
		case 22:
			ev.Kind = "prepare"
			ev.SQL = string(b[1:])
		case 23:
			ev.Kind = "execute"
			ev.Stmt = binary.LittleEndian.Uint32(b[1:])
			ev.SQL = p.stmts[ev.Stmt]
			ev.Args, err = parseExecute(b, countParams(ev.SQL))
			if err != nil {
				p.writeErr(1210, err.Error())
				continue
			}
		case 25:
			ev.Kind = "stmtclose"
			ev.Stmt = binary.LittleEndian.Uint32(b[1:])
			ev.SQL = p.stmts[ev.Stmt]
			delete(p.stmts, ev.Stmt)
		case 31:
			ev.Kind = "reset"
		default:
			ev.Kind = fmt.Sprintf("com%d", b[0])
		}
		p.s.begin(ev)
		if ev.Kind == "quit" {
			p.s.finish(ev, Reply{})
			return
		}
		if ev.Kind == "stmtclose" {
			p.s.finish(ev, Reply{})
			continue
		}
		var r Reply
		if ev.Kind == "execute" && ev.SQL == "" {
			r = Reply{ErrCode: 1243, ErrMsg: "Unknown prepared statement handler"}
		} else if p.s.Handler != nil {
			r = p.s.Handler(p.s, ev)
		}
		if ev.Kind != "query" && ev.Kind != "execute" {
			r.Cols, r.Rows = nil, nil
		}
		if r.Delay > 0 {
			p.s.delay(r.Delay)
		}
		if ev.Kind == "prepare" && r.ErrCode == 0 && !r.Drop {
			p.next++
			ev.Stmt = p.next
			p.stmts[p.next] = ev.SQL
		}
		p.s.finish(ev, r)
		if r.Drop {
			return
		}
		if r.ErrCode != 0 {
			if p.writeErr(r.ErrCode, r.ErrMsg) != nil {
				return
			}
		} else if ev.Kind == "prepare" {
			if p.writePrepareOK(ev, r) != nil {
				return
			}
		} else if len(r.Cols) > 0 {
			ok := p.writeRows(r, ev.Kind == "execute")
			if !ok {
				return
			}
		} else if p.write(okPacket(r.Affected, r.InsertID)) != nil {
			return
		}
		if r.DropAfter {
			return
		}
	}
}

func (p *conn) writePrepareOK(ev *Event, r Reply) error {
	np := countParams(ev.SQL)
	b := []byte{0}
	b = binary.LittleEndian.AppendUint32(b, ev.Stmt)
	b = append(b, 0, 0) // number of columns: the driver does not rely on it
	b = append(b, byte(np), byte(np>>8))
	b = append(b, 0, 0, 0)
	pk := [][]byte{b}
	if np > 0 {
		for i := 0; i < np; i++ {
			pk = append(pk, colDef(Col{Name: "?", Type: TStr}))
		}
		pk = append(pk, eof)
	}
	return p.write(pk...)
}

func colDef(c Col) []byte {
	var b []byte
	b = append(b, lenstr("def")...)
	b = append(b, lenstr("")...)
	b = append(b, lenstr("")...)
	b = append(b, lenstr("")...)
	b = append(b, lenstr(c.Name)...)
	b = append(b, lenstr(c.Name)...)
	b = append(b, 0x0c)
	cs := uint16(45)
	if c.Type != TStr {
		cs = 63
	}
	b = append(b, byte(cs), byte(cs>>8))
	b = append(b, 255, 255, 0, 0)
	b = append(b, c.Type, 0, 0, 0, 0, 0)
	return b
}

func (p *conn) writeRows(r Reply, binaryProto bool) bool {
	pk := [][]byte{lenenc(uint64(len(r.Cols)))}
	for _, c := range r.Cols {
		pk = append(pk, colDef(c))
	}
	pk = append(pk, eof)
	cut := false
	for i, row := range r.Rows {
		if r.CutRows > 0 && i == r.CutRows-1 {
			cut = true
			break
		}
		if binaryProto {
			pk = append(pk, binRow(r.Cols, row))
		} else {
			var b []byte
			for _, v := range row {
				if v == nil {
					b = append(b, 0xfb)
				} else {
					b = append(b, lenstr(text(v))...)
				}
			}
			pk = append(pk, b)
		}
	}
	if cut || (r.CutRows > 0 && len(r.Rows) < r.CutRows) {
		p.write(pk...)
		return false
	}
	if r.RowsErr != 0 {
		msg := r.ErrMsg
		if msg == "" {
			msg = "injected error while sending rows"
		}
		pk = append(pk, errPacket(r.RowsErr, msg))
	} else {
		pk = append(pk, eof)
	}
	return p.write(pk...) == nil
}

func text(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		return string(x)
	}
	return fmt.Sprint(v)
}

func binRow(cols []Col, row []interface{}) []byte {
	b := []byte{0}
	bm := make([]byte, (len(cols)+9)/8)
	var vals []byte
	for i, v := range row {
		if v == nil {
			bm[(i+2)/8] |= 1 << uint((i+2)%8)
			continue
		}
		switch cols[i].Type {
		case TInt:
			var n int64
			switch x := v.(type) {
			case int64:
				n = x
			case int:
				n = int64(x)
			}
			vals = binary.LittleEndian.AppendUint64(vals, uint64(n))
		case TDouble:
			vals = binary.LittleEndian.AppendUint64(vals, math.Float64bits(v.(float64)))
		case TDate, TDatetime, TTimestamp:
			vals = append(vals, binDate(text(v))...)
		default:
			vals = append(vals, lenstr(text(v))...)
		}
	}
	b = append(b, bm...)
	return append(b, vals...)
}

// binDate encodes "2006-01-02[ 15:04:05[.999999]]".
func binDate(v string) []byte {
	var y, m, d, hh, mm, ss, us int
	n, _ := fmt.Sscanf(v, "%d-%d-%d %d:%d:%d", &y, &m, &d, &hh, &mm, &ss)
	if i := strings.IndexByte(v, '.'); i >= 0 {
		fmt.Sscanf((v[i+1:] + "000000")[:6], "%d", &us)
	}
	if y == 0 && m == 0 && d == 0 {
		return []byte{0}
	}
	b := []byte{4, byte(y), byte(y >> 8), byte(m), byte(d)}
	if n > 3 {
		b[0] = 7
		b = append(b, byte(hh), byte(mm), byte(ss))
	}
	if us > 0 {
		b[0] = 11
		b = binary.LittleEndian.AppendUint32(b, uint32(us))
	}
	return b
}

// countParams counts ? placeholders outside quotes and comments.
func countParams(q string) int {
	n := 0
	var quote byte
	for i := 0; i < len(q); i++ {
		c := q[i]
		if quote != 0 {
			if c == '\\' && quote != '`' {
				i++
			} else if c == quote {
				quote = 0
			}
			continue
		}
		switch {
		case c == '\'' || c == '"' || c == '`':
			quote = c
		case strings.HasPrefix(q[i:], "/*"):
			j := strings.Index(q[i+2:], "*/")
			if j < 0 {
				return n
			}
			i += j + 3
		case c == '?':
			n++
		}
	}
	return n
}

func parseExecute(b []byte, np int) ([]interface{}, error) {
	if np == 0 {
		return nil, nil
	}
	p := 1 + 4 + 1 + 4
	nb := (np + 7) / 8
	if len(b) < p+nb+1 {
		return nil, fmt.Errorf("short execute packet")
	}
	null := b[p : p+nb]
	p += nb
	newp := b[p]
	p++
	if newp != 1 {
		return nil, fmt.Errorf("no types bound")
	}
	types := b[p : p+2*np]
	p += 2 * np
	args := make([]interface{}, np)
	for i := 0; i < np; i++ {
		if null[i/8]&(1<<uint(i%8)) != 0 {
			args[i] = nil
			continue
		}
		switch types[2*i] {
		case 6:
			args[i] = nil
		case 8:
			args[i] = int64(binary.LittleEndian.Uint64(b[p:]))
			p += 8
		case 5:
			args[i] = math.Float64frombits(binary.LittleEndian.Uint64(b[p:]))
			p += 8
		case 1:
			args[i] = int64(int8(b[p]))
			p++
		case 253, 254, 15, 252:
			n := uint64(b[p])
			p++
			switch n {
			case 0xfc:
				n = uint64(binary.LittleEndian.Uint16(b[p:]))
				p += 2
			case 0xfd:
				n = uint64(b[p]) | uint64(b[p+1])<<8 | uint64(b[p+2])<<16
				p += 3
			case 0xfe:
				n = binary.LittleEndian.Uint64(b[p:])
				p += 8
			}
			args[i] = string(b[p : p+int(n)])
			p += int(n)
		default:
			return nil, fmt.Errorf("unsupported param type %d", types[2*i])
		}
	}
	return args, nil
}
