// Package simnet is the simulated transport: listeners and connections whose
// every delivery, short read, stall and fault comes from the plan, on the
// virtual clock of the process.
package simnet

import (
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// Yield is called where a real connection would enter the kernel.
var Yield = func(site uint32) {}

// Step returns the global event sequence number.
var Step = func() uint64 { return 0 }

// RNG is a splitmix64 generator.
type RNG struct{ S uint64 }

// Next returns the next 64 bits.
func (r *RNG) Next() uint64 {
	r.S += 0x9e3779b97f4a7c15
	z := r.S
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number below n.
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Knobs are the per-connection fault parameters.
type Knobs struct {
	ReadSeed   uint64 `json:"rs,omitempty"`
	ReadMax    int    `json:"rm,omitempty"` // longest read, 0: unlimited; actual length is random up to it
	SegSeed    uint64 `json:"ss,omitempty"`
	SegMax     int    `json:"sm,omitempty"` // longest segment of a client send, 0: whole
	SegGapUs   int    `json:"sg,omitempty"` // largest delay before a segment, microseconds
	Window     int    `json:"w,omitempty"`  // bytes in flight to a stalled client, 0: 64 KiB
	WriteErrAt int    `json:"we,omitempty"` // fail writes after this many bytes, 0: never
	WriteErrNo int    `json:"wn,omitempty"` // errno
	WriteChunk int    `json:"wc,omitempty"` // bytes moved per kernel entry, 0: whole
	AfterClose int    `json:"ac,omitempty"` // bytes still accepted after the client closed
	SockErr    bool   `json:"se,omitempty"` // socket options of a connection that is already gone cannot be set
}

// Mark notes one write of the code under test.
type Mark struct {
	End  int // stream offset after it
	T    time.Duration
	Step uint64
}

// Faults counts faults that actually fired.
type Faults map[string]int

// Conn is the server side of a connection; the client side is driven by the
// methods with names starting with C.
type Conn struct {
	ID int
	K  Knobs
	F  Faults
	T0 time.Time

	mu   sync.Mutex
	cond *sync.Cond

	in      []byte // delivered, not yet read
	inEOF   bool
	inErr   error
	rrng    RNG
	srng    RNG
	Read0   int // bytes read by the server so far
	Sent    int // bytes delivered so far
	rdead   time.Time
	wdead   time.Time
	out     []byte
	drained int    // bytes the client has taken
	hold    bool   // the client holds back
	held    []byte // what it sends
	stalled bool
	Marks   []Mark
	wbusy   bool
	werr    error
	wfailed bool // an injected or peer-caused write error has been returned

	closed    bool
	ClosedAt  time.Duration
	CloseStep uint64
	Closes    int
	CClosed   bool // client closed or reset
	linger0   bool
	Lost      bool // closed so that what was just written is lost
	writers   int

	OnOut func(c *Conn) // called after bytes were appended to out
}

// New makes a connection.
func New(id int, k Knobs, f Faults, t0 time.Time) *Conn {
	c := &Conn{ID: id, K: k, F: f, T0: t0}
	c.cond = sync.NewCond(&c.mu)
	c.rrng.S = k.ReadSeed
	c.srng.S = k.SegSeed
	if c.K.Window == 0 {
		c.K.Window = 64 << 10
	}
	return c
}

func (c *Conn) now() time.Duration { return time.Since(c.T0) }

func operr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: addr(1), Addr: addr(2), Err: err}
}

func errno(op string, n int) error {
	return operr(op, os.NewSyscallError(op, syscall.Errno(n)))
}

func addr(i int) net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, byte(i)), Port: 10000 + i} }

// ---- server side ----

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	Yield(1)
	c.mu.Lock()
	n, err := c.read(p)
	c.mu.Unlock()
	Yield(2)
	return n, err
}

func (c *Conn) read(p []byte) (int, error) {
	for {
		switch {
		case c.closed:
			return 0, operr("read", net.ErrClosed)
		case c.inErr != nil:
			return 0, c.inErr
		case len(p) == 0:
			return 0, nil
		case len(c.in) > 0:
			n := len(p)
			if n > len(c.in) {
				n = len(c.in)
			}
			if c.K.ReadMax > 0 {
				m := 1 + c.rrng.N(c.K.ReadMax)
				if m < n {
					n = m
					c.F["short_read"]++
				}
			}
			copy(p, c.in[:n])
			c.in = c.in[n:]
			c.Read0 += n
			c.cond.Broadcast()
			return n, nil
		case c.inEOF:
			return 0, io.EOF
		case !c.rdead.IsZero() && !time.Now().Before(c.rdead):
			return 0, operr("read", os.ErrDeadlineExceeded)
		}
		c.cond.Wait()
	}
}

// Write implements net.Conn. Like a real connection, concurrent calls do not
// interleave.
func (c *Conn) Write(p []byte) (int, error) {
	Yield(3)
	c.mu.Lock()
	c.writers++
	for c.wbusy && !c.closed {
		c.cond.Wait()
	}
	var n int
	var err error
	if c.closed {
		err = operr("write", net.ErrClosed)
	} else {
		c.wbusy = true
		n, err = c.write(p)
		c.wbusy = false
		c.cond.Broadcast()
	}
	c.writers--
	c.mu.Unlock()
	if c.OnOut != nil {
		c.OnOut(c)
	}
	Yield(4)
	return n, err
}

func (c *Conn) write(p []byte) (int, error) {
	done := 0
	for {
		switch {
		case c.closed:
			return done, operr("write", net.ErrClosed)
		case c.werr != nil:
			return done, c.werr
		case !c.wdead.IsZero() && !time.Now().Before(c.wdead):
			return done, operr("write", os.ErrDeadlineExceeded)
		}
		if done == len(p) {
			return done, nil
		}
		room := len(p) - done
		if c.CClosed {
			if room > c.K.AfterClose {
				room = c.K.AfterClose
			}
			c.K.AfterClose -= room
			if room == 0 {
				c.werr = errno("write", int(syscall.EPIPE))
				c.F["write_epipe"]++
				continue
			}
		} else if c.stalled {
			free := c.K.Window - (len(c.out) - c.drained)
			if free <= 0 {
				c.F["write_blocked"]++
				c.cond.Wait()
				continue
			}
			if room > free {
				room = free
			}
		}
		if c.K.WriteChunk > 0 && room > c.K.WriteChunk {
			room = c.K.WriteChunk
		}
		if c.K.WriteErrAt > 0 && len(c.out)+room > c.K.WriteErrAt {
			room = c.K.WriteErrAt - len(c.out)
			if room <= 0 {
				c.werr = errno("write", c.K.WriteErrNo)
				c.F["write_error"]++
				if done > 0 {
					c.F["torn_write"]++
				}
				continue
			}
		}
		c.out = append(c.out, p[done:done+room]...)
		done += room
		if !c.stalled {
			c.drained = len(c.out)
		}
		c.Marks = append(c.Marks, Mark{len(c.out), c.now(), Step()})
		c.cond.Broadcast()
		if done < len(p) {
			c.F["split_write"]++
			c.mu.Unlock()
			Yield(5)
			c.mu.Lock()
		}
	}
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	Yield(6)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Closes++
	if c.closed {
		return operr("close", net.ErrClosed)
	}
	c.closed = true
	c.ClosedAt = c.now()
	c.CloseStep = Step()
	if n := len(c.Marks); c.linger0 && n > 0 && c.Marks[n-1].T > c.ClosedAt-time.Millisecond {
		c.Lost = true
	}
	c.cond.Broadcast()
	return nil
}

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return addr(1) }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return addr(2 + c.ID) }

func (c *Conn) setDead(p *time.Time, t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	*p = t
	c.cond.Broadcast()
	if !t.IsZero() {
		d := time.Until(t)
		if d < 0 {
			d = 0
		}
		time.AfterFunc(d, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	}
	return nil
}

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	c.setDead(&c.rdead, t)
	return c.setDead(&c.wdead, t)
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error { return c.setDead(&c.rdead, t) }

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setDead(&c.wdead, t) }

// Sockopt sets a socket option.
func (c *Conn) Sockopt(level, name, value int) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return operr("set", net.ErrClosed)
	}
	if c.K.SockErr && c.CClosed {
		c.F["sockopt_error"]++
		return errno("setsockopt", int(syscall.EINVAL))
	}
	return nil
}

// Linger sets SO_LINGER, or unsets it if sec is negative.
func (c *Conn) Linger(sec int) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return operr("set", net.ErrClosed)
	}
	c.linger0 = sec == 0
	return nil
}

// Shutdown closes one direction.
func (c *Conn) Shutdown(how int) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return operr("shutdown", net.ErrClosed)
	}
	switch how {
	case syscall.SHUT_RD:
		c.inEOF, c.in = true, nil
	case syscall.SHUT_WR:
		c.werr = errno("write", int(syscall.EPIPE))
	}
	c.cond.Broadcast()
	return nil
}

// ---- client side ----

// CSend delivers b in segments as the knobs say. It reports whether the
// connection still took everything.
func (c *Conn) CSend(b []byte) bool {
	c.mu.Lock()
	if c.hold {
		ok := !c.closed && c.inErr == nil && !c.inEOF
		if ok {
			c.held = append(c.held, b...)
		}
		c.mu.Unlock()
		return ok
	}
	c.mu.Unlock()
	for len(b) > 0 {
		n := len(b)
		if c.K.SegMax > 0 {
			if m := 1 + c.srng.N(c.K.SegMax); m < n {
				n = m
				c.F["segmented"]++
			}
		}
		if c.K.SegGapUs > 0 {
			if d := c.srng.N(c.K.SegGapUs + 1); d > 0 {
				c.F["delayed"]++
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
		}
		c.mu.Lock()
		if c.closed || c.inErr != nil || c.inEOF {
			c.mu.Unlock()
			return false
		}
		c.in = append(c.in, b[:n]...)
		c.Sent += n
		c.cond.Broadcast()
		c.mu.Unlock()
		b = b[n:]
	}
	return true
}

// CHold makes what the client sends from now on arrive at once, when the
// client no longer holds it back or ends the connection.
func (c *Conn) CHold(on bool) {
	if !on && !c.hold {
		return
	}
	c.mu.Lock()
	c.hold = on
	if !on {
		c.release()
	}
	c.mu.Unlock()
}

func (c *Conn) release() {
	if len(c.held) == 0 {
		return
	}
	if !c.closed && c.inErr == nil && !c.inEOF {
		c.F["coalesced"]++
		c.in = append(c.in, c.held...)
		c.Sent += len(c.held)
		c.cond.Broadcast()
	}
	c.held = nil
}

// CEOF half-closes from the client.
func (c *Conn) CEOF() {
	c.mu.Lock()
	c.release()
	c.inEOF = true
	c.F["half_close"]++
	c.cond.Broadcast()
	c.mu.Unlock()
}

// CClose closes from the client.
func (c *Conn) CClose() {
	c.mu.Lock()
	c.release()
	c.inEOF = true
	c.CClosed = true
	c.F["client_close"]++
	c.cond.Broadcast()
	c.mu.Unlock()
}

// CReset aborts the connection from the client or the network.
func (c *Conn) CReset(no int) {
	c.mu.Lock()
	c.CClosed = true
	c.K.AfterClose = 0
	c.in = nil
	c.inErr = errno("read", no)
	c.werr = errno("write", no)
	if no == int(syscall.ETIMEDOUT) {
		c.F["keepalive_timeout"]++
	} else {
		c.F["reset"]++
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

// CStall stops or restarts the client's reading.
func (c *Conn) CStall(on bool) {
	c.mu.Lock()
	c.stalled = on
	if !on {
		c.drained = len(c.out)
	} else {
		c.F["stall"]++
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Out returns everything written so far.
func (c *Conn) Out() []byte { return c.out }

// Drained returns how much of it the client has read.
func (c *Conn) Drained() int { return c.drained }

// Closed reports whether the server closed the connection.
func (c *Conn) Closed() bool { return c.closed }

// WriteBroken reports whether writes have started to fail.
func (c *Conn) WriteBroken() bool { return c.werr != nil }

// Stalled reports whether the client is not reading.
func (c *Conn) Stalled() bool { return c.stalled }

// Blocked reports writes in progress.
func (c *Conn) Blocked() int { return c.writers }

// CWait blocks until pred holds, the server closed the connection, or the
// timeout has passed. pred runs under the connection's lock.
func (c *Conn) CWait(d time.Duration, pred func() bool) bool {
	dl := time.Now().Add(d)
	t := time.AfterFunc(d, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	c.mu.Lock()
	defer c.mu.Unlock()
	for !pred() {
		if c.closed || !time.Now().Before(dl) {
			return pred()
		}
		c.cond.Wait()
	}
	return true
}

// ---- listener ----

// Listener is the simulated listener.
type Listener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      []net.Conn
	closed bool
	Closes int
	err    error
}

// Listen makes a listener.
func Listen() *Listener {
	l := &Listener{}
	l.cond = sync.NewCond(&l.mu)
	return l
}

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	Yield(7)
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			return nil, operr("accept", net.ErrClosed)
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q[0], l.q = nil, l.q[1:]
			return c, nil
		}
		l.cond.Wait()
	}
}

// Close implements net.Listener.
func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Closes++
	if l.closed {
		return operr("close", net.ErrClosed)
	}
	l.closed = true
	l.cond.Broadcast()
	return nil
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return addr(1) }

// Dial queues a connection. It reports false if the listener is closed.
func (l *Listener) Dial(c net.Conn) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return false
	}
	l.q = append(l.q, c)
	l.cond.Broadcast()
	return true
}

// IsClosed reports whether the listener was closed.
func (l *Listener) IsClosed() bool { return l.closed }
