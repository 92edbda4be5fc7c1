// Package harness drives the real tru code over an in-memory packet network in
// virtual time (testing/synctest) and checks what it observably does.
package harness

import (
	"container/heap"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Wire protocol constants, restated here from the protocol's documentation so
// that the harness does not depend on the code under test.
const (
	stConnect      = 0
	stServerAnswer = 1
	stClientAnswer = 2
	stDone         = 3
	stData         = 4
	stAck          = 5
	stPing         = 6
	stPong         = 7
	stDisconnect   = 8
	stPunch        = 9
	stDataNext     = 0x84

	idLimit    = 1 << 20
	maxUDPIPv4 = 65535 - 20 - 8 // largest UDP payload over IPv4
)

func isData(st uint8) bool { return st == stData || st == stDataNext }

// Dgram is one datagram on the simulated network.
type Dgram struct {
	T      time.Duration // virtual time of the event since the network was made
	From   string
	To     string
	Data   []byte
	Status uint8
	ID     uint32
	Copy   int  // number of datagrams with the same addresses, header and content sent before
	N      int  // serial number of the send
	Raw    bool // injected by the harness
}

func (d *Dgram) String() string {
	return fmt.Sprintf("%v %s>%s st=%d id=%d len=%d copy=%d", d.T, d.From, d.To, d.Status, d.ID, len(d.Data), d.Copy)
}

// Fate is one arrival of a datagram; a datagram with no fates is lost.
type Fate struct {
	Delay time.Duration
	Data  []byte // nil: unchanged
}

// Policy decides what happens to a datagram.
type Policy func(d *Dgram) []Fate

// Net is an in-memory datagram network.
type Net struct {
	mu       sync.Mutex
	start    time.Time
	eps      map[string]*Endpoint
	closed   map[string]int // times an endpoint with this address was closed
	nextPrt  int
	Spread   int            // how addresses are given out: 0 one IP, 1 one port, 2 IPv6, 3 mixed, 4 of any length
	lastIP   map[int]net.IP // IP of the endpoint closed last with this port
	nextIP   int
	ReadErr  float64 // share of the datagrams before which a read fails once, as after an ICMP message on some systems
	LossErr  float64 // share of the lost datagrams whose writer is told an error
	seq      int
	sends    int
	copies   map[uint64]int
	policy   Policy
	onSend   func(d *Dgram)
	onRecv   func(d *Dgram)
	MaxLen   int // largest datagram the network can carry
	TooLong  int // datagrams refused because they were larger
	Yield    float64
	Before   func(from string, b []byte) // called before a datagram is sent, set before use
	After    func(from string, b []byte) // called after a datagram was sent, set before use
	NoCopies bool                        // repeats are counted for the packet numbers at the ends of the range only
}

// Yield is how often a socket call lets other goroutines run first, to make
// different interleavings.
func (n *Net) yield() {
	if p := n.Yield; p > 0 && rand.Float64() < p {
		for k := rand.IntN(4); k >= 0; k-- {
			runtime.Gosched()
		}
	}
}

// realNow is the time of day outside the bubble.
func realNow() time.Duration {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return time.Duration(tv.Nano())
}

// NewNet makes a network with a fixed latency and no faults.
func NewNet(latency time.Duration) *Net {
	return &Net{start: time.Now(), eps: map[string]*Endpoint{}, closed: map[string]int{}, nextPrt: 40000, lastIP: map[int]net.IP{},
		copies: map[uint64]int{}, MaxLen: maxUDPIPv4,
		policy: func(*Dgram) []Fate { return []Fate{{Delay: latency}} }}
}

// SetPolicy replaces the policy.
func (n *Net) SetPolicy(p Policy) { n.mu.Lock(); n.policy = p; n.mu.Unlock() }

// Policy returns the current policy.
func (n *Net) Policy() Policy { n.mu.Lock(); defer n.mu.Unlock(); return n.policy }

// OnSend and OnRecv install taps, called with the network locked.
func (n *Net) OnSend(f func(d *Dgram)) { n.mu.Lock(); n.onSend = f; n.mu.Unlock() }
func (n *Net) OnRecv(f func(d *Dgram)) { n.mu.Lock(); n.onRecv = f; n.mu.Unlock() }

// Now is the virtual time since the network was made.
func (n *Net) Now() time.Duration { return time.Since(n.start) }

// Sends is the number of datagrams sent so far.
func (n *Net) Sends() int { n.mu.Lock(); defer n.mu.Unlock(); return n.sends }

// Listen has the signature of net.ListenPacket.
func (n *Net) Listen(network, address string) (net.PacketConn, error) {
	i := strings.LastIndexByte(address, ':')
	port, err := strconv.Atoi(address[i+1:])
	if err != nil {
		return nil, err
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	ip := n.lastIP[port]
	if port == 0 {
		ip, port = n.newAddr()
	}
	if ip == nil {
		ip = net.IPv4(127, 0, 0, 1)
	}
	e := &Endpoint{net: n, addr: &net.UDPAddr{IP: ip, Port: port}, wake: make(chan struct{}, 1)}
	if _, ok := n.eps[e.addr.String()]; ok {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: e.addr, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	n.eps[e.addr.String()] = e
	return e, nil
}

// ListenTru is Listen for an endpoint of the code under test, whose reads may
// fail now and then.
func (n *Net) ListenTru(network, address string) (net.PacketConn, error) {
	pc, err := n.Listen(network, address)
	if e, ok := pc.(*Endpoint); ok {
		e.flaky = true
	}
	return pc, err
}

// newAddr makes up an address; n.mu is held.
func (n *Net) newAddr() (ip net.IP, port int) {
	n.nextIP++
	v4 := net.IPv4(10, 7, byte(n.nextIP>>8), byte(n.nextIP))
	v6 := net.ParseIP(fmt.Sprintf("2001:db8::%x", n.nextIP))
	switch n.Spread {
	case 1:
		return v4, 41000
	case 2:
		return v6, 41000
	case 3:
		switch k := n.nextIP; k % 4 {
		case 1:
			return v4, 41000
		case 2:
			return v6, 41000
		case 3: // the port of one, the IP of another
			return net.IPv4(10, 7, byte((k-2)>>8), byte(k-2)), 41000 + k
		}
		return net.ParseIP(fmt.Sprintf("2001:db8::%x", n.nextIP-2)), 4100
	}
	if n.Spread == 4 {
		h := mix(uint64(n.nextIP))
		part := func() byte { h = mix(h); return byte(1 + h%[]uint64{9, 99, 250}[h>>20%3]) }
		return net.IPv4(part(), part(), part(), byte(n.nextIP)), []int{1000, 9000, 10000, 60000}[h>>30%4] + n.nextIP
	}
	n.nextPrt++
	return net.IPv4(127, 0, 0, 1), n.nextPrt
}

// Bound tells whether an endpoint is open at the address.
func (n *Net) Bound(addr string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	_, ok := n.eps[addr]
	return ok
}

type item struct {
	at   time.Duration
	seq  int
	d    *Dgram
	from *net.UDPAddr
}
type items []item

func (h items) Len() int { return len(h) }
func (h items) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h items) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *items) Push(x any)   { *h = append(*h, x.(item)) }
func (h *items) Pop() any     { o := *h; x := o[len(o)-1]; *h = o[:len(o)-1]; return x }

// Endpoint is a net.PacketConn on a Net.
type Endpoint struct {
	flaky     bool   // reads may fail
	failed    *Dgram // the datagram before which a read failed
	net       *Net
	addr      *net.UDPAddr
	wake      chan struct{}
	q         items
	isClosed  bool
	ReadsDead int // reads after close
	deadSends int // sends after close
}

// send puts a datagram on the network; n.mu is held. It tells whether the
// writer is to be given an error.
func (n *Net) send(from *net.UDPAddr, to string, b []byte, raw bool) (fail bool) {
	d := &Dgram{T: time.Since(n.start), From: from.String(), To: to, Data: append([]byte(nil), b...), N: n.sends, Raw: raw}
	n.sends++
	if len(b) >= 4 {
		d.Status = b[3]
		d.ID = (uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16) & (idLimit - 1)
	}
	if !n.NoCopies || d.ID < 2000 || d.ID > idLimit-2000 {
		h := fnv.New64a()
		h.Write([]byte(d.From))
		h.Write([]byte(to))
		h.Write(b)
		k := h.Sum64()
		d.Copy = n.copies[k]
		n.copies[k]++
	}
	if n.onSend != nil {
		n.onSend(d)
	}
	fates := []Fate{{}}
	if !raw {
		fates = n.policy(d)
	}
	if len(fates) == 0 && (d.Status >= stData && d.Status <= stDisconnect || d.Status == stDataNext) && n.LossErr > 0 {
		fail = float64(hashOf("err", d.From, to, d.Status, d.ID, d.Copy)%1000) < n.LossErr*1000
	}
	dst := n.eps[to]
	for _, f := range fates {
		if dst == nil {
			break
		}
		c := *d
		if f.Data != nil {
			c.Data = append([]byte(nil), f.Data...)
		}
		n.seq++
		heap.Push(&dst.q, item{at: d.T + f.Delay, seq: n.seq, d: &c, from: from})
		select {
		case dst.wake <- struct{}{}:
		default:
		}
	}
	return
}

// Inject delivers a datagram as if it came from the given address, at once and
// without passing the policy.
func (n *Net) Inject(from, to string, b []byte) {
	a, err := net.ResolveUDPAddr("udp", from)
	if err != nil {
		panic(err)
	}
	n.mu.Lock()
	n.send(a, to, b, true)
	n.mu.Unlock()
}

// ReadFrom implements net.PacketConn.
func (e *Endpoint) ReadFrom(p []byte) (int, net.Addr, error) {
	n := e.net
	n.yield()
	for {
		n.mu.Lock()
		if e.isClosed {
			e.ReadsDead++
			n.mu.Unlock()
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Source: e.addr, Err: net.ErrClosed}
		}
		var wait time.Duration = -1
		if len(e.q) > 0 {
			now := time.Since(n.start)
			if d := e.q[0].d; e.q[0].at <= now && e.flaky && n.ReadErr > 0 && e.failed != d &&
				float64(hashOf("read", d.From, d.To, d.Status, d.ID, d.Copy)%1000) < n.ReadErr*1000 {
				e.failed = d
				n.mu.Unlock()
				return 0, nil, &net.OpError{Op: "read", Net: "udp", Source: e.addr, Err: os.NewSyscallError("recvfrom", syscall.ECONNRESET)}
			}
			if e.q[0].at <= now {
				it := heap.Pop(&e.q).(item)
				it.d.T = now
				if n.onRecv != nil {
					n.onRecv(it.d)
				}
				n.mu.Unlock()
				return copy(p, it.d.Data), it.from, nil
			}
			wait = e.q[0].at - now
		}
		n.mu.Unlock()
		if wait < 0 {
			<-e.wake
		} else {
			t := time.NewTimer(wait)
			select {
			case <-e.wake:
			case <-t.C:
			}
			t.Stop()
		}
	}
}

// ErrMsgSize is what the kernel says to datagrams that are too long.
var ErrMsgSize = os.NewSyscallError("sendto", syscall.EMSGSIZE)

// WriteTo implements net.PacketConn.
func (e *Endpoint) WriteTo(p []byte, addr net.Addr) (int, error) {
	a, ok := addr.(*net.UDPAddr)
	if !ok || a == nil {
		return 0, &net.OpError{Op: "write", Net: "udp", Source: e.addr, Err: syscall.EINVAL}
	}
	n := e.net
	n.yield()
	defer n.yield()
	if n.Before != nil {
		n.Before(e.addr.String(), p)
	}
	if n.After != nil {
		defer n.After(e.addr.String(), p)
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if e.isClosed {
		e.deadSends++
		return 0, &net.OpError{Op: "write", Net: "udp", Source: e.addr, Addr: addr, Err: net.ErrClosed}
	}
	if len(p) > n.MaxLen {
		n.TooLong++
		return 0, &net.OpError{Op: "write", Net: "udp", Source: e.addr, Addr: addr, Err: ErrMsgSize}
	}
	if n.send(e.addr, a.String(), p, false) {
		return 0, &net.OpError{Op: "write", Net: "udp", Source: e.addr, Addr: addr, Err: os.NewSyscallError("sendto", syscall.ENOBUFS)}
	}
	return len(p), nil
}

// Close implements net.PacketConn.
func (e *Endpoint) Close() error {
	n := e.net
	n.mu.Lock()
	defer n.mu.Unlock()
	if e.isClosed {
		return net.ErrClosed
	}
	e.isClosed = true
	if n.eps[e.addr.String()] == e {
		delete(n.eps, e.addr.String())
	}
	n.closed[e.addr.String()]++
	n.lastIP[e.addr.Port] = e.addr.IP
	close(e.wake)
	return nil
}

// LocalAddr implements net.PacketConn.
func (e *Endpoint) LocalAddr() net.Addr { return e.addr }

// Deadlines are not used by the code under test.
func (e *Endpoint) SetDeadline(time.Time) error      { return errors.ErrUnsupported }
func (e *Endpoint) SetReadDeadline(time.Time) error  { return errors.ErrUnsupported }
func (e *Endpoint) SetWriteDeadline(time.Time) error { return errors.ErrUnsupported }
