package harness

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C15"] = scenario{run: c15} }

// connReader reads messages from a connection with random buffer sizes: each
// message ends with one io.EOF.
type connReader struct {
	mu   sync.Mutex
	msgs [][]byte
	err  error // the error that ended reading
	at   time.Duration
	done chan bool
	part bool // the error came in the middle of a message
	read int  // Read calls
}

func (c *connReader) n() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.msgs) }
func (c *connReader) get() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([][]byte(nil), c.msgs...)
}

func readConn(t *Trial, conn net.Conn, r *Rand, big bool, slow time.Duration, gate chan bool) *connReader {
	c := &connReader{done: make(chan bool)}
	go func() {
		defer close(c.done)
		var cur []byte
		started := false
		before := 0 // Reads before the gate opens, maybe of a part of a message
		select {
		case <-gate:
		default:
			before = r.Intn(3)
		}
		for k := 0; ; k++ {
			if k == before {
				<-gate
			}
			n := 1 << 20
			if k < before {
				n = r.Range(1, 8)
			} else if !big {
				switch r.Intn(4) {
				case 0:
					n = r.Range(1, 8)
				case 1:
					n = r.Range(1, 600)
				case 2:
					n = len(cur) + 1
				default:
					n = r.Range(500, 70000)
				}
			}
			b := bytes.Repeat([]byte{0xEE}, n)
			k, err := conn.Read(b)
			c.mu.Lock()
			c.read++
			c.mu.Unlock()
			if k < 0 || k > n {
				t.Violate("Read returned %d for a buffer of %d bytes", k, n)
				return
			}
			for _, x := range b[k:] {
				if x != 0xEE {
					t.Violate("Read returned %d bytes and wrote beyond them", k)
					break
				}
			}
			cur = append(cur, b[:k]...)
			if err == nil {
				started = true
				if slow > 0 && r.Bool(0.1) {
					time.Sleep(r.Dur(0, slow))
				}
				continue
			}
			c.mu.Lock()
			if err == io.EOF {
				c.msgs = append(c.msgs, cur)
				cur, started = nil, false
				c.mu.Unlock()
				continue
			}
			c.err, c.at, c.part = err, t.Net.Now(), started
			c.mu.Unlock()
			return
		}
	}()
	return c
}

type connFlow struct {
	mu   sync.Mutex
	sent [][]byte
}

func (f *connFlow) write(t *Trial, conn net.Conn, b []byte) error {
	f.mu.Lock()
	f.sent = append(f.sent, append([]byte{}, b...))
	i := len(f.sent) - 1
	f.mu.Unlock()
	n, err := conn.Write(b)
	if err != nil {
		f.mu.Lock()
		f.sent = f.sent[:i]
		f.mu.Unlock()
		return err
	}
	if n != len(b) {
		t.Violate("Write of %d bytes reported %d", len(b), n)
	}
	return nil
}

func (f *connFlow) check(t *Trial, name string, got [][]byte) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for i, g := range got {
		if i >= len(f.sent) {
			t.Violate("%s: %d messages read but %d written", name, len(got), len(f.sent))
			return
		}
		if !bytes.Equal(g, f.sent[i]) {
			t.Violate("%s: message %d read differs: got %s, want %s", name, i, short(g), short(f.sent[i]))
			return
		}
	}
}

// connPair is one connection: two ends, either may be a raw channel in place of a net.Conn.
type connPair struct {
	name     string
	end      [2]net.Conn // dialer's, accepted
	rd       [2]*connReader
	flow     [2]*connFlow // written by end i
	raw      *EP          // the client is this endpoint with a plain channel
	ch       *tru.Channel
	listener int
}

// c15: the net.Listener and net.Conn layer.
func c15(t *Trial) {
	r := t.R
	lat := r.Lat(5 * time.Millisecond)
	seed := r.U64()
	lossy := r.Bool(0.3)
	lateDone := r.Bool(0.5)
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if lossy && (isData(d.Status) || d.Status == stAck) {
			rr := NewRand(seed, hashOf(d.From, d.Status, d.ID, d.Copy))
			if rr.Bool(0.2) {
				return nil
			}
			return []Fate{{Delay: lat + rr.Dur(0, 10*time.Millisecond)}}
		}
		if lateDone && d.Status == stDone {
			// what the server writes at once comes before the client knows it is connected
			return []Fate{{Delay: lat + NewRand(seed, hashOf(d.From, d.To)).Dur(time.Millisecond, 200*time.Millisecond)}}
		}
		return []Fate{{Delay: lat}}
	})
	nl := r.Range(1, 3)
	var ls []net.Listener
	port := func(l net.Listener) int { return l.Addr().(*net.UDPAddr).Port }
	dialAddr := func(l net.Listener) string {
		if NewRand(seed, uint64(port(l)), 0x10ca1).Bool(0.2) { // by name
			return fmt.Sprintf("localhost:%d", port(l))
		}
		return fmt.Sprintf("127.0.0.1:%d", port(l))
	}
	for i := 0; i < nl; i++ {
		p := 0
		if r.Bool(0.5) {
			p = 30000 + i
		}
		l, err := tru.Listen("tru", fmt.Sprintf(":%d", p))
		if err != nil {
			t.Violate("Listen failed: %v", err)
			return
		}
		ls = append(ls, l)
	}
	nraw := r.Intn(3)
	big := r.Bool(0.2)
	early := r.Bool(0.5) // data is written before the connection is accepted
	slow := time.Duration(0)
	if r.Bool(0.3) {
		slow = r.Dur(0, 50*time.Millisecond)
	}
	endKind := r.Intn(6)
	n := r.Range(1, 30)
	greet := !early && r.Bool(0.6) // the server writes the moment it accepted
	gate := make(chan bool)        // reading begins when it is closed
	late := r.Bool(0.25)           // only after everything was written
	if late {
		n *= r.Range(1, 12)
		switch r.Intn(8) {
		case 0, 1: // a single one, of which a part may be read
			n = 1
		case 2:
			n = r.Range(1000, 6000)
		}
		if n > 100 {
			slow = 0
		}
	} else {
		close(gate)
	}
	t.Desc("listeners=%d raw clients=%d big buffers=%v early=%v slow=%v lat=%v lossy=%v end=%d msgs=%d late=%v", nl, nraw, big, early, slow, lat, lossy, endKind, n, late)

	if r.Bool(0.2) { // nobody listens there
		t0 := t.Net.Now()
		if c, err := tru.Dial("tru", "127.0.0.1:9"); err == nil {
			t.Violate("Dial to nobody answered %v", c)
		} else if d := t.Net.Now() - t0; d > 6*time.Second {
			t.Violate("Dial to nobody took %v", d)
		}
	}
	var pairs []*connPair
	accepted := map[string]net.Conn{}
	greetings := map[string]*connFlow{}
	greetSeed := r.U64()
	var amu sync.Mutex
	acceptErr := make([]error, nl)
	acceptEnd := make([]chan bool, nl)
	accepts := func(i int, l net.Listener) chan bool {
		e := make(chan bool)
		go func() {
			defer close(e)
			for {
				c, err := l.Accept()
				if err != nil {
					amu.Lock()
					acceptErr[i] = err
					amu.Unlock()
					return
				}
				if c == nil {
					t.Violate("Accept returned neither a connection nor an error")
					return
				}
				k := fmt.Sprintf("%d %s", i, c.RemoteAddr())
				f := &connFlow{}
				if greet {
					gr := NewRand(greetSeed, hashOf(k))
					for j := gr.Range(1, 3); j > 0; j-- {
						if err := f.write(t, c, Msg(55, 1, uint32(j), DrawLen(gr, 2000))); err != nil {
							t.Violate("a write to the connection accepted just now failed: %v", err)
						}
					}
				}
				amu.Lock()
				greetings[k] = f
				if accepted[k] != nil {
					t.Violate("one connection was accepted twice")
				}
				accepted[k] = c
				amu.Unlock()
			}
		}()
		return e
	}
	if !early {
		for i, l := range ls {
			acceptEnd[i] = accepts(i, l)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, l := range ls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := tru.Dial("tru", dialAddr(l))
			if err != nil {
				t.Violate("Dial failed over a network without handshake losses: %v", err)
				return
			}
			mu.Lock()
			pairs = append(pairs, &connPair{name: fmt.Sprintf("dialed connection to listener %d", i), end: [2]net.Conn{c, nil}, listener: i})
			mu.Unlock()
		}()
	}
	for k := 0; k < nraw; k++ {
		i := r.Intn(nl)
		e := t.NewEP(0)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ch, err := e.T.Connect(dialAddr(ls[i]))
			if err != nil {
				t.Violate("Connect to a listener failed over a network without handshake losses: %v", err)
				return
			}
			mu.Lock()
			pairs = append(pairs, &connPair{name: fmt.Sprintf("channel to listener %d", i), raw: e, ch: ch, listener: i})
			mu.Unlock()
		}()
	}
	wg.Wait()
	if t.Violated() {
		return
	}
	clientAddr := func(p *connPair) string {
		if p.raw != nil {
			return p.raw.Addr
		}
		return fmt.Sprintf("127.0.0.1:%d", p.end[0].LocalAddr().(*net.UDPAddr).Port)
	}
	write := func(p *connPair, side int, b []byte) error {
		if side == 0 && p.raw != nil {
			p.flow[0].mu.Lock()
			p.flow[0].sent = append(p.flow[0].sent, append([]byte{}, b...))
			p.flow[0].mu.Unlock()
			_, err := p.ch.WriteTo(b)
			return err
		}
		return p.flow[side].write(t, p.end[side], b)
	}
	for pi, p := range pairs {
		p.flow = [2]*connFlow{{}, {}}
		if p.raw == nil {
			p.rd[0] = readConn(t, p.end[0], NewRand(r.U64()), big, slow, gate)
			if a := p.end[0].RemoteAddr().(*net.UDPAddr).Port; a != port(ls[p.listener]) {
				t.Violate("%s: the remote address has port %d, the listener has %d", p.name, a, port(ls[p.listener]))
			}
		}
		if early {
			for k := 0; k < r.Range(1, 5); k++ {
				if err := write(p, 0, Msg(uint32(pi), 0, uint32(k), DrawLen(r, 3000))); err != nil {
					t.Violate("%s: a write failed: %v", p.name, err)
				}
			}
		}
	}
	type visitor struct { // connects, writes and leaves before it is accepted
		key  string
		sent [][]byte
	}
	var visitors []visitor
	if early {
		time.Sleep(r.Dur(0, 100*time.Millisecond))
		rv := NewRand(seed, 0x715170)
		if !lossy && rv.Bool(0.4) {
			for k := rv.Range(1, 3); k > 0; k-- {
				i := rv.Intn(nl)
				e := t.NewEP(0)
				ch, err := e.T.Connect(dialAddr(ls[i]))
				if err != nil {
					t.Violate("Connect to a listener failed over a network without handshake losses: %v", err)
					return
				}
				v := visitor{key: fmt.Sprintf("%d %s", i, e.Addr)}
				for j := rv.Intn(5); j > 0; j-- {
					b := Msg(77, uint32(k), uint32(j), DrawLen(rv, 3000))
					v.sent = append(v.sent, append([]byte{}, b...))
					if _, err := ch.WriteTo(b); err != nil {
						t.Violate("a write failed: %v", err)
					}
				}
				time.Sleep(2 * time.Second)
				if rv.Bool(0.8) {
					ch.Close()
				} else {
					e.T.Close()
				}
				visitors = append(visitors, v)
			}
			time.Sleep(time.Second)
			t.Count("visitors", len(visitors))
		}
		if rv.Bool(0.3) { // nobody accepts for a long time
			time.Sleep(rv.Dur(5*time.Second, time.Minute))
		}
		for i, l := range ls {
			acceptEnd[i] = accepts(i, l)
		}
	}
	if !t.WaitFor(2*time.Second, func() bool { amu.Lock(); defer amu.Unlock(); return len(accepted) == len(pairs)+len(visitors) }) {
		t.Violate("%d connections were made but %d accepted", len(pairs)+len(visitors), len(accepted))
		return
	}
	for _, v := range visitors {
		amu.Lock()
		c := accepted[v.key]
		amu.Unlock()
		if c == nil {
			t.Violate("a connection whose client left again was not accepted")
			return
		}
		open := make(chan bool)
		close(open)
		rd := readConn(t, c, NewRand(seed, hashOf(v.key)), big, 0, open)
		select {
		case <-rd.done:
		case <-time.After(5 * time.Second):
			t.Violate("a Read on a connection whose client left before it was accepted does not end")
			c.Close()
			return
		}
		f := &connFlow{sent: v.sent}
		got := rd.get()
		f.check(t, "connection of a client that left before it was accepted", got)
		if len(got) != len(v.sent) {
			t.Violate("%d of %d messages can be read of a client that left before it was accepted", len(got), len(v.sent))
		}
		if _, err := c.Write([]byte("too late")); err == nil {
			t.Violate("a write to a client that left succeeded")
		}
		c.Close()
	}
	for _, p := range pairs {
		amu.Lock()
		k := fmt.Sprintf("%d %s", p.listener, clientAddr(p))
		p.end[1] = accepted[k]
		if f := greetings[k]; f != nil && len(f.sent) > 0 {
			p.flow[1] = f
			t.Count("greetings", len(f.sent))
		}
		amu.Unlock()
		if p.end[1] == nil {
			t.Violate("%s from %s was accepted with another remote address", p.name, clientAddr(p))
			return
		}
		if p.end[1].LocalAddr().(*net.UDPAddr).Port != port(ls[p.listener]) {
			t.Violate("%s: the accepted connection has the wrong local address", p.name)
		}
		p.rd[1] = readConn(t, p.end[1], NewRand(r.U64()), big, slow, gate)
	}
	// traffic
	longs := 0
	for pi, p := range pairs {
		for side := 0; side < 2; side++ {
			rr := NewRand(r.U64())
			maxLen := []int{600, 5000, 150000}[rr.Intn(3)]
			if n > 30 {
				maxLen = 600
			}
			large := 0 // one very long write
			if rr.Bool(0.1) {
				large = rr.Range(150000, 1500000)
				longs++
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < n; k++ {
					b := Msg(uint32(pi), uint32(side)+10, uint32(k), DrawLen(rr, maxLen))
					if large > 0 && k == n/2 {
						b = Msg(uint32(pi), uint32(side)+10, uint32(k), large)
					}
					if err := write(p, side, b); err != nil {
						t.Violate("%s: a write failed: %v", p.name, err)
						return
					}
					for i := range b { // the buffer belongs to the caller again
						b[i] = 0xAA
					}
					if rr.Bool(0.5) {
						time.Sleep(rr.Dur(0, 20*time.Millisecond))
					}
				}
			}()
		}
	}
	wg.Wait()
	closedBy := map[*connPair]int{} // written, arrived and closed by this side before the other one reads
	if late {
		time.Sleep(r.Dur(0, 2*time.Second))
		if r.Bool(0.5) {
			time.Sleep(12 * time.Second)
			for _, p := range pairs {
				side := r.Intn(2)
				closedBy[p] = side
				if side == 0 && p.raw != nil {
					p.ch.Close()
				} else if err := p.end[side].Close(); err != nil {
					t.Violate("%s: Close of an open connection answered %v", p.name, err)
				}
				t.Count("closed_before_read", 1)
			}
			time.Sleep(time.Second)
		}
		close(gate)
		t.Count("late_readers", 1)
	}
	t.Count("long_writes", longs)
	got := func(p *connPair, side int) [][]byte { // what side read
		if side == 0 && p.raw != nil {
			var m [][]byte
			for _, v := range p.raw.Msgs(p.ch, "ep") {
				m = append(m, v.Data)
			}
			return m
		}
		return p.rd[side].get()
	}
	msgs := 0
	dropped := func(p *connPair, side int) bool { // this side closed the connection before it read
		by, ok := closedBy[p]
		return ok && by == side
	}
	complete := t.WaitFor(20*time.Second, func() bool {
		for _, p := range pairs {
			for side := 0; side < 2; side++ {
				if !dropped(p, side) && len(got(p, side)) < len(p.flow[1-side].sent) {
					return false
				}
			}
		}
		return true
	})
	for _, p := range pairs {
		for side := 0; side < 2; side++ {
			g := got(p, side)
			msgs += len(g)
			p.flow[1-side].check(t, fmt.Sprintf("%s, read by side %d", p.name, side), g)
			if !complete && !dropped(p, side) && len(g) < len(p.flow[1-side].sent) {
				t.Violate("%s: side %d read %d of %d messages (the other side closed the connection when they had arrived: %v)", p.name, side, len(g), len(p.flow[1-side].sent), len(closedBy) > 0)
			}
		}
	}
	if t.Violated() {
		return
	}
	// ends
	reads := 0
	endOf := func(p *connPair, side int, local bool) {
		c := p.end[side]
		if c == nil {
			return
		}
		select {
		case <-p.rd[side].done:
		case <-time.After(8 * time.Second):
			t.Violate("%s: side %d is still blocked in Read after the connection was closed (closed here: %v)", p.name, side, local)
			return
		}
		for k := 0; k < 3; k++ {
			if n, err := c.Read(make([]byte, 10)); err == nil || err == io.EOF || n != 0 {
				t.Violate("%s: side %d: Read after the connection was closed answered %d, %v", p.name, side, n, err)
				break
			}
		}
		if n, err := c.Write([]byte("too late")); err == nil || n != 0 {
			t.Violate("%s: side %d: Write after the connection was closed answered %d, %v", p.name, side, n, err)
		}
		reads += p.rd[side].read
	}
	closeConn := func(p *connPair, side int) {
		at := t.Net.Now()
		if side == 0 && p.raw != nil {
			p.ch.Close()
		} else if err := p.end[side].Close(); err != nil {
			t.Violate("%s: Close of an open connection answered %v", p.name, err)
		}
		endOf(p, side, true)
		if p.rd[side] != nil && p.rd[side].at > at+time.Millisecond {
			t.Violate("%s: Read failed %v after Close", p.name, p.rd[side].at-at)
		}
		endOf(p, 1-side, false)
		if side == 1 && p.raw != nil && !t.WaitFor(7*time.Second, p.ch.Destroyed) {
			t.Violate("%s: the accepted connection was closed but the client's channel is open", p.name)
		}
	}
	var rest []*connPair
	for _, p := range pairs {
		if by, ok := closedBy[p]; ok {
			endOf(p, by, true)
			endOf(p, 1-by, false)
			continue
		}
		switch {
		case endKind == 0 || endKind == 1:
			closeConn(p, endKind)
		case endKind == 2 && r.Bool(0.5):
			// unread messages: written, then closed by the writer; what is read must be a prefix
			for k := 0; k < 3; k++ {
				write(p, 0, Msg(99, 0, uint32(k), 700))
			}
			time.Sleep(r.Dur(0, 3*lat))
			closeConn(p, 0)
			p.flow[0].check(t, p.name+", after Close", got(p, 1))
		case endKind == 3 && r.Bool(0.5):
			// both sides at once
			var cw sync.WaitGroup
			for side := 0; side < 2; side++ {
				if p.end[side] == nil {
					continue
				}
				cw.Add(1)
				go func() { defer cw.Done(); p.end[side].Close() }()
			}
			cw.Wait()
			endOf(p, 0, true)
			endOf(p, 1, true)
		default:
			rest = append(rest, p)
		}
	}
	// the other connections still work
	for pi, p := range rest {
		for side := 0; side < 2; side++ {
			if err := write(p, side, Msg(uint32(pi), 7, uint32(side), 5000)); err != nil {
				t.Violate("%s: a write failed after other connections were closed: %v", p.name, err)
			}
		}
	}
	if !t.WaitFor(8*time.Second, func() bool {
		for _, p := range rest {
			for side := 0; side < 2; side++ {
				if len(got(p, side)) < len(p.flow[1-side].sent) {
					return false
				}
			}
		}
		return true
	}) {
		t.Violate("a connection stopped working after others were closed")
	}
	for _, p := range rest {
		for side := 0; side < 2; side++ {
			p.flow[1-side].check(t, p.name, got(p, side))
		}
	}
	// listeners
	for i, l := range ls {
		if endKind == 5 && i > 0 && r.Bool(0.5) {
			continue
		}
		if err := l.Close(); err != nil {
			t.Violate("closing a listener answered %v", err)
		}
		select {
		case <-acceptEnd[i]:
		case <-time.After(time.Second):
			t.Violate("Accept is still blocked after the listener was closed")
			return
		}
		amu.Lock()
		if acceptErr[i] == nil {
			t.Violate("Accept did not fail after the listener was closed")
		}
		amu.Unlock()
		if c, err := l.Accept(); err == nil {
			t.Violate("Accept on a closed listener answered %v", c)
		}
		for _, p := range rest {
			if p.listener == i {
				endOf(p, 1, true)
				endOf(p, 0, false)
			}
		}
		// a new listener in the same process, at the same port as a rule
		where := fmt.Sprintf(":%d", port(l))
		if NewRand(seed, 0x12e0).Bool(0.5) { // or elsewhere, when the process has dialed
			where = ":0"
		}
		if lossy {
			// a datagram of the last connection may act on a new one between
			// the same addresses (a known finding of C22): let them arrive
			time.Sleep(lat + 15*time.Millisecond)
		}
		l2, err := tru.Listen("tru", where)
		if err != nil {
			t.Violate("a new listener at %s: %v", where, err)
			return
		}
		ca := make(chan net.Conn, 1)
		go func() { c, _ := l2.Accept(); ca <- c }()
		c, err := tru.Dial("tru", dialAddr(l2))
		if err != nil {
			t.Violate("Dial to a reopened listener: %v", err)
			return
		}
		select {
		case a := <-ca:
			if a == nil {
				t.Violate("Accept on a reopened listener failed")
				return
			}
			c.Write([]byte("hello again"))
			b := make([]byte, 100)
			rd := make(chan string, 1)
			go func() { n, _ := a.Read(b); rd <- string(b[:n]) }()
			select {
			case s := <-rd:
				if s != "hello again" {
					t.Violate("the connection to a reopened listener read %q", s)
				}
			case <-time.After(5 * time.Second):
				t.Violate("nothing can be read on a connection to a reopened listener")
			}
			a.Close()
		case <-time.After(2 * time.Second):
			t.Violate("Accept on a reopened listener does not return")
		}
		l2.Close()
	}
	t.Count("connections", len(pairs))
	t.Count("msgs", msgs)
	t.Count("reads", reads)
	t.Sig(nl, nraw, endKind, msgs, reads, t.Net.Sends())
}
