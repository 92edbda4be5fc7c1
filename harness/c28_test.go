package harness

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C28"] = scenario{run: c28} }

// c28end is one end of a connection, and the deadlines set on it.
type c28end struct {
	name  string
	conn  net.Conn
	setMu chan bool // one setting at a time, so that the model knows their order
	mu    sync.Mutex
	dl    time.Time // read deadline; zero: none
	since time.Time // when it was set
	prev  time.Time // the one before it
	wdl   time.Time
	sent  [][]byte // by the peer
	got   [][]byte
	cur   []byte
}

func (e *c28end) set(t *Trial, d time.Time, how int) {
	e.setMu <- true
	defer func() { <-e.setMu }()
	e.mu.Lock()
	if how != 1 {
		e.prev, e.dl, e.since = e.dl, d, time.Now()
	}
	if how != 0 {
		e.wdl = d
	}
	e.mu.Unlock()
	var err error
	switch how {
	case 0:
		err = e.conn.SetReadDeadline(d)
	case 1:
		err = e.conn.SetWriteDeadline(d)
	default:
		err = e.conn.SetDeadline(d)
	}
	if err != nil {
		t.Violate("%s: setting a deadline of an open connection answered %v", e.name, err)
	}
}

func c28timeout(err error) bool {
	var ne net.Error
	return errors.Is(err, os.ErrDeadlineExceeded) && errors.As(err, &ne) && ne.Timeout()
}

// read makes one Read and judges it; ok is false when the connection has ended.
func (e *c28end) read(t *Trial, n int) (timeout, ok bool) {
	const eps = time.Millisecond
	start := time.Now()
	e.mu.Lock()
	dl0, since0 := e.dl, e.since
	e.mu.Unlock()
	b := make([]byte, n)
	k, err := e.conn.Read(b)
	end := time.Now()
	e.mu.Lock()
	defer e.mu.Unlock()
	changed := !e.since.Equal(since0) || !e.dl.Equal(dl0)
	past := func(d time.Time) bool { return !d.IsZero() && !d.After(end) }
	switch {
	case c28timeout(err):
		if k != 0 {
			t.Violate("%s: Read answered %d bytes and a timeout", e.name, k)
		}
		if !past(e.dl) && !(end.Sub(e.since) < eps && past(e.prev)) {
			t.Violate("%s: Read timed out at %v, %v before its deadline (zero deadline: %v)", e.name, t.Net.Now(), e.dl.Sub(end), e.dl.IsZero())
		}
		due := start
		for _, x := range []time.Time{e.dl, e.since} {
			if x.After(due) {
				due = x
			}
		}
		if d := end.Sub(due); d > eps {
			t.Violate("%s: Read timed out %v after the deadline", e.name, d)
		}
		t.Count("read_timeouts", 1)
		return true, true
	case err != nil && err != io.EOF:
		return false, false
	}
	// data or the end of a message
	if !changed && !dl0.IsZero() && dl0.Before(start) {
		t.Violate("%s: Read answered %d, %v though the deadline had passed %v before", e.name, k, err, start.Sub(dl0))
	}
	if !changed && !dl0.IsZero() && end.After(start) && end.Sub(dl0) > eps {
		t.Violate("%s: a blocked Read returned %v after its deadline", e.name, end.Sub(dl0))
	}
	e.cur = append(e.cur, b[:k]...)
	if err == io.EOF {
		e.got = append(e.got, e.cur)
		e.cur = nil
	}
	return false, true
}

// c28: deadlines of connections.
func c28(t *Trial) {
	r := t.R
	lat := r.Lat(20 * time.Millisecond)
	t.Net.SetPolicy(func(d *Dgram) []Fate { return []Fate{{Delay: lat}} })
	l, err := tru.Listen("tru", ":0")
	if err != nil {
		t.Violate("Listen failed: %v", err)
		return
	}
	type accepted struct {
		c   net.Conn
		err error
	}
	acc := make(chan accepted)
	go func() { c, err := l.Accept(); acc <- accepted{c, err} }()
	dc, err := tru.Dial("tru", fmt.Sprintf("127.0.0.1:%d", l.Addr().(*net.UDPAddr).Port))
	if err != nil {
		t.Violate("Dial failed over a network without losses: %v", err)
		l.Close()
		return
	}
	a := <-acc
	if a.err != nil {
		t.Violate("Accept failed: %v", a.err)
		l.Close()
		return
	}
	ends := []*c28end{
		{name: "dialed end", conn: dc, setMu: make(chan bool, 1)},
		{name: "accepted end", conn: a.c, setMu: make(chan bool, 1)},
	}
	readers := r.Range(1, 2) // several goroutines blocked in Read when nothing comes
	busy := r.Bool(0.5)
	t.Desc("lat=%v readers=%d busy=%v", lat, readers, busy)

	var wg sync.WaitGroup
	stop := make(chan bool)
	over := func() bool {
		select {
		case <-stop:
			return true
		default:
			return false
		}
	}
	timeouts := 0
	for i, e := range ends {
		peer := ends[1-i]
		// writer: what it writes after its write deadline is refused and never read
		rw, side := NewRand(r.U64()), uint32(i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := uint32(0); !over(); k++ {
				if busy {
					time.Sleep(rw.Dur(0, 300*time.Millisecond))
				} else {
					time.Sleep(rw.Dur(0, 4*time.Second))
				}
				if rw.Bool(0.3) {
					d := time.Time{}
					if rw.Bool(0.7) {
						d = time.Now().Add(rw.Dur(0, 2*time.Second) - time.Second)
					}
					e.set(t, d, 1)
				}
				b := Msg(28, side, k, DrawLen(rw, 3000))
				e.setMu <- true
				e.mu.Lock()
				wdl := e.wdl
				e.mu.Unlock()
				start := time.Now()
				peer.mu.Lock()
				peer.sent = append(peer.sent, b)
				at := len(peer.sent) - 1
				peer.mu.Unlock()
				n, err := e.conn.Write(b)
				<-e.setMu
				if rw.Bool(0.3) { // just when the message arrives
					peer.set(t, time.Now().Add(lat), 0)
				}
				switch {
				case c28timeout(err):
					if wdl.IsZero() || wdl.After(time.Now()) {
						t.Violate("%s: Write timed out before its deadline", e.name)
					}
					if n != 0 {
						t.Violate("%s: Write answered %d and a timeout", e.name, n)
					}
					peer.mu.Lock()
					peer.sent = peer.sent[:at]
					peer.mu.Unlock()
					t.Count("write_timeouts", 1)
				case err != nil || n != len(b):
					t.Violate("%s: Write of %d bytes on an open connection answered %d, %v", e.name, len(b), n, err)
				case !wdl.IsZero() && wdl.Before(start):
					t.Violate("%s: Write succeeded %v after its deadline", e.name, start.Sub(wdl))
				}
			}
		}()
		// somebody else moves the deadlines now and then
		rs := NewRand(r.U64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !over() {
				time.Sleep(rs.Dur(0, 3*time.Second))
				switch rs.Intn(5) {
				case 0:
					e.set(t, time.Time{}, []int{0, 2}[rs.Intn(2)])
				case 1: // long ago
					e.set(t, time.Unix(1, 0), 0)
				default:
					e.set(t, time.Now().Add(rs.Dur(0, 2500*time.Millisecond)), []int{0, 0, 2}[rs.Intn(3)])
				}
			}
		}()
	}
	// readers
	rd := make(chan bool)
	var rwg sync.WaitGroup
	var mu sync.Mutex
	for _, e := range ends {
		rr := NewRand(r.U64())
		rwg.Add(1)
		go func() {
			defer rwg.Done()
			for {
				size := []int{rr.Range(1, 10), rr.Range(1, 5000), 1 << 16}[rr.Intn(3)]
				select {
				case <-rd: // the deadlines are cleared for good
					size = 1 << 16
				default:
					if rr.Bool(0.3) {
						time.Sleep(rr.Dur(0, 500*time.Millisecond))
					}
					if rr.Bool(0.2) {
						e.set(t, time.Now().Add(rr.Dur(0, time.Second)-100*time.Millisecond), 0)
					}
				}
				timeout, ok := e.read(t, size)
				if !ok {
					return
				}
				if timeout {
					mu.Lock()
					timeouts++
					mu.Unlock()
					time.Sleep(rr.Dur(0, 300*time.Millisecond)) // a passed deadline keeps failing
				}
			}
		}()
	}
	time.Sleep(time.Duration(r.Range(10, 40)) * time.Second)
	close(stop)
	wg.Wait()
	close(rd)
	time.Sleep(2 * time.Second) // settings under way
	for _, e := range ends {
		e.set(t, time.Time{}, 2)
	}
	msgs := 0
	count := func(e *c28end) (int, int) { e.mu.Lock(); defer e.mu.Unlock(); return len(e.got), len(e.sent) }
	if !t.WaitFor(5*time.Second, func() bool {
		for _, e := range ends {
			if g, s := count(e); g < s {
				return false
			}
		}
		return true
	}) {
		for _, e := range ends {
			g, s := count(e)
			t.Note("%s read %d of %d", e.name, g, s)
		}
		t.Violate("messages are missing after the deadlines were cleared")
	}
	for _, e := range ends {
		e.mu.Lock()
		for i, g := range e.got {
			if i >= len(e.sent) || string(g) != string(e.sent[i]) {
				t.Violate("%s: message %d read is %s, it is not what was written", e.name, i, short(g))
				break
			}
		}
		msgs += len(e.got)
		e.mu.Unlock()
	}
	// the ends: readers blocked with a deadline far away, or several of them with one soon
	last := r.Intn(3)
	switch last {
	case 0:
		for _, e := range ends {
			e.set(t, time.Now().Add(time.Hour), 2)
		}
	case 1:
		e := ends[r.Intn(2)]
		d := r.Dur(time.Millisecond, time.Second)
		e.set(t, time.Now().Add(d), 2)
		start := time.Now()
		var more sync.WaitGroup
		for k := 0; k < readers; k++ {
			more.Add(1)
			go func() {
				defer more.Done()
				n, err := e.conn.Read(make([]byte, 10))
				if !c28timeout(err) || n != 0 {
					t.Violate("%s: a Read with nothing to read answered %d, %v", e.name, n, err)
				} else if w := time.Since(start); w < d || w > d+time.Millisecond {
					t.Violate("%s: one of several Reads timed out after %v, the deadline was %v", e.name, w, d)
				}
				t.Count("read_timeouts", 1)
			}()
		}
		ended := make(chan bool)
		go func() { more.Wait(); close(ended) }()
		select {
		case <-ended:
		case <-time.After(d + 5*time.Second):
			t.Violate("%s: one of several blocked Reads is still blocked 5 s after the deadline", e.name)
		}
		e.set(t, time.Time{}, 2)
	}
	by := r.Intn(2)
	at := time.Now()
	if err := ends[by].conn.Close(); err != nil {
		t.Violate("%s: Close answered %v", ends[by].name, err)
	}
	closed := make(chan bool)
	go func() { rwg.Wait(); close(closed) }()
	select {
	case <-closed:
		if d := time.Since(at); d > 7*time.Second {
			t.Violate("blocked Reads ended %v after Close", d)
		}
	case <-time.After(10 * time.Second):
		t.Violate("a Read with a far deadline is still blocked 10 s after Close")
		ends[1-by].conn.Close()
	}
	ends[1-by].conn.Close()
	l.Close()
	t.Count("msgs", msgs)
	mu.Lock()
	defer mu.Unlock()
	t.Sig(msgs, timeouts, last, busy, t.Net.Sends())
}
