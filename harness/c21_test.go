package harness

import (
	"bytes"
	"io"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C21"] = scenario{run: c21} }

// c21: buffers are reused right after the write, delivered slices are kept.
func c21(t *Trial) {
	r := t.R
	if r.Bool(0.2) {
		c21conn(t)
		return
	}
	nch := r.Range(1, 4)
	max := []int{0, 0, 40, 65, 100, 300, 1000}[r.Intn(7)]
	s := t.NewEP(0)
	if max > 0 {
		s.T.SetMaxDataLen(max)
	}
	type link struct {
		e        *EP
		cch, sch *tru.Channel
		fc, fs   Flow
	}
	var links []*link
	own := r.Bool(0.3)
	for i := 0; i < nch; i++ {
		l := &link{e: t.NewEP(0)}
		if max > 0 {
			l.e.T.SetMaxDataLen(max)
		}
		var rd []tru.ReaderFunc
		if own {
			rd = append(rd, l.e.ChReader(true))
		}
		if l.cch, l.sch = t.Pair(s, l.e, rd...); l.cch == nil {
			return
		}
		links = append(links, l)
	}
	wire := t.Net.Record()
	base := t.Net.Now()
	plan := DrawFaults(r, base+2*time.Second)
	for i := range plan.Black {
		plan.Black[i][0] += base
		plan.Black[i][1] += base
	}
	t.Net.SetPolicy(plan.Fates)
	maxLen := 2500
	if max > 0 {
		maxLen = min(2500, max*7)
	}
	n := r.Range(4, 50)
	shared := r.Bool(0.4) // one buffer is written to all channels at the same time
	t.Desc("channels=%d max=%d msgs=%d shared=%v own=%v %v", nch, max, n, shared, own, plan)

	// write writes a buffer with spare capacity, looks at it and spoils it.
	var writes, seen atomic.Int64
	write := func(f *Flow, ch *tru.Channel, big []byte, n int, rr *Rand, spoil bool) {
		before := append([]byte(nil), big...)
		var opt []any
		if rr.Bool(0.3) {
			opt = append(opt, func(pac *tru.Packet, err error) {})
		}
		b := big[:n]
		if rr.Bool(0.3) {
			b = big[:n:n]
		}
		if err := f.Write(ch, b, opt...); err != nil {
			t.Violate("a write failed: %v", err)
			return
		}
		writes.Add(1)
		if !bytes.Equal(big, before) {
			t.Violate("a write of %d bytes (capacity %d) changed the caller's buffer: %s", n, cap(b), diffAt(before, big))
		}
		if spoil {
			switch rr.Intn(3) {
			case 0:
				clear(big)
			case 1:
				fill(big, rr.U64())
			default:
				for i := range big {
					big[i] ^= 0x5a
				}
			}
		}
	}
	keep := func(e *EP, final bool) {
		for _, v := range e.Evs(func(v *Ev) bool { return v.Err == nil }) {
			if final {
				seen.Add(1)
			}
			if !bytes.Equal(v.Slice, v.Data) {
				t.Violate("the %d bytes handed to a reader at %v changed later: %s", len(v.Data), v.T, diffAt(v.Data, v.Slice))
				return
			}
		}
	}
	var wg sync.WaitGroup
	for i, l := range links {
		for side, f := range []*Flow{&l.fc, &l.fs} {
			if shared && side == 1 {
				break
			}
			rr := NewRand(r.U64())
			ch := l.cch
			if side == 1 {
				ch = l.sch
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				big := make([]byte, maxLen+128) // one buffer for everything
				for k := 0; k < n; k++ {
					m := DrawLen(rr, maxLen)
					copy(big, Msg(uint32(i), uint32(side), uint32(k), m))
					fill(big[m:], rr.U64())
					write(f, ch, big[:m+rr.Intn(128)], m, rr, true)
					if rr.Bool(0.15) {
						time.Sleep(rr.Dur(0, 60*time.Millisecond))
					}
				}
			}()
		}
	}
	wg.Wait()
	if shared {
		for k := 0; k < n; k++ {
			m := DrawLen(r, maxLen)
			big := make([]byte, m+r.Intn(128))
			copy(big, Msg(99, 0, uint32(k), m))
			for _, l := range links {
				rr := NewRand(r.U64())
				wg.Add(1)
				go func() {
					defer wg.Done()
					write(&l.fs, l.sch, big, m, rr, false)
				}()
			}
			wg.Wait()
			fill(big, r.U64())
		}
	}
	done := func() bool {
		for _, l := range links {
			w := "ep"
			if own {
				w = "ch"
			}
			if s.NMsgs(l.sch, "ep") < l.fc.N() || l.e.NMsgs(l.cch, w) < l.fs.N() {
				return false
			}
		}
		return true
	}
	t.WaitFor(20*time.Second, done)
	for _, l := range links {
		keep(l.e, false)
	}
	keep(s, false)
	time.Sleep(time.Second)
	// more messages arrive
	for i, l := range links {
		for k := 0; k < 5; k++ {
			l.fc.Write(l.cch, Msg(uint32(i), 0, uint32(1000+k), DrawLen(r, maxLen)))
			l.fs.Write(l.sch, Msg(uint32(i), 1, uint32(1000+k), DrawLen(r, maxLen)))
		}
	}
	t.WaitFor(20*time.Second, done)
	if !done() {
		t.Count("incomplete", 1)
	}
	keep(s, true)
	for _, l := range links {
		w := "ep"
		if own {
			w = "ch"
		}
		keep(l.e, true)
		l.fc.CheckPrefix(t, "client to server", s.Msgs(l.sch, "ep"))
		l.fs.CheckPrefix(t, "server to client", l.e.Msgs(l.cch, w))
	}
	// every copy of a packet is the same
	type pk struct {
		from, to string
		id       uint32
	}
	sent, _ := t.Net.Snapshot(wire)
	first := map[pk]*Dgram{}
	for _, d := range sent {
		if !isData(d.Status) || d.Raw {
			continue
		}
		k := pk{d.From, d.To, d.ID}
		if f := first[k]; f == nil {
			first[k] = d
		} else {
			t.Count("repeats", 1)
			if !bytes.Equal(f.Data, d.Data) {
				t.Violate("a later copy of packet %d differs from the first: %s", d.ID, diffAt(f.Data, d.Data))
				break
			}
		}
	}
	// punches and raw writes leave the buffer alone, too
	for i := 0; i < 4; i++ {
		big := r.Bytes(r.Range(4, 300))
		before := append([]byte(nil), big...)
		m := r.Intn(len(big) + 1)
		if i%2 == 0 {
			s.T.WriteToPunch(big[:m], "127.0.0.1:9")
		} else {
			s.T.WriteTo(big[:m], "127.0.0.1:9")
		}
		if !bytes.Equal(big, before) {
			t.Violate("a punch or raw write changed the caller's buffer: %s", diffAt(before, big))
		}
	}
	t.Count("writes", int(writes.Load()))
	t.Count("kept", int(seen.Load()))
	t.Sig(nch, max, n, shared, plan.Name, t.Net.Sends())
}

// c21conn: the same over net.Conn.
func c21conn(t *Trial) {
	r := t.R
	lat := r.Lat(3 * time.Millisecond)
	p := 0.3 * r.Float()
	seed := r.U64()
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if isData(d.Status) && d.Copy < 4 && NewRand(seed, hashOf(d.From, d.ID, d.Copy)).Bool(p) {
			return nil
		}
		return []Fate{{Delay: lat}}
	})
	t.Desc("net.Conn loss=%.2f lat=%v", p, lat)
	l, err := tru.Listen("tru", ":0")
	if err != nil {
		t.Violate("Listen: %v", err)
		return
	}
	defer l.Close()
	acc := make(chan any, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			acc <- err
			return
		}
		acc <- c
	}()
	e := t.NewEP(0)
	ch, err := e.T.Connect(l.Addr().String())
	if err != nil {
		t.Violate("Connect: %v", err)
		return
	}
	conn, ok := (<-acc).(interface {
		io.Reader
		io.Writer
	})
	if !ok {
		t.Violate("Accept failed")
		return
	}
	n := r.Range(5, 60)
	var want [][]byte
	for i := 0; i < n; i++ {
		want = append(want, Msg(1, 1, uint32(i), DrawLen(r, 2000)))
	}
	// conn writes, reusing its buffer
	big := make([]byte, 2200)
	for _, w := range want {
		fill(big, r.U64())
		copy(big, w)
		b := big[:len(w)+r.Intn(100)]
		before := append([]byte(nil), b...)
		if k, err := conn.Write(b[:len(w)]); err != nil || k != len(w) {
			t.Violate("Write: %d, %v", k, err)
			return
		}
		if !bytes.Equal(b, before) {
			t.Violate("Write changed the caller's buffer: %s", diffAt(before, b))
		}
		clear(big)
		t.Count("writes", 1)
	}
	if !t.WaitFor(20*time.Second, func() bool { return e.NMsgs(ch, "ep") >= n }) {
		t.Count("incomplete", 1)
	}
	for i, v := range e.Msgs(ch, "ep") {
		if i < n && !bytes.Equal(v.Data, want[i]) {
			t.Violate("message %d written through a reused buffer arrived as %s", i, short(v.Data))
			return
		}
	}
	// conn reads, keeping what it read
	for _, w := range want {
		ch.WriteTo(w)
	}
	var got [][]byte
	for range want {
		var m []byte
		for {
			b := make([]byte, r.Range(1, 900))
			k, err := conn.Read(b)
			m = append(m, b[:k]...)
			if err == io.EOF {
				break
			}
			if err != nil {
				t.Violate("Read: %v", err)
				return
			}
		}
		got = append(got, m)
		t.Count("kept", 1)
	}
	for i := range want {
		if !bytes.Equal(got[i], want[i]) {
			t.Violate("message %d was read as %s", i, short(got[i]))
			return
		}
	}
	t.Sig(n, lat, t.Net.Sends())
}

func diffAt(a, b []byte) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return "from byte " + strconv.Itoa(i) + " of " + strconv.Itoa(len(a))
		}
	}
	return "length " + strconv.Itoa(len(a)) + " to " + strconv.Itoa(len(b))
}
