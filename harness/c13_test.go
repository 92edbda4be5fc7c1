package harness

import (
	"bytes"
	"encoding/binary"
	"sync/atomic"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C13"] = scenario{run: c13} }

// c13: a channel really carries more than 2^20 packets. Away from the wrap the
// network is clean; around it datagrams are lost, repeated, delayed and overtaken
// and messages straddle the wrap.
func c13(t *Trial) {
	switch t.Index % 3 {
	case 0:
		c13real(t, true)
	case 1:
		c13real(t, false)
	case 2:
		c13ref(t)
	}
}

const c13near = 400 // packets before and after the wrap that meet faults

func c13msg(i uint32, n int) []byte {
	b := make([]byte, n)
	binary.LittleEndian.PutUint32(b, i)
	for k := 4; k < n; k++ {
		b[k] = byte(uint32(k) * (i + 1))
	}
	return b
}

// c13faults draws the behaviour around the wrap.
func c13faults(t *Trial, from string, lastID *atomic.Uint32) (Policy, string) {
	r := t.R
	plan := DrawFaults(r, 0)
	for plan.Name == "clean" || plan.Name == "outage" {
		plan = DrawFaults(r, 0)
	}
	plan.Lat = r.Lat(time.Millisecond)
	return func(d *Dgram) []Fate {
		if isData(d.Status) && d.From == from && d.Copy == 0 {
			lastID.Store(d.ID)
		}
		id := d.ID
		if (isData(d.Status) || d.Status == stAck) && (id < c13near || id >= idLimit-c13near) {
			if at := lastID.Load(); at < c13near+2000 || at >= idLimit-c13near { // not at the very beginning of the channel
				return plan.Fates(d)
			}
		}
		return []Fate{{}}
	}, plan.String()
}

// both ends are endpoints under test
func c13real(t *Trial, serverSends bool) {
	r := t.R
	t.Net.NoCopies = true
	const max = 16
	var want atomic.Uint32 // next message expected
	var bad atomic.Bool
	lens := func(i, id uint32) int { // message length by number; longer around the wrap
		if id%idLimit >= idLimit-c13near || id%idLimit < c13near {
			return 4 + int(mix(uint64(i))%60)
		}
		return 4 + int(i%12)
	}
	var sizes []byte // length of each message, written before it is sent
	sizes = make([]byte, 0, 1<<21)
	var nmsg atomic.Uint32
	reader := func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		if err != nil {
			if bad.Load() {
				return true
			}
			t.Violate("the reader was told %v after %d messages", err, want.Load())
			bad.Store(true)
			return true
		}
		i := want.Load()
		if i >= nmsg.Load() {
			if !bad.Swap(true) {
				t.Violate("message %d was handed over but only %d were written: %s", i, nmsg.Load(), short(pac.Data()))
			}
			return true
		}
		if !bytes.Equal(pac.Data(), c13msg(i, int(sizes[i]))) {
			if !bad.Swap(true) {
				t.Violate("message %d was handed over as %s, written was %s", i, short(pac.Data()), short(c13msg(i, int(sizes[i]))))
			}
			return true
		}
		want.Add(1)
		return true
	}
	sizes = sizes[:cap(sizes)]
	s, c := t.NewEP(0), t.NewEP(0)
	s.T.SetMaxDataLen(max)
	c.T.SetMaxDataLen(max)
	c.T.SetSendDelay(0)
	var cch, sch *tru.Channel
	var from *EP
	if serverSends {
		cch, sch = t.Pair(s, c, reader)
		from = s
	} else {
		// the reader has to be on the server's side: swap the roles of hub and dialer
		s.OnMsg = nil
		s.Raw = reader
		cch, sch = t.Pair(s, c)
		from = c
	}
	if cch == nil {
		return
	}
	ch := cch
	if serverSends {
		ch = sch
	}
	var lastID atomic.Uint32
	pol, desc := c13faults(t, from.Addr, &lastID)
	start := false
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if !start {
			return []Fate{{}}
		}
		return pol(d)
	})
	t.Desc("server sends=%v %s", serverSends, desc)
	wraps := 1
	if t.Tier == "thorough" {
		wraps = 2
	}
	target := uint64(wraps)*idLimit + 3*c13near
	var packets uint64
	wrapped := 0
	lastid := -1
	for packets < target && !bad.Load() {
		i := nmsg.Load()
		n := lens(i, uint32(packets%idLimit))
		if int(i) >= len(sizes) {
			break
		}
		sizes[i] = byte(n)
		nmsg.Add(1)
		id, err := ch.WriteTo(c13msg(i, n))
		if err != nil {
			t.Violate("write %d failed after %d packets: %v", i, packets, err)
			return
		}
		if id < lastid {
			wrapped++
		}
		lastid = id
		if id != int(packets%idLimit) {
			t.Violate("message %d was written with packet number %d after %d packets", i, id, packets)
			return
		}
		packets += uint64(max1((n + max - 1) / max))
		near := packets%idLimit > idLimit-c13near || packets%idLimit < c13near
		if packets > 10000 {
			start = true
		}
		if i%64 == 63 && !near {
			t.WaitFor(30*time.Second, func() bool { return want.Load() >= nmsg.Load() || bad.Load() })
			if want.Load() < nmsg.Load() {
				break
			}
		}
		if near && i%8 == 7 {
			time.Sleep(r.Dur(0, 4*time.Millisecond))
		}
	}
	t.WaitFor(30*time.Second, func() bool { return want.Load() >= nmsg.Load() || bad.Load() })
	if want.Load() < nmsg.Load() && !bad.Load() {
		t.Violate("after %d packets (%d wraps) only %d of %d messages were handed over", packets, wrapped, want.Load(), nmsg.Load())
	}
	t.Net.SetPolicy(func(*Dgram) []Fate { return []Fate{{}} })
	time.Sleep(4 * time.Second)
	if st := from.T.Statistic(); len(st) != 1 || st[0].SQ != 0 {
		t.Violate("after the wrap the sender still holds packets: %+v", st)
	}
	if wrapped < wraps && !t.Violated() {
		t.Violate("after %d packets the packet numbers have wrapped %d times", packets, wrapped)
	}
	bad.Store(true) // no more complaints while closing
	s.Raw = nil
	t.Count("packets", int(packets))
	t.Count("wraps", wrapped)
	t.Sig(desc, serverSends, t.Net.Sends())
}

func max1(n int) int { return max(n, 1) }

// a scripted peer sends: the datagrams around the wrap are shuffled, repeated and
// replayed on purpose
func c13ref(t *Trial) {
	r := t.R
	t.Net.NoCopies = true
	e := t.NewEP(0)
	var want, limit atomic.Uint32
	var bad atomic.Bool
	e.Raw = func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		if err != nil {
			return true
		}
		i := want.Load()
		if i >= limit.Load() || !bytes.Equal(pac.Data(), c13msg(i, 4+int(i%20))) {
			if !bad.Swap(true) {
				t.Violate("message %d was handed over as %s", i, short(pac.Data()))
			}
			return true
		}
		want.Add(1)
		return true
	}
	f := t.NewRef(e.Addr)
	defer f.Close()
	f.Quiet = true
	t.Net.SetPolicy(func(*Dgram) []Fate { return []Fate{{}} })
	if err := f.Connect(); err != nil {
		t.Violate("connecting a reference peer failed: %v", err)
		return
	}
	send := func(i uint32) { f.SendData(stData, i%idLimit, c13msg(i, 4+int(i%20))) }
	window := r.Range(5, 300)
	t.Desc("scripted sender, window %d", window)
	wraps := uint32(1)
	if t.Tier == "thorough" {
		wraps = 3
	}
	sync := func(n uint32) bool {
		return t.WaitFor(2*time.Second, func() bool { return want.Load() >= n || bad.Load() }) && !bad.Load()
	}
	repeats := 0
	for i := uint32(0); i < wraps*idLimit+3000; {
		near := (i+2000)%idLimit < 4000 && i > 2000
		if !near {
			n := uint32(100)
			limit.Store(i + n)
			for k := uint32(0); k < n; k++ {
				send(i + k)
			}
			i += n
			if !sync(i) {
				t.Violate("packets up to %d were sent, %d messages handed over", i, want.Load())
				break
			}
			if i > 5000 && r.Bool(0.03) {
				// packets handed over long ago, again
				for k := 0; k < 8; k++ {
					d := []uint32{1, 100, 3000, 40000, 66000, 140000, 270000, 450000}[k]
					d += uint32(r.Intn(int(d)))
					if d = min(d, i, 500000); d%idLimit < idLimit/2 {
						send(i - d)
						repeats++
					}
				}
				time.Sleep(20 * time.Millisecond)
				if st := e.T.Statistic(); len(st) == 1 && st[0].RQ != 0 {
					t.Violate("after repeats of old packets at packet %d, %d of them stay in the receive queue", i, st[0].RQ)
					break
				}
			}
			continue
		}
		// a window in random order, with repeats of it and of older packets
		n := uint32(window)
		limit.Store(i + n)
		ord := make([]uint32, 0, n*2)
		for k := uint32(0); k < n; k++ {
			ord = append(ord, i+k)
			if r.Bool(0.3) {
				ord = append(ord, i+k)
				repeats++
			}
			if r.Bool(0.3) {
				ord = append(ord, i-uint32(r.Intn(min(int(i), 3000))))
				repeats++
			}
		}
		for a := len(ord) - 1; a > 0; a-- {
			b := r.Intn(a + 1)
			ord[a], ord[b] = ord[b], ord[a]
		}
		for _, x := range ord {
			send(x)
		}
		i += n
		if !sync(i) {
			t.Violate("around the wrap packets up to %d were sent in some order, %d messages handed over", i, want.Load())
			break
		}
	}
	time.Sleep(100 * time.Millisecond)
	if want.Load() > limit.Load() {
		t.Violate("more messages handed over than sent")
	}
	if st := e.T.Statistic(); len(st) == 1 && st[0].RQ != 0 && !t.Violated() {
		t.Violate("after the wrap %d packets stay in the receive queue", st[0].RQ)
	}
	bad.Store(true)
	t.Count("packets", int(want.Load()))
	t.Count("wraps", int(want.Load()/idLimit))
	t.Count("repeats", repeats)
	t.Sig("ref", window, repeats)
}
