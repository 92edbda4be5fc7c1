package harness

import (
	"bytes"
	"sync"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C20"] = scenario{run: c20} }

// c20: a scripted peer sends and withholds data and acknowledgements.
func c20(t *Trial) {
	r := t.R
	lat := r.Lat(30 * time.Millisecond)
	if r.Bool(0.2) {
		lat = r.Dur(0, 400*time.Millisecond)
	}
	t.Net.SetPolicy(func(d *Dgram) []Fate { return []Fate{{Delay: lat}} })
	e := t.NewEP(0)
	e.T.SetMaxDataLen(r.Range(30, 300))
	f := t.NewRef(e.Addr)
	defer f.Close()
	var ch *tru.Channel
	client := r.Bool(0.5)
	if client {
		c, err := e.T.Connect(f.Addr)
		if err != nil {
			t.Violate("Connect to a reference peer failed: %v", err)
			return
		}
		ch = c
	} else {
		if err := f.Connect(); err != nil {
			t.Violate("a reference peer cannot connect: %v", err)
			return
		}
		ch = e.Peer(f.Addr)
		if ch == nil {
			t.Violate("no channel to a connected reference peer")
			return
		}
	}
	time.Sleep(lat)
	wire := t.Net.Record()
	// the peer stays reachable
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(900 * time.Millisecond):
				f.Send(Pack(stPing, 0, nil))
			}
		}
	}()
	defer close(stop)
	if r.Bool(0.5) {
		c20recv(t, e, f, ch, lat, wire)
	} else {
		c20send(t, e, f, ch, lat, wire)
	}
}

// c20recv: which packets are acknowledged.
func c20recv(t *Trial, e *EP, f *Ref, ch *tru.Channel, lat time.Duration, wire *Wire) {
	r := t.R
	n := r.Range(5, 80)
	sealed := map[uint32][]byte{}
	next := uint32(0)
	valid := map[uint32]int{}
	bad := 0
	early, late := 0, 0
	hi := uint32(0)
	send := func(id uint32) {
		b := sealed[id]
		if b == nil {
			st := uint8(stData)
			if r.Bool(0.2) {
				st = stDataNext
			}
			b = Pack(st, id, SealData(f.Sess(), id, r.Bytes(DrawLen(r, 400))))
			sealed[id] = b
		}
		f.Send(b)
		valid[id]++
		if id != next {
			early++
		}
		for sealed[next] != nil {
			next++
		}
	}
	for i := 0; i < n; i++ {
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			send(next)
		case 4, 5: // early
			id := next + uint32(r.Range(1, 10))
			if r.Bool(0.1) {
				id = next + uint32(r.Range(11, idLimit/2-20))
			}
			send(id)
			if id > hi {
				hi = id
			}
		case 6, 7: // a repeat of something sent before
			if next > 0 {
				send(uint32(r.Intn(int(next))))
				late++
			}
		case 8: // far behind: a number of the other half of the range
			id := uint32(idLimit - 1 - r.Intn(100))
			if next < 1000 {
				send(id)
				late++
			}
		case 9: // cannot be decrypted
			id := next + uint32(r.Intn(3))
			b := SealData(f.Sess(), id, r.Bytes(r.Range(65, 300)))
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			f.Send(Pack(stData, id, b))
			bad++
		case 10: // acknowledgements of numbers never sent
			f.Send(Pack(stAck, uint32(r.Intn(idLimit)), nil))
		case 11:
			k := r.Range(1, 4) // a burst of equal packets
			id := next
			for ; k > 0; k-- {
				send(id)
			}
		}
		if r.Bool(0.4) {
			time.Sleep(r.Dur(0, 100*time.Millisecond))
		}
		if r.Bool(0.05) {
			time.Sleep(r.Dur(0, 5*time.Second))
		}
	}
	t.Desc("receiver: %d arrivals, lat=%v", n, lat)
	time.Sleep(2*lat + 300*time.Millisecond)
	if ch.Destroyed() {
		t.Violate("the channel ended although the peer is there")
		return
	}
	total := 0
	for id, k := range valid {
		total += k
		if a := f.Acks(id); a != k {
			t.Violate("packet %d arrived %d times and was acknowledged %d times", id, k, a)
		}
	}
	acks := 0
	for _, p := range f.Log() {
		if p.St == stAck {
			acks++
			if valid[p.ID] == 0 {
				t.Violate("number %d was acknowledged, but no valid packet with it was sent", p.ID)
			}
			if len(p.Raw) != 4 {
				t.Violate("an acknowledgement carries %d bytes of payload", len(p.Raw)-4)
			}
		}
	}
	// each acknowledgement follows its packet at once
	_, recv := t.Net.Snapshot(wire)
	sent, _ := t.Net.Snapshot(wire)
	arr := map[uint32][]time.Duration{}
	for _, d := range recv {
		if d.From == f.Addr && isData(d.Status) && sealed[d.ID] != nil && bytes.Equal(d.Data, sealed[d.ID]) {
			arr[d.ID] = append(arr[d.ID], d.T)
		}
	}
	k := map[uint32]int{}
	for _, d := range sent {
		if d.From == e.Addr && d.To == f.Addr && d.Status == stAck {
			i := k[d.ID]
			k[d.ID]++
			if i < len(arr[d.ID]) && (d.T < arr[d.ID][i] || d.T > arr[d.ID][i]+50*time.Millisecond) {
				t.Violate("packet %d arrived at %v and was acknowledged at %v", d.ID, arr[d.ID][i], d.T)
			}
		}
	}
	t.Count("acknowledged", acks)
	t.Count("repeats_received", late)
	t.Count("early", early)
	t.Count("undecryptable", bad)
	t.Sig("recv", n, acks, bad, next)
}

// c20send: when packets are repeated.
func c20send(t *Trial, e *EP, f *Ref, ch *tru.Channel, lat time.Duration, wire *Wire) {
	r := t.R
	kind := r.Intn(4)
	seed := r.U64()
	var mu sync.Mutex
	copies := map[uint32]int{}
	never := map[uint32]bool{}
	limit := kind == 3
	n := r.Range(1, 40)
	victim := uint32(r.Intn(n))
	withhold := r.Range(1, 12)
	ackLate := r.Dur(0, 4*time.Second)
	storm := r.Bool(0.3)
	maxLen := 900
	if t.Index%25 == 7 { // far more outstanding packets than a window holds
		kind, limit, storm, maxLen = 1, false, false, 40
		n = r.Range(600, 3000)
		withhold = r.Range(5, 9)
	}
	f.OnPkt = func(p *RPkt) bool {
		mu.Lock()
		c := copies[p.ID]
		copies[p.ID]++
		mu.Unlock()
		rr := NewRand(seed, uint64(p.ID))
		if p.Err != nil {
			t.Violate("data packet %d cannot be decrypted: %v", p.ID, p.Err)
		}
		id := p.ID
		if storm { // acknowledgements that mean nothing
			f.Send(Pack(stAck, (id+uint32(rr.Range(1000, 5000)))%idLimit, nil))
		}
		if limit && id == victim {
			mu.Lock()
			never[id] = true
			mu.Unlock()
			return false
		}
		switch kind {
		case 0:
			return true
		case 1: // the first copies are not acknowledged
			return c >= rr.Intn(withhold+1)
		case 2: // acknowledged late, several times
			d := rr.Dur(0, ackLate)
			for i := rr.Intn(3); i >= 0; i-- {
				time.AfterFunc(d+time.Duration(i)*rr.Dur(0, time.Second), func() { f.Send(Pack(stAck, id, nil)) })
			}
			return false
		}
		return rr.Bool(0.9) || c > 0
	}
	if r.Bool(0.3) { // acknowledged before it is sent: means nothing
		for i := 0; i < 20; i++ {
			f.Send(Pack(stAck, uint32(r.Intn(2*n)), nil))
		}
		time.Sleep(lat + time.Millisecond)
	}
	t.Desc("sender: %d messages kind=%d withheld=%d acklate=%v lat=%v storm=%v victim=%d", n, kind, withhold, ackLate, lat, storm, victim)
	gap := r.Dur(0, 50*time.Millisecond)
	if n > 100 {
		gap = r.Dur(0, time.Millisecond)
		t.Count("many_outstanding", 1)
	}
	for i := 0; i < n; i++ {
		if _, err := ch.WriteTo(r.Bytes(DrawLen(r, maxLen))); err != nil {
			t.Violate("a write failed: %v", err)
			return
		}
		time.Sleep(r.Dur(0, gap))
	}
	var ended time.Duration = -1
	if limit {
		if !t.WaitFor(400*time.Second, ch.Destroyed) {
			mu.Lock()
			t.Violate("packet %d was sent %d times without an answer, but the channel is still open", victim, copies[victim])
			mu.Unlock()
			return
		}
		for _, v := range e.Evs(func(v *Ev) bool { return v.Err == tru.ErrChannelDestroyed }) {
			ended = v.T
		}
		time.Sleep(5 * time.Second)
	} else {
		time.Sleep(time.Duration(withhold)*3*time.Second/2 + 8*time.Second)
		if ch.Destroyed() {
			t.Violate("the channel ended although the peer is there")
			return
		}
	}
	now := t.Net.Now()
	sent, recv := t.Net.Snapshot(wire)
	type pk struct {
		first []byte
		at    []time.Duration
		ack   time.Duration
	}
	ps := map[uint32]*pk{}
	for _, d := range sent {
		if d.From == e.Addr && d.To == f.Addr && isData(d.Status) {
			p := ps[d.ID]
			if p == nil {
				p = &pk{first: d.Data, ack: -1}
				ps[d.ID] = p
			} else if !bytes.Equal(p.first, d.Data) {
				t.Violate("packet %d was repeated with other bytes", d.ID)
			}
			p.at = append(p.at, d.T)
		}
	}
	for _, d := range recv {
		if d.From == f.Addr && d.Status == stAck {
			if p := ps[d.ID]; p != nil && p.ack < 0 && d.T >= p.at[0] {
				p.ack = d.T
			}
		}
	}
	reps := 0
	for id, p := range ps {
		for i := 1; i < len(p.at); i++ {
			g := p.at[i] - p.at[i-1]
			if g < 30*time.Millisecond {
				t.Violate("packet %d was repeated after %v", id, g)
			}
			if g > 4*time.Second {
				t.Violate("packet %d was repeated only after %v", id, g)
			}
			if p.ack >= 0 && p.at[i] > p.ack+time.Millisecond {
				t.Violate("packet %d was acknowledged at %v and repeated at %v", id, p.ack, p.at[i])
			}
		}
		reps += len(p.at) - 1
		last := p.at[len(p.at)-1]
		until := now
		if ended >= 0 {
			until = ended
		}
		if p.ack >= 0 && p.ack < until {
			until = p.ack
		}
		if until-last > 4*time.Second {
			t.Violate("packet %d was not acknowledged between %v and %v and not repeated", id, last, until)
		}
		if len(p.at) > 101 {
			t.Violate("packet %d was sent %d times", id, len(p.at))
		}
	}
	if limit {
		p := ps[victim]
		if p == nil || len(p.at) != 101 {
			t.Violate("the channel ended at %v after packet %d was repeated %d times in vain", ended, victim, len(p.at)-1)
		} else if ended < p.at[100] {
			t.Violate("the channel ended at %v, before the 100th repeat at %v", ended, p.at[100])
		}
		t.Count("limits", 1)
	}
	t.Count("repeats_sent", reps)
	t.Count("packets_sent", len(ps))
	t.Sig("send", kind, len(ps), reps)
}
