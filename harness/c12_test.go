package harness

import (
	"bytes"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C12"] = scenario{run: c12} }

func c12(t *Trial) {
	switch t.Index % 5 {
	case 0:
		c12client(t)
	case 1:
		if t.Index%50 == 1 {
			c12empty(t)
			break
		}
		c12server(t)
	case 2:
		c12tamper(t)
	case 3:
		c12wire(t)
	case 4:
		c12fresh(t)
	}
}

// keys of connections made at the same instant, by one endpoint or by several,
// and by different processes
func c12fresh(t *Trial) {
	r := t.R
	wire := t.Net.Record()
	n := r.Range(2, 6)
	oneEP := r.Bool(0.5)
	again := r.Range(1, 3)
	child := t.Index/5%6 == 0
	t.Desc("keys of %d connections at once, one endpoint=%v, %d times, another process=%v", n, oneEP, again, child)
	if keyChild() {
		n, again, child = 1, 1, false
	}
	if oneEP {
		t.NewEP(0)
	}
	fs, es := make([]*Ref, n), make([]*EP, n)
	for i := range fs {
		if !oneEP {
			t.NewEP(0)
		}
		es[i] = t.eps[len(t.eps)-1]
		fs[i] = t.NewRef(es[i].Addr)
		defer fs[i].Close()
	}
	var keys [][]byte
	for k := 0; k < again; k++ {
		var wg sync.WaitGroup
		for i := range fs {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				if _, err := es[i].T.Connect(fs[i].Addr); err != nil {
					t.Violate("Connect to an independent implementation failed: %v", err)
				}
			}()
		}
		wg.Wait()
		for _, f := range fs {
			keys = append(keys, f.Sess())
		}
		if r.Bool(0.5) {
			time.Sleep(r.Dur(0, time.Second))
		}
	}
	for i := 0; child && i < 2; i++ { // two, because their first connections are alike
		cmd := exec.Command(os.Args[0], "-test.run", "^TestKeyChild$")
		cmd.Env = append(os.Environ(), "VP_KEYCHILD=1", "VP_PROP=")
		out, err := cmd.Output()
		_, x, ok := strings.Cut(string(out), "KEY ")
		x, _, _ = strings.Cut(x, "\n")
		if k, e := hex.DecodeString(x); err != nil || !ok || e != nil || len(k) == 0 {
			t.Inconclusive("another process did not tell its session key: %v %q", err, out)
		} else {
			keys = append(keys, k)
			t.Count("other_process_keys", 1)
		}
	}
	t.keys = keys
	c12keys(t, keys, wire)
	t.Sig("fresh", n, oneEP, again, child)
}

func keyChild() bool { return os.Getenv("VP_KEYCHILD") != "" }

// TestKeyChild prints the session key of the first connection of a process.
func TestKeyChild(tt *testing.T) {
	if !keyChild() {
		tt.Skip()
	}
	t := &Trial{Prop: "C12", Index: 4, cnt: map[string]int64{}, t: tt, Seed: 1, R: NewRand(1)}
	t.virtual(c12fresh)
	for _, k := range t.keys[:1] {
		fmt.Printf("\nKEY %x\n", k)
	}
}

var (
	keysMu   sync.Mutex
	keysSeen = map[string]int{} // session keys of this process
)

func encLens(r *Rand) (l []int) {
	l = []int{0, 1, 15, 16, 17, 20, 21, 32, 33, 63, 64, 65, 66, 91, 92, 93, 128}
	for i := 0; i < 12; i++ {
		l = append(l, r.Intn(90), r.Intn(1200))
	}
	for i := len(l) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return
}

// both directions between the endpoint and a reference peer that knows the key
func c12talk(t *Trial, e *EP, f *Ref, ch *tru.Channel, max int) {
	r := t.R
	var got [][]byte // plain payloads the reference peer decrypted, by number
	var mu sync.Mutex
	byID := map[uint32][]byte{}
	f.mu.Lock()
	f.OnPkt = func(p *RPkt) bool {
		if p.Err != nil {
			t.Violate("packet %d with %d bytes cannot be decrypted with the session key: %v", p.ID, len(p.Raw)-4, p.Err)
			return true
		}
		mu.Lock()
		byID[p.ID] = p.Plain
		mu.Unlock()
		return true
	}
	f.mu.Unlock()
	base := len(byID)
	_ = base
	var sent [][]byte
	id0 := -1
	for i, n := range encLens(r) {
		b := Msg(5, 0, uint32(i), n)
		id, err := ch.WriteTo(b)
		if err != nil {
			t.Violate("write failed: %v", err)
			return
		}
		if id0 < 0 {
			id0 = id
		}
		for len(b) > max {
			sent = append(sent, b[:max])
			b = b[max:]
		}
		sent = append(sent, b)
		if i%5 == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	t.WaitFor(4*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(byID) >= len(sent) })
	mu.Lock()
	for i := range sent {
		b, ok := byID[uint32(id0+i)]
		if !ok || !bytes.Equal(b, sent[i]) {
			t.Violate("packet %d: an independent implementation reads %s instead of %s", id0+i, short(b), short(sent[i]))
			break
		}
	}
	mu.Unlock()
	// and towards the endpoint
	before := e.NMsgs(ch, "ep")
	for i, n := range encLens(r) {
		b := Msg(6, 0, uint32(i), n)
		got = append(got, b)
		f.SendData(stData, uint32(i), b)
	}
	t.WaitFor(2*time.Second, func() bool { return e.NMsgs(ch, "ep") >= before+len(got) })
	in := e.Msgs(ch, "ep")[before:]
	for i := range got {
		if i >= len(in) || !bytes.Equal(in[i].Data, got[i]) {
			x := []byte(nil)
			if i < len(in) {
				x = in[i].Data
			}
			t.Violate("a message of %d bytes encrypted by an independent implementation was read as %s", len(got[i]), short(x))
			break
		}
	}
	// the same in the clear: long ones must not be accepted at all, short ones not as they are
	n0 := len(got)
	for i := 0; i < 6; i++ {
		b := Msg(7, 0, uint32(i), []int{8, 30, 64, 65, 100, 500}[i])
		f.Send(Pack(stData, uint32(n0+i), b))
	}
	time.Sleep(50 * time.Millisecond)
	for _, v := range e.Msgs(ch, "ep") {
		for i := 0; i < 6; i++ {
			if bytes.Equal(v.Data, Msg(7, 0, uint32(i), []int{8, 30, 64, 65, 100, 500}[i])) {
				t.Violate("a payload of %d bytes was accepted in the clear", len(v.Data))
			}
		}
	}
	for i := 3; i < 6; i++ {
		if f.Acks(uint32(n0+i)) != 0 {
			t.Violate("a packet with %d bytes in the clear was acknowledged", []int{8, 30, 64, 65, 100, 500}[i])
		}
	}
	t.Count("interop_packets", len(sent)+len(got))
}

func c12keys(t *Trial, keys [][]byte, wire *Wire) {
	for i, k := range keys {
		if len(k) < 16 {
			t.Violate("the session key has only %d bytes", len(k))
		}
		for j := range keys[:i] {
			if bytes.Equal(keys[j], k) {
				t.Violate("two connections used the same session key")
			}
		}
		keysMu.Lock()
		if at, ok := keysSeen[string(k)]; ok && at != t.Index {
			t.Violate("a connection used the session key of one in trial %d of the same process", at)
		}
		keysSeen[string(k)] = t.Index
		keysMu.Unlock()
	}
	sent, _ := t.Net.Snapshot(wire)
	for _, d := range sent {
		for _, k := range keys {
			if len(k) >= 8 && bytes.Contains(d.Data, k) {
				t.Violate("the session key crosses the network unencrypted: %v", d)
				return
			}
		}
	}
	t.Count("session_keys", len(keys))
}

// a client that gives no session key: whatever comes of the connection, nothing
// may be sent or accepted in the clear over it
func c12empty(t *Trial) {
	r := t.R
	e := t.NewEP(0)
	wire := t.Net.Record()
	f := t.NewRef(e.Addr)
	defer f.Close()
	none := r.Bool(0.5)
	t.Desc("session key of no bytes, nothing sealed=%v", none)
	err := f.connectSealed(r.Bytes(32), func(pub *rsa.PublicKey) []byte {
		if none {
			return nil
		}
		d, err := rsa.EncryptOAEP(sha256.New(), crand.Reader, pub, nil, nil)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return d
	})
	t.Count("empty_keys", 1)
	if err == nil {
		t.Count("empty_keys_done", 1)
	}
	var plain [][]byte
	for i := 0; i < 4; i++ {
		b := Msg(7, 0, uint32(i), []int{30, 64, 100, 500}[i])
		plain = append(plain, b)
		f.Send(Pack(stData, uint32(i), b))
		time.Sleep(r.Dur(0, 20*time.Millisecond))
	}
	for _, ch := range e.Channels() {
		for i := 0; i < 4; i++ {
			b := Msg(8, 0, uint32(i), []int{30, 64, 100, 500}[i])
			plain = append(plain, b)
			ch.WriteTo(b)
		}
	}
	time.Sleep(200 * time.Millisecond)
	sent, _ := t.Net.Snapshot(wire)
	for _, b := range plain {
		for _, v := range e.Evs(func(v *Ev) bool { return v.Err == nil }) {
			if bytes.Equal(v.Data, b) {
				t.Violate("a payload of %d bytes was accepted in the clear from a client that gave no session key", len(b))
				return
			}
		}
		for _, d := range sent {
			if d.From == e.Addr && len(d.Data) > 4 && bytes.Contains(d.Data, b) {
				t.Violate("a payload of %d bytes was sent in the clear to a client that gave no session key", len(b))
				return
			}
		}
	}
}

// the endpoint is the client of a reference server
func c12client(t *Trial) {
	e := t.NewEP(0)
	wire := t.Net.Record()
	max := t.R.Range(100, 1300)
	e.T.SetMaxDataLen(max)
	n := t.R.Range(2, 4)
	t.Desc("client of %d reference servers, max %d", n, max)
	var keys [][]byte
	for i := 0; i < n; i++ {
		f := t.NewRef(e.Addr)
		defer f.Close()
		ch, err := e.T.Connect(f.Addr)
		if err != nil {
			t.Violate("Connect to an independent implementation failed: %v", err)
			return
		}
		keys = append(keys, f.Sess())
		c12talk(t, e, f, ch, max)
		if i == 0 { // reconnect to the same peer: again a fresh key
			if _, err := e.T.Connect(f.Addr); err != nil {
				t.Violate("reconnecting to an independent implementation failed: %v", err)
			}
			keys = append(keys, f.Sess())
		}
	}
	c12keys(t, keys, wire)
	t.Sig("client", n, max)
}

// the endpoint is the server of reference clients
func c12server(t *Trial) {
	e := t.NewEP(0)
	max := t.R.Range(100, 1300)
	e.T.SetMaxDataLen(max)
	n := t.R.Range(2, 4)
	t.Desc("server of %d reference clients, max %d", n, max)
	for i := 0; i < n; i++ {
		f := t.NewRef(e.Addr)
		defer f.Close()
		// data before the key: neither handed over nor acknowledged
		from := 0
		uuid := fmt.Sprint("early", i, t.R.U64())
		f.Send(Pack(stConnect, 0, hsPack(uuid, pubBytes(&f.key.PublicKey))))
		if _, ok := f.wait(stServerAnswer, from, time.Second); !ok {
			t.Violate("a connect datagram was not answered")
			return
		}
		for k, l := range []int{10, 64, 65, 200} {
			f.Send(Pack(stData, uint32(k), Msg(9, 0, uint32(k), l)))
		}
		f.Send(Pack(stPing, 0, nil))
		time.Sleep(20 * time.Millisecond)
		for k := 0; k < 4; k++ {
			if f.Acks(uint32(k)) != 0 {
				t.Violate("a data packet was acknowledged before the session key was there")
			}
		}
		for _, v := range e.Evs(func(v *Ev) bool { return v.Err == nil && v.Addr == f.Addr }) {
			t.Violate("data was handed over before the session key was there: %s", short(v.Data))
		}
		if err := f.Connect(); err != nil {
			t.Violate("an independent implementation cannot connect: %v", err)
			return
		}
		t.WaitFor(time.Second, func() bool { p := e.Peer(f.Addr); return p != nil && len(e.News()) > i })
		ch := e.Peer(f.Addr)
		if ch == nil {
			t.Violate("the server has no channel to the client it served")
			return
		}
		c12talk(t, e, f, ch, max)
	}
	t.Sig("server", n, max)
}

// long payloads altered on the way
func c12tamper(t *Trial) {
	r := t.R
	s, c := t.NewEP(0), t.NewEP(0)
	max := r.Range(90, 600)
	s.T.SetMaxDataLen(max)
	c.T.SetMaxDataLen(max)
	cch, sch := t.Pair(s, c)
	if cch == nil {
		return
	}
	wire := t.Net.Record()
	seed := r.U64()
	p := 0.2 + 0.6*r.Float()
	how := r.Intn(6)
	altered := 0
	until := t.Net.Now() + r.Dur(time.Second, 3*time.Second)
	both := r.Bool(0.5)
	alteredN := map[int]bool{}
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		ok := Fate{Delay: time.Millisecond}
		rr := NewRand(seed, hashOf(d.From, d.Status, d.ID, d.Copy))
		if !isData(d.Status) || len(d.Data) <= 68 || d.T > until || !rr.Bool(p) {
			return []Fate{ok}
		}
		b := append([]byte{}, d.Data...)
		h := how
		if h == 5 {
			h = rr.Intn(5)
		}
		switch h {
		case 0: // one bit of the payload
			b[4+rr.Intn(len(b)-4)] ^= 1 << rr.Intn(8)
		case 1: // the number
			k := rr.Intn(20)
			b[k/8] ^= 1 << (k % 8)
		case 2: // cut, but still long
			b = b[:4+65+rr.Intn(len(b)-4-65+1)]
			if len(b) == len(d.Data) {
				return []Fate{ok}
			}
		case 3: // longer
			b = append(b, rr.Bytes(rr.Range(1, 40))...)
		case 4: // other bytes
			fill(b[4+rr.Intn(len(b)-4):], rr.U64())
		}
		if bytes.Equal(b, d.Data) {
			return []Fate{ok}
		}
		altered++
		alteredN[d.N] = true
		f := []Fate{{Delay: time.Millisecond, Data: b}}
		if both && rr.Bool(0.5) { // the original arrives too, later
			f = append(f, Fate{Delay: 2 * time.Millisecond})
		}
		return f
	})
	var fc, fs Flow
	n := r.Range(10, 40)
	t.Desc("tamper how=%d p=%.2f msgs=%d max=%d", how, p, n, max)
	for i := 0; i < n; i++ {
		fc.Write(cch, Msg(1, 0, uint32(i), 65+r.Intn(max*3)))
		fs.Write(sch, Msg(2, 0, uint32(i), 65+r.Intn(max*3)))
		time.Sleep(r.Dur(0, 20*time.Millisecond))
	}
	t.WaitFor(12*time.Second, func() bool { return s.NMsgs(sch, "ep") >= fc.N() && c.NMsgs(cch, "ep") >= fs.N() })
	time.Sleep(100 * time.Millisecond)
	fc.CheckPrefix(t, "client to server", s.Msgs(nil, "ep"))
	fs.CheckPrefix(t, "server to client", c.Msgs(nil, "ep"))
	if s.NMsgs(nil, "ep") < fc.N() || c.NMsgs(nil, "ep") < fs.N() {
		t.Violate("after packets were altered %d of %d and %d of %d messages were handed over", s.NMsgs(nil, "ep"), fc.N(), c.NMsgs(nil, "ep"), fs.N())
	}
	// every acknowledgement answers an unaltered arrival
	sent, recv := t.Net.Snapshot(wire)
	orig := map[int]*Dgram{}
	for _, d := range sent {
		orig[d.N] = d
	}
	good := map[string]int{}
	for _, d := range recv {
		if isData(d.Status) && bytes.Equal(orig[d.N].Data, d.Data) {
			good[fmt.Sprint(d.To, d.ID)]++
		}
	}
	acks := map[string]int{}
	for _, d := range sent {
		if d.Status == stAck {
			acks[fmt.Sprint(d.From, d.ID)]++
		}
	}
	for k, n := range acks {
		if n > good[k] {
			t.Violate("%s: %d acknowledgements for %d unaltered arrivals", k, n, good[k])
			break
		}
	}
	t.Count("altered", altered)
	t.Count("msgs", n*2)
	t.Sig("tamper", how, altered, n)
}

// nothing readable crosses the network between two endpoints
func c12wire(t *Trial) {
	r := t.R
	s, c := t.NewEP(0), t.NewEP(0)
	mx := r.Range(30, 1000)
	s.T.SetMaxDataLen(mx)
	c.T.SetMaxDataLen(mx)
	wire := t.Net.Record()
	s.OnAccept = func(ch *tru.Channel) { ch.WriteTo(Msg(3, 0, 0, 200)) } // the earliest possible message
	plan := DrawFaults(r, 5*time.Second)
	t.Desc("wire max=%d %v", mx, plan)
	cch, sch := t.Pair(s, c)
	if cch == nil {
		return
	}
	for i := range plan.Black {
		plan.Black[i] = [2]time.Duration{}
	}
	t.Net.SetPolicy(plan.Fates)
	msgs := [][]byte{Msg(3, 0, 0, 200)}
	for i := 0; i < 30; i++ {
		b := Msg(4, 0, uint32(i), 12+DrawLen(r, mx*3))
		msgs = append(msgs, b)
		if i%2 == 0 {
			cch.WriteTo(b)
		} else {
			sch.WriteTo(b)
		}
	}
	time.Sleep(time.Second)
	marks := [][]byte{}
	for _, m := range msgs { // 10-byte pieces of the plain text
		for o := 0; o+10 <= len(m); o += max(1, len(m)/4) {
			marks = append(marks, m[o:o+10])
		}
	}
	sent, _ := t.Net.Snapshot(wire)
	nd := 0
	for _, d := range sent {
		if isData(d.Status) {
			nd++
		}
		for _, m := range marks {
			if bytes.Contains(d.Data, m) {
				t.Violate("a piece of a message crosses the network in the clear: %v contains %x", d, m)
				return
			}
		}
	}
	t.Count("wire_data_packets", nd)
	t.Sig("wire", nd, mx)
}
