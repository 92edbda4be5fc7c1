package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"net"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/teonet-go/tru"
)

// Rand is a splitmix64 generator; every random choice of a trial comes from one.
type Rand struct{ s uint64 }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewRand makes a generator from several values.
func NewRand(vs ...uint64) *Rand {
	var s uint64
	for _, v := range vs {
		s = mix(s ^ v)
	}
	return &Rand{s}
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) } // inclusive
func (r *Rand) Float() float64     { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Bool(p float64) bool {
	return r.Float() < p
}
func (r *Rand) Dur(a, b time.Duration) time.Duration {
	if b <= a {
		return a
	}
	return a + time.Duration(r.U64()%uint64(b-a+1))
}

// Lat draws a network latency, often none at all: everything then happens at
// one instant of virtual time, with all goroutines busy at once.
func (r *Rand) Lat(max time.Duration) time.Duration {
	if r.Bool(0.35) {
		return 0
	}
	return r.Dur(0, max)
}
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	fill(b, r.U64())
	return b
}
func fill(b []byte, key uint64) {
	s := Rand{key}
	for len(b) >= 8 {
		binary.LittleEndian.PutUint64(b, s.U64())
		b = b[8:]
	}
	if len(b) > 0 {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], s.U64())
		copy(b, t[:])
	}
}
func hashOf(vs ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, vs...)
	return mix(h.Sum64())
}

// Trial is one execution: a workload, its network and what the monitors saw.
type Trial struct {
	Prop  string
	Tier  string
	Seed  uint64
	Index int
	R     *Rand
	Net   *Net

	mu     sync.Mutex
	viol   []string
	cnt    map[string]int64
	desc   string
	sig    uint64
	trace  []string
	eps    []*EP
	incon  string
	noAuto bool
	keys   [][]byte
	t      *testing.T
}

// Violate reports a violation of the trial's property.
func (t *Trial) Violate(format string, a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.viol) < 20 {
		t.viol = append(t.viol, fmt.Sprintf(format, a...))
	}
}

// Violated tells whether something was reported.
func (t *Trial) Violated() bool { t.mu.Lock(); defer t.mu.Unlock(); return len(t.viol) > 0 }

// Inconclusive marks the trial as having decided nothing.
func (t *Trial) Inconclusive(format string, a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.incon == "" {
		t.incon = fmt.Sprintf(format, a...)
	}
}

// Count adds to a counter of observed events.
func (t *Trial) Count(name string, n int) {
	t.mu.Lock()
	t.cnt[name] += int64(n)
	t.mu.Unlock()
}

// Sig mixes observed behaviour into the trial's signature (distinctness).
func (t *Trial) Sig(vs ...any) {
	h := hashOf(vs...)
	t.mu.Lock()
	t.sig += h // commutative, so that concurrent observers may add in any order
	t.mu.Unlock()
}

// Desc describes the trial's parameters.
func (t *Trial) Desc(format string, a ...any) {
	t.mu.Lock()
	if t.desc != "" {
		t.desc += "; "
	}
	t.desc += fmt.Sprintf(format, a...)
	t.mu.Unlock()
}

// Note adds a line to the trace kept for a replay file.
func (t *Trial) Note(format string, a ...any) {
	t.mu.Lock()
	if len(t.trace) < 400 {
		t.trace = append(t.trace, fmt.Sprintf(format, a...))
	}
	t.mu.Unlock()
}

// Ev is one reader call.
type Ev struct {
	T     time.Duration
	Ch    *tru.Channel
	Addr  string
	Data  []byte // copy made in the callback
	Slice []byte // the slice that was handed over
	ID    int
	Err   error
	Where string // "ep" endpoint reader, "ch" channel reader
}

// EP is an endpoint under test with its recording readers.
type EP struct {
	tr   *Trial
	T    *tru.Tru
	Addr string
	mu   sync.Mutex
	evs  []Ev
	news []NewEv
	// hooks, set before use
	OnMsg    func(ch *tru.Channel, data []byte) // called from the endpoint reader, after recording
	OnErr    func(ch *tru.Channel, err error)
	OnAccept func(ch *tru.Channel)
	Punches  []PunchEv
	Raw      tru.ReaderFunc // replaces the recording reader
}

// NewEv is one connect callback call.
type NewEv struct {
	T   time.Duration
	Ch  *tru.Channel
	Err error
}

// PunchEv is one punch callback call.
type PunchEv struct {
	T    time.Duration
	From string
	Data []byte
}

// NewEP opens an endpoint on the trial's network.
func (t *Trial) NewEP(port int, params ...any) *EP {
	e := &EP{tr: t}
	ps := append([]any{tru.ReaderFunc(e.Reader), tru.ConnectFunc(e.accepted)}, params...)
	var err error
	e.T, err = tru.New(port, ps...)
	if err != nil {
		panic(fmt.Sprintf("tru.New: %v", err))
	}
	e.Addr = e.T.LocalAddr().String()
	t.mu.Lock()
	t.eps = append(t.eps, e)
	t.mu.Unlock()
	return e
}

func (e *EP) accepted(ch *tru.Channel, err error) {
	e.mu.Lock()
	e.news = append(e.news, NewEv{e.tr.Net.Now(), ch, err})
	e.mu.Unlock()
	if e.OnAccept != nil {
		e.OnAccept(ch)
	}
}

func (e *EP) record(where string, ch *tru.Channel, pac *tru.Packet, err error) {
	ev := Ev{T: e.tr.Net.Now(), Ch: ch, Err: err, Where: where}
	if ch != nil {
		ev.Addr = ch.Addr().String()
	}
	if pac != nil {
		ev.Slice = pac.Data()
		ev.Data = append([]byte{}, ev.Slice...)
		ev.ID = pac.ID()
	}
	e.mu.Lock()
	e.evs = append(e.evs, ev)
	e.mu.Unlock()
}

// Reader is the endpoint's reader.
func (e *EP) Reader(ch *tru.Channel, pac *tru.Packet, err error) bool {
	if e.Raw != nil {
		return e.Raw(ch, pac, err)
	}
	e.record("ep", ch, pac, err)
	if err != nil {
		if e.OnErr != nil {
			e.OnErr(ch, err)
		}
	} else if e.OnMsg != nil {
		e.OnMsg(ch, pac.Data())
	}
	return false
}

// ChReader is a recording channel reader that answers processed as given.
func (e *EP) ChReader(processed bool) tru.ReaderFunc {
	return func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		e.record("ch", ch, pac, err)
		return processed
	}
}

// Evs returns the reader calls so far that match.
func (e *EP) Evs(match func(*Ev) bool) (r []Ev) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for i := range e.evs {
		if match == nil || match(&e.evs[i]) {
			r = append(r, e.evs[i])
		}
	}
	return
}

// Msgs returns the messages handed over on a channel (nil: any channel).
func (e *EP) Msgs(ch *tru.Channel, where string) []Ev {
	return e.Evs(func(v *Ev) bool { return v.Err == nil && v.Where == where && (ch == nil || v.Ch == ch) })
}

// NMsgs counts messages handed over on a channel.
func (e *EP) NMsgs(ch *tru.Channel, where string) (n int) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for i := range e.evs {
		v := &e.evs[i]
		if v.Err == nil && v.Where == where && (ch == nil || v.Ch == ch) {
			n++
		}
	}
	return
}

// News returns the connect callback calls so far.
func (e *EP) News() []NewEv { e.mu.Lock(); defer e.mu.Unlock(); return append([]NewEv(nil), e.news...) }

// NEvs is the number of reader calls so far.
func (e *EP) NEvs() int { e.mu.Lock(); defer e.mu.Unlock(); return len(e.evs) }

// Channels lists the endpoint's channels.
func (e *EP) Channels() (r []*tru.Channel) {
	e.T.ForEachChannel(func(ch *tru.Channel) { r = append(r, ch) })
	return
}

// Peer finds the channel of an endpoint to an address.
func (e *EP) Peer(addr string) *tru.Channel {
	for _, c := range e.Channels() {
		if c != nil && c.Addr().String() == addr {
			return c
		}
	}
	return nil
}

// WaitFor polls a condition in virtual time.
func (t *Trial) WaitFor(limit time.Duration, cond func() bool) bool {
	end := time.Now().Add(limit)
	step := time.Millisecond
	for {
		if cond() {
			return true
		}
		if !time.Now().Before(end) {
			return false
		}
		time.Sleep(step)
		if step < 20*time.Millisecond {
			step += time.Millisecond
		}
	}
}

// CloseAll closes every endpoint of the trial.
func (t *Trial) CloseAll() {
	t.mu.Lock()
	eps := t.eps
	t.eps = nil
	t.mu.Unlock()
	for _, e := range eps {
		e.T.Close()
	}
}

// Pair connects client to server over an undisturbed network and returns both
// ends of the channel. It panics when that fails; callers that study the
// handshake do it themselves.
func (t *Trial) Pair(server, client *EP, reader ...tru.ReaderFunc) (cch, sch *tru.Channel) {
	before := len(server.News())
	cch, err := client.T.Connect(server.Addr, reader...)
	if err != nil || cch == nil {
		t.Violate("Connect over a fault-free network failed: %v", err)
		return nil, nil
	}
	t.WaitFor(time.Second, func() bool { return len(server.News()) > before && server.Peer(client.Addr) != nil })
	sch = server.Peer(client.Addr)
	if sch == nil {
		t.Violate("Connect over a fault-free network succeeded, but the server has no channel")
		return nil, nil
	}
	return
}

// ---- messages ----

const hdrLen = 20

// Msg builds a message that identifies itself when it is long enough.
func Msg(flow, writer uint32, seq uint32, n int) []byte {
	b := make([]byte, n)
	fill(b, hashOf("msg", flow, writer, seq, n))
	if n >= hdrLen {
		binary.LittleEndian.PutUint32(b[0:], 0x7e57da7a)
		binary.LittleEndian.PutUint32(b[4:], flow)
		binary.LittleEndian.PutUint32(b[8:], writer)
		binary.LittleEndian.PutUint32(b[12:], seq)
		binary.LittleEndian.PutUint32(b[16:], uint32(n))
	}
	return b
}

// ParseMsg recognises a message made by Msg; ok is false when the bytes are not
// exactly such a message.
func ParseMsg(b []byte) (flow, writer, seq uint32, ok bool) {
	if len(b) < hdrLen || binary.LittleEndian.Uint32(b) != 0x7e57da7a {
		return
	}
	flow = binary.LittleEndian.Uint32(b[4:])
	writer = binary.LittleEndian.Uint32(b[8:])
	seq = binary.LittleEndian.Uint32(b[12:])
	if int(binary.LittleEndian.Uint32(b[16:])) != len(b) {
		return
	}
	ok = bytes.Equal(b, Msg(flow, writer, seq, len(b)))
	return
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x… (%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x (%d bytes)", b, len(b))
}

// Flow is what one side wrote to a channel, in order.
type Flow struct {
	mu   sync.Mutex
	Sent [][]byte
	IDs  []int
}

// Write writes a message and records it when the write was accepted.
func (f *Flow) Write(ch *tru.Channel, b []byte, opt ...any) error {
	f.mu.Lock()
	f.Sent = append(f.Sent, append([]byte{}, b...)) // before the call: it may arrive before WriteTo returns
	i := len(f.Sent) - 1
	f.IDs = append(f.IDs, -1)
	f.mu.Unlock()
	id, err := ch.WriteTo(b, opt...)
	f.mu.Lock()
	defer f.mu.Unlock()
	if err != nil {
		f.Sent = f.Sent[:i]
		f.IDs = f.IDs[:i]
		return err
	}
	f.IDs[i] = id
	return nil
}

// N is the number of accepted messages.
func (f *Flow) N() int { f.mu.Lock(); defer f.mu.Unlock(); return len(f.Sent) }

// CheckPrefix compares what was handed over with what was written.
func (f *Flow) CheckPrefix(t *Trial, name string, got []Ev) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	for i, g := range got {
		if i >= len(f.Sent) {
			t.Violate("%s: message %d handed over but only %d were written: %s", name, i, len(f.Sent), f.describe(g.Data))
			return false
		}
		if !bytes.Equal(g.Data, f.Sent[i]) {
			t.Violate("%s: message %d handed over differs from message %d written: got %s, want %s", name, i, i, f.describe(g.Data), short(f.Sent[i]))
			return false
		}
	}
	return true
}

func (f *Flow) describe(b []byte) string {
	for i := range f.Sent {
		if bytes.Equal(f.Sent[i], b) && len(b) > 3 {
			return fmt.Sprintf("the bytes of message %d (%s)", i, short(b))
		}
	}
	return short(b)
}

// ---- wire log ----

// Wire keeps every datagram sent and received.
type Wire struct {
	Sent []*Dgram
	Recv []*Dgram
}

// Record starts recording the network's datagrams.
func (n *Net) Record() *Wire {
	w := &Wire{}
	n.OnSend(func(d *Dgram) { c := *d; w.Sent = append(w.Sent, &c) })
	n.OnRecv(func(d *Dgram) { c := *d; w.Recv = append(w.Recv, &c) })
	return w
}

// Snapshot copies the recorded lists under the network's lock.
func (n *Net) Snapshot(w *Wire) (sent, recv []*Dgram) {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Dgram(nil), w.Sent...), append([]*Dgram(nil), w.Recv...)
}

func udp(addr string) *net.UDPAddr {
	a, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		panic(err)
	}
	return a
}

func sortedKeys[V any](m map[string]V) (k []string) {
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return
}
