package harness

import (
	"bytes"
	"time"

	"github.com/teonet-go/tru"
)

func init() { scenarios["C03"] = scenario{run: c03} }

// c03: messages whose lengths sit on and around the multiples of the configured
// maximum packet length; each must arrive as one identical message with the id
// the write returned, in datagrams of allowed size.
func c03(t *Trial) {
	r := t.R
	const def = 65535 - 20 - 8 - 4 - 28
	max := 0
	switch t.Index % 6 {
	case 0:
		max = 0
	case 1:
		max = r.Range(1, 8)
	case 2:
		max = []int{15, 16, 17, 20, 21, 31, 32, 33, 63, 64, 65, 66, 92, 93}[r.Intn(14)]
	case 3:
		max = r.Range(9, 1500)
	case 4:
		max = r.Range(1500, def)
	case 5:
		max = []int{def - 1, def - 2, 512, 1024, 1200, 1472}[r.Intn(6)]
	}
	eff := max
	if eff == 0 {
		eff = def
	}
	s := t.NewEP(0)
	var par []any
	how := r.Intn(3)
	if how == 0 && max > 0 {
		par = append(par, tru.MaxDataLenType(max))
	}
	c := t.NewEP(0, par...)
	if how != 0 && max > 0 {
		c.T.SetMaxDataLen(max)
	}
	// the other side uses another maximum
	other := def
	if r.Bool(0.5) {
		other = r.Range(10, 3000)
		s.T.SetMaxDataLen(other)
	}
	cch, sch := t.Pair(s, c)
	if cch == nil {
		return
	}
	wire := t.Net.Record()
	plan := &FaultPlan{Name: "clean", Lat: 200 * time.Microsecond}
	if r.Bool(0.35) {
		plan = DrawFaults(r, t.Net.Now()+2*time.Second)
		plan.Black = nil
	}
	t.Net.SetPolicy(plan.Fates)
	rev := r.Bool(0.4) // the server sends
	from, to, ch, rch := c, s, cch, sch
	if rev {
		from, to, ch, rch = s, c, sch, cch
		eff = other
	}
	var lens []int
	add := func(n int) {
		if n >= 0 && n <= 400000 && n <= eff*700 {
			lens = append(lens, n)
		}
	}
	for _, n := range []int{0, 1, eff - 1, eff, eff + 1, 2*eff - 1, 2 * eff, 2*eff + 1, 3 * eff} {
		add(n)
	}
	for i := 0; i < 8; i++ {
		k := r.Range(1, 7)
		add(k*eff + r.Range(-2, 2))
		add(DrawLen(r, min(eff*5, 200000)))
	}
	for i := len(lens) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		lens[i], lens[j] = lens[j], lens[i]
	}
	// messages of thousands of parts
	if t.Index%12 == 7 || t.Index%12 == 2 {
		if k := r.Range(1500, 6000); eff <= 60 {
			lens = append(lens[:4], k*eff+r.Range(-1, 1))
		} else if eff <= 1500 {
			lens = append(lens[:2], 2500*eff+r.Range(-1, 1))
		}
	}
	total := 0
	for i, n := range lens {
		if total += n; total > 4000000 {
			lens = lens[:i]
			break
		}
	}
	t.Desc("max=%d sender's max=%d reverse=%v lens=%v %v", max, eff, rev, lens, plan)
	var f Flow
	for i, n := range lens {
		if err := f.Write(ch, Msg(3, 0, uint32(i), n)); err != nil {
			t.Violate("write of %d bytes failed: %v", n, err)
			return
		}
		if r.Bool(0.3) {
			time.Sleep(r.Dur(0, 20*time.Millisecond))
		}
	}
	t.WaitFor(20*time.Second, func() bool { return to.NMsgs(rch, "ep") >= len(lens) })
	time.Sleep(50 * time.Millisecond)
	got := to.Msgs(rch, "ep")
	for i, g := range got {
		if i >= len(f.Sent) {
			t.Violate("%d messages handed over, %d written", len(got), len(f.Sent))
			break
		}
		if !bytes.Equal(g.Data, f.Sent[i]) {
			t.Violate("message %d of %d bytes arrived as %s", i, len(f.Sent[i]), short(g.Data))
			break
		}
		if g.ID != f.IDs[i] {
			t.Violate("message %d of %d bytes: the write returned id %d, the packet handed over has id %d", i, len(f.Sent[i]), f.IDs[i], g.ID)
			break
		}
	}
	if len(got) < len(lens) {
		t.Violate("only %d of %d messages were handed over; the next has %d bytes", len(got), len(lens), lens[len(got)])
	}
	sent, _ := t.Net.Snapshot(wire)
	dg := 0
	for _, d := range sent {
		if d.From != from.Addr || !isData(d.Status) {
			continue
		}
		dg++
		limit := eff
		if limit > 64 {
			limit += 28
		}
		if len(d.Data)-4 > limit {
			t.Violate("a datagram carries %d payload bytes, the maximum is %d", len(d.Data)-4, limit)
			break
		}
		if len(d.Data) > maxUDPIPv4 {
			t.Violate("a datagram of %d bytes cannot be sent over UDP/IPv4", len(d.Data))
			break
		}
	}
	if t.Net.TooLong > 0 {
		t.Violate("%d datagrams were refused by the network as too long", t.Net.TooLong)
	}
	t.Count("msgs", len(got))
	t.Count("data_datagrams", dg)
	t.Sig(eff, dg, len(lens), plan.Name)
}
