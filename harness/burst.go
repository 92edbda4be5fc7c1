package harness

import (
	"time"

	"github.com/teonet-go/tru"
)

// burst writes thousands of small messages behind packets that the network
// loses again and again, so that the receiver has to keep all of them waiting.
// It returns what the caller judges.
func burst(t *Trial, big bool) (f *Flow, from, to *EP, rch *tru.Channel) {
	r := t.R
	t.Net.NoCopies = true
	s, c := t.NewEP(0), t.NewEP(0)
	cch, sch := t.Pair(s, c)
	if cch == nil {
		return
	}
	n := r.Range(500, 4000)
	if big {
		n = r.Range(17000, 30000)
	}
	if t.Tier == "thorough" && r.Bool(0.1) {
		n = r.Range(30000, 80000)
	}
	wch := cch
	from, to, rch = c, s, sch
	if r.Bool(0.4) { // the server writes; nothing slows it down
		from, wch, to, rch = s, sch, c, cch
	}
	first := r.Intn(3) // this number is lost, and perhaps some others
	every := r.Range(0, 1)
	hole := r.Dur(800*time.Millisecond, 2500*time.Millisecond)
	lat := r.Lat(3 * time.Millisecond)
	end := t.Net.Now() + hole
	t.Desc("burst of %d behind number %d lost for %v lat=%v others=%d server writes=%v", n, first, hole, lat, every, from == s)
	t.Net.SetPolicy(func(d *Dgram) []Fate {
		if isData(d.Status) && d.From == from.Addr && d.T < end && (int(d.ID) == first || every == 1 && d.ID%997 == 5) {
			return nil
		}
		return []Fate{{Delay: lat}}
	})
	f = &Flow{}
	for i := 0; i < n; i++ {
		if err := f.Write(wch, Msg(1, 0, uint32(i), hdrLen+i%7)); err != nil {
			t.Violate("write %d failed: %v", i, err)
			return nil, nil, nil, nil
		}
		if i%1000 == 0 && to.NMsgs(nil, "ep") > i {
			t.Violate("more messages handed over than written")
		}
	}
	if d := end - t.Net.Now(); d > 0 {
		time.Sleep(d)
	}
	t.WaitFor(10*time.Second, func() bool { return to.NMsgs(rch, "ep") >= n })
	t.Count("burst_packets", n)
	t.Sig("burst", n, first, lat)
	return
}
