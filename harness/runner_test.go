package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/teonet-go/tru"
)

type scenario struct {
	run  func(t *Trial)
	real bool // real time and real sockets
}

var scenarios = map[string]scenario{}

type result struct {
	Start  bool             `json:"start,omitempty"`
	Index  int              `json:"index"`
	Viol   []string         `json:"viol,omitempty"`
	Incon  string           `json:"incon,omitempty"`
	Cnt    map[string]int64 `json:"cnt,omitempty"`
	Desc   string           `json:"desc,omitempty"`
	Sig    uint64           `json:"sig,omitempty"`
	Bubble string           `json:"bubble,omitempty"`
	Trace  []string         `json:"trace,omitempty"`
	VTime  float64          `json:"vtime,omitempty"`
	Wall   float64          `json:"wall,omitempty"`
}

// TestTrials runs the trials named by the environment and appends one JSON line
// when each starts and one when it ends.
func TestTrials(t *testing.T) {
	prop := os.Getenv("VP_PROP")
	if prop == "" {
		t.Skip("VP_PROP is not set")
	}
	sc, ok := scenarios[prop]
	if !ok {
		t.Fatalf("no scenario %s", prop)
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	out, err := os.OpenFile(os.Getenv("VP_OUT"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	emit := func(r result) {
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
	if os.Getenv("VP_PROCS") != "" {
		n, _ := strconv.Atoi(os.Getenv("VP_PROCS"))
		runtime.GOMAXPROCS(n)
	}
	for _, f := range strings.Split(os.Getenv("VP_INDEXES"), ",") {
		i, err := strconv.Atoi(f)
		if err != nil {
			t.Fatal(err)
		}
		emit(result{Start: true, Index: i})
		wall := time.Now()
		tr := &Trial{Prop: prop, Tier: os.Getenv("VERIF_TIER"), Index: i, cnt: map[string]int64{}, t: t}
		tr.Seed = NewRand(seed, hashOf(prop), uint64(i)).U64()
		tr.R = NewRand(tr.Seed)
		var bubble string
		var vt time.Duration
		if sc.real {
			sc.run(tr)
		} else {
			bubble, vt = tr.virtual(sc.run)
		}
		emit(result{Index: i, Viol: tr.viol, Incon: tr.incon, Cnt: tr.cnt, Desc: tr.desc, Sig: tr.sig, Bubble: bubble,
			Trace: tr.trace, VTime: vt.Seconds(), Wall: time.Since(wall).Seconds()})
	}
}

// virtual runs a scenario on a simulated network in virtual time.
func (tr *Trial) virtual(run func(*Trial)) (bubble string, vt time.Duration) {
	defer func() { tru.VerifListenPacket = nil }()
	switch tr.Prop {
	case "C01", "C02", "C04", "C05", "C21":
		// the package's own flag for tests: a share of the first copies of a
		// client's data packets is not sent
		if rr := NewRand(tr.Seed, 0xd409); rr.Bool(0.08) {
			flag.Set("drop", strconv.Itoa(rr.Range(1, 20)))
			tr.Count("drop_flag", 1)
			defer flag.Set("drop", "0")
		}
	}
	bubble = inBubble(tr.t, func() {
		st := time.Now()
		tr.Net = NewNet(time.Millisecond)
		tr.Net.Yield = []float64{0, 0, 0.1, 0.5}[tr.Seed>>5%4]
		if rr := NewRand(tr.Seed, 0x4ead); rr.Bool(0.25) {
			tr.Net.ReadErr = 0.3 * rr.Float()
		}
		if tr.Prop != "C15" && tr.Prop != "C17" && tr.Prop != "C28" {
			// by a generator of its own, so that trials do not depend on it
			rr := NewRand(tr.Seed, 0x5bead)
			if rr.Bool(0.3) {
				tr.Net.Spread = rr.Range(1, 4)
			}
			if rr.Bool(0.3) {
				tr.Net.LossErr = 0.2 + 0.8*rr.Float()
			}
		}
		tru.VerifListenPacket = tr.Net.ListenTru
		run(tr)
		if !tr.noAuto {
			tr.CloseAll()
		}
		vt = time.Since(st)
	})
	return
}

// inBubble runs f in virtual time and returns the bubble's complaint, if any.
func inBubble(t *testing.T, f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint(e)
			if !strings.Contains(msg, "deadlock") {
				panic(e)
			}
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "bubble: %s\n%s\n", msg, buf)
		}
	}()
	synctest.Test(t, func(t *testing.T) { f() })
	return
}
