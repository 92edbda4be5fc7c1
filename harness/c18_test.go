package harness

import (
	"bytes"
	"fmt"
	stdlog "log"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/teonet-go/tru"
	"github.com/teonet-go/tru/teolog"
)

func init() { scenarios["C18"] = scenario{run: c18, real: true} }

// captureStdout sends file descriptor 1 to a file; the returned function restores
// it and returns what was written.
func captureStdout() func() []byte {
	dir := os.Getenv("VP_SCRATCH")
	if dir == "" {
		dir = os.TempDir()
	}
	f, err := os.CreateTemp(dir, "stdout")
	if err != nil {
		panic("harness: " + err.Error())
	}
	old, err := syscall.Dup(1)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := syscall.Dup3(int(f.Fd()), 1, 0); err != nil {
		panic("harness: " + err.Error())
	}
	return func() []byte {
		syscall.Dup3(old, 1, 0)
		syscall.Close(old)
		f.Close()
		b, err := os.ReadFile(f.Name())
		if err != nil {
			panic("harness: " + err.Error())
		}
		os.Remove(filepath.Clean(f.Name()))
		return b
	}
}

var levelNames = []string{"None", "Error", "User", "Info", "Connect", "Debug", "DebugV", "DebugVV", "DebugVVV"}

func loggersOf(l *teolog.Teolog) []*stdlog.Logger {
	return []*stdlog.Logger{l.Error, l.User, l.Info, l.Connect, l.Debug, l.Debugv, l.Debugvv, l.Debugvvv}
}

type logState struct {
	level int
	alts  []string // nil: no filter
}

func (s logState) allows(logger int, text string) bool {
	if logger >= s.level {
		return false
	}
	for _, a := range s.alts {
		if strings.Contains(text, a) {
			return true
		}
	}
	return len(s.alts) == 0
}

// Words are such that no header of a line (time, file, prefix) contains one.
var logWords = []string{"Zebra", "QuartZ", "a+b", "(Xyz)", "Wörter", "%Jq%d", "Two Words", "Pi|pe", "Zeb", "Q"}

func drawFilter(r *Rand) (set func(l *teolog.Teolog), alts []string, desc string) {
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		alts = append(alts, logWords[r.Intn(len(logWords))])
	}
	if r.Bool(0.3) { // one that no line contains, longer than most
		k := r.Intn(n)
		alts = append(alts[:k:k], append([]string{strings.Repeat("NoSuchWord", r.Range(1, 80))}, alts[k:]...)...)
	}
	switch r.Intn(5) {
	case 0:
		return func(l *teolog.Teolog) { l.ClearFilter() }, nil, "clear"
	case 1:
		f := teolog.Filter(append([]string{}, alts...))
		return func(l *teolog.Teolog) { l.SetFilter(f) }, alts, fmt.Sprintf("Filter%q", alts)
	case 2:
		s := strings.Join(alts, "||")
		return func(l *teolog.Teolog) { l.SetFilter(s) }, alts, fmt.Sprintf("%q", s)
	case 3:
		s := "  " + strings.Join(alts, "  || ") + " "
		return func(l *teolog.Teolog) { l.SetFilter(s) }, alts, fmt.Sprintf("%q", s)
	}
	s := strings.Join(alts, " || ")
	return func(l *teolog.Teolog) { l.SetFilter(teolog.Logfilter(s)) }, alts, fmt.Sprintf("Logfilter(%q)", s)
}

func drawLevel(r *Rand) (set func(l *teolog.Teolog), level int, desc string) {
	level = r.Intn(len(levelNames))
	switch r.Intn(4) {
	case 0:
		return func(l *teolog.Teolog) { l.SetLevel(level) }, level, fmt.Sprint(level)
	case 1:
		return func(l *teolog.Teolog) { l.SetLevel(teolog.LogLevel(level)) }, level, fmt.Sprintf("LogLevel(%d)", level)
	}
	s := levelNames[level]
	switch r.Intn(4) {
	case 0:
		s = strings.ToLower(s)
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s = " " + s + "\n"
	}
	if level == 8 && r.Bool(0.3) {
		s = "All"
	}
	return func(l *teolog.Teolog) { l.SetLevel(s) }, level, fmt.Sprintf("%q", s)
}

func drawText(r *Rand, id int) string {
	s := fmt.Sprintf("<<%d>>", id)
	for k := r.Intn(4); k > 0; k-- {
		w := logWords[r.Intn(len(logWords))]
		if r.Bool(0.15) { // almost one
			w = []string{strings.ToLower(w), strings.ToUpper(w), w[1:], w[:len(w)-1]}[r.Intn(4)]
		}
		s += []string{" ", " ", "", "y", "-"}[r.Intn(5)] + w // also within a longer word
	}
	if r.Bool(0.3) {
		s += []string{"y", ".", " "}[r.Intn(3)]
	}
	if r.Bool(0.05) {
		s += strings.Repeat("long ", r.Intn(3000))
	}
	if r.Bool(0.1) {
		s += "\nsecond line"
	}
	return s
}

func logText(lg *stdlog.Logger, r *Rand, s string) {
	switch r.Intn(3) {
	case 0:
		lg.Println(s)
	case 1:
		lg.Printf("%s", s)
	default:
		lg.Print(s)
	}
}

type logCall struct {
	id, logger int
	text       string
	t0, t1     int64
}
type logSet struct {
	t0, t1 int64
	isLvl  bool
	level  int
	alts   []string
}

// c18: loggers against a reference filter.
func c18(t *Trial) {
	r := t.R
	l := teolog.New()
	if r.Bool(0.3) {
		l.SetFlags([]int{0, stdlog.Lshortfile, stdlog.LstdFlags, stdlog.Lmicroseconds | stdlog.LUTC}[r.Intn(4)])
	}
	lgs := loggersOf(l)
	cur := logState{}
	var mu sync.Mutex
	var calls []logCall
	var sets []logSet
	var clock atomic.Int64
	var ids atomic.Int64
	readLevel := func(what string) {
		if int(l.Level()) != cur.level || l.String() != levelNames[cur.level] || l.Level().String() != levelNames[cur.level] {
			t.Violate("after %s the level reads as %d %q, want %d %q", what, l.Level(), l.String(), cur.level, levelNames[cur.level])
		}
	}
	change := func(r *Rand, check bool) {
		var set func(*teolog.Teolog)
		var desc string
		s := logSet{}
		switch r.Intn(5) {
		case 0, 1:
			set, s.level, desc = drawLevel(r)
			s.isLvl = true
			cur.level = s.level
			desc = "SetLevel(" + desc + ")"
		case 2:
			s.isLvl, s.level = true, (cur.level+1)%len(levelNames)
			cur.level = s.level
			set = func(l *teolog.Teolog) {
				if got := l.SwitchLevel(); int(got) != s.level {
					t.Violate("SwitchLevel answered %d, want %d", got, s.level)
				}
			}
			desc = "SwitchLevel"
		default:
			set, s.alts, desc = drawFilter(r)
			cur.alts = s.alts
			desc = "filter " + desc
		}
		s.t0 = clock.Add(1)
		set(l)
		s.t1 = clock.Add(1)
		sets = append(sets, s)
		t.Note("%d-%d %s", s.t0, s.t1, desc)
		if check || s.isLvl {
			readLevel(desc)
		}
	}
	say := func(r *Rand) {
		c := logCall{id: int(ids.Add(1)), logger: r.Intn(len(lgs))}
		c.text = drawText(r, c.id)
		c.t0 = clock.Add(1)
		logText(lgs[c.logger], r, c.text)
		c.t1 = clock.Add(1)
		mu.Lock()
		calls = append(calls, c)
		mu.Unlock()
	}
	end := captureStdout()
	mode := r.Intn(3)
	if mode == 2 && r.Bool(0.5) {
		mode = 3
	}
	switch mode {
	case 0: // one goroutine
		t.Desc("sequential")
		for i := 0; i < 200; i++ {
			if r.Bool(0.2) {
				change(r, true)
			} else {
				say(r)
			}
		}
		// a whole cycle
		start := cur.level
		seen := map[int]bool{}
		for i := 0; i < len(levelNames); i++ {
			cur.level = (cur.level + 1) % len(levelNames)
			s := logSet{t0: clock.Add(1), isLvl: true, level: cur.level}
			if got := int(l.SwitchLevel()); got != cur.level {
				t.Violate("SwitchLevel from %d answered %d", cur.level-1, got)
			}
			s.t1 = clock.Add(1)
			sets = append(sets, s)
			seen[int(l.Level())] = true
			for k := 0; k < 8; k++ {
				say(r)
			}
		}
		if len(seen) != len(levelNames) || int(l.Level()) != start {
			t.Violate("switching through the levels from %d saw %v and ended at %d", start, seen, l.Level())
		}
	case 1: // several goroutines log
		t.Desc("concurrent logging")
		change(r, true)
		change(r, true)
		fallthrough
	default: // and another changes level and filter
		var wg sync.WaitGroup
		var done atomic.Bool
		n := r.Range(2, 6)
		for g := 0; g < n; g++ {
			rr := NewRand(r.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 150; i++ {
					say(rr)
				}
			}()
		}
		if mode != 1 {
			t.Desc("concurrent logging and settings")
			rr := NewRand(r.U64())
			go func() { wg.Wait(); done.Store(true) }()
			for i := 0; i < 60 && !done.Load(); i++ {
				change(rr, false)
				time.Sleep(rr.Dur(0, 200*time.Microsecond))
			}
		}
		wg.Wait()
		change(r, true)
		for i := 0; i < 30; i++ {
			say(r)
		}
	}
	var truLevel int
	var truOut []byte
	out := end()
	if mode == 3 {
		// the same logger given to an endpoint with a level and a filter
		set, lvl, desc := drawLevel(r)
		_ = set
		truLevel = lvl
		name := levelNames[lvl]
		var filter teolog.Filter
		if r.Bool(0.4) {
			filter = teolog.Filter{"tru created", "tru closed"}
		}
		t.Desc("endpoint with level %s (%s) and filter %q", name, desc, filter)
		l.SetFlags(stdlog.LstdFlags | stdlog.Lmsgprefix | stdlog.Lshortfile | stdlog.Lmicroseconds)
		end := captureStdout()
		params := []any{l, name}
		if filter != nil {
			params = append(params, filter)
		}
		e, err := tru.New(0, params...)
		if err != nil {
			end()
			t.Inconclusive("tru.New: %v", err)
			return
		}
		if int(l.Level()) != lvl {
			t.Violate("an endpoint was made with level %s, the logger has %v", name, l.Level())
		}
		e.Close()
		time.Sleep(20 * time.Millisecond)
		l.SetLevel(0)
		truOut = end()
		tags := []string{"[erro] ", "[user] ", "[info] ", "[conn] ", "[debu] ", "[debv] ", "[devv] ", "[dvvv] "}
		for i, tag := range tags {
			if i >= truLevel && bytes.Contains(truOut, []byte(tag)) {
				t.Violate("with level %s the endpoint printed %q lines:\n%s", name, tag, truOut)
			}
		}
		for _, m := range []string{"tru created", "tru closed"} {
			n, want := bytes.Count(truOut, []byte(m+"\n")), 0
			if lvl > 3 {
				want = 1
			}
			if n != want {
				t.Violate("with level %s and filter %q the endpoint printed %q %d times:\n%s", name, filter, m, n, truOut)
			}
		}
		if filter != nil {
			for _, line := range strings.Split(strings.TrimSpace(string(truOut)), "\n") {
				if line != "" && !strings.Contains(line, "tru created") && !strings.Contains(line, "tru closed") {
					t.Violate("with filter %q the endpoint printed %q", filter, line)
				}
			}
		}
		t.Count("endpoint_lines", bytes.Count(truOut, []byte("\n")))
	}
	// judge
	printed := map[string]int{}
	for _, m := range regexp.MustCompile(`<<\d+>>`).FindAll(out, -1) {
		printed[string(m)]++
	}
	np, ns, nu := 0, 0, 0
	for _, c := range calls {
		// states that may have been in effect during the call
		lv, fl := []int{0}, [][]string{nil}
		for _, s := range sets {
			switch {
			case s.t0 > c.t1:
			case s.t1 < c.t0: // in effect before the call began
				if s.isLvl {
					lv = []int{s.level}
				} else {
					fl = [][]string{s.alts}
				}
			default:
				if s.isLvl {
					lv = append(lv, s.level)
				} else {
					fl = append(fl, s.alts)
				}
			}
		}
		must, may := true, false
		for _, a := range lv {
			for _, b := range fl {
				if (logState{a, b}).allows(c.logger, c.text) {
					may = true
				} else {
					must = false
				}
			}
		}
		n := printed[fmt.Sprintf("<<%d>>", c.id)]
		switch {
		case n > 1:
			t.Violate("a message was printed %d times: %q", n, c.text)
		case n == 0 && must:
			t.Violate("a message was not printed: logger %d, level %v, filter %q, text %q", c.logger, lv, fl, clip(c.text))
		case n == 1 && !may:
			t.Violate("a message was printed: logger %d, level %v, filter %q, text %q", c.logger, lv, fl, clip(c.text))
		}
		if n == 1 {
			np++
			if !bytes.Contains(out, []byte(c.text+"\n")) {
				t.Violate("a message was printed, but not with its text: %q", clip(c.text))
			}
		} else {
			ns++
		}
		if must != may {
			nu++
		}
	}
	t.Count("printed", np)
	t.Count("suppressed", ns)
	t.Count("undecided", nu)
	t.Count("settings", len(sets))
	t.Sig(mode, np, ns, len(sets), r.U64())
}

func clip(s string) string {
	if len(s) > 100 {
		return s[:100] + "…"
	}
	return s
}
