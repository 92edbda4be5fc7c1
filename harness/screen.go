package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
)

// Screen is a small terminal: what the sequences the code prints make of it.
type Screen struct {
	W, H       int
	cell       [][]rune
	x, y       int // 0-based
	sx, sy     int
	wrap       bool
	top, bot   int // scroll region, 0-based, inclusive
	Unknown    string
	rest       string
	regionSets int
}

func NewScreen(w, h int) *Screen {
	s := &Screen{W: w, H: h, wrap: true, bot: h - 1}
	s.cell = make([][]rune, h)
	for i := range s.cell {
		s.cell[i] = make([]rune, w)
	}
	s.Fill(' ')
	return s
}

// Fill sets every cell.
func (s *Screen) Fill(r rune) {
	for _, l := range s.cell {
		for i := range l {
			l[i] = r
		}
	}
}

// Row is the text of a row without the blanks at its end.
func (s *Screen) Row(i int) string { return strings.TrimRight(string(s.cell[i]), " ") }

func (s *Screen) newline() {
	s.x = 0
	switch {
	case s.y == s.bot:
		copy(s.cell[s.top:], s.cell[s.top+1:s.bot+1])
		l := make([]rune, s.W)
		for i := range l {
			l[i] = ' '
		}
		s.cell[s.bot] = l
	case s.y < s.H-1:
		s.y++
	}
}

func (s *Screen) clear(y, a, b int) {
	for i := a; i < b; i++ {
		s.cell[y][i] = ' '
	}
}

// Write interprets output of a program, a newline as the terminal's driver does.
func (s *Screen) Write(p string) {
	in := []rune(p)
	for i := 0; i < len(in); i++ {
		c := in[i]
		switch {
		case c == '\n':
			s.newline()
		case c == '\r':
			s.x = 0
		case c == 27 && i+1 < len(in) && in[i+1] == '[':
			j := i + 2
			for j < len(in) && (in[j] < '@' || in[j] > '~') {
				j++
			}
			if j == len(in) {
				s.Unknown = "unfinished sequence"
				return
			}
			s.csi(string(in[i+2:j]), in[j])
			i = j
		case c == 27:
			s.Unknown = fmt.Sprintf("%q", string(in[i:min(i+4, len(in))]))
		case c < ' ':
		default:
			if s.x == s.W {
				if s.wrap {
					s.newline()
				} else {
					s.x = s.W - 1
				}
			}
			s.cell[s.y][s.x] = c
			s.x++
		}
	}
}

func (s *Screen) csi(par string, f rune) {
	var n []int
	for _, v := range strings.Split(strings.TrimPrefix(par, "?"), ";") {
		k, _ := strconv.Atoi(v)
		n = append(n, k)
	}
	arg := func(i, def int) int {
		if i < len(n) && n[i] != 0 {
			return n[i]
		}
		return def
	}
	clamp := func(v, hi int) int { return max(0, min(v, hi)) }
	switch f {
	case 's':
		s.sx, s.sy = s.x, s.y
	case 'u':
		s.x, s.y = s.sx, s.sy
	case 'f', 'H':
		s.y, s.x = clamp(arg(0, 1)-1, s.H-1), clamp(arg(1, 1)-1, s.W-1)
	case 'A':
		s.y = clamp(s.y-arg(0, 1), s.H-1)
	case 'B':
		s.y = clamp(s.y+arg(0, 1), s.H-1)
	case 'G':
		s.x = clamp(arg(0, 1)-1, s.W-1)
	case 'K':
		switch n[0] {
		case 0:
			s.clear(s.y, min(s.x, s.W), s.W)
		case 1:
			s.clear(s.y, 0, min(s.x+1, s.W))
		default:
			s.clear(s.y, 0, s.W)
		}
	case 'J':
		if n[0] == 2 {
			s.Fill(' ')
		} else {
			s.clear(s.y, min(s.x, s.W), s.W)
			for y := s.y + 1; y < s.H; y++ {
				s.clear(y, 0, s.W)
			}
		}
	case 'r':
		s.top, s.bot = arg(0, 1)-1, arg(1, s.H)-1
		if s.top < 0 || s.bot >= s.H || s.top > s.bot {
			s.top, s.bot = 0, s.H-1
		}
		s.x, s.y = 0, 0
		s.regionSets++
	case 'h', 'l':
		if par == "?7" {
			s.wrap = f == 'h'
		}
	case 'm':
	default:
		s.Unknown = "CSI " + par + string(f)
	}
}

// Stdout is the process's standard output, read while it is written.
type Stdout struct {
	f   *os.File
	old int
	pos int64
}

// OpenStdout sends file descriptor 1 to a file.
func OpenStdout() *Stdout {
	dir := os.Getenv("VP_SCRATCH")
	if dir == "" {
		dir = os.TempDir()
	}
	f, err := os.CreateTemp(dir, "stdout")
	if err != nil {
		panic("harness: " + err.Error())
	}
	old, err := syscall.Dup(1)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := syscall.Dup3(int(f.Fd()), 1, 0); err != nil {
		panic("harness: " + err.Error())
	}
	return &Stdout{f: f, old: old}
}

// Next returns what was written since the last call.
func (o *Stdout) Next() string {
	s := o.Peek()
	o.pos += int64(len(s))
	return s
}

// Peek is Next without taking it.
func (o *Stdout) Peek() string {
	st, err := o.f.Stat()
	if err != nil {
		panic("harness: " + err.Error())
	}
	b := make([]byte, st.Size()-o.pos)
	if _, err := o.f.ReadAt(b, o.pos); err != nil && len(b) > 0 {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// Close restores standard output.
func (o *Stdout) Close() {
	syscall.Dup3(o.old, 1, 0)
	syscall.Close(o.old)
	o.f.Close()
	os.Remove(filepath.Clean(o.f.Name()))
}
