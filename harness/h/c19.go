package h

import (
	"time"

	"yarqlverif/harness/sym"
)

func two(n int) string {
	return string([]byte{byte('0' + n/10), byte('0' + n%10)})
}

func timeText(y, mo, d, h, mi, s, ms int) string {
	return two(y/100) + two(y%100) + "-" + two(mo) + "-" + two(d) + "T" + two(h) + ":" + two(mi) + ":" + two(s) + "." + itoa(ms/100) + two(ms%100) + "Z"
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func daysIn(y, m int) int {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// days since 1970-01-01, counted year by year
func dayNumber(y, m, d int) int64 {
	n := 0
	for i := 1970; i < y; i++ {
		n += 365
		if leap(i) {
			n++
		}
	}
	for i := y; i < 1970; i++ {
		n -= 365
		if leap(i) {
			n--
		}
	}
	for i := 1; i < m; i++ {
		n += daysIn(y, i)
	}
	return int64(n + d - 1)
}

type timeParts struct{ y, mo, d, h, mi, s, ms int }

var timeBases = []timeParts{
	{2021, 6, 15, 12, 30, 45, 678},
	{1999, 12, 31, 23, 59, 59, 999},
	{2000, 2, 29, 0, 0, 0, 0},
	{1970, 1, 1, 0, 0, 0, 1},
	{1950, 3, 1, 1, 2, 3, 40},
	{1900, 2, 28, 23, 0, 9, 100},
	{2100, 2, 28, 23, 59, 0, 9},
	{9999, 12, 31, 23, 59, 59, 999},
	{1, 1, 1, 0, 0, 0, 0},
}

// timeUse asks with the text as argument.
func timeUse(st *outState, text string, way int) bool {
	outT = time.Time{}
	var r *resp
	switch way {
	case 0:
		r = exec(st.s, "{time(t:\""+text+"\")a}")
	case 1:
		r = execVars(st.s, "query($t:Time){time(t:$t)a}", "{\"t\":\""+text+"\"}")
	case 2:
		r = exec(st.s, "query($t:Time=\""+text+"\"){time(t:$t)a}")
	default:
		r = exec(st.s, "{timeP(t:[\""+text+"\"])a}")
	}
	return !r.failed()
}

// inZone is a process in some time zone.
func inZone() func() {
	old := time.Local
	time.Local = time.FixedZone("here", []int{2*3600 + 1800, -9 * 3600}[sym.Choose(1+sym.Tier())])
	return func() { time.Local = old }
}

// Run_C19_arg: two symbolic digits at every place of a time argument.
func Run_C19_arg(st *outState) {
	defer inZone()()
	b := timeBases[sym.Choose(len(timeBases)-1)]
	text := []byte(timeText(b.y, b.mo, b.d, b.h, b.mi, b.s, b.ms))
	const digits = "0123456789"
	// the places of the components
	at := []int{0, 2, 5, 8, 11, 14, 17, 20, 21}[sym.Choose(9)]
	ten := sym.Choose(10)
	text[at], text[at+1] = digits[ten], sym.Pick(digits)
	n := ten*10 + int(text[at+1]-'0')
	p := b
	switch at {
	case 0:
		p.y = n*100 + p.y%100
	case 2:
		p.y = p.y/100*100 + n
	case 5:
		p.mo = n
	case 8:
		p.d = n
	case 11:
		p.h = n
	case 14:
		p.mi = n
	case 17:
		p.s = n
	case 20:
		p.ms = n*10 + p.ms%10
	default:
		p.ms = p.ms/100*100 + n
	}
	valid := p.mo >= 1 && p.mo <= 12 && p.d >= 1 && p.h < 24 && p.mi < 60 && p.s < 60
	if valid {
		valid = p.d <= daysIn(p.y, p.mo)
	}
	ok := timeUse(st, string(text), sym.Choose(4))
	sym.Assert(ok == valid, "a time was accepted or refused wrongly")
	if !ok {
		sym.Cover("refused")
		return
	}
	want := ((dayNumber(p.y, p.mo, p.d)*24+int64(p.h))*60+int64(p.mi))*60 + int64(p.s)
	sym.Assert(outT.Unix() == want && outT.Nanosecond() == p.ms*1000000, "a time argument arrives as another instant")
	sym.Cover("accepted")
}

// Run_C19_malformed: another byte at any place, one less or one more.
func Run_C19_malformed(st *outState) {
	text := []byte("2021-06-15T12:30:45.678Z")
	i := sym.Choose(len(text) + 1)
	c := sym.Byte()
	sym.Assume(c >= 0x20 && c < 0x7f && c != '"' && c != '\\')
	digit := c >= '0' && c <= '9'
	switch sym.Choose(3) {
	case 0:
		if i == len(text) {
			return
		}
		if text[i] >= '0' && text[i] <= '9' {
			sym.Assume(!digit)
		} else {
			sym.Assume(c != text[i])
		}
		if text[i] == '.' && c == ',' {
			return // a comma before the fraction is accepted by the time package
		}
		if i == 20 && c == '+' {
			return // and so is a sign inside of it
		}
		text[i] = c
	case 1:
		text = append(text[:i], append([]byte{c}, text[i:]...)...)
	default:
		if i == len(text) {
			return
		}
		text = append(text[:i], text[i+1:]...)
		if i == 11 || i == 12 {
			return // the time package accepts an hour of one digit
		}
	}
	ok := timeUse(st, string(text), sym.Choose(4))
	sym.Assert(!ok, "a malformed time was accepted")
	sym.Cover("refused")
}

// Run_C19_output: times around interesting instants in every zone.
func Run_C19_output(st *outState) {
	b := timeBases[sym.Choose(len(timeBases))]
	sec := ((dayNumber(b.y, b.mo, b.d)*24+int64(b.h))*60+int64(b.mi))*60 + int64(b.s)
	_ = sec
	defer inZone()()
	offs := []int{0, 3600, -3600, 5*3600 + 1800, -12 * 3600, 14 * 3600, 1, -1, 59}
	off := offs[sym.Choose(len(offs))]
	loc := time.FixedZone("z", off)
	d := sym.Range(0, 2)
	ms := sym.Conc(sym.Range(0, 9))
	// with and without a part that is not written; the zero time is one of them
	outT = time.Unix(sec+int64(sym.Conc(d)), int64(b.ms/10*10+ms)*1000000+int64(sym.Choose(2))*999999).In(loc)
	r := exec(st.s, "{o{t tp}a}")
	p := b
	p.ms = b.ms/10*10 + ms
	p.s += d
	if p.s >= 60 {
		p.s -= 60
		p.mi++
		if p.mi == 60 {
			p.mi = 0
			p.h++
			if p.h == 24 {
				p.h = 0
				p.d++
				if p.d > daysIn(p.y, p.mo) {
					p.d = 1
					p.mo++
					if p.mo == 13 {
						p.mo = 1
						p.y++
					}
				}
			}
		}
	}
	if p.y > 9999 {
		return
	}
	want := timeText(p.y, p.mo, p.d, p.h, p.mi, p.s, p.ms)
	o := r.data.get("o")
	sym.Assert(!r.failed() && o.get("t").isStr(want) && o.get("tp").isStr(want), "a time is written as another instant")
	// and reads back
	sym.Assert(timeUse(st, want, sym.Choose(2)), "a written time cannot be read back")
	sym.Assert(timeText(p.y, p.mo, p.d, p.h, p.mi, p.s, p.ms) == want, "round trip")
	sym.Cover("written")
}
