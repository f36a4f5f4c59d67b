package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Gen makes random inputs. All choices come from one seeded source.
type Gen struct{ r *rand.Rand }

func newGen(seed int64) *Gen                   { return &Gen{rand.New(rand.NewSource(seed))} }
func (g *Gen) n(k int) int                     { return g.r.Intn(k) }
func (g *Gen) rng(a, b int) int                { return a + g.r.Intn(b-a+1) }
func (g *Gen) pct(p int) bool                  { return g.r.Intn(100) < p }
func (g *Gen) pick(ss ...string) string        { return ss[g.n(len(ss))] }
func (g *Gen) pickDoc(ds []*Doc) *Doc          { return ds[g.n(len(ds))] }
func (g *Gen) shuffle(n int, f func(i, j int)) { g.r.Shuffle(n, f) }

// ws is optional whitespace of a query.
func (g *Gen) ws() string {
	switch g.n(12) {
	case 0:
		return " "
	case 1:
		return "\t"
	case 2:
		return "\n"
	case 3:
		return " \r\n "
	}
	return ""
}

// ws1 is mandatory whitespace of a query.
func (g *Gen) ws1() string {
	if g.pct(70) {
		return " "
	}
	return g.pick("  ", "\n", "\t", " \n", "\r\n", "\n\n")
}

// ---------------------------------------------------------------- numbers

// decimal is sig * 10^scale with a sign.
type decimal struct {
	neg   bool
	sig   string
	scale int
}

var sigs = []string{"0", "1", "2", "3", "5", "7", "9", "10", "11", "12", "15", "25", "49", "50", "99", "100", "101", "125",
	"255", "256", "999", "1000", "1001", "1024", "4095", "4096", "32768", "65535", "65536", "123456", "999999", "1000001", "2147483647", "2147483648",
	"4294967295", "4294967296", "123456789012", "999999999999999", "100000000000001", "314159265358979", "900719925474099"}

func (g *Gen) decimal() decimal {
	d := decimal{neg: g.pct(35), sig: sigs[g.n(len(sigs))]}
	switch g.n(5) {
	case 0:
		d.scale = g.rng(-6, 3)
	case 1:
		d.scale = g.rng(-2, 0)
	case 2:
		if g.pct(20) {
			d.scale = g.rng(-18, 6)
		}
	}
	if g.pct(15) {
		d.sig = fmt.Sprint(g.n(1000))
	}
	for len(d.sig)+d.scale > 18 {
		d.scale--
	}
	return d
}

func (d decimal) bump(by int64) decimal {
	var v int64
	fmt.Sscan(d.sig, &v)
	if len(d.sig) < 15 {
		v += by
	} else {
		v -= 1
	}
	if v < 0 {
		v = -v
		d.neg = !d.neg
	}
	d.sig = fmt.Sprint(v)
	return d
}

func (d decimal) float() float64 {
	f, _ := strconv.ParseFloat(d.plain(), 64)
	return f
}

// near is a number that is equal or close to d in some way.
func (g *Gen) near(d decimal) decimal {
	switch g.n(10) {
	case 0, 1, 2, 3:
		return d
	case 4:
		return d.bump(1)
	case 5:
		return d.bump(-1)
	case 6:
		d.neg = !d.neg
		return d
	case 7:
		if len(d.sig)+d.scale < 17 {
			d.scale += g.rng(-1, 1)
		}
		return d
	case 8:
		return d.bump(int64(g.rng(-50, 50)))
	}
	return g.decimal()
}

// plain spelling, with digits before and, for negative scales, after the point
func (d decimal) plain() string {
	s := d.sig
	if d.scale > 0 {
		if s != "0" {
			s += strings.Repeat("0", d.scale)
		}
	} else if d.scale < 0 {
		k := -d.scale
		if len(s) <= k {
			s = strings.Repeat("0", k-len(s)+1) + s
		}
		s = s[:len(s)-k] + "." + s[len(s)-k:]
	}
	if d.neg {
		s = "-" + s
	}
	return s
}

// spell writes the number as JSON.
func (g *Gen) spell(d decimal) string {
	s := d.plain()
	switch g.n(8) {
	case 0:
		if strings.Contains(s, ".") {
			s += strings.Repeat("0", g.rng(1, 3))
		} else {
			s += "." + strings.Repeat("0", g.rng(1, 3))
		}
	case 1, 2:
		// exponent
		k := g.rng(-4, 6)
		e := decimal{d.neg, d.sig, d.scale - k}
		if len(e.sig)+e.scale > 18 {
			break
		}
		sign := ""
		if k < 0 {
			sign = "-"
			k = -k
		} else if g.pct(40) {
			sign = "+"
		}
		s = e.plain() + g.pick("e", "E") + sign + g.pick("", "", "0") + fmt.Sprint(k)
	}
	return s
}

// spellString writes the number as a string of a document.
func (g *Gen) spellString(d decimal) string {
	s := g.spell(d)
	switch g.n(10) {
	case 0:
		if s[0] != '-' {
			s = "+" + s
		}
	case 1:
		s = strings.Replace(s, "0.", ".", 1)
		if strings.HasPrefix(s, "-.") || strings.HasPrefix(s, ".") {
			break
		}
	case 2:
		if s[0] != '-' {
			s = "00" + s
		}
	case 3:
		s = s + g.pick(" ", "x", "%", "-", ".", "e", ",0", "a")
	case 4:
		s = g.pick(" ", "a", "$", "--", "+-", "#") + s
	}
	return s
}

// aqlNum writes the number as a query literal.
func (g *Gen) aqlNum(d decimal) string {
	s := d.plain()
	if g.pct(15) && strings.Contains(s, ".") {
		s += strings.Repeat("0", g.rng(1, 2))
	} else if g.pct(8) && !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func parseDecimal(s string) (decimal, bool) {
	d := decimal{}
	if strings.HasPrefix(s, "-") {
		d.neg = true
		s = s[1:]
	}
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		fmt.Sscan(s[i+1:], &d.scale)
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		d.scale -= len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	s = strings.TrimLeft(s, "0")
	for strings.HasSuffix(s, "0") {
		s = s[:len(s)-1]
		d.scale++
	}
	if s == "" {
		s = "0"
		d.scale = 0
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return d, false
		}
	}
	d.sig = s
	return d, len(s) <= 15 && len(s)+d.scale <= 18 && d.scale > -20
}

var orderOps = []string{"<", "<=", ">", ">="}

// numRHS is an operator and values around d.
func (g *Gen) numRHS(d decimal) string {
	switch g.n(8) {
	case 0, 1:
		return g.aqlNum(g.near(d))
	case 2, 3, 4, 5:
		return orderOps[g.n(4)] + g.ws() + g.aqlNum(g.near(d))
	case 6:
		var vs []string
		seen := map[float64]bool{}
		for k := g.rng(2, 5); len(vs) < k; {
			x := g.near(d)
			if !seen[x.float()] || g.pct(3) {
				vs = append(vs, g.aqlNum(x))
			}
			seen[x.float()] = true
		}
		return g.list(vs)
	}
	lo, hi := g.near(d), g.near(d)
	if g.pct(50) {
		hi = hi.bump(int64(g.rng(0, 3)))
		lo = lo.bump(-int64(g.rng(0, 3)))
	}
	if lo.float() > hi.float() {
		lo, hi = hi, lo
	}
	return "><" + g.ws() + g.list([]string{g.aqlNum(lo), g.aqlNum(hi)})
}

func (g *Gen) list(vs []string) string {
	var sb strings.Builder
	sb.WriteString("(" + g.ws())
	for i, v := range vs {
		if i > 0 {
			sb.WriteString("," + g.ws())
		}
		sb.WriteString(v + g.ws())
	}
	sb.WriteString(")")
	return sb.String()
}

// ---------------------------------------------------------------- times

var baseDays = []string{"1970-01-01", "1970-01-02", "1969-12-31", "2000-02-28", "2000-02-29", "2000-03-01", "1999-12-31", "2000-01-01",
	"2023-01-15", "2024-02-29", "2024-12-31", "2025-01-01", "1900-02-28", "1900-03-01", "0001-01-01", "0001-12-31", "0044-03-15", "0500-06-30",
	"1066-10-14", "1582-10-10", "1677-09-20", "1677-09-22", "1800-07-04", "1901-12-13", "2038-01-19", "2100-02-28", "2262-04-11", "2262-04-12", "2300-05-05",
	"3000-01-01", "9998-12-31", "9999-12-31", "2262-01-01", "2261-12-31", "1678-01-01"}

func (g *Gen) instant() time.Time {
	t, _ := time.Parse("2006-01-02", baseDays[g.n(len(baseDays))])
	switch g.n(8) {
	case 0: // the day itself
	case 1:
		t = t.Add(24*time.Hour - time.Nanosecond)
	case 2:
		t = t.Add(24*time.Hour - time.Second)
	case 3:
		t = t.Add(time.Duration(g.n(24)) * time.Hour)
	case 4:
		t = t.Add(time.Duration(g.n(86400)) * time.Second)
	case 5:
		t = t.Add(time.Duration(g.n(86400))*time.Second + time.Duration(g.n(1000))*time.Millisecond)
	case 6:
		t = t.Add(12*time.Hour + time.Duration(g.n(1000000000)))
	case 7:
		t = t.Add(24*time.Hour - time.Millisecond)
	}
	return t
}

var steps = []time.Duration{1, -1, 999, time.Microsecond, -time.Microsecond, time.Millisecond, -time.Millisecond, time.Second, -time.Second,
	time.Minute, -time.Minute, time.Hour, -time.Hour, 24 * time.Hour, -24 * time.Hour, 23*time.Hour + 59*time.Minute, -(24*time.Hour - 1), 24*time.Hour - 1, 24*time.Hour - time.Second,
	365 * 24 * time.Hour, -366 * 24 * time.Hour, 290 * 365 * 24 * time.Hour}

func clampYear(t time.Time) time.Time {
	if t.UTC().Year() < 1 || t.UTC().Year() > 9998 {
		return time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC)
	}
	return t
}

func (g *Gen) nearTime(t time.Time) time.Time {
	if g.pct(35) {
		return t
	}
	if g.pct(8) {
		return g.instant()
	}
	return clampYear(t.Add(steps[g.n(len(steps))]))
}

var zones = []int{0, 0, 60, -60, 330, -330, 345, 720, 840, -720, -570, 1439, -1439, 1, -1}

// rfc spells an instant with a zone and a fraction that is not longer than needed plus some zeros.
func (g *Gen) rfc(t time.Time) string {
	z := zones[g.n(len(zones))]
	u := t.In(time.FixedZone("", z*60))
	if u.Year() < 1 || u.Year() > 9999 {
		z = 0
		u = t.UTC()
	}
	s := u.Format("2006-01-02T15:04:05")
	frac := strings.TrimRight(fmt.Sprintf("%09d", u.Nanosecond()), "0")
	if g.pct(15) && len(frac) < 9 {
		frac += strings.Repeat("0", g.rng(1, 9-len(frac)))
	}
	if frac != "" {
		s += "." + frac
	}
	if z == 0 {
		return s + g.pick("Z", "Z", "+00:00", "-00:00")
	}
	sign := "+"
	if z < 0 {
		sign, z = "-", -z
	}
	return s + fmt.Sprintf("%s%02d:%02d", sign, z/60, z%60)
}

// timeString spells an instant as a string of a document (perhaps dropping its time of day).
func (g *Gen) timeString(t time.Time) string {
	switch g.n(10) {
	case 0:
		return t.UTC().Format("2006-01-02")
	case 1:
		return t.UTC().Format("2006-01-02 15:04:05")
	case 2:
		return t.UTC().Format("2006-01-02 15:04:05.999999999")
	case 3:
		if g.pct(70) {
			z := zones[g.n(len(zones))]
			u := t.In(time.FixedZone("", z*60))
			if u.Year() < 1 || u.Year() > 9999 {
				u = t.UTC()
			}
			return u.Format(g.pick(time.RFC1123Z, time.RubyDate, "2006-01-02T15:04:05-0700", "2006-01-02T15:04:05.999999999-0700", "2006-01-02T15:04:05.000-0700",
				"2006-01-02 15:04:05 -0700", "2006-01-02 15:04:05 -07:00"))
		}
	case 4:
		if g.pct(30) {
			return g.pick("", "never", "n/a", "a date", "yesterday", "true", "Tuesday", "--", "T::Z", "5", "12", "1st", "7pm")
		}
		if g.pct(40) {
			// no such day or time
			day := g.pick("2020-02-30", "2021-02-29", "2020-13-01", "2020-00-10", "2020-01-32", "2020-04-31", "1900-02-29", "2020-01-00", "2020-06-01", "1970-01-01")
			return g.pick(day, day+" 00:00:00", day+"T00:00:00Z", day+"T25:00:00Z", day+"T24:00:00Z", day+"T00:60:00Z", day+"T00:00:60+01:00", day+" 23:59:60", day+"T12:00:00+25:00")
		}
	case 5:
		if g.pct(70) {
			return t.UTC().Format(g.pick("Mon, 02 Jan 2006 15:04:05 GMT", time.RFC1123, time.ANSIC, time.UnixDate, time.RFC850, "Jan 2, 2006", "January 2, 2006", "Jan 02, 2006 15:04:05",
				"January 2, 2006 15:04:05", "2 Jan 2006", "02 January 2006", "2 Jan 2006 15:04:05", "2006/01/02", "2006/01/02 15:04:05", "1/2/2006", "01/02/2006", "1/2/2006 15:04:05",
				"01/02/2006 15:04", "20060102", "20060102150405", "2006-01-02 15:04", "2006-01-02T15:04:05", "2006-01-02 15:04:05Z", "2006-01-02 15:04:05 UTC", "2006-01-02 15:04:05 +0000 UTC",
				"2006-01-02 15:04:05.999999999 +0000 UTC", "2006-Jan-02", "2006.01.02"))
		}
	}
	return g.rfc(t)
}

func (g *Gen) aqlTime(t time.Time) string {
	if g.pct(30) {
		return t.UTC().Format("2006-01-02")
	}
	return g.rfc(t)
}

func (g *Gen) timeRHS(t time.Time) string {
	switch g.n(8) {
	case 0, 1:
		return g.aqlTime(g.nearTime(t))
	case 2, 3, 4, 5:
		return orderOps[g.n(4)] + g.ws() + g.aqlTime(g.nearTime(t))
	case 6:
		return g.list([]string{g.aqlTime(g.nearTime(t)), g.aqlTime(g.nearTime(t)), g.aqlTime(g.instant())}[:g.rng(2, 3)])
	}
	a, b := g.nearTime(t), g.nearTime(t)
	if b.Before(a) {
		a, b = b, a
	}
	return "><" + g.ws() + g.list([]string{g.aqlTime(a), g.aqlTime(b)})
}

// ---------------------------------------------------------------- texts

var words = []string{"a", "b", "ab", "abc", "foo", "Foo", "FOO", "bar", "baz", "cat", "category", "x1", "1", "10", "the", "quick", "fox", "under_score",
	"don't", "e-mail", "user", "USER", "Zed", "z", "A1", "_", "_x", "v2", "ok", "error", "Warning", "k", "s", "K", "S"}
var seps = []string{" ", " ", " ", "-", "_", ".", ", ", "/", ":", "", "  ", "\t", "(", ") ", "[", "]", "+", "*", "?", "\\", "\"", "'", "!", "@", "#", "$", "%", "^", "&", "|", "~", "`", "<", ">", "{", "}", "=", ";"}
var exotic = []string{"漢字", "中文", "日", "é", "üß", "αβ", "\U0001F600", "—", " ", "Ж", "naïve", "K", "ſ"}

func (g *Gen) phrase() string {
	var sb strings.Builder
	n := g.rng(0, 5)
	if g.pct(6) {
		n = g.rng(20, 60)
	}
	for i := 0; i < n; i++ {
		if i > 0 || g.pct(15) {
			sb.WriteString(seps[g.n(len(seps))])
		}
		if g.pct(7) {
			sb.WriteString(exotic[g.n(len(exotic))])
		} else {
			sb.WriteString(words[g.n(len(words))])
		}
	}
	if g.pct(12) {
		sb.WriteString(seps[g.n(len(seps))])
	}
	if g.pct(4) {
		sb.WriteString(g.pick("\n", "\r\n", "\x01", "\x1f", "\x7f", "\b", "\f", "\u0000"))
	}
	if g.pct(3) {
		sb.WriteString(words[g.n(len(words))])
	}
	return sb.String()
}

func (g *Gen) flipCase(s string) string {
	b := []rune(s)
	for i, c := range b {
		if c < 128 && g.pct(50) {
			if c >= 'a' && c <= 'z' {
				b[i] = c - 32
			} else if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
	}
	return string(b)
}

// quoteAQL writes a quoted string of a query.
func (g *Gen) quoteAQL(s string) string {
	var sb strings.Builder
	esc := 0
	if g.pct(10) {
		esc = 30
	}
	sb.WriteByte('"')
	for _, r := range s {
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}
		if e, ok := short[r]; ok {
			sb.WriteString(e)
		} else if r < 0x20 || (r < 0x10000 && g.pct(esc)) {
			fmt.Fprintf(&sb, g.pick(`\u%04x`, `\u%04X`), r)
		} else {
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func wordRune(r rune) bool {
	return r == '_' || (r >= '0' && r <= '9') || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z')
}

// pattern is a search text that has a fair chance of being found in s.
func (g *Gen) pattern(s string) string {
	rs := []rune(s)
	if len(rs) == 0 || g.pct(8) {
		return g.phrase()
	}
	a := g.n(len(rs))
	b := a + g.rng(0, min(12, len(rs)-a))
	if g.pct(10) {
		a, b = 0, len(rs)
	}
	if g.pct(75) { // whole words
		for a > 0 && a < len(rs) && wordRune(rs[a-1]) && wordRune(rs[a]) {
			a--
		}
		for b < len(rs) && b > 0 && wordRune(rs[b-1]) && wordRune(rs[b]) {
			b++
		}
	}
	var sb strings.Builder
	sub := rs[a:b]
	for i := 0; i < len(sub); i++ {
		c := sub[i]
		switch {
		case g.pct(5):
			sb.WriteByte('?')
		case g.pct(5):
			sb.WriteByte('*')
			i += g.n(4)
		case g.pct(2):
			sb.WriteByte('*')
			i--
			if g.pct(50) {
				i++
				sb.WriteRune(c)
			}
		case g.pct(2):
			// drop it
		case g.pct(2):
			sb.WriteString(g.pick("?", "*", "\\?", "\\*", "\\", "z", "-"))
		case (c == '?' || c == '*') && g.pct(80):
			sb.WriteByte('\\')
			sb.WriteRune(c)
		default:
			sb.WriteRune(c)
		}
	}
	p := sb.String()
	if g.pct(40) {
		p = g.flipCase(p)
	}
	if g.pct(6) {
		p = g.pick("*", "?", " ", "-", "#") + p
	}
	if g.pct(6) {
		p += g.pick("*", "?", " ", "-", "!")
	}
	return p
}

func (g *Gen) textRHS(s string) string {
	op := ""
	if g.pct(15) {
		op = "~" + g.ws()
	}
	if g.pct(80) {
		return op + g.quoteAQL(g.pattern(s))
	}
	var vs []string
	for k := g.rng(2, 4); k > 0; k-- {
		vs = append(vs, g.quoteAQL(g.pattern(s)))
	}
	return op + g.list(vs)
}

// ---------------------------------------------------------------- regexes

func reLit(r rune) string {
	if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
		return `\` + string(r)
	}
	switch r {
	case '\n':
		return `\n`
	case '\t':
		return `\t`
	case '\r':
		return `\r`
	}
	return string(r)
}

func (g *Gen) reAtom(r rune) string {
	switch g.n(14) {
	case 0:
		return "."
	case 1:
		switch {
		case r >= '0' && r <= '9':
			return `\d`
		case wordRune(r):
			return `\w`
		case r == ' ' || r == '\t':
			return `\s`
		}
		return `\W`
	case 2:
		if wordRune(r) && r != '_' {
			return g.pick("[a-z]", "[A-Z]", "[0-9]", "[a-zA-Z]", "[a-m]", "[n-z0-4]", "[^a-c]", "[^0-9]", "["+string(r)+"xyz]", "[^"+string(r)+"]", `[\w]`, `[^\s\d]`, "[-"+string(r)+"]", "["+string(r)+"-]")
		}
	case 3:
		return g.pick(`\S`, `\D`, `[^x]`, `[^\n]`, `\W`)
	case 4:
		if g.pct(30) {
			return reLit(rune(g.pick("q", "z", "7", "-", "/")[0]))
		}
	case 5:
		if r == '/' || g.pct(10) {
			return g.pick("/", "[/]", "[/a]")
		}
	}
	return reLit(r)
}

func (g *Gen) reSeq(rs []rune, depth int) string {
	var sb strings.Builder
	for i := 0; i < len(rs); i++ {
		if depth > 0 && g.pct(10) {
			k := g.rng(0, min(4, len(rs)-i))
			in := g.reSeq(rs[i:i+k], depth-1)
			if g.pct(50) {
				alts := []string{in, g.reSeq([]rune(words[g.n(len(words))]), 0)}
				if g.pct(40) {
					alts = append(alts, g.reSeq([]rune(words[g.n(len(words))]), 0))
				}
				g.shuffle(len(alts), func(a, b int) { alts[a], alts[b] = alts[b], alts[a] })
				in = strings.Join(alts, "|")
			}
			sb.WriteString(g.pick("(", "(", "(?:") + in + ")")
			i += k - 1
			if k == 0 {
				i++
			}
		} else {
			sb.WriteString(g.reAtom(rs[i]))
		}
		if g.pct(12) {
			sb.WriteString(g.pick("*", "+", "?", "{1}", "{2}", "{1,2}", "{0,3}", "{1,}", "*?", "+?", "??", "{2,}"))
		} else if g.pct(3) {
			sb.WriteString(g.pick(`\b`, `\B`, "^", "$", ".*", ".+", ".?"))
		}
	}
	return sb.String()
}

// regex is an expression (without delimiters) that has a fair chance of matching s.
func (g *Gen) regex(s string) string {
	rs := []rune(s)
	if len(rs) == 0 || g.pct(8) {
		rs = []rune(g.phrase())
	}
	a, b := 0, 0
	if len(rs) > 0 {
		a = g.n(len(rs))
		b = a + g.rng(0, min(8, len(rs)-a))
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 && g.pct(60) {
		// one of the lines, or the text around a line break
		lines := strings.Split(s, "\n")
		rs = []rune(lines[g.n(len(lines))])
		if g.pct(30) {
			rs = []rune(s)[utf8.RuneCountInString(s[:i]):]
		}
		a, b = 0, min(len(rs), 12)
		re := g.reSeq(rs[a:b], g.n(2))
		if g.pct(70) {
			re = g.pick("^", "^", `\A`, "") + re + g.pick("$", "$", `\z`, "")
		}
		if g.pct(50) {
			re = g.pick("(?m)", "(?s)", "(?ms)", "(?i)", "(?U)", "(?s).*", "(?m)^", "(?s)^.*") + re
		}
		return re
	}
	if plain := strings.TrimFunc(s, func(c rune) bool { return !wordRune(c) }); g.pct(5) && plain != "" && plainName(strings.ReplaceAll(plain, " ", "_")) {
		// letters only, perhaps all of one case
		return g.pick(plain, plain, strings.ToLower(plain), strings.ToUpper(plain))
	}
	re := g.reSeq(rs[a:b], 2)
	if g.pct(10) {
		re = re + "|" + g.reSeq([]rune(g.pick(words...)), 1)
	}
	if g.pct(12) {
		re = g.pick("^", `\b`, ".*", `\A`, "^.*", `\/`, `\\`, "/") + re
	}
	if g.pct(12) {
		re = re + g.pick("$", `\b`, ".*", `\z`, ".*$", `\\`, "/", `\.*`, `\/`)
	}
	if g.pct(12) {
		re = g.pick("(?i)", "(?i)", "(?i)", "(?i)", "(?is)", "(?mi)", "(?Ui)") + g.flipCase(re)
	} else if g.pct(4) {
		re = g.pick("(?m)", "(?s)", "(?U)", "(?sm)") + re
	} else if g.pct(4) {
		re = g.pick("(?i:", "(?s:", "(?m:", "(?im:") + g.flipCase(re) + ")"
	}
	if g.pct(3) {
		re = g.pick("(", ")", "[", "*", "+", "?", "a**", `\q`, "[z-a]", "a{2,1}", "(?", "\\") + re
	}
	return re
}

// regexLit delimits an expression. Slashes are written as \/.
func (g *Gen) regexLit(re string) string {
	var sb strings.Builder
	sb.WriteByte('/')
	for i := 0; i < len(re); i++ {
		switch {
		case re[i] == '\\' && i+1 < len(re):
			sb.WriteByte(re[i])
			i++
			sb.WriteByte(re[i])
		case re[i] == '/':
			sb.WriteString(`\/`)
		case re[i] == '\n':
			sb.WriteString(`\n`)
		default:
			sb.WriteByte(re[i])
		}
	}
	sb.WriteByte('/')
	return sb.String()
}

func (g *Gen) regexRHS(s string) string {
	op := ""
	if g.pct(12) {
		op = "~" + g.ws()
	}
	if g.pct(88) {
		return op + g.regexLit(g.regex(s))
	}
	return op + g.list([]string{g.regexLit(g.regex(s)), g.regexLit(g.regex(s))})
}

// ---------------------------------------------------------------- networks

type block struct {
	ip   uint32
	bits int
}

func (b block) addr() string {
	return fmt.Sprintf("%d.%d.%d.%d", b.ip>>24, b.ip>>16&255, b.ip>>8&255, b.ip&255)
}
func (b block) String() string { return fmt.Sprintf("%s/%d", b.addr(), b.bits) }
func (b block) mask() uint32   { return uint32(0xffffffff << (32 - b.bits) & 0xffffffff) }

func (g *Gen) block() block {
	ips := []uint32{0, 0xffffffff, 0x0a000000, 0x0a000001, 0x7f000001, 0xc0a80000, 0xc0a80101, 0xc0a801ff, 0xc0a80180, 0xac100000, 0xac1fffff, 0x08080808, 0x01020304, 0x80000000, 0x7fffffff, 0x0affffff}
	b := block{ips[g.n(len(ips))], g.rng(0, 32)}
	if g.pct(30) {
		b.ip = g.r.Uint32()
	}
	if g.pct(40) {
		b.bits = []int{32, 32, 31, 30, 24, 23, 25, 16, 17, 8, 9, 7, 1, 0}[g.n(14)]
	}
	if g.pct(40) {
		b.ip &= b.mask()
	}
	return b
}

// nearIP is an address at or around the limits of the block.
func (g *Gen) nearIP(b block) uint32 {
	lo := b.ip & b.mask()
	hi := lo | ^b.mask()
	switch g.n(9) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return lo - 1
	case 3:
		return hi + 1
	case 4:
		return b.ip
	case 5:
		return b.ip ^ (1 << uint(g.n(32)))
	case 6:
		return lo | (g.r.Uint32() & ^b.mask())
	case 7:
		return b.ip ^ (g.r.Uint32() & b.mask())
	}
	return g.r.Uint32()
}

func (g *Gen) netText(b block) string {
	one := func() string {
		x := block{g.nearIP(b), g.rng(0, 32)}
		if g.pct(50) {
			x.bits = max(0, min(32, b.bits+g.rng(-2, 2)))
		}
		switch g.n(12) {
		case 0, 1, 2, 3, 4:
			return x.addr()
		case 5, 6, 7, 8:
			return x.String()
		case 9:
			return fmt.Sprintf("%d.%d.%d.%d", g.rng(256, 999), x.ip>>16&255, x.ip>>8&255, x.ip&255)
		case 10:
			return fmt.Sprintf("%s/%d", x.addr(), g.rng(33, 99))
		}
		return fmt.Sprintf("%d.%d.%d.%d", x.ip>>24, x.ip>>16&255, x.ip>>8&255, g.rng(256, 999))
	}
	var sb strings.Builder
	k := g.rng(1, 3)
	if g.pct(5) {
		k = g.rng(6, 25)
	}
	if g.pct(4) {
		k = 0
	}
	if k > 1 || g.pct(50) {
		sb.WriteString(g.pick("", "from ", "src=", "(", "[", "10 hosts: ", "v1.2 ", "host-", "中", ":", "a"))
	}
	for i := 0; i < k; i++ {
		if i > 0 {
			sb.WriteString(g.pick(" ", ", ", " -> ", ";", " and ", "\n", "|", "-", ":", ","))
		}
		sb.WriteString(one())
	}
	if g.pct(30) {
		sb.WriteString(g.pick(".", "!", ")", ":80", " end", "]", " 1.2.3", "a", ","))
	}
	return sb.String()
}

func (g *Gen) aqlNet(b block) string {
	if b.bits == 32 && g.pct(70) {
		return b.addr()
	}
	return b.String()
}

func (g *Gen) netRHS(b block) string {
	if g.pct(85) {
		return g.aqlNet(b)
	}
	return g.list([]string{g.aqlNet(b), g.aqlNet(g.block())})
}

// ---------------------------------------------------------------- fields

func plainName(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !wordRune(rune(s[i])) && s[i] != '-' {
			return false
		}
	}
	return true
}

// field writes a path as the field of a query.
func (g *Gen) field(path []string) string {
	var parts []string
	for _, p := range path {
		if g.pct(4) {
			parts = append(parts, "*")
		}
		if plainName(p) && g.pct(88) {
			parts = append(parts, p)
		} else {
			parts = append(parts, g.quoteAQL(p))
		}
	}
	if g.pct(4) {
		parts = append(parts, "*")
	}
	return strings.Join(parts, ".")
}

func (g *Gen) cmp(path []string, rhs string) string {
	return g.field(path) + g.ws() + ":" + g.ws() + rhs
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
