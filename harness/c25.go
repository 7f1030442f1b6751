package gojsonsm

// Dates: which texts are dates, and how they compare.

// A text that may be a date and the instant an independent reading gives it.
type vz25Date struct {
	text  []byte
	date  bool  // a date for DATE(x)
	plain bool  // also without DATE: not "date time" with blanks
	sec   int64 // seconds since 1 January of year 0, and what follows them
	nano  int64
}

func vz25Num(n int64, width int) []byte {
	b := make([]byte, width)
	for i := width - 1; i >= 0; i-- {
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return b
}

// two digits, each a symbolic byte
func vz25Two() (int64, []byte) {
	a, b := vzDigit(), vzDigit()
	return 10*a + b, []byte{byte('0' + a), byte('0' + b)}
}

func vz25Leap(y int64) bool {
	return vzAnd(y%4 == 0, vzOr(y%100 != 0, y%400 == 0))
}

func vz25Days(y, m, d int64) (day int64, ok bool) {
	lens := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	leap := vz25Leap(y)
	before, here := int64(0), int64(0)
	sum := int64(0)
	for i, n := range lens {
		x := n
		if i == 1 {
			x += int64(vzIte(leap, 1, 0))
		}
		is := m == int64(i+1)
		here = int64(vzIte(is, uint64(x), uint64(here)))
		before = int64(vzIte(is, uint64(sum), uint64(before)))
		sum += x
	}
	ok = vzAnd(vzAnd(m >= 1, m <= 12), vzAnd(d >= 1, d <= here))
	z := y - 1
	day = 365*y + z/4 - z/100 + z/400 + before + d
	return
}

const vz25Forms = 7

// vz25Text is a text of the form with symbolic digits after the month.
func vz25Text(form int) vz25Date {
	years := []string{"1999", "2000", "2020", "1899"}
	months := []int64{2, 12, 13}
	if vzThorough() {
		years = append(years, "1900", "2018", "2100")
		months = append(months, 0, 1, 4, 10)
	}
	seps := []string{"--"}
	if form >= 1 && form <= 3 {
		seps = append(seps, "/.", " -", "T-", ".T")
	}
	m := int64(1)
	if form >= 1 {
		m = months[vzChoice(len(months))]
	}
	return vz25TextOf(form, years[vzChoice(len(years))], m, seps[vzChoice(len(seps))], vz25Part(form))
}

// vz25Part picks the parts whose digits are symbolic, out of day, hour,
// minute, second and offset.
func vz25Part(form int) int {
	n := 1
	switch {
	case form == 6:
		n = 5
	case form > 2:
		n = 4
	}
	p := 1 << vzChoice(n)
	if vzThorough() && n > 1 {
		p |= p << 1
	}
	return p
}

func vz25TextOf(form int, year string, m int64, sep string, part int) (r vz25Date) {
	two := func(i int, c int64) (int64, []byte) {
		if part>>i&1 == 1 {
			return vz25Two()
		}
		return c, vz25Num(c, 2)
	}
	y := int64(0)
	for i := 0; i < 4; i++ {
		y = 10*y + int64(year[i]-'0')
	}
	text := []byte(year)
	d := int64(1)
	if form == 0 {
		m = 1
	}
	good := true
	if form >= 1 {
		text = append(append(text, sep[0]), vz25Num(m, 2)...)
		good = sep[0] != 'T'
	}
	if form >= 2 {
		n, t := two(0, 15)
		d, text = n, append(append(text, sep[1]), t...)
		good = good && sep[1] != 'T'
	}
	day, ok := vz25Days(y, m, d)
	r.plain = form != 3
	r.sec = day * 86400
	if form >= 3 {
		hh, ht := two(1, 12)
		mm, mt := two(2, 30)
		ss, st := two(3, 45)
		at := []string{" ", "   ", "T"}[vzChoice(3)]
		if form > 3 {
			at = "T"
		} else if at == "T" {
			good = false
		}
		text = append(text, at...)
		text = append(append(text, ht...), ':')
		text = append(append(text, mt...), ':')
		text = append(text, st...)
		ok = vzAnd(ok, vzAnd(hh < 24, vzAnd(mm < 60, ss < 60)))
		r.sec += hh*3600 + mm*60 + ss
	}
	switch form {
	case 5:
		n := vzDigit()
		r.nano = n * 100000000
		text = append(text, '.', byte('0'+n))
	case 6:
		n, t := two(4, 2)
		s := vzChoice(2)
		text = append(append(text, "+-"[s]), t...)
		text = append(text, ":30"...)
		vzAssume(n != 24) // Go reads it
		ok = vzAnd(ok, n < 24)
		if s == 0 {
			r.sec -= n*3600 + 1800
		} else {
			r.sec += n*3600 + 1800
		}
	}
	if form == 4 || form == 5 {
		text = append(text, 'Z')
	}
	if form < 4 {
		good = good && (year[:2] == "19" || year[:2] == "20")
	}
	r.text = text
	r.date = vzAnd(ok, good)
	return
}

func vz25Want(op int, l, r vz25Date) bool {
	lt := vzOr(l.sec < r.sec, vzAnd(l.sec == r.sec, l.nano < r.nano))
	eq := vzAnd(l.sec == r.sec, l.nano == r.nano)
	// a text that is no date is below all dates
	lt = vzOr(vzAnd(!l.date, r.date), vzAnd(vzAnd(l.date, r.date), lt))
	eq = vzAnd(vzAnd(l.date, r.date), eq)
	switch op {
	case 0:
		return eq
	case 1:
		return !eq
	case 2:
		return lt
	case 3:
		return vzOr(lt, eq)
	case 4:
		return !vzOr(lt, eq)
	}
	return !lt
}

func vz25Cmp(op int, l, r Expression) Expression {
	switch op {
	case 0:
		return EqualsExpr{l, r}
	case 1:
		return NotEqualsExpr{l, r}
	case 2:
		return LessThanExpr{l, r}
	case 3:
		return LessEqualsExpr{l, r}
	case 4:
		return GreaterThanExpr{l, r}
	}
	return GreaterEqualsExpr{l, r}
}

func vz25Check(op int, l, r Expression, want bool, doc []byte) {
	got := vzSimpleMatch(vz25Cmp(op, l, r), doc)
	vzAssert(got == want, "wrong verdict on a comparison of dates")
	if got {
		vzCover("matched")
	} else {
		vzCover("unmatched")
	}
}

func vz25Doc(text []byte) []byte {
	return append(append([]byte(`{"d":"`), text...), `"}`...)
}

var vz25Consts = []struct {
	text     string
	y, m, d  int64
	sec, nan int64
}{
	{"2020-02-15T12:30:45Z", 2020, 2, 15, 45045, 0},
	{"1999/12", 1999, 12, 1, 0, 0},
	{"2020", 2020, 1, 1, 0, 0},
	{"2000-02.29", 2000, 2, 29, 0, 0},
	{"2000-02-29T23:00:00.5-01:30", 2000, 2, 29, 82800 + 5400, 500000000},
}

func vz25Const() (string, vz25Date) {
	n := 2
	if vzThorough() {
		n = len(vz25Consts)
	}
	c := vz25Consts[vzChoice(n)]
	day, _ := vz25Days(c.y, c.m, c.d)
	return c.text, vz25Date{date: true, plain: true, sec: day*86400 + c.sec, nano: c.nan}
}

//vz:bound every comparison operator between DATE of a member and DATE of one of 2 (thorough: 5) constant dates, in both orders; the member is a text of the form year, year-month, year-month-day, "date time", or RFC 3339 with Z, with a fraction or with an offset: 4 years (thorough: 7), 3 months (7) including months that do not exist, the digits of one of day, hour, minute, second and offset (thorough: of two) symbolic, 5 pairs of separators in the forms without T
//vz:cover matched unmatched
func vz_C25_order() {
	form := vzChoice(vz25Forms)
	f := vz25Text(form)
	ct, c := vz25Const()
	op := vzChoice(6)
	l := FuncExpr{"date", []Expression{FieldExpr{0, []string{"d"}}}}
	r := FuncExpr{"date", []Expression{ValueExpr{ct}}}
	if vzChoice(2) == 0 {
		vz25Check(op, l, r, vz25Want(op, f, c), vz25Doc(f.text))
	} else {
		vz25Check(op, r, l, vz25Want(op, c, f), vz25Doc(f.text))
	}
}

var _ = vzReg("vz_C25_order", vz_C25_order)

//vz:bound every comparison operator between a member (a text of one of 7 forms as in vz_C25_order) and one of 2 (thorough: 5) constant times, in both orders
//vz:cover matched unmatched
func vz_C25_time() {
	form := vzChoice(vz25Forms)
	f := vz25Text(form)
	f.date = vzAnd(f.date, f.plain)
	ct, c := vz25Const()
	op := vzChoice(6)
	l := FieldExpr{0, []string{"d"}}
	r := TimeExpr{ct}
	if vzChoice(2) == 0 {
		vz25Check(op, l, r, vz25Want(op, f, c), vz25Doc(f.text))
	} else {
		vz25Check(op, r, l, vz25Want(op, c, f), vz25Doc(f.text))
	}
}

var _ = vzReg("vz_C25_time", vz_C25_time)

//vz:bound every comparison operator between DATE of two members, one a year-month-day, the other of any of 7 forms; two years, two months, the digits of one part after the month (thorough: of two) symbolic in each
//vz:cover matched unmatched
func vz_C25_fields() {
	ym := func(form int) vz25Date {
		return vz25TextOf(form, []string{"2019", "2020"}[vzChoice(2)], []int64{1, 2}[vzChoice(2)], "--", vz25Part(form))
	}
	f, g := ym(2), ym(vzChoice(vz25Forms))
	op := vzChoice(6)
	doc := append([]byte(`{"d":"`), f.text...)
	doc = append(append(doc, `","e":"`...), g.text...)
	doc = append(doc, `"}`...)
	l := FuncExpr{"date", []Expression{FieldExpr{0, []string{"d"}}}}
	r := FuncExpr{"date", []Expression{FieldExpr{0, []string{"e"}}}}
	vzAssume(vzOr(f.date, g.date))
	vz25Check(op, l, r, vz25Want(op, f, g), doc)
}

var _ = vzReg("vz_C25_fields", vz_C25_fields)

//vz:bound ["equals",["field","d"],["time",T]] with T a text of one of 7 forms as in vz_C25_order: accepted exactly when T is a date, and an accepted T equals itself and not another
//vz:cover accepted rejected
func vz_C25_accept() {
	form := vzChoice(vz25Forms)
	f := vz25Text(form)
	f.date = vzAnd(f.date, f.plain)
	text := append([]byte(`["equals",["field","d"],["time","`), f.text...)
	text = append(text, `"]]`...)
	var e Expression
	var err error
	p := vzPanics(func() { e, err = ParseJsonExpression(text) })
	vzAssert(p == "", "the parser panicked: "+p)
	vzAssert((err == nil) == f.date, "a text that is no date was accepted, or a date rejected")
	if err != nil {
		vzCover("rejected")
		return
	}
	vzCover("accepted")
	vzAssert(vzSimpleMatch(e, vz25Doc(f.text)), "a date does not equal itself")
	vzAssert(!vzSimpleMatch(e, []byte(`{"d":"2050-01-01T00:00:00.5Z"}`)), "a date equals another one")
}

var _ = vzReg("vz_C25_accept", vz_C25_accept)

//vz:bound DATE of a constant in filter and simple texts: 20 constants; accepted exactly when it is a date, and an accepted one equals DATE of a member of the same text and not of another date
//vz:cover accepted rejected
func vz_C25_texts() {
	texts := []struct {
		s  string
		ok bool
	}{
		{"2020-02-29", true}, {"2019-02-29", false}, {"1900-02-29", false}, {"2000/02/29", true}, {"2018-04-31", false}, {"2018/12/31", true},
		{"2018.12", true}, {"2018-13", false}, {"2018", true}, {"2118", false}, {"201", false}, {"2018-1-1", false}, {"2018-06-15T23:59:59Z", true},
		{"2018-06-15T24:00:00Z", false}, {"2018-06-15T23:60:00Z", false}, {"2018-06-15T23:59:59.25+02:00", true}, {"2018-06-15T12:30:45", false},
		{"2018-06-31T12:30:45Z", false}, {"20180615", false}, {"2018-06-15 ", false},
	}
	t := texts[vzChoice(len(texts))]
	text := `DATE(d) = DATE("` + t.s + `")`
	var e Expression
	ok := false
	if vzChoice(2) == 0 {
		var errs string
		e, errs = vzFilterParse(text)
		ok = errs == ""
	} else {
		e, ok = vzSimpleRead(text)
	}
	vzAssert(ok == t.ok, "a text that is no date was accepted, or a date rejected: "+text)
	if !ok {
		vzCover("rejected")
		return
	}
	vzCover("accepted")
	vzAssert(vzSimpleMatch(e, vz25Doc([]byte(t.s))), "a date does not equal itself")
	vzAssert(!vzSimpleMatch(e, []byte(`{"d":"2050-01-01T00:00:00.5Z"}`)), "a date equals another one")
}

var _ = vzReg("vz_C25_texts", vz_C25_texts)
