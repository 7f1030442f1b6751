package gojsonsm

import (
	"errors"
	"strconv"
)

// vzJSON decodes JSON text the way encoding/json does into interface{} values.
// The engine runs it in place of json.Unmarshal for text with symbolic bytes.
func vzJSON(data []byte) (v interface{}, err error) {
	d := &vzJSONDec{b: data}
	v, err = d.value()
	if err != nil {
		return nil, err
	}
	d.space()
	if d.p < len(d.b) {
		return nil, errVzJSON
	}
	return v, nil
}

// vzJSONList decodes into a []interface{}: only an array or null fits.
func vzJSONList(data []byte) ([]interface{}, error) {
	v, err := vzJSON(data)
	if err != nil {
		return nil, err
	}
	switch v := v.(type) {
	case nil:
		return nil, nil
	case []interface{}:
		return v, nil
	}
	return nil, errVzJSON
}

var errVzJSON = errors.New("json")

type vzJSONDec struct {
	b []byte
	p int
}

func (d *vzJSONDec) space() {
	for d.p < len(d.b) && vzOr(vzOr(d.b[d.p] == ' ', d.b[d.p] == '\t'), vzOr(d.b[d.p] == '\r', d.b[d.p] == '\n')) {
		d.p++
	}
}

func (d *vzJSONDec) peek() byte {
	if d.p < len(d.b) {
		return d.b[d.p]
	}
	return 0
}

func (d *vzJSONDec) word(w string, v interface{}) (interface{}, error) {
	for i := 0; i < len(w); i++ {
		if d.peek() != w[i] {
			return nil, errVzJSON
		}
		d.p++
	}
	return v, nil
}

func (d *vzJSONDec) value() (interface{}, error) {
	d.space()
	switch c := d.peek(); {
	case c == '{':
		d.p++
		m := map[string]interface{}{}
		for first := true; ; first = false {
			d.space()
			if first && d.peek() == '}' {
				d.p++
				return m, nil
			}
			k, err := d.str()
			if err != nil {
				return nil, err
			}
			d.space()
			if d.peek() != ':' {
				return nil, errVzJSON
			}
			d.p++
			v, err := d.value()
			if err != nil {
				return nil, err
			}
			m[k] = v
			d.space()
			switch d.peek() {
			case ',':
				d.p++
			case '}':
				d.p++
				return m, nil
			default:
				return nil, errVzJSON
			}
		}
	case c == '[':
		d.p++
		a := []interface{}{}
		for first := true; ; first = false {
			d.space()
			if first && d.peek() == ']' {
				d.p++
				return a, nil
			}
			v, err := d.value()
			if err != nil {
				return nil, err
			}
			a = append(a, v)
			d.space()
			switch d.peek() {
			case ',':
				d.p++
			case ']':
				d.p++
				return a, nil
			default:
				return nil, errVzJSON
			}
		}
	case c == '"':
		return d.str()
	case c == 'n':
		return d.word("null", nil)
	case c == 't':
		return d.word("true", true)
	case c == 'f':
		return d.word("false", false)
	case vzOr(c == '-', vzAnd(c >= '0', c <= '9')):
		return d.num()
	}
	return nil, errVzJSON
}

func (d *vzJSONDec) digits() int {
	n := 0
	for d.p < len(d.b) && vzAnd(d.b[d.p] >= '0', d.b[d.p] <= '9') {
		d.p++
		n++
	}
	return n
}

func (d *vzJSONDec) num() (interface{}, error) {
	s := d.p
	if d.peek() == '-' {
		d.p++
	}
	if d.peek() == '0' {
		d.p++
	} else if d.digits() == 0 {
		return nil, errVzJSON
	}
	if d.peek() == '.' {
		d.p++
		if d.digits() == 0 {
			return nil, errVzJSON
		}
	}
	if vzOr(d.peek() == 'e', d.peek() == 'E') {
		d.p++
		if vzOr(d.peek() == '+', d.peek() == '-') {
			d.p++
		}
		if d.digits() == 0 {
			return nil, errVzJSON
		}
	}
	if d.p == s+1 {
		return float64(d.b[s] - '0'), nil
	}
	f, err := strconv.ParseFloat(string(d.b[s:d.p]), 64)
	if err != nil {
		return nil, errVzJSON
	}
	return f, nil
}

func (d *vzJSONDec) str() (string, error) {
	if d.peek() != '"' {
		return "", errVzJSON
	}
	d.p++
	s := d.p
	esc := false
	for {
		if d.p >= len(d.b) {
			return "", errVzJSON
		}
		c := d.b[d.p]
		if c == '"' {
			break
		}
		if c < 0x20 {
			return "", errVzJSON
		}
		d.p++
		if c == '\\' {
			esc = true
			switch d.peek() {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				d.p++
			case 'u':
				d.p++
				for i := 0; i < 4; i++ {
					h := d.peek()
					if !vzOr(vzAnd(h >= '0', h <= '9'), vzOr(vzAnd(h >= 'a', h <= 'f'), vzAnd(h >= 'A', h <= 'F'))) {
						return "", errVzJSON
					}
					d.p++
				}
			default:
				return "", errVzJSON
			}
		} else if c >= 0x80 {
			esc = true
		}
	}
	raw := d.b[s:d.p]
	d.p++
	if !esc {
		return string(raw), nil
	}
	return vzJSONText(raw), nil
}

func vzJSONHex(b []byte) rune {
	r := rune(0)
	for _, h := range b {
		switch {
		case h <= '9':
			h -= '0'
		case h <= 'F':
			h -= 'A' - 10
		default:
			h -= 'a' - 10
		}
		r = r<<4 | rune(h)
	}
	return r
}

func vzJSONText(raw []byte) string {
	out := ""
	for i := 0; i < len(raw); {
		if raw[i] != '\\' {
			j := i
			for j < len(raw) && raw[j] != '\\' {
				j++
			}
			for _, r := range string(raw[i:j]) {
				out += string(r)
			}
			i = j
			continue
		}
		switch raw[i+1] {
		case 'b':
			out += "\b"
		case 'f':
			out += "\f"
		case 'n':
			out += "\n"
		case 'r':
			out += "\r"
		case 't':
			out += "\t"
		case 'u':
			r := vzJSONHex(raw[i+2 : i+6])
			i += 6
			if r >= 0xD800 && r < 0xE000 {
				if r < 0xDC00 && i+6 <= len(raw) && raw[i] == '\\' && raw[i+1] == 'u' {
					if q := vzJSONHex(raw[i+2 : i+6]); q >= 0xDC00 && q < 0xE000 {
						out += string(0x10000 + (r-0xD800)<<10 + (q - 0xDC00))
						i += 6
						continue
					}
				}
				r = 0xFFFD
			}
			out += string(r)
			continue
		default:
			out += string(raw[i+1 : i+2])
		}
		i += 2
	}
	return out
}
