package main

// The reference recogniser: a pushdown automaton for RFC 8259, written from
// the grammar.  Every text that an engine enumerates is also given to
// encoding/json, so the automaton is itself validated on each run.

const (
	sValue uint8 = iota // a value is required
	sArr0               // after '[': value or ']'
	sObj0               // after '{': key or '}'
	sKey                // after ',' in an object: key
	sColon              // after a key
	sAfter              // after a complete value
	sStr                // inside a string
	sEsc                // after '\'
	sU1                 // hex digits of \uXXXX
	sU2
	sU3
	sU4
	sMinus
	sZero
	sInt
	sDot
	sFrac
	sE
	sESign
	sExp
	sT1
	sT2
	sT3
	sF1
	sF2
	sF3
	sF4
	sN1
	sN2
	sN3
	sDead
)

type pda struct {
	st    uint8
	key   bool // the string being read is an object key
	stack []byte
}

func (p *pda) reset() { p.st, p.key, p.stack = sValue, false, p.stack[:0] }

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

func (p *pda) ended() {
	p.st = sAfter
}

func (p *pda) startValue(c byte) bool {
	switch {
	case c == '{':
		p.stack = append(p.stack, '{')
		p.st = sObj0
	case c == '[':
		p.stack = append(p.stack, '[')
		p.st = sArr0
	case c == '"':
		p.key = false
		p.st = sStr
	case c == '-':
		p.st = sMinus
	case c == '0':
		p.st = sZero
	case c >= '1' && c <= '9':
		p.st = sInt
	case c == 't':
		p.st = sT1
	case c == 'f':
		p.st = sF1
	case c == 'n':
		p.st = sN1
	default:
		p.st = sDead
		return false
	}
	return true
}

func (p *pda) after(c byte) bool {
	if isWS(c) {
		p.st = sAfter
		return true
	}
	if len(p.stack) == 0 {
		p.st = sDead
		return false
	}
	top := p.stack[len(p.stack)-1]
	switch {
	case c == ',' && top == '[':
		p.st = sValue
	case c == ',' && top == '{':
		p.st = sKey
	case c == ']' && top == '[', c == '}' && top == '{':
		p.stack = p.stack[:len(p.stack)-1]
		p.st = sAfter
	default:
		p.st = sDead
		return false
	}
	return true
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// step consumes one byte; false: the text read so far is no prefix of any JSON text.
func (p *pda) step(c byte) bool {
	lit := func(want byte, next uint8) bool {
		if c != want {
			p.st = sDead
			return false
		}
		p.st = next
		return true
	}
	switch p.st {
	case sValue:
		if isWS(c) {
			return true
		}
		return p.startValue(c)
	case sArr0:
		if isWS(c) {
			return true
		}
		if c == ']' {
			p.stack = p.stack[:len(p.stack)-1]
			p.st = sAfter
			return true
		}
		return p.startValue(c)
	case sObj0, sKey:
		if isWS(c) {
			return true
		}
		if c == '}' && p.st == sObj0 {
			p.stack = p.stack[:len(p.stack)-1]
			p.st = sAfter
			return true
		}
		if c == '"' {
			p.key = true
			p.st = sStr
			return true
		}
		p.st = sDead
		return false
	case sColon:
		if isWS(c) {
			return true
		}
		return lit(':', sValue)
	case sAfter:
		return p.after(c)
	case sStr:
		switch {
		case c == '"':
			if p.key {
				p.st = sColon
			} else {
				p.st = sAfter
			}
		case c == '\\':
			p.st = sEsc
		case c < 0x20:
			p.st = sDead
			return false
		}
		return true
	case sEsc:
		switch c {
		case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			p.st = sStr
		case 'u':
			p.st = sU1
		default:
			p.st = sDead
			return false
		}
		return true
	case sU1, sU2, sU3, sU4:
		if !isHex(c) {
			p.st = sDead
			return false
		}
		if p.st == sU4 {
			p.st = sStr
		} else {
			p.st++
		}
		return true
	case sMinus:
		if c == '0' {
			p.st = sZero
			return true
		}
		if isDigit(c) {
			p.st = sInt
			return true
		}
		p.st = sDead
		return false
	case sZero, sInt:
		if p.st == sInt && isDigit(c) {
			return true
		}
		if c == '.' {
			p.st = sDot
			return true
		}
		if c == 'e' || c == 'E' {
			p.st = sE
			return true
		}
		return p.after(c)
	case sDot:
		if isDigit(c) {
			p.st = sFrac
			return true
		}
		p.st = sDead
		return false
	case sFrac:
		if isDigit(c) {
			return true
		}
		if c == 'e' || c == 'E' {
			p.st = sE
			return true
		}
		return p.after(c)
	case sE:
		if c == '+' || c == '-' {
			p.st = sESign
			return true
		}
		fallthrough
	case sESign:
		if isDigit(c) {
			p.st = sExp
			return true
		}
		p.st = sDead
		return false
	case sExp:
		if isDigit(c) {
			return true
		}
		return p.after(c)
	case sT1:
		return lit('r', sT2)
	case sT2:
		return lit('u', sT3)
	case sT3:
		return lit('e', sAfter)
	case sF1:
		return lit('a', sF2)
	case sF2:
		return lit('l', sF3)
	case sF3:
		return lit('s', sF4)
	case sF4:
		return lit('e', sAfter)
	case sN1:
		return lit('u', sN2)
	case sN2:
		return lit('l', sN3)
	case sN3:
		return lit('l', sAfter)
	}
	return false
}

func (p *pda) accepting() bool {
	if len(p.stack) != 0 {
		return false
	}
	switch p.st {
	case sAfter, sZero, sInt, sFrac, sExp:
		return true
	}
	return false
}

func refValid(b []byte) bool {
	var buf [64]byte
	p := pda{stack: buf[:0]}
	for _, c := range b {
		if !p.step(c) {
			return false
		}
	}
	return p.accepting()
}

// refPrefix returns the length of the JSON value at the start of b (with
// leading whitespace, without trailing whitespace), or -1 when there is none.
// A number ends where the next byte cannot continue it.
func refPrefix(b []byte) int {
	var buf [64]byte
	p := pda{stack: buf[:0]}
	started := false
	for i, c := range b {
		if p.accepting() && started {
			switch p.st {
			case sAfter:
				return i
			default: // a number: the longest match
				q := pda{st: p.st}
				if !q.step(c) || q.st == sAfter {
					return i
				}
			}
		}
		if !isWS(c) {
			started = true
		}
		if !p.step(c) {
			return -1
		}
	}
	if p.accepting() {
		n := len(b)
		if p.st == sAfter {
			return n
		}
		return n
	}
	return -1
}

// completion appends the shortest text that completes the live prefix.
func (p *pda) completion(dst []byte) []byte {
	switch p.st {
	case sValue:
		dst = append(dst, '0')
	case sArr0, sObj0, sAfter, sZero, sInt, sFrac, sExp:
	case sKey:
		dst = append(dst, `"":0`...)
	case sColon:
		dst = append(dst, `:0`...)
	case sStr, sEsc, sU1, sU2, sU3, sU4:
		switch p.st {
		case sEsc:
			dst = append(dst, 'n')
		case sU1:
			dst = append(dst, '0', '0', '0', '0')
		case sU2:
			dst = append(dst, '0', '0', '0')
		case sU3:
			dst = append(dst, '0', '0')
		case sU4:
			dst = append(dst, '0')
		}
		dst = append(dst, '"')
		if p.key {
			dst = append(dst, `:0`...)
		}
	case sMinus, sDot, sE, sESign:
		dst = append(dst, '0')
	case sT1:
		dst = append(dst, "rue"...)
	case sT2:
		dst = append(dst, "ue"...)
	case sT3, sF4:
		dst = append(dst, 'e')
	case sF1:
		dst = append(dst, "alse"...)
	case sF2:
		dst = append(dst, "lse"...)
	case sF3:
		dst = append(dst, "se"...)
	case sN1:
		dst = append(dst, "ull"...)
	case sN2:
		dst = append(dst, "ll"...)
	case sN3:
		dst = append(dst, 'l')
	}
	for i := len(p.stack) - 1; i >= 0; i-- {
		if p.stack[i] == '{' {
			dst = append(dst, '}')
		} else {
			dst = append(dst, ']')
		}
	}
	return dst
}
