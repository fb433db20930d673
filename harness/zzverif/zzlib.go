package zzverif

import "sync"

// X_ErrorsIs replaces errors.Is (whose source needs reflection).
func X_ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if X_ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return err == target
}

// errAssign stores err in *target and tells whether its type allows that.
func errAssign(err error, target any) bool { return false }

// X_ErrorsAs replaces errors.As (whose source needs reflection).
func X_ErrorsAs(err error, target any) bool {
	for err != nil {
		if errAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if X_ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

type xWrapErr struct {
	msg string
	err error
}

func (e *xWrapErr) Error() string { return e.msg }
func (e *xWrapErr) Unwrap() error { return e.err }

type xStr struct{ s string }

func (e *xStr) Error() string { return e.s }

func xItoa(n int64) string {
	if n < 0 {
		return "-" + xUtoa(uint64(-n))
	}
	return xUtoa(uint64(n))
}

func xUtoa(n uint64) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return xUtoa(n/10) + string([]byte{byte('0' + n%10)})
}

func xVal(v any) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return x
	case []byte:
		return string(x)
	case error:
		return x.Error()
	case interface{ String() string }:
		return x.String()
	case int:
		return xItoa(int64(x))
	case int64:
		return xItoa(x)
	case int32:
		return xItoa(int64(x))
	case uint64:
		return xUtoa(x)
	case uint32:
		return xUtoa(uint64(x))
	case uint:
		return xUtoa(uint64(x))
	case uint8:
		return xUtoa(uint64(x))
	case bool:
		if x {
			return "true"
		}
		return "false"
	}
	return "%!v(?)"
}

// X_Sprintf supports the verbs s v d q w x X c t b o % with flags, width and precision.
func X_Sprintf(format string, args ...any) string {
	out := []byte(nil)
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, format[i])
			continue
		}
		i++
		minus, plus, zero, sharp := false, false, false, false
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == '0' || format[i] == ' ') {
			minus = minus || format[i] == '-'
			plus = plus || format[i] == '+'
			zero = zero || format[i] == '0'
			sharp = sharp || format[i] == '#'
			i++
		}
		width, prec := 0, -1
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			prec = 0
			i++
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		verb := format[i]
		if verb == '%' {
			out = append(out, '%')
			continue
		}
		if k >= len(args) {
			out = append(out, "%!"...)
			out = append(out, verb)
			out = append(out, "(MISSING)"...)
			continue
		}
		v := args[k]
		k++
		s := ""
		num := false
		n, neg, isNum := xNum(v)
		switch {
		case isNum && (verb == 'd' || verb == 'v' || verb == 'x' || verb == 'X' || verb == 'b' || verb == 'o'):
			num = true
			base := uint64(10)
			switch verb {
			case 'x', 'X':
				base = 16
			case 'b':
				base = 2
			case 'o':
				base = 8
			}
			s = xDigits(n, base, verb == 'X')
			if sharp && base == 16 {
				s = "0x" + s
			}
			if neg {
				s = "-" + s
			} else if plus {
				s = "+" + s
			}
		case isNum && verb == 'c':
			s = string(rune(n))
		case verb == 'q':
			s = "\"" + xVal(v) + "\""
		case verb == 'x' || verb == 'X':
			for _, c := range []byte(xVal(v)) {
				d := xDigits(uint64(c), 16, verb == 'X')
				if len(d) == 1 {
					d = "0" + d
				}
				s += d
			}
		default:
			s = xVal(v)
			if prec >= 0 && prec < len(s) {
				s = s[:prec]
			}
		}
		for len(s) < width {
			switch {
			case minus:
				s += " "
			case zero && num && s != "" && (s[0] == '-' || s[0] == '+'):
				w := width - len(s)
				z := ""
				for ; w > 0; w-- {
					z += "0"
				}
				s = s[:1] + z + s[1:]
			case zero && num:
				s = "0" + s
			default:
				s = " " + s
			}
		}
		out = append(out, s...)
	}
	return string(out)
}

func xNum(v any) (n uint64, neg, ok bool) {
	s := int64(0)
	switch x := v.(type) {
	case int:
		s = int64(x)
	case int64:
		s = x
	case int32:
		s = int64(x)
	case int16:
		s = int64(x)
	case int8:
		s = int64(x)
	case uint64:
		return x, false, true
	case uint32:
		return uint64(x), false, true
	case uint16:
		return uint64(x), false, true
	case uint8:
		return uint64(x), false, true
	case uint:
		return uint64(x), false, true
	default:
		return 0, false, false
	}
	if s < 0 {
		return uint64(-s), true, true
	}
	return uint64(s), false, true
}

func xDigits(n, base uint64, upper bool) string {
	letters := byte('a' - '0' - 10)
	if upper {
		letters = 'A' - '0' - 10
	}
	var d []byte
	for {
		c := byte(n % base)
		if base > 10 {
			d = append(d, '0'+c+letters*(c/10))
		} else {
			d = append(d, '0'+c)
		}
		n /= base
		if n == 0 {
			break
		}
	}
	for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
		d[i], d[j] = d[j], d[i]
	}
	return string(d)
}

// X_AppendUint replaces strconv.AppendUint, whose table of digit pairs is costly for unknown numbers.
func X_AppendUint(dst []byte, n uint64, base int) []byte {
	if base < 2 || base > 36 {
		panic("strconv: illegal AppendInt/FormatInt base")
	}
	if base > 16 {
		panic("harness: base above 16")
	}
	return append(dst, xDigits(n, uint64(base), false)...)
}

// X_AppendInt replaces strconv.AppendInt.
func X_AppendInt(dst []byte, n int64, base int) []byte {
	if n < 0 {
		return X_AppendUint(append(dst, '-'), uint64(-n), base)
	}
	return X_AppendUint(dst, uint64(n), base)
}

// X_FormatUint replaces strconv.FormatUint.
func X_FormatUint(n uint64, base int) string { return string(X_AppendUint(nil, n, base)) }

// X_FormatInt replaces strconv.FormatInt.
func X_FormatInt(n int64, base int) string { return string(X_AppendInt(nil, n, base)) }

// X_Itoa replaces strconv.Itoa.
func X_Itoa(n int) string { return string(X_AppendInt(nil, int64(n), 10)) }

// X_Sprintln replaces fmt.Sprintln.
func X_Sprintln(args ...any) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			s += " "
		}
		s += xVal(a)
	}
	return s + "\n"
}

// X_Fprintln replaces fmt.Fprintln.
func X_Fprintln(w xWriter, args ...any) (int, error) { return w.Write([]byte(X_Sprintln(args...))) }

// X_Appendf replaces fmt.Appendf.
func X_Appendf(b []byte, format string, args ...any) []byte {
	return append(b, X_Sprintf(format, args...)...)
}

func sliceLen(x any) int        { return 0 }
func sliceSwap(x any, i, j int) {}

// X_SortSlice replaces sort.Slice and sort.SliceStable.
func X_SortSlice(x any, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}

// sync.Map, whose source needs reflection: every operation is one atomic step.

type xEntry struct {
	k, v any
	dead bool
}

var xMaps = map[*sync.Map]*[]xEntry{}

func fence(m *sync.Map) {}

func xMapOf(m *sync.Map) *[]xEntry {
	fence(m)
	p := xMaps[m]
	if p == nil {
		p = new([]xEntry)
		xMaps[m] = p
	}
	return p
}

func xMapFind(m *sync.Map, k any) (*[]xEntry, *xEntry) {
	p := xMapOf(m)
	for i := range *p {
		if e := &(*p)[i]; !e.dead && e.k == k {
			return p, e
		}
	}
	return p, nil
}

func X_MapLoad(m *sync.Map, k any) (any, bool) {
	if _, e := xMapFind(m, k); e != nil {
		return e.v, true
	}
	return nil, false
}

func X_MapSwap(m *sync.Map, k, v any) (any, bool) {
	p, e := xMapFind(m, k)
	if e != nil {
		old := e.v
		e.v = v
		return old, true
	}
	*p = append(*p, xEntry{k, v, false})
	return nil, false
}

func X_MapStore(m *sync.Map, k, v any) { X_MapSwap(m, k, v) }

func X_MapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if _, e := xMapFind(m, k); e != nil {
		return e.v, true
	}
	X_MapSwap(m, k, v)
	return v, false
}

func X_MapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	if _, e := xMapFind(m, k); e != nil {
		e.dead = true
		return e.v, true
	}
	return nil, false
}

func X_MapDelete(m *sync.Map, k any) { X_MapLoadAndDelete(m, k) }

func X_MapCompareAndSwap(m *sync.Map, k, old, v any) bool {
	if _, e := xMapFind(m, k); e != nil && e.v == old {
		e.v = v
		return true
	}
	return false
}

func X_MapRange(m *sync.Map, f func(k, v any) bool) {
	p := xMapOf(m)
	for i := 0; i < len(*p); i++ {
		if e := (*p)[i]; !e.dead && !f(e.k, e.v) {
			return
		}
	}
}

// X_Errorf replaces fmt.Errorf.
func X_Errorf(format string, args ...any) error {
	s := X_Sprintf(format, args...)
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, a := range args {
				if e, ok := a.(error); ok {
					return &xWrapErr{s, e}
				}
			}
		}
	}
	return &xStr{s}
}

type xWriter interface{ Write(p []byte) (int, error) }

// X_Fprintf replaces fmt.Fprintf.
func X_Fprintf(w xWriter, format string, args ...any) (int, error) {
	return w.Write([]byte(X_Sprintf(format, args...)))
}

// X_Sprint replaces fmt.Sprint of strings.
func X_Sprint(args ...any) string {
	s := ""
	for _, a := range args {
		s += xVal(a)
	}
	return s
}

// X_Fprint replaces fmt.Fprint.
func X_Fprint(w xWriter, args ...any) (int, error) { return w.Write([]byte(X_Sprint(args...))) }

// condWait is Wait on a *sync.Mutex; condAdd and condBlock are its two halves.
func condWait(c *sync.Cond)  {}
func condAdd(c *sync.Cond)   {}
func condBlock(c *sync.Cond) {}

// X_CondWait replaces (*sync.Cond).Wait.
func X_CondWait(c *sync.Cond) {
	if _, ok := c.L.(*sync.Mutex); ok {
		condWait(c)
		return
	}
	condAdd(c)
	c.L.Unlock()
	condBlock(c)
	c.L.Lock()
}
