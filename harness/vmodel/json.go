package vmodel

import (
	"encoding"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/hound-search/hound/verifh/verifrt"
)

// Model of encoding/json over the reflection primitives of the engine.

type jEnc struct {
	w      io.Writer
	noHTML bool
}

type jDec struct {
	r      io.Reader
	buf    []byte
	eof    bool
	err    error
	strict bool
}

var (
	jEncs = map[*json.Encoder]*jEnc{}
	jDecs = map[*json.Decoder]*jDec{}
)

//gosym:model encoding/json.NewEncoder
func jNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	jEncs[e] = &jEnc{w: w}
	return e
}

//gosym:model (*encoding/json.Encoder).SetEscapeHTML
func jSetEscape(e *json.Encoder, on bool) { jEncs[e].noHTML = !on }

//gosym:model (*encoding/json.Encoder).Encode
func jEncode(e *json.Encoder, v interface{}) error {
	s := jEncs[e]
	b, err := jMarshal2(v, !s.noHTML)
	if err != nil {
		return err
	}
	_, err = s.w.Write(append(b, '\n'))
	return err
}

//gosym:model encoding/json.NewDecoder
func jNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	jDecs[d] = &jDec{r: r}
	return d
}

//gosym:model (*encoding/json.Decoder).DisallowUnknownFields
func jStrict(d *json.Decoder) { jDecs[d].strict = true }

//gosym:model (*encoding/json.Decoder).Decode
func jDecode(d *json.Decoder, v interface{}) error {
	s := jDecs[d]
	if s.err != nil {
		return s.err
	}
	if !s.eof {
		b, err := io.ReadAll(s.r)
		s.buf = append(s.buf, b...)
		s.eof = true
		if err != nil {
			s.err = err
			return err
		}
	}
	p := &jp{b: s.buf, strict: s.strict}
	p.ws()
	if p.i >= len(p.b) {
		return io.EOF
	}
	st := p.i
	if !p.skip(0) {
		if p.i >= len(p.b) {
			s.err = io.ErrUnexpectedEOF
		} else {
			s.err = jSyntax
		}
		return s.err
	}
	val := s.buf[st:p.i]
	s.buf = s.buf[p.i:]
	return jUnmarshalValid(val, v, s.strict)
}

//gosym:model encoding/json.Valid
func jValid(b []byte) bool {
	p := &jp{b: b}
	p.ws()
	if !p.skip(0) {
		return false
	}
	p.ws()
	return p.i == len(b)
}

//gosym:model encoding/json.Unmarshal
func jUnmarshal(b []byte, v interface{}) error {
	p := &jp{b: b}
	p.ws()
	st := p.i
	if !p.skip(0) {
		if p.i >= len(b) {
			return errors.New("unexpected end of JSON input")
		}
		return jSyntax
	}
	en := p.i
	p.ws()
	if p.i != len(b) {
		return jSyntax
	}
	return jUnmarshalValid(b[st:en], v, false)
}

var jSyntax = errors.New("invalid character in JSON input")

func jUnmarshalValid(b []byte, v interface{}, strict bool) error {
	if !verifrt.RIsPtr(v) {
		return errors.New("json: Unmarshal(non-pointer)")
	}
	p := &jp{b: b, strict: strict}
	p.value(v)
	return p.err
}

// ---- parser ----

type jp struct {
	b      []byte
	i      int
	err    error
	strict bool
}

func (p *jp) fail(msg string) {
	if p.err == nil {
		p.err = errors.New("json: " + msg)
	}
}

func (p *jp) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\n' || p.b[p.i] == '\r') {
		p.i++
	}
}

// skip scans one value and reports whether it is well-formed.
func (p *jp) skip(depth int) bool {
	p.ws()
	if p.i >= len(p.b) {
		return false
	}
	switch c := p.b[p.i]; c {
	case '{':
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			return true
		}
		for {
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != '"' || !p.skipStr() {
				return false
			}
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != ':' {
				return false
			}
			p.i++
			if !p.skip(depth + 1) {
				return false
			}
			p.ws()
			if p.i >= len(p.b) {
				return false
			}
			if p.b[p.i] == '}' {
				p.i++
				return true
			}
			if p.b[p.i] != ',' {
				return false
			}
			p.i++
		}
	case '[':
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			return true
		}
		for {
			if !p.skip(depth + 1) {
				return false
			}
			p.ws()
			if p.i >= len(p.b) {
				return false
			}
			if p.b[p.i] == ']' {
				p.i++
				return true
			}
			if p.b[p.i] != ',' {
				return false
			}
			p.i++
		}
	case '"':
		return p.skipStr()
	case 't':
		return p.lit("true")
	case 'f':
		return p.lit("false")
	case 'n':
		return p.lit("null")
	}
	return p.skipNum()
}

func (p *jp) lit(s string) bool {
	for k := 0; k < len(s); k++ {
		if p.i >= len(p.b) || p.b[p.i] != s[k] {
			return false
		}
		p.i++
	}
	return true
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func (p *jp) skipStr() bool {
	p.i++
	for p.i < len(p.b) {
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return true
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return false
			}
			switch p.b[p.i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				p.i++
			case 'u':
				p.i++
				for k := 0; k < 4; k++ {
					if p.i >= len(p.b) || !isHex(p.b[p.i]) {
						return false
					}
					p.i++
				}
			default:
				return false
			}
		case c < 0x20:
			return false
		default:
			p.i++
		}
	}
	return false
}

func (p *jp) digits() bool {
	st := p.i
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
	}
	return p.i > st
}

func (p *jp) skipNum() bool {
	if p.i < len(p.b) && p.b[p.i] == '-' {
		p.i++
	}
	if p.i < len(p.b) && p.b[p.i] == '0' {
		p.i++
	} else if !p.digits() {
		return false
	}
	if p.i < len(p.b) && p.b[p.i] == '.' {
		p.i++
		if !p.digits() {
			return false
		}
	}
	if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
		p.i++
		if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
			p.i++
		}
		if !p.digits() {
			return false
		}
	}
	return true
}

func hexv(c byte) rune {
	switch {
	case c <= '9':
		return rune(c - '0')
	case c >= 'a':
		return rune(c-'a') + 10
	}
	return rune(c-'A') + 10
}

// str parses the (well-formed) string literal at i.
func (p *jp) str() string {
	p.i++
	var r []byte
	for {
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return string(r)
		case c == '\\':
			p.i++
			c = p.b[p.i]
			p.i++
			switch c {
			case 'b':
				r = append(r, '\b')
			case 'f':
				r = append(r, '\f')
			case 'n':
				r = append(r, '\n')
			case 'r':
				r = append(r, '\r')
			case 't':
				r = append(r, '\t')
			case 'u':
				x := p.u4()
				if x >= 0xd800 && x < 0xe000 {
					if x < 0xdc00 && p.i+1 < len(p.b) && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
						save := p.i
						p.i += 2
						y := p.u4()
						if y >= 0xdc00 && y < 0xe000 {
							x = (x-0xd800)<<10 | (y - 0xdc00) + 0x10000
						} else {
							p.i = save
							x = utf8.RuneError
						}
					} else {
						x = utf8.RuneError
					}
				}
				r = append(r, string(x)...)
			default:
				r = append(r, c)
			}
		case c < utf8.RuneSelf:
			r = append(r, c)
			p.i++
		default:
			ru, n := utf8.DecodeRune(p.b[p.i:])
			if ru == utf8.RuneError && n <= 1 {
				r = append(r, "\ufffd"...)
			} else {
				r = append(r, p.b[p.i:p.i+n]...)
			}
			p.i += n
		}
	}
}

func (p *jp) u4() rune {
	var x rune
	for k := 0; k < 4; k++ {
		x = x<<4 | hexv(p.b[p.i])
		p.i++
	}
	return x
}

func (p *jp) raw() []byte {
	p.ws()
	st := p.i
	p.skip(0)
	return p.b[st:p.i]
}

// indirect follows (and allocates) pointers. It stops at an Unmarshaler.
func (p *jp) indirect(ref interface{}, null bool) (interface{}, json.Unmarshaler, encoding.TextUnmarshaler) {
	for {
		k := verifrt.RKind(ref)
		if k == "ptr" {
			if null {
				return ref, nil, nil
			}
			if verifrt.RIsNil(ref) {
				ref = verifrt.RPtrAlloc(ref)
			} else {
				ref = verifrt.RPtrElem(ref)
			}
			if u, ok := ref.(json.Unmarshaler); ok {
				return ref, u, nil
			}
			if u, ok := ref.(encoding.TextUnmarshaler); ok && !null {
				return ref, nil, u
			}
			continue
		}
		if k == "iface" && !verifrt.RIsNil(ref) && !null {
			in := verifrt.RGet(ref)
			if verifrt.RIsPtr(in) {
				ref = in
				continue
			}
		}
		if u, ok := ref.(json.Unmarshaler); ok {
			return ref, u, nil
		}
		if u, ok := ref.(encoding.TextUnmarshaler); ok && !null {
			return ref, nil, u
		}
		return ref, nil, nil
	}
}

func (p *jp) value(ref interface{}) {
	p.ws()
	null := p.b[p.i] == 'n'
	ref, um, tu := p.indirect(ref, null)
	if um != nil {
		if err := um.UnmarshalJSON(p.raw()); err != nil && p.err == nil {
			p.err = err
		}
		return
	}
	if tu != nil {
		if p.b[p.i] != '"' {
			p.raw()
			p.fail("cannot unmarshal into text")
			return
		}
		if err := tu.UnmarshalText([]byte(p.str())); err != nil && p.err == nil {
			p.err = err
		}
		return
	}
	kind := verifrt.RKind(ref)
	switch p.b[p.i] {
	case 'n':
		p.lit("null")
		switch kind {
		case "ptr", "map", "slice", "iface":
			verifrt.RSetZero(ref)
		}
	case 't', 'f':
		v := p.b[p.i] == 't'
		p.raw()
		switch kind {
		case "bool":
			verifrt.RSetBool(ref, v)
		case "iface":
			verifrt.RSetIface(ref, v)
		default:
			p.fail("cannot unmarshal bool into Go value of kind " + kind)
		}
	case '"':
		s := p.str()
		switch kind {
		case "string":
			verifrt.RSetStr(ref, s)
		case "iface":
			verifrt.RSetIface(ref, s)
		case "slice":
			if verifrt.RElemKind(ref) != "byte" {
				p.fail("cannot unmarshal string into Go value of kind " + kind)
				return
			}
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				p.err = err
				return
			}
			verifrt.RSetBytes(ref, b)
		default:
			p.fail("cannot unmarshal string into Go value of kind " + kind)
		}
	case '[':
		p.array(ref, kind)
	case '{':
		p.object(ref, kind)
	default:
		num := string(p.raw())
		switch kind {
		case "int", "uint":
			n, err := strconv.ParseInt(num, 10, 64)
			if err != nil || !verifrt.RSetInt(ref, n) {
				p.fail("cannot unmarshal number " + num)
			}
		case "float":
			f, err := strconv.ParseFloat(num, 64)
			if err != nil {
				p.fail("cannot unmarshal number " + num)
				return
			}
			verifrt.RSetFloat(ref, f)
		case "iface":
			f, err := strconv.ParseFloat(num, 64)
			if err != nil {
				p.fail("cannot unmarshal number " + num)
				return
			}
			verifrt.RSetIface(ref, f)
		default:
			p.fail("cannot unmarshal number into Go value of kind " + kind)
		}
	}
}

func (p *jp) iface() interface{} {
	var v interface{}
	p.value(&v)
	return v
}

func (p *jp) array(ref interface{}, kind string) {
	switch kind {
	case "iface":
		r := []interface{}{}
		p.i++
		p.ws()
		for p.b[p.i] != ']' {
			r = append(r, p.iface())
			p.ws()
			if p.b[p.i] == ',' {
				p.i++
			}
			p.ws()
		}
		p.i++
		verifrt.RSetIface(ref, r)
		return
	case "slice":
		// count first
		q := &jp{b: p.b, i: p.i + 1}
		n := 0
		q.ws()
		for q.b[q.i] != ']' {
			q.skip(0)
			n++
			q.ws()
			if q.b[q.i] == ',' {
				q.i++
			}
			q.ws()
		}
		verifrt.RSetLen(ref, n)
		p.i++
		p.ws()
		for k := 0; p.b[p.i] != ']'; k++ {
			p.value(verifrt.RIndex(ref, k))
			p.ws()
			if p.b[p.i] == ',' {
				p.i++
			}
			p.ws()
		}
		p.i++
		return
	}
	p.raw()
	p.fail("cannot unmarshal array into Go value of kind " + kind)
}

func (p *jp) object(ref interface{}, kind string) {
	switch kind {
	case "iface", "map", "struct":
	default:
		p.raw()
		p.fail("cannot unmarshal object into Go value of kind " + kind)
		return
	}
	var im map[string]interface{}
	if kind == "iface" {
		im = map[string]interface{}{}
	}
	if kind == "map" && verifrt.RIsNil(ref) {
		verifrt.RMapMake(ref)
	}
	var fields []jfield
	if kind == "struct" {
		fields = jfields(ref)
	}
	p.i++
	p.ws()
	for p.b[p.i] != '}' {
		key := p.str()
		p.ws()
		p.i++ // :
		p.ws()
		switch kind {
		case "iface":
			im[key] = p.iface()
		case "map":
			el := verifrt.RMapNewElem(ref)
			p.value(el)
			k := verifrt.RMapNewKey(ref)
			if verifrt.RKind(k) != "string" {
				verifrt.Unsupported("json: map key kind")
			}
			verifrt.RSetStr(k, key)
			verifrt.RMapSet(ref, k, el)
		case "struct":
			var f *jfield
			for i := range fields {
				if fields[i].name == key {
					f = &fields[i]
					break
				}
			}
			if f == nil {
				for i := range fields {
					if strings.EqualFold(fields[i].name, key) {
						f = &fields[i]
						break
					}
				}
			}
			if f == nil {
				p.raw()
				if p.strict {
					p.fail("unknown field " + key)
				}
			} else {
				if f.quoted {
					verifrt.Unsupported("json: string option")
				}
				p.value(f.ref)
			}
		}
		p.ws()
		if p.b[p.i] == ',' {
			p.i++
		}
		p.ws()
	}
	p.i++
	if kind == "iface" {
		verifrt.RSetIface(ref, im)
	}
}

// ---- fields ----

type jfield struct {
	name      string
	ref       interface{}
	omitEmpty bool
	quoted    bool
}

func jtag(tag string) (string, bool) {
	i := strings.Index(tag, `json:"`)
	if i < 0 {
		return "", false
	}
	tag = tag[i+6:]
	j := strings.IndexByte(tag, '"')
	if j < 0 {
		return "", false
	}
	return tag[:j], true
}

func jfields(ref interface{}) []jfield {
	var r []jfield
	for i := 0; i < verifrt.RNumField(ref); i++ {
		tag, has := jtag(verifrt.RFieldTag(ref, i))
		if tag == "-" {
			continue
		}
		name, opts := tag, ""
		if k := strings.IndexByte(tag, ','); k >= 0 {
			name, opts = tag[:k], tag[k:]
		}
		fr := verifrt.RField(ref, i)
		if verifrt.REmbedded(ref, i) && name == "" && (verifrt.RKind(fr) == "struct" || verifrt.RKind(fr) == "ptr" && verifrt.RElemKind(fr) == "struct") {
			sub := fr
			if verifrt.RKind(fr) == "ptr" {
				if verifrt.RIsNil(fr) {
					continue
				}
				sub = verifrt.RPtrElem(fr)
			}
			for _, f := range jfields(sub) {
				dup := false
				for _, g := range r {
					if g.name == f.name {
						dup = true
					}
				}
				if !dup {
					r = append(r, f)
				}
			}
			continue
		}
		if !verifrt.RExported(ref, i) {
			continue
		}
		if !has || name == "" {
			name = verifrt.RFieldName(ref, i)
		}
		f := jfield{name, fr, strings.Contains(opts, ",omitempty"), strings.Contains(opts, ",string")}
		replaced := false
		for k := range r {
			if r[k].name == name {
				r[k] = f
				replaced = true
			}
		}
		if !replaced {
			r = append(r, f)
		}
	}
	return r
}

// ---- encoder ----

//gosym:model encoding/json.Marshal
func jMarshal(v interface{}) ([]byte, error) { return jMarshal2(v, true) }

//gosym:model encoding/json.MarshalIndent
func jMarshalIndent(v interface{}, prefix, indent string) ([]byte, error) { return jMarshal2(v, true) }

func jMarshal2(v interface{}, html bool) ([]byte, error) {
	e := &je{html: html}
	if v == nil {
		return []byte("null"), nil
	}
	e.val(verifrt.RNew(v), false)
	if e.err != nil {
		return nil, e.err
	}
	return e.b, nil
}

type je struct {
	b    []byte
	html bool
	err  error
}

func (e *je) s(x string) { e.b = append(e.b, x...) }

func (e *je) val(ref interface{}, addr bool) {
	if e.err != nil {
		return
	}
	k := verifrt.RKind(ref)
	if k == "iface" {
		if verifrt.RIsNil(ref) {
			e.s("null")
			return
		}
		e.val(verifrt.RNew(verifrt.RGet(ref)), false)
		return
	}
	isNilPtr := k == "ptr" && verifrt.RIsNil(ref)
	if m, ok := verifrt.RGet(ref).(json.Marshaler); ok {
		if isNilPtr {
			e.s("null")
			return
		}
		e.custom(m)
		return
	}
	if addr {
		if m, ok := ref.(json.Marshaler); ok {
			e.custom(m)
			return
		}
	}
	if m, ok := verifrt.RGet(ref).(encoding.TextMarshaler); ok && !isNilPtr {
		b, err := m.MarshalText()
		if err != nil {
			e.err = err
			return
		}
		e.str(string(b))
		return
	}
	switch k {
	case "string":
		e.str(verifrt.RStr(ref))
	case "bool":
		if verifrt.RBool(ref) {
			e.s("true")
		} else {
			e.s("false")
		}
	case "int":
		e.s(itoa(verifrt.RInt(ref)))
	case "uint":
		e.s(strconv.FormatUint(uint64(verifrt.RInt(ref)), 10))
	case "float":
		e.s(verifrt.Format("%v", verifrt.RFloat(ref)))
	case "ptr":
		if isNilPtr {
			e.s("null")
			return
		}
		e.val(verifrt.RPtrElem(ref), true)
	case "slice", "array":
		if k == "slice" && verifrt.RIsNil(ref) {
			e.s("null")
			return
		}
		if k == "slice" && verifrt.RElemKind(ref) == "byte" {
			e.s(`"` + base64.StdEncoding.EncodeToString(verifrt.RBytes(ref)) + `"`)
			return
		}
		e.s("[")
		for i := 0; i < verifrt.RLen(ref); i++ {
			if i > 0 {
				e.s(",")
			}
			e.val(verifrt.RIndex(ref, i), addr || k == "slice")
		}
		e.s("]")
	case "map":
		if verifrt.RIsNil(ref) {
			e.s("null")
			return
		}
		keys := verifrt.RMapKeys(ref)
		for i := 1; i < len(keys); i++ {
			for j := i; j > 0 && jkey(keys[j]) < jkey(keys[j-1]); j-- {
				keys[j], keys[j-1] = keys[j-1], keys[j]
			}
		}
		e.s("{")
		for i, kr := range keys {
			if i > 0 {
				e.s(",")
			}
			e.str(jkey(kr))
			e.s(":")
			e.val(verifrt.RMapGet(ref, kr), false)
		}
		e.s("}")
	case "struct":
		e.s("{")
		first := true
		for _, f := range jfields(ref) {
			if f.omitEmpty && jempty(f.ref) {
				continue
			}
			if !first {
				e.s(",")
			}
			first = false
			e.str(f.name)
			e.s(":")
			e.val(f.ref, addr)
		}
		e.s("}")
	default:
		e.err = errors.New("json: unsupported type")
	}
}

func jkey(r interface{}) string {
	switch verifrt.RKind(r) {
	case "string":
		return verifrt.RStr(r)
	case "int", "uint":
		return itoa(verifrt.RInt(r))
	}
	verifrt.Unsupported("json: map key kind")
	return ""
}

func jempty(r interface{}) bool {
	switch verifrt.RKind(r) {
	case "string":
		return verifrt.RStr(r) == ""
	case "bool":
		return !verifrt.RBool(r)
	case "int", "uint":
		return verifrt.RInt(r) == 0
	case "slice", "map", "array":
		return verifrt.RLen(r) == 0
	case "ptr", "iface":
		return verifrt.RIsNil(r)
	}
	return false
}

func (e *je) custom(m json.Marshaler) {
	b, err := m.MarshalJSON()
	if err != nil {
		e.err = err
		return
	}
	if !jValid(b) {
		e.err = errors.New("json: error calling MarshalJSON")
		return
	}
	// compact
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if !in && (c == ' ' || c == '\n' || c == '\t' || c == '\r') {
			continue
		}
		if c == '"' {
			in = !in
		}
		e.b = append(e.b, c)
		if in && c == '\\' && i+1 < len(b) {
			i++
			e.b = append(e.b, b[i])
		}
	}
}

const hexd = "0123456789abcdef"

func (e *je) str(s string) {
	e.b = append(e.b, '"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			switch {
			case c == '"' || c == '\\':
				e.b = append(e.b, '\\', c)
			case c == '\n':
				e.s(`\n`)
			case c == '\r':
				e.s(`\r`)
			case c == '\t':
				e.s(`\t`)
			case c == '\b':
				e.s(`\b`)
			case c == '\f':
				e.s(`\f`)
			case c < 0x20 || e.html && (c == '<' || c == '>' || c == '&'):
				e.s(`\u00`)
				e.b = append(e.b, hexd[c>>4], hexd[c&15])
			default:
				e.b = append(e.b, c)
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			e.s(`\ufffd`)
		} else if r == 0x2028 || r == 0x2029 {
			e.s(`\u202`)
			e.b = append(e.b, hexd[r&15])
		} else {
			e.s(s[i : i+n])
		}
		i += n
	}
	e.b = append(e.b, '"')
}
