package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// jnode is an abstract JSON document whose leaves may be symbolic
type jnode struct {
	kind  byte // o a s n f b 0 B(base64 bytes) T(time)
	keys  []Value
	kids  []*jnode
	s     Value // string
	t     *Term // number or bool
	uns   bool
	num   string // literal text for concrete numbers
	bytes []Value
}

type jfield struct {
	name      string
	index     []int
	omitempty bool
	quoted    bool
	typ       types.Type
	tagged    bool
	omitzero  bool
	ptrs      []types.Type // element type of each step that goes through an embedded pointer
}

func (m *Machine) jsonFields(st *types.Struct) []jfield {
	var out []jfield
	var walk func(st *types.Struct, idx []int, ptrs []types.Type, depth int)
	walk = func(st *types.Struct, idx []int, ptrs []types.Type, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			ix := append(append([]int{}, idx...), i)
			ft := f.Type()
			if f.Embedded() && name == "" {
				et := ft
				if p, ok := et.Underlying().(*types.Pointer); ok {
					et = p.Elem()
				}
				if es, ok := et.Underlying().(*types.Struct); ok {
					var pt types.Type
					if _, isP := ft.Underlying().(*types.Pointer); isP {
						if depth > 3 {
							m.unsupported("json embedded pointer cycle")
						}
						pt = et
					}
					walk(es, ix, append(append([]types.Type{}, ptrs...), pt), depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			jf := jfield{name: name, index: ix, typ: ft, tagged: name != "", ptrs: ptrs}
			if name == "" {
				jf.name = f.Name()
			}
			for _, o := range strings.Split(opts, ",") {
				switch o {
				case "omitempty":
					jf.omitempty = true
				case "string":
					jf.quoted = true
				case "omitzero":
					jf.omitzero = true
				}
			}
			out = append(out, jf)
		}
	}
	walk(st, nil, nil, 0)
	// shallower fields win
	best := map[string]int{}
	for i, f := range out {
		if j, ok := best[f.name]; !ok || len(f.index) < len(out[j].index) {
			best[f.name] = i
		}
	}
	var res []jfield
	for i, f := range out {
		if best[f.name] == i {
			res = append(res, f)
		}
	}
	return res
}

type jsonErr struct{ v Value }

func (m *Machine) jfail(msg string) { panic(jsonErr{m.mkError(msg)}) }

func (m *Machine) jempty(v Value) bool {
	switch x := v.(type) {
	case *Term:
		if x.w == wBool {
			return !m.branch(x)
		}
		if x.w == wFP {
			return m.branch(m.c.Bin(OpFEq, x, m.c.F(0)))
		}
		return m.branch(m.c.Eq(x, m.c.BV(0, x.w)))
	case string:
		return x == ""
	case *SStr:
		if x.opaque {
			return false
		}
		return m.branch(m.c.Eq(x.n, m.c.BV(0, 64)))
	case []Value:
		return len(x) == 0
	case arrayV:
		return len(x) == 0
	case *MapV:
		return x == nil || x.n == 0
	case structV:
		return false
	}
	return isNilValue(v)
}

// hasPtrMethod finds a method on the type or on a pointer to it
func (m *Machine) jmarshaler(t types.Type, name string) bool {
	return m.hasMethod(t, name)
}

func (m *Machine) blobNode(b []Value) (*jnode, bool) {
	if len(b) == 1 {
		if n, ok := b[0].(native); ok && n.kind == "jsonblob" {
			return n.v.(*jnode), true
		}
	}
	return nil, false
}

func (m *Machine) jencode(fr *frame, v Value, t types.Type, depth int) *jnode {
	if depth > 40 {
		m.unsupported("json depth")
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		x, ok := v.(iface)
		if !ok {
			m.badValue(v, "json interface")
		}
		if x.t == nil {
			return &jnode{kind: '0'}
		}
		return m.jencode(fr, x.v, x.t, depth+1)
	}
	if isNamed(t, "time", "Time") {
		return &jnode{kind: 'T', s: copyVal(v)}
	}
	if isNamed(t, "encoding/json", "RawMessage") {
		b := m.sl(v)
		if b == nil {
			return &jnode{kind: '0'}
		}
		n, err := m.jparse(b)
		if err != nil {
			m.jfail(err.Error())
		}
		return n
	}
	if isNamed(t, "encoding/json", "Number") {
		s := m.concString(v)
		if s == "" {
			s = "0"
		}
		return &jnode{kind: 'f', num: s}
	}
	if p, ok := v.(*Value); ok && p == nil {
		return &jnode{kind: '0'}
	}
	if m.hasMethod(t, "MarshalJSON") {
		r, _ := m.callMethod(fr, iface{t, v}, "MarshalJSON")
		tp := r.(tuple)
		if e := tp[1].(iface); e.t != nil {
			panic(jsonErr{e})
		}
		n, err := m.jparse(m.sl(tp[0]))
		if err != nil {
			m.jfail(err.Error())
		}
		return n
	}
	if m.hasMethod(t, "MarshalText") {
		r, _ := m.callMethod(fr, iface{t, v}, "MarshalText")
		tp := r.(tuple)
		if e := tp[1].(iface); e.t != nil {
			panic(jsonErr{e})
		}
		return &jnode{kind: 's', s: m.bytesToString(m.sl(tp[0]))}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return m.jencode(fr, m.load(v.(*Value)), u.Elem(), depth+1)
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &jnode{kind: 'b', t: m.argT(v)}
		case u.Info()&types.IsString != 0:
			if s, ok := v.(*SStr); ok && !s.opaque {
				if !m.asciiOnly(s) {
					m.unsupported("non ASCII symbolic string in JSON")
				}
			}
			if s, ok := v.(string); ok {
				v = strings.ToValidUTF8(s, "\ufffd")
			}
			return &jnode{kind: 's', s: v}
		case u.Info()&types.IsFloat != 0:
			tt := m.argT(v)
			if tt.IsConst() {
				f := math.Float64frombits(tt.val)
				if math.IsNaN(f) || math.IsInf(f, 0) {
					m.jfail("json: unsupported value")
				}
				b, _ := json.Marshal(f)
				return &jnode{kind: 'f', num: string(b), t: tt}
			}
			return &jnode{kind: 'f', t: tt}
		case u.Info()&types.IsInteger != 0:
			tt := m.argT(v)
			return &jnode{kind: 'n', t: tt, uns: u.Info()&types.IsUnsigned != 0}
		}
	case *types.Struct:
		s, ok := v.(structV)
		if !ok {
			m.badValue(v, "json struct")
		}
		n := &jnode{kind: 'o'}
		for _, f := range m.jsonFields(u) {
			var fv Value = s
			for q, i := range f.index {
				fv = fv.(structV)[i]
				if q < len(f.ptrs) && f.ptrs[q] != nil {
					pp, _ := fv.(*Value)
					if pp == nil {
						fv = nil
						break
					}
					fv = m.load(pp)
				}
			}
			if fv == nil && len(f.ptrs) > 0 {
				continue
			}
			if f.omitempty && m.jempty(fv) {
				continue
			}
			if f.omitzero {
				m.unsupported("json omitzero")
			}
			k := m.jencode(fr, fv, f.typ, depth+1)
			if f.quoted {
				k = &jnode{kind: 's', s: m.jtext(k)}
			}
			n.keys = append(n.keys, f.name)
			n.kids = append(n.kids, k)
		}
		return n
	case *types.Map:
		mp, _ := v.(*MapV)
		if mp == nil {
			return &jnode{kind: '0'}
		}
		n := &jnode{kind: 'o'}
		allc := true
		for _, e := range mp.entries {
			if !e.live {
				continue
			}
			k := e.k
			if kt, ok := k.(*Term); ok {
				if !kt.IsConst() {
					m.unsupported("symbolic json key")
				}
				k = strconv.FormatInt(sext(kt.val, kt.w), 10)
			}
			if _, ok := k.(string); !ok {
				allc = false
			}
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, m.jencode(fr, e.v, u.Elem(), depth+1))
		}
		if allc {
			sort.Sort(byKey{n})
		}
		return n
	case *types.Slice:
		s, _ := v.([]Value)
		if s == nil {
			return &jnode{kind: '0'}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return &jnode{kind: 'B', bytes: append([]Value{}, s...)}
		}
		n := &jnode{kind: 'a'}
		for _, e := range s {
			n.kids = append(n.kids, m.jencode(fr, e, u.Elem(), depth+1))
		}
		return n
	case *types.Array:
		n := &jnode{kind: 'a'}
		for _, e := range v.(arrayV) {
			n.kids = append(n.kids, m.jencode(fr, e, u.Elem(), depth+1))
		}
		return n
	}
	m.jfail("json: unsupported type: " + t.String())
	return nil
}

type byKey struct{ n *jnode }

func (b byKey) Len() int           { return len(b.n.keys) }
func (b byKey) Less(i, j int) bool { return b.n.keys[i].(string) < b.n.keys[j].(string) }
func (b byKey) Swap(i, j int) {
	b.n.keys[i], b.n.keys[j] = b.n.keys[j], b.n.keys[i]
	b.n.kids[i], b.n.kids[j] = b.n.kids[j], b.n.kids[i]
}

// jhost turns a fully concrete document into text
func (m *Machine) jhost(n *jnode, sb *bytes.Buffer) bool {
	str := func(s string) {
		b, _ := json.Marshal(s)
		sb.Write(b)
	}
	switch n.kind {
	case '0':
		sb.WriteString("null")
	case 'b':
		if !n.t.IsConst() {
			return false
		}
		fmt.Fprint(sb, n.t.val == 1)
	case 'n':
		if !n.t.IsConst() {
			return false
		}
		if n.uns {
			fmt.Fprint(sb, n.t.val)
		} else {
			fmt.Fprint(sb, sext(n.t.val, n.t.w))
		}
	case 'f':
		if n.num == "" {
			return false
		}
		sb.WriteString(n.num)
	case 's':
		s, ok := n.s.(string)
		if !ok {
			return false
		}
		str(s)
	case 'B':
		b, ok := m.concBytes(n.bytes)
		if !ok {
			return false
		}
		str(base64.StdEncoding.EncodeToString(b))
	case 'T':
		s := n.s.(structV)
		if w, ok := s[0].(*Term); !ok || !w.IsConst() {
			return false
		}
		if ns, ok := s[1].(*Term); !ok || !ns.IsConst() {
			return false
		}
		str(m.hostTime(n.s).Format(time.RFC3339Nano))
	case 'o':
		sb.WriteByte('{')
		for i, k := range n.keys {
			if i > 0 {
				sb.WriteByte(',')
			}
			ks, ok := k.(string)
			if !ok {
				return false
			}
			str(ks)
			sb.WriteByte(':')
			if !m.jhost(n.kids[i], sb) {
				return false
			}
		}
		sb.WriteByte('}')
	case 'a':
		sb.WriteByte('[')
		for i := range n.kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			if !m.jhost(n.kids[i], sb) {
				return false
			}
		}
		sb.WriteByte(']')
	}
	return true
}

func (m *Machine) jblob(n *jnode) []Value {
	var sb bytes.Buffer
	if m.jhost(n, &sb) {
		return m.hostBytes(sb.Bytes())
	}
	return []Value{native{"jsonblob", n}}
}

// jnodeEq tells if two documents have the same text, nil when unknown
func (m *Machine) jnodeEq(a, b *jnode) *Term {
	c := m.c
	if a == b {
		return c.True
	}
	if a.kind != b.kind {
		simple := func(k byte) bool { return k == 'o' || k == 'a' || k == 's' || k == 'n' || k == 'b' || k == '0' }
		if simple(a.kind) && simple(b.kind) {
			return c.False
		}
		return nil
	}
	switch a.kind {
	case '0':
		return c.True
	case 'b':
		return c.Eq(a.t, b.t)
	case 'n':
		if a.t.w != b.t.w || a.uns != b.uns {
			return nil
		}
		return c.Eq(a.t, b.t)
	case 's':
		return m.strEq(a.s, b.s)
	case 'B':
		return m.bytesEqual(a.bytes, b.bytes)
	case 'o', 'a':
		if len(a.kids) != len(b.kids) {
			return c.False
		}
		r := c.True
		for i := range a.kids {
			if a.kind == 'o' {
				r = c.And(r, m.strEq(a.keys[i], b.keys[i]))
				if r == c.False {
					return r
				}
			}
			x := m.jnodeEq(a.kids[i], b.kids[i])
			if x == nil {
				return nil
			}
			r = c.And(r, x)
		}
		return r
	}
	return nil
}

// tokenEq compares strings that stand for JSON or base64 text, nil when unknown
func (m *Machine) tokenEq(x, y *SStr) *Term {
	if !x.opaque {
		x, y = y, x
	}
	switch a := x.tag.(type) {
	case native:
		if a.kind != "jsonblob" {
			return nil
		}
		if !y.opaque {
			// the text of a document is never empty
			if y.n.IsConst() && y.n.val == 0 {
				return m.c.False
			}
			return nil
		}
		if b, ok := y.tag.(native); ok && b.kind == "jsonblob" {
			return m.jnodeEq(a.v.(*jnode), b.v.(*jnode))
		}
	case *jnode:
		if a.kind != 'B' {
			return nil
		}
		if y.opaque {
			if b, ok := y.tag.(*jnode); ok && b.kind == 'B' {
				return m.bytesEqual(a.bytes, b.bytes)
			}
			return nil
		}
		if h, ok := m.mkstr(y).(string); ok {
			d, err := base64.StdEncoding.DecodeString(h)
			if err != nil || base64.StdEncoding.EncodeToString(d) != h {
				return m.c.False
			}
			if len(a.bytes) == 1 {
				if _, ok := a.bytes[0].(native); ok {
					if len(h) < 4 {
						return m.c.False
					}
					return nil
				}
			}
			return m.bytesEqual(a.bytes, m.hostBytes(d))
		}
	}
	return nil
}

// isStdB64 tells if the receiver is base64.StdEncoding
func (m *Machine) isStdB64(v Value) bool {
	p, ok := v.(*Value)
	if !ok || p == nil {
		return false
	}
	s, ok := (*p).(structV)
	if !ok || len(s) < 3 {
		return false
	}
	enc, ok := s[0].(arrayV)
	if !ok || len(enc) != 64 {
		return false
	}
	t, ok := enc[62].(*Term)
	pad, ok2 := s[2].(*Term)
	return ok && ok2 && t.IsConst() && byte(t.val) == '+' && pad.IsConst() && pad.val == '='
}

func (m *Machine) jtext(n *jnode) Value { return m.bytesToString(m.jblob(n)) }

func (m *Machine) blobLen(n native) Value {
	return m.c.BV(1000, 64)
}

// jparse gives the document of JSON bytes
func (m *Machine) jparse(b []Value) (*jnode, error) {
	if n, ok := m.blobNode(b); ok {
		return n, nil
	}
	hb, ok := m.concBytes(b)
	if !ok {
		m.unsupported("parsing of symbolic JSON text")
	}
	return m.jparseHost(hb)
}

func (m *Machine) jparseHost(hb []byte) (*jnode, error) {
	if !json.Valid(hb) {
		var x interface{}
		err := json.Unmarshal(hb, &x)
		if err == nil {
			err = fmt.Errorf("invalid JSON")
		}
		return nil, err
	}
	d := json.NewDecoder(bytes.NewReader(hb))
	d.UseNumber()
	var rd func() (*jnode, error)
	rd = func() (*jnode, error) {
		tk, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch x := tk.(type) {
		case json.Delim:
			if x == '{' {
				n := &jnode{kind: 'o'}
				for d.More() {
					kt, err := d.Token()
					if err != nil {
						return nil, err
					}
					k, err := rd()
					if err != nil {
						return nil, err
					}
					n.keys = append(n.keys, kt.(string))
					n.kids = append(n.kids, k)
				}
				d.Token()
				return n, nil
			}
			n := &jnode{kind: 'a'}
			for d.More() {
				k, err := rd()
				if err != nil {
					return nil, err
				}
				n.kids = append(n.kids, k)
			}
			d.Token()
			return n, nil
		case string:
			return &jnode{kind: 's', s: x}, nil
		case json.Number:
			return &jnode{kind: 'f', num: x.String()}, nil
		case bool:
			return &jnode{kind: 'b', t: m.c.Bool(x)}, nil
		case nil:
			return &jnode{kind: '0'}, nil
		}
		return nil, fmt.Errorf("token %T", tk)
	}
	return rd()
}

// jany decodes into interface{}
func (m *Machine) jany(n *jnode) Value {
	switch n.kind {
	case '0':
		return iface{}
	case 's':
		return iface{types.Typ[types.String], n.s}
	case 'B', 'T':
		return iface{types.Typ[types.String], m.jstring(n)}
	case 'b':
		return iface{types.Typ[types.Bool], n.t}
	case 'n', 'f':
		return iface{types.Typ[types.Float64], m.jfloat(n)}
	case 'a':
		s := make([]Value, len(n.kids))
		for i, k := range n.kids {
			s[i] = m.jany(k)
		}
		return iface{types.NewSlice(types.NewInterfaceType(nil, nil)), s}
	case 'o':
		mp := newMap()
		for i, k := range n.keys {
			m.mapSet(mp, k, m.jany(n.kids[i]))
		}
		return iface{types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), mp}
	}
	m.unsupported("jany")
	return nil
}

func (m *Machine) jfloat(n *jnode) *Term {
	if n.num != "" {
		f, _ := strconv.ParseFloat(n.num, 64)
		return m.c.F(f)
	}
	if n.t.w == wFP {
		return n.t
	}
	if n.uns {
		return m.c.Un(OpUToF, n.t, wFP)
	}
	return m.c.Un(OpSToF, n.t, wFP)
}

func (m *Machine) jstring(n *jnode) Value {
	switch n.kind {
	case 's':
		return n.s
	case 'B':
		if b, ok := m.concBytes(n.bytes); ok {
			return base64.StdEncoding.EncodeToString(b)
		}
		return &SStr{opaque: true, n: m.c.BV(0, 64), tag: n}
	case 'T':
		var sb bytes.Buffer
		if m.jhost(n, &sb) {
			var s string
			json.Unmarshal(sb.Bytes(), &s)
			return s
		}
		return &SStr{opaque: true, n: m.c.BV(0, 64), tag: n}
	}
	return nil
}

// jdecode stores a document into *dst, the error is the first type mismatch
func (m *Machine) jdecode(fr *frame, n *jnode, t types.Type, dst *Value, saved *Value, depth int) {
	if depth > 40 {
		m.unsupported("json depth")
	}
	mismatch := func() {
		if isNilValue(*saved) || (*saved).(iface).t == nil {
			*saved = m.mkError("json: cannot unmarshal into Go value of type " + t.String())
		}
	}
	if isNamed(t, "time", "Time") {
		switch n.kind {
		case 'T':
			m.store(dst, n.s)
		case '0':
		case 's':
			if s, ok := n.s.(*SStr); ok {
				if jn, ok := s.tag.(*jnode); ok && jn.kind == 'T' {
					m.store(dst, jn.s)
					return
				}
			}
			tt, err := time.Parse(time.RFC3339, m.concString(n.s))
			if err != nil {
				panic(jsonErr{m.mkError(err.Error())})
			}
			m.store(dst, m.fromHostTime(tt))
		default:
			panic(jsonErr{m.mkError("Time.UnmarshalJSON: input is not a JSON string")})
		}
		return
	}
	if isNamed(t, "encoding/json", "RawMessage") {
		m.store(dst, m.jblob(n))
		return
	}
	pt := types.NewPointer(t)
	if _, isI := t.Underlying().(*types.Interface); !isI {
		if _, isP := t.Underlying().(*types.Pointer); !isP {
			if m.hasMethod(pt, "UnmarshalJSON") {
				if n.kind == '0' {
					// json calls UnmarshalJSON with null as well for non pointers
				}
				r, _ := m.callMethod(fr, iface{pt, dst}, "UnmarshalJSON", m.jblob(n))
				if e, ok := r.(iface); ok && e.t != nil {
					panic(jsonErr{e})
				}
				return
			}
			if m.hasMethod(pt, "UnmarshalText") && n.kind == 's' {
				r, _ := m.callMethod(fr, iface{pt, dst}, "UnmarshalText", m.stringToBytes(n.s))
				if e, ok := r.(iface); ok && e.t != nil {
					panic(jsonErr{e})
				}
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.kind == '0' {
			m.store(dst, (*Value)(nil))
			return
		}
		p := (*dst).(*Value)
		if p == nil {
			p = newCell(m.zero(u.Elem()))
			m.store(dst, p)
		}
		m.jdecode(fr, n, u.Elem(), p, saved, depth+1)
		return
	case *types.Interface:
		if u.NumMethods() > 0 {
			cur, _ := (*dst).(iface)
			if cur.t != nil {
				if p, ok := cur.v.(*Value); ok && p != nil {
					m.jdecode(fr, n, cur.t.Underlying().(*types.Pointer).Elem(), p, saved, depth+1)
					return
				}
			}
			if n.kind == '0' {
				m.store(dst, iface{})
				return
			}
			mismatch()
			return
		}
		m.store(dst, m.jany(n))
		return
	}
	if n.kind == '0' {
		switch t.Underlying().(type) {
		case *types.Slice:
			m.store(dst, []Value(nil))
		case *types.Map:
			m.store(dst, (*MapV)(nil))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				mismatch()
				return
			}
			m.store(dst, n.t)
		case u.Info()&types.IsString != 0:
			if isNamed(t, "encoding/json", "Number") && (n.kind == 'n' || n.kind == 'f') {
				m.store(dst, m.jtext(n))
				return
			}
			s := m.jstring(n)
			if s == nil {
				mismatch()
				return
			}
			m.store(dst, s)
		case u.Info()&types.IsFloat != 0:
			if n.kind != 'n' && n.kind != 'f' {
				mismatch()
				return
			}
			m.store(dst, m.jfloat(n))
		case u.Info()&types.IsInteger != 0:
			w, sg := basicWidth(u)
			switch {
			case n.num != "":
				if sg {
					i, err := strconv.ParseInt(n.num, 10, int(w))
					if err != nil {
						mismatch()
						return
					}
					m.store(dst, m.c.BV(uint64(i), w))
				} else {
					i, err := strconv.ParseUint(n.num, 10, int(w))
					if err != nil {
						mismatch()
						return
					}
					m.store(dst, m.c.BV(i, w))
				}
			case n.kind == 'n':
				tt := m.c.Resize(n.t, w, !n.uns)
				back := m.c.Resize(tt, 64, sg)
				orig := m.c.Resize(n.t, 64, !n.uns)
				ok := m.c.Eq(back, orig)
				if sg == n.uns {
					// signedness differs, both must be non negative
					ok = m.c.And(ok, m.c.Bin(OpSle, m.c.BV(0, 64), orig))
				}
				if !m.branch(ok) {
					mismatch()
					return
				}
				m.store(dst, tt)
			case n.kind == 'f':
				m.unsupported("symbolic float into integer")
			default:
				mismatch()
			}
		}
		return
	case *types.Struct:
		if n.kind != 'o' {
			mismatch()
			return
		}
		s := (*dst).(structV)
		fields := m.jsonFields(u)
		for i, k := range n.keys {
			ks, ok := k.(string)
			if !ok {
				m.unsupported("symbolic json key into struct")
			}
			var hit *jfield
			for j := range fields {
				if fields[j].name == ks {
					hit = &fields[j]
					break
				}
			}
			if hit == nil {
				for j := range fields {
					if strings.EqualFold(fields[j].name, ks) {
						hit = &fields[j]
						break
					}
				}
			}
			if hit == nil {
				continue
			}
			var p *Value
			cur := s
			for q, ix := range hit.index {
				p = &cur[ix]
				if q < len(hit.ptrs) && hit.ptrs[q] != nil {
					pp, _ := (*p).(*Value)
					if pp == nil {
						pp = newCell(m.zero(hit.ptrs[q]))
						m.store(p, pp)
					}
					p = pp
				}
				if q < len(hit.index)-1 {
					cur = (*p).(structV)
				}
			}
			kn := n.kids[i]
			if hit.quoted && kn.kind == 's' {
				kn2, err := m.jparse(m.stringToBytes(kn.s))
				if err != nil {
					mismatch()
					continue
				}
				kn = kn2
			}
			m.jdecode(fr, kn, hit.typ, p, saved, depth+1)
		}
		return
	case *types.Map:
		if n.kind != 'o' {
			mismatch()
			return
		}
		mp, _ := (*dst).(*MapV)
		if mp == nil {
			mp = newMap()
			m.store(dst, mp)
		}
		kw, ks := numInfo(u.Key())
		for i, k := range n.keys {
			cell := newCell(m.zero(u.Elem()))
			m.jdecode(fr, n.kids[i], u.Elem(), cell, saved, depth+1)
			var kv Value = k
			if kw != 255 && kw != wFP && kw != wBool {
				x, err := strconv.ParseInt(m.concString(k), 10, 64)
				if err != nil {
					mismatch()
					continue
				}
				_ = ks
				kv = m.c.BV(uint64(x), kw)
			}
			m.mapSet(mp, kv, *cell)
		}
		return
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			switch n.kind {
			case 'B':
				m.store(dst, append([]Value{}, n.bytes...))
				return
			case 's':
				if s, ok := n.s.(*SStr); ok {
					if jn, ok := s.tag.(*jnode); ok && jn.kind == 'B' {
						m.store(dst, append([]Value{}, jn.bytes...))
						return
					}
				}
				b, err := base64.StdEncoding.DecodeString(m.concString(n.s))
				if err != nil {
					panic(jsonErr{m.mkError(err.Error())})
				}
				m.store(dst, m.hostBytes(b))
				return
			}
		}
		if n.kind != 'a' {
			mismatch()
			return
		}
		s := make([]Value, len(n.kids))
		for i, k := range n.kids {
			s[i] = m.zero(u.Elem())
			m.jdecode(fr, k, u.Elem(), &s[i], saved, depth+1)
		}
		m.store(dst, s)
		return
	case *types.Array:
		if n.kind != 'a' {
			mismatch()
			return
		}
		a := (*dst).(arrayV)
		for i, k := range n.kids {
			if i < len(a) {
				m.jdecode(fr, k, u.Elem(), &a[i], saved, depth+1)
			}
		}
		return
	}
	m.unsupported("json into " + t.String())
}

func (m *Machine) jmarshal(fr *frame, v Value) (out Value, err Value) {
	d := m.depth
	cur := m.sched.cur
	ofr := cur.fr
	err = iface{}
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				m.depth = d
				cur.fr = ofr
				out, err = []Value(nil), je.v
				return
			}
			panic(r)
		}
	}()
	it := v.(iface)
	if it.t == nil {
		return m.hostBytes([]byte("null")), iface{}
	}
	return m.jblob(m.jencode(fr, it.v, it.t, 0)), iface{}
}

func (m *Machine) junmarshal(fr *frame, data []Value, dst iface) (err Value) {
	d := m.depth
	cur := m.sched.cur
	ofr := cur.fr
	err = iface{}
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				m.depth = d
				cur.fr = ofr
				err = je.v
				return
			}
			panic(r)
		}
	}()
	n, e := m.jparse(data)
	if e != nil {
		return m.mkError(e.Error())
	}
	p, ok := dst.v.(*Value)
	if !ok || p == nil {
		return m.mkError("json: Unmarshal(nil)")
	}
	m.jdecode(fr, n, dst.t.Underlying().(*types.Pointer).Elem(), p, &err, 0)
	return err
}

func regJSON() {
	reg("(*encoding/base64.Encoding).EncodeToString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if m.isStdB64(a[0]) {
			b := m.sl(a[1])
			if hb, ok := m.concBytes(b); ok {
				return base64.StdEncoding.EncodeToString(hb)
			}
			return &SStr{opaque: true, n: m.c.BV(0, 64), tag: &jnode{kind: 'B', bytes: append([]Value{}, b...)}}
		}
		return m.callSSABody(fr, fn, a)
	})
	reg("(*encoding/base64.Encoding).DecodeString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if m.isStdB64(a[0]) {
			if s, ok := a[1].(*SStr); ok {
				if j, ok := s.tag.(*jnode); ok && j.kind == 'B' {
					return tuple{append([]Value{}, j.bytes...), iface{}}
				}
				if isBlob(s) {
					return tuple{[]Value{}, m.mkError("illegal base64 data at input byte 0")}
				}
			}
			if h, ok := a[1].(string); ok {
				d, err := base64.StdEncoding.DecodeString(h)
				if err != nil {
					return tuple{m.hostBytes(d), m.mkError(err.Error())}
				}
				return tuple{m.hostBytes(d), iface{}}
			}
		}
		return m.callSSABody(fr, fn, a)
	})
	reg("encoding/json.Marshal", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		b, err := m.jmarshal(fr, a[0])
		return tuple{b, err}
	})
	reg("encoding/json.MarshalIndent", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		b, err := m.jmarshal(fr, a[0])
		if s, ok := b.([]Value); ok {
			if hb, ok := m.concBytes(s); ok && len(hb) > 0 {
				var o bytes.Buffer
				if json.Indent(&o, hb, m.concString(a[1]), m.concString(a[2])) == nil {
					b = m.hostBytes(o.Bytes())
				}
			}
		}
		return tuple{b, err}
	})
	reg("encoding/json.Unmarshal", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.junmarshal(fr, m.sl(a[0]), a[1].(iface))
	})
	jsonField := func(m *Machine, recv Value, path ...string) Value {
		t := m.typeOf("encoding/json", path[0])
		var v Value = *m.ptr(recv)
		for _, f := range path[1:] {
			st := t.Underlying().(*types.Struct)
			found := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					v, t, found = v.(structV)[i], st.Field(i).Type(), true
					break
				}
			}
			if !found {
				m.unsupported("json field " + f)
			}
		}
		return v
	}
	// decodes all there is to read as one document
	reg("(*encoding/json.Decoder).Decode", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		for _, f := range []string{"disallowUnknownFields", "useNumber"} {
			if b, ok := jsonField(m, a[0], "Decoder", "d", f).(*Term); !ok || !b.IsConst() || b.val != 0 {
				m.unsupported("json decoder with " + f)
			}
		}
		io := m.prog.ImportedPackage("io")
		r := m.callSSA(fr, io.Func("ReadAll"), []Value{jsonField(m, a[0], "Decoder", "r")}, nil).(tuple)
		if e, ok := r[1].(iface); ok && e.t != nil {
			return e
		}
		b := m.sl(r[0])
		if len(b) == 0 {
			return m.load(m.global(io.Members["EOF"].(*ssa.Global)))
		}
		return m.junmarshal(fr, b, a[1].(iface))
	})
	reg("(*encoding/json.Encoder).Encode", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := jsonField(m, a[0], "Encoder", "indentPrefix").(string); !ok || s != "" {
			m.unsupported("indenting json encoder")
		}
		b, err := m.jmarshal(fr, a[1])
		if e, ok := err.(iface); ok && e.t != nil {
			return e
		}
		s := m.sl(b)
		if _, ok := m.blobNode(s); !ok {
			s = append(append([]Value{}, s...), m.c.BV(10, 8))
		}
		r, _ := m.callMethod(fr, jsonField(m, a[0], "Encoder", "w").(iface), "Write", s)
		return r.(tuple)[1]
	})
	reg("encoding/json.Valid", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if _, ok := m.blobNode(m.sl(a[0])); ok {
			return m.c.True
		}
		b, ok := m.concBytes(a[0])
		if !ok {
			m.unsupported("json.Valid of symbolic bytes")
		}
		return m.c.Bool(json.Valid(b))
	})
}
