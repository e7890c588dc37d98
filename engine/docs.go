package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/types"
	"io"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// Models of the reflection-based decoders and encoders. The document text is parsed and printed by the real
// libraries; the mapping to and from the program's structs follows the tags found in the program's types.

type yamlDec struct {
	reader Value
	known  bool
	data   []byte
	read   bool
	dec    *yaml.Decoder
}

type yamlEnc struct {
	writer Value
	indent int
}

var nil2f types.Type = types.Typ[types.Float64]

func natPtr(kind string, x interface{}) *Value {
	p := new(Value)
	*p = Struct{&Native{kind: kind, v: x}}
	return p
}

func natOf(v Value) interface{} {
	p := v.(*Value)
	return (*p).(Struct)[0].(*Native).v
}

func (r *Run) readAll(rd Value) []byte {
	i := rd.(Iface)
	if i.t == nil {
		r.nilDeref()
	}
	var out []byte
	for k := 0; k < 10000; k++ {
		buf := makeSlice(types.Typ[types.Uint8], 512, 512)
		v, ok := r.callMethod(i, "Read", buf)
		if !ok {
			panic(unsupported{"reader without Read"})
		}
		tp := v.(Tuple)
		n := int(r.concInt(tp[0]))
		for _, b := range buf[:n] {
			x, ok := b.(int64)
			if !ok {
				panic(unsupported{"symbolic document text"})
			}
			out = append(out, byte(x))
		}
		if e := tp[1].(Iface); e.t != nil {
			break
		}
	}
	return out
}

func bytesOf(v Value) []byte {
	s := sl(v)
	out := make([]byte, len(s))
	for i, b := range s {
		x, ok := b.(int64)
		if !ok {
			panic(unsupported{"symbolic document text"})
		}
		out[i] = byte(x)
	}
	return out
}

func bytesVal(b []byte) []Value {
	out := make([]Value, len(b))
	for i, c := range b {
		out[i] = int64(c)
	}
	return out
}

var yamlIntr map[string]intrinsic

func init() {
	yamlIntr = map[string]intrinsic{
		"gopkg.in/yaml.v3.NewDecoder": func(r *Run, a []Value) Value { return natPtr("yamldec", &yamlDec{reader: a[0]}) },
		"(*gopkg.in/yaml.v3.Decoder).KnownFields": func(r *Run, a []Value) Value {
			natOf(a[0]).(*yamlDec).known = r.isTrue(a[1])
			return nil
		},
		"(*gopkg.in/yaml.v3.Decoder).Decode": func(r *Run, a []Value) Value {
			d := natOf(a[0]).(*yamlDec)
			if !d.read {
				d.read = true
				d.data = r.readAll(d.reader)
				d.dec = yaml.NewDecoder(bytes.NewReader(d.data))
			}
			var n yaml.Node
			if err := d.dec.Decode(&n); err != nil {
				if err == io.EOF {
					return *r.global(r.ex.prog.eofGlobal())
				}
				return r.mkError(err.Error())
			}
			return r.yamlTop(&n, a[1], d.known)
		},
		"gopkg.in/yaml.v3.Unmarshal": func(r *Run, a []Value) Value {
			var n yaml.Node
			if err := yaml.Unmarshal(bytesOf(a[0]), &n); err != nil {
				return r.mkError(err.Error())
			}
			if n.Kind == 0 {
				return Iface{}
			}
			return r.yamlTop(&n, a[1], false)
		},
		"gopkg.in/yaml.v3.NewEncoder": func(r *Run, a []Value) Value { return natPtr("yamlenc", &yamlEnc{writer: a[0], indent: 4}) },
		"(*gopkg.in/yaml.v3.Encoder).SetIndent": func(r *Run, a []Value) Value {
			natOf(a[0]).(*yamlEnc).indent = int(r.concInt(a[1]))
			return nil
		},
		"(*gopkg.in/yaml.v3.Encoder).Close": func(r *Run, a []Value) Value { return Iface{} },
		"(*gopkg.in/yaml.v3.Encoder).Encode": func(r *Run, a []Value) Value {
			e := natOf(a[0]).(*yamlEnc)
			b := r.yamlText(a[1].(Iface), e.indent)
			r.callMethod(e.writer.(Iface), "Write", bytesVal(b))
			return Iface{}
		},
		"gopkg.in/yaml.v3.Marshal": func(r *Run, a []Value) Value {
			return Tuple{bytesVal(r.yamlText(a[0].(Iface), 4)), Iface{}}
		},

		"encoding/xml.NewDecoder": func(r *Run, a []Value) Value { return natPtr("xmldec", &yamlDec{reader: a[0]}) },
		"(*encoding/xml.Decoder).Decode": func(r *Run, a []Value) Value {
			d := natOf(a[0]).(*yamlDec)
			if !d.read {
				d.read = true
				d.data = r.readAll(d.reader)
			}
			return r.xmlTop(d.data, a[1])
		},
		"encoding/xml.Unmarshal": func(r *Run, a []Value) Value { return r.xmlTop(bytesOf(a[0]), a[1]) },
	}
}

type decodeErr struct{ msg string }

func (r *Run) yamlTop(n *yaml.Node, target Value, known bool) (res Value) {
	t := target.(Iface)
	p, ok := t.v.(*Value)
	if !ok || p == nil {
		return r.mkError("yaml: cannot decode into non-pointer")
	}
	var errs []string
	if n.Kind == yaml.DocumentNode {
		n = n.Content[0]
	}
	r.yamlDecode(n, t.t.Underlying().(*types.Pointer).Elem(), p, known, &errs)
	if len(errs) > 0 {
		return r.mkError("yaml: unmarshal errors:\n  " + strings.Join(errs, "\n  "))
	}
	return Iface{}
}

type fieldTag struct {
	name      string
	omitempty bool
	flow      bool
	inline    bool
	skip      bool
}

func yamlTag(f *types.Var, tag string) fieldTag {
	ft := fieldTag{name: strings.ToLower(f.Name())}
	if !f.Exported() {
		ft.skip = true
		return ft
	}
	y, ok := reflect.StructTag(tag).Lookup("yaml")
	if !ok && !strings.Contains(tag, ":") {
		y = tag
	}
	if y == "-" {
		ft.skip = true
		return ft
	}
	parts := strings.Split(y, ",")
	if parts[0] != "" {
		ft.name = parts[0]
	}
	for _, p := range parts[1:] {
		switch p {
		case "omitempty":
			ft.omitempty = true
		case "flow":
			ft.flow = true
		case "inline":
			ft.inline = true
		}
	}
	return ft
}

func (r *Run) yamlDecode(n *yaml.Node, t types.Type, p *Value, known bool, errs *[]string) {
	if n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	fail := func() {
		*errs = append(*errs, fmt.Sprintf("line %d: cannot unmarshal %s into %s", n.Line, n.ShortTag(), t.String()))
	}
	if n.Kind == yaml.ScalarNode && n.ShortTag() == "!!null" {
		switch infoOf(t).k {
		case kPointer, kSlice, kMap, kIface:
			*p = zero(t)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q := new(Value)
		*q = zero(u.Elem())
		r.yamlDecode(n, u.Elem(), q, known, errs)
		*p = q
	case *types.Struct:
		if n.Kind != yaml.MappingNode {
			fail()
			return
		}
		s := (*p).(Struct)
		tags := map[string]int{}
		for i := 0; i < u.NumFields(); i++ {
			ft := yamlTag(u.Field(i), u.Tag(i))
			if ft.inline {
				panic(unsupported{"yaml inline"})
			}
			if !ft.skip {
				tags[ft.name] = i
			}
		}
		seen := map[string]bool{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k := n.Content[i].Value
			if seen[k] {
				*errs = append(*errs, fmt.Sprintf("line %d: mapping key %q already defined", n.Content[i].Line, k))
				continue
			}
			seen[k] = true
			fi, ok := tags[k]
			if !ok {
				if known {
					*errs = append(*errs, fmt.Sprintf("line %d: field %s not found in type %s", n.Content[i].Line, k, t.String()))
				}
				continue
			}
			r.yamlDecode(n.Content[i+1], u.Field(fi).Type(), &s[fi], known, errs)
		}
	case *types.Slice:
		if n.Kind != yaml.SequenceNode {
			fail()
			return
		}
		out := makeSlice(u.Elem(), len(n.Content), len(n.Content))
		for i, c := range n.Content {
			r.yamlDecode(c, u.Elem(), &out[i], known, errs)
		}
		*p = out
	case *types.Array:
		if n.Kind != yaml.SequenceNode {
			fail()
			return
		}
		a := (*p).(Array)
		if len(n.Content) != len(a) {
			*errs = append(*errs, fmt.Sprintf("line %d: invalid array: want %d elements but got %d", n.Line, len(a), len(n.Content)))
			return
		}
		for i, c := range n.Content {
			r.yamlDecode(c, u.Elem(), &a[i], known, errs)
		}
	case *types.Map:
		if n.Kind != yaml.MappingNode {
			fail()
			return
		}
		m := newMap()
		for i := 0; i+1 < len(n.Content); i += 2 {
			k, v := new(Value), new(Value)
			*k, *v = zero(u.Key()), zero(u.Elem())
			r.yamlDecode(n.Content[i], u.Key(), k, known, errs)
			r.yamlDecode(n.Content[i+1], u.Elem(), v, known, errs)
			h, _ := hashKey(*k)
			m.set(h, *k, *v)
		}
		*p = m
	case *types.Basic:
		if n.Kind != yaml.ScalarNode {
			fail()
			return
		}
		ti := infoOf(t)
		switch ti.k {
		case kString:
			var s string
			if err := n.Decode(&s); err != nil {
				fail()
				return
			}
			*p = s
		case kBool:
			var b bool
			if err := n.Decode(&b); err != nil {
				fail()
				return
			}
			*p = b
		case kInt:
			if tk := r.intTokenOf(n.Value); tk != nil && ti.w == 64 {
				*p = ival(tk, ti)
				return
			}
			var x int64
			if err := n.Decode(&x); err != nil {
				fail()
				return
			}
			*p = norm(x, ti)
		case kUint:
			var x uint64
			if err := n.Decode(&x); err != nil {
				fail()
				return
			}
			*p = norm(int64(x), ti)
		case kFloat:
			if tk := r.tokenOf(n.Value); tk != nil {
				*p = fval(tk)
				return
			}
			var f float64
			if err := n.Decode(&f); err != nil {
				fail()
				return
			}
			if q, ok := new(big.Rat).SetString(n.Value); ok {
				*p = q
			} else {
				*p = ratOf(f)
			}
		default:
			panic(unsupported{"yaml decode into " + t.String()})
		}
	default:
		panic(unsupported{"yaml decode into " + t.String()})
	}
}

func (r *Run) yamlText(v Iface, indent int) []byte {
	n := r.yamlEncode(v.t, v.v, false)
	var b bytes.Buffer
	e := yaml.NewEncoder(&b)
	e.SetIndent(indent)
	if err := e.Encode(n); err != nil {
		panic(unsupported{"yaml encode: " + err.Error()})
	}
	e.Close()
	return b.Bytes()
}

func isZeroVal(v Value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case int64:
		return x == 0
	case *big.Rat:
		return x.Sign() == 0
	case string:
		return x == ""
	case []Value:
		return len(x) == 0
	case *MapV:
		return x == nil || x.n == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	case Struct:
		for _, f := range x {
			if !isZeroVal(f) {
				return false
			}
		}
		return true
	case Array:
		return len(x) == 0 // yaml.v3: arrays are never empty unless of length 0
	}
	return false
}

func (r *Run) yamlEncode(t types.Type, v Value, flow bool) *yaml.Node {
	if t == nil {
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: "null"}
	}
	scalar := func(x interface{}) *yaml.Node {
		var n yaml.Node
		if err := n.Encode(x); err != nil {
			panic(unsupported{"yaml encode: " + err.Error()})
		}
		return &n
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			return scalar(nil)
		}
		return r.yamlEncode(u.Elem(), *p, flow)
	case *types.Interface:
		i := v.(Iface)
		return r.yamlEncode(i.t, i.v, flow)
	case *types.Struct:
		n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
		if flow {
			n.Style = yaml.FlowStyle
		}
		for i, f := range v.(Struct) {
			ft := yamlTag(u.Field(i), u.Tag(i))
			if ft.skip {
				continue
			}
			if ft.inline {
				panic(unsupported{"yaml inline"})
			}
			if ft.omitempty && isZeroVal(f) {
				continue
			}
			if x, ok := f.(*Term); ok && ft.omitempty {
				z := x
				switch x.sort {
				case SBool:
					z = r.tm.Not(x)
				case SReal:
					z = r.tm.Eq(x, r.tm.Rat(ratZero))
				case SBV:
					z = r.tm.Eq(x, r.tm.BV(x.w, 0))
				}
				if r.Branch(z) {
					continue
				}
			}
			n.Content = append(n.Content, scalar(ft.name), r.yamlEncode(u.Field(i).Type(), f, ft.flow))
		}
		return n
	case *types.Slice, *types.Array:
		n := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
		if flow {
			n.Style = yaml.FlowStyle
		}
		var xs []Value
		var et types.Type
		switch uu := u.(type) {
		case *types.Slice:
			xs, et = sl(v), uu.Elem()
		case *types.Array:
			xs, et = v.(Array), uu.Elem()
		}
		for _, x := range xs {
			n.Content = append(n.Content, r.yamlEncode(et, x, flow))
		}
		return n
	case *types.Map:
		n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
		m := v.(*MapV)
		if m != nil {
			for _, e := range m.ent {
				if !e.del {
					n.Content = append(n.Content, r.yamlEncode(u.Key(), e.k, false), r.yamlEncode(u.Elem(), e.v, flow))
				}
			}
		}
		return n
	}
	switch x := v.(type) {
	case string:
		return scalar(x)
	case bool:
		return scalar(x)
	case int64:
		return scalar(x)
	case float64:
		return scalar(x)
	case *big.Rat:
		f, _ := x.Float64()
		n := scalar(f)
		if q, ok := new(big.Rat).SetString(n.Value); ok && q.Cmp(x) == 0 {
			return n
		}
		return &yaml.Node{Kind: yaml.ScalarNode, Value: r.token(r.tm.Rat(x))}
	case *Term:
		if x.sort == SReal {
			return &yaml.Node{Kind: yaml.ScalarNode, Value: r.token(x)}
		}
		if x.sort == SBV {
			if x.w == 64 {
				return &yaml.Node{Kind: yaml.ScalarNode, Value: r.intToken(x)}
			}
			return scalar(r.Concretize(x, infoOf(t)))
		}
		return scalar(r.Branch(x))
	}
	panic(unsupported{"yaml encode " + t.String()})
}

// ---- xml

type xnode struct {
	name  string
	attrs map[string]string
	kids  []*xnode
	text  string
}

func parseXML(data []byte) (*xnode, error) {
	d := xml.NewDecoder(bytes.NewReader(data))
	for {
		tok, err := d.Token()
		if err != nil {
			return nil, err
		}
		if s, ok := tok.(xml.StartElement); ok {
			return parseElem(d, s)
		}
	}
}

func parseElem(d *xml.Decoder, s xml.StartElement) (*xnode, error) {
	n := &xnode{name: s.Name.Local, attrs: map[string]string{}}
	for _, a := range s.Attr {
		n.attrs[a.Name.Local] = a.Value
	}
	for {
		tok, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			k, err := parseElem(d, x)
			if err != nil {
				return nil, err
			}
			n.kids = append(n.kids, k)
		case xml.CharData:
			n.text += string(x)
		case xml.EndElement:
			return n, nil
		}
	}
}

func (r *Run) xmlTop(data []byte, target Value) (res Value) {
	t := target.(Iface)
	p, ok := t.v.(*Value)
	if !ok || p == nil {
		return r.mkError("non-pointer passed to Unmarshal")
	}
	n, err := parseXML(data)
	if err != nil {
		if err == io.EOF {
			return *r.global(r.ex.prog.eofGlobal())
		}
		return r.mkError(err.Error())
	}
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(decodeErr); ok {
				res = r.mkError(e.msg)
				return
			}
			panic(x)
		}
	}()
	r.xmlDecode(n, t.t.Underlying().(*types.Pointer).Elem(), p)
	return Iface{}
}

func (r *Run) xmlScalar(s string, t types.Type, p *Value) {
	ti := infoOf(t)
	switch ti.k {
	case kString:
		*p = s
	case kInt, kUint:
		if s = strings.TrimSpace(s); s == "" {
			*p = int64(0)
			return
		}
		x, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(decodeErr{err.Error()})
		}
		*p = norm(x, ti)
	case kFloat:
		s = strings.TrimSpace(s)
		if tk := r.tokenOf(s); tk != nil {
			*p = fval(tk)
			return
		}
		tp := r.parseFloat(s).(Tuple)
		if tp[1].(Iface).t != nil {
			panic(decodeErr{"invalid float"})
		}
		*p = tp[0]
	case kBool:
		b, err := strconv.ParseBool(strings.TrimSpace(s))
		if err != nil {
			panic(decodeErr{err.Error()})
		}
		*p = b
	default:
		panic(unsupported{"xml decode into " + t.String()})
	}
}

func (r *Run) xmlDecode(n *xnode, t types.Type, p *Value) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if (*p).(*Value) == nil {
			q := new(Value)
			*q = zero(u.Elem())
			*p = q
		}
		r.xmlDecode(n, u.Elem(), (*p).(*Value))
	case *types.Slice:
		if infoOf(u.Elem()).w == 8 && infoOf(u.Elem()).k == kUint {
			*p = bytesVal([]byte(n.text))
			return
		}
		q := new(Value)
		*q = zero(u.Elem())
		r.xmlDecode(n, u.Elem(), q)
		*p = appendVals(sl(*p), []Value{*q}, u.Elem())
	case *types.Struct:
		s := (*p).(Struct)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			tag := reflect.StructTag(u.Tag(i)).Get("xml")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			if name == "" {
				name = f.Name()
			}
			mode := ""
			for _, o := range parts[1:] {
				if o == "attr" || o == "chardata" {
					mode = o
				} else if o != "omitempty" {
					panic(unsupported{"xml tag " + tag})
				}
			}
			if f.Name() == "XMLName" {
				if parts[0] != "" && parts[0] != n.name {
					panic(decodeErr{fmt.Sprintf("expected element type <%s> but have <%s>", parts[0], n.name)})
				}
				continue
			}
			switch mode {
			case "attr":
				if v, ok := n.attrs[name]; ok {
					r.xmlScalar(v, f.Type(), &s[i])
				}
			case "chardata":
				r.xmlScalar(n.text, f.Type(), &s[i])
			default:
				path := strings.Split(name, ">")
				var walk func(n *xnode, path []string)
				walk = func(n *xnode, path []string) {
					for _, k := range n.kids {
						if k.name != path[0] {
							continue
						}
						if len(path) == 1 {
							r.xmlDecode(k, f.Type(), &s[i])
						} else {
							walk(k, path[1:])
						}
					}
				}
				walk(n, path)
			}
		}
	default:
		r.xmlScalar(n.text, t, p)
	}
}
