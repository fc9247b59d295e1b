// Package catalog lists the schema families the codec worlds run on. It is
// used both by the emitter (which writes the Go types) and by the workers
// (which need the same schemas as oracles): a pure function of the seed.
package catalog

import (
	"fmt"
	"strings"

	"verif/pm"
)

// Catalog is everything emitted into package gentypes.
type Catalog struct {
	Codec    []*pm.Family   // valid types
	Versions [][]*pm.Family // evolution histories; [i][0] is the full version
	Mixed    []*pm.Family   // valid and malformed types referring to each other; the last is a swarm of small valid ones
}

func (c *Catalog) All() []*pm.Family {
	var out []*pm.Family
	out = append(out, c.Codec...)
	for _, v := range c.Versions {
		out = append(out, v...)
	}
	return append(out, c.Mixed...)
}

// bad definitions: each makes every message that reaches it unusable. %d is
// the field number.
var bad = []string{
	"F%[1]d [][]int32 `protobuf:\"varint,%[1]d,rep,name=f%[1]d\"`",
	"F%[1]d **int32 `protobuf:\"varint,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d string `protobuf:\"varint,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d int32 `protobuf:\"bytes,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d int64 `protobuf:\"fixed32,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d uint32 `protobuf:\"zigzag32,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d int32 `protobuf:\"varint,%[1]d,rep,name=f%[1]d\"`",
	"F%[1]d int32 `protobuf:\"varint,%[1]d,opt,name=f%[1]d,packed\"`",
	"F%[1]d []string `protobuf:\"bytes,%[1]d,rep,name=f%[1]d,packed\"`",
	"F%[1]d int16 `protobuf:\"varint,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d complex128 `protobuf:\"fixed64,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d map[int32]string `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\" protobuf_key:\"varint,1,opt,name=key\" protobuf_val:\"varint,2,opt,name=value\"`",
	"F%[1]d map[string]int32 `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\" protobuf_key:\"varint,1,opt,name=key\" protobuf_val:\"varint,2,opt,name=value\"`",
	"F%[1]d map[int32]int32 `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\" protobuf_val:\"varint,2,opt,name=value\"`",
	"F%[1]d map[int32]int32 `protobuf:\"bytes,%[1]d,opt,name=f%[1]d\" protobuf_key:\"varint,1,opt,name=key\" protobuf_val:\"varint,2,opt,name=value\"`",
	"F%[1]d *struct{} `protobuf:\"group,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d int32 `protobuf:\"int,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]da int32 `protobuf:\"varint,%[1]d,opt,name=f%[1]d\"`\n\tF%[1]db int32 `protobuf:\"varint,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d int32 `protobuf:\"varint,99999999999%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d []map[int32]int32 `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\"`",
	"F%[1]da int32 `protobuf:\"varint,77%[1]d,opt,name=f%[1]d\"`\n\tF%[1]d string `protobuf:\"bytes,%[1]d,opt,name=fb%[1]d\"`\n\tF%[1]db int32 `protobuf:\"varint,77%[1]d,opt,name=f%[1]db\"`",
	"F%[1]da int32 `protobuf:\"varint,777%[1]d,opt,name=f%[1]d\"`\n\tF%[1]db []byte `protobuf:\"bytes,777%[1]d,opt,name=f%[1]db\"`",
	"F%[1]d []*int32 `protobuf:\"varint,%[1]d,rep,name=f%[1]d\"`",
	"F%[1]d []*uint64 `protobuf:\"fixed64,%[1]d,rep,name=f%[1]d,packed\"`",
	"F%[1]d []*string `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\"`",
	"F%[1]d []*[]byte `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\"`",
	"F%[1]d []int32 `protobuf:\"varint,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d *[]string `protobuf:\"bytes,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d map[string]*int32 `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\" protobuf_key:\"bytes,1,opt,name=key\" protobuf_val:\"varint,2,opt,name=value\"`",
	"F%[1]d map[int32][]int32 `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\" protobuf_key:\"varint,1,opt,name=key\" protobuf_val:\"varint,2,opt,name=value\"`",
	"F%[1]d map[int32]*[]byte `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\" protobuf_key:\"varint,1,opt,name=key\" protobuf_val:\"bytes,2,opt,name=value\"`",
	"F%[1]d map[*int32]int32 `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\" protobuf_key:\"varint,1,opt,name=key\" protobuf_val:\"varint,2,opt,name=value\"`",
	"F%[1]d map[int32]map[int32]int32 `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\" protobuf_key:\"varint,1,opt,name=key\" protobuf_val:\"bytes,2,opt,name=value\"`",
	"F%[1]d *map[string]string `protobuf:\"bytes,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d *map[string]string `protobuf:\"bytes,%[1]d,rep,name=f%[1]d\" protobuf_key:\"bytes,1,opt,name=key\" protobuf_val:\"bytes,2,opt,name=value\"`",
	"F%[1]d func() `protobuf:\"bytes,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d [4]byte `protobuf:\"bytes,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d any `protobuf:\"bytes,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d [][]byte `protobuf:\"bytes,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d int32 `protobuf:\"varint\"`",
	"F%[1]d int32 `protobuf:\"varint,-%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d int32 `protobuf:\"varint,0,opt,name=f%[1]d\"`",
	"F%[1]d int32 `protobuf:\"varint,536870912,opt,name=f%[1]d\"`",
	"F%[1]d float64 `protobuf:\"varint,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d bool `protobuf:\"zigzag32,%[1]d,opt,name=f%[1]d\"`",
	"F%[1]d []uint32 `protobuf:\"zigzag64,%[1]d,rep,name=f%[1]d,packed\"`",
	"F%[1]d int `protobuf:\"varint,%[1]d,opt,name=f%[1]d\"`",
	"O%[1]d is@_O%[1]d `protobuf_oneof:\"o%[1]d\"` // notag\x00type is@_O%[1]d interface{ is@_O%[1]d() }\n\ntype @_W%[1]d struct{ A int32 }\n\nfunc (*@_W%[1]d) is@_O%[1]d() {}\x00(*@_W%[1]d)(nil)",
	"O%[1]d is@_O%[1]d `protobuf_oneof:\"o%[1]d\"` // by value\x00type is@_O%[1]d interface{ is@_O%[1]d() }\n\ntype @_W%[1]d struct { A int32 `protobuf:\"varint,%[1]d,opt,name=a,oneof\"` }\n\nfunc (@_W%[1]d) is@_O%[1]d() {}\x00@_W%[1]d{}",
	"O%[1]d is@_O%[1]d `protobuf_oneof:\"o%[1]d\"` // two fields\x00type is@_O%[1]d interface{ is@_O%[1]d() }\n\ntype @_W%[1]d struct { A int32 `protobuf:\"varint,%[1]d,opt,name=a,oneof\"`; B int32 }\n\nfunc (*@_W%[1]d) is@_O%[1]d() {}\x00(*@_W%[1]d)(nil)",
	"O%[1]d is@_O%[1]d `protobuf_oneof:\"o%[1]d\"` // list\x00type is@_O%[1]d interface{ is@_O%[1]d() }\n\ntype @_W%[1]d struct { A []int32 `protobuf:\"varint,%[1]d,rep,name=a,oneof\"` }\n\nfunc (*@_W%[1]d) is@_O%[1]d() {}\x00(*@_W%[1]d)(nil)",
	"O%[1]d is@_O%[1]d `protobuf_oneof:\"o%[1]d\"` // no struct\x00type is@_O%[1]d interface{ is@_O%[1]d() }\n\ntype @_W%[1]d int\n\nfunc (*@_W%[1]d) is@_O%[1]d() {}\x00(*@_W%[1]d)(nil)",
	"O%[1]d is@_O%[1]d `protobuf_oneof:\"o%[1]d\"` // nil\x00type is@_O%[1]d interface{ is@_O%[1]d() }\x00nil",
	"O%[1]d is@_O%[1]d `protobuf_oneof:\"o%[1]d\"` // no wrapper\x00type is@_O%[1]d interface{ is@_O%[1]d() }",
	"O%[1]d is@_O%[1]d `protobuf_oneof:\"o%[1]d\"` // number twice\x00type is@_O%[1]d interface{ is@_O%[1]d() }\n\ntype @_W%[1]d struct { A int32 `protobuf:\"varint,%[1]d,opt,name=a,oneof\"` }\n\ntype @_X%[1]d struct { A int32 `protobuf:\"varint,%[1]d,opt,name=b,oneof\"` }\n\nfunc (*@_W%[1]d) is@_O%[1]d() {}\n\nfunc (*@_X%[1]d) is@_O%[1]d() {}\x00(*@_W%[1]d)(nil), (*@_X%[1]d)(nil)",
	"O%[1]d is@_O%[1]d `protobuf_oneof:\"o%[1]d\"` // wrong kind\x00type is@_O%[1]d interface{ is@_O%[1]d() }\n\ntype @_W%[1]d struct { A string `protobuf:\"varint,%[1]d,opt,name=a,oneof\"` }\n\nfunc (*@_W%[1]d) is@_O%[1]d() {}\x00(*@_W%[1]d)(nil)",
}

// mixed makes a family in which some messages are malformed and many refer to
// each other, in cycles too.
func mixed(name string, seed uint64) *pm.Family {
	f := pm.GenFamily(name, seed, pm.FamilyOpts{Msgs: 3 + int(seed%4), MaxFields: 4, MsgW: 10, NoPtr: true})
	r := pm.NewRng(seed ^ 0xbad)
	nbad := 0
	for i, m := range f.Messages {
		if r.P(0.5) && i+1 < len(f.Messages) && len(m.Fields) < 6 { // denser references, cyclic
			t := f.Messages[r.N(len(f.Messages))]
			n := freeNum(m, r)
			m.Fields = append(m.Fields, &pm.Field{Num: n, Name: fmt.Sprintf("f%d", n), GoName: fmt.Sprintf("F%d", n), Kind: pm.Message_,
				Card: []pm.Card{pm.Implicit, pm.Repeated}[r.N(2)], Msg: t})
		}
		if r.P(0.25) || nbad == 0 && i == len(f.Messages)-1 {
			nbad++
			n := freeNum(m, r)
			if r.P(0.3) {
				n = []int32{1000, 1001, 1002, 4711, 1<<29 - 1}[r.N(5)]
			}
			if m.Field(n) != nil || n < 100 && r.P(0.15) && len(m.Fields) > 0 { // a number twice
				n = m.Fields[r.N(len(m.Fields))].Num
				x := &pm.Field{Num: n, Name: fmt.Sprintf("g%d", n), GoName: fmt.Sprintf("G%d", n), Kind: pm.Int32}
				x.Bad = fmt.Sprintf("G%[1]d int32 `protobuf:\"varint,%[1]d,opt,name=g%[1]d\"`", n)
				m.Fields = append(m.Fields, x)
				m.Reindex()
				continue
			}
			x := &pm.Field{Num: n, Name: fmt.Sprintf("f%d", n), GoName: fmt.Sprintf("F%d", n), Kind: pm.Int32}
			def := strings.Split(fmt.Sprintf(bad[(int(seed)*5+nbad)%len(bad)], n), "\x00")
			x.Bad = def[0]
			if len(def) > 1 {
				x.BadDef = def[1]
			}
			if len(def) > 2 {
				x.BadOne = def[2]
			}
			at := r.N(len(m.Fields) + 1)
			for at > 0 && at < len(m.Fields) && m.Fields[at].Card == pm.Oneof {
				at--
			}
			m.Fields = append(m.Fields[:at], append([]*pm.Field{x}, m.Fields[at:]...)...)
		}
		m.Reindex()
	}
	return f
}

// swarm makes many small messages which differ little.
func swarm(name string, seed uint64, n int) *pm.Family {
	r := pm.NewRng(seed)
	f := &pm.Family{Name: name}
	kinds := []pm.Kind{pm.Int32, pm.Uint32, pm.Sint32, pm.Fixed32, pm.Sfixed32, pm.Float, pm.Bool, pm.Enum, pm.Int64, pm.Sint64, pm.String, pm.Bytes}
	for i := 0; i < n; i++ {
		m := &pm.Message{Name: fmt.Sprintf("%sM%d", name, i), Style: r.N(2), Unk: []pm.UnkMode{pm.UnkNone, pm.UnkBytes}[r.Pick(5, 1)]}
		m.GoName = m.Name
		for k, num := 1+r.Pick(4, 3, 1), int32(0); k > 0; k-- {
			num += int32(1 + r.Pick(6, 1))
			m.Fields = append(m.Fields, &pm.Field{Num: num, Name: fmt.Sprintf("f%d", num), GoName: fmt.Sprintf("F%d", num), Kind: kinds[r.N(len(kinds))],
				Card: []pm.Card{pm.Implicit, pm.Repeated}[r.Pick(8, 1)]})
		}
		m.Index()
		f.Messages = append(f.Messages, m)
	}
	return f
}

// chain makes a family of n messages each of which refers to the next one, so
// that a first use looks at all of them below it. With bad set the last one is
// malformed, otherwise it refers to some other one.
func chain(name string, seed uint64, n int, malformed bool) *pm.Family {
	r := pm.NewRng(seed)
	f := &pm.Family{Name: name}
	for i := 0; i < n; i++ {
		m := &pm.Message{Name: fmt.Sprintf("%sM%d", name, i), Style: r.N(2), Unk: []pm.UnkMode{pm.UnkNone, pm.UnkBytes}[r.Pick(5, 1)]}
		m.GoName = m.Name
		f.Messages = append(f.Messages, m)
	}
	for i, m := range f.Messages {
		add := func(x pm.Field) {
			n := freeNum(m, r)
			x.Num, x.Name, x.GoName = n, fmt.Sprintf("f%d", n), fmt.Sprintf("F%d", n)
			m.Fields = append(m.Fields, &x)
		}
		ref := func(t *pm.Message) {
			x := pm.Field{Kind: pm.Message_, Msg: t}
			switch r.Pick(5, 2, 1) {
			case 1:
				x.Card = pm.Repeated
			case 2:
				x.Card, x.Key = pm.Map, []pm.Kind{pm.String, pm.Int32, pm.Bool}[r.N(3)]
			}
			add(x)
		}
		if r.P(0.7) {
			add(pm.Field{Kind: []pm.Kind{pm.Int32, pm.Sint64, pm.String, pm.Fixed32}[r.N(4)], Card: []pm.Card{pm.Implicit, pm.Repeated}[r.Pick(3, 1)]})
		}
		if i+1 < n {
			ref(f.Messages[i+1])
		} else if malformed {
			add(pm.Field{Kind: pm.Int32})
			x := m.Fields[len(m.Fields)-1]
			x.Bad = fmt.Sprintf(bad[0], x.Num)
		} else {
			ref(f.Messages[r.N(n)])
		}
		m.Reindex()
	}
	return f
}

// sameNames gives the Go types of a family the names of another one's. They
// are in another package whose path ends in the same name.
func sameNames(f *pm.Family, as string) *pm.Family {
	f.Alt = true
	for _, m := range f.Messages {
		if !strings.HasPrefix(m.GoName, f.Name) {
			panic("GoName " + m.GoName)
		}
		m.GoName = as + strings.TrimPrefix(m.GoName, f.Name)
	}
	return f
}

func freeNum(m *pm.Message, r *pm.Rng) int32 {
	for {
		n := int32(1 + r.N(40))
		m.Reindex()
		if m.Field(n) == nil {
			return n
		}
	}
}

// New builds the catalogue. Part of it is fixed, part depends on the seed.
func New(seed uint64, extra int) *Catalog {
	c := &Catalog{}
	c.Codec = append(c.Codec, pm.Matrix("Mx"))
	for i := 0; i < 6+extra; i++ {
		s := uint64(1000 + i)
		if i >= 3 {
			s = seed*7919 + uint64(i)
		}
		c.Codec = append(c.Codec, pm.GenFamily(fmt.Sprintf("R%d", i), s, pm.FamilyOpts{Msgs: 4 + i%4, MaxFields: 6 + i%5, MsgW: 4 + i%3, NoPtr: i%2 == 0}))
	}
	for i := 0; i < 2; i++ {
		s := uint64(1100 + i)
		if i >= 1 {
			s = seed*7907 + uint64(i)
		}
		c.Codec = append(c.Codec, sameNames(pm.GenFamily(fmt.Sprintf("S%d", i), s, pm.FamilyOpts{Msgs: 4 + i%4, MaxFields: 8, MsgW: 4, NoPtr: true}), fmt.Sprintf("R%d", i)))
	}
	for i := 0; i < 4+extra; i++ {
		s := uint64(2000 + i)
		if i >= 2 {
			s = seed*104729 + uint64(i)
		}
		f := pm.GenFamily(fmt.Sprintf("V%d", i), s, pm.FamilyOpts{Msgs: 4 + i%3, MaxFields: 8, MsgW: 5, NoPtr: i%3 == 2, AllUnk: true})
		c.Versions = append(c.Versions, pm.Versions(f, s+1, 4, []float64{0.7, 0.45, 0.85, 0.6}[i%4]))
	}
	for i := 0; i < 40+4*extra; i++ {
		s := uint64(3000 + i)
		if i >= 20 {
			s = seed*15485863 + uint64(i)
		}
		c.Mixed = append(c.Mixed, mixed(fmt.Sprintf("B%d", i), s))
		if i%3 == 0 {
			c.Mixed = append(c.Mixed, sameNames(mixed(fmt.Sprintf("D%d", i), s+7), fmt.Sprintf("B%d", i)))
		}
	}
	c.Mixed = append(c.Mixed, chain("L", 5100, 70, false), chain("E", 5200, 40, true), swarm("Q", 5000, 1400))
	return c
}

// Valid reports whether no malformed definition is reachable from m.
func Valid(m *pm.Message) bool {
	seen := map[*pm.Message]bool{}
	var visit func(m *pm.Message) bool
	visit = func(m *pm.Message) bool {
		if seen[m] {
			return true
		}
		seen[m] = true
		for _, f := range m.Fields {
			if f.Bad != "" {
				return false
			}
			if f.Msg != nil && !visit(f.Msg) {
				return false
			}
		}
		return true
	}
	return visit(m)
}
