package bind

import (
	"sort"

	"verif/pm"
)

// CheckTags compares the struct tags of every bound type with the schema:
// encoding, label, packing, name and map entry types.
func (b *Binder) CheckTags() {
	var ms []*pm.Message
	for m := range b.shapes {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].Name < ms[j].Name })
	for _, m := range ms {
		s := b.shapes[m]
		nums := map[int32]string{}
		for i := 0; i < s.T.NumField(); i++ {
			sf := s.T.Field(i)
			if tag := sf.Tag.Get("protobuf"); tag != "" {
				n := tagNum(tag)
				if m.Field(n) == nil {
					b.problem("message %s: Go field %s has number %d, which the schema does not have", m.Name, sf.Name, n)
				}
				if o := nums[n]; o != "" {
					b.problem("message %s: Go fields %s and %s have the same number %d", m.Name, o, sf.Name, n)
				}
				nums[n] = sf.Name
			}
		}
		for _, f := range m.Fields {
			fs := s.F[f.Num]
			if fs == nil {
				continue
			}
			sf := s.T.Field(fs.Index)
			if fs.W != nil {
				sf = fs.W.Field(0)
			}
			if e := pm.TagProblem(f, sf.Tag.Get("protobuf"), sf.Tag.Get("protobuf_key"), sf.Tag.Get("protobuf_val")); e != "" {
				b.problem("message %s field %s (#%d, %s): %s (tag %q)", m.Name, f.Name, f.Num, f, e, string(sf.Tag))
			}
		}
	}
}
