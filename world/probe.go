package world

import (
	"fmt"
	"reflect"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/zzverif"

	"verif/bind"
	"verif/pm"
)

// RunProbe runs the exact failing input of a recorded finding (see
// known-findings.txt). It reports a violation of class "known" if the defect is
// still there.
func RunProbe(ty *Types, p *Plan) *Report {
	rep := &Report{Stats: map[string]int64{}}
	zzverif.Reset()
	switch k := p.Threads[0][0].K; k {
	case "optional-empty-bytes":
		for _, s := range ty.Codec {
			for _, f := range s.M.Fields {
				fs := s.F[f.Num]
				if f.Kind != pm.Bytes || f.Card != pm.Optional || fs == nil {
					continue
				}
				v := s.New()
				fv := v.Elem().Field(fs.Index)
				if fv.Kind() != reflect.Slice {
					continue
				}
				fv.Set(reflect.MakeSlice(fv.Type(), 0, 0))
				b, err := prutal.Marshal(v.Interface())
				if err == nil && len(b) == 0 {
					rep.Viol = append(rep.Viol, Violation{Class: "known", Detail: fmt.Sprintf("%s.%s set to an empty value encodes as absent", s.M.Name, f.Name)})
				}
				return rep
			}
		}
	case "split-message":
		for _, s := range ty.Codec {
			for _, f := range s.M.Fields {
				fs := s.F[f.Num]
				if f.Kind != pm.Message_ || f.Card == pm.Map || f.Card == pm.Oneof || f.IsList() || fs == nil || fs.Sub == nil {
					continue
				}
				if s.T.Field(fs.Index).Type.Kind() != reflect.Pointer {
					continue
				}
				var two []*bind.FShape // two fields of the nested message
				for _, g := range fs.Sub.M.Fields {
					gs := fs.Sub.F[g.Num]
					if gs != nil && (g.Kind == pm.Int32 || g.Kind == pm.Uint64 || g.Kind == pm.Int64) && (g.Card == pm.Implicit || g.Card == pm.Optional) {
						two = append(two, gs)
					}
				}
				if len(two) < 2 {
					continue
				}
				var in []byte
				for _, g := range two[:2] {
					e := append(pm.AppendVarint(nil, uint64(g.F.Num)<<3), 5)
					in = pm.AppendVarint(in, uint64(f.Num)<<3|2)
					in = append(pm.AppendVarint(in, uint64(len(e))), e...)
				}
				v := s.New()
				if prutal.Unmarshal(in, v.Interface()) != nil {
					continue
				}
				sub := v.Elem().Field(fs.Index)
				if !sub.IsNil() && sub.Elem().Field(two[0].Index).IsZero() {
					rep.Viol = append(rep.Viol, Violation{Class: "known", Detail: fmt.Sprintf("%s.%s sent in two pieces lost the first", s.M.Name, f.Name)})
				}
				return rep
			}
		}
	default:
		panic("unknown probe " + k)
	}
	return rep
}
