package catalog

import (
	"fmt"

	"verif/psrc"
)

// SvcSet is the schema projects of the service worlds, as text for prutalgen
// and as reference schemas for the oracle: a pure function of the seed.
type SvcSet struct {
	Codec    []*psrc.Project
	Versions [][]*psrc.Project // [i][0] is the full version
}

// Base is the import path below which a project's packages live.
func Base(name string) string { return "verif/gensvc/" + name }

// SvcProjects makes the projects. Part of them is fixed, part depends on the seed.
func SvcProjects(seed uint64, extra int) *SvcSet {
	s := &SvcSet{}
	for i := 0; i < 40+8*extra; i++ {
		ps := uint64(5000 + i)
		if i >= 10 {
			ps = seed*6700417 + uint64(i)
		}
		n := fmt.Sprintf("s%d", i)
		s.Codec = append(s.Codec, psrc.Gen(n, ps, psrc.Opts{Base: Base(n), Files: 2 + i%4, Msgs: 2 + i%3, Fields: 6 + i%5}))
	}
	for i := 0; i < 8+extra; i++ {
		ps := uint64(6000 + i)
		if i >= 2 {
			ps = seed*2147483647 + uint64(i)
		}
		n := fmt.Sprintf("u%d", i)
		full := psrc.Gen(n, ps, psrc.Opts{Base: Base(n), Files: 2 + i%3, Msgs: 2, Fields: 7, AllUnk: true})
		h := []*psrc.Project{full}
		for v := 1; v < 4; v++ {
			vn := fmt.Sprintf("%sv%d", n, v)
			h = append(h, full.Derive(vn, Base(vn), ps+uint64(v), []float64{0.7, 0.45, 0.85}[v-1]))
		}
		s.Versions = append(s.Versions, h)
	}
	return s
}

// All lists every project.
func (s *SvcSet) All() []*psrc.Project {
	out := append([]*psrc.Project(nil), s.Codec...)
	for _, h := range s.Versions {
		out = append(out, h...)
	}
	return out
}

// Svc is the catalogue of the projects' messages.
func Svc(seed uint64, extra int) *Catalog {
	s := SvcProjects(seed, extra)
	c := &Catalog{}
	for _, p := range s.Codec {
		c.Codec = append(c.Codec, p.Fam)
	}
	for _, h := range s.Versions {
		n := len(c.Versions)
		c.Versions = append(c.Versions, nil)
		for _, p := range h {
			c.Versions[n] = append(c.Versions[n], p.Fam)
		}
	}
	return c
}
