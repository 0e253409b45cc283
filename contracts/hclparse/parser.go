package hclparse

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

// vc_registry: there is a map, and it holds no nil file.
func vc_registry(files map[string]*hcl.File) bool {
	return files != nil && vc.All(func(k string) bool {
		f, has := files[k]
		return vc.Implies(has, f != nil)
	})
}

// vc_only: no entry but the one under the name has changed.
func vc_only(p *Parser, filename string) bool {
	return vc.All(func(k string) bool {
		f, has := p.files[k]
		return k == filename || vc.Old(func() bool {
			g, had := p.files[k]
			return has == had && f == g
		})
	})
}

// vc_unchanged: the entry under the name is as it was.
func vc_unchanged(p *Parser, filename string) bool {
	f, has := p.files[filename]
	return vc.Old(func() bool {
		g, had := p.files[filename]
		return has == had && f == g
	})
}

// vc_parsed: what every parse method promises.
func vc_parsed(p *Parser, filename string) {
	vc.Requires("registry", p != nil && vc_registry(p.files))
	vc.Modifies(p.files)
	files, known := p.files, p.files[filename]
	vc.Ensures("registry", func(r *hcl.File, d hcl.Diagnostics) bool { return vc.Same(p.files, files) && vc_registry(p.files) })
	vc.Ensures("others", func(r *hcl.File, d hcl.Diagnostics) bool { return vc_only(p, filename) })
	vc.Ensures("known", func(r *hcl.File, d hcl.Diagnostics) bool {
		return vc.Implies(known != nil, r == known && len(d) == 0 && vc_unchanged(p, filename))
	})
	vc.Ensures("recorded", func(r *hcl.File, d hcl.Diagnostics) bool {
		f, has := p.files[filename]
		return vc.Implies(r != nil, has && f == r)
	})
	vc.Ensures("unreadable", func(r *hcl.File, d hcl.Diagnostics) bool {
		return vc.Implies(r == nil, vc_unchanged(p, filename) && hcl.VC_AnyError(d))
	})
}

//vc:for NewParser
//vc:props P24
func vc_NewParser() {
	vc.Ensures("empty", func(p *Parser) bool { return p != nil && vc.Fresh(p) && vc_registry(p.files) && len(p.files) == 0 })
}

//vc:for (*Parser).ParseHCL
//vc:props P24
func vc_ParseHCL(p *Parser, src []byte, filename string) {
	hclsyntax.VC_ParseModifies()
	vc_parsed(p, filename)
	known := p.files[filename]
	vc.Ensures("file", func(r *hcl.File, d hcl.Diagnostics) bool {
		return r != nil && vc.Implies(known == nil, vc.Same(r.Bytes, src))
	})
}

//vc:for (*Parser).ParseHCLFile
//vc:props P24
func vc_ParseHCLFile(p *Parser, filename string) {
	hclsyntax.VC_ParseModifies()
	vc_parsed(p, filename)
}

//vc:for (*Parser).ParseJSON
//vc:props P24
func vc_ParseJSON(p *Parser, src []byte, filename string) {
	vc_parsed(p, filename)
	known := p.files[filename]
	vc.Ensures("file", func(r *hcl.File, d hcl.Diagnostics) bool {
		return r != nil && vc.Implies(known == nil, vc.Same(r.Bytes, src))
	})
}

//vc:for (*Parser).ParseJSONFile
//vc:props P24
func vc_ParseJSONFile(p *Parser, filename string) {
	vc_parsed(p, filename)
}

//vc:for (*Parser).AddFile
//vc:props P24
func vc_AddFile(p *Parser, filename string, file *hcl.File) {
	vc.Requires("registry", p != nil && vc_registry(p.files) && file != nil)
	vc.Modifies(p.files)
	files := p.files
	vc.Ensures("registry", func() bool { return vc.Same(p.files, files) && vc_registry(p.files) })
	vc.Ensures("others", func() bool { return vc_only(p, filename) })
	vc.Ensures("recorded", func() bool { f, has := p.files[filename]; return has && f == file })
}

//vc:for (*Parser).Sources
//vc:props P24
func vc_Sources(p *Parser) {
	vc.Requires("registry", p != nil && vc_registry(p.files))
	vc.Invariant("own", func(ret map[string][]byte) bool { return ret != nil && vc.Fresh(ret) })
	vc.Invariant("so-far", func(ret map[string][]byte) bool {
		return vc.All(func(k string) bool {
			_, has := ret[k]
			f, is := p.files[k]
			return has == vc.Visited(k) && vc.Implies(has, is && vc.Same(ret[k], f.Bytes))
		})
	})
	vc.Ensures("sources", func(ret map[string][]byte) bool {
		return ret != nil && vc.All(func(k string) bool {
			_, has := ret[k]
			f, is := p.files[k]
			return has == is && vc.Implies(has, vc.Same(ret[k], f.Bytes))
		})
	})
}

//vc:for (*Parser).Files
//vc:props P24
func vc_Files(p *Parser) {
	vc.Requires("registry", p != nil)
	vc.Ensures("files", func(r map[string]*hcl.File) bool { return vc.Same(r, p.files) })
}
