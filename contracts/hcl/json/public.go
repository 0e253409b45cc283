package json

import (
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

//vc:for Parse
//vc:props P06,P24
func vc_pubParse(src []byte, filename string) {
	vc.Ensures("file", func(f *hcl.File, d hcl.Diagnostics) bool {
		return f != nil && vc.Fresh(f) && vc.Same(f.Bytes, src) && f.Body != nil
	})
}

//vc:for ParseFile
//vc:props P06,P24
func vc_pubParseFile(filename string) {
	vc.Ensures("file", func(f *hcl.File, d hcl.Diagnostics) bool {
		return (f == nil || vc.Fresh(f)) && (f != nil || hcl.VC_AnyError(d))
	})
}

