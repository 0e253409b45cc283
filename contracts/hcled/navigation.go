package hcled

import (
	"github.com/hashicorp/hcl2/hcl"
	vc "github.com/hashicorp/hcl2/zz_vc"
)

//vc:for ContextString
//vc:props P22
func vc_ContextString(file *hcl.File, offset int) {
	vc.Requires("file", file != nil)
	vc.Ensures("absent", func(r string) bool { return vc.Implies(file.Nav == nil, r == "") })
}

//vc:for ContextDefRange
//vc:props P22
func vc_ContextDefRange(file *hcl.File, offset int) {
	vc.Requires("file", file != nil && file.Body != nil)
}
