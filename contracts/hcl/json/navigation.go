package json

import vc "github.com/hashicorp/hcl2/zz_vc"

// vc_allBuilt: what the parser builds, at any depth.
func vc_allBuilt() bool {
	return vc.All(func(o *objectVal, i int) bool {
		return vc.Implies(o != nil && 0 <= i && i < len(o.Attrs), o.Attrs[i] != nil && vc_built(o.Attrs[i].Value))
	}) && vc.All(func(a *arrayVal, i int) bool {
		return vc.Implies(a != nil && 0 <= i && i < len(a.Values), vc_built(a.Values[i]))
	})
}

//vc:for navigationStepsRev
//vc:props P22
func vc_navigationStepsRev(v node, offset int) {
	vc.Requires("built", vc_built(v) && vc_allBuilt())
	vc.Ensures("own", func(r []string) bool { return r == nil || vc.Fresh(r) })
}

//vc:for navigation.ContextString
//vc:props P22
func vc_ContextString(n navigation, offset int) {
	vc.Requires("built", vc_built(n.root) && vc_allBuilt())
}
