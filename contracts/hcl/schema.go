package hcl

import vc "github.com/hashicorp/hcl2/zz_vc"

// Vocabulary shared by the contracts of the body implementations.

func VC_OKDiags(d Diagnostics) bool {
	return vc.Forall(0, len(d), func(i int) bool { return d[i] != nil })
}

func VC_AnyError(d Diagnostics) bool {
	return vc.Exists(0, len(d), func(i int) bool { return d[i] != nil && d[i].Severity == DiagError })
}

// VC_AttrIdx is the index of the last of the first n attribute schemas with
// the name, or -1; VC_BlockIdx likewise for block types.
//
//vc:spec entry
func VC_AttrIdx(as []AttributeSchema, n int, name string) int { return -1 }

//vc:axiom
func vc_attrIdxDef() bool {
	return vc.All(func(as []AttributeSchema, n int, name string) bool {
		if n <= 0 {
			return VC_AttrIdx(as, n, name) == -1
		}
		if as[n-1].Name == name {
			return VC_AttrIdx(as, n, name) == n-1
		}
		return VC_AttrIdx(as, n, name) == VC_AttrIdx(as, n-1, name)
	})
}

//vc:spec entry
func VC_BlockIdx(bs []BlockHeaderSchema, n int, ty string) int { return -1 }

//vc:axiom
func vc_blockIdxDef() bool {
	return vc.All(func(bs []BlockHeaderSchema, n int, ty string) bool {
		if n <= 0 {
			return VC_BlockIdx(bs, n, ty) == -1
		}
		if bs[n-1].Type == ty {
			return VC_BlockIdx(bs, n, ty) == n-1
		}
		return VC_BlockIdx(bs, n, ty) == VC_BlockIdx(bs, n-1, ty)
	})
}

// VC_InSchema: the schema mentions an attribute of the name.
func VC_InSchema(schema *BodySchema, name string) bool {
	return VC_AttrIdx(schema.Attributes, len(schema.Attributes), name) >= 0
}

// VC_DupAttr: the schema names an attribute twice.
func VC_DupAttr(schema *BodySchema) bool {
	return vc.Exists(0, len(schema.Attributes), func(i int) bool {
		return VC_AttrIdx(schema.Attributes, i, schema.Attributes[i].Name) >= 0
	})
}

// VC_WantedMap: the map holds the first n block schemas by type.
func VC_WantedMap(m map[string]BlockHeaderSchema, schema *BodySchema, n int) bool {
	return vc.All(func(k string) bool {
		s, ok := m[k]
		j := VC_BlockIdx(schema.Blocks, n, k)
		return ok == (j >= 0) && vc.Implies(ok, j < n && len(s.LabelNames) == len(schema.Blocks[j].LabelNames))
	})
}
