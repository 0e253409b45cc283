package hcl

import vc "github.com/hashicorp/hcl2/zz_vc"

//vc:for (*File).BlocksAtPos
//vc:props P22
func vc_FileBlocksAtPos(f *File, pos Pos) { vc.Requires("file", f != nil) }

//vc:for (*File).OutermostBlockAtPos
//vc:props P22
func vc_FileOutermostBlockAtPos(f *File, pos Pos) { vc.Requires("file", f != nil) }

//vc:for (*File).InnermostBlockAtPos
//vc:props P22
func vc_FileInnermostBlockAtPos(f *File, pos Pos) { vc.Requires("file", f != nil) }

//vc:for (*File).OutermostExprAtPos
//vc:props P22
func vc_FileOutermostExprAtPos(f *File, pos Pos) { vc.Requires("file", f != nil) }

//vc:for (*File).AttributeAtPos
//vc:props P22
func vc_FileAttributeAtPos(f *File, pos Pos) { vc.Requires("file", f != nil) }
