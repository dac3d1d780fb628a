package main

import (
	"bytes"
	"fmt"
)

// Binary AndroidManifest.xml writer.

type ManifestSpec struct {
	Min     int32  `json:"min,omitempty"`
	Target  int32  `json:"target,omitempty"`
	Sandbox int32  `json:"sandbox,omitempty"`
	Mode    string `json:"mode,omitempty"` // "", "garbage", "truncated", "badattr", "badtarget"
	Deflate bool   `json:"deflate,omitempty"`
	Ver     int    `json:"ver,omitempty"`
	Hex     int    `json:"hex,omitempty"` // which versions are hexadecimal: 1 sandbox, 2 minimum, 4 target
	Str     int    `json:"str,omitempty"` // which versions are strings
	Lay     int    `json:"lay,omitempty"` // 1 elements in front of uses-sdk, 2 attributes reversed, 4 uses-sdk last,
	// 8 elements of the same names where they mean nothing, 16 attributes of the same names but no namespace,
	// 32 attributes with resource ids, 64 and without their names
	Mut []Mut `json:"mut,omitempty"`
}

func axmlBytes(m *ManifestSpec) []byte {
	if m.Mode == "garbage" {
		return filler(0xabcdef, 200)
	}
	resNames := []string{"minSdkVersion", "targetSdkVersion", "targetSandboxVersion", "name"}
	resIds := []uint32{0x0101020c, 0x01010270, 0x0101054c, 0x01010003}
	strs := []string{"android", "http://schemas.android.com/apk/res/android", "manifest", "package", "uses-sdk", "minSdkVersion", "targetSdkVersion",
		"targetSandboxVersion", "com.example.app" + string(rune('a'+m.Ver%26)), "application", "xx", "uses-permission", "name"}
	num := func(v int32) string { return fmt.Sprint(v) }
	other := func(v, a, b int32) int32 { // what the decoys say
		if v == a {
			return b
		}
		return a
	}
	oSandbox, oMin, oTarget := other(m.Sandbox, 2, 1), other(m.Min, 24, 1), other(m.Target, 30, 22)
	if m.Target > 30 {
		oTarget = 22
	}
	strs = append(strs, num(m.Sandbox), num(m.Min), num(m.Target))
	mapped := 0
	if m.Lay&32 != 0 {
		mapped = len(resNames)
		names := append([]string(nil), resNames...)
		if m.Lay&64 != 0 {
			for i := range names {
				names[i] = "\x00" + names[i] // written as an empty name
			}
		}
		strs = append(names, strs...)
	}
	idx := func(s string) uint32 {
		for i := 0; i < mapped; i++ {
			if s == resNames[i] {
				return uint32(i)
			}
		}
		for i, x := range strs[mapped:] {
			if x == s {
				return uint32(mapped + i)
			}
		}
		panic(s)
	}
	plain := func(s string) uint32 { // the name without a resource id
		for i, x := range strs[mapped:] {
			if x == s {
				return uint32(mapped + i)
			}
		}
		panic(s)
	}
	const none = 0xffffffff
	// string pool, UTF-16
	var sd bytes.Buffer
	var offs []uint32
	for _, s := range strs {
		if s[0] == 0 {
			s = ""
		}
		offs = append(offs, uint32(sd.Len()))
		sd.Write(le16(len(s)))
		for i := 0; i < len(s); i++ {
			sd.Write([]byte{s[i], 0})
		}
		sd.Write([]byte{0, 0})
	}
	for sd.Len()%4 != 0 {
		sd.WriteByte(0)
	}
	var sp bytes.Buffer
	hdr := 28
	sp.Write(le16(1))
	sp.Write(le16(hdr))
	sp.Write(le32(uint32(hdr + 4*len(offs) + sd.Len())))
	sp.Write(le32(uint32(len(strs))))
	sp.Write(le32(0))
	sp.Write(le32(0))
	sp.Write(le32(uint32(hdr + 4*len(offs))))
	sp.Write(le32(0))
	for _, o := range offs {
		sp.Write(le32(o))
	}
	sp.Write(sd.Bytes())

	if mapped > 0 {
		sp.Write(le16(0x180))
		sp.Write(le16(8))
		sp.Write(le32(uint32(8 + 4*mapped)))
		for _, id := range resIds {
			sp.Write(le32(id))
		}
	}

	var body bytes.Buffer
	chunk := func(t int, payload []byte) {
		body.Write(le16(t))
		body.Write(le16(16))
		body.Write(le32(uint32(16 + len(payload))))
		body.Write(le32(1))
		body.Write(le32(none))
		body.Write(payload)
	}
	var ns bytes.Buffer
	ns.Write(le32(idx("android")))
	ns.Write(le32(1))
	chunk(0x100, ns.Bytes())
	type attr struct {
		ns   uint32
		name string
		str  string
		val  int32
		typ  byte
	}
	start := func(name string, attrs []attr) {
		var p bytes.Buffer
		p.Write(le32(none))
		p.Write(le32(idx(name)))
		p.Write(le16(20))
		p.Write(le16(20))
		p.Write(le16(len(attrs)))
		p.Write(le16(0))
		p.Write(le16(0))
		p.Write(le16(0))
		for _, a := range attrs {
			p.Write(le32(a.ns))
			if a.ns == none {
				p.Write(le32(plain(a.name)))
			} else {
				p.Write(le32(idx(a.name)))
			}
			if a.typ == 0 {
				a.typ = 0x10
			}
			if a.str != "" {
				p.Write(le32(idx(a.str)))
				p.Write(le16(8))
				p.Write([]byte{0, 3})
				p.Write(le32(idx(a.str)))
			} else {
				p.Write(le32(none))
				p.Write(le16(8))
				p.Write([]byte{0, a.typ})
				p.Write(le32(uint32(a.val)))
			}
		}
		chunk(0x102, p.Bytes())
	}
	end := func(name string) {
		var p bytes.Buffer
		p.Write(le32(none))
		p.Write(le32(idx(name)))
		chunk(0x103, p.Bytes())
	}
	ver := func(bit int, name string, v int32) attr {
		a := attr{1, name, "", v, 0x10}
		if m.Hex&bit != 0 {
			a.typ = 0x11
		} else if m.Str&bit != 0 {
			a.str = num(v)
		}
		return a
	}
	rev := func(as []attr) []attr {
		if m.Lay&2 != 0 {
			for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
				as[i], as[j] = as[j], as[i]
			}
		}
		return as
	}
	pkg := strs[mapped+8]
	decoy := func(as []attr, more ...attr) []attr {
		if m.Lay&16 != 0 {
			for i := range more {
				more[i].ns = none
			}
			as = append(more, as...)
		}
		return as
	}
	elsewhere := func() {
		if m.Lay&8 != 0 {
			start("manifest", []attr{{1, "targetSandboxVersion", "", oSandbox, 0}})
			start("uses-sdk", []attr{{1, "minSdkVersion", "", oMin, 0}, {1, "targetSdkVersion", "", oTarget, 0}})
			end("uses-sdk")
			end("manifest")
			start("application", nil)
			start("uses-sdk", []attr{{1, "targetSdkVersion", "", oTarget, 0}})
			end("uses-sdk")
			end("application")
		}
	}
	ma := []attr{{none, "package", pkg, 0, 0}}
	if m.Sandbox != 0 {
		ma = append([]attr{ver(1, "targetSandboxVersion", m.Sandbox)}, ma...)
	}
	ma = decoy(ma, attr{0, "targetSandboxVersion", "", oSandbox, 0})
	start("manifest", rev(ma))
	if m.Lay&1 != 0 {
		start("uses-permission", []attr{{1, "name", pkg, 0, 0}})
		end("uses-permission")
	}
	if m.Lay&4 != 0 {
		start("application", nil)
		end("application")
	}
	elsewhere()
	var ua []attr
	if m.Mode == "badattr" {
		ua = append(ua, attr{1, "minSdkVersion", "xx", 0, 0})
	} else if m.Min != 0 {
		ua = append(ua, ver(2, "minSdkVersion", m.Min))
	}
	if m.Mode == "badtarget" {
		ua = append(ua, attr{1, "targetSdkVersion", "xx", 0, 0})
	} else if m.Target != 0 {
		ua = append(ua, ver(4, "targetSdkVersion", m.Target))
	}
	if len(ua) > 0 {
		ua = decoy(ua, attr{0, "minSdkVersion", "", oMin, 0}, attr{0, "targetSdkVersion", "", oTarget, 0})
		start("uses-sdk", rev(ua))
		end("uses-sdk")
	}
	if m.Lay&4 == 0 {
		start("application", nil)
		end("application")
	}
	end("manifest")
	var en bytes.Buffer
	en.Write(le32(idx("android")))
	en.Write(le32(1))
	chunk(0x101, en.Bytes())

	total := 8 + sp.Len() + body.Len()
	out := append(le16(3), le16(8)...)
	out = append(out, le32(uint32(total))...)
	out = append(out, sp.Bytes()...)
	out = append(out, body.Bytes()...)
	if m.Mode == "truncated" {
		out = out[:len(out)*2/3]
	}
	return out
}
