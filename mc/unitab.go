package main

import "unicode"

// The lexer of the grammar has the letters of Unicode 15. These are the
// identifier characters of later versions, about which nothing is said.
var newer = [][2]rune{
	{0x88f, 0x88f}, {0xc5c, 0xc5c}, {0xcdc, 0xcdc}, {0x1c89, 0x1c8a}, {0xa7cb, 0xa7cf}, {0xa7d2, 0xa7d2}, {0xa7d4, 0xa7d4}, {0xa7da, 0xa7dc}, {0xa7f1, 0xa7f1}, {0x105c0, 0x105f3}, {0x10940, 0x10959}, {0x10d4a, 0x10d65}, {0x10d6f, 0x10d85}, {0x10ec2, 0x10ec7}, {0x11380, 0x11389}, {0x1138b, 0x1138b}, {0x1138e, 0x1138e}, {0x11390, 0x113b5}, {0x113b7, 0x113b7}, {0x113d1, 0x113d1}, {0x113d3, 0x113d3}, {0x11bc0, 0x11be0}, {0x11db0, 0x11ddb}, {0x13460, 0x143fa}, {0x16100, 0x1611d}, {0x16d40, 0x16d6c}, {0x16ea0, 0x16eb8}, {0x16ebb, 0x16ed3}, {0x16ff2, 0x16ff3}, {0x187f8, 0x187ff}, {0x18cff, 0x18cff}, {0x18d09, 0x18d1e}, {0x18d80, 0x18df2}, {0x1e5d0, 0x1e5ed}, {0x1e5f0, 0x1e5f0}, {0x1e6c0, 0x1e6de}, {0x1e6e0, 0x1e6e2}, {0x1e6e4, 0x1e6e5}, {0x1e6e7, 0x1e6ed}, {0x1e6f0, 0x1e6f4}, {0x1e6fe, 0x1e6ff}, {0x2b73a, 0x2b73f}, {0x2cea2, 0x2cead}, {0x2ebf0, 0x2ee5d}, {0x323b0, 0x33479},
	{0x897, 0x897}, {0x1acf, 0x1add}, {0x1ae0, 0x1aeb}, {0x10d69, 0x10d6d}, {0x10efa, 0x10efc}, {0x113bb, 0x113c0}, {0x113ce, 0x113ce}, {0x113d0, 0x113d0}, {0x113d2, 0x113d2}, {0x113e1, 0x113e2}, {0x11b60, 0x11b60}, {0x11b62, 0x11b64}, {0x11b66, 0x11b66}, {0x11f5a, 0x11f5a}, {0x1611e, 0x16129}, {0x1612d, 0x1612f}, {0x1e5ee, 0x1e5ef}, {0x1e6e3, 0x1e6e3}, {0x1e6e6, 0x1e6e6}, {0x1e6ee, 0x1e6ef}, {0x1e6f5, 0x1e6f5},
	{0x10d40, 0x10d49}, {0x116d0, 0x116e3}, {0x11bf0, 0x11bf9}, {0x11de0, 0x11de9}, {0x16130, 0x16139}, {0x16d70, 0x16d79}, {0x1ccf0, 0x1ccf9}, {0x1e5f1, 0x1e5fa},
}

func isNewer(r rune) bool {
	for _, x := range newer {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}
	// unassigned now: may be a letter later
	return r > 0x7f && !unicode.In(r, unicode.C, unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Z)
}

func identStart(r rune) bool {
	if r < 0x80 {
		return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r == '$'
	}
	return unicode.Is(unicode.L, r)
}

func identPart(r rune) bool {
	if r < 0x80 {
		return identStart(r) || r >= '0' && r <= '9' || r == '-'
	}
	return unicode.In(r, unicode.L, unicode.Mn, unicode.Nd, unicode.Pc) || r == 0x200c || r == 0x200d
}
