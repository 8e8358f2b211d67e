package guid

func contract_G01_fromBytes(data []byte, swap bool) {
	vpRequires(len(data) >= 16)
	before := vpMake(16, func(i int) byte { return data[i] })
	g, err := FromBytes(data, swap)
	vpEnsures("no error for 16 or more bytes", err == nil)
	for i := 0; i < 16; i++ {
		vpEnsures("each byte comes from its wire position", g[i] == before[wireIndex(i, swap)])
		vpEnsures("the input is left unchanged", data[i] == before[i])
	}
}

func wireIndex(i int, swap bool) int {
	if !swap {
		return i
	}
	return [16]int{3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15}[i]
}

func contract_G01_short(data []byte, swap bool) {
	vpRequires(len(data) < 16)
	g, err := FromBytes(data, swap)
	vpEnsures("short input is an error", err != nil)
	vpEnsures("short input yields the empty Guid", g == Guid{})
}

func contract_G01_roundTrip(g Guid, swap bool) {
	b := g.ToBytes(swap)
	vpEnsures("wire form has 16 bytes", len(b) == 16)
	for i := 0; i < 16; i++ {
		vpEnsures("each wire byte comes from its position", b[i] == g[wireIndex(i, swap)])
	}
	h, err := FromBytes(b, swap)
	vpEnsures("wire form decodes", err == nil)
	vpEnsures("wire form decodes to the same Guid", h == g)
}
