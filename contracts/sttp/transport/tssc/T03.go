package tssc

// T03: bits and 7-bit integers.

func contract_T03_u32(data []byte, pos int) {
	vpRequires(pos >= 0 && pos < len(data))
	n, want := 0, uint32(0)
	for i := 0; ; i++ {
		vpRequires(pos+i < len(data))
		b := data[pos+i]
		if i == 4 {
			want |= uint32(b) << 28
			n = 5
			break
		}
		want |= uint32(b&0x7F) << (7 * uint(i))
		if b < 128 {
			n = i + 1
			break
		}
	}
	p := pos
	v := decode7BitUInt32(data, &p)
	vpEnsures("value", v == want)
	vpEnsures("bytes consumed", p == pos+n)
}

func contract_T03_u64(data []byte, pos int) {
	vpRequires(pos >= 0 && pos < len(data))
	n, want := 0, uint64(0)
	for i := 0; ; i++ {
		vpRequires(pos+i < len(data))
		b := data[pos+i]
		if i == 8 {
			want |= uint64(b) << 56
			n = 9
			break
		}
		want |= uint64(b&0x7F) << (7 * uint(i))
		if b < 128 {
			n = i + 1
			break
		}
	}
	p := pos
	v := decode7BitUInt64(data, &p)
	vpEnsures("value", v == want)
	vpEnsures("bytes consumed", p == pos+n)
}

// bitAt is bit k of the bits still cached followed by the bytes at pos.
func bitAt(data []byte, pos int, count, cache int32, k int32) int32 {
	if k < count {
		return cache >> (count - 1 - k) & 1
	}
	k -= count
	return int32(data[pos+int(k/8)]>>(7-k%8)) & 1
}

func contract_T03_bits4(data []byte, pos int, count, cache int32) {
	bitsContract(data, pos, count, cache, 4)
}

func contract_T03_bits5(data []byte, pos int, count, cache int32) {
	bitsContract(data, pos, count, cache, 5)
}

func bitsContract(data []byte, pos int, count, cache int32, n int32) {
	vpRequires(pos >= 0 && pos < len(data) && count >= 0 && count < 8 && cache >= 0 && cache < 256)
	td := &Decoder{data: data, position: pos, lastPosition: len(data), bitStreamCount: count, bitStreamCache: cache}
	var got, want int32
	if n == 4 {
		got = td.readBits4()
	} else {
		got = td.readBits5()
	}
	for k := int32(0); k < n; k++ {
		want = want<<1 | bitAt(data, pos, count, cache, k)
	}
	vpEnsures("bits come most significant first", got == want)
	if count >= n {
		vpEnsures("bits left", td.bitStreamCount == count-n && td.position == pos && td.bitStreamCache == cache)
	} else {
		vpEnsures("bits left", td.bitStreamCount == count-n+8 && td.position == pos+1 && td.bitStreamCache == int32(data[pos]))
	}
}

func contract_T03_buffer(data []byte, count, cache int32) {
	td := NewDecoder()
	td.bitStreamCount, td.bitStreamCache = count, cache
	td.SetBuffer(data)
	vpEnsures("starts at the first byte with no bits pending", td.position == 0 && td.lastPosition == len(data) && td.bitStreamCount == 0)
	vpRequires(len(data) > 0)
	vpEnsures("first bit", td.readBit() == int32(data[0]>>7))
}
