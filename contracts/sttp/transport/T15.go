package transport

//verif:with common_ds.go

// T15: the operational modes requested from the publisher.

func contract_T15_modes(version byte, payload, metadata, index, udp bool) {
	ds, s := vpSubscriber()
	ds.Version = version
	ds.CompressPayloadData = payload
	ds.CompressMetadata = metadata
	ds.CompressSignalIndexCache = index
	ds.subscription.UdpDataChannel = udp
	ds.sendOperationalModes()
	b := s.conn.last
	vpEnsures("command", s.conn.writes == 1 && len(b) == 9 && b[3] == 5 && b[4] == 0x06)
	m := uint32(b[5])<<24 | uint32(b[6])<<16 | uint32(b[7])<<8 | uint32(b[8])
	want := uint32(version) | 0x0200
	if version < 10 {
		want |= 0x20
	}
	if payload && !udp {
		want |= 0x20000000
		if version < 10 {
			want |= 0x40
		}
	}
	if index {
		want |= 0x40000000
	}
	if metadata {
		want |= 0x80000000
	}
	vpEnsures("modes", m == want)
}
