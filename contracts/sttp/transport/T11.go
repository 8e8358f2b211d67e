package transport

//verif:with common_ds.go

// T11: framing of commands sent to the publisher: the size of what follows,
// the command code, the payload.

//verif:syncgo
func contract_T11_frame(code byte, data []byte, j int, fail bool) {
	vpRequires(0 <= j && j < len(data))
	ds, s := vpSubscriber()
	s.conn.fail = fail
	vpInvariant(func(i int) bool { return j >= i || vpAt(ds.writeBuffer, 5+j) == vpAt(data, j) })
	vpInvariant(func(i int) bool { return i <= len(data) })
	old := data[j]
	ds.SendServerCommandWithPayload(ServerCommandEnum(code), data)
	vpSettle(func() bool { return s.terminated == fail })
	vpEnsures("a failed send ends the connection", s.terminated == fail)
	vpEnsures("payload unchanged", data[j] == old)
	if fail {
		return
	}
	n := uint32(len(data) + 1)
	b := s.conn.last
	vpEnsures("one write", s.conn.writes == 1 && len(b) == 5+len(data))
	vpEnsures("size", b[0] == byte(n>>24) && b[1] == byte(n>>16) && b[2] == byte(n>>8) && b[3] == byte(n))
	vpEnsures("command code", b[4] == code)
	vpEnsures("payload", b[5+j] == old)
}

//verif:syncgo
func contract_T11_empty(code byte, isNil, connected bool) {
	ds, s := vpSubscriber()
	if !connected {
		ds.connected.UnSet()
	}
	if isNil {
		ds.SendServerCommand(ServerCommandEnum(code))
	} else {
		ds.SendServerCommandWithPayload(ServerCommandEnum(code), []byte{})
	}
	if !connected {
		vpEnsures("nothing is sent while not connected", s.conn.writes == 0)
		return
	}
	b := s.conn.last
	vpEnsures("frame without payload", s.conn.writes == 1 && len(b) == 5 && b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 1 && b[4] == code)
}

// Commands of any two sizes sent one after the other do not disturb each other.
func contract_T11_sequence(first, second []byte, j int) {
	vpRequires(0 <= j && j < len(second))
	ds, s := vpSubscriber()
	vpInvariant(func(i int) bool { return j >= i || vpAt(ds.writeBuffer, 5+j) == vpAt(second, j) })
	ds.SendServerCommandWithPayload(1, first)
	vpEnsures("first size", len(s.conn.last) == 5+len(first))
	ds.SendServerCommandWithPayload(2, second)
	b := s.conn.last
	vpEnsures("second frame", s.conn.writes == 2 && len(b) == 5+len(second) && b[4] == 2)
	vpEnsures("second payload", b[5+j] == second[j])
}

func contract_T11_message(code byte, text string, j int) {
	vpRequires(len(text) < 1<<31 && 0 <= j && j < len(text))
	ds, s := vpSubscriber()
	vpInvariant(func(i int) bool { return j >= i || vpAt(ds.writeBuffer, 5+j) == text[j] })
	ds.SendServerCommandWithMessage(ServerCommandEnum(code), text)
	vpEnsures("message size", s.conn.writes == 1 && len(s.conn.last) == 5+len(text) && s.conn.last[4] == code)
	vpEnsures("message", s.conn.last[5+j] == text[j])
}
