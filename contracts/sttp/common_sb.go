package sttp

import (
	"encoding/binary"
	"io"
	"net"
	"sync"
	"time"

	"github.com/sttp/goapi/sttp/transport"
)

// What the publisher hears from a subscriber. Within the verifier the sending
// functions of the data subscriber are stand-ins; in a replay the publisher
// listens on the loopback network.
var (
	vpUp         bool
	vpListening  bool
	vpSubscribes int
	vpCommands   int
	vpCode       transport.ServerCommandEnum
	vpPayload    []byte
)

func sum_connected(ds *transport.DataSubscriber) bool { return vpUp }

func sum_listening(ds *transport.DataSubscriber) bool { return vpListening }

func sum_subscribe(ds *transport.DataSubscriber) error {
	vpSubscribes++
	return nil
}

func sum_command(ds *transport.DataSubscriber, code transport.ServerCommandEnum) {
	vpCommands++
	vpCode, vpPayload = code, nil
}

func sum_payload(ds *transport.DataSubscriber, code transport.ServerCommandEnum, data []byte) {
	vpCommands++
	vpCode, vpPayload = code, data
}

type vpPublisher struct {
	sync.Mutex
	listener net.Listener
	commands [][]byte
	conn     net.Conn
}

func vpHear() {
	vpUp, vpListening = false, false
	vpSubscribes, vpCommands, vpCode, vpPayload = 0, 0, 0, nil
}

// vpListen starts the publisher of a replay.
func vpListen() *vpPublisher {
	p := &vpPublisher{}
	var err error
	p.listener, err = net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(vpSkip{})
	}
	go func() {
		for {
			c, err := p.listener.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return p
}

func (p *vpPublisher) port() uint16 { return uint16(p.listener.Addr().(*net.TCPAddr).Port) }

func (p *vpPublisher) serve(c net.Conn) {
	defer c.Close()
	p.Lock()
	p.conn = c
	p.Unlock()
	for {
		var size [4]byte
		if _, err := io.ReadFull(c, size[:]); err != nil {
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(size[:]))
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		p.Lock()
		p.commands = append(p.commands, b)
		p.Unlock()
	}
}

// vpQuiet silences a subscriber.
func vpQuiet(sb *Subscriber) {
	sb.SetStatusMessageLogger(nil)
	sb.SetErrorMessageLogger(nil)
	sb.SetConnectionTerminatedReceiver(nil)
}

// vpConnect connects a subscriber to a publisher.
func vpConnect(sb *Subscriber) *vpPublisher {
	vpHear()
	vpUp = true
	if !vpConcrete() {
		return nil
	}
	p := vpListen()
	if sb.dataSubscriber().Connect("127.0.0.1", p.port()) != nil {
		panic(vpSkip{})
	}
	return p
}

// drop ends the connection and makes it again.
func (p *vpPublisher) drop(sb *Subscriber) {
	for i := 0; i < 1000 && sb.IsConnected(); i++ {
		time.Sleep(time.Millisecond)
		p.Lock()
		if p.conn != nil {
			p.conn.Close()
		}
		p.Unlock()
	}
	for i := 0; i < 1000; i++ {
		if sb.dataSubscriber().Connect("127.0.0.1", p.port()) == nil {
			return
		}
		time.Sleep(time.Millisecond)
	}
	panic(vpSkip{})
}

// told ends the connection of a replay and counts the commands that followed
// the operational modes.
func (p *vpPublisher) told(sb *Subscriber) {
	if !vpConcrete() {
		return
	}
	last := -1
	for i := 0; i < 50; i++ {
		time.Sleep(time.Millisecond)
		p.Lock()
		n := len(p.commands)
		p.Unlock()
		if n > 0 && n == last {
			break
		}
		last = n
	}
	sb.Close()
	p.listener.Close()
	p.Lock()
	defer p.Unlock()
	for _, c := range p.commands {
		switch c[0] {
		case 0x06:
		case 0x02:
			vpSubscribes++
		default:
			vpCommands++
			vpCode, vpPayload = transport.ServerCommandEnum(c[0]), c[1:]
		}
	}
}
