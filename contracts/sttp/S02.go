package sttp

import (
	"encoding/binary"
	"errors"
	"math/rand"
	"net"
	"strconv"
	"time"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"
)

//verif:with common_sb.go

// S02: what a subscriber asks for by itself, and dialing.

var (
	vpParsed, vpLoaded, vpDropped int
	vpBad                         error
	vpStatus                      transport.ConnectStatusEnum
	vpDials, vpListens            int
	vpPort                        uint16
	vpInterface                   string
	vpRefused                     error
)

func sum_parse(d *data.DataSet, buffer []byte) error {
	vpParsed++
	return vpBad
}

func sum_load(sb *Subscriber, d *data.DataSet) { vpLoaded++ }

func sum_summary(sb *Subscriber, d *data.DataSet, started time.Time) {}

func sum_disconnect(ds *transport.DataSubscriber) { vpDropped++ }

func sum_connect(sc *transport.SubscriberConnector, ds *transport.DataSubscriber) transport.ConnectStatusEnum {
	vpDials++
	return vpStatus
}

func sum_listen(ds *transport.DataSubscriber, port uint16, networkInterface string) error {
	vpListens++
	vpPort, vpInterface = port, networkInterface
	return vpRefused
}

// vpAsked tells whether the publisher was asked for the metadata, once.
func vpAsked(filters string) bool {
	if vpCommands != 1 || vpCode != transport.ServerCommand.MetadataRefresh {
		return false
	}
	if filters == "" {
		return len(vpPayload) == 0
	}
	return len(vpPayload) == 4+len(filters) && binary.BigEndian.Uint32(vpPayload) == uint32(len(filters)) && string(vpPayload[4:]) == filters
}

func vpConfigured(c *Config, filters string, meta, auto bool) {
	c.MetadataFilters, c.AutoRequestMetadata, c.AutoSubscribe = filters, meta, auto
}

// vpStarted checks what follows a new connection.
func vpStarted(filters string, meta, auto bool) {
	if meta {
		vpEnsures("metadata requested", vpAsked(filters) && vpSubscribes == 0)
	} else {
		vpEnsures("no metadata requested", vpCommands == 0)
		vpEnsures("subscribed if so configured", auto && vpSubscribes == 1 || !auto && vpSubscribes == 0)
	}
}

func gen_S02_established(r *rand.Rand) (string, bool, bool, bool) {
	return []string{"", "FILTER x", "é"}[r.Intn(3)], r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(4) == 0
}

// A new connection is reported once and then metadata is requested, or the
// subscription when no metadata is wanted.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsConnected=sum_connected
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Subscribe=sum_subscribe
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_payload
func contract_S02_established(filters string, meta, auto, none bool) {
	vpRequires(len(filters) < 1<<24)
	sb := NewSubscriber()
	vpQuiet(sb)
	vpConfigured(sb.config, filters, meta, auto)
	n := 0
	sb.SetConnectionEstablishedReceiver(func() {
		vpEnsures("reported before anything is requested", vpSubscribes == 0 && vpCommands == 0)
		n++
	})
	if none {
		sb.SetConnectionEstablishedReceiver(nil)
		n = 1
	}
	p := vpConnect(sb)
	sb.handleConnect()
	p.told(sb)
	vpEnsures("reported once", n == 1)
	vpStarted(filters, meta, auto)
}

func gen_S02_again(r *rand.Rand) (string, bool, bool, bool) {
	return []string{"", "FILTER x", "é"}[r.Intn(3)], r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
}

// A connection made again is like a new one; when it could not be made the
// subscriber gives up and says so.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsConnected=sum_connected
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Disconnect=sum_disconnect
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Subscribe=sum_subscribe
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_payload
func contract_S02_again(filters string, meta, auto, up bool) {
	vpRequires(len(filters) < 1<<24)
	sb := NewSubscriber()
	vpQuiet(sb)
	vpConfigured(sb.config, filters, meta, auto)
	n, said := 0, 0
	sb.SetConnectionEstablishedReceiver(func() { n++ })
	sb.SetStatusMessageLogger(func(string) { said++ })
	vpHear()
	vpDropped = 0
	if up {
		p := vpConnect(sb)
		sb.handleReconnect(sb.dataSubscriber())
		p.told(sb)
		vpEnsures("reported once", n == 1)
		vpEnsures("kept", vpDropped == 0)
		vpStarted(filters, meta, auto)
		return
	}
	sb.handleReconnect(sb.dataSubscriber())
	vpEnsures("not reported", n == 0)
	vpEnsures("said", said == 1)
	vpEnsures("given up", vpConcrete() || vpDropped == 1)
	vpEnsures("nothing requested", vpSubscribes == 0 && vpCommands == 0)
}

var vpValid bool

func sum_valid(ds *transport.DataSubscriber) bool { return vpValid }

func sum_gated(ds *transport.DataSubscriber) error {
	if !vpValid {
		return errors.New("subscriber is not validated; cannot subscribe")
	}
	vpSubscribes++
	return nil
}

// The publisher has not answered yet when a connection made again is
// reported, so that a subscription is refused until it does.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsConnected=sum_connected
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsValidated=sum_valid
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Subscribe=sum_gated
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_payload
func contract_S02_unanswered() {
	sb := NewSubscriber()
	vpQuiet(sb)
	vpConfigured(sb.config, "", false, true)
	sb.SetConnectionEstablishedReceiver(nil)
	p := vpConnect(sb)
	vpValid = false
	if vpConcrete() {
		p.drop(sb)
	}
	sb.handleReconnect(sb.dataSubscriber())
	p.told(sb)
	vpEnsures("subscribed although not answered yet", vpSubscribes == 1)
}

func gen_S02_changed(r *rand.Rand) (string, bool, bool, bool) {
	return []string{"", "FILTER x", "é"}[r.Intn(3)], r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(4) == 0
}

// A changed configuration is reported once; the metadata is requested again
// if it is wanted.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsConnected=sum_connected
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Subscribe=sum_subscribe
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_payload
func contract_S02_changed(filters string, meta, auto, none bool) {
	vpRequires(len(filters) < 1<<24)
	sb := NewSubscriber()
	vpQuiet(sb)
	vpConfigured(sb.config, filters, meta, auto)
	n := 0
	sb.SetConfigurationChangedReceiver(func() { n++ })
	if none {
		sb.SetConfigurationChangedReceiver(nil)
		n = 1
	}
	p := vpConnect(sb)
	sb.handleConfigurationChanged()
	p.told(sb)
	vpEnsures("reported once", n == 1)
	vpEnsures("not subscribed", vpSubscribes == 0)
	if meta {
		vpEnsures("metadata requested", vpAsked(filters))
	} else {
		vpEnsures("no metadata requested", vpCommands == 0)
	}
}

func gen_S02_metadata(r *rand.Rand) ([]byte, bool, bool, bool) {
	return []byte([]string{"", "<DataSet/>", "<DataSet"}[r.Intn(3)]), r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(4) == 0
}

// Received metadata is handed over once, after it was read; the subscription
// follows if it is wanted. Metadata that cannot be read is reported.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsConnected=sum_connected
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Subscribe=sum_subscribe
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_payload
//verif:use (*github.com/sttp/goapi/sttp/data.DataSet).ParseXml=sum_parse
//verif:use (*github.com/sttp/goapi/sttp.Subscriber).loadMeasurementMetadata=sum_load
//verif:use (*github.com/sttp/goapi/sttp.Subscriber).showMetadataSummary=sum_summary
func contract_S02_metadata(text []byte, meta, auto, none bool) {
	sb := NewSubscriber()
	vpQuiet(sb)
	vpConfigured(sb.config, "", meta, auto)
	vpParsed, vpLoaded = 0, 0
	var bad bool
	if vpConcrete() {
		bad = data.NewDataSet().ParseXml(text) != nil
	} else {
		vpBad = vpAny[error]()
		bad = vpBad != nil
	}
	n, errs := 0, 0
	sb.SetErrorMessageLogger(func(string) { errs++ })
	sb.SetMetadataReceiver(func(d *data.DataSet) {
		vpEnsures("a data set", d != nil)
		vpEnsures("handed over after reading", vpConcrete() || vpParsed == 1 && (bad && vpLoaded == 0 || !bad && vpLoaded == 1))
		vpEnsures("handed over before subscribing", vpSubscribes == 0)
		n++
	})
	if none {
		sb.SetMetadataReceiver(nil)
		n = 1
	}
	p := vpConnect(sb)
	sb.handleMetadataReceived(text)
	p.told(sb)
	vpEnsures("handed over once", n == 1)
	vpEnsures("trouble reported", !bad || errs == 1)
	vpEnsures("no false trouble", bad || vpConcrete() || errs == 0)
	vpEnsures("nothing else requested", vpCommands == 0)
	vpEnsures("subscribed if so configured", meta && auto && vpSubscribes == 1 || !(meta && auto) && vpSubscribes == 0)
}

func gen_S02_dial(r *rand.Rand) (string, *Config, bool, bool, int) {
	c := &Config{MaxRetries: 1, RetryInterval: int32(1 + r.Intn(3)), MaxRetryInterval: int32(r.Intn(9)), CompressPayloadData: r.Intn(2) == 0,
		CompressMetadata: r.Intn(2) == 0, CompressSignalIndexCache: r.Intn(2) == 0, Version: byte(1 + r.Intn(2)), RfcGuidEncoding: r.Intn(2) == 0,
		AutoRequestMetadata: r.Intn(2) == 0, AutoSubscribe: r.Intn(2) == 0}
	return []string{"live", "live", "127.0.0.1:1", "127.0.0.1:65535", "x", "x:", "x:y", "x:0", "x:65536", "x:-1", ":"}[r.Intn(11)], c, r.Intn(6) == 0, false, r.Intn(3) - 1
}

// Dialing is refused while connected or listening and for addresses without a
// usable port, and changes nothing then. Otherwise the connection is made to
// that host and port with the settings given, and the outcome is told.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsConnected=sum_connected
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsListening=sum_listening
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Subscribe=sum_subscribe
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_payload
//verif:use (*github.com/sttp/goapi/sttp/transport.SubscriberConnector).Connect=sum_connect
func contract_S02_dial(address string, c *Config, up, listening bool, status int) {
	vpRequires(c != nil && status >= -1 && status <= 1 && len(c.MetadataFilters) < 1<<24)
	if vpConcrete() {
		vpRequires(!listening && c.MaxRetries == 1 && c.RetryInterval < 4 && c.RetryInterval > 0 && c.MaxRetryInterval >= 0 && c.MaxRetryInterval < 9)
		vpRequires(!c.AutoReconnect && c.Version > 0 && c.Version < 3 && len(c.MetadataFilters) < 100)
	}
	sb := NewSubscriber()
	vpQuiet(sb)
	vpHear()
	n := 0
	sb.SetConnectionEstablishedReceiver(func() { n++ })
	var p *vpPublisher
	if up {
		p = vpConnect(sb)
	} else if vpConcrete() {
		p = vpListen()
	}
	if vpConcrete() && address == "live" {
		address = "127.0.0.1:" + strconv.Itoa(int(p.port()))
	}
	vpUp, vpListening, vpDials = up, listening, 0
	vpStatus = transport.ConnectStatusEnum(status)
	host, portname, err1 := net.SplitHostPort(address)
	port, err2 := strconv.Atoi(portname)
	con := sb.dataSubscriber().Connector()
	con.Hostname, con.Port = "before", 3
	err := sb.Dial(address, c)
	if up || listening || err1 != nil || err2 != nil || port < 1 || port > 65535 {
		p.told(sb)
		vpEnsures("refused", err != nil)
		vpEnsures("nothing done", vpDials == 0 && n == 0 && vpCommands == 0 && vpSubscribes == 0 && con.Hostname == "before" && con.Port == 3)
		return
	}
	ok := vpStatus == transport.ConnectStatus.Success
	if vpConcrete() {
		ok = sb.IsConnected()
	}
	p.told(sb)
	ds := sb.dataSubscriber()
	vpEnsures("dialed once", vpConcrete() || vpDials == 1)
	vpEnsures("told", ok == (err == nil))
	vpEnsures("to the address", con.Hostname == host && int(con.Port) == port)
	vpEnsures("retries", con.MaxRetries == c.MaxRetries && con.RetryInterval == c.RetryInterval && con.MaxRetryInterval == c.MaxRetryInterval &&
		con.AutoReconnect == c.AutoReconnect)
	vpEnsures("protocol", ds.CompressPayloadData == c.CompressPayloadData && ds.CompressMetadata == c.CompressMetadata &&
		ds.CompressSignalIndexCache == c.CompressSignalIndexCache && ds.Version == c.Version && ds.SwapGuidEndianness == !c.RfcGuidEncoding)
	if !ok {
		vpEnsures("nothing requested", n == 0 && vpCommands == 0 && vpSubscribes == 0)
		return
	}
	vpEnsures("reported once", n == 1)
	vpStarted(c.MetadataFilters, c.AutoRequestMetadata, c.AutoSubscribe)
}

func gen_S02_listen(r *rand.Rand) (string, *Config, bool, bool, bool) {
	a, c, _, _, _ := gen_S02_dial(r)
	return a, c, r.Intn(6) == 0, false, false
}

// Listening is refused in the same way. A publisher that then connects is
// treated as one dialed.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsConnected=sum_connected
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsListening=sum_listening
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Subscribe=sum_subscribe
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_payload
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Listen=sum_listen
func contract_S02_listen(address string, c *Config, up, listening, fails bool) {
	vpRequires(c != nil && len(c.MetadataFilters) < 1<<24)
	if vpConcrete() {
		vpRequires(!listening && !fails && address != "127.0.0.1:1" && c.Version > 0 && c.Version < 3 && len(c.MetadataFilters) < 100)
	}
	sb := NewSubscriber()
	vpQuiet(sb)
	vpHear()
	n := 0
	sb.SetConnectionEstablishedReceiver(func() { n++ })
	var p *vpPublisher
	if up {
		p = vpConnect(sb)
	} else if vpConcrete() {
		p = vpListen()
	}
	if vpConcrete() && address == "live" {
		// a port that was free a moment ago
		free, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(vpSkip{})
		}
		address = free.Addr().String()
		free.Close()
	}
	vpUp, vpListening, vpListens, vpRefused = up, listening, 0, nil
	if fails {
		vpRefused = vpAny[error]()
		vpRequires(vpRefused != nil)
	}
	host, portname, err1 := net.SplitHostPort(address)
	port, err2 := strconv.Atoi(portname)
	err := sb.Listen(address, c)
	if up || listening || err1 != nil || err2 != nil || port < 1 || port > 65535 {
		p.told(sb)
		vpEnsures("refused", err != nil)
		vpEnsures("nothing done", vpListens == 0 && n == 0 && vpCommands == 0 && vpSubscribes == 0)
		return
	}
	vpEnsures("told", fails == (err != nil))
	vpEnsures("on the address", vpConcrete() || vpListens == 1 && vpInterface == host && int(vpPort) == port)
	ds := sb.dataSubscriber()
	vpEnsures("protocol", ds.CompressPayloadData == c.CompressPayloadData && ds.CompressMetadata == c.CompressMetadata &&
		ds.CompressSignalIndexCache == c.CompressSignalIndexCache && ds.Version == c.Version && ds.SwapGuidEndianness == !c.RfcGuidEncoding)
	vpEnsures("nothing requested yet", n == 0 && vpCommands == 0 && vpSubscribes == 0)
	if fails {
		return
	}
	if vpConcrete() {
		conn, err := net.Dial("tcp", address)
		vpEnsures("listens", err == nil)
		go p.serve(conn)
	} else {
		ds.ConnectionEstablishedCallback()
	}
	p.told(sb)
	vpEnsures("reported once", n == 1)
	vpStarted(c.MetadataFilters, c.AutoRequestMetadata, c.AutoSubscribe)
}
