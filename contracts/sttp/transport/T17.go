package transport

import (
	"math/rand"
	"net"
	"strconv"

	"github.com/sttp/goapi/sttp/thread"
)

//verif:with common_ds.go

// T17: the subscription request carries the requested settings.

var (
	vpCode ServerCommandEnum
	vpData []byte
	vpSent int
)

func sum_send(ds *DataSubscriber, c ServerCommandEnum, data []byte) {
	vpCode, vpData = c, data
	vpSent++
}

// specRequest is the parameter string of a subscription request.
func specRequest(s *SubscriptionInfo, source, version, updated string) string {
	r := "throttled=" + strconv.FormatBool(s.Throttled) +
		";publishInterval=" + strconv.FormatFloat(s.PublishInterval, 'f', 6, 64) +
		";includeTime=" + strconv.FormatBool(s.IncludeTime) +
		";enableTimeReasonabilityCheck=" + strconv.FormatBool(s.EnableTimeReasonabilityCheck) +
		";lagTime=" + strconv.FormatFloat(s.LagTime, 'f', 6, 64) +
		";leadTime=" + strconv.FormatFloat(s.LeadTime, 'f', 6, 64) +
		";useLocalClockAsRealTime=" + strconv.FormatBool(s.UseLocalClockAsRealTime) +
		";processingInterval=" + strconv.FormatInt(int64(s.ProcessingInterval), 10) +
		";useMillisecondResolution=" + strconv.FormatBool(s.UseMillisecondResolution) +
		";requestNaNValueFilter=" + strconv.FormatBool(s.RequestNaNValueFilter) +
		";assemblyInfo={source=" + source + ";version=" + version + ";updatedOn=" + updated + "}"
	if s.FilterExpression != "" {
		r += ";filterExpression={" + s.FilterExpression + "}"
	}
	if s.UdpDataChannel {
		r += ";dataChannel={localport=" + strconv.Itoa(int(s.DataChannelLocalPort)) + "}"
	}
	if s.StartTime != "" {
		r += ";startTimeConstraint=" + s.StartTime
	}
	if s.StopTime != "" {
		r += ";stopTimeConstraint=" + s.StopTime
	}
	if s.ConstraintParameters != "" {
		r += ";timeConstraintParameters=" + s.ConstraintParameters
	}
	if s.ExtraConnectionStringParameters != "" {
		r += ";" + s.ExtraConnectionStringParameters
	}
	return r
}

var vpUDP string

func sum_resolveUDP(network, address string) (*net.UDPAddr, error) {
	vpUDP = network + address
	return &net.UDPAddr{}, nil
}

func sum_listenUDP(network string, a *net.UDPAddr) (*net.UDPConn, error) { return &net.UDPConn{}, nil }

func sum_start(t *thread.Thread) {}

func gen_T17_subscribe(r *rand.Rand) (SubscriptionInfo, string, string, string) {
	text := func() string { return []string{"", "a", "1;x={y}", "*-5s"}[r.Intn(4)] }
	flag := func() bool { return r.Intn(2) == 0 }
	return SubscriptionInfo{FilterExpression: text(), Throttled: flag(), PublishInterval: float64(r.Intn(9)) / 4, UdpDataChannel: r.Intn(4) == 0,
		IncludeTime: flag(), EnableTimeReasonabilityCheck: flag(), LagTime: r.Float64(), LeadTime: r.Float64(), UseLocalClockAsRealTime: flag(),
		UseMillisecondResolution: flag(), RequestNaNValueFilter: flag(), StartTime: text(), StopTime: text(), ConstraintParameters: text(),
		ProcessingInterval: int32(r.Intn(5)) - 1, ExtraConnectionStringParameters: text()}, text(), text(), text()
}

// The network is replaced by stand-ins: a UDP data channel is opened on the
// configured port.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_send
//verif:use net.ResolveUDPAddr=sum_resolveUDP
//verif:use net.ListenUDP=sum_listenUDP
//verif:use (*github.com/sttp/goapi/sttp/thread.Thread).Start=sum_start
func contract_T17_subscribe(info SubscriptionInfo, source, version, updated string) {
	vpRequires(!info.UdpDataChannel || !vpConcrete() || info.DataChannelLocalPort == 0)
	vpRequires(len(info.FilterExpression) < 1<<27 && len(info.StartTime) < 1<<27 && len(info.StopTime) < 1<<27 &&
		len(info.ConstraintParameters) < 1<<27 && len(info.ExtraConnectionStringParameters) < 1<<27)
	vpRequires(len(source) < 1<<27 && len(version) < 1<<27 && len(updated) < 1<<27)
	ds, s := vpSubscriber()
	ds.subscription = info
	ds.STTPSourceInfo, ds.STTPVersionInfo, ds.STTPUpdatedOnInfo = source, version, updated
	vpSent = 0
	err := ds.Subscribe()
	if vpConcrete() {
		vpSent, vpCode, vpData = s.conn.writes, ServerCommandEnum(s.conn.last[4]), s.conn.last[5:]
		vpUDP = "udp:0"
		if ds.dataChannelSocket != nil {
			ds.dataChannelSocket.Close()
		}
	}
	want := specRequest(&info, source, version, updated)
	vpEnsures("one request", err == nil && vpSent == 1 && vpCode == 0x02)
	b := vpData
	n := uint32(len(want))
	vpEnsures("length", len(b) == 5+len(want) && b[1] == byte(n>>24) && b[2] == byte(n>>16) && b[3] == byte(n>>8) && b[4] == byte(n))
	vpEnsures("compact flag", b[0] == 0x02)
	vpEnsures("parameters", string(b[5:]) == want)
	vpEnsures("data channel port", !info.UdpDataChannel || vpUDP == "udp:"+strconv.Itoa(int(info.DataChannelLocalPort)))
	vpEnsures("decompression restarts", ds.tsscResetRequested.IsSet())
	vpEnsures("measurement count restarts", ds.TotalMeasurementsReceived() == 0)
}
