package sttp

import (
	"math"
	"math/rand"

	"github.com/sttp/goapi/sttp/transport"
)

//verif:with common_sb.go

// S01: the settings of a subscription are those asked for.

func vpSameFloat(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func gen_S01_subscribe(r *rand.Rand) (string, Settings, bool, bool, transport.SubscriptionInfo) {
	flag := func() bool { return r.Intn(2) == 0 }
	text := func() string { return []string{"", "a", "*-5s"}[r.Intn(3)] }
	s := Settings{Throttled: flag(), PublishInterval: float64(r.Intn(5)), IncludeTime: flag(), EnableTimeReasonabilityCheck: flag(),
		LagTime: float64(r.Intn(5)), LeadTime: float64(r.Intn(5)), UseLocalClockAsRealTime: flag(), UseMillisecondResolution: flag(),
		RequestNaNValueFilter: flag(), StartTime: text(), StopTime: text(), ConstraintParameters: text(), ProcessingInterval: int32(r.Intn(9)),
		ExtraConnectionStringParameters: text()}
	old := transport.SubscriptionInfo{FilterExpression: text(), StartTime: text(), Throttled: flag(), IncludeTime: flag(), RequestNaNValueFilter: flag()}
	if flag() {
		s.UdpPort = uint16(1 + r.Intn(65535))
	}
	if flag() {
		old.UdpDataChannel, old.DataChannelLocalPort = true, 9
	}
	return text(), s, r.Intn(4) == 0, r.Intn(200) == 0, old
}

// Whatever was asked for before, the subscription has the new settings, the
// defaults if none are given, and is requested at once when connected.
//
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).IsConnected=sum_connected
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).Subscribe=sum_subscribe
//verif:use (*github.com/sttp/goapi/sttp/transport.DataSubscriber).SendServerCommandWithPayload=sum_payload
func contract_S01_subscribe(filter string, s Settings, none, connected bool, old transport.SubscriptionInfo) {
	if vpConcrete() && connected {
		// no data channel is opened in a replay
		vpRequires(none || s.UdpPort == 0)
	}
	sb := NewSubscriber()
	vpQuiet(sb)
	vpHear()
	var p *vpPublisher
	if connected {
		p = vpConnect(sb)
	}
	*sb.dataSubscriber().Subscription() = old
	given := s
	if none {
		sb.Subscribe(filter, nil)
		given = Settings{PublishInterval: 1, IncludeTime: true, ProcessingInterval: -1, LagTime: 10, LeadTime: 5}
	} else {
		sb.Subscribe(filter, &s)
	}
	if connected {
		p.told(sb)
		vpEnsures("requested at once", vpSubscribes == 1 && vpCommands == 0)
	} else {
		vpEnsures("not requested before the connection", vpSubscribes == 0 && vpCommands == 0)
	}
	i := sb.dataSubscriber().Subscription()
	vpEnsures("filter", i.FilterExpression == filter)
	vpEnsures("throttling", i.Throttled == given.Throttled && vpSameFloat(i.PublishInterval, given.PublishInterval))
	vpEnsures("data channel", i.UdpDataChannel == (given.UdpPort > 0) && i.DataChannelLocalPort == given.UdpPort)
	vpEnsures("time", i.IncludeTime == given.IncludeTime && i.UseMillisecondResolution == given.UseMillisecondResolution)
	vpEnsures("reasonability", i.EnableTimeReasonabilityCheck == given.EnableTimeReasonabilityCheck && vpSameFloat(i.LagTime, given.LagTime) &&
		vpSameFloat(i.LeadTime, given.LeadTime) && i.UseLocalClockAsRealTime == given.UseLocalClockAsRealTime)
	vpEnsures("value filter", i.RequestNaNValueFilter == given.RequestNaNValueFilter)
	vpEnsures("playback", i.StartTime == given.StartTime && i.StopTime == given.StopTime && i.ConstraintParameters == given.ConstraintParameters &&
		i.ProcessingInterval == given.ProcessingInterval)
	vpEnsures("extra parameters", i.ExtraConnectionStringParameters == given.ExtraConnectionStringParameters)
}

// The defaults are those documented, each time they are asked for.
func contract_S01_defaults(s Settings, c Config) {
	*NewSettings() = s
	*NewConfig() = c
	d, e := NewSettings(), NewConfig()
	vpEnsures("settings", *d == Settings{PublishInterval: 1, IncludeTime: true, ProcessingInterval: -1, LagTime: 10, LeadTime: 5})
	vpEnsures("config", *e == Config{MaxRetries: -1, RetryInterval: 1000, MaxRetryInterval: 30000, AutoReconnect: true, AutoRequestMetadata: true,
		AutoSubscribe: true, CompressPayloadData: true, CompressMetadata: true, CompressSignalIndexCache: true, Version: 2, RfcGuidEncoding: true})
}
