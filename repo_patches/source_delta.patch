From 43b422ec60830fdd204e795558f130abf73038f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:53 +0000
Subject: [PATCH 01/49] fix: convert ticks to and from times outside 1970-2262

---
 sttp/ticks/Ticks.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sttp/ticks/Ticks.go b/sttp/ticks/Ticks.go
index 540cb5a..8772c5e 100644
--- a/sttp/ticks/Ticks.go
+++ b/sttp/ticks/Ticks.go
@@ -86,7 +86,7 @@ func (ticks Ticks) TimestampValue() int64 {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func ToTime(ticks Ticks) time.Time {
-	return time.Unix(0, int64((ticks-UnixBaseOffset)&ValueMask)*100).UTC()
+	return ticks.ToTime()
 }
 
 // Converts a unix nanoseconds timestamp into a Ticks value.
@@ -96,7 +96,7 @@ func FromUnixNano(ns uint64) Ticks {
 
 // FromTime converts a standard Go Time value to a Ticks value.
 func FromTime(time time.Time) Ticks {
-	return FromUnixNano(uint64(time.UnixNano()))
+	return Ticks(time.Unix())*PerSecond + Ticks(time.Nanosecond()/100) + UnixBaseOffset
 }
 
 // IsLeapSecond determines if the deserialized Ticks value represents a leap second, i.e., second 60.
@@ -141,7 +141,8 @@ func UtcNow() Ticks {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func (t Ticks) ToTime() time.Time {
-	return time.Unix(0, int64((t-UnixBaseOffset)&ValueMask)*100).UTC()
+	value := t.TimestampValue() - int64(UnixBaseOffset)
+	return time.Unix(value/int64(PerSecond), value%int64(PerSecond)*100).UTC()
 }
 
 // Converts the ticks value into a Unix nanoseconds timestamp
-- 
2.43.0


From 1ca1251d2626cc0284e282794ccd0262838528e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:13 +0000
Subject: [PATCH 02/49] fix: grow the command buffer for large payloads

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 97c6f99..eb3b11c 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1505,7 +1505,7 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
 
 	if int(commandBufferSize) > cap(ds.writeBuffer) {
-		ds.writeBuffer = ds.writeBuffer[:commandBufferSize]
+		ds.writeBuffer = make([]byte, commandBufferSize)
 	}
 
 	// Insert packet size
-- 
2.43.0


From 262c109adf844e9668be71e74d2a0cec2afab1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:14 +0000
Subject: [PATCH 03/49] fix: add missing equals sign to the NaN value filter
 parameter

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index eb3b11c..cefdf5e 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -492,7 +492,7 @@ func (ds *DataSubscriber) Subscribe() error {
 	parameterBuilder.WriteString(strconv.FormatInt(int64(ds.subscription.ProcessingInterval), 10))
 	parameterBuilder.WriteString(";useMillisecondResolution=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.UseMillisecondResolution))
-	parameterBuilder.WriteString(";requestNaNValueFilter")
+	parameterBuilder.WriteString(";requestNaNValueFilter=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.RequestNaNValueFilter))
 	parameterBuilder.WriteString(";assemblyInfo={source=")
 	parameterBuilder.WriteString(ds.STTPSourceInfo)
-- 
2.43.0


From 6004fc2cbe3638405c0e28987e38e2c169fe2d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:16 +0000
Subject: [PATCH 04/49] fix: return the registered metadata when another thread
 adds it first

---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index cefdf5e..3c5e781 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -293,7 +293,7 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 			Multiplier: 1.0,
 		}
 		// Continue using LoadOrStore on failure to avoid racing another thread
-		ds.measurementRegistry.LoadOrStore(signalID, metadata)
+		metadata, _ = ds.measurementRegistry.LoadOrStore(signalID, metadata)
 	}
 	return metadata.(*MeasurementMetadata)
 }
-- 
2.43.0


From dc60be6add82ad5820110b1bf6edb08775d3af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:17 +0000
Subject: [PATCH 05/49] fix: deliver buffer block contents once and in order

---
 sttp/transport/DataSubscriber.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 3c5e781..11f803a 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -377,6 +377,7 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
+	ds.bufferBlockCache = nil
 	ds.measurementRegistry = sync.Map{}
 }
 
@@ -1391,7 +1392,7 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
-	bufferCacheIndex := int(sequenceNumber - ds.bufferBlockExpectedSequenceNumber)
+	bufferCacheIndex := int(int32(sequenceNumber - ds.bufferBlockExpectedSequenceNumber))
 	var signalIndexCacheIndex int32
 
 	if ds.Version > 1 && data[4:][0] > 0 {
@@ -1417,19 +1418,21 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 		ds.signalIndexCacheMutex.Unlock()
 
 		signalID := signalIndexCache.SignalID(signalIndex)
-		bufferBlockMeasurement := BufferBlock{SignalID: signalID}
+
+		// Receive buffer is reused, so the block needs its own copy of the data
+		bufferBlockMeasurement := BufferBlock{SignalID: signalID, Buffer: append([]byte{}, data[4:]...)}
 
 		// Determine if this is the next buffer block in the sequence
 		if sequenceNumber == ds.bufferBlockExpectedSequenceNumber {
 			bufferBlockMeasurements := make([]BufferBlock, 1+len(ds.bufferBlockCache))
-			var i int
+			i := 1
 
 			// Add the buffer block measurement to the list of measurements to be published
 			bufferBlockMeasurements[0] = bufferBlockMeasurement
 			ds.bufferBlockExpectedSequenceNumber++
 
 			// Add cached buffer block measurements to the list of measurements to be published
-			for i = 1; i < len(ds.bufferBlockCache); i++ {
+			for ; i < len(ds.bufferBlockCache); i++ {
 				if ds.bufferBlockCache[i].Buffer == nil {
 					break
 				}
@@ -1449,7 +1452,7 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 			if ds.NewBufferBlocksCallback != nil {
 				// Do not use Go routine here, processing sequence may be important.
 				// Execute callback directly from socket processing thread:
-				ds.NewBufferBlocksCallback(bufferBlockMeasurements)
+				ds.NewBufferBlocksCallback(bufferBlockMeasurements[:i])
 			}
 
 			ds.EndCallbackSync()
-- 
2.43.0


From 2c1e37dc4e891805693bd09a3dd83118cabe17ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:37 +0000
Subject: [PATCH 06/49] fix: deliver only the measurements parsed from a data
 packet

---
 sttp/transport/DataSubscriber.go | 34 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 11f803a..496b46b 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1245,12 +1245,17 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	signalIndexCache := ds.signalIndexCache[cacheIndex]
 	ds.signalIndexCacheMutex.Unlock()
 
+	var parsed int
+
 	if compressed {
-		ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
+		parsed = ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
 	} else {
-		ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+		parsed = ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
 	}
 
+	// Only expose measurements that were actually parsed from this packet
+	*measurements = (*measurements)[:parsed]
+
 	ds.BeginCallbackSync()
 
 	if ds.NewMeasurementsCallback != nil {
@@ -1261,10 +1266,10 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 
 	ds.EndCallbackSync()
 
-	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
+	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(parsed))
 }
 
-func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) int {
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
@@ -1279,7 +1284,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
-		return
+		return 0
 	}
 
 	sequenceNumber := binary.BigEndian.Uint16(data[1:])
@@ -1314,7 +1319,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		}
 
 		// Ignore packets until the reset has occurred
-		return
+		return 0
 	}
 
 	decoder.SetBuffer(data[3:])
@@ -1330,6 +1335,11 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 
 	for ok {
 		if ok, err = decoder.TryGetMeasurement(&id, &timestamp, &stateFlags, &value); ok {
+			if index == len(measurements) {
+				err = errors.New("more measurements received than expected")
+				break
+			}
+
 			measurements[index] = Measurement{
 				SignalID:  signalIndexCache.SignalID(id),
 				Value:     float64(value),
@@ -1344,7 +1354,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if err != nil {
 		ds.dispatchErrorMessage("Failed to parse TSSC measurements - disconnecting: " + err.Error())
 		ds.dispatchConnectionTerminated()
-		return
+		return index
 	}
 
 	decoder.SequenceNumber++
@@ -1353,9 +1363,11 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if decoder.SequenceNumber == 0 {
 		decoder.SequenceNumber = 1
 	}
+
+	return index
 }
 
-func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) int {
 	if signalIndexCache.Count() == 0 {
 		if ds.lastMissingCacheWarning+missingCacheWarningInterval < ticks.UtcNow() {
 			// Warning message for missing signal index cache
@@ -1366,7 +1378,7 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 			ds.lastMissingCacheWarning = ticks.UtcNow()
 		}
 
-		return
+		return 0
 	}
 
 	useMillisecondResolution := ds.subscription.UseMillisecondResolution
@@ -1381,12 +1393,14 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 		if err != nil {
 			ds.dispatchErrorMessage("Failed to parse compact measurements - disconnecting: " + err.Error())
 			ds.dispatchConnectionTerminated()
-			return
+			return i
 		}
 
 		index += bytesDecoded
 		measurements[i] = compactMeasurement.Measurement
 	}
+
+	return len(measurements)
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
-- 
2.43.0


From 64462125909bce39f6a38ce38635a16462210115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:30 +0000
Subject: [PATCH 07/49] fix: report truncated server responses instead of
 crashing

---
 sttp/transport/Common.go             |  5 ++
 sttp/transport/CompactMeasurement.go | 14 ++++++
 sttp/transport/DataSubscriber.go     | 68 ++++++++++++++++++++++++++++
 sttp/transport/SignalIndexCache.go   | 13 ++++++
 sttp/transport/tssc/Decoder.go       | 10 +++-
 5 files changed, 109 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/Common.go b/sttp/transport/Common.go
index b4e5e41..d63b21b 100644
--- a/sttp/transport/Common.go
+++ b/sttp/transport/Common.go
@@ -28,6 +28,7 @@ import (
 	"compress/gzip"
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 	"io"
 	"net"
 	"strings"
@@ -41,6 +42,10 @@ func decipherAES(key, iv, data []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(iv) != block.BlockSize() || len(data)%block.BlockSize() != 0 {
+		return nil, errors.New("invalid initialization vector or data length")
+	}
+
 	mode := cipher.NewCBCDecrypter(block, iv)
 	out := make([]byte, len(data))
 	mode.CryptBlocks(out, data)
diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index ab48e2a..db60e31 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -275,6 +275,20 @@ func (cm *CompactMeasurement) Decode(buffer []byte) (int, error) {
 		return index, nil
 	}
 
+	timeLength := 8
+
+	if cm.usingBaseTimeOffset {
+		if cm.useMillisecondResolution {
+			timeLength = 2
+		} else {
+			timeLength = 4
+		}
+	}
+
+	if len(buffer) < index+timeLength {
+		return 0, errors.New("not enough buffer available to deserialize compact measurement timestamp")
+	}
+
 	if cm.usingBaseTimeOffset {
 		baseTimeOffset := cm.baseTimeOffsets[cm.timeIndex]
 
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 496b46b..3c00944 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -898,6 +898,11 @@ func (ds *DataSubscriber) runDataChannelResponseThread() {
 }
 
 func (ds *DataSubscriber) processServerResponse(buffer []byte) {
+	if len(buffer) < responseHeaderSize {
+		ds.dispatchErrorMessage("Received server response that is too short from \"" + ds.connectionID + "\"")
+		return
+	}
+
 	// Note: internal payload size at buffer[2:6] ignored - future versions of STTP will likely exclude this
 	data := buffer[responseHeaderSize:]
 	responseCode := ServerResponseEnum(buffer[0])
@@ -1030,6 +1035,11 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 }
 
 func (ds *DataSubscriber) handleDataStartTime(data []byte) {
+	if len(data) < 8 {
+		ds.dispatchErrorMessage("Received data start time that is too short")
+		return
+	}
+
 	ds.BeginCallbackSync()
 
 	if ds.DataStartTimeCallback != nil {
@@ -1061,6 +1071,11 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 
 	// Get active cache index
 	if version > 1 {
+		if len(data) == 0 {
+			ds.dispatchErrorMessage("Received signal index cache that is too short")
+			return
+		}
+
 		if data[0] > 0 {
 			cacheIndex = 1
 		}
@@ -1108,6 +1123,11 @@ func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
 		return
 	}
 
+	if len(data) < 20 {
+		ds.dispatchErrorMessage("Received base time offsets that are too short")
+		return
+	}
+
 	timeIndex := int32(binary.BigEndian.Uint32(data))
 
 	if timeIndex != 0 {
@@ -1128,6 +1148,16 @@ func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
+	// Verify that both keys and both initialization vectors, each prefixed by its size, are available
+	for i, offset := 0, 1; i < 4; i++ {
+		if len(data)-offset < 4 || uint64(len(data)-offset-4) < uint64(binary.BigEndian.Uint32(data[offset:])) {
+			ds.dispatchErrorMessage("Received cipher keys that are too short")
+			return
+		}
+
+		offset += 4 + int(binary.BigEndian.Uint32(data[offset:]))
+	}
+
 	// Deserialize new cipher keys
 	keyIVs := make([][][]byte, 2)
 	keyIVs[evenKey] = make([][]byte, 2)
@@ -1191,6 +1221,11 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
+	if len(data) == 0 {
+		ds.dispatchErrorMessage("Received data packet that is too short")
+		return
+	}
+
 	dataPacketFlags := DataPacketFlagsEnum(data[0])
 	compressed := dataPacketFlags&DataPacketFlags.Compressed > 0
 	compact := dataPacketFlags&DataPacketFlags.Compact > 0
@@ -1222,7 +1257,19 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 		}
 	}
 
+	if len(data) < 4 {
+		ds.dispatchErrorMessage("Received data packet that is too short")
+		return
+	}
+
 	count := binary.BigEndian.Uint32(data)
+
+	// Any encoding uses at least one bit per measurement
+	if uint64(count) > uint64(len(data)-4)*8 {
+		ds.dispatchErrorMessage("Received data packet that is too short for its measurement count")
+		return
+	}
+
 	var measurements *[]Measurement
 	if mptr := ds.MeasurementPool.Get(); mptr == nil {
 		m := make([]Measurement, count)
@@ -1281,6 +1328,11 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		newDecoder = true
 	}
 
+	if len(data) < 3 {
+		ds.dispatchErrorMessage("Received TSSC data packet that is too short")
+		return 0
+	}
+
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
@@ -1404,6 +1456,17 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
+	headerSize := 8
+
+	if ds.Version > 1 {
+		headerSize = 9
+	}
+
+	if len(data) < headerSize {
+		ds.dispatchErrorMessage("Received buffer block that is too short")
+		return
+	}
+
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
 	bufferCacheIndex := int(int32(sequenceNumber - ds.bufferBlockExpectedSequenceNumber))
@@ -1485,6 +1548,11 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
+	if len(data) < 4 {
+		ds.dispatchErrorMessage("Received notification that is too short")
+		return
+	}
+
 	// Skip the 4-byte hash and decode notification message
 	message := ds.DecodeString(data[4:])
 
diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index 305d584..3e53e82 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -193,6 +193,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 
 	offset += 16
 
+	if length < offset+4 {
+		return errors.New("not enough buffer provided to parse")
+	}
+
 	// Number of references
 	referenceCount := binary.BigEndian.Uint32(buffer[offset:])
 	offset += 4
@@ -200,6 +204,11 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 	var i uint32
 
 	for i = 0; i < referenceCount; i++ {
+		// Fixed size of a record is 32 bytes
+		if length-offset < 32 {
+			return errors.New("not enough buffer provided to parse")
+		}
+
 		// Signal index
 		signalIndex := int32(binary.BigEndian.Uint32(buffer[offset:]))
 		offset += 4
@@ -217,6 +226,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 		sourceSize := binary.BigEndian.Uint32(buffer[offset:])
 		offset += 4
 
+		if length-offset < 8 || length-offset-8 < sourceSize {
+			return errors.New("not enough buffer provided to parse")
+		}
+
 		source := ds.DecodeString(buffer[offset : offset+sourceSize])
 		offset += sourceSize
 
diff --git a/sttp/transport/tssc/Decoder.go b/sttp/transport/tssc/Decoder.go
index 128921e..59ec905 100644
--- a/sttp/transport/tssc/Decoder.go
+++ b/sttp/transport/tssc/Decoder.go
@@ -95,7 +95,15 @@ func (td *Decoder) SetBuffer(data []byte) {
 
 // TryGetMeasurement attempts to get the next decoded measurement from the working buffer.
 //gocyclo:ignore
-func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (bool, error) {
+func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (success bool, failure error) {
+	// Truncated or corrupted data can ask for more bytes than are available
+	defer func() {
+		if r := recover(); r != nil {
+			success = false
+			failure = fmt.Errorf("unexpected end of data at position %d with last position %d: %v", td.position, td.lastPosition, r)
+		}
+	}()
+
 	if td.position == td.lastPosition && td.bitStreamIsEmpty() {
 		td.clearBitStream()
 		*id = 0
-- 
2.43.0


From d701310bd8a7756a1f80b756d19ef84a15eeedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:13 +0000
Subject: [PATCH 08/49] fix: release a pending reconnect wait when the
 connector is canceled

---
 sttp/transport/SubscriberConnector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index a4b2177..e571021 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -250,7 +250,8 @@ func (sc *SubscriberConnector) Cancel() {
 	sc.waitTimerMutex.Unlock()
 
 	if waitTimer != nil {
-		waitTimer.Stop()
+		// Expire timer immediately so that a pending wait is released
+		waitTimer.Reset(0)
 	}
 
 	sc.reconnectThreadMutex.Lock()
-- 
2.43.0


From cd00017b544dedcf358f066de49ac83c235791ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:15 +0000
Subject: [PATCH 09/49] fix: stop connecting at the retry maximum also without
 a retry interval

---
 sttp/transport/SubscriberConnector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index e571021..0345e7d 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -220,8 +220,10 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 			break
 		}
 
+		// Any further attempt is a retry of this connection
+		autoReconnecting = true
+
 		if ds.disposing.IsNotSet() && sc.RetryInterval > 0 {
-			autoReconnecting = true
 			sc.waitForRetry()
 
 			if sc.cancel.IsSet() {
-- 
2.43.0


From e2e00019106051d01de3859a96a9bf19897598d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:34 +0000
Subject: [PATCH 10/49] fix: limit the retry delay without integer overflow

---
 sttp/transport/SubscriberConnector.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index 0345e7d..7aa136f 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -135,7 +135,7 @@ func (sc *SubscriberConnector) waitForRetry() {
 	var exponent float64
 
 	if sc.connectAttempt > 13 {
-		exponent = 12
+		exponent = 13
 	} else {
 		exponent = float64(sc.connectAttempt)
 	}
@@ -143,11 +143,14 @@ func (sc *SubscriberConnector) waitForRetry() {
 	var retryInterval int32
 
 	if sc.connectAttempt > 0 {
-		retryInterval = sc.RetryInterval * int32(math.Pow(2, exponent))
-	}
+		// Apply maximum before conversion, product can exceed the range of an int32
+		backoff := int64(sc.RetryInterval) * int64(math.Pow(2, exponent))
+
+		if backoff > int64(sc.MaxRetryInterval) {
+			backoff = int64(sc.MaxRetryInterval)
+		}
 
-	if retryInterval > sc.MaxRetryInterval {
-		retryInterval = sc.MaxRetryInterval
+		retryInterval = int32(backoff)
 	}
 
 	// Notify the user that we are attempting to reconnect.
-- 
2.43.0


From a09a2beefd83fbe94573ecb761557ab95a23ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:11 +0000
Subject: [PATCH 11/49] fix: convert a Boolean value to an int32 for Int32
 expressions

---
 sttp/data/ValueExpression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index b9b401d..4eeb086 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -410,7 +410,7 @@ func (ve *ValueExpression) convertFromBoolean(targetValueType ExpressionValueTyp
 	case ExpressionValueType.Boolean:
 		return newValueExpression(targetValueType, value != 0), nil
 	case ExpressionValueType.Int32:
-		return newValueExpression(targetValueType, value), nil
+		return newValueExpression(targetValueType, int32(value)), nil
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
-- 
2.43.0


From eb11c260e01f262a148f3eb09c7b8750b09f81fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:26 +0000
Subject: [PATCH 12/49] fix: report a zero divisor as an evaluation error

---
 sttp/data/ExpressionTree.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index feea2c1..fd1c671 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2647,10 +2647,22 @@ func (et *ExpressionTree) divideOp(leftValue, rightValue *ValueExpression, value
 
 	switch valueType {
 	case ExpressionValueType.Int32:
+		if rightValue.int32Value() == 0 {
+			return nil, errors.New("division \"/\" operator divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()/rightValue.int32Value())), nil
 	case ExpressionValueType.Int64:
+		if rightValue.int64Value() == 0 {
+			return nil, errors.New("division \"/\" operator divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int64, int64(leftValue.int64Value()/rightValue.int64Value())), nil
 	case ExpressionValueType.Decimal:
+		if rightValue.decimalValue().IsZero() {
+			return nil, errors.New("division \"/\" operator divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Decimal, leftValue.decimalValue().Div(rightValue.decimalValue())), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, float64(leftValue.doubleValue()/rightValue.doubleValue())), nil
@@ -2681,10 +2693,22 @@ func (et *ExpressionTree) modulusOp(leftValue, rightValue *ValueExpression, valu
 
 	switch valueType {
 	case ExpressionValueType.Int32:
+		if rightValue.int32Value() == 0 {
+			return nil, errors.New("modulus \"%\" operator divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()%rightValue.int32Value())), nil
 	case ExpressionValueType.Int64:
+		if rightValue.int64Value() == 0 {
+			return nil, errors.New("modulus \"%\" operator divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Int64, int64(leftValue.int64Value()%rightValue.int64Value())), nil
 	case ExpressionValueType.Decimal:
+		if rightValue.decimalValue().IsZero() {
+			return nil, errors.New("modulus \"%\" operator divisor is zero")
+		}
+
 		return newValueExpression(ExpressionValueType.Decimal, leftValue.decimalValue().Mod(rightValue.decimalValue())), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, math.Mod(leftValue.doubleValue(), rightValue.doubleValue())), nil
-- 
2.43.0


From d3af151621308c87b589e89f084cd3fb641dce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:20 +0000
Subject: [PATCH 13/49] fix: give a Boolean null for comparisons with null

---
 sttp/data/ExpressionTree.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index fd1c671..f54b05e 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -3000,7 +3000,7 @@ func (et *ExpressionTree) bitwiseXorOp(leftValue, rightValue *ValueExpression, v
 func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3034,7 +3034,7 @@ func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, val
 func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3070,7 +3070,7 @@ func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpressi
 func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3104,7 +3104,7 @@ func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression,
 func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3140,7 +3140,7 @@ func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpre
 func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3177,7 +3177,7 @@ func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueT
 func (et *ExpressionTree) notEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
-- 
2.43.0


From cfc2e37c4d2b4f7518e303469961b34944eb6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:33 +0000
Subject: [PATCH 14/49] fix: report a non-finite number converted to a decimal
 as an error

---
 sttp/data/ValueExpression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index 4eeb086..bfc39f1 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -515,6 +516,9 @@ func (ve *ValueExpression) convertFromDouble(targetValueType ExpressionValueType
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert non-finite \"Double\" to \"Decimal\"")
+		}
 		return newValueExpression(targetValueType, decimal.NewFromFloat(value)), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(targetValueType, value), nil
-- 
2.43.0


From cfc749f23af863548e5207c0e7bc77a2a491b155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:15 +0000
Subject: [PATCH 15/49] fix: keep the sign when shifting an Int64 value right

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index f54b05e..0829fb9 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2877,7 +2877,7 @@ func (et *ExpressionTree) bitShiftRightOp(leftValue, rightValue *ValueExpression
 		if shiftAmount < 0 {
 			shiftAmount = 64 - (abs(shiftAmount) % 64)
 		}
-		return newValueExpression(ExpressionValueType.Int64, int64(uint64(leftValue.int64Value())>>shiftAmount)), nil
+		return newValueExpression(ExpressionValueType.Int64, leftValue.int64Value()>>shiftAmount), nil
 	case ExpressionValueType.Decimal:
 		fallthrough
 	case ExpressionValueType.Double:
-- 
2.43.0


From 5174377a1af748a7abd2fcfc84e724181d7b0c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:02 +0000
Subject: [PATCH 16/49] fix: match the whole text by a LIKE pattern without
 wildcards

---
 sttp/data/ExpressionTree.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 0829fb9..0ce205a 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -3249,7 +3249,7 @@ func (et *ExpressionTree) likeOp(leftValue, rightValue *ValueExpression, exactMa
 	}
 
 	// "*" or "**" expression means match everything
-	if len(testExpression) == 0 {
+	if len(testExpression) == 0 && (startsWithWildcard || endsWithWildcard) {
 		return True, nil
 	}
 
@@ -3294,6 +3294,19 @@ func (et *ExpressionTree) likeOp(leftValue, rightValue *ValueExpression, exactMa
 		}
 	}
 
+	// Without wild cards, pattern must match the whole string
+	if !startsWithWildcard && !endsWithWildcard {
+		if exactMatch {
+			if leftOperand == testExpression {
+				return True, nil
+			}
+		} else {
+			if strings.ToUpper(leftOperand) == strings.ToUpper(testExpression) {
+				return True, nil
+			}
+		}
+	}
+
 	return False, nil
 }
 
-- 
2.43.0


From 872d636dfe1f806179307204437a1afc0785a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:05 +0000
Subject: [PATCH 17/49] fix: replace case-insensitively with the literal text

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 0ce205a..f2cbfba 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2261,7 +2261,7 @@ func (et *ExpressionTree) replace(sourceValue, testValue, replaceValue, ignoreCa
 			return nil, errors.New("failed while compiling \"Replace\" function case-insensitive RegEx replace expression for test value, second argument: " + err.Error())
 		}
 
-		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllString(sourceValue.stringValue(), replaceValue.stringValue())), nil
+		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllLiteralString(sourceValue.stringValue(), replaceValue.stringValue())), nil
 	}
 
 	return newValueExpression(ExpressionValueType.String, strings.ReplaceAll(sourceValue.stringValue(), testValue.stringValue(), replaceValue.stringValue())), nil
-- 
2.43.0


From f59c62dc013f0cb9cdc83ef960b691433d6507fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:08 +0000
Subject: [PATCH 18/49] fix: order null before other texts in StrCmp

---
 sttp/data/ExpressionTree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index f2cbfba..a19d140 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2464,12 +2464,12 @@ func (et *ExpressionTree) strCmp(leftValue, rightValue, ignoreCase *ValueExpress
 
 	// If left value is null, right non-null value will be considered greater
 	if leftValue.IsNull() {
-		return newValueExpression(ExpressionValueType.Int32, int32(1)), nil
+		return newValueExpression(ExpressionValueType.Int32, int32(-1)), nil
 	}
 
 	// If right value is null, left non-null value will be considered greater
 	if rightValue.IsNull() {
-		return newValueExpression(ExpressionValueType.Int32, int32(-1)), nil
+		return newValueExpression(ExpressionValueType.Int32, int32(1)), nil
 	}
 
 	var err error
-- 
2.43.0


From e90042a92bf7e645e9d8fe6986a346577220c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:10 +0000
Subject: [PATCH 19/49] fix: avoid overflow in the SubStr length check

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index a19d140..3b9c751 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2521,7 +2521,7 @@ func (et *ExpressionTree) subStr(sourceValue, indexValue, lengthValue *ValueExpr
 			return EmptyString, nil
 		}
 
-		if index+length < len(sourceText) {
+		if length < len(sourceText)-index {
 			return newValueExpression(ExpressionValueType.String, sourceText[index:index+length]), nil
 		}
 	}
-- 
2.43.0


From cce467b48f28bfe4abeada04fe5dec5e433756ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:13 +0000
Subject: [PATCH 20/49] fix: end NthIndexOf at the end of the source text

---
 sttp/data/ExpressionTree.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 3b9c751..bad4822 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -3369,6 +3369,16 @@ func findNthIndex(source, test string, index int) int {
 
 		location++
 		result += location
+
+		// Empty test value found at end of source has no further occurrences
+		if location > len(source) {
+			if i < index {
+				result = 0
+			}
+
+			break
+		}
+
 		source = source[location:]
 	}
 
-- 
2.43.0


From 5684c410d58f977d0b8cb1b7537417a5e340ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:16 +0000
Subject: [PATCH 21/49] fix: return the requested part in Split

---
 sttp/data/ExpressionTree.go | 39 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index bad4822..ac7db4c 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2343,19 +2343,26 @@ func (et *ExpressionTree) split(sourceValue, delimiterValue, indexValue, ignoreC
 	}
 
 	index := indexValue.integerValue(-1)
-	var result []int
+	var result []string
 
 	if ignoreCase.booleanValue() {
-		result = splitNthIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(delimiterValue.stringValue()), index)
+		regex, err := regexp.Compile("(?i)" + regexp.QuoteMeta(delimiterValue.stringValue()))
+
+		if err != nil {
+			return nil, errors.New("failed while compiling \"Split\" function case-insensitive RegEx expression for delimiter value, second argument: " + err.Error())
+		}
+
+		result = regex.Split(sourceValue.stringValue(), -1)
 	} else {
-		result = splitNthIndex(sourceValue.stringValue(), delimiterValue.stringValue(), index)
+		result = strings.Split(sourceValue.stringValue(), delimiterValue.stringValue())
 	}
 
-	if result == nil {
-		return EmptyString, nil
+	// If index is out of range, result is Null
+	if index < 0 || index >= len(result) {
+		return NullValue(ExpressionValueType.String), nil
 	}
 
-	return newValueExpression(ExpressionValueType.String, sourceValue.stringValue()[result[0]:result[1]]), nil
+	return newValueExpression(ExpressionValueType.String, result[index]), nil
 }
 
 func (et *ExpressionTree) sqrt(sourceValue *ValueExpression) (*ValueExpression, error) {
@@ -3384,23 +3391,3 @@ func findNthIndex(source, test string, index int) int {
 
 	return result - 1
 }
-
-// https://play.golang.org/p/_7nc06CqjKi
-func splitNthIndex(source, test string, index int) []int {
-	firstIndex := findNthIndex(source, test, index-1)
-	secondIndex := findNthIndex(source, test, index)
-
-	if firstIndex <= 0 && secondIndex <= 0 {
-		return nil
-	}
-
-	if firstIndex <= 0 {
-		return []int{0, secondIndex}
-	}
-
-	if secondIndex <= 0 {
-		return []int{firstIndex + len(test), len(source)}
-	}
-
-	return []int{firstIndex + len(test), secondIndex}
-}
-- 
2.43.0


From 4237fedeb84a64d4cbd5cfe1767eaf72f4575d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:24 +0000
Subject: [PATCH 22/49] fix: IIf tests its first argument

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index ac7db4c..2eef4b1 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -691,7 +691,7 @@ func (et *ExpressionTree) evaluateIIf(arguments []Expression) (*ValueExpression,
 	var testValue *ValueExpression
 	var err error
 
-	if testValue, err = et.evaluate(arguments[1]); err != nil {
+	if testValue, err = et.evaluate(arguments[0]); err != nil {
 		return nil, errors.New("failed while evaluating \"IIf\" function test value, first argument: " + err.Error())
 	}
 
-- 
2.43.0


From 6293780f2e935ac5989f9a0618745c27211f8327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:27 +0000
Subject: [PATCH 23/49] fix: IN of a null value gives a Boolean null

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 2eef4b1..1b50cce 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -355,7 +355,7 @@ func (et *ExpressionTree) evaluateInList(expression Expression) (*ValueExpressio
 
 	// If in list test value is Null, result is Null
 	if inListValue.IsNull() {
-		return NullValue(inListValue.ValueType()), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	hasNotKeyWord := inListExpression.HasNotKeyword()
-- 
2.43.0


From 73b13d67ccc24fab5807276b6e0e82893d3fdf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:29 +0000
Subject: [PATCH 24/49] fix: Power uses its exponent argument

---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 1b50cce..95834e8 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2150,7 +2150,7 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 		return nil, errors.New("failed while converting \"Power\" function source value, first argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-	if exponentValue, err = sourceValue.Convert(valueType); err != nil {
+	if exponentValue, err = exponentValue.Convert(valueType); err != nil {
 		return nil, errors.New("failed while converting \"Power\" function exponent value, second argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-- 
2.43.0


From 607d98aa0702c6edb75f00ffa770b6732f5c5165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:52 +0000
Subject: [PATCH 25/49] fix: negative power of a zero Decimal is an error

---
 sttp/data/ExpressionTree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 95834e8..d2a4384 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2162,6 +2162,10 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 	case ExpressionValueType.Int64:
 		return newValueExpression(ExpressionValueType.Int64, int64(math.Pow(float64(sourceValue.int64Value()), float64(exponentValue.int64Value())))), nil
 	case ExpressionValueType.Decimal:
+		if sourceValue.decimalValue().IsZero() && exponentValue.decimalValue().Sign() < 0 {
+			return nil, errors.New("cannot raise zero to a negative power in \"Power\" function")
+		}
+
 		return newValueExpression(ExpressionValueType.Decimal, sourceValue.decimalValue().Pow(exponentValue.decimalValue())), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, math.Pow(sourceValue.doubleValue(), exponentValue.doubleValue())), nil
-- 
2.43.0


From 0c9ea65a0391f05a0f1d3dd53debe93182fc9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:44 +0000
Subject: [PATCH 26/49] fix: computed column with a null expression is null

---
 sttp/data/DataRow.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 74f9977..0e7d2be 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -124,6 +124,10 @@ func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
 		return nil, errors.New("failed to evaluate expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
 	}
 
+	if sourceValue.IsNull() {
+		return nil, nil
+	}
+
 	targetType := column.Type()
 
 	switch sourceValue.ValueType() {
-- 
2.43.0


From bbedb268b3b9b39ad72786925a63a8690b209bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:47 +0000
Subject: [PATCH 27/49] fix: ValueByName evaluates computed columns

---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 0e7d2be..388226e 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -507,7 +507,7 @@ func (dr *DataRow) ValueByName(columnName string) (interface{}, error) {
 		return nil, err
 	}
 
-	return dr.values[index], nil
+	return dr.Value(index)
 }
 
 // SetValue assigns the record value at the specified columnIndex.
-- 
2.43.0


From 9e4c0f01e54cf9f8421c19b66e9a8e9543ab6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:50 +0000
Subject: [PATCH 28/49] fix: computed Boolean column from DateTime follows
 CONVERT

---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 388226e..93c660d 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -444,7 +444,7 @@ func convertFromDateTime(value time.Time, targetType DataTypeEnum) (interface{},
 	case DataType.String:
 		return value.Format(DateTimeFormat), nil
 	case DataType.Boolean:
-		return seconds == 0, nil
+		return seconds != 0, nil
 	case DataType.DateTime:
 		return value, nil
 	case DataType.Single:
-- 
2.43.0


From 6e2d30f980de932434325bceaf78d4698850f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:53 +0000
Subject: [PATCH 29/49] fix: computed Decimal column of a number that is not
 finite is an error

---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 93c660d..4cd15b2 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -324,6 +325,10 @@ func convertFromDouble(value float64, targetType DataTypeEnum) (interface{}, err
 	case DataType.Double:
 		return value, nil
 	case DataType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert \"Double\" expression value that is not a finite number to \"" + targetType.String() + "\" column")
+		}
+
 		return decimal.NewFromFloat(value), nil
 	case DataType.Int8:
 		return int8(value), nil
-- 
2.43.0


From 38ddad56b78e76673462c427435f5a2f56ead819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:59 +0000
Subject: [PATCH 30/49] fix: ORDER BY matches case only with BINARY

---
 sttp/data/FilterExpressionParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 8196cc4..eef6ece 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -472,7 +472,7 @@ func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterSt
 			fep.activeExpressionTree.OrderByTerms = append(fep.activeExpressionTree.OrderByTerms, &OrderByTerm{
 				Column:     orderByColumn,
 				Ascending:  orderingTermContext.K_DESC() == nil,
-				ExactMatch: orderingTermContext.ExactMatchModifier() == nil,
+				ExactMatch: orderingTermContext.ExactMatchModifier() != nil,
 			})
 		}
 	}
-- 
2.43.0


From 4846a7dfa0b8395bdc47cb219b778dc8f2f14e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:03 +0000
Subject: [PATCH 31/49] fix: hand a copy of uncompressed metadata to its
 callback

---
 sttp/transport/DataSubscriber.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 3c00944..2a93997 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1028,6 +1028,9 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 			ds.dispatchStatusMessage(fmt.Sprintf("Decompressed %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(decompressStarted).Seconds(), 3)))
 		} else {
 			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
+
+			// Data is in the read buffer that the next packet overwrites
+			data = append([]byte{}, data...)
 		}
 
 		go metadataReceivedCallback(data)
-- 
2.43.0


From c03ee223a3bfcf01a9354bd72edeebbc5260571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:03 +0000
Subject: [PATCH 32/49] fix: compare sets with slices that repeat elements

---
 sttp/hashset/HashSet.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sttp/hashset/HashSet.go b/sttp/hashset/HashSet.go
index fe55548..a2b36e8 100644
--- a/sttp/hashset/HashSet.go
+++ b/sttp/hashset/HashSet.go
@@ -125,6 +125,8 @@ func (hs HashSet[T]) ExceptWithSet(other HashSet[T]) {
 
 // SymmetricExceptWith modifies the current set to contain only elements that are present either in the set or in the specified slice, but not both.
 func (hs HashSet[T]) SymmetricExceptWith(other []T) {
+	other = NewHashSet(other).Keys()
+
 	if hs.IsEmpty() {
 		// If set is empty, then symmetric difference is other
 		hs.UnionWith(other)
@@ -182,6 +184,8 @@ func (hs HashSet[T]) UnionWithSet(other HashSet[T]) {
 // SetEquals determines whether a set and the specified slice contain the same elements.
 // Returns true if the set is equal to other slice items; otherwise, false.
 func (hs HashSet[T]) SetEquals(other []T) bool {
+	other = NewHashSet(other).Keys()
+
 	if len(hs) != len(other) {
 		return false
 	}
@@ -287,11 +291,6 @@ func (hs HashSet[T]) IsSupersetOf(other []T) bool {
 		return true
 	}
 
-	// If slice has more elements than set, then it can't be a superset
-	if len(other) > len(hs) {
-		return false
-	}
-
 	for _, v := range other {
 		if !hs.Contains(v) {
 			return false
@@ -320,6 +319,8 @@ func (hs HashSet[T]) IsProperSupersetOf(other []T) bool {
 		return true // Set has at least one element, based on prior check
 	}
 
+	other = NewHashSet(other).Keys()
+
 	// If slice has more or equal elements than set, then it can't be a proper superset
 	if len(other) >= len(hs) {
 		return false
-- 
2.43.0


From f5c8c323ca234949175cbce4774cff31ffc6ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:03 +0000
Subject: [PATCH 33/49] fix: read integers in data set records as decimal

---
 sttp/data/DataSet.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 91d82cb..cde4703 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -310,28 +310,28 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 					g, _ := guid.Parse(value)
 					dataRow.SetValue(columnIndex, g)
 				case DataType.Int8:
-					i8, _ := strconv.ParseInt(value, 0, 8)
+					i8, _ := strconv.ParseInt(value, 10, 8)
 					dataRow.SetValue(columnIndex, int8(i8))
 				case DataType.Int16:
-					i16, _ := strconv.ParseInt(value, 0, 16)
+					i16, _ := strconv.ParseInt(value, 10, 16)
 					dataRow.SetValue(columnIndex, int16(i16))
 				case DataType.Int32:
-					i32, _ := strconv.ParseInt(value, 0, 32)
+					i32, _ := strconv.ParseInt(value, 10, 32)
 					dataRow.SetValue(columnIndex, int32(i32))
 				case DataType.Int64:
-					i64, _ := strconv.ParseInt(value, 0, 64)
+					i64, _ := strconv.ParseInt(value, 10, 64)
 					dataRow.SetValue(columnIndex, i64)
 				case DataType.UInt8:
-					ui8, _ := strconv.ParseUint(value, 0, 8)
+					ui8, _ := strconv.ParseUint(value, 10, 8)
 					dataRow.SetValue(columnIndex, uint8(ui8))
 				case DataType.UInt16:
-					ui16, _ := strconv.ParseUint(value, 0, 16)
+					ui16, _ := strconv.ParseUint(value, 10, 16)
 					dataRow.SetValue(columnIndex, uint16(ui16))
 				case DataType.UInt32:
-					ui32, _ := strconv.ParseUint(value, 0, 32)
+					ui32, _ := strconv.ParseUint(value, 10, 32)
 					dataRow.SetValue(columnIndex, uint32(ui32))
 				case DataType.UInt64:
-					ui64, _ := strconv.ParseUint(value, 0, 64)
+					ui64, _ := strconv.ParseUint(value, 10, 64)
 					dataRow.SetValue(columnIndex, ui64)
 				}
 			}
-- 
2.43.0


From 756b1b483e1ca5119d4ef5bbe87afdacc30e3c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:03 +0000
Subject: [PATCH 34/49] fix: read 1 as true in data set records

---
 sttp/data/DataSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index cde4703..1683d70 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -293,7 +293,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				case DataType.String:
 					dataRow.SetValue(columnIndex, value)
 				case DataType.Boolean:
-					dataRow.SetValue(columnIndex, value == "true")
+					dataRow.SetValue(columnIndex, value == "true" || value == "1")
 				case DataType.DateTime:
 					dt, _ := time.Parse(DateTimeFormat, value)
 					dataRow.SetValue(columnIndex, dt)
-- 
2.43.0


From dac7796177fcabd120e4054b9e8113d5097dccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:03 +0000
Subject: [PATCH 35/49] fix: read UTC times in data set records

---
 sttp/data/DataSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 1683d70..6cf4451 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -295,7 +295,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				case DataType.Boolean:
 					dataRow.SetValue(columnIndex, value == "true" || value == "1")
 				case DataType.DateTime:
-					dt, _ := time.Parse(DateTimeFormat, value)
+					dt, _ := time.Parse(time.RFC3339, value)
 					dataRow.SetValue(columnIndex, dt)
 				case DataType.Single:
 					f32, _ := strconv.ParseFloat(value, 32)
-- 
2.43.0


From f02e45a2c44ea91f6f19876a0c6ee1b3c572c4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:03 +0000
Subject: [PATCH 36/49] fix: resolve XML escapes in data set records

---
 sttp/data/DataSet.go | 2 +-
 sttp/xml/XmlNode.go  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 6cf4451..68f0e36 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -287,7 +287,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				}
 
 				columnIndex := column.Index()
-				value := field.Value()
+				value := field.Text
 
 				switch column.Type() {
 				case DataType.String:
diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 9c9de1a..a71c3d2 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -38,6 +38,8 @@ type XmlNode struct {
 	Namespace string `xml:"-"`
 	// InnerXml is the XML content of the child nodes of this node.
 	InnerXml []byte `xml:",innerxml"`
+	// Text is the character data directly within this node, with any XML escapes resolved.
+	Text string `xml:",chardata"`
 	// ChildNodes is a the collection of child nodes of this node.
 	ChildNodes []XmlNode `xml:",any"`
 	// Parent is the parent of this node. Value will be nil if node has no parent, e.g., XmlDocument.Root.
-- 
2.43.0


From 42c1632744557549869be5080fa420acf2b26d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:40 +0000
Subject: [PATCH 37/49] fix: mark a thread as running before its goroutine
 starts

---
 sttp/thread/Thread.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sttp/thread/Thread.go b/sttp/thread/Thread.go
index 9bba841..c5a8c08 100644
--- a/sttp/thread/Thread.go
+++ b/sttp/thread/Thread.go
@@ -47,7 +47,7 @@ func (thread *Thread) Start() {
 		panic("thread has no execution function defined")
 	}
 
-	if thread.running.IsSet() {
+	if !thread.running.SetToIf(false, true) {
 		panic("thread is already running")
 	}
 
@@ -88,9 +88,8 @@ func (thread *Thread) IsRunning() bool {
 }
 
 func (thread *Thread) run() {
-	defer thread.running.UnSet()
 	defer thread.mutex.Unlock()
+	defer thread.running.UnSet()
 
-	thread.running.Set()
 	thread.exec()
 }
-- 
2.43.0


From cc3c66acfc92ab088b99ffbc98f8dbebde0b93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:42 +0000
Subject: [PATCH 38/49] fix: end measurement reading when the reader is closed

---
 sttp/MeasurementReader.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sttp/MeasurementReader.go b/sttp/MeasurementReader.go
index 1804b27..8039b17 100644
--- a/sttp/MeasurementReader.go
+++ b/sttp/MeasurementReader.go
@@ -32,16 +32,22 @@ import (
 // MeasurementReader defines an STTP measurement reader.
 type MeasurementReader struct {
 	current chan *transport.Measurement
+	closed  chan struct{}
 }
 
 func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 	reader := &MeasurementReader{
 		current: make(chan *transport.Measurement),
+		closed:  make(chan struct{}),
 	}
 
 	parent.SetNewMeasurementsReceiver(func(measurements *[]transport.Measurement) {
 		for _, m := range *measurements {
-			reader.current <- &m
+			select {
+			case reader.current <- &m:
+			case <-reader.closed:
+				return
+			}
 		}
 	})
 
@@ -50,7 +56,8 @@ func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 
 // NextMeasurement blocks current thread until a new measurement arrives or provided context is completed.
 // Returns tuple of measurement and completed state. Completed state flag will be false if a measurement
-// was received; otherwise, state flag will be true along with a nil measurement when context is done.
+// was received; otherwise, state flag will be true along with a nil measurement when context is done or
+// the reader is closed.
 func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Measurement, bool) {
 	if ctx == nil {
 		ctx = context.Background()
@@ -59,12 +66,14 @@ func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Me
 	select {
 	case <-ctx.Done():
 		return nil, true
+	case <-mr.closed:
+		return nil, true
 	case measurement := <-mr.current:
 		return measurement, false
 	}
 }
 
-// Close closes the measurement reader channel.
+// Close closes the measurement reader. Measurements that arrive afterwards are dropped.
 func (mr *MeasurementReader) Close() {
-	close(mr.current)
+	close(mr.closed)
 }
-- 
2.43.0


From 2efcb6d390dfcbe2b8713d004b1b72bc681e254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:43 +0000
Subject: [PATCH 39/49] fix: accept IPv6 addresses for connecting and listening

---
 sttp/transport/DataSubscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 2a93997..31526fd 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -358,7 +358,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	ds.connector.connectionRefused.UnSet()
 
 	// TODO: Add TLS implementation options
-	conn, err := net.Dial("tcp", hostName+":"+strconv.Itoa(int(port)))
+	conn, err := net.Dial("tcp", net.JoinHostPort(hostName, strconv.Itoa(int(port))))
 
 	if err == nil {
 		ds.establishConnection(conn, false)
@@ -442,7 +442,7 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 	var err error
 
 	// TODO: Add TLS implementation options
-	ds.listeningSocket, err = net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
+	ds.listeningSocket, err = net.Listen("tcp", net.JoinHostPort(networkInterface, strconv.Itoa(int(port))))
 
 	if err != nil {
 		return err
-- 
2.43.0


From 4f1a6275f3e70ef64ac6af200dde6adf568eeed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:32:44 +0000
Subject: [PATCH 40/49] fix: report signal references of another format as
 unknown

---
 sttp/transport/MeasurementMetadata.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/MeasurementMetadata.go b/sttp/transport/MeasurementMetadata.go
index a96ecce..4936258 100644
--- a/sttp/transport/MeasurementMetadata.go
+++ b/sttp/transport/MeasurementMetadata.go
@@ -70,9 +70,12 @@ type MeasurementMetadata struct {
 func (mm *MeasurementMetadata) ParseSignalReference() (source string, signalKind SignalKindEnum, position int) {
 	signalReference := mm.SignalReference
 	parts := strings.Split(signalReference, "-")
+	lastIndex := len(parts) - 1
 
-	if len(parts) > 1 {
-		lastIndex := len(parts) - 1
+	// Signal kind is unknown when reference is not normally formatted
+	signalKind = SignalKind.Unknown
+
+	if lastIndex > 0 && len(parts[lastIndex]) >= 2 {
 		typeInfo := parts[lastIndex]
 		signalKind = ParseSignalKindAcronym(typeInfo[:2])
 		position, _ = strconv.Atoi(typeInfo[2:])
-- 
2.43.0


From 530ab6ec2daf533449fe9c505794d33ea4349281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:07 +0000
Subject: [PATCH 41/49] fix: Send messages to the loggers set last

---
 sttp/Subscriber.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 91c01b1..b56e82f 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -244,9 +244,9 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	con.ErrorMessageCallback = sb.errorMessageLogger
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	con.ErrorMessageCallback = sb.ErrorMessage
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
@@ -330,8 +330,8 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	ds.ConnectionEstablishedCallback = sb.handleConnect
-- 
2.43.0


From 986842910739d7adc89ee6a3884e8d5b9df4c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:16 +0000
Subject: [PATCH 42/49] fix: assign the subscription updated callback under the
 lock of its reader

---
 sttp/Subscriber.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index b56e82f..2cabddc 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -754,10 +754,11 @@ func (sb *Subscriber) SetMetadataReceiver(callback func(dataSet *data.DataSet))
 // SignalIndexCache has been received.
 // Assignment will take effect immediately, even while subscription is active.
 func (sb *Subscriber) SetSubscriptionUpdatedReceiver(callback func(signalIndexCache *transport.SignalIndexCache)) {
-	sb.beginCallbackAssignment()
-	defer sb.endCallbackAssignment()
+	ds := sb.dataSubscriber()
+	ds.BeginCallbackAssignment()
+	defer ds.EndCallbackAssignment()
 
-	sb.dataSubscriber().SubscriptionUpdatedCallback = callback
+	ds.SubscriptionUpdatedCallback = callback
 }
 
 // SetDataStartTimeReceiver defines the callback that handles notification of first received measurement.
-- 
2.43.0


From 870cadbf3edbbb6111c4295e5d5a39e4cca5bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:14:55 +0000
Subject: [PATCH 43/49] fix: select nothing for a path with an empty predicate

---
 sttp/xml/XmlNode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index a71c3d2..e85a274 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -171,7 +171,7 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 				name := expr[:lbp]
 				predicate := expr[lbp+1 : rbp]
 
-				if predicate[0] == '@' {
+				if strings.HasPrefix(predicate, "@") {
 					if isMatch(node.Name, name) && node.attributeMatch(predicate[1:]) {
 						results = append(results, node)
 					}
-- 
2.43.0


From cb8da60c1fadb142f15490543e507972edd2f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:14:57 +0000
Subject: [PATCH 44/49] fix: accept an empty text in the predicate of a path

---
 sttp/xml/XmlNode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index e85a274..7fa6900 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -267,7 +267,7 @@ func (xn *XmlNode) valueMatch(expr string) bool {
 }
 
 func removeQuotes(value string) string {
-	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 2 {
+	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 1 {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From 716c9669ee0874bf1cac562a0b6379ea189578fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:14:59 +0000
Subject: [PATCH 45/49] fix: select only nodes with attributes for any
 attribute

---
 sttp/xml/XmlNode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 7fa6900..800532b 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -215,7 +215,7 @@ func (xn *XmlNode) attributeMatch(expr string) bool {
 
 	if parts[0] == "*" {
 		if len(parts) == 1 {
-			return true
+			return len(xn.Attributes) > 0
 		}
 
 		// Check if any attribute value matches
-- 
2.43.0


From a3d771d41b01cb623f68601bca19de4198c14ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:02 +0000
Subject: [PATCH 46/49] fix: compare the whole text in the predicate of a path

---
 sttp/xml/XmlNode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 800532b..4b8ab5a 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -207,7 +207,7 @@ func isMatch(value, name string) bool {
 }
 
 func (xn *XmlNode) attributeMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
@@ -249,7 +249,7 @@ func (xn *XmlNode) childValueMatch(expr string) bool {
 }
 
 func (xn *XmlNode) valueMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
-- 
2.43.0


From 80adf516247155c2a68168b3e76a267252ed43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:03 +0000
Subject: [PATCH 47/49] fix: write infinite numbers without grouping

---
 sttp/format/Float.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sttp/format/Float.go b/sttp/format/Float.go
index 76e484c..57cd132 100644
--- a/sttp/format/Float.go
+++ b/sttp/format/Float.go
@@ -25,6 +25,7 @@
 package format
 
 import (
+	"math"
 	"strconv"
 	"strings"
 )
@@ -39,6 +40,11 @@ func Float(f float64, prec int) string {
 // and the specified numeric thousands groupSymbol, e.g., ','.
 func FloatWith(f float64, prec int, decimalSymbol, groupSymbol byte) string {
 	in := strconv.FormatFloat(f, 'f', prec, 64)
+
+	if math.IsInf(f, 0) {
+		return in // No digits to group
+	}
+
 	decSymbolAsStr := string([]byte{decimalSymbol})
 
 	if decimalSymbol != '.' {
-- 
2.43.0


From 057e44f7734d15cb24e7382f78ce86fe6378ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:06 +0000
Subject: [PATCH 48/49] fix: return no rows from RowsWhere for a limit of zero

---
 sttp/data/DataTable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/data/DataTable.go b/sttp/data/DataTable.go
index 4b5209d..1540479 100644
--- a/sttp/data/DataTable.go
+++ b/sttp/data/DataTable.go
@@ -155,6 +155,10 @@ func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*Data
 	matchingRows := make([]*DataRow, 0)
 	count := 0
 
+	if limit == 0 {
+		return matchingRows
+	}
+
 	for i := 0; i < len(dt.rows); i++ {
 		dataRow := dt.rows[i]
 
-- 
2.43.0


From 8251055ece48489898e6bbf8e2aff0ad13e434b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:07 +0000
Subject: [PATCH 49/49] fix: do not mark a subscriber as disconnecting while it
 unsubscribes

---
 sttp/transport/DataSubscriber.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 31526fd..ba9f1cc 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -578,8 +578,6 @@ func (ds *DataSubscriber) Unsubscribe() {
 
 	ds.SendServerCommand(ServerCommand.Unsubscribe)
 
-	ds.disconnecting.Set()
-
 	if ds.dataChannelSocket != nil {
 		if err := ds.dataChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
@@ -589,8 +587,6 @@ func (ds *DataSubscriber) Unsubscribe() {
 	if ds.dataChannelResponseThread != nil {
 		ds.dataChannelResponseThread.Join()
 	}
-
-	ds.disconnecting.UnSet()
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
-- 
2.43.0

