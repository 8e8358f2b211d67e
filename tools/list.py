prop("G01", "GUID byte order round trip",
     "Decoding a GUID from 16 or more bytes places every byte at its wire position for both byte orders, encoding is the exact inverse for both byte orders, neither changes its input, and fewer than 16 bytes is an error with an empty GUID.",
     ["inputs"], "every byte slice, every GUID, both byte orders",
     "The test suite checks a few fixed GUIDs; the claim is over all 2^128 values and all slice lengths.",
     ["sttp/guid/Guid.go"], [("FromBytes / ToBytes / byte swap", "sttp/guid/Guid.go")], observe=["guid.FromBytes", "Guid.ToBytes"])
prop("G02", "GUID comparison is a total order",
     "Comparing two GUIDs returns -1, 0 or 1, is antisymmetric and transitive, and is 0 exactly when the GUIDs are equal.",
     ["inputs"], "every triple of GUIDs",
     "Transitivity and antisymmetry quantify over triples of 128-bit values; tests compare a handful of pairs.",
     ["sttp/guid/Guid.go"], [("Compare", "sttp/guid/Guid.go")], observe=["guid.Compare"])
prop("T02", "TSSC code words decode in step with the encoder for any history",
     "For every state of the adaptive code table, reading the bits that the encoder writes for a code yields that code, consumes exactly those bits and leaves reader and writer with the same table. The table adapts exactly as the TSSC reference does: after 6, then 21, then every 101 uses it is rebuilt from the use counts, choosing the smallest encoding with the simpler one winning ties and earlier codes winning ties of use.",
     ["inputs", "histories"], "every reachable table state, every code word, every bit string",
     "The table state is 32 counters plus mode, codes and stage; tests drive a few streams through it.",
     ["sttp/transport/tssc/PointMetadata.go"], [("WriteCode/ReadCode", "sttp/transport/tssc/PointMetadata.go"), ("adaptCommands, updatedCodeStatistics", "sttp/transport/tssc/PointMetadata.go")],
     observe=["values decoded from a compressed data packet"])
prop("T03", "TSSC bit fields and variable-length integers decode exactly",
     "Reading a single bit, a 4-bit or a 5-bit group from the compressed stream returns the next bits, most significant first, for every buffered bit state, and reading a 7-bit variable-length 32- or 64-bit integer returns the value whose encoding is at the read position and advances past exactly that encoding.",
     ["inputs"], "every buffer content, read position and bit cache state",
     "Tests reach only the bit offsets and lengths of their sample streams.",
     ["sttp/transport/tssc/Decoder.go"], [("readBit, readBits4, readBits5", "sttp/transport/tssc/Decoder.go"), ("decode7BitUInt32/64", "sttp/transport/tssc/Decoder.go")],
     observe=["values decoded from a compressed data packet"])
prop("K01", "Ticks leap second flags",
     "The leap second flag is the top bit of a Ticks value and the direction flag the next one: reading, setting and applying them touches only those bits, a negative leap second is reported only when both are set, and the timestamp portion is always the low 62 bits.",
     ["inputs"], "every 64-bit Ticks value",
     "Tests check a few values; the claim covers every combination of flag bits and timestamp.",
     ["sttp/ticks/Ticks.go"], [("leap second methods", "sttp/ticks/Ticks.go")], observe=["Ticks.IsLeapSecond", "Ticks.TimestampValue"])
prop("K02", "Ticks to time conversion is exact",
     "A Ticks value converts to the UTC time that many 100 ns intervals after the start of year 1, ignoring leap second flags, and converting a time back gives the same value; conversion to and from Unix nanoseconds is exact over the whole range that 64-bit nanoseconds can represent.",
     ["inputs"], "every Ticks value up to Max and every time in that range",
     "Off-by-one and overflow errors lie at values tests do not sample.",
     ["sttp/ticks/Ticks.go"], [("ToTime, FromTime, ToUnixNano, FromUnixNano", "sttp/ticks/Ticks.go")], observe=["Ticks.ToTime", "ticks.FromTime"])
prop("T05", "Compact measurement decoding",
     "Decoding a compact measurement reads the state flags, the signal index, the 32-bit value and, when time is included, the full timestamp or the 16-bit millisecond or 32-bit tick offset against the base time selected by the time index bit; it uses exactly the bytes of that layout, reports too few bytes as an error, leaves a zero time when the base time is not yet known, and never changes the base times. The length and flags computed for sending a measurement choose an offset form only when it decodes to the same time.",
     ["inputs"], "every byte string, signal index cache, base time pair, and both settings of time inclusion and millisecond resolution",
     "The layouts depend on two flag bits and two settings; tests decode a few samples.",
     ["sttp/transport/CompactMeasurement.go"], [("Decode, GetBinaryLength", "sttp/transport/CompactMeasurement.go")], observe=["measurements delivered to the subscriber"])
prop("T06", "Compact state flags mapping",
     "Each of the six groups of measurement state flags is one bit of the compact flags byte: decoding a byte sets exactly the full flags of the groups whose bit is set, plus the time index and base time offset bits; encoding sets exactly the bits of the groups with any flag set; encoding a decoded byte gives the byte back.",
     ["inputs"], "every flags byte and every 32-bit flags value",
     "The claim ranges over all 2^32 flag combinations.",
     ["sttp/transport/CompactMeasurement.go"], [("SetCompactStateFlags, GetCompactStateFlags", "sttp/transport/CompactMeasurement.go")], observe=["Measurement.Flags"])
prop("T08", "Signal index cache maps indexes to the published records",
     "Decoding a signal index cache reads the subscriber ID and then every record of the buffer in order, in the configured GUID byte order; a buffer that ends before the announced size or count is an error. Adding a record makes exactly that signal ID, source and number visible under its index, and the index visible under its signal ID, changes no other record and sets the source of metadata not yet known. Lookups of an unknown index or signal return the documented empty values.",
     ["inputs", "histories"], "every byte string, every cache content, every record and index",
     "The claim covers every length of the record list and every position of truncation; the tests hold no cache decoding.",
     ["sttp/transport/SignalIndexCache.go"], [("decode, addRecord, Record, SignalIndex", "sttp/transport/SignalIndexCache.go")],
     observe=["SignalIndexCache.Record", "signal IDs of delivered measurements"])
prop("T10", "Unvalidated publishers are cut off",
     "While a connection of protocol version 2 or later has not been validated, the first packet is accepted only if it is at most 8198 bytes and is a no-op or the success or failure answer to the operational modes command; anything else ends the connection, is not handled and does not validate it, and an oversized packet is not read. An accepted first response validates the connection. A subscription request is sent, exactly once, only when connected and validated, and otherwise is an error.",
     ["inputs"], "every packet header and first response, every version, validated or not, connected or not",
     "Tests have no hostile publisher; the claim covers every response and command code and every announced size.",
     ["sttp/transport/DataSubscriber.go"], [("processServerResponse, readPayloadHeader, Subscribe", "sttp/transport/DataSubscriber.go")],
     observe=["DataSubscriber.IsValidated", "connection termination"])
prop("T11", "Command framing",
     "Every command sent to the publisher is one write of the big-endian size of what follows, the command code and the payload bytes unchanged, for any payload length and whatever was sent before; a nil, empty or text payload is framed the same way, the caller's payload is not modified, nothing is sent while not connected, and a failed write ends the connection.",
     ["inputs", "histories"], "every command code, every payload content and length, two commands in a row, failing and succeeding socket",
     "Buffer growth makes the behaviour depend on payload length and on earlier commands; no unit test covers it.",
     ["sttp/transport/DataSubscriber.go"], [("SendServerCommandWithPayload, SendServerCommandWithMessage", "sttp/transport/DataSubscriber.go")],
     observe=["bytes written to the command channel"])
prop("T12", "Buffer blocks arrive once and in sequence",
     "A buffer block with the expected sequence number is delivered at once with its signal ID and exactly its own bytes, followed in order by the blocks received early up to the first missing one; an early block is kept without being delivered; a repeated block is ignored. Each new block is confirmed with its sequence number, the next expected number is the first missing one, and blocks still waiting are unchanged.",
     ["inputs", "histories"], "every block, sequence number, contents of the early-block cache and signal index cache, both header layouts",
     "The outcome depends on the whole cache of early blocks and on sequence wrap-around; no unit test covers it.",
     ["sttp/transport/DataSubscriber.go"], [("handleBufferBlock", "sttp/transport/DataSubscriber.go")],
     state=[("bufferBlockCache", "blocks received ahead of the expected one", "sttp/transport/DataSubscriber.go")],
     observe=["NewBufferBlocksCallback", "ConfirmBufferBlock commands"])
prop("T13", "Base times, start time and cipher keys are taken over exactly",
     "A base times update sets the time index and both base times to the big-endian values sent, a start time notification reports exactly the time sent, and a cipher key update takes the four length-prefixed blocks as the even and odd key and vector; a message too short for its contents changes nothing.",
     ["inputs"], "every message content and length, every previous state",
     "Truncation can occur at every byte; no unit test covers these messages.",
     ["sttp/transport/DataSubscriber.go"], [("handleUpdateBaseTimes, handleDataStartTime, handleUpdateCipherKeys", "sttp/transport/DataSubscriber.go")],
     observe=["timestamps of decoded measurements", "DataStartTimeCallback"])
prop("T15", "Operational modes request",
     "The operational modes command carries the protocol version, UTF-8 encoding and exactly the compression modes that are enabled: payload compression only when requested and not over UDP, with TSSC named only for versions below 10, and signal index cache and metadata compression as configured.",
     ["inputs"], "every version and every combination of settings",
     "A wrong bit changes what the publisher sends; no unit test checks the word for all settings.",
     ["sttp/transport/DataSubscriber.go"], [("sendOperationalModes", "sttp/transport/DataSubscriber.go")], observe=["DefineOperationalModes command"])
prop("T16", "Metadata lookup and adjusted values",
     "Looking up a signal returns its one registered metadata record, also when another thread registers it first; an unknown signal gets a new record with multiplier 1 and adder 0 that later lookups return. The adjusted value of a measurement is value times multiplier plus adder of its metadata, or the raw value without metadata, and reading it does not change the measurement.",
     ["inputs", "interleavings"], "every signal ID, registry content, multiplier, adder and value",
     "The race between the two registry accesses cannot be forced from a unit test.",
     ["sttp/transport/DataSubscriber.go"], [("LookupMetadata, Metadata, AdjustedValue", "sttp/transport/DataSubscriber.go")], observe=["DataSubscriber.AdjustedValue", "DataSubscriber.LookupMetadata"])
prop("T17", "Subscription request carries the settings",
     "A subscription request carries every setting of the subscription under its name and value in the defined order, the optional ones only when they are set, with the compact data flag and the length of the text; with a UDP data channel it is opened on the configured port. Sending it restarts decompression state and the measurement count.",
     ["inputs"], "every subscription setting, every text of filters, constraints and extra parameters",
     "The request text depends on some twenty settings; the tests never look at it.",
     ["sttp/transport/DataSubscriber.go"], [("Subscribe", "sttp/transport/DataSubscriber.go")], observe=["Subscribe command payload"])
prop("T01", "Compressed measurements decode to what was encoded",
     "For any state of the TSSC decoder, a measurement is decoded from its code words and bytes as TSSC defines: the ID is the expected next one changed by the given bits; the time is the last or second last one, one of the four remembered smallest steps forward or back, or the last one changed by the given bits; flags and value are one of the remembered ones, zero, or the last one changed by the given bits. It uses exactly those bytes and bits and updates what is remembered (times, steps, flags, values, next point) exactly as the encoder does. The end-of-stream code ends the packet, and code words in an impossible order are an error.",
     ["inputs", "histories"], "every decoder state (remembered times, steps, flags and values, known and unknown points), every sequence of code words of one measurement and all bytes",
     "The decoder's reaction depends on the history of every point; the tests decode nothing compressed.",
     ["sttp/transport/tssc/Decoder.go", "sttp/transport/tssc/PointMetadata.go"], [("TryGetMeasurement, decodePointID, decodeTimestamp, decodeStateFlags, decodeValue", "sttp/transport/tssc/Decoder.go")],
     state=[("prevTimestamp*, prevTimeDelta*", "remembered times and steps", "sttp/transport/tssc/Decoder.go"), ("points", "remembered flags and values per point", "sttp/transport/tssc/Decoder.go")],
     observe=["measurements delivered to the subscriber"])
prop("T04", "Compressed packets are decoded only in sequence",
     "A compressed packet is decoded only when its sequence number is the expected one, or zero, which starts decompression over; any other is dropped without changing the decoder or the expected number. After a packet the next number is expected, going from 65535 to 1. A packet of unknown version or with invalid data ends the connection. The measurements of a decoded packet are stored in the order they are decoded, with the signal ID that the packet's signal index cache gives to their index.",
     ["inputs", "histories"], "every packet, expected sequence number, known or fresh decoder, signal index cache and number of announced measurements",
     "Loss, reordering and wrap-around of sequence numbers never occur in the tests.",
     ["sttp/transport/DataSubscriber.go"], [("parseTSSCMeasurements", "sttp/transport/DataSubscriber.go")],
     state=[("tsscDecoder.SequenceNumber", "expected sequence number", "sttp/transport/tssc/Decoder.go")],
     observe=["measurements delivered to the subscriber", "connection termination"])
prop("T07", "Data packets deliver exactly the measurements they contain",
     "A data packet delivers, in one callback, exactly the measurements decoded from it, in order and unchanged, and adds their number to the count of received measurements. Nothing left from an earlier packet, zero or invented is delivered: an impossible announced count, a packet before its signal index cache, or data that ends early delivers only what was decoded. Each measurement is read right after the one before it with the subscription's time settings and the signal index cache the packet selects.",
     ["inputs", "histories"], "every packet content, flags and announced count, every content of the measurement pool, every time setting",
     "Reused measurement buffers make the delivery depend on earlier packets; no unit test sends a packet.",
     ["sttp/transport/DataSubscriber.go"], [("handleDataPacket, parseCompactMeasurements", "sttp/transport/DataSubscriber.go")],
     observe=["NewMeasurementsCallback", "DataSubscriber.TotalMeasurementsReceived"])
prop("T09", "No publisher response crashes the subscriber",
     "Whatever bytes a publisher sends as a response (any response and command code, any content and length, truncated or corrupt), handling it ends without a panic in every handler: success and failure answers, base times, cipher keys, signal index caches, buffer blocks, start time, notifications and compact, compressed or encrypted data packets. Key material, ciphertext or data that does not fit is reported instead.",
     ["inputs"], "every response packet of every length, every protocol version and setting",
     "A panic in a receive goroutine ends the program; the inputs that cause one are all truncations and corruptions of all messages.",
     ["sttp/transport/DataSubscriber.go", "sttp/transport/SignalIndexCache.go", "sttp/transport/CompactMeasurement.go", "sttp/transport/tssc/Decoder.go"],
     [("processServerResponse and the handle* functions", "sttp/transport/DataSubscriber.go"), ("TryGetMeasurement", "sttp/transport/tssc/Decoder.go")],
     observe=["ErrorMessageCallback", "connection termination"])
prop("T14", "Reconnection attempts back off, stop and can be cancelled",
     "The wait before a reconnection attempt is the retry interval doubled for each attempt made, thirteen times at most, never more than the maximum interval, for any intervals. A connection sequence makes attempts until one succeeds, it is cancelled, or the maximum number of retries is reached, also without a retry interval, and reports which of these happened. Cancelling ends a wait that is going on.",
     ["inputs", "histories"], "every interval, maximum interval, retry maximum and attempt number, every outcome of each attempt",
     "Overflow appears only with intervals and attempts that would take days to run; no unit test connects.",
     ["sttp/transport/SubscriberConnector.go"], [("waitForRetry, connect, Cancel", "sttp/transport/SubscriberConnector.go")],
     state=[("connectAttempt", "attempts made so far", "sttp/transport/SubscriberConnector.go")],
     observe=["SubscriberConnector.Connect", "delays between connection attempts"])
TREE = "sttp/data/ExpressionTree.go"
ANYV = "every pair of value types, every value including nulls and extremes"
prop("D02", "Arithmetic of filter expressions follows the defined value types",
     "Adding, subtracting, multiplying, dividing and taking the remainder of two values gives the value of the type that the two types define (the wider numeric type; text is taken as a number where defined; text plus text joins), computed in that type from the converted operands. A null operand gives null, operand types without arithmetic are an error, and a zero divisor of a whole or Decimal division is an error, never a panic.",
     ["inputs"], ANYV,
     "81 type combinations times the value ranges; the unit tests use a few values of a few types.",
     [TREE, "sttp/data/OperatorExpression.go", "sttp/data/ValueExpression.go"], [("addOp, subtractOp, multiplyOp, divideOp, modulusOp", TREE), ("deriveArithmeticOperationValueType", "sttp/data/Constants.go")],
     observe=["ExpressionTree.Evaluate"])
prop("D03", "Comparisons of filter expressions follow the defined value types",
     "=, <>, <, <=, >, >= and the exact-match forms compare two values in the type that the two types define, text without regard to case unless an exact match is asked for. Comparing with null gives a Boolean null for every operator, and types without comparison are an error.",
     ["inputs"], ANYV,
     "The outcome depends on both types and both values; the unit tests use a few values.",
     [TREE, "sttp/data/ValueExpression.go"], [("lessThanOp .. notEqualOp", TREE), ("deriveComparisonOperationValueType", "sttp/data/Constants.go")],
     observe=["ExpressionTree.Evaluate", "rows selected by a filter expression"])
prop("D05", "Value conversion between expression types",
     "Converting a value to another type gives the defined value (Boolean 1 or 0, wrapped integers, numbers as text and text as numbers, dates as Unix seconds or ISO text, GUIDs as text), null stays null of the new type, types without a conversion are an error, and no value makes it panic.",
     ["inputs"], "every type, every target type and every value, including numbers that are not finite",
     "72 conversions; the unit tests check single values.",
     ["sttp/data/ValueExpression.go"], [("Convert, convertFrom*", "sttp/data/ValueExpression.go")], observe=["ValueExpression.Convert", "ExpressionTree.Evaluate"])
prop("D06", "Logic, bit operations and signs of filter expressions",
     "AND, OR and NOT work on Booleans and whole numbers as truth values with null operands giving null as defined; IS NULL tests for null; bitwise and shift operators compute in the type the two types define, shifts taking the amount modulo the width and the right shift keeping the sign; unary plus, minus and NOT keep the type. Operand types without the operation are an error.",
     ["inputs"], ANYV,
     "Null handling and signs depend on both operands; the unit tests use a few values.",
     [TREE, "sttp/data/ValueExpression.go"], [("andOp, orOp, bitShiftLeftOp, bitShiftRightOp, bitwise*Op", TREE), ("unary*", "sttp/data/UnaryExpression.go")],
     observe=["ExpressionTree.Evaluate"], note="Negative shift amounts are left open.")
prop("D07", "Text functions and LIKE of filter expressions",
     "Len, Upper, Lower, Reverse, Trim, TrimLeft, TrimRight, Contains, StartsWith, EndsWith, IndexOf, LastIndexOf, NthIndexOf, Replace, Split, StrCmp, StrCount, SubStr, RegExMatch, RegExVal and LIKE give the defined result for every text, with or without regard to case: Replace takes its text literally, LIKE without wildcards matches the whole text and with a leading or trailing one its end or start, SubStr never reaches outside of the text, Split returns the part asked for or null. A null argument gives null as defined, other argument types are an error, and no argument makes them panic.",
     ["inputs"], "every text, index, count and null combination",
     "Boundaries of text and index are unlimited; the unit tests use one text each.",
     [TREE], [("like, contains .. upper", TREE)], observe=["ExpressionTree.Evaluate"], note="NthIndexOf is checked for occurrences up to the third only (bounded).")
prop("D08", "IIf, Coalesce, IsNull, MinOf and MaxOf choose the right argument",
     "IIf evaluates only its first and the chosen argument and returns the second when the first is true, the third otherwise; a first argument that is not Boolean is an error. IsNull returns its first argument unless it is null, then the second. Coalesce returns its first argument that is not null. MinOf and MaxOf return the least and greatest argument as it is, nulls not counting.",
     ["inputs"], "every type, value and null of the arguments",
     "The choice depends on nulls and types of all arguments.",
     [TREE], [("iif, isNull, coalesce, minOf, maxOf", TREE)], observe=["ExpressionTree.Evaluate"],
     note="Coalesce is checked with up to four arguments, MinOf and MaxOf with two and three (bounded).")
prop("D09", "IN lists of filter expressions",
     "value IN (list) is true exactly when the value equals a value of the list in the type the two define, text without regard to case unless an exact match is asked for; NOT IN is the opposite. A null value gives a Boolean null, a null in the list matches nothing.",
     ["inputs"], ANYV,
     "Membership depends on types, nulls and case of all values.",
     [TREE], [("evaluateInList", TREE)], observe=["ExpressionTree.Evaluate"], note="Lists of one value (all types) and of three values (one type) are checked (bounded).")
prop("D17", "Numeric functions of filter expressions",
     "Abs, Ceiling, Floor and Round give a value of the type of their argument, Sqrt a Double and Power its first argument to the power of the second in the type the two define. Null gives null, arguments that are not numeric are an error, and a negative power of a zero Decimal is an error, never a panic.",
     ["inputs"], ANYV,
     "The unit tests use a few values.",
     [TREE], [("abs, ceiling, floor, round, sqrt, power", TREE)], observe=["ExpressionTree.Evaluate"])
prop("D18", "Date functions of filter expressions",
     "DatePart gives the named part of a date, DateAdd the date moved by the given number of the named intervals and DateDiff the number of whole named intervals from the first to the second date, for dates given as dates or as text and interval names in any case. A null date gives null; a null interval or amount, an unknown interval and other argument types are an error.",
     ["inputs"], "every date, amount and interval name",
     "Calendar and interval combinations are unlimited; the unit tests use one date.",
     [TREE, "sttp/data/Constants.go"], [("dateAdd, dateDiff, datePart", TREE), ("ParseTimeInterval", "sttp/data/Constants.go")], observe=["ExpressionTree.Evaluate"])
prop("D19", "Type tests and Convert function of filter expressions",
     "IsDate, IsInteger, IsGuid and IsNumeric tell whether a value is of the type or is text that can be read as it; null is of no type. Convert takes the defined type names in any case, with or without the System prefix, and gives what the conversion to that type gives; an unknown name is an error.",
     ["inputs"], "every value of every type, every type name",
     "The unit tests use a few texts.",
     [TREE], [("isDate, isInteger, isGuid, isNumeric, convert", TREE)], observe=["ExpressionTree.Evaluate"])
DROW, DTAB, DSET, PARSER = "sttp/data/DataRow.go", "sttp/data/DataTable.go", "sttp/data/DataSet.go", "sttp/data/FilterExpressionParser.go"
ANYROW = "every row, column position, column type and cell value"
prop("D04", "Columns in filter expressions",
     "A column in an expression gives the value of the cell of the current row: whole numbers as Int32 or Int64, Single and Double as Double, the other types as they are, an unsigned 64-bit number beyond the Int64 range as Double. An empty cell gives null of the type of the column, and evaluating a column without a row is an error.",
     ["inputs"], ANYROW,
     "Fifteen column types, each with its own range; the unit tests use a few cells.",
     [TREE, DROW], [("evaluateColumn", TREE), ("typed cell reads", DROW)], observe=["ExpressionTree.Evaluate"])
prop("D10", "Rows selected by a filter",
     "Selecting with a filter gives the rows for which the expression is true (false and null do not match), in table order, no more than the TOP limit (none for a limit of zero, all for a negative one), sorted by the ORDER BY terms one after the other, ascending or descending each, null first. An expression that is not a Boolean, that fails or that is refused by the callback is an error.",
     ["inputs", "configurations"], "every result of the expression per row, every limit, cell values and up to two sort terms",
     "The combinations of limits, nulls, directions and equal keys are many; the unit tests use one data set.",
     [TREE, DTAB, PARSER], [("Select, SelectWhere", TREE), ("Select", DTAB)], observe=["ExpressionTree.Select"],
     note="Tables of three rows (bounded). sort.Slice is represented by its specification.")
prop("D11", "Reading and assigning row cells",
     "A typed read of a cell gives the value last assigned and whether it is null; a read as another type, by a name or index that does not exist, is an error. Reading by name is the same as by index, for names in any case. Assigning a cell changes no other. A computed column gives the value of its expression in the type of the column, null if it is null, and an error if there is no such value. The text of a cell tells its value.",
     ["inputs"], ANYROW,
     "Fifteen column types with thirty typed readers; the unit tests read a few of them.",
     [DROW], [("ValueAs readers, Value, SetValue", DROW), ("getComputedValue", DROW)], observe=["DataRow.ValueAsString", "DataRow.Value"])
prop("D12", "Comparing rows by a column",
     "Comparing two rows by a column gives -1, 0 or 1 in the order of the values of the column type (numbers, dates and GUIDs by value, text with or without regard to case as asked, true before false), null before all others; a column that does not exist or columns of different types are an error.",
     ["inputs"], ANYROW + ", both comparison modes",
     "Each of fifteen types is compared by its own code; ordering claims range over all pairs.",
     [DROW], [("CompareDataRowColumns", DROW)], observe=["CompareDataRowColumns"])
prop("D13", "Looking up tables, columns and rows",
     "A column is found by its name in any case and by its index, and by nothing else; adding a column puts it last and takes over its own name only; tables of a data set are found by their name in any case; a row is found by its index; what does not exist is nil.",
     ["inputs", "histories"], "every table, name and index",
     "Names and indexes are unlimited; replaced names and boundaries are seldom tested.",
     [DTAB, DSET], [("Column, ColumnByName, AddColumn, Row", DTAB), ("Table, AddTable", DSET)], observe=["DataTable.ColumnByName", "DataSet.Table"])
prop("D15", "Combined results of several filter statements",
     "Several statements give the rows, or the signal IDs, that any of them matches; each is given once, in the order first matched. Null and zero signal IDs are left out. Signals identified directly by signal ID, measurement key or point tag are given along with those matched by filter statements.",
     ["inputs"], "every result of each statement per row, every signal ID",
     "The overlap of statements and duplicate or missing IDs are hardly tested.",
     [PARSER, "sttp/data/TableIDFields.go"], [("EvaluateDataRowExpressions, Evaluate", PARSER), ("SelectSignalIDSet", PARSER)], observe=["SelectDataRows", "SelectSignalIDSet"],
     note="Three rows and two statements (bounded). The generated ANTLR parser is replaced by the parse trees of the grammar.")
prop("D16", "Meaning of filter expression syntax",
     "Each operator sign, function name, predicate and literal of the syntax stands for the operation or value it names, with its operands in their order: TOP, ORDER BY with ASC, DESC and BINARY, IN, LIKE, IS NULL with NOT and BINARY, all functions, whole numbers as Int32, Int64 or Decimal as they fit, numbers with an exponent as Double, text, dates, GUIDs, truth values and null. Case-sensitive matching applies only where BINARY is written. Unknown tables, columns and argument counts are errors.",
     ["inputs"], "every node of the grammar, every literal",
     "The unit tests cover most words once, few with all their variants.",
     [PARSER], [("Enter/Exit listener methods", PARSER)], observe=["EvaluateExpression", "SelectDataRows"],
     note="Up to two sort terms and three function arguments (bounded). The generated ANTLR parser is replaced by the parse trees of the grammar; its operator precedence is out of reach.")
DS = "sttp/transport/DataSubscriber.go"
prop("T18", "Signal index cache updates take effect as a whole",
     "A signal index cache sent by the publisher is uncompressed when compression is on and decoded; protocol version 2 and later names in the first byte which of the two caches it replaces. It then takes the place of that cache only, becomes the active one, sets the subscriber ID, is given to the callback and, from version 2 on, confirmed once. Data that cannot be uncompressed or decoded is reported and changes nothing: neither cache, nor which one is active, and nothing is confirmed.",
     ["inputs", "histories"], "every message, protocol version, compression setting, active cache, and outcome of uncompressing and decoding",
     "No test receives a cache; the failure paths and the second cache are never taken.",
     [DS], [("handleUpdateSignalIndexCache, ActiveSignalIndexCache", DS)],
     state=[("signalIndexCache, cacheIndex", "the two caches and the active one", DS)],
     observe=["SubscriptionUpdatedCallback", "ActiveSignalIndexCache"])
prop("T19", "Publisher responses reach the right callback",
     "The answer to a command is passed on with the publisher's text: success as a status message, failure as an error message. A subscription is active exactly from the success of a subscribe to that of an unsubscribe. A refusal of connecting or of the operational modes marks the connection refused. Metadata is handed over uncompressed and stays as received while further packets are read. Completion of processing, notifications and configuration changes reach their callback with their text; a notification is confirmed with its hash, one too short is an error.",
     ["inputs"], "every command code, text, metadata content, compression setting and outcome of uncompressing",
     "No test plays the publisher; a callback that reads the metadata late is a race with the next packet.",
     [DS], [("handleSucceeded, handleFailed, handleMetadataRefresh", DS), ("handleProcessingComplete, handleNotification, handleConfigurationChanged", DS)],
     state=[("subscribed", "whether a subscription is active", DS)],
     observe=["StatusMessageCallback, ErrorMessageCallback", "MetadataReceivedCallback", "NotificationReceivedCallback", "IsSubscribed"])
HSET = "sttp/hashset/HashSet.go"
prop("H01", "Set operations give the set they define",
     "After adding, removing, clearing, conditional removal, union, difference and intersection, with a slice or another set, a set holds exactly the elements these operations define, and the other set is unchanged. Adding and removing tell whether the set changed, its length follows, and its keys are each element once.",
     ["inputs"], "every set, slice and element, of any size",
     "The result is a statement about every element of sets of any size; tests use four elements.",
     [HSET], [("Add, Remove, RemoveWhere, Clear, Keys, UnionWith, ExceptWith, IntersectWith", HSET)], observe=["HashSet methods"],
     note="For int32 elements; the code is generic and does not depend on the element type.")
prop("H02", "Set comparisons are those of the sets",
     "Equality, overlap, subset, proper subset, superset and proper superset of sets are those of set theory, and the symmetric difference holds the elements of exactly one of them; a slice counts as the set of its elements, repeated or not.",
     ["inputs"], "all sets and slices, with any repetition",
     "Repeated elements and sets of equal size with different elements are not among the tests.",
     [HSET], [("SetEquals, Overlaps, IsSubsetOf, IsProperSubsetOf, IsSupersetOf, IsProperSupersetOf, SymmetricExceptWith", HSET)], observe=["HashSet methods"],
     note="An empty set as a proper superset is left open: the test suite wants it to be one of any set.")
prop("D20", "Data sets hold the content of their XML",
     "Loading a data set from XML gives a table for each named table of the schema, with a column for each named field of a known type in order, of the type the XML schema type and GUID marking define and with its expression, and a row for each record, in which each field gives the cell of the column of that name the value its text stands for, decimal integers, XML booleans, times with offset or Z and texts without escapes included; columns without a field are null.",
     ["inputs"], "every name, type, attribute and field text",
     "Tests load one document; the many cell types and attribute combinations are not covered.",
     [DSET, "sttp/data/DataType.go", "sttp/xml/XmlNode.go"], [("loadSchema, loadRecords", DSET), ("ParseXsdDataType", "sttp/data/DataType.go")], observe=["DataSet.ParseXml", "FromXml"],
     note="The XML text is decoded by encoding/xml, which is trusted; replays start from the text.")
SUB = "sttp/Subscriber.go"
prop("W01", "Threads run once and joining waits for their end",
     "A started thread counts as running from its start until its function has ended, runs the function exactly once, and cannot be started again meanwhile: Start panics and TryStart returns false. Join returns only after a started thread has ended, at once for one never started; an ended thread can be started again.",
     ["schedules"], "the goroutine running before, while or after another call waits for it",
     "Whether the new goroutine has run when Join is called is up to the scheduler; tests hardly ever meet the other order.",
     ["sttp/thread/Thread.go"], [("Start, TryStart, Join, IsRunning", "sttp/thread/Thread.go")], observe=["Thread methods"])
prop("M01", "Measurement readers give every measurement in order until closed",
     "A measurement reader hands out all measurements of all received batches, in order and as copies that do not change when the batch is reused. NextMeasurement tells the end when its context is done or the reader was closed, and measurements that arrive after closing are dropped without blocking or panicking.",
     ["inputs", "schedules"], "batches of up to three measurements, closing and cancelling before or after they arrive",
     "Reuse of the batch and arrival after closing depend on timing that tests do not control.",
     ["sttp/MeasurementReader.go"], [("newMeasurementReader, NextMeasurement, Close", "sttp/MeasurementReader.go")], observe=["MeasurementReader.NextMeasurement", "MeasurementReader.Close"], level="other",
     note="The order is checked for batches of up to three measurements.")
prop("S01", "A subscription has the settings asked for",
     "Subscribing sets the filter and every subscription setting to what was given, or to the documented defaults if none are given, whatever an earlier subscription had, and requests the subscription at once exactly when connected. New settings and configurations start with the documented defaults each time.",
     ["inputs"], "all settings and all earlier settings",
     "Tests do not subscribe at all, and a setting left over from an earlier subscription shows only in a sequence of two.",
     [SUB, "sttp/Settings.go", "sttp/Config.go"], [("Subscriber.Subscribe", SUB), ("NewSettings", "sttp/Settings.go"), ("NewConfig", "sttp/Config.go")],
     observe=["Subscriber.Subscribe", "NewSettings", "NewConfig"])
prop("S02", "Connections, metadata and subscriptions follow each other as configured",
     "Dial and Listen are refused while connected or listening and for addresses without a port from 1 to 65535, and then change nothing; otherwise they use the host, port and all configured settings and tell the outcome. Each connection made or made again is reported once, then metadata is requested, with the filters, if so configured, else the subscription if that is. Received metadata is handed over once, trouble reading it is reported, and the subscription follows if so configured. A changed configuration is reported once and metadata is requested again if so configured. When the connection could not be made again the subscriber gives up and says so.",
     ["inputs", "configurations", "histories"], "all configurations, addresses and outcomes of each step",
     "Tests have no publisher; what the subscriber asks for shows only in the commands it sends.",
     [SUB], [("Dial, Listen, RequestMetadata", SUB), ("handleConnect, handleReconnect, handleMetadataReceived, handleConfigurationChanged", SUB)],
     observe=["commands sent to the publisher", "callbacks of Subscriber"])
prop("S03", "Received metadata is found by signal",
     "Loading received metadata gives each signal of the table MeasurementDetail the source and identifier of its key, its tag, reference, type, description and time of update, from the last row of that signal. Rows without a signal, columns that are missing and signals not in the table change nothing; a missing table or signal column is reported.",
     ["inputs"], "two rows with any content, each column present or not",
     "Tests load metadata but do not look at the measurement registry.",
     [SUB], [("loadMeasurementMetadata", SUB)], observe=["Subscriber.LookupMetadata", "Subscriber.Metadata"], level="other",
     note="Bounded: two rows.")
prop("T20", "Connections go to the address asked for and start afresh",
     "Connecting and listening use exactly the host and port asked for, IPv6 addresses included, are refused while connected or listening, and tell failure. Every new connection, made or accepted, starts with counters at zero, no subscription, no buffer blocks and no keys, sends the operational modes first and is reported once. A second publisher is turned away without touching the first connection.",
     ["inputs", "histories"], "all hosts, ports and outcomes, and whatever an earlier connection left",
     "What is left of an earlier connection, and a second incoming connection, need sequences of connections that tests do not make.",
     [DS], [("connect, setupConnection, establishConnection, Listen, runListeningSocketAcceptThread", DS)], observe=["DataSubscriber.Connect", "DataSubscriber.Listen", "ConnectionEstablishedCallback"])
prop("T21", "Connections end as a whole and are reported once",
     "When a connection ends, by the user or because it was lost, its socket is closed before the end is reported, the end is reported exactly once however often it is noticed or asked for, and afterwards the subscriber is not connected, validated or subscribed. Listening ends only when the user disconnects. A lost connection is made again, after its end was reported and complete, unless the subscriber is disposed of. Disconnecting while a connection is already ending waits for that end, and disconnecting while unsubscribing is not forgotten.",
     ["histories", "schedules"], "every way of ending, connected or not, listening or not",
     "The ways of ending differ by threads and flags whose combinations tests do not reach.",
     [DS], [("Disconnect, disconnect, runDisconnectThread, dispatchConnectionTerminated", DS)], observe=["ConnectionTerminatedCallback", "AutoReconnectCallback", "IsConnected, IsListening, IsSubscribed"])
prop("T22", "Signal references give source, kind and position",
     "A signal reference of the form source-KKn gives the source, which may contain dashes, the signal kind with acronym KK and position n; any other reference gives an unknown kind and never fails. Kinds and acronyms are one to one, whatever the case, and each kind has its signal type acronym for voltages and currents.",
     ["inputs"], "all references",
     "Tests do not parse signal references; short last parts panicked.",
     ["sttp/transport/MeasurementMetadata.go", "sttp/transport/SignalKind.go"], [("ParseSignalReference", "sttp/transport/MeasurementMetadata.go"), ("ParseSignalKindAcronym, Acronym, SignalTypeAcronym", "sttp/transport/SignalKind.go")],
     observe=["MeasurementMetadata.ParseSignalReference"])
prop("T23", "Callbacks and their assignment take turns",
     "While callbacks are being assigned between BeginCallbackAssignment and EndCallbackAssignment no callback is looked up: an event that arrives meanwhile waits, and then calls the newly assigned callback once. Every event calls its callback once and, whatever its data, every lock is free again when it has been handled, as it is after connecting, failing to connect, connecting twice and disconnecting.",
     ["schedules", "histories"], "every kind of event, arriving before, while or after callbacks are assigned",
     "A lock left held, or not taken, shows only when a second thread comes at that moment.",
     [DS, "sttp/transport/SubscriberConnector.go"], [("BeginCallbackAssignment, EndCallbackAssignment, BeginCallbackSync, EndCallbackSync and all dispatch functions", DS), ("BeginCallbackSync, EndCallbackSync, Connect", "sttp/transport/SubscriberConnector.go")],
     observe=["callbacks of a DataSubscriber and of a SubscriberConnector"])
prop("T24", "Every packet received is processed once, whole and in order",
     "The bytes received on the command channel are split into packets by their announced sizes, however they arrive, and each packet is processed exactly once, whole and in order; a stream that ends within a packet ends the connection. Each datagram on the data channel is processed exactly once. The count of received bytes is that of all bytes received. Unsubscribing sends one command, closes the data channel and waits for its end, and a packet that arrives meanwhile is processed like any other.",
     ["histories", "schedules", "inputs"], "any number of packets of any size up to the limit, ending anywhere",
     "Tests never read packets from a stream, let alone one that ends within a packet or goes on while unsubscribing.",
     [DS], [("runCommandChannelResponseThread, readPayloadHeader, readPacket", DS), ("runDataChannelResponseThread, Unsubscribe", DS)],
     observe=["callbacks of a DataSubscriber", "TotalCommandChannelBytesReceived, TotalDataChannelBytesReceived"])
prop("D21", "Values and rows are read, selected and copied exactly",
     "A value of an expression is read as its own type exactly, and reading it as another type is an error without a value. Rows are selected by a predicate in order, exactly those that match, up to the limit, none for a limit of zero and all for a negative one. A cloned row has the values of its row and a cloned column the properties of its column, each independent of the original. Asked for the text of a value, a table gives that of its row, and nothing where there is no such row.",
     ["inputs"], "every value type and value; tables of up to four rows or three columns",
     "Tests read few types, never as a wrong one, and do not limit or clone.",
     [DTAB, DROW, "sttp/data/ValueExpression.go"], [("ValueExpression.BooleanValue, Int32Value and the other typed values", "sttp/data/ValueExpression.go"), ("RowsWhere, CloneRow, CloneColumn, RowValueAsString, RowValueAsStringByName", DTAB)],
     observe=["ValueExpression", "DataTable.RowsWhere, CloneRow, CloneColumn"])
prop("F01", "Formatted numbers are the number grouped by thousands",
     "Formatting a whole number gives its decimal digits with the group symbol before every third digit from the right, and its sign in front, whatever its length; a floating-point number moreover has the decimal symbol and the rounded fraction of the precision asked for. Numbers that are not finite are written as such, without grouping.",
     ["inputs"], "all whole numbers and group symbols; floating-point numbers of up to twelve digits",
     "No test formats a number of each length and sign.",
     ["sttp/format/Int.go", "sttp/format/UInt.go", "sttp/format/Float.go", "sttp/format/Common.go"], [("Int, IntWith, Int64, Int64With", "sttp/format/Int.go"), ("UInt, UIntWith, UInt64, UInt64With", "sttp/format/UInt.go"), ("Float, FloatWith", "sttp/format/Float.go"), ("formatNumber", "sttp/format/Common.go")],
     observe=["functions of package format"])
prop("S04", "Receivers hear events from the moment they are set",
     "A receiver or logger set on a subscriber, before or after it dialed or listens, hears each following event exactly once with its content; the one set before hears none of them any more, and an event without a receiver is dropped quietly. A setter waits for calls going on to end, and an event arriving while a receiver is being set is heard by the new one.",
     ["schedules", "histories"], "every receiver, set, replaced or unset before or after dialing or listening",
     "Tests set receivers once and never while events arrive.",
     [SUB], [("Set...Receiver and Set...Logger, beginCallbackSync, beginCallbackAssignment, handle... functions", SUB)],
     observe=["receivers and loggers of a Subscriber"])
prop("X01", "XML nodes are linked and selected as the document says",
     "The nodes of a loaded XML document have their name, level, parent, neighbours, children by name, path and attributes, and the document its depth. SelectNodes returns exactly the nodes that the path names, in document order, with a predicate only those with that attribute, with any attribute or with that value, quoted or not; a path that names nothing returns none and never fails.",
     ["inputs"], "up to three elements with up to two in each, any names and texts, paths of up to two steps with every form of predicate",
     "Tests select a few nodes of one document.",
     ["sttp/xml/XmlDocument.go", "sttp/xml/XmlNode.go"], [("LoadXml, SelectNodes", "sttp/xml/XmlDocument.go"), ("walkNodes, attributeMatch, valueMatch, SelectNodes", "sttp/xml/XmlNode.go")],
     observe=["XmlDocument.SelectNodes", "XmlNode.Path"], level="other",
     note="Bounded in the shape of documents and paths; texts are without slashes and brackets. The XML text is decoded by encoding/xml, which is trusted.")
