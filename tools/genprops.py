#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

E = "encoding/"
prop("C01", "Decoding arbitrary bytes never crashes and always terminates",
 "For every byte string handed to any decoding entry point (BVLC, NPDU, APDU header, ReadProperty request/ack, ReadPropertyMultiple ack, Who-Is, I-Am, application data and single tagged values), the decoder returns a value or an error. It never panics and never loops without consuming input, even when the bytes are truncated, declare absurd lengths or nest tags wrongly.",
 ["inputs"], "all byte strings up to the stated lengths, for every decoding entry point",
 "The tests decode a few packets produced by the encoder itself or captured from real devices; malformed packets are not in the suite, and the crashing inputs are rare byte combinations.",
 [E+"decoder.go", E+"appdata.go", E+"string.go", E+"date.go", E+"readprop.go", E+"readmultipleack.go", E+"npdu.go", E+"apdu.go", E+"whois.go", E+"iam.go"],
 [("sticky error and length checks before reads", "encoding/decoder.go"), ("list loop of the ReadPropertyMultiple ack", "encoding/readmultipleack.go")],
 ["returned error / panic / non-termination of the exported Decoder methods"])
prop("C02", "Decoding allocates no more than the received bytes justify",
 "Whatever length fields a received packet contains, decoding it allocates memory bounded by a small multiple of the packet's own size. A declared length larger than the remaining bytes is refused with an error before any buffer of that size is created (a network address, whose one-octet length cannot exceed 255, aside).",
 ["inputs"], "all declared lengths 0..2^32-1 in every length-carrying field of every decoding entry point, with any remaining packet content up to the stated size",
 "No test carries a 32-bit extended length; a 6-byte packet that asks for 4 GB is one value in 2^48.",
 [E+"string.go", E+"date.go", E+"decoder.go", E+"appdata.go", E+"readmultipleack.go", E+"npdu.go"],
 [("declared length compared with the remaining bytes", "encoding/decoder.go, encoding/string.go, encoding/date.go")],
 ["bytes allocated while one packet is decoded"])
prop("C03", "Truncated values are rejected, never filled in",
 "Decoding a packet that ends before a tag, a length or a value it announces is complete returns an error. No number, string, date, time, identifier, bit string, I-Am field or list element made up from missing bytes is ever returned as a success.",
 ["inputs"], "every proper prefix of every valid encoding of every application data type, of I-Am, Who-Is, ReadProperty ack, ReadPropertyMultiple ack, Error PDU and NPDU, within the stated sizes",
 "Tests decode complete packets only; a short read in the middle of a value is never exercised.",
 [E+"decoder.go", E+"appdata.go", E+"date.go", E+"string.go", E+"iam.go", E+"apdu.go", E+"npdu.go", E+"readprop.go", E+"readmultipleack.go"],
 [("sticky decoder error on short reads", "encoding/decoder.go decode")])
prop("C04", "Application values survive an encode/decode round trip",
 "Encoding any supported application value (null, boolean, unsigned, signed, real, double, enumerated, character string, object identifier) and decoding the produced bytes yields the same value of the corresponding type, consumes exactly the bytes produced and reports no error. This holds for every value of the type, including negative integers, 8/16/24/32-bit boundaries, NaN bit patterns and long strings.",
 ["inputs"], "every uint32, int32, enumerated, float32/float64 bit pattern, boolean and valid object identifier; strings of every content up to the stated length",
 "The round-trip tests use a handful of hand-picked values per type; int32 and float64 are wrong for whole value ranges that are not among them.",
 [E+"appdata.go", E+"encoder.go", E+"decoder.go", E+"string.go"],
 [("tag/length computation", "encoding/appdata.go AppData, encoding/general.go valueLength"), ("variable width integers", "encoding/encoder.go unsigned, encoding/decoder.go unsigned/signed")])
prop("C05", "Application values are encoded exactly as the BACnet standard prescribes",
 "The bytes produced for an application value are exactly the standard's primitive encoding: the right tag number, application class, the length field (or its extended form), shortest-form big-endian content for integers, UTF-8 marker plus text for strings. A value type that cannot be encoded is refused with an error and leaves the encoder in error.",
 ["inputs"], "every value of every supported type (strings up to the stated length), and values of unsupported types",
 "Round-trip tests cannot see a wrong wire format that encoder and decoder share; other vendors' devices do.",
 [E+"appdata.go", E+"encoder.go", E+"general.go", E+"string.go"],
 [("tag octet and extended length", "encoding/encoder.go tag"), ("shortest-form content", "encoding/general.go valueLength")])
prop("C06", "Every standard encoding of an application value decodes to that value",
 "Any application-tagged primitive that a conforming device may send (null, boolean, unsigned and signed of 1 to 4 octets, real, double, octet string, UTF-8 and UCS-2 character string, bit string, enumerated, date, time, object identifier; short or extended length form) decodes without error to the value it denotes. Exactly the bytes of that element are consumed. The special months and days of a date (odd, even and last ones) are recognised as such, and as nothing else, by the date's helper functions.",
 ["inputs"], "all contents of every primitive type up to the stated lengths, in each admissible length form",
 "The tests only decode what the package's own encoder produces, and it produces no octet strings, bit strings, dates, times, UCS-2 or extended forms.",
 [E+"appdata.go", E+"decoder.go", E+"string.go", E+"date.go", "btypes/bitstring.go", "btypes/datetime.go"],
 [("dispatch on the tag number", "encoding/appdata.go AppDataOfTag"), ("length field", "encoding/decoder.go value")])
prop("C07", "Network layer headers are encoded to standard and round trip",
 "For every network layer header (version, priority, expecting-reply, optional destination and source with any address length, hop count, message type and vendor id) the encoder emits exactly the standard octets in the standard order, and the decoder recovers exactly the same header and leaves the payload untouched. Flags, addresses and optional fields never leak into one another.",
 ["inputs"], "all field values; destination/source addresses of 0 up to the stated number of octets; all message types including the vendor-specific range",
 "Five headers are round-tripped in the tests; vendor ids, priorities combined with other flags and other address lengths are not.",
 [E+"npdu.go", "btypes/npdu.go", "btypes/address.go"],
 [("control octet flags", "encoding/npdu.go NPDUMetadata"), ("optional fields order", "encoding/npdu.go NPDU")])
prop("C08", "Router announcements deliver every announced network number",
 "Decoding an I-Am-Router-To-Network message yields exactly the set of announced network numbers, each once and in order of first appearance, for any number of networks from one upwards. Decoding a Network-Number-Is message yields the announced number. The network and address of the router in the header are reported as they were received.",
 ["inputs"], "all lists of 1..N network numbers (with any duplicates) and all network numbers, with or without a source address in the header",
 "No test decodes a network layer message with content.",
 [E+"npdu.go", "whoisrouter.go", "whatnetwork.go"],
 [("network list loop", "encoding/npdu.go NPDU")])
prop("C09", "APDU headers are encoded to standard and decoded faithfully",
 "For every confirmed request, unconfirmed request and complex ack header encoded, and every one of these and every simple ack decoded, the type, segmentation flags, max-segments/max-APDU codes, invoke id, sequence, window and service choice are placed in and read back from the standard positions, and the service payload is handed over complete. Segment-ack, reject, abort and unknown PDU types are reported as errors, and a max-segments or max-APDU code never stands for a larger capacity than was given when that capacity is one the standard can express.",
 ["inputs"], "all field values of all PDU types; payloads up to the stated size",
 "The tests round trip five confirmed-request headers.",
 [E+"apdu.go", E+"general.go", "btypes/apdu.go"],
 [("header octets", "encoding/apdu.go"), ("segment and size codes", "encoding/general.go encodeMaxSegsMaxApdu")])
prop("C10", "BACnet/IP framing keeps type, function, length and payload intact",
 "Every frame the client puts on the wire starts with 0x81, the function code, and a big-endian length equal to the total frame size, followed by the unchanged payload. Decoding a frame header recovers the same type, function and length and leaves the payload as the remaining bytes.",
 ["inputs"], "all function codes, lengths and payload contents up to the stated size",
 "One fixed frame is encoded and decoded in the tests.",
 [E+"bvlc.go", "btypes/bvlc.go", "device.go"],
 [("BVLC header", "encoding/bvlc.go"), ("length computation", "device.go Send")])
prop("C11", "ReadProperty requests name exactly the property that was asked for",
 "A ReadProperty request encodes the invoke id, object type, object instance, property and optional array index to the standard octets and decodes back to the same request. An object type, instance or property that the protocol cannot express, or a request without a property, is refused with an error instead of addressing something else or crashing.",
 ["inputs"], "all invoke ids, object types 0..65535, instances and properties 0..2^32-1, all array indices",
 "The tests use one or two concrete requests, all in range.",
 [E+"readprop.go", E+"encoder.go", E+"validate.go"],
 [("header of property requests", "encoding/readprop.go readPropertyHeader"), ("validation", "encoding/validate.go")])
prop("C12", "ReadProperty answers are decoded to exactly the returned values",
 "Decoding a ReadProperty ack yields the object, property, array index and the sequence of application values it carries: one value as itself, several as a list in order, none as an empty list. Encoding an ack with one value produces the standard octets and decodes back to the same data.",
 ["inputs"], "all object identifiers, properties, optional array indices and lists of 0..N values of every primitive type, within the stated sizes",
 "One captured-style response is in the tests, and the encoder's own ack is not even well formed.",
 [E+"readprop.go", E+"appdata.go"],
 [("optional array index and value list", "encoding/readprop.go ReadProperty"), ("ack encoding", "encoding/readprop.go ReadPropertyAck")])
prop("C13", "ReadPropertyMultiple requests list exactly the asked objects/properties",
 "A ReadPropertyMultiple request carries, in order, every requested object with every requested property and array index, bracketed by the standard opening and closing tags, and nothing else. Object types, instances or properties that cannot be expressed are refused with an error.",
 ["inputs"], "all requests with up to the stated number of objects and properties, with all identifiers and array indices",
 "A single object/property pattern is encoded in the tests.",
 [E+"readmultiple.go", E+"encoder.go"],
 [("object and property loops", "encoding/encoder.go objects/properties")])
prop("C14", "ReadPropertyMultiple answers are decoded completely, in order, unmixed",
 "Decoding a ReadPropertyMultiple ack yields each object once, in order, with each of its properties in order, each with its array index and its own values (one value as itself, several as a list). Nothing is dropped, duplicated or attributed to another object or property, and a per-property error is reported as an error. Only context-tagged elements of a type the client does not know are left out; the contents of nested constructed elements are listed in order, a date-time as one value.",
 ["inputs"], "all acks with up to the stated number of objects, properties and values of every primitive type, optional array indices and context-tagged or date-time constructed values, and property errors",
 "A few captured packets are decoded in the tests; combinations of several objects, lists and constructed values are not.",
 [E+"readmultipleack.go", E+"context_tag.go"],
 [("object/property/value loops", "encoding/readmultipleack.go objectsWithData")])
prop("C15", "WriteProperty requests carry exactly the target, value and priority given",
 "A WriteProperty request encodes invoke id, object, property, optional array index, the value in its standard tagging (enumerated for the present value of binary outputs and values) and, when set, the priority, exactly as the standard prescribes. A value or target that cannot be expressed is refused with an error and never crashes or sends something different.",
 ["inputs"], "all targets, array indices, priorities 0..16 and values of every supported type, including value types that do not fit the target",
 "Nothing in the tests compares the bytes of a write request.",
 [E+"writeprop.go", E+"readprop.go", E+"appdata.go"],
 [("binary output/value tagging", "encoding/writeprop.go pointTypeBOBV"), ("priority tag", "encoding/writeprop.go WriteProperty")])
prop("C16", "WritePropertyMultiple requests carry every write exactly once, in order",
 "A WritePropertyMultiple request carries every object, property, array index, value and priority given, in order, in the standard's tagging. Targets or values that cannot be expressed are refused with an error.",
 ["inputs"], "all requests with up to the stated number of objects and properties, with all identifiers, values and priorities",
 "The encoder of write-multiple is not exercised by any reliable test at all.",
 [E+"writemultiple.go", E+"encoder.go"],
 [("object and property loops with values", "encoding/encoder.go objects/properties")])
prop("C17", "Who-Is and I-Am carry the exact range and device data",
 "A Who-Is request with limits in range encodes exactly those limits (otherwise no limits, meaning everyone) and decodes back to them; decoding a Who-Is without limits reports an unlimited range. An I-Am encodes and decodes the device identifier, maximum APDU, segmentation and vendor exactly, and an I-Am whose fields are missing or of the wrong type is rejected.",
 ["inputs"], "all 32-bit limits; all device identifiers, APDU sizes, segmentation and vendor values; all field type combinations in the stated sizes",
 "The tests use a few constants.",
 [E+"whois.go", E+"iam.go"],
 [("range encoding", "encoding/whois.go"), ("field order and types", "encoding/iam.go")])
prop("C18", "Error answers report the error class and code the device sent",
 "Decoding an Error PDU yields the invoke id, service, error class and error code that the device sent, for both the plain form and the form wrapped in an opening and closing tag. A malformed Error PDU is reported as a decoding error.",
 ["inputs"], "all invoke ids, services, error classes 0..65535 and codes 0..2^32-1 in 1 to 4 octet encodings, in both forms",
 "One wrapped error is in the tests; the plain form is misread by the code.",
 [E+"apdu.go", "btypes/bacerr/bacerr.go"],
 [("error class/code parsing", "encoding/apdu.go apduError")])
prop("C19", "Bit strings give back exactly the bits stored and never crash",
 "In a bit string of up to 15 octets, setting or clearing a bit changes that bit only, reading returns the last value written, and the number of used bits is one more than the highest bit ever set. Operations with any bit or octet index, on any size of string, never crash, and the list of values has exactly the used bits.",
 ["inputs", "histories"], "all sizes 0..15, all bit and octet indices 0..255, all contents, sequences of operations up to the stated length",
 "The bit string has no unit test of its own.",
 ["btypes/bitstring.go"],
 [("bit and octet indexing", "btypes/bitstring.go")])
prop("C20", "Device addresses convert between forms without loss",
 "Converting an IPv4 address and port to a BACnet address and back yields the same address and port, and a device built from an IP, port, network number and MS/TP address carries exactly these. Broadcast, network-specific broadcast and unicast are recognised as defined, and malformed addresses (an invalid IP string, or a port, network number, MS/TP address or device identifier that there is not) give an error, not a crash and not another address.",
 ["inputs"], "all IPv4 addresses, ports, network numbers and MS/TP MACs; MAC byte strings of every length up to the stated bound",
 "The single IP test prints a value and asserts nothing.",
 ["btypes/address.go", "btypes/device.go", "datalink/udp.go", "helpers/ipbytes/ip.go", "network/device.go", "network/store.go"],
 [("MAC layout", "btypes/address.go UDPAddr, datalink/udp.go UDPToAddress"), ("device construction", "btypes/device.go NewDevice")])
prop("C21", "Object types keep their identity through names and JSON",
 "Every object type's printed name maps back to that same type, also for types without a known name, and different types never share a name. Storing an object map as JSON and loading it again gives the same objects under the same types and instances.",
 ["inputs"], "all object types 0..65535; object maps with up to the stated number of entries",
 "The marshalling test uses known object types only.",
 ["btypes/object.go", "btypes/object_map.go"],
 [("name tables", "btypes/object.go GetType/String"), ("JSON conversion", "btypes/object_map.go")])
prop("C22", "Priority arrays keep every slot's value and pick the highest priority",
 "Building a priority array from a read answer puts the n-th element into slot n, an empty slot for a null and the numeric value for real, unsigned or enumerated elements of any object type, and never crashes on other content. The effective value is that of the first non-empty slot.",
 ["inputs"], "all lists of 0..20 elements of null, real, unsigned and foreign types, for all object types",
 "No test covers it; analogue points crash it.",
 ["btypes/priority/priority.go", "network/points.go"],
 [("slot assignment", "btypes/priority/priority.go BuildFloat32"), ("selection", "btypes/priority/priority.go HighestFloat32")])
prop("C23", "Value extraction helpers return the value or report failure",
 "Each helper that extracts a typed value from a read answer returns exactly the value when the answer holds one of that type, and otherwise reports failure with a zero value. It never crashes, whatever the answer contains, including an answer without properties.",
 ["inputs"], "all answers with 0..2 properties of every value type, for every helper",
 "The helpers have no tests.",
 ["helpers/data/data.go"],
 [("type checks", "helpers/data/data.go")])
prop("C24", "Elements that no encoding of a value can be are rejected",
 "An application-tagged element whose declared length its data type cannot have (a Null with content, an integer of no or more than four octets, a Real, date, time or object identifier of other than four octets, a Double of other than eight, text without a character set, a bit string without its unused-bits octet), whose tag number is reserved or whose text is in an unsupported character set is reported as an error, wherever it stands in an answer and in whichever form its length is given; it is never passed off as a value. The same holds for object and property identifiers of a wrong number of octets in answers.",
 ["inputs"], "all application tags, all declared lengths up to the stated bound in each length form, all contents, alone and at any place of ReadProperty and ReadPropertyMultiple answers",
 "The tests decode well-formed elements.",
 ["encoding/appdata.go", "encoding/decoder.go", "encoding/string.go", "encoding/readprop.go", "encoding/readmultipleack.go"],
 [("element lengths", "encoding/appdata.go AppDataOfTag"), ("identifiers of answers", "encoding/readprop.go, encoding/readmultipleack.go")])
prop("C25", "Units, errors, properties and services keep their names and numbers",
 "Every engineering unit, error class, error code, segmentation kind and network message type the library knows prints as the name the BACnet standard gives that number, and a number without a name prints itself; printing never crashes and different numbers print differently. The keys of named properties give the properties' standard numbers, exactly the listed keys are accepted, a property prints as its own name and number or as unknown, and changing the listing handed out changes nothing. Each named service is found by its name and carries its standard number. The text of a multiple-property answer holds every object, property and value.",
 ["inputs"], "all numbers of each kind, all keys one octet away from a known one and all short texts, all answers of up to two objects and two properties each",
 "The tests look up a handful of names; the tables hold several hundred.",
 ["btypes/units/unit_string.go", "btypes/bacerr/errorcode_string.go", "btypes/bacerr/errorclass_string.go", "btypes/property.go", "btypes/services/services.go", "btypes/segmentation/segmentedtype_string.go", "btypes/ndpu/networkmessagetype_string.go"],
 [("names by number", "btypes/units, btypes/bacerr, btypes/segmentation, btypes/ndpu String"), ("property keys", "btypes/property.go Get, Keys, String"), ("services", "btypes/services/services.go GetType, GetString")])
prop("C30", "Concurrent requests never share a transaction id and respect the limit",
 "At no time are two outstanding transactions given the same id, ids lie in 1..254, and never more transactions are outstanding than the configured size. A caller that cannot get an id within its context gets an error, and every id that is returned becomes available again, however requests start, finish and time out concurrently.",
 ["schedules", "histories"], "all interleavings of the stated number of concurrent callers acquiring and releasing ids, including context expiry at any point",
 "The test runs a handful of sequential acquisitions; a race window needs a particular interleaving.",
 ["tsm/transactions.go"],
 [("free-id and free-space channels", "tsm/transactions.go ID/Put")],
 state=[("outstanding transactions", "ids handed out and not yet returned", "tsm/transactions.go")])
prop("C31", "A reply reaches only the transaction it belongs to, and nothing crashes",
 "Data sent for a transaction id is received, unaltered and at most once, by the caller currently waiting on that id; a caller that gets nothing in time gets a timeout error, never an empty result. Late, duplicate or unsolicited replies and the release of a transaction at any moment never crash the process, block the sender for ever or reach a later transaction that reuses the id's bookkeeping.",
 ["schedules", "histories"], "all interleavings, within the preemption bound, of one requester cycling through transactions with up to the stated number of concurrent repliers (timely, late, duplicate)",
 "Needs a reply to arrive in the window between the end of a wait and the release of its id.",
 ["tsm/transactions.go"],
 [("per-transaction channel", "tsm/transactions.go Send/Receive/Put")])
prop("C33", "Subscribers get exactly the announcements in their range; no deadlock",
 "A subscriber receives every announcement published while it is subscribed whose id lies within its inclusive range, once and in publication order per publisher, and none outside the range. Publishers and subscribers, coming, going and timing out concurrently, never deadlock, crash or block each other beyond the subscriber's timeouts. A subscription that has ended, in either way, leaves nothing behind.",
 ["schedules", "histories"], "all interleavings, within the preemption bound, of the stated numbers of publishers and subscribers, all ids and ranges, timeouts expiring at any point",
 "The existing tests publish from one goroutine with generous sleeps.",
 ["utsm/utsm.go", "utsm/subscriber.go"],
 [("subscriber list and per-subscriber channel", "utsm/utsm.go Publish, utsm/subscriber.go Subscribe")])
prop("C34", "Every request the client sends is a correct frame to the right destination",
 "For each client operation (read, write, read/write multiple, Who-Is, I-Am, router and network number queries) the datagram sent consists of the correct framing, a network layer header that names the device's network and full MS/TP address when it has one, and the encoded request, and goes to the device's address. Framing is unicast for a device and broadcast for broadcasts. A request too large for a frame is refused, not cut. What a request sends does not depend on those before or beside it, and what the caller handed over (options, device, addresses) stays as it is.",
 ["inputs"], "all device addresses (IP, port, network, MS/TP address of up to the stated length), properties and values within the stated bounds",
 "The root package has no runnable tests: they need a network interface and a device.",
 ["device.go", "readprop.go", "writeprop.go", "readmulti.go", "writemulti.go", "whois.go", "iam.go", "whatnetwork.go", "whoisrouter.go"],
 [("framing", "device.go Send"), ("header construction", "readprop.go, writeprop.go, readmulti.go, writemulti.go, whois.go")])
prop("C35", "A request succeeds only on its own positive answer",
 "A client read or write returns success only if a complete positive acknowledgement of the right kind, carrying its invoke id and naming its service, arrived while it was waiting; the returned data are those of that answer and stay so, whatever is requested later. Parts of segmented answers are not accepted. Error, malformed, foreign or missing answers make the call return an error within its timeout, without crash. An error answer to a ReadProperty or WriteProperty ends the call at once, without another request.",
 ["inputs", "histories"], "all answer datagrams up to the stated size, and sequences of up to the stated number of answers, to each kind of request",
 "Needs a peer that answers with arbitrary bytes.",
 ["device.go", "readprop.go", "writeprop.go", "readmulti.go", "writemulti.go", "tsm/transactions.go"],
 [("dispatch of received PDUs", "device.go handleMsg"), ("answer checks", "readprop.go, writeprop.go, readmulti.go, writemulti.go")])
prop("C36", "No datagram can crash or wedge a running client",
 "Whatever datagrams arrive, from anywhere, with any content, a running client keeps receiving and stays able to serve later requests; it neither panics nor stops reading. Forwarded and routed packets are attributed to the device that originated them.",
 ["inputs", "histories"], "all datagrams up to the stated size, and sequences of them, arriving while idle, while a request is outstanding or while a discovery runs",
 "A remote peer chooses the bytes; the tests never feed the receive path.",
 ["device.go", "datalink/udp.go", "encoding/npdu.go"],
 [("receive loop and dispatch", "device.go ClientRun/handleMsg")])
prop("C37", "Device discovery returns each answering device once, with its own data",
 "Who-Is returns one entry for each distinct device instance in the requested range that answered with I-Am while the discovery was listening, carrying the identifier, APDU size, segmentation, vendor, network number, MS/TP address and IP address of that device's first answer. Devices outside the range and other messages are ignored.",
 ["inputs", "histories"], "all ranges and up to the stated number of I-Am answers with all identifiers, data and routed or direct source addresses, including duplicates",
 "Needs a network of devices.",
 ["whois.go", "device.go", "utsm/utsm.go", "encoding/iam.go"],
 [("collection and de-duplication", "whois.go WhoIs"), ("source address merge", "device.go handleMsg")])
prop("C38", "Object discovery returns exactly the device's objects with their names",
 "Retrieving a device's objects asks for every index of its object list exactly once and returns each listed object with the name and description the device gave for that very object. Every request fits the device's APDU size and what BACnet/IP carries; objects of types without a known name or description (proprietary ones) are listed without. Any device answer that is short, oversized or of another type yields an error, never a crash or a mix-up, for every list length and APDU size.",
 ["inputs"], "all list lengths up to the stated bound, all APDU sizes a device can announce (50 to 1497 octets), all object identifiers and all answer shapes",
 "Needs a device; chunk boundaries depend on the APDU size and list length.",
 ["objectlist.go"],
 [("chunking of the list", "objectlist.go objectList"), ("matching of answers to objects", "objectlist.go objectInformation")])
prop("C39", "Point operations read and write exactly the addressed point",
 "The network-level operations on devices and points (read value, priority array, name, units; write, release; details; object lists; discovery) access exactly the object, property and priority the caller named on the caller's device and return the value the device gave. Errors of single reads and writes are returned to the caller (collections of details leave blank what the device refused; a value of another data type reads as zero), distinct devices stay distinct, and no answer crashes them.",
 ["inputs"], "all object types, instances, priorities and values, device settings, and answers of every value type or error",
 "The tests of the network package need a live network and do not run.",
 ["network/points.go", "network/read.go", "network/write.go", "network/strings.go", "network/objects.go", "network/discover.go", "network/device.go", "network/whois.go"],
 [("mapping of points to properties", "network/points.go"), ("device list", "network/discover.go")])
prop("C40", "Every request gives its transaction back",
 "When a client request returns, for whatever reason (success, encoding refusal, send failure, timeout, error or garbage answer), the transaction id it used is free again. Any number of failed requests in a row therefore never exhausts the client or blocks later requests.",
 ["inputs", "fault_sequences"], "all outcomes of each step of each request kind, in sequences longer than the number of available transactions",
 "Exhaustion needs more than twenty failures in a row of a specific kind.",
 ["readprop.go", "writeprop.go", "readmulti.go", "writemulti.go", "tsm/transactions.go"],
 [("release on return", "readprop.go, writeprop.go, readmulti.go, writemulti.go")])
prop("C41", "Network discovery returns exactly the announced networks",
 "Asking for network numbers returns the number of every Network-Number-Is message that arrives while the client listens, and asking for routers returns every network of every I-Am-Router-To-Network message, in order of arrival and once per message. No other message adds to, removes from or reorders the result, and both calls end within their timeout even when nobody answers.",
 ["inputs", "histories"], "up to the stated number of answers from different routers with all network numbers 1..65534, with or without source and destination specifiers in their headers, mixed with other messages",
 "Needs routers on a network; the root package's tests do not exercise it.",
 ["whatnetwork.go", "whoisrouter.go", "device.go", "encoding/npdu.go", "utsm/utsm.go"],
 [("dispatch of network layer messages", "device.go handleMsg"), ("collection", "whatnetwork.go, whoisrouter.go")])
prop("C42", "The BACnet/IP data link is where it was told and carries data unchanged",
 "A data link made for an IPv4 address, mask length and port, or for a network interface, has exactly that station address and the broadcast address of that subnet (on port 47808); what is no IPv4 address, mask length or UDP port is refused with an error. Every datagram sent to a station arrives there with exactly its octets and the sender's address. Closing a data link or a client, in each of its ways, ends its receiving, frees its port, and makes later requests fail; it never crashes or blocks.",
 ["inputs", "schedules"], "all IPv4 addresses, mask lengths 0..32 and ports, all contents of datagrams up to the stated size, and all interleavings of closing with a waiting Receive and a waiting request within the preemption bound",
 "The tests need a second station or never compare addresses; no test closes a running client.",
 ["datalink/udp.go", "btypes/address.go", "device.go"],
 [("own and broadcast address", "datalink/udp.go dataLink"), ("sending and receiving", "datalink/udp.go Send, Receive"), ("closing", "device.go Close, ClientClose, ClientRun")])
prop("C43", "The network store gives back exactly what was put into it",
 "After any sequence of successful and failing NewNetwork, New, NewDevice and UpdateDevice calls, looking up an id gives the network or device that the last successful call put under it, for as long as the store exists, and an error for ids nothing or something of the other kind was put under. Refused calls change nothing, ids never stand for one another, lookups and changes from several goroutines do not disturb each other, a network made by the store can be given devices, and a device works with the network and address of the last change that was not refused. Closing a network closes its client and reports a failure to do so; the address can be used again.",
 ["inputs", "histories", "schedules"], "all sequences of the stated number of successful and failing changes under two ids, all pairs of ids up to three octets, all interleavings of changes and lookups within the preemption bound",
 "No test uses the store beyond one network and device.",
 ["network/store.go", "network/base.go", "network/device.go", "helpers/store/init.go"],
 [("kinds of entries", "network/store.go GetNetwork, GetDevice"), ("entries", "helpers/store/init.go")])
prop("C44", "Validation accepts exactly the valid ports, addresses and masks",
 "ValidPort is true exactly for 0 to 65535. ValidIP is true for every IPv4 address in dotted decimal form, also with the suffix /32, and for no other text of digits, dots, letters and blanks. ValidCIDR is true for a dotted IPv4 address exactly with mask lengths 0 to 32.",
 ["inputs"], "all ports within -65536..131071, all IPv4 addresses, all mask lengths within -256..288, all texts of digits, dots, blanks and a letter up to the stated length",
 "The tests try a few values; a wrong alternative of the port pattern or a wrong limit shows only at particular numbers.",
 ["helpers/validation/vaildation.go"],
 [("port pattern, address and mask parsing", "helpers/validation/vaildation.go")])
prop("C45", "Optional values and home paths are what they were made from",
 "Each helper that makes an optional value returns one of its own that holds exactly the given value; reading an optional value returns what it holds, or the zero value of the type when it is missing, and the check for a missing one is true exactly then. Expanding a path leaves every path that does not begin with a tilde as it is, replaces a tilde that stands alone or before a separator by the home directory, and refuses the home directories of other users; it never crashes. The home directory is that of the environment, is remembered until it is reset or remembering is switched off, and concurrent lookups and resets neither block nor disturb each other.",
 ["inputs", "schedules"], "all values of the number types, all texts and paths up to the stated lengths, all interleavings of two lookups with a reset within the preemption bound",
 "No test covers these helpers.",
 ["helpers/nils/nil.go", "helpers/homedir/homedir.go"],
 [("optional values", "helpers/nils/nil.go"), ("home directory", "helpers/homedir/homedir.go Dir, Expand, Reset")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
