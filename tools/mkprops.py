#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

CL='sunspec/core/client.py'; DV='sunspec/core/device.py'; UT='sunspec/core/util.py'; SU='sunspec/core/suns.py'
MC='sunspec/core/modbus/client.py'; MM='sunspec/core/modbus/mbmap.py'; SM='sunspec/core/smdx.py'; PI='sunspec/core/pics.py'; DA='sunspec/core/data.py'

p("C01", "Every point type decodes and encodes its registers exactly",
  "For each SunSpec point type, reading a point whose registers hold an implemented value yields exactly the value the big-endian SunSpec encoding of that type assigns to those registers. Writing any value representable in the type puts exactly the declared number of registers on the wire, in the encoding that reads back as that same value, and an integer outside the type's range is rejected rather than written truncated.",
  ["inputs"], "all register contents and all representable values of every point type (16/32/64-bit integers signed and unsigned, bitfields, enums, accumulators, ipaddr, ipv6addr, eui48, float32, strings)",
  "The util tests convert one sample value per codec function and never go through the point-type table; 2^16..2^128 register contents per type are not sampled.",
  [UT, SU, CL], [("data_to_*/​*_to_data".replace("\u200b",""), UT), ("suns_point_type_info table", SU), ("ClientModel.read_points / write_points", CL)],
  observe=["Point.value / value_base after read", "registers passed to device.write"])
p("C02", "Unimplemented sentinels read as None, and only those",
  "After a model is read, a point whose registers hold its type's SunSpec 'not implemented' pattern has value None, and a point holding any other register content of an integer, float or scale-factor type has a non-None value. A point whose scale factor is itself unimplemented is returned unscaled, and a value left from an earlier read never survives a later read that finds the point unimplemented.",
  ["inputs", "histories"], "all register contents of every point type, over sequences of two reads",
  "No stable test reads a point holding a sentinel; the device tests that would need the missing model definitions.",
  [SU, CL], [("suns_is_impl_*", SU), ("value_base reset in read_points", CL)], observe=["Point.value, Point.value_base, Point.value_sf"])
p("C03", "Scaled values are raw times 10^sf, and setting picks the nearest raw",
  "The value of a point with scale factor sf in -10..10 is its raw register value times 10^sf (to double precision), and unscaled points return the raw value itself. Assigning a value to a point with a non-zero scale factor selects the raw integer nearest to value/10^sf, and assigning an integer to an unscaled point selects that integer, so assigning back a value that was read leaves the raw registers unchanged, and it marks the point as modified.",
  ["inputs"], "every raw value of the 16/32-bit integer types (64-bit within double precision), every scale factor -10..10, every assigned value in range",
  "Floating-point rounding failures occur at isolated raw values (0.3/0.1 style); tests check a couple of values.",
  [DV], [("Point.value_getter / value_setter", DV)], observe=["Point.value, Point.value_base, Point.dirty"])
p("C04", "RTU requests are well-formed and intact responses are returned exactly",
  "Every RTU read or write puts one correctly framed request on the line (slave id, function, big-endian address and count, byte count and data for writes, valid CRC low byte first), after discarding stale input. When the slave answers correctly, in whatever pieces the serial port delivers the bytes, a read returns exactly the answered register bytes and a write completes without error.",
  ["inputs", "schedules"], "all slave ids, addresses, counts, register contents, function codes 3/4 and all ways of splitting the response into serial reads",
  "Tests use one canned exchange delivered in one piece.",
  [MC], [("ModbusClientRTU._read/_write framing and reassembly loop", MC)], observe=["bytes written to the serial port", "returned bytes"])
p("C05", "RTU never accepts a corrupt frame: bad responses raise client errors",
  "Whatever bytes arrive in answer to an RTU request, the call terminates, and it either returns the payload of a frame whose CRC is valid or raises a ModbusClientError: a timeout error when the line goes silent, an exception error carrying the code when the slave sends a Modbus exception frame, and a CRC error for a corrupt frame. A read never returns the payload of a frame of another slave or function than the one requested, and a write succeeds only if the slave echoes the requested slave id, function, address and count.",
  ["inputs", "fault_sequences"], "arbitrary response bytes up to the frame bound, arbitrary truncation point, serial port failures at any call",
  "Tests never deliver a corrupted, truncated or exception response.",
  [MC], [("timeout, CRC, exception-code and echo checks in _read/_write", MC)], observe=["exception type and message", "returned bytes"])
p("C06", "The RTU checksum is the Modbus CRC-16 for every message",
  "For every message the checksum appended to requests and required on responses equals the standard Modbus CRC-16 (polynomial 0xA001, initial value 0xFFFF, low byte first). Consequently any corruption of a frame confined to 16 consecutive bits, and any one or two flipped bits, is detected.",
  ["inputs"], "all messages up to a stated length, all burst and one/two-bit error patterns in them",
  "Tests check the CRC of one or two fixed frames; a wrong table entry is used only by particular byte/state combinations.",
  [MC], [("crc16 table, computeCRC, checkCRC", MC)], observe=["computeCRC / checkCRC results"])
p("C07", "TCP requests are well-formed and segmented responses reassemble exactly",
  "Every TCP read or write sends one correctly framed Modbus/TCP request (protocol id 0, correct length field, unit id, function, address, count, data). When the device answers correctly, in whatever segments TCP delivers the bytes, a read returns exactly the answered register bytes and a write completes; an exception response raises a Modbus exception error carrying the code.",
  ["inputs", "schedules"], "all unit ids, addresses, counts, register contents and all segmentations of the response",
  "Tests use one canned exchange delivered in one piece.",
  [MC], [("ModbusClientDeviceTCP._read/_write", MC)], observe=["bytes sent on the socket", "returned bytes"])
p("C08", "TCP faults surface as client errors and never poison the device object",
  "If connecting, sending or receiving fails or the peer closes the connection at any point of a request, the call raises an error of the ModbusClientError family and no other exception. A connection the call opened itself is closed again whatever the outcome, and after a failed automatic connect a later call connects afresh and works; a connection opened explicitly stays open across calls until a request on it fails, and a response that arrives late is never taken for the answer to a later request. A scan, too, closes the connection it opened whatever happens to it.",
  ["fault_sequences", "histories"], "every fault kind at every socket operation, in sequences of requests with and without explicit connect",
  "Tests inject no faults.",
  [MC], [("connect/disconnect and try/finally in read/write", MC)], state=[("socket", "open connection or None", "ModbusClientDeviceTCP")], observe=["exceptions", "socket open/close calls"])
p("C09", "Long transfers are split into in-order requests within the limit",
  "A read or write longer than the device's maximum registers per request is carried out as consecutive requests of at most that many registers that cover the requested range exactly once in ascending order, for any limit; a write request never exceeds the 123 registers Modbus has room for. The bytes returned by a read, or placed in the device by a write, are the same as for a single unlimited request.",
  ["inputs", "configurations"], "all start addresses, lengths, register contents and request limits, RTU and TCP, reads and writes",
  "No test transfers more registers than fit in one request.",
  [MC], [("chunk loops in read/write of ModbusClientRTU and ModbusClientDeviceTCP", MC)], observe=["request sequence on the wire", "returned bytes", "device register contents"])
p("C10", "A mapped device behaves as a register array",
  "A Modbus map behaves like an array of registers defined on its blocks: after any sequence of writes a read returns, for every register, the last value written or else its initial value. A read or write that touches any undefined register, a read with a different function code, or a write of an odd number of bytes raises an error and changes no register, and a read never changes contents.",
  ["histories", "inputs"], "all sequences of reads and writes up to a bound, with arbitrary addresses, lengths and contents, over maps with one or several register blocks",
  "Tests read whole maps once; no sequences, no partial overlaps, no boundary addresses.",
  [MM, MC], [("ModbusMap.read/write, ModbusMapRegs.read/write", MM)], observe=["read results after writes"])
p("C11", "Modbus map files load exactly and survive a save/load round trip",
  "Loading an mbmap file yields, for every regs element, exactly the declared registers at the declared (or next free) offset with the declared typed value, zero padding and access, relative to the declared base address and function; overlapping or out-of-order elements are rejected, in a file as well as when registers are added to a map one block after another. Serialising a map and loading the result gives a map equal to the original, and comparing two maps reports a difference exactly when base address, function, blocks, contents or access differ.",
  ["inputs"], "all element types and values, offsets, lengths, base addresses, fill/short contents, one to three elements",
  "Four fixed map files are compared; no value ranges, no missing-length elements, no attribute round trip.",
  [MM], [("ModbusMap.from_xml/to_xml/not_equal", MM)], observe=["ModbusMap.read results", "to_xml element", "not_equal verdict"])
p("C12", "Scan finds exactly the device's models, in order, at any base address",
  "Scanning a device whose register map starts with the SunSpec marker at one of the candidate base addresses discovers exactly the models in the map, in order, with the ids, lengths and addresses stored in the device, up to the end marker and no further. Models without a definition or inconsistent with it are still listed and do not disturb the others; a device without a marker at any candidate address, or that answers errors or the wrong number of registers, makes scan raise a SunSpecClientError. With a delay given, scan pauses that long between models.",
  ["inputs", "configurations"], "all sequences of models up to a bound, model ids, lengths, contents, which candidate base address is used and how the other candidates fail; end marker with or without a length",
  "The scan tests need model definition files that are absent; none varies base address, failure mode or model chain.",
  [CL], [("ClientDevice.scan", CL)], observe=["models_list after scan (id, addr, len)", "reads issued"])
p("C13", "Model layout matches the definition for every length a device reports",
  "Loading a model lays out the fixed block at the model address and then as many repeating blocks as fit the reported length, each point at its block address plus its defined offset, with pad points left out. A reported length that is not the fixed length plus a whole number of repeating blocks, or that is too short, is rejected with a SunSpecError; for a definition without repeating block extra registers are ignored, and one with a repeating block of no length is rejected.",
  ["inputs", "configurations"], "all reported lengths and model addresses, over model definitions with and without repeating blocks",
  "One stable test checks a single too-short length.",
  [DV], [("Model.load block loop", DV)], observe=["Model.blocks, Block.addr/len/index, Point.addr"])
p("C14", "Reading a model fetches every register once and decodes each point's own",
  "Reading the points of a model of any length fetches every register of the model from the device exactly once in ascending order, in requests of at most 125 registers when the points allow it, never splitting one point across two requests. Every point of every block is then set from exactly the registers at its own address, and a response of the wrong length raises a SunSpecClientError and leaves no point changed.",
  ["inputs", "configurations"], "all model lengths around the request limit, point sizes at the split position, all register contents",
  "The only long-model test needs absent model files.",
  [CL, DV], [("read_blocks computation in Model.load", DV), ("ClientModel.read_points", CL)], observe=["device.read(addr,count) calls", "Point.value_base"])
p("C15", "Scale factors resolve to the right scale-factor point",
  "Each scaled point uses the constant given in the definition, else the scale-factor point of that name in its own block, else (for a repeating block) the one in the fixed block; every repeating block instance uses its own local scale factor when it has one. A name that resolves nowhere makes loading fail with a SunSpecError, and after a read every point carries the scale-factor value read in that same read.",
  ["inputs", "configurations"], "all placements of the scale-factor point (constant, local, fixed, both, missing), all scale factor register values, several repeating blocks, repeated reads",
  "No stable test reads scaled points in repeating blocks.",
  [DV, CL], [("sf resolution in Model.load", DV), ("value_sf update in read_points", CL)], observe=["Point.value", "Point.value_sf"])
p("C16", "Writing a model writes exactly the modified points, each to its place",
  "After any set of points of a model is assigned, writing the model stores in the device exactly the encoded values of the modified points at their addresses and leaves every other device register untouched, and afterwards no point is marked modified so that a second write sends nothing. Writing a single point writes only that point.",
  ["inputs", "histories"], "all subsets of modified points, all values, across fixed and repeating blocks, adjacent and non-adjacent points, interleaved with reads",
  "No stable test writes a model.",
  [CL], [("ClientModel.write_points, ClientPoint.write", CL)], state=[("dirty", "point modified since last write", "Point.dirty")], observe=["device.write calls", "device registers", "Point.dirty"])
p("C17", "A failed write never loses a modification",
  "If writing a model fails at any request, or a value cannot be encoded, an error is raised and every modified point that was not successfully written is still marked modified. Repeating the write after the fault is gone leaves the device holding every modified value.",
  ["fault_sequences", "histories"], "a failure at each position in the sequence of device writes, for every subset of modified points",
  "No test injects a write failure.",
  [CL], [("ordering of device.write and dirty reset in write_points", CL)], observe=["Point.dirty after failure", "device registers after retry"])
p("C18", "Saving a device to PICS and loading it back preserves every point",
  "Writing a device to a PICS document with all repeating blocks and loading that document gives a device with the same base address, models and blocks in which every point has the same raw value and scaled value, and unimplemented points stay unimplemented; the document lists every model, block and point once in definition order with its raw value, access and whether it is implemented, and saving the loaded device gives the same document. Loading a block given without an index applies it to every repeating block, one with an index only to that block, and an index that names no repeating block is rejected. A point whose value is given as its 'not implemented' pattern, or that is marked not implemented, has no value, whatever an earlier block gave it.",
  ["inputs", "configurations"], "all raw values of all point types, scale factors, implemented/unimplemented patterns, one to three repeating blocks, base addresses",
  "The PICS tests need absent model files; they use one fixed document.",
  [DV, PI], [("Device/Model/Block/Point from_pics/to_pics", DV)], observe=["Point.value_base/value of the reloaded device"])
p("C19", "Device comparison reports a difference exactly when there is one",
  "Comparing two devices, models, blocks, points or model definitions reports no difference when all models, definitions (names included), point values and scale factors agree and reports a difference whenever one of them differs, whichever operand is asked. It never raises, including when a value is missing on one side.",
  ["inputs"], "all point values and scale factors, all single differences in model sequence, definition attributes and values, both operand orders",
  "Comparison tests need absent model files; they show equality of one device with itself.",
  [DV], [("not_equal methods", DV)], observe=["not_equal verdicts"])
p("C20", "SunSpec data documents survive a serialise/parse round trip",
  "A SunSpec data document built through the API and serialised to XML, parsed and serialised again yields the same device, model and point records: ids, namespaces, indexes, values, scale factors and timestamps. Parsing a document with an unexpected element raises a SunSpecDataError.",
  ["inputs"], "all attribute presence combinations and values of device, model and point records",
  "One fixed document is parsed and re-serialised.",
  [DA], [("SunSpecData/DeviceData/ModelData/PointData from_xml/to_xml/*_add", DA)], observe=["record attributes after parsing"])
p("C21", "File lookup returns the first match along the path list",
  "Reading a file through a path list returns the contents of the file from the first path, in the order added, that contains it, where a path may be a directory or lie inside a .zip archive, with or without a separator at its end. Paths that do not exist or lack the file are skipped without affecting later paths, and a file found nowhere raises NameError.",
  ["configurations", "inputs"], "all presence/absence combinations of the file over ordered lists of up to four directory and zip paths",
  "No stable test reads through a path list with several entries.",
  [UT], [("PathList.read", UT)], observe=["returned contents / NameError"])
p("C22", "Devices share one serial port, closed exactly when the last one closes",
  "RTU devices opened with the same port name, whatever their slave ids, share one serial port, which stays open while any of them is open and is closed when the last one is closed; opening the name afterwards opens a fresh, working port, even if closing failed. Requesting the port with a conflicting baud rate or parity raises a ModbusClientError without disturbing the existing devices, and devices on different ports are independent.",
  ["histories"], "all sequences of open/close/read operations up to a bound over two port names, several slave ids and parameter combinations, including closing twice",
  "Tests open one RTU client once.",
  [MC], [("modbus_rtu_client registry, add_device/remove_device", MC)], state=[("modbus_rtu_clients", "open ports by name", MC)], observe=["serial open/close calls", "errors"])
p("C23", "Model definitions are parsed faithfully and found under their id",
  "Loading a model definition yields exactly the blocks, points, offsets, lengths, types, access, mandatory flags, units, scale factors, labels, descriptions, notes and symbols in the document, with the documented defaults for absent attributes; a definition with a missing mandatory attribute, an unknown type, access or block type or a duplicate point or block is rejected. The definition file name for a model id and the id for a file name are inverse to each other.",
  ["inputs"], "all point types, attribute presence/value combinations, all model ids 0..65535",
  "Tests that load definitions need the absent files.",
  [DV, SM], [("ModelType/BlockType/PointType/Symbol.from_smdx", DV), ("model_id_to_filename/model_filename_to_id", SM)], observe=["attributes of the loaded definition"])
p("C24", "The scripting interface reads and writes the same points as the device",
  "A scripting device exposes one attribute per model, named as in the definition, giving the model or, when the model occurs several times, a list indexed from 1 in device order. Reading or assigning a point attribute or item, on the model for fixed-block points and on the n-th repeating element for repeating points, reads or assigns exactly that point of the underlying device, and its read and write act on the device registers.",
  ["inputs", "histories"], "all register contents and assigned values, models occurring once or several times, one to three repeating blocks",
  "No stable test constructs a scripting device.",
  [CL], [("SunSpecClientDevice, model_class_get, *_Base property access", CL)], observe=["attribute values", "device registers"])
p("C25", "Tracing never changes what a transfer does",
  "With a trace function supplied, every RTU or TCP read or write has the same result, sends the same bytes and raises the same errors as without it. The trace function is called once per request with the request bytes and once per complete response with the response bytes, in hexadecimal; a client device created with trace=True prints them.",
  ["inputs", "configurations"], "all requests and responses (valid, exception, corrupt), RTU and TCP, reads and writes, with and without trace",
  "No test supplies a trace function.",
  [MC], [("trace_func blocks in _read/_write", MC)], observe=["trace lines", "results with and without tracing"])
p("C26", "Modbus failures reach the user as SunSpecClientError",
  "Every failure of the Modbus layer while a client device is created, scanned, read or written, or while points are read or written, is reported to the caller as a SunSpecClientError (a SunSpecError) for RTU, TCP and mapped devices; so are requests that cannot be expressed, writes of part of a register and answers with the wrong number of registers, also to one request of a long read. A failure during a model read leaves every point value as it was before.",
  ["fault_sequences"], "every Modbus error kind at every device access of create, scan, read, write, read_points, write_points",
  "No stable test makes a device access fail.",
  [CL, MC], [("error translation in ClientDevice.read/write/scan/__init__ and ClientModel.read_points", CL)], observe=["exception class", "Point.value_base after failure"])

p("C27", "Connections use the parameters given; TLS is verified, never downgraded",
  "A device connects with exactly the parameters it was given (serial port, baud rate, parity, host, port, unit id, timeout) or their documented defaults, whether given to the Modbus, client or scripting device. With TLS requested, every byte is exchanged inside a TLS session authenticated with the given client certificate and key, with a server whose certificate is issued by the given CA and, unless verification is skipped, matches the address; with any other server, or when the files cannot be loaded, the request raises a ModbusClientError, nothing is sent to the server and the connection is closed. Without TLS requested no TLS is used.",
  ["inputs", "configurations", "fault_sequences"], "every baud rate, parity, port, timeout, unit id, host, CA, certificate and key name; servers trusted or not, matching or not, speaking TLS or not",
  "No stable test opens a TLS connection or looks at the timeout, port or baud rate actually used.",
  [MC, CL], [("ModbusClientDeviceTCP.connect and ModbusClientRTU.open", MC), ("ClientDevice.__init__ and SunSpecClientDevice.__init__ passing the parameters on", CL)], observe=["arguments of connect and settimeout", "settings of the TLS context", "settings of the serial port", "bytes sent outside TLS"])
p("C28", "The command-line program lists every implemented point exactly once",
  "For any device given by transport options, scripts/suns.py prints each model of the device in order with its label and id, and under it each implemented point of each block exactly once and in order, with its block index, label, id, scaled value (bitfields in hexadecimal) and units, leaving unimplemented points out; models without a definition are listed too. An unknown transport or a device that cannot be created and scanned ends the program with a message and exit status 1.",
  ["inputs", "configurations"], "every register value, every set of unimplemented points, models with and without labels, units, definitions and repeating blocks, every transport",
  "No test runs the program.",
  ["scripts/suns.py", CL, DV], [("listing loop", "scripts/suns.py"), ("SunSpecClientDevice", CL)], observe=["text printed", "exit status"])

p("C29", "Printing shows every model, block and point once, with its current value",
  "Printing a scripting device, model or repeating element shows each model as its name and id, each repeating element as its block name and index, and under them exactly the points that currently have a value, once each and in definition order, with that value (scaled where the point has a scale factor); the device prints every one of its models, including several of one kind. The device, model, block, definition and Modbus map objects of the lower layers likewise print each of their parts once and in order. Printing never fails, sends no request and modifies nothing.",
  ["inputs", "configurations", "histories"], "every register value, every set of unimplemented points, devices before and after reads and assignments, models with and without names, repeating blocks or definitions, one or several of a kind",
  "No test prints a scripting device; values of later reads and repeated models show only in particular histories and devices.",
  [CL, DV, MM], [("SunSpecClientDevice/ModelBase/BlockBase.__str__", CL), ("Device/Block/Point/Model/ModelType/BlockType/PointType.__str__", DV), ("ModbusMap/ModbusMapRegs.__str__", MM)], observe=["str() of the objects", "requests sent while printing"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
