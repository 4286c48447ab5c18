#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
M='internal/protocol/model/'; PR='internal/protocol/'; ST='internal/storage/'; SV='internal/server/'

prop('C01','Frame extraction is exact and independent of how the bytes arrive',
 'For every byte stream on a connection and every way the network splits it into reads, the frames passed on are exactly the non-empty 0x7e-delimited runs in stream order, byte for byte. Bytes outside a pair of delimiters and an unterminated tail yield no frame, and a doubled delimiter only starts the next frame, so a stray or lost delimiter costs at most the frame it belongs to. A frame already handed over is never changed by traffic read later.',
 ['inputs','schedules'],'all byte streams over the delimiter/escape/data classes up to a length bound, times all splits into reads, plus maximum-size and buffer-boundary frames',
 'The unit tests feed 11 fixed streams from an in-memory reader that never returns a short read; the guarantee is about every stream and every chunking.',
 [PR+'frame_handler.go'],[('byte-wise scan with an in-message flag over a buffered reader',PR+'frame_handler.go Recv')],
 [('rbuf','unread bytes of the connection',PR+'frame_handler.go')],['frames returned by Recv','replies of a running server'])

prop('C02','Escaping and check byte carry every packet content unchanged',
 'For every packet content the emitted frame starts and ends with 0x7e, contains no other 0x7e, uses only the escapes 7d02 and 7d01, and ends (after unescaping) with the XOR of all preceding bytes. Decoding such a frame gives back exactly that content. This holds in particular when content, header or check byte contain 0x7e or 0x7d.',
 ['inputs'],'all byte strings over {7d,7e,01,02,other} up to a bound placed in a message, all single and double byte values, and all check-byte values',
 'One fixed encoded message is compared today; escape handling depends on adjacency of special bytes anywhere, including the check byte.',
 [PR+'packet_codec.go'],[('escape/unescape/genVerifier/verify',PR+'packet_codec.go')],(),['bytes written to the connection','decoded packet'])

prop('C03','A frame with a wrong check byte has no effect',
 'A frame whose check byte does not match its content is never acted on: nothing is answered, and no device, location, session or half-received fragmented message changes. The connection stays open and every later valid frame on it is processed normally.',
 ['inputs','histories'],'every single-byte substitution (all positions, all 255 values) of every kind of terminal message, and every wrong check byte, in a live session followed by valid traffic',
 'One corrupted frame is tested at codec level; effects on replies, registry and later traffic are not observed at all.',
 [PR+'packet_codec.go',PR+'pipeline.go',SV+'tcp_server.go'],[('verify before decode; error breaks the pipeline',PR+'packet_codec.go Decode, '+PR+'pipeline.go callWithBlocking')],(),['replies on the connection','device list','latest location'])

prop('C04','Every message survives encode and decode unchanged',
 'For every supported message type and protocol version, encoding a message yields the byte layout the protocol prescribes, with the header length field equal to the body length, and decoding those bytes gives back the same field values. A message whose body cannot be described by the 10-bit length field is refused with an error instead of being emitted, and a message too short for its fixed fields is rejected instead of being read beyond its end. The vehicle status word decodes each bit into the field the protocol assigns to it and encodes back to the same bits.',
 ['inputs'],'all 65536 attribute words, all single bits and pairs of the status word, and the product of boundary values of every field for every message type and version, against an independent reference codec',
 'Five messages have one encode sample each; most decoders, all versions except one and the field boundaries are untested.',
 [M+'header.go',M+'msg.go',M+'device.go',M+'device_media.go','internal/codec/hex/hex.go','internal/codec/gbk/gbk.go'],
 [('field-by-field Read*/Write* helpers','internal/codec/hex/hex.go'),('writeHeader computes BodyLength',M+'msg.go')],(),['Encode/Decode of the message types','frames on the wire'])

prop('C05','2011, 2013 and 2019 terminals are each served in their own layout',
 'A registration or authentication is read with the field widths of the version the terminal uses (2019 by the version bit, 2013 or 2011 by body length), so that every field is the value the terminal sent and the device is listed with that version. Everything the platform sends to that terminal, replies and platform-initiated commands alike, uses the header layout of that version (version bit, protocol version byte and phone width) and the terminal\'s own phone number.',
 ['inputs','configurations'],'all three versions times field values of every length from empty to the full width, for registration, authentication, replies, fragment acknowledgements and commands',
 'Tests decode one 2013 location and encode one 2019 registration; 2011, decoding of registrations and platform-initiated headers are never exercised.',
 [M+'header.go',M+'msg_0100.go',M+'msg_0102.go',M+'device.go'],[('version bit and body-length heuristic',M+'msg_0100.go Decode'),('GenMsgHeader for commands',M+'header.go')],(),['device list','frames on the wire'])

prop('C06','Each request gets exactly one matching reply, in order',
 'Every valid heartbeat, deregistration, registration, authentication and location report from an acceptable terminal is answered on the same connection, in request order, by exactly one message of the prescribed kind naming that request\'s serial number (and message id for general replies), its phone number and the right result. Terminal replies and reports that need no answer, and unsupported message ids, get none and do not disturb later requests. A heartbeat, deregistration, authentication or location report from an unregistered phone gets no reply and the connection is closed.',
 ['histories','inputs','schedules'],'all request sequences up to a depth bound over two terminals and two connections, including pipelined requests in one segment, against a reference state machine',
 'No test drives the processor or a connection at all.',
 [PR+'msg_processor.go',PR+'pipeline.go',SV+'tcp_server.go'],[('action table genData/process',PR+'msg_processor.go'),('recv-decode-process-encode-send chain',PR+'pipeline.go')],(),['frames written to each connection','connection close'])

prop('C07','A plate or phone is registered to at most one device at any time',
 'A registration succeeds only if neither its plate nor its phone is registered; otherwise it is refused with the code for the plate (1) or the phone (3) and the existing registration is untouched. When several registrations for the same plate or phone race, exactly one succeeds. Every successful registration is immediately listed, findable by plate and by phone, and owned by the connection it came from.',
 ['histories','schedules'],'all histories over 2 phones x 2 plates up to a depth bound, and all interleavings of concurrent registrations up to a preemption bound',
 'Registration logic and the device cache have no tests; uniqueness under concurrency is a statement over interleavings.',
 [PR+'msg_processor.go',ST+'device_cache.go'],[('plate/phone lookup before caching',PR+'msg_processor.go processMsg0100'),('two indexes under one mutex',ST+'device_cache.go')],
 [('cacheByPlate/cacheByPhone','registered devices by plate and by phone',ST+'device_cache.go')],['registration replies','device list'])

prop('C08','Only the issued authentication code brings a device online',
 'An authentication succeeds if and only if the phone is registered and the code equals the one its registration reply carried; then the device is online with the IMEI and software version it sent, and its current connection is the one that authenticated. A wrong code is answered with failure and the registration is removed, so the plate and phone can be registered again. No other message turns a device that has not authenticated online.',
 ['histories','inputs'],'all histories of registrations, right/wrong/foreign/truncated/extended codes and other traffic over two devices up to a depth bound, in each protocol version',
 'Authentication is untested; the guarantee ranges over histories and over all wrong codes.',
 [PR+'msg_processor.go',M+'msg_0102.go',M+'msg_8100.go'],[('genAuthCode comparison',PR+'msg_processor.go processMsg0102')],(),['authentication replies','device list'])

prop('C09','Silent terminals are expired in time, active ones never',
 'A device whose last heartbeat, location report or authentication is not older than its keepalive period is never taken offline, removed or disconnected by the platform. A device that has been silent for longer than one period plus the check interval is no longer listed as online, and after three periods it is gone from the list with its current connection closed and its location dropped. This holds for every pattern of traffic, reconnection and time, for devices that each use a connection of their own.',
 ['histories','schedules'],'all histories of traffic, reconnects and clock steps up to a depth bound under a virtual clock, and all interleavings of an expiry check with traffic',
 'There is no test of keepalive; it depends on time, and on the order of timer and traffic.',
 [PR+'keepalive.go',M+'device.go',PR+'msg_processor.go'],[('per-device periodic check job',PR+'keepalive.go'),('ShouleTurnOffline/ShouldClear',M+'device.go')],
 [('LastestComTime, Status','time of last contact and online state',M+'device.go')],['device list over virtual time','connection close'])

prop('C10','The latest position is always the last one reported',
 'After any number of position reports the location returned for a device is the most recent report of that device since it registered, never an older one, another device\'s, or none. Latitude, longitude, altitude, speed, direction, time and every status flag equal the reported values in their units. A reader running concurrently with a reporter gets a complete report that was the latest at some moment during the read.',
 ['histories','inputs','schedules'],'every report count through more than two wraps of the history buffer, all interleavings of two devices\' reports, all operation sequences on the buffer for small capacities, all reader/writer interleavings up to a preemption bound',
 'The buffer\'s latest/oldest tests are commented out and wrap-around through the cache is never reached.',
 ['pkg/container/ring_buffer.go',ST+'geo_cache.go',PR+'msg_processor.go',M+'device.go'],[('ring buffer write/latest','pkg/container/ring_buffer.go'),('ring per phone',ST+'geo_cache.go')],
 [('Writer','next slot','pkg/container/ring_buffer.go')],['latest location of a phone (API and cache)'])

prop('C11','No input or timing kills or stalls the server',
 'No byte sequence, connect/disconnect, API query or expiry, in any order or interleaving, terminates the server process or leaves a lock held so that others stop being served. A malformed message at worst closes the connection it came on. All other connections keep being answered correctly and all other devices keep their state.',
 ['inputs','histories','schedules','fault_sequences'],'every truncation and every short body of every message id, all attribute words, connection faults at every byte, and all interleavings of map-touching operations up to a preemption bound with a happens-before check of concurrent map access',
 'Tests pass only well-formed values to single functions; survival is a statement about all inputs and interleavings.',
 ['pkg/routines/safe.go',SV+'tcp_server.go',PR+'keepalive.go',ST+'device_cache.go',ST+'session_cache.go',ST+'geo_cache.go',ST+'segment_cache.go',M+'device_params.go'],
 [('recover per connection goroutine','pkg/routines/safe.go'),('mutex around every cache map',ST+'*.go')],(),['process liveness','replies on a second connection'])

prop('C12','The session registry is exactly the set of live connections',
 'From acceptance until it closes a connection can be addressed by its identifier, and not afterwards; when it closes for any reason (peer close, error, malformed input, rejected terminal) it is unregistered and its socket closed. Tearing down one connection, once or several times, never unregisters or closes another one, even one that reuses the same remote address.',
 ['histories','schedules','fault_sequences'],'all connect/close/fault/address-reuse histories over three connections up to a depth bound and all interleavings of accept, teardown and send up to a preemption bound',
 'The only server test has an empty case table.',
 [SV+'tcp_server.go',ST+'session_cache.go'],[('accept/remove under the server mutex',SV+'tcp_server.go')],[('cacheByID','live sessions by remote address',ST+'session_cache.go')],['session lookup','delivery of sends','socket close'])

prop('C13','Platform commands reach the device\'s current connection, well formed',
 'A parameter query or parameter setting requested for a device is delivered exactly once, on the connection the device last registered or authenticated on, and on no other connection. The frame is valid, carries the device\'s phone, version layout and the command\'s id, and its body is exactly the requested content. When the device or its connection does not exist nothing is sent to anyone.',
 ['histories','configurations'],'all histories of registration, authentication, reconnection, disconnection and commands over two devices and two connections up to a depth bound, in each protocol version',
 'Neither the API nor Send nor the command header is tested; reconnection makes it a property of histories.',
 ['internal/api/api.go',SV+'tcp_server.go',M+'header.go',PR+'msg_processor.go'],[('device.SessionID to session lookup','internal/api/api.go, '+SV+'tcp_server.go Send')],(),['frames on every connection','HTTP status'])

prop('C14','Platform serial numbers repeat only after the full 16-bit range',
 'The serial numbers assigned to platform-initiated messages on one connection are handed out from the whole 16-bit range so that no number is repeated among any 65536 consecutive assignments. This holds when several requests assign numbers concurrently, including at the wrap-around, and connections count independently.',
 ['schedules','histories'],'all interleavings up to a preemption bound of concurrent assignments started around the wrap-around, and the complete sequential cycle',
 'No test calls it; the failure needs an interleaving at one of 65536 positions.',
 [M+'session.go'],[('atomic counter',M+'session.go GetNextSerialNum')],[('serialNumber','last number handed out',M+'session.go')],['numbers returned','header serial of commands'])

prop('C15','Frames on a connection are written whole and never interleaved',
 'Every frame sent on a connection appears in the outgoing byte stream exactly once, contiguous and complete, whichever of the connection\'s own replies and concurrent platform commands are being sent at the same time. If the socket takes a frame in several pieces the remainder follows without loss or repetition, and a write error is reported and not followed by further bytes of that frame.',
 ['schedules','fault_sequences'],'all interleavings up to a preemption bound of a replying connection and concurrent senders; all patterns of short writes and errors for a frame',
 'Send is untested; atomicity is a statement over interleavings and write outcomes.',
 [PR+'frame_handler.go',PR+'pipeline.go',SV+'tcp_server.go'],[('one unbuffered Write per frame, loop on short writes',PR+'frame_handler.go Send')],(),['bytes received by the peer'])

prop('C16','A fragmented message is processed once, as the concatenation of its parts',
 'A message sent as fragments 1..n is processed exactly once, when the last fragment arrives, with a body equal to the concatenation of the fragments in order, and its reply is an ordinary unfragmented message; each earlier fragment from a registered terminal is acknowledged with a general reply naming it. Fragments of other terminals, of other message ids or of a message with another fragment count in between never mix in (fragments are identified by terminal, message id, fragment count and index). A missing, repeated or abandoned fragment never leads to processing of a body with bytes missing, duplicated or left over from an earlier message.',
 ['histories','schedules','inputs'],'all sequences of fragments (index x total x terminal x message id x content) up to a depth bound, all splits of a location report into 1..4 parts, and interleavings of two terminals up to a preemption bound',
 'The fragment cache has no tests and is reached by no test.',
 [PR+'packet_codec.go',ST+'segment_cache.go',M+'segment.go',PR+'msg_processor.go'],[('segment cache keyed by phone and message id',ST+'segment_cache.go'),('processSegmentPacket acknowledgement',PR+'msg_processor.go')],
 [('cacheByKey','partially received messages',ST+'segment_cache.go')],['replies','latest location / device state after the last fragment'])

prop('C17','Terminal parameters are carried with the right ids, types and values',
 'A list of terminal parameters is encoded as a count equal to the number of parameters that follow, each with its id, byte length and the value in the type the protocol prescribes for that id, and decoding gives back the same ids and values; values supplied as JSON encode like native ones. A parameter with an unknown id is skipped when decoding and encoding without disturbing the others. A value that does not fit its length byte is left out rather than corrupting the message.',
 ['inputs'],'every parameter id times boundary values of its type, all pairs and orders of representative ids with unknown ids interspersed, native and JSON-decoded values, against an independent reference',
 'The only test decodes an empty list.',
 [M+'device_params.go',M+'msg_8103.go',M+'msg_0104.go'],[('argTable codec per id',M+'device_params.go')],(),['encoded parameter messages','decoded parameter lists','0x8103 frames sent for an API request'])

prop('C18','The simulated terminal answers the platform as the protocol requires',
 'The simulated terminal answers a registration reply with an authentication carrying exactly the code it was given plus its IMEI and software version, and comes online on a successful general reply. It answers a parameter query with its complete current parameters under the query\'s serial number, a parameter setting with a success reply after which queries return the new values, and a media query with a media list for that channel and time span. A registration reply or successful general reply addressed to a terminal it does not simulate is not answered and ends the session.',
 ['histories','inputs'],'all sequences of platform messages up to a depth bound over two simulated terminals and parameter values, against a reference model',
 'The client and the 0x8xxx handlers have no tests.',
 ['internal/client/tcp_client.go',PR+'msg_processor.go',ST+'param_cache.go',M+'device_params.go'],[('0x8001/0x8100/0x8103/0x8104/0x9205 actions',PR+'msg_processor.go'),('parameter cache',ST+'param_cache.go')],(),['frames the client writes','client device status'])

prop('C19','A removed device stays removed and leaves nothing behind',
 'Once a device is deregistered, expelled by a failed authentication or expired, it is not listed, its plate and phone can be registered again, and no concurrently running heartbeat, report or expiry check brings it back. A device registered afterwards under the same phone starts fresh: not online, without the old position, on its own connection, and not subject to the old device\'s expiry.',
 ['histories','schedules'],'all histories over one phone and plate up to a depth bound, and all interleavings up to a preemption bound of removal with heartbeat, report, expiry check and re-registration',
 'Needs an interleaving of two connections or of a connection and the expiry timer, or a remove/re-register history; nothing of this is tested.',
 [PR+'msg_processor.go',PR+'keepalive.go',ST+'device_cache.go',ST+'geo_cache.go'],[('cancel job and delete from both indexes',PR+'msg_processor.go processMsg0003, processMsg0102; '+PR+'keepalive.go')],(),['device list','registration replies','latest location'])

prop('C20','The HTTP API reflects and affects exactly the addressed device',
 'Listing devices returns exactly the registered devices, once each, with their current plate, phone, status and version. A request for an unknown phone, for a device without a live connection or with an unparsable body is refused with status 400 and has no effect; a location query for a registered device that has reported returns that device with its latest position. No API request changes the state of another device.',
 ['histories','inputs'],'all histories of terminal events and API calls up to a depth bound over two devices, with valid, invalid and unknown-phone requests, on a real HTTP server over loopback',
 'The API has no tests.',
 ['internal/api/api.go',ST+'device_cache.go',ST+'geo_cache.go'],[('gin handlers over the caches','internal/api/api.go')],(),['HTTP responses','frames on every connection'])

prop('C21','The configuration decides ports, banner and what is logged where',
 'Every setting given in the configuration file is the one in force. The program serves terminals on the configured TCP port and the API on the configured HTTP port, and ends with an error if it cannot listen for terminals. Log records at or above the configured level (DEBUG, INFO, WARN, ERROR, FATAL) reach every enabled destination exactly once and in order, and none below it; a disabled destination gets nothing; the file is written in the configured directory, name and format and rolled by the configured size, count and age without losing records. A log directory that cannot be created does not keep the server from running. The banner is shown only if enabled.',
 ['inputs'],'every setting times boundary values, all combinations of destinations, format, level and banner, each in a fresh process and for the real program over loopback; all rolling limits up to a bound',
 'The only test loads one fixed file in a process that can load just one; nothing starts the program or looks at its log.',
 ['internal/config/config.go','pkg/logger/logger.go','main.go','internal/api/api.go',SV+'tcp_server.go'],[('configuration loaded once and mapped to the logger','internal/config/config.go Load, ParseLogConf'),('writers by destination','pkg/logger/logger.go Configure, newRollingFile'),('start-up','main.go')],(),['ports the program listens on','standard output and error','log files'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
