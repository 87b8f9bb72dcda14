#!/usr/bin/env python3
"""Regenerates properties.jsonl (the single place where statements are edited)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

prop("S01","Parsing untrusted bytes never crashes",
"Whatever bytes are handed to the SIP message parser, the SIP URI parser or the session-description parser, the call returns a result or an error. It never panics: no index or slice outside its buffer, no nil dereference, no failed conversion. The text of a parse error can be produced without panicking too.",
["inputs"],"every byte string of every length, for each of the three parsers",
"The tests parse a few dozen hand-written inputs; the guarantee is about all inputs, and the generated automaton has several hundred states of hand-placed actions with shared cursor, mark and buffer-length variables.",
["sip/msg_parse.rl","sip/sip.rl","sip/msg_parse.go","sip/uri_parse.rl","sip/uri_parse.go","sdp/sdp.go","sip/msgerror.go"],
[("scratch buffer as long as the input, cursor checked against the end before each step","sip/msg_parse.go ParseMsg"),("length checks before slicing lines","sdp/sdp.go Parse")],
observe=["sip.ParseMsg","sip.ParseURI","sdp.Parse","MsgParseError.Error"])

prop("S02","Parsing always terminates",
"The SIP message parser and the SIP URI parser finish on every input: each step of the automaton consumes input or is a rewind that cannot be taken twice without consuming more than it gave back, and every other loop or recursion in the parsing code runs over a finite range, a shrinking remainder or a finite list.",
["inputs"],"every byte string; every cycle through the parsing automaton",
"A hang needs one particular cycle of states in which the cursor does not advance; no finite set of inputs shows its absence.",
["sip/sip.rl","sip/msg_parse.go","sip/uri_parse.go"],
[("hold and backtrack actions move the cursor back at most to the mark","sip/sip.rl action hold/backtrack"),("automaton loop advances the cursor on every transition","sip/msg_parse.go")],
observe=["sip.ParseMsg","sip.ParseURI"])

prop("S03","Parsed numbers are exact or the input is refused",
"Every decimal number the SIP message parser or URI parser stores or relies on (protocol version, status code, Via and URI ports, sequence number, hop limit, expiry and minimum expiry, declared body length) is the number written in the input. A number too large for its field makes the parser return an error; it is never stored reduced modulo the field's range.",
["inputs"],"every digit string of every length in each numeric position",
"Wrap-around needs numbers longer than any test uses; a wrapped port or sequence number looks like an ordinary value to every later assertion.",
["sip/sip.rl","sip/msg_parse.go","sip/uri_parse.rl","sip/uri_parse.go"],
[("digit accumulation actions","sip/sip.rl actions VersionMajor/VersionMinor/StatusCode/ViaPort/ContentLength/CSeq/Expires/MaxForwards/MinExpires; sip/uri_parse.rl action port")],
observe=["sip.ParseMsg","sip.ParseURI"])

prop("S04","Accepted messages are structurally complete",
"In every message the SIP parser accepts, every element of every address header carries a URI, every Via hop carries a non-empty protocol, version, transport and host, every parameter and extension header carries a non-empty name, and every stored extension header carries a non-nil value.",
["inputs"],"every accepted byte string, every element of every list it produces",
"Code that consumes messages relies on these facts without checking; tests look only at the well-formed elements they wrote.",
["sip/sip.rl","sip/msg_parse.go","sip/addr.go","sip/via.go","sip/xheader.go"],
[("list insertion actions run only after the mandatory part was captured","sip/sip.rl actions Addr, Via, AddrParam, ViaParam, value")],
observe=["sip.ParseMsg"])

prop("S05","Each header name fills exactly its own field",
"A recognised header, written in full or in its registered one-letter form and in any mix of upper and lower case, fills the message field of that header and no other, and different headers never share a name. Any other header name ends up as an extension header with its name kept as written.",
["inputs"],"every header name of the recognised set in every letter case, and every other token as a header name",
"Fifty headers times spellings times neighbouring headers in the automaton's prefix tree; the tests use a handful and cannot see that one name also touches a second field.",
["sip/sip.rl","sip/msg_parse.go"],
[("header-name automaton selecting the destination","sip/sip.rl aname/sname/cheader/sheader")],
observe=["sip.ParseMsg"])

prop("S06","Every stored header is written back under its own name",
"When a message is written out, every header field that is set appears under exactly the header name whose parsing fills that same field, with that field's own value and exactly once; a field that is not set produces no line, apart from those mandatory in every message.",
["inputs"],"every message field, set alone or together with others",
"Tests round-trip a few messages in which most of the roughly fifty fields are empty, so a misspelt, dropped, swapped or duplicated header in the writer goes unseen.",
["sip/msg.go","sip/xheader.go","sip/sip.rl"],
[("message writer","sip/msg.go (*Msg).Append"),("header-name automaton","sip/sip.rl")],
observe=["Msg.Append","Msg.String","sip.ParseMsg"])

prop("S07","Formatted components cannot escape their position",
"When an address, URI, Via or message is written, the user, password, URI parameter and URI header texts come out percent-escaped so that they contain only characters allowed in that component, parameter values and display names come out either as bare token text or inside one closed quoted string whose inner quotes and backslashes are escaped, and parameter and extension-header names come out as token characters only. No content of these fields can therefore end its component, start another parameter or header, or break the line.",
["inputs"],"every byte value in every position of every such field",
"It is a statement about all 256 byte values in all positions; tests exercise a few special characters in one or two components.",
["sip/escape.go","sip/quote.go","sip/charsets.go","sip/uri.go","sip/addr.go","sip/param.go","sip/uriparam.go","sip/uriheader.go","sip/xheader.go","sip/uri_parse.rl"],
[("escaping and sanitising appenders","sip/escape.go, sip/quote.go"),("character class tables","sip/charsets.go")],
observe=["URI.Append","Addr.Append","Param.Append","XHeader.Append"])

prop("S08","Serialized messages are well framed",
"Every message written out starts with one start line that has method, request target and protocol version (request) or protocol version, status and phrase (response) in that order, continues with header lines each of the form name, colon, value, CRLF, carries exactly one Content-Length as the last header, and ends with one empty line followed by the payload bytes and nothing else. The declared Content-Length is the number of payload bytes that follow.",
["inputs"],"every message, with every combination of set and unset fields and payload kinds",
"The combinations of optional fields and payload kinds are exponential; a missing line ending or a length computed from something other than the bytes written appears only for some of them.",
["sip/msg.go","sip/xheader.go","sip/via.go","sip/addr.go"],
[("message writer","sip/msg.go (*Msg).Append")],observe=["Msg.Append"])

prop("S09","A parsed payload is exactly the declared body",
"When a message with a positive declared length is accepted, the payload is all and only the bytes after the empty line that ends the headers, and their number equals the declared length; a message whose remaining bytes differ in number from a positive declared length is refused. A body declared as a session description is handed over only as a successfully parsed session description.",
["inputs"],"every accepted message with a body, every declared length",
"The tests have a few bodies with right lengths; off-by-one positions or skipped comparisons matter only for other lengths or content types.",
["sip/msg_parse.rl","sip/msg_parse.go","sip/payload.go"],
[("length comparison and payload extraction after the automaton stops","sip/msg_parse.rl ParseMsg epilogue")],observe=["sip.ParseMsg"])

prop("S10","Copies are complete and independent",
"Copying a message, address, Via or URI yields an object with every field equal to the original's, down the whole list. Changing anything reachable in the copy's addresses, Via hops, URIs, parameters or extension-header list elements never changes the original, and the other way round.",
["inputs"],"every field of every copied structure; every later mutation of either side",
"A dropped field or a shared parameter list is invisible until a specific field is read or a later mutation happens through one of the two; no test copies and then mutates.",
["sip/msg.go","sip/addr.go","sip/via.go","sip/uri.go","sip/param.go","sip/uriparam.go","sip/uriheader.go","sip/xheader.go"],
[("Copy methods","sip/msg.go, sip/addr.go, sip/via.go, sip/uri.go")],observe=["Msg.Copy","Addr.Copy","Via.Copy","URI.Copy"])

prop("D01","No peer message can crash the process",
"Whatever datagram a peer sends, at whatever point of a call, the goroutines that receive messages and run the call handle it, ignore it or end the call with an error; none of them panics. The same holds for the stateless transport's receiver and for routing and sending a reply built from any message that receiver delivered.",
["inputs","histories"],"every parsable message, at every reachable state of the call",
"A crash needs an unusual but legal message (no Via, no Contact, video-only description, a bare redirect) in a particular call state; there are no dialog tests at all.",
["dialog/dialog.go","dialog/receiver.go","dialog/messages.go","dialog/route.go","dialog/transport.go"],
[("message loop","dialog/dialog.go (*dialogState).run"),("receiver","dialog/receiver.go ReceiveMessages")],observe=["NewDialog","NewTransport","Transport.Send"])

prop("D02","Delivered messages never change afterwards",
"Once the receiver has handed a message to its consumer, later network traffic does not alter any part of it: no byte of its headers, extension headers or payload shares storage with the buffer that later datagrams are read into.",
["histories","schedules"],"every message followed by any further datagrams, at every interleaving of reader and consumer",
"Corruption shows only when the consumer still holds a message while the next datagram arrives and only in fields that alias the buffer.",
["dialog/receiver.go","sip/msg_parse.go"],
[("receive loop and parser's treatment of its input","dialog/receiver.go ReceiveMessages; sip/msg_parse.rl value action and payload")],observe=["Transport.C"])

prop("D03","Ending a call releases everything exactly once and never hangs",
"However a call ends (hang-up, peer's hang-up, error, failed contact), its goroutine finishes: it closes its sockets, waits only for things that are certain to happen, lets the receiver goroutines exit, and closes the error, state and peer channels exactly once, after which it uses none of them.",
["schedules","histories"],"every exit of the call's event loop, every order in which receiver and teardown run",
"The hang depends on the order in which the receiver and the teardown reach their channel operations; a goroutine stuck after the call ended fails no test.",
["dialog/dialog.go","dialog/receiver.go"],
[("deferred teardown","dialog/dialog.go cleanup, cleanupSock, cleanupCSock"),("receiver's exit sequence","dialog/receiver.go ReceiveMessages")],observe=["Dialog.OnErr","Dialog.OnState","Dialog.OnPeer"])

prop("D04","A call never ends silently",
"On every path by which a call ends, its owner has been told before the channels close: either an error was delivered on the error channel or the state change to hung-up was delivered on the state channel.",
["histories","fault_sequences"],"every path out of the event loop, including each failing socket or name-resolution operation",
"Each of a dozen early exits must report; most need a network fault or an unusual response that no test produces.",
["dialog/dialog.go"],[("error and state reporting before returning","dialog/dialog.go")],observe=["Dialog.OnErr","Dialog.OnState"])

prop("D05","Every final response to an INVITE is acknowledged first",
"When a final response (status 200 or above) matching the pending INVITE arrives, an ACK for it is sent before the call reports any state change or peer address for it, sends any other request, or ends. The ACK carries the INVITE's sequence number and Call-ID and the response's To; it is never sent for a provisional response, nor for a response to any other request.",
["histories"],"every matching response, in every call state",
"Depends on which response (2xx, redirect, failure, with or without Contact) arrives to which request; an un-ACKed response is only visible on the wire.",
["dialog/dialog.go","dialog/messages.go"],[("response handler","dialog/dialog.go handleResponse; dialog/messages.go NewAck")],observe=["UDP traffic","Dialog.OnState","Dialog.OnErr"])

prop("D06","Peer requests get exactly the answer the protocol mandates",
"A request of the call's own dialog that is in order and has hops left gets exactly one answer: 200 to BYE, OPTIONS and INVITE, none to ACK, 405 to anything else. One with an older sequence number gets 500 instead and no hops left gets 483; a request with a foreign Call-ID gets 481, one with another protocol version 505. The order is that of the requests already accepted in the call. The answer echoes the request's Via, From, To, Call-ID and sequence number, and neither responses nor ACKs are ever answered.",
["inputs","histories"],"every request method, sequence number, hop limit, Call-ID and version, in every call state",
"Tests never drive the dialog; the mandated answer depends on the product of method, order, hop count and identity.",
["dialog/dialog.go","dialog/messages.go"],[("request handler","dialog/dialog.go handleMessage, handleRequest; dialog/messages.go NewResponse")],observe=["UDP traffic"])

prop("D07","Foreign messages do not affect the call",
"A response that does not match the pending request (sequence number, method, the bottom Via's host, port and branch) and any message with a different Call-ID leave the call exactly as it was: no state change, peer address or error is reported for them, no timer or pending request is dropped, and the call does not end.",
["inputs","histories"],"every non-matching message in every call state",
"A stray or late response is harmful only at particular moments; matching has five independent conditions and tests exercise none.",
["dialog/dialog.go","dialog/messages.go"],[("transaction matching","dialog/messages.go ResponseMatch"),("dialog matching","dialog/dialog.go handleMessage")],observe=["Dialog.OnState","Dialog.OnPeer","Dialog.OnErr"])

prop("D08","Retransmission is bounded and always makes progress",
"An unanswered request, and an unacknowledged answer to a re-INVITE, is retransmitted at most the configured number of times per destination and then the call moves on or ends with an error: each pass with an unanswered request consumes a retransmission or a remaining destination and re-arms its timer. Redirects and failovers are bounded as well: the call cannot be kept contacting new destinations for ever.",
["histories","fault_sequences"],"every sequence of timeouts, refusals, redirects and failures",
"An endless loop or a lost timer needs a long fault sequence; tests have no clock or peer.",
["dialog/dialog.go"],[("resend counters, timers and route list","dialog/dialog.go resendRequest, resendResponse, popRoute")],observe=["UDP traffic","Dialog.OnErr"])

prop("D09","Derived messages belong to their transaction and dialog",
"A response built for a request has the given status and that status's phrase and the request's Via, From, To, Call-ID, sequence number, method and Record-Route. A CANCEL has the INVITE's request target, Via, From, To, Call-ID, sequence number and Route; an ACK has the response's From, To, Call-ID, sequence number and topmost Via alone and its reversed Record-Route as Route, and the INVITE's credentials; a BYE has the INVITE's From and Call-ID, the other party's To and contact, reversed Record-Route as Route, and a sequence number one above the last used.",
["inputs"],"every request, response and dialog-establishing message they may be built from",
"One swapped field still yields a well-formed message; it only fails against a peer that checks.",
["dialog/messages.go"],[("constructors","dialog/messages.go NewRequest, NewResponse, NewAck, NewCancel, NewBye")],observe=["NewResponse","NewAck","NewCancel","NewBye"])

prop("D10","Outgoing requests are completed, never overwritten",
"Before a request leaves through the transport or a call it has a Via with a branch, a From with a tag, To, Call-ID, sequence number and method and hop limit. Whatever of these the caller supplied is kept; only what was missing is filled in, with method equal to the request's own, To's URI equal to the request target and hop limit 70. A call puts its own port and a fresh branch into the Via for each destination. Responses are left untouched by this completion, and so are the transport's own Via and contact.",
["inputs"],"every combination of supplied and missing fields",
"There are 2^10 combinations of supplied and missing fields and no test for any.",
["dialog/route.go","dialog/dialog.go"],[("completion","dialog/route.go PopulateMessage; dialog/dialog.go populate")],observe=["PopulateMessage","Transport.Send"])

prop("D11","Messages are routed to the right next hop",
"A response goes to the host and port of its topmost Via after the sender's own Via is removed, with a received parameter replacing the host and an rport parameter in 1-65535 replacing the port, and is refused when no Via remains. A request goes to its first Route when that is a loose router, to the request target when there is no Route, and for a strict first hop the target is moved to the end of the route set and replaced by that hop; port 0 always means the default port 5060.",
["inputs"],"every Via list, parameter set, route set and port",
"The choice depends on several independent optional parts, none of which is tested.",
["dialog/route.go","dialog/transport.go"],[("routing","dialog/route.go RouteMessage, RouteAddress; dialog/transport.go Send")],observe=["RouteMessage","RouteAddress","UDP destination"])

prop("D12","Identifiers are unpredictable and well shaped",
"Tags, branches, Call-IDs, initial sequence numbers and session-description origin ids are derived from the operating system's cryptographic random source on every call, at least 48 random bits each for tags and branches and 120 for Call-IDs, with failure of that source reported by stopping and never by a weaker value. Branches begin with the RFC 3261 magic cookie z9hG4bK, Call-IDs have the shape of a version 4 UUID, and sequence numbers lie in 0 to 49999.",
["inputs"],"every call of every generator, including failure of the random source",
"Predictability cannot be seen in outputs a test samples.",
["util/util.go"],[("generators","util/util.go")],observe=["util.GenerateTag","util.GenerateBranch","util.GenerateCallID","util.GenerateCSeq","util.GenerateOriginID"])

prop("D13","Call progress is reported as it happens",
"A matching response to the INVITE is reported faithfully: 100 as proceeding, 180 and 183 as ringing, the first 200 as answered and later 200s not again; provisional responses that arrive after the answer are not reported and do not undo it. A 200 to the call's BYE and a peer's BYE are reported as hung-up and end the call; a session description in a response up to 200 or in a peer's INVITE that offers audio is reported as the peer's audio address and port, and nothing else is.",
["histories"],"every sequence of responses and peer requests",
"Reports depend on status, method and earlier history; tests have no peer.",
["dialog/dialog.go"],[("handlers and state reporting","dialog/dialog.go handleResponse, handleRequest, checkSDP, transition")],observe=["Dialog.OnState","Dialog.OnPeer"])

prop("D14","Refusal or unavailability moves on to the next destination",
"While an INVITE has further destinations left, a connection refusal received on the call's socket, a timeout or a 503 response makes the call contact the next destination, without reporting an error or ending; with none left it ends with an error. A refusal is recognised in every form in which the operating system reports it through the Go network library.",
["fault_sequences","histories"],"every destination list and every sequence of refusals, timeouts and 503 responses",
"Needs ICMP errors or a failing peer per destination.",
["dialog/dialog.go","util/util.go"],[("failover","dialog/dialog.go run, popRoute, handleResponse"),("refusal detection","util/util.go IsRefused")],observe=["UDP traffic","Dialog.OnErr"])

prop("D15","Received requests are stamped with where they came from",
"Every request the receiver delivers whose topmost Via names another host than the datagram's source carries a received parameter with the source address, and one whose Via port differs carries an rport parameter with the source port, unless the sender supplied a non-empty one. Responses are not stamped and no other part of the Via changes.",
["inputs"],"every request and every source address",
"Depends on how Via, its parameters and the source relate; untested.",
["dialog/receiver.go"],[("stamping","dialog/receiver.go addReceived")],observe=["Transport.C"])

prop("D16","Hanging up cancels an unanswered call and ends an answered one",
"When the owner hangs up, a call that is proceeding or ringing sends a CANCEL for its INVITE, an answered call sends a BYE routed by the dialog's route set whose sequence number is higher than that of every request it sent before, and nothing else is sent. After a hang-up request the call keeps running until the peer answers or retransmission gives up.",
["histories"],"every call state and history before the hang-up",
"Depends on call history including re-INVITEs; untested.",
["dialog/dialog.go","dialog/messages.go"],[("hang-up","dialog/dialog.go sendHangup; dialog/messages.go NewCancel, NewBye")],observe=["UDP traffic"])

prop("R01","RTP headers are encoded and decoded bit-exactly",
"Writing an RTP header produces the 12 bytes RFC 3550 prescribes: version 2, padding flag, no extension, zero contributing sources, marker, 7-bit payload type, and sequence number, timestamp and source id in network byte order, appended after what the buffer held. Reading such bytes yields the same header; fewer than 12 bytes, another version, or an extension are refused with an error and leave the header untouched.",
["inputs"],"all values of every header field; all byte strings",
"One test round-trips one header; a wrong shift or mask shows only for particular values.",
["rtp/rtp.go"],[("header codec","rtp/rtp.go Header.Write, Header.Read")],observe=["rtp.Header"])

prop("R02","Telephone-event payloads and digit tables agree",
"Writing a telephone event produces event, end bit, reserved bit, 6-bit volume and big-endian duration exactly as RFC 4733 lays them out, and reading inverts it. The digit tables agree: 0-9, *, #, A-D (either case) and ! map to events 0 to 16 both in the public conversion and in what the session sends, the reverse conversion returns the same digit (in upper case), and every other character or event is refused.",
["inputs"],"all events, flags, volumes and durations; all 256 characters and all 256 event codes",
"No test covers events or digit conversion; tables of 17 entries in three places agree only by care.",
["rtp/rtp.go","rtp/dtmf.go","rtp/session.go"],[("event codec","rtp/rtp.go EventHeader"),("digit tables","rtp/dtmf.go, rtp/session.go dtmfCodes")],observe=["rtp.EventHeader","rtp.DtmfToChar","rtp.CharToDtmf","Session.SendDTMF"])

prop("R03","Each audio packet advances sequence and timestamp correctly",
"Every audio packet sent carries the sequence number and timestamp following the previous packet's: the sequence number grows by exactly one per packet and the timestamp by the number of samples of the previous packet (160 for a frame). A frame packet is the 12-byte header with the mu-law payload type and the given 160 samples encoded in order; a raw packet is the header with the given payload type and exactly the given bytes. Sending without a socket or peer changes nothing.",
["histories"],"every sequence of sends, frames and raw payloads",
"Accounting errors appear over a sequence of packets; the test sends none.",
["rtp/session.go"],[("send paths","rtp/session.go Send, SendRaw")],observe=["UDP traffic","Session.Header"])

prop("R04","A DTMF digit is sent as one well-formed event",
"A digit is sent as packets of one telephone event: all share the timestamp and the digit's event code, sequence numbers grow by one per packet, only the first has the marker, durations never decrease, there are at most sixty packets, and exactly the last three have the end bit and the full duration, which is at most one step beyond the last update. After a digit, successful or failed, the marker is clear; an invalid digit sends nothing and returns an error.",
["inputs","fault_sequences"],"every digit, every point at which a write fails",
"No test sends DTMF; the leftover marker needs a failing write.",
["rtp/session.go"],[("event train","rtp/session.go SendDTMF")],observe=["UDP traffic","Session.Header"])

prop("R05","Only whole mu-law frames are delivered, and never concurrently reused",
"The session's receiver delivers a frame only for a datagram of exactly 172 bytes with a valid header and the mu-law payload type, each of the 160 samples decoded from its own byte of that datagram, and it delivers one for every such datagram with a plain header before it reads the next. After delivering a frame the receiver does not touch it until the consumer has given a frame back. When the socket fails it closes the frame channel, delivers the error and finishes, and closing the session cannot hang. A closed session has no socket, and closing it again, or closing none, does nothing.",
["inputs","schedules"],"every datagram; every interleaving of receiver, consumer and close",
"Frame reuse races and shutdown hangs depend on interleaving; stale bytes on datagram lengths tests never send.",
["rtp/session.go"],[("receiver","rtp/session.go receiver"),("shutdown","rtp/session.go Close, CloseAfterError")],observe=["Session.C","Session.R","Session.E"])

prop("R06","RTP sockets bind even ports in range with bounded retries",
"Opening a media socket without an explicit port binds the given host on an even port between 16384 and 32768, tries at most ten ports, retries only when the port was in use, and returns either a socket or an error. A session is made exactly when there was a socket. An explicit host:port is used as given.",
["inputs","fault_sequences"],"every random draw and every bind failure",
"The one test binds a few times; parity and range must hold for each random draw and failures for each error.",
["rtp/session.go"],[("port selection","rtp/session.go Listen")],observe=["rtp.Listen","rtp.NewSession"])

prop("M01","An accepted session description is complete",
"Every session description the parser accepts had origin and connection lines with internet addresses that are not multicast ranges, offers audio or video, and each offered medium has a protocol, a port in 0-65535 and, for every payload type listed, a codec of that payload type with a name, its rate and parameters taken from the rtpmap and fmtp lines of that same payload type or from the table of static payload types. Anything else is refused with an error and without a description.",
["inputs"],"every text",
"Each mandatory part can be missing independently, and codec completion depends on combinations of media, rtpmap and fmtp lines.",
["sdp/sdp.go","sdp/codecs.go"],[("description parser","sdp/sdp.go Parse, populateCodecs, parseMediaInfo, parseConnLine, parseOriginLine")],observe=["sdp.Parse"])

prop("M04","A session description keeps what was said",
"Of every session description it accepts the parser keeps, and only from lines of that kind: the address of the first connection line; session name, active time and packet time of the last line of each kind (a packet time that is not a positive number changes nothing); sendonly and recvonly exactly when said; the last audio and the last video line, each with all rtpmap and fmtp lines; every other attribute, in order, split at its first colon (one with nothing before the colon is ignored); and every line of another kind, in order, with its text after the equals sign. Lines not of the form letter=text change nothing. A description made for an address and codecs announces exactly that address and port and those codecs, in order, as audio over RTP/AVP, with one fresh identifier.",
["inputs"],"every line of text at every place among the others; every address and list of codecs",
"Lines interact through counters, lists and the order in which they are tested; a test has a few well-formed descriptions.",
["sdp/sdp.go"],[("description parser","sdp/sdp.go Parse"),("basic description","sdp/sdp.go New")],observe=["sdp.Parse","sdp.New"])

prop("M02","Written session descriptions say what the fields say",
"A written session description has version, origin, session name, connection, time, media, attribute and direction lines in the order RFC 4566 requires, each ended by CRLF, with IP6 exactly for addresses containing a colon, every medium with its port, protocol (RTP/AVP by default) and payload types followed by each codec's rtpmap and, when set, fmtp, and exactly one of sendonly, recvonly, sendrecv.",
["inputs"],"every combination of set and unset fields and media",
"Combinations of optional fields, two media and codec lists; tests write a few.",
["sdp/sdp.go","sdp/origin.go","sdp/media.go","sdp/codec.go"],[("description writer","sdp Append methods")],observe=["SDP.Append","SDP.String"])

prop("M03","The static payload table matches its keys and the registry",
"Each entry of the table of standard codecs has the payload type it is filed under, a payload type below 96, a non-empty name and a positive clock rate, and agrees with the IANA static assignment (RFC 3551) for that payload type. The exported mu-law, telephone-event and Opus codecs have payload types 0, 101 and 111.",
["inputs"],"every entry of the table",
"A wrong entry matters only to a peer that offers that payload type without rtpmap.",
["sdp/codecs.go"],[("table","sdp/codecs.go StandardCodecs")],observe=["sdp.StandardCodecs"])

prop("A01","Mixing processes exactly one frame with saturation",
"Mixing adds 160 source samples to 160 destination samples, pairwise and in place, with signed 16-bit saturation instead of wrap-around. It reads and writes no byte outside the two 320-byte frames, never writes the source, and works for frames at any address an int16 may have.",
["inputs"],"all sample values; every byte of both frames",
"Out-of-frame accesses are invisible in a test's memory layout, and wrap-around needs extreme sample pairs in each lane.",
["dsp/dsp_amd64.s","dsp/dsp.go"],[("SSE2 loop","dsp/dsp_amd64.s L16MixSat160")],observe=["dsp.L16MixSat160"])

prop("A02","Companding results stay in their ranges with the right sign",
"For every 16-bit sample, mu-law encoding yields a value in 0-255 whose top bit is set exactly for non-negative samples. For every byte 0-255, decoding yields a value within -32124 to 32124, non-negative exactly when the byte's top bit is set.",
["inputs"],"all 65536 samples; all 256 codes",
"Tests compare a short table of samples.",
["dsp/dsp_amd64.s"],[("companding routines","dsp/dsp_amd64.s LinearToUlaw, UlawToLinear")],observe=["dsp.LinearToUlaw","dsp.UlawToLinear"])

prop("A03","Comfort noise stays in range and in bounds",
"Every generated noise sample is a saturated 16-bit value: any amplitude outside the 16-bit range yields the nearest limit. The generator's table is never indexed out of bounds and its internal counters stay within their moduli for every seed and for any number of samples drawn.",
["inputs","histories"],"every seed, level and number of draws",
"Saturation needs rare large deviates and index bounds depend on counters over long runs.",
["dsp/awgn.go"],[("generator and saturation","dsp/awgn.go")],observe=["AWGN.Get"])

prop("A04","Companding is numerically the G.711 mu-law function",
"Encoding any 16-bit sample and decoding any byte give exactly the values of the ITU-T G.711 mu-law tables, and decoding then encoding returns the original byte (up to the two zeros).",
["inputs"],"all samples and codes","Tests compare a few values.",
["dsp/dsp_amd64.s"],[("companding routines","dsp/dsp_amd64.s")],observe=["dsp.LinearToUlaw","dsp.UlawToLinear"])

prop("S12","Parsing what was written gives back the same message",
"Writing any message whose fields are within the grammar and parsing the result yields a message equal to the original, field by field.",
["inputs"],"all messages","Tests round-trip a few messages.",
["sip/msg.go","sip/sip.rl"],[("writer and parser","sip/msg.go, sip/sip.rl")],observe=["Msg.Append","ParseMsg"])

prop("A05","Noise has the requested power and a Gaussian distribution",
"Over long runs the generated comfort noise has the requested power level and a normal amplitude distribution.",
["histories"],"all levels and run lengths","The test measures a few levels.",
["dsp/awgn.go"],[("generator","dsp/awgn.go")],observe=["AWGN.Get"])

prop("D17","Retransmission timing follows the configured interval",
"An unanswered message is retransmitted no earlier than the configured interval after the previous transmission and without unbounded delay.",
["schedules"],"all schedules and clock behaviours","Depends on real time.",
["dialog/dialog.go"],[("timers","dialog/dialog.go")],observe=["UDP traffic"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
