#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
H3 = "bnl/http3/src/"
B = "bnl/base/src/"
Q = "bnl/quic/src/"
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


CONN = [H3 + "client/connection.cpp", H3 + "server/connection.cpp",
        H3 + "endpoint/stream/request.cpp", H3 + "endpoint/stream/control.cpp",
        "bnl/http3/include/bnl/http3/endpoint/generator.hpp"]
CODEC = [H3 + "codec/varint/encode.cpp", H3 + "codec/varint/decode.cpp",
         H3 + "codec/frame/encode.cpp", H3 + "codec/frame/decode.cpp",
         H3 + "codec/headers.cpp", H3 + "codec/body.cpp",
         H3 + "codec/qpack/encode.cpp", H3 + "codec/qpack/decode.cpp",
         H3 + "codec/qpack/prefix_int/decode.cpp",
         H3 + "codec/qpack/literal/decode.cpp",
         H3 + "codec/qpack/huffman/decode.cpp"]

p("C01", "HTTP/3 messages arrive intact end to end in both directions",
  "Whatever requests a client application queues and whatever responses a server application queues (headers, body pieces and end of message issued in any permitted order and at any time relative to the transport), every byte the two endpoints exchange leads the peer application to see, for each stream, exactly the queued headers in order, exactly the concatenated body bytes, and then exactly one end-of-message notification. "
  "Nothing is lost, duplicated, reordered within a message or attributed to another stream, a message with an empty body or with no body still completes, and a response may be started, and even completed, before the request has been fully received.",
  ["schedules", "histories", "inputs"],
  "All interleavings of application calls and transport steps (deliver next stream segment, per-stream FIFO, any order across streams) for up to three concurrent exchanges, over header and body scripts that include empty bodies, empty pieces, several pieces, and end of message queued before or after everything else was sent.",
  "The only connection test runs one request and one response with one fixed order of calls; loss or stall needs a particular interleaving of application and transport.",
  CONN + [H3 + "codec/headers.cpp", H3 + "codec/body.cpp"],
  "per-stream sender/receiver state machines multiplexed by the two connection classes",
  [("requests_", "live streams of a connection"), ("state_", "phase of a stream sender/receiver")])

p("C02", "What a receiver reports does not depend on how bytes were segmented",
  "For every sequence of stream bytes delivered to a connection, valid or not, the headers, body bytes, end of message, settings and the first error reported for that stream are the same however the bytes are cut into transport segments, including empty segments and an end-of-stream mark that arrives alone, and whether or not events are drained between segments. (A request stream's end takes effect where it lies in the bytes; the end of the control stream is an error at once, whatever arrived with it.)",
  ["schedules", "inputs"],
  "All ways to cut each stream of a corpus of valid, invalid and truncated streams for both roles, exhaustively for short streams and for every placement of up to three cuts for long ones, with the end of stream joined or separate and events drained per segment or only at the end.",
  "Tests deliver each sender buffer whole; a cut inside a varint, header field or frame header is never exercised.",
  CONN + CODEC, "resumable decoders over a list of received buffers")

p("C03", "Everything an endpoint emits is well-formed HTTP/3 for its role",
  "Each endpoint's control stream (client 2, server 3) carries exactly one stream-type byte 0 and one SETTINGS frame before anything else is sent, and is never ended. "
  "Each message is emitted on its own stream (client requests use 0, 4, 8, ... in order of creation, responses the request's stream) as one HEADERS frame whose length equals its header block, followed by one DATA frame per queued body piece whose length equals that piece (an empty piece may be left out), with the end of stream marked exactly once, on the last data emitted, and nothing after it. "
  "When nothing can be sent the endpoint reports idle, without consuming queued work, and one stream with nothing to send never keeps another from sending.",
  ["histories", "schedules", "inputs"],
  "All sequences of application calls and send steps up to the depth bound over several streams, with body sizes across length-encoding boundaries and header blocks across 63/64, 127/128 and 16383/16384 bytes.",
  "Tests never look at the emitted bytes of a connection and only emit one message whose lengths are single-byte varints.",
  [H3 + "client/connection.cpp", H3 + "server/connection.cpp", H3 + "endpoint/stream/request.cpp",
   H3 + "endpoint/stream/control.cpp", H3 + "codec/headers.cpp", H3 + "codec/body.cpp", H3 + "codec/frame/encode.cpp"],
  "sender state machines and the frame encoder")

p("C04", "Request streams accept exactly the frame sequences allowed for the role",
  "On a request stream a receiver accepts HEADERS, then DATA frames, optionally a trailing HEADERS frame that is ignored and ends the body, with frames of unknown type skipped wherever they occur. "
  "Every other sequence is answered with the specific error: DATA before HEADERS is unexpected_frame; SETTINGS, MAX_PUSH_ID, CANCEL_PUSH and GOAWAY are wrong_stream; for a client PUSH_PROMISE and DUPLICATE_PUSH are not_implemented and PRIORITY is unexpected_frame; for a server PUSH_PROMISE and DUPLICATE_PUSH are unexpected_frame and PRIORITY is not_implemented before the header section has begun and unexpected_frame after. "
  "A header section of length zero is malformed_frame, and no event is delivered for a rejected frame.",
  ["inputs", "histories"],
  "All sequences of frames up to the depth bound from an alphabet of every frame type, several unknown types and payload sizes, for both roles, followed by end of stream or not.",
  "No test feeds a connection any frame but HEADERS and DATA in the valid order.",
  [H3 + "endpoint/stream/request.cpp", H3 + "client/stream/request.cpp", H3 + "server/stream/request.cpp", H3 + "codec/frame/decode.cpp"],
  "receiver state machine with role-specific frame handler")

p("C05", "Control streams accept exactly the frame sequences allowed for the role",
  "The first frame on the peer's control stream must be SETTINGS and is reported once with the values sent (absent settings take their defaults, unknown settings and unknown frame types are ignored); any other known first frame is missing_settings, and a stream type other than control is refused with an error instead of being interpreted. "
  "Afterwards HEADERS, DATA, PUSH_PROMISE and DUPLICATE_PUSH are wrong_stream, a second SETTINGS is unexpected_frame; for a client CANCEL_PUSH and GOAWAY are not_implemented, MAX_PUSH_ID and PRIORITY unexpected_frame; for a server CANCEL_PUSH, MAX_PUSH_ID and PRIORITY are not_implemented and GOAWAY unexpected_frame. "
  "An end of stream on the control stream is closed_critical_stream at whatever point it arrives.",
  ["inputs", "histories"],
  "All sequences of frames up to the depth bound from an alphabet of every frame type, unknown types, and SETTINGS with every subset and boundary value of settings, for both roles, with the end of stream at every position.",
  "The one test only ever receives the default SETTINGS and ignores the event.",
  [H3 + "endpoint/stream/control.cpp", H3 + "client/stream/control.cpp", H3 + "server/stream/control.cpp",
   H3 + "client/connection.cpp", H3 + "server/connection.cpp", "bnl/base/src/http3/settings.cpp"],
  "control receiver state machine with role-specific frame handler")

p("C06", "Streams do not interfere with each other",
  "What a connection reports for one stream, and what it emits on it, depends only on that stream's own bytes and application calls: interleaving it with any other stream, including streams that are idle, rejected with an error, truncated, unidirectional and ignored, or already completed, changes nothing. "
  "Bytes for a stream that the peer cannot have opened are refused, and receiving on a completed stream never creates a message.",
  ["schedules", "histories"],
  "All interleavings of the segments of two or three stream scripts (including hostile ones) on one connection, for both roles, each compared with the same stream run alone.",
  "The tests only ever have one request stream.",
  CONN, "per-stream map entries keyed by stream id")

p("C07", "Message handles are safe for their whole lifetime",
  "A handle to a request or response stays usable while it is moved, is the last handle obtained for its stream, and its stream is alive; every call on a moved-from, superseded or empty handle, or on one whose stream or connection is gone, fails with invalid_handle and has no other effect; an empty or moved-from handle has the id of no request. "
  "Calls that do not fit the message's state (adding headers after start, starting twice or with no headers, adding body or ending after the end) fail with an error and leave what was queued intact, and destroying or overwriting a handle never cancels what was queued through it.",
  ["histories", "schedules"],
  "All sequences up to the depth bound of obtaining, moving, assigning, overwriting and destroying handles, calling them, sending, completing exchanges, moving and destroying connections, for several streams.",
  "Tests use each handle once, on the stack, and never outlive a stream; the bugs are dangling pointers that need particular sequences.",
  [H3 + "endpoint/stream/request.cpp", H3 + "client/connection.cpp", H3 + "server/connection.cpp"],
  "two-way pointers between handle and stream sender, maintained on move and destruction")

p("C08", "Hostile peers cannot crash, hang or exhaust an endpoint",
  "Whatever bytes and stream ids a peer sends, in whatever segments, an endpoint never reads or writes out of bounds, aborts, throws out of a receive or event call, loops forever or yields an unbounded number of events, and holds no more memory than a fixed multiple of the bytes received. "
  "Every malformed input is reported as an error or as needing more data.",
  ["inputs", "fault_sequences"],
  "Every byte string up to the length bound over an alphabet of structurally significant bytes, every one-byte corruption and truncation of valid streams, on every kind of stream for both roles, run with memory- and undefined-behaviour checking.",
  "Unit tests contain a handful of malformed inputs and are not run with memory checking.",
  CONN + CODEC, "bounds checks in decoders and error returns in connections")

p("C09", "A message is reported complete only if it really is",
  "If a stream ends at any point other than after a complete header section and complete body frames, the receiver reports malformed_frame for it and never reports the message as finished; if it has not ended, no finish and no error is reported however little has arrived. "
  "If it ends exactly there, the last body event (if there is one) is marked as last and the finish is reported exactly once, also when the end of stream arrives later and alone.",
  ["inputs", "crash_points"],
  "Every truncation point of every stream in a corpus of valid messages (several header field kinds, body frame sizes from 0, unknown frames between) with and without an end-of-stream mark, for both roles.",
  "No test truncates a message.",
  [H3 + "endpoint/stream/request.cpp", H3 + "codec/headers.cpp", H3 + "codec/body.cpp", "bnl/http3/include/bnl/http3/endpoint/generator.hpp"],
  "end-of-stream flag combined with decoder progress")

p("C10", "Variable-length integers are encoded and decoded exactly",
  "Every value below 2^62 encodes to the shortest of the 1, 2, 4 or 8 byte QUIC encodings and its predicted size is the number of bytes written; larger values are refused with varint_overflow and nothing is written. "
  "Decoding returns the exact value of any encoding, minimal or not, consuming exactly its bytes and nothing after it, and reports incomplete without consuming anything when bytes are missing.",
  ["inputs"],
  "All values of up to 22 bits, all values within a distance of every encoding boundary and every power of two, all placements of every byte value in every position; all first bytes and all truncations for decoding, over contiguous, segmented and look-ahead sources.",
  "Tests check a few values per size class, from one contiguous buffer.",
  [H3 + "codec/varint/encode.cpp", H3 + "codec/varint/decode.cpp"], "two-bit length prefix")

p("C11", "Frames are encoded exactly as specified and decode back to themselves",
  "For every frame of every type, the encoding is the frame type, the exact payload length and the payload in wire order; the predicted size equals the bytes written (excluding the header block or body bytes the caller supplies), and decoding it yields an equal frame. "
  "Any field or total length that does not fit a variable-length integer is refused with varint_overflow.",
  ["inputs"],
  "Every frame type with every combination of boundary values in its fields, every priority type pair and weight, and every combination of boundary values of the settings.",
  "Tests encode one instance per frame type.",
  [H3 + "codec/frame/encode.cpp", H3 + "codec/frame/frame.cpp", "bnl/base/src/http3/settings.cpp"], "size prediction and encoding written separately")

p("C12", "Frame decoding accepts exactly well-formed frames",
  "Decoding a frame consumes exactly that frame (only its header for DATA and HEADERS, header and push id for PUSH_PROMISE) and returns its exact fields; frames of unknown type are skipped whole as soon as they are complete, whatever follows, and a payload whose length disagrees with the frame's contents is malformed_frame. "
  "When the frame is not completely available the result is incomplete and the frame's bytes are not consumed; peeking never consumes and names the type of the frame that decoding would return.",
  ["inputs"],
  "Every frame type and unknown types, every declared length around the true one, every truncation point, preceded by unknown frames of every small size, and all byte strings up to the length bound over a structural alphabet, over contiguous and segmented sources.",
  "Tests cover one malformed and one incomplete frame.",
  [H3 + "codec/frame/decode.cpp"], "look-ahead cursor committed only on success")

p("C13", "QPACK prefixed integers are exact for every value and prefix",
  "For every prefix width from 1 to 8 and every 64-bit value, encoding yields the canonical prefix-integer bytes, preserves the bits above the prefix when written in place, leaves them zero in a fresh buffer, and its predicted size is exact. "
  "Decoding inverts it for any encoding of a value that fits 64 bits, consumes exactly those bytes, reports incomplete without consuming anything when bytes are missing, and rejects encodings whose value does not fit with qpack_decompression_failed.",
  ["inputs"],
  "All prefixes with all values of up to 18 bits and all values around every power of two and continuation boundary; all continuation-byte strings over a boundary alphabet up to 11 bytes; every truncation.",
  "There is no direct test; the QPACK tests only use one-byte integers.",
  [H3 + "codec/qpack/prefix_int/encode.cpp", H3 + "codec/qpack/prefix_int/decode.cpp"], "continuation-byte loop")

p("C14", "Huffman coding is exact and rejects every invalid encoding",
  "For every byte string the Huffman encoding is the RFC 7541 code of each byte in order, padded with ones to a byte boundary, and its predicted size is exact. "
  "Decoding any encoding returns the original string, including the empty one; an encoding that contains the end-of-string symbol, or is padded with more than seven bits or with anything but ones, is rejected with qpack_decompression_failed, and too few available bytes report incomplete with nothing consumed.",
  ["inputs"],
  "Every symbol at every bit offset, every ordered pair (and, deeper, triple) of symbols, all byte strings of up to 2 bytes (deeper: 3) as encodings, and every padding.",
  "The existing test uses a few random strings; a wrong bit in one of 257 codes at one of 8 offsets is not reached.",
  [H3 + "codec/qpack/huffman/encode.cpp", H3 + "codec/qpack/huffman/decode.cpp",
   H3 + "codec/qpack/huffman/encode_generated.cpp", H3 + "codec/qpack/huffman/decode_generated.cpp"],
  "bitwise encoder and generated nibble automaton")

p("C15", "String literals round-trip and use the shorter form",
  "Encoding a string literal uses the Huffman form exactly when it is strictly shorter, sets the form bit accordingly and the length to the bytes that follow, leaves bits above it as they were in place or zero in a fresh buffer, and predicts its size exactly. "
  "Decoding accepts either form for any length and any bytes, returns the exact string, consumes exactly the literal, and reports incomplete without consuming anything when the declared length exceeds the available bytes.",
  ["inputs"],
  "All strings up to length 2 over a full byte alphabet and up to 4 over a boundary alphabet, lengths around every length-encoding boundary up to 16 KiB, every prefix width used, both forms, every truncation.",
  "Literals are only exercised indirectly with short ASCII values.",
  [H3 + "codec/qpack/literal/encode.cpp", H3 + "codec/qpack/literal/decode.cpp"], "length prefix, form bit and payload")

p("C16", "QPACK field lines use the static table exactly and round-trip",
  "Encoding a header uses the full-match index of the QPACK static table when name and value match an entry that has a value, otherwise a static name reference when the name matches (with the empty value for entries without a value), otherwise a literal name, and the first field of a block is preceded by the two zero bytes of the prefix; names with an uppercase ASCII letter are refused with malformed_header both ways. "
  "Decoding returns exactly the header that was encoded for every header, every static index and every literal; references to the dynamic table, post-base forms and indices outside the table are qpack_decompression_failed, and the running byte count equals the bytes consumed.",
  ["inputs"],
  "All 99 static entries, all near misses of each (name or value altered, emptied, extended), all names with all values of other entries, all indices up to 600 and beyond 2^32 in each form, all first bytes.",
  "Tests cover one field per form.",
  [H3 + "codec/qpack/encode.cpp", H3 + "codec/qpack/decode.cpp", H3 + "codec/qpack/encode_generated.cpp", H3 + "codec/qpack/decode_generated.cpp", "bnl/base/src/http3/header.cpp"],
  "generated hash switch for encoding, generated index switch for decoding")

p("C17", "Decoders are resumable and independent of where bytes are stored",
  "Every decoder gives the same result, and unless it fails consumes the same bytes, whether its input is one contiguous buffer, a list of buffers cut anywhere (including empty ones), or a look-ahead view of either. "
  "When it reports incomplete it can be called again once more bytes are appended, any number of times, and ends with the same result as if all bytes had been there at first.",
  ["inputs", "schedules"],
  "For a corpus of valid and invalid inputs of each decoder, all placements of up to three cuts and every prefix delivered first, over every source type.",
  "Tests decode from whole contiguous buffers.",
  CODEC, "decoders templated over the byte source, progress kept in decoder state")

p("C18", "A header section is decoded as exactly one HEADERS frame",
  "A header encoder emits nothing until it is ended, refuses to be ended without headers, and then emits a HEADERS frame header whose length is exactly the bytes that follow. "
  "A header decoder returns exactly the encoded headers, in order, is finished exactly after the last one, and reports malformed_frame for an empty block and for a field line that crosses the end of the frame; it asks the caller to handle any other frame without consuming it.",
  ["inputs", "histories"],
  "All header lists up to length 3 over an alphabet covering every field-line form and size class, all sequences of encoder calls, and every declared length around the true one.",
  "Tests only reach this through the single connection test.",
  [H3 + "codec/headers.cpp", H3 + "codec/qpack/encode.cpp", H3 + "codec/qpack/decode.cpp"], "byte counts of the QPACK codec compared with the frame length")

p("C19", "A message body is carried by DATA frames without loss",
  "A body encoder emits, for each added piece in order, a DATA frame header with that piece's size and then the piece (nothing for an empty piece is fine too), reports idle when nothing is queued, refuses additions after the end, and is finished exactly when it was ended and everything was emitted. "
  "A body decoder returns the payload bytes of any sequence of DATA frames in order, in whatever pieces they arrive, is in progress exactly while payload bytes are outstanding, skips unknown frames, and asks the caller to handle any other frame without consuming it.",
  ["inputs", "histories", "schedules"],
  "All sequences of add, end and emit calls up to the depth bound with piece sizes 0, 1, 20, 21, 63, 64 and 16384; all frame-size sequences and all ways to cut them.",
  "Tests only reach this with one five-byte body.",
  [H3 + "codec/body.cpp"], "state machine alternating frame header and payload, outstanding byte count")

p("C20", "Buffers own their bytes exclusively and never leak or alias",
  "A buffer keeps its bytes through any sequence of constructing, moving, assigning, slicing, consuming and concatenating, for every size; buffers sliced from one another share no visible bytes, so writing or destroying one never affects another. "
  "All storage is released exactly once when the last buffer using it is gone.",
  ["histories"],
  "All operation sequences up to the depth bound on up to three buffers with sizes around the inline-storage threshold, compared with plain byte vectors and with allocation accounting.",
  "The five buffer tests check one sequence each.",
  [B + "base/buffer.cpp"], "inline storage up to 20 bytes, reference-counted heap block above",
  [("rc_", "shared reference count"), ("sso_", "inline storage")])

p("C21", "A list of buffers behaves as one byte queue",
  "A list of buffers is equivalent to the concatenation of its buffers' bytes: size, indexing, slicing, consuming and popping return exactly the bytes and leave exactly the rest, wherever the boundaries between buffers (including empty buffers) fall. "
  "A look-ahead view sees the same bytes from its start position, consuming through it changes neither the list nor the buffer, it counts exactly what was consumed through it, and a view copied from another starts where that one stands.",
  ["histories"],
  "All operation sequences up to the depth bound over buffers of sizes 0, 1, 3, 20, 21 and 25 with every slice and consume size, compared with a byte vector.",
  "The single list test checks one sequence.",
  [B + "base/buffers.cpp", B + "base/buffer.cpp"], "list of buffers with cursor arithmetic")

p("C22", "Error codes survive conversion to the standard error type",
  "Converting any HTTP/3 or QUIC error to the standard error type keeps errors distinct, keeps their text and the library they came from, and tests as failure for every error except no_error; the example client reports every failure as such.",
  ["inputs"],
  "All pairs of error values of both libraries.",
  "No test converts an error.",
  [B + "base/system_error.cpp", "bnl/base/include/bnl/http3/result.hpp", "bnl/base/include/bnl/quic/result.hpp", "bnl/base/include/bnl/base/system_error.hpp"],
  "narrowing of 64-bit error values to int")

p("C23", "Logging never changes behaviour and is routed by severity",
  "Results, emitted bytes and state are the same whether no logger, a silent logger or the console logger is installed, for every input including those that make the library log. "
  "The console logger writes each record as one complete line, warnings and errors entirely to the error stream and lower severities entirely to the standard output, with the message text formatted with its arguments, and a record that cannot be written never disturbs the caller.",
  ["inputs", "configurations"],
  "All error-provoking inputs of the endpoint and codec corpora under each logger configuration; all severities, both source settings, several messages in every order.",
  "No test installs a logger.",
  [B + "log.cpp", "bnl/log/src/console.cpp", "bnl/base/include/bnl/base/log.hpp"], "global logger pointer and printf-style macro")

p("C24", "Value types keep exactly what they are given",
  "An IP address, endpoint, host, path, header, view, frame, settings or transport event returns exactly the values it was made from, also after being copied, moved or assigned any number of times, compares equal exactly to values with the same contents, and prints IPv4 addresses in dotted decimal.",
  ["inputs", "histories"],
  "All constructions over boundary bytes of both address families and all copy, move and assignment sequences up to the depth bound.",
  "No test covers these types.",
  [B + "ip/address.cpp", B + "ip/address/ipv4.cpp", B + "ip/address/ipv6.cpp", B + "ip/endpoint.cpp", B + "ip/host.cpp", B + "quic/path.cpp", B + "quic/event.cpp", B + "http3/event.cpp", B + "http3/header.cpp", B + "base/buffer_view.cpp", B + "base/string_view.cpp"],
  "tagged unions with hand-written copy and destruction")

p("C25", "The QPACK interop tools reproduce every header list",
  "The encoder tool turns a text file of header lists into the interop format with consecutive numbering from 1, exact block lengths and one block per list, ignoring comments and blank lines, and the decoder tool turns it back into the same lists, for every file with or without a final blank line. "
  "A malformed file, or output that cannot be written, makes the tool exit with failure instead of writing a wrong list, and a well-formed one with success.",
  ["inputs"],
  "All files of up to six lines over an alphabet of header lines (empty values, static and literal names, tabs in values), comments, blank and malformed lines, and every truncation of the encoded files.",
  "No test runs the tools.",
  ["bnl/http3/app/qpack/qpack-interop-encode.cpp", "bnl/http3/app/qpack/qpack-interop-decode.cpp"], "line parser and block framing")

p("C26", "QUIC stream data is sent once, in order, and kept until acknowledged",
  "However the transport accepts data (all, part or none of what is offered, or blocked), the bytes it accepts on a stream are exactly the bytes queued, in order, with the end of stream offered exactly with the last byte or after it, also when the last piece is empty or equals an earlier one. "
  "The memory of accepted bytes stays unchanged and alive until it is acknowledged, acknowledgements beyond what was accepted are an error, the acknowledgement of the end alone is not, and the memory of a stream is released once it is ended, fully accepted and fully acknowledged.",
  ["schedules", "fault_sequences", "histories"],
  "All sequences up to the depth bound of queueing pieces (sizes across the inline-storage threshold, equal and empty pieces), ending, sending with every transport answer, and acknowledging every amount.",
  "The QUIC client is not even compiled by the tests.",
  [Q + "client/stream.cpp", "bnl/quic/include/bnl/quic/client/stream.hpp"], "send queue and keepalive queue",
  [("buffers_", "bytes that are not sent or not acknowledged yet")])

p("C27", "The QUIC client routes data, acknowledgements and events faithfully",
  "Data queued on a connection is offered to the transport on its own stream only after the handshake is complete, streams that are blocked never keep others from sending, and transport answers other than blocked are reported. "
  "Every stream event, reset and read error the transport raises during one receive is returned exactly once, in order, with its id, end mark and bytes, acknowledgements reach exactly the stream and encryption level they are for, and failures in a callback are reported to the transport as failure. "
  "The transport and TLS are set up as configured (path, parameters, with the specification's defaults for those that are not set, server name, ALPN, initial keys); the handshake data and secrets of TLS become the transport's handshake data, unchanged until acknowledged, and keys of the right level and cipher suite, also after key updates; timers run exactly when they are due; and messages of the libraries (of up to 1000 characters) are logged verbatim.",
  ["schedules", "fault_sequences", "histories"],
  "All sequences up to the depth bound of application calls, TLS flights and transport callbacks with every transport answer and failure, on up to three streams.",
  "The QUIC client is not even compiled by the tests.",
  [Q + "client/connection.cpp", Q + "client/handshake.cpp", Q + "client/ngtcp2/connection.cpp"], "callback-driven event buffer and stream map")

p("C28", "QUIC packet protection secrets and masks follow the specification",
  "For every cipher suite, the initial secrets, key updates and packet protection keys derived from any connection id and secret are the HKDF outputs the specification defines for their labels and lengths; sealing and opening are inverse, sealing never writes past its destination and opening rejects any altered byte; and the header protection mask is the one defined for the suite.",
  ["inputs", "configurations"],
  "All suites over boundary connection ids and secrets, compared with an independent implementation, and every single-byte alteration of sealed messages.",
  "The QUIC crypto code is not even compiled by the tests.",
  [Q + "crypto.cpp", Q + "crypto/boringssl.cpp"], "HKDF label construction and AEAD calls")

p("C29", "The example client's sockets and descriptors behave under every OS answer",
  "Datagrams queued on the UDP socket are sent whole, in order, once each, however the operating system answers (would block, interrupted, error), and received datagrams are returned whole; the socket's pending error, its addresses, and resolved addresses are reported as the operating system gives them. "
  "Every descriptor is closed exactly once, when its last owner is destroyed or overwritten; timers and watches of the event loop fire their handlers while they exist, exactly as armed, and errors of the loop and of resolving are returned as what they are.",
  ["fault_sequences", "histories"],
  "All sequences up to the depth bound of operations and operating-system answers, with the system calls replaced by recording stand-ins.",
  "The example client is not compiled by the tests.",
  ["bnl/http3/app/endpoint/os/socket/udp.cpp", "bnl/http3/app/endpoint/os/fd.cpp", "bnl/http3/app/endpoint/os/dns.cpp", "bnl/http3/app/endpoint/sd/event/loop.cpp", "bnl/http3/app/endpoint/sd/event/source.cpp", "bnl/http3/app/endpoint/os/ip/address.cpp"],
  "thin wrappers over system calls")

p("C30", "The example client completes one request under every network schedule",
  "Given a host name and a port, the example client (its `main`) resolves the host, connects to the first address and that port, requests `GET https://<host>/index.html`, prints each response header as `name: value`, an empty line and the exact body, and exits with status 0, whichever datagrams are lost, late, reordered or arrive together, and whenever the socket is full. "
  "After every turn of its event loop, every packet the QUIC transport has to send was sent in order unless the socket would block, and it wakes up when the transport expires or, failing that, the idle timeout after its last activity, when it gives up with a failure. "
  "Wrong arguments (a port that is not a number up to 65535), an unresolvable host, failing system calls, or a server that falls silent or breaks the protocol make it end with a failure status, never with status 0 and a wrong response; descriptors and event sources are released exactly once.",
  ["schedules", "fault_sequences"],
  "All schedules with up to 2 (thorough: 3) lost, late or reordered datagrams and full sockets, 8 responses, 5 stages of silence, 13 protocol violations, failing system calls.",
  "The example client is not compiled by the tests.",
  ["bnl/http3/app/endpoint/client.cpp", "bnl/http3/app/endpoint/client.hpp", "bnl/http3/app/endpoint/os/socket/udp.cpp", "bnl/http3/app/endpoint/sd/event/loop.cpp", "bnl/http3/app/endpoint/sd/event/source.cpp", "bnl/quic/src/client/connection.cpp", "bnl/http3/src/client/connection.cpp"],
  "client::send_once()/recv_once(), timers and run()")

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
