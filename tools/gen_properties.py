#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Parsing peer bytes never accesses memory outside the data it was given",
  "For every byte sequence a peer can send, split in any way, parsing frames and header blocks (frame reader, byte and bit readers, integer, string and Huffman decoding, header tables) only reads inside the bytes received and inside its own tables, and never dereferences a null node. The same holds when response headers containing arbitrary bytes are encoded.",
  ["inputs"], "all byte sequences, all lengths and flag combinations of every frame type, all header values",
  "The unit tests feed a few dozen well-formed or singly malformed blocks; short payloads combined with flags, truncated integers and bytes >= 0x80 are never fed, and an out-of-bounds read of a few bytes passes silently.",
  ["lib/http2_conn.cpp", "lib/http2_frame_reader.h", "lib/http2_frame_reader.cpp", "lib/hpack/byte_reader.cpp", "lib/hpack/bit_reader.h", "lib/hpack/huffman_tree.cpp", "lib/hpack/header_block_decoder.cpp", "lib/hpack/header_block_encoder.cpp"],
  [("length guard before each subspan/index", "lib/http2_conn.cpp try_read_frame, read_preface"), ("ByteReader::has_bytes", "lib/hpack/byte_reader.cpp"), ("table index range checks", "lib/hpack/header_block_decoder.cpp read_indexed_header*")],
  [("read_buffer_", "received, unparsed bytes", "lib/http2_conn.h"), ("pos_", "read cursor, never beyond the block", "lib/hpack/byte_reader.h")],
  ["HeaderBlockDecoder::decode", "Http2FrameReader accessors", "Http2Connection::process"])

p("C02", "A truncated or malformed header block is always rejected",
  "Whenever any element of a header block (integer, string length, string bytes, Huffman code, table index, size update) cannot be decoded, decoding of that block fails as a whole: no header list is produced, no failed result is used as if it held a value, and the connection is failed with a protocol error without a response being produced for that request.",
  ["inputs"], "every truncation point and every malformed element of every header block",
  "Tests cover a handful of invalid first bytes; the failure branch of each nested decoding step is reached by at most one sample, most by none.",
  ["lib/hpack/header_block_decoder.cpp", "lib/hpack/int_decoder.cpp", "lib/hpack/byte_reader.cpp", "lib/hpack/huffman_tree.cpp", "lib/http2_conn.cpp"],
  [("std::expected results checked and propagated", "lib/hpack/header_block_decoder.cpp"), ("ProtocolError on failed decode", "lib/http2_conn.cpp process_frame")],
  None, ["HeaderBlockDecoder::decode result", "connection state after a HEADERS frame"])

p("C03", "Each header field representation is decoded with its RFC 7541 meaning",
  "For every first byte, the decoder treats the field as the representation RFC 7541 section 6 assigns to it: indexed (1xxxxxxx, 7-bit index), literal with incremental indexing (01xxxxxx, 6-bit), table size update (001xxxxx, 5-bit), never-indexed and non-indexed literals (0001xxxx, 0000xxxx, 4-bit). Only a successfully decoded literal with incremental indexing is added to the dynamic table, exactly once; only a size update changes the table limit; every representation except a size update yields exactly one header, in order.",
  ["inputs"], "all 256 first bytes, all continuations",
  "Tests use a few concrete blocks; whether a representation also touches the table, or uses the right prefix width at a boundary value, is not observed for most bytes.",
  ["lib/hpack/header_field.h", "lib/hpack/header_block_decoder.cpp"],
  [("HeaderField::from_byte", "lib/hpack/header_field.h"), ("dispatch in HeaderBlockDecoder::decode", "lib/hpack/header_block_decoder.cpp")],
  None, ["HeaderBlockDecoder::decode", "DynamicTable contents after decode"])

p("C04", "HPACK static table and Huffman code equal RFC 7541 appendices A and B",
  "The 61 static header table entries and the 256 symbol Huffman codes (code and length) are exactly those of RFC 7541 appendices A and B. The decoder's tree holds the code of every symbol and the encoder uses the same codes.",
  ["inputs"], "all 61 entries, all 256 symbols",
  "Tests look up the first and last static entry and a few strings of common characters; a wrong code for a rare symbol or a wrong middle entry is never exercised.",
  ["lib/hpack/header_static_table.h", "lib/hpack/huffman_codes.h", "lib/hpack/header_block_decoder.cpp"],
  [("STATIC_TABLE", "lib/hpack/header_static_table.h"), ("HUFFMAN_CODES", "lib/hpack/huffman_codes.h"), ("populate_huffman_tree", "lib/hpack/header_block_decoder.cpp")])

p("C05", "Emitted header blocks use valid field representations whatever the table history",
  "For every sequence of header lists the server encodes, each header is emitted as an RFC 7541 representation whose index is the table position of an entry matching it (name and value for an indexed field, name for a literal) and is written as a prefix integer of the right width, however large the index. The encoder's dynamic table gains an entry exactly when a literal with incremental indexing is emitted, and the connection's encoder never uses a table larger than the 4096 octets every peer grants by default.",
  ["histories", "inputs"], "all histories of header lists encoded on one connection",
  "Tests encode one to three headers on a fresh table; indexes beyond 62 (6-bit) or 126 (7-bit) and table sizes near a limit need hundreds of distinct headers on one connection.",
  ["lib/hpack/header_block_encoder.cpp", "lib/hpack/int_encoder.cpp", "lib/http2_conn.h"],
  [("HeaderBlockEncoder::encode", "lib/hpack/header_block_encoder.cpp"), ("IntegerEncoder::encode", "lib/hpack/int_encoder.cpp")],
  [("encoder_dynamic_table_", "entries the peer can reference", "lib/http2_conn.h")], ["bytes of HEADERS frames"])

p("C06", "The dynamic table's size is exact, bounded, and evicts oldest first",
  "After every operation the dynamic table's size equals the sum over its entries of name length + value length + 32 and does not exceed its maximum; entries are evicted oldest first and only as many as needed, the newest entry has index 0, and an entry larger than the maximum empties the table. A peer can never raise the maximum above the hard limit.",
  ["histories", "inputs"], "all sequences of insertions and size updates with entries of any size",
  "Tests insert at most four entries with hand-picked sizes; drift between the recorded size and the contents shows only after particular sequences.",
  ["lib/hpack/dynamic_table.cpp", "lib/hpack/dynamic_table.h", "lib/hpack/header_block_decoder.cpp"],
  [("DynamicTable::insert / set_max_table_size", "lib/hpack/dynamic_table.cpp"), ("HARD_TABLE_SIZE_LIMIT check", "lib/hpack/header_block_decoder.cpp decode_dynamic_table_size_update")],
  [("table_size_", "sum of entry sizes", "lib/hpack/dynamic_table.h"), ("max_table_size_", "limit", "lib/hpack/dynamic_table.h")])

p("C07", "Frame fields are laid out on the wire exactly as RFC 9113 defines",
  "For every field value, serialising a frame header, SETTINGS entry, GOAWAY payload or WINDOW_UPDATE payload writes each field big-endian at its RFC 9113 offset and width with reserved bits clear, and parsing reads the same bits back, ignoring reserved bits.",
  ["inputs"], "all field values, all wire bytes",
  "Tests parse one captured frame; serialisation and most bit positions (high bytes of lengths and stream ids) are never compared.",
  ["lib/http2_frames.h"],
  [("load_/store_uint*_be", "lib/http2_frames.h"), ("parse/serialize pairs", "lib/http2_frames.h")])

p("C08", "Frame size limits hold for every frame received and sent",
  "A received frame whose length exceeds 16384 octets is never acted upon and fails the connection with a protocol error, and a frame is only acted upon once all of its payload has been received. Every frame the server sends has a length field equal to the payload that follows and no larger than 16384 octets, and the maximum frame size it advertises equals the one it enforces.",
  ["inputs"], "all received lengths, all response header and body sizes",
  "The one oversized-frame system test uses one length; outgoing frame lengths are only seen for three body sizes.",
  ["lib/http2_conn.cpp"],
  [("length check in try_read_frame", "lib/http2_conn.cpp"), ("chunking in write_data_response", "lib/http2_conn.cpp"), ("SETTINGS_MAX_FRAME_SIZE", "lib/http2_conn.cpp write_settings")],
  None, ["frames on the wire"])

p("C09", "Every request gets exactly one complete response on its own stream",
  "Each successfully decoded request header block is answered on the same stream by exactly one HEADERS frame sequence followed by DATA frames carrying the response body completely, once and in order. END_HEADERS ends the header block, and END_STREAM is set exactly once: on HEADERS when the body is empty, otherwise on the last DATA frame; content-length, when added, is the body's size and :status is the response's status.",
  ["inputs"], "all responses: any status, any body size including multiples of the chunk size, any stream id",
  "Tests see bodies of three sizes; a missing or repeated END_STREAM or byte at an exact chunk boundary needs a particular size.",
  ["lib/http2_conn.cpp"],
  [("process_frame HEADERS case", "lib/http2_conn.cpp"), ("write_headers_response / write_data_response", "lib/http2_conn.cpp"), ("process_request", "lib/http2_conn.cpp")],
  None, ["frames on the wire"])

p("C10", "The connection start sequence is enforced before any request is served",
  "No application frame is interpreted on a connection before its transport handshake has succeeded and the exact 24-octet client preface has been received; anything else received first leads to the connection being discarded. The first frame the server sends is its non-ACK SETTINGS frame.",
  ["inputs", "schedules"], "all byte sequences and all ways they are split across reads",
  "Tests send a correct preface or none; prefaces arriving in pieces, nearly right, or after a partial handshake are not tried.",
  ["lib/http2_conn.cpp"],
  [("internal_process state machine", "lib/http2_conn.cpp"), ("read_preface", "lib/http2_conn.cpp")],
  [("state_", "connection state", "lib/http2_conn.h")])

p("C11", "A connection error is final and is announced with GOAWAY",
  "Once a connection has suffered a protocol error, no later frame on it is acted upon; a GOAWAY frame carrying PROTOCOL_ERROR is handed to the transport (as far as it still accepts data) and the connection is then discarded. A connection whose peer closed or sent GOAWAY, or whose output can no longer be delivered, is likewise discarded without acting on further frames.",
  ["inputs", "schedules", "fault_sequences"], "all error points and all transport results afterwards",
  "The system tests only observe that the socket closes after one kind of error; whether GOAWAY is delivered, or a pipelined frame is still served after the error, is not observed.",
  ["lib/http2_conn.cpp"],
  [("internal_process ProtocolError/Closing/ClientClosed", "lib/http2_conn.cpp"), ("close / write_goaway", "lib/http2_conn.cpp")],
  [("state_", "connection state", "lib/http2_conn.h")])

p("C12", "Response bytes are transmitted once, in order, despite partial writes",
  "Whatever number of bytes the operating system or TLS layer accepts on each attempt, exactly those bytes leave the pending output and the rest is sent later: no byte is dropped, duplicated or reordered. While output is pending no further request is processed and write readiness is requested.",
  ["schedules", "fault_sequences"], "all sequences of full, partial, blocked and failed writes",
  "Partial writes happen only under back pressure; no test produces one and the code treated them as errors.",
  ["lib/http2_conn.cpp", "lib/transports/tcp_transport.cpp", "lib/transports/tls_transport.cpp"],
  [("flush_write_buffer", "lib/http2_conn.cpp"), ("TcpTransport::write, TlsTransport::write", "lib/transports")],
  [("write_buffer_", "bytes queued and not yet accepted", "lib/http2_conn.h")])

p("C13", "Unparsed input is bounded per connection and a whole frame always fits",
  "A connection never buffers more than 64 KiB of unparsed input, however fast the peer sends, and every received byte is kept until parsed, in order. The buffer always has room for the largest permitted frame, so a peer that obeys the limits never stalls, and no decoded header string exceeds 4096 octets.",
  ["inputs", "schedules"], "all arrival patterns and sizes",
  "Tests never fill the buffer; the bound depends on an inequality between four constants and a guard.",
  ["lib/http2_conn.cpp", "lib/hpack/header_block_decoder.cpp"],
  [("guard in fill_read_buffer", "lib/http2_conn.cpp"), ("discard_processed_buffer", "lib/http2_conn.cpp"), ("string_length_within_limit", "lib/hpack/header_block_decoder.cpp")],
  [("read_buffer_", "received, unparsed bytes", "lib/http2_conn.h")])

p("C14", "No peer, handler or accept failure terminates the server",
  "No exception raised while accepting a connection, setting up its transport, processing its data or running a request handler (of whatever type) escapes the server's event loop. A request whose handler throws is answered with status 500.",
  ["inputs", "fault_sequences"], "all exceptions, including non-standard types, and all failing system calls on these paths",
  "Tests never make accept, SSL set-up or a handler fail.",
  ["lib/http2_server.cpp", "lib/http2_conn.cpp", "lib/tcp_listener.cpp", "lib/transports/tls_transport.cpp"],
  [("try/catch in Http2Connection::process and process_request", "lib/http2_conn.cpp"), ("event loop", "lib/http2_server.cpp start")])

p("C15", "A TLS failure on one connection cannot disturb another",
  "The outcome of every TLS operation (handshake, read, write) is judged only by that operation: errors left behind by an earlier operation, on this or any other connection, never make a healthy connection look failed. Would-block results are reported as retryable, and end-of-stream and failures as such.",
  ["schedules", "fault_sequences"], "all interleavings of operations and failures across connections",
  "Needs one connection to fail and another to be read right after; no test does that.",
  ["lib/transports/tls_transport.cpp"],
  [("SSL_get_error on per-thread error queue", "lib/transports/tls_transport.cpp")])

p("C16", "Descriptors and TLS objects are released exactly once on every path",
  "Every socket, epoll descriptor, SSL object and SSL context the program obtains is released exactly once: when its owner is destroyed or reassigned, or on the failing path that abandons it; moving an owner transfers the obligation, and no owner can be copied.",
  ["fault_sequences", "histories"], "all paths including failures and moves",
  "Leaks and double closes need failing system calls or particular move sequences and do not fail a test.",
  ["lib/socket_fd.cpp", "lib/tcp_listener.cpp", "lib/transports/tls_transport.cpp", "lib/transports/tls_context.cpp", "lib/pollers/epoll_poller.cpp"],
  [("SocketFd RAII", "lib/socket_fd.cpp"), ("TlsTransport/TlsContext destructors and failure paths", "lib/transports")])

p("C17", "Connection table, poll registrations and the connection limit stay consistent",
  "A connection in the server's table is registered with the poller, and whenever one leaves the table its descriptor leaves the poller in the same step; no connection or iterator is used after it was removed. The table never holds more than 128 connections, and a surplus connection is accepted and closed at once.",
  ["histories", "schedules"], "all sequences of accepts, closes, errors and timeouts",
  "The limit test opens 130 connections once; removal during hang-up, time-out or error in particular orders is not tried.",
  ["lib/http2_server.cpp"],
  [("establish_conn / handle_connection_events / reap_idle_connections / handle_incoming_connection", "lib/http2_server.cpp")],
  [("connections_", "live connections by descriptor", "lib/http2_server.h")])

p("C18", "Idle or stalled connections are always reaped",
  "Every pass of the event loop checks all connections and removes each whose idle time exceeds five seconds, in whatever protocol phase it is, and waits for events only for a bounded time, so reaping happens even when no events arrive. Only actual transport progress (handshake completed, bytes read or written) counts as activity.",
  ["schedules", "inputs"], "all client behaviours, all phases",
  "Two system tests wait 7 s in two phases; trickling or write-stalled clients and reaping while events keep arriving are not tried.",
  ["lib/http2_server.cpp", "lib/http2_conn.cpp"],
  [("reap_idle_connections each loop pass", "lib/http2_server.cpp start"), ("update_last_activity", "lib/http2_conn.cpp")],
  [("last_activity_", "time of last progress", "lib/http2_conn.h")])

p("C19", "Signals are handled async-signal-safely and stop the server",
  "Code that runs in a signal handler performs only async-signal-safe operations. SIGINT and SIGTERM always make the event loop end after at most one bounded wait, and a disconnecting peer (SIGPIPE) does not end the process; the handlers are installed before the server starts and restored afterwards.",
  ["schedules"], "every instant at which a signal can be delivered",
  "A test can deliver a signal at a few moments; a lock or allocation in the handler deadlocks only if the signal interrupts the same code.",
  ["app/signal_handler.cpp", "lib/http2_server.cpp", "app/main.cpp"],
  [("SignalHandler", "app/signal_handler.cpp"), ("Http2Server::stop flag", "lib/http2_server.cpp")])

p("C20", "TLS is never silently weakened: bad configuration refuses to start",
  "Unless cleartext mode was explicitly requested, the server starts only after a certificate and a matching private key were both configured, found and loaded, and every connection is then served over TLS; in every other case construction fails with an error and nothing is served. Command-line options reach the configuration field they name, and an option that was not given stays unset.",
  ["configurations", "fault_sequences"], "all combinations of options and of failing load steps",
  "The command-line tests try three combinations; the failure of each single load step is not tried.",
  ["lib/server_config.cpp", "lib/server_config.h", "lib/transports/tls_context.cpp", "lib/http2_server.cpp", "app/args.cpp"],
  [("ServerConfiguration::validate", "lib/server_config.cpp"), ("TlsContext constructor", "lib/transports/tls_context.cpp"), ("create_transport", "lib/http2_server.cpp"), ("Args::to_server_config", "app/args.cpp")])

p("C21", "Request handlers never refer to data that is already gone",
  "Every handler or middleware closure that the router or the application returns or stores owns, or refers only to objects that outlive, everything it uses; calling a handler after the strings used to look it up are gone, or after further routes were added, is safe.",
  ["histories"], "all orders of registration, lookup and invocation",
  "Dangling references usually still read the old bytes, so tests pass.",
  ["lib/router.cpp", "app/main.cpp", "app/status_page.cpp", "app/server_stats.cpp", "app/test_routes.cpp"],
  [("lambda captures in Router::get_handler and add_middleware", "lib/router.cpp")])

p("C22", "Routing picks the exact route and every response passes the middleware",
  "A request is handled by the first registered route whose path and method both equal the request's; only if none does, and only for GET and HEAD, by a static handler whose prefix matches; otherwise by the 404 handler. Whatever the target, the handler returned is wrapped exactly once by every registered middleware, in registration order with the first registered outermost.",
  ["inputs", "configurations"], "all route tables, middleware stacks and requests",
  "Tests use up to four routes and one middleware that only changes a status.",
  ["lib/router.cpp", "lib/router.h"],
  [("Router::get_handler, add_middleware", "lib/router.cpp")],
  [("routes_", "registered routes in order", "lib/router.h"), ("middleware_chain_", "composition of middlewares", "lib/router.h")])

p("C23", "Static file serving never leaves the configured directory",
  "For every request path and every layout of the file system (dot segments, absolute paths, symbolic links, sibling directories sharing a name prefix), a file is opened, examined or served only if its fully resolved location is inside the resolved static root; otherwise the request is refused.",
  ["inputs", "configurations"], "all request paths, all directory contents including symbolic links",
  "Four sample paths are tested; links, prefix siblings and paths built by later code changes are not.",
  ["lib/file_reader.cpp", "lib/static_file_handler.cpp", "lib/router.cpp", "app/main.cpp"],
  [("FileReader::sanitize_path", "lib/file_reader.cpp"), ("StaticFileHandler::handle", "lib/static_file_handler.cpp")],
  None, ["file system calls made with request-derived paths"])

p("C24", "HEAD mirrors GET for files and never carries a body",
  "For every file, a HEAD request yields the same status and content-type as GET, a content-length equal to the size of the body GET would send, and no body, including when a custom 404 page is configured. A file that cannot be read yields an error status, not a partial success.",
  ["inputs", "configurations"], "all files and readability states",
  "Tests use one file.",
  ["lib/static_file_handler.cpp", "lib/file_reader.cpp", "app/main.cpp"],
  [("file_response / head_response / get_response", "lib/static_file_handler.cpp"), ("custom 404 middleware", "app/main.cpp")])

p("C25", "Each answered request yields exactly one faithful access-log line",
  "For every answered request exactly one entry is written, with that request's method, path, client address, referrer and user agent and the status and body size actually sent. Bytes supplied by the client can never end the line, start another one, or close a quoted field.",
  ["inputs"], "all request header contents",
  "No test reads the access log with unusual bytes in it.",
  ["lib/access_log.cpp", "lib/http2_conn.cpp"],
  [("AccessLog::log_request", "lib/access_log.cpp"), ("call in process_frame", "lib/http2_conn.cpp")])

p("C26", "Privilege escalation is disabled before anything is served",
  "On Linux the application sets no-new-privileges for the process before it creates the server, opens any log or listens, on every start-up path that serves requests; the test route reports that flag truthfully.",
  ["configurations"], "all command lines",
  "One system test checks one command line at the end of start-up; the order relative to other steps is not observed.",
  ["app/main.cpp", "app/proc_ctrl.cpp", "app/test_routes.cpp"],
  [("enable_no_new_privs_on_linux in main", "app/main.cpp"), ("ProcessControl", "app/proc_ctrl.cpp")])

p("C27", "No client can block the event loop",
  "Every socket the event loop reads, writes or accepts from is in non-blocking mode before it is used, a would-block result returns control to the loop instead of being retried in place, and nothing reachable from the loop sleeps or waits without bound.",
  ["schedules", "inputs"], "all client timings",
  "Tests with a few slow clients catch a blocking call only on the phase they stall in.",
  ["lib/tcp_listener.cpp", "lib/http2_server.cpp", "lib/http2_conn.cpp", "lib/transports"],
  [("set_nonblocking_socket", "lib/tcp_listener.cpp"), ("WantReadOrWrite handling", "lib/http2_conn.cpp")])

p("C28", "Poll readiness is translated exactly, alike in both back ends",
  "For every combination of requested and returned events, the epoll and the poll back end translate read, write, hang-up and error interest and readiness one-to-one and independently of each other, report each descriptor with its own events, and treat time-outs and interruptions as 'no events'.",
  ["inputs", "configurations"], "all event masks, both back ends",
  "No unit test drives the pollers; error and hang-up bits rarely occur, and the poll back end is not used on Linux.",
  ["lib/pollers/epoll_poller.cpp", "lib/pollers/poll_poller.cpp", "lib/pollers/poller.h"],
  [("to_/from_epoll_events", "lib/pollers/epoll_poller.cpp"), ("event_from_poll_event/event_to_poll_event", "lib/pollers/poll_poller.cpp")])

p("C29", "Every SETTINGS frame is acknowledged exactly once, and only then",
  "Each well-formed SETTINGS frame without the ACK flag is answered by exactly one empty SETTINGS frame with the ACK flag on stream 0; an ACK is never acknowledged, no other frame causes one, and a SETTINGS payload that is not a multiple of six octets fails the connection instead.",
  ["inputs"], "all SETTINGS payloads and flag bytes",
  "Tests exercise the settings their client library sends.",
  ["lib/http2_conn.cpp", "lib/http2_frame_reader.cpp"],
  [("process_frame SETTINGS case", "lib/http2_conn.cpp"), ("read_settings", "lib/http2_frame_reader.cpp")])

# ---- recorded, not claimed --------------------------------------------------------------------
p("C30", "Huffman decoding inverts encoding and rejects invalid padding",
  "For every octet string, decoding its Huffman encoding yields the string; a code containing EOS, or padding longer than seven bits or not all ones, is rejected.",
  ["inputs"], "all octet strings", "Tests use a few strings.",
  ["lib/hpack/huffman_tree.cpp", "lib/hpack/bit_writer.h", "lib/hpack/bit_reader.h"],
  [("HuffmanTree::decode", "lib/hpack/huffman_tree.cpp")])
p("C31", "A peer decodes exactly the header list the handler returned",
  "A conforming HPACK decoder at the peer, fed the header blocks of a connection in order, reconstructs for every response exactly the header list it "
  "was answered with: each block goes out once, whole and in the order encoded; the encoder's table evolves as the decoder's does; and when "
  "the peer's SETTINGS_HEADER_TABLE_SIZE changes, the encoder keeps within it and announces the change (the smallest limit in between, then the "
  "last) by dynamic table size updates at the start of the next block and nowhere else.",
  ["histories"], "all histories of responses and SETTINGS frames on a connection", "Tests encode three headers for a peer with the default table.",
  ["lib/hpack/header_block_encoder.cpp", "lib/hpack/int_encoder.cpp", "lib/http2_conn.cpp"],
  [("HeaderBlockEncoder::encode", "lib/hpack/header_block_encoder.cpp"), ("HeaderBlockEncoder::set_max_table_size", "lib/hpack/header_block_encoder.cpp"),
   ("process_frame SETTINGS case", "lib/http2_conn.cpp")])

p("C32", "DATA never exceeds the peer's flow-control windows",
  "The bytes of DATA sent on a stream or connection never exceed the windows the peer has granted.",
  ["histories", "inputs"], "all window histories", "Clients in the tests grant large windows.",
  ["lib/http2_conn.cpp"], [("WINDOW_UPDATE handling", "lib/http2_conn.cpp process_frame")])
p("C33", "Every connection with pending work is served within bounded time",
  "A connection that sends continuously does not delay service to the others beyond a bounded time.",
  ["schedules"], "all client timings", "Load tests sample a few patterns.",
  ["lib/http2_conn.cpp", "lib/http2_server.cpp"], [("internal_process loop", "lib/http2_conn.cpp")])
p("C34", "Status page figures equal what was served",
  "After every history of requests the status page shows as request count the number of requests answered so far (whatever the route, the "
  "page itself included, at most plus the one in progress), per status the number of requests answered with it (a handler that throws "
  "counts as the 500 its client gets), and as mean latency the total time spent in the handlers divided by that number.",
  ["histories"], "all request histories", "No test compares the figures.",
  ["app/server_stats.cpp", "app/status_page.cpp"], [("ServerStats::middleware", "app/server_stats.cpp"), ("StatusPage::add_status_page", "app/status_page.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
