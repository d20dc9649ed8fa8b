import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
NOSERVER="The reliable tests run without a server, so none of them drives this path; even with a server they sample a handful of well-behaved replies."
p("C01","A failed reply always reaches the caller as an error",
 "While a handshake, ping, statement, insert or query is waiting for its reply, a server exception, a packet that is not legal at that point, a socket error, or the peer closing the connection makes that operation finish with an error. It never reports success, never swallows the failure to wait for something that cannot come, and never panics.",
 ["inputs","fault_sequences"],"every operation, every packet kind or stream end at every point of every reply",NOSERVER,
 ["src/lib.rs","src/io/transport.rs","src/types/query_result/stream_blocks.rs"],
 [("receive loops of hello/ping/execute/insert","src/lib.rs"),("drain loop and read_block","src/io/transport.rs"),("BlockStream::poll_next","src/types/query_result/stream_blocks.rs")],
 obs=["Result of Client/ClientHandle/QueryResult operations"])
p("C02","A connection carries a new command only after its last reply is fully read",
 "A connection is kept for further use only when the reply to its last command was read up to its end, or when it is marked as still holding unread reply data. A connection so marked is drained to the end of that reply before any ping, statement, insert or query is written on it; after a socket error, a server exception or a cancellation in mid-reply the connection is dropped instead of being kept.",
 ["histories","fault_sequences","schedules"],"every sequence of operations on a handle, with every early drop, cancellation and failure point",NOSERVER,
 ["src/lib.rs","src/io/transport.rs","src/types/query_result/mod.rs","src/types/query_result/stream_blocks.rs","src/types/mod.rs"],
 [("transport travels inside end-of-reply packets","src/types/mod.rs Packet::bind"),("inconsistent flag and clear()","src/io/transport.rs"),("BlockStream Drop","src/types/query_result/stream_blocks.rs")],
 state=[("inconsistent","unread reply packets may follow","ClickhouseTransport")])
p("C03","Pool usage accounting is balanced on every path",
 "Every connection handed out by a pool is counted as in use exactly once, and that count is given back exactly once, whether the handle is dropped healthy, its connection dies, or the operation using it fails or is cancelled. Connections that were never handed out, or that sit idle in the pool, never change the in-use count when they are destroyed.",
 ["histories","schedules","fault_sequences"],"every interleaving of take, return, connection death and cancellation",NOSERVER,
 ["src/pool/mod.rs","src/io/transport.rs","src/lib.rs"],
 [("take_conn / return_conn","src/pool/mod.rs"),("TransportStatus Drop and release_conn","src/io/transport.rs, src/pool/mod.rs"),("ClientHandle Drop","src/pool/mod.rs")],
 state=[("ongoing","connections handed out","pool Inner"),("inside","transport is owned by the pool, not by a user","TransportStatus")])
p("C04","Every freed pool slot wakes the waiting tasks",
 "Whenever a connection is returned to the pool, a handed-out connection is destroyed, or an attempt to open a connection ends (successfully or not), every task waiting for a pooled connection is woken. A task that is told to wait has registered itself for that wake-up first.",
 ["schedules","histories","fault_sequences"],"every interleaving of waiters with returns, deaths and finished connection attempts",NOSERVER,
 ["src/pool/mod.rs","src/io/transport.rs"],
 [("waker queue drained in return_conn, release_conn, handle_futures","src/pool/mod.rs"),("waker registered before Pending","src/pool/mod.rs Pool::poll")],
 state=[("tasks","registered wakers","pool Inner")])
p("C05","The pool keeps only reusable connections and respects its limits",
 "A connection given back to a pool is kept for reuse only if its handle is still attached to the pool, still owns its connection, and fewer than the configured minimum are idle; otherwise it is closed. A new connection is started only when idle, in-use and opening connections together are below the configured maximum.",
 ["histories","configurations"],"every history of takes, returns and failures and every min/max setting",NOSERVER,
 ["src/pool/mod.rs"],[("return_conn guard","src/pool/mod.rs"),("Pool::poll creation guard and conn_count","src/pool/mod.rs")])
p("C06","A handle stays usable after failed, cancelled or abandoned operations",
 "Whatever happened to earlier operations on a handle (server error, lost connection, timeout, cancelled future, half-read result), and whether or not it came from a pool, the next operation on it either works, reconnecting if needed, or returns an error. No operation and no drop panics because of the handle's connection or pool-attachment state.",
 ["histories","fault_sequences","configurations"],"every history of operations on one handle, pooled or not",NOSERVER,
 ["src/pool/mod.rs","src/lib.rs","src/types/query_result/mod.rs","src/types/query_result/stream_blocks.rs"],
 [("PoolBinding attach/detach/take","src/pool/mod.rs"),("get_inner yields Broken error","src/lib.rs"),("check_connection","src/lib.rs")])
p("C07","Reconnection attempts are bounded by the configured retry count",
 "Before a query, a dead connection is re-established with at most the configured number of retries, pausing the configured time after each connection attempt that fails; when they are used up the last error is returned. No pattern of connection attempts and health checks succeeding or failing makes the client retry without bound, and success is reported only after a successful health check.",
 ["fault_sequences","configurations"],"every sequence of outcomes of health checks and reconnects, every retry setting",NOSERVER,
 ["src/retry_guard.rs","src/lib.rs"],[("retry_guard loop","src/retry_guard.rs"),("check_connection passes options","src/lib.rs")])
p("C08","Every operation runs under its own configured deadline",
 "Connecting (including the handshake), pinging, fetching a whole query result (fetch_all), executing and inserting each run, from first to last network step, under the deadline configured for that kind of operation. An operation never uses another operation's deadline, and an absent optional deadline means no deadline.",
 ["configurations","schedules"],"every option setting and every point at which the server may stall",NOSERVER,
 ["src/lib.rs","src/types/query_result/mod.rs","src/types/options.rs"],[("with_timeout call sites","src/lib.rs, src/types/query_result/mod.rs")])
p("C09","Connection URLs and builders set exactly the option they name",
 "Each documented URL parameter sets the option of the same name and no other, a value that does not parse is an error, credentials, host, port and database come from the corresponding URL parts, and every unrecognised parameter is forwarded as a server setting. Each builder method changes only the option it is named after.",
 ["inputs","configurations"],"every URL and every combination of parameters and builder calls","Tests cover five of the parameters on two URLs; a swapped or dropped mapping of any other passes.",
 ["src/types/options.rs"],[("set_params table","src/types/options.rs"),("property! setters","src/types/options.rs")])
p("C10","Passwords never appear in log output or debug formatting",
 "The configured password, whether given by URL or by builder, is never passed to a log message, an error message or a debug/display representation of the client's options, connection, context or pool.",
 ["inputs","configurations"],"every log statement, error and formatting implementation, every way of giving a password","No test inspects log or debug output.",
 ["src/types/options.rs","src/lib.rs","src/types/mod.rs","src/pool/mod.rs","src/errors/mod.rs"],[("hand-written Debug for Options","src/types/options.rs"),("log statements","src/lib.rs, src/pool/mod.rs")])
p("C11","Requested TLS is never silently weakened",
 "With the secure option on, every connection is TLS for the host being connected to and no command is ever sent over the plain socket; failure to set up TLS is an error. Certificate verification is switched off only by the skip-verify option, and a configured root certificate is always installed.",
 ["configurations","fault_sequences"],"every option combination and every failure of the TLS set-up","No test opens a TLS connection.",
 ["src/connecting_stream.rs","src/io/stream.rs","src/types/options.rs"],[("ConnectingStream::new / new_tls_connection","src/connecting_stream.rs")])
p("C12","Compressed data is checksum-verified before it is used",
 "Every compressed frame received is checked against its checksum over exactly the bytes that are then decompressed, its sizes are validated before memory is allocated or read, and a frame that fails any check, or that does not decompress to its declared size, is reported as an error. Every compressed frame sent carries the checksum of, and the correct sizes for, exactly the bytes that follow.",
 ["inputs"],"every frame, intact or corrupted","One test decompresses one intact frame.",
 ["src/types/block/compressed.rs","src/types/block/mod.rs"],[("decompress_buffer","src/types/block/compressed.rs"),("Block::write_content/compressed write","src/types/block/mod.rs")])
p("C13","Replies decode the same however the network splits them",
 "A packet is decoded only once all its bytes have arrived; an incomplete packet consumes nothing and is retried when more bytes come; each decoded packet consumes exactly the bytes it was decoded from. Bytes already received are decoded and delivered even when the server closes the connection right after sending them.",
 ["schedules","inputs"],"every way the network can fragment or coalesce the reply bytes, and every close point",NOSERVER,
 ["src/io/transport.rs","src/io/read_to_end.rs","src/binary/read_ex.rs","src/binary/parser.rs"],[("try_parse_msg","src/io/transport.rs"),("Transport::poll_next","src/io/transport.rs"),("WouldBlock on short read","src/binary/read_ex.rs")])
p("C14","Commands are written completely and in order",
 "Each command's bytes are written to the socket exactly once, in order and without gaps, however the socket splits the writes; the next command starts only after the previous one is fully written, and a reply is awaited only after all queued commands are fully written. A write error is reported.",
 ["schedules","fault_sequences"],"every pattern of partial, pending and failing writes",NOSERVER,
 ["src/io/transport.rs"],[("send / wr_flush","src/io/transport.rs"),("PacketStream Ask state","src/io/transport.rs")])
p("C15","Client packets follow the protocol layout for the negotiated revision",
 "Handshake, ping, cancel, query and data packets are emitted with the native-protocol fields, in protocol order, each carrying the value the protocol assigns to it, with revision-dependent fields present exactly when the server's revision calls for them and the compression flag matching how data blocks are then encoded.",
 ["inputs","configurations"],"every query, setting, option and server revision","Tests compare one hello packet and no revision-dependent variant.",
 ["src/types/cmd.rs","src/client_info.rs","src/types/block/mod.rs","src/types/block/block_info.rs","src/binary/encoder.rs"],[("encode_* functions","src/types/cmd.rs")])
p("C16","Server packets are read with the protocol layout for the revision",
 "Each server packet is recognised by its protocol code and its fields are read in protocol order and width into the matching result, with revision-dependent fields read exactly when the announced revision includes them; an unknown code is an error.",
 ["inputs","configurations"],"every server packet and every server revision","Tests feed a few recorded packets of one revision.",
 ["src/binary/parser.rs","src/binary/protocol.rs","src/binary/read_ex.rs"],[("parse_* functions","src/binary/parser.rs")])
p("C17","Each column type is written in the layout it is read in",
 "For every column type that can be inserted, the bytes written for a range of rows are exactly the layout the reader of that type expects for that many rows: the same parts in the same order and widths, covering exactly the rows of the range, with nested offsets relative to the range.",
 ["inputs","programs"],"every column type, nesting and row range","Round-trip tests cover some types and always start at row zero.",
 ["src/types/column/*.rs","src/types/block/mod.rs"],[("ColumnData::save / load pairs","src/types/column/")])
p("C18","An insert sends every row exactly once and waits for confirmation",
 "An insert sends all rows of the block, once each and in order, split into chunks that are each introduced by the insert statement, terminated by an empty block and confirmed by the server before the next; success is reported only after the last confirmation. The rows sent are the caller's rows converted to the column types the server announced.",
 ["inputs","fault_sequences"],"every block size and every failure point between chunks",NOSERVER,
 ["src/lib.rs","src/types/block/chunk_iterator.rs","src/types/block/mod.rs","src/types/column/chunk.rs"],[("insert_ / insert_tail_ / insert_block_","src/lib.rs"),("ChunkIterator","src/types/block/chunk_iterator.rs")])
p("C19","Typed access to a column is refused unless the types match",
 "Reading a cell or iterating a column as a Rust type yields values only if the column's type is one that Rust type represents; otherwise an error is returned. Raw column memory is never reinterpreted as a type other than the one it was stored as.",
 ["inputs","programs"],"every column type and every requested Rust type","Tests try matching pairs and a few mismatches out of several hundred pairs.",
 ["src/types/from_sql.rs","src/types/column/iter/mod.rs","src/types/column/mod.rs"],[("FromSql impls","src/types/from_sql.rs"),("Iterable impls","src/types/column/iter/mod.rs")])
p("C20","Type names, type descriptors and column readers agree",
 "For every supported server type, the reader chosen for its name builds a column that reports that type, and the name the client writes for a type is a name the reader recognises as the same type; an unrecognised name is an error. Simple aggregate function names map one-to-one to their descriptors.",
 ["inputs","programs"],"every type name and descriptor","Tests load columns of some types only.",
 ["src/types/column/factory.rs","src/types/mod.rs","src/types/column/*.rs"],[("load_data / from_type tables","src/types/column/factory.rs"),("SqlType::to_string","src/types/mod.rs")])
p("C21","All columns of a block always have the same number of rows",
 "No sequence of appending columns, pushing rows, converting, splitting or joining blocks yields a block whose columns differ in length: an operation that would do so fails, and a row that is rejected leaves the block as it was.",
 ["inputs","histories"],"every sequence of block-building operations, including rejected ones","Tests build well-formed blocks only.",
 ["src/types/block/builder.rs","src/types/block/mod.rs","src/types/column/concat.rs"],[("append_column length check","src/types/block/mod.rs"),("RowBuilder","src/types/block/builder.rs")])
p("C22","Copies of a block or column are independent",
 "Pushing rows into a block never changes, and is never prevented by, another block or column that was cloned, cast or chunked from it, whatever its column types and nesting.",
 ["histories","inputs"],"every history of cloning and pushing, every column type","No test pushes to a cloned block of nested column types.",
 ["src/types/column/*.rs","src/types/block/mod.rs"],[("clone_instance","src/types/column/column_data.rs and implementations"),("Column::push copy on write","src/types/column/mod.rs")])
p("C23","Malformed server data is reported as an error, never a panic",
 "Whatever bytes the server sends in packets, type names, sizes, offsets, keys or dictionaries, decoding them ends in a value, a request for more bytes, or an error; it never panics. (Running out of memory or stack for sizes or nesting depths the server announces is not meant.)",
 ["inputs"],"every byte sequence a server or a broken link can deliver","Tests decode well-formed recordings.",
 ["src/binary/*.rs","src/types/block/*.rs","src/types/column/*.rs"],[("io::Error / Result returning decoders","src/binary, src/types/column")])
p("C24","Unsafe code never exposes uninitialised or out-of-bounds memory",
 "Buffers whose length is extended before being filled are completely filled, or discarded, before any of their content can be observed; raw copies and raw views never exceed the bounds of the buffer they refer to, and raw server bytes are only viewed as types for which every bit pattern is valid.",
 ["inputs","programs"],"every unsafe operation and every input reaching it","Tests cannot observe most undefined behaviour.",
 ["src/types/column/*.rs","src/io/*.rs","src/types/block/*.rs","src/types/column/iter/mod.rs"],[("unsafe blocks","throughout src")])
p("C25","Generated INSERT statements quote every column name safely",
 "The statement generated for an insert names every column of the block once, in block order; each name is either made only of ASCII digits (at least one) or enclosed in backticks with no backtick inside and backslashes escaped, and a name that cannot be quoted is an error.",
 ["inputs"],"every column name","Four names are tested.",
 ["src/lib.rs"],[("column_name_to_string / make_query","src/lib.rs")])
p("C26","Every configured host takes part in the rotation",
 "The pool's host list is the main address followed by all alternative hosts, and successive connection attempts use successive entries cyclically; a client without a pool uses the main address.",
 ["histories","configurations"],"every host list and every history of connection attempts","One test rotates three hosts sequentially.",
 ["src/pool/mod.rs","src/lib.rs"],[("Pool::new, get_addr","src/pool/mod.rs")])
p("C27","Query results deliver every received data block and row, once, in order",
 "All non-empty data blocks the server sends in reply to a query are handed to the caller in arrival order, none dropped, duplicated or altered (a block stream may leave out the header block that comes first), and a row stream yields every row of every block in order; the stream ends normally only after the server's end-of-reply.",
 ["inputs","schedules"],"every sequence of packets of a query reply",NOSERVER,
 ["src/types/query_result/mod.rs","src/types/query_result/stream_blocks.rs","src/types/block/row.rs"],[("BlockStream::poll_next","src/types/query_result/stream_blocks.rs"),("fetch_all, stream","src/types/query_result/mod.rs")])
p("C28","Values survive an insert and a select unchanged",
 "A value written to a column and read back from it equals the original (dates, times, decimals, enums, strings and numbers), or the write is refused.",
 ["inputs"],"every value of every type","Tests sample a few values per type.",
 ["src/types/value.rs","src/types/value_ref.rs","src/types/date_converter.rs","src/types/decimal.rs"],[("conversions","src/types")])
p("C29","The pool never exceeds its maximum even under concurrent use",
 "At no instant of any multi-threaded schedule are more than the configured maximum of connections open or being opened by one pool.",
 ["schedules"],"every multi-threaded schedule",NOSERVER,["src/pool/mod.rs"],[("conn_count then push","src/pool/mod.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
