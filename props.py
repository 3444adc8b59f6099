def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe: a['observe_at'] = observe
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext},
                why_tests_cant=why, anchors=a, technique=technique, note=note)

PROPS = [
P('L01', 'Debug messages appear exactly when enabled',
  'A debug message is written if and only if debugging is switched on in the configuration and the pin given with the message has a bit in common with the configured pins. With debugging off, no debug message is ever written, whatever the pins are. The pins reported by a logger are those that decide.',
  ['inputs', 'configurations'], 'every pin, every configured set of pins, debugging on or off, each of the three debug methods',
  'Tests sample two or three pins; the rule is about every combination of 64-bit pin sets and both settings of the switch.',
  ['node/log/log.go'], [('debug methods compare the pin with the pins of the logger', 'node/log/log.go: Debug, Debugln, Debugf'), ('constructor clears the pins without debugging', 'node/log/log.go: NewLogger')],
  'path-sensitive data flow with branch facts over the SSA form',
  'decides, on every path of the debug methods and the constructor, that a message is written exactly when pin AND pins is non-zero and that pins are the configured ones or none; the standard log package is trusted'),
P('L02', 'Log messages are complete and attributed to the caller',
  'Every message written by a logging method carries its level mark, for error messages the text of the error, and all arguments of the caller in order (with the caller\'s format applied, where there is one), and the arguments themselves are not modified. The source position shown with a debug or error message is that of the code that called the logging method. Plain, panic and fatal messages go to the underlying logger unchanged.',
  ['inputs'], 'every error, every format, every list of arguments, for all logging methods',
  'Tests compare a few fixed messages without arguments that would reveal a dropped or reordered part.',
  ['node/log/log.go'], [('text assembly', 'node/log/log.go: Debug*, Error*'), ('call depth of the writer', 'node/log/log.go: Output(2, ...)')],
  'data flow to a normal form of formatted text (SSA value numbering)',
  'decides which parts the written text consists of and the call depth, on every path; what fmt and log do with them is trusted'),
P('L03', 'Logger options take effect and flags set the option they name',
  'A logger writes to the configured output (standard error if there is none) with the configured prefix and shows time and short file name unless told otherwise. Each command-line flag of the logger sets the option it is named after, and a flag not given leaves the option at the value it had. The default configuration shows no debug messages and, once debugging is on, all of them.',
  ['configurations'], 'every configuration of output, prefix, switch and pins, with and without flags',
  'The flag set of a process is global; tests do not register and parse the flags for every combination of prior values.',
  ['node/log/log.go'], [('constructor', 'node/log/log.go: NewLogger'), ('flag registration', 'node/log/log.go: Config.FromFlags'), ('defaults', 'node/log/log.go: NewConfig')],
  'data flow from configuration fields to constructor arguments; flag binding table from resolved calls',
  'decides the binding of every registered flag and the arguments of the underlying logger; the flag and log packages are trusted'),
P('S01', 'Rolling averages are the mean of the most recent samples',
  'After any sequence of additions to a rolling average of n samples, the value returned and the value read afterwards are the mean of the last n samples, or of all of them while there are fewer than n. Additions and reads from several goroutines never see a half-made update. A rolling average of no samples is refused.',
  ['histories', 'inputs', 'schedules'], 'every window size, every sequence of samples longer or shorter than the window, any interleaving of additions and reads',
  'Nothing tests the averages; the property is an invariant over all histories, and the lock discipline over all schedules.',
  ['skyobject/statutil/average.go'], [('sample accumulation', 'skyobject/statutil/average.go: NewDuration, NewFloat (the closure)'), ('lock', 'skyobject/statutil/average.go: mx')],
  'inductive invariant check by abstract interpretation with linear forms; lock-set analysis',
  'decides one step from an arbitrary state satisfying the invariant (sum, slot, position, count, mean), which with the initial state covers all histories; floating-point rounding is not modelled',
  state=[('window', 'the last n samples'), ('sum', 'sum of the window')]),
P('S02', 'Volumes and amounts are printed with the right magnitude',
  'A volume is printed as the number divided by the power of 1024, an amount by the power of 1000, that leaves it below one unit of the next magnitude, followed by the name of exactly that magnitude (none, k, M, G; volumes end with B). The number has at most two decimals and no trailing zeroes, and zeroes of the integer part are never removed.',
  ['inputs'], 'every 32-bit value',
  'The test compares seven volumes and no amount; four billion values each remain.',
  ['skyobject/statutil/statutil.go'], [('scaling loop and unit table', 'skyobject/statutil/statutil.go: Volume.String, Amount.String, units')],
  'abstract interpretation with exact unrolling (trip count bounded by the type) and numeric branch facts',
  'decides, for each possible number of divisions, the printed value, the bounds it is known to have, and the unit; the formatting of a float by fmt is trusted'),
P('D01', 'Objects keep their value and the count of their references',
  'For both object stores: Get and Inc change the count of references of an object by the given amount, never below zero, and return and keep the new count; Set creates an object with the given count or adds to the count of an existing one. Get returns the bytes that were stored, in memory of its own. An object that is not there is reported as data.ErrNotFound by Get and Inc and is created by Set only. Del removes the object whatever its count and is silent if there is none. Set refuses an empty value by an error and a change that is not positive by a panic. An unchanged count writes nothing, and a failed write or transaction is reported.',
  ['inputs', 'histories', 'faults'], 'every key, value, count and change, for absent, unused and used objects, and every failure of the database underneath',
  'The tests sample a handful of counts and changes and no failure of the database; the property covers all 2^32 counts and every change, both implementations.',
  ['data/cxds/memory.go', 'data/cxds/drive.go', 'data/cxds/cxds.go'], [('count arithmetic', 'data/cxds/*.go: incr, Get, Set, Inc, Del'), ('record format', 'data/cxds/cxds.go: getRefsCount, setRefsCount, encodeUint32')],
  'path enumeration by abstract interpretation against a case-split specification (absent, unused, used; up, down, under, none)',
  'decides every exit of every method for a symbolic key, value, count and change; the bolt database is modelled by its documented contract and sizes fit the machine integers',
  state=[('object', 'count of references and value under a key')]),
P('D02', 'Statistics of the object store follow its contents',
  'For both object stores, the amount and volume of all objects and of used objects (count above zero) change by exactly what each operation does to the contents: a new object, an object becoming used or unused, a removal. Amount and Volume report them as (all, used). A failed or rolled back operation leaves them as they were.',
  ['inputs', 'histories', 'faults'], 'every operation on every kind of object, successful or failed',
  'The statistics are only compared by tests after a few fixed operations, never after a failure.',
  ['data/cxds/memory.go', 'data/cxds/drive.go'], [('counters', 'data/cxds: amountAll, amountUsed, volumeAll (voluemAll), volumeUsed'), ('adjustments', 'data/cxds: Set, incr, Del, IterateDel')],
  'path enumeration by abstract interpretation with linear forms over the counters',
  'decides the change of each counter on every exit, as a linear form, against the change of the content on that path; which counter is which is found from Amount and Volume',
  state=[('statistics', 'amount and volume of all and of used objects')]),
P('D03', 'Iterating over the object store visits every object exactly once',
  'For both object stores, Iterate and IterateDel call the callback once for every object, with its own key, count and value, and go on to the next object after it even if the callback asks for the deletion of the object. IterateDel deletes exactly the objects the callback asks for without an error, and keeps the statistics right. data.ErrStopIteration ends the iteration without an error, any other error of the callback ends it and is returned, and a failed deletion is reported.',
  ['inputs', 'histories', 'faults'], 'every content of the store (including the last possible key), every outcome of the callback',
  'The tests iterate over two or three objects; deletion while iterating, the last key and errors of the callback need contents they do not set up.',
  ['data/cxds/memory.go', 'data/cxds/drive.go', 'data/cxds/cxds.go'], [('loops', 'data/cxds: Iterate, IterateDel'), ('next key', 'data/cxds/cxds.go: incSlice')],
  'typestate of the cursor over enumerated paths; exact unrolling of the next-key computation',
  'decides each step of the iteration over the paths of up to two records (one step from any record to the next); bolt cursors by contract'),
P('D04', 'Opening a database checks its version; statistics survive closing',
  'Opening either on-disk database (objects or index) creates a missing file with the current version, and opens an existing file only if it has meta information with exactly the current version; a file without meta information, without a version, with an older and with a newer version are refused by ErrMissingMetaInfo, ErrMissingVersion, ErrOldVersion and ErrNewVersion and are not changed. A failed opening returns no database, leaves the file closed and removes it only if this call made it. The statistics of the object store are saved in full on closing and each is loaded, on opening an existing file, into the counter it was saved from. Closing closes the file even if saving fails, and reports a failure of either.',
  ['inputs', 'histories', 'faults'], 'every state of the file, every version number and statistic, every failure of the file system or the database',
  'No test opens a file of another version or makes the database fail half-way through opening; statistics above 2^32 are out of reach of a test.',
  ['data/cxds/drive.go', 'data/cxds/cxds.go', 'data/idxdb/drive.go'], [('opening', 'data/cxds/drive.go: NewDriveCXDS; data/idxdb/drive.go: NewDriveIdxDB'), ('statistics', 'data/cxds/drive.go: saveStat, loadStat, Close')],
  'path enumeration by abstract interpretation with branch facts about the state of the file; pairing of saved and loaded keys',
  'decides every exit of both constructors and of saving and loading; bolt and the file system by their contracts. After a crash without Close the saved statistics are stale (recorded as a limit of the program, not claimed)'),
P('D05', 'Index records are validated; the pair of databases keeps and closes both',
  'Root.Validate accepts a record exactly when its hash, signature and time are not empty and the hash of the previous Root object is empty exactly for seq zero. NewDB keeps both databases given and panics if one is nil; CXDS and IdxDB return the one they name; Close of the pair closes each database once, even if closing the other fails, and returns an error if either fails.',
  ['inputs', 'faults'], 'every record, every combination of databases and failures to close',
  'Tests validate a few records and never have closing fail.',
  ['data/data.go'], [('validation', 'data/data.go: Root.Validate'), ('pair', 'data/data.go: NewDB, DB.Close, DB.CXDS, DB.IdxDB')],
  'path enumeration by abstract interpretation with branch facts over the fields of the record',
  'decides every exit against the conditions known on its path'),
P('X01', 'Iterating over the index visits every record once and in order',
  'Iterating over feeds, heads or Root objects (Ascend, Descend) calls the callback once for every record there is, in ascending (Descend: descending) order of key, with the feed, nonce or decoded Root object of that record, even if the callback removes the record it is given. data.ErrStopIteration ends the iteration without an error, any other error of the callback ends it and is returned. Iterating changes nothing itself, and ends after the last possible key.',
  ['inputs', 'histories', 'faults'], 'every content of the index, including the first and the last possible key, every outcome of the callback and deletions by it',
  'Tests iterate over two or three records in the middle of the key space; the last key (all bits set) needs 2^64 seq numbers and deletion while iterating its own set-up.',
  ['data/idxdb/drive.go'], [('loops', 'data/idxdb/drive.go: driveFeeds.Iterate, driveHeads.Iterate, driveRoots.Ascend, driveRoots.Descend'), ('next key', 'data/idxdb: incSlice, utob')],
  'typestate of the cursor over enumerated paths; exact unrolling of the next-key computation with wrap-around',
  'decides each step of the iteration over the paths of up to two records (one step from any record to the next); bolt cursors by contract'),
P('X02', 'The index keeps every field of a Root object and its access times',
  'Set, Get, Del and Has of the Root objects of a head use the big-endian bytes of the seq as key, in the bucket of the head. Set refuses an invalid Root object and writes nothing; it stores a new one with all its fields and the current time as creation and access time, in the record and in the object given; storing one again, or reading one, leaves every field of the record as it was and sets the access time of the record to now, while the caller sees the times from before. Get of a missing record is data.ErrNotFound, Del of one is no error, Has reports whether there is one. Failures of the database are reported.',
  ['inputs', 'histories', 'faults'], 'every Root object, every seq number, present or absent, every failure of the database',
  'Tests store two or three Root objects with small seq numbers; byte order, field loss and failures show only for others.',
  ['data/idxdb/drive.go', 'data/data.go'], [('records', 'data/idxdb/drive.go: driveRoots.Set, Get, Del, Has, Len'), ('coding', 'data/data.go: Root.Encode, Decode, Validate')],
  'path enumeration by abstract interpretation, with coding of a record modelled field by field',
  'decides every exit for a symbolic record; the encoder is modelled as keeping all exported fields'),
P('X03', 'Feeds, heads and transactions of the index do what they say',
  'Add, Del, Has, Heads and Len of feeds and Add, Del, Has, Roots and Len of heads work on the bucket of their own level under the key of the feed (its bytes) or head (big-endian nonce). Del, Heads and Roots report a missing feed or head as data.ErrNoSuchFeed or data.ErrNoSuchHead and change nothing; adding one that is there changes nothing; Has and Len change nothing. Outcomes of the database are returned. A transaction runs the function on the feeds inside exactly one writing transaction, and the error of the function is the error of the transaction, which then changes nothing.',
  ['inputs', 'histories', 'faults'], 'every feed and nonce, present or absent, every failure of the database or of the function',
  'Tests add and remove one or two feeds and heads and do not have the database fail.',
  ['data/idxdb/drive.go'], [('feeds and heads', 'data/idxdb/drive.go: driveFeeds, driveHeads'), ('transaction', 'data/idxdb/drive.go: driveDB.Tx')],
  'path enumeration by abstract interpretation against a table of operations',
  'decides every exit of every method; atomicity of the transaction itself is bolt\'s'),
P('K01', 'Object stores are safe for concurrent use',
  'The contents of the in-memory store and the statistics of both stores are only read with the lock of the store held and only changed with it held exclusively; every lock taken is released on every way out, none is taken twice or released without being held, and locks are not taken in a cyclic order.',
  ['schedules'], 'every interleaving of calls from any number of goroutines, every path through each method, including failures',
  'A race needs the right interleaving to show and the race detector only sees the schedules that happen.',
  ['data/cxds/memory.go', 'data/cxds/drive.go'], [('locks', 'data/cxds: memoryCXDS.mx, driveCXDS.mx')],
  'lock-set typestate over all paths of every entry, with a lock-order graph',
  'decides lock discipline, not the absence of every race: which fields a lock guards is a table confirmed by reading'),
P('K02', 'Cache, index and filler state is only touched under its lock',
  'In the skyobject layer, the items, registries and totals of the cache, the feeds, heads and last and active roots of the index, the collected increments of a filler and the statistics are only read with the lock that guards them held and only changed with it held exclusively; every lock taken is released on every way out, none is taken twice or released without being held, and locks are not taken in a cyclic order.',
  ['schedules'], 'every interleaving of calls from any number of goroutines, every path through each method',
  'A race or deadlock needs the right interleaving to show; tests run mostly in one goroutine.',
  ['skyobject/cache.go', 'skyobject/index.go', 'skyobject/fill.go', 'skyobject/cxds_stat.go', 'skyobject/index_stat.go'], [('locks', 'skyobject: Cache.mx, Index.mx, Filler.mx, cxdsStat.mx, indexStat.mx')],
  'lock-set typestate over all paths of every entry, with a lock-order graph',
  'decides lock discipline inside the package (calls through interfaces and callbacks are not followed); which fields a lock guards is a table confirmed by reading'),
P('K03', 'Node, connection and transport state is only touched under its lock',
  'In the node layer, the tables of connections and the swarms of a node, the sequence number and pending requests of a connection, the discovery, address and listening state of a transport and the peers of a swarm are only read with the lock that guards them held and only changed with it held exclusively; every lock taken is released on every way out, none is taken twice or released without being held, and locks are not taken in a cyclic order.',
  ['schedules'], 'every interleaving of calls from any number of goroutines, every path through each method',
  'A race or deadlock needs the right interleaving of network events and calls to show.',
  ['node/node.go', 'node/conn.go', 'node/transports.go', 'node/swarm.go'], [('locks', 'node: Node.mx, Conn.mx, TCP.mx, UDP.mx, Swarm.mu')],
  'lock-set typestate over all paths of every entry, with a lock-order graph',
  'decides lock discipline inside the package (calls through interfaces and callbacks are not followed); which fields a lock guards is a table confirmed by reading'),
P('N01', 'Messages are coded and framed the same way on both sides',
  'Every message type has a type byte of its own; its encoding is that byte followed by all fields of the message, and decoding the bytes gives a message of the same type with all of them read back. Empty data, an unknown type byte, undecodable data and trailing bytes are refused by an error and give no message. A type byte is printed as the name of its message. A message goes over a connection as its seq, the seq of the request it answers (rseq, zero if none), each as four little-endian bytes, and its encoding; both readers of frames take the numbers and the message from these places and refuse a frame too short to hold a message.',
  ['inputs'], 'every message type with every content, every sequence of bytes received',
  'Tests send a few messages between nodes built from the same source, so an error made in both directions, or in a message not sent, does not show; malformed data is not sent at all.',
  ['node/msg/msg.go', 'node/conn.go'], [('coding', 'node/msg/msg.go: Type, Encode and Decode of all messages, forwardRegistry, msgTypeString'), ('framing', 'node/conn.go: encodeMsg, sendMsg, receiveMsg, decodeRaw')],
  'pairing of tables and encodings computed from the source; path enumeration by abstract interpretation of decoder and framing',
  'decides that both sides agree for every message type; that the encoder of skycoin round-trips a struct with exported fields is trusted'),
P('N02', 'Every request gets its own reply, a timeout or an error',
  'A request is sent once, under a number of its own, is entered among the waiting requests before it is sent and taken out on every way back. The reply returned is the one that arrived with the number of this request; waiting is limited by the response timeout configured for the transport of the connection (zero: not limited) and ends with ErrTimeout, or with ErrClosed when the connection is closed. A received message whose rseq is that of a waiting request is given to that request only, without blocking the connection even if the request was answered already; any other message is handled, with its own seq. Data that is no message, or a handler that fails, ends the connection with an error, closing ends it without. Sub, RqList, RqObject, RqPreview and RqPeers from a peer are each answered exactly once (unless the connection is closed), under a number of its own, to the number of the request; other messages are not answered.',
  ['inputs', 'schedules', 'faults'], 'every request and message of a peer, every order of arrival, timeouts and closing at any point',
  'Two requests in flight, late and duplicate replies, a reply before the caller waits and a timeout need timing a test cannot bring about reliably.',
  ['node/conn.go'], [('requests', 'node/conn.go: sendRequest, addRequest, delRequest, responseTimeout'), ('dispatch', 'node/conn.go: receiveMsg, isResponse'), ('replies', 'node/conn.go: handle, handleSub, handleRqList, handleRqObject, handleRqPreview, handleRqPeers')],
  'path enumeration by abstract interpretation with event order (typestate of a request), one round of the loop from an arbitrary state',
  'decides every path of requesting, dispatch and handling; delivery by the network library and the scheduler are trusted'),
P('N03', 'Objects and Roots of peers are verified before they are used',
  'A Root received from a peer is accepted only if the signature of its bytes verifies with the public key of the feed, the decoded Root is a Root of the same feed, and encoding it again gives the same hash; its Hash and Sig are the verified values, and IsFull is set only if the index already has a Root of this feed, head and seq (only no-such-head and not-found errors of that lookup are ignored). Hash, Sig and IsFull are not part of the encoding. An object of a peer is used, or put in the cache, only if its SHA256 is the requested key and it is the value of the reply to that very request. A pushed Root is dropped if its feed is unknown or the last seq of its head is not less than its own; otherwise it is verified and handed on exactly once if it is the announced nonce and seq and is not full yet. A preview asks for the feed, shows only a verified Root of that feed with a pack of this connection, and subscribes only if the function of the user returned true; its pack and registry ask the peer only for what the container does not have (ErrNotFound) and keep an object under the hash it was requested by.',
  ['inputs', 'histories', 'faults'], 'every message of a malicious or faulty peer, every failure of the container',
  'The space of forged, truncated, replayed and mismatching messages is unbounded, and a path on which one check is skipped looks fine with honest peers.',
  ['skyobject/index.go', 'node/conn.go', 'node/feeds.go', 'node/head.go'], [('root', 'skyobject/index.go: ReceivedRoot, receivedRoot'), ('object', 'node/head.go, node/conn.go: requests of objects'), ('preview', 'node/conn.go: Preview; skyobject: PreviewPack')],
  'path enumeration by abstract interpretation: every accepting path carries the facts of verification (must-facts, taint to sinks)',
  'decides every path from received bytes to acceptance; the cryptography of the cipher package is trusted'),
P('N04', 'Root objects flow along subscriptions',
  'A connection is subscribed to a feed exactly if it was asked for: a Sub from the peer is accepted (Ok) if its feed is not blank, the OnSubscribeRemote callback does not refuse it and, after the callback, the node shares the feed, otherwise it is answered with Err (a blank feed ends the connection); Subscribe shares the feed, asks the peer and succeeds exactly if the reply is Ok, and the connection is in the feed before the next message is handled. A closed connection is never added. Unsub and Unsubscribe take out exactly that connection from that feed and its heads; a Root from a connection not subscribed is dropped, one from a subscribed connection goes to the head of its nonce, made (within MaxHeads: the oldest head is closed with ErrMaxHeadsLimit and removed) if there is none. A Root is sent to every other connection subscribed to its feed, whole and as it is, and never back; a new subscriber gets the last Root of the active head, looked up after it was subscribed. Connections without a feed are idle, closed ones are removed everywhere; removing a feed closes its heads and tells its connections. Questions (feeds, connections of a feed, feeds of a connection) are answered from the current tables, and only a public node lists its feeds to peers.',
  ['inputs', 'histories', 'schedules'], 'every order of subscribing, unsubscribing, closing, receiving and asking, with any number of feeds, heads and connections',
  'The tables are shaped by every history of several peers; a test shows a few orders with one or two connections.',
  ['node/feeds.go', 'node/feed.go', 'node/conn.go', 'node/node.go'], [('feeds', 'node/feeds.go: handle and the handlers of its requests'), ('feed', 'node/feed.go: receivedRoot, broadcastRoot, delConn, close'), ('peers', 'node/conn.go: handleSub, handleUnsub, handleRqList, Subscribe, Unsubscribe, handleSubscribed')],
  'path enumeration by abstract interpretation: each round of the loop owning the tables, from an arbitrary state, against a specification of its effects',
  'decides every round of the loop and every path of the handlers; that rounds do not overlap is decided by K03'),
P('N05', 'A head fills one Root after another from the peers that have it',
  'A head fills one Root at a time. A received Root is filled at once if none is being filled; an older one than that being filled is ignored, one of the same seq adds its connection (once) to those filled from, and a newer one waits, if it is newer than the one waiting. OnRootReceived is called once for every Root taken, before it is taken, and a rejected Root is not filled. An object wanted by the filler is requested once, from a connection known to have the Root and not busy, as soon as there is one; the filling fails with ErrNoConnectionsToFillFrom exactly if objects are wanted, no connection is free and no request is running. A request that succeeded (SetWanted of the verified object) frees its connection, one that failed makes its object wanted again; replies to requests of an earlier filling change nothing of the current one. ErrInvalidResponse closes and forgets the connection, ErrClosed forgets it, ErrTimeout forgets this Root of it. MaxFillingTime (zero: no limit) fails the filling with ErrTimeout. At the end OnRootFilled or OnFillingBreaks (with the error) is called once, the filler is closed, its timer stopped and its requests forgotten; a success counts for the average and forgets older Root objects of the connections; then the waiting Root is filled. Closing a head closes its filler; goroutines of the head are waited for. The known Root objects of a connection are kept without duplicates and forgotten with the connection.',
  ['inputs', 'histories', 'schedules', 'faults'], 'every order of Root objects, objects, replies, failures, disconnections and timeouts, with any number of connections',
  'The state of a head is shaped by every interleaving of replies of several peers; a test has one or two honest peers and no failures.',
  ['node/head.go', 'node/node.go'], [('loop', 'node/head.go: handle and the handlers of its events'), ('requests', 'node/head.go: tryRequest, request, requestFailed'), ('known Root objects', 'node/head.go: knownRoots'), ('callbacks', 'node/node.go: onRootReceived, onRootFilled, onFillingBreaks')],
  'path enumeration by abstract interpretation: each round of the loop owning the state, from an arbitrary state, against a specification of its effects',
  'decides every round of the loop and every path of its goroutines (dropping of gone connections followed for up to two of them); the list and time packages are trusted',
  state=[('filling', 'the Root being filled, its filler and the number of running requests'), ('waiting', 'the newest Root received meanwhile'), ('known', 'connection to seqs of Root objects received from it')]),
P('C01', 'The cache keeps values and counts of references as the object store would',
  'For every method of the cache (Get, Inc, Set, SetWanted, Want, Unwant, Finc, getNoCache, IsCached) and every state of the object asked for (not in the cache, wanted, being filled, cached): the count of references, that is the one in the store together with what is pending in the cache, changes by exactly the given amount once, and never below zero; the count returned or delivered is the new one less the part of fillers, and the value is that of the object. Only Want and Finc change the part of fillers, by the amount given: Finc > 0 makes it regular, Finc < 0 takes it back from the count as well, and Finc does nothing for an object no filler has. Objects that are wanted are not in the store: Get and Inc report data.ErrNotFound, Want of a missing object waits, adding amounts of the same channel. An object that arrives (Set, SetWanted) is stored once with the sum of what it is wanted for, then sent once to each channel wanting it, never blocking, and not wanted any more; if nobody keeps it, it is sent but not stored; if it is larger than MaxObjectSize it is refused with ObjectIsTooLargeError, also to those that want it. SetWanted of an object not wanted changes nothing. An entry stays exactly while the object has a cached value, is wanted or is being filled; a value leaving the cache has its pending change written to the store. Only an enabled cache keeps values, used ones, not larger than CacheMaxItemSize, cleaning down exactly if CacheMaxAmount or CacheMaxVolume would be exceeded; amount and volume follow what is kept. Failures of the store are returned and change nothing.',
  ['inputs', 'histories', 'faults'], 'every state of an object, every amount (negative, zero, positive, beyond the count), every failure of the store, every configuration',
  'The outcome depends on the combination of what other operations left in the cache (fillers, channels that wait, pending changes) with limits and failures; tests walk a few histories with the default configuration.',
  ['skyobject/cache.go'], [('methods', 'skyobject/cache.go: Get, Inc, Set, SetWanted, Want, Unwant, Finc, getNoCache'), ('putting', 'skyobject/cache.go: putItem, putFillingItem'), ('delivery', 'skyobject/cache.go: setWanted, sendWanted'), ('writing behind', 'skyobject/cache.go: delete')],
  'path enumeration by abstract interpretation: every path of every method from each symbolic state of the entry, with the sum of effects on store and cache compared with a specification',
  'decides every path of every method for one object in each of its four states; cleaning down is replaced by its contract (C02), the object store by its own (D01); loops over those that want an object are judged one arbitrary round at a time',
  state=[('entry', 'value, count, count in the store, part of fillers, channels that want it'), ('amount, volume', 'of cached values')]),
P('I01', 'The index gives the last Root of every head and the newest head of a feed',
  'The index of a container keeps, in memory, every feed and head of the index database and the last Root (greatest seq) of each head, or nothing for a head without Root objects. Loading takes them from the database, all of them. AddFeed, AddHead, AddRoot, DelFeed, DelHead and DelRoot change the database first, by one transaction that does what the method is called for and with its arguments only, and then the memory in the same way; if the transaction fails, the error is returned and the memory stays. Adding a feed or head that is there does nothing; a missing feed, head or Root is reported by data.ErrNoSuchFeed, ErrNoSuchHead and ErrNotFound. AddRoot refuses a Root that is not full, or with blank Pub, Hash or Sig; it saves one record with Seq, Prev, Hash, Sig and Time of the Root; it reports alreadyHave for one that is there; a Root with a lesser seq does not replace the last. Removing the last Root makes the greatest remaining one the last, or the head blank. ActiveHead is the head whose last Root has the greatest Time, after every one of these changes and after loading. HasFeed, HasHead, Feeds, Heads, ActiveHead, LastRootSeq, LastRoot, Root and RootByHash answer from that, change nothing, and give a Root decoded from the value of its hash, full, with its hash and signature. Feeds never gives an outdated list. Removing a feed, a head or a Root collects the hash of every Root removed and takes one from the counts of each Root, its registry and the objects it walks to, going deeper exactly into objects whose count becomes zero; failures are reported.',
  ['inputs', 'histories', 'faults'], 'every state of the index, every feed, head, seq and time, every failure of a transaction at every step, iterations of any length',
  'Memory and database agree only if every method keeps them so in every state, also when a transaction fails; the active head depends on times that do not follow seq numbers, which no test makes.',
  ['skyobject/index.go', 'skyobject/container.go'], [('methods', 'skyobject/index.go: AddFeed, AddHead, AddRoot, DelFeed, DelHead, DelRoot'), ('active head', 'skyobject/index.go: setActive, ActiveHead'), ('loading', 'skyobject/index.go: load'), ('lookups', 'skyobject/index.go: lastRoot, findRoot, dataRoot, LastRoot, Root; skyobject/container.go: RootByHash'), ('removal', 'skyobject/index.go: delRootRelatedValues; skyobject/container.go: walkRoot')],
  'path enumeration by abstract interpretation: every path of every method, with transactions that commit, fail or cannot be started, compared with a specification relating the operations of the transaction to the changes of the memory',
  'decides every path of every method from an arbitrary state; the database is replaced by its contract (X01-X03), transactions are atomic; iterations and loops are judged in their first and in an arbitrary further round; the times of Root objects are positive',
  state=[('feeds', 'heads of each feed, the last Root of each head'), ('active head', 'nonce and time'), ('list of feeds', 'made on demand')]),
P('V01', 'Saving a Root keeps the counts of references and the chain of Root objects',
  'An Unpack is made with a registry and a secret key that verifies, and starts empty. Set and Add of an Unpack save the value once (one reference, under its hash for Add), note how many times the Unpack saved it, and whether it was not there before; a failure is returned and notes nothing. Save refuses a Root with blank Pub, zero Nonce, or with references of another registry, and changes nothing then. It walks every reference of the Root with the Unpack: a blank hash is skipped; an object the Unpack did not save gets one reference, is noted as saved and used once, and is not walked deeper; another one counts as used once more, and is walked deeper if and only if it is new and used for the first time. In one transaction of the index database it finds the last Root of the head, sets Seq (last + 1, or 0) and Prev (hash of the last, or blank) and the current time in nanoseconds, encodes the Root after that, sets Hash, IsFull and the signature of the hash by the key of the Unpack, saves the value and the encoded registry through the Unpack, and adds one record with Seq, Prev, Hash, Sig and Time of the Root. After the transaction, and only if it did not fail, the Root is the last one of its head in memory and the active head is the newest. Then the count of every object of the Unpack changes by uses minus times saved (the Root and its registry count as used once), and the Unpack forgets it. After any failure that follows the walk, no object of the Unpack counts as used, and the error is returned. Close takes back exactly the references of every object the Unpack still has, once.',
  ['inputs', 'histories', 'faults'], 'every Root, every set of objects saved and used any number of times, every state of the database, every failure of every call',
  'Reference counts are right only if every path, with shared objects, repeated saves and failures, adds and takes the same number; a wrong count is seen much later, when an object is removed while it is used.',
  ['skyobject/unpack.go', 'skyobject/index.go'], [('save', 'skyobject/unpack.go: Container.Save, Index.saveRoot; skyobject/index.go: addSavedRoot'), ('unpack', 'skyobject/unpack.go: Container.Unpack, Unpack.Set, Add, Close')],
  'path enumeration by abstract interpretation: every path of Save with its transaction (commit, failure, refusal), and an arbitrary round of each of its loops and callbacks, against a specification of counts, chain and record',
  'decides every path from an arbitrary state of the Unpack and of the index; walking is replaced by its contract (a call back for every object, R02), the cache by its contract (C01), the database by X01-X03; each loop is judged in an arbitrary round',
  state=[('counts of the Unpack', 'times saved, times used, new'), ('chain', 'Seq and Prev of the head')]),
P('F01', 'A filler keeps objects of a Root it filled, and gives back those of others',
  'A filler made by Fill fills the Root given, requests by the channel given, has the limit given (none if it is not positive), and holds nothing. Get and Pre want an object from the cache by a channel with room, holding it once (not at all by Get if it was requested by Pre), and stop wanting it on every way out. An object the database has is given at once; otherwise it is requested once; waiting to request or for the object ends when the filler is closed, with ErrTerminated. Whenever an object held comes without a failure, even after termination, it is counted once more as held, and never otherwise. The value and the count are those received; the count includes what is held by the call, and one more if the filler held the object before; a failure is returned. Pre notes the object as requested only after success; Get notes nothing. Fail never waits and keeps the first failure. Close tells the filler to end once and then waits for everything it started. Go does a task exactly once: in the background, waited for and counted for the limit until it is done, or in place if the limit is reached. Run saves the Root once, holds its registry by Get and decodes it before anything is started, fills every reference once through Go, and waits for a failure or for everything started to end. Only if everything ended and no failure is there, the Root becomes full and is added to the index. Then, after the filler is closed, every object is kept exactly as often as it was held (Finc), once; after any failure they are given back as often as held, the saved Root is given back, the Root is not full and the failure is returned. A failure to save the Root changes nothing.',
  ['inputs', 'schedules', 'faults', 'histories'], 'every order of answers, requests, failures and termination; every Root, every set of objects held any number of times',
  'Counts of references are right after a filling only if every object held is given back or kept whatever comes first: answer, failure or termination. The losing orders are rare and leave no trace until an object is removed.',
  ['skyobject/fill.go'], [('objects', 'skyobject/fill.go: Filler.Get, Pre, get, received, inc'), ('end', 'skyobject/fill.go: Filler.Run, Close, Fail, apply, reject'), ('tasks', 'skyobject/fill.go: Filler.Go, acquire, release'), ('made', 'skyobject/fill.go: Container.Fill')],
  'path enumeration by abstract interpretation: every path of every method with every choice of every select, goroutine bodies enumerated from the state they start in, an arbitrary round of each loop, against a specification of held objects and outcomes',
  'decides every path; the cache is replaced by its contract (an object wanted comes at most once, C01); that references walk to every object and use Go is R02; the Root is assumed not to be in the index yet and a filler to run once',
  state=[('held objects', 'how often each is held'), ('requested before', 'by Pre'), ('end', 'first failure, closed')]),
P('C02', 'The cache gives room by its least used values, keeps registries, closes clean',
  'Cleaning down takes objects out of the cache in the order of their points, the least first, one after another, and takes exactly those that have a value and that nobody waits for. While one more object would exceed CacheMaxAmount objects leave until the amount is below its lower boundary; if then the volume with the new value reaches CacheMaxVolume they leave until it is not above its lower boundary; nothing leaves while there is room, and it ends otherwise only with nothing left or at the first failure, which is returned. An object that leaves has what is pending (its count less the one in the store) written once, if there is something; amount and volume shrink by one and by its length; it is deleted, unless a filler has it: then only its value goes and nothing is pending. After a failure of the store the object stays as it was. Each use of a cached value or registry gives points to it once: with LRU the time of the use, with LFU one more. Registries are kept by their reference, only if CacheRegistries is positive and at most as many; if that many are there the one with the least points leaves, a registry that is known only gets points. Registry gives the cached one, or decodes the value of the reference and keeps the result; failures to get or to decode are returned and nothing is kept. Close writes for every object that has a value or a count what is pending less the part of fillers, nothing for objects that are wanted, then closes the store once and the statistic once; the first failure to write is returned.',
  ['inputs', 'histories', 'faults'], 'every content of the cache, every value and configuration, every failure of the store',
  'Cleaning and closing write counts behind; a count lost there shows only when an object is removed or kept wrongly much later, and needs a full cache, fillers and a failing store to meet.',
  ['skyobject/cache.go'], [('cleaning', 'skyobject/cache.go: cleanDown, delete'), ('points', 'skyobject/cache.go: cachePoints.touch'), ('registries', 'skyobject/cache.go: AddRegistryToCache, Registry'), ('closing', 'skyobject/cache.go: Close')],
  'path enumeration by abstract interpretation: every path of cleaning, keeping registries and closing, an arbitrary round of each loop, the order by evaluating the comparison given to the sorting for both outcomes',
  'decides every path and an arbitrary round; that sort.Slice sorts by the comparison given and that rounds compose are not decided here; lower boundaries are what the configuration gives',
  state=[('entry', 'value, count, count in the store, part of fillers, points'), ('registries', 'cached, by reference')]),
P('R02', 'Walk and Split reach every object below a reference, and stop when told to',
  'An object reached by its hash is got once, by that hash (Split: by the splitter); a failure to get it is returned unchanged (given to Fail) and ends it. What was got is gone through with its schema, unless the schema has no references (Walk) or the count of the object tells it belongs to a filled Root already (Split). An encoded object is gone through by the kind of its schema: a Ref, Refs or Dynamic is decoded from the object, a failure to decode is returned, and what was decoded is gone through with the schema of its elements; of an array (Len elements), a slice (as many as its prefix says, behind it) and a struct (every field) every element from the first to the last is gone through with its own schema and exactly its own bytes as its schema sizes them, unless it has no references; an unknown kind or type of reference, and a missing schema of elements, is an error, and nothing else is. Walk of a Ref or Dynamic calls the function once with the hash, and goes on with the object exactly if the function says so and the hash is not blank; the schema of a Dynamic comes from the registry of the Pack by its reference, and an invalid Dynamic is an error. Refs are loaded, or their obsolete hashes updated, before the actual hash is offered, and walked from the root node with their depth. A node offers every leaf and every branch once, loads a branch before going through it, and goes one level below with each; leafs are offered and gone through by their hash with the schema of elements. Walk of a Root goes through every reference of it. An error of the function or of a step below ends a walk at once and is returned as it is; ErrStopIteration, and only it, becomes success in exported Walk methods. What Split gives to Go captures nothing that changes afterwards.',
  ['inputs', 'schedules', 'faults'], 'every schema and every data, every tree of Refs, every answer of the function and failure below',
  'Filling, removing, saving and exporting a Root all rely on reaching every object; an element passed by at the end of a slice is an object that is never requested, or never released.',
  ['skyobject/registry/walk.go', 'skyobject/registry/split.go', 'skyobject/registry/ref.go', 'skyobject/registry/dynamic.go', 'skyobject/registry/refs_walk.go', 'skyobject/registry/refs_split.go', 'skyobject/registry/root.go'], [('objects and data', 'skyobject/registry/walk.go: walkSchemaHash, walkSchemaData; skyobject/registry/split.go'), ('references', 'skyobject/registry/ref.go, dynamic.go: Walk, Split'), ('trees', 'skyobject/registry/refs_walk.go: walk, walkNode; refs_split.go')],
  'every function going through a reference, data, hash or node is enumerated from the exported Walk and Split methods and judged on its own by path-sensitive abstract interpretation (calls of the others are its steps); rounds of loops from an arbitrary state with induction of counter and offset from their entry values; a syntactic dataflow for variables captured by tasks',
  'decides every path and every round; relies on sizes given by schemas being within the data and on HasReferences telling whether an element has references; the loading of nodes of Refs is a step that does what it says'),
P('R01', 'Schemas size encoded data exactly and within its bounds, and tell references',
  'For any schema and any data, Size succeeds only with a size not below zero and not above the length of the data, and takes no part of the data that is not there (it never panics). The size of a value of a basic kind is that of the kind: bool, int8 and uint8 1; int16 and uint16 2; int32, uint32 and float32 4; int64, uint64 and float64 8; a string its length prefix and 4. The size of a reference is the length of an encoded Ref, Refs or Dynamic by the type of the reference. The size of an array is the sum of the sizes of its Len elements, that of a slice of as many elements as its prefix says, and 4 more, that of a struct of all its fields; every element is sized once, by its own schema, in the data behind the one before it, or is of a kind of fixed size (their number times the size). A kind without a size, an unknown type of reference, a length prefix or an element that is not in the data is an error, and nothing else is. A length prefix is the 32 bit unsigned number the data begins with. HasReferences is false of basic kinds, true of references, that of the elements for arrays and slices, and true of a struct exactly if it is of a field.',
  ['inputs'], 'every schema, every data of every length',
  'Walk, Split, the tree printer and every reader of fields cut encoded objects with these sizes; the data comes from other nodes, and a size out of bounds panics the node or makes references below unreachable.',
  ['skyobject/registry/schema.go', 'skyobject/registry/schema_helpers.go'], [('sizes', 'skyobject/registry/schema.go: Size of every schema'), ('elements and prefixes', 'skyobject/registry/schema_helpers.go: schemaArraySliceSize, getLength, fixedSize, init'), ('references', 'skyobject/registry/schema.go: HasReferences')],
  'every type implementing Schema is found by type and its Size and HasReferences run by path-sensitive abstract interpretation on an arbitrary receiver and data; other schemas are replaced by their contract; loop invariants (0 <= sum <= length of data) are inferred by dropping candidates that are not inductive; rounds are judged from an arbitrary state',
  'decides every path; integers are mathematical (a product of two 32 bit quantities on a 64 bit platform does not overflow); assumes that schemas of elements keep to the same contract (each is checked) and that the length of an array is not negative; a decoded schema whose parts contradict each other is not covered'),
P('R03', 'An encoded schema and an encoded Registry decode into what they were',
  'Methods of schemas and fields tell their parts: kind, name, length, elements, fields in order, type of reference, tag; a schema is registered exactly if it is a named struct, references never are. A schema is encoded with its kind and name, type of reference, length, encoded fields in order and encoded element; an element that is registered (and any target of a reference) is encoded by kind and name only; a field with its name, tag and schema. Decoding data gives a schema whose every part is what was encoded in it and whose type fits the kind and type of reference (array, slice, struct, reference or basic); it fails exactly if something in it can not be decoded or the type of reference is unknown. The reference of a schema is the hash of its own encoding (that of its own type, not of an embedded one). A Registry is encoded as all names and schemas in the order of names. DecodeRegistry keeps every decoded schema by its name and finishes the Registry, or returns an error and no Registry. Finishing replaces every registered element of an array, slice, struct field or reference by the schema registered with its name in this Registry and goes down into it, every schema once; a missing name or an unknown type of reference is an error. After that no schema contains itself by value (in arrays, slices, structs): such a Registry is an error; references break recursion, and one schema found twice but not in itself is fine. Every schema can be found by its reference, and the reference of the Registry is the hash of its encoding. SchemaByName and SchemaByReference return what is registered or an error.',
  ['inputs', 'histories'], 'every schema, every encoded data',
  'nodes exchange registries: an object is cut and read with the schema decoded on the other side, and references of registries and schemas are hashes of these encodings.',
  ['skyobject/registry/schema.go', 'skyobject/registry/registry.go'], [('encoding', 'skyobject/registry/schema.go: encodedSchema, Encode, Reference, encodedField'), ('decoding', 'skyobject/registry/registry.go: decodeSchema, decodeField, DecodeRegistry'), ('finishing', 'skyobject/registry/registry.go: finialize, fillSchema, checkRecursion, Encode, SchemaByName, SchemaByReference')],
  'every type implementing Schema or Field is found by type and its methods run by path-sensitive abstract interpretation on an arbitrary receiver; what Serialize is given is compared part by part with the fields of the receiver, and what decoding of arbitrary data stores with the parts decoded; narrowing conversions below 32 bits are kept as such; recursive calls are replaced by the contract; rounds of loops are judged from an arbitrary state, with index and list invariants',
  'decides every path; assumes that encoder.Serialize and DeserializeRaw of one type invert each other and the sort package; lengths of arrays from 1 to 2^32-1; making schemas of Go types (Reg) is not covered'),
P('N06', 'Connections are established by a handshake and removed when closed',
  'An outgoing connection sends Syn with the version of the protocol and the own identifier and is accepted exactly if the response to it (by its number) is Ack of a peer not connected already; an incoming one exactly if the first message is Syn of the same version of a peer not connected already and Ack with the own identifier was sent. A peer of another version or connected already gets Err with the reason. The identifier of the peer is kept on success only. The handshake waits no longer than the response timeout of its transport, if there is one, and ends when the connection is closed. A connection is made only within MaxConnections (pending and established) and MaxPendingConnections, refused only outside of them; zero is no limit. If there is a connection by this address, it is returned; if it is pending, an incoming one is refused and an outgoing one waits for it and gets it or its error. A new connection has everything made, is pending during its handshake and no longer after that; if the handshake fails or its peer got connected meanwhile, the error is kept before those who wait are told, and the connection gets in no table; otherwise it enters both tables in one step, is idle in feeds, then starts, and is returned. It receives until closed; if receiving or OnConnect fails it is ended; it waits for its goroutines, and then leaves the feeds, both tables in one step and its transport, which is closed, and OnDisconnect is called last with the error of receiving, that of OnConnect, or nil. Close ends a connection once and waits for it. Transports return the connection they have, else open one, make a connection of it, keep it unless it ended, and close what failed or is not used. Closing the Node ends, once, swarms, all pending and established connections, transports, RPC, feeds, then the container, whose error is returned, not holding its lock while waiting.',
  ['inputs', 'schedules', 'histories'], 'every answer of a peer, every state of the node',
  'without it a node talks to peers of another protocol, keeps two connections to one peer, leaks connections and goroutines, or hangs when closed.',
  ['node/handshake.go', 'node/conn.go', 'node/node.go', 'node/transports.go'], [('handshake', 'node/handshake.go'), ('making', 'node/node.go: initConn, onNewConn, onConnInit, onConnInitErr'), ('life', 'node/conn.go: run, Close, terminate'), ('transports', 'node/transports.go: Connect, acceptConn, addConn, closeConn'), ('closing', 'node/node.go: Close')],
  'handshake, making of a connection, its life with the goroutine it starts, Close, methods of both transports and Node.Close are run by path-sensitive abstract interpretation on arbitrary states and every outcome of calls; frames sent, facts about what was received, table updates, their order and locks, callbacks and results of every path are compared with the specification; values written by a goroutine are unknown after every point of synchronisation; rounds of loops are judged from an arbitrary state',
  'decides every path; the factory of connections is trusted; interleavings are not enumerated: atomicity is decided as updates in one section of the lock'),
P('I02', 'A container opens what it is configured with and closes all of it',
  'NewContainer without a configuration uses the default one; it creates DataDir exactly if it is not empty, and uses DB of the configuration; without it, a database in memory if InMemoryDB; otherwise two files at different paths, made of DBPath if it is not empty and of DataDir otherwise. If CheckSizes is set (and only then) all objects are checked first, and one larger than MaxObjectSize (and only such one) fails it with an error that tells its hash. Then the empty cache is made (disabled exactly if CacheMaxAmount or CacheMaxVolume is zero), and the index is loaded. It fails exactly if one of these steps fails, with its error, after closing what was opened: files, database, goroutines of statistic. Config.Validate accepts exactly: a valid Degree, RollAvgSamples from 1, CacheMaxAmount and CacheMaxVolume from 0, CachePolicy LRU or LFU, CacheCleaning from 0.5 to 0.9, CacheMaxItemSize up to the part of CacheMaxVolume that is cleaned, MaxObjectSize from 1024; NewConfig has the documented default of every field. Walk gets the Registry of the Root, visits the hash of the Root, that of the Registry and then everything below with a pack of this Registry and container, stops at the first error and returns it, but nil for ErrStopIteration of the function. RootByHash returns the Root decoded from the object of this hash, with this Hash, with the Sig of its feed, nonce and seq in the index, marked full, or the error of the step that failed, and changes no references counter. Close closes index, cache and then database, each even if another one fails, and returns the first error; DB.Close closes both databases alike.',
  ['inputs', 'crash points', 'histories'], 'every configuration, every outcome of databases',
  'without it data goes to wrong files, a failed start leaves files locked and goroutines behind, large objects pass the check, or closing loses an error.',
  ['skyobject/container.go', 'skyobject/config.go', 'skyobject/cache.go', 'data/data.go'], [('NewContainer', 'skyobject/container.go'), ('Config', 'skyobject/config.go'), ('Walk, RootByHash, Close', 'skyobject/container.go'), ('DB.Close', 'data/data.go')],
  'NewContainer, Walk, RootByHash, Close, Config.Validate, NewConfig and DB.Close are run by path-sensitive abstract interpretation on an arbitrary configuration with every outcome of opaque calls; calls made and their order, facts branched on, memory and results of every path are compared with the specification; the function that checks sizes is run from the state it was created in',
  'decides every path; files themselves, cache cleaning and index loading are opaque here (D04, D05, C02, I01); the limit of items is compared as the expression int(volume*(1-cleaning)), floating point is not evaluated'),
P('N08', 'A swarm keeps, exchanges and connects to peers of its feed',
  'A peer is accepted exactly if its key is not empty and not that of the node, and each of its addresses is empty, or IP:port and not the own one of that transport. AddPeer keeps a valid peer, seen now and without failures, exactly if there is room (MaxPeers); RemovePeer removes one or fails; Peers returns all. Of the peers received only valid ones are kept, no more new ones than there is room for: a new one as received and seen now, a known one seen now, with its failures, and changed if its data differ; OnPeerAdded and OnPeerUpdated are called exactly then. A peer not seen for PeerExpirePeriod (and no other one) is removed and OnPeerRemoved called. A request for peers is answered once: with an error if the node is not in the swarm, otherwise with the feed and at most PeersPerResponse different peers, each one without failures and not the one that asks. Peers are requested exactly if there is room, from every connection of the feed; only an answer with this feed is used. Connections are needed exactly if neither MaxConnections nor MaxPendingConnections is reached (no limit if not positive) and the feed has less than MaxConns, and no more are made than needed and allowed, to the TCP addresses of different peers that are not connected, which are then subscribed to the feed; failure of either adds one to the failures of the peer, success resets them, a peer removed is not brought back. JoinSwarm makes and starts one swarm of a feed, with defaults in place of zero values of the configuration; InSwarm tells it; LeaveSwarm removes it, tells it to end and waits for that, not under the lock of the node; the goroutine of a swarm does each work at its rate, ends when told and tells that.',
  ['inputs', 'histories', 'schedules'], 'every table of peers, message and configuration',
  'without it nodes of a feed do not find each other, fill their tables with junk or with themselves, forget peers at once, exceed limits of connections, or hang when they leave.',
  ['node/swarm.go', 'node/node.go', 'node/conn.go', 'node/config.go'], [('Swarm', 'node/swarm.go'), ('JoinSwarm, InSwarm, LeaveSwarm', 'node/node.go'), ('handleRqPeers', 'node/conn.go'), ('SwarmConfig', 'node/config.go')],
  'methods of the swarm, its goroutines, JoinSwarm, InSwarm, LeaveSwarm, capacities of the node and the handler of a request are run by path-sensitive abstract interpretation on an arbitrary table; an arbitrary round of each loop is judged (provenance of lists, filters run in each case of their facts, stores to the table, callbacks, goroutines started, whose bodies are run from the state they were started in)',
  'decides every path; Conn.Subscribe, TCP.Connect and sending are opaque here (N01, N04, N05); a peer of the table is taken to have the key it is kept under, which the rules about keeping one establish; randomness of the choice is not decided, only that picks are different ones; whether rates are kept is up to time.Tick; callbacks are not ordered'),
P('R04', 'References hold, return, replace and clear exactly their objects',
  'A Ref is blank exactly if it has no hash, a Dynamic if it has neither hash nor schema; a Dynamic is invalid exactly if it has a hash without a schema; Clear makes a reference blank. Value of a blank reference is ErrReferenceRepresentsNil, of an invalid Dynamic ErrInvalidDynamicReference; otherwise the object of the hash is taken from the pack and decoded to the argument, and an error of either is returned. SetValue of nil or of a nil pointer clears the reference; otherwise the encoded object is added to the pack and its hash is kept (schema of a Dynamic stays); if adding fails, its error is returned and the reference is as it was. A degree is valid exactly from 2 to MaxDegree; a pack takes only a valid degree; AddFlags and ClearFlags set and clear exactly the flags given. Get of a pack returns the object of the key without changing its references count; Set and Add refuse an object larger than MaxObjectSize and otherwise keep it with one reference, Add under its SHA256.',
  ['inputs'], 'every reference, object and outcome of the pack',
  'references are how programs keep and find objects: a wrong one is an object lost, another object, or a reference to what was never saved.',
  ['skyobject/registry/ref.go', 'skyobject/registry/dynamic.go', 'skyobject/registry/references.go', 'skyobject/registry/pack.go', 'skyobject/pack.go'], [('Ref', 'skyobject/registry/ref.go'), ('Dynamic', 'skyobject/registry/dynamic.go'), ('Degree', 'skyobject/registry/pack.go'), ('Pack', 'skyobject/pack.go')],
  'methods of references and of packs are run by path-sensitive abstract interpretation on an arbitrary reference, object and outcome of the pack; each exit is judged by its facts (fields empty or not, nil, error), calls of the pack and what is left in the reference',
  'decides every path; encoding is the encoder of skycoin, Container.Get and Set are opaque here (X02, K01); a Dynamic with a schema but without an object may be either nil or asked of the pack'),
P('N07', 'Each RPC method does what the method of the node does',
  'A node with RPC serves, of itself only, the methods for the node, TCP, UDP and Roots; they are registered before connections are accepted; failing to listen is an error. Every method of the client calls the method served of the same name and part, with its arguments (none swapped) and a reply of the types of it, and returns the reply and the error. Every method served does the operation it stands for with the arguments given: Share, DontShare, Feeds, IsSharing, Connections (all, pending and established), ConnectionsOfFeed, Config, Stat; Connect, Disconnect, Subscribe, Unsubscribe, RemoteFeeds and Address of the transport or its connection of the address given; Show, Tree and Last of the Root selected; it replies with the result and returns the error of it. Without a transport or a connection it fails (Disconnect has nothing to do), it does not panic. What is sent can be encoded, the configuration included; replying does not change that of the node.',
  ['inputs', 'histories'], 'every argument, state of the node and outcome of the operation',
  'RPC is how a node is controlled: a wrong name, type or argument fails at run time only, a value that can not be encoded breaks the connection, a panic ends the node.',
  ['node/rpc.go', 'node/rpc_client.go'], [('RPC, TCPRPC, UDPRPC, RootRPC', 'node/rpc.go'), ('RPCClient', 'node/rpc_client.go'), ('DB', 'data/data.go')],
  'registration, all methods of the client and all served are run by path-sensitive abstract interpretation; names called are resolved to methods registered, and their types compared; calls of the node, arguments, guards against nil, errors and replies of each exit are compared with a table of operations; types sent are checked recursively for what gob refuses',
  'decides every path; operations of the node themselves are opaque here (N01-N05, K02, C02, S02); encoding of the values is that of net/rpc'),
P('U01', 'Removing of the old keeps the last Roots of every head and all in use',
  'RemoveRootObjects(c, n) looks at every feed of the container and every head of it, and deletes, from the newest to the first, exactly the Roots n or more older than the last of the head: never one of the last n, nor a Root of a head that is not known; a head without Roots or with no more than n is skipped, a Root not found ends the head and any other failure is returned. RemoveObjects deletes an object exactly if its references counter is zero and it is not in the cache, and returns the error of the database.',
  ['inputs', 'histories'], 'every set of feeds, heads and Roots, every n, every outcome of the database',
  'these are the only functions that delete what was saved: one Root too many is a loss of data, one head forgotten is a database that grows for ever.',
  ['cxoutils/cxoutils.go'], [('RemoveRootObjects', 'cxoutils/cxoutils.go'), ('RemoveObjects', 'cxoutils/cxoutils.go')],
  'both functions are run by path-sensitive abstract interpretation on an arbitrary container; a deletion is allowed only where the facts of the path show that its number plus n is no more than that of the last Root; loops are judged by entry, step and end of their counters; the predicate over objects is compared in both outcomes with rc = 0 and not cached',
  'decides every path; what the container and the database do with a deletion is the subject of other properties (I01, D02, D03); by design a gap in the numbers ends a head and a negative n skips it'),
P('A01', 'The daemon runs the node its command line describes',
  'Each flag of the container (mem-db, data-dir, db-path) and of the node (limits, addresses, timeouts and pings of TCP and UDP, RPC, public) sets the option it names, no two the same one, and a flag not given leaves the option as it was; those of the logger, and of the container if there is a configuration of it, are registered too. The default configuration of a node has the default value of every option and the default configuration of a container. A configuration of a node is valid exactly if that of its container is. The daemon registers the flags before parsing, makes the node of that configuration, ends with a message if it can not, waits for an interrupt and closes the node; it accepts every subscription after sharing the feed.',
  ['inputs', 'histories'], 'every configuration, command line and outcome of making the node',
  'the flag set of a process is global and the daemon is never started by a test: a flag bound to a neighbour, or a node never closed, shows only in use.',
  ['node/config.go', 'skyobject/config.go', 'cmd/cxod/cxod.go'], [('Config.FromFlags, Validate, NewConfig', 'node/config.go'), ('Config.FromFlags', 'skyobject/config.go'), ('main', 'cmd/cxod/cxod.go')],
  'registrations are events of a path-sensitive abstract interpretation: the address bound, the name and the default of each are compared with a table; every field of the default configuration is compared with its constant; the main function is run with every outcome of making the node and the order of its calls is compared with the specification',
  'decides every path; the flag package parses as documented; debug pins and pings through UDP, which have no default, are left out'),
P('A02', 'Each command of the command line client does what it is named after',
  'Every command documented is in the table of commands of the client, and exactly the commands of the table are offered for completion. The command chosen is that whose name is the longest beginning of the input; the words after the name are its arguments and its error is returned; an unknown one is an error; only quit and exit end the client. A command calls, once, the method of the RPC client it is named after (of the node, TCP, UDP or Roots) exactly if the number of its arguments is right and each is valid (a public key in hex, an address, a number of 64 bits), with these, in their order; otherwise it returns an error and does nothing. It returns the error of the call, and no error if there is none.',
  ['inputs', 'histories'], 'every input line, every argument and outcome of a call',
  'the client has no tests: a command wired to its neighbour, arguments swapped or an error dropped show only in use.',
  ['cmd/cxocli/cxocli.go'], [('mapping, commands, executeCommand, prefixLength', 'cmd/cxocli/cxocli.go'), ('args*, pubKeyFromHex and the commands', 'cmd/cxocli/cxocli.go')],
  'the table is read from the run of its constructor and compared with a table of operations; each command is run by path-sensitive abstract interpretation with arbitrary words: method, arguments by origin, parse errors and the error of each exit are compared; the choice of a command is judged by rounds of its loops and its exits',
  'decides every path; what is printed, the prompt and the history are left out; RPC itself is N07'),
]
NA = []
