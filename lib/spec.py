"""The properties, which harnesses decide each of them, and within which bounds.
gen.py writes properties.jsonl and MANIFEST.json from this file; check.py runs it."""
CHECKS = {}
NOT_APPLICABLE = []


def H(file, entries, quick=None, thorough=None, **kw):
    return dict(file=file, entries=entries.split(), quick=quick or {}, thorough=thorough or {}, **kw)


def P(pid, title, statement, over, text, why, files, mech, harnesses, bounds, assumptions=(), **kw):
    CHECKS[pid] = dict(title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                       mech=mech, harnesses=harnesses, bounds=bounds, assumptions=list(assumptions), **kw)


def NA(pid, title, statement, over, text, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(pid=pid, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech, reason=reason))


P("P01", "Client requests and transactions survive serialization unchanged",
  "Every request keeps its exact arguments and its command identity, in whatever upper/lower case the command was spelled, and unknown commands are never mistaken for known ones. A transaction of any requests that is serialized, replicated and decoded again contains the same requests, in the same order, with the same byte contents, and is recognised as the same kind (read or write); bytes that are not exactly such a transaction are refused.",
  "inputs programs", "all command spellings, all argument bytes, all transactions of up to N requests",
  "tests try a handful of literal commands and transactions; argument bytes, lengths and letter case are unbounded",
  "src/RedisRequest.cc src/RedisRequest.hh src/Commands.cc src/redis/Transaction.cc src/memory/PinnedBuffer.hh",
  [("command lookup", "src/Commands.cc: RedisCommand lookup, caseInsensitive table"), ("transaction encoding", "src/redis/Transaction.cc: serialize/deserialize/fromRedisRequest/toRedisRequest")],
  [H("request.cc", "tx_roundtrip command_spelling command_unknown tx_garbage", dict(LEN=2, REQS=2), dict(LEN=3, REQS=3, RAW=26))],
  "arguments up to LEN arbitrary bytes, transactions up to REQS requests of up to 2 extra arguments; every command in the table with every letter case; unknown commands by one-byte edits of known names; RAW arbitrary bytes, any one-byte change, truncation or extension of a serialized transaction")

P("P02", "The wire parser returns exactly the requests that were sent, or rejects",
  "Any request encoded in the redis protocol and delivered in any split of its bytes is returned once, byte for byte, in order, and no request is returned before its last byte arrived. Malformed or oversized input (bad marker, negative or zero sizes, missing line ends, unauthenticated clients above the limits) closes the connection with an error and never crashes, reads outside its buffers or invents a request. Bytes handed to the output side arrive once and in order.",
  "inputs schedules", "all byte streams up to a length, all packet boundaries",
  "tests feed a few fixed streams; the guarantee is over all byte streams, all split points and all malformed headers",
  "src/RedisParser.cc src/BufferedReader.cc src/BufferedWriter.cc src/Link.cc src/memory/RingAllocator.hh",
  [("frame parser", "src/RedisParser.cc: fetch, readInteger, readElement"), ("input buffering", "src/BufferedReader.cc: canConsume, consume"), ("output buffering", "src/BufferedWriter.cc")],
  [H("resp.cc", "parse_roundtrip parse_any parse_one parse_count parse_unauth parse_reject reader_stream writer_stream", dict(LEN=2, FUZZ=7), dict(LEN=3, FUZZ=9))],
  "requests of up to 3 arguments of up to LEN arbitrary bytes, up to 2 pipelined; arbitrary streams of FUZZ bytes over the protocol alphabet; arbitrary 2-byte headers; reader with buffers of 1..4 bytes and every arrival pattern; writer around its 16 KiB buffer size",
  ["the socket is a byte queue that delivers any prefix; TLS is not in use"])

P("P03", "Replies are well-formed protocol values that carry exactly the data",
  "Every reply the server produces decodes, under the redis protocol, to exactly one value holding exactly the intended strings, integers and lists, for any bytes in them. Push-type and plain array variants differ only in the leading marker.",
  "inputs", "all reply kinds, all contents",
  "tests compare a few literal strings; contents are arbitrary bytes and integers",
  "src/Formatter.cc src/redis/ArrayResponseBuilder.cc",
  [("reply encoding", "src/Formatter.cc"), ("array building", "src/redis/ArrayResponseBuilder.cc")],
  [H("resp.cc", "format_basic format_integer format_pubsub format_raft format_tx", dict(LEN=2), dict(LEN=4))],
  "strings up to LEN arbitrary bytes, lists up to 2-3 elements, integers -1024..1023 and the 64-bit edges; error and status texts without line breaks",
  ["error and status texts contain no CR/LF (the protocol cannot carry them)"])

P("P04", "Different keys, fields and kinds of data never share storage",
  "The stored location of an entry determines its kind, key and field uniquely: distinct keys, distinct fields and distinct kinds never collide, and no entry lies inside the range of another key. Stored integers and expiration times sort in numeric order and descriptors read back exactly as written.",
  "inputs", "all keys and fields of any bytes, including the separator and escape characters",
  "tests use a few alphanumeric keys; collisions need particular separator/escape bytes at particular places",
  "src/storage/KeyLocators.hh src/storage/ReverseLocator.hh src/storage/KeyDescriptor.hh src/storage/InternalKeyParsing.cc src/utils/IntToBinaryString.hh",
  [("key layout", "src/storage/KeyLocators.hh"), ("decoding", "src/storage/ReverseLocator.hh"), ("descriptor encoding", "src/storage/KeyDescriptor.hh")],
  [H("keys.cc", "key_roundtrip kf_key_roundtrip loc_roundtrip key_isolation kf_key_isolation loc_isolation key_flat key_expiry_order int_order descriptor_roundtrip", dict(KL=2, FL=2, PL=3), dict(KL=3, FL=3, PL=4))],
  "keys up to KL bytes, fields and hints up to FL bytes, every byte value; all 64-bit integers; all descriptor values",
  ["keys that end with the separator '|' and fields that start with '#' after such a key are a known, recorded collision and decided separately (kf_ entries)"])

P("P05", "Reusing key buffers never corrupts memory or the encoded key",
  "Building storage keys of any size, and re-using the same builder for other fields, hints and keys, gives the same bytes as building them afresh, and never touches memory outside the buffer.",
  "inputs histories", "all sizes around the inline buffer limit, all reuse sequences of bounded length",
  "tests use short keys only; the failures need sizes at the inline/heap boundary in a particular order",
  "src/utils/SmartBuffer.hh src/storage/KeyLocators.hh src/utils/StaticBuffer.hh",
  [("inline/heap buffer", "src/utils/SmartBuffer.hh: expand, shrink, resize"), ("reuse", "src/storage/KeyLocators.hh: resetField, resetHint, resetKey")],
  [H("keys.cc", "locator_reuse locator_reuse_loc", dict(KL=2, FL=2, PL=3), dict(KL=3, FL=3, PL=4))],
  "key sizes 1, 508..510, 530, field sizes 0, 1, 2, 3, 520, 600, two reuses, first byte symbolic")

P("P06", "Glob patterns match exactly what they describe",
  "Pattern matching agrees with the documented glob meaning of *, ?, [class], [^class], ranges and escapes, never reads outside the pattern or the string, and the literal prefix used to narrow a scan never excludes a key the pattern matches.",
  "inputs", "all patterns and strings up to a length",
  "tests use a few patterns; over-reads and prefix mismatches need unusual ones such as an unterminated class",
  "deps/StringMatchLen.h src/storage/PatternMatching.hh",
  [("matcher", "deps/StringMatchLen.h: stringmatchlen"), ("scan prefix", "src/storage/PatternMatching.hh: extractPatternPrefix")],
  [H("keys.cc", "pattern_prefix pattern_glob pattern_class", dict(KL=2, FL=2, PL=3), dict(KL=3, FL=3, PL=4))],
  "patterns up to PL characters over the pattern alphabet, strings up to 3 bytes")

P("P07", "The raft log changes only by legal steps and always reads back exactly",
  "An entry is accepted only at the end of the log and with a term between that of the last entry and the current one; committed entries are never removed, uncommitted ones never trimmed, and the commit index only moves forward over existing entries. Whatever was appended is returned byte for byte by every way of reading the log (fetch, compare, iterate, scan), before and after the server is restarted.",
  "histories inputs", "all operation sequences up to a length, all terms, all contents",
  "tests replay one or two fixed histories; the guarantee is over all operation orders and all 64-bit terms",
  "src/raft/RaftJournal.cc src/raft/RaftJournal.hh src/raft/RaftCommon.hh",
  [("log updates", "src/raft/RaftJournal.cc: appendNoLock, removeEntries, setCommitIndex, trimUntil, commitBatch"), ("reads", "src/raft/RaftJournal.cc: fetch, compareEntries, matchEntries, Iterator, scanContents")],
  [H("journal.cc", "journal_ops journal_history journal_reads", dict(OPS=2, HOPS=2), dict(OPS=3, HOPS=3))],
  "OPS operations on a fresh log, HOPS on a log with 3 entries and 0..3 committed; 8 kinds of operation, symbolic 64-bit terms and entry bytes, indices from one before to one past the log",
  ["RocksDB is the ordered in-memory store of rt/fake/rocksdb"])

P("P08", "A server's term never goes back and its vote in a term never changes",
  "The recorded term only increases and, within a term, the recorded vote changes only from none to one server. An acknowledged term and vote survive any later power failure, and an interrupted update is either entirely there or entirely absent.",
  "histories crash_points", "all sequences of updates, all 64-bit terms, a crash at each write keeping any unsynced prefix",
  "tests never interrupt a write; two votes in one term need a crash between vote and sync",
  "src/raft/RaftJournal.cc src/raft/RaftState.cc",
  [("vote persistence", "src/raft/RaftJournal.cc: setCurrentTerm, commitBatch(sync)")],
  [H("journal.cc", "journal_votes", dict(VOPS=3), dict(VOPS=4))],
  "VOPS updates with symbolic 64-bit terms and 3 vote choices, each optionally interrupted before or after its write, power failure after any update",
  ["the default fsync policy (sync important updates); RocksDB's write-ahead log keeps a prefix of unsynced batches"])

P("P09", "After a crash at any point the log reopens in a state it had reached",
  "If the process or machine dies at any write, the reopened log equals the log after some prefix of the operations, at least as new as the last acknowledged synced one, with all counters consistent with the entries.",
  "crash_points histories", "all operation sequences up to a length, every write as crash point, every surviving prefix of unsynced data",
  "no test interrupts the process inside an operation",
  "src/raft/RaftJournal.cc src/utils/FsyncThread.cc",
  [("atomic batches", "src/raft/RaftJournal.cc: commitBatch, appendNoLock, removeEntries"), ("recovery", "src/raft/RaftJournal.cc: initialize")],
  [H("journal.cc", "journal_crash", dict(CRASHOPS=3), dict(CRASHOPS=4))],
  "CRASHOPS operations (append, commit, term/vote, remove, membership) on a 3-entry log, crash before or after any write, process or power failure, every prefix of unsynced batches",
  ["RocksDB batches are atomic and its log keeps a prefix; a synced batch makes everything before it durable"])

P("P10", "Cluster membership changes take effect at once and roll back exactly",
  "A membership change is accepted only if it is valid for the current members and the previous change is committed; it takes effect with its log entry, and removing that uncommitted entry restores exactly the previous members and epoch. Restarting the server never changes the members.",
  "histories", "all sequences of membership changes, truncations and commits up to a length",
  "tests make one or two changes; rollback of an uncommitted change is hardly exercised",
  "src/raft/RaftJournal.cc src/raft/RaftMembers.hh",
  [("membership updates", "src/raft/RaftJournal.cc: membershipUpdate, appendNoLock, removeEntries"), ("member lists", "src/raft/RaftMembers.hh")],
  [H("journal.cc", "journal_members", dict(MOPS=3), dict(MOPS=4))],
  "MOPS steps of {add observer, promote, demote, remove, truncate, commit} on a 3-node cluster, symbolic 64-bit terms")

P("P11", "Raft roles change only legally: one vote and one leader per term",
  "A server votes at most once per term (also across restarts and power failures), only as a follower that knows no leader; it becomes leader only as a candidate of that term, after writing its leadership marker, and never changes the leader it recognised for a term. Terms never go back, and term and vote are on disk before they are visible; concurrent callers see the transitions one after the other without data races.",
  "histories schedules crash_points", "all sequences and interleavings of state transitions up to a bound",
  "tests walk single fixed sequences and cannot steer interleavings",
  "src/raft/RaftState.cc src/raft/RaftState.hh",
  [("transitions", "src/raft/RaftState.cc: observed, grantVote, becomeCandidate, ascend, dropOut"), ("snapshot publication", "src/raft/RaftState.cc: updateSnapshot")],
  [H("raftstate.cc", "state_ops state_election", dict(OPS=3), dict(OPS=4)), H("raftstate.cc", "state_threads", dict(PRE=2), dict(PRE=4), threads=True, opts=["--races"])],
  "OPS transitions with symbolic 64-bit terms, 3 servers, restarts with power failure; two concurrent calls with up to PRE preemptions at lock and atomic operations, with happens-before race detection",
  ["sequentially consistent memory"])

P("P12", "An entry is committed exactly when a majority of voting members has it",
  "The leader's commit index advances to an entry only when a majority of the current voting members (the leader included) stores it, and does so as soon as they do. Observers and removed members never count, what earlier leaderships acknowledged is forgotten, the commit index never goes back, and a single-member cluster commits by itself.",
  "inputs histories schedules", "all acknowledgement sequences, match indexes, cluster sizes and membership changes up to a bound",
  "tests exercise one fixed acknowledgement sequence each; quorum arithmetic depends on the cluster size and on the order",
  "src/raft/RaftCommitTracker.cc src/raft/RaftCommitTracker.hh src/raft/RaftJournal.cc",
  [("quorum computation", "src/raft/RaftCommitTracker.cc: recalculateCommitIndex, updateTargets"), ("self commit", "src/raft/RaftCommitTracker.cc: runAutoCommit")],
  [H("raftquorum.cc", "commit_size commit_quorum commit_targets", dict(OPS=3, NT=4, LOGN=4), dict(OPS=4, NT=5, LOGN=5)), H("raftquorum.cc", "commit_single commit_threads", dict(PRE=2), dict(PRE=3), threads=True, opts=["--races"])],
  "2..NT+1 members, OPS acknowledgements in any order (all members once in any cluster size) with symbolic match indexes up to LOGN, membership and leadership changes among 3 members; two concurrent acknowledgements")

P("P13", "Leases, election time-outs and vote counts follow the majority",
  "A leader's lease extends from the latest time at which a majority was in contact, and the quorum is reported shaky exactly when losing one more member would end it. An election is won exactly with a majority of granted votes and no veto, network errors never count as votes, and a server stands for election exactly when it has not heard from a leader for its time-out.",
  "inputs histories", "all contact times, votes and cluster sizes up to a bound",
  "tests use a few fixed times and vote patterns", "src/raft/RaftLease.cc src/raft/RaftVoteRegistry.cc src/raft/RaftTimeouts.cc",
  [("lease", "src/raft/RaftLease.cc: getNthLease"), ("vote counting", "src/raft/RaftVoteRegistry.cc: determineOutcome, observeTermsAndLeases"), ("time-outs", "src/raft/RaftTimeouts.cc")],
  [H("raftquorum.cc", "lease_deadline lease_contact lease_targets lease_single heartbeat_timeout timeouts_text vote_outcome vote_observe", dict(NT=4, OPS=3), dict(NT=5, OPS=5))],
  "up to NT other members with symbolic 60-bit contact times, every combination of votes and errors, OPS time-out queries")

SM = "the database is the ordered in-memory store of rt/fake/rocksdb (snapshots, iterators, atomic batches)"

P("P14", "Strings, generic key commands and settings do what they say",
  "SET, GET, DEL, EXISTS, TYPE, KEYS, FLUSHALL and the CONFIG commands give, for every history of commands, exactly the replies and the content a plain map of typed keys gives, alone, through the replicated log, inside a transaction and after a restart. A command on a key of another type fails and changes nothing; a deleted key leaves nothing behind.",
  "histories inputs", "all command sequences up to a length over every kind of key, arbitrary value bytes",
  "tests run fixed sequences; wrong sizes, types or leftovers need particular orders of commands of different types",
  "src/StateMachine.cc src/Dispatcher.cc src/storage/StagingArea.hh src/storage/KeyDescriptor.hh",
  [("commands", "src/Dispatcher.cc: dispatchingHelper"), ("operations", "src/StateMachine.cc: set, get, del, exists, flushall, WriteOperation")],
  [H("sm.cc", "sm_string", dict(OPS=2, PRE=1), dict(OPS=3, PRE=2))],
  "any state made by up to PRE commands, then OPS of 15 commands over 2 keys with arbitrary bytes as values, one by one through the log or in one transaction, then a restart", [SM])

P("P15", "Hashes behave as maps, and counters as exact integers",
  "Every hash command replies and acts as on a map from fields to values, including its size, for every history of commands, alone, through the log, in a transaction and after a restart. HINCRBY adds exactly or fails without changing anything.",
  "histories inputs", "all command sequences up to a length, arbitrary values and increments",
  "tests run fixed sequences; a wrong size or a lost field needs repeated or missing fields in particular orders",
  "src/StateMachine.cc src/Dispatcher.cc src/utils/ParseUtils.hh",
  [("hash operations", "src/StateMachine.cc: hset, hmset, hsetnx, hdel, hclone, hincrby, hgetall")],
  [H("sm.cc", "sm_hash sm_hincr", dict(OPS=2, PRE=1), dict(OPS=3, PRE=1)), H("sm.cc", "sym_hash", dict(OPS=2, PRE=1), dict(OPS=2, PRE=1, KB=2))],
  "any state made by up to PRE commands, then OPS of 15 (9 for counters) commands over 2 keys and 2-3 fields, arbitrary bytes as values; OPS of 7 commands with two keys and two fields of one arbitrary byte each", [SM])

P("P16", "Sets behave as mathematical sets",
  "SADD, SREM, SMOVE, SISMEMBER, SMEMBERS and SCARD reply and act as on sets of byte strings, for every history of commands, alone, through the log, in a transaction and after a restart. Sizes always equal the number of members and an empty set does not exist.",
  "histories inputs", "all command sequences up to a length", "tests run fixed sequences; sizes go wrong with repeated members or moves onto the same key",
  "src/StateMachine.cc src/Dispatcher.cc", [("set operations", "src/StateMachine.cc: sadd, srem, smove, sismember, smembers, scard")],
  [H("sm.cc", "sm_set", dict(OPS=2, PRE=1), dict(OPS=3, PRE=1)), H("sm.cc", "sym_set", dict(OPS=2, PRE=1), dict(OPS=2, PRE=1, KB=2))],
  "any state made by up to PRE commands, then OPS of 14 commands over 2 keys and 3 members; OPS of 8 commands with two keys and two members of one arbitrary byte each", [SM])

P("P17", "Deques keep every item in order at both ends",
  "Pushing, popping, trimming, clearing and listing a deque replies and acts as on a double-ended queue, for every history of commands, alone, through the log, in a transaction and after a restart. No item is lost, duplicated or reordered and an emptied deque does not exist.",
  "histories inputs", "all command sequences up to a length, arbitrary items", "tests run fixed sequences; index arithmetic goes wrong after particular mixes of both ends and trims",
  "src/StateMachine.cc src/Dispatcher.cc src/storage/KeyDescriptor.hh", [("deque operations", "src/StateMachine.cc: dequePush, dequePop, dequeTrimFront, dequeClear, dequeScanBack")],
  [H("sm.cc", "sm_deque", dict(OPS=2, PRE=1), dict(OPS=4, PRE=1)), H("scan.cc", "scan_deque", dict(ITEMS=3, NL=2), dict(ITEMS=5, NL=2))],
  "up to PRE+OPS of 14 commands with up to 3 items each, then the content read and popped off both ends; pages of every size over up to ITEMS+1 items", [SM])

P("P18", "Locality hashes keep each field once, under its latest hint",
  "Every LH command, and the commands that move fields between hashes and locality hashes, replies and acts as on a map from fields to a value and a hint. Changing a hint never leaves the old entry behind, whichever hint a reader gives, for every history, alone, through the log, in a transaction and after a restart.",
  "histories inputs", "all command sequences up to a length", "tests run fixed sequences; stale index entries need a hint change followed by particular deletions",
  "src/StateMachine.cc src/Dispatcher.cc src/storage/KeyLocators.hh", [("locality hashes", "src/StateMachine.cc: lhset, lhmset, lhdel, lhlocdel, lhget, rawGetOptional"), ("fallback commands", "src/Dispatcher.cc: LHSET_AND_DEL_FALLBACK, CONVERT_HASH_FIELD_TO_LHASH")],
  [H("sm.cc", "sm_lhash", dict(OPS=2, PRE=1), dict(OPS=3, PRE=1)), H("sm.cc", "sym_lhash", dict(OPS=2, PRE=1), dict(OPS=2, PRE=1, LKEYS=1))],
  "any state made by up to PRE commands, then OPS of 17 commands over 2 keys, 2 fields and 2 hints, arbitrary values; OPS of 8 commands with two fields and hints of one arbitrary byte each", [SM])

P("P19", "Versioned hashes count every change exactly once",
  "A versioned hash acts as a map whose version grows by exactly one with each command or transaction that changes it, and not otherwise, for every history, alone, through the log, in a transaction and after a restart.",
  "histories inputs", "all command sequences up to a length", "tests run fixed sequences; double or missed version steps need several changes in one transaction, or changes that do nothing",
  "src/StateMachine.cc src/storage/VersionedHashRevisionTracker.cc src/storage/StagingArea.hh", [("versioned hashes", "src/StateMachine.cc: vhset, vhdel, vhgetall"), ("revision tracking", "src/storage/VersionedHashRevisionTracker.cc")],
  [H("sm.cc", "sm_vhash", dict(OPS=2, PRE=1), dict(OPS=3, PRE=1))],
  "any state made by up to PRE commands, then OPS of 12 commands over 2 keys and 3 fields, arbitrary values", [SM])

P("P20", "A lease belongs to one holder until it is released or expires",
  "A lease can be acquired only when free and extended only by its holder, and it lasts exactly until its deadline by the clock of the log, which never goes back, or until it is released. Expired leases are gone for every command, pending expirations are listed in order, and a restart changes none of this.",
  "histories inputs", "all sequences of lease commands up to a length, all times and durations in range",
  "tests use a few fixed times; expiry boundaries and index clean-up depend on the numeric relation of several times",
  "src/StateMachine.cc src/storage/ExpirationEventCache.cc src/storage/ExpirationEventIterator.hh src/storage/LeaseInfo.hh src/utils/IntToBinaryString.hh",
  [("leases", "src/StateMachine.cc: lease_acquire, lease_get, lease_release, advanceClock"), ("expiration index", "src/storage/ExpirationEventCache.cc, ExpirationEventIterator.hh")],
  [H("lease.cc", "lease_ops lease_mixed lease_reopen", dict(OPS=2), dict(OPS=2, WIDE=1))],
  "OPS+1 commands over 2 keys and 2 holders; times symbolic in a 65536-wide window that spans a byte carry (any 62-bit time in the thorough tier), durations symbolic", [SM])

P("P21", "Scans return every item once, whatever the page size",
  "Following the cursors of SCAN, SSCAN, HSCAN and LHSCAN returns each item that is present throughout exactly once, and nothing that does not belong to the key or does not match the pattern, with pages of at most the requested size, even when other items come and go meanwhile. KEYS with a pattern returns exactly the matching keys.",
  "inputs histories", "all contents over the separator alphabet, page sizes, patterns and one concurrent change",
  "tests scan one fixed content; skipped or repeated items need particular names, page boundaries and patterns",
  "src/StateMachine.cc src/Dispatcher.cc src/storage/PatternMatching.hh src/utils/CommandParsing.hh",
  [("scans", "src/StateMachine.cc: scan, hscan, sscan, lhscan, keys"), ("cursors", "src/utils/CommandParsing.hh: parseScanCommand")],
  [H("scan.cc", "scan_set scan_hash scan_keys scan_lhash", dict(ITEMS=3, NL=2), dict(ITEMS=4, NL=2))],
  "up to ITEMS names of up to NL characters out of {a # | *}, 14 patterns, pages of 1..ITEMS, one addition or removal between two pages, arbitrary values", [SM])

P("P22", "Transactions are all-or-nothing for every concurrent reader",
  "A reader running at the same time as a write transaction sees either all of its changes or none, inside one read transaction always the same state, and once a change has been seen it stays.",
  "schedules", "all interleavings of a write transaction with two read transactions up to a number of preemptions", "tests do not steer interleavings",
  "src/Dispatcher.cc src/storage/StagingArea.hh src/StateMachine.cc", [("transactions", "src/Dispatcher.cc: dispatch(Transaction)"), ("snapshots", "src/storage/StagingArea.hh")],
  [H("txiso.cc", "tx_isolation", dict(SWITCHES=2), dict(SWITCHES=4), threads=True)],
  "one write transaction over three keys of different types and two read transactions in another thread, up to SWITCHES preemptions", [SM, "sequentially consistent memory"])

P("P23", "Each log entry is applied to the data exactly once, all or nothing",
  "Applying entry n brings the data from exactly the state after n-1 to the state after n and records n with it, in one step that a crash or a failed write leaves either entirely there or entirely absent. An entry out of order is refused and changes nothing, and applying the log again after a crash gives the same data as without it.",
  "crash_points histories", "all logs up to a length, every crash point and failed write, every surviving prefix", "no test interrupts the application of an entry",
  "src/StateMachine.cc src/Dispatcher.cc src/storage/StagingArea.hh src/redis/Transaction.cc", [("commit", "src/StateMachine.cc: commitBatch, commitTransaction"), ("application", "src/Dispatcher.cc: dispatch")],
  [H("apply.cc", "apply_crash apply_order apply_fault", dict(OPS=2), dict(OPS=3))],
  "logs of OPS entries out of 10 commands and 4 transactions with arbitrary values, a crash before or after each write with any surviving prefix of unsynced writes, a failing write, any entry index from -2 to 6", [SM, "RocksDB batches are atomic and its log keeps a prefix of unsynced batches"])

P("P24", "No client command can crash the server or half-change the data",
  "Every command, with any number of arguments and any argument bytes, on a key of any type, gets exactly one reply, never brings the server down, and when the reply is an error the data is exactly as before. Afterwards the key can still be deleted and used again.",
  "inputs", "all commands, argument counts, kinds of key and ways of execution; argument bytes up to a length", "tests send well-formed commands; a crash of one node applying the log is a crash of all",
  "src/Dispatcher.cc src/StateMachine.cc src/utils/CommandParsing.hh src/utils/ParseUtils.hh src/storage/KeyLocators.hh",
  [("argument checks", "src/Dispatcher.cc: dispatchingHelper"), ("locators", "src/storage/KeyLocators.hh")],
  [H("small.cc", "any_write any_read", dict(MAXARGS=3, EXTRA=3), dict(MAXARGS=4, EXTRA=2))],
  "59 commands with 0..5 arguments, each of the first MAXARGS being empty, an arbitrary byte, a number, the key or a cursor, on a key of each of 7 kinds, alone, through the log and in a transaction", [SM])

P("P25", "Pipelined requests are answered one by one, in order",
  "Whatever requests a client sends, and however the network cuts them into packets, it gets exactly one reply per request, in order, and the same replies and effects as if each request had been sent alone. MULTI .. EXEC runs its requests together at EXEC, or not at all, and transactions sent in serialized form are held to the same rules.",
  "inputs histories", "all pipelines of up to REQS requests, all packet boundaries considered, all batch sizes", "tests pipeline a few fixed sequences; batching depends on what precedes and follows, and where packets end",
  "src/Connection.cc src/Connection.hh src/redis/MultiHandler.cc src/redis/InternalFilter.cc src/redis/ArrayResponseBuilder.cc src/Dispatcher.cc src/StandaloneGroup.cc",
  [("request loop", "src/Connection.cc: processRequests"), ("transactions", "src/redis/MultiHandler.cc"), ("serialized transactions", "src/redis/Transaction.cc: deserialize")],
  [H("conn.cc", "conn_replies conn_stop conn_tx", dict(REQS=3), dict(REQS=4))],
  "REQS requests out of 12 (reads, writes, wrong types, wrong argument counts, MULTI, EXEC, DISCARD, unknown, not allowed), a packet boundary after or 3 bytes before the end of each, batch limits 1, 2, 100; serialized transactions of up to 2 requests out of 13", [SM, "the socket delivers any prefix; the model of a connection is written from the protocol, request by request"])

P("P26", "Clients of a raft leader see only committed writes, each answered once",
  "A write is answered only after its entry is committed and applied, with the result of executing the committed entries in order; a read sees every write its client was answered and every write it sent before. When leadership is lost, each outstanding request gets one error or redirection and the replies stay aligned with the requests, whatever leaders, commits and disconnections follow.",
  "histories schedules", "all histories of client requests, acknowledgements, leader changes and disconnections up to OPS steps", "tests run one leader and happy clients; losing leadership with requests in flight needs particular orders",
  "src/raft/RaftDispatcher.cc src/raft/RaftWriteTracker.cc src/raft/RaftBlockedWrites.cc src/Connection.cc src/raft/RaftCommitTracker.cc",
  [("write tracking", "src/raft/RaftWriteTracker.cc: append, flushQueues, applyCommits"), ("pending replies", "src/Connection.cc: PendingQueue"), ("serving", "src/raft/RaftDispatcher.cc: service, appendEntries")],
  [H("node.cc", "node_basic node_clients", dict(OPS=4), dict(OPS=5), threads=True)],
  "one real node (journal, state, write tracker, state machine) of three, two clients, OPS steps: any of 5 batches of pipelined or MULTI requests, commit of one or all entries, take-over by another leader that keeps or replaces any uncommitted suffix, re-election, disconnection", [SM, "threads run in one fixed fair schedule; the other two nodes are any that follow the raft rules"])

P("P27", "The server answers anyone, and obeys only those who are allowed",
  "Every command with any arguments gets exactly one well-formed reply and leaves the connection usable, on a standalone server, a raft leader, and a follower with or without a leader. With a password set, a remote client gets nothing but errors until it proves that it knows the password, by AUTH or by signing a fresh challenge, once and within the time limit; a failed attempt takes its permission away.",
  "inputs histories", "all commands and argument lists in range, all sequences of STEPS authentication steps, passwords and signatures differing in any one byte position considered", "tests send valid requests from authenticated clients",
  "src/QuarkDBNode.cc src/Shard.cc src/auth/AuthenticationDispatcher.cc src/redis/Authenticator.cc src/raft/RaftDispatcher.cc src/Connection.cc src/Formatter.cc src/Configuration.cc",
  [("gate", "src/QuarkDBNode.cc: isAuthenticated, dispatch"), ("challenge", "src/redis/Authenticator.cc"), ("commands", "src/Shard.cc, src/raft/RaftDispatcher.cc: dispatch")],
  [H("server.cc", "server_any server_auth server_first", dict(ARGS=2, WITH=0, STEPS=3), dict(ARGS=3, WITH=0, STEPS=4), threads=True), H("server.cc", "server_ctx", dict(ARGS=1, MODES=2), dict(ARGS=2, MODES=4), threads=True)],
  "143 command names with up to ARGS arguments out of 6 forms (an arbitrary byte among them), 4 kinds of server; the same within MULTI, after keys of 3 types were written, on a raft-authorized connection, followed by a pipelined read; STEPS steps out of 10 (commands, AUTH, challenges, time passing)", [SM, "HMAC-SHA256 is a fixed function of key and text during symbolic execution", "DEBUG subcommands that kill the server on purpose are not sent"])

P("P28", "Subscribers get every message of their subscriptions, once, in order",
  "A message reaches every connection subscribed to its channel or to a matching pattern exactly once, in the order of publication, whatever subscribes, unsubscribes, disconnects or is cut off meanwhile, and nobody else; the publisher learns how many got it. Every transaction that changes a versioned hash is announced once, with its version and changes. Iterating over the subscriptions always ends.",
  "histories schedules inputs", "all histories of OPS steps with any payload; all interleavings of two publications with another action up to a number of preemptions; all changes between two steps of an iteration", "tests subscribe one or two clients and publish a few messages; iteration in stages over a map that changes needs particular stages and removals",
  "src/pubsub/Publisher.cc src/pubsub/ThreadSafeMultiMap.hh src/pubsub/SimplePatternMatcher.hh src/pubsub/SubscriptionTracker.cc src/Connection.cc src/storage/VersionedHashRevisionTracker.cc",
  [("publisher", "src/pubsub/Publisher.cc"), ("staged iteration", "src/pubsub/ThreadSafeMultiMap.hh: FullIterator, MatchIterator, KeyIterator"), ("announcement of changes", "src/storage/VersionedHashRevisionTracker.cc, src/Dispatcher.cc: dispatch")],
  [H("pubsub.cc", "pubsub_ops", dict(OPS=3), dict(OPS=4)), H("pubsub.cc", "multimap_iterate", dict(CHANGES=1), dict(CHANGES=2)), H("pubsub.cc", "pubsub_vhash", dict(OPS=2), dict(OPS=2), threads=True), H("pubsub.cc", "pubsub_threads", dict(SWITCHES=2), dict(SWITCHES=4), threads=True, opts=["--races"])],
  "OPS steps out of 8 kinds by 2 subscribers and one publisher over 3 channels and 4 patterns; maps of up to 6 entries with CHANGES insertions or removals in between; OPS writes or transactions on 2 versioned hashes; 2 publications against one of 6 concurrent actions, up to SWITCHES preemptions", [SM, "sequentially consistent memory, with a data-race check on every access"])

P("P29", "A configuration file means exactly what its option lines say",
  "A configuration is accepted exactly when every redis.* line in it names a known option with a legal value and the options fit together, and the server then runs with those values and no others, whatever other lines, spacing or order the file has. A password is read from a file only if nobody but its owner may read it. Server names that are accepted can be stored in a list and read back.",
  "inputs", "all files of up to LINES option lines in 11 forms; values and files of up to LEN arbitrary bytes", "tests parse a handful of files; wrong option matching, missing values and odd white space need other ones",
  "src/Configuration.cc src/Configuration.hh src/config/ConfigurationReader.cc src/config/ConfigurationReader.hh src/utils/FileUtils.cc src/Utils.cc src/utils/ParseUtils.hh",
  [("options", "src/Configuration.cc: fromReader, isValid"), ("words and lines", "src/config/ConfigurationReader.cc"), ("password file", "src/utils/FileUtils.cc: readPasswordFile, areFilePermissionsSecure"), ("servers", "src/Utils.cc: parseServer, parseServers")],
  [H("config.cc", "config_options config_bytes config_reader config_password server_names server_port", dict(LINES=2, LEN=5, PORT=2), dict(LINES=3, LEN=7, PORT=3))],
  "LINES option lines of 10 options in up to 11 forms (plain, without value, with a longer, shorter or prefixed name, commented out, not at the start, odd spacing, no newline at the end) on top of a minimal file; values, whole texts, server lists and password files of up to LEN arbitrary bytes; all 512 permission bits; ports made of 7 prefixes and PORT arbitrary digits", ["a file is read as its bytes, or reading fails"])
P("P30", "A shard's data survives creation, snapshots, checkpoints and resilvering whole",
  "A shard opens with exactly the data and the history of resilverings it was created with, and a snapshot or checkpoint of it is a consistent copy in which no applied entry is missing from the journal and which removes nothing but itself. Resilvering replaces the data of a node, all of it or none, whatever file operation or message fails on the way, keeps the replaced data, and is reported as successful only if it was. Crashing in the middle never loses the old data.",
  "crashes", "every single failing or crashing file operation among the first POINTS, as well as every lost message, during creation, snapshot, copy and resilvering", "tests resilver only between healthy nodes on a healthy file system",
  "src/ShardDirectory.cc src/ShardDirectory.hh src/Shard.cc src/utils/FileUtils.cc src/utils/Resilvering.cc src/utils/Resilvering.hh src/utils/DirectoryIterator.cc src/raft/RaftResilverer.cc src/raft/RaftTalker.cc",
  [("creation, snapshots, switching", "src/ShardDirectory.cc"), ("sending", "src/raft/RaftResilverer.cc"), ("receiving", "src/Shard.cc: QUARKDB_*RESILVERING*"), ("files", "src/utils/FileUtils.cc"), ("history", "src/utils/Resilvering.cc")],
  [H("shard.cc", "resilvering_history file_write file_count shard_create shard_resilver shard_checkpoint", dict(LEN=3, POINTS=24), dict(LEN=4, POINTS=32)),
   H("shard.cc", "resilver_nodes", dict(POINTS=24), dict(POINTS=40), threads=True)],
  "one fault per history: a file operation fails outright, writes short, fails on closing, or the process crashes before it, at each of the first POINTS operations; a message or its reply is lost at each of 10 positions; ids of up to LEN arbitrary bytes; 1 to 4 entries with symbolic contents; the threads of two nodes follow one schedule", ["RocksDB recovers what it has synced", "a snapshot has no empty files, which the protocol refuses to carry"])

P("P31", "Trimming removes only old entries that nobody needs, and never stops for good",
  "The log loses only entries from its start that are committed and applied, that leave the configured number of entries, and that no block protects; from the moment a block is in force nothing it protects goes away, however the trimmer is timed. Whatever is configured, trimming and resilvering go on with sensible settings, and valid settings are used exactly as given.",
  "schedules inputs", "all logs of up to ENTRIES+1 entries with any commit and apply positions and settings; all configuration values up to LEN bytes; all interleavings of trimmer, block and applying thread up to SWITCHES preemptions", "tests trim logs of healthy nodes in the background; enforcing a block between check and removal needs one particular schedule",
  "src/raft/RaftTrimmer.cc src/raft/RaftTrimmer.hh src/raft/RaftConfig.cc src/raft/RaftConfig.hh src/raft/RaftJournal.cc src/utils/ParseUtils.hh",
  [("trimmer and blocks", "src/raft/RaftTrimmer.cc"), ("settings", "src/raft/RaftConfig.cc"), ("removal", "src/raft/RaftJournal.cc: trimUntil")],
  [H("trim.cc", "trim_config trim_set", dict(LEN=4), dict(LEN=5)), H("trim.cc", "trim_run", dict(ENTRIES=4), dict(ENTRIES=6), threads=True), H("trim.cc", "trim_block", dict(SWITCHES=3), dict(SWITCHES=4), threads=True)],
  "logs of 2 to ENTRIES+1 entries, keep in 0..2, step in -1..1, up to two blocks enforced, moved and lifted; settings of any LEN bytes; up to SWITCHES preemptions", [SM])


P("P32", "A cluster loses nothing acknowledged and serves nothing stale, whatever fails",
  "At most one node leads in a term, nodes never disagree about a committed entry or find one contradicted, every node's data is exactly what the committed entries up to its last applied one make it, an acknowledged write is committed and stays so, and a read answered anywhere sees every write acknowledged before it was sent and nothing older than an earlier read saw. Once nodes and network work again, the cluster elects a leader, serves writes and brings every node up to date.",
  "crashes schedules", "PHASES consecutive faults out of those below, each single message or reply among LOSSES lost, leaders cut off after any small number of messages, slow replies, restarts and power failures of any set of machines, at the listed moments", "tests run healthy clusters, and stop nodes at a few fixed moments of real time",
  "src/raft/RaftDispatcher.cc src/raft/RaftReplicator.cc src/raft/RaftDirector.cc src/raft/RaftUtils.cc src/raft/RaftLease.cc src/raft/RaftCommitTracker.cc src/raft/RaftWriteTracker.cc src/raft/RaftTalker.cc src/raft/RaftState.cc src/raft/RaftJournal.cc src/raft/RaftVoteRegistry.cc src/raft/RaftGroup.cc",
  [("leading and lease", "src/raft/RaftDirector.cc, src/raft/RaftLease.cc, src/raft/RaftUtils.cc"), ("replication", "src/raft/RaftReplicator.cc, src/raft/RaftCommitTracker.cc"), ("following and clients", "src/raft/RaftDispatcher.cc, src/raft/RaftWriteTracker.cc"), ("durability", "src/raft/RaftJournal.cc")],
  [H("cluster.cc", "cluster_faults cluster_loss cluster_leaders cluster_reads cluster_power", dict(PHASES=2, WHENS=3), dict(PHASES=2, ALLFAULTS=1, FIRST=2, LOSSES=70, CUTS=3, WHENS=9, BLACKOUTS=2), threads=True),
   H("cluster.cc", "cluster_members", dict(NODES=5, EXTRA=1), dict(NODES=5, EXTRA=1), threads=True), H("cluster.cc", "cluster_changes", dict(NODES=4, EXTRA=1, CHANGES=1), dict(NODES=4, EXTRA=1, CHANGES=2), threads=True),
   H("cluster.cc", "cluster_faults cluster_loss cluster_leaders", dict(NODES=3, PHASES=1, LOSSES=1, CUTS=1), dict(NODES=5, PHASES=2, LOSSES=60, CUTS=2), threads=True)],
  "three complete nodes (five in the thorough tier) with all their threads, following one schedule in simulated time; per phase a node isolated, deaf, mute, one link cut, or a node restarted, for 0.4 or 3 s, out of 9 (all 16 in the thorough tier) faults; LOSSES messages, lost on the way there or back, with 3 faults; CUTS leaders each cut off after 0 to 4 messages; replies late by 0, 450 or 900 ms, WHENS moments; any set of machines without power when every write is synced, any single one by default, losing or keeping unsynced parts of journal and data; five servers of which one is promoted while the leader is cut off and the next leader removes or demotes another, with 4 partitions afterwards; CHANGES membership changes out of 5 in a cluster of three and one, each followed by one of 4 faults; the cluster has one key", [SM, "election time-outs take the values the harness picks within their range", "clocks of the nodes run at the same speed", "a message is delivered to one node at a time and not duplicated"])


P("P33", "Messages between servers arrive with exactly the meaning they were sent with",
  "Whatever a server sends to another one (entries, heartbeats, votes, entries asked for, replies to all of them) is understood by the receiver with exactly the terms, positions, names and words the sender meant. Bytes no server of ours would send are refused or decoded as exactly what they say, never read out of bounds, and only peers that name this cluster and its time-outs may send such messages at all.",
  "inputs", "all terms and positions of 64 bits where they travel in binary, and classes of decimal numbers; server names and words up to LEN arbitrary bytes; any RAW bytes as an entry; any replies of up to 3 elements", "tests send a few messages between servers of the same build",
  "src/raft/RaftTalker.cc src/raft/RaftUtils.cc src/raft/RaftCommon.hh src/raft/RaftDispatcher.cc src/Formatter.cc src/utils/IntToBinaryString.hh src/Connection.cc",
  [("encoding", "src/raft/RaftTalker.cc, src/Formatter.cc"), ("decoding", "src/raft/RaftUtils.cc: RaftParser"), ("entries", "src/raft/RaftCommon.hh"), ("handshake", "src/raft/RaftDispatcher.cc")],
  [H("wire.cc", "wire_append wire_fetch", dict(LEN=1, ENTRIES=2), dict(LEN=2, ENTRIES=2)), H("wire.cc", "wire_vote wire_heartbeat wire_replies wire_append_any wire_replies_any", dict(LEN=1, RAW=19), dict(LEN=2, RAW=22)), H("wire.cc", "wire_handshake", threads=True)],
  "up to ENTRIES entries of one or two words of LEN bytes; decimal numbers of one digit, -1, 2^32 and 2^63-2; RAW bytes as a serialized entry; replies of any type of up to 3 elements, nested twice; handshakes with a symbolic cluster name of 2 to 4 bytes, one byte of the time-outs changed at any place, or another number of arguments", ["qclient delivers the words of a request and its reply unchanged", "decimal numbers of 2^63-1 and -2^63 are outside"])

P("P34", "Only safe membership changes are accepted, and status tells the truth",
  "A membership change is accepted exactly if it is sensible, this node is an established leader, no other change is under way and a majority of the members that would remain is up to date; what is accepted gives exactly the members asked for, and what is refused leaves no trace. Health and information of a node name the leader, show every replica as it is, and the overall health is that of the worst indicator.",
  "inputs", "all states of the replicas (offline, unknown, up to date or behind by any number of entries around the limit) in clusters of up to MEMBERS full members and an observer", "tests change members of healthy clusters",
  "src/raft/RaftDispatcher.cc src/raft/RaftCommon.hh src/raft/RaftJournal.cc src/health/HealthIndicator.hh src/StateMachine.cc src/Formatter.cc",
  [("membership changes", "src/raft/RaftDispatcher.cc"), ("up to date", "src/raft/RaftCommon.hh"), ("health", "src/health/HealthIndicator.hh, src/StateMachine.cc, src/raft/RaftDispatcher.cc")],
  [H("status.cc", "member_change", dict(MEMBERS=4), dict(MEMBERS=4), threads=True), H("status.cc", "node_health node_info", threads=True)],
  "one change, followed by another one; 1 to MEMBERS full members and up to one observer; replicas 29973 to 30005 entries behind, offline or unknown; leader, leader whose first entry is not yet committed, follower, no leader; disk healthy, nearly full or failing", [SM, "the status of replicas is what the harness says"])

P("P35", "Shut-down waits for every request in flight, and request counts are exact",
  "Once requests are no longer accepted and the wait for those in flight is over, none is worked on any more and none begins, however threads interleave and whichever processors they run on. The counts of reads, writes and transactions, in total and per interval, are those of the requests there were, and the latest intervals are listed, newest first.",
  "schedules inputs", "all interleavings of two requests and the shut-down up to PRE preemptions, on any processors; all histories of REQS requests, and all statistics", "tests shut down while few requests run, and count a few; a request that begins at the very moment of shut-down is up to the schedule",
  "src/utils/InFlightTracker.hh src/utils/CoreLocalArray.hh src/utils/RequestCounter.cc src/utils/RequestCounter.hh src/utils/Statistics.cc src/utils/Statistics.hh src/Dispatcher.cc",
  [("requests in flight", "src/utils/InFlightTracker.hh"), ("per-processor counters", "src/utils/CoreLocalArray.hh"), ("counts", "src/utils/RequestCounter.cc, src/utils/Statistics.cc")],
  [H("inflight.cc", "inflight_shutdown", dict(PRE=2), dict(PRE=3), threads=True, opts=["--races"]), H("inflight.cc", "inflight_count count_history", dict(REQS=2), dict(REQS=3)), H("inflight.cc", "count_requests", dict(REQS=2), dict(REQS=4), threads=True)],
  "two requests and one shut-down with up to PRE preemptions, sequentially consistent; REQS requests out of four commands and transactions of up to two; up to 3 historical points; processors -1 to 4 where 4 are known", ["sequentially consistent memory"])

P("P36", "Data loaded in bulk is, once finalized, what an ordinary server would hold",
  "Strings, hashes, sets, locality hashes and versioned hashes (and deques pushed at once) loaded in bulkload mode read back after finalizing and restarting as an ordinary server that was given the same commands would show them, and can be changed like any other data. Nothing can be written after finalizing; after a power failure the data is either refused as a whole or complete; and no command crashes the server while loading.",
  "inputs crashes", "all sequences of OPS loading commands, single or in a transaction, on two keys of LEN arbitrary bytes, power failures after finalizing, and every command while loading", "no test reads data loaded by anything but a few commands, and none loses power",
  "src/StateMachine.cc src/storage/KeyDescriptorBuilder.cc src/storage/ReverseLocator.hh src/storage/StagingArea.hh src/storage/KeyLocators.hh src/storage/KeyDescriptor.hh src/Shard.cc src/ShardDirectory.cc src/StandaloneGroup.cc",
  [("finalizing", "src/StateMachine.cc: finalizeBulkload, src/storage/KeyDescriptorBuilder.cc"), ("loading", "src/storage/StagingArea.hh"), ("mode", "src/Shard.cc")],
  [H("bulk.cc", "bulk_load bulk_sequence", dict(OPS=1, LEN=1, MORE=2), dict(OPS=1, LEN=2, MORE=3)), H("bulk.cc", "bulk_any bulk_odd kf_bulk_deque")],
  "two keys that do not end with '|' (P04's finding), each holding one type; OPS commands on any such keys or MORE on two particular ones, one change afterwards; fields f and g; values of one byte; 49 other commands, alone or in a transaction", [SM])
