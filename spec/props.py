PROPS = []
EXTRA_NA = []
# seeded changes caught by another check than their property's
CAUGHT = {}
SCOPE = ''

def P(id, title, statement, forall, why, files, mech, note, over=None, na=None):
    d = dict(id=id, title=title, statement=statement, forall=forall, why=why,
             files=files, mech=mech, note=note)
    if over: d["over"] = over
    if na: d["na"] = na
    PROPS.append(d)

NOTE = ("Exhaustive within the bounds printed in the evidence file (symbolic "
        "execution, unwinding assertions on); nothing is claimed outside them. ")

P("P01", "Integer text is converted exactly or rejected",
  "Converting a number string in base 8, 10 or 16 to any integer type yields "
  "exactly the value written when it is an optional sign followed by digits of "
  "that base and fits the type. Every other string (empty, lone sign, stray "
  "character, out of range, unsupported base) is reported as a parameter "
  "error, never as a wrong number.",
  "every byte string up to the bound, every base, all eleven integer types",
  "the interesting inputs sit at type limits and overflow boundaries; tests "
  "sample a few dozen strings out of 2^160",
  ["libdstr/cvt.c", "libdstr/cvt.h"],
  [("dstr_to* conversions", "libdstr/cvt.c"),
   ("overflow limit check", "libdstr/cvt.c parse_integer")],
  NOTE + "Number strings of up to 5-6 arbitrary bytes after each type-limit "
  "prefix, compared with an independent 128-bit reference.")

P("P03", "UTF-8 and UTF-16 conversion is exact and chunk-independent",
  "Encoding accepts exactly the Unicode scalar values and decoding accepts "
  "exactly well-formed UTF-8 (RFC 3629) or UTF-16, giving back the code points "
  "written. Splitting the input into chunks at any point never changes what "
  "is accepted or decoded.",
  "every code point; every byte string up to the bound; every split point",
  "malformed, overlong and split sequences form a space of 2^40 inputs that "
  "hand-written cases only sample",
  ["libdstr/unicode.c", "libdstr/unicode.h"],
  [("utf8/utf16 encoders and stream decoders", "libdstr/unicode.c")],
  NOTE + "All 2^32 code points; UTF-8 strings to 5 bytes (4 when split), "
  "UTF-16 strings to 8 bytes.")

P("P02", "Base64 and hex round-trip exactly and decode independently of chunking",
  "Encoding any bytes to base64 or hex and decoding gives back the same bytes, "
  "with the line width asked for and the result independent of how the input "
  "was split into pieces. Malformed hex is rejected, never silently truncated, "
  "and a failed or partial operation never writes outside the output buffer.",
  "every byte string and text up to the bound, every split and buffer size",
  "padding, line breaks and leftovers interact with the split position; the "
  "space of (content, split, buffer) is far beyond examples",
  ["libdstr/b64.c", "libdstr/b64.h"],
  [("bin2b64/b642bin stream coders", "libdstr/b64.c"),
   ("bin2hex/hex2bin", "libdstr/b64.c")],
  NOTE + "Binary input to 7 bytes, text to 8 bytes, against reference coders.")

P("P04", "JSON text is accepted exactly per the grammar and means what it says",
  "The parser accepts exactly the JSON grammar, wherever the text is cut into "
  "chunks, and yields one correctly typed and linked node per value and key, "
  "with escapes decoded to the characters meant. Encoding any valid string "
  "produces printable ASCII that parses back to the same string.",
  "every text up to the bound, every listed chunk split, every \\u escape",
  "a hand-written resumable state machine has states only odd inputs reach; "
  "tests sample a few dozen documents",
  ["libdstr/json.c", "libdstr/json.h"],
  [("json_parse_chunk state machine", "libdstr/json.c"),
   ("json_encode", "libdstr/json.c")],
  NOTE + "All texts to 5 bytes, continuations of typical prefixes to 12 bytes.")

P("P05", "String buffers never overrun, and edit exactly the bytes asked for",
  "Every append, copy, insertion, trim, search, split, replacement and "
  "comparison on a string yields exactly the bytes its contract describes and "
  "leaves everything else alone. Writing to a full fixed buffer or failing to "
  "allocate is reported as an error with the string still valid, never as an "
  "overrun, truncation or leak.",
  "every content, buffer size, fill level and allocation failure up to the bound",
  "off-by-one and aliasing errors show only at particular size and content "
  "combinations",
  ["libdstr/common.c", "libdstr/dstr_off.c", "libdstr/common.h"],
  [("dstr_grow, dstr_append, dstr_cmp and friends", "libdstr/common.c"),
   ("splits, recode, leftshift", "libdstr/common.c")],
  NOTE + "Strings to 8 bytes with full byte alphabet.", over=["inputs", "fault_sequences"])

P("P06", "Secrets are wiped from memory before it is released",
  "Strings handled with the zeroizing operations never leave a byte of the "
  "secret in any allocation that is freed or reallocated, on the success and "
  "growth paths. The string's content and bookkeeping are the same as with the "
  "ordinary operations.",
  "every secret, buffer size and growth pattern up to the bound",
  "freed memory is invisible to tests; a missed wipe changes no result",
  ["libdstr/common.c"],
  [("dstr_free0, dstr_grow0, dstr_append0, dstr_zeroize", "libdstr/common.c")],
  NOTE + "Secrets to 4 bytes, growth to 12 bytes; every free is intercepted.")

P("P07", "The ordered index stays sorted, balanced and correctly counted",
  "After any sequence of insertions and removals the ordered index holds "
  "exactly the items put in and not taken out, in key order. Lookup by key, "
  "by position and traversal from any point agree with each other, and the "
  "tree stays balanced so that operations stay logarithmic.",
  "every insertion order and every removal sequence up to the bound",
  "rebalancing after deletion has many shape-dependent cases that depend on "
  "history", ["libdstr/jsw_atree.c", "libdstr/jsw_atree.h"],
  [("insert, erase, skew, split, traversal", "libdstr/jsw_atree.c")],
  NOTE + "4-12 nodes.", over=["histories", "inputs"])

P("P08", "The priority queue and linked lists keep every item in order",
  "The priority queue always returns an item that sorts first among those "
  "present, lets any item be removed, and returns each exactly once. Linked "
  "list operations keep every item in exactly the list and position asked for.",
  "every key assignment, removal and operation sequence up to the bound",
  "heap repair after removing from the middle depends on the relative order of "
  "keys in different branches; lists on aliasing of links",
  ["libdstr/heap.c", "libdstr/link.c"],
  [("heap_put, heap_pop, heap_remove", "libdstr/heap.c"),
   ("link_list_* operations", "libdstr/link.c")],
  NOTE + "5 items; 4 list operations.", over=["histories", "inputs"])

P("P09", "The hash map behaves as a map under any history, including growth",
  "After any sequence of insertions, replacements, deletions and pops, lookups "
  "by number or string key find exactly the current entries, replaced and "
  "removed elements are handed back exactly once, and iteration visits every "
  "entry once even while entries are removed or the table grows.",
  "every operation sequence up to the bound, keys colliding or not",
  "bucket chains, key-type mixing and growth interact; tests use fixed keys",
  ["libdstr/hashmap.c", "libdstr/hashmap.h"],
  [("insert, get, delete, iteration, growth", "libdstr/hashmap.c")],
  NOTE + "2 operations (thorough 3) over 12 keys of both kinds, one growth.",
  over=["histories", "inputs"])

P("P22", "The mailbox log survives a crash at any point, and its compaction",
  "Whatever point the machine stops at, reopening a mailbox shows every "
  "message, expunge and modification-sequence update recorded before the last "
  "completed operation, and at most the interrupted one besides. Compacting "
  "the log changes nothing a reader sees, is never half visible, and no "
  "content of the log file can make the reader crash or misread it.",
  "every record sequence up to the bound, every crash point and torn write, "
  "every byte string as log file",
  "crash points and torn tails are not reachable from a test that runs to "
  "completion",
  ["libimaildir/log_file.c", "libimaildir/log.c"],
  [("imaildir_log_open, record replay", "libimaildir/log_file.c"),
   ("maybe_compact", "libimaildir/log_file.c")],
  NOTE + "Logs of 2-3 records with symbolic keys, crash at every operation of "
  "an in-memory file system model, log files to 6 arbitrary bytes.",
  over=["crash_points", "histories", "inputs"])

P("P29", "Keeping in step with the mail server misses nothing and removes nothing else",
  "Whatever an earlier session left behind, wherever the connection is lost "
  "and whatever others do meanwhile, once the client rests every message on "
  "the server is here with its flags and removed ones are gone. A "
  "modification number is noted only when everything up to it is known, so no "
  "later session skips a change, and only messages removed here, under the "
  "same UIDVALIDITY, are removed from the server.",
  "every kind of state an earlier session leaves, every choice of two events "
  "of ten kinds at every response, symbolic flags and modification numbers",
  "losses need a lost connection or another client at one particular moment",
  ["libimaildir/up.c", "libimaildir/util.c"],
  [("up_fetch_resp, up_exists_resp, post_cmd_done, untagged_ok",
    "libimaildir/up.c"),
   ("send_detection_fetch, send_deletions, select_done", "libimaildir/up.c")],
  NOTE + "Up to four messages; the server is a model following RFC 3501, 2177 "
  "and 7162; the mail store is replaced by a table (P20-P22 check the real one).",
  over=["histories", "fault_sequences"])

P("P34", "Commands to the mail server are sent one way only: in order and in time",
  "The mailbox is selected first; during IDLE nothing but DONE is sent, and "
  "nothing after UNSELECT. Commands passed on are sent once, in order, not "
  "before uploads were noticed, and each gets its own answer; no message is "
  "downloaded during an upload, twice, or with the effect of marking it seen.",
  "every choice of two events of eleven kinds at every command, and of one at "
  "every response",
  "depends on the moment at which requests and answers cross",
  ["libimaildir/up.c"],
  [("up_advance_state, advance_relays, need_done, up_idle_block",
    "libimaildir/up.c")],
  NOTE + "As P29.", over=["schedules", "histories"])

P("P60", "No packet can crash, stall or mislead the DNS server",
  "Whatever arrives, the server reads nothing outside the packet and finishes. "
  "It answers exactly the well-formed standard queries with one question for "
  "names below its zone, and stays silent otherwise.",
  "every content of short packets, records, options and compressed names within the bounds",
  "a UDP port open to the world: one unlucky combination of counts, pointers and lengths suffices",
  ["server/dns/parse.c", "server/dns/dns.c"],
  [("parse_pkt, parse_name, rrs_next", "server/dns/parse.c"),
   ("handle_packet", "server/dns/dns.c")],
  NOTE)

P("P61", "The DNS server gives every name and type its right answer, and not too often",
  "An answer repeats the question and carries exactly the records of that name "
  "and type, the user's own challenge, or the zone's SOA and the right code, "
  "within the size allowed. Nobody gets more than eight answers in one second, "
  "and up to seven are always given.",
  "ten kinds of names in either case and with pointers, every type, class and flag, with and without EDNS",
  "each kind of name answers differently to each type; the secret is found by a name the asker spells",
  ["server/dns/dns.c", "server/dns/write.c", "server/dns/rrl.c"],
  [("sort_pkt, respond_acme, negative_resp, positive_resp", "server/dns/dns.c"),
   ("write_qstn, write_soa, write_edns", "server/dns/write.c"),
   ("rrl_check", "server/dns/rrl.c")],
  NOTE + "The rate limit keeps five bits of the time: after exactly 32 seconds of silence a full second counts as the same one.")

P("P30", "IMAP input is read the same wherever it is split, and never crashes",
  "What the IMAP reader makes of a stream of commands or responses does not "
  "depend on how the network cut it into pieces: the same commands come out "
  "with the same arguments and the same lines are refused. Numbers, sequence "
  "sets, dates, strings, literals and partial ranges are read as exactly the "
  "value written, and no input crashes the reader or makes it stop reading.",
  "every text up to the bound after each of many command prefixes, every "
  "split point",
  "a scanner that keeps partial tokens between packets has states that only "
  "particular splits reach, and tests always split in the same places",
  ["libimap/scan.c", "libimap/imap.in", "libimap/read.c"],
  [("imap_scan, scanner leftovers", "libimap/scan.c"),
   ("grammar and call stack", "libimap/imap.in"),
   ("imap_cmd_read, imap_resp_read", "libimap/read.c")],
  NOTE + "The wording of a refusal may depend on the split; whether a line is "
  "refused may not.", over=["inputs", "schedules"])

P("P31", "Every IMAP command and response is written as it will be read",
  "Writing any command or response and reading the text again gives back the "
  "same command or response, with every argument the same. The text written "
  "does not depend on the size of the output buffers, it contains no bare "
  "line breaks or unquoted specials, and what cannot be expressed in the "
  "protocol is refused and never written in another meaning.",
  "every kind of command and response, with symbolic text, numbers, flags, "
  "dates and nesting; every buffer size",
  "each of dozens of commands has its own quoting, optional parts and "
  "buffer-continuation points",
  ["libimap/write.c", "libimap/expression.c", "libimap/imap.in"],
  [("imap_cmd_write, imap_resp_write", "libimap/write.c"),
   ("imap_cmd_copy, imap_cmd_eq", "libimap/expression.c")],
  NOTE + "Empty atoms and a status text starting with a bracket are outside; "
  "an out-of-range date may be refused.")

P("P21", "A message file's name gives back exactly what was recorded in it",
  "Writing a message's arrival time, length, identifiers and host into its file "
  "name and reading the name again gives back the same values, whatever the "
  "mail store's origin. Any other name is refused or read without crashing, and "
  "never taken for a message it is not.",
  "every value of every field; every name up to the bound",
  "the file names are the only record of a message's content after a crash, "
  "and a mail directory may contain files of any name",
  ["libimaildir/name.c", "libimaildir/name.h"],
  [("maildir_name_write, maildir_name_parse", "libimaildir/name.c")],
  NOTE + "Numbers of any value, host names to 3 bytes, other names to 18 bytes.")

P("P24", "Sequence sets list exactly the numbers put into them",
  "However numbers and ranges are added to or removed from a set, the sequence "
  "set produced for the protocol names exactly the numbers which are in it. "
  "The ranges come out in ascending order, do not overlap or touch, and "
  "producing them releases every entry exactly once.",
  "every order of additions and removals of single values and ranges up to the "
  "bound, including duplicate, nested and adjacent ranges",
  "overlapping and nested ranges in arbitrary order are not what tests feed in",
  ["libimaildir/util.c", "libimaildir/util.h"],
  [("seq_set_builder", "libimaildir/util.c")],
  NOTE + "Up to three additions with ends over the small and the largest "
  "numbers.", over=["histories", "inputs"])

P("P25", "SEARCH selects exactly the messages the client's query describes",
  "Each search key matches a message exactly when the protocol says it does: "
  "flags, sizes, dates, sequence and UID sets, header fields, and text, "
  "combined with NOT, OR and lists in any nesting. Searching always ends, and "
  "never opens a message file unless the query needs its content.",
  "every query up to the bound on every message up to the bound",
  "queries nest arbitrarily and meet empty strings, repeated headers and time "
  "zones that hand-written cases leave out",
  ["libimaildir/search.c", "libimaildir/search.h"],
  [("search_key_eval", "libimaildir/search.c")],
  NOTE + "One message with symbolic flags, dates, size and small headers and "
  "bodies; nesting to depth 2.")

P("P20", "A stored message survives crashes and disk errors",
  "Whatever happens to the mail store - a crash at any moment, a power loss, a "
  "failing disk - the mailbox opens again, every message whose storing had "
  "completed is still there with its content, date and flags, and every "
  "deletion that had completed is remembered. The interrupted change has "
  "happened completely or not at all, and the mailbox goes on working. Message "
  "identifiers clients know are never reused or changed.",
  "every sequence of mailbox operations up to the bound, a crash before any of "
  "the file system calls of the next one with unsynced data kept or lost, or "
  "any one call failing with EIO or ENOSPC; every message content",
  "each combination of history and crash point leaves different files behind, "
  "and tests neither crash nor fill the disk",
  ["libimaildir/imaildir.c", "libimaildir/log_file.c", "libimaildir/msg.c",
   "libimaildir/name.c", "libdstr/fileops.c"],
  [("populate_msgs, handle_new_msg_file", "libimaildir/imaildir.c"),
   ("imaildir_up_handle_static_fetch_attr", "libimaildir/imaildir.c"),
   ("imaildir_add_local_file, imaildir_up_check_uidvld_up",
    "libimaildir/imaildir.c")],
  NOTE + "Up to two (thorough: three) operations on up to five messages before "
  "the crash; the file system is a model whose calls are atomic and ordered.",
  over=["histories", "crash_points", "fault_sequences"])

P("P23", "Every client is told of every change, exactly once and consistently",
  "A connected client which has taken its updates knows exactly the messages "
  "the mailbox holds, with their flags, dates and lengths: each message is "
  "announced once, and removed once. Identifiers are unique, grow, and stay the "
  "same for ever, also over restarts, and a client connecting later sees the "
  "same. Modification numbers are unique and never go back.",
  "every sequence of up to three (thorough: four) operations of the server and "
  "the clients, with clients which take their updates at once or late, and a "
  "restart at the end",
  "the states of several clients, the server and the disk combine in more "
  "ways than tests can list",
  ["libimaildir/imaildir.c", "libimaildir/msg.c", "libimaildir/log_file.c"],
  [("distribute_update_new, _meta, _expunge", "libimaildir/imaildir.c"),
   ("imaildir_dn_build_views", "libimaildir/imaildir.c"),
   ("imaildir_dn_request_update", "libimaildir/imaildir.c")],
  NOTE + "Two connected clients and one later one, up to five messages.",
  over=["histories", "schedules"])

P("P26", "STATUS answers with the counts a client will see",
  "The answer to STATUS names as many messages, and as many unseen ones, as a "
  "client selecting the mailbox would find once everything is synchronized: the "
  "server's messages without those which are not for this user, and the local "
  "ones. UIDNEXT and UIDVALIDITY are the ones clients are given, and only what "
  "was asked for is answered.",
  "every counts reported by the server, every set of requested items, every "
  "mailbox reached by up to two operations",
  "local, hidden and deleted messages combine with any server-side counts",
  ["libimaildir/imaildir.c"],
  [("imaildir_process_status_resp", "libimaildir/imaildir.c")],
  NOTE + "Up to five messages known locally.", over=["histories", "inputs"])

P("P27", "A client's message numbers always agree with the server's",
  "However the mailbox changes between and during a client's commands, the "
  "client and the server always agree on which message a sequence number "
  "means and on its flags: EXPUNGE, EXISTS and FETCH only ever name messages "
  "the client knows of, and no EXPUNGE comes while a command uses sequence "
  "numbers. Every command is answered exactly once, with its result, and acts "
  "on exactly the messages it names; in the end the client knows exactly the "
  "mailbox's messages.",
  "every sequence of up to two (thorough: three) changes by others and up to "
  "two commands, with a further change before or after the server's answer, "
  "which accepts or refuses",
  "updates from other clients arrive between any two steps of a command, and "
  "tests only try a few orders",
  ["libimaildir/dn.c"],
  [("gather_updates_dont_send, gather_send_responses", "libimaildir/dn.c"),
   ("dn_store, dn_expunge, dn_copy, dn_fetch, dn_search, dn_idle",
    "libimaildir/dn.c")],
  NOTE + "Up to five messages, commands NOOP, EXPUNGE, IDLE, STORE, COPY, FETCH "
  "and SEARCH, also by UID.", over=["histories", "schedules"])

P("P28", "Commands act on exactly the messages a set names, and never read-only",
  "A sequence or UID set names exactly the messages within its ranges, with * "
  "as the last one and ranges in either order; a sequence number beyond the "
  "mailbox is refused and an unknown UID ignored. A mailbox opened read-only is "
  "never changed by any command, and closing a mailbox removes exactly the "
  "messages marked as deleted. SELECT tells the first unseen message, the next "
  "UID, the UIDVALIDITY and the number of messages.",
  "every set of up to two ranges with ends 0 (*) to beyond the mailbox, every "
  "mailbox of up to three messages, every command",
  "ranges overlap, reverse and reach past the ends in more ways than tests list",
  ["libimaildir/dn.c", "libimap/expression.c"],
  [("seq_set_to_canonical_uids_dn", "libimaildir/dn.c"),
   ("dn_select, dn_disconnect, fetch_begin", "libimaildir/dn.c")],
  NOTE + "Up to three messages.", over=["inputs", "histories"])

P("P33", "FETCH gives back exactly the message, whole or by parts",
  "BODY[] and RFC822 are the stored bytes; header and text are its two halves; "
  "a part is exactly what stands between its boundaries, a partial fetch "
  "exactly that range, and HEADER.FIELDS and its complement divide the header. "
  "BODYSTRUCTURE agrees with the parts in number, kind, size and lines; a part "
  "which is not there is reported. No message, however malformed, and no disk "
  "error makes FETCH crash, fail for a readable message, or pass off wrong content.",
  "12 message structures with any one place changed or the message cut short "
  "anywhere, every kind of FETCH item and pairs of them, a failing read",
  "messages come from anyone; malformed nesting and boundaries reach code no "
  "hand-written message does",
  ["libimaildir/dn.c", "libimap/imf.c", "libimap/imf.in", "libimap/imf_scan.c.in"],
  [("build_fetch_resp_extra, loader_t", "libimaildir/dn.c"),
   ("imf_get_submessage, get_multipart_index, read_bodystructure",
    "libimap/imf.c")],
  NOTE + "Messages of up to about 200 bytes nested to depth 3.",
  over=["inputs", "fault_sequences"])
