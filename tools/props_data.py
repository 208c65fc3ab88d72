HOOKS = None
C = 'crates/'
ENUM = 'bounded-exhaustive model checking of the real code (every token string / combination in bounds) against an independent reference'
HIST = 'explicit-state model checking: every operation history up to a depth replayed on the real code next to a reference model, virtual clock'
BOTH = 'model checking of the real code: every operation history up to a depth against a reference model under a virtual clock, and every thread interleaving of small programs up to a preemption bound against its sequential specification (linearizability)'
SCHED = 'stateless model checking of the real code: every thread interleaving up to a preemption bound under a controlled scheduler'

p('P01', 'Untrusted text never crashes a parser or gets past the documented limits',
  "Every parser of untrusted text or bytes (SIP messages, URIs, header values, session descriptions, event-package bodies, identity tokens, DHCP options) returns a value or an error for every input, and never panics. Input beyond the documented size and count limits (header count, header name and value length, total header bytes, body length, nesting) is refused, and input exactly at a limit is still accepted.",
  ['inputs'], 'all strings made of up to k grammar tokens, all single and double edits of a corpus of valid inputs, and every size around each limit',
  'unit tests and a few proptest samples try individual inputs; the claim is for all',
  [C+'sip-parse/src/lib.rs', C+'sip-core/src', C+'sip-sdp/src/parse.rs', C+'sip-identity/src'],
  [('parse_request/parse_response and limits', C+'sip-parse/src/lib.rs'), ('header value parsers', C+'sip-core/src')],
  ['return value of each public parse function'], ENUM, '')
p('P02', 'Accepted messages survive serialization and re-parsing unchanged',
  "Every request or response the parser accepts is serialized to bytes the parser accepts again, yielding the same start line, the same header fields in the same order (apart from Content-Length, and the Max-Forwards a request is given when it has none) and the same body. The serialized form carries exactly one Content-Length, equal to the body length, and bytes after the announced body never become part of the body. Asked for its class, method, kind of target or body, a message answers what it holds.",
  ['inputs'], 'all combinations of start lines, header lines, line endings, bodies and Content-Length values from token sets',
  'tests round-trip a handful of messages',
  [C+'sip-parse/src/lib.rs', C+'sip-core/src/msg.rs', C+'sip-core/src/headers.rs'],
  [('serialize_request, serialize_response', C+'sip-parse/src/lib.rs')], ['serialized bytes', 'parsed message'], ENUM, '')
p('P03', 'Caller text can never add lines or headers to a message',
  "For every public constructor, builder or setter that puts caller-supplied text into a message, URI, header value or session description, text with CR, LF or NUL is refused or neutralised: the serialized result never contains a header line, body line or start-line field the caller did not ask for. Text which holds none of these characters and is within limits is not altered by that protection.",
  ['inputs'], 'every public text-taking entry point crossed with every placement of control characters',
  'tests probe some constructors with one CRLF string each',
  [C+'sip-core/src', C+'sip-sdp/src', C+'sip-parse/src/lib.rs'],
  [('header validation on insertion', C+'sip-core/src/headers.rs'), ('request-line validation', C+'sip-core/src/msg.rs')],
  ['serialized bytes'], ENUM, '')
p('P04', 'SIP and TEL URIs print, compare and change consistently',
  "An accepted SIP, SIPS or TEL URI prints to text that parses to an equal URI with the same scheme, user, host, port, parameters and headers; scheme, host and parameter names are matched without regard to case while the user part is case-sensitive. A change to one component (host, port, parameter) leaves every other component as it was, and a value that would smuggle another component in is refused.",
  ['inputs'], 'all URI strings of up to k tokens, all pairs of small URIs for the equality laws, all single-component changes',
  'tests compare a few literal URIs',
  [C+'sip-core/src/uri.rs', C+'sip-core/src/tel_uri.rs'],
  [('SipUri::parse / Display', C+'sip-core/src/uri.rs'), ('TelUri::parse / Display', C+'sip-core/src/tel_uri.rs')],
  ['parsed components', 'printed text'], ENUM, '')
p('P05', 'Structured header values round-trip and keep their meaning',
  "For every structured header value the library models (Via, From, To, Contact, Route, CSeq, RAck, Session-Expires, Replaces, Event, Reason, Allow, Supported, Privacy, History-Info and the others), a value that parses prints to text which parses to an equal value, and parameters keep their names, values and order; a list means the same however it is spread over lines. Separators inside quoted strings, angle brackets and comments are never taken for structure. What a value answers when asked (its tag, loose routing, order of preference, cause, refresher and the like) is what its text says.",
  ['inputs'], 'all header values of up to k tokens from each header grammar',
  'tests check individual literal values',
  [C+'sip-core/src', C+'sip-parse/src/header_values.rs'],
  [('parse and Display of each header type', C+'sip-core/src')], ['parsed value', 'printed text'], ENUM, '')
p('P06', 'A header collection behaves as an ordered case-insensitive multimap',
  "After any sequence of additions, replacements and removals, looking up a header by name in any letter case or by its compact form yields exactly the values a reference multimap holds, in insertion order. Limits on count and size refuse the operation that would exceed them and leave the collection unchanged.",
  ['histories', 'inputs'], 'all operation sequences up to a depth over a name/value alphabet',
  'tests run fixed short sequences',
  [C+'sip-core/src/headers.rs'], [('Headers', C+'sip-core/src/headers.rs')], ['lookup results'], BOTH, '')
p('P07', 'Digest authentication accepts exactly the correctly computed credentials',
  "A request is authenticated exactly when its credentials carry the digest that the configured password yields for that user, realm, method, request target, nonce, count, client nonce, protection level and body, under an algorithm and protection level the server offers. Credentials produced by the library's own client from the server's challenge are accepted, and changing any single field of a correct credential, the method, the target or the protected body makes the server refuse it. A challenge names exactly what the server will accept and carries the request's Via, From, To, Call-ID and CSeq back, and the server's proof in Authentication-Info verifies only unaltered.",
  ['inputs', 'configurations'], 'all algorithms, protection levels, proxy/origin modes, quoting forms and every single-field mutation',
  'tests check some algorithm/protection pairs and a few mutations',
  [C+'sip-auth/src/lib.rs'], [('DigestAuthenticator::verify', C+'sip-auth/src/lib.rs'), ('DigestClient', C+'sip-auth/src/lib.rs')],
  ['verify result', 'challenge header', 'authorization header'], ENUM, '')
p('P08', 'Nonces are single-issuer, time-limited and replay-proof',
  "A nonce is accepted only if this server issued it and its lifetime has not passed, and for each nonce every accepted request carries a strictly larger count than all earlier ones. The store of outstanding nonces never exceeds its limit, and a rejected request never makes a nonce last longer or admits a replay.",
  ['histories', 'schedules'], 'all histories of challenges, requests, clock steps and cleanups up to a depth, and all interleavings of small concurrent programs up to a preemption bound',
  'tests replay one request once or twice',
  [C+'sip-auth/src/lib.rs'], [('NonceManager', C+'sip-auth/src/lib.rs')], ['verify result'], BOTH, '')
p('P09', 'Rate limits hold for every arrival pattern',
  "For every key and every arrival pattern, the requests admitted in any period never exceed the configured burst plus the configured rate times that period, and a request is admitted whenever the budget allows one. Keys never affect each other's budget, cleanup never changes a decision for a key that is still in use, and the number of tracked keys stays within the limit; the reported budget and time until reset agree with these decisions.",
  ['histories', 'configurations', 'schedules'], 'all histories of arrivals, clock steps and cleanups up to a depth, for all small configurations, and all interleavings of small concurrent programs up to a preemption bound',
  'tests try a few bursts with sleeps',
  [C+'sip-ratelimit/src/lib.rs'], [('TokenBucket refill', C+'sip-ratelimit/src/lib.rs'), ('cleanup', C+'sip-ratelimit/src/lib.rs')],
  ['check result', 'remaining budget', 'statistics'], BOTH,
  'Every history in the bounds was run on the real limiter under a virtual clock and compared with an exact rational token-bucket envelope. Trusts the virtual clock and the envelope.')
p('P10', 'The registrar stores exactly the bindings the registrations imply',
  "After any sequence of registrations, refreshes, removals, wildcard removals and passing time, the bindings a lookup returns are exactly those a reference registrar holds: right contact, expiry and preference value, and none that has expired. Every accepted registration is answered with the complete current set with remaining lifetimes; a rejected one, or one older than the stored sequence for the same call, changes nothing.",
  ['histories'], 'all registration histories up to a depth over a request alphabet, with clock steps',
  'tests register and look up a few times',
  [C+'sip-registrar/src/lib.rs'], [('BasicRegistrar::handle_register', C+'sip-registrar/src/lib.rs'), ('MemoryLocationStore', C+'sip-registrar/src/lib.rs')],
  ['response', 'lookup result'], HIST, '')
p('P11', 'The location store keeps its limits and index under any history or schedule',
  "Under any sequence or interleaving of store operations, a lookup returns each live binding of that address exactly once, expired bindings are never returned, per-address and total limits are never exceeded, and an insertion is refused only when live bindings fill a limit. The synchronous and asynchronous interfaces give the same answers.",
  ['histories', 'schedules'], 'all operation sequences up to a depth and all interleavings of small concurrent programs',
  'tests exercise single-threaded sequences', [C+'sip-registrar/src/lib.rs'], [('MemoryLocationStore', C+'sip-registrar/src/lib.rs')], ['lookup result'], BOTH, '')
p('P12', 'Dialogs form and advance as the protocol prescribes on both sides',
  "From any exchange of a dialog-creating request and its responses, both ends derive the same identifiers, mirrored tags, the peer's contact as target and the same route path, and the state follows the response codes. Within the dialog, local sequence numbers strictly increase, remote ones that go backwards are refused without any effect, and only target-refreshing exchanges change the remote target.",
  ['histories', 'inputs'], 'all creating exchanges over a header alphabet and all in-dialog histories up to a depth',
  'tests follow a few scripted dialogs', [C+'sip-dialog/src/lib.rs'], [('Dialog', C+'sip-dialog/src/lib.rs')], ['dialog fields', 'operation results'], HIST, '')
p('P13', 'Dialog and subscription registries stay consistent with what was stored',
  "After any sequence of insertions, replacements, removals and cleanups, lookups by identifier, by request and by call return exactly the live entries a reference map holds, from either side's point of view. Terminated entries disappear on cleanup and only they do, and capacity limits refuse new entries without disturbing existing ones.",
  ['histories', 'schedules'], 'all operation histories up to a depth and all interleavings of small programs up to a preemption bound', 'tests check single inserts and removals',
  [C+'sip-dialog/src/lib.rs', C+'sip-dialog/src/storage.rs'], [('DialogManager, SubscriptionManager', C+'sip-dialog/src/lib.rs'), ('InMemoryDialogStore', C+'sip-dialog/src/storage.rs')], ['lookup results'], BOTH, '')
p('P14', 'Every reliable provisional response is acknowledged exactly once',
  "Reliable response numbers are handed out strictly increasing by one per dialog and within the protocol range. An acknowledgement is accepted exactly when it names a pending reliable response of that dialog by response number, request number and method, once; stale, repeated or foreign ones are refused and leave the pending set unchanged; whether a response is reliable, and its numbers, are read from its headers exactly.",
  ['histories', 'schedules'], 'all histories of registrations, acknowledgements and removals up to a depth, and all interleavings of small programs up to a preemption bound', 'tests check single acknowledgements',
  [C+'sip-dialog/src/prack_validator.rs', C+'sip-dialog/src/lib.rs'], [('PrackValidator, RSeqManager', C+'sip-dialog/src')], ['validation result'], BOTH, '')
p('P15', 'Session timers fire at the negotiated times, once, and only for live sessions',
  "For every negotiated interval the refresher is told to refresh at half the interval and both sides see the expiry at the full interval, counted from the last start or refresh. A stopped or refreshed timer never fires for its former deadline, restarting gives exactly one live timer, and negotiation never yields an interval below either side's minimum nor two refreshers.",
  ['histories', 'schedules'], 'all histories of start, refresh, stop and clock steps up to a depth under a controlled clock', 'tests sleep through one timer',
  [C+'sip-dialog/src/session_timer_manager.rs', C+'sip-dialog/src/lib.rs'], [('SessionTimerManager', C+'sip-dialog/src/session_timer_manager.rs')], ['events'], HIST, '')
p('P16', 'Session descriptions round-trip without loss',
  "Every session description either parser accepts prints to text that the same parser accepts and that yields an equal description: every media line, format, attribute, connection, bandwidth and timing line, in order and at the level where it stood. Attribute accessors agree with the lines, media-level values override session-level ones, and the documented limits are enforced. Lines the grammar allows once are kept once.",
  ['inputs'], 'all line sequences up to a length over a line alphabet, and all token strings for each line kind', 'tests parse sample bodies',
  [C+'sip-sdp/src', C+'sip-core/src/sdp.rs'], [('SessionDescription::parse/serialize', C+'sip-sdp/src'), ('SdpSession', C+'sip-core/src/sdp.rs')], ['parsed description', 'printed text'], ENUM, '')
p('P17', 'An answer always fits its offer',
  "For every offer and local capability set, a generated answer has one media line per offered line, in the same order, with the same media type and protocol; a line rejected in the offer stays rejected, every accepted line lists only formats present in the offer with a mapping both sides support, and the direction is compatible with the offer and the local wish. The answer is itself a valid session description.",
  ['inputs', 'configurations'], 'all offers of up to two or three media lines over a media alphabet crossed with capability sets', 'tests negotiate a few pairs',
  [C+'sip-sdp/src/negotiate.rs', C+'sip-core/src/sdp_offer_answer.rs'], [('negotiate_answer', C+'sip-sdp/src/negotiate.rs'), ('OfferAnswerEngine', C+'sip-core/src/sdp_offer_answer.rs')], ['answer'], ENUM, '')
p('P18', 'Hold and resume change the direction and nothing else',
  "A hold offer made from any session description keeps every media line, format and attribute and only turns directions so that nothing is received, and a resume offer gives every held stream its former direction back. Answers to such offers are the matching directions, and the version number of the description grows with every new offer.",
  ['inputs', 'histories'], 'all small session descriptions and all hold/resume histories up to a depth', 'tests hold one session',
  [C+'sip-core/src/sdp_offer_answer.rs', C+'sip-core/src/sdp.rs'], [('hold and resume offers', C+'sip-core/src/sdp_offer_answer.rs')], ['offer and answer text'], ENUM, '')
p('P19', 'Preconditions are met exactly when the current status covers the desired one',
  "For every combination of desired and current status tags, strengths, types and directions, a session is reported ready exactly when every mandatory desired status is covered by the current status of the same type and scope. Adding current status never makes a ready session unready, and optional or absent requirements never block.",
  ['inputs'], 'all combinations of precondition lines in bounds', 'tests check a few combinations', [C+'sip-core/src/sdp.rs'], [('precondition evaluation', C+'sip-core/src/sdp.rs')], ['evaluation result'], ENUM, '')
p('P20', 'Server location follows the DNS records in the prescribed order',
  "For every target and every answer the DNS gives (records, no records, failure, or no reply), the resolver asks in the prescribed order and returns targets with the right host, port, transport and priority ordering: numeric hosts and explicit ports skip service lookups, lower-priority-value records come before higher, and every usable record is returned exactly once. When nothing is found the default port of the transport is used, and secure targets are never downgraded to an insecure transport.",
  ['inputs', 'fault_sequences'], 'all target forms crossed with all small record sets and per-query faults', 'tests use static tables',
  [C+'sip-dns/src/lib.rs'], [('SipResolver::resolve', C+'sip-dns/src/lib.rs')], ['queries sent', 'targets returned'], ENUM, '')
p('P21', 'Provisioned server addresses and number mappings are read exactly',
  "Every DHCP server option is decoded into exactly the servers it encodes, in order, and malformed options are refused. Resolution through provisioned servers yields the targets of every usable one in order, and the hybrid resolver falls back to the request's own domain exactly when provisioning yields nothing. A telephone number maps to the reversed-digit domain of its digits, and service records are chosen by order, then preference, then service, with the rule's result extracted between its unescaped delimiters.",
  ['inputs'], 'all option byte strings in bounds, all digit strings and record sets in bounds', 'tests decode sample options', [C+'sip-dns/src/lib.rs', C+'sip-dns/src/enum_lookup.rs'],
  [('DHCP option parsing', C+'sip-dns/src/lib.rs'), ('ENUM', C+'sip-dns/src/enum_lookup.rs')], ['decoded servers', 'selected URI'], ENUM, '')
p('P22', 'Caller identity verifies exactly when intact and signed by a trusted signer',
  "An identity produced by the signer is read back with exactly the signed claims and verifies with the matching key, and any change to the token's header, claims or signature, another key, or another algorithm makes verification fail. Verification against certificates succeeds exactly when the signing certificate leads, through certificate authorities all valid at the given time, to one of the trust anchors. Header parameters are read without taking quoted or bracketed text for structure.",
  ['inputs'], 'all claim combinations in bounds and every single-byte mutation of the token, and all small chain shapes', 'tests flip one byte', [C+'sip-identity/src'],
  [('sign', C+'sip-identity/src/sign.rs'), ('verify', C+'sip-identity/src/verify.rs'), ('chain', C+'sip-identity/src/chain.rs')], ['verification result'], ENUM, '')
p('P23', 'Metric emission is bounded and never loses its accounting under concurrency',
  "With a minimum interval configured, no interleaving of reporting threads emits more events of a kind than one plus the number of intervals that passed, an event is emitted whenever a full interval has passed since the last one, and sampling emits exactly every n-th event. No event is lost from the counts, and metric labels are always within their length and character limits.",
  ['schedules', 'histories', 'inputs'], 'all interleavings of up to three threads up to a preemption bound', 'tests are single-threaded', [C+'sip-observe/src/lib.rs'],
  [('rate-limited metrics', C+'sip-observe/src/lib.rs')], ['emitted events'], SCHED, '')
p('P24', 'Client transactions follow their state machines for every event order',
  "For every order of responses, timer expiries, transport errors and retransmissions, a client transaction passes each response to its user as the state machine prescribes and no final response twice, retransmits only over unreliable transports with the prescribed schedule, acknowledges every non-2xx final response to an INVITE and reports its end exactly once. Once answered or given up it always reaches its end state, and it schedules nothing after that.",
  ['histories'], 'all event sequences up to a depth, both kinds, reliable and unreliable', 'tests walk scripted paths', [C+'sip-transaction/src/fsm.rs'],
  [('client state machines', C+'sip-transaction/src/fsm.rs')], ['actions', 'state'], HIST, '')
p('P25', 'Server transactions follow their state machines for every event order',
  "For every order of request retransmissions, responses from the user, acknowledgements, transport errors and timers, a server transaction answers retransmissions with the latest response it sent and never changes a final response. It retransmits final INVITE responses until acknowledged or timed out as prescribed and always reaches its end once.",
  ['histories'], 'all event sequences up to a depth, both kinds, reliable and unreliable', 'tests walk scripted paths', [C+'sip-transaction/src/fsm.rs'],
  [('server state machines', C+'sip-transaction/src/fsm.rs')], ['actions', 'state'], HIST, '')
p('P26', 'The transaction layer matches messages and releases every transaction',
  "For every history of requests, responses, acknowledgements, failures and passing time, each message reaches exactly the transaction it belongs to, one that belongs to none changes nothing, a send failure moves to the next target in order, and every transaction ends, is reported once and frees its resources. Configured limits hold at all times.",
  ['histories', 'fault_sequences'], 'all event histories up to a depth under virtual time', 'tests run single transactions', [C+'sip-transaction/src/manager.rs'],
  [('TransactionManager', C+'sip-transaction/src/manager.rs')], ['dispatched messages', 'callbacks'], HIST, '')
p('P27', 'A proxied request gains and loses exactly the prescribed routing headers',
  "For every incoming request, forwarding decrements the hop count by one or refuses at zero, adds one own Via on top with a fresh branch, adds its Record-Route only where due, consumes exactly its own Route and rewrites strict routes, and leaves everything else untouched. Every forwarded response loses exactly the top Via, and looping requests are refused while legitimate spirals pass.",
  ['inputs', 'histories'], 'all combinations of route sets, hop counts and Via stacks in bounds', 'tests forward sample requests', [C+'sip-proxy/src'],
  [('ProxyHelpers', C+'sip-proxy/src/lib.rs')], ['forwarded messages'], BOTH, '')
p('P28', 'A forking proxy forwards the right responses and the best final one once',
  "For every order of branch responses, timeouts, transport errors and a CANCEL, and every interleaving of the tasks handling them, every 2xx is forwarded, provisional responses other than 100 only while undecided, a first 6xx at once, and otherwise exactly one final response of the lowest class the branches gave. After a final response only 2xx follow; every branch still unanswered at the decision is cancelled exactly once, with a CANCEL matching its request, and Timer C starts over with each provisional response.",
  ['histories', 'schedules'], 'all orders of branch events for up to three branches, all task interleavings of two', 'tests follow a few forks in one order', [C+'sip-proxy/src/service.rs', C+'sip-proxy/src/stateful.rs', C+'sip-proxy/src/cancel_ack.rs'],
  [('ProxyService, ProxyContext', C+'sip-proxy/src/stateful.rs')], ['forwarded responses', 'cancel requests'], BOTH, '')
p('P29', 'Stream framing does not depend on how bytes are segmented',
  "For every byte stream of messages, keep-alives and garbage, and every way of splitting it into reads, exactly the complete messages ahead of the first malformed one are delivered, byte-identical and in order, attributed to their connection. A malformed or oversized message closes the connection and nothing after it is delivered; answers sent on a connection are written whole and in order.",
  ['inputs', 'schedules'], 'all streams of up to three items from a grammar, all segmentations of short and up to k cuts of longer ones', 'tests split one message once', [C+'sip-transport/src/lib.rs'],
  [('spawn_stream_session, take_sip_frames', C+'sip-transport/src/lib.rs')], ['delivered messages', 'bytes written'], ENUM, '')
p('P34', 'A stream connection lives exactly as long as its peer keeps it in use',
  "A connection on which no complete message arrives within the handshake window is closed, an established one after exactly the configured idle time without data, whatever the server itself sends, and an established one is kept alive at the configured interval. When it ends, for any reason, what was accepted for sending is written first as far as the peer takes it, the connection is shut down, later sends fail, and no peer can hold the session beyond a bounded time.",
  ['histories', 'fault_sequences'], 'all histories of up to k reads, sends, stalls, failures and waits in virtual time, for several configurations', 'tests check the selected timeout values only', [C+'sip-transport/src/lib.rs'],
  [('spawn_stream_session', C+'sip-transport/src/lib.rs')], ['session end', 'bytes written', 'delivered messages'], HIST, '')
p('P30', 'Pooled connections are reused, bounded and never lose an accepted message',
  "For every history of sends, peer closes, failures and idle periods, a message reported as sent is written exactly once and in order on one connection to that peer, connections to a live peer are reused, and the pool never exceeds its limits. A closed or failed connection is replaced by the next send and never removes its successor.",
  ['histories', 'schedules'], 'all operation histories and task interleavings in bounds', 'tests send a few messages', [C+'sip-transport/src/pool.rs'],
  [('ConnectionPool', C+'sip-transport/src/pool.rs')], ['bytes received by peers'], HIST, '')
p('P31', 'Event-package documents carry exactly the state they were given',
  "Presence, dialog-watcher, registration, message-summary, CPIM and SIP-fragment documents built from any field values hold and parse back to the same values, with markup characters escaped so that content never turns into structure. Malformed or oversized documents are refused.",
  ['inputs'], 'all field values of up to k tokens, all documents of up to k structural pieces', 'tests use plain sample values', [C+'sip-core/src'],
  [('document builders and parsers', C+'sip-core/src')], ['document text', 'parsed document'], ENUM, '')
p('P32', 'Privacy a caller asked for is applied completely, and nothing beyond it',
  "When a request carries a Privacy header asking for anything but 'none', enforcement is reported as required; header privacy removes every listed disclosing header, identity privacy replaces every address in From and Contact (each listed contact, each repeated header) with the anonymous one while keeping the tag and other header parameters and removes the P-Asserted and P-Preferred identities, and user privacy does both. Headers outside the requested kind are left exactly as they were, 'none' changes nothing, and enforcing twice changes nothing more.",
  ['inputs'], 'every Privacy value of up to k tokens, every set of privacy kinds crossed with every combination of headers present and address forms',
  'tests enforce one or two kinds on single plain addresses', [C+'sip-core/src/privacy.rs'],
  [('enforce_privacy, requires_privacy_enforcement', C+'sip-core/src/privacy.rs')], ['headers after enforcement'], ENUM, '')
p('P33', 'Caller preferences select and order contacts by their capabilities',
  "A user agent's capability set written as Contact parameters is read back as the same set, and matching against a required set is exact for every value kind (case-insensitive tokens, list inclusion, exact strings and numbers). Scoring drops exactly the contacts a Reject-Contact matches or a required Accept-Contact fails, leaves contacts without feature parameters untouched, gives the others the average of their predicate scores, and orders by callee q and then caller score without reordering ties; Request-Disposition directives print and parse back to the same choice.",
  ['inputs'], 'every pair of capabilities, every feature predicate against every capability set, every list of three contacts with up to two Accept and two Reject predicates',
  'tests score two or three fixed contacts', [C+'sip-core/src/caller_preferences.rs', C+'sip-core/src/capabilities.rs'],
  [('score_contacts', C+'sip-core/src/caller_preferences.rs'), ('CapabilitySet::to_params / from_params', C+'sip-core/src/capabilities.rs')], ['ordered contacts and scores', 'capability sets'], ENUM, '')
