"""Writes properties.jsonl (kept in one readable place)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CO = "openid/consumer/consumer.py"; SE = "openid/server/server.py"; ME = "openid/message.py"
AS = "openid/association.py"; KV = "openid/kvform.py"; TR = "openid/server/trustroot.py"
UR = "openid/urinorm.py"; DI = "openid/consumer/discover.py"; YD = "openid/yadis/discover.py"
MG = "openid/yadis/manager.py"; ET = "openid/yadis/etxrd.py"; FI = "openid/store/filestore.py"
MS = "openid/store/memstore.py"; SQ = "openid/store/sqlstore.py"; NO = "openid/store/nonce.py"
FE = "openid/fetchers.py"; DH = "openid/dh.py"; CR = "openid/cryptutil.py"; OU = "openid/oidutil.py"
AX = "openid/extensions/ax.py"; SR = "openid/extensions/sreg.py"; PA = "openid/extensions/pape.py"
XR = "openid/yadis/xrires.py"; XI = "openid/yadis/xri.py"; AC = "openid/yadis/accept.py"; PH = "openid/yadis/parsehtml.py"

prop("C01", "A relying party reports success only for an authentic, complete assertion",
 "The relying party reports SUCCESS for a response only if it is a positive assertion whose return URL matches the URL it arrived at (scheme, host, port, path and every query argument both ways), whose required fields are present and covered by the signed list, and whose signature is either valid under an unexpired stored association of that very OP endpoint and handle or was confirmed by that OP's direct verification answering exactly is_valid 'true' with HTTP success. Any deletion, alteration, un-signing or substitution of a required or signed field, any mismatch of return URL arguments, any expired or foreign association, and any other verification answer gives a non-SUCCESS status.",
 ["inputs", "configurations", "fault_sequences"],
 "every response obtained from a genuine assertion by up to two tampering steps over all fields, for both protocol versions, stateful and stateless relying parties, every verification-answer of the OP and every arrival URL variant",
 "tests sample a few hand-written bad responses; the guarantee is a conjunction over every field, version, association state and OP answer, and one forgotten combination is a login bypass",
 [CO, AS, ME], [("id_res verification pipeline", CO), ("HMAC check over the signed list", AS), ("direct verification request and reply", CO)],
 observe="status, identity and signed fields returned to the application when it hands over the incoming query")

prop("C02", "An assertion is accepted at most once",
 "Against one relying-party store, any given positive assertion (identified by its OP endpoint and response nonce, or by the relying party's own nonce for OpenID 1) yields SUCCESS at most once over any history of presentations, store clean-ups and forward clock movement, and never when its nonce is missing, malformed or its timestamp lies more than the allowed skew from the current time. Nonces of distinct endpoints, timestamps or salts do not interfere: each fresh, in-window assertion is accepted once, and presenting a forgery of it, which is refused, does not use it up.",
 ["histories", "configurations"],
 "every history up to the depth bound over presentations of several assertions, clock steps around the skew window and clean-ups, on each store implementation and protocol version",
 "replay windows only open for particular orders of use, clean-up and clock positions at the boundary; tests check one immediate reuse",
 [CO, MS, FI, SQ, NO], [("nonce extraction and check", CO), ("nonce bookkeeping and expiry", "openid/store/"), ("nonce parsing", NO)],
 observe="status of each completion; result of each nonce use")

prop("C03", "A reported identity was discovered to be served by the asserting provider",
 "On SUCCESS the reported identity is the asserted claimed identifier, and discovery on that identifier (made when the login began or repeated at verification) yields a service of the asserted protocol version whose provider endpoint, provider-local identifier and claimed identifier (ignoring only a URL fragment) are those asserted. An assertion naming an identifier, local identifier, endpoint or version that discovery does not confirm is never reported as SUCCESS, whatever the session holds.",
 ["inputs", "configurations", "fault_sequences"],
 "every combination of asserted claimed id, local id, endpoint and version with every discovery document, session content and discovery outcome from the enumerated sets",
 "impersonation needs a specific mismatch between assertion, session and discovered services; the combinations number in the tens of thousands",
 [CO, DI], [("discovery verification for OpenID 1 and 2", CO), ("service endpoint matching", CO), ("discovery", DI)],
 observe="status and identity returned by completion")

prop("C04", "Every store behaves as the documented store interface",
 "For every sequence of operations and clock steps the in-memory, file and SQLite stores return what a simple map of associations keyed by (server, handle) and a set of used nonces would: exact association lookup, most recently issued valid association when no handle is given, replacement on equal key, removal results, never an expired association, nonces accepted once within the skew window, and clean-up removing exactly expired entries and reporting their number. Entries of different servers or handles never affect one another, whatever characters they contain. Stores with different directories or table names are independent, and a store opened again on the same directory or tables continues where it was.",
 ["histories", "inputs"],
 "all operation sequences up to the depth bound over colliding servers, handles, issue times, lifetimes and clock steps including both sides of each expiry boundary",
 "the store tests run one fixed script per store (and none for SQLite here); wrong results appear only after particular sequences",
 [MS, FI, SQ, "openid/store/interface.py", AS], [("association table", "openid/store/"), ("nonce table", "openid/store/"), ("association serialisation", AS)],
 observe="return values of the store interface")

prop("C05", "The file and SQLite stores are safe under concurrent use",
 "For every interleaving of the file system steps of concurrent operations on one file store directory, a nonce is accepted by at most one caller and by at least one, a lookup returns only an association that was stored whole for that server and handle, an unexpired association whose storing finished before and that nobody removes or replaces is found, and no operation fails with an error. The same holds for operations on separate connections to one SQLite database at transaction granularity.",
 ["schedules"],
 "all interleavings at file-system-call granularity of pairs (and, with a preemption bound, triples) of store operations from enumerated initial contents",
 "unit tests are single threaded; the races live between individual system calls",
 [FI, SQ], [("atomic create of nonce files", FI), ("write-to-temp then rename of associations", FI), ("unlink tolerant of absence", FI)],
 observe="return values of concurrent store operations")

prop("C06", "A crash or failing call never corrupts the file or SQLite store",
 "If the process dies or the machine loses power at any point of any sequence of file store operations, a store reopened on the directory returns for each association either the complete old or the complete new value, never a torn, empty or foreign one, and never fails; after a mere process crash it also has every association whose storing had returned and refuses every nonce whose use had been reported as accepted. A failing file system call or SQLite statement makes the operation raise without damaging what was stored before or leaving temporary files behind, and unreadable association files are treated as absent.",
 ["crash_points", "fault_sequences"],
 "every crash point between file system calls of every operation sequence up to the bound, every subset of unsynchronised writes lost or truncated, and every single injected system call error",
 "tests never crash the store; durability depends on ordering of write, sync and rename",
 [FI], [("temp file, flush, fsync, rename", FI), ("tolerant reading of broken files", FI)],
 observe="results of a fresh store opened on the surviving directory")

prop("C07", "A provider asserts only what was approved and asked, fully signed",
 "The provider's response to an authentication request is a positive assertion only if the application approved it; it names exactly the requested identifiers (or, for identifier selection only, those the application chose), goes to the request's return URL, which lies under the request's realm, carries the provider endpoint and a fresh nonce, and every protocol and extension field of it (extension field names being free of commas) is covered by a valid signature under the request's unexpired association or else a new private one with the old handle marked invalid. A refusal is 'cancel' or the immediate-mode setup answer and never verifies as an assertion.",
 ["inputs", "configurations", "histories"],
 "every request from the enumerated field-value product, each approval decision and chosen identifiers, both versions and modes, and every association state (none, valid, expired, unknown, private)",
 "tests fix one request at a time; identity substitution or unsigned fields need a particular mix of version, mode, identifier selection and association state",
 [SE, AS], [("request decoding and validation", SE), ("answer construction", SE), ("signing with fallback", SE)],
 observe="decoded request outcome and the encoded web response")

prop("C08", "Direct verification confirms only own, fresh, private signatures, and only once",
 "Over any history of requests handled one after another, a provider answers is_valid 'true' to a direct verification request only if it itself signed exactly that content with a private (stateless) association that has not expired, and only the first time it is asked about that handle; handles shared with a relying party never verify this way. It reports a handle as invalid exactly when the handle asked about is not one of its valid shared associations, and clean-ups, other users' logins and failed verification attempts on other handles do not change the outcome.",
 ["histories", "inputs"],
 "all histories up to the depth bound of associating, signing, verifying genuine and tampered messages, expiry and clean-up on each store",
 "single-step tests cannot show at-most-once over histories nor separation of private and shared handles",
 [SE, AS], [("private versus shared association namespaces", SE), ("invalidate after verification", SE)],
 observe="is_valid and invalidate_handle fields of the direct response")

prop("C09", "Association negotiation gives a shared key of a mutually allowed type or none",
 "For every pair of preferences of relying party and provider, every protocol version and every single fault or dishonest reply, the negotiation ends with the relying party holding either no association or one whose handle, type, key and lifetime are those the provider issued, with association and session type allowed by both sides (also when an OpenID 1 provider answers in plain text); the key is never sent in clear when an encrypted session was used, and a provider never creates an association of a type it does not allow. Whenever the first choices or the provider's suggestion are acceptable to both, an association is in fact established, with at most two requests.",
 ["configurations", "fault_sequences"],
 "all ordered preference lists over the four type pairs on both sides, both versions, and every single mutation of the exchanged messages from the fault alphabet",
 "tests stub one reply at a time; agreement must hold over the product of both sides' policies and every bad reply",
 [CO, SE, AS, DH], [("negotiator", AS), ("associate request and response processing", CO), ("associate handling", SE), ("Diffie-Hellman secret encryption", DH)],
 observe="stored association, requests seen on the wire")

prop("C10", "Message encodings are lossless and namespace-faithful",
 "A protocol message built or parsed with any fields, extension namespaces and aliases keeps the same (namespace, key, value) content through each of its encodings that can carry it (argument dictionary, URL added to an existing query, URL-encoded body, key-value form, HTML form) and back. Namespace URIs and aliases stay in one-to-one correspondence under every sequence of edits, no alias contains a period or is the name of a protocol field, reading back a set argument gives the set value, and a copy is independent of its original.",
 ["inputs", "histories"],
 "all messages over the bounded alphabet of namespaces, aliases, keys and special-character values, and all edit sequences up to the depth bound",
 "loss or confusion needs particular collisions of aliases, implicit namespaces and special characters",
 [ME, KV, OU], [("namespace map", ME), ("encoders and decoders", ME), ("query appending", OU)],
 observe="decoded content compared with what was put in")

prop("C11", "Key-value form is an exact, injection-free codec",
 "Encoding any sequence of key-value text pairs without line breaks (and without colons in keys or surrounding white space) and decoding it gives the same sequence back, and a pair whose key contains a line break or colon or whose value contains a line break is always refused rather than encoded. Decoding never yields a pair that is not a line of the input, and reports every malformed line in strict mode.",
 ["inputs"],
 "all pair sequences and all texts up to the length bound over an alphabet containing separator, newline, carriage return, white space and non-ASCII characters",
 "the signature base string is this encoding; one ambiguous string means two different messages share a signature",
 [KV], [("seqToKV / kvToSeq", KV)], observe="encoded text and decoded pairs")

prop("C12", "A signature binds every signed field and only signed data is reported as signed",
 "A signature made by an association verifies on the signed message and on no message that differs in the value of any signed field (an absent one counting as empty), in their order, in the signed list, in the key or in the association type, while unsigned fields do not matter. Extension or protocol data is reported to the application as signed only if its name on the wire was in the verified signed list, and a namespace with any unsigned argument is reported as not signed.",
 ["inputs"],
 "all messages over a bounded field and value alphabet with all signed lists, and every pair of them differing by the enumerated mutations, for both algorithms",
 "collision-style attacks need particular field splits; tests check one changed field",
 [AS, KV, ME, CO], [("signature base string", AS), ("signed-field queries on a successful response", CO)],
 observe="verification result; signed-data accessors of a successful response")

prop("C13", "A return URL is accepted for a realm exactly when the realm covers it",
 "A realm matches a URL if and only if both are well-formed http(s) URLs with the same scheme and port (after defaults), the same host or, for a wildcard realm, a host equal to or a true subdomain of the realm's, and the realm's path and query are the URL's or a prefix of them ending at a path boundary ('/' or '?', or '&' once the realm has a query); realms with fragments, wildcards elsewhere than as the leading host label, or no host match nothing. A realm is reported sane exactly for localhost or a host of at least two non-empty labels under a listed top-level domain, a wildcard needing three labels when a label of up to three characters precedes a two-letter domain.",
 ["inputs"],
 "all realm and URL pairs over the bounded grammar of schemes, hosts, wildcards, ports, paths, queries and fragments",
 "the table-driven tests sample some hundred pairs; matching bugs sit in particular boundary pairs",
 [TR], [("realm parsing", TR), ("URL validation against realm", TR), ("sanity check against top-level domains", TR)],
 observe="realm check result")

prop("C14", "URL normalisation is idempotent and preserves meaning",
 "Normalising a URL either fails with the documented error or gives a URL in normal form: normalising again changes nothing, case of scheme and host, default ports, empty path, percent-escapes of characters that need none and dot segments are canonical, the query is canonical as a list of form arguments, and two URLs have equal normal forms exactly when they differ only in those respects. Normalisation never changes the host, non-default port, path segments, query arguments or fragment a URL denotes.",
 ["inputs"],
 "all URLs over the bounded grammar of schemes, authorities, ports, path segments with escapes and dots, queries and fragments",
 "identifier comparison rests on it; errors show only for particular segment and escape sequences",
 [UR], [("urinorm", UR), ("dot segment removal", UR)], observe="normalised URL or error")

prop("C15", "A login session tries each discovered service in order and is left clean",
 "Over any history of begin, successful, cancelled and failed completions for a user session, repeated begins for one identifier offer the discovered services in priority order, each at most once before discovery is repeated, and a begin for another identifier starts over with that identifier's services. After a success or cancellation the session keeps no discovery or pending-login state of it, sessions do not affect each other, and a completion without a begin is never taken as answering an earlier login.",
 ["histories"],
 "all histories up to the depth bound of begins for several identifiers and completions of each kind over up to two sessions",
 "the fallback manager is a state machine spread over session keys; tests drive short happy sequences",
 [MG, CO], [("Discovery and service manager", MG), ("session token handling", CO)],
 observe="endpoint offered by each begin, session contents, discovery fetches")

prop("C16", "Services are read from discovery documents completely and in priority order",
 "From every discovery document the services reported for OpenID are exactly those of the final resource descriptor that list an OpenID type, with their URI, local identifier and types, OP identifier services first, then newer protocol types before older, and within that by service priority and then URI priority with missing or invalid priorities last. Contradictory local identifiers fail discovery; a document that is not well-formed or has no descriptor gives the documented parse error and never a service, and external entities are never read.",
 ["inputs"],
 "all documents over a bounded grammar of services, types, priorities, URIs, local identifiers and descriptors",
 "order and filtering depend on combinations of several services and priorities",
 [ET, DI, "openid/yadis/filters.py", "openid/yadis/services.py"], [("XRDS parsing and sorting", ET), ("endpoint construction", DI), ("preference between service kinds", DI)],
 observe="services reported by discovery")

prop("C17", "Discovery follows the Yadis and HTML rules for every web answer",
 "For every combination of web answers to a user-supplied identifier, discovery uses the discovery document when the page is one or points to one by header or, lacking that, by its first matching HTML meta tag in the head, and otherwise, or when that document has no OpenID service, the first OpenID links in the HTML head of the page, or else finds no service; the claimed identifier is the final URL after redirects, normalised and without fragment. Failures of any fetch give the documented discovery failure, never another exception and never a service that was not published there.",
 ["inputs", "fault_sequences"],
 "all combinations of status, content type, location header, body form and redirect for the first and second fetch, with every fetch failing in turn, over the identifier forms",
 "tests cover a table of scenarios; precedence and failure handling is a product of several independent answers",
 [DI, YD, PH, "openid/consumer/html_parse.py"], [("Yadis discovery", YD), ("meta tag search", PH), ("HTML link discovery", DI), ("identifier normalisation", DI)],
 observe="claimed identifier and services, or failure")

prop("C18", "Extension data reaches the other side intact and only what was asked for",
 "A simple registration, attribute exchange or authentication policy request or response of any content, added to a message, sent and parsed on the other side, gives the same content back. A simple registration response contains only requested fields that the user data has; a parsed attribute exchange response obeys the counts and types declared; data read from a successful login comes only from signed fields unless unsigned data is explicitly asked for.",
 ["inputs", "configurations"],
 "all requests and responses over bounded sets of fields, attributes, counts, values, policies, levels and both protocol versions",
 "tests use a handful of fixed requests; disclosure and loss depend on combinations of required, optional and available data",
 [SR, AX, PA, "openid/extension.py"], [("simple registration", SR), ("attribute exchange", AX), ("provider authentication policy", PA)],
 observe="parsed request and response objects and message arguments")

prop("C19", "A relying party always gets an answer, whatever it is sent",
 "For every query dictionary of text values delivered to the return URL, with a pending login or none, and every behaviour of the remote servers, completing a login returns one of the four documented outcomes and raises nothing, and beginning one returns a request or raises the documented discovery failure. Only mode 'cancel' gives CANCEL, only a setup answer in its proper version gives SETUP_NEEDED, only a positive assertion gives SUCCESS, and the outcome carries the pending login's identifier.",
 ["inputs", "fault_sequences"],
 "all queries over the bounded product of modes, namespaces, field presence and malformed values, with every fetch outcome from the fault alphabet at every fetch",
 "the input space is hostile and unbounded; tests pick a few malformed messages",
 [CO, ME, AS, UR], [("mode dispatch", CO), ("error containment in completion", CO)],
 observe="outcome or exception of begin and complete")

prop("C20", "A provider turns every request into an answer or a documented protocol error",
 "For every query dictionary of text values the provider's decoder returns nothing (empty query), a request object, or raises the documented protocol error, and each error and response encodes as the protocol prescribes: redirect to the return URL for indirect messages (self-posting form when an OpenID 2 redirect would exceed the URL limit), key-value form with status 200 or 400 for direct ones, and nothing sent to anyone when the return URL is absent or not a usable URL. Encoded redirects and forms carry exactly the response's fields added to the return URL's own arguments.",
 ["inputs"],
 "all queries over the bounded product of modes, namespaces, field presence and malformed values, and responses of sizes around the redirect limit",
 "tests check individual malformed requests; the guarantee is totality over the product",
 [SE, ME, OU], [("decoder", SE), ("encoder and encoding choice", SE), ("protocol error reporting", SE)],
 observe="decode outcome and encoded web response")

prop("C21", "Fetching never leaves http(s) and reports failures in one way",
 "Whatever URL it is given and whatever redirects, statuses, headers and faults the remote side produces, a bundled fetcher contacts only http and https URLs, each one given or named by the previous redirect, and ends after finitely many requests with an error or with the status, headers (found by lower-case name), body and URL of the last answer it got. A body makes the first request a POST carrying it, the request following a 301, 302 or 303 redirect is a GET without one; plain answers of any status and chains of a few ordinary redirects give a response. With exception wrapping on, every failure surfaces as the one documented fetching error carrying its cause, and otherwise the wrapped fetcher reports exactly what the underlying one does. The curl fetcher gives up after its allowed time even on a remote side that stalls, and the curl and urllib fetchers take a body of up to MAX_RESPONSE_KB whole and only slightly more of a longer one.",
 ["inputs", "fault_sequences"],
 "all URL forms and redirect chains up to the bound (including to disallowed schemes and loops), each status class and fault, for each bundled fetcher that can run here against a loopback server",
 "tests exercise a few fixed pages per fetcher; scheme escapes need a redirect at a particular hop",
 [FE], [("URL scheme filter", FE), ("redirect handling", FE), ("exception wrapping", FE)],
 observe="requests seen by the loopback server, response or exception")

prop("C22", "A provider confirms a return URL only if the realm publishes it",
 "The provider reports a return URL as verified only if discovery on the realm's own URL, with no redirect to a different URL, yields a return-URL service listing an address that covers it without wildcards; every other answer of the realm gives false or the documented discovery failure. Realms with a wildcard host are checked at the www host in its place.",
 ["inputs", "fault_sequences"],
 "all combinations of realm, return URL, published addresses and web answers (documents, redirects, failures) from the enumerated sets",
 "open-redirector abuse depends on the combination of redirect, wildcard and published prefix",
 [TR, SE, YD], [("verifyReturnTo", TR), ("return_to matching", TR), ("discovery of return URLs", TR)],
 observe="verification result")

prop("C23", "Numbers and Diffie-Hellman secrets convert exactly on both sides",
 "Every non-negative integer survives conversion to the big-endian two's complement wire form and its base64 form and back, the wire form is the unique shortest one with a clear sign bit, and both parties of a Diffie-Hellman exchange derive the same secret, so that encrypting and decrypting a key of the right length returns it for every modulus large enough for the hash, generator, key pair and hash. Malformed encodings (other than characters foreign to base64, which are skipped) and wrong lengths give a value error, never a wrong number.",
 ["inputs"],
 "all integers and byte strings around every byte-length boundary up to the bound, all small groups with all key pairs, and default-group exchanges over enumerated keys",
 "off-by-one errors in sign padding show only for keys whose top bit is set, i.e. half of random runs or 1/256 of them",
 [CR, DH, OU], [("btwoc conversions", CR), ("Diffie-Hellman", DH), ("base64 helpers", OU)], observe="converted values and derived keys")

prop("C24", "An honest login succeeds in every supported configuration",
 "When relying party and provider both run this library, the user approves and messages arrive unaltered, the login ends in SUCCESS with the discovered claimed identifier for every combination of protocol version, stateful or stateless relying party, association and session types, store, immediate or interactive mode, delegation, identifier selection, extensions, return URL form, message transport and XRDS or HTML discovery, and a refusal ends in CANCEL or SETUP_NEEDED. This stays so over repeated logins with associations expiring or being lost on either side at any time, as long as the side that has to check the signature still holds the key it was made with; a handle the provider has declared invalid is not used again.",
 ["configurations", "histories"],
 "the full product of the listed configuration dimensions and all disturbance histories up to the depth bound",
 "tests cover a few configurations with mocked counterparts; interoperation is a property of the product",
 [CO, SE, DI, ME, AS], [("request creation", CO), ("assertion creation", SE), ("verification", CO)],
 observe="completion outcome")

prop("C25", "Content negotiation picks the server's best acceptable types",
 "For every Accept header and list of offered types, the types reported acceptable are exactly those whose most specific matching entry has a quality above zero, ordered by decreasing quality and then by the offered order; a generated header parses back to the same types and qualities (to one decimal), and of repeated entries the highest quality counts. Malformed entries are ignored without affecting the others.",
 ["inputs"],
 "all headers of up to three entries over the bounded alphabet of types, wildcards, parameters and qualities with all offered lists up to three types",
 "precedence of wildcards and qualities interacts over several entries",
 [AC], [("header parsing", AC), ("matching and ordering", AC)], observe="preferred types")

prop("C26", "An XRI is claimed only as a canonical id proved by an authoritative chain",
 "Every service discovered for an XRI is attributed (claimed identifier) to the CanonicalID of the very document it came from, and only if each XRD's CanonicalID in that document is a direct child (parent, '!', one segment; ignoring letter case and an xri:// prefix) of the previous XRD's and the first one is a direct child of the root authority of the i-name the user typed. Any other chain or mixture of answers yields no such service; an honest chain yields all of its services. Malformed i-names, CanonicalIDs and answers lead to a discovery failure, never another exception. The resolver is asked for the XRI in URI normal form ('%' and non-ASCII escaped, '/', '?' escaped inside cross-references) with the service type as a separate argument.",
 ["inputs", "fault_sequences"],
 "every i-name kind with every chain of up to three or four XRDs over the CanonicalID relations; all combinations of answers to the four resolver queries; all short XRIs over the special characters",
 "tests hold a dozen sample documents and one resolver answer at a time; impersonation needs one wrong link at one place of a chain or two answers that disagree",
 [ET, XI, XR, DI], [("CanonicalID chain check", ET), ("root authority and parent relation", XI), ("combination of resolver answers", XR), ("XRI discovery", DI)],
 observe="claimed identifiers and services returned by discovery of an XRI")

prop("C27", "An authentication request says exactly what was discovered and asked",
 "Whatever is done with an AuthRequest between Consumer.begin and sending it (extensions and arguments added, anonymity switched, return_to arguments added or cleared, the object stored and restored, the request sent several times in any form), the message sent (getMessage, redirectURL, formMarkup, htmlMarkup) goes to the discovered endpoint, keeping its own query arguments, and consists of exactly: the mode for immediate or setup, the realm (realm in OpenID 2, trust_root in OpenID 1), the return URL with its own arguments plus the added ones and a fresh nonce, the discovered claimed identifier (OpenID 2) and OP-local identifier, or identifier_select for an OP identifier, or neither when anonymous, the handle of an unexpired association with that endpoint if there is one, and the extension data added, each under one declared namespace. Without a return URL a request is made only for OpenID 2 setup requests without return_to arguments, and is refused with ValueError otherwise; an anonymous OpenID 1 request is always refused. Requests begun separately have different nonces.",
 ["inputs", "histories"],
 "all sequences of up to two (thorough: three) operations on the request for every kind of service, and all ways of sending it for every service, association state and way of beginning",
 "tests check single requests with mocked endpoints; a field leaking from one transmission into the next, or an extension lost in one form only, needs a sequence",
 [CO, ME, DI], [("building and sending the request", CO), ("encoding", ME), ("identifiers of the endpoint", DI)],
 observe="fields and address of the request as received by the provider")

prop("C28", "Secrets, handles and nonces are fresh and drawn from the random source",
 "Every association secret the provider makes (shared or private) has the full length of its type and every byte of it, at least 32 bits of its handle, and every symbol of the salt of every nonce (of a provider's assertion, or added by a relying party to an OpenID 1 return URL: the current UTC time and at least six alphanumeric symbols) is drawn from the operating system's random source at the time it is made: each byte and symbol can take all its values, streams of random bytes that differ give differing values, and a secret shares no random byte with a handle or nonce, whatever was issued before and with the clock, the process state and every other generator unchanged. No secret, handle or nonce is issued twice in any history under a random stream without repetitions, and every Diffie-Hellman exchange uses a new key pair on both sides, also when the same objects are used again.",
 ["inputs", "histories"],
 "all random streams that differ from a base stream in any one byte drawn, after histories of up to two (thorough: seven) issued values, for every way a provider or relying party makes such a value; long histories under single streams",
 "tests compare two nonces or check a length; a value cached, truncated, seeded from the clock or taken from an ordinary generator looks just as random to them",
 [SE, NO, CO, DH], [("association secrets and handles", SE), ("nonce salt", NO), ("relying party nonce", CO), ("key pairs", DH)],
 observe="secrets stored, handles and nonces on the wire, Diffie-Hellman public keys on the wire")

prop("C29", "Byte strings given where text is documented mean the text they encode",
 "Every operation that documents byte strings as deprecated input for an argument (messages and their namespaces, keys and form action; URLs, realms, return URLs, identities, handles and types given to the relying party and provider; associations, negotiators, KV form and base64 text; stores' server URLs, handles, directory and table names; extension fields, aliases and update URLs; Yadis addresses, service types and Accept headers) gives, on any combination of text and UTF-8 byte strings, the same result, the same kind of error, the same text on the wire and the same content of a store as on the text.",
 ["inputs"],
 "every such operation, all values of its alphabet (ASCII, non-ASCII, empty, malformed) and every subset of its text arguments given as byte strings",
 "tests give byte strings to some of these operations, mostly ASCII and one argument at a time; a conversion lost at one site makes messages and stores that hold byte strings next to text and never match",
 [OU, ME, KV, AS, SE, CO, FI, SQ, AX, SR, TR], [("conversion", OU), ("messages", ME), ("association", AS), ("file store", FI), ("SQL stores", SQ)],
 observe="results, errors, messages on the wire and contents of stores")


if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
    print(len(P))
