GENERAL = "Held on the executions of the run, whose cases are random from VERIF_SEED; trusts the Go toolchain, our generators and the frozen tables under harness/ofxmon/golden (element structure, leaf elements, enumerations, status codes), which were checked against the specification's text in the repository's comments and tags."

prop("C01", "Parsing yields exactly the values a well-formed response contains",
 "For every well-formed OFX response of a supported version, parsing succeeds and the resulting structure holds exactly the document's values: every element's value in its own field, every list entry and message in its own message set in document order, and nothing else. Elements that are absent leave their fields empty.",
 ["inputs"], "All well-formed responses over every message type, list member, optional element and combination of values.",
 "The tests parse a handful of fixed documents which use a fraction of the element table, so a wrong tag, swapped field, shared pointer or lost list entry in any other element goes unseen; the quantifier is all documents.",
 ["response.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "signon.go", "signup.go", "profile.go", "common.go", "types.go"],
 [("decoding of message sets", "response.go: decodeMessageSet, DecodeResponse"), ("element tags", "the xml tags of all message structs"), ("list decoding", "invstmt.go, seclist.go, profile.go, signup.go: UnmarshalXML")],
 ["the *Response returned by ParseResponse and DecodeResponse"],
 "runtime monitor: value oracle over generated documents", "A monitor compares every field of what was parsed with the abstract document the text was written from, using an element table frozen from the specification rather than the code's tags. " + GENERAL)

prop("C02", "Equivalent spellings of a response decode to the same values",
 "A response means the same however it is spelled: SGML with leaf elements open or closed, XML, any legal header layout, line ends, white space and indentation between elements, padding around values, character and entity references, CDATA sections, unknown (vendor) elements, attributes and bare ampersands do not change any decoded value. All these spellings are accepted.",
 ["inputs"], "All documents times all combinations of the spellings which the library accepts.",
 "The tests contain a couple of fixed spellings; the combinations of spelling choices at every position of every document are unbounded.",
 ["response.go", "leaf_elements.go", "util.go", "types.go"],
 [("closing of open SGML leaf elements", "leaf_elements.go, response.go: DecodeResponse"), ("white space trimming", "types.go: UnmarshalXML of each type"), ("version guessing and header readers", "response.go: guessVersion, readSGMLHeaders, readXMLHeaders")],
 ["the *Response of each spelling"],
 "runtime monitor: metamorphic and value oracle", "Every spelling is compared with the document's values and with its other spellings. " + GENERAL)

prop("C03", "Valid responses survive marshalling and re-parsing unchanged",
 "Every valid response built in memory marshals to a well-formed document which contains exactly its values as the standard's elements in the standard's order. Parsing that document again yields an equal response, and marshalling that one reproduces the document byte for byte.",
 ["inputs"], "All valid responses over every message, list member, optional field and value.",
 "The tests round trip a few hand-written values; a field whose tag, omission rule or type is wrong in one direction only shows with the value that uses it.",
 ["response.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "signon.go", "signup.go", "profile.go", "types.go"],
 [("Response marshalling", "response.go: Marshal"), ("message set encoding", "request.go: encodeMessageSet"), ("type and list encoders", "types.go, invstmt.go, seclist.go, signup.go, profile.go: MarshalXML")],
 ["the bytes returned by Response.Marshal", "the response parsed from them"],
 "runtime monitor: independent parser and round-trip oracle", "An independent parser and element table judge the written document. " + GENERAL)

prop("C04", "Hostile input never crashes or hangs; the outcome is a response or an error",
 "Whatever bytes a server sends, decoding and parsing end without a panic, in time and memory proportional to the input, and return either an error or a response; a decoding error never comes with a response. What is returned does not depend on how the data arrives in pieces, a failing reader is never taken for the end of a document, and every accepted response can be validated, marshalled and printed without a crash.",
 ["inputs", "fault_sequences"], "All byte strings, all ways to split them into reads, and all points where a read may fail.",
 "Tests use a few well-formed documents read from memory; hostile bytes, split reads and read errors are not exercised at all.",
 ["response.go", "leaf_elements.go", "util.go", "types.go", "invstmt.go", "seclist.go", "profile.go", "signup.go"],
 [("header readers", "response.go: readSGMLHeaders, readXMLHeaders, guessVersion"), ("token loops", "response.go: decodeMessageSet; util.go; UnmarshalXML of lists")],
 ["panics, hangs and crashes of the process", "the pair of response and error"],
 "runtime monitoring under mutated input and injected read faults", "A supervisor turns crashes, panics and hangs of the running code into violations. " + GENERAL)

prop("C05", "A truncated response is never accepted",
 "No proper prefix of a document which ends before the document's final closing tag is complete is accepted as a response, whether the data simply ends or the read fails. The complete document is accepted.",
 ["inputs", "crash_points"], "All documents and all points at which the data may break off.",
 "The tests never parse a truncated document; the quantifier is every cut of every document.",
 ["response.go", "leaf_elements.go", "util.go"],
 [("strict end of document", "response.go: DecodeResponse, decodeMessageSet")],
 ["the error returned for each prefix"],
 "runtime monitor: truncation fault injection", "Some documents are cut at every byte, others at random ones. " + GENERAL)

prop("C06", "Headers are enforced and the declared OFX version is reported",
 "A response is accepted only if its header is a correct OFX header: SGML headers with the required fields and values for 1.0.2, 1.0.3, 1.5.1 or 1.6.0, or an XML declaration and OFX processing instruction for 2.0.0 to 2.2.0. The version declared there is the version reported, and every supported version and every legal layout of its header is accepted.",
 ["inputs"], "All versions, header layouts and single deviations from a correct header.",
 "Tests contain headers of a few versions in one layout and almost none of the ways a header can be wrong.",
 ["response.go", "common.go", "constants.go"],
 [("SGML header regexps", "response.go: readSGMLHeaders"), ("XML header regexp", "response.go: readXMLHeaders"), ("version choice", "response.go: guessVersion")],
 ["acceptance and Response.Version"],
 "runtime monitor: header acceptance oracle", "Deviations are those which an independent reading of the header grammar rejects. " + GENERAL)

prop("C07", "Malformed values and unknown messages are rejected, never guessed or skipped",
 "A response in which some value is malformed for its type (amount, date, integer, boolean, currency, enumeration), or which holds an unknown or misplaced message set, an unknown transaction, position, security or list entry, stray text, another root, or no signon response is rejected with an error. It is never accepted with the value dropped, zeroed or replaced.",
 ["inputs"], "All elements of all documents times all malformed texts and structural deviations.",
 "The tests cover a few malformed values of a few types outside of documents; whether every element of every message rejects them is not tested.",
 ["response.go", "types.go", "constants.go", "invstmt.go", "seclist.go", "profile.go", "signup.go", "util.go"],
 [("type decoders", "types.go, constants.go: UnmarshalXML"), ("unknown element errors", "response.go, invstmt.go, seclist.go, profile.go, signup.go")],
 ["the error returned for each deviating document"],
 "runtime monitor: single-deviation rejection oracle", "Each deviation is applied to a document which was accepted before. " + GENERAL)

prop("C08", "Response validity verdicts follow the rules, and parsing stays best-effort",
 "A response is reported valid exactly if each of its messages satisfies the standard's rules which the library documents (required and exclusive elements, lengths, status severities, versions), its signon is valid, and its version is a known one; each broken message's own error is reported. Parsing an invalid but well-formed response returns the complete response along with the error, and marshalling refuses invalid responses.",
 ["inputs"], "All responses over all combinations of satisfied and broken validity rules at every place of every message and version.",
 "Tests exercise single rules of single messages with fixed values; combinations, places in lists, versions and error aggregation are not settled by them.",
 ["response.go", "signon.go", "signup.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "profile.go", "common.go"],
 [("validity of messages", "the Valid methods of all responses"), ("error aggregation", "response.go: errInvalid, Valid, ParseResponse")],
 ["verdict and error of Valid, ParseResponse and Marshal"],
 "runtime monitor: independent validity predicate", "The predicate is computed from the abstract document, not from the code. " + GENERAL)

prop("C09", "Requests marshal to exactly what was asked, with the client's settings applied",
 "Every valid request marshals to a well-formed document holding exactly its values as the standard's elements, in the standard's order within messages and of message sets, under its own message set and transaction wrappers. Applying a client's settings fills in the client's version, application and time and nothing else, and marshalling changes nothing in the request beyond the settings it documents.",
 ["inputs", "configurations"], "All valid requests over every message, optional field and value, and all client settings.",
 "Tests compare a few requests with fixed documents; other messages, fields, combinations and orders are not reached.",
 ["request.go", "client.go", "basic_client.go", "signon.go", "signup.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "profile.go"],
 [("Request marshalling", "request.go: Marshal, encodeMessageSet, SetClientFields"), ("tags", "the xml tags of all request structs")],
 ["the bytes returned by Request.Marshal"],
 "runtime monitor: independent parser and element oracle", "An independent parser matches the document element by element, in order, with the values. " + GENERAL)

prop("C10", "Invalid or misplaced requests are refused and never marshalled",
 "Marshalling returns an error and no document if any message of a request is invalid by the standard's rules which the library documents, if a message is put in a message set it does not belong to, if the signon is invalid, or if the version does not exist; the same goes for marshalling responses with misplaced messages or an impossible version. It never refuses a valid request.",
 ["inputs"], "All requests times all broken rules, misplacements and versions.",
 "Tests check a few invalid messages one at a time; misplacement, combinations and versions are hardly touched.",
 ["request.go", "response.go", "common.go", "signon.go", "signup.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "profile.go"],
 [("validity of requests", "the Valid methods of all requests"), ("placement check", "request.go: encodeMessageSet"), ("version check", "common.go: writeHeader")],
 ["error and document returned by Marshal, verdicts of Valid"],
 "runtime monitor: independent validity predicate", "The predicate is computed from the generated values, not from the code. " + GENERAL)

prop("C11", "Written documents are in the chosen version's format, and formats agree",
 "Whatever version, indentation and line-end settings are chosen, the written document starts with exactly that version's header, uses the chosen line ends throughout, leaves leaf elements unclosed only where that version allows it, and is indented only if asked to be. All formats of the same content denote the same elements and values.",
 ["inputs", "configurations"], "All requests and responses times all versions, indentation and line-end settings and client types.",
 "Tests compare a few requests in two or three formats with fixed bytes.",
 ["common.go", "request.go", "response.go", "client.go", "basic_client.go"],
 [("header writer", "common.go: writeHeader"), ("encoder settings", "request.go, response.go: Marshal")],
 ["the bytes returned by Marshal"],
 "runtime monitor: format oracle and cross-format comparison", "Header bytes and line ends are compared with the format's definition; the formats of one document with one another. " + GENERAL)

prop("C12", "Amounts are exact through parsing, arithmetic and printing",
 "Every decimal amount, with point or comma, sign and any number of digits (up to ten thousand characters), is read as exactly that rational number; printing, marshalling and comparing never change it. Whatever has a finite decimal form (of up to 100 decimals, far beyond the 32 characters OFX allows) is printed as a plain decimal that reads back equal, and equality holds exactly for equal numbers.",
 ["inputs"], "All decimal amount texts and all rational numbers.",
 "Tests check a dozen amounts; exactness is a statement on all digits, lengths and signs.",
 ["types.go"],
 [("amount decoder and printer", "types.go: Amount UnmarshalXML, String, MarshalXML, Equal")],
 ["big.Rat of decoded amounts, texts of printed ones"],
 "runtime monitor: exact arithmetic oracle", "Compared with exact rationals computed independently from the text. " + GENERAL)

prop("C13", "Dates denote the right instant through parsing, printing and comparison",
 "Every date in each of the documented forms, with any fractional seconds and any numeric time zone offset, is read as the instant it denotes; constructed dates denote the instant they were constructed for. Printing or marshalling any date yields a date in a documented form which reads back as the same instant, and equality holds exactly for equal instants.",
 ["inputs", "configurations"], "All documented date forms with all offsets, all instants and zones, under all settings of the process's own time zone.",
 "Tests check a handful of dates; fractional offsets, negative ones, historic zones and milliseconds combine without bound.",
 ["types.go"],
 [("date decoder and printer", "types.go: Date UnmarshalXML, String, MarshalXML, Equal, NewDate, NewDateGMT")],
 ["time.Time of decoded dates, texts of printed ones"],
 "runtime monitor: independent calendar oracle", "Compared with calendar arithmetic of our own. " + GENERAL)

prop("C14", "Integers, strings, booleans, UIDs and currencies are read and written faithfully",
 "Integers, strings, booleans, identifiers and currency codes are decoded to exactly their value apart from surrounding white space, encoded so that they decode to the same value, and equal exactly if their values are. Length and form rules of identifiers and the set of known currency codes are judged correctly.",
 ["inputs"], "All values of these types, white space around them and pairs of them.",
 "Tests check a few values of each.",
 ["types.go"],
 [("scalar decoders, encoders, comparisons", "types.go")],
 ["decoded values, printed and marshalled texts, verdicts"],
 "runtime monitor: value oracle", GENERAL)

prop("C15", "Every enumeration maps texts and constants one to one",
 "For every enumeration of the standard, each of its texts corresponds to exactly its exported constant through every way to construct, decode, print and encode it, independent of letter case where documented. Texts and numbers which are not values are rejected and never taken for a value.",
 ["inputs"], "All enumerations, all of their values, and all other texts and numbers.",
 "The generated tests check only some values in one direction; rejecting every other text is beyond them.",
 ["constants.go", "generate_constants.py"],
 [("generated enumerations", "constants.go")],
 ["values and texts of every constructor, decoder, printer and encoder"],
 "runtime monitor: frozen table oracle", "All values are enumerated; other texts and numbers are random. " + GENERAL)

prop("C16", "Status codes have the specification's meaning and severity",
 "For every status code, its meaning and conditions are the specification's, a code the specification does not define is reported as unknown, and a status is valid exactly if its severity is one of those which the specification gives for its code. This also holds for the statuses in parsed documents.",
 ["inputs"], "All status codes and severities.",
 "Tests check two or three codes of about a hundred.",
 ["common.go"],
 [("status tables", "common.go: statusMeanings, statusConditions, Status.Valid")],
 ["results of the status methods"],
 "runtime monitor: frozen table oracle", "All numbers from -20000 to 70000 are tried with all severities. " + GENERAL)

prop("C17", "Generated transaction identifiers are unique, random and well-formed",
 "Every identifier generated by RandomUID is in the recommended 36 character format (hexadecimal digits in groups of 8, 4, 4, 4 and 12), any number of them drawn by any number of goroutines are pairwise distinct, and every bit of them which is left to chance is unbiased and independent of the other bits and of the identifiers drawn before.",
 ["histories", "schedules"], "All histories of draws from any number of goroutines.",
 "A test draws a few identifiers; collisions, bias and races only show over many concurrent draws.",
 ["types.go"],
 [("random identifiers", "types.go: RandomUID")],
 ["the history of identifiers drawn"],
 "offline checker over the recorded history of draws", "Uniqueness and bias are judged over the whole recorded history (bias at 8 standard deviations). " + GENERAL)


prop("C18", "Credentials only ever reach the trusted HTTPS server they are meant for",
 "Whatever URL is used and whatever servers answer, a client sends a request (with its credentials) only over TLS of at least version 1.2, to a server whose certificate is valid, current, trusted and issued for the host of the URL. Other schemes, untrusted servers and redirects to any of these fail with an error before any credential leaves, on first requests as well as on retries.",
 ["inputs", "configurations"], "All clients, calls, URLs, bad certificates, TLS versions and chains of redirects.",
 "No test opens a connection; an unsafe certificate, TLS setting, scheme or redirect can't show in them.",
 ["basic_client.go", "vanguard_client.go", "discovercard_client.go", "client.go"],
 [("https only", "basic_client.go, discovercard_client.go: RawRequest"), ("redirects", "basic_client.go: CheckRedirect"), ("TLS settings", "vanguard_client.go, discovercard_client.go")],
 ["everything which arrives at the servers, encrypted and decrypted", "the call's error"],
 "runtime monitor: information flow watched at recording TLS servers", "Servers of each kind record every byte and are searched for the credentials, in all usual encodings; a stream of trusted servers shows that the monitors see them. " + GENERAL)

prop("C19", "Clients exchange requests and responses with the server faithfully",
 "A client posts to the URL's path and host exactly the document its request marshals to, with the OFX content type, its length and the configured user agent. What a call returns is exactly what the server's answer contains, whatever the transfer coding and fragmentation. Answers with a status other than 200 and transfers cut short are reported as errors.",
 ["inputs", "fault_sequences"], "All requests, bodies, URLs, ways of delivering answers, statuses and points where they end early.",
 "The tests never send a request; the ways in which HTTP transfers vary and fail are unbounded.",
 ["client.go", "basic_client.go", "discovercard_client.go", "vanguard_client.go"],
 [("posting and status check", "basic_client.go: RawRequest"), ("hand-written HTTP", "discovercard_client.go: discoverCardHTTPPost"), ("request and parse", "client.go: clientRequest, clientRequestNoParse")],
 ["requests which arrive at the server", "what the call returns"],
 "runtime monitor: end-to-end comparison at recording TLS servers with fault injection", "Requests are parsed by our own parser; transfers are fragmented, encoded and cut at random. " + GENERAL)

prop("C20", "Every call releases its connections and response bodies",
 "Whatever the outcome of a call (success, error status, invalid or unparsable response, redirect, retry, transfer cut short, handshake failure, oversized answer), every response body which the caller doesn't get is closed no connection stays open once the caller closes the body it got, and no goroutine of the call goes on, so programs can make any number of requests.",
 ["histories", "fault_sequences"], "All clients, calls and outcomes, any number of times.",
 "Leaks don't show in results: only counting bodies and connections over every kind of failing call does.",
 ["client.go", "basic_client.go", "discovercard_client.go", "vanguard_client.go"],
 [("closing bodies", "client.go: clientRequest; basic_client.go: RawRequest"), ("closing connections", "discovercard_client.go; vanguard_client.go: rawRequestCookiesInsecureCiphers")],
 ["open and close of response bodies at the transport", "connections at the server, with garbage collection off", "goroutines which the library started"],
 "runtime monitor: resource counting at transport and server", "Conservation: bodies and connections opened equal those closed; garbage collection, which closes lost ones by finalizers, is off. " + GENERAL)

prop("C21", "Vanguard's empty answers with cookies are retried exactly once, with the cookies",
 "Upon an empty answer of status 200 which sets cookies, whatever its framing, the Vanguard client repeats the same request once, with all of these cookies (and nothing of later or earlier calls), and returns the second answer whatever it is. Nothing else is repeated, by no client. Servers offering only the RSA ciphers which Vanguard needs are accepted, as are modern ones.",
 ["histories", "configurations"], "All sequences of calls, answers, cookies and cipher suites.",
 "No test runs the Vanguard client at all.",
 ["vanguard_client.go"],
 [("retry with cookies", "vanguard_client.go: RequestNoParse, rawRequestCookiesInsecureCiphers"), ("cipher suites", "vanguard_client.go: rawRequestCookiesInsecureCiphers")],
 ["the history of requests at the server", "what the call returns"],
 "online trace checker over the requests at a scripted TLS server", "The history of requests is compared with the only one the script allows. " + GENERAL)

prop("C22", "Discover servers get their exact header, and clients are chosen by URL only",
 "The Discover client sends, byte for byte, the request line, the headers Content-Type, Host (without port), Content-Length and Connection in this spelling and order and no others, then the body, whatever kind of reader it comes from. GetClient returns the special clients for exactly the URLs of Discover and Vanguard (with any slashes at their ends) and the given client for all others, with its settings.",
 ["inputs"], "All paths, bodies, readers and URLs.",
 "The only test checks a few method calls of the basic client; nothing sends anything to a server.",
 ["discovercard_client.go", "client.go", "vanguard_client.go"],
 [("hand-written HTTP", "discovercard_client.go: discoverCardHTTPPost"), ("choice of clients", "client.go: GetClient; discovercard_client.go, vanguard_client.go: init")],
 ["the bytes received by the server", "the client returned"],
 "runtime monitor: byte comparison at a recording TLS server", "The header is the one discovercard_client.go documents as the only one which Discover accepts. " + GENERAL)

prop("C23", "Concurrent use is free of data races and gives the results of serial use",
 "Goroutines which parse, validate, print, marshal, draw identifiers and make requests at once, with clients and documents of their own or shared for reading, including a process's first uses of the library, cause no data race, deadlock or panic, and each gets exactly what it would get alone.",
 ["schedules"], "All interleavings of any number of goroutines.",
 "The tests are sequential and don't run under the race detector.",
 ["basic_client.go", "client.go", "types.go", "response.go", "request.go", "common.go", "vanguard_client.go", "discovercard_client.go", "leaf_elements.go"],
 [("package state: regular expressions, tables, registered clients", "response.go, types.go, client.go, constants.go, leaf_elements.go")],
 ["race reports", "each operation's result", "orders of the operations' beginnings and ends"],
 "race detector with injected delays and result comparison", "Under the race detector; distinct interleavings are counted from the recorded event logs. " + GENERAL)

prop("C24", "Results depend only on arguments; inputs and others' results are left alone",
 "Parsing, validating, printing and marshalling give the same result for the same arguments whatever was done before, by whichever client, and however often. They don't change their arguments (except where documented: a client's settings in a request's signon), responses share no memory with one another or the data they were parsed from, and clients change no settings of the process or of the caller's HTTP client.",
 ["histories"], "All histories of operations before and after.",
 "Tests start from a fresh state each and look at one result; interference needs histories.",
 ["response.go", "request.go", "basic_client.go", "client.go", "types.go", "leaf_elements.go", "vanguard_client.go"],
 [("package state", "response.go, types.go, client.go"), ("SetClientFields, Marshal", "request.go"), ("HTTP client set up", "basic_client.go, vanguard_client.go")],
 ["results before and after a history", "deep copies of arguments before and after"],
 "runtime monitor: purity and determinism checked over recorded histories", "Deep snapshots of arguments and results are compared across histories. " + GENERAL)

prop("C25", "The download commands save exactly what the server sent, or report a failure",
 "After a download command of ofx succeeded, the file named (response.ofx by default) holds exactly the bytes of the server's answer, nothing of an older file, and no other file was touched. If the answer doesn't arrive completely, has another status or can't be written completely, the command says so and exits with a nonzero status; files are left alone if nothing arrived.",
 ["inputs", "fault_sequences"], "All answers, deliveries, older files and faults of server, connection and disk.",
 "The command has no tests.",
 ["cmd/ofx/bankdownload.go", "cmd/ofx/ccdownload.go", "cmd/ofx/invdownload.go", "cmd/ofx/profiledownload.go", "cmd/ofx/util.go", "cmd/ofx/main.go"],
 [("saving", "cmd/ofx/util.go, *download.go")],
 ["files, exit status and output of the process"],
 "runtime monitor of the command as a process, with fault injection", "Real processes against scripted servers, unwritable paths and a full device. " + GENERAL)

prop("C26", "Each ofx command sends exactly the request its options ask for",
 "Every command sends one request holding exactly the options given (user, password, institution, application, version, client identifier, format, accounts) and the documented defaults for the rest, a fresh transaction identifier and the current time. A dry run prints that request and sends nothing. A password which isn't an option is asked for on the terminal without showing it.",
 ["inputs"], "All commands and combinations, orders and spellings of options.",
 "The command has no tests.",
 ["cmd/ofx/command.go", "cmd/ofx/util.go", "cmd/ofx/bankdownload.go", "cmd/ofx/ccdownload.go", "cmd/ofx/invdownload.go", "cmd/ofx/profiledownload.go", "cmd/ofx/banktransactions.go", "cmd/ofx/cctransactions.go", "cmd/ofx/invtransactions.go", "cmd/ofx/get_accounts.go"],
 [("options", "cmd/ofx/command.go: defineServerFlags, checkServerFlags; cmd/ofx/util.go: newRequest"), ("requests", "cmd/ofx/*download.go, *transactions.go, get_accounts.go")],
 ["the request received by the server or printed", "the terminal"],
 "runtime monitor: requests of the command compared at a recording TLS server", "The document is parsed by our own parser and compared with the one which the options demand, element by element. " + GENERAL)

prop("C27", "The printing commands show every balance, transaction and account, in order",
 "For every valid response, transactions-bank and transactions-cc print the first statement's ledger balance with its currency and date and then every one of its transactions, in order, with date, amount, currency, type, name (or the payee's name) and memo. transactions-inv prints the available cash (unless zero), every bank transaction by subaccount, and every investment transaction with its type, date, security, units, prices, totals and currency as far as it has them, in order. get-accounts prints every entry's account with all its identification. They print nothing else, report a signon status other than 0 as a failure instead, and never crash on a valid response.",
 ["inputs"], "All valid responses.",
 "The command has no tests.",
 ["cmd/ofx/banktransactions.go", "cmd/ofx/cctransactions.go", "cmd/ofx/invtransactions.go", "cmd/ofx/get_accounts.go"],
 [("printing", "cmd/ofx/banktransactions.go: printTransaction; invtransactions.go: printInvTransaction...; get_accounts.go")],
 ["output and exit status of the process"],
 "runtime monitor: printed output compared with the served document", "The output is parsed and compared line by line with the document. " + GENERAL)

prop("C28", "detect-settings tries every setting in order and reports the first accepted one",
 "detect-settings tries each combination of application, version and indentation in order, once with the user's credentials and once anonymously (never sending the password with the anonymous user), waits the delay between attempts, stops at the first which the server answers with a valid response (whatever status that reports), and prints exactly the settings of that attempt. If none works it says so and fails. However a server turns an attempt down, the search goes on.",
 ["inputs", "histories"], "All servers, i.e. all sequences of ways to turn attempts down before accepting one.",
 "The command has no tests.",
 ["cmd/ofx/detect_settings.go"],
 [("search", "cmd/ofx/detect_settings.go: tryProfile, detectSettings")],
 ["the history of requests at the server", "output and exit status"],
 "online trace checker over the command's attempts at a scripted TLS server", "The history of requests is compared with the only one the server's answers allow. " + GENERAL)

prop("C29", "ofx reports every failure with message and status, and sends nothing on misuse",
 "Every run of ofx which can't do what it was asked (missing, malformed or unknown options and commands, overlong values, unusable URLs, unreachable, untrusted or failing servers, unreadable responses) prints a message, no results, and exits with a nonzero status; runs with mistaken options send nothing. Asking for help succeeds and lists the commands or options. The password is never printed.",
 ["inputs", "configurations"], "All command lines and servers.",
 "The command has no tests.",
 ["cmd/ofx/main.go", "cmd/ofx/command.go", "cmd/ofx/util.go", "cmd/ofx/detect_settings.go", "cmd/ofx/get_accounts.go"],
 [("dispatch", "cmd/ofx/main.go"), ("checking of flags", "cmd/ofx/command.go: checkServerFlags; each command's check...Flags")],
 ["exit status and output of the process", "what arrives at the server"],
 "runtime monitor of the command as a process", "Real processes; the passwords searched for are recognizable ones. " + GENERAL)

prop("C30", "go generate reproduces the enumerations, whatever was there before",
 "Running go generate in the repository writes the enumerations' source and tests anew: always the same, whatever older output, settings or locale it finds, changing no other file. The library can be built from what was generated, has the constants, numbers and texts of the standard's enumerations and of the repository's own constants, and the generated tests pass.",
 ["inputs", "configurations"], "All states of the tree's generated files and settings of the process.",
 "No test runs the generator.",
 ["generate_constants.py", "common.go", "constants.go"],
 [("tables and templates", "generate_constants.py"), ("go:generate", "common.go")],
 ["the files written", "the library built from them, as a process"],
 "runtime monitor: the generator run as a process, its output executed under the enumeration monitor", "What was generated is built and run under C15's monitor, its constants are compared with the repository's, and its tests are run. " + GENERAL)
