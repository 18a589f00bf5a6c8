import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","AS number bootstrap returns exactly the servers of the covering range",
"For every AS number registry document whose ranges do not overlap, looking up an AS number (written 1234, AS1234 or as1234) answers with exactly the range that contains it and that range's server URLs in document order, or with no entry and no URLs when no range contains it. Range ends are inclusive over the whole 32-bit space, single numbers and reversed ranges count, and registry entries that are not AS ranges are ignored. Text that is not a 32-bit AS number is an error, never an answer.",
["inputs"],"every registry document with disjoint ranges, every order of its services and entries, every AS number in every spelling, every in-memory iteration order",
"Tests look up five numbers in one snapshot of asn.json; range ends, adjacent ranges, gaps, single numbers, the ends of the 32-bit space and other document orders are never reached.",
["bootstrap/asn_registry.go","bootstrap/file.go"],[("sorted ranges + binary search","bootstrap/asn_registry.go NewASNRegistry/Lookup"),("range parsing","bootstrap/asn_registry.go parseASNRange/parseASN")],["ASNRegistry.Lookup answer"])

p("C02","IP bootstrap returns the servers of the longest matching prefix",
"For every IPv4 or IPv6 registry document and every address or CIDR block, a bootstrap lookup answers with the most specific registry network that wholly contains the queried address or block, and with that network's server URLs in document order; when no network contains it the answer has no entry and no URLs. Registry entries that are unparsable or belong to the other address family are ignored. A malformed query, or one of the other address family, is an error.",
["inputs"],"every registry document, every nesting of prefixes from /0 to /32 or /128, every address or block (IPv4-mapped IPv6 addresses excepted), every in-memory iteration order",
"Tests look up nine addresses in two snapshots without nested prefixes; nesting, block queries larger than the entry, /0 and host prefixes, and iteration order of the per-length tables are not exercised.",
["bootstrap/net_registry.go","bootstrap/file.go"],[("tables per prefix length, binary search in each, best length kept","bootstrap/net_registry.go NewNetRegistry/Lookup")],["NetRegistry.Lookup answer"])

p("C03","Domain bootstrap returns the servers of the longest matching label suffix",
"For every domain registry document (lower-case entries) and every domain name, a bootstrap lookup answers with the longest registry entry that is a whole-label suffix of the name, compared without regard to letter case and to one trailing dot, and with that entry's server URLs in document order. The root entry (empty string) matches only when nothing longer does. When nothing matches, the answer has no entry and no URLs.",
["inputs"],"every registry document, every domain name over a small label alphabet in every letter case, with or without trailing dot",
"Tests look up eight names; partial-label matches, skipped levels, several candidate suffixes and case/trailing-dot combinations are sampled once or never.",
["bootstrap/dns_registry.go","bootstrap/file.go"],[("label-by-label suffix walk","bootstrap/dns_registry.go Lookup")],["DNSRegistry.Lookup answer"])

p("C04","Entity bootstrap follows the service tag after the last separator",
"For every object-tag registry document and every entity handle, a bootstrap lookup answers with the registry tag equal to the text after the handle's last '-' (or, in the older form, '~') and with that tag's server URLs in document order. A handle without a tag, with an empty tag or with an unknown tag gives an answer with no entry and no URLs, and never an error.",
["inputs"],"every object-tag registry document and every handle over a small alphabet containing both separators",
"Tests look up five handles of one tag; unknown and empty tags, several tags, both separators and tags that are suffixes of each other are not covered.",
["bootstrap/service_provider_registry.go","bootstrap/file.go"],[("split at the last separator, exact map lookup","bootstrap/service_provider_registry.go Lookup")],["ServiceProviderRegistry.Lookup answer"])

p("C05","Registry documents are read faithfully or rejected as a whole",
"For every JSON document, loading it as a bootstrap registry either fails, or maps every entry of every service to exactly that service's parsable URLs in document order, leaving out entries of services without any usable URL. A document that is not valid JSON, or has any service that is not an entries/URLs pair (or the object-tag triple), is rejected entirely; unparsable URLs alone are skipped. Description, publication, version and the raw document are preserved.",
["inputs"],"every document built from a small grammar of services, entries, URLs and malformations, and every truncation of such a document",
"Tests parse one valid and four malformed files.",
["bootstrap/file.go"],[("typed JSON unmarshal, length switch on each service","bootstrap/file.go NewFile")],["NewFile result"])

p("C06","Registry data is fetched once per cache lifetime and never used after it",
"In every history of lookups, explicit downloads, elapsed time and bootstrap server failures, a bootstrap client fetches a registry during a lookup exactly when it holds no data for it or the data it holds is older than the cache timeout, and so never answers from data older than the timeout. Each lookup is answered from the most recently fetched good document. A failed, non-200 or malformed download is reported as an error and neither replaces nor discards the earlier good data.",
["histories","fault_sequences"],"every sequence of operations up to a bounded depth over two registries, with elapsed times around the timeout, changing server content and every kind of server failure",
"Tests do one lookup per registry at one instant with a healthy server, and one with a 404.",
["bootstrap/client.go","bootstrap/cache/memory_cache.go"],[("cache state consulted on every lookup","bootstrap/client.go Lookup"),("parse before save and publish","bootstrap/client.go download/DownloadWithContext")],["Client.Lookup answers/errors","HTTP requests made","DNS()/ASN()/... accessors"],
[dict(name="registries",meaning="in-memory parsed registries",where="bootstrap/client.go Client"),dict(name="mtime",meaning="time a file was saved",where="bootstrap/cache/memory_cache.go")])

p("C07","A registry cache returns exactly what was saved and reports its age truly",
"For every sequence of saves, loads, state queries, timeout changes and elapsed time, both the memory and the disk cache load exactly the bytes most recently saved under a name, independent of later changes to the caller's buffers and of other names, and fail to load names never saved. A name reports absent before its first save, expired once older than the timeout, and good otherwise, except that a disk cache reports that a reload is due when the file is newer than the version this cache object last saved or loaded. Expired files can still be loaded. A disk cache creates its directory when it is needed, reporting truly whether it had to, and reports an error where there cannot be one; when a file operation fails, a save or load that reports success has succeeded.",
["histories"],"every operation sequence up to a bounded depth over two names, two contents of different length, two cache objects sharing a directory, and elapsed times around the timeout",
"Tests run one fixed sequence per cache with real sleeps.",
["bootstrap/cache/memory_cache.go","bootstrap/cache/disk_cache.go","bootstrap/cache/registry_cache.go"],[("copies on save and load","bootstrap/cache/memory_cache.go"),("mtime comparison","bootstrap/cache/disk_cache.go State")],["Save/Load/State results"],
[dict(name="lastLoadedModTime",meaning="mtime of the version last seen by this object",where="bootstrap/cache/disk_cache.go")])

p("C08","Clients sharing a cache directory use and refresh one another's files",
"In every history of lookups, downloads and elapsed time by bootstrap clients (including newly started ones) that share a disk cache directory, a lookup is answered without any download whenever the directory holds an unexpired registry file, and always from the newest such file saved by any of them; otherwise (the file has expired, was never there or has been removed) exactly one download is made and saved for the others. No lookup is answered from data older than the timeout. Accessors never start a download.",
["histories"],"every operation sequence up to a bounded depth by two long-lived clients and freshly started clients over one shared directory, with changing server content, server failures and elapsed times around the timeout",
"No test combines a bootstrap client with a disk cache at all.",
["bootstrap/client.go","bootstrap/cache/disk_cache.go"],[("reload when the shared file is newer","bootstrap/client.go Lookup/freshenFromCache"),("shared file mtime","bootstrap/cache/disk_cache.go")],["Client.Lookup answers","HTTP requests made"])

p("C09","Crashes, torn writes and I/O faults in the cache never yield a wrong answer",
"Whatever point a process is killed at while it refreshes the disk cache, whatever part of its data reached the disk, whichever single file operation fails, and however the file operations of two clients interleave, every lookup that is answered is answered from a complete registry document that was really published and, where no two clients write at once, that was fetched no longer ago than the cache timeout. Once the fault is over and the bootstrap service is reachable, every later lookup by any old or new client succeeds. No interleaving or fault makes a client panic or hang.",
["crash_points","fault_sequences","schedules"],"every crash point and every byte prefix of each write, every failing file operation, and every interleaving at file-operation granularity of two clients' operations up to a preemption bound",
"Tests neither inject faults nor run two processes; no crash point is ever exercised.",
["bootstrap/cache/disk_cache.go","bootstrap/client.go"],[("unparsable cached file forces a download","bootstrap/client.go Lookup"),("mtime taken before the content is read","bootstrap/cache/disk_cache.go Load")],["Client.Lookup answers/errors"],None,"none in the repository; file system calls are intercepted in the Go standard library by a build overlay")

p("C10","Bootstrap services and registries are never mixed up",
"Each registry type is downloaded from its documented file name directly under the configured base URL, whether or not that URL ends in a slash. In every history of lookups by clients configured with different base URLs and registry types over one shared cache, each lookup is answered only from data published by its own base URL for its own registry type. Configuring a base URL is never written back into the caller's URL.",
["histories","configurations"],"every pair of base URLs from a set with colliding shapes (default, with and without slash, with path, port or query), every registry type, every order of operations up to a bounded depth, memory and disk cache",
"Tests only ever use the default base URL with one client.",
["bootstrap/client.go"],[("cache file name includes a hash of a non-default base URL","bootstrap/client.go filenameFor"),("base URL joined on a copy","bootstrap/client.go download")],["HTTP requests made","Client.Lookup answers"])

p("C11","Servers are tried in order until one succeeds or reports not-found",
"For every list of servers and every combination of their behaviours, a query contacts the servers in the order the registry lists them, one request each, and stops at the first that returns a decodable 2xx response, whose content is the result, or a 404, which is reported as object-does-not-exist. Connection errors, other statuses, empty, broken or undecodable bodies lead to the next server, and if all fail the error says no server worked. The response lists every attempt in order with its URL, status, body, error and duration.",
["fault_sequences","inputs"],"every combination of up to four servers each behaving in one of the enumerated ways (refused, broken body, empty body, malformed, unknown class, RDAP error, 2xx, 3xx without location, 4xx, 404, 5xx)",
"Tests cover one server with four behaviours; no test has two servers.",
["client.go","response.go"],[("loop over candidate requests","client.go Do"),("one GET with Accept header","client.go get")],["HTTP requests made","Client.Do result, error and Response.HTTP"])

p("C12","A query ends when its deadline passes or it is cancelled",
"Whatever bootstrap and RDAP servers do (hang before headers, hang mid-body, answer late), a query returns no later than the earliest of its request timeout and its context's deadline or cancellation, and then contacts no further server and reports the timeout or cancellation. The one-call domain, IP and AS number queries return within 30 seconds. A server that answers in time is never cut off.",
["schedules","fault_sequences"],"every combination of server delays/hangs at each stage (bootstrap, each RDAP server, headers or body) and every deadline, timeout or cancellation instant between those events, on a virtual clock",
"Tests never use a timeout, a deadline or a slow server.",
["client.go","request.go","bootstrap/client.go"],[("context carried into every HTTP request","client.go Do/get, bootstrap/client.go download"),("30 s context","client.go doQuickRequest")],["virtual time of return","error returned","requests made after the deadline"])

p("C13","A query without a server goes to the servers its registry names",
"For every query type and query text without an explicit server, domain, AS number, entity and IPv4/IPv6 queries are looked up in the domain, AS, object-tag and matching IP registry respectively, and the RDAP request goes to the URL formed from exactly the server URLs of the matching entry. A query whose registry has no match fails with a no-match error and contacts no RDAP server; query types that have no registry fail without any network traffic. A query with an explicit server never touches the bootstrap service.",
["inputs","configurations"],"every query type, a set of query texts per type covering matches, nested matches, misses and malformed text, with and without explicit server",
"Tests cover only domain queries against one registry entry.",
["client.go","bootstrap/client.go"],[("query type to registry mapping","client.go bootstrapTypeFor"),("requests built from the answer's URLs","client.go Do")],["HTTP requests made","errors returned"])

p("C14","A request URL carries exactly the query to exactly the given server",
"For every server URL, query type, query text and parameter set, the request URL keeps the server's scheme, host, port, base path and query parameters, and adds the documented path and parameters for that query type, so that a receiver decoding the path segment or parameter gets back exactly the query text and nothing in the text can add path segments, parameters or a different host (the prefix length of an IP block is a path segment of its own). Building a URL never changes the request, its parameters or the server URL, and gives the same result every time. A raw URL request is fetched unmodified.",
["inputs"],"every query text up to a bounded length over an alphabet of all URL-significant bytes, every query type, server URLs with and without slash, path, query, fragment and escapes; IP queries over valid addresses and blocks",
"Tests compare about twenty fixed URLs, each built once, never with server query parameters.",
["request.go"],[("percent-escaping of the path segment","request.go escapePath"),("query encoding of parameters","request.go URL")],["Request.URL result","server URL after the call"])

p("C15","Automatic query type detection follows the documented rules",
"For every query text, the automatic request is a raw request for an http(s) URL with a path, a domain request for the host of an http(s) URL without one, an IP request for an IP address or CIDR block, an AS number request for AS-prefixed or bare 32-bit numbers in any letter case, a domain request for other text containing a dot, and an entity request for everything else. The request's query text denotes the same address, block, number, name or handle that was typed, and detection never fails or panics.",
["inputs"],"every text up to a bounded length over an alphabet of digits, dots, colons, slashes, letters of 'as' and hex, plus boundary numbers and URL shapes",
"Tests check the type only, for fourteen texts.",
["request.go"],[("ordered parse attempts","request.go NewAutoRequest")],["NewAutoRequest result"])

p("C16","A response becomes the type it declares, and typed queries return it or an error",
"For every JSON object a server can send, decoding yields an error object if it has an errorCode, else the object named by its objectClassName (an error if that is unknown or not text), else the search result type of whichever results array it has, else a help object; invalid JSON is an error. The domain, IP and AS number queries return the requested type or an error, never neither and never both, reporting an RDAP error response with its numeric code, title and description and any other type as a wrong-response error.",
["inputs"],"every combination of the discriminating members with every JSON value kind, in every member order, at every HTTP status class, for each typed query",
"Tests cover one domain, one nameserver answered to a domain query, and one malformed document.",
["decoder.go","client.go","client_error.go"],[("target selection","decoder.go decodeTopLevel"),("type assertion in helpers","client.go QueryDomain/QueryAutnum/QueryIP")],["Decoder.Decode result","QueryDomain/QueryIP/QueryAutnum result"])

p("C17","One bad field never costs the rest of a response",
"For every RDAP object and every assignment of JSON values of any kind to its fields at any nesting, decoding succeeds; every field whose value has (or converts to) the right type is set to that value, every other field is left unset and noted, bad array elements are dropped alone, and no field affects another. Every member sent, known or unknown, is retrievable unchanged under its name, and exactly the members RDAP does not define are reported as unknown. The result does not depend on member order.",
["inputs"],"every object type, every field of it, every JSON value kind for the field, every pair of fields, nested objects, every member order and in-memory iteration order",
"Tests decode a handful of well-formed documents and one mismatch each for three generic kinds; no RDAP field is tested with a wrong type.",
["decoder.go","decode_data.go","domain.go","entity.go","ipnetwork.go","autnum.go","nameserver.go","common.go","search_results.go","error.go","help.go"],[("per-kind best-effort decoding","decoder.go decode*"),("notes and raw values","decode_data.go")],["decoded structs, DecodeData.Notes/Value/Fields/UnknownFields"])

p("C18","Numbers and flags are decoded exactly or reported, never invented",
"For every numeric or boolean field of every RDAP object and every JSON value, the field ends up holding the value sent when that value (JSON numbers being doubles, or a whole number or boolean written as text) is in the field's range, with fractions truncated, null read as zero, booleans as 0 or 1 and any number but zero as true. Any other value leaves the field unset, with a note, so that a reader never sees a number the server did not send.",
["inputs"],"every numeric/boolean field of every object type and every value from a set of boundary numbers (negative, zero, fraction, each type's limit and beyond, 2^53, 2^64, 1e300), their textual forms, booleans, null, arrays and objects",
"Tests cover 256 in an 8-bit field and a few conversions on synthetic structs; no real numeric field has a boundary test.",
["decoder.go"],[("range check before setting","decoder.go decodeUint"),("pointer fields","decoder.go decodePtr")],["decoded pointer fields and notes"])

p("C19","vCards are decoded faithfully and accessors return the documented component",
"For every JSON value offered as a jCard, decoding either fails as a whole on any malformed property or, when asked to ignore invalid properties, keeps exactly the valid ones, in order and with name, text parameters, type and (nested) value unchanged. Flattened values list every leaf in order as text. The name, e-mail, organisation, address, telephone and fax accessors return the documented component of the first matching property, an address component keeping its position even when other components hold several values, and the empty string when there is none.",
["inputs"],"every jCard of up to three properties drawn from a grammar of valid and malformed properties, parameter shapes and value nestings to one beyond the depth limit, in both modes",
"Tests decode two cards and ten malformed files.",
["vcard.go"],[("property decoding and depth limit","vcard.go decodeVCardProperty/readValue"),("accessors","vcard.go Tel/Fax/getFirstAddressField")],["NewVCard/NewVCardWithOptions result and accessors"])

p("C20","Text sent by a server cannot forge or break output lines",
"For every response and every text a server can place in it (any member value, unknown member name or vCard property name, containing line feeds, carriage returns or NULs), text and WHOIS-style output contain the same number of lines as for the same response with those characters replaced by letters, every server text stays on the one line of its field, and neither carriage returns nor NULs are ever output.",
["inputs"],"every text position of every object type (known fields, unknown names and values, nested, vCard names and values), every placement of each control character, all printer options, and the command line's text and WHOIS output",
"Tests discard the printer's output or compare one clean golden file.",
["print.go","cli.go"],[("cleaning of every printed name and value","print.go cleanString"),("WHOIS cleaning","cli.go safePrint")],["Printer output","RunCLI stdout"])

p("C21","Text output shows every value received, labelled and nested, deterministically",
"For every decoded RDAP object, the default text output shows every non-empty decoded value of every known member and every value of every unknown member, at any nesting, exactly once, on its own line, under its field's label and indented by its nesting depth (vCards as their property values; links in brief form when so configured; the object class name and language tags are not shown). Printing the same response always gives identical bytes, whatever the member order in memory.",
["inputs"],"every object type with every field populated singly and all together, every nesting of object types up to a bounded depth, unknown members of every JSON kind, every in-memory iteration order",
"Tests print one domain object and look only at one golden file.",
["print.go"],[("one print routine per object type","print.go"),("sorted unknown members","print.go printUnknowns/printUnknown")],["Printer output"])

p("C22","Printer options omit exactly what they name",
"For every RDAP object and every combination of printer options, omitting notices or remarks removes exactly the notices or remarks, at every nesting level; brief output removes conformance, notices, remarks, events, port 43, variants and secure DNS at every level; brief links show each link as one line; and the indentation options change only the leading indentation. Every value the options do not name is still printed, apart from an entity's nested objects in brief output.",
["configurations","inputs"],"every combination of the five printer options with every object type fully populated and nested",
"No test sets any printer option other than brief links, and none looks at the output.",
["print.go"],[("option tests around each section","print.go")],["Printer output"])

p("C23","WHOIS-style output maps each value to its own key, in order",
"For every domain response, the WHOIS-style view lists exactly the non-empty domain name, handle, WHOIS server, update/creation/expiration dates, registrar name and IANA ID, statuses, registrant/admin/tech/abuse contact details and name servers under their documented keys, contacts being taken from the first entity with the role, values in response order and keys in first-use order. Other object types give an empty view. No value ever appears under another contact's or field's key.",
["inputs"],"every combination of up to three entities with any subset of roles and any subset of vCard components, events of every kind, and presence or absence of each domain field",
"Tests compare one golden file with one entity set.",
["response.go","vcard.go"],[("first entity with a role","response.go findFirstEntity"),("fixed field mapping","response.go ToWhoisStyleResponse")],["ToWhoisStyleResponse result"])

p("C24","The command line prints the answering server's data, or fails with status 1",
"For every combination of output options and server behaviours, the command exits 0 exactly when the query succeeded, and then writes to standard output the requested forms of the response that answered the query and nothing else: raw output is that response's body byte for byte, JSON output is the same JSON re-indented, text and WHOIS output are their renderings. On any failure it exits 1, writes the reason to standard error and nothing to standard output. Verbose messages go to standard error only.",
["configurations","fault_sequences"],"every combination of the four output options and verbosity with every behaviour of up to two bootstrapped servers or one explicit server, including a first server that fails with a body",
"Tests run seven command lines against one server that always succeeds.",
["cli.go","client.go"],[("output section","cli.go RunCLI")],["RunCLI exit code, stdout and stderr"])

p("C25","Command line options produce exactly the documented request",
"For every documented query type name and alias, query text, server, bootstrap URL, cache and timeout option, the command makes exactly the request documented for that type to exactly the given or bootstrapped server, honours the given timeout, bootstrap URL, cache lifetime and cache directory, and sends its user agent and RDAP accept header. Unknown types, malformed AS numbers, IPs or URLs, a server given with a URL query, conflicting certificate options and unknown experiments are refused with exit status 1 before any network traffic.",
["configurations","inputs"],"every documented type and alias with valid, boundary and malformed query texts, with each combination of server, bootstrap and cache options",
"Tests run one domain query and one unknown type.",
["cli.go","request.go"],[("option handling","cli.go RunCLI")],["HTTP requests received by the servers","exit code","cache directory contents"])

p("C26","Sandbox mode never touches files chosen by the command line",
"For every command line run in sandbox mode, enabled by the embedding program or by the sandbox experiment, no file or directory other than the default bootstrap cache directory and the bundled sandbox certificates is opened, created or written on behalf of an option, whatever paths the cache directory, certificate, key and PKCS#12 options name. Only the bundled certificate names can be loaded, and only under exactly those names.",
["configurations","inputs"],"every combination of the file-naming options with paths that are absolute, relative, traversing, empty or names of bundled files with prefixes and suffixes, in both ways of enabling the sandbox",
"No test enables sandbox mode.",
["cli.go","sandbox/file.go"],[("sandbox tests on each option","cli.go RunCLI"),("fixed list of names","sandbox/file.go IsFileInSandbox")],["file system calls made while the command runs"],None,"none in the repository; file system calls are recorded in the Go standard library by a build overlay")

p("C27","TLS certificates are verified unless explicitly disabled",
"For every combination of options, the command line client accepts an untrusted or wrong-host TLS certificate, from RDAP or bootstrap servers alike, only when certificate verification was explicitly disabled, and otherwise fails without sending the query to that server. Client certificates given on the command line are presented to servers that request one, and none is presented otherwise.",
["configurations"],"every combination of the insecure flag, client certificate options, trusted/untrusted/wrong-host server certificates, and the server's role (RDAP, bootstrap, fallback)",
"No test uses TLS.",
["cli.go"],[("one TLS configuration shared by both HTTP clients","cli.go RunCLI")],["requests seen by TLS servers","exit code"])

p("C28","Concurrent use of independent objects behaves as if each ran alone",
"For every interleaving of goroutines that decode, print, parse vCards, build request URLs, look up a shared registry, query with a client of their own, load bundled sandbox files or run the command line at the same time, each operation gives the result it gives when run alone, and no memory is accessed without synchronisation. This includes the very first uses of any object type in the process.",
["schedules"],"every interleaving at source-statement granularity, up to a preemption bound, of two or three goroutines running these operations from a cold process state",
"Tests are single-threaded; the process-wide decode plan cache is only ever filled sequentially.",
["decoder.go","print.go","request.go","vcard.go","bootstrap/net_registry.go","bootstrap/asn_registry.go","bootstrap/dns_registry.go"],[("concurrent map with load-or-store of finished plans","decoder.go structPlanFor"),("no other mutable package state","request.go, print.go, vcard.go, bootstrap/*")],["operation results"],
[dict(name="structPlanCache",meaning="process-wide cache of decode plans",where="decoder.go")],"none in the repository; scheduling points are inserted at build time by an overlay generated from the current sources")

p("C29","The result of a query does not depend on the queries made before it",
"For every sequence of queries, of any type and outcome, made with one client, each query makes the same RDAP requests and returns the same result or error as it would with a newly created client facing the same servers, apart from registry files already fetched and still fresh. No query changes the request object, the registries, the caller's client settings or earlier responses.",
["histories"],"every ordered sequence of up to a bounded number of queries drawn from a set covering all types and outcomes, on one client",
"Tests create a new client for every query.",
["client.go","request.go","decoder.go","bootstrap/client.go"],[("requests are copied per server","request.go WithServer"),("bootstrap verbose callback restored","client.go Do")],["HTTP requests made","results","request and registry objects after each query"])

p("C30","No server response can crash or hang the client",
"Whatever bytes a server sends as a response body, decoding ends with either an object or an error, never both, without a panic or hang and without altering the caller's bytes. Every object so obtained can be printed with every combination of printer options, converted to the WHOIS-style view and inspected by its own methods, each giving complete labelled lines and identical results when repeated. The same holds for the one-call query helpers and whole queries through a client.",
["inputs"],"every truncation and every single-byte change of representative documents, every JSON value kind in every member position, unusual object class names, deep nesting, invalid UTF-8, repeated members and large documents",
"Tests decode a few well-formed files; hostile or damaged documents are sampled by hand in a dozen unit cases and never printed.",
["decoder.go","print.go","response.go","vcard.go","client.go"],[("reflective decoder with per-kind conversion","decoder.go"),("print routines tolerate absent parts","print.go"),("WHOIS conversion tolerates absent parts","response.go ToWhoisStyleResponse")],["Decoder.Decode result","Printer output","ToWhoisStyleResponse result","Client.Do result"])

p("C31","A query releases everything it acquired, however it ends",
"For every query and every combination of bootstrap and RDAP server behaviours, timeouts and cancellations, when the query returns every HTTP response body it received has been closed, every context or timer it started has been cancelled, and no goroutine it started is left running. The caller's own context is neither cancelled nor otherwise changed.",
["fault_sequences","histories"],"every combination of bootstrap outcome, up to two RDAP servers in each of the enumerated behaviours (errors, redirects, broken or stalled bodies, all kinds of status), deadline and cancellation instants on a virtual clock",
"Tests never look at whether bodies are closed or contexts released; a leak shows only after many queries.",
["client.go","bootstrap/client.go"],[("response bodies closed","client.go get, bootstrap/client.go download"),("query timeout context cancelled on return","client.go Do")],["Close calls on response bodies","contexts of the requests after return","goroutine count after return"])

p("C32","Requests denote what they were made from; deriving one changes no other",
"Every request constructor gives a request of its type whose query denotes exactly the number, address, block, text or URL given, with no server, parameters or timeout of its own and the background context. WithServer and WithContext return a new request which differs from its ancestor in that setting alone (query, type, parameters, timeout and the other setting are kept), in whatever sequence they are applied; neither they, nor later changes to one of the two, nor running one as a query, change the other. A query is sent to its request's server under its request's context. The name of a request type is the one the command line uses for it.",
["histories","all_inputs"],"all sequences of derivations and field changes up to the depth bound over a growing family of requests; numbers around every power of two and ten; addresses in every representation with every mask",
"Tests derive a request once at most; aliasing between requests shows only in longer histories.",
["request.go","client.go","bootstrap/question.go"],[("copying derivation","request.go WithServer, WithContext"),("constructors","request.go New*Request")],["Request fields and Context()","URL and context of the HTTP request"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
