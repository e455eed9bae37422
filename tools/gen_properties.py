import json, os
H='include/boost/url/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
     "quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":[H+f if not f.startswith('src') else f for f in files],
      "state":[{"name":a,"meaning":b,"where":H+c} for a,b,c in state],
      "mechanism":[{"name":a,"where":H+b} for a,b in mech],
      "observe_at":list(obs),"hook_needed":None}})

prop("C01","Parsing accepts exactly the RFC 3986 URI-reference grammar",
 "For every byte string, constructing a url_view or a url from it, or passing it to set_encoded_url, succeeds if and only if the string is a URI-reference of RFC 3986 (the empty string included, hexadecimal digits in either case, IPv4, IPv6, IPvFuture and reg-name hosts, any number of port digits). Every other string is refused with invalid_part, whatever the URL held before. All three entry points give the same verdict.",
 ["inputs"],"every byte string of every length, embedded NUL and non-ASCII bytes included, and for set_encoded_url every previous value",
 "the tests try a few dozen hand-picked strings; acceptance quantifies over all strings, and one wrong table entry or off-by-one in one production is only seen by a string that contains it",
 ["detail/parse.hpp","detail/char_type.hpp","impl/url_view.ipp","impl/url_base.ipp"],
 [("parse_url and the parser productions","detail/parse.hpp"),("per-component character tables","detail/char_type.hpp")],
 obs=["url_view(string_view)","url(string_view)","set_encoded_url"])
prop("C02","Parsing splits a URL into the components RFC 3986 defines",
 "For every accepted string the observers of url_view and of url return the scheme, authority, userinfo, user, password, host, port, path, query and fragment that RFC 3986 assigns to it, and the *_part observers return them with their separator (userinfo_part with '@', port_part with ':', query_part with '?', fragment_part with '#', password_part with ':'), distinguishing an absent component from an empty one. encoded_url returns the parsed string itself, encoded_origin everything before the path, encoded_host_and_port everything between userinfo and path. A view's results point into the caller's buffer and a container's into its own.",
 ["inputs"],"every valid URI-reference",
 "the tests compare some observers on some URLs; a wrong boundary shows only for particular combinations of present, empty and absent neighbours",
 ["detail/parse.hpp","detail/parts.hpp","impl/url_view.ipp","impl/url_base.ipp","url_view.hpp","url_base.hpp"],
 [("mark/resize of the offset table","detail/parse.hpp"),("get with separator trimming","impl/url_view.ipp")],
 [("offset[]","start of each part; adjacent parts tile the string","detail/parts.hpp")],
 ["every observer of url_view and url"])
prop("C03","Decoding accessors return the exact percent-decoded bytes",
 "For every URL, user(), password(), query(), fragment(), a segment's string() and a parameter's key() and value() equal the corresponding encoded text with each percent-triplet, in either hex case, replaced by the byte it denotes and every other character kept, including NUL and bytes above 127. host() does the same for a registered name and returns an IP literal verbatim. The result does not depend on the allocator passed.",
 ["inputs"],"every valid URL with any mixture of literals and escapes in any component, every byte value, every length",
 "tests decode %20, %3A and a few others; there are 256 byte values times two cases per digit times all components and positions",
 ["detail/char_type.hpp","url_view.hpp","url_base.hpp"],
 [("decode, raw_decoded_size","detail/char_type.hpp")],
 obs=["user()","password()","host()","query()","fragment()","segments()->string()","params()->key()/value()"])
prop("C04","Plain setters store any bytes and the getters give them back",
 "For every URL and every byte string, set_user, set_password, set_host, set_query, set_fragment and segments().insert/replace, when they do not refuse for the reasons in C08, make the corresponding decoding getter return exactly that string. The stored text escapes precisely the bytes not allowed literally in that component (upper-case hex), leaves every allowed character as it is, and percent signs in the argument are data. An IPv4 or bracketed IP literal given to set_host is stored verbatim.",
 ["inputs","histories"],"every reachable URL, every byte string argument",
 "the tests set short ASCII words; the claim ranges over all bytes, all components and every previous content",
 ["detail/char_type.hpp","impl/url_base.ipp"],
 [("encoded_size/encode with the component table","detail/char_type.hpp"),("set_* functions","impl/url_base.ipp")],
 obs=["set_user","set_password","set_host","set_query","set_fragment","segments().insert","segments().replace"])
prop("C05","Encoded setters accept exactly the component grammar, verbatim",
 "For every URL and argument, set_scheme, set_encoded_user, set_encoded_password, set_encoded_userinfo, set_encoded_host, set_port, set_encoded_path, set_encoded_query, set_encoded_fragment, segments().insert_encoded/replace_encoded and the *_part setters succeed only if the argument matches the RFC 3986 production of that component (for the *_part setters, with its separator; an encoded password does not begin with ':'; for the path, the production required by the presence of scheme and authority) and otherwise throw invalid_part. On success the matching observer returns the argument unchanged, character for character. An empty argument to a component setter removes the component.",
 ["inputs","histories"],"every reachable URL, every argument string",
 "tests sample a handful of good and bad arguments per setter on near-empty URLs",
 ["impl/url_base.ipp","detail/parse.hpp","detail/char_type.hpp"],
 [("validate/parse_*/match_* before the resize","impl/url_base.ipp"),("match_path_*, parse_hostname, parse_userinfo, match_port","detail/parse.hpp")],
 obs=["set_encoded_*","set_*_part","set_scheme","set_port"])
prop("C06","A URL is valid and self-consistent after any modification history",
 "After every sequence of modifications, successful or throwing, on a url, its text is a valid URI-reference, and every observer (components, host_type, number and contents of segments and parameters, decoded values) returns exactly what a fresh url_view or url parsed from that text returns.",
 ["histories"],"every finite sequence of calls to the modifying functions with arbitrary arguments, starting from any constructible url (segment erasures that leave a path the grammar cannot express are a listed known finding)",
 "tests apply one or two modifications to a few URLs and check one observer; stale derived state only shows after particular sequences",
 ["impl/url_base.ipp","url_base.hpp","detail/parts.hpp"],
 [("resize/split keep the offset table in step","impl/url_base.ipp"),("check_path refuses ambiguous changes","impl/url_base.ipp")],
 [("nseg, nparam, host","derived counts and host type cached beside the text","detail/parts.hpp")],
 ["all observers of url","url_view(u.encoded_url())"])
prop("C07","A setter changes only its own component and documented separators",
 "Setting or removing one component leaves the text of every other component, the kind of the host and the lists of segments and parameters of the others as they were, in every state of the URL. Separators follow the documentation: '//' is added when userinfo, host or port is set without an authority, ':' and '@' around a password, and when clearing host, port or the whole userinfo leaves nothing in the authority its '//' goes too (clearing only the user or the password keeps it, and clearing a missing one changes nothing).",
 ["histories","inputs"],"every reachable URL and every successful call of a component setter",
 "neighbouring components interact through one offset table, so an error shows only for particular neighbours present and particular growth or shrinkage; tests check a few states",
 ["impl/url_base.ipp","detail/parts.hpp"],
 [("resize(id), resize(first,last), split","impl/url_base.ipp")],
 [("offset[]","boundaries of the nine parts","detail/parts.hpp")],
 ["encoded_url() after every setter"])
prop("C08","A refused change leaves the URL untouched (strong guarantee)",
 "If a modifying call throws, because the argument is malformed, because the result would be ambiguous (an authority in front of a rootless path, a path beginning with '//' losing its authority, a colon in the first segment losing its scheme, a segment edit the grammar cannot express), or because any allocation fails, the url is exactly as before: same text, same observers, same segments and parameters, and it stays fully usable. Nothing is leaked or freed twice. Ambiguous changes are always refused with invalid_part rather than applied (except by segments().erase, which is documented not to throw).",
 ["fault_sequences","histories","inputs"],"every reachable URL, every modifying call, every refused argument, and a failure injected at every allocation the call makes",
 "no test makes an allocator fail, and the throwing tests discard the url instead of examining it",
 ["impl/url_base.ipp","detail/storage.hpp","url_base.hpp"],
 [("validate first, allocate second, modify last","impl/url_base.ipp"),("reserve allocates before it changes state","detail/storage.hpp")],
 obs=["every modifying function with a failing allocator or a bad argument"])
prop("C09","Buffer contract: null-terminated, size and capacity truthful",
 "At every point of every history data() is null-terminated at size(), encoded_url() is exactly those size() characters, and capacity() is at least size(). A modification whose result fits in capacity() neither allocates nor moves data(). Every block a url allocates is returned exactly once with the size it was allocated with, by destruction at the latest. The allocator is never asked for more than its max_size() while the result fits in it.",
 ["histories","inputs"],"every history of modifications and arguments of every length, in particular lengths around the current capacity",
 "tests look at data() once and at capacity in one replace scenario",
 ["detail/storage.hpp","impl/url_base.ipp","url_base.hpp"],
 [("alloc_storage::reserve/resize","detail/storage.hpp"),("resize grows the storage and moves the terminator","impl/url_base.ipp")],
 [("size_, cap_, p_","current size, capacity and block","detail/storage.hpp")],
 ["data()","size()","capacity()","allocator calls"])
prop("C10","segments() enumerates the path exactly, in both directions",
 "For every URL, whatever surrounds the path, segments() of a url_view, a const url and a url has size() equal to the number of segments (0 for an empty path, otherwise the number of pieces between slashes, not counting a piece before a leading slash), iterating begin to end yields the pieces in order, iterating back from end yields them reversed, and any mixture of ++ and -- addresses the same pieces; so do the standard algorithms and reverse iterators, for an iterator that declares itself a bidirectional one.",
 ["inputs","histories"],"every valid URL (absolute, relative, rootless and abempty paths; with and without query and fragment), every walk of the iterators",
 "tests iterate one path without a query; the end of the path depends on what follows it and the start on what precedes it",
 ["impl/url_view.ipp","impl/url_base.ipp","impl/url_view.hpp","impl/url_base.hpp"],
 [("segments_type::iterator","impl/url_view.ipp"),("segments_type::iterator","impl/url_base.ipp")],
 [("nseg","number of segments","detail/parts.hpp")],
 ["segments()"])
prop("C11","Segment insert, erase and replace act as list edits on the path",
 "For every url, editing segments() through insert, insert_encoded, replace, replace_encoded and erase (one or a range) changes the list of segments exactly as the same edit on a list of strings would, keeps a relative path relative and an absolute path absolute, and leaves everything outside the path unchanged. A segment inserted into an empty path makes it absolute; erasing every segment makes it empty. The returned iterator denotes the element after the inserted or replaced one, or the one after the erased range.",
 ["histories","inputs"],"every reachable URL and every sequence of segment edits at every position (results that no path can express are refused with invalid_part by insert and replace; for erase, which cannot throw, they are a listed known finding)",
 "one test edits one absolute path with an authority; positions, path kinds and neighbours are not varied",
 ["impl/url_base.ipp","url_base.hpp"],
 [("erase, insert_impl, insert_encoded_impl, check_insert, replace_impl","impl/url_base.ipp")],
 [("nseg","number of segments","detail/parts.hpp")],
 ["segments().insert/insert_encoded/replace/replace_encoded/erase"])
prop("C12","params() enumerates the query parameters exactly, both directions",
 "For every URL, params() of a url_view, a const url and a url has size() 0 without a query and otherwise the number of parameters, where a key extends to the first '=' and its value from there to the next '&' or the end of the query, a last key without '=' has an empty value, and nothing outside the query is ever included. Forward iteration yields them in order, backward iteration reversed, and any mixture of ++ and -- addresses the same parameters.",
 ["inputs","histories"],"every valid URL, with and without path, query and fragment, and every walk of the iterators",
 "tests iterate one query without a fragment",
 ["impl/url_view.ipp","impl/url_base.ipp","detail/parse.hpp"],
 [("params_type::iterator","impl/url_view.ipp"),("params_type::iterator","impl/url_base.ipp"),("parse_query counts","detail/parse.hpp")],
 [("nparam","number of parameters","detail/parts.hpp")],
 ["params()"])
prop("C13","Parameter lookup matches on the decoded key",
 "For every URL and every key given as plain bytes, contains, count, find, operator[] and at agree with a linear scan comparing the decoded key of each parameter to the argument: find yields the first match or end, operator[] and at its decoded value, count the number of matches. A missing key makes operator[] return an empty string and at throw out_of_range.",
 ["inputs"],"every valid URL and every key: equal keys spelled with different escapes, prefixes, empty keys, keys holding '%', NUL, '&' or non-ASCII bytes",
 "tests look up one-letter keys without escapes",
 ["impl/url_view.ipp","impl/url_base.ipp","impl/url_view.hpp","impl/url_base.hpp","detail/char_type.hpp"],
 [("key_equal","detail/char_type.hpp"),("contains/count/find/at","impl/url_view.ipp")],
 obs=["params().contains/count/find/operator[]/at"])
prop("C14","host_type classifies every host by the RFC 3986 rules",
 "host_type() is none exactly when the host is empty, ipv4 exactly when the whole host is four decimal octets 0-255 without leading zeros, ipv6 and ipvfuture exactly for a bracketed IPv6address or IPvFuture, and name otherwise, however the host came to be there: parsing, set_encoded_url, set_encoded_origin, set_encoded_authority, set_host, set_encoded_host or any later modification. Bracketed text that is not an IP literal is never accepted in encoded form, and set_host escapes it into a name.",
 ["inputs","histories"],"every host string (all placements of '::', all group counts, all octet strings, embedded IPv4) and every way to set it",
 "tests list about eighty addresses out of an unbounded family",
 ["detail/parse.hpp","impl/url_base.ipp","host_type.hpp"],
 [("parse_ip_literal, parse_ip_v6, parse_ip_vfuture, match_ip_v4","detail/parse.hpp"),("pt_.host updates","impl/url_base.ipp")],
 [("host","cached host type","detail/parts.hpp")],
 ["host_type()","encoded_host()","set_host","set_encoded_host"])
prop("C15","No input makes the library read or write out of bounds or fail",
 "For every byte string and every history of calls within the documented preconditions, no function reads outside the memory it was given or owns, uses uninitialised bytes, overflows, fails an internal assertion, throws anything from a noexcept function or fails to terminate. Arguments need not be null-terminated.",
 ["inputs","histories"],"every byte string in a buffer of exactly its size, every sequence of observers, iterations and modifications",
 "tests run on well-formed null-terminated literals without sanitizers",
 ["detail/parse.hpp","detail/char_type.hpp","impl/url_base.ipp","impl/url_view.ipp","detail/storage.hpp"],
 [("bounds tests in the parser","detail/parse.hpp"),("memmove arithmetic in resize","impl/url_base.ipp")],
 obs=["address and undefined-behaviour sanitizers, valgrind-style exact buffers, assertions"])
prop("C16","Copies are equal and independent; a moved-to url is the original",
 "A copy-constructed or copy-assigned url has the same text and observers as its source, whatever the target held before, and later changes to either do not affect the other; self-assignment changes nothing. A move-constructed url has the value the source had, and the source is left a usable url. A failed copy leaves an assignment's target unchanged.",
 ["histories","inputs"],"every pair of reachable urls and every interleaving of copies, assignments, moves and modifications",
 "no test copies a url",
 ["basic_url.hpp","detail/storage.hpp"],
 [("copy/move constructors and assignment","basic_url.hpp"),("alloc_storage move","detail/storage.hpp")],
 obs=["copy construction, assignment, move construction of url"])
prop("C17","Scheme names: validated, case-insensitive lookup, normalization",
 "string_to_scheme returns a known scheme exactly for the names ftp, file, http, https, ws and wss in any mixture of case and unknown for every other string, and to_string gives the lower-case name back. normalize and normalize_scheme replace exactly the ASCII upper-case letters of the scheme by lower case and change nothing else in the URL, and are idempotent. set_scheme accepts exactly ALPHA *( ALPHA / DIGIT / '+' / '-' / '.' ) and stores it as given.",
 ["inputs"],"every string, every case pattern, every URL",
 "tests try a few spellings",
 ["impl/scheme.ipp","scheme.hpp","impl/url_base.ipp","detail/char_type.hpp","detail/parse.hpp"],
 [("string_to_scheme/to_string","impl/scheme.ipp"),("normalize_scheme","impl/url_base.ipp"),("is_scheme_char","detail/char_type.hpp")],
 obs=["string_to_scheme","to_string","normalize","normalize_scheme","set_scheme"])
prop("C18","static_pool hands out aligned, disjoint, in-bounds blocks",
 "Every allocation from a static_pool or basic_static_pool, through an allocator for any element type, is either a suitably aligned block lying wholly inside the buffer and disjoint from every block still in use, or fails with std::bad_alloc and changes nothing. A request is refused only when it does not fit behind the blocks already handed out. Rebound and copied allocators share the pool and compare equal exactly when they use the same pool.",
 ["inputs","histories"],"every buffer size and alignment and every sequence of request types and counts, including zero and huge counts",
 "the test makes one string from a large pool",
 ["static_pool.hpp"],
 [("basic_static_pool::allocate","static_pool.hpp")],
 [("top_","first free byte","static_pool.hpp")],
 ["allocator_type<T>::allocate","url and string results using the pool"])
prop("C19","Composite setters replace origin, authority, userinfo as a whole",
 "set_encoded_origin replaces scheme and authority by those of the argument (a path in it is ignored; a query, a fragment or a missing scheme is refused), set_encoded_authority replaces userinfo, host and port, and set_encoded_userinfo/set_userinfo_part user and password, decomposed exactly as parsing would, dropping whatever the argument lacks. Everything outside the replaced range keeps its text. An empty argument removes the range.",
 ["inputs","histories"],"every reachable URL and every argument, including ones with each sub-component absent, empty or present",
 "tests use three or four arguments on simple URLs",
 ["impl/url_base.ipp","detail/parse.hpp"],
 [("resize(first,last) and split","impl/url_base.ipp"),("parse_origin/parse_authority/parse_userinfo","detail/parse.hpp")],
 [("offset[]","boundaries of the parts","detail/parts.hpp")],
 ["set_encoded_origin","set_encoded_authority","set_encoded_userinfo","set_userinfo_part"])
prop("C20","Any URL can be built from parts, in any order, with one result",
 "Every valid URL can be produced from an empty url by the modification functions, by setting its components to the values the observers report. The order in which components are set does not affect the result, as long as each step is permitted, and setting a component to the value it already has changes nothing.",
 ["inputs","histories"],"every valid URL and every permutation of the component setters",
 "tests build no URL from scratch in more than one order",
 ["impl/url_base.ipp","url_base.hpp"],
 [("set_* functions","impl/url_base.ipp")],
 obs=["encoded_url() after permuted setters"])
prop("C21","Every way of building the library behaves the same",
 "For the same inputs and call histories the compiled-library, header-only and standalone (std::string_view) configurations, with assertions on or off, with any optimisation level and whether plain char is signed or unsigned, build (header-only also when several translation units of a program include it) and give the same results, the same exceptions and the same text.",
 ["configurations","inputs","histories"],"every supported build configuration times every input and history",
 "the tests run in one configuration",
 ["config.hpp","detail/config.hpp","src.hpp","url.hpp","urls.hpp"],
 [("BOOST_URL_HEADER_ONLY, BOOST_URL_STANDALONE, BOOST_URL_DECL","detail/config.hpp")],
 obs=["transcripts of the same generated programs"])
prop("C22","Failures are reported through the documented exceptions and codes",
 "Refused arguments raise invalid_part (a std::invalid_argument), missing keys out_of_range (a std::out_of_range), and nothing else escapes except allocation failure. Every library error code has the library's category and a distinct non-empty message and compares equal to the parse_error condition and to nothing in another category.",
 ["inputs","histories"],"every function that can refuse, every refused argument; every error code and every other error value",
 "tests check the type for a few dozen calls",
 ["error.hpp","impl/error.hpp","impl/error.ipp","impl/url_base.ipp"],
 [("raise functions","impl/error.ipp"),("error categories","impl/error.ipp")],
 obs=["exception types","make_error_code","make_error_condition"])
prop("C23","Results depend only on the object and the arguments",
 "Every call's result and effect is determined by the value of the object it is made on and its arguments. It does not depend on the C locale or the global std::locale, on what was done before with other objects, or on calls interleaved on other objects; and different threads may use different objects, or read the same const url or url_view, at the same time without a data race and with the results one thread alone would get.",
 ["inputs","histories","schedules","configurations"],"every program of calls, every locale, every history of other objects before and in between, every interleaving of threads on distinct or const objects",
 "the tests run single-threaded in the C locale with objects used one after another; hidden state shows only in a particular order, locale or interleaving",
 ["impl/scheme.ipp","impl/url_base.ipp","impl/url_view.ipp","impl/error.ipp","detail/char_type.hpp"],
 [("string_to_scheme, to_lower","impl/scheme.ipp"),("error categories, initialised on first use","impl/error.ipp"),("const observers without mutable state","url_base.hpp")],
 obs=["transcripts of the same generated program in different surroundings"])
prop("C24","Work is linear in the input and views never allocate",
 "Parsing a string (accepted or refused), every observer, one complete iteration of segments() or params() in either direction, one lookup, one copy and one modification take time at most proportional to the length of the URL plus the argument; no input makes them quadratic. Parsing into a url_view, the encoded observers and iteration allocate no memory. A modification requests a bounded number of blocks of size proportional to the result, and growing a url in small steps reallocates only a logarithmic number of times.",
 ["inputs","histories"],"every URL and argument, at every length",
 "tests use short strings, on which quadratic work and repeated reallocation cannot be seen",
 ["detail/parse.hpp","detail/storage.hpp","impl/url_base.ipp","impl/url_view.ipp"],
 [("single pass of the parser","detail/parse.hpp"),("geometric growth in reserve","detail/storage.hpp"),("iterators remember their offset","impl/url_view.ipp")],
 obs=["branches taken and bytes moved during the call","blocks requested during the call"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
