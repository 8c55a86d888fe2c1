import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
R="oauth1-request/src/"
D="oauth1-request-derive/src/"
C="oauth-credentials/src/"
AUTH=R+"serializer/auth.rs"
p("C01","HMAC-SHA1 signatures verify under RFC 5849",
 "For every method, query-less URI, client/token credentials, protocol options and request parameters, the oauth_signature in the produced Authorization header, form body or query string equals the HMAC-SHA1 value that a server computes by RFC 5849 section 3.4 from the received message (header, body and query parameters together) and the two secrets. This holds for whatever type the request is, whatever order or duplication its parameters have, and whatever characters or lengths the inputs have (parameter keys being URI-safe and not protocol names).",
 ["inputs"],"All strings as method, credentials, options and values; all URI-safe keys; any number of parameters; all request kinds; all three outputs.",
 "The tests sign about a dozen fixed requests taken from public documentation; key lengths around the hash block size, odd characters, keys adjacent to oauth_* and duplicate keys are never signed.",
 [AUTH,R+"signature_method/hmac_sha1.rs",R+"signature_method/digest_common.rs",R+"signature_method.rs",R+"util/percent_encoding.rs",R+"request.rs",R+"request/parameter_list.rs",R+"lib.rs"],
 [("make_sign / Serializer for Authorizer",AUTH),("SigningKey",R+"signature_method/hmac_sha1.rs"),("write_signing_key",R+"signature_method.rs"),("UpdateSign, Base64PercentEncodeDisplay",R+"signature_method/digest_common.rs")],
 [("signing key","encode(client secret)&encode(token secret), hashed when longer than a block",R+"signature_method/hmac_sha1.rs")],
 ["the returned header/form/query string"])
p("C02","RSA-SHA1 signatures verify with the public key",
 "For every request as in C01 and every RSA key, the oauth_signature produced by RSA-SHA1 is the RSASSA-PKCS1-v1_5 SHA-1 signature of the RFC 5849 signature base string of the received message, so it verifies with the public key alone and does not depend on the shared secrets. Both supported RSA back ends, and an owned key, a borrowed method and a key viewed as a method, produce the same signature.",
 ["inputs","configurations"],"All requests and secrets as in C01; keys of several sizes; both RSA back ends; owned and borrowed methods.",
 "One fixed vector per back end with a hand-fed signer is tested; the builder is never run end to end with RSA.",
 [R+"signature_method/rsa_sha1.rs",R+"signature_method/rsa_sha1_06.rs",R+"signature_method/rsa_sha1_09.rs",R+"signature_method/digest_common.rs",AUTH],
 [("Sign for RsaSha1Sign",R+"signature_method/rsa_sha1.rs"),("AsRef<RsaSha1> for RsaPrivateKey",R+"signature_method/rsa_sha1.rs")],
 None,["oauth_signature of the produced message"])
p("C03","PLAINTEXT signatures carry exactly the two secrets",
 "For every pair of secrets, decoding the oauth_signature of a PLAINTEXT-signed header, form or query once yields encode(client secret) & encode(token secret), from which both secrets are recovered exactly, for the default and for custom buffer types. The signature does not depend on method, URI or parameters.",
 ["inputs"],"All secret strings (reserved, percent-like, non-ASCII, empty, long), with and without token, all three outputs, default and custom buffers.",
 "The tests only use PLAINTEXT with empty secrets in a doc example; no test reads back a PLAINTEXT signature.",
 [R+"signature_method/plaintext.rs",R+"signature_method.rs",AUTH],
 [("SignatureMethod for Plaintext",R+"signature_method/plaintext.rs"),("write_signing_key",R+"signature_method.rs")],None,["oauth_signature of the produced message"])
p("C04","Messages parse back to exactly the intended parameters",
 "Parsing a produced Authorization header, form body or query string by the grammar of its transport yields exactly the protocol parameters the options call for (oauth_consumer_key, oauth_signature_method and oauth_signature once each; token, callback, verifier, version, nonce and timestamp exactly when applicable, with the given values) and, in form and query but never in the header, exactly the request's parameters with their values. No input value can add, remove, split or alter another parameter, and the text outside a caller-supplied URI, key or pre-encoded value uses only characters that are safe in that transport.",
 ["inputs"],"All values of credentials, options and parameters, including quotes, commas, ampersands, CR/LF, percent signs, NUL and non-ASCII text; all option subsets; all three transports and signature methods.",
 "Tests compare a handful of benign fixed strings; no test tries values with delimiter characters in the header or the query, or all option subsets.",
 [AUTH,R+"serializer/urlencode.rs",R+"util/percent_encoding.rs",R+"signature_method/digest_common.rs"],
 [("append_to_header_encoded, end",AUTH),("append_delim",R+"serializer/urlencode.rs")],None,["the returned header/form/query string"])
p("C05","All signing entry points agree and only append to buffers",
 "For the same credentials, options, method, URI and request, every entry point (builder methods and their per-method shorthands, consuming variants, caller-buffer variants, free functions and a hand-driven serializer) produces the same message for its transport, with the shorthand's own HTTP method. A caller-supplied buffer or URI keeps its prior content unchanged as a prefix of the result.",
 ["inputs","programs"],"Every public entry point that signs or serializes, over generated inputs and buffer prefixes.",
 "Most of the roughly forty public entry points are never called by a test, so a wrong HTTP method or transport in one goes unnoticed.",
 [R+"lib.rs",AUTH,R+"serializer/urlencode.rs"],
 [("Builder methods and shorthand macros",R+"lib.rs"),("Authorizer constructors",AUTH)],None,["results of all entry points side by side"])
p("C06","Builder settings: last one wins, each request is independent",
 "After any sequence of builder operations (set or unset token, callback, verifier, nonce, timestamp, version; clone; sign), each signed message reflects exactly the most recent value of every setting at that moment. Signing never changes a builder or leaves anything behind for later requests, and clones are independent of their originals.",
 ["histories"],"All interleavings of setter calls, clones and signing calls on a family of builders.",
 "Tests build each builder once and sign once; unsetting, reuse, re-setting and cloning are never exercised.",
 [R+"lib.rs",AUTH,R+"util.rs"],[("Builder setters",R+"lib.rs"),("options! setters",R+"util.rs")],
 [("Builder","method, client, token, options",R+"lib.rs")],["messages signed at each step of a history"])
p("C07","Custom signature methods are driven by the documented protocol",
 "A user-defined signature method is created once per request with the two secrets and then receives the HTTP method, the encoded URI, the encoded parameters (protocol ones through their dedicated callbacks, unless it says it does not use nonce or timestamp) in ascending order with exactly one delimiter between neighbours, and finally one end call. Concatenating what it receives as documented gives the RFC 5849 signature base string, the name and signature it returns are what is transmitted, and a parameter it declines appears neither in what it is fed nor in the message.",
 ["inputs","programs"],"All requests and options; signers that override or inherit each callback; nonce and timestamp declined or not; all three transports.",
 "One doc example feeds a signer by hand; no test has a custom signature method, so the call sequence made by the library is never observed.",
 [AUTH,R+"signature_method.rs"],[("Serializer for Authorizer, append_to_header!",AUTH),("Sign default methods",R+"signature_method.rs")],None,["calls received by a recording Sign implementation"])
p("C08","Requests emit parameters in byte order, protocol ones once each",
 "Serializing any request (unit, optional, referenced, sorted list, asserted-sorted iterator) into any user-defined serializer makes each of the eight protocol-parameter calls exactly once and in order, emits every request parameter exactly once with its key and value, keeps all keys, protocol ones included, in ascending byte order, and ends exactly once, returning what the serializer returned. Serializing is repeatable and does not consume the request.",
 ["inputs","programs"],"All request kinds and nestings, all sets of URI-safe keys, in particular keys that sort between or next to the oauth_* names; any number of parameters.",
 "Only one key between the protocol names is tested, with the derive macro; iterators and lists are tested in two doc examples.",
 [R+"request.rs",R+"request/parameter_list.rs",R+"util/oauth_parameter.rs",R+"util.rs",R+"serializer.rs"],
 [("Request for AssertSorted",R+"request.rs"),("OAuthParameter::next, partial_cmp",R+"util/oauth_parameter.rs"),("serialize_oauth_parameters",R+"serializer.rs")],None,["calls received by a recording Serializer"])
p("C09","Percent-encoding is exact and independent of how text is written",
 "Every value is percent-encoded as RFC 5849 section 3.6 prescribes (unreserved characters kept, every other UTF-8 byte as uppercase %XX), exactly once in transmitted parameters and exactly twice in the base string, while pre-encoded values are passed through unchanged. The result depends only on the text a value displays with default formatting, not on its type or on how many pieces, or where split, it writes itself in.",
 ["inputs"],"All Unicode text, all splits of it into write calls, all value types, encoded and raw parameters.",
 "One test encodes each byte once through an internal function and compares table bits; splitting and the double encoding of non-ASCII text through the API are not tested.",
 [R+"util/percent_encoding.rs",R+"serializer/urlencode.rs",AUTH],[("PercentEncode, DoublePercentEncode",R+"util/percent_encoding.rs")],
 [("ENCODE_MAP / double_encode_byte table","which bytes are escaped, and to what",R+"util/percent_encoding.rs")],["values seen by a serializer output and by a recording Sign"])
p("C10","Parameter lists stay sorted and lose nothing",
 "However a parameter list is built (from any container, by collecting, by conversion, by repeated extension), it contains exactly the given pairs as a multiset, ordered by key and then by percent-encoded value, and iteration, slice view, serialization and the recovered container all show that same sequence. Construction from a supposedly sorted list succeeds exactly when the list already has that order, and then changes nothing.",
 ["inputs","histories"],"All lists of pairs with duplicates and shared prefixes, all container and element kinds, all histories of extension.",
 "Tests sort one three-element list; stability of content under extension, borrowed elements, duplicates and the sorted check are untested.",
 [R+"request/parameter_list.rs"],[("cmp, sort, is_sorted_by, Extend",R+"request/parameter_list.rs")],None,["iteration, slice, serialization and container of the list"])
p("C11","Generated nonces do not repeat and are unpredictable",
 "When no nonce is set, every signed message carries a fresh, non-empty nonce that never repeats across requests, builders, clones, threads, forked or restarted processes, even while the clock stands still, and is not a function of the inputs. Nonces have enough randomness (at least 64 bits) and consist of characters that need no escaping.",
 ["schedules","histories","configurations"],"Any number of requests on any number of threads and processes, with and without std, with the clock frozen or stepped.",
 "Tests always pin the nonce; generation is never exercised.",
 [AUTH],[("gen_nonce, get_rng, NONCE_LEN",AUTH)],None,["oauth_nonce of produced messages"])
p("C12","Timestamps are current, positive and overridable",
 "When no timestamp is set, the transmitted and signed oauth_timestamp is the number of whole seconds since the Unix epoch that the system clock shows at the time of signing, and is a positive integer even if the clock is at or before the epoch. When one is set, exactly that value is used, in plain decimal digits.",
 ["inputs","fault_sequences"],"All clock readings including the epoch, before it, sub-second edges and the far future, clock steps between requests, and all 64-bit overrides.",
 "Tests always pin the timestamp, so neither the clock path nor its error path is run.",
 [AUTH],[("get_current_timestamp, serialize_oauth_timestamp",AUTH)],None,["oauth_timestamp of messages signed under an injected clock"])
p("C13","Shared secrets and private keys are not disclosed",
 "Debug output of credentials, tokens, builders, serializers in progress, signature methods and signers never contains a shared secret or private key material, in plain or pretty form. Messages signed with HMAC-SHA1 or RSA-SHA1 do not contain them either; PLAINTEXT messages contain the shared secrets in oauth_signature only.",
 ["inputs","programs"],"All secrets of at least a few characters, all public types with a Debug form at every stage of use, all signature methods and transports.",
 "One test formats one Credentials value; builders, signers and serializers are never formatted and inspected.",
 [C+"lib.rs",R+"signature_method/plaintext.rs",R+"signature_method/rsa_sha1.rs",R+"signature_method/hmac_sha1.rs",R+"lib.rs",AUTH],
 [("Debug for Credentials",C+"lib.rs"),("Debug for PlaintextSign",R+"signature_method/plaintext.rs"),("Debug for RsaSha1",R+"signature_method/rsa_sha1.rs")],None,["Debug strings and produced messages"])
p("C14","Credentials and tokens never mix up their parts",
 "Constructing, borrowing, converting, mapping, copying and reassembling credentials and tokens keeps identifier and secret, and client and token, in their own places with their own values; a mapping function is applied exactly once to each part it covers and to no other. Signing with a token, with its borrowed form, or with its parts gives the same message.",
 ["inputs","histories"],"All string values, including equal ones, and all chains of constructor, accessor, conversion and map calls.",
 "Doc examples call each function once, mostly without checking all four parts.",
 [C+"lib.rs",R+"lib.rs"],[("Credentials, Token methods",C+"lib.rs"),("Builder::with_token",R+"lib.rs")],None,["parts of the resulting values; messages signed with them"])
p("C15","Credentials round-trip through serde as oauth_token pairs",
 "Serializing credentials yields exactly the two fields oauth_token and oauth_token_secret, and deserializing a response in any field order, with any other fields around them, from text or binary self-describing formats, flattened or not, recovers both values exactly. A missing or repeated one of the two fields is an error, never a wrong value.",
 ["inputs"],"All string values and all field sequences with extra, missing, repeated, similarly named and reordered fields, in several data formats.",
 "Two doc examples and a few token streams are tested; field order, near-miss names and formats other than urlencoded are not.",
 [C+"serde_imp.rs"],[("Deserialize for Credentials / Field, Serialize for Credentials",C+"serde_imp.rs")],None,["serialized text and deserialized values"])
p("C16","Derived requests serialize exactly what the struct declares",
 "For every struct the derive macro accepts, the derived request emits one parameter per field that is not skipped, absent or excluded by its predicate, with the declared or renamed key and the value formatted (and encoded or not) as the attributes say, all in ascending byte order and interleaved with each protocol parameter exactly once, just as the equivalent hand-written request. This is independent of field order, types, generics, attribute grouping and names used in the surrounding code.",
 ["programs","inputs"],"All struct declarations in the supported grammar (fields, raw identifiers, types, generics, lifetimes, attribute combinations) and all values.",
 "About fifteen fixed structs are tested; combinations of attributes with option types, key positions and hygiene hazards are sampled once each.",
 [D+"lib.rs",D+"method_body.rs",D+"method_body/helper.rs",D+"field.rs",D+"meta.rs",D+"util/oauth_parameter.rs"],
 [("MethodBody::to_tokens",D+"method_body.rs"),("Field::name",D+"field.rs"),("OAuthParameter ordering",D+"util/oauth_parameter.rs")],None,["calls made by derived impls in generated programs"])
p("C17","The derive macro rejects every malformed declaration",
 "A declaration that is not a struct with named fields, or has an unknown, repeated, ill-typed or wrongly shaped attribute, a key that is not URI-safe, or two parameters with the same key, fails to compile with an error located in that declaration, and the macro itself never panics. Well-formed declarations beside it are unaffected.",
 ["programs"],"All malformed variants of generated declarations, alone and combined, beside well-formed ones.",
 "Some thirty fixed malformed fields are compared with golden compiler output that changes with the compiler version.",
 [D+"lib.rs",D+"meta.rs",D+"container.rs",D+"ctxt.rs",D+"field.rs"],
 [("def_meta!, add_meta_impl!",D+"meta.rs"),("duplicate check",D+"lib.rs"),("UriSafe",D+"meta.rs")],None,["compiler diagnostics for generated programs"])
p("C18","Feature sets and build profiles agree",
 "Every combination of the crate's features that is meant to build does build, and all of them, with and without std and alloc, in debug and in release profile, produce the same messages for the same inputs through the entry points they share.",
 ["configurations","inputs"],"Representative subsets of alloc, std, derive, either, hmac-sha1, rsa-sha1-06, rsa-sha1-09, serde and test, crossed with debug and release builds.",
 "CI runs the same unit tests in four feature sets in debug only; messages are never compared across them.",
 ["oauth1-request/Cargo.toml",R+"lib.rs",R+"util.rs",AUTH,C+"lib.rs"],[("cfg_type_param_hack!, doc_auto_cfg!",R+"util.rs"),("cfg_if blocks",AUTH)],None,["messages produced by one program built in each configuration"])
p("C19","No undefined behaviour and only valid UTF-8 is ever written",
 "No use of the safe public API, whatever the inputs and however values write themselves in pieces, causes undefined behaviour, an invalid memory access or a leak, and every piece of text handed to a caller's writer, formatter, serializer or signer is valid UTF-8. Viewing an RSA private key as a signature method is sound.",
 ["inputs","programs"],"All inputs and pieces, including multi-byte characters at every position relative to escaped bytes; all unsafe blocks of the library reached.",
 "The tests run without any sanitizer or interpreter, where undefined behaviour usually shows no symptom.",
 [R+"util/percent_encoding.rs",R+"signature_method/rsa_sha1.rs"],[("str::from_utf8_unchecked calls",R+"util/percent_encoding.rs"),("pointer cast in AsRef",R+"signature_method/rsa_sha1.rs")],None,["Miri and AddressSanitizer reports; pieces received by monitoring writers"])
p("C20","Concurrent use is equivalent to sequential use",
 "Builders, signature methods, credentials and requests shared by reference among threads, cloned serializers and partially fed signers can be used at the same time without data races, and every message produced is one that sequential use could have produced for its own inputs. A clone taken in the middle of serializing or signing continues independently and identically.",
 ["schedules","histories"],"All interleavings of signing calls on shared objects by several threads; all points at which a serializer or signer is cloned.",
 "All tests are single-threaded and none clones a serializer or signer in use.",
 [AUTH,R+"lib.rs",R+"signature_method/hmac_sha1.rs",R+"signature_method/rsa_sha1.rs"],[("Clone for Authorizer and signers; thread_rng",AUTH)],None,["messages produced by each thread or clone"])
p("C21","Debug builds catch misuse and valid use never panics",
 "With debug assertions, passing a URI that contains a query part to any signing entry point, or feeding the signing serializer a key that sorts before the previous one, panics before any message is returned, however the URI or key is written. No valid use panics in any build, whatever the values, and valid use with assertions gives the same result as without.",
 ["inputs","configurations"],"All positions of a question mark in URIs of any Display type in any pieces; all misordered key pairs, protocol ones included; all valid inputs; debug and release builds.",
 "One test checks one misordered pair and none checks the query-part guard.",
 [AUTH],[("AssertNotContainQuestion in make_sign, check_dictionary_order",AUTH)],None,["panics or their absence"])
p("C22","A run-time choice of signature methods changes nothing",
 "Wrapping a signature method in a two-way choice gives, for either side, exactly the message and exactly the sequence of signer calls that the chosen method alone would give, including custom methods that override any of the signer's callbacks, and nested choices.",
 ["inputs","programs"],"Both sides and nestings of the choice, built-in and custom methods overriding any subset of callbacks, all requests and transports.",
 "The feature that provides it is not enabled in any test.",
 [R+"signature_method/either.rs"],[("delegate!",R+"signature_method/either.rs")],None,["messages and signer calls with and without the wrapper"])
p("C23","The recording serializer reports exactly what was done to it",
 "The recorder returns precisely the sequence of serializer calls made, with their keys, displayed values and kind, and equality of records holds exactly when kind, key and displayed value all agree, whatever the key and value types. Its list of protocol parameters is the sequence every parameterless request makes.",
 ["histories","inputs"],"All sequences of serializer calls and all pairs of records over mixed key and value types.",
 "Doc examples compare a few equal records; unequal ones and mixed types are not checked.",
 [R+"serializer/recorder.rs"],[("Serializer for Recorder, PartialEq for Record",R+"serializer/recorder.rs")],None,["the recorder's history and output"])
p("C24","Unsigned forms and queries carry exactly the request",
 "Serializing a request without signing, as a form, as a query appended to a URI or through the URL encoder with any buffer, yields the existing text followed by exactly the request's parameters in order, joined by '&' and, for a query, introduced by '?' only when there is at least one parameter, with no protocol parameters. Parsing it gives back the keys and values, and it matches the parameters covered by the signature in a header made for the same request.",
 ["inputs"],"All requests and values, empty requests, empty keys and values, any buffers and URI texts.",
 "Doc examples and four fixed cases are compared with literal strings.",
 [R+"serializer/urlencode.rs",R+"lib.rs",R+"request.rs"],[("Urlencoder",R+"serializer/urlencode.rs"),("to_form, to_query",R+"lib.rs")],None,["returned strings"])
p("C25","A failed write or format is never passed off as a message",
 "If the output buffer, a custom signature buffer, or the text representation of the URI or of a value reports an error at any point, the signing or serializing call does not return normally with a message. If no error is reported, the message is the same as with an infallible buffer.",
 ["fault_sequences","inputs"],"Every write of the output and every fragment of every input as the point of failure, for all entry points, transports and signature methods.",
 "No test uses a fallible writer or a failing Display.",
 [AUTH,R+"serializer/urlencode.rs",R+"signature_method/digest_common.rs",R+"signature_method/plaintext.rs",R+"util/percent_encoding.rs"],
 [("unwrap of every write",AUTH),("error propagation in PercentEncode and DoublePercentEncode",R+"util/percent_encoding.rs")],None,["result of each call under an injected error"])
p("C26","The example server accepts genuine requests and no forged ones",
 "The example server accepts every in-time request signed by this library with its registered credentials, by any supported method and with the parameters in header, form or query, and rejects one whose method, path, parameter, credential, verifier, signature or age was changed. It answers every request and never crashes, and the example client completes the whole authorization flow against it.",
 ["inputs","histories","fault_sequences"],"All genuine requests with unusual parameter values, and all single alterations of them, including malformed headers and extreme numbers.",
 "The examples have no tests; a CI script runs the client once.",
 ["examples/src/server/handler.rs","examples/src/server/authorization.rs","examples/src/client/main.rs","examples/src/client/auth.rs","examples/src/client/request.rs"],
 [("verify_and_then",  "examples/src/server/handler.rs"),("auth_param parser","examples/src/server/authorization.rs")],None,["HTTP status and body from the running server"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,x['id']
print(len(P))
