#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
MN="src/bip39/mnemonic.rs";UT="src/bip39/util.rs";LA="src/bip39/language.rs";MT="src/bip39/mnemonic_type.rs";SE="src/bip39/seed.rs";CR="src/bip39/crypto.rs"
XP="src/bip32/extended_key/extended_private_key.rs";XU="src/bip32/extended_key/extended_public_key.rs";EK="src/bip32/extended_key/mod.rs";PK="src/bip32/private_key.rs";PU="src/bip32/public_key.rs";CN="src/bip32/child_number.rs";DP="src/bip32/derivation_path.rs";PF="src/bip32/prefix.rs"

p("P01","Entropy and mnemonic phrase encode each other exactly as BIP39 says",
"For every entropy of 16, 20, 24, 28 or 32 bytes and every supported language, building a mnemonic from it yields exactly the BIP39 phrase (entropy followed by the leading entropy-bits/32 bits of its SHA-256, cut into 11-bit word indices, words joined by single spaces), and parsing that phrase gives back the same entropy, phrase and language. Entropy of any other length is rejected with a key-size error naming its size in bits. The phrase, entropy, language, text, bytes and hexadecimal views of one mnemonic all agree.",
["inputs"],"every entropy byte string of any length, both languages",
"Tests use 24 published vectors plus one random 12-word value, English only, with 12/18/24 words; 2^128..2^256 entropies, 15- and 21-word phrases and Chinese are never compared with the standard.",
[MN,UT,MT,CR],[("entropy+checksum bit stream to 11-bit words",MN+": from_entropy_unchecked; "+UT+": BitIter"),("11-bit words back to bytes",MN+": phrase_to_entropy; "+UT+": BitWriter"),("size table",MT)],
["Mnemonic::from_entropy","Mnemonic::from_phrase","phrase/entropy/language/into_phrase/Display/LowerHex/UpperHex"])

p("P02","A phrase is accepted exactly when its words, count and checksum are right",
"A phrase in canonical spelling is accepted for a language if and only if it has 12, 15, 18, 21 or 24 words, every word is in that language's list, and the checksum bits match; standalone validation and parsing give the same verdict on such phrases, and whatever standalone validation accepts, parsing accepts. A rejected phrase is reported as an unknown word, a wrong word count (with the count), or a bad checksum, according to which of these faults it has. No accepted mnemonic ever carries entropy that does not match its own phrase.",
["inputs"],"every phrase: valid ones, and valid ones with words replaced, swapped, dropped, added, misspelled, taken from another language or with altered checksum",
"No test feeds an invalid phrase at all: rejection, error classification and validate() are untested.",
[MN,LA,MT,UT],[("word lookup, count check, checksum comparison",MN+": phrase_to_entropy"),("word count table",MT+": for_word_count"),("checksum bits",UT+": checksum")],
["Mnemonic::from_phrase","Mnemonic::validate","ErrorKind"])

p("P03","Recovery does not depend on how a valid phrase was spelled or spaced",
"If a phrase is valid, then any rewriting of it that changes only the amount and kind of Unicode whitespace around and between words, or replaces characters by NFKD-equivalent ones, parses to the same mnemonic: same canonical single-space NFKD phrase, same entropy, same seed under every password.",
["inputs"],"every valid phrase, every whitespace layout, every compatibility-equivalent respelling of its characters",
"Tests only parse phrases that are already canonical.",
[MN,UT],[("whitespace split + NFKD + join",MN+": from_phrase; "+UT+": IterExt::join")],
["Mnemonic::from_phrase","Mnemonic::phrase","Seed::as_bytes"])

p("P04","The seed is the BIP39 stretching of phrase and password",
"For every mnemonic and every password string the seed is the 64-byte output of PBKDF2-HMAC-SHA512 with 2048 rounds over the phrase bytes (UTF-8; GB18030 for Simplified Chinese, as the code documents) salted with the NFKD form of \"mnemonic\" followed by the password. Passwords that are canonically or compatibility equivalent give the same seed, and the byte, slice, debug and hexadecimal views of a seed agree.",
["inputs"],"every valid mnemonic in every language and size; every Unicode password of every length",
"Tests use the single password TREZOR, one other ASCII password and one Unicode password, English only; long passwords/phrases, combining sequences, Hangul and Chinese mnemonics are not covered.",
[SE,CR,MN],[("salt normalisation + PBKDF2",SE+": Seed::new; "+CR+": pbkdf2"),("phrase bytes per language",MN+": as_bytes")],
["Seed::new","Seed::as_bytes","AsRef<[u8]>","Debug/LowerHex/UpperHex","Mnemonic::as_bytes"])

p("P05","The root key is the BIP32 master key of the seed",
"For every seed of 16, 32, 64 or 128 bytes the root private key and chain code are the halves of HMAC-SHA512 keyed with \"Bitcoin seed\" over the seed, with depth 0, zero parent fingerprint and child number 0. Every other seed length is refused with a seed-length error, and no seed ever causes a crash.",
["inputs"],"every byte string as seed",
"Tests use a handful of fixed 16- and 64-byte seeds and never an unsupported length.",
[XP],[("length check and HMAC",XP+": ExtendedPrivateKey::new")],
["XPrv::new","XPrv::new_from_path with the empty path","attrs","to_bytes"])

p("P06","Private child derivation follows BIP32 for every parent and index",
"For every extended private key and every 32-bit child index, the derived child has the private key, chain code, depth, parent fingerprint and child number that BIP32 prescribes, with the hardened rule applying exactly to indices from 2^31 upward. Deriving leaves the parent unchanged, and a parent already at depth 255 yields a depth error instead of a child.",
["inputs"],"every parent key (including keys with leading zero bytes, 1 and n-1), every chain code, depth and index",
"Tests walk two published chains with a dozen indices; leading-zero keys, deep parents and depth overflow are never reached.",
[XP,PK,PU],[("CKDpriv",XP+": derive_child; "+PK+": PrivateKey::derive_child"),("fingerprint",PU+": PublicKey::fingerprint")],
["XPrv::derive_child","XPrv::attrs","XPrv::to_bytes"])

p("P07","Public derivation agrees with private derivation and refuses hardened",
"For every extended private key and non-hardened index, deriving the child and then taking its public key gives the same extended public key (key, chain code, depth, parent fingerprint, child number) as taking the public key first and deriving publicly, and both equal the BIP32 result. Deriving a hardened child from a public key is always refused with a child-number error, and a public key at depth 255 yields a depth error.",
["inputs"],"every extended key and every 32-bit index; every non-hardened path",
"One fixed key and index (2) is compared in the tests; hardened refusal and depth overflow on public keys are untested.",
[XU,XP,PU],[("CKDpub",XU+": derive_child; "+PU+": PublicKey::derive_child"),("neutering",XU+": From<&ExtendedPrivateKey>")],
["XPub::derive_child","XPub::derive_from_path","XPrv::public_key"])

p("P08","Deriving along a path equals deriving its steps one by one",
"For every seed and path, deriving from the seed along the whole path, deriving from the root key along the path, deriving along any prefix and then the rest, and deriving child by child all give the same key, private or public. A derivation fails exactly when some single step fails (depth beyond 255, hardened step from a public key), with that step's error, and the depth of the result is the depth of the start plus the length of the path.",
["inputs","histories"],"every start key, every path of every length from 0 past the depth limit, every split of it",
"Tests derive complete fixed paths of at most six steps and never compare the different routes or reach the depth limit.",
[XP,XU,DP],[("path folding",XP+": new_from_path, derive_from_path; "+XU+": derive_from_path"),("path operations",DP)],
["XPrv::new_from_path","XPrv::derive_from_path","XPub::derive_from_path"])

p("P09","Serialised extended keys are exact BIP32 Base58Check and round-trip",
"For every extended private or public key and every standard prefix, the text form is the Base58Check encoding of version, depth, parent fingerprint, child number, chain code and 33 key bytes in the BIP32 layout; it starts with the prefix's four letters, and every way of producing it gives the same text. Parsing that text returns an equal key with the same attributes and prefix.",
["inputs"],"every key, attribute combination and prefix",
"Tests compare a few dozen fixed xprv/xpub strings; other prefixes, extreme depths, fingerprints, indices and chain codes are not exercised.",
[EK,XP,XU,PF],[("78-byte layout + Base58Check",EK+": write_base58"),("parser",EK+": FromStr"),("prefix constants",PF)],
["ExtendedKey::to_string/write_base58","XPrv::to_string","XPub::to_string","FromStr"])

p("P10","Only well-formed extended keys parse; everything else is rejected",
"Parsing a text as an extended private (public) key succeeds only if it is the Base58Check encoding of a 78-byte payload whose prefix names a private (public) key and whose key field is a zero byte and a scalar in 1..n-1 (a compressed point on the curve), and whose parent fingerprint and child number are zero if its depth is zero. Text damaged in any character, truncated, extended, of the wrong kind or with an invalid key is rejected with an error, and whatever is accepted re-serialises to the identical text.",
["inputs"],"every text: all corruptions of valid keys, all payloads with correct checksum but invalid fields, arbitrary strings",
"The tests contain no invalid extended key at all.",
[EK,XP,XU,PF,PK,PU],[("checksum/length check",EK+": FromStr"),("kind, tag and range checks",XP+"/"+XU+": TryFrom<ExtendedKey>"),("scalar and point validity",PK+"/"+PU+": from_bytes")],
["str::parse::<XPrv>","str::parse::<XPub>","str::parse::<ExtendedKey>","TryFrom<ExtendedKey>"])

p("P11","Key equality means every field is equal",
"Two extended private keys compare equal (by == and by constant-time comparison) exactly when their private keys, chain codes, depths, parent fingerprints and child numbers are all equal, and likewise for extended public keys with their public keys. Equality does not depend on whether a key was derived, parsed or cloned.",
["inputs"],"all pairs of keys, especially pairs differing in one field or one bit, and the same key reached by different routes",
"Tests only assert equality of equal keys; no test compares two different keys.",
[XP,XU],[("ConstantTimeEq",XP+": ct_eq, PartialEq"),("derived PartialEq",XU)],
["XPrv == XPrv","XPrv::ct_eq","XPub == XPub","ExtendedKeyAttrs =="])

p("P12","Derivation path text and values convert back and forth without loss",
"Every sequence of child numbers prints as \"m\" followed by \"/index\" per step with an apostrophe exactly on hardened steps, and parsing that text gives the same path; decimal indices below 2^31 are the only ones accepted and any other text is rejected. Child numbers keep index and hardened flag apart for all 2^32 values, through bytes, integers and text. Editing a path (push, extend, parent, iteration) behaves like editing a list.",
["inputs","histories"],"all 2^32 child numbers, all paths, all edit sequences, arbitrary text",
"Tests use six fixed paths, one invalid string and one overflow value.",
[CN,DP],[("ChildNumber encoding",CN),("path parsing, printing, editing",DP)],
["ChildNumber","DerivationPath"])

p("P13","Version numbers and key prefixes map to each other consistently",
"For every 32-bit version number, conversion to a prefix either fails or gives the four letters with which a key of that version is Base58-encoded, keeps the version unchanged, and succeeds exactly when those four characters are letters. The eight named constants map to the published version numbers and letters, integer, byte and slice conversions agree, and a prefix is classified private or public by its letters only.",
["inputs"],"all 2^32 version numbers; all byte slices",
"Tests check the eight constants only.",
[PF],[("version to letters",PF+": from_version"),("classification",PF+": is_public, is_private")],
["Prefix::try_from","Prefix::from_bytes","Prefix::version/to_bytes/as_str/is_private/is_public"])

p("P14","Signatures are deterministic, low-S, valid and recover the signer",
"For every secret key and every 32-byte message digest, signing returns a 64-byte signature and recovery id that verify under the matching public key for that digest and no other (digests being compared modulo the group order), recover exactly that public key, have S in the lower half range, and are the same every time; no two different (key, digest) pairs share a nonce, and no nonce is unusually short. A message of any other length is refused with an error.",
["inputs"],"every secret key, every digest (including zero and values above the group order), every message length",
"Signing has no test at all.",
["src/lib.rs","src/error.rs"],[("sign and serialise","src/lib.rs: ecdsa_sign")],
["ecdsa_sign"])

p("P15","No input can make the library panic",
"Every public parsing, conversion, validation, derivation and signing operation, given any text or bytes its signature admits (other than operations documented to panic and word indices beyond the list), returns a value or an error; it never panics, overflows or aborts.",
["inputs"],"arbitrary Unicode text and byte strings, near-valid mutants of every accepted format, arbitrary key-tweak bytes",
"Tests feed almost only valid input.",
[MN,LA,MT,EK,PF,CN,DP,PK,PU,"src/lib.rs"],[("error returns instead of unwrap",PK+"/"+PU+": derive_child; parsers")],
["all FromStr/TryFrom impls","Mnemonic::from_phrase/validate/from_entropy","Language::*","WordList::get_words_by_prefix","PrivateKey/PublicKey traits","ecdsa_sign"])

p("P16","Freshly generated mnemonics use full, independent randomness",
"Every newly generated mnemonic has the requested number of words and language, is valid, and draws all of its entropy bits from fresh randomness: over many generations, in any number of threads or processes, no two coincide, no entropy bit is constant and no two bits are tied together.",
["inputs","schedules","histories"],"every mnemonic type and language; every sequence of generations across threads and process restarts",
"Tests generate single mnemonics and look only at their format.",
[MN,CR],[("random bytes",CR+": gen_random_bytes"),("size per type",MN+": Mnemonic::new; "+MT)],
["Mnemonic::new"])

p("P17","Secrets are wiped from their buffers when their owner is dropped",
"When a mnemonic, a seed, an extended key in serialised-field form, or the private-key text handed out by serialisation is dropped, by whatever control path, the memory that held its secret no longer contains it at the moment that memory is released. This holds for clones independently: dropping one wipes only its own copy and leaves the other usable.",
["inputs","histories"],"every secret value and size, every order of clone, move, consume and drop, including unwinding",
"No test observes memory after a drop.",
[MN,SE,EK,XP],[("Zeroizing fields",MN),("Drop impls",SE+"; "+EK),("Zeroizing<String>",XP+": to_string")],
["freed memory seen by the allocator"])

p("P18","Debug output and errors never reveal a private key",
"The debug rendering of an extended private key, plain or pretty, does not depend on its private key at all, and error values and messages reveal nothing about the secret text or bytes they were given beyond the kind of fault and the word count or size.",
["inputs"],"every private key; every malformed secret input",
"No test formats a private key or inspects error text for secrets.",
[XP,"src/bip32/error.rs","src/bip39/error.rs","src/error.rs"],[("redacting Debug",XP+": Debug"),("field-free errors","src/bip32/error.rs")],
["format!(\"{:?}\", XPrv)","Display/Debug of Error and ErrorKind"])

p("P19","Word lists are the official ones and every lookup agrees with them",
"Each supported language exposes exactly the 2048 words of the official BIP39 list in order: index-to-word and word-to-index are inverse, any other word is unknown, prefix search returns exactly the list's words starting with the prefix in list order, and the two languages share no words. Language codes are matched case-insensitively, only for supported languages, and detecting the language of any valid phrase returns the language it was made in.",
["inputs"],"all word indices, all prefixes and non-words, all phrases, all code strings",
"Tests look up three English prefixes and two codes; Chinese lookups and index order are untested.",
[LA],[("lazily built list and map",LA+": gen_wordlist, gen_wordmap"),("prefix search",LA+": get_words_by_prefix"),("detection",LA+": from_phrase, from_language_code")],
["WordList::get_word/get_words_by_prefix","WordMap::get_bits","Language::from_phrase/from_language_code"])

p("P20","Results depend only on arguments, never on history or concurrency",
"Every operation is a pure function of its explicit arguments: in any interleaving of wallet operations (create, recover, stretch, derive, neuter, serialise, parse, sign) on any number of keys, repeated, reordered or run concurrently from many threads including the very first use in a process, each result equals that of the reference model and of the same call made alone.",
["histories","schedules"],"all sequences of operations over a pool of related mnemonics, seeds, keys and paths; concurrent first use",
"Every test makes one straight pass in isolation; no test interleaves related keys or races the lazy tables.",
["src/lib.rs",LA,XP,XU,SE,MN],[("no mutable global state; lazily initialised tables",LA+": lazy"),("&self derivation",XP+"/"+XU)],
["whole public API"])

p("P21","Low-level key operations obey the secp256k1 group law",
"Raw private and public keys convert to and from bytes without loss, accepting exactly scalars in 1..n-1 and compressed curve points; adding a tweak to a private key and taking its public key equals adding the tweak to the public key, and both equal the reference arithmetic. A tweak outside 1..n-1, or one that would give a zero key or the point at infinity, yields an error, and the fingerprint and RIPEMD-160 helper equal their definitions.",
["inputs"],"all 32-byte scalars and tweaks, all 33-byte encodings, all messages",
"Only exercised indirectly through two derivation chains; edge scalars, inverse tweaks and invalid points never occur; the RIPEMD helper has no test.",
[PK,PU,"src/crypto.rs"],[("tweak add",PK+"/"+PU+": derive_child"),("fingerprint",PU+": fingerprint"),("hash helper","src/crypto.rs: ripemd")],
["PrivateKey and PublicKey traits","crypto::ripemd"])

p("P22","A failing derivation step is always reported, never papered over",
"Extended keys over any key type implementing the published key interface hand that type exactly the BIP32 tweak for the step, and when the key type reports failure at any step of any path, for private or public derivation or parsing, the whole operation returns that error and no key. No later step is attempted after a failed one.",
["fault_sequences","inputs"],"every path, every placement of failures among its steps, every key type behaviour",
"With real keys the failing case has probability below 2^-127, so tests can never reach it; no test supplies another key type.",
[XP,XU],[("error propagation in derive_child and path folding",XP+"; "+XU)],
["ExtendedPrivateKey<K>/ExtendedPublicKey<K> with a custom K"])
p("P23","Calls have no effect besides the value they return",
"No operation of the library, successful or refused, in any order, from any number of threads and under any environment variables, writes to standard output or standard error, creates or changes files, opens connections, starts processes or signals them, changes the process's environment, working directory, locale, signal handling, thread name or panic hook, or leaves open descriptors or running threads behind: all it does is return its value or its error.",
["histories","inputs"],"all sequences of operations with all arguments, any environment, any number of threads",
"Tests look at return values only; nothing watches what else a call does, least of all in rare branches (refusals, rare sizes, thousandth call, environment switches).",
["src/lib.rs",MN,SE,LA,XP,XU,EK,DP],[("pure value-returning functions","src/lib.rs and every module"),("randomness is the only thing asked of the system",CR+": gen_random_bytes")],
["system calls of a process running the history","environment, working directory, descriptors, threads, panic hook"])

p("P24","No secret stays in live memory once its owners are gone",
"After all mnemonics, seeds, keys and texts of any history of operations (refused ones included) have been dropped, no memory the library still owns (live heap blocks, static variables, thread-local variables) contains any entropy, phrase, password, seed, private key, private-key text or signing nonce of that history, and the amount of heap memory the library still holds does not grow with the number of operations performed.",
["histories"],"all sequences of operations, any number of repetitions, on the main or another thread",
"Tests never look at memory; caches, scratch buffers and leaks give right results.",
["src/lib.rs",MN,SE,CR,LA,XP,XU,EK],[("no caches; only word tables are kept",LA+": lazy"),("values own their secrets",MN+"/"+SE+"/"+XP)],
["heap blocks allocated and not released, writable statics and thread-local memory of the process"])

p("P25","Effort grows at most in proportion to the size of the input",
"For every operation that takes text, bytes or a path of unbounded length (parsing of Base58 key texts excepted), accepted or refused, the processor time of a call and the memory it holds while it works grow at most about in proportion to the length of that input, so that no input of moderate size can keep the library busy for long or exhaust memory.",
["inputs"],"all inputs of all lengths and shapes: repeated words, white space, combining marks, path steps, arbitrary characters",
"Every input in the tests is a few dozen characters long; quadratic behaviour is invisible there.",
[MN,UT,MT,LA,SE,DP,CN,XP],[("single-pass normalisation and joining",MN+": from_phrase; "+UT+": IterExt::join"),("single-pass path parsing and printing",DP)],
["processor time and peak heap of from_phrase, validate, Seed::new, path parsing/printing/editing, language detection, refusals"])

p("P26","Comparing private keys takes the same steps whatever the secrets are",
"For any two extended private keys, comparison by ==, by != and by constant-time comparison executes the same sequence of instructions whatever their private keys and chain codes are: equal, sharing a prefix of any length, differing in one bit, or unrelated (the public attributes depth, parent fingerprint and child number being given).",
["inputs"],"all pairs of extended private keys",
"Tests compare results only; an early exit that reveals how much of a key matches gives the same results.",
[XP],[("constant-time comparison of every field",XP+": ct_eq; PartialEq::eq uses it")],
["sequence of instructions executed by ==, != and ct_eq on ExtendedPrivateKey"])
p("P27","Results do not depend on how the library was built",
"Built with or without run-time assertions and integer overflow checks, in itself and in the libraries it uses, the library gives the same results, the same acceptances and refusals and the same errors for every call in every history, and panics in none of the builds where it does not in the others: what development and test builds show is what a release build does.",
["inputs","histories"],"all calls and histories under all build profiles",
"Tests run in one profile only (assertions on), which no user ships; a debug-only side effect, an unchecked overflow or a build-dependent shortcut passes them.",
["src/lib.rs",MN,SE,UT,LA,XP,XU,EK,PF,CN,DP],[("explicit run-time refusals instead of assertions","every module"),("wrapping-free index and length arithmetic",UT+"; "+XP+"/"+XU)],
["whole public API, in builds with and without debug assertions and overflow checks"])

p("P28","Orderings agree with equality, and clones are equal and independent",
"Child numbers, key prefixes, key attributes and extended public keys (over any ordered key type) are totally ordered: the comparison says equal exactly when the values are equal, reverses when swapped, is transitive, and agrees with all comparison operators, so that sorting, sorted sets and maps keep exactly the distinct values and find each; child numbers order as their 32-bit values. A clone of any value of the library equals its original in every field and afterwards neither is affected by changing, consuming or dropping the other.",
["inputs","histories"],"all groups of values, all pairs and triples in them, all sequences of edits of a value and its clone",
"Tests never order or clone anything.",
[CN,PF,"src/bip32/extended_key/attrs.rs",XU,EK,DP,MN,SE],[("derived orderings and clones",CN+"; "+PF+"; "+"src/bip32/extended_key/attrs.rs"+"; "+XU)],
["Ord, PartialOrd, Eq and Clone of the public types"])
p("P29","A refusal names a fault that the input has",
"Whenever a call is refused, the kind of the error is the documented one for a fault that the refused input really has: Base58 (bad characters or checksum), decoding (malformed letters, lengths, root fields, path roots), child number (malformed or too great indices, hardened public steps), cryptographic (key bytes or kind of key wrong, impossible tweak), depth, seed length; unknown word, word count, checksum, key size; secp256k1 invalid length for messages. With several faults it is one of them. Numbers an error carries (words, bits) are those of the input, and the message speaks of that kind and no other.",
["inputs"],"all refused inputs of every operation, with one fault or several",
"Tests check the kind for two or three inputs; a caller that acts on the kind (asks for a word again, stops at the depth limit) relies on it for all.",
["src/bip32/error.rs","src/bip39/error.rs","src/error.rs",EK,XP,XU,CN,DP,PF,MN,MT,LA],[("error kinds and conversions","src/bip32/error.rs; src/bip39/error.rs; src/error.rs")],
["every Result of the public API: parsing, conversion, derivation, validation, signing"])

p("P30","What is printed is complete, or the writer's failure is reported",
"Every printed form of every value (text, debug, alternate, hexadecimal, padded or cut; child numbers, paths, prefixes, keys, attributes, mnemonics, mnemonic types, seeds, languages, errors) put out to a writer that takes everything succeeds, and gives the same text each time; put out to a writer that fails at any point, once or lastingly, printing reports the failure and does not panic, and what was written before is the beginning of the text.",
["fault_sequences","inputs"],"all values, all forms, all points at which the writer fails",
"Tests print to strings only, which never fail; a cut path or key text that is taken for a whole one names another key.",
[CN,DP,PF,EK,"src/bip32/extended_key/attrs.rs",XP,XU,MN,MT,SE,LA,"src/bip32/error.rs","src/bip39/error.rs"],[("writer errors are passed on by every formatter","impl Display, Debug, LowerHex, UpperHex throughout")],
["fmt::Display, Debug, LowerHex and UpperHex of the public types"])
open("properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
