#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
T = {
"P01": ("proptest: entropy -> phrase against an independent BIP39 encoder, round trips", "Random and structured entropies of every size; all lengths refused or accepted. Trusts the reference encoder and the embedded word lists (self-tested on published vectors)."),
"P02": ("proptest: phrase mutations judged by a reference BIP39 decoder", "Valid phrases and word-, count-, checksum- and separator-level mutants; verdict and fault kind exact. Order of faults reported is free when a phrase has several."),
"P03": ("proptest, metamorphic: respelled and respaced phrases recover the same mnemonic", "All Unicode white space and NFKD-equivalent spellings (Unicode 14 tables)."),
"P04": ("proptest: seed against reference NFKD + PBKDF2-HMAC-SHA512; equivalent passwords", "Passwords over Unicode classes and lengths around block boundaries. Trusts reference hash/NFKD code (self-tested)."),
"P05": ("proptest: root key against reference HMAC-SHA512, every seed length", "Random and structured seeds of every length up to 1000 bytes or so."),
"P06": ("proptest: private child derivation against a reference BIP32 over secp256k1", "Keys built field by field, all index classes, depth limit; events of probability below 2^-100 (tweak overflow) are reached through P21/P22 instead."),
"P07": ("proptest: commutation of public and private derivation, and reference BIP32", "As P06 for public keys, including points with unknown private key."),
"P08": ("proptest: path derivation composed in every way, and against the reference", "Paths up to and beyond the depth limit, splits at every kind of position."),
"P09": ("proptest: serialisation against a reference Base58Check/BIP32 codec, round trips", "All fields over boundary and random values, all named prefixes."),
"P10": ("proptest: grammar- and payload-level mutants judged by a reference acceptance predicate", "Checksum-valid payloads with bad fields, character-level damage, arbitrary text."),
"P11": ("proptest: pairs differing in one field or bit, equal keys by several routes", "Every field and bit position of both key kinds."),
"P12": ("proptest: text grammar with mutations against a reference parser; list model for editing", "Child numbers over all 32 bits, paths, edit histories. Leading zeros and '+' in indices are not judged."),
"P13": ("proptest + enumeration around letter boundaries: version/prefix mapping against Base58 encoding", "Random, dictionary and boundary versions; thorough tier walks much more of the 2^32 space."),
"P14": ("proptest: signatures judged by reference ECDSA verify/recover, nonce extraction", "Random, boundary and related keys and digests; nonces recovered from the known keys."),
"P15": ("structure-aware random fuzzing of every entry point under panic capture", "Text and bytes from arbitrary to near-valid, overflow checks on. Stack or memory exhaustion on huge inputs is outside."),
"P16": ("statistical and collision oracles over generated populations, threads, processes and forks", "Thresholds at >= 10 sigma: a sound generator never fails. Cannot distinguish a strong generator with a small secret seed."),
"P17": ("proptest histories under an allocator that inspects watched memory when it is freed", "Heap buffers owned by the value at the time of drop; the harness's own stack slot for by-value drops. Intermediate copies are outside."),
"P18": ("proptest, metamorphic: renderings and errors of inputs that differ in the secret only", "Debug plain/pretty and every error route; substrings of the secret in several encodings."),
"P19": ("exhaustive + proptest: word lists against embedded official lists, prefixes, codes", "All 2 x 2048 words, all prefixes, generated non-words and codes."),
"P20": ("stateful proptest: operation histories, each in its own process, with concurrent and cold-start phases, against a reference model", "Histories up to 60 operations, repeated calls up to 70000, up to 8 threads; schedules are the OS's, not enumerated."),
"P21": ("proptest: key bytes, tweaks and fingerprints against reference curve arithmetic", "Scalars, points and tweaks at and around all group boundaries."),
"P22": ("proptest fault injection: user-defined key types that fail at a chosen call", "Every single failing step of generated paths, all routes; call log and error compared."),
"P23": ("stateful proptest: histories in processes under a system-call filter that records every effect", "All system calls other than memory, locks, clocks, threads, randomness and reading; environment, directory, locale, descriptors, threads, panic hook."),
"P24": ("stateful proptest with fresh random secrets per round; search of live heap, statics and thread-locals", "16-byte pieces of secrets in several codings. Released memory, the stack and disguised copies are outside."),
"P25": ("proptest, metamorphic: processor time on an input and on one 16 times as long; peak heap against the input size", "Inputs up to a few MB; wide margin, so only clearly worse than proportional growth is reported."),
"P26": ("proptest, metamorphic: single-step instruction traces of comparisons of related secrets", "Instruction sequence of the optimised harness build; memory access patterns and instruction timing are outside."),
"P27": ("proptest, differential: the other checks' generators and oracles on kms built under two more profiles", "Optimised builds without assertions, and with assertions in the dependencies too; a failing case counts only if another build passes it."),
"P28": ("proptest: laws of order over groups of related values; edit histories of values and clones against their fields", "Groups up to 9 values and all their triples; ordering of public keys through a harness-defined key type."),
"P29": ("proptest: faulty inputs whose every fault is known; the error must name one of them", "Faults of the reference grammar and decoder; which of several faults is named is free."),
"P30": ("proptest fault injection: every printed form put out to writers that fail at a generated point", "Text of values against the reference where it is specified; padding and cutting are not judged beyond completeness."),
}
here = os.path.dirname(os.path.abspath(__file__))
checks = []
for p, (t, n) in T.items():
    checks.append({"property": p, "quick_cmd": f"VERIF_TIER=quick ./run.sh check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {p}",
        "technique": t, "level": "fault_enumeration" if p == "P22" else "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harness uses the public interface only. Replay a failure with ./run.sh replay FILE."}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
