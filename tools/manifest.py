#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "property-based testing"
T = {
 "C01": (D + ": differential against OpenSSL over generated messages of every length class", "independent implementation (OpenSSL) as oracle on every generated message, block-boundary lengths visited systematically, multi-megabyte and >512 MB lengths in the fast build"),
 "C02": (D + ": model-based histories of add/read/copy/assign against one-shot digests", "stateful model over generated histories; any split is reachable, boundaries favoured"),
 "C03": (D + ": differential of named selection against the fixed algorithm and OpenSSL; near-miss names", "all documented names visited every run, other names generated near them"),
 "C04": (D + ": differential against a bitwise CRC-32 model, metamorphic bit and burst changes", "bit-by-bit reference model; splits and bursts generated"),
 "C05": (D + ": differential against OpenSSL HMAC/HKDF over generated keys, salts and lengths", "independent implementation; key lengths around the block size visited"),
 "C06": (D + ": differential against an independent RFC 8446 key schedule", "key schedule re-implemented on OpenSSL's HMAC; all secrets compared per case"),
 "C07": (D + ": differential against OpenSSL AES, refusals over every key size", "independent implementation; key sizes 0-80 visited"),
 "C08": (D + ": stateful histories against OpenSSL GCM and a from-scratch SP 800-38D model", "two oracles; counter wrap, IV classes and message positions visited"),
 "C09": (D + ": stateful two-party conversations with injected alterations, replays and reorderings against an acceptance model", "every position of the ciphertext, tag and additional data can be altered"),
 "C10": (D + ": stateful histories against OpenSSL AES in counter mode", "block-counter wrap and positions beyond 2^32 visited"),
 "C11": (D + ": stateful chunk histories against OpenSSL ChaCha20", "any chunking; keystream compared byte by byte"),
 "C12": (D + ": round trip and differential against an RFC 4648 model", "all option combinations visited, foreign characters inserted anywhere"),
 "C13": (D + ": differential against GMP with carry-heavy operands", "GMP as oracle over several widths"),
 "C14": (D + ": differential against GMP, model-based bit operation sequences", "GMP as oracle over several widths"),
 "C15": (D + ": differential against GMP with adversarial moduli and operands", "GMP as oracle; moduli of every bit length, near-modulus operands"),
 "C16": (D + ": differential against GMP modular exponentiation, round trips", "GMP as oracle; valid and arbitrary keys"),
 "C17": (D + ": differential of verdicts against OpenSSL and an RFC 8017 model, signatures forged with the private key", "forgeries sit one encoding rule away from valid, because the harness holds the private key"),
 "C18": (D + ": differential of verdicts against OpenSSL and the unique RFC 8017 encoding, blocks forged with the private key", "forgeries sit one encoding rule away from valid, because the harness holds the private key"),
 "C19": (D + ": differential against GMP on primes, strong pseudoprimes and Carmichael numbers; generation under a controlled random source", "probabilistic verdicts judged so that a correct test never raises an alarm"),
 "C20": (D + ": differential against GMP ladder and OpenSSL X25519, low-order and non-canonical points", "two oracles; iterated chains"),
 "C21": (D + ": differential against GMP over non-canonical representatives", "GMP as oracle; representatives near 0, p, 2p and 2^256 favoured"),
 "C22": (D + ": model-based request histories over a chosen stream; statistical test of the generator", "exact fill model; statistics with false-alarm probability below 1e-12"),
 "C23": (D + ": certificates built from a generated model, parsed and compared field by field", "independent DER writer and calendar"),
 "C24": ("coverage-guided fuzzing (libFuzzer) and structure-aware generated damage under AddressSanitizer", "sanitizers, container assertions, time and allocation limits as oracle"),
 "C25": (D + ": generated certificate/issuer pairs, genuine or altered in one way, against an acceptance model", "signatures made and judged by OpenSSL/GMP"),
 "C26": (D + ": stateful histories over generated certificate graphs against a reachability model", "path search in the model is independent of the library's"),
 "C27": (D + ": generated PEM texts compared with their known certificates", "writer is independent"),
 "C28": (D + ": differential of produced signatures against OpenSSL verification, cross-scheme and cross-key refusals", "controlled random source for salts"),
 "C29": (D + " over generated thread programs: ThreadSanitizer and comparison with single-threaded runs", "schedules are the operating system's; races are found by happens-before analysis, not by luck of timing alone"),
 "C31": (D + " over generated programs of several threads reading shared objects: ThreadSanitizer and comparison with single-threaded results", "schedules are the operating system's; races are found by happens-before analysis"),
 "C32": (D + ": model-based histories of all operations, each compared with its result in a fresh process", "the fresh-process result is the oracle, so any hidden state that changes an answer shows"),
 "C33": (D + ": generated bundles in the place of the system's, each loaded by a process of its own, and the system's own bundle, compared with their known certificates", "the bundle's path is redirected inside the test process; each case is the first use of the store"),
 "C34": (D + ": each operation run on two generated secrets with the same public data; every basic block entered and address touched is recorded and compared", "metamorphic relation between two executions, observed by compiler instrumentation added after optimisation; latencies of single instructions are not seen"),
 "C35": (D + ": generated programs of requests run in fresh, look-alike and forked processes, all values compared; generated streams attacked by Berlekamp-Massey and congruential predictors", "clocks, process numbers and address layout are held equal, so only true entropy can tell processes apart; predictors other than the two kinds are not tried"),
 "C36": (D + ": histories of messages against OpenSSL (AES) and an SP 800-38A model (other block sizes)", "the modes are templates over a cipher; the harness supplies AES and keyed permutations of 8 to 64-byte blocks"),
 "C37": (D + ": generated programs of translation units over all public headers, compiled, linked and run, against programs of a single use", "one use of the library per header, with generated data; one compiler (clang 18)"),
 "C38": (D + ": generated histories repeated until what they hold settles, and generated inputs measured at three sizes, by counted blocks, moved and allocated bytes and stack", "counts instead of clocks; growth is judged within a factor of three of proportional"),
 "C39": (D + ": generated structures one fault away from a certificate or key, and other things met beside them, each signed by an anchor's key", "a fault is judged only where the structure around the contents is wrong; odd contents of names, dates and extensions are left open"),
 "C30": (D + ": model-based read sequences against an independent TLV reader under AddressSanitizer", "inputs in exactly sized heap blocks"),
}
NA = {
}
sys.path.insert(0, V)
from checks.registry import CHECKS
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                 "technique": t, "level": "exploration", "level_note": "No counterexample among the generated cases (counts in the evidence file); " + n + ". Not a proof."} for i, (t, n) in sorted(T.items())],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
     "notes": "No hooks in /repo; harnesses compile /repo's working tree. DESIGN.md has the per-property plan, known_findings.txt the repaired defects."}
assert set(T) == set(CHECKS), set(T) ^ set(CHECKS)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert set(ids) == set(T) | set(NA)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
