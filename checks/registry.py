"""What each check builds and runs, and what its coverage counts mean."""
import glob, os, shutil


def seeds(name):
    """Starting inputs for a coverage-guided phase: the committed files of checks/seeds/<name>."""
    def put(d, seed):
        for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds", name, "*")):
            shutil.copy(f, d)
    return put


ASSUMPTIONS = [
    "the installed OpenSSL libcrypto 3 and GMP are correct where they serve as oracle",
    "the library is built by clang 18 for x86-64 with AES-NI and PCLMULQDQ, as /opt/vp/build.sh does",
]
CHECKS = {
    "C01": {
        "src": "c01_hash.cpp",
        "phases": [{"mode": "asan", "scale": 30, "tscale": 15}, {"mode": "fast", "cap": 60, "case_cpu": 120}],
        "rule": "a case hashes one message with one algorithm; non-trivial: the message is not empty; distinct by algorithm and message",
    },
    "C02": {"src": "c02_incremental.cpp", "scale": 30, "tscale": 15, "rule": "a case is a history of additions, reads, copies and assignments on live hash objects; non-trivial: more than one addition (or more than three operations); distinct by all decisions of the history"},
    "C03": {"src": "c03_named.cpp", "scale": 30, "tscale": 15, "rule": "a case selects a hash by name (documented or not) and compares it; non-trivial: a documented name with data, or a refused name that differs from the documented ones; distinct by all decisions"},
    "C04": {"src": "c04_crc.cpp", "phases": [{"mode": "asan", "scale": 20, "tscale": 10}, {"mode": "fast", "case_cpu": 120}], "rule": "a case is a byte string with a split and/or a change to it; non-trivial: the string is not empty; distinct by all decisions"},
    "C05": {"src": "c05_hmac.cpp", "scale": 6, "tscale": 3, "rule": "a case is (algorithm, key, text) or (algorithm, salt, key, info, length); non-trivial: key/salt not empty, output not empty; distinct by all decisions"},
    "C06": {"src": "c06_tls13.cpp", "scale": 15, "tscale": 7, "rule": "a case is a whole key schedule for one shared secret and transcript hash, or one labelled expansion; non-trivial: output not empty; distinct by all decisions"},
    "C07": {"src": "c07_aes.cpp", "scale": 30, "tscale": 15, "rule": "a case is a key with blocks, a history of key schedules, or a wrong key size; all cases but discarded ones (right key size) are non-trivial; distinct by all decisions"},
    "C08": {"src": "c08_gcm_encrypt.cpp", "phases": [{"mode": "asan", "scale": 20, "tscale": 10}, {"mode": "fast", "case_cpu": 120}], "rule": "a case is a session history (key, IV, start position, messages); non-trivial: at least one byte of plaintext or additional data; distinct by all decisions"},
    "C09": {"src": "c09_gcm_decrypt.cpp", "scale": 30, "tscale": 15, "rule": "a case is a conversation with authentic, altered, replayed and misordered messages; non-trivial: at least one message that must be refused (or a whole two-party history); distinct by all decisions"},
    "C10": {"src": "c10_ctr.cpp", "scale": 25, "tscale": 12, "rule": "a case is a session history (key, IV, start position, messages) or a refused size; non-trivial: at least one byte processed; distinct by all decisions"},
    "C11": {"src": "c11_chacha.cpp", "phases": [{"mode": "asan", "scale": 15, "tscale": 10}, {"mode": "fast", "case_cpu": 120}], "rule": "a case is a history of chunks over sessions and their copies, or a refused size; non-trivial: more than one block processed; distinct by all decisions"},
    "C12": {"src": "c12_base64.cpp", "phases": [{"mode": "asan", "scale": 40, "tscale": 20}, {"mode": "fast", "case_cpu": 120}], "rule": "a case is data with options, or a text to decode; non-trivial: not empty (and, for foreign characters, at least one inserted); distinct by all decisions"},
    "C13": {"src": "c13_bignum.cpp", "scale": 25, "tscale": 12, "rule": "a case is a pair of values of one width with all operations on them, or a chain of operations; non-trivial: both values non-zero; distinct by all decisions"},
    "C14": {"src": "c14_bignum_repr.cpp", "scale": 20, "tscale": 10, "rule": "a case is a value with conversions or a sequence of bit operations; non-trivial: the value is not zero or it is operated on; distinct by all decisions"},
    "C15": {"src": "c15_mont.cpp", "scale": 25, "tscale": 12, "rule": "a case is a modulus with operands and exponents; non-trivial: operands non-zero (reduction: value not below the modulus); distinct by all decisions"},
    "C16": {"src": "c16_rsa.cpp", "phases": [{"mode": "asan", "scale": 12, "tscale": 6}, {"mode": "fast", "case_cpu": 120}], "rule": "a case is a key (valid pair, or arbitrary odd modulus and exponent) with a representative; non-trivial: representative and exponent non-zero; distinct by all decisions"},
    "C17": {"src": "c17_pss.cpp", "phases": [{"mode": "asan", "scale": 8, "tscale": 4}, {"mode": "fast", "case_cpu": 200}], "rule": "a case is one signature (genuine, altered or forged with the private key) to verify, one signature to make, or one mask; non-trivial: all but empty masks and discarded ones; distinct by all decisions"},
    "C18": {"src": "c18_pkcs1.cpp", "scale": 5, "tscale": 2, "rule": "a case is one signature (genuine, altered or forged with the private key) to verify, or one to make; all but discarded cases are non-trivial; distinct by all decisions"},
    "C20": {"src": "c20_x25519.cpp", "scale": 4, "tscale": 2, "rule": "a case is a scalar with a u-coordinate, a key agreement, an iteration or a key generation; all are non-trivial; distinct by all decisions"},
    "C21": {"src": "c21_field.cpp", "scale": 40, "tscale": 20, "rule": "a case is a pair of 256-bit representatives with all operations, or a chain; non-trivial: operands non-zero; distinct by all decisions"},
    "C22": {"src": "c22_random.cpp", "scale": 20, "tscale": 10, "rule": "a case is a history of requests against a chosen stream, or a statistical sample of the generator; non-trivial: more than one output consumed; distinct by all decisions"},
    "C19": {"src": "c19_prime.cpp", "rule": "a case is one number judged, or one prime generated under a chosen random source; non-trivial: the number is not zero; distinct by all decisions"},

    "C23": {"src": "c23_certificate.cpp", "rule": "a case is one well-formed certificate built from a model and compared field by field with it; all are non-trivial; distinct by all decisions"},
    "C24": {"src": "c24_robust.cpp", "phases": [{"mode": "asan", "case_cpu": 20, "cap": 90}, {"mode": "fuzz", "secs": 15, "tsecs": 420, "max_len": 4096, "seed_corpus": seeds("c24")}], "rule": "a case is a byte string given to one parser, and whatever it returns is used; non-trivial: the string is not empty; distinct by all decisions (the libFuzzer phase adds executions but no count of distinct ones)"},
    "C30": {"src": "c30_asn1.cpp", "scale": 6, "rule": "a case is a byte string with a sequence of reads, peeks and emptiness queries on it; non-trivial: at least one element was read; distinct by all decisions"},
    "C27": {"src": "c27_bundle.cpp", "rule": "a case is a text with 0 to 60 PEM certificates and other text around them; non-trivial: the text is not empty; distinct by all decisions"},
    "C33": {"src": "c33_store.cpp", "rule": "a case is a bundle in the place of the system's, read by a store in a process of its own; non-trivial: the bundle has a certificate; distinct by all decisions"},
    "C34": {"src": "c34_secrets.cpp", "extra": ["c34_runtime.cpp"], "phases": [{"mode": "trace", "case_cpu": 120}], "rule": "a case runs one operation with the same public data on two secrets and compares everything executed and touched; non-trivial: the secrets differ; distinct by all decisions"},
    "C35": {"src": "c35_unpredictable.cpp", "extra": ["c35_prime.cpp"], "phases": [{"mode": "fast", "case_cpu": 120}], "rule": "a case is a program of requests run by several processes that look the same, or a stream of values with an attempt to predict it; all are non-trivial; distinct by all decisions"},
    "C36": {"src": "c36_legacy.cpp", "scale": 6, "tscale": 3, "rule": "a case is a history of messages through a mode of one cipher, a changed bit, or a key and IV of some size; non-trivial: a message of more than one block; distinct by all decisions"},
    "C39": {"src": "c39_refusal.cpp", "rule": "a case is a structure or text that is not a certificate or key, most of them one fault away from a genuine one and signed as they are by an anchor; non-trivial: all but the intact ones; distinct by all decisions"},
    "C38": {"src": "c38_resources.cpp", "extra": ["c29_prime.cpp", "c38_runtime.cpp"], "phases": [{"mode": "count", "case_cpu": 120}], "rule": "a case is a history repeated until what it holds settles, or an operation measured at three sizes; non-trivial: all but inputs that are read without complaint; distinct by all decisions"},
    "C37": {"src": "c37_units.cpp", "snippets": "c37_snippets.h", "phases": [{"mode": "fast", "case_cpu": 200}], "rule": "a case is a program of generated translation units, compiled, linked and run; non-trivial: more than one use of the library; distinct by all decisions"},
    "C25": {"src": "c25_verify.cpp", "rule": "a case is a certificate and an issuer certificate, genuine or altered in one way; all but discarded ones are non-trivial; distinct by all decisions"},
    "C26": {"src": "c26_trust.cpp", "phases": [{"mode": "asan", "scale": 0.3, "tscale": 0.3}, {"mode": "fast"}], "rule": "a case is a history of anchor additions, lookups and trust queries over generated certificate graphs; non-trivial: at least one query; distinct by all decisions"},
    "C28": {"src": "c28_keys.cpp", "phases": [{"mode": "asan", "case_cpu": 120}, {"mode": "fast", "case_cpu": 120}], "rule": "a case is a key with a scheme and a message, signed or judged; all but discarded ones are non-trivial; distinct by all decisions"},
    "C29": {"src": "c29_threads.cpp", "extra": ["c29_prime.cpp"], "phases": [{"mode": "tsan", "workers": 4}, {"mode": "fast", "workers": 4}], "rule": "a case is a program of operations for 2 to 6 threads, run at once and alone; all are non-trivial; distinct by all decisions (the schedule is the operating system's)"},
    "C31": {"src": "c31_shared.cpp", "extra": ["c29_prime.cpp"], "phases": [{"mode": "tsan", "workers": 4}, {"mode": "fast", "workers": 4}], "rule": "a case is a program of reading operations for 2 to 6 threads on the same objects, compared with the same operations alone; all are non-trivial; distinct by all decisions (the schedule is the operating system's)"},
    "C32": {"src": "c32_history.cpp", "scale": 4, "tscale": 2, "extra": ["c29_prime.cpp"], "rule": "a case is a history of operations of all kinds, some failing, each compared with its result in a fresh process; non-trivial: at least two compared operations; distinct by all decisions"},
}
