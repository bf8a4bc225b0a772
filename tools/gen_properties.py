import json
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); return d
MK="ml-kem/src/"
props=[
P("C01","ML-KEM key generation equals FIPS 203 for every seed pair",
 "For every pair of 32-byte seeds (d, z) and each of ML-KEM-512, ML-KEM-768 and ML-KEM-1024, deterministic key generation returns exactly the encapsulation key and decapsulation key that FIPS 203 ML-KEM.KeyGen_internal prescribes, byte for byte. Key generation from a random generator returns the same keys for the two seeds it draws, d first and then z.",
 ["inputs"],"all 2^512 seed pairs, 3 parameter sets, both generation entry points",
 "The ACVP vectors sample 25 seed pairs per parameter set; rare sampler paths (long rejection runs, candidates next to q), field values next to a reduction boundary and special seeds are not reached.",
 [MK+"kem.rs",MK+"pke.rs",MK+"algebra.rs",MK+"crypto.rs",MK+"encode.rs",MK+"param.rs"],
 [("K-PKE.KeyGen",MK+"pke.rs DecryptionKey::generate"),("ML-KEM.KeyGen",MK+"kem.rs DecapsulationKey::generate_deterministic"),("SampleNTT / SamplePolyCBD / NTT",MK+"algebra.rs")],
 ["KemCore::generate_deterministic","KemCore::generate","EncodedSizeUser::as_bytes"]),
P("C02","ML-KEM encapsulation equals FIPS 203 for every well-formed key and message",
 "For every encapsulation key encoding whose coefficients are all below q (honestly generated or not) and every 32-byte message m, deterministic encapsulation returns exactly the ciphertext and shared key of FIPS 203 ML-KEM.Encaps_internal, for all three parameter sets. Encapsulation from a random generator returns the same pair for the 32 bytes it draws as m.",
 ["inputs"],"all canonical encapsulation keys (including adversarial t and rho), all m, 3 parameter sets",
 "The ACVP vectors hold 25 honest keys per parameter set with one message each; keys whose coefficients sit at the extremes, matrix seeds with unusual rejection patterns and structured messages are never tried.",
 [MK+"kem.rs",MK+"pke.rs",MK+"algebra.rs",MK+"compress.rs",MK+"encode.rs",MK+"crypto.rs"],
 [("ML-KEM.Encaps",MK+"kem.rs encapsulate_deterministic_inner"),("K-PKE.Encrypt",MK+"pke.rs EncryptionKey::encrypt"),("Compress / ByteEncode",MK+"compress.rs, "+MK+"encode.rs")],
 ["EncapsulateDeterministic::encapsulate_deterministic","Encapsulate::encapsulate","EncodedSizeUser::from_bytes"]),
P("C03","ML-KEM decapsulation equals FIPS 203 for every key and every ciphertext",
 "For every byte string of the decapsulation key size and every byte string of the ciphertext size, decapsulation returns exactly the 32-byte key of FIPS 203 ML-KEM.Decaps_internal: the accepted key when re-encryption reproduces the ciphertext, and SHAKE256(z || c) otherwise. This holds for all three parameter sets, including keys that no honest key generation produces.",
 ["inputs"],"all decapsulation key byte strings (honest, inconsistent, crafted so that arbitrary secret vectors still accept), all ciphertexts, 3 parameter sets",
 "The ACVP vectors use one key and 10 ciphertexts per parameter set; the accept path with extreme secret or ciphertext coefficients and most rejection inputs are not covered.",
 [MK+"kem.rs",MK+"pke.rs",MK+"algebra.rs",MK+"compress.rs",MK+"encode.rs"],
 [("ML-KEM.Decaps",MK+"kem.rs Decapsulate for DecapsulationKey"),("K-PKE.Decrypt",MK+"pke.rs DecryptionKey::decrypt"),("constant-time select",MK+"kem.rs constant_time_eq")],
 ["Decapsulate::decapsulate"]),
P("C04","Every altered ML-KEM ciphertext is implicitly rejected",
 "Under any honestly generated decapsulation key, changing an honest ciphertext in any way (any bit of any byte, any set of bytes, truncation-and-refill, a ciphertext for another key) makes decapsulation succeed without error and return SHAKE256(z || altered ciphertext), never the sender's key. The rejection key is deterministic, and distinct altered ciphertexts give distinct keys.",
 ["inputs"],"every key pair, every honest ciphertext, every modification of it, 3 parameter sets",
 "The repository never alters a ciphertext of a fresh key; only the few rejecting ACVP cases touch this path, so a comparison that skips some byte or bit positions passes.",
 [MK+"kem.rs",MK+"crypto.rs"],
 [("re-encryption comparison over every byte",MK+"kem.rs decapsulate"),("J(z || c)",MK+"crypto.rs J")],
 ["Decapsulate::decapsulate"]),
P("C05","ML-KEM sender and receiver always agree on the shared key",
 "For every honestly generated key pair and every encapsulation, decapsulating the resulting ciphertext gives the key the sender obtained. This holds no matter which path either side took: random or deterministic generation and encapsulation, an original, cloned or serialized-and-parsed key, the encapsulation key returned by generation or the one read out of the decapsulation key.",
 ["inputs","histories"],"all seeds and messages (up to the negligible FIPS 203 decryption failure rate), all combinations of the paths by which each party can hold its key",
 "The round-trip tests run one random key and one message per parameter set on freshly generated objects only.",
 [MK+"kem.rs",MK+"pke.rs",MK+"lib.rs"],
 [("KEM round trip",MK+"kem.rs"),("K-PKE correctness",MK+"pke.rs")],
 ["KemCore::generate","Encapsulate::encapsulate","Decapsulate::decapsulate","DecapsulationKey::encapsulation_key"]),
P("C06","ML-KEM key encodings are faithful and laid out as in FIPS 203",
 "Encoded keys and ciphertexts have exactly the FIPS 203 sizes; parsing an encoding with coefficients below q and serializing it again returns the same bytes, and parsing a serialized key gives a key equal to the original that behaves identically. The decapsulation key encoding is s || ek || H(ek) || z, the encapsulation key it exposes is the embedded one, and two generated or parsed keys compare equal exactly when their encodings are equal.",
 ["inputs"],"all canonical key byte strings and all generated keys, 3 parameter sets; all pairs of keys that differ in any one field",
 "The codec tests round-trip one random honest key per parameter set and never compare keys that differ in a single field or coefficient.",
 [MK+"kem.rs",MK+"pke.rs",MK+"encode.rs",MK+"param.rs",MK+"util.rs"],
 [("concat/split of key fields",MK+"param.rs KemParams, PkeParams"),("ByteEncode/ByteDecode",MK+"encode.rs"),("flatten/unflatten",MK+"util.rs")],
 ["EncodedSizeUser::as_bytes","EncodedSizeUser::from_bytes","PartialEq of keys","DecapsulationKey::encapsulation_key"]),
P("C07","Out-of-range ML-KEM key coefficients are read modulo q",
 "Parsing a key encoding never fails: every 12-bit coefficient of q or more is read as its residue modulo q, so the parsed key equals, encodes as and behaves as the key with the reduced coefficients. Hence re-encoding a parsed encapsulation key reproduces the input exactly when the input passes the FIPS 203 modulus check, and re-encoding twice changes nothing.",
 ["inputs"],"all encapsulation and decapsulation key byte strings with any set of out-of-range coefficients at any position, 3 parameter sets",
 "One unit test decodes the all-ones polynomial; no test parses a whole key with out-of-range coefficients or uses one.",
 [MK+"encode.rs",MK+"pke.rs",MK+"kem.rs"],
 [("reduction on 12-bit decode",MK+"encode.rs byte_decode"),("hash of the re-encoded key",MK+"kem.rs EncapsulationKey::new")],
 ["EncodedSizeUser::from_bytes","EncodedSizeUser::as_bytes","Encapsulate","Decapsulate"]),
P("C08","All randomness comes from the caller's generator and is used once",
 "In all three crates, key generation and encapsulation are functions of the caller's random generator alone: ML-KEM key generation consumes exactly 64 bytes and encapsulation 32, X-Wing 32 and 64, and the DH KEMs one scalar encoding per attempt, redrawing until it is valid. Equal generator output gives equal results, consecutive calls use fresh bytes, and a change in any drawn byte that carries entropy changes the result. The operating-system variants of X-Wing key generation take exactly 32 fresh bytes per key from the system's generator and return what those bytes give; when a generator fails before it has supplied the bytes a call needs, the call returns no result.",
 ["inputs","histories"],"all generator output streams (including invalid scalars at every prefix), generators that fail after any number of bytes, all sequences of calls sharing one generator, all crates and key types",
 "Tests use the operating system generator or one fixed stream and cannot see reused, ignored or extra random bytes.",
 [MK+"kem.rs",MK+"crypto.rs","x-wing/src/lib.rs","dhkem/src/ecdh_kem.rs","dhkem/src/x25519_kem.rs"],
 [("rand",MK+"crypto.rs rand"),("generate","x-wing/src/lib.rs generate"),("ephemeral secrets","dhkem/src/ecdh_kem.rs, dhkem/src/x25519_kem.rs")],
 ["KemCore::generate","Encapsulate::encapsulate","x_wing::generate_key_pair","x_wing::DecapsulationKey::generate","DhKem::random_keypair","x_wing::generate_key_pair_from_os_rng","x_wing::DecapsulationKey::generate_from_os_rng"]),
P("C09","Operations are pure: results never depend on earlier calls",
 "Keys and ciphertexts are immutable values: in any history of generating, encapsulating, decapsulating, parsing, serializing, cloning and dropping across the three crates, each operation returns what it would return on its own with the same inputs. Interleaving similar keys, repeating an operation any number of times, running any operations in several threads at once, or calls aborted by a failing generator change nothing.",
 ["histories","schedules"],"all finite sequences of public operations over any number of live keys and ciphertexts, and concurrent use of shared keys",
 "Every existing test performs one short fixed sequence on one key.",
 [MK+"kem.rs",MK+"pke.rs","x-wing/src/lib.rs","dhkem/src/lib.rs"],
 [("operations take &self and hold no global state",MK+"kem.rs, x-wing/src/lib.rs, dhkem/src/*.rs")],
 ["all public operations"]),
P("C10","No byte input can panic, overflow or corrupt memory",
 "Every public operation of the three crates, given any byte content of the required length (keys, ciphertexts, public values, seeds and generator output), returns normally: no panic, no arithmetic overflow in a checked build, no failure of a debug assertion, no undefined behaviour and no out-of-bounds access. Fallible signatures (decapsulate, encapsulate) always return Ok.",
 ["inputs"],"all byte contents of all inputs of all public operations, in builds with overflow checks, debug assertions, AddressSanitizer and the Miri interpreter",
 "Tests feed honest, in-range data; the unsafe reinterpretation code and the unchecked narrowing are exercised on a handful of values and never under a UB detector.",
 [MK+"util.rs",MK+"encode.rs",MK+"algebra.rs",MK+"compress.rs",MK+"param.rs",MK+"kem.rs","x-wing/src/lib.rs","dhkem/src/lib.rs"],
 [("unsafe flatten/unflatten and truncate",MK+"util.rs"),("Infallible error types",MK+"kem.rs, x-wing/src/lib.rs, dhkem/src/*.rs")],
 ["all public operations"]),
P("C11","X-Wing key generation and encapsulation match the X-Wing draft",
 "For every 32-byte seed, the X-Wing key pair is the one the draft prescribes (SHAKE128 expansion into the ML-KEM-768 seeds and the X25519 secret), and for every public key and every 64 bytes of encapsulation randomness the ciphertext and shared secret equal the draft's, byte for byte. This includes public keys with any X25519 value, such as non-canonical or low-order points.",
 ["inputs"],"all seeds, all encapsulation randomness, all public keys with a well-formed ML-KEM part",
 "Three draft vectors with honest keys are the only known answers.",
 ["x-wing/src/lib.rs"],
 [("expand_key","x-wing/src/lib.rs DecapsulationKey::expand_key"),("encapsulate and combiner","x-wing/src/lib.rs")],
 ["x_wing::generate_key_pair","DecapsulationKey::encapsulation_key","Encapsulate for EncapsulationKey"]),
P("C12","X-Wing decapsulation matches the draft for every key and ciphertext",
 "For every 32-byte X-Wing secret key and every 1120-byte ciphertext, honest or not, decapsulation succeeds and returns the draft's shared secret: the combination of the ML-KEM-768 decapsulation (with implicit rejection), the X25519 function on the given 32 bytes (any point, low-order and non-canonical included), those 32 bytes and the recipient's X25519 public key. For an honest ciphertext this is the sender's secret.",
 ["inputs"],"all secret keys, all ciphertext byte strings",
 "The three draft vectors and the doc test decapsulate honest ciphertexts only.",
 ["x-wing/src/lib.rs",MK+"kem.rs"],
 [("decapsulate and combiner","x-wing/src/lib.rs")],
 ["Decapsulate for DecapsulationKey"]),
P("C13","X-Wing encodings are faithful and correctly laid out",
 "X-Wing public keys, secret keys and ciphertexts have sizes 1216, 32 and 1120; a public key is the ML-KEM-768 key followed by the X25519 key and a ciphertext is the ML-KEM ciphertext followed by the X25519 value. Parsing and serializing returns the same bytes for every ciphertext, every secret key and every public key with a well-formed ML-KEM part, and a parsed object behaves as and compares equal to the original. Ciphertexts compare equal only when all bytes agree, public keys only when they denote the same ML-KEM key and X25519 point.",
 ["inputs"],"all ciphertext, secret key and well-formed public key byte strings",
 "The serialization tests round-trip one random object each.",
 ["x-wing/src/lib.rs"],
 [("as_bytes / From<&[u8; N]>","x-wing/src/lib.rs EncapsulationKey, Ciphertext, DecapsulationKey")],
 ["as_bytes","From","PartialEq"]),
P("C14","The X-Wing secret commits to the whole ciphertext and to the recipient",
 "Under one X-Wing secret key, two different ciphertexts never yield the same shared secret, whichever bits of whichever half differ and even when the X25519 shared value is unchanged (equivalent or low-order points). The same ciphertext never yields the same secret under two different secret keys or for two different recipients.",
 ["inputs"],"all secret keys, all pairs of distinct ciphertexts, all pairs of distinct keys (up to hash collisions)",
 "No test compares two shared secrets with each other.",
 ["x-wing/src/lib.rs"],
 [("combiner hashes label, both secrets, X25519 ciphertext and public key","x-wing/src/lib.rs combiner")],
 ["Decapsulate for DecapsulationKey","Encapsulate for EncapsulationKey"]),
P("C15","The ECDH KEMs return the raw Diffie-Hellman value on every curve",
 "On secp256k1, P-256, P-384 and P-521, for every key pair and every ephemeral scalar, the encapsulated key is the ephemeral public point and the shared secret is the fixed-length big-endian x-coordinate of the Diffie-Hellman point, with leading zeros kept and no hashing. Decapsulation of any valid curve point gives the x-coordinate of the secret scalar times that point.",
 ["inputs"],"all scalars in [1, n-1] for both parties, all non-identity points, four curves",
 "One P-256 vector fixes values; the other curves only check that two sides agree once.",
 ["dhkem/src/ecdh_kem.rs","dhkem/src/lib.rs"],
 [("encapsulate/decapsulate","dhkem/src/ecdh_kem.rs"),("curve aliases","dhkem/src/lib.rs")],
 ["DhKem::random_keypair","Encapsulate","Decapsulate","ToEncodedPoint"]),
P("C16","The X25519 KEM equals RFC 7748 for every key and every point",
 "For every 32 bytes drawn as a secret and every 32-byte public value (non-canonical, high-bit-set, twist and low-order values included), the X25519 KEM returns the RFC 7748 public key, encapsulated key and shared secret exactly. A low-order public value yields the all-zero secret, visible to the caller as a non-contributory exchange.",
 ["inputs"],"all 2^256 secrets on either side, all 2^256 public values",
 "The single test checks that two honest sides agree once; no known answer exists for this KEM.",
 ["dhkem/src/x25519_kem.rs"],
 [("encapsulate/decapsulate","dhkem/src/x25519_kem.rs")],
 ["DhKem::random_keypair","Encapsulate","Decapsulate"]),
P("C17","DH KEM parties always agree and the key wrappers are transparent",
 "For all five DH KEMs, any number of encapsulations to a key and decapsulations with it agree pairwise, also after the public key or encapsulated key is sent through its byte encoding. Wrapping a value as an encapsulating or decapsulating key, borrowing it, unwrapping it, encoding, comparing, ordering, hashing, cloning or defaulting it gives exactly what the wrapped value gives.",
 ["inputs","histories"],"all key pairs and ephemerals, all sequences of wrap/unwrap/encode steps, five KEMs and arbitrary wrapped values",
 "Tests run one random agreement per curve and touch no wrapper operation but point encoding.",
 ["dhkem/src/lib.rs","dhkem/src/ecdh_kem.rs","dhkem/src/x25519_kem.rs"],
 [("newtype impls","dhkem/src/lib.rs DhEncapsulator, DhDecapsulator"),("agreement","dhkem/src/ecdh_kem.rs, dhkem/src/x25519_kem.rs")],
 ["DhEncapsulator/DhDecapsulator From, AsRef, into_inner, Eq, Ord, Hash, Clone, Default, ToEncodedPoint, Zeroize"]),
P("C18","Secret key memory is erased on drop with the zeroize feature",
 "With the zeroize feature, once an ML-KEM decapsulation key, an X-Wing decapsulation key or an ECDH decapsulating key is dropped, nothing in the memory it occupied depends on its secrets (secret vector, rejection seed, seed, scalar), whatever those were, and a dropped X-Wing ciphertext leaves nothing of its bytes. Explicit zeroization of the types that offer it, including the DH KEM wrappers around any zeroizable value, leaves the all-zero value behind.",
 ["inputs"],"all secret values, all key types, however the key was made (generated, parsed, cloned), wherever it ends (on another thread, while a panic unwinds)",
 "No test looks at memory after a drop.",
 [MK+"kem.rs",MK+"pke.rs",MK+"algebra.rs","x-wing/src/lib.rs","dhkem/src/lib.rs"],
 [("Drop for DecapsulationKey",MK+"kem.rs"),("Zeroize impls",MK+"algebra.rs, "+MK+"pke.rs, dhkem/src/lib.rs"),("derived ZeroizeOnDrop","x-wing/src/lib.rs")],
 ["memory of the dropped value"],
 [("s_hat, z","ML-KEM secrets",MK+"kem.rs"),("sk","X-Wing secret seed","x-wing/src/lib.rs")]),
P("C19","Feature flags, build profile and target platform never change results",
 "The zeroize, deterministic, std and getrandom features and the curve features only add capabilities: for the same inputs and the same generator output, every operation of the three crates returns the same bytes under every combination of features, under debug, size-optimized and release profiles, and on every target, whether its addresses have 32 or 64 bits and whichever its byte order.",
 ["configurations","inputs"],"all buildable feature combinations, profiles and targets, all inputs",
 "The test suite is run with all features on in one profile; no test compares two configurations.",
 [MK+"lib.rs",MK+"kem.rs","x-wing/src/lib.rs","dhkem/src/lib.rs","ml-kem/Cargo.toml","x-wing/Cargo.toml","dhkem/Cargo.toml"],
 [("cfg(feature) blocks",MK+"kem.rs, x-wing/src/lib.rs, dhkem/src/lib.rs")],
 ["all public operations under each configuration"]),
P("C20","Control flow never depends on secrets or on ciphertext validity",
 "The sequence of basic blocks executed by ML-KEM decapsulation (byte comparisons included) depends only on the parameter set and the public matrix seed: it is the same whether the ciphertext is accepted or rejected, wherever it differs, and whatever the secret vector and rejection seed are (branches that only an optimizer adds to branch-free code aside). The same holds for ML-KEM encapsulation over all messages, for ML-KEM key generation over all z, for X-Wing encapsulation over its 64 random bytes, for X-Wing decapsulation over all ciphertexts of one key, and for parsing, cloning, serializing and dropping ML-KEM decapsulation keys with the same public part.",
 ["inputs"],"all pairs of secrets, messages and ciphertexts under the same public matrix seed, 3 parameter sets and X-Wing",
 "Functional tests cannot see a branch or an early exit that leaves every output unchanged.",
 [MK+"kem.rs",MK+"pke.rs",MK+"algebra.rs",MK+"compress.rs",MK+"encode.rs","x-wing/src/lib.rs"],
 [("branch-free comparison and selection",MK+"kem.rs constant_time_eq, decapsulate"),("branch-free reduction",MK+"algebra.rs small_reduce, barrett_reduce"),("division-free compression",MK+"compress.rs")],
 ["basic-block trace of Decapsulate, EncapsulateDeterministic, generate_deterministic"]),
P("C21","DH KEM control flow never depends on secret keys",
 "Key generation, encapsulation and decapsulation of the DH KEMs execute the same sequence of basic blocks (byte comparisons included, branches that only an optimizer adds aside) whatever the secret is: with X25519 for all secrets and all public values (low-order and non-canonical ones included), with P-256, P-384 and P-521 for all valid secret scalars at a given public point. With secp256k1, whose arithmetic chooses between two paths of equal length in a dependency, the number of executed basic blocks and branches is the same for all valid secret scalars.",
 ["inputs"],"all pairs of valid secrets, all public values, 5 DH KEMs, 3 operations",
 "Functional tests cannot see a branch, an early exit or a repeated computation that leaves every output unchanged.",
 ["dhkem/src/x25519_kem.rs","dhkem/src/ecdh_kem.rs","dhkem/src/lib.rs"],
 [("random_keypair, encapsulate, decapsulate","dhkem/src/x25519_kem.rs, dhkem/src/ecdh_kem.rs")],
 ["basic-block trace of DhKem::random_keypair, Encapsulate, Decapsulate"]),
P("C22","No operation allocates memory or needs a deep stack",
 "Key generation, encapsulation and decapsulation of ML-KEM, X-Wing and the DH KEMs, and parsing, serializing, comparing, cloning and dropping their keys and ciphertexts, ask the allocator for no memory, whatever the input, malformed and hostile ones included (the crates are no_std and have no use for an allocator). Each of them uses at most 128 KiB of stack below its caller in an optimized build, whatever the input.",
 ["inputs"],"all keys, ciphertexts, messages and generator outputs, valid or not, of 3 ML-KEM sets, X-Wing, 5 DH KEMs",
 "Tests run with an allocator and 2 MiB of stack and do not notice either; an allocation or a large buffer may be on a path that only rare or rejected inputs take.",
 ["ml-kem/src/lib.rs","ml-kem/src/kem.rs","ml-kem/src/pke.rs","ml-kem/src/encode.rs","ml-kem/src/algebra.rs","x-wing/src/lib.rs","dhkem/src/lib.rs","dhkem/src/x25519_kem.rs","dhkem/src/ecdh_kem.rs"],
 [("no_std without alloc","ml-kem/src/lib.rs, x-wing/src/lib.rs, dhkem/src/lib.rs"),("matrix and vectors as local arrays","ml-kem/src/pke.rs, ml-kem/src/algebra.rs")],
 ["calls of the global allocator during an operation","stack memory below the caller that an operation overwrites"]),
P("C23","Memory addresses accessed never depend on secrets",
 "The sequence of memory addresses read and written by ML-KEM decapsulation, encapsulation and key generation, by X-Wing encapsulation and decapsulation, and by key generation, encapsulation and decapsulation of the X25519, P-256, P-384 and P-521 KEMs is the same whatever the secret inputs (secret vectors, rejection seeds, messages, secret scalars) and whether a ciphertext is accepted or not, given the same public matrix seed or public point (addresses that only an optimizer selects by a secret aside). Only reads of constant tables of at most 128 bytes, such as the one that turns bits into noise, may be at an address that depends on a secret.",
 ["inputs"],"all pairs of secrets, messages and ciphertexts under the same public matrix seed or point, 3 ML-KEM sets, X-Wing, 4 DH KEMs",
 "Functional tests cannot see which memory an operation reads; a table lookup by a secret leaves every output unchanged and leaks through caches.",
 [MK+"kem.rs",MK+"pke.rs",MK+"algebra.rs",MK+"compress.rs",MK+"encode.rs","x-wing/src/lib.rs","dhkem/src/x25519_kem.rs","dhkem/src/ecdh_kem.rs"],
 [("bitwise selection of the result",MK+"kem.rs constant_time_eq, decapsulate"),("arithmetic instead of tables",MK+"algebra.rs barrett_reduce, "+MK+"compress.rs"),("small table of bit counts",MK+"algebra.rs sample_cbd, "+MK+"param.rs")],
 ["address trace of each operation"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p,s); assert p["statement"].count(". ")<=2,(p["id"],p["statement"].count(". "))
print(len(props))
