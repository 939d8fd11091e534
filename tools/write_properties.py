#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook="cfg festa_sim_toy (reduced parameters, for volume); entropy, clock and scheduling need no hook in /repo"):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
F = "src/festa.rs"
p("C01", "Sealed messages open to exactly themselves, whatever the deployment does",
  "For every key pair produced by key generation or restored from its stored form, every trapdoor input (s1 in [0,d1), s2 in [0,d2), an odd b11 below 2^(b-1) with its inverse as b22) sealed to the public key yields a ciphertext that the secret key opens to exactly that input. This holds however the ciphertext was delivered (late, twice, out of order, through encode/decode), whichever instance of the cryptosystem sealed or opened it, and whatever was sealed, opened or rejected on those processes before.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all keys, all valid inputs including boundary scalars and masks, all delivery histories and process crashes",
  "The suite opens one fixed ciphertext and makes one random round trip without comparing the result; it never delivers twice, restarts, mixes instances, or uses boundary scalars and masks.",
  [F, "src/theta.rs", "src/supersingular.rs", "src/isogeny.rs", "src/discrete_log.rs", "src/pairing.rs"],
  [("FESTACrypto::trapdoor_eval", F), ("FESTACrypto::trapdoor_inverse", F), ("FESTACrypto::recover_si_and_B", F), ("product_isogeny", "src/theta.rs")],
  [("FESTACrypto", "precomputed bases and scalars shared by all operations", F)],
  ["TrapdoorInput returned by trapdoor_inverse"])
p("C02", "A stored secret key survives restarts unchanged and keeps opening",
  "A secret key whose encoding was stored intact can, after any number of process crashes, restarts and store/restore generations, be restored; the restored key encodes to the same bytes and opens every ciphertext made for its public key, before or after the crash, exactly as the original object would.",
  ["crash_points", "histories", "inputs"],
  "all keys (any mask values, short and long), all crash points during key generation, storing and opening, any number of generations",
  "The suite decodes one stored key once and never re-encodes it, and never restarts anything.",
  [F], [("SecretKey::encode", F), ("SecretKey::decode", F), ("82-byte little-endian mask fields", F)],
  [("SecretKey", "what must survive a crash", F)], ["bytes on the simulated disk", "opened messages after restart"])
p("C03", "Torn, truncated or corrupted encodings are rejected, never misread",
  "Decoding accepts a byte string as a secret key or ciphertext only if it has the exact encoded length and every field element in it is canonical (below the modulus), in every build profile; anything else is refused with a panic. Whatever is accepted re-encodes to exactly the bytes that were decoded, and every encoding produced by encode is accepted.",
  ["fault_sequences", "inputs"],
  "all storage and network damage: torn, lost or short writes, truncation, extension, bit flips, non-canonical elements, garbage",
  "The suite only decodes two valid strings, in a profile with debug assertions on.",
  [F, "src/finitefield/fp_gen.rs", "src/finitefield/fp2_gen.rs"],
  [("SecretKey::decode", F), ("TrapdoorOutput::decode", F), ("Fp2::decode", "src/finitefield")],
  (), ["accept or panic at decode", "re-encoded bytes"])
p("C04", "Every generated key pair is well formed and consistent",
  "For every state of the entropy source, a key pair that key generation returns is well formed: both masks are odd and below 2^b; all curves are supersingular and all points lie on their curves with the exact orders the scheme needs; the public points and secret images carry the pairing values of isogenies of the scheme's degrees scaled by the masks; the secret d2-points are a basis matching the public curve's canonical d2-basis; and the pair opens what is sealed to it.",
  ["inputs", "fault_sequences"],
  "all entropy streams, including ones with repeated, periodic, all-zero or all-one stretches, crashes and restarts between attempts",
  "The suite generates one key and checks nothing about it except two point orders.",
  [F, "src/supersingular.rs", "src/isogeny.rs", "src/pairing.rs", "src/discrete_log.rs"],
  [("FESTACrypto::keygen", F), ("random_isogeny_x_only", "src/supersingular.rs"), ("bidlp", "src/discrete_log.rs")],
  (), ["(PublicKey, SecretKey) returned by keygen"])
p("C05", "Keys are fresh: distinct entropy gives unrelated key pairs",
  "Key pairs generated from independent entropy never share a mask, a secret curve or a public curve, no bit of either mask is fixed or tied to the other mask except the lowest bit which is one, and every secret choice (both masks and both isogenies) depends on the entropy source, on at least 96 bits of it that do not also decide the other choices, unless all of them are expanded from one seed of at least 256 bits. Clock values, process identity, restarts, instance reuse and concurrent key generation contribute nothing and correlate nothing; a process and a fork of it generate unrelated keys, whatever the process did before.",
  ["inputs", "schedules", "histories"],
  "all sequences of key generations across processes, restarts, instances, threads, equal and unequal clocks",
  "A test that generates one key cannot see a reused, biased or ignored random value.",
  [F, "src/supersingular.rs", "src/eccore.rs"],
  [("mask sampling in keygen", F), ("random_isogeny_x_only", "src/supersingular.rs"), ("Curve::rand_point", "src/eccore.rs")],
  (), ["generated keys", "bytes drawn from the simulated entropy source"])
p("C06", "A failing or faulty entropy source never yields a bad key",
  "If the entropy source fails, cannot be opened, or returns degenerate output (zeros, ones, stuck, periodic, sparse) at any point of key generation, key generation either fails with a panic or returns a well-formed key pair as described for healthy entropy, with no secret choice made without entropy; after a bounded burst of degenerate output has ended it terminates, and the same instance then generates good keys again.",
  ["fault_sequences"],
  "all positions, lengths and kinds of entropy faults during key generation",
  "The suite has no control over the entropy source.",
  ["src/supersingular.rs", "src/eccore.rs", F],
  [("rejection sampling loops", "src/supersingular.rs"), ("Curve::set_rand_point", "src/eccore.rs")],
  (), ["keygen's outcome under injected entropy faults"])
p("C07", "Concurrent use of shared instances and keys equals isolated use",
  "Any number of threads may generate keys, seal, open, encode and decode concurrently on one shared instance and shared key objects; under every interleaving each operation returns exactly what it returns when run alone, and a panic in one thread does not disturb the others. The API types stay Send and Sync.",
  ["schedules"],
  "all interleavings of operations on shared objects at control-flow granularity",
  "No test uses a thread.",
  [F, "src/theta.rs", "src/supersingular.rs"],
  [("operations take &self and keep no shared mutable state", F)],
  (), ["each thread's result against the same call in a pristine process"])
p("C08", "Sealing and opening are deterministic; keygen depends only on entropy",
  "Sealing and opening return a result determined by their arguments alone: the same call gives the same bytes on any instance, in any process, before and after any other operations, failures, clock jumps and entropy states. Key generation's result is determined by the entropy it draws and nothing else.",
  ["histories", "configurations", "fault_sequences"],
  "all histories of prior operations and failures, all clock and entropy states",
  "The suite never repeats a call.",
  [F, "src/theta.rs", "src/isogeny.rs", "src/supersingular.rs"],
  [("no hidden state or ambient input in eval and inverse", F)],
  (), ["results of the same call in differently aged processes"])
p("C09", "A failed operation leaves instances and keys fully usable",
  "After an operation has been aborted by a panic - rejected encodings, damaged curves or points, an entropy failure part way through key generation - the same instance and key objects still give, for every later operation, exactly the result they would have given had the failure not happened.",
  ["fault_sequences", "histories"],
  "all failing operations at all points, followed by all operations",
  "The suite contains no failing operation.",
  [F, "src/supersingular.rs", "src/theta.rs"],
  [("no state is left half-updated when an operation unwinds", F)],
  (), ["results after failures against a pristine process"])
p("C10", "Every operation terminates, also on hostile or damaged inputs",
  "Creating an instance, generating a key from live entropy, sealing to any public key bytes, and opening any ciphertext bytes with any (also damaged) secret key bytes each finish - with a result or a panic - within a bounded amount of work, and never abort or kill the process.",
  ["inputs", "fault_sequences"],
  "all damage to ciphertexts, public keys and secret keys on the network and on disk",
  "The suite only processes valid inputs.",
  ["src/supersingular.rs", F, "src/theta.rs", "src/discrete_log.rs", "src/isogeny.rs"],
  [("torsion_basis search", "src/supersingular.rs"), ("entangled_torsion_basis search", "src/supersingular.rs"), ("bsgs", "src/discrete_log.rs")],
  (), ["executed work and process exit"])
p("C11", "A misrouted ciphertext never opens under another key",
  "Opening a ciphertext with a secret key other than the recipient's - an unrelated key, or one that differs from it only in its masks (in more than a common sign and the two top bits, which the scheme does not use for opening) - never yields the sealed message; it fails or yields something else, and terminates.",
  ["histories", "inputs"],
  "all pairs of keys and all messages",
  "The suite has a single key at a time.",
  [F], [("masks and isogeny images used by trapdoor_inverse", F)],
  (), ["result of opening with the wrong key"])
p("C12", "Random sampling returns valid objects for every entropy stream",
  "For every entropy stream that does not stay degenerate, random field elements are canonical, random points lie on the curve with both signs of y about equally likely and do not repeat, random points of a requested order have exactly that order, and random non-squares are non-zero non-squares.",
  ["inputs", "fault_sequences"],
  "all entropy streams, curves and requested orders",
  "The suite samples a handful of points from the operating system's entropy.",
  ["src/eccore.rs", "src/supersingular.rs", "src/finitefield/fp_gen.rs", "src/finitefield/fp2_gen.rs"],
  [("Curve::rand_point", "src/eccore.rs"), ("generate_random_point_order_factored_D", "src/supersingular.rs"), ("Fp2::rand, rand_nonsquare", "src/finitefield")],
  (), ["sampled values, judged by independent arithmetic"])
p("C13", "Random isogeny walks have the requested degree and agree with evaluation",
  "For every entropy stream, a random walk of n steps of a requested degree d ends on a supersingular curve, and evaluating the walk on a 2^b-torsion basis gives points of exact order 2^b on that same curve whose pairing is the original pairing to the power d^n.",
  ["inputs", "fault_sequences"],
  "all entropy streams, start curves, degrees and numbers of steps",
  "The suite walks a few random kernels of the shipped degrees.",
  ["src/supersingular.rs", "src/isogeny.rs"],
  [("random_isogeny_x_only", "src/supersingular.rs"), ("evaluate_isogeny_chain_for_basis", "src/isogeny.rs"), ("KummerLineIsogeny", "src/isogeny.rs")],
  (), ["codomain and image points, judged by independent arithmetic"])
p("C14", "Deployed keys and ciphertexts keep working across releases",
  "Keys and ciphertexts stored by an earlier build remain valid: the current build restores each such key to the same bytes, opens each such ciphertext to its original message, and sealing that message to that public key again yields the identical ciphertext bytes - after any crash, restart, clock jump or entropy state.",
  ["configurations", "histories", "inputs"],
  "all previously stored keys and ciphertexts, in every process state",
  "The suite holds one stored key and ciphertext and does not compare what it opens to.",
  [F, "src/supersingular.rs", "src/theta.rs", "src/fields.rs"],
  [("encodings, canonical bases and parameter constants fixed by the deployed format", F)],
  (), ["opened messages and ciphertext bytes against stored vectors"])
p("C21", "A long-lived process does not grow",
  "Repeating operations - key generation, sealing, opening, encoding and decoding, also ones that fail or run in short-lived threads - any number of times in one process leaves nothing behind that adds up: the memory, threads and file descriptors it holds stay bounded, and no single operation, whatever its input, holds more than a fixed amount of memory while it runs.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of operations, succeeding or failing, in one process",
  "The suite runs every operation a few times at most and does not look at what stays allocated.",
  [F, "src/discrete_log.rs", "src/theta.rs", "src/isogeny.rs"],
  [("keygen, eval, inverse and codecs", F), ("tables of bsgs and discrete_log", "src/discrete_log.rs"), ("chains and evaluation lists", "src/isogeny.rs")],
  (), ["bytes, threads and file descriptors held by the process after each round of operations; peak of each operation"])
p("C22", "Operations have no side effects and reveal no secrets when they fail",
  "Key generation, sealing, opening, encoding and decoding do nothing to the world but read entropy: they write nothing to the standard streams, files or sockets, create no processes, send no signals and leave the environment alone - whatever the input, fault or environment - and the message of a panic contains no part of a secret key, of a sealed message or of entropy that went into them.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "all inputs, entropy faults, failures and environments",
  "The suite does not look at what operations write, and never at the paths that fail.",
  [F, "src/finitefield/fp_gen.rs", "src/finitefield/fp2_gen.rs", "src/supersingular.rs"],
  [("decode checks and their messages", F), ("decode, expect and assert messages", "src/finitefield")],
  (), ["output, system calls and panic messages of the process under test"])
p("C23", "Debug and optimised builds behave the same",
  "Whether the library is compiled with or without debug assertions and arithmetic overflow checks makes no difference: every key generation, restore, sealing, opening, isogeny walk and sampling of the same inputs and entropy gives the same bytes in both builds, every byte string is decoded to the same value or refused by both, and no internal assertion or overflow check fires on genuine keys, messages and ciphertexts or while decoding arbitrary bytes - alone, under any history or schedule, and on unusual entropy.",
  ["configurations", "inputs", "histories", "schedules"],
  "both kinds of build, all genuine inputs, entropy streams, histories and schedules, all byte strings to decode",
  "The suite runs in one kind of build only and compares with none; assertions are tried on a few random inputs.",
  [F, "src/discrete_log.rs", "src/isogeny.rs", "src/eccore.rs", "src/pairing.rs", "src/finitefield/fp_gen.rs"],
  [("debug_assert of keygen, eval and inverse", F), ("debug_assert of bsgs", "src/discrete_log.rs"), ("debug_assert of kernels and chains", "src/isogeny.rs"), ("debug_assert of weil_pairing", "src/pairing.rs"), ("limb arithmetic", "src/finitefield/fp_gen.rs")],
  (), ["the result of every operation of the same plan in both builds"])
# pure functions: stated, not claimed
def na(id, title, statement, files):
    p(id, title, statement, ["inputs"], "all inputs of a pure function",
      "The suite samples a few inputs.", files, [("pure arithmetic", files[0])], (), (), None)
na("C15", "Field arithmetic is correct for all operands",
   "Addition, subtraction, multiplication, squaring, inversion, halving, exponentiation, Legendre symbol and square roots in GF(p) and GF(p^2) agree with integer arithmetic modulo p for all operands.",
   ["src/finitefield/fp_gen.rs", "src/finitefield/fp2_gen.rs", "src/fields.rs"])
na("C16", "Curve operations implement the elliptic curve group law",
   "Point addition, doubling, negation, scalar multiplication and x-only arithmetic implement the group law of the Montgomery curve for all points and scalars, including the point at infinity and points of order two.",
   ["src/eccore.rs"])
na("C17", "Pairings are bilinear, alternating and non-degenerate",
   "The Weil and Tate pairings are bilinear and non-degenerate on the torsion they are defined on, for all points.",
   ["src/pairing.rs"])
na("C18", "Discrete logarithms and modular helpers return the exact solution",
   "Extended Euclid, CRT, baby-step giant-step, Pohlig-Hellman and the two-dimensional discrete logarithm return the exact solution for all solvable inputs.",
   ["src/discrete_log.rs"])
na("C19", "Isogeny and theta evaluation are correct for every kernel",
   "Kummer-line isogenies, theta gluing, (2,2)-steps and splitting compute the isogeny with the given kernel for every valid kernel.",
   ["src/isogeny.rs", "src/theta.rs"])
na("C20", "Parameter constants satisfy the scheme's equations",
   "The compiled-in constants satisfy the defining equations of FESTA-128 (m1^2*dA1*d1 + m2^2*dA2*d2 = 2^b, factorisations, basis order).",
   ["src/fields.rs"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as h:
    for x in P:
        h.write(json.dumps(x) + "\n")
