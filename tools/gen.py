#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "stateless model checking of the real code: exhaustive enumeration of "
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, claimed=True, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, note=note, claimed=claimed, state=state))

CK, BF, RL = "mkckks/", "mkbfv/", "mkrlwe/"

prop("C01", "CKKS decryption returns the encrypted vector within the noise bound",
 "For every supported CKKS parameter set, every party, every level and every complex vector of the supported magnitude, decrypting a fresh encryption under that party's keys returns the vector, slot by slot, up to the noise of the scheme. The result depends neither on which encryption entry point was used nor on what the encryptor and the decryptor processed before, and extra secret keys in the set given to the decryptor change nothing.",
 ["inputs", "configurations", "histories"], "all messages of a structured basis (every unit vector, extreme and mixed vectors) x levels x parties x parameter sets x entry points, and histories on one encryptor/decryptor",
 "the tests encrypt one random vector at the top level with one parameter set per scheme",
 [CK+"encryptor.go", CK+"decryptor.go", CK+"elements.go", RL+"encryptor.go", RL+"decryptor.go", RL+"keygen.go"],
 [("public key encryption c0=u*b+e0+m, c1=u*a+e1", RL+"encryptor.go Encrypt"), ("accumulation of c_i*s_i", RL+"decryptor.go PartialDecrypt")],
 ["Encryptor.EncryptMsgNew", "Decryptor.Decrypt"],
 "messages, levels, parties, entry points and encryptor/decryptor histories", "")

prop("C02", "BFV decryption returns exactly the encrypted integer vector",
 "For every supported BFV parameter set, every party and every integer vector, decrypting a fresh encryption returns exactly the vector modulo the plaintext modulus, slot by slot. Negative entries and entries beyond the modulus are taken modulo it, and what the encryptor and the decryptor processed before, or extra secret keys in the decryption set, change nothing.",
 ["inputs", "configurations", "histories"], "every value of the plaintext modulus in every slot, boundary values, parties, parameter sets, entry points, domains of the ciphertext",
 "the tests encrypt one random vector with one parameter set",
 [BF+"encryptor.go", BF+"decryptor.go", BF+"elements.go", RL+"encryptor.go", RL+"decryptor.go"],
 [("scaling by Q/T and exact decoding", BF+"encryptor.go EncryptMsg, "+BF+"decryptor.go Decrypt")],
 ["Encryptor.EncryptMsgNew", "Decryptor.Decrypt"],
 "plaintext values, parties, parameter sets and histories", "")

prop("C03", "Every history of CKKS operations decrypts to the same history on vectors",
 "For every sequence of additions, subtractions, multiplications, rotations, conjugations, multiplications by constants and plaintexts, rescalings, level drops and hoisted variants, applied to ciphertexts of any parties at any levels, the joint decryption of the result equals the same computation on the complex vectors up to the accumulated noise, as long as the values fit the modulus and the scales of the terms of a sum are equal or differ by an integer factor. This holds for every parameter set the library accepts, whatever the number of special primes per digit and the number of parties.",
 ["histories", "inputs", "configurations"], "all operation sequences up to depth 3 (4 in the thorough tier) over a pool of ciphertexts of different parties and levels, 15 parameter sets",
 "the tests run single operations on fresh top level ciphertexts with one parameter set; they do not compose operations",
 [CK+"evaluator.go", RL+"keyswitch.go", RL+"keyswitch_hoisted.go", RL+"basis_extension.go"],
 [("relinearization with per-party keys", RL+"keyswitch.go MulAndRelin"), ("scale alignment and party union", CK+"evaluator.go evaluateInPlace")],
 ["Decryptor.Decrypt"], "operation histories up to a depth, on the real evaluator, against a vector model", "")

prop("C04", "Every history of BFV operations decrypts exactly to the history modulo T",
 "For every sequence of additions, subtractions, multiplications, rotations and row swaps applied to ciphertexts of any parties, the joint decryption of the result equals exactly the same computation on the integer vectors modulo the plaintext modulus, as long as the noise budget of the parameters lasts. This holds for every parameter set the library supports, whatever the number of primes, of special primes per digit and of parties.",
 ["histories", "inputs", "configurations"], "all operation sequences up to depth 3 (4 thorough) over a pool of ciphertexts of several parties, 9 parameter sets",
 "the tests run single operations on fresh ciphertexts with one parameter set",
 [BF+"evaluator.go", BF+"keyswitch.go", BF+"keyswitch_hoisted.go", BF+"basis_extension.go", BF+"keygen.go"],
 [("tensoring over R=Q*QMul with T/QMul scaling", BF+"evaluator.go mulRelinHoisted"), ("two key halves over Q and QMul", BF+"keyswitch_hoisted.go MulAndRelinBFVHoisted")],
 ["Decryptor.Decrypt"], "operation histories up to a depth, on the real evaluator, against a modular vector model", "")

prop("C05", "Results carry exactly the parties, level and scale their history implies",
 "The result of every operation involves exactly the union of the parties of its operands, whichever subsets they are and in whichever order the operands are given; its level is the smaller operand level minus the levels consumed by rescaling, and for CKKS its scale is the one implied by the operation. No party is lost, added or mixed up with another, every component of the ciphertext has the same level, and the result decrypts with exactly the keys of these parties.",
 ["histories", "inputs", "configurations"], "all pairs of party subsets x all pairs of levels x operations x scale combinations",
 "the tests look at operands with a few fixed party sets and equal levels, and never inspect the bookkeeping",
 [CK+"evaluator.go", BF+"evaluator.go", RL+"elements.go", RL+"idset.go"],
 [("party union", RL+"idset.go Union"), ("level and scale of results", CK+"evaluator.go newCiphertextBinary, Rescale")],
 ["Ciphertext.IDSet", "Ciphertext.Level", "Ciphertext.Scale"], "all party subset pairs, level pairs and scale pairs of every operation", "")

prop("C06", "Operations do not modify their inputs nor share memory with their results",
 "No operation that returns a new object changes an operand, a key, a hoisted form, a message, a plaintext or the parameters, and results do not share memory with operands or with scratch space: overwriting a result or an operand afterwards, or running any later operation on the same evaluator, encryptor or decryptor, leaves every other existing object unchanged.",
 ["histories", "inputs"], "every public operation x levels x operand aliasing, followed by every public operation on the same instances",
 "the tests never compare operands before and after, nor results after later operations",
 [CK+"evaluator.go", BF+"evaluator.go", RL+"keyswitch.go", RL+"keyswitch_hoisted.go", CK+"decryptor.go", BF+"decryptor.go", RL+"decryptor.go", RL+"elements.go"],
 [("scratch pools owned by the instances", RL+"keyswitch.go NewKeySwitcher"), ("deep copies", RL+"elements.go CopyNew")],
 ["bits of operands, keys and results"], "ordered pairs (and triples) of operations with whole-object snapshots", "")

prop("C07", "Instances can be reused: results never depend on what they processed before",
 "The result of an operation on an evaluator, encryptor, decryptor, key generator, key switcher or key set that has already processed other inputs (other levels, other parties, other operations, failed calls included) is the one a fresh instance gives. Nothing leaks from one operation to the next through internal buffers.",
 ["histories"], "all sequences of operations up to length 3 on one instance followed by a probe, compared with a fresh instance",
 "the tests use one evaluator for independent operations and compare only with a loose tolerance, at one level",
 [CK+"evaluator.go", BF+"evaluator.go", RL+"keyswitch.go", RL+"keyswitch_hoisted.go", RL+"encryptor.go", RL+"decryptor.go", RL+"keygen.go", CK+"decryptor.go"],
 [("scratch buffers fully rewritten before use", RL+"keyswitch.go MulAndRelin")],
 ["results of a reused versus a fresh instance"], "operation sequences on one instance, differential against a fresh one", "")

prop("C08", "A missing key is reported, an unneeded key is never required",
 "An operation or a decryption that needs a key of some involved party (secret, relinearization, rotation for the index, conjugation) fails loudly when that key is absent from the key set it is given, and never returns a result computed without it. It succeeds whenever the keys of the involved parties are present, whatever other keys are present or absent.",
 ["inputs", "fault_sequences"], "every subset of present keys x every subset of involved parties x every operation needing keys",
 "the tests always provide all keys of all parties",
 [RL+"keys.go", RL+"decryptor.go", BF+"decryptor.go", BF+"keys.go", RL+"keyswitch.go", RL+"keyswitch_hoisted.go", BF+"keyswitch_hoisted.go", CK+"evaluator.go"],
 [("lookups that panic", RL+"keys.go Get*Key"), ("leftover component test", RL+"decryptor.go Decrypt")],
 ["panic or result"], "key subsets x party subsets x operations", "")

prop("C09", "Partial decryptions in any order give the joint decryption",
 "Applying the parties' partial decryptions one after the other, in any order, gives the same plaintext as decrypting at once with the set of all their keys, for every ciphertext whatever its parties, level, domain and history, and each partial decryption removes exactly that party from the ciphertext. Joint decryption leaves the ciphertext intact.",
 ["schedules", "inputs", "histories"], "all orders of partial decryption of up to 5 parties x ciphertexts produced by different operations x levels x domains",
 "the tests only decrypt jointly",
 [RL+"decryptor.go", CK+"decryptor.go", BF+"decryptor.go"],
 [("in-place accumulation into the component 0", RL+"decryptor.go PartialDecrypt")],
 ["Decryptor.PartialDecrypt", "Decryptor.Decrypt"], "permutations of the parties' partial decryptions", "")

prop("C10", "Rotations by every index rotate the slots, directly, composed or hoisted",
 "Rotating a ciphertext by any integer index, negative and beyond the ring dimension included, rotates the slots to the left by that index modulo the number of slots (each row of N/2 slots in BFV), at every level and for every set of parties. A rotation with a dedicated key, its composition from the power-of-two keys and its hoisted form all give the same result up to noise.",
 ["inputs", "configurations"], "every rotation index in [-2N, 2N] x levels x party sets x CKKS/BFV/key switcher, direct, composed and hoisted",
 "the tests try a few random indices at the top level",
 [CK+"evaluator.go", BF+"evaluator.go", RL+"keyswitch.go", RL+"keyswitch_hoisted.go", RL+"keygen.go", RL+"params.go"],
 [("automorphism after key switching", RL+"keyswitch.go Rotate"), ("index normalization and binary composition", CK+"evaluator.go rotate")],
 ["Evaluator.RotateNew", "Evaluator.RotateHoistedNew", "KeySwitcher.Rotate"], "rotation indices, levels, party sets and variants", "")

prop("C11", "Conjugation conjugates slots (swaps rows in BFV) and is an involution",
 "Conjugating a CKKS ciphertext conjugates every slot and in BFV exchanges the two rows, at every level and for every set of parties. Applying it twice gives back the original message, and it commutes with rotations.",
 ["inputs", "configurations"], "all messages of a basis x levels x party subsets x CKKS/BFV/key switcher",
 "the tests conjugate one top level ciphertext",
 [CK+"evaluator.go", BF+"evaluator.go", RL+"keyswitch.go", RL+"keygen.go"],
 [("automorphism before key switching", RL+"keyswitch.go Conjugate")],
 ["Evaluator.ConjugateNew"], "messages, levels, party subsets and compositions", "")

prop("C12", "Hoisted operations agree with the direct ones",
 "An operation that takes precomputed (hoisted) forms of its operands decrypts to the same message as the direct operation, for all levels and party sets, whether the hoisted form was computed at the ciphertext's level or before it was dropped to a lower level, whether it is used once or many times, for either or both operands, and for squares as for products of equal copies.",
 ["inputs", "histories", "configurations"], "operand levels x hoisting levels x party subsets x aliasing x parameter sets x reuse",
 "the tests compare hoisted and direct results on a few fresh top level ciphertexts only",
 [RL+"keyswitch_hoisted.go", BF+"keyswitch_hoisted.go", CK+"evaluator.go", BF+"evaluator.go"],
 [("decomposition done ahead", CK+"evaluator.go HoistedForm"), ("external product on decomposed operands", RL+"keyswitch_hoisted.go ExternalProductHoisted")],
 ["hoisted and direct results, phase of both"], "levels, hoisting levels, party subsets, aliasing and reuse; exact phase comparison", "")

prop("C13", "Generated keys satisfy their defining relation with small fresh errors",
 "Every generated public, relinearization, rotation, conjugation and switching key satisfies its defining equation under the party's secret and the common reference string with an error bounded by the scheme's noise and not identically zero, in every digit and modulo every prime, for every parameter set. Secrets have the announced distribution (ternary, fixed weight, Gaussian), are the same modulo every prime, and every key carries its owner's identity and its rotation index.",
 ["configurations", "inputs", "histories"], "every key kind x digit x prime x rotation index (negative ones included) x parameter set x order of generation on one generator",
 "the tests check keys only through operations that tolerate large errors, with one parameter set",
 [RL+"keygen.go", RL+"keys.go", RL+"params.go", BF+"keygen.go"],
 [("gadget encryption P*Q_i^*[s]", RL+"keygen.go GenSwitchingKey")],
 ["algebraic relation of the key with the secret, in big integers"], "key kinds, digits, primes, indices, parameter sets and generation orders; exact algebraic oracle", "")

prop("C14", "RNS basis extension and exact division are correct for every residue",
 "Extending a residue vector (canonical or lazily reduced) from one RNS basis to another gives the residues of the same integer of [0, source modulus), and dividing by the special modulus or by the modulus of the other basis gives the residues of the quotient with an error of at most one unit - except that, for values within rounding error of a multiple of the modulus, one multiple more or less is allowed - at every pair of levels, for every number and size of primes, in place or not, in either domain, and whatever the converter did before. Operands are not changed, except those documented to be.",
 ["inputs", "configurations"], "every value of small RNS bases (exhaustive), boundary values of real-sized bases, all level pairs",
 "the tests sample random polynomials with one basis",
 [RL+"basis_extension.go"],
 [("modUpExact and ModDown", RL+"basis_extension.go")],
 ["coefficients, reconstructed in big integers"], "every residue of small bases and the boundary residues of large ones", "")

prop("C15", "Gadget decomposition recomposes: external products multiply",
 "For every level and every split of the primes into digits, the external product of a polynomial with a gadget encryption of a secret decrypts to their product with an error within the key switching noise bound, and decomposing ahead of time gives the same digits. This holds for polynomials in either domain, for every number of special primes, including when the digit size does not divide the number of primes or the number of special primes.",
 ["inputs", "configurations"], "levels x number of primes x number of special primes x digit parameter gamma x polynomials",
 "the tests use one split (alpha fixed) at the top level",
 [RL+"keyswitch.go", RL+"keyswitch_hoisted.go", RL+"basis_extension.go", RL+"params.go"],
 [("DecomposeAndSplit with digit size alpha", RL+"basis_extension.go"), ("ExternalProduct", RL+"keyswitch.go")],
 ["phase of the external product in big integers"], "levels, prime counts, special prime counts, gamma and polynomials", "")

prop("C16", "BFV rescaling between Q, QMul and R is exact up to rounding",
 "Extending a polynomial from the ciphertext modulus to the product modulus keeps its value up to multiples of the ciphertext modulus, scaling it to the auxiliary modulus multiplies by the modulus ratio, and scaling the tensor product back multiplies by plaintext modulus over auxiliary modulus, each with a rounding error of at most a few units, for every value. The external product over the product modulus gives plaintext modulus over auxiliary modulus times the product with the secret, within the key switching noise bound.",
 ["inputs", "configurations"], "every value of small moduli (exhaustive), boundary values of real-sized moduli, 1-3 primes",
 "the tests only see these steps through one random multiplication",
 [BF+"basis_extension.go", RL+"basis_extension.go"],
 [("ModUpQtoR, Rescale, Quantize", BF+"basis_extension.go"), ("ExternalProductBFV, GenBFVSwitchingKey", BF+"keyswitch.go")],
 ["coefficients, reconstructed in big integers"], "every residue of small moduli and boundary residues of large ones", "")

prop("C17", "Key sets, identity sets and ciphertext containers behave as maps",
 "Sets of identities, keys and ciphertext components behave as mathematical sets and maps keyed by party (and rotation index): adding, replacing, deleting, looking up, uniting, intersecting, copying and padding have exactly the set-theoretic effect, lookups of absent entries fail loudly, and the reserved identity is refused. Copies are deep and independent.",
 ["histories", "inputs"], "all operation sequences up to depth 4-6 over 3 identities, for every container type",
 "the tests only add keys and never delete, replace or compare",
 [RL+"idset.go", RL+"keys.go", RL+"elements.go", BF+"keys.go", BF+"elements.go", CK+"elements.go"],
 [("Go maps keyed by id", RL+"keys.go")],
 ["container contents after each operation"], "container operation sequences against a reference map", "")

prop("C18", "Independent instances can run concurrently on shared keys and parameters",
 "Two goroutines using their own evaluator, encryptor, decryptor or key generator on shared parameters, keys and operands obtain, under every interleaving, the results they obtain when running one after the other. Parameters, keys, operands and hoisted forms are only read, apart from the scratch space of a relinearization key set, which is not to be shared.",
 ["schedules"], "all interleavings with at most one preemption of every pair of public operations, at statement granularity",
 "the tests are sequential",
 [RL+"keyswitch.go", RL+"params.go", RL+"encryptor.go", CK+"evaluator.go", BF+"evaluator.go", BF+"basis_extension.go"],
 [("per-instance scratch space", RL+"keyswitch.go NewKeySwitcher")],
 ["results of both goroutines, operands, keys"], "thread interleavings (preemption bound 1, statement granularity, on an instrumented build of the real code)", "")

prop("C19", "Rescaling, level drops and plaintext products preserve the message",
 "Rescaling divides every coefficient by the dropped primes with correct rounding and divides the scale by the same factor, never going below the level or scale it is documented to stop at; dropping levels changes neither message nor scale; multiplying by a constant (integer, real or complex, of any sign and size that fits) or by a plaintext in either domain multiplies every slot by it with the scale adjusted accordingly.",
 ["inputs", "configurations", "histories"], "levels x scales x constants of every type, sign and magnitude x plaintext domains and levels x destination aliasing",
 "the tests multiply by one constant and rescale once from the top level",
 [CK+"evaluator.go", CK+"utils.go"],
 [("DivRoundByLastModulusMany", CK+"evaluator.go Rescale"), ("scaleUpExact", CK+"utils.go"), ("constant as a+b*X^(N/2)", CK+"evaluator.go MultByConst")],
 ["coefficients before and after in big integers, decryption"], "levels, scales, constants, domains and aliasing; exact coefficient oracle", "")

prop("C20", "Every supported parameter set works for every operation",
 "Every parameter set within the supported range - any number of primes and of special primes, any digit size, any ring degree, any number of slots, prime sizes from small to 60 bits, one to many parties - supports key generation, encryption, every evaluator operation at every level, and decryption, with correct results. The parameter sets shipped with the tests and benchmarks are among them.",
 ["configurations"], "grid of prime counts x special prime counts x prime sizes x ring degrees x slots x plaintext moduli, each with a trace covering every operation at every level",
 "the tests run two parameter sets per scheme, all with the same digit structure",
 [RL+"params.go", CK+"params.go", BF+"params.go", RL+"basis_extension.go", BF+"basis_extension.go", RL+"keygen.go", BF+"keygen.go"],
 [("alpha, beta, gamma", RL+"params.go")],
 ["decryption of every operation's result"], "parameter grid, each with a covering trace of all operations at all levels", "")

prop("C21", "Results do not depend on the iteration order of maps",
 "Every operation gives the same message, bookkeeping and (up to the representation of residues) the same ciphertext whatever the order in which the runtime enumerates parties, components and keys. No operation depends on the lexicographic order or on the spelling of party identities.",
 ["schedules", "inputs"], "all enumeration orders of the map iterations of every operation for up to 3 parties (per-iteration permutations explored exhaustively within a deviation bound)",
 "the tests see whichever order the Go runtime picks",
 [RL+"keyswitch.go", RL+"keyswitch_hoisted.go", RL+"decryptor.go", CK+"evaluator.go", BF+"evaluator.go", BF+"keyswitch_hoisted.go"],
 [("order-independent accumulation", RL+"keyswitch.go MulAndRelin")],
 ["results per order"], "map iteration orders, on an instrumented build of the real code", "")

prop("C22", "Every encryption and key uses fresh, independent randomness",
 "No two encryptions, keys, digits, secrets or reference strings share randomness: encrypting the same message twice gives ciphertexts whose masks and errors all differ, errors are present in every component with the announced width, distinct parties and distinct generators get distinct secrets, and the common reference strings of distinct indices are distinct and uniform. Reuse of instances does not repeat randomness.",
 ["histories", "configurations"], "all pairs of random objects produced by histories of encryptions and key generations on one or several instances",
 "the tests decrypt correctly even if all the randomness is constant or zero",
 [RL+"encryptor.go", RL+"keygen.go", RL+"params.go", BF+"keygen.go"],
 [("samplers seeded from the system's generator", RL+"encryptor.go newEncryptorBase")],
 ["masks, errors and secrets extracted with the secret keys"], "generation histories; exact extraction of every random component, pairwise comparison", "")

prop("C23", "The encrypted CNN layers compute the plaintext network",
 "For every model and every input image in the supported range, the encrypted evaluation of the convolution, square and fully connected layers decrypts to the values of the same network evaluated on plaintexts, with the data owner's and the model owner's keys being different.",
 ["inputs", "configurations"], "unit images and unit kernels/weights covering every index of every layer, plus mixed inputs",
 "the test evaluates one stored image with one stored model and compares only the printed class",
 ["cnn/cnn.go", CK+"evaluator.go"],
 [("rotate-and-sum layers", "cnn/cnn.go")],
 ["decryption of each layer"], "basis images and weights for every layer index", "")

prop("C24", "Parties may join at any time; keys stay compatible with the shared reference",
 "Keys generated at different times, in any order, by different generators over the same parameters, before or after further reference strings are added for new rotation indices, work together: adding a reference string changes no existing one, and copies of the parameters agree with the original. A party that joins after ciphertexts exist can compute with the earlier parties' ciphertexts.",
 ["histories", "schedules"], "all orders of joining, key generation, encryption and reference string additions of 3 parties up to a depth",
 "the tests create all parties and all reference strings up front",
 [RL+"params.go", RL+"keygen.go", RL+"keys.go"],
 [("shared CRS map", RL+"params.go AddCRS")],
 ["CRS contents, results with keys of all generations"], "interleavings of join, key generation, encryption and reference additions", "")

CLAIMED = os.environ.get("CLAIMED")
claimed = CLAIMED.split(",") if CLAIMED else None
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "notes.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         state=[dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in DONE:
        checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"],
            thorough_cmd="bash check.sh %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
            technique=TECH + p["tech"], level="model_checking",
            level_note=LEVEL.get(p["id"], "") + COMMON))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
