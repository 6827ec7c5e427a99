"""One table: the properties and what the manifest says about their checks."""

B, C, X, E = "zksk/base.py", "zksk/composition.py", "zksk/extended.py", "zksk/expr.py"
D, N, R, S = ("zksk/primitives/dlrep.py", "zksk/primitives/dl_notequal.py", "zksk/primitives/rangeproof.py",
              "zksk/primitives/bbsplus.py")
PA, U = "zksk/pairings.py", "zksk/utils/groups.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, note=note))


prop("C01", "Honest non-interactive proofs are always accepted",
     "For every well-formed statement (discrete-log representations, inequality, range, BBS+ possession, custom extended "
     "statements, and every permitted and/or composition of them) whose secrets satisfy it, a non-interactive proof made with "
     "those secrets, with or without a message, is accepted by a separately built copy of the statement. This holds however the "
     "secret values are supplied (on creation or when proving, as integers or big numbers, reduced or not). When the prover "
     "lacks the secrets it needs, it refuses rather than publishing a proof that fails.",
     ["inputs", "programs"], "all statement trees within the bound, all witnesses, bases, coins and messages, every choice of "
     "the simulated branches",
     "tests prove a handful of fixed trees with small fixed secrets; the property quantifies over all trees, witnesses and coins",
     [B, C, X, D, N, R, S, PA], [("Prover.get_nizk_proof / Verifier.verify_nizk", B), ("OrProver, AndProver", C),
                                 ("DLRepProver.compute_response", D), ("ExtendedProver", X)],
     ["prove()", "verify()"],
     "Every path of prover and verifier is executed symbolically for each tree; acceptance is proved for all values.")

prop("C02", "Honest interactive runs are always accepted",
     "When prover and verifier follow the documented message flow (precommitment, commitment, challenge, response) for a true "
     "statement, the verifier accepts, for every challenge it may draw and also when the run is driven by the provided protocol "
     "runner. The challenge always lies in the 128-bit challenge space.",
     ["inputs", "programs"], "all statement trees within the bound, all witnesses, coins and challenges",
     "tests run one random challenge per fixed statement",
     [B, C, X, D, N, R, S, "zksk/utils/debug.py"], [("Verifier.send_challenge / verify", B), ("AndVerifier, OrVerifier", C),
                                                    ("SigmaProtocol", "zksk/utils/debug.py")],
     ["Verifier.verify"],
     "As C01, with the verifier's challenge symbolic.")

prop("C03", "Accepted proofs of representations and conjunctions yield a witness",
     "From any two accepting answers of a possibly malicious prover to different challenges on the same commitment, values of all "
     "secrets satisfying every equation of a representation or a conjunction can be computed, and a secret that occurs several "
     "times gets one and the same value everywhere. The same holds for accepted non-interactive proofs when the hash is answered "
     "differently on the same query.",
     ["inputs", "programs"], "all conjunction trees within the bound, all adversarial commitments, challenges and responses",
     "tests only try a few hand-made false proofs; soundness quantifies over every adversarial transcript",
     [B, C, D], [("check_responses_consistency", D + ", " + C), ("recompute_commitment", D + ", " + C), ("verify_nizk", B)],
     ["Verifier.verify", "verify()"],
     "Special soundness (two-transcript extraction, forking for NIZKs) proved over symbolic adversarial transcripts of the "
     "documented shape; the step from special soundness to knowledge soundness is the textbook one.")

prop("C04", "Accepted disjunctions yield a witness for at least one branch",
     "From two accepting answers to different challenges on the same commitment of an or-statement, a full witness of at least one "
     "branch can be computed, whatever sub-challenges and responses the prover sends, including too many, too few or unreduced "
     "ones. This holds for nested and mixed and/or statements and for non-interactive proofs.",
     ["inputs", "programs"], "all or-trees within the bound, all adversarial sub-challenges, responses and commitments, any "
     "number of surplus or missing entries within the bound",
     "tests check one forged proof at most; a forgery needs specific sub-challenges that sampling never hits",
     [C, B], [("OrProofStmt.recompute_commitment", C), ("OrVerifier", C)], ["Verifier.verify", "verify()"],
     "As C03, per branch, with reshaped adversarial sub-challenge lists.")

prop("C05", "Non-interactive proofs are bound to statement, message and transcript",
     "A non-interactive proof is accepted for one message and one statement only: nobody can make one proof that is accepted for "
     "two messages, two statements, or two different commitments or precommitments under the same challenge. Replacing any single "
     "component of an honest proof (challenge, any response, precommitment, identifier, message) by a different value makes "
     "verification fail.",
     ["inputs", "programs"], "all adversarial proofs and message pairs; every component of honest proofs and every other value",
     "tests alter one or two components with fixed values",
     [B, C, D], [("build_fiat_shamir_challenge", B), ("Verifier.verify_nizk", B), ("get_proof_id", C)], ["verify()"],
     "SHA-256 is modelled as a collision-free random oracle of the exact bytes hashed.")

prop("C06", "Statement identifiers agree exactly when the statements agree",
     "A verifier hands out a challenge, and a non-interactive proof is processed, only when the prover's statement has the same "
     "structure, the same public points and the same pattern of shared secrets as the verifier's own. Conversely the identifier "
     "does not depend on secret names, on secret values, on which branches are simulated, on the process or on object identity, "
     "so that independently built equal statements always work together. The same holds for a simulated transcript: it is found "
     "consistent by equal statements only.",
     ["inputs", "programs", "configurations"], "all pairs of statements out of a pool covering every kind, all public points, "
     "any process and hash seed",
     "tests compare a few fixed pairs inside one process",
     [C, X, D, PA, B], [("get_proof_id / prehash_statement / check_statement", C), ("__repr__ of points", PA)],
     ["Verifier.send_challenge", "verify()"],
     "Identifiers are compared as exact symbolic byte strings under a collision-free hash.")

prop("C07", "Simulated transcripts verify and are distributed like honest ones",
     "For every statement, with or without a witness, simulation produces a transcript that satisfies the verification equation "
     "for the given or drawn challenge. Its numbers have the same ranges and are independent and uniform like those of an honest "
     "transcript, and precommitment, commitment and responses have the same form as honest ones.",
     ["inputs", "programs"], "all statement trees within the bound, all public points, challenges and coins",
     "tests simulate a few fixed statements and check the equation once",
     [C, X, D, N, R, S], [("simulate / simulate_proof / prepare_simulate_proof", C), ("simulate_precommit", N + ", " + R + ", " + S)],
     ["simulate()", "verify_simulation_consistency()"],
     "Distribution is decided as linear independence of the published values over the coins, with exact ranges.")

prop("C08", "Everything an honest prover publishes is masked by fresh coins",
     "All responses and precommitted values of honest proofs are reduced and no linear combination of the values published in one "
     "or several proofs (by the same or different statement objects, over the same secrets) is independent of the prover's fresh "
     "full-length random coins, except the ones forced by equal secrets within one proof. The same holds for commitments and "
     "blinded messages that the library draws itself.",
     ["inputs", "histories"], "all statement trees within the bound, all witnesses and coins, up to two (thorough: three) proofs "
     "per statement",
     "tests never look at the distribution of published values",
     [D, C, N, R, S], [("get_randomizers / update_randomizers", D + ", " + C), ("compute_response", D),
                       ("precommit", N + ", " + R + ", " + S)],
     ["NIZK.responses", "precommitments"],
     "z3 searches for a non-zero linear combination free of coins; found ones are confirmed on the real code with repeated runs.")

prop("C09", "A disjunction does not reveal which branch was used",
     "Whatever subset of the branches of an or-statement the prover can prove, the published proof has the same form, all "
     "sub-challenges lie in the 128-bit challenge space, add up to the challenge and are otherwise uniform and independent, and all "
     "responses are uniform and independent. In particular nothing published depends on which branch was really proven.",
     ["inputs", "programs"], "all or-trees within the bound, every set of known branches, all values and coins",
     "tests only check that the proof verifies",
     [C, D, X], [("OrProver", C), ("_find_residual_challenge", C), ("simulate_proof", C)], ["NIZK", "interactive messages"],
     "As C08, per known-branch set; ranges and sums are proved for all values.")

prop("C10", "Statements, secrets and provers can be reused without side effects",
     "Statement objects can prove, verify and simulate any number of times, in any order, alone or as parts of several "
     "compositions. What happened before (accepted, refused or failed proofs, failed verifications, simulations of compositions "
     "the statement takes part in, interleaved sessions of non-extended statements) does not influence whether a later proof can "
     "be made or is accepted, and newly supplied secret values replace earlier ones.",
     ["histories", "programs"], "all sequences of up to three operations on trees within the bound, all values and coins",
     "tests use every statement object once or twice in one fixed order",
     [B, C, D, X], [("get_prover / recompute simulation marks", C), ("DLRep.get_prover", D), ("update_secrets", B)],
     ["prove()", "verify()"], "Operation sequences are enumerated, all values in them are symbolic.")

prop("C11", "Forbidden compositions are refused, permitted ones are not",
     "A statement that uses one secret inside and outside of an or-proof within one conjunction, that shares a secret among groups "
     "of different order, or that mixes points of several groups in one representation is never proven and never accepted, also "
     "when the offending part is nested or hidden inside an extended statement. Every composition without such a reuse is accepted.",
     ["inputs", "programs"], "all statement trees within the bound with every pattern of shared secrets and groups, all "
     "adversarial transcripts",
     "tests check a few forbidden trees", [C, X, D, B],
     [("validate_secrets_reoccurence / validate_group_orders / full_validate", C), ("full_validate", X)],
     ["get_prover()", "verify()"], "Trees and sharing patterns are enumerated, transcripts and points are symbolic.")

prop("C12", "Or-proofs pick a provable branch and respect simulation marks",
     "A disjunction can be proven exactly when at least one of its branches can be proven (all secrets known) and is not marked as "
     "simulated. The branch proven is always such a branch, all others are simulated, and marked branches are simulated however "
     "and wherever the mark was set before composing (including nested or-proofs and withdrawn marks). Otherwise the prover "
     "refuses, without publishing a proof that fails.",
     ["inputs", "programs", "configurations"], "all or-trees within the bound with every set of known secrets and marks, all "
     "random branch choices, values and coins",
     "tests leave the random branch choice to chance and mark one fixed branch",
     [C, D, X], [("OrProofStmt.get_prover / is_valid / set_simulated", C), ("set_simulated", B)], ["prove()"],
     "The random choice is symbolic: every path of it is explored.")

prop("C13", "Accepted inequality proofs show two different discrete logarithms",
     "Two accepting answers of a possibly malicious prover to different challenges on one commitment of an inequality statement "
     "yield an x with H0 = x*h0 and H1 != x*h1, and with binding this x is the value of the secret in all other parts of the "
     "statement. A proof of a false inequality (equal logarithms) is never accepted, nor one with the neutral element as "
     "precommitment.",
     ["inputs", "programs"], "all public points, adversarial precommitments, commitments, challenges and responses; inequality "
     "statements alone and composed",
     "tests try one equal pair with honest provers only",
     [N, X, C], [("DLNotEqual.construct_stmt / validate", N), ("ExtendedVerifier", X)], ["Verifier.verify", "verify()"],
     "Special soundness over symbolic adversarial transcripts and precommitments; group orders are prime.")

prop("C14", "Accepted range proofs show an opening inside the range",
     "Two accepting answers of a possibly malicious prover to different challenges on one commitment of a range statement yield an "
     "opening of the commitment whose value lies in the range, for power-of-two ranges and for ranges [a, b) of any size and sign; "
     "when the value is a shared secret it agrees with the rest of the statement. Values outside are never accepted (also when "
     "the prover sends false, too many or too few digits), and precommitments that do not combine to the commitment are refused.",
     ["inputs", "programs"], "all public points, precommitments, commitments, challenges and responses within the bounded ranges",
     "tests prove one value inside of and one outside of a fixed range",
     [R, X, C], [("PowerTwoRangeStmt.construct_stmt / validate", R), ("GenericRangeStmtMaker", R)],
     ["Verifier.verify", "verify()"],
     "Special soundness over symbolic adversarial transcripts and precommitments, plus a cheating prover with arbitrary digits.")

prop("C15", "Range statements cover exactly their documented range",
     "For every value inside of the documented range (0 <= x < 2^n, a <= x < b) and limits of any size and sign, an honest range "
     "proof (with given or own commitment) can be made, is accepted, and causes no warning; values outside cause a warning and are "
     "not accepted. The digit decomposition is exact. Verifiers need no secrets, provers need value and randomizer, a proof for one "
     "range is not accepted for another one, and integers work like big numbers.",
     ["inputs", "configurations"], "all values around the bounded ranges, all lower limits within 2^70, all randomizers and coins",
     "tests prove one or two values per fixed range, mostly far from its limits",
     [R], [("decompose_into_n_bits", R), ("PowerTwoRangeStmt", R), ("GenericRangeStmtMaker / GenericRangeOnlyStmtMaker", R)],
     ["prove()", "verify()", "warnings"],
     "Values, limits and randomizers are symbolic; widths are enumerated.")

prop("C16", "BBS+ signatures verify exactly for what was signed",
     "A signature issued honestly on a list of messages, directly, with a blinded commitment to some of the messages, or unblinded, "
     "verifies under the issuer's key for those messages, also when keys, creators and signatures are reused. It does not verify when "
     "any component, any message (modulo the group order), the number of messages (other than extra zero messages) or the key is "
     "altered. An accepted proof of a blinded commitment shows an opening of it; a request without proof is not accepted by the "
     "blinding verification, nor is a proof for another commitment.",
     ["inputs", "histories"], "all keys, generators, messages, blindings and alterations, lists of messages within the bound",
     "tests issue single signatures on fixed messages and never alter one",
     [S, PA], [("BBSPlusKeypair.sign / BBSPlusSignature.verify_signature", S),
               ("BBSPlusSignatureCreator.commit / obtain_signature", S), ("BBSPlusSignatureCreator blinding proof", S)],
     ["verify_signature", "verify_blinding"],
     "Pairing equations become polynomial equations over symbolic exponents; message counts are enumerated.")

prop("C17", "Accepted BBS+ possession proofs show a signature on the hidden messages",
     "Two accepting answers of a possibly malicious prover to different challenges on one commitment of a BBS+ possession statement "
     "yield a signature that verifies under the key for messages equal to the values of the secrets, also with secrets shared with "
     "other parts of the statement and within and/or compositions. Provers whose signature does not verify for their messages and the "
     "statement's key are never accepted.",
     ["inputs", "programs"], "all keys, generators, adversarial precommitments, commitments, challenges and responses, message counts "
     "within the bound", "tests use honest provers and one wrong signature",
     [S, PA, X, C], [("BBSPlusSignatureStmt.construct_stmt / precommit", S), ("ExtendedVerifier", X)],
     ["Verifier.verify", "verify()"], "Special soundness over symbolic adversarial transcripts and precommitments.")

prop("C18", "Proofs, points and messages survive serialization",
     "Serializing a non-interactive proof and deserializing it, in the same or another process, changes none of its parts, is stable when "
     "repeated, and does not change the verdict of any verifier, for honest and for arbitrary proofs. Points of every group (including "
     "the neutral element) and numbers of any sign and size, also nested, come back equal, in an equal group, and work together with "
     "local ones in sums, pairings and statements; interactive runs, simulated transcripts and blind signature issuance work when "
     "every message was encoded and decoded.",
     ["inputs", "configurations"], "all proofs, transcripts and nested values within the bound",
     "tests serialize one proof of one statement over one group",
     [B, PA, "zksk/composition.py"], [("NIZK.serialize / deserialize", B), ("pt_enc / pt_dec, register_coders, group equality", PA)],
     ["NIZK.serialize", "NIZK.deserialize", "verify()"],
     "Symbolic values travel through the real encoder; the receiving process is a second instance of all modules.")

prop("C19", "Expressions mean the sum of their terms",
     "An expression built by any sequence of additions and weighted sums denotes exactly the sum of the terms of its operands, in order; "
     "building, evaluating, proving and composing never changes its operands, other expressions or statements made from them, nor the "
     "lists given. It evaluates to that sum exactly when all values are known (zero is a value), using their present values. Separately "
     "made secrets are different whatever their values and stay themselves when values change; anything that is not a linear "
     "combination is refused.",
     ["programs", "inputs"], "all programs of additions within the bound, all values and points, every group",
     "tests build two or three expressions and never reuse an operand",
     [E, D, C], [("Expression.__add__ / eval, wsum_secrets, Secret", E), ("DLRep.__init__", D)],
     ["Expression.eval", "prove()", "verify()"], "Programs are enumerated, values and points symbolic.")

prop("C20", "Pairing wrappers are additive groups with a bilinear map",
     "G1, G2 and GT of a group pair obey the laws of additive groups of one prime order for all points and all integer scalars (sums, "
     "differences, multiples incl. zero, negative and over-long ones), their weighted sums equal the sum of the terms and refuse "
     "surplus weights or points, the pairing is bilinear and not degenerate, equal points have equal exported and printed forms, "
     "instances of the pair work together and use the given group; groups are equal exactly when of one kind. Statements (also "
     "inequality and range statements) over these groups are proven, simulated and accepted like others.",
     ["inputs"], "all points and scalars up to 300 bits, sums within the bound",
     "tests compute a few sums with fixed small scalars",
     [PA], [("G1Point, G2Point, AdditivePoint operators", PA), ("G1Group / G2Group / GTGroup sum, wsum, __eq__", PA),
            ("BilinearGroupPair", PA)],
     ["point operators", "verify()"], "Points are symbolic exponents over the modelled bplib.")

prop("C21", "Malformed proofs are never accepted and do no harm",
     "A proof, transcript, commitment, precommitment or byte string of the wrong shape (missing, surplus, doubled, empty, differently nested "
     "or wrongly typed parts anywhere) is never accepted, whatever its other parts are and whoever chose them, including "
     "responses or sub-challenges in excess of the statement's parts, precommitments of primitives that lack or add entries, and answers "
     "without challenge or precommitment. After refusing it the verifier still accepts proper proofs.",
     ["inputs", "programs"], "every position and kind of malformation within the bound, all values of all other parts",
     "tests try a few wrong values, hardly any wrong shape",
     [B, C, X, D, R], [("Verifier.verify / verify_nizk", B), ("recompute_commitment, check_responses_consistency", C),
                       ("NIZK.deserialize", B), ("validate", R)],
     ["verify()", "Verifier.verify", "NIZK.deserialize"],
     "Malformations are enumerated, every other value is symbolic and may be adversarial.")

prop("C22", "Challenges are uniform and full-width, derived generators are sound",
     "Every verifier's challenge is a fresh uniform draw from the whole 128-bit challenge space, independent of everything the "
     "prover sent and of earlier sessions, and it is the one the verifier judges with; the challenge of a non-interactive proof is "
     "the whole 256-bit hash. Random numbers of a given bit length are uniform. Generators derived from a seed are the same in "
     "every process, do not depend on how many are asked for, and are pairwise different, non-neutral elements of the requested "
     "group; without a seed they are fresh. Generated BBS+ keys have independent generators and a fresh matching exponent. The "
     "helpers that sum and convert numbers keep the exact values.",
     ["inputs", "histories", "configurations"], "all commitments and precommitments, all coins, all summands; statement trees, "
     "bit lengths, seeds and groups within the bound",
     "a unit test cannot see a biased, truncated or repeated challenge: one run looks like any other",
     [U, B, C, X, S], [("get_random_num", U), ("Verifier.send_challenge", B + ", " + X + ", " + C), ("make_generators", U)],
     ["send_challenge", "NIZK.challenge", "make_generators", "get_random_num", "sum_bn_array", "BBSPlusKeypair.generate"],
     "Uniformity is decided as: the coins drawn number exactly 2^n, results lie in the n-bit range and different coins give "
     "different results (a bijection), for all coins. Hash-to-point is an injective unknown function.")

prop("C23", "User-defined primitives inherit every guarantee of the framework",
     "A primitive written as the documentation describes (construct_stmt alone, or with precommit, validate and "
     "simulate_precommit) is complete and sound alone and in every composition and both flows: it is proven when its values are "
     "known, has no prover when they are missing, can be simulated (automatically when only construct_stmt is written), whatever "
     "its validate refuses is never accepted wherever it stands, its whole precommitment is bound to the proof, and a proof by one "
     "primitive is not accepted by another one. Using one object repeatedly does not change any of this.",
     ["inputs", "programs", "histories"], "all values, coins, precommitments, adversarial transcripts; eight primitives, statement "
     "trees within the bound",
     "tests exercise two user primitives on their own with fixed values",
     [X, C, B], [("ExtendedProofStmt.full_construct_stmt / validate / has_witness", X), ("ExtendedProver, ExtendedVerifier", X),
                 ("full_validate, prepare_simulate_proof", C)],
     ["prove()", "verify()", "Verifier.verify", "simulate()", "verify_simulation_consistency()"],
     "The machinery of C01-C12 applied to primitives written in the harness.")

prop("C24", "Equivalent ways of building and using a statement are equivalent",
     "Statements built with the operators & and | in any grouping, or with the constructors from the flat list of parts, have one "
     "identifier, and proofs and sessions by one are accepted by the other; marks set on an operand before it is composed (also on "
     "one that is merged into the composition) stay in effect. Composing copies: neither does later marking, simulating or editing "
     "an operand (or a part of it) change the composition, nor the other way around. Expressions written as sums, in any grouping, "
     "or as weighted sums, points given as lists or tuples, range limits as integers or big numbers, secrets given at creation or "
     "when proving, and prove/verify or the prover's and verifier's methods all mean the same.",
     ["inputs", "programs"], "all values, points, coins, messages and branch choices; groupings, marks and forms enumerated within the bound",
     "tests compare a few identifiers; they do not cross-verify the forms for all groupings, marks and values",
     [C, "zksk/expr.py", B], [("ComposableProofStmt.__and__, __or__, AndProofStmt/OrProofStmt.__init__", C), ("Expression, wsum_secrets", "zksk/expr.py"),
                              ("prove, verify, get_prover, get_verifier", C)],
     ["get_proof_id", "prove()", "verify()", "set_simulated", "subproofs"],
     "The documentation's equivalences (docs/usage.rst), decided for all values and branch choices.")
