#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here, as data)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

HOOK="cfg(festa_mc) in src/lib.rs: lets the checker instantiate the same crate source with small FESTA parameters (src/fields.rs replaced); nothing else changes"

prop("C01","Trapdoor inversion recovers the exact input",
 "For every key pair produced by key generation and every admissible trapdoor input (0 <= s1 < d1, 0 <= s2 < d2, b11 odd, b22 = b11^-1 mod 2^L_POWER), inverting the trapdoor output with the matching secret key returns the same s1 and s2 and the masking matrix B up to its overall sign, the returned representative being the one whose first entry is at most 2^(L_POWER-1). This includes the extreme inputs (s1 or s2 equal to 0 or to d-1 or divisible by a prime factor of d; b11 = 1, b11 = 2^L_POWER - 1) and inputs that went through the ciphertext and secret-key byte encodings.",
 ["inputs","configurations"],"all admissible (s1, s2, B) and all keys reachable by key generation",
 "run_festa_trapdoor prints the inverted input without comparing it, and test_festa_trapdoor_inverse replays one recorded ciphertext; one random point of an astronomically large input space is touched per run.",
 ["src/festa.rs","src/supersingular.rs","src/theta.rs","src/discrete_log.rs"],
 [("FESTACrypto::trapdoor_inverse / recover_si_and_B / recover_diagB","src/festa.rs"),("product_isogeny (2^632,2^632) chain","src/theta.rs"),("compute_canonical_kernel","src/supersingular.rs")],
 [("s1,s2,B","the trapdoor pre-image","TrapdoorInput")],["return value of trapdoor_inverse"],HOOK)

prop("C02","Key generation always yields a consistent, working key pair",
 "Whatever the random source answers, key generation terminates with a public key whose points lie on the public curve, both have order exactly 2^L_POWER, and are independent, and with a secret key consistent with it: there are isogenies E0 -> EA' (degree dA1) and EA' -> EA (degree dA2) such that, up to one common sign per stored pair, the stored points are the images of the E0 torsion basis on EA' (order 2^L_POWER*d1) and one common invertible multiple of the preimages on EA' of the canonical d2-torsion basis of EA. Removing the (odd, invertible) diagonal masks from the public points gives, up to a common sign, the composite image of the E0 basis.",
 ["inputs","configurations"],"all answers of the random number generator used by key generation",
 "The tests call keygen once with OS randomness and inspect nothing but the absence of a panic.",
 ["src/festa.rs","src/supersingular.rs","src/isogeny.rs"],
 [("FESTACrypto::keygen","src/festa.rs"),("random_isogeny_x_only","src/supersingular.rs"),("evaluate_isogeny_chain_for_basis","src/isogeny.rs")],
 None,["PublicKey::extract","SecretKey::extract"],HOOK+"; randomness is scripted through a patched `rand` crate in the harness")

prop("C03","Trapdoor evaluation computes the prescribed isogenies and masks",
 "For every public key and admissible input, trapdoor evaluation returns E1 = E0/<P + [s1]Q> and E2 = EA/<P' + [s2]Q'> (P,Q / P',Q' the canonical d1- and d2-torsion bases), with R1,S1 on E1 equal, up to one common sign, to [b11] and [b22] times the images of the E0 basis of order 2^L_POWER, and R2,S2 on E2 likewise from the public points. In particular all four points have order exactly 2^L_POWER and their Weil pairings are the isogeny-degree powers of the input pairings.",
 ["inputs"],"all (s1, s2, B) and all public keys",
 "No existing test checks any output of trapdoor_eval except by feeding it to the inverse and printing the result.",
 ["src/festa.rs","src/isogeny.rs","src/supersingular.rs"],
 [("FESTACrypto::trapdoor_eval","src/festa.rs"),("isogeny_from_scalar_x_only","src/supersingular.rs"),("evaluate_isogeny_chain_for_basis","src/isogeny.rs")],
 None,["TrapdoorOutput::extract"],HOOK)

prop("C04","Secret keys and ciphertexts survive their byte encoding",
 "Decoding the encoding of any secret key or trapdoor output gives back the same curves, the same points and the same integers, and re-encoding gives the same bytes; the encoding has a fixed length for all values. Small mask entries (with leading zero bytes), field elements with zero or maximal coordinates and points given in any projective scaling are covered.",
 ["inputs"],"all secret keys / trapdoor outputs",
 "Only a fixed recorded key and ciphertext are decoded, never re-encoded or compared.",
 ["src/festa.rs","src/finitefield/fp2_gen.rs"],
 [("SecretKey::{encode,decode}, TrapdoorOutput::{encode,decode}","src/festa.rs"),("Fp2::{encode,decode}","src/finitefield/fp2_gen.rs")],
 None,["encode/decode/extract"],None)

prop("C05","Field encoding is canonical and strict",
 "Every field element (prime field and quadratic extension) has exactly one byte encoding, decode(encode(x)) = x, and decode accepts exactly the byte strings of the exact length whose value(s) are below the modulus, reporting failure and yielding zero on everything else. The reducing decoder maps every byte string, of any length, to its little-endian integer value modulo p.",
 ["inputs"],"all byte strings and all field elements",
 "The generated field test uses 300 hash-derived values; boundary values (p-1, p, p+1, 2^k, all-ones) and every string length are not covered.",
 ["src/finitefield/fp_gen.rs","src/finitefield/fp2_gen.rs"],
 [("encode, decode, set_decode_reduce","src/finitefield/fp_gen.rs"),("Fp2::encode/decode","src/finitefield/fp2_gen.rs")],
 None,["encode/decode return values"],None)

prop("C06","Prime-field arithmetic is exact modulo p",
 "Addition, subtraction, negation, multiplication, squaring, halving, multiplication by 2/3/4/8 and by any signed 32-bit integer, sums and differences of two products, division, inversion, exponentiation and integer conversions of the prime field return the exact residue modulo p for all operands, in every operator form (by value, by reference, assigning). Division by zero and inversion of zero give zero, and no result is ever left outside the canonical range so that equality and zero tests stay exact.",
 ["inputs"],"all operands (and all exponents with any bit length)",
 "300 hash-derived operand pairs at one modulus; carry, borrow and reduction corner cases have probability about 2^-64 each under such sampling.",
 ["src/finitefield/fp_gen.rs","src/finitefield/utils64.rs"],
 [("set_add/set_sub/set_mul/set_square/set_montyred/set_div/set_mul_small/sum_of_products/difference_of_products","src/finitefield/fp_gen.rs"),("addcarry/subborrow/umull helpers","src/finitefield/utils64.rs")],
 None,["encode() of results"],HOOK)

prop("C07","Quadratic-extension arithmetic is exact",
 "In Fp2 = Fp[i], i^2 = -1, addition, subtraction, negation, conjugation, both multiplication routines, squaring, halving, small multiples, division, inversion, batch inversion (including zero entries and every slice length) and all exponentiation routines (byte-string with offset and bit length, 32-bit, 64-bit constant- and variable-time, big integer) return the exact field result for all operands and exponents. Division by zero and inversion of zero give zero.",
 ["inputs"],"all operands, exponents, slice lengths",
 "The Fp2 test macro is commented out for the FESTA field, so Fp2 arithmetic is only exercised indirectly.",
 ["src/finitefield/fp2_gen.rs"],
 [("set_mul, set_square, set_div, batch_invert, set_pow*","src/finitefield/fp2_gen.rs")],None,["get_coeff / encode of results"],HOOK)

prop("C08","Square roots, fourth roots and residue symbols are exact and canonical",
 "For every element of the prime field and of its quadratic extension, the Legendre symbol is 1, 0 or -1 exactly for non-zero squares, zero and non-squares; the square-root and fourth-root routines report success exactly when a root exists, the returned value squared (to the fourth) is the input, and on failure the result is zero. The root returned is canonical: it depends only on the input and has the documented sign (least significant bit of the first non-zero coordinate is zero).",
 ["inputs"],"all field elements",
 "Hash-derived samples essentially never hit elements in the base field, purely imaginary elements, roots with a zero coordinate, or zero.",
 ["src/finitefield/fp_gen.rs","src/finitefield/fp2_gen.rs"],
 [("Fp::{legendre,set_sqrt,set_fourth_root}","src/finitefield/fp_gen.rs"),("Fp2::{legendre,set_sqrt,set_fourth_root}","src/finitefield/fp2_gen.rs")],None,None,HOOK)

prop("C09","The curve group law is complete and correct",
 "For every curve and every pair of its points, in any projective scaling, addition, subtraction, negation, doubling and repeated doubling (on points and on pairs of points of a product) return the point prescribed by the elliptic-curve group law, including the neutral element, opposite points, equal points and points of order 2 and 4. Equality of points holds exactly for the same group element.",
 ["inputs"],"all curves, all pairs of points, all projective representatives",
 "No unit test targets the group law directly; exceptional cases are unreachable by random points on a 2586-bit group.",
 ["src/eccore.rs"],[("Curve::{add_into,double_from_coords,double_iter}, Point::equals","src/eccore.rs"),("EllipticProduct::{add,double,double_iter}","src/eccore.rs")],None,None,HOOK)

prop("C10","All scalar multiplications equal repeated addition",
 "For every curve point (including the neutral element and points of small order) and every non-negative integer n, each scalar-multiplication routine (byte string with explicit bit length ignoring bits beyond it, big integer, 64-bit integer) returns n times the point. In particular n = 0, 1, 2, 3, n = -1 modulo the order, n a multiple of the order and n = multiples plus or minus one are exact. Clearing a cofactor k, with a power of two dividing k split off, returns k times the point.",
 ["inputs"],"all points, all scalars, all bit lengths",
 "Ladder special cases (P of order 2, (n+1)P in {P,-P,0}) need scalars close to a multiple of the order, which no test uses systematically.",
 ["src/eccore.rs"],[("Curve::{mul_into,mul,mul_big,mul_small}","src/eccore.rs"),("clear_cofactor","src/supersingular.rs")],None,None,HOOK)

prop("C11","Point validation and lifting are sound and complete",
 "Setting a point from coordinates succeeds exactly when the coordinates satisfy the curve equation (or denote the point at infinity) and yields infinity otherwise; lifting an x-only point succeeds exactly when a rational y exists and then returns a point with that x. Canonical point iteration visits, in order, exactly the lifts of x = 1+i, 2+i, 3+i, ... that exist, is the same on every call, and random point generation always returns a point on the curve for every answer of the random source, both signs being reachable.",
 ["inputs"],"all coordinate pairs/triples, all curves, all RNG answers",
 "Tests iterate over seven points of one curve and never feed off-curve coordinates.",
 ["src/eccore.rs"],[("set_xy,set_xyz,on_curve,point_xy_vartime,complete_pointX,CurveIter,set_rand_point","src/eccore.rs")],None,None,HOOK)

prop("C12","Torsion bases are exact, independent and canonical",
 "On every supersingular curve of the family and for every factored divisor D of p+1, the canonical basis (and the entangled basis for the power of two) consists of two points of order exactly D that generate the whole D-torsion, and the canonical and random single-point generators return points of order exactly D. The canonical generators are functions of the curve alone: the same curve always gives the same basis, on every call and on either side of a protocol.",
 ["inputs","configurations"],"all supersingular curves, all divisors of p+1",
 "Two bases on the single starting curve are computed by tests, mostly printed rather than asserted.",
 ["src/supersingular.rs"],[("torsion_basis, entangled_torsion_basis, generate_point_order_factored_D, generate_random_point_order_factored_D, clear_cofactor","src/supersingular.rs")],None,None,HOOK)

prop("C13","Order tests accept exactly the elements of full order",
 "For every factored integer D > 1 and every curve point (or field element) killed by D, the order test returns true exactly when the order is D. Elements that miss a single prime factor, or a single power of it, and the neutral element are rejected.",
 ["inputs"],"all group elements killed by D, all factored D",
 "The tests only apply the order test to elements expected to pass.",
 ["src/supersingular.rs"],[("point_has_factored_order, has_factored_order (batch cofactor recursion)","src/supersingular.rs")],None,None,HOOK)

prop("C14","The Weil pairing is bilinear, alternating and non-degenerate",
 "For every n dividing p+1 and all points of order dividing n on a curve of the family (including the neutral element, equal, opposite and linearly dependent points), the Weil pairing is an n-th root of unity, is multiplicative in each argument, equals 1 on linearly dependent points, inverts when its arguments are swapped, and has order exactly n on a basis. It is compatible with isogenies: the pairing of images is the degree-th power of the pairing. The Tate pairing raised to (p^2-1)/n is, for every P of order dividing n and every point Q of the curve, the Weil pairing of the ((p+1)/n)-multiple of Q with P.",
 ["inputs"],"all pairs of n-torsion points, all n dividing p+1",
 "One bilinearity instance (x = 19) and one order computation are tested on one curve; dependent and neutral arguments never occur.",
 ["src/pairing.rs"],[("weil_pairing, tate_pairing, eval_line","src/pairing.rs")],None,None,HOOK)

prop("C15","Discrete logarithms and basis decomposition are exact",
 "For every element alpha of order D (D given in factored form) and every exponent x, the discrete-logarithm routines (baby-step giant-step, prime-power, composite) applied to alpha^x return x modulo D. For every basis (P,Q) of the D-torsion and all (a,b) modulo D, decomposing [a]P+[b]Q returns exactly (a,b), including a = 0, b = 0 and the neutral element, with or without a precomputed basis pairing.",
 ["inputs"],"all exponents / coefficient pairs, all factored orders",
 "A handful of random logarithms at one order; the pairing-based test is even unreliable on the base revision.",
 ["src/discrete_log.rs"],[("bsgs, ph_dlp_power, ph_dlp, bidlp","src/discrete_log.rs")],None,None,HOOK)

prop("C16","Integer helpers compute exact inverses, CRT and integer roots",
 "The extended-gcd helper returns, for all coprime a and b, the inverse of a modulo b in [0,b); Chinese remaindering returns the unique value below the modulus matching every residue; the integer square root returns the floor of the root for every 32-bit integer.",
 ["inputs"],"all integer pairs / residue vectors / 32-bit integers",
 "The unit tests check single examples, not the range limits.",
 ["src/discrete_log.rs"],[("xgcd_big, compute_crt, sqrt_floor","src/discrete_log.rs")],None,None,None)

prop("C17","Odd prime-degree isogenies have the right kernel, codomain and image",
 "For every curve and every point K of odd prime order l, the isogeny with kernel <K> has the codomain (up to isomorphism) given by Velu's formulas, sends exactly the points of <K> to the neutral element, and maps every other point to a point of the codomain equal, up to sign, to its image under the l-isogeny; images respect addition up to sign. The result depends only on the subgroup <K>, not on the generator or projective scaling.",
 ["inputs"],"all curves, all kernels of each degree, all evaluated points",
 "Tests print codomains; nothing compares against an independent isogeny formula.",
 ["src/isogeny.rs"],[("KummerLineIsogeny::{new,compute_codomain_constants,evaluate_isogeny}","src/isogeny.rs")],None,None,HOOK)

prop("C18","Basis images are consistent up to one overall sign",
 "Evaluating an isogeny chain of odd degree on a torsion basis returns the codomain and a pair of points equal to (phi(P), phi(Q)) or to (-phi(P), -phi(Q)), never with mixed signs: the Weil pairing of the images is exactly the degree-th power of the pairing of the basis. This holds for every chain, every basis of every torsion order coprime to the degree.",
 ["inputs"],"all chains, bases and torsion orders",
 "The repository test calls the pieces by hand and prints the pairings without asserting their relation.",
 ["src/isogeny.rs"],[("evaluate_isogeny_chain_for_basis","src/isogeny.rs")],None,None,HOOK)

prop("C19","Composite-degree isogenies factor correctly for every kernel",
 "For every factored odd degree D (any number of primes, any exponents) and every point K of order D, the composite isogeny is a chain of prime-degree steps, one per prime factor counted with multiplicity, each starting on the previous codomain, whose kernel is exactly <K>. The codomain of the chain agrees, up to isomorphism, with the quotient by <K> computed independently, and the isogeny built from a scalar m uses the kernel P + [m]Q of the canonical or supplied basis.",
 ["inputs"],"all kernels of all factored odd degrees",
 "One composite degree 2309*631 is evaluated and printed.",
 ["src/isogeny.rs","src/supersingular.rs"],[("factored_kummer_isogeny (sparse strategy recursion), evaluate_isogeny_chain","src/isogeny.rs"),("isogeny_from_scalar_x_only, random_isogeny_x_only","src/supersingular.rs")],None,None,HOOK)

prop("C20","Product (2^n,2^n)-isogenies are correct for every kernel and strategy",
 "For every chain length n >= 3: given a maximally isotropic kernel of order 2^n in E1 x E2 (with points of order 2^(n+2) above it, given by any isotropic pair of such points) whose quotient is a product and no earlier step of the chain is, the computed isogeny returns that product's two curves up to isomorphism and order, sends the kernel to the neutral element, and maps any point to its image up to sign in each component, so that images respect addition up to sign. The result does not depend on the doubling strategy: every valid strategy, and the strategy-free routine, agree.",
 ["inputs","configurations"],"all such kernels, evaluated points, chain lengths and strategies",
 "The only theta test (evaluate_theta_isogeny) fails on the base revision; the rest is exercised by one recorded ciphertext.",
 ["src/theta.rs"],[("product_isogeny, product_isogeny_no_strategy, gluing_isogeny, two_isogeny, splitting_isomorphism, split_to_product","src/theta.rs")],None,["returned EllipticProduct and CouplePoints"],HOOK)

prop("C21","Canonical kernel recovery inverts the kernel choice",
 "For every odd factored D, every basis (P,Q) of the D-torsion (supplied or canonical), every s modulo D, and all points R, S that together generate the subgroup <P + [s]Q>, canonical kernel recovery returns exactly s. This covers s = 0, s divisible by prime factors of D, and generators where one of R, S is trivial at some primes or altogether neutral.",
 ["inputs"],"all s and all generating pairs (R,S)",
 "Only reached through one recorded ciphertext.",
 ["src/supersingular.rs","src/discrete_log.rs"],[("compute_canonical_kernel","src/supersingular.rs")],None,None,HOOK)

prop("C22","Mask recovery returns the mask up to sign, normalised",
 "From the dual-isogeny image of the masked point, mask recovery returns (alpha, alpha^-1) modulo 2^L_POWER or both negated, for every odd alpha, choosing the representative with first entry at most 2^(L_POWER-1); alpha and -alpha give the same answer. The two returned entries always multiply to 1 modulo 2^L_POWER and are below 2^L_POWER.",
 ["inputs"],"all odd masks",
 "Only reached through one recorded ciphertext.",
 ["src/festa.rs","src/discrete_log.rs"],[("FESTACrypto::recover_diagB","src/festa.rs")],None,None,HOOK)

prop("C23","Curve isomorphisms are group isomorphisms onto the target curve",
 "For every two Montgomery curves with the same j-invariant (other than 0 and 1728), the constructed isomorphism maps every point of the first to a point of the second, is injective, respects addition, and maps the neutral element to the neutral element. All codomains A' in the isomorphism class, including A' = A and A' = -A, are covered. The j-invariant of every curve is 256(A^2-3)^3/(A^2-4), so it is equal exactly for curves isomorphic over the closure.",
 ["inputs"],"all isomorphic curve pairs and all points",
 "isomorphism_test uses one fixed curve pair and two points.",
 ["src/eccore.rs"],[("CurveIsomorphism::{new,eval}, Curve::j_invariant","src/eccore.rs")],None,None,HOOK)

prop("C24","Operations are deterministic and independent of call history",
 "Every operation other than the explicitly random ones returns a value that depends only on its arguments: repeating it, interleaving it with any other operations on the same or other keys and curves, or sharing one instance between them never changes a result. Arguments passed by reference and the shared scheme instance are left unchanged, and random operations depend only on their arguments and the random source.",
 ["histories"],"all sequences of operations on shared instances and keys",
 "Each test runs a single straight-line scenario in a fresh state.",
 ["src/festa.rs","src/supersingular.rs","src/isogeny.rs","src/theta.rs"],[("FESTACrypto methods take &self; no global state","src/festa.rs"),("pure functions","src/supersingular.rs")],None,None,HOOK)

prop("C25","Public parameters satisfy the scheme's defining relations",
 "The shipped constants agree with one another: the big-integer modulus equals the field's modulus, the basis order is p+1, D1, D2, DA, DA1, DA2 equal (the squares, for DA1 and DA2, of) the products of their factor lists, the factors are distinct odd primes, D1, D2 and the square root of DA are pairwise coprime divisors of (p+1)/2^L_POWER with 2^L_POWER dividing p+1, m1^2*DA1*D1 + m2^2*DA2*D2 = 2^THETA_ISOGENY_LENGTH with L_POWER = THETA_ISOGENY_LENGTH + 2. The theta strategy is a valid strategy for that length and the tabulated E0 torsion points are a basis of the torsion they claim; the scheme object built from them uses bases of exact orders 2^L_POWER and d1.",
 ["configurations"],"every shipped constant",
 "No test relates constants to one another; a wrong digit in a rarely used one survives all tests.",
 ["src/fields.rs","src/festa.rs"],[("constants","src/fields.rs"),("FESTACrypto::new","src/festa.rs")],None,None,None)

prop("C26","Selection, swap, equality and hashing are exact",
 "Conditional copy, select, conditional negation and conditional swap change exactly what they should for both control values on field elements and points, and aliasing or repeated use does not matter. Zero tests, equality, hash codes and hashing agree with mathematical equality of the represented values, however those values were computed; trapdoor inputs are equal exactly when all their components are.",
 ["inputs","histories"],"all operands, both control values, all computation routes to the same value",
 "Hash-derived samples never produce equal values by different routes or the extremes of the internal range.",
 ["src/finitefield/fp_gen.rs","src/finitefield/fp2_gen.rs","src/eccore.rs","src/festa.rs"],[("set_cond, set_select, set_condneg, condswap, equals, iszero, hashcode, Hash","src/finitefield/fp_gen.rs"),("PartialEq for TrapdoorInput","src/festa.rs")],None,None,HOOK)

prop("C27","Malformed encodings are refused, never silently accepted",
 "Decoding a secret key or ciphertext never returns a value for a byte string of the wrong length or containing a non-canonical field element: it refuses (panics) in every build profile. No accepted byte string decodes to a value that re-encodes differently.",
 ["inputs"],"all byte strings near the valid ones (every length, every field position)",
 "No test feeds malformed bytes.",
 ["src/festa.rs"],[("SecretKey::decode, TrapdoorOutput::decode","src/festa.rs")],None,None,None)

prop("C28","Key generation can reach the whole key space",
 "Over the answers of the random source, key generation reaches every odd value of each diagonal mask (all L_POWER bits of both, independently of each other) and every kernel subgroup of each secret isogeny step, and two key generations fed different randomness do not reuse each other's secrets. Random field elements, points and scalars always lie in their documented domain.",
 ["inputs"],"all answers of the random source",
 "A key space collapsed to a few values passes every round-trip test.",
 ["src/festa.rs","src/supersingular.rs","src/eccore.rs"],[("FESTACrypto::keygen (gen_biguint, set_bit)","src/festa.rs"),("generate_random_point_order_factored_D","src/supersingular.rs"),("set_rand, set_rand_point","src/eccore.rs")],None,None,HOOK)

prop("C29","Secret-dependent timing is absent from constant-time routines",
 "The field and ladder routines documented as constant-time execute the same instruction and memory-access trace for all secret operands of the same public length.",
 ["inputs"],"all secret operands",
 "Functional tests do not observe timing.",
 ["src/finitefield/fp_gen.rs","src/eccore.rs"],[("branch-free carry and select code","src/finitefield/fp_gen.rs")],None,None,None)

prop("C30","Inverting the trapdoor without the secret key is infeasible",
 "No efficient adversary recovers (s1, s2, B) from a public key and a trapdoor output alone.",
 ["inputs"],"all efficient adversaries",
 "A cryptographic assumption, outside any functional test.",
 ["src/festa.rs"],[("FESTA hardness assumption","src/festa.rs")],None,None,None)

prop("C31","Theta-model arithmetic is multiplication by two",
 "For every level-2 theta structure (null point with non-zero coordinates and non-zero dual squared coordinates) and every point in theta coordinates, doubling (in place or not) and repeated doubling give, projectively, the point prescribed by the duplication formula: on a product of two Montgomery curves, twice (2^n times) the point on each factor, including the neutral element, points of order two and points with vanishing coordinates. The result does not depend on the representative, doubling any two-torsion translate of a point gives the same point, the null point is fixed, and n = 0 is the identity. The Hadamard transform applied twice multiplies by four and the squared theta transform is the Hadamard transform of the squares.",
 ["inputs"],"all theta structures and points",
 "No test of the suite calls the theta structure; product isogenies only reach it at generic points of one chain.",
 ["src/theta.rs"],[("ThetaStructure::{precomputation,set_double_self,double_point,double_iter}, ThetaPoint::{hadamard,squared_theta}","src/theta.rs")],None,["ThetaPoint::coords"],HOOK)

prop("C32","The shipped program completes, over the whole input space",
 "Whatever the random source answers, the program in src/main.rs runs to its end: every round trip it performs gives back the trapdoor input it drew, so its own comparison never fails (and the program does fail if an answer differs from the input in any of its four integers, in any case). The inputs it draws are admissible and in the form inversion returns (0 <= s1 < d1, 0 <= s2 < d2, b11 odd and below 2^(L_POWER-1), b11 b22 = 1 mod 2^L_POWER), they differ from case to case, and over the answers of the random source every s1, every s2 and every such b11 is drawn.",
 ["inputs"],"all answers of the random source",
 "The suite never runs the program; a program that draws from a small or wrong set of inputs still ends normally on the ones it draws.",
 ["src/main.rs","src/festa.rs"],[("festa_trapdoor_bench, gen_random_trapdoor_input","src/main.rs")],None,["the inputs passed to trapdoor_eval, the end of main"],HOOK)
prop("C33","Printed values identify what they print",
 "The text of a prime-field element is its decimal value in [0, p) and the text of an extension element holds the decimal values of its imaginary and real parts, whatever computation produced the element, so two elements print alike exactly when they are equal; the text of a curve holds its coefficient, that of a point, a couple of points or a theta point its projective coordinates, that of a trapdoor input its four integers in order, and that of an isogeny the coefficients (in the alternate form the j-invariants) of its domain and codomain.",
 ["inputs"],"all field elements, points, curves, trapdoor inputs and isogenies",
 "The suite prints a few values and compares none with the value.",
 ["src/finitefield/fp_gen.rs","src/finitefield/fp2_gen.rs","src/eccore.rs","src/theta.rs","src/isogeny.rs","src/festa.rs"],[("impl fmt::Display for Fp, Fp2, Point, Curve, CouplePoint, ThetaPoint, KummerLineIsogeny, TrapdoorInput","src")],None,["to_string / format!"],HOOK)

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
