CLAIM["C06"] = "Proof, for every element within the digit bounds of its representation and every lane, of serialisation, parsing, comparison, sign and the modulus constant of both fields." + GEN
CLAIM["C05"] = "Proof for every element of inversion (both fields, full and packed radix) and square root over GF(2^255-19) (full, one-way and four-way packed), relative to the arithmetic contracts, which are verified in the same run; assumes Fermat and Euler." + GEN
CLAIM["C07"] = "Proof for every secret and every peer key that both X25519 implementations return the encoding of the RFC 7748 ladder value: all 255 steps executed over the field contracts, equality shown as a chain of polynomial identities." + GEN
CLAIM["C08"] = "Proof for every secret and every peer key that X448 returns the encoding of the RFC 7748 ladder value: all 448 steps executed over the field contracts, equality shown as a chain of polynomial identities." + GEN
CLAIM["C10"] = "Proof for every pair of points and every lane of the nine point functions of edwards25519 that are compiled into the library, as polynomial identities over GF(p) on top of the verified field contracts; assumes completeness of the addition law." + GEN
CLAIM["C16"] = "Proof for every 32-byte string and every point representation: encoding is canonical y with the parity of x; decoding accepts exactly the canonical encodings and returns minus the point. Every path of the decoder is executed for every power-residue class; strings with y >= p and y = +-1 are finitely many and executed concretely; assumes Fermat." + GEN
CLAIM["C17"] = "Proof for every 57-byte string and every point representation: encoding is canonical y with the parity of x; decoding accepts exactly the canonical encodings and returns the isogenous image of minus the point. Every path of the decoder is executed for every power-residue class; y = +-1 executed concretely; assumes Fermat." + GEN
CLAIM["C11"] = "Proof for every scalar below 2^253: the recoding is executed on symbolic nibbles (every carry), each table query is verified for every index, lane, digit and sign, and the point functions are used through their verified contracts; the result is r times the base point as an identity of integer polynomials. Assumes completeness of the addition law." + GEN
CLAIM["C14"] = "Proof for every 512-bit value and every r, k, a below 2^256: the inline assembly and word arithmetic of the reductions, the multi-word product and calculate_s are executed symbolically over integers, and each result is shown to be the canonical residue (congruence as a polynomial identity, the bound below the order by linear integer arithmetic)." + GEN
CLAIM["C15"] = "Proof for every 912-bit value, every r, k, a below 2^448 and every number divided by four: the multi-word product, the folding and the final subtraction are executed symbolically over integers, and each result is shown to be the canonical residue (congruence as a polynomial identity, the bound below the order by linear integer arithmetic)." + GEN
CLAIM["C12"] = "Proof for every scalar: division by four modulo the order, the recoding (symbolic nibbles), each table query for every index, lane, digit and sign, the point functions on the isogenous twist and the isogeny back are verified through their contracts; the result is r times the base point of edwards448. Assumes that the isogenies are homomorphisms and that the addition law of the twist is complete on points of odd order." + GEN
CLAIM["C18"] = "Proof for every private key, message and context length: the data flow of key generation and signing in the three variants is executed over contracts (hashing and point encoding uninterpreted, scalar arithmetic, fixed-base multiplication and encoding verified in the same run), every output byte is compared with the RFC 8032 term; contexts above 255 bytes give an error and no output. SHA-512 itself is the contract of C22. A bounded number of native signatures supplements it." + GEN
CLAIM["C19"] = "Proof for every private key, message and context length: the data flow of key generation and signing in both variants is executed over contracts (hashing and point encoding uninterpreted, scalar arithmetic, fixed-base multiplication and encoding verified in the same run), every output byte is compared with the RFC 8032 term; contexts above 255 bytes give an error and no output. SHAKE256 itself is the contract of C22. A bounded number of native signatures of the code as compiled supplements it." + GEN
CLAIM["C13"] = "Proof for every scalar and every point: the width-w recoding loop is cut at its header with an inductive invariant (value of the remaining scalar plus the digits written equals the scalar; every digit odd and below the table bound, or zero), the table of odd multiples, the table reads for every digit and the double-and-add loop are verified over the contracts of the point functions, so the result is the double-base combination named by the statement. Assumes completeness of the addition law." + GEN
CLAIM["C20"] = "Proof for every public key, signature, message and context length, in the three variants: the data flow of verification is executed over contracts (hashing uninterpreted; scalar reduction, decoding, double-base multiplication and encoding verified in the same run), and on every path the result equals the RFC 8032 decision, including the rejection of S >= l and of contexts above 255 bytes. SHA-512 itself is the contract of C22. A bounded number of native verifications supplements it." + GEN
CLAIM["C21"] = "Proof for every public key, signature, message and context length, in both variants: the data flow of verification is executed over contracts (hashing uninterpreted; scalar reduction, decoding, double-base multiplication, isogeny and encoding verified in the same run), and on every path the result equals the decision of the statement, including the rejection of S >= l and of contexts above 255 bytes. SHAKE256 itself is the contract of C22. A bounded number of native verifications supplements it." + GEN
CLAIM["C09"] = "Proof for every secret, all three objects, also in place: the data flow of key generation (clamping, division by eight, fixed-base multiplication, three doublings, map) is executed over contracts with symbolic secret bits and gives mont([clamped secret]B); fixed-base multiplication, doublings, the map to the Montgomery coordinate and both shared-secret ladders are verified in the same run; one-step lemmas of the ladder are polynomial identities. Assumes that the maps are homomorphisms and the induction over the ladder steps." + GEN
CLAIM["C25"] = "Proof for every secret and all public inputs, over the functions listed in the evidence: each function that handles a secret is executed on secrecy labels from its contract (which arguments and regions are secret) and every branch condition, memory address, loop bound, variable-time instruction operand and assembly operand is shown to be public; loops whose bound is public but unbounded are cut at an inductive label state. At the level of the compiler IR and of the inline assembly; the compiled code is additionally run with secrets marked undefined under memcheck, which supplies the failing input." + GEN
TECHS["C25"] = "contract-based deductive verification: secrecy contracts (which arguments and regions are secret) on the C functions, checked function by function by abstract execution of the compiler IR and the inline assembly of /repo's sources, with inductive label states at loop heads"
CLAIM["C26"] = "Proof for every input of every entry point: the memory obligations of all contracts of C01-C21 and of the label analysis of C25 are generated and discharged in one run (every access of every executed instruction and asm operand inside a live object, writes only to objects that may be written, no uninitialised branch, address, operand, callee argument or result byte, every asm block declares what it changes), together with allocation, release, printing, random filling and hashing to the curve of the interface. Inside the hash functions an address computed from a member of the state is assumed to stay in that member. A bounded run under AddressSanitizer and memcheck supplements it." + GEN
TECHS["C26"] = "contract-based deductive verification: memory-safety, initialisation and frame obligations of the contracts on the C functions and inline assembly, generated from the compiler IR of /repo's sources and discharged function by function"
CLAIM["C27"] = "Proof for every number of bytes and every sequence of results of open and read (short reads, interruptions, failures): when prgn_random_bytes returns, every byte of the buffer was written by a read of the random device; invariants of the loop found by Houdini and checked with z3 bit vectors of 64 bits. Every randKey slot fills exactly its key with distinct bytes of that stream and writes nothing else." + GEN
TECHS["C27"] = "contract-based deductive verification: contract of prgn_random_bytes and of every randKey slot against an assumed contract of the system calls; loop invariants by Houdini, obligations over 64-bit vectors discharged by z3"
