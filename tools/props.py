import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))
I,C,H=["inputs"],["configurations"],["histories"]
p("C01","Encryption then decryption returns the message",
 "Encrypting a message or plaintext under a party's public key and decrypting with that party's secret key yields the encoded plaintext up to noise bounded by the encryption randomness, for CKKS, BFV and plain RLWE plaintexts in either domain. The ciphertext has exactly a body and one component for that party, at the plaintext's level, in the coefficient domain with coefficients reduced.",
 I+C,"every plaintext polynomial or message, every key, every sampled randomness within the samplers' ranges, every level, several numbers of primes in Q and P",
 "Tests encrypt a few random messages at the top level only and check a statistical precision; no low level, NTT-domain plaintext or worst-case randomness is reached.",
 ["mkrlwe/encryptor.go","mkrlwe/decryptor.go","mkckks/encryptor.go","mkckks/decryptor.go","mkbfv/encryptor.go","mkbfv/decryptor.go"],
 [("Encrypt: (vb+m+e0, va+e1) modulus-switched by P","mkrlwe/encryptor.go Encrypt"),("message wrappers","mkckks/encryptor.go EncryptMsg, mkbfv/encryptor.go EncryptMsg")],
 obs=["Encrypt","EncryptMsgNew","Decrypt"])
p("C02","Joint decryption is order-independent, complete and refuses missing keys",
 "Decrypting a ciphertext of several parties computes the body plus every party's component times that party's secret, whatever the order in which parties take part. It refuses when the secret of an involved party is missing, ignores secrets of parties not involved, and leaves the ciphertext and the key set unchanged; partial decryptions by each party in any order give the same result.",
 I+C+["schedules"],"every ciphertext of 1 to 3 parties at every level, every key, every iteration order of the parties, every subset of available keys, coefficient- and NTT-domain inputs",
 "Go's map order is random and the tests see two or three fixed parties; missing keys, extra keys, low levels and repeated decryptions with one decryptor are not exercised.",
 ["mkrlwe/decryptor.go","mkckks/decryptor.go","mkbfv/decryptor.go","mkrlwe/keys.go"],
 [("Decrypt copies, loops over the ID set, then copies the body out","mkrlwe/decryptor.go Decrypt"),("GetSecretKey panics on a missing key","mkrlwe/keys.go")],
 obs=["Decrypt","PartialDecrypt"])
p("C03","Secret and public keys are well formed and share the reference string",
 "A generated secret key is one small polynomial represented consistently modulo every prime of Q and P; a public key is (b,a) with a the common reference element and b+a*s small and non-zero, modulo every prime. Every way of generating a pair returns a matching pair labelled with the requested identity.",
 I+C,"every sampled randomness, every generator variant, 1 to 3 parties, several parameter shapes",
 "Tests only check one key through encryption at one ring degree; a residue wrong modulo one prime, or a public key not sharing the reference string, needs algebra over all coefficients.",
 ["mkrlwe/keygen.go","mkrlwe/keys.go","mkrlwe/params.go"],
 [("genSecretKeyFromSampler extends the small polynomial to P","mkrlwe/keygen.go"),("GenPublicKey uses CRS[0]","mkrlwe/keygen.go")],obs=["GenSecretKey*","GenPublicKey","GenKeyPair*"])
p("C04","Relinearisation keys satisfy their gadget equations against the shared string",
 "For every digit, a relinearisation key's three parts b, d, v satisfy b = -s*a + small, d = -r*a + s*g + small and v = -s*u - r*g + small with the common reference vectors a and u and the gadget g, over every prime; for BFV the same holds for each of the two halves of its double gadget. The key depends on no other party's secret.",
 I+C,"every secret, every randomness, every digit and prime, several numbers of primes, parties generated from one or several key generators",
 "The existing tests see only that one product decrypts to roughly the right thing at one parameter shape; a wrong digit or prime of one part can hide in the noise.",
 ["mkrlwe/keygen.go","mkbfv/keygen.go"],
 [("GenRelinearizationKey / GenSwitchingKey","mkrlwe/keygen.go"),("GenBFVSwitchingKey","mkbfv/keygen.go")],obs=["GenRelinearizationKey"])
p("C05","Rotation and conjugation keys switch from the right automorphism of the secret",
 "The rotation key generated for index k encrypts, digit by digit and modulo every prime, the gadget times the secret with respect to the secret moved by the inverse rotation by k, with the common reference vector of k; the conjugation key does so for conjugation. Any rotation index that has a reference vector after reduction modulo the number of slots is accepted, including negative ones, and the default key set holds a correct key for every power of two.",
 I+C,"every secret and randomness, every rotation index in (-N/2, N/2), every digit and prime",
 "Rotation and conjugation tests are commented out upstream; negative indices and per-prime key equations are never looked at.",
 ["mkrlwe/keygen.go","mkrlwe/params.go"],
 [("GenRotationKey","mkrlwe/keygen.go"),("GenConjugationKey","mkrlwe/keygen.go"),("CRS generated per index","mkrlwe/params.go NewParameters, AddCRS")],obs=["GenRotationKey","GenConjugationKey","GenDefaultRotationKeys"])
p("C06","Gadget decomposition recomposes to the decomposed polynomial",
 "At every level, the sum of the digits of a polynomial times the gadget vector equals P times the polynomial modulo every active prime of Q and P, and every digit is an integer polynomial bounded by a small multiple of its block of primes. The same digits are produced whether the input is in the coefficient or the NTT domain, and the input is unchanged.",
 I+C,"every polynomial with coefficients in [0,q], every level, several block sizes including a last partial block",
 "The digits are never inspected by tests; partial blocks and low levels are not reached at the shapes tested, and block sizes above one are not tested at all.",
 ["mkrlwe/basis_extension.go","mkrlwe/keyswitch.go","mkbfv/keyswitch.go"],
 [("NewDecomposer tables, DecomposeAndSplit","mkrlwe/basis_extension.go"),("Decompose","mkrlwe/keyswitch.go")],obs=["Decompose","DecomposeBFV"])
p("C07","External product multiplies up to bounded noise",
 "The external product of a polynomial with a gadget encryption of a value returns, at every level, the polynomial times that value up to the digit noise divided by P plus rounding, modulo every active prime; its hoisted form on the decomposition of the same polynomial agrees. The result is in the coefficient domain, reduced, and the inputs are unchanged.",
 I+C,"every polynomial, every gadget encryption whose errors lie within the sampler's range, every level, block sizes one and two",
 "No test calls it; its use inside a product at the top level of one shape hides per-prime or partial-block mistakes.",
 ["mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkbfv/keyswitch.go"],
 [("ExternalProduct","mkrlwe/keyswitch.go"),("ExternalProductHoisted","mkrlwe/keyswitch_hoisted.go"),("ExternalProductBFV","mkbfv/keyswitch.go")],obs=["ExternalProduct*"])
p("C08","Basis extension and division are exact up to rounding",
 "Extending a polynomial from one prime basis to another represents one integer polynomial congruent to the input modulo the first basis and bounded by it; dividing by the second basis returns the quotient rounded to within the stated error, in both domains and into either basis. This holds for every combination of levels.",
 I+C,"every polynomial, every pair of source and destination levels, coefficient and NTT domain, into Q and into P",
 "Only the top-level path into Q is executed by the tests, through noise that hides off-by-one quotients; the other directions are never run.",
 ["mkrlwe/basis_extension.go","mkbfv/basis_extension.go"],
 [("ModUpQtoP, ModUpPtoQ, ModDownQPtoQ, ModDownQPtoQNTT, ModDownQPtoP","mkrlwe/basis_extension.go"),("modUpExact, reconstructRNS, multSum","mkrlwe/basis_extension.go")],obs=["FastBasisExtender methods"])
p("C09","CKKS addition and subtraction act on plaintexts",
 "The sum (difference) of two ciphertexts decrypts to the sum (difference) of their plaintexts, whatever parties each involves: the result involves the union of the parties, has the lower of the two levels, and parties in only one operand keep (or get negated) their component. Operands of different scales are brought to the same scale first, and the result's recorded scale is the scale of its plaintext.",
 I+C,"every pair of ciphertexts over equal, nested, overlapping and disjoint party sets, every pair of levels, scales equal or differing in either direction by a power of two",
 "CKKS add/sub tests are commented out upstream; differing levels, scales and disjoint parties are never exercised.",
 ["mkckks/evaluator.go"],[("evaluateInPlace scale matching","mkckks/evaluator.go"),("AddNew, SubNew","mkckks/evaluator.go")],obs=["AddNew","SubNew"])
p("C10","CKKS multiplication decrypts to the product of the plaintexts",
 "The product of two ciphertexts decrypts, under the union of the parties, to the product of their plaintexts divided by the dropped primes, up to bounded key-switching and rounding noise, whatever parties each operand involves and at whatever level. The recorded scale and level of the result describe its plaintext.",
 I+C,"every pair of ciphertexts over equal, nested, overlapping and disjoint party sets at every level including different ones, block sizes one and two, every iteration order",
 "Tests multiply a ciphertext by itself only, at the top level of one shape: asymmetry between operands, mixed parties and lower levels are never reached.",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go"],
 [("MulRelinNew, mulRelin","mkckks/evaluator.go"),("MulAndRelin","mkrlwe/keyswitch.go"),("MulAndRelinHoisted","mkrlwe/keyswitch_hoisted.go")],obs=["MulRelinNew","MulAndRelin"])
p("C11","Hoisted operations agree with their direct counterparts",
 "Rotating, multiplying and switching with precomputed decompositions gives the same ciphertext as the direct operation on the same operands up to the noise both are allowed, for any sharing of one precomputation between several calls. The precomputation is not modified by its uses and may be shared by both operands.",
 I+C+H,"every ciphertext, every sharing pattern of the precomputed forms among operands and consecutive calls, every level, equal and different party sets",
 "Upstream hoisted tests are commented out or multiply a ciphertext with itself; reuse of one precomputation across calls is not tested.",
 ["mkrlwe/keyswitch_hoisted.go","mkbfv/keyswitch_hoisted.go","mkckks/evaluator.go"],
 [("HoistedForm","mkckks/evaluator.go"),("MulAndRelinHoisted, RotateHoisted","mkrlwe/keyswitch_hoisted.go"),("MulAndRelinBFVHoisted","mkbfv/keyswitch_hoisted.go")],obs=["MulRelinHoistedNew","RotateHoistedNew","MulAndRelinBFVHoisted"])
p("C12","CKKS rotation rotates the slots of every party's ciphertext",
 "Rotating by any integer k yields a ciphertext of the same parties, level and scale that decrypts to the plaintext with slots rotated left by k modulo the number of slots, up to bounded noise. It works whether the index has a key of its own or is composed from power-of-two keys, including zero, negative and multiples of the slot count.",
 I+C,"every ciphertext, every rotation index in [-N, N], every level, one to three parties, every iteration order",
 "CKKS rotation tests are commented out upstream; low levels, negative and composite indices are never executed.",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go"],[("RotateNew, rotate: binary decomposition","mkckks/evaluator.go"),("Rotate: key switch then permutation","mkrlwe/keyswitch.go")],obs=["RotateNew"])
p("C13","CKKS conjugation conjugates the slots",
 "Conjugating a ciphertext of any parties at any level yields a ciphertext of the same parties, level and scale that decrypts to the complex conjugate of the plaintext, up to bounded noise.",
 I+C,"every ciphertext, every level, one to three parties, every iteration order",
 "The conjugation test is commented out upstream; nothing below the top level is executed.",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go"],[("ConjugateNew","mkckks/evaluator.go"),("Conjugate","mkrlwe/keyswitch.go")],obs=["ConjugateNew"])
p("C14","Multiplication by plaintexts and constants acts on the plaintext",
 "Multiplying a ciphertext by a plaintext multiplies what it decrypts to, rescaled, by that plaintext at the recorded scale; multiplying by a real, integer or complex constant multiplies it by that constant to the precision of the scale. The recorded scale and level describe the result.",
 I+C,"every ciphertext and plaintext polynomial at every level (plaintext level equal or higher), constants of every accepted type including negative, fractional, large and complex ones",
 "No upstream test multiplies by a plaintext or a constant.",
 ["mkckks/evaluator.go","mkckks/utils.go"],[("MulPtxtNew, MultByConst, getConstAndScale","mkckks/evaluator.go"),("scaleUpExact, interfaceMod","mkckks/utils.go")],obs=["MulPtxtNew","MultByConst"])
p("C15","Rescaling and level dropping keep the plaintext and its recorded scale",
 "Rescaling divides the plaintext by the dropped primes up to rounding noise, drops exactly as many primes as keep the scale at or above the requested minimum (up to half a unit), never goes below level zero and reports an error only when it can do nothing; dropping levels keeps the plaintext unchanged modulo the remaining primes. The recorded scale follows, and the operand of the non-destructive forms is unchanged.",
 I+C,"every ciphertext, every level, scales of several multiples of the prime size, every minimum scale",
 "Upstream has no rescale or level test except through one top-level product.",
 ["mkckks/evaluator.go"],[("Rescale, RescaleNew, DropLevel","mkckks/evaluator.go")],obs=["Rescale","RescaleNew","DropLevel","DropLevelNew"])
p("C16","BFV addition and subtraction act on plaintexts",
 "The sum (difference) of two BFV ciphertexts decrypts to the sum (difference) of their plaintexts modulo T over the union of the parties; a party in one operand only keeps (or gets negated) its component.",
 I+C,"every pair of ciphertexts over equal, nested, overlapping and disjoint party sets, every iteration order",
 "Tests use the same two or three parties for both operands and random messages.",
 ["mkbfv/evaluator.go"],[("AddNew, SubNew, evaluateInPlace","mkbfv/evaluator.go")],obs=["AddNew","SubNew"])
p("C17","BFV multiplication decrypts to the product of the plaintexts",
 "The product of two BFV ciphertexts decrypts over the union of the parties to the product of their plaintexts modulo T while the noise budget lasts: its phase is t/Q times the product of the phases up to bounded noise. This holds whatever parties each operand involves and is symmetric in the operands up to noise.",
 I+C,"every pair of ciphertexts over equal, nested, overlapping and disjoint party sets, every key, several numbers of primes",
 "Tests multiply a ciphertext with itself for the same parties only; the error terms of the basis extensions cannot be told from noise by sampling.",
 ["mkbfv/evaluator.go","mkbfv/keyswitch.go","mkbfv/basis_extension.go"],
 [("MulRelinNew","mkbfv/evaluator.go"),("ModUpQtoR, Rescale, Quantize","mkbfv/basis_extension.go"),("MulAndRelinBFV","mkbfv/keyswitch.go")],obs=["MulRelinNew","MulAndRelinBFV"])
p("C18","BFV rotation and conjugation permute the slots",
 "Rotating a BFV ciphertext by any integer rotates its plaintext by that automorphism, and conjugating swaps its rows, for any parties and with composed or direct keys, up to bounded noise.",
 I+C,"every ciphertext, every rotation index in [-N, N], one to three parties, every iteration order",
 "BFV rotation tests sample one random index with power-of-two keys; negative and direct composite keys are not reached.",
 ["mkbfv/evaluator.go","mkrlwe/keyswitch.go"],[("RotateNew, ConjugateNew","mkbfv/evaluator.go")],obs=["RotateNew","ConjugateNew"])
p("C19","Operations leave their operands intact and results share no memory with them",
 "No operation documented to return a new ciphertext changes any word, scale, level or component of its operands, of key material or of precomputed forms, and the returned ciphertext shares no memory with them or with the evaluator, so that later operations or writes cannot change it. Copies are deep.",
 I+C+H,"every operation of both evaluators, the encryptors and decryptors on every ciphertext, level and party pattern, followed by another operation on the same evaluator",
 "Tests compare decrypted values only, right after each operation, and never look back at operands.",
 ["mkckks/evaluator.go","mkbfv/evaluator.go","mkrlwe/elements.go","mkckks/elements.go","mkbfv/elements.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go"],
 [("NewCiphertext / CopyNew allocate","mkrlwe/elements.go"),("pools kept inside evaluators","mkckks/evaluator.go, mkrlwe/keyswitch.go")],obs=["every *New operation"])
p("C20","Results do not depend on what the evaluator did before",
 "An evaluator, key switcher, encryptor, decryptor or key generator that has already processed other data at other levels, scales and parties behaves exactly like a fresh one: same result values, level and scale for evaluation, same correctness for encryption, decryption and key generation.",
 I+C+H,"every history of one or two prior operations (any kind, level, party set) followed by any operation, for every ciphertext",
 "State carried in pools and key sets needs a specific multi-step history to leak; tests run short fixed sequences at one level.",
 ["mkckks/evaluator.go","mkckks/decryptor.go","mkckks/encryptor.go","mkbfv/evaluator.go","mkbfv/decryptor.go","mkrlwe/keyswitch.go","mkrlwe/keys.go"],
 [("pools re-initialised before use","mkrlwe/keyswitch.go, mkckks/evaluator.go"),("hoisting pools in the relinearisation key set","mkrlwe/keys.go")],obs=["all operations"])
p("C21","Identity sets and key registries behave as sets and maps",
 "Identity sets compute membership, union, intersection and copies as mathematical sets, reject the reserved identity, and copies are independent; a key registry returns exactly the key last added for an identity (and index), refuses unknown or deleted ones, and keeps different identities and indices apart.",
 C+H,"every sequence of up to four add, delete, lookup and set operations over three identities and three indices, every iteration order",
 "There are no direct tests of the sets or registries beyond adding each key once.",
 ["mkrlwe/idset.go","mkrlwe/keys.go","mkbfv/keys.go","mkrlwe/elements.go"],[("IDSet operations","mkrlwe/idset.go"),("Add/Get/Del key","mkrlwe/keys.go")],obs=["IDSet","*KeySet","PadCiphertext"])
p("C22","One consistent reference string and digit layout for all parties",
 "Parties share one parameters value: it has a reference string for every default index (0, -1 to -4 and the powers of two below half the degree), one vector per digit, each vector uniform over every prime of Q and P and independent of all others. Copies of the parameters and every generator and evaluator built from them use the same strings; adding a string for a new index gives an independent uniform one, visible through every copy, and changes no other. The block size and digit count derived from the primes cover every level, for plain, CKKS and BFV parameters.",
 C+H,"every index, several numbers of primes in Q and P and gammas, additions of colliding-looking indices in different orders",
 "Correctness tests pass whatever the strings are: reuse between indices, a constant vector or too short a string show only for particular indices and digits.",
 ["mkrlwe/params.go","mkckks/params.go","mkbfv/params.go"],[("NewParameters, AddCRS","mkrlwe/params.go"),("Alpha, Beta, Gamma","mkrlwe/params.go")],obs=["NewParameters","AddCRS","Alpha","Beta"])
p("C23","CNN layers compute their linear-algebra formulas homomorphically",
 "The convolution and the two fully connected layers decrypt to the layer's formula on the decrypted inputs (products with each kernel or matrix of the correspondingly rotated input, rotate-and-add reductions, mask and bias), for model and data belonging to different parties.",
 I+C,"every slot value of image, kernels, matrices, mask and bias; up to eight matrix blocks; different owners of data and model; several levels",
 "The cnn package's test needs data files and checks one trained model only.",
 ["cnn/cnn.go"],[("Convolution, FC1Layer, FC2Layer","cnn/cnn.go")],obs=["Convolution","FC1Layer","FC2Layer"])
p("C24","Every key part and every ciphertext carries fresh independent randomness",
 "Every public key, every digit of every evaluation key and both components of every encryption are masked by noise sampled for it alone, of the parameters' distribution and never zero or reused, so that two encryptions of one message or two keys for one secret are related only through the intended equation.",
 I+H,"every sequence of key generations and encryptions with one generator or encryptor, every digit and component",
 "Correctness tests cannot see missing or reused randomness at all: results stay right when the noise is dropped.",
 ["mkrlwe/keygen.go","mkrlwe/encryptor.go","mkbfv/keygen.go"],[("GenGaussianError per digit","mkrlwe/keygen.go"),("e0, e1 and v sampled per encryption","mkrlwe/encryptor.go")],obs=["Encrypt","Gen*Key"])
p("C25","Objects of one's own work concurrently on shared ciphertexts and keys",
 "Distinct evaluators, encryptors, decryptors and key generators made from the same parameters, used at the same time by different goroutines on the same ciphertexts, plaintexts, precomputed forms, secret, public, rotation and conjugation keys, never write memory the other one reads or writes, under every interleaving; so each gives what it gives alone. (A relinearisation key set owns scratch memory: one set per multiplying goroutine. A shallow copy of a basis extender counts as distinct.)",
 I+C+H,"every pair of operations of both schemes and of the shared layer, every interleaving of their memory accesses, several levels and party sets",
 "The tests are single-threaded; a shared scratch buffer or an operand modified and restored in place gives right results in every sequential run.",
 ["mkrlwe/keyswitch.go","mkrlwe/decryptor.go","mkrlwe/encryptor.go","mkrlwe/keygen.go","mkrlwe/basis_extension.go","mkckks/evaluator.go","mkckks/decryptor.go","mkbfv/evaluator.go","mkbfv/decryptor.go"],
 [("scratch pools allocated per object","mkrlwe/keyswitch.go, mkckks/evaluator.go"),("ShallowCopy","mkrlwe/basis_extension.go")],obs=["all operations"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80, x['title']
print(len(P))
