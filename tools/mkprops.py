"""Writes /verif/properties.jsonl (kept as a script so that anchors stay readable)."""
import json, os
U='gostcrypto/utils/utils.py'; H='gostcrypto/gosthash/gost_34_11_2012.py'
M='gostcrypto/gosthmac/r_50_1_113_2016.py'; P='gostcrypto/gostpbkdf/r_50_1_111_2016.py'
R='gostcrypto/gostrandom/r_1323565_1_006_2017.py'; O='gostcrypto/gostoid/oid.py'
B='gostcrypto/gostcipher/gost_34_12_2015.py'; C='gostcrypto/gostcipher/gost_34_13_2015.py'
S='gostcrypto/gostsignature/gost_34_10_2012.py'
ALL=[U,H,M,P,R,O,B,C,S]
props=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    props.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

p('C01','Caller-supplied buffers and dictionaries are never modified',
 "No public function, constructor or method of the package changes the content of an object the caller passed to it (key, data, block, initialization vector, password, salt, seed, digest, signature, public key or curve dictionary). This holds whether the call returns or raises, and whatever the type (bytes or bytearray), length or content of the argument.",
 ['inputs','histories'],'every public entry point, every argument content, length and byte-string type, every prior history of the object',
 'tests pass literals and never look at them again; only a handful of lengths are used',ALL,
 [('defensive copies before in-place work',f'{U} add_xor/compare; {B} encrypt/decrypt'),('zeroisation of local copies only',f'{U} zero_fill')])
p('C02','Objects never share mutable buffers with the caller',
 "An object never keeps a reference to a mutable buffer supplied by the caller, and no method, property or function returns a reference to mutable internal state or to a mutable argument. So changing an argument after the call, or changing a returned value, never changes any later result of the object.",
 ['inputs','histories'],'every constructor, method and property, every bytes/bytearray argument, any later mutation by the caller',
 'tests never mutate an argument or a result after a call',[H,M,P,R,B,C,S],
 [('bytearray() copies in constructors',f'{C} init_vect; {M} key; {R} seed; {P} password/salt'),('slices or copies returned by properties',f'{C} iv/counter; {P} salt')])
p('C03','Read-only operations never disturb later results',
 "Computing a digest, hex digest, MAC or derived key, creating or verifying a signature, generating a public key, encrypting or decrypting with a raw block cipher or in ECB mode, and reading any attribute leave the object's observable behaviour unchanged. Any sequence of later operations gives the same results as if the read-only operation had not been made, and repeating it gives the same value.",
 ['histories'],'every class, every read-only operation placed at any point of any history of updates',
 'tests call digest once at the end; interleavings of digest and update are sampled once or never',[H,M,P,B,C,S],
 [('digest works on a copy',f'{H} digest; {C} GOST34132015mac.digest'),('fresh outer hash object',f'{M} digest'),('per-call reset of the keyed hash',f'{P} derive')],
 [('hash chaining state','buffer, h, N, Sigma',H),('MAC chaining state','current and previous MAC, pending bytes',C)])
p('C04','copy() yields an equal and fully independent object',
 "A copy of a hash or HMAC object gives at the moment of copying the same results as the original for every continuation. Afterwards nothing done to one of the two objects (update, reset, clear, deletion) changes any result of the other.",
 ['histories'],'every hash and HMAC variant, every state at the time of the copy, every continuation on either object',
 'tests compare the fields of one copy once and never continue both objects',[H,M],
 [('deepcopy',f'{H} copy; {M} copy')])
p('C05','Objects never influence each other through shared module state',
 "No public operation modifies a module-level table, constant, default value, registry, class attribute or default argument. So using any number of objects, in any interleaving, gives each the results it would give if it were used alone in a fresh interpreter.",
 ['histories','inputs'],'every public entry point, every interleaving of operations on any number of objects of all classes',
 'tests use one object at a time; corrupting a shared default vector or table only shows on a later object',ALL,
 [('tables and default vectors are only read','module-level constants of every module'),('defaults copied before in-place update',f'{C} init_vect handling')])
p('C06','reset() makes an object equivalent to a freshly created one',
 "After reset(), a hash, HMAC or random-sequence object (given the same key or seed) behaves for every continuation exactly as a newly created object with the same name, key or seed. Nothing absorbed or generated before the reset influences any later result.",
 ['histories'],'every history before the reset (any amounts of data, digests in between), every continuation after it',
 'tests reset once from one state and compare raw fields or one digest',[H,M,R],
 [('re-initialisation of all chaining fields',f'{H} reset'),('hash reset and update counter',f'{M} reset'),('seed reload',f'{R} reset')])
p('C07','clear() and deletion leave no key material in the object',
 "After clear(), or once an object has been finalised, nothing reachable from a cipher, MAC, HMAC, key-derivation or random-sequence object depends on the key, password or seed it was given, other than through results of the block cipher on the caller's data (ciphertext, gamma, MAC chaining values): keys, round keys, MAC subkeys and keyed hash states are overwritten. A second clear() is harmless.",
 ['histories','configurations'],'every class, algorithm and mode, every history before the clear',
 'tests look at one or two fields after clear; derived copies of the key elsewhere in the object graph are never looked at',[U,H,M,P,R,B,C],
 [('zeroisation',f'{U} zero_fill'),('clear methods and finalisers',f'{B} {C} {M} {P} {R} clear/__del__')])
p('C08','A rejected constructor call leaves nothing that fails on destruction',
 "When creating an object is rejected because of any invalid argument, the partially built object can be finalised without raising any further exception. The exception the caller sees is the package's own error, and nothing else is reported when the remains are garbage collected.",
 ['inputs'],'every constructor, every invalid argument kind and every point at which construction is abandoned',
 'exceptions in finalisers are swallowed by the interpreter, so tests pass although the finaliser fails and skips its wiping',[M,P,R,B,C,S],
 [('finalisers guarded by attribute existence',f'{C} clear; {M} __del__; {R} clear; {P} __del__; {B} clear')])
p('C09','Invalid arguments are rejected with the documented error, valid ones never',
 "Every invalid argument the documentation lists (wrong type, wrong length, unsupported name, mode, padding or curve, out-of-range size) is rejected with the module's own exception class and the documented message, before any result is produced. Every argument inside the documented domain is accepted, at every length including empty, shortest and longest, and no internal exception such as IndexError or TypeError escapes for a byte-string argument of the `new` functions or of the objects they return.",
 ['inputs'],'every documented argument of every public entry point, partitioned by type and by length',
 'tests try one wrong value per argument, mostly of the wrong type rather than of a borderline length',[H,M,P,R,O,C,S],
 [('argument checks at the start of constructors and methods','raise statements of every module'),('length check helper',f'{U} check_value')])
p('C10','Feeding a message in pieces equals feeding it at once',
 "For the hash, the HMAC and the block-cipher MAC, every way of splitting a message into successive update() calls or into constructor data followed by updates (including empty pieces, pieces shorter than a block, and pieces that end exactly on a block boundary) gives the same digest as a single update() with the whole message.",
 ['inputs','histories'],'every message, every split into any number of pieces, both digest sizes, both block ciphers',
 'tests use two or three fixed splits; the state machine of the pending buffer has a case per residue and per piece length',[H,M,C],
 [('pending-bytes buffer',f'{H} update; {C} GOST34132015mac.update'),('first-update key prefix',f'{M} update')],
 [('pending bytes','tail of the message not yet absorbed',f'{H} _buff; {C} _iter_buf/_fin_buff')])
p('C11','Stateful modes continue across calls as one stream',
 "In CBC, CFB, OFB and CTR modes, encrypting (or decrypting) two messages one after the other with one object gives the concatenation of what one call on their concatenation gives, whenever the first message is a multiple of the block size. The initialization vector or counter exposed by the object always reflects exactly the blocks processed so far.",
 ['inputs','histories'],'every key, initialization vector (any number of blocks), data and block-multiple split, both ciphers, both directions',
 'file-sized streaming as documented in the README is never tested; tests make one call per object',[C],
 [('shift register update',f'{C} _set_init_vect'),('counter increment',f'{C} _inc_ctr')],
 [('shift register / counter','chaining value between calls',f'{C} _init_vect, _counter')])
p('C12','Decryption inverts encryption in every mode',
 "For ECB, CBC, CFB, OFB and CTR with either cipher, decrypting with a fresh object of the same parameters what encrypt() produced gives back the plaintext followed only by its padding (no padding in CFB, OFB and CTR). This holds for every key, every valid initialization vector length, every padding mode and every plaintext length, including empty and partial blocks.",
 ['inputs'],'every key, IV, plaintext content and length, padding mode, cipher and mode',
 'tests decrypt fixed standard vectors of a few lengths',[C,B],
 [('mode encrypt/decrypt pairs',f'{C} GOST34132015ecb/cbc/cfb/ofb/ctr')])
p('C13','Block decryption inverts block encryption for every key and block',
 "For Kuznechik and Magma, decrypting an encrypted block, or encrypting a decrypted block, with the same key gives the block back, for every 256-bit key and every block.",
 ['inputs'],'all 2^256 keys and all blocks',
 'tests use one key and one or two blocks, so most S-box and multiplication-table entries are never exercised in both directions',[B],
 [('inverse S-box and inverse linear layer',f'{B} decrypt'),('reversed key order (Feistel)',f'{B} Magma.decrypt')])
p('C14','The CTR counter is a full-width counter and never repeats early',
 "The n-th block processed by a CTR object, over any sequence of encrypt and decrypt calls, uses the counter block (IV followed by zeros) plus n, as a big-endian integer over the whole block with carries into every byte. So no counter block is used twice within the 2^(block bits) period, a partial block consumes one counter value, and an empty message consumes none.",
 ['inputs','histories'],'every IV, every counter value including all carry patterns, every call sequence',
 'the tests process four or five blocks and never reach a carry',[C],
 [('counter increment with carry',f'{C} _inc_ctr')],[('counter block','next counter value',f'{C} _counter')])
p('C15','Kuznechik and Magma compute the GOST R 34.12-2015 permutations',
 "For every key and every block, encrypt() returns exactly the ciphertext GOST R 34.12-2015 defines: for Kuznechik the key schedule, nine rounds of key addition, substitution and linear transformation; for Magma the key schedule, 32 Feistel rounds with addition modulo 2^32, eight 4-bit substitutions and rotation by 11.",
 ['inputs'],'all keys, all blocks, every table entry',
 'the standard test vectors touch a small part of the S-box, multiplication-table and constant entries',[B],
 [('tables',f'{B} _S_BOX_KUZNECHIK, _GF, _S_BOX_MAGMA'),('rounds and key schedule',f'{B} encrypt, __init__')])
p('C16','The hash computes GOST R 34.11-2012 (Streebog) for every message',
 "For every message, digest() returns exactly what GOST R 34.11-2012 defines for the 256- and 512-bit variants: initial value, compression function with 12 rounds and its constants, bit counter and checksum as 512-bit additions, padding of the last (possibly empty) block, and truncation.",
 ['inputs'],'all messages of all lengths, every table entry and round constant, every carry pattern of the 512-bit additions',
 'tests hash a few short messages; most of the 2048 table entries, carries and lengths are never reached',[H],
 [('tables and constants',f'{H} _T, _C'),('compression, counter, checksum and finalisation',f'{H} update/hash_final')])
p('C17','Every shipped elliptic curve is a sound GOST parameter set',
 "For each shipped curve the field modulus and group order are prime, the base point lies on the curve and has exactly that order, the curve order m is a multiple of q inside the Hasse interval, m differs from p, the embedding degree exceeds the standard's bound, and the curve is nonsingular. Where Edwards parameters are given, the canonical form derived from them (or stored beside them) is the equivalent curve and base point, and the order fits the signature size the curve is meant for.",
 ['configurations'],'all shipped parameter sets and all their fields',
 'tests sign with some curves; a wrong digit in a rarely used field or curve is never evaluated',[S],
 [('parameter table',f'{S} CURVES_R_1323565_1_024_2019'),('conversion from Edwards form',f'{S} constructor')])
p('C18','Object identifiers are encoded and named correctly',
 "For every dotted identifier the binary form is its DER encoding (tag, definite length, base-128 arcs with continuation bits on all but the last byte of each arc, first two arcs combined), the tuple form lists its arcs, the string form is the text given, and the name is the registered TC26 name or empty. Every algorithm object reports the identifier registered for its own algorithm.",
 ['inputs','configurations'],'all valid dotted identifiers with arcs of any size and any number of arcs; all registry entries; all algorithm objects',
 'tests encode registered identifiers only, whose arcs are below 2^14 and whose encodings are short',[O,H,M,B,C,S],
 [('base-128 and length encoders',f'{O}'),('registry',f'{O} OBJECT_IDENTIFIER_TC26')])
p('C19','HMAC follows R 50.1.113-2016 for every key and message',
 "For every key of at most 64 bytes and every message, including the empty message and a digest taken before any update, the HMAC value is H((K xor opad) || H((K xor ipad) || message)) with K zero-padded to 64 bytes and H the 256- or 512-bit hash named by the algorithm. Names, sizes and identifiers agree with that hash.",
 ['inputs','histories'],'all keys of length 0..64, all messages, both variants, any update pattern',
 'tests use one 32-byte key and one message',[M],[('key padding, inner and outer hash',f'{M} __init__/update/digest')])
p('C20','Key derivation follows R 50.1.111-2016 (PBKDF2) for every request',
 "derive(n) returns the first n bytes of T1 || T2 || ..., where Ti is the xor of `counter` iterated HMAC-512 values of the salt followed by the 4-byte big-endian block index, keyed by the password; hexderive(n) is its hexadecimal form. The result depends on nothing but password, salt, iteration count and n, and without a salt a fresh 32-byte random salt is drawn once and reported.",
 ['inputs','histories'],'all passwords, salts, iteration counts, lengths and repeated calls',
 'tests derive 64 to 100 bytes with fixed salt; block index, tail length and iteration handling vary with the request',[P,M],
 [('iteration and block loop',f'{P} _f/_calculate_pbkdf')])
p('C21','The random sequence follows R 1323565.1.006-2017 and stops at its limit',
 "Each generated 64-byte block is H512(seed || counter) with the counter incremented before every block, over the whole counter field and never into the seed; a request for n bytes is the concatenation of whole blocks and the last n mod 64 bytes of one more block. Generation refuses with the documented error when the seed is zero, or when the counter has reached its limit, instead of reusing or corrupting state.",
 ['inputs','histories'],'all seeds of the allowed sizes, all requested sizes, any number of calls up to the counter limit',
 'the counter limit is astronomically far from what a test reaches; tests take one or two blocks',[R],
 [('counter increment and limit check',f'{R} _rand_iter/_inc_rand_u')],[('seed and counter','63-byte state',f'{R} _rand_u')])
p('C22','The block-cipher MAC follows GOST R 34.13-2015 for every message',
 "For every key and message, the MAC of size s is the first s bytes of the GOST R 34.13-2015 MAC: subkeys derived from the encrypted zero block by doubling with the right reduction constant, full last block masked with the first subkey, and empty or partial last block padded with one bit and zeros and masked with the second. hexdigest is the hexadecimal form of digest.",
 ['inputs'],'all keys, messages of all lengths, both ciphers, all MAC sizes',
 'tests use standard vectors with one or two lengths; the branch on the top bit of the subkey is taken one way',[C],
 [('subkey derivation and finalisation',f'{C} GOST34132015mac')])
p('C23','Each cipher mode computes its GOST R 34.13-2015 equation for every input',
 "For every key, initialization vector, data and cipher, ECB, CBC, CFB, OFB and CTR produce the ciphertext and plaintext given by the mode equations of GOST R 34.13-2015, with a shift register of any number of blocks for CBC, CFB and OFB, a truncated gamma for a final partial block, and the output exactly as long as the (padded) input. Padding mode 1 fills with zeros to the block boundary and padding mode 2 appends one set bit followed by zeros up to a block boundary.",
 ['inputs'],'all keys, IVs of any number of blocks, data of all lengths, both ciphers, all modes and paddings',
 'tests use fixed vectors with a two-block IV and few lengths',[C],[('mode implementations',f'{C}')])
p('C24','A signature is accepted only when the verification equation holds',
 "verify() returns True only when both signature halves lie strictly between 0 and q, the public key is a point of the curve, and the x coordinate of z1*P + z2*Q modulo q equals r, with z1 = s/e, z2 = -r/e and e the digest modulo q (1 if zero). Every byte of the digest, signature and public key takes part in the decision, and in every other case the answer is False or the documented error.",
 ['inputs'],'all public keys, digests, signatures, curves and both modes',
 'tests verify correct signatures and a handful of wrong ones; acceptance conditions are only visible on crafted values',[S],
 [('range check of r and s',f'{S} verify'),('public-key check',f'{S} verify'),('equation',f'{S} verify')])
p('C25','Signing uses a fresh uniform nonce and the GOST signing equation',
 "When no random value is given, every signature attempt draws a new value of full size from the operating system's random source, rejects values that are zero or not below q by drawing again, and keeps no nonce in the object; a supplied random value is used only if it lies strictly between 0 and q. The signature returned is r = x(kP) mod q and s = (r*d + k*e) mod q with neither of them zero, and the private key and nonce are stored nowhere.",
 ['inputs','histories'],'all keys, digests, random-source outputs, supplied values and call sequences',
 'a repeated, truncated or biased nonce still yields valid signatures, so functional tests cannot see it',[S],
 [('nonce generation',f'{S} _get_rand_k'),('signing loop',f'{S} sign')])
p('C26','Every operation terminates for every argument',
 "No public operation can loop forever or recurse without bound, whatever the (accepted) argument values, curve, digest, nonce or random-source output: every repetition either works through a finite input or makes progress that cannot be undone, and a retry draws fresh randomness or is rejected with the documented error.",
 ['inputs'],'all loops and recursions reachable from the public API, all argument values',
 'a hang needs one special value (zero scalar, zero r or s) that no test uses',ALL,
 [('bounded for loops','all modules'),('retry loops',f'{S} sign, _get_rand_k'),('bit loop',f'{S} _bits')])
p('C27','Curve parameters that break the standard\'s conditions are refused',
 "Creating a signature object succeeds only if the base point satisfies the curve equation modulo p, the order of the curve differs from p, p^i is not 1 modulo q for every i up to the standard's bound for the signature size, and q lies in the range the standard gives for that size. Any parameter set violating one of these, or the wrong mode for the curve, is rejected with the documented error.",
 ['inputs','configurations'],'all parameter dictionaries, both modes',
 'tests reject one bad dictionary; each condition is a separate conjunct that must not be lost',[S],
 [('parameter checks in the constructor',f'{S} _check_curve and helpers')])
p('C28','Point arithmetic follows the group law in all cases',
 "public_key_generate(d) returns d*P and both signature operations use multiples computed by the elliptic-curve group law: distinct points are added with the chord formula, equal points with the tangent formula, and the multiple n*P is composed of exactly n summands for every n. Results are fully reduced and encoded as two fixed-width big-endian coordinates.",
 ['inputs'],'all scalars and points (decided for generic points and all scalars of bounded bit length)',
 'tests use a few fixed keys; formula slips in a rarely taken case stay invisible',[S],
 [('point addition and doubling',f'{S} _add'),('double-and-add',f'{S} _mul_point')])
p('C29','Comparison helpers are complete and take data-independent time',
 "Comparing two byte strings, or a byte string with zero, gives True exactly when they are equal in length and in every byte (or every byte is zero), and the sequence of operations performed depends only on the lengths, never on the content. The signature check compares its final values only through such a comparison.",
 ['inputs'],'all pairs of byte strings of all lengths',
 'functional tests cannot see timing, and see only sampled contents for equality',[U,S],
 [('accumulating comparison',f'{U} compare, compare_to_zero')])
p('N01','Every signature created verifies under the matching public key',
 "For every curve, private key, digest and nonce, verify() accepts what sign() created for the public key generated from the same private key.",
 ['inputs'],'all curves, keys, digests and nonces','tests use a few keys per curve',[S],[('sign/verify pair',S)])
p('N02','Secret-dependent timing of the whole library is bounded',
 "The execution time of encryption, hashing, MAC, derivation and signing does not depend on secret values.",
 ['inputs'],'all keys and data','timing is not observed by tests',ALL,[('pure Python integer arithmetic and table lookups','all modules')])
p('N03','Random sequences are statistically indistinguishable from uniform',
 "The byte sequences produced by the random-sequence generator pass any statistical test of uniformity and independence for every seed.",
 ['inputs'],'all seeds','no finite test establishes it',[R],[('hash-based generator',R)])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(props))
