import json
C='elementstx/core/__init__.py'; S='elementstx/core/script.py'; W='elementstx/wallet.py'; B='elementstx/blech32.py'; L='elementstx/liquid_addr.py'; I='elementstx/__init__.py'; Z='elementstx/core/secp256k1.py'
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})
p('W01','Transactions follow the Elements wire format and survive a round trip',
 'Every transaction and every part of one that can be built is written as exactly the bytes the Elements wire format prescribes for its contents, including issuances, peg-ins, confidential fields and all four kinds of witness data. Reading those bytes back, through any entry point and under any active chain, gives an equal object with the same fields, and stops at the last byte of the transaction. An outpoint index that cannot be told from flag bits is refused when written.',
 ['inputs','configurations'],'all field values, vector sizes, null/explicit/committed kinds, witness shapes, mutable and immutable objects, active chains',
 'The tests round-trip a few dozen transactions made by one node; size-encoding boundaries, one-sided witnesses, flag/index combinations and most field kinds never occur there.',
 [C],[('transaction reader and writer','CElementsTransaction.stream_deserialize / stream_serialize'),('input flags','CElementsTxIn.stream_serialize'),('witness vectors','CElementsTxWitness, CElementsTxInWitness, CElementsTxOutWitness'),('confidential fields','CConfidentialCommitmentBase')])
p('W02','Reading untrusted bytes either gives a faithful object or a serialization error',
 'For any byte string, reading it as a transaction or as any part of one either returns an object that corresponds to those bytes (writing it gives them back, save an issuance flagged but empty, which reading drops), or raises a serialization error. Truncated, extended, mis-flagged and otherwise malformed input is always refused, with no other kind of exception, no unbounded work and no partial object.',
 ['inputs'],'all byte strings: random, truncated at every offset, bit-flipped, spliced and with hostile sizes',
 'No test feeds malformed bytes; the set is infinite and the failures are in rare combinations of flags and sizes.',
 [C],[('transaction reader','CElementsTransaction.stream_deserialize'),('prefix check','CConfidentialCommitmentBase.stream_deserialize')])
p('W03','Transaction identity depends on exactly what it should',
 'The transaction id is the double SHA-256 of the form without witness and the full hash that of the complete form, whatever mixture of witness data is present. Changing any committed field changes the id; changing only witness data (signatures, proofs, peg-in witness) changes the full hash and never the id. Equality and hashing of transactions and parts agree with their written bytes.',
 ['inputs'],'all transactions and all single-field changes of them',
 'Tests compare ids of fixed transactions; they never vary one field of an arbitrary transaction.',
 [C],[('id and hash','CElementsTransaction.stream_serialize via GetTxid/GetHash'),('equality','ImmutableSerializable comparison of serialized forms')])
p('W04','Immutable objects stay constant and conversions keep everything',
 'An immutable transaction, or part of one, never changes after it is made: assignments are refused, and no change made to a mutable copy, to the lists, buffers or mutable parts it was made from, or to objects taken out of a copy, can be seen through it. Converting between mutable and immutable forms, or cloning, keeps every field including both witness vectors, and a mutable copy shares no mutable state with its source.',
 ['histories'],'all sequences of constructions, conversions, clones and field changes over all objects',
 'Aliasing shows only in a history: build, convert, change one side, look at the other. The tests contain a handful of such steps.',
 [C],[('conversion','from_instance / to_mutable / to_immutable of every class'),('constructors','CElementsTxWitness.__init__, CElementsTxInWitness.__init__')])
p('W05','Reported sizes equal the real ones',
 'The virtual size of a transaction is its weight (three times the size without witness plus the complete size) divided by four and rounded up, for every mixture of witness data. The output size reported for an address is the size of the written form of an output paying to it: with an explicit amount and neither asset nor nonce for a plain address (as the project defines it), with all three committed for a confidential one. The number of issuances counts each non-empty amount and token part.',
 ['inputs'],'all transactions, addresses of every kind on every chain',
 'Tests check virtual size for fixed transactions and the output size for one address each.',
 [C,W],[('virtual size','CElementsTransaction.get_virtual_size'),('output size','CCoinConfidentialAddress.get_output_size, CElementsAddressBase.get_output_size'),('issuance count','num_issuances')])
p('W06','Confidential fields are classified correctly and never convert silently',
 'An asset, value or nonce field is null, explicit or a commitment precisely according to its length and prefix, and is never more than one of those. Explicit amounts and assets are returned exactly as they were given; asking for the explicit content of anything else raises an error, and data of a wrong length is refused at construction. An output counts as a fee only if its script is empty and both its asset and its value are explicit.',
 ['inputs'],'all lengths, prefixes and contents for each of the three field types; all amounts',
 'Tests use well-formed values; the classification must be right for all lengths times prefixes.',
 [C],[('classification','CConfidentialCommitmentBase.is_null/is_explicit/is_commitment/is_valid'),('explicit content','CConfidentialValue.to_amount, CConfidentialAsset.to_asset'),('fee','CElementsTxOut.is_fee')])
p('W07','Text forms are available for every object and have no effect',
 'Every transaction, part, confidential field, address and result object has both text forms (str and repr) whatever its contents, including null fields, commitments, extreme amounts and undecodable scripts. Producing them never fails and never changes the object, and explicit amounts and assets are shown with their true value.',
 ['inputs'],'all objects the readers and constructors can produce',
 'Tests print a few well-formed objects at most.',
 [C,B],[('text forms','_repr_or_str, __repr__, __str__ of every class')])
p('S01','Legacy signature hash is that of Elements consensus',
 'For every transaction, input, script and hash type the legacy signature hash is the one Elements consensus computes: issuance data included, flag bits of outpoints left out, witness ignored, code separators removed. The out-of-range cases that consensus answers with the constant one are reported as errors by the wallet-level call. Under a foreign active chain the result is the same or an error, and computing it does not change the transaction.',
 ['inputs','configurations'],'all transactions, input indexes, subscripts, hash types, active chains',
 'Tests use the few hash types and transaction shapes present in the vectors; the digest has to be right for their whole product.',
 [S,C],[('legacy hash','RawElementsSignatureHash, SIGVERSION_BASE'),('input form used for hashing','CElementsTxIn.stream_serialize(for_sighash)')])
p('S02','Segwit v0 signature hash is that of Elements consensus',
 'For every transaction, input, script code, hash type and spent value (explicit, confidential or null) the version 0 witness signature hash is the one Elements consensus computes, including the hash of all issuances and the issuance of the signed input. It does not depend on the active chain or on whether objects are mutable, and computing it changes nothing.',
 ['inputs','configurations'],'all transactions, input indexes, script codes, hash types, amounts, active chains',
 'The tests exercise ALL on transactions of one shape; each hash type selects different parts, and each part must be right for all contents.',
 [S],[('segwit hash','RawElementsSignatureHash, SIGVERSION_WITNESS_V0')])
p('S03','Taproot and tapscript signature hash is that of Elements consensus',
 'For every transaction, input, set of spent outputs, hash type, annex, leaf script, code-separator position and genesis block hash the taproot or tapscript signature hash is the one Elements consensus computes, including outpoint flags, asset and value commitments of the spent outputs, issuances and their range proofs, and output witnesses. Requests that have no such hash (wrong number of spent outputs, index out of range, single without matching output, wrong-sized hashes) raise an error.',
 ['inputs'],'all transactions with any witness shape, all hash types, key and script paths, with and without annex',
 'The tests have a handful of key-path and script-path spends made with default hash type.',
 [S],[('taproot hash','ElementsSignatureHashSchnorr, CElementsScript.sighash_schnorr'),('tagged hashers','CoreElementsParams')])
p('S04','A signature covers exactly the fields its hash type says it does',
 'A signature made over a hash given by the library stays valid when only fields outside what its hash type covers are changed, and stops being valid when any covered field is changed, for legacy, segwit and taproot signing. Every covered field matters: values and assets of inputs being spent, issuances, outputs with their nonces, sequence numbers, lock time and version.',
 ['inputs'],'all transactions, hash types, and single-field changes',
 'Coverage is a relation between pairs of transactions; the tests never change a field after signing.',
 [S],[('signature hashes','RawElementsSignatureHash, ElementsSignatureHashSchnorr')])
p('I01','Issued assets and tokens get the identifiers Elements assigns',
 'For every outpoint and contract hash the asset entropy, the asset id and the reissuance token id (blinded or not) are those Elements computes, independent of how arguments are passed (bytes or hash objects). Different outpoints, contract hashes or blinding of the issuance give different ids. Inputs of a wrong length are refused.',
 ['inputs'],'all outpoints, contract hashes, entropies',
 'The tests check the ids of a few issuances present in vectors.',
 [C],[('entropy','generate_asset_entropy'),('ids','calculate_asset, calculate_reissuance_token')])
p('A01','Addresses encode, decode and map to scripts without loss',
 'Every address of every kind (key hash, script hash, witness key hash, witness script hash, taproot; confidential or not; on every Elements chain) is written with the prefix and checksum of its kind, reads back through every class of its family to the same class, bytes and text, and produces the exact output script it stands for. Making an address from that script, key or redeem script gives the same address back.',
 ['inputs','configurations'],'all programs, blinding keys, address kinds, chains and decoding entry classes',
 'Tests decode a few fixed addresses per kind.',
 [W,B,L],[('address classes','class tree of wallet.py'),('blech32','CBlech32Data'),('dispatch','blech32_match_progam_and_version')])
p('A02','A damaged or foreign address is never accepted as a different one',
 'Any string that is not exactly a valid address of the active chain is refused by every decoding class of that chain with an address or encoding error (a type error for base58 data of a wrong length): mistyped or swapped characters, mixed case, wrong checksum kind, wrong prefix, wrong version or length, invalid padding, addresses of the other chains, non-ASCII and empty strings. Nothing is accepted as an address whose text form is not the string given (up to case where the encoding allows it), and no other kind of exception occurs. Data given with a witness version or of a size other than that of the class is refused as well.',
 ['inputs','configurations'],'all strings; all one- and two-character changes of valid addresses; all chains',
 'Tests contain a few invalid strings; the guarantee ranges over all strings.',
 [W,B,L],[('blech32 decoding','liquid_addr.blech32_decode, liquid_addr.decode'),('class matching','CBlech32Data.blech32_match_progam_and_version')])
p('A03','Confidential and plain addresses convert into each other exactly',
 'Joining a plain address with a blinding key gives the confidential address of the same kind and chain, whose blinding key and plain address are those it was made from, and which pays to the same output script, in an output of the size it reports, and gives the same redeem script. Joining with an invalid key, with an address of another chain or with a class of another kind raises an error and never gives an address paying elsewhere.',
 ['inputs','configurations'],'all plain addresses, blinding keys (valid and not), target classes and chains',
 'Tests convert one address per kind; the class-by-class matrix and invalid keys are not reached.',
 [W],[('join','CCoinConfidentialAddress.from_unconfidential'),('split','to_unconfidential, blinding_pubkey')])
p('A04','Blech32 and blech32m coding is exact and detects errors',
 'Encoding any valid prefix, witness version and program gives the unique blech32 (version 0) or blech32m (other versions) string of the Elements specification, and decoding it gives the same version and program back. Every other string is refused: any change of up to four characters, wrong checksum constant for the version, non-zero or excess padding, bad length or version, and mixed case.',
 ['inputs'],'all human-readable prefixes, versions, programs and strings',
 'Tests hold a few fixed strings; error detection is a statement on all changes of all strings.',
 [L,B],[('codec','liquid_addr.encode/decode/blech32_polymod/convertbits')])
p('A05','Private and extended keys round-trip per chain and refuse foreign ones',
 'Keys written in wallet import format and extended public and private keys of every Elements chain carry the prefix of that chain and read back to the same secret, chain code and path. Text damaged by any change of characters, or bearing a prefix of another kind or chain, is refused; derived public keys agree between the private and the public derivation.',
 ['inputs','configurations'],'all secrets, chain codes, derivation paths and chains',
 'Tests use a fixed key or two.',
 [W],[('key classes','CElementsKey, CElementsExtKey, CElementsExtPubKey and their LiquidV1 counterparts')])
p('C01','Chain selection is consistent, nested and private to a thread',
 'While a chain is selected, generic classes produce objects of exactly that chain, and on leaving a nested selection, even by an exception, the earlier one is back. Concurrent threads, once each has made its own selection, never observe the selection of another. Elements objects keep behaving as Elements objects whatever chain is active: their bytes and ids do not change, and signature hashes are the same or refused.',
 ['schedules','histories','configurations'],'all nestings and interleavings of selections across threads, all chains',
 'Tests run in one thread with one or two chains; interference needs interleavings.',
 [I,C,W,S],[('chain parameters','ElementsParams, ElementsLiquidV1Params'),('class dispatch','CoreElementsClassDispatcher, WalletElementsClassDispatcher, ScriptElementsClassDispatcher')])
p('C02','Using elementstx leaves Bitcoin as it was',
 'Importing and using the package, blinding included, before or in between, changes nothing about Bitcoin: for every Bitcoin chain, transactions, scripts, hashes, keys, addresses, script trees and partially signed transactions made through the generic classes, and through the classes of Bitcoin itself while any chain is selected, are exactly those of a process that never imported it. Objects of the two families are not mixed: a transaction, input or output of one is never made from parts of the other, Elements blinding and witness signature hashing refuse Bitcoin transactions, and such objects are never equal.',
 ['histories','configurations','inputs'],'all interleavings of Elements work with Bitcoin operations on all chains',
 'Tests run Elements operations and Bitcoin operations in separate files; an effect of one on the other is observed only by a comparison with a process free of it.',
 [I,C,W,S],[('class dispatch','CoreElementsClassDispatcher, WalletElementsClassDispatcher, ScriptElementsClassDispatcher'),('chain parameters','CoreElementsParams, ElementsParams'),('construction','CElementsTransaction, CElementsTxIn, CElementsTxOut')])
p('B01','A blinded transaction still balances and all its proofs verify',
 'After blinding reports success without skipped parts, the sum of value commitments of inputs and issuances equals that of outputs and fees as curve points, for any mixture of blinded and explicit inputs, outputs, assets and fees. Each range proof verifies against its commitments and output script, and each surjection proof against the assets of the inputs. The returned blinding factors open the commitments.',
 ['inputs'],'all balanced transactions, subsets of outputs to blind, input blinding states, asset mixes, amounts, random sources',
 'The tests need a special library that is absent, and even with it cover four recorded blindings; balance must hold for every mixture.',
 [C,Z],[('blinding','blind_transaction'),('proofs','generate_rangeproof, generate_surjectionproof'),('commitments','blinded_asset, create_value_commitment')])
p('B02','The recipient recovers exactly what was sent',
 'For every output blinded to a key, its holder recovers exactly the original amount and asset together with blinding factors that open the output commitments and equal those returned to the sender; the recovered data can be used to blind a spend of that output. Amounts up to the maximum money and assets of any id are recovered, for any output script and also for a transaction that was written and read back.',
 ['inputs','histories'],'all amounts, assets, scripts, keys; chains of blinded spends',
 'Existing tests that cover this are skipped without the special library, and sample a few amounts.',
 [C],[('unblinding','unblind_confidential_pair, CElementsTxOut.unblind_confidential_pair'),('nonce','generate_output_rangeproof_nonce')])
p('B03','Blinding changes only what it was asked to, and counts it right',
 'Successful blinding changes only the asset, value, nonce and witness of the outputs it was given keys for and the amounts and range proofs of issuances it was given keys for; all else, including scripts, order, other witnesses, sequence numbers and lock time, is kept. The number of parts reported as blinded is the number really blinded, and in strict mode success is reported only if every requested part was blinded. Without strict mode, an output or issuance that cannot be blinded does not keep the others from being blinded. (One case counts as blinded and is left as it is, as in Elements Core: the only output to blind has no amount and the factors of the inputs cancel, so that there is nothing to hide.)',
 ['inputs'],'all transactions and blinding requests, strict or not',
 'Tests check only the blinded fields of recorded cases, not that the rest is kept, nor skipped parts.',
 [C],[('blinding','blind_transaction'),('count','blinding_result')])
p('B04','A blinding request that is refused up front leaves the transaction untouched',
 'When a blinding request is refused because of its arguments (wrong number of keys or descriptors, unusable keys, parts that are not explicit, proofs already in place, fee outputs, unusable auxiliary data, immutable transaction, wrong types), the transaction is byte for byte and field for field what it was, and the answer is an error or a failure result naming the problem, including the position concerned.',
 ['inputs'],'all invalid requests: each precondition broken at each position, alone and combined with valid parts',
 'Tests check a few failures and never that the transaction is unchanged.',
 [C],[('precondition checks','blind_transaction before its first assignment')])
p('B05','Unblinding never lies',
 'Unblinding reports success only when the asset, amount and blinding factors it returns open the very commitments of the output. With another key, another script, a changed commitment, nonce or proof, swapped parts of other outputs or random bytes it returns a failure result with a reason, never success and never an unrelated exception. Outputs and proofs given are not changed.',
 ['inputs'],'all keys, outputs, proofs, and damaged or recombined versions of them, including proofs that are valid but lie about the asset',
 'Tests unblind only intact outputs (and are skipped without the library).',
 [C],[('unblinding','unblind_confidential_pair')])
p('B06','A failure inside the crypto library never yields a reported success',
 'If any call into the crypto library fails while blinding or unblinding, the caller gets an exception or a failure result: success is never reported for a result that is incomplete. No proof object obtained from the library is leaked or released twice, whichever call fails, and the process can go on blinding correctly afterwards.',
 ['fault_sequences'],'failure of each library function at each call of it, for every kind of blinding and unblinding',
 'No test injects faults in the native library.',
 [C,Z],[('return checks','all calls of secp256k1.lib in core/__init__.py'),('release','generate_surjectionproof')],[('live proof objects','number of native objects allocated and not yet released')])
p('B07','Memory of the native library is used correctly',
 'All calls into the crypto library pass buffers large enough for what the library reads and writes and objects that are alive, for every transaction, script and proof including the largest and empty ones and hostile data. No out-of-bounds access, use after release, or undefined behaviour occurs.',
 ['inputs','fault_sequences'],'all blinding, unblinding, proof-information and issuance calls with sizes from empty to maximal, with and without faults',
 'A too small buffer usually goes unnoticed without a sanitizer.',
 [C,Z],[('buffers','ctypes.create_string_buffer calls'),('prototypes','_set_zkp_func_types'),('arrays','build_aligned_data_array')])
p('B08','Split blinding with auxiliary generators works and balances',
 'A transaction blinded by several parties one after the other, each knowing only its own inputs and passing the asset commitments of all inputs as auxiliary data, has valid proofs for all blinded outputs and balances when the last party knows what is left. Inputs whose asset is unknown are taken from the auxiliary data by position; missing, short or invalid auxiliary data is refused.',
 ['inputs','histories'],'all partitions of inputs and outputs among parties, orders, and auxiliary lists incl. extra ones',
 'One recorded two-party case exists and is skipped without the library.',
 [C],[('auxiliary generators','blind_transaction')])
p('B09','Issuances are blinded consistently with the assets they create',
 'When the amounts of an issuance are blinded, the commitment and range proof are for the asset or token which the issuance creates (with the token id of a blinded issuance), the whole transaction balances, and outputs paying the new asset or token have valid surjection proofs. The holder of the issuance key recovers the amounts; a reissuance uses the given entropy, and one that claims new tokens is refused.',
 ['inputs'],'all issuances: new and repeated, asset only, token only, both; blinded or explicit, many per transaction',
 'Recorded cases hold one or two issuances of one shape and are skipped without the library.',
 [C],[('pseudo-inputs','blind_transaction issuance loop')])
p('B10','Blinding secrets are fresh, independent and reproducible only on purpose',
 'Every blinding factor except the balancing one, every ephemeral key and every proof seed comes from its own draw of 32 bytes from the randomness source, and no secret is used for two purposes or two outputs. With the same source output the result is the same; by default the operating system source is used and repeated blindings of the same transaction share no factor, nonce or commitment, save the value commitment that balance alone determines when one single part is blinded.',
 ['inputs','histories'],'all blindings; recorded, repeated and failing random sources',
 'Freshness is a property of the whole history of draws; tests compare with recorded bytes only.',
 [C],[('draws','_rand_func uses in blind_transaction, generate_output_rangeproof_nonce, generate_surjectionproof')])
p('B11','Outcome objects cannot be mistaken for one another',
 'The outcome of blinding or unblinding is either a success, with empty error text and complete well-typed data, or a failure with non-empty error text; its truth value cannot be taken by accident. Blinding factor lists have one entry for each output, zero for those not blinded. A descriptor obtained from an unblinding carries exactly its fields and is accepted for further blinding.',
 ['inputs'],'all outcomes of all blinding and unblinding calls, and direct construction with good and bad field types',
 'Tests check one of each at most.',
 [C],[('outcomes','BlindingSuccess, BlindingFailure, UnblindingSuccess, UnblindingFailure')])
p('B12','Blinding keys derived from a master key follow the Elements wallet rule',
 'The blinding key of an output script is HMAC-SHA256 of the script under the master blinding key, for any script including empty and very long ones, so that a wallet restored from the master key recovers the same keys. Derivation from a script object and from its bytes agree, scripts of foreign chains are refused, and the addresses built from derived keys receive outputs that the derived key unblinds.',
 ['inputs'],'all master keys and scripts',
 'Tests compare fixed scripts with one master key.',
 [C,S],[('derivation','derive_blinding_key, CElementsScript.derive_blinding_key')])
p('B13','Range proofs have the requested precision and report it truthfully',
 'Range proofs made by blinding use the exponent and bit count requested, or the default ones, and a minimum of one for spendable scripts and zero for unspendable ones. The information read from a proof always brackets the true amount and equals the header of the proof; for arbitrary bytes the answer is either none or consistent information, and asking has no side effect.',
 ['inputs'],'all exponents, bit counts, amounts and scripts; all byte strings as proofs',
 'Recorded vectors use one parameter pair.',
 [C],[('proof information','CElementsTxOutWitness.get_rangeproof_info'),('proof parameters','generate_rangeproof')])
p('B14','Without the extended crypto library, confidential operations fail loudly',
 'With a plain crypto library that lacks confidential functions, everything not needing them (reading, writing, ids, signature hashes, addresses, keys, issuance ids) works the same, while blinding, unblinding and proof information raise an error; they never report success and never change the transaction. A path to a custom library is used when set before first use, and a non-existing path is refused.',
 ['configurations','inputs'],'all operations under both kinds of library',
 'The test suite skips instead of checking when the library is absent.',
 [Z,I,C],[('library loading','get_secp256k1, set_custom_secp256k1_path'),('capability flag','Secp256k1_ZKP_Capabilities')])
p('B15','Concurrent use gives the same results as sequential use',
 'Blinding, unblinding, hashing, reading and address operations on separate objects running in several threads at once, each of which has selected its chain, give exactly the results they give when run one after another with the same random source, including the first use of the library happening in several threads. No operation observes data of another.',
 ['schedules'],'all interleavings of operations on separate transactions, incl. first use',
 'The tests have one thread.',
 [C,Z],[('shared library handle','get_secp256k1'),('buffers','per-call buffers in core/__init__.py')])
p('B16','Blinding reproduces, and unblinding reads, what Elements Core made',
 'Given the inputs, keys and random stream of the recorded blindings, the result is byte for byte the recorded one, including split blinding and issuances. Outputs blinded by Elements Core are recovered to the amounts, assets and factors that it reports, and signatures made on the result match the recorded ones.',
 ['inputs'],'all recorded bundles, permuted, partially repeated, with mutable or immutable sources, before and after round trips',
 'The tests that use these recordings are not run without the special library.',
 [C,S],[('blinding','blind_transaction'),('unblinding','unblind_confidential_pair')])
p('B17','The public commitment of an asset is its unblinded generator',
 'For any asset, the commitment computed without blinding is the one every other implementation computes. As an asset field it opens to that asset with a zero factor, an output carrying it is recovered like any other, and as the auxiliary commitment of an input with an explicit asset it gives split blindings whose proofs verify and which balance. Computing it changes nothing and gives the same under every selected chain and form of the asset.',
 ['inputs','configurations'],'all asset ids, chains and split blindings with explicit inputs',
 'No test computes it (the method had lost its name unnoticed).',
 [C],[('commitment','CAsset.to_commitment')])
p('P01','Peg-out outputs and unspendable scripts are recognised exactly',
 'A script is a peg-out exactly if it is a return opcode followed by a 32-byte push and a non-empty push of a destination script, whatever follows; the chain hash and destination returned are the pushed bytes. Every other script, including malformed ones, is not a peg-out and causes no exception. A script is unspendable exactly if it is empty, begins with a return opcode or exceeds the size limit.',
 ['inputs'],'all byte strings as scripts, all push encodings',
 'Tests contain a few scripts.',
 [S],[('peg-out','CElementsScript.get_pegout_data, is_pegout'),('unspendable','CElementsScript.is_unspendable')])
p('P02','Taproot outputs, control blocks and tweaks use the Elements tags',
 'While an Elements chain is selected, for every internal key and script tree, leaf and branch hashes, the tweaked output key, its parity and the control blocks are those of the Elements variant of taproot (its own tags and leaf version), for trees of any shape. Each control block proves its leaf against the output key, and a key tweaked on signing signs for that output key.',
 ['inputs'],'all internal keys and trees of scripts',
 'Tests have one or two trees.',
 [S,C],[('tree','TaprootElementsScriptTree'),('tags','CoreElementsParams.taptweak_hasher, tapleaf_hasher, tapbranch_hasher')])
p('P03','Scripts made of Elements opcodes carry the bytes Elements assigns',
 'Every Elements opcode constant is the byte that Elements assigns to the opcode, and no two are the same. A script assembled from opcodes, numbers and data is the concatenation of their encodings, taking it apart gives the same items, and the scripts paying to its hash commit to exactly its bytes. Under an Elements chain all scripts made or derived are of the Elements class.',
 ['inputs'],'all sequences of opcodes, numbers and data',
 'Tests use two of the opcodes and a few scripts.',
 [S,I],[('opcodes','OP_* in elementstx.core.script'),('class','CElementsScript')])
p('L01','Wallets following a history of confidential payments stay exact',
 'In any history of payments, issuances, reissuances, burns and two-party swaps made with this library by wallets that know only their own keys and the published bytes, every transaction is valid by consensus (balance, proofs, signatures of every kind of coin), and each wallet finds exactly the coins meant for it with their true assets, amounts and factors. The totals of all wallets follow from the payments alone.',
 ['histories','inputs','configurations'],'all histories over wallets, address kinds, assets, blinded or plain coins, and chains',
 'The tests follow one or two recorded transactions; histories in which the outcome of one step is the input of the next by another party are not run at all without the special library.',
 [C,S,W],[('blinding','blind_transaction'),('unblinding','unblind_confidential_pair'),('signing','RawElementsSignatureHash, ElementsSignatureHashSchnorr'),('addresses','elementstx.wallet')])
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    n=x['statement'].count('. ')+1
    if n>3 or len(x['title'])>80: print(x['id'],n,len(x['title']))
print(len(P))
