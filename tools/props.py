import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    if state: a["state"]=[{"name":s,"meaning":s} for s in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

T="bit/transaction.py"; W="bit/wallet.py"; F="bit/format.py"; U="bit/utils.py"; S="bit/network/services.py"; R="bit/network/rates.py"; E="bit/network/fees.py"; M="bit/network/meta.py"

p("C01","Every signed transaction is valid under Bitcoin consensus and relay rules",
"Whatever mix of legacy, uncompressed, nested-segwit and multisig coins a key spends, whatever the number and order of inputs and outputs, every fully signed transaction the library returns is accepted by the Bitcoin network: each input's unlocking data satisfies the script of the coin it spends, with the signature committing to exactly this transaction and (for segwit) the coin's amount. The encoding is canonical: strict-DER low-S signatures, minimal pushes, no leftover or missing witness items, compact-size counts at every size boundary.",
["inputs","configurations"],"all key kinds (compressed, uncompressed, testnet, m-of-n legacy and nested segwit), all input-kind sequences up to a bound, input/output counts around every encoding boundary, boundary amounts, indices and sequences",
"Tests compare a handful of fixed hex strings made with 1-2 fixed coins; validity must hold for every mix and order of coin kinds, every amount and every count, and the tests never run a script interpreter.",
[T,W,F,U],[("sighash computation (legacy and BIP143)",T+":calculate_preimages"),("input signing and witness/scriptSig layout",T+":sign_tx"),("transaction serialisation",T+":TxObj"),("multisig redeem scripts",F+":multisig_to_redeemscript")],"hex string returned by create_transaction / sign_transaction")

p("C02","Multisig co-signing reaches a valid transaction from any quorum in any order",
"For every m-of-n contract, legacy or nested segwit, passing the transaction through any m distinct co-signers in any order (fewer where one of them holds a key that is listed more than once) yields a transaction that the network accepts, and the result does not depend on the order. A partially signed transaction keeps all signatures already collected and never loses or duplicates one when a co-signer signs twice; signing after the quorum is complete is refused and no third party's signature is disturbed.",
["histories","configurations"],"all m-of-n with n up to the bound, all sequences of co-signers (with repetition) up to m+1 steps, one to three inputs, all mixes of legacy and nested-segwit inputs",
"Tests sign one fixed 2-of-3 in one order; the number of signing histories grows factorially and repetition or mixed inputs are never tried.",
[T,W,U,F],[("partial-signature merging",T+":sign_tx"),("signature extraction",U+":get_signatures_from_script"),("multisig wallets",W+":MultiSig")],"hex returned by each co-signer's sign_transaction")

p("C03","Batch signing touches only the signer's own inputs and commutes",
"When several keys sign one shared transaction, each signing call changes only the unlocking data of inputs that the signing key controls and that it was given coins for; every other input, all outputs, the sequence numbers, version and lock time stay byte-identical. Signing in any order by all owners produces the same final transaction, and it is valid, including when the unsigned transaction came from another tool in either the plain or the segwit serialisation.",
["histories","configurations"],"all assignments of input owners and kinds up to the bound, all signing orders, all subsets of coins supplied, plain and segwit serialisations of the unsigned transaction",
"Tests batch-sign one fixed transaction in one order; the interference between co-owned inputs depends on order, kinds and encoding of the shared transaction.",
[T,W],[("input selection for signing",T+":sign_tx"),("transaction parsing",T+":deserialize"),("wallet signing entry",W+":PrivateKey.sign_transaction")],"hex returned by sign_transaction")

p("C04","Payments are exact: right recipients, amounts, order, change and no lost value",
"A created transaction pays each requested output exactly the requested amount to exactly the requested address, in the requested order, before any message outputs and with nothing else except at most one change output. Change goes to the address given for leftovers, or by default back to the wallet's own address (its segwit address when it spends or could spend a segwit coin), and inputs equal outputs plus fee to the satoshi, for every outcome of the library's internal randomness.",
["inputs","configurations"],"all coin sets, output lists, destinations of every address kind, leftover choices, fee modes and combine modes up to the bound, times all outcomes of the random draws",
"Which coins are picked, and hence change and fee, depends on random draws and on the full coin/amount combination; tests fix one draw and a few amounts.",
[T,W],[("output and change construction",T+":sanitize_tx_data"),("coin selection",T+":select_coins"),("output scripts",T+":construct_outputs"),("default change address",W+":PrivateKey.create_transaction")],"outputs of the returned transaction")

p("C05","The miner fee is what the user asked for",
"With an absolute fee the transaction pays exactly that fee. With a fee rate it pays at least the rate times the real virtual size of the finished transaction (up to rounding to whole bytes), and never more than the rate times the size plus the cost of one ordinary input and output that exact-match selection may forgo, for every mix of coin kinds, multisig shape, message and number of inputs and outputs.",
["inputs","configurations"],"all coin-kind mixes, multisig shapes, output kinds and counts around size boundaries, message lengths, fee rates and random outcomes up to the bound",
"Tests pin a few estimates numerically and never compare the estimate with the size of the signed result, so under-estimation for particular mixes is invisible.",
[T,M,W],[("size estimate",T+":estimate_tx_fee"),("per-coin sizes",M+":UNSPENT_TYPES"),("multisig sizes",W+":MultiSig.get_unspents"),("selection with fee",T+":select_coins")],"input total minus output total of the returned transaction versus its virtual size")

p("C06","Coin selection is sound and complete for every random outcome",
"Coin selection spends only coins it was given, none twice; in consolidation mode it spends all of them in the given order. It never overspends, it succeeds whenever the whole set of coins can pay the target with its fee, and reports insufficient funds only when the whole set cannot, whatever the random choices turn out to be, and it always terminates.",
["inputs","configurations"],"all small multisets of coin values and kinds, all targets around the subset sums and fee boundaries, all fee rates in the alphabet, all outcomes of every random draw",
"The search is randomised: a test sees one outcome per run, while a wrong branch may need one specific sequence of draws and one specific boundary amount.",
[T],[("branch and bound and random draw",T+":select_coins"),("fee estimate",T+":estimate_tx_fee")],"returned coins and remainder, raised error")

p("C07","Transaction building has no side effects and is repeatable",
"Creating or preparing a transaction leaves the caller's list of coins, the coin objects, and the list of outputs exactly as they were, whether it succeeds or fails. Repeating the same call on the same wallet gives the same result for the same random outcomes, however many other transactions were built in between.",
["histories","inputs"],"all sequences of transaction-building operations up to the depth bound, over shared coin lists, with every option combination, including failing calls",
"Tests call each builder once with fresh arguments; leaks between calls need a history of two or more calls sharing the same objects.",
[T,W,M],[("argument handling",T+":sanitize_tx_data"),("selection",T+":select_coins"),("coin objects",M+":Unspent")],"caller's objects before and after; results of repeated calls",["caller's unspents and outputs lists","module caches"])

p("C08","Replace-by-fee signalling is exactly what the caller asked for",
"With replace-by-fee requested, every input of the transaction signals replaceability under BIP 125; without it, every input carries exactly the sequence number of its coin, final by default. A coin's own relative-lock sequence is never changed by opting in, and opting in for one transaction never makes a later one replaceable.",
["histories","inputs"],"all coin sequence values in the boundary alphabet, all wallet kinds and builder entry points, all orders of opt-in and non-opt-in calls up to the bound",
"Tests check one opt-in call with default sequences; stickiness needs a sequence of calls and boundary sequence values.",
[M,T,W],[("opt-in",M+":Unspent.opt_in_for_RBF"),("application",T+":sanitize_tx_data"),("serialisation",T+":create_new_transaction")],"sequence fields of the returned transaction")

p("C09","A transaction never pays an address of the other network",
"A mainnet wallet refuses to create or prepare a transaction in which any output or the change goes to a testnet or regtest address, and a testnet wallet refuses mainnet ones, in every position of the output list and for every address kind. A transaction whose destinations all belong to the wallet's network is never refused for that reason.",
["inputs","configurations"],"all wallet kinds and builder entry points, all address kinds on both networks in every output position and as leftover, with and without change",
"Tests try one or two wrong-network destinations; the guard must hold for every position, address kind, wallet class and for the change address.",
[T,F,W],[("network guard",T+":sanitize_tx_data"),("address network",F+":get_version")],"raised error or returned transaction")

p("C10","Addresses map to the right script and malformed addresses are refused",
"Every valid address of every supported kind (pay-to-key-hash, pay-to-script-hash, segwit v0 to v16, main, test and regtest) is paid with exactly the script it encodes and is attributed to its own network. Any string that is not a valid address - wrong checksum, wrong length, unknown prefix, bad witness program, mixed case, any single-character error - is refused with an error and never paid.",
["inputs"],"all address kinds and versions times program lengths, all single-character substitutions, deletions, insertions and adjacent swaps of representative addresses, all 256 version bytes and all payload lengths up to the bound",
"Tests use a few valid and invalid strings; funds are lost if any one malformed string is accepted.",
[F,T,"bit/base58.py","bit/base32.py"],[("address to script",T+":address_to_scriptpubkey"),("network of an address",F+":get_version"),("base58check","bit/base58.py:b58decode_check"),("bech32","bit/base32.py:decode")],"script or error for every string")

p("C11","Base58 and bech32 codecs are lossless and reject every corruption",
"Decoding an encoded byte string gives back exactly the same bytes, for every byte string including the empty one and any number of leading zero bytes, and encoding a decoded text gives back the text. Text with an invalid character or a checksum that does not match is always rejected.",
["inputs"],"all byte strings up to length 2, structured strings up to length 80 with every count of leading zeros, all single-character corruptions of representative texts, all segwit versions and program lengths",
"Tests round-trip a few fixed strings; edge cases (empty, all-zero, leading zeros, boundary lengths) are not sampled.",
["bit/base58.py","bit/base32.py"],[("base58","bit/base58.py:b58encode / b58decode"),("bech32","bit/base32.py:bech32_encode / bech32_decode"),("bit regrouping","bit/base32.py:convertbits")],"codec return values")

p("C12","Keys survive export and import; corrupted keys are refused",
"A private key exported as WIF, hex, bytes, DER, PEM or integer and imported again is the same key with the same public key and addresses; WIF also preserves whether the key is compressed and which network it belongs to. A WIF with any single-character error, a foreign prefix or a payload that is not exactly one key is refused, and a signature made by a key verifies under that key and no other, for that data only.",
["inputs"],"all secrets in the boundary alphabet (small, near the group order, leading-zero, secrets ending in the flag byte) times all formats, flags and networks; all single-character corruptions of representative WIFs, all prefixes and flag bytes, payloads of every length",
"Tests round-trip one key; losing a key on import depends on particular byte patterns, flags and formats.",
[F,W,"bit/crypto.py"],[("WIF codec",F+":bytes_to_wif / wif_to_bytes"),("key classes",W+":BaseKey, wif_to_key")],"exported and re-imported key")

p("C13","Wallet addresses are the standard addresses of the wallet's keys",
"Every wallet shows exactly the standard addresses derivable from its public keys: pay-to-key-hash and, for compressed keys, nested segwit; for multisig the script-hash addresses of the m-of-n script in the given list order or, for a set, in lexicographic order however the keys are written. Co-signers given the same keys agree on the address, invalid contracts are refused, and public points and public keys convert into each other without loss.",
["inputs","configurations"],"all key kinds, networks, m and n up to the bound, all permutations and encodings (hex, upper case, bytes) of the key set, boundary secrets",
"Tests fix one contract; agreement must hold for all orders, encodings and sizes, otherwise funds are locked.",
[F,W,"bit/curve.py"],[("address derivation",F+":public_key_to_address / multisig_to_address"),("key ordering",W+":MultiSig.__init__"),("point recovery","bit/curve.py:x_to_y")],"address properties and conversion results")

p("C14","Parsing and serialising transactions is lossless and transaction ids are right",
"Parsing any well-formed transaction, with or without witness data, and serialising it again gives exactly the same bytes, with all fields preserved, for every count and length including those at compact-size boundaries. The computed transaction id is the double hash of the witness-free serialisation and does not change when witness data changes.",
["inputs"],"all combinations of input/output counts, script lengths, witness shapes and field values in the boundary alphabet",
"Tests parse a few fixed transactions; count and length boundaries are not reached.",
[T,U],[("parser",T+":deserialize"),("serialiser",T+":TxObj"),("compact size",U+":int_to_varint / read_var_int"),("txid",T+":calc_txid")],"re-serialised bytes and txid")

p("C15","Offline prepare and sign gives the same transaction as building online",
"Preparing a transaction on one machine and signing the prepared data on another yields byte-for-byte the transaction that direct creation with the same coins, options and random outcomes would give, for every wallet kind and option including messages and replace-by-fee. Prepared data signed by a key that owns none of the coins never contains that key's signature.",
["inputs","configurations"],"all wallet kinds, coin mixes, message kinds, fee modes, combine modes, leftover choices and random outcomes up to the bound",
"Tests sign one prepared transaction; the two paths share little code and options such as messages are never crossed with offline use.",
[W,T,M],[("prepare",W+":PrivateKey.prepare_transaction"),("sign prepared",W+":PrivateKey.sign_transaction"),("coin transport",M+":Unspent.to_dict / from_dict")],"prepared JSON and signed hex")

p("C16","Messages are embedded exactly, in standard data outputs",
"A message, given as text or as raw bytes, is stored in the transaction so that the concatenation of the data outputs is exactly the message's bytes, in order, after all payments, in zero-value outputs each carrying a single well-formed push of at most 80 bytes. No message length or content changes payments, change or who is paid.",
["inputs"],"all message lengths from 0 through several chunks, byte contents at the boundary alphabet, multi-byte text, text and raw mode, with and without change",
"Tests use two short messages; push encoding and chunking depend on every length from 1 to several hundred bytes.",
[T,U],[("chunking",T+":sanitize_tx_data"),("data output",T+":construct_outputs"),("push opcodes",U+":script_push")],"data outputs of the returned transaction")

p("C17","Network queries fail over: any answer is one provider's complete answer",
"For any pattern of provider failures - refused connection, timeout, error status, an answer cut off or not JSON, on any request or page - a balance, history, transaction or coin query returns the complete answer of one provider that answered fully, tried in the fixed order of preference, and never a partial or mixed answer. Only if every provider fails does the query raise a connection error, and never any other error.",
["fault_sequences"],"every query on both networks, every provider made to fail in every way at its k-th request for all k, all combinations over providers, with single- and multi-page data",
"Existing tests mock single failures at the function level; faults in the middle of a paged download and combinations across providers are never exercised.",
[S],[("failover loop",S+":NetworkAPI"),("provider clients",S+":BlockchairAPI, BlockstreamAPI, BitcoreAPI, BlockchainAPI, SmartbitAPI")],"return value or exception of the query")

p("C18","Every provider client reports the chain's data faithfully",
"For every address state and every provider, the reported coins are exactly the address's unspent outputs with right amount, confirmations, script, transaction id and index; the reported history is exactly its transaction ids, newest first; the balance is exact to the satoshi; and a looked-up transaction is the requested one or none. This holds for any number of entries, across page boundaries, for unconfirmed entries and for every amount.",
["inputs"],"all providers on both networks and the node client, entry counts around every page size, amounts in the boundary alphabet, confirmed/unconfirmed mixes",
"Tests that reach parsing hit live services (or canned single-page replies); page boundaries and amount precision cannot be sampled there.",
[S],[("provider clients",S+":BlockchairAPI, BlockstreamAPI, BitcoreAPI, BlockchainAPI, SmartbitAPI, RPCHost")],"return value of provider queries against a simulated chain")

p("C19","Broadcasting stops at the first acceptance and never hides a rejection",
"Sending a transaction offers the exact signed bytes to providers in order and stops at the first one that accepts; success is reported only if some provider accepted. If all reject or fail a connection error is raised, and on success the returned id is the id of exactly the transaction that was offered, on the wallet's own network.",
["fault_sequences"],"every accept / reject / connection-failure / timeout answer for every provider in all combinations, both networks, node connections, all wallet kinds",
"Broadcasting is excluded from the offline tests altogether; the outcome depends on the whole vector of provider answers.",
[S,W],[("broadcast loop",S+":NetworkAPI.broadcast_tx"),("send",W+":PrivateKey.send")],"requests observed by the providers and the returned id or error")

p("C20","Mainnet and testnet traffic never cross, whichever nodes are connected",
"Queries and broadcasts of mainnet wallets reach only mainnet services and those of testnet wallets only testnet services. After connecting a node for one network every later call for that network goes to that node only, with its credentials, address and certificate check, and calls for the other network are unaffected, for every history of connections.",
["histories"],"all sequences of node connections (main, test, repeated, with options) up to the depth bound, interleaved with every query and broadcast on both networks",
"Tests connect one node once and look at attributes; routing after several connections and for all operations is not observed.",
[S],[("node injection",S+":NetworkAPI.connect_to_node"),("provider lists",S+":NetworkAPI")],"hosts, paths and credentials of outgoing requests")

p("C21","Currency conversion is exact and independent of what ran before",
"Converting an amount in bitcoin units to satoshi and back is exact for every amount up to the total supply, whether given as integer, float, string or decimal. For a given fiat rate the result is the amount times the rate rounded down (never up, formatted without exponent to the currency's precision), and no earlier call, query or node use, nor the decimal context the caller has set, changes it.",
["inputs","histories"],"all boundary amounts and their neighbours in every unit and representation, all currencies, after every sequence of other operations up to the bound",
"Tests convert a few round amounts in a fresh process; precision loss needs particular digits or a particular prior call.",
[R,U,S],[("conversion",R+":currency_to_satoshi / satoshi_to_currency"),("decimal handling",U+":Decimal"),("node client arithmetic",S+":RPCHost.get_balance")],"returned integer or string")

p("C22","Exchange-rate cache serves fresh rates and survives failures",
"A cached conversion never uses a rate older than the configured cache time, performs at most one rate fetch per currency within the cache time, and never uses another currency's rate. Rate providers are tried in order and a failing or unreadable one is skipped; if all fail the call raises a connection error and leaves the cache able to recover on the next call.",
["histories","fault_sequences"],"all sequences of conversions in several currencies, clock advances around the cache time, cache-time changes and provider faults up to the depth bound",
"Time- and fault-dependent histories; tests make two calls in a row with a fixed clock.",
[R],[("rate cache",R+":currency_to_satoshi_local_cache"),("rate providers",R+":RatesAPI, BitpayRates, BlockchainRates")],"conversion results and requests made")

p("C23","Recommended-fee cache always yields a usable, fresh fee",
"The recommended fee is fetched at most once per cache time and kind (fast or hourly), a value older than the cache time is refreshed, and the two kinds never mix. If the fee service fails or its answer has no usable fee the last known value of that kind is returned, or the documented default if there is none, and never an error; the next call retries.",
["histories","fault_sequences"],"all sequences of fast/hour queries, clock advances around the cache time, cache-time changes, service answers and faults up to the depth bound",
"Needs multi-step histories of time and failures that tests do not produce.",
[E],[("fee cache",E+":get_fee_local_cache")],"returned fee and requests made")

p("C24","A wallet's balance, coins and history always describe one consistent refresh",
"After every refresh a wallet's coin list is exactly the coins of its addresses, each marked with the right kind for spending, and its balance is their sum; its history is exactly the ids of its addresses, newest first per address. If a refresh fails at any point the wallet's coins, balance and history stay exactly as they were before, and later refreshes recover.",
["fault_sequences","histories"],"all wallet kinds, all sequences of chain changes and refreshes up to the depth bound, with a total failure injected at every query of every refresh",
"Tests refresh once against a mock that always answers; the partial-failure states need a fault between the two address queries.",
[W],[("refresh",W+":PrivateKey.get_unspents / get_transactions"),("coin kinds",M+":Unspent.set_type")],"balance, unspents and transactions attributes after each step")

p("C25","Concurrent use of independent wallets gives the same results as sequential use",
"When several threads use the library at the same time with their own wallets and arguments - building and signing transactions, encoding addresses, converting currency, querying providers - each call returns the same result, or the same error, as it would when run alone. No thread interleaving corrupts another thread's transaction, keys or conversion.",
["schedules"],"all interleavings of two threads at every line of library code up to the preemption bound, over pairs of operations sharing library modules",
"Tests are single-threaded; an interference needs a preemption at a particular line.",
[T,R,E,F,"bit/base58.py"],[("module-level state",R+":currency_to_satoshi_local_cache"),("signing",T+":sign_tx"),("codec",  "bit/base58.py:b58encode")],"results of each thread")

p("C26","Vanity generation returns a key that controls a matching address and stops",
"For every valid prefix and number of workers, the printed or returned private key controls exactly the printed address, the address starts with the prefix, and once a match is found all workers stop. This holds for every interleaving of the workers and of the progress monitor, and invalid prefix characters are refused.",
["schedules"],"all interleavings of up to three workers and the monitor up to the preemption bound, all positions of the matching key in each worker's sequence, prefixes with and without the leading 1",
"The function is excluded from tests; several workers may match at the same time and the monitor polls, so the outcome depends on scheduling.",
["bit/keygen.py"],[("workers","bit/keygen.py:generate_key_address_pairs"),("monitor","bit/keygen.py:generate_matching_address")],"printed WIF/address and worker termination")

p("C27","Node errors are always surfaced, never mistaken for data",
"A call to a connected Bitcoin node sends exactly the requested method and arguments and returns exactly the node's result. A node-reported error or failure status raises the node error, a lost connection raises a connection error, and no error is ever returned as data or silently dropped; a rejected broadcast is reported as not sent.",
["fault_sequences","inputs"],"all methods including nested names, all argument shapes in the alphabet, all status codes and error/result combinations, all transport failures",
"Tests mock two or three replies; the error discrimination must hold for every status and reply shape.",
[S],[("rpc call",S+":RPCMethod.__call__"),("node queries",S+":RPCHost")],"return value or exception; request payload")
p("C28","A private key never leaves the wallet unless it is exported",
"Whatever a wallet is used for - refreshing, querying, building, preparing, co-signing, sending, being printed, compared or failing - its private key never appears, in raw, hexadecimal, decimal, WIF, DER, PEM or base64 form, in a network request, a transaction, prepared data, the printed form of any object, log output, console output or an error message. It is revealed only by the explicit export calls.",
["histories","fault_sequences"],"all wallet kinds and key encodings, every operation and every sequence of operations up to the bound, with every answer and failure of services and nodes in the alphabet at every request",
"A leak can hide in any output channel on any path, in particular on failure paths that tests never take, and tests never look for one.",
[W,T,S,"bit/keygen.py"],[("wallet operations",W+":PrivateKey, MultiSig"),("requests",S+":NetworkAPI"),("printed forms",W+":__repr__")],"every request, return value, log record, console output and exception text")

p("C29","New keys are fresh, valid and as unpredictable as the system's randomness",
"Every newly created key - for either network, from the key classes or the address generator - is a valid secp256k1 secret that depends on every bit of 32 fresh bytes of the operating system's randomness and on nothing that can be guessed, in every history of key creations and other calls. No randomness is used twice, and out-of-range draws are never used as keys.",
["histories","inputs"],"every single-bit change of the drawn randomness, all sequences of valid and out-of-range draws at the group-order boundary up to the bound, all histories of key creations through every entry point up to the bound",
"Tests create a few random keys and cannot notice lost entropy, reused draws or a wrong treatment of draws that occur once in 2^128.",
[W,"bit/keygen.py","bit/crypto.py"],[("key creation",W+":BaseKey.__init__"),("address generation","bit/keygen.py:generate_key_address_pair")],"secret of every created key against the randomness drawn")

p("C30","No request to a public service can block a call forever",
"Every request to a public service - every page of every query, every broadcast, every rate and fee request - carries a finite time limit; for blockchain services it is the one last set with set_service_timeout (10 seconds before that), in every history of settings, failures and wallets. A service that goes silent is treated like a failed one: the call goes on with the next service, or ends with an error or the fallback value.",
["fault_sequences","histories"],"every query, network, provider and page with a silent service at every request, all sequences of time-limit settings and calls up to the bound",
"A missing limit shows only when a server accepts the connection and then stays silent; tests never do that.",
[S,R,E],[("service requests",S+":set_service_timeout, NetworkAPI"),("rate requests",R+":BitpayRates, BlockchainRates"),("fee requests",E+":get_fee, get_fee_local_cache")],"time limit of every request and outcome of the call")

p("C31","Signatures are deterministic and never reuse a nonce",
"Every signature - over data given by the user or over any input of any transaction, by plain and multisig wallets on either network - is exactly the low-S RFC 6979 signature of that key over that digest. So signing again always gives the same bytes, whatever ran before, and different data or different keys never share a nonce.",
["inputs","histories"],"all keys of the alphabet including boundary secrets, all message lengths and contents in the alphabet, all input kinds and positions, every signing entry point, all histories of signing calls up to the bound",
"A repeated or biased nonce reveals the key but every single signature still verifies, so tests that verify signatures pass.",
[W,T],[("message signatures",W+":BaseKey.sign"),("input signatures",T+":sign_tx")],"r and s of every signature produced")
p("C32","Malformed transactions are refused, never signed or identified",
"Text or bytes that are not exactly one well-formed transaction - cut off anywhere, with bytes missing, inserted or appended, with a count or length that does not fit the data, or with characters that are not hexadecimal - are refused with an error by parsing, by id computation and by signing, for every wallet kind; prepared data that is cut off is refused too. Nothing malformed is ever signed, no malformed input makes a call hang, and no data is silently dropped or made up.",
["inputs"],"every truncation, deletion, insertion, byte value, count and length value, appended data and foreign character, at every place of transactions of every shape",
"Tests parse well-formed transactions; damage can occur at any place, and most places are read by code that never fails on short data.",
[T,"bit/utils.py",W],[("parser",T+":deserialize"),("field readers","bit/utils.py:read_bytes, read_var_int, read_var_string"),("signing",W+":sign_transaction")],"refusal or acceptance of every input; bytes of what is accepted")

p("C33","The library leaves the process around it alone",
"Whatever the library is used for - being imported, refreshing, querying services or nodes, converting, selecting coins, building, signing, sending, importing and exporting keys, failing - it leaves the application's process as it found it: decimal context, seed of the random generator, recursion limit, default socket timeout, environment, working directory, locale, signal handlers, warning filters, configuration of logging, standard streams and the functions of other modules. Apart from log messages, and apart from the vanity generator's workers and report, it writes nothing to the console or to files, and starts no process and no thread. Its results do not depend on such settings either.",
["inputs","histories","faults"],"every call and every pair of calls on every wallet kind, in several host settings, with services up, with each single and double fault, and with everything down; import of every module in every order tried",
"A test looks at the result of a call, not at the process; a changed setting shows up later, in some other part of the application, and often only after a failure or with an unusual input.",
[T,S,R,E,W],[("coin selection",T+":select_coins"),("node connections",S+":RPCHost, NetworkAPI"),("conversions",R+":own_context"),("logging",E+":get_fee_local_cache")],"settings of the process and patched functions before and after every call; audit events during it")

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
