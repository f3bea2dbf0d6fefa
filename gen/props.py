ENUM = "model checking: stateless exhaustive enumeration of bounded choice sequences on the real code, each execution judged by an independent executable specification"
TRUST = " Trusts libsecp256k1 group arithmetic, SHA256/HASH160 and rust-bitcoin consensus types; the specification model is validated on every run against all published BIP352 and BIP374 vectors."
SP = "silentpayments/src/"
RX = SP + "receive/mod.rs"
SC = SP + "receive/scan.rs"
TX = SP + "send/mod.rs"
ENC = SP + "encoding/mod.rs"
PROPS = []
def P(id, title, statement, over, text, why, files, mech, note, technique=ENUM, trust=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, note=note + (TRUST if trust else ""), technique=technique))

P("C01", "Every payment sent is found by exactly the wallet it was sent to",
  "For any set of eligible inputs and any list of silent payment recipients (several wallets, plain or labelled addresses, repeated addresses), scanning the resulting transaction with a recipient's keys and registered labels finds exactly the outputs paid to that recipient, each with its true txid, output index, amount, script and label. A wallet which was not paid finds nothing. This does not depend on where the outputs are placed or what other outputs surround them.",
  ["inputs", "configurations"],
  "all sequences of eligible/ineligible input shapes and key parities, recipient lists, output placements and decoys within the bounds; ladders of input, output, label and index counts across byte boundaries",
  "tests compare fixed vectors for one side at a time; the agreement of sender and receiver is over every combination of input kinds, parities, recipients and output orders",
  [TX, RX, SC, SP + "lib.rs"],
  [("output derivation per recipient and index", TX + ": create_silentpayment_scriptpubkeys"), ("output scanning", RX + ": scan_txouts, find_spout_for_tweak"), ("scanner", SC)],
  "Exhaustive within stated bounds (quick: up to 2 inputs over 8 eligible shapes x parity x ineligible companions, recipient lists up to 4 over 3 wallets, all placements up to 3; ladders to 300 inputs/outputs/labels).")
P("C02", "Every output found can be spent with the spend key and the recorded tweak",
  "For every output a scan reports, the wallet's spend secret key plus the recorded tweak is the secret key of that output: its public key is the output key and a signature made with it verifies. This holds for plain and labelled payments and for every combination of key parities.",
  ["inputs", "configurations"],
  "every found output of the explored send/receive combinations, all parities of scan, spend, input and label keys",
  "the vectors check tweaks for fixed keys; spendability is over all parities, labels and derivation indexes",
  [RX, SC, SP + "send/bip352.rs"],
  [("tweak recorded with label included", RX + ": find_spout_for_tweak"), ("spending key reconstruction", SP + "send/bip352.rs")],
  "Exhaustive over the same spaces as C01; each found output's key is rebuilt and a BIP340 signature verified against the output script.")
P("C03", "Sender and receiver compute the exact BIP352 values",
  "The sender's partial secret, the receiver's tweak data, the input hash, the label tweaks and the per-index shared secrets equal the values BIP352 prescribes for the transaction, including the choice of the lexicographically smallest outpoint by its serialization. Both sides agree with each other for every input set.",
  ["inputs"],
  "all input sequences within bounds, all outpoint pairs/triples over a byte-edge alphabet of txids and output indexes (0, 1, 255, 256, 65536, 2^24, 2^32-1), index and label ladders",
  "27 vectors fix a few outpoints and keys; serialization edge cases (little-endian index order, txid byte order, k above 255) are outside them",
  [SP + "lib.rs", SP + "hashes.rs", TX, RX],
  [("smallest outpoint", SP + "lib.rs: LexMin"), ("tagged hashes", SP + "hashes.rs"), ("key sums", TX + ": create_silentpayment_partial_secret; " + RX + ": compute_tweak_data")],
  "Exhaustive within bounds against an independent BIP352 model.")
P("C04", "Exactly the inputs BIP352 allows contribute, and no input data causes a panic",
  "For any input of a transaction, the public key used for derivation is the one BIP352 extracts for P2TR, P2WPKH, P2SH-P2WPKH and P2PKH spends, and inputs of any other kind (script-path spends with the NUMS internal key, uncompressed keys, other scripts) contribute nothing. Transactions which spend an output of a segwit version above 1 or have no eligible input yield no tweak data. Arbitrary witness stacks and script sigs never cause a panic.",
  ["inputs"],
  "all combinations of previous-output script, script sig and witness stack (up to 4 items) over alphabets with truncated, oversized and adversarial items; all mixes of up to 3 inputs over 19 shapes",
  "tests try a dozen hand-made inputs; eligibility is a predicate over all witness/script combinations an attacker can put on chain",
  [SP + "lib.rs", RX],
  [("input classification", SP + "lib.rs: tag_txin"), ("key extraction", RX + ": extract_pubkey"), ("transaction level rule", RX + ": compute_tweak_data")],
  "Exhaustive over the witness/script alphabets (millions of inputs per run) against the BIP352 extraction rules; agreement is required on all inputs which can be part of a valid transaction, absence of panics on all.")
P("C05", "Scanning is sound and complete on adversarial transactions",
  "Whatever outputs a transaction has, a scan reports the outputs BIP352 scanning finds, in derivation order and without gaps: each reported output matches the wallet at its derivation index, no reported output is repeated, and no remaining output matches at the next index. Unregistered labels, skipped indexes, copies under other script types and invalid keys are never reported.",
  ["inputs"],
  "all output lists up to length 3 over 16 kinds of outputs (right and wrong index, 4 label choices, copies, foreign, invalid) and length 4-5 over a reduced alphabet",
  "vectors contain honest transactions; the property is over every arrangement an attacker can craft",
  [RX, SC],
  [("match loop", RX + ": scan_txouts"), ("per-index matching with labels and parities", RX + ": find_spout_for_tweak")],
  "Exhaustive within bounds; the oracle accepts every tie-break BIP352 leaves open.")
P("C06", "Derivation does not depend on input or output order and fails only on zero sums",
  "The sender's secret, the receiver's tweak data and the outputs found are the same for every order of the inputs and outputs. Input keys are accepted exactly when they do not sum to zero, whatever partial sums occur on the way, and then both sides agree; when they sum to zero both sides refuse without panic.",
  ["inputs"],
  "all permutations of up to 4 inputs and 4 outputs; all sequences of up to 4 (5) inputs over keys that cancel pairwise or in threes, as taproot or not",
  "cancelling partial sums need crafted keys in a particular order; tests use random-looking keys",
  [TX, RX],
  [("key sums", TX + ": create_silentpayment_partial_secret"), ("point sums", RX + ": compute_tweak_data")],
  "Exhaustive over permutations and cancelling sequences within the bounds.")
P("C07", "Silent payment codes survive formatting and parsing unchanged",
  "For every network and every pair of public keys, the text of a silent payment code is the BIP352 encoding, and parsing it, in lower or upper case, returns the same keys, version and address class. Codes of versions 1 to 30 are read by their first 66 payload bytes and keep their version; equality and text of two codes agree exactly when all their parts agree.",
  ["inputs", "configurations"],
  "5 networks x key pairs of all parities x labels; versions 0..31 x payload lengths 66..140",
  "11 vectors fix three networks and one key pair",
  [ENC],
  [("formatting", ENC + ": Display"), ("parsing", ENC + ": TryFrom<&str>")],
  "Exhaustive over the stated key/network/version/length space against an independent Bech32m and BIP352 codec.")
P("C08", "Invalid or corrupted codes are refused, never misread, never a panic",
  "Any string which is not a valid silent payment code (damaged characters, wrong checksum or checksum kind, unknown prefix, mixed case, wrong length, non-canonical padding, invalid keys, version 31) is refused with an error and never causes a panic or is read as some other code.",
  ["inputs"],
  "every single substitution/insertion/deletion/swap/truncation/case change of 5 codes, every pair of substitutions, all checksummed payload lengths 0..130 x versions x prefixes x checksum constants x fillings, all key prefix bytes, short strings",
  "tests try 8 invalid strings",
  [ENC, SP + "encoding/error.rs"],
  [("validation while parsing", ENC + ": TryFrom<&str>")],
  "Exhaustive over the stated edits and payloads; verdicts compared with a strict reference decoder.")
P("C09", "Labels give the specified, distinct and attributable addresses",
  "For every wallet and label number the label tweak is the BIP352 hash and the labelled address is the wallet's spend key plus that tweak, keeping scan key, version and network. Different labels give different addresses, and a payment to a labelled address is attributed to that label exactly when the label is registered, including the change label 0 and numbers up to 2^32-1.",
  ["inputs", "configurations"],
  "labels 0..300 (thorough 0..70000) and a boundary ladder for several wallets of all parities; all pairs of ladder labels and related wallets",
  "tests use labels 0, 1, 2, 4 of one wallet",
  [ENC, SP + "hashes.rs", RX],
  [("label hash", SP + "hashes.rs: get_label_tweak"), ("labelled address", ENC + ": add_label"), ("label matching", RX + ": find_spout_for_tweak")],
  "Exhaustive over the stated labels and wallets.")
P("C10", "Candidate scripts for filter matching are exactly the first outputs to find",
  "The candidate scripts computed from a transaction's tweak data at a derivation index are exactly the plain output script and one script per registered label at that index. A transaction pays the wallet at all exactly when one of its outputs is among the index-0 candidates.",
  ["inputs", "configurations"],
  "label sets and derivation indexes from ladders, all key parities; all payment lists up to 3 over owned, unregistered-label and foreign addresses in all orders",
  "no test derives labelled candidates; a missed candidate silently loses funds during filter scanning",
  [SC, RX],
  [("candidate derivation", SC + ": get_spks_from_tweak"), ("output script derivation", RX + ": get_silentpayment_script_pubkey")],
  "Exhaustive within the bounds; candidates compared with the reference and with actual scanning.")
P("C11", "Deriving a PSBT's silent payment outputs makes recipients find them",
  "For any finalized PSBT whose eligible inputs' keys the key provider knows, deriving silent payments replaces every placeholder output of the listed recipients with a script that the recipient finds by scanning the final transaction, and changes nothing else in the PSBT. This holds for every eligible kind of input (taproot key and script path, P2WPKH, nested P2WPKH, P2PKH, silent payment outputs), next to inputs of any other kind, and for any order of inputs, outputs and recipients.",
  ["inputs", "configurations"],
  "all sequences of up to 2 (3) inputs over 14 kinds x parity x 4 ways of handing out keys, all arrangements of up to 3 (4) recipients and other outputs, utxo field variants, outpoint order ladders, rust-bitcoin's own key providers, recipient and input counts up to 300",
  "tests derive from one input of two kinds; the property is over mixtures of inputs, key providers, placements and repeated recipients",
  [SP + "send/psbt/mod.rs", SP + "send/psbt/sign.rs", TX],
  [("input data collection", SP + "send/psbt/mod.rs: collect_input_data, get_taproot_secret, get_non_taproot_secret, get_sp_secret"), ("output replacement", SP + "send/psbt/mod.rs: update_outputs")],
  "Exhaustive within the bounds; the oracle is what reference BIP352 scanning finds in the final transaction for each recipient, plus equality of everything else in the PSBT.")
P("C12", "A PSBT which cannot be served is refused and left untouched",
  "When the key of an eligible input is unknown, wrong or cannot be obtained, an input's spent output or final scripts are missing, the input keys sum to zero, a future segwit output is spent, or placeholders and listed recipients do not match in number, deriving silent payments fails, never panics and leaves the PSBT exactly as it was. It never succeeds with an output which its recipient cannot find.",
  ["inputs", "configurations", "fault_sequences"],
  "all combinations of key availability per input, listed/placed counts per address x hash map orders, codes sharing their keys, missing/damaged fields per input, cancelling keys, 15 future versions, malformed proprietary data",
  "a partially updated or wrongly derived PSBT loses funds only in particular failure combinations and map orders which tests do not produce",
  [SP + "send/psbt/mod.rs", SP + "send/error.rs"],
  [("refusal conditions", SP + "send/psbt/mod.rs: collect_input_data"), ("count validation", SP + "send/psbt/mod.rs: update_outputs")],
  "Exhaustive within the bounds; the iteration order of hash maps is a controlled choice (interposed getrandom).")
P("C13", "Silent payment inputs of a PSBT are signed validly, and nothing else is",
  "Signing a PSBT adds to every unsigned input which spends a silent payment output, whose data and spend key are available and whose transaction's spent outputs are all known, a key-path signature that verifies under BIP341 for that output, of the signature hash type the input asks for; an input which asks for an impossible one stays unsigned. It never replaces a signature, signs another input, changes anything else, or panics, whatever the proprietary fields contain.",
  ["inputs", "configurations"],
  "all sequences of up to 3 (4) inputs over 9 situations, several data entries per input, junk entries, all signature hash types and invalid ones on up to 3 inputs and outputs, up to 257 (300) inputs, and outputs actually scanned with all label and parity combinations",
  "there is no test of sign_sp at all; an invalid signature shows only when the network rejects the transaction",
  [SP + "send/psbt/sign.rs"],
  [("signing", SP + "send/psbt/sign.rs: sign_sp"), ("input data", SP + "send/psbt/sign.rs: add_sp_data_to_input")],
  "Exhaustive within the bounds; signatures are verified against a BIP341 sighash computed independently.")
P("C14", "The wallet sender helpers derive outputs their recipients find",
  "For every set of inputs of an extended private key (P2TR, P2WPKH, nested P2WPKH and P2PKH next to other scripts) and every set of silent payment outputs a wallet received (with or without labels), the sender helpers derive one output per listed recipient, and every recipient finds its outputs by scanning the transaction which spends those inputs. Without eligible inputs, or when the keys cancel out, they fail.",
  ["inputs", "configurations"],
  "all sequences of up to 3 (4) inputs over 6 script types x key parity x outpoint order x 6 recipient lists; up to 3 (4) scanned outputs over 4 labels and all wallet parities",
  "tests send from one P2TR key and one received output",
  [SP + "send/bip32.rs", SP + "send/bip352.rs"],
  [("sending from an extended key", SP + "send/bip32.rs"), ("sending from received outputs", SP + "send/bip352.rs")],
  "Exhaustive within the bounds against reference scanning.")
P("C15", "DLEQ proofs are complete and follow BIP374",
  "For every valid secret, point, generator, auxiliary value and optional message, a generated DLEQ proof is byte for byte the one BIP374 prescribes and verifies for the matching statement. Equal inputs give equal proofs and changed auxiliary data, message or secret give different proofs.",
  ["inputs"],
  "secrets (1, 2, n-1, n-2, 2^32, hashes) x points (incl. G, -G, aG) x generators x auxiliary values x messages",
  "vectors fix a handful of statements",
  ["dleq/src/lib.rs"],
  [("proof generation", "dleq/src/lib.rs: dleq_generate_proof"), ("verification", "dleq/src/lib.rs: dleq_verify_proof")],
  "Exhaustive over the stated product space against an independent BIP374 model.")
P("C16", "DLEQ verification rejects every altered proof or statement",
  "A proof is accepted only for exactly the points, generator and message it was made for: any change of a bit of the proof, of any public point, of the generator, or adding, dropping or changing the message makes verification fail. Out-of-range and degenerate proof values are refused without panic.",
  ["inputs"],
  "every single-bit flip of proofs, all combinations of 7 variants of each of A, B, C, G and 4 message variants, all pairs of 9 degenerate values for both scalars",
  "vectors contain about ten tampered cases",
  ["dleq/src/lib.rs"],
  [("verification", "dleq/src/lib.rs: dleq_verify_proof"), ("challenge binding", "dleq/src/lib.rs: dleq_challenge")],
  "Exhaustive over the stated alterations; verdicts compared with the reference verifier.")

V1 = "indexer/src/lib.rs"
V2 = "indexer/src/v2/mod.rs"
IX = "indexer/src/v2/indexes.rs"
P("C17", "The v1 indexer finds and keeps exactly what pays the wallet, in any order",
  "After any sequence of indexing transactions and registering labels, the indexed outputs, their keys, labels and lookups are exactly those BIP352 scanning finds with the labels known when each transaction was indexed. Transactions found and their spent outputs are in the graph, the returned changes add up to the graph, and indexing a transaction again or in another order changes nothing.",
  ["histories", "inputs"],
  "every sequence of up to 5 (7) operations of 13 (10 transactions with spends, conflicts, replacements and labelled payments; 3 labels), states merged; every order of every subset of up to 4 (6) transactions",
  "there is no test of the indexer; lost or duplicated entries show only after particular histories",
  [V1, SC, RX],
  [("indexing", V1 + ": SpIndexer::index_tx"), ("labels", V1 + ": SpIndexes::add_label"), ("queries", V1 + ": spends_owned_spouts, txouts_in_tx, txout, get_label")],
  "Explicit-state exploration of all operation histories to the stated depth on the real code, compared with a BIP352 model after every operation.")
P("C18", "The v1 indexes survive storing, merging and restarting unchanged",
  "The indexes written as a changeset in any supported format and read back equal the originals, alone or merged over earlier snapshots, and a restarted indexer continues exactly like one which never stopped. A write torn at any byte leaves the previous complete state.",
  ["histories", "crash_points"],
  "every history of up to 4 (5) operations with a restart at any point in 4 forms; all triples of 16 changesets; stores of 3 snapshots cut at every byte",
  "serialization tests cover single values, not histories, restarts and torn writes",
  [V1, RX],
  [("conversion", V1 + ": From<SpIndexes>, From<SpIndexesChangeSet>"), ("merging", V1 + ": Merge for SpIndexesChangeSet")],
  "All histories and crash points within the bounds on the real code and the real file store.")
P("C19", "The v2 indexer tracks exactly the wallet's outputs and relevant transactions",
  "After any sequence of registering labels, requesting addresses, and indexing transactions alone, in batches, unconfirmed or in blocks (with missing or wrong partial secrets), the v2 indexer's outputs, keys, labels, partial secrets and queries are exactly those BIP352 scanning gives, and its graph holds exactly the transactions which pay or spend the wallet, with the given anchors and times. Labels registered later apply to the kept transactions which were found to pay the wallet; coinbase transactions are never indexed.",
  ["histories", "inputs"],
  "every sequence of up to 4 (5) of 62 operations and of up to 6 (8) of 12 operations, states merged; scripts derived for every label set and partial secret",
  "there is no test of the v2 indexer; missed spends, parents after children and late labels need multi-step histories",
  [V2, IX],
  [("indexing", V2 + ": index_tx, is_tx_relevant"), ("batches", V2 + ": batch_insert_relevant, batch_insert_relevant_unconfirmed, batch_insert_unconfirmed"), ("blocks", V2 + ": apply_block_with_filter"), ("labels", V2 + ": add_label, get_labeled_address"), ("index", IX + ": SpIndex"), ("candidate scripts", V2 + ": derive_spks_for_tweak")],
  "Explicit-state exploration of all operation histories to the stated depth on the real code, compared with a model after every operation.")
P("C20", "The v2 indexer's returned changes restore it at every point of its history",
  "Merging the initial changeset and every changeset the v2 indexer returned gives, at every point of any history, a changeset which restores an indexer with the same keys, labels, outputs, partial secrets and graph, and which continues like the original. Written to a file store, a crash at any byte restores exactly the state of the last complete write.",
  ["histories", "crash_points"],
  "every sequence of up to 4 (5) of 56 storing operations, restored after each; file store restarts after any of 5 (6) operations of 14; 6 histories cut at every byte",
  "there is no persistence test of the v2 indexer; a dropped change shows only after a restart at the right moment",
  [V2, IX],
  [("restoring", V2 + ": TryFrom<ChangeSet>, apply_changeset"), ("snapshot", V2 + ": initial_changeset"), ("returned changes", V2 + ": every method returning a ChangeSet")],
  "All histories, restart points and torn writes within the bounds. Not compared after a restart: bdk_chain's first_seen times, which its own apply_changeset drops; transactions only passed to index_tx, which are not stored by design.")
P("C21", "v2 changesets merge, serialize and apply without loss, in any order",
  "v2 changesets form a monoid under merge (associative, with the default as identity, idempotent), are empty exactly when they hold nothing, and survive JSON and binary serialization. Applying the changes of a history to an indexer with the same keys, in any grouping and order, gives the indexer they came from; changes of another wallet are ignored and restoring needs both keys.",
  ["inputs", "histories"],
  "all triples of 21 changesets; all histories of 3 (4) of 10 operations x all orders x all groupings x key presence",
  "there is no test of these laws; an order-dependent merge loses labels or secrets only in some interleavings",
  [V2, IX],
  [("merging", V2 + ": Merge for ChangeSet"), ("applying", V2 + ": apply_changeset"), ("serialization", IX + ": Serialize/Deserialize for Label, ScalarBytes")],
  "Exhaustive over the stated pool, orders and groupings.")
P("C22", "Balances and unspent outputs follow the chain through reorganisations",
  "After any sequence of blocks, reorganisations, mempool sightings, evictions and restarts, the balance (confirmed, trusted and untrusted pending), the unspent outputs and the confirmation of each transaction computed from the v2 indexer and the local chain are those of the active chain and the mempool.",
  ["histories"],
  "every sequence of up to 4 (5) events: blocks of 8 contents on the tip or replacing 1 or 2 blocks, 6 sightings, 3 evictions, restarts; with no label or all of them; states merged",
  "wrong balances need a particular history of conflicts, reorganisations and restarts",
  [V2, IX],
  [("blocks and anchors", V2 + ": apply_block_with_filter"), ("unconfirmed transactions", V2 + ": batch_insert_relevant_unconfirmed, insert_evicted_at"), ("output lists", IX + ": by_label, by_xonly")],
  "Explicit-state exploration of all event histories to the stated depth against a model of chain, mempool and conflicts; where two conflicting candidates are equally recent nothing is compared.")

KY = "oracles/src/filters/kyoto.rs"
BB = "oracles/src/tweaks/blindbit.rs"
SCHED = "model checking: the real subscribers run as tasks of a controlled executor against a scripted node and a loopback tweak server; all event sequences and all orders of node events, task starts and server answers within the bounds are enumerated, each execution judged by an independent executable specification"
P("C23", "Before a tip is announced, every filter received for it is stored and announced",
  "For any sequence of node events, when a synced tip is announced the latest filter received for every height from the birthday on has been stored and announced with its block hash, also when a reorganisation replaced the filter of a height before or after it was written; the stored bytes are those of the announced block. Each received filter is announced at most once, heights below the birthday never are, and at most 1000 filters are held back. The subscriber stops with an error, not a panic, when the node stops or its consumer goes away at any point.",
  ["histories", "schedules"],
  "all sequences of up to 5 (6) node events over filters of 2 blocks at 4 heights, syncs and other events; bulk runs around the flush size; all consumer reactions at every wake-up inside a send; restarts on the same database",
  "no test drives the subscriber; loss of a filter needs a reorganisation, a flush boundary or a consumer leaving at one point",
  [KY],
  [("queue of filters", KY + ": DatabaseBuffer::push_filter, write_queue"), ("event loop", KY + ": FilterSubscriber::run")],
  "Exhaustive over the stated event sequences and consumer reactions, on the real subscriber with a redb database in memory; bip157 is vendored with one added constructor so that the harness can play the node.", technique=SCHED, trust=False)
P("C24", "A wallet following the tweak subscriber knows what a full scan would find",
  "Whatever the blocks contain and in whichever order the tweak server answers, the subscriber reports exactly the blocks which pay the wallet or spend an output it knew or received meanwhile, in the order of the chain, with the tweak of every payment, and only then the tip. A wallet which applies the reported blocks ends with the unspent outputs and transactions of a full scan. This holds when blocks are announced in parts, over sessions, and through a reorganisation while requests are under way.",
  ["schedules", "histories", "inputs"],
  "all chains of 3 (4) blocks over 12 contents after 3 wallet states, with and without labels, in one or two announcements or two sessions, all answer orders; all interleavings of node events, task starts and answers for a reorganisation of 1 by 1 or 2 blocks",
  "a missed payment or spend needs a particular answer order, block content or moment of a reorganisation; no test runs the subscriber",
  [BB, KY, "indexer/src/v2/mod.rs"],
  [("filter matching", BB + ": process_changes"), ("tip", BB + ": run"), ("candidate scripts", "indexer/src/v2/mod.rs: derive_spks_for_tweak, derive_spks_for_tweak_at")],
  "Exhaustive within bounds on the real subscribers, BIP158 filters and HTTP client over the loopback; the wallet is the v2 indexer with a local chain, fed as the command line wallet does. BIP158 false positives do not occur for the blocks used.", technique=SCHED)
P("C25", "A failing tweak server or a leaving consumer does no harm",
  "A missing, malformed or failing answer for one block never causes a panic and affects no other block: the others are reported in order with their tweaks, a spend of a known output in the failing block is still reported, a payment in it is not silently passed over, and repeated or foreign tweaks in an answer change nothing. When the consumer goes away at any point the subscriber stops without a panic.",
  ["fault_sequences", "schedules"],
  "all chains of 2 (3) blocks over 12 contents after 3 wallet states, 8 kinds of answer for each block, all answer orders; the consumer leaving at 4 points",
  "tests have no server at all; faults matter in combination with what the failing and the other blocks contain",
  [BB],
  [("answers", BB + ": BlindbitClient::tweaks, process_changes"), ("channel ends", BB + ": run")],
  "Exhaustive within bounds with fault injection at the loopback server. One known finding: a payment in a block whose tweaks cannot be obtained is passed over (see known_findings.json).", technique=SCHED)
P("C26", "The tweak client asks for what it is told and returns what the server sent",
  "For every form of the server's address (with or without path or final slash), every height and every dust limit, the client makes exactly the one request for it and returns exactly the keys, heights and flags of the answer, in their order. Malformed, truncated or missing answers and unusable addresses give an error, never a panic or an invented value.",
  ["inputs", "fault_sequences"],
  "8 address forms x 3 requests x edge heights and limits; all answers of up to 3 (4) keys; all networks, flags and edge heights; 20 malformed answers for each request; 10 unusable addresses",
  "no test talks to a server; a wrong join of address and path or a swapped field shows only for some forms",
  [BB],
  [("requests", BB + ": BlindbitClient::new, tweaks, info, block_height")],
  "Exhaustive over the stated alphabets with a loopback server.", trust=False)

WL = "wallet/src/lib.rs"
WS = "wallet/src/signers.rs"
P("C27", "The wallet knows its funds, addresses and keys through reorgs and crashes",
  "After any sequence of blocks, reorganisations, label requests, writing of staged changes and crashes followed by a resync, the wallet's chain, birthday, network, addresses, balance, unspent scripts, transactions with confirmation height and time, spending candidates and spending keys are those of the active chain and of what was written. A restarted wallet has exactly the state of the last write. Keys, addresses and labels are those of BIP352's derivation for every network, and label 0 is never handed out.",
  ["histories", "crash_points"],
  "every sequence of up to 4 (5) events out of 29 and of up to 6 (7) out of 10: blocks of 8 contents on the tip or replacing 1 or 2, 2 labels, writes, crashes, in two ways of merging the stored changes; creation with 5 networks, 3 keys, 5 descriptors, all sequences of 3 out of 4 labels",
  "the wallet has no tests; a lost label, birthday or funds need a crash between particular writes",
  [WL, WS, V2],
  [("changes", WL + ": ChangeSet::merge, TryFrom"), ("chain and blocks", WL + ": update_chain, apply_block_relevant"), ("queries", WL + ": balance, unspent_spks, canonical_txs, all_candidates"), ("keys", WL + ": new, get_labelled_address; " + WS)],
  "Explicit-state exploration of all event histories to the stated depth against a model of chain and stored changes; the wallet is the real one, compiled against a stand-in for its git dependency bdk-tx, which is not available offline and only receives the candidates.")
P("C28", "A wallet can spend what it lists, and both sides find the result",
  "Whatever candidates a wallet chooses among those it lists, and whomever it pays (change, its own labels, other wallets, scripts), the transaction derived and signed as the command line wallet does it is valid, pays the amounts asked for, and after its block the balance and candidates of payer and payee are exactly those of an independent scan, also after a restart and for a further payment out of the result. The spending weight the wallet states is that of its inputs.",
  ["histories", "inputs"],
  "4 (7) sets of funding transactions, every ordered choice of up to 2 (3) candidates, every list of up to 2 (3) out of 6 kinds of recipient, with and without restarts, followed by spending everything left",
  "no test connects the wallet, the PSBT derivation and the signer; an error shows only for some combination of labels, parities and recipients",
  [WL, WS, "silentpayments/src/send/psbt/mod.rs", "silentpayments/src/send/psbt/sign.rs"],
  [("candidates", WL + ": all_candidates, spending_plan"), ("derivation", "silentpayments/src/send/psbt/mod.rs: derive_sp"), ("signatures", "silentpayments/src/send/psbt/sign.rs: sign_sp")],
  "Exhaustive over the stated choices; every signature is verified against the prevouts and every output found by the reference scanner.")

CLI = "cli/v1/src/main.rs"
CLIPROG = " The program itself is run, against a stand-in for bitcoind on the loopback."
P("C29", "The command line wallet's balance is that of the node's chain",
  "Whenever the v1 command line wallet has scanned, its balance (confirmed, trusted and untrusted) is that of the outputs paid to its keys and labels which are unspent on the node's chain and among what it learned before, after any sequence of blocks, reorganisations and new labels. A node that grows, reorganises or fails in the middle of a scan, or a crash while the result is written, costs at most another scan: a scan which fails stores nothing, and no other balance is ever shown.",
  ["histories", "fault_sequences", "crash_points"],
  "every sequence of up to 3 (4) events out of 38 and of 5 (6) out of 9 with or without a scan after each; up to 2 (3) blocks arriving at every request of a scan of 5 wallets; each request failing in each of 4 ways; every (quick: 7th) number of bytes written",
  "there is no test of the program; a missed spend or confirmation needs particular transactions around a reorganisation",
  [CLI, V1],
  [("scan", CLI + ": Commands::Scan"), ("indexing", V1 + ": SpIndexer::index_tx"), ("balance", CLI + ": Commands::Balance"), ("stored changes", CLI + ": ChangeSet, init_or_load")],
  "Explicit-state exploration of histories, request interleavings, faults and torn writes to the stated bounds against a model of the chain." + CLIPROG)
P("C30", "Payments made on the command line are valid, exact and found by their recipients",
  "Whatever the wallet holds and whomever it pays, the v1 command line wallet either declines a payment it cannot afford or makes one which spends only its own unspent coins, in the order of the selection asked for, pays the exact amount to the recipient, returns the rest to its own change label, shows the fee it pays and pays no more than a few bytes' worth over the minimum. After signing, exactly its own inputs carry a valid signature, the recipient finds the output by scanning, and after the block the wallet's balance is right, also for a payment out of the result.",
  ["histories", "inputs", "configurations"],
  "8 histories x 7 recipients x 5 coin selections x 30 or more amounts around every threshold, each followed by a second payment; wallets of up to 40 coins and of 9000 bitcoin; 7 kinds of refusals; all sequences of up to 3 inputs to sign out of 4 own and 2 foreign",
  "there is no test of the program; wrong signatures appear only with several inputs, wrong amounts only near a threshold",
  [CLI, "silentpayments/src/send/bip352.rs", V1],
  [("payment", CLI + ": Commands::NewPsbt"), ("signing", CLI + ": Commands::SignPsbt"), ("derivation", "silentpayments/src/send/bip352.rs")],
  "Exhaustive over the stated choices; every signature is verified against the prevouts and every output found by the reference scanner." + CLIPROG)
P("C31", "Keys, codes and replaced PSBT outputs of the command line wallet are right",
  "Generated descriptors hold the keys BIP352 prescribes for the network, a wallet's codes are those of its keys for every label, and creating a wallet never replaces one or stores a private key. Replacing the output of a PSBT by a silent payment yields the one BIP352 prescribes for all of its inputs and changes nothing else; where the keys of all inputs are not known or nobody would scan the transaction it is refused.",
  ["inputs", "configurations"],
  "all sequences of up to 2 (3) inputs of 13 kinds x outpoint order x 12 output lists x labels; all sequences of up to 3 (4) requests of 6 labels; 4 networks x 11 descriptors",
  "there is no test of the program; a wrong output is lost money and shows only for inputs with scripts, trees or other keys",
  [CLI, "silentpayments/src/send/bip32.rs"],
  [("replacing an output", CLI + ": Commands::ToSilentPayment"), ("keys", CLI + ": Commands::Generate, Commands::Init, get_sp_code_from_descriptors"), ("codes", CLI + ": Commands::Code")],
  "Exhaustive over the stated choices against an independent BIP352 model. Generated keys are random: one pair per execution." + CLIPROG)

CLI2 = "cli/v2/src/main.rs"
P("C32", "The second command line wallet's balance is that of the node's chain",
  "Whenever the v2 command line wallet has scanned, its balance and unspent outputs are those of what was paid to its keys and labels from its birthday on and is unspent on the node's chain, after any sequence of blocks, reorganisations and new labels. A node that grows, reorganises or fails in the middle of a scan, or a crash while the result is written, costs at most another scan: a scan which fails stores nothing, and no other balance is ever shown.",
  ["histories", "fault_sequences", "crash_points"],
  "every sequence of up to 3 (4) events out of 38 and of 5 (6) out of 9 with or without a scan after each; 4 birthdays x up to 5 (6) events out of 9; nodes shorter than the birthday; up to 2 (3) blocks arriving at every request of a scan; each request failing in each of 4 ways; every (quick: 7th) number of bytes written",
  "there is no test of the program; a block skipped after a reorganisation or a lookup which fails once loses a payment for good",
  [CLI2, WL, V2],
  [("scan", CLI2 + ": Commands::ScanRpc"), ("chain and blocks", WL + ": update_chain, apply_block_relevant"), ("balance", CLI2 + ": Commands::Balance"), ("stored changes", CLI2 + ": init_or_load")],
  "Explicit-state exploration of histories, request interleavings, faults and torn writes to the stated bounds against a model of the chain." + CLIPROG + " It is compiled against stand-ins for bdk-tx (git) and tracing-subscriber, which are not available offline.")
P("C33", "Payments of the second command line wallet are valid, exact and found",
  "Whatever the wallet holds and whomever it pays, on every network, the v2 command line wallet either declines a payment it cannot afford or a code of another network, or makes one which spends only its own unspent coins, pays every recipient the exact amount, carries the data and the fee rate asked for, and returns the rest to its own change code. The transaction printed is signed and valid, recipients find their outputs by scanning, and after the block the wallet's balance is right, also for a payment out of the result.",
  ["histories", "inputs", "configurations"],
  "8 histories x 7 recipients x 3 fee rates and data x amounts; every list of 2 to 3 (4) out of 7 recipients; 5 networks x 2 birthdays x 7 recipients x 5 code prefixes; wallets of up to 40 coins and of 9000 bitcoin x 9 fee rates x 12 kinds of data; 22 kinds of refusals",
  "there is no test of the program; an error shows only for some network, recipient or when no change is left",
  [CLI2, "silentpayments/src/send/psbt/mod.rs", "silentpayments/src/send/psbt/sign.rs"],
  [("payment", CLI2 + ": Commands::NewTx, create_tx"), ("derivation", "silentpayments/src/send/psbt/mod.rs: derive_sp"), ("signing", "silentpayments/src/send/psbt/sign.rs: sign_sp")],
  "Exhaustive over the stated choices; every signature is verified against the prevouts and every output found by the reference scanner." + CLIPROG + " The selection of coins is bdk-tx's and replaced by a stand-in's.")
P("C34", "Keys, codes and derived scripts of the second command line wallet are right",
  "A wallet created by the v2 program has the keys BIP352 prescribes for the descriptor it prints, and the network, birthday and first block asked for; creating never replaces a wallet. Its codes are those of its keys for every label, label 0 is never given out, and what is stored only grows by new labels. The scripts and secrets it derives for a transaction are those of BIP352, and requests which cannot be met print and store nothing.",
  ["inputs", "configurations"],
  "5 networks and the default x 3 birthdays x genesis given or not; all sequences of up to 3 (4) of 7 code requests; 14 transactions x 2 forms x 5 indices x 5 labels; 9 malformed requests with and without a wallet",
  "there is no test of the program; a code of a wrong network or label is lost money",
  [CLI2, WL, WS],
  [("creation", CLI2 + ": Commands::Create, init_or_load"), ("codes", CLI2 + ": Commands::Code; " + WL + ": get_labelled_address"), ("scripts", CLI2 + ": Commands::DeriveSpForTx")],
  "Exhaustive over the stated choices against an independent BIP352 model. Keys of a new wallet are random: one draw per execution." + CLIPROG)

P("C35", "The light client of the second command line wallet finds every payment",
  "After a scan against a node which serves block filters and a tweak server, the v2 command line wallet knows every payment to it and every spend of it in the blocks of the chain, over any sequence of blocks, reorganisations no deeper than seven blocks and scans, also if the chain changes during a scan. A scan ends: it succeeds, or it fails and stores nothing, if the node stops or a block cannot be had. The scan after it puts the wallet right.",
  ["histories", "fault_sequences", "schedules"],
  "sequences of up to 3 (4) blocks of 6 (12) contents and scans, 5 (6) of 4 (5); 5 pasts x 7 paddings x reorganisations of 1 to 7 blocks x 6 contents; chains changing after every message or block; node stopped or request dropped at every point; filters kept over 3 scans; every start height",
  "there is no test of the program; a lost payment shows only if a block is replaced at the wrong moment, or a request is dropped",
  [CLI2, "oracles/src/filters/kyoto.rs", "oracles/src/tweaks/blindbit.rs", WL],
  [("scan", CLI2 + ": Commands::ScanCbf"), ("filters", "oracles/src/filters/kyoto.rs: FilterSubscriber"), ("tweaks", "oracles/src/tweaks/blindbit.rs: BlindbitSubscriber"), ("wallet", WL + ": apply_block_relevant, unspent_spks")],
  "Exhaustive over the stated choices on the real program; its balance must be that of an independent model of wallet and chain. The peer to peer code (bip157) is replaced by a script which delivers filters, blocks and faults as asked." + CLIPROG)

NOT_APPLICABLE = []
NOTES = "No hooks in /repo: every check drives public APIs through path dependencies. run.sh rebuilds the harness against /repo's working tree (target in /verif/target, outside git) and runs one check; './run.sh <id> <tier> --replay <file>' replays a counterexample."
