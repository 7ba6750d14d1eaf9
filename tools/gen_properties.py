#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

MB="contracts/core/mailbox/src/"
p("C01","A message is delivered at most once, and a failed attempt leaves no trace",
  "Whatever the order, nesting or repetition of delivery attempts by whatever callers and with whatever metadata, the mailbox calls the recipient of one message at most once; after a successful delivery the message is reported as delivered and every further attempt to deliver it fails. "
  "A failed attempt (security module refuses or errors, recipient fails, wrong version or destination) changes nothing: the message is still reported undelivered and can be delivered later. "
  "Delivering one message never marks a different message, even one differing in a single byte, as delivered.",
  ["histories","schedules","fault_sequences"],
  "every sequence (to the depth bound) of process calls over several colliding messages, callers, metadata, recipient/ISM failures and re-entrant process calls made from inside a recipient",
  "unit tests call process once or twice with mocked queries and never run the recipient; re-entrancy, rollback and retry are never executed",
  [MB+"execute.rs",MB+"query.rs",MB+"state.rs"],
  [("duplicate check and delivery record before verification and the handle call",MB+"execute.rs process"),("delivered query",MB+"query.rs get_delivered")],
  ["process transaction outcome","calls received by the recipient","mailbox message_delivered query"],
  [("DELIVERIES","ids already processed",MB+"state.rs")])
p("C02","Only messages its security module accepts, for this chain, are delivered",
  "A delivery succeeds only if the message is at least a full header long, carries protocol version 3, names the local domain as destination, and the security module that its recipient designates - or, when it designates none, the mailbox's current default module - accepts exactly the supplied metadata and message bytes. "
  "When all of that holds and the recipient accepts the call, delivery succeeds, whoever submits it and even if no default module is configured while the recipient designates its own. "
  "The recipient-module query names the module that is actually consulted.",
  ["inputs","configurations","histories"],
  "every combination of recipient-designated module, default module, module verdict (accept, reject, error, accept only the exact bytes), metadata, version byte, destination (all single-bit deviations and extremes) and message length around the header size, also after the owner changes the default module",
  "tests mock the ISM query with one canned verdict and use a handful of random messages; the selection and the binding of verdict to bytes are not exercised",
  [MB+"execute.rs",MB+"query.rs","packages/interface/src/ism/mod.rs"],
  [("version/destination checks, ISM selection and verify query",MB+"execute.rs process"),("recipient ISM query","packages/interface/src/ism/mod.rs recipient"),("recipient ISM report",MB+"query.rs get_recipient_ism")],
  ["process transaction outcome","queries received by security modules","recipient_ism query"])
p("C03","A delivered message reaches the named recipient exactly as it was sent",
  "On a successful delivery the account named by the message's recipient field is called exactly once, by the mailbox, with exactly the origin domain, the 32-byte sender and the body carried by the message, and with no funds. "
  "The delivery events report the message's id (the keccak-256 of its exact bytes), origin, sender and recipient, and no other account is called.",
  ["inputs","configurations"],
  "every combination of body lengths (0 to tens of kilobytes, around word boundaries) and contents, origin domain extremes and bit patterns, 20- and 32-byte senders and recipients, nonces",
  "tests use one 20-byte style random recipient and check the emitted sub-message only for it",
  [MB+"execute.rs",MB+"event.rs","packages/interface/src/types/message.rs","packages/interface/src/types/bech32.rs"],
  [("handle message construction",MB+"execute.rs process"),("decode","packages/interface/src/types/message.rs"),("recipient address conversion","packages/interface/src/types/bech32.rs bech32_encode")],
  ["handle call received by the recipient contract","mailbox_process and mailbox_process_id events"])
p("C04","Dispatched messages are numbered consecutively and say exactly what was asked",
  "Successful dispatches from a mailbox carry nonces 0, 1, 2 and so on without gap or repeat, and failed dispatches consume none. "
  "Each dispatched message has version 3, that nonce, the local domain as origin, the caller's own address as 32-byte sender, and the requested destination, recipient and body unchanged; a recipient that is not exactly 32 bytes is refused. "
  "The returned id, the dispatch events, the nonce and latest-dispatched queries and the message handed to both hooks all describe that same message.",
  ["histories","inputs","fault_sequences"],
  "every sequence (to the depth bound) of dispatches by several callers over destinations, recipients of every length 0..65, bodies, explicit hooks, failing hooks and hooks that re-enter dispatch, interleaved with owner changes",
  "tests dispatch once on a fresh mailbox and do not run the hooks; failure, re-entrancy and sequences are not covered",
  [MB+"execute.rs",MB+"query.rs","packages/interface/src/core/mailbox.rs","packages/interface/src/types/message.rs"],
  [("nonce and id commit before hooks",MB+"execute.rs dispatch"),("message construction","packages/interface/src/core/mailbox.rs DispatchMsg::to_msg")],
  ["dispatch response data and events","nonce and latest_dispatch_id queries","post_dispatch calls received by hooks"],
  [("NONCE","next nonce",MB+"state.rs"),("LATEST_DISPATCHED_ID","id of last dispatched message",MB+"state.rs")])
p("C05","Dispatch pays the required hook its quote and the selected hook all the rest",
  "Every successful dispatch calls the required hook first, attaching exactly the fee that hook quoted for this metadata and message, and then the selected hook - the one the caller requested, else the default - attaching all remaining funds; each is called once for its role, with the caller's metadata (empty when absent) and the dispatched message, and the mailbox keeps nothing. "
  "If the attached funds do not cover the required hook's quote in every denomination, or either hook fails, the dispatch fails and no balance, nonce or latest id changes.",
  ["inputs","configurations","histories"],
  "every combination of required-hook quotes (0..3 coins), attached funds below/equal/above per denomination, explicit or default selected hook (also equal to the required one), metadata, and failing hooks",
  "tests assert the generated sub-messages for two or three fee/funds combinations in one denomination and never execute them",
  [MB+"execute.rs","packages/interface/src/hook/mod.rs","packages/interface/src/core/mailbox.rs"],
  [("funds split",MB+"execute.rs dispatch"),("hook selection","packages/interface/src/core/mailbox.rs DispatchMsg::get_hook_addr"),("post dispatch call","packages/interface/src/hook/mod.rs post_dispatch")],
  ["post_dispatch calls (order, sender, funds, metadata, message)","bank balances"])
p("C06","Paying exactly the quoted fee is enough to dispatch, for any hook composition",
  "For every composition of the provided hooks (merkle, protocol fee, gas paymaster, pausable, aggregate and the three routing hooks, nested) as required, default or explicitly requested hook, the mailbox's quote for a dispatch equals the sum of what its hooks charge, and a dispatch that attaches exactly that quote succeeds. "
  "The fee-charging hooks inside the composition then hold exactly their fee and every other participant's balance is unchanged.",
  ["configurations","inputs"],
  "every composition to the nesting bound of leaf hooks (merkle, pausable, fee in two denominations with zero/small/large fee, gas paymaster with zero and non-zero price) under aggregate, routing, custom-routing and fallback-routing hooks, as required x selected hook, with and without metadata",
  "every test runs one hook contract alone with a mocked querier; no test ever composes two hooks or executes the messages they emit",
  [MB+"query.rs",MB+"execute.rs","contracts/hooks/aggregate/src/lib.rs","contracts/hooks/fee/src/lib.rs","contracts/hooks/routing/src/lib.rs","contracts/hooks/routing-custom/src/lib.rs","contracts/hooks/routing-fallback/src/lib.rs","contracts/igps/core/src/execute.rs","contracts/igps/core/src/query.rs"],
  [("total quote",MB+"query.rs quote_dispatch"),("forwarding of funds","contracts/hooks/routing*/src/lib.rs post_dispatch"),("fee check","contracts/hooks/fee/src/lib.rs execute"),("gas payment","contracts/igps/core/src/execute.rs pay_for_gas")],
  ["mailbox quote_dispatch query","dispatch outcome","bank balances of all accounts"])
p("C07","Wire formats round-trip, are injective and match the packed layout",
  "Encoding and decoding of interchain messages, token-transfer bodies, multisig metadata, aggregate metadata and gas-payment metadata are inverse to each other on well-formed values, and the bytes follow the published packed big-endian layout. "
  "The message id is the keccak-256 of the packed message, so two messages that differ in any field have different encodings and different ids. "
  "Truncated messages are never decoded into a value.",
  ["inputs"],
  "every combination of boundary and single-byte-distinguishable values per field, every truncated length, 0..33 signatures, 0..4 aggregate members with every mix of section lengths",
  "tests round-trip two fixed hex strings",
  ["packages/interface/src/types/message.rs","packages/interface/src/types/metadata.rs","packages/interface/src/warp/mod.rs","packages/interface/src/types/crypto.rs"],
  [("From conversions","packages/interface/src/types/{message,metadata}.rs, packages/interface/src/warp/mod.rs"),("id","packages/interface/src/types/message.rs Message::id")],
  ["hpl-interface public types","dispatch event bytes","verification outcome of metadata built by an independent encoder"])
p("C08","Account addresses and 32-byte identifiers convert without loss",
  "Converting any 20- or 32-byte account address to its 32-byte interchain form and back with the same chain prefix yields the same address; the 20-byte form is left-padded with zeroes and an identifier whose first 12 bytes are zero denotes the 20-byte account. "
  "Two different account addresses of one chain never convert to the same identifier unless one is the zero-padded form of the other, the result always carries the requested prefix and a valid checksum, and any other length or a corrupted address is refused.",
  ["inputs"],
  "every position of the first non-zero byte in 20- and 32-byte addresses, every length 0..64, several prefixes, every single-character corruption of sample addresses",
  "tests check four fixed addresses",
  ["packages/interface/src/types/bech32.rs"],
  [("encode/decode","packages/interface/src/types/bech32.rs")],
  ["hpl-interface address functions"])
MS="contracts/isms/multisig/src/"
p("I01","Multisig module accepts only with enough distinct validators' signatures",
  "The multisig module accepts a message only if at least the configured threshold of distinct validators enrolled for the message's origin domain signed exactly this checkpoint: origin domain, origin merkle-tree address, merkle root, leaf index and the message's id; repeated, re-encoded, foreign or otherwise-targeted signatures never count towards it. "
  "It does accept whenever the metadata consists of well-formed signatures among which the threshold of distinct enrolled validators is met, in whatever order and position they appear.",
  ["inputs","configurations"],
  "every multiset/sequence (to the length bound) over a signature alphabet of enrolled, duplicate, high-s re-encoded, unenrolled, enrolled-for-other-domain and wrong-digest signatures (each digest field altered), for every threshold and validator-set size to the bound, with real secp256k1 keys",
  "tests check one recorded signature with threshold one",
  [MS+"query.rs",MS+"lib.rs","packages/interface/src/types/crypto.rs","packages/interface/src/types/metadata.rs"],
  [("signature counting",MS+"query.rs verify_message"),("digest",MS+"lib.rs multisig_hash/domain_hash"),("recovery","packages/interface/src/types/crypto.rs")],
  ["verify query of the multisig ISM"])
p("I02","Validator sets are per domain, well-formed and only the owner changes them",
  "At any time the validator set and threshold reported for a domain, and used to verify messages from it, are those of the last successful configuration of that domain; configuring or removing one domain never affects another, and after removal messages from that domain are refused. "
  "A configuration is accepted only from the owner, with every validator 20 bytes long and a threshold between one and the number of validators; a refused one changes nothing.",
  ["histories","inputs"],
  "every sequence (to the depth bound) of set/remove over colliding domains (extremes, byte-swapped, one-bit-apart), set sizes, thresholds (0..n+1), address lengths and callers",
  "tests set one domain once and read it back",
  [MS+"contract.rs",MS+"query.rs",MS+"state.rs"],
  [("validation and storage",MS+"contract.rs execute"),("per-domain lookup",MS+"query.rs")],
  ["enrolled_validators, verify_info and verify queries"])
p("I03","Aggregate module accepts exactly when a threshold of its members accept",
  "The aggregate module accepts a message if and only if at least the configured threshold of its distinct members accept it, each judged on its own section of the metadata; a member that rejects or errors simply does not count, regardless of its position. "
  "Its threshold is always between one and the number of members: neither creation nor reconfiguration accepts anything else, and only the owner reconfigures.",
  ["configurations","inputs","histories"],
  "every assignment of accept/reject/error/section-dependent verdicts to up to 4-5 members, every threshold including 0 and n+1, every order of member addresses, every section layout (empty, short, long), before and after reconfiguration",
  "the aggregate ISM has no unit test at all",
  ["contracts/isms/aggregate/src/lib.rs","packages/interface/src/types/metadata.rs"],
  [("counting loop","contracts/isms/aggregate/src/lib.rs verify"),("section slicing","packages/interface/src/types/metadata.rs AggregateMetadata::from_hex"),("threshold validation","contracts/isms/aggregate/src/lib.rs instantiate/execute")],
  ["verify and isms queries","transaction outcome of instantiate and set_isms"])
p("I04","Routing module defers to the module set for the message's origin",
  "For a message from any origin domain the routing module gives exactly the verdict of the module last set by the owner for that origin, asked with the same metadata and message, and refuses messages from origins with no module (never set, or unset); the route and verification-info queries name and forward to that same module. "
  "Setting or unsetting one origin never affects another.",
  ["histories","inputs","configurations"],
  "every sequence (to the depth bound) of set/unset (single, multiple) over colliding domains and modules with every verdict, probed with messages from every domain",
  "tests set two routes once and check the route query only",
  ["contracts/isms/routing/src/contract.rs","contracts/isms/routing/src/state.rs"],
  [("per-origin lookup and forwarding","contracts/isms/routing/src/contract.rs query"),("owner-gated set/unset","contracts/isms/routing/src/contract.rs execute")],
  ["verify, verify_info and route queries"])
p("I05","Pausing blocks the pausable module and hook until released, and nothing else",
  "While paused, the pausable security module accepts no message and the pausable hook fails every dispatch that reaches it; while released the module accepts and the hook lets dispatches through at no cost. "
  "Only the owner can pause or release, pausing when paused or releasing when released fails, and the reported pause state is always the one enforced.",
  ["histories"],
  "every sequence (to the depth bound) of pause/release/ownership operations by owner and others from both initial states, probing verification, post-dispatch through the mailbox and queries in each state",
  "tests execute pause and release once in isolation",
  ["contracts/isms/pausable/src/lib.rs","contracts/hooks/pausable/src/lib.rs","packages/pausable/src/lib.rs"],
  [("pause flag","packages/pausable/src/lib.rs"),("gates","contracts/isms/pausable/src/lib.rs query, contracts/hooks/pausable/src/lib.rs execute")],
  ["verify query","dispatch through mailbox","pause_info query"])
p("H01","Merkle hook commits exactly the dispatched message ids, in order",
  "After any history the tree's count, root, branch and checkpoint are those of the incremental 32-level keccak merkle tree over the ids inserted so far in order, each insertion reports its index, and the sibling path of an inserted id recomputes the root at that index only. "
  "An id is inserted only while it is the mailbox's latest dispatched message; any other message, or any failing dispatch, leaves the tree unchanged.",
  ["histories","inputs"],
  "every sequence (to the depth bound) of dispatches through the mailbox with the merkle hook as required/default/nested hook, direct post-dispatch calls with latest, stale, forged and never-dispatched messages by anyone, and all leaf counts 0..N for the root/branch recurrence",
  "tests insert a single random leaf with a mocked mailbox",
  ["contracts/hooks/merkle/src/lib.rs","packages/interface/src/types/merkle.rs"],
  [("latest-id check and insert","contracts/hooks/merkle/src/lib.rs execute"),("incremental tree","packages/interface/src/types/merkle.rs MerkleTree")],
  ["count, root, branch, tree and check_point queries","inserted_into_tree events"],
  [("MESSAGE_TREE","incremental tree","contracts/hooks/merkle/src/lib.rs")])
p("H02","Routing hooks quote and call exactly the configured hook, forwarding funds",
  "For every message a routing hook quotes and calls exactly one hook: the custom hook registered for the message's destination and recipient if there is one (custom-routing variant), else the hook routed for its destination, else the fallback hook (fallback variant), else it fails. "
  "It passes on the same metadata and message and all funds it was given, keeps nothing, and registering, clearing or re-routing one destination or recipient never affects another.",
  ["histories","configurations","inputs"],
  "every sequence (to the depth bound) of route/custom/fallback changes (single and batch) over colliding domains and recipients, probing quote and post-dispatch for every (domain, recipient) pair with zero, one and two coins attached",
  "tests check the emitted event for one or two routes; funds and combined precedence are never checked",
  ["contracts/hooks/routing/src/lib.rs","contracts/hooks/routing-custom/src/lib.rs","contracts/hooks/routing-fallback/src/lib.rs","packages/router/src/lib.rs"],
  [("route selection","contracts/hooks/routing*/src/lib.rs route"),("forwarding","contracts/hooks/routing*/src/lib.rs post_dispatch/quote_dispatch"),("custom hook registry","contracts/hooks/routing-custom/src/lib.rs register/clear")],
  ["post_dispatch calls received by target hooks","quote_dispatch query","custom_hook(s) queries","bank balances"])
p("H03","Aggregate hook runs every member once and pays each exactly its quote",
  "The aggregate hook's quote is the per-denomination sum of its members' quotes for the same metadata and message; a post-dispatch calls every configured member exactly once, in order, with that metadata and message and exactly its own quoted fee, and fails as a whole if any member fails or cannot be paid. "
  "The member list is the last one set by the owner.",
  ["configurations","inputs","histories"],
  "every list of up to 4 members (with repetition) over hooks quoting none/one/two coins, failing and nested aggregates, every funding level, and reconfiguration histories",
  "the aggregate hook has no unit test at all",
  ["contracts/hooks/aggregate/src/lib.rs"],
  [("fan-out","contracts/hooks/aggregate/src/lib.rs execute"),("sum","contracts/hooks/aggregate/src/lib.rs quote_dispatch")],
  ["post_dispatch calls received by members","quote_dispatch and hooks queries","bank balances"])
p("H04","Protocol fee hook charges the current fee and pays out only to its owner's order",
  "The fee hook's quote and fee query always give the fee last set by the owner; a post-dispatch succeeds if and only if it attaches only that denomination and at least that amount (nothing is required when the fee is zero), and the hook keeps what was attached. "
  "Only the owner can claim, and a claim moves the hook's entire balance to the named recipient, or to the owner when none is named.",
  ["histories","inputs"],
  "every sequence (to the depth bound) of set-fee, post-dispatch with every funding level and denomination mix, claim with/without recipient, ownership hand-over and non-owner attempts",
  "tests check three isolated calls without moving any coins",
  ["contracts/hooks/fee/src/lib.rs"],
  [("fee check and claim","contracts/hooks/fee/src/lib.rs execute"),("quote","contracts/hooks/fee/src/lib.rs quote_dispatch")],
  ["post_dispatch and claim outcomes","bank balances","fee and quote_dispatch queries"])
IG="contracts/igps/core/src/"
p("G01","Gas payments charge exactly the oracle price and refund every excess",
  "The price of delivering with a given gas amount to a destination is gas x gas price x exchange rate / 10^10 rounded down, using the oracle routed for that destination, and the payment quote, the hook quote and what is actually charged always agree; overflowing prices are refused, never wrapped or truncated. "
  "A payment succeeds if and only if only the gas token is attached and it covers the price (nothing is needed for a zero price); exactly the excess is refunded - to the refund address in the metadata when it has 20 or 32 bytes, else to the message sender - and the paymaster keeps exactly the price. "
  "The gas amount is the metadata's when it holds one, else the destination's configured gas, else the default.",
  ["inputs","configurations"],
  "every combination of gas amount, gas price and exchange rate over boundary values up to 2^128/2^256, attached amount below/at/above the price and other denominations, every metadata length 0..97 and refund address shape (leading zeroes, 20/32 bytes), both entry points",
  "tests cover one price and four payments with mocked oracle and never move coins",
  [IG+"execute.rs",IG+"query.rs",IG+"lib.rs","packages/interface/src/types/metadata.rs"],
  [("charge and refund",IG+"execute.rs pay_for_gas/post_dispatch"),("price",IG+"query.rs quote_gas_price"),("metadata","packages/interface/src/types/metadata.rs IGPMetadata")],
  ["pay_for_gas and post_dispatch outcomes","bank balances","quote_gas_payment and quote_dispatch queries"])
p("G02","Paymaster gas settings and beneficiary follow the owner; claims move all fees",
  "The default gas, per-destination gas overrides, per-destination oracle routes and beneficiary reported by queries and used in quotes are always those last set by the owner; setting or removing one destination never affects another, and listings show every override once in domain order within the requested page. "
  "Only the current beneficiary can claim, and a claim moves the paymaster's whole gas-token balance to it and nothing else.",
  ["histories","inputs"],
  "every sequence (to the depth bound) of default/override/unset/beneficiary/route changes over colliding domains, payments and claims by owner, beneficiary, former beneficiary and strangers; listings with every offset, limit and order",
  "tests check each setter once in isolation",
  [IG+"execute.rs",IG+"query.rs",IG+"contract.rs"],
  [("setters and claim",IG+"execute.rs"),("lookups and listing",IG+"query.rs")],
  ["default_gas, gas_for_domain, list_gas_for_domains, beneficiary, quote queries","claim outcome and bank balances"])
p("G03","Gas oracle serves the last owner-set data per domain, never a zero exchange rate",
  "For every destination the oracle returns exactly the gas price and exchange rate last set by the owner through either the single or the batch update, and fails for a destination never configured; updating one destination never affects another. "
  "An update that contains a zero exchange rate, or comes from anyone but the owner, is refused as a whole and changes nothing.",
  ["histories","inputs"],
  "every sequence (to the depth bound) of single and batch updates over colliding domains and boundary values, including zero rates at every batch position and repeated domains, by owner and others",
  "tests write one domain once and read it back",
  ["contracts/igps/oracle/src/contract.rs","contracts/igps/oracle/src/state.rs"],
  [("validation","contracts/igps/oracle/src/contract.rs execute"),("storage","contracts/igps/oracle/src/state.rs")],
  ["get_exchange_rate_and_gas_price query","update outcome"])
p("V01","Announcements are recorded only with the validator's own signature, once",
  "A storage location is recorded for a validator if and only if the announcement carries a 20-byte validator address and a signature by that validator's key over exactly this mailbox, this local domain and this location, and the same pair was not recorded before; any refused announcement changes nothing and does not block a later valid one. "
  "Queries return exactly the announced validators and, per validator, its locations in announcement order.",
  ["histories","inputs"],
  "every sequence (to the depth bound) of announcements over validators, locations (empty, prefixes of each other, non-ASCII) and signatures (valid, by another key, for another location/domain/mailbox, altered v, truncated, replayed), with real secp256k1 keys",
  "tests replay two recorded announcements",
  ["contracts/core/va/src/contract.rs","contracts/core/va/src/state.rs"],
  [("replay protection, digest, recovery","contracts/core/va/src/contract.rs announce"),("listing","contracts/core/va/src/contract.rs get_announce/get_validators")],
  ["announce outcome","get_announce_storage_locations and get_announced_validators queries"])
WN="contracts/warp/native/src/"; WC="contracts/warp/cw20/src/"
p("W01","Warp routes conserve value: synthetic supply plus in-flight equals collateral",
  "Across a collateral warp route and a synthetic (bridged) warp route on another chain, for native and cw20 tokens alike, at every moment the collateral locked equals the synthetic supply plus the amounts of transfers dispatched but not yet delivered, in both directions (not counting tokens that holders give to a route or destroy themselves). "
  "No sequence of transfers, deliveries in any order, replays, failures or direct calls by anyone lets more be released or minted than was locked or burnt, and no transfer loses or creates value for any account.",
  ["histories","schedules","fault_sequences"],
  "every interleaving (to the depth bound) of transfers in both directions by several users, deliveries in any order, duplicate deliveries, failing transfers/deliveries, forged handle calls and direct token operations, on two simulated chains",
  "unit tests inspect the messages of one call on one side; no test ever connects two routes or moves tokens",
  [WN+"contract.rs",WN+"conv.rs",WC+"contract.rs",WC+"conv.rs","packages/interface/src/warp/mod.rs"],
  [("lock/burn on transfer",WN+"contract.rs transfer_remote, "+WC+"contract.rs transfer_remote"),("release/mint on handle",WN+"contract.rs mailbox_handle, "+WC+"contract.rs mailbox_handle")],
  ["bank and cw20 balances and supply on both chains","dispatched and delivered messages"])
p("W02","A warp route releases or mints tokens only for its mailbox and enrolled router",
  "An incoming transfer is honoured only if the call comes from the route's mailbox and the message's sender is exactly the remote router currently enrolled for the message's origin domain; anything else - another caller, another or no longer enrolled router, another domain, the same router under another domain - fails and moves, mints or burns nothing. "
  "Outgoing transfers go only to the router currently enrolled for the destination, and fail when there is none.",
  ["histories","inputs","configurations"],
  "every sequence (to the depth bound) of enrolment changes (set, replace, remove, batch) over colliding domains and routers, probing handle with every (caller, origin, sender) triple and transfers to every domain, for all four route kinds",
  "tests check one matching and two non-matching triples on an unconfigured token",
  [WN+"contract.rs",WC+"contract.rs","packages/router/src/lib.rs"],
  [("mailbox and router checks",WN+"contract.rs mailbox_handle, "+WC+"contract.rs mailbox_handle"),("destination lookup",WN+"contract.rs transfer_remote, "+WC+"contract.rs transfer_remote")],
  ["handle and transfer_remote outcomes","token balances and supply","dispatched messages"])
p("W03","A warp transfer takes exactly the amount and credits exactly it to the recipient",
  "A successful outgoing transfer takes exactly the stated amount from the caller (burning or locking it), forwards all other attached coins to the mailbox with the requested hook - or the route's configured hook when none is requested - and metadata, and dispatches to the enrolled router a body that decodes to exactly the given 32-byte recipient and amount; it fails if the recipient is not 32 bytes or the amount is not available. "
  "A successful incoming transfer credits exactly the amount in the body to exactly the recipient in the body, for the whole 128-bit range; larger amounts are refused.",
  ["inputs","configurations"],
  "every combination of recipient length 0..96, amount (0, 1, word boundaries, maximum, beyond 128 bits), attached coins (token alone, with fees in the same/other denominations, missing, insufficient), allowance, hook and metadata choices, recipients of both address forms, for all four route kinds",
  "tests use one random 32-byte recipient and amount 100 and do not execute the emitted messages",
  [WN+"contract.rs",WN+"conv.rs",WC+"contract.rs",WC+"conv.rs","packages/interface/src/warp/mod.rs"],
  [("payload construction and funds split",WN+"contract.rs transfer_remote, "+WC+"contract.rs transfer_remote"),("amount conversion",WN+"conv.rs to_uint128, "+WC+"conv.rs to_uint128")],
  ["dispatched message body and funds","token balances before/after"])
p("W04","Warp routes use the mailbox, hook and security module their owner set",
  "After the owner sets a warp route's mailbox, hook or security module, that value is what queries report and what the route uses from then on: incoming transfers are honoured only from that mailbox and outgoing ones go to it, transfers without an explicit hook use that hook, and the security module offered to the mailbox is that module. "
  "Before any is set, the mailbox given at creation is used and no hook or module is named; each setting is independent of the others.",
  ["histories","configurations"],
  "every sequence (to the depth bound) of the three settings over two values each by owner and others, probing queries, incoming and outgoing transfers in every state, for all four route kinds",
  "tests never call these settings on a warp route",
  [WN+"contract.rs",WC+"contract.rs","packages/connection/src/lib.rs"],
  [("settings","packages/connection/src/lib.rs handle"),("use",WN+"contract.rs, "+WC+"contract.rs")],
  ["connection and ism_specifier queries","dispatch call made by the route","handle outcome"])
ALLC=["contracts/core/mailbox/src/execute.rs","contracts/hooks","contracts/igps","contracts/isms","contracts/warp","packages/ownable/src/lib.rs","packages/pausable/src/lib.rs","packages/router/src/lib.rs","packages/connection/src/lib.rs"]
p("A01","Privileged operations of every contract work for the current owner only",
  "In every contract, each administrative operation (default module and hooks, hook and module lists, validators, routes, custom hooks, fees, gas settings, oracle data, beneficiary, pause, connection settings, fee claim) succeeds for the current owner and fails for everyone else - including former owners, nominated but not yet confirmed owners, the deployer, the beneficiary and other contracts of the system - leaving the contract's state and all balances unchanged. "
  "This holds after any history of ownership transfers.",
  ["histories","configurations"],
  "every administrative operation of every contract x every kind of caller x every ownership state reachable by transfer/claim/revoke sequences (to the depth bound)",
  "tests try one non-owner per operation on a freshly created contract",
  ALLC,
  [("owner check","packages/ownable/src/lib.rs get_owner and each execute handler")],
  ["operation outcome","all query answers and balances before/after"])
p("A02","Ownership changes hands only by nomination and acceptance",
  "A contract's owner changes only when the account nominated by the current owner itself accepts; at most one nomination is pending, only the owner can nominate or revoke, and a revoked or completed nomination gives no further rights. "
  "The owner and pending-owner queries always report this state, and exactly one account is owner at every moment.",
  ["histories"],
  "every sequence (to the depth bound) of nominate/revoke/accept by every account with every nominee (self, owner, stranger, invalid), in every ownable contract",
  "tests check each step once from a fixed state in the library only",
  ["packages/ownable/src/lib.rs"],
  [("two-step transfer","packages/ownable/src/lib.rs handle")],
  ["get_owner and get_pending_owner queries of every contract","operation outcome"])
p("A03","Route tables answer with the last value set, and listings page through all of it",
  "For every domain the route query of every routing contract returns the value last set, or none when it was never set or was cleared; single and batch updates agree, a batch applies its entries in order and entirely or not at all, and changing one domain never affects another. "
  "Listings return entries in strictly ascending or descending domain order, starting after the given offset, at most the requested number (10 by default, more than 30 refused), so that following pages visits every domain exactly once.",
  ["histories","inputs"],
  "every sequence (to the depth bound) of single/batch set and clear over colliding domains (extremes, byte-order traps), and every offset x limit x order over tables of 0..35 entries, in every contract that embeds a route table and in the other paged listings",
  "tests list three routes from one fixed table in the library only",
  ["packages/router/src/lib.rs","packages/interface/src/lib.rs","contracts/hooks/routing-custom/src/lib.rs","contracts/igps/core/src/query.rs"],
  [("map update","packages/router/src/lib.rs set_route/set_routes"),("paging","packages/interface/src/lib.rs range_option")],
  ["get_route, list_routes and domains queries","custom_hooks and list_gas_for_domains queries"])
p("A04","Migration only moves a contract forward and touches nothing else",
  "A migration succeeds if and only if the recorded contract name is the same as the new code's and the recorded version is strictly older by semantic-version order; on success exactly the recorded version changes to the new one and all other state, query answers and balances are preserved, and on failure nothing changes. "
  "This holds for every contract, so a second migration to the same version always fails.",
  ["inputs","configurations","histories"],
  "every contract x every recorded (name, version) over names of all contracts and a version alphabet with pre-release, build, multi-digit and malformed versions, on populated state",
  "one test of the library function with three versions",
  ["packages/utils/src/lib.rs","contracts"],
  [("version check","packages/utils/src/lib.rs migrate"),("per-contract entry point","migrate in every contract")],
  ["migrate outcome","contract_info","raw state and query answers before/after"])
p("A05","Creating a contract establishes exactly what was asked, for the named owner",
  "A newly created contract belongs to exactly the owner the creation message names, whoever created it, with no nomination pending; every setting named (prefix, domain, mailbox, fee, gas token, default gas, beneficiary, pause state, members and threshold, modules per origin, token and mode) is from then on what queries report and what the contract enforces, and everything not named is unset. "
  "A synthetic warp route is the sole unlimited minter and administrator of its new, empty token, whatever minter the message names, and a native one registers exactly the given metadata. "
  "A creation that names an invalid address in any place, a threshold outside one to the number of members, or (mailbox, paymaster) a prefix that is not lower case is refused and leaves nothing behind.",
  ["inputs","configurations"],
  "every contract x accounts of every shape as owner, creator, mailbox and beneficiary x boundary values of every creation parameter; every malformed address (every single-character corruption, foreign prefixes, cuts, case changes) in every address field",
  "tests instantiate each contract once with fixed values and mostly look at the event",
  ["contracts","packages/ownable/src/lib.rs"],
  [("creation of every contract","instantiate in every contract"),("token reply","contracts/warp/*/src/contract.rs reply")],
  ["creation outcome","every query of the new contract","operations on the new contract"])
p("E01","Events report exactly what a transaction did, with the values that took effect",
  "For everyone who only watches the chain: every action that takes effect - a dispatch, an insertion into the tree, a gas payment (payer, destination, message id, gas amount, price, refund and amount received), a protocol fee, a claim of gas fees, a validator announcement, a delivery, an outgoing or incoming token transfer (who, to whom, which token, how much), a change of owner, pause state or configuration - is reported by exactly one event of the contract concerned, in the order in which they happened and with exactly the values that took effect. "
  "Actions that fail, even inside a transaction that succeeds, are not reported, and nothing is reported that did not happen.",
  ["histories","inputs"],
  "every combination and order of actions within one transaction and over several, with failing ones between; every amount of the 128-bit range, domain, account shape and location",
  "tests look at single attributes of single calls; off-chain agents (relayers, validators, indexers) act on nothing but these events",
  [MB+"event.rs","contracts/igps/core/src/event.rs","contracts/igps/core/src/execute.rs","contracts/hooks/merkle/src/lib.rs","contracts/core/va/src/contract.rs","contracts/warp/native/src/contract.rs","contracts/warp/cw20/src/contract.rs","packages/ownable/src/lib.rs","packages/pausable/src/lib.rs","packages/router/src/lib.rs","packages/connection/src/lib.rs"],
  [("gas payments","contracts/igps/core/src/execute.rs pay_for_gas"),("token transfers","contracts/warp/*/src/contract.rs transfer_remote, mailbox_handle"),("announcements","contracts/core/va/src/contract.rs announce")],
  ["events of every contract in committed transactions"])
p("X01","End to end, only dispatched messages arrive, and each can be delivered once",
  "Between two chains running these contracts (mailbox, merkle tree hook, routing, aggregate, multisig and pausable modules), when fewer than the threshold of enrolled validators are corrupt and the others sign only the root, index and id of each insertion the merkle hook's events and checkpoint report, then whatever untrusted relayers submit, a message is delivered only if exactly that message was dispatched on the other chain to this one, and at most once. "
  "Every dispatched message becomes deliverable as soon as a threshold of currently enrolled validators signed its insertion, whatever else was dispatched, delivered, refused or reconfigured in between, and stays so until it is delivered, the validators are changed or the module is paused.",
  ["histories","schedules","inputs"],
  "every interleaving (to the depth bound) of dispatches (single, batched, failing, to third domains), signing, deliveries in any order, pausing and validator changes on both chains; in every state every selection of the available signatures and every forged or cross-used message",
  "no test runs two contracts of this chain together; the checkpoint a validator would sign is never derived from the hook's output",
  [MB+"execute.rs","contracts/hooks/merkle/src/lib.rs","packages/interface/src/types/merkle.rs","contracts/isms/multisig/src/query.rs","contracts/isms/aggregate/src/lib.rs","contracts/isms/routing/src/contract.rs","contracts/hooks/aggregate/src/lib.rs"],
  [("dispatch and delivery",MB+"execute.rs"),("insertion and its events","contracts/hooks/merkle/src/lib.rs post_dispatch"),("verdict","contracts/isms/multisig/src/query.rs verify_message")],
  ["insertion events and checkpoint query on the sending chain","delivery outcome and recipient calls on the receiving chain"])
p("X02","Composed security modules decide by their parts, and queries tell how to pass",
  "For every composition of the provided security modules (multisig, aggregate, routing and pausable, nested in any way) as default or recipient's own module, and after any reconfiguration of any part, a message is accepted exactly when the composition as currently configured says so: a multisig part when its threshold of validators for the message's origin signed, an aggregate when its threshold of members accept, a routing part when the module it has for the origin does, a pausable part while released. "
  "A relayer who follows nothing but the recipient-module, module-type, verification-info and route queries, and holds a given set of signatures, can build metadata that is accepted whenever those signatures suffice, and is never told that less suffices.",
  ["configurations","inputs","histories"],
  "every composition to a depth bound x every set of signing validators x configured and unconfigured origins; every sequence of reconfigurations of a nested system to a depth bound",
  "no test nests real security modules, and none builds metadata from what the queries answer",
  ["contracts/isms","packages/interface/src/types/metadata.rs",MB+"query.rs",MB+"execute.rs"],
  [("aggregate verdict and information","contracts/isms/aggregate/src/lib.rs verify, verify_info"),("routing","contracts/isms/routing/src/contract.rs query"),("multisig information","contracts/isms/multisig/src/query.rs get_verify_info")],
  ["module-type, verification-info and route queries","verdict and delivery outcome"])
p("X03","A token transfer costs its quote, arrives once, in full, when attested",
  "Over two complete deployments (token routes, mailbox, merkle tree, hooks that charge, composed security modules), a holder with exactly the amount and what the mailbox quotes for the route can transfer, with any choice of hook (default, named with the transfer, set on the route), in any fee denomination including the token itself; with one coin less of anything nothing happens at all. Each hook then holds exactly its charge and nobody else's balance has changed. "
  "The transfer arrives, exactly once and in any order with others, precisely when enough validators sign what the merkle hook reported for it and the modules accept; then exactly the amount is credited to the recipient and to nobody else. When everything has been sent back, all balances and synthetic supplies are as at the start, except for the fees, which their owners can claim to the last coin. This holds through changes of fees, validators, pauses and enrolled routes.",
  ["configurations","inputs","histories"],
  "every pair of route kinds x hook compositions in both roles x ways to choose the hook x fee denominations x module compositions x sets of signers x orders of delivery; every history of transfers, deliveries and reconfigurations to a depth bound",
  "no test connects routes, charging hooks, the tree and security modules; each is tested against stubs of the others",
  ["contracts/warp","contracts/core/mailbox","contracts/hooks","contracts/igps","contracts/isms"],
  [("transfer","contracts/warp/*/src/contract.rs transfer_remote, mailbox_handle"),("dispatch and quote",MB+"execute.rs dispatch, query.rs quote_dispatch"),("checkpoint","contracts/hooks/merkle/src/lib.rs post_dispatch")],
  ["every balance and supply on both chains","quote","delivery outcome"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
