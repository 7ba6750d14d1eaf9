#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and the list of checks in mc/src/checks/mod.rs"""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = re.search(r"pub const IDS.*?=\s*&\[(.*?)\]", open(f"{root}/mc/src/checks/mod.rs").read(), re.S).group(1)
ids = re.findall(r'"(\w+)"', ids)
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
SIM = ("Executes the real contract entry points of /repo on a simulated chain (bank, token factory, submessage "
       "rollback and replies, strict bech32 API); trusted: that simulation, cosmwasm-std/cw-storage-plus, and the "
       "reference specification written next to the check. Exhaustive within the stated alphabet and depth only.")
NOTE = {
 "C01": "All delivery histories over 13 pairwise close messages, 6 recipient behaviours including re-entrancy, batches and two callers to the stated depth; all single-bit neighbours of a delivered message; long linear histories.",
 "C02": "Full product of the inputs of the decision (module designation, verdict, version, destination, recipient outcome, byte skew, caller), all 256 versions, one-bit-apart domains, all lengths below a header, and all histories of module changes to depth 5.",
 "C03": "Product of address shapes (every zero-run around the 20/32-byte boundary), prefixes, domains and body lengths; all calls of the transaction are compared.",
 "C04": "All dispatch histories over 20+ actions (failing, nested, batched) to depth 4; field values; 66 000 consecutive dispatches.",
 "C05": "Full product of quotes, hook selections, failures, metadata and payments around the boundary, plus histories of hook settings.",
 "C06": "All pairs of one-level hook compositions in the required and selected role and nested compositions to depth 3; exact payment and every one-unit underpayment.",
 "C07": "Round trips, layout, injectivity and truncation for the message, warp body, multisig, aggregate and gas-payment codecs over wide field alphabets and every length/single-byte change; the public encoders of /repo are called directly.",
 "C08": "All address lengths and zero-run shapes, prefixes and corruptions of every character; both conversion directions through the /repo functions and through the contracts.",
 "I01": "All signature lists over validators, strangers, other-target digests, repeats and cut signatures up to the stated length, for every threshold/set shape; full metadata field skews; real secp256k1 signatures.",
 "I02": "All histories of set/unset operations over several domains, callers and malformed configurations to the stated depth.",
 "I03": "All member verdict combinations and section layouts for each threshold; creation and reconfiguration histories.",
 "I04": "All route histories and verdicts over close domains; nested routing modules; the verification-info query.",
 "I05": "Complete reachable state graph of pause/release/ownership for both contracts with enforcement probed in each state.",
 "H01": "All dispatch/post-dispatch histories to the stated depth and long linear histories, compared with an independent incremental tree (root, branch, count, checkpoint).",
 "H02": "All registration/clear/route histories of the three routing hooks with quotes and payments probed in each state.",
 "H03": "All member lists to three members of differing quotes/failures, and update histories; exact, under and over payments.",
 "H04": "All fee-setting, paying and claiming histories with boundary funds and several denominations.",
 "G01": "Product of gas, price, rate (including overflow boundaries), metadata shapes, funds around the price; payment and hook entry points; exact balances of every account.",
 "G02": "All histories of gas settings, routes, beneficiary changes and claims; listings of every page.",
 "G03": "All single/batch update histories over close domains, callers and zero rates.",
 "V01": "All announcement histories over validators, locations, signers and mutated digests to the stated depth; all single-field deviations; real signatures.",
 "W01": "Two-chain model with real mailboxes and routes on both sides and an in-flight message pool: all interleavings of transfers, deliveries in any order, replays, failed calls and direct calls to the stated depth, for native and cw20 routes.",
 "W02": "All enrolment histories with every (caller, origin, sender) combination tried in every state.",
 "W03": "Product of amounts at power-of-two and 128-bit boundaries, recipients, funds, hooks and metadata, in both directions.",
 "W04": "All histories of the three settings with incoming, outgoing and query behaviour probed in each state.",
 "A01": "In every reachable ownership state of every contract each administrative operation is tried by every account and contract of the system.",
 "A02": "Complete reachable graph of ownership states over five accounts for every contract, plus longer histories with other operations interleaved.",
 "A03": "All update histories of eleven route tables to the stated depth, with every query; all pages of tables of many sizes.",
 "A04": "Product of recorded name, recorded version (semver corner cases) and new code for all seventeen contracts.",
 "A05": "Product of owners, creators and boundary values of every creation parameter for all seventeen contracts, with every query and the enforcement of the setting probed; every malformed address in every address field.",
 "E01": "Every ordered selection of up to three of 28 actions in one transaction, all histories of single actions to depth 3 and of pairs to depth 2, with the exact events of every contract; products of payment, transfer, announcement and setting values.",
 "X02": "Compositions of the real security modules (all of one level, pairs of those, chains to depth 3/5, wide aggregates) x every set of signers x origins, and histories of reconfigurations of a nested system to depth 2/4; a relayer model reads only the queries and submits what it builds to the real mailbox.",
 "X03": "Two chains with real routes, merkle tree, charging hooks and composed modules: all pairs of route kinds x hook terms x ways to choose the hook x fee denominations x modules, each with all sets of signers, both orders of delivery and the way back, checked against the complete balance sheet; histories of transfers, deliveries and reconfigurations to depth 4/5 (both chains) and 5/7 (one direction).",
 "X01": "Two-chain model of the whole stack with real validator signatures over what the merkle hook's events say: all histories to depth 6 (one direction) and 4 (both); in every state every selection of available signatures and all forged or cross-used messages are submitted.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ids:
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick bash ./run.sh check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash ./run.sh check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "explicit-state model checking of the real contracts against a reference specification (exhaustive bounded enumeration of histories and inputs)",
            "level": "model_checking",
            "level_note": NOTE.get(i, "") + " " + SIM,
        })
    else:
        na.append({"property": i, "reason": "check still being built"})
m = {
    "version": 1,
    "setup_cmd": "bash ./run.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "run.sh builds mc/ (path dependencies on /repo) offline into mc/target and runs one check; 'run.sh replay <file>' replays a counterexample.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
