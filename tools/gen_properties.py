#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))

MB='contracts/core/mailbox/src/'
prop('C01','Dispatch assigns consecutive nonces and commits to the exact message',
 "Every successful dispatch uses the next consecutive nonce (starting at 0) and produces the message made of protocol version 3, that nonce, the local domain, the caller's address left-padded to 32 bytes, and the requested destination, 32-byte recipient and body. The returned id, the emitted id, the latest-dispatched-id query and the message handed to both hooks all commit to exactly those bytes (id = keccak256 of the encoding), so no two dispatches ever share an id. A dispatch that fails for any reason changes neither nonce, latest id nor any balance.",
 ['histories','inputs','fault_sequences'],
 'For every interleaving of dispatches by any callers with any destination, recipient, body, hook override, metadata and funds, including failing hooks, re-entrant hooks and configuration changes in between.',
 'Unit tests dispatch a single message against mocked storage and a mocked querier; no test runs a history, a failing or re-entrant hook, or checks the nonce/id relation over several dispatches.',
 [MB+'execute.rs',MB+'query.rs',MB+'state.rs','packages/interface/src/core/mailbox.rs','packages/interface/src/types/message.rs'],
 [('dispatch builds the message, bumps the nonce and records the id before calling hooks',MB+'execute.rs: dispatch'),('message construction',"packages/interface/src/core/mailbox.rs: DispatchMsg::to_msg")],
 [('nonce','next nonce to use',MB+'state.rs: NONCE'),('latest dispatched id','id of the last dispatched message',MB+'state.rs: LATEST_DISPATCHED_ID')],
 ['dispatch response data','mailbox_dispatch and mailbox_dispatch_id events','nonce and latest_dispatch_id queries','post_dispatch calls received by hooks'])
prop('C02','Each inbound message is delivered at most once',
 "A message id whose processing succeeded is reported as delivered forever and can never be processed successfully again, whatever metadata is supplied, whoever relays it, and however the default verification module changes in between. This also holds when the recipient re-enters the mailbox while handling the message. A message whose processing failed is not marked as delivered and can still be delivered later.",
 ['histories','inputs','fault_sequences'],
 'For every history of process calls over a pool of messages (repeats, other relayers, other metadata, re-entrant and failing recipients, changing modules).',
 'Existing tests process single messages and one hand-written repeat at the handler level, with no recipient execution, so neither re-entrancy nor rollback after a failing recipient is reachable.',
 [MB+'execute.rs',MB+'query.rs',MB+'state.rs'],
 [('delivery record is written before the recipient is called and checked first',MB+'execute.rs: process')],
 [('deliveries','ids that were delivered',MB+'state.rs: DELIVERIES')],
 ['process transaction result','message_delivered query','handle calls received by recipients'])
prop('C03','Only messages approved by the responsible module reach a recipient',
 "A recipient is invoked if and only if the processed bytes carry protocol version 3 and the local domain as destination, were not delivered before, and the responsible verification module - the recipient's own choice if it names one, otherwise the mailbox default - approves exactly those bytes with exactly the relayer's metadata. The recipient invoked is the one encoded in the message, it is called exactly once by the mailbox with the message's origin, sender and body, without funds, and the delivery events carry the same id, origin, sender and recipient. Any other call has no effect.",
 ['inputs','histories','configurations'],
 'For every message (valid or with any field altered or truncated), metadata, verdict of the responsible and the other modules, and choice of module by the recipient.',
 'Existing tests mock the module as a constant and never check that the module saw the same bytes, that the right module was asked, or what the recipient finally receives.',
 [MB+'execute.rs',MB+'query.rs','packages/interface/src/ism/mod.rs','packages/interface/src/types/message.rs','packages/interface/src/types/bech32.rs'],
 [('version, destination, replay and module checks precede the handle call',MB+'execute.rs: process'),('module lookup','packages/interface/src/ism/mod.rs: recipient'),('verification query','packages/interface/src/ism/mod.rs: verify')],
 [('config','default module, local domain, hrp',MB+'state.rs: CONFIG')],
 ['process transaction result','handle calls received by recipients','mailbox_process and mailbox_process_id events','recipient_ism query'])
prop('C04','Dispatch pays each hook its share and keeps nothing',
 "A successful dispatch calls the required hook first with exactly the fee that hook quotes for this message, and then the chosen hook (the caller's override, otherwise the default) with everything else the caller attached; both get the same message and metadata, and the mailbox balance does not change. A dispatch whose funds do not cover the required hook's quote in every denomination fails without effect.",
 ['inputs','configurations','histories'],
 'For every set of attached coins (several denominations, exact, short, surplus), quoted fee list, hook override and metadata.',
 'Existing tests cover a handful of single-denomination fee cases against a mocked querier and never execute the hook messages or look at balances.',
 [MB+'execute.rs','packages/interface/src/hook/mod.rs','packages/interface/src/core/mailbox.rs'],
 [('quote, subtract, forward remainder',MB+'execute.rs: dispatch'),('hook choice','packages/interface/src/core/mailbox.rs: DispatchMsg::get_hook_addr')],
 [],['funds and payload of the post_dispatch calls','mailbox bank balance','dispatch result'])
prop('C05','Paying the quoted dispatch fee is always sufficient',
 "If the mailbox quotes a fee for a dispatch, then dispatching the same request with exactly the quoted coins succeeds, for any tree of fee, gas-paymaster, merkle, pausable (not paused), aggregate and routing hooks installed as required, default or override hook. The quote equals the sum over the required and the chosen hook of what each charges: a fixed fee for a fee hook, the gas cost for a paymaster, the sum of children for an aggregate, and the routed hook's fee for routing hooks.",
 ['configurations','inputs'],
 'For every hook tree up to a depth and width bound, fee setting including zero, gas limit, oracle data and message.',
 'Existing tests check each hook alone with mocked neighbours, so the agreement between what a composed quote promises and what execution demands is never exercised.',
 [MB+'execute.rs',MB+'query.rs','contracts/hooks/aggregate/src/lib.rs','contracts/hooks/fee/src/lib.rs','contracts/hooks/routing/src/lib.rs','contracts/hooks/routing-custom/src/lib.rs','contracts/hooks/routing-fallback/src/lib.rs','contracts/igps/core/src/query.rs','contracts/igps/core/src/execute.rs'],
 [('mailbox quote sums the two hooks',MB+'query.rs: quote_dispatch'),('aggregate quote and payout','contracts/hooks/aggregate/src/lib.rs'),('funds forwarding of routing hooks','contracts/hooks/routing*/src/lib.rs: post_dispatch')],
 [],['quote_dispatch query','dispatch result','balances of all hooks after the dispatch'])
prop('C06','Message encoding is exact, injective and reversible',
 "Encoding a message yields version (1 byte), nonce, origin domain (4 bytes, big endian each), sender (32), destination domain (4), recipient (32) and body, and decoding any byte string of at least 77 bytes and encoding it again returns the same bytes; decoding an encoding returns the same message. The message id is keccak256 of that encoding, and byte strings shorter than 77 bytes are never accepted as a message.",
 ['inputs'],'For every message and every byte string.',
 'Existing tests use two fixed vectors.',
 ['packages/interface/src/types/message.rs','packages/interface/src/types/crypto.rs'],
 [('encoder and decoder','packages/interface/src/types/message.rs: From impls'),('id','packages/interface/src/types/message.rs: Message::id')],
 [],['encoded bytes','decoded fields','message id'])
prop('C07','Address conversion between bech32 and 32-byte form is lossless',
 "A 20-byte or 32-byte account address converted to the 32-byte wire form is its raw bytes left-padded with zeroes, and converting back with the same prefix yields the original address (32-byte values whose first 12 bytes are zero denote 20-byte addresses). Raw values of any other length and malformed bech32 strings are rejected, and distinct raw addresses never map to the same address string.",
 ['inputs'],'For every raw address, prefix and string.',
 'Existing tests convert about ten fixed addresses.',
 ['packages/interface/src/types/bech32.rs'],
 [('padding','packages/interface/src/types/bech32.rs: bech32_to_h256'),('decode / encode','packages/interface/src/types/bech32.rs: bech32_decode, bech32_encode')],
 [],['converted values'])
prop('C08','The incremental merkle tree equals the full depth-32 tree',
 "After any sequence of inserted leaves the tree's root equals the root of the full binary keccak256 tree of depth 32 over those leaves padded with zero leaves, and its count equals the number of leaves. A leaf's genuine inclusion branch yields that root and a branch with any altered sibling, leaf or index does not. A tree that already holds the maximum of 2^32-1 leaves refuses further leaves and stays unchanged.",
 ['histories','inputs'],'For every sequence of leaves and every branch/index.',
 'Existing tests check the zero hashes and one hash concatenation; no test inserts leaves and compares a root with a reference.',
 ['packages/interface/src/types/merkle.rs'],
 [('insert','packages/interface/src/types/merkle.rs: MerkleTree::insert'),('root','packages/interface/src/types/merkle.rs: MerkleTree::root_with_ctx'),('branch root','packages/interface/src/types/merkle.rs: MerkleTree::branch_root')],
 [('branch, count','frontier and number of leaves','packages/interface/src/types/merkle.rs: MerkleTree')],
 ['root, count, branch_root'])
prop('C09','The merkle hook commits to dispatched messages in dispatch order',
 "The merkle hook inserts a message only while it is the latest message its mailbox dispatched and rejects any other message from anyone without effect; dispatching through it inserts exactly that message id as the next leaf and announces the leaf's index. Its root, count, branch and tree queries always agree with the reference tree over the ids inserted so far, and its checkpoint is that root with the index of the last leaf (count minus one, 0 when empty).",
 ['histories','inputs'],'For every history of dispatches and direct calls with current, stale, forged or truncated messages, by any caller.',
 'Existing tests insert one or two messages with a mocked mailbox and compare with the same implementation.',
 ['contracts/hooks/merkle/src/lib.rs','packages/interface/src/types/merkle.rs',MB+'query.rs'],
 [('latest-dispatched check and insert','contracts/hooks/merkle/src/lib.rs: execute'),('queries','contracts/hooks/merkle/src/lib.rs: get_tree_*')],
 [('message tree','inserted ids','contracts/hooks/merkle/src/lib.rs: MESSAGE_TREE')],
 ['count, root, branch, tree, check_point queries','inserted_into_tree and post_dispatch events'])
prop('C10','Multisig verification needs a threshold of distinct enrolled signers',
 "For a message from an origin domain, verification answers true if and only if the well-formed 65-byte signatures in the metadata include signatures by at least the threshold number of distinct validators currently enrolled for that origin domain, each over exactly this checkpoint: the digest of origin domain, the metadata's merkle tree address, root and index, and this message's id. Duplicated signatures, outsiders, validators of other domains and signatures over any other value never count, and malformed metadata never verifies.",
 ['inputs','configurations','histories'],
 'For every validator set, threshold, history of enrolment changes, message, checkpoint and list of signatures (valid, duplicated, foreign, wrong domain, tampered, malformed).',
 'Existing tests use one fixed message with one or two fixed signatures.',
 ['contracts/isms/multisig/src/query.rs','contracts/isms/multisig/src/lib.rs','contracts/isms/multisig/src/contract.rs','packages/interface/src/types/metadata.rs','packages/interface/src/types/crypto.rs'],
 [('signature counting','contracts/isms/multisig/src/query.rs: verify_message'),('digest','contracts/isms/multisig/src/lib.rs: domain_hash, multisig_hash'),('metadata decoding','packages/interface/src/types/metadata.rs: MessageIdMultisigIsmMetadata')],
 [('validators, threshold','enrolment per origin domain','contracts/isms/multisig/src/state.rs')],
 ['verify query'])
prop('C11','Multisig enrolment is validated and reported faithfully',
 "The owner's enrolment for a domain replaces that domain's previous validator list and threshold and touches no other domain; it is accepted only if every validator is a 20-byte address and the threshold lies between 1 and the number of validators, and otherwise changes nothing. Unenrolling a domain makes its messages unverifiable, and the enrolled-validators and verify-info queries always report the list and threshold last set for the (message's origin) domain.",
 ['histories','inputs'],'For every sequence of enrolments and removals over several domains with valid and invalid arguments.',
 'Existing tests set one domain once per case.',
 ['contracts/isms/multisig/src/contract.rs','contracts/isms/multisig/src/query.rs','contracts/isms/multisig/src/state.rs'],
 [('argument checks','contracts/isms/multisig/src/contract.rs: SetValidators, UnsetDomain'),('verify info','contracts/isms/multisig/src/query.rs: get_verify_info')],
 [],['enrolled_validators query','verify_info query','verify query','execute result'])
prop('C12','Aggregate verification needs a threshold of its modules',
 "The aggregate module answers true only if at least the threshold number of its distinct configured modules approve exactly this message, each with the slice of metadata its own position in the configured list refers to, and answers true whenever that many approve and no module that is asked fails. A module is asked unless its range starts at zero, which means that there is nothing for it. A configuration whose threshold is zero or exceeds the number of modules is refused, both at instantiation and later, without changing the previous one; out-of-range metadata never verifies, and the queries report the configured modules and threshold.",
 ['inputs','configurations','histories'],
 'For every module list (any order), threshold, verdict combination, metadata layout and sequence of reconfigurations.',
 'The aggregate module has no tests of its own; its metadata codec is tested on one sorted list.',
 ['contracts/isms/aggregate/src/lib.rs','packages/interface/src/types/metadata.rs'],
 [('counting','contracts/isms/aggregate/src/lib.rs: verify'),('positional slices','packages/interface/src/types/metadata.rs: AggregateMetadata::from_hex'),('threshold check','contracts/isms/aggregate/src/lib.rs: instantiate, SetIsms')],
 [('isms, threshold','configured modules','contracts/isms/aggregate/src/lib.rs: ISMS, THRESHOLD')],
 ['verify query','isms query','verify_info query'])
prop('C13','Routing verification asks exactly the module of the origin domain',
 "The routing module's verdict, verify information and route for a message are those of the module most recently configured for the message's origin domain, asked with the same message and metadata. Messages from a domain with no (or a removed) module never verify, and configuring or removing one domain never affects another.",
 ['histories','inputs'],'For every history of route changes and every message and metadata.',
 'Existing tests use three fixed domains, a constant mock and no verify-info query.',
 ['contracts/isms/routing/src/contract.rs','contracts/isms/routing/src/state.rs'],
 [('lookup by origin domain','contracts/isms/routing/src/contract.rs: query')],
 [('modules','module per origin domain','contracts/isms/routing/src/state.rs: MODULES')],
 ['verify, verify_info and route queries'])
prop('C14','Pausing stops the pausable hook and module and only the owner controls it',
 "A paused hook rejects every dispatch through it and a paused verification module approves nothing; when released the hook lets dispatches through at no charge and the module approves. Only the current owner can pause or release, pausing twice or releasing when not paused is refused, and the reported state always equals the state set last (initially the one given at instantiation).",
 ['histories'],'For every history of pause, release, ownership changes and uses by any caller.',
 'Existing tests exercise single transitions from fixed states.',
 ['packages/pausable/src/lib.rs','contracts/hooks/pausable/src/lib.rs','contracts/isms/pausable/src/lib.rs'],
 [('state machine','packages/pausable/src/lib.rs: handle, pause, release'),('gates','contracts/hooks/pausable/src/lib.rs: PostDispatch; contracts/isms/pausable/src/lib.rs: Verify')],
 [('pause','paused flag','packages/pausable/src/lib.rs: PAUSE')],
 ['pause_info query','post_dispatch result','verify query'])
prop('C15','Ownership moves only by an offer of the owner and a claim of the nominee',
 "In every ownable contract the owner changes only when the pending nominee claims, the pending nominee is set only by the current owner while no other transfer is pending and cleared only by the owner's revocation or the claim. Every other attempt, by anyone in any state, is refused and changes nothing, and the owner and pending-owner queries always report the current state.",
 ['histories','configurations'],'For every contract with an owner and every history of init, revoke and claim by any callers.',
 'Existing tests check single transitions on the shared package, not histories and not through each contract.',
 ['packages/ownable/src/lib.rs','packages/interface/src/ownable.rs',MB+'contract.rs','contracts/isms/multisig/src/contract.rs','contracts/igps/core/src/contract.rs','contracts/warp/native/src/contract.rs'],
 [('state machine','packages/ownable/src/lib.rs: init_ownership_transfer, revoke_ownership_transfer, claim_ownership')],
 [('owner, pending owner','current and nominated owner','packages/ownable/src/lib.rs: OWNER, PENDING_OWNER')],
 ['get_owner and get_pending_owner queries','execute results'])
prop('C16','Administrative operations are reserved to the owner',
 "Every configuration-changing operation of every contract succeeds only for that contract's current owner - not for the deployer, a former owner, a nominee who has not claimed, or any other account - and a refused attempt leaves all contract state and balances unchanged. For the owner with valid arguments it succeeds and the corresponding query then reports the new value. One that names an invalid address (routes aside) is refused without effect. Claiming collected gas payments is likewise reserved to the configured beneficiary.",
 ['inputs','configurations','histories'],'For every administrative message of every contract, every caller role and ownership-transfer state, and generated arguments.',
 'Existing tests check one non-owner account for some operations, and compare neither the whole state nor ownership-transfer states.',
 [MB+'execute.rs','contracts/isms/multisig/src/contract.rs','contracts/isms/aggregate/src/lib.rs','contracts/isms/routing/src/contract.rs','contracts/hooks/aggregate/src/lib.rs','contracts/hooks/fee/src/lib.rs','contracts/hooks/routing-custom/src/lib.rs','contracts/hooks/routing-fallback/src/lib.rs','contracts/igps/core/src/execute.rs','contracts/igps/oracle/src/contract.rs','packages/router/src/lib.rs','packages/connection/src/lib.rs','packages/pausable/src/lib.rs'],
 [('owner checks','ensure_eq!(get_owner(..), info.sender) in each handler')],
 [],['execute results','complete storage and balances before and after'])
prop('C17','Validator announcements require the validator\'s own signature, once',
 "A storage location is recorded for a validator if and only if the call carries that validator's signature over the announcement digest of this chain's domain, this mailbox and exactly this location, and the same validator has not announced this location before. Queries return, for each requested validator in request order, exactly the locations accepted so far in acceptance order (none for unknown validators), and the announced-validator list contains exactly the validators with at least one accepted location. Rejected announcements change nothing.",
 ['histories','inputs'],'For every history of announcements with right, wrong, replayed, tampered or malformed validator, location, signature, domain or mailbox.',
 'Existing tests use a few fixed announcements.',
 ['contracts/core/va/src/contract.rs','contracts/core/va/src/state.rs','packages/interface/src/types/crypto.rs'],
 [('digest, recovery and replay protection','contracts/core/va/src/contract.rs: announce')],
 [('storage locations','accepted locations per validator','contracts/core/va/src/state.rs: STORAGE_LOCATIONS'),('validators','announced validators','contracts/core/va/src/state.rs: VALIDATORS')],
 ['announce result','get_announce_storage_locations and get_announced_validators queries'])
prop('C18','Gas payments charge exactly the quoted cost and refund the rest',
 "Paying for gas - directly or through a dispatch - succeeds if and only if the attached coins are only the gas token and cover the quoted cost, keeps exactly that cost and returns the whole excess to the refund address; the cost is floor(gas x gas price x exchange rate / 10^10) of the destination's oracle data. Through a dispatch the gas amount and refund address come from the metadata when it has at least 32 bytes, and otherwise are the domain's default gas and the message sender. Tokens never leave the paymaster except as such refunds or by a claim, which pays its whole gas-token balance to the beneficiary.",
 ['inputs','histories'],'For every gas amount, oracle data, payment, metadata (any length) and history of payments, configuration changes and claims.',
 'Existing tests check a few fixed payments on the produced message list, with no balances and no metadata or overflow variety.',
 ['contracts/igps/core/src/execute.rs','contracts/igps/core/src/query.rs','contracts/igps/core/src/lib.rs','packages/interface/src/types/metadata.rs'],
 [('payment and refund','contracts/igps/core/src/execute.rs: pay_for_gas, post_dispatch, claim'),('cost','contracts/igps/core/src/query.rs: quote_gas_price')],
 [('beneficiary, gas token, default gas','paymaster configuration','contracts/igps/core/src/lib.rs')],
 ['bank balances of payer, paymaster, refund address and beneficiary','quote_gas_payment and quote_dispatch queries'])
prop('C19','Gas prices and default gas come from the configuration set last',
 "Default gas for a destination is the domain-specific amount if one is set (and not unset since), otherwise the general default; the exchange rate and gas price used and reported for a destination are those last stored for it in the oracle routed for that destination. Destinations without a routed oracle or without oracle data have no quote and accept no payment, a zero exchange rate is never stored, and changing one destination's data never affects another's.",
 ['histories','configurations'],'For every history of gas, route and oracle updates over several domains and two oracles.',
 'Existing tests set and read single values.',
 ['contracts/igps/core/src/lib.rs','contracts/igps/core/src/execute.rs','contracts/igps/core/src/query.rs','contracts/igps/oracle/src/contract.rs','contracts/igps/oracle/src/state.rs','packages/router/src/lib.rs'],
 [('domain override','contracts/igps/core/src/lib.rs: get_default_gas'),('oracle data','contracts/igps/oracle/src/state.rs: insert_gas_data')],
 [('gas for domain','per-domain default','contracts/igps/core/src/lib.rs: GAS_FOR_DOMAIN'),('remote gas data','oracle entries','contracts/igps/oracle/src/state.rs: REMOTE_GAS_DATA')],
 ['default_gas, gas_for_domain, list_gas_for_domains, quote_gas_payment, get_exchange_rate_and_gas_price, quote_dispatch queries'])
prop('C20','Routing hooks hand message and payment to the hook configured for it',
 "A routing hook quotes and forwards each message to exactly one hook: the custom hook registered for its destination and recipient if there is one (custom routing), otherwise the hook routed for its destination domain, otherwise the fallback hook (fallback routing). The routed hook receives the same message, metadata and all attached funds, its refusal refuses the whole call, and if no hook is configured the call is refused; the routing hook itself keeps nothing.",
 ['histories','inputs','configurations'],'For every history of route, custom-hook and fallback changes (set, cleared, overwritten, batched) and every message, metadata and funds.',
 'Existing tests look at one event attribute per fixed route and never at funds, payload or the quote of the same route.',
 ['contracts/hooks/routing/src/lib.rs','contracts/hooks/routing-custom/src/lib.rs','contracts/hooks/routing-fallback/src/lib.rs','packages/router/src/lib.rs'],
 [('selection','route() in each routing hook'),('forwarding','post_dispatch() in each routing hook')],
 [('custom hooks','hook per destination and recipient','contracts/hooks/routing-custom/src/lib.rs: CUSTOM_HOOKS'),('fallback','fallback hook','contracts/hooks/routing-fallback/src/lib.rs: FALLBACK_HOOK')],
 ['post_dispatch calls and funds received by the target hooks','quote_dispatch query','custom_hook and custom_hooks queries'])
prop('C21','The aggregate hook calls every child once, in order, with its quote',
 "A dispatch through the aggregate hook calls each configured hook exactly once in the configured order with the same message and metadata and exactly the fee that hook quotes for it, and its own quote is the per-denomination sum of those quotes. If any child refuses or cannot be paid, nothing happens; the hooks query reports the list set last.",
 ['configurations','inputs','histories'],'For every list of hooks (duplicates, empty), fees in several denominations, funds and reconfigurations.',
 'The aggregate hook has no tests.',
 ['contracts/hooks/aggregate/src/lib.rs'],
 [('fan-out and quote sum','contracts/hooks/aggregate/src/lib.rs: PostDispatch, quote_dispatch')],
 [('hooks','configured children','contracts/hooks/aggregate/src/lib.rs: HOOKS')],
 ['post_dispatch calls and funds received by the children','quote_dispatch and hooks queries','balances'])
prop('C22','The fee hook collects at least its fee and pays out only to the owner\'s choice',
 "A dispatch through the fee hook succeeds if and only if the attached coins are only of the fee's denomination and at least the current fee (nothing needs to be attached when the fee is zero), and the quote always equals the current fee. Collected coins leave only by a claim of the current owner, which sends the whole balance to the recipient the owner names, or to the owner.",
 ['histories','inputs'],'For every history of fee changes, payments, claims and ownership changes.',
 'Existing tests check two amounts on the handler and the produced claim message with an empty balance.',
 ['contracts/hooks/fee/src/lib.rs'],
 [('fee check','contracts/hooks/fee/src/lib.rs: PostDispatch'),('claim','contracts/hooks/fee/src/lib.rs: Claim')],
 [('coin fee','current fee','contracts/hooks/fee/src/lib.rs: COIN_FEE')],
 ['bank balances','quote_dispatch and fee queries','execute results'])
prop('C23','Route tables and paginated listings report exactly what was set',
 "After any history of updates, looking up a domain returns the route set last for it (none if never set or cleared), and updates to one domain never change another. Paginated listings of routes, per-domain gas and custom hooks return the entries strictly after the offset in the requested order, at most the limit (10 by default, over 30 refused), so walking page by page visits every entry exactly once in order.",
 ['histories','inputs'],'For every history of single and batched updates and every combination of offset, limit and order.',
 'Existing tests list a handful of consecutive domains with default options.',
 ['packages/router/src/lib.rs','packages/interface/src/lib.rs','contracts/igps/core/src/query.rs','contracts/hooks/routing-custom/src/lib.rs'],
 [('range bounds and limit','packages/interface/src/lib.rs: range_option, get_and_check_limit'),('route map','packages/router/src/lib.rs: set_route, set_routes, get_route, get_routes, get_domains')],
 [('routes','route per domain','packages/router/src/lib.rs: get_route_map')],
 ['domains, get_route, list_routes, list_gas_for_domains, custom_hooks queries'])
prop('C24','An outbound token transfer takes exactly the amount it announces',
 "A successful outbound transfer takes exactly the stated amount of the route's token from the sender - locking it in the route for collateral tokens, destroying it for bridged tokens - and dispatches exactly one message to the enrolled router of the destination whose payload is the given 32-byte recipient and that amount, with all other attached coins passed on for fees and the chosen (or configured) hook and metadata. If the funds are insufficient, the destination has no router, the recipient is not 32 bytes, or dispatching fails, nothing changes.",
 ['inputs','histories','configurations'],'For every token mode, amount, attached coins, allowance, recipient length, destination, hook setting, metadata and hook failure.',
 'Existing tests check the produced message list for a few collateral transfers of 50 out of 100 with well-formed recipients.',
 ['contracts/warp/native/src/contract.rs','contracts/warp/cw20/src/contract.rs','contracts/warp/native/src/conv.rs','contracts/warp/cw20/src/conv.rs','packages/interface/src/warp/mod.rs'],
 [('lock or burn, then dispatch','transfer_remote in both contracts'),('payload','packages/interface/src/warp/mod.rs: Message')],
 [('token, mode','what the route moves','contracts/warp/*/src/lib.rs: TOKEN, MODE')],
 ['bank and cw20 balances and supply','message dispatched by the mailbox','transfer result'])
prop('C25','An inbound token transfer is paid only on a genuine remote router message',
 "Tokens are released or minted only when the route's mailbox delivers a message sent by the router enrolled for its origin domain, and then exactly the announced amount goes to exactly the announced recipient: out of the locked balance for collateral tokens, newly minted for bridged tokens. Calls by anyone else, messages from other senders or unrouted domains, malformed payloads and amounts beyond the locked balance or 128 bits change nothing.",
 ['inputs','histories','configurations'],'For every caller, origin, sender, payload (any bytes, any 256-bit amount), token mode and locked balance.',
 'Existing tests check a single amount of 100 on the message list.',
 ['contracts/warp/native/src/contract.rs','contracts/warp/cw20/src/contract.rs','contracts/warp/native/src/conv.rs','contracts/warp/cw20/src/conv.rs','packages/interface/src/warp/mod.rs'],
 [('mailbox and router checks','mailbox_handle in both contracts'),('amount conversion','contracts/warp/*/src/conv.rs: to_uint128')],
 [('routes','enrolled router per domain','packages/router/src/lib.rs'),('mailbox','trusted mailbox','contracts/warp/*/src/lib.rs: MAILBOX')],
 ['bank and cw20 balances and supply','handle result'])
prop('C26','Token supply is conserved across connected chains',
 "For a collateral route connected with a bridged route on another chain, after any history of transfers, deliveries, redeliveries, failed deliveries and forged messages, the bridged supply plus the amounts in undelivered transfers back to the collateral chain, plus undelivered transfers to the bridged chain, equals what is locked in the collateral route. Each transfer is paid out at most once and no account's holdings change except by its own transfers, its deliveries and their fees.",
 ['histories','fault_sequences','configurations'],'For every interleaving of transfers in both directions, in- and out-of-order, repeated and forged deliveries, for every pairing of native and cw20 routes.',
 'No test connects two chains without docker; existing tests see one call at a time.',
 ['contracts/warp/native/src/contract.rs','contracts/warp/cw20/src/contract.rs',MB+'execute.rs','contracts/isms/multisig/src/query.rs','contracts/hooks/merkle/src/lib.rs'],
 [('lock/burn against mint/release','transfer_remote and mailbox_handle of both contracts'),('replay protection',MB+'execute.rs: process')],
 [],['bank and cw20 balances and supplies on both chains'])
prop('C27','A token route uses the mailbox, module and hook its owner configured',
 "After any history of connection settings, the route dispatches through and accepts deliveries only from the mailbox set last (initially the one from instantiation), names the module set last as its verification module (none if never set), and uses the hook set last for transfers that choose none (the mailbox default if never set). The connection queries report the values set last, and invalid addresses are refused.",
 ['histories','configurations'],'For every history of settings and transfers on native and cw20 routes.',
 'Existing tests never change a connection setting on a token route.',
 ['packages/connection/src/lib.rs','contracts/warp/native/src/contract.rs','contracts/warp/cw20/src/contract.rs'],
 [('settings','packages/connection/src/lib.rs: handle'),('use','transfer_remote, mailbox_handle, query of both contracts')],
 [('connection','mailbox, module, hook','packages/connection/src/lib.rs: MAILBOX, ISM, HOOK')],
 ['interchain_security_module query','connection queries','dispatch calls received by the mailboxes','post_dispatch calls received by hooks'])
prop('C28','Migration only upgrades the same contract to a newer version',
 "For every contract, migration succeeds if and only if the stored contract name is its own and the stored version is a valid semantic version strictly older than the code's version; it then records the new version and leaves everything else in storage unchanged. A refused migration changes nothing.",
 ['inputs','configurations'],'For every contract, stored name and stored version string (pre-releases, build metadata, malformed).',
 'Existing tests check three fixed versions on the shared helper.',
 ['packages/utils/src/lib.rs',MB+'contract.rs','contracts/hooks/fee/src/lib.rs','contracts/igps/core/src/contract.rs'],
 [('name and semver check','packages/utils/src/lib.rs: migrate'),('entry points','migrate in each contract')],
 [('contract_info','stored name and version','cw2')],
 ['migrate result','stored contract info','complete storage'])
prop('C29','Verification and gas metadata codecs are exact inverses',
 "Encoding and decoding multisig (both kinds), aggregate and gas-payment metadata are inverses on well-formed values, with fields at the offsets of the Hyperlane formats (aggregate: a table of big-endian start/end offsets followed by the slices; multisig: 32-byte tree address, 32-byte root, 4-byte index, 65-byte signatures; merkle-root multisig: tree address, index, id, 32x32 proof, signatures; gas: 32-byte limit, refund address). Token transfer payloads likewise are 32-byte recipient, 32-byte amount and metadata. Inputs too short for their fixed part are never decoded.",
 ['inputs'],'For every well-formed value and every byte string.',
 'Existing tests use one vector for two of the formats.',
 ['packages/interface/src/types/metadata.rs','packages/interface/src/warp/mod.rs'],
 [('codecs','From impls in packages/interface/src/types/metadata.rs and packages/interface/src/warp/mod.rs')],
 [],['encoded bytes and decoded fields'])
prop('C30','Malformed or hostile input never causes an effect',
 "Arbitrary bytes given to any contract as message, metadata, signature, payload or JSON request - random, truncated, extended or mutated from valid ones - are either handled exactly like the value they decode to or rejected; in particular they never deliver, verify, mint, release, announce or insert anything, and a rejected call leaves all state and balances as they were.",
 ['inputs'],'For every byte string on every externally callable entry point, starting from populated contracts.',
 'Existing tests pass well-formed values only, except one truncated message.',
 [MB+'contract.rs','contracts/core/va/src/contract.rs','contracts/hooks/merkle/src/lib.rs','contracts/isms/multisig/src/query.rs','contracts/isms/aggregate/src/lib.rs','contracts/igps/core/src/execute.rs','contracts/warp/native/src/contract.rs','packages/interface/src/types/message.rs','packages/interface/src/types/metadata.rs'],
 [('length-checked decoding (aborting)','From<HexBinary> impls'),('signature recovery errors abort','contracts/isms/multisig/src/query.rs; contracts/core/va/src/contract.rs')],
 [],['call results','complete storage and balances before and after'])
prop('C31','A dispatched message attested by its validators is deliverable',
 "For chains whose mailboxes use any composition of hooks reaching the merkle hook once per dispatch and any composition of verification modules: a message dispatched by paying the quoted fee is announced, inserted in the tree, and - signed by enough of the validators over the checkpoint the origin chain reports - is accepted exactly once by its destination and handed to its recipient unaltered. Nothing else (too few or foreign signatures, an altered message, another destination, a checkpoint of another message) is delivered.",
 ['histories','configurations'],'For every composition of hooks and modules on two or three connected chains, every history of dispatches, deliveries in any order, forgeries and reconfigurations by the owners.',
 'Existing tests exercise each contract alone with hand-made messages; no test carries a message from a dispatch on one chain to a delivery on another without docker.',
 [MB+'execute.rs','contracts/hooks/merkle/src/lib.rs','contracts/isms/multisig/src/query.rs','contracts/isms/aggregate/src/lib.rs','contracts/isms/routing/src/contract.rs','contracts/isms/pausable/src/lib.rs','contracts/hooks/aggregate/src/lib.rs','contracts/hooks/routing/src/lib.rs'],
 [('dispatch and delivery',MB+'execute.rs: dispatch, process'),('tree and checkpoint','contracts/hooks/merkle/src/lib.rs'),('verification','verify of contracts/isms/*')],
 [],['events','checkpoint queries','calls received by the recipients','delivered queries'])
prop('C32','Accepted operations announce what they did, and only that',
 "Off-chain agents work from events alone. Every accepted transaction announces, under the address of the contract that did it: each dispatched message (its full encoding and identifier), each tree insertion with its index, each gas payment with payer, destination, amount, payment and refund, each delivered message, each validator announcement, each token transfer sent and received, each claim, and each change of configuration, with the values that took effect. A refused transaction announces nothing, and no call announces an action that did not happen.",
 ['histories','configurations','inputs'],'For every composition of contracts and every sequence of dispatches, deliveries, transfers, announcements and administration by any account.',
 'Existing tests look at an attribute or two of single calls, or at none; agents need every announcement of every history to match what happened.',
 [MB+'execute.rs','packages/interface/src','contracts/core/va/src/event.rs','contracts/hooks/merkle/src/lib.rs','contracts/igps/core/src/event.rs','contracts/warp/native/src/contract.rs'],
 [('dispatch and process events','contracts/core/mailbox/src/event.rs'),('insertion event','contracts/hooks/merkle/src/lib.rs'),('gas payment event','contracts/igps/core/src/event.rs'),('transfer events','contracts/warp/*/src/contract.rs')],
 [],['events and attributes of every accepted transaction','state queries'])
prop('C33','A new contract is exactly what its creator configured',
 "Instantiating any of the contracts with valid fields yields a contract whose owner, addresses, domains, thresholds, modes, tokens and pause state are those given, with everything not given empty or unset: nothing delivered, no routes, no trusted validators, no pending owner. Any field that names an invalid address, an upper-case address prefix, an impossible threshold or (for a validator registry) something that is no mailbox makes the instantiation fail. A bridged token route creates exactly one token, with itself as minter and the metadata given.",
 ['configurations','inputs'],'For every contract and every configuration of it, valid or with one or more faulty fields, on chains with any address prefix.',
 'Existing tests instantiate each contract with one or two hand-picked configurations.',
 [MB+'contract.rs','contracts/core/va/src/contract.rs','contracts/hooks/*/src/lib.rs','contracts/igps/*/src/contract.rs','contracts/isms/*/src/contract.rs','contracts/warp/*/src/contract.rs'],
 [('instantiation','instantiate entry points of every contract'),('bridged tokens','contracts/warp/cw20/src/contract.rs and contracts/warp/native/src/contract.rs: instantiate, reply')],
 [],['result of instantiation','query answers of the new contract','token messages emitted'])
prop('C34','What the contracts report is enough to serve a message',
 "Anyone can relay: starting from the mailbox's report of the recipient's module and following each module's reported type, route, modules, validators and threshold, and the announced locations of those validators, it can be told whether the attestations available for a message suffice. If they do, metadata built from the reports alone, with exactly the reported numbers of modules and attestations, is accepted and the message delivered; with one attestation less it is refused.",
 ['histories','configurations'],'For every composition of verification modules, every set of announcements and attestations, and every history of reconfigurations by the owner.',
 'Existing tests compare single query answers with literals; none builds metadata from reports and has it verified.',
 ['contracts/core/mailbox/src/query.rs','contracts/isms/multisig/src/query.rs','contracts/isms/aggregate/src/lib.rs','contracts/isms/routing/src/contract.rs','contracts/core/va/src/contract.rs','packages/interface/src/types/metadata.rs'],
 [("module of a recipient",'contracts/core/mailbox/src/query.rs: get_recipient_ism'),('validators and thresholds','contracts/isms/multisig/src/query.rs: get_verify_info'),('modules and routes','contracts/isms/aggregate/src/lib.rs, contracts/isms/routing/src/contract.rs'),('locations','contracts/core/va/src/contract.rs: get_announce')],
 [],['query answers','result of process','calls received by the recipients'])
prop('C35','A deployment is what its configuration says',
 "Deploying a configuration with the scripts ends with exactly the contracts it asks for, each instantiated from the uploaded code of its type, owned by the account it names with nobody else nominated, migratable by the signer, and set up as written: fees, pause state, token, oracle prices, validators and thresholds, aggregated modules in order, routes, custom and fallback hooks, and a mailbox using them. The saved context and agent configuration name these very contracts. What is there already is kept and not deployed again, a failed transaction is not reported as success, and a failed instantiation is repeated.",
 ['configurations','fault_sequences'],'For every tree of hooks and of verification modules, every network, with any transaction failing once, and any part of the system being there already.',
 'No test covers the scripts; by hand they are run with one or two configurations.',
 ['script/deploy/hook.ts','script/deploy/ism.ts','script/deploy/igp.ts','script/commands/deploy.ts','script/shared/contract.ts','script/shared/agent.ts','script/shared/context.ts'],
 [('deployment of trees','script/deploy/hook.ts: deployHook; script/deploy/ism.ts: deployIsm'),('retries and batches','script/shared/contract.ts'),('what is kept','script/commands/deploy.ts'),('agent configuration','script/shared/agent.ts: fromContext')],
 [],['contracts on the simulated chain and their answers','saved context','saved agent configuration'])
prop('C36','Operator commands do exactly what they are asked to',
 "On a deployed system the commands touch what they name and nothing else. update igp-oracle and ism-multisig bring prices, routes and validators to the configuration; upload stores exactly the artifacts, local or of a release recent enough, that differ from the chain, with the instantiation permission asked for, and records the code of each stored one even if it fails later; migrate migrates exactly the recorded contracts whose code differs; neither goes on when declined; warp create deploys and records a route as configured, once per id, with the module asked for; warp link enrols the given router; warp transfer and test-dispatch send what is asked; addresses are padded to 32 bytes. A failed transaction is reported.",
 ['histories','configurations','fault_sequences'],'For every sequence of commands on every deployed system, with transactions that fail, are slow to be found or never found, and artifacts that are missing.',
 'No test covers the commands; what they do depends on the recorded context and the state of the chain.',
 ['script/commands/update.ts','script/commands/upload.ts','script/commands/migrate.ts','script/commands/warp.ts','script/commands/contract.ts','script/commands/wallet.ts','script/commands/context.ts','script/deploy/warp.ts','script/shared/utils.ts','script/shared/wasm.ts','script/shared/github.ts','script/shared/context.ts'],
 [('updates','script/commands/update.ts'),('codes','script/commands/upload.ts, script/commands/migrate.ts'),('token routes','script/commands/warp.ts, script/deploy/warp.ts'),('padding','script/shared/utils.ts: addPad')],
 [],['state and balances of the simulated chain','uploads and migrations received','saved context','printed lines'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
