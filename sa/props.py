"""The properties, where each is anchored, and which analyses decide it.

roots: glob patterns over canonical function names (crate::module::Type::fn); a leading `!` admits
       private functions. Every function matched is analysed with its same-crate private callees (and
       any helper that is not part of the reviewed code) folded in.
rules: names of further analyses in rules.py
"""

P = []


def prop(id, title, statement, over, quant, why, roots, rules=(), files=(), note='', mech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, roots=list(roots), rules=list(rules),
                  files=list(files), note=note, mech=mech or []))


TR = 'fr_transition::state::'
XV = 'fr_extrinsics::validation::'
NR = 'fr_node::roles::'
HF = 'fr_pvm_host::host_functions::'
CX = 'fr_pvm_host::context::'
INV = 'fr_pvm_invocation::'
ST = 'fr_state::types::'
IS = 'fr_pvm_core::program::instruction::set::InstructionSet::'

# ---------------------------------------------------------------- block import
prop('C01', 'Block headers are admitted only when every header check passes',
     'A block can change the node\'s state or best header only after its header names the current best block as parent, has a timeslot later than '
     'the parent\'s and not in the future, carries the state root the parent block produced, and commits to exactly the extrinsics it carries. '
     'Only the very first block of an empty chain may skip these checks.',
     ['inputs', 'histories'], 'every received block, at every point of the chain\'s history',
     'Tests import a few hand-made chains; an attacker chooses any header field combination at any time.',
     [NR + 'importer::BlockImporter::import_block', NR + 'importer::BlockImporter::validate_block', NR + 'importer::BlockImporter::validate_block_header_prior_stf',
      'fr_block::types::block::Block::is_genesis', 'fr_block::types::extrinsics::Extrinsics::hash', 'fr_block::types::block::BlockHeader::hash',
      'fr_block::types::block::BlockHeader::from_parent_hash', ST + 'timeslot::Timeslot::is_in_future', ST + 'timeslot::Timeslot::timeslot_beginning_to_unix_timestamp',
      'fr_block::header_db::BlockHeaderDB::get_best_header', 'fr_block::header_db::BlockHeaderDB::set_best_header', 'fr_block::types::extrinsics::guarantees::GuaranteesXt::encode_with_hashed_reports',
      'fr_block::types::extrinsics::guarantees::GuaranteesXtEntry::encode_with_hashed_report', 'fr_block::post_state_root_db::*',
      'fr_block::types::block::BlockHeader::*'],
     files=['node/src/roles/importer.rs', 'block/src/types/block.rs', 'block/src/types/extrinsics/mod.rs'])

prop('C02', 'Block seal and entropy signature are verified for the slot\'s author',
     'A block is accepted only if its seal verifies over the unsigned header under the key of the author it names, that author is entitled to the slot '
     '(its ticket id equals the seal\'s output, or its key equals the slot\'s fallback key), and its entropy signature verifies over the seal\'s output. '
     'The signing contexts and the entropy they bind are the ones the protocol fixes for ticket, fallback and entropy signatures.',
     ['inputs', 'histories'], 'every block header, in ticket and fallback mode, across epoch changes',
     'Tests exercise validly sealed blocks from fixtures; forged authors, keys, tickets and contexts are unbounded.',
     [NR + 'importer::BlockImporter::validate_block_header_post_safrole', NR + 'importer::BlockImporter::verify_block_seal', NR + 'importer::BlockImporter::verify_vrf_output',
      NR + 'importer::BlockImporter::get_post_states_for_header_validation', NR + 'author::validate_author_block_seal', NR + 'author::sign_*',
      'fr_crypto::vrf::bandersnatch_vrf::*', 'fr_crypto::vrf::vrf_core::*', 'fr_crypto::types::signatures::*output_hash', ST + 'safrole::SlotSealers::*', 'fr_state::manager::StateManager::get_current_slot_sealer',
      'fr_crypto::types::validator_keys::ValidatorKeySet::*', NR + 'manager::*',
      'fr_crypto::hash::hash',
      'fr_crypto::sha3::digest::core_api::CoreWrapper::hash',
      'fr_crypto::types::secret_keys::*',
      'fr_crypto::types::validator_keys::*',
      'fr_crypto::vrf::vrf_core::*::serialize_with_mode',
      'fr_crypto::vrf::vrf_core::*::deserialize_with_mode',
      'fr_crypto::vrf::vrf_core::*::serialized_size',
      'fr_crypto::vrf::vrf_core::*::check',
      'fr_crypto::types::secret_keys::*::drop',
      'fr_crypto::types::secret_keys::*::zeroize',
      'fr_crypto::signers::ed25519::Ed25519Signer::drop',
      'fr_crypto::signers::ed25519::Ed25519Signer::zeroize'],
     files=['node/src/roles/importer.rs', 'node/src/roles/author.rs', 'crypto/src/vrf'])

prop('C03', 'Epoch, winning-ticket and offender markers equal the derived ones',
     'A block is accepted only if its epoch marker, winning-tickets marker and offenders marker are exactly what the state transition and its own disputes '
     'produce: present when required, absent otherwise, and equal in content. A locally authored block carries the same derived markers.',
     ['inputs', 'histories'], 'every block, at every slot phase including epoch boundaries and the end of the ticket submission window',
     'Tests cover a few boundary blocks; mismatching or missing markers at other phases are not sampled.',
     [NR + 'importer::BlockImporter::validate_header_markers', TR + 'safrole::mark_safrole_header_markers', 'fr_block::types::block::BlockHeader::set_*',
      'fr_block::types::extrinsics::disputes::DisputesXt::collect_offender_keys', TR + 'safrole::extract_epoch_marker_keys', NR + 'author::BlockAuthor::author_block_commit_header',
      ST + 'safrole::outside_in_vec', ],
     files=['node/src/roles/importer.rs', 'transition/src/state/safrole.rs', 'block/src/types/block.rs'])

prop('C04', 'A failed import leaves no trace; a successful one commits state then header',
     'When any validation or transition step of an import fails, no state change, best-header update or stored root remains from it, and later imports behave as if it '
     'had never been attempted. When it succeeds, the whole state delta is committed before the block becomes the best block and its root is recorded.',
     ['inputs', 'histories', 'fault_sequences'], 'every block and every failing step of its import',
     'Tests import valid chains; failures at each step followed by further imports are not enumerated.',
     [NR + 'importer::BlockImporter::run_block_importer', NR + 'importer::BlockImporter::import_block', NR + 'importer::BlockImporter::run_state_transition',
      'fr_state::cache::StateCache::rollback_dirty_cache', 'fr_state::manager::StateManager::commit_dirty_cache', 'fr_state::manager::StateManager::prepare_dirty_cache_commit',
      'fr_state::manager::StateManager::apply_dirty_cache_commit', 'fr_state::manager::StateManager::rollback_dirty_cache', 'fr_state::manager::StateManager::*ring_cache*', 'fr_block::header_db::BlockHeaderDB::*'],
     files=['node/src/roles/importer.rs', 'state/src/manager.rs', 'state/src/cache.rs'])

prop('C05', 'Every step of the block state transition runs, in order, and its failure aborts',
     'Executing a block runs every component transition exactly once, with steps that read a component ordered as the protocol requires relative to the step that writes it. '
     'An error in any step, including one running in a concurrent task, makes the whole execution fail.',
     ['inputs', 'schedules'], 'every block, under every interleaving of the concurrent transition steps',
     'A test sees the interleavings the runtime happens to choose and only succeeding steps.',
     [NR + 'executor::BlockExecutor::*', NR + 'importer::BlockImporter::run_state_transition', 'fr_node::utils::*'],
     files=['node/src/roles/executor.rs', 'node/src/utils.rs'])

# ---------------------------------------------------------------- extrinsics
prop('C06', 'Only valid, sorted, fresh tickets enter the ticket accumulator',
     'A tickets extrinsic is accepted only within the submission window and size limit, with valid ring proofs bound to the right entropy and attempt number, attempt below the limit, '
     'ids strictly increasing and not already accumulated. The accumulator keeps the lowest ids up to its capacity, and every submitted ticket must survive into it.',
     ['inputs', 'histories'], 'every tickets extrinsic in every slot phase and accumulator content',
     'Fixtures hold a few extrinsics; orderings, duplicates and full accumulators are not enumerated.',
     [XV + 'tickets::*', XV + 'tickets::ticket_xt_to_new_tickets', TR + 'safrole::handle_ticket_accumulation', ST + 'safrole::TicketAccumulator::*', 'fr_crypto::vrf::bandersnatch_vrf::RingVrfVerifier::*',
      'fr_block::types::extrinsics::tickets::*', 'fr_common::types::ticket::*', 'fr_crypto::vrf::vrf_core::RingVrfVerifierCore::*', 'fr_crypto::vrf::ring::*'],
     files=['extrinsics/src/validation/tickets.rs', 'transition/src/state/safrole.rs', 'state/src/types/safrole.rs'])

prop('C07', 'Only solicited preimages are integrated, once, and recorded consistently',
     'A preimages extrinsic is accepted only if sorted by service and content without duplicates and if every entry was solicited and not yet supplied. '
     'Integration stores the data under its hash for that service and stamps the matching request with the current timeslot, and nothing else.',
     ['inputs', 'histories'], 'every preimages extrinsic against every account state',
     'Fixtures hold a few entries; request states and orderings are not enumerated.',
     [XV + 'preimages::*', TR + 'services::transition_services_integrate_preimages', 'fr_block::types::extrinsics::preimages::*'],
     files=['extrinsics/src/validation/preimages.rs', 'transition/src/state/services.rs'])

prop('C08', 'Only valid availability assurances count',
     'An assurances extrinsic is accepted only if its entries have strictly increasing validator indices, anchor to the block\'s parent, carry a valid signature by that validator over the '
     'anchor and bitfield, and claim availability only for cores with a pending report.',
     ['inputs', 'histories'], 'every assurances extrinsic against every pending-reports state',
     'Fixtures hold a few extrinsics; bitfields, indices and signatures range over all inputs.',
     [XV + 'assurances::*', 'fr_block::types::extrinsics::assurances::*', 'fr_crypto::signers::ed25519::*'],
     files=['extrinsics/src/validation/assurances.rs', 'block/src/types/extrinsics/assurances.rs'])

prop('C09', 'Disputes are validated and recorded exactly; offenders are punished',
     'A disputes extrinsic is accepted only with sorted, unique, not previously judged verdicts whose judgments are valid signatures by distinct validators of the current or previous epoch with a '
     'legal vote count, and with offences that agree with the verdicts and are validly signed by known, not yet punished keys. Each verdict adds its report to exactly the good, bad or wonky set, '
     'every offender joins the punish set, and non-good reports leave the pending cores.',
     ['inputs', 'histories'], 'every disputes extrinsic against every dispute history',
     'Fixtures hold a few cases; vote splits, epochs, orderings and keys are unbounded.',
     [XV + 'disputes::*', XV + 'disputes::DisputesXtValidator::validate_verdicts_entry', XV + 'disputes::DisputesXtValidator::validate_culprits_entry', XV + 'disputes::DisputesXtValidator::validate_faults_entry',
      TR + 'disputes::*', TR + 'reports::transition_reports_eliminate_invalid', ST + 'disputes::*',
      'fr_block::types::extrinsics::disputes::*', ST + 'reports::PendingReports::remove_by_hash', ST + 'validators::ValidatorSet::*'],
     files=['extrinsics/src/validation/disputes.rs', 'transition/src/state/disputes.rs', 'block/src/types/extrinsics/disputes.rs'])

prop('C10', 'Guaranteed work reports are admitted only when every admission rule holds',
     'A guarantees extrinsic is accepted only if entries are sorted by core, target free cores with an authorized authorizer, stay within size, gas, dependency and output limits, refer to known '
     'services with matching code, to recent anchors with matching roots and a lookup anchor in the ancestry and not too old, resolve their dependencies and segment roots, and were not reported before.',
     ['inputs', 'histories'], 'every guarantees extrinsic against every state and recent history',
     'Fixtures hold a few reports; the rule combinations are unbounded.',
     [XV + 'guarantees::*', XV + 'guarantees::GuaranteesXtValidator::validate_work_report', XV + 'guarantees::GuaranteesXtValidator::validate_entry', XV + 'guarantees::GuaranteesXtValidator::validate_anchor_block',
      XV + 'guarantees::GuaranteesXtValidator::validate_lookup_anchor_block', XV + 'guarantees::GuaranteesXtValidator::validate_work_digests', XV + 'guarantees::GuaranteesXtValidator::check_work_package_hash_duplication',
      'fr_block::types::extrinsics::guarantees::*', 'fr_common::types::workloads::work_report::WorkReport::*',
      ST + 'history::BlockHistory::*', ST + 'authorizer::*', ST + 'accumulate::AccumulateHistory::*', ST + 'reports::PendingReports::*', 'fr_block::header_db::BlockHeaderDB::header_exists_in_ancestor_set'],
     files=['extrinsics/src/validation/guarantees.rs', 'common/src/types/workloads/work_report.rs', 'state/src/types/history.rs'])

prop('C11', 'Guarantees carry enough valid signatures of guarantors assigned to the core',
     'Each guarantee carries two or three signatures over the report by distinct validators in increasing index order, each assigned to the reported core in the rotation period of the guarantee slot '
     '(current or immediately previous, with the matching validator set and entropy), and the slot is neither in the future nor too old. Reporters are recorded exactly as those signers.',
     ['inputs', 'histories'], 'every guarantee, over all rotation periods and epoch boundaries',
     'Fixtures sample a handful of slots; rotation boundaries and signer combinations are unbounded.',
     [XV + 'guarantees::GuaranteesXtValidator::validate_credentials', XV + 'guarantees::GuaranteesXtValidator::validate_credential', XV + 'guarantees::GuaranteesXtValidator::get_guarantor_assignment',
      'fr_extrinsics::utils::guarantor_rotation::*', 'fr_extrinsics::utils::shuffle::*', 'fr_crypto::signers::ed25519::*', 'fr_block::types::extrinsics::guarantees::GuaranteesXtEntry::add_credential', ST + 'validators::ValidatorSet::*',
      XV + 'guarantees::GuaranteesXtValidator::validate'],
     files=['extrinsics/src/validation/guarantees.rs', 'extrinsics/src/utils/guarantor_rotation.rs', 'extrinsics/src/utils/shuffle.rs'])

# ---------------------------------------------------------------- state transitions
prop('C12', 'Safrole, validator sets and entropy rotate exactly at epoch changes',
     'On entering a new epoch the pending, active and previous validator sets each advance one place with offenders nullified, entropy history shifts one place, the ring root follows the new pending set, '
     'the slot sealers become the outside-in tickets (only if the window closed with a full accumulator and the epoch is consecutive) or the fallback keys, and the accumulator empties; otherwise they stay put. '
     'Every block mixes its entropy output into the accumulator entropy and advances the timeslot only forward.',
     ['inputs', 'histories'], 'every pair of consecutive block slots, including skipped epochs and partial accumulators',
     'Fixtures sample a few transitions; skipped slots, epochs and accumulator sizes are unbounded.',
     [TR + 'safrole::*', TR + 'entropy::*', TR + 'timeslot::*', TR + 'validators::*', 'fr_transition::state_prediction::*', ST + 'safrole::*', ST + 'entropy::*', ST + 'timeslot::*', ST + 'validators::ValidatorSet::*',
      'fr_transition::ring_cache::*',
      'fr_state::types::safrole::*::default',
      'fr_state::types::safrole::*::eq',
      'fr_state::types::validators::*::deref',
      'fr_state::types::validators::*::deref_mut',
      'fr_state::T::iter',
      'fr_state::T::iter_mut'],
     files=['transition/src/state/safrole.rs', 'transition/src/state/entropy.rs', 'transition/src/state/validators.rs', 'transition/src/state/timeslot.rs', 'transition/src/state_prediction'])

prop('C13', 'Pending reports become available, time out or are replaced only by rule',
     'A pending report becomes available exactly when more than two thirds of the validators assure its core, and it is then handed on and its core freed. '
     'A report older than the timeout is dropped, and a newly guaranteed report occupies its core with the current timeslot.',
     ['inputs', 'histories'], 'every assurance set, pending-report state and timeslot',
     'Fixtures sample few assurance counts and ages; thresholds and boundaries are not enumerated.',
     [TR + 'reports::*', ST + 'reports::*', 'fr_block::types::extrinsics::assurances::AssurancesXt::*', 'fr_block::types::extrinsics::guarantees::GuaranteesXt::*'],
     files=['transition/src/state/reports.rs', 'state/src/types/reports.rs'])

prop('C14', 'Recent history and the accumulation-output chain record every block',
     'Each block first writes the parent\'s posterior state root into the newest history entry, then appends its own header hash, its reported packages and the output-chain peak, dropping only the oldest entry beyond the limit. '
     'The output chain is extended by exactly the Merkle root of this block\'s ordered accumulation outputs.',
     ['inputs', 'histories'], 'every block in every history state',
     'Fixtures hold short chains; overflow of the window and output ordering are sampled once.',
     [TR + 'history::*', ST + 'history::*', 'fr_merkle::mmr::*', 'fr_merkle::well_balanced_tree::*', 'fr_merkle::common::*', NR + 'executor::BlockExecutor::append_beefy_belt_and_block_history',
      'fr_merkle::mmr::MerkleMountainRange::default',
      'fr_merkle::mmr::MerkleMountainRange::eq'],
     files=['transition/src/state/history.rs', 'state/src/types/history.rs', 'merkle/src'])

prop('C15', 'On-chain statistics count exactly what each block did',
     'Per-validator counters grow only by the author\'s block, its tickets, preimages and bytes, and by each guarantor\'s and assurer\'s contributions, and roll over at an epoch change. '
     'Per-core and per-service statistics of a block are recomputed from its guaranteed and available reports, assurances, preimages and accumulation, with nothing left over from the previous block.',
     ['inputs', 'histories'], 'every block and every prior statistics',
     'Fixtures sample few combinations of extrinsics and epoch boundaries.',
     [TR + 'statistics::*', ST + 'statistics::*', 'fr_pvm_types::stats::*', 'fr_block::types::extrinsics::*Xt::*', 'fr_common::types::workloads::work_report::*'],
     files=['transition/src/state/statistics.rs', 'state/src/types/statistics.rs', 'pvm/pvm-types/src/stats.rs'])

prop('C16', 'Authorizer pools lose used authorizers and gain the queued one',
     'For every core, a guarantee in the block removes the authorizer it used from the core\'s pool, then the queue entry selected by the current timeslot is appended, keeping only the newest entries up to the pool limit. '
     'No other core\'s pool is affected.',
     ['inputs', 'histories'], 'every guarantees extrinsic, pool and queue content, and timeslot',
     'Fixtures sample few pools; full pools and repeated authorizers are not enumerated.',
     [TR + 'authorizer::*', ST + 'authorizer::*', 'fr_limited_vec::*'],
     files=['transition/src/state/authorizer.rs', 'state/src/types/authorizer.rs', 'common/limited-vec/src/lib.rs'])

prop('C17', 'Work reports accumulate in dependency order, once, oldest queue first',
     'Available reports without unmet dependencies are accumulated immediately; the rest wait in the queue slot of their epoch phase until every package they depend on has been accumulated, and a report already accumulated is dropped. '
     'The accumulated history and queue advance by exactly the elapsed slots.',
     ['inputs', 'histories'], 'every set of available reports, queue and history, including skipped slots',
     'Fixtures sample few dependency shapes; cycles, wrap-around and skipped slots are not enumerated.',
     [TR + 'accumulate::*', INV + 'accumulate::utils::*', ST + 'accumulate::*'],
     files=['transition/src/state/accumulate.rs', 'pvm/pvm-invocation/src/accumulate/utils.rs', 'state/src/types/accumulate.rs'])

prop('C18', 'Accumulation respects the gas budget and merges service results by rule',
     'The reports accumulated in a block are the longest prefix whose gas fits the block budget, with the budget computed from the core allotments and privileged services\' grants, and leftover gas spent on later rounds. '
     'Parallel per-service results are merged deterministically: each service\'s own changes apply, privileged changes only from the service entitled to make them, and gas, transfers, outputs and preimages are collected from every one of them.',
     ['inputs', 'schedules'], 'every set of reports, gas distribution and completion order of the parallel accumulations',
     'Tests sample few service sets and whatever interleavings occur.',
     [INV + 'accumulate::pipeline::*', INV + 'accumulate::pipeline::accumulate_parallel', INV + 'accumulate::pipeline::merge_partial_state_change', INV + 'accumulate::utils::select_deferred_transfers', CX + 'partial_state::*ServicesPartialState::*', CX + 'partial_state::*ServicePartialState::*', CX + 'partial_state::AccumulatePartialState::*',
      TR + 'privileges::*', TR + 'services::transition_on_accumulate', TR + 'services::transition_service_account', TR + 'services::transition_services_last_accumulate_at', TR + 'services::AccountStateChange*', 'fr_pvm_types::invoke_args::AccumulateInputs::*',
      'fr_transition::state::history::transition_last_accumulate_outputs', ST + 'history::LastAccumulateOutputs::*'],
     files=['pvm/pvm-invocation/src/accumulate/pipeline.rs', 'pvm/pvm-host/src/context/partial_state.rs', 'transition/src/state/services.rs', 'transition/src/state/privileges.rs'])

prop('C19', 'Accumulation keeps its effects on success, its checkpoint on failure',
     'If a service\'s accumulation halts normally, its full resulting state, transfers, provided preimages and output are used; if it panics or runs out of gas, exactly those as of its last checkpoint are used. '
     'The gas charged is always what execution consumed, and incoming transfers are credited before the code runs.',
     ['programs', 'inputs'], 'every accumulation program and every way it can end',
     'Tests run a few programs; exits at arbitrary points are unbounded.',
     [INV + 'accumulate::AccumulateInvocation::*', INV + 'accumulate::AccumulateInvocation::receive_deferred_transfer', CX + 'AccumulateHostContext::*', CX + 'AccumulateHostContext::initialize_new_service_id',
      INV + 'accumulate::pipeline::accumulate_single_service', HF + 'accumulate::AccumulateHostFunction::host_checkpoint',
      'fr_pvm_host::context::AccumulateHostContext::clone',
      'fr_pvm_host::context::AccumulateHostContextPair::*',
      'fr_pvm_host::host_functions::accumulate::AccumulateHostFunction::host_yield',
      'fr_pvm_invocation::accumulate::AccumulateResult::default'],
     files=['pvm/pvm-invocation/src/accumulate/mod.rs', 'pvm/pvm-host/src/context/mod.rs'])

# ---------------------------------------------------------------- host calls
prop('C20', 'Every host call charges gas first and has no effect when it cannot pay',
     'Every host call checks that the remaining gas covers its cost before any effect; if it does not, execution ends out of gas with no change to guest memory, registers or service state. '
     'The gas charged is the protocol\'s cost of that call.',
     ['programs', 'inputs'], 'every guest program, host call and remaining-gas value',
     'Tests call host functions with ample gas.',
     [HF + 'HostCallResult::*', 'fr_pvm_core::gas::*', 'fr_pvm_interface::invoke::PVMInterface::execute_host_function', 'fr_pvm_interface::invoke::PVMInterface::invoke_extended', 'fr_pvm_core::state::state_change::VMStateMutator::*',
      'fr_pvm_core::state::state_change::*::default'],
     files=['pvm/pvm-host/src/host_functions', 'pvm/pvm-core/src/gas.rs', 'pvm/pvm-interface/src/invoke.rs'])

prop('C21', 'Privileged host calls act only for the services entitled to them',
     'Changing privileged services, a core\'s authorizer queue or the validator staging set, and the privileges that go with them, takes effect only when the calling service holds that privilege, with operands read from guest memory and checked for range first; '
     'otherwise the documented error code is returned and nothing changes.',
     ['programs', 'inputs'], 'every calling service, operand and guest memory layout',
     'Tests sample a few callers and operands per call.',
     [HF + 'accumulate::AccumulateHostFunction::host_bless', HF + 'accumulate::AccumulateHostFunction::host_assign', HF + 'accumulate::AccumulateHostFunction::host_designate',
      CX + 'AccumulateHostContext::assign_*', CX + 'partial_state::*merge_changes_from', TR + 'privileges::*', CX + 'partial_state::AccumulatePartialState::clear_privileged_services_changes'],
     files=['pvm/pvm-host/src/host_functions/accumulate.rs', 'pvm/pvm-host/src/context/mod.rs', 'pvm/pvm-host/src/context/partial_state.rs'])

prop('C22', 'Account creation, upgrade, transfer and ejection conserve balances by rule',
     'A service can create, upgrade, transfer to or eject an account only when the protocol\'s conditions hold, each failure returns its documented code with nothing changed, and the caller never falls below its storage threshold. '
     'Balance is conserved: what one account gains another loses, with checked arithmetic.',
     ['programs', 'inputs'], 'every guest program, account state and amount',
     'Tests sample a few amounts and account states per call.',
     [HF + 'accumulate::AccumulateHostFunction::host_new', HF + 'accumulate::AccumulateHostFunction::host_upgrade', HF + 'accumulate::AccumulateHostFunction::host_transfer', HF + 'accumulate::AccumulateHostFunction::host_eject',
      CX + 'AccumulateHostContext::*', CX + 'AccumulateHostContext::initialize_new_service_id', CX + 'AccumulateHostContext::add_new_account_internal', CX + 'partial_state::AccumulatePartialState::*', CX + 'partial_state::AccumulatePartialState::check', CX + 'partial_state::AccountsSandboxMap::eject_account',
      CX + 'partial_state::AccountsSandboxMap::account_exists*', ST + 'services::AccountMetadata::*'],
     files=['pvm/pvm-host/src/host_functions/accumulate.rs', 'pvm/pvm-host/src/context/mod.rs', 'state/src/types/services.rs'])

prop('C23', 'Preimage requests follow their lifecycle and their storage cost is accounted',
     'A preimage request moves only through the protocol\'s states (requested, available, forgotten, re-requested, expunged) by soliciting, providing and forgetting, with forgetting removing data only after the expunge delay. '
     'Each step that adds or removes a request or its data updates the account\'s footprint exactly once, and a request the account cannot afford is refused.',
     ['programs', 'inputs', 'histories'], 'every sequence of solicit, provide, query and forget calls, at every timeslot',
     'Tests sample a few states of one request.',
     [HF + 'accumulate::AccumulateHostFunction::host_query', HF + 'accumulate::AccumulateHostFunction::host_solicit', HF + 'accumulate::AccumulateHostFunction::host_forget', HF + 'accumulate::AccumulateHostFunction::host_provide',
      CX + 'partial_state::AccountsSandboxMap::*lookups*', CX + 'partial_state::AccountsSandboxMap::*preimages*', CX + 'partial_state::AccountsSandboxMap::update_account_footprints', ST + 'services::AccountLookups*', ST + 'services::AccountFootprintDelta::*',
      INV + 'accumulate::pipeline::add_provided_preimages'],
     files=['pvm/pvm-host/src/host_functions/accumulate.rs', 'pvm/pvm-host/src/context/partial_state.rs'])

prop('C24', 'Storage, lookup, fetch and info calls return and change exactly the named data',
     'Reading, looking up, fetching and inspecting return exactly the requested slice of the named item (or the documented none/error value) and write only the requested range of guest memory. '
     'Writing storage changes only the caller\'s own item, reports the previous length, refuses when the account could not afford it, and updates the footprint accordingly.',
     ['programs', 'inputs'], 'every guest program, key, offset, length and account state',
     'Tests sample a few offsets, lengths and keys.',
     [HF + 'general::*', CX + 'partial_state::AccountsSandboxMap::*storage*', CX + 'partial_state::AccountsSandboxMap::update_account_footprints', CX + 'partial_state::AccountsSandboxMap::get_account_metadata',
      ST + 'services::*', 'fr_common::types::workloads::work_package::*encode_for_fetch*', 'fr_common::constants::constants_encoder::*', CX + 'partial_state::AccountsSandboxMap::get_account_code',
      'fr_pvm_host::host_functions::debug::*', HF + 'refine::RefineHostFunction::host_historical_lookup',
      'fr_state::types::services::AccountMetadata::default'],
     files=['pvm/pvm-host/src/host_functions/general.rs', 'pvm/pvm-host/src/context/partial_state.rs', 'state/src/types/services.rs'])

prop('C25', 'The account sandbox behaves as an overlay isolated from committed state',
     'Reads during accumulation see the account\'s own uncommitted changes over committed state; removed entries stay absent, added entries stay added when updated, and an ejected account does not exist. '
     'Snapshots taken for checkpoints are independent of later changes, and nothing reaches committed state until the results are applied.',
     ['programs', 'histories'], 'every sequence of sandbox reads, writes, removals and checkpoints',
     'Tests sample a few sequences.',
     [CX + 'partial_state::*',
      'fr_pvm_host::context::partial_state::*::clone',
      'fr_pvm_host::context::partial_state::*::default'],
     files=['pvm/pvm-host/src/context/partial_state.rs'])

prop('C26', 'Inner machines and segment exports stay within their bounds',
     'Refinement host calls create, run, read, write, remap and remove inner machines only by handles they own, copy only between accessible memory ranges, and return the documented code for every bad handle, range or mode with nothing changed. '
     'Exports are bounded and padded to the segment size, and historical lookups only see preimages available at the lookup time.',
     ['programs', 'inputs'], 'every guest program and operand',
     'Tests sample a few operands per call.',
     [HF + 'refine::*', CX + 'RefineHostContext::*', 'fr_pvm_host::inner_vm::*', 'fr_pvm_host::utils::*', 'fr_state::manager::StateManager::lookup_historical_preimage'],
     files=['pvm/pvm-host/src/host_functions/refine.rs', 'pvm/pvm-host/src/inner_vm.rs', 'state/src/manager.rs'])

prop('C27', 'Each invocation context exposes exactly its host calls; others yield an error',
     'A guest can reach only the host calls its invocation context allows, each call number leads to its own host function, and any other number returns the unknown-call code to the guest and charges it, without ending or corrupting the run.',
     ['programs', 'inputs'], 'every host-call number in every invocation context',
     'Tests use the documented numbers.',
     ['fr_pvm_interface::invoke::InvocationType::*', 'fr_pvm_interface::invoke::PVMInterface::execute_host_function', 'fr_pvm_types::hostcall::*', 'fr_pvm_interface::invoke::PVMInterface::invoke_extended', CX + 'InvocationContext::*'],
     files=['pvm/pvm-interface/src/invoke.rs', 'pvm/pvm-types/src/hostcall.rs'])

# ---------------------------------------------------------------- virtual machine
prop('C28', 'Every opcode byte decodes to its own instruction form and handler',
     'Each opcode byte selects exactly its instruction, operand layout and handler, undefined bytes trap, register operands stay within the register file and immediates are sign-extended from their encoded width.',
     ['programs'], 'every instruction encoding',
     'Tests run a set of programs; encodings are unbounded.',
     ['fr_pvm_core::program::instruction::Instruction::*', 'fr_pvm_core::program::instruction::opcode::*', 'fr_pvm_core::interpreter::Interpreter::invoke_single_step', 'fr_pvm_core::program::instruction::ImmSize::*'],
     files=['pvm/pvm-core/src/program/instruction', 'pvm/pvm-core/src/interpreter.rs'])

prop('C29', 'Arithmetic and logic instructions compute their defined function',
     'Every arithmetic, logic, shift, rotate, comparison and conditional-move instruction writes only its destination register, with the wrapping, sign-extension, division and remainder edge cases the protocol defines, and then advances to the next instruction.',
     ['programs', 'inputs'], 'every operand value of every instruction',
     'There are no unit tests of the instruction set; operands range over all 64-bit values.',
     [IS + x for x in ('*_32', '*_64', '*imm*', 'and*', 'or*', 'x*', 'mul*', 'set*', 'cmov*', 'rot*', 'm*', 'count*', 'leading*', 'trailing*', 'sign*', 'zero*', 'reverse*', 'move*')] + ['fr_pvm_core::utils::VMUtils::*', 'fr_pvm_core::utils::SextInputSize::*'],
     files=['pvm/pvm-core/src/program/instruction/set.rs', 'pvm/pvm-core/src/utils.rs'])

prop('C30', 'Guest memory access honours page permissions and faults before any change',
     'A load succeeds only if every touched page is readable and a store only if every touched page is writable; otherwise the machine reports a page fault at the lowest offending page (or a panic for the reserved low region) with memory and registers unchanged. '
     'Loads and stores move exactly the addressed bytes in little-endian order with the defined extension.',
     ['programs', 'inputs'], 'every address, width and page-permission layout, including page and address-space boundaries',
     'Memory unit tests sample a few ranges.',
     ['fr_pvm_core::state::memory::*', IS + 'load_*', IS + 'store_*', 'fr_pvm_core::state::state_change::*', 'fr_pvm_core::state::vm_state::*', IS + 'sbrk'],
     files=['pvm/pvm-core/src/state/memory.rs', 'pvm/pvm-core/src/program/instruction/set.rs'])

prop('C31', 'Control flow only reaches basic-block starts',
     'A branch or jump that is taken lands only on the start of a basic block inside the code, dynamic jumps only on valid, aligned jump-table entries (or the halt address), and anything else panics; an untaken branch falls through to the next instruction. '
     'Basic blocks start exactly at the program start and after terminating instructions.',
     ['programs', 'inputs'], 'every program and register content',
     'Tests run a set of programs; targets range over all addresses.',
     [IS + 'branch*', IS + 'branch*', IS + 'jump*', IS + 'djump*', IS + 'load_imm_jump*', IS + 'ecalli', IS + 'trap', IS + 'fallthrough', 'fr_pvm_core::interpreter::Interpreter::skip', 'fr_pvm_core::interpreter::Interpreter::next_pc',
      'fr_pvm_core::program::loader::ProgramLoader::set_basic_block_start_indices', 'fr_pvm_core::program::loader::ProgramLoader::compute_skip_distances', 'fr_pvm_core::program::types::program_state::ProgramState::*', 'fr_pvm_core::program::instruction::opcode::Opcode::is_termination_opcode'],
     files=['pvm/pvm-core/src/program/instruction/set.rs', 'pvm/pvm-core/src/program/loader.rs'])

prop('C32', 'Every instruction is paid for before it takes effect; exits are exact',
     'The machine charges each instruction\'s gas before applying its effects, stops as out of gas when it cannot pay, and never lets gas grow. '
     'Halt, panic, page fault, host-call and out-of-gas exits surface to the caller with the matching result and remaining gas.',
     ['programs', 'inputs'], 'every program and gas limit',
     'Tests run with ample gas.',
     ['fr_pvm_core::gas::*', 'fr_pvm_core::program::instruction::set::InstructionSet::ecalli', 'fr_pvm_core::program::instruction::set::InstructionSet::trap', 'fr_pvm_core::interpreter::Interpreter::invoke_general', 'fr_pvm_core::interpreter::Interpreter::invoke_single_step', 'fr_pvm_core::state::state_change::VMStateMutator::*', 'fr_pvm_interface::invoke::*', 'fr_pvm_interface::invoke::PVMInterface::invoke_extended', 'fr_pvm_types::*'],
     rules=['panicfree'], files=['pvm/pvm-core/src/interpreter.rs', 'pvm/pvm-core/src/gas.rs', 'pvm/pvm-interface/src/invoke.rs'])

prop('C33', 'Programs load into the fixed memory layout or are rejected',
     'A program blob is accepted only if it is well-formed and its sections fit the address space; then read-only data, writable data, stack and arguments occupy their fixed zones with their fixed permissions, and registers start with their fixed values. '
     'Anything else is rejected without running.',
     ['programs', 'inputs'], 'every program blob and argument',
     'Tests load a few well-formed blobs.',
     ['fr_pvm_core::program::loader::*', 'fr_pvm_core::program::loader::ProgramLoader::decode_instructions', 'fr_pvm_core::program::types::*', 'fr_pvm_interface::pvm::*', 'fr_pvm_interface::pvm::PVM::setup_memory_layout', 'fr_pvm_core::utils::VMUtils::page_*', 'fr_pvm_core::utils::VMUtils::zone_*',
      'fr_pvm_interface::invoke::PVMInterface::invoke_with_args'],
     rules=['panicfree'], files=['pvm/pvm-core/src/program', 'pvm/pvm-interface/src/pvm.rs'])

prop('C34', 'Refinement and authorization produce the protocol\'s results',
     'Refining a work item and checking its authorization run the right code with the right arguments and gas, and classify every outcome (missing code, oversized code, panic, out of gas, success) with its matching result; '
     'a work report\'s digests, outputs and availability specification are computed from exactly the package\'s items.',
     ['inputs', 'programs'], 'every work package and refinement outcome',
     'There are no tests of these pipelines.',
     [INV + 'refine::*', INV + 'refine::pipeline::*', INV + 'is_authorized::*', INV + 'refine::avail_spec::*', 'fr_common::types::workloads::*', 'fr_merkle::constant_depth_tree::*', 'fr_pvm_types::*',
      'fr_pvm_host::context::IsAuthorizedHostContext::*'],
     files=['pvm/pvm-invocation/src/refine', 'pvm/pvm-invocation/src/is_authorized.rs', 'common/src/types/workloads'])

# ---------------------------------------------------------------- state storage
prop('C35', 'State entries map to distinct keys and every component is present',
     'Each state component and each account item has its own key, derived from the service and item exactly as the protocol defines, so no two logical entries collide by construction; initialising a state writes every component.',
     ['inputs'], 'every service id, storage key, preimage hash and length',
     'Tests check a few fixed vectors.',
     ['fr_state::state_utils::*', 'fr_node::genesis::genesis_simple_state',
      'fr_state::*::from_entry_type',
      'fr_state::*::into_entry_type'],
     files=['state/src/state_utils.rs'])

prop('C36', 'The state cache tracks dirtiness exactly and reverts exactly',
     'A changed entry stays recorded as dirty until it is committed or rolled back, commits cover exactly the dirty entries, and rollback restores every entry to its last committed value. '
     'A failed update leaves the entry as it was.',
     ['histories', 'inputs'], 'every sequence of reads, updates, commits and rollbacks',
     'Tests sample short sequences.',
     ['fr_state::cache::*', 'fr_state::manager::*', 'fr_db::core::cached_db::*', 'fr_state::manager::StateManager::*_state_entry', 'fr_state::manager::StateManager::commit_to_state_db', 'fr_state::manager::StateManager::insert_clean_cache_entry_and_snapshot',
      'fr_state::*::from_entry_type',
      'fr_state::*::from_entry_type_mut',
      'fr_state::*::into_entry_type'],
     files=['state/src/cache.rs', 'state/src/manager.rs'])

prop('C37', 'The state trie and its stored nodes follow every committed change',
     'Committing a set of changed entries updates exactly the trie paths they affect, in the structure the protocol defines for leaves and branches, and the recorded root is the hash of the committed trie. '
     'Retrieval by key follows the same paths.',
     ['inputs', 'histories'], 'every set of inserts, updates and removals against every trie shape',
     'Tests sample a few small tries.',
     ['!fr_state::merkle_interface::manager::*', 'fr_state_merkle_v2::*', 'fr_state::merkle_interface::actor::*'],
     files=['state/src/merkle_interface', 'state/state-merkle-v2/src'])

prop('C38', 'Database failures surface and caches never run ahead of the database',
     'A failed database read, write or batch is reported to the caller, never turned into an absent value or a silent success, and in-memory caches are updated only after the corresponding write succeeded.',
     ['fault_sequences', 'histories'], 'every database operation failing at any point',
     'Tests never inject database failures.',
     ['fr_db::*', 'fr_state_merkle_v2::merkle_db::*', 'fr_block::*_db::*', 'fr_state::state_db::*', 'fr_storage::node_storage::*', 'fr_storage::node_storage::*', 'fr_state::manager::StateManager::get_raw_state_entry_from_db', 'fr_state::manager::StateManager::commit_to_state_db'],
     files=['db/src/core', 'state/state-merkle-v2/src/merkle_db.rs', 'block/src/header_db.rs'])

prop('C39', 'Header database, ancestry and ring cache stay consistent with the chain',
     'Every accepted header is stored under its hash and added to the ancestor set, which holds only ancestors within the maximum lookup age; the best header is always a stored one. '
     'Ring verification keys are cached only for the validator set they were built from and are rotated exactly at epoch changes.',
     ['histories'], 'every sequence of imports, including skipped epochs',
     'Tests sample short sequences.',
     ['fr_block::header_db::*', 'fr_block::ancestors::*', 'fr_state::manager::StateManager::*ring*', 'fr_state::manager::StateManager::*staging*', 'fr_transition::ring_cache::*', 'fr_state::manager::StateManager::nullify*', 'fr_crypto::vrf::ring::*',
      'fr_block::ancestors::AncestorSet::default'],
     files=['block/src/header_db.rs', 'block/src/ancestors.rs', 'state/src/manager.rs', 'transition/src/ring_cache.rs'])

# ---------------------------------------------------------------- codec
prop('C40', 'Encoding and decoding of every type mirror each other',
     'For every encodable type, decoding reads the fields in the order, number and form in which encoding writes them, and each enum variant and optional field uses the same tag in both directions.',
     ['inputs'], 'every value of every encodable type',
     'Round-trip tests sample a few values of some types.',
     ['fr_codec::*', '!fr_codec::integer_*', 'fr_codec_derive::*', '*::encode_to', '*::encode_to_fixed', '*::decode', '*::decode_fixed',
      'fr_block::types::extrinsics::*::partial_cmp',
      'fr_block::types::extrinsics::XtEntry::hash',
      'fr_block::types::extrinsics::Extrinsics::into_db_value',
      'fr_block::types::extrinsics::Extrinsics::from_db_kv',
      'fr_common::types::ticket::Ticket::partial_cmp',
      'fr_common::types::ByteArray::*',
      'fr_common::types::ByteSequence::*',
      'fr_common::types::ByteArray::default',
      'fr_common::std::vec::Vec::*',
      'fr_common::utils::serde::*',
      'fr_common::utils::serde::*::visit_str',
      'fr_crypto::types::*::as_slice',
      'fr_crypto::types::*::from_slice',
      'fr_crypto::types::*::from_hex',
      'fr_crypto::types::*::to_hex',
      'fr_state_merkle_v2::types::MerklePath::partial_cmp'],
     files=['codec/fr-codec/src/lib.rs', 'codec/fr-codec-derive/src/lib.rs', 'block/src/types', 'common/src/types', 'state/src/types'])

prop('C41', 'Decoding untrusted bytes fails cleanly on bad input',
     'Decoding any byte string either yields a value or an error: it never reads past the input, never panics, never allocates in proportion to an unverified length, and rejects unknown tags, invalid booleans and non-canonical sizes.',
     ['inputs'], 'every byte string offered to every decoder',
     'Tests decode mostly valid inputs.',
     ['fr_codec::*decode*', 'fr_codec::*read*', 'fr_codec::integer_decode', '*::encode_to_fixed', '*::decode', '*::decode_fixed'],
     rules=['decodesafe'], files=['codec/fr-codec/src/lib.rs'])

# ---------------------------------------------------------------- node and network
prop('C42', 'Peers cannot crash or confuse the node through its protocols',
     'Bytes received from a peer on any stream are decoded, dispatched by stream kind and answered or rejected without ending the process, and a failure on one stream or connection leaves the others running. '
     'Block requests return only stored blocks in the requested direction and number.',
     ['inputs', 'fault_sequences'], 'every message and disconnect by a peer',
     'There are no tests of the network layer against bad peers.',
     ['fr_network::*', 'fr_network::manager::*', 'fr_network::streams::*', 'fr_storage::node_storage::*', 'fr_block::types::block::BlockHeader::block_announcement_blob',
      'fr_crypto::types::public_keys::Ed25519PubKey::as_dns_name',
      'fr_crypto::types::public_keys::Ed25519PubKey::from_dns_name',
      'fr_crypto::types::validator_keys::ValidatorMetadata::socket_address'],
     rules=['peerpanic'], files=['network/src', 'storage/src/node_storage.rs'])

prop('C43', 'The fuzz target follows its protocol and isolates each import',
     'The fuzzing endpoint answers each message in its protocol order, refuses messages out of order, imports blocks onto their parent\'s state with forks staged and committed only when built upon, and restores all caches when an import fails or panics.',
     ['histories', 'inputs'], 'every sequence of protocol messages and blocks, including forks and failing imports',
     'Tests replay recorded traces.',
     ['fr_fuzz::*', 'fr_fuzz::fuzz_target::*', 'fr_fuzz::utils::*'] + ['fr_fuzz::fuzz_target::FuzzTargetRunner::' + f for f in (
         'process_message', 'handle_fuzzer_session', 'build_state_for_hash', 'finalize_if_parent_staged', 'apply_state_deltas_to_state_keys', 'collect_state_from_keys')],
     files=['fuzz/src'])

prop('C44', 'Authored blocks are assembled, sealed and committed in the importable order',
     'A locally authored block is built on the best header, takes its author\'s entropy signature and markers before it is sealed, is sealed last with the slot\'s key and context, and its header and state are committed together with the same transitions an importer would run.',
     ['histories', 'schedules'], 'every authored slot in ticket and fallback mode',
     'Tests author a few blocks.',
     [NR + 'author::BlockAuthor::*', NR + 'author::*', NR + 'manager::*', 'fr_node::scheduler::*', 'fr_clock::*'],
     files=['node/src/roles/author.rs', 'node/src/scheduler'])

prop('C45', 'Shared locks are taken in one global order and never across suspension points',
     'No two threads can deadlock on the node\'s shared locks: whenever one lock is held while another is taken, every other place takes them in the same order, and no blocking lock is held while a task is suspended.',
     ['schedules'], 'every interleaving of threads and tasks',
     'Deadlocks need a particular interleaving.',
     ['fr_extrinsics::pool::*', 'fr_extrinsics::manager::*'],
     rules=['locks'], files=['extrinsics/src/pool.rs', 'state/src/manager.rs', 'network/src'])

prop('C46', 'The node starts from genesis with the complete, fixed initial state',
     'Starting a node installs the genesis block, the validator sets, every state component and their committed root before it serves or authors, from the same chain specification everywhere, and its databases open with every table the node uses.',
     ['configurations'], 'every node configuration and start',
     'Tests start one development configuration.',
     ['fr_node::genesis::*', 'fr_node::jam_node::init::*', 'fr_node::jam_node::*', 'fr_node::keystore::*', 'fr_config::*', 'fastroll::main', 'fr_storage::node_storage::NodeStorage::new',
      'fr_config::*::default',
      'fr_storage::node_storage::NodeStorage::default'],
     files=['node/src/genesis', 'node/src/jam_node', 'config/src/lib.rs', 'node/src/keystore'])

# ---------------------------------------------------------------- common
prop('C47', 'Bounded collections never exceed their bounds',
     'A bounded list never holds more elements than its limit and a fixed list always exactly its size, however it is built, extended or decoded; an operation that would break the bound fails or drops the oldest element as documented and leaves the rest intact.',
     ['inputs', 'histories'], 'every sequence of operations and every decoded input',
     'Tests sample a few sizes.',
     ['fr_limited_vec::*', 'fr_codec::fr_limited_vec::*',
      'fr_limited_vec::*::default'],
     files=['common/limited-vec/src/lib.rs', 'codec/fr-codec/src/lib.rs'])

prop('C48', 'Protocol constants have their specified values in each chain configuration',
     'Every protocol constant has the value the chain specification gives it, in the small test configuration and the full configuration alike, and derived constants are derived from them by the specified formula.',
     ['configurations'], 'both chain configurations',
     'Tests run with whatever values are compiled in.',
     [],
     rules=['consts'], files=['common/src/constants.rs'])

prop('C49', 'Merkle commitments are built with domain separation and fixed shape',
     'Well-balanced and constant-depth trees, proofs and mountain ranges hash leaves and inner nodes with their fixed prefixes, split and pad at fixed positions, and handle empty and single inputs as the protocol defines.',
     ['inputs'], 'every number and content of leaves',
     'Tests check a few vectors.',
     ['fr_merkle::*'],
     files=['merkle/src'])

prop('C50', 'Consensus-critical computation is deterministic',
     'Nothing that feeds the state transition, the state root, encodings or commitments depends on hash-map iteration order, wall-clock time, randomness, thread completion order or addresses.',
     ['schedules', 'configurations'], 'every run of the same block on any machine',
     'A test compares one run with a fixture; iteration order can coincide.',
     [],
     rules=['determinism'], files=['transition/src', 'extrinsics/src', 'pvm', 'state/src', 'merkle/src'])

prop('C51', 'Erasure coding pads, splits and reassembles by the fixed layout',
     'Encoding pads data to the piece size and produces exactly the configured number of shards in order, and recovery accepts any sufficient set of correctly indexed shards, rejects too few, and returns data of the original layout.',
     ['inputs'], 'every data length and shard subset',
     'There are few tests of the codec.',
     ['fr_erasure_coding::*', 'fr_common::utils::zero_pad::*'],
     files=['common/erasure-coding/src/lib.rs'])

# ---------------------------------------------------------------- neighbours
# Functions a property also passes through: the steps that call its own functions, and the helpers they rest on.
EX = NR + 'executor::BlockExecutor::'
PRE, POST = EX + 'run_state_transition_pre_header_commitment', EX + 'run_state_transition_post_header_commitment'
IMP = NR + 'importer::BlockImporter::'
AH = HF + 'accumulate::AccumulateHostFunction::'
SM = 'fr_state::manager::StateManager::'
WIDE = {
    'C01': [IMP + 'run_state_transition', IMP + 'run_block_importer', 'fr_block::header_db::*', 'fr_block::ancestors::*', TR + 'timeslot::*', ST + 'timeslot::*'],
    'C02': [IMP + 'run_state_transition', 'fr_transition::state_prediction::*', NR + 'author::BlockAuthor::*', PRE, ST + 'entropy::*'],
    'C03': [PRE, IMP + 'validate_block_header_post_safrole', IMP + 'run_state_transition', TR + 'safrole::*', ST + 'safrole::*', 'fr_transition::state_prediction::*', 'fr_block::types::block::BlockHeader::*'],
    'C04': [IMP + 'validate_block', 'fr_state::cache::*', 'fr_block::post_state_root_db::*', 'fr_db::*', 'fr_state::merkle_interface::actor::*', SM + 'commit_to_state_db', 'fr_state::merkle_interface::manager::MerkleManager::*commit*',
            'fr_block::ancestors::*', EX + '*'],
    'C05': [NR + 'author::BlockAuthor::author_block_commit_state', NR + 'author::BlockAuthor::author_block_commit_header', TR + '*::transition_*', TR + 'safrole::mark_safrole_header_markers'],
    'C06': [TR + 'safrole::transition_safrole', 'fr_transition::ring_cache::*', SM + '*ring*', PRE, IMP + 'run_state_transition'],
    'C07': [POST, SM + 'lookup_historical_preimage', ST + 'services::AccountLookups*', 'fr_state::state_utils::get_account_*'],
    'C08': [POST, TR + 'reports::transition_reports_clear_availables', ST + 'validators::ValidatorSet::*', 'fr_crypto::types::validator_keys::ValidatorKeySet::*'],
    'C09': [PRE, POST, SM + 'nullify*', 'fr_transition::ring_cache::*', 'fr_crypto::signers::ed25519::*'],
    'C10': [POST, TR + 'reports::transition_reports_update_entries', 'fr_block::header_db::*', 'fr_block::ancestors::*', 'fr_common::types::workloads::work_report::*'],
    'C11': [POST, TR + 'reports::transition_reports_update_entries', 'fr_block::types::extrinsics::guarantees::*', ST + 'entropy::*', ST + 'timeslot::*',
            'fr_crypto::types::validator_keys::ValidatorKeySet::*'],
    'C12': [PRE, SM + '*ring*', 'fr_crypto::vrf::ring::*', 'fr_crypto::vrf::bandersnatch_vrf::RingVrfVerifier::*', IMP + 'run_state_transition', 'fr_crypto::types::validator_keys::ValidatorKeySet::*'],
    'C13': [POST, 'fr_block::types::extrinsics::disputes::*', XV + 'assurances::AssurancesXtValidator::validate', XV + 'guarantees::GuaranteesXtValidator::validate', ST + 'timeslot::*', 'fr_common::types::workloads::work_report::WorkReport::*'],
    'C14': ['fr_common::types::workloads::work_report::WorkReport::*', POST, PRE, IMP + 'run_state_transition', NR + 'author::BlockAuthor::author_block_commit_state', 'fr_state::types::accumulate::*', 'fr_limited_vec::*shift_push*',
            'fr_block::types::extrinsics::guarantees::GuaranteesXt::*'],
    'C15': [POST, PRE, INV + 'accumulate::pipeline::*', ST + 'timeslot::*'],
    'C16': [POST, EX + 'run_genesis_state_transition', 'fr_block::types::extrinsics::guarantees::*'],
    'C17': ['fr_pvm_types::invoke_args::*', POST, INV + 'accumulate::pipeline::*', ST + 'timeslot::*', 'fr_common::types::workloads::work_report::WorkReport::*'],
    'C18': [POST, INV + 'accumulate::AccumulateInvocation::*', CX + 'partial_state::*', TR + 'services::*', 'fr_common::types::workloads::work_report::WorkReport::*'],
    'C19': [INV + 'accumulate::pipeline::*', CX + 'partial_state::*', 'fr_pvm_interface::invoke::*', AH + 'host_transfer', AH + 'host_provide', 'fr_pvm_types::*', CX + 'InvocationContext::*'],
    'C20': [HF + '*', 'fr_pvm_core::interpreter::Interpreter::invoke_general', 'fr_pvm_core::state::memory::Memory::write_bytes', CX + 'InvocationContext::*'],
    'C21': ['fr_crypto::types::validator_keys::ValidatorKey::*', CX + 'partial_state::*PartialState::*', INV + 'accumulate::pipeline::*', TR + 'services::transition_on_accumulate', 'fr_pvm_core::state::vm_state::*', HF + 'HostCallResult::*'],
    'C22': [CX + 'partial_state::*', 'fr_pvm_core::state::vm_state::*', HF + 'HostCallResult::*', INV + 'accumulate::AccumulateInvocation::*', INV + 'accumulate::pipeline::*', TR + 'services::*'],
    'C23': ['*lookup_historical_preimage', CX + 'partial_state::*', 'fr_pvm_core::state::vm_state::*', TR + 'services::*', SM + 'lookup_historical_preimage', AH + 'host_eject', ST + 'services::AccountMetadata::*', CX + 'AccumulateHostContext::*'],
    'C24': ['*lookup_historical_preimage', CX + 'partial_state::*', 'fr_pvm_core::state::vm_state::*', 'fr_pvm_core::state::memory::*', 'fr_state::state_utils::get_account_*', CX + 'InvocationContext::*', 'fr_pvm_types::invoke_args::*',
            'fr_common::types::workloads::*', 'fr_pvm_host::utils::*'],
    'C25': [TR + 'services::*', CX + 'AccumulateHostContext::*', CX + 'AccumulateHostContextPair::*', AH + 'host_checkpoint', INV + 'accumulate::*', SM + 'get_account_*', ST + 'services::*'],
    'C26': ['fr_pvm_core::state::memory::*', 'fr_pvm_core::program::loader::*', 'fr_pvm_core::interpreter::Interpreter::*', INV + 'refine::*', 'fr_pvm_core::state::vm_state::*', 'fr_common::utils::zero_pad::*', SM + 'get_account_code_by_lookup'],
    'C27': [IS + 'ecalli', 'fr_pvm_core::interpreter::Interpreter::invoke_general', 'fr_pvm_core::state::state_change::VMStateMutator::*', HF + 'HostCallResult::*'],
    'C28': ['fr_pvm_core::state::state_change::*', 'fr_pvm_core::interpreter::Interpreter::*', IS + '*', 'fr_pvm_core::utils::*', 'fr_pvm_core::program::types::*', 'fr_pvm_core::program::loader::*'],
    'C29': ['fr_pvm_core::state::memory::*', IS + '*', 'fr_pvm_core::state::vm_state::*', 'fr_pvm_core::state::state_change::*', 'fr_pvm_core::program::instruction::Instruction::*', 'fr_pvm_core::interpreter::Interpreter::invoke_single_step'],
    'C30': ['fr_pvm_core::program::loader::*', 'fr_pvm_core::utils::*', 'fr_pvm_interface::pvm::*', 'fr_pvm_core::interpreter::Interpreter::*', 'fr_pvm_host::utils::*'],
    'C31': ['fr_pvm_core::interpreter::Interpreter::*', 'fr_pvm_core::state::state_change::*', 'fr_pvm_core::program::loader::*'],
    'C32': ['fr_pvm_core::interpreter::Interpreter::*', 'fr_pvm_core::state::state_change::*', HF + 'HostCallResult::*', INV + 'accumulate::AccumulateInvocation::*', INV + 'refine::RefineInvocation::*', INV + 'is_authorized::*'],
    'C33': ['fr_pvm_core::program::types::formatted_program::FormattedProgram::decode', 'fr_pvm_core::state::memory::*', 'fr_pvm_core::state::vm_state::*', 'fr_pvm_interface::invoke::*'],
    'C34': [SM + 'get_account_code_by_lookup', SM + 'lookup_historical_preimage', 'fr_erasure_coding::*', 'fr_common::utils::zero_pad::*', 'fr_merkle::*', CX + 'RefineHostContext::*', 'fr_pvm_interface::invoke::*'],
    'C35': ['fr_state::manager::*', 'fr_node::genesis::*', EX + 'run_genesis_state_transition'],
    'C36': ['fr_state::state_db::*', 'fr_state::merkle_interface::actor::*', 'fr_state::state_utils::*'],
    'C37': ['fr_state::cache::*', SM + '*commit*', SM + 'retrieve_state_encoded', SM + 'merkle_root', 'fr_state::state_db::*'],
    'C38': ['fr_state::merkle_interface::actor::*', SM + 'retrieve_state_encoded', 'fr_state::cache::*', 'fr_block::ancestors::*', 'fr_state::merkle_interface::manager::MerkleManager::*', SM + '*commit*', IMP + '*', HF + 'general::*'],
    'C39': [IMP + 'import_block', IMP + 'run_block_importer', 'fr_fuzz::fuzz_target::*', TR + 'disputes::transition_disputes', TR + 'privileges::*', TR + 'safrole::transition_safrole', PRE,
            XV + 'guarantees::GuaranteesXtValidator::validate_lookup_anchor_block', SM + 'rollback_dirty_cache', XV + 'tickets::*'],
    'C40': ['fr_common::types::workloads::*'],
    'C42': ['fr_block::header_db::*', 'fr_block::xt_db::*', 'fr_node::jam_node::*', 'fr_block::types::block::*'],
    'C43': ['!fr_fuzz::*::encode_to', '!fr_fuzz::*::decode', 'fr_block::header_db::*', 'fr_block::ancestors::*', SM + '*commit*', SM + 'rollback_dirty_cache', SM + '*ring_cache*', 'fr_state::cache::*', IMP + '*', 'fr_block::post_state_root_db::*'],
    'C44': ['fr_extrinsics::pool::*', 'fr_extrinsics::manager::*', EX + '*', 'fr_block::types::block::*', 'fr_block::header_db::*', 'fr_crypto::vrf::bandersnatch_vrf::*', 'fr_node::keystore::*', SM + 'get_current_slot_sealer', 'fr_transition::state_prediction::*', 'fr_block::xt_db::*'],
    'C46': ['fr_block::types::block::Block*::*', 'fr_block::header_db::*', 'fr_block::post_state_root_db::*', EX + 'run_genesis_state_transition', 'fr_state::state_utils::add_all_simple_state_entries', SM + 'from_core_db', SM + '*commit*', 'fr_db::*', 'fr_node::scheduler::*'],
    'C47': ['fr_extrinsics::pool::*', ST + 'authorizer::*', ST + 'reports::*', ST + 'history::*', ST + 'safrole::*', ST + 'validators::*', ST + 'statistics::*', 'fr_common::types::workloads::work_report::*', 'fr_block::types::extrinsics::*'],
    'C49': [INV + 'refine::avail_spec::*', ST + 'history::*'],
    'C51': [INV + 'refine::avail_spec::*'],
}
for _p in P:
    _p['roots'] += [r for r in WIDE.get(_p['id'], ()) if r not in _p['roots']]

# ---------------------------------------------------------------- outside the reach of the source
NA = []


def na(id, title, statement, over, quant, why, files, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, roots=[], files=files, note='',
                   mech=[{'name': f, 'where': f} for f in files], reason=reason))


na('C90', 'The state root equals the Merkle root of the full state',
   'After any history of commits the recorded state root is the number one obtains by hashing the whole key-value state from scratch.',
   ['histories', 'inputs'], 'every history of commits',
   'Tests compare roots on a few fixture states.',
   ['state/state-merkle-v2/src', 'state/src/merkle_interface'],
   'Equality of an incrementally maintained hash with a from-scratch hash is a property of runtime values over unbounded histories; no dataflow or type argument in reach bounds it. '
   'The structural part (which paths are rewritten, how nodes are hashed) is claimed as C37 and C49.')
na('C91', 'Any sufficient subset of shards recovers exactly the original data',
   'For every data blob and every subset of shards of the required size, recovery returns the original data.',
   ['inputs'], 'every blob and every shard subset',
   'Tests try a few subsets.',
   ['common/erasure-coding/src/lib.rs'],
   'Correctness of Reed-Solomon recovery is an algebraic identity over runtime field elements inside an external library; a static argument over the source cannot decide it. Layout and rejection of short sets are claimed as C51.')
na('C92', 'Signatures and VRF outputs cannot be forged',
   'No party without the secret key can produce a seal, ticket proof or signature that verification accepts.',
   ['inputs'], 'every adversary',
   'Unforgeability is computational.',
   ['crypto/src'],
   'A cryptographic assumption about external primitives, not a property of this source. That verification results are demanded and bound to the right message and key is claimed as C02, C06, C08, C09 and C11.')
na('C93', 'A connected honest peer eventually receives every authored block',
   'When a block is authored and the connection stays up, every connected peer eventually learns of it and imports it.',
   ['schedules', 'fault_sequences'], 'every schedule and connection history',
   'Tests do not run networks of nodes.',
   ['network/src', 'node/src'],
   'A liveness property over timing, scheduling and an external QUIC stack; static analysis of this source cannot decide eventual delivery. Safety of the handlers is claimed as C42.')
