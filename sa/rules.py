"""Further analyses that decide parts of the properties directly from the facts."""
import hashlib, json, os, re
import extract
from facts import Facts, simp

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')

# ---------------------------------------------------------------------------------------------- constants
# Values of the JAM protocol parameters (Gray Paper 0.7.2, appendix I, and the published "tiny" and "full" chain
# parameters). Written from the specification, not from the code.
COMMON = {
    'ACCUMULATION_GAS_PER_CORE': 10_000_000, 'AUDIT_BIAS_FACTOR': 2, 'AUDIT_DA_IMPORT_FOOTPRINT': 4104 + 32 * 12, 'AUDIT_TRANCHE_PERIOD': 8,
    'AUTH_QUEUE_SIZE': 80, 'BLOCK_HISTORY_LENGTH': 8, 'COMMON_ERA_TIMESTAMP': 1_735_732_800, 'COMMON_ERA_TIMESTAMP_MILLIS': 1_735_732_800_000,
    'HASH_SIZE': 32, 'IS_AUTHORIZED_GAS_PER_WORK_PACKAGE': 50_000_000, 'MAX_AUTH_POOL_SIZE': 8, 'MAX_EXPORTS_PER_PACKAGE': 3072,
    'MAX_EXTRINSICS_PER_PACKAGE': 128, 'MAX_IMPORTS_PER_PACKAGE': 3072, 'MAX_IS_AUTHORIZED_CODE_SIZE': 64_000, 'MAX_PACKAGE_AND_DATA_SIZE': 13_791_360,
    'MAX_REPORT_DEPENDENCIES': 8, 'MAX_SERVICE_CODE_SIZE': 4_000_000, 'MAX_WORK_ITEMS_PER_PACKAGE': 16, 'MIN_BALANCE_PER_ITEM': 10,
    'MIN_BALANCE_PER_OCTET': 1, 'MIN_BASIC_BALANCE': 100, 'MIN_PUBLIC_SERVICE_ID': 1 << 16, 'PENDING_REPORT_TIMEOUT': 5, 'PUBLIC_KEY_SIZE': 336,
    'SEGMENT_SIZE': 4104, 'STATE_KEY_SIZE': 31, 'TRANSFER_MEMO_SIZE': 128, 'WORK_REPORT_OUTPUT_SIZE_LIMIT': 48 << 10,
    'X_0': 'b"jam_invalid"', 'X_1': 'b"jam_valid"', 'X_A': 'b"jam_available"', 'X_B': 'b"jam_beefy"', 'X_E': 'b"jam_entropy"', 'X_F': 'b"jam_fallback_seal"',
    'X_G': 'b"jam_guarantee"', 'X_I': 'b"jam_announce"', 'X_T': 'b"jam_ticket_seal"', 'X_U': 'b"jam_audit"',
    'ACCUMULATE_INITIAL_PC': 5, 'REFINE_INITIAL_PC': 0, 'IS_AUTHORIZED_INITIAL_PC': 0, 'HOSTCALL_BASE_GAS_CHARGE': 10, 'INIT_INPUT_SIZE': 1 << 24,
    'INIT_ZONE_SIZE': 1 << 16, 'INST_BASE_GAS_CHARGE': 1, 'JUMP_ALIGNMENT': 2, 'MAX_SKIP_DISTANCE': 24, 'MEMORY_SIZE': 1 << 32, 'PAGE_SIZE': None,
    'REGISTERS_COUNT': 13, 'STANDARD_PROGRAM_SIZE_LIMIT': 1 << 32, 'SPECIAL_HALT_VALUE': (1 << 32) - (1 << 16),
}
PER = {
    'tiny': {'VALIDATOR_COUNT': 6, 'CORE_COUNT': 2, 'EPOCH_LENGTH': 12, 'VALIDATORS_SUPER_MAJORITY': 5, 'FLOOR_TWO_THIRDS_VALIDATOR_COUNT': 4,
             'FLOOR_ONE_THIRDS_VALIDATOR_COUNT': 2, 'TICKET_CONTEST_DURATION': 10, 'TICKETS_PER_VALIDATOR': 3, 'MAX_TICKETS_PER_EXTRINSIC': 3,
             'GUARANTOR_ROTATION_PERIOD': 4, 'ACCUMULATION_GAS_ALL_CORES': 20_000_000, 'REFINE_GAS_PER_WORK_PACKAGE': 1_000_000_000, 'RING_SIZE': 6,
             'SLOT_DURATION': 6, 'DATA_SEGMENTS_CHUNKS': 1026, 'ERASURE_CHUNK_SIZE': 4},
    'full': {'VALIDATOR_COUNT': 1023, 'CORE_COUNT': 341, 'EPOCH_LENGTH': 600, 'VALIDATORS_SUPER_MAJORITY': 683, 'FLOOR_TWO_THIRDS_VALIDATOR_COUNT': 682,
             'FLOOR_ONE_THIRDS_VALIDATOR_COUNT': 341, 'TICKET_CONTEST_DURATION': 500, 'TICKETS_PER_VALIDATOR': 2, 'MAX_TICKETS_PER_EXTRINSIC': 16,
             'GUARANTOR_ROTATION_PERIOD': 10, 'ACCUMULATION_GAS_ALL_CORES': 3_500_000_000, 'REFINE_GAS_PER_WORK_PACKAGE': 5_000_000_000, 'RING_SIZE': 1023,
             'SLOT_DURATION': 6, 'DATA_SEGMENTS_CHUNKS': 6, 'ERASURE_CHUNK_SIZE': 684, 'MAX_LOOKUP_ANCHOR_AGE': 14400, 'PREIMAGE_EXPIRATION_PERIOD': 19200},
}
# tunables: no result depends on them
TUNABLE = re.compile(r'CACHE_SIZE|CHANNEL_SIZE|BUFFER_SIZE|CACHE_MAX_ENTRIES|DEFAULT_TIMEOUT|POLL_INTERVAL|READY_TIMEOUT|_CF_NAME|CLIENT_VERSION|DEFAULT_ROCKSDB_PATH|'
                     r'SOCKET|PATH_PREFIX|types::CHUNK_SIZE|ASN_|fr_test_utils')
_full = []


def full_facts():
    if not _full:
        d, info = extract.extract('full')
        _full.append(Facts(d))
    return _full[0]


def const_table(F):
    return {cr + '|' + F.cnorm(p): (v if len(v) < 400 else 'sha256 ' + hashlib.sha256(v.encode()).hexdigest(), ty, at) for cr, p, ty, v, at in F.items() if not TUNABLE.search(cr + '::' + p)}


def load_constspec():
    with open(os.path.join(SPEC, 'constvalues.json')) as f:
        return json.load(f)


def compare_consts(rec, now, only=None):
    """recorded {name: [value, type]} against the current table; a constant that is gone is looked for under another name"""
    viol, n = [], 0
    new = {}
    for k, (v, ty, at) in now.items():
        if k not in rec:
            new.setdefault((v, ty), []).append(k)
    for k, (v, ty) in rec.items():
        if only is not None and k not in only:
            continue
        n += 1
        c = now.get(k)
        if c is None:
            # moved, renamed, or replaced by its value (which the summaries of its users then show)
            continue
        if c[0] != v:
            viol.append({'key': 'const|' + k, 'message': '%s is %s, and the record has %s' % (k.split('|')[1], c[0][:120], v[:120]), 'at': c[2]})
    return viol, n


# constants that reach the property's functions through traits and types rather than by name
CONSTS_ALSO = {'C35': r'STATE_KEY', 'C40': r'SIZE_UNIT', 'C41': r'SIZE_UNIT', 'C42': r'^fr_network\|', 'C03': r'VALIDATOR_COUNT|EPOCH_LENGTH', 'C46': r'^fr_fuzz\|'}


def used_consts(ctx, prop, tier):
    """values of the named constants that the property's functions use"""
    s = load_constspec()
    names = set(s['use'].get(prop['id'], []))
    if prop['id'] in CONSTS_ALSO:
        names |= {k for k in s['tiny'] if re.search(CONSTS_ALSO[prop['id']], k)}
    v, n = compare_consts(s['tiny'], const_table(ctx.F), names)
    return v, {'obligations': n, 'rule': 'every named constant these functions use evaluates to its reviewed value'}


def rule_consts(ctx, prop, tier):
    s = load_constspec()
    viol = []
    n = 0
    confs = [('tiny', ctx.F), ('full', full_facts())]
    for conf, F in confs:
        now = const_table(F)
        v, k = compare_consts(s[conf], now)
        n += k
        for x in v:
            x['key'] += '|' + conf
            x['message'] += ' (%s chain parameters)' % conf
        seen = {x['key'] for x in v}
        viol += v
        want = dict(COMMON)
        want.update(PER[conf])
        for key, (val, ty, at) in sorted(now.items()):
            leaf = key.rsplit('::', 1)[-1]
            if not key.startswith(('fr_common|', 'fr_pvm', 'fr_crypto|')) or want.get(leaf) is None:
                continue
            n += 1
            if str(want[leaf]) != val and 'const|' + key + '|' + conf not in seen:
                viol.append({'key': 'const|%s|%s' % (key, conf), 'message': '%s is %s where the protocol specifies %s (%s chain parameters)' % (key.split('|')[1], val, want[leaf], conf), 'at': at})
        def num(leaf):
            for key, (val, ty, at) in now.items():
                if key.startswith(('fr_common|', 'fr_pvm_types|')) and key.rsplit('::', 1)[-1] == leaf and val.lstrip('-').isdigit():
                    return int(val)
        V, P, E = num('VALIDATOR_COUNT'), num('DATA_SEGMENTS_CHUNKS'), num('ERASURE_CHUNK_SIZE')
        rel = [('VALIDATORS_SUPER_MAJORITY', lambda x: x == V * 2 // 3 + 1), ('FLOOR_TWO_THIRDS_VALIDATOR_COUNT', lambda x: x == V * 2 // 3),
               ('FLOOR_ONE_THIRDS_VALIDATOR_COUNT', lambda x: x == V // 3), ('SEGMENT_SIZE', lambda x: x == P * E), ('ERASURE_CODE_TOTAL_CHUNKS', lambda x: x == V),
               ('ERASURE_CODE_MESSAGE_CHUNKS', lambda x: 2 * x == E), ('TICKET_CONTEST_DURATION', lambda x: x < num('EPOCH_LENGTH')),
               ('COMMON_ERA_TIMESTAMP_MILLIS', lambda x: x == 1000 * num('COMMON_ERA_TIMESTAMP'))]
        for leaf, ok in rel:
            x = num(leaf)
            if x is None:
                continue
            n += 1
            try:
                good = ok(x)
            except TypeError:
                continue            # an operand is not a plain constant any more
            if not good:
                viol.append({'key': 'relation|%s|%s' % (leaf, conf), 'message': '%s = %d does not stand in its defining relation to the other parameters (%s)' % (leaf, x, conf), 'at': ''})
    return viol, {'obligations': n, 'configurations': [c for c, _ in confs],
                  'rule': 'the value rustc evaluates for every constant item equals the specified or reviewed value, in both configurations; derived parameters satisfy their formulae'}


# ---------------------------------------------------------------------------------------------- locks
def rule_locks(ctx, prop, tier):
    import locks
    L = locks.Locks(ctx.F)
    E, Y, n = L.edges()
    viol = []
    for c in locks.cycles(E):
        where = []
        for a, b in zip(c, c[1:]):
            f, at = E[(a, b)][0]
            where.append('%s while %s is held in %s (%s)' % (b, a, f, at))
        viol.append({'key': 'cycle|' + ' > '.join(c), 'message': 'locks are taken in a cycle: ' + '; '.join(where), 'at': E[(c[0], c[1])][0][1]})
    seen = set()
    for l, f, at in Y:
        f = re.sub(r'(::\{closure#\d+\})+', '', f)
        if (l, f) not in seen:
            seen.add((l, f))
            viol.append({'key': 'yield|%s|%s' % (l, f), 'message': '%s: the blocking lock %s can be held while the task is suspended' % (f, l), 'at': at})
    return viol, {'obligations': len(L.ids) + len(E), 'functions': len(L.ids), 'functions_with_guards': n, 'edges': sorted('%s -> %s' % e for e in E),
                  'rule': 'a forward dataflow over MIR tracks which guards are alive; taking B while A is held gives an edge A -> B through calls; the graph has no cycle, and no blocking guard is alive at a suspension point'}


# ---------------------------------------------------------------------------------------------- panics
# explicit panics on these paths that cannot be reached, or that only configuration can cause; (crate, kind) -> how many, where and why
PANIC_OK = {
    ('fr_common', 'panic'): (1, 'zero_pad with a block size of zero: every caller passes a nonzero constant'),
    ('fr_merkle', 'unwrap Option<ByteArray<32>>'): (1, 'the peak was found present by the loop condition of the range\'s append'),
    ('fr_node', 'panic'): (1, 'is_author_of_slot without a key: only the local node\'s configuration'),
    ('fr_node', 'unwrap Result<DevAccountsInfo, Error>'): (1, 'the built-in development accounts'),
    ('fr_pvm_core', 'panic'): (1, 'immediate sizes come from min(4, ..)'),
    ('fr_pvm_host', 'panic'): (3, 'states that earlier tests in the same host call exclude (host_new, host_query, eject_account)'),
}
ZONES = {
    'C32': ('guest execution', r'Interpreter::|PVM::|invoke_with_args|invoke_general|execute_host_function'),
    'C33': ('program loading', r'ProgramLoader::|FormattedProgram::|load_program'),
    'C41': ('decoding', r'::(decode|decode_fixed)$|ProgramLoader::(load_program|deblob_program_code)$|FormattedProgram::'),
    'C42': ('peer protocols', r'(^|::)(streams::|manager::NetworkManager::(?!new)|read_stream_kind|handle_all_streams|run_ce_stream|run_up_stream|accept_connection)|BlockImporter::'),
}
_pan = {}


def panics_of(F):
    import panics
    if id(F) not in _pan:
        _pan[id(F)] = panics.Panics(F)
    return _pan[id(F)]


def rule_panicfree(ctx, prop, tier):
    P = panics_of(ctx.F)
    what, rx = ZONES[prop['id']]
    n, R, sites = P.zone(rx)
    viol = []
    if n == 0:
        viol.append({'key': 'panic|anchor', 'message': 'no entry point of %s was found' % what, 'at': ''})
    total = 0
    for k, v in sorted(sites.items()):
        total += len(v)
        ok = PANIC_OK.get(k, (0, ''))[0]
        if len(v) > ok:
            f, at = v[-1]
            viol.append({'key': 'panic|%s|%s' % k, 'message': '%s can panic (%s, reachable from %s)%s' % (
                f, k[1], what, '' if ok == 0 else ': %d such places, %d reviewed: %s' % (len(v), ok, ', '.join(x[0] for x in v))), 'at': at})
    return viol, {'obligations': len(R), 'entry_points': n, 'functions_reached': len(R), 'explicit_panics_reached': total,
                  'reviewed': {'%s %s' % k: v[1] for k, v in PANIC_OK.items() if k in sites},
                  'rule': 'no explicit panic and no undecided unwrap is reachable from %s' % what}


def rule_decodesafe(ctx, prop, tier):
    P = panics_of(ctx.F)
    viol, cov = rule_panicfree(ctx, prop, tier)
    n, R = P.reach(ZONES['C41'][1])
    looked, fs = 0, 0
    for i in sorted(R):
        s = simp(i)
        if re.search(r'encode|size_hint', s) or not re.search(r'(^|[^\w])(decode|decode_fixed|read|read_byte)"', ctx.F.index[i][0]):
            continue
        b = ctx.F.body(i)
        if not s.endswith(('::read', '::read_byte')) and 'Loader::' not in s and not any(re.match(r'^&(mut|\'\w+ mut) (&(mut )?\[u8\]|[A-Z]\w{0,3}|.*JamInput.*)$', b.ty(l)) for l in range(1, b.argc + 1)):
            continue            # takes no input stream
        fs += 1
        v, k = P.unchecked(i)
        looked += k
        for m, at in v:
            viol.append({'key': 'decode|%s|%s' % (s, m), 'message': '%s: %s' % (s, m), 'at': at})
    cov.update({'decoders': fs, 'allocation_and_slice_sites': looked, 'obligations': cov['obligations'] + looked})
    cov['rule'] += '; in a decoder the size of every allocation and the bounds of every slice that depend on the input pass through a comparison or `min` first'
    return viol, cov


rule_peerpanic = rule_panicfree


# ---------------------------------------------------------------------------------------------- determinism
NONDET_OK = {
    ('fr_node', 'the clock'): (2, 'spawn_timed measures how long a task took, for the log only'),
    ('fr_state', 'the clock'): (1, 'Timeslot::is_in_future: a header from the future is refused'),
    ('fr_state', 'a channel'): (1, 'the trie actor takes its requests one at a time, in the order they were sent'),
}
UNORDERED_OK = {
    ('fr_node', 'u32'): (1, 'the accumulated services: each one\'s own record is stamped'),
    ('fr_state', 'fr_common::ByteArray<31>'): (2, 'dirty keys: each is written under its own key'),
}
_det = {}


def first_arg(ty):
    """first type argument of the outermost map or set"""
    m = re.search(r'(?:Map|Set)<', ty)
    if not m:
        return ty
    d, k = 0, m.end()
    for j in range(k, len(ty)):
        c = ty[j]
        if c in '<([':
            d += 1
        elif c in ')]' or c == '>':
            d -= 1
        if d < 0 or d == 0 and c == ',':
            return ty[k:j]
    return ty[k:]


def rule_determinism(ctx, prop, tier):
    import determinism
    D = _det.get(id(ctx.F)) or _det.setdefault(id(ctx.F), determinism.Determinism(ctx.F))
    n, R = D.reach(determinism.ROOTS)
    viol, bans, its, iters = [], {}, {}, 0
    for i in sorted(R):
        s = re.sub(r'(::\{closure#\d+\})+', '', simp(i))
        cr = ctx.F.index[i][1]['crate']
        for what, callee, at in D.banned(i):
            bans.setdefault((cr, what), []).append((s, callee, at))
        for ty, bad, at in D.iterations(i):
            iters += 1
            if bad:
                its.setdefault((cr, first_arg(ty)), []).append((s, bad, at))
    for k, v in sorted(bans.items()):
        if len(v) > NONDET_OK.get(k, (0,))[0]:
            f, callee, at = v[-1]
            viol.append({'key': 'nondet|%s|%s' % k, 'message': 'consensus-critical code depends on %s: %s' % (k[1], ', '.join('%s calls %s' % x[:2] for x in v)), 'at': at})
    for k, v in sorted(its.items()):
        if len(v) > UNORDERED_OK.get(k, (0,))[0]:
            viol.append({'key': 'order|%s|%s' % k, 'message': 'the iteration order of a hash container (keys %s) reaches an ordered result: %s' % (k[1], '; '.join('%s: %s (%s)' % x for x in v)), 'at': v[-1][2]})
    if len(R) < 500:
        viol.append({'key': 'determinism|anchor', 'message': 'the consensus-critical entry points were not found', 'at': ''})
    return viol, {'obligations': len(R) + iters, 'functions': len(R), 'hash_iterations': iters, 'reviewed': {'%s: %s' % k: v[1] for k, v in list(NONDET_OK.items()) + list(UNORDERED_OK.items())},
                  'rule': 'in the code the block executor reaches, no clock, randomness, environment, address or completion order is used, and no hash container\'s iteration order reaches a sequence that is not sorted, an encoder or a choice'}
