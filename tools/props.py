#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'indicators/*.cc'
def m(name, where): return {'name': name, 'where': where}
GROUPS = {
 'C10': ('price and moving-average', 'sma ema wilders dema tema zlema rmta wma vwma kama trima vidya hma dwma lma shmma ahma pwma idwma swma hwma t3 ehma mgdyn medprice typprice wcprice avgprice lag crossover crossany decay edecay'),
 'C11': ('filter and cycle (DSP)', 'msw ssmooth roof lf rema gf1 gf2 gf3 gf4 bf2 bf3 edcf rmf hf hfema hfsma hd arsi mama mesastoch frama'),
 'C12': ('momentum and oscillator', 'mom roc rocr bop qstick apo ppo dpo ao cmo rsi trix macd kst copp tsi rmi smi er pfe vhf cci willr stoch stochrsi fisher ultosc posc rvi'),
 'C13': ('volume', 'marketfi ad adosc cmf emv nvi pvi obv wad vosc fi mfi vwap evwma pvt kvo'),
 'C14': ('range and band', 'tr natr cvi mass atr kc bbands abands pbands cmi'),
 'C15': ('directional and stop', 'vi dm di dx adx adxr psar'),
 'C16': ('statistical and regression', 'linreg linregintercept linregslope tsf fosc sum var stddev stderr md volatility emsd hurst'),
 'C17': ('extreme-tracking', 'aroon aroonosc max min pc ichi mhlma ce'),
}
PBT = 'property-based testing: seeded structured generators, crash-isolated workers, delta-debugging shrinker, replay files; oracle: '
def val(id, what, names, extra=''):
    return dict(id=id, title='%s indicators equal their definition at every bar' % what.capitalize(),
      statement='For every accepted option vector and every finite input series, each output of %s at each bar equals the mathematical definition of the indicator (the textbook formula with the start-up and zero-denominator conventions of the present code), within floating-point rounding. %sWhere rounding alone can flip a comparison or a denominator cancels completely, the value is not fixed by this property.' % (', '.join(names.split()), extra),
      over=['inputs', 'configurations'], text='all accepted options x all finite series of any length and regime (trends, flats, ties, zero ranges, spikes, zero volume, wide magnitudes), every output element',
      why='The smoke tests compare a handful of stored vectors with one or two option sets each on a few dozen bars; they never vary periods, lengths, ties or flat data, and cannot cover every option/series combination.',
      files=['indicators/%s.cc' % n for n in names.split()] + (['indicators/trend.h'] if id == 'C16' else []) + ['utils/buffer.c', 'utils/buffer.h', 'utils/ringbuf.hh', 'utils/minmax.h'],
      mech=[m('batch entry points ti_<name>', 'indicators/<name>.cc')],
      tech=PBT + 'independent reference models in long double with running error bounds (differential)',
      note='Differential testing against independent models of every indicator of the group; the models carry a rounding-error bound, so no fixed tolerance hides or invents a difference. Values at knife edges (comparison decided by rounding) are counted and not judged. No claim beyond the cases generated.')
P = [
 dict(id='C01', title='No memory error, undefined behaviour, failed assertion or leak on any call',
  statement='For any vector of finite options (periods within the range of an int) and any input series, calling any exported entry point (start, batch, reference, stream new/run/free, lookup) with buffers of exactly the documented sizes never reads or writes outside those buffers or freed memory, never executes undefined behaviour, never aborts or hangs, and releases every allocation it made. This holds for rejected options, empty series, series shorter than the start, and data containing NaN or infinities.',
  over=['inputs', 'configurations', 'histories'], text='all option vectors (accepted or not) x all series of 0 bars and up x all chunkings of a stream',
  why='Tests run a few option vectors on well-formed data of a fixed length without sanitizers; an out-of-bounds read by one element passes unnoticed and most sizes and options are never tried.',
  files=[A, 'utils/buffer.c', 'utils/ringbuf.hh', 'utils/localbuffer.h', 'utils/minmax.h'], mech=[m('option validation and size guards at the top of each function', A), m('ring buffers', 'utils/ringbuf.hh')],
  tech=PBT + 'AddressSanitizer, UndefinedBehaviorSanitizer, the code\'s own assertions, an allocation balance per call, a CPU-time limit',
  note='Every entry point of all 161 indicators under ASan+UBSan with exactly-sized heap buffers; only what the generated cases execute is judged.'),
 dict(id='C02', title='Outputs are written completely and exactly, inputs and options never',
  statement='A batch, reference or stream call that returns OKAY writes every one of the size minus start() elements due of every output array and nothing outside them (for a stream call: exactly the elements due for the bars of that call, given how many bars were fed before). A call that returns an error writes no output element. Inputs and options are never modified.',
  over=['inputs', 'configurations', 'histories'], text='all option vectors x all sizes from 0 x all chunkings',
  why='Tests allocate generous or exactly matching buffers for a few sizes and compare only the expected values; short series, sizes next to the start and every chunking are not covered.',
  files=[A, 'codegen.py'], mech=[m('start functions', A), m('progress bookkeeping in stream_run', A)],
  tech=PBT + 'canary-filled guarded buffers (validity predicate)', note='All 161 indicators, batch, reference and stream; canaries detect any write before, after or missing.'),
 dict(id='C03', title='Options are accepted or rejected consistently by every variant',
  statement='Each indicator accepts exactly its documented option domain (for example periods of at least 1, short period not above long, bounded factors) and returns INVALID_OPTION outside it without touching the outputs, whatever the series length. The batch function, the reference function and stream_new give the same verdict, and start() is non-negative for every accepted vector. stream_new stores a stream when and only when it returns OKAY.',
  over=['inputs', 'configurations'], text='all finite option vectors, dense around every boundary (0, negative, 1, fractional, equal, swapped, parity), x series lengths incl. 0',
  why='Tests use valid options only; the boundary of the accepted domain and the agreement between variants are never exercised.',
  files=[A], mech=[m('validation statements at the top of ti_<name>, ti_<name>_ref, ti_<name>_stream_new', A)],
  tech=PBT + 'acceptance table per indicator (reference predicate)', note='Acceptance predicates were read from the code and documentation of each indicator and are part of the trusted base.'),
 dict(id='C04', title='Streaming equals batch for every way of cutting the series',
  statement='Feeding a series of finite numbers to a stream in any sequence of chunks (single bars, empty chunks, uneven or one large chunk) yields exactly as many outputs as the batch call on the whole series, and the same values up to floating-point rounding. Every stream_run returns OKAY, and the stream\'s progress is minus start() when fresh and advances by the number of bars fed.',
  over=['inputs', 'histories', 'configurations'], text='all accepted options x all finite series x all chunkings',
  why='Tests stream one stored series per indicator in a few chunk sizes; state kept wrongly across a chunk boundary shows only for particular chunk/period combinations.',
  files=[A, 'utils/ringbuf.hh', 'utils/localbuffer.h', 'utils/minmax.h', 'utils/nanlast.hh'], mech=[m('stream state carried in ti_stream', A)],
  tech=PBT + 'batch result (differential), tolerance from the model\'s error bound', note='All 55 streaming indicators.'),
 dict(id='C05', title='Reference variants equal the plain variants',
  statement='Where an indicator has a _ref implementation it returns the same code and the same outputs, up to floating-point rounding, as the plain implementation for every accepted option vector and finite series of any length. For fi, rmi, smi, t3 and tsi, whose reference composes whole-period averages, the periods are whole numbers.',
  over=['inputs', 'configurations'], text='all accepted options x all finite series from 0 bars up',
  why='The fuzzer test compares the two on one random series with a few option vectors; short series, flat data and fractional periods are not reached.',
  files=[A], mech=[m('ti_<name>_ref', A)], tech=PBT + 'the second implementation (differential), tolerance from the model\'s error bound', note='All 46 indicators with a reference.'),
 dict(id='C06', title='Streams are independent and the generic stream calls dispatch correctly',
  statement='Any number of open streams, of the same or different indicators and options, fed in any interleaving with each other and with batch calls, each produce bit for bit what they produce when run alone with the same chunks. ti_stream_run, ti_stream_get_info, ti_stream_get_progress and ti_stream_free act on a stream exactly as its indicator\'s own functions do, and the options array may be reused or freed after stream_new.',
  over=['histories', 'schedules', 'configurations'], text='all sets of streams x all interleavings of feeds, batch calls and frees',
  why='Tests open one stream at a time.', files=[A, 'codegen.py'], mech=[m('ti_stream.index dispatch', 'codegen.py (indicators_index.c)'), m('per-stream state', A)],
  tech='stateful (model-based) property testing: random interleavings of open streams against each stream run alone', note='All 55 streaming indicators in companies of up to four streams. Single-threaded; threads are in C08.'),
 dict(id='C07', title='No look-ahead: outputs depend only on bars up to their own',
  statement='The outputs for the first k bars are the same, up to floating-point rounding, whether the series ends at bar k, continues, or continues differently. A longer series only appends outputs.',
  over=['inputs', 'configurations'], text='all accepted options x all finite series x all cut points x all futures',
  why='Tests compare whole outputs for one fixed length; a read of a later bar is invisible when the expected vector was produced by the same code.',
  files=[A], mech=[m('forward loops in ti_<name>', A)], tech=PBT + 'metamorphic relation (prefix, changed future), tolerance from the model\'s error bound', note='All 161 indicators.'),
 dict(id='C08', title='Calls are pure: same arguments, same result, from any thread',
  statement='Repeating any call (batch, reference, or a whole streaming run) with the same arguments gives bit-for-bit the same result, whatever calls came before, whatever the output buffers, heap and stack contained, and while other threads call the library.',
  over=['histories', 'schedules', 'inputs'], text='all calls x all preceding histories, prior memory contents and concurrent calls',
  why='Tests run each indicator once in a fresh process; uninitialised reads and hidden static state give the expected value there.',
  files=[A, 'utils/buffer.c', 'utils/ringbuf.hh'], mech=[m('no static mutable state; state initialised before use', A)],
  tech=PBT + 'repeat with different heap, stack and output contents and after other calls (metamorphic, bitwise); a share of the cases from four threads', note='All 161 indicators. Thread schedules are sampled, not enumerated.'),
 dict(id='C09', title='Element-wise math functions equal the C library function of each element',
  statement='abs, acos, add, asin, atan, ceil, cos, cosh, div, exp, floor, ln, log10, mul, round, sin, sinh, sqrt, sub, tan, tanh, todeg, torad and trunc map every element to the mathematical function of it, exactly for abs, ceil, floor, round and trunc at any magnitude and otherwise to within a few units in the last place, with NaN outside the real domain. They start at bar 0 and no element affects another.',
  over=['inputs'], text='all series; elements over the whole finite double range (trigonometric functions: |x| <= 1e6)',
  why='Tests sample a few small positive numbers; halves, negatives, large magnitudes and domain edges are not covered.',
  files=['indicators/%s.cc' % n for n in 'abs acos add asin atan ceil cos cosh div exp floor ln log10 mul round sin sinh sqrt sub tan tanh todeg torad trunc'.split()], mech=[m('one expression per element', A)],
  tech=PBT + 'long double C library functions (reference model)', note='24 functions; error allowance 4e-15 relative plus the model\'s bound.'),
] + [val(k, v[0], v[1], {'C10': 'Periods the code truncates count as whole numbers, periods it smooths with count as real numbers. '}.get(k, '')) for k, v in GROUPS.items()] + [
 dict(id='C18', title='Outputs scale and shift with the inputs as their unit demands',
  statement='Multiplying all prices by a positive constant multiplies every price-valued output by it and leaves every ratio, percentage or oscillator output unchanged; multiplying volumes does the same for volume-valued and volume-free outputs. Adding a constant to all prices adds it to price-level outputs and leaves differences and ranges unchanged. This holds for every indicator to which the unit applies, up to rounding.',
  over=['inputs', 'configurations'], text='all accepted options x positive OHLCV series x scale factors (powers of two) and whole-tick shifts',
  why='Tests use one price level; an absolute threshold or a mixed-up unit is invisible there.',
  files=[A], mech=[m('the formulas', A)], tech=PBT + 'metamorphic relations (scaling, translation)', note='133 indicators by a table of units; powers of two make scaling exact, so comparisons in the code cannot flip.'),
 dict(id='C19', title='Outputs stay within their documented range and order',
  statement='On consistent positive OHLCV bars, bounded oscillators stay in their range (RSI, MFI, DX, ADX, Aroon, Stochastic and the like 0..100, Williams %R -100..0, CMO, TSI, SMI -100..100, ER, VHF 0..1, BOP -1..1), dispersion measures are non-negative, and lower, middle and upper bands or channels are in order. Averages and channel lines with non-negative weights lie between the least and greatest of the inputs they average. No such output is NaN.',
  over=['inputs', 'configurations'], text='all accepted options x all consistent positive OHLCV series',
  why='Stored vectors never approach the limits; flat stretches, ties and single-direction runs are where ranges break.',
  files=[A], mech=[m('clamps, zero-denominator handling, weight normalisation', A)], tech=PBT + 'validity predicates (range, order, convexity)', note='64 indicators with a documented range or order.'),
 dict(id='C20', title='Windowed indicators forget everything before their window',
  statement='For every indicator defined on a fixed window of bars, the output at a bar equals, up to floating-point rounding proportional to the data seen, the output computed from that window alone, however long or extreme the history before it. No error accumulates or is carried in from earlier bars.',
  over=['inputs', 'histories', 'configurations'], text='all accepted options x histories up to thousands of bars incl. spikes x all bars',
  why='Tests run short series once from the start, so state that fails to leave the window never shows.',
  files=[A, 'utils/buffer.c', 'utils/ringbuf.hh', 'utils/minmax.h'], mech=[m('rolling sums, ring buffers, monotone queues', A)], tech=PBT + 'metamorphic relation (window alone, changed history)', note='69 windowed indicators.'),
 dict(id='C21', title='The registry finds every indicator by name and only those',
  statement='ti_find_indicator returns the entry whose name is exactly the given string and null for every other string; the table is sorted, without duplicates, terminated, and as long as ti_indicator_count says. Every entry\'s function pointers are the exported functions of that name (null exactly where the library has no such variant), and its counts match its non-empty input, option and output names.',
  over=['inputs'], text='all strings (exact names, edits, prefixes, extensions, case changes, random bytes) x all entries',
  why='Tests look up known names only.', files=['codegen.py', 'indicators.yaml'], mech=[m('binary search and table emitted by the generator', 'codegen.py')],
  tech=PBT + 'linear scan of the table and the dynamic symbol table', note='Names are compared byte for byte; the emitted table is the one built from the working tree.'),
]
NOT = []
try:
    from props_more import MORE, NOT_MORE
    P += MORE; NOT += NOT_MORE
except ImportError:
    pass
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p.get('observe', ['public C API of the shared library']), 'hook_needed': None}}, ensure_ascii=False) + '\n')
        assert len(p['title']) <= 80, p['title']
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup',
        'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'env VERIF_TIER=thorough python3 check.py ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                    'technique': p['tech'], 'level': p.get('level', 'exploration'), 'level_note': p['note']} for p in P],
        'not_applicable': NOT,
        'notes': 'No hooks in /repo: every check compiles the working tree with its own build (check.py). The only commits in /repo are repairs of genuine defects (fix:), listed in known_findings.txt.'}, f, indent=1, ensure_ascii=False)
    f.write('\n')
