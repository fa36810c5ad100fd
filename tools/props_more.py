A = 'indicators/*.cc'
def m(name, where): return {'name': name, 'where': where}
PBT = 'property-based testing: seeded structured generators, crash-isolated workers, delta-debugging shrinker, replay files; oracle: '
MORE = [
 dict(id='C25', title='Running out of memory is reported, never a crash, leak or wrong result',
  statement='If any allocation inside a batch call, a reference call or the life of a stream fails, the call returns TI_OUT_OF_MEMORY (or completes with the right result without that memory). It never crashes, lets an exception escape through the C interface, leaks what it had allocated, or writes outside its outputs, and later calls with memory available work as if nothing had happened.',
  over=['fault_sequences', 'inputs', 'configurations'], text='all acceptable calls x every allocation point in them x single and persistent failure',
  why='Allocations never fail in the tests, so no failure path is executed by them at all.',
  files=[A, 'utils/buffer.c', 'utils/ringbuf.hh', 'utils/localbuffer.h'], mech=[m('null checks and catch (std::bad_alloc&) returning TI_OUT_OF_MEMORY', A), m('ti_buffer_new', 'utils/buffer.c')],
  tech='property-based testing with systematic fault injection: for each generated call every allocation made to fail in turn; oracle: return code, allocation balance, crash isolation, repeat of the call',
  note='Every allocation point of each generated call, alone and with all later ones (sampled above 60 points per call); allocations through malloc, calloc, realloc and operator new.'),
 dict(id='C26', title='Quiet markets never give NaN, infinity or values out of range',
  statement='On consistent positive OHLCV bars whose prices stand still, whose ranges are zero or on which nothing is traded, for all or part of the series, every indicator except cmi, cvi, emv, mgdyn, pwma, rmf, rmta and vi (whose definitions divide by a quantity that is then zero or diverge for some options) gives finite outputs, from the batch, reference and stream functions alike, and bounded oscillators (smi aside) stay in their range: the rounding left in a running sum by a busier past is never divided by itself.',
  over=['inputs', 'configurations', 'histories'], text='all accepted options x consistent market data with quiet stretches',
  why='The tests draw random walks in which no price repeats and volume is never zero, so zero denominators and cancelled sums do not occur.',
  files=[A, 'utils/buffer.h'], mech=[m('zero-denominator conventions and resets of running sums', A)],
  tech=PBT + 'every output finite; bounded oscillators within 1% of their range',
  note='Prices within a factor 1000 of each other for the range rule; quiet stretches of any length at any place.'),
 dict(id='C22', title='The Python binding returns exactly what the C functions compute',
  statement='For every indicator, any accepted options and any numeric inputs of equal length (lists, tuples, integer, single-precision, strided, reversed or read-only arrays; positional or by keyword), the Python function returns bit for bit the values of the C function, in index order under the index\'s names, with NaN for the bars before the start (or without those bars when padding is off). Rejected options, unknown names and wrong arguments raise the documented errors; inputs are never modified and results are not changed by later calls. The descriptions the binding gives (names, inputs, options, outputs, type, version) are those of the index.',
  over=['inputs', 'configurations'], text='all indicators x all options x all input forms and lengths x both padding modes',
  why='No test of the repository imports the binding at all.',
  files=['bindings/python/tindicators/__init__.py', 'bindings/python/tindicators/impl.py'], mech=[m('ctypes wrapper and padding', 'bindings/python/tindicators/impl.py')],
  tech='property-based testing with Hypothesis (generation and shrinking): the binding against the C functions called through independent ctypes prototypes (differential, bitwise)',
  note='The names expected come from indicators.yaml. Indicators whose two inputs have the same name are called positionally only.'),
 dict(id='C23', title='Generated header, tables, look-up and documents say what the index says',
  statement='For any well-formed index, what is generated from it compiles, declares every listed function with its documented signature, and yields a table whose entries equal the index (name, full name, type, counts, input, option and output names, functions, missing variants null), in order, with a look-up that finds every listed name and no other. Implementation templates are written for new indicators only, existing files are never changed, a second run changes nothing, and the documentation lists each indicator with its own description.',
  over=['programs', 'inputs'], text='all indexes (names that prefix one another, 1-5 inputs, 0-10 options, 1-10 outputs, any features) x all states of the implementation directory',
  why='The tests run the generator on the one committed index only.',
  files=['codegen.py', 'docsgen.py', 'indicators.yaml'], mech=[m('header, table and enum templates', 'codegen.py'), m('templates for new indicators', 'codegen.py'), m('document templates', 'docsgen.py')],
  tech='property-based testing with Hypothesis (generation and shrinking): random indexes in a scratch directory, the generated code compiled and its table read back and compared with the index (round trip)',
  note='Runs the generator in a scratch directory with a stand-in for git that only moves files.'),
 dict(id='C24', title='The sliding-window containers answer like plain lists',
  statement='After any sequence of operations, the ring buffers and running-sum buffers shared by the indicators hold exactly the last values stored, give each by its age, find an extremum of exactly the last bars asked for, and keep a running sum equal to the sum of the values held (zero for zeros). Containers side by side in one block never touch each other, and the ordering used for sorting is a strict weak one with NaN last.',
  over=['histories', 'configurations'], text='all operation sequences x all sizes x all values',
  why='The containers have no tests of their own; indicators exercise a few sizes and never the positions where a window wraps around with ties.',
  files=['utils/ringbuf.hh', 'utils/localbuffer.h', 'utils/buffer.h', 'utils/buffer.c', 'utils/minmax.h', 'utils/nanlast.hh'], mech=[m('ringbuf<N>, ringbuf<2>, ringbuf<0>', 'utils/ringbuf.hh'), m('BUFFER_* macros', 'utils/localbuffer.h'), m('ti_buffer_push, ti_buffer_get', 'utils/buffer.h')],
  tech='stateful (model-based) property testing: random operation sequences against a list, under AddressSanitizer and UndefinedBehaviorSanitizer with assertions, crash-isolated, with shrinking and replay files',
  note='Compiles small programs against the headers of the tree; a family whose interface has been renamed is reported as not judged.'),
 dict(id='C27', title='Indicators defined through one another agree',
  statement='For whole-number periods and any finite series, each of 77 indicators (aroonosc natr atr tr stddev stderr var volatility bbands macd apo ppo mom roc rocr lag dx adx adxr tsf linreg linregintercept linregslope fosc willr stoch stochrsi dema tema trix hma dwma trima pwma sum sma adosc ao max min pc ichi vwma vwap qstick cci typprice wcprice avgprice dpo vosc kc mass cvi crossany crossover er vhf tsi fi copp mhlma obv cmo ema sub div tan todeg log10 cosh sinh tanh acos ceil trunc sqrt) equals, within rounding and where no denominator is zero, the composition of other indicators of the library that defines it: bands around the moving average and deviation they name, oscillators from the averages and extremes they are made of, smoothed indicators from their unsmoothed form, and inverse or complementary functions from one another.',
  over=['inputs', 'configurations'], text='all whole-number options x all finite series',
  why='The tests compare each indicator with stored numbers of its own only; no test relates two indicators.',
  files=[A], mech=[m('batch entry points ti_<name>', A)],
  tech=PBT + 'metamorphic relation between indicators: the composition of other library functions over derived series',
  note='77 relations, each computed with the library alone; tolerance from the error bound of the model. Independent of the models\' values, so a shared misreading of a definition in code and model does not hide here.'),
]
NOT_MORE = []
