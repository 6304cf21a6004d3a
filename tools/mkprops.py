#!/usr/bin/env python3-vt
# Source of /verif/properties.jsonl (one property per line). Run: python3 tools/mkprops.py
import json,os
T='include/thls/tops/'
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[T+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mechanism],
        observe_at=list(observe),hook_needed=hook)))

ALLOPS=['fw_uint.hpp','fw_uint_on_masked_uint.hpp','fp_flopoco.hpp','fp_ieee.hpp','fp_convert.hpp','fp_promote.hpp','fp_flopoco_ordering.hpp',
 'fp_flopoco_add_dual_v1.hpp','fp_flopoco_add_single_v1.hpp','fp_flopoco_add_single_v2.hpp','fp_flopoco_add_single_v3.hpp','fp_flopoco_add_single_v4.hpp','fp_flopoco_add_single_v5.hpp',
 'fp_flopoco_mul_v1.hpp','fp_flopoco_div_v1.hpp','fp_flopoco_div_v2.hpp','fp_flopoco_inv_v1.hpp','fp_flopoco_inv_nr.hpp','fp_flopoco_neg_v1.hpp','fp_flopoco_fma.hpp',
 'fp_flopoco_dot2_pos_rndd.hpp','fp_flopoco_dot4_pos_rndd.hpp','bit_heap.hpp','bit_heap_mul.hpp','row_heap.hpp','lut_opt.hpp','policy_flopoco.hpp','policy_ieee_on_flopoco.hpp','policy_native.hpp','policy_softfloat.hpp','policy_test.hpp','make_input.hpp']
LAZY=[('exclusion/quotient tables','lookup tables built on first use by whichever caller arrives first',T+'fp_flopoco_add_single_v1.hpp:273,554; _v3:251,421; _v4:269,528; _v5:113,277'),
 ('reciprocal seed tables','one table per format, filled on first use from double arithmetic',T+'fp_flopoco_inv_nr.hpp:191,287'),
 ('MASK','per-instantiation constant behind bit extraction',T+'fw_uint_on_masked_uint.hpp get_bits'),
 ('MPFR per-thread state','exponent range narrowed and restored around reference operations',T+'policy_native.hpp, policy_flopoco.hpp, policy_ieee_on_flopoco.hpp')]

p('C01','Concurrent callers never disturb each other',
 "Any number of threads may call the library's operations at the same time, each on its own values or on constant objects shared between them, in any interleaving, including the very first call of an operation in the process, and including threads that start after others have ended and calls made while a thread is ending (by the destructors of its thread-local objects). Every call returns exactly the bits (or the same exception) that the same call returns when made alone in a fresh process, and every call finishes. No two calls access the same memory, one of them writing, without an order between them that the C++ memory model recognises (a data race), even where the interleaving at hand happens to give the right bits.",
 ['schedules','inputs'],'every interleaving of up to 40 threads at the granularity of single memory accesses of the library, over every operation of the catalogue, its formats and operands',
 'Every existing test is single-threaded: no interleaving at all is sampled, and the lazily built tables are only ever initialised by one caller.',
 ALLOPS,[('guarded function-local statics','add_single_v1/v3/v4/v5, inv_nr, to_double'),('value semantics: operators only read their arguments','all operator headers'),('MPFR thread-local state','policy_*.hpp')],LAZY,
 ['returned bits of every operation','exception type and text','termination within a step bound','happens-before order of the accesses of different threads'])
p('C02','Results do not depend on call history',
 "The value an operation returns depends only on its arguments and its formats: it is the same whatever was called before it in the same thread or process, in whatever order and however often, including earlier calls that failed with an exception or were abandoned, whatever stale bytes earlier calls left on the stack and heap, and whatever the surroundings of the process are (clock, environment variables, process id, errno, host random sources, an exception being propagated), and whatever the object that receives the result held before, even if that object is itself an operand or one object is passed for several operands; a result that has been handed out, a table entry by reference included, keeps its value whatever is called afterwards; no call reads or writes memory that belongs to no live object (through a reference to a temporary or local that has ceased to exist, a released block, or beyond the end of a table or array), even if what lies there happens to be the expected value.",
 ['histories','inputs'],'every call history (mixed operations and formats, repeats, bursts of up to a million calls, rejected calls, callback failures) before the observed call',
 'Tests run each operation on one fixed input list in one fixed order and compare each result once; they never revisit an operand after a different history.',
 ALLOPS,[('stateless operators','all operator headers'),('const tables','add_single_*, inv_nr'),('zero-initialised values','fw_uint default constructor')],LAZY,
 ['returned bits of every operation'])
p('C03','Operators may be interrupted and re-entered at any instant',
 "An operation that is interrupted at any instant by code of the same thread which itself calls synthesizable operators (a signal or interrupt handler, possibly nested) still returns exactly the bits it returns uninterrupted, and so does every interrupting call. The only excluded instants are those inside the one-time construction of a lookup table.",
 ['schedules','inputs'],'every instant (memory access of the library) at which an interrupt is taken, any interrupting operator of the same or another format, nesting depth up to 9, several interrupts per call',
 'No test interrupts a call; re-entrancy is never exercised.',
 ALLOPS,[('no scratch state outside the call frame','all operator headers'),('const tables','add_single_*, inv_nr')],LAZY,
 ['returned bits of interrupted and interrupting operations'])
p('C04','The floating-point environment neither leaks in nor out',
 "Synthesizable operators, integer types, heaps, bit-level conversions and MPFR reference functions (everything but approximate conversions to the host double type and decimal text) return the same bits under every floating-point environment of the calling thread (rounding mode, flush-to-zero, denormals-are-zero, pending exception flags; for synthesizable operators also traps enabled for invalid, division by zero and overflow, none of which they trigger), even if that environment was in force when the operation was first used and changed later. They leave rounding mode, flush/denormal control and trap masks as they found them, on normal return and on exception.",
 ['configurations','histories'],'every sequence of environment changes between and (via interrupts) around calls, including at first use',
 'The tests run only in the default environment and never look at it afterwards.',
 ['fp_flopoco_inv_nr.hpp','fp_flopoco.hpp','policy_flopoco.hpp','policy_ieee_on_flopoco.hpp','policy_softfloat.hpp','fp_convert.hpp','fw_uint.hpp','make_input.hpp'],
 [('integer-only datapaths','operator headers'),('table seeds rounded far from ties','fp_flopoco_inv_nr.hpp:191')],[LAZY[1]],
 ['returned bits','MXCSR / x87 control word after each call'])
p('C05','MPFR settings of the calling thread are left as found',
 "Reference, conversion and input-generation functions that use MPFR leave the calling thread's MPFR exponent range, default precision and default rounding mode exactly as they found them, on normal return and on exception. Their results do not depend on the caller's default precision, default rounding mode, pending MPFR flags, or on any wider exponent range the caller has set.",
 ['histories','configurations'],'every sequence of setting changes and reference calls, including calls that reject their input, on any thread',
 'The tests never change an MPFR default and never read one back; failing conversions are not tested at all.',
 ['policy_native.hpp','policy_flopoco.hpp','policy_ieee_on_flopoco.hpp','policy_softfloat.hpp','policy_test.hpp','fp_flopoco.hpp','fp_ieee.hpp','make_input.hpp'],
 [('save / narrow / restore of emin and emax','policy_*.hpp ref_*, policy_native_single::from_mpfr'),('explicit precisions and rounding modes','mpfr_init2(..., MPFR_RNDN) throughout')],[LAZY[3]],
 ['mpfr_get_emin/emax/default_prec/default_rounding_mode after each call','returned bits'])
p('C06','GMP and MPFR resources are conserved',
 "Over any history of calls, including calls that reject their input, report failures or are abandoned by an exception of the caller's own generator, every block the library obtains from the application's installed GMP/MPFR memory functions is given back to those same functions (with its true size) by the time the call returns or throws. Host heap memory is likewise returned, apart from the results handed to the caller.",
 ['histories','fault_sequences'],'every history of reference, conversion, text and self-test calls, with rejected inputs and failing callbacks',
 'No test counts allocations; a leak of one limb block per call passes every test.',
 ['fp_flopoco.hpp','fp_ieee.hpp','fw_uint_on_masked_uint.hpp','bit_heap.hpp','row_heap.hpp','policy_native.hpp','policy_test.hpp','make_input.hpp'],
 [('paired mpfr_init2/mpfr_clear and mpz_init/mpz_clear','every ref_* function')],[],['installed mp_set_memory_functions','malloc/free balance per call'])
p('C07','Heap exhaustion never corrupts a result',
 "Synthesizable operators, integer types, bit/row heaps and lookup tables never touch the heap: they return the right bits even when every allocation fails. Host-side operations that do need heap (text formatting and parsing, input lists) either complete with exactly the right result or report std::bad_alloc, leaving their arguments intact, leaking nothing, and able to succeed on the next call.",
 ['fault_sequences','inputs'],'every allocation (first, k-th, all from the k-th on, or seeded random subsets) failing in every operation',
 'No test makes an allocation fail or counts allocations.',
 ALLOPS,[('fixed-size value types','fw_uint, fp_flopoco, bit_heap, row_heap, lut'),('std::string/std::vector exception safety','to_string, str, make_input')],[],
 ['allocation hooks','returned bits or exception','live-block balance'])
p('C08','Random sources: generator-determined, and safe with any generator',
 "What a random test source or random value function produces is determined only by the values its generator returns and by its own configuration, never by earlier draws or other sources. It never yields a class that has been disabled, whatever the generator returns. If the generator throws at any draw, the exception reaches the caller, a value being randomised keeps its old value, and the source works normally afterwards.",
 ['fault_sequences','histories'],'every generator behaviour (stuck, extreme, patterned, seeded, throwing at any draw, re-entering the library) and every configuration and draw history',
 'Tests use mt19937 only, never disable a class and then look, never use a failing or extreme generator.',
 ['fp_flopoco.hpp','fw_uint.hpp'],[('class_pdf/class_cdf selection','fp_flopoco_random_test_source'),('random_fw_uint recursion','fw_uint.hpp random_fw_uint_impl')],
 [('class_pdf/class_cdf','class probabilities of a test source',T+'fp_flopoco.hpp'),('m_udist','stateless distribution object',T+'fp_flopoco.hpp')],
 ['produced values','draw count','source state after an exception'])
p('C09','Values survive text persistence across crashes, or are refused',
 "A fixed-width integer written in the library's binary text form and read back yields exactly the value written, so a generator or accumulator resumed from saved state continues exactly as the uninterrupted run. Text that a crash has cut short, zero-filled, padded, joined with other text or overwritten with non-binary bytes while keeping its binary prefix is refused with an exception unless it still spells the same value, and text holding no digits at all is refused rather than read as an arbitrary number.",
 ['crash_points','fault_sequences','histories'],'every crash point and every torn, short, lost, duplicated or garbled write of a simulated disk between save and restore, over widths 1..64 and every saved state',
 'No test parses damaged text, and none interrupts and resumes a generator run.',
 ['fw_uint_on_masked_uint.hpp','fw_uint.hpp','lut_opt.hpp'],[('exact-digit-count parser','fw_uint(const char*)'),('to_string','fw_uint::to_string'),('pure step function','lut_opt_spec::step')],[],
 ['parsed value or exception','continued state sequence after restart'])
p('C10','Results do not depend on program start-up and shut-down order',
 "An operation called before main, from the start-up code of any translation unit and whatever the order in which translation units are initialised, or after main, from the destructor of a static or thread-local object or a function registered with atexit, whatever of the library's own objects has already been destroyed, returns the same bits as the same call made from main.",
 ['schedules','configurations'],'every order and every prefix of translation-unit initialisation, and every prefix of the destructors run at exit, in force when an operation is called',
 'Every test is a single translation unit that calls operations from main only.',
 ['fw_uint.hpp','fp_flopoco_div_v1.hpp','fp_flopoco_div_v2.hpp','fp_flopoco_inv_v1.hpp','fp_flopoco_inv_nr.hpp','fp_flopoco_add_single_v1.hpp'],
 [('function-local statics','operator headers'),('zg/og functions instead of namespace-scope constants','operator headers')],
 [('zg1..zg4, og1..og4','namespace-scope constants initialised at start-up of each translation unit',T+'fw_uint.hpp')],['returned bits'])
p('C11','Output goes to the stream faithfully; streams never affect values',
 "Writing a value to a stream delivers exactly the same characters whatever formatting state (base, fill, width-neutral flags, precision of other data) earlier output left on that stream or the process's locale, and never changes the stream's formatting state, nor its exception mask, its buffer or its tie, nor those of the process's diagnostic streams. A stream that fails, writes short or throws at any point, including the diagnostic stream used by debug output, never changes any computed value and never yields wrong characters: what arrives is a prefix of the right text and the failure is visible in the stream state or as the stream's exception. A stream that had already failed before the call receives nothing and keeps its error state, and so does a diagnostic stream.",
 ['fault_sequences','configurations'],'every point at which a sink fails, shortens or throws, and every formatting state and locale in force, for every printable type and every operator with debug output on',
 'Tests never read back what was printed, never use a failing stream, and never vary flags or locale.',
 ['fw_uint.hpp','fw_uint_on_masked_uint.hpp','fp_flopoco.hpp','fp_ieee.hpp','bit_heap.hpp','bit_heap_mul.hpp','fp_flopoco_add_dual_v1.hpp','fp_flopoco_div_v1.hpp'],
 [('text built as a string and inserted once','operator<<')],[],['characters received by the sink','stream state','returned bits with debug output on'])
p('C12','The policy self-test reports every faulty operator',
 "The policy self-test passes for a policy whose operators agree with its reference functions, and reports failure whenever any single operator call, arithmetic or comparison, at any point of the run, returned a numerically different value, whatever else happened before or after it. The outcome does not depend on earlier self-tests in the process.",
 ['fault_sequences','histories'],'every position (operator and call number) at which one or more faulty results are injected, for every policy kind',
 'The tests only ever run the self-test on healthy operators, so a self-test that could not fail would pass them.',
 ['policy_test.hpp','policy_flopoco.hpp','policy_ieee_on_flopoco.hpp','policy_native.hpp'],[('checkOperator/checkComparison tallies','policy_test.hpp')],
 [('results map','per-operator failure counts',T+'policy_test.hpp')],['return value of test_arithmetic'])

NA_WHY='Tests sample at most a few thousand operand pairs per format; the statement quantifies over all operands.'
def n(id,title,statement,files,mech,text='all operands and formats',over=('inputs',)):
    p(id,title,statement,list(over),text,NA_WHY,files,[(mech,files[0])])
n('C20','Addition is correctly rounded',"The sum of two values, for every supported pair of input formats and result format, is the exact sum rounded to nearest-even, with overflow, underflow, infinities, NaN and signed zeros handled as the format specifies; all adder variants agree.",['fp_flopoco_add_dual_v1.hpp','fp_flopoco_add_single_v1.hpp','fp_flopoco_add_single_v5.hpp'],'align, add, normalise, round')
n('C21','Multiplication is correctly rounded',"The product of two values in any supported formats is the exact product rounded to nearest-even with correct special cases.",['fp_flopoco_mul_v1.hpp'],'exact product and one rounding')
n('C22','Division is correctly rounded',"The quotient of two values in any supported format is the exact quotient rounded to nearest-even with correct special cases, and both divider variants agree.",['fp_flopoco_div_v1.hpp','fp_flopoco_div_v2.hpp'],'SRT digit recurrence and rounding')
n('C23','Reciprocal variants keep their accuracy contract',"The digit-recurrence reciprocal is correctly rounded and the table/Newton reciprocal is faithfully rounded for every operand of every supported format.",['fp_flopoco_inv_v1.hpp','fp_flopoco_inv_nr.hpp'],'seed table and Newton steps')
n('C24','Fused operations meet their documented rounding',"Fused multiply-add equals the documented (double-rounded) composition, and fast add matches add on its stated domain.",['fp_flopoco_fma.hpp'],'wide multiply then add')
n('C25','Positive dot products are faithfully rounded down',"The 2- and 4-element positive dot products return the exact sum of products rounded toward zero within their stated bound.",['fp_flopoco_dot2_pos_rndd.hpp','fp_flopoco_dot4_pos_rndd.hpp'],'aligned product accumulation')
n('C26','Conversions between formats are exact or correctly rounded',"Converting between IEEE and FloPoCo encodings and between widths preserves the value when representable and otherwise rounds correctly with specified special-case mapping.",['fp_convert.hpp','fp_promote.hpp'],'encode/decode with rounding')
n('C27','Comparisons agree with the real-number order',"Every comparison operation agrees with IEEE-style ordering of the represented values, with NaN unordered and zeros equal.",['fp_flopoco_ordering.hpp'],'sign-magnitude comparison')
n('C28','Fixed-width integers obey modular and width semantics',"Every fixed-width integer operation returns the mathematically defined result in the documented width, and all integer backends agree.",['fw_uint.hpp','fw_uint_on_masked_uint.hpp'],'masking to width')
n('C29','Heap compression preserves sums',"Building, merging, shifting, compressing and collapsing bit heaps and row heaps preserves the represented sum modulo the heap width.",['bit_heap.hpp','bit_heap_mul.hpp','row_heap.hpp'],'3:2 compressors')
n('C30','Soft-float and policy arithmetic match IEEE 754',"The soft-float and IEEE-on-FloPoCo policies return IEEE 754 round-to-nearest results on the domain they document.",['policy_softfloat.hpp','policy_ieee_on_flopoco.hpp','policy_native.hpp'],'wrapped operators')
n('C31','Neighbour and limit functions are consistent',"Next-up and next-down move to the adjacent representable value in every class, and numeric limits name the extreme values of the format.",['fp_flopoco.hpp'],'nextup/nextdown')
n('C32','MPFR and double round trips are exact',"Every value exported to MPFR or to a wide enough double and imported again is unchanged, and the IEEE type behaves likewise.",['fp_flopoco.hpp','fp_ieee.hpp'],'get/from mpfr')
n('C33','Compile-time structures equal their run-time meaning',"Compile-time vectors, permutations, big integers and random generators compute the same results as their defining algorithms, so every generated LUT-optimised generator is an invertible linear map of full state width.",['lut_opt.hpp','ct/ct_vec_permute.hpp'],'template metaprograms',over=('programs','inputs'))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
