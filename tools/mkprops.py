#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

CC='commpy/channelcoding/convcode.py'; TU='commpy/channelcoding/turbo.py'; LD='commpy/channelcoding/ldpc.py'
CH='commpy/channels.py'; MO='commpy/modulation.py'; LI='commpy/links.py'; WI='commpy/wifi80211.py'; UT='commpy/utilities.py'
IL='commpy/channelcoding/interleavers.py'; GF='commpy/channelcoding/gfields.py'; AL='commpy/channelcoding/algcode.py'
SE='commpy/sequences.py'; FI='commpy/filters.py'; IM='commpy/impairments.py'

p('C01','Monte-Carlo BER estimates count every sent bit and every error exactly once',
  'For any link model and any sequence of channel faults, each bit error ratio returned by a link performance estimation equals the number of message bits that came back different from what was sent at that SNR, divided by the number of message bits sent at that SNR. The receiver and decoder are always given the symbols, channel gains, constellation and noise variance of that very transmission.',
  ['fault_sequences','histories','configurations'],'every modem/channel (SISO, MIMO)/code-rate/decoder-prototype combination and every per-transmission pattern of bit errors, erasures and bursts',
  'test_links is excluded from the stable suite for time and only compares BERs to theory within 25-200 %; no test checks the accounting against what was really sent.',
  [LI,CH],[('error counting loop','LinkModel.link_performance'),('MIMO reassembly of the received message','LinkModel.link_performance')],
  ['return value of link_performance / LinkModel.link_performance','arguments seen by the modulate, receive and decoder callbacks'])
p('C02','Monte-Carlo runs respect frame rounding, error target and bit budget',
  'A link performance estimation configures the channel with each requested SNR (and the given code rate and symbol energy) before any bit is sent at that SNR, sends whole frames of the requested size rounded down to fill symbol vectors without padding (never less than one such unit; the error target is the default size), and keeps sending exactly until the error target or the bit budget is reached. Once an SNR ends below the error target, no further SNR is transmitted and the remaining ratios are 0.',
  ['fault_sequences','histories','configurations'],'every fault sequence (it decides when each SNR stops), chunk size, error target, budget, code rate, bits per symbol and antenna count',
  'No stable test runs the loop; its stopping point depends on the whole error history of the run.',
  [LI],[('send loop and early break','LinkModel.link_performance'),('chunk divider','LinkModel.link_performance'),('default chunk','link_performance')],
  ['sequence of set-SNR, modulate, propagate, receive, decode calls made on the link components','return value'])
p('C03','Full-metric simulations report exact per-transmission bit and chunk errors',
  'A full-metrics link simulation reports, for every SNR and transmission, exactly the number of wrong message bits, the number of chunks containing at least one wrong bit and the number of chunks sent; its BER is the total of wrong bits over the total of message bits sent at that SNR (hence never above 1), whatever the number of chunks aggregated per transmission. With early stopping enabled it stops transmitting at an SNR once the errors exceed the error target, with it disabled it always performs all transmissions, and it skips the remaining SNRs once an SNR ends below the target.',
  ['fault_sequences','histories','configurations'],'every fault sequence, aggregation factor, number of transmissions, stop mode and code rate',
  'The only test of it is outside the stable suite, uses one chunk per transmission and checks only BER within a factor 2-3.',
  [LI,WI],[('per-chunk counting','LinkModel.link_performance_full_metrics'),('Wi-Fi wrapper','Wifi80211.link_performance')],
  ['return value and full_simulation_results','calls made on the link components'])
p('C04','A link simulation does not depend on earlier, failed or aborted simulations',
  'Running a simulation on a link model that was already used (for other SNRs, code rates, error targets, whether those runs completed, raised from a callback or were interrupted part-way) gives the same result as running it on a fresh model with the same random seed. A failure raised by a callback always reaches the caller.',
  ['histories','crash_points','fault_sequences'],'every history of completed, failed and interrupted runs on the same model, channel, modem and decoder objects',
  'Tests run each model once, never fail a callback and never interrupt a run.',
  [LI,CH,WI],[('per-run initialisation','LinkModel.link_performance'),('SNR set at each step','_FlatChannel.set_SNR_dB')],
  ['return value of a later run vs the same run on fresh objects'],[dict(name='rate, noise_std, channel_gains, full_simulation_results',meaning='state left on the shared objects by earlier runs',where=LI)])
p('C05','Results depend only on arguments and the random seed',
  'With the same arguments, object configuration and NumPy seed, every public operation (coding, modulation, detection, channels, sequences, filters, whole link simulations) returns the same result in every execution: independently of what memory the allocator hands out, of what was called before, of what callers did to previously returned arrays, and of hash randomisation.',
  ['histories','fault_sequences'],'every operation history before the call, every content of freshly allocated memory, every hash seed',
  'A unit test sees one history and the (usually zeroed) memory it happens to get; reads of uninitialised memory and poisoned caches pass unnoticed.',
  [UT,CC,LD,MO,CH,TU,LI,GF,SE,FI],[('memoised bit conversion','decimal2bitarray'),('memoised branch metrics','_compute_branch_metrics'),('pre-allocated outputs','numpy.empty uses in convcode, modulation, links, turbo')],
  ['return values'])
p('C06','Threads sharing codes, modems and interleavers do not disturb each other',
  'Caller threads that concurrently use the same trellis, modem, interleaver or LDPC parameter dictionary, or run link simulations on separate link models, each obtain exactly the results they would obtain running alone, under every interleaving.',
  ['schedules'],'every interleaving (at source-line granularity) of concurrent calls from several caller threads sharing read-only objects',
  'All tests are single-threaded.',
  [CC,LD,MO,IL,UT,TU,LI],[('per-call local state','conv_encode, viterbi_decode, ldpc_bp_decode, demodulate'),('lazy construction of LDPC matrices','ldpc_bp_decode, triang_ldpc_systematic_encode')],
  ['return values of each thread'],[dict(name='lazily added matrices in the shared parameter dictionary',meaning='built on first use by whichever thread comes first',where=LD)])
p('C07','An aborted call leaves shared objects usable',
  'If a call is aborted at any point by an interrupt, a failed memory allocation or an exception from a callback, the trellis, modem, interleaver, LDPC parameters, channel and link model it was using stay fully usable: the abort reaches the caller, NumPy\'s error-handling settings are as they were, and every later call on them returns what it would have returned had the aborted call never been made.',
  ['crash_points','fault_sequences'],'every abort point (any source line, any allocation) inside any operation, followed by any further operations on the same objects',
  'No test aborts a call.',
  [CC,LD,MO,TU,CH,LI,UT],[('objects only mutated by completed steps','build_matrix, MIMOFlatChannel.propagate'),('caches only store completed results','decimal2bitarray, _compute_branch_metrics')],
  ['results of later calls on the same objects'])
p('C08','Operations never alter data or objects supplied by the caller',
  'No encoding, decoding, modulation, detection, channel, file-writing or construction call changes the arrays, lists or objects handed to it (bits, samples, LLRs, matrices, generator polynomials, state orders), whether it returns or fails; hence the same received buffer can be decoded again, by any other receiver and in any order, with the same result as the first time.',
  ['histories','fault_sequences','inputs'],'every sequence of receive/transmit operations over shared buffers, with aborts and retries in between',
  'Tests use each buffer once and never look at it again.',
  [CC,LD,MO,TU,CH,UT],[('copies of inputs','bec, bsc, ldpc_bp_decode, viterbi_decode clip'),('padding handled in decoder-owned storage','viterbi_decode')],
  ['argument arrays before and after each call','repeat decodes of one buffer'])
p('C09','A design-file write is complete, exclusive and crash-safe',
  'When writing an LDPC design file returns normally, reading it back yields exactly the written parity-check matrix, even if the process dies right afterwards; any I/O error reaches the caller. An existing file is never overwritten or modified: of several writers to one path exactly one succeeds and the others fail with a file-exists error.',
  ['crash_points','fault_sequences','schedules','inputs'],'every parity-check matrix with no empty row or column, every buffer size, every point of disk-full / I/O error / crash during the write, every interleaving of several writers and readers',
  'The test writes one file on a healthy disk and reads it once.',
  [LD],[('exclusive creation and scoped close','write_ldpc_params'),('parser','get_ldpc_code_params')],
  ['content of the path after return, error or crash','exceptions'])
p('C10','A damaged design file is never loaded as a different code',
  'Loading an LDPC design file that is truncated at any byte, still being written, damaged in one byte, or delivered in short reads or with read errors either fails with an exception or returns exactly the code that was written; it never returns a different code.',
  ['crash_points','fault_sequences','schedules'],'every truncation point, single-byte damage, short-read pattern, read error and writer/reader interleaving',
  'No test reads a damaged file.',
  [LD],[('degree and adjacency cross-checks while building the edge maps','get_ldpc_code_params')],
  ['returned parameters vs. written matrix, or exception'])
p('C11','Convolutional links correct every error pattern within the code distance',
  'The convolutional encoder emits exactly the code sequence of its generator and feedback polynomials (with termination as requested), and the Viterbi decoder recovers the message whenever the channel faults (hard flips, soft/unquantized sign flips, erasures) stay below half the free distance over the decoding window; it always returns exactly the bits of a path of the code, of the right length.',
  ['fault_sequences','configurations'],'every trellis (k/n rates, recursive or not), message, termination, decoding type, traceback depth, and every fault pattern within the correction radius (faults near the end of the stream included as far as the remaining steps protect them)',
  'No stable test runs the Viterbi decoder at all; the slow one uses Gaussian noise only, blocks of 1000 bits and one traceback depth.',
  [CC,UT],[('encoder loop','conv_encode'),('add-compare-select and traceback','_acs_traceback, viterbi_decode'),('branch metrics','_compute_branch_metrics')],
  ['decoded bits vs sent bits under injected faults'])
p('C12','Puncturing loses only punctured positions and depuncturing restores the rest',
  'Puncturing keeps, in order, exactly the positions selected by the repeated pattern (in the encoder and in the stand-alone function alike), and depuncturing puts every received value back at its original position with a neutral value elsewhere, so that a punctured stream hit by channel faults within the punctured code distance still decodes to the message.',
  ['fault_sequences','inputs','configurations'],'every pattern, stream length (whole or partial periods) and fault pattern within the correction radius',
  'No test covers puncturing.',
  [CC,WI],[('pattern walk','puncturing, depuncturing, conv_encode')],
  ['punctured stream, depunctured stream, decoded bits'])
p('C13','The 802.11 chain delivers every frame error-free within its coding margin',
  'For every modulation and coding scheme 0-9 and every frame size and aggregation factor, the simulated 802.11 link reports zero errors over a clean channel and over a channel whose faults (weak or flipped soft bits) stay within the correction radius of the standard rate-1/2, memory-6, free-distance-10 convolutional code and its punctured versions; reported chunk counts match the frames sent.',
  ['fault_sequences','configurations'],'every MCS, frame size, aggregation factor, SNR list and fault pattern within the margin',
  'The Wi-Fi class has no tests.',
  [WI,CC,LI],[('MCS tables','Wifi80211.get_modem, _get_coding, _get_puncture_matrix'),('encode/puncture/modulate and inverse chain','Wifi80211.link_performance')],
  ['metrics returned by Wifi80211.link_performance'])
p('C14','Turbo links: exact posterior decoding and error-free delivery',
  'The turbo encoder emits three streams of message length: the message, and the parities of the two constituent codes fed with the message and the interleaved message. The MAP decoder returns the exact posterior log-likelihood ratio of each bit given the received samples and the prior information, and the turbo decoder makes the decisions of the iterative exchange of extrinsic information between two such decoders, for every noise realisation; on a clean channel it returns the message.',
  ['fault_sequences','inputs','configurations'],'every message, interleaver seed, constituent code, iteration count, prior and channel disturbance (noise, sign flips, erased samples) within a bounded amplitude',
  'turbo.py has no tests.',
  [TU,CC,IL],[('BCJR recursions','map_decode'),('extrinsic exchange','turbo_decode'),('parallel concatenation','turbo_encode')],
  ['encoder streams, L-values and decoded bits'])
p('C15','LDPC links: valid codewords, faithful belief propagation, independent blocks',
  'Encoding yields systematic codewords satisfying every parity check. Decoding a word that already satisfies all checks returns it unchanged; under any channel disturbance (flips, erasures i.e. zero LLRs, noise) the sum-product and min-sum decoders return the decisions and LLRs of their algorithm stopped at the first satisfied check set or at the iteration limit, and no damage in one block changes the decoding of another block of the same call.',
  ['fault_sequences','inputs','configurations'],'every code, message, number of blocks, iteration limit, algorithm and per-block fault pattern',
  'The decoder test is outside the stable suite; the stable test decodes noiseless words only.',
  [LD],[('belief propagation loop','ldpc_bp_decode'),('systematic encoder','triang_ldpc_systematic_encode, build_matrix')],
  ['codewords, decoded words, output LLRs'])
p('C16','Modems: faults below half the minimum distance never corrupt a bit',
  'For every modem and bit sequence, demodulating symbols each displaced by less than half the minimum constellation distance returns the sent bits; hard decisions always belong to the nearest constellation point and soft outputs are the exact log-likelihood ratios of each bit, finite and correctly signed even for impulsive disturbances far outside the constellation or very low noise variances. Rejected constellation changes leave the modem as it was; accepted ones take effect consistently for both directions.',
  ['fault_sequences','histories','configurations'],'every constellation (PSK, QAM, custom, replaced at run time), bit sequence and per-symbol disturbance including impulses',
  'Tests demodulate undisturbed symbols only and never check soft outputs numerically.',
  [MO],[('nearest-point and LLR computation','Modem.demodulate'),('mapping','Modem.modulate'),('constellation setter','Modem.constellation')],
  ['bits and LLRs returned'])
p('C17','MIMO detectors agree with exhaustive search under channel faults',
  'For every channel matrix and received vector, the maximum-likelihood detector returns a closest lattice point, the K-best detector returns a lattice point that is a closest one whenever K is large enough not to discard candidates (and the sent one without noise for any K), and the soft outputs (max-log, soft K-best, best-first with large stacks) are the max-log values over the considered candidates, clipped where specified.',
  ['fault_sequences','inputs','configurations'],'every constellation, antenna count, channel draw (including deep fades and nearly singular ones), noise/impulse pattern and candidate budget',
  'Tests compare average error rates with wide tolerance, on regular random channels only.',
  [MO],[('exhaustive search','mimo_ml'),('tree search','kbest, best_first_detector'),('max-log','max_log_approx')],
  ['detected vectors and LLRs'])
p('C18','Channels deliver exactly gains times message plus the recorded noise',
  'For every configuration history, each propagation outputs (and records) one gain and one noise sample set per symbol vector such that output = gains applied to the (zero-padded) message in order, plus noise; the noise power per receive antenna is that of the last SNR or noise deviation set, and the gains have the mean, correlation and unit average power of the last accepted fading configuration. Rejected operations (non-normalised fading, invalid correlation constants, complex message on a real channel, unset noise) raise their documented error and leave the configuration and recorded state unchanged.',
  ['histories','fault_sequences','configurations'],'every history of accepted and rejected reconfigurations, SNR changes and propagations on SISO and MIMO channels, real and complex, and every random draw',
  'Tests check each setting once on a fresh object; correlated propagation fails in this environment so it is not covered at all.',
  [CH],[('propagate','SISOFlatChannel.propagate, MIMOFlatChannel.propagate'),('validation before assignment','fading_param setters'),('noise level','set_SNR_dB, set_SNR_lin, generate_noises')],
  ['output, recorded gains, noises, unnoisy output, properties'])
p('C19','Binary channels alter only what their probability allows, for every random draw',
  'The binary erasure and binary symmetric channels output a new array of the same length in which every position is either the sent bit or, respectively, an erasure mark or the flipped bit; with probability 0 nothing is ever altered and with probability 1 everything is, whatever values the random generator produces, and in between each position is hit independently at the given rate. The simple AWGN channel adds noise of the power given by the SNR, code rate and signal energy.',
  ['fault_sequences','inputs'],'every bit array, probability and every value a uniform generator on [0,1) can produce, including the end points',
  'No stable test covers these channels, and the end-point draws have probability 2^-53 in an ordinary run.',
  [CH],[('threshold comparison','bec, bsc'),('noise scaling','awgn')],['output arrays'])
p('C20','OFDM survives any delay spread within the cyclic prefix',
  'OFDM transmission followed by any multipath channel whose delay spread does not exceed the cyclic prefix, and OFDM reception, returns every sub-carrier symbol multiplied by the frequency response of that sub-carrier, with no leakage between sub-carriers or OFDM symbols; over an ideal channel it returns the symbols unchanged.',
  ['fault_sequences','configurations'],'every FFT size, even sub-carrier count below it, prefix length, number of symbols and echo pattern (delays up to the prefix length)',
  'There is no OFDM test (the functions could not even run on the supported Python/NumPy versions).',
  [MO],[('sub-carrier mapping and prefix','ofdm_tx, ofdm_rx')],['received sub-carrier matrix'])
p('C21','Iterative detection-decoding exchanges only extrinsic information, in order',
  'The iterative detection and decoding helper calls, for each of the requested iterations, the decoder once on the current values and then the detector once per symbol vector, in order, with that vector\'s received samples, channel matrix and slice of extrinsic information, and finally applies the decision to the sum of both contributions; it never alters the initial values given to it and a failing detector or decoder call reaches the caller without affecting later calls.',
  ['histories','fault_sequences'],'every number of iterations, vectors, antennas and bits per vector, every behaviour (values, failures) of the plugged-in detector and decoder',
  'idd_decoder has no test.',
  [LI],[('iteration loop','idd_decoder')],['calls received by the detector, decoder and decision callbacks; returned bits'])
p('C22','Both ends of a link build the same interleaver from the same seed',
  'Random interleavers built from the same length and seed at different times and places are the same permutation, whatever random numbers were drawn or seeds set in between, and building one does not disturb the random stream of the rest of the simulation; de-interleaving restores any interleaved array of any element type exactly and in any order of use.',
  ['histories','schedules'],'every history of global random draws, reseedings and other interleavers between the two constructions, every length, seed and element type',
  'Interleavers have no test.',
  [IL],[('private generator','RandInterlv.__init__'),('inverse permutation','_Interleaver.deinterlv')],['interleaved/de-interleaved arrays, subsequent global draws'])
# --- no schedule, clock, fault or history in them -------------------------------------------------
def pure(id,title,st,files,mech,obs,why):
    p(id,title,st,['inputs'],'every argument in the documented domain',why,files,mech,obs)
pure('C23','Galois-field arithmetic satisfies the field axioms','For every supported field order, addition and multiplication form a field, power and tuple representations convert back and forth, and orders, cyclotomic cosets and minimal polynomials are the algebraic ones.',[GF],[('arithmetic modulo the primitive polynomial','GF, polydivide, polymultiply')],['element arrays'],'Tests cover m=3,4,6 samples.')
pure('C24','Cyclic-code generator polynomials divide x^n+1','Every generator polynomial returned for an (n, k) cyclic code has degree n-k and divides x^n+1, and all of them are returned.',[AL,GF],[('products of minimal polynomials','cyclic_code_genpoly')],['polynomial list'],'One (n, k) pair is tested, and that test fails in this environment.')
pure('C25','Bit/integer conversion and distance utilities are exact','Integer to bit-array conversion and its inverse are exact for every width, and Hamming/Euclidean distances, upsampling and signal power follow their definitions.',[UT],[('conversion','dec2bitarray, bitarray2dec')],['returned arrays'],'A handful of values is tested.')
pure('C26','Pulse-shaping filters follow their closed forms','Raised-cosine, root-raised-cosine, Gaussian and rectangular impulse responses follow their defining formulas, singular points included.',[FI],[('closed forms','rcosfilter, rrcosfilter, gaussianfilter, rectfilter')],['impulse responses'],'filters.py has no tests.')
pure('C27','PN and Zadoff-Chu sequences have their defining properties','PN sequences follow the register recurrence and Zadoff-Chu sequences have constant amplitude and zero autocorrelation, for all valid parameters.',[SE],[('LFSR','pnsequence'),('closed form','zcsequence')],['sequences'],'Few parameters are tested.')
pure('C28','Frequency offset rotates samples and preserves power','Adding a carrier frequency offset multiplies each sample by the corresponding unit phasor, and opposite offsets cancel.',[IM],[('phasor','add_frequency_offset')],['waveform'],'impairments.py has no tests.')
pure('C29','Modem constellations are Gray-mapped with documented energy','PSK and square-QAM constellations have the documented points, average energy and Gray labelling (adjacent points differ in one bit).',[MO],[('Gray reordering','Modem.__init__'),('constellations','PSKModem, QAMModem')],['constellation'],'Sampled for a few sizes.')
pure('C30','Bit-level representation reproduces the channel matrix action','Multiplying the bit-level channel matrix with a +-1 bit vector equals multiplying the channel matrix with the corresponding weighted symbols.',[MO],[('Kronecker product','bit_lvl_repr')],['matrix'],'Compared statistically only.')

# --- the system as a whole ---------------------------------------------------------------------------
p('C31','Links assembled from the library\'s own parts deliver every frame the channel left decodable',
  'For every chain built from an encoder (none, convolutional with or without puncturing, turbo, LDPC), an interleaver, a modem, a transport (single-antenna channel, OFDM with echoes within the prefix, MIMO with linear, maximum-likelihood, K-best, best-first or iterative detection), hard or soft demodulation and the matching decoder, run by the link simulator: each frame comes back as sent whenever the received samples still leave the sent frame strictly ahead of every other one under the metric of the chosen decoder, the parts agreeing on bit order, signs of soft values, lengths and scaling; and a simulation whose frames were all delivered reports a zero error ratio.',
  ['fault_sequences','configurations','histories'],'every compatible combination of the parts, message, noise realisation and set of displaced, inverted, faded or overwhelmed samples within the decoding margin, also with the same parts used in several links',
  'Tests exercise each part alone; the few end-to-end tests compare average error rates of two fixed chains within wide tolerances.',
  [LI,CH,MO,CC,TU,LD,IL],[('transmit and receive loop','LinkModel.link_performance, link_performance_full_metrics'),('soft value conventions','Modem.demodulate, kbest, best_first_detector, viterbi_decode, ldpc_bp_decode, turbo_decode'),('stream layout','conv_encode, turbo_encode, triang_ldpc_systematic_encode')],
  ['bits returned by the decoder for each frame; BERs returned by the link simulator'])
p('C32','Damage stays where it hit and leaves nothing behind',
  'Damaged input (samples that are NaN, infinite, huge, zero, inverted or replaced; flipped bits; a wiped-out transmission) alters only the outputs that depend on it: other symbols of a demodulation, other OFDM symbols (and nothing at all when only the cyclic prefix is hit), other LDPC blocks, other symbols or vectors on a channel, other positions of an interleaved or punctured stream, other transmissions of a link simulation, code bits before the damaged message bit, and bits of a truncated Viterbi decoder that were already decided. Afterwards the same objects return for undamaged input exactly what they returned before.',
  ['fault_sequences','histories'],'every position, burst and kind of damage in every operation that handles several units, followed by undamaged use of the same objects',
  'Tests only feed well-formed samples and never compare a damaged with an undamaged execution.',
  [MO,LD,CC,CH,IL,TU,LI,UT,IM],[('per-block decoding loop','ldpc_bp_decode'),('per-symbol loops','Modem.demodulate, ofdm_rx, ofdm_tx, MIMOFlatChannel.propagate'),('decision depth','viterbi_decode')],
  ['returned arrays of a damaged and of an undamaged execution with the same seed'])
p('C33','No call leaves anything behind in the process, however it ends',
  'When a call returns, fails, or is aborted by an interrupt, a failed allocation, a failing callback or a disk error, every process-wide setting and resource is as the caller had it: NumPy error handling and print options, warning filters, the state of Python\'s own random generator, working directory, environment, module path, recursion limit, signal handlers, standard streams, threads, temporary files, and open files (a design file being read or written is closed).',
  ['crash_points','fault_sequences','histories'],'every operation, every abort point in it (source line, allocation, callback, disk operation), under any settings of the caller',
  'No test aborts a call or looks at process-wide state.',
  [LD,MO,CC,TU,CH,LI,UT,IL],[('error handling scopes','numpy.errstate blocks in ldpc_bp_decode and others'),('file handles','get_ldpc_code_params, write_ldpc_params')],
  ['process-wide settings and open descriptors before and after each call'])

p('C34','Every call ends within the work its size allows, whatever the channel or its partners do',
  'Every operation ends: the amount of work of decoding, detection, demodulation and simulation calls is bounded by the sizes of their arguments and their iteration, candidate and bit limits, whatever values arrive (NaN, infinite, huge, contradictory or all-erased samples, singular or zero channel matrices) and however the plugged-in receivers and decoders behave (never wrong, always wrong, returning NaN, failing); operations whose work does not depend on the data take no more of it for damaged than for clean input.',
  ['fault_sequences','configurations'],'every operation, size, limit and kind of damage, and every behaviour of the callbacks',
  'Tests feed decodable data, where all loops stop early; a loop that waits for convergence, for an error target or for a better candidate never shows.',
  [LD,MO,LI,TU,CC],[('iteration limit','ldpc_bp_decode, turbo_decode, idd_decoder'),('tree search with radius and stacks','best_first_detector'),('send budget','LinkModel.link_performance, link_performance_full_metrics')],
  ['executed lines of library code per call, return or exception'])

p('C35','A saved simulation goes on after a restart, and copies are independent',
  'Trellises, modems, interleavers, channels, LDPC parameters, Wi-Fi models and link models can be duplicated with copy.deepcopy at any point between operations, and (link models built from partners that can be saved themselves, Wi-Fi models before their first run) saved with pickle and restored in another process.  What is restored or copied, together with the state of the random generator, goes on exactly like the original would have: same results, same random numbers drawn, same recorded state.  Original and copy are independent: using, reconfiguring or overwriting one never shows in the other.',
  ['crash_points','histories'],'every history of operations before and after the point, every object, every pickle protocol, and every other use the original or the copy is put to in between',
  'No test copies or saves an object; what gets lost or shared shows only when the object had a history and the other side is used again.',
  [CC,MO,CH,LI,IL,LD,TU],[('state kept in objects','Trellis tables, Modem.constellation and derived values, channel gains and noise, LinkModel results'),('callables kept in objects','LinkModel modulate, receive, decoder')],
  ['results of the operations after the point and public state of the objects, against an uninterrupted execution'])

p('C36','Burst radio links find the burst, remove the oscillator offset and stay in step',
  'In a link made of the sequence, pulse-shaping and impairment functions, with any propagation delay, echoes, oscillator offset and jumps, noise, impulses, foreign bursts and receiver restarts: correlating with the local Zadoff-Chu preamble (any root and cyclic shift) returns exactly the echoes of the channel plus the correlation with the disturbance, so the burst is found at its delay; a frequency offset turns the n-th sample by 2*pi*n*delta_f/Fs, keeps the power, is measurable from repeated preambles and is removed by the opposite offset; pulses (raised cosine, root raised cosine, Gaussian, rectangular) have the documented shape at every tap, including where the formula is singular, whatever the symbol period and sampling rate, so raised-cosine symbols do not interfere and every symbol sampled next to its point gives its bits; a PN generator restarted from its last outputs continues the sequence, so a descrambler stays in step.',
  ['fault_sequences','histories'],'every preamble, delay, set of echoes, disturbance, offset and jump, pulse shape, symbol and sampling rate, scrambler register and mask, and every restart point',
  'Tests check a few sequence values and one offset; pulses are compared at one or two parameter sets, never behind a channel, and nothing is restarted.',
  ['commpy/sequences.py','commpy/filters.py','commpy/impairments.py','commpy/utilities.py',MO],[('generators','pnsequence, zcsequence'),('singular points of the pulses','rcosfilter, rrcosfilter'),('rotation','add_frequency_offset'),('symbol stream','upsample, Modem.demodulate')],
  ['correlator output, measured offset, restored waveform, taps, symbol samples, descrambled bits'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
import sys
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for q in P: jsonschema.validate(q,s)
    print(len(P),'properties, schema ok')
except ImportError: print(len(P),'properties')
