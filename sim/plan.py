"""Run counts and descriptions per property."""
_GEN = ('scenarios drawn by a generator seeded with (base seed, property, run index); non-trivial = at least one fault '
        'fired or the behaviour of interest was reached (see probes), distinct = different scenario content')
PLAN = {}


def P(pid, quick, thorough, measure, real, stub, assumptions=(), must_probe=(), cap=None, rule=None, rerun=4):
    PLAN[pid] = {'runs': {'quick': quick, 'thorough': thorough}, 'measure': measure, 'real': real, 'stub': stub,
                 'assumptions': list(assumptions), 'must_probe': list(must_probe), 'rule': rule or _GEN,
                 'rerun': rerun, 'cap': cap or {'quick': 150, 'thorough': 3000}}


P('C01', 1600, 60000, 'distinct (link kind, decoder kind, API, errors/bits per SNR) histories',
  ['commpy.links', 'commpy.modulation modems', 'commpy.channels'], ['receiver and decoder callbacks (scripted bit errors)'],
  must_probe=['errors-at-snr', 'several-transmissions'])
P('C02', 1600, 60000, 'distinct (API, link kind, frame, transmissions/outcome per SNR) histories',
  ['commpy.links', 'commpy.modulation modems', 'commpy.channels'], ['receiver and decoder callbacks (scripted bit errors)'],
  must_probe=['target-hit-exactly', 'budget-hit-exactly', 'ended-below-target'])
P('C03', 1600, 60000, 'distinct (chunks, bit and chunk errors per transmission) histories',
  ['commpy.links', 'commpy.modulation modems', 'commpy.channels'], ['receiver and decoder callbacks (scripted bit errors)'],
  must_probe=['some-chunks-wrong', 'several-chunks', 'ended-below-target'])
P('C04', 700, 30000, 'distinct (link kind, outcomes of the earlier simulations, APIs)',
  ['commpy.links', 'commpy.modulation', 'commpy.channels'], ['decoder callbacks (scripted)'],
  must_probe=['history-failed', 'history-interrupted'])
P('C09', 2400, 80000, 'distinct (thread switch traces, writer outcomes, number of raw disk operations)',
  ['commpy.channelcoding.ldpc file functions', 'CPython-style buffered and text I/O layers'],
  ['raw file layer (simulated faults over real scratch files)', 'thread scheduler'],
  assumptions=['a crash kills the process; what reached the kernel survives (no power loss)'],
  must_probe=['writer-ok', 'writer-exists', 'writer-oserror', 'writer-crash', 'one-of-several', 'existing-file', 'clean-write',
              'matrix-compared'])
P('C10', 900, 30000, 'distinct (mode, outcome, bytes around the damage) and thread switch traces',
  ['commpy.channelcoding.ldpc file functions', 'buffered and text I/O layers'],
  ['raw file layer (simulated faults over real scratch files)', 'thread scheduler'],
  must_probe=['damaged-exact', 'damaged-refused', 'io-exact', 'io-refused', 'writing-exact', 'writing-refused'])
P('C19', 1500, 60000, 'distinct (channel, probability, length, hits)', ['commpy.channels bec, bsc, awgn'],
  ['random generator draws (some replaced by legal extreme values)'],
  assumptions=['statistical limits have a false-alarm probability below 1e-9 per check'],
  must_probe=['p0', 'p1', 'rate-tested', 'power-tested'])
P('C20', 3000, 120000, 'distinct (FFT size, carriers, prefix, symbols, taps, trailing samples)',
  ['commpy.modulation ofdm_tx, ofdm_rx'], ['the radio channel (echoes, foreign samples, impulses)'],
  must_probe=['ideal', 'multipath', 'delay-equals-prefix'])
P('C21', 2000, 120000, 'distinct (iterations, vectors, bits, failed, callback count)', ['commpy.links.idd_decoder'],
  ['detector, decoder and decision callbacks (scripted)'], must_probe=['completed', 'failed'])
P('C22', 1500, 60000, 'distinct (keys, operations) and thread switch traces', ['commpy.channelcoding.interleavers'],
  ['thread scheduler'], must_probe=['built', 'used', 'threads'])
P('C11', 1600, 60000, 'distinct (code, corrected fault pattern, termination, metric kind)',
  ['commpy.channelcoding.convcode'], ['channel (faults placed by the simulator)'],
  assumptions=['codes whose trellis is regular (every state has 2^k predecessors)',
               'a truncated decoder is only held to the margin its traceback depth leaves'],
  must_probe=['clean-decodable', 'faults-corrected', 'beyond-radius', 'terminated'])
P('C12', 1600, 60000, 'distinct (code, puncture pattern, corrected fault pattern, termination)',
  ['commpy.channelcoding.convcode'], ['channel (faults placed by the simulator)'],
  assumptions=['puncture matrices have one row (the encoder documents no use for further rows)'],
  must_probe=['punctured', 'partial-period', 'punctured-clean-decodable', 'punctured-faults-corrected'])
P('C13', 170, 8000, 'distinct (MCS, frame, aggregation, channel, faults corrected)',
  ['commpy.wifi80211', 'commpy.links', 'commpy.channelcoding.convcode', 'commpy.modulation', 'commpy.channels'],
  ['receiver callback (real soft demodulator followed by simulated soft-bit faults)'],
  assumptions=['frames up to 70 message bits per transmission', 'SNR 45 dB and above, so that the channel itself is error free'],
  must_probe=['coded-bits-compared', 'faults-corrected', 'aggregated', 'receiver-failed'] + ['mcs-%d' % i for i in range(10)],
  cap={'quick': 200, 'thorough': 3000})
P('C14', 900, 40000, 'distinct (code, length, reference L-values) of decoded frames',
  ['commpy.channelcoding.turbo', 'commpy.channelcoding.convcode', 'commpy.channelcoding.interleavers'],
  ['channel (noise and faults placed by the simulator)'],
  assumptions=['rate-1/2 systematic constituent codes with up to 16 states', 'decisions with an L-value below 1e-5 of the largest are not compared'],
  must_probe=['map', 'brute-force', 'encoded', 'turbo', 'clean', 'faults-corrected'])
P('C15', 800, 50000, 'distinct (algorithm, iterations done, LLRs) per decoded block', ['commpy.channelcoding.ldpc'],
  ['channel (noise, flips, erasures, impulses placed by the simulator)'],
  assumptions=['generator matrices are checked for (approximately) triangular codes, as documented',
               'blocks whose exact belief propagation is ill-conditioned (saturated or tied messages) are only checked for consistency'],
  must_probe=['encoded', 'several-blocks', 'codeword-kept', 'bp-compared', 'bp-iterated', 'stopped-early', 'faults-corrected',
              'erasures-iterated', 'independent-blocks', 'partial-block-refused'])
P('C16', 1500, 80000, 'distinct (modem, size, operation, bits, displacement, noise variance, impulses)', ['commpy.modulation modems'],
  ['channel (displacements and impulses placed by the simulator)'],
  assumptions=['bit sequences that fill whole symbols; constellations of two or more distinct points; symbols up to 1e6 times the constellation'],
  must_probe=['within-half-distance', 'nearest', 'soft', 'low-noise-sign', 'rejected', 'replaced'])
P('C17', 1500, 80000, 'distinct (detector, constellation, sizes, K, sent vector, received vector)', ['commpy.modulation detectors and modems'],
  ['channel (matrices, noise and faults placed by the simulator)'],
  assumptions=['lattices of up to 256 points; square channels of two or more antennas for the best-first detector',
               'K-best and best-first results are only compared for channel matrices of condition number below 1e6 and where no near tie leaves the choice open'],
  must_probe=['ml', 'kbest', 'kbest-exhaustive', 'kbest-noiseless', 'kbest-soft', 'kbest-soft-exhaustive', 'max-log', 'best-first-noiseless', 'refused'])
P('C18', 1000, 60000, 'distinct (operation, configuration) steps of the histories and distinct measured covariances', ['commpy.channels'],
  ['random generator (normal draws; some replaced by rare values, unit impulses to measure the moments exactly)'],
  assumptions=['moments are exact because the channels are linear in their normal draws; they are only measured while every draw is normal',
               'correlation coefficients of modulus one, as documented; real channels with real correlation matrices'],
  must_probe=['propagated', 'padded', 'moments', 'refused-complex', 'refused-unset', 'refused-energy', 'fading-rayleigh', 'fading-expo',
              'fading-rician', 'fading-exporice', 'fading-direct'])
P('C05', 480, 60000, 'distinct (operations and arguments, allocator policy, argument placement) histories', ['all of commpy'],
  ['memory allocator contents', 'random stream seeding', 'callers overwriting results and reusing buffers'],
  must_probe=['with-history', 'reconfigured'], rerun=100)
P('C06', 500, 40000, 'distinct thread switch traces (threads, function and line of every preemption)', ['all of commpy'],
  ['thread scheduler', 'random streams (one per thread)'],
  assumptions=['preemption at source-line granularity of CommPy code; NumPy calls are atomic', 'channels and link models are not shared between threads'],
  must_probe=['interleaved', 'aborted'])
P('C07', 700, 40000, 'distinct (operation, fault kind, function and line or allocation of the abort)', ['all of commpy'],
  ['memory allocator (failures)', 'asynchronous interrupts', 'callbacks (failures)'],
  assumptions=['an aborted configuration change may or may not have taken effect'],
  must_probe=['aborted-line', 'aborted-alloc', 'aborted-callback', 'used-after-abort', 'retried'])
P('C08', 900, 50000, 'distinct (operations, arguments, repetitions, aborts) sequences', ['all of commpy'],
  ['memory allocator contents', 'asynchronous interrupts'],
  assumptions=['matrices added to an LDPC parameter dictionary are not an alteration (documented)'],
  must_probe=['decoded-again', 'large-values'])
P('C31', 900, 60000, 'distinct (code, transport, detector, message, faults, decodable) frames',
  ['commpy.links', 'commpy.channels', 'commpy.modulation', 'commpy.channelcoding (convcode, turbo, ldpc, interleavers)'],
  ['channel disturbances on top of the real channel (placed by the simulator)'],
  assumptions=['a frame must be delivered when an independent decoder, fed with independently computed soft values, has the sent frame ahead beyond rounding'],
  must_probe=['decodable', 'delivered', 'faults-within-margin', 'code-bits-corrected', 'beyond-margin'])
P('C32', 1200, 120000, 'distinct (operation, size, damaged positions, variant, untouched outputs)', ['all of commpy'],
  ['channel (NaN, infinite, huge, zeroed, negated and foreign samples, flipped bits, wiped-out transmissions)'],
  must_probe=['contained', 'recovered'] + ['contained-' + x for x in (
      'modulate', 'hard', 'soft', 'ofdm_tx', 'ofdm_rx', 'bp', 'ldpc_encode', 'viterbi', 'viterbi_hard', 'interlv', 'deinterlv', 'puncture',
      'siso', 'mimo', 'conv_encode', 'turbo_encode', 'dec2bit', 'offset', 'upsample', 'bsc', 'link')])
P('C33', 500, 50000, 'distinct (operation, fault kind and place, outcome)', ['all of commpy'],
  ['memory allocator (contents, failures)', 'asynchronous interrupts', 'callbacks (failures)', 'raw file layer (failures)'],
  must_probe=['returned', 'aborted', 'failed', 'ended-by-line', 'ended-by-alloc', 'ended-by-callback', 'ended-by-disk'])
P('C34', 900, 50000, 'distinct (operation, size, configuration, outcome, lines executed)', ['all of commpy'],
  ['channel (NaN, infinite, huge, zeroed and foreign samples, singular matrices)', 'callbacks (failing, never erring, always erring, NaN)', 'memory allocator contents'],
  assumptions=['work is counted in source lines of CommPy; limits are about ten times what the operation needs at its size'],
  must_probe=['ended', 'refused', 'ended-despite-faults', 'ended-bp', 'ended-best-first', 'ended-kbest', 'ended-ml', 'ended-max-log', 'ended-link', 'ended-idd', 'ended-turbo-long'])
P('C35', 600, 50000, 'distinct (way of saving, operations before and after) histories', ['all of commpy'],
  ['process crashes (between operations; a fresh process restores the saved objects)', 'partners of the link models'],
  assumptions=['partners given to a link model can be saved themselves; a link model without a decoder cannot be pickled (only copied)'],
  must_probe=['restart', 'copy', 'copy-goes-on', 'kept-trellis', 'kept-modem', 'kept-siso', 'kept-mimo', 'kept-link', 'kept-interlv',
              'kept-ldpc', 'kept-wifi'])
P('C36', 2000, 80000, 'distinct (preamble, root, delay, pulse, samples per symbol, span, symbols, restarts, oscillator jumps) bursts',
  ['commpy.sequences', 'commpy.filters', 'commpy.impairments', 'commpy.utilities.upsample', 'commpy.modulation modems'],
  ['the radio channel (delay, echoes, noise, impulses, foreign bursts)', 'receiver restarts'],
  must_probe=['restarted', 'burst-found', 'burst-found-despite-faults', 'payload-delivered', 'pulse-rc', 'pulse-rrc', 'pulse-rect', 'pulse-gauss'])
