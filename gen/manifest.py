"""Writes MANIFEST.json: `python3 gen/manifest.py`"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = 'Trusted: TLC, the tables of spec/Tables.tla (normative), the harness. '
CLAIMS = {
 'C03': ('TLA+ bitstream state machine (FrameSyntax.tla), TLC trace validation of recorded verdicts', 'model_checking',
         'TLC executes the complete frame grammar on every submitted frame (encoded, mutated, symbol-random, boundary frames of all 26 configurations) and compares the outcome with lc3_decode, fresh and in the middle of sessions. Sampled over byte strings; the grammar itself is exact.'),
}
CLAIMS.update({
 'C01': ('TLA+ rules of the queries (Queries.tla): laws model-checked over all configurations and sizes, recorded calls validated by TLC', 'model_checking',
         'TLC proves the round trip and range laws of the rules over every configuration and legal size, and compares more than 100 000 recorded calls with the rules: all legal sizes, all boundary arguments, random ones.'),
 'C02': ('TLA+ set-up rules (Queries.tla) and session model (Session.tla), trace validation by TLC, guards and AddressSanitizer on blocks of the announced size', 'model_checking',
         'Every set-up recorded is decided by the rules; sessions on fresh, dirty, reused and static-type blocks must be the same behaviour of Session.tla; nothing outside the block is touched.'),
 'C04': ('TLA+ bitstream semantics (FrameSyntax.tla) interpreted numerically, compared coefficient by coefficient and sample by sample', 'model_checking',
         'TLC derives the denotation of each frame (symbols, residuals, noise seed, envelopes); a double precision interpreter turns it into the spectrum; the decoder must agree to single precision. Frames are sampled (all modes, shapes, orders, sizes).'),
 'C07': ('TLA+ session model (Session.tla): all call scripts to a length generated by TLC, replayed, traces validated by TLC', 'model_checking',
         'All call sequences of length 4 over 6 abstract encode inputs on varying configurations, plus the size limits of all configurations; refused calls must leave the history node unchanged.'),
 'C08': ('TLA+ session model (Session.tla): all call scripts to a length generated by TLC, replayed, traces validated by TLC', 'model_checking',
         'All call sequences of length 4 over 8 abstract decode inputs on varying configurations; return values, untouched gaps and over-reads (AddressSanitizer) checked on each call.'),
 'C09': ('TLA+ session model (Session.tla): random behaviours of four slots generated by TLC, replayed, traces validated by TLC; threads', 'model_checking',
         'Outputs must be one function of the history of the session across interleaving, moved blocks, reused memory and 8 concurrent threads (the thread schedules are those that occurred).'),
 'C10': ('TLA+ session model keyed by sample values (Session.tla) and rounding relation (Rounding.tla), TLC trace validation', 'model_checking',
         'Same values in any format and stride must reach the same history node; every decoded sample of four parallel sessions is checked against the rounding relation.'),
 'C11': ('TLA+ session model in which a damaged frame is the input "lost" (Session.tla), TLC-generated loss patterns replayed and validated', 'model_checking',
         'Any damaged frame must lead to the history node of a loss; after two good frames without postfilter the output must be a function of those frames alone.'),
 'C12': ('TLA+ decoder control (Decoder.tla): source, attenuation and sign generator of each concealed frame; samples recomputed and compared', 'model_checking',
         'TLC states for each frame of each session what is synthesised; the samples are recomputed in double precision and compared; endless bursts are followed to silence in every format.'),
 'C13': ('TLA+ decoder control (Decoder.tla): transitions, lags and gains of the postfilter over the ring history; samples recomputed and compared', 'model_checking',
         'As C12, for sessions with the postfilter on, lags and gains changing at every position of the history, all PCM rates.'),
})
CLAIMS.update({
 'C05': ('TLA+ frame grammar (FrameSyntax.tla) and quantiser/bit-count machine (Quantiser.tla), TLC validation of encoded frames', 'model_checking',
         'Every frame encoded is parsed whole by the grammar, decoded, and its coefficients, count and LSB mode are those the bit-count machine derives from the input. Inputs, histories and size sequences are sampled over all 26 configurations.'),
 'C06': ('TLA+ quantiser/bit-count machine (Quantiser.tla) on the spectrum of the input, TLC validation of encoded frames', 'model_checking',
         'Each coefficient, residual bit, discarded LSB, truncation and noise level of each frame is decided by the machine from the transform of the samples (double precision, intervals covering single precision).'),
 'C14': ('TLA+ recurrence of the attack detector (Attack.tla), TLC validation of encoder sessions', 'model_checking',
         'The recurrence is executed exactly by TLC over whole sessions (sizes in and out of range, inputs on the edge of detection found by bisection); compared with the carried state and with which envelope each frame transmits.'),
 'C15': ('TLA+ automaton of pitch detection and activation (Pitch.tla) with sets of possible states, TLC validation of encoder sessions', 'model_checking',
         'TLC follows each session with the set of all states compatible with the correlations of the input; a frame that no state explains is refused.'),
 'C16': ('TLA+ three-valued decision rules (Bandwidth.tla), TLC validation of encoded frames', 'model_checking',
         'Each frame must signal a bandwidth allowed by the rules on the band energies of its input (intervals); input confined to a band must be signalled so.'),
 'C17': ('TLA+ position of samples (Stream.tla), TLC validation of end to end streams', 'model_checking',
         'The delay observed on signals known at any time, for every pair of PCM rates of every configuration, is the one of the specification and of the query.'),
})
CLAIMS.update({
 'C18': ('TLA+ model of the multichannel objects over the session model (Block.tla), traces of the C++ classes and of C sessions validated together by TLC', 'model_checking',
         'Objects of 1 to 8 channels and C sessions of their channels are driven side by side, in all configurations and PCM rates; TLC requires them to be the same function of the same histories, the block to be shared out by the rule, refused and partly refused blocks, losses, resets and every overload included. Queries are decided by Queries.tla.'),
 'C19': ('TLA+ model of the multichannel objects over the session model (Block.tla), traces of the Python classes and of C sessions validated together by TLC', 'model_checking',
         'As C18 for python/lc3.py, with short, exact and long input, all input and bit-depth kinds, arguments that must be refused, a library without the high-resolution interface, and the memory of objects made and let go.'),
})
CLAIMS.update({
 'C20': ('TLA+ model of the file container (Container.tla): writer/reader laws model-checked, files written and read by the code validated by TLC; decoder tool under AddressSanitizer on damaged files', 'model_checking',
         'TLC proves that what is written reads back, cut anywhere, and compares thousands of files written and read (whole, cut at every position, damaged, foreign, on files and pipes) byte by byte with the model. Files are sampled.'),
 'C21': ('TLA+ model of the tools (Tools.tla): laws model-checked over all configurations and lengths around frame boundaries; plans printed by TLC executed on the codec and compared with what elc3, dlc3 and the Python tools did (Container.tla, Wave.tla)', 'model_checking',
         'Each run of a tool must accept or refuse as the model says, and write exactly the blocks or samples of the plan, header included. All configurations and resampling pairs, lengths around frame boundaries, truncated input, trailing chunks, damaged blocks, files and pipes. Recordings are short and sampled.'),
 'C22': ('TLA+ machine walking through the chunks of a WAVE file (Wave.tla): laws model-checked over chunk layouts, files read and written by the code validated by TLC', 'model_checking',
         'TLC proves that the walk finds parameters and samples for all layouts of a set, and decides for thousands of files (junk chunks, format sizes, truncation at each position, corrupted fields, pipes) what must be read. Files are sampled.'),
 'C23': ('TLA+ query rules with the options of the build (Queries.tla) and session model (Session.tla): traces of full and reduced builds validated together by TLC; AddressSanitizer on the reduced builds', 'model_checking',
         'The three reduced builds: every query and set-up is decided by the rules of the build; sessions on the full and the reduced library must be one function of their histories (compared with strict floating point arithmetic).'),
})
CLAIMS.update({
 'C25': ('TLA+ machine of the rate loop (Rate.tla, Bits.tla) with sets of possible states, TLC validation of encoder sessions', 'model_checking',
         'TLC follows each session with the carried offset and spare bits as intervals, estimates, counts and adjusts the gain of each frame, and refuses a gain that no state explains. Inputs, histories and sizes are sampled over all 26 configurations; about five frames in six admit one gain only.'),
})
CLAIMS.update({
 'C26': ('TLA+ machine of the envelope search (Envelope.tla): code books, pulse placement, shape and gain, temporal filters, on intervals; TLC validation of encoded frames', 'model_checking',
         'TLC searches the code books, places the pulses one by one (every placement the precision of an encoder allows), compares shapes and gains, and decides the temporal filters from intervals of the prediction. Inputs are sampled over all 26 configurations; 97 percent of the spectral envelopes and 80 percent of the filters are decided.'),
})
CLAIMS.update({
 'C27': ('TLA+ session model (Session.tla): traces of the portable and of the Arm code, over emulated intrinsics, validated together by TLC; encoder and decoder specifications (Quantiser.tla, Pitch.tla, Decoder.tla) on the Advanced SIMD build', 'model_checking',
         'The integer code must be one function of the same histories as the portable code, frames and state included; the transforms are judged by the frames and samples they lead to. The intrinsics are emulated on this host as the Arm documentation defines them. Inputs are sampled over all 26 configurations and PCM rates.'),
})
NA = {
 'C24': 'a statistical property of listening quality on corpora: it has no state/transition content that a specification could decide, and neither the corpus nor the reference measurement tools are available here.',
}
def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    checks = []
    for i in ids:
        if i in CLAIMS:
            t, l, n = CLAIMS[i]
            checks.append(dict(property=i, quick_cmd=f'VERIF_TIER=quick ./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
                               evidence_file=f'evidence/{i}.json', technique=t, level=l, level_note=n + ' ' + TRUST if TRUST not in n else n))
    na = [dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in CLAIMS]
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the checks observe the public API and the public state structures of include/lc3_private.h.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
if __name__ == '__main__':
    main()
