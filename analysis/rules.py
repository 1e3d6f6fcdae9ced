"""the rule each check applies, for the evidence (checks may set their own)"""
RULES = {
 'C01': 'clone(s) and s stepped together from s = new(settings): the clone equals new(get_settings(s)) for every state s; the receiver after clone is the receiver before',
 'C03': 'get(set(s, f)) == f, get(process(s)) == get(s); process(set(s, f)).result == process(s).result except for the square',
 'C04': 'the interval of the state established by new and kept by every operation (induction over one extracted step), and the interval of the result on it',
 'C05': 'result == waveform(position), position after == wrap(position + f/48000) as identities of the extracted step; the sine table entries are compared one by one',
 'C17': 'one extracted step from any position: interpolation at p, then p + speed*rate/48000; silence and no read outside the data beyond the end',
 'C18': 'one extracted step from any position: wrap into [start, end) keeping the fraction, seam interpolation; loop points ordered and limited by new',
 'C19': 'paused => result == 0 and every cell reachable from the sound == before, no block is called',
 'C20': 'muted and running => result == 0 and every cell and every call equal those of the unmuted step',
 'C21': 'id after register/unregister/new is given/none; every other operation leaves it, and these leave all else',
 'C22': 'the calls on the blocks, in order, each exactly once, with arguments and results chained as stated; the list grows only at its end, in order',
 'C23': 'prime adds; process calls each part once on the pending input and clears it; the result is the interactor of the two',
 'C24': 'the order stored after each edit equals, as a fold over an arbitrary graph, the topological walk of the edited graph; the pass calls blocks along the stored order and hands each output to each direct successor once',
 'C25': 'the buffer after one pass == n samples, each gain * sum over the held sounds of one new sample, for any number of sounds and samples; id counter strictly above every id in use',
 'C26': 'conversion == round(x * scale) saturated, its inverse linear; composition is the identity on every integer of the width',
 'C27': 'bytes == little-endian bit ranges of the integer conversion, and the inverse with sign extension (bit provenance)',
 'C28': 'every operator, on every channel == the scalar operation on that channel alone',
 'C29': 'the value left by op= is the same floating-point expression (operations, widths, order) as the plain operator',
 'C30': 'into(from(x)) == x; linear, symmetric; From/Into agree with the named conversions',
 'C31': 'vector of k elements == the conversion of channel 0..k; the way back for len >= k, error exactly for len < k, no panic',
 'C32': 'gain(side) == 10^(dB/20) with the stated dB piecewise linear in the clamped position; mirror symmetry; both widths agree',
 'C33': 'the one encoder call receives header(tracks, 48000, bits) and the sequence [conv(track[c][i])] for i, c in that nesting, for any number of tracks and samples',
 'C34': 'under each stated bad-input condition the path condition of the encoder call is contradictory and the result is an error; an encoder error implies an error result; success implies the call',
 'C35': 'with clip: every stored sample == conv(clamp(x, -1, 1)); without: conv(x)',
 'C36': 'under each data variant of the decoder the result is, per channel c, the sequence conv(data[i*channels + c]); decoder error and zero channels give an error',
 'C37': 'each conversion == the stated function; compositions are identities (on whole counts with the final rounding)',
 'C38': 'result == (x - mean) * level / max|x - mean| for every track length; denominator zero => zeros; length kept',
 'C39': 'lerp == the line through its two points; clerp == lerp at the clamped position, for both orders of the ends',
 'C42': 'count == min(len(buffer), remaining); bytes copied == source[position ..], position advances by count, the rest of the buffer untouched',
}
