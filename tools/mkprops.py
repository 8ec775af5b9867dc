#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
S = "chromaprint/src/"
L = []


def P(id, title, statement, over, text, why, files, mech, observe=(), hook=None):
    assert len(title) <= 80, title
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": hook}})


HOOK = "crate-private stages are reached through a harness module compiled in with --cfg rcp_verif"
P("C01", "Compressed fingerprints decode back to exactly the same items",
  "Decoding the compressed form of a fingerprint, following the Chromaprint format, yields the algorithm id of the configuration, the item count and exactly the original items in order. Compression never fails or panics.",
  ["inputs"], "every fingerprint (any item values, any number of items) and any algorithm id", "The single compression test compares one 32-item vector with a stored byte string; nothing decodes, and the item values, bit gaps and lengths it contains are a sample.",
  [S + "compression.rs"], [("FingerprintCompressor::compress", S + "compression.rs"), ("iter_packed_intn_array", S + "compression.rs")], ["FingerprintCompressor::compress output"])
P("C02", "Compressed fingerprints have exactly the canonical byte layout",
  "The compressed form is: the algorithm id, the item count as a 24-bit big-endian number, then for the bit positions set in each item XOR its predecessor the gaps as 3-bit codes (7 for gaps of at least 7, 0 closing each item), then gap-7 of each such gap as 5-bit codes. Both code streams are packed least significant bit first and padded with zero bits to a byte boundary, and nothing else is present.",
  ["inputs"], "every fingerprint of fewer than 2^24 items and any algorithm id", "Stored vectors cover one fingerprint; interoperability with AcoustID needs every byte right for every gap pattern, code count modulo 8 and item count.",
  [S + "compression.rs"], [("FingerprintCompressor::compress", S + "compression.rs"), ("packed_intn_array_len", S + "compression.rs")], ["FingerprintCompressor::compress output"])
P("C03", "Matched segments are in bounds, ordered, disjoint and aligned",
  "Every segment returned for two fingerprints is non-empty and lies inside both fingerprints, all segments of one call lie on the same alignment (same difference of offsets), they are sorted and do not overlap, and each score is at least 0 and below 10. Matching never panics.",
  ["inputs"], "every pair of fingerprints accepted by the matcher", "The matching tests run three stored pairs of recordings; boundary cases such as empty, one-item or extremely shifted fingerprints and every merge/split pattern of segments are not reachable by samples.",
  [S + "fingerprint_matcher.rs", S + "gaussian.rs", S + "gradient.rs"], [("match_fingerprints", S + "fingerprint_matcher.rs"), ("Segment::try_merge", S + "fingerprint_matcher.rs")], ["segments returned by match_fingerprints"])
P("C04", "A fingerprint matches itself completely with score 0",
  "Matching a fingerprint of at least two items against itself returns exactly one segment, which starts at 0 in both, covers all items and has score 0.",
  ["inputs"], "every fingerprint of at least two items, including repeated and periodic items", "Tests match a few recordings; repeated items create competing alignments that samples do not contain.",
  [S + "fingerprint_matcher.rs"], [("alignment histogram", S + "fingerprint_matcher.rs")], ["segments returned by match_fingerprints"])
P("C05", "A segment's score is the mean number of differing bits of its items",
  "For every returned segment, score times item count equals the total number of bits that differ between the paired items of the two fingerprints over that segment, up to rounding, also when the segment was formed by merging.",
  ["inputs"], "every pair of fingerprints and every returned segment", "Tests compare the score of two stored pairs with constants.",
  [S + "fingerprint_matcher.rs"], [("score computation", S + "fingerprint_matcher.rs"), ("Segment::try_merge", S + "fingerprint_matcher.rs")], ["Segment::score"])
P("C06", "Matching uses the alignment on which most item hashes agree",
  "Segments are returned only for an alignment of the two fingerprints on which the number of paired items agreeing in their top 12 bits is the largest of all alignments and at least two; when no alignment has two such pairs the result is empty. When that alignment is unique and its items differ in fewer than 10 bits on average without abrupt changes, it is found.",
  ["inputs"], "every pair of fingerprints", "A stored pair exercises one alignment; equal hashes, ties and alignments at the extremes are a combinatorial space.",
  [S + "fingerprint_matcher.rs"], [("sorted offsets and histogram", S + "fingerprint_matcher.rs")], ["segment offsets"])
P("C07", "Too long fingerprints are rejected, naming the offending argument",
  "Matching fails with the too-long error exactly when a fingerprint has 524286 items or more, the index is 0 if the first one is too long and 1 otherwise, and a fingerprint of any shorter length is accepted.",
  ["inputs"], "every pair of fingerprint lengths", "No test uses fingerprints longer than a few hundred items.",
  [S + "fingerprint_matcher.rs"], [("length checks", S + "fingerprint_matcher.rs")], ["match_fingerprints result"])
P("C08", "Segment times follow from item positions and the item duration",
  "A segment's start times, end times and duration are its item offsets, their sums with the item count, and its item count, each multiplied by the configuration's item duration (up to single-precision rounding); starts never exceed ends.",
  ["inputs", "configurations"], "every segment whose offsets and counts a matcher can return, every preset", "Tests never call the time helpers.",
  [S + "fingerprint_matcher.rs"], [("Segment::start1 .. duration", S + "fingerprint_matcher.rs")], ["Segment::start1, end1, start2, end2, duration"])
P("C09", "Restarting leaves no trace of the previous stream",
  "After start() succeeds, the fingerprint computed from the samples that follow is the same as from a newly created fingerprinter, whatever was consumed before, with whatever sample rate and channel count, and whether or not it was finished. Directly after start() the fingerprint is empty.",
  ["histories", "inputs"], "every history of start/consume/finish calls before the restart", "No test uses a fingerprinter twice.",
  [S + "fingerprinter.rs", S + "audio_processor.rs", S + "fft.rs", S + "chroma_filter.rs", S + "fingerprint_calculator.rs", S + "rolling_image.rs"], [("reset chain", S + "fingerprinter.rs")], ["Fingerprinter::fingerprint"], HOOK)
P("C10", "Channels are averaged sample by sample",
  "The processed mono stream has one sample per input frame, equal to the integer mean (rounded toward zero) of that frame's channels, scaled by 1/32767; frame order is kept. No sample values cause overflow or a panic.",
  ["inputs"], "every frame content and channel count", "Tests use a mono and a stereo recording; more than two channels and extreme sample values are not tested.",
  [S + "audio_processor.rs"], [("AudioProcessor::load", S + "audio_processor.rs")], ["samples handed to the FFT stage"], HOOK)
P("C11", "How the samples are split into consume() calls does not matter",
  "For every way of splitting the same sample stream into consecutive consume() calls, including empty ones and splits anywhere relative to internal buffer boundaries, every frame is processed exactly once and in order, and the fingerprint after finish() is the same. Without resampling, calling finish() between consume() calls changes nothing either.",
  ["histories", "inputs"], "every split of every stream into calls", "Tests feed whole files in a single call or in one fixed chunk size.",
  [S + "audio_processor.rs", S + "fft.rs"], [("buffer loop of consume", S + "audio_processor.rs"), ("ring buffer", S + "fft.rs")], ["samples handed to the FFT stage", "Fingerprinter::fingerprint"], HOOK)
P("C12", "start() accepts exactly the usable sample rates and channel counts",
  "start() fails with the no-channels error for zero channels, with the sample-rate error for rates of at most 1000 Hz, and otherwise succeeds; it never panics.",
  ["inputs"], "every pair of 32-bit sample rate and channel count", "Tests only start with valid values.",
  [S + "audio_processor.rs"], [("AudioProcessor::reset", S + "audio_processor.rs")], ["Fingerprinter::start result"])
P("C13", "Resampled streams hand every input frame to the resampler exactly once",
  "When the stream's rate differs from the configuration's, a resampler is created with the ratio target/source, all frames pass through it in order exactly once in full blocks, with the remaining frames passed as one shorter block at finish(), and everything it produced (and nothing else) goes on in order. No sequence of calls makes the resampler fail, and streams at the target rate bypass it.",
  ["histories", "inputs"], "every stream length relative to the block size and every split into calls", "One stored 44.1 kHz recording is resampled.",
  [S + "audio_processor.rs"], [("AudioProcessor::resample", S + "audio_processor.rs"), ("AudioProcessor::flush", S + "audio_processor.rs")], ["calls to the resampler, samples handed to the FFT stage"], HOOK)
P("C14", "Frames start every hop and contain exactly the windowed samples",
  "Spectrum k is computed from samples k*hop to k*hop+frame-1 of the stream, multiplied by a Hamming window, where hop is frame size minus overlap; one is produced as soon as its last sample is available and incomplete frames produce none. Each value handed on is the squared magnitude of the corresponding transform output.",
  ["inputs", "configurations", "histories"], "every stream, frame size, overlap and split into calls", "Two stored recordings with one frame size and overlap.",
  [S + "fft.rs"], [("Fft::consume", S + "fft.rs"), ("make_hamming_window", S + "fft.rs")], ["power spectra handed to the chroma stage"], HOOK)
P("C15", "Spectrum energy is distributed over the 12 notes by frequency",
  "Without interpolation each chroma band is the sum of the energies of exactly those bins whose frequency lies in the analysed range and whose pitch class is that band, so the bands together hold the energy of the analysed bins and nothing else. Bins outside the range have no influence, and each frame is independent of earlier ones.",
  ["inputs", "configurations"], "every spectrum, for the frame sizes of the presets and small frame sizes", "Tests set a single bin of a spectrum at a handful of positions.",
  [S + "chroma.rs"], [("prepare_notes", S + "chroma.rs"), ("Chroma::consume", S + "chroma.rs")], ["chroma vectors handed to the FIR filter"], HOOK)
P("C16", "Interpolation splits a bin's energy between its note and the nearer neighbour",
  "With interpolation every analysed bin's energy is split between its own note and the neighbouring note nearer in pitch (cyclically), the own note's share falling linearly from 1 at the centre of the note to 1/2 at its borders, so that the total energy is unchanged. Configurations that request interpolation get it and others do not.",
  ["inputs", "configurations"], "every spectrum and every analysed bin", "Three single-bin spectra are tested.",
  [S + "chroma.rs", S + "fingerprinter.rs"], [("Chroma::consume", S + "chroma.rs"), ("Fingerprinter::new", S + "fingerprinter.rs")], ["chroma vectors handed to the FIR filter"], HOOK)
P("C17", "The chroma filter outputs the weighted sum of the latest feature vectors",
  "With n coefficients (1 to 8), output k is for each of the 12 bands the sum of coefficient j times input k+j over j = 0..n-1; the first output appears with the n-th input and every further input gives exactly one output, for streams of any length.",
  ["inputs", "histories"], "every sequence of feature vectors and every coefficient list of 1 to 8 values", "Tests use up to four rows and coefficients of length 1 to 3; the internal ring of 8 rows never wraps.",
  [S + "chroma_filter.rs"], [("ChromaFilter::consume", S + "chroma_filter.rs")], ["vectors handed to the normalizer"], HOOK)
P("C18", "Feature vectors are normalised to unit length, near-silent ones to zero",
  "Each feature vector is divided by its Euclidean norm when that norm is at least 0.01 and replaced by zeros otherwise; there is one output per input and outputs are never NaN for finite input.",
  ["inputs"], "every finite feature vector", "Three vectors are tested.",
  [S + "chroma_normalizer.rs"], [("normalize", S + "chroma_normalizer.rs")], ["vectors handed to the fingerprint calculator"], HOOK)
P("C19", "Rectangle sums over the rolling image equal the sums of their cells",
  "For every rectangle whose rows are still retained, the area query returns the sum of the cells added in those rows and columns, no matter how many rows were added and discarded before; empty rectangles give 0.",
  ["inputs", "histories"], "every image content, every number of added rows (also beyond the retained number) and every rectangle within the retained rows", "Tests check a few rectangles of small images that roll over once.",
  [S + "rolling_image.rs"], [("RollingIntegralImage::add_row", S + "rolling_image.rs"), ("RollingIntegralImage::area", S + "rolling_image.rs")], ["Image::area"], HOOK)
P("C20", "Each classifier filter compares exactly its two regions of the image",
  "Filters 0 to 5 return ln((1+A)/(1+B)), where A and B are the sums of the cells in the filter's two sets of regions (whole / upper and lower half / left and right half / diagonal quarters / middle and outer third of the rows / of the columns) at the given position and size. The regions of a filter together cover its rectangle exactly once.",
  ["inputs", "configurations"], "every image, position and size for which the rectangle lies inside the image, including sizes not divisible by 2 or 3", "One small image and few sizes are tested.",
  [S + "filter.rs"], [("filter0 .. filter5", S + "filter.rs")], ["Filter::apply"], HOOK)
P("C21", "Quantizers map a value to the number of thresholds it has reached",
  "For ordered thresholds t0 <= t1 <= t2 the quantizer returns 0 below t0, 1 in [t0,t1), 2 in [t1,t2) and 3 from t2 on; so the result never decreases when the value grows.",
  ["inputs", "configurations"], "every finite value and every ordered triple of thresholds", "Eight values for one triple are tested.",
  [S + "quantize.rs"], [("Quantizer::quantize", S + "quantize.rs")], ["Quantizer::quantize"], HOOK)
P("C22", "Each item packs the classifiers' Gray-coded results over the right rows",
  "An item is emitted for each feature vector once as many vectors as the widest classifier spans have been received, and it is computed over exactly the latest such rows. Its bits are the classifier results in order, first classifier in the most significant pair, each encoded as 0,1,2,3 -> 00,01,11,10.",
  ["inputs", "histories", "configurations"], "every sequence of feature vectors and every list of up to 16 classifiers", "A stored vector of one configuration is compared.",
  [S + "fingerprint_calculator.rs", S + "classifier.rs"], [("FingerprintCalculator::consume", S + "fingerprint_calculator.rs"), ("gray_code", S + "fingerprint_calculator.rs")], ["fingerprint items"], HOOK)
P("C23", "All presets are usable: ids, sizes and classifiers fit the pipeline",
  "The five presets have ids 0 to 4; for each of them every classifier lies within the 12 bands and the retained rows, has ordered thresholds, there are 16 classifiers, and any sequence of feature vectors is turned into items without a panic for streams of any length.",
  ["configurations", "inputs"], "all presets and every sequence of feature vectors", "Only one preset is exercised, on short recordings.",
  [S + "fingerprinter.rs"], [("preset_test1 .. preset_test5", S + "fingerprinter.rs")], ["Fingerprinter::fingerprint"], HOOK)
P("C24", "The matcher's smoothing averages over a reflected window of fixed width",
  "A box filter of width w replaces element i by the mean of the w elements starting at i - w/2, indices outside the data being mirrored at its ends (edge elements repeated); the gaussian smoothing is the stated number of such passes. Smoothing keeps the number of elements, leaves constant data unchanged and never panics, for all sizes including ones smaller than the window.",
  ["inputs"], "every data length and window width", "Tests use three elements and widths up to five.",
  [S + "gaussian.rs"], [("box_filter", S + "gaussian.rs"), ("gaussian_filter", S + "gaussian.rs")], ["smoothed bit differences"], HOOK)
P("C25", "The gradient is the central difference, one-sided at the ends",
  "For n values the gradient has n entries: half the difference of the two neighbours inside, the difference to the only neighbour at both ends, and 0 for a single value.",
  ["inputs"], "every sequence", "Five short sequences are tested.",
  [S + "gradient.rs"], [("gradient", S + "gradient.rs")], ["gradient output"], HOOK)
P("C26", "Silence removal drops leading silence and nothing else",
  "With a silence threshold set, samples are discarded from the start of the stream for as long as the moving average of their absolute values stays at or below the threshold, and all later samples are processed unchanged; without a threshold nothing is discarded.",
  ["inputs", "configurations"], "every sample stream and threshold", "No test uses a configuration with silence removal.",
  [S + "fingerprinter.rs"], [("Configuration::with_removed_silence", S + "fingerprinter.rs")], ["Fingerprinter::fingerprint"], HOOK)
P("C27", "fpcalc fingerprints each decoded frame exactly once, up to the length limit",
  "For every sequence of decoded packets, chunk duration, overlap setting and length limit, the frames handed to fingerprinting are the decoded frames of the selected track in order, each exactly once, up to the limit; chunk results partition them at multiples of the chunk duration, and with overlap no item is lost or printed twice. No packet sizes cause a panic.",
  ["inputs", "histories", "configurations"], "every sequence of packet sizes and every combination of --length, --chunk and --overlap", "fpcalc has no tests of its main loop.",
  ["fpcalc/src/main.rs"], [("main loop", "fpcalc/src/main.rs")], ["consume/start/finish calls made by fpcalc, printed fingerprints"], "fpcalc's main is compiled against recording stand-ins for the decoder")
P("C28", "fpcalc accepts exactly the algorithm ids 0 to 4 and selects their presets",
  "The algorithm option accepts exactly the strings that denote the integers 0 to 4 and selects the preset with that id; every other string is rejected with an error and without a panic.",
  ["inputs"], "every string", "fpcalc has no tests.",
  ["fpcalc/src/main.rs"], [("Algorithm::try_from", "fpcalc/src/main.rs")], ["Algorithm"], "as C27")
P("C29", "Displayed durations are correct hours:minutes:seconds.hundredths",
  "The duration display of compare prints the given number of seconds rounded to hundredths as h:mm:ss.cc, with minutes and seconds below 60 and always two digits, so that the printed fields add up to the rounded value; negative values print as zero.",
  ["inputs"], "every single-precision duration", "There are no tests of it.",
  ["compare/src/utils.rs"], [("DurationDisplay", "compare/src/utils.rs")], ["formatted text"], "as C27")
P("C30", "The number of items follows from the number of samples",
  "At the native sample rate, a stream of n mono frames yields max(0, floor((n - frame size)/hop) + 1 - (coefficients-1) - (widest classifier-1)) items, where hop is frame size minus overlap; the configuration's delay() is exactly the number of frames after which hop more frames give the first item. The item duration is hop divided by the sample rate.",
  ["inputs", "configurations"], "every stream length and configuration", "One recording's item count is implied by a stored fingerprint.",
  [S + "fingerprinter.rs", S + "fft.rs", S + "chroma_filter.rs", S + "fingerprint_calculator.rs"], [("Configuration::delay", S + "fingerprinter.rs"), ("Fft::consume", S + "fft.rs")], ["Fingerprinter::fingerprint().len(), Configuration::delay()"], HOOK)
P("C31", "fpcalc prints the fingerprint and metadata it computed, in the chosen format",
  "Each printed result contains exactly the items of its fingerprint: as comma separated unsigned numbers with --raw, as the same bit patterns in signed form with --signed, and otherwise as the URL-safe base64 of the compressed form; the text, JSON and plain formats carry the documented fields in every combination of options.",
  ["inputs", "configurations"], "every fingerprint and every combination of output options", "fpcalc has no tests.",
  ["fpcalc/src/main.rs"], [("ResultPrinter::print_result", "fpcalc/src/main.rs")], ["standard output"], "as C27")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
print(len(L))
