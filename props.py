"""What each check runs: harness group, entry points, their bounds."""
LIB = {"ir": "harness/lib", "run": "harness/run", "bin": "vrun"}
GROUPS = {
    "compress": LIB, "matcher": LIB, "smooth": LIB, "dsp": LIB, "image": LIB, "proc": LIB, "pipe": LIB,
    "disp": {"ir": "harness/cli", "run": "harness/clirun", "bin": "vclirun", "std": True, "crates": ["vcli"], "use": ["vcli", "core", "alloc"]},
    "fpcalc": {"ir": "harness/fp", "run": "harness/fprun", "bin": "vfprun", "std": True, "crates": ["vfp"], "use": ["vfp", "core", "alloc", "std", "anyhow", "chrono", "clap", "symphonia", "rusty_chromaprint", "base64"]},
    "compare": {"ir": "harness/fp", "run": "harness/fprun", "bin": "vfprun", "std": True, "crates": ["vfp"], "use": ["vfp", "core", "alloc", "std", "anyhow", "symphonia", "rusty_chromaprint"]},
}

W = ["--words"]
NM = ["--no-merge"]  # every path by itself
HV = ["--havoc-fp"]
R = ["--fp", "real"]
RW = R + W
RD = R + ["--dyad"]
RN = R + ["--nl", "--dyad"]
RA = R + ["--affine"]
X = ["--fp", "exact"]
INT = "feature values are arbitrary integers (or dyadic fractions) of the stated width, on which double arithmetic is exact, and arbitrary reals where stated"
REAL = "floating point as real arithmetic with bounded rounding errors (a sound relaxation); inputs are arbitrary reals of a bounded range where they are doubles"
PIPE = REAL + "; the transform and the resampler are stand-ins, small frames and narrow classifiers are configured through the public API"

CLI = "fpcalc's own main program, with clap, symphonia, chrono, anyhow and the library replaced by stand-ins (options, decoded packets, clock and fingerprint items come from the harness); base64 and the standard library's formatting are the real ones"


def E(entry, bound, opts=(), cost=1, **kw):
    return dict(entry=entry, bound=bound, opts=list(opts), cost=cost, **kw)


PROPS = {
    "C01": {"group": "compress", "entries": [
        E("h_dec_low", "one item, bits 0-13 symbolic", W), E("h_dec_mid", "one item, bits 13-25 symbolic", W), E("h_dec_top", "one item, bits 19-31 symbolic", W),
        E("h_dec_wide", "one item, 12 symbolic bits spread over 0-31 (gaps up to 9)", W), E("h_dec_two", "two items, 4 and 5 symbolic bits", W, 3), E("h_dec_three", "three items, 2-3 symbolic bits each", W)]},
    "C02": {"group": "compress", "entries": [
        E("h_enc_low", "one item, bits 0-15 symbolic", W, 5), E("h_enc_high", "one item, bits 16-31 symbolic", W, 5), E("h_enc_wide", "one item, 12 symbolic bits spread over 0-31", W),
        E("h_enc_two", "two items, one symbolic byte each at bits 3 and 20", W, 6), E("h_enc_three", "three items, 3-4 symbolic bits each", W, 9),
        E("h_enc_none", "empty fingerprint", W), E("h_enc_many", "300 equal items with 4 symbolic bits", W), E("h_enc_huge", "65794 equal items with 1 symbolic bit: header only", W, 4)]},
    "C03": {"group": "matcher", "entries": [
        E("h_wf22", "2 against 2 arbitrary items", RW + NM), E("h_wf33", "3 against 3 arbitrary items", RW + NM, 4), E("h_bit33", "3 against 3 items, one symbolic hash bit each, other 20 low bits arbitrary", RW + NM, 2),
        E("h_bit44", "4 against 4 items, one symbolic hash bit each, other 20 low bits arbitrary", RW + NM, 9),
        E("h_wseg44", "4 against 4 aligned items, 20 arbitrary bits each, scores included", RW), E("h_wseg66", "6 items, likewise", RW), E("h_wseg88", "8 items, likewise", RW),
        E("h_wpat14", "14 aligned pairs of arbitrary items whose numbers of differing bits follow a profile that makes segments merge, 7 of them varied", RW), E("h_wpat22", "22 pairs, likewise", RW),
        E("h_seg44", "4 against 4 items on a fixed alignment, 20 arbitrary bits each", HV + W, havoc=True), E("h_seg66", "6 against 6 items, as before", HV + W, 2, havoc=True), E("h_seg86", "8 against 6 items, as before", HV + W, 2, havoc=True),
        E("h_wblk16", "16 items in 2 blocks with 0-19 differing bits each, 2 segments", RW, 5), E("h_wblk24", "24 items in 2 blocks, likewise", RW, 6)]},
    "C04": {"group": "matcher", "entries": [
        E("h_self2", "2 arbitrary items", RW), E("h_self3", "3 arbitrary items", RW),
        E("h_self5", "5 items, every assignment of two hash values, the other 20 bits arbitrary", RW), E("h_self7", "7 items, likewise", RW), E("h_self10", "10 items, likewise", RW),
        E("h_selfs4", "4 items, every assignment of three hash values, likewise", RW), E("h_selfs6", "6 items, likewise", RW),
        E("h_selfseg12", "12 items of distinct hashes, the other 20 bits arbitrary", RW), E("h_selfseg150", "150 items, likewise", RW), E("h_selfeq300", "300 items of one hash, two bits of one of them arbitrary, all others fixed", RW)],
        "thorough": [E("h_self4", "4 items, one symbolic hash bit each, low bits arbitrary", RW)]},
    "C05": {"group": "matcher", "note": REAL, "entries": [
        E("h_score22", "2 against 2 arbitrary items", RW + NM), E("h_score33", "3 against 3 items, one symbolic hash bit each", RW + NM), E("h_sseg44", "4 aligned items, 20 arbitrary bits each", RW), E("h_sseg66", "6 items, likewise", RW), E("h_sseg88", "8 items, likewise", RW),
        E("h_pat14", "14 aligned pairs of arbitrary items whose numbers of differing bits follow a profile that makes segments of different lengths merge, 7 of them varied", RW), E("h_pat15", "15 pairs, another profile", RW), E("h_pat18", "18 pairs, another profile, 6 varied", RW), E("h_pat22", "22 pairs, another profile, 7 varied", RW), E("h_pat31", "31 pairs, another profile, 6 varied", RW),
        E("h_blk16", "16 items in 2 blocks with 0-19 differing bits each (segments split and merged)", RW, 4, reach=[601]), E("h_blk24", "24 items in 2 blocks, likewise", RW, 5, reach=[601])]},
    "C06": {"group": "matcher", "entries": [
        E("h_best23", "2 against 3 arbitrary items", RW + NM, 2), E("h_best33", "3 against 3 arbitrary items", RW + NM, 8), E("h_bestb44", "4 against 4 items, one symbolic hash bit each", RW + NM, 9),
        E("h_bests53", "5 against 3 items, every assignment of two hash values, low bits arbitrary", HV + W, 6, havoc=True), E("h_bests36", "3 against 6 items, likewise", HV + W, 7, havoc=True), E("h_bests44", "4 against 4 items, likewise", HV + W, 7, havoc=True),
        E("h_cls55", "5 against 5 items, every assignment of two hash values, the same 20 low bits in all", R), E("h_cls65", "6 against 5 items, likewise", R), E("h_cls57", "5 against 7 items, likewise", R), E("h_cls66", "6 against 6 items, likewise", R), E("h_cls44", "4 against 4 items, every assignment of three hash values, likewise", R),
        E("h_bestmany", "300 against 280 items, all but ten of one hash, 2 bits of one item of each arbitrary, all others fixed", RA), E("h_foundlong", "300 against 290 items of distinct hashes, 2 bits of two items of each arbitrary, all others fixed", RA),
        E("h_found88", "8 against 8 items, unique alignment, 0-19 equal differing bits", RW), E("h_found812", "8 against 12 items, likewise", RW), E("h_found129", "12 against 9 items, likewise", RW)]},
    "C07": {"group": "matcher", "entries": [
        E("h_long0", "first length 524286..524291, second up to 524291", ["--stop-alloc-bad", "701"]), E("h_long1", "second length 524286..524291, first shorter", ["--stop-alloc-bad", "711"]),
        E("h_long0w", "lengths up to 2^40", ["--stop-alloc-bad", "701"]), E("h_long1w", "lengths up to 2^40", ["--stop-alloc-bad", "711"]),
        E("h_longok", "both lengths 0..524285, up to the first allocation", ["--stop-alloc", "720"])]},
    "C08": {"group": "matcher", "note": REAL, "entries": [E("h_times", "all offsets and counts up to 524286, five presets", RW)]},
    "C09": {"group": "pipe", "note": PIPE, "entries": [
        E("h_restart", "first stream of 0, 20 or 40 frames at 3 rates, mono or stereo, finished or not, second of 34 frames at 2 rates, one sample in 11 arbitrary; 2 coefficients, rows of 2", RA, 5),
        E("h_restartc", "likewise with two earlier streams of 0-65 frames and failing starts between, fixed samples, 3 coefficients", RA, 2), E("h_restart8", "0-108 frames, 8 coefficients, rows of 3, fixed samples", RA, 2)]},
    "C10": {"group": "proc", "entries": [E("h_mix%d" % c, "%d channels, %d frames of arbitrary samples" % (c, n), RD) for c, n in ((1, 9), (2, 9), (3, 6), (4, 6), (5, 5), (8, 5))] + [
        E("h_ext%d" % c, "%d channels, one frame of any mixture of the two extreme sample values, two arbitrary ones" % c, RD) for c in (1, 2, 6, 40)] + [
        E("h_many1", "mono, 70001 frames in one call, 8 of them arbitrary", RD), E("h_many2", "stereo, 3000 frames in 3 calls, one sample arbitrary", RD),
        E("h_ext255", "255 channels, extreme values in steps of 15", RD), E("h_ext1000", "1000 channels, extreme values in steps of 125", RD)]},
    "C11": {"group": "proc", "note": "internal buffer reduced from 32768 to 4 samples by the hook", "entries": [
        E("h_split1", "mono, 0-14 frames, every split into 3 calls", RD), E("h_split1f", "mono, 0-9 frames, likewise, flushed or not between", RD), E("h_split2", "stereo, 0-9 frames, likewise", RD), E("h_split3", "three channels, 0-9 frames, likewise", RD), E("h_split4", "mono, 0-9 frames, every split into 4 calls, flushed or not between", RD, 2),
        E("h_psplit1", "whole pipeline, mono, 40 arbitrary samples, splits into 3 calls in steps of 8, finished between or not", RA, 2, group="pipe"), E("h_psplit1f", "likewise in steps of 2, one sample in 9 arbitrary", RA, 2, group="pipe"), E("h_psplit2", "stereo, 40 arbitrary frames, steps of 10", RA, 2, group="pipe"),
        E("h_psplitr", "resampled from 44100 Hz, 40 arbitrary samples, steps of 8", RA, 2, group="pipe"), E("h_psplitc", "stereo, 48 fixed frames, every split into 3 calls", RA, 2, group="pipe")]},
    "C12": {"group": "proc", "entries": [E("h_start", "two calls in a row, every rate and channel count", RD), E("h_busy", "any rate and channel count in the middle or at the end of a stream of 0-7 samples, resampled or not", RD)]},
    "C13": {"group": "proc", "note": "rubato's resampler is a stand-in with its contract (argument checks, chunk sizes, any output length); internal buffer reduced to 4 samples", "entries": [
        E("h_res1", "mono, 0-9 frames, every source rate, every split into 3 calls", RD), E("h_res1f", "likewise, finished or not between", RD), E("h_res2", "stereo, 0-9 frames, split into 2 calls", RD), E("h_resc", "0-10 frames, every combination of output lengths 0-6 of three blocks", RD), E("h_bypass", "streams at the target rate after any other stream", RD)]},
    "C14": {"group": "dsp", "note": REAL + "; the transform itself is a stand-in (identity): what is checked is everything around it", "entries": [
        E("h_fft4", "frame 4, overlap 1, 0-11 samples, every split into 3 calls", RA), E("h_fft4o", "frame 4, overlap 3, 0-8 samples, likewise", RA), E("h_fft5", "frame 5, overlap 2, 0-11 samples, likewise", RA),
        E("h_fft6", "frame 6, no overlap, 0-13 samples, likewise", RA), E("h_fft8", "frame 8, overlap 5, 0-16 samples, every split into 2 calls", RA), E("h_fft12", "frame 12, overlap 8, 0-30 samples, likewise", RA),
        E("h_fft4096", "frame 4096, overlap 2731, 5468 samples in calls of 1000", RA), E("h_fft2048", "frame 2048, overlap 1366, 3412 samples in calls of 999", RA)]},
    "C15": {"group": "dsp", "note": INT, "entries": [
        E("h_chroma", "28-3520 Hz, frame 4096, 11025 Hz, all 16-bit energies", RA), E("h_chroma5", "28-3520 Hz, frame 2048, 11025 Hz", RA), E("h_chroma256", "10-510 Hz, frame 256, 1000 Hz, 3 frames", RA),
        E("h_chroma128", "0-6000 Hz, frame 128, 8000 Hz, 2 frames", RA), E("h_chroma64", "440-2000 Hz, frame 64, 11025 Hz, 3 frames", RA),
        E("h_rchroma64", "440-4000 Hz, frame 64, real energies in [0,1]", RD), E("h_rchroma256", "28-3520 Hz, frame 256, real energies", RD)]},
    "C16": {"group": "dsp", "note": REAL, "entries": [
        E("h_inter64", "440-3520 Hz, frame 64, 11025 Hz, 3 frames of energies in [0,1]", RD), E("h_inter128", "28-3520 Hz, frame 128, 2 frames", RD), E("h_inter256", "10-510 Hz, frame 256, 1000 Hz", RA), E("h_inter4096", "28-3520 Hz, frame 4096, 11025 Hz", RA),
        E("h_flag", "six configurations with interpolation as given, switched on or switched off, 40 arbitrary samples", RA, 3, group="pipe"), E("h_flagc", "likewise, fixed samples", RA, group="pipe")]},
    "C17": {"group": "dsp", "note": INT, "entries": [E("h_filter%d" % n, "%d coefficients, 20 inputs, all 8-bit values and coefficients" % n, RA) for n in (1, 2, 3, 5, 7, 8)] + [
        E("h_filterl3", "3 fixed coefficients, 270 inputs, the last 12 with any 8-bit values", RA), E("h_filterl8", "8 fixed coefficients, likewise", RA)] + [
        E("h_rfilter%d" % n, "%d fixed coefficients, %d inputs with real values in [-1,1]" % (n, m), RD) for n, m in ((2, 10), (5, 13), (8, 17))]},
    "C18": {"group": "dsp", "note": INT, "entries": [E("h_norm1", "one vector of 9-bit multiples of 1/256", RD, reach=[608, 609]), E("h_norm3", "three vectors of 5-bit multiples of 1/1024", RD, reach=[608, 609]), E("h_normbig", "two vectors of 12-bit integers", RD, 2, reach=[608, 609])]},
    "C19": {"group": "image", "note": INT, "entries": [
        E("h_rect1", "1 row kept, 2 columns, 1-6 rows, every rectangle", RA), E("h_rect2", "2 rows kept, 2 columns, 1-8 rows", RA), E("h_rect3", "3 rows kept, 3 columns, 1-10 rows", RA), E("h_rect4", "4 rows kept, 2 columns, 1-14 rows, also after a reset", RA), E("h_rect12", "4 rows kept, 12 columns, 1-7 rows", RA),
        E("h_rect255", "255 rows kept, 1 column, 530 rows", RA), E("h_rreal3", "3 rows kept, 12 rows of reals in [0,1]", RA), E("h_rreal5", "5 rows kept, 9 rows of reals", RA)]},
    "C20": {"group": "image", "note": INT, "entries": [E("h_app%d" % k, "filter %d, widths and heights 1-8, two positions each way, 8-bit cells" % k, RA) for k in range(6)] + [
        E("h_appw", "all filters, widths 9-16", RA), E("h_apph", "all filters, heights 9-12", RA)]},
    "C21": {"group": "image", "entries": [E("h_quant", "all ordered reals in [-100,100], values in [-200,200]", RD), E("h_quantx", "all ordered doubles including infinities, all values but NaN", X)]},
    "C22": {"group": "image", "note": INT, "entries": [
        E("h_mix", "4 classifiers of widths 1-3, 6 vectors of 3-bit integers", RA), E("h_sixteen", "16 classifiers of width 1", RA), E("h_mid", "2 classifiers of widths 4 and 3, 9 vectors", RA),
        E("h_long", "stream of 266 vectors, last 18 symbolic", RA), E("h_long2", "stream of 522 vectors, last 18 symbolic", RA), E("h_wide", "filter of width 255, 280 vectors", RA)]},
    "C23": {"group": "pipe", "note": PIPE, "entries": [E("h_ids", "all presets", RA)] + [
        E("h_levels%d" % k, "preset %d: each of the 16 classifiers, every region alone with every value in 0-1000; every result must be possible" % k, RN, reach=list(range(1100, 1164))) for k in range(1, 6)] + [
        E("h_steps%d" % k, "preset %d: every result of each of the 16 classifiers has its interval of values" % k, RN) for k in range(1, 6)] + [
        E("h_stream%d" % k, "preset %d, %d feature vectors, the last 19 with two real components in [0,1]" % (k, n), RA) for k, n in ((1, 275), (2, 531), (3, 275))] + [
        E("h_streamr", "preset 2, 262 feature vectors, likewise with one", RA)]},
    "C24": {"group": "smooth", "note": REAL, "entries": [
        E("h_box1", "width 1, 1-4 elements", R), E("h_box3", "width 3, 1-9 elements", R), E("h_box5", "width 5, 1-10 elements", R), E("h_box7", "width 7, 1-11 elements", R), E("h_box15", "width 15, 1-19 elements", R),
        E("h_gauss3", "sigma 1.6, 3 passes, 1-7 elements", R), E("h_gauss57", "sigma 3.6, 4 passes, 1-9 elements", R), E("h_gauss15", "sigma 8, 3 passes, 1-6 elements", R), E("h_gauss15l", "sigma 8, 3 passes, 17-19 elements", R, 3), E("h_const", "constant data, sigma 8, 0-20 elements", R, 2), E("h_gauss300", "sigma 8, 3 passes, 300 elements, 6 of them arbitrary", RA)]},
    "C25": {"group": "smooth", "note": REAL, "entries": [E("h_grad", "0-7 elements", R), E("h_grad300", "300 elements, 6 of them arbitrary", R)]},
    "C26": {"group": "pipe", "note": PIPE, "entries": [
        E("h_silence", "0-32 leading quiet samples, one of them with any value up to the threshold 50", RA), E("h_loud", "threshold 50, 48 samples loud from the start, two arbitrary loud ones, quiet passages later on", RA, 2),
        E("h_nosil", "five configurations without a threshold, 0-32 leading zeros, 24 arbitrary samples, 24 fixed ones", RA, 2), E("h_nosilc", "likewise, fixed samples, 1 to 3 channels", RA)]},
    "C27": {"group": "fpcalc", "note": CLI, "entries": [
        E("h_lim", "3 packets of 0-4 frames, limit 0-5 s of 2 frames", NM), E("h_chunk", "4 packets of 0-4 frames, one of them of another track, chunks of 1 or 2 s of 2 frames, limit 0-3 s", NM, 2), E("h_chunk1", "3 packets of 0-6 frames, chunks of 1-4 frames, items of 1 or 2 frames appearing at once or late", NM, 2),
        E("h_over", "4 packets of 0-4 frames, one of another track, overlapping chunks of 2 or 4 frames, delay 0-3, limit 0-3 s", NM, 5), E("h_over1", "3 packets of 0-6 frames, overlapping chunks of 1-3 frames, delay 0-4, items of 1 or 2 frames", NM, 6),
        E("h_stereo", "stereo, 3 packets of 0-3 frames, one of another track, all options", NM), E("h_three", "three channels, 2 packets of 0-4 frames, all options", NM), E("h_many", "6 packets of 0-2 frames, chunks of 1-4 frames, overlapping or not, limited or not", NM, 5),
        E("h_huge", "limits and chunk durations up to 2^64-1", NM), E("h_reset", "a stream that ends with a packet that needs a reset", NM)]},
    "C28": {"group": "fpcalc", "note": CLI, "entries": [E("h_alg%d" % n, "every text of %d bytes" % n, NM, reach=[2] if n in (0, ) else [2, 10, 11, 12, 13, 14]) for n in (0, 1, 2, 3, 4, 5)] + [E("h_algd", "no --algorithm given", NM)],
        "thorough": [E("h_alg%d" % n, "every text of %d bytes" % n, NM, reach=[2, 10, 11, 12, 13, 14]) for n in (6, 8)]},
    "C29": {"group": "disp", "entries": [
        E("h_hours", "every duration that rounds to 0-99 hours", NM), E("h_hoursn", "every duration that rounds to 100, 101, 999, 1000, 1193, 9999, 12345, 99999, 1234567, 10^7, 99999999 or 123456789012 hours", NM),
        E("h_round", "rounding of every value in [0, 9)", X + NM, 3), E("h_below", "every negative value and NaN", X + NM), E("h_large", "every value from 10^18 to infinity: shape only", X + NM)]},
    "C32": {"group": "compare", "note": "compare's own main program, with symphonia, anyhow and the library replaced by stand-ins (packets, items, segments and their times come from the harness); the standard library's formatting is the real one", "entries": [
        E("h_mono", "3 and 2 packets of 0-4 frames with arbitrary samples", NM, 3), E("h_rates", "mono and stereo files of different rates, 2 packets of 0-3 frames each, channels told by layout", NM), E("h_three", "three and two channels, 2 packets of 0-2 frames each", NM), E("h_layout", "stereo and mono told by layout", NM),
        E("h_tracks", "packets of another track in both files, 3 packets of 0-2 frames each", NM, 2), E("h_broken", "packets that cannot be decoded, likewise", NM, 2), E("h_reset", "streams that end with a packet that needs a reset, likewise", NM, 2), E("h_kinds", "2 packets of 0-1 frames in each file, each of any of the four kinds", NM, 2),
        E("h_none", "no segment", NM), E("h_one", "one segment with times and score out of tables of 6 and 5 values", NM, 2), E("h_rows", "three segments, one of them with times and score out of the tables", NM, 6)]},
    "C31": {"group": "fpcalc", "note": CLI, "entries": [
        E("h_num", "every unsigned number, --raw", NM), E("h_snum", "every number, --raw --signed", NM), E("h_count", "a result of 240 fixed items, every format, raw, signed or compressed", NM), E("h_ends", "three items, each one of five at the ends of the signed and unsigned ranges", NM), E("h_opt1", "3 one-digit items, every format, --signed and --ts or not", NM), E("h_opt2", "3 chunks of 1-2 one-digit items, likewise", NM), E("h_opt3", "3 overlapping chunks, likewise", NM),
        E("h_b641", "3 arbitrary items, compressed, every format, likewise", NM), E("h_b642", "3 chunks of 1-2 arbitrary items, likewise", NM), E("h_b643", "3 overlapping chunks of arbitrary items, likewise", NM), E("h_b644", "no item", NM)]},
    "C30": {"group": "pipe", "note": PIPE, "entries": [
        E("h_count%d" % k, t, RA, c) for k, t, c in ((1, "frame 16, overlap 8, 1 coefficient, rows of 1, 0-60 samples, one in 9 arbitrary", 2), (2, "2 coefficients, rows of 2, 0-80 samples", 1), (3, "overlap 5, 3 coefficients, rows of 2, 0-90 samples", 1), (4, "overlap 11, 5 coefficients, rows of 4, 0-80 samples", 1), (5, "frame 12, no overlap, rows of 3, 0-70 samples", 3), (6, "frame 20, overlap 19, 2 coefficients, rows of 6, 0-34 samples", 3), (7, "8 coefficients, 0-110 samples", 1))] + [
        E("h_first%d" % k, "preset %d as it is, one frame before its first item and exactly at it, one or two arbitrary samples" % k, RA) for k in range(1, 6)]},
}
NOT_APPLICABLE = {}
