"""The catalogue of properties; writes properties.jsonl and MANIFEST.json.
Run after editing:  python3 py/catalog.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "source/Types/"
SP = "source/Spiht/"
IO = "source/IOHaptics/"


def P(id, title, statement, over, qtext, why, files, mech):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}


PROPS = [
 P("B01", "A binary (HMPG) file gives back the experience that was written",
   "Writing any valid experience to a binary file and loading it, from the file or from memory, succeeds and yields the same experience: every perception, device, library effect, channel, band, effect and keyframe, in order, with identifiers, text, positions and frequencies exact and amplitudes and other real values within one quantisation step. Only what the format does not carry (timescale, priorities, semantics, synchronisation marks, identifiers of basis effects) may be missing. Saving and loading the result again changes nothing more.",
   ["inputs", "histories"], "every experience whose values fit the field widths of the format, through any number of save and load cycles",
   "The unit tests save one hand-written experience and compare a few fields; the format multiplies optional fields, band types, effect kinds and counts.",
   [IO + "src/IOBinary.cpp", IO + "src/IOBinaryBands.cpp", IO + "include/IOBinaryPrimitives.h"],
   [("writeFile / loadFile / loadMemory mirror each other field by field", IO + "src/IOBinary.cpp")]),
 P("B02", "Bit fields written back to back are read back in the same order",
   "Any sequence of bit fields (unsigned and signed integers of 1 to 32 bits, quantised real numbers, short strings, vectors) written one after the other occupies exactly the sum of the field widths, most significant bit first, and both readers (byte stream with carried-over bits, bit vector with an index) return the same values in the same order whatever the alignment. Quantised reals come back within half a step, with range ends exact and out-of-range values saturated; strings keep at most their first 255 bytes.",
   ["inputs", "histories"], "every sequence of fields, value and alignment",
   "Tests use few widths and byte-aligned fields; errors hide in the carried-over bits of particular alignments.",
   [IO + "include/IOBinaryPrimitives.h", IO + "src/IOBinaryPrimitives.cpp"],
   [("readNBits keeps unread bits of the last byte for the next field", IO + "include/IOBinaryPrimitives.h")]),
 P("B03", "The band codec reads exactly what it writes, for any timescale",
   "Encoding a band (transient, curve, vectorial or wavelet) as header and body and decoding it gives the same band with its effects in the same order, the decoder consuming exactly the bits that were produced; block lengths and wavelet block positions survive for every timescale.",
   ["inputs", "configurations"], "every band whose values fit the format, every timescale",
   "Tests encode a handful of bands at one timescale.",
   [IO + "src/IOBinaryBands.cpp"], [("writeBandHeader/Body against readBandHeader/Body", IO + "src/IOBinaryBands.cpp")]),
 P("B04", "A binary (HMPG) file has the byte layout of the format",
   "The bytes of a saved binary file are the fields of the format in their order, each with its width, code and quantisation, texts as their length and bytes, with optional fields announced by their masks and counts before their elements, the bands after all headers, and nothing behind the last band but zero bits up to a whole byte. So a reader made from the format alone, without this library, finds in the file the experience that was written, and files remain exchangeable with other versions and implementations.",
   ["inputs"], "every experience whose values fit the field widths of the format",
   "Tests write and read with the same code, so a change made to both sides alike, which makes every existing file unreadable, passes them.",
   [IO + "src/IOBinary.cpp", IO + "src/IOBinaryBands.cpp", IO + "include/IOBinaryFields.h"],
   [("writeFileHeader / writeFileBody", IO + "src/IOBinary.cpp"), ("field widths", IO + "include/IOBinaryFields.h")]),

 P("M01", "Timelines stay ordered under any sequence of edits",
   "Whatever sequence of insertions is made, the effects of a band stay sorted by start position, with effects of equal start in the order of insertion, and the keyframes of an effect that carry a position stay sorted by it. Adding an amplitude and a frequency at one position yields one keyframe holding both; setting again a value that is already there replaces it, or keeps both when the caller asks not to override.",
   ["histories"], "every sequence of effect and keyframe insertions and removals, any positions including equal ones",
   "Tests insert a few effects in one order; the outcome depends on every earlier insertion.",
   [T + "src/Band.cpp", T + "src/Effect.cpp"],
   [("addEffect inserts before the first later effect", T + "src/Band.cpp"), ("addAmplitudeAt / addFrequencyAt", T + "src/Effect.cpp")]),
 P("M02", "findBandAvailable only returns a band where the effect fits",
   "Asking a channel for a band for a given start, duration and type returns a band of that type in which no effect occupies any part of the requested interval, if there is one (and the earliest such band), and nothing otherwise; overlap tests on bands and effects agree with the interval actually occupied, whatever the order of effects and keyframes. So an encoder that places every effect this way never produces two effects that play at once in one band.",
   ["inputs", "histories"], "every channel, interval and band type, any history of placements",
   "Boundary cases (touching intervals, effects without keyframes, equal starts) are combinatorial.",
   [T + "src/Channel.cpp", T + "src/Band.cpp"],
   [("findBandAvailable", T + "src/Channel.cpp"), ("isOverlapping", T + "src/Band.cpp"), ("getEffectTimeLength", T + "src/Effect.cpp")]),
 P("M03", "Refactoring and linearising change the form, never the content",
   "Refactoring an experience (moving repeated effects into the effect library) and linearising it (putting library effects back) leave what is rendered unchanged: resolving references before and after gives the same effects at the same positions. After refactoring every reference has its library entry, library identifiers are unique and repeated basis effects are shared; after linearising no resolvable reference is left and the library is empty; refactoring then linearising gives back the original experience.",
   ["inputs", "histories"], "every experience, with or without an existing library, composites and wavelet bands",
   "Tests refactor one experience; collisions of identifiers, semantics and nested references need unusual inputs.",
   [T + "src/Haptics.cpp", T + "src/Perception.cpp", T + "src/Effect.cpp"],
   [("refactor", T + "src/Haptics.cpp"), ("linearize / linearizeLibrary", T + "src/Perception.cpp"), ("isEquivalent", T + "src/Effect.cpp")]),
 P("M04", "An edit changes its target only, and an edit out of range changes nothing",
   "Each editing call on the tree (add, replace, replace metadata, remove, generate, look up, at the levels experience, perception, channel, band, effect, keyframe, vertex, library, timeline) changes exactly the element it names; replacing metadata takes every metadata field and keeps the children. An index out of range leaves the experience unchanged and reports failure.",
   ["histories", "inputs"], "every sequence of editing calls, any index",
   "Tests check each call on one object and compare a few fields.",
   [T + "src/Haptics.cpp", T + "src/Perception.cpp", T + "src/Channel.cpp", T + "src/Band.cpp", T + "src/Effect.cpp"],
   [("replace*At, remove*At, replace*MetadataAt", T + "src/")]),

 P("S01", "A stream (MIHS) gives back the experience that was sent",
   "Cutting any valid experience into units of any duration and reading all units, in memory or through a file, yields the same experience: metadata, devices, library, bands, priorities, semantics, and every effect with its position, identifier and keyframes, however many units its keyframes were spread over. Composites arrive as their parts at their absolute times; components without content are left out.",
   ["inputs", "configurations"], "every experience within the field widths of the format, every unit duration",
   "Tests stream one experience with one duration; defects depend on how keyframes, references, blocks and silences fall into units.",
   [IO + "src/IOStream.cpp"], [("writeUnits / readMIHSUnit", IO + "src/IOStream.cpp"), ("addEffectToHaptic merges fragments", IO + "src/IOStream.cpp")]),
 P("S02", "The units of a stream tile the timeline and hold what starts in them",
   "The units of a stream follow each other without gap or overlap: each temporal unit covers one time range of the unit duration, silences are covered by empty units, and the packets of a unit hold exactly the effects and keyframes of its time range, with positions relative to its start. A packet is marked dependent if and only if it continues an effect begun earlier; a unit is a synchronisation point if and only if all its packets are independent. Initialization is repeated once at the first unit boundary after each synchronisation mark.",
   ["inputs", "configurations", "schedules"], "every experience, unit duration and set of synchronisation marks",
   "Boundary cases (positions on unit borders, silences of several units, several marks in one unit) are combinatorial.",
   [IO + "src/IOStream.cpp"], [("writeAllBands, sortPacket, writeMIHSUnitTemporal, writeMIHSUnitSilent, silentUnitSyncFlag", IO + "src/IOStream.cpp")]),
 P("S03", "Units and packets are framed by their lengths, and cut files are refused",
   "Every unit and packet is a whole number of bytes and announces exactly its length, so a file is the concatenation of its units and can be split again by lengths alone. A file that ends inside a unit is refused by loading and by reading; a file that ends on a unit boundary loads with exactly those units.",
   ["inputs", "crash_points"], "every experience and unit duration, units above 64 KiB included, files cut at any byte",
   "Tests never cut a file and only use small units.",
   [IO + "src/IOStream.cpp"], [("loadFile", IO + "src/IOStream.cpp"), ("readMIHSUnit packet loop", IO + "src/IOStream.cpp")]),
 P("S04", "A receiver that joins late or loses units decodes only what it can trust",
   "A receiver that waits for synchronisation skips dependent packets until an independent packet or a synchronisation unit arrives, then decodes everything. Whatever units are lost, its clock follows the durations of the units it received, is corrected by the next initialization, and every effect it decodes is placed at its clock; packets for components it does not know are refused. The units the sender produces carry the flags that make this possible.",
   ["schedules", "fault_sequences"], "every order of joining and losing units",
   "Tests deliver every unit in order.",
   [IO + "src/IOStream.cpp"], [("readMIHSUnit waitSync", IO + "src/IOStream.cpp"), ("readData", IO + "src/IOStream.cpp")]),
 P("S05", "Receiving an initialization again changes nothing but the clock",
   "An initialization unit that is received again, any number of times and at any point of the stream, leaves metadata, components and decoded effects as they were, sets the clock to its timestamp and records it as a synchronisation point.",
   ["histories", "schedules"], "every experience and any repetition of initialization units",
   "Tests read one initialization; duplication shows only with particular optional components.",
   [IO + "src/IOStream.cpp"], [("readMetadata* replace what is known by id", IO + "src/IOStream.cpp")]),
 P("S06", "CRC packets detect changed units, and intact units pass",
   "A CRC packet holds the 16- or 32-bit remainder of the protected units for the generator polynomials of the format, and a global one the number of units. The reader accepts if and only if the remainder of the units as received equals the value; intact units always pass, and after a mismatch the reader waits for synchronisation. Each CRC is checked once.",
   ["inputs", "fault_sequences"], "any units, any bit errors in the units or in the CRC packet",
   "Tests check one value; bit errors and unit counts are combinatorial.",
   [IO + "src/IOStream.cpp"], [("writeCRC, readCRC, checkCRC, computeCRC", IO + "src/IOStream.cpp")]),

 P("S07", "Damaged packets, units and files are refused without a trace",
   "Whatever bytes arrive as a stream file, a unit or a packet, the receiver ends normally: it decodes them or refuses them, and never reads beyond them. A packet that ends before all it announces is there, a packet of a type that does not exist and a unit that is cut are refused; what was received before stays as it was, the clock included, and the intact units that follow are decoded as if the damaged one had never come.",
   ["inputs", "fault_sequences"], "every packet and unit cut at any byte, with its announced length adapted or not, at any point of the reception, waiting for synchronisation or not; any damaged file",
   "Tests only deliver what the writer produced.",
   [IO + "src/IOStream.cpp", IO + "include/IOBinaryPrimitives.h"], [("readMIHSUnit / readMIHSPacket", IO + "src/IOStream.cpp"), ("readUInt / readString / readFloatNBits", IO + "include/IOBinaryPrimitives.h")]),
 P("S08", "The metadata packets of a stream have the byte layout of the format",
   "The packets of an initialization unit (timing, experience, perceptions, libraries, channels, bands) are the fields of the format in their order, each with its width, code and quantisation, with optional fields announced by their flags and masks, and end with their last field, padded with zero bits to a whole byte. They announce the number of perceptions, library effects, channels and bands that follow, and number the bands of the stream from 0. So a receiver made from the format alone, without this library, learns the metadata of the experience from them.",
   ["inputs"], "every experience within the field widths of the format, first and repeated initialization units",
   "Tests write and read with the same code, so a change made to both sides alike passes them, and announced counts that the reader skips are never looked at.",
   [IO + "src/IOStream.cpp", IO + "include/IOBinaryFields.h"],
   [("writeMetadataHaptics / Perception / Channel / Band, writeLibrary, writeReferenceDevice", IO + "src/IOStream.cpp"), ("field widths", IO + "include/IOBinaryFields.h")]),

 P("J01", "A JSON (HJIF) file says exactly what the experience holds and loads back",
   "Saving any experience as HJIF writes a file that says exactly what the experience holds: every metadata field, device, library effect, perception, channel, band, effect and keyframe, present if and only if it is set, under the names of the format, with strings escaped and real numbers exact; wavelet streams are written in base64 and come back up to zero bytes at their end. A conformant experience loads again from that file, is the same experience, and saving it again writes the same bytes; an experience that is not conformant is refused by the loader. A version or date the format does not know is replaced by a valid one.",
   ["inputs", "histories"], "every experience, any strings and numbers, any combination of optional members, any number of save and load cycles",
   "Tests save one experience; the format multiplies optional members, name tables, and band, effect and device types.",
   [IO + "src/IOJson.cpp", "source/Tools/src/Tools.cpp"],
   [("loadPerceptions..loadKeyframe mirror extractPerceptions..extractKeyframe", IO + "src/IOJson.cpp"), ("compliance check of loaded files", IO + "src/IOJson.cpp")]),
 P("J02", "Only conformant HJIF files are accepted, and damaged ones never crash it",
   "The HJIF loader accepts a file if and only if what it says satisfies the rules of its version, profile and level and all references. An element with a mandatory member missing, of the wrong type or out of range is left out while its siblings are kept; an optional member that is wrong is ignored; a top-level member that is wrong refuses the file. Any text whatsoever (truncated, mutated, arbitrary types in any place, huge or negative numbers) ends normally, and whatever is accepted is conformant and can be saved and loaded again.",
   ["inputs", "fault_sequences"], "every text, every rule broken alone or in combination, every member removed or replaced by a value of any type",
   "Tests load well-formed files; the ways in which a file can be wrong are unbounded.",
   [IO + "src/IOJson.cpp"],
   [("loadFile and its load* helpers", IO + "src/IOJson.cpp"), ("checkHaptics / conformance helpers", IO + "include/IOJson.h")]),

 P("W01", "The arithmetic coder is lossless for every stream of symbols",
   "Coding any sequence of binary symbols, each in any of the seven contexts, and decoding the bits with the same contexts gives the symbols back, for streams of any length and statistics, one after the other through the same coder with or without a reset; bits are packed into whole bytes padded with zeros. The bits are exactly those of the adaptive model of the format, so any conformant decoder reads them.",
   ["inputs", "histories"], "every sequence of symbols and contexts, every state of the adaptive models",
   "Tests code one short stream; carries, underflow and the limits of the adaptive counters need particular sequences.",
   [SP + "src/ArithEnc.cpp", SP + "src/ArithDec.cpp"],
   [("encode / decode with pending bits and model rescaling", SP + "src/")]),
 P("W02", "A wavelet block decodes to the coefficients that were coded",
   "Coding a block of integer coefficients that fit the announced number of bits, with its scale, and decoding the bytes gives the same coefficients, number of bits and scale (scales of one and more in steps of an eighth); a block without any significant coefficient codes to nothing and decodes to zeros. The bytes are exactly those of the set partitioning of the format. Any bytes whatsoever decode to a block of the right length with coefficients within the announced bits, and exactly as the format says.",
   ["inputs", "fault_sequences"], "every block of any power of two length, every number of bits and scale, and every byte string",
   "Tests decode one block; the partitioning has a case for every tree shape and bit plane.",
   [SP + "src/Spiht_Enc.cpp", SP + "src/Spiht_Dec.cpp"],
   [("encode / refinement passes", SP + "src/Spiht_Enc.cpp"), ("decode / initPixels / refinement", SP + "src/Spiht_Dec.cpp")]),
 P("W03", "Wavelet bands rebuild the signal they were made from",
   "The wavelet transform is inverted exactly. A signal encoded as a wavelet band becomes one block for each block length of samples, the last one padded with silence, placed back to back in ticks of the experience's timescale; with the full bit budget the decoded blocks are the signal up to the resolution of the code. Decoding a band gives every block its samples (coefficients times scale, transformed back) at its own position, keeps the number and positions of the effects, and the decoded signal places each block at its time; the same samples come out of a file.",
   ["inputs", "configurations"], "every signal, block length, sampling rate, timescale and bit budget; every set of coded blocks",
   "Tests check one sine; boundary extension, scaling, positions and rates that differ from a thousand per second are not covered.",
   ["source/FilterBank/src/Wavelet.cpp", "source/WaveletDecoder/src/WaveletDecoder.cpp", "source/Encoder/src/WaveletEncoder.cpp"],
   [("DWT / inv_DWT", "source/FilterBank/src/Wavelet.cpp"), ("transformBand / decodeBand", "source/WaveletDecoder/src/WaveletDecoder.cpp"),
    ("encodeSignal / encodeBlock", "source/Encoder/src/WaveletEncoder.cpp")]),
 P("T01", "OHM metadata files survive writing, reading and the way into an experience",
   "Writing OHM metadata and reading it gives the same metadata, texts cut to the width of their fields; the bytes are those of the format. Reading into metadata that already holds something replaces it. A file that ends too early is refused, and whatever is accepted is what its bytes say. The experience made from the metadata has one perception per element, with the modality the element names, and one channel per channel with its gain and body parts, and the metadata extracted from that experience is what was put in.",
   ["inputs", "fault_sequences"], "every metadata object, every body part mask, file cut at any byte, arbitrary bytes",
   "Tests load one file; widths, masks with the top bit and truncation need unusual inputs.",
   ["source/Tools/src/OHMData.cpp", T + "src/Haptics.cpp"],
   [("readFile / writeFile", "source/Tools/src/OHMData.cpp"), ("loadMetadataFromOHM / extractMetadataToOHM", T + "src/Haptics.cpp")]),
 P("T02", "File operations report the truth and touch only their target",
   "Through any sequence of saving, loading, damaging and converting, every operation on HJIF, HMPG, MIHS and OHM files and every run of the Decoder reports success exactly if it did what was asked. Saving to a path that can be written replaces what was there, and what is loaded from it is what was saved. Paths that do not exist, directories, full devices, empty files, files of other formats and cut files are reported as failures, and always in bounded time. The Decoder takes its options in any order, in short and long form, writes the readable form of the stream it was given and nothing else. No operation changes any file it was not asked to write, and one that fails before writing leaves the target as it was.",
   ["histories", "fault_sequences"], "every sequence of operations and command lines over present, absent, damaged, foreign and unwritable files",
   "Tests save and load once, on paths that work; failures of the environment and leftovers of earlier files need histories.",
   [IO + "src/IOJson.cpp", IO + "src/IOBinary.cpp", IO + "src/IOStream.cpp", "source/Tools/src/OHMData.cpp", "source/Tools/src/InputParser.cpp", "source/Decoder/src/main.cpp"],
   [("writeFile / loadFile / readFile", IO + "src/IOStream.cpp"), ("command line", "source/Tools/src/InputParser.cpp"), ("main", "source/Decoder/src/main.cpp")]),
 P("E01", "Rendering a band or channel gives the value the experience describes",
   "At any time, in any timescale, a band renders the last effect that has begun: a curve goes through its keyframes (linear or smoothed), a vectorial effect is its waveform at the interpolated amplitude with a phase that runs on continuously through every change of frequency, a transient is two periods of a sine over 22 milliseconds from its keyframe, and a wavelet effect plays its samples at its rate. Before the first effect and after the last one ends there is silence. A channel is the sum of its bands kept between -1 and 1. Sampling at any rate, with any padding, gives the same values at the sampled times, with curves of every type (linear, cubic, Akima, Bezier, B-spline) drawn through or towards their keyframes up to the last one. Rendering always ends, whatever is missing in the effects.",
   ["inputs", "configurations"], "every channel, effect, keyframe layout, timescale, sampling rate and padding, at every time",
   "Tests evaluate a few effects at a timescale of a thousand; phase continuity, timescales, coincident or missing keyframes and padding need unusual inputs.",
   [T + "src/Band.cpp", T + "src/Effect.cpp", T + "src/Channel.cpp", "source/Tools/src/Tools.cpp"],
   [("Evaluate / EvaluationBand", T + "src/Band.cpp"), ("EvaluateVectorial / EvaluateKeyframes / EvaluateTransient / EvaluateWavelet", T + "src/Effect.cpp"),
    ("the interpolations", "source/Tools/src/Tools.cpp")]),
 P("A01", "Importing an AHAP pattern gives the events at their times, modulated",
   "Importing an AHAP file gives one channel in which every transient event is a keyframe of a transient band at its time and every continuous event is an effect of its own at its time with its duration, in vectorial bands in which no two effects overlap, whatever the order in which the file lists them. Intensity is scaled to 0.792 (transients) or 0.6138 (continuous) and sharpness to 65 to 300 Hz, with 0.5 and 90 Hz when not given. While the intensity curve lasts it multiplies, at the beginning and the end of an event and at each of its points inside; the sharpness curve is added in the same way and the sum kept in range; before its first and after its last point a continuous event is not modulated. A file that is no AHAP pattern, or whose events or curves lack a mandatory member, is refused, as is a perception with more than one channel; no file whatsoever ends the import abnormally.",
   ["inputs", "fault_sequences"], "every pattern of events and curves in any order, every timescale, every member removed or replaced by a value of any type",
   "Tests call the helpers with one event inside one curve; events before, after and across the ends of curves, unordered files and malformed members are not covered.",
   ["source/Encoder/src/AhapEncoder.cpp"],
   [("extractTransients / extractContinuous", "source/Encoder/src/AhapEncoder.cpp"), ("modulateContinuousOnAmplitude / OnFrequency", "source/Encoder/src/AhapEncoder.cpp"),
    ("encode", "source/Encoder/src/AhapEncoder.cpp")]),
 P("I01", "Importing an IVS file plays what the timeline launches, repeats included",
   "Importing an IVS file gives one channel for each timeline, named after it and with an identifier of its own, in which every launched effect is played at its time, and again for each repetition of the repeat events around it, nested ones included, with everything later moved back by what the repetitions add; the order in which the file lists events does not matter. An effect has the waveform, frequency, duration and magnitude of its basis effect or of the launch event that overrides them, with attack and fade; launches of unknown effects or of types without a waveform play nothing. No two effects of a band overlap. A file that is no XML is refused, and no file whatsoever ends the import abnormally.",
   ["inputs", "histories"], "every timeline with disjoint or nested repeat events, in any order, every effect and override, every timescale",
   "Tests read single attributes and convert single effects; no test imports a file, let alone one with repeat events.",
   ["source/Encoder/src/IvsEncoder.cpp", "source/Encoder/include/IvsEncoder.h"],
   [("tree of repeat events and linearize", "source/Encoder/include/IvsEncoder.h"), ("convertToEffect / injectIntoBands", "source/Encoder/src/IvsEncoder.cpp")]),

 P("Y01", "The synthesizer plays the whole experience, one track for each channel",
   "Synthesizing an experience, from a readable file or from a stream, in any timescale or with none given, writes a WAV file of 16 bit samples at the frequency asked for, with one track for each channel of each perception in their order. Each track holds the samples of its channel with its gain and the unit exponent of its perception, library effects included, saturated at full scale. It lasts as long as the longest channel (the declared number of samples, or up to the end of the last effect of its bands, last wavelet block included), with the padding in milliseconds before and after. The OHM file is written exactly if asked for. A file that cannot be read or written, or that holds no channel, is reported as failure.",
   ["inputs", "configurations"], "every experience, sampling frequency, padding, timescale and order of the options",
   "The tests do not run the program; what it plays depends on the interplay of loading, linearising, decoding, rendering and scaling.",
   ["source/Synthesizer/src/Helper.cpp", "source/Synthesizer/src/main.cpp", "source/Tools/src/WavParser.cpp", "source/Types/src/Channel.cpp"],
   [("Helper::playFile and getTimeLength", "source/Synthesizer/src/Helper.cpp"), ("WavParser::saveFile", "source/Tools/src/WavParser.cpp")]),
 P("T03", "The encoder turns every input into the format asked for, as its options say",
   "The Encoder takes its options in any order, in short and long form, recognises its input (AHAP, IVS, WAV, HJIF, or an OHM file naming other files) by its name, and writes exactly one file: the input imported in the timescale and with the wavelet settings given, refactored if asked for, then linearised if asked for, as HJIF or as a stream cut into units of the duration given. It reports success exactly if it did so; input that is not there, of no known kind or unusable is a failure. The same input and options always give the same file, whatever was encoded before.",
   ["inputs", "configurations", "histories"], "every combination of options in any order and form, every kind of input, every sequence of encodings in one process",
   "The tests do not run the program.",
   ["source/Encoder/src/main.cpp", "source/Tools/src/InputParser.cpp", "source/Encoder/src/PcmEncoder.cpp", "source/PsychohapticModel/src/PsychohapticModel.cpp"],
   [("command line to calls", "source/Encoder/src/main.cpp"), ("InputParser", "source/Tools/src/InputParser.cpp")]),
 P("P01", "A recording is imported whole: every turn, every block, every track",
   "Importing a WAV recording of 16 bit samples adds to each channel (created where missing) its rate, its number of samples and the bands the settings ask for. Without a wavelet band the curve has a point at the first and last sample and at each sample where the direction changes, at its time rounded to the timescale (of points in one tick the last one stays), with the interpolation of the modality; with a wavelet band there is a block for every block length of samples, one after the other without a gap, the last one filled up. Curve and wavelet band together with all the bits play the recording again, whatever the cutoff between them. A file that is no recording, or that has fewer tracks than the perception has channels, is refused. No recording, however short or long, makes it fail.",
   ["inputs", "configurations"], "every recording, number of tracks, rate, timescale, block length, bit budget, cutoff and modality",
   "The tests do not import recordings; extrema, rounding and the filling of the last block depend on every sample.",
   ["source/Encoder/src/PcmEncoder.cpp", "source/Encoder/src/WaveletEncoder.cpp", "source/Tools/src/WavParser.cpp", "source/FilterBank/src/Filterbank.cpp", "source/PsychohapticModel/src/PsychohapticModel.cpp"],
   [("PcmEncoder::encode, localExtrema, convertToCurveBand", "source/Encoder/src/PcmEncoder.cpp"), ("WaveletEncoder::encodeSignal", "source/Encoder/src/WaveletEncoder.cpp")]),
]
CLAIMED = {  # id: (technique, level_note)
 "B01": ("TLA+ specification of the file channel (Binary.tla); TLC enumerates authored experiences (Author.tla) that are replayed into the real writer and loader, and judges every recorded round trip",
         "Exhaustive over the small authoring model, sampled (seeded) beyond it; trusts the harness projection of experiences to integers."),
 "B02": ("TLA+ specification of bit fields with a writer/reader offset as state (Bits.tla); TLC validates recorded field sequences of the real code",
         "All widths at all alignments for boundary values, every 8-bit code, seeded random sequences."),
 "B03": ("TLA+ specification of band size and content (Binary.tla, TraceBand.tla); TLC validates recorded encodings of the real codec",
         "Seeded sampling over band types, counts above 256 and timescales."),

 "M01": ("TLA+ state machine of the data model (Edit.tla); TLC explores it exhaustively over small histories (EditMC.tla, invariants AlwaysSorted and Fifo) and every explored transition, plus seeded longer histories, is replayed into the real code and judged by TLC",
         "Exhaustive for the small configuration, sampled for long histories."),
 "M02": ("TLA+ specification of band occupation (Edit.tla); TLC judges real placement histories and lookups",
         "Exhaustive over small grids of intervals, sampled beyond."),
 "M03": ("TLA+ specification of reference resolution (Edit.tla Content, RefactorDiff); TLC judges the real refactorings and linearisations",
         "TLC-enumerated experiences (Author.tla) and seeded larger ones."),
 "M04": ("TLA+ state machine of the editing calls (Edit.tla); TLC enumerates transitions (EditMC.tla) replayed into the real code, and judges recorded histories call by call",
         "Exhaustive for the small configuration, sampled beyond."),
 "S01": ("TLA+ specification of sender and receiver (Stream.tla, StreamDiff); TLC enumerates authored experiences (Author.tla) that are replayed through the real sender, file and receiver, and judges every round trip",
         "Exhaustive over a slice of the authoring model (several unit durations and synchronisation marks), seeded sampling beyond it, including units above 64 KiB."),
 "S02": ("TLA+ specification of the sender as a sequence of units (Stream.tla Stream, SenderDiff), its tiling and completeness proved by TLC on small experiences (StreamMC.tla), and every recorded real stream parsed on the wire and compared by TLC",
         "Exhaustive over a slice of the authoring model, sampled beyond."),
 "S03": ("TLA+ specification of the wire framing (Stream.tla ParseUnit, FramingDiff); TLC judges recorded real units, files and cut files",
         "Sampled cut points and experiences."),
 "S04": ("TLA+ receiver state machine composed with a lossy channel (StreamMC.tla: Deliver, Lose, Repeat; invariants TrueTimes, NoBlindDecoding, Once); TLC's schedules are replayed into the real receiver and each step is validated against the specification",
         "All loss schedules of small streams within the loss bound, seeded random schedules over larger ones."),
 "S05": ("TLA+ receiver state machine (Stream.tla ReadUnit) with repeated delivery; TLC validates recorded runs of the real receiver step by step",
         "Repetitions at every initialization of seeded and hand-shaped streams."),
 "S06": ("TLA+ specification of the cyclic redundancy check (Crc.tla); TLC recomputes every recorded check value and judges acceptance",
         "Seeded experiences, counts of protected units and bit errors; files end to end."),

 "B04": ("TLA+ reader of the file format, written from its fields (Layout.tla File); TLC reads the bytes of files the real code wrote and compares the experience it finds with the one that was written",
         "Every small experience of the authoring machine plus seeded sampling; values in the quantisation of the format."),
 "S08": ("TLA+ reader of the metadata packets, written from their fields (Layout.tla InitDiff); TLC reads the initialization units the real code wrote and compares the metadata and counts it finds with the experience",
         "Experiences of the authoring machine plus seeded sampling; the nominal duration and its deviation, which nothing uses, are only required to be there."),
 "S07": ("TLA+ specification of the receiver with damaged deliveries (Stream.tla: refused, nothing changes); TLC judges recorded receptions in which packets and units are cut or of unknown type, followed by the intact ones",
         "Seeded experiences and damage; what a damaged file decodes to when it is accepted is not specified, only that the receiver ends normally."),
 "J01": ("TLA+ specification of the HJIF channel (Hjif.tla); TLC enumerates authored experiences (Author.tla) that are replayed through the real saver and loader, and judges the file (parsed by an independent reader) and what came back",
         "Exhaustive over a slice of the authoring model, seeded sampling of conformant, unsafe and spoilt experiences beyond it; trusts the independent JSON reader of the harness driver."),
 "J02": ("TLA+ specification of the acceptance rules and of what a damaged member leaves (Hjif.tla Rules, Damage); TLC judges every recorded load of the real code",
         "Every rule broken alone and in pairs, every member of seeded files removed or replaced, seeded arbitrary texts."),

 "W01": ("TLA+ state machine of the coder and its models (Arith.tla), losslessness proved by TLC for every short stream from chosen model states (SpihtMC.tla); recorded bits and symbols of the real coder compared by TLC",
         "Exhaustive for streams up to 6 to 8 symbols in the specification and up to 8 to 12 in one context in the code, sampled streams of up to 4000 symbols."),
 "W02": ("TLA+ specification of set partitioning (Spiht.tla); TLC enumerates blocks (SpihtMC.tla), proves decoding inverts coding on them, and they are replayed through the real codec; recorded bytes and coefficients judged by TLC",
         "Exhaustive over sparse small blocks, sampled blocks up to 1024 coefficients and arbitrary bytes."),
 "W03": ("TLA+ specification of the transform in fixed point, of block scaling and placement (Wavelet.tla); TLC recomputes the samples of recorded blocks and judges recorded encodings",
         "Every unit block of small sizes, sampled beyond it; numbers compared within the rounding of the fixed-point arithmetic (about 0.3 percent of full scale), so an error below that is not seen."),
 "T01": ("TLA+ specification of the file bytes and of the mapping to an experience (Ohm.tla); TLC judges recorded writes, loads, cut and damaged files",
         "Every known element word and every body part bit, sampled metadata and damage."),
 "T02": ("TLA+ specification of files, operations and command lines (Files.tla); TLC checks the design on all states (FilesMC), its transitions are replayed into the real code and the real Decoder, and TLC judges recorded random histories",
         "Every operation from every small state of the files (sampled in quick), seeded histories of 5 to 15 operations; contents compared by digest."),
 "E01": ("TLA+ specification of rendering in fixed point (Render.tla: phase accumulation modulo the timescale, the interpolations, summation); TLC recomputes every recorded value and sample of the real code",
         "Seeded sampling over band types, keyframe layouts, timescales, rates and padding; compared within 0.0025 of full scale; pointwise values of Akima, Bezier and B-spline curves are outside the domain (the code defines them only when sampling)."),
 "A01": ("TLA+ specification of AHAP modulation (Ahap.tla); TLC enumerates every small curve with every event around it (AhapMC.tla), each of which is replayed through the real importer, and judges recorded imports of seeded patterns",
         "Exhaustive for curves of up to 3 points on a small grid, seeded sampling beyond it; amplitudes within 0.0005, frequencies within 1 Hz; the frequency of transients under a sharpness curve is unspecified; malformed types anywhere are only required to end normally."),
 "I01": ("TLA+ specification of IVS timelines (Ivs.tla), its closed form proved equal to a step-by-step player by TLC for every nesting of repeat events (IvsMC.tla), each of which is replayed through the real importer; TLC judges recorded imports of seeded files",
         "Exhaustive for up to 3 repeat events on a timeline of 3 (thorough: 4) steps, seeded sampling beyond it; malformed files are only required to end normally."),
 "Y01": ("TLA+ specification of the synthesizer (Tools.tla on top of Render.tla and Edit.tla: references resolved, channels rendered, scaled, saturated, padded); TLC recomputes every sample of recorded WAV files of the real program and of the library behind it",
         "Seeded sampling; samples compared within 0.003 of full scale times the gain; the samples of wavelet blocks are taken from the decoder (W03 decides those)."),
 "T03": ("TLA+ specification of the command line (Tools.tla Asked, Serves, OutName); TLC judges recorded runs of the real Encoder against the outcome of the library calls the specification asks for",
         "Seeded command lines and inputs; contents compared by digest with the date of writing left out; what importing, refactoring, linearising and writing do is decided by A01, I01, M03, J01 and S01."),
 "P01": ("TLA+ specification of the import of a recording (Pcm.tla: turns of the signal, rounding, bands, blocks); TLC judges recorded imports of seeded recordings and of every short one, and what they play",
         "Every recording of 4 samples of 3 values, seeded sampling beyond it; samples played are compared within 0.0012 of full scale, and only with the full bit budget; the curve under a cutoff frequency is unspecified (the filter used here is a stand-in)."),
}
NOT_APPLICABLE = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                     "thorough_cmd": "./check.sh %s thorough" % p["id"], "technique": CLAIMED[p["id"]][0],
                     "level": "model_checking", "level_note": CLAIMED[p["id"]][1]} for p in PROPS if p["id"] in CLAIMED],
         "not_applicable": [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check under construction")}
                            for p in PROPS if p["id"] not in CLAIMED]}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
