HOOKS = ["74c76f6", "c71b7be"]
MM = "metamorphic monitor over recorded decode histories of the real decoder"
C["P01"] = ("crash/progress monitor: checked build (debug assertions, overflow checks) under mutated and hostile streams",
  "Holds on the executed inputs: mutated corpus and generated streams x random options, formats, feeds, runners. Panics, overflows, calls that do not return (watchdog) and calls without progress are violations.")
C["P03"] = (MM + " under hostile task schedules (reversed, shuffled, delayed, 1-8 threads)",
  "Sequential outcome is the oracle; bit equality of every frame, metadata and end.")
C["P05"] = (MM + " (deliveries)",
  "Holds on the deliveries executed: corpus files, generated container layouts, prefixes and damaged files, every prefix of the first 4000 bytes and random cuts/input objects; the oracle is equality with the one-shot decode of the same bytes. Containers that are damaged are compared up to where the error surfaces.")
C["P06"] = (MM + " (flush placements), flush-false-means-untouched monitor, range/approximation oracle",
  "Final frames bit-equal to those without flushes; canary/diff of buffers around each flush.")
C["P07"] = (MM + " (truncations, resumptions) with I/O fault injection at every read, skip and availability call",
  "The completed frames of a prefix must lie in the prefix by the parsed frame map; resumed decode equals uninterrupted one; injected errors must surface.")
C["P08"] = (MM + " (container layouts written by an independent box muxer)",
  "Outcome equal to the bare codestream for legal layouts; contradictory containers must be rejected.")
C["P09"] = (MM + " (scan vs decode, seek histories)",
  "Index equals the decoded frames; pixels after a seek equal those from the start, for random targets, orders and layouts.")
C["P10"] = (MM + " (skip masks)", "Decoded frames bit-equal to the full decode for all single skips and random subsets.")
C["P13"] = ("canary and coverage monitor on output buffers of random geometry",
  "Every byte outside the described rows is compared with the fill pattern after every call; completeness by decoding into two different fill patterns.")
C["P14"] = (MM + " (SIMD level capped at scalar, SSE4.2, AVX2, AVX-512)",
  "Lossless files bit-equal, others within 2e-3 relative (worst seen 5e-5).")
C["P16"] = ("reference oracle: an independent encoder whose model of every lossless tool predicts the samples exactly; compared over recorded decodes",
  "Random streams over trees, all predictors, weighted parameters, properties, LZ77, ANS/prefix, hybrid configs, RCT, palettes (delta, implicit), squeeze, groups, passes, depths, extra channels; each decoded in several feeds, runners, outputs, SIMD levels. Exact.")
C["P22"] = (MM + " (repeated, concurrent, rewound decodes, failed decodes before)", "Bit equality of all outcomes with the first decode.")
C["P02"] = ("AddressSanitizer and MemorySanitizer (whole program with instrumented std) plus debug assertions (alignment, null, unsafe preconditions) over hostile and valid decodes at every SIMD level",
  "Holds on the executed inputs. Damaged and valid files, generated streams, random formats, geometries, inputs, runners, skips, flushes, injected errors; SIMD levels scalar to AVX-512.")
C["P04"] = ("ThreadSanitizer (whole program with instrumented std) over parallel decodes with seeded yields, orders and 2-7 workers",
  "No race in the executed schedules; happens-before detection covers interleavings beyond the observed order.")
C["P17"] = ("reference oracle: independent header writer; generated headers compared with what the decoder reports, in recorded runs of one-shot and fragmented decodes and scans",
  "Random legal headers with every coding of each field, scans over junk sections with a model of seek dependencies, and decodable multi-frame files.")
C["P20"] = ("reference oracle: independent ICC parser, MD5, colorimetry and tone curves judge every synthesised profile; embedded profiles byte for byte through an independent ICC encoder",
  "All enumerated encodings plus random custom primaries/white points/gammas; random profiles through every command of the ICC coding.")
