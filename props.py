"""The properties, how each is stated, and which simulations decide it.

gen.py derives properties.jsonl and MANIFEST.json from this file.
"""

VARIANT_ENV = {}

LIB = "libbrunsli encoder and decoder (c/common, c/dec, c/enc), compiled from /repo's working tree; brotli from the system"
GEN = "workload: an independent JPEG writer (sim/jpeggen.cc) instead of camera files"
RULE = ("one evaluation is one simulated run: swarm-style knobs, a random JPEG and a random schedule/fault sequence drawn "
        "from the run's seed; a run counts as distinct and non-trivial when the hash of its complete event log (workload, "
        "every call with sizes and results, every fault) was not seen before and it was not discarded")
SAMPLE = "sampling: a clean batch is evidence over the seeds explored, not a proof"

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


prop("P01",
     title="Lossless round trip under every delivery schedule",
     statement="A valid JPEG file that the encoder accepts is reproduced byte for byte when its Brunsli stream is decoded, however "
               "the stream is cut into input fragments, however small or late the output room is offered, and whatever mix of "
               "baseline/progressive scans, restart intervals, sampling, tables, metadata and trailing data the file has. Every "
               "valid baseline or progressive JPEG without extreme quantisation jumps or padding is accepted. The decoder reports "
               "completion exactly when the last input byte is consumed and the last output byte is delivered.",
     over=["inputs", "schedules"],
     text="all valid JPEGs of the generator's grammar x all fragmentations of input and output, including empty deliveries",
     why="The tests round-trip a handful of embedded files, mostly in one call; the streaming decoder keeps dozens of resumable "
         "sub-states whose suspension points depend on where the fragments end.",
     files=["c/enc/jpeg_data_reader.cc", "c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc"],
     mech=[("resumable section parser and sub-decoders", "c/dec/brunsli_decode.cc ProcessJpeg/DecodeDC/DecodeAC"),
           ("input staging across calls", "c/dec/brunsli_decode.cc LoadInput/UnloadInput/ChargeBuffer"),
           ("resumable serializer and output queue", "c/dec/jpeg_data_writer.cc SerializeJpeg/PushOutput")],
     observe=["brunsli::BrunsliDecoder::Decode", "brunsli::BrunsliEncodeJpeg"],
     parts=[("plain", "lossless", 1)],
     technique="deterministic simulation: seeded delivery schedules, oracle = original file",
     real=[LIB], stub=[GEN, "producer and consumer of the stream are simulated channels"],
     assumptions=["images of up to a few hundred thousand coefficients", SAMPLE])

prop("P02",
     title="Verdict and output do not depend on how input is fragmented",
     statement="For any byte string, damaged or not, decoding it in one call and decoding it in arbitrary fragments with arbitrary "
               "output room agree: both complete with identical bytes, or neither completes. A stream rejected in one call is never "
               "reported complete when delivered piecewise, and the other way round.",
     over=["inputs", "schedules", "fault_sequences"],
     text="streams damaged in transit or in storage (bytes flipped, lost, inserted, ...; whole sections lost, moved, duplicated, resized; "
          "metadata damaged below its compression) x fragmentations",
     why="The tests feed damaged data, if at all, in one piece; agreement is a relation between two executions over all cuts.",
     files=["c/dec/brunsli_decode.cc", "c/dec/state.cc", "c/dec/bit_reader.cc", "c/dec/jpeg_data_writer.cc"],
     mech=[("section framing and remaining-length checks", "c/dec/brunsli_decode.cc"),
           ("optimistic vs. suspending bit reader", "c/dec/bit_reader.h, bit_reader.cc")],
     observe=["brunsli::BrunsliDecodeJpeg + WriteJpeg", "brunsli::BrunsliDecoder::Decode"],
     parts=[("plain", "chunk_independent", 1)],
     technique="deterministic simulation: damaged streams over seeded delivery schedules, differential oracle",
     real=[LIB], stub=[GEN, "simulated channels that damage and fragment"],
     assumptions=["bytes behind the end of a complete stream are the caller's: the streaming decoder is judged on the bytes it took",
                  "runs whose damage asks for more than 256 MB are discarded", SAMPLE])

prop("P03",
     title="A truncated stream is never mistaken for a complete one",
     statement="If the producer dies after any proper prefix of a valid stream, the decoder keeps asking for input and never reports "
               "completion, whatever the fragmentation. All bytes it has emitted by then are a prefix of the original file. Decoding "
               "the same prefix in a single call fails.",
     over=["crash_points", "schedules", "inputs"],
     text="every cut position of every generated stream x fragmentations",
     why="The tests cut one or two files; cut position times fragment boundary is the space in which early completion would hide.",
     files=["c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc"],
     mech=[("section bookkeeping before DONE", "c/dec/brunsli_decode.cc DoProcessJpeg"),
           ("serializer waits for the sections it needs", "c/dec/jpeg_data_writer.cc SerializeSection")],
     observe=["brunsli::BrunsliDecoder::Decode", "brunsli::BrunsliDecodeJpeg"],
     parts=[("plain", "truncation", 1)],
     technique="deterministic simulation: producer crash at a seeded byte, prefix oracle",
     real=[LIB], stub=[GEN, "simulated channels; the producer crash is an end of input"],
     assumptions=[SAMPLE])

prop("P04",
     title="The decoder owns nothing it was not given",
     statement="Input bytes that a decoding call reports as consumed are never looked at again, so the caller may free, reuse or "
               "overwrite them at once. Offered input is never modified, and nothing is ever written outside the offered output room. "
               "Consumed and produced counts always match the moved pointers.",
     over=["schedules", "inputs", "fault_sequences"],
     text="streams intact or damaged x all fragmentations, with every fragment in its own exact-size block that is destroyed as soon as it is consumed",
     why="The tests keep the whole input in one buffer that outlives the decoder, so a retained reference is invisible to them.",
     files=["c/dec/brunsli_decode.cc", "c/dec/state.h", "c/dec/output_chunk.h", "c/dec/jpeg_data_writer.cc"],
     mech=[("copying of metadata and bypass payloads that outlive a call", "c/dec/brunsli_decode.cc"),
           ("output chunks own or borrow their bytes", "c/dec/output_chunk.h")],
     observe=["brunsli::BrunsliDecoder::Decode"],
     parts=[("asan", "ownership", 2), ("plain", "ownership", 1)],
     technique="deterministic simulation: fragment lifetimes ended at the earliest legal moment, address sanitizer + guard bytes",
     real=[LIB], stub=[GEN, "simulated channels, which may damage the stream; every fragment is a fresh heap block"],
     assumptions=["AddressSanitizer reports accesses to freed blocks", SAMPLE])

prop("P05",
     title="Decoding calls make progress, verdicts are final, walking away is clean",
     statement="Given data and room, the decoder moves within a bounded number of calls, asks for output room only when the room is "
               "full, and reaches a verdict once everything was delivered. A verdict is final: later calls repeat it, and emit "
               "nothing. Destroying a decoder after any number of calls releases all memory it took.",
     over=["schedules", "histories", "fault_sequences", "inputs"],
     text="streams intact or damaged x fragmentations with stalls x abandonment after any call x further calls after the verdict",
     why="Tests stop at the first verdict and never abandon a decoder mid-way; liveness is a statement about all call sequences.",
     files=["c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc", "c/dec/state.h"],
     mech=[("status mapping of parser and serializer", "c/dec/brunsli_decode.cc BrunsliDecoder::Decode"),
           ("sticky error stage", "c/dec/brunsli_decode.cc, c/dec/jpeg_data_writer.cc")],
     observe=["brunsli::BrunsliDecoder::Decode", "allocator"],
     parts=[("plain", "progress", 1)],
     technique="deterministic simulation: stalls, abandonment and late calls; bounded-progress and leak oracle",
     real=[LIB], stub=[GEN, "simulated channels", "allocator seam (counts, fills with junk)"],
     assumptions=["progress bound: four consecutive calls with data and room", SAMPLE])

prop("P06",
     title="A failing output sink is never reported as success by the decoder",
     statement="When the sink a decoded file is written to refuses, shortens or misreports a write at any point, the decoding call "
               "returns failure, calls the sink no further, and has passed it only a prefix of the original file. With a healthy "
               "sink the call succeeds and the sink holds the complete file, also right after a failed attempt on the same image.",
     over=["fault_sequences", "inputs"],
     text="every byte position at which the sink can start to misbehave x five kinds of misbehaviour",
     why="Tests use sinks that accept everything.",
     files=["c/dec/decode.cc", "c/dec/jpeg_data_writer.cc"],
     mech=[("count returned by the sink is compared", "c/dec/jpeg_data_writer.cc WriteJpeg, JPEGOutput")],
     observe=["DecodeBrunsli", "brunsli::WriteJpeg"],
     parts=[("plain", "decoder_sink", 1)],
     technique="deterministic simulation: sink faults at seeded bytes, oracle over what the sink acknowledged",
     real=[LIB], stub=[GEN, "the sink"], assumptions=[SAMPLE])

prop("P07",
     title="A failing output sink is never reported as success by the encoder",
     statement="When the sink of the C encoding entry point refuses, shortens or misreports a write, the call returns failure. With a "
               "healthy sink it returns success and the sink holds a stream that decodes to exactly the input file.",
     over=["fault_sequences", "inputs"],
     text="every byte position at which the sink can start to misbehave x five kinds of misbehaviour",
     why="Tests use sinks that accept everything.",
     files=["c/enc/encode.cc"],
     mech=[("count returned by the sink is compared", "c/enc/encode.cc EncodeBrunsli")],
     observe=["EncodeBrunsli"],
     parts=[("plain", "encoder_sink", 1)],
     technique="deterministic simulation: sink faults at seeded bytes, oracle over what the sink acknowledged",
     real=[LIB], stub=[GEN, "the sink"], assumptions=[SAMPLE])

prop("P08",
     title="The encoder respects the capacity it is given",
     statement="Encoding, or wrapping unchanged, into a buffer of any capacity writes nothing outside the buffer, never reports a "
               "length over the capacity, and reports success only if the buffer holds a complete decodable stream. The size the "
               "library recommends is always enough for a valid image, however dense.",
     over=["inputs", "fault_sequences"],
     text="every capacity from zero to the recommended size, with emphasis around the needed size x dense and sparse images",
     why="Tests always pass a generous buffer; an overrun by a few bytes into slack is invisible to them.",
     files=["c/enc/brunsli_encode.cc", "c/enc/write_bits.h", "c/enc/write_bits.cc", "c/enc/state.h"],
     mech=[("bit writer bound", "c/enc/write_bits.h Storage"),
           ("size estimate", "c/enc/brunsli_encode.cc GetMaximumBrunsliEncodedSize/EstimateAuxDataSize"),
           ("section size limits", "c/enc/brunsli_encode.cc EncodeSection")],
     observe=["brunsli::BrunsliEncodeJpeg", "brunsli::BrunsliEncodeJpegBypass", "brunsli::GetMaximumBrunsliEncodedSize"],
     parts=[("plain", "capacity", 2), ("asan", "capacity", 2), ("plain", "recommended", 2)],
     technique="deterministic simulation: storage-full faults at seeded capacities, guard bytes and decode oracle",
     real=[LIB], stub=[GEN, "the output buffer: exact-size block with guards"],
     assumptions=["a capacity 8 bytes over the normal size must be accepted", SAMPLE])

prop("P09",
     title="Failing allocations never corrupt, leak or fake a result",
     statement="When any memory allocation fails during encoding, wrapping or decoding, the operation ends in a clean failure "
               "(an error result or std::bad_alloc) or in the correct result. It leaks nothing, releases nothing twice, emits only a "
               "prefix of the correct output, and the same operation succeeds once memory is available again.",
     over=["fault_sequences", "inputs"],
     text="every allocation index (single failures, bursts, and failure of everything from an index on) x six operations",
     why="No test makes an allocation fail.",
     files=["c/enc/brunsli_encode.cc", "c/enc/jpeg_data_reader.cc", "c/dec/brunsli_decode.cc", "c/dec/decode.cc", "c/enc/encode.cc"],
     mech=[("ownership by vectors and unique_ptr", "c/dec/state.h, c/enc/state.h")],
     observe=["all encoding and decoding entry points", "malloc/operator new"],
     parts=[("plain", "alloc_fault", 2), ("asan", "alloc_fault", 1)],
     technique="deterministic simulation: seeded allocation failures, leak/double-free accounting and result oracle",
     real=[LIB], stub=[GEN, "allocator"], assumptions=["the C++ runtime reports allocation failure as std::bad_alloc", SAMPLE])

GRP = "groups mode (c/experimental/groups.cc) and the library, built with BRUNSLI_EXPERIMENTAL_GROUPS, compiled from /repo's working tree"
SCHEDSTUB = ("thread scheduler: real threads run one at a time, preempted at seeded memory accesses and synchronisation calls; "
             "mutexes, condition variables, thread creation, static initialisation guards and clocks are simulated")

prop("P10",
     title="Groups mode is lossless and independent of threads and timing",
     statement="A supported JPEG encoded in groups mode decodes to the identical file for all group dimensions. The encoded bytes "
               "and the restored file are the same for one or many threads, for any order or overlap of the tasks, and there is no "
               "data race between them. Encoding succeeds exactly when the output buffer can hold the result.",
     over=["schedules", "inputs"],
     text="images x group dimensions x thread counts x task orders and preemptions x buffer capacities",
     why="One test transcodes two images with one pool; which worker writes what when is left to the machine.",
     files=["c/experimental/groups.cc", "c/experimental/groups.h", "c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc"],
     mech=[("group-wise encoding and stitching", "c/experimental/groups.cc EncodeGroups"),
           ("per-group decoding states", "c/experimental/groups.cc DecodeGroups")],
     observe=["brunsli::EncodeGroups", "brunsli::DecodeGroups"],
     parts=[("sched", "groups", 3), ("groups", "groups_seq", 2)],
     technique="deterministic simulation: seeded preemptive scheduler over real threads, race detector, identity and differential oracle",
     real=[GRP], stub=[GEN, SCHEDSTUB],
     assumptions=["sampling factors divide the group dimension (others are refused)", SAMPLE])

prop("P11",
     title="The thread pool runs every task exactly once and always terminates",
     statement="ParallelExecutor::execute runs each task of a batch exactly once, returns only when all have finished, makes the "
               "caller's writes visible to the tasks and theirs to the caller, and hands a task's exception to the caller. "
               "Construction, execution of any number of batches, and destruction never deadlock, whatever the interleaving, spurious "
               "wakeups and thread creation failures; no thread or lock is left behind.",
     over=["schedules", "fault_sequences", "histories"],
     text="thread counts x sequences of batches x interleavings x spurious wakeups x throwing tasks x failing thread creation and memory",
     why="A test runs a few batches on whatever schedule the machine happens to produce.",
     files=["c/experimental/groups.cc", "c/experimental/groups.h"],
     mech=[("worker loop and hand-shake", "c/experimental/groups.cc ParallelExecutor")],
     observe=["brunsli::ParallelExecutor", "brunsli::EncodeGroups / DecodeGroups with failing memory"],
     parts=[("sched", "pool", 3), ("sched", "groups_alloc", 1)],
     technique="deterministic simulation: seeded preemptive scheduler with spurious wakeups, exceptions, failed thread creation",
     real=["ParallelExecutor (c/experimental/groups.cc), the standard library's thread, mutex and condition_variable templates"],
     stub=["tasks are harness functions (pool) or the codec's own (groups_alloc)", SCHEDSTUB, "allocator seam"],
     assumptions=["the caller waits for a batch before it starts the next", SAMPLE])

prop("P12",
     title="Damaged group streams get one verdict under every schedule",
     statement="Decoding a damaged groups-mode stream never crashes, hangs or races, and whether it is rejected, and what it decodes "
               "to if not, does not depend on the number of threads or the order in which the groups are worked on.",
     over=["schedules", "fault_sequences", "inputs"],
     text="injuries to group streams x wrong dimensions x thread counts x task orders and preemptions",
     why="No test decodes damaged group streams.",
     files=["c/experimental/groups.cc", "c/dec/brunsli_decode.cc"],
     mech=[("merging of group verdicts", "c/experimental/groups.cc DecodeGroups")],
     observe=["brunsli::DecodeGroups"],
     parts=[("sched", "groups_damage", 3), ("groups", "groups_hostile", 2)],
     technique="deterministic simulation: damaged streams under a seeded preemptive scheduler, differential oracle, race detector, ASan",
     real=[GRP], stub=[GEN, SCHEDSTUB],
     assumptions=["runs whose damage asks for more than 256 MB are discarded", SAMPLE])

prop("P13",
     title="Command line tools succeed only with complete output",
     statement="cbrunsli and dbrunsli exit with status 0 only if the output file holds the complete correct result: a stream that "
               "decodes to the input file, or the file that the stream decodes to. Whatever the disk does (errors and short transfers on "
               "any operation, a full disk, an input that cannot seek or tell its size, a failed close) and whatever damage the input has, "
               "the tools end with a failure status otherwise. They never change the input file; leftovers of earlier attempts do not "
               "matter; and they do succeed on every supported input when the disk does not fail.",
     over=["fault_sequences", "inputs", "schedules", "crash_points"],
     text="disk fault sequences x images and damaged inputs x default and explicit output names x stale output files; with groups mode "
          "compiled in, also interleavings of the tools' threads",
     why="No test runs the tools on a disk that fails.",
     files=["c/tools/cbrunsli.cc", "c/tools/dbrunsli.cc"],
     mech=[("reading and writing of whole files", "c/tools ReadFile, WriteFile"), ("exit status", "c/tools ProcessFile, main")],
     observe=["cbrunsli main", "dbrunsli main"],
     parts=[("tools", "tools", 3), ("gtools", "tools", 1)],
     technique="deterministic simulation: the tools' processes on a simulated disk with seeded faults, round trip oracle",
     real=["c/tools, " + LIB, "C library stdio buffering"],
     stub=[GEN, "disk (every stdio, iostream and descriptor operation below the C library's buffers)", "process exit"],
     assumptions=["an error the disk never reports is outside the claim", SAMPLE])

prop("P14",
     title="Concurrent independent codecs do not interfere",
     statement="Threads that encode and decode with objects of their own, or that only read one shared parsed image, get exactly what "
               "each would get alone, from the first use in a fresh process on, without data races.",
     over=["schedules", "inputs", "fault_sequences"],
     text="2-4 callers x mixes of all encoding and decoding entry points x preemptions at any memory access x damaged inputs; every "
          "run starts in a fresh process",
     why="No test uses the codec from two threads; lazily initialised tables and other hidden shared state only show then.",
     files=["c/common/context.cc", "c/common/platform.h", "c/enc/context_map_encode.cc", "c/dec/brunsli_decode.cc", "c/enc/brunsli_encode.cc"],
     mech=[("constant tables and their initialisation", "c/common, c/enc, c/dec"), ("no globals", "all")],
     observe=["EncodeBrunsli, DecodeBrunsli, BrunsliEncodeJpeg, BrunsliEncodeJpegBypass, BrunsliDecodeJpeg, BrunsliDecoder, WriteJpeg"],
     parts=[("sched", "instances", 1)],
     technique="deterministic simulation: seeded preemptive scheduler, race detector, oracle = the same caller alone",
     real=[LIB], stub=[GEN, SCHEDSTUB],
     assumptions=["the Brotli library is not instrumented: races inside it are not seen", SAMPLE])

prop("P15",
     title="Wrapping a file unchanged returns exactly that file",
     statement="Any byte string, JPEG or not and empty or not, wrapped with the bypass encoder decodes to exactly that byte string, in one "
               "call or over any delivery schedule. If the producer dies early, the decoder asks for more and has emitted only a prefix.",
     over=["inputs", "schedules", "crash_points"],
     text="arbitrary payloads incl. sizes around length-encoding boundaries x fragmentations x producer crashes",
     why="One test wraps one file and decodes it in one call.",
     files=["c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc"],
     mech=[("bypass section", "c/enc/brunsli_encode.cc BrunsliEncodeJpegBypass; c/dec/brunsli_decode.cc; c/dec/jpeg_data_writer.cc")],
     observe=["brunsli::BrunsliEncodeJpegBypass", "brunsli::BrunsliDecoder::Decode"],
     parts=[("plain", "bypass", 1)],
     technique="deterministic simulation: seeded delivery schedules and producer crashes, identity oracle",
     real=[LIB], stub=["payload generator", "simulated channels"],
     assumptions=["empty payloads are outside the claim (the encoder wraps them, the decoder rejects them)", SAMPLE])

prop("P16",
     title="The Java binding returns the complete right result or null",
     statement="nativeEncode and nativeDecode return a byte array only if it is the complete right result, null otherwise: for damaged "
               "input, buffers that are not direct, and when the VM is out of memory; and they do return a result for every valid input "
               "when nothing fails. They obey the rules of JNI (no calls with an exception pending, no access out of bounds, nothing left "
               "pinned), never write to the caller's buffer, keep no memory, and concurrent Java threads do not interfere. "
               "Loading the library reports every failure of the VM and registers both methods.",
     over=["fault_sequences", "inputs", "schedules"],
     text="VM faults x valid and damaged inputs x sequences of calls x interleavings of two to four Java threads",
     why="The Java test needs a VM and a build that is not part of the test suite; it makes no call fail.",
     files=["java/dev/brunsli/wrapper/codec_jni.cc", "java/dev/brunsli/wrapper/codec_jni_onload.cc"],
     mech=[("conversion between Java and native buffers", "java/dev/brunsli/wrapper/codec_jni.cc"),
           ("registration", "java/dev/brunsli/wrapper/codec_jni_onload.cc")],
     observe=["Java_dev_brunsli_wrapper_CodecJNI_nativeDecode", "Java_dev_brunsli_wrapper_CodecJNI_nativeEncode", "JNI_OnLoad"],
     parts=[("bindings", "jni", 2), ("jnithreads", "jni_threads", 1)],
     technique="deterministic simulation: simulated Java VM with seeded faults and threads, rule checks, differential and round trip oracle, ASan",
     real=["java/dev/brunsli/wrapper/*.cc, " + LIB], stub=[GEN, "Java VM (function tables, arrays, buffers, exceptions)", SCHEDSTUB],
     assumptions=["calls of JNI functions the simulated VM lacks are discarded", "the Java half of the wrapper is not run", SAMPLE])

prop("P17",
     title="The browser binding streams and releases correctly",
     statement="A stream fed block by block through BrunsliDecoderProcess gives exactly the original file and status 1 at its end, status "
               "2 for a stream the library rejects (and again for blocks fed after that), 0 otherwise, for all block sizes, with any number of instances and one-shot "
               "conversions interleaved. BrunsliToJpeg and JpegToBrunsli return the complete right result or null. "
               "Everything is released by its cleanup function, whenever a client walks away, and null is accepted there.",
     over=["schedules", "histories", "fault_sequences", "inputs"],
     text="interleavings of up to three streams and one-shot calls x block sizes x damaged streams x dying producers and abandoned instances",
     why="Nothing tests the binding; it is only compiled.",
     files=["wasm/codec.cc"],
     mech=[("instance block and staging buffers", "wasm/codec.cc BrunsliDecoder*"), ("one-shot results", "wasm/codec.cc")],
     observe=["BrunsliDecoderInit/Process/Cleanup", "BrunsliToJpeg", "JpegToBrunsli"],
     parts=[("bindings", "wasm", 1)],
     technique="deterministic simulation: simulated JavaScript clients with seeded interleavings and faults, differential and identity oracle, ASan, allocator accounting",
     real=["wasm/codec.cc, " + LIB], stub=[GEN, "JavaScript client", "address space: the binding's 32 bit words are widened to hold native pointers"],
     assumptions=["compiled for this machine, not for WebAssembly", SAMPLE])

prop("P18",
     title="Damaged streams and files never crash or hang the codec",
     statement="Whatever bytes arrive, in whatever fragments, decoding neither reads nor writes out of bounds, nor crashes, nor runs "
               "forever: it ends with a verdict or a request for input. The same holds for the signature check and the memory estimate "
               "asked before decoding, and for encoding any byte string as a JPEG.",
     over=["inputs", "fault_sequences", "schedules"],
     text="streams and files with up to twelve injuries to bytes, sections, marker segments and compressed metadata x fragmentations",
     why="Tests use well-formed files and a few fixed corruptions.",
     files=["c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc", "c/dec/huffman_table.cc", "c/dec/histogram_decode.cc",
            "c/enc/jpeg_data_reader.cc"],
     mech=[("bounds and consistency checks of the parsers", "c/dec/*.cc, c/enc/jpeg_data_reader.cc")],
     observe=["brunsli::BrunsliDecoder::Decode", "DecodeBrunsli", "brunsli::ReadJpeg"],
     parts=[("asan", "hostile_stream", 3), ("asan", "hostile_jpeg", 2), ("plain", "hostile_stream", 1)],
     technique="deterministic simulation: storage/transit corruption over seeded delivery schedules, address sanitizer + step budget",
     real=[LIB], stub=[GEN, "simulated channels that damage and fragment"],
     assumptions=["AddressSanitizer detects the out-of-bounds accesses", "20 s of CPU time per run stands for 'forever'", SAMPLE])

prop("P19",
     title="Results depend on the input only",
     statement="Encoding or decoding the same bytes gives the same result whatever garbage the heap contains, whatever the process did "
               "before, including failed or abandoned operations, and however often it is repeated.",
     over=["histories", "fault_sequences", "inputs"],
     text="pairs of executions with different heap contents and different histories; one third against a freshly started process",
     why="Tests run each file once, in a fresh process, on mostly zeroed memory.",
     files=["c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc", "c/dec/state.cc", "c/common/context.cc"],
     mech=[("explicit initialisation of all coder state", "c/dec/state.cc, c/enc/state.h, c/common/distributions.cc")],
     observe=["all encoding and decoding entry points"],
     parts=[("plain", "repeatable", 1)],
     technique="deterministic simulation: seeded heap garbage and histories, differential oracle",
     real=[LIB], stub=[GEN, "allocator (junk fill)"], assumptions=[SAMPLE])

prop("P20",
     title="Streams stay readable between versions",
     statement="A stream written by the pinned version of the encoder, regular, of the first-generation context model, or bypass, is "
               "decoded by the current decoder to the identical file over any delivery schedule, and cut short it gives a prefix and a "
               "request for more. A stream written by the current encoder is decoded to the identical file by the pinned version of the "
               "decoder.",
     over=["inputs", "schedules", "crash_points"],
     text="images incl. damaged ones that can be restored x direction x fragmentations x cuts",
     why="The tests decode one stored stream of each kind; any consistent change of both sides passes a round trip.",
     files=["c/common/context.cc", "c/common/constants.cc", "c/enc/brunsli_encode.cc", "c/dec/brunsli_decode.cc", "c/common/predict.cc",
            "c/common/quant_matrix.cc"],
     mech=[("shared model: contexts, probabilities, prediction, tables", "c/common"), ("bit stream syntax", "c/enc, c/dec")],
     observe=["brunsli::BrunsliEncodeJpeg", "brunsli::BrunsliDecoder::Decode"],
     parts=[("compat", "compat", 1)],
     technique="deterministic simulation: mixed-version deployment with seeded delivery schedules and producer crashes, oracle = original file",
     real=[LIB], stub=[GEN, "the other party: a frozen copy of the codec (refcodec/)", "simulated channels"],
     assumptions=["the frozen copy stands for all versions in the field", "groups mode is experimental and not included", SAMPLE])

prop("P21",
     title="Whatever the encoder accepts it can restore exactly",
     statement="A file that was damaged or cut before it reached the encoder is either refused, or its Brunsli stream decodes to "
               "exactly the damaged file, byte for byte, in one call and over any delivery schedule. The encoder never accepts a "
               "file it cannot restore. A file that was read for encoding and is written back directly comes out identical, or "
               "writing fails; it is never altered.",
     over=["inputs", "fault_sequences", "schedules"],
     text="JPEG files with up to eight injuries to bytes, marker segments and tables (or none) x fragmentations of the resulting stream",
     why="Tests encode well-formed files only, so the consistency between what the parser tolerates and what the format can "
         "represent is not exercised.",
     files=["c/enc/jpeg_data_reader.cc", "c/enc/brunsli_encode.cc", "c/dec/jpeg_data_writer.cc", "c/dec/brunsli_decode.cc"],
     mech=[("parser rejects what the format cannot represent", "c/enc/jpeg_data_reader.cc"),
           ("side data: padding bits, extra zero runs, reset points, inter-marker and tail data",
            "c/enc/brunsli_encode.cc, c/dec/jpeg_data_writer.cc")],
     observe=["brunsli::ReadJpeg + BrunsliEncodeJpeg", "brunsli::BrunsliDecoder::Decode", "brunsli::WriteJpeg"],
     parts=[("plain", "accepted_restored", 1)],
     technique="deterministic simulation: storage damage before encoding, seeded delivery schedules, identity oracle",
     real=[LIB], stub=[GEN, "simulated storage that damages files", "simulated channels"],
     assumptions=["runs that need more than 256 MB are discarded", SAMPLE])

prop("P22",
     title="Unknown extensions of the format are skipped",
     statement="A stream that carries additional items or sections with tags this version does not know, in its header or between its "
               "sections, decodes to exactly the same file as without them, in one call and over any delivery schedule; cut short, "
               "the decoder asks for more and has emitted only a prefix.",
     over=["inputs", "schedules", "crash_points"],
     text="streams extended with up to seven unknown items of up to 3 kB, at every legal place x fragmentations x cuts",
     why="No test has a stream with an unknown item; skipping is resumable code with its own counters, exercised only when a fragment "
         "ends inside the item.",
     files=["c/dec/brunsli_decode.cc", "c/common/constants.h"],
     mech=[("skipping of unknown header items", "c/dec/brunsli_decode.cc DecodeHeader"),
           ("skipping of unknown sections and values", "c/dec/brunsli_decode.cc ParseSection/ProcessSection")],
     observe=["brunsli::BrunsliDecoder::Decode", "brunsli::BrunsliDecodeJpeg"],
     parts=[("plain", "extensions", 1)],
     technique="deterministic simulation: streams of a simulated later writer over seeded delivery schedules, identity oracle",
     real=[LIB], stub=[GEN, "the later writer (adds items to real streams)", "simulated channels"],
     assumptions=["tags 10-15 between sections and 5-15 in the header are the unknown ones", SAMPLE])

prop("P23",
     title="The web server modules give the stream to those who ask for it, and only to them",
     statement="With nginx (brunsli_static on) and Apache, a request whose Accept header lists image/x-j gets the stored stream FILE.j "
               "as image/x-j when that is a regular file that can be opened; every other request is left to the next handler as if the module "
               "were not there, its headers unedited. With nginx, off never and always always serves it, directives are inherited, "
               "methods other than GET and HEAD, directories and (unless always) subrequests are declined; the response has the length, "
               "modification time, ETag and bytes of the stream, header and body are sent once and in order, and a configured Vary mark is on both "
               "variants. Whatever the header contains, and when pools, the disk or filters fail, the outcome is an error or the "
               "right response, never a crash, a wrong or mislabelled body or two answers. What the client decodes is the original file.",
     over=["inputs", "schedules", "fault_sequences"],
     text="configurations x histories of requests with random Accept lists x states of the disk x faults x slow clients; threads of the Apache "
          "worker under the simulated scheduler",
     why="The modules have no tests and are not even compiled here.",
     files=["contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c", "contrib/mod_brunsli/mod_brunsli.c"],
     mech=[("content handler, Accept matching, configuration", "contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c"),
           ("translate_name hook", "contrib/mod_brunsli/mod_brunsli.c")],
     observe=["ngx_http_brunsli_static_module (handler, directive, merge)", "brunsli_module hooks"],
     parts=[("server", "nginx", 3), ("server", "apache", 1), ("serverthreads", "apache_threads", 1)],
     technique="deterministic simulation: simulated nginx worker and httpd with seeded requests, disk states, failures and slow clients; "
               "independent reading of the Accept header, ASan, race detector",
     real=["both server modules as compiled C, " + LIB],
     stub=["nginx and httpd: the used part of their interfaces (sim/server), with the contracts of nginx 1.18 and httpd 2.4", GEN],
     assumptions=["the simulated servers keep the contracts of the real ones", "weights of zero and other spellings of the type may be treated either "
                  "way", SAMPLE])

prop("P24",
     title="Patched Python libraries read Brunsli files as JPEGs, all else as before",
     statement="After jxl_library_patches is imported, cv2.imread, PIL.Image.open, imageio, PythonMagick.Image(filename) and matplotlib "
               "read a Brunsli file, given in any way the library takes a JPEG, as the image of the JPEG it was made from, with one conversion "
               "per read and always the file's current content. What does not start with the six signature bytes is read, or refused, exactly as "
               "without the patches and without calling the converter. A damaged stream, a failing converter or a failing disk give an "
               "exception (or no image), never a wrong or partial one. No temporary file or descriptor is left behind, input files and the "
               "application's open files are not touched. Importing or reloading the package works whatever else is in sys.modules, again and again, and "
               "patches only the libraries; without a callable converter it ends the program and patches nothing.",
     over=["inputs", "schedules", "fault_sequences"],
     text="loaded libraries x files x ways to read x files replaced meanwhile x threads x failures of the disk, the converter and process creation",
     why="The package has no tests, and its dependencies are not installed.",
     files=["contrib/py/jxl_library_patches/__init__.py", "contrib/py/jxl_library_patches/jxl_utils.py",
            "contrib/py/jxl_library_patches/jxl_pillow.py", "contrib/py/jxl_library_patches/jxl_imageio.py",
            "contrib/py/jxl_library_patches/jxl_pythonmagick.py"],
     mech=[("temporary directory around the converter", "jxl_utils.py call_with_jxl_filename_arg1_replaced_by_temp_jpeg_file"),
           ("patching of loaded modules", "__init__.py _try_patch_all")],
     observe=["cv2.imread", "PIL.Image.open", "imageio.imread", "PythonMagick.Image", "import jxl_library_patches"],
     parts=[("py", "pypatch", 1)],
     technique="deterministic simulation: the package runs in a Python world with its own import system, disk, processes and threads; oracle = "
               "the unpatched library reading the JPEG",
     real=["contrib/py/jxl_library_patches, and os, shutil, tempfile of the Python library on top of a simulated posix module"],
     stub=["Pillow, imageio, OpenCV, PythonMagick, matplotlib: the part of their interfaces that reads (sim/py/libs.py)",
           "the converter dbrunsli (P13 covers it): a table of streams and files", "disk, processes, threads"],
     assumptions=["the stand-ins keep the contracts of Pillow 5, imageio 2, OpenCV 4 and PythonMagick", "Python 3",
                  "a converter that exits with 0 has written the JPEG", SAMPLE])

prop("P25",
     title="Java callers get the right result for their own data, or an exception",
     statement="Codec.encode and Codec.decode, given a byte array or a direct ByteBuffer, return the complete right result for exactly the "
               "bytes given (of a buffer its whole capacity, wherever position and limit are; read-only buffers and slices included). If the "
               "codec refuses the data or the native code fails they throw IOException, for other buffers IllegalArgumentException; they never "
               "return null. Errors of the VM (no memory) pass through and leave nothing behind that disturbs later calls. Contents, position "
               "and limit of the argument stay as they were; the result belongs to the caller alone. Any number of threads may call at once: "
               "none gets another's result, none waits forever.",
     over=["inputs", "schedules", "fault_sequences"],
     text="valid and damaged files x kinds of buffers x sequences of calls x interleavings of up to four threads x failures of the heap and of the native code",
     why="The Java test needs a build that is not part of the test suite; it makes two calls.",
     files=["java/dev/brunsli/wrapper/Codec.java", "java/dev/brunsli/wrapper/CodecJNI.java"],
     mech=[("copies into direct buffers, results into exceptions", "java/dev/brunsli/wrapper/Codec.java")],
     observe=["dev.brunsli.wrapper.Codec.encode", "dev.brunsli.wrapper.Codec.decode"],
     parts=[("java", "javacodec", 1)],
     technique="deterministic simulation: the compiled classes are woven with scheduling points and failing allocations and run, with the real JNI "
               "library, on a seeded scheduler; oracle = the codec called directly",
     real=["Codec.java, CodecJNI.java, codec_jni.cc, codec_jni_onload.cc", LIB, "a Java virtual machine"],
     stub=[GEN, "failures of the heap and of the native code", "monitors, Lock, Semaphore, BlockingQueue waits"],
     assumptions=["interleavings at the granularity of the byte codes of dev.brunsli.wrapper that touch fields, arrays, monitors or other methods",
                  SAMPLE])


prop("P26",
     title="The body of a stream can travel without its header",
     statement="A container format that carries version, dimensions and sampling itself may leave out signature and header of a "
               "stream and give these facts to the decoder directly. Whatever follows, in any fragments, with parser and serializer "
               "driven at their own pace and the decoder's state object moved in between, gives what the whole stream gives: the "
               "original file if it is intact, the same verdict and bytes if it is damaged, only a prefix if it is cut. Reading only "
               "the header of a JPEG gives these facts.",
     over=["inputs", "schedules", "fault_sequences"],
     text="all generated streams, intact, cut or damaged x fragmentations x interleavings of parsing and serialization",
     why="One test decodes one 16 x 16 image in one call and looks at the status only.",
     files=["c/dec/state.h", "c/dec/state.cc", "c/dec/brunsli_decode.cc", "c/dec/jpeg_data_writer.cc", "c/enc/jpeg_data_reader.cc"],
     mech=[("header facts supplied from outside", "c/dec/state.h UpdateSubsamplingDerivatives, PrepareMeta; State::tags_met"),
           ("parser and serializer as separate loops over one state", "c/dec/state.h ProcessJpeg, SerializeJpeg")],
     observe=["brunsli::internal::dec::ProcessJpeg", "brunsli::internal::dec::SerializeJpeg", "brunsli::ReadJpeg(JPEG_READ_HEADER)"],
     parts=[("plain", "headerless", 1)],
     technique="deterministic simulation: seeded interleaving of parser and serializer steps, cuts and damage; oracles are the original "
               "file and the decoding of the whole stream",
     real=[LIB], stub=[GEN, "the container and its channels"],
     assumptions=["input fragments are declared transient, as the streaming decoder does", SAMPLE])

prop("P27",
     title="Conversions can be chained and repeated without drift",
     statement="A JPEG the encoder accepts can be turned into a Brunsli stream (current or earlier context model, bypass, groups) and back any "
               "number of times, by way of files or by handing the image a decoder parsed directly to an encoder or to the JPEG writer, also "
               "several times over: every relay succeeds and every form always has the same bytes as the first time. A relay that runs out of "
               "memory reports it and changes nothing stored; a stream whose writer died half way is refused, and the work is done again.",
     over=["inputs", "histories", "crash_points", "fault_sequences"],
     text="histories of up to 11 conversions between five forms x images x allocation failures x torn writes",
     why="Tests convert once in each direction, and always from a parsed file to a stream and from a decoded stream to a file.",
     files=["c/dec/brunsli_decode.cc", "c/dec/state.h", "c/enc/brunsli_encode.cc", "c/enc/jpeg_data_reader.cc", "c/dec/jpeg_data_writer.cc",
            "c/include/brunsli/jpeg_data.h", "c/experimental/groups.cc"],
     mech=[("the parsed image as common language of both sides", "c/include/brunsli/jpeg_data.h JPEGData"),
           ("derived fields computed by the decoder", "c/dec/state.h UpdateSubsamplingDerivatives, PrepareMeta")],
     observe=["brunsli::BrunsliDecodeJpeg", "brunsli::BrunsliEncodeJpeg", "brunsli::WriteJpeg", "brunsli::ReadJpeg", "brunsli::BrunsliDecoder",
              "brunsli::EncodeGroups", "brunsli::DecodeGroups"],
     parts=[("plain", "relay", 2), ("groups", "relay_groups", 1)],
     technique="deterministic simulation: seeded histories of conversions with failing allocations, torn writes and restarts; oracle: the first "
               "bytes of each form",
     real=[LIB, "c/experimental/groups.cc"], stub=[GEN, "the relays and their storage", "the executor of groups mode"],
     assumptions=["the relay sets JPEGData::version to the context model it wants", SAMPLE])

prop("P28",
     title="The header and tables of a JPEG that is still arriving can be read ahead",
     statement="ReadJpeg for the header only succeeds as soon as the frame header has arrived, and whatever follows, however the file is cut and "
               "however often it is asked, gives the same dimensions, components and sampling as reading everything. For a file that is read as a whole, "
               "reading the tables only succeeds too, and gives the same quantisation and Huffman tables and restart interval. Neither reads "
               "beyond what has arrived or leaves memory behind.",
     over=["inputs", "schedules", "crash_points"],
     text="valid and damaged files x growing prefixes, asked at up to 16 moments",
     why="No test uses these modes.",
     files=["c/enc/jpeg_data_reader.cc", "c/include/brunsli/jpeg_data_reader.h"],
     mech=[("modes of the marker loop", "c/enc/jpeg_data_reader.cc ReadJpeg, FindNextMarker, ProcessSOF, ProcessDHT")],
     observe=["brunsli::ReadJpeg(JPEG_READ_HEADER)", "brunsli::ReadJpeg(JPEG_READ_TABLES)"],
     parts=[("plain", "peek", 1), ("asan", "peek", 1)],
     technique="deterministic simulation: seeded arrival of files, intact or damaged; oracles: reading everything, and an independent walk to the frame header",
     real=["c/enc/jpeg_data_reader.cc"], stub=[GEN, "simulated storage that damages files", "the arriving file"],
     assumptions=[SAMPLE])

NOT_APPLICABLE = [
    dict(id="P90", title="Signature check agrees with the format",
         statement="IsBrunsli is true exactly for byte strings that start with the six signature bytes.",
         over=["inputs"], text="all byte strings", why="Tests try a few strings.",
         files=["c/dec/brunsli_decode.cc"], mech=[("signature compare", "c/dec/brunsli_decode.cc IsBrunsli")],
         reason="a pure function of one small input: there is no schedule, fault, clock or other party for a simulation to decide"),
    dict(id="P91", title="Recompression saves space",
         statement="For ordinary photographs the Brunsli stream is smaller than the JPEG file.",
         over=["inputs"], text="ordinary photographs", why="Tests check no sizes over a population.",
         files=["c/enc/brunsli_encode.cc"], mech=[("context modelling", "c/enc, c/common/context.cc")],
         reason="a statistical statement about photographs with no schedule, fault or interleaving in it; the simulator's synthetic "
                "images say nothing about it"),
]

NOTES = ("No hooks are compiled into /repo: all seams are existing interfaces, link-time interposition or compiler "
         "instrumentation. Each check rebuilds the simulator from /repo's working tree in a scratch directory. "
         "./check replay FILE rebuilds and replays a recorded violation.")
