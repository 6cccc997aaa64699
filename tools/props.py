import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a=dict(files=files,mechanism=[dict(name=mech,where=", ".join(files[:4]))])
    if state: a["state"]=[dict(name=n.strip(),where=files[0]) for n in state.split(",")]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
p("C01","uncompress restores exactly what compress was given",
 "For every input (empty included) and every accepted combination of compress options, `uncompress` of the archive written by `compress` exits 0 and writes exactly the original bytes. This holds through files, standard input and standard output, and for archives that are compressed again.",
 ["inputs","configurations","histories"],"every byte string, every accepted option combination (-e, -p, -m, --bwt, -s), every way of delivering the data, every chain of commands",
 "The tests round-trip a few short fixed strings with the default options; the interesting data (periods, runs, long repeats, many pairs, block boundaries, empty input) and the option combinations are unbounded.",
 ["compress.cpp","uncompress.cpp","Compressor.cpp","Decompressor.cpp","BitCoders.cpp","EntropyCoders.hpp","WaveletCoders.cpp","HuffmanCoders.cpp","PrecompressorBlock.cpp","BWTBlock.cpp"],
 "Compressor::compress cuts the input into precompressor blocks, each into BWT slices, each entropy coded; Decompressor::decompress inverts the chain, so every stage has to be the inverse of its counterpart and both have to keep the same adaptive state.",
 "block structure, starting rows, entropy models, grammar, range coder interval")
p("C02","Archives have the documented format and mean the input",
 "Every archive that compress writes is, from its first byte to its last, what the written-down format allows: entropy coder byte, total sizes, grammar, slices with their starting points, and a coded stream. Decoded by an independent decoder of that format, it is the original input.",
 ["inputs","configurations"],"every input and option combination",
 "The tests never look at the bytes of an archive; a change made on both sides at once (encoder and decoder) round-trips and yet makes all existing archives unreadable.",
 ["Compressor.cpp","PrecompressorBlock.cpp","BWTBlock.cpp","WaveletCoders.cpp","HuffmanCoders.cpp","WaveletTree.hpp","BitCoders.cpp","probmodels/ProbabilityModel.cpp","preprocessors/Grammar.cpp"],
 "The byte order, packed integers, section rule, code assignment, probability models and range coder of the writer fix the meaning of the archive.",
 "the archive on disk")
p("C03","The output depends only on the input bytes and the options",
 "compress, uncompress, preprocess and postprocess produce the same bytes for the same input and options, however the input arrives (file, pipe, slow writer), wherever the output goes (file, pipe, appended file), whatever is in memory or in the environment, and whichever optimization level or compiler built them.",
 ["inputs","schedules","configurations","histories"],"every input, option combination, way of delivering, stale memory content, build flavour, repetition",
 "A test runs one build in one way; dependence on uninitialised memory, on chunks in which a pipe delivers or on the order of evaluation shows up only when those vary.",
 ["Streams.cpp","Streams.hpp","compress.cpp","uncompress.cpp","Compressor.cpp","preprocessors/PairReplacer.cpp","preprocess.cpp","probmodels/ProbabilityModel.hpp"],
 "Reads of arbitrary size are assembled to whole blocks, sizes are written back after the data, all models and tables start from a fixed state.",
 "stream buffers, heap contents")
p("C04","The forward transform is the Burrows-Wheeler transform",
 "For every block, either BWT algorithm yields the last column of the sorted rotations of the reversed block with the sentinel, the rows of the requested number of equally spaced starting points, and the byte frequencies of the block. Nothing outside the block is changed and both algorithms agree.",
 ["inputs","configurations"],"every block, both algorithms, every number of starting points 1..256",
 "The tests compare a few short strings; suffix sorters go wrong on long repeats, periods, runs and particular length/starting point combinations.",
 ["bwtransforms/BWTManager.cpp","bwtransforms/BWTransform.cpp","bwtransforms/Divsufsorter.hpp","bwtransforms/divsufsort.c","bwtransforms/SA-IS-bwt.cpp","bwtransforms/sais.hxx","BWTBlock.cpp"],
 "The transformers sort the suffixes of the reversed block, leave out the sentinel row and collect the rows of the starting points.",
 "block buffer, LFpowers, frequencies")
p("C05","The inverse transform restores the block from any starting points",
 "For every transform of a block and every number of equally spaced starting points from 1 to 256 (up to the length of the block plus one), the inverse transform yields the block.",
 ["inputs","configurations"],"every block and every number of starting points, dividing the length or not",
 "The tests invert a few fixed blocks with a few numbers of starting points; remainders of the length by the number of points and the row of the sentinel select the branches.",
 ["bwtransforms/InverseBWT.cpp","bwtransforms/MtlSaInverseBWT.cpp","bwtransforms/InverseBWT.hpp"],
 "Walks the LF cycle from all starting points in parallel and finishes the last, longer stretch alone.",
 "LFpowers, buckets of the LF mapping")
p("C06","postprocess restores what preprocess was given, which never grows",
 "For every input and every preprocessing string, postprocess of the output of preprocess is the input. The preprocessed form of a block takes no more bytes than the block itself plus the description of its grammar.",
 ["inputs","configurations"],"every input, every preprocessing string of 'p', every block size",
 "The tests use a few strings far below the thresholds (a thousand occurrences of a pair) at which replacements, freed symbols and special symbols come into play.",
 ["preprocessors/PairReplacer.cpp","preprocessors/PairReplacer.hpp","preprocessors/FrequencyTable.cpp","preprocessors/Grammar.cpp","preprocessors/Postprocessor.cpp","preprocess.cpp","postprocess.cpp","PrecompressorBlock.cpp"],
 "Replaces frequent pairs by free or freed symbols, writes freed and special symbols as pairs of special symbols and records everything in the grammar.",
 "replacement table, frequency table, grammar")
p("C12","Truncated archives are refused",
 "uncompress and postprocess of any strict prefix of an archive end with a non-zero exit status; they never claim success for data that was cut off.",
 ["inputs","crash_points"],"every archive and every length it can be cut to",
 "No test truncates anything; there are as many crash points as bytes in each archive, and only some of them hit a particular reader.",
 ["Decompressor.cpp","Streams.cpp","BitCoders.cpp","BWTBlock.cpp","PrecompressorBlock.cpp","HuffmanCoders.cpp","WaveletCoders.cpp","postprocess.cpp","preprocessors/Grammar.cpp"],
 "Readers check the end of the input and the total length in the header against what was decoded.",
 "position in the compressed stream")
p("C13","Failures of input, output, memory and options are reported",
 "If a read, write, open or close fails, if space for the output or memory runs out, or if an option is not valid, the tools end with a non-zero exit status (or, if the fault had no effect, with the correct output); they never report success for a wrong or incomplete output.",
 ["fault_sequences","inputs","configurations"],"every system call of every run failing, every output size limit, every memory limit, every invalid option value",
 "The tests never inject a fault; each run makes dozens of calls of which each can fail in several ways.",
 ["Streams.cpp","Streams.hpp","compress.cpp","uncompress.cpp","bwtransforms/Divsufsorter.hpp","bwtransforms/SA-IS-bwt.cpp","preprocess.cpp","postprocess.cpp"],
 "Streams check the result of each call and end the program, main checks the options, the transformers check their results.",
 "stream state, exit status")
p("C14","Blocks partition the input in order within the memory limit",
 "The blocks and slices of an archive follow each other in the order of the input without gap or overlap, each no larger than the memory limit given with -m (or -b) allows, the last one ends the input, and the archive ends with the terminating empty block. compress works within memory proportional to -m whatever the size of the input.",
 ["inputs","configurations"],"every input length relative to the block size, every -m, -b, -p",
 "Default block sizes are far above any input of the tests, so that they never see a second block.",
 ["Compressor.cpp","PrecompressorBlock.cpp","preprocessors/Precompressor.cpp","preprocess.cpp","BWTBlock.cpp"],
 "Compressor computes block sizes from the memory limit, reads block by block and slices what is left by the preprocessing.",
 "block boundaries")
p("C15","The sizes and block counts told to the user are true",
 "What compress and preprocess tell at verbosity 1 is true for every input: the compressed size is the number of bytes written to the archive, the total size is the number of bytes read, and the number of blocks is the number of blocks in the output.",
 ["inputs","configurations"],"every input, option combination and tool",
 "The tests do not look at what is printed nor at the size fields.",
 ["compress.cpp","uncompress.cpp","Compressor.cpp","Decompressor.cpp","preprocess.cpp","postprocess.cpp"],
 "Counts bytes at every stage, writes size fields back after the data and prints the sums.",
 "byte and block counters")
p("C08","The range coder returns every bit and ends where the encoder ended",
 "For every sequence of bits with probabilities from 0 to 4096 (bits that the model called impossible included), the decoder fed with the same probabilities returns the same bits, and reads exactly the bytes that the encoder wrote and counted, so that further data can follow. The bytes are those of the format's range coder.",
 ["inputs","histories"],"every sequence of bits and probabilities, every number of sequences in one stream",
 "The tests code a few thousand random bits with one model; carry-less coders fail when low and high stay on both sides of a byte boundary for long or when a probability is extreme.",
 ["BitCoders.cpp","BitCoders.hpp"],
 "Encoder and decoder narrow the same 32-bit interval, shift out leading bytes that agree, and the encoder ends with as many bytes as the decoder has read ahead.",
 "low, high, next bytes, counter")
p("C09","Probability models stay in step and never exclude a bit",
 "After any history of bits, every probability model tells exactly the probability that its definition in the format gives, which is never 0 nor 4096 of 4096; encoder and decoder copies that see the same bits tell the same, and resetting puts back the probabilities that the format defines (FSM8 and SimpleMarkov keep the state they are in).",
 ["inputs","histories"],"every history of bits and resets, every model",
 "A test follows one history; the interesting states (saturated counters, long runs, states reached after resets) need particular long histories.",
 ["probmodels/ProbabilityModel.cpp","probmodels/ProbabilityModel.hpp","probmodels/BitPredictors.hpp","probmodels/FSM.hpp"],
 "Shift-updated predictors, finite state predictors and a history-indexed table, updated after each bit.",
 "predictor values, history register, FSM state")
p("C10","Integer and prefix codes are decodable and as short as told",
 "For every value in range, the gamma, packed-integer, binary, interpolative, fixed and tree-shape codes are decoded to the same value whatever follows them, consuming exactly the bits written, and the lengths told beforehand are true. For every frequency table the code lengths form a complete prefix code of the least total length, codewords are canonical and prefix-free, and run lengths count the text.",
 ["inputs"],"every value and sequence in range, every frequency table",
 "The tests use a few values; the codes change shape at powers of two, at the ends of ranges, with one symbol or with very skewed frequencies.",
 ["Utils.cpp","Utils.hpp","BitCoders.cpp","WaveletTree.hpp","HuffmanCoders.cpp"],
 "Self-delimiting codes: unary length then bits, middle element first with shrinking ranges, code lengths by merging the least frequent.",
 "bit position")
p("C11","Streams deliver every byte and bit once and in order",
 "Whatever mixture of bytes, bits, flushes, blocks and patches of earlier positions is written to an output stream, the target gets exactly those, in order, for files, pipes and appended files; whatever mixture is read from an input stream, it gets the bytes of the source once and in order, however they are delivered, and reading beyond the end is an error and never invented data.",
 ["inputs","schedules","histories"],"every sequence of operations across the buffer boundaries, every kind of source and target, every chunking of the delivery",
 "The tests write a few bytes to regular files; the boundaries of the buffers, partial bytes and interleaved patches come with longer sequences.",
 ["Streams.cpp","Streams.hpp"],
 "Buffers of fixed size with partial bytes, refilled by reads of arbitrary size, and positions that are patched after the data.",
 "buffers, bit position, file position")
p("C18","The frequency table stays sorted and forgets removed keys",
 "After any sequence of decreases, increases and removals the frequency table holds the keys that were not removed with their current frequencies, in ascending order of frequency, and lookups by key agree with the positions; copies are equal and independent.",
 ["inputs","histories"],"every initial table and every sequence of operations",
 "The tests make a handful of operations; ties, keys at both ends and operations after removals need particular sequences.",
 ["preprocessors/FrequencyTable.cpp","preprocessors/FrequencyTable.hpp"],
 "An array kept sorted by moving the changed entry, with an inverse index of locations.",
 "m_frequencies, m_location, m_last")
p("C07","Grammars keep the meaning of texts, also when written and read",
 "However the grammar of a block grows over the rounds of preprocessing (symbols freed, variables freed again, variables that become special symbols), every symbol and variable keeps the meaning it had, on the right sides of rules too. A grammar that was written and read again is the same grammar, takes exactly the bytes told, and the postprocessor expands every text by its rules.",
 ["inputs","histories"],"every sequence of legal rounds (freed, special and free symbols, pairs) and every text over the alphabet of the grammar",
 "The tests add a handful of rules in one round; promotion of variables, right sides that grow, the numbering of pairs and counts above 127 need several rounds or hundreds of symbols.",
 ["preprocessors/Grammar.cpp","preprocessors/Grammar.hpp","preprocessors/Postprocessor.cpp"],
 "Rules refer to symbols that later rounds rename; the reader infers from the order of special pairs which of them are variables.",
 "special symbols, pair replacements, rules, right sides, frequencies")
p("C17","Every well-formed archive is decoded, whoever wrote it",
 "uncompress decodes every well-formed archive of the format to its meaning, and postprocess every well-formed preprocessed file: whichever complete prefix codes for bytes and run lengths, parameter of the fixed code, division into blocks, slices and sections (empty sections included), number of starting points and grammar its writer chose, not only those that today's compress would choose.",
 ["inputs","histories"],"every plan of an archive: texts, grammars, division into blocks, slices and up to 256 sections, complete codes of the bytes and run lengths that occur (run lengths may be left to the escape), coders",
 "The tests decode only what the encoder of the same build wrote; archives from versions with other heuristics for sections and codes have to stay readable, and no encoder here produces them.",
 ["Decompressor.cpp","WaveletCoders.cpp","HuffmanCoders.cpp","WaveletTree.hpp","BWTBlock.cpp","PrecompressorBlock.cpp","preprocessors/Grammar.cpp","preprocessors/Postprocessor.cpp","bwtransforms/MtlSaInverseBWT.cpp"],
 "The decoder takes codes, section sizes, starting rows and the grammar from the archive instead of deriving them.",
 "the archive on disk, entropy models, section table")
p("C16","Encoder and decoder objects stay in step over any sequence of blocks",
 "An entropy encoder that is given any sequence of blocks, and a decoder of the same kind that reads what it wrote, stay in step: each block comes back with its starting points, exactly the bytes written for it are read, and transformAndEncode returns their number. Other encoders, decoders and compressors used in between change nothing. Compressor and Decompressor with any memory limit (blocks and slices down to a few bytes) restore the input and return the sizes of archive and data.",
 ["inputs","histories","schedules"],"every kind of coder, every sequence of blocks, every interleaving of several objects, every memory limit from 100 bytes",
 "The tests use each object for one block; state that leaks from block to block or between objects (models, counters, positions, static tables) needs a history of several.",
 ["WaveletCoders.cpp","HuffmanCoders.cpp","EntropyCoders.hpp","Compressor.cpp","Decompressor.cpp","BitCoders.cpp","WaveletTree.hpp","PrecompressorBlock.cpp"],
 "The models of a wavelet coder go on from section to section and from block to block on both sides; lengths and counters start again with each block.",
 "probability models, compressed length, bytes counted by the range coder")
if __name__=="__main__":
    P.sort(key=lambda x:x['id'])
    open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
    print({x["id"]:len(x["title"]) for x in P})
