#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
B = "src/bin/"
C = "src/core.rs"
W = "src/word.rs"
I = "src/io.rs"

p("C01", "The suffix-array BWT is the Burrows-Wheeler transform",
  "For every zero-free byte text, the `bwt` program (and the library's suffix-array BWT of the text followed by one zero byte) outputs the last column of the sorted rotations of text+zero byte: n+1 bytes, a permutation of text+zero, from which the text can be recovered. "
  "With `--no-dollar` the output for a non-empty text is, in the order of the sorted suffixes, the byte cyclically preceding each suffix, and a zero byte is accepted only as the last byte.",
  ["inputs", "configurations"], "all byte texts without zero bytes (with --no-dollar: non-empty, zero at most at the end), all 255 byte values, short and long texts",
  "one test looks only at the number of runs for seven Fibonacci words; the transform of arbitrary texts, bytes >= 128 and the program itself are never compared with the definition",
  [C, B+"bwt.rs"], [("bwt_from_text_by_sa", C), ("main of bwt", B+"bwt.rs")], observe=["stdout of bwt", "return value of the library function"])
p("C02", "The matrix BWT sorts all conjugates, for the slow and the fast algorithm",
  "For every non-empty byte text over any byte values, the library's naive matrix BWT and its fast matrix BWT both equal the last column of the lexicographically sorted conjugates of the text, so they agree with each other and give the same result for all conjugates of the same word. "
  "`bwt --use-matrix` outputs that transform of text+zero byte (of the text alone with `--no-dollar`) whatever the length of the text.",
  ["inputs", "configurations"], "all non-empty byte texts, primitive or not, with or without zero bytes, below and above the length at which the program switches algorithm",
  "the test compares the two algorithms with each other on binary numerals of at most 11 letters over {1,2}; neither is compared with the definition, and the program's own path for long texts is never run",
  [C, B+"bwt.rs", B+"count_r.rs"], [("bwt_by_matrix, bwt_by_matrix_naive", C), ("length switch", B+"bwt.rs")], observe=["stdout of bwt -u", "library return values"])
p("C03", "count_r reports the number of runs of exactly the BWT it names",
  "For every admissible input and every combination of `--use-matrix` and `--no-dollar`, `count_r` prints one RESULT line whose bwt_runs is the number of maximal equal-letter runs of the corresponding Burrows-Wheeler transform (the one `bwt` writes with the same options) and whose length is the length of that transform.",
  ["inputs", "configurations"], "all admissible texts x 4 flag combinations",
  "there is no test of count_r; the run counter is only tested on even Fibonacci words",
  [B+"count_r.rs", C], [("main of count_r", B+"count_r.rs"), ("number_of_runs", C)], observe=["RESULT line of count_r"])
p("C04", "The bijective BWT orders the conjugates of all Lyndon factors and is bijective",
  "For every non-empty text the bijective Burrows-Wheeler transform consists of the last letters of all conjugates of all factors of the text's Lyndon factorization, sorted by comparing their infinite repetitions. "
  "It is a permutation of the text's letters, different texts of the same length have different transforms, and for a Lyndon word it equals the matrix BWT.",
  ["inputs"], "all non-empty texts over ordered alphabets",
  "the bijective BWT has no test at all; injectivity is a statement about all pairs of texts",
  [C], [("bbwt_naive", C), ("duval", C)], observe=["library return value"])
p("C05", "Lyndon factorization is the unique non-increasing one, in library and program",
  "For every non-empty text over any ordered symbol type the reported ending positions split the text into its unique factorization into lexicographically non-increasing Lyndon words, and the variant computed from the inverse suffix array reports the same positions. "
  "`lyndonfactorization` reports the number of factors and the text length, its debug log lists all ending positions, and with `-o` it writes each factor's exact bytes under a header giving its number and its half-open range, except that a last factor consisting of a zero byte is left out.",
  ["inputs", "configurations"], "all non-empty texts (the debug-log check and the inverse-suffix-array variant included), all output options",
  "the test compares the two algorithms with each other on binary numerals of length <= 11; the program and its output file are never run",
  [C, B+"lyndonfactorization.rs"], [("duval", C), ("isa_lyndon_factorization", C), ("main", B+"lyndonfactorization.rs")], observe=["library return values", "RESULT line", "output file", "debug log on stderr"])
p("C06", "The Lyndon conjugate is a least rotation; conjugates are enumerated completely",
  "For every non-empty text the reported conjugate start is a valid position at which rotating the text gives its lexicographically least rotation. "
  "Iterating over the conjugates of a text of length n yields exactly n words, the i-th being the text rotated to start at position i, and then ends; the empty text yields none.",
  ["inputs"], "all texts over any ordered alphabet, primitive or not",
  "the test uses binary numerals of length <= 11 that all end in a unique smallest letter; powers, general words and the iterator are not covered",
  [C], [("lyndon_conjugate", C), ("ConjugateIterator", C)], observe=["library return values"])
p("C07", "Border array, smallest period and primitivity are exact",
  "For every text of length n the border array has n+1 entries, whose entry i (for i >= 1) is the length of the longest proper border of the prefix of length i. "
  "The smallest period derived from it is the least p >= 1 with text[j] = text[j+p] for all valid j, and a non-empty text is reported primitive exactly if it is not a power u^k with k >= 2.",
  ["inputs"], "all texts over any symbol alphabet",
  "the tests check that reported borders and periods are borders and periods, not that they are the longest and smallest, and never call the primitivity predicate",
  [C], [("border_array", C), ("smallest_period", C), ("is_primitive", C)], observe=["library return values"])
p("C08", "The necklace predicate accepts exactly the prefixes of necklaces",
  "For every byte sequence and every length n >= 1 up to its length, the necklace predicate looks at the first n symbols only and returns true exactly if they are a prefix of some power of a Lyndon word, as the unit tests fix it (they accept `aba`); in particular it accepts every least rotation and rejects every word with a rotation that is smaller at some position before wrapping around. "
  "The answer does not depend on the container (slice, vector or deque) the symbols are stored in.",
  ["inputs"], "all byte words, all n, contiguous and wrapped-around containers",
  "eleven hand-picked words of length <= 5 are tested",
  [W], [("is_necklace", W)], observe=["library return value"])
p("C09", "Suffix array, inverse, Phi, PLCP and LCP arrays satisfy their definitions",
  "For every non-empty text: the naive suffix array lists all suffix starts in lexicographic order; the inverse permutation inverts every permutation; Phi maps each suffix to its predecessor in the suffix array and the first one to the last; "
  "the PLCP value of a position is the length of the longest common prefix with its suffix-array predecessor (0 for the smallest suffix), the LCP array is PLCP in suffix-array order, and the BWT taken from a suffix array is the letter cyclically preceding each suffix.",
  ["inputs"], "all non-empty texts over all byte values, with or without a terminating sentinel; all permutations; all supported index types",
  "these routines are only exercised indirectly through factor counts of binary numerals that end in a unique zero",
  [C], [("suffixarray_naive", C), ("inverse_permutation", C), ("compute_phi", C), ("compute_plcp", C), ("compute_lcp", C), ("bwt_from_sa", C)], observe=["library return values"])
p("C10", "Previous and next smaller value arrays are exact",
  "For every non-empty array of ordered values, the entry i of the previous (next) smaller value array is the largest index left of i (smallest index right of i) holding a strictly smaller value, and the invalid marker if there is none.",
  ["inputs"], "all non-empty arrays, with repeated values, of any ordered type",
  "only exercised indirectly through LZ77 on 11-letter numerals, always on permutations",
  [C], [("compute_psv", C), ("compute_nsv", C)], observe=["library return values"])
p("C11", "count_z computes the greedy LZ77 factorization, which decodes to the text",
  "For every non-empty byte text `count_z` reports the number of factors of the greedy left-to-right factorization in which each factor is the longest prefix of the remaining text that also starts at an earlier position (overlaps allowed), or a single fresh letter. "
  "The factor list written with `-o` has that many pairs, (byte,0) for a fresh letter and (distance,length) otherwise, every pair has the maximal length, and decoding the pairs gives back the text.",
  ["inputs"], "all non-empty byte texts, with or without terminator, all 256 byte values",
  "the test only decodes the factors of binary numerals (length <= 11); maximality, the factor file and the program are not tested",
  [B+"count_z.rs", C], [("compute_lz77", B+"count_z.rs"), ("psv/nsv, lcp, range minimum", C)], observe=["RESULT line", "factor file"])
p("C12", "count_lexparse computes the lex-parse, which decodes to the text",
  "For every non-empty byte text `count_lexparse` reports the number of phrases of the lex-parse: from left to right each phrase is the longest common prefix of the remaining text with the suffix preceding it in lexicographic order, or a single letter if that is empty. "
  "The phrase list written with `-o` has that many pairs, (byte,0) for a letter and (source position,length) otherwise, and following the sources gives back the text without cycles.",
  ["inputs"], "all non-empty byte texts, with or without terminator, all 256 byte values",
  "there is no test of lex-parse at all",
  [B+"count_lexparse.rs", C], [("compute_lexparse", B+"count_lexparse.rs"), ("compute_phi, compute_plcp", C)], observe=["RESULT line", "phrase file"])
p("C13", "mus lists exactly the minimal unique substrings",
  "For every zero-free byte text (including the empty one) `mus` reports, in increasing order of position, exactly the pairs (start,length) of substrings that occur once in the text while both substrings obtained by dropping their first or last letter occur more than once (the empty word counts as occurring more than once).",
  ["inputs"], "all zero-free byte texts",
  "only thirteen Fibonacci words with two minimal unique substrings each are tested, and not through the program",
  [B+"mus.rs", C], [("get_mus and sentinel handling", B+"mus.rs"), ("lcp arrays", C)], observe=["RESULT line"])
p("C14", "entropy reports the k-th order empirical entropy of text plus terminator",
  "For every zero-free byte text, its prefix and every order k, `entropy` reports (up to floating-point rounding) the k-th order empirical entropy of the text followed by one zero byte: the sum over all contexts w of length k of |T_w| H_0(T_w), T_w being the letters following the occurrences of w, divided by the total length; k=0 gives H_0. "
  "Texts shorter than the context length have entropy 0.",
  ["inputs", "configurations"], "all zero-free byte texts x all orders k >= 0",
  "the test knows closed formulas for a^n and (ab)^n only; grouping of contexts for general texts, order 0 through the program and degenerate lengths are not tested",
  [B+"entropy.rs", C], [("kth_order_entropy, zero_order_entropy", B+"entropy.rs")], observe=["RESULT line"])
p("C15", "entropy_kmer agrees with the definition of entropy for every order 1 to 7",
  "For every zero-free byte text and every order 1 <= k <= 7, `entropy_kmer` reports the same k-th order empirical entropy of text+zero byte as the definition (and as `entropy`) up to floating-point rounding, and a length of n+1; orders outside 1..7 are refused.",
  ["inputs", "configurations"], "all zero-free byte texts x orders 1..7 (and refused orders), any hash-map iteration order",
  "the test knows closed formulas for a^n and (ab)^n and k <= 6; order 7, texts shorter than k, bytes >= 128 and the hash order are not covered",
  [B+"entropy_kmer.rs"], [("entropy_via_kmer_counting", B+"entropy_kmer.rs")], observe=["RESULT line", "exit status"])
p("C16", "is_stringattractor decides the string-attractor property",
  "For every non-empty zero-free byte text and every set of in-range positions (0-based), `is_stringattractor` exits with 0 and says valid exactly if every non-empty substring of the text has an occurrence containing one of the positions, otherwise exits with 2, says it is not valid, and every substring it prints as uncovered is indeed an uncovered substring. "
  "Positions beyond the terminated text are refused with status 1.",
  ["inputs", "configurations"], "all non-empty zero-free texts x all position sets",
  "two families of true attractors are tested; no negative answer and no general text is",
  [B+"is_stringattractor.rs", C], [("lcp_intervals, is_attractor", B+"is_stringattractor.rs")], observe=["exit status", "stdout"])
p("C17", "count_sigma counts the distinct bytes",
  "For every byte input, including the empty one and those using all 256 byte values, `count_sigma` reports the number of distinct byte values (of the chosen prefix) and its length.",
  ["inputs"], "all byte texts, every subset of the 256 byte values",
  "four strings with at most three letters are tested",
  [B+"count_sigma.rs"], [("count_sigma", B+"count_sigma.rs")], observe=["RESULT line"])
p("C18", "Run counting counts maximal runs of equal bytes",
  "For every byte input `count_runs` prints, and the library's run counter returns, the number of maximal runs of equal bytes; 0 for empty input.",
  ["inputs"], "all byte strings, runs of any length",
  "only used on even Fibonacci words (answer 2)",
  [C, B+"count_runs.rs"], [("number_of_runs", C), ("read_char", I)], observe=["stdout of count_runs", "library return value"])
p("C19", "Run-length encodings are lossless for every run length",
  "For every byte input, decoding the output of `rle` (pairs letter, run length minus one), of `rle --onlyzero` (the same pairs for the character '0' only, all other bytes copied) and of `rle --human` (parenthesised character,count) gives back the input. "
  "No run is split unless it exceeds the 256 letters a pair can express (never with --human), so the number of pairs is minimal.",
  ["inputs", "configurations"], "all byte strings, runs of length 1..several hundred, the three modes",
  "rle has no test, and the program cannot even be started in the original tree",
  [B+"rle.rs", I], [("rle, rle_zero, rle_text", B+"rle.rs")], state=[("run counter", "length of the current run", B+"rle.rs")], observe=["stdout / output file"])
p("C20", "mtf is the move-to-front transform over all 256 bytes",
  "For every byte input `mtf` writes one byte per input byte: the current rank of that byte in a list initially holding 0..255 in increasing order and updated by moving the byte to the front. Hence decoding gives back the input.",
  ["inputs"], "all byte strings over all 256 byte values",
  "five words over {a,b} are tested",
  [B+"mtf.rs"], [("mtf", B+"mtf.rs")], state=[("mtfvector", "recency list", B+"mtf.rs")], observe=["stdout / output file"])
p("C21", "escape removes the listed bytes and its reversion restores the input",
  "For every byte input and every accepted choice of escape byte e, from-list f_1..f_m and to-list t_1..t_m (comma-separated or repeated options), `escape` replaces each f_i by the pair e t_i and each e by e e and copies all other bytes, so no from-byte occurs in its output; running it with `--is-reversion` and the same lists restores the input exactly. "
  "Choices for which that would be impossible (lists of different length, overlapping lists, e in a list, a repeated target for different sources) are refused, and the README pipeline `escape -f 0 -t 255 -e 254 | count_r` works for every input.",
  ["inputs", "configurations"], "all byte inputs x all accepted and refused symbol choices",
  "escape has no test; with the documented default arguments the original tree outputs nothing",
  [B+"escape.rs", I], [("mapping loops and sanity checks", B+"escape.rs")], observe=["stdout", "exit status"])
p("C22", "reverse outputs the input bytes in reverse order",
  "For every byte input `reverse` outputs exactly its bytes in reverse order, so applying it twice is the identity.",
  ["inputs"], "all byte strings", "reverse has no test", [B+"reverse.rs", I], [("main of reverse", B+"reverse.rs")], observe=["stdout / output file"])
p("C23", "Fibonacci-like and Thue-Morse-like words are the iterates of their morphisms",
  "For every order k the Fibonacci (a->ab,b->a), tribonacci (a->ab,b->ac,c->a), Thue-Morse (a->ab,b->ba), period-doubling (a->ab,b->aa) and ternary Thue-Morse variant (a->abc,b->ac,c->b) words are the k-fold image of `a`, and the k-th Fibonacci Lyndon factor is the k-fold image of `ab` under a->aab,b->ab, in the library and through `word`; the library's morphism functions are these morphisms and the Fibonacci and tribonacci number functions return the lengths of the corresponding words.",
  ["inputs"], "all orders k whose word fits in memory, all six names",
  "small orders are tested (mostly k <= 6, lengths to k < 16) and the program's name-to-word table is never run",
  [W, B+"word.rs"], [("fibonacci_word, thuemorse_word, iterate_* helpers", W), ("name table", B+"word.rs")], observe=["library return values", "stdout of word"])
p("C24", "Kolakoski, paperfolding and powers-of-two words match their definitions",
  "For every order k: the Kolakoski word starts as bb and its (k+1)-st word is the word of alternating runs b,a,b,... whose run lengths (a=1,b=2) are spelled by the k-th; the paperfolding word consists of the first 2^(k+1) terms of the regular paperfolding sequence over {0,1} and the quaternary word encodes its pairs (d=11,b=01,c=10,a=00); the powers-of-two word has length 2^k and a `b` exactly at the 1-based positions that are powers of two and `a` elsewhere.",
  ["inputs"], "all orders k whose word fits in memory",
  "Kolakoski is checked on 105 letters, paperfolding on 99, the powers-of-two sequence not at all",
  [W, B+"word.rs"], [("kolakoski_word, paperfolding_word, quaternary_paperfolding_word, power2_sequence", W)], observe=["library return values", "stdout of word"])
p("C25", "Binary de Bruijn words contain every block exactly once",
  "For every order k the binary de Bruijn word is a word over {a,b} of length exactly 2^(k+1) in which, read cyclically, each of the 2^(k+1) binary blocks of length k+1 occurs exactly once.",
  ["inputs"], "all orders k whose word fits in memory",
  "the test checks that no block repeats within the (non-cyclic) word for 2 <= k < 10 but not that the word has the right length, so a sequence that stops early passes",
  [W, B+"word.rs"], [("binary_debruijn_word", W), ("is_necklace", W)], observe=["library return value", "stdout of word"])
p("C26", "Lyndon words are enumerated completely, once, in lexicographic order",
  "For every maximal length n and alphabet size s >= 1 the Lyndon word generator yields every Lyndon word of length at most n over the letters 0..s-1 exactly once, in lexicographic order, and then ends for good; `lyndonwords` prints exactly these words, one per line, with letters starting at `a` (s <= 26).",
  ["inputs", "configurations"], "all (n,s) including n=0 and s=1",
  "the generator and the program have no test",
  [C, B+"lyndonwords.rs"], [("LyndonWordGenerator", C)], state=[("m_stack", "current word", C)], observe=["iterator items", "stdout of lyndonwords"])
p("C27", "String enumerations are complete, ordered and free of repetitions",
  "`enumerate s l [m]` prints, for each length from l to m, all words of that length over the first s letters in lexicographic order, each exactly once, and refuses s outside 1..26, l = 0 and m < l; the binary string iterator yields, for n up to 63, all 2^n strings over {0,1} of length n in lexicographic order and then ends; `generator_kmer` prints each of the 4^8 words of length 8 over a..d exactly once.",
  ["inputs", "configurations"], "all alphabet sizes and lengths", "none of the three has a test",
  [B+"enumerate.rs", C, B+"generator_kmer.rs"], [("enumerate_for_length", B+"enumerate.rs"), ("BinaryStringGenerator", C)], observe=["stdout", "exit status", "iterator items"])
p("C28", "Results depend only on the input bytes, not on how they are delivered",
  "For every program that reads a text, the result is the same whether the bytes come from standard input or a file named with `-i` (apart from the file name shown), from a regular file, a pipe or a named pipe, and however reads are split into short reads or interrupted by signals.",
  ["inputs", "schedules", "configurations"], "all input-reading programs x inputs x delivery channels x all placements of short or interrupted reads up to a deviation bound",
  "no test reads from a file or standard input", [I, C] + [B+x+".rs" for x in ("rle", "mtf", "escape", "count_runs")],
  [("file2byte_vector, stdin2byte_vector, read_char, stream_or_stdin", I)], observe=["stdout", "exit status"])
p("C29", "The prefix option is the same as cutting the input",
  "For every program with a prefix-length option, running it with prefix length p > 0 on a text gives the same answer as running it without the option on the first min(p,n) bytes of the text, for standard input and files alike; 0 or no option means the entire text.",
  ["inputs", "configurations"], "all programs with the option x texts x p from 0 to beyond the text length, both channels (encoding direction for escape)",
  "the option is never tested", [I, B+"escape.rs", B+"lyndonfactorization.rs"], [("file2byte_vector, stdin2byte_vector", I), ("loop bound", B+"escape.rs")], observe=["stdout", "exit status"])
p("C30", "Output files receive exactly the bytes that would go to standard output",
  "For every program that transforms or generates text with an output-file option, the file named with `-o` ends up holding exactly the bytes the program would write to standard output, replacing any previous content, with nothing on standard output, and short or interrupted writes do not change what is delivered on either channel (`lyndonfactorization`, whose file holds the factors, keeps its record on standard output).",
  ["inputs", "schedules", "configurations"], "all programs with an output option x inputs x all placements of short or interrupted writes up to a deviation bound x pre-existing longer file content",
  "no test writes a file", [I] + [B+x+".rs" for x in ("bwt", "reverse", "rle", "mtf", "escape", "word", "lyndonwords")],
  [("stream_or_stdout", I), ("write_all/flush in each main", "src/bin")], observe=["output file", "stdout", "exit status"])
p("C31", "A successful exit means all input was read and all output was delivered",
  "If opening or reading the input, or opening or writing the output (file or standard output), fails at any point, including device-full, I/O error, broken pipe, missing file and directory given as file, the program ends with a non-zero status instead of reporting success with missing or truncated results.",
  ["fault_sequences", "inputs"], "all programs x every single open/read/write of their execution failing, also after earlier short or interrupted transfers",
  "no test injects a failure", [I, C] + [B+x+".rs" for x in ("word", "lyndonfactorization", "randomstring", "rle", "mtf", "escape")],
  [("unwrap on I/O results, flush before exit", "src/bin"), ("read_char", I)], observe=["exit status", "stdout / output file"])
p("C32", "randomstring respects length and alphabet bound for all random draws",
  "For every sequence of random draws, `randomstring` outputs exactly the requested number of ASCII alphanumeric characters with at most the requested number of distinct ones (no bound if the alphabet size is 0), and until the bound is reached it imposes no restriction on the drawn characters.",
  ["inputs", "configurations"], "all draw sequences of a random source, all lengths and alphabet sizes",
  "the program has no test, and a test would see one random outcome", [B+"randomstring.rs"], [("charset bound loop", B+"randomstring.rs")], state=[("charset", "letters used so far", B+"randomstring.rs")], observe=["stdout / output file"])
p("C33", "enumerate_lexparse reports true record gaps between alphabet orders",
  "The lines printed by `enumerate_lexparse` are, in order of enumeration of the binary words of length 32, exactly those words whose number of lex-parse phrases (with terminator) differs between the two alphabet orders by at least the largest difference so far; each line shows that difference and the word under the order with fewer and under the order with more phrases.",
  ["inputs"], "the words enumerated, as far as the program is run (the full enumeration has 2^32 words)",
  "no test; the program does not terminate in reasonable time", [B+"enumerate_lexparse.rs", C], [("main", B+"enumerate_lexparse.rs")], observe=["stdout"])
p("C34", "RESULT lines are well-formed records describing the run",
  "For every input and option choice each analytic program that succeeds prints exactly one line starting with RESULT, made of space-separated key=value fields (sqlplot format; the substring list of `mus` is its last field), in which algo and order, where present, name the computation, length is the number of bytes analysed (including the appended zero byte where the program appends one to transform it: bwt runs with dollar and both entropies), the input-file field is the given name or `none`, and time_ms is a non-negative integer, the elapsed time of the computation in whole milliseconds.",
  ["inputs", "configurations"], "all analytic programs x inputs x option combinations",
  "no test looks at the printed record", [B+x+".rs" for x in ("count_r", "count_sigma", "count_z", "count_lexparse", "entropy", "entropy_kmer", "lyndonfactorization", "mus")],
  [("println of RESULT", "src/bin"), ("get_filename", C)], observe=["stdout"])
p("C35", "Logging level, hash seeds and repetition never change a result",
  "Apart from `randomstring` and the time_ms field, every program is a function of its arguments and input: standard output, output file and exit status are the same for every RUST_LOG setting, every random hash seed and every repetition (entropies up to floating-point rounding).",
  ["inputs", "configurations"], "all programs x inputs x log levels x hash seeds",
  "tests run library routines without a logger and with one hash seed per process", ["src/bin", C], [("info!/debug! blocks, HashMap iteration", "src/bin")], observe=["stdout", "output file", "exit status"])
p("C36", "Texts with zero bytes are refused where the algorithm cannot handle them",
  "When the text contains a zero byte anywhere (before the terminator the program appends, or before the last position with `--no-dollar`), the suffix-array modes of `bwt` and `count_r` and `entropy` of order >= 1 end with a non-zero status and without any result on standard output or in the output file.",
  ["inputs", "configurations"], "all texts containing zero bytes x all positions and counts of zero bytes",
  "no test passes a zero byte in the middle of a text", [C, B+"entropy.rs", B+"bwt.rs", B+"count_r.rs"], [("assertion on zero bytes", C)], observe=["exit status", "stdout"])

p("C37", "Spelling and order of options are irrelevant; malformed ones are refused",
  "For every program, the order of the options and their spelling (short or long name, value as next argument, attached or after `=`, short options joined, list options repeated, comma-separated or with several arguments where the program has such lists) do not change standard output, output file or exit status. A command line with an unknown option, a stray argument, a missing or unusable value, a single-valued option given twice or a required option left out ends with a non-zero status, prints nothing on standard output and leaves the output file as it was; help and version requests succeed without computing anything.",
  ["configurations"], "all sets of options x orders x spellings; all single malformations",
  "no test runs a program; clashing or missing option names only show up for particular combinations (rle could not start at all)", ["src/bin"], [("clap option declarations", "src/bin")], observe=["stdout", "output file", "exit status"])
p("C38", "Generated test texts are terminated, and bit sizes are exact",
  "The bit size of a number is the least b with number < 2^b. For every range a..b and every letter width w from 1 to 7 bits, the test string generator yields one text for each of the numbers a, a+1, ... whose double is below b and then ends for good; every text consists of letters from 1 to 2^w followed by its only zero byte, so that it can be given to the algorithms that need a unique terminator, the text for the number x has at most s/w letters for the bit size s of x+1, and all yields are reproducible.",
  ["inputs"], "all numbers around powers of two; all ranges and widths within bounds",
  "the generator feeds the other tests and is itself untested", [C], [("bit_size", C), ("RandomStringGenerator::next", C)], observe=["yielded texts"])

p("C39", "Programs touch no file but the output they name and read only their input",
  "Whatever its input, options, log level and whatever read, write or open call fails: running a program changes, creates, removes or renames no file other than the one named by --outfilename; without that option the file system is left as it was. The input file, files with similar names, the working directory and temporary directories stay untouched (contents, mode, modification time), also when the run fails or its command line is refused. "
  "A program that is given --infilename (or needs no text) does not consume its standard input, and one that is not given it opens no file as input.",
  ["inputs", "configurations", "fault_sequences"], "all programs x option forms x ways of input and output x single faults and malformed command lines",
  "no test runs a program at all", ["src/bin", I], [("stream_or_stdout, stream_or_stdin, file2byte_vector", I)], observe=["file tree before and after", "calls made by the program"])
p("C40", "Library calls and generators do not influence each other",
  "The result of every public library function depends on its arguments only (for the readers: on the contents of the file at the time of the call): it is the same as the first call of a process, after any sequence of other calls with other texts or numbers (also calls that refused their arguments or were left by a panic), inside the comparison, reader or index callbacks of other calls, and while generators are half used. "
  "Generators that are alive at the same time are independent: however their steps and other calls are interleaved, each yields the sequence it would yield alone, and a new generator always starts from the beginning.",
  ["histories", "schedules"], "all call sequences and all interleavings of generator steps up to the bounds",
  "tests call functions one after the other in loops and never compare with a fresh process; caches, reused buffers and shared counters only show up for particular sequences", [C, W, I], [("public functions and iterators", C), ("word generators", W), ("readers", I)], observe=["return values", "yielded items"])

p("C41", "The shell scripts and the pipelines of programs deliver what they announce",
  "`compute_stats.sh FILE` ends successfully for every readable, non-empty text file without zero bytes and prints a header and one row, with as many values as columns: under each column's name stand the base name of the file, its length n, the number sigma of distinct bytes, the number z of LZ77 factors, the number r of runs of the BWT of the terminated text, and its entropies H_0 to H_4; without exactly one readable file it fails, gives a reason and prints no row. "
  "`gen_artificial.sh FOLDER` creates the folder if needed and puts into it, for each of its ten words and k = 00..20, the file NAME.KK with the k-th word, and nothing else. "
  "Programs can be chained: escaping zero bytes makes every text acceptable for `count_r`, which reports the runs of the escaped text, and can be reverted; generated words pass unchanged through reverse, bwt, mtf, rle and the analyses.",
  ["inputs", "configurations"], "files and names given to the scripts; texts and words given to the pipelines",
  "no test runs a script or connects two programs; the scripts named options and columns that did not exist or were swapped", ["compute_stats.sh", "gen_artificial.sh", "src/bin", C, W], [("compute_stats.sh", "compute_stats.sh"), ("gen_artificial.sh", "gen_artificial.sh")], observe=["table printed", "files created", "output of the pipeline"])
p("C42", "Linear algorithms stay linear, and programs cope with a million letters",
  "On every word of n letters, the Duval factorization, the border array, the primitivity test and the arrays of previous and next smaller values compare letters at most 16n+16 times, the Lyndon conjugate and the necklace test at most 32n+32 times (more than twice what the algorithms need). Every program for texts, with every choice of algorithm, ends successfully on texts of 2^20 letters of every degree of repetitiveness, without overflow of the stack and within 20 s of CPU time.",
  ["inputs"], "all words, permutations and arrays up to bounded length; structured families of long texts",
  "tests use short texts, on which a quadratic algorithm or a recursion as deep as the text is long goes unnoticed", [C, W, "src/bin"], [("duval, lyndon_conjugate, border_array, compute_psv, compute_nsv", C), ("is_necklace", W)], observe=["number of comparisons", "exit status", "CPU time"])
p("C43", "Debug and release builds of programs and library agree",
  "For every input, option and failing device, a program built with the release profile succeeds exactly when the same program built with the debug profile (overflow checks, debug assertions) does, and then writes the same bytes to standard output and output file (letters of `randomstring` and elapsed times apart). "
  "In particular arguments refused by the debug build, because a length or number does not fit, are refused by the release build, too, which neither computes something else nor crashes nor runs forever; every library function called within its domain returns the same value in both builds.",
  ["inputs", "configurations", "fault_sequences"], "all texts up to bounded length; extreme values of all numeric options; all points of failure of a program; all numbers up to 255 and around powers of two",
  "tests are built with the debug profile only; the enumeration of k-mers crashed in release builds, and words too long for memory came out as short ones", ["src/bin", C, W, "src/io.rs"], [("word, generator_kmer, lyndonwords", "src/bin"), ("fibonacci_number, tribonacci_number, power_of_two", W)], observe=["exit status", "standard output", "output file", "values returned by library functions"])
p("C44", "Library readers deliver every byte, outlive interruptions, hide no error",
  "Whatever sequence of bytes, interruptions, errors and end a reader answers with: `read_char` and `next_char` take exactly one byte from it per letter and deliver every byte in order, retry after interruptions, and report the end exactly when the reader is at its end; an error is returned by `read_char` with its kind and makes `next_char` and `number_of_runs` panic instead of ending the text early, and `number_of_runs` counts the runs of all bytes. "
  "The functions that read a named file deliver the whole contents of regular files, links and named pipes, or the first p bytes for a prefix length p > 0, and panic if the file is missing or cannot be read; two streams of a file are independent. "
  "`stream_or_stdout` of a name leaves exactly the bytes written to it in the file, whatever it held before, after a flush and after being dropped.",
  ["fault_sequences", "inputs"], "all sequences of reader answers, file contents, prefix lengths and write granularities within bounds; unusable files",
  "no test calls the readers with anything but complete slices in memory, and none opens a file", [I, C], [("read_char, next_char", I), ("file2byte_vector, stream_or_stdin, stream_or_stdout", I), ("number_of_runs", C)], observe=["return values", "panics", "position of the reader", "file contents"])
p("C45", "Only the order of letters matters, not which bytes or type they are",
  "Replacing the letters of a zero-free text by other non-zero bytes in the same relative order changes nothing in the counts, lengths, factors, positions, entropies and verdicts that the programs report, and renames the letters in the transforms accordingly (the terminator stays); for programs that only compare letters for equality (`count_z`, `mus`, `entropy`, `entropy_kmer`, `count_sigma`, `count_runs`, `is_stringattractor`, `reverse`) this holds for every one-to-one renaming. "
  "The generic functions of the library give the same result for every ordered letter type: bytes, signed or wide integers, characters, tuples, strings, reversed orders.",
  ["inputs", "configurations"], "all texts and renamings of their letters within bounds, all 255 bytes, several letter types",
  "tests use the letters a, b, c and small integers; the treatment of bytes from 128 on, of control characters and of other letter types goes unnoticed", [C, "src/bin"], [("generic functions", C), ("programs reading texts", "src/bin")], observe=["library return values", "standard output", "exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x, sch)
print(len(P), "properties")
