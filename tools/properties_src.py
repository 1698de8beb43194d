"""Source of properties.jsonl (run: python3 tools/properties_src.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

A = "apertium/"
prop("F01", "Deformat followed by reformat gives the document back",
 "For every supported document format (plain text, HTML with its noent and alt variants, RTF, ODT, DOCX-XML, PPTX, XLSX, MediaWiki, XPress Tags), passing a document through the deformatter and its output straight through the matching reformatter yields the original document: all markup byte for byte, all text intact, with differences at most in how a character is written (as itself or as the format's entity or escape for it). Documents of any length, and text containing the stream format's reserved characters, survive too.",
 ["inputs", "configurations"], "every valid UTF-8 (for RTF: RTF-escaped) document without NUL and outside the stream-private sequences (`[]`-markers the tools themselves insert), for every format with and without the deformatter's options",
 "Tests run one ODT file, one small HTML-alt snippet and a few shell cases; markup nesting, reserved characters in odd places, long superblanks (spilled to files above 8 KB) and format-specific tags are unbounded.",
 [A+"deformat.xsl", A+"reformat.xsl", A+"txt-format.xml", A+"html-format.xml", A+"html-noent-format.xml", A+"html-alt-format.xml", A+"rtf-format.xml", A+"odt-format.xml", A+"wxml-format.xml", A+"pptx-format.xml", A+"xlsx-format.xml", A+"mediawiki-format.xml", A+"xpresstag-format.xml"],
 [("superblank buffering and escaping", A+"deformat.xsl"), ("superblank unescaping", A+"reformat.xsl"), ("per-format rules", A+"*-format.xml")],
 ["stdin/stdout of apertium-des*/apertium-re*"])
prop("F02", "Deformatters emit a well-formed stream exposing exactly the text",
 "For every document, a deformatter's output is a well-formed Apertium stream: brackets balance, every reserved character outside blanks is escaped, markup appears only inside blanks (or word-bound blanks), and all translatable text appears outside them, in order, nothing lost, duplicated or invented except sentence-end markers. Markup that the format declares to end a sentence yields a sentence-end marker followed by a blank, and options that suppress the end-of-sentence marker suppress it.",
 ["inputs", "configurations"], "every document built from the markup each format declares, interleaved with arbitrary text",
 "The round trip alone cannot see text swallowed into superblanks or markup leaked as text, and tests look at a handful of documents.",
 [A+"deformat.xsl", A+"txt-format.xml", A+"html-format.xml", A+"html-noent-format.xml", A+"html-alt-format.xml", A+"odt-format.xml", A+"wxml-format.xml", A+"pptx-format.xml", A+"xlsx-format.xml", A+"rtf-format.xml", A+"mediawiki-format.xml"],
 [("reserved-character escaping", A+"deformat.xsl"), ("format rules, eos attribute", A+"*-format.xml")],
 ["stdout of apertium-des*"])
prop("F03", "LaTeX documents survive the LaTeX pipeline",
 "Running a LaTeX document through the LaTeX deformatting pipeline and straight back yields a document with the same commands, arguments, environments, maths, comments and text, in the same order, where only the notation of accented letters may change. Text inside ordinary paragraphs is exposed for translation while commands and maths are not.",
 ["inputs"], "every document built from the LaTeX constructs the format handles",
 "The LaTeX test checks a few lines.",
 [A+"apertium-prelatex.l", A+"apertium-postlatex.l", A+"apertium-postlatex-raw.l", A+"latex-format.xml", A+"latex_accentsmap.cc"],
 [("prelatex/postlatex scanners", A+"apertium-prelatex.l"), ("latex format rules", A+"latex-format.xml")],
 ["stdin/stdout of apertium-prelatex | deslatex | relatex | postlatex"])
prop("F04", "The DOCX adapter rearranges runs but never loses or invents text",
 "Adapting a DOCX document part (moving run boundaries out of words) leaves well-formed XML of the same paragraph structure in which every paragraph reads exactly the same text as before; a word that only adjacent plain runs make up ends up in one run, with the formatting of its first letter, and every other character keeps its formatting. Everything that is not a text run (drawings, tabs, breaks, links, bookmarks, properties) is kept in its paragraph in order, and no text moves over what is shown.",
 ["inputs"], "every WordprocessingML document part with any split of words over runs, with any formatting",
 "Two fixed documents are tested.",
 [A+"adapt_docx.cc"], [("run merging", A+"adapt_docx.cc")], ["apertium-adapt-docx output"])
prop("W01", "Attaching and detaching word-bound blanks are inverse and lossless",
 "Attaching word-bound blanks to a stream puts each one exactly onto the lexical units it governs, and detaching moves word-bound blanks back without losing, duplicating or reordering a lexical unit, a blank or a character of text. Detaching an attached stream preserves the words, their order and the mapping from word to word-bound blank. A text that breaks off anywhere is read to its end and does not affect the next one after a null flush.",
 ["inputs", "histories"], "every well-formed stream with word-bound blanks, over null-flushed segment sequences too",
 "No test runs these tools.",
 [A+"wblank-attach.cc", A+"wblank-detach.cc"], [("wblank stack", A+"wblank-attach.cc"), ("blank splitting", A+"wblank-detach.cc")],
 ["stdin/stdout of apertium-wblank-attach / -detach"])
prop("W02", "Adding word-bound-blank handling to a mode keeps the mode equivalent",
 "Converting a translation mode for word-bound blanks keeps every program of the pipeline, its arguments and order, makes every program null-flushing and transfer-compatible where needed, and inserts exactly the attach step after morphological analysis and the detach step before generation.",
 ["configurations", "inputs"], "every pipeline a mode file can hold", "No test runs it.",
 [A+"wblank-mode.cc"], [("mode rewriting", A+"wblank-mode.cc")], ["stdout of apertium-wblank-mode"])
prop("P01", "Pretransfer splits joined units and keeps everything else",
 "Preparing an analysed stream for transfer replaces each lexical unit made of parts joined by + (and ~ when asked) by one unit per part, moving an invariable queue (# ...) to the end of the head's lemma and giving every part the word-bound blank of the original unit. All other text, blanks, escapes and null separators pass through unchanged, and nothing in the unit is lost, duplicated or reordered.",
 ["inputs", "configurations", "histories"], "every well-formed tagged stream, every option combination, every sequence of null-flushed segments",
 "Tests have about five fixed lines.",
 [A+"pretransfer.cc", A+"apertium_pretransfer.cc"], [("unit splitting", A+"pretransfer.cc")], ["stdin/stdout of apertium-pretransfer"])
prop("P02", "Posttransfer joins repeated spaces only",
 "Postprocessing after transfer outputs its input with every run of consecutive spaces (U+0020) reduced to a single space and nothing else changed: no other character is removed, added or reordered, whatever the stream contains and however long the run.",
 ["inputs", "histories"], "every well-formed stream", "No test runs it.",
 [A+"apertium_posttransfer.cc"], [("stream copier", A+"apertium_posttransfer.cc")], ["stdin/stdout of apertium-posttransfer"])
prop("P03", "Stream cleaning keeps exactly the lexical units",
 "Cleaning an Apertium stream keeps every lexical unit byte for byte and in order, separated by whitespace where the input had something between them (each on a line of its own with -n), and drops all text between units; superblanks are replaced by a separator, and kept only with -b. A unit that holds a ^ written without an escape gets it escaped, and a stray $ between units is dropped.",
 ["inputs", "configurations"], "every well-formed stream", "Tests have a few fixed lines.",
 [A+"apertium_cleanstream.cc"], [("stream cleaning", A+"apertium_cleanstream.cc")], ["stdin/stdout of apertium-cleanstream"])
prop("T01", "Transfer applies the longest match, earliest rule first",
 "At each position of the input, transfer, interchunk and postchunk apply the rule whose pattern matches the longest sequence of words from that position, and among rules matching equally long sequences the one written first in the rules file; words no rule matches are output by default processing one at a time. A rule that rejects its match makes the next-best match apply (or, if it shifts, consumes the number of words it says), and no word is consumed twice or skipped.",
 ["programs", "inputs", "histories"], "every rules file and every stream of words",
 "Tests use one real rules file and a few sentences; rule overlap and backtracking (rejected prefixes) are combinatorial.",
 [A+"transfer.cc", A+"interchunk.cc", A+"postchunk.cc", A+"transfer_base.cc", A+"trx_reader.cc", A+"transfer_data.cc"],
 [("LRLM matching loop", A+"transfer.cc transfer()"), ("rule numbering", A+"trx_reader.cc"), ("reject handling", A+"transfer_base.cc")],
 ["stdin/stdout of apertium-transfer, -interchunk, -postchunk"])
prop("T02", "Transfer stages never lose, duplicate or reorder blanks",
 "Every superblank of the input appears in the output of transfer, interchunk and postchunk exactly once and in the original order, whatever the rules do with the words around it, including blanks at the very start and end and inside matched or rejected patterns.",
 ["programs", "inputs", "histories"], "every rules file and every well-formed stream with superblanks anywhere",
 "Formatting loss shows only for particular combinations of rules and blank positions; tests have few.",
 [A+"transfer.cc", A+"interchunk.cc", A+"postchunk.cc", A+"transfer_base.cc"],
 [("blank queue", A+"transfer_base.cc"), ("blank output in rules", A+"transfer.cc")], ["stdin/stdout of the transfer stages"])
prop("T03", "Transfer rules compute what the rule language defines",
 "For every rules file, the output of the transfer stage for a matched pattern is what executing the rule's actions prescribes: conditions and all string tests with and without case folding, clip and its parts and sides, assignments, appends, concatenation, choose, macros with parameters, variables that keep their value between rules, lists, case transfer, multiword lemma heads and queues, chunk building with tag links, and bilingual lookup of the source unit.",
 ["programs", "inputs"], "every rule program over the rule language and every input stream and bilingual dictionary",
 "One real rules file is exercised by a handful of sentences; the language has about forty constructs that interact.",
 [A+"transfer.cc", A+"transfer_base.cc", A+"transfer_word.cc", A+"transfer_instr.cc", A+"trx_reader.cc", A+"apertium_re.cc"],
 [("rule interpreter", A+"transfer.cc, transfer_base.cc"), ("attribute regexes", A+"apertium_re.cc"), ("bilingual lookup", A+"transfer.cc")],
 ["stdin/stdout of apertium-transfer"])
prop("T04", "Interchunk rules compute what the rule language defines",
 "For every interchunk rules file, the output chunk sequence is what executing the matched rules prescribes on chunk lemmas, chunk tags and chunk contents, with unmatched chunks passed through unchanged and chunk contents never altered unless the rule does so.",
 ["programs", "inputs"], "every interchunk rule program and every stream of chunks",
 "One rules file and a few sentences are tested.",
 [A+"interchunk.cc", A+"interchunk_word.cc", A+"transfer_base.cc"], [("interchunk interpreter", A+"interchunk.cc")], ["stdin/stdout of apertium-interchunk"])
prop("T05", "Postchunk expands every chunk into its words",
 "Postchunk replaces every chunk by the words inside it in order, with linked tags replaced by the chunk's tags and the chunk's case applied to its first word, unless a postchunk rule matches the chunk's lemma, in which case the output is what executing that rule prescribes on its words.",
 ["programs", "inputs"], "every postchunk rule program and every stream of chunks",
 "One rules file and a few sentences are tested.",
 [A+"postchunk.cc", A+"interchunk_word.cc", A+"transfer_base.cc"], [("postchunk interpreter", A+"postchunk.cc"), ("tag unlinking", A+"postchunk.cc")], ["stdin/stdout of apertium-postchunk"])
prop("T06", "Words without rules translate by dictionary alone",
 "With no matching rule, transfer outputs each word as its first bilingual translation with the tags not covered by the dictionary carried over and the case of the source word applied, marks words missing from the dictionary, and never drops, repeats or reorders a word; modes that skip bilingual lookup or take already translated input leave the words' translations unchanged.",
 ["inputs", "configurations"], "every dictionary and word stream, every lookup mode of the program",
 "Tests use two or three words.",
 [A+"transfer.cc"], [("default word output", A+"transfer.cc applyWord/transfer()")], ["stdout of apertium-transfer"])
prop("T07", "Null-flushed segments are processed independently",
 "Every program that supports null flushing produces, for a sequence of segments separated by NUL, exactly the outputs it would produce for each segment in a fresh process, each followed by NUL and flushed before more input is needed, apart from values a rules file keeps in its own variables only where documented. A long-running server therefore never leaks one request into another.",
 ["histories", "inputs"], "every sequence of well-formed segments for every stream program with a null-flush option",
 "Tests send one or two segments; leaked state shows only for particular predecessor segments.",
 [A+"transfer.cc", A+"interchunk.cc", A+"postchunk.cc", A+"pretransfer.cc", A+"apertium_posttransfer.cc", A+"apertium_cleanstream.cc", A+"wblank-attach.cc", A+"wblank-detach.cc", A+"caps_restorer.cc", A+"apertium_extract_caps.cc", A+"transfer_mult.cc", A+"hmm.cc", A+"unigram_tagger.cc", A+"perceptron_tagger.cc", A+"stream_tagger.cc"],
 [("null-flush loops", "each program's main loop"), ("state reset between segments", A+"transfer.cc wrapperNULLFlush")],
 ["output bytes and flush timing over pipes"])
prop("T08", "Compiling rules does not change what they mean",
 "Preprocessing a transfer, interchunk or postchunk rules file gives a binary that matches exactly the patterns the file describes: category items with lemmas, tag wildcards and multi-tag wildcards, and attribute values wherever they occur in a word, regardless of how many rules or categories there are and of the order of definitions. Compiling the same file twice gives the same binary.",
 ["programs"], "every rules file",
 "Compilation is tested on one file.",
 [A+"transferpp.cc", A+"trx_reader.cc", A+"transfer_data.cc", A+"transfer_regex.cc"], [("pattern compiler", A+"trx_reader.cc"), ("binary writer", A+"transfer_data.cc"), ("optimize_regex", A+"transfer_regex.cc")],
 ["binary + stage output"])
prop("T09", "Word-bound blanks follow their words through transfer",
 "With preprocessed bilingual input (-b), each word the transfer stages build around the lemma of an input word carries that word's word-bound blank, whether the lemma was taken directly or went through variables; a word built from several lemmas carries them all, combined in order. In a rule over a single word every output word carries that word's blank; in other rules words made only of literals carry none. Word-bound blanks never lose or gain text, and never appear without a word.",
 ["programs", "inputs"], "every rules file and stream with word-bound blanks", "Few fixed cases in tests.",
 [A+"transfer.cc", A+"interchunk.cc", A+"postchunk.cc", A+"transfer_base.cc"], [("wblank combination", A+"transfer_base.cc combineWblanks")], ["stdout of the transfer stages"])
prop("M01", "Multiple-translation mode outputs every combination",
 "The multiple-translation tool outputs for each matched pattern every combination of the words' alternative translations exactly once and, for unmatched words, every alternative, keeping blanks and word order.",
 ["inputs", "programs"], "every rules file and stream of ambiguous words", "No test runs it.",
 [A+"transfer_mult.cc", A+"apertium-multiple-translations.cc"], [("accept combinations", A+"transfer_mult.cc acceptions")], ["stdout of apertium-multiple-translations"])
prop("G01", "The tagger only ever chooses among the given analyses",
 "For every input stream and every tagger model, tagging outputs each lexical unit exactly once and in order with one of the analyses it had on input (or its unknown form), keeps all blanks and text, and honours the options for keeping surface forms, marking the chosen analysis and showing it first among one analysis per coarse tag; a word that the tag definition cuts at its plus signs combines the chosen analysis of each part.",
 ["inputs", "configurations", "histories"], "every stream, every model type (HMM, sliding window, unigram, perceptron), every output option",
 "Tests tag a handful of sentences with one model.",
 [A+"hmm.cc", A+"lswpost.cc", A+"unigram_tagger.cc", A+"perceptron_tagger.cc", A+"stream_tagger.cc", A+"file_tagger.cc", A+"tagger_word.cc", A+"file_morpho_stream.cc"],
 [("output of chosen tag", A+"tagger_word.cc get_lexical_form"), ("stream reading", A+"file_morpho_stream.cc, stream.cc")], ["stdin/stdout of apertium-tagger"])
prop("G02", "The HMM tagger outputs the most probable tag sequence",
 "For every HMM model and every sentence, the sequence of coarse tags chosen between two unambiguous points has the maximum probability under the model's transition and emission probabilities among all sequences the words' ambiguity classes allow.",
 ["inputs", "programs"], "every model and every sentence, of any length", "Tests tag a few sentences without checking optimality.",
 [A+"hmm.cc", A+"tagger_utils.cc", A+"tagger_data_hmm.cc"], [("Viterbi", A+"hmm.cc tagger()")], ["stdout of apertium-tagger -g"])
prop("G03", "Tagging a sentence does not depend on what was tagged before",
 "The analysis chosen in a sentence depends on the model and that sentence only: tagging the same unambiguously delimited sentence after any other text, in the same process, gives the same result.",
 ["histories"], "every history of earlier sentences, including words whose ambiguity class the model has never seen", "Tests tag in one order only.",
 [A+"hmm.cc", A+"tagger_utils.cc", A+"lswpost.cc", A+"perceptron_tagger.cc"], [("ambiguity-class fallback", A+"tagger_utils.cc find_similar_ambiguity_class")], ["stdout of apertium-tagger"])
prop("G04", "Tagger models survive being written and read",
 "A trained or compiled tagger model, written to a file and read back by any number of load and retrain-with-zero-iterations steps, has the same tags, rules, ambiguity classes and probabilities and tags every stream the same way.",
 ["programs", "configurations"], "every model", "Tests read one binary model.",
 [A+"tagger_data.cc", A+"tagger_data_hmm.cc", A+"tagger_data_lsw.cc", A+"endian_double_util.cc", A+"serialiser.h", A+"deserialiser.h"], [("model serialisation", A+"tagger_data*.cc")], ["model files and stdout of apertium-tagger"])
prop("G05", "Trained HMM models are probability distributions honouring the rules",
 "After any training (supervised, Kupiec initialisation and Baum-Welch iterations), every probability in the model lies in [0,1], each row of the transition matrix and each emission row sums to one up to rounding unless nothing was observed, transitions the tag definition forbids (or rules out by enforcement) stay at the smoothing floor (1e-10) wherever transitions from that tag were observed at all, and every parameter has the value the training procedure derives from the training data.",
 ["inputs", "programs"], "every corpus and every tag-definition file", "No test trains a model.",
 [A+"hmm.cc", A+"tsx_reader.cc"], [("normalisation", A+"hmm.cc"), ("forbid/enforce", A+"hmm.cc apply_rules")], ["model file written by apertium-tagger"])
prop("G06", "Tag definitions classify analyses as written",
 "Each analysis is given the coarse tag whose definition in the tag file matches it (the first one in file order), multiword tags included, and analyses the definition says to prefer or discard are treated so; the ambiguity class of a word is the set of the coarse tags of its analyses.",
 ["programs", "inputs"], "every tag file and every analysis", "Tests check one lookup.",
 [A+"tsx_reader.cc", A+"tagger_word.cc", A+"morpho_stream.cc", A+"file_morpho_stream.cc", A+"apertium_filter_ambiguity.cc"], [("tag matching", A+"file_morpho_stream.cc lrlmClassify"), ("tsx compiler", A+"tsx_reader.cc")], ["stdout of apertium-filter-ambiguity and apertium-tagger"])
prop("G07", "The unigram tagger outputs the highest-scoring analysis",
 "For each of the three unigram models, training on a tagged corpus and tagging outputs for every word the analysis with the highest score under the model's published formula over that corpus's counts, ties going to the first; unknown words stay unknown.",
 ["inputs"], "every corpus, every stream", "No test trains a unigram model with a known oracle.",
 [A+"unigram_tagger.cc", A+"stream_tagger.cc"], [("scores", A+"unigram_tagger.cc")], ["stdout of apertium-tagger -u"])
prop("G08", "The perceptron tagger outputs the best-scoring sequence of its weights",
 "For every feature specification, tagging chooses an analysis for each word that the beam search finds best under the learned weights, and training on a corpus in which each ambiguous word is decided by a feature the specification can see makes the tagger reproduce that corpus.",
 ["programs", "inputs"], "every specification, corpus and stream", "No test trains a perceptron with a known oracle.",
 [A+"perceptron_tagger.cc", A+"perceptron_spec.cc", A+"mtx_reader.cc", A+"feature_vec.cc", A+"feature_vec_averager.cc"], [("beam search", A+"perceptron_tagger.cc"), ("feature VM", A+"perceptron_spec.cc")], ["stdout of apertium-tagger -x, apertium-perceptron-trace"])
prop("G09", "The sliding-window tagger outputs the locally most probable tags",
 "The light sliding-window tagger outputs for every word the tag that maximises the model's window probability summed over the neighbours' ambiguity classes, and training yields finite non-negative parameters that honour forbidden sequences.",
 ["inputs", "programs"], "every model and stream", "No test runs it.",
 [A+"lswpost.cc", A+"tagger_data_lsw.cc"], [("window sums", A+"lswpost.cc")], ["stdout of apertium-tagger -w"])
prop("G10", "Filtering a tagger dictionary keeps one word of every ambiguity class",
 "Filtering a dictionary or corpus by ambiguity outputs, in order and with one reading per coarse tag, exactly the first word of every new set of coarse tags, whether it reads standard input or a file and writes standard output or a file; filtering again changes nothing, and the filtered dictionary trains a model with the ambiguity classes of the whole one. The listing of a corpus has every word, in order, with its set of coarse tags, as many as asked for, and reports exactly the sets that a given model does not know.",
 ["inputs", "programs"], "every tag definition and text", "No test runs these programs.",
 [A+"hmm.cc", A+"apertium_filter_ambiguity.cc", A+"apertium_tagger_readwords.cc", A+"file_morpho_stream.cc", A+"tagger_word.cc"], [("filter", A+"hmm.cc"), ("corpus reader", A+"file_morpho_stream.cc"), ("listing", A+"apertium_tagger_readwords.cc")], ["stdout and output files of apertium-filter-ambiguity and apertium-tagger-readwords"])
prop("C01", "Capitalisation restoring applies the case with the heaviest rules",
 "For every capitalisation rules file and stream, each word is given the case (as in the dictionary, lower, title or upper) with the greatest total weight over all rules matching at that word; ties prefer the dictionary form, then lower, title and upper case. Matching follows the rules' lemma, tag, surface and case patterns, alternatives, repetition bounds and the beginning of the stream. Nothing but letter case changes: words, blanks and word-bound blanks are kept in order, without the case markers unless they are to be kept.",
 ["programs", "inputs"], "every rules file and stream", "Tests use two small rules files.",
 [A+"caps_compiler.cc", A+"caps_restorer.cc"], [("rule matching", A+"caps_restorer.cc"), ("compiler", A+"caps_compiler.cc")], ["stdout of apertium-restore-caps"])
prop("C02", "Capitalisation extraction marks every word and keeps the rest",
 "Extracting capitalisation gives every lexical unit exactly one case marker, joined to its word-bound blank, that describes the case of its surface form and of the lemma of its first reading; the unit keeps that reading unchanged (and the surface form on request), and everything else in the stream stays as it is. Restoring with rules that copy the surface case reproduces it.",
 ["inputs", "configurations"], "every stream", "Tests have a few words.",
 [A+"apertium_extract_caps.cc", A+"caps_restorer.cc"], [("case extraction", A+"apertium_extract_caps.cc")], ["stdin/stdout of apertium-extract-caps / -restore-caps"])
prop("M02", "Mode generation writes every mode with its whole pipeline",
 "Generating modes from a modes file writes one script per mode asked for (installable modes for installation, all modes and one debug mode per pipeline prefix otherwise) that runs exactly the mode's programs in order with the given arguments and data files resolved to the requested directory, each debug mode ending at the right step, with the tracing option applied once, to the last program, and untrimmed debug modes using the untrimmed analyser.",
 ["configurations"], "every modes file and option set", "No test runs it.",
 [A+"gen_modes.cc"], [("mode writer", A+"gen_modes.cc")], ["files written by apertium-gen-modes"])
prop("M03", "The apertium driver runs the requested mode between (de|re)formatters",
 "The apertium script translates a file or standard input with the mode asked for, through the deformatter and reformatter of the requested format, honouring its options (unknown-word marks, input and output files, translation memories, listing modes, line-by-line mode, which gives one line per line up to leading and trailing spaces), writes nothing but the translation to its output, and fails with an error message for a missing mode or input file; an unknown format is treated as plain text with a warning. apertium-unformat writes what the deformatter of the requested format makes of the same document.",
 ["configurations", "inputs"], "every option combination and mode set", "Two shell tests exist.",
 [A+"apertium-header.sh", A+"apertium-unformat-header.sh"], [("driver script", A+"apertium-header.sh")], ["stdout, exit status of apertium"])
prop("X01", "TMX building conserves the aligned text and is well-formed",
 "Building a translation memory from two aligned texts gives well-formed TMX 1.4 in which every segment text is a run of consecutive sentences of its text, in order on both sides, nothing duplicated, with XML special characters escaped; only its ends are trimmed of blanks, symbols and full stops. A text aligned with itself gives every sentence (other than those too short to be a unit) with itself.",
 ["inputs"], "every pair of plain-text files", "No test runs it.",
 [A+"tmx_builder.cc", A+"apertium_tmxbuild.cc", A+"tmx_aligner_tool.cc", A+"tmx_alignment.cc"], [("alignment", A+"tmx_alignment.cc"), ("TMX writer", A+"tmx_builder.cc")], ["stdout of apertium-tmxbuild"])
prop("K01", "How a program is called and fed does not change what it does",
 "For every program that filters a stream or a document, the output and exit code depend only on the input bytes and the options: not on whether the input arrives through redirection, in pieces of any size (cut anywhere, also inside a character) through a pipe with a slow reader, or from an input file argument; not on whether the output goes to standard output or to an output file, new or replacing an older and longer one; and not on whether options are given in short or long form or in another order. Tracing and debugging options add messages on standard error only.",
 ["inputs", "configurations", "schedules"], "every stream, way of cutting it, and way of calling", "Tests redirect complete files.",
 [A+"apertium_transfer.cc", A+"apertium_interchunk.cc", A+"apertium_postchunk.cc", A+"apertium_pretransfer.cc", A+"apertium_posttransfer.cc", A+"apertium_extract_caps.cc", A+"apertium_restore_caps.cc", A+"apertium_filter_ambiguity.cc", A+"apertium-multiple-translations.cc", A+"tagger.cc", A+"apertium-prelatex.l", A+"apertium-postlatex.l", A+"apertium-postlatex-raw.l", A+"deformat.xsl", A+"reformat.xsl"],
 [("option parsing", A+"tagger.cc, apertium_transfer.cc"), ("file arguments", A+"deformat.xsl, reformat.xsl")], ["command lines, pipes and output files"])
prop("D01", "Variety filters keep exactly what the chosen variety uses",
 "apertium-filter-xml and apertium-filter-rules remove exactly the elements whose variety attribute does not name the wanted varieties (any of them, respectively all of them), remove that attribute, leave the listed or fixed exempt elements alone, and keep everything else. apertium-genvdix, -genvldix and -genvrdix only replace the list of varieties of an entry by the wanted one or by 'other'. apertium-filter-dix keeps entries of the variety and of none in both directions, makes entries of other varieties one-way (dropping those that only went the other way), and keeps every other attribute (ignored entries, weights, lemmas). Results are XML whatever characters occur.",
 ["inputs", "configurations"], "every XML rule or dictionary file with variety marks", "No test runs them.",
 ["scripts/apertium-filter-xml", "scripts/apertium-filter-rules", "scripts/apertium-genvdix", "scripts/apertium-genvldix", "scripts/apertium-genvrdix", "scripts/filter-dix.xslt", "scripts/apertium-filter-dix.in"],
 [("variety test", "scripts/apertium-filter-xml, scripts/apertium-filter-rules"), ("entry templates", "scripts/filter-dix.xslt")], ["output file or stdout as an XML tree"])
prop("D02", "Lexical-selection macros, sequences and repeats expand as written",
 "apertium-metalrx replaces each macro use by a copy of the macro's rules with every parameter mark replaced by the given value, whatever characters the value has, keeps ordinary rules, and drops the definitions. apertium-metalrx-to-lrx replaces each seq by the named sequence and each rule with a repeat by one rule per count from 'from' (1 by default; 0 means none) up to 'upto', and copies all other rules.",
 ["inputs"], "every rule file with macros, or with sequences and one repeat per rule", "No test runs them.",
 ["scripts/apertium-metalrx", "scripts/metalrx-to-lrx.xslt", "scripts/apertium-metalrx-to-lrx.in"],
 [("substitution of parameters", "scripts/apertium-metalrx"), ("repeat1", "scripts/metalrx-to-lrx.xslt")], ["output file as an XML tree"])
prop("D03", "Default-equivalent conversion leaves one translation per direction",
 "apertium-translate-to-default-equivalent keeps an entry marked slr/srl in exactly those directions in which its own restriction allows it and it is the default (marker ending in ' D') or has no marker for that direction; entries left without a direction are removed; unmarked entries, paradigms, symbols and all other attributes and contents are kept. The older style sheet new2old.xsl does the same.",
 ["inputs"], "every bilingual dictionary with slr/srl markers", "No test runs it.",
 ["scripts/translate-to-default-equivalent.xslt", "scripts/apertium-translate-to-default-equivalent.in", "apertium/new2old.xsl"], [("choice of direction", "scripts/translate-to-default-equivalent.xslt e[@slr|@srl]")], ["output file as an XML tree"])
prop("D04", "The edit-distance transducer accepts the right pairs with the right weights",
 "The transducer which apertium-editdist writes for distance d accepts a pair of words exactly if it differs by between one and d edits (insertion, deletion, substitution and, when asked for, swap of neighbours) over the alphabet taken from the specification file, the command line or a transducer less the excluded symbols; the weight is that of the cheapest such edits, each weighing what the specification says, else what it says for the reverse, else 1 plus the weights of the symbols involved.",
 ["inputs", "configurations"], "every alphabet, specification, distance and pair of words", "No test runs it.",
 ["scripts/apertium-editdist"], [("default weights", "scripts/apertium-editdist generate"), ("states", "scripts/apertium-editdist make_substitutions, next_special")], ["ATT transducer on stdout"])
prop("D05", "The two dictionaries of lexical choice agree",
 "From a bilingual dictionary with sense marks lexchoice.xsl makes the dictionary that maps each word to itself with its sense, and lexchoicebil.xsl the one that maps the word with its sense to its translation, for either direction (parameter r2l). Exactly the entries that are in use and allowed in the direction are in both; a word with a mark for the direction gets it, after __, between its letters and its symbols, and otherwise stays the same, so that what the first produces the second accepts. Letters, symbols, blanks, groups, joins, paradigms and regular expressions are kept.",
 ["inputs", "configurations"], "every bilingual dictionary with sense marks, both directions", "No test runs them.",
 ["apertium/lexchoice.xsl", "apertium/lexchoicebil.xsl"], [("sides with marks", "apertium/lexchoice.xsl p, i; apertium/lexchoicebil.xsl p, i"), ("entries of the direction", "apertium/lexchoice.xsl e, apertium/lexchoicebil.xsl e")], ["stdout of xsltproc as an XML tree"])
prop("F05", "A format specification becomes programs that implement it",
 "From every valid format specification (format.dtd) the style sheets produce a deformatter and a reformatter that compile and implement it: the rules (single tags, and begin/end blocks inside which only rules of smaller priority apply) decide by longest match, then order, which parts are format; format and blanks end up in superblanks (in a file of their own above the declared size), declared escape characters are escaped, replacements appear as their target, sentence and heading ends are marked where rules say so and the options ask for it; reformatting gives the document back with replacements in their preferred form. The matxin-mode deformatter writes the same text, an XML file with all the format, and correct positions for the full stops it adds.",
 ["inputs", "configurations"], "every format specification and document", "Only the shipped formats are tested, with a few documents.",
 [A+"deformat.xsl", A+"reformat.xsl", A+"format.dtd", A+"deformat-header.sh"], [("rule templates", A+"deformat.xsl format-rule-apertium"), ("start conditions", A+"deformat.xsl"), ("reformatter", A+"reformat.xsl")], ["build of the generated programs, their stdout"])
prop("V01", "Validators accept correct rule files and report structural errors",
 "apertium-validate-transfer, -interchunk, -postchunk, -tagger, -modes and -crx, and the validation of format specifications, accept silently every file that uses the documented elements and attributes correctly (in particular every file on which this framework runs the programs, and the shipped formats), and report with a failure exit unknown elements and attributes, missing required attributes or parts, text between elements, truncated and missing files.",
 ["inputs"], "every rule file", "No test runs them.",
 [A+"transfer.dtd", A+"interchunk.dtd", A+"postchunk.dtd", A+"tagger.dtd", A+"modes.dtd", A+"crx.dtd", A+"format.dtd", A+"validate-header.sh"], [("document types", A+"*.dtd"), ("script", A+"validate-header.sh")], ["exit status and stderr"])
prop("S01", "No program corrupts memory on any input",
 "On every input, well-formed or not, every stream program finishes without an invalid memory access, undefined behaviour or unbounded loop: it either produces output or stops with an error message. The same holds for training the taggers on any corpus.",
 ["inputs", "programs", "fault_sequences"], "all byte sequences as input stream, truncated and corrupted streams, and all valid data files",
 "Tests feed valid input only and are built without sanitizers.",
 [A+"stream.cc", A+"morpheme.cc", A+"transfer_base.cc", A+"transfer.cc", A+"interchunk.cc", A+"postchunk.cc", A+"file_morpho_stream.cc", A+"deformat.xsl", A+"reformat.xsl", A+"wblank-attach.cc", A+"caps_restorer.cc"],
 [("input parsing", "each reader"), ("indices checked", A+"transfer_base.cc")], ["sanitizer reports, exit status"])
TECH = {k: "runtime monitoring: scripts and style sheets run on generated files, output judged by an executable reference model" for k in ("D01", "D02", "D03", "D04", "D05", "V01")}
NOTE = {k: "Held on the seeded random files counted in the evidence file; trusts the reference model in checks/%s.py, Python's XML library, libxslt and libxml2." % k for k in TECH}
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
