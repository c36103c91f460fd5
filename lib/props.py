# -*- coding: utf-8 -*-
"""The properties (source of properties.jsonl and MANIFEST.json)."""
PROPS = []
NOT_APPLICABLE = {}


def P(id, **kw):
    kw['id'] = id
    PROPS.append(kw)


P('P01', title='The lattice behaves as a multigraph of annotated edges for every history',
  statement='''After every sequence of operations on a lattice (appending text, adding symbols, adding edges and partitions over text or loose
  vertices, adding the same annotation again, discarding) the edges, their category, text, tags, values, score, partitions, sub-edges, parents,
  lemmata and the vertices are exactly those of an abstract multigraph on the same text. Adding an annotation that is already there (same span
  and item) merges tags, score and partitions into the one edge instead of duplicating or losing anything. Symbol edges that the text implies
  behave as any other edge, and an operation that is refused leaves the lattice unchanged.''',
  over=['histories'], quant='All histories of lattice operations on all texts (multi-byte characters included).',
  why='The unit tests exercise a few fixed histories; merging, implicit symbol edges and indices interact in every order.',
  files=['common/lattice.cpp', 'common/lattice.hpp'],
  mech=[('edge merging and partitions', 'common/lattice.cpp addEdge/addPartitionToEdge'), ('implicit symbol edges', 'common/lattice.cpp'),
        ('vertices and loose vertices', 'common/lattice.cpp')],
  technique='stateful model-based property testing against a reference multigraph',
  note='''Random histories of up to some 30 operations compared, operation by operation and in a full dump, with an independent Python model;
  trusts the model and the driver.''')

P('P02', title='Queries by tag mask return exactly the edges that carry matching tags',
  statement='''For every lattice and every tag mask, the out-edges, in-edges, first edges, and whole-lattice iterations (by source and by target)
  restricted by the mask give exactly the edges a plain filter over all edges gives, in the documented order and each once.
  It makes no difference whether or when the same mask was asked about before the lattice changed.
  The best path for a mask is a walk over first matching edges from a vertex on.''',
  over=['histories'], quant='All histories with all masks at all vertices, before and after changes.',
  why='Answers go through indices created on demand per mask; a test that asks once sees a fresh index only.',
  files=['common/lattice.cpp', 'common/layer_tag_mask.cpp'],
  mech=[('per-mask indices', 'common/lattice.cpp'), ('mask matching', 'common/layer_tag_manager.cpp match')],
  technique='stateful model-based property testing against a filter over all edges',
  note='''Random histories with queries in between, then every mask at every vertex; trusts the reference model.''')

P('P03', title='Corrections add an alternative path and keep the original text',
  statement='''Inserting, erasing or replacing a stretch of a lattice's text, in any sequence, adds paths of symbol edges: the spellings of the
  paths through the lattice are those of the original text with each correction as an alternative at its place, the raw text, the original symbol
  edges and the ends of the text stay as they were, and a range that cannot be corrected (erasing up to the end of the text) is refused.
  Inserting nothing changes nothing.''',
  over=['histories'], quant='All texts and all sequences of corrections at character boundaries.',
  why='The tests try one correction each on one word; lengths, positions and interplay of corrections vary without bound.',
  files=['common/lattice.cpp', 'common/lattice.hpp'],
  mech=[('correctionInsert, correctionErase, correctionReplace', 'common/lattice.cpp'), ('loose vertices', 'common/lattice.cpp addLooseVertex')],
  technique='model-based property testing against a reference automaton (sets of spellings)',
  note='Up to four corrections of texts of up to seven characters; trusts the automaton model.')

P('P04', title='Cutting a unit of text gives pieces that tile it, within the length limits',
  statement='''When a cutter runs over the units marked in a lattice, every unit (one that ends where its symbols end) is tiled from its beginning to its
  end by new edges, one for each piece the cutter cut off, with the cutter's category, text and tags and made of exactly the edges it covers; units that the mask does not
  select and all edges that were there stay as they are. No piece is longer than the hard limit nor splits a character, a piece that reaches the soft limit ends at the next
  space at the latest, pieces below the limits are not broken, and a hard limit too small for a character is refused.''',
  quant='All texts, units, piece lengths and limits.',
  why='Limits, multi-byte characters and unit borders combine; the tests cut a few ASCII texts.',
  files=['common/cutter.hpp', 'common/cutter.cpp', 'common/lattice.cpp'],
  mech=[('limits', 'common/cutter.hpp cutOff/fragmentSegment_'), ('edges for pieces', 'common/lattice.cpp runCutterOnEdge_')],
  technique='property-based testing against a reference cutter',
  note='Random blocks and limits, a cutter with given piece lengths; trusts the reference piece computation.')

P('P05', title='Layer tags and masks form a set algebra',
  statement='''Tag collections behave as sets of names whatever way they are made (lists, specifications, with a language code, unions, intersections);
  a mask is a disjunction of conjunctions and matches exactly the collections that contain all the tags of one alternative; planes are the tags that begin with "!",
  and two collections are on the same plane exactly if these agree. Making collections and masks from the same names in another
  order or manager state gives equal ones, and names read back are the names given.''',
  quant='All sequences of making collections and masks from any tag names (up to 64 distinct tags).',
  why='Tags are bits assigned by first use; what matches may depend on the order in which names were seen.',
  files=['common/layer_tag_manager.cpp', 'common/layer_tag_collection.cpp', 'common/layer_tag_mask.cpp'],
  mech=[('names to bits', 'common/layer_tag_manager.cpp'), ('matching', 'common/layer_tag_manager.cpp match, common/layer_tag_mask.cpp')],
  technique='property-based testing against Python sets',
  note='Random operation sequences then all masks against all collections; up to 64 tags as the code supports.')

P('P06', title='Annotation items store values as a dictionary; equality follows content',
  statement='''An annotation item keeps its category, text and the last value set for each attribute, for any attribute names and values, whatever other
  items were made, copied, assigned or changed meanwhile (a copy is independent); a value reads back as it was set, integers of 32 bits, truth values and the special
  words included; two items are equal exactly if their category, text and attribute values are equal, and equal items have equal hashes.''',
  over=['histories'], quant='All sequences of making, copying, assigning and setting.',
  why='Items are packed vectors of tagged words indexed by attribute numbers that depend on the history of the manager.',
  files=['common/annotation_item.cpp', 'common/annotation_item_manager.cpp', 'common/zvalue.cpp', 'common/zvalue.hpp'],
  mech=[('attribute vectors', 'common/annotation_item.cpp'), ('value encoding', 'common/zvalue.hpp, common/zvalue.cpp')],
  technique='stateful model-based property testing against dictionaries',
  note='Random histories compared after every step; values with leading zeros, signs or spaces before digits are left out (they are read as numbers).')

P('P07', title='A string fragment behaves as the string it stands for',
  statement='''A fragment of a text, of another fragment or with a string of its own has the content, length, characters, comparison, search and
  substring results of the string it stands for, after any sequence of copying, assigning and appending; appending or assigning to one fragment changes no other, and appending
  the following stretch of the same text keeps referring to the text.''',
  over=['histories'], quant='All texts and sequences of fragment operations.',
  why='Fragments share buffers and switch representation when appended to; each pair of representations is its own case.',
  files=['common/string_frag.cpp', 'common/string_frag.hpp'],
  mech=[('append', 'common/string_frag.cpp'), ('fragment of a fragment', 'common/string_frag.hpp')],
  technique='stateful model-based property testing against byte strings',
  note='Random sequences with all fragments compared after every step.')

P('P08', title='Quoting is reversible and follows its table',
  statement='''For every string, escaping replaces exactly the special characters (space, newline, tab, return, underscore, asterisk, backslash and those a quoter adds)
  as its table says, and unescaping the result gives the string back; unescaping undoes every escape of the table and refuses a string
  with an unknown or unfinished escape.''',
  quant='All byte strings for all quoters.', why='Escapes interact (a backslash before a special character); tests cover single escapes.',
  files=['common/escaping.cpp', 'common/quoter.cpp', 'common/quoter.hpp', 'formats/utt/utt_quoter.cpp'],
  mech=[('escape, unescape', 'common/quoter.cpp')],
  technique='property-based testing: round trip and reference table', note='Random strings rich in special characters, and random bytes.')

P('P09', title='What is written in PSI format reads back as the same lattice',
  statement='''Writing any lattice (with multi-byte text, gaps without symbols, escapes, loose vertices, merged, discarded and derived edges)
  in the PSI format succeeds, and reading the result succeeds and gives the same text (up to the end of the last edge), exactly the same edges with their categories, annotation
  texts, tags, values and scores, and the same partitions with their tags, scores, sub-edges and roles; the symbols that edges consist of come back too.
  A shortened text column never loses text.''',
  over=['histories'], quant='All lattices whose names fit the format (categories, tags and values without its separators; scores of six digits; no edges consisting of each other).',
  why='The columns depend on what was printed before, on widths and on escapes, and on the shape of the derivations; the tests cover a few fixed files.',
  files=['formats/psi/psi_writer/psi_lattice_writer.cpp', 'formats/psi/psi_reader/psi_lattice_reader.cpp', 'formats/psi/psi_reader/psi_lattice_reader.hpp', 'common/aligning_writer_worker.cpp'],
  mech=[('rows, gaps and shortened texts', 'psi_lattice_writer.cpp printEdge'), ('partitions', 'psi_lattice_writer.cpp, psi_lattice_reader.cpp'), ('grammar', 'psi_lattice_reader.hpp')],
  technique='round-trip property testing over generated lattices',
  note='Random histories of up to 14 operations; symbols that no edge consists of may be dropped by the format (edges without sub-edges) and are not compared; rule numbers are not part of the format.')

P('P10', title='The PSI reader accepts or refuses any input, and what it accepts is usable',
  statement='''Reading any text as PSI, well formed or not, ends: the reader either refuses it with an error or builds a lattice that can be walked,
  written in every text format, and has text that is valid UTF-8.''',
  quant='All inputs, sampled as PSI files with random damage and as random rows, with positions up to a few hundred.',
  why='Columns contradict each other in countless ways (positions inside characters, unknown sub-edges, unfinished escapes); the tests hold well-formed files.',
  files=['formats/psi/psi_reader/psi_lattice_reader.cpp', 'formats/psi/psi_reader/psi_lattice_reader.hpp', 'common/utt_like_quoter.cpp', 'formats/bracketing/bracketing-writer/edge_data.hpp'],
  mech=[('rows and text', 'psi_lattice_reader.cpp'), ('grammar', 'psi_lattice_reader.hpp')],
  technique='mutation fuzzing of generated PSI files under AddressSanitizer, with a usability oracle',
  note='The reader is fed a written lattice or random rows with up to four edits; crashes, sanitizer reports, hangs and unusable lattices are violations.')

P('P11', title='The UTT reader builds the lattice its file describes',
  statement='''Reading a UTT file (segments with or without positions and lengths, escapes, alternatives at one place, annotations,
  sentence markers) gives the text its forms spell, one token edge per segment with its type, form and annotation (lemma and its tags), one sentence edge
  per pair of markers, and nothing else; any damaged file is refused with an error or gives a usable lattice.''',
  quant='All UTT files, generated as a text cut into segments, and random edits of them.',
  why='Positions, lengths, escapes and multi-byte characters combine freely; the tests read a few fixed files.',
  files=['formats/utt/utt_lattice_reader.cpp', 'formats/utt/utt_lattice_reader.hpp', 'formats/utt/utt_quoter.cpp'],
  mech=[('segments', 'utt_lattice_reader.cpp'), ('annotations and grammar', 'utt_lattice_reader.hpp')],
  technique='model-based property testing of generated files, and mutation fuzzing',
  note='The generator keeps the meaning of each file beside it; damaged files are held to the usability oracle of P10.')

P('P12', title='Text readers keep all text and split it as the format says',
  statement='''txt-reader gives exactly the lines read, with one fragment per line (or one in all) and one symbol per character; apertium-reader splits
  a document into markup and text as its format specification says: the earliest match of the rule of the highest priority, text between matches
  kept in order, entities replaced, and each tag kept (with its type and sentence-end flag) exactly when asked for.''',
  quant='All texts, documents in the formats shipped, and random specifications of up to 34 rules.',
  why='Rules are packed into one regular expression and numbered through levels of 16; the tests check fragments of that expression.',
  files=['formats/txt/txt_lattice_reader.cpp', 'formats/apertium/apertium_reader/apertium_lattice_reader.cpp', 'formats/apertium/apertium_reader/apertium_deformatter.cpp', 'formats/apertium/apertium_reader/format_specification.cpp', 'formats/apertium/apertium_reader/format_rules.cpp'],
  mech=[('rule levels', 'format_specification.cpp formatRulesRegexp, apertium_deformatter.cpp processFormatRules'), ('rules', 'format_rules.cpp')],
  technique='differential property testing against a Python deformatter',
  note='White space next to markup may go to either side and is not compared; documents without markup are refused by design.')

P('P14', title='The simple and JSON writers print exactly what the lattice holds',
  statement='''For any lattice and options the simple writer prints the selected edges in order, with alternatives, blanks, separators and fallback as asked; the JSON writers print
  well-formed JSON whose content is the selected edges with their categories, texts, tags and values, whatever characters these hold.''',
  over=['histories'], quant='All lattices and combinations of masks, separators and options.',
  why='Output depends on the traversal of a graph with alternatives, gaps and loose edges and on escaping.',
  files=['formats/simple/simple_lattice_writer.cpp', 'formats/json-simple/json_lattice_writer.cpp', 'formats/json-simple/json_lattice_writer_output.cpp', 'formats/json-simple/json_lattice_writer_output_iterator.cpp'],
  mech=[('traversal', 'formats/simple'), ('JSON', 'formats/json-simple')],
  technique='differential property testing against a model, JSON parsed by Python',
  note='Grouping by several --spec tags is a known finding (F30): for it only the order of elements is compared.')

P('P15', title='The bracketing writer prints each selected edge as a balanced pair of brackets',
  statement='''For any lattice, the bracketing writer prints the text once, in order, with each selected edge opening where it starts and closing where it ends, brackets properly
  nested where the edges are, with the label its pattern asks for (category, tags, values, scores); filters, joins and disambiguation select as documented.''',
  over=['histories'], quant='All lattices made by random histories, random patterns and options.',
  why='The nesting order at a position depends on all edges there, crossing ones included.',
  files=['formats/bracketing/bracketing-writer/bracketing_lattice_writer.cpp', 'formats/bracketing/bracketing-writer/bracket_printer.hpp', 'formats/bracketing/bracketing-writer/edge_data.hpp'],
  mech=[('order of brackets', 'formats/bracketing/bracketing-writer')],
  technique='property-based testing: the output is parsed and compared with a model',
  note='Patterns with empty subpatterns and joins of empty values are out of the domain.')

P('P16', title='The tp tokenizer cuts text as its rules say, and loses nothing',
  statement='''A text is cut into tokens and blanks that tile it exactly; at each place the last rule of the file that matches gives the type and the longest
  text its pattern takes there; definitions, conditionals, includes and comments of rule files mean what they should; what a place gives does not
  depend on what came before it; length limits are kept; broken rule files are refused or used without harm.''',
  quant='Generated rule files and texts, and random texts with the rules of every language shipped.',
  why='Any text may be given; the rules overlap and their order and the limits decide.',
  files=['tools/tokenizers/tp/tp_tokenizer.cpp', 'tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp', 'tools/tokenizers/tp/tp_token_cutter.cpp', 'tools/tokenizers/tp/tp_tokenizer.hpp'],
  mech=[('rule files', 'tools/tokenizers/tp'), ('cutting', 'tools/tokenizers/tp')],
  technique='differential property testing against a Python tokenizer, tiling invariant, mutation fuzzing of rule files',
  note='Rules that match the empty string are out of the domain.')

P('P17', title='The SRX segmenter cuts sentences as its rules say, and loses nothing',
  statement='''Sentences tile the text apart from blanks between them; a break is made exactly where the first rule matching there, of the rule sets mapped to the language (cascading or
  not), says break; length limits are kept; both versions of SRX mean what the standard says.''',
  quant='Generated SRX files and texts, and random texts with the rules of ten languages.',
  why='Rules interact by order at every place in the text; the tests hold a few sentences.',
  files=['tools/segmenters/srx/srx_segmenter.cpp', 'tools/segmenters/srx/srx_rules.cpp'],
  mech=[('rules', 'tools/segmenters/srx'), ('cutting', 'tools/segmenters/srx')],
  technique='differential property testing against a Python segmenter, tiling invariant',
  note='Rules anchored with ^ and matches reaching before the start of the sentence depend on earlier cuts in the code and are left out.')

P('P13', title='Encoding conversion gives the text that was meant, of any length, anywhere',
  statement='''Text in any of the supported encodings converts to the very same characters in UTF-8 (and between any two encodings), whatever its length, whatever
  characters it holds (NUL included); bytes of any kind are detected and converted without a crash and without losing text that is valid; a pipeline that converts its
  input gives what it gives for the same text in UTF-8, however it is run (stream, line by line, several times).''',
  quant='All supported encodings, all texts of their characters, arbitrary bytes, all ways of running a pipeline.',
  why='Errors sit at buffer borders, in states of stateful encodings and in single table entries; the tests convert a few short texts.',
  files=['common/encoding_converter.cpp', 'framework/pipe_runner.cpp', 'tiniconv/tiniconv.c', 'uchardet/src/nsUniversalDetector.cpp'],
  mech=[('conversion', 'common/encoding_converter.cpp, tiniconv'), ('detection', 'uchardet'), ('input streams', 'framework/pipe_runner.cpp convertInputStreamEncoding_')],
  technique='differential property testing against the codecs of Python; fuzzing with arbitrary bytes; metamorphic runs of pipelines',
  note='A few characters the tables of Python and tiniconv map differently are left out; HZ-GB-2312 is a known finding.')

P('P18', title='A pipeline does what its processors do one after another, however it is written',
  statement='''The string, list and command-line forms of a pipeline (any quoting, full names or aliases, reader and writer given or left to their defaults) mean the same: running it gives
  what reading, annotating with each processor in order, and writing give. The completed pipeline begins with a reader, ends with a writer, holds every processor given in the
  order given, has for each processor what it requires somewhere before, and keeps to the language given. Runs do not depend on earlier runs, nor on the kind of stream;
  line-by-line runs give what the lines give. A pipeline that cannot be run is refused with an exception.''',
  over=['inputs', 'histories'], quant='All pipelines over the processors that work here, all ways of writing them, all inputs and interleavings of runs.',
  why='Quoting, aliases, defaults and completion combine; the tests run one fixed pipeline each on a fresh runner.',
  files=['framework/pipe_runner.cpp', 'framework/auto_completer.cpp', 'framework/shallow_aliaser.cpp'],
  mech=[('parsing and quoting', 'framework/split_pipeline.cpp, framework/shallow_aliaser.cpp, framework/pipe_runner.cpp'), ('completion', 'framework/auto_completer.cpp'), ('running', 'framework/pipe_runner.cpp')],
  technique='metamorphic and model-based property testing; fuzzing with malformed pipelines',
  note='Runner options given among the arguments of a processor act on the runner (as they are meant to) and are left out.')

P('P19', title='Converters select, join and translate annotations exactly as asked',
  statement='''At each place of the text the selector copies, to the output tags, the way of in-tagged edges whose conditions are satisfied by the test-tagged edges over the same stretch, up to the end of
  the fallback edge there, and the fallback edge where no such way exists; the antiselector copies exactly the fallback edges that have no in-tagged edge over the same stretch; blanks only where asked. The joiner
  adds, for every left edge and each right edge made of the same parent, one edge with the category, text and attributes asked for, and the left edge alone where there is none (or always, or never, as asked).
  The tagset converter renames categories, attributes and values of the edges of the source tagset and applies the rules of its file in order: each item that satisfies all conditions is changed as the commands say
  (with references, alternatives that breed further items, and SKIP), and all resulting items are added over the same stretch with the derivation carried over. The rest of the lattice stays as it was.''',
  over=['inputs', 'histories'], quant='All lattices, all options, all rule files.',
  why='Iteration runs over a lattice that grows under it, rules breed items that rules apply to, and matches depend on planes, parents and order; tests convert one small lattice each.',
  files=['tools/converters/selector/selector.cpp', 'tools/converters/antiselector/antiselector.cpp', 'tools/converters/joiner/joiner.cpp', 'tools/converters/unumsunt/unumsunt.cpp'],
  mech=[('selection', 'tools/converters/selector, antiselector'), ('joining', 'tools/converters/joiner'), ('tagset conversion', 'tools/converters/unumsunt')],
  technique='model-based property testing with generated lattices, options and rule files',
  note='Left out: @val mapping of nil or any values, rules with two alternative commands, joins whose children have other spans.')

P('P20', title='The web server reads requests right and answers each with its own data',
  statement='''However the bytes of a request arrive, the method, address, headers and body are read as sent, and malformed requests are refused. A request for a file gets exactly that file, of the right type, or
  404, and never anything outside the document root. Form data (URL-encoded or multipart, any bytes, repeated or missing fields, files) reach the action of the page decoded. Each session keeps its own
  data, also with requests interleaved and several threads; inclusions are replaced with the text of their function; JSON replies are valid JSON holding exactly the output, and the server goes on serving after any request.''',
  over=['inputs', 'histories', 'schedules'], quant='All requests, all ways they are cut into pieces, all sessions and interleavings, any number of threads.',
  why='Errors need special bytes at special places, requests cut within a token, interleaved sessions or concurrent requests; the tests send no request at all.',
  files=['server/server/request_parser.cpp', 'server/server/request_handler.cpp', 'server/psi_server.cpp', 'server/psi_request_handler.cpp', 'server/session_manager.cpp', 'server/site/json_site.cpp', 'server/mpfd-parser/Parser.cpp'],
  mech=[('parsing', 'server/server/request_parser.cpp'), ('files', 'server/server/request_handler.cpp'), ('forms', 'server/psi_server.cpp, server/mpfd-parser'), ('sessions', 'server/session_manager.cpp')],
  technique='model-based property testing of requests cut at random, and of a running server with concurrent clients',
  note='Left out: headers without a space after the colon, quoted multipart boundaries, null characters in included text.')
P('P21', title='Lexica give back exactly what their files hold, and mapping adds exactly that',
  statement='''A lexicon (text, or its binary form after saving and loading) gives, for every key, exactly the records its file has for it, in their order, and nothing for other strings; escapes, comments and blanks are
  read as documented and broken lines or files are refused. The mapper and the bilingual lexicon add to every matching edge exactly one edge per record (or the one for unknown items), with text, category and
  attributes set as the options say, over the same span and with the matched edge as its part; nothing else changes.''',
  over=['inputs', 'histories'], quant='All lexicon files, all keys, all lattices and option combinations, before and after saving.',
  why='Errors need several records of a key at distant places, keys near others, values of special lengths (varying encodings of numbers), empty sets, or unusual option combinations.',
  files=['tools/datastructures/lexica/lexicon_base.cpp', 'tools/datastructures/lexica/key_value_store.cpp', 'tools/lexica/mapper/mapper.cpp', 'tools/lexica/bilexicon/bilexicon.cpp', 'common/one_edge_at_a_time_annotator.hpp'],
  mech=[('store', 'tools/datastructures/lexica'), ('mapping', 'tools/lexica/mapper/mapper.cpp'), ('translation', 'tools/lexica/bilexicon/bilexicon.cpp')],
  technique='model-based property testing: dictionaries against a reading in Python, whole lattices against a reference model',
  note='Left out: tabs and semicolons inside values, null characters, empty fields.')
P('P22', title='Automata accept their language, and lemmatization follows the dictionary',
  statement='''Union, concatenation, intersection, option, star, plus, reversal and copying of finite automata, and automata built from regular expressions or from word lists, accept exactly the words they should; removing
  epsilons, determinizing, minimizing, pruning, saving and loading keep the language, and minimized automata are deterministic and minimal. A store of keys with several values gives exactly the values of each key.
  lamerlemma gives every token (and its form with the head or the tail in lower case) exactly the lemmas, lexemes and forms its dictionary has, at the level asked for, and refuses what it cannot read.''',
  over=['inputs', 'histories'], quant='All automata expressions, all word lists and dictionaries, all lattices and options.',
  why='The tests build a few fixed automata; errors need the empty word, shared prefixes and suffixes, other start states, long words, repeated lines or odd cases of letters.',
  files=['tools/datastructures/psi_query/fsa_algorithms.hpp', 'tools/datastructures/psi_query/fsa_bindfsa.hpp', 'tools/datastructures/psi_query/fsa_ndfsa_impl.hpp', 'tools/lemmatizers/lamerlemma/lamerlemma.cpp', 'tools/lemmatizers/lamerlemma/utility_functions.cpp', 'common/lemmatizer_annotator.hpp'],
  mech=[('algebra', 'tools/datastructures/psi_query/fsa_algorithms.hpp'), ('dictionary', 'tools/datastructures/psi_query/fsa_bindfsa.hpp'), ('lemmatization', 'tools/lemmatizers/lamerlemma')],
  technique='model-based property testing against finite sets of words and a reference lemmatizer; checks of minimality of the automata',
  note='Left out: bytes 253 to 255 (special symbols), words over 187 bytes in dictionaries, concatenation of an automaton that accepts nothing.')
P('P23', title='The parser builds exactly what its grammar allows, within its limits',
  statement="""The chart holds every edge that binary and unary rules derive from the terminals of a lattice (blanks between symbols skipped), with all its derivations and the best score, and nothing else; limits on edges
  per span only take edges away. The gobio parser, whatever it does to its rules (binarization, shared helper rules, optional symbols, alternatives, heads, compiled and filtered conditions), adds exactly the edges,
  with exactly the attributes, that follow from the rules as they are written; files with errors are refused and leave nothing behind.""",
  over=['inputs', 'configurations'], quant='All grammars with attributes and conditions, all lattices of terminals, all agenda orders and limits.',
  why='The tests have a few grammars; errors need interplay of optional symbols, alternatives, assignments and conditions over symbols that end up in different binarized rules, ambiguity, or cycles.',
  files=['tools/parsers/gobio/chart/chart.tpl', 'tools/parsers/gobio/parser/agenda_parser.tpl', 'tools/parsers/gobio/rules/decompose_expression.tpl', 'tools/parsers/gobio/rules/tgbg_combinator.tpl', 'tools/parsers/gobio/translator/grules.cpp', 'tools/parsers/gobio/gobio.cpp'],
  mech=[('chart parsing', 'tools/parsers/gobio/parser/agenda_parser.tpl'), ('rule compilation', 'tools/parsers/gobio/rules/tgbg_combinator.tpl'), ('rule reading', 'tools/parsers/gobio/translator')],
  technique='model-based property testing: closure of the rules computed independently, conditions evaluated as they are written',
  note='Left out: numeric constants, rules that mention blanks, external predicates, extra arguments of conditions, tree recipes.')
P('P24', title='Helpers of text, files and formats do what their definitions say',
  statement="""Lower, upper and title case (of whole strings, heads and tails) follow the Unicode tables, with the rules of Turkish and Azeri; regular expressions match, capture, consume and replace as Perl's do; file name
  patterns match exactly what they describe, also over directory trees; edit distance, MD5, limits by argument, escaping and the length of symbols agree with their definitions; looking ahead in a stream does not change it;
  Morfologik tags are expanded into exactly their combinations; the guessing reader gives the lattice of the reader that suits the file.""",
  over=['inputs'], quant='All strings, patterns, directory trees, tags and files.',
  why='The tests have a few ASCII or Polish samples; errors need rare characters, backtracking over multibyte characters, many groups, unknown or repeated tags, comments or large blocks.',
  files=['utf8case/general_case_converter.hpp', 'utf8case/special_casing_converter.cpp', 'common/regexp.hpp', 'common/segment_glob.cpp', 'common/ant_like_path_glob.cpp', 'common/morfologik_tags_parser.cpp', 'common/file_recognizer.cpp', 'common/stream_helpers.cpp', 'common/limit_checker.cpp', 'common/md5.cpp'],
  mech=[('case conversion', 'utf8case'), ('patterns', 'common/segment_glob.cpp'), ('tags', 'common/morfologik_tags_parser.cpp'), ('guessing', 'formats/guessing/guessing_reader/guessing_reader.cpp')],
  technique='differential property testing against Python (Unicode tables, re, hashlib) and reference definitions',
  note='Left out: characters cased after Unicode 6.0, patterns that match nothing, file names that are not UTF-8, files libmagic takes for something else.')
P('P25', title='DOT graphs, morphology tables and NKJP documents say what the lattice says',
  statement="""A DOT graph is valid DOT whatever is in the texts, and has exactly the nodes, arrows, labels, colours and alignment of the edges, partitions and parents that pass its filter (as a graph of vertices or a tree of
  dependencies); morphology and phrase tables have exactly one row per interpretation, complete with its category and attributes; reading an NKJP document gives exactly its segments, with all interpretations and the
  chosen one kept.""",
  over=['inputs', 'configurations'], quant='All lattices, option sets and documents of the described domains.',
  why='The tests compare a few golden files; errors need quotation marks in labels, many colours, no edges, several partitions of a tree, or segments that share a form.',
  files=['formats/dot/dot_lattice_writer.cpp', 'formats/morphology/morphology-writer/morphology_lattice_writer.cpp', 'formats/phrases/phrases-writer/phrases_lattice_writer.cpp', 'formats/nkjp/nkjp_lattice_reader.cpp'],
  mech=[('DOT graphs', 'formats/dot'), ('tables', 'formats/morphology'), ('NKJP', 'formats/nkjp')],
  technique='model-based property testing: the output parsed independently and compared with a reference model of the lattice',
  note='Left out: NKJP segments without an orth or a comment, empty values.')
P('P26', title='Statistical models and small annotators compute what their definitions say',
  statement="""Training by generalized iterative scaling gives the maximum entropy model of the events (cutoff, tolerance, Gaussian prior, any number of outcomes), evaluation gives its normalized distribution whatever the
  weights, and writing and reading a model, as text or binary, changes nothing; metagger and inflector choose the most probable available tag of every token from the context left to right, discard all other forms and add
  a missing one; the language guesser, simple normalizer and detokenizer add exactly the edges of their definitions.""",
  over=['inputs', 'configurations'], quant='All event sets, contexts, weights, token lattices, texts, rules and options.',
  why='The tests train on one text; errors need very low log-probabilities, real-valued features, ties, forms already discarded, long predicates, single letters, or tokens out of order.',
  files=['maxent/maxentmodel.cpp', 'maxent/gistrainer.cpp', 'maxent/trainer.cpp', 'maxent/modelfile.cpp', 'tools/taggers/metagger/me_tagger.cpp', 'tools/taggers/inflector/inflector.cpp', 'tools/recognizers/langguesser/lang_guesser.cpp',
         'tools/normalizers/simplenorm/simplenorm_normalizer.cpp', 'tools/tokenizers/detok/detok.cpp'],
  mech=[('models', 'maxent'), ('tagging', 'tools/taggers'), ('language guessing', 'tools/recognizers/langguesser')],
  technique='differential property testing against a reference implementation of generalized iterative scaling and models of the annotators',
  note='Left out: forms with head or orth attributes, attributes first seen in another order, lbfgs, equal probabilities, texts that are not UTF-8.')

P('P27', title='The shallow parser applies its cascade of rules exactly',
  statement="""Rules are applied one after another, each wherever it matches from left to right: its contexts and elements (tokens that satisfy conditions on orth, base, part of speech and attributes; groups; alternatives; ?, * and +)
  match as in a regular expression over the tokens and groups of the sentence, where ~ asks for one interpretation that satisfies all such conditions, ~~ for all and !~ for none. group makes one edge per remaining
  interpretation of the head, with its attributes, the place of the head and every derivation; delete discards exactly the interpretations that satisfy all its conditions, unify those that no agreeing combination contains.""",
  over=['inputs', 'configurations'], quant='All sentences, tagsets and cascades of group, delete and unify rules.',
  why='The tests load rules and parse a few sentences; errors need left contexts, several interpretations, repeated or omitted elements, words that are prefixes of others, or three words to unify.',
  files=['tools/parsers/puddle/rule_matcher.cpp', 'tools/parsers/puddle/rule_loader.cpp', 'tools/parsers/puddle/rule.cpp', 'tools/parsers/puddle/group_action.cpp', 'tools/parsers/puddle/delete_action.cpp',
         'tools/parsers/puddle/unify_action.cpp', 'tools/parsers/puddle/lattice_wrapper.cpp', 'tools/parsers/puddle/puddle_util.cpp', 'tools/parsers/puddle/tagset.cpp'],
  mech=[('rules', 'tools/parsers/puddle/rule_loader.cpp'), ('matching', 'tools/parsers/puddle/rule.cpp'), ('actions', 'tools/parsers/puddle/*_action.cpp')],
  technique='differential property testing against a model that matches rules over a string with a letter for each element',
  note='Left out: attach, join, transform, syntok and add actions, repetition and automatic deletion, head conditions, /i before the last condition of a token, groups that would contain themselves, words that agree in each attribute but not in all.')

P('P28', title='Archives are unpacked byte for byte, and damage is noticed',
  statement="""Listing an archive gives the names of its files and extracting it gives, for the files whose names match a pattern, exactly the bytes packed, for zip (stored, deflated, streamed, with extra fields and comments) and gzip archives
  and plain files, from a path or from bytes in memory, also when several processes do it at once; damaged archives are refused or give only contents that were packed, and leave no file open. The kind of an office document follows
  from the files in it, and apertium-reader reads a packed document as it reads its contents.""",
  over=['inputs', 'schedules', 'fault_sequences'], quant='All sets of files, ways to pack them, patterns, damage, and numbers of processes.',
  why='The tests only list one small archive; errors need files around the sizes of buffers, long headers, certain bytes in the packed data, damage, or another process in between.',
  files=['common/file_extractor.cpp', 'common/file_recognizer.cpp', 'common/md5.cpp', 'formats/apertium/apertium_reader/apertium_deformatter.cpp', 'formats/apertium/apertium_reader/apertium_lattice_reader.cpp', 'fex/fex/Zip_Extractor.cpp',
         'fex/fex/Gzip_Reader.cpp', 'fex/fex/Zlib_Inflater.cpp', 'fex/fex/File_Extractor.cpp', 'fex/fex/Data_Reader.cpp'],
  mech=[('extraction', 'common/file_extractor.cpp'), ('archives', 'fex/fex'), ('kinds', 'common/file_recognizer.cpp')],
  technique='round-trip and fault-injection property testing against Python zipfile and zlib',
  note='Left out: gzip files of several members (only the first is read) and with damaged data of the right length (the sum is not compared), zip64, encryption, archive comments over 4 kB, 7z and rar; hidden files packed under Unix are skipped by design.')
