prop('C10', 'Reading and writing law XML never panics',
     'Reading a document (from bytes or a file) ends with a law or an error and writing a law ends with XML or an error, without panicking, '
     'whatever the document, the file or the law contains. Empty elements, missing children, malformed numbers and failing writers are '
     'no exception.', ['inputs'], 'every byte string, file and law value; every element kind at every place',
     'The unit tests read two well-formed laws and write one; a panic hides in the malformed, empty or unusual element no test contains.',
     ['src/lib.rs', 'src/law.rs', 'src/article.rs', 'src/article_number.rs', 'src/text.rs', 'src/class.rs', 'src/structs.rs'],
     [('error returns instead of unwrap/index in all readers and writers', 'src/*.rs')],
     'static panic-reachability: condition of every unwrap, index, slice, assertion and diverging call from value-flow summaries of the MIR',
     'For every function reachable from the entry points the condition under which each panicking operation fails is shown unsatisfiable on all '
     'paths. Trusted: xmltree, std I/O and formatting do not panic; stack depth and memory are outside. Conditions that cannot be decided are '
     'reported UNDECIDED.',
     'Static: the functions reachable from parse_xml, parse_xml_file, to_xml and write_file are summarised from the MIR of the current source; '
     'every panicking operation contributes its failure condition (joined over all paths) which must be false, or is tried on elements of a few '
     'shapes when loops make it undecidable. One obligation per function. Nothing is executed and no solver is used.')

prop('C12', 'Reading, writing, searching and converting always come to an end',
     'Every operation of the library - reading and writing XML, building a law from plain text, listing articles, chapters and tables of contents, '
     'extracting text, and converting numbers - returns after finitely many steps for every finite input. In particular no order, repetition or '
     'combination of headings, captions, items and stray lines makes building a law from text loop forever.', ['inputs'],
     'every text, document, law and number; every loop and every recursion the exported functions can reach',
     'A test that ends says nothing about the input on which the loop does not advance; the texts in the unit tests use few line kinds in few orders.',
     ['src/parse_from_text.rs', 'src/article_number.rs', 'src/utils.rs', 'src/text.rs', 'src/lib.rs', 'src/law.rs'],
     [('line loops that must take a line per round', 'src/parse_from_text.rs'), ('number loops', 'src/article_number.rs'),
      ('recursion over elements and divisions', 'src/article.rs, src/paragraph.rs, src/text.rs')],
     'static termination analysis on the MIR: progress rule for every loop cycle, size-change of arguments for every recursive call',
     'Every cycle of every reachable function must take from an iterator or collection that is not reset in the cycle, step a bounded counter or '
     'call a helper that always does; recursive calls must hand on a proper part. A cycle that changes nothing its exits depend on is a violation; '
     'any other cycle without a rule is UNDECIDED. Assumes library iterators are finite; trees are finite.',
     'Static: the loops (strongly connected components) and recursive call cycles of every function reachable from the exported API are read from '
     'the MIR of the current source. A loop is accepted when every cycle advances (rules: take, counter, shrinking), by a dataflow over the component; '
     'it is a violation when a path through it leaves all its decisions as they were. One obligation per looping function and recursive component.')

prop('C13', 'The library has no effects and no state besides its arguments and results',
     'No operation prints to standard output or error, reads the environment, the clock or random numbers, starts threads or processes, or keeps '
     'state between calls, so the same call always gives the same result. The only access to the file system is that reading a law from a file '
     'reads the file at the given path; nothing else opens, creates or changes a file.', ['inputs', 'histories'],
     'every exported function, every input, every order of calls',
     'Tests compare results; output on the console in a rare branch, an environment lookup or state kept for a later call does not show in them.',
     ['src/lib.rs', 'src/law.rs', 'src/to_xml.rs', 'src/article_number.rs', 'src/parse_from_text.rs', 'src/utils.rs', 'src/text.rs'],
     [('whole call graph of the exported API', 'src/*.rs'), ('file access', 'src/lib.rs')],
     'static effect analysis over the call graph of the MIR (deny rules for effectful library calls, statics and unordered iteration)',
     'Every call and static in every function reachable from the exported API is classified. Library crates (xmltree, regex, koyomi, serde) are '
     'trusted to be free of effects except for their clock functions. The order of attributes in written XML is up to xmltree and not claimed.',
     'Static: all call sites and constants of every function reachable from the exported functions (closures, trait implementations and formatting '
     'included) are scanned in the MIR of the current source; effects are found by the resolved callee, state by the type of the static. One '
     'obligation per function. Nothing is executed.')

T_NUM = 'static value-flow analysis (MIR summaries of the number functions, compared with the notation as string terms)'
X_NUM = ('Static: the number functions are summarised from the MIR of the current source as string terms over an arbitrary number (any length of '
         'branches and range), loops included; regular expressions of the source are run as automata over the symbolic text. Nothing is executed, '
         'no solver is used. One obligation per kind of number; counts and any differing case (with an example text) are reported.')
prop('C14', 'Numbers in attributes survive reading and writing',
     'The text of a Num attribute made for an article number (base number, branch numbers joined by "_", end of the range after ":") is read back as '
     'the same base number, branches and range, whatever they are and however many branches there are. A text in which a part is empty, not a number '
     'or too large is an error; no part is skipped or defaulted.', ['inputs'],
     'every base number, every list of branches, every range with branches; malformed parts at every place',
     'The unit tests read a few short numbers; order, loss or duplication shows only with several branches or a range with branches.',
     ['src/article_number.rs'], [('num_str and from_num_str', 'src/article_number.rs')], T_NUM,
     'Both directions are summarised and composed; the composition is shown to be the identity on terms, and malformed shapes are shown to be errors. '
     'Assumes parsing an integer inverts printing it. Texts with more than one ":" are not claimed.', X_NUM)
prop('C15', 'Numbers are written in the notation of Japanese laws',
     'The text of a heading number is 第, the number in kanji, the suffix (編, 章, 節, 款, 目 or 条), each branch as の and kanji, and a range as '
     'から第…まで with the suffix repeated; paragraph numbers use full-width digits. Item numbers use the symbol of their pattern (kanji, iroha '
     'in katakana or hiragana, full-width digits, Roman numerals, letters; with or without full-width parentheses), and full-width digits when the '
     'pattern has no symbol for the number. Branches and ends of ranges are never lost, repeated or written in another notation.', ['inputs'],
     'every number, list of branches and range; every suffix and every item pattern',
     'Tests compare a handful of small numbers; single wrong entries of the symbol tables, ranges with branches and rare patterns stay unseen.',
     ['src/article_number.rs'], [('part_text … article_text, paragraph_text, item_text and the symbol tables', 'src/article_number.rs')], T_NUM,
     'For each kind the summary of the writing function is compared with the notation, character tables included, for arbitrary branches and ranges. '
     'Trusted: the kansuji and roman crates write numbers correctly.', X_NUM)
prop('C16', 'Written numbers are read back as the same number',
     'Reading the text of a heading number (with or without 第, in kanji below 10000, full-width or ASCII digits, branches with の or ノ), of a paragraph number '
     'or of an item number (any pattern, Roman numerals below 400, a single letter) gives the same base number, branches, range end and item pattern '
     'as it was written from. Nothing of it is ignored, moved or attributed to another pattern. Hiragana ordinal の (26) is excluded since it is '
     'also the branch mark.', ['inputs'],
     'every number and list of branches in every notation, with and without range',
     'Tests use some numbers in some notations; a digit or letter missing in one of the many character classes or tables shows only for particular numbers.',
     ['src/article_number.rs'], [('parse_article_number, parse_item_number and their regular expressions', 'src/article_number.rs')], T_NUM,
     'For each notation the text as a symbolic string is run through the regular expressions (automaton product over all words) and the summary of the '
     'reader; the result must be the number. Trusted: regex crate semantics (leftmost-first), kansuji and roman read back what they write.', X_NUM)
prop('C11', 'Strings and files give the same laws and the same XML',
     'Reading a law from a file gives exactly what reading the bytes of that file gives, for the whole file and without changing its content; the law '
     'read is returned as read. The XML string and the XML written to a writer come from the same element with the same settings. A file that cannot be '
     'opened or read, XML that cannot be parsed and a writer that fails are reported as errors, never as success or partial output.', ['inputs', 'fault_sequences'],
     'every document, file and writer, including partial reads and writers that fail late',
     'Tests only use small in-memory strings; large files, other encodings, pipes and failing writers are never exercised.',
     ['src/lib.rs'], [('parse_xml, parse_xml_file, to_xml, write_file, WritableString', 'src/lib.rs')],
     'symbolic summaries of the compiled code compared as terms over the library calls',
     'The four entry points are summarised as terms over the calls of std, xmltree and the reader and writer of laws, and compared with each other; each call that can '
     'fail must lead to an error when it does. Trusted: std read_to_end, the XML library.', 
     'The rules: the file variant with the bytes of the file in place of the argument equals the string variant; one element and one configuration is written by both; the state of the '
     'in-memory sink after a write is the state before plus the bytes; a failing library call leads to an error result on every path.')
prop('C17', 'Serde conversion, equality and copies cover every part of a value',
     'Each type that can be converted with serde is written with all its fields and variants, each under a name of its own, and the same name is read as the same field or variant; '
     'what may be left out is not required when reading. Two values are equal only if all their parts are equal, equal values hash alike, and a clone has all parts of the original.', ['inputs'],
     'every type with conversions, every field and variant',
     'No test converts through serde; a field skipped or renamed on one side, or an equality that ignores a part, also blinds the comparisons in the other tests.',
     ['src/'], [('derives of Serialize, Deserialize, PartialEq, Hash and Clone', 'src/*.rs')],
     'symbolic summaries of derived and hand-written trait implementations, names and fields paired',
     'The code behind the traits (after macro expansion) is summarised; names written and names read are paired per type, equality is tested with each pair of fields set different. '
     'Trusted: the serde format and what the compiler derives.',
     'Per type: every field is written, names differ, each name is read as the same field; a field left out in some cases is not required when reading; hand-written equality is false '
     'when any one field differs; hand-written copies have all fields.')
T_LIST = 'symbolic summaries of the compiled code compared with the walk over the types'
X_LIST = ('What the list has to be is put together from the types alone (children at every depth, numbers of the divisions around); the function, helpers included, is summarised as a '
          'sequence term over an unknown provision and the two are compared; when a loop keeps state that has no closed form, provisions with known children and unknown contents are compared.')
prop('C18', 'Listed articles are complete, in order and with their place',
     'The list of articles of a main or supplementary provision has every article of it exactly once, in document order, at whatever depth of parts, chapters, sections, subsections and '
     'divisions; the numbered list gives with each article exactly the numbers of the divisions around it. Paragraphs directly in the main provision are grouped in order, a new group '
     'starting at each article or division; what is set in an entry is read back and changes nothing else.', ['inputs'],
     'every provision, at every depth and mix of divisions',
     'The tests have no deeply nested provisions; an article lost, doubled or with the number of another division shows only for particular nestings.',
     ['src/utils.rs'], [('article lists and numbered article lists', 'src/utils.rs')], T_LIST, 'The comparison is on terms; the children of the types decide what has to be there.', X_LIST)
prop('C19', 'Plain texts contain every text once, in order and at its place',
     'The text entries of paragraphs have one entry per paragraph, item and subitem at every depth, in order, with the number of the paragraph and of all items down to it; the text is that of '
     'its sentences, of its columns joined by spaces, or of its table (cells joined by spaces, rows on lines). The text of a sentence, cell or title has every text, ruby base, sub- and superscript (in sentences as _{} and ^{}) '
     'once and in order, in quotations and formulas too, without ruby readings and lines; the text of an article is its entries on lines.', ['inputs'],
     'every article, paragraph, sentence, title and table',
     'Tests have short sentences and one or two levels; each level of items has code of its own, and each kind of inline element in each context.',
     ['src/utils.rs', 'src/text.rs'], [('text_from_article, text_info_list_from_paragraph, sentence_element_to_str, table_to_str', 'src/utils.rs'), ('ToString of inline texts', 'src/text.rs')], T_LIST,
     'Each public text function is summarised whole, over all levels of items. Contents that have no text form (figures, nested paragraphs in quotations) are not claimed.', X_LIST)
prop('C20', 'Listed headings are complete, in order and with their place',
     'The table of contents made from a main or supplementary provision has one entry for every part, chapter, section, subsection, division and article of it, in document order, each with '
     'its own title and exactly the numbers of the divisions around it (and of itself). No number or title is carried over from an entry before it; what is set in an entry is read back and '
     'changes nothing else.', ['inputs'],
     'every provision, at every depth and mix of divisions',
     'No test makes a table of contents; numbers carried over from an entry before show only with several divisions side by side.',
     ['src/utils.rs'], [('toc lists', 'src/utils.rs')], T_LIST, 'The comparison is on terms; the children of the types decide what has to be there.', X_LIST)
prop('C21', 'Text, number and listing operations never panic',
     'Building a law from plain text, reading and writing the numbers of headings and items, listing articles, chapters and tables of contents and extracting text end with a value, nothing '
     'or an error, and never panic, whatever the text, number, date, pattern or law. Numbers too large, symbols out of range, ranges of the wrong form and dates outside the eras are no exception.',
     ['inputs'], 'every text, number, date, pattern and law',
     'A panic needs one odd input (an era that does not exist, a number beyond a table, a missing group of a regular expression); tests try ordinary ones.',
     ['src/article_number.rs', 'src/parse_from_text.rs', 'src/utils.rs', 'src/lib.rs'], [('number readers and writers', 'src/article_number.rs'), ('text parser', 'src/parse_from_text.rs')],
     'symbolic summaries of the compiled code; conditions of panics refined with intervals and the structure of the regular expressions',
     'Every exported operation, and every function that runs a regular expression or advances an iterator it is given, is examined for arbitrary arguments. Assumes no overflow from counting what is in memory, '
     'and that the libraries (regex, kansuji, roman, koyomi) do not panic.',
     'Each place that can panic (unwrap, indexing, slices, missing groups, arithmetic, unreachable code) carries its condition; it has to be infeasible: constant expressions compile, groups that take part in '
     'every match are there, one of the alternative groups takes part, values lie within the bounds they were compared with.')
prop('C22', 'A law built from plain text has every line at its place',
     'A law built from plain text has the title and the date given (year of the era), and every line of the text exactly once, in order, in the place its number or form states: parts, chapters, '
     'sections, subsections, divisions, captioned articles, paragraphs, nested items, supplementary provisions and plain sentences. Blank lines make no difference.',
     ['inputs'], 'every text made of such lines, in any order and number',
     'The one test has a short text; a line lost, doubled or put at another level shows only for particular sequences of lines.',
     ['src/parse_from_text.rs', 'src/lib.rs'], [('line classes and descent over lines', 'src/parse_from_text.rs')],
     na='the parser is a mutual recursion over a shared line iterator; per-function summaries exist, an oracle for their composition not yet')
