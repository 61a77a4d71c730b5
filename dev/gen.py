"""generates properties.jsonl, MANIFEST.json and analysis/explain.json from the records below"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA, EXPL = [], [], [], {}


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, explain=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant},
                  'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': 'python3 analysis/check.py ' + id, 'technique': technique, 'level': 'other',
                       'level_note': note})
        EXPL[id] = explain


WHY_RT = ('The unit tests read one or two fixed law files and never write a value and read it back for arbitrary content; the claim is over '
          'every value a document can contain (every combination of optional attributes, labels and nested elements).')
T_RT = 'static value-flow summaries of reader and writer (MIR dataflow with gated joins), composed and compared field by field'
N_RT = ("For each type, shows on all paths that reader(writer(v)) = Ok(v) for an unknown v, from summaries of the compiled MIR; nested types by "
        "induction. Assumes std/xmltree/formatting behave as modelled (element tree level; serialising the tree to bytes is xmltree's), values "
        "produced by readers (e.g. no empty sentence lists). Unsummarisable code is reported UNDECIDED, not claimed.")
X_RT = ('Static: the MIR of the current /repo source is exported by a rustc driver; for every type of the group the reader and the writer are '
        'summarised by an abstract interpretation over symbolic values (all paths joined with gating conditions, loops summarised as '
        'per-element maps/filters); the composition reader(writer(v)) is normalised and each field compared with the corresponding field of v. '
        'One obligation per type. Nothing is executed and no solver is used.')
WHY_RD = ('The unit tests only read well-formed files of two fixed laws; the claim is over every malformed document: every place where an '
          'element, attribute or value can be wrong.')
T_RD = 'static value-flow summaries of every reader (MIR dataflow with gated joins), checked per child/attribute class'
X_RD = ('Static: every reader is summarised from the MIR of the current source over an unknown element (all paths joined with gating conditions, '
        'the child loop summarised as a state transition on one unknown child); each obligation (type, child or attribute) is decided on '
        'that summary. Nothing is executed and no solver is used.')

prop('C01', 'A law read back from the XML written for it is the same law',
     'Writing a law (or its body, enactment statement, preamble or supplementary provisions) as an XML element and reading that element again '
     'succeeds and yields an equal value, for every value that reading a document can produce. No attribute, label, number or nested element of '
     'the law is lost, renamed, duplicated or moved to another place on the way.', ['inputs'],
     'every law value obtainable by reading a document; every combination of optional attributes, labels and children', WHY_RT,
     ['src/law.rs', 'src/suppl_provision.rs'],
     [('reader and writer of Law, LawBody, SupplProvision and their parts', 'src/law.rs, src/suppl_provision.rs')], T_RT, N_RT, X_RT)
prop('C02', 'Articles, paragraphs, items and sentences survive writing and reading back',
     'Writing an article, paragraph, item, subitem, list, class or sentence element and reading it again succeeds and yields an equal value: '
     'titles, captions, numbers, Delete/Hide flags, functions and every child in its order. This holds for every value that reading a document '
     'can produce.', ['inputs'], 'every value of the provision element types obtainable by reading a document', WHY_RT,
     ['src/article.rs', 'src/paragraph.rs', 'src/class.rs', 'src/list.rs', 'src/sentence.rs'],
     [('readers and writers of Part, Chapter, Article, Paragraph, Item, Subitem1-10, List, Class, Sentence, Column',
       'src/article.rs, src/paragraph.rs, src/class.rs, src/list.rs, src/sentence.rs')], T_RT, N_RT, X_RT)
prop('C03', 'Appended tables, forms, figures and remarks survive writing and reading back',
     'Writing an appendix, table, row, column, figure, format, note, style, structure or remarks element and reading it again succeeds and '
     'yields an equal value, including related article numbers, alignment, line styles, spans and labels. This holds for every value that '
     'reading a document can produce.', ['inputs'], 'every value of the appendix, table, figure, structure and remarks types obtainable by reading a document',
     WHY_RT, ['src/appdx.rs', 'src/structs.rs', 'src/table.rs', 'src/fig.rs', 'src/contents.rs', 'src/remarks.rs'],
     [('readers and writers of appendix, table, figure, struct and remarks elements',
       'src/appdx.rs, src/structs.rs, src/table.rs, src/fig.rs, src/contents.rs, src/remarks.rs')], T_RT, N_RT, X_RT)
prop('C04', 'A table of contents survives writing and reading back',
     'Writing a table of contents or any of its entries (parts, chapters, sections, subsections, divisions, articles, supplementary provisions) '
     'and reading it again succeeds and yields an equal value. Titles, numbers, article ranges, Delete flags and nested entries are all kept in '
     'place.', ['inputs'], 'every table of contents obtainable by reading a document', WHY_RT, ['src/table_of_contents.rs'],
     [('readers and writers of TOC and its entries', 'src/table_of_contents.rs')], T_RT, N_RT, X_RT)
prop('C05', 'Text and inline markup survive writing and reading back',
     'Writing a text with its inline markup (ruby, lines, superscripts, subscripts, quoted structures, arithmetic formulas) and reading it again '
     'yields an equal text: every text run and every piece of markup, in the same order with the same attributes. This holds for every text that '
     'reading a document can produce.', ['inputs'], 'every text with inline markup obtainable by reading a document', WHY_RT,
     ['src/text.rs', 'src/line.rs'],
     [('reading of element children into text and writing of text into children; readers and writers of Ruby, Line, QuoteStruct, ArithFormula',
       'src/text.rs, src/line.rs')], T_RT, N_RT, X_RT)
prop('C06', 'An unexpected element anywhere in the document makes reading fail',
     'When an element of a law document contains a child element that its content model does not know, reading the document fails; the child is '
     'never silently dropped. This holds for every kind of element and every position among its siblings. (Figures, superscripts, subscripts and '
     'inline text of titles are recorded exceptions.)', ['inputs'], 'every element kind, every unknown child element, every position', WHY_RD,
     ['src/law.rs', 'src/article.rs', 'src/paragraph.rs', 'src/structs.rs', 'src/table.rs', 'src/table_of_contents.rs', 'src/appdx.rs',
      'src/suppl_provision.rs', 'src/contents.rs', 'src/text.rs', 'src/result.rs'],
     [('the default arm of the child loop of every reader, and the wrong-tag check at the start of nested readers', 'src/*.rs')], T_RD,
     'For each reader, the transition of the child loop on an unknown child with an unknown tag is shown to yield an error on every path; '
     'inline text (Text) is delegated. Assumes std/xmltree as modelled. Unsummarisable readers are reported UNDECIDED.', X_RD)
prop('C07', 'A malformed nested element is reported, not dropped',
     'When reading a child element fails, reading the element that contains it fails too: the error reaches the caller and the malformed child '
     'is neither skipped nor replaced by a default. This holds at every nesting level of the document. (Markup inside inline text of titles is a '
     'recorded exception.)', ['inputs'], 'every parent/child pair of element kinds, every malformed child', WHY_RD,
     ['src/law.rs', 'src/article.rs', 'src/paragraph.rs', 'src/structs.rs', 'src/table.rs', 'src/table_of_contents.rs', 'src/appdx.rs',
      'src/suppl_provision.rs', 'src/contents.rs', 'src/text.rs', 'src/result.rs'],
     [('error propagation from nested readers', 'src/*.rs')], T_RD,
     'For each (parent, nested reader) pair, shows that whenever the nested reading of some child is an error the result of the parent is an '
     'error, on every path. Assumes std/xmltree as modelled. Unsummarisable readers are reported UNDECIDED.', X_RD)
prop('C08', 'Missing required attributes or children and undefined values are errors',
     'Reading fails when an element lacks an attribute or child element that its type needs (for example the number of a chapter, the date '
     'attributes of a law, the caption of an article in a table of contents), and when an enumerated attribute carries a value the schema does '
     'not define. No default is made up for them. (Writing mode, alignment and table borders are deliberately lenient.)', ['inputs'], 'every required attribute and child of every element kind, every undefined value',
     WHY_RD, ['src/law.rs', 'src/article.rs', 'src/paragraph.rs', 'src/class.rs', 'src/structs.rs', 'src/table.rs', 'src/table_of_contents.rs',
              'src/appdx.rs', 'src/suppl_provision.rs', 'src/sentence.rs', 'src/line.rs', 'src/result.rs'],
     [('attribute and child requirements in the readers', 'src/*.rs')], T_RD,
     'The required attributes/children and strict enumerations per element kind are frozen in analysis/schema.json (derived from the law XML '
     'schema and the code); for each, the summary of the reader is shown to be an error when it is missing/undefined, on every path. '
     'Attributes the reader deliberately treats leniently are not claimed.', X_RD)
prop('C09', 'Element names, attributes and values map to the fields of the law schema',
     'Each element kind is read from the tag, the attributes, the attribute values and the child tags of the Japanese standard law XML schema, and '
     'each lands in its own place of the value: for example Extract="true" in the extract flag, WritingMode="vertical" as vertical, an '
     'ArticleTitle child as the title of the article. No attribute, attribute value or child tag is misspelled, swapped with another or ignored.', ['inputs'],
     'every element kind, attribute, attribute value and child tag of the schema',
     'The unit tests read two fixed laws, which use a small part of the schema; most tags, attributes and values never occur in them.',
     ['src/law.rs', 'src/article.rs', 'src/paragraph.rs', 'src/class.rs', 'src/structs.rs', 'src/table.rs', 'src/table_of_contents.rs', 'src/appdx.rs',
      'src/suppl_provision.rs', 'src/contents.rs', 'src/sentence.rs', 'src/line.rs', 'src/text.rs', 'src/list.rs', 'src/fig.rs', 'src/remarks.rs'],
     [('tag, attribute and value literals in the readers and the fields they are stored in', 'src/*.rs')], T_RD,
     'The vocabulary (tags, attributes, values, children and the fields they fill) is frozen in analysis/schema.json; each entry is looked up in '
     'the summary of the current reader. Changes of the public field names are reported as UNDECIDED, not as violations.', X_RD)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash analysis/export.sh build/setup.json && rm -f build/setup.json', 'checks': CHECKS,
                   'not_applicable': NA}, f, ensure_ascii=False, indent=1)
    with open(os.path.join(ROOT, 'analysis', 'explain.json'), 'w') as f:
        json.dump(EXPL, f, ensure_ascii=False, indent=1)


main()
