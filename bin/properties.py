import json
R='src/po/reader.rs';P_='src/po/parser.rs';X='src/po/message_extractor.rs';D='src/po/decoder.rs';LI='src/po/line_iter.rs';L='src/po/line.rs';U='src/po/unescape.rs';F='src/plural/forms.rs';PL='src/plural/plural.rs';G='src/plural/formula/formula.lalrpop';FM='src/plural/formula/mod.rs';N='src/plural/formula/node.rs';M='src/enums/message.rs';S='src/enums/state.rs';E='src/error.rs';UN='src/unit.rs';LB='src/lib.rs';NO='src/note.rs';CO='src/comment.rs';OR='src/enums/origin.rs'
T=[]
def p(id,title,stmt,over,text,why,files,mech,obs):
    T.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p('C01','Catalogue fidelity',
 'Reading any well-formed PO catalogue yields one unit per entry, in file order, carrying exactly what the file says: context, source, plural source, translations, previous source and context, comments, flags, locations, state and obsolete mark; the header entry yields no unit but fills the header data. No entry is lost, merged, repeated or altered, whatever the number of entries, their sizes and their content, and the reader then ends without an error.',
 ['inputs'],'every well-formed catalogue: any number of entries, any strings, any mix of features, with or without header and plural rule',
 'The tests read three short files with few features each; the combination of features, sizes and contents is unbounded.',
 [R,X,D,LI,P_,UN,M],[('entry loop','PoReader::read_unit / next_unit (src/po/reader.rs)'),('field order of an entry','MessageExtractor::parse_message_fields'),('one-line lookahead','LineIter as Decoder')],
 ['PoParser::parse','PoReader as Iterator','Unit accessors','CatalogueReader'])
p('C02','String decoding',
 'A quoted string, wherever it stands (msgctxt, msgid, msgid_plural, msgstr, msgstr[i], previous source, header; live or obsolete), denotes exactly its characters with \\n, \\r, \\t, \\" and \\\\ replaced by the character they stand for, each backslash pair read once from left to right, and everything else unchanged. A string written on several lines denotes the concatenation of its pieces in order, each decoded on its own, whatever their number and lengths.',
 ['inputs'],'every string body and every split of it over continuation lines, in every field',
 'The tests sample a handful of escapes; sequences of backslashes, splits next to escapes, lengths and positions are unbounded.',
 [U,P_,D,LI,L],[('escape substitution','Unescaper::unescape'),('string capture of a line','PoParser::parse_line'),('continuation lines','LineIter::parse_msg')],['Message::get_id / get_text / values','Unit::context / prev_context / prev_message','header_properties'])
p('C03','Layout invariance',
 'The layout of a file carries no meaning: indentation, blanks between keyword and string or before the line end, blank lines anywhere, how strings are split over lines, LF or CRLF line ends (also mixed), raw or escaped tabs, and a missing final line end change nothing that can be observed through the reader.',
 ['inputs'],'every catalogue and every pair of layouts of it',
 'It relates two files; no test reads one catalogue in two layouts.',
 [P_,LI,R,L,D],[('blank and indented lines','PoParser::parse_line'),('line splitting','LineIter'),('skipping of blank lines','LineIter::next')],['PoReader as Iterator','CatalogueReader'])
p('C04','Comment classification',
 'Every comment line before an entry ends up on that entry only, in order and with its exact text, by its kind: "#," flags (each comma-separated non-empty item), "#:" locations (each blank-separated item), "#." developer notes, "#" followed by white space or nothing translator notes, any other character a custom comment of that kind. A comment never changes a message, even if it holds quoted text, keywords or a commented-out entry, and comments after the last entry give no unit and no error.',
 ['inputs'],'every sequence of comment lines of every kind and content before entries, the header and the end of the file',
 'Tests use a few tame comments; texts that look like PO syntax, unusual kinds and long sequences are not sampled.',
 [R,P_,NO,CO,OR,UN],[('dispatch by kind','PoReader::parse_comments'),('message line before comment line','PoParser::parse_line')],['Unit::notes / comments / flags / locations','header_notes','header_comments'])
p('C05','Translation state',
 'The state of a unit is NeedsWork exactly if one of its flags is "fuzzy" (exact spelling, any position, any flag line), else Empty if its translation is blank (no text; or no variant, or only empty ones), else Final, and the unit counts as translated exactly in the state Final. Flags other than "fuzzy" and the flags of other entries have no influence, and the rule is the same for simple, plural, obsolete and context-carrying entries.',
 ['inputs','histories'],'every combination of flag lines and translations over sequences of entries',
 'Tests cover single flag lines on single entries; interactions with neighbours, order and partly blank plurals are not covered.',
 [R,S,M,UN,PL],[('fuzzy detection','PoReader::parse_comments'),('Final when not blank','PoReader::read_unit'),('blankness','Message::is_blank / Plural::is_blank')],['Unit::state','Unit::is_translated','Message::is_blank'])
p('C06','Header data',
 'The header properties are exactly the "key: value" lines of the header text: split at the first colon, both sides trimmed, lines without colon ignored, values of a repeated key joined by one space in file order. The notes and comments of the header entry are exposed as header notes and comments, the header never appears as a unit, and a file without header has empty header data and loses no entry; none of this changes while the units are read.',
 ['inputs','histories'],'every header text and header comments, or none, and every moment of reading',
 'Tests read few headers in the usual form; repeated keys, odd spacing, colons in values, long headers and the missing header combine freely.',
 [R,LB],[('header decoding','PoReader::parse_po_header'),('header detection','PoReader::new')],['header_properties','header_notes','header_comments'])
p('C07','Target language',
 'The target language is what the Language header denotes: a well-formed language range (BCP 47) in canonical case, else the language range equivalent to a Unix locale name (language_REGION.encoding@modifier), and the invariant language if the header is absent, empty or neither of the two. No value makes opening the file fail or panic.',
 ['inputs'],'every value of the Language header, at every place in the header',
 'Tests know a few names; arbitrary and malformed values are not sampled.',
 [R],[('Language header','PoReader::parse_po_header'),('fallback chain','LanguageRange::new / from_unix')],['CatalogueReader::target_language'])
p('C08','Formula semantics',
 'For every accepted plural formula without the word "not", the form selected for a count is the value of the formula as a C expression over 64-bit integers: C precedence and associativity, logical and relational results 0 or 1, the conditional right-associative. A value below 0 or not below nplurals selects no form, a division by zero does not fail, and arithmetic wraps.',
 ['inputs'],'every formula and every count below 2^63 (larger counts: known finding)',
 'Tests evaluate about twenty formulas at a few counts; operator pairs, nesting and counts are unbounded.',
 [G,FM,N,F],[('grammar levels','src/plural/formula/formula.lalrpop'),('evaluation','Node::execute'),('range filter','PluralForms::get_value')],['PluralForms::get_value','Message::get_plural_text'])
p('C09','Plural-Forms decoding',
 'A Plural-Forms header made of "key=value;" items gives exactly the count, formula text and definition written in it, whatever the order, spacing, additional items and doubled semicolons; a missing nplurals means 2 and a missing formula means n. A value that is not such a list, whose nplurals is no number or whose formula is no formula is rejected when the file is opened, and an empty or absent header gives plural entries without a rule.',
 ['inputs'],'every Plural-Forms value, well-formed or mutated, in every header layout',
 'Tests contain few values; near-misses and layout variants are not sampled.',
 [F,P_,FM,R],[('item list','PoParser::parse_map'),('count and formula','PluralForms::parse')],['Plural::get_forms','PluralForms::get_count / get_formula / get_definition','PoParser::parse'])
p('C10','Variant selection',
 'The text of a plural message for a count is the variant whose index the rule selects for that count, nothing if the rule selects no form or the entry has no such variant; without a rule there is none. A simple message gives its text for every count, and the texts, the values list and the first variant shown as plain text agree with each other.',
 ['inputs'],'every plural entry, rule and count',
 'Tests query few counts under one or two rules.',
 [PL,M,F],[('selection','Plural::get'),('dispatch','Message::get_plural_text')],['Message::get_plural_text','Plural::get / first / values','Message::get_text'])
p('C11','Variants keep their index',
 'A variant read at position i of a plural entry is one written as msgstr[i] of that entry, for every i and every list of msgstr lines; fewer variants than nplurals are accepted from 0 on without gap. A list with a gap, a repeated, misordered or missing index, or an index beyond nplurals never shifts, replaces or drops a variant silently: it ends in an error.',
 ['inputs'],'every list of msgstr[i] lines under every nplurals',
 'Tests use complete lists, and one with the middle left out at the level of a mock.',
 [X,LI,D],[('loop over the variants','MessageExtractor::new_message')],['Plural::values','PoReader as Iterator'])
p('C12','Robustness on any bytes',
 'Whatever bytes are given, opening and reading end without panic, abort or endless loop: each step yields a unit, an error or the end, and after the first error or the end nothing more comes. Every unit obtained answers every accessor, for every count.',
 ['inputs'],'every byte sequence, valid UTF-8 or not, PO-like or not, including hostile numbers, formulas and languages',
 'A universal claim over all inputs; the tests contain few malformed files.',
 [R,P_,LI,FM,N,U],[('error instead of panic','Error'),('iterator end','PoReader::next'),('wrapping arithmetic','Node::execute'),('formula size limit','Formula::parse')],['PoParser::parse','PoReader as Iterator','Unit accessors'])
p('C13','Bounded work',
 'The memory and the work used to open and read a file are bounded by a linear function of its size, and so is the size of what it yields, no matter which numbers the file contains (nplurals, indices, constants) or how its lines repeat. The source is read in blocks, not in tiny pieces.',
 ['inputs'],'every file, in particular short ones with huge numbers and long repetitive ones',
 'Resource use is not observed by any test.',
 [X,F,LI,R,N],[('stop at the first missing variant','MessageExtractor::new_message'),('buffered lines','LineIter')],['allocations and read calls during PoParser::parse and iteration'])
p('C14','I/O faults',
 'If the source fails or holds invalid UTF-8 at some point, the entries complete before the broken line are delivered unchanged (the one directly before it may be lost to the error), then exactly one I/O error that carries the original error, then the end; nothing that follows in the source is ever delivered. If the fault lies in the header or the first entry, opening or the first step reports it.',
 ['fault_sequences','inputs'],'every file, every position and kind of failure, every block size, every continuation of the source after the failure',
 'Tests inject one failing source; positions, kinds and what follows are unbounded.',
 [LI,R,D,E],[('stop after an error','LineIter::next'),('error forwarding','PoReader::read_line / parse_comments / next'),('conversion','Error::Io')],['PoParser::parse','PoReader as Iterator','Error'])
p('C15','Malformed input is rejected, never reinterpreted',
 'Of a file with misplaced, unknown, misspelt, unclosed or wrongly marked lines, exactly the entries before the fault are delivered as written and then an error of the matching kind (the entry directly before a line that cannot be read may be lost to the error); keywords in a wrong order, fields of one entry with mixed marks, an empty source after the first entry and comment lines inside an entry are such faults. A malformed entry never yields a unit with made-up, shifted or dropped content.',
 ['inputs'],'every mutation of every well-formed file where the format leaves no choice',
 'Tests contain a few faults at a few places.',
 [R,X,LI,D,P_],[('expected keyword','LineIter::expected'),('mark check','LineIter::parse_msg'),('empty source','PoReader::read_unit'),('line grammar','PoParser')],['PoReader as Iterator','Error'])
p('C16','Error positions',
 'An error names the place of the fault: the line of a misplaced line, what was found (the mark of a message line, the quote of a continuation, "#" with its kind for a comment) and the keyword expected, the first line of an entry with empty source, the line at which the source could not be read or decoded, and the text of a line that is no PO line. Lines are counted from 1 over all lines (blank, comment, continuation, any line end), at any distance from the start.',
 ['inputs','fault_sequences'],'every fault at every place of every layout',
 'Tests check few numbers in files of few lines.',
 [LI,L,R,D,E],[('line counter','LineIter'),('line numbers in lines','PoLine'),('error construction','LineIter::expected')],['Error fields','Error Display'])
p('C17','Delivery independence',
 'What a reader yields depends on the bytes of the source alone, not on how they arrive (block sizes, interrupted reads, chained or buffered sources) nor on how the iterator is driven (next, nth, skip, take, peek, count, fold) or on header queries in between. After the end, it stays at the end.',
 ['inputs','schedules','histories'],'every input, every segmentation of it, every sequence of iterator calls',
 'Tests use whole slices and simple loops.',
 [LI,R],[('line buffering','LineIter'),('Iterator','PoReader::next')],['PoParser::parse','PoReader as Iterator','CatalogueReader'])
p('C18','Entry locality',
 'What an entry yields depends on its own lines and the plural rule of the header only: it is the same alone, under another header with that rule, in any order, repeated, or after any other entries. Readers are independent: several readers of one parser used in any interleaving, and units kept after their reader is gone, observe the same as each alone.',
 ['inputs','histories','schedules'],'every catalogue, permutation, repetition and selection of its entries, and every interleaving of readers',
 'It relates several runs; tests look at single files with single readers.',
 [R,X,LI,PL,UN],[('fresh unit per entry','PoReader::read_unit'),('shared plural rule','Rc<PluralForms>')],['PoReader as Iterator','Unit accessors'])
p('C19','Obsolete entries',
 'An entry written with "#~" yields the same unit as without it except that it is marked obsolete, including context, plurals, continuation lines and previous source ("#~|"); a live entry is never marked. An entry that mixes marked and unmarked message lines is an error, not a unit made of both.',
 ['inputs'],'every entry, every subset of entries marked, every mix of marks within an entry',
 'Tests have few obsolete entries, of simple form.',
 [R,LI,P_,X,UN],[('detection','PoReader::read_line'),('mark check','LineIter::parse_msg'),('marks','PoParser::parse_line')],['Unit::is_obsolete'])
p('C20','Previous source',
 'Previous context and previous source ("#|") are exposed as written: the context if there is one, and the source as a simple or plural message without text, also with plural source and continuation lines, and for obsolete entries. They leave the current message, context, state, comments and the neighbours untouched, and an entry without such lines has no previous context and an empty previous message.',
 ['inputs'],'every subset of previous fields on every kind of entry',
 'Tests have one or two combinations.',
 [X,R,P_,LI,UN],[('previous fields','MessageExtractor::parse_message_fields / new_previous')],['Unit::prev_context','Unit::prev_message'])
p('C21','Message accessors and equality',
 'The accessors of a message agree with each other and with how it was made (kind, id, plural id, text, blank, empty, plural text). Equality is an equivalence relation under which simple messages are equal if ids and texts are (no text being the empty text), plural ones if both ids are, and a simple never equals a plural one; clones are equal and observe the same, and so it is for notes, comments, origins and states.',
 ['inputs'],'every collection of messages, notes, comments, origins and states',
 'Algebraic laws over all pairs and triples; tests compare a few pairs.',
 [M,PL,NO,CO,OR,S],[('PartialEq','src/enums/message.rs, src/plural/plural.rs'),('accessors','src/enums/message.rs')],['Message','Plural','Note','Comment','Origin','State'])
p('C22','Error values',
 'For every error, the displayed text holds its kind (an I/O error: the text of its cause), its line unless that is 0 (a parse error: always), and its details; the debug text is the same (an I/O error: with the debug text of its cause). The source is the underlying I/O error if and only if it is an I/O error, and converting to a standard I/O error gives one of kind Other that wraps this error and keeps its text.',
 ['inputs'],'every error value of every kind, built or obtained from readers',
 'Tests format few values.',
 [E],[('Display / Debug / source / From','src/error.rs')],['Error'])
p('C23','Formula acceptance and totality',
 'A plural formula is accepted exactly if it is an expression of n, decimal numbers up to 2^63-1, parentheses, the C operators ?: || && == != < <= > >= + - * / % ! and unary -, and the words "and", "or" and "not", with any white space between tokens, up to 4096 bytes; unary operators on a right operand, and "not" mixed with others, are left open. Evaluating an accepted formula at any count ends without failure, in a form below nplurals or in none.',
 ['inputs'],'every formula text and every count',
 'Tests have four rejected formulas and about twenty accepted ones.',
 [G,FM,N,F],[('lexer and grammar','src/plural/formula/formula.lalrpop'),('wrapping arithmetic','Node::execute')],['PoParser::parse','PluralForms::get_value'])
p('C24','Truncation',
 'Of a file cut off at any byte, only units of the original file are read, in order, each complete and unchanged; only the last may miss trailing continuation pieces of its last string, or trailing variants. A cut within a character is reported as an I/O error and a cut within a line that leaves no valid line as a parse error.',
 ['crash_points','inputs'],'every file and every cut position',
 'No test reads truncated files systematically.',
 [R,X,LI,P_],[('unclosed strings','PoParser::parse_line'),('end of the lines','LineIter::expected')],['PoReader as Iterator','Error'])
p('C25','Determinism and purity',
 'What a file yields is decided by its bytes alone: reading it again, with the same or another parser, after or between other files, in another thread, or in a process with another environment (locale variables, working directory) gives the same. Looking changes nothing: every accessor of a reader, unit, message, plural set and rule gives the same answer at every call, whatever was asked before and in whatever order (other counts, other units, clones, comparisons, formatting), and clones answer like their original even when it is gone.',
 ['histories','schedules','inputs'],'every file and every history of readings and questions, in any process and thread',
 'Tests ask each question once, of a fresh value, in one process.',
 [R,P_,PL,F,UN,M],[('state of a parser','PoParser (regular expressions and tables only)'),('shared plural rule','Rc<PluralForms>'),('accessors','Unit / Message / Plural')],['PoParser::parse','Unit accessors','Message::get_plural_text','PluralForms::get_value','CatalogueReader'])
p('C26','Streaming',
 'A reader works while its source arrives: to give a unit it takes from the source no more than that entry, the next entry, the beginning of the one after and a block ahead (at most 256 KiB), so that the units of a source without end can be taken one by one. The memory held by a parser and its readers depends on the header and on the largest entry, not on the number of entries, comments or lines that were read.',
 ['histories','inputs'],'every endless source of well-formed entries, every block size, every number of units taken',
 'Tests read complete short slices and measure nothing.',
 [LI,R,P_],[('one entry ahead','PoReader::next'),('one line ahead','Peekable<LineIter>'),('block reads','BufReader in LineIter')],['PoReader as Iterator','Read calls on the source','live heap'])
T.sort(key=lambda t:t['id'])
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for t in T: jsonschema.validate(t,sc)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(t,ensure_ascii=False)+'\n' for t in T))
LEV={}
man=dict(version=1,setup_cmd='./bin/build.sh',checks=[dict(property=t['id'],quick_cmd=f"./bin/check.sh {t['id']} quick",thorough_cmd=f"./bin/check.sh {t['id']} thorough",evidence_file=f"evidence/{t['id']}.json",technique='',level='exploration',level_note='') for t in T],not_applicable=[])
import sys
NOTE={
'C01':('model-based generation + round trip (proptest)','abstract catalogue -> rendered file -> reader, compared field by field with the model'),
'C02':('generated strings against a hand-written decoder (proptest)','decoder written from the statement'),
'C03':('metamorphic: two random layouts of one catalogue (proptest)','no model of the content needed: both readings must be equal'),
'C04':('model-based generation of comment blocks (proptest)','model plus the metamorphic relation "without the comments"'),
'C05':('generated histories of flags and translations against the state rule (proptest)','reference rule of the statement'),
'C06':('generated headers against a reference map (proptest)','reference decoding of header lines'),
'C07':('generated language names against an independent resolver (proptest)','the resolver follows RFC 4647 case rules and the Unix locale conventions of the documentation'),
'C08':('generated formulas against a reference evaluator (proptest)','reference AST evaluator; counts below 2^63, larger ones are an open known finding'),
'C09':('generated and mutated Plural-Forms values against a reference reader (proptest)','values the format leaves open are counted and not judged'),
'C10':('generated plural entries and counts against reference selection (proptest)','index by the reference evaluator'),
'C11':('generated msgstr index lists, labelled values (proptest)','each value carries the index it was written under'),
'C12':('fuzzing: bytes, token soup, structured mutation, fixed hostile inputs (proptest)','oracle: no panic, abort or hang (confirmed in a process of its own), fused end'),
'C13':('resource-bound fuzzing with a counting allocator (proptest)','bounds are linear in the input size with a generous factor; measured by allocations, bytes and read calls'),
'C14':('fault injection at generated offsets against a prefix model (proptest)','model: reference parse of the text before the broken line'),
'C15':('structured mutation against an independent reference parser (proptest)','differential; inputs the format leaves open are counted and not judged'),
'C16':('single generated faults with known positions (proptest)','the line of a non-PO line is an open known finding (L or L+1 accepted)'),
'C17':('differential over random segmentations and iterator call sequences (proptest)','reference: one slice read by next() alone'),
'C18':('metamorphic: alone / permuted / repeated / interleaved (proptest)','the relations need no model'),
'C19':('metamorphic flipping of obsolete marks, generated mixed entries (proptest)','plus the reference parser for mixed entries'),
'C20':('model-based generation of previous fields (proptest)','model plus the relation "without previous lines"'),
'C21':('algebraic laws over generated message pools (proptest)','messages constructed and read from files'),
'C22':('generated error values against a reference formatter (proptest)','texts as the documentation and unit tests show them'),
'C23':('generated token strings against a reference grammar (proptest)','doubtful placements of unary operators and "not" are counted and not judged'),
'C25':('stateful: random histories of readings and questions against first answers and a reference rule; differential over threads and processes (proptest)','reference: the first reading and the reference evaluator'),
'C26':('generated endless sources, bounds on what is consumed and held (proptest)','bounds: 256 KiB ahead, 300 kB plus two entries of growth; counted by the source and the allocator'),
'C24':('every-prefix enumeration of generated files (proptest)','model: the units of the whole file, plus the reference parser on the prefix'),
}
for c in man['checks']:
    te,no=NOTE[c['property']]
    c['technique']=te.replace('(proptest)','(property-based testing with proptest, then coverage-guided fuzzing of the same choice tapes)')
    c['level_note']=f"Randomised search, no proof: {no}. Trusts the harness's model and generators (/verif/harness) and rustc; distribution and counts are in the evidence file."
man['notes']='No hooks: everything is observed through the public API. Evidence, replays and build output are git-ignored. Known findings: known_findings.txt.'
jsonschema.validate(man,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write('\n')

# the section of DESIGN.md about each property
import re,glob
src=''.join(open(f).read() for f in sorted(glob.glob('/verif/harness/src/props/*.rs')))
rules={a:(b,c,d,e!='None') for a,b,c,d,e in re.findall(r'id: "(C\d+)",.*?rule: "((?:[^"\\\\]|\\\\.)*)",.*?quick: (\d+),\s*thorough: (\d+),\s*fixed: (\w+)',src,re.S)}
out=[]
for t in T:
    te,no=NOTE[t['id']]; r,q,th,fx=rules[t['id']]
    out.append(f"**{t['id']} {t['title']}** — {te.replace(' (proptest)','')}. Cases: {r}. Oracle: {no}. "
      f"Cases per quick run: {int(q)*8} random and {int(q)*4} guided{', and fixed ones' if fx else ''}. Why tests cannot: {t['why_tests_cant']}\n")
d=open('/verif/DESIGN.md').read()
a,b='<!-- properties -->','<!-- end of properties -->'
i,j=d.index(a)+len(a),d.index(b)
open('/verif/DESIGN.md','w').write(d[:i]+'\n'+'\n'.join(out)+d[j:])
