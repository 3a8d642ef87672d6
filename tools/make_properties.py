import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook,**({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}))))
E,M,Q,PA,B,W,G=['noodle/src/'+x for x in ('expression.rs','matcher.rs','query.rs','parser.rs','bitset.rs','words.rs','noodle_grammar.pest')]
TESTS="The existing tests check three bit-set examples and a few parser examples; none of them evaluates a query against a word"
p('C01','A pattern without edits matches exactly the words its notation denotes',
 'A word of the list is reported as a match of a pattern if and only if the word, read from its first to its last character, belongs to the language which the documented notation gives to the pattern: letters and classes match one symbol, sequences match their parts in order, alternatives match any one of their branches, repetitions match between their least and their greatest number of copies (an unbounded number when no greatest number is given, nothing when the greatest is below the least), and a substring group matches any run of consecutive elements, including none. This holds for every nesting of these forms, and however the pattern is simplified internally.',
 ['inputs','programs'],'all patterns (any nesting of classes, sequences, alternatives, repetitions, substring groups) and all words',
 TESTS+'; the patterns and words are unbounded',
 [E,M,B],[('translation of a pattern to a nondeterministic automaton','Expression::build_states, '+E),('language-preserving simplification of the automaton','Expression::optimize_states, '+E),('simulation of the automaton over a word','Expression::fill_transition_table, Expression::char_transitions, '+E),('acceptance of a word','WordMatcher::next_single_word, '+M)],
 ['QueryEvaluator::next_within_deadline'])
p('C02','A fuzzy pattern accepts exactly the words within the given number of edits',
 'With an allowance of n edits, a word is reported if and only if it can be turned into a string of the pattern\'s language with at most n edits, where one edit removes any one character of the word, adds one letter to it, or replaces one character of it by a letter. An allowance of zero edits is the same as none, and a larger allowance never loses a match.',
 ['inputs','programs'],'all patterns, all words, all edit allowances',
 TESTS+'; no test uses an edit allowance',
 [E,M],[('rows per number of edits: deletion, change and insertion steps','Expression::fill_transition_table, Expression::fill_insertions, '+E),('acceptance within the allowance','WordMatcher::next_single_word, PhraseMatcher::has_success_state, '+M)],
 ['QueryEvaluator::next_within_deadline'])
p('C03','Whether a word matches does not depend on the other words or their order',
 'Each word of a list is judged as if it were the only word: the reported single words are exactly the entries which match when evaluated alone, in list order, however the list is ordered, whatever prefixes neighbouring words share, and however many copies of a word there are. This includes words that are a prefix of their neighbour, words rejected part-way, and words of very different lengths.',
 ['inputs','histories'],'all word lists in any order, with repeated entries, for all patterns with or without edits',
 TESTS+'; the state carried over from word to word depends on the whole history of the list',
 [M,E],[('reuse of the table for the prefix shared with the previous word','WordMatcher::next_single_word (table_chars, table_char_src_fuzz_dst), '+M),('partial rows after an early rejection','Expression::fill_transition_table (returned length), '+E)],
 ['QueryEvaluator::next_within_deadline'],None,[('table_chars','characters for which the cached rows are valid',M),('table_char_src_fuzz_dst','cached rows per consumed character',M)])
p('C04','Several patterns in one query match exactly what each of them matches',
 'A query with several patterns reports a word or phrase if and only if every one of its patterns matches it, regardless of the order of the patterns and of how many there are, and each pattern keeps its own edit allowance and its own space and punctuation options. Adding a pattern never adds a result, and repeating a pattern changes nothing.',
 ['inputs','programs','configurations'],'all sets of patterns in any order, all word lists, all phrase lengths',
 TESTS+'; several patterns are never combined in a test',
 [Q,M],[('chain of word matchers, each fed with the words that survive the previous one','QueryEvaluator::next_within_deadline (word phase), '+Q),('conjunction of all phrase matchers per word','QueryEvaluator::next_within_deadline (phrase phase), '+Q),('filtering of the surviving words','WordMatcher::optimize_for_wordlist, '+M)],
 ['QueryEvaluator::next_within_deadline'])
p('C05','Every reported phrase is made of list words and matches as a whole',
 'Every reported phrase has at least one and at most the permitted number of words, each of which is an entry of the word list, and the words written one after the other match every pattern of the query (within its allowance of edits for the whole phrase). No phrase is reported which fails one of the patterns.',
 ['inputs','programs','histories'],'all patterns, word lists (with any frequency classes), and permitted numbers of words',
 TESTS+'; no test evaluates a phrase',
 [Q,M],[('depth-first search over word sequences, one state table per word','QueryEvaluator::next_within_deadline (phrase phase), '+Q),('one step of the state table by a whole word','PhraseMatcher::step, PhraseMatcher::step_by_word_index, '+M),('acceptance of the phrase','PhraseMatcher::has_success_state, '+M)],
 ['QueryEvaluator::next_within_deadline'])
p('C06','No matching phrase is missed, and none is reported twice',
 'Without a limit on results, every sequence of list entries of permitted length which matches all patterns of the query is reported exactly once before the search completes, including sequences that use an entry several times, sequences of rare words, and the very last candidate. The shortcuts taken by the search (dropping words, merging states, skipping lengths and frequency classes) never change the set of results.',
 ['inputs','programs','histories'],'all patterns, word lists (with repeated entries and any frequency classes), and permitted numbers of words',
 TESTS+'; completeness quantifies over all word sequences',
 [Q,M],[('enumeration order, one phase per length and frequency class','QueryEvaluator::next_within_deadline (search_queue, search_layers), '+Q),('words without use are dropped, equivalent states are merged','WordMatcher::optimize_for_wordlist, '+M),('phases without results are dropped','PhraseMatcher::filter_search_phases, '+M)],
 ['QueryEvaluator::next_within_deadline'],None,[('search_queue','the remaining phases',Q),('search_layers','the current phrase and its state tables',Q)])
p('C07','The limits on results and on phrase length are kept exactly',
 'With a limit of n results, exactly the first n results of the unlimited query are reported (all of them if there are fewer), after which the query completes; with at most k words per phrase, exactly the results with at most k words are reported. The end is signalled once, and nothing is reported after it.',
 ['inputs','configurations','histories'],'all queries and word lists, all result limits including zero, all word-count limits',
 TESTS+'; no test sets a limit',
 [Q],[('result count','QueryEvaluator::next_within_deadline (results_count, results_limit), '+Q),('phases up to the word-count limit','QueryEvaluator::next_within_deadline (search_depth_limit), '+Q)],
 ['QueryEvaluator::next_within_deadline','QueryEvaluator::set_results_limit','QueryEvaluator::set_search_depth_limit'])
p('C08','A search that is interrupted and resumed reports the same results',
 'However often the search is interrupted by a deadline, before or during any of its phases, and resumed later, the results reported over all calls are the same, in the same order, as those of an uninterrupted search. An interruption loses no result, repeats none, and never ends the search early.',
 ['schedules','inputs','histories'],'all placements of deadlines, all queries and word lists',
 TESTS+'; no test uses a deadline, and the places where one expires cannot be enumerated by tests',
 [Q,M],[('state kept across calls','QueryEvaluator, QueryPhase, SearchLayer, '+Q),('deadline tests in the word and phrase loops','WordMatcher::next_single_word, '+M+'; QueryEvaluator::next_within_deadline, '+Q)],
 ['QueryEvaluator::next_within_deadline'])
p('C09','Anagram patterns match exactly the rearrangements they describe',
 'A pattern that is an anagram, superset anagram, subset anagram, or anagram with letters added or removed, alone or fenced off by symbols which its letters cannot match, matches exactly the strings of letters whose letter counts stand in the described relation to the given letters. Wherever else an anagram occurs (several of them, inside groups, alternatives or repetitions) no string that its description allows is ever rejected.',
 ['inputs','programs'],'all letter banks (with repeated letters), all five kinds, all positions in a pattern, all words',
 TESTS+'; one parser example contains anagrams, none is evaluated',
 [PA,E],[('replacement of anagrams by one pattern per letter','QueryAst::expand_expressions, '+PA),('conjunction of the replacements','QueryEvaluator, '+Q)],
 ['QueryAst::new_from_str','QueryEvaluator::from_ast'])
p('C10','Words are compared by their letters, whatever their spelling',
 'Every word is reduced to the letters a-z, punctuation and spaces in the documented way: the case of letters is ignored, accents are dropped, ligatures are written out, spaces and underscores count as spaces, and every other symbol counts as punctuation, symbol by symbol and in order. The reported word keeps its original spelling.',
 ['inputs'],'all Unicode strings',
 'The only tests of words are indirect ones with ASCII letters; the input space is all of Unicode',
 [W],[('normalization','Word::new, '+W),('classification of a character','Char::from(char), '+W)],
 ['Word::new','QueryEvaluator::next_within_deadline'])
p('C11','Spaces and punctuation are ignored unless a pattern asks for them',
 'Unless the pattern mentions spaces (by name, by an enumeration, by a superset group, or by an option), the spaces between and after words play no role in matching, at no cost of edits, and likewise for punctuation; when it mentions them, every space between words and every punctuation mark has to be matched like a letter, and only spaces at the very end may be left over. Each pattern decides for itself, whatever the other patterns of the query do.',
 ['inputs','programs','configurations'],'all patterns with all combinations of options, all words and phrases with spaces and punctuation anywhere',
 'One parser test checks the detection of options in six patterns; whether matching honours them is not tested',
 [PA,E],[('detection of options','detect_options, parse_options, '+PA),('ignored symbols','Expression::fill_transition_table, '+E),('absorbed spaces at the end','Expression::from_ast, '+E)],
 ['QueryAst::new_from_str','QueryEvaluator::from_ast'])
p('C12','The text of a query has its documented meaning',
 'A query text means what the documentation says: letters in any case, groups, alternatives, classes, repetition counts, enumerations, subset, superset and substring groups, options, comments and insignificant spaces, macros that are replaced in the following lines, and directives for the number of words, the number of results and an own word list, in any combination over several lines. Printing a parsed pattern gives a text with the same meaning.',
 ['inputs','programs'],'all query texts',
 'The parser tests check fixed examples; meanings are compared with a syntax tree for a handful of texts, and no query is evaluated',
 [PA,G,Q],[('grammar',G),('syntax tree','parse_term, parse_expression, parse_options, parse_numbers, '+PA),('lines, macros, directives','QueryAst::new_from_str, '+PA),('limits','QueryEvaluator::from_ast, '+Q),('printing','fmt::Display for Ast, '+PA)],
 ['QueryAst::new_from_str','QueryEvaluator::from_ast'])
p('C13','No accepted query and word list makes the search fail or touch foreign memory',
 'Given enough memory and stack, for every query text and word list, evaluation reads and writes only within the tables it allocated, although these accesses are not checked at run time, and it does not crash or overflow: it delivers its results, or refuses the text with a parse error or, for a pattern too large to evaluate, with a message saying so. This includes patterns with any number of states around and beyond the word size of the tables, empty words, long words, empty lists, and huge repetition counts.',
 ['inputs','programs'],'all query texts, all word lists, all table sizes',
 'Three tests exercise the tables with one size each; unchecked accesses outside the bounds do not fail a test reliably',
 [B,E,M,Q,PA],[('unchecked indexing of the tables','BitSet, BitSetRef, BitSetRefMut, Ones, '+B),('bound on the number of states','Expression::from_ast, Expression::max_states_len, '+E),('sizes of the tables','WordMatcher::new, SearchLayer::new, '+M+', '+Q)],
 ['QueryEvaluator::next_within_deadline'],'--cfg noodle_verif exposes the bit-set module')
p('C14','A character class contains exactly the symbols it names',
 'A class matches exactly one symbol: one of the listed letters (in either case), one of the letters of a listed range, a listed space or punctuation mark; an inverted class matches exactly the letters which are not listed, and spaces and punctuation only if they are listed; a dot matches every letter and nothing else. Membership of each of the 28 symbols depends only on what is listed.',
 ['inputs'],'all classes (subsets of the 28 symbols, ranges, inversions) and all symbols',
 'The tests contain four classes; there are 2^28 sets and all ranges',
 [W,PA],[('sets of symbols','CharBitset, Char, '+W),('classes in the text','parse_term, '+PA)],
 ['QueryAst::new_from_str'])
p('C15','Loading a word list file keeps every usable line',
 'Whatever a word list file contains and wherever reading it fails, loading ends; every line up to there which is text and not excluded by the documented filters (words of a single letter other than I and a, words with digits) becomes exactly one entry, with its text unchanged and with its count as score, or a score by its length if it has no count. The entries are sorted by frequency class, that is by their position in the file in blocks of increasing size, where words that are not all small letters count one class further, and then by letters.',
 ['inputs','crash_points'],'all files, I/O errors at any point',
 'The tests do not load files apart from one example which needs a file that is not in the repository',
 [W],[('loading','load_wordlist, '+W)],['load_wordlist'])
p('C16','The web application releases what a query holds however its connection ends',
 'When the connection of a running query ends in any way, its computation stops and the number of active queries returns to what it was.',
 ['schedules','histories'],'all interleavings of connections',
 'There are no tests of the web application',
 ['noodle-webapp/src/main.rs'],[('query loop per connection','noodle-webapp/src/main.rs')],['/metrics'])
p('C17','Every query text is accepted or refused within time proportional to its size',
 'Parsing a query text, with macros and nested groups, always terminates within a time bounded by a polynomial in the size of the text.',
 ['inputs'],'all query texts','Tests use short texts',
 [G,PA],[('backtracking grammar',G),('macro replacement','QueryAst::new_from_str, '+PA)],['QueryAst::new_from_str'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        assert x['statement'].count('. ')<=2,(x['id'],)
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
