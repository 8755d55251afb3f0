"""Writes /verif/properties.jsonl (one property per line). Kept as a script so that wording stays reviewable."""
import json, pathlib

LK = 'spylls/hunspell/algo/lookup.py'
SG = 'spylls/hunspell/algo/suggest.py'
PM = 'spylls/hunspell/algo/permutations.py'
NG = 'spylls/hunspell/algo/ngram_suggest.py'
PH = 'spylls/hunspell/algo/phonet_suggest.py'
SM = 'spylls/hunspell/algo/string_metrics.py'
CA = 'spylls/hunspell/algo/capitalization.py'
TR = 'spylls/hunspell/algo/trie.py'
AF = 'spylls/hunspell/data/aff.py'
DI = 'spylls/hunspell/data/dic.py'
RA = 'spylls/hunspell/readers/aff.py'
RD = 'spylls/hunspell/readers/dic.py'
RF = 'spylls/hunspell/readers/file_reader.py'
DC = 'spylls/hunspell/dictionary.py'
UN = 'examples/unmunch.py'

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe, 'hook_needed': None}})


INC = ['inputs', 'configurations']

prop('L01', 'Affixed words are accepted exactly when the dictionary licenses them',
     'Looking a word up, in the letter case of its dictionary entry, returns true exactly when the word is an entry, or an '
     'entry with up to two suffixes and one prefix (two prefixes with COMPLEXPREFIXES) attached one after the other. '
     'Every attached affix must strip, add and satisfy its condition as its rule says, be licensed by a flag of the entry '
     'or of another affix of the word, and prefixes combine with suffixes only when both are marked for cross products. '
     'NEEDAFFIX and CIRCUMFIX marks on entries and affixes are honoured.',
     INC, 'All dictionaries made of stems, prefix classes and suffix classes (strip/add/condition/continuation flags/'
     'cross-product mark, NEEDAFFIX, CIRCUMFIX, COMPLEXPREFIXES) and all words over their alphabet.',
     'The existing fixtures pin about twenty hand-written affix tables with a handful of good and wrong words each; '
     'they do not vary rule overlap, ambiguous splits, empty adds, strips or licensing combinations.',
     [LK, AF, TR], [('Lookup.produce_affix_forms / desuffix / deprefix', LK), ('Lookup.is_good_form', LK),
                    ('affix index (Trie)', TR), ('Prefix/Suffix condition and replacement', AF)],
     ['Dictionary.lookup(word)'])

prop('L02', 'Reported analyses of a word are exactly its valid derivations',
     'The analyses listed for a word are exactly the ways to derive it: each names a real dictionary entry and real affix '
     'rules (or a sequence of compound parts) that rebuild the word in the order printed, and every valid derivation is listed. '
     'A word without any break point that is not a number and is not forbidden is accepted by lookup exactly when it has at least one analysis.',
     INC, 'All affix and compound dictionaries as for L01/L07/L08 and all words over their alphabet.',
     'The existing tests only compare the boolean answer for listed words; the set of analyses is never inspected.',
     [LK, AF, DI], [('Lookup.good_forms', LK), ('AffixForm / CompoundForm', LK)],
     ['dictionary.lookuper.good_forms(word)', 'Dictionary.lookup(word)'])

prop('L03', 'Letter-case variants are accepted exactly as the entry allows',
     'A correct word that starts with a small letter is also correct with that letter capitalised, and an entry of any letter case '
     'is also correct in all capitals; any other change of case makes it incorrect. '
     'Entries marked KEEPCASE are correct only in the case type they have in the dictionary. '
     'This also holds for affixed forms of the entry.',
     INC, 'All dictionaries with lowercase, capitalised, all-capital and mixed-case entries (with and without KEEPCASE, affixes, homonyms) and '
     'all case patterns of their words.',
     'Fixtures check a few words (allcaps*, keepcase, 1463589); not all case patterns of all entry case types.',
     [LK, CA, DI, RD], [('Casing.guess / variants', CA), ('Lookup.good_forms', LK), ('case-insensitive index', DI)],
     ['Dictionary.lookup(word)'])

prop('L04', 'Turkic dotted i and German sharp s follow their own case rules',
     'For Turkish, Azerbaijani and Crimean Tatar dictionaries i pairs with İ and ı with I in every case conversion of lookup and suggestions. '
     'With CHECKSHARPS a word with ß is accepted in capitals both as SS and with ß kept, except that KEEPCASE entries with ß accept only SS. '
     'Other dictionaries use the ordinary Unicode case pairs.',
     INC, 'Dictionaries with LANG tr/tr_TR/az/crh or CHECKSHARPS or neither, over alphabets rich in i ı I İ ß s S, and all case patterns of their words.',
     'Fixtures i58202/checksharps/1695964-like pin a few words; not the product of entry shapes and case patterns.',
     [CA, LK, SG, AF], [('TurkicCasing / GermanCasing', CA), ('Lookup.good_forms sharp-s rule', LK)],
     ['Dictionary.lookup(word)', 'Dictionary.suggest(word)'])

prop('L05', 'Forbidden words are never accepted, extended, compounded or suggested',
     'A word all of whose entries carry the FORBIDDENWORD flag is rejected, also capitalised, in all capitals or as a piece of a broken word, even if it can be built from other entries by affixes or compounding. '
     'A stem with any forbidden entry takes no affixes and is no part of a flag-built compound, while a non-forbidden entry of the same spelling stays valid on its own. '
     'No suggestion equals a word that has a forbidden entry.',
     INC, 'All dictionaries with forbidden entries, forbidden homonyms of good entries, forbidden spellings of affixed or compound words.',
     'Fixtures forbiddenword and opentaal_forbiddenword* pin about 20 words.',
     [LK, SG, DI], [('forbidden checks in Lookup.__call__, affix_forms, compound_forms', LK), ('handle_found forbidden filter', SG)],
     ['Dictionary.lookup(word)', 'Dictionary.suggest(word)'])

prop('L06', 'Compounds by position flags are accepted exactly when every part may stand there',
     'With COMPOUNDFLAG or COMPOUNDBEGIN/MIDDLE/END, a joined word is correct exactly when it splits into at least two parts, each of at least COMPOUNDMIN letters and at most '
     'COMPOUNDWORDMAX parts in all, where every part is a dictionary form whose flags allow its position. '
     'Inside a compound, prefixes stand only on the first part and suffixes only on the last unless the affix carries COMPOUNDPERMITFLAG, and affixes carrying COMPOUNDFORBIDFLAG never occur. '
     'ONLYINCOMPOUND forms are rejected outside compounds.',
     INC, 'All dictionaries with compound flags on stems and affixes, all COMPOUNDMIN/COMPOUNDWORDMAX values, all concatenations of their forms and neighbours thereof.',
     'Compound fixtures check small lists for fixed flag layouts; part-count, length and affix-permission limits are hardly varied.',
     [LK], [('Lookup.compounds_by_flags', LK), ('Lookup.is_good_form position check', LK)],
     ['Dictionary.lookup(word)'])

prop('L07', 'Compounds by rules are accepted exactly when their flags match a COMPOUNDRULE',
     'With COMPOUNDRULE, a word made of two or more unaffixed entries (each of at least COMPOUNDMIN letters, at most COMPOUNDWORDMAX of them) is correct exactly when choosing one flag per entry gives a sequence matched '
     'as a whole by one of the rules, with * meaning any number and ? meaning zero or one. '
     'This holds for one-character, two-character and numeric flags.',
     INC, 'All sets of rules over flags with * and ? quantifiers, in short, long and numeric notation, all dictionaries assigning those flags, all concatenations of entries.',
     'compoundrule*.aff fixtures pin eight rule sets.',
     [LK, AF], [('CompoundRule', AF), ('Lookup.compounds_by_rules', LK)],
     ['Dictionary.lookup(word)'])

prop('L08', 'Compound restrictions reject exactly the junctions they describe',
     'A compound is rejected when a restriction that is switched on applies to one of its junctions: three equal letters (CHECKCOMPOUNDTRIPLE), an uppercase letter at the junction (CHECKCOMPOUNDCASE), a forbidden pattern pair '
     '(CHECKCOMPOUNDPATTERN), a repeated last part (CHECKCOMPOUNDDUP), a REP replacement that makes a dictionary word (CHECKCOMPOUNDREP), the two parts existing as a phrase entry, a COMPOUNDFORBIDFLAG part before another, or FORCEUCASE on the last part of an uncapitalised word. '
     'SIMPLIFIEDTRIPLE additionally allows a dropped third letter. Without an applicable restriction the compound stays accepted.',
     INC, 'All compound dictionaries with any subset of the restrictions, all concatenations of their forms.',
     'Each restriction has one fixture with one configuration; interactions and near misses are not exercised.',
     [LK, AF], [('Lookup.is_bad_compound', LK), ('CompoundPattern', AF)],
     ['Dictionary.lookup(word)'])

prop('L09', 'Break points split words; numbers are always accepted',
     'A word is correct when it can be cut at BREAK patterns (by default dashes inside, at the start or at the end) into pieces that are each empty or correct, in any of the possible ways of cutting, and is not correct through cutting otherwise. '
     'Anchored patterns cut only at the start or end of the remaining text and unanchored ones only inside it, with literal text otherwise. '
     'A whole word of digits with at most one decimal point between digits is always correct.',
     INC, 'All BREAK tables (default, empty, custom, with special characters and multi-character patterns), all dictionaries with and without dashed entries, all words with up to five break points.',
     'break*.aff fixtures and a unit test cover the default dash and one custom table.',
     [LK, AF], [('Lookup.break_word', LK), ('BreakPattern', AF), ('number rule', LK)],
     ['Dictionary.lookup(word)'])

prop('L10', 'Input conversion and ignored characters apply before lookup',
     'Looking a word up gives the same answer as looking up, in the same dictionary without conversions, the text obtained by replacing at each position the longest matching ICONV pattern (literal text; a leading or trailing _ anchors it to word start or end; replaced text is not converted again) '
     'and then deleting IGNORE characters (unless the unconverted word is itself forbidden). Entries and affixes are stored without IGNORE characters.',
     INC, 'All ICONV tables (overlapping, anchored, with characters special elsewhere), all IGNORE sets, all dictionaries and words containing their characters.',
     'Fixtures iconv, iconv2, nepali, ignore cover a few rows.',
     [LK, AF, RA, RD], [('ConvTable', AF), ('Ignore', AF), ('Lookup.__call__', LK)],
     ['Dictionary.lookup(word)'])

prop('L11', 'Options of the lookup object narrow what counts as correct',
     'Asked for exact letter case, the lookup object accepts a word only in the letter case of the dictionary or of its derivation; told to leave out words that are not to be suggested, it rejects whatever relies on a NOSUGGEST entry; its list of analyses can be restricted to derivations by affixes or to compounds. '
     'Options not given, or given with their default, change nothing.',
     ['inputs', 'configurations'], 'All dictionaries with affixes, compounds, NOSUGGEST and KEEPCASE, all words in all letter cases, all combinations of the four options.',
     'Existing tests never call the lookup object with options.',
     [LK], [('Lookup.__call__', LK), ('Lookup.good_forms', LK)],
     ['dictionary.lookuper(word, capitalization=, allow_nosuggest=)',
      'dictionary.lookuper.good_forms(word, capitalization=, allow_nosuggest=, affix_forms=, compound_forms=)'])

prop('S01', 'Suggestions are real, suggestible words',
     'Every suggestion produced by editing a misspelling is a correct word of the dictionary, or a phrase (space or dash joined) of correct words, none of them marked NOSUGGEST, and has no forbidden entry. '
     'In a dictionary without special usage flags and without OCONV every suggestion of any kind is accepted by lookup, word by word.',
     INC, 'All dictionaries (affixes, compounds by flags, special flags) and all input words.',
     'Fixtures compare fixed suggestion lists for some words of about 45 dictionaries.',
     [SG, LK, NG], [('edit_suggestions filter', SG), ('Suggest.suggestions', SG), ('ngram forms', NG)],
     ['Dictionary.suggest(word)', 'Dictionary.lookup(word)'])

prop('S02', 'Every documented single typo is corrected, in the documented order',
     'For a misspelling, the suggestions contain every unaffixed or affixed dictionary word reachable by one documented edit: all-capitals, adjacent swap (or double swap for 4-5 letters), longer swap up to 4 positions apart, neighbouring key or uppercased letter, removed letter, '
     'inserted or replaced TRY letter, letter moved by 2-4 places, undone two-letter doubling, split in two words; unless a whole-phrase split or an enforced limit of 15 per case variant cuts the list. '
     'They appear in that order of kinds, and within a kind in the documented scanning order. No other edit-based suggestion appears.',
     INC, 'All TRY and KEY strings, all small dictionaries containing edits and non-edits of a word, all input words.',
     'The .sug fixtures show at most a few edits; kinds, positions and orders are not covered systematically.',
     [SG, PM], [('Suggest.edits', SG), ('permutations', PM)],
     ['Dictionary.suggest(word)'])

prop('S03', 'Replacement tables, similar characters and ph: spellings drive suggestions',
     'REP rows (literal text, ^ and $ anchors, _ for a space) are tried at every occurrence, in table order followed by the rows made from ph: fields in entry order (plain, trailing * and -> forms), and each correct result is suggested right after the all-capitals form. '
     'MAP groups (including bracketed multi-character members) are substituted recursively from left to right after the phrase splits. '
     'When a REP, all-capitals or phrase suggestion was found no similarity-based suggestions follow.',
     INC, 'All REP/MAP tables and ph: fields, all small dictionaries, all input words.',
     'Fixtures rep, maputf, map, ph, ph2 pin a few rows.',
     [SG, PM, RD, AF], [('replchars / mapchars', PM), ('RepPattern', AF), ('ph: handling in read_dic', RD)],
     ['Dictionary.suggest(word)'])

prop('S04', 'Suggestion lists have no duplicates and obey their limits and switches',
     'No suggestion is returned twice. Compound suggestions obey MAXCPDSUGS, similarity suggestions MAXNGRAMSUGS (0 switches each off), phonetic ones are at most two, NOSPLITSUGS removes splits in two words, and joining with a dash is offered only when TRY contains - or a. '
     'A split that is itself a dictionary phrase ends the list, and a word with a dash in which one piece is misspelled gets that piece corrected when nothing else with a dash was found.',
     INC, 'All settings of the limits and switches, all dictionaries with simple and compound words, all input words.',
     'Fixtures use few settings; duplicates are never checked as such.',
     [SG], [('handled set and limits in Suggest.suggestions / edit_suggestions', SG)],
     ['Dictionary.suggest(word)'])

prop('S05', 'Suggestions take the letter case of the misspelling and the output conversion',
     'A suggestion for a capitalised misspelling is capitalised, for an all-capitals one is in all capitals, and otherwise keeps the dictionary case, except that KEEPCASE entries keep theirs and a re-cased form that is forbidden falls back. '
     'Misspellings that are right apart from their case are corrected by case alone, first. '
     'OCONV is then applied to every edit, similarity and phonetic suggestion, longest match first.',
     INC, 'All dictionaries with entries of all case types, KEEPCASE, OCONV tables, all case patterns of misspellings.',
     'Fixtures keepcase, oconv, allcaps, 1463589 pin a few words.',
     [SG, CA, AF], [('handle_found', SG), ('Casing.corrections / coerce', CA), ('ConvTable', AF)],
     ['Dictionary.suggest(word)'])

prop('S06', 'Similarity suggestions are the best-scoring forms, in score order',
     'When edits give no good correction, similarity suggestions are the forms (stem, alternative spelling, or stem with its own affixes fitting the misspelling) with the highest documented n-gram score above the word-dependent threshold, best first, as limited by MAXDIFF, ONLYMAXDIFF and MAXNGRAMSUGS. '
     'Forms equal to or containing an earlier suggestion are skipped. NOSUGGEST, forbidden and only-in-compound entries are never used.',
     INC, 'All dictionaries (also with more than 100 close stems), MAXDIFF/ONLYMAXDIFF/MAXNGRAMSUGS settings, all misspellings.',
     'Fixtures check final lists for a few words; scores and ranking are never compared with a definition.',
     [NG, SM, SG], [('ngram_suggest', NG), ('string_metrics', SM), ('filter_guesses', NG)],
     ['Dictionary.suggest(word)'])

prop('S07', 'Phonetic suggestions follow the PHONE table',
     'With a PHONE table, up to two further suggestions are dictionary stems close to the misspelling, ranked by similarity of phonetic codes and spelling. '
     'The phonetic code of a word is obtained by applying at each position the first matching row (letters, optional letter class, look-ahead dashes, ^ and $ anchors; _ for nothing) and skipping letters without a row.',
     INC, 'All PHONE tables of the supported syntax, all dictionaries, all misspellings.',
     'One fixture (phone) with one word.',
     [PH, AF, SG], [('metaphone / phonet_suggest', PH), ('PhonetTable', AF)],
     ['Dictionary.suggest(word)'])

prop('S08', 'Explained suggestions name the operation that made each of them',
     'The explained suggestions for a word are the plain suggestions in the same order, each with the name of the operation that first produced it: one of the documented edits, a change of letter case, a corrected dashed word, similarity or sound. '
     'The raw edits listed for a word are exactly the results of the documented edits (tables, swaps, neighbouring keys, removed, inserted, moved, replaced and doubled letters, splits), kind after kind in the documented order, whether or not they are words.',
     INC, 'All dictionaries and misspellings of S01 to S07.',
     'Existing tests compare only the texts of final suggestions for 36 fixtures; neither names nor raw edits are ever looked at.',
     [SG, PM], [('Suggest.suggestions / Suggest.edits', SG), ('word edits', PM)],
     ['dictionary.suggester.suggestions(word): text, kind', 'dictionary.suggester.edits(word)', 'Dictionary.suggest'])

prop('M01', 'Similarity measures and phonetic codes compute their definitions',
     'For any two strings the number of equal characters at equal positions, the length of the common start, the length of the longest common subsequence and the n-gram similarity (plain or weighted, with or without a penalty for length) are those of their definitions. '
     'The phonetic code of a word is what the first fitting row of the PHONE table at each position gives, with its anchors, letter sets and look-ahead.',
     ['inputs'], 'All pairs of strings, n-gram sizes and options, all phonetic tables whose rows consume something.',
     'Existing tests never call the measures directly and only see their effect on a few final suggestion lists.',
     [SM, PH, AF], [('lcslen / ngram / leftcommonsubstring / commoncharacters', SM), ('metaphone', PH), ('PhonetTable', AF)],
     ['spylls.hunspell.algo.string_metrics functions', 'spylls.hunspell.algo.phonet_suggest.metaphone(table, word)'])

prop('C01', 'Letter case is recognised and converted by the rules of the language',
     'A word is recognised as lowercase, capitalised, all capitals or mixed (with or without a capital start), where a German sharp s may stand in all capitals. '
     'Lowering, raising and capitalising it follow the language: dotted and dotless i in Turkic languages, both ss and sharp s for SS in German ones. '
     'The spellings under which a correct or a misspelled word may be listed are the word itself and its lowercase, small-start and capitalised forms, as its kind allows, in that order.',
     INC, 'All words with at least one letter that has case, all language settings (Turkic, German sharp s, others).',
     'Existing tests see letter case only through the listed good and wrong words of a few fixtures, with one language each.',
     [CA, AF], [('Casing and its Turkic and German variants', CA), ('choice of casing by LANG and CHECKSHARPS', AF)],
     ['dictionary.aff.casing: guess, lower, upper, capitalize, lowerfirst, variants, corrections, coerce'])

prop('R01', 'Flag notation and alias tables do not change meaning',
     'The same dictionary written with one-character, two-character, numeric or UTF-8 flags, with or without AF flag aliases and AM field aliases, gives the same answer to every lookup and the same suggestions. ',
     ['configurations', 'inputs'], 'All dictionaries, all injective renamings of flags into each notation, all alias tables.',
     'Fixtures flag, flaglong, flagnum, flagutf8, alias* check one dictionary per notation.',
     [RA, RD, AF], [('Context.parse_flags', RA), ('AF/AM tables', RA), ('CompoundRule notation', AF)],
     ['Dictionary.lookup(word)', 'Dictionary.suggest(word)'])

prop('R02', 'Encoding, container and file layout do not change meaning',
     'The same dictionary stored in any encoding that can represent it (declared with SET), with or without a byte-order mark, with LF or CRLF line ends, blank lines, trailing spaces, comment lines and unknown directives, with a right, wrong or missing word count, '
     'and loaded from a file pair, a zip archive or a system folder, gives the same answers to lookup and suggest.',
     ['configurations', 'inputs'], 'All dictionaries and all combinations of these storage choices.',
     'Fixtures use one layout each; zip loading and most encodings are not tested at all.',
     [RF, RA, RD, DC], [('FileReader / ZipReader', RF), ('read_aff / read_dic', RA), ('Dictionary.from_*', DC)],
     ['Dictionary.from_files', 'Dictionary.from_zip', 'Dictionary.from_system', 'lookup', 'suggest'])

prop('R03', 'Dictionary lines are read into the stems, flags and fields they spell',
     'Each line of a .dic file becomes one entry, in order, whose stem, flags and two-letter data fields are those written: stems may contain spaces and, escaped or leading, slashes; fields start after a tab or after spaces followed by a two-letter tag; repeated fields accumulate; aliases are expanded. '
     'Plain ph: fields become alternative spellings of the entry and the entry records its case type.',
     INC, 'All entries over arbitrary Unicode text without line breaks, all flags notations, all fields.',
     'Existing tests never compare the loaded entries with the file.',
     [RD, DI, RA], [('read_dic / parse_data', RD), ('Dic.index', DI)],
     ['dictionary.dic.words', 'dictionary.dic.homonyms(stem)'])

prop('R04', 'Affix file directives are read into the settings they spell',
     'Every supported directive of an .aff file sets the setting of the same name to the written value (tables with their declared number of rows, 0 for empty strip or add, continuation flags after a slash, missing conditions, outdated names as their modern synonyms), independent of the order of unrelated directives. '
     'Directives not present leave the documented default, and any other line is ignored.',
     ['configurations'], 'All combinations and orders of supported directives with arbitrary values, interleaved with arbitrary other lines.',
     'Existing tests never compare the loaded settings with the file.',
     [RA, AF], [('read_aff / read_directive / read_value', RA), ('Aff defaults', AF)],
     ['dictionary.aff attributes', 'Dictionary.lookup', 'Dictionary.suggest'])

prop('R05', 'Entries can be found by spelling, ignoring case and by flag',
     'Asking the loaded word list for a spelling gives exactly the entries with that spelling, in file order, and asking ignoring case with a lowercased spelling gives exactly those whose lowercase (by the rules of the language) it is. '
     'Asking whether any or whether all entries of a spelling have a flag answers by their written flags, and no for a spelling without entries. '
     'Questions never change the list.',
     INC, 'All word lists with repeated spellings in any letter case, flags in any notation, all spellings present or not.',
     'Existing tests never query the word list directly.',
     [DI, RD, CA], [('Dic.homonyms / Dic.has_flag / Dic.append', DI), ('read_dic', RD), ('Casing.lower', CA)],
     ['dictionary.dic.homonyms(stem, ignorecase=)', 'dictionary.dic.has_flag(stem, flag, for_all=)', 'dictionary.dic.words'])

prop('F01', 'Dictionaries are found where the documentation says, or an error is raised',
     'A dictionary asked for by path is read from exactly that pair of files, relative paths from the current folder; the names of the bundled dictionaries mean a file in the current folder if there is one, and the bundled dictionary otherwise. '
     'One asked for by name is taken from the first system folder that has it; one in an archive from its .aff and .dic files. '
     'If there is none, loading raises an error and never gives another dictionary.',
     ['configurations', 'inputs'], 'All arrangements of dictionaries in folders, orders of folders, current folders, archives with or without the files.',
     'Existing tests load every dictionary from one fixed folder and never from system folders or archives.',
     [DC, RF], [('Dictionary.from_files / from_system / from_zip', DC), ('FileReader / ZipReader', RF)],
     ['Dictionary.from_files(path)', 'Dictionary.from_system(name)', 'Dictionary.from_zip(path)', 'Dictionary.lookup'])

prop('H01', 'Answers do not depend on earlier calls or other dictionaries',
     'The answer of lookup and suggest for a word is the same whatever calls were made before on this or any other dictionary object, including suggestion iterators left unfinished or advanced alternately. '
     'No call changes the loaded data.',
     ['histories', 'inputs'], 'All sequences of lookups, suggestion iterations (complete, abandoned, interleaved), analyses and loads over several dictionaries.',
     'Tests ask each question once on a fresh or shared object and never compare with another history.',
     [LK, SG, TR, DI, AF], [('Lookup / Suggest objects', LK), ('module and class level state', SG)],
     ['Dictionary.lookup', 'Dictionary.suggest', 'dictionary.dic', 'dictionary.aff'])

prop('H02', 'Answers are reproducible and independent of entry order',
     'Loading the same files in any process and with any hash seed gives the same lookup answers, analyses and suggestion lists in the same order. '
     'Permuting the lines of the .dic file or the order of affix classes never changes a lookup answer.',
     ['configurations', 'inputs'], 'All dictionaries, hash seeds and permutations of entries and affix classes.',
     'Tests run with one order and one hash seed.',
     [RA, RD, LK, NG, SG], [('set iteration in flags and aliases', RA), ('heap ordering', NG)],
     ['Dictionary.lookup', 'Dictionary.suggest'])

prop('T01', 'Lookup and suggest give an answer for every string',
     'For every loaded dictionary and every Unicode string, lookup returns a bool and suggest yields finitely many non-empty strings, without raising. '
     'An .aff or .dic file with any unrelated text lines loads without raising.',
     INC, 'All dictionaries of the other properties, all strings (empty, spaces, digits, punctuation, astral, combining, special-casing letters, very mixed case).',
     'Tests use ordinary words only.',
     [LK, SG, CA, NG, PH, RA, RD], [('Lookup.__call__', LK), ('Suggest.__call__', SG)],
     ['Dictionary.lookup', 'Dictionary.suggest'])

prop('B01', 'The bundled dictionaries answer as their files say',
     'For the bundled English, Russian and Swedish dictionaries, lookup accepts exactly the words that follow from their files: entries, forms made by their affix tables, compounds and broken words, in the allowed letter cases. '
     'The suggestions for a misspelling are those of the documented algorithm run over the files, in the same order.',
     ['inputs'], 'All entries and affix combinations of the three bundled dictionaries, and all small typos of them.',
     'The suite has no test on the real dictionaries.',
     [LK, SG, RA, RD, NG, DC], [('everything on real data', DC)],
     ['Dictionary.from_files(name)', 'lookup', 'suggest'])

prop('U01', 'The unmunch example lists exactly the words of a dictionary',
     'For a dictionary without compounding, the unmunch example script prints, sorted and without repetition, exactly the entries and the forms made by one prefix and up to two suffixes that its affix rules allow (cross products, conditions, NEEDAFFIX), and nothing for forbidden entries. '
     'With a word given it prints only the words of the entries with that spelling, and the immediate mode prints the same set of words.',
     INC, 'All dictionaries with prefix and suffix classes (strip, add, condition, further suffixes allowed, cross-product mark), NEEDAFFIX and FORBIDDENWORD marks.',
     'The example has no test.',
     [UN, AF, RA], [('unmunch', UN)],
     ['examples/unmunch.py -d DICTIONARY [-w WORD] [-i]'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
with open(out, 'w', encoding='utf-8') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        p['statement'] = p['statement'].strip()
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
