"""Writes tools/cases.json: per property the size of the bounded exploration and how its cases are made"""
import json, os
Q = dict(C01=(80000, 40), C02=(80000, 40), C03=(2500, 40), C04=(80000, 40), C05=(120000, 40), C06=(120000, 40), C07=(60000, 40),
         C08=(50000, 40), C09=(120000, 40), C10=(300000, 40), C11=(100000, 40), C12=(8000, 40), C13=(10000, 40), C14=(100000, 40), C15=(40000, 40))
RULE = dict(
    C01="the first cases enumerate small patterns, later ones are drawn: a pattern without edits (built directly, or parsed from its text), and a list of words of which some are drawn from the pattern's language and then mutated; the result is compared with an independent matcher; non-trivial: some but not all of the words match",
    C02="as C01, with an allowance of edits; compared with a direct computation of the least number of edits; non-trivial: some but not all of the words match",
    C03="a pattern and a list of up to hundreds of words which share prefixes, in several orders and with repetitions; every entry is compared with the oracle and with its evaluation alone; non-trivial: some but not all match",
    C04="2 to 4 patterns with their own allowances and options, in several orders; compared with the intersection of the single results; non-trivial: some but not all match",
    C05="patterns and small word lists with frequency classes; every reported phrase is checked by the oracle; non-trivial: phrases of several words are reported",
    C06="as C05; all sequences of entries up to the permitted length are enumerated and compared, as a multiset, with the reported ones; non-trivial: phrases of several words match",
    C07="as C06, for every limit of results from 0 to one more than there are, and for all smaller word limits; non-trivial: the limits change the result",
    C08="as C06 with word lists that are long enough for deadlines to be tested; deadlines that have passed, or pass at random times, at every call; non-trivial: there was at least one interruption and one result",
    C09="anagrams of all kinds, alone, fenced off, and nested; compared with letter counts; non-trivial: some but not all of the strings match",
    C10="the first cases enumerate all characters of a set of blocks, later ones draw Unicode strings from letters with accents, ligatures, case variants, digits, symbols; compared with tables of the oracle; non-trivial: a non-ASCII or non-letter character is contained",
    C11="patterns with all combinations of options over words and phrases with spaces and punctuation; non-trivial: some but not all match",
    C12="query texts are printed from generated syntax trees with random case, spaces, comments, macros, directives; what they match is compared with the tree's meaning; printed patterns are parsed again; non-trivial: some but not all match",
    C13="patterns with sizes around the word size of the tables and the bound on states, odd words, huge counts; built with debug assertions and overflow checks; non-trivial: a search was performed",
    C14="all 28 symbols against classes with ranges, inversions, and random subsets; the first cases enumerate all ranges; non-trivial: some but not all symbols are contained",
    C15="files of up to 50000 lines with and without counts, with odd counts, bytes that are no text, both kinds of line ends, accents and ligatures; plain or compressed, some cut off or damaged, or directories; the entries are compared with the lines that were written; non-trivial: there are entries")
PROOFS = json.load(open(os.path.dirname(os.path.abspath(__file__)) + "/proofs.json"))
LEVEL = {p: c.get("level", "other") for p, c in PROOFS.items()}
PROOF = {p: c["modules"] for p, c in PROOFS.items()}
out = {}
for p in Q:
    out[p] = dict(quick=Q[p], rule=RULE[p], level=LEVEL.get(p, "exploration"), proof=PROOF.get(p, []), explanation=PROOFS.get(p, {}).get("explanation", ""), assumptions=["the independent oracle in replay/src/lib.rs"])
json.dump(out, open(os.path.dirname(os.path.abspath(__file__)) + "/cases.json", "w"), indent=1)
