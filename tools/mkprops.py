#!/usr/bin/python3
"""writes /verif/properties.jsonl from the table below"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": ["lib/daeso/" + f if not f.startswith("bin/") else f for f in files],
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


p("C01", "Graph pairs keep one-to-one node alignments through every edit",
  "After any sequence of adding, relabelling and deleting node alignments, a graph matching holds at most one alignment per source node and per target node: adding (s,t,r) makes t the partner of s with relation r, frees any former partner of s or t, and leaves every other alignment as it was; deleting removes exactly that alignment. "
  "The alignment list, its filtering by relation, the number of alignments, the relation lookup and the partner lookups in both directions always agree with each other, also when source and target nodes share names. A graph mapping behaves alike without the one-to-one restriction.",
  ["histories", "inputs"], "all edit histories (one step from any reachable alignment state), all node and relation names",
  "test_graphpair.py plays a handful of fixed add/del sequences on two small graphs; clashes between names of source and target nodes and re-alignment of two already aligned nodes are a history property",
  ["pgc/graphpair.py", "pair.py"],
  [("GraphMatching.add_align / GraphMapping.del_align", "pgc/graphpair.py"), ("NetworkX DiGraph adjacency", "pgc/graphpair.py")],
  ["get_align", "alignments", "get_aligned_source_node", "get_aligned_target_node", "len"])

p("C02", "Equality and deep copy of graph pairs",
  "Two graph pairs compare equal exactly when their graph banks, graph ids, alignments (triples of source node, target node and relation, in any order) and meta-data are equal, and unequal (!=) otherwise. "
  "A deep copy is equal to its original, shares its graph banks and graphs, and no later change of alignments or meta-data on either one shows in the other; the roots of a pair are reported as aligned exactly when the root of the source graph is aligned with the root of the target graph.",
  ["inputs", "histories"], "all pairs of alignment states and all single edits after a copy",
  "tests compare a few fixed pairs; equality over arbitrary alignment sets, and independence after arbitrary edits, are universally quantified",
  ["pgc/graphpair.py", "gb/graphbank.py", "pair.py"],
  [("GraphMapping.__eq__/__deepcopy__", "pgc/graphpair.py"), ("GraphBank.__eq__", "gb/graphbank.py")],
  ["==", "!=", "copy.deepcopy", "roots_aligned"])

p("C03", "A parallel corpus behaves as a typed list of graph pairs",
  "Indexing, slicing, assigning, deleting, inserting, appending, extending, popping, removing, adding, repeating, reversing, comparing and copying parallel graph corpora act on their graph pairs exactly as the same operation acts on a plain list; new corpora keep the relations and meta-data, and nothing done to a copy shows in its original. "
  "Assigning, inserting or appending what is not a graph pair, or adding a corpus with other relations, raises an error and leaves the corpus unchanged; two corpora are equal exactly when relations, meta-data and pairs are. "
  "Purging a corpus keeps all pairs and their alignments and lets pairs whose banks have the same file share one bank.",
  ["histories", "inputs"], "all corpora up to the bound, all indices and slice bounds, all operations of the list interface",
  "test_corpus.py needs Alpino data and fails at the baseline; the index and slice arithmetic is quantified over all integers",
  ["pgc/corpus.py"], [("ParallelGraphCorpus list overrides", "pgc/corpus.py"), ("_check_pair/_check_compatible", "pgc/corpus.py")],
  ["list interface of ParallelGraphCorpus"])

p("C04", "A saved parallel corpus reads back as the same corpus",
  "Whatever corpus is written - any relations, any meta-data on the corpus or on a pair, any number of graph banks and pairs, any alignments, to a file or a file-like object - reading the written document gives a corpus with equal relations, equal meta-data and equal graph pairs in the same order, with the same bank paths, formats, graph ids, aligned nodes and relations. "
  "Pairs that share a graph bank share it again after reading and each bank is written once. Annotators that are set are added to, or replace, those in the meta-data of the corpus, which keeps everything else.",
  ["inputs"], "all corpora up to the bound",
  "round-trip tests use one stored file; which banks are shared, the presence of meta-data and of relations vary independently",
  ["pgc/corpus.py", "pgc/graphpair.py", "utils/etree.py"],
  [("PGCGenerator", "pgc/corpus.py"), ("PGCParser", "pgc/corpus.py")], ["ParallelGraphCorpus.write/read"])

p("C05", "Graph loading modes give the same graphs for the same corpus",
  "Loading a corpus in normal, sparse or none mode yields the same pairs, alignments, banks and graph ids; in the normal and sparse modes every pair refers to the very graph of its bank that has that id, in none mode to a stub of that id. "
  "Sparse mode keeps exactly the graphs that some pair refers to, and a pair that refers to a graph id which is not in the graph bank is reported as an error instead of being left unresolved.",
  ["inputs", "configurations"], "all bank contents and pair references up to the bound, the three modes",
  "tests load one stored corpus; the combination of referenced, unreferenced and missing ids is unbounded",
  ["pgc/corpus.py", "gb/graphbank.py", "gb/parser.py", "gb/graphstub.py", "gb/graphml.py"],
  [("PGCParser._finish / graph stubs", "pgc/corpus.py"), ("GraphBank.load", "gb/graphbank.py")], ["graphs and banks of the pairs"])

p("C06", "GraphML parsing is faithful to the document",
  "For every GraphML document the parser accepts, each graph has exactly the declared id, root, token list, nodes (in document order, with their label and tokens) and edges (in document order, with their label and data), keys' default values hold where no value is given, and data inside a node, an edge or a graph goes to that element only. "
  "The content of one graph never leaks into the next, and restricting parsing to some graph ids yields exactly those graphs, unchanged.",
  ["inputs"], "all event sequences of well-formed documents up to the bound",
  "test_graphml.py parses a few stored files; which optional elements occur, and in what order, is combinatorial",
  ["gb/graphml.py", "gb/parser.py", "graph/daesograph.py"], [("GraphmlParser handlers", "gb/graphml.py")], ["graphs returned by the parser"])

p("C07", "Ordered directed graphs keep insertion order and attributes",
  "In an ordered directed graph, the successors and predecessors of every node and the edges leaving or entering it come out in the order of their first insertion, through any sequence of adding and removing nodes and edges; successor and predecessor views always describe the same edges. "
  "Adding again only updates attributes, attributes of one node or edge never change another's, and a Daeso graph refuses an edge to a node it does not have, without changing.",
  ["histories"], "all sequences of add/remove operations up to the bound, all node names",
  "test_ograph.py checks fixed sequences of a few calls; ordering must hold for every history",
  ["graph/ograph.py", "graph/daesograph.py"], [("OrderedDict adjacency in ODiGraph", "graph/ograph.py")], ["nodes", "edges", "successors", "predecessors"])

p("C08", "Terminals and terminal yield of a graph",
  "The terminals of a graph are exactly its nodes without outgoing edges (minus punctuation or empty nodes when so asked) and the non-terminals exactly the others. "
  "The terminal yield of any node is the list of terminals reachable from it, each once, in left-to-right depth-first order, for trees, graphs with shared nodes and graphs with cycles; without an argument it starts at the root.",
  ["inputs"], "all directed graphs up to the bound, all punctuation/empty settings",
  "test_daesograph.py covers two fixed graphs", ["graph/daesograph.py"],
  [("DaesoGraph.terminal_yield", "graph/daesograph.py")], ["terminals", "non_terminals", "terminal_yield"])

p("C09", "Alignment evaluation counts are the set counts of their definition",
  "For any two parallel corpora and any relation, the number of true, predicted and common alignments equal those of the sets of (pair, source node, target node, relation) triples, and so do the counts over all relations and the counts regardless of relation. "
  "True = common + missed and predicted = common + spurious always hold, and swapping the corpora swaps precision and recall.",
  ["inputs"], "all pairs of alignment sets up to the bound",
  "test_evaluate.py compares two stored corpora (unavailable here); the identities range over all alignment sets",
  ["pgc/evaluate.py"], [("AlignEval/AlignCounts", "pgc/evaluate.py")], ["counts of the evaluation"])

p("C10", "Precision, recall, F-score and their averages",
  "For all non-negative counts with common <= true and common <= predicted, precision, recall and F lie in [0,1], equal their definitions, are 0 rather than an error when a denominator is 0, and F lies between the smaller and the larger of precision and recall. "
  "Over several corpora, the micro average of a relation is computed from its summed counts, the macro average is the unweighted mean over relations, and variances and standard deviations are the sample statistics of the values per corpus (0 for a single one). The report that is written has exactly these counts, and these measures in percents, in the row and column where they belong.",
  ["inputs"], "all counts", "tests look at one evaluation of stored files", ["pgc/evaluate.py"],
  [("AlignCounts.calc / AlignSum statistics", "pgc/evaluate.py")], ["measures", "micro/macro/sd"])

p("C11", "Annotator agreement tables",
  "The tables of agreement between annotators have for every pair of annotators and every relation the precision, recall and F-score of that pair of annotations; the averages and sample standard deviations of every column and of the whole table are those of the values in it, whatever the values are. "
  "When restricted to words, exactly the alignments that involve no non-terminal node are compared.",
  ["inputs"], "all score values, any number of annotators up to the bound", "no test covers it",
  ["pgc/agreement.py"], [("agreement tables", "pgc/agreement.py")], ["AVR", "SD rows"])

p("C12", "pgc_diff reports exactly the differing alignments",
  "Comparing two corpora reports every alignment that is only in the first, only in the second, or in both with different relations, and nothing else, each once and under its own heading; comparing a corpus with itself reports nothing. "
  "When restricted to words, exactly the alignments with at least one terminal node are considered; when restricted to certain relations, no alignment without such a relation is reported (the relation in the first corpus decides where both have the alignment).",
  ["inputs"], "all pairs of alignment sets up to the bound", "no test examines the report",
  ["pgc/diff.py"], [("pgc_diff", "pgc/diff.py")], ["reported node pairs"])

p("C13", "Corpus and treebank statistics are consistent counts",
  "In the statistics of graph banks and parallel corpora every count equals the number of elements of its kind among those the options include: graphs, graph pairs, nodes and aligned node pairs, aligned and unaligned, with failed parses or unaligned roots, and per alignment relation. Aligned and unaligned graphs (nodes) add up to all graphs (nodes), percentages lie between 0 and 100 and are those of the counts, and overall figures equal those over all rows together; every corpus and every graph bank gets one row.",
  ["inputs"], "all corpora up to the bound", "only the command line help of these tools is tested",
  ["pgc/pgcstats.py", "gb/gbstats.py", "stats/corpus.py"], [("graph_stats / pgc_stats", "gb/gbstats.py")], ["statistics tables"])

p("C14", "Statistics tables: rows, totals and percentages",
  "A statistics table keeps one value per row in every column; adding rows leaves the existing values alone; the overall value of a count is the sum of its column, that of a percentage or average is the percentage or quotient of the two sums it is defined by, whatever the counts, and lies between 0 and 100 for percentages. Writing tables and reading them back, one after another, gives the same labels and counts, and percentages to the two decimals written. The report on a corpus segment has a row for every corpus or bank file of every part, in order, with totals per annotation and overall; when only some parts or annotations are asked for, the others stay as reported before.",
  ["inputs"], "all values up to the bound", "no test covers it", ["stats/table.py", "gb/gbstats.py", "pgc/pgcstats.py", "stats/corpus.py"], [("StatsTable", "stats/table.py"), ("corpus_seg_stats", "stats/corpus.py")], ["columns, overall, write/read"])

p("C15", "Parallel text corpora: alignment survives injection and extraction",
  "Adding links to a parallel text corpus, injecting them into its documents and extracting them again gives exactly the same links, by element number and by element id, also when converted from one to the other and after writing and reading the corpus; after injection every element knows exactly the elements it is aligned to, in both documents. The files of a corpus are searched for as given, relative to the corpus and beside it, in that order, and the render section describes every kind of element of a document once, with the settings given.",
  ["inputs"], "all alignment lists up to the bound", "no test covers it", ["ptc/document.py"], [("HitaextDoc", "ptc/document.py")], ["alignments"])

p("C16", "Indexed documents give every element its own span of text",
  "After indexing a document every element has an ordinal number counting the elements of its kind in document order and no alignments yet; unless it is ignored, its start and end are such that the text between them is exactly the element's text, inside that of its parent; exactly the elements of ignored kinds and those inside them are marked as ignored; elements are found by kind and number and by kind and id. Indexing again with other settings gives what a first indexing with these settings gives.",
  ["inputs"], "all element trees up to the bound", "no test covers it", ["ptc/ielemtree.py"], [("IndexElemTree", "ptc/ielemtree.py")], ["_n", "_start", "_end", "_ignore"])

p("C17", "Automatic text alignment respects its constraints",
  "Whatever the similarity scores, the text aligner compares every pair of elements of the requested kind within aligned scopes that are not ignored, and no others, and aligns exactly the pairs its filter keeps: all above the threshold, or, without crossings, pairs above the threshold that do not cross, leaving one out only for one with a score at least as high that it crosses. All other alignments stay as they were; earlier alignments of the kind requested are removed if asked for, also when the documents are reused. Terms are the n-grams of the words (lower case and without punctuation when preprocessed), the similarity measures of terms and the cosine of their weights are as defined, and the latter lies between 0 and 1.",
  ["inputs"], "all score matrices up to the bound", "needs daeso_nl, no test", ["ptc/textalign.py"], [("TextAligner", "ptc/textalign.py")], ["alignments"])

p("C18", "Evaluation and diff of parallel text corpora",
  "The numbers of true, predicted and common alignments in the evaluation of a text alignment are those of the sets of links between elements of the kind evaluated, by id or by number; ratio, precision, recall and F follow from them, per corpus and over all corpora. The diff of two text alignments reports exactly the alignments of elements of the kind requested that are in one and not in the other, each once, whatever ids the elements have.",
  ["inputs"], "all pairs of alignment lists up to the bound", "no test covers it", ["ptc/evaluate.py", "ptc/diff.py"], [("evaluate", "ptc/evaluate.py")], ["scores, reports"])

p("C19", "Parallel graph corpora built from parallel text",
  "Creating a graph corpus from aligned sentences makes exactly one graph pair for every link of the requested kinds of elements, in document order, between the graphs of the given graph banks that have the ids of the linked elements, without alignments and with the relations given; "
  "links between sentences with more than the maximum number of tokens, or with too small a difference between them, are left out.",
  ["inputs"], "all sentence alignments up to the bound", "no test covers it", ["pgc/creation.py"], [("pgc_from_ptc", "pgc/creation.py")], ["graph pairs"])

p("C20", "Levenshtein distance is the minimal number of edits",
  "For all pairs of sequences the Levenshtein distance is the smallest number of insertions, deletions and substitutions that turns one into the other; it is symmetric, zero only for equal sequences and obeys the triangle inequality, and the normalised distance is that number divided by the longer length (0 for two empty sequences).",
  ["inputs"], "all pairs of sequences up to the bound, over any alphabet", "test_levenshtein.py samples a few word pairs",
  ["string/levenshtein.py"], [("levenshtein", "string/levenshtein.py")], ["return value"])

p("C21", "Longest common subsequence",
  "The longest common subsequence returned is a subsequence of both inputs, no longer one exists, it has the type of the inputs, and the normalised similarity lies in [0,1], is symmetric and 1 for equal sequences.",
  ["inputs"], "all pairs of sequences up to the bound", "test_lcs.py samples a few words", ["string/lcs.py"], [("lcs", "string/lcs.py")], ["return value"])

p("C22", "Needleman-Wunsch finds an optimal global alignment",
  "For all sequences, all match scores and all gap costs, the reported alignment uses every element of both sequences once and in order, its score equals the reported score, and no other global alignment scores better.",
  ["inputs"], "all score functions, sequences up to the bound", "test_needleman_wunsch.py samples fixed scores", ["string/needleman_wunsch.py"], [("score_alignment/trace_alignment", "string/needleman_wunsch.py")], ["pairs, score"])

p("C23", "Smith-Waterman finds an optimal local alignment",
  "For all sequences and match scores the local alignment found is in order, its score equals the reported score, and no other local alignment scores better; with no positive score the alignment is empty.",
  ["inputs"], "all score functions, sequences up to the bound", "test_smith_waterman.py samples fixed scores", ["string/smith_waterman.py"], [("smith_waterman", "string/smith_waterman.py")], ["pairs, score"])

p("C24", "Waterman-Eggert finds the best local alignments first",
  "For all sequences and match scores the first local alignment returned is in order, has a positive score and no other local alignment scores better, ties going to the one that ends earliest; nothing is returned only if no local alignment has a positive score. "
  "Every further alignment is in order and within the sequences too, there are never more than the limit asked for, a smaller limit gives a prefix of the same list, and every alignment has its own table of scores, which later rounds do not change.",
  ["inputs"], "all score functions, sequences up to the bound", "test_waterman_eggert.py samples fixed scores", ["string/waterman_eggert.py"], [("waterman_eggert", "string/waterman_eggert.py")], ["alignments"])

p("C25", "Similarity coefficients",
  "The cosine, Jaccard, Dice, overlap and related coefficients and their generalisations to several sequences equal their definitions over the numbers of shared elements and are 0 rather than an error for empty sequences; they are independent of the order of their arguments. "
  "For sequences without repeated elements the coefficients of a pair lie in [0,1], are 1 for equal non-empty sets and 0 exactly for disjoint ones.",
  ["inputs"], "all sequences up to the bound", "test_similar.py samples fixed values", ["string/similar.py"], [("similarity functions", "string/similar.py")], ["return values"])

p("C26", "N-grams and skip-grams",
  "The n-grams of a sequence are exactly its contiguous length-n windows in order, the skip-bigrams exactly its in-order pairs with at most the given number of elements between, each occurrence once, and both have the type of the sequence and leave it unchanged. "
  "Padding adds exactly the number of markers asked for on both sides, n-1 by default where n-grams of several lengths are made.",
  ["inputs"], "all sequences, n and k up to the bound", "test_ngram.py / test_sgram.py sample", ["string/ngram.py", "string/sgram.py"], [("ngram / sgram", "string/ngram.py")], ["return values"])

p("C27", "ROUGE scores",
  "ROUGE-N, ROUGE-L and ROUGE-S equal their published definitions over (clipped) n-gram matches, the longest common subsequence and skip-bigrams (distinct ones), and are 0 rather than an error for empty texts. "
  "They lie in [0,1], are 1 when candidate and reference are equal and 0 when nothing is shared.",
  ["inputs"], "all texts up to the bound", "test_rouge.py samples", ["string/rouge.py"], [("rouge_*", "string/rouge.py")], ["scores"])

p("C28", "Term weights (idf, tf*idf)",
  "Inverse document frequency and tf*idf weights equal their definition for every collection of documents, with one column per distinct term in sorted order and one row per document. "
  "Rarer terms weigh more, a term in all documents and a term absent from the document weigh 0, and weights are not negative and normalised ones at most 1; the documents are left unchanged.",
  ["inputs"], "all collections up to the bound; log uninterpreted", "test_tf_idf.py samples", ["string/tf_idf.py"], [("idf / tf_idf", "string/tf_idf.py")], ["weights"])

p("C29", "Set median string",
  "The set median of a non-empty list of strings is the first member of it with the smallest sum of distances to all members, for every symmetric distance function; the list is left unchanged.",
  ["inputs"], "all distance matrices and weights up to the bound", "test_median.py samples", ["string/median.py"], [("set_median_string", "string/median.py")], ["return value"])

p("C30", "Dutch spelling of numbers",
  "The spelling of a non-negative number follows the Dutch rules and reads as exactly that number, so that distinct numbers have distinct spellings; 'nul' is used for zero only; numbers of four digits are spelled in hundreds exactly if that is preferred and the second digit is not zero.",
  ["inputs"], "all numbers below the bound", "a test prints samples", ["string/number.py"], [("number spelling", "string/number.py")], ["spelling"])

p("C31", "Splitting, joining, copying and packing corpora",
  "Splitting a parallel graph corpus puts every pair in exactly one part, in order, with the relations and meta-data of the whole, in no more parts than asked for or of the size asked for; joining corpora gives the pairs of all of them in order; "
  "a copied corpus says the same about the same graph banks, and existing files are overwritten only on request; a packed corpus contains the corpora and each of their graph banks unchanged. "
  "The tools that change paths change exactly the paths with the given prefix (or the directory of the two files), and nothing else; a dry run changes nothing.",
  ["inputs", "configurations"], "all corpora, options and layouts up to the bound", "no test runs these tools",
  ["bin/pgc_split.py", "bin/pgc_join.py", "bin/pgc_cp.py", "bin/pgc_zip.py", "bin/pgc_chdir.py", "bin/ptc_chdir.py", "pgc/corpus.py", "utils/opsys.py"],
  [("tools", "bin/"), ("ParallelGraphCorpus.read/write", "pgc/corpus.py")], ["files written"])

p("C32", "The command-line tools do what their options say",
  "Each command-line tool (statistics, differences, agreement, evaluation, extraction of phrases, creation of corpora) reports or writes exactly what the library gives for the files and options named on the command line, with the documented default for every option that is not given; "
  "extracting phrases prints one line for each alignment, with the phrases of its two nodes and its relation in columns.",
  ["configurations", "inputs"], "all combinations of options", "no test runs these tools",
  ["bin/pgc_stats.py", "bin/gb_stats.py", "bin/pgc_diff.py", "bin/pgc_agreement.py", "bin/pgc_extract_phrases.py", "bin/pgc_from_ptc.py", "bin/ptc_diff.py", "bin/ptc_eval.py", "utils/cli.py"],
  [("tools", "bin/")], ["standard output", "files written"])

p("C33", "The cache never returns a stale value",
  "A fetch from the cache gives the value last inserted under the key, and fails (or gives the default, or calls the generator) exactly when there is none, it was removed, it has outlived its living time, or it made room for others; "
  "the cache never holds more values than its size allows, and the one least recently used goes first. A decorated function is called only if no result for its arguments is in the cache. Operations of two threads at the same time have the effect of one after the other, and no operation, failed or not, leaves the cache locked.",
  ["histories", "schedules"], "all histories up to the bound, all real times", "no test covers it",
  ["thirdparty/GenericCache/GenericCache.py", "thirdparty/GenericCache/LRUStock.py", "thirdparty/GenericCache/decorators.py"],
  [("GenericCache", "thirdparty/GenericCache/GenericCache.py"), ("LRUStock", "thirdparty/GenericCache/LRUStock.py")], ["fetch", "len"])

p("C34", "Munkres assignment is optimal",
  "For every rectangular cost matrix the assignment returned pairs each row with at most one column and conversely, pairs as many as possible, and has the smallest total cost of all such assignments, also when the object is used again; the matrix passed in is left unchanged, and padding makes a matrix square with the value given.",
  ["inputs"], "all real cost matrices up to the bound", "no test covers it", ["thirdparty/munkres.py"], [("Munkres.compute", "thirdparty/munkres.py")], ["index pairs"])

p("C35", "XML comparison and writing, files and directories",
  "Two XML elements compare equal exactly when tag, text, tail, attributes and children do, space around texts aside. A written tree is one well-formed document that reads back as the same tree; pretty printing changes space between elements only and puts every element on an indented line of its own. "
  "Lists of files matching patterns are complete and sorted; making a directory either leaves it there or raises an error.",
  ["inputs"], "all elements and trees up to the bound", "no test covers it", ["utils/etree.py", "utils/opsys.py", "utils/report.py"],
  [("equals/write/indent", "utils/etree.py"), ("glob/makedirs", "utils/opsys.py")], ["return values, documents"])

p("C36", "Ordered dictionaries and counters",
  "After any history of operations the ordered dictionary holds what a plain dictionary would hold and lists its keys, values and items in the order in which the keys were first inserted since they were last removed. "
  "A counter holds how often each element was counted; addition, subtraction, union and intersection of counters are those of multisets, and the most common elements come in order of their counts.",
  ["histories", "inputs"], "all histories and counts up to the bound", "no test covers it", ["thirdparty/odict.py", "thirdparty/counter.py"],
  [("OrderedDict", "thirdparty/odict.py"), ("Counter", "thirdparty/counter.py")], ["keys, values, items, counts"])

p("C37", "Pairs compare by their members",
  "A pair unpacks and iterates as (source, target) and is equal to another pair exactly when both members are, unequal exactly otherwise; it equals nothing that is not a pair. "
  "Setting its members changes them and no other pair; omitted members are None.",
  ["inputs"], "all values", "test_pair.py samples", ["pair.py"], [("Pair", "pair.py")], ["==, !=, indexing"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
