#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)


prop('C01', 'CoNLL-U load followed by store is lossless',
     "Loading a well-formed CoNLL-U document and storing it again reproduces it byte for byte whenever it is in the "
     "writer's canonical form (key comments in their usual place, sorted MISC), and storing is a fixed point: loading what "
     "was stored and storing it again gives the same bytes. For any other well-formed input no word, multi-word token, empty "
     "node, comment, attribute value or enhanced dependency is lost, duplicated, moved to another sentence or altered by the "
     "round trip, also through document-level string conversion and files.",
     ['inputs'],
     'every well-formed CoNLL-U document: any trees, MWTs, empty nodes, enhanced graphs, comments, zones, MISC/FEATS content',
     'The tests compare two fixed corpora byte for byte; they sample none of: zones, json comments, empty sentences, >9 empty '
     'nodes, comments in unusual positions, missing key comments, CRLF, values with = | and non-ASCII.',
     ['udapi/block/read/conllu.py', 'udapi/block/write/conllu.py', 'udapi/core/document.py', 'udapi/core/dualdict.py',
      'udapi/core/root.py'],
     [('comment placeholders $SENT_ID/$TEXT/$NEWDOC/$NEWPAR', 'read/conllu.py parse_comment_line, write/conllu.py'),
      ('lazy DualDict keeps the original string until modified', 'core/dualdict.py'),
      ('raw_deps kept as the original string', 'core/node.py raw_deps')],
     observe=['Document.to_conllu_string', 'Document.store_conllu', 'write.Conllu output'])

prop('C02', 'The CoNLL-U reader builds exactly the trees the file describes',
     "After reading a well-formed CoNLL-U file, every sentence is one tree whose words carry, in file order, exactly the ten "
     "columns of their line (undefined UPOS, XPOS and DEPREL read as absent), are attached to the word named by HEAD, and "
     "whose multi-word tokens, empty nodes, enhanced dependencies, sentence ID, zone, text, paragraph and document marks, "
     "JSON metadata and remaining comments are those of the file. All ways of obtaining a tree from the same bytes "
     "(file name, file handle, string, one bundle at a time, compressed file, subclassed column order) agree with each other.",
     ['inputs', 'configurations'],
     'every well-formed CoNLL-U file and every entry point that reads it',
     'Tests check a few counts and attributes on three fixed files through one entry point.',
     ['udapi/block/read/conllu.py', 'udapi/block/read/conll.py', 'udapi/core/basereader.py', 'udapi/core/document.py',
      'udapi/core/files.py'],
     [('parse_node_line / read_tree_from_lines', 'read/conllu.py'),
      ('filtered_read_tree, read_trees, process_document', 'core/basereader.py')],
     observe=['Document(...) trees and nodes'])

prop('C03', 'Malformed CoNLL-U is rejected or repaired, never silently misread',
     "Reading a sentence whose HEADs form a cycle (including a word that is its own head), in which some HEAD names no word of "
     "the sentence, whose word IDs are not 1, 2, 3... in order, in which a multi-word token covers words that are not there, or, in strict mode, some line of which does not have exactly ten columns or has no HEAD, "
     "raises an exception instead of yielding a tree. With cycle fixing on, reading such cyclic "
     "input succeeds and the result is a valid tree with the same words, in which only words on a cycle may have been "
     "re-attached, namely to the technical root, at least one per cycle; acyclic input is unaffected by that option.",
     ['inputs', 'fault_sequences'],
     'every corruption of HEAD, column count or cycle structure at any position of any sentence',
     'The tests read well-formed files only.',
     ['udapi/block/read/conllu.py', 'udapi/block/read/conll.py', 'udapi/core/node.py'],
     [('cycle detection in parent assignment, fix_cycles', 'read/conllu.py, read/conll.py'),
      ('Node.parent setter raising CycleError', 'core/node.py')],
     observe=['exceptions of read.Conllu', 'resulting trees'])

prop('C04', 'Readers deliver every input sentence exactly once and in order',
     "For any list of input files and any combination of the common reader options, the concatenation of the documents "
     "produced contains each selected input sentence exactly once and in input order, with each file starting a new document "
     "unless files are merged and trees sharing a sentence ID but differing in zone landing in the same bundle. Chunking "
     "by a bundle count or at document marks only decides where documents end (every chunk but the last having the requested "
     "size, or starting at a document mark), "
     "a sentence-ID filter keeps exactly the matching sentences, a document limit keeps exactly the leading documents, and a zone "
     "override puts trees into that zone. A poem file (read.Ccv) gives one tree per verse under the same options, with its words, punctuation, spacing, verse and poem attributes, poems starting documents and stanzas starting paragraphs.",
     ['inputs', 'configurations'],
     'every set of files (plain, gz, bz2, xz; empty; several zones; several newdocs; with or without final blank line) times '
     'every combination of bundles_per_doc, split_docs, merge, max_docs, sent_id_filter, zone, sent_id-less trees',
     'One test uses split_docs on one file; no test reads several files, compressed files or uses the other options.',
     ['udapi/core/basereader.py', 'udapi/core/files.py', 'udapi/core/run.py', 'udapi/block/read/conllu.py', 'udapi/block/read/ccv.py'],
     [('process_document loop, buffered orig bundles, finished flag', 'core/basereader.py'),
      ('next_filehandle', 'core/files.py'), ('number_of_readers / rounds', 'core/run.py')],
     observe=['sequence of documents passed to downstream blocks'])

prop('C05', 'Trees stay well-formed under every history of edits',
     "After any sequence of node creation, re-attachment, reordering, removal, flattening and node transfer between trees, "
     "each tree is a tree: every word reaches its technical root through parents without cycles, parent and children "
     "views agree, children and descendants are complete, duplicate-free and in word order, and ords are exactly 1..n in the "
     "order of the descendants. An edit that is refused with an exception (a cycle, a null, empty or foreign parent, a "
     "shift relative to an own descendant or before the root) leaves every involved tree exactly as it was.",
     ['histories'],
     'all finite sequences of the public tree-editing operations on any trees, including refused ones',
     'Tests perform about a dozen fixed edits on fixed trees and check form strings, not the whole structure.',
     ['udapi/core/node.py', 'udapi/core/root.py'],
     [('parent setter, create_child, remove, _shift_before_ord', 'core/node.py'),
      ('steal_nodes, flatten', 'core/root.py')],
     state=[('parent/children', 'dependency structure', 'core/node.py _parent/_children'),
            ('ord/descendants', 'word order', 'core/node.py _ord, core/root.py _descendants')],
     observe=['node.parent, node.children, node.descendants, node.ord, root.descendants after every operation'])

prop('C06', 'Each edit does exactly what it says and nothing else',
     "Shifting a node or its subtree before or after a node or a subtree yields the word order obtained by taking the moved words out, "
     "keeping their relative order, and inserting them at the requested place; removing a node deletes its subtree, or with "
     "re-hanging only itself with its children adopted by its parent; attaching changes only the attached word's parent. "
     "Every edit leaves the attributes, the parents and the relative order of all other words untouched.",
     ['histories', 'inputs'],
     'all trees (projective or not), all operand choices, all option combinations (without_children, skip_if_descendant, '
     'rehang/warn), in any sequence',
     'test_node checks 11 shifts on one tree by their resulting word string.',
     ['udapi/core/node.py', 'udapi/core/root.py'],
     [('_shift_before_ord three code paths (single node, gapless subtree, gapped subtree)', 'core/node.py'),
      ('remove two code paths', 'core/node.py')],
     observe=['full tree snapshot before/after each operation vs a list-based reference model'])

prop('C07', 'Tree queries agree with their definitions',
     "On every tree, children, siblings and descendants (with self-inclusion and preceding/following-only options), "
     "ancestor and word-order tests (also across sentences), previous/next word, leafness, non-projectivity of an edge and of a gap, "
     "the minimal common treelet of a set of nodes, and the attribute and pseudo-attribute lookups (parent, child, left, right neighbour, "
     "direction, edge length, depth, counts, split feature lists) return exactly what their definitions over parent links and "
     "word order give. Queries never change the tree.",
     ['inputs'],
     'all trees and all nodes, node pairs and node sets in them',
     'Tests evaluate some queries on one 6-word tree and a few corpus sentences.',
     ['udapi/core/node.py', 'udapi/core/root.py'],
     [('ListOfNodes, descendants, is_descendant_of, is_nonprojective, is_nonprojective_gap, find_minimal_common_treelet, '
       'get_attrs', 'core/node.py')],
     observe=['return values vs brute-force definitions'])

prop('C08', 'FEATS, MISC and relation labels: string and structured views agree',
     "After any sequence of reads and writes of a FEATS or MISC value through its string and its dictionary interface, both "
     "interfaces describe the same mapping: the string lists the present keys sorted case-insensitively as key=value (or bare key) or "
     "is an underscore when empty, absent keys read as the empty string, and assigning None or the empty string deletes; a string "
     "assigned as a whole is kept verbatim until the next change, and copies are independent. The universal and subtype parts of a "
     "relation always recombine to the whole relation, and setting one part leaves the other unchanged.",
     ['histories', 'inputs'],
     'all interleavings of string/dict reads and writes, with any keys and values free of the separators, on nodes, MWTs and free-standing values',
     'Tests exercise four feature assignments.',
     ['udapi/core/dualdict.py', 'udapi/core/feats.py', 'udapi/core/node.py', 'udapi/core/mwt.py'],
     [('lazy (de)serialization with _string/_dict', 'core/dualdict.py'),
      ('udeprel/sdeprel properties', 'core/node.py')],
     observe=['str(), mapping protocol, node.udeprel/sdeprel/deprel'])

prop('C09', 'Enhanced dependencies keep pointing at the same nodes',
     "The string and the list view of a node's enhanced dependencies always describe the same set of (head, relation) pairs: "
     "parsing the string gives heads whose current index it names (words, the root, or empty nodes with any decimal index), and "
     "the string of a list names each head's current index. Every enhanced edge keeps its head "
     "and relation while nodes are reordered, created, removed, re-attached or moved to another tree, whether or not it was accessed as a list before, so that the stored file describes the same "
     "graph over the surviving nodes; edges whose head was removed are dropped, edges to nodes left in another tree lead to the technical root.",
     ['histories', 'inputs'],
     'all enhanced graphs incl. empty nodes and relations with several colons, times edit histories before and after the first access',
     'test_enhdeps checks a handful of nodes of one file and one edit.',
     ['udapi/core/node.py', 'udapi/block/read/conllu.py', 'udapi/block/write/conllu.py'],
     [('raw_deps/deps lazy (de)serialization', 'core/node.py')],
     observe=['node.deps, node.raw_deps, stored DEPS column'])

prop('C10', 'Empty nodes keep unique, ordered indices next to the right words',
     "Creating an empty child places it directly after (or before) its word and after earlier empty nodes there, with the "
     "next free decimal index (also beyond nine per position); removing one closes the gap among the following ones at that "
     "position and drops exactly the enhanced edges that led to it. After any history of creating and removing empty nodes, removing words and moving "
     "single words, empty nodes have unique indices, sorted consistently with the list of all nodes, and keep their relative order.",
     ['histories'],
     'all interleavings of empty-node creation/removal with word removal and single-word moves',
     'One test creates three empty nodes and removes two words.',
     ['udapi/core/node.py', 'udapi/core/root.py'],
     [('create_empty_child, EmptyNode.ord, EmptyNode.remove, renumbering in Node.remove and _shift_before_ord', 'core/node.py'),
      ('descendants_and_empty', 'core/root.py')],
     observe=['root.empty_nodes, root.descendants_and_empty, ord values, stored ID column'])

prop('C11', 'Multi-word tokens stay disjoint, ordered and linked to their words',
     "Every word belongs to at most one multi-word token, membership is visible identically from the word and from the token, and "
     "creating a token over words of existing ones dissolves those first; its printed range spans its first to its last word. The surface token sequence of a tree is its words in "
     "order with each multi-word token standing in place of its words, and creating or dissolving multi-word tokens (also by the dedicated blocks) never changes the words' forms, "
     "order or dependencies, while a no-space mark of the last word carries over to the new token. Words removed from "
     "the tree leave their token, which dissolves when fewer than two of its words remain. The blocks detecting contractions (ud.de.AddMwt and its sisters for other languages) split "
     "them into the words they stand for, with their lemmas and tags and with the attachment and relations the blocks' rules prescribe, and leave look-alikes of another word class alone.",
     ['histories', 'inputs'],
     'all sequences of MWT creation and removal over any groups of neighbouring words, and read/write of any MWT layout',
     'Tests check one fixed MWT sentence.',
     ['udapi/core/mwt.py', 'udapi/core/root.py', 'udapi/block/ud/removemwt.py', 'udapi/block/ud/addmwt.py',
      'udapi/block/ud/jointoken.py', 'udapi/block/read/conllu.py'],
     [('create_multiword_token, token_descendants', 'core/root.py'), ('MWT.remove, ord_range', 'core/mwt.py')],
     observe=['node.multiword_token, root.multiword_tokens, root.token_descendants, stored ID ranges'])

prop('C12', 'Sentence text and SpaceAfter marks agree',
     "The computed text of a tree is the concatenation of its surface tokens' forms with one space after each token unless it is "
     "marked as not followed by a space, without trailing space; on a subtree only the words of that subtree take part. Setting the spacing marks from a text made of the same "
     "token forms and arbitrary single spaces makes the computed text equal that text, complying with a given text makes the "
     "stored and the computed text equal, changing only spacing marks when the token forms already spell the text, and the stored text is returned in preference to the computed one.",
     ['inputs'],
     'all token/MWT/spacing layouts and all texts formed from the tokens with any spacing',
     'Tests compute text for a couple of corpus sentences.',
     ['udapi/core/node.py', 'udapi/core/root.py', 'udapi/block/ud/setspaceafterfromtext.py', 'udapi/block/ud/complywithtext.py',
      'udapi/block/write/sentences.py'],
     [('compute_text', 'core/node.py'), ('get_sentence', 'core/root.py')],
     observe=['compute_text(), get_sentence(), misc SpaceAfter'])

prop('C13', 'Coreference annotation survives load and store',
     "Loading the coreference annotation of any well-formed document yields exactly the entities, mention spans (nested, crossing, "
     "discontinuous, over empty nodes), heads, types, extra fields, bridging links and split antecedents its brackets describe. "
     "Storing it yields annotation that describes the same objects again, in which every mention is opened and closed exactly once and "
     "brackets at a node are properly ordered, all other MISC content and the trees being left alone; storing is a fixed point.",
     ['inputs'],
     'all sets of entities and mentions over any documents, including same-span, nested, crossing, single-node and discontinuous mentions',
     'test_coref checks counts and one round trip on one document.',
     ['udapi/core/coref.py', 'udapi/core/document.py', 'udapi/block/write/conllu.py', 'udapi/block/read/conllu.py'],
     [('load_coref_from_misc / store_coref_to_misc', 'core/coref.py')],
     observe=['doc.coref_entities, doc.coref_mentions, MISC Entity/Bridge/SplitAnte'])

prop('C14', 'Coreference objects stay consistent under editing',
     "After any sequence of creating entities and mentions, changing a mention's words, span, head or entity, and adding bridging "
     "or split antecedents, words and mentions see each other consistently in both directions, every mention is listed exactly once in "
     "its entity, mention words are sorted and include the head, spans render and parse back to the same "
     "words, entity IDs are unique, mentions sort by position with longer mentions first, and a mention's extra fields read the same as a "
     "mapping and as a string. Refused operations (a head outside the words, a "
     "taken or invalid ID, a self-reference) change nothing, and the same consistency holds after the coreference-repair blocks (merging, "
     "re-indexing, head moving, span guessing, deleting, link conversion).",
     ['histories'],
     'all interleavings of the coreference editing operations over any document',
     'test_coref performs one short fixed edit sequence.',
     ['udapi/core/coref.py', 'udapi/core/node.py', 'udapi/core/document.py'],
     [('CorefMention.words/span/head/entity setters, CorefEntity.create_mention, span_to_nodes, nodes_to_span', 'core/coref.py')],
     observe=['node.coref_mentions, mention.words, entity.mentions, doc.coref_entities'])

prop('C15', 'A scenario runs its blocks in the promised order on every document',
     "A scenario applies its blocks to each document in the order given, feeds documents in reader order until all readers are "
     "exhausted, and calls each block's start and end hooks exactly once, before the first and after the last document; within a block each "
     "bundle, tree and node of a selected zone is visited exactly once, in order, even while the block edits the tree, and other zones are untouched. Block names and "
     "parameters resolve to the documented classes and values whatever characters the values contain, and a missing reader is supplied. Failures of a block, unknown "
     "blocks and wrong parameters end the scenario with an exception.",
     ['inputs', 'configurations', 'programs'],
     'all scenarios of readers, probe blocks and writers; all parameter strings; all zone selections',
     'No test runs a multi-block scenario or a zone selection through the scenario runner.',
     ['udapi/core/run.py', 'udapi/core/block.py', 'bin/udapy'],
     [('Run.execute, _parse_block_name, _import_blocks', 'core/run.py'),
      ('Block.process_document/bundle/tree, _should_process_tree', 'core/block.py')],
     observe=['event log of probe blocks (start/document/bundle/tree/node/end)'])

prop('C16', 'Writer output goes where it was asked to, completely',
     "Whatever the output options (standard output, one file per document by list, by document name, or the input file in place), each "
     "document's serialization lands in exactly the intended destination, complete and in document order, and nothing is written "
     "elsewhere; standard output is usable again after every writer, also when several writers run in one scenario. The bytes written for a document do not depend on "
     "which destination was chosen.",
     ['configurations', 'histories'],
     'all combinations of writers, destinations and document sequences',
     'Tests redirect standard output of single writers.',
     ['udapi/core/basewriter.py', 'udapi/core/files.py', 'udapi/core/document.py'],
     [('before_process_document/after_process_document/process_end, next_filename', 'core/basewriter.py')],
     observe=['files created in a scratch directory, sys.stdout'])

prop('C17', 'Sentence IDs, zones and addresses are consistent',
     "Within a document, a tree's sentence ID is its bundle's ID plus, for a named zone, a slash and the zone, and this stays true after "
     "changing the sentence ID, the bundle ID or the zone through any of them; node addresses are the sentence ID, a hash and the ord. "
     "Zones are unique within a bundle, invalid or duplicate zones are refused without changing anything, new bundles get fresh IDs, "
     "and bundles created, removed or merged remain in document order with increasing numbers so that cross-sentence word order is right.",
     ['histories', 'inputs'],
     'all histories of bundle/tree creation, renaming, zone changes and removals',
     'Tests create one bundle and read addresses of two nodes.',
     ['udapi/core/bundle.py', 'udapi/core/root.py', 'udapi/core/document.py', 'udapi/core/node.py'],
     [('bundle_id/sent_id/zone setters, check_zone, create_bundle, Bundle.remove', 'core/bundle.py, core/root.py')],
     observe=['sent_id, bundle_id, zone, address(), bundle.number, precedes()'])

prop('C18', 'Projectivization yields projective trees and is undone by its inverse marks',
     "Projectivizing any tree yields a tree with no non-projective edge over the same words in the same order, re-attaching words only upwards to their original ancestors and "
     "leaving projective trees unchanged; every re-attached word, and only those, is marked with its original relation's head type; a word whose edge alone is non-projective is lifted to its lowest ancestor that makes it projective. "
     "Deprojectivizing re-attaches only marked words, to the nearest word the mark describes, removes marks kept in relation labels and leaves trees without marks unchanged.",
     ['inputs'],
     'all trees over all word orders',
     'No test runs these blocks.',
     ['udapi/block/transform/proj.py', 'udapi/block/transform/deproj.py', 'udapi/core/node.py'],
     [('lift until projective', 'transform/proj.py'), ('head search', 'transform/deproj.py')],
     observe=['trees before and after'])

prop('C19', 'Splitting, joining and moving sentences conserves words and structure',
     "Moving words to another tree, splitting a sentence at a mark, joining two sentences and merging bundles keep every word exactly once, with "
     "its attributes and multi-word token, in the same overall order, and keep every dependency whose two ends stay in the same tree; words whose "
     "head is elsewhere hang on the technical root. Empty nodes move with the word they follow and enhanced dependencies within a tree are kept. All trees involved are well-formed afterwards and the concatenated surface text is unchanged.",
     ['inputs', 'histories'],
     'all trees with any MWTs, all split points / selected word sets, all sequences of such operations',
     'No test runs these operations.',
     ['udapi/core/root.py', 'udapi/block/util/splitsentence.py', 'udapi/block/util/joinsentence.py', 'udapi/block/segment/merge.py', 'udapi/block/util/resegmentgold.py'],
     [('steal_nodes', 'core/root.py')],
     observe=['trees before and after'])

prop('C20', 'Evaluation scores equal their definitions',
     "For any gold and predicted zones, the parsing evaluation prints the attachment scores counted word by word, the F1 evaluation "
     "prints precision, recall and F1 of an optimal in-order token matching, and the CoNLL shared-task evaluations print the official precision, recall, F1 and alignment accuracy per metric. "
     "Comparing a treebank with itself scores 100 %, and swapping gold and prediction swaps precision and recall.",
     ['inputs'],
     'all pairs of gold/predicted trees, including different tokenization and attributes',
     'No test runs the evaluation blocks.',
     ['udapi/block/eval/parsing.py', 'udapi/block/eval/f1.py', 'udapi/block/eval/conll17.py', 'udapi/block/eval/conll18.py'],
     [('find_lcs', 'eval/f1.py'), ('word alignment and metric counts', 'eval/conll17.py, eval/conll18.py')],
     observe=['printed scores'])

prop('C21', 'Selecting, deleting, marking, splitting and counting treat exactly what is named',
     "Filtering with keep/delete conditions on trees, subtrees or nodes, in any combination, keeps exactly the bundles, trees or words for which the conditions hold (or fail), with everything else about them unchanged; "
     "marking and comparing documents marks exactly the words for which the condition holds or which differ in the chosen attributes; "
     "splitting a document into N parts or chunks of N keeps every bundle once, in order, in the given number of parts or sizes; ID "
     "normalization only renames sentences to its documented pattern and sorts attributes. Removing multi-word tokens, empty nodes or MISC attributes and flattening trees remove exactly those, and leave every word "
     "reachable that was reachable before. "
     "Numbers of words, tokens, sentences, documents, empty nodes, matching nodes and attribute values reported equal the actual ones.",
     ['inputs', 'configurations'],
     'all documents and all condition/option combinations',
     'No test runs these blocks.',
     ['udapi/block/util/filter.py', 'udapi/block/util/split.py', 'udapi/block/util/normalize.py', 'udapi/block/util/wc.py',
      'udapi/block/util/mark.py', 'udapi/block/util/markdiff.py', 'udapi/block/util/see.py', 'udapi/block/util/eval.py', 'udapi/block/transform/flatten.py',
      'udapi/block/ud/removemwt.py', 'udapi/block/corefud/delete.py', 'udapi/block/corefud/removemisc.py'],
     [('process_tree', 'util/filter.py'), ('process_document', 'util/split.py'), ('_deps_ignore_nodes', 'corefud/delete.py')],
     observe=['documents before and after, printed counts'])

prop('C22', 'Tokenization, segmentation and plain-text I/O conserve the text',
     "Reading plain text gives one tree per line (or per paragraph of wrapped lines) of all input files in order, holding that line as its text, with document boundaries only at empty lines and file starts; "
     "adding sentences or raw text to already loaded trees gives the n-th line to the n-th sentence and spacing marks, paragraphs and texts which agree with the raw text. "
     "Segmenting keeps the text and order and splits exactly at sentence-final punctuation followed by an uppercase letter, except after initials and listed abbreviations; "
     "tokenizing yields word forms whose concatenation with the spacing marks is the "
     "text up to whitespace (with keep_spaces exactly the text), splitting at every whitespace and, for the default tokenizer, at every non-word character. "
     "Splitting tokens at underscores or at spaces of the text conserves their characters and all other words. "
     "Writing sentences prints each tree's text on its own line, so that it can be read back.",
     ['inputs', 'configurations'],
     'all Unicode texts and option combinations',
     'No test runs these blocks.',
     ['udapi/block/read/sentences.py', 'udapi/block/read/text.py', 'udapi/block/read/addsentences.py', 'udapi/block/read/addtext.py', 'udapi/block/tokenize/onwhitespace.py',
      'udapi/block/tokenize/simple.py', 'udapi/block/segment/simple.py', 'udapi/block/write/sentences.py', 'udapi/block/ud/goeswithfromtext.py', 'udapi/block/ud/splitunderscoretokens.py'],
     [('process_tree', 'tokenize/onwhitespace.py'), ('is_boundary, process_document', 'segment/simple.py'), ('read_tree', 'read/sentences.py')],
     observe=['trees, text, printed lines'])

prop('C23', 'Text-mode tree drawings encode exactly the tree',
     "The drawing of any tree (or subtree) printed by the text-mode tree writer has one line per printed node in word order carrying its requested attributes, and its box-drawing "
     "strokes connect each node to its parent and to nothing else, so that the dependency structure, including "
     "non-projective edges, can be read back uniquely from it. This holds for every indent, minimized-crossing and attribute option, and colouring or HTML output only adds markup.",
     ['inputs', 'configurations'],
     'all trees over all word orders and all option combinations',
     'Tests compare two fixed drawings of one tree.',
     ['udapi/block/write/textmodetrees.py', 'udapi/block/write/textmodetreeshtml.py'],
     [('process_tree drawing loop', 'write/textmodetrees.py')],
     observe=['printed drawing, decoded by an independent tracer'])

prop('C24', 'Treebank-repair blocks keep the words and a valid tree',
     "The treebank-repair blocks (punctuation attachment and punctuation children, right-headed relations, chains, function-word leaves, roots, multiple subjects, advmod by UPOS, pseudo-copulas, "
     "compound names, punctuation features, SpaceAfter, translations, the UD v1 to v2 conversion) change only what they document: word forms, lemmas, word order, tokens and "
     "all other annotation are untouched, every tree (also an empty one) stays well-formed, and words not concerned keep their heads and relations. After each repair its defect is gone, with the dependents moved to "
     "the documented ancestor, and applying it a second time changes nothing (FixPunct is a heuristic and may move marks again). FixPunct always leaves exactly one root; in projective trees with leaf punctuation and cleanly paired marks it "
     "leaves all punctuation projective, other words unmoved, paired marks around a subtree on its head, and a lone mark on its highest projective attachment on the lower side unless it is already attached there.",
    ['inputs'],
     'all trees, deprel and tag assignments',
     'No test runs these blocks.',
     ['udapi/block/ud/fixpunct.py', 'udapi/block/ud/fixrightheaded.py', 'udapi/block/ud/fixleaf.py', 'udapi/block/ud/fixchain.py',
      'udapi/block/ud/setspaceafter.py'],
     [('process_tree/process_node', 'the listed blocks')],
     observe=['trees before and after'])

prop('C25', 'The command line runs the same scenario as the API and reports failure',
     "Running the command-line tool on any input produces on standard output exactly the bytes the same blocks produce through the "
     "Python API, with exit status 0 on success and non-zero when a block cannot be resolved, its parameters are wrong, a block raises or asks for such a status with sys.exit; what was printed before a failure is not lost. Its shortcut options (save, text-tree printing, colour, HTML, marking) "
     "are equivalent to the blocks they stand for, and the garbage-collector setting does not influence results.",
     ['inputs', 'configurations', 'programs'],
     'all scenarios and shortcut options on all inputs',
     'Two shell tests run one fixed round-trip scenario.',
     ['bin/udapy', 'udapi/core/run.py'],
     [('argument parsing and shortcuts', 'bin/udapy')],
     observe=['exit status, stdout and files of the process'])

prop('C26', 'Other column formats carry the attributes they claim',
     "Reading a CoNLL-like file with any declared column order, any number of ignored columns and any separator gives the trees that the same columns "
     "give in CoNLL-U order, including multiword tokens and empty nodes; ignored columns have no effect. CoNLL-U Plus files follow their own "
     "global.columns header, with non-standard columns kept in MISC. Writing trees as VISL CG and reading them back restores token forms, multiword tokens, "
     "lemmas, tags, features and dependencies whatever characters they contain. The Stanford-dependency writer states every word and edge unambiguously, and "
     "a CoNLL-2012 file is read with exactly the mentions and entities it marks.",
     ['inputs', 'configurations'],
     'all trees and all column lists / separators',
     'No test runs these readers and writers.',
     ['udapi/block/read/conll.py', 'udapi/block/read/conllup.py', 'udapi/block/read/conll2012.py', 'udapi/block/read/vislcg.py', 'udapi/block/write/vislcg.py', 'udapi/block/write/sdparse.py'],
     [('attributes and separator parameters', 'read/conll.py'), ('global.columns', 'read/conllup.py'), ('escapes', 'read/vislcg.py, write/vislcg.py')],
     observe=['written text and re-read trees'])

prop('C27', 'Exports to XML, HTML, JSON and LaTeX are well-formed and say what the trees say',
     "Whatever characters forms, lemmas, tags, relations, features, texts and identifiers hold, the Treex export is well-formed XML with unique identifiers whose "
     "nesting, order and values are those of the trees; the HTML exports are well-formed HTML whose embedded JSON parses and describes exactly the words, "
     "attributes, parents and siblings; the LaTeX export is balanced, has no unescaped special character and draws exactly the basic (and enhanced) edges; and "
     "the coreference viewer shows every word once, inside exactly the mentions it belongs to (nested, crossing or discontinuous), with balanced tags, unique "
     "identifiers, heads, entity overview and one file for each further document.",
     ['inputs', 'configurations'],
     'all documents and writer parameters',
     'Tests only run write.Html on one file without looking at the result.',
     ['udapi/block/write/treex.py', 'udapi/block/write/html.py', 'udapi/block/write/sentenceshtml.py', 'udapi/block/write/tikz.py', 'udapi/block/write/corefhtml.py'],
     [('escaping', 'write/html.py _esc, write/tikz.py _tex_escape, write/treex.py'), ('subspans and crossing', 'write/corefhtml.py process_tree')],
     observe=['written files, read by an XML, HTML, JSON or TeX parser'])

prop('C28', 'Coreference statistics, searches and old-style files tell what is annotated',
     "Every number printed by corefud.Stats (counts, averages, distributions, per document or in total, plain or as a LaTeX table whose rows fit the declared columns), "
     "corefud.CountGaps (runs of sentences and paragraphs without any mention, on words or empty nodes) and corefud.MiscStats(Tex) is the number in the loaded documents; "
     "corefud.MarkPairs, MarkCrossing, MarkInterleaved, MarkNested and MarkSameSubSpan report and mark exactly the pairs of mentions of one sentence which satisfy the "
     "requested conditions (whatever the combination of include/only/exclude); corefud.PrintEntities and PrintMentions list exactly the selected mentions with their "
     "forms, heads, addresses and totals and leave MISC as it was (print_should=0); corefud.SingleParent leaves each empty node the links to one highest non-empty parent; and "
     "write.OldCorefUD followed by read.OldCorefUD keeps every entity, mention (span and head), type, bridging, split antecedent, extra attribute (without spaces) and every other "
     "column, where cluster IDs with hyphens are renamed without ever merging two clusters.",
     ['inputs', 'configurations'],
     'all annotated documents and block parameters',
     'No test runs these blocks except for write.OldCorefUD on one file without looking at the result.',
     ['udapi/block/corefud/stats.py', 'udapi/block/corefud/countgaps.py', 'udapi/block/corefud/markpairs.py', 'udapi/block/corefud/markcrossing.py',
      'udapi/block/corefud/markinterleaved.py', 'udapi/block/corefud/marknested.py', 'udapi/block/corefud/marksamesubspan.py', 'udapi/block/corefud/printentities.py',
      'udapi/block/corefud/printmentions.py', 'udapi/block/corefud/singleparent.py', 'udapi/block/corefud/miscstats.py', 'udapi/block/corefud/miscstatstex.py',
      'udapi/block/read/oldcorefud.py', 'udapi/block/write/oldcorefud.py'],
     [('counters', 'corefud/stats.py process_document'), ('pair conditions', 'corefud/markpairs.py process_tree'), ('indices of clusters sharing a head', 'write/oldcorefud.py')],
     observe=['printed and logged text, MISC marks, stored and re-read annotation'])

prop('C29', 'Converting, repairing and marking blocks are local, stable and stay valid',
     "Every block of ud, ud.<language>, msf, mwe, transform and demo which converts, repairs or marks a treebank finishes on every valid UD treebank (a repair which would make a cycle may refuse with CycleError) and leaves well-formed trees "
     "whose stored form is read back identically; it changes only the kind of annotation it is meant for (markers of bugs only MISC Bug, morphosyntactic annotators only MISC MSF and Phrase, "
     "relation fixers only heads and relations, feature converters only FEATS, ...); blocks which split or join words or detect multiword tokens keep the text of the sentence; the "
     "result is the same on every run, the same when the treebank is processed sentence by sentence or by a block object used before, and zones= leaves the trees of other zones as they were.",
     ['inputs', 'histories', 'configurations'],
     'all treebanks, block parameters and orders of processing',
     'Unit tests run none of these blocks but two or three.',
     ['udapi/block/ud', 'udapi/block/msf', 'udapi/block/mwe', 'udapi/block/transform', 'udapi/block/demo', 'udapi/core/block.py', 'udapi/block/ud/addmwt.py'],
     [('process_node/process_tree and state kept in self', 'udapi/block/ud/*.py, udapi/block/msf/*.py'), ('multiword_analysis', 'udapi/block/ud/addmwt.py and its language subclasses')],
     observe=['all columns before and after, stored and re-read trees, text, exceptions'])

prop('C30', 'Markers, reports and annotators hit exactly what satisfies their condition',
     "ud.MarkBugs marks in MISC Bug, on every word and for every one of its tests, exactly the words which break the rule named by the test (subject to tests=, skip= and max_cop_lemmas=, keeping "
     "earlier bugs), and its overview and document.meta count them; ud.MarkFeatsBugs (with any rules of a language) reports exactly the missing, forbidden and ill-valued features; "
     "util.MarkMwtBugsAtNodes copies bugs to all words of the token; ud.PrintFixed prints exactly the annotated fixed expressions and the unannotated occurrences of known ones; util.FindBug "
     "prints exactly the first (or all) bundles on which the inspected block fails and leaves the document as it was; mwe.Normalize and mwe.ToSubDeprels keep every multiword expression with "
     "its type; msf.Init, NumPhrase, Case, CreateAbstract and RemoveFunc set exactly the MSF values and abstract subjects their documentation derives from features, markers, quantifiers "
     "and phrases; demo.Complexity counts exactly the phrases and clauses it names. Nothing else changes.",
     ['inputs', 'configurations'],
     'all treebanks and block parameters',
     'No unit test looks at any of these results.',
     ['udapi/block/ud/markbugs.py', 'udapi/block/ud/markfeatsbugs.py', 'udapi/block/util/markmwtbugsatnodes.py', 'udapi/block/ud/printfixed.py', 'udapi/block/util/findbug.py', 'udapi/block/mwe/normalize.py',
      'udapi/block/mwe/tosubdeprels.py', 'udapi/block/msf/init.py', 'udapi/block/msf/numphrase.py', 'udapi/block/msf/case.py', 'udapi/block/msf/createabstract.py', 'udapi/block/msf/removefunc.py',
      'udapi/block/demo/complexity.py'],
     [('the tests', 'ud/markbugs.py process_node, after_process_document'), ('adposmap', 'msf/case.py'), ('is_nonprojective, is_nonprojective_gap', 'core/node.py')],
     observe=['MISC, relations and empty nodes before and after, printed and logged text'])

prop('C31', 'Repairs and annotators of single languages do exactly their documented rule',
     "The blocks which repair, complete or annotate one language or treebank do exactly what their documentation says, for every tree and every word, and change nothing else (all columns, tokens and the text are compared): "
     "spurious auxiliaries become heads and take over the parent, the relation and the listed kinds of children (ud.kk/ud.ug.FixSpuriousAux, ud.hi.FixAux, ud.es.FixTenerQue with its enhanced relations); ud.ru.FixToEst; remains of UDv1 (ud.he/ud.ro.FixNeg, ud.ga/ud.gl.To2); "
     "ud.Basic2Enhanced fills exactly the missing DEPS; missing lemmas and wrong verbal features are filled in (ud.Lemmatize, ud.zh.Lemmatize with rewrite=empty/form/all, ud.yue.Lemmatize, ud.es.FixVerbFeats); relative clauses (ud.es/ud.ca.ElQue, fixed or printed) and double subjects (ud.da.FixMultiSubject); "
     "tokens are split, removed, joined or given forms (ud.es.FixExclamation, ud.bg.RemoveDotAfterAbbr, ud.pt.AddHyphenMwt, ud.mr.AddFormsInMwt); SpaceAfter=No is set between exactly the listed pairs of words and the text comment follows it (ud.SetSpaceAfter and its English and Romanian versions with their parameters); "
     "Slavic verb forms get their Phrase* attributes and the list of their words (msf.slavic.Present, Past, Future, Conditional, Converb, Imperative, Infinitive, Preprocessor); ud.AddPunctType types exactly the listed marks; ud.FixPseudoCop promotes the given lemmas; ud.de.FixHDT and ud.de.FixGSD split contractions and join ordinal numerals; corefud.ConcatMentionMisc and corefud.FixToValidate; ud.Google2ud translates tags, features, relations, prepositions and copulas by its tables and rules and then equals the blocks it names run in turn (ud.Convert1to2, AddMwt, JoinAsMwt, FixRightheaded, FixChain, FixPunct as its language asks), with sent_id, text and translation from the comments; zellig_harris.EnhanceDeps adds exactly the shared parents and dependents of conjuncts. A repair which would make a cycle refuses with CycleError.",
     ['inputs', 'configurations'],
     'all trees, labels and features which match or nearly match a rule, and block parameters',
     'Unit tests run none of these blocks.',
     ['udapi/block/ud/' + x for x in ('kk/fixspuriousaux.py', 'ug/fixspuriousaux.py', 'hi/fixaux.py', 'es/fixtenerque.py', 'es/elque.py', 'ca/elque.py', 'es/fixverbfeats.py', 'es/fixexclamation.py', 'ru/fixtoest.py', 'he/fixneg.py', 'ro/fixneg.py',
      'ga/to2.py', 'gl/to2.py', 'basic2enhanced.py', 'lemmatize.py', 'zh/lemmatize.py', 'yue/lemmatize.py', 'da/fixmultisubject.py', 'bg/removedotafterabbr.py', 'pt/addhyphenmwt.py', 'mr/addformsinmwt.py', 'setspaceafter.py',
      'en/setspaceafter.py', 'ro/setspaceafter.py', 'addpuncttype.py', 'fixpseudocop.py', 'google2ud.py', 'de/fixhdt.py', 'de/fixgsd.py')] + ['udapi/block/msf/slavic', 'udapi/block/corefud/concatmentionmisc.py', 'udapi/block/corefud/fixtovalidate.py', 'udapi/block/msf/phrase.py', 'udapi/block/zellig_harris/enhancedeps.py'],
     [('process_node, process_tree', 'udapi/block/ud/<language>/*.py, udapi/block/msf/slavic/*.py'), ('write_node_info, get_polarity, get_voice', 'udapi/block/msf/phrase.py'), ('mark_no_space', 'udapi/block/ud/setspaceafter.py')],
     observe=['all columns, multi-word tokens and the text before and after, printed lines'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
