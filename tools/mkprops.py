import json
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=hook
    return d
N='lumberjack/src/io/negra.rs';P='lumberjack/src/io/ptb.rs';C='lumberjack/src/io/conllx.rs';E='lumberjack/src/io/encode.rs'
T='lumberjack/src/tree.rs';M='lumberjack/src/tree_modification.rs';S='lumberjack/src/span.rs';ND='lumberjack/src/node.rs';U='lumberjack-utils/src/bin/lumberjack-conversion.rs'
L=[]
L.append(p('S01','Trees read do not depend on how the bytes arrive',
 'For every well-formed NEGRA export, bracketed (simple, PTB, TueBa; one tree per line or multi-line) or tag-encoded CoNLL-X stream, the reader yields exactly the trees the document describes, in document order, and then ends. The result is the same for every way the bytes are delivered: any chunk sizes, short reads and interrupted (EINTR) reads, buffered or not.',
 ['schedules','inputs','fault_sequences'],'all well-formed documents in the supported formats x all divisions of the byte stream into reads x all placements of interrupted reads',
 'The tests read a handful of fixed files through one BufReader with the default capacity; no test ever delivers a short, byte-wise or interrupted read, nor checks a tree with unusual layout (CRLF, indentation, comments, secondary edges, very long fields).',
 [N,P,C,'lumberjack/src/io/ptb.pest'],[('line-based reading and per-sentence builder',N),('line-based reading, parenthesis counting, grammar',P),('feature-column decoding',C)],
 obs=['NegraReader as Iterator','PTBReader as Iterator','TryFromConllx over conllx::io::Reader']))
L.append(p('S02','A failing read is reported and costs only the tree it hits',
 'When the stream under a NEGRA or bracketed reader returns a read error, the reader reports an error item at that point, after yielding unchanged every tree whose lines were completely delivered (line end included) before it: an error never shows up as a normal end of input or as a different tree. If the stream works again afterwards, every tree whose text lies completely after the failure is still yielded unchanged and in order (in multi-line bracketed streams fragments of the interrupted tree may be yielded in between).',
 ['fault_sequences','schedules','inputs'],'all documents x all sequences of read errors (kind, byte offset, repetition) x all delivery schedules',
 'No test injects a read error.',[N,P],[('error arm of the line loop; per-call sentence state',N),('error arm of both line loops; buffer and depth are per call',P)],
 obs=['NegraReader::next','PTBReader::next']))
L.append(p('S03','A truncated stream yields the complete trees, then an error',
 'If a NEGRA or bracketed stream ends early at any byte, the reader yields exactly the trees that are complete in the remaining prefix, unchanged and in order, and reports an error if the cut fell inside a tree. It never drops the cut tree silently, never yields a shortened tree, and then ends.',
 ['crash_points','inputs'],'all documents x every byte offset at which the stream can end x delivery schedules',
 'Tests hold one sentence with a missing footer (and accept silent end of input as well as an error) and one bracket string with a missing parenthesis; they do not cut documents at other positions or in multi-line mode.',
 [N,P],[('end of input inside a sentence',N),('end of input inside a multi-line tree; unbalanced parentheses rejected by the grammar',P)],obs=['NegraReader::next','PTBReader::next']))
L.append(p('S04','Damaged streams: no panic, no hang, no malformed tree',
 'Whatever damage a stored NEGRA or bracketed stream has suffered (flipped bytes, lost, duplicated, swapped or foreign lines, overwritten blocks), reading it terminates without panicking after a number of items bounded by the number of lines, and every item is either an error or a structurally well-formed tree. A NEGRA sentence whose own lines and whose preceding sentence are undamaged, and an undamaged line of a one-tree-per-line stream, are yielded unchanged and in order. Nothing disappears without a trace: every sentence whose opening or closing line is still there, and every line of a one-tree-per-line stream that is neither blank nor a comment, is accounted for by a tree or an error item.',
 ['fault_sequences','inputs'],'all documents x all sequences of storage-damage events',
 'Tests feed a few hand-written malformed sentences and only require that unwrap fails, so a panic, an infinite loop on the returned tree or a tree with a cycle would pass.',
 [N,P],[('structural validation when a sentence is closed',N),('resynchronisation on the next #BOS',N),('grammar and depth counting',P)],obs=['NegraReader::next','PTBReader::next','Tree accessors']))
L.append(p('S05','A tree is yielded as soon as its last line has arrived',
 'A NEGRA or bracketed reader yields a tree once the line that completes it has been delivered, without asking the stream for any further bytes, so a peer that sends one tree and waits for an answer is never deadlocked. After the stream has ended, at any byte, the reader reports the end (or an error) within a bounded number of further reads, and a consumer that stops early has caused no reads beyond the tree it received, so that another reader can carry on with the same buffered stream behind it.',
 ['schedules','inputs'],'all documents x all delivery schedules in which the stream stalls or changes its reader after the completing line, or ends',
 'Tests always read from complete in-memory or on-disk input, where reading ahead is invisible.',
 [N,P],[('return on the completing line',N),('return on depth zero / on each line',P)],obs=['number and offset of read calls on the stream at the moment next() returns']))
L.append(p('S06','A damaged stream yields only trees that its text describes',
 'Whatever damage a stored NEGRA or bracketed stream has suffered, every tree that a reader yields is the tree that consecutive whole lines of the damaged text describe, and the trees come in the order of these lines: a tree never mixes sentences (the numbers of #BOS and #EOS of a NEGRA sentence agree), and nothing is guessed, dropped or repaired on the way. In a one-tree-per-line stream every line that is neither a comment nor a well-formed tree gives an error and every well-formed one its tree; if no error is reported for a multi-line bracketed stream, every line that is neither blank nor a comment belongs to one of its trees.',
 ['fault_sequences','inputs'],'all documents x all sequences of storage-damage events',
 'Tests only check that a few hand-written malformed sentences are refused; no test compares a tree that was accepted from damaged text with what the text says.',
 [N,P,'lumberjack/src/io/ptb.pest'],[('numbers of opening and closing line compared; parents resolved within the sentence',N),('whole text of a tree must match the grammar; surplus brackets refused',P)],obs=['NegraReader::next','PTBReader::next','Tree accessors']))
L.append(p('W01','write_tree never loses bytes silently',
 'For NEGRA, bracketed and CoNLL-X output, a successful write_tree means that the complete text of that tree has reached the sink, byte for byte the same whatever short or interrupted writes happened on the way. If the sink fails hard or accepts no bytes, write_tree returns an error, and the sink then holds an exact prefix of the fault-free output; a tree the format cannot express (its shape, a string with a separator of the format, a secondary edge without a line) is refused with an error and nothing is written.',
 ['fault_sequences','schedules','inputs'],'all sequences of trees x all short-write patterns x all sequences of sink errors',
 'Tests only write into a Vec, which accepts every byte and never fails.',
 [N,P,C],[('NegraWriter write_tree',N),('PTBWriter write_tree',P),('WriteTree for conllx Writer',C)],obs=['result of WriteTree::write_tree','bytes held by the sink']))
L.append(p('W02','Acknowledged NEGRA sentences survive a crash unchanged',
 'Every tree whose write in NEGRA export format was acknowledged and made durable is read back after a crash at any byte of the later output exactly as written: words, lemmas, tags, morphology, node labels and annotations, edge labels, discontinuous structure, secondary edges, sentence id and metadata (the root comes back as the virtual root). The tree being written at the crash is either absent, complete, or reported as an error; trees appended by a restarted writer after a repaired tail are read back too, and trees without a sentence id are numbered 0, 1, 2 and so on by their writer.',
 ['crash_points','inputs','histories'],'all sequences of trees expressible in the format x all crash points and torn tails x restart and append histories',
 'Tests round-trip one corpus of similar short sentences in memory, with no crash, no torn tail, no append and few secondary edges, long fields or deep discontinuity.',
 [N],[('numbering of nonterminals and column layout in NegraWriter',N),('sentence builder in NegraReader',N)],obs=['bytes on the simulated disk','trees yielded after restart']))
L.append(p('W03','Acknowledged bracketed trees survive a crash unchanged',
 'Every continuous tree whose write in a bracketed format was acknowledged and made durable is read back after a crash at any later byte with everything that format carries: words, tags, node labels, nesting and order for all three; node annotations as well for PTB and TueBa; edge labels too for TueBa (round brackets inside words come back as LBR and RBR). The tree being written at the crash is absent, complete, or reported as an error, and a second write of what was read gives the same text.',
 ['crash_points','inputs','histories'],'all sequences of expressible trees x three bracket formats x all crash points and torn tails x rewrite histories',
 'Tests round-trip the TueBa form of one corpus; PTB annotations and simple output are only checked in one direction on single strings, and nothing is ever cut or appended.',
 [P,'lumberjack/src/io/ptb.pest'],[('tree_to_string / string_to_tree',P),('label splitting',P)],obs=['bytes on the simulated disk','trees yielded after restart']))
L.append(p('W04','Trees stored as CoNLL-X tags are restored exactly',
 'A continuous tree whose unary chains are collapsed and which is stored as absolute or relative ancestor tags in CoNLL-X is restored, after any crash behind the acknowledged sentence and any restart, with the same words, tags, node labels, unary chains, nesting and order, from either encoding. This holds for every tree whose labels do not contain the separators of the encoding, and encoding leaves words, lemmas and other features of the stored tokens intact.',
 ['crash_points','inputs','histories'],'all continuous trees with separator-free labels x both encodings x crash points behind the acknowledged sentence',
 'Tests round-trip one corpus and a few small trees in memory; they do not write to and re-read from a stream that fails, nor generate trees systematically.',
 [E,C,M],[('encode/annotate and decode',E),('CoNLL-X conversion',C),('collapse and restore of unary chains',M)],obs=['bytes on the simulated disk','trees decoded after restart']))
L.append(p('W05','Decoding damaged tag sequences is total',
 'Decoding a CoNLL-X sentence whose ancestor tags are wrong, as damaged storage or a faulty tagger produces them (labels or numbers altered, tags lost, swapped or duplicated), terminates without panicking with either an error or a well-formed continuous tree that has exactly the words and part-of-speech tags of the sentence in order. The same holds for relative tags leading below zero: they are decoded as the absolute tags are in which every sum below one is replaced by two. Removing the placeholder nodes afterwards removes all of them except a branching root and leaves everything else, words and order included, in a well-formed tree.',
 ['fault_sequences','inputs'],'all sentences x all sequences of tag damage',
 'One test alters a single relative offset; no test decodes an arbitrary inconsistent sequence.',
 [E,C],[('Decode::decode attachment rules',E),('RelativeToAbsoluteError::fix',E),('remove_dummy_nodes',E)],obs=['TryFromConllx results','Decode::remove_dummy_nodes']))
L.append(p('T01','Every edit history leaves a well-formed tree',
 'After any sequence of tree operations, by any number of clients taking turns on one tree, including operations that are refused and bulk operations aborted by a panicking user callback, the tree is well formed: one root, every other node has exactly one parent and hangs below the root, nonterminals have children and words have none, words occupy positions 0..n without gaps and n is the reported count. Every node span is exactly the set of word positions it dominates, and the tree reports itself projective exactly when every span is continuous.',
 ['histories','schedules','fault_sequences'],'all interleavings of operations of several clients x all initial trees x all refused operations and callback panics',
 'Tests apply one or two operations to one five-word tree and mostly compare the printed tree, which does not show spans or the projectivity counter; no test aborts a callback.',
 [T,M,S,ND],[('incremental span maintenance in reattach_primary',T),('reset_nt_spans / compact_terminal_spans',T),('projectivity counter',T),('Span merge and removal',S)],
 state=[('n_terminals','number of words',T),('num_discontinuous','number of discontinuous nodes, decides is_projective',T)],obs=['Tree accessors and spans after every step']))
L.append(p('T02','Each edit does exactly what it documents, and nothing else',
 'After every step of any interleaved edit history (adding, inserting, moving and removing words; adding and removing nodes; reattaching; secondary edges) the tree equals a simple reference model of a constituency tree to which the documented effect of the same operations was applied. Nodes not named by an operation keep their labels, features, edges and their handles, so that a handle held by one client stays valid across other clients operations until its node is removed.',
 ['histories','schedules'],'all interleavings of edit operations of several clients x all initial trees',
 'Tests exercise each operation once or twice on a fixed five-word tree, mostly in projective position.',
 [T],[('edit operations',T)],obs=['Tree accessors after every step','returned handles and values']))
L.append(p('T03','A refused operation leaves the tree untouched',
 'Whenever an operation on a tree is refused, by returning an error or by its documented panic, the tree is afterwards exactly as before in structure, order, labels, features, edges, spans and projectivity. Operations that would break the tree (removing the last word of a branch or a branching root, reattaching a node below itself or below a word, removing the only child of a node, adding to a tree that is a single word, printing or encoding a discontinuous tree) are refused.',
 ['histories','fault_sequences'],'all tree states reachable by edit histories x all operations that must be refused',
 'Tests check is_err() for a few operations on one tree and rarely the state afterwards.',
 [T,E,P],[('guards at the start of each operation',T)],obs=['Result of each operation, state before and after']))
L.append(p('T04','Projectivization is minimal, order-preserving and exact',
 'Projectivizing a discontinuous tree makes every node continuous and keeps the words and their order, every node with its label and features, and every edge label; it changes only the parents of constituents that interrupt a discontinuous node, each being reattached to the node whose gap it fills. It returns exactly these moves with the original parent and edge, returns nothing and changes nothing for a continuous tree, and the result does not depend on the random order in which gaps are visited.',
 ['inputs','schedules','configurations'],'all discontinuous trees, also those produced by edit histories x all hash seeds deciding the iteration order over gaps',
 'One corpus is compared with stored output; the returned moves are not checked, and the process-random iteration order of hash sets is sampled once per run.',
 [M,T,S],[('Projectivize::projectivize picks a skipped index from a hash set',M),('reattach_node',T)],obs=['tree and move list after projectivize']))
L.append(p('T05','Bulk transformations match their documentation and terminate',
 'Filtering nonterminals, reattaching words, inserting intermediate nodes, annotating parent tags or projected labels and ids, annotating part-of-speech tags, and collapsing and restoring unary chains give, on every tree and in every order of application, the result their documentation states, with words and word order unchanged. They always terminate, and restoring collapsed unary chains gives back the original nesting and labels.',
 ['histories','inputs'],'all trees x all sequences of bulk transformations with arbitrary label sets, interleaved with edits and aborted callbacks',
 'Each transformation is tested on one to three small trees whose words were added in sentence order; single-word sentences and trees changed by earlier edits are not covered.',
 [M,T],[('TreeOps, UnaryChains, AnnotatePOS',M),('project_* and map_climber_path',T)],obs=['tree after each transformation']))
L.append(p('T06','Tree equality means equal content, whatever the history',
 'Two trees compare equal exactly when they have the same words, lemmas, tags, features, node labels, nesting, positions and primary edge labels, regardless of the histories of operations, formats or processes that produced them. In particular a copy stays equal until one of the two is changed, any single change to such content makes them unequal, and undoing the change makes them equal again.',
 ['histories','inputs'],'all pairs of histories leading to equal or minimally different content',
 'One test compares two hand-built graphs and one changed lemma.',
 [T,ND],[('PartialEq for Tree, Node, Terminal, NonTerminal',T+', '+ND)],obs=['== on trees']))
L.append(p('G01','Results do not depend on process randomness',
 'Reading, transforming, encoding and writing the same input gives byte-identical output, identical returned values and the same child and word order in every process and on every thread, whatever the random keys of hash tables and memory layout. This holds for the library pipelines and for the conversion program.',
 ['configurations','schedules','inputs'],'all inputs x all hash-table keys x process instances',
 'Each test run samples one set of random keys and compares only printed trees.',
 [M,N,S],[('hash sets of skipped positions',S),('hash maps of node ids',N)],obs=['all outputs of one pipeline under several hash seeds']))
L.append(p('G02','Concurrent and repeated use does not interfere',
 'Several readers, writers and transformations used at the same time on different threads, or one after another in one process, each give exactly the result they give alone, under every interleaving of their reads, writes and callbacks, and even when one of them fails or is abandoned half way. In one stream the result for a tree does not depend on the trees before it, apart from the running number given to unnumbered NEGRA sentences by one writer.',
 ['schedules','histories','fault_sequences'],'all interleavings of I/O and callback steps of several pipelines x aborted pipelines',
 'Tests run single pipelines to completion.',
 [N,P,C,T,M],[('all state is owned by reader, writer or tree values','lumberjack/src')],obs=['results of each pipeline']))
L.append(p('G03','Endless streams are processed in bounded memory',
 'Reading, transforming, encoding and writing a stream of trees, in the library or by the conversion program, needs memory and work per tree that depend on that tree but not on how many trees were processed before, including trees that failed to be read or written. Operations on one tree that cancel each other out can be repeated any number of times without the tree needing more memory.',
 ['histories','fault_sequences'],'all streams of any length x pipelines x read and write faults; all histories of cancelling operations',
 'No test measures memory, and no test processes more than one small file once.',
 [N,P,T,M,C,U],[('sentence and line buffers are per call',N),('line buffer',P),('removed nodes and edges leave the graph',T),('one tree at a time in the main loop',U)],obs=['heap use after each tree or cycle','largest heap of the process']))
L.append(p('C01','The converter never reports success for an incomplete conversion',
 'lumberjack-conversion exits with status 0 only if the whole input was read and converted and every byte of the result was written; if reading fails, the input is malformed or (for NEGRA and bracketed input) truncated inside a tree, or the output cannot be written, it terminates with a non-zero status and never hangs. In every case the output is a prefix of the fault-free output that contains all trees preceding the failing one (as far as the sink accepted them), and rerunning after a crash gives the complete output.',
 ['fault_sequences','crash_points','inputs','configurations'],'all inputs and option combinations x all sequences of system-call faults (short and interrupted reads/writes, EIO, ENOSPC, EPIPE) x crash points',
 'The only test of the program is one successful conversion.',
 [U,N,P],[('or_exit on every fallible step',U)],obs=['exit status','output file or stdout']))
L.append(p('C02','The converter applies its options as documented',
 'For every supported pair of input and output format and every combination of options, lumberjack-conversion outputs for each input tree, in order, the tree obtained by applying the requested steps in the fixed order: remove placeholder nodes, projectivize (with optional secondary edges), annotate POS, reattach words by tag prefix to the root, annotate ids, filter nodes, insert nodes, annotate parent tags, encode. The result is the same for standard streams and files and for every way the operating system delivers input and accepts output.',
 ['configurations','inputs','schedules','fault_sequences'],'all option combinations x treebanks x I/O schedules',
 'The only test converts one file with one option set.',
 [U,M,E,N,P,C],[('step sequence in main',U)],obs=['output of the program parsed independently']))
L.append(p('N01','Span arithmetic agrees with sets of positions',
 'Membership, covering, merging, removal and iteration of spans agree with the same operations on finite sets of positions.',
 ['inputs'],'all spans and position sets','Tests use a few fixed spans.',[S],[('Span',S)],obs=['Span methods']))
L.append(p('N02','Feature strings parse and print consistently',
 'Printing features and parsing the text gives back the same features for all keys and values without separators, and lookups see the last value inserted.',
 ['inputs'],'all feature maps','One fixed example.',['lumberjack/src/features.rs'],[('Features','lumberjack/src/features.rs')],obs=['Features']))
L.append(p('N03','Absolute and relative encodings of a tree convert into each other',
 'Converting the absolute encoding of a continuous tree to the relative one gives its relative encoding and vice versa, and the textual form of each tag parses back to the tag.',
 ['inputs'],'all continuous trees','Two fixed trees.',[E],[('From<AbsoluteEncoding>, try_from_relative',E)],obs=['encodings']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,sch); assert x['statement'].count('. ')<3,(x['id'])
print(len(L))
