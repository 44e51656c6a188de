NOTE='Sound for the constructs the rules recognise (path-sensitive provenance dataflow over SSA with loop widening, callees analysed in context); constructs whose shape is not understood are reported as undecided in the evidence and raise no alarm. Trusts go/types, go/ssa and the analyzer; third-party functions are modelled as stated under assumptions.'
def P(id,title,statement,over,q,why,files,mech,tech,note=NOTE,**k):
    return dict(id=id,title=title,statement=statement,over=over,q=q,why=why,files=files,mech=mech,tech=tech,note=note,**k)
N,T,C,L,S,SL='radix/node.go','radix/trie.go','radix/cvter.go','radix/load.go','store.go','load.go'
PROPS=[
P('P01','Reading never changes the tree',
 'No query, lookup, typed getter, map export, walk, dump, clone or prefixed-view constructor changes an existing node, its value, metadata, flags or children, nor the receiver\'s prefix, delimiter, mode or handlers. Whatever is read any number of times, in any order, the stored contents stay the same.',
 ['inputs','histories'],'every read operation, on every tree content and key',
 'tests call a handful of getters and look at the returned value, not at the tree afterwards',
 [N,T,C,L,S],[('all exported non-writing methods of node, tree, store and loader','radix/*.go, store.go, load.go')],
 'interprocedural write-effect analysis with freshness (origin) tracking over the call graph'),
P('P02','A clone is complete and independent',
 'Cloning a store or tree copies every node with its key, value, description, comment, tag and flags, recursively for all children, and keeps the prefix, delimiter, recursion mode and store options. The copy shares no node and no child list with the original, and mutable values (slices, maps) are deep-copied.',
 ['inputs','histories'],'every tree content, at every depth',
 'the tests clone small trees and compare a dump',
 [N,T,S],[('node Dup','radix/node.go Dup'),('tree Dup','radix/trie.go Dup/dupS'),('store Dup/Clone','store.go')],
 'path-sensitive provenance dataflow over SSA: final heap of the fresh objects'),
P('P03','Setting a key stores it once and disturbs no other key',
 'Every way of setting a key puts the given value in exactly one node - a new one, or the one already holding that key - and returns that node and the value it held before; the optional callback runs exactly once. No other key is affected: children are only added, and when a node has to be split its key, value, description, comment, tag, flags and children all move to the new lower node, while the upper part becomes an empty branch.',
 ['inputs','histories'],'every key, value and prior tree content',
 'tests insert a fixed list of keys and read a few of them back',
 [N,T],[('insertion and split','radix/node.go insertInternal, split, insertAsLeaf'),('tree-level setters','radix/trie.go Set, SetEx, SetNode, SetEmpty, Update')],
 'path-sensitive provenance dataflow over SSA: per-path field writes of node objects'),
P('P04','A view\'s prefix is applied exactly once',
 'Every key-taking operation on a tree or store addresses the node whose full key is the view\'s current prefix followed by the given key, the prefix being used exactly once and before the key; without a prefix the key alone is used. The key recorded in an inserted node equals the word inserted; extending a view appends to its prefix, replacing it discards the old one; a merge lands at prefix plus merge point; a node\'s full key is never looked up through a prefixed view again.',
 ['inputs','configurations','histories'],'every operation, key, prefix and chain of views',
 'tests use prefixes with a few operations only',
 [T,L,C,S,SL],[('prefix join at the head of each operation','radix/trie.go'),('view constructors','radix/load.go'),('merge point','store.go Merge, radix/trie.go Merge')],
 'path-sensitive string-provenance dataflow over SSA'),
P('P05','Queries agree with the tree and with each other',
 'An existence test is true exactly when the key was located and the match is not partial; a query reports found, with a nil error, exactly for a located leaf or a located branch that ends at a delimiter. The value, description, comment, tag and kind returned are those of the located node itself, and zero values when nothing was located; the callback form runs exactly for found keys. Lookups start at the root with the tree\'s own delimiter, fill the caller\'s pattern-variable map, and retry a key that was not found only in upward recursive mode, each time without the part before its last, while more than two parts are left.',
 ['inputs','histories'],'every key, tree content, prefix and mode',
 'tests check a few present and absent keys with one or two of the query forms',
 [T,N,S],[('query forms','radix/trie.go Has, Search, Locate, Query, Get, MustGet, GetEx, GetDesc, GetTag, GetComment'),('store wrappers','store.go Get, MustGet, Has, Locate')],
 'path-sensitive provenance dataflow over SSA: match-state typestate of the lookup result'),
P('P06','Removing a key removes exactly that node',
 'Removal takes out of the tree exactly the node that was located for the key - one element of its parent\'s child list, all siblings kept in order - and writes nothing else. Nothing is removed when the match is partial or absent. The result says removed exactly when a node was taken out, and the extended form names that node and its parent.',
 ['inputs','histories'],'every key and tree content',
 'tests remove a few keys from small trees',
 [T,N,S],[('removal','radix/trie.go RemoveEx, radix/node.go remove'),('store wrappers','store.go Remove, RemoveEx')],
 'path-sensitive provenance dataflow over SSA: child-list edits against the located node'),
P('P07','Descriptions, comments, tags and flags are set precisely',
 'Setting a description and comment, a tag, or a whole node stores exactly the given values in exactly the located (or inserted) node; on a partial or missing match nothing is written and failure is reported. A node\'s own setters touch only the fields and the one flag they are named for: setting data marks it present, emptying clears value and tag, and the modified mark is set, flipped or reset alone; what a node reports about itself (value present, leaf, branch, modified) is what those marks say.',
 ['inputs','histories'],'every key, text, tag and flag combination',
 'tests set metadata on one or two existing keys and rarely look at what else changed',
 [T,N],[('tree setters','radix/trie.go SetComment, SetTag, SetNode'),('node setters','radix/node.go SetData, SetEmpty, SetComment, SetTag, SetModified, ToggleModified, ResetModified')],
 'path-sensitive provenance dataflow over SSA with bit-effect tracking of flags'),
P('P08','Typed getters return the stored value, or the given default',
 'For a key that is found, every typed getter returns the conversion of that key\'s own value to the result\'s type, through no narrower or differently signed type on the way; for a key that is not found it returns the last given default (list getters: the given list), or the zero value without one, and its error is nil exactly when the key is found. Size getters multiply by the power of 1024 (kibi) or 1000 (kilo) that the suffix stands for, take a number (whole, in any notation of Go, or with a fraction) without suffix as it is, and use the default only when the key is not found or its text is empty.',
 ['inputs'],'all typed getters (scalar, list and map forms), every key, value and list of defaults',
 'there are about 130 getters; tests call most of them once on a present key',
 [C],[('typed getters','radix/cvter.go'),('size texts','radix/cvter.go FromKibiBytes, FromKiloBytes')],
 'path-sensitive provenance dataflow over SSA: converter typing, default selection and unit tables'),
P('P09','Every change is announced exactly once, to the right handlers',
 'After a key is set through the store, the new-key handlers run if the key was absent and the change handlers if it was present; after a removal that took a node out the delete handlers run; each handler of that kind (nil ones apart) runs once, synchronously and after the tree was updated, and no other kind runs. Handlers receive the path the caller gave, the value set (or removed), the value held before and the loading mark. Registering handlers adds all of them and drops none.',
 ['inputs','histories'],'every sequence of sets and removals, every set of handlers',
 'tests register one handler and trigger one event',
 [S],[('notifications','store.go setKV, tryOnSet, tryOnDelete, Remove, RemoveEx'),('registration','store.go With*Handlers')],
 'path-sensitive provenance dataflow over SSA with loop-coverage analysis'),
P('P10','Loading hands over everything a source delivers, or reports why not',
 'When the source cannot be read or decoded the load returns that error, merges nothing, starts no watch and returns no writer. Otherwise everything delivered - the entries read, the decoded document, every entry of a stream - is merged, every key with its value, at the loader\'s prefix; the source\'s structured reader is asked first, and bytes or stream only when it is not implemented, bytes being decoded with the given codec, else the source\'s, else as JSON. An error of the merge is returned too; the loading mark is held from before reading until after merging, and released on every way out.',
 ['inputs','fault_sequences','configurations'],'every provider, codec, option and failure',
 'tests load a few well-formed files and never a failing source',
 [SL],[('load','load.go Load, tryLoad, newLoader, WithinLoading')],
 'path-sensitive provenance dataflow over SSA: error-path typestate and loop coverage'),
P('P11','A merge takes over every entry, at the right place',
 'Merging or loading a document stores every entry of every map, at every depth, exactly once - one entry that fails does not stop the others, and its error comes out - at merge point plus key, joined with the tree\'s own delimiter. Nested maps become subtrees; lists are stored whole, unless the store is set to take them apart, in which case every element goes to list key plus its index; all other values, nil included, are stored as they are. Loaded entries keep their description, comment and tag, and the given document itself is left unchanged.',
 ['inputs','configurations'],'every document, merge point, delimiter and list setting',
 'tests merge a few small documents, with one delimiter and without nil entries or untyped maps',
 [SL,L,S,T],[('store merge','load.go loadMap, loadMapAny, loadMapByValueType, privateSetter'),('tree merge','radix/load.go loadMap, loadMapByValueType, radix/trie.go Merge')],
 'path-sensitive provenance dataflow over SSA: loop coverage and string decomposition of the keys written'),
P('P12','Saving writes exactly the modified keys and reports failures',
 'Save encodes all keys marked as modified, whatever their value, and no others, as one nested document, save-as all keys; what is written is exactly the encoder\'s output, once, to the given target. An error from exporting, encoding or writing is returned and nothing is written after it; nothing is written when there is nothing to save, and saving itself changes no value and no mark. A key set by the application outside loading is marked as modified, a key set while loading is not.',
 ['inputs','fault_sequences','histories'],'every store content, provider, codec and failure',
 'tests save one small store to one file provider and never see a failing writer or encoder',
 [SL,S],[('save','load.go Save, trySave, SaveAs'),('modified mark','store.go setKV')],
 'path-sensitive provenance dataflow over SSA: error-path typestate from export to write'),
P('P13','Walks and map exports are complete and precise',
 'A walk calls back exactly once for each node of the subtree (of the node located when the key ends with a delimiter, else of its parent), parents before children, with that node, its full key and its piece. A map export contains exactly the value-holding keys of the subtree that pass the filter, each with its own value, under the full key or - unless the prefix is kept - the key less the exported path; exporting the whole tree includes every key of the view. The nested form splits keys at every delimiter of the tree and never writes into a map that is itself a stored value; filling a struct uses the export of that very path with the given options, and its error is returned.',
 ['inputs','histories','configurations'],'every tree content, path, prefix, delimiter, filter and export option',
 'tests export a few shallow trees with the default delimiter',
 [C,N,T],[('walk','radix/node.go walk, Walk; radix/trie.go Walk'),('export','radix/cvter.go GetM, GetR, put, putKeys, splitCompactKeys, submap, To')],
 'path-sensitive provenance dataflow over SSA: callback analysis, loop coverage and key decomposition'),
P('P14','Views share one tree; path pieces join with exactly one delimiter',
 'Joining path pieces yields every non-empty piece, unchanged and in order, with exactly one delimiter of that tree between neighbours and none at the ends, whatever was joined before. A view - its prefix extended or replaced, or made for another recursion mode - reads and writes the very same tree as the store it was made from, with the same delimiter, list and watch settings, and keeps the mode and the prefix it was not asked to change.',
 ['inputs','histories','configurations'],'every list of pieces, delimiter, and chain of views',
 'tests join two or three pieces with the default delimiter and read one key through a view',
 [T,L,S],[('joining','radix/trie.go Join, join1, UsePool; store.go join'),('views','radix/trie.go dupS, radix/load.go With*; store.go dupS, R, BR, With*')],
 'path-sensitive provenance dataflow over SSA: output grammar of the joiners, pool typestate, final heap of view objects'),
P('P15','External changes reach the store, and watching ends with it',
 'After a load that delivered something the source is watched, with the caller\'s context, exactly when it can be watched, the store allows watching and the load did not forbid it; a source whose watch was started is closed when the store is closed, together with everything else the store has to close and the tree. An announced change sets every key it carries to its value when it creates or writes, and removes every key it carries when it only removes; any other event, or a reported error, changes nothing.',
 ['inputs','histories','configurations','fault_sequences'],'every source, option, and sequence of change events',
 'tests watch one file and see one event',
 [SL,S],[('watch start','load.go Load, startWatch'),('applying changes','load.go applyExternalChanges, applyChanges'),('closing','store.go Close')],
 'path-sensitive provenance dataflow over SSA: watch lifecycle typestate, event-kind case analysis and loop coverage'),
P('P16','A time-to-live ends exactly its key, once, and never after closing',
 'Setting a time-to-live succeeds exactly for a located key, or a given node, and then hands that very node, the given duration and the given callback to the one running worker of the tree; otherwise failure is reported and nothing is scheduled. When the duration has passed (durations under 200 ns are ignored) the callback, if any, runs once with the key\'s current node, and after it that node alone is emptied if it is a leaf or removed if it is a branch; a key that is gone by then is left alone. Closing the tree ends the worker and every pending expiry without effect.',
 ['inputs','histories','schedules'],'every key, duration, callback, and interleaving of expiry with other operations and closing',
 'tests wait for one expiry of one key',
 [T,N,S],[('registration','radix/trie.go SetTTL, SetTTLFast; radix/node.go SetTTL; store.go SetTTL'),('worker and expiry','radix/trie.go newttls, run, Add, Close')],
 'path-sensitive provenance dataflow over SSA: channel/select typestate of the worker and the per-job goroutine'),
P('P17','Codecs pass documents through and report every failure',
 'A codec decodes exactly the bytes it is given and returns what its format\'s decoder produced; it encodes the given document, every entry and nested map of it, and returns the encoder\'s whole output, in memory no other call uses. An error of the format library or of a file is always returned, never success with a missing or partial document. Loading from or saving to a file uses the named file and closes it on every path; each file suffix is served by the codec of its format, and every option keeps the value it was given.',
 ['inputs','fault_sequences','histories'],'every codec, document, byte text, file and failure',
 'tests decode one well-formed file per format and hardly ever encode or fail',
 ['codecs/gob/gob.go','codecs/hcl/hcl.go','codecs/hjson/hjson.go','codecs/json/json.go','codecs/nestext/nestext.go','codecs/toml/toml.go','codecs/yaml/yaml.go','codecs/all/all.go'],[('codecs','codecs/*/*.go Marshal, Unmarshal, Load, Save'),('suffix table','codecs/all/all.go')],
 'path-sensitive provenance dataflow over SSA: error-path typestate, taint from input bytes to decoder and from encoder to result, resource typestate of files'),
P('P18','Providers deliver the whole source, or report why not',
 'A provider reads exactly the source it was made for - the named file, the given map (a deep copy of it), the environment, all flags, the key or key prefix of a remote store - and delivers every entry with its own value, leaving out only names that fail the filter prefix; an entry\'s key is its own name, changed by the case, strip, prefix, delimiter and callback options given and by nothing else. An error of the source, or a missing client, is returned, never success with missing data; a file is written only when writing back is enabled, whole and to the named file, and refused otherwise. Iteration yields each key once and then the end; existence tests, values, counts and key lists agree with what is read; codec and position are those last given.',
 ['inputs','configurations','fault_sequences'],'every provider, source content, option and failure',
 'tests read one file, one small map and the environment of the machine, and never a failing or remote source',
 ['providers/file/file.go','providers/fs/fs.go','providers/maps/maps.go','providers/env/env.go','providers/flags/flags.go','providers/etcd/etcd.go','providers/consul/consul.go','internal/cvt/cvt.go'],[('reading and writing','providers/*/*.go Read, ReadBytes, Write, prepare, New'),('iteration','providers/*/*.go Next, Has, Value, Keys, Count'),('map helpers','internal/cvt/cvt.go')],
 'path-sensitive provenance dataflow over SSA: loop coverage from source to table, key decomposition against the options on each path, error-path typestate'),
P('P19','A watched source announces every change as it is, and the watch ends',
 'A watch is started, once, exactly when watching is enabled, on the very file, key or key prefix the provider was made for, and failing to start it is reported. Every event of that source (a write or creation of a file that does not merely repeat the event just before it; a creation, write or removal of keys of a remote store) reaches the callback exactly once, and every failure reaches it as an error; the change delivered has the kind of the event, tests kinds by that kind, and yields each entry the event is about once, under the key and with the value that reading would give (for a removal, exactly the entries that were there before and are gone), and then the end. A watch ends when its context ends, its source fails or closes, or the provider is closed, and gives back what it holds on every way out.',
 ['inputs','histories','fault_sequences','configurations'],'every provider, option, and sequence of source events and failures',
 'tests watch one file and see one event, and never a remote source',
 ['providers/file/file.go','providers/file/change.go','providers/etcd/etcd.go','providers/etcd/change.go','providers/consul/consul.go','providers/consul/change.go'],[('watching','providers/file/file.go, providers/etcd/etcd.go, providers/consul/consul.go Watch, Close'),('changes','providers/*/change.go Next, Set, Has')],
 'path-sensitive provenance dataflow over SSA: select/channel typestate of the watcher goroutines, handler analysis, resource typestate'),
P('P20','A value is only touched under its key\'s lock, which is always given back',
 'Wherever a key has a lock - every key that was given a time-to-live has one - its value is read, set, cleared, or moved to another node only with that lock held, and changed only with the lock held exclusively, so that no access races with the expiry in the background. The lock is released on every way out, in the way it was taken; and while it is held no other lock is taken, no callback of the caller runs and no channel is waited for.',
 ['schedules','inputs','histories'],'every interleaving of readers, writers and expiry on a key with a time-to-live',
 'tests run one goroutine at a time and never meet the other side of a lock',
 [N,T],[('the lock','radix/node.go readLockFor, lockFor'),('accesses','radix/node.go Data, SetData, SetEmpty, insertInternal, split, dumpR, Dup; radix/trie.go getNode, Query')],
 'lock typestate and guarded-field analysis: path-sensitive symbolic walk over SSA with callers joined to lock-expecting helpers'),
P('P21','Every option given takes effect, exactly as given',
 'Making a store, loading, saving and exporting apply every option given (nil ones apart), once and in the order given, to the very thing being set up and before it is used. Each option sets exactly the one setting it stands for, to exactly the value given, and nothing else. A load or save given no codec or position takes the source\'s, and one given a codec or position hands it to the source.',
 ['inputs'],'every list of options and every source','tests pass one or two options, and never look at what the source was handed',
 ['store.go','load.go','new.go','radix/cvter.go'],[('applying','store.go newStore, load.go newLoader, SaveAs, radix/cvter.go GetM'),('options','store.go With..., load.go With..., radix/cvter.go With...')],
 'effect analysis of option constructors and option loops: path-sensitive symbolic walk over SSA with loop coverage'),
]
NA=[
P('P30','What is set is what is found, after any history',
 'After any sequence of sets, merges, removals and expiries a lookup of a key delivers the value last set for it and not removed since, and of no other key, whatever the shapes of the keys are.',
 ['inputs','histories'],'every sequence of operations and every set of keys','tests use short fixed sequences',
 [N,T],[('matching','radix/node.go matchR, matchChildren')],'',reason='the loop that matches a key against the pieces of the tree, rune by rune, needs inductive invariants over run-time tree shapes that no sound static argument in reach can supply; the clauses visible in the code (one place per value, splits lose nothing, exact-match tests, node and parent agree, pattern variables) are decided under P03, P05 and P06'),
P('P31','Encoding and then decoding a document gives the document back',
 'For every codec and every document it can express, decoding what was encoded yields an equal document.',
 ['inputs'],'every codec and document','tests decode one file per format',
 ['codecs/yaml/yaml.go','codecs/json/json.go'],[('codecs','codecs/*/*.go')],'',reason='round-trip equality is a matter of the values inside third-party format libraries; what the codecs here contribute (everything is passed through, errors come out) is decided under P17'),
P('P32','Texts convert to the numbers, durations and times they denote',
 'A typed getter applied to a text value yields the number, boolean, duration, time or complex number the text denotes.',
 ['inputs'],'every text and target type','tests convert a few texts',
 [C],[('conversion','radix/cvter.go')],'',reason='the numerical result is computed in a third-party conversion library from run-time text; that the right value goes through the right conversion, type and unit is decided under P08'),
P('P33','A time-to-live ends in time',
 'A key is gone no earlier than its time-to-live and at most a scheduling delay later.',
 ['schedules','histories'],'every duration and load of the machine','tests wait once',
 [T],[('timers','radix/trie.go run')],'',reason='real time and scheduling are not in the source; that a timer of exactly the given duration is started for exactly this key is decided under P16'),
]
