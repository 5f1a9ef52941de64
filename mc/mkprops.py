import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe or [],hook_needed=None)))
W="oups/store/writer.py"; C="oups/store/collection.py"; R="oups/store/router.py"; I="oups/store/indexer.py"; U="oups/store/utils.py"
A="oups/aggstream/aggstream.py"; S="oups/aggstream/segmentby.py"; G="oups/aggstream/cumsegagg.py"; J="oups/aggstream/jcumsegagg.py"; F="oups/aggstream/utils.py"

p("C01","Ordered updates keep a dataset sorted and merge without loss",
  "When every write of a history to one dataset passes `ordered_on`, reading the dataset back always gives rows in ascending order of that column, whatever the position of the new data (after, before, between, inside or across existing row groups), whatever `max_row_group_size` and `max_nirgs`, and for pandas and vaex input. Without `duplicates_on` the rows read are exactly all the rows ever written, each once, and rows sharing the same `ordered_on` value appear in the order they were written.",
  ["histories","inputs","configurations"],"Every sequence of sorted batches (pandas or vaex) written with `ordered_on` to one dataset, for every max_row_group_size / max_nirgs setting of each write.",
  "The tests write one hand-made insertion per code path; position of the batch, row-group layout left by earlier writes and coalescing settings interact, and the interaction space is the space of histories.",
  [W],[("overlap detection and row-group slicing","oups/store/writer.py:write"),("merge, sort and row-group re-ordering","oups/store/writer.py:write"),("chunking of merged data","oups/store/writer.py:iter_dataframe")],
  [("row groups","ordered list of row groups of the dataset","pf.row_groups / _metadata")],["ParquetSet[key].pdf"])
p("C02","Updating with duplicates_on keeps exactly the last version of a row",
  "When a batch is written with `ordered_on` and `duplicates_on` to an existing dataset, for every group of rows equal on the `duplicates_on` columns plus `ordered_on` (all columns for an empty list) that contains both recorded and new rows, only the last new row remains; duplicated rows within a new batch overlapping recorded row groups are reduced to their last as well. Rows that have no duplicate are never lost, altered or multiplied, and rows not concerned by the new batch keep their values; recorded duplicates with no counterpart in the new batch may only be reduced to their last.",
  ["histories","inputs","configurations"],"Every sequence of batches written to one dataset with duplicates_on given as a name, a list or an empty list, for all overlaps with recorded row groups and all max_row_group_size / max_nirgs settings.",
  "Tests sample a handful of overlaps; the keep-last rule depends on where a duplicate lies relative to row-group boundaries produced by all the earlier writes.",
  [W],[("duplicate columns consolidation","oups/store/writer.py:write"),("drop of duplicates per written row group","oups/store/writer.py:iter_dataframe"),("sharp row-group starts","oups/store/writer.py:iter_dataframe")],None,["ParquetSet[key].pdf"])
p("C03","Appending without ordering keeps every row, in arrival order",
  "Writing without `ordered_on` (new dataset or existing one, pandas or vaex, with or without `max_row_group_size` and `max_nirgs`) leaves a dataset which reads back as the concatenation, in order, of all the batches written, with unchanged column names, column order, values (nulls included) and, for the numeric, string, boolean and timestamp types supported, dtypes (nullable integers: pandas input only). No row group of newly written data holds more than `max_row_group_size` rows.",
  ["histories","inputs","configurations"],"Every sequence of appended batches, batch sizes, column types and max_row_group_size / max_nirgs settings.",
  "Tests check a few batch sizes; off-by-one errors in chunking or coalescing show only for particular sizes and row-group layouts.",
  [W],[("chunking in row groups","oups/store/writer.py:iter_dataframe"),("append and coalescing","oups/store/writer.py:write")],None,["ParquetSet[key].pdf","ParquetSet[key].pf.row_groups"])
p("C04","Row groups respect size, sharp boundaries and the coalescing rule",
  "A write with `max_nirgs` leaves untouched the row groups located before both the overlap with new data and the trailing incomplete ones (incomplete: at most 90% of `max_row_group_size`), and merges new data with all the trailing incomplete row groups exactly when new data lies at the tail and either their number has reached `max_nirgs` or their rows plus the new ones reach `max_row_group_size`; otherwise new data at the tail is appended as new row groups. When recorded row groups are rewritten with `ordered_on`, no value of that column straddles two newly written row groups, and a newly written row group exceeds `max_row_group_size` only through rows sharing one `ordered_on` value.",
  ["histories","inputs","configurations"],"All row-group layouts reachable by bounded write histories, all batch positions and sizes, all max_row_group_size / max_nirgs settings.",
  "The rule is about counts at thresholds (90% of size, number of incomplete row groups) for every layout; tests use two or three layouts away from most thresholds.",
  [W],[("incomplete row-group count and coalescing decision","oups/store/writer.py:write"),("sharp starts","oups/store/writer.py:iter_dataframe")],None,["ParquetSet[key].pf.row_groups"])
p("C05","All readers of a dataset agree with each other and with the disk",
  "After any history of writes, appends, merges, insertions and failed writes, the pandas view, the vaex view and the fastparquet view of a dataset hold the same rows in the same order, row counts agree, and, for numeric and timestamp columns having statistics, `min_max(col)` equals the minimum and maximum of the column read; this includes the pandas view, vaex view and statistics asked on a handle obtained before a write. As long as no write failed, each completed write leaves in the dataset directory exactly the data files listed in its metadata, numbered in row-group order when row groups were rewritten.",
  ["histories","inputs","fault_sequences"],"Every bounded history of writes on one dataset (including datasets of more than 10 row groups), observed after each step through every reader and through a store opened anew.",
  "Each reader takes a different path (metadata file, directory listing, statistics); tests compare them after a single creation only.",
  [R,W],[("vaex file listing","oups/store/router.py:ParquetHandle.vdf"),("statistics","oups/store/router.py:ParquetHandle.min_max"),("row-group removal, file renaming, metadata write","oups/store/writer.py:write")],None,["ParquetSet[key].pdf/.vdf/.pf/.min_max()"])
p("C06","Keys map one-to-one to paths and strings and survive round trips",
  "For any key schema, two accepted keys are equal if and only if their directory paths are equal, and a key rebuilt from its path, from its string representation or by unpickling equals the original with the same field types; path depth equals the number of schema levels. Field values that could break this (separators, dots, directory separators, types other than int and str, misplaced sub-levels) are rejected when the key is created. Parsing any other string never raises: it yields nothing, or a key with fields of the declared types (separators being single characters).",
  ["inputs","configurations"],"All schemas of 1 to 3 levels with 1 to 3 fields each, several separators, all field values over a small adversarial alphabet.",
  "Tests use a dozen keys of friendly values; injectivity and round trip quantify over pairs of keys and over schemas.",
  [I],[("string/path building","oups/store/indexer.py:_dataclass_instance_to_str"),("parsing","oups/store/indexer.py:_dataclass_instance_from_str"),("validation","oups/store/indexer.py:_validate_toplevel_instance")],None,["key.to_path","str(key)","Indexer.from_path","pickle"])
p("C07","The catalogue of a store always matches the datasets on disk",
  "After any sequence of set, update, delete and failing operations through one or several keys, the keys of the store (iteration, length, membership, sorted order) are exactly the keys whose dataset was written and not deleted (a deletion which fails before removing anything changes nothing, and a failed deletion can be asked again), a store opened anew on the same directory lists the same keys and reads the same data, and each key reads back its own data only. Directories that are not datasets of the schema (empty directories, foreign files, wrong depth, names that do not parse, aliases of a key's path) never appear as keys.",
  ["histories","configurations"],"Every bounded sequence of set / update / delete / reopen operations over a small set of colliding keys, for several schemas, with foreign content in the directory.",
  "Tests run one set and one delete scenario; agreement between memory and disk must hold after every prefix of every history.",
  [C,U,I],[("directory scan","oups/store/collection.py:get_keys, oups/store/utils.py:files_at_depth"),("key registration","oups/store/collection.py:ParquetSet.set"),("deletion","oups/store/collection.py:ParquetSet.__delitem__")],
  [("keys","sorted set of known keys","ParquetSet._keys")],["list(store)","len(store)","key in store","ParquetSet(basepath, schema)"])
p("C08","Deleting a key removes that dataset only, never beyond the store",
  "Deleting a key removes its dataset directory, and then only directories left empty strictly below the store's base path; the base path itself, its parents, sibling datasets and any foreign file are untouched, however the base path is spelled (trailing separator, relative, path object). Deleting a key that is not in the store changes nothing on disk, be there a directory or not at the place its dataset would have.",
  ["histories","configurations"],"All delete histories over small sets of keys sharing parent directories, with foreign files at each level, and all spellings of the base path.",
  "The only test deletes two keys with a canonical base path; containment must hold for each layout and spelling, and a mistake destroys unrelated data.",
  [C,U],[("deletion and parent pruning","oups/store/collection.py:ParquetSet.__delitem__, oups/store/utils.py:strip_path_tail")],None,["directory tree around the base path"])
p("C09","Metadata of a dataset follows its update rule and stays its own",
  "User metadata written with a dataset are updated key by key (set adds or replaces, `None` removes, absent keys are kept) and survive every later data update, including those rewriting row groups; the application metadata attached to a key follow the same rule, are readable after reopening, and keep any value type exactly, falsy values included. Metadata of one dataset never show up in another one, even if the same metadata dict is reused, keys are interleaved or a write fails.",
  ["histories","inputs","fault_sequences"],"Every bounded sequence of data writes and metadata-only writes with set/replace/remove values, over two keys, with and without application metadata pending.",
  "Tests follow two fixed sequences; the rule is per key, per existing value and per history, and isolation is about pairs of datasets.",
  [W,R],[("metadata merge","oups/store/writer.py:write_metadata"),("pending application metadata","oups/store/writer.py:OUPS_METADATA"),("reading","oups/store/router.py:ParquetHandle.metadata")],
  [("OUPS_METADATA","application metadata pending per key","oups/store/writer.py")],["ParquetSet[key].metadata"])
p("C10","A rejected or failing write leaves the stored dataset as it was",
  "A write is refused with an exception when `ordered_on` is not the name of a column, when duplicates are to be looked for in recorded rows without `ordered_on`, or when key or data are not of the expected type. A write that raises, for one of these reasons, because its data is not compatible with recorded data, or because the file system fails while recorded data is being read or a new data file is being created or written, leaves the catalogue and the content, order and metadata read from every dataset unchanged, and a later valid write succeeds as if the failed one had never been tried.",
  ["histories","fault_sequences","inputs"],"Every invalid-argument class on every reachable small dataset, and an I/O error injected at every opening and every write of every new data file during append, insertion and merge.",
  "Tests only check that some exceptions are raised, never what is left on disk, and inject no I/O fault.",
  [W,C],[("argument checks before writing","oups/store/writer.py:write"),("new files written before old ones are removed and before metadata is updated","oups/store/writer.py:write"),("key added after write","oups/store/collection.py:ParquetSet.set")],None,["ParquetSet[key].pdf","list(store)"])
p("C11","Inputs given by the caller are never modified",
  "Writing to a store and aggregating never modify the objects the caller passed: dataframes (values, index, columns), lists given for `duplicates_on`, write-setting dicts, metadata dicts, `keys` / `agg` / `filters` configuration dicts and seed chunks are equal before and after the call, so that reusing them for another dataset or another run behaves as if they were fresh.",
  ["inputs","configurations","histories"],"All entry points with all parameter combinations of a small menu; two successive uses of the same objects.",
  "Tests build fresh arguments for each call; aliasing shows only when an object is reused or compared afterwards.",
  [W,C,A],[("argument consolidation","oups/store/writer.py:write, oups/store/writer.py:iter_dataframe, oups/store/writer.py:write_metadata"),("configuration consolidation","oups/aggstream/aggstream.py:_init_keys_config")],None,["arguments after the call"])
p("C12","Column multi-indexes survive recording and expansion",
  "A dataframe with a column multi-index of 2 levels or more, once conformed, keeps its data, number of levels, existing level names and string labels, has every other label turned into its string form and missing level names into empty strings; it can be recorded, updated and read back with the same columns and values, and conforming it changes no other dataframe. Expanding flat column names recorded from vaex gives back the multi-index they came from, whatever the (equal or unequal) depths and the number of names given (up to the depth); plain names are kept.",
  ["inputs","configurations"],"All small column multi-indexes over mixed label types with any subset of level names missing; all expansions of their flattened form with 0 to n level names.",
  "Tests use three literal indexes; level codes, unused levels and partially named levels are not reached.",
  [U,W],[("conforming","oups/store/utils.py:conform_cmidx"),("expansion","oups/store/writer.py:to_midx"),("check","oups/store/writer.py:check_cmidx")],None,["df.columns","ParquetSet[key].pdf.columns"])
p("C13","Bins equal a naive group-by, for every layout of data over bins",
  "For any ordered data, the segmented aggregation returns one row per bin, empty bins in between included with null values, labelled and delimited as the binning definition says (time grouper with any closed/label/origin/offset, or a fixed number of rows), and each of first, last, min, max and sum equals the value computed naively on the rows of the bin, for integer, float and datetime columns, several functions per column and several columns per function.",
  ["inputs","configurations"],"All placements of up to n rows over small grids of instants covering bin interiors, edges and gaps; all binning configurations and aggregation layouts of a menu.",
  "Tests compare a few dozen literal layouts; position of rows relative to each edge and to empty bins is a combinatorial space.",
  [G,J,S],[("segmentation","oups/aggstream/segmentby.py:by_scale, by_x_rows, segmentby"),("aggregation kernels","oups/aggstream/jcumsegagg.py"),("null handling","oups/aggstream/cumsegagg.py:cumsegagg")],None,["cumsegagg()"])
p("C14","Snapshots show the state of the ongoing bin at each observation point",
  "With snapshots requested, there is one snapshot per observation point needed to cover the data, in order and with its label; each holds the aggregation over the rows of the ongoing bin located before the point (point included when closed on the right), an observation on a bin end being made before the bin ends, and null when the ongoing bin has no row yet. Requesting snapshots never changes the bins.",
  ["inputs","configurations"],"All placements of up to n rows over small grids, all pairs of bin and snapshot periods (aligned or not), closed sides, snapshot points given as grouper, series or index, binning by time or by rows.",
  "Interleavings of row, bin end and snapshot positions including ties are combinatorial; tests fix a few.",
  [G,J,S],[("merging of snapshots and bin ends","oups/aggstream/segmentby.py:segmentby, mergesort"),("cumulation between snapshots","oups/aggstream/jcumsegagg.py:jcsagg")],None,["cumsegagg(snap_by=...)"])
p("C15","Restarting an aggregation on new data equals aggregating in one go",
  "Splitting ordered data in successive pieces at any positions and aggregating them one after the other with the same buffer gives, once the first bin (and snapshot) of each piece has replaced its earlier in-progress version, the very bins and snapshots obtained from a single aggregation of the whole data. This holds for time and row-count binning, with and without snapshots, for every split including pieces falling inside one bin, on a bin edge or after gaps of several empty bins, and when the buffer is serialized in between.",
  ["histories","inputs","configurations"],"Every split in up to k pieces of every small data layout, all binning and snapshot configurations of a menu.",
  "Restart state is carried in a buffer whose content depends on where the split falls; tests exercise some ten splits.",
  [S,G,J],[("segmentation buffer","oups/aggstream/segmentby.py:by_scale, by_x_rows"),("aggregation buffer","oups/aggstream/cumsegagg.py:cumsegagg"),("result carried over","oups/aggstream/jcumsegagg.py:jcsagg")],
  [("buffer","state carried between pieces","dict given by the caller")],["cumsegagg(buffer=...)"])
p("C16","A stored aggregation does not depend on how the seed is cut or flushed",
  "The dataset recorded by an aggregation stream for a key is the same, rows and order, for any cutting of the seed in chunks, any number of calls, any in-memory size limit triggering intermediate writes, and any row-group settings, and equals the aggregation of the whole seed computed in one go; with a pair of keys both bins and snapshots obey this. Post-processing sees each final bin and its own buffer kept from call to call, and the recorded result of a stateless post-processing is that of applying it to the aggregation of the whole seed. Preprocessing is applied exactly once to each chunk, even when it works in place.",
  ["histories","inputs","configurations"],"All cuttings of small seeds in chunks and calls (aggregates different from zero: zeros are refused by design), flush thresholds from 'always' to 'never', single key / pair of keys / several keys.",
  "Which rows are kept in memory, rewritten or appended depends on the cutting and on flushes; tests use fixed cuttings and rarely trigger flushes.",
  [A,G,W],[("iteration and flush","oups/aggstream/aggstream.py:agg_iter, _post_n_write_agg_chunks"),("concatenation without in-progress row","oups/aggstream/aggstream.py:_concat_agg_res")],
  [("agg_buffers","per key results in memory","AggStream.agg_buffers")],["ParquetSet[key].pdf"])
p("C17","Stopping and restarting a stream counts every seed row exactly once",
  "An aggregation stopped after any prefix of the seed and restarted by a new stream object on the same store (possibly reopened) with `trim_start` and `discard_last`, being fed the seed from any row at or before the recorded restart point, ends with the same datasets as an uninterrupted run, for restart points of any type and value (integers including 0 and negative ones, floats, timestamps) and with repeated values at the cut. So does a run fed, without trimming nor discarding, with rows that all come at or after those already given, whether by the same stream object or by a new one. The restart point, preprocessing buffer and post-processing buffer found at restart are those left at the stop.",
  ["histories","inputs","crash_points"],"All stop points (up to several stops) of small seeds with repeated index values, all overlaps of the re-fed data, all index types.",
  "Tests restart once or twice on literal data with timestamps; exactly-once accounting is a property of every cut.",
  [A,W],[("seed trimming","oups/aggstream/aggstream.py:_iter_data"),("restart metadata","oups/aggstream/aggstream.py:_init_buffers, _post_n_write_agg_chunks")],
  [("restart_index","seed index from which to restart","metadata of the dataset")],["ParquetSet[key].pdf","ParquetSet[key]._oups_metadata"])
p("C18","Filters give each key exactly the seed rows that satisfy them",
  "With several filters, each key aggregates exactly the seed rows satisfying its filter (an OR of ANDs of comparisons and memberships), in seed order, whatever the chunk cutting; the result for a key equals that of a stream run for this key alone on the pre-filtered seed, chunks fully rejected included. Rows rejected everywhere are in no result, and keys with no filter aggregate all rows.",
  ["inputs","configurations","histories"],"All filter expressions of bounded size over all operators on a small domain (nulls included), all chunk cuttings.",
  "Tests use two filters on one layout; boolean structure, operators and chunk boundaries combine.",
  [F,A],[("filter evaluation","oups/aggstream/utils.py:dataframe_filter"),("filter application per chunk","oups/aggstream/aggstream.py:_iter_data")],None,["dataframe_filter()","ParquetSet[key].pdf"])
p("C19","A failing seed check keeps the results up to the last valid chunk",
  "The user's seed check is given each chunk once, as fed and in order, before it is preprocessed. If it raises on any chunk, or rows within a chunk are not in ascending order, the aggregation raises the dedicated seed exception carrying the cause, and what is on disk for every key is exactly the aggregation of the preceding chunks, with restart information such that resuming with corrected data from the restart point gives the result of a run that never failed. If anything else fails (aggregation, post-processing, writing), the results recorded before the call stay readable and are not labelled with restart information of data they do not include.",
  ["fault_sequences","histories","inputs"],"Each chunk position failing in turn (seed check, unordered data, post-processing, writing), over all cuttings of small seeds, then resumption.",
  "Tests fail one fixed chunk and inspect one key; which data is on disk depends on the failure point.",
  [A],[("seed checks","oups/aggstream/aggstream.py:_iter_data, SeedPreException"),("final write after exception","oups/aggstream/aggstream.py:AggStream.agg")],None,["AggStream.agg()","ParquetSet[key].pdf"])
p("C20","Streams refuse inconsistent or foreign state and bad configuration",
  "Creating a stream on keys (main one of a pair) whose existing results stop at different seed positions, or on a dataset that no stream produced, raises and leaves all datasets untouched, for any subset of existing keys; keys aggregated to the same position, or not existing yet, are accepted. Configurations that cannot be honoured (unknown parameters, filter ids not matching, a key used twice, missing binning, output column colliding with the group column, unknown column or function) raise before anything is written.",
  ["configurations","histories"],"All combinations of state (absent, foreign, at position p) of up to 3 keys; all single-fault configurations of a menu.",
  "Tests check some exceptions on single configurations; the consistency rule is over combinations of stored states.",
  [A,S,G],[("consistency of restart indexes","oups/aggstream/aggstream.py:_init_buffers"),("configuration checks","oups/aggstream/aggstream.py:AggStream.__init__, _init_keys_config"),("aggregation checks","oups/aggstream/cumsegagg.py:setup_cumsegagg")],None,["AggStream()"])
p("C21","Parallel aggregation gives the sequential result for every interleaving",
  "Whatever the interleaving of the threads that aggregate and write several keys of one stream, the catalogue stays complete and sorted, every key's data and metadata are those of a sequential run, and no key receives another key's metadata or rows.",
  ["schedules","configurations"],"All interleavings at source-line granularity of the writes of 2 (quick) to 3 keys up to a preemption bound, first creation and update.",
  "Tests run real threads once, on whatever schedule occurs; races on the shared catalogue and pending metadata need specific preemptions.",
  [A,C,W],[("threads per key","oups/aggstream/aggstream.py:AggStream.agg"),("shared key set","oups/store/collection.py:ParquetSet.set"),("shared pending metadata","oups/store/writer.py:OUPS_METADATA")],
  [("keys","sorted set shared by threads","ParquetSet._keys"),("OUPS_METADATA","module-level dict shared by threads","oups/store/writer.py")],["list(store)","ParquetSet[key].pdf","ParquetSet[key]._oups_metadata"])
p("C22","Segmented aggregation refuses what it cannot honour, and nothing else",
  "An inconsistent definition (binning, columns, snapshots contradicting each other or missing), a column which is not ordered, an unknown column or function, a callable whose result breaks its contract (sizes, closed side, last rows not covered or trailing empty bin when restarting, another label at a restart), an aggregate of 0 when zeros are refused, or observation points that do not let snapshots restart correctly, raise instead of giving results; whatever is consistent is accepted and gives the bins and snapshots of the column it designates.",
  ["inputs","configurations"],"All combinations of binning, columns and snapshot definitions over a menu; all results of a callable over 3 rows; all orders of up to 3 values with nulls; all small aggregation definitions; all pairs of small sets of observation points.",
  "Tests check single refusals; which combinations are accepted, and what they then give, is combinatorial.",
  [S,G],[("setup of segmentation","oups/aggstream/segmentby.py:setup_segmentby"),("checks of a callable","oups/aggstream/segmentby.py:segmentby"),("restart of points","oups/aggstream/segmentby.py:by_scale"),("aggregation definition","oups/aggstream/cumsegagg.py:setup_cumsegagg")],None,["cumsegagg()"])
p("C23","Each key of a stream gets its own settings, and defaults for the others only",
  "The dataset recorded for a key of a stream (rows, row groups, user metadata, compression, post-processing applied) is the one of a stream for this key alone, given the settings in force for it: those of its own configuration (an explicit `None` removing snapshots or post-processing), then those of the stream for what it leaves unspecified. Settings of a key never apply to another one, whatever their order, the filters they are gathered under, and for single keys as for pairs of bins and snapshots (each dataset of the pair having its own row-group size if so specified).",
  ["configurations","histories"],"All sets of stream defaults over 8 parameters, all specifications of up to two parameters of a key (unset, None, another value) along with those of another key, flat or nested under filters, single keys and pairs.",
  "Tests use one or two fixed combinations of default and own settings; consolidation is a property of every combination and of every pair of keys.",
  [A,W],[("consolidation of settings","oups/aggstream/aggstream.py:_init_keys_config, AggStream.__init__"),("settings at write","oups/aggstream/aggstream.py:_post_n_write_agg_chunks")],None,["ParquetSet[key]","AggStream()"])
p("C24","What happens to a store or stream does not depend on the other ones",
  "Programs using stores, streams and segmented aggregation in one process (datasets written, updated, removed, refused; streams run, stopped, restarted, failing in their seed check, post-processing or recording; aggregations chained with a buffer) give each the outcomes, datasets, restart information, metadata and catalogue they give when run alone, whatever the way their operations alternate, one running while the seed, the seed check or the post-processing of the other is being called included: with distinct keys of a same store, or equal keys of two stores, and sharing configuration objects and data.",
  ["histories","schedules","configurations"],"All pairs of programs of a menu, both placements of their datasets, all merges of their operations with a bounded number of switches; all pairs of configurations differing by one attribute.",
  "Tests use one store and one stream at a time; interference needs two of them, alternating at a specific point, after a failure for instance.",
  [A,W,C,S],[("pending metadata, per key","oups/store/writer.py:OUPS_METADATA, write_metadata"),("buffers of a stream","oups/aggstream/aggstream.py:_init_buffers, AggStream.__init__"),("segmentation setup","oups/aggstream/segmentby.py:setup_segmentby")],
  [("OUPS_METADATA","metadata to be written, per key, whatever the store","oups/store/writer.py")],["ParquetSet","AggStream()","cumsegagg()"])
p("C25","A process killed during a write takes nothing recorded with it",
  "If the process is killed at any point of a write, deletion or aggregation, a store opened anew reads every other dataset as it was. The dataset being written, if it existed, is still listed, and read either as before or as after the write (rows, order and metadata together), as long as none of its recorded files has been replaced: until all new data files are complete, and at any point of a write which rewrites no recorded row group but within the writing of the metadata file itself; writing the same data again gives what an uninterrupted write gives. What a killed first write or a killed deletion leaves can be deleted, then written anew. A stream restarted, for each of its keys, from the restart point found (all keys are refused together if they do not agree) ends with the datasets of an uninterrupted run, or is refused: rows are never silently lost or counted twice. Files of a dataset being replaced one after the other when the kill occurs is out of the guarantee, for this very dataset.",
  ["crash_points","histories","configurations"],"All crash points (each file opened for writing, removed or renamed, each directory made or removed, data files torn after some bytes) of each operation on each small recorded state, and of each aggregation over small seeds, cuttings, key sets and flush settings.",
  "Tests never interrupt a write; what is on disk in the middle of one depends on the exact order of file operations, which any change may alter without a visible effect when all goes well.",
  [W,C,A],[("new files are written before recorded ones are removed, metadata file last","oups/store/writer.py:write, write_metadata"),("restart metadata recorded with the last dataset of a pair, at the end of an aggregation only","oups/aggstream/aggstream.py:_post_n_write_agg_chunks"),("deletion","oups/store/collection.py:ParquetSet.__delitem__")],None,["ParquetSet[key]","list(store)","AggStream().agg()"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
