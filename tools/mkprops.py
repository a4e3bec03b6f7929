# Generates /verif/properties.jsonl (kept as the single editable source of the property texts).
import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=['include/osmium/'+f for f in files],mechanism=[dict(name=n,where='include/osmium/'+w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where='include/osmium/'+c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title)); P.append(d)

p('C01','Coordinates survive conversion between fixed point and floating point',
 'Every coordinate that can be stored comes back unchanged after being converted to floating-point degrees and stored again, and floating-point input is stored as the nearest multiple of 1e-7 degrees. Longitude and latitude never influence each other, and a position counts as defined exactly when it has been given coordinates.',
 ['inputs'],'all 2^32 stored values of each of longitude and latitude',
 'Tests convert a handful of literals; a rounding or truncation slip affects only some of the 4 billion values.',
 ['osm/position.hpp','osm/types.hpp'],[('fixed/double conversion','osm/position.hpp'),('position accessors','osm/position.hpp')],obs=['positions read back through the public accessors'])
p('C02','Object ordering is a total order by type, sign-normalised id, and version',
 'Among objects of one type, comparison is irreflexive, asymmetric and transitive, and two objects compare as equivalent only when both id and version are equal. Objects are ordered by absolute id, and for one id by version; nodes, ways and relations follow the same rule.',
 ['inputs'],'all triples of ids (positive and negative) and versions',
 'Sorting tests use short fixed sequences; asymmetry, transitivity and distinctness quantify over all pairs and triples.',
 ['osm/node.hpp','osm/way.hpp','osm/relation.hpp','osm/object.hpp'],[('object comparison','osm/node.hpp'),('object comparison','osm/way.hpp'),('object comparison','osm/relation.hpp')],obs=['result of comparing objects and of sorted containers'])
p('C03','Positions and undirected segments are consistently ordered and normalised',
 'Position equality and ordering form a strict total order on coordinate pairs. An undirected segment built from two end points is the same whichever end is given first, and two segments are equal exactly when they have the same set of end points; its ordering is a strict total order.',
 ['inputs'],'all triples of coordinate pairs',
 'Fixed examples cannot establish asymmetry and transitivity over the whole 64-bit domain.',
 ['osm/position.hpp','osm/segment.hpp','osm/undirected_segment.hpp'],[('position comparison','osm/position.hpp'),('segment normalisation','osm/undirected_segment.hpp')])
p('C04','A bounding box contains exactly the extent of the positions put into it',
 'After any sequence of positions, the box covers every defined position that was added, each of its four edges is touched by one of them, and the result does not depend on their order. A box with no positions is reported as undefined, and positions without coordinates do not change the box.',
 ['inputs','histories'],'all sequences of up to a few positions with arbitrary coordinates, defined or not',
 'The sample tests extend with a few fixed points in one order.',
 ['osm/bounds.hpp','handler/find_bbox.hpp'],[('extend','osm/bounds.hpp'),('node visitor','handler/find_bbox.hpp')])
p('C05','Nodes written as PBF and read back are the same nodes',
 'For every sequence of nodes the binary writer accepts, reading the resulting blocks yields the same nodes in the same order with the same id, version, timestamp, changeset, user id, user name, visibility (in history files), coordinates and tags. This holds for dense and plain encoding, with and without metadata and compression.',
 ['inputs','configurations'],'arbitrary ids, versions, timestamps, changesets, user ids, coordinates, and tags; short sequences; every writer option',
 'No test writes PBF at all; delta and zig-zag coding errors depend on the relation between neighbouring objects and on extreme values.',
 ['output/pbf.hpp','input/pbf.hpp','utils/delta.hpp','utils/stringtable.hpp'],[('node serialisation','output/pbf.hpp'),('node parsing','input/pbf.hpp'),('delta coding','utils/delta.hpp')],
 state=[('delta state','last values of dense node fields','output/pbf.hpp')],obs=['objects delivered to the handler by the reader'])
p('C06','Ways written as PBF and read back are the same ways',
 'For every sequence of ways the binary writer accepts, reading back yields the same ways in the same order, with the same metadata, tags and node references in the same order. Node references may be arbitrary, repeated, increasing or decreasing.',
 ['inputs','configurations'],'arbitrary metadata and node references, up to a few per way and a few ways per block',
 'No test writes PBF; reference deltas restart per way and errors show only for particular neighbours.',
 ['output/pbf.hpp','input/pbf.hpp'],[('way serialisation','output/pbf.hpp'),('way parsing','input/pbf.hpp')])
p('C07','Relations written as PBF and read back are the same relations',
 'For every sequence of relations the binary writer accepts, reading back yields the same relations in the same order with the same metadata, tags and members; each member keeps its type, reference and role in its position.',
 ['inputs','configurations'],'arbitrary metadata, member references, member types and roles, up to a few per relation and a few relations per block',
 'No test writes PBF; member type, id and role are stored in three parallel arrays whose agreement depends on the data.',
 ['output/pbf.hpp','input/pbf.hpp'],[('relation serialisation','output/pbf.hpp'),('relation parsing','input/pbf.hpp')])
p('C08','String table references always resolve to the string they were made from',
 'After a string table is built from any multiset of strings and written out, looking up each string gives an index at which the stored table holds exactly that string, index 0 stays empty, and distinct strings get distinct indexes. This holds for any number of distinct strings that fits into a block.',
 ['inputs'],'arbitrary strings with repetitions, in arbitrary order; any table size a block can reach',
 'Tests insert a handful of strings; a too narrow index type or an ordering slip needs many strings or particular frequencies.',
 ['utils/stringtable.hpp','output/pbf.hpp'],[('index assignment','utils/stringtable.hpp'),('mapping of interim ids','output/pbf.hpp')],
 state=[('id2id map','interim to final string id','utils/stringtable.hpp')])
p('C09','The PBF reader never misbehaves on malformed or hostile blocks',
 'Whatever a decoded block message contains - array lengths that disagree, string indexes out of range, unterminated tag lists, missing parts - the reader either delivers objects or reports an error; it never reads outside the message, crashes or hangs.',
 ['inputs'],'all block messages up to a few elements per array with arbitrary contents',
 'No test feeds malformed messages; the combinations of lengths and indexes are unbounded.',
 ['input/pbf.hpp'],[('primitive group parsing','input/pbf.hpp'),('string table lookups','input/pbf.hpp')])
p('C10','PBF input framing accepts exactly complete well-formed files',
 'However the operating system splits the data into reads, a file made of complete blobs is parsed identically, blob after blob. A file that ends in the middle of a blob, or whose sizes, messages or compression are invalid, is reported as an error and never as a normal end or as wrong data; complete blobs of an unknown type are skipped.',
 ['inputs','fault_sequences'],'all splits of the byte stream into reads, all truncation points, all header sizes and raw sizes within bounds',
 'Tests never exercise short reads, truncation at each byte, or size fields at their limits.',
 ['input/pbf.hpp'],[('blob header reading','input/pbf.hpp'),('exact read loop','input/pbf.hpp'),('unzip','input/pbf.hpp')])
p('C11','PBF output reaches the file completely or the failure is reported',
 'Whatever part of each write the operating system accepts, the bytes in the output file are the complete encoded stream in order, and every write error is reported to the caller. Each blob is preceded by its correctly sized header, and compressed and uncompressed storage decode to the same block.',
 ['fault_sequences','inputs'],'all patterns of partial writes and write errors over the writes of a file',
 'Tests write to ordinary files, where the kernel accepts every write whole.',
 ['output/pbf.hpp'],[('blob storage','output/pbf.hpp')])
p('C12','PBF header information survives and unusable files are rejected',
 'The bounding box and the writing program put into a file header are delivered unchanged to the reader. A file requiring an unknown feature, or whose kind (with or without history) is not what the caller expects, is rejected before any object is delivered, and all other files are accepted.',
 ['inputs','configurations'],'all bounding boxes; all combinations of up to a few required features and expected file kinds',
 'Tests cover no header round trip; truncating conversion errors hit only some coordinates.',
 ['input/pbf.hpp','output/pbf.hpp','input.hpp','osmfile.hpp'],[('header writing','output/pbf.hpp'),('header parsing','input/pbf.hpp'),('file type check','osmfile.hpp')])
p('C13','PBF coordinates and times are scaled as the file format defines',
 'Coordinates are (offset + granularity * stored value) nanodegrees and times are stored value * date granularity milliseconds, for every granularity and offset the block declares, for plain and dense nodes alike. The result is exact to the resolution the library stores.',
 ['inputs'],'all granularities, offsets and stored values within the valid coordinate and time range',
 'Files written by common tools all use the default granularities, so other values are never exercised.',
 ['input/pbf.hpp','output/pbf.hpp'],[('coordinate scaling','input/pbf.hpp'),('date scaling','input/pbf.hpp')])
p('C14','Handlers see one well-nested, complete sequence of callbacks',
 'For every input, a handler gets its initialisation callback once before anything else, every object exactly once in file order, each run of nodes, ways or relations bracketed by its begin and end callbacks, and the final callback once at the end. This also holds for empty inputs and for sequences of handlers, where every handler of the sequence sees the same calls.',
 ['inputs','histories'],'all sequences of object types up to a few objects, including empty ones, for both input formats',
 'Tests drive handlers directly with one fixed order.',
 ['input.hpp','input/xml.hpp','input/pbf.hpp','handler.hpp'],[('callback sequencing','input.hpp'),('forwarding and sequence handlers','handler.hpp')],state=[('last object type','which bracket is open','input.hpp')])
p('C15','Objects handed to a handler stay as delivered',
 'An object that a handler keeps after its callback is never changed by later parsing, and an object delivered later never shows data of an earlier one. This holds for nodes, ways and relations from both input formats, however the objects differ in tags, members and metadata.',
 ['inputs','histories'],'all short sequences of objects with arbitrary contents, all choices of which objects are retained',
 'Tests do not retain objects while parsing goes on; the object reuse path depends on reference counts.',
 ['input.hpp','input/xml.hpp','input/pbf.hpp','osm/object.hpp'],[('reuse of exclusively owned objects','input.hpp')])
p('C16','Each object version ends when the next version of that object begins',
 'In a history stream, every version is passed on exactly once, in order, with its end time equal to the timestamp of the next version of the same object, or unlimited if it is the last. Versions of different objects or types never influence each other.',
 ['histories','inputs'],'all streams of a few versions over several objects and types, with arbitrary ids and timestamps',
 'The test streams are fixed; look-ahead at type and id boundaries depends on neighbouring objects.',
 ['handler/endtime.hpp'],[('one object look-ahead','handler/endtime.hpp')],state=[('pending objects','last object of each type not yet passed on','handler/endtime.hpp')])
p('C17','A history extract holds exactly the versions valid in the requested period',
 'For every history and period, exactly those versions are kept that are valid at some moment of the period, where a version is valid from its timestamp up to but not including that of the next version; a version valid only before or after is dropped, and for a single moment at most one version of each object is kept. (Versions replaced within the same second may be kept or dropped.)',
 ['histories','inputs'],'all streams of a few versions with arbitrary timestamps and all periods',
 'The boundary cases (equal timestamps, version starting at the period end) depend on exact times.',
 ['handler/range_from_history.hpp','handler/endtime.hpp'],[('period test','handler/range_from_history.hpp')])
p('C18','Relation assembly finds every member and completes each relation once',
 'For every set of relations and every stream of objects, a relation of interest is reported complete exactly once, when its last wanted member has been seen, and each member then delivered in it is the object with the type and id the relation names at that position. Relations with missing members are never reported complete, and objects that are not members are never attached.',
 ['inputs','histories'],'all small relation sets with shared, repeated and missing members; all orders of members in the stream',
 'The tests have no assembler case with shared, duplicated or missing members.',
 ['relations/assembler.hpp','relations/relation_info.hpp'],[('member bookkeeping','relations/assembler.hpp'),('completion test','relations/relation_info.hpp')],state=[('needed member count','members still to be found','relations/relation_info.hpp')])
p('C19','The object store keeps every object and merges streams in order',
 'Every distinct object put into the store is later delivered exactly once, in sorted order, and putting the same object twice keeps one. Applying the store to a sorted stream delivers every object of the stream and every stored object exactly once and in sorted order, for all three types, also when a type occurs only in the store.',
 ['inputs','histories'],'all small sets of stored objects and all sorted streams with arbitrary ids and versions',
 'Only the example program uses this; interleavings of ids between store and stream are unbounded.',
 ['storage/objectstore.hpp','osm/object.hpp'],[('ordered sets','storage/objectstore.hpp'),('merge on callback','storage/objectstore.hpp')])
p('C20','XML output describes exactly the objects written and is well formed',
 'For every sequence of objects, every element that is opened is closed in the right nesting, each object element carries that object\'s id, metadata, coordinates, node references, members and tags and nothing else. Change files put each object into the create, modify or delete section its state calls for, and plain files contain no sections. If any part of the document can not be written, the caller is told.',
 ['inputs','configurations'],'all short object sequences with arbitrary metadata, for plain, history and change files',
 'No test writes XML; section switching depends on the neighbouring objects.',
 ['output/xml.hpp'],[('element writing','output/xml.hpp'),('change sections','output/xml.hpp')],state=[('last operation','open change section','output/xml.hpp')])
p('C21','The XML reader turns any element sequence into the right objects or an error',
 'For every well-formed document the objects delivered are exactly those the elements describe: attributes, tags, node references, members, change sections (objects in a delete section are not visible) and bounds. A document with unexpected elements or nesting is either read with those parts ignored or rejected with an error; it never crashes the reader or changes other objects.',
 ['inputs'],'all element sequences up to a small depth and length over known and unknown element and attribute names',
 'No test parses XML; nesting combinations are unbounded.',
 ['input/xml.hpp'],[('element state machine','input/xml.hpp')],state=[('context','element being parsed','input/xml.hpp')])
p('C22','Every id-indexed store behaves like a map from id to last stored value',
 'For every sequence of operations, reading an id gives the value last stored for it (for the sorted vector: ids stored in ascending order), and clearing empties the store; in the stores that know which ids were set, an id never stored reads as the empty value. Growing the store, in memory or in a file, never loses or mixes up values, and destroying a store, also a cleared or failed one, is safe and closes its file.',
 ['histories','inputs','fault_sequences'],'all operation sequences of a few steps with arbitrary ids and values, including system-call failures when growing',
 'Tests cover only a fixed store/read sequence; growth boundaries, duplicates and failed allocations are not reached.',
 ['storage/byid.hpp','storage/byid/fixed_array.hpp','storage/byid/mmap_anon.hpp','storage/byid/mmap_file.hpp','storage/byid/sparse_table.hpp','storage/byid/stl_map.hpp','storage/byid/vector.hpp'],[('lookup and growth','storage/byid/mmap_anon.hpp'),('binary search','storage/byid/vector.hpp')])
p('C23','Way nodes get the coordinates of the node they refer to',
 'After all nodes have been seen, every node reference of a way carries the coordinates of the last node seen with that id, whether the id is positive or negative; a reference to an unknown node stays without coordinates. The rest of the way is unchanged.',
 ['inputs','histories'],'all small sets of nodes and ways with arbitrary positive and negative ids and coordinates',
 'The tests use fixed positive ids only.',
 ['handler/coordinates_for_ways.hpp'],[('positive and negative id stores','handler/coordinates_for_ways.hpp')])
p('C24','Tag filters decide by the first matching rule',
 'For every list of rules and every tag, the result of a filter is that of the first rule that matches the tag, or the default if none does; filtered iteration visits exactly the accepted tags in order. Looking up a key in a tag list returns the value of that key or the default.',
 ['inputs','configurations'],'all short rule lists (key, key and value) over arbitrary short strings, all short tag lists',
 'Rule order interactions and wildcard rules are sampled by a few fixed lists.',
 ['tags/key_filter.hpp','tags/key_value_filter.hpp','utils/filter_and_accumulate.hpp','osm/tag_list.hpp'],[('rule matching','tags/key_filter.hpp'),('rule matching','tags/key_value_filter.hpp')])
p('C25','Tags exported as one string can be told apart again',
 'For every tag list, the exported hstore text parses back, by the rules of that format, to exactly the same keys and values in the same order, whatever characters they contain.',
 ['inputs'],'all tag lists of up to two tags with strings of a few arbitrary bytes',
 'Escaping tests use a few strings; quoting errors need particular adjacent characters.',
 ['tags/to_string.hpp'],[('escaping','tags/to_string.hpp')])
p('C26','A file name determines file type and encoding as documented',
 'For every file name, the suffix (everything after the first dot of the last path component) selects file kind and encoding if it is one of the documented ones, and otherwise the documented default is kept, whatever the directories are called. Explicitly set types override it, and the name without its suffix is the original name minus only that suffix.',
 ['inputs'],'all paths up to a few components and suffixes over an alphabet with dots and slashes',
 'Tests list fixed names; dots in directories and repeated suffixes are not covered.',
 ['osmfile.hpp'],[('suffix table','osmfile.hpp'),('name without suffix','osmfile.hpp')])
p('C27','Opening and closing files leaks nothing and reports failures',
 'Whatever system call fails while a file or its helper process is opened or closed, the failure is reported, every descriptor opened is closed at most once and none stays open, and a helper process that was started is waited for exactly once. After a reported failure the object can be destroyed safely.',
 ['fault_sequences'],'all single and double failures of open, pipe, fork, dup, close and wait calls; all helper exit statuses',
 'Tests never make system calls fail.',
 ['osmfile.hpp'],[('open/close for input and output','osmfile.hpp'),('helper process','osmfile.hpp')],state=[('descriptor and child id','what must still be released','osmfile.hpp')])
p('C28','All geometry formats describe the same points',
 'For every point, line string and polygon made from positions, the binary, hexadecimal and text forms contain the same geometry type and the same coordinates in the same order, in the layout their format specifies. Reversing a line or polygon reverses the order in every format.',
 ['inputs','configurations'],'all geometries of up to a few points with arbitrary coordinates, with and without reference system, forward and reverse',
 'Tests compare fixed coordinates and never compare formats with each other.',
 ['geometry.hpp','geometry/point.hpp','geometry/linestring.hpp','geometry/polygon.hpp','geometry/multipolygon.hpp','geometry/ogr_multipolygon.hpp'],[('WKB encoding','geometry.hpp'),('reverse iteration','geometry/linestring.hpp')])
p('C29','Geometry is made from a way only when the way supports it',
 'For every way, a polygon is made exactly when the way is closed, otherwise the documented error is raised; exported lines and polygons are made only from at least two different positions, and ways whose nodes carry no positions are refused. The geometry always describes the positions of the way nodes, and no way, however short or degenerate, causes undefined behaviour.',
 ['inputs'],'all ways of zero to a few nodes with arbitrary positions, defined or not',
 'Empty and single-node ways and undefined positions are not tested for each geometry.',
 ['geometry/from_way.hpp','geometry/linestring.hpp','geometry/polygon.hpp','geometry/point.hpp','osm/way_node_list.hpp'],[('precondition checks','geometry/from_way.hpp'),('closed test','osm/way_node_list.hpp')])
p('C30','Area ids map one-to-one to way and relation ids',
 'Every area id identifies exactly one source object: the original type and id can be recovered from it, and areas made from different ways or relations never share an id. An area has the metadata and tags of its source. Copying or assigning an area keeps its id and attributes, also while it has no geometry.',
 ['inputs'],'all way and relation ids, positive and negative, between -2^62 and 2^62',
 'Only single values could be tested, and the header does not compile with the packaged geometry library, so nothing tests it today.',
 ['osm/area.hpp'],[('id mapping','osm/area.hpp')])
p('C31','Shapefile attributes are cut only at character boundaries and never overrun',
 'A text attribute longer than its field is shortened to the longest prefix of whole characters that fits; shorter ones are stored unchanged. No field width or text makes the exporter touch memory outside its buffers, and output is split into a new file before the size limit is passed.',
 ['inputs'],'all texts of a few arbitrary bytes and all small field widths',
 'The exporter is not covered by any test; cutting errors need multi-byte characters at the exact boundary.',
 ['export/shapefile.hpp'],[('truncation','export/shapefile.hpp'),('file size check','export/shapefile.hpp')])
p('C32','Timestamps convert to text and back without change',
 'Every timestamp from 1970 to the end of the supported range formats to the documented ISO text, and parsing that text gives the same timestamp; anything that is not in this form is rejected.',
 ['inputs'],'all 32-bit timestamps and all texts of the right length',
 'Tests convert a few literals.',
 ['utils/timestamp.hpp'],[('format and parse','utils/timestamp.hpp')])
p('C33','Object attributes read from text are stored faithfully or rejected',
 'Setting an attribute from its textual name and value stores exactly that value in exactly that attribute, unknown names change nothing, and a user or role name longer than the documented maximum is rejected without adding anything. Tags, node references and members keep their order and content.',
 ['inputs'],'all attribute names and numeric texts of a few bytes; user and role lengths up to and beyond the limit',
 'Tests set a few attributes; length limits and prefix names are not covered.',
 ['osm/object.hpp','osm/node.hpp','osm/relation_member.hpp','osm/relation_member_list.hpp'],[('attribute dispatch','osm/object.hpp'),('length limits','osm/object.hpp')])
p('C34','Geographic distance is symmetric, never negative, and that of the sphere',
 'For all pairs of coordinates the computed distance is a finite non-negative number, the same in both directions, zero for identical points and at most half the circumference; near pairs of known points it is the distance on the sphere, and the length of a way is the sum of its segments.',
 ['inputs'],'all pairs of valid coordinates',
 'Fixed examples only; near-antipodal rounding is not sampled.',
 ['geometry/haversine.hpp'],[('haversine formula','geometry/haversine.hpp')])
p('C35','Multipolygon assembly uses every member way once and builds closed rings',
 'For every relation whose member ways form closed rings, one area is made that belongs to the relation, is as new as its newest part and uses each way exactly once and whole: every ring is closed, rings inside of an even number of others are outer rings and clockwise, every other ring is a counterclockwise hole of the ring directly around it. Ways with open ends make no area unless repair was asked for, which only adds connections between open ends. The area keeps the tags of the relation and takes those of outer ways as documented; an inner way with meaningful tags of its own makes an area of its own. Closed ways in no multipolygon or boundary relation make an area of their own. Whatever the geometry library answers, nothing is used after being freed, and nothing is lost.',
 ['inputs','faults'],'all ways in which up to four ways can meet, all nestings of up to five rings, all combinations of kinds of tags, arbitrary answers of the geometry library',
 'No test covers it, and the code does not compile with the packaged geometry library; the check uses a stand-in for it.',
 ['multipolygon/builder.hpp','multipolygon/assembler.hpp'],[('ring building','multipolygon/builder.hpp'),('nesting of rings','multipolygon/builder.hpp'),('tags of areas','multipolygon/builder.hpp'),('areas from ways','multipolygon/assembler.hpp')])
p('C36','JavaScript handlers see the same data as native handlers',
 'For every node, way, relation and area, the properties visible to scripts (id, version, time, user, tags, nodes, members, rings, positions, geometry as text) equal the attributes, tags, nodes, members and geometry of the object; tags and indexes that do not exist are undefined and read nothing outside of the object. Text passes through script encoding and back unchanged up to the documented maximum length; text that is malformed or too long is refused, never cut or written past its buffer. Geometries made for a script are freed when it drops them. A script callback runs exactly when the script defines it and the native handler of that name runs, on the same object. What a script writes to CSV files and shapefiles is what it passed: texts separated by tabs, and per field the value of the attribute of that name (text cut to the most whole characters that fit, null where there is none); geometries that do not fit the file add nothing and the script is told.',
 ['inputs'],'all ids and attributes, all short texts of characters of every length, malformed ones included, every index in and behind lists',
 'Nothing tests the script bindings.',
 ['javascript/unicode.hpp','javascript/wrapper/osm.hpp','javascript/wrapper/geometry.hpp','javascript/template.hpp','javascript/handler.hpp','javascript/wrapper/export_csv.hpp','javascript/wrapper/export_shapefile.hpp','export/csv.hpp'],[('wrapping of objects','javascript/wrapper/osm.hpp'),('text to and from scripts','javascript/unicode.hpp'),('geometry for scripts','javascript/wrapper/geometry.hpp'),('script callbacks','javascript/handler.hpp'),('files written by scripts','javascript/wrapper/export_shapefile.hpp')])
p('C37','Delta coding is lossless',
 'For every sequence of numbers, decoding the differences produced by the encoder restores the sequence, and clearing the encoder makes the next difference relative to zero.',
 ['inputs','histories'],'all short sequences of arbitrary 32- and 64-bit numbers including extreme values',
 'Tests use a few small numbers.',
 ['utils/delta.hpp','output/pbf.hpp'],[('delta encoder and decoder','utils/delta.hpp')],state=[('last value','reference of the next difference','utils/delta.hpp')])
p('C38','Files are read and written in the encoding they ask for',
 'For every file name or explicitly set encoding, reading uses the parser and writing the writer for that encoding, every object passes through once and unchanged, and the generator set on the writer is the one in the file. An encoding that is not available is refused before anything is opened. Whatever ends the reading or writing, including an error or an exception thrown by the handler, reaches the caller, every file opened is closed again and every helper process is waited for.',
 ['inputs','faults'],'all documented names and encodings, all short object streams, failures and exceptions at every callback',
 'Tests read one file per format and never with an exception on the way.',
 ['../osmium.hpp','output.hpp','input.hpp','output/xml.hpp','output/pbf.hpp'],[('choice of the parser','../osmium.hpp'),('factory and output handler','output.hpp')])
p('C39','Reporting handlers report the stream',
 'The debug handler writes exactly the callbacks and objects it was given, in their order, with every id, version, user, time, position, tag, node reference and member (visibility and end time exactly for data with several versions or if the handler was told to expect it). The progress handler shows exactly the numbers of nodes, ways and relations seen so far at every step and at the end, with averages that are never negative and equal the number of objects divided by the time in which they were read, whichever kinds are missing; it writes nothing to anything but a terminal.',
 ['inputs','histories'],'all attributes, all short texts, all combinations of missing kinds, clocks that stand still',
 'No test runs these handlers.',
 ['handler/debug.hpp','handler/progress.hpp'],[('debug report','handler/debug.hpp'),('progress report','handler/progress.hpp')],state=[('counts and times of the first objects','progress','handler/progress.hpp')])
P=json.loads(json.dumps(P).replace('include/osmium/../','include/'))
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P)); print(len(P))
