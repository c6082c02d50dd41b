#!/usr/bin/env python3
# Writes /verif/properties.jsonl (source of truth for the property texts).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

prop("C01", "All read streams behave like one in-memory byte array",
 "For any bytes and any sequence of reads, seeks, position and end-of-stream queries, a stream opened over a memory buffer, an owned or borrowed byte vector, a file path, a C file handle or a C++ stream returns exactly what a plain byte-array model with a cursor returns. Multi-byte numbers, vectors and matrices decode little-endian in file order, strings take exactly the requested length, and lines stop at a newline or NUL with the documented whitespace handling. A memory-backed stream ignores a seek that would leave its data, and no read ever touches memory outside the source.",
 ["inputs", "histories", "configurations"],
 "every byte content x every in-range operation sequence x every stream back end",
 "TestStream reads one fixed 60-byte file with one fixed sequence on each back end; mixed seek/read histories, end-of-stream positions and other contents are never reached.",
 ["src/Stream.cc", "include/zenkit/Stream.hh", "src/MmapPosix.cc"],
 [("Read and its back ends", "src/Stream.cc: detail::Read*"), ("typed readers", "src/Stream.cc: Read::read_*"), ("mapped files", "src/MmapPosix.cc")])

prop("C02", "All write streams produce exactly the bytes of a byte-array model",
 "For any sequence of typed writes, raw writes and in-range seeks, the bytes found in the destination (fixed buffer, growing vector, file path, C file handle or C++ stream) are exactly those of a plain byte-array model, and the reported position matches. Numbers, vectors and matrices are written little-endian in the order the matching read returns them, and a fixed-size destination is never written past its end. A chunk written around any nested content carries the exact payload length and leaves the cursor behind the payload.",
 ["inputs", "histories", "configurations"],
 "every operation sequence x every destination kind x every chunk nesting",
 "Existing tests only check whole-file saves of a few samples; overwriting, seeking, growing, bounded destinations and nested chunk back-patching are not sampled.",
 ["src/Stream.cc", "include/zenkit/Stream.hh"],
 [("Write and its back ends", "src/Stream.cc: detail::Write*"), ("chunk back-patching", "include/zenkit/Stream.hh: proto::write_chunk")])

prop("C03", "The virtual file system behaves like a case-insensitive tree",
 "After any history of creating directories, mounting files, directories and archives, and removing paths, resolving or finding a name returns exactly the node a case-insensitive reference tree predicts, or nothing, with the file's own bytes. Directory listings stay complete and free of duplicates, creating a directory creates its missing parents, mounting into a missing directory or a file is refused, lookups through a file or a missing directory yield nothing, and removal detaches exactly the named subtree.",
 ["histories", "inputs"],
 "every operation history over every set of names (any case, trailing blanks, separators)",
 "TestVfs performs one fixed history on one archive; name collisions by case, lookups through files, removals and re-mounts in other orders are not covered.",
 ["src/Vfs.cc", "include/zenkit/Vfs.hh", "src/Misc.cc"],
 [("tree of nodes", "src/Vfs.cc: VfsNode::create/child/remove, Vfs::mkdir/mount/remove/resolve/find"), ("name order", "src/Vfs.cc: VfsNodeComparator, src/Misc.cc: icompare/iequals")])

prop("C04", "Mounting over existing files obeys the chosen overwrite policy",
 "When a file or archive is mounted where a file of the same name (ignoring case) already exists, the surviving file is the one the policy selects: never replace, always replace, or replace depending on which of the two modification times is newer, for every order of mounts and at every depth. Directories of the same name are merged, so no other file appears, disappears or changes.",
 ["histories", "inputs", "configurations"],
 "every set of archives/trees with overlapping names and timestamps x every policy x every mount order",
 "The tests mount one archive with one policy; equal/older/newer timestamps, case-differing collisions and merged directories under each policy are not exercised.",
 ["src/Vfs.cc", "include/zenkit/Vfs.hh"],
 [("overwrite policy", "src/Vfs.cc: Vfs::mount(VfsNode, ...), VfsOverwriteBehavior")])

prop("C05", "A saved VDF archive mounts back to the same tree",
 "Saving any virtual file system tree as a disk archive for either game and mounting the result restores every directory (also empty ones), every file name and every file's exact bytes, at every depth. The archive carries the requested signature and timestamp, its entry and file counts match its contents, and its catalog is well-formed for an independent reader.",
 ["inputs", "histories", "configurations"],
 "every tree of directories and files (names up to the format's 64 characters, any bytes) x both game versions x timestamps",
 "The tests mount one sample archive and never write one back from generated trees (empty directories, empty files, deep or wide trees).",
 ["src/Vfs.cc", "include/zenkit/Vfs.hh"],
 [("catalog writer", "src/Vfs.cc: Vfs::save / write_catalog"), ("catalog reader", "src/Vfs.cc: Vfs::mount_disk / load_entry")])

prop("C06", "Mounting a host directory mirrors its files exactly",
 "Mounting a directory of the host file system at any path of the virtual tree makes every file below it resolvable, at the same relative path, with exactly the bytes on disk and its modification time, and adds nothing else.",
 ["inputs", "configurations"],
 "every host directory tree (names, nesting, sizes including empty files) x mount point x overwrite policy",
 "No test mounts a generated host tree; empty files, nested directories and modification times are unexplored.",
 ["src/Vfs.cc", "src/MmapPosix.cc"],
 [("host mount", "src/Vfs.cc: Vfs::mount_host"), ("file mapping", "src/MmapPosix.cc")])

prop("C07", "Archive entries read back exactly as written in all three encodings",
 "Any sequence of typed entries, nested objects and raw blocks written to an ASCII, binary or bin-safe archive is read back as the same sequence with the same values, object names, class names, versions and nesting, together with the archive's format, version, save-game flag and object count. ASCII floats may lose digits beyond the sixth decimal; every other value the encoding can hold (enumerations up to 255 in binary, strings without line breaks and NUL outside bin-safe, object names without blanks) is exact.",
 ["inputs", "histories", "configurations"],
 "every sequence of entry kinds and values x nesting x three encodings x save-game flag",
 "TestArchive reads fixed samples and writes none of the edge values (extreme integers, empty strings, empty raw blocks, long or many-keyed archives).",
 ["src/Archive.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc", "include/zenkit/Archive.hh"],
 [("writers", "src/archive/Archive*.cc: WriteArchive*"), ("readers", "src/archive/Archive*.cc: ReadArchive*"), ("header", "src/Archive.cc: ArchiveHeader")])

prop("C08", "Object references, sharing and nulls survive archiving",
 "Objects written once and referred to again come back as one shared object per original, never duplicated or confused with another, null references come back null, and the order and nesting of objects is preserved, in every archive encoding. Skipping an object at any position leaves the reader exactly behind it, so everything that follows reads as if the object had been read; later references to an object that was skipped come back null.",
 ["inputs", "histories", "configurations"],
 "every object graph with sharing and nulls x every subset of skipped objects x three encodings",
 "Samples contain few references and skipping is only exercised on one fixed object; arbitrary sharing patterns and skip points are not.",
 ["src/Archive.cc", "src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinary.cc", "src/archive/ArchiveBinsafe.cc"],
 [("reference cache", "src/Archive.cc: ReadArchive::read_object, WriteArchive::write_object/write_ref"), ("skip", "src/archive/Archive*.cc: skip_object")])

prop("C09", "Misread archive entries raise an error instead of yielding garbage",
 "In the two self-describing encodings (ASCII and bin-safe), reading an entry as an incompatible type (the integer kinds share one type in ASCII, raw and float blocks may be longer than asked for), reading past the last entry, reading an object boundary where there is none, or reading an ASCII value which has too few numbers, no number at all or raw digits which are not hexadecimal raises the library's parser error. It never returns a value silently and never crashes.",
 ["inputs", "histories"],
 "every pair of written type and requested type, at every position of every archive",
 "Only matching reads are tested.",
 ["src/archive/ArchiveAscii.cc", "src/archive/ArchiveBinsafe.cc"],
 [("type checks", "ArchiveAscii.cc: read_entry, ArchiveBinsafe.cc: ensure_entry_meta")])

prop("C10", "Every world-object class round-trips through every archive encoding",
 "For every serialisable object class, filling every persistent field with any value of its domain, saving it for Gothic 1 or Gothic 2 in ASCII, binary or bin-safe form (as world data or save game) and loading it back yields an object of the same class with equal fields, including its attached visual, AI and event-manager objects. Float fields may lose digits beyond the sixth decimal in ASCII only (float lists kept as text keep six significant digits everywhere), and loading consumes exactly what was saved.",
 ["inputs", "configurations"],
 "every object class x field values x game version x encoding x packed/unpacked x world/save mode",
 "The tests load one sample per class and compare a save of the same sample; they only see the field values of those files and mostly one encoding.",
 ["src/vobs/*.cc", "src/Object.cc", "src/Material.cc", "src/CutsceneLibrary.cc"],
 [("per-class load/save", "src/vobs/*.cc"), ("packed base object data", "src/vobs/VirtualObject.cc"), ("object factory", "src/Archive.cc: ReadArchive::read_object")])

prop("C11", "Saved objects keep the engine's entry names, types and order",
 "Loading an archive written by the original game, changing field values arbitrarily and saving it as ASCII produces, for each object, the same class names and versions and the same sequence of entry names and entry types as the original file, so the game's name-checked readers accept it. Unchanged files reproduce the original values as well.",
 ["inputs", "configurations"],
 "every original object file x every assignment of field values",
 "The library's own reader ignores entry names, so its round-trip tests cannot notice a wrong or missing name.",
 ["src/vobs/*.cc", "src/archive/ArchiveAscii.cc"],
 [("entry names in save()", "src/vobs/*.cc: *::save")])

prop("C12", "Worlds round-trip with mesh, BSP tree, objects and way net",
 "Saving any world (static mesh, BSP tree, object tree, way net, and in save games the NPCs, spawns and sky state) for either game and loading it back reproduces the object hierarchy in order, every way point and edge, the mesh and the BSP structure with the same leaf polygons. The game version of world files (not save games) is detected from the file itself when not given. Way points which no edge mentions stay free points. Objects of unknown classes are left out together with their children, unknown sections are passed over, and the rest of the world loads as it would without them. The size stored before the mesh and BSP tree is theirs.",
 ["inputs", "configurations"],
 "every object forest, way net graph, BSP tree and mesh x game version x encoding x save mode",
 "TestWorld only loads two sample worlds; generated hierarchies, way-net graphs and BSP shapes are never saved and reloaded.",
 ["src/World.cc", "src/world/BspTree.cc", "src/world/VobTree.cc", "src/world/WayNet.cc"],
 [("World::load/save", "src/World.cc"), ("BSP", "src/world/BspTree.cc"), ("object tree", "src/world/VobTree.cc"), ("way net", "src/world/WayNet.cc")])

prop("C13", "Save games round-trip: metadata, script state, quests, thumbnail, worlds",
 "Writing a save game for either game into a directory and opening it again returns equal metadata, symbol values, guild attitudes, dialogue knowledge, log topics and quest data, the thumbnail if one was set, and each stored world (symbols of Gothic 1 saves have a single value). Saving again over an existing save leaves only the new state.",
 ["inputs", "histories", "configurations"],
 "every save state content x game version x with/without thumbnail x repeated saves",
 "TestSaveGame re-saves two sample saves; other symbol/log/quest contents, missing thumbnails and overwriting are not covered.",
 ["src/SaveGame.cc", "include/zenkit/SaveGame.hh"],
 [("SaveGame::load/save", "src/SaveGame.cc"), ("SaveState/SaveMetadata", "src/SaveGame.cc")])

prop("C14", "Cutscene libraries round-trip and look up exactly by name",
 "A cutscene library saved and loaded in any encoding contains the same blocks, ordered by their (distinct) names, with the same dialogue message contents. Looking up a name returns the block with exactly that name, and nothing when no block has it.",
 ["inputs", "configurations"],
 "every set of block names (any order, prefixes of one another) and queries x encodings",
 "The test looks up a few existing names of one sample; absent names and generated libraries are not tried.",
 ["src/CutsceneLibrary.cc"],
 [("lookup", "src/CutsceneLibrary.cc: CutsceneLibrary::block_by_name"), ("load/save", "src/CutsceneLibrary.cc")])

prop("C15", "World meshes round-trip and triangulate faithfully",
 "Saving any mesh (materials, vertices, features, polygons with flags and any vertex count, lightmaps with shared textures, bounding boxes) for either game and loading it returns equal data. Triangulating a leaf-polygon set yields exactly the fan triangles, material, lightmap and flags of the visible polygons in that set, and an oriented box tree's axis-aligned box encloses it.",
 ["inputs", "configurations"],
 "every mesh content, leaf set and box tree x game version",
 "No test saves a mesh; triangulation is only seen through sample worlds.",
 ["src/Mesh.cc", "src/Material.cc", "src/Boxes.cc", "src/Texture.cc"],
 [("Mesh::load/save/triangulate", "src/Mesh.cc"), ("OrientedBoundingBox", "src/Boxes.cc")])

prop("C16", "Model assets round-trip: hierarchies, meshes, soft skins, fonts",
 "Saving any model hierarchy, multi-resolution mesh, soft-skin mesh, model mesh with attachments, complete model or font, for either game, and loading it again yields equal data: nodes and transforms, positions, normals, sub-meshes with their materials, weights, attachments by name, checksums, boxes and glyphs (names fit on one line; there is one weight list per position). In a saved mesh, every block of data lies where the table of the mesh says.",
 ["inputs", "configurations"],
 "every content of each asset type x game version",
 "The tests load a handful of samples and save only hierarchies and fonts.",
 ["src/MultiResolutionMesh.cc", "src/SoftSkinMesh.cc", "src/ModelMesh.cc", "src/Model.cc", "src/ModelHierarchy.cc", "src/Font.cc"],
 [("asset load/save", "src/{MultiResolutionMesh,SoftSkinMesh,ModelMesh,Model,ModelHierarchy,Font}.cc")])

prop("C17", "Animations and morph meshes decode exactly as the format specifies",
 "For any animation or morph-mesh file laid out as the documented format, every header field, event, node index, source record and morph channel is returned as stored, each sample position equals its quantised value scaled and offset, and each sample rotation is the documented unit quaternion.",
 ["inputs"],
 "every field value and every quantised sample",
 "The tests read three sample files and spot-check a few values.",
 ["src/ModelAnimation.cc", "src/MorphMesh.cc"],
 [("sample decoding", "src/ModelAnimation.cc: read_sample_*"), ("channels", "src/MorphMesh.cc")])

prop("C18", "Chunked files tolerate unknown chunks and surplus chunk data",
 "For every chunk-structured file (meshes, BSP trees, models, animations, morph meshes, binary model scripts), inserting chunks of unknown type or appending surplus bytes inside any fixed-content chunk, with correct lengths, does not change what is loaded.",
 ["inputs"],
 "every valid file x every chunk boundary x every unknown type and payload",
 "Sample files contain no unknown or oversized chunks.",
 ["include/zenkit/Stream.hh", "src/Mesh.cc", "src/ModelHierarchy.cc", "src/ModelAnimation.cc", "src/ModelScript.cc", "src/MorphMesh.cc", "src/ModelMesh.cc"],
 [("chunk loop", "include/zenkit/Stream.hh: proto::read_chunked")])

prop("C19", "Textures keep their pixels through load, save, build and conversion",
 "Loading and saving a texture of any format, size and mipmap count is lossless, and each mipmap level has the size its level implies. Converting any level of a supported format to RGBA yields for every pixel the colour its encoding denotes; building a texture from pixel data in one format into another and reading it back as RGBA yields the same pixels up to the target's precision; the exported DDS holds the same dimensions, level count and pixel data, largest level first.",
 ["inputs", "configurations"],
 "every supported format x dimensions (non-square, non-power-of-two, 1-pixel) x mipmap counts x pixel data",
 "One DXT1 sample texture is tested.",
 ["src/Texture.cc", "src/addon/texcvt.cc"],
 [("pixel conversion", "src/Texture.cc: _ztex_to_rgba/_ztex_from_rgba"), ("mip chain", "src/Texture.cc: _ztex_mipmap_size, Texture::load/save, TextureBuilder"), ("DDS", "src/addon/texcvt.cc")])

prop("C20", "Text and compiled model scripts parse to the described animations",
 "A model script, given as text or in compiled form, yields exactly the skeleton, meshes, animations, aliases, blends, combinations, disabled animations and model tags it describes, with all their parameters and events in order. Names are kept as the documentation describes them; the compiled form has no attachment flag and the text form no speed and ground-sound range. In text, letter case of keywords, whitespace, comments, parentheses, semicolons, optional braces and defaulted trailing parameters make no difference.",
 ["inputs", "programs"],
 "every script built from the grammar x both encodings x every layout variation",
 "Two sample scripts are parsed.",
 ["src/ModelScript.cc", "src/ModelScriptDsl.cc"],
 [("text parser", "src/ModelScriptDsl.cc"), ("binary parser", "src/ModelScript.cc: parse_binary_script")])

prop("C21", "Compiled scripts load every symbol and every lookup finds it",
 "Loading any well-formed compiled script exposes each symbol's name, type, flags, counts, source position, parent, address and initial values exactly as stored, and each instruction decodes as encoded. Lookup by index, by name (ignoring case), by address, enumeration of instances of a class, and a function's parameters and locals return exactly the symbols the file defines, and nothing for absent keys. Symbol names are unique and upper-case, and a prototype precedes what is built from it. Making an array symbol longer keeps its values, the new ones are zero or empty; symbols which hold no values cannot be made longer.",
 ["inputs", "programs"],
 "every symbol table and code section",
 "The script tests need proprietary game data and are limited to a few symbols; here they are skipped or tiny.",
 ["src/DaedalusScript.cc", "include/zenkit/DaedalusScript.hh"],
 [("symbol loader", "src/DaedalusScript.cc: DaedalusSymbol::load"), ("lookup tables", "src/DaedalusScript.cc: find_*"), ("decoder", "DaedalusInstruction::decode")])

prop("C22", "The script VM computes what the Daedalus program means",
 "Running any well-formed compiled program (integer, float and string variables and arrays, arithmetic, comparison, logic and bit operations, assignments, branches, loops, nested and recursive calls with parameters and returns) leaves all variables, return values and the sequence of external calls with their arguments exactly as a reference interpreter of the source program predicts. Integer arithmetic wraps to 32 bits (shifts by 0 to 31), division by zero raises a script error, and no program result depends on earlier calls other than through script variables.",
 ["programs", "histories"],
 "every generated program x arguments x repeated calls on the same VM",
 "No test executes script code.",
 ["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh", "src/DaedalusScript.cc"],
 [("interpreter loop", "src/DaedalusVm.cc: DaedalusVm::exec"), ("calls", "src/DaedalusVm.cc: push_call/pop_call"), ("temporary strings", "src/DaedalusVm.cc: push_string/get_free_string")])

prop("C23", "Host/script calls are type-checked, balanced and recover from errors",
 "Registered externals and overrides receive exactly the arguments the script passed, in order, and their results reach the script; mismatched signatures, arguments or return types are rejected with a script error before any code runs. After every completed call - also when a routine left surplus or missing stack values, an external is unregistered, or an error was handled by continuing or returning - the evaluation stack, call chain, current instance and program position are those of the caller; a call that fails with an error restores them as well, and no byte code can do worse than raise a script error.",
 ["programs", "histories", "fault_sequences"],
 "every signature x argument values x faults raised at any external call or instruction x each recovery strategy",
 "No test registers externals or exercises error recovery.",
 ["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh"],
 [("externals", "include/zenkit/DaedalusVm.hh: register_external/override_function/pop_values_for_external"), ("recovery", "src/DaedalusVm.cc: exec catch block, StackGuard, pop_call")])

prop("C24", "Script instances hold their own members and restore globals",
 "For host classes bound to one script class each, initialising an instance runs its prototypes and body against that instance, so that each member read from script or host - registered host-class member, array element or opaque storage - returns the last value written to that member of that instance and no other. Afterwards the current instance and the global self are what they were before, and accesses with a wrong type, index, missing or foreign instance, or to constants raise script errors and change nothing.",
 ["programs", "histories"],
 "every class layout x instances x interleaved member reads and writes from both sides",
 "No test initialises an instance.",
 ["src/DaedalusVm.cc", "include/zenkit/DaedalusVm.hh", "src/DaedalusScript.cc", "include/zenkit/DaedalusScript.hh", "src/addon/daedalus.cc"],
 [("instances", "DaedalusVm.hh: init_instance/allocate_instance; DaedalusScript.cc: register_as_opaque, DaedalusOpaqueInstance"), ("member access", "DaedalusScript.hh: get_member_ptr")])

prop("C25", "Damaged disk archives are rejected or mounted without harm",
 "Mounting any byte sequence as a disk archive - in particular a valid archive that was truncated or had bytes changed - either succeeds or raises a library error, in bounded time, and never reads outside the data. Every file that is mounted from it can be read completely.",
 ["inputs", "fault_sequences"],
 "every truncation and corruption of every archive",
 "Only an intact archive is mounted.",
 ["src/Vfs.cc"],
 [("catalog reader", "src/Vfs.cc: Vfs::mount_disk / load_entry")])

prop("C26", "Damaged object archives are rejected or loaded without harm",
 "Loading any truncated or corrupted ASCII, binary or bin-safe archive of objects, a world, a cutscene library or a save game either succeeds or raises a library error, in bounded time and memory, without reading or writing outside its data, and what was loaded can be used and saved again. Only the nesting depth is assumed to be moderate.",
 ["inputs", "fault_sequences"],
 "every truncation and corruption of every archive in every encoding",
 "Only intact samples are loaded.",
 ["src/Archive.cc", "src/archive/*.cc", "src/vobs/*.cc", "src/World.cc"],
 [("archive readers", "src/archive/*.cc"), ("object loaders", "src/vobs/*.cc")])

prop("C27", "Damaged asset and script files are rejected or loaded without harm",
 "Loading any truncated or corrupted texture, font, mesh, model, animation, morph mesh, model script or compiled script either succeeds or raises a library error, in bounded time and memory, without reading or writing outside its data, and what was loaded can be used. Only the nesting depth is assumed to be moderate.",
 ["inputs", "fault_sequences"],
 "every truncation and corruption of every asset file",
 "Only intact samples are loaded.",
 ["src/Texture.cc", "src/Font.cc", "src/Mesh.cc", "src/MultiResolutionMesh.cc", "src/SoftSkinMesh.cc", "src/ModelMesh.cc", "src/ModelHierarchy.cc", "src/ModelAnimation.cc", "src/MorphMesh.cc", "src/ModelScript.cc", "src/ModelScriptDsl.cc", "src/DaedalusScript.cc"],
 [("asset loaders", "src/*.cc: *::load")])

prop("C28", "Value types behave by component",
 "For vectors, quaternions, colours and matrices of any values, index, pointer and named component denote the same element, assigning one leaves the others alone, scaling and products work by component, and transposition moves element (i,j) to (j,i). These types and all record types with an == operator (vertices, polygons, glyphs, samples, events) compare equal exactly when all their components do. Names compare equal ignoring ASCII case only, under one strict order that agrees with it. The axis-aligned box of an oriented box is the smallest one enclosing its corners.",
 ["inputs"],
 "every value of every component",
 "Tests compare a handful of loaded values with == itself.",
 ["include/zenkit/Misc.hh", "src/Misc.cc", "src/Boxes.cc", "include/zenkit/Mesh.hh", "include/zenkit/Font.hh", "include/zenkit/ModelAnimation.hh"],
 [("value types", "include/zenkit/Misc.hh: Vec2/Vec3/Vec4/Quat/Color/Mat3/Mat4"), ("names", "src/Misc.cc: iequals/icompare"), ("boxes", "src/Boxes.cc: OrientedBoundingBox::as_bbox")])

prop("C29", "The log delivers exactly the enabled messages and never influences results",
 "At every moment exactly the messages at or above the importance last chosen reach the sink last set, each once, in order, with its level, component and formatted text (cut after about 4000 characters); no sink, no message. Whatever sink and level are set, loading any intact or damaged file gives the same result, and nothing is written to the standard streams unless the default sink was chosen.",
 ["inputs", "histories"],
 "every history of sink and level changes and messages; every file",
 "Logging is never observed by a test.",
 ["src/Logger.cc", "include/zenkit/Logger.hh", "src/Internal.hh"],
 [("logger", "src/Logger.cc: Logger::log/set/set_default")])

prop("C30", "What is loaded depends on the file alone",
 "Loading the same bytes - intact or damaged, an asset, script, object archive, world or save game - always gives the same outcome: the same error, or objects with the same value in every field and the same bytes when saved again (but for the date in headers). Neither the previous contents of memory, nor files loaded before, nor addresses have any influence, and for an intact file neither has the kind of stream it is read from: fields which the file leaves out have a fixed default, and data missing at the end of a file never turn into leftovers.",
 ["inputs", "histories", "fault_sequences"],
 "every file x every prior state of the process",
 "A test loads a file once in a fresh process and never looks at fields the file leaves out.",
 ["src/*.cc", "src/archive/*.cc", "src/vobs/*.cc", "src/world/*.cc", "include/zenkit/*.hh", "include/zenkit/vobs/*.hh"],
 [("loaders", "src/*.cc: *::load"), ("typed reads at the end of data", "src/Stream.cc"), ("default values", "include/zenkit/**/*.hh")])

prop("C31", "Threads do not influence each other",
 "Threads which each use objects of their own - loading assets, reading and writing archives and worlds, mounting and saving disks, running scripts - get exactly what each of them gets alone: the same values, saved bytes, errors and log messages. The same is true for several threads which only read one object: look up and open files in one Vfs, or look at and save one loaded texture, mesh, script or object. No such use contains a data race, and messages logged by several threads arrive whole, each once.",
 ["schedules", "inputs"],
 "every set of operations on separate objects, or reading operations on one object x every schedule",
 "Tests run in one thread; hidden shared state (static buffers, unsynchronised counts in const functions) never shows.",
 ["src/*.cc", "src/archive/*.cc", "src/Logger.cc", "src/Vfs.cc", "include/zenkit/Vfs.hh"],
 [("reference counts of file contents", "src/Vfs.cc: VfsFileDescriptor"), ("log messages", "src/Logger.cc: Logger::logv"), ("static state of parsers and writers", "src/archive/*.cc"), ("time zone conversion", "src/Misc.cc: local_time")])

prop("C32", "Compressed VDF archives hold the same files as uncompressed ones",
 "With compressed archives enabled in the build, any tree saved compressed and mounted again lists the same directories and files with the same contents, as an uncompressed archive does; files of every size, empty ones included, and sounds (.wav, .ogg, stored as they are). The catalogue holds uncompressed sizes, and every other file is a ZippedStream whose blocks inflate to its contents. Archives of other tools load whatever their block size. A file opened from such an archive can be read and sought in any order, also several times at once, like any other. A damaged archive is rejected or read in part, never outside its bounds. (A file stored as it is must not look like a ZippedStream.)",
 ["inputs", "histories"],
 "every tree of files x block size x compression x sequence of reads and seeks x damage",
 "The option is off in the tested build and no test uses it.",
 ["src/Stream.cc", "src/Vfs.cc", "include/zenkit/Vfs.hh", "include/zenkit/Stream.hh"],
 [("compressed streams", "src/Stream.cc: ReadZipped"), ("writer", "src/Vfs.cc: vfs_write_zipped, save_internal"), ("loader", "src/Vfs.cc: mount_disk, VfsNode::open_read")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
