prop('C01', 'Archived objects load every field from the entry their game version stores',
     'Loading any kind of archived object (world objects, visuals, triggers, zones, NPCs, materials, way nets, cut-scenes, whole worlds) reads exactly the entries that '
     'the archive layout of that class defines for the given game version and for save-games, in order and with the right type, and stores each one in the member it belongs to. '
     'No entry is skipped, read twice, read under the wrong condition, or stored in or derived into the wrong member.',
     I + ['configurations'], 'every object class x game version x save-game flag x every sequence of entry values, including optional sub-objects and empty lists',
     'The tests load a few sample worlds and a handful of objects; most classes, the save-game paths and most values of the discriminating fields never occur in them.',
     ['src/vobs', 'src/Material.cc', 'src/World.cc', 'src/world/WayNet.cc', 'src/CutsceneLibrary.cc', 'src/SaveGame.cc', 'src/Object.cc'],
     [('load member functions of every Object subclass', 'src/vobs/*.cc'), ('packed object data', 'src/vobs/VirtualObject.cc VirtualObject::load'), ('world composite', 'src/World.cc World::load')])
prop('C02', 'Saved archive objects are written in the layout their loader reads',
     'Saving any archived object writes, for the given game version and archive kind, the entries of its layout in order, with the entry names and types its loader expects, and with the values of the object\'s own members. '
     'Loading what was saved therefore restores the members that were saved.',
     I + ['configurations'], 'every object class x game version x save-game flag x every member valuation',
     'Save support is tested for few classes and with one valuation each; a transposed, missing or wrongly typed entry in any other class or branch goes unnoticed.',
     ['src/vobs', 'src/Material.cc', 'src/World.cc', 'src/world/WayNet.cc', 'src/CutsceneLibrary.cc', 'src/SaveGame.cc'],
     [('save member functions of every Object subclass', 'src/vobs/*.cc'), ('packed object data', 'src/vobs/VirtualObject.cc VirtualObject::save')])
prop('C03', 'Binary assets decode exactly as their chunked formats define',
     'Loading a font, mesh, BSP tree, multi-resolution mesh, morph mesh, soft-skin mesh, model, hierarchy, animation, texture or bounding box reads the fields of its format in the defined order, width and number for the file\'s version, '
     'stores each in the member it describes, ignores chunks it does not know, and continues after each chunk at the position the chunk header gives.',
     I + ['configurations'], 'every input byte sequence and version of every supported asset format',
     'The tests decode one or two sample files per format; other versions, optional sections, counts and flag combinations are never reached.',
     ['src/Mesh.cc', 'src/world/BspTree.cc', 'src/MultiResolutionMesh.cc', 'src/MorphMesh.cc', 'src/SoftSkinMesh.cc', 'src/Model*.cc', 'src/Font.cc', 'src/Texture.cc', 'src/Boxes.cc', 'include/zenkit/Stream.hh'],
     [('asset loaders', 'src/*.cc ::load'), ('chunk walker', 'include/zenkit/Stream.hh proto::read_chunked')])
prop('C04', 'Saved binary assets are written in the layout their loader reads',
     'Saving a font, mesh, BSP tree, multi-resolution mesh, morph mesh, model, hierarchy, animation, texture or bounding box writes the chunks, counts, offsets and fields of its format in order from the object\'s own members, '
     'so that the corresponding loader finds every section where the header says it is and restores the same data.',
     I + ['configurations'], 'every asset value and every supported game version',
     'Round trips are tested on single sample files; other versions, empty lists and optional sections are not.',
     ['src/Mesh.cc', 'src/world/BspTree.cc', 'src/MultiResolutionMesh.cc', 'src/MorphMesh.cc', 'src/SoftSkinMesh.cc', 'src/Model*.cc', 'src/Font.cc', 'src/Texture.cc', 'src/Boxes.cc'],
     [('asset writers', 'src/*.cc ::save'), ('chunk writer', 'include/zenkit/Stream.hh proto::write_chunk')])
prop('C05', 'ASCII archives: typed entries are read and written faithfully',
     'For ASCII archives, each typed read returns the value of the next entry exactly when its type tag is the expected one and reports a parse error otherwise, object begin and end markers (names, class, version, index) are recognised exactly, '
     'skipping an object consumes it with all nested objects, and each typed write emits name, tag and value in the form the reader of the same kind accepts, with correct nesting and object counts in the header.',
     I + ['histories'], 'every sequence of read or write calls on every archive text',
     'Tests read one sample archive per format with one value per type; tag mismatches, nesting histories and boundary values are not explored.',
     ['src/archive/ArchiveAscii.cc', 'src/Archive.cc'], [('ReadArchiveAscii', 'src/archive/ArchiveAscii.cc'), ('WriteArchiveAscii', 'src/archive/ArchiveAscii.cc')])
prop('C06', 'Binary archives: entries and object frames are read and written faithfully',
     'For binary archives, each typed read consumes exactly the bytes of its type and returns their value, object frames carry size, version, index, name and class, the end of an object is recognised exactly at the offset its frame gives, '
     'skipping goes to that offset, and each write emits the same bytes with the frame\'s size and the header\'s object count filled in afterwards.',
     I + ['histories'], 'every sequence of read or write calls on every archive',
     'One sample archive with one value per type is tested; nesting and skip histories are not.',
     ['src/archive/ArchiveBinary.cc', 'src/Archive.cc'], [('ReadArchiveBinary', 'src/archive/ArchiveBinary.cc'), ('WriteArchiveBinary', 'src/archive/ArchiveBinary.cc')])
prop('C07', 'BinSafe archives: typed, keyed entries are read and written faithfully',
     'For BinSafe archives, each typed read checks the entry\'s type (and size where it matters), consumes exactly the entry and returns its value or reports a parse error, entry names resolve through the hash table, object markers are recognised without consuming other entries, '
     'skipping consumes whole objects with their children, and each write emits key, tag, size and value so that the reader accepts it and the trailing hash table names every key.',
     I + ['histories'], 'every sequence of read or write calls on every archive',
     'One sample archive with one value per type is tested; type mismatches, key collisions and skip histories are not.',
     ['src/archive/ArchiveBinsafe.cc', 'src/Archive.cc'], [('ReadArchiveBinsafe', 'src/archive/ArchiveBinsafe.cc'), ('WriteArchiveBinsafe', 'src/archive/ArchiveBinsafe.cc')])
prop('C08', 'Streams read and write little-endian values, in bounds, at the right position',
     'On every kind of stream (memory, file, standard stream, fixed or growing buffer), reading or writing a value of a given width moves exactly that many bytes in little-endian order, text lines stop at the terminator, position, seek (from start, current position or end), end-of-file and byte counts agree with the data, '
     'and memory streams never access bytes outside their buffer.',
     I + ['histories'], 'every sequence of stream operations with any sizes and positions on any stream',
     'Tests exercise a few operations on short buffers; boundary positions, whence values and partial reads are not covered.',
     ['src/Stream.cc', 'include/zenkit/Stream.hh'], [('Read and Write base classes', 'src/Stream.cc'), ('ReadMemory, WriteDynamic, WriteStatic', 'src/Stream.cc')])
prop('C09', 'Compiled scripts: symbols and instructions decode and resolve exactly',
     'Loading a compiled script yields every symbol with its name, type, flags, dimensions, parent, offsets and constant values as stored and every instruction with the operand its opcode carries and its exact size; '
     'look-ups by name (case-insensitive), index, address and instance, parameter and local enumeration and class-member queries return the matching symbols only. '
     'Typed access to a symbol checks constness, type, array index and context before it reads or writes.',
     I + ['programs', 'histories'], 'every compiled script and every query or access on it',
     'Tests load one or two scripts and check a few symbols; most symbol kinds, opcodes and illegal accesses are not exercised.',
     ['src/DaedalusScript.cc', 'include/zenkit/DaedalusScript.hh'], [('symbol and instruction decoding', 'src/DaedalusScript.cc'), ('typed symbol access', 'src/DaedalusScript.cc DaedalusSymbol::get_*/set_*')])
prop('C10', 'The script VM executes every opcode with its defined effect',
     'For every instruction the virtual machine pops its operands in the right order and type, computes the defined result, pushes or stores it in the right place, and moves the program counter to the next instruction or the branch target; '
     'calls, returns, jumps, instance changes, access traps, overrides and external calls leave the operand and call stacks as the script language defines. '
     'Stack accessors return what was pushed, in last-in-first-out order and by type.',
     ['programs', 'histories'], 'every instruction in every machine state (stack contents, symbol values, flags)',
     'The tests run a few small script functions; most opcodes and operand orders are never executed.',
     ['src/DaedalusVm.cc', 'include/zenkit/DaedalusVm.hh'], [('instruction dispatch', 'src/DaedalusVm.cc DaedalusVm::exec'), ('operand stack', 'src/DaedalusVm.cc push_*/pop_*')])
prop('C12', 'Host and script functions call each other with checked, ordered arguments',
     'Registering an external or overriding a script function accepts a callback exactly when the symbol exists and is (or is not) external, and its return type, number of parameters and parameter types match the script declaration, and reports the mismatch otherwise; '
     'when the script calls it, the callback receives the arguments in declaration order with their own values and types (instances only of the expected class), and its result is what the script receives. '
     'Calling a script function from the host checks the same way, passes the arguments in order, returns the function\'s result and leaves nothing of the call behind; creating an instance binds it to its symbol, runs its initialiser with it as current and self instance and restores both afterwards. '
     'Default externals consume the arguments of the call they stand in for and supply a neutral result.',
     ['programs', 'histories'], 'every symbol declaration, callback signature out of the supported parameter and return types, and machine state',
     'Tests register a few externals with one signature each; mismatching declarations, mixed parameter types and state restoration are not exercised.',
     ['include/zenkit/DaedalusVm.hh', 'src/DaedalusVm.cc'], [('register_external, override_function, call_function, init_instance', 'include/zenkit/DaedalusVm.hh'), ('default external, opaque instances', 'src/DaedalusVm.cc')])
prop('C13', 'The virtual file system resolves, merges and removes by case-insensitive path',
     'Paths resolve component by component without regard to case (and to surrounding separators), mounting merges directories and lets the chosen overwrite policy (none, all, newer, older) decide for files, created directories and removed nodes appear in or vanish from every later look-up, '
     'and searching by name finds a node anywhere in the tree. Node kinds, names, times and contents are those of what was mounted.',
     ['histories', 'inputs'], 'every history of mount, create, remove, resolve and find calls on every tree',
     'Tests use one fixed tree and a few paths; policies, name clashes between files and directories, and deep or odd paths are not covered.',
     ['src/Vfs.cc', 'include/zenkit/Vfs.hh'], [('node container and comparator', 'src/Vfs.cc VfsNode'), ('mount, resolve, find', 'src/Vfs.cc Vfs')])
prop('C14', 'Disk archives mount and save with exact offsets, names, times and flags',
     'Mounting a disk archive yields exactly the directories and files of its catalogue, with trimmed names, the archive\'s time stamp and content equal to the byte range the catalogue gives, and rejects archives with a wrong signature or layout; '
     'saving writes a catalogue whose indices, offsets, sizes, flags and padding describe the written data so that mounting it again yields the same tree.',
     I, 'every disk archive and every tree',
     'Tests mount and save one sample archive.',
     ['src/Vfs.cc'], [('catalogue reader', 'src/Vfs.cc Vfs::mount_disk'), ('catalogue writer', 'src/Vfs.cc Vfs::save')])
prop('C15', 'Stored objects are constructed as the class their archive names, once',
     'Reading an object from any archive constructs the class that the stored class name denotes (every known class, each with its own type identity), loads it, and leaves the archive positioned after the object even when the class is unknown or has surplus entries; '
     'references to an earlier object yield that same object, empty objects yield nothing, and asking for a specific class rejects every other. '
     'Writing emits the class name and the version identifier of the object\'s class and game version, and references for objects already written; archive headers select the matching reader and round-trip their fields.',
     I + ['configurations', 'histories'], 'every class name, object graph, game version and archive header',
     'Few class names and no shared object graphs occur in the sample archives.',
     ['src/Archive.cc', 'include/zenkit/Archive.hh', 'include/zenkit/vobs'], [('class-name table and construction', 'src/Archive.cc ReadArchive::read_object'), ('object and version identity', 'get_object_type, get_version_identifier of all classes')])
prop('C16', 'Textures: formats, mipmaps and conversions keep size and pixel layout',
     'For every pixel format, loading, building, converting and exporting textures uses the format\'s exact byte size for each mipmap level, returns level data in the right order (largest is level 0), maps channels and palettes to the right positions, and rejects unsupported formats and wrong buffer sizes; '
     'exported DDS headers describe the data that follows them.',
     I + ['configurations'], 'every format, dimension, mipmap count and pixel value (block-compression arithmetic itself is delegated to the codec library)',
     'Tests decode one or two samples per format; odd sizes, single levels and many conversions are not covered.',
     ['src/Texture.cc', 'src/addon/texcvt.cc'], [('size, mipmap and conversion routines', 'src/Texture.cc'), ('DDS export', 'src/addon/texcvt.cc')])
prop('C17', 'Model scripts parse to the same commands from text and from binary form',
     'Parsing a model script, from source text or compiled chunks, produces for every command one entry of the right kind with each argument, flag, default and optional part in its own place, recognises keywords without regard to case, ignores comments and disabled or unknown parts, and reports a syntax error for anything else.',
     I, 'every model script, with any subset of optional arguments and any order of commands',
     'Two sample scripts are tested; optional arguments, defaults and many event kinds do not occur in both forms.',
     ['src/ModelScript.cc', 'src/ModelScriptDsl.cc'], [('binary chunk parser', 'src/ModelScript.cc'), ('tokenizer and parser', 'src/ModelScriptDsl.cc')])
prop('C19', 'Script class members bind to the right native fields',
     'Registering the built-in script classes binds every script member name to the native member that represents it, with matching type and array extent, so that scripts and host read and write the same datum; no two script members share one native field and none is bound to another member\'s field.',
     ['configurations', 'programs'], 'every script class and member of both games',
     'Tests check a few members of a few instances.',
     ['src/addon/daedalus.cc', 'include/zenkit/addon/daedalus.hh'], [('register_ functions', 'src/addon/daedalus.cc')])
prop('C25', 'Save-games keep their metadata, state, worlds and thumbnail together',
     'Saving a game writes each part (metadata, script state, current world, thumbnail and, separately, each visited world) to its own file of the save directory in the format its loader reads, and loading reads each part back from the same file, for both games; '
     'a world is found by its name without regard to case and extension.',
     I + ['configurations', 'histories'], 'every save-game content, game version and directory',
     'One or two sample save-games are read; writing and missing parts are barely covered.',
     ['src/SaveGame.cc', 'include/zenkit/SaveGame.hh'], [('SaveGame, SaveState, SaveMetadata', 'src/SaveGame.cc')])
prop('C26', 'Cut-scene libraries find exactly the block that was asked for',
     'Looking up a block by name returns the block with that name if the library contains one and nothing otherwise, and a block\'s message can be read and replaced without disturbing the rest.',
     I + ['histories'], 'every library (any set and order of block names) and every name',
     'Tests look up a few names in one library.',
     ['src/CutsceneLibrary.cc'], [('block_by_name', 'src/CutsceneLibrary.cc')])
prop('C27', 'Geometry, colour and matrix helpers compute what they name',
     'Vector, quaternion, matrix, colour and bounding-box helpers (construction, identity, indexing, comparison, transposition, conversion and enclosing box) return the mathematically defined result for every operand and touch no other component.',
     I, 'every operand value',
     'Tests use them incidentally with one or two values.',
     ['include/zenkit/Misc.hh', 'src/Misc.cc', 'src/Boxes.cc', 'include/zenkit/Boxes.hh'], [('value types', 'include/zenkit/Misc.hh'), ('boxes', 'src/Boxes.cc')])
prop('C24', 'Owners of memory, files and mappings acquire and release them exactly once',
     'Constructing, copying, moving and destroying memory mappings, virtual-file descriptors, streams, archive readers and writers, script instances and the virtual machine establishes their initial state from the constructor arguments, '
     'acquires each resource once, releases it exactly when its last owner goes away, on the failing paths too, and never releases what is only borrowed. Copies of a file descriptor share one reference count.',
     ['histories', 'inputs', 'crash_points'], 'every history of construction, copy, move, failure and destruction',
     'Leaks, double releases and failing system calls leave no trace in the existing tests.',
     ['src/MmapPosix.cc', 'src/Vfs.cc', 'src/Stream.cc', 'src/DaedalusScript.cc', 'src/DaedalusVm.cc', 'src/Archive.cc', 'src/archive'], [('memory mapping', 'src/MmapPosix.cc'), ('file descriptor reference count', 'src/Vfs.cc VfsFileDescriptor'), ('owned streams', 'src/Stream.cc')])
prop('C28', 'Value types compare by all their parts and flag sets combine bitwise',
     'Equality of glyphs, polygon flags, animation samples, trigger targets and archive keys holds exactly when every compared part is equal, and combining or testing flags (animation, item, menu, NPC) acts on exactly the bits given.',
     I, 'every pair of values',
     'Tests compare a few values that are equal in all parts or differ in one.',
     ['src/Font.cc', 'src/Mesh.cc', 'src/ModelAnimation.cc', 'src/ModelScript.cc', 'include/zenkit/vobs/Trigger.hh', 'src/addon/daedalus.cc', 'src/archive/ArchiveBinsafe.hh'], [('equality operators', 'operator== of FontGlyph, PolygonFlagSet, AnimationSample, VTriggerList::Target'), ('flag operators', 'src/ModelScript.cc, src/addon/daedalus.cc')])
prop('C29', 'The older parse entry points do what the load functions do',
     'Every static parse function still offered for compatibility fills or returns exactly the object that the corresponding load function produces from the same input and game version, consuming the same input.',
     I + ['configurations'], 'every input and game version',
     'Most of these entry points are not called by any test.',
     ['src/vobs', 'src/Material.cc'], [('static parse functions', 'src/vobs/*.cc, src/Material.cc')])
prop('C30', 'Loaders terminate, with bounded memory, on every input',
     'Loading any byte sequence as any supported format ends after work and memory proportional to the length of the input, with a result or an exception.',
     I, 'every input byte sequence',
     'Tests load well-formed samples only.',
     ['src'], [('scans at the end of input', 'src/archive/ArchiveAscii.cc skip_object, src/World.cc chunk scan, src/ModelScriptDsl.cc tokenizer, src/Vfs.cc mount_disk')],
     claim=False, na='Termination and memory depend on counts, offsets and end-of-file positions that exist only at run time; no sound static bound is in reach, and several scans are known not to end at a premature end of file (DESIGN.md, unrepaired defects).')
prop('C31', 'Floating-point values survive the text form of ASCII archives',
     'A floating-point value written to an ASCII archive or to a textual material property and read again is the same value up to the documented number of digits.',
     I, 'every floating-point value',
     'Tests write a few values that print exactly.',
     ['src/archive/ArchiveAscii.cc', 'src/Material.cc'], [('float text', 'src/archive/ArchiveAscii.cc write_float')],
     claim=False, na='The guarantee is about the rounding of printf and of the C++ stream parser; the analysis treats both as opaque operations and checks only their operands and formats (C02, C05).')
prop('C32', 'Block-compressed textures decode to the pixels the DXT formats define',
     'Converting DXT1, DXT3 and DXT5 textures to RGBA yields the pixels the block formats define, and compressing does the inverse up to the codec loss.',
     I, 'every block',
     'Tests convert two sample textures.',
     ['src/Texture.cc', 'src/addon/texcvt.cc'], [('DXT codec', 'libsquish, called from src/Texture.cc and src/addon/texcvt.cc')],
     claim=False, na='The arithmetic is in libsquish, outside this repository; only that it is called with the right data, sizes and flags is checked (C16).')
