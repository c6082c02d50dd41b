N = " Exploration of generated inputs: no guarantee beyond the cases run; trusts the harness' model, the compiler and the sanitizers."
T["C01"] = ("model-based testing of read histories on six back ends", "Stateful random histories compared step by step with a byte-array cursor model." + N)
T["C02"] = ("model-based testing of write histories on five sinks", "Stateful random histories incl. nested chunks, final bytes compared with a byte-array model." + N)
T["C03"] = ("stateful model-based testing of VFS histories", "Random mkdir/mount/remove/lookup histories against a case-insensitive reference tree." + N)
T["C04"] = ("model-based testing of mount sequences", "Overlapping trees and archives with generated timestamps mounted under every policy, compared with a reference merge." + N)
T["C05"] = ("round-trip and differential testing with an independent VDF reader", "Generated trees saved, re-parsed by an independent reader and mounted again." + N)
T["C06"] = ("round-trip testing of generated host directories", "Generated host trees in a scratch directory, mounted and compared." + N)
T["C25"] = ("mutation fuzzing of structured archives under AddressSanitizer", "Valid archives truncated/corrupted at random and at catalog fields; bounded time and memory safety are the oracle." + N)
T["C07"] = ("round-trip and differential testing of generated archives", "Generated entry sequences written by the library and by independent encoders, read back and compared." + N)
T["C08"] = ("model-based testing of generated object graphs", "Object graphs with sharing, nulls and skipped objects archived and compared with the generated graph." + N)
T["C09"] = ("negative testing over generated archives and mismatched reads", "Every generated mismatch of written and requested entry must raise ParserError." + N)
T["C10"] = ("round-trip testing of every object class with generated fields", "Random values for every persistent field, saved and loaded in all configurations, compared field by field." + N)
T["C11"] = ("metamorphic testing of original object files", "Original game objects with randomised fields re-saved; entry names, types and order compared with the original file." + N)
T["C12"] = ("round-trip testing of generated worlds", "Generated worlds saved and reloaded, plus worlds laid out by an independent encoder." + N)
T["C13"] = ("round-trip testing of generated save games", "Generated save states written to scratch directories and reopened." + N)
T["C14"] = ("round-trip and model-based lookup testing of generated libraries", "Generated libraries saved, loaded and queried against a map model." + N)
T["C15"] = ("round-trip and reference-model testing of generated meshes", "Generated meshes saved/loaded, independent encodings loaded, triangulation compared with a reference fan." + N)
T["C16"] = ("round-trip and differential testing of generated model assets", "Generated assets saved and loaded, and independently encoded files loaded." + N)
T["C17"] = ("differential testing against an independent encoder", "Generated animations and morph meshes laid out by an independent encoder and decoded." + N)
T["C18"] = ("metamorphic testing: unknown chunks and surplus bytes", "Generated chunked files with inserted unknown chunks must load as the original." + N)
T["C19"] = ("round-trip and reference-model testing of pixel data", "Generated textures in all formats against an independent pixel decoder." + N)
T["C20"] = ("grammar-based generation with a reference model", "Scripts printed from a generated model with layout noise must parse back to the model, text and binary." + N)
T["C21"] = ("differential testing with an independent script encoder", "Generated symbol tables and code encoded by the harness, loaded and queried against the model." + N)
T["C22"] = ("program generation against a reference interpreter", "Random programs compiled to bytecode by the harness and run by VM and reference interpreter." + N)
T["C23"] = ("stateful fault-injection testing of host/script calls", "Random signatures, calls, throwing externals and recovery strategies against a model of the call protocol." + N)
T["C24"] = ("model-based testing of instance histories", "Random class layouts and interleaved member accesses from script and host against a map model." + N)
T["C26"] = ("mutation fuzzing of object archives under AddressSanitizer", "Generated and sample archives damaged structurally; memory safety, bounded time and memory are the oracle." + N)
T["C27"] = ("mutation fuzzing of asset files under AddressSanitizer", "Generated and sample assets damaged structurally; memory safety, bounded time and memory are the oracle." + N)
T["C28"] = ("property-based testing against componentwise models", "Generated values of every value type against a list-of-components model; names against a folding model; boxes against a corner enumeration." + N)
T["C29"] = ("stateful model-based testing and metamorphic testing of the log", "Histories of sink/level changes and messages against a model; the same file loaded under different log settings must give the same result." + N)
T["C30"] = ("metamorphic testing: repeated loads in different surroundings", "Each generated file is loaded four times with fresh heap memory and stack filled with other bytes; all fields and re-saved bytes must agree." + N)
T["C31"] = ("concurrent property-based testing with a race detector", "Generated sets of jobs are run alone and then by threads at the same time, built with the thread sanitizer; every digest of values, bytes, errors and log messages must equal the one got alone, and no conflicting accesses may be reported." + N)
T["C32"] = ("round-trip and model-based testing of compressed archives, with fault injection", "Generated trees are saved compressed and decoded with an independent reader (zlib); independently encoded archives with any block size are mounted; files are read in random histories against a byte-array model; damaged archives are read under sanitizers. Built with the option on and zlib in place of miniz." + N)
