TODO = 'the contracts for this property are not written yet'
BASE = 'Assumes what the evidence file lists: mathematical integers, standard-library models, unconstrained externals.'

prop('C01', 'The fast pre-filter never hides code that an aspect would have matched',
     'Whenever an aspect\'s join point would match some node of a file, the cheap checks made beforehand on the package and on the file do not rule that package or file out. Combining join points with and, or and not keeps this guarantee.',
     ['inputs', 'programs', 'configurations'],
     'for every combination of join points (nested to any depth and of any arity), every package context and every file content',
     'The tests sample a few join points on a few contexts; the guarantee is about all compositions and all inputs.',
     ['internal/injector/aspect/may', 'internal/injector/aspect/join', 'internal/injector/injector.go'],
     [('three-valued match algebra', 'internal/injector/aspect/may/match.go'), ('package/file pre-filters', 'internal/injector/aspect/join/*.go')],
     claimed=True, note='Each connective and the composite join points are proved sound for any number of operands, against any sound operands. ' + BASE)

prop('C02', 'Different configurations never share a fingerprint text; equal ones always do',
     'Two join points, advice or other configuration values that differ in kind, in a value, in grouping or in the number of elements feed different text to the fingerprint hash (names and text being free of the three framing control characters), and equal ones feed equal text. The fingerprint of a map does not depend on iteration order, and computing a fingerprint does not disturb later ones.',
     ['inputs', 'configurations'], 'for all configuration values built from booleans, integers, text, lists, maps, join points and advice',
     'Tests compare a handful of fixed fingerprints; an ambiguity, or a field left out, only shows for particular pairs of values.',
     ['internal/fingerprint', 'internal/injector/aspect', 'internal/injector/typed'], [('framed hashing', 'internal/fingerprint/fingerprint.go'), ('value types', 'internal/fingerprint/types.go'), ('Hash methods', 'internal/injector/aspect/join/*.go, internal/injector/aspect/advice/*.go')],
     claimed=True, note='The framing is proved for any number of values and every flat join point and advice is proved injective; nested configurations are checked on generated pairs (bounded). ' + BASE)

prop('C03', 'Advice from several aspects applies in one deterministic order',
     'All advice that applies to a node is executed sorted by namespace, then by order number, then by position of definition, with missing values taken as the last namespace and order zero. The list is a permutation of the advice collected, whatever order it was collected in.',
     ['inputs', 'configurations'], 'for any number of pieces of advice with any namespaces, orders and positions',
     'Tests sort a few fixed lists.',
     ['internal/injector/aspect/advice/order.go'], [('comparison and stable sort', 'internal/injector/aspect/advice/order.go')], claimed=True, note='The comparison is proved a total order, the sort a sorted permutation for any list, and defaults are proved; the order in which advice is then executed on a node is checked on generated cases (bounded). ' + BASE)

prop('C04', 'Link-time dependency records never lose or weaken a dependency',
     'A set of link-time dependencies holds exactly the import paths added to it, each with the strongest kind ever added, independent of the order of additions. Writing the set and reading it back yields the same paths and kinds; merging the records of an import configuration keeps every dependency that the configuration does not already satisfy.',
     ['inputs', 'histories'], 'for every sequence of additions and every set of import paths',
     'Tests exercise a few fixed sequences and files.',
     ['internal/toolexec/aspect/linkdeps/linkdeps.go'], [('set with strongest kind', 'internal/toolexec/aspect/linkdeps/linkdeps.go')], claimed=True, note='Adding, merging order and listing are proved for any set; the written format and the merging of archives are checked on generated cases (bounded). ' + BASE)

prop('C05', 'Import configurations round-trip, and merging never overrides an entry',
     'Parsing an import configuration and writing it back preserves every package file, every import mapping and every line that is not understood. Merging another configuration adds exactly the package files that were missing, never changes an existing one, and reports whether it changed anything; looking up a package applies the import mapping before the package file.',
     ['inputs'], 'for all configuration contents',
     'Tests use a few fixed files.',
     ['internal/toolexec/importcfg'], [('parse, combine, write, lookup', 'internal/toolexec/importcfg/*.go')], claimed=True, note='Merging and looking up are proved for any maps; the file format is checked on generated files (bounded). ' + BASE)

prop('C06', 'Packages that must not be woven are recognised exactly, first rule wins',
     'The tool\'s own packages (other than its runtime) are never woven, and tracer packages only receive aspects marked safe for the tracer; a rule for a path applies to that path and, for tree rules, to the paths below it, but never to a path that merely shares the text prefix. Every other package is woven without restriction.',
     ['inputs'], 'for every import path',
     'Tests try a few paths; a wrong boundary only shows for particular paths.',
     ['internal/toolexec/aspect/specialcase.go', 'internal/toolexec/aspect/oncompile.go', 'internal/report/report.go'],
     [('ordered special cases', 'internal/toolexec/aspect/specialcase.go')], claimed=True, note='The override table and its use in the compile step are proved for every import path. ' + BASE)

prop('C13', 'Each compilation is done once, and every other request gets its outcome',
     'Of all requests to start compiling a package with a given build ID, exactly one is told to go ahead and receives a token; every other request is answered only once that compilation is finished, with its files if it succeeded and an error otherwise. Only the holder of the token can finish a compilation, its outcome never changes afterwards, and finishing without files or error counts as failure.',
     ['histories', 'schedules', 'inputs'], 'for every history of start and finish requests over any packages and build IDs, under any interleaving',
     'Tests run a few fixed histories; which request wins and what the others see depends on history and interleaving.',
     ['internal/jobserver/nbt'], [('cache keyed by package and build ID', 'internal/jobserver/nbt/nbt.go')],
     claimed=True, note='The protocol is proved for any packages, build IDs and tokens, one call at a time (atomics and maps modelled sequentially); longer histories and concurrent requests are run (bounded). ' + BASE)

prop('C14', 'The package dependency graph never contains a cycle',
     'Adding a dependency between two packages is refused exactly when it would close a cycle, and the refusal names a real chain of dependencies that closes it. A refused addition changes nothing; an accepted one adds just that dependency, and removing a dependency removes just that one.',
     ['histories', 'inputs'], 'for every sequence of additions and removals over any packages',
     'Tests build a few fixed graphs; a missed cycle needs a particular shape and hangs the build.',
     ['internal/jobserver/common/graph.go'], [('reachability before insertion', 'internal/jobserver/common/graph.go')],
     claimed=True, note='Search, insertion and removal are proved for any graph against the reachability relation; sequences are also run (bounded). ' + BASE)

prop('C15', 'A shared request is computed once and everyone receives the same answer',
     'For requests with the same key the underlying computation succeeds at most once and never runs twice at a time; every later requester receives that one result without computing it again. Requests with different keys never share a result, a failed computation is reported to its requester and not remembered.',
     ['histories', 'schedules', 'inputs'], 'for every history of requests with any keys, under any interleaving',
     'Tests use a few requests; sharing depends on keys, history and interleaving.',
     ['internal/jobserver/common/cache.go'], [('keyed once-cells', 'internal/jobserver/common/cache.go')],
     claimed=True, note='Proved for any keys and results, one call at a time (atomics and maps modelled sequentially); concurrent requests are run (bounded). ' + BASE)

prop('C10', 'Weaving edits the compiler command line only where it must',
     'The woven command differs from the original one only by the woven files, each in the place of its original, by a raised language level and by files added at the end; every other argument keeps its text and position. Replacing an argument or a flag that is not there is reported and changes nothing.',
     ['inputs', 'histories'], 'for every command line, every sequence of edits and every woven package',
     'Tests use a few fixed command lines and single edits.',
     ['internal/toolexec/proxy', 'internal/toolexec/aspect/oncompile.go'], [('command editing', 'internal/toolexec/proxy/proxy.go'), ('compile and link commands', 'internal/toolexec/proxy/compile.go, internal/toolexec/proxy/link.go'), ('weaving a compilation', 'internal/toolexec/aspect/oncompile.go')],
     claimed=True, note='Indexing and replacing arguments and selecting Go files are proved for any command; flag editing, histories of edits and whole weavings are checked on generated cases (bounded). ' + BASE)

prop('C11', 'The language level is high enough for woven code and is never lowered',
     'The language level given to the compiler is the highest of the original level and those required by the advice that was applied, levels being compared as versions; without an original level none is added. Levels of advice that was not applied have no effect.',
     ['inputs', 'programs', 'configurations'], 'for all levels, all kinds of advice and every woven package',
     'Tests check a few fixed pairs of levels.',
     ['internal/injector/aspect/context/golang.go', 'internal/injector/aspect/advice', 'internal/toolexec/proxy/compile.go'], [('raising the level', 'internal/injector/aspect/context/golang.go'), ('advice requirements', 'internal/injector/aspect/advice/*.go'), ('compiler flag', 'internal/toolexec/proxy/compile.go')],
     claimed=True, note='Raising and recording a level are proved for all levels; that every kind of advice records its level and that the compiler is given the result is checked on generated weavings (bounded). ' + BASE)

prop('C12', 'The linked program contains every package its woven code depends on',
     'Every link-time dependency recorded by any package in use, directly or through packages resolved for it, is resolved, added to the import configuration, and, when recorded as an import, imported by the main package. Existing entries are kept; in a test they are only replaced by the archive rebuilt for that very test, and never that of the package under test, while archives built for other tests are refused.',
     ['inputs', 'programs', 'configurations'], 'for every set of packages, recorded dependencies and resolved archives',
     'Tests link a few fixed programs; a lost dependency needs a particular shape of recorded dependencies and only shows when linking.',
     ['internal/toolexec/aspect/oncompile-main.go', 'internal/toolexec/aspect/onlink.go', 'internal/toolexec/aspect/resolve.go', 'internal/toolexec/aspect/oncompile.go'],
     [('main package imports', 'internal/toolexec/aspect/oncompile-main.go'), ('link step', 'internal/toolexec/aspect/onlink.go')],
     claimed=True, note='Merging archives, refusing foreign test archives and choosing the stronger kind are proved for any import configuration; whole main-package and link steps are checked on generated cases with canned answers of the package resolver (bounded). ' + BASE)

prop('C17', 'A package filter selects exactly the packages its pattern describes',
     'A filter pattern is matched segment by segment against the whole import path: "*" and "?" never cross a "/", and "**" stands for any number of segments, also when text is attached to it. A filter for the root module selects only packages of that module, never one that merely shares the text prefix, and matches its pattern against the path within the module; a malformed pattern selects nothing, and the check made beforehand on the package agrees.',
     ['inputs', 'configurations'], 'for every pattern and every import path',
     'Tests try a few patterns on a few paths; a wrong match needs a particular pair.',
     ['internal/injector/aspect/join/package.go'], [('glob matching', 'internal/injector/aspect/join/package.go')],
     claimed=True, note='Matching segments, delimiting the root module and agreeing with the pre-filter are proved for any pattern and path; splitting "**" off text and the syntax within a segment are checked on generated pairs (bounded). ' + BASE)

prop('C16', 'Code keeps its source positions through weaving',
     'Whatever is compiled in place of a source file in standard format, every piece of the original code is reported at the file and line where it was written, also when a leading line directive names another file (as coverage does). Injected code is reported as generated, never at a line of an original file.',
     ['programs', 'configurations'], 'for every source file in standard format and every combination of advice',
     'Tests compare a few woven files with stored copies; a shifted line needs a particular combination of layout and advice.',
     ['internal/injector/lineinfo', 'internal/injector/parse', 'internal/injector/postprocess.go', 'internal/injector/write.go'],
     [('line directives', 'internal/injector/lineinfo/*.go'), ('leading directive', 'internal/injector/parse/mappedfilename.go'), ('directives at the start of lines', 'internal/injector/postprocess.go')],
     claimed=True, note='The parsing of positions is proved; the rest is bounded: packages drawn at random are woven by the real code and their positions compared. ' + BASE)

prop('C18', 'But for the injected code, a woven file is the program that was written',
     'Removing the injected code from a woven file leaves the declarations, statements, comments and compiler directives of the original file, in their order, with every reference to an imported package still meaning that package. Files to which no advice applies are compiled as they are.',
     ['programs', 'configurations'], 'for every source file, every form of imports and every combination of advice',
     'Tests compare a few woven files with stored copies.',
     ['internal/injector'],
     [('applying advice', 'internal/injector/injector.go'), ('imports', 'internal/injector/imports.go'), ('writing', 'internal/injector/write.go, internal/injector/postprocess.go')],
     claimed=True, level='exploration', note='Bounded, nothing is proved: packages drawn at random are woven and compiled by the real code, and compared token by token with what was written.')

prop('C07', 'Code marked to be ignored is left as it is, and only that',
     'A declaration, statement, expression or file preceded by the ignore directive (in its current or its legacy form, with or without a remark) is compiled exactly as written, with everything inside it. A comment that merely resembles the directive, or that follows code, changes nothing: code that is not marked is woven.',
     ['programs'], 'for every source file and every placement of comments',
     'Tests have one or two placements of the directive.',
     ['internal/injector/labels.go', 'internal/injector/injector.go'],
     [('recognizing the directive', 'internal/injector/labels.go'), ('not descending into marked code', 'internal/injector/injector.go')],
     claimed=True, note='Recognition of the directive is proved; that marked code is left alone, and nothing else, is bounded: packages drawn at random are woven by the real code. ' + BASE)

prop('C19', 'Every name in woven code means what its author meant',
     'Every package name in injected code refers to the package that its template gives for it, even where the file does not import that package, imports it under another name, or uses the name for something else. References in the original code keep referring to what they referred to, and the woven package compiles.',
     ['programs', 'configurations'], 'for every source file and every configuration of advice',
     'Tests have a few combinations of imports and advice.',
     ['internal/injector/imports.go', 'internal/injector/typed/refmap.go', 'internal/injector/aspect/advice'],
     [('imports of injected code', 'internal/injector/typed/refmap.go, internal/injector/aspect/advice/code/template.go'), ('one import for each package', 'internal/injector/imports.go')],
     claimed=True, level='exploration', note='Bounded, nothing is proved: packages drawn at random, with every form of import and shadowing, are woven by the real code, type-checked and compiled.')

prop('C08', 'Dependencies are built with the build flags of the go command that was run',
     'For every go command line and GOFLAGS, the flags passed on to builds of further packages are the build flags in effect for the command: each with its last value, whichever way it is spelled, and none that belongs to the program or the test that is run. Coverage applies to the same packages, and no command line makes parsing fail.',
     ['command lines'], 'for every go command line and every value of GOFLAGS',
     'Tests have about fifteen command lines.',
     ['internal/goflags'],
     [('parsing', 'internal/goflags/flags.go'), ('splitting GOFLAGS', 'internal/goflags/quoted/quoted.go')],
     claimed=True, note='Removal of flags, and that splitting never fails otherwise, are proved; parsing is bounded: command lines drawn at random are parsed by the real code and compared with what the flag package of Go makes of them. ' + BASE)

prop('C09', 'Wrapped commands run as they were given, and their outcome is reported',
     '`orchestrion go` runs the go command with the arguments given, in their order, in the directory that -C asks for, adding nothing but the tool that weaves, and that to every command that builds packages. Tools run by the build that weaving has nothing to do with run as they are. Either way the input, the output and the exit status are those of the command.',
     ['command lines', 'outcomes'], 'for every command line and every outcome of the command',
     'Tests run a few commands, most of which need a network.',
     ['internal/goproxy', 'internal/cmd/go.go', 'internal/cmd/toolexec.go', 'internal/toolexec/proxy'],
     [('the go command', 'internal/goproxy/proxy.go, internal/goproxy/dashc.go, internal/cmd/go.go'), ('tools', 'internal/cmd/toolexec.go, internal/toolexec/proxy/proxy.go')],
     claimed=True, level='exploration', note='Bounded, nothing is proved: command lines drawn at random are run by the real code with stand-ins for the go command and the tools, which record how they are run.')

prop('C20', 'The configuration is every aspect it reaches, once, in a fixed order',
     'Loading the configuration of a package yields every aspect of every document it reaches through imports of tool files and through extends, each exactly once however often and in however many ways it is reached, cycles included. The aspects of a document come after those of the documents it builds upon, in the order they are written. Configuration that cannot be read is an error, it is never left out.',
     ['configurations', 'failures'], 'for every arrangement of packages, tool files and documents, and every failure to read them',
     'Tests have three arrangements.',
     ['internal/injector/config'],
     [('tool files', 'internal/injector/config/config-go.go'), ('documents', 'internal/injector/config/config-yml.go'), ('loading once', 'internal/injector/config/config.go')],
     claimed=True, level='exploration', note='Bounded, nothing is proved: modules drawn at random, on disk, are loaded by the real code with a stand-in for the Go toolchain that lists packages.')

prop('C21', 'Functions are selected, and their parameters named, item by item as Go has them',
     'A function join point selects a function exactly when its name, receiver, and the type of each of its arguments and results are those asked for, no matter whether parameters are named, unnamed, blank, variadic or share one type. Templates get the name of exactly the argument, result or receiver they ask for, by position or by type, an error when there is none at that position, and nothing when none has that type. Naming parameters changes neither their types nor the names they have.',
     ['programs', 'configurations'], 'for every function and every join point and template that looks at it',
     'Tests have a few functions, nearly all of whose parameters have a type of their own.',
     ['internal/injector/aspect/join/function.go', 'internal/injector/typed/typename.go', 'internal/injector/aspect/advice/code/dot_function.go'],
     [('names of types', 'internal/injector/typed/typename.go'), ('join points', 'internal/injector/aspect/join/function.go'), ('templates', 'internal/injector/aspect/advice/code/dot_function.go')],
     claimed=True, note='That names of types match exactly the expressions that denote these types is proved; join points and templates are bounded: functions, join points and questions drawn at random are given to the real code. ' + BASE)

prop('C22', 'Directives are recognised exactly, and have the arguments that are written',
     'A directive join point selects what follows a comment that is the directive, alone or followed by blanks and arguments, and nothing that merely resembles it. Templates get the arguments of the nearest such directive: every one, in order, with its key and its value, whether the value is quoted or not and whatever it consists of. No text of a directive makes weaving fail.',
     ['programs'], 'for every comment and every place it is in',
     'Tests have some fifteen comments.',
     ['internal/injector/aspect/join/directive.go', 'internal/injector/aspect/advice/code/dot_directive.go'],
     [('recognizing directives', 'internal/injector/aspect/join/directive.go'), ('arguments', 'internal/injector/aspect/advice/code/dot_directive.go')],
     claimed=True, level='exploration', note='Bounded, nothing is proved: comments drawn at random are put in front of code, and given to the real code.')

prop('C23', 'Pinning adds what is missing, drops what is not needed, and keeps the rest',
     'After a module has been pinned, its tool file imports orchestrion, the default integrations, and every import it had that provides configuration, each once with its name and the comments above it; imports without configuration, or with configuration that is asked to be valid and is not, are gone unless pruning is off. It has the directive that repeats the pinning as it was asked for, or none, and the rest of the file is as it was. The go.mod file requires orchestrion at no older version and keeps its toolchain. Pinning again changes nothing but the remarks behind imports; a failure is reported, and leaves a valid file or the one there was.',
     ['modules', 'options', 'failures'], 'for every tool file, every set of options and every failure of the go command',
     'Tests have four modules, and need a network.',
     ['internal/pin'],
     [('the tool file', 'internal/pin/pin.go'), ('imports', 'internal/pin/importset.go'), ('the go.mod file', 'internal/pin/pin.go, internal/gomod/gomod.go')],
     claimed=True, level='exploration', note='Bounded, nothing is proved: modules drawn at random are pinned by the real code with stand-ins for the go command and for what lists packages.')
