SX = "path-sensitive symbolic dataflow over SSA (value-flow outcome tables), no execution and no solver"
CFG = "control-flow and use-def analysis over SSA"
EFF = "escape and effect analysis over SSA"
NOTE = "Structural judgement over every path of the analysed functions; loops are summarised, calls into other packages are uninterpreted; the rule is necessary for the property and is decided for every input."

prop("P01", "Incomplete data never becomes a domain object",
     "Building a domain object (a block, transaction, receipt, ring, rule, token, AST node, program instruction, ...) from data that lacks a mandatory part, that gives an empty mandatory list or text, a zero where a positive amount is required, or none of the alternatives it must be made of, always returns an error and no object.",
     ["inputs"], "every builder and every combination of supplied, missing and empty parts, whatever the values",
     "the tests try one missing part at a time on a few builders with one fixed value",
     ["domain", "applications"], [("validation before construction", "Now() of every builder (163) in domain/** and applications/**")],
     SX + ": outcomes of Create, setters and Now for each supply of the parts", NOTE)

prop("P02", "Complete data always becomes a domain object",
     "When every mandatory part of an object is supplied, and one of its alternatives where it has some, building it succeeds whichever optional parts are given or left out; it is refused only for a documented inconsistency between its parts.",
     ["inputs"], "every builder and every combination of optional parts and alternatives, whatever the values",
     "the tests build each object with one or two combinations of its parts",
     ["domain", "applications"], [("selection of the constructor from what was supplied", "Now() of every builder in domain/** and applications/**")],
     SX + ": outcomes of Create, setters and Now for each supply of the parts", NOTE)

prop("P03", "An object reports exactly what it was built from",
     "After an object is built, each of its accessors returns the very value that was supplied for that part, and each of its predicates tells exactly whether that part or alternative was supplied. A part that was not supplied is reported as nothing: nil, zero or empty.",
     ["inputs"], "every builder, every combination of parts, every accessor and predicate of the object, whatever the values",
     "the tests read back one or two parts for one combination, so a part that is swapped or lost in another combination goes unnoticed",
     ["domain", "applications"], [("constructor variants and accessors", "createX...Internally and accessor methods of every domain package")],
     SX + ": accessors evaluated on the object of every successful outcome", NOTE)

prop("P04", "Objects built one after the other do not influence each other",
     "Starting a new object from a builder forgets everything given before, giving a part changes that part only, and no component keeps building on a builder that was not started afresh, so that what is built never depends on what was built earlier with the same builder.",
     ["histories"], "every sequence of builds on shared builders, adapters and applications",
     "each test creates its own builder and uses it once",
     ["domain", "applications"], [("fresh builder on Create", "Create() of every builder"), ("builders shared by adapters and applications", "NewBuilder, NewAdapter, NewApplication factories and their users")],
     SX + " for Create and the setters, " + CFG + " for the uses of shared builders", NOTE)

prop("P05", "Reading or using an object never changes it or what it was given",
     "Once built, an object never changes: its accessors, checks, searches and conversions write neither the object, nor the values it was built from, nor package-level state, nor the lists handed over by the caller. Only builders, and the documented caches of the parsing components, hold state that changes.",
     ["histories", "schedules"], "every call of every method on every object, in any order",
     "the tests call each method once on a fresh object and never look at its operands afterwards",
     ["domain", "applications"], [("values without mutation", "all methods outside builders")],
     EFF + ": every write is traced to the object it reaches", NOTE)

prop("P06", "Failures are reported, never dropped or turned into success",
     "An operation that fails because something it relies on failed reports an error: no error is dropped, ignored or replaced by a success, and a missing result always comes with an error unless its absence is a documented answer, in which case it is checked before it is used. The only exceptions are the searches that try their next candidate when one does not match.",
     ["inputs", "fault_sequences"], "every call that can fail, on every path that follows its failure",
     "the tests cover few failing inputs, and almost no failing dependency",
     ["domain", "applications"], [("error checks after each call", "all packages")],
     CFG + ": every error value is followed to the exits it decides", NOTE)

prop("P07", "The hash of an object commits to everything it was built from",
     "The hash of every hashed domain object (a block, chain, transaction and its content, address, secret, receipt, genesis, unit, identity, wallet part, ring, peer, rule, ...) depends on each of the parts it was given, and on every element of its lists: two objects of the same make-up that differ in the value of one part, or in one element of a list, do not share a hash, short of a collision of the hash function.",
     ["inputs"], "every object that has a hash, every combination of its parts, whatever the values and the lengths of the lists",
     "the tests build one object and read its hash, they never compare the hashes of objects that differ in one part",
     ["domain"], [("hash of the rows of an object", "hashAdapter.FromMultiBytes call of every builder in domain/**")],
     SX + ": the hash of every successful outcome is followed back to the rows and the parts they identify", NOTE + " The identity of signatures, keys and times is the one of their text or of their second; the hashtree is left to its own property.")

prop("P08", "Hashes are SHA-512, reversible as text, and equal only when identical",
     "Hashing bytes gives the SHA-512 of all of them, except for 64 bytes which already are a hash and are taken as they are; rows are hashed together with their lengths so that the boundaries between rows matter; the text of a hash is its hexadecimal form and gives the same hash back; text that is not hexadecimal is refused; two hashes compare equal exactly when all their 64 bytes do.",
     ["inputs"], "every input of every conversion of the hash package",
     "the tests hash one or two fixed inputs",
     ["domain/hash"], [("conversions", "adapter.FromBytes, FromMultiBytes, FromString, Hash.Bytes, Hash.String, Hash.Compare")],
     SX + ": the value of every exit is compared with its definition", NOTE)

DEF = "abstract interpretation of the SSA (path-sensitive value numbering, loops as recurrences) of the code and of a written definition, compared path by path; no execution and no solver"
DNOTE = "Every path of the listed functions is compared with its definition on the same symbolic arguments, loops as recurrences over the same collection; library calls (regexp, strings, strconv) are uninterpreted and compared by their arguments. Termination is not decided."
LX = "domain/languages/lexers/"

prop("P11", "Repetition counts accept exactly the amounts they denote",
     "In a grammar, ? accepts 0 or 1 occurrence, + at least 1, * any amount, {n} exactly n, {a,b} from a to b included and {a,} at least a, while no mark at all accepts exactly 1. Reading such a mark (surrounding spaces ignored) gives the repetition it denotes, malformed text is refused, and writing a repetition gives the text that denotes it.",
     ["inputs"], "every mark, every repetition and every amount",
     "the tests check a handful of amounts for each kind of repetition",
     [LX + "cardinality"], [("interval and validity", "cardinality.Delimiter, cardinality.IsValid, specific.Delimiter, specific.IsValid"), ("text", "adapter.ToCardinality, adapter.ToPatternString, specificAdapter.ToSpecific, specificAdapter.ToPatternString")],
     DEF, DNOTE)

prop("P12", "Patterns are read completely and match exactly what they describe",
     "Reading pattern definitions keeps every group, series and pattern in order, with the escaped quote as a quote and @ as reversal, and refuses a name that is not defined. Matching a text gives, of all the patterns, the one found earliest in it (the first listed on a tie): its series match one after the other, each group discovering the longest of its members that comes next and a reversed series all the text in front of its first group. The position, the discovered text, the remaining text and the group awaited next are those of that match.",
     ["inputs"], "every pattern definition and every text",
     "the tests read one definition and match it against a few short texts",
     [LX + "containers/patterns"], [("reading", "adapter.ToPatterns, findGroups, findSeries, findPatterns"), ("matching", "adapter.FromPatternsToResult, FromPatternToResult, FromGroupToResult, matchPattern, matchSerie, matchReversedSerie, matchesGroup")],
     DEF, DNOTE)

prop("P13", "Rules are read completely and mean what they say",
     "Reading rule definitions gives every rule, in order, with its name and its whole text as its code, or fails. A rule whose text names a pattern is that pattern, which must exist; otherwise it is the constant between its quotes, an escaped quote being a quote.",
     ["inputs"], "every text of rules and every set of patterns",
     "the tests read one list of rules",
     [LX + "containers/rules"], [("reading", "adapter.Rules, adapter.element, adapter.pattern")],
     DEF, DNOTE)

prop("P14", "Token definitions are read completely and mean what they say",
     "Reading token definitions gives every token, in order: the alternatives of its block separated by |, what it must not be after ---, its test lines after +++, and each line made of its tokens, rules and channel switches in order. Each element keeps its own repetition (exactly once when it has none) and its own specifiers; a rule, a cardinality or a section that is not well formed or does not exist makes reading fail.",
     ["inputs"], "every text of tokens and every set of rules",
     "the tests read one grammar and compare a few of its elements",
     [LX + "containers/tokens"], [("reading", "adapter.ToTokens, testSuite, block, lines, instructions, tokenElement, ruleElement, buildElement, tokenSpecifiers")],
     DEF, DNOTE)

prop("P15", "A text is matched against a grammar by fixed rules, from its start",
     "Of the alternatives of a token, the valid one that covers most text wins, the earliest on a tie; the elements of an alternative match one after the other, each on exactly what the previous one left, repeated as its cardinality allows, and the alternative stops at the first element that is invalid. Channels are skipped in front of an element only where they are active, in the order of their names; an element that may be absent is skipped, and at the end of the text the awaited element is reported. Matching a text does not depend on what was matched before.",
     ["inputs", "histories"], "every grammar (paths), every channel set and every text",
     "the tests match a few texts against small grammars",
     [LX + "asts/tokens"], [("matching", "adapter.ToToken, elementToTokenContent, bestLineToMatches, lineToMatches, containerToBlockMatch, containerToMatch, tokenPathToTokenResultMatches, ruleToRuleMatch, findMatchesInChannels")],
     DEF, DNOTE + " Index and length computations on strings are uninterpreted beyond prefix removal.")

prop("P16", "The validity and the text of a match follow from its parts",
     "Every node of a match tree is valid, exact, and covers a text as its parts say: a token is valid when what it must be is valid and what it must not be is absent or invalid, a list of matches when all its members are, a repetition when its amount satisfies its cardinality and its members and specifiers are valid; the text of a node is the concatenation of the texts of its parts in order. The amounts counted are those of the parts, channels included where the text includes them.",
     ["inputs"], "every match tree, at every node",
     "the tests check validity on a few trees, mostly valid ones",
     [LX + "asts/tokens"], [("predicates and text of the nodes", "IsValid, IsExact, Discoveries, Input, Amount, IsAmount, IsAtLeast of token, tokenContent, matches, blockMatch, match, tokenMatch, tokenResult, tokenResultMatches, ruleMatch, specifier, ...")],
     DEF, DNOTE)

prop("P17", "Parsing gives a mistake or a faithful tree, never both or neither",
     "Parsing a text gives either its first mistake or, when there is none, its tree; a text that has a mistake is never reported as a success. The tree has the name, the alternative chosen and the matches of every token in the order of the text, without what was skipped or did not occur, and the text of each token is the concatenation of the texts of its matches.",
     ["inputs"], "every text and every match tree",
     "the tests parse a few texts and look at one or two nodes of the tree",
     [LX + "asts"], [("verdict and tree", "adapter.ToAST, toToken, lineMatch, blockMatches, blockMatch, match, tokenMatch, ruleMatch, ruleResult; Token.Discovery, TokenMatch.Discoveries")],
     DEF, DNOTE)

prop("P18", "Mistakes are reported exactly when, where and why a text is wrong",
     "A text is reported as mistaken exactly when a token has no match, is what it must not be, occurs an amount of times that its cardinality or its specifiers refuse, awaits something at the end of the text, or has a prefix that is not allowed. The first such mistake in the order of the text is reported, with its kind and figures, the names of the tokens that contain it, and the line and column where the text read so far ends; nothing of an earlier text influences it.",
     ["inputs", "histories"], "every match tree, judged in any order by one adapter",
     "the tests provoke each kind of mistake once, at one position",
     [LX + "asts/mistakes"], [("judgement", "adapter.ToMistake, token, matches, blockMatch, match, tokenMatch, tokenResult, ruleMatch, patternResult, buildMistakeFromPath")],
     DEF, DNOTE)

prop("P19", "Names in a grammar are resolved to what they designate",
     "Resolving a token gives all its alternatives and what it must not be, in order: a rule element stands for that rule, a token element for the token of that name, a token that contains itself becomes a recursive reference, a replaced or referenced token stands for the one supplied for it, and a name that designates nothing makes the resolution fail. Cardinalities and specifiers are carried over unchanged, and all tokens resolved on the way are among the dependencies.",
     ["inputs"], "every grammar, with any references and replacements",
     "the tests resolve one or two small grammars",
     [LX + "asts/paths"], [("resolution", "adapter.ToPath, toElement, processLines, processLine, elementToContainer, tokenReferenceToTokenPath, buildSpecifiers")],
     DEF, DNOTE)

prop("P20", "Applying a rule to a text finds all its occurrences, and only them",
     "Applying a rule to a text gives, for a constant, its first occurrence and, for patterns, the matches that follow each other from the start of the text, up to the maximum of their cardinality; nothing else is found, and a rule that does not occur has no matches. The text of a result is the concatenation of the texts of its matches in order, and its amount is their number.",
     ["inputs"], "every rule and every text",
     "the tests apply a few rules to short texts",
     [LX + "asts/results"], [("conversion", "adapter.ToResult, Result.Content, Result.Amount, Matches.Content, Matches.Amount")],
     DEF, DNOTE)

prop("P21", "The simplified tree keeps every name and text, and finds them",
     "Simplifying a tree keeps, under each token, every rule and token that occurs in it, in order, grouped by name, each with all its occurrences and its whole text. Looking up a name under a tree gives the direct child that has it, or else the first that has it below the children, taken in the order of their names, and always the same one; it reports when there is none.",
     ["inputs"], "every tree and every name",
     "the tests look up a few names in one tree",
     [LX + "roots"], [("conversion", "adapter.ToRoot, toRoot, toRootWithCache"), ("look-ups", "Root.Scan, Nodes.Scan, Nodes.Fetch, Nodes.Exists, Nodes.Amount, Node.Scan, Containers.Scan, Container.Scan, Content")],
     DEF, DNOTE)

prop("P22", "Includes, references and replacements are read as written",
     "Reading the references of a language gives every include with its name and its two or three paths, every reference with its local name, its include and its remote token, and every replacement likewise, in order. A reference or a replacement to an include which is not declared, and an include that does not have two or three paths, make reading fail.",
     ["inputs"], "every text of references",
     "the tests read one list",
     [LX + "references", LX + "references/links"], [("reading", "adapter.ToReferences, includes, references, replacements")],
     DEF, DNOTE)

prop("P23", "A grammar's own tests are all run and judged by parsing",
     "Executing the test suites of a language runs every line of every token that has a suite, in order, and reports for each, with its own index, a success exactly when the token parses it, with the channels, references and replacements of the language.",
     ["inputs"], "every set of tokens, channels, references and suites",
     "the tests run one suite whose lines all succeed",
     [LX + "suites"], [("execution", "application.Execute, toSuite, toLine")],
     DEF, DNOTE)

prop("P24", "A language is assembled from all, and only, its own parts",
     "Parsing, resolving, testing or listing a language uses the patterns, rules, tokens and channels of its own resource, with the root token it names and its permissions for a prefix and a suffix. A token it references is the one that its include names, read from the files of that include under the base directories with the patterns of the including language, and known under its local name; a replacement declared by the language takes the place of the token of that name, on top of the replacements it was given; anything missing is an error.",
     ["inputs"], "every resource, with any references and replacements",
     "the tests assemble a few languages, and check only that they parse",
     ["applications/languages/lexers", LX + "resources"], [("assembly", "application.Root, AST, Path, Tokens, Tests, References, createRootToken, createTokens, createNotFoundAndReplacementFuncs, fetchReplacementPaths, fetchNotFoundPaths, linkToPathFromFile, replacePathElementName")],
     DEF, DNOTE)

prop("P25", "A tree is executed by the handlers of its names, all of them",
     "Executing a tree gives the result of the first handler of its name that succeeds, and fails when there is none. Triggering a name under a tree gives the results of all the occurrences that were found under that name, in order: the result of its handler for a token, its text for a rule; a single result is given as it is.",
     ["inputs"], "every tree, every set of handlers and every name",
     "the tests execute one tree with one or two handlers",
     ["applications/languages/parsers"], [("execution", "application.Execute, manager.Execute, manager.Trigger, executeEvents, executeEventList, fetchContentOrExecuteEvent, Result.IsSingle")],
     DEF, DNOTE)

prop("P26", "The same inputs always give the same results",
     "Outside the cryptography, the result of every operation is a function of its inputs and of the files it reads: it never depends on the order in which a map happens to be walked, on the time, on the environment, on chance, on memory addresses or on scheduling. The same text parsed twice gives the same tree, the same mistakes and the same lists in the same order.",
     ["schedules", "inputs"], "every operation, every run",
     "a test that runs an operation once cannot see that another run gives another result, and maps of one entry have a single order",
     ["domain", "applications"], [("order of the walks over maps", "range statements over maps in domain/languages/**"), ("no source of chance", "all packages outside domain/cryptography")],
     CFG + ": each walk over a map is judged order-insensitive or sorted before use, each call is judged against the sources of chance", NOTE)

prop("P09", "Parts that contradict each other are refused, and only those",
     "Some objects are refused although all their parts are given, exactly when these contradict each other: a genesis with a unit created before it, a unit activated before it is created, a ring with less than its minimum or more than its maximum of hashes, and lists of rules or of tokens where a name occurs twice.",
     ["inputs"], "every value of the parts and every length of the lists",
     "the tests build one accepted and at most one refused object, with fixed values far from the limit",
     ["domain"], [("consistency of the parts", "genesis.Builder.Now, genesis.UnitContentBuilder.Now, rings.RingBuilder.Now, rules.Builder.Now, tokens.Builder.Now")],
     DEF, DNOTE)

prop("P10", "A peer is written as host, delimiter and port, and read back from it",
     "The text of a peer is its host, the delimiter and its port in decimal. A text that is a host and a non-negative decimal port around exactly one delimiter gives the peer of that host and port, with precedence over a host and port given separately; any other text, an empty host or a missing port is refused.",
     ["inputs"], "every text, host, port and delimiter",
     "the tests read one valid text and one or two malformed ones",
     ["domain/peers"], [("reading and writing", "PeerBuilder.Now, PeerBuilder.WithHost, WithPort, WithString, Peer.String")],
     DEF, DNOTE)

prop("P27", "Each construct of the base language means what its grammar names",
     "Executing a program of the base language gives, for each of its constructs (assignments, expressions, operations, types, containers, conditions, loops, functions, calls, ...), the instruction object built from exactly the elements found under that construct, with the operator, type or modifier its name designates, and fails when an element cannot be executed. Every construct of the language has exactly one handler.",
     ["inputs"], "every tree under every construct, whichever of its optional elements are there",
     "the tests execute a few programs, which leave most alternatives of most constructs out",
     ["domain/languages/scripts/base/parsers"], [("handlers", "NewEvents, the table of functions of newEvents in helper.go")],
     DEF, DNOTE)

prop("P28", "A base program is read by the grammar, and every construct of it executed",
     "Each construct of the base language is made of the alternatives, in that order, the elements, the repetitions and the words that its grammar defines, and every name it uses is defined once. Executing a construct reads everything it is made of, never something it does not have, in any of its alternatives and with any of its optional elements, and takes each part as what executing that part gives.",
     ["inputs"], "every alternative of every construct with every choice of its optional elements",
     "the tests parse a few lines per construct and execute a few programs",
     ["domain/languages/scripts/resources/base", "domain/languages/scripts/base/parsers"],
     [("grammar", "tokens.alex, rules.alex, patterns.alex, channels.alex"), ("handlers of the constructs", "newEvents in helper.go")],
     "structural comparison of the grammar resources with a definition, name resolution, and cross-check of grammar and handlers by path-sensitive abstract interpretation of the handlers under each alternative; type flow from handlers to type assertions", "Every alternative of every construct reachable from the root of the language. That the text is matched as the grammar says is P12 to P19.")

prop("P29", "A look-up by name gives the element of that name; views follow the parts",
     "Looking an element up by its name in a built list gives an element of the list that has this name, and fails only when the list has none. What a built object tells in summary of its parts (the first element, the length, the content, the amount, the minimum, the name of an alternative, the combined elements, whether something is empty) is what these parts say.",
     ["inputs"], "every list, of any length, and every name; every combination of parts",
     "the tests look one name up in a list of one or two elements",
     [LX + "containers", LX + "asts", LX + "references/links", LX + "roots", "domain/languages/scripts/base/parsers"],
     [("look-ups", "Find and Fetch of rules, tokens, patterns, lines, links, suites, nodes, ..."), ("views", "Discoveries.Amount, IsAtLeast, Content; Path.CombinedElements; Dependencies.All; Container.Cardinality; Content.Name; Matches.List; ...")],
     SX + "; the method is evaluated on the object that the symbolic evaluation of its builder gives", DNOTE)

prop("P31", "A hash tree commits to its blocks in order, and puts blocks back in order",
     "A hash tree has one leaf per block, the hash of the block, in the order of the blocks, completed with hashes of nothing up to a power of two (at least two); neighbours are hashed together, the left one first, up to its head. Its leaves, its length and its compact form are those leaves, in their order. Blocks given to be ordered come out in the order of the leaves that hash them, and it is an error when one of them is not in the tree.",
     ["inputs"], "every list of blocks, of any length and content, and every list of blocks to order",
     "the tests build seven trees of fixed texts and shuffle their blocks once",
     ["domain/hashtree"], [("leaves and padding", "createBlockFromData, block.resize, block.Leaves"), ("pairing", "leaves.HashTree, createChildrenLeaves, createChildLeaf, parentLeaf.HashTree"), ("reading back", "leaf.Leaves, parentLeaf.BlockLeaves, leaves.Merge, hashtree.Length, Compact, Order")],
     DEF, DNOTE + " That the logarithm and the power of the mathematics library give the next power of two is taken for granted.")

prop("P32", "A signature gives its signer back, and only for what was signed",
     "A signature made by a private key on a message gives back the public key of that private key for that message; a ring signature is verified link by link, each of its keys and of its scalars taking part, against the message, so that it is accepted for what its signer signed with that ring and refused for a ring which is empty or incomplete. It is accepted for a list of key hashes only when these are the hashes of its keys, all of them, in their order. The text of a key, a signature or a ring signature holds all of its parts and reads back as the same parts; a text that is not encoded as such, or has a section too many or too few, is refused.",
     ["inputs"], "every key, message, ring and text",
     "the tests sign a few messages with rings of fixed sizes, and read back what they have just written",
     ["domain/cryptography/keys/signature"], [("signing and verifying", "PrivateKey.Sign, RingSign, Signature.PublicKey, Verify, RingSignature.Verify, RingSignatureAdapter.ToVerification"), ("texts", "String methods and ToSignature, ToPrivateKey, ToPublicKey")],
     DEF, DNOTE + " The group operations and the hash of the curve are uninterpreted: their algebra and strength are those of the library.")

prop("P33", "What is encrypted is decrypted by the same password or key, and keys are kept",
     "A message encrypted with a password is given back, whole, by whoever decrypts it with the same password; a message encrypted with a public key is given back by its private key. A text that is too short or not encoded as such is refused. A private or public key converted to bytes or to text and back is the same key, a private key comes with its own public key, and the hash of a public key is the one of its bytes.",
     ["inputs"], "every password, message, key and text",
     "there is no test of these packages",
     ["domain/cryptography/encryption.go", "domain/cryptography/builder.go", "domain/cryptography/keys/encryption"],
     [("password", "NewEncryption, Builder.Now, Encrypt, Decrypt"), ("keys", "Factory.Create, Adapter, PublicKeyAdapter, PrivateKey.Decrypt, PublicKey.Encrypt")],
     DEF, DNOTE + " The ciphers and the encodings of the standard library are uninterpreted: encryption and decryption are compared with definitions that mirror each other.")

prop("P34", "Nothing outside is touched but the files of a language and the log",
     "Apart from reading the files of the languages that a grammar includes, and noting in the log the failure of an event as it is, no operation touches anything outside: it reads no other file, input or setting of the environment, writes no file and no output, opens no connection, runs no program, starts nothing in the background, never waits, and neither ends the program nor panics on purpose. The helpers of the tests, which do, are used by nothing else.",
     ["inputs", "histories"], "every operation, on every input",
     "a test sees the results of an operation, not what else it does, and only on the paths it takes",
     ["applications", "domain"], [("files of a language", "applications/languages/lexers/application.go"), ("log of a failed event", "applications/languages/parsers/manager.go executeEvents")],
     EFF + ": every call of another module, every use of a global of another module, every go, select, send, receive and panic is classified", "The functions of the listed pure packages of the standard library, of kyber and of uuid are taken as touching nothing but their arguments.")

prop("P35", "Secrets are drawn at random and are never told by a message",
     "Keys, nonces, random scalars, paddings and initialization vectors are drawn from the cryptographic source of randomness, each time anew. A password, a private key in any of its forms, a random scalar, a text to encrypt or a decrypted text is never told, whole or in part, by the text of an error, by the log, by an output or by a file.",
     ["inputs"], "every secret, every failure",
     "tests do not read the texts of the errors, and cannot tell a predictable draw from a random one",
     ["domain/cryptography"], [("encryption", "domain/cryptography/encryption.go, keys/encryption"), ("signature", "domain/cryptography/keys/signature")],
     "interprocedural taint analysis over SSA (values, fields, calls, closures), and backward tracing of every random argument to its source", "A secret told through its length, a truth, or the time taken is not followed.")

prop("P36", "Every service can be obtained, and comes with everything it works with",
     "Every builder, adapter, factory, manager and application that is implemented can be obtained from an exported constructor of its package, or from a builder that has one. A constructor never gives nothing, and what it gives comes with every component it works with, however deep, and never loses one, so that no operation meets a missing component.",
     ["inputs", "histories"], "every exported constructor and every service it leads to",
     "half of the constructors are not used by any test, and a test only meets the components that its path needs",
     ["domain", "applications"], [("constructors", "New... of the sdk.go of every package"), ("components", "create... of every service")],
     "interprocedural nilness analysis over SSA of the constructors and of the fields of the services", "What a caller gives to an exported constructor or setter is taken as present.")

prop("P30", "No input makes the library panic",
     "Whatever text, grammar, list or object is given to an exported operation, the operation returns: a wrong input gives an error, never a run-time panic.",
     ["inputs"], "every input of every exported operation",
     "a test only tries the inputs that its author thought of",
     ["domain", "applications"], [("dereferences, indexings, assertions and slices", "every function")],
     na="An interprocedural nilness, bounds and assertion analysis (analyzer/rule_panics.go) discharges 4472 of the 4561 places that could panic; the other 89 rest on relations between objects built in different packages, or on shapes of trees that the grammar fixes, which no static domain in reach derives. Allowing these 89 by place would raise an alarm on each refactoring of them, and allowing them by kind would miss what matters. P06, P28, P29, P36 and the definitions cover the part that can be decided.")

prop("P37", "Reading, matching and executing always end",
     "Reading a grammar, matching a text against it and executing a tree always end, in a time that depends on the size of what is given.",
     ["inputs"], "every grammar, text and handlers",
     "a test only tries grammars that end",
     ["domain/languages/lexers", "applications"], [("recursion of the tokens", "asts/tokens/adapter.go"), ("consuming loops", "results/adapter.go")],
     na="Whether the mutual recursion of the matcher ends depends on the grammar, a run-time value (a left-recursive grammar does not end): there is no ranking function over the source alone. What the loops compute is compared with definitions, that they stop is assumed.")

prop("P38", "A signature cannot be made without a private key of the ring",
     "Nobody who lacks the private key, or every private key of a ring, makes a text that verifies as a signature of it, and a ring signature does not tell which key of the ring made it.",
     ["inputs"], "every signer, ring and message",
     "no test enumerates forgers",
     ["domain/cryptography/keys/signature"], [("ring", "PrivateKey.RingSign, RingSignature.Verify")],
     na="This rests on the hardness of the discrete logarithm and on the distribution of random values, not on the shape of the source; P32 and P35 decide what the source decides: the equations that are computed and where the chance comes from.")
