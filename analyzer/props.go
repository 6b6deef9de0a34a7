package main

type property struct {
	ID      string
	Level   string
	Explain string
	Assume  []string
	Run     func(c *Ctx)
}

var properties = []*property{
	{ID: "P01", Level: "other",
		Explain: "every builder interface of the repository is enumerated; Create, the setters and Now are composed on symbolic values for each supply (missing, given, empty) of the parts; obligation: when a mandatory part is missing or empty, or no alternative is given, every exit is an error and a nil object",
		Run:     func(c *Ctx) { ruleBuilderOutcomes(c, true, false); c.Min("incomplete-is-refused", 1000) }},
	{ID: "P02", Level: "other",
		Explain: "as for P01; obligation: when every mandatory part and one alternative are given, no exit is an error other than the one of a callee or of a listed consistency check, and at least one exit is a success",
		Run: func(c *Ctx) {
			ruleBuilderOutcomes(c, false, true)
			ruleDefinitions(c, "P09")
			c.Min("complete-is-built", 450)
			c.Min("definition", 5)
		}},
	{ID: "P03", Level: "other",
		Explain: "for each successful exit of a builder, every accessor and predicate of the object is evaluated on the object of that exit; obligation: the accessor returns the symbol that was given to the setter, the predicate is true exactly when the part was given, and a part that was not given is reported as nil, zero or empty",
		Run:     func(c *Ctx) { ruleFidelity(c); c.Min("part", 700); c.Min("predicate", 600); c.Min("absent", 1500) }},
	{ID: "P04", Level: "other",
		Explain: "Create of every builder is evaluated: the builder returned is fresh and its parts are unset; each setter writes its part and nothing else; every use of a shared builder follows a Create on every path",
		Run: func(c *Ctx) {
			ruleCreate(c)
			ruleBuilderUse(c)
			c.Min("create", 150)
			c.Min("setter", 300)
			c.Min("fresh-builder", 300)
		}},
	{ID: "P05", Level: "other",
		Explain: "every store, map update, append and mutating call of every function outside of the setters is traced to the object it reaches; obligation: the object was allocated by the function, or is a listed piece of state",
		Run:     func(c *Ctx) { ruleEffects(c); ruleGlobals(c); c.Min("effect", 350) }},
	{ID: "P06", Level: "other",
		Explain: "every call whose last result is an error: the error is tested or returned, and every exit reached by the failing branch is a failure; every nil result comes with an error or is of a listed kind, and those are compared with nil before a method is called on them",
		Run: func(c *Ctx) {
			ruleErrors(c)
			ruleNilNil(c)
			ruleNilUse(c)
			c.Min("error-kept", 500)
			c.Min("nil-with-error", 300)
			c.Min("nil-tested", 4)
		}},
	{ID: "P07", Level: "other",
		Explain: "for each successful exit of the builder of an object that has a hash, the hash read from the object is followed back to the rows given to the multi-row hash; obligation: every part given is identified by a row of its own, through functions that give different results for different parts",
		Assume:  []string{"the text of a signature or of a key identifies it", "times are compared with the precision of a second"},
		Run:     func(c *Ctx) { ruleHashCommits(c); c.Min("hash-commits", 25) }},
	{ID: "P09", Level: "other",
		Explain: "the builders whose parts may contradict each other are compared with the condition under which they must refuse them (specs/consistency.go.txt): on each pair of compatible paths, a refusal that is not the failure of a callee happens exactly when the definition has one",
		Assume:  definitionsAssume,
		Run: func(c *Ctx) {
			ruleDefinitions(c, "P09")
			c.Min("definition", 5)
		}},
	{ID: "P10", Level: "other",
		Explain: definitionsExplain + "; defined here: the reading of a peer from its text or its parts, and its text",
		Assume:  definitionsAssume,
		Run:     defs("P10", 7, 1, "domain/peers")},
	{ID: "P11", Level: "other",
		Explain: definitionsExplain + "; defined here: the interval of a cardinality, its validity, its text and the reading of its text",
		Assume:  definitionsAssume,
		Run:     defs("P11", 8, 1, "domain/languages/lexers/cardinality")},
	{ID: "P12", Level: "other",
		Explain: definitionsExplain + "; defined here: the reading of groups, series and patterns, and what they match",
		Assume:  definitionsAssume,
		Run:     defs("P12", 17, 1, "domain/languages/lexers/containers/patterns")},
	{ID: "P13", Level: "other",
		Explain: definitionsExplain + "; defined here: the reading of rules",
		Assume:  definitionsAssume,
		Run:     defs("P13", 3, 1, "domain/languages/lexers/containers/rules")},
	{ID: "P14", Level: "other",
		Explain: definitionsExplain + "; defined here: the reading of tokens, their blocks, lines, elements, cardinalities, specifiers and test suites",
		Assume:  definitionsAssume,
		Run:     defs("P14", 9, 1, "domain/languages/lexers/containers/tokens")},
	{ID: "P15", Level: "other",
		Explain: definitionsExplain + "; defined here: the choice of a line, the sequence of its elements, channels, repetitions, recursion, rules, and the end of the text",
		Assume:  definitionsAssume,
		Run:     defs("P15", 18, 1, "domain/languages/lexers/asts/tokens")},
	{ID: "P16", Level: "other",
		Explain: definitionsExplain + "; defined here: validity, exactness, amount and text of every node of the match tree",
		Assume:  definitionsAssume,
		Run:     defs("P16", 41, 1, "domain/languages/lexers/asts/tokens")},
	{ID: "P17", Level: "other",
		Explain: definitionsExplain + "; defined here: the verdict on a text, and the tree of a success",
		Assume:  definitionsAssume,
		Run:     defs("P17", 12, 1, "domain/languages/lexers/asts")},
	{ID: "P18", Level: "other",
		Explain: definitionsExplain + "; defined here: the mistake found in a match tree, if any",
		Assume:  definitionsAssume,
		Run:     defs("P18", 10, 1, "domain/languages/lexers/asts/mistakes")},
	{ID: "P19", Level: "other",
		Explain: definitionsExplain + "; defined here: the resolution of a token, of its elements and of its specifiers",
		Assume:  definitionsAssume,
		Run:     defs("P19", 8, 1, "domain/languages/lexers/asts/paths")},
	{ID: "P20", Level: "other",
		Explain: definitionsExplain + "; defined here: the result of a tree, its text and its amounts",
		Assume:  definitionsAssume,
		Run:     defs("P20", 5, 1, "domain/languages/lexers/asts/results")},
	{ID: "P21", Level: "other",
		Explain: definitionsExplain + "; defined here: the simplified tree, its text, its scans and its look-ups",
		Assume:  definitionsAssume,
		Run:     defs("P21", 14, 1, "domain/languages/lexers/roots")},
	{ID: "P22", Level: "other",
		Explain: definitionsExplain + "; defined here: the reading of includes, references and replacements",
		Assume:  definitionsAssume,
		Run:     defs("P22", 4, 1, "domain/languages/lexers/references", "domain/languages/lexers/references/links", "domain/languages/lexers/paths")},
	{ID: "P23", Level: "other",
		Explain: definitionsExplain + "; defined here: the execution of the test suites",
		Assume:  definitionsAssume,
		Run:     defs("P23", 3, 1, "domain/languages/lexers/suites")},
	{ID: "P24", Level: "other",
		Explain: definitionsExplain + "; defined here: the assembly of a language from its resources, files, references and replacements",
		Assume:  definitionsAssume,
		Run:     defs("P24", 17, 1, "applications/languages/lexers", "domain/languages/lexers/contents", "domain/languages/lexers/resources/containers", "domain/languages/lexers/resources/multiples", "domain/languages/lexers/resources/paths", "domain/languages/lexers/resources/singles")},
	{ID: "P25", Level: "other",
		Explain: definitionsExplain + "; defined here: the execution of the events of a tree",
		Assume:  definitionsAssume,
		Run:     defs("P25", 7, 1, "applications/languages/parsers")},
	{ID: "P26", Level: "other",
		Explain: "every walk over a map is judged: what it computes (lists, maps, carried values, exits, parts given to builders) must not depend on the order of the walk, lists being sorted before any other use; every call is judged against the sources of chance, time, environment and scheduling, which only the cryptography may use",
		Assume:  []string{"a list that is sorted is sorted by a total order", "when several elements make a walk fail, which failure is reported is not part of the result", "library functions other than the listed ones are functions of their arguments"},
		Run: func(c *Ctx) {
			ruleMapOrder(c)
			ruleChance(c)
			c.Min("map-order", 1)
			c.Min("no-chance", 2000)
		}},
	{ID: "P27", Level: "other",
		Explain: definitionsExplain + "; defined here: what each construct of the base language (specs/base.go.txt, one definition per entry of the table of handlers), its types and its values mean; the grammar of the language is read from its resources and compared with its definition; the flags that tell types and operators apart are one bit each, of their own",
		Assume:  definitionsAssume,
		Run: func(c *Ctx) {
			ruleHandlers(c, "P27")
			ruleFlags(c)
			c.Min("handler", 63)
			c.Min("flag", 18)
			c.Min("flag-own", 18)
			defs("P27", 13, 30, "domain/languages/scripts/base/parsers")(c)
		}},
	{ID: "P28", Level: "other",
		Explain: "the resource files of the base language are read; obligations: every name an element, a rule or a pattern uses is defined once, each construct reachable from program is the one of its definition (specs/base.grammar), the handler of each construct, evaluated under each of its alternatives, succeeds, reads every token the alternative gives and nothing that it does not, and each value it expects of a name has the type that executing this name gives",
		Assume:  []string{"the look-ups of a tree are those of P21, the execution of a name that of P25"},
		Run: func(c *Ctx) {
			ruleGrammar(c)
			ruleReads(c, "domain/languages/scripts/base/parsers")
			c.Min("grammar-definition", 120)
			c.Min("handler-reads", 90)
			c.Min("handler-type", 60)
		}},
	{ID: "P29", Level: "other",
		Explain: "each list that can be searched by a name is built on a symbolic list, and its search is evaluated on the object built; obligation: on every path the result is an element of the list whose name is the one searched, or an error after the whole list was searched. " + definitionsExplain + "; defined here: what the collections and the alternatives derive from their parts",
		Assume:  definitionsAssume,
		Run: func(c *Ctx) {
			ruleLookups(c)
			ruleViews(c, "P29")
			c.Min("lookup", 20)
			c.Min("view", 30)
		}},
	{ID: "P30", Level: "other",
		Explain: "x",
		Run: func(c *Ctx) {
			rulePanics(c)
		}},
	{ID: "P34", Level: "other",
		Explain: "every instruction of every function (but the helpers of the tests, which nothing else may call) is judged: a call of a function of another module must be one that touches nothing but its arguments, files are read only where a language is loaded, the log is only written by the manager of the events, with a constant format; no global of the outside is used, nothing is started, nothing waits, nothing panics on purpose",
		Assume:  []string{"the functions of the listed pure packages (strings, strconv, regexp, sort, encoding, crypto, kyber, ...) touch nothing but their arguments and the cryptographic randomness"},
		Run: func(c *Ctx) {
			ruleOutside(c)
			c.Min("no-outside", 2000)
			c.Min("reads", 1)
			c.Min("logs", 1)
		}},
	{ID: "P35", Level: "other",
		Explain: "the flow of the secrets (passwords, messages to encrypt, decrypted texts, private keys in all their forms, random scalars) is followed through values, fields, calls and closures, up to what makes them public (the product by a point, a public key, a cipher, the public part of a signature); obligation: none reaches the text of an error, the log, an output or a file. What must be random (keys, scalars, initialization vectors, paddings) is traced back to the cryptographic source, through parameters, results and variables",
		Assume:  []string{"a length, a number, a truth and the error of a library function do not tell a secret"},
		Run: func(c *Ctx) {
			ruleSecrets(c)
			c.Min("no-leak", 200)
			c.Min("random", 5)
		}},
	{ID: "P36", Level: "other",
		Explain: "every exported constructor, every place where a service (builder, adapter, factory, manager, application) is made and every place where it is given a component are judged: by following results, parameters, variables and fields, neither the service nor a component it works with may be nil; every exported service interface that is implemented is given by an exported constructor of its package, or by a builder that has one",
		Assume:  []string{"what an exported constructor is given by its caller is not nil"},
		Run: func(c *Ctx) {
			ruleComplete(c)
			c.Min("constructor", 150)
			c.Min("collaborator", 150)
			c.Min("obtainable", 150)
		}},
	{ID: "P31", Level: "other",
		Explain: definitionsExplain + "; defined here: the leaves of a block, their pairing, the head of the tree, the leaves that a tree lists, and the ordering of blocks",
		Assume:  definitionsAssume,
		Run:     defs("P31", 10, 1, "domain/hashtree")},
	{ID: "P32", Level: "other",
		Explain: definitionsExplain + "; defined here: keys, signatures, ring signatures and their texts",
		Assume:  definitionsAssume,
		Run: func(c *Ctx) {
			ruleDefinitions(c, "P32")
			c.Min("definition", 20)
		}},
	{ID: "P33", Level: "other",
		Explain: definitionsExplain + "; defined here: the encryption by password and by key, and the bytes and the text of a key",
		Assume:  definitionsAssume,
		Run:     defs("P33", 15, 1, "domain/cryptography", "domain/cryptography/keys/encryption")},
	{ID: "P08", Level: "other",
		Explain: "the conversions of the hash package are evaluated on symbolic operands; the value of each exit is compared with its definition (SHA-512 of all the bytes, length-prefixed rows, hexadecimal text, equality of the 64 bytes)",
		Run:     func(c *Ctx) { ruleHashAdapter(c); c.Min("hash-conversion", 6) }},
}

const definitionsExplain = "each function listed is compared with its definition (specs/*.go.txt, written from the documentation of the language, compiled with the repository): both are evaluated on the same symbolic arguments, loops as recurrences over the same collections, and on each pair of compatible paths the results, the failures, the objects built and the writes must be the same; the objects that these functions build are judged as in P01 to P04"

var definitionsAssume = []string{
	"the definition is the intended behaviour; where the documentation is silent, it is what the code did at the pinned commit after the repairs",
	"loops that end: what is compared is what they compute, not that they stop",
}

// defs judges the definitions of a property, and the objects of its packages.
func defs(prop string, min, objects int, pkgs ...string) func(c *Ctx) {
	return func(c *Ctx) {
		ruleDefinitions(c, prop)
		c.Min("definition", min)
		ruleObjects(c, pkgs...)
		c.Min("objects: create", objects)
	}
}

// ruleObjects judges the objects of some packages: what they refuse, accept and report.
func ruleObjects(c *Ctx, pkgs ...string) {
	c.only, c.prefix = map[string]bool{}, "objects: "
	for _, x := range pkgs {
		c.only[x] = true
	}
	ruleBuilderOutcomes(c, true, true)
	ruleFidelity(c)
	ruleCreate(c)
	ruleBuilderUse(c)
	c.only, c.prefix = nil, ""
}
