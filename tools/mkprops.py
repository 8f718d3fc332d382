import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
m=lambda n,w:dict(name=n,where=w)
IL="intl_pluralrules/src/lib.rs";OP="intl_pluralrules/src/operands.rs";RU="intl_pluralrules/src/rules.rs"
PA="cldr_pluralrules_parser/src/parser.rs";PL="cldr_pluralrules_parser/src/lib.rs";AS="cldr_pluralrules_parser/src/ast.rs"
GL="make_pluralrules/src/lib.rs";GM="make_pluralrules/src/main.rs";GP="make_pluralrules/src/parser/gen_pr.rs";GR="make_pluralrules/src/parser/gen_rs.rs";RE="make_pluralrules/src/parser/resource.rs"
p("C01","Cardinal category selection follows CLDR for every locale and number",
"For every locale the library offers for cardinal numbers and every number a caller passes to select, the returned category is the one whose CLDR 37 cardinal rule for that locale is true of the number's plural operands, and OTHER exactly when none is true.",
["inputs","configurations"],"All cardinal locales x all decimal numbers (integer part below 2^64; with visible fraction digits, at most 15 significant digits, as n is a double, where the rules ask for n).",
"The suite evaluates four locales on a dozen numbers; 200+ rules over an unbounded number domain are never executed.",
[IL,RU,"intl_pluralrules/cldr_data/cldr_pluralrules_cardinals.json"],
[m("one closure per locale, generated from the CLDR rule text",RU+" PRS_CARDINAL"),m("PluralRules::select applies the locale's closure to the operands",IL)],
[dict(name="rule function",meaning="the decision function bound to a PluralRules instance at creation",where=IL+" PluralRules.function")],["PluralRules::select"])
p("C02","Ordinal category selection follows CLDR for every locale and number",
"For every locale the library offers for ordinal numbers and every number a caller passes to select, the returned category is the one whose CLDR 37 ordinal rule for that locale is true of the number's plural operands, and OTHER exactly when none is true.",
["inputs","configurations"],"All ordinal locales x all decimal numbers (integer part below 2^64; with visible fraction digits, at most 15 significant digits, as n is a double, where the rules ask for n).",
"The suite checks one ordinal locale on two numbers.",
[IL,RU,"intl_pluralrules/cldr_data/cldr_pluralrules_ordinals.json"],
[m("one closure per locale, generated from the CLDR rule text",RU+" PRS_ORDINAL"),m("PluralRules::select",IL)],
[dict(name="rule function",meaning="the decision function bound at creation",where=IL)],["PluralRules::select"])
p("C03","Operands read from decimal text are exact",
"For every decimal numeral written as an optional minus sign, digits and optionally a point with digits, conversion to plural operands yields exactly the CLDR operands of what is written: n the nearest double of the absolute value, i the integer part, v and w the counts of visible fraction digits with and without trailing zeros, f and t those digits as numbers. When the integer digits or fraction digits exceed what a 64-bit operand can hold, the conversion reports an error instead of giving other operands.",
["inputs"],"All numeral strings of any length, through &str and String.",
"Thirteen sample strings are tested, none near the 2^53 or 2^64 boundaries and none with long fractions.",
[OP],[m("TryFrom<&str>/TryFrom<String>",OP)],None,["PluralOperands::try_from(&str)","PluralOperands::try_from(String)"])
p("C04","Operands of integers are exact for every integer type",
"For every value of every supported signed and unsigned integer type, conversion to plural operands gives i equal to the absolute value, n the nearest double of it, and v, w, f, t all zero. The only value that may be refused with an error is the minimum of a 64-bit signed type; no value wraps or is truncated.",
["inputs"],"All values of u8..u64, usize, i8..i64, isize.",
"Tests cover seven i32 values; type widths and boundary values are not exercised.",
[OP],[m("impl_integer_type!/impl_signed_integer_type! conversions",OP)],None,["PluralOperands::from(uN)","PluralOperands::try_from(iN)"])
p("C05","Operands of floats describe the shortest decimal that reads back as the float",
"For every finite f32 or f64 whose integer part fits 64 bits, conversion gives the operands of a decimal numeral that reads back as exactly that float's absolute value and has the fewest possible fraction digits (no trailing zeros, so v = w and f = t). Infinities and NaN are refused with an error; a larger float is refused or given the operands of a decimal that reads back as it.",
["inputs"],"All bit patterns of f32 and f64.",
"Five f64 values and one is_ok are tested; f32, huge, tiny and non-finite values are not.",
[OP],[m("impl_convert_type! formats the float and converts the text",OP)],None,["PluralOperands::try_from(f32)","PluralOperands::try_from(f64)"])
p("C06","Text that is not a number is always refused, never panics or yields a category",
"Converting or selecting with any text that is not a number returns an error; no input text of any kind makes conversion or selection panic, and text that uses other number spellings (leading plus, exponent, missing digits around the point) is either refused or given operands equal in value to what it denotes. Select reports an error exactly when the conversion of its argument reports one.",
["inputs"],"All strings, including empty, signs only, repeated signs, non-ASCII digits, inf/nan spellings and exponents.",
"Only the string foo is tested.",
[OP,IL],[m("f64/u64 parsing with error mapping",OP),m("select maps conversion errors",IL)],None,["PluralOperands::try_from(&str)","PluralRules::select"])
p("C07","One number, one category, whatever its type or sign",
"For every locale and rule type, selecting with the same number given as any integer type that can hold it, as text, as String, as a float whose shortest decimal is that text, or as ready-made operands, with or without a minus sign, returns the same category.",
["inputs","configurations"],"All locales x all numbers x all supported argument types and both signs.",
"Tests never compare argument types of the same number on select.",
[OP,IL],[m("all conversions reduce to the same operands",OP),m("select is generic over TryInto<PluralOperands>",IL)],None,["PluralRules::select"])
p("C08","Locale lookup is exact and covers precisely the CLDR locales",
"The list of locales for each rule type is exactly the CLDR 37 locales of that type without root, each once; creating rules succeeds for a locale exactly when it is on that list, and the instance reports that same locale and carries that locale's rules. Any other language identifier - other languages, or a listed language with an extra script, region or variant - is refused.",
["inputs","configurations"],"All language identifiers (language, script, region, variants) x both rule types.",
"Tests create six locales and look up one unknown one; a mis-sorted or duplicated table entry is invisible to them.",
[IL,RU],[m("binary search over a table sorted by language identifier",IL+" create"),m("sorted tables",RU)],
[dict(name="rule tables",meaning="sorted (locale, rule) arrays",where=RU)],["PluralRules::create","PluralRules::get_locales","PluralRules::get_locale"])
p("C09","Results never depend on call history, clones or threads",
"Every create, select, get_locale and get_locales call returns what it would return as the first call of a fresh process: earlier or concurrent calls on the same or other instances, in any order and from any number of threads, cloning an instance and dropping the original, do not change any result.",
["histories","schedules"],"All sequences and interleavings of API calls on any number of shared and cloned instances.",
"Every test uses a fresh instance, one thread and a handful of calls.",
[IL,OP,RU],[m("instances are immutable values, no global state",IL)],
[dict(name="instance",meaning="locale and rule function fixed at creation",where=IL+" PluralRules")],["all public calls"])
p("C10","Every well-formed plural rule condition parses to its exact structure",
"Every rule condition of the UTS #35 plural rule grammar with operands n i v w f t - any nesting of and/or, any operator spelling, modulus by % or mod, any list of values and ranges, keywords separated by blanks and blanks or tabs optional around every other token and at both ends - is accepted, and the resulting tree has the same or/and structure, operands, moduli, operators, values and ranges in the same order.",
["inputs"],"All sentences of the condition grammar with values up to the machine word.",
"Ten fixed rule strings are parsed in the tests; several operators are parsed nowhere.",
[PA,PL,AS],[m("nom combinators per grammar production",PA)],None,["parse_plural_rule","parse_plural_condition"])
p("C11","Malformed rules are rejected and nothing in a rule is silently dropped",
"Parsing a full rule succeeds only if the returned tree accounts for every token of the text in order: each condition list is non-empty, and respelling the tree gives back the text up to blanks and equivalent spellings. Every other text is reported as an error, and no text makes the parser panic.",
["inputs"],"All strings.",
"No test feeds a malformed rule.",
[PA,PL],[m("full-input check on the parse result",PL),m("grammar productions",PA)],None,["parse_plural_rule"])
p("C12","Rule samples are preserved",
"For every rule with @integer and/or @decimal samples, with or without a condition, parsing returns every sample value and range of each list in order, the end points as written, and whether the list was open-ended; a rule without samples returns none.",
["inputs"],"All sample lists of the UTS #35 sample grammar.",
"No test asserts anything about samples.",
[PA,AS],[m("samples, sample_list, sample_range, decimal_value productions",PA)],None,["parse_plural_rule().samples"])
p("C13","Condition-only parsing agrees with full rule parsing",
"For every text the full rule parser accepts, the condition parser returns the same condition. It never succeeds by ignoring text: whatever follows the parsed condition is at most blanks or the sample section introduced by @.",
["inputs"],"All strings.",
"parse_plural_condition is not called by any parser test.",
[PL,PA],[m("parse_plural_condition",PL),m("parse_condition",PA)],None,["parse_plural_condition"])
p("C14","Generated code decides exactly what the source rules say",
"For every CLDR-style data set, the generated library code returns, for every locale in it and every number, a category whose source rule is true of the number's operands, and OTHER exactly when no non-OTHER rule is true.",
["programs","inputs"],"All rule texts (operands, non-zero moduli, operators, value/range lists with values below 2^53, and/or nesting, category subsets) x all decimal numbers (integer part below 2^64; with visible fraction digits, at most 15 significant digits, as n is a double).",
"Tests compare generated text for two fixed data files with stored text; operators, operands and shapes absent from those files are never generated and no generated code is ever executed.",
[GP,GL,GR],[m("create_relation/create_and_condition/create_condition",GP),m("gen_type_rs orders and filters categories",GL),m("gen_mid if/else chain",GR)],None,["make_pluralrules output compiled into the library, PluralRules::select"])
p("C15","The generated tables hold every source locale exactly once and lookups find it",
"In a library regenerated from any data set, the locale list of each rule type is exactly the data set's locales without root, with their language, script and region, and creating rules succeeds for each of them and yields that locale's own rules, whatever the order and number of locales; identifiers not in the data set are refused.",
["programs","inputs"],"All sets of locale keys made of language, optional script and optional region.",
"Tests only compare text for the stored data, whose locales are nearly all bare languages.",
[GL,GR,IL],[m("sort by language identifier and root filter",GL+" gen_type_rs"),m("gen_langid encodes subtags",GR),m("binary search",IL)],None,["PluralRules::create/get_locales of the regenerated library"])
p("C16","Input files combine consistently or generation is refused",
"Generation from a list of data files succeeds exactly when all files state the same CLDR version (a whole number), no rule type is provided twice and at least one rule type is provided; otherwise it is refused. On success every provided rule type is present, the stated version is emitted, and the output is identical on every run and for every order of the files.",
["inputs","histories"],"All sequences of data files with any mix of versions (whole numbers) and rule types.",
"Three refusal cases and two fixed inputs are tested, each in one order.",
[GL,GR,RE],[m("version and duplicate checks while folding over the inputs",GL+" generate_rs")],
[dict(name="cldr_version, tokens",meaning="accumulated version and per-type tables",where=GL)],["generate_rs"])
p("C17","The bundled rules are what the generator produces from the bundled data",
"Regenerating the library from the CLDR data files shipped with it gives a library that behaves identically to the shipped one: same CLDR version, same locale lists, same category for every locale and number.",
["inputs","configurations"],"All locales and rule types x all numbers.",
"No test compares the shipped rule table with the shipped data.",
[RU,"intl_pluralrules/cldr_data",GL,GP,GR],[m("cargo regenerate-data","intl_pluralrules/.cargo/config")],None,["PluralRules API of shipped and regenerated library"])
p("C18","The generator command fails without touching the output, and succeeds completely",
"The command exits with success only if every input file was read and the complete generated code was written to the output path and, unless -u is given, formatted; if no input or no output path is given, or an input is missing, unreadable, not valid data, or the inputs do not combine, it exits with failure and leaves the output path exactly as it was. The formatted output is the plain output (-u) as rustfmt formats it, and the input files are never modified.",
["fault_sequences","configurations"],"All combinations of input faults, previous output states, output path faults, formatter faults and formatting options.",
"The command is never run by the tests.",
[GM,GL],[m("read all inputs, generate, then create and write the output",GM)],None,["process exit status and file contents"])
p("C19","The generator refuses rule text it does not fully understand",
"If any category rule of any locale in the data contains condition text that is not entirely a well-formed condition (before the sample section), or a locale key that is not a language identifier, generation is refused rather than producing code for a part of it; well-formed data in CLDR's usual spelling (non-empty conditions for the categories other than OTHER, single blanks between tokens, non-zero moduli) is not refused.",
["inputs","programs"],"All rule strings and locale keys.",
"No test feeds malformed rule text or locale keys to the generator.",
[GL],[m("condition parsing of each rule",GL+" gen_type_rs")],None,["generate_rs"])
p("C20","Generation depends only on what the data says",
"Data files that state the same CLDR version and, for each rule type and locale identifier, the same categories with the same conditions generate byte-identical code, or are both refused: the order of JSON members, layout and escapes of the JSON, members the generator has no use for (including the Unicode version and revision number), the samples after a condition, letter case and separator (- or _) of locale keys, and whether the rule types are in one file or two make no difference.",
["inputs","programs"],"All pairs of data sets that say the same.",
"Tests compare one fixed output per fixture; no data set is given in two ways.",
[GL,GR,RE],[m("typed JSON reading into ordered maps",RE),m("identifier parsing and sorting, cutting of samples",GL+" gen_type_rs")],None,["generate_rs"])
p("C21","Parser, operand and generator results never depend on other calls",
"Every call of the rule parser, the condition parser, the operand conversions and the code generator returns what it would return as the first call of a fresh process: earlier or concurrent calls with any arguments, from any number of threads and including calls that failed or were refused, do not change any result, and it makes no difference whether text is given as &str or String.",
["histories","schedules"],"All sequences and interleavings of calls.",
"Tests make each call once, in one order.",
[PL,PA,OP,GL],[m("parse_plural_rule, parse_plural_condition are functions of the text",PL),m("operand conversions",OP),m("generate_rs builds its state anew",GL)],None,["parse_plural_rule","parse_plural_condition","PluralOperands::try_from","generate_rs"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
