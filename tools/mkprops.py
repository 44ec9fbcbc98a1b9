import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"observe_at":list(obs),"hook_needed":hook}}
    P.append(d)
CP="chewed/src/parse.rs"
p("C01","Reading a source yields every character once, in order; peeking is pure",
 "A parser built over a character source delivers exactly the source's characters, in source order and each exactly once, for every interleaving of reads and peeks. A peek returns the very character the next read will return (nothing at the end of input), and any number of peeks changes neither what later reads return nor the reported position. Once the source has ended, reads and peeks keep returning nothing.",
 ["inputs","histories"],"every finite character source and every sequence of next/peek calls",
 "No existing test calls next or peek directly; the compare tests only push four fixed grammar files through generated parsers.",
 [CP],[("one-character look-ahead buffer","IterWrapper::next / IterWrapper::peek in chewed/src/parse.rs")],
 [("next","the buffered look-ahead character","chewed/src/parse.rs IterWrapper"),("iter","the unread rest of the source","chewed/src/parse.rs IterWrapper")],["Parser::next","Parser::peek"])
p("C02","Reported positions are the line and column of the next unread character",
 "At every moment the position a parser reports is the line (from 1) and column (from 0) of the next unread character: each consumed line break (LF, VT, FF, NEL, LS, PS, or a CR not followed by LF) starts a new line at column 0, a CR followed by LF counts with that LF as one single line break, and any other consumed character advances the column by one. Peeking and reading at the end of input do not move the position.",
 ["inputs","histories"],"every character source and every sequence of next/peek calls, as long as line and column counts fit in usize",
 "No test looks at a position; line-break kinds other than LF never occur in the test inputs.",
 [CP,"chewed/src/position.rs"],[("line/column bookkeeping","IterWrapper::next in chewed/src/parse.rs"),("LineCol::default","chewed/src/position.rs")],
 [("pos","line and column of the next unread character","chewed/src/parse.rs IterWrapper")],["Parser::pos","positions inside TakeError and ParseError"])
p("C03","Literal matching consumes exactly the literal or fails where it diverges",
 "Matching an expected string succeeds exactly when the unread input starts with that string, and then consumes exactly that many characters. Otherwise exactly the longest common prefix has been consumed, and the error is reported at the position of the first differing character: at the end of input it says so, and for a different character it quotes the matched prefix followed by that character, and the expected string. It never panics, whatever characters the expected string and the input contain.",
 ["inputs"],"every expected string (including non-ASCII) and every input",
 "Tests only match ASCII literals that succeed; no mismatch and no multi-byte literal is ever tried.",
 [CP],[("consume_str","Parser::consume_str in chewed/src/parse.rs")],(),["Parser::consume_str result, remaining input and TakeError"])
p("C04","Character-class reads take exactly the allowed characters and stop exactly there",
 "Reading a fixed number of characters from an allowed set succeeds exactly when that many next characters are all in the set, fills the buffer with them in order and consumes exactly them. Otherwise it consumes only the allowed characters before the first that is not allowed, stores those in order, and reports that character (or the end of input) at its own position. Skipping while a predicate holds consumes exactly the longest run of leading characters on which the predicate holds.",
 ["inputs"],"every input, set, buffer length and predicate",
 "No existing test calls these two helpers; only benchmark code does.",
 [CP],[("take_chars_from","Parser::take_chars_from in chewed/src/parse.rs"),("skip_while","Parser::skip_while in chewed/src/parse.rs")],(),["results, buffer and remaining input"])
p("C05","Separated lists yield each item once and never swallow or accept a stray separator",
 "Iterating a separated list ends, consuming nothing, exactly when the next character is the stop character or the input has ended; otherwise it parses one item. A successful item is yielded only if it is followed by the stop character (left unread) or by one separator (consumed) after which stands a character that can start an item; anything else after the item yields an error at the position of the offending character or of the end of input, naming the characters that were allowed there. An item that fails to parse is reported with its own error, and nothing is consumed after that failure.",
 ["inputs","histories"],"every item parser, separator, stop, first set and input",
 "No existing test uses the list iterator.",
 [CP],[("Iter::next","chewed/src/parse.rs"),("iter_strict","chewed/src/parse.rs")],(),["items and errors yielded, remaining input"])
p("C06","Parsing a whole input succeeds only if nothing is left over",
 "Parsing a whole input returns a value exactly when taking that value from the start of the input succeeds and consumes all of it, and then returns that same value. If taking fails, that very error is returned; if characters remain, the error says so and gives the position of the first unread character. Boxed values and the empty value follow the same rule: boxing changes neither what is consumed nor the result, and the empty value consumes nothing and always succeeds.",
 ["inputs","programs"],"every input and every parse type implemented on top of the runtime",
 "The compare tests only check successful whole-input parses of four files; leftovers and errors are never tried.",
 [CP,"chewed/src/error.rs"],[("Parse::parse / parse_str / take_str","chewed/src/parse.rs"),("Parse for Box and Epsilon","chewed/src/parse.rs"),("From<TakeError> for ParseError","chewed/src/error.rs")],(),["Parse::parse, Parse::parse_str, Parse::take_str"])
S="src/chomp/set.rs"; T="src/chomp/typed/mod.rs"
p("C07","Grammar types are computed exactly and describe the language soundly",
 "The type computed for a literal, a concatenation or an alternative is exactly its nullability, its set of first characters and its set of follow-last characters according to the Krishnaswami-Yallop equations, and set union, emptiness and disjointness are those of mathematical sets. Consequently, whenever two languages satisfy two types and the types pass the concatenation (respectively alternation) side conditions, the concatenated (united) language satisfies the combined type.",
 ["inputs","programs"],"all character sets, all types, all languages",
 "Two unit tests compute three concatenations of one-letter types; the flast set, alternation and disjointness are only touched by whole-grammar smoke tests.",
 [S,T],[("FirstSet/FlastSet operations",S),("Type::of_str / cat / alt",T)],(),["Type::nullable, first_set, flast_set after of_str/cat/alt"])
CX="src/chomp/typed/context.rs"; I="src/chomp/typed/infer.rs"
p("C08","A fixed-point variable is usable only after its binding consumed input",
 "Looking up a variable by index returns the type of that binder, counted from the innermost; it is refused as free exactly when there is no such binder, and refused as guarded exactly when the binder was introduced after the most recent point at which input is known to have been consumed. Entering and leaving binders or such points always restores the context exactly, whether the enclosed work succeeds or fails.",
 ["programs","histories"],"every nesting of binders and consumption points, every index",
 "No test builds a context by hand; the error paths (free and guarded) are never exercised.",
 [CX],[("get_variable_type",CX),("with_unguard / with_variable_type",CX)],[("vars","types of the enclosing binders",CX),("unguard_points","binder depths at which input had been consumed",CX)],["Context::get_variable_type","Context::depth"])
p("C09","Type inference accepts exactly the well-typed grammars and mirrors them",
 "Type inference accepts a call-free, let-free grammar exactly when it is well typed: in every concatenation the first part is not nullable and the accumulated flast set never overlaps the next first set (later parts may use all enclosing fixed-point variables, the first part only the already unguarded ones), in every alternative the branches are never both nullable nor overlap in first sets, every variable is bound and unguarded, and every fixed point is over a one-argument function. On acceptance the typed tree has the same shape, terms, order, names and literals as the grammar and carries at every node the type given by the rules; any leftover call, let or stray function is rejected. The typing context is left exactly as it was.",
 ["programs"],"every grammar expression and every typing context",
 "Two unit tests type a two-letter concatenation and alternation; four example grammars are accepted; no ill-typed grammar is ever tried.",
 [I,T,CX,"src/chomp/visit.rs"],[("TypeInfer folder",I),("typed node constructors",T),("Visitable::fold","src/chomp/visit.rs")],(),["NamedExpression::fold with TypeInfer"])
p("C10","A fixed point gets the least type consistent with its body",
 "When inference accepts a fixed point, the type it reports is a type for which the body, with the bound variable given that type, has that same type, and it is contained in every other type with this property. The search for it always comes to an end: the candidate types only ever grow.",
 ["programs"],"every fixed-point body and every typing context",
 "Only fixed points that converge within the example grammars are run; leastness and termination are never observable from a passing example.",
 [I,T],[("fold_fix iteration from the empty type",I)],(),["type carried by the inferred fixed point"])
B="src/chomp/ast/substitute.rs"
p("C11","Substitution is capture-avoiding and touches nothing else",
 "Substituting an expression for a variable replaces exactly the occurrences of that variable at every depth by the expression, shifted past the binders crossed so that none of its free variables is captured, lowers by one every variable bound further out than the substituted one, and leaves every other part of the grammar (structure, order, literals, names, spans, binders) as it was. A replaced occurrence keeps the more significant of the two names. The substituted expression itself is unchanged by the operation.",
 ["programs"],"every expression, every index, every substituted expression",
 "Three unit tests on one-variable lambdas; nothing under two binders, no let, no capture situation.",
 [B,"src/chomp/visit.rs"],[("Substitute folder and with_args",B),("RenameVars mapper",B)],(),["fold with Substitute"])
p("C12","Reduction is exactly call-by-name beta and let expansion",
 "Reducing a grammar replaces every call of a function by the function body with all arguments simultaneously substituted for its parameters, and every let by its body with the bound expression substituted, continuing into the result; all other constructs are kept with their reduced parts in order (a function on its own is left untouched, a function under a fixed point has its body reduced). It fails exactly when a call is reached whose target does not reduce to a function or whose argument count differs from the parameter count, and it reports that call. The reduced result of a call or let carries the call's span and the most significant of the names involved.",
 ["programs"],"every grammar expression on which reduction finishes",
 "One unit test reduces the identity function applied to a variable; multi-argument calls, nested calls and both error cases are never checked for their result.",
 [B,"src/chomp/ast/mod.rs"],[("Reduce folder",B),("Expression::try_into_lambda","src/chomp/ast/mod.rs")],(),["fold with Reduce"])
N="src/chomp/name.rs"
p("C13","Merging names keeps the most significant one, leftmost on ties",
 "Merging any sequence of optional names returns nothing only if all are absent, and otherwise the leftmost name among those of highest rank, where a label outranks a let name, which outranks a variable name. Merging is therefore associative with the absent name as identity, and never alters the chosen name.",
 ["inputs"],"every sequence of optional names",
 "No unit test merges names; the examples exercise a handful of label/variable pairs.",
 [N],[("Name::merge, Name::merge_all, ordering of Kind",N)],(),["Name::merge, Name::merge_all"])
p("C14","Name equality is an equivalence that ignores raw prefixes and agrees with hashing",
 "Two name contents compare equal exactly when their texts, without any raw-identifier prefix, are equal, no matter whether each came from source tokens or from a plain string, and comparison with a string follows the same rule. Equality is therefore reflexive, symmetric and transitive, and equal contents feed identical data to a hasher.",
 ["inputs"],"every pair (triple) of identifiers, raw or not, and strings",
 "Nothing compares raw identifiers with plain ones in the tests.",
 [N],[("PartialEq and Hash for Content",N)],(),["== and Hash on names"])
V="src/nibble/convert.rs"
p("C15","Every name in a grammar resolves to its innermost binder, or is rejected",
 "Converting a grammar turns each identifier into the index of its innermost enclosing binder of that name (parameters of enclosing functions, earlier lets; later parameters and later lets shadow earlier ones), and rejects the grammar with that name exactly when an identifier has no enclosing binder. Parameters are visible only in the body of their function and a let name only in the statements after it, never in its own definition; converting an expression leaves the scope as it was, on success and on failure.",
 ["programs"],"every grammar syntax tree and every starting scope",
 "The four example grammars have no shadowing and no undeclared name.",
 [V,N],[("Context::lookup / push_variable / with_variable / with_variables",V),("Convert implementations for Ident, Lambda, LetStatement",V)],[("bindings","names in scope, innermost last",V)],["Convert::convert"])
p("C16","Conversion keeps the grammar's structure, order and labels",
 "Converting a syntax tree yields an expression of the same shape: a sequence, choice or application of several parts becomes one node holding the converted parts in order (each further part with the separator before it), a single part is passed through unchanged, and literals, fixed points, functions (with their parameters in order) and lets are carried over one to one. A label becomes the name of the part it labels and outranks any other name; a let's name names its bound expression; the goal is named after itself unless it already has a name. An empty sequence, choice or application is rejected.",
 ["programs"],"every grammar syntax tree",
 "The examples only assert that generated code comes out, not what the intermediate expression is.",
 [V,"src/nibble/mod.rs"],[("Convert implementations",V)],(),["Convert::convert"])
L="src/lower/mod.rs"
p("C17","Generated types are shared only between parts with the same meaning",
 "While a grammar is lowered, two parts are given the same generated type only if they are the same construct over the same literal or the same component types in the same order; for fixed points and variables that means the same body under the same enclosing fixed points, and the fixed point the variable refers to. Each new part gets an identifier that no other part has, the dependencies recorded for a type are exactly its component types, and the stack of enclosing fixed points is restored afterwards.",
 ["programs","histories"],"every sequence of lowered typed grammars",
 "The example grammars never instantiate one fixed-point body under two different outer fixed points.",
 [L],[("lit_map / cat_map / alt_map / fix_map / var_map",L),("context of enclosing fixed points",L)],[("data","generated types by identifier",L),("context","enclosing fixed points",L)],["emitted type definitions"])
p("C18","Every needed type is defined exactly once under a unique name",
 "The code emitted for a grammar defines every type reachable from the goal exactly once and nothing else besides the goal's alias, and no two of the emitted definitions, the fields of one struct or the variants of one enum share a name.",
 ["programs"],"every grammar, with every choice of names and labels in it",
 "The example grammars use no label that looks like a generated name, so no collision can show.",
 [L],[("new_type_name, name_parts_snake, name_parts_camel",L),("emit_code worklist",L)],[("name_map","how often each type name was used",L)],["emitted token stream"])
p("C19","A generated parser's value prints back exactly the text it consumed",
 "For every grammar the generator accepts, each generated parser, run on any input, either fails or returns a value whose displayed text is exactly the characters it consumed, in order; the value's shape is one the grammar describes (sequences contain all parts in order, a choice one of its branches, a literal its exact text).",
 ["programs","inputs"],"every accepted grammar, every input",
 "The tests compile the generated code for five grammars and never run four of them; the compare test runs one generated parser on five inputs without printing.",
 [L,CP],[("Parse and Display templates in gen_literal, gen_cat, gen_alt, gen_fix, gen_variable",L)],(),["Parse::take and Display of generated types"])
p("C20","A generated parser accepts exactly the grammar's language",
 "For every grammar the generator accepts, the generated whole-input parser succeeds on exactly the strings in the language the grammar denotes.",
 ["programs","inputs"],"every accepted grammar, every input string",
 "Needs all grammars and all strings; the tests run one grammar on five accepted inputs.",
 [L,I,CP],[("LL(1) choice on first sets in gen_alt",L),("side conditions in TypeInfer",I)],(),["parse_str of the generated goal type"])
J="chomp-bench/src/json/mod.rs"
p("C21","JSON \\u escapes decode to the number and character they denote",
 "In the bundled hand-written JSON reader, a \\u escape reads exactly four hexadecimal digits of either letter case and yields the 16-bit number they spell, most significant digit first; anything other than a hexadecimal digit is an error at that character. A high surrogate combined with a low surrogate yields exactly the character that pair encodes in UTF-16. When a string is read, its value is exactly its characters in order with every escape replaced by the character it denotes, and exactly the text up to and including the closing quote has been consumed.",
 ["inputs"],"every four characters after the escape and every surrogate pair",
 "chomp-bench has no tests at all.",
 [J],[("parse_u16","nested in Value::take, "+J),("decode_pair",J)],(),["decoded string values"])
p("C22","The hand-written and the bootstrapped front end agree",
 "For every grammar text, the token-based front end and the bootstrapped front end either both reject it or produce equal expressions.",
 ["inputs"],"every grammar text",
 "The compare test checks five files.",
 ["src/nibble/mod.rs","autonibble/src/lib.rs"],[("Parse implementations of the syntax tree","src/nibble/mod.rs"),("Convert for the bootstrapped tree","autonibble/src/lib.rs")],(),["NamedExpression produced by each front end"])
M="src/nibble/mod.rs"
p("C23","A grammar's text is read by one fixed syntax, in one way only, and written back unchanged",
 "A token sequence is accepted as a grammar exactly when it follows the syntax: any number of 'let name parameters = expression ;' and one closing 'match expression ;', with nothing after it; an expression is an alternation or a function '/ parameters / alternation' with at least one parameter, the body reaching as far right as possible; an alternation is one or more alternatives between '|'; an alternative is one or more calls between '.', then at most one ': label'; a call is one or more terms side by side; a term is an underscore, an identifier, a string literal, '!' before a term, or an expression filling a pair of parentheses. Separators never trail, let names, labels and identifiers in terms may be keywords, parameters may not. The tree that is read writes back exactly the tokens that were read, and no other tree has these tokens.",
 ["inputs"],"every token sequence, at every nesting depth",
 "The tests read five well-formed grammar files; no ill-formed text is ever tried and nothing writes a tree back.",
 [M],[("Parse implementations of the 13 node types",M),("ToTokens implementations of the 13 node types",M)],(),["syn::parse_str::<Statement>, ToTokens of the result"])
p("C24","Grammars are equal exactly if they are the same apart from where they stand in a file, and equal ones hash alike",
 "Two untyped expressions compare equal exactly if they are built from the same constructs in the same order with the same literals, variable indices, parameter names and let names (a name counts with its kind and its text without any raw prefix); where they stand in the source and which names their parts carry make no difference. Two typed expressions compare equal exactly if they have the same constructs, literals and indices and moreover the same names on corresponding parts and the same types (nullability, first set, flast set); where they stand makes no difference. Equality is therefore reflexive, symmetric and transitive, and typed expressions, types, sets and names that are equal feed the same data to every hasher, so that maps keyed by grammars find them.",
 ["inputs"],"every two expressions, before and after typing, at every depth",
 "No test compares or hashes two grammars; the generator's map hits only for a few repeated parts of five grammar files.",
 ["src/chomp/ast/mod.rs","src/chomp/typed/mod.rs","src/chomp/name.rs","src/chomp/set.rs"],[("PartialEq implementations (written and derived) of the syntax trees","src/chomp/ast/mod.rs"),("PartialEq and Hash implementations (written and derived) of the typed trees","src/chomp/typed/mod.rs"),("derived PartialEq and Hash of Name, Kind, FirstSet, FlastSet","src/chomp/name.rs, src/chomp/set.rs")],(),["==", "Hash::hash"])
p("C25","The arithmetic reader computes the usual value or points at the first character that cannot stand there",
 "On a text, parse_expr of chomp-bench's hand-written arithmetic reader accepts exactly: blanks, one expression, and nothing else, where an expression is one or more products between '+' or '-', a product is one or more terms between '*' or '/', a term is decimal digits, '-' followed by decimal digits, or an expression in parentheses, and blanks may stand before the expression, after an operator, after '(', after the sign '-' and after each term. It returns the usual value: products before sums, both from left to right, '/' dropping the fraction towards zero, as long as every number and intermediate result fits 64 bits and nothing is divided by zero. Otherwise it reports an error whose position is that of the first character that cannot continue what was read so far, with that character, EndOfStream at the end if the text stops early, and InputContinues if something follows a complete expression.",
 ["inputs"],"every text, at every nesting depth, whose numbers and intermediate results fit 64 bits and that divides nothing by zero",
 "No test runs the arithmetic reader; benchmarks read eight fixed well-formed files and drop the value, and malformed input is never tried.",
 ["chomp-bench/src/arith/mod.rs"],[("take_number, take_term, take_product, take_expr, parse_expr","chomp-bench/src/arith/mod.rs")],(),["parse_expr"])
p("C26","A rejected grammar is blamed on the first part that breaks a rule, by the rule it breaks",
 "When type inference rejects a grammar, the error it returns is about the first offending part from left to right and from the inside out (a body of a fixed point counts with the types its variable is tried with, starting from the empty type), and it names the rule that part breaks: an empty first part of a concatenation, blamed on the first separator; a part whose beginning overlaps with what may follow the parts before it, two branches that may both be empty, or two that may start alike, each blamed on the separator before the later part; an unbound or guarded variable, a leftover call, function or let, or a fixed point of anything but a function of one parameter, blamed on that construct itself. Every rejection (conversion, reduction, inference) turns into a compiler error with exactly that place - for an undeclared name the place where it is written - and with the message of the rule, in which variables are shown by their name if they have one and argument counts are the actual ones.",
 ["inputs"],"every grammar that is rejected, at every depth, in every context",
 "No test looks at an error: the two error tests of the suite only build well-typed grammars.",
 ["src/chomp/typed/infer.rs","src/chomp/typed/error.rs","src/chomp/ast/error.rs","src/nibble/convert.rs"],[("TypeInfer's fold methods","src/chomp/typed/infer.rs"),("CatError, AltError, VariableError, TypeError: span, Display, From","src/chomp/typed/error.rs"),("ReductionError: Display, From","src/chomp/ast/error.rs"),("ConvertError: Display, From","src/nibble/convert.rs"),("Name and Content: Display, span","src/chomp/name.rs")],(),["TypeInfer::fold","TypeError::span","Display of the errors","syn::Error::from"])
p("C27","A parse error's message gives the place, what stands there and everything that could have stood there",
 "The message of a failed parse starts with line:column of the failure. An unexpected character is quoted and followed by every expected character, quoted, once, in the order of the list the error carries, or by a statement that the input should have ended if nothing was expected; an unexpected string is quoted together with the string that was expected; the end of the input, and input that goes on after the end, are reported as such. ParseError says exactly what the TakeError inside it says.",
 ["inputs"],"every error value, with any number of expected characters",
 "No test formats an error.",
 ["chewed/src/error.rs","chewed/src/position.rs"],[("Display of TakeError and ParseError","chewed/src/error.rs"),("Display of LineCol","chewed/src/position.rs")],(),["to_string of ParseError, TakeError, LineCol"])
p("C28","A grammar is printed with every part in its place",
 "Printing an expression shows all of its parts exactly once and in order: concatenations and alternations in parentheses with ' . ' and ' | ' between the parts, calls in parentheses with the arguments after the function, functions with all parameters between slashes before the body, 'let name = bound; body', '!' before the body of a fixed point, literals by their text, the empty expression as '_', and variables by their name or, without one, by their index. A part with a name that is not a variable is followed by its name, in parentheses.",
 ["inputs"],"every expression, at every depth and with any number of parts",
 "No test prints an expression.",
 ["src/chomp/ast/mod.rs","src/chomp/name.rs"],[("Display of Cat, Alt, Fix, Variable, Call, Lambda, Let, Expression, NamedExpression","src/chomp/ast/mod.rs"),("Display of Name and Content","src/chomp/name.rs")],(),["to_string of Expression and NamedExpression"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
