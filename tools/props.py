import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_T = {}
for _l in open(os.path.join(HERE, "properties.jsonl")):
    _j = json.loads(_l)
    _T[_j["id"]] = _j["title"]

# verification units: template specs/<unit>.rs; flags for Verus
UNITS = {
    "chewed": {},
    "types": {},
    "name": {},
    "subst": {},
    "infer": {},
    "convert": {},
    "json": {},
    "lower": {},
    "reader": {},
    "arith": {},
    "equal": {},
    "blame": {},
    "show": {},
}

_INF = ["fewer than 2^64 binders are nested (an addition that would overflow is taken not to return)"]
_SYN = ["syn's tokens, literals and Punctuated have the fields and values their stand-ins have (into_pairs gives the items in order with their separators)",
        "Spanned::span is a function of the tree"]
_CURSOR = [r"IterWrapper"]
_LOWER = [r"RustBackend as", r"GenerateCode", r"recurse_exprs", r"free_variables", r"Variable::index", r"Fix::unwrap", r"IntoIterator",
          r"get_type", r"Literal as From<Literal>"]
_GEN = ["quote's templates are read by the extractor: a definition's name, fields or variants and their types, and what its Display and Parse implementations do; "
        "the rest of the generated text (attributes, conversions to char) is not under contract",
        "heck's case conversions turn an identifier into characters that are allowed in one",
        "HashMap, HashSet and BTreeSet behave as maps and (ascending) sets; equal keys hash alike and compare by structure (verified in unit equal, C24)",
        "fewer than 2^64 types are generated (an addition that would overflow is taken not to return)"]
PROPS = {
    "C01": {"units": {"chewed": _CURSOR}},
    "C02": {"units": {"chewed": _CURSOR + [r"LineCol"]},
            "assumptions": ["line and column counts fit in usize (a precondition of next)"]},
    "C03": {"units": {"chewed": [r"consume_str"]}},
    "C04": {"units": {"chewed": [r"take_chars_from", r"skip_while"]},
            "assumptions": ["the predicate given to skip_while has no side effects on which its later answers depend (Verus treats calls of an FnMut as a relation)"]},
    "C05": {"units": {"chewed": [r"iter_strict", r"<Iter as Iterator>::next"]},
            "assumptions": ["the item parser leaves the parser it is given in a state reachable by reading characters (part of its contract)"]},
    "C06": {"units": {"chewed": [r"Parse>?::", r"Parser::take$|Parser::take as|Parser::parse", r"ParseError", r"Epsilon", r"IterWrapper::new"]},
            "assumptions": ["implementations of Parse::take outside the runtime library meet the trait's contract: they only read characters"]},
    "C07": {"units": {"types": [r"Set::", r"Type::"]}},
    "C08": {"units": {"types": [r"Context::"]},
            "assumptions": ["fewer than 2^64 binders are nested (an addition that would overflow is taken not to return)"]},
    "C09": {"units": {"infer": [r"TypeInfer", r"get_type", r"<(Raw)?(Typed|Type|Epsilon|Literal)\w* as From<", r"Context::", r"Set::", r"Type::", r"merge"]},
            "assumptions": _INF},
    "C10": {"units": {"infer": [r"TypeInfer", r"get_type", r"Context::", r"Set::", r"Type::"]},
            "assumptions": _INF},
    "C11": {"units": {"subst": [r"RenameVars", r"Substitute", r"as From<", r"merge", r"partial_cmp"]},
            "assumptions": ["variable indices and binder counts stay below 2^64 (an addition that would overflow is taken not to return)"]},
    "C12": {"units": {"subst": [r"Reduce", r"try_into_lambda", r"RenameVars", r"Substitute", r"as From<", r"merge", r"partial_cmp"]},
            "assumptions": ["variable indices and binder counts stay below 2^64 (an addition that would overflow is taken not to return)",
                            "termination of Reduce is not proved: the contract says what a returning call returns"]},
    "C13": {"units": {"name": [r"merge", r"partial_cmp", r"Name::new"]}},
    "C14": {"units": {"name": [r"Content as"]},
            "assumptions": ["proc_macro2 identifiers: unraw strips a leading r#, == and to_string use the text"]},
    "C15": {"units": {"convert": [r"Convert>::", r"Context::", r"Content as", r"Name::new"]}, "assumptions": _SYN},
    "C16": {"units": {"convert": [r"Convert>::", r"Name::", r"partial_cmp", r"as From<"]}, "assumptions": _SYN},
    "C21": {"units": {"json": [r"decode_pair", r"parse_u16", r"parse_str", r"consume_str", r"take_chars_from"]}, "crate": "replay_bench",
            "assumptions": ["u32::try_into::<char> gives the character of a scalar value",
                            "parse_str and decode_pair panic on malformed strings (todo!, assert!): the contracts say what a returning call returns; "
                            "that a proper surrogate pair does not panic is proved separately"]},
    "C23": {"units": {"reader": [r"as Parse>::parse", r"as ToTokens>::to_tokens"]},
            "assumptions": ["syn's ParseStream, lookahead, peek, parenthesized!, Token! types, Ident::parse_any and quote's ToTokens/append_all/surround do on a "
                            "sequence of tokens what their stand-ins in specs/readtoks.inc say (tokens without spacing, invisible groups flattened, an underscore is an identifier token; "
                            "what is left over in a group makes the whole parse fail); Punctuated::parse_separated_nonempty is verified as rewritten there",
                            "input.parse::<T>() and to_tokens on a T stand for T's own implementation, whose contract is verified with the others; that this recursion ends is not proved"]},
    "C24": {"units": {"equal": [r"as PartialEq>::eq", r"as Hash>::hash"]},
            "assumptions": ["derive(PartialEq) compares variants and then fields in order, derive(Hash) feeds the variant's number and then the fields",
                            "== and hash of numbers, strings, boxes, references, vectors, options and sets of characters compare and feed what they contain",
                            "inside an implementation, == and hash on a part stand for that part's own implementation, whose contract is verified with the others (the recursion goes down the tree)",
                            "proc_macro2 identifiers: unraw strips a leading r#, == uses the text"]},
    "C25": {"units": {"arith": [r"take_number", r"take_term", r"take_product", r"take_expr", r"parse_expr", r"consume_str", r"skip_while"]}, "crate": "replay_bench",
            "assumptions": ["an arithmetic overflow or a division by zero is taken not to return",
                            "checked arithmetic on i64, char::is_ascii_digit, Option::unwrap_or_default and unary minus do what their contracts say",
                            "that the mutual recursion of take_expr, take_product and take_term ends is not proved"]},
    "C26": {"units": {"blame": [r"TypeInfer", r"get_type", r"<TypeError as From<", r"Context::", r"Set::", r"Type::"],
                      "show": [r"<(Variable|Cat|Alt|Type|Reduction|Convert)Error as Display", r"(Cat|Alt|Type)Error::span", r"<Error as From<", r"(Name|Content) as"]},
            "assumptions": _INF + ["what write!, format! and to_string write is read off their format strings: {} stands for the value's own Display implementation, whose contract is "
                            "verified with the others, and numbers, strings and characters are shown by the library; width and precision of a formatter are ignored",
                            "syn::Error::new keeps the span and the message it is given",
                            "which error conversion and reduction return is part of C15 and C12"]},
    "C27": {"units": {"show": [r"(TakeError|ParseError|LineCol) as Display"]},
            "assumptions": ["what write! writes is read off its format string: {} stands for the value's own Display implementation, whose contract is verified with the others, "
                            "{:?} of characters and strings and {} of numbers are the library's; width and precision of a formatter are ignored"]},
    "C28": {"units": {"show": [r"<(Cat|Alt|Fix|Variable|Call|Lambda|Let|Expression|NamedExpression) as Display", r"(Name|Content) as Display"]},
            "assumptions": ["what write! writes is read off its format string: {} and fmt on a part stand for the part's own Display implementation, whose contract is verified "
                            "with the others (the recursion goes down the tree), and strings and numbers are shown by the library; width and precision of a formatter are ignored",
                            "proc_macro2 identifiers are displayed as their text, with a raw prefix if they have one"]},
    "C17": {"units": {"lower": _LOWER + [r"new_type_name", r"unused_name", r"PartialEq>::eq"]}, "assumptions": _GEN},
    "C18": {"units": {"lower": _LOWER + [r"RustBackend::", r"emit_code", r"CamelCase|SnakeCase|make_ident|Ident as From"]}, "assumptions": _GEN},
}
_RUN = ["what the emitted code does is what the interpreter run (and show) in specs/run.inc does with the plans read from the templates: "
        "take of Epsilon, char, strings and the tuple fields in order, match on peek, ?; each step is what the runtime's contracts of C01, C03 and C06 say",
        "format_ident! with different numbers gives different identifiers",
        "the generated types compile (Box around recursive ones, no name clashes: C18) - run concretely by the search, which compiles emitted code"]
_NAMES = [r"new_type_name", r"unused_name", r"CamelCase|SnakeCase|make_ident|Ident as From"]
PROPS["C19"] = {"units": {"lower": _LOWER + _NAMES + [r"RustBackend::", r"emit_code", r"PartialEq>::eq"]},
                "assumptions": _GEN + _RUN, "ms": 20000}
PROPS["C20"] = {"units": {"lower": _LOWER + _NAMES + [r"RustBackend::", r"emit_code", r"PartialEq>::eq"],
                          "infer": PROPS["C10"]["units"]["infer"]},
                "assumptions": _GEN + _INF + _RUN, "ms": 20000}
# derived or written: equality, hashing, copies and defaults that other contracts rely on
_COPY_SETS = r"<(Type|FirstSet|FlastSet) as (Clone>::clone|Default>::default)"
_COPY_NAMES = r"<(Name|Kind|Content) as Clone>::clone"
_COPY_AST = r"<ast::\w+ as Clone>::clone"
_COPY_TYPED = r"<typed::\w+ as Clone>::clone"
_TYEQ = r"<(Type|FirstSet|FlastSet) as PartialEq>::eq"
_KEYS = r"<(typed::\w+|ast::Variable|Type|FirstSet|FlastSet|Name|Kind) as (PartialEq>::eq|Hash>::hash)"
for _ks, _v in (
    (("C07", "C08"), [_COPY_SETS]),
    (("C09", "C10"), [_COPY_SETS, _COPY_NAMES, _COPY_AST, _COPY_TYPED, _TYEQ]),
    (("C11", "C12", "C15", "C16"), [_COPY_NAMES, _COPY_AST]),
    (("C13", "C14"), [_COPY_NAMES]),
    (("C17", "C19", "C20"), [_COPY_SETS, _COPY_NAMES, _COPY_TYPED, _KEYS]),
    (("C18",), [_COPY_SETS, _COPY_NAMES, _COPY_TYPED]),
):
    for _k in _ks:
        PROPS[_k]["units"] = dict(PROPS[_k]["units"], equal=_v)
for _k, _v in PROPS.items():
    _v["title"] = _T[_k]

_PENDING = "not claimed yet"
NOT_APPLICABLE = {k: _PENDING for k in _T if k not in PROPS}
NOT_APPLICABLE["C22"] = ("the bootstrapped front end is code generated at build time by the crate itself; agreement of two parsers of "
                         "the same language is a relation between two whole programs, one of them macro-generated text, which no function contract expresses")
NOT_APPLICABLE = {k: v for k, v in NOT_APPLICABLE.items() if k not in PROPS}
