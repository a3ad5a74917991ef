#!/usr/bin/env python3
# Writes ../properties.jsonl (kept as a program so that the statements stay readable).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe.split("; ")}
    if state: a["state"] = [{"name": state, "meaning": "shared by all parsers of a process", "where": "ast/type_embedded.go, token, log/base.go"}]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Tokenizing loses, repeats and invents no character of the source",
 "For every text, the tokens produced with spaces and comments kept lie end to end: the first starts at the first character, each starts where the one before it ends, the last ends where the text ends, none is empty, and joining their texts gives the source back. With spaces or comments dropped the tokens are exactly the same ones without those. After the end, only end-of-text tokens come, however often one asks.",
 ["inputs"], "every sequence of Unicode code points, each of the four keep/drop settings of spaces and comments",
 "A test lists the tokens of a few snippets; a dropped or swallowed character shows only on particular neighbours (unterminated comment, two-character symbol at the end of the text, a rune no token starts with).",
 ["token/tokenizer.go", "token/comment.go", "token/string.go", "token/numeral.go", "token/special_symbols.go", "token/word.go", "token/space.go", "runes/cursor.go"],
 [("tokenizer loop over processors", "token/tokenizer.go GetNext"), ("cursor", "runes/cursor.go Next")], "stream of tokens returned by the tokenizer")

prop("P02", "Every token and identifier knows its exact line, column and offset",
 "For every source text, the start and end positions of every token, and the location kept in every identifier of a parse result, are the offset, line and column (both counted from 1, in characters) at which that token's first character stands and its last one ends. This stays true when the parser had to look ahead and go back, after comments and strings with line breaks, with CRLF line ends and with non-ASCII characters.",
 ["inputs"], "every text (one that starts with a line break is a known finding), every layout of a program",
 "Positions depend on everything to the left of a token; tests check short one-line snippets, and going back after a look-ahead across a line break is not among them.",
 ["runes/cursor.go", "runes/position.go", "token/token.go", "parser/base.go", "ast/astcore/ident.go"],
 [("pending line break of the cursor", "runes/cursor.go Next, Clone"), ("look-ahead and return", "parser/base.go RollbackPoint"), ("location of an identifier", "ast/astcore/ident.go NewIdent")],
 "positions of tokens; locations of all identifiers of the result tree")

prop("P03", "Every token gets the class the language defines for its text",
 "For every text, the split into tokens and the class of each (space, comment, symbol, identifier, reserved word in any letter case, integer, real, character string, or no legal token) are those of the lexical rules: the longest word, number, or two-character symbol wins, the three comment styles hide everything up to their own end mark, a string runs to its closing quote. Nothing is a reserved word that is not in the language's list and no word of that list is an identifier.",
 ["inputs"], "every sequence of Unicode code points",
 "There are 66 reserved words times their letter cases, 30 symbols and their neighbours, and three comment styles that may contain each other's marks; tests sample a few.",
 ["token/reserved_words.go", "token/word.go", "token/special_symbols.go", "token/numeral.go", "token/string.go", "token/comment.go", "runes/word.go", "runes/digit.go"],
 [("order of the processors", "token/tokenizer.go processors"), ("reserved word table", "token/reserved_words.go")], "class and text of each token")

prop("P04", "Spaces, line breaks and comments never change the parse result",
 "Two sources that differ only in the spaces, line breaks and comments between their tokens are both accepted or both rejected. If accepted, their result trees are equal except for positions, and if rejected, the errors name the same offending token.",
 ["inputs"], "every accepted or rejected source and every way of laying it out",
 "Tests use one layout per snippet; a construct that looks at the next character or goes back over a comment breaks only under another layout.",
 ["token/tokenizer.go", "token/comment.go", "token/space.go", "parser/base.go", "parser/type_simple.go", "parser/type_struc.go", "parser/statement_try.go"],
 [("skipping of spaces and comments", "token/tokenizer.go GetNext"), ("look-ahead", "parser/base.go RollbackPoint")], "result tree or error of each layout")

prop("P05", "Letter case of keywords, directives and names never changes the meaning",
 "Two sources that differ only in the letter case of reserved words, directives, predefined constants and type names, and names are both accepted or both rejected. If accepted, their result trees are equal up to that letter case, and every name refers to the same declaration in both; identifiers keep the spelling of the source.",
 ["inputs"], "every source and every choice of letter case for each of its words, including names of several scopes and units",
 "Each place that compares words has to fold case by itself (dozens of them); tests spell each word one or two ways.",
 ["token/token.go", "token/predicate.go", "token/directives.go", "ast/astcore/decl_map.go", "ast/type_embedded.go", "ast/type_class.go", "parser/type_class.go", "parser/unit_parsers.go", "ast/uses_clause.go", "ast/manifest_constants.go"],
 [("upper-casing of reserved words", "token/token.go Value"), ("regularized names", "ast/astcore/decl_map.go regularize"), ("directive words", "token/directives.go")], "result trees with references")

prop("P06", "Any text ends in a tree or an error: no panic, no hang, no empty success",
 "For every text given to any entry point of the parser, well-formed or not, the call returns, with work that stays in proportion to the text's length times its nesting depth (and, where it names members of a class, times the number of that class's members). It returns either a complete result or an error, never both absent and never by crashing, and traversing an accepted result does not crash either.",
 ["inputs"], "every text up to moderate nesting depth (thousands), at every entry point; random bytes, token soup, truncations and mutations of valid sources",
 "Tests give almost only valid snippets; crashes and endless loops need an unexpected token or the end of the text at one particular point of one particular construct.",
 ["parser", "token", "runes", "ast/type_class.go", "ast/type_id.go"],
 [("list loop", "parser/base.go Until"), ("token validation", "parser/base.go Validate"), ("member lookup along ancestors", "ast/type_class.go lineage"), ("alias chains", "ast/type_id.go")], "outcome of each call (result, error, panic), CPU time of the worker process")

prop("P07", "Expressions parse to the tree their grammar and precedence define",
 "Every expression of the documented grammar, of any size and nesting, parses to exactly one tree: operators grouped by their level (relational, additive, multiplicative, unary) in source order, every operand, argument, index, set element and cast in its place, nothing dropped or reordered.",
 ["inputs", "programs"], "every expression over the documented operators, designators with members, indexes, dereferences and calls, literals, sets, casts, addresses, NOT and parentheses",
 "Each operator may meet each other and each kind of operand at each level; tests check some pairs.",
 ["parser/expression.go", "ast/expression.go", "ast/manifest_constants.go"],
 [("levels", "parser/expression.go ParseExpression, ParseSimpleExpression, ParseTerm, ParseFactor"), ("designator", "parser/expression.go ParseDesignator"), ("set constructor", "parser/expression.go ParseSetConstructor")], "expression trees")

prop("P08", "Statements parse to the tree their grammar defines",
 "Every statement of the documented grammar, of any nesting, parses to exactly the tree that grammar defines: every part in its place and in source order, an ELSE belonging to the nearest open IF, list ends and separators (extra, missing-before-end, empty statements) changing nothing else, labels on their statement, and handlers, selectors and branches complete.",
 ["inputs", "programs"], "every statement: assignment, call, goto, inherited, begin, if, case, repeat, while, for, with, try-except, try-finally, raise, asm, labeled and empty ones, nested in any way",
 "Nesting multiplies: what ends an inner statement depends on the enclosing one; tests use one or two levels.",
 ["parser/statement.go", "parser/statement_conditional.go", "parser/statement_loop.go", "parser/statement_try.go", "parser/statement_raise.go", "parser/statement_with.go", "parser/statement_asm.go", "ast/statement.go"],
 [("statement list and its end", "parser/statement.go ParseStmtList"), ("dispatch", "parser/statement.go ParseStatement"), ("handlers", "parser/statement_try.go")], "statement trees")

prop("P09", "Type, variable and constant declarations parse completely",
 "Every type of the documented grammar (named, subrange, enumerated, strings with and without length, arrays, sets, files, records with nested and variant parts, pointers, procedural types, class references; packed or not), wherever a type may stand, and every constant, variable, thread variable and label declaration parses to a tree with all its parts, in source order. Parsing a type always ends on the token right after it.",
 ["inputs", "programs"], "every nesting of types in types and every place where a type may stand",
 "Types nest in one another and in records, variants, classes, parameters and sections, and each combination has its own following token; tests check each type mostly on its own.",
 ["parser/type.go", "parser/type_simple.go", "parser/type_struc.go", "parser/type_string.go", "parser/type_procedure.go", "parser/type_variant.go", "parser/var.go", "parser/const.go", "ast/type_struc.go", "ast/type_simple.go", "ast/var.go", "ast/const.go"],
 [("type dispatch", "parser/type.go ParseType"), ("field lists and variants", "parser/type_struc.go ParseFieldList, ParseVariantSection"), ("sections", "parser/var.go, parser/const.go, parser/type.go")], "declaration trees")

prop("P10", "Class declarations keep every member, section and specifier",
 "Every class declaration of the documented grammar parses to a tree that has its heritage list, its member sections with their visibility in source order, and in each section every field, method (kind, parameters, result, directives) and property (array parameters, type, index, read, write, stored, default or nodefault, implements) with nothing lost, merged or moved to another section.",
 ["inputs", "programs"], "every class over sections in any visibility order (repeated, empty, with or without a leading implicit one) and any members",
 "A member's end is found by looking for what may follow it (another member, a visibility word, END); tests see few of these neighbours.",
 ["parser/type_class.go", "ast/type_class.go", "ast/type_class_ref.go"],
 [("member sections", "parser/type_class.go ParseClassMemberSection"), ("property specifiers", "parser/type_class.go ParseClassProperty"), ("method directives", "parser/type_class.go ClassMethodDirectiveList")], "class trees")

prop("P11", "Routine headings, parameters, directives and nested blocks are exact",
 "Every routine declaration parses to its kind, name, parameter groups (mode, names, type, open array, default value), result type, directives in order with library, name or index of external ones, and its own block of declarations and statements; forward and external routines have none and take nothing of what follows. Routines nest to any depth without declarations moving between blocks.",
 ["inputs", "programs"], "every heading, every list of directives, every nesting of blocks",
 "Where a routine ends depends on its directives and on nesting; tests check headings one at a time and shallow nesting.",
 ["parser/function.go", "parser/function_heading.go", "parser/block.go", "parser/type_procedure.go", "ast/function.go", "ast/function_heading.go", "ast/directive.go", "ast/block.go"],
 [("heading", "parser/function_heading.go ParseFunctionHeading, ParseFormalParameters"), ("directives", "parser/function_heading.go ParseFunctionDirectives, ParseExternalOptions"), ("blocks", "parser/block.go ParseBlock, ParseDeclSections")], "routine trees")

prop("P12", "Programs and units keep every section, uses item and export in order",
 "For every program and unit of the documented grammar the result has its name, its uses items with their paths, all declaration sections in source order, all exports statements with their names and indexes on the right side of the body, the body, and for units the interface, implementation, initialization and finalization parts, each with exactly what the source has there.",
 ["inputs", "programs"], "every program and unit over any number and order of sections",
 "Dropping or replacing one of several sections needs several sections of the same kind in one source; tests mostly have one of each.",
 ["parser/program.go", "parser/unit_parser.go", "parser/block.go", "parser/uses_clause.go", "ast/program.go", "ast/unit.go", "ast/block.go", "ast/uses_clause.go"],
 [("program", "parser/program.go ParseProgram, ParseProgramBlock"), ("unit parts", "parser/unit_parser.go"), ("exports", "parser/block.go ParseExportsStmts")], "program and unit trees")

prop("P13", "Ungrammatical text is rejected, with the place of the offending token",
 "A source that departs from the grammar by a missing, extra or wrong required token (closing bracket, separator, keyword, operand, name) is rejected with an error, not accepted as something else. (The parser is deliberately lenient in a few places, which are not meant: a missing semicolon after the last declaration of a section, after methods and properties of a class and between exception handlers, a spare semicolon between declaration sections, a missing block of a program or routine, and text after the final full stop.) A syntax error that quotes the offending token gives the file and the exact line and column at which that token stands.",
 ["inputs", "programs"], "every valid source damaged by deleting, inserting or replacing one required token; truncation at every token",
 "Leniency shows only for particular wrong tokens at particular points, and tests contain few invalid sources.",
 ["parser/base.go", "parser/expression.go", "parser/statement.go", "parser/type.go", "parser/type_struc.go", "parser/type_class.go", "parser/function_heading.go", "parser/unit_parser.go", "parser/program.go"],
 [("validation", "parser/base.go Validate, TokenErrorf, PlaceString")], "error of each parse")

prop("P14", "A name refers to the innermost declaration visible at its place",
 "Wherever a name is used, its reference is the declaration that the block structure makes visible there: the innermost enclosing block, routine parameters and the routine itself, exception variable, outer blocks, used units, predefined types; a declaration is visible from its place to the end of its own block and nowhere else. A name with no visible declaration has no reference.",
 ["inputs", "programs"], "every nesting of blocks and handlers with names redeclared at any level, uses before, inside and after each block",
 "A scope that leaks, is dropped or is replaced is seen only if the same name is used again after it; tests have few names and few levels.",
 ["parser/pcontext/program_context.go", "parser/pcontext/unit_context.go", "parser/pcontext/stackable_context.go", "ast/astcore/decl_map.go", "parser/function.go", "parser/statement_try.go", "parser/ident.go", "parser/base.go"],
 [("stack of scopes", "parser/pcontext StackDeclMap"), ("lookup", "ast/astcore/decl_map.go Get"), ("declaring", "parser context.Set call sites")], "reference of every used name in the result tree")

prop("P15", "Units show their interface only, later units first, and qualify exactly",
 "A name found in no local scope refers to the interface declaration of the used units, the unit named later in a uses clause winning; nothing of a unit's implementation is visible outside it. A name qualified by a unit refers to that unit's interface declaration of that name even if it is hidden; if there is none, that is an error in an expression or statement, and a type name without reference.",
 ["programs", "configurations"], "every set of units with overlapping names, every order of the uses clauses of program, interfaces and implementations",
 "Which of several units wins shows only with overlapping names and several orders; tests have two units.",
 ["parser/program.go", "parser/unit_parser.go", "parser/unit.go", "parser/pcontext/unit_context.go", "parser/type.go", "ast/unit.go", "ast/uses_clause.go"],
 [("lookup order", "parser/program.go LoadUnits; parser/unit_parser.go ProcessImplAndInit; parser/pcontext/unit_context.go ImportUnitDecls"), ("exported declarations", "parser/unit_parser.go ParseUnitIntfBody"), ("qualified names", "parser/unit.go ParseQualId; parser/type.go parseTypeIdWithUnit")], "references in programs and units loaded from files")

prop("P16", "Units load exactly once, in dependency order; interface cycles are errors",
 "For every program whose uses clause names unit files, each is loaded exactly once, each unit's interface after those of all units its interface uses whatever the order of the uses clause, and the program's list of units has them in uses order, attached to the uses items that name them. Interfaces that use each other in a cycle are reported as an error, and so are a unit loaded twice and a unit file whose unit is not named in the uses clause; uses of implementations may be cyclic.",
 ["programs", "configurations"], "every dependency graph of units and every order of the uses clauses",
 "Tests have graphs of two or three units in one order; the wrong order or a missed cycle needs a particular graph.",
 ["parser/unit_parsers.go", "parser/program.go", "parser/pcontext/unit_context.go", "ast/uses_clause.go", "ast/unit.go", "ext/strings.go", "ext/string_set.go"],
 [("dependency graph", "parser/unit_parsers.go Graph, Sort"), ("loading", "parser/program.go LoadUnits"), ("assigning units to uses items", "parser/pcontext/unit_context.go AssignUnits")], "units of the program, units of uses items, references, errors")

prop("P17", "Forward classes and types named before their declaration get resolved",
 "In every type section, a type name used before the section declares it (pointer base, class reference, field, parameter, heritage, self reference) refers to that declaration once the section has ended, and a name the section never declares has no reference. A forward class is completed by the class declared later under its name in any letter case, with several forward classes at once each getting its own, and uses of the name afterwards refer to the full class.",
 ["inputs", "programs"], "every order of mutually referring types and forward classes in sections at any block level",
 "Resolution happens at the end of a section and mixes all pending names; tests have one pending name.",
 ["parser/type.go", "parser/type_class.go", "parser/base.go", "ast/type_forward_declaration.go", "ast/type_class.go"],
 [("pending resolutions", "parser/base.go AddPostSection, RunPostSectionFuncs"), ("completion of forward classes", "parser/type.go findForwardDeclaration, ParseTypeDecl")], "references and forward classes of type sections")

prop("P18", "Property accessors resolve to the right member along the class ancestry",
 "The read, write and stored names of a property refer to the member of that name in the class itself, or else in its nearest ancestor where it is not private; a name that is no such member is an error. A property that redeclares an inherited one without its type or accessors is linked to the nearest inherited property of that name, and its effective type and specifiers are its own ones, completed by the inherited ones. A class asked by name, in any letter case, for a member (with or without its own private ones) or for a property (with or without those of its ancestors) gives the nearest one of that name these rules allow, or none.",
 ["inputs", "programs"], "every chain of classes (also across units and aliases) with members redeclared and hidden at any level in any visibility",
 "The outcome depends on visibility, order and depth of the whole ancestry; tests have at most two classes in a chain.",
 ["ast/type_class.go", "parser/type_class.go"],
 [("member lookup", "ast/type_class.go FindMemberDecl, findOwnMemberDecl, lineage"), ("property overriding", "ast/type_class.go InheritsFrom, ComputedProperty, FindProperty")], "references and parents of properties, computed properties")

prop("P19", "Declaring a name twice in one scope is an error, in different scopes it is not",
 "A source that declares the same name (in any letter case) twice in one scope, by whatever kinds of declaration, is rejected with an error naming it; forward classes, and routines that share a name with routines (forward declarations, overloads), are the exceptions. Declaring it again in another scope (nested block, parameter list of another routine, other unit, record or class members) is accepted.",
 ["inputs", "programs"], "every pair of declaration kinds and every pair of places",
 "There are many pairs of kinds and places; tests have a handful of duplicates.",
 ["ast/astcore/decl_map.go", "parser/const.go", "parser/var.go", "parser/type.go", "parser/type_simple.go", "parser/function.go", "parser/function_heading.go", "parser/block.go", "parser/uses_clause.go"],
 [("duplicate detection", "ast/astcore/decl_map.go Set"), ("declaring", "parser context.Set call sites")], "acceptance and error text")

prop("P20", "Parsing is a pure function of the source: no state carries over",
 "Parsing the same source gives the same result or the same error every time, whatever was parsed before in the process, successfully or not, whether logging is on or off, and in whatever order the entry points are used. Parsing leaves the source text as it was, and later parses change no earlier result.",
 ["histories", "inputs"], "every sequence of parses of valid and invalid sources in one process",
 "A leak into shared tables needs a particular earlier parse to be seen; each test runs few parses and compares no earlier results.",
 ["ast/type_embedded.go", "ast/astcore/decl_map.go", "token/predicate.go", "token/special_symbols.go", "log/base.go", "parser/base.go", "parser/unit_parsers.go"],
 [("shared table of predefined types", "ast/type_embedded.go EmbeddedTypeDeclMap"), ("unordered maps", "token/special_symbols.go, parser/unit_parsers.go"), ("logger", "log/base.go SetLogger")], "dumps of results before and after other parses")

prop("P21", "Parsers running at the same time neither race nor affect each other",
 "Any number of parsers, each used by one goroutine, may run at the same time on their own sources, also on sources that use the same predefined types or the same unit files. No data race occurs and each gets exactly the result it gets when run alone.",
 ["schedules", "inputs"], "every interleaving of parsers in one process",
 "The tests run parsers one after another and without the race detector.",
 ["ast/type_embedded.go", "ast/astcore/decl_map.go", "token", "log/base.go", "parser"],
 [("shared tables", "ast/type_embedded.go, token/directives.go, token/reserved_words.go"), ("logger", "log/base.go")], "race detector reports; dumps compared with sequential runs",
 "package-level tables and the logger")

prop("P22", "Source files are read as Shift_JIS in full; unreadable ones are errors",
 "Parsing a program from its file gives the same result as parsing its decoded text, with every Japanese character of strings and names and every position counted in characters, for the program file and every unit file, whatever the size of the files, their line ends and their directories; a back slash in the path of a uses item separates directories. A file that is missing, cannot be read or is a directory gives an error naming it.",
 ["inputs", "configurations", "fault_sequences"], "every text that Shift_JIS can encode, every file size, a missing or unreadable file at every position of the uses clause",
 "Tests parse a few small ASCII files that all exist; multi-byte characters at buffer borders need larger files.",
 ["parser/program.go", "parser/unit_parser.go", "ast/uses_clause.go"],
 [("reading and decoding", "parser/program.go ParseProgram; parser/unit_parser.go LoadFile"), ("path of a uses item", "ast/uses_clause.go EffectivePath")], "results from files compared with results from text; errors")

prop("P23", "Walking a tree visits every node exactly once, parents first, until an error",
 "For every accepted source, walking the result tree visits every node that the source's constructs gave rise to exactly once, a parent before its parts and the parts in source order (except that an exports item's INDEX and NAME may come in either order), never a missing node. It stops at once and returns the error if the visitor returns one.",
 ["inputs", "programs"], "every result tree, every point at which the visitor may fail",
 "Each of about 60 node kinds lists its own children; a forgotten part is seen only by walking a tree that has that part.",
 ["ast/astcore/node.go", "ast"],
 [("walk", "ast/astcore/node.go WalkDown"), ("children of each node kind", "ast/*.go Children")], "sequence of visited nodes compared with the tree's own fields and the identifiers of the source")

prop("P24", "Declaration maps behave as nested, case-insensitive name tables",
 "For every sequence of operations on plain, chained and composite declaration maps and parser contexts, a lookup returns the declaration last put under that name (in any letter case) in the first map of the search order that has one. Declaring goes to the innermost map only and fails without changing the existing entry if that very map has the name; overwriting replaces it there only; leaving a scope restores the view before it.",
 ["histories"], "every sequence of declare, overwrite, look up, enter and leave operations over nested and shared maps",
 "The state is the whole history of operations; tests check single steps.",
 ["ast/astcore/decl_map.go", "parser/pcontext/program_context.go", "parser/pcontext/unit_context.go", "parser/pcontext/stackable_context.go"],
 [("maps", "ast/astcore/decl_map.go"), ("contexts", "parser/pcontext")], "results of each operation compared with a model")

prop("P25", "Array indexes, set bases and tags are accepted if and only if ordinal",
 "An array index type, a set base type and a variant tag type are accepted exactly when they are ordinal: subranges, enumerations, the predefined integer, character and boolean types, and names that lead to one of these through any number of aliases, scopes and units. Every named type answers the questions whether it is ordinal, real, a string, a pointer or a variant according to the type its name finally stands for.",
 ["inputs", "programs"], "every predefined type and every chain of aliases to any kind of type, also hidden, qualified or undeclared ones",
 "The answer depends on the chain of declarations behind a name; tests use predefined names or one alias.",
 ["ast/type_id.go", "ast/type_embedded.go", "ast/type_simple.go", "parser/type_simple.go", "parser/type_struc.go"],
 [("classification", "ast/type_id.go"), ("check", "parser/type_simple.go ParseTypeAsOrdinalType"), ("predefined types", "ast/type_embedded.go")], "acceptance of declarations; answers of type names")

prop("P26", "Nodes built with the ast constructors are those the parser builds",
 "For every parse result, building one of its expressions, designators, names, type names, pointer, class-reference and fixed string types, parameters, identifier lists, case labels, uses items, absolute names or external clauses again with the constructor functions of package ast, from the parts of the parsed node, gives an equal node, in whichever of the supported forms the parts are given (node, identifier by pointer or value, token, bare or wrapped level of an expression). A part that already is the node asked for is taken over as it is, no argument or other node changes, a predefined type name refers to the predefined declaration of its kind only, and arguments that fit no form or are too many make the constructor panic instead of building something. Object and interface nodes show exactly their parts, in order.",
 ["inputs", "programs"], "every node of every result tree and every supported form of its parts",
 "Each constructor takes several argument forms at several levels; tests use one or two of them with short names.",
 ["ast/expression.go", "ast/function_heading.go", "ast/type_id.go", "ast/type_simple.go", "ast/type_string.go", "ast/type_pointer.go", "ast/type_variant.go", "ast/type_interface.go", "ast/type_class.go", "ast/uses_clause.go", "ast/directive.go", "ast/statement.go", "ast/var.go", "ast/unit.go", "ast/astcore/ident.go"],
 [("levels of an expression", "ast/expression.go NewExpression, NewSimpleExpression, NewTerm, NewDesignatorFactor, NewDesignator"), ("parameters", "ast/function_heading.go NewFormalParm, NewParameter, NewParameterType"), ("names", "ast/astcore/ident.go NewIdentFrom, NewIdentList; ast/type_id.go NewTypeId")], "nodes returned by the constructors; parse results before and after")

prop("P27", "Token tests and the list and set helpers answer by their definition",
 "For every token, asking it with the tests of package token (class, symbol, reserved word, value, any or certain directives and portability directives in any letter case, and any nesting of some, every and not) gives the answer the token's text and class define; a test for a word that is no directive or no reserved word cannot be built. A token's text, value, length and abbreviation are those of its place in the source, and a copy of a token is equal to it and independent of it. For every sequence of operations, the string lists and string sets of package ext behave as lists and sets, and only Add, Remove and Sort change the receiver.",
 ["inputs", "histories"], "every token, every nesting of tests, every sequence of list and set operations",
 "The parser asks for about 150 different tests of tokens; the test suite has one test for the helpers and none for the tests of tokens.",
 ["token/predicate.go", "token/directives.go", "token/type.go", "token/token.go", "token/reserved_words.go", "ext/strings.go", "ext/string_set.go", "ext/pointers.go", "runes/equal.go"],
 [("tests", "token/predicate.go, token/type.go"), ("directive words", "token/directives.go"), ("lists and sets", "ext/strings.go, ext/string_set.go")], "answers of each test and operation compared with a model")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
