#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, state=state or [], hook_needed=None)))

TOK = ["token/tokenizer.go", "token/comment.go", "token/string.go", "token/numeral.go",
       "token/special_symbols.go", "token/word.go", "token/space.go", "token/eof.go", "runes/cursor.go", "runes/position.go"]

prop("C01", "Tokens tile the source text and end in end-of-file",
 "Reading any text token by token, with blanks and comments kept, takes finitely many reads, each token is a non-empty stretch of the text which begins where the previous one ended, and the raw texts put together are exactly the text; from there on every read gives an empty end-of-file token. "
 "Without blanks and comments (each switched off on its own) the reads give the same tokens in the same order less exactly those of the kinds switched off. "
 "A copy of the reader taken at any moment and the original continue independently of each other and both give the same remaining tokens.",
 ["inputs", "histories"], "every text over every character class of the language, every combination of the two flags, every history of reads and copies of readers",
 "the tests tokenize a few dozen well-formed snippets; they never feed unterminated strings or comments, characters outside the language, NULs, or interleave copies of a reader",
 TOK, [("order of the token processors, each advances the cursor by what it returns", "token/tokenizer.go GetNext"), ("clone of tokenizer and cursor", "token/tokenizer.go Clone, runes/cursor.go Clone")],
 ["token.NewTokenizer(...).GetNext / Clone"])
prop("C02", "Every token has the kind and the extent of the lexical grammar",
 "Each token is the one the lexical grammar prescribes at its place: comments in the three styles (brace, parenthesis-star, and two slashes up to the end of the line; an unclosed one runs to the end of the text), quoted character strings (a quote directly after a backslash does not end one), numerals (optional immediately preceding minus, digits, optional fraction; a range's two dots never belong to a numeral), the two-character symbols before the one-character ones, words (letter or underscore, then letters, digits, underscores), runs of blanks, and a one-character unknown token for anything else. "
 "A word is a reserved word exactly if it spells one of the 65 reserved words in any mixture of upper and lower case; its value is then the upper-case spelling, and the value of every other token is its raw text.",
 ["inputs"], "every text; every reserved word in every mixture of case; every pair of adjacent characters",
 "the tests sample single spellings of a few words, symbols and numerals; adjacency of lexical classes (1..2, 1.., a-1, (*), <=>, x'y', unclosed comments) is combinatorial",
 TOK + ["token/reserved_words.go", "token/type.go", "token/token.go"], [("token processors", "token/*.go"), ("reserved word set", "token/reserved_words.go")],
 ["Token.Type, Token.Raw, Token.Value"])
prop("C03", "Positions of tokens and identifiers are those of their characters",
 "For every token and for every identifier of the syntax tree, the start and the end (line, column and index, counted in characters; lines are ended by line feeds only) are the place of its first character and the place just after its last character in the source file. "
 "Looking ahead, copying a reader, comments and strings over several lines, and multi-byte characters do not disturb them.",
 ["inputs", "histories"], "every text and every layout of every program, including those where the parser backtracks",
 "tests check positions in short, mostly single-line snippets; positions after backtracking, after multi-line comments or strings and in non-ASCII text are not sampled",
 ["runes/cursor.go", "runes/position.go", "token/*.go", "parser/base.go", "parser/ident.go", "ast/astcore/ident.go"],
 [("cursor advances line and column", "runes/cursor.go Next"), ("rollback restores tokenizer and current token", "parser/base.go RollbackPoint"), ("identifier takes the location of its token", "ast/astcore/ident.go NewIdent")],
 ["Token.Start/End, Ident.Location"])
prop("C04", "Layout, comments and letter case do not change the meaning",
 "Two programs (with their units) whose tokens are the same up to the letter case of reserved words, directives and identifiers, and which differ otherwise only in blanks, line breaks and comments between tokens, are both accepted or both rejected, and give the same syntax tree and the same references. "
 "Identifiers refer to declarations regardless of the case in which either is written.",
 ["programs"], "every program, every way to lay it out (no space where none is needed, any blanks, any comment style between any two tokens), every mixture of case",
 "tests use one layout per snippet and mostly one case per name; directives and context-sensitive words (ON, AT, READ, NAME, INDEX, ABSOLUTE ...) in other cases are not sampled",
 ["token/*.go", "parser/*.go", "ast/astcore/decl_map.go"], [("case folding in keyword predicates and declaration maps", "token/predicate.go, token/directives.go, ast/astcore/decl_map.go"), ("comments and blanks are skipped by the tokenizer", "token/tokenizer.go")],
 ["parser.ParseProgram result"])
prop("C05", "Any input gives a result or an error, never a crash or a hang",
 "For every content of the program file and of the unit files (well-formed or not, arbitrary bytes included), and when files are missing, parsing ends and returns either a syntax tree or an error; nesting deeper than ten thousand levels is an error. "
 "It never panics, never runs forever, never exhausts memory or stack; the same holds for reading tokens of arbitrary text, for walking the returned tree and for asking the returned types and classes about their properties.",
 ["inputs"], "every text and every set of files, in particular mutilated programs, programs cut off at any place, cyclic declarations",
 "tests feed well-formed snippets; truncations and corruptions of every construct are not sampled",
 ["parser/*.go", "token/*.go", "ast/*.go"], [("error returns of all parse functions", "parser/*.go"), ("end-of-file checks in loops", "parser/base.go Until, parser/statement_asm.go")],
 ["parser.ParseProgram, UnitParser, Tokenizer.GetNext, astcore.WalkDown"])
prop("C06", "Expressions are structured by the grammar and operator precedence",
 "Every expression of the grammar is accepted wherever an expression is allowed and gives the tree of the grammar: sign, then multiplying operators (* / DIV MOD AND SHL SHR AS), then adding operators (+ - OR XOR), then relations (= <> < > <= >= IN IS), operators and operands of one level in source order. "
 "Factors keep their form and content: designators with fields, indexes and dereferences in order, calls with their arguments (a call with empty parentheses is told apart from none), addresses, numbers, strings, NIL, TRUE/FALSE, parentheses, NOT, set constructors with ranges, and type casts (exactly when the name denotes a type there).",
 ["programs"], "every expression of the grammar, at every place where expressions occur",
 "tests contain some fifty expressions; the combinations of nesting, operators and factors are unbounded",
 ["parser/expression.go", "ast/expression.go"], [("recursive descent by precedence level", "parser/expression.go")], ["ast.Expression and its parts in the returned tree"])
prop("C07", "Statements are structured by the grammar",
 "Every statement of the grammar (call, assignment, goto, inherited, compound, if, case, repeat, while, for, with, try-except, try-finally, raise, asm, with or without a label, empty statements in lists being dropped) is accepted in every statement position and gives the tree of the grammar with all its parts in source order. "
 "(Nesting up to ten thousand levels is accepted.) An ELSE belongs to the nearest IF (or CASE, or exception block) still open; TO and DOWNTO, handlers with and without variable, the parts of CASE, TRY and RAISE and the statement lists before and after are kept apart.",
 ["programs"], "every nesting of statements",
 "tests contain each statement a few times in simple surroundings; nestings are unbounded",
 ["parser/statement.go", "parser/statement_conditional.go", "parser/statement_loop.go", "parser/statement_try.go", "parser/statement_raise.go", "parser/statement_with.go", "parser/statement_asm.go", "ast/statement.go"],
 [("one parse function per statement with its own terminators", "parser/statement*.go")], ["ast.Statement and its parts in the returned tree"])
prop("C08", "Constant, type and variable declarations are structured by the grammar",
 "Every constant, type, variable, thread variable and label section is accepted in every place where the grammar allows it, in any order and number, and keeps for each declaration its names, type, initial value, absolute variable and portability directive. "
 "Types of every form (named and qualified, enumerated with values, subrange, sized string, packed and plain array with any number of index types, set, file, record with nested variant parts, pointer, procedural with OF OBJECT, class, class reference) keep their form and all their parts in source order when nested in each other; a type which is not ordinal is refused as array index, set base and variant selector.",
 ["programs"], "every composition of declarations and types",
 "tests contain each form once or twice; types nested in types in sections in routines are unbounded",
 ["parser/const.go", "parser/type*.go", "parser/var.go", "parser/block.go", "ast/type*.go", "ast/const.go", "ast/var.go"],
 [("one parse function per type form, each reads over its last token", "parser/type*.go")], ["declaration sections and types in the returned tree"])
prop("C09", "Routine headings, directives, exports and bodies are kept as written",
 "Every procedure and function declaration keeps its kind, name, parameters (VAR/CONST/OUT, grouping, array and untyped parameters, default values), result type, directives in order, external library with name or index, and its own nested declarations and body; FORWARD and EXTERNAL ones have no body. "
 "Exports before and after the body keep their names, NAME and INDEX values. The same holds for headings in the interface section of a unit.",
 ["programs"], "every heading, every sequence of directives, every nesting of routines",
 "tests sample few combinations of parameters and directives and one level of nesting",
 ["parser/function.go", "parser/function_heading.go", "parser/block.go", "ast/function.go", "ast/function_heading.go", "ast/block.go"],
 [("heading, directive and external option parsers", "parser/function_heading.go"), ("block parser", "parser/block.go")], ["FunctionDecl, ExportedHeading, Block in the returned tree"])
prop("C10", "Classes keep their heritage, sections and members as written",
 "Every class type keeps its heritage list, its sections in order with their visibility (the first one without a visibility word being the default section), and in each section its fields, methods (procedures, functions, constructors, destructors with parameters and directives) and properties (array parameters, type, INDEX, READ, WRITE, STORED, DEFAULT/NODEFAULT, IMPLEMENTS) in source order. "
 "A class declared forward is joined with its later full declaration, and a full declaration may follow only a forward one.",
 ["programs"], "every class with any number and mixture of sections and members",
 "tests contain some twenty classes; combinations of sections and property specifiers are unbounded",
 ["parser/type_class.go", "ast/type_class.go", "parser/type.go"], [("class member parsers", "parser/type_class.go"), ("forward declared class gets its actual type", "parser/type.go ParseTypeDecl")], ["CustomClassType, ForwardDeclaredClassType in the returned tree"])
prop("C11", "Class member lookup follows inheritance and visibility",
 "Looking up a member in a class finds the class's own member first (private ones too when asked for), otherwise the nearest ancestor's member which is not private, regardless of letter case, and nothing otherwise; READ, WRITE and STORED of a property refer to the field or method found that way inside the class (reading through another property of the same class is not claimed) and are refused if there is no member of the name. "
 "A property which repeats an inherited property without giving all the parts it has (type, index, read, write) inherits from the nearest one, and its computed form takes each part from the nearest declaration in the chain which gives it. Ancestors may be named by aliases or come from other units.",
 ["programs"], "every class hierarchy and every placement of equally named members in it",
 "tests use chains of two or three classes with one property; the placements of members over levels and visibilities are combinatorial",
 ["ast/type_class.go", "parser/type_class.go"], [("member search along the ancestors", "ast/type_class.go FindMemberDecl, FindProperty"), ("property inheritance", "ast/type_class.go InheritsFrom, ComputedProperty")], ["FindMemberDecl, FindProperty, ComputedProperty, ClassProperty.Parent/Read/Write/Stored"])
prop("C12", "Program and unit files are structured by the grammar",
 "A program file keeps its name, its uses clause (names in order, file names as written) and its block; a unit file keeps its name, portability directive, interface uses clause and declarations, implementation uses clause, declarations and exports, initialization and finalization statements, each in its own part and in source order. "
 "Every loaded unit and the program know the path they were read from; a unit is read from the file its IN clause names (absolute, or relative to the directory of the program file, with either kind of separator); units without an IN clause are not read.",
 ["programs"], "every arrangement of optional parts of programs and units",
 "tests contain a handful of programs and units with few of the optional parts at once",
 ["parser/program.go", "parser/unit_parser.go", "parser/uses_clause.go", "ast/program.go", "ast/unit.go", "ast/uses_clause.go"],
 [("program and unit parsers", "parser/program.go, parser/unit_parser.go")], ["parser.Program, ast.Unit"])
prop("C13", "References inside a file follow lexical scoping",
 "Every use of a name in an expression, statement or type refers to the declaration of that name in the innermost enclosing scope (routine with its parameters, exception handler, section of the file) made before that place, otherwise to the built-in type of that name, otherwise to nothing; what was declared inside a routine, a parameter list or a handler is not visible outside of it. "
 "A type name not declared yet inside a type section refers to the declaration which follows in the same section. Enumerated values and routine names belong to the scope which contains their declaration.",
 ["programs"], "every nesting of scopes and every placement of equal names in them",
 "tests check references in small programs with unique names; shadowing and leaving of scopes are hardly sampled",
 ["parser/pcontext/*.go", "ast/astcore/decl_map.go", "parser/*.go"], [("stack of declaration maps", "parser/pcontext StackDeclMap"), ("post section patching of type names", "parser/base.go, parser/type.go")], ["Ref of IdentRef, TypeId, GotoStatement"])
prop("C14", "References across units follow the uses clauses",
 "In a program or unit an unqualified name which is not declared in the file itself refers to the declaration in the interface section of the last unit of the uses clause which declares it; names of units not used, of implementation sections of other units, and of units used only by used units are not visible. "
 "A name qualified by a unit (or by the program or unit itself) refers to the declaration in exactly that one, and if that one does not declare it, it is an error in an expression and refers to nothing as a type. A declaration in the file itself takes precedence over all used units; what an implementation section uses is visible only there and takes precedence over what the interface section uses.",
 ["programs", "configurations"], "every set of units, every uses relation, every placement of equal names over units",
 "tests have a few projects of up to three units; placements of equal names over units and sections are combinatorial",
 ["parser/unit.go", "parser/unit_parser.go", "parser/program.go", "parser/pcontext/unit_context.go", "parser/type.go", "ast/astcore/decl_map.go"],
 [("composite declaration maps of used units", "parser/pcontext/unit_context.go ImportUnitDecls, parser/program.go LoadUnits, parser/unit_parser.go ProcessImplAndInit")], ["Ref of IdentRef and TypeId in all files of a program"])
prop("C15", "Units load in dependency order; cycles are reported; listing is free",
 "For every uses relation without a cycle of interface uses clauses a program loads successfully whatever the order in which it lists its units and however implementation sections use each other, and each unit sees the complete interface of every unit it uses; the list of loaded units is in the order of the listing. "
 "A cycle among interface uses clauses is always reported as an error. Units which are used but for which no file is given do not disturb the others.",
 ["configurations"], "every uses graph of any size, every listing order, every tie of the topological order",
 "tests have two or three graphs, and the topological order is iterated from a map, so ties are decided differently on every run",
 ["parser/program.go", "parser/unit_parsers.go", "parser/unit_parser.go"], [("topological sort of unit parsers", "parser/unit_parsers.go Sort, Graph"), ("phases of loading", "parser/program.go LoadUnits")], ["parser.ParseProgram result, Program.Units"])
prop("C16", "Duplicate declarations are refused, shadowing is accepted",
 "Declaring a name twice in the same scope (constants, types, variables, labels, parameters, enumerated values, units within one uses clause, in any combination and any letter case) is an error, except that a routine may be declared again as the body of a forward or interface heading or as an overload, and a class may follow its forward declaration. "
 "Declaring a name again in an inner scope, in a unit next to used units which declare it, or under the name of a built-in type is accepted.",
 ["programs"], "every pair of declarations in every pair of scopes",
 "tests check a couple of duplicates",
 ["ast/astcore/decl_map.go", "parser/*.go"], [("Set reports duplicates", "ast/astcore/decl_map.go"), ("declareFunction, forward declared classes", "parser/function.go, parser/type.go")], ["error of parser.ParseProgram"])
prop("C17", "Malformed input is refused",
 "A program or unit file which is cut off before its final point, or from which the tokens do not form a program or unit of the grammar (a required token missing, replaced by, or followed by one which cannot stand there), gives an error and no tree. (Accepted beyond the grammar: a last class field without semicolon, NAME and INDEX of an export in any order, parameter defaults, ABSOLUTE with an initial value, PACKED twice or before any structured type, any known directive at any routine, any text after the final point.) "
 "An error in a unit file is reported by the parse of the program which lists it, and so are missing files.",
 ["inputs"], "every prefix and every corruption of every well-formed file",
 "tests contain almost no malformed input",
 ["parser/*.go"], [("predicates on required tokens", "parser/base.go Current, Next, Until")], ["error of parser.ParseProgram"])
prop("C18", "Walking the tree visits every identifier once in source order",
 "Walking down the tree of a program or of a unit visits every identifier written in the file that belongs to the tree exactly once, parents before children, in the order of the source text, and does not leave the file. "
 "The walk stops at the first error of the visitor and returns it.",
 ["programs"], "every syntax tree",
 "tests do not walk whole programs",
 ["ast/*.go", "ast/astcore/node.go"], [("Children of every node", "ast/*.go"), ("WalkDown", "ast/astcore/node.go")], ["astcore.WalkDown over parser.Program and ast.Unit"])
prop("C19", "Parsing is repeatable and parses do not influence each other",
 "Parsing the same files again, after any history of other successful or failing parses in the same process, or at the same time as other parses in other goroutines, gives an equal tree with equal references (or the same failure). "
 "Trees returned earlier are not changed by later parses.",
 ["histories", "schedules"], "every sequence and every interleaving of parses",
 "every test parses once; package-level state and map iteration order are not exercised",
 ["parser/*.go", "parser/pcontext/*.go", "ast/type_embedded.go"], [("no shared mutable state between parser instances; built-in types are read only", "ast/type_embedded.go, parser/pcontext")], ["parser.ParseProgram results"])
prop("C20", "Types are classified through all their aliases",
 "A type name answers to simple, ordinal, real, ordinal identifier, string, pointer and variant exactly as the type at the end of its chain of aliases does, wherever the links of the chain are declared (built-in, same section in any order, other unit); a name which leads nowhere or in a circle answers no to all of them. "
 "Built-in types belong to their documented classes regardless of letter case, set and file types belong to none.",
 ["programs"], "every graph of type declarations, cyclic ones included",
 "tests ask a few direct names",
 ["ast/type_id.go", "ast/type_embedded.go", "ast/type_simple.go", "ast/type_struc.go", "ast/type_string.go", "ast/type_pointer.go"], [("following the references of type names", "ast/type_id.go actualType")], ["IsSimpleType, IsOrdinalType, IsRealType, IsOrdIdent, IsStringType, IsPointerType, IsVariantType"])
prop("C21", "Declaration maps behave as case-insensitive scopes under every history",
 "After any sequence of operations a plain map finds under a name, in any letter case, exactly the declaration last stored under it; storing a name again with the checking operation fails and changes nothing for that name, the overwriting operation replaces it. "
 "A chained map stores only into itself and finds its own declarations before its parent's; a composite map stores only into its first part and finds the first match in the order of its parts; both see later changes of the maps they are built from.",
 ["histories"], "every sequence of store, overwrite and lookup on every arrangement of maps",
 "tests of the maps are almost absent",
 ["ast/astcore/decl_map.go", "ast/astcore/decl.go", "parser/pcontext/stackable_context.go", "parser/pcontext/program_context.go"], [("DeclMapImpl, ChainedDeclMap, CompositeDeclMap", "ast/astcore/decl_map.go")], ["Get, Set, Overwrite of DeclMap, Decls.Find"])
prop("C22", "Source files are read as Shift_JIS",
 "The bytes of program and unit files are decoded as Shift_JIS before anything else: two-byte characters whose second byte looks like a backslash, brace or letter, half-width katakana and ASCII in comments, strings and names give the same tokens, names, string values and positions as the decoded text. "
 "Bytes which are not Shift_JIS never crash the parser.",
 ["inputs"], "every sequence of one-byte and two-byte characters in every lexical context",
 "one test file contains Japanese text",
 ["parser/program.go", "parser/unit_parser.go"], [("decoding reader", "parser/program.go ParseProgram, parser/unit_parser.go LoadFile")], ["parser.ParseProgram on files"])
prop("C23", "Errors name the file and the place of the mistake",
 "If a program or unit file is cut off, or contains a token which can stand nowhere in a program, the error ends with the path of that file and the line and column of that place: the end of the file, respectively the offending token, or the name directly before it where that name alone is already the mistake. "
 "Any other single token added, removed or exchanged is never blamed on a place before the token which precedes it, nor on another file unless that file depends on what the mistake removed. The error about a missing or unreadable file contains its name.",
 ["inputs"], "every well-formed program with units, every place in it, every kind of mistake",
 "tests contain almost no malformed input and hardly look at the text of errors",
 ["parser/base.go", "parser/unit_parser.go", "parser/program.go", "parser/*.go"], [("errors are made from the current token", "parser/base.go TokenErrorf, Validate"), ("path of the file given to each parser", "parser/base.go PlaceString, parser/unit_parser.go, parser/program.go")], ["Error() of the error of parser.ParseProgram"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
