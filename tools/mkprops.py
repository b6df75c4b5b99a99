#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/mkprops.py)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","BMS tokens partition the source exactly",
  "For every source text, BMS tokenization either yields tokens that appear in source order, do not overlap, leave nothing but whitespace between them, are classified by the longest matching lexical rule (keywords, identifiers, the four integer literal forms, strings, comments, punctuation), and carry the exact byte offset, length, line and column of the text they cover; or it reports the first lexical error, with the right kind and at the right position. Comments and strings that end exactly at the end of the file are ordinary tokens.",
  ["inputs"],"all byte strings offered as BMS source, including those ending inside or right after any kind of token",
  "Tests tokenize a dozen well-formed files and four malformed ones; position bookkeeping and token boundaries depend on every adjacent pair of characters and on what stands at the end of the file.",
  ["src/bms/tokenization/tokenize.cpp","src/bms/tokenization/token_type.hpp","src/common/parse.cpp","src/common/parse.hpp"],
  [("tokenize","src/bms/tokenization/tokenize.cpp"),("match_line_comment/match_block_comment/match_integer_literal/match_string_literal","src/common/parse.cpp")],
  ["bms::tokenize output vector / error","bm-cli dump_tokens"])

p("C02","Integer literals denote exactly their value or are rejected",
  "Every integer literal of BMS (decimal, 0x hexadecimal in either letter case, 0b binary, leading-zero octal) evaluates to exactly the integer its digits denote in that base, and a literal whose value the implementation cannot represent is reported as an invalid literal; no literal ever silently evaluates to a different value.",
  ["inputs"],"all digit strings of all four bases, of every length, around every power-of-two boundary up to and beyond 2^128",
  "Tests use a handful of short literals; wrong digit handling and overflow wrap-around only show for specific digits, cases or lengths.",
  ["src/common/parse.cpp","src/common/parse.hpp","src/bms/analyze.cpp"],
  [("parse_uinteger_digits/parse_integer_literal","src/common/parse.cpp"),("literal analysis","src/bms/analyze.cpp")],
  ["parse_integer_literal result","value of a const in an analyzed program"])

p("C03","The BMS parser accepts exactly the documented grammar",
  "A token sequence is accepted as a BMS program exactly when the documented grammar (no operator chaining other than an arithmetic expression on either side of one comparison, if-expressions chained only on the else side, comma-separated lists, annotations only where listed) derives it, comments being ignored; everything else is reported as a parse error. The syntax tree of an accepted program has exactly the structure the grammar assigns to the text: same declarations, statements, operators, operands, names, literals, types and annotations, in source order.",
  ["inputs","programs"],"all token sequences: grammar-derived programs of bounded size and one- or two-token mutations of them, under any whitespace and comments",
  "The tests hold ~60 accepted programs and 5 rejected ones; acceptance of every other token sequence, and the shape of the tree (which operand, which operator), is never checked.",
  ["src/bms/parsing/parse.cpp","src/bms/parsing/grammar.ebnf","src/bms/ast.cpp","src/bms/parsing/astp.hpp"],
  [("match_* recursive descent","src/bms/parsing/parse.cpp"),("Analyzed_Program tree construction","src/bms/ast.cpp")],
  ["bms::parse result","syntax tree reachable through Analyzed_Program / dump_ast"])

p("C04","The BMS front end never fails internally on any input",
  "For every byte string given as a BMS program, tokenizing, parsing, analyzing, generating virtual-machine code and generating BMS and C/C++ text terminate (unless a constant expression of the program calls for an endless computation) and either succeed or return a regular tokenize, parse, analysis or generation error; they never hit an internal assertion, throw an exception, crash, read out of bounds or execute undefined behaviour (nesting so deep that it exhausts the stack aside).",
  ["inputs","programs"],"all byte strings; in particular grammar-shaped programs with arbitrary (mostly ill-typed) content and mutated programs",
  "Each test file is one program; internal assertions sit on paths (misused builtin names, failing conversions in constants, malformed annotations, calls to non-functions) that no sample exercises.",
  ["src/bms/tokenization/tokenize.cpp","src/bms/parsing/parse.cpp","src/bms/analyze.cpp","src/bms/analyze_name_lookup.cpp","src/bms/analyze_annotations.cpp","src/bms/instantiate.cpp","src/bms/vm/codegen.cpp","src/bmd/codegen/codegen_bms.cpp","src/bmd/codegen/codegen_c_cpp.cpp"],
  [("BIT_MANIPULATION_ASSERT on internal invariants","src/common/assert.hpp"),("Result-returning pipeline","src/bms/analyze.cpp")],
  ["Assertion_Error / std::exception escaping the API","sanitizer reports","exit status and output of bm-cli verify"])

p("C05","Operators on BMS values follow the documented arithmetic",
  "Evaluating any operator on known operands gives the mathematically defined result: Uint(N) arithmetic and negation are modulo 2^N for every N in 1..128, comparisons are numeric, Int arithmetic is exact (a result beyond the representable range is an overflow error), division and remainder truncate toward zero, bitwise and shift operators act on the N-bit representation, Int operands mixed with Uint(N) are converted when representable. Exactly division or remainder by zero, a shift by N or more, Int overflow, and a conversion of an unrepresentable Int to Uint are errors, each with its own error code; results of type Uint(N) are always in [0, 2^N). Types and values describe themselves truly: a type's width, mask and representable range are those of its values, and a value's accessors and printed form give exactly that value, refusing other types and unknown values.",
  ["inputs"],"all operators x all type pairs (Void, Bool, Int, Uint(1..128)) x all operand values, with emphasis on boundary values",
  "The tests evaluate a few expressions with small 8- to 32-bit operands; widths 1, 127 and 128, wrap-around, and each error condition at its exact boundary are not covered.",
  ["src/bms/evaluation/operations.cpp","src/bms/concrete_value.hpp","src/bms/concrete_type.hpp"],
  [("evaluate_unary_operator/evaluate_binary_operator/evaluate_if_expression/evaluate_conversion","src/bms/evaluation/operations.cpp"),("Concrete_Value::convert_to/transform_uint","src/bms/concrete_value.hpp"),("Concrete_Type::get_mask","src/bms/concrete_type.hpp")],
  ["result of the evaluate_* functions","constants of analyzed programs"])

p("C06","Evaluation with unknown operands is sound",
  "When some operands are not known during analysis, evaluating an operator yields a value of the same type as the type rules predict, and: if it yields a known value, every possible choice of the unknown operands yields that value; if it yields an error, every choice fails; dividing by a known zero and shifting by a known width or more is an error even so; type rules accept exactly the operand types for which evaluation is not a type error.",
  ["inputs"],"all operators x type pairs x known/unknown patterns x values",
  "Tests only check programs whose operands are all known or whose functions are never called.",
  ["src/bms/evaluation/operations.cpp","src/bms/value.hpp"],
  [("check_unary_operator/check_binary_operator/check_if_expression/get_common_type","src/bms/evaluation/operations.cpp"),("Value overloads of evaluate_*","src/bms/evaluation/operations.cpp"),("Value::convert_to","src/bms/value.hpp")],
  ["Result of check_* and evaluate_* on Value"])

p("C07","Static analysis accepts exactly the well-formed programs",
  "Analysis of a parsed program succeeds exactly when the program obeys the language rules: every name is defined once per scope chain (no shadowing), before its use where order matters, and used as what it is; operators, conditions, arguments, initializers, assignments and returns have compatible types; Uint widths are constant and in 1..128; only let-variables are assigned; break and continue are in loops; constants, static assertions and requires-clauses are constant expressions that hold. Otherwise it returns an error naming a rule the program does break.",
  ["programs"],"all syntactically valid programs: generated well-typed programs, and such programs with one injected violation of a known rule",
  "One sample per error code exists; whether a rule is applied in every position (nested scope, else branch, inside an argument, in an unused function, after another declaration) is untested.",
  ["src/bms/analyze.cpp","src/bms/analyze_name_lookup.cpp","src/bms/analysis_error.hpp"],
  [("analyze_name_lookup","src/bms/analyze_name_lookup.cpp"),("Type_Analyzer","src/bms/analyze.cpp"),("check_* operator typing","src/bms/evaluation/operations.cpp")],
  ["bms::analyze result: success or Analysis_Error code"])

p("C08","Constant evaluation computes the program's meaning",
  "Every constant, static assertion, requires-clause and type width evaluates to the value that the language semantics give to its expression, including calls of user functions with loops, branches, short-circuit logic, conversions and nested calls; when evaluation is erroneous (division by zero, excessive shift, unrepresentable conversion, failed assert, read of an uninitialized variable, falling off the end of a value-returning function) analysis reports an error instead of a value.",
  ["programs","inputs"],"all well-typed terminating programs and argument values of bounded size",
  "Test programs contain a few trivial functions and compare with one expected value each; they cannot cover combinations of control flow, types, widths and failing evaluations.",
  ["src/bms/analyze.cpp","src/bms/vm/codegen.cpp","src/bms/vm/vm.cpp","src/bms/evaluation/operations.cpp"],
  [("constant-context expression analysis","src/bms/analyze.cpp"),("VM code generation","src/bms/vm/codegen.cpp"),("VM cycle","src/bms/vm/vm.cpp")],
  ["value of constants in the analyzed program","acceptance of static_assert(e == v)","analysis error"])

p("C09","Virtual machine code computes what the source says",
  "Calling any analyzed function on the virtual machine with arguments of its parameter types leaves exactly one value, of the declared return type and equal to what the source semantics define, and leaves no residue that changes later calls; an erroneous execution ends in an execution error whose code and position identify the failing operation. This holds whatever other functions are compiled into the same machine.",
  ["programs","inputs"],"all analyzed functions, all argument values (not known during analysis), all sequences of calls on one machine",
  "No test runs the machine on arguments that are unknown at analysis time; they only see values folded at analysis.",
  ["src/bms/vm/codegen.cpp","src/bms/vm/vm.cpp","src/bms/vm/vm.hpp","src/bms/vm/linear_map_stack.hpp"],
  [("Virtual_Code_Generator","src/bms/vm/codegen.cpp"),("Cycle_Impl","src/bms/vm/vm.cpp"),("Linear_Map_Stack frames","src/bms/vm/linear_map_stack.hpp")],
  ["value stack after Virtual_Machine::cycle returns","Execution_Error"])

p("C10","Constant folding is transparent",
  "Replacing any subexpression of a function by a known equivalent, or a known one by a parameter or variable holding the same value, does not change what the function computes or whether it fails; analyzing a function earlier or later, or more than once, through constants, static assertions or calls, does not change its behaviour or the verdict.",
  ["programs","inputs"],"all pairs of programs that differ only in which values are known during analysis, and in the order and number of uses",
  "Tests have no pairs of equivalent programs; folding and machine execution take separate code paths that are never compared.",
  ["src/bms/analyze.cpp","src/bms/vm/codegen.cpp","src/bms/evaluation/operations.cpp"],
  [("const_value folding on nodes","src/bms/analyze.cpp"),("Push of folded values","src/bms/vm/codegen.cpp")],
  ["results of two related programs"])

p("C11","Bit-generic functions behave as their substituted copies",
  "Calling a bit-generic function with Uint arguments deduces each width parameter from the first argument position that introduces it and behaves, in verdict, value and errors, exactly like calling the non-generic function obtained by substituting those widths for the generic names throughout signature, requires-clause and body; calls at the same widths share one instance, calls at different widths do not influence one another, and the generic function's own declaration order or use by other generic functions does not matter.",
  ["programs","inputs"],"all generic functions, all width combinations in 1..128, all interleavings of calls at different widths",
  "The tests have one generic identity-like function; bodies that mention globals, other functions, loops, or several generic parameters are not tried.",
  ["src/bms/instantiate.cpp","src/bms/analyze.cpp","src/bms/analyze_name_lookup.cpp","src/bms/ast.cpp"],
  [("instantiate_function / deep copy","src/bms/instantiate.cpp"),("width deduction","src/bms/analyze.cpp")],
  ["analysis verdict","constant values","instances recorded for the function"])

p("C12","Annotations are validated against their schema",
  "An annotated program is accepted by annotation analysis exactly when every annotation is known, is applicable to the construct it precedes, and has arguments that match its parameters in number, name, type and admissible value, each parameter given at most once and every mandatory one given, where positional arguments fill the parameters not yet given in their order; otherwise the error names a rule that is broken, at an annotation that breaks it.",
  ["inputs","programs"],"all annotation names, placements and argument lists (positional, named, mixed, duplicated, missing, ill-typed, out of range)",
  "Tests hold one program per error code; the combination of positional and named arguments with defaults over all annotation kinds and placements is open.",
  ["src/bms/analyze_annotations.cpp","src/bms/annotation.hpp"],
  [("resolve_annotations","src/bms/analyze_annotations.cpp")],
  ["bms::analyze result code","annotations of syntax tree nodes"])

p("C13","Generated BMS text is equivalent to its program",
  "The BMS text generated from an accepted program is itself an accepted program with the same meaning: it parses, its syntax tree equals the original's apart from annotations, redundant parentheses, comments and layout, constants keep their values, and generating again from it reproduces the same text.",
  ["programs","configurations"],"all accepted programs under all formatting options (indentation, brace style, parenthesization, case)",
  "No unit test checks generated text at all.",
  ["src/bmd/codegen/codegen_bms.cpp","src/bmd/codegen/generator_base.hpp","src/bmd/codegen/code_string.hpp"],
  [("BMS generator","src/bmd/codegen/codegen_bms.cpp"),("needs_parentheses / precedence","src/bmd/codegen/generator_base.hpp")],
  ["text of generate_code(..., bms)","bm-cli generate FILE bms"])

p("C14","Generated C and C++ compiles and computes the same results",
  "For every accepted program within the subset the C/C++ generators support (no calls of bit-generic functions, functions declared before they are called, Bool, Int and Uint values, results of type Int other than literals within the range of int), the generated text is valid in the target dialect, whatever words the program uses as names, and every generated function returns, for all arguments on which the BMS function is defined, the value the BMS function returns.",
  ["programs","inputs","configurations"],"all supported programs x C99, C23 and C++ x formatting options x argument values",
  "No unit test compiles or runs generated code.",
  ["src/bmd/codegen/codegen_c_cpp.cpp","src/bmd/codegen/generator_base.hpp"],
  [("C/C++ generator","src/bmd/codegen/codegen_c_cpp.cpp")],
  ["generated text compiled with gcc/g++ and executed"])

p("C15","Formatting options change layout only; spans cover the code",
  "Generated code under any two settings of indentation and brace style consists of the same tokens; its lines are indented by their nesting depth and braces stand where the chosen style puts them; every highlight span of generated code is non-empty, inside the text, in order and non-overlapping, and covers exactly one token of the kind it claims; requesting redundant parentheses adds only parentheses; types are spelled in the chosen dialect, standard unsigned types being used unless _BitInt is preferred; code is appended to what the string already held; and a program is refused only by dialects without _BitInt, namely when its functions use an integer width that has no standard type, in which case the string is left as it was.",
  ["programs","configurations"],"all accepted programs x all option settings x all implemented output languages",
  "No unit test looks at generated code or its spans.",
  ["src/bmd/codegen/code_string.hpp","src/bmd/codegen/generator_base.hpp","src/bmd/codegen/codegen_bms.cpp","src/bmd/codegen/codegen_c_cpp.cpp"],
  [("Code_String append/scoped spans","src/bmd/codegen/code_string.hpp"),("Generator_Base whitespace handling","src/bmd/codegen/generator_base.hpp")],
  ["Code_String text and spans"])

p("C16","The BMD parser structures documents by the documented rules",
  "Parsing a BMD document yields exactly the structure of its text: paragraphs separated by blank lines, directives with their identifier, arguments (identifiers, and integers in every base, by name) and block, where the block's content is paragraphs, a span without paragraph breaks, a list of directives or raw text as the directive demands; text with its escape sequences, and comments removed. Source positions are exact, and documents that break a rule of the format are rejected.",
  ["inputs"],"all byte strings offered as BMD documents; grammar-derived documents with nesting and mutations of them",
  "Five tiny documents are tested, none with nested directives, escapes inside paragraphs, or comments between content.",
  ["src/bmd/parsing/parse.cpp","src/bmd/parsing/grammar.ebnf","src/bmd/parsing/ast.hpp"],
  [("BMD recursive descent","src/bmd/parsing/parse.cpp")],
  ["bmd::parse result tree"])

p("C17","HTML output is well formed and preserves the document text",
  "For every document that converts without error, the HTML output is well formed: a doctype, every element properly nested and closed or void, attribute values quoted where needed and escaped, and no character of the document's text able to act as markup. The text content of the output, with references decoded, is the document's text in order (escape sequences replaced; blank space between words interchangeable outside preformatted text), and each directive produces the element that stands for it (headings, lists, formatting, code, notes, title and meta data, instructions) with its arguments as attributes. Conversion fails only for a meta block that is not at the start or repeats an entry, an unknown language or architecture, a number where a name is required, and highlighted code that does not tokenize.",
  ["inputs","configurations"],"all parseable documents x all known directives and nestings x indentation and stylesheet options",
  "One or two documents are compared with expected output; special characters, nesting and attributes are not.",
  ["src/bmd/html/doc_to_html.cpp","src/bmd/html/html_writer.cpp","src/bmd/html/html_writer.hpp","src/bmd/enums.cpp"],
  [("HTML_Writer escaping and tag stack","src/bmd/html/html_writer.cpp"),("directive conversion","src/bmd/html/doc_to_html.cpp")],
  ["concatenated HTML tokens","bm-cli html FILE"])

p("C18","Syntax highlighting never alters the code shown",
  "Rendering BMS code as highlighted HTML, inline or as a code block of a document, preserves the code: dropping the markup and decoding references yields the original characters of the code (surrounding blank space aside for blocks), each token is wrapped in the highlighting tag of its own kind (identifier, keyword, type, number, string, operator, bracket, comment) and blank space in none, and code that does not tokenize is reported as an error.",
  ["inputs"],"all code strings: token soups with arbitrary whitespace, comments, multi-line comments and special characters",
  "No unit test highlights code with unusual whitespace or comments.",
  ["src/bmd/html/bms_to_html.cpp","src/bmd/html/html_writer.cpp"],
  [("bms_inline_code_to_html / token and gap writing","src/bmd/html/bms_to_html.cpp"),("write_source_gap / write_inner_text","src/bmd/html/html_writer.cpp")],
  ["HTML token stream"])

p("C19","Document processing never fails internally on any input",
  "For every byte string given as a BMD document, parsing and HTML conversion under any options terminate and either succeed or return a parse or document error with a position inside the source; they never hit an internal assertion, throw, crash, loop forever or execute undefined behaviour (nesting so deep that it exhausts the stack aside).",
  ["inputs","configurations"],"all byte strings; in particular documents using every directive name, known or not, with and without arguments and blocks in every nesting",
  "Tests feed five small documents; almost every directive and every misuse of one is unexercised.",
  ["src/bmd/parsing/parse.cpp","src/bmd/html/doc_to_html.cpp","src/bmd/html/html_writer.cpp","src/bmd/html/bms_to_html.cpp","src/bmd/enums.cpp"],
  [("Result-returning conversion","src/bmd/html/doc_to_html.cpp"),("HTML_Writer state assertions","src/bmd/html/html_writer.cpp")],
  ["exceptions escaping the API","sanitizer reports","exit status of bm-cli html"])

p("C20","The command line tool reports exactly what the library decides",
  "For every file and subcommand, bm-cli exits with status 0 exactly when every stage the command names succeeds, and otherwise prints a diagnostic and exits with status 1; on success its output, colors aside, is the complete result (tokens, syntax tree, HTML text, generated code) that the library produces for that file, and writing HTML to an output file yields the same text as standard output. Missing arguments, unknown commands, languages and file suffixes, and files that cannot be read or written are reported, never crashes.",
  ["inputs","configurations"],"all subcommands x argument counts x valid and invalid files",
  "No unit test runs the command line tool.",
  ["src/cli/main.cpp","src/cli/compile.cpp","src/cli/glue.cpp","src/common/io.cpp"],
  [("command dispatch","src/cli/main.cpp"),("stage drivers","src/cli/compile.cpp")],
  ["process exit status, stdout, stderr, output file"])

p("C21","Diagnostics point into the program at the offending construct",
  "Every error returned for a BMS program or BMD document carries a position inside its source whose line, column and byte offset agree with one another; a tokenizer error is reported where the offending character or unfinished token begins, a syntax error at the earliest token no valid program could continue with, together with kinds of tokens that could stand there instead, an analysis error at a construct that breaks the named rule, and errors about a name declared elsewhere refer to a declaration of that name; a computation that fails inside a called function also names that place as its cause; a failed comparison in an assertion is shown with the values its operands had; a document error names the broken rule and is reported at the directive, argument or text that breaks it; and printing any diagnostic terminates, shows that position, quotes exactly that source line, and describes different problems in different words.",
  ["inputs","programs"],"all invalid programs and documents",
  "Tests check the error line of about 50 single-error files.",
  ["src/common/diagnostics.cpp","src/bms/parsing/parse.cpp","src/bms/tokenization/tokenize.cpp","src/common/source_position.hpp"],
  [("print_* diagnostics","src/common/diagnostics.cpp"),("position tracking","src/bms/tokenization/tokenize.cpp")],
  ["positions in Tokenize_Error/Parse_Error/Analysis_Error","printed diagnostic text"])

p("C22","Meaning is invariant under layout, comments and renaming",
  "Changing whitespace, adding or removing comments between tokens, consistently renaming user-defined names to fresh ones, writing integer literals in another base, wrapping expressions in parentheses, or reordering function declarations that do not depend on each other, changes neither whether a program is accepted, nor the kind of error, nor any computed value.",
  ["programs"],"all programs x all such rewrites",
  "Unit tests never compare two programs.",
  ["src/bms/tokenization/tokenize.cpp","src/bms/parsing/parse.cpp","src/bms/analyze_name_lookup.cpp","src/bms/analyze.cpp","src/bms/symbol_table.hpp"],
  [("pipeline from tokens to values","src/bms/analyze.cpp"),("symbol tables","src/bms/symbol_table.hpp")],
  ["verdict, error code and constant values of related programs"])

p("C23","Core containers obey their contracts over all histories",
  "The variant and result types used throughout always hold exactly one alternative: every sequence of construction, copy, move, assignment, in-place modification, swap and destruction keeps the value and alternative that the last operation put there, and creates and destroys each contained object exactly once; the frame stack of the virtual machine behaves as a stack of maps; symbol tables find a name in the table itself, then in its parents, and never replace a definition; code strings hold exactly the text and the spans appended to them; three-valued logic follows its truth tables.",
  ["histories"],"all bounded sequences of operations on Variant, Result, Linear_Map_Stack, Symbol_Table, Code_String and Tribool",
  "Tests sample a few operations on trivially copyable alternatives.",
  ["src/common/variant.hpp","src/common/result.hpp","src/bms/vm/linear_map_stack.hpp","src/bms/symbol_table.hpp","src/bmd/codegen/code_string.hpp","src/common/tribool.hpp"],
  [("Variant","src/common/variant.hpp"),("Result","src/common/result.hpp"),("Linear_Map_Stack","src/bms/vm/linear_map_stack.hpp")],
  ["object lifetimes and values observed by counting element types"])

p("C24","The virtual machine executes any instruction sequence as documented",
  "Whatever instructions it is given, the virtual machine performs each as documented: loads and stores act on the frame of the current call, jumps are relative to the next instruction and are taken exactly if their condition has the expected value, calls open a frame and returns close it and continue after the call, operators and conversions produce the mathematical result or report their error, assertions fail exactly for false. After every cycle the stack, the instruction counter and the reported error (its code, its place, and the compared values of a failed comparison) are those of the documentation, including jumps and calls that leave the program, missing operands, wrong types and missing returns; resetting and clearing make the machine as good as new.",
  ["histories","programs"],"all instruction sequences, entry points and interleavings of cycles, pushes, pops, jumps, resets and clears",
  "No unit test gives the virtual machine instructions of its own.",
  ["src/bms/vm/vm.hpp","src/bms/vm/vm.cpp","src/bms/vm/instructions.hpp","src/bms/vm/execution_error.hpp"],
  [("Virtual_Machine::cycle","src/bms/vm/vm.cpp")],
  ["stack, instruction counter and result of every cycle","dump_program"])

p("C25","The HTML writer produces what it is told, laid out by style, and refuses misuse",
  "For every sequence of writer operations, the text written is exactly the doctype, tags, attributes, comments, text and white space that were requested, in order, each with its token type: block and flat elements stand on lines of their own, block elements indent their content, in-line and pre-formatted content is left in place, text and attribute values are escaped and quoted where HTML requires it, and inner text reports how many lines it took. The writer never reports an incomplete document as done. Misuse (names that are not identifiers, writing before the preamble or inside of a tag, a second preamble, closing what was not opened, comments that end themselves, tags never ended) is reported and writes nothing.",
  ["histories"],"all sequences of writer operations x indentation widths x formatting styles",
  "No unit test drives the writer.",
  ["src/bmd/html/html_writer.hpp","src/bmd/html/html_writer.cpp","src/bmd/html/token_consumer.hpp"],
  [("HTML_Writer","src/bmd/html/html_writer.cpp"),("Attribute_Writer","src/bmd/html/html_writer.hpp")],
  ["HTML tokens written to an HTML_Token_Consumer"])


p("C26","Every route through the library yields the same, movable and inspectable program",
  "Tokenizing, parsing and analyzing have the same outcome on every route: whether errors are returned or given to a diagnostics consumer (which then receives exactly that error), whether analysis runs as a whole or stage by stage, how often one parsed program is analyzed, and which memory resources are used. Analysis leaves the parsed program as it is. Programs know their source and file name; looking up a name from outside finds exactly the global function or constant of that name, and reports a missing name or the wrong kind of entity otherwise. Moving parsed and analyzed programs between variables preserves them, and all memory is returned to the resource it came from.",
  ["programs","histories"],"all programs x all orders of stages, repetitions, moves and memory resources",
  "Tests use one route each and never move a program or ask for unknown names.",
  ["src/bms/analyze.hpp","src/bms/analyzed_program.hpp","src/bms/parsing/parse.hpp","src/bms/tokenization/tokenize.hpp","src/bms/diagnostic_consumer.hpp","src/bms/basic_diagnostic_consumer.hpp","src/bms/ast.cpp"],
  [("Analyzed_Program moves and lookup","src/bms/ast.cpp"),("Parsed_Program moves","src/bms/parsing/parse.cpp"),("stages of analysis","src/bms/analyze.cpp")],
  ["results and diagnostics of tokenize, parse, analyze and their stages","Analyzed_Program::find_*"])

p("C27","The analyzed tree mirrors the program, with every name resolved",
  "For every accepted program, the tree that analysis works on and hands out has exactly the nodes of the program, in order, each with its kind, name, operator, position and self-description; every node's parent is the node that contains it, and the accessors name the right children. This also holds for every copy made for an instance of a bit-generic function, which shares no node with any other copy. After the lookup of names, every name refers to its declaration in the scope: parameters, variables, local constants and widths to those of the same copy; after analysis, calls refer to the function, or to the instance for the types of their arguments. Every type has its concrete width, every expression the type that follows from the typing rules, and its value is known exactly if it follows from constants, and is then the right one. What the library says about the operators (spelling, name, length, number of operands, and the classes arithmetic, bitwise, logical, comparison) is true of them, both as tokens and as expressions.",
  ["programs"],"all accepted programs x all instances x all nodes",
  "Tests look at no analyzed node but global constants.",
  ["src/bms/ast.hpp","src/bms/ast.cpp","src/bms/analyze_name_lookup.cpp","src/bms/instantiate.cpp","src/bms/analyze.cpp","src/bms/symbol_table.hpp","src/bms/expression_type.hpp","src/bms/util.cpp"],
  [("conversion of the parsed tree","src/bms/ast.cpp"),("name lookup","src/bms/analyze_name_lookup.cpp"),("Instantiator","src/bms/instantiate.cpp")],
  ["Analyzed_Program::get_root and the nodes reached from it"])

open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
