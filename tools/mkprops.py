#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=m[0],where=m[1]) for m in mech],observe_at=observe,hook_needed=hook)))
PAR=["dice-syntax/src/parser/mod.rs","dice-syntax/src/parser/rules.rs","dice-syntax/src/lexer/token.rs","dice-syntax/src/lexer/mod.rs"]
VIS="dice-compiler/src/visitor/"
p("C01","Parsing any source text ends in a syntax tree or an error, never a crash",
 "For every source text, parsing terminates and either returns a syntax tree or returns an error that carries a code of the documented catalogue and a non-empty human-readable message. It never panics, overflows or loops, whatever characters, unterminated literals, reserved words or misplaced tokens the text contains.",
 ["inputs"],"all texts up to a few KB with moderate nesting depth: random Unicode, token soup, and mutations of valid programs",
 "The lexer tests look at a handful of complete token lists and the parser has no buildable tests at all; totality is over all texts.",
 PAR,[("rule lookup per token kind and unexpected-token errors","dice-syntax/src/parser/rules.rs, parser/mod.rs"),("string/backslash lexing callbacks","dice-syntax/src/lexer/token.rs")],
 ["Parser::new(..).parse()"])
p("C02","Compiling any source text ends in code or a diagnosed error, never a crash",
 "For every source text, compiling it as a script or as a module either yields a program or a catalogued error. It never panics and never reports the internal-compiler-error code.",
 ["inputs","programs"],"all texts, in both source kinds, biased towards texts that parse: grammar-generated programs with names, loops, classes and exits in unexpected places, and mutations of them",
 "No compiler test exists in the buildable crates; the crash states need particular combinations of declarations, names and contexts.",
 ["dice-compiler/src/compiler.rs","dice-compiler/src/compile_fn.rs","dice-compiler/src/decl_scan.rs",VIS],[("visitors over every node kind",VIS)],["Compiler::compile_source"])
p("C03","A successful parse accounts for every token of the source, in order",
 "Whenever a text parses successfully, the whole text was consumed and every token in it is represented in the syntax tree in source order: nothing is skipped, parsed twice or silently dropped (only grouping parentheses and commas leave no node of their own).",
 ["inputs"],"all texts that parse, in particular near-valid texts made by deleting, inserting, duplicating or swapping tokens of valid programs",
 "Tests only feed complete well-formed snippets; dropping or ignoring input shows only on near-valid texts.",
 PAR,[("expression sequence / statement parsers","dice-syntax/src/parser/mod.rs")],["Parser::parse, SyntaxTree"])
p("C04","Operator expressions parse by the documented precedence and associativity",
 "An expression written with only the parentheses that the precedence table requires parses to exactly the intended structure, for every combination of binary, prefix, postfix, type-test, call, index and member operators. Binary operators associate to the left, assignment to the right, and redundant parentheses change nothing.",
 ["inputs"],"all expression trees up to a bounded depth over every operator, printed with minimal or redundant parentheses",
 "Precedence is a property of operator pairs and triples in context; the few arithmetic samples (in a test file that does not build) fix a handful.",
 ["dice-syntax/src/parser/rules.rs","dice-syntax/src/parser/mod.rs"],[("Precedence order and increment","dice-syntax/src/parser/rules.rs")],["Parser::parse, SyntaxTree"])
p("C05","Statements and declarations parse to the structure that was written",
 "Every well-formed program made of declarations (variables, destructuring, functions, operators, classes with bases, imports, exports), control flow (if/else-if chains, loops, break, continue, return) and nested blocks parses to a tree with exactly those constructs, names, parameters, type annotations, nullability and mutability flags, in order. The value-producing last expression of a block is told apart from the earlier ones.",
 ["programs"],"all programs of a grammar-based generator covering every statement and declaration form, with and without optional parts and trailing commas",
 "There is no buildable parser test; optional parts combine multiplicatively.",
 ["dice-syntax/src/parser/mod.rs","dice-syntax/src/ast/node.rs"],[("statement parsers","dice-syntax/src/parser/mod.rs")],["Parser::parse, SyntaxTree"])
p("C06","Literals denote exactly the value written",
 "Integer, float, string, raw backslash argument, boolean, null, unit, list and object-key literals evaluate to exactly the value the source spells: integers over the whole 64-bit signed range, floats to the nearest double, strings with their supported escape sequences decoded and all other characters (including multi-byte ones) kept. An integer out of range, an unknown escape sequence, or an unterminated literal is an error, not a different value.",
 ["inputs"],"all literal spellings: boundary and random integers, long floats, strings over arbitrary Unicode with and without escapes, leading zeros",
 "Tests never look at a literal's value; the failing spellings (range ends, escapes, multi-byte characters) are rare points of a large domain.",
 ["dice-syntax/src/parser/mod.rs","dice-syntax/src/lexer/token.rs",VIS+"literal_int.rs",VIS+"literal_float.rs",VIS+"literal_string.rs",VIS+"literal_object.rs"],[("literal parsing and constant emission","parser/mod.rs literal, process_string; visitor/literal_*.rs")],["Parser::parse, Bytecode constants"])
p("C07","White space and comments between tokens never change a program",
 "Inserting, removing or replacing white space, line breaks and line comments (including empty ones) between tokens, wherever tokens stay separate, leaves the parsed structure, the compiled program and the success or failure of compilation unchanged.",
 ["programs","inputs"],"all pairs of layouts of the same token sequence",
 "A metamorphic relation over all programs and all layouts; the tests use one layout each.",
 ["dice-syntax/src/lexer/token.rs","dice-syntax/src/lexer/mod.rs","dice-syntax/src/parser/mod.rs"],[("trivia skipping","dice-syntax/src/lexer/token.rs")],["Parser::parse, Compiler::compile_source"])
p("C08","Every syntax node's source span is exact and consistent",
 "Each node's span lies inside the text on character boundaries with start not after end, starts at its construct's first token and ends at its last one (so it covers all of its children), and identifier and literal nodes' spans are exactly the text that spells them. This holds with multi-byte characters, comments and any layout.",
 ["programs"],"all generated programs in random layouts including non-ASCII text",
 "No test inspects spans, and wrong ends only show for particular nestings.",
 ["dice-syntax/src/parser/mod.rs","dice-core/src/span.rs","dice-syntax/src/lexer/mod.rs"],[("span_start + span_end","dice-syntax/src/parser/mod.rs")],["SyntaxNode::span"])
p("C09","Errors point at the offending place in the source",
 "When a program contains one defect (an unexpected, reserved or unrecognised token, a bad literal, or a violated static rule), the reported error has the code for that kind of defect and its rendered position (path or script marker, 1-based line and UTF-16 column) is the start of the offending token or construct. The source excerpt that is shown is the text of the line or lines the construct lies on.",
 ["inputs","programs"],"all single-defect programs: every defect kind, injected at a random place of a random program in a random layout with multi-byte text before it",
 "No test provokes an error at all in the buildable crates.",
 ["dice-core/src/error/mod.rs","dice-core/src/error/fmt.rs","dice-syntax/src/parser/mod.rs","dice-syntax/src/lexer/mod.rs",VIS],[("with_span/with_source on each error","parser, lexer, visitors"),("HumanReadableErrorFormatter","dice-core/src/error/fmt.rs")],["Error Display/Debug"])
p("C10","A byte offset maps to its line and UTF-16 column",
 "For every text and every offset on a character boundary, the reported position is the number of line feeds before the offset and the number of UTF-16 code units between the start of that line and the offset. Every way of asking for the position agrees, for any mix of 1- to 4-byte characters and line-ending styles.",
 ["inputs"],"all texts over 1-4 byte characters, CR/LF mixes, and all character-boundary offsets including the end of the text",
 "Two unit tests sample one text with one kind of multi-byte character.",
 ["dice-core/src/source.rs"],[("LineIndex","dice-core/src/source.rs")],["LineIndex::position_of, Source::line_index"])
p("C11","The lines of a span are exactly the lines it touches",
 "For every text and span, the lines reported for the span are, in order, whole and without duplicates or gaps, exactly those lines of the text that the span overlaps. An empty span inside or at the end of a line reports that line, and the reported pieces concatenate to one contiguous piece of the text that contains the span.",
 ["inputs"],"all texts and all spans with ends on character boundaries, including empty spans, spans ending at line breaks, blank lines and texts without final newline",
 "Four unit tests sample three texts; boundary spans are untested.",
 ["dice-core/src/source.rs"],[("LineIndex::lines","dice-core/src/source.rs")],["LineIndex::lines"])
p("C12","Every error renders completely from the message catalogue",
 "Every error code is distinct and has a message; rendering an error substitutes all of its parameters verbatim, followed in order by its position, source excerpt, notes and help lines, and its trace with the location and line number of every line shown. No placeholder or empty message is left over, with or without a path, source, context or trace. A misplaced export carries the note that explains it (naming where it was found), and an import of nothing its note and help line.",
 ["inputs","configurations"],"all errors built from every code, arbitrary parameter values, spans, sources, context lists and trace lists",
 "No test renders an error.",
 ["dice-core/src/error/fmt.rs","dice-core/src/error/localization.rs","dice-core/src/error/codes.rs","dice-core/src/error/context.rs","dice-core/src/error/tag.rs","data/locales/en-US/errors.ftl","data/locales/en-US/error-notes.ftl"],[("fmt_pretty","dice-core/src/error/fmt.rs"),("fluent lookup","dice-core/src/error/localization.rs")],["Error Display/Debug, ErrorFormatter"])
p("C13","Compiled code is always well-formed",
 "Every program the compiler emits, and every function nested in it, decodes completely into known instructions; every jump lands on an instruction boundary inside the code; every constant, local, captured-variable and closure-descriptor operand refers to an existing entry of the right kind; and control never runs off the end of a function.",
 ["programs"],"all programs the compiler accepts, from the semantic generator, the syntactic generator and mutated sources, including ones near every encoding limit",
 "There is no test of the compiler; encodings break only for particular sizes and control-flow shapes.",
 ["dice-compiler/src/assembler.rs","dice-bytecode/src/lib.rs","dice-bytecode/src/cursor.rs","dice-compiler/src/scope_stack.rs","dice-compiler/src/compiler_stack.rs"],[("operand encoding and jump patching","dice-compiler/src/assembler.rs")],["Bytecode cursor/constants"])
p("C14","Compiled code keeps the operand stack balanced on every path",
 "In every compiled program, whichever path control takes to an instruction, the operand stack has the same depth there; no instruction pops more than its code pushed; and every return or normal end leaves exactly one value, the result.",
 ["programs"],"all control-flow paths of all programs the compiler accepts, including early exits from loops, calls, chains and partially evaluated expressions",
 "The imbalance shows only for an exit inside a partially evaluated expression or loop; nothing tests it.",
 [VIS,"dice-compiler/src/assembler.rs"],[("temporaries bookkeeping, loop exits, chains",VIS)],["Bytecode, by abstract interpretation over all paths"])
p("C15","Expressions, variables, blocks and branches compute what the source says",
 "Running compiled code gives the value, the observable effects in order, and the kind of runtime error that the source program means: arithmetic, comparison, equality, negation, lists, objects, fields, indexing, if/else, blocks as expressions, lexical scoping and shadowing, mutation and compound assignment, and calls with arguments evaluated left to right.",
 ["programs"],"all terminating programs of the semantic generator over these features",
 "The intended behaviour is over all programs; the integration tests do not build.",
 [VIS,"dice-compiler/src/assembler.rs","dice-compiler/src/scope_stack.rs"],[("code emission per node",VIS)],["compiled code executed on a reference machine against a tree-walking reference interpreter"])
p("C16","Closures capture variables by reference and keep them alive",
 "A function or anonymous function that mentions variables of enclosing functions reads and writes those very variables, shared between all closures over the same variable and with the enclosing code, at any nesting depth. Each loop iteration or block entry gives fresh variables, and captured variables survive with their last value however the scope is left (end of block, break, continue, return, error propagation).",
 ["programs","histories"],"all programs of the semantic generator with nested functions, captures across several levels, recursion, mutual recursion and every kind of scope exit, and all call sequences they make",
 "Capture bugs need a particular nesting, sharing pattern or exit path; there is no buildable test.",
 ["dice-compiler/src/compiler_stack.rs","dice-compiler/src/upvalue.rs","dice-compiler/src/scope_stack.rs",VIS+"literal_anonymous_fn.rs",VIS+"decl_fn.rs",VIS+"expr_block.rs"],[("resolve_upvalue, close_upvalue emission","dice-compiler/src/compiler_stack.rs, visitor/*")],["compiled code executed on a reference machine"])
p("C17","Classes, methods, constructors, inheritance and super behave as written",
 "Constructing an instance runs its class's constructor on a fresh object and yields that object; method calls bind the receiver; static functions are fields of the class; derived classes inherit and override methods; super calls and super member access reach the base class chosen, whatever the instance's own class; operator overloads, on classes or global, are used for operands without built-in behaviour.",
 ["programs","histories"],"all generated class hierarchies (several levels, overriding, fields, operators) and all generated sequences of calls on their instances",
 "Dispatch depends on the hierarchy and call site combination; no buildable test has a class.",
 [VIS+"decl_class.rs",VIS+"expr_super_access.rs",VIS+"expr_super_call.rs",VIS+"decl_op.rs",VIS+"expr_block.rs"],[("class compilation",VIS+"decl_class.rs")],["compiled code executed on a reference machine"])
p("C18","Short-circuiting, null and error operators evaluate exactly what they should",
 "Logical and/or, null coalescing, error coalescing, null-propagating chains, error propagation, the pipeline operator and type tests evaluate each operand at most once, in the documented order, and skip exactly the operands they are meant to skip. A null-propagating access that meets null ends only its own chain with null, leaving enclosing expressions intact.",
 ["programs"],"all expressions over these operators with effectful operands, in every operand and argument position",
 "Skipping or repeating an operand shows only with side effects in a specific position.",
 [VIS+"expr_binary_op.rs",VIS+"expr_null_propagate.rs",VIS+"expr_error_propagate.rs",VIS+"expr_is.rs",VIS+"syntax_node.rs",VIS+"expr_fn_call.rs",VIS+"expr_index.rs","dice-syntax/src/parser/mod.rs"],[("short-circuit jumps and call contexts",VIS)],["compiled code executed on a reference machine with an effect log"])
p("C19","Loops run the right iterations; break and continue act on the innermost one",
 "while, loop and for (over a literal range, inclusive or exclusive, or over any iterable object) execute their bodies for exactly the specified iterations with the right loop variable, evaluating range ends or the iterable once. break ends and continue advances only the innermost enclosing loop, and a loop yields unit.",
 ["programs","histories"],"all generated nests of loops of all kinds with break and continue under data-dependent conditions",
 "Loop bugs need a particular nesting with break/continue; there is no buildable test.",
 [VIS+"expr_for.rs",VIS+"expr_range_loop.rs",VIS+"expr_while.rs",VIS+"expr_loop.rs",VIS+"expr_break.rs",VIS+"expr_continue.rs","dice-compiler/src/scope_stack.rs"],[("loop compilation",VIS)],["compiled code executed on a reference machine"])
p("C20","Early exits from inside unfinished expressions leave no residue",
 "A return, break, continue or propagated error may appear in a block anywhere inside an expression (argument, operand, list item, object field, index, assignment, chain, condition, loop header); it then transfers control with the right value, and everything evaluated before, around and after it behaves as if the unfinished expression had simply been abandoned.",
 ["programs"],"all expression contexts nested around each kind of exit, inside every kind of loop and function",
 "The context times exit times loop combinations are far beyond samples, and each needs observing code after the exit.",
 [VIS+"expr_return.rs",VIS+"expr_break.rs",VIS+"expr_continue.rs",VIS+"expr_error_propagate.rs",VIS+"expr_fn_call.rs","dice-compiler/src/compiler_stack.rs"],[("temporary_count cleanup",VIS)],["compiled code executed on a reference machine"])
p("C21","Static rules accept every valid program and reject each violation",
 "Programs obeying the language's static rules compile; a program that breaks one (assigning to an immutable, undeclared or invalid target; using a variable before its initialisation; duplicate functions, classes or parameters; return, break, continue, super, export or error propagation outside their contexts; constructor, receiver and super-call rules) is rejected with the error code of that rule.",
 ["programs"],"all valid generated programs, and each of them with exactly one violation of a chosen rule injected at a random suitable place",
 "Each rule must hold in every context (nested functions, classes, loops, modules); no buildable test touches one.",
 [VIS,"dice-compiler/src/scope_stack.rs"],[("error returns in visitors",VIS)],["Compiler::compile_source error code"])
p("C22","Size limits are exact: programs within them work, programs beyond are rejected",
 "Programs with up to 255 parameters or arguments, 255 list items, 256 distinct constants, 256 local slots, 255 captured variables and jumps that fit the encoding compile and behave correctly. A program beyond a limit is rejected with an error; it is never compiled into code that does something else.",
 ["programs","configurations"],"all sizes around each limit, for each construct that consumes the limited resource, alone and combined",
 "Encodings wrap silently only beyond the limit; no test builds such a program.",
 ["dice-compiler/src/assembler.rs","dice-compiler/src/scope_stack.rs","dice-syntax/src/parser/mod.rs",VIS],[("make_constant, closure limit, u8/i16 encodings","dice-compiler/src/assembler.rs")],["Compiler::compile_source, execution on a reference machine"])
p("C23","Modules export and import exactly the named items",
 "Running a module yields an object holding exactly the exported names with the values they had when exported, whatever form the export takes (variable, function, class, existing name). An import binds the whole module and/or the listed items of the module at the written path, and exporting anywhere but at the top level of a module is an error.",
 ["programs"],"all generated module sets with exports and imports of every form mixed with other code",
 "No buildable test covers modules; forms combine with order and shadowing.",
 [VIS+"decl_export.rs",VIS+"decl_import.rs","dice-compiler/src/compiler.rs","dice-syntax/src/parser/mod.rs"],[("export slot and store",VIS+"decl_export.rs")],["compiled code executed on a reference machine with a generated module table"])
p("C24","Compilation is deterministic and depends only on program structure",
 "Compiling the same source again gives the same code, up to the unique function identities; consistently renaming variables, parameters and function names to fresh names, or adding redundant parentheses, gives the same code up to the names. Distinct functions, even textually identical ones, keep distinct identities.",
 ["programs","histories"],"all generated programs, repeated compilations in one process in any order, and all fresh-name renamings",
 "A relation between runs; no test compiles twice.",
 ["dice-compiler/src/compiler.rs","dice-compiler/src/assembler.rs","dice-compiler/src/scope_stack.rs","dice-bytecode/src/lib.rs"],[("slot allocation by position","dice-compiler/src/scope_stack.rs")],["Compiler::compile_source twice"])
p("C25","The disassembly shows exactly the encoded program",
 "The textual disassembly of a program lists every instruction with its position, opcode, name and operand values, in order, followed by every function it contains, recursively, so that the encoded program can be read back from the text.",
 ["programs"],"all compiled programs and all hand-assembled instruction sequences",
 "No test looks at a disassembly.",
 ["dice-bytecode/src/lib.rs","dice-bytecode/src/instruction.rs"],[("Display for Bytecode","dice-bytecode/src/lib.rs")],["Bytecode Display"])
p("C26","Instruction encoding and the code cursor round-trip",
 "Every instruction maps to its own byte and back, and no other byte decodes silently to an instruction. Reading code through the cursor returns the instructions, operands and signed jump offsets that were written, tracks positions and remaining length exactly, moves by any in-range offset, and ends exactly at the end of the code.",
 ["inputs","histories"],"all bytes, and all generated code buffers with all sequences of cursor operations",
 "There are no tests in the bytecode crate.",
 ["dice-bytecode/src/instruction.rs","dice-bytecode/src/cursor.rs"],[("From<u8>/Into<u8>, BytecodeCursor","dice-bytecode/src")],["Instruction, BytecodeCursor"])
p("C27","Type annotations are enforced where written, and only there",
 "A parameter or return annotation makes a call fail exactly when the actual value is not an instance of the named class (or is null without the nullable mark), at entry for parameters and on every way of returning for results. Unannotated values are never checked, and the type-test operator gives the same verdict without failing.",
 ["programs"],"all generated functions, methods and operators with annotations over built-in and generated classes, called with all kinds of values, returning by every path",
 "Enforcement must hold on each return path and annotation position; no buildable test has an annotation.",
 [VIS+"expr_block.rs",VIS+"expr_is.rs",VIS+"expr_return.rs","dice-compiler/src/compile_fn.rs"],[("ASSERT_TYPE emission",VIS+"expr_block.rs")],["compiled code executed on a reference machine"])
p("C28","The prelude's ranges and results work through the language's protocols",
 "Compiled with this compiler, the shipped prelude's range values (inclusive and exclusive) iterate over exactly their members in order, any number of times, also in nested loops and with early exits; and its ok/error results carry their value, map only when ok, and work with error coalescing and propagation.",
 ["programs","histories"],"all range ends in a bounded window and all nests of loops over stored ranges, and all chains of result operations",
 "The prelude has no test in the buildable crates; its protocol use must agree with what the compiler emits.",
 ["data/scripts/prelude.dm",VIS+"expr_for.rs","dice-core/src/protocol.rs"],[("prelude classes","data/scripts/prelude.dm")],["prelude compiled as module and executed on a reference machine"])
p("R01","The runtime executes, collects and loads modules safely",
 "Running any compiled program on the shipped virtual machine gives the specified result, never corrupts memory under garbage collection, and never loads a module from outside the module directory.",
 ["programs","histories"],"all programs, heaps and module paths",
 "The runtime crates' own integration tests do not build at this commit.",
 ["dice-runtime/src","dice/src/lib.rs","dice-cli/src/main.rs"],[("interpreter, gc, file loader","dice-runtime/src")],["Dice::run_script"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
