MIR = "static analysis of rustc MIR: "

p("C01", "Compiled instructions mean to the machine what the compiler wrote",
  "Every instruction the compiler can produce is understood by the virtual machine and by the disassembler as the same "
  "operation with exactly the same operands. This holds for every value of every operand, and no two instructions share an encoding.",
  ["inputs", "programs"], "all instructions and all values of their operands (registers, constants, addresses, flags, packed argument descriptors)",
  "The golden tests exercise each instruction with a handful of small operand values; a mask or shift that is wrong only for high registers or far addresses passes them.",
  ["core/src/bytecode.rs", "core/src/vm/context.rs"],
  [("instruction encoders and decoders", "core/src/bytecode.rs: instr! macro, RawValue implementations"),
   ("dispatch loop and disassembler", "core/src/vm/context.rs Context::exec; core/src/bytecode.rs format_instr")],
  MIR + "bit-level abstract interpretation of encoder composed with decoder",
  "exhaustive over operand values by symbolic bits; relies on rustc's MIR and on the completeness of the opcode enumeration")

p("C02", "Each operator computes its own operation on its own operands",
  "Evaluating an arithmetic, bitwise, shift, comparison, logical or text operator yields the result of that operator applied to its "
  "left and right operands, in that order, for every pair of values. Integer results that cannot be represented, divisions by zero and "
  "out-of-range shift counts or exponents are reported as errors and never wrap around or crash the interpreter.",
  ["inputs", "programs"], "all operators, operand types and operand values",
  "Tests sample a few operand values per operator; swapped operands, a wrong relation for equal or unordered values and unchecked arithmetic only show on others.",
  ["core/src/vm/context.rs", "core/src/bytecode.rs"],
  [("operator instructions", "core/src/vm/context.rs: do_* methods and checked_* helpers")],
  MIR + "symbolic terms of each dispatch arm; relational abstract interpretation of comparisons",
  "each arm is reduced to a term and compared with the operator's definition; std arithmetic functions are trusted")

p("C03", "A failing operation leaves the program's state untouched",
  "When an elementary step of a program (an operation, an array access, a call, an allocation) fails with a runtime error, it changes no variable, array, "
  "call frame, error handler or stored value, and the error is reported at the place that failed. "
  "A step that succeeds advances the program exactly once.",
  ["inputs", "fault_sequences", "programs"], "all instructions and all paths through them",
  "Tests check the error message but not what else a failing step did; partial effects only become visible when a program handles the error and goes on.",
  ["core/src/vm/context.rs", "core/src/mem.rs"],
  [("set_exception and program counter updates", "core/src/vm/context.rs"), ("fallible allocation", "core/src/mem.rs Heap::push")],
  MIR + "path-sensitive typestate over every dispatch arm",
  "all paths of all instructions; effects are writes to machine state identified by access path")

p("C04", "A running program can always be interrupted",
  "However a program repeats itself (any kind of loop, GOTO, GOSUB and RETURN, recursive functions, error handlers that jump back), it regularly "
  "reaches a point where a pending interrupt request is examined. An interrupt that is pending there, or after an asynchronous command, stops the "
  "program with a break and nothing else of the program runs.",
  ["schedules", "programs"], "all programs and all moments at which an interrupt can arrive",
  "Tests interrupt a couple of fixed loops; a single jump kind that does not give way makes some programs unstoppable.",
  ["core/src/vm/context.rs", "core/src/vm/mod.rs", "core/src/compiler/top.rs", "std/src/lib.rs"],
  [("yield requests", "core/src/vm/context.rs do_jump, do_jump_if_false, do_return; core/src/vm/mod.rs handle_exception"),
   ("statement marks", "core/src/compiler/top.rs compile_stmt, compile_for"),
   ("interrupt polling", "std/src/lib.rs Machine::exec")],
  MIR + "path-sensitive typestate with branch oracles over jumps, dispatch loop, host loop and loop compilation",
  "covers every instruction that can move execution backwards and every host loop; liveness within one command is out of scope")

p("C05", "Built-ins only read the arguments that their syntax guarantees",
  "A built-in command or function only ever reads arguments that its declared syntax guarantees are present, each as its declared type, for "
  "every combination of given, omitted and repeated arguments and separators that the syntax admits. A function always sets a result of its "
  "declared return type when it succeeds, and a command never sets one.",
  ["inputs", "programs"], "all built-in commands and functions and all argument shapes their syntaxes admit",
  "Each built-in is tested with a few argument shapes; a wrong slot or type only shows, as garbage or a crash, with the shape that misses it.",
  ["std/src", "client/src/cmds.rs", "repl/src", "core/src/callable.rs"],
  [("argument accessors", "core/src/callable.rs Scope"), ("argument layouts", "core/src/compiler/args.rs"), ("built-ins", "implementations of Callable")],
  MIR + "abstract interpretation of every built-in over the argument layouts of its declared syntax",
  "layouts with repeated arguments are explored up to a bound (quick 2, thorough 3 repetitions; fixed-size layouts up to 8)")

p("C06", "Expressions compile to the instructions their operators and types call for",
  "Every operator, literal, variable, function call and array element access in an expression is compiled to the instruction for that construct and the types "
  "of its operands, with left and right operands in their places. When an operator mixes integers and doubles, or a value is used where the other "
  "numeric type is required, exactly the value of the other type is converted. Combinations of types, subscript counts or type annotations that the language does not "
  "accept are rejected.",
  ["inputs", "programs"], "all expressions, all operand types, all literal values",
  "Tests compile one or two type combinations per operator and few literals; a wrong entry for one combination or one literal range passes them.",
  ["core/src/compiler/exprs.rs", "core/src/compiler/codegen.rs"],
  [("expression compiler", "core/src/compiler/exprs.rs compile_expr, compile_pending_ops, compile_expr_as_type"),
   ("constants", "core/src/compiler/codegen.rs emit_value, get_constant")],
  MIR + "abstract interpretation of the expression compiler over expression shapes and types",
  "operands are symbolic; chains are decided for all pairs the recursion is made of; integer literals by boundary values of the code")
p("C07", "Expressions are grouped as operator precedence and parentheses say",
  "In any expression, powers bind tightest, followed by negation and NOT, then multiplication, division and MOD, then addition and subtraction, then bit shifts, "
  "then comparisons, and finally AND, OR and XOR; operators of the same level group from left to right. Parentheses override that grouping without changing "
  "what surrounds them, and an expression ends at the first token that cannot continue it. Sequences of operators and operands that are not an expression are rejected.",
  ["inputs", "programs"], "all expressions (token sequences)",
  "Tests parse a handful of operator chains; a wrong level for one operator only shows next to specific other operators.",
  ["core/src/parser.rs"],
  [("expression parser", "core/src/parser.rs Parser::parse_expr, ExprOp::priority, ExprOpSpan::apply")],
  MIR + "abstract interpretation of the expression parser over token shapes against precedence climbing",
  "all pairs of operators and, in the quick tier, a third of the triples of representatives; longer chains only repeat the comparison of the incoming operator with the top of the stack")
p("C08", "Control-flow statements run their parts when and as often as they say",
  "IF/ELSEIF/ELSE, WHILE, every form of DO, FOR with any literal step, SELECT CASE with values, relations, ranges and ELSE, EXIT DO, EXIT FOR and END evaluate their conditions and run "
  "their bodies in the order and exactly as often as the construct calls for, for every sequence of condition outcomes and however they are nested; an EXIT leaves the innermost loop of its kind. "
  "Blocks that are not closed, closed as another kind, overlapping or malformed, a zero FOR step and EXIT outside of its kind of loop are rejected.",
  ["inputs", "programs", "histories"], "all control-flow constructs, all sequences of condition outcomes (bounded per construct)",
  "Tests run a few shapes of each construct; a wrong jump only shows for a certain branch, with an empty body or with nesting.",
  ["core/src/parser.rs", "core/src/compiler/top.rs", "core/src/compiler/codegen.rs"],
  [("block parsers", "core/src/parser.rs parse_if, parse_do, parse_for, parse_select, parse_while"),
   ("statement compiler", "core/src/compiler/top.rs compile_if, compile_do, compile_for, compile_while, compile_select"),
   ("jump patching", "core/src/compiler/codegen.rs emit, patch")],
  MIR + "abstract interpretation of the block parsers and the statement compiler; derived code is compared with the construct's meaning for all outcomes of its conditions",
  "conditions and sub-statements are opaque; constructs compose by structural induction; outcomes up to 4 (quick) or 7 (thorough) tests")

p("C09", "Jumps, calls and error handlers continue where the program says",
  "GOTO, GOSUB with RETURN, ON ERROR GOTO, ON ERROR RESUME NEXT and ON ERROR GOTO 0, calls to SUBs and FUNCTIONs, EXIT SUB and EXIT FUNCTION continue at exactly the place they name, from and into every kind of block, "
  "wherever the labels and definitions are and whatever letter case they are written in, and a definition that is reached in sequence is skipped. An error is handled by the mode in force: the program stops, jumps to the handler (unless the error is in the handler itself) "
  "or goes on with the statement after the failed one; returning from a call restores the caller's variables and places the result. "
  "Unknown and duplicate labels, undefined, duplicate or nested callables and misplaced EXIT statements are rejected.",
  ["inputs", "programs", "histories"], "all programs made of jumps, callables, handlers and blocks, all outcomes of their conditions and failures (bounded per program)",
  "Tests run a few programs per construct; a wrong target only shows for one block kind, one place of the failing statement or one nesting of calls.",
  ["core/src/compiler/top.rs", "core/src/compiler/codegen.rs", "core/src/vm/context.rs", "core/src/vm/mod.rs"],
  [("statement compiler", "core/src/compiler/top.rs compile_stmt, compile_user_callable"),
   ("targets", "core/src/compiler/codegen.rs add_fixup, apply_fixups, define_label"),
   ("frames", "core/src/vm/context.rs do_call, do_gosub, do_return"),
   ("handlers", "core/src/vm/mod.rs Vm::handle_exception")],
  MIR + "abstract interpretation of the compiler, of target resolution and of the machine's transfer rules; derived code is compared with a reference flow graph",
  "a family of about 150 programs with opaque statements and conditions; jumps across the boundary of a callable are known findings")

p("C10", "Unsaved changes to the stored program are never lost without asking",
  "LOAD, NEW and a program that ends the interactive session only discard a stored program that has unsaved changes after the user agreed to it, and nothing else replaces it; "
  "LOAD then brings in exactly the valid text of the file it names, and both commands clear the machine exactly when they replace the program. "
  "A program counts as saved under a name only once its text was stored there, and every edit marks it as modified, also when the console fails while the edit is shown.",
  ["inputs", "histories", "fault_sequences"], "all answers, all outcomes of storage and console operations, all editor keys",
  "Tests cover some answers and the successful saves; what is lost after a failed save, a failed console operation or an unusual answer only shows later in the session.",
  ["std/src/program.rs", "repl/src/lib.rs", "repl/src/editor.rs"],
  [("commands", "std/src/program.rs LoadCommand, NewCommand, SaveCommand, continue_if_modified"),
   ("interactive loop", "repl/src/lib.rs run_repl_loop"), ("editor", "repl/src/editor.rs Editor")],
  MIR + "effect traces (typestate over all paths, errors included) of commands, interactive loop and editor",
  "all paths; ending the session with end of input does not ask, by design")

p("C11", "File operations act on exactly the files they name, within mounted drives",
  "A path names a file in the root of one mounted drive; anything else (parent or nested directories, other separators, unknown or invalid drives) is rejected before any drive is touched. "
  "COPY, KILL, DIR, CD, PWD, MOUNT and UNMOUNT act on exactly the named drives and files, report the drive's failures, and leave the set of drives and the current drive unchanged when they fail. "
  "Drives on disk and in memory give back the whole contents of a file and replace exactly that file's contents in full, reported as written only once they are on disk; the read-only drives change nothing.",
  ["inputs", "histories", "fault_sequences"], "all paths (by shape), all sets of mounted drives (bounded), all outcomes of drive operations",
  "Tests use a few paths and mostly succeeding drives; an escape or a half-done operation needs a certain combination of separators, drives and failures.",
  ["std/src/storage/mod.rs", "std/src/storage/fs.rs", "std/src/storage/mem.rs", "std/src/storage/cmds.rs", "repl/src/demos.rs"],
  [("paths and drives", "std/src/storage/mod.rs Location, DriveKey, Storage"), ("disk drive", "std/src/storage/fs.rs DirectoryDrive"),
   ("memory drive", "std/src/storage/mem.rs InMemoryDrive"), ("commands", "std/src/storage/cmds.rs")],
  MIR + "abstract interpretation of the storage layer over paths of known shape, with effect traces of drive and file system operations",
  "separators are concrete and the text between them arbitrary; up to three mounted drives; symbolic links and case-insensitive file systems are outside")

p("C12", "Math and text functions compute what they document",
  "For every argument the mathematical functions (ABS, trigonometry in the angle mode in force, EXP, LOG, SQR, SGN, INT, FIX, CINT, ROUND, MIN, MAX, RND) return the value of their definition, "
  "and fail exactly for arguments outside of their domain or whose result cannot be represented. The text functions (LEN, LEFT, RIGHT, MID, INSTR, ASC, CHR, UCASE, LCASE, the trims, SPACE, STR, VAL) "
  "count whole characters of any width and return exactly the characters their arguments select, for all lengths and positions. No argument makes them panic.",
  ["inputs"], "all numbers and all texts (by shape)",
  "Tests sample a few ordinary arguments; wrong results hide at the ends of ranges, at infinities and negative zero, and in texts whose characters are wider than a byte.",
  ["std/src/numerics.rs", "std/src/strings.rs"],
  [("math functions", "std/src/numerics.rs"), ("text functions", "std/src/strings.rs")],
  MIR + "derivation of each function's piecewise summary by abstract interpretation over symbolic numbers and characters, compared with the definition at and between the ends of its pieces",
  "texts up to six characters of unknown width; library functions on doubles are trusted; angles beyond a million are not compared")

p("C13", "Console, pin and sound commands request exactly what their arguments say",
  "COLOR, CLS, LOCATE, PRINT, INPUT, INKEY, the GFX commands and functions, SCRCOLS, SCRROWS, BEEP, SOUND, SLEEP, MONOTONIC and the GPIO commands make exactly the device requests that their arguments describe, "
  "every argument in its place and unchanged, and functions return exactly what the device reported. "
  "Arguments out of range are rejected before anything is requested, and a failure of the device ends the command and is reported. "
  "PRINT lays out its items as documented (14-character fields after commas, numbers with a sign column, newline unless a separator ends it) and INPUT asks again until the answer is a value of its variable's type.",
  ["inputs", "fault_sequences"], "all numbers, all argument shapes, all device results and failures",
  "Tests use a few small coordinates and a console that never fails; swapped, truncated or wrapped arguments show only at the ends of the ranges.",
  ["std/src/console/cmds.rs", "std/src/gfx/mod.rs", "std/src/gpio/mod.rs", "std/src/sound/cmds.rs", "std/src/exec.rs", "std/src/datetime.rs"],
  [("console commands", "std/src/console/cmds.rs"), ("graphics commands", "std/src/gfx/mod.rs"), ("pins", "std/src/gpio/mod.rs"), ("sound", "std/src/sound/cmds.rs"), ("sleep and clock", "std/src/exec.rs, std/src/datetime.rs")],
  MIR + "abstract interpretation of each command over symbolic numbers; the derived device requests are compared with the documented ones at and between the ends of their pieces",
  "PRINT up to three items, INPUT up to three answers, polygons up to eight numbers; real-time behaviour of devices is outside")

p("C14", "Variables, arrays and DATA hold what programs put in them",
  "An array element holds the last value assigned to it: subscripts within the dimensions select one element each, the same for reading, assigning and commands that fill it; other subscripts, wrong numbers of subscripts "
  "and non-positive dimensions are rejected, and DIM makes zero or empty elements or fails without crashing. "
  "An assignment stores the value its expression has with all variables as they were before, converted to the variable's type, also when the expression calls functions that use the variable. "
  "LBOUND and UBOUND report the limits of each dimension. READ takes the DATA values in the order of the program, converts numbers and reports missing or unsuitable values; RESTORE starts over.",
  ["inputs", "histories"], "all subscripts and dimensions, all element values, assignments of all forms of expressions (two levels deep)",
  "Tests use a few small arrays and simple assignments; two elements that share a place, or an expression that sees a half-done assignment, need certain dimensions or certain nestings.",
  ["core/src/mem.rs", "core/src/vm/context.rs", "core/src/compiler/top.rs", "core/src/compiler/exprs.rs", "core/src/callable.rs", "std/src/arrays.rs", "std/src/data.rs"],
  [("arrays", "core/src/mem.rs ArrayData, Heap; core/src/vm/context.rs"), ("references of commands", "core/src/callable.rs"), ("assignments and DIM", "core/src/compiler/top.rs, exprs.rs"),
   ("LBOUND, UBOUND", "std/src/arrays.rs"), ("DATA", "core/src/compiler/top.rs, std/src/data.rs")],
  MIR + "abstract interpretation of array instructions over symbolic subscripts, of the statement compiler over symbolic expressions (its code compared with that of an assignment to an unrelated variable), and of READ over every type of variable and value",
  "arrays of up to four dimensions; expressions two levels deep; the state of a variable after a failed assignment or before its definition was executed is not decided")


p("C15", "Line input gives back the text its keys build",
  "A typed character is inserted at the cursor; the arrow keys, Home and End move it within the line, Backspace and Delete remove exactly the character before and under it, the vertical arrows recall earlier lines with the edits made to them. "
  "The line that is accepted is exactly the resulting text and becomes the last entry of the history unless it is empty. While a key is awaited, the row shows the question and a stretch of the line around the cursor, with the cursor in its place, "
  "however wide the console and the question are. Secrets appear only as asterisks and are refused without a terminal; interrupts, the end of the input and failures of the console are reported.",
  ["inputs", "histories"], "all sequences of keys over lines of up to eight characters, on consoles of two to seven columns",
  "Tests replay a few dozen key sequences; a line that goes wrong needs a certain order of scrolling, editing and recalling.",
  ["std/src/console/readline.rs", "std/src/console/linebuffer.rs"],
  [("reading lines", "std/src/console/readline.rs read_line, read_line_secure"), ("text by characters", "std/src/console/linebuffer.rs")],
  MIR + "exploration of all abstract states of the line reader, interpreted over lines of unknown characters with every key at every prompt; the row and the result are compared with a model of the line",
  "finite consoles, questions and line lengths; keys that only move are unlimited, insertions are limited per session")

p("C16", "The program editor keeps the text its keys build and shows it",
  "Typed characters, new lines, tabulators, Backspace and Delete change the program exactly where the cursor is, joining and splitting lines; a new line is indented like the one before, and Backspace within the indentation goes back one level. "
  "Moving keys change no text, stay within it and keep the column that vertical moves aim at. While a key is awaited, the rows above the status line show the text around the cursor, with the cursor at the next character, on any console of at least two rows. "
  "Leaving the editor restores the screen, the text is what the keys built, the editor knows whether it has changes that were not saved, and failures of the console are reported.",
  ["inputs", "histories"], "all sequences of up to three edits with any moves in between, over short programs on small consoles",
  "Tests replay single keys; a stale screen or a wrong line needs a certain position of the view, an indentation and a key.",
  ["repl/src/editor.rs", "std/src/console/linebuffer.rs", "std/src/program.rs"],
  [("the editor", "repl/src/editor.rs Editor"), ("lines of text", "std/src/console/linebuffer.rs")],
  MIR + "exploration of all abstract states of the editor, interpreted over programs of unknown characters with every key at every prompt; the screen and the program are compared with a model of the text",
  "short programs and small consoles; one to three edits with any number of moves between them (the thorough run adds one)")
p("C17", "A graphical console shows what was written to it",
  "On any console of at least two rows, text appears from the cursor on in the current colours, with control characters as spaces; it wraps at the right edge and scrolls at the bottom. "
  "Clearing, moving the cursor, showing and hiding it, colours and the alternate screen change exactly what they say, and leaving the alternate screen brings back the screen, the cursor and the colours. "
  "Drawing commands draw the points they are given, even the extreme ones, in the foreground colour; filling covers exactly the connected area of one colour. Everything is presented at once while synchronisation is on and only when asked while it is off, and failures of the backend are reported.",
  ["inputs", "histories"], "all sequences of up to three requests with texts of any characters, on surfaces of several sizes with several fonts",
  "Tests compare recorded calls for single requests; a stale cursor or a lost row needs a sequence of requests and a position.",
  ["std/src/console/graphics.rs", "std/src/console/mod.rs"],
  [("the console", "std/src/console/graphics.rs GraphicsConsole"), ("the backend", "std/src/console/graphics.rs RasterOps")],
  MIR + "exploration of all abstract states of the console, interpreted over a surface whose pixels remember what was drawn on them; after every request the surface is compared with a model of the text",
  "surfaces of at most 7 by 9 pixels; three requests in a row (four in the thorough run); at least two rows")
p("C18", "A display behind a slow bus shows exactly what was drawn on it",
  "Whatever is drawn on a buffered display (pixels, rectangles, lines, circles, triangles, polygons, text, areas moved or put back) changes exactly the pixels of that shape that lie on the display, in the drawing colour, and can be read back. "
  "While synchronisation is on, the display shows it at once; while it is off, the display changes only when asked to and then shows everything drawn meanwhile. "
  "Peeking at a pixel gives the first colour of the palette that looks like it, and nothing outside of the display. "
  "Everything sent to the display lies within it; transfers that fail are reported and leave the display usable.",
  ["inputs", "histories"], "all sequences of up to two requests with any drawing colours, some with extreme coordinates, and several hundred shapes across the borders of a display",
  "Tests draw a few shapes on a recorder; a pixel that is lost or not presented needs a certain place, an order of requests or a failure.",
  ["std/src/gfx/lcd/buffered/mod.rs", "std/src/console/drawing.rs", "std/src/gfx/lcd/mod.rs"],
  [("the frame buffer", "std/src/gfx/lcd/buffered/mod.rs BufferedLcd"), ("shapes", "std/src/console/drawing.rs"), ("fonts", "std/src/gfx/lcd/fonts/mod.rs Font::glyph")],
  MIR + "exploration of all abstract states of the frame buffer, interpreted over a display that remembers what it was sent, with opaque pixels and every transfer failing once; buffer and display are compared with a model, and shapes with their definitions",
  "displays of at most 17 by 17 pixels; two requests in a row (three in the thorough run)")
p("C19", "Long output is wrapped between words and shown page by page",
  "LIST shows every line of the program and HELP all of a topic, in order, on any console. Wrapped text keeps its words and paragraphs, two spaces between sentences, and breaks lines only between words, where the next one would leave fewer than five columns free. "
  "On an interactive console a screenful is followed by a prompt for a key, and only then: Escape or an interrupt ends the command with an error, any other key continues; the host gets to run after every line. "
  "HELP finds topics by their names or unique prefixes in any case and rejects other names; it leaves the colours as they were, even when stopped. Failures of the console are reported.",
  ["inputs", "histories"], "programs, topics and paragraphs with words and lines of all lengths around the widths of several consoles, with any key at every pause",
  "Tests page a few fixed texts; a lost line or a leftover colour needs a certain width, a pause at a certain place and a key.",
  ["std/src/console/pager.rs", "std/src/console/format.rs", "std/src/help.rs", "std/src/program.rs"],
  [("the pager", "std/src/console/pager.rs Pager"), ("wrapping", "std/src/console/format.rs refill_and_print, refill_and_page"), ("topics", "std/src/help.rs HelpCommand, Topics::find")],
  MIR + "abstract interpretation of the commands and the wrapping function over a console that is a state machine of lines and pauses, each call of which may fail and each pause of which is answered by every key",
  "lines of up to five times the width of the console; paragraphs of up to four words; a fixed set of made-up topics instead of the real index")

p("C20", "Programs are read as the words, numbers, strings and signs they spell",
  "Keywords are recognised in any case; other words are names, with an optional sign of their type. Numbers, in any base, and strings, with escapes, have the value that is written, or are rejected if they are malformed or do not fit 32 bits. "
  "Comments, a first line that names an interpreter, and white space separate tokens and mean nothing else. Every token and every error is located at the line and column where it begins, tabs going on to the next multiple of eight. "
  "After a malformed token, reading goes on behind the next separator. A failure to read the source is reported and not taken for its end.",
  ["inputs"], "sources of any characters, of several lines, that come from a stream that may fail",
  "Tests read some dozens of sources; a misread literal or a wrong column needs a certain combination of characters.",
  ["core/src/lexer.rs", "core/src/reader.rs"],
  [("the lexer", "core/src/lexer.rs Lexer::read"), ("characters and places", "core/src/reader.rs CharReader")],
  MIR + "abstract interpretation of the lexer over all short sources of an alphabet of representative characters and over literals, words and lines of all forms, compared with a description of the language",
  "all sources of up to three of 25 representative characters (four of 15 in the thorough run); words, literals and lines from a list; the text of error messages is not compared")
