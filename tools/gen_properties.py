#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Run by hand; not part of any check."""
import json, os
T='src/parser/tokenizer.rs'; E='src/parser/expressions.rs'; S='src/parser/statements.rs'
B='src/parser/blocks.rs'; F='src/parser/functions.rs'; SB='src/parser/source_buffer.rs'; PA='src/parser/parser.rs'; N='src/parser/nodes.rs'; TR='src/parser/trivias.rs'; TK='src/parser/tokens.rs'; PT='src/parser/patterns.rs'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed="library target exposing the parser modules (src/lib.rs, cfg pycore_verif)")))
lexobs=["sequence of tokens delivered for a source text, up to end of file or the first error"]
treeobs=["syntax tree, or error, returned for a source text"]
p("C01","Operators and delimiters are cut by longest match",
"At every point of a line, the operator or delimiter delivered is the longest one of Python's operator and delimiter list that the text starts with there, with its exact start and end offsets, whatever comes before and after it. A character or character pair that starts no token (such as '!' without '=', '$', '?' or '`') is reported as an error, never skipped and never turned into a token.",
["inputs"],"every string over the operator characters (with a letter, a digit, a space and invalid characters mixed in)",
"The tests feed each operator alone, once; runs of adjacent operator characters, and operators next to names, digits and dots, are not covered.",
[T],[("table of three-, two- and one-character arms tried in order",T+" get_symbol")],lexobs)
p("C02","Names and keywords are whole maximal words",
"A maximal run of letters, digits and underscores that starts with a letter or underscore is delivered as exactly one token over the whole run: the keyword token if the run equals one of Python's 35 keywords exactly (case-sensitively), otherwise a name token carrying exactly that text, unless the run is a string prefix directly followed by a quote. No word that merely contains, extends or is contained in a keyword is treated as that keyword.",
["inputs"],"every word of ASCII letters, digits, underscores and non-ASCII letters, of any length",
"The tests check each keyword once and a couple of names; words one edit away from a keyword, prefixes, long words and non-ASCII words are not covered.",
[T],[("word loop and keyword table",T+" get_symbol")],lexobs)
p("C03","Numeric literals follow Python's grammar exactly",
"Every integer (decimal, 0x, 0o, 0b, with single underscores between digits), float and imaginary literal of Python is delivered as one number token with exactly its text and offsets, and the token ends where the longest valid literal ends. A digit sequence that Python rejects (a dangling or doubled underscore, a radix prefix with no digits, a non-zero integer with a leading zero) is an error, and no number token ever carries text that is not a valid literal. When the literal is directly followed by a letter, digit or underscore, either an error or a split after the literal is acceptable.",
["inputs"],"every string over digits, radix letters, '_', '.', exponent letters, signs and 'j'",
"Each form is tested with one or two samples; the interplay of underscores, leading zeros, radix prefixes, dots, exponents and suffixes is combinatorial.",
[T],[("zero, dot and non-zero literal automata",T+" get_symbol")],lexobs)
p("C04","String literals end at their own closing quote",
"A string literal (single or triple quoted, either quote character, with any of Python's prefixes in any case) is delivered as one string token whose text is exactly the source from the opening to the matching closing quote and whose prefix is the one written. A backslash always takes the next character (or line break) with it, a line break is allowed only in triple-quoted strings or after a backslash, the other quote character and shorter quote runs do not close it, and a string that is not closed is an error.",
["inputs"],"every string over both quotes, backslash, line breaks, prefix letters, '#', brackets and ordinary characters",
"The tests use a handful of well-formed strings; escapes, quote runs, empty strings, line breaks and unterminated strings combine without bound.",
[T],[("string scanner and prefix table",T+" handle_string, get_symbol")],lexobs)
p("C05","Tokens and trivia tile the source without loss",
"Token and trivia spans never overlap and appear in increasing order, and every character of the source lies in exactly one token or trivia item, except the indentation at the start of a line (also of a blank or continued-in-brackets line). Each piece of white space, comment, line break that is not a token, and backslash continuation is attached to the token that follows it, with its exact offsets and its own characters. Line breaks are LF or CR.",
["inputs"],"every source text over white space, comments, line breaks, continuations, brackets and names that contains no lexical error",
"Tests assert spans of single tokens; nothing checks that trivia is complete, attached to the right token and gap-free over arbitrary layouts.",
[T,TR,TK],[("trivia collector moved into the token that follows",T+" get_symbol")],lexobs,
[("trivia collector","white space, comments and line breaks seen since the last token",T)])
p("C06","Logical lines: where a newline token appears",
"A line break (LF, CR or CR LF) yields a newline token exactly when it ends a line that is neither blank nor comment-only and no bracket is open (a line that starts with a backslash continuation is not blank); line breaks of blank and comment-only lines, inside brackets and after a backslash yield none. The newline token records which line break was read, and if the last line of the source has tokens but no line break, one newline token with an empty span is still delivered before end of file. Characters after a line break are never lost.",
["inputs"],"every source over names, brackets, comments, backslashes, blanks and the three line-break forms",
"Tests check a newline after one short statement; the product of bracket depth, blank lines, comments, continuations and end of file is not covered.",
[T],[("line-break arms, blank-line flag and open-line flag",T+" get_symbol")],lexobs,
[("is_at_beginning_of_line","next character starts a physical line",T),("is_line_open","the current logical line holds a token",T),("parenthesis","open brackets",T)])
p("C07","Indents and dedents mirror the indentation stack",
"Before the first token of a logical line, one indent token is delivered if its column exceeds the innermost open indentation, one dedent token for each open indentation deeper than its column, and none if it equals it; a column that matches no open indentation is an error. Columns count spaces as one and tabs as advancing to the next multiple of four; blank and comment-only lines, continuation lines and lines inside brackets change nothing. At end of file, unless a bracket is still open, every open indentation is closed by exactly one dedent, so indents and dedents balance.",
["inputs"],"every sequence of lines with any indentation by spaces and tabs, with blank, comment, bracketed and continued lines between them",
"Tests never tokenise nested blocks; the stack discipline depends on the whole history of lines.",
[T],[("indent stack and pending counter",T+" get_symbol")],lexobs,
[("indent_stack","columns of the open blocks",T),("pending","indents or dedents still to be delivered",T)])
p("C08","Brackets match by kind and nesting",
"A closing bracket is delivered as a token only if the innermost bracket still open is of the same kind, and closes exactly that one; otherwise the tokenizer reports an error at that bracket. Opening brackets are always accepted, to any depth. While any bracket is open, line breaks and indentation have no effect on the token stream, and as soon as the last one closes they do again.",
["histories","inputs"],"every sequence of the six brackets, names, line breaks and indentation, to any depth",
"Tests cover one pair of each kind; the property is about arbitrary nesting histories.",
[T],[("bracket stack",T+" get_symbol")],lexobs,[("parenthesis","closers owed, innermost last",T)])
p("C09","Any text is processed to an end, and end of file is final",
"For every source text, reading tokens reaches end of file or an error after at most a small multiple of the text's length, and all four parser entry points return a tree or an error; none of them panics, overflows, recurses without end or loops. Once end of file has been delivered, every further request delivers end of file again at the same position. Syntax nested a hundred levels deep is processed as well.",
["inputs"],"every source text (short texts exhaustively over wide alphabets, valid programs with every edit, deep nestings)",
"Tests try well-formed snippets; crashes and hangs hide in malformed and extreme ones.",
[T,S,E,B,F,PT,SB],[("error results on every branch","all parser files")],["termination, panics, process death"])
p("C10","Arithmetic operators group by precedence and associativity",
"For every expression built from operands, unary + - ~, and the binary operators ** * / // % @ + - << >> & ^ |, the tree groups operators exactly as Python does: precedence in that order, binary operators left-associative, ** right-associative and binding tighter than a unary operator on its left but looser than one on its right, and parentheses overriding. Each operator yields the node kind of that operator, with its operands in source order. An operator with a missing operand is rejected.",
["programs"],"every token sequence over operands, parentheses, await and all arithmetic and bitwise operators",
"Tests contain single-operator expressions and a few chains; mixed chains are combinatorial.",
[E,N],[("one method per precedence level",E)],treeobs)
p("C11","Boolean, comparison, conditional, lambda and := expressions group as in Python",
"Expressions built from or, and, not, the comparison operators (including 'not in' and 'is not' as single operators), 'x if c else y', lambda (all parameter forms: defaults, '/', '*', '**', bare '*', trailing comma) and := are grouped exactly as Python's grammar groups them, comparisons as a left-nested chain. Each operator yields its own node kind with operands in source order. Sequences that Python's grammar does not derive are rejected.",
["programs"],"every token sequence over names, these operators and keywords, and parentheses",
"Tests contain one sample per operator; precedence between them and parameter-list forms are combinatorial.",
[E,N],[("one method per level; parameter list method",E)],treeobs)
p("C12","Displays and comprehensions build the right container",
"Parenthesised forms, list, set and dict displays and generator, list, set and dict comprehensions (any number of for, async for and if clauses) yield the container node of their kind with all elements and separators in order, for any number of elements, with or without one trailing comma, with * and ** elements where Python allows them. '{}' is a dict, '()' and '[]' are empty containers. Mixed dict/set entries, doubled or leading commas and other forms Python's grammar rejects are rejected.",
["programs"],"every token sequence over brackets, names, ',', ':', '*', '**', ':=', for, async, in, if, yield",
"Tests cover one or two elements per display and no nested comprehension.",
[E,N],[("display, dict-or-set and comprehension methods",E)],treeobs)
p("C13","Calls, subscripts and attribute access chain left to right",
"An operand followed by any number of calls, subscripts and attribute accesses yields one node holding the operand and all of them in source order, with 'await' applying to the whole chain. Call arguments keep their kind (positional, keyword, :=, *, **, bare generator) and order, and subscripts keep every lower, upper and step part in its own place, for any number of arguments or subscripts and with an optional trailing comma. Argument and slice forms that Python's grammar rejects are rejected.",
["programs"],"every token sequence over names, '(', ')', '[', ']', '.', ',', ':', '=', '*', '**', ':=', for/in/if, await",
"Tests cover single trailers; slices have eight shapes per item, arguments six kinds per item, chained without bound.",
[E,N],[("trailer, argument list and subscript methods",E)],treeobs)
p("C14","Simple statements and statement lists",
"pass, break, continue, del, return, raise (with from), global, nonlocal, assert (with message), yield and expression statements yield their own node with every operand in its place; several on one line separated by ';' (with an optional final ';') yield one statement list in source order ended by the newline. Statements whose parts do not fit Python's grammar are rejected.",
["programs"],"every token sequence over these keywords, names, ',', ';', '*', from, and the newline",
"Tests cover each statement in one form; optional parts, lists and separators combine.",
[S,N],[("one method per statement",S)],treeobs)
p("C15","Assignments keep targets, operator, annotation and value apart",
"Plain, chained, annotated and all thirteen augmented assignments yield the node of their kind with the target, each operator token and each value in source order, where values may be expression lists or yield expressions, and a type comment may end a plain assignment. An augmented operator never chains and forms that Python's grammar rejects are rejected.",
["programs"],"every token sequence over names, commas, '*', the assignment operators, ':', yield and type comments",
"Tests cover each operator once; chains, lists, annotations and yields combine.",
[S,E,N],[("expression statement method",S)],treeobs)
p("C16","Imports keep every dotted part, alias and relative level",
"Every import and from-import yields a node holding all modules, dotted parts, aliases, leading dots (single dots and '...' alike, in source order), '*' or names, and parentheses, for any number of each; a trailing comma is allowed only inside the parentheses. Imports that Python's grammar rejects, such as 'from import a', a trailing comma without parentheses or a missing alias, are rejected.",
["programs"],"every token sequence over import, from, as, names, '.', '...', ',', '*', '(' and ')'",
"The tests do not parse import statements.",
[S,N],[("import methods",S)],treeobs)
p("C17","if, while, for, with and async attach clauses and suites correctly",
"if/elif/else, while/else, for/else, with (plain or with one parenthesised item list, each item with an optional target) and async for/with yield nodes whose conditions, targets, items, suites and clauses are those written, each else and elif belonging to the nearest preceding statement of the same indentation that can take it. A suite is one line of simple statements or an indented block, and the block holds exactly the statements indented under it. Misplaced, duplicated or missing clauses and suites are rejected.",
["programs"],"every sequence of header, clause and simple lines at every indentation, plus every token sequence for the headers",
"The tests do not parse compound statements over several lines; nesting and clause order are combinatorial.",
[S,T,N],[("compound statement and suite methods",S)],treeobs)
p("C18","try statements keep their clauses and never mix except with except*",
"A try statement has either a finally clause alone, or one or more except clauses followed by optional else and finally, in that order, each with its exception, alias, star and suite in place. Within one try statement all except clauses are starred or none is, and this is decided for each try statement on its own, whatever try statements are nested in or surround it. Anything else is rejected.",
["programs","histories"],"every sequence of try/except/except*/else/finally lines at every indentation, including nested try statements in every clause",
"The tests have no try statement; the property depends on parser state carried across nested statements.",
[S,PA,N],[("except kind remembered per try statement",S+" parse_statements_try_stmt")],treeobs,[("except_status","kind of except clauses seen in the current try statement",PA)])
p("C19","Functions, classes, decorators and async def keep their parts",
"Function definitions (with parameters, optional return annotation and type comment), class definitions (with optional bases and keyword arguments), and definitions preceded by any number of decorators (a dotted name with an optional call, one per line), including async def, yield nodes holding name, parts, decorators in source order and the body. Function bodies may be one line of simple statements or an indented block that may start with a type comment line. Malformed headers and decorators not followed by a definition are rejected.",
["programs"],"every token sequence for the headers and every sequence of decorator, header and body lines",
"The tests do not parse definitions with bodies or decorators.",
[B,S,N],[("definition and decorator methods",B)],treeobs)
p("C20","Each entry point accepts its own kind of input, whole",
"File input accepts any sequence of statements and blank lines up to end of file; eval input accepts exactly one expression list followed by newlines; single input accepts one newline, one simple statement line or one compound statement; function-type input accepts '(types) -> type' with star and double-star types as in Python, followed by newlines. File, eval and function-type input accept only if the whole source was consumed, and the tree holds the statements, newline tokens and end-of-file token in source order.",
["programs"],"every token sequence over a small alphabet, for each of the four entry points",
"Entry points are hardly tested.",
[B,F,N],[("entry point methods",B),("function type methods",F)],treeobs)
p("C21","A tree holds every token once, in order",
"Whenever a file, eval or function-type source is accepted, the tokens held by the tree (including newline, indent, dedent, type-comment and end-of-file tokens) are exactly the tokens of the source: each once, none missing, none invented, unchanged in text, offsets and trivia. Read by position they come in source order, each list field holds its elements in one consistent direction, and the fields of a node stand in source order (starred parts of parameter and type lists, which have fields of their own, stand apart).",
["programs"],"every accepted source",
"Tests look at selected fields of single trees; a dropped separator, keyword or trivia item goes unnoticed.",
[E,S,B,F,N],[("every consumed symbol is stored in the node built",E)],["tokens reachable from the returned tree compared with the token stream of the same source"])
p("C22","Node spans enclose their content and nest",
"Every node of a tree starts at the start of its first token, ends no earlier than the end of its last token and no later than the start of the next token of the source. Children therefore lie inside their parent and siblings do not overlap.",
["programs"],"every node of every accepted source",
"Tests check spans of some nodes of short expressions only.",
[E,S,B,F],[("start taken before the first token, end from the lookahead position",E)],["start and end stored in every node"])
p("C23","Ungrammatical sources are rejected",
"A source whose token sequence the grammar does not derive never yields a tree; the grammar is Python 3.9's LL(1) grammar extended by except* clauses and with statements whose item list is parenthesised, without match statements. In particular, deleting, inserting, replacing, doubling or swapping any one token of a valid program either yields another valid program, parsed as such, or an error.",
["programs"],"every single-token edit of valid programs covering every construct",
"Tests only feed valid code; rejections are almost untested.",
[E,S,B,F],[("error results on unexpected tokens",S)],treeobs)
p("C24","Layout does not change the tree",
"Changing only layout - the amount and kind of white space between tokens, comments, blank lines, line breaks inside brackets, backslash continuations, the width of an indentation step, a missing final line break - does not change the shape of the tree, its node kinds or the kinds and texts of its tokens (newline tokens may differ in their line-break characters).",
["programs"],"every layout variation at every position of programs covering every construct",
"Tests use one layout per construct.",
[T,E,S,B],[("trivia is collected before each token",T)],treeobs)
p("C25","Parsing a construct does not depend on its surroundings",
"The tree of a statement is the same, up to its offset, whatever statements precede or follow it and however deeply it is nested in blocks, and the tree of an expression is the same in every context that admits it. Parsing the same source again, in the same process, in any order with other sources and with other parsers half way through, gives the same result.",
["programs","histories"],"every ordered pair of statements, every statement in every suite, every expression in every expression context",
"Tests parse single constructs with fresh parsers.",
[PA,S,E,T],[("no state survives a statement",PA)],treeobs)
p("C26","The character cursor is exact",
"After any number of advances from a fresh source, the position equals the number of advances, the current character and the three-character lookahead are the source's characters at that position (counted in Unicode characters), and beyond the end they read as NUL. Reading never moves the cursor and the reported length is the number of characters.",
["histories"],"every source over one- to four-byte characters and every number of advances, past the end too",
"Tests cover one ASCII source and only position zero for the lookahead.",
[SB],[("index into a vector of characters",SB)],["current character, lookahead, position, length"])
p("C27","Type comments are tokens, other comments are trivia",
"A comment that starts with '# type:' is delivered as one type-comment token with its whole text up to the line break, wherever it stands; every other comment, however similar, is trivia. The grammar accepts a type comment after a plain assignment, after the colon of a for statement or function header and as first line of a function body, keeps it in the tree there, and rejects it elsewhere.",
["programs"],"every comment one edit away from the marker, and a type comment inserted at every position of programs covering every construct",
"Tests have one type comment.",
[T,S,B],[("comment scanner",T),("type comment fields",N)],lexobs+treeobs)
p("C28","A lexical error anywhere before the end is never swallowed",
"If reading the tokens of a source reports an error before end of file, file, eval and function-type input report an error too, wherever in the source the bad token stands and whatever construct surrounds it. A returned tree therefore always stands for a source that is lexically correct as a whole.",
["programs"],"every valid program of a set covering every construct, with an invalid token inserted at, or put in place of, every token position",
"No test feeds a lexical error to the parser.",
[PA,E,S,B,F],[("the pending symbol is a result that every method must check",PA)],treeobs,[("symbol","lookahead token or lexical error",PA)])
p("C29","An error names a place in the statement at fault",
"When file, eval, single or function-type input rejects a source that the grammar rejects, the error text names a position in it as its first number. That position is not before the start of the innermost statement of which something was read before the fault, and not after the start of the first token that cannot continue what was read (the end of the source if input ends too early). A lexical error is named where it stands, or earlier in the statement it interrupts.",
["programs"],"every one-token edit of programs covering every construct, every program with a bad token, every truncated program",
"No test reads the text of an error.",
[E,S,B,F,T],[("errors built from the lexer position or the start of the construct",E)],["first number in the error text"])
p("C30","The tree rebuilds the source",
"Whenever a file, eval or function-type source is accepted, writing out the tokens of the returned tree by position, each preceded by its trivia, gives the source back character by character, comments, blank lines and continuations included; only indentation at the start of a line carries no text of its own. Line breaks are LF or CR.",
["programs"],"every accepted source over layout, comment and multi-byte variations of programs covering every construct",
"Tests never compare trivia in trees with the source.",
[E,S,B,F,T],[("every consumed symbol, with its trivia, is stored in the node built",E)],["tokens and trivia reachable from the returned tree"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
