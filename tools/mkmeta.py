#!/usr/bin/env python3
"""Generates properties.jsonl, bounds.json and MANIFEST.json from the table below."""
import json, re, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ("The test suite contains some hundred hand written sources with the result that is expected of them; ")

def P(id, title, statement, over, text, why, files, mech, observe, state=None, quick='', thorough='', outside='', na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe, state=state or [], quick=quick, thorough=thorough, outside=outside, na=na)

PARSER, LEXER, EXPR, READER, LABEL, FACT = ('parser/parser.go', 'parser/lexer.go', 'parser/expression.go', 'parser/reader.go', 'parser/label.go', 'parser/factory.go')
TM = 'one of the 180 templates, which together contain every construct of the language in all modes'

props = [
P('C01', 'Parsing is total: exactly one of a tree or an error, never a crash or hang',
  'For every text and every combination of parser modes, parsing terminates and delivers either a complete tree or a non-empty error, never both, never neither. It does not crash, whatever the text is. The tree always has a textual notation, and it is a program unless a single expression was requested.',
  ['inputs', 'configurations'], 'every byte sequence given as source, in every combination of the five parser modes, as program or as single expression',
  T + 'a crash or an endless loop needs a combination of bytes at a position nobody has thought of.',
  [PARSER, LEXER], [('parser entry point and its recovery', PARSER), ('tokenizer', LEXER)], ['Parse result', 'panic'],
  quick='arbitrary bytes: all texts of up to 3 bytes in the default mode and up to 2 bytes in all mode combinations; ' + TM + ', cut, extended, or overwritten by an arbitrary byte at every position; each of ~75 expressions in each of ~95 places, legal or not',
  thorough='arbitrary bytes: up to 5 bytes (default mode) and 4 bytes (mode combinations); templates as in quick',
  outside='longer arbitrary texts; two or more arbitrary bytes at distance'),
P('C02', 'The whole source is consumed',
  'A parse that succeeds has accounted for the entire source: nothing before, between, or after the recognized constructs is skipped. A stray or illegal character, an unterminated tag, or bytes that are not text are errors wherever they are. A complete statement is part of the tree whatever text precedes or follows it.',
  ['inputs', 'configurations'], 'every text around a stray token, or around a complete statement, in every mode',
  T + 'that nothing is dropped is a statement about all texts and all positions.',
  [PARSER, LEXER], [('end of input check', PARSER), ('skipping of white space', LEXER), ('EPP text scanner', LEXER)], ['Parse result'],
  quick='arbitrary prefix of up to 3 bytes before a stray token or statement (2 in the other modes); arbitrary illegal character at every gap of ' + TM + '; arbitrary illegal byte at every position; each of 39 constructs in each of ~95 places',
  thorough='arbitrary prefix of up to 5 bytes (4 in the other modes, 4 for statements)',
  outside='longer prefixes'),
P('C03', 'A parse depends on its source and modes only',
  'The result of a parse is a function of the source, the file name, and the modes of the parser. A parser can be used any number of times, and earlier parses, failed or not, of other sources have no influence on later ones. Parsers do not influence each other.',
  ['inputs', 'histories'], 'every sequence of two parses with the same parser, and interleaved parses with several parsers',
  T + 'each test uses a fresh parser, so that state that survives a parse, in particular a failed one, is never observed.',
  [PARSER, LEXER], [('reset of the lexer state at the start of a parse', PARSER), ('restoring after backtracking', LEXER)], ['Parse result'],
  quick='arbitrary bytes (up to 3) followed by a probe source; ' + TM + ', cut anywhere, followed by a probe; every ordered pair probe/template; each of ~75 expressions in each of ~95 places, legal or not',
  thorough='arbitrary bytes up to 4', outside='more than two parses in sequence; concurrent use of one parser (not supported)'),
P('C04', 'String literals denote exactly the text they spell',
  'The value of a single quoted, double quoted, backtick, or regular expression literal is what its escape rules say, for every content; malformed and unterminated literals are errors. Variables and expressions in a double quoted string become parts of the string, in order, and the text between them is retained. The literal ends at its own delimiter, so that code after it is unaffected.',
  ['inputs', 'configurations'], 'every content of a literal, with and without support for backticks and hexadecimal escapes',
  T + 'a dozen of them have an escape. Escapes interact with their neighbours, with the delimiter, and with interpolation.',
  [LEXER], [('delimited string scanner', LEXER), ('escape handlers', LEXER), ('interpolation', LEXER)], ['value of string nodes', 'segments of interpolated strings', 'errors'],
  quick='arbitrary ASCII content of up to 6 bytes (5 for double quoted, 3 next to multi-byte characters); all 2 to 3 byte UTF-8 sequences; escapes of up to 7 digits; chains of up to 3 accesses in braces',
  thorough='content of up to 8 bytes (6 for double quoted, 4 next to multi-byte characters), 4 byte UTF-8 sequences, chains of 5',
  outside='longer contents; expressions in braces beyond accesses, calls, and strings'),
P('C05', 'Numbers denote exactly the value they spell',
  'An integer or float literal has the value, the sign, and the radix that it spells; a number that is malformed or cannot be represented is an error and never a different number. A minus sign directly before a number is part of it unless an operand precedes it.',
  ['inputs'], 'every text that starts as a number, every place where a sign may occur',
  T + 'about twenty numbers are among them. Overflow, signs, exponents and illegal digits need many combinations.',
  [LEXER, PARSER], [('number scanner', LEXER), ('conversion of digits', LEXER), ('sign of a literal', PARSER)], ['value and radix of number nodes', 'errors'],
  quick='texts of up to 4 characters of digits, letters, signs and points; floats with up to 2 digits in each part; the last 3 digits around the limits of the range in each radix',
  thorough='texts of up to 6 characters, floats with up to 3 digits in each part', outside='longer numbers, except around the limits; correctness of the float conversion of the standard library'),
P('C06', 'Heredocs denote exactly the text between declaration and end line',
  'The text of a heredoc starts at the line after its declaration and extends to the first line that is its end line; margin and final newline are removed only if that end line says so. Only declared escapes are effective, and variables are interpolated only if the tag is quoted. Code after the declaration, and after the end line, is unaffected, also with several heredocs on a line.',
  ['inputs'], 'every text, every form of the declaration and of the end line',
  T + 'heredocs are line oriented and interact with margins, escapes, and the code around them in ways that the thirty examples do not sample.',
  [LEXER], [('heredoc declaration and end search', LEXER), ('margin and escapes', LEXER), ('continuation after the end line', LEXER)], ['text, syntax of heredoc nodes', 'errors'],
  state=[('position where the next line continues', 'lines of the heredoc are skipped once the declaring line ends', LEXER)],
  quick='text of up to 5 arbitrary bytes; 5 characters of special alphabets for margins, escapes, variables; declarations of up to 5 characters; all end line forms with up to 2 blanks between parts; two heredocs on a line; a string, comment, or regular expression with 3 arbitrary characters beside one; tags of up to 3 characters of 1 to 3 bytes with parts of them in the text; 16 forms of code with a heredoc and 26 forms of what the next line begins with',
  thorough='up to 7 (text, margin, declaration), 6 (escapes), 4 (variables)', outside='a backslash that is followed by a backslash in a text with escapes follows the implementation; more than two heredocs on a line'),
P('C07', 'Templates render their text verbatim around their tags',
  'The text of an EPP template is rendered verbatim, except for what the trimming forms of a tag remove and for the literal forms of tags. Each tag contributes its code, rendered if and only if the tag says so; comments contribute nothing. Parameters are accepted at the start only, and are all retained.',
  ['inputs'], 'every text before, between, and after tags, each form of opening and closing a tag',
  T + 'a handful of them are templates. Trimming and literal tags depend on the characters next to them.',
  [LEXER, PARSER], [('template text scanner', LEXER), ('end of tag', LEXER), ('template parser', PARSER)], ['statements of the template', 'parameters', 'errors'],
  quick='6 bytes of text without tags; 3 bytes before and after a tag; 4 bytes between two tags; comments of 3 bytes; up to 3 parameters; 3 bytes of text between each of 14 statements and 27 ways to continue',
  thorough='8 bytes without tags; 4 before and after; 5 between; comments of 4 bytes', outside='a percent sign repeated three times; an empty rendering tag; a tag opener within a tag'),
P('C08', 'Operators group by precedence and associativity',
  'An expression groups as the precedence and associativity of its operators say, with prefix operators, access, and calls binding tighter, and selectors binding between assignment and the logical operators. Parentheses override it. The grouping is the same wherever the expression is.',
  ['programs'], 'every sequence of operators, prefix operators and parentheses, in every context',
  T + 'a precedence table with 13 levels and 26 operators has thousands of pairs and triples; the tests have a dozen.',
  [PARSER], [('one function per level of precedence', PARSER), ('operator tokens', LEXER)], ['tree'],
  quick='all sequences of 3 binary operators; 1 operator with prefix operators, accesses and calls; all parenthesized parts of 2 operators; selectors after 2 operators; 2 operators in 8 contexts and with all white space between',
  thorough='4 binary operators; 2 prefix operators on each operand', outside='longer sequences'),
P('C09', 'White space and comments between tokens are insignificant',
  'Inserting white space or a comment between two tokens does not change the tree, and the text of a comment never has an effect. The exceptions are the places where the language makes white space significant (before an opening bracket or parenthesis, within names and literals).',
  ['programs', 'inputs'], 'every place between tokens in every construct, every layout',
  T + 'none compares a program with itself in another layout.',
  [LEXER], [('skipping of white space and comments', LEXER), ('start of line detection', LEXER)], ['tree'],
  quick='arbitrary white space character or comment of 1 byte at every gap of ' + TM + '; comments of up to 3 arbitrary bytes in 4 programs; each of ~75 expressions in each of ~95 places, legal or not',
  thorough='also layouts with up to 4 characters; comments of up to 5 bytes', outside='gaps where the language makes white space significant (the gaps used are listed with each template)'),
P('C10', 'Nodes know where they are in the source',
  'Every node of a tree lies within the source, its line and position are those of its offset, and its text is the source at that place. A node does not start before the node that contains it, and nodes for names, variables, literals and regular expressions start exactly at their text. Text inserted before a node moves it by exactly its length, and other nodes not at all.',
  ['programs', 'inputs'], 'every node of every construct, with arbitrary layout between its tokens; arbitrary sources',
  T + 'positions are checked for a few errors only.',
  [PARSER, LEXER, EXPR], [('positions handed to the node factory', PARSER), ('node positions', EXPR), ('heredoc and interpolation positions', LEXER)], ['offset, length, line, position, text of nodes'],
  quick=TM + ' with arbitrary white space or a comment of 1 byte at every gap; arbitrary sources of up to 3 bytes; each of ~75 expressions in each of ~95 places, legal or not',
  thorough='layouts of up to 4 characters; sources of up to 4 bytes', outside='the end of a node (many include white space that follows); nodes generated for workflow steps'),
P('C11', 'Errors are reported where the defect is',
  'A parse error carries the name of the file and a line and position within the source, and they are the place of the defect. A correct text inserted before the defect moves the reported place by exactly its length and changes nothing else.',
  ['inputs', 'programs'], 'every source that is in error',
  T + 'the location is checked for some fifty errors, most of them on line 1.',
  [LEXER, PARSER], [('creation of issues', LEXER), ('error locations in the parser', PARSER)], ['location and text of the error'],
  quick='arbitrary sources of up to 3 bytes; ' + TM + ', cut everywhere, or with an illegal character at every gap; arbitrary comments and lines before a defect; nine things that are not terminated with up to 4 arbitrary ASCII characters in them; ~200 kinds of defects with their exact places, in values, statements, tags of templates and strings, alone and in hosts; each of ~75 expressions in each of ~95 places, legal or not',
  thorough='sources of up to 4 bytes', outside='which of several defects is reported'),
P('C12', 'Line and position of an offset are exact',
  'For every text and every offset, the line is the number of newlines before the offset plus one, and the position is the number of characters since the last newline plus one. Positions increase with the offset and agree with what the nodes of a tree report.',
  ['inputs'], 'every text, including multi-byte characters and empty lines, and every offset from the start to the end',
  T + 'none of them looks at an offset after a multi-byte character or at the end of a text.',
  [LEXER], [('index of lines', LEXER)], ['line and position'],
  quick='texts of up to 6 arbitrary bytes and every offset; two questions in any order about texts of up to 4 bytes; long texts with many lines', thorough='up to 8 bytes', outside='concurrent use of one locator'),
P('C13', 'The notation of a tree is unambiguous',
  'The text of a notation is well formed and can be read back to the same structure; the data form says the same as the text. Strings are quoted such that every text can be recovered, floats never look like integers, and only legal names are used as keys.',
  ['inputs', 'programs'], 'every notation that can be built, every string, every tree',
  T + 'the notation is what they compare with, not what they examine.',
  ['pn/pn.go', 'pn/quote.go', EXPR], [('formatting', 'pn/pn.go'), ('quoting', 'pn/quote.go'), ('notation of each node', EXPR)], ['text and data of a notation'],
  quick='arbitrary notations of depth 1 with up to 2 elements, strings of 1 byte; nestings of depth 3; strings of up to 3 bytes; keys of up to 3 bytes; 3528 floats; ' + TM + '; each of ~75 expressions in each of ~95 places, legal or not',
  thorough='depth 2, strings of 2 bytes; strings of up to 5 bytes; keys of 4', outside='control characters beyond ASCII; deeper nesting with arbitrary content'),
P('C14', 'Traversal visits every node exactly once, with its path',
  'A traversal of all contents visits every node of the tree exactly once, parents before children, and hands out the path from the start to the parent. The traversal of direct contents visits exactly the children, in the order of the source (except that the parent of a node definition comes first, and the return type of a lambda may come last). Nothing that the notation shows is missing.',
  ['programs'], 'every tree, and a start at every node',
  T + 'traversal is used by the validator in few of them, and a child that is never visited goes unnoticed.',
  [EXPR], [('traversal functions of each node', EXPR)], ['visited nodes and paths'],
  quick=TM + '; each node that the factory creates from any parts (lists of up to 2); arbitrary sources of up to 3 bytes; nestings of constructs in constructs; each of ~75 expressions in each of ~95 places, legal or not', thorough='sources of up to 4 bytes; deeper nestings', outside='retaining a path after the visit'),
P('C15', 'Definitions of a program are all recorded',
  'The definitions that a program reports are exactly the classes, defined types, functions, nodes, plans, steps, types, and mappings of its source, each once, in the order in which they end, no matter how deeply they are nested and in which mode it is parsed.',
  ['programs'], 'every program, with definitions in every place',
  T + 'definitions are not compared in any of them.',
  [PARSER, LEXER, EXPR], [('recording of definitions', PARSER), ('state to return to after a lookahead', LEXER)], ['definitions of a program'],
  quick=TM + '; arbitrary sources of up to 3 bytes; definitions nested in definitions and other constructs; each of ~75 expressions in each of ~95 places, legal or not', thorough='sources of up to 4 bytes', outside='deeper nestings'),
P('C16', 'Severity of an issue follows from its kind and the strictness',
  'An issue that the validator reports is an error unless its kind is a deprecation or depends on the strictness, in which case it has the severity of the strictness, and it is not reported when that is to ignore. The same problem is reported whatever surrounds it. Strictness has no influence on which other problems are found.',
  ['programs', 'configurations'], 'every program with problems, at every level of strictness',
  T + 'most are run with one strictness.',
  ['validator/validator.go', 'validator/checker.go'], [('severity of issues', 'validator/validator.go'), ('demotion', 'validator/checker.go')], ['issues and severities'],
  quick='each of about 110 problems and '+TM+', at each strictness; pairs of problems; arbitrary sources of up to 3 bytes; severities by demotion; each of ~75 expressions in each of ~95 places, legal or not', thorough='arbitrary sources of up to 4 bytes', outside='more than two problems in combination'),
P('C17', 'Duplicates are always found and nothing else is reported as one',
  'Equal literal keys of a hash, equally named parameters of a class, defined type, function or template, and repeated defaults of a case or a selector are reported, wherever they are, each time they are repeated (keys unless the strictness is off). Distinct ones are not reported.',
  ['inputs', 'programs'], 'every pair of keys or names, every position',
  T + 'only a few pairs are tried.',
  ['validator/checker.go', 'literal/literal.go'], [('duplicate checks', 'validator/checker.go'), ('literal values', 'literal/literal.go')], ['issues'],
  quick='two keys of 18 kinds with an arbitrary character or digit in each, three keys of 11 kinds, two keys in 37 places; 2 to 3 parameters with arbitrary last characters; up to 4 options of a case or a selector', thorough='four keys', outside='keys that are equal but spelled with different radix within a list or a hash used as a key; lambdas, plans and steps, whose parameters are not checked for duplicates'),
P('C18', 'Rules of the validator hold in every place',
  'A construct that is illegal in a place (an assignment to something that is no variable, a definition nested in a function, a statement without effect that is not last, a reserved name, an operation on catalogs in a task, a step outside of a workflow) is reported wherever it is, and the same construct in a legal place is not.',
  ['programs', 'configurations'], 'each rule in every kind of surrounding construct, for each dialect',
  T + 'each rule is tried in one or two places.',
  ['validator/checker.go', 'validator/tasks_checker.go', 'validator/workflow_checker.go', 'validator/validator.go'], [('rules', 'validator/checker.go'), ('rules for tasks', 'validator/tasks_checker.go'), ('rules for workflows', 'validator/workflow_checker.go'), ('dispatch over the tree', 'validator/validator.go')], ['issues'],
  quick='each of about 110 problem constructs in each of about 60 places; names of definitions, types, parameters, and hosts of up to 4 arbitrary characters; queries of depth 2; blocks of up to 3 statements nested two deep; all catalog operations in tasks and steps in all dialects; assignments nested up to twice in about 45 forms of values within the default of a parameter of each kind; mappings of types (12 by 15 forms) and of capabilities (20 forms)', thorough='names of up to 5 characters, blocks of 3 levels', outside='the right hand side of an assignment and the contents of plans and type definitions, to which the value rules are not applied'),
P('C19', 'Literal expressions convert to exactly their value',
  'An expression that consists of literals only converts to the value it denotes, and every other expression is refused. Conversion does not crash.',
  ['inputs', 'programs'], 'every expression',
  T + 'conversion is only tested through the validator.',
  ['literal/literal.go'], [('conversion', 'literal/literal.go')], ['converted value', 'refusal'],
  quick='literals of 19 kinds with an arbitrary character, nested two deep in lists and hashes; strings with arbitrary content of up to 2 bytes; heredocs of up to 2 arbitrary characters; hashes with up to 3 keys that are equal in different forms; 53 other constructs, nested two deep; every node of '+TM+' and of arbitrary sources of up to 3 bytes; each of ~75 expressions in each of ~95 places, legal or not', thorough='strings of up to 4 bytes, heredocs of up to 3, sources of up to 4', outside='whole programs; nodes for the text of a template'),
P('C20', 'Exit status and output of the command agree with the findings',
  'The command exits with 0 if the source was read and parsed and the validator found no problem of error severity, with 1 if it did not parse or such a problem was found, and never with 0 if it could not be run as told. With structured output it prints one well formed document that contains the tree, or the problems, or the failure.',
  ['inputs', 'configurations'], 'every source and every combination of options',
  T + 'none runs the command.',
  ['parse/parser.go', 'json/json.go'], [('main', 'parse/parser.go'), ('structured output', 'json/json.go')], ['exit status', 'standard output and error'],
  quick=TM+' and all combinations of options; about 110 problems with all combinations of options; sequences of up to three problems; arbitrary sources of up to 2 bytes, arbitrary strings of up to 2 bytes; wrong arguments', thorough='sources and strings of up to 3 bytes; all spellings of options and file names', outside='failures to write the output'),
P('C21', 'Names are what they look like',
  'A word is a name, a reference to a type, a variable, a reserved word, or a string according to its characters only, it denotes itself, and a malformed one is an error. Words that are reserved in some mode are ordinary names in the others. The same word means the same wherever it is.',
  ['inputs', 'configurations'], 'every word, every mode',
  T + 'words are sampled, and modes even more so.',
  [LEXER, PARSER], [('names', LEXER), ('reserved words', LEXER)], ['nodes for names', 'errors'],
  quick='words and variables of up to 6 arbitrary characters; every reserved word extended on either side, in 39 places and all modes', thorough='8 characters', outside='words with characters other than letters, digits, underscore, colon, dash; a dollar sign alone; reserved words after a dot, an operator or in braces'),
P('C22', 'Validation is pure and repeatable',
  'Validating a tree does not change it, reports the same each time, and does not depend on what was validated before. It terminates and does not crash for every tree that the parser delivers.',
  ['programs', 'histories'], 'every tree, every sequence of validations',
  T + 'each test validates once.',
  ['validator/validator.go', 'validator/checker.go'], [('validator', 'validator/validator.go')], ['issues', 'tree before and after', 'panic'],
  quick=TM+' and about 110 problems in 4 places, with each of 5 validators and in three histories; arbitrary sources of up to 3 bytes; each of ~75 expressions in each of ~95 places, legal or not', thorough='sources of up to 4 bytes', outside='concurrent use of one validator; a source that is not text, which makes the combined parser and validator panic'),
P('C23', 'Nested definitions have their full name',
  'The name of a class, of a capability mapping, or of a step is qualified with the names of all classes, plans and workflows around it, from the outside to the inside, and with nothing else. Names of other definitions are as written. Names after and beside a nested definition are unaffected, also when an earlier parse failed within one.',
  ['programs', 'histories'], 'every nesting of definitions',
  T + 'nesting is tried one level deep.',
  [PARSER, LEXER], [('stack of names', PARSER)], ['names of definitions'],
  state=[('stack of the names of the surrounding definitions', 'prefix of the next definition', PARSER)],
  quick='each of 30 kinds of definitions and constructs, also with names that begin with ::, within each other within up to two classes; steps nested three deep; names of up to 3 arbitrary characters; parses that fail at any character of a definition', thorough='one more level; names of up to 4 characters', outside='deeper nestings'),
P('C24', 'The character reader delivers exactly the text',
  'Reading a text character by character delivers its characters in order, with their positions and sizes, without skipping or repeating any, until its end; looking ahead has no effect on the position. Bytes that are not text are refused at their position.',
  ['inputs', 'histories'], 'every text and every sequence of reads, looks ahead and moves',
  T + 'the reader is not tested by itself.',
  [READER], [('reader', READER)], ['characters, positions'],
  quick='texts of up to 5 arbitrary bytes; 3 arbitrary operations on texts of up to 3 bytes', thorough='7 bytes; 4 operations on 4 bytes', outside='longer texts and histories'),
P('C25', 'Every construct yields the tree it spells',
  'Each construct of the language yields the tree that corresponds to it, with all its parts in order, whatever the names and numbers in it are.',
  ['programs'], 'every construct of every mode, with arbitrary names and digits',
  T + 'they check shapes with fixed names only, and words and names interact.',
  [PARSER, EXPR], [('parser', PARSER), ('notation of nodes', EXPR)], ['tree'],
  quick=TM + ', with arbitrary characters in its names and digits in its numbers; each template in 23 places, each value of a template in 33 places, with 2 bytes of arbitrary text before it if the place is in a template or a string; 22 forms of code with a name that is that of a statement function with up to one character exchanged or added; values of the state of a resource nested 3 deep; 52 kinds of keys of the hash of a statement function', thorough='as quick', outside='names are varied in their last character'),
P('C26', 'The lexer delivers the tokens of a text',
  'Reading the tokens of a text delivers exactly the tokens that it spells, from the first to the last, and then the end of the text again and again. Operators are as long as possible, words are keywords only if they are whole keywords, and a slash starts a regular expression unless an operand precedes it. A text that is malformed is an error at that place, and an unexpected token is reported by its name and place.',
  ['inputs'], 'every text that is read with the lexer alone',
  T + 'the lexer alone is the subject of five of them. Which token starts where depends on what is around it.',
  [LEXER, PARSER], [('scanner', LEXER), ('names of tokens', LEXER), ('lexer as an interface', PARSER)], ['tokens and errors of NextToken, CurrentToken, AssertToken, SyntaxError, SetPos, IsKeywordToken'],
  quick='arbitrary texts of up to 2 ASCII characters, of up to 3 characters of operators, and of up to 3 characters of words, numbers, strings, and comments; one or two arbitrary bytes that are no ASCII characters after one of 8 prefixes; an arbitrary byte at each position of 4 texts that together contain every kind of token; ' + TM + '; each token in place of each other; each template with another lexer in between',
  thorough='4 characters; an arbitrary byte at each position of each template', outside='tokens after a heredoc'),
P('C27', 'Messages name what is at fault',
  'A message of the parser names the token that is at the place that it reports, and what is said to be expected there is accepted there. A message of the validator names the kind of the construct at fault, the kind of the construct that contains it, and the names, operators, words and keys in it, each as it is in the source. No part of a message is missing, and no message names internals.',
  ['inputs', 'configurations'], 'every source that is rejected or has an issue, in every mode',
  T + 'few of them look at the text of a message. What it has to say depends on the construct, on its place, and on its names.',
  [LABEL, 'validator/issues.go', 'validator/checker.go', 'parser/issues.go', PARSER], [('labels of nodes', LABEL), ('formats of messages', 'validator/issues.go'), ('arguments of issues', 'validator/checker.go')], ['text and arguments of errors and issues'],
  quick=TM + ', with one of 9 tokens inserted or replacing at every gap, or cut there; the sources of C16 and C18 (rules in all their places, with arbitrary names); 41 kinds of expressions in 13 places; 14 names in 18 definitions; the words that the messages of ~200 kinds of defects have to contain; each of ~75 expressions in each of ~95 places, legal or not', thorough='90 tokens', outside='wording of messages; message of a type mapping that is not legal (it names the mapping as a whole)'),
P('C28', 'The parts of a node agree with its notation and with each other',
  'The accessors of a node deliver exactly the parts that its notation shows, and a node that the factory creates from these parts has the same notation, label and range. A node has the kind (definition, literal, unary, binary, call, query, resource) of its construct, and its values, names and numbers in different forms denote the same. Looking up an entry of a hash delivers the value of the first entry with that key, and a copy with another name or functor differs in nothing else and leaves the original as it is.',
  ['programs', 'inputs'], 'every node of every tree',
  T + 'they compare notations and do not use the accessors or the factory, which are what users of the tree work with.',
  [EXPR, 'parser/factory.go', LABEL], [('accessors and notation of nodes', EXPR), ('creation of nodes', 'parser/factory.go')], ['accessors, factory, Get, WithName, WithFunctor'],
  quick=TM + ', with arbitrary names and numbers; arbitrary sources of up to 2 bytes; constructs nested twice; hashes of two entries with arbitrary keys in four forms; names of up to 4 characters; arbitrary integers; each node that the factory creates from any parts (lists of up to 2); each of ~75 expressions in each of ~95 places, legal or not', thorough='sources of up to 3 bytes; constructs nested three times; three entries; names of 6 characters', outside='factories other than the default one'),
]

# harnesses on sources generated by harness/h/gram.go: deviations from the plain form in quick and thorough runs
GR = {'C01': (1, 2, 'cut at, or with a token removed or repeated at, every gap; each template with one of 90 tokens inserted or replacing at every gap; two of ~70 constructs in turns nested 40 (80) times in each other'),
      'C02': (1, 2, 'with one of 39 constructs inserted at every gap (likewise for each template)'),
      'C03': (1, 2, 'before and after a probe; each template followed by each other with the tree of the first one kept; 25 words in 15 places in each mode, before and after parsers of all other modes were used; the parser for specifications agrees with the two options it stands for'),
      'C09': (2, 3, 'with the same layout in all gaps, and with arbitrary layout in one gap for one deviation less; with layout in each gap of each template in 23 places and of each value in 33 places'),
      'C10': (2, 3, 'also after comments with characters of several bytes; chains of accesses and calls inside strings and heredocs; each template in 23 places and each value of a template in 33 places, templates and strings with arbitrary text among them; lists of up to 2 (3) elements of all kinds'),
      'C11': (1, 2, 'with an illegal character at every gap, also after comments with characters of several bytes; chains of accesses and calls inside strings and heredocs; each template in 23 places and each value of a template in 33 places, templates and strings with arbitrary text among them'),
      'C13': (2, 3, ''), 'C14': (2, 3, 'lists of up to 2 (3) elements of all kinds'), 'C15': (2, 3, 'with the definitions in the order in which they end; each template in 23 places'),
      'C16': (2, 3, 'at each strictness; each template in 21 places'), 'C19': (2, 3, 'every node'), 'C22': (1, 2, 'with each validator; each node of each template, validated by itself after others; two of ~70 constructs in turns nested 40 (80) times in each other'),
      'C26': (1, 2, ''), 'C27': (2, 3, ''), 'C28': (2, 3, 'every node; lists of up to 2 (3) elements of all kinds'),
      'C25': (3, 4, 'and all combinations of 3 (4) options of a single statement of each kind; lists of up to 4 entries, parameters, operations, node names, selector cases, or accesses and calls, of all kinds and in all kinds of hosts')}
for p in props:
    if p['id'] in GR:
        q, t, x = GR[p['id']]
        if x:
            x = ', ' + x
        p['quick'] += '; sources generated from a grammar with up to %d deviations from the plain form%s' % (q, x)
        p['thorough'] += '; up to %d deviations' % t

WHY_NOT = {}  # id -> reason, for properties that no harness decides

def write(name, text):
    with open(os.path.join(V, name), 'w') as f:
        f.write(text)

def harnesses(id):
    p = os.path.join(V, 'harness/h/%s.go' % id.lower())
    return re.findall(r'^func (C\d\d_\w+)\(', open(p).read(), re.M) if os.path.exists(p) else []

lines, bounds, checks, na = [], {}, [], []
for p in props:
    assert len(p['title']) <= 80, p['id']
    assert len(re.findall(r'\.(?: |$)', p['statement'])) <= 3, p['id']
    lines.append(json.dumps(dict(
        id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
        anchors=dict(files=p['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                     mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))))
    for f in p['files']:
        assert os.path.exists('/repo/' + f), f
    if p['na'] or not harnesses(p['id']):
        na.append(dict(property=p['id'], reason=p['na'] or WHY_NOT.get(p['id'], 'no harness has been built for it yet')))
        continue
    assert p['quick'] and p['thorough'], p['id']
    bounds[p['id']] = dict(quick=p['quick'], thorough=p['thorough'], outside=p['outside'])
    checks.append(dict(
        property=p['id'], quick_cmd='./run.sh %s quick' % p['id'], thorough_cmd='./run.sh %s thorough' % p['id'],
        technique='symbolic execution of the SSA form of the Go code, every path condition and assertion decided by an SMT solver (z3, bit-vectors)',
        level='model_checking',
        level_note='For every input within the bounds no assertion fails. Bounds (quick): %s. Outside: %s. '
                   'Trusted: the engine\'s semantics of Go SSA and its models of some standard library functions, the oracle in the harness, z3. '
                   'A violation is reported only after the counterexample has been replayed against the native build.' % (p['quick'], p['outside'])))
write('properties.jsonl', '\n'.join(lines) + '\n')
write('bounds.json', json.dumps(bounds, indent=1) + '\n')
write('MANIFEST.json', json.dumps(dict(
    version=1, setup_cmd='./build.sh', checks=checks, not_applicable=na,
    notes='No hooks: the checks load /repo\'s packages as they are and use their public API only. See DESIGN.md.'), indent=1) + '\n')
