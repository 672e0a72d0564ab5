import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
G='askama_derive/src/generator.rs'; I='askama_derive/src/input.rs'; H='askama_derive/src/heritage.rs'; C='askama_derive/src/config.rs'
PL='askama_parser/src/lib.rs'; PN='askama_parser/src/node.rs'; PE='askama_parser/src/expr.rs'; PT='askama_parser/src/target.rs'
F='askama/src/filters/mod.rs'; E='askama_escape/src/lib.rs'; L='askama/src/lib.rs'
p('C01','HTML escaping is exact, lossless and independent of how output is chunked',
 'The HTML escaper replaces exactly the five characters & < > " \' by their character references and copies every other character verbatim, so that decoding the references gives back the input and no bare special character is left; the Text escaper copies its input verbatim. The result is the same whether a value is written in one piece or in arbitrarily many chunks, whether it is escaped with the function, the Display adapter, the writer or MarkupDisplay, and MarkupDisplay never escapes a value marked safe and always escapes one that is not.',
 ['inputs'],'every Unicode string, every way to split it into write_str/write_char/write! calls, every value type',
 'Unit tests compare a dozen short literals; they never vary position, length, byte neighbourhood or chunking of specials.',
 [E,L],[('escape','askama_escape/src/lib.rs: Escaped, EscapeWriter, Html::write_escaped, Text'),('MarkupDisplay','askama_escape/src/lib.rs: MarkupDisplay')],['askama_escape::escape()','Display of MarkupDisplay','EscapeWriter output'])
p('C02','Every dynamic value in a template is escaped exactly once unless marked safe',
 'In a template whose escaper is HTML, the output of every {{ expression }} is the HTML-escaped form of its Display output, escaped exactly once, wherever it stands (top level, loops, conditionals, match arms, blocks, macros, includes, parents), however it was produced (field, literal, call, let variable, loop variable, filter result), and however often it occurs. Only values explicitly marked safe or escaped explicitly (safe, e, escape filters) are exempt from a second escaping; with the Text escaper nothing is escaped.',
 ['inputs','programs'],'every template composed of the supported constructs, every value of every context field',
 'Existing tests check a handful of fixed templates with one or two values; the combination of position, provenance, repetition (expression caching) and filters is not sampled.',
 [G,F,E],[('escaping of expressions',G+': named_expression/visit_filter/write_expr'),('escape filters',F+': escape/safe')],['Template::render() output'])
p('C03','The extension or the escape attribute selects escaper, EXTENSION and MIME',
 'For every template the escaper is the one given by the escape attribute, else the one configured for its extension, else the documented default for that extension; .jinja, .jinja2 and .j2 files take the inner extension. A template whose extension or escape mode has no escaper is rejected at compile time, and Template::EXTENSION and MIME_TYPE agree with the file name.',
 ['inputs','configurations'],'every path/ext/escape/config combination',
 'Tests pin five or six fixed extensions with one config file.',
 [I,C,L],[('TemplateInput::new escaper lookup',I),('Config escapers',C),('extension_to_mime_type',I)],['rendered output','T::EXTENSION','T::MIME_TYPE'])
p('C04','Text outside of tags is emitted verbatim',
 'Every character of template text outside of tags appears in the output unchanged and in order, whatever it contains (braces, quotes, backslashes, format specifiers, NUL, non-ASCII text, delimiter look-alikes), and so does everything in raw blocks; comments, including nested ones, emit nothing. This holds for inline source and files and under every configured delimiter set; only a single newline at the very end of a template file is dropped.',
 ['inputs','configurations'],'every literal text, raw block content, comment and delimiter configuration',
 'Tests contain a few short literals; text that is re-quoted into Rust source and into format strings needs arbitrary characters in arbitrary positions.',
 [PN,PL,G,I],[('Lit::parse / Raw / Comment',PN),('Writable::Lit to write! escaping',G+': write_buf_writable'),('trailing newline',I+': get_template_source')],['Template::render() output'])
p('C05','Whitespace control trims exactly the controlled whitespace',
 'Whitespace adjacent to a tag is preserved, removed or collapsed (to one newline if it contains one, else to one space) exactly as the control character on that side of that tag says, and where there is none as the derive attribute, else the configuration, else the default (preserve) says. If whitespace is all there is between two tags then both adjacent controls apply, suppress before minimize before preserve; no non-whitespace character is ever removed (whitespace is the space, the tab, CR and LF) and controls have no other effect.',
 ['inputs','programs','configurations'],'every nesting of tags, every combination of controls on each of them, every whitespace run, every default',
 'ws.rs is generated for three block shapes with - and none; interactions of all tag kinds with + and ~ and with defaults are not covered.',
 [G,PN,I,C],[('flush_ws/prepare_ws/handle_ws/visit_lit',G),('Ws parsing',PN),('config precedence',I)],['Template::render() output'])
p('C06','Template expressions evaluate like the equivalent Rust expressions',
 'An expression built from literals, fields, variables, indexing, calls, unary and binary operators, ranges and parentheses yields the value that the same Rust expression over the same fields yields, with Rust precedence, associativity and short-circuiting. Filters bind tighter than binary operators and looser than unary ones, and a pipe after a space is the bit-or operator. (An index expression yields a reference to the element, so it can be used wherever Rust accepts one.)',
 ['inputs','programs'],'every well-typed expression tree over typed fields, every spelling (spaces, parentheses), every field value',
 'Operator tests cover each operator once or twice with fixed operands; precedence pairs, mixed trees and group/attr/index/call chains are unsampled.',
 [PE,G],[('expr_prec_layer! parsers',PE),('visit_expr and friends',G)],['Template::render() output'])
p('C07','Conditionals and matches render exactly the first branch that applies',
 'An if/else if/else chain renders exactly the body of the first branch whose condition holds (with if let, whose pattern matches), else the else branch, else nothing; match renders exactly the body of the first arm whose pattern matches the value, with the variables bound by the pattern having the matched values. This holds at any nesting.',
 ['inputs','programs'],'every chain of conditions/patterns, every scrutinee value, every nesting with other constructs',
 'Tests enumerate a few chains with constants.',
 [PN,PT,G],[('write_if/write_match',G),('Target::parse',PT)],['Template::render() output'])
p('C08','Loops visit every element once in order with correct loop variables',
 'A for loop renders its body once for each element that its iterable yields and its filter accepts, in order, with loop.index, index0, first, last and cycle according to the visited elements; break and continue act like in Rust on the innermost loop; the else branch is rendered exactly if no element was visited. This holds for slices, arrays, ranges, iterators and calls, with destructuring targets and any nesting of loops.',
 ['inputs','programs'],'every iterable kind and length, target pattern, filter, break/continue placement and nesting',
 'Tests use fixed vectors of two to four elements and few nestings.',
 [G,PN,L],[('write_loop',G),('TemplateLoop','askama/src/helpers.rs')],['Template::render() output'])
p('C09','Variables are scoped lexically',
 'Every occurrence of a name in a template refers to the innermost, most recent binding (let, assignment after declaration, loop target, pattern, macro parameter) in scope at that point, else to the field of the template. Bindings end with the construct that introduced them and never affect text or expressions before them, fields, or other templates.',
 ['programs','inputs'],'every sequence and nesting of bindings and uses over a small set of names that also name fields',
 'Tests cover a handful of shadowing examples; the interplay of buffering, shadowing and nested scopes needs generated programs.',
 [G],[('MapChain locals',G),('write_let',G)],['Template::render() output'])
p('C10','Inheritance substitutes each block by its most derived definition',
 'Rendering a child renders its root ancestor with every block replaced by the definition in the template nearest to the child, at every nesting level; super() renders the definition of the next ancestor that has one. Text of a child outside of blocks is not rendered, its macros and imports stay usable, and rendering the parent alone is unaffected by the child.',
 ['programs','inputs'],'every inheritance chain, block tree, super() usage and set of overridden blocks',
 'Tests have about ten fixed hierarchies, at most three levels.',
 [H,G,I],[('Heritage::new / Context',H),('write_block',G)],['Template::render() output'])
p('C11','A block fragment renders exactly its block',
 'A template derived with block = "name" renders exactly what that block contributes when it is rendered on its own with the same fields: the most derived definition with super() and nested blocks resolved as in the full template, and nothing outside of it; this holds too for a block that only an included template defines and writes, once, at its top level. Naming a block that does not exist is a compile error.',
 ['programs','inputs'],'every hierarchy and each of its blocks',
 'Tests have six fixed fragments.',
 [H,G,I],[('block attribute',I),('Generator::impl_template with block',G)],['Template::render() output'])
p('C12','Macro calls substitute arguments hygienically',
 'Calling a macro renders its body with every parameter bound to the value of the corresponding positional or named argument as evaluated in the scope of the caller, without names bound in the body capturing names in the arguments or leaking into the caller. Imported macros and macros of macros behave like local ones; text in a macro definition is rendered only by calls.',
 ['programs','inputs'],'every macro signature, permutation of named arguments, argument expressions, caller scopes, nested calls and imports',
 'Tests have a dozen fixed macros whose parameter and argument names rarely coincide.',
 [G,PN,H],[('write_call',G),('MapChain::declare',G),('Context imports/macros',H)],['Template::render() output'])
p('C13','Includes render the included template in place with the variables in scope',
 'An include renders the included file at that position exactly as if its text (with its own whitespace defaults and trailing newline rule) were written there, seeing the fields and local variables in scope; its own variables end with it. Nested includes are resolved relative to the including file or the template directories, to any depth, and unrelated code around the include is unaffected.',
 ['programs','inputs','configurations'],'every include graph (acyclic), positions of includes in loops, branches, blocks, macros, local variables visible',
 'Tests have five fixed includes, one nested.',
 [G,H,C],[('handle_include',G),('find_template',C)],['Template::render() output'])
p('C14','Filters are applied to exactly their input, left to right',
 'x|f(a)|g(b) is g(f(x, a), b) for built-in and custom filters, applied to exactly the preceding operand with the arguments in order; a filter block applies the filters to the complete rendered content of the block, nested constructs included, and text around it is not affected. Errors returned by a filter abort rendering with that error.',
 ['programs','inputs'],'every chain of filters, arguments, operand expressions, filter blocks with nested constructs',
 'Tests chain at most two or three filters in fixed spots.',
 [G,PE,PN],[('visit_filter/write_filter_block',G),('filter parsing',PE)],['Template::render() output','render() Err'])
p('C15','Built-in text and number filters compute their documented function',
 'abs, capitalize, center, filesizeformat, fmt/format, indent, join, linebreaks, linebreaksbr, lower/lowercase, paragraphbreaks, title, trim, truncate, upper/uppercase, wordcount and into_f64/into_isize compute what the documentation says for every input, without panicking and without splitting a character.',
 ['inputs'],'every string (multi-byte, empty, whitespace, newline runs), number, length and width',
 'Each filter has a few literal unit tests, mostly ASCII.',
 [F],[('filters module',F)],['return values of askama::filters::*'])
p('C16','urlencode percent-encodes exactly and reversibly',
 'urlencode and urlencode_strict output only ASCII letters, digits, the unreserved characters - . _ ~ (and / for urlencode) and %XX escapes; percent-decoding the output gives back the UTF-8 bytes of the input, and an allowed character is never escaped.',
 ['inputs'],'every string','Tests check about eight strings.',
 [F],[('urlencode sets',F)],['filters::urlencode','filters::urlencode_strict'])
p('C17','The json filter emits HTML-safe JSON that decodes to the value',
 'The json filter outputs valid JSON that decodes to the serialised value, pretty-printed, and that contains none of the characters < > & \' so that it is safe in HTML text and script elements. In an HTML template {{ x|json|safe }} renders exactly this text and {{ x|json }} its HTML-escaped form.',
 ['inputs'],'every serialisable value tree and string content',
 'Tests check one vector and one string.',
 ['askama/src/filters/json.rs',F],[('json filter','askama/src/filters/json.rs')],['filters::json','rendered output'])
p('C18','Expressions are evaluated once, in order and only where control flow reaches',
 'Each occurrence of a call or other effectful expression in a template is evaluated exactly once each time rendering reaches it, in source order with its output at its position, and never if its branch, arm, loop body, block or macro is not rendered. A scrutinee, loop iterable or macro argument is evaluated once per execution of its tag.',
 ['programs','histories'],'every template with calls in all expression positions; the observation is the history of calls during render()',
 'Existing tests observe output only, practically never evaluation counts.',
 [G],[('is_cacheable/named_expression',G),('write_match/write_loop/write_call',G)],['log of side effects','render() output'])
p('C19','All rendering entry points agree and errors are reported, not lost',
 'render, render_into, write_into, Display, to_string, DynTemplate methods and derived generics produce the same bytes for the same value. If the writer, a value\'s Display or a filter fails at any point, the call returns an error (never a panic, never Ok), everything written before is a prefix of the full output, and the error of the writer is what write_into returns.',
 ['inputs','fault_sequences'],'every template value, every writer failing or writing short after any number of bytes or calls',
 'Tests call render() almost only, and no writer ever fails in them.',
 [L,G,'askama/src/error.rs'],[('Template/DynTemplate default methods',L),('IoWriter',L)],['results of the entry points','bytes received by the writer'])
p('C20','The template parser accepts or rejects every input without crashing',
 'For every string and every valid delimiter configuration the parser terminates and returns either a tree or an error; it does not panic, overflow the stack through nesting, or take more than roughly linear time, and the same input always gives the same result.',
 ['inputs','configurations'],'every UTF-8 string (arbitrary bytes decoded lossily), mutations of valid templates, deep nestings',
 'Unit tests parse about a hundred hand-written snippets; the ui tests only errors someone thought of.',
 [PL,PN,PE,PT],[('Ast::from_str',PL),('nesting level guard',PL)],['Ast::from_str result'])
p('C21','Parsing recovers the written structure for every delimiter set',
 'Parsing the source text of a template tree gives back that tree: text, tags, whitespace controls, expressions with their precedence, targets and arguments, whatever optional whitespace or redundant syntax is used. The same template written with any other delimiter configuration gives the same tree, and splitting text into the parts before, in and after tags loses nothing.',
 ['inputs','configurations'],'every template tree of the grammar, every spelling of it, every valid delimiter set',
 'Parser tests compare about sixty fixed expressions and four custom syntaxes.',
 [PL,PN,PE,PT],[('Node/Expr/Target parsers',PN),('Syntax',PL)],['Ast::nodes()'])
p('C22','Parse errors point at a location inside the offending source',
 'If a template cannot be parsed then the reported row and column and the quoted remaining source belong to one position of the given source, this position is not before the first malformed tag and not changed by inserting valid text, lines or tags before it other than by exactly that shift.',
 ['inputs'],'every malformed template and every well-formed prefix',
 'The ui tests pin some thirty messages, mostly on the first line.',
 [PL],[('error position computation',PL+': Ast::from_str/ParseError')],['ParseError fields'])
p('C23','Invalid templates are rejected with a compile error',
 'A template that uses an undefined block, macro, import or include, that violates the structural rules (duplicate blocks, blocks or extends in wrong places, cyclic extends, wrong macro arguments, break outside of loops, else without if, unclosed or mismatched tags) or whose attributes are invalid is rejected by the derive macro with an error, without a panic or endless loop, and is never silently accepted. Removing the defect makes the same template compile.',
 ['programs','configurations'],'every kind of defect injected into every generated valid template and position',
 'About forty trybuild ui tests pin fixed snippets.',
 [G,H,I,PN],[('CompileError paths',G),('Heritage/Context::new',H),('TemplateInput::new',I)],['rustc diagnostics'])
p('C24','Template names are resolved in configured directories and with configured syntax',
 'A template path names the first existing file relative to the including/extending template, else in the configured directories in order; templates see the syntax named by the derive attribute, else the configured default syntax, and the configuration named by config. Options left out have their documented defaults, and everything the template includes, extends or imports is resolved by the same rules.',
 ['configurations','inputs'],'every directory layout with same-named files, configuration file and derive attributes',
 'Tests use one directory layout and four config files.',
 [C,I],[('Config::new / find_template',C)],['Template::render() output'])
p('C25','Every file a template depends on is tracked by the compiler',
 'Compiling a template registers every file that its output depends on (itself, parents, included and imported files at any depth, the configuration file) as a dependency, so that a change in any of them is picked up by the next build; files it does not use are not needed to compile it.',
 ['programs','configurations'],'every extends/include/import graph',
 'No test looks at dependencies.',
 [I,G,'askama_derive/src/lib.rs'],[('include_bytes! emission',G+': impl_template'),('find_used_templates',I)],['rustc --emit=dep-info'])
p('C26','Valid Rust names, generics and shadowed std items work in templates',
 'Every field, variable, macro, parameter, block or loop variable name that is a valid identifier (raw identifiers and Rust keywords included where the template language allows them), and every struct shape (generics, lifetimes, where clauses, const generics, enums, modules that shadow std items) yields code that compiles and renders the value the name stands for. Generated code never collides with user names.',
 ['programs','inputs'],'every choice of identifiers from keywords, generator-internal names and ordinary names at every naming position',
 'Tests cover one keyword list for fields and a few shadowing cases.',
 [G],[('normalize_identifier',G),('generics in impl_template',G)],['compilation','Template::render() output'])
p('C27','Web framework integrations answer with the rendered body or status 500',
 'With the actix-web, axum, rocket and warp integrations, returning a template responds with exactly the bytes of render(), status 200 and the MIME type of the template\'s extension; if rendering fails then the response is an error with status 500 and not a success or a panic.',
 ['inputs','fault_sequences'],'every template value, extension and rendering failure',
 'Each integration has one to three tests with fixed templates.',
 ['askama_actix/src/lib.rs','askama_axum/src/lib.rs','askama_rocket/src/lib.rs','askama_warp/src/lib.rs',G],[('IntoResponse/Responder/Reply impls','askama_*/src/lib.rs'),('impl_*_response',G)],['HTTP status, headers and body'])
p('C28','Compilation is deterministic and print shows the code that is compiled',
 'The same template type, template files and configuration always lead to the same generated code or the same reported error, in every process and every run of the compiler. The value of the print attribute changes nothing but what is printed: nothing for none (or without the attribute), the tree for ast, the generated code for code, the tree and then the code for all; the printed code put in the place of the derive renders the same.',
 ['programs','schedules'],'every set of template files, every hash seed of the compiler process',
 'No test compares two compilations, and none looks at what print prints.',
 ['askama_derive/src/lib.rs',G,I,H],[('build_template','askama_derive/src/lib.rs'),('find_used_templates',I),('impl_template',G)],['standard error of rustc','Template::render() output'])
p('C29','Features of the crate add exactly what they are for',
 'With every set of the features config, humansize, num-traits, urlencode and serde-json (or serde_json) askama builds, and templates that need none of the missing ones render the same as with all of them. With its feature a filter (and, with config, a configuration file) works whatever other features there are; without it, its use is an error when the template is compiled.',
 ['programs','configurations'],'every template and every set of features',
 'The tests are run with one set of features.',
 ['askama/src/filters/mod.rs','askama/src/error.rs','askama_derive/src/config.rs',G,'askama_derive/src/lib.rs'],[('cfg(feature = ...)','askama/src/filters/mod.rs'),('RawConfig::from_toml_str','askama_derive/src/config.rs'),('cfg!(feature = ...)',G)],['result of compilation','Template::render() output'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),max(len(x['title']) for x in P))
