use crate::Property;

pub mod c01;
mod c19;
mod codegen;
mod exprs;
mod features;
mod files;
mod filters;
mod flow;
mod formats;
mod forms;
mod names;
mod parser;
mod probes;
mod reject;
mod web;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29"];

pub fn get(id: &str) -> Option<Property> {
    let mut p = property(id)?;
    p.probes = probes::probes(id);
    Some(p)
}

fn property(id: &str) -> Option<Property> {
    Some(match id {
        "C01" => {
            let mut p = Property::new(
                "C01",
                "strings over all Unicode (biased to the five special characters, their neighbours and multi-byte characters), \
                 split into random chunks of write_str/write_char/write! calls; plus every Unicode scalar value. Non-trivial: \
                 contains a special character and, for chunked writes, more than one chunk",
            );
            p.runtime = c01::subs();
            p
        }
        "C15" => {
            let mut p = Property::new(
                "C15",
                "strings (all Unicode, whitespace and newline runs, multi-byte), given in chunks, with random lengths and widths; \
                 numbers of all integer types and floats. Non-trivial: the filter changes its input",
            );
            p.runtime = filters::c15();
            p.e2e = formats::e2e();
            p
        }
        "C16" => {
            let mut p = Property::new("C16", "strings of ASCII, reserved and multi-byte characters. Non-trivial: has a character that is not alphanumeric");
            p.runtime = filters::c16();
            p
        }
        "C17" => {
            let mut p = Property::new("C17", "JSON value trees up to depth 3. Non-trivial: contains one of < > & '");
            p.runtime = filters::c17();
            p
        }
        "C19" => {
            let mut p = Property::new(
                "C19",
                "templates that write arbitrary chunks and fail after any of them, and writers that fail after any number of bytes, \
                 write short, are interrupted or return 0. Non-trivial: something fails",
            );
            p.runtime = c19::subs();
            p.e2e = flow::e2e("C19");
            p
        }
        "C20" => {
            let mut p = Property::new(
                "C20",
                "random bytes, token soups, tags with arbitrary content, mutated valid templates (default and random delimiters), and \
                 repetitions of nesting constructs up to 10000 times. Non-trivial: contains a start delimiter; for repetitions: more than 50",
            );
            p.runtime = parser::c20();
            p.assumptions = vec!["a case that uses more than 60 s of CPU time does not terminate in roughly linear time"];
            p
        }
        "C21" => {
            let mut p = Property::new(
                "C21",
                "template trees over all node, expression and target kinds, printed with random optional whitespace, redundant \
                 parentheses and trailing commas under up to three delimiter sets. Non-trivial: more than three pieces of source",
            );
            p.runtime = parser::c21();
            p
        }
        "C22" => {
            let mut p = Property::new(
                "C22",
                "valid prefix + malformed tag (from a list or random tokens) + suffix, default and random delimiters. Non-trivial: the \
                 template is rejected and the prefix or error spans lines",
            );
            p.runtime = parser::c22();
            p
        }
        "C07" => {
            let mut p = Property::new(
                "C07",
                "programs of nested if/else if/if let/match over random fields, each rendered with three sets of field values. \
                 Non-trivial: at least two kinds of branches were taken",
            );
            p.e2e = flow::e2e("C07");
            p
        }
        "C08" => {
            let mut p = Property::new(
                "C08",
                "programs of nested loops over lists, ranges, arrays, calls and adapters with conditions, else, break, continue and \
                 loop variables, each rendered with three sets of field values; and loops over every form of expression, compared with the same \
                 loop in Rust. Non-trivial: at least two kinds of loop behaviour occurred",
            );
            p.e2e = flow::e2e("C08");
            p.e2e.extend(forms::e2e_loops());
            p
        }
        "C09" => {
            let mut p = Property::new(
                "C09",
                "programs with many lets, patterns and nested scopes over four names, two of which are fields, too, each rendered with \
                 three sets of field values. Non-trivial: at least two of let, deferred assignment, shadowed variable, shadowed field, \
                 use of a variable were executed",
            );
            p.e2e = flow::e2e("C09");
            p
        }
        "C02" => {
            let mut p = Property::new(
                "C02",
                "templates with inheritance, includes, macros and filter blocks whose values are full of special \
                 characters, with escaping and non-escaping extensions, safe and explicit escape filters; three sets \
                 of field values each. Non-trivial: at least two of expression, wrapped expression, macro call, \
                 include, block, filter block were rendered; forms: more than six forms of expressions were used",
            );
            p.e2e = flow::e2e("C02");
            p.e2e.extend(forms::e2e());
            p
        }
        "C04" => {
            let mut p = Property::new(
                "C04",
                "texts of braces, quotes, backslashes, format placeholders, delimiter look-alikes, control and multi- \
                 byte characters around all kinds of nodes, raw blocks and comments. Non-trivial: both a text and a \
                 raw block were rendered",
            );
            p.e2e = flow::e2e("C04");
            p
        }
        "C05" => {
            let mut p = Property::new(
                "C05",
                "texts of all kinds of whitespace around all kinds of nodes with -, +, ~ and no control, under every \
                 default of configuration and attribute. Non-trivial: a text was rendered",
            );
            p.e2e = flow::e2e("C05");
            p
        }
        "C10" => {
            let mut p = Property::new(
                "C10",
                "inheritance chains of one to four templates with up to five block names, nested blocks, super() and \
                 decoy content outside of blocks; every template of the chain is derived. Non-trivial: at least two \
                 of overridden block, super, nested block were rendered",
            );
            p.e2e = flow::e2e("C10");
            p
        }
        "C11" => {
            let mut p = Property::new(
                "C11",
                "the block= fragment of every block (at most six) of every template of inheritance chains. Non- \
                 trivial: at least two of overridden block, super, nested block, expression, branch, loop were \
                 rendered",
            );
            p.e2e = flow::e2e("C11");
            p
        }
        "C12" => {
            let mut p = Property::new(
                "C12",
                "macros with up to three parameters over four names that are variables and fields, too, called with \
                 positional and named arguments from everywhere, also imported and from other macros. Non-trivial: at \
                 least two of call, imported call, use of a variable were executed",
            );
            p.e2e = flow::e2e("C12");
            p
        }
        "C13" => {
            let mut p = Property::new(
                "C13",
                "includes in several directories, nested, in loops and branches, using variables of the including \
                 template, and of templates that extend others. Non-trivial: at least two of include, nested include, \
                 use of a variable were executed",
            );
            p.e2e = flow::e2e("C13");
            p
        }
        "C14" => {
            let mut p = Property::new(
                "C14",
                "chains of built-in and custom filters with arguments in expressions and filter blocks, some of which \
                 fail. Non-trivial: at least two of filter, filter block, wrapped result, failed filter were executed",
            );
            p.e2e = flow::e2e("C14");
            p
        }
        "C18" => {
            let mut p = Property::new(
                "C18",
                "templates in which up to 60 % of the operands are calls that record their identity; output and \
                 record are compared. Non-trivial: a call was recorded",
            );
            p.e2e = flow::e2e("C18");
            p
        }
        "C03" => {
            let mut p = Property::new(
                "C03",
                "file names with zero to three extensions and directories with dots, inline templates, escape attributes and configured \
                 escapers over 25 extensions; rendered output, EXTENSION and MIME_TYPE are compared, and combinations without escaper \
                 have to be rejected. All cases are non-trivial",
            );
            p.e2e = files::e2e("C03");
            p
        }
        "C06" => {
            let mut p = Property::new(
                "C06",
                "typed expressions over fields of one of 14 number types, booleans and strings: literals, fields, indexes,                  attributes, calls, methods, filters, unary and binary operators, printed with as few parentheses as possible and                  random spaces, as output, condition, loop range, match subject, let value and argument. The same expression with                  all parentheses is compiled by rustc; values, panics and recorded effects are compared. Non-trivial: at least two                  different operators",
            );
            p.e2e = exprs::e2e();
            p
        }
        "C24" => {
            let mut p = Property::new(
                "C24",
                "layouts of up to five template directories with same-named files in subdirectories and files that nobody reads, which \
                 extend, include and import each other, under random configurations (dirs, default_syntax, partial syntaxes) and syntax \
                 and config attributes. Non-trivial: more than one file is read, or one is missing",
            );
            p.e2e = files::e2e("C24");
            p
        }
        "C25" => {
            let mut p = Property::new(
                "C25",
                "the layouts of C24 and inheritance/include/import graphs; the dependencies that rustc reports have to contain every file \
                 that is read, and the configuration. Non-trivial: more than one file is read",
            );
            p.e2e = files::e2e("C25");
            p
        }
        "C26" => {
            let mut p = Property::new(
                "C26",
                "templates that name fields, variables, patterns, macros, parameters, scopes, blocks and methods with Rust keywords, names \
                 that generated code uses, and Unicode identifiers, on structs with lifetimes, type and const parameters, where clauses, \
                 tuple and unit structs, in modules that shadow items of the standard library. Non-trivial: more than one kind of \
                 section, and a keyword or a shadowed item",
            );
            p.e2e = names::e2e();
            p
        }
        "C27" => {
            let mut p = Property::new(
                "C27",
                "templates of all kinds, extensions and struct shapes, with values that make some of them fail, answered by each of the four \
                 integrations; the response has to have status 200, the MIME type and the rendered body, or status 500. Non-trivial: \
                 both rendered output and a failure, or more than one extension or shape",
            );
            p.e2e = web::e2e();
            p
        }
        "C28" => {
            let mut p = Property::new(
                "C28",
                "sets of up to a dozen files that extend, import and include each other, valid or with two defects, compiled in \
                 several processes with different hash seeds: printed code and reported errors are compared. Programs in which the printed \
                 code replaces the derived one, rendered with two sets of field values. Non-trivial: more than one file, defects in \
                 different files, or at least two kinds of sections",
            );
            p.e2e = codegen::e2e();
            p
        }
        "C29" => {
            let mut p = Property::new(
                "C29",
                "for eight sets of features of the crate: templates of all kinds that need none of the missing features, templates that use a \
                 filter or a configuration file that needs a feature. Non-trivial: uses a gated filter or a configuration, or at least two \
                 kinds of sections",
            );
            p.e2e = features::e2e();
            p
        }
        "C23" => {
            let mut p = Property::new(
                "C23",
                "valid sets of template files with one of about 180 defects inserted at a random place where it is one, or (one in \
                 five) with its counterpart that is none; valid sets of files with one of 12 changes (an argument, a file, a macro or a \
                 block less or twice, cycles); defective derive attributes, configurations and cycles of files. All cases are \
                 non-trivial",
            );
            p.e2e = reject::e2e();
            p
        }
        _ => return None,
    })
}
