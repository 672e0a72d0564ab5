//! Fixed programs: inputs of defects that were found once.
use crate::e2e::{Expect, Prog, DIR};
use crate::strings::rust_str;
use crate::Probe;

fn prog(files: &[(&str, &str)], code: String, expect: Expect) -> Prog {
    let files = files.iter().map(|(f, c)| (format!("templates/{DIR}/{f}"), c.replace("DIR/", &format!("{DIR}/")))).collect();
    Prog { files, code, expect, nontrivial: true, tags: vec!["probe"], deps: vec![] }
}

const USE: &str = "use crate::p::{self, *};\nuse askama::Template;\n";

/// Renders one inline template.
fn inline(name: &'static str, source: &str, fields: &str, init: &str, out: &str) -> Probe {
    files(name, &[], &format!("source = {}, ext = \"txt\"", rust_str(source)), fields, init, out)
}

fn files(name: &'static str, files: &[(&str, &str)], attr: &str, fields: &str, init: &str, out: &str) -> Probe {
    let attr = attr.replace("DIR/", &format!("{DIR}/"));
    let code = format!(
        "{USE}#[derive(Template)]\n#[template({attr})]\nstruct T {{ {fields} }}\npub fn run(o: &mut Vec<String>) {{\n    o.push(p::render(&T {{ {init} }}));\n}}\n"
    );
    Probe { name, prog: prog(files, code, Expect::Outputs(vec![("render".to_string(), out.to_string())])) }
}

/// As `inline`, and what the template calls.
fn calls(name: &'static str, source: &str, out: &str, log: &str) -> Probe {
    let code = format!(
        "{USE}#[derive(Template)]\n#[template(source = {}, ext = \"txt\")]\nstruct T;\npub fn run(o: &mut Vec<String>) {{\n    o.push(p::render(&T));\n    o.push(p::take_log());\n}}\n",
        rust_str(source)
    );
    Probe { name, prog: prog(&[], code, Expect::Outputs(vec![("render".to_string(), out.to_string()), ("log".to_string(), log.to_string())])) }
}

fn rejected(name: &'static str, files: &[(&str, &str)], attr: &str) -> Probe {
    let attr = attr.replace("DIR/", &format!("{DIR}/"));
    let code = format!("{USE}#[derive(Template)]\n#[template({attr})]\nstruct T;\n");
    Probe { name, prog: prog(files, code, Expect::CompileError) }
}

/// A module as it is.
fn module(name: &'static str, code: &str, out: &str) -> Probe {
    Probe { name, prog: prog(&[], code.to_string(), Expect::Outputs(vec![("render".to_string(), out.to_string())])) }
}

pub fn probes(id: &str) -> Vec<Probe> {
    match id {
        "C05" => vec![inline("minimize_over_preserve", "a{% if true ~%} \n {%+ endif %}b", "", "", "a\nb")],
        "C06" => vec![
            inline("pipe_after_filter", "{{ a.v()|abs | b }}", "a: i64, b: i64", "a: -1, b: 2", "3"),
        ],
        "C07" => vec![],
        "C08" => vec![
            calls("array_loop", "{% for x in [p::add(1, 2), 4] %}{{ x }},{% endfor %}", "3,4,", "|"),
            inline("deep_loops", &format!("{}x{}", "{% for i in 0..1 %}".repeat(100), "{% endfor %}".repeat(100)), "", "", "x"),
        ],
        "C09" => vec![
            inline("let_shadows_field", "{{ n }}{% let n = 5 %}{{ n }}", "n: i64", "n: 1", "15"),
            inline("underscore_names", "{% let (_a, _) = (1, 2) %}{{ _a }}{% for _x in 0..2 %}{{ _x }}{% endfor %}", "", "", "101"),
        ],
        "C10" => vec![
            inline("block_variables", "{% block a %}{% let n = 2 %}{{ n }}{% endblock %}{{ n }}", "n: i64", "n: 1", "21"),
            inline("pending_block_output", "{% block a %}{% let n = 2 %}{{ n }}{% endblock %}{% let n = 3 %}{{ n }}", "n: i64", "n: 1", "23"),
        ],
        "C11" => vec![files(
            "fragment_alone",
            &[("b.txt", "{% let x = 1 %}before{% if false %}{% block a %}A{{ n }}{% endblock %}{% endif %}after")],
            "path = \"DIR/b.txt\", block = \"a\"",
            "n: i64",
            "n: 3",
            "A3",
        )],
        "C12" => vec![
            calls(
                "arguments_of_the_caller",
                "{% macro m(a, b) %}{{ a }}{{ b }}{% endmacro %}{% let a = 1 %}{% let b = 2 %}{% call m(b, a) %}",
                "21",
                "|",
            ),
            inline("named_not_moved", "{% macro m(a) %}{{ a }}{% endmacro %}{% call m(a=s) %}{{ s }}", "s: String", "s: \"x\".to_string()", "xx"),
            inline("keyword_parameters", "{% macro m(type, in) %}{{ type }}{{ in }}{% endmacro %}{% call m(1, 2) %}", "", "", "12"),
            inline("hygiene", "{% macro m(a) %}{% let n = 5 %}{{ a }}{{ n }}{% endmacro %}{% call m(n) %}", "n: i64", "n: 1", "15"),
        ],
        "C13" => vec![
            files(
                "nested_relative",
                &[("d/a.txt", "{% include \"b.txt\" %}"), ("d/b.txt", "inner"), ("t.txt", "{% include \"d/a.txt\" %}")],
                "path = \"DIR/t.txt\"",
                "",
                "",
                "inner",
            ),
            files("no_leak", &[("a.txt", "{% let n = 2 %}{{ n }}"), ("t.txt", "{% include \"a.txt\" %}{{ n }}")], "path = \"DIR/t.txt\"", "n: i64", "n: 1", "21"),
        ],
        "C14" => vec![
            inline("let_join", "{% let y = xs|join(\",\") %}{{ y }};{{ y }}", "xs: Vec<i64>", "xs: vec![1, 2]", "1,2;1,2"),
            inline("shared_join", "{{ xs|join(\",\") }};{{ xs|join(\",\") }}", "xs: Vec<i64>", "xs: vec![1, 2]", "1,2;1,2"),
            inline("whole_block", "{% filter upper %}a{% let n = 2 %}b{{ n }}c{% if true %}d{% endif %}e{% endfilter %}f", "n: i64", "n: 1", "AB2CDEf"),
            rejected("block_in_filter", &[], "source = \"{% filter upper %}{% block a %}x{% endblock %}{% endfilter %}\", ext = \"txt\""),
        ],
        "C18" => vec![
            calls("attribute_of_call", "{% macro m(a) %}{% if true %}{{ a }}{% endif %}{{ a }}{% endmacro %}{% call m(p::lgp(1, 2).n) %}", "22", "1|"),
            calls("macro_argument_once", "{% macro m(a) %}{{ a }}{{ a }}{% endmacro %}{% call m(p::lg(1, 2)) %}", "22", "1|"),
        ],
        "C23" => vec![
            rejected("cyclic_extends", &[("a.txt", "{% extends \"DIR/b.txt\" %}"), ("b.txt", "{% extends \"DIR/c.txt\" %}"), ("c.txt", "{% extends \"DIR/b.txt\" %}")], "path = \"DIR/a.txt\""),
            rejected("recursive_macro", &[], "source = \"{% macro m() %}{% call m() %}{% endmacro %}{% call m() %}\", ext = \"txt\""),
            rejected("recursive_include", &[("a.txt", "{% include \"DIR/a.txt\" %}")], "path = \"DIR/a.txt\""),
            rejected("block_twice", &[], "source = \"{% block a %}1{% endblock %}{% block a %}2{% endblock %}\", ext = \"txt\""),
            rejected("else_not_last", &[], "source = \"{% if true %}1{% else %}2{% else if true %}3{% endif %}\", ext = \"txt\""),
            rejected("attribute_value", &[], "source = 1, ext = \"txt\""),
        ],
        "C24" => vec![
            Probe {
                name: "escaped_delimiter",
                prog: Prog {
                    files: vec![(format!("{DIR}.toml"), "[[syntax]]\nname = \"q\"\ncomment_start = \"\\\"\\\"\"\n".to_string())],
                    code: format!(
                        "{USE}#[derive(Template)]\n#[template(source = \"a\\\"\\\"c#}}b\", ext = \"txt\", syntax = \"q\", config = \"{DIR}.toml\")]\nstruct T;\npub fn run(o: &mut Vec<String>) {{\n    o.push(p::render(&T));\n}}\n"
                    ),
                    expect: Expect::Outputs(vec![("render".to_string(), "ab".to_string())]),
                    nontrivial: true,
                    tags: vec!["probe"],
                    deps: vec![],
                },
            },
            rejected("directory", &[("d/x.txt", "")], "path = \"DIR/d\""),
        ],
        "C26" => vec![
            module(
                "shadowed_some",
                "struct Some;\n#[derive(::askama::Template)]\n#[template(source = \"x\", ext = \"txt\")]\nstruct T;\npub fn run(o: &mut Vec<String>) {\n    o.push(::askama::Template::render(&T).unwrap());\n}\n",
                "x",
            ),
            module(
                "shadowed_sized",
                "trait Sized {}\n#[derive(::askama::Template)]\n#[template(source = \"x\", ext = \"txt\")]\nstruct T;\npub fn run(o: &mut Vec<String>) {\n    o.push(::askama::Template::render(&T).unwrap());\n}\n",
                "x",
            ),
            module(
                "shadowed_bool",
                "struct bool {}\nmacro_rules! include_bytes { () => {} }\n#[derive(::askama::Template)]\n#[template(source = \"{% if b %}x{% endif %}{% for i in l if i.is_positive() %}{{ i }}{% endfor %}\", ext = \"txt\")]\nstruct T { b: ::core::primitive::bool, l: Vec<i64> }\npub fn run(o: &mut Vec<String>) {\n    o.push(::askama::Template::render(&T { b: true, l: vec![0, 1] }).unwrap());\n}\n",
                "x1",
            ),
            inline("internal_names", "{% let _iter = 7 %}{% let _loop_item = 8 %}{% let _did_loop = 9 %}{% for i in 0..1 %}{{ _iter }}{{ _loop_item }}{{ _did_loop }}{% else %}{% endfor %}", "", "", "789"),
        ],
        _ => vec![],
    }
}
