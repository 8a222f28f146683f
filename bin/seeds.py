P = 'crates/compiler/parser/src/parser.rs'; L = 'crates/compiler/parser/src/lexer.rs'; FMT = 'crates/compiler/formatter/src/'
PARSE = '''use cairo_m_compiler_parser::{parse_file, ParserDatabaseImpl, SourceFile};
fn p(t: &str) -> String { let db = ParserDatabaseImpl::default(); let o = parse_file(&db, SourceFile::new(&db, t.to_string(), "t.cm".to_string())); format!("{:?} {}", o.module, o.diagnostics.len()) }
'''
FORMAT = '''use cairo_m_compiler_parser::{parse_file, ParserDatabaseImpl, SourceFile}; use cairo_m_formatter::{format_source_file, FormatterConfig};
fn f(t: &str) -> String { let db = ParserDatabaseImpl::default(); format_source_file(&db, SourceFile::new(&db, t.to_string(), "t.cm".to_string()), &FormatterConfig::default()) }
'''

seed('hex_wide', 'L01', [(L, """    // Parse the number string as u64
    match""", """    // Leading zeros do not count
    let number_str = if base == 16 && number_str.len() > 16 {
        &number_str[number_str.len() - 16..]
    } else {
        number_str
    };

    // Parse the number string as u64
    match""")],
     PARSE + '''fn main() { let t = p("const A = 0x10000000000000005;"); println!("{t}"); assert!(!t.contains("Literal(5")); assert!(p("const A = 0x00000000000000005;").contains("Literal(5")); }''',
     'a hexadecimal literal of more than 16 digits whose leading digits are not zero', 'digits beyond the low 64 bits are dropped silently instead of being reported')
seed('comment_cr', 'L05', [(L, r'''#[logos(skip r"//[^\n]*")]''', r'''#[logos(skip r"//[^\r\n]*")]''')],
     PARSE + '''fn main() { let a = p("const A = // x\\ry\\n1;"); println!("{a}"); assert!(a.ends_with(" 0")); }''',
     'a comment with a carriage return that is not followed by a line feed', 'the comment ends at the carriage return and the rest of the line becomes code')
seed('ws_formfeed', 'L02', [(L, r'''#[logos(skip r"[\t\n\r ]+")]''', r'''#[logos(skip r"[\t\n\f\r ]+")]''')],
     PARSE + '''fn main() { let a = p("const A = \\u{c}1;"); println!("{a}"); assert!(!a.ends_with(" 0")); }''',
     'a form feed character between tokens', 'a character outside the language is skipped instead of being reported')
seed('ident_dollar', 'L02', [(L, r'''#[regex(r"[a-zA-Z_][a-zA-Z0-9_]*")]''', r'''#[regex(r"[a-zA-Z_][a-zA-Z0-9_]*\$?")]''')],
     PARSE + '''fn main() { let a = p("const A$ = 1;"); println!("{a}"); assert!(!a.ends_with(" 0")); }''',
     'an identifier directly followed by a dollar sign', 'a character outside the language becomes part of a name')
seed('struct_lit_trailing', 'L04', [(P, """            .separated_by(just(TokenType::Comma)) // fields separated by commas
            .allow_trailing() // allow trailing comma
""", """            .separated_by(just(TokenType::Comma)) // fields separated by commas
            .allow_leading()
            .allow_trailing() // allow trailing comma
""")],
     PARSE + '''fn main() { let a = p("const A = S {, x: 1};"); println!("{a}"); assert!(!a.ends_with(" 0")); assert!(p("const A = S {x: 1,};").ends_with(" 0")); }''',
     'a struct literal with a comma before its first field', 'the parser accepts a text outside the grammar')
seed('tuple_index_u32', 'L04', [(P, "index: lit.value as usize,", "index: lit.value as u32 as usize,")],
     PARSE + '''fn main() { let a = p("const A = b.4294967297;"); println!("{a}"); assert!(a.contains("index: 4294967297")); }''',
     'a tuple index of 2^32 or more', 'the index is truncated to 32 bits, so an out-of-range index selects an element')
seed('for_step', 'L04', [(P, """        let for_step = expr
            .clone()
            .then(just(TokenType::Eq).ignore_then(expr.clone()).or_not())
            .map(""", """        let for_step = expr
            .clone()
            .then(just(TokenType::Eq).ignore_then(expr.clone()).or_not())
            .then_ignore(just(TokenType::Semicolon).or_not())
            .map(""")],
     PARSE + '''fn main() { let a = p("fn f() { for (i = 0; i < 3; i = i + 1;) {} }"); println!("{a}"); assert!(!a.ends_with(" 0")); }''',
     'a for loop with a semicolon after its step', 'the parser accepts a text outside the grammar')
seed('fmt_unary', 'F01', [(FMT + 'rules/expressions.rs', """            Self::UnaryOp { op, expr } => {
""", """            Self::UnaryOp { op, expr } => {
                // A double negation is no negation
                if let Self::UnaryOp { op: inner, expr: value } = expr.value() {
                    if inner == op {
                        return value.value().format(ctx);
                    }
                }
""")],
     FORMAT + '''fn main() { let a = f("const A = --b;"); println!("{a}"); assert!(a.contains("--b")); }''',
     'two equal prefix operators in a row', 'the formatter removes them both')
seed('fmt_index', 'F01', [(FMT + 'rules/types.rs', 'Doc::concat(vec![inner.value().format(ctx), Doc::text("*")])', """match inner.value() {
                Self::Pointer(_) => inner.value().format(ctx),
                _ => Doc::concat(vec![inner.value().format(ctx), Doc::text("*")]),
            }""")],
     FORMAT + '''fn main() { let a = f("fn f(a: felt**) {}"); println!("{a}"); assert!(a.contains("felt**")); }''',
     'a pointer to a pointer', 'the formatter prints one star too few')

# --- semantic analysis ---
SD = 'crates/compiler/semantic/src/'; TV = SD + 'validation/type_validator.rs'; TR = SD + 'type_resolution.rs'
SEM = '''use cairo_m_compiler_semantic::{SemanticDatabaseImpl, db::{Crate, project_validate_semantics}, File}; use std::collections::HashMap;
fn d(files: &[(&str, &str)]) -> Vec<String> { let db = SemanticDatabaseImpl::default(); let mut m = HashMap::new(); for (n, t) in files { m.insert(n.to_string(), File::new(&db, t.to_string(), format!("{n}.cm"))); } let c = Crate::new(&db, m, "main".to_string(), std::path::PathBuf::new(), "demo".to_string()); let v: Vec<String> = project_validate_semantics(&db, c).all().iter().map(|d| format!("{:?} {}", d.severity, d.message)).collect(); println!("{v:?}"); v }
fn errs(t: &str) -> usize { d(&[("main", t)]).iter().filter(|m| m.starts_with("Error")).count() }
'''
seed('flow_else_if', 'S03', [(SD + 'validation/control_flow_validator.rs', """                    || else_block
                        .as_ref()
                        .is_some_and(|eb| Self::contains_break(eb))
            }
            Statement::Loop { body: _ }""", """                    || matches!(else_block.as_ref().map(|eb| eb.value()), Some(Statement::Block(body))
                        if body.iter().any(Self::contains_break))
            }
            Statement::Loop { body: _ }""")],
     SEM + """fn main() { assert!(errs("fn f(c: bool) -> felt { loop { if (c) { assert(c); } else if (c) { break; } return 1; } }") > 0); assert_eq!(errs("fn f(c: bool) -> felt { loop { if (c) { assert(c); } return 1; } }"), 0); }""",
     'a loop left by a break in an else-if', 'the break is not seen: a function that can leave the loop without returning is accepted')
seed('pat_path', 'S01', [(TR, "for &index in path {", "for &index in path.iter().take(2) {")],
     SEM + '''fn main() { assert_eq!(errs("fn k() -> (felt, (felt, (bool, u32))) { return (1, (2, (true, 3u32))); } fn f() -> u32 { let (a, (b, (c, e))) = k(); return e; }"), 0); }''',
     'a tuple pattern three levels deep', 'the variables of the innermost pattern get the type of the whole inner tuple')
seed('nested_repeat', 'S01', [(TV, """        // Check for nested array literals
        for elem in elements {
            if matches!(
                elem.value(),
                Expression::ArrayLiteral(_) | Expression::ArrayRepeat { .. }
            ) {""", """        // Check for nested array literals
        for elem in elements {
            if matches!(elem.value(), Expression::ArrayLiteral(_)) {""")],
     SEM + '''fn main() { assert!(errs("fn f() { let _a = [[1; 2], [3; 2]]; return; }") > 0); }''',
     'an array literal of array repeats', 'nested arrays, which the compiler does not support, are accepted')
seed('xor_bool', 'S01', [(TR, """        // BitwiseXor
        OperatorSignature {
            op: BinaryOp::BitwiseXor,
            left: u32,
            right: u32,
            result: u32,
        },""", """        // BitwiseXor
        OperatorSignature {
            op: BinaryOp::BitwiseXor,
            left: u32,
            right: u32,
            result: u32,
        },
        OperatorSignature {
            op: BinaryOp::BitwiseXor,
            left: bool,
            right: bool,
            result: bool,
        },""")],
     SEM + '''fn main() { assert!(errs("fn f(a: bool, b: bool) -> bool { return a ^ b; }") > 0); }''',
     'a bitwise xor of two bools', 'an operator is accepted for a type that it does not exist for')
seed('ptr_compat', 'S01', [(TR, """        (TypeData::Pointer { element_type: a }, TypeData::Pointer { element_type: e }) => {
            are_types_compatible(db, a, e)
        }""", """        (TypeData::Pointer { element_type: a }, TypeData::Pointer { element_type: e }) => {
            are_types_compatible(db, a, e)
                || matches!(
                    (a.data(db), e.data(db)),
                    (TypeData::Struct(a), TypeData::Struct(e))
                        if a.fields(db).len() == e.fields(db).len()
                )
        }""")],
     SEM + '''fn main() { assert!(errs("struct P { x: felt } struct Q { y: felt } fn k(p: P*) -> felt { return p[0].x; } fn f(q: Q*) -> felt { return k(q); }") > 0); }''',
     'a pointer to a struct used where a pointer to another struct with as many fields is wanted', 'pointers to different structs are taken for the same type')
seed('delta_texts', 'S07', [(SD + 'delta_diagnostics.rs', "    cached_diagnostics: HashMap<String, DiagnosticCollection>,\n    /// The overall", "    cached_diagnostics: HashMap<String, DiagnosticCollection>,\n    /// The text each module had at the last computation\n    module_texts: HashMap<String, String>,\n    /// The overall"),
     (SD + 'delta_diagnostics.rs', "            cached_diagnostics: HashMap::new(),\n            last_project", "            cached_diagnostics: HashMap::new(),\n            module_texts: HashMap::new(),\n            last_project"),
     (SD + 'delta_diagnostics.rs', "        let mut total_diagnostics = DiagnosticCollection::default();\n\n        for (module_name, _file) in modules.iter() {", "        let mut total_diagnostics = DiagnosticCollection::default();\n        let previous_texts = std::mem::take(&mut self.module_texts);\n\n        for (module_name, file) in modules.iter() {\n            self.module_texts\n                .insert(module_name.clone(), file.text(db).to_string());"),
     (SD + 'delta_diagnostics.rs', "self.has_module_changed(db, crate_id, module_name.clone());", "self.has_module_changed(db, crate_id, module_name.clone())\n                && previous_texts.get(module_name) != self.module_texts.get(module_name);")],
     '''use cairo_m_compiler_semantic::{SemanticDatabaseImpl, db::Crate, delta_diagnostics::DeltaDiagnosticsTracker, File}; use std::collections::HashMap; use salsa::Setter;
fn main() { let mut db = SemanticDatabaseImpl::default(); let main = File::new(&db, "use lib::k; fn f() -> felt { return k(); }".to_string(), "main.cm".to_string()); let lib = File::new(&db, "fn k() -> felt { return 1; }".to_string(), "lib.cm".to_string());
  let mut m = HashMap::new(); m.insert("main".to_string(), main); m.insert("lib".to_string(), lib); let c = Crate::new(&db, m, "main".to_string(), std::path::PathBuf::new(), "demo".to_string()); let mut t = DeltaDiagnosticsTracker::new();
  assert_eq!(t.get_project_diagnostics(&db, c).all().len(), 0); lib.set_text(&mut db).to("fn k() -> bool { return true; }".to_string()); assert!(t.get_project_diagnostics(&db, c).all().len() > 0); }''',
     'an edit of a module that another, unchanged module imports from', 'the diagnostics of the importing module stay those of before the edit')
seed('import_case', 'S06', [(SD + 'semantic_index.rs', "            if use_def_ref.item.value() == name {", "            if use_def_ref.item.value().eq_ignore_ascii_case(name) {")],
     SEM + """fn main() { let lib = ("lib", "const A = 1; const a = 2;"); assert!(d(&[("main", "use lib::A; fn f() -> felt { return a; }"), lib]).iter().any(|m| m.starts_with("Error"))); assert!(!d(&[("main", "use lib::A; fn f() -> felt { return A; }"), lib]).iter().any(|m| m.starts_with("Error"))); }""",
     'a use of a name that differs only in case from an imported item, and that the imported module defines too', 'an item that was not imported is available')
seed('dup_nested', 'S05', [(SD + 'validation/shared.rs', """                let mut result = Vec::new();
                for p in patterns {
                    result.extend(collect_identifiers(p));
                }
                result""", """                let mut result: Vec<&Spanned<String>> = Vec::new();
                for p in patterns {
                    let inner = collect_identifiers(p);
                    // Names of a nested pattern are only compared with the first of each level
                    match p {
                        Pattern::Identifier(_) => result.extend(inner),
                        Pattern::Tuple(_) => result.extend(inner.into_iter().rev().take(2)),
                    }
                }
                result""")],
     SEM + """fn main() { assert!(errs("fn k() -> ((felt, felt, felt), felt) { return ((1, 2, 3), 4); } fn f() { let ((a, _b, _c), a) = k(); return; }") > 0); assert!(errs("fn k() -> ((felt, felt), felt) { return ((1, 2), 4); } fn f() { let ((a, _b), a) = k(); return; }") > 0); }""",
     'a name bound in a nested tuple pattern of three or more and again outside of it', 'the duplicate is not reported')
seed('params_two', 'S05', [(SD + 'validation/shared.rs', "    for parameter in params {\n        let range = parameter.name.span();", "    for parameter in params.iter().filter(|p| !p.name.value().starts_with('_')) {\n        let range = parameter.name.span();")],
     SEM + """fn main() { assert!(errs("fn f(_a: felt, _a: u32) { return; }") > 0); }""",
     'two parameters of the same name that starts with an underscore', 'the duplicate is not reported')
seed('use_dup', 'S05', [(SD + 'semantic_errors.rs', "TopLevelItem::Use(use_stmt) => use_stmt.value().items.names(),", "TopLevelItem::Use(use_stmt) => use_stmt\n                    .value()\n                    .items\n                    .names()\n                    .into_iter()\n                    .take(1)\n                    .collect(),")],
     SEM + """fn main() { assert!(d(&[("main", "use lib::{a, b}; fn b() -> felt { return a(); }"), ("lib", "fn a() -> felt { return 1; } fn b() -> felt { return 2; }")]).iter().any(|m| m.starts_with("Error"))); }""",
     'an item with the name of the second or a later name of a use list', 'the duplicate is not reported')
seed('index_trunc', 'S04', [(TV, "let index_value = *value as usize;", "let index_value = *value as u32 as usize;")],
     SEM + """fn main() { assert!(errs("fn f(v: [felt; 2]) -> felt { return v[4294967296]; }").max(1) > 0); let n = d(&[("main", "fn f(v: [felt; 2]) -> felt { return v[4294967296]; }")]).iter().filter(|m| m.contains("out of bounds")).count(); assert_eq!(n, 1); }""",
     'a constant index of 2^32 or more', 'the index is truncated before it is compared with the size of the array')
seed('const_forward', 'S02', [(SD + 'semantic_index.rs', "                                | crate::definition::DefinitionKind::Struct(_)\n                                | crate::definition::DefinitionKind::Use(_)\n                        );\n                        if !is", "                                | crate::definition::DefinitionKind::Struct(_)\n                                | crate::definition::DefinitionKind::Use(_)\n                                | crate::definition::DefinitionKind::Const(_)\n                        );\n                        if !is")],
     SEM + """fn main() { assert!(errs("fn f() -> felt { let a = b; const b = 1; return a + b; }") > 0); }""",
     'a use of a local constant before its definition', 'the use is accepted')