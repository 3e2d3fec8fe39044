//! SQL: parse trees as uniform nodes {k, s, c}, results of type inference, names, catalog.
use crate::tree::text;
use crate::util::*;
use cathlamet::sql::ast::typing::SetContext;
use cathlamet::sql::ast::*;
use cathlamet::sql::parser::SqlStatementParser;
use cathlamet::sql::schema::{Column, Database, RowSet, SchemaObject, Table, View};
use cathlamet::sql::symbols::Name;
use cathlamet::sql::types::DataType;
use serde_json::{json, Value};
use std::cmp::Ordering as Cmp;

fn cps(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

fn n(k: &str, c: Vec<Value>) -> Value {
    json!({"k": k, "s": [], "c": c})
}
fn leaf(k: &str, s: &str) -> Value {
    json!({"k": k, "s": cps(s), "c": []})
}
fn name(x: &Name) -> Value {
    leaf("name", x.as_str())
}
fn names(x: &[Name]) -> Value {
    n("names", x.iter().map(name).collect())
}
fn opt<T>(x: &Option<T>, f: impl Fn(&T) -> Value) -> Value {
    x.as_ref().map(f).unwrap_or_else(|| n("none", vec![]))
}
fn list<T>(x: &[T], f: impl Fn(&T) -> Value) -> Value {
    n("list", x.iter().map(f).collect())
}
fn b(x: &Box<Expression>) -> Value {
    expr(x)
}

/// a name by its parts; the whole must consist of them
fn qualified(all: &[Name], schema: Option<&Name>, object: &Name) -> Value {
    let parts: Vec<Name> = schema.into_iter().chain(Some(object)).cloned().collect();
    let same = parts.iter().map(|x| x.as_str()).eq(all.iter().map(|x| x.as_str()));
    if same { names(all) } else { n("parts", vec![names(&parts), names(all)]) }
}

pub fn statement(s: &SqlStatement) -> Value {
    match s {
        SqlStatement::Statement(s) => stmt(s),
        SqlStatement::ExplainQueryPlan(s) => n("explain", vec![stmt(s)]),
        SqlStatement::Attach(a) => json!({"k": "attach", "s": cps(&a.path), "c": [qualified(&a.qualified_name, a.schema_name(), a.table_name())]}),
        SqlStatement::Describe(d) => n("describe", vec![qualified(&d.qualified_name, d.schema_name(), d.table_name())]),
    }
}

fn stmt(s: &Statement) -> Value {
    match s {
        Statement::Select(s) => select(s),
        Statement::Insert(i) => n("insert", vec![list(&i.common, cte), names(&i.table_name), opt(&i.columns, |c| names(c)), set(&i.source)]),
        Statement::Delete(d) => n("delete", vec![list(&d.common, cte), names(&d.table_name), opt(&d.where_expr, b)]),
        Statement::Update(u) => n(
            "update",
            vec![
                list(&u.common, cte),
                names(&u.table_name),
                list(&u.assignments, |a| n("assign", vec![names(&a.columns), expr(&a.expr)])),
                opt(&u.where_expr, b),
            ],
        ),
    }
}

fn cte(c: &CommonTableExpression) -> Value {
    n("cte", vec![name(&c.identifier), opt(&c.column_names, |c| names(c)), select(&c.query)])
}

fn select(s: &SelectStatement) -> Value {
    n(
        "select",
        vec![
            list(&s.common, cte),
            set(&s.expr),
            list(&s.order_by, |o| {
                let d = match o.direction {
                    OrderingDirection::Ascending => "asc",
                    OrderingDirection::Descending => "desc",
                };
                n(d, vec![expr(&o.expr), opt(&o.collation, name)])
            }),
            opt(&s.limit, |l| n("limit", vec![expr(&l.number_rows), opt(&l.offset_value, b)])),
        ],
    )
}

fn set(s: &SetExpression) -> Value {
    match s {
        SetExpression::Values(rows) => n("values", rows.iter().map(|r| n("row", r.iter().map(b).collect())).collect()),
        SetExpression::Query { mode, columns, from, where_expr, group_by } => n(
            match mode {
                SelectMode::All => "query",
                SelectMode::Distinct => "distinct",
            },
            vec![
                match columns {
                    ResultColumns::All => n("star", vec![]),
                    ResultColumns::List(l) => n(
                        "cols",
                        l.iter()
                            .map(|c| match &**c {
                                ResultColumn::AllFrom(x) => n("allfrom", vec![name(x)]),
                                ResultColumn::Expr { expr: e, rename } => n("col", vec![expr(e), opt(rename, name)]),
                            })
                            .collect(),
                    ),
                },
                list(from, |t| table(t)),
                opt(where_expr, b),
                opt(group_by, |g| n("group", vec![list(&g.groupings, b), opt(&g.having, b)])),
            ],
        ),
        SetExpression::Op { op, left, right } => n(
            match op {
                SetOperator::Intersect => "intersect",
                SetOperator::Except => "except",
                SetOperator::Union => "union",
                SetOperator::UnionAll => "unionall",
            },
            vec![set(left), set(right)],
        ),
    }
}

fn table(t: &TableExpression) -> Value {
    match t {
        TableExpression::Named { name: x, alias } => n("table", vec![names(x), opt(alias, name)]),
        TableExpression::Select { select: s, alias } => n("sub", vec![select(s), opt(alias, name)]),
        TableExpression::Join { left, right, op, constraint } => {
            let j = |t: &JoinType| match t {
                JoinType::Inner => "inner",
                JoinType::Left => "left",
                JoinType::Right => "right",
                JoinType::Full => "full",
            };
            let o = match op {
                JoinOperator::Join(t) => n("join", vec![n(j(t), vec![])]),
                JoinOperator::Natural(t) => n("natural", vec![n(j(t), vec![])]),
                JoinOperator::Cross => n("cross", vec![]),
            };
            let c = match constraint {
                JoinConstraint::Expr(e) => n("on", vec![expr(e)]),
                JoinConstraint::Columns(c) => n("using", vec![names(c)]),
            };
            n("joined", vec![table(left), o, table(right), c])
        }
    }
}

fn expr(e: &Expression) -> Value {
    match e {
        Expression::Literal(l) => match l {
            Literal::StringLiteral(s) => leaf("str", s),
            Literal::NumericLiteral(s) => leaf("num", s),
            Literal::Null => n("null", vec![]),
            Literal::CurrentTime => n("current_time", vec![]),
            Literal::CurrentDate => n("current_date", vec![]),
            Literal::CurrentTimestamp => n("current_timestamp", vec![]),
            Literal::DateLiteral(s) => leaf("date", s),
            Literal::TimeLiteral(s) => leaf("time", s),
            Literal::TimestampLiteral(s) => leaf("timestamp", s),
        },
        Expression::QualifiedIdentifier(p) => n("ref", vec![names(p)]),
        Expression::MakeTuple(l) => n("tuple", l.iter().map(b).collect()),
        Expression::Select(s) => n("scalar", vec![select(s)]),
        Expression::Unary { op, expr: e } => n(
            match op {
                UnaryOperator::Negate => "neg",
                UnaryOperator::Not => "not",
                UnaryOperator::IsNull => "isnull",
            },
            vec![expr(e)],
        ),
        Expression::Binary { op, left, right } => n(
            match op {
                BinaryOperator::Multiply => "mul",
                BinaryOperator::Divide => "div",
                BinaryOperator::Add => "add",
                BinaryOperator::Subtract => "sub",
                BinaryOperator::Concat => "concat",
                BinaryOperator::And => "and",
                BinaryOperator::Or => "or",
            },
            vec![expr(left), expr(right)],
        ),
        Expression::Comparison { op, left, right } => n(
            match op {
                ComparisonOperator::Equal => "eq",
                ComparisonOperator::NotEqual => "ne",
                ComparisonOperator::LessThan => "lt",
                ComparisonOperator::LessEqual => "le",
                ComparisonOperator::GreaterThan => "gt",
                ComparisonOperator::GreaterEqual => "ge",
                ComparisonOperator::Like => "like",
            },
            vec![expr(left), expr(right)],
        ),
        Expression::In { expr: e, set: s } => n(
            "in",
            vec![
                expr(e),
                match s {
                    SetSpecification::Select(s) => n("set_select", vec![select(s)]),
                    SetSpecification::List(l) => n("set_list", l.iter().map(b).collect()),
                    SetSpecification::Name(x) => n("set_name", vec![names(x)]),
                },
            ],
        ),
        Expression::Between { expr: e, lower, upper } => n("between", vec![expr(e), expr(lower), expr(upper)]),
        Expression::Case { expr: e, when_part, else_part } => n(
            "case",
            vec![opt(e, b), list(when_part, |w| n("when", vec![expr(&w.guard), expr(&w.body)])), opt(else_part, b)],
        ),
    }
}

fn data_type(s: &str) -> DataType {
    match s {
        "generic" => DataType::Generic,
        "varchar" => DataType::Varchar,
        "numeric" => DataType::Numeric,
        "logical" => DataType::Logical,
        "date" => DataType::Date,
        "time" => DataType::Time,
        "timestamp" => DataType::Timestamp,
        "geometry" => DataType::Geometry,
        x => panic!("{}", x),
    }
}
fn type_name(t: DataType) -> String {
    format!("{}", t).to_lowercase()
}

fn nm(v: &Value) -> Name {
    Name::from(text(v))
}

fn column(v: &Value) -> Column {
    Column {
        name: nm(&v["n"]),
        not_null: v["nn"].as_bool().unwrap(),
        primary_key: v["pk"].as_bool().unwrap(),
        data_type: data_type(v["t"].as_str().unwrap()),
    }
}
fn from_column(c: &Column) -> Value {
    json!({"n": cps(c.name.as_str()), "nn": c.not_null, "pk": c.primary_key, "t": type_name(c.data_type)})
}

fn object(v: &Value) -> SchemaObject {
    let rows = RowSet { columns: v["cols"].as_array().unwrap().iter().map(column).collect() };
    if v["view"].as_bool().unwrap() {
        SchemaObject::View(View { name: nm(&v["n"]), rows, query: text(&v["q"]) })
    } else {
        SchemaObject::Table(Table {
            name: nm(&v["n"]),
            rows,
            primary_key: v["key"].as_array().unwrap().iter().map(nm).collect(),
        })
    }
}

fn from_object(key: &Name, o: &SchemaObject) -> Value {
    // the rows of the object as they are given to others; describing shows those of the table or view itself
    let cols = |_: &RowSet| o.row_set().columns.iter().map(from_column).collect::<Vec<_>>();
    match o {
        SchemaObject::Table(t) => json!({"at": cps(key.as_str()), "n": cps(t.name.as_str()), "view": false, "cols": cols(&t.rows), "q": [],
            "key": t.primary_key.iter().map(|x| cps(x.as_str())).collect::<Vec<_>>()}),
        SchemaObject::View(t) => json!({"at": cps(key.as_str()), "n": cps(t.name.as_str()), "view": true, "cols": cols(&t.rows), "q": cps(&t.query), "key": []}),
    }
}

fn contents(d: &Database) -> Value {
    Value::Array(
        d.schemata
            .iter()
            .map(|(k, s)| {
                json!({"at": cps(k.as_str()), "n": cps(s.name.as_str()),
                "objects": s.objects.iter().map(|(k, o)| from_object(k, o)).collect::<Vec<_>>()})
            })
            .collect(),
    )
}

fn database(v: &Value) -> Database {
    let mut d = Database::new();
    for s in v["schemata"].as_array().unwrap() {
        let key = nm(&s["n"]);
        assert!(d.create_schema(&key).is_ok());
        for o in s["objects"].as_array().unwrap() {
            d.schemata.get_mut(&key).unwrap().objects.insert(nm(&o["n"]), object(o));
        }
    }
    d
}

pub fn run(case: &Value) -> Value {
    thread_local!(static PARSER: SqlStatementParser = SqlStatementParser::new());
    let mut out = Vec::new();
    let ctx = if case["db"].is_null() {
        None
    } else {
        match attempt(|| SetContext::verif_new(&database(&case["db"]), nm(&case["db"]["default"]))) {
            Some(c) => Some(c),
            None => return json!({"abort": "the catalog of the case panicked"}),
        }
    };
    for s in case["steps"].as_array().unwrap() {
        out.push(match s["op"].as_str().unwrap() {
            "parse" => {
                let txt = text(&s["s"]);
                match attempt(|| PARSER.with(|p| p.parse(&txt).map(|t| statement(&t)).ok())) {
                    None => json!({"res": "panic"}),
                    Some(None) => json!({"res": "err"}),
                    Some(Some(t)) => json!({"res": "ok", "t": t}),
                }
            }
            "type" => {
                let txt = text(&s["s"]);
                let ctx = ctx.as_ref().unwrap();
                let r = attempt(|| {
                    PARSER.with(|p| {
                        let t = match p.parse(&txt) {
                            Err(_) => return json!({"res": "text", "cols": []}),
                            Ok(t) => t,
                        };
                        if t.validate_type(ctx).is_err() {
                            return json!({"res": "err", "cols": []});
                        }
                        let cols = match &t {
                            SqlStatement::Statement(Statement::Select(q)) => match q.verif_columns(ctx) {
                                Err(_) => return json!({"res": "fickle", "cols": []}),
                                Ok(c) => c,
                            },
                            _ => Vec::new(),
                        };
                        json!({"res": "ok", "cols": cols.iter().map(|(n, t, z)| json!({"n": cps(n), "t": type_name(*t), "z": z})).collect::<Vec<_>>()})
                    })
                });
                r.unwrap_or(json!({"res": "panic", "cols": []}))
            }
            x => panic!("{}", x),
        });
    }
    json!({ "obs": out })
}

fn sign(o: Cmp) -> i32 {
    o as i32
}

pub fn catalog(case: &Value) -> Value {
    let mut out = Vec::new();
    let mut d = Database::new();
    for s in case["steps"].as_array().unwrap() {
        out.push(match s["op"].as_str().unwrap() {
            "create" => match attempt(|| d.create_schema(&nm(&s["n"])).is_ok()) {
                None => json!({"res": "panic", "db": contents(&d)}),
                Some(ok) => json!({"res": if ok { "ok" } else { "err" }, "db": contents(&d)}),
            },
            // objects are put into the public maps, as there is no operation for it yet
            "put" => {
                let o = &s["o"];
                let r = attempt(|| match d.schemata.get_mut(&nm(&s["n"])) {
                    None => "err",
                    Some(x) => {
                        x.objects.insert(nm(&o["n"]), object(o));
                        "ok"
                    }
                });
                json!({"res": r.unwrap_or("panic"), "db": contents(&d)})
            }
            "describe" => match attempt(|| d.describe(&nm(&s["n"]), &nm(&s["m"])).ok()) {
                None => json!({"res": "panic", "cols": []}),
                Some(None) => json!({"res": "err", "cols": []}),
                Some(Some(r)) => json!({"res": "ok", "cols": r.columns.iter().map(from_column).collect::<Vec<_>>()}),
            },
            "reload" => {
                let r = attempt(|| {
                    let t = if s["how"] == "value" {
                        let v = serde_json::to_value(&d).ok()?;
                        serde_json::from_value::<Database>(v).ok()
                    } else {
                        let t = serde_json::to_string(&d).ok()?;
                        serde_json::from_str::<Database>(&t).ok()
                    };
                    t
                });
                let res = match r {
                    None => "panic",
                    Some(None) => "err",
                    Some(Some(x)) => {
                        d = x;
                        "ok"
                    }
                };
                json!({"res": res, "db": contents(&d)})
            }
            "meta" => attempt(|| json!({"res": "ok", "cols": RowSet::meta_data().columns.iter().map(from_column).collect::<Vec<_>>(),
                                        "none": RowSet::empty().columns.len()})).unwrap_or(json!({"res": "panic"})),
            // relations between names
            "names" => {
                let ns: Vec<Name> = s["ns"].as_array().unwrap().iter().map(nm).collect();
                let m = |f: &dyn Fn(&Name, &Name) -> Value| {
                    ns.iter().map(|a| ns.iter().map(|b| attempt(|| f(a, b)).unwrap_or(json!("panic"))).collect::<Vec<_>>()).collect::<Vec<_>>()
                };
                json!({
                    "text": ns.iter().map(|x| cps(x.as_str())).collect::<Vec<_>>(),
                    "show": ns.iter().map(|x| cps(&format!("{}", x))).collect::<Vec<_>>(),
                    "eq": m(&|a, b| json!(a == b)),
                    "ne": m(&|a, b| json!(a != b)),
                    "seq": m(&|a, b| json!(a == b.as_str())),
                    "cmp": m(&|a, b| json!(sign(a.cmp(b)))),
                    "pcmp": m(&|a, b| json!(a.partial_cmp(b).map(sign).unwrap_or(9))),
                    "scmp": m(&|a, b| json!(a.partial_cmp(b.as_str()).map(sign).unwrap_or(9))),
                    "sorted": attempt(|| { let mut v = ns.clone(); v.sort(); v.iter().map(|x| cps(x.as_str())).collect::<Vec<_>>() }).unwrap_or(vec![]),
                    "keys": std::collections::BTreeSet::from_iter(ns.iter().cloned()).len(),
                })
            }
            x => panic!("{}", x),
        });
    }
    json!({ "obs": out })
}
