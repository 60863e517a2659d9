//! Runs the implementation: source text -> syntax tree -> document -> layout -> SVG, the way its
//! command line tool does.
use seiren::{
    erd::Module,
    layout::{LayoutEngine, SimpleLayoutEngine},
    parser::parse,
    renderer::{Renderer, SVGRenderer},
};

pub struct Parsed {
    pub ast: Option<Module>,
    /// (start, end) of every diagnostic, lexical ones first
    pub lex: Vec<(usize, usize)>,
    pub syn: Vec<(usize, usize)>,
}
impl Parsed {
    pub fn ok(&self) -> bool {
        self.lex.is_empty() && self.syn.is_empty()
    }
}
pub fn read(src: &str) -> Parsed {
    let (ast, e1, e2) = parse(src);
    let lex = e1.iter().map(|e| (e.span().start, e.span().end)).collect();
    let syn = e2.iter().map(|e| (e.span().start, e.span().end)).collect();
    Parsed { ast, lex, syn }
}
/// Lays out a document and draws it; also returns the engine's view box.
pub fn draw_doc(doc: &mut seiren::mir::Document) -> (String, Option<seiren::geometry::Rect>) {
    let mut en = SimpleLayoutEngine::new();
    let vb = en.place_nodes(doc);
    en.place_terminal_ports(doc);
    en.draw_edge_path(doc);
    (svg(doc, vb), vb)
}
pub fn svg(doc: &seiren::mir::Document, vb: Option<seiren::geometry::Rect>) -> String {
    let mut r = SVGRenderer::new();
    r.view_box = vb;
    let mut out = vec![];
    r.render(doc, &mut out).expect("the document could not be rendered");
    String::from_utf8(out).expect("the output is not UTF-8")
}
pub fn draw(m: &Module) -> String {
    draw_doc(&mut m.into_mir()).0
}

use crate::model as m;
use seiren::erd;

pub fn ty(t: &erd::EntityFieldType) -> m::Ty {
    match t {
        erd::EntityFieldType::Int => m::Ty::Int,
        erd::EntityFieldType::Uuid => m::Ty::Uuid,
        erd::EntityFieldType::Text => m::Ty::Text,
        erd::EntityFieldType::Timestamp => m::Ty::Timestamp,
    }
}
fn path(p: &erd::EntityPath) -> m::Path {
    match p {
        erd::EntityPath::Entity(e) => m::Path { entity: e.clone(), field: None },
        erd::EntityPath::Field(e, f) => m::Path { entity: e.clone(), field: Some(f.clone()) },
    }
}
/// The implementation's syntax tree in the harness's terms.
pub fn to_doc(x: &Module) -> m::Doc {
    let entries = x
        .entries()
        .map(|e| match e {
            erd::ModuleEntry::EntityDefinition(d) => m::Entry::Entity {
                name: d.name().to_string(),
                fields: d
                    .fields()
                    .map(|f| m::Field {
                        name: f.name().to_string(),
                        ty: ty(f.field_type()),
                        key: f.field_key().map(|k| match k {
                            erd::EntityFieldKey::PrimaryKey => m::Key::Pk,
                            erd::EntityFieldKey::ForeginKey => m::Key::Fk,
                        }),
                    })
                    .collect(),
            },
            erd::ModuleEntry::EntityRelation(r) => {
                m::Entry::Rel { a: path(r.start_path()), b: path(r.end_path()) }
            }
        })
        .collect();
    m::Doc { name: x.name().map(|s| s.to_string()), entries }
}
/// The implementation's syntax tree of a module, built without the parser.
pub fn build(d: &m::Doc) -> Module {
    use erd::*;
    let mut x = Module::new(d.name.clone());
    let pa = |p: &m::Path| match &p.field {
        None => EntityPath::Entity(p.entity.clone()),
        Some(f) => EntityPath::Field(p.entity.clone(), f.clone()),
    };
    for e in &d.entries {
        match e {
            m::Entry::Entity { name, fields } => {
                let mut t = EntityDefinition::new(name.clone());
                for f in fields {
                    let ty = match f.ty {
                        m::Ty::Int => EntityFieldType::Int,
                        m::Ty::Uuid => EntityFieldType::Uuid,
                        m::Ty::Text => EntityFieldType::Text,
                        m::Ty::Timestamp => EntityFieldType::Timestamp,
                    };
                    let key = f.key.map(|k| match k {
                        m::Key::Pk => EntityFieldKey::PrimaryKey,
                        m::Key::Fk => EntityFieldKey::ForeginKey,
                    });
                    t.add_field(EntityField::new(f.name.clone(), ty, key));
                }
                x.add_entity_definition(t);
            }
            m::Entry::Rel { a, b } => x.add_entity_relation(EntityRelation::new(pa(a), pa(b))),
        }
    }
    x
}
